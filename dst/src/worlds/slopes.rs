//! A caller's function told apart into its derivatives: a random program read at every scalar the
//! library offers, against its own power series.

use crate::core::*;
use crate::ensure;
use multicalc::approximation::{LinearApproximator, QuadraticApproximator};
use multicalc::error::DiffError;
use multicalc::numerical_derivative::{
    AutoDiffMulti, AutoDiffSingle, DerivatorMultiVariable, DerivatorSingleVariable, FiniteDifferenceMode, FiniteDifferenceMulti,
    FiniteDifferenceSingle, Hessian, Jacobian, derivative, partial, second_derivative,
};
use multicalc::scalar::{Dual, HyperDual, Jet, Numeric, Primal, ScalarFn, ScalarFnN, VectorFn, constant};
use multicalc::vector_field::{curl_2d, curl_3d, divergence_2d, divergence_3d};
use std::cell::Cell;
use std::sync::OnceLock;

pub struct Slopes;

trait Width: Numeric + Primal {
    const EPS: f64;
    fn of(v: f64) -> Self {
        Self::from_f64(v)
    }
    fn f(self) -> f64 {
        self.to_f64()
    }
}
impl Width for f64 {
    const EPS: f64 = f64::EPSILON;
}
impl Width for f32 {
    const EPS: f64 = f32::EPSILON as f64;
}

// ----- Power series in a few variables, each coefficient with what rounding may have done to it -----

struct Shape {
    exps: Vec<[usize; 4]>,
    mul: Vec<(usize, usize, usize)>,
}

/// One variable to the sixth power, several to the third together.
fn shape(n: usize) -> &'static Shape {
    static ALL: OnceLock<Vec<Shape>> = OnceLock::new();
    &ALL.get_or_init(|| {
        (0..=4)
            .map(|n| {
                let d = if n <= 1 { 6 } else { 3 };
                let mut exps: Vec<[usize; 4]> = vec![];
                for code in 0..(d + 1usize).pow(n as u32) {
                    let mut e = [0; 4];
                    let mut rest = code;
                    for slot in e.iter_mut().take(n) {
                        *slot = rest % (d + 1);
                        rest /= d + 1;
                    }
                    if e.iter().sum::<usize>() <= d {
                        exps.push(e);
                    }
                }
                exps.sort_by_key(|e| e.iter().sum::<usize>());
                let mut mul = vec![];
                for (i, a) in exps.iter().enumerate() {
                    for (j, b) in exps.iter().enumerate() {
                        let sum: [usize; 4] = std::array::from_fn(|k| a[k] + b[k]);
                        if let Some(k) = exps.iter().position(|e| *e == sum) {
                            mul.push((i, j, k));
                        }
                    }
                }
                Shape { exps, mul }
            })
            .collect()
    })[n]
}

#[derive(Clone)]
struct Ser {
    sh: &'static Shape,
    eps: f64,
    c: Vec<f64>,
    e: Vec<f64>,
}

const L: usize = 8;
type Uni = [f64; L];

impl Ser {
    fn konst(&self, v: f64) -> Ser {
        let mut s = Ser { c: vec![0.0; self.c.len()], e: vec![0.0; self.c.len()], ..self.clone() };
        s.c[0] = v;
        s
    }
    fn var(n: usize, i: usize, at: f64, eps: f64) -> Ser {
        let sh = shape(n);
        let mut s = Ser { sh, eps, c: vec![0.0; sh.exps.len()], e: vec![0.0; sh.exps.len()] };
        s.c[0] = at;
        let mut e = [0; 4];
        e[i] = 1;
        s.c[sh.exps.iter().position(|x| *x == e).unwrap()] = 1.0;
        s
    }
    fn zip(&self, o: &Ser, f: impl Fn(f64, f64) -> f64) -> Ser {
        let c: Vec<f64> = self.c.iter().zip(&o.c).map(|(a, b)| f(*a, *b)).collect();
        let e = (0..c.len()).map(|k| self.e[k] + o.e[k] + self.eps * c[k].abs()).collect();
        Ser { c, e, ..self.clone() }
    }
    fn add(&self, o: &Ser) -> Ser {
        self.zip(o, |a, b| a + b)
    }
    fn sub(&self, o: &Ser) -> Ser {
        self.zip(o, |a, b| a - b)
    }
    fn scale(&self, k: f64) -> Ser {
        Ser {
            c: self.c.iter().map(|v| v * k).collect(),
            e: self.c.iter().zip(&self.e).map(|(v, e)| (e + 4.0 * self.eps * v.abs()) * k.abs()).collect(),
            ..self.clone()
        }
    }
    fn mul(&self, o: &Ser) -> Ser {
        let mut s = self.konst(0.0);
        for &(i, j, k) in &self.sh.mul {
            s.c[k] += self.c[i] * o.c[j];
            s.e[k] += 4.0 * self.eps * (self.c[i] * o.c[j]).abs() + self.e[i] * o.c[j].abs() + self.c[i].abs() * o.e[j] + self.e[i] * o.e[j];
        }
        s
    }
    /// A function of one number laid over this series, from its own series here.
    fn over(&self, g: &Uni, floor: f64) -> Ser {
        let mut h = self.clone();
        h.c[0] = 0.0;
        h.e[0] = 0.0;
        let mut top = floor;
        let wrong: Vec<f64> = (0..L - 1)
            .map(|k| {
                top = top.max(g[k].abs()).max(g[k + 1].abs());
                32.0 * self.eps * top + (k + 1) as f64 * g[k + 1].abs() * self.e[0]
            })
            .collect();
        let last = L - 2;
        let mut s = self.konst(g[last]);
        s.e[0] = wrong[last];
        for k in (0..last).rev() {
            s = s.mul(&h);
            s.c[0] += g[k];
            s.e[0] += wrong[k];
        }
        s
    }
    fn recip(&self) -> Option<Ser> {
        let x = self.c[0];
        (x.abs() > 0.01 + 1e3 * self.e[0]).then(|| self.over(&std::array::from_fn(|k| (-1.0f64).powi(k as i32) / x.powi(k as i32 + 1)), 0.0))
    }
    /// How steep the function is along these variables, one after another.
    fn slope(&self, along: &[usize]) -> (f64, f64) {
        let mut e = [0; 4];
        for i in along {
            e[*i] += 1;
        }
        let k = self.sh.exps.iter().position(|x| *x == e).unwrap();
        let f: f64 = e.iter().map(|n| (1..=*n).product::<usize>() as f64).product();
        (self.c[k] * f, self.e[k] * f)
    }
}

fn umul(a: &Uni, b: &Uni) -> Uni {
    std::array::from_fn(|k| (0..=k).map(|i| a[i] * b[k - i]).sum())
}
fn udiv(a: &Uni, b: &Uni) -> Uni {
    let mut q = [0.0; L];
    for k in 0..L {
        q[k] = (a[k] - (0..k).map(|i| q[i] * b[k - i]).sum::<f64>()) / b[0];
    }
    q
}
fn upow(b: &Uni, power: f64) -> Uni {
    let mut p = [0.0; L];
    p[0] = b[0].powf(power);
    for k in 1..L {
        p[k] = (1..=k).map(|j| (power * j as f64 - (k - j) as f64) * b[j] * p[k - j]).sum::<f64>() / (k as f64 * b[0]);
    }
    p
}
fn unto(first: f64, slope: &Uni) -> Uni {
    std::array::from_fn(|k| if k == 0 { first } else { slope[k - 1] / k as f64 })
}
fn fact(k: usize) -> f64 {
    (1..=k).product::<usize>() as f64
}

// ----- Programs -----

#[derive(Clone, Copy, Debug)]
struct Ins {
    op: usize,
    a: usize,
    b: usize,
    c: usize,
    k: f64,
}

const OPS: usize = 54;
/// Those that are smooth wherever they are read, and do not run away.
const SMOOTH: [usize; 14] = [0, 1, 2, 4, 5, 6, 7, 11, 12, 20, 25, 45, 47, 49];
const HALVE: usize = 5;

fn apply<S: Numeric>(i: &Ins, r: &[S]) -> S {
    let (a, b, c, k) = (r[i.a], r[i.b], r[i.c], i.k);
    let num = S::from_f64;
    match i.op {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        3 => a / b,
        4 => -a,
        5 => constant(k) * a,
        6 => constant(k) + a,
        7 => constant(k) - a,
        8 => constant(k) / a,
        9 => a.sqrt(),
        10 => a.cbrt(),
        11 => a.sin(),
        12 => a.cos(),
        13 => a.tan(),
        14 => a.exp(),
        15 => a.log(),
        16 => a.expm1(),
        17 => a.ln_1p(),
        18 => a.log2(),
        19 => a.log10(),
        20 => a.atan(),
        21 => a.asin(),
        22 => a.acos(),
        23 => a.sinh(),
        24 => a.cosh(),
        25 => a.tanh(),
        26 => a.recip(),
        27 => a.powi(power(k)),
        28 => a.powf(num(k)),
        29 => a.powf(b),
        30 => a.atan2(b),
        31 => a.hypot(b),
        32 => a.abs(),
        33 => a.signum(),
        34 => a.floor(),
        35 => a.ceil(),
        36 => a.round(),
        37 => a.trunc(),
        38 => a.wrap_to_pi(),
        39 => a.to_radians(),
        40 => a.to_degrees(),
        41 => a.clamp(S::Constant::from_f64(k), S::Constant::from_f64(k + 1.0)),
        42 => a.copysign(b),
        43 => a.max(b),
        44 => a.min(b),
        45 => a.mul_add(b, c),
        46 => a.safe_div(b),
        47 => {
            let mut x = a;
            x += b;
            x *= c;
            x -= a;
            x
        }
        48 => {
            let mut x = a;
            x /= b;
            x
        }
        49 => num(k),
        50 => a * S::PI + S::TWO,
        51 => a * S::from_usize(3) - S::from_u64(7) * b,
        52 => {
            if a < b {
                a * a
            } else {
                b * S::THREE
            }
        }
        _ => (S::HALF * a + S::ONE) * S::TEN / S::HUNDRED,
    }
}
fn power(k: f64) -> i32 {
    k.clamp(-4.0, 6.0).round() as i32
}

/// The same step on a series; nothing where the step has no series, or nearly none.
fn refer(i: &Ins, r: &[Ser]) -> Option<Ser> {
    let (a, b, c, k) = (&r[i.a], &r[i.b], &r[i.c], i.k);
    let x = a.c[0];
    let near = 0.01 + 1e3 * a.e[0];
    let nearer = near + 0.01 + 1e3 * b.e[0];
    let base: Uni = std::array::from_fn(|k| [x, 1.0].get(k).copied().unwrap_or(0.0));
    let one: Uni = std::array::from_fn(|k| (k == 0) as u8 as f64);
    let whole = |v: f64| (v - v.round()).abs() > near;
    let exp: Uni = std::array::from_fn(|k| x.exp() / fact(k));
    let ln = |at: f64, value: f64, by: f64| -> Uni {
        std::array::from_fn(|k| if k == 0 { value } else { -(-1.0f64).powi(k as i32) / (k as f64 * at.powi(k as i32)) / by })
    };
    let wave = |shift: usize| -> Uni { std::array::from_fn(|k| [x.sin(), x.cos(), -x.sin(), -x.cos()][(k + shift) % 4] / fact(k)) };
    let hyper = |odd: usize| -> Uni { std::array::from_fn(|k| if (k + odd) % 2 == 0 { x.sinh() } else { x.cosh() } / fact(k)) };
    let round_square = |sign: f64| -> Uni {
        let q = umul(&base, &base);
        std::array::from_fn(|k| one[k] + sign * q[k])
    };
    Some(match i.op {
        0 => a.add(b),
        1 => a.sub(b),
        2 => a.mul(b),
        3 | 46 | 48 => a.mul(&b.recip()?),
        4 => a.scale(-1.0),
        5 => a.scale(k),
        6 => a.add(&a.konst(k)),
        7 => a.konst(k).sub(a),
        8 => a.recip()?.scale(k),
        9 if x > near => a.over(&upow(&base, 0.5), 0.0),
        10 if x.abs() > near => {
            let g = upow(&std::array::from_fn(|k| [x.abs(), 1.0].get(k).copied().unwrap_or(0.0)), 1.0 / 3.0);
            a.over(&std::array::from_fn(|k| if x < 0.0 { -(-1.0f64).powi(k as i32) * g[k] } else { g[k] }), 0.0)
        }
        11 => a.over(&wave(0), 0.0),
        12 => a.over(&wave(1), 0.0),
        13 if x.cos().abs() > 0.05 + near => a.over(&udiv(&wave(0), &wave(1)), 0.0),
        14 => a.over(&exp, 0.0),
        15 if x > near => a.over(&ln(x, x.ln(), 1.0), 0.0),
        16 => a.over(&std::array::from_fn(|k| if k == 0 { x.exp_m1() } else { exp[k] }), 0.0),
        17 if x + 1.0 > near => a.over(&ln(1.0 + x, x.ln_1p(), 1.0), 0.0),
        18 if x > near => a.over(&ln(x, x.log2(), 2f64.ln()), 0.0),
        19 if x > near => a.over(&ln(x, x.log10(), 10f64.ln()), 0.0),
        20 => a.over(&unto(x.atan(), &udiv(&one, &round_square(1.0))), 1.0),
        21 if x.abs() < 0.98 - near => a.over(&unto(x.asin(), &upow(&round_square(-1.0), -0.5)), 1.0),
        22 if x.abs() < 0.98 - near => {
            let g = unto(x.acos(), &upow(&round_square(-1.0), -0.5));
            a.over(&std::array::from_fn(|k| if k == 0 { g[0] } else { -g[k] }), 1.0)
        }
        23 => a.over(&hyper(0), x.cosh()),
        24 => a.over(&hyper(1), x.cosh()),
        25 => a.over(&if x.abs() > 300.0 { std::array::from_fn(|k| if k == 0 { x.signum() } else { 0.0 }) } else { udiv(&hyper(0), &hyper(1)) }, 1.0),
        26 => a.recip()?,
        27 => {
            let n = power(k);
            let mut s = a.konst(1.0);
            for _ in 0..n.abs() {
                s = s.mul(a);
            }
            if n < 0 { s.recip()? } else { s }
        }
        28 if x > near => {
            // Its value from the binomial series; what it may lose, from the way by logarithms too.
            let mut s = a.over(&upow(&base, k), 1.0);
            let round = a.over(&ln(x, x.ln(), 1.0), 0.0).scale(k);
            let v = round.c[0].exp();
            let round = round.over(&std::array::from_fn(|k| v / fact(k)), 0.0);
            for (e, other) in s.e.iter_mut().zip(&round.e) {
                *e = e.max(*other);
            }
            s
        }
        29 if x > near => {
            let s = a.over(&ln(x, x.ln(), 1.0), 0.0).mul(b);
            let v = s.c[0].exp();
            s.over(&std::array::from_fn(|k| v / fact(k)), 0.0)
        }
        30 if x.hypot(b.c[0]) > nearer && (b.c[0] > nearer || x.abs() > nearer) => {
            let (y0, x0) = (x, b.c[0]);
            let r0 = x0.hypot(y0);
            // Turned so that it points ahead; then the angle is small and has a plain series.
            let ahead = b.scale(x0 / r0).add(&a.scale(y0 / r0));
            let mut aside = a.scale(x0 / r0).sub(&b.scale(y0 / r0));
            aside.c[0] = 0.0;
            let t = aside.mul(&ahead.recip()?);
            let zero: Uni = std::array::from_fn(|k| if k % 2 == 1 { [1.0, -1.0][k / 2 % 2] / k as f64 } else { 0.0 });
            let s = t.over(&zero, 1.0);
            s.add(&s.konst(y0.atan2(x0)))
        }
        31 if x.abs() > nearer && b.c[0].abs() > nearer => {
            let s = a.mul(a).add(&b.mul(b));
            let at: Uni = std::array::from_fn(|k| [s.c[0], 1.0].get(k).copied().unwrap_or(0.0));
            s.over(&upow(&at, 0.5), 0.0)
        }
        32 if x.abs() > near => a.scale(x.signum()),
        33 if x.abs() > near => a.konst(x.signum()),
        34 if whole(x) => a.konst(x.floor()),
        35 if whole(x) => a.konst(x.ceil()),
        36 if whole(x + 0.5) => a.konst(x.round()),
        37 if whole(x) => a.konst(x.trunc()),
        38 => {
            let turns = x / std::f64::consts::TAU;
            if !whole(turns + 0.5) {
                return None;
            }
            let mut s = a.add(&a.konst(-std::f64::consts::TAU * turns.round()));
            s.e[0] += 8.0 * a.eps * x.abs();
            s
        }
        39 => a.scale(std::f64::consts::PI / 180.0),
        40 => a.scale(180.0 / std::f64::consts::PI),
        41 if (x - k).abs() > near && (x - k - 1.0).abs() > near => {
            if x < k {
                a.konst(k)
            } else if x > k + 1.0 {
                a.konst(k + 1.0)
            } else {
                a.clone()
            }
        }
        42 if x.abs() > near && b.c[0].abs() > nearer => a.scale(x.signum() * b.c[0].signum()),
        43 if (x - b.c[0]).abs() > nearer => if x > b.c[0] { a } else { b }.clone(),
        44 if (x - b.c[0]).abs() > nearer => if x < b.c[0] { a } else { b }.clone(),
        45 => a.mul(b).add(c),
        47 => a.add(b).mul(c).sub(a),
        49 => a.konst(k),
        50 => a.scale(std::f64::consts::PI).add(&a.konst(2.0)),
        51 => a.scale(3.0).sub(&b.scale(7.0)),
        52 if (x - b.c[0]).abs() > nearer => {
            if x < b.c[0] {
                a.mul(a)
            } else {
                b.scale(3.0)
            }
        }
        53 => a.scale(0.5).add(&a.konst(1.0)).scale(0.1),
        _ => return None,
    })
}

struct Prog {
    code: Vec<Ins>,
    read: Cell<usize>,
    broken_at: usize,
    /// Where the function was read: below the place it was asked about, and above it.
    place: Vec<f64>,
    below: Cell<bool>,
    above: Cell<bool>,
}

impl Prog {
    /// The part of an event that is a program, made sound for the place it is read at.
    fn new(code: &[f64], start: &[Ser], smooth: bool) -> (Prog, Vec<Ser>) {
        let mut regs: Vec<Ser> = start.to_vec();
        let mut made: Vec<Ins> = vec![];
        let sound = |s: &Ser| {
            let room = if s.eps > 1e-10 { 1e-2 } else { 1e-7 };
            s.c.iter().zip(&s.e).all(|(c, e)| c.abs() < 1e4 && *e * 64.0 < room * (1.0 + c.abs()))
        };
        for w in code.chunks(5).take(40) {
            if w.len() < 5 {
                break;
            }
            let u = |v: f64| if v.is_finite() && v > 0.0 { v as usize } else { 0 };
            let reg = |v: f64| regs.len() - 1 - u(v) % regs.len();
            let k = if w[4].is_finite() { (w[4].clamp(-8.0, 8.0) * 64.0).round() / 64.0 } else { 1.0 };
            let op = if smooth { SMOOTH[u(w[0]) % SMOOTH.len()] } else { u(w[0]) % OPS };
            let mut i = Ins { op, a: reg(w[1]), b: reg(w[2]), c: reg(w[3]), k };
            let s = match refer(&i, &regs) {
                Some(s) if sound(&s) => s,
                _ => {
                    i = Ins { op: HALVE, k: 0.5, ..i };
                    refer(&i, &regs).unwrap()
                }
            };
            made.push(i);
            regs.push(s);
        }
        let place = start.iter().map(|s| s.c[0]).collect();
        (Prog { code: made, read: Cell::new(0), broken_at: usize::MAX, place, below: Cell::new(false), above: Cell::new(false) }, regs)
    }
    fn on(&self, start: &[Ser]) -> Vec<Ser> {
        let mut regs = start.to_vec();
        for i in &self.code {
            let s = refer(i, &regs).unwrap_or_else(|| {
                let mut s = regs[i.a].clone();
                s.e.iter_mut().for_each(|e| *e = f64::INFINITY);
                s
            });
            regs.push(s);
        }
        regs
    }
    fn regs<S: Numeric>(&self, point: &[S]) -> Vec<S> {
        let n = self.read.get();
        self.read.set(n + 1);
        for (p, at) in point.iter().zip(&self.place) {
            let at = S::from_f64(*at);
            if *p < at {
                self.below.set(true);
            }
            if *p > at {
                self.above.set(true);
            }
        }
        let mut regs: Vec<S> = point.to_vec();
        for i in &self.code {
            regs.push(apply(i, &regs));
        }
        if n == self.broken_at {
            for r in regs.iter_mut() {
                *r = S::NAN * (*r + point[0]) * point.iter().fold(S::ONE, |m, p| m * *p);
            }
        }
        regs
    }
    fn again(&self) {
        self.read.set(0);
        self.below.set(false);
        self.above.set(false);
    }
    fn broke(&self) -> bool {
        self.read.get() > self.broken_at
    }
}

impl ScalarFn for Prog {
    fn eval<S: Numeric>(&self, x: S) -> S {
        *self.regs(&[x]).last().unwrap()
    }
}
impl<const N: usize> ScalarFnN<N> for Prog {
    fn eval<S: Numeric>(&self, point: &[S; N]) -> S {
        *self.regs(point).last().unwrap()
    }
}
impl<const N: usize, const M: usize> VectorFn<N, M> for Prog {
    fn eval<S: Numeric>(&self, point: &[S; N]) -> [S; M] {
        let regs = self.regs(point);
        std::array::from_fn(|i| regs[(regs.len() + i).saturating_sub(M).min(regs.len() - 1)])
    }
}

/// Output `i` of `m`, as a program's vector reading gives it.
fn output<T>(regs: &[T], m: usize, i: usize) -> &T {
    &regs[(regs.len() + i).saturating_sub(m).min(regs.len() - 1)]
}

const ROOM: f64 = 64.0;

/// Beside rounding, only what is too small for the narrower width is let go.
fn close(got: f64, want: (f64, f64)) -> bool {
    if !want.1.is_finite() || !want.0.is_finite() {
        return true;
    }
    (got - want.0).abs() <= ROOM * want.1 + 1e-30
}

// ----- One variable -----

fn one<T: Width>(e: &Ev, cx: &mut Cx) -> R {
    let x = T::of((e.n(0).clamp(-8.0, 8.0) * 64.0).round() / 64.0);
    let at = x.f();
    let line = Ser::var(1, 0, at, T::EPS);
    let (mut f, regs) = Prog::new(e.a.get(10..).unwrap_or(&[]), std::slice::from_ref(&line), false);
    let f_ser = regs.last().unwrap();
    let want = |k: usize| (f_ser.c[k] * fact(k), f_ser.e[k] * fact(k));
    let ad = AutoDiffSingle::<T>::default();
    let plain = ScalarFn::eval(&f, x);
    ensure!(close(plain.f(), want(0)), "a function's value is not the function's | {} want {:?} {:?}", plain.f(), want(0), f.code);
    for order in 1..=6 {
        let got = ad.differentiate(order, &f, x);
        ensure!(got.is_ok_and(|v| close(v.f(), want(order))), "a derivative is not the function's | order {order} {got:?} want {:?} at {at} {:?}", want(order), f.code);
        cx.log(got.unwrap().f());
    }
    let same = |a: T, b: Result<T, DiffError>| b.is_ok_and(|b| (a.f() - b.f()).abs() <= 1e3 * T::EPS * (1.0 + a.f().abs()) || a.f().is_nan() && b.f().is_nan());
    ensure!(same(derivative(&f, x), ad.differentiate(1, &f, x)) && same(second_derivative(&f, x), ad.differentiate(2, &f, x)) && same(derivative(&f, x), ad.first_derivative(&f, x)) && same(second_derivative(&f, x), ad.second_derivative(&f, x)), "a short way to a derivative leads elsewhere | at {at} {:?}", f.code);
    ensure!(ad.differentiate(0, &f, x) == Err(DiffError::OrderZero), "no derivative at all is not refused by name | {:?}", ad.differentiate(0, &f, x));
    for order in [7, 8, 100, usize::MAX] {
        ensure!(ad.differentiate(order, &f, x) == Err(DiffError::OrderUnsupported), "an order beyond reach is not refused by name | {order} {:?}", ad.differentiate(order, &f, x));
    }
    // What each scalar carries, along any curve it is sent.
    let turn = |i: usize| T::of((e.n(i).clamp(-2.0, 2.0) * 64.0).round() / 64.0);
    let (a, b, ab) = (turn(1), turn(2), turn(3));
    let d = ScalarFn::eval(&f, Dual::new(x, a));
    let times = |k: f64, w: (f64, f64)| (k * w.0, k.abs() * (w.1 + 8.0 * T::EPS * w.0.abs()));
    let plus = |v: (f64, f64), w: (f64, f64)| (v.0 + w.0, v.1 + w.1 + T::EPS * (v.0.abs() + w.0.abs()));
    ensure!(close(d.value.f(), want(0)) && close(d.to_f64(), want(0)) && close(d.deriv.f(), times(a.f(), want(1))), "a dual number does not carry the slope it was sent along | {d:?} want {:?} {:?} at {at} {:?}", want(0), times(a.f(), want(1)), f.code);
    let h = ScalarFn::eval(&f, HyperDual::new(x, a, b, ab));
    let bent = plus(times(ab.f(), want(1)), times(a.f() * b.f(), want(2)));
    ensure!(close(h.real.f(), want(0)) && close(h.to_f64(), want(0)) && close(h.eps1.f(), times(a.f(), want(1))) && close(h.eps2.f(), times(b.f(), want(1))) && close(h.eps1eps2.f(), bent), "a hyper-dual number does not carry the bend it was sent along | {h:?} want {:?} {bent:?} at {at} {:?}", want(1), f.code);
    let mut curve = line.clone();
    let mut sent = [x; 7];
    for k in 1..7 {
        sent[k] = turn(k);
        curve.c[k] = sent[k].f();
    }
    let along = f.on(std::slice::from_ref(&curve));
    let along = along.last().unwrap();
    let j = ScalarFn::eval(&f, Jet::<T, 7>::new(sent));
    let short = ScalarFn::eval(&f, Jet::<T, 4>::new(std::array::from_fn(|k| sent[k])));
    for k in 0..7 {
        ensure!(close(j.coefficient(k).f(), (along.c[k], along.e[k])) && close(j.coeffs[k].f(), (along.c[k], along.e[k])), "a jet does not carry the curve it was sent along | {k} {j:?} want {:?} sent {sent:?} {:?}", along.c, f.code);
        ensure!(k > 3 || close(short.coeffs[k].f(), (along.c[k], along.e[k])), "a shorter jet is not the start of a longer one | {k} {short:?} want {:?} sent {sent:?} {:?}", along.c, f.code);
        ensure!(close(j.derivative(k).f(), (along.c[k] * fact(k), (along.e[k] + 8.0 * T::EPS * along.c[k].abs()) * fact(k))), "a jet's derivative is not its coefficient's | {k} {j:?}");
    }
    ensure!(close(j.value().f(), want(0)) && close(j.to_f64(), want(0)), "a jet's value is not the function's | {j:?} want {:?}", want(0));
    let (start, go) = (ScalarFn::eval(&f, Jet::<T, 4>::variable(x)), ScalarFn::eval(&f, Jet::<T, 4>::constant(x)));
    ensure!((0..4).all(|k| close(start.coeffs[k].f(), (f_ser.c[k], f_ser.e[k]))) && close(go.coeffs[0].f(), want(0)) && go.coeffs[1..].iter().all(|v| v.f() == 0.0), "a jet of a constant moves, or of a variable does not | {start:?} {go:?} at {at} {:?}", f.code);
    // One inside another.
    let dd = ScalarFn::eval(&f, Dual::variable(Dual::variable(x)));
    let dj = ScalarFn::eval(&f, Dual::new(Jet::<T, 4>::variable(x), Jet::ONE));
    let jd = ScalarFn::eval(&f, Jet::<Dual<T>, 4>::variable(Dual::variable(x)));
    let hh = ScalarFn::eval(&f, HyperDual::new(HyperDual::variable(x), HyperDual::ONE, HyperDual::ONE, HyperDual::ZERO));
    ensure!(close(dd.deriv.deriv.f(), want(2)) && close(dd.value.deriv.f(), want(1)) && close(dd.deriv.value.f(), want(1)), "a dual of duals does not bend | {dd:?} want {:?} {:?} at {at} {:?}", want(1), want(2), f.code);
    let wide = |w: (f64, f64)| (w.0, 4.0 * w.1);
    for k in 0..4 {
        let next = wide((f_ser.c[k + 1] * (k + 1) as f64, f_ser.e[k + 1] * (k + 1) as f64));
        ensure!(close(dj.deriv.coeffs[k].f(), next) && close(jd.coeffs[k].deriv.f(), next), "a dual and a jet, one in the other, do not agree with the function | {k} {dj:?} {jd:?} want {next:?} at {at} {:?}", f.code);
    }
    ensure!(close(hh.eps1eps2.eps1eps2.f(), wide(want(4))) && close(hh.eps1.eps1eps2.f(), wide(want(3))), "a hyper-dual of hyper-duals does not reach the fourth derivative | {hh:?} want {:?} at {at} {:?}", want(4), f.code);
    // A function that answers no number.
    f.again();
    f.broken_at = 0;
    let order = e.u(9) % 6 + 1;
    let got = ad.differentiate(order, &f, x);
    cx.fault("a function that answers no number");
    ensure!(at == 0.0 || got.is_err() || got.is_ok_and(|v| !v.f().is_finite()), "a function that answers no number has a slope | order {order} {got:?} at {at}");
    cx.reach("one variable");
    for i in &f.code {
        cx.state(&[1, i.op as i64]);
    }
    Ok(())
}

// ----- Several -----

fn point<T: Width, const N: usize>(e: &Ev, from: usize) -> [T; N] {
    std::array::from_fn(|i| T::of((e.n(from + i).clamp(-8.0, 8.0) * 64.0).round() / 64.0))
}

struct Nothing;
impl<const N: usize> VectorFn<N, 0> for Nothing {
    fn eval<S: Numeric>(&self, _: &[S; N]) -> [S; 0] {
        []
    }
}

fn many<T: Width, const N: usize>(e: &Ev, cx: &mut Cx) -> R {
    let p: [T; N] = point(e, 0);
    let start: Vec<Ser> = (0..N).map(|i| Ser::var(N, i, p[i].f(), T::EPS)).collect();
    let (mut f, regs) = Prog::new(e.a.get(16..).unwrap_or(&[]), &start, false);
    let out = regs.last().unwrap();
    let (i, j, k) = (e.u(4) % N, e.u(5) % N, e.u(6) % N);
    let ad = AutoDiffMulti::<T>::default();
    let here = || format!("at {:?} {:?}", p, f.code);
    let value = ScalarFnN::eval(&f, &p);
    ensure!(close(value.f(), (out.c[0], out.e[0])), "a function of several is not its value | {value:?} want {} {}", out.c[0], here());
    let fine = |got: Result<T, DiffError>, along: &[usize]| got.is_ok_and(|v| close(v.f(), out.slope(along)));
    let got = ad.differentiate(&f, &[i], &p);
    ensure!(fine(got, &[i]) && got == ad.first_partial_derivative(&f, i, &p) && got == partial(&f, i, &p), "a slope along one variable is not the function's | {i} {got:?} want {:?} {}", out.slope(&[i]), here());
    let got = ad.differentiate(&f, &[i, j], &p);
    ensure!(fine(got, &[i, j]) && got == ad.second_partial_derivative(&f, &[i, j], &p), "a bend along two variables is not the function's | {i} {j} {got:?} want {:?} {}", out.slope(&[i, j]), here());
    let got = ad.differentiate(&f, &[i, j, k], &p);
    ensure!(fine(got, &[i, j, k]), "a third derivative along three variables is not the function's | {i} {j} {k} {got:?} want {:?} {}", out.slope(&[i, j, k]), here());
    cx.log(got.unwrap().f());
    // What cannot be asked.
    let beyond = N + e.u(7) % 5;
    let may = |got: Result<T, DiffError>, which: &[DiffError]| got.is_err_and(|err| which.contains(&err));
    ensure!(may(ad.differentiate(&f, &[beyond], &p), &[DiffError::IndexOutOfRange]) && may(ad.differentiate(&f, &[i, beyond], &p), &[DiffError::IndexOutOfRange]) && may(ad.differentiate(&f, &[beyond, i, j], &p), &[DiffError::IndexOutOfRange]) && may(ad.differentiate(&f, &[i, j, usize::MAX], &p), &[DiffError::IndexOutOfRange]) && may(partial(&f, beyond, &p), &[DiffError::IndexOutOfRange]), "a variable there is none of is not refused by name | {beyond} {}", here());
    ensure!(may(ad.differentiate(&f, &[], &p), &[DiffError::OrderZero]) && may(ad.differentiate(&f, &[i, j, k, i], &p), &[DiffError::OrderUnsupported]) && may(ad.differentiate(&f, &[i, j, k, i, j], &p), &[DiffError::OrderUnsupported]), "an order there is none of is not refused by name | {}", here());
    ensure!(DerivatorMultiVariable::jacobian_column::<_, N, 2>(&ad, &f, beyond, &p) == Err(DiffError::IndexOutOfRange), "a column there is none of is not refused by name | {beyond}");
    cx.fault("a derivative that cannot be");
    // All of them in a table.
    let jac = Jacobian::<AutoDiffMulti<T>>::default();
    ensure!(jac.evaluate(&Nothing, &p).is_err_and(|err| err == DiffError::EmptyFunctionSet) && jac.evaluate_on_heap(&Nothing, &p).is_err_and(|err| err == DiffError::EmptyFunctionSet), "a table of no functions is not refused by name |");
    let table = jac.evaluate::<_, 3, N>(&f, &p).map_err(|err| format!("a table is refused | {err:?}"))?;
    let heap = jac.evaluate_on_heap::<_, 2, N>(&f, &p).map_err(|err| format!("a table is refused | {err:?}"))?;
    ensure!(heap.len() == 2 && heap.iter().all(|r| r.len() == N), "a table has not a row for each function | {heap:?}");
    for col in 0..N {
        let one: [T; 3] = ad.jacobian_column(&f, col, &p).map_err(|err| format!("a column is refused | {err:?}"))?;
        for row in 0..3 {
            let want = output(&regs, 3, row).slope(&[col]);
            ensure!(close(table[(row, col)].f(), want) && close(one[row].f(), want), "a table's entry is not that function along that variable | {row} {col} {:?} {:?} want {want:?} {}", table[(row, col)], one[row], here());
            if row < 2 {
                let want = output(&regs, 2, row).slope(&[col]);
                ensure!(close(heap[row][col].f(), want), "a table on the heap differs from one that is not | {row} {col} {:?} want {want:?} {}", heap[row][col], here());
            }
        }
    }
    let bends = Hessian::<AutoDiffMulti<T>>::default().evaluate(&f, &p).map_err(|err| format!("a table of bends is refused | {err:?}"))?;
    for r in 0..N {
        for c in 0..N {
            ensure!(close(bends[(r, c)].f(), out.slope(&[r, c])) && bends[(r, c)].f() == bends[(c, r)].f(), "a table of bends is not the function's, or not the same both ways | {r} {c} {:?} want {:?} {}", bends[(r, c)], out.slope(&[r, c]), here());
        }
    }
    // Fields.
    let sum = |parts: &[(f64, (f64, f64))]| parts.iter().fold((0.0, 0.0), |s, (k, w)| (s.0 + k * w.0, s.1 + w.1 + 2.0 * T::EPS * w.0.abs()));
    if N >= 2 {
        let part = |i: usize, v: usize| output(&regs, 2, i).slope(&[v]);
        let (curl, div) = (curl_2d(ad, &f, &p), divergence_2d(ad, &f, &p));
        let (c, d) = (sum(&[(1.0, part(1, 0)), (-1.0, part(0, 1))]), sum(&[(1.0, part(0, 0)), (1.0, part(1, 1))]));
        ensure!(curl.is_ok_and(|v| close(v.f(), c)), "a plane field does not turn as it turns | {curl:?} want {c:?} {}", here());
        ensure!(div.is_ok_and(|v| close(v.f(), d)), "a plane field does not spring as it springs | {div:?} want {d:?} {}", here());
        cx.reach("a plane field");
    }
    if N >= 3 {
        let part = |i: usize, v: usize| output(&regs, 3, i).slope(&[v]);
        let (curl, div) = (curl_3d(ad, &f, &p), divergence_3d(ad, &f, &p));
        for axis in 0..3 {
            let (u, v) = ((axis + 1) % 3, (axis + 2) % 3);
            let c = sum(&[(1.0, part(v, u)), (-1.0, part(u, v))]);
            ensure!(curl.is_ok_and(|got| close(got[axis].f(), c)), "a field in space does not turn as it turns | {axis} {curl:?} want {c:?} {}", here());
        }
        let d = sum(&[(1.0, part(0, 0)), (1.0, part(1, 1)), (1.0, part(2, 2))]);
        ensure!(div.is_ok_and(|v| close(v.f(), d)), "a field in space does not spring as it springs | {div:?} want {d:?} {}", here());
        cx.reach("a field in space");
    }
    // A reading that is none is never handed out as a slope.
    f.broken_at = e.u(8);
    let truth = |v: T, along: &[usize]| !v.f().is_finite() || close(v.f(), out.slope(along));
    if p.iter().all(|v| v.f() != 0.0) {
        f.again();
        let bends = Hessian::<AutoDiffMulti<T>>::default().evaluate(&f, &p).map_err(|err| format!("a table of bends is refused | {err:?}"))?;
        let broke = f.broke();
        ensure!((0..N).all(|r| (0..N).all(|c| truth(bends[(r, c)], &[r, c]))), "a broken reading is handed out as a bend | {} {bends:?} at {p:?} {:?}", f.broken_at, f.code);
        f.again();
        let table = jac.evaluate::<_, 3, N>(&f, &p).map_err(|err| format!("a table is refused | {err:?}"))?;
        for c in 0..N {
            let want = |r: usize| output(&regs, 3, r).slope(&[c]);
            ensure!((0..3).all(|r| !table[(r, c)].f().is_finite() || (c != f.broken_at && close(table[(r, c)].f(), want(r)))), "a broken reading is handed out as a slope | {} {table:?} at {p:?} {:?}", f.broken_at, f.code);
        }
        if broke || f.broke() {
            cx.fault("a reading that is none");
        }
    }
    cx.reach("several variables");
    for i in &f.code {
        cx.state(&[2, N as i64, i.op as i64]);
    }
    Ok(())
}

// ----- Approximations -----

fn fits<T: Width, const N: usize, const P: usize>(e: &Ev, cx: &mut Cx) -> R {
    let p: [T; N] = point(e, 0);
    let start: Vec<Ser> = (0..N).map(|i| Ser::var(N, i, p[i].f(), T::EPS)).collect();
    let constant = e.u(7) == 1;
    let mut code = e.a.get(16..).unwrap_or(&[]).to_vec();
    if constant {
        code.extend([49.0, 0.0, 0.0, 0.0, e.n(8)]);
        // A number that is no neat binary one, the same everywhere.
        code.extend([39.0, 0.0, 0.0, 0.0, 0.0]);
    }
    let (mut f, regs) = Prog::new(&code, &start, false);
    let out = regs.last().unwrap();
    let around: [[T; N]; P] = std::array::from_fn(|m| {
        std::array::from_fn(|i| {
            let step = (mix(e.n(9).to_bits(), (m * 7 + i) as u64) >> 11) as f64 / (1u64 << 52) as f64 - 1.0;
            T::of(p[i].f() + e.n(10).clamp(0.0, 4.0) * step)
        })
    });
    let y: Vec<f64> = around.iter().map(|q| ScalarFnN::eval(&f, q).f()).collect();
    let here = format!("at {:?} {:?}", p, f.code);
    let model = |q: &[T; N], bent: bool| -> (f64, f64) {
        let d: Vec<f64> = (0..N).map(|i| q[i].f() - p[i].f()).collect();
        let mut s = (out.c[0], out.e[0]);
        let mut more = |v: (f64, f64), k: f64| {
            s.0 += k * v.0;
            s.1 += k.abs() * (v.1 + 8.0 * T::EPS * v.0.abs()) + T::EPS * v.0.abs() * (0..N).map(|i| q[i].f().abs() + p[i].f().abs()).sum::<f64>();
        };
        for i in 0..N {
            more(out.slope(&[i]), d[i]);
            for j in 0..N {
                if bent {
                    more(out.slope(&[i, j]), 0.5 * d[i] * d[j]);
                }
            }
        }
        s
    };
    let kahan = e.u(11) == 1;
    let sum = |v: &mut dyn Iterator<Item = f64>| v.sum::<f64>();
    let judge = |which: &str, bent: bool, terms: usize, m: [T; 5]| -> R {
        if y.iter().any(|v| !v.is_finite() || v.abs() > 1e6) {
            return Ok(());
        }
        let [mae, mse, rmse, r2, adjusted] = m.map(|v| v.f());
        let n = P as f64;
        let gaps: Vec<(f64, f64)> = around.iter().zip(&y).map(|(q, y)| {
            let w = model(q, bent);
            ((w.0 - y).abs(), ROOM * w.1 + 4.0 * T::EPS * (y.abs() + w.0.abs()) + 1e-30)
        }).collect();
        let want = sum(&mut gaps.iter().map(|g| g.0)) / n;
        let room = sum(&mut gaps.iter().map(|g| g.1 + n * T::EPS * g.0)) / n;
        ensure!((mae - want).abs() <= room, "how far a {which} fit is off is not told | mean {mae} want {want} room {room:e} {here}");
        let want = sum(&mut gaps.iter().map(|g| g.0 * g.0)) / n;
        let room = sum(&mut gaps.iter().map(|g| 2.0 * g.0 * g.1 + g.1 * g.1 + 4.0 * n * T::EPS * g.0 * g.0)) / n + 1e-36;
        ensure!((mse - want).abs() <= room, "how far a {which} fit is off is not told | square {mse} want {want} room {room:e} {here}");
        ensure!((rmse - mse.sqrt()).abs() <= 4.0 * T::EPS * rmse.abs() + 1e-18, "a {which} fit's root is not its square's | {rmse} {mse}");
        let mean = sum(&mut y.iter().copied()) / n;
        let spread = sum(&mut y.iter().map(|v| (v - mean).powi(2)));
        if y.iter().all(|v| *v == y[0]) {
            ensure!(r2.is_nan() && adjusted.is_nan(), "a fit of what never changes explains some of it | {which} {r2} {adjusted} y {} points {P} kahan {kahan}", y[0]);
            return Ok(());
        }
        let size = sum(&mut y.iter().map(|v| v * v));
        let part = mse * n / spread;
        let room = 100.0 * n * T::EPS * (1.0 + part) * (1.0 + (size / spread).sqrt());
        if room < 1e-3 * (1.0 + part) && spread > 1e-30 {
            ensure!((r2 - (1.0 - part)).abs() <= room, "how much a {which} fit explains is not told | {r2} want {} room {room:e} {here}", 1.0 - part);
        }
        if P <= terms + 1 || r2.is_nan() {
            ensure!(adjusted.is_nan(), "a {which} fit with too few points is adjusted | {adjusted} points {P} terms {terms}");
        } else {
            let want = 1.0 - (1.0 - r2) * (n - 1.0) / (n - terms as f64 - 1.0);
            ensure!((adjusted - want).abs() <= 64.0 * T::EPS * (1.0 + want.abs()), "how much a {which} fit explains is not adjusted for its terms | {adjusted} want {want}");
        }
        Ok(())
    };
    let q: [T; N] = point(e, 12);
    let mut flat = LinearApproximator::<AutoDiffMulti<T>>::default();
    let mut bent = QuadraticApproximator::<AutoDiffMulti<T>>::default();
    if kahan {
        (flat, bent) = (flat.with_kahan_summation(), bent.with_kahan_summation());
    }
    f.again();
    let line = flat.approximate(&f, &p).map_err(|err| format!("a fit is refused | {err:?}"))?;
    let bowl = bent.approximate(&f, &p).map_err(|err| format!("a fit is refused | {err:?}"))?;
    ensure!((0..N).all(|i| close(line.coefficients()[i].f(), out.slope(&[i])) && close(bowl.gradient()[i].f(), out.slope(&[i])) && line.point()[i] == p[i] && bowl.point()[i] == p[i]), "a fit's slopes are not the function's | {line:?} {bowl:?} {here}");
    ensure!((0..N).all(|r| (0..N).all(|c| close(bowl.hessian()[r][c].f(), out.slope(&[r, c])))), "a fit's bends are not the function's | {bowl:?} {here}");
    ensure!(close(line.predict(&q).f(), model(&q, false)) && close(bowl.predict(&q).f(), model(&q, true)), "a fit does not say what it fits | {:?} {:?} want {:?} {:?} at {q:?} {here}", line.predict(&q), bowl.predict(&q), model(&q, false), model(&q, true));
    ensure!(close(line.predict(&p).f(), (out.c[0], out.e[0])) && close(bowl.predict(&p).f(), (out.c[0], out.e[0])), "a fit is not the function where it was made | {:?} {:?} {here}", line.predict(&p), bowl.predict(&p));
    let zero = model(&[T::ZERO; N], false);
    ensure!(close(line.intercept().f(), zero), "a fit does not meet the axis where it does | {:?} want {zero:?} {here}", line.intercept());
    let m = line.prediction_metrics(&around, &f);
    judge("flat", false, N, [m.mean_absolute_error, m.mean_squared_error, m.root_mean_squared_error, m.r_squared, m.adjusted_r_squared])?;
    let m = bowl.prediction_metrics(&around, &f);
    judge("bent", true, N + N * (N + 1) / 2, [m.mean_absolute_error, m.mean_squared_error, m.root_mean_squared_error, m.r_squared, m.adjusted_r_squared])?;
    cx.log(bowl.predict(&q).f());
    // A reading that is none.
    f.broken_at = e.u(6);
    if p.iter().all(|v| v.f() != 0.0) {
        f.again();
        let line = flat.approximate(&f, &p).map_err(|err| format!("a fit is refused | {err:?}"))?;
        if f.broke() {
            cx.fault("a reading that is none");
            ensure!(!line.predict(&q).f().is_finite(), "a broken reading is fitted | {} {line:?} {here}", f.broken_at);
        }
        f.again();
        let bowl = bent.approximate(&f, &p).map_err(|err| format!("a fit is refused | {err:?}"))?;
        let got = bowl.predict(&q);
        ensure!(!got.f().is_finite() || close(got.f(), model(&q, true)), "a broken reading is fitted | {} {bowl:?} {here}", f.broken_at);
    }
    cx.reach(if constant { "a fit of what never changes" } else { "a fit" });
    cx.state(&[3, N as i64, P as i64, constant as i64]);
    Ok(())
}

// ----- Steps -----

fn steps<T: Width, const N: usize>(e: &Ev, cx: &mut Cx) -> R {
    let p: [T; N] = point(e, 0);
    let start: Vec<Ser> = (0..N).map(|i| Ser::var(N, i, p[i].f(), T::EPS)).collect();
    let (mut f, regs) = Prog::new(e.a.get(16..).unwrap_or(&[]), &start, true);
    let out = regs.last().unwrap();
    let along = [e.u(4) % N, e.u(5) % N, e.u(6) % N];
    let mode = [FiniteDifferenceMode::Forward, FiniteDifferenceMode::Backward, FiniteDifferenceMode::Central][e.u(7) % 3];
    let (step, by) = (T::of(e.n(8)), T::of(e.n(9)));
    let fd = FiniteDifferenceMulti::<T>::from_parameters(step, mode, by);
    let single = FiniteDifferenceSingle::<T>::from_parameters(step, mode, by);
    if !(step.f() > 0.0 && step.f().is_finite()) {
        let want = if step.f() == 0.0 { DiffError::StepSizeZero } else { DiffError::InvalidStepSize };
        let all = [
            fd.differentiate(&f, &[along[0]], &p).err(),
            fd.differentiate(&f, &along, &p).err(),
            DerivatorMultiVariable::jacobian_column::<_, N, 2>(&fd, &f, along[0], &p).err(),
            single.differentiate(1 + e.u(10) % 3, &f, p[0]).err(),
            Jacobian::from_derivator(fd).evaluate::<_, 2, N>(&f, &p).err(),
            Hessian::from_derivator(fd).evaluate(&f, &p).err(),
            LinearApproximator::from_derivator(fd).approximate(&f, &p).err(),
            QuadraticApproximator::from_derivator(fd).approximate(&f, &p).err(),
        ];
        cx.fault("a step that cannot be");
        ensure!(all.iter().all(|got| *got == Some(want)), "a step that cannot be is not refused by its name | {all:?} want {want:?} step {step:?}");
        return Ok(());
    }
    let beyond = N + e.u(10) % 4;
    ensure!(fd.differentiate(&f, &[], &p) == Err(DiffError::OrderZero) && single.differentiate(0, &f, p[0]) == Err(DiffError::OrderZero), "no derivative at all is not refused by name |");
    ensure!(fd.differentiate(&f, &[along[0], beyond], &p) == Err(DiffError::IndexOutOfRange) && DerivatorMultiVariable::jacobian_column::<_, N, 2>(&fd, &f, beyond, &p) == Err(DiffError::IndexOutOfRange), "a variable there is none of is not refused by name | {beyond}");
    // The same differences taken of the same function, by hand; the places in f64.
    let (low, high, over) = [(0.0, 1.0, 1.0), (-1.0, 0.0, 1.0), (-1.0, 1.0, 2.0)][e.u(7) % 3];
    let at: Vec<f64> = p.iter().map(|v| v.f()).collect();
    fn by_hand(read: &dyn Fn(&[f64]) -> f64, at: &[f64], along: &[usize], step: f64, rule: (f64, f64, f64, f64)) -> f64 {
        let Some((last, rest)) = along.split_last() else {
            return read(at);
        };
        let (low, high, over, by) = rule;
        let go = |k: f64| {
            let mut q = at.to_vec();
            q[*last] += k * step;
            by_hand(read, &q, rest, step * by, rule)
        };
        (go(high) - go(low)) / (over * step)
    }
    let rule = (low, high, over, by.f());
    let reach = |orders: usize| (0..orders).map(|k| step.f() * by.f().powi(k as i32)).sum::<f64>();
    // What rounding may do: to the readings, and to the places they are taken at.
    let loud = |i: usize, orders: usize| {
        let s = output(&regs, 2, i);
        let far: f64 = 1.0 + reach(orders);
        let top: f64 = s.c.iter().zip(&s.sh.exps).map(|(c, e)| c.abs() * far.powi(e.iter().sum::<usize>() as i32)).sum();
        let err: f64 = s.e.iter().zip(&s.sh.exps).map(|(c, e)| c.abs() * far.powi(e.iter().sum::<usize>() as i32)).sum();
        let below: f64 = (0..orders).map(|k| over * step.f() * by.f().powi(k as i32)).product();
        let places: f64 = at.iter().map(|v| v.abs()).fold(1.0, f64::max) + reach(orders);
        256.0 * (2f64).powi(orders as i32) * (err + T::EPS * places * (1.0 + top)) / below
    };
    let read = |i: usize| {
        let f = &f;
        move |q: &[f64]| *output(&f.regs(q), 2, i)
    };
    let calm = reach(3) <= 1.5;
    let mut compare = |what: &str, got: Result<T, DiffError>, i: usize, along: &[usize]| -> R {
        let want = by_hand(&read(i), &at, along, step.f(), rule);
        let room = loud(i, along.len());
        ensure!(got.is_ok(), "{what} is refused | {got:?}");
        if calm && room < 1e-2 * (1.0 + want.abs()) {
            cx.reach("differences told apart");
            ensure!(got.is_ok_and(|v| (v.f() - want).abs() <= room), "{what} is not its differences | {got:?} want {want} room {room:e} step {step:?} by {by:?} {mode:?} along {along:?} at {p:?} {:?}", f.code);
        }
        Ok(())
    };
    for k in 1..=3 {
        let got = match k {
            1 => fd.differentiate(&f, &[along[0]], &p),
            2 => fd.differentiate(&f, &[along[0], along[1]], &p),
            _ => fd.differentiate(&f, &along, &p),
        };
        compare("a difference along several variables", got, 1, &along[..k])?;
    }
    let column: Result<[T; 2], DiffError> = fd.jacobian_column(&f, along[0], &p);
    compare("a column of differences", column.map(|c| c[0]), 0, &along[..1])?;
    compare("a column of differences", column.map(|c| c[1]), 1, &along[..1])?;
    let table = Jacobian::from_derivator(fd).evaluate::<_, 2, N>(&f, &p);
    let heap = Jacobian::from_derivator(fd).evaluate_on_heap::<_, 2, N>(&f, &p);
    compare("a table of differences", table.map(|c| c[(0, along[0])]), 0, &along[..1])?;
    compare("a table of differences on the heap", heap.map(|c| c[1][along[0]]), 1, &along[..1])?;
    let bends = Hessian::from_derivator(fd).evaluate(&f, &p);
    ensure!(bends.is_ok_and(|b| (0..N).all(|r| (0..N).all(|c| b[(r, c)].f() == b[(c, r)].f()))), "a table of bends is not the same both ways | {bends:?}");
    compare("a table of bends", bends.map(|b| b[(along[0], along[0])]), 1, &[along[0], along[0]])?;
    if N == 1 {
        for k in 1..=3 {
            compare("a difference along one variable", single.differentiate(k, &f, p[0]), 1, &[0, 0, 0][..k])?;
        }
        compare("a difference along one variable", single.first_derivative(&f, p[0]), 1, &[0])?;
        compare("a difference along one variable", single.second_derivative(&f, p[0]), 1, &[0, 0])?;
    }
    // Which side of the place it is read on.
    for k in 1..=3 {
        f.again();
        let _ = match k {
            1 => fd.differentiate(&f, &[along[0]], &p),
            2 => fd.differentiate(&f, &[along[0], along[1]], &p),
            _ => fd.differentiate(&f, &along, &p),
        };
        ensure!(!(f.below.get() && mode == FiniteDifferenceMode::Forward) && !(f.above.get() && mode == FiniteDifferenceMode::Backward), "a difference taken to one side is read on the other | {mode:?} order {k} at {p:?} step {step:?}");
    }
    // Left to its own step, it is about the slope.
    let own = FiniteDifferenceMulti::<T>::default();
    let slope = out.slope(&[along[0]]);
    let h = T::EPS.cbrt();
    let size: f64 = out.c.iter().map(|c| c.abs()).sum::<f64>() + out.e.iter().sum::<f64>();
    let room = ROOM * out.e[0] / h + 50.0 * T::EPS * size * (1.0 + at.iter().map(|v| v.abs()).sum::<f64>()) / h + 100.0 * h * h * (1.0 + size);
    let got = own.differentiate(&f, &[along[0]], &p);
    ensure!(got.is_ok_and(|v| (v.f() - slope.0).abs() <= room + ROOM * slope.1), "a difference left to its own step is not about the slope | {got:?} want {slope:?} room {room:e} at {p:?} {:?}", f.code);
    // A reading that is none.
    f.broken_at = e.u(11);
    if p.iter().all(|v| v.f() != 0.0) && reach(3) < at.iter().fold(f64::INFINITY, |m, v| m.min(v.abs())) {
        for k in 1..=3 {
            f.again();
            let got = match k {
                1 => fd.differentiate(&f, &[along[0]], &p),
                2 => fd.differentiate(&f, &[along[0], along[1]], &p),
                _ => fd.differentiate(&f, &along, &p),
            };
            if f.broke() {
                cx.fault("a reading that is none");
                ensure!(got.is_err() || got.is_ok_and(|v| !v.f().is_finite()), "a broken reading is handed out as a slope | {got:?} order {k}");
            }
        }
    }
    cx.log(got.unwrap().f());
    cx.reach("differences");
    cx.state(&[4, N as i64, e.u(7) as i64 % 3, (step.f().log2()) as i64]);
    Ok(())
}

// ----- Where a function is not smooth, or no longer moves -----

fn edge<T: Width>(e: &Ev, cx: &mut Cx) -> R {
    let x = e.n(1);
    let six = |op: usize, at: f64, k: f64| -> ([f64; 7], [f64; 2], [f64; 4]) {
        let i = Ins { op, a: 0, b: 1, c: 1, k };
        let other = e.n(2);
        let j = apply(&i, &[Jet::<T, 7>::variable(T::of(at)), Jet::constant(T::of(other))]);
        let d = apply(&i, &[Dual::variable(T::of(at)), Dual::constant(T::of(other))]);
        let h = apply(&i, &[HyperDual::variable(T::of(at)), HyperDual::constant(T::of(other))]);
        (std::array::from_fn(|k| j.coeffs[k].f()), [d.value.f(), d.deriv.f()], [h.real.f(), h.eps1.f(), h.eps2.f(), h.eps1eps2.f()])
    };
    let is = |what: &str, got: ([f64; 7], [f64; 2], [f64; 4]), value: f64, slope: f64| -> R {
        let (j, d, h) = got;
        let same = |a: f64, b: f64| a == b || (a - b).abs() <= 64.0 * T::EPS * (1.0 + b.abs());
        ensure!(same(j[0], value) && same(d[0], value) && same(h[0], value), "{what} has another value on a number that carries slopes | {got:?} want {value} at {x} {}", e.n(2));
        ensure!(same(j[1], slope) && same(d[1], slope) && same(h[1], slope) && same(h[2], slope), "{what} has another slope | {got:?} want {slope} at {x} {}", e.n(2));
        ensure!(same(h[3], 0.0) && j[2..].iter().all(|v| same(*v, 0.0)), "{what} bends where it is straight | {got:?} at {x} {}", e.n(2));
        Ok(())
    };
    match e.u(0) % 8 {
        0 => {
            // Far out it is as good as level.
            let far = x.abs().max(25.0).min(1e30) * if x < 0.0 { -1.0 } else { 1.0 };
            is("the hyperbolic tangent far out", six(25, far, 0.0), far.signum(), 0.0)?;
            cx.reach("far out");
        }
        1 => is("the size of nothing", six(32, 0.0, 0.0), 0.0, 1.0)?,
        2 => {
            let n = x.clamp(-1e5, 1e5).round();
            let (kind, value): (usize, f64) = [(34, n), (35, n), (36, n), (37, n)][e.u(3) % 4];
            is("a staircase on its step", six(kind, n, 0.0), value, 0.0)?;
        }
        3 => {
            // Any number to no power is one, and to the first itself.
            is("a number to no power", six(27, x.clamp(-10.0, 10.0), 0.0), 1.0, 0.0)?;
            let v = T::of(x.clamp(-10.0, 10.0)).f();
            is("a number to the first power", six(27, v, 1.0), v, 1.0)?;
        }
        4 => {
            // The sign of a nought is a sign too.
            let v = T::of(x.clamp(-10.0, 10.0)).f();
            if v != 0.0 {
                let sign = e.n(2);
                is("a number given a sign", six(42, v, 0.0), v.copysign(sign), if v.is_sign_negative() == sign.is_sign_negative() { 1.0 } else { -1.0 })?;
                cx.reach(if sign == 0.0 { "the sign of a nought" } else { "a sign" });
            }
        }
        5 => {
            // Whichever is the larger comes with its slope; equal ones are equal whatever they carry.
            let (a, b) = (Dual::new(T::of(x), T::of(2.0)), Dual::new(T::of(e.n(2)), T::of(3.0)));
            if a.value != b.value && !x.is_nan() && !e.n(2).is_nan() {
                let (top, bottom) = (a.max(b), a.min(b));
                let first = a.value > b.value;
                ensure!(top.deriv.f() == if first { 2.0 } else { 3.0 } && bottom.deriv.f() == if first { 3.0 } else { 2.0 } && (a > b) == first && (a < b) == !first, "the larger of two comes with the other's slope | {a:?} {b:?} {top:?} {bottom:?}");
            }
            let twin = Dual::new(T::of(x), T::of(7.0));
            ensure!((a == twin) == !x.is_nan() && a.is_nan() == T::of(x).is_nan() && a.is_finite() == T::of(x).is_finite() && a.is_infinite() == T::of(x).is_infinite(), "what a number carries changes which number it is | {a:?} {twin:?}");
        }
        6 => {
            let v = T::of(x.clamp(-10.0, 10.0)).f();
            let k = (e.n(2).clamp(-8.0, 8.0) * 64.0).round() / 64.0;
            if v != k && v != k + 1.0 {
                let want = v.clamp(k, k + 1.0);
                is("a number kept within bounds", six(41, v, k), want, (want == v) as u8 as f64)?;
            }
        }
        _ => {
            let v = T::of(x.clamp(-10.0, 10.0)).f();
            is("a sign", six(33, v, 0.0), if v == 0.0 { 0.0 } else { v.signum() }, 0.0)?;
        }
    }
    cx.reach("an edge");
    cx.state(&[5, e.u(0) as i64 % 8]);
    Ok(())
}

fn program(r: &mut Rng, len: usize) -> Vec<f64> {
    let mut a = vec![];
    for _ in 0..len {
        let reach = |r: &mut Rng| if r.chance(0.5) { 0.0 } else { r.below(8) as f64 };
        a.extend([r.below(OPS) as f64, reach(r), reach(r), reach(r), if r.chance(0.2) { r.int(0, 6) as f64 - 3.0 } else { r.range(-3.0, 3.0) }]);
    }
    a
}

impl World for Slopes {
    fn name(&self) -> &'static str {
        "slopes"
    }
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        t.cfg.push(r.chance(0.25) as u8 as f64);
        for _ in 0..r.int(2, 6) {
            let place = |r: &mut Rng| if r.chance(0.05) { 0.0 } else { r.range(-3.0, 3.0) };
            let len = r.int(1, 9);
            match r.below(10) {
                0..=2 => {
                    let mut a = vec![place(r)];
                    a.extend((0..8).map(|_| r.range(-1.0, 1.0)));
                    a.push(r.below(6) as f64);
                    a.extend(program(r, len));
                    t.evs.push(ev("one", &a));
                }
                3..=5 => {
                    let mut a: Vec<f64> = (0..4).map(|_| place(r)).collect();
                    a.extend((0..3).map(|_| r.below(12) as f64));
                    a.extend([r.below(5) as f64, r.below(8) as f64, r.int(1, 4) as f64]);
                    a.resize(16, 0.0);
                    a.extend(program(r, len + 2));
                    t.evs.push(ev("many", &a));
                }
                6 | 7 => {
                    let mut a: Vec<f64> = (0..4).map(|_| place(r)).collect();
                    a.extend([r.int(1, 4) as f64, r.below(3) as f64, r.below(8) as f64, r.chance(0.15) as u8 as f64, r.range(-5.0, 5.0), r.unit(), r.log_range(1e-2, 2.0), r.chance(0.4) as u8 as f64]);
                    a.extend((0..4).map(|_| place(r)));
                    a.extend(program(r, len + 1));
                    t.evs.push(ev("fit", &a));
                }
                8 => {
                    let mut a: Vec<f64> = (0..4).map(|_| place(r)).collect();
                    a.extend((0..3).map(|_| r.below(12) as f64));
                    a.push(r.below(3) as f64);
                    let step = if r.chance(0.15) { *r.pick(&[0.0, -0.0, -0.1, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1e-300]) } else { r.log_range(3e-3, 0.3) };
                    a.extend([step, *r.pick(&[1.0, 2.0, 0.5, 1.5]), r.below(4) as f64, r.below(8) as f64, r.int(1, 3) as f64]);
                    a.resize(16, 0.0);
                    a.extend(program(r, len));
                    t.evs.push(ev("steps", &a));
                }
                _ => {
                    let x = match r.below(6) {
                        0 => 0.0,
                        1 => r.log_range(1.0, 1e6) * r.sign(),
                        2 => -0.0,
                        _ => r.range(-4.0, 4.0),
                    };
                    let y = *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.3, -2.7]);
                    t.evs.push(ev("edge", &[r.below(8) as f64, x, y, r.below(4) as f64]));
                }
            }
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        if t.cu(0) == 1 { go::<f32>(t, cx) } else { go::<f64>(t, cx) }
    }
}

fn go<T: Width>(t: &Trace, cx: &mut Cx) -> R {
    for e in &t.evs {
        cx.step(e.k);
        match e.k {
            "one" => one::<T>(e, cx)?,
            "many" => match e.u(9) {
                1 => many::<T, 1>(e, cx)?,
                2 => many::<T, 2>(e, cx)?,
                3 => many::<T, 3>(e, cx)?,
                _ => many::<T, 4>(e, cx)?,
            },
            "fit" => match (e.u(4), e.u(5)) {
                (1, 0) => fits::<T, 1, 3>(e, cx)?,
                (1, _) => fits::<T, 1, 7>(e, cx)?,
                (2, 0) => fits::<T, 2, 4>(e, cx)?,
                (2, 1) => fits::<T, 2, 6>(e, cx)?,
                (2, _) => fits::<T, 2, 12>(e, cx)?,
                (3, 0) => fits::<T, 3, 5>(e, cx)?,
                (3, 1) => fits::<T, 3, 10>(e, cx)?,
                (3, _) => fits::<T, 3, 20>(e, cx)?,
                (_, 0) => fits::<T, 4, 6>(e, cx)?,
                (_, 1) => fits::<T, 4, 15>(e, cx)?,
                _ => fits::<T, 4, 28>(e, cx)?,
            },
            "steps" => match e.u(12) {
                1 => steps::<T, 1>(e, cx)?,
                2 => steps::<T, 2>(e, cx)?,
                _ => steps::<T, 3>(e, cx)?,
            },
            _ => edge::<T>(e, cx)?,
        }
    }
    Ok(())
}
