//! A caller's function read by an integrator: which places it is read at, how often, what the
//! readings add up to, and what becomes of a reading that is none.

use crate::core::*;
use crate::ensure;
use crate::refs::*;
use multicalc::error::IntegrateError;
use multicalc::numerical_integration::{
    GaussianMulti, GaussianQuadratureMethod, GaussianSingle, IntegratorMultiVariable, IntegratorSingleVariable, IterativeMethod, IterativeMulti,
    IterativeSingle, integral,
};
use multicalc::scalar::Numeric;
use multicalc::vector_field::{
    flux_integral_2d, flux_integral_2d_custom, line_integral_2d, line_integral_2d_custom, line_integral_3d, line_integral_3d_custom,
};
use std::cell::{Cell, RefCell};
use std::f64::consts::{PI, TAU};
use std::sync::OnceLock;

pub struct Tally;

trait Width: Numeric {
    fn of(v: f64) -> Self;
    fn f(self) -> f64;
    const EPS: f64;
}
impl Width for f64 {
    fn of(v: f64) -> f64 {
        v
    }
    fn f(self) -> f64 {
        self
    }
    const EPS: f64 = f64::EPSILON;
}
impl Width for f32 {
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    const EPS: f64 = f32::EPSILON as f64;
}

/// Places and weights of one family's rule, from the recurrence its polynomials obey.
type Rule = Vec<(f64, f64)>;

fn recurrence(family: usize, k: usize) -> (f64, f64) {
    let k = k as f64;
    match family {
        0 => (0.0, k * k / (4.0 * k * k - 1.0)),
        1 => (0.0, k / 2.0),
        _ => (2.0 * k + 1.0, k * k),
    }
}

fn rule(family: usize, order: usize) -> &'static Rule {
    static ALL: OnceLock<Vec<Vec<Rule>>> = OnceLock::new();
    &ALL.get_or_init(|| {
        (0..3)
            .map(|family| {
                (0..=30)
                    .map(|n| {
                        if n == 0 {
                            return vec![];
                        }
                        let whole: f64 = [2.0, PI.sqrt(), 1.0][family];
                        let m = Mat::from_fn(n, n, |i, j| {
                            if i == j {
                                recurrence(family, i).0
                            } else if i + 1 == j || j + 1 == i {
                                recurrence(family, i.max(j)).1.sqrt()
                            } else {
                                0.0
                            }
                        });
                        let (mut places, _) = eigen(&m);
                        places.sort_by(f64::total_cmp);
                        places
                            .iter()
                            .map(|x| {
                                let mut x = *x;
                                let mut sum = 0.0;
                                for round in 0..8 {
                                    let (mut before, mut now) = (0.0, 1.0 / whole.sqrt());
                                    let (mut dbefore, mut dnow) = (0.0, 0.0);
                                    sum = 0.0;
                                    for k in 0..n {
                                        sum += now * now;
                                        let (a, _) = recurrence(family, k);
                                        let down = if k == 0 { 0.0 } else { recurrence(family, k).1.sqrt() };
                                        let up = recurrence(family, k + 1).1.sqrt();
                                        let next = ((x - a) * now - down * before) / up;
                                        let dnext = (now + (x - a) * dnow - down * dbefore) / up;
                                        (before, now, dbefore, dnow) = (now, next, dnow, dnext);
                                    }
                                    if round < 7 {
                                        x -= now / dnow;
                                    }
                                }
                                (x, 1.0 / sum)
                            })
                            .collect()
                    })
                    .collect()
            })
            .collect()
    })[family][order]
}

const FAMILIES: [GaussianQuadratureMethod; 3] =
    [GaussianQuadratureMethod::GaussLegendre, GaussianQuadratureMethod::GaussHermite, GaussianQuadratureMethod::GaussLaguerre];

fn method(k: usize) -> IterativeMethod {
    match k % 3 {
        0 => IterativeMethod::Trapezoidal,
        1 => IterativeMethod::Simpsons,
        _ => IterativeMethod::Booles,
    }
}

/// How many stretches the rule is taken over when asked for so many.
fn rounded(k: usize, n: usize) -> usize {
    let part = [1, 3, 4][k % 3];
    if n <= 12000 { n.div_ceil(part) * part } else { n }
}

/// The weight of each place of a composite rule, stretches of one.
fn composite(k: usize, n: usize) -> Vec<f64> {
    (0..=n)
        .map(|i| {
            let end = i == 0 || i == n;
            match k % 3 {
                0 => if end { 0.5 } else { 1.0 },
                1 => 3.0 / 8.0 * if end { 1.0 } else if i % 3 == 0 { 2.0 } else { 3.0 },
                _ => 2.0 / 45.0 * if end { 7.0 } else if i % 4 == 0 { 14.0 } else if i % 2 == 0 { 12.0 } else { 32.0 },
            }
        })
        .collect()
}

/// A sum that loses nothing worth mention.
fn exact(terms: impl Iterator<Item = f64>) -> (f64, f64) {
    let (mut sum, mut lost, mut size) = (0.0f64, 0.0f64, 0.0f64);
    for t in terms {
        let next = sum + t;
        lost += if sum.abs() >= t.abs() { (sum - next) + t } else { (t - next) + sum };
        sum = next;
        size += t.abs();
    }
    (sum + lost, size)
}

/// A function that answers anything at all, and is written down while it does.
struct Told<T> {
    seed: u64,
    size: f64,
    steady: bool,
    broken_at: usize,
    broken: f64,
    asked: Cell<usize>,
    seen: RefCell<Vec<(Vec<f64>, f64)>>,
    _t: std::marker::PhantomData<T>,
}

impl<T: Width> Told<T> {
    /// from a.0: seed, size, steady, where it breaks, what it breaks to
    fn new(a: &[f64]) -> Self {
        let g = |i: usize| a.get(i).copied().unwrap_or(0.0);
        Told {
            seed: g(0).to_bits(),
            size: if g(1).is_finite() && g(1) > 0.0 { g(1) } else { 1.0 },
            steady: g(2) > 0.5,
            broken_at: if g(3) >= 0.0 && g(3) < 1e9 { g(3) as usize } else { usize::MAX },
            broken: if g(4).is_finite() { f64::NAN } else { g(4) },
            asked: Cell::new(0),
            seen: RefCell::new(vec![]),
            _t: std::marker::PhantomData,
        }
    }
    fn answer(&self, place: &[T]) -> T {
        let k = self.asked.get();
        self.asked.set(k + 1);
        let v = if k == self.broken_at {
            T::of(self.broken)
        } else if self.steady {
            T::of(self.size)
        } else {
            T::of(self.size * ((mix(self.seed, k as u64) >> 11) as f64 / (1u64 << 52) as f64 - 1.0))
        };
        self.seen.borrow_mut().push((place.iter().map(|p| p.f()).collect(), v.f()));
        v
    }
    fn broke(&self) -> bool {
        self.asked.get() > self.broken_at
    }
}

fn sound_reading(e: &Ev, from: usize) -> &[f64] {
    e.a.get(from..).unwrap_or(&[])
}

/// The limits of one level: 0 and 1 as they are.
fn limits<T: Width>(e: &Ev, at: usize) -> [T; 2] {
    [T::of(e.n(at)), T::of(e.n(at + 1))]
}

fn refusal(got: &Result<f64, IntegrateError>, told_broke: bool) -> R {
    if told_broke {
        ensure!(*got == Err(IntegrateError::NonFinite), "a reading that is no number is taken into the sum | {got:?}");
    }
    Ok(())
}

fn call_single<T: Width, I: IntegratorSingleVariable<Scalar = T>>(rule: &I, f: &impl Fn(T) -> T, levels: usize, l: &[[T; 2]]) -> Result<f64, IntegrateError> {
    match levels {
        1 => rule.single_integral(f, &l[0]),
        2 => rule.double_integral(f, &[l[0], l[1]]),
        _ => rule.integrate(f, &[l[0], l[1], l[2]]),
    }
    .map(Width::f)
}

fn call_multi<T: Width, I: IntegratorMultiVariable<Scalar = T>>(rule: &I, f: &impl Fn(&[T; 3]) -> T, vars: &[usize], l: &[[T; 2]], at: &[T; 3]) -> Result<f64, IntegrateError> {
    match vars.len() {
        1 => rule.single_partial_integral(f, vars[0], &l[0], at),
        2 => rule.double_partial_integral(f, [vars[0], vars[1]], &[l[0], l[1]], at),
        _ => rule.integrate([vars[0], vars[1], vars[2]], f, &[l[0], l[1], l[2]], at),
    }
    .map(Width::f)
}

/// Reads at the places of `want`, each once, and the sum of what was read there under the weights.
fn over_one(seen: &[(Vec<f64>, f64)], want: &[(f64, f64)], blur: f64, what: &str) -> Result<(f64, f64), String> {
    ensure!(seen.len() == want.len(), "the function is read another number of times | {} want {} {what}", seen.len(), want.len());
    let mut seen: Vec<(f64, f64)> = seen.iter().map(|(p, v)| (p[0], *v)).collect();
    seen.sort_by(|a, b| a.0.total_cmp(&b.0));
    for (s, w) in seen.iter().zip(want) {
        ensure!((s.0 - w.0).abs() <= blur, "the function is read at another place | {} want {} {what}", s.0, w.0);
    }
    Ok(exact(seen.iter().zip(want).map(|(s, w)| s.1 * w.1)))
}

/// The same over every combination of places.
fn over_many(seen: &[(Vec<f64>, f64)], vars: &[usize], want: &[Vec<(f64, f64)>], at: &[f64], blur: f64, what: &str) -> Result<(f64, f64), String> {
    let all: usize = want.iter().map(Vec::len).product();
    ensure!(seen.len() == all, "the function is read another number of times | {} want {all} {what}", seen.len());
    let mut met = vec![false; all];
    let mut terms = vec![];
    for (place, v) in seen {
        let (mut index, mut weight) = (0, 1.0);
        for (var, w) in vars.iter().zip(want) {
            let k = w.iter().enumerate().min_by(|a, b| (a.1.0 - place[*var]).abs().total_cmp(&(b.1.0 - place[*var]).abs())).map(|(k, _)| k).unwrap_or(0);
            ensure!((w[k].0 - place[*var]).abs() <= blur, "a variable is read at another place | {place:?} variable {var} want {} {what}", w[k].0);
            index = index * w.len() + k;
            weight *= w[k].1;
        }
        for n in 0..3 {
            ensure!(vars.contains(&n) || place[n] == at[n], "a variable that was to be held is moved | {place:?} held {at:?} {what}");
        }
        ensure!(!met[index], "a place is read twice | {place:?} {what}");
        met[index] = true;
        terms.push(v * weight);
    }
    Ok(exact(terms.into_iter()))
}

fn iterative<T: Width>(e: &Ev, cx: &mut Cx) -> R {
    // method, stretches, kahan, levels, limits (three pairs), function
    let (k, n, kahan) = (e.u(0) % 3, e.u(1).clamp(1, 12000), e.n(2) > 0.5);
    let levels = e.u(3).clamp(1, 3);
    let l: Vec<[T; 2]> = (0..3).map(|i| limits(e, 4 + 2 * i)).collect();
    let told = Told::<T>::new(sound_reading(e, 10));
    let stretches = rounded(k, n);
    let (a, b) = (l[0][0].f(), l[0][1].f());
    let h = (b - a) / stretches as f64;
    let top = a.abs().max(b.abs());
    let blur = (stretches as f64 + 8.0) * T::EPS * top;
    if !(h > 8.0 * blur.max(T::EPS * top)) && !(a < b && h > 0.0) {
        return Ok(());
    }
    let mut rule = IterativeSingle::<T>::from_parameters(n as u64, method(k));
    if kahan {
        rule = rule.with_kahan_summation();
    }
    let got = call_single(&rule, &|x| told.answer(&[x]), levels, &l);
    cx.log(got.unwrap_or(0.0));
    refusal(&got, told.broke())?;
    if told.broke() {
        cx.fault("a reading that is no number");
        return Ok(());
    }
    let Ok(got) = got else {
        return Err(format!("a sound integral is refused | {got:?} {e:?}"));
    };
    let what = format!("method {k} stretches {stretches} limits {a} {b} width {}", T::EPS);
    for (place, _) in told.seen.borrow().iter() {
        ensure!(place[0] >= a && place[0] <= b, "a function is read beyond its limits | {} {what}", place[0]);
    }
    let weights = composite(k, stretches);
    let want: Rule = (0..=stretches).map(|i| (if i == stretches { b } else { a + h * i as f64 }, weights[i])).collect();
    let (sum, size) = over_one(&told.seen.borrow(), &want, blur.max(T::EPS * top), &what)?;
    let outer: f64 = l[1..levels].iter().map(|l| l[1].f() - l[0].f()).product();
    // Each reading times its weight, then a running sum as good as it was asked to be.
    let adds = (if kahan { 8.0 } else { 20.0 + 130f64.min(stretches as f64) }) * levels as f64 + 8.0;
    ensure!((got - sum * h * outer).abs() <= adds * T::EPS * size * (h * outer).abs() + 1e-300, "an integral is not its rule's sum | {got:e} want {:e} off {:e} of {:e} levels {levels} kahan {kahan} {what}", sum * h * outer, (got - sum * h * outer).abs(), T::EPS * size * (h * outer).abs());
    cx.reach(if levels > 1 { "nested" } else { "one integral" });
    cx.state(&[0, k as i64, levels as i64, kahan as i64, (stretches as f64).log2() as i64]);
    Ok(())
}

fn distinct(e: &Ev, from: usize, levels: usize) -> Vec<usize> {
    let mut left = vec![0, 1, 2];
    (0..levels).map(|i| left.remove(e.u(from + i) % left.len())).collect()
}

fn partial<T: Width>(e: &Ev, cx: &mut Cx) -> R {
    // method, stretches, kahan, levels, limits (three pairs), variables (three), place (three), function
    let (k, n, kahan) = (e.u(0) % 3, e.u(1).clamp(1, 10), e.n(2) > 0.5);
    let levels = e.u(3).clamp(1, 3);
    let l: Vec<[T; 2]> = (0..3).map(|i| limits(e, 4 + 2 * i)).collect();
    let vars = distinct(e, 10, levels);
    let at: [T; 3] = std::array::from_fn(|i| T::of(e.n(13 + i)));
    let told = Told::<T>::new(sound_reading(e, 16));
    let stretches = rounded(k, n);
    let top = l.iter().flatten().fold(0.0f64, |m, v| m.max(v.f().abs()));
    let blur = (stretches as f64 + 8.0) * T::EPS * top;
    if l.iter().any(|l| !((l[1].f() - l[0].f()) / stretches as f64 > 8.0 * blur)) {
        return Ok(());
    }
    let mut rule = IterativeMulti::<T>::from_parameters(n as u64, method(k));
    if kahan {
        rule = rule.with_kahan_summation();
    }
    let got = call_multi(&rule, &|p| told.answer(p), &vars, &l, &at);
    cx.log(got.unwrap_or(0.0));
    refusal(&got, told.broke())?;
    if told.broke() {
        cx.fault("a reading that is no number");
        return Ok(());
    }
    let Ok(got) = got else {
        return Err(format!("a sound partial integral is refused | {got:?} {e:?}"));
    };
    let what = format!("method {k} stretches {stretches} limits {l:?} variables {vars:?}");
    let weights = composite(k, stretches);
    let want: Vec<Rule> = (0..levels)
        .map(|v| {
            let (a, b) = (l[v][0].f(), l[v][1].f());
            let h = (b - a) / stretches as f64;
            (0..=stretches).map(|i| (a + h * i as f64, weights[i] * h)).collect()
        })
        .collect();
    for (read, _) in told.seen.borrow().iter() {
        for (v, l) in vars.iter().zip(&l) {
            ensure!(read[*v] >= l[0].f() && read[*v] <= l[1].f(), "a function is read beyond its limits | {read:?} {what}");
        }
    }
    let place: Vec<f64> = at.iter().map(|v| v.f()).collect();
    let (sum, size) = over_many(&told.seen.borrow(), &vars, &want, &place, blur, &what)?;
    ensure!((got - sum).abs() <= (60.0 * levels as f64) * T::EPS * size + 1e-300, "a partial integral is not its rule's sum | {got:e} want {sum:e} size {size:e} {what}");
    cx.reach(if levels > 1 { "several variables" } else { "one variable of three" });
    cx.state(&[1, k as i64, levels as i64, stretches as i64]);
    Ok(())
}

/// Limits of one level of a family, as it has to be asked for.
fn family_limits<T: Width>(family: usize, l: [T; 2]) -> [T; 2] {
    match family {
        0 => l,
        1 => [T::NEG_INFINITY, T::INFINITY],
        _ => [T::ZERO, T::INFINITY],
    }
}

fn mapped(family: usize, order: usize, l: [f64; 2]) -> Rule {
    let (half, mid) = if family == 0 { ((l[1] - l[0]) / 2.0, (l[0] + l[1]) / 2.0) } else { (1.0, 0.0) };
    rule(family, order).iter().map(|(x, w)| (half * x + mid, half * w)).collect()
}

fn gauss<T: Width>(e: &Ev, cx: &mut Cx) -> R {
    // family, order, levels, limits (three pairs), function
    let (family, order, levels) = (e.u(0) % 3, e.u(1).clamp(1, 30), e.u(2).clamp(1, 3));
    let l: Vec<[T; 2]> = (0..3).map(|i| family_limits(family, limits(e, 3 + 2 * i))).collect();
    let told = Told::<T>::new(sound_reading(e, 9));
    let got = call_single(&GaussianSingle::<T>::from_parameters(order, FAMILIES[family]), &|x| told.answer(&[x]), levels, &l);
    cx.log(got.unwrap_or(0.0));
    refusal(&got, told.broke())?;
    if told.broke() {
        cx.fault("a reading that is no number");
        return Ok(());
    }
    let Ok(got) = got else {
        return Err(format!("a sound Gaussian integral is refused | {got:?} {e:?}"));
    };
    let what = format!("family {family} order {order} limits {:?}", l[0]);
    let want = mapped(family, order, [l[0][0].f(), l[0][1].f()]);
    let top = want.iter().fold(0.0f64, |m, (x, _)| m.max(x.abs())) + if family == 0 { l[0][0].f().abs().max(l[0][1].f().abs()) } else { 0.0 };
    let (sum, size) = over_one(&told.seen.borrow(), &want, 1e-14f64.max(4.0 * T::EPS) * top, &what)?;
    let outer: f64 = l[1..levels].iter().map(|l| if family == 0 { l[1].f() - l[0].f() } else { [2.0, PI.sqrt(), 1.0][family] }).product();
    let tol = (order as f64 + 20.0) * levels as f64 * T::EPS.max(4e-14);
    ensure!((got - sum * outer).abs() <= tol * size * outer.abs() + 1e-300, "a Gaussian integral is not its rule's sum | {got:e} want {:e} levels {levels} {what}", sum * outer);
    cx.reach("a Gaussian rule");
    cx.state(&[2, family as i64, order as i64, levels as i64]);
    Ok(())
}

fn gauss_partial<T: Width>(e: &Ev, cx: &mut Cx) -> R {
    // family, order, levels, limits (three pairs), variables (three), place (three), function
    let (family, order, levels) = (e.u(0) % 3, e.u(1).clamp(1, 8), e.u(2).clamp(1, 3));
    let l: Vec<[T; 2]> = (0..3).map(|i| family_limits(family, limits(e, 3 + 2 * i))).collect();
    let vars = distinct(e, 9, levels);
    let at: [T; 3] = std::array::from_fn(|i| T::of(e.n(12 + i)));
    let told = Told::<T>::new(sound_reading(e, 15));
    let got = call_multi(&GaussianMulti::<T>::from_parameters(order, FAMILIES[family]), &|p| told.answer(p), &vars, &l, &at);
    cx.log(got.unwrap_or(0.0));
    refusal(&got, told.broke())?;
    if told.broke() {
        cx.fault("a reading that is no number");
        return Ok(());
    }
    let Ok(got) = got else {
        return Err(format!("a sound partial Gaussian integral is refused | {got:?} {e:?}"));
    };
    let what = format!("family {family} order {order} limits {l:?} variables {vars:?}");
    let want: Vec<Rule> = (0..levels).map(|v| mapped(family, order, [l[v][0].f(), l[v][1].f()])).collect();
    let top = want.iter().flatten().fold(0.0f64, |m, (x, _)| m.max(x.abs())) + if family == 0 { l.iter().flatten().fold(0.0f64, |m, v| m.max(v.f().abs())) } else { 0.0 };
    let place: Vec<f64> = at.iter().map(|v| v.f()).collect();
    let blur = 1e-14f64.max(4.0 * T::EPS) * top;
    if want.iter().any(|w| w.windows(2).any(|p| p[1].0 - p[0].0 < 8.0 * blur)) {
        return Ok(());
    }
    let (sum, size) = over_many(&told.seen.borrow(), &vars, &want, &place, blur, &what)?;
    ensure!((got - sum).abs() <= (40.0 * levels as f64) * T::EPS.max(4e-14) * size + 1e-300, "a partial Gaussian integral is not its rule's sum | {got:e} want {sum:e} {what}");
    cx.reach("a Gaussian rule over several variables");
    cx.state(&[3, family as i64, order as i64, levels as i64]);
    Ok(())
}

/// A power whose integral is known: a rule of so many places has to get it right up to twice that.
fn moment(e: &Ev, cx: &mut Cx) -> R {
    let (family, order) = (e.u(0) % 3, e.u(1).clamp(1, 30));
    let power = e.u(2) % (2 * order);
    let want = match family {
        0 => if power % 2 == 1 { 0.0 } else { 2.0 / (power as f64 + 1.0) },
        1 => {
            if power % 2 == 1 {
                0.0
            } else {
                (0..power / 2).fold(PI.sqrt(), |g, k| g * (k as f64 + 0.5))
            }
        }
        _ => (1..=power).fold(1.0, |g, k| g * k as f64),
    };
    let size = if power % 2 == 0 || family == 2 { want } else { rule(family, order).iter().map(|(x, w)| w * x.abs().powi(power as i32)).sum() };
    let l = family_limits(family, [-1.0, 1.0]);
    let f = |x: f64| x.powi(power as i32);
    let got = GaussianSingle::<f64>::from_parameters(order, FAMILIES[family]).single_integral(&f, &l);
    ensure!(got.is_ok_and(|got| (got - want).abs() <= 1e-11 * size), "a rule misses a power it is exact for | {got:?} want {want} family {family} order {order} power {power}");
    cx.reach("a power it is exact for");
    cx.state(&[4, family as i64, order as i64, power as i64]);
    Ok(())
}

/// Functions that die away, over limits without end, and polynomials over finite ones.
fn smooth(e: &Ev, cx: &mut Cx) -> R {
    // shape, method, stretches, centre, spread, limit
    let (k, n) = (e.u(1) % 3, e.u(2).clamp(400, 2000));
    let (centre, spread, edge) = (e.n(3).clamp(-1.0, 1.0), e.n(4).clamp(0.5, 2.0), e.n(5).clamp(-1.0, 1.0));
    let rule = IterativeSingle::<f64>::from_parameters(n as u64, method(k));
    let many = IterativeMulti::<f64>::from_parameters(n as u64, method(k));
    let bell = |x: f64| 1.0 / ((x - centre) / spread).cosh().powi(2);
    let (low, high) = (Cell::new(f64::INFINITY), Cell::new(f64::NEG_INFINITY));
    let look = |x: f64| {
        low.set(low.get().min(x));
        high.set(high.get().max(x));
        bell(x)
    };
    // The bell's integral up to a place.
    let upto = |x: f64| spread * (1.0 + ((x - centre) / spread).tanh());
    let (inf, ninf) = (f64::INFINITY, f64::NEG_INFINITY);
    let (l, want) = match e.u(0) % 4 {
        0 => ([ninf, inf], 2.0 * spread),
        1 => ([ninf, edge], upto(edge)),
        2 => ([edge, inf], 2.0 * spread - upto(edge)),
        _ => ([edge, edge + 3.0 * spread], upto(edge + 3.0 * spread) - upto(edge)),
    };
    let got = if e.n(6) > 0.5 { rule.single_integral(&look, &l) } else { many.single_partial_integral(&|p: &[f64; 3]| look(p[1]), 1, &l, &[9.0, 9.0, 9.0]) };
    let tol = [2e-3, 1e-4, 1e-4][k] * want.max(1e-3);
    ensure!(got.is_ok_and(|got| (got - want).abs() <= tol), "the integral of a smooth function is off | {got:?} want {want} limits {l:?} centre {centre} spread {spread} method {k} stretches {n}");
    ensure!(low.get() >= l[0] - 1e-12 && high.get() <= l[1] + 1e-12, "a function is read beyond its limits | {} {} limits {l:?}", low.get(), high.get());
    if e.u(0) % 4 < 3 {
        cx.fault("a limit without end");
    }
    // Two at once, one of them without end: the product of the two.
    if e.n(7) > 0.5 {
        let few = IterativeMulti::<f64>::from_parameters(400, method(k));
        let pair = |p: &[f64; 3]| bell(p[2]) * p[0];
        let got = few.double_partial_integral(&pair, [2, 0], &[l, [1.0, 2.0]], &[5.0, 5.0, 5.0]);
        let other = few.double_partial_integral(&pair, [0, 2], &[[1.0, 2.0], l], &[5.0, 5.0, 5.0]);
        let tol = [8e-3, 1e-3, 1e-3][k] * want.max(1e-3) * 1.5;
        ensure!(got.is_ok_and(|got| (got - 1.5 * want).abs() <= tol) && other.is_ok_and(|got| (got - 1.5 * want).abs() <= tol), "the integral over two variables is off | {got:?} {other:?} want {} limits {l:?}", 1.5 * want);
        cx.reach("two variables, one without end");
    }
    let plain = integral(&bell, [edge, edge + 3.0 * spread]);
    let want = upto(edge + 3.0 * spread) - upto(edge);
    ensure!(plain.is_ok_and(|got| (got - want).abs() <= 1e-6 * want), "the integral of a smooth function is off | {plain:?} want {want} default");
    cx.log(plain.unwrap_or(0.0));
    cx.state(&[5, e.u(0) as i64 % 4, k as i64]);
    Ok(())
}

/// One unsound thing, or several: refused by the name of one of them.
fn unsound(e: &Ev, cx: &mut Cx) -> R {
    // who, method, count, index, limit pair, levels, which level
    let bad_limit = |a: f64, b: f64| a.is_nan() || b.is_nan() || !(a < b);
    let (a, b) = (e.n(4), e.n(5));
    let good = [0.0, 1.0];
    let levels = e.u(6).clamp(1, 3);
    let at = e.u(7) % levels;
    let mut l = [good; 3];
    let asked = Cell::new(0usize);
    let f = |_: f64| {
        asked.set(asked.get() + 1);
        0.0
    };
    let g = |_: &[f64; 3]| {
        asked.set(asked.get() + 1);
        0.0
    };
    let index = e.u(3);
    let vars: Vec<usize> = (0..levels).map(|i| if i == at { index } else { 0 }).collect();
    let mut may = vec![];
    let got = match e.u(0) % 4 {
        k @ (0 | 1) => {
            l[at] = [a, b];
            let n = e.u(2).min(8);
            if n == 0 {
                may.push(IntegrateError::IterationsZero);
            } else if bad_limit(a, b) {
                may.push(IntegrateError::LimitsIllDefined);
            }
            if k == 0 {
                call_single(&IterativeSingle::<f64>::from_parameters(n as u64, method(e.u(1))), &f, levels, &l)
            } else {
                if index >= 3 && n > 0 {
                    may.push(IntegrateError::IndexOutOfRange);
                }
                call_multi(&IterativeMulti::<f64>::from_parameters(n as u64, method(e.u(1))), &g, &vars, &l, &[0.0; 3])
            }
        }
        k => {
            let family = e.u(1) % 3;
            l = [family_limits(family, good); 3];
            l[at] = [a, b];
            let fits = match family {
                0 => a.is_finite() && b.is_finite() && a < b,
                1 => a == f64::NEG_INFINITY && b == f64::INFINITY,
                _ => a == 0.0 && b == f64::INFINITY,
            };
            let order = e.u(2);
            if order == 0 || order > 30 {
                may.push(IntegrateError::QuadratureOrderOutOfRange);
            }
            if !fits {
                may.push(IntegrateError::LimitsIllDefined);
            }
            if k == 2 {
                call_single(&GaussianSingle::<f64>::from_parameters(order, FAMILIES[family]), &f, levels, &l)
            } else {
                if index >= 3 {
                    may.push(IntegrateError::IndexOutOfRange);
                }
                if order > 6 && may.is_empty() {
                    return Ok(());
                }
                call_multi(&GaussianMulti::<f64>::from_parameters(order, FAMILIES[family]), &g, &vars, &l, &[0.0; 3])
            }
        }
    };
    if may.is_empty() {
        ensure!(got == Ok(0.0), "a sound integral of nothing is not nothing | {got:?} {e:?}");
    } else {
        cx.fault("an integral that cannot be");
        ensure!(got.is_err_and(|err| may.contains(&err)), "an integral that cannot be is not refused by its name | {got:?} want one of {may:?} {e:?}");
        ensure!(asked.get() == 0, "a function is read before its limits are looked at | {} {e:?}", asked.get());
    }
    cx.state(&[6, e.u(0) as i64 % 4, may.len() as i64]);
    Ok(())
}

/// A curve's own sums: along it and across it.
fn curve(e: &Ev, cx: &mut Cx) -> R {
    // field (three rows of four), curve (three rows of three), limits, stretches
    let field = |i: usize, p: &[f64]| e.n(4 * i) + p.iter().enumerate().map(|(j, v)| e.n(4 * i + 1 + j) * v).sum::<f64>() + 0.3 * e.n(4 * i) * (p[0] * 1.3).sin();
    let (low, high) = (Cell::new(f64::INFINITY), Cell::new(f64::NEG_INFINITY));
    let path = |i: usize, t: f64| e.n(12 + 3 * i) + e.n(13 + 3 * i) * t.cos() + e.n(14 + 3 * i) * t.sin();
    let seen = |i: usize, t: f64| {
        low.set(low.get().min(t));
        high.set(high.get().max(t));
        path(i, t)
    };
    let (a, b) = (e.n(21), e.n(22));
    let n = e.u(23).min(400);
    let default = e.n(24) > 0.5;
    let f2: [&dyn Fn(&[f64; 2]) -> f64; 2] = [&|p| field(0, p), &|p| field(1, p)];
    let f3: [&dyn Fn(&[f64; 3]) -> f64; 3] = [&|p| field(0, p), &|p| field(1, p), &|p| field(2, p)];
    let c2: [&dyn Fn(f64) -> f64; 2] = [&|t| seen(0, t), &|t| seen(1, t)];
    let c3: [&dyn Fn(f64) -> f64; 3] = [&|t| seen(0, t), &|t| seen(1, t), &|t| seen(2, t)];
    let count = if default { 120 } else { n };
    let two = if default { line_integral_2d(&f2, &c2, &[a, b]) } else { line_integral_2d_custom(&f2, &c2, &[a, b], n as u64) };
    let three = if default { line_integral_3d(&f3, &c3, &[a, b]) } else { line_integral_3d_custom(&f3, &c3, &[a, b], n as u64) };
    let flux = if default { flux_integral_2d(&f2, &c2, &[a, b]) } else { flux_integral_2d_custom(&f2, &c2, &[a, b], n as u64) };
    if !(a < b) || count == 0 {
        cx.fault("a curve that cannot be");
        let fine = |r: &Result<f64, IntegrateError>| {
            matches!(r, Err(IntegrateError::IterationsZero)) && count == 0 || matches!(r, Err(IntegrateError::LimitsIllDefined)) && !(a < b)
        };
        ensure!(fine(&two) && fine(&three) && fine(&flux), "a curve that cannot be is not refused by name | {two:?} {three:?} {flux:?} limits {a} {b} count {count}");
        return Ok(());
    }
    if !a.is_finite() || !b.is_finite() {
        return Ok(());
    }
    let h = (b - a) / count as f64;
    ensure!(low.get() >= a && low.get() - a <= 1e-9 * h && high.get() <= b && b - high.get() <= 1e-9 * h + f64::EPSILON * (a.abs() + b.abs()) * count as f64, "a curve is not followed from limit to limit | {} {} limits {a} {b} count {count}", low.get(), high.get());
    let (mut along2, mut along3, mut across, mut size) = (0.0, 0.0, 0.0, 0.0);
    for k in 0..count {
        let (t, u) = (a + h * k as f64, a + h * (k + 1) as f64);
        let (p, q): (Vec<f64>, Vec<f64>) = ((0..3).map(|i| path(i, t)).collect(), (0..3).map(|i| path(i, u)).collect());
        let mean2 = |i: usize| 0.5 * (field(i, &p[..2]) + field(i, &q[..2]));
        let mean3 = |i: usize| 0.5 * (field(i, &p) + field(i, &q));
        let d: Vec<f64> = (0..3).map(|i| q[i] - p[i]).collect();
        along2 += mean2(0) * d[0] + mean2(1) * d[1];
        across += mean2(0) * d[1] - mean2(1) * d[0];
        along3 += mean3(0) * d[0] + mean3(1) * d[1] + mean3(2) * d[2];
        for i in 0..2 {
            for j in 0..2 {
                size += (mean2(i) * d[j]).abs();
            }
        }
        size += (0..3).map(|i| (mean3(i) * d[i]).abs()).sum::<f64>();
    }
    let reach = (0..21).fold(1.0f64, |m, i| m.max(e.n(i).abs()));
    let tol = 1e-12 * size + 1e-14 * count as f64 * reach.powi(3) * (1.0 + a.abs().max(b.abs()));
    for (name, got, want) in [("along a plane curve", &two, along2), ("along a curve in space", &three, along3), ("across a plane curve", &flux, across)] {
        ensure!(got.is_ok_and(|got| (got - want).abs() <= tol), "the integral {name} is not the curve's | {got:?} want {want} limits {a} {b} count {count} tol {tol:e}");
    }
    // Once round, the flow out is the area times what springs up inside, and the flow round it
    // the area times how it turns there: only linear parts of the field are so even.
    if e.n(25) > 0.5 {
        let flat: [&dyn Fn(&[f64; 2]) -> f64; 2] = [&|p| e.n(0) + e.n(1) * p[0] + e.n(2) * p[1], &|p| e.n(4) + e.n(5) * p[0] + e.n(6) * p[1]];
        let area = PI * (e.n(13) * e.n(17) - e.n(14) * e.n(16));
        let out = flux_integral_2d_custom(&flat, &c2, &[0.0, TAU], 300);
        let round = line_integral_2d_custom(&flat, &c2, &[0.0, TAU], 300);
        let tol = 2e-3 * reach.powi(3) * 10.0;
        ensure!(out.is_ok_and(|v| (v - area * (e.n(1) + e.n(6))).abs() <= tol), "the flow out of a closed curve is not what springs up inside | {out:?} want {}", area * (e.n(1) + e.n(6)));
        ensure!(round.is_ok_and(|v| (v - area * (e.n(5) - e.n(2))).abs() <= tol), "the flow round a closed curve is not how the field turns inside | {round:?} want {}", area * (e.n(5) - e.n(2)));
        cx.reach("once round");
    }
    cx.log(across);
    cx.reach("a curve");
    cx.state(&[7, (count as f64).log2() as i64]);
    Ok(())
}

/// The place of a rule a reading was taken at, if it was at one: far nearer to it than to the next.
fn nearest(rule: &Rule, at: f64) -> Option<f64> {
    let mut off: Vec<(f64, f64)> = rule.iter().map(|(x, _)| ((x - at).abs(), *x)).collect();
    off.sort_by(|a, b| a.0.total_cmp(&b.0));
    (off.len() < 2 || off[0].0 <= 0.1 * off[1].0).then(|| off[0].1)
}

/// Any answers at all over limits without end: what one reading weighs is learned from a function
/// that is nothing anywhere else, and every combination of readings is then held to those weights.
fn endless<T: Width>(e: &Ev, cx: &mut Cx) -> R {
    // method, stretches, kahan, levels, limits (three pairs), kinds (three), variables (three), place (three), function
    let (k, n, kahan) = (e.u(0) % 3, e.u(1).clamp(1, 8), e.n(2) > 0.5);
    let levels = e.u(3).clamp(1, if T::EPS > 1e-10 { 2 } else { 3 });
    let l: Vec<[T; 2]> = (0..3)
        .map(|i| {
            let l: [T; 2] = limits(e, 4 + 2 * i);
            match e.u(10 + i) % 5 {
                0 => l,
                1 | 2 => [l[0], T::INFINITY],
                3 => [T::NEG_INFINITY, l[1]],
                _ => [T::NEG_INFINITY, T::INFINITY],
            }
        })
        .collect();
    let vars = distinct(e, 13, levels);
    let at: [T; 3] = std::array::from_fn(|i| T::of(e.n(16 + i)));
    let stretches = rounded(k, n);
    let (mut one, mut several) = (IterativeSingle::<T>::from_parameters(n as u64, method(k)), IterativeMulti::<T>::from_parameters(n as u64, method(k)));
    if kahan {
        (one, several) = (one.with_kahan_summation(), several.with_kahan_summation());
    }
    let mut rules: Vec<Rule> = vec![];
    for l in &l[..levels] {
        let mut rule = vec![];
        for i in 0..=stretches {
            let (asked, place) = (Cell::new(0), Cell::new(T::ZERO));
            let got = one.single_integral(
                &|x| {
                    let now = asked.replace(asked.get() + 1);
                    if now == i {
                        place.set(x);
                    }
                    if now == i { T::ONE } else { T::ZERO }
                },
                l,
            );
            let Ok(weight) = got else {
                return Err(format!("a sound integral is refused | {got:?} {l:?}"));
            };
            let (x, weight) = (place.get().f(), weight.f());
            ensure!(asked.get() == stretches + 1, "the function is read another number of times | {} want {} limits {l:?}", asked.get(), stretches + 1);
            ensure!(x.is_finite() && x >= l[0].f() && x <= l[1].f(), "a function is read beyond its limits | {x} {l:?}");
            ensure!(weight > 0.0 && rule.iter().all(|(other, _)| *other != x), "a reading without end counts for nothing, or is read twice | {x} weighs {weight:e} limits {l:?}");
            rule.push((x, weight));
        }
        rules.push(rule);
    }
    let what = format!("method {k} stretches {stretches} limits {l:?} variables {vars:?} kahan {kahan}");
    // A stretch of one variable times the whole of the others.
    let told = Told::<T>::new(sound_reading(e, 19));
    let got = call_single(&one, &|x| told.answer(&[x]), levels, &l);
    refusal(&got, told.broke())?;
    if !told.broke() {
        let Ok(got) = got else {
            return Err(format!("a sound integral is refused | {got:?} {what}"));
        };
        let outer: f64 = rules[1..].iter().map(|r| r.iter().map(|(_, w)| w).sum::<f64>()).product();
        let mut read = told.seen.borrow().clone();
        let mut rule = rules[0].clone();
        read.sort_by(|a, b| a.0[0].total_cmp(&b.0[0]));
        rule.sort_by(|a, b| a.0.total_cmp(&b.0));
        ensure!(read.len() == rule.len() && read.iter().zip(&rule).all(|(a, b)| nearest(&rule, a.0[0]) == Some(b.0)), "the function is read at other places | {read:?} want {rule:?} {what}");
        let (sum, size) = exact(read.iter().zip(&rule).map(|(r, w)| r.1 * w.1));
        ensure!((got - sum * outer).abs() <= 60.0 * levels as f64 * T::EPS * size * outer + 1e-300, "an integral is not its rule's sum | {got:e} want {:e} of {:e} without end {what}", sum * outer, size * outer);
    }
    // Every combination of places.
    let told = Told::<T>::new(sound_reading(e, 19));
    let got = call_multi(&several, &|p| told.answer(p), &vars, &l, &at);
    cx.log(got.unwrap_or(0.0));
    refusal(&got, told.broke())?;
    cx.fault("a limit without end");
    if told.broke() {
        cx.fault("a reading that is no number");
        return Ok(());
    }
    let Ok(got) = got else {
        return Err(format!("a sound partial integral is refused | {got:?} {what}"));
    };
    // The places as they were learned, so that near is near.
    let seen: Vec<(Vec<f64>, f64)> = told
        .seen
        .borrow()
        .iter()
        .map(|(p, v)| {
            let mut p = p.clone();
            for (var, rule) in vars.iter().zip(&rules) {
                if let Some(x) = nearest(rule, p[*var]) {
                    p[*var] = x;
                }
            }
            (p, *v)
        })
        .collect();
    let place: Vec<f64> = at.iter().map(|v| v.f()).collect();
    let (sum, size) = over_many(&seen, &vars, &rules, &place, 0.0, &what)?;
    ensure!((got - sum).abs() <= 60.0 * levels as f64 * T::EPS * size + 1e-300, "a partial integral is not its rule's sum | {got:e} want {sum:e} size {size:e} without end {what}");
    cx.reach("any answers, without end");
    cx.state(&[8, k as i64, levels as i64, stretches as i64, e.u(10) as i64 % 5, e.u(11) as i64 % 5]);
    Ok(())
}

impl World for Tally {
    fn name(&self) -> &'static str {
        "tally"
    }
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        t.cfg.push(r.chance(0.3) as u8 as f64);
        let pair = |r: &mut Rng| {
            let size = *r.pick(&[1.0, 1.0, 10.0, 1e-3, 1e4]);
            let a = size * r.range(-1.0, 1.0);
            [a, a + size * r.log_range(1e-2, 3.0)]
        };
        for _ in 0..r.int(2, 8) {
            let function = |r: &mut Rng, reads: f64| -> Vec<f64> {
                let broken = if r.chance(0.15) { (r.unit() * reads).floor() } else { -1.0 };
                vec![r.unit(), r.log_range(1e-3, 1e3), r.chance(0.4) as u8 as f64, broken, r.broken()]
            };
            let mut lim: Vec<f64> = vec![];
            for _ in 0..3 {
                lim.extend(pair(r));
            }
            match r.below(13) {
                12 => {
                    let (n, levels) = (r.int(1, 8) as f64, r.int(1, 3) as f64);
                    let mut a = vec![r.below(3) as f64, n, r.chance(0.4) as u8 as f64, levels];
                    a.extend(&lim);
                    a.extend((0..3).map(|_| r.below(5) as f64));
                    a.extend((0..3).map(|_| r.below(6) as f64));
                    a.extend((0..3).map(|_| r.normal()));
                    a.extend(function(r, (n + 1.0).powf(levels)));
                    t.evs.push(ev("endless", &a));
                }
                0..=2 => {
                    let n = if r.chance(0.05) { r.int(3000, 12000) } else if r.chance(0.2) { r.int(1, 5) } else { r.int(1, 300) } as f64;
                    let mut a = vec![r.below(3) as f64, n, r.chance(0.4) as u8 as f64, r.int(1, 3) as f64];
                    a.extend(&lim);
                    a.extend(function(r, n + 1.0));
                    t.evs.push(ev("iterative", &a));
                }
                3 | 4 => {
                    let (n, levels) = (r.int(1, 8) as f64, r.int(1, 3) as f64);
                    let mut a = vec![r.below(3) as f64, n, r.chance(0.4) as u8 as f64, levels];
                    a.extend(&lim);
                    a.extend((0..3).map(|_| r.below(6) as f64));
                    a.extend((0..3).map(|_| r.normal()));
                    a.extend(function(r, (n + 1.0).powf(levels)));
                    t.evs.push(ev("partial", &a));
                }
                5 | 6 => {
                    let order = r.int(1, 30) as f64;
                    let mut a = vec![r.below(3) as f64, order, r.int(1, 3) as f64];
                    a.extend(&lim);
                    a.extend(function(r, order));
                    t.evs.push(ev("gauss", &a));
                }
                7 => {
                    let (order, levels) = (r.int(1, 8) as f64, r.int(1, 3) as f64);
                    let mut a = vec![r.below(3) as f64, order, levels];
                    a.extend(&lim);
                    a.extend((0..3).map(|_| r.below(6) as f64));
                    a.extend((0..3).map(|_| r.normal()));
                    a.extend(function(r, order.powf(levels)));
                    t.evs.push(ev("gauss several", &a));
                }
                8 => t.evs.push(ev("power", &[r.below(3) as f64, r.int(1, 30) as f64, r.below(60) as f64])),
                9 => {
                    if r.chance(0.3) {
                        t.evs.push(ev("smooth", &[r.below(4) as f64, r.below(3) as f64, r.int(400, 900) as f64, r.range(-1.0, 1.0), r.range(0.5, 2.0), r.range(-1.0, 1.0), r.chance(0.5) as u8 as f64, r.chance(0.1) as u8 as f64]));
                    }
                }
                10 => {
                    let pieces = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, -1.0, 0.5];
                    let order = *r.pick(&[0.0, 1.0, 2.0, 3.0, 4.0, 30.0, 31.0, 1e6]);
                    t.evs.push(ev("unsound", &[r.below(4) as f64, r.below(3) as f64, order, *r.pick(&[0.0, 1.0, 2.0, 3.0, 4.0, 1e9]), *r.pick(&pieces), *r.pick(&pieces), r.int(1, 3) as f64, r.below(3) as f64]));
                }
                _ => {
                    let mut a: Vec<f64> = (0..21).map(|_| r.range(-2.0, 2.0)).collect();
                    let ends = pair(r);
                    a.extend(match r.below(10) {
                        0 => [r.broken(), ends[1]],
                        1 => [ends[1], ends[0]],
                        2 => [ends[0], ends[0]],
                        _ => ends,
                    });
                    a.extend([if r.chance(0.1) { 0.0 } else { r.int(1, 200) as f64 }, r.chance(0.2) as u8 as f64, r.chance(0.3) as u8 as f64]);
                    t.evs.push(ev("curve", &a));
                }
            }
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        let short = t.cu(0) == 1;
        for e in &t.evs {
            cx.step(e.k);
            match (e.k, short) {
                ("iterative", false) => iterative::<f64>(e, cx)?,
                ("iterative", true) => iterative::<f32>(e, cx)?,
                ("partial", false) => partial::<f64>(e, cx)?,
                ("partial", true) => partial::<f32>(e, cx)?,
                ("endless", false) => endless::<f64>(e, cx)?,
                ("endless", true) => endless::<f32>(e, cx)?,
                ("gauss", false) => gauss::<f64>(e, cx)?,
                ("gauss", true) => gauss::<f32>(e, cx)?,
                ("gauss several", false) => gauss_partial::<f64>(e, cx)?,
                ("gauss several", true) => gauss_partial::<f32>(e, cx)?,
                ("power", _) => moment(e, cx)?,
                ("smooth", _) => smooth(e, cx)?,
                ("unsound", _) => unsound(e, cx)?,
                _ => curve(e, cx)?,
            }
        }
        Ok(())
    }
}
