//! Root finders calling a function that fails, jumps, has holes or answers with noise.

use crate::core::*;
use crate::ensure;
use crate::refs::Mat;
use multicalc::error::SolveError;
use multicalc::numerical_derivative::FiniteDifferenceSingle;
use multicalc::root_finding::*;
use multicalc::scalar::{Numeric, ScalarFn, VectorFn};
use std::cell::{Cell, RefCell};

/// The number itself, when the scalar is a plain double.
pub fn plain<S: Numeric>(x: S) -> Option<f64> {
    // Nothing else the library evaluates here at is this small.
    (std::mem::size_of::<S>() == 8).then(|| unsafe { std::mem::transmute_copy::<S, f64>(&x) })
}

/// `c0 + c1 x + c3 x³ + s sin(w x) + j [x > k]`, not a number in the open interval `hole`.
struct Fun {
    c: [f64; 3],
    s: f64,
    w: f64,
    j: f64,
    k: f64,
    hole: (f64, f64),
    scale: f64,
    noise: f64,
    bad_at: usize,
    bad: f64,
    calls: Cell<usize>,
    fired: Cell<bool>,
    log: RefCell<Vec<(f64, f64)>>,
}

impl Fun {
    fn at(&self, x: f64) -> f64 {
        if x > self.hole.0 && x < self.hole.1 {
            return f64::NAN;
        }
        self.scale
            * (self.c[0]
                + self.c[1] * x
                + self.c[2] * x * x * x
                + self.s * (self.w * x).sin()
                + if x > self.k { self.j } else { 0.0 })
    }
    fn slope(&self, x: f64) -> f64 {
        if x > self.hole.0 && x < self.hole.1 {
            return f64::NAN;
        }
        self.scale * (self.c[1] + 3.0 * self.c[2] * x * x + self.s * self.w * (self.w * x).cos())
    }
}

impl ScalarFn for Fun {
    fn eval<S: Numeric>(&self, x: S) -> S {
        let n = self.calls.get() + 1;
        self.calls.set(n);
        let f = S::from_f64;
        let mut y = f(self.c[0]) + f(self.c[1]) * x + f(self.c[2]) * x * x * x;
        if self.s != 0.0 {
            y += f(self.s) * (f(self.w) * x).sin();
        }
        if x > f(self.k) {
            y += f(self.j);
        }
        if x > f(self.hole.0) && x < f(self.hole.1) {
            self.fired.set(true);
            y *= f(f64::NAN);
        }
        if self.scale != 1.0 {
            y *= f(self.scale);
        }
        if self.noise > 0.0 {
            let mut s = n as u64;
            y += f(self.noise * (splitmix(&mut s) as f64 / u64::MAX as f64 - 0.5));
        }
        if n == self.bad_at {
            self.fired.set(true);
            y *= f(self.bad);
        }
        if let (Some(a), Some(b)) = (plain(x), plain(y)) {
            self.log.borrow_mut().push((a, b));
        }
        y
    }
}

const BAD: [f64; 3] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];

pub struct Roots;

impl World for Roots {
    fn name(&self) -> &'static str {
        "roots"
    }

    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        for _ in 0..r.int(1, 5) {
            if r.chance(0.25) {
                let mut a = vec![
                    r.int(1, 3) as f64,
                    r.below(2) as f64,
                    r.below(1 << 30) as f64,
                    if r.chance(0.3) { r.int(1, 30) as f64 } else { 0.0 },
                    r.below(3) as f64,
                    if r.chance(0.2) { r.int(0, 6) as f64 } else { 100.0 },
                    if r.chance(0.3) { r.log_range(1e-10, 1e-2) } else { 1e-13 },
                    if r.chance(0.3) { r.log_range(1e-10, 1e-2) } else { 1e-13 },
                    r.below(8) as f64,
                ];
                a.push(r.range(0.0, 3.0));
                t.evs.push(ev("system", &a));
                continue;
            }
            let root = r.range(-4.0, 4.0);
            let mono = r.chance(0.6);
            let c1 = r.log_range(0.05, 5.0);
            let c3 = if r.chance(0.5) { r.log_range(1e-3, 1.0) } else { 0.0 };
            let w = r.range(0.5, 4.0);
            let s = if mono { 0.8 * c1 / w * r.range(-1.0, 1.0) } else { r.range(-2.0, 2.0) };
            let flip = r.sign();
            let f0 = c1 * root + c3 * root.powi(3) + s * (w * root).sin();
            let lo = root - r.log_range(1e-3, 5.0);
            let hi = root + r.log_range(1e-3, 5.0);
            let (mut a, mut b) = if r.chance(0.2) { (hi, lo) } else { (lo, hi) };
            match r.below(20) {
                0 => a = r.broken(),
                1 => b = r.broken(),
                2 => a = b,
                3 => a = root,
                4 => b = root,
                _ => {}
            }
            let fault = r.below(10);
            let hole = r.range(-5.0, 5.0);
            let loose = r.chance(0.4);
            // Values near the ends of what a double can hold.
            let scaled = fault > 4 && r.chance(0.2);
            let scale = if scaled { 10f64.powi(r.int(0, 540) as i32 - 280) } else { 1.0 };
            t.evs.push(ev(
                "scalar",
                &[
                    if scaled { r.below(2) } else { r.below(5) } as f64,
                    if fault == 1 { r.int(1, 25) as f64 } else { 0.0 },
                    r.below(3) as f64,
                    -f0 * flip,
                    c1 * flip,
                    c3 * flip,
                    s * flip,
                    w,
                    if fault == 2 { flip * r.range(0.5, 5.0) } else { 0.0 },
                    if fault == 2 { root + r.range(-1.0, 1.0) } else { 0.0 },
                    if fault == 3 { hole } else { f64::INFINITY },
                    if fault == 3 { hole + r.log_range(1e-3, 2.0) } else { f64::INFINITY },
                    if fault == 4 { r.log_range(1e-9, 1e-2) } else { 0.0 },
                    a,
                    b,
                    if loose { r.log_range(1e-12, 1e-1) } else { 4.0 * f64::EPSILON },
                    scale * if loose { r.log_range(1e-12, 1e-1) } else { 4.0 * f64::EPSILON },
                    if r.chance(0.2) { r.int(0, 20) as f64 } else { 100.0 },
                    f64::from(mono && fault > 4 && !scaled),
                    scale,
                ],
            ));
        }
        t
    }

    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        for e in &t.evs {
            cx.step(e.k);
            match e.k {
                "scalar" => scalar(e, cx)?,
                "system" => match e.u(0) {
                    2 => system::<2>(e, cx)?,
                    3 => system::<3>(e, cx)?,
                    _ => system::<1>(e, cx)?,
                },
                _ => {}
            }
        }
        Ok(())
    }
}

fn scalar(e: &Ev, cx: &mut Cx) -> R {
    let f = Fun {
        c: [e.n(3), e.n(4), e.n(5)],
        s: e.n(6),
        w: e.n(7),
        j: e.n(8),
        k: e.n(9),
        hole: (e.n(10), e.n(11)),
        scale: if e.n(19) == 0.0 { 1.0 } else { e.n(19) },
        noise: e.n(12),
        bad_at: e.u(1),
        bad: BAD[e.u(2) % 3],
        calls: Cell::new(0),
        fired: Cell::new(false),
        log: RefCell::new(Vec::new()),
    };
    let (a, b, xtol, ftol, budget) = (e.n(13), e.n(14), e.n(15), e.n(16), e.u(17));
    let method = e.u(0);
    let name = ["bisection", "brent", "newton", "damped newton", "differenced newton"][method.min(4)];
    let got = match method {
        0 => Bisection::default().with_xtol(xtol).with_ftol(ftol).with_max_iterations(budget).solve(&f, a, b),
        1 => Brent::default().with_xtol(xtol).with_ftol(ftol).with_max_iterations(budget).solve(&f, a, b),
        2 | 3 => {
            let solver: Newton = Newton::default();
            solver.with_xtol(xtol).with_ftol(ftol).with_max_iterations(budget).with_backtracking(method == 3).solve(&f, a)
        }
        _ => Newton::from_derivator(FiniteDifferenceSingle::default())
            .with_xtol(xtol)
            .with_ftol(ftol)
            .with_max_iterations(budget)
            .solve(&f, a),
    };
    let log = f.log.borrow();
    let told = || format!("{name}: {got:?} from {a} {b} budget {budget} tol {xtol} {ftol} calls {}", log.len());
    if f.fired.get() {
        cx.fault(if f.bad_at > 0 { "function failed" } else { "function has a hole" });
    }
    if f.noise > 0.0 {
        cx.fault("function noisy");
    }
    if f.j != 0.0 {
        cx.fault("function jumps");
    }
    if f.scale != 1.0 {
        cx.fault("function near the ends of what a double holds");
    }
    if let Ok(r) = &got {
        cx.log(r.root);
        cx.logu(r.iterations as u64);
        let seen = log.iter().rev().find(|(x, _)| same(*x, r.root)).map(|(_, y)| *y);
        ensure!(seen.is_some(), "{name}: answers a point it never tried | {}", told());
        ensure!(log.iter().any(|(x, y)| same(*x, r.root) && same(*y, r.residual)), "{name}: the residual is not the function there | {}", told());
        ensure!(r.residual.is_finite() && r.root.is_finite(), "{name}: an answer that is not finite | {}", told());
        ensure!(r.iterations <= budget.max(1), "{name}: more iterations than allowed | {}", told());
        if r.termination == RootTermination::ResidualTolerance {
            ensure!(r.residual == 0.0 || r.residual.abs() <= ftol, "{name}: says the residual is small, it is not | {}", told());
        }
    }
    if let Err(SolveError::DidNotConverge { iters }) = got {
        ensure!(iters == budget, "{name}: reports another budget than it had | {}", told());
        cx.reach("budget exhausted");
    }
    if method <= 1 {
        brackets(method, name, &log, &got, a, b, xtol, ftol, budget, e.u(18) == 1, cx)?;
    } else {
        let broken = log.iter().any(|(_, y)| !y.is_finite()) || f.fired.get();
        if method != 3 && broken {
            ensure!(got.is_err(), "{name}: a broken function value was hidden | {}", told());
        }
        match &got {
            Err(SolveError::NonFinite) => {
                cx.reach("newton stopped by a broken value");
                let overflow = log.iter().any(|(x, _)| x.abs() > 1e90);
                ensure!(broken || overflow || !a.is_finite(), "{name}: refused sound values as not finite | {}", told());
            }
            Err(SolveError::InvalidBracket) => return Err(format!("{name}: speaks of a bracket | {}", told())),
            Err(SolveError::Linalg(_)) => {
                cx.reach("newton met a flat spot");
                ensure!(f.noise > 0.0 || log.iter().any(|(x, _)| f.slope(*x).abs() < 1e-9 * (1.0 + x.abs())), "{name}: says singular where the slope is not zero | {}", told());
            }
            Ok(r) => {
                cx.reach("newton found a root");
                if r.termination == RootTermination::StepTolerance && method != 3 && log.len() > 1 && method == 2 {
                    let (x, before) = (log[log.len() - 1].0, log[log.len() - 2].0);
                    ensure!((x - before).abs() <= xtol * (1.0 + x.abs()) * (1.0 + 1e-12), "{name}: says the step is small, it is not | {}", told());
                }
                ensure!(r.termination != RootTermination::BracketWidth, "{name}: speaks of a bracket | {}", told());
            }
            _ => {}
        }
        if method == 2 {
            // The points tried, each once.
            let mut tried: Vec<(f64, f64)> = Vec::new();
            for (x, y) in log.iter() {
                if tried.last().is_none_or(|l| l.0 != *x) {
                    tried.push((*x, *y));
                }
            }
            for i in 0..tried.len().saturating_sub(1) {
                let (x, y) = tried[i];
                ensure!(!(y.abs() <= ftol), "{name}: carries on past a point it should have answered | point {i} {}", told());
                let small = i > 0 && (x - tried[i - 1].0).abs() <= xtol * (1.0 + x.abs()) * (1.0 - 1e-9);
                ensure!(!small, "{name}: carries on past a step that is small enough | point {i} {}", told());
            }
        }
        if f.noise == 0.0 && f.bad_at == 0 && method != 4 && ftol >= 1e-12 {
            // An independent Newton, compared while it is far from any tie.
            newton_model(&f, a, xtol, ftol, budget, method == 3, &got, name, cx)?;
        }
    }
    cx.state(&[method as i64, got.is_ok() as i64, f.fired.get() as i64, (log.len() as f64).sqrt() as i64]);
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn newton_model(f: &Fun, x0: f64, xtol: f64, ftol: f64, budget: usize, damped: bool, got: &Result<RootReport, SolveError>, name: &str, cx: &mut Cx) -> R {
    let mut x = x0;
    let mut y = f.at(x);
    if !y.is_finite() {
        return Ok(());
    }
    // How far rounding may have carried the two iterations apart.
    let mut drift = 1e-15 * (1.0 + x.abs());
    for i in 0..=budget.min(12) {
        if y.abs() <= 0.3 * ftol {
            if i < budget && i < 12 {
                let sure = f.slope(x).abs() > 1e-3;
                ensure!(got.is_ok(), "{name}: did not find a root it should | {got:?} root {x} residual {y:e} after {i} steps");
                let r = got.as_ref().map_err(|_| String::new())?;
                let reach = (xtol * (1.0 + x.abs()) + ftol) * 100.0 / f.slope(x).abs().min(1.0) + 1e-9;
                ensure!(!sure || (r.root - x).abs() <= reach, "{name}: not the root the iteration leads to | {got:?} want {x}");
                ensure!(r.iterations <= i + 2, "{name}: takes more iterations than the method | {got:?} want about {i}");
                cx.reach("newton agrees with the model");
            }
            return Ok(());
        }
        if y.abs() <= 3.0 * ftol {
            return Ok(());
        }
        let d = f.slope(x);
        if !d.is_finite() || d.abs() < 1e-3 {
            return Ok(());
        }
        let step = y / d;
        if step.abs() <= 10.0 * xtol * (1.0 + x.abs()) {
            // It may stop here on its step.
            return Ok(());
        }
        let mut alpha = 1.0;
        let (nx, ny) = loop {
            let nx = x - alpha * step;
            let ny = f.at(nx);
            if !damped {
                break (nx, ny);
            }
            if ny.is_finite() && (ny.abs() - y.abs()).abs() < 1e-9 * y.abs() {
                // A tie.
                return Ok(());
            }
            if ny.is_finite() && ny.abs() < y.abs() {
                break (nx, ny);
            }
            alpha *= 0.5;
            if alpha < 1e-6 {
                return Ok(());
            }
        };
        // Chaos grows with every far jump, and holes end it.
        let h = 1e-5 * (1.0 + x.abs());
        let bend = (f.slope(x + h) - f.slope(x - h)).abs() / (2.0 * h);
        drift = drift * ((y * bend / (d * d)).abs() + 1.0) + 1e-15 * (1.0 + x.abs() + step.abs());
        let short = damped && (alpha * step).abs() <= 10.0 * xtol * (1.0 + nx.abs());
        if !ny.is_finite() || short || !(drift < 1e-10) || nx.abs() > 1e3 || (nx - f.k).abs() < 1e-9 || (nx - f.hole.0).abs() < 1e-9 || (nx - f.hole.1).abs() < 1e-9 {
            return Ok(());
        }
        x = nx;
        y = ny;
        if damped && i < budget {
            cx.reach("damped step");
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn brackets(
    method: usize,
    name: &str,
    log: &[(f64, f64)],
    got: &Result<RootReport, SolveError>,
    a: f64,
    b: f64,
    xtol: f64,
    ftol: f64,
    budget: usize,
    easy: bool,
    cx: &mut Cx,
) -> R {
    let told = || format!("{got:?} from {a} {b} budget {budget} tol {xtol} {ftol} tried {log:?}");
    ensure!(log.len() >= 2 && log[..2].iter().any(|p| same(p.0, a)) && log[..2].iter().any(|p| same(p.0, b)), "{name}: does not look at the ends | {}", told());
    let fa = log[..2].iter().find(|p| same(p.0, a)).map_or(0.0, |p| p.1);
    let fb = log[..2].iter().rev().find(|p| same(p.0, b)).map_or(0.0, |p| p.1);
    if let Some(i) = log.iter().position(|p| !p.1.is_finite()) {
        ensure!(matches!(got, Err(SolveError::NonFinite)), "{name}: a broken function value was hidden | {}", told());
        ensure!(i + 1 == log.len() || i < 2, "{name}: carries on after a broken function value | {}", told());
        cx.reach("bracket stopped by a broken value");
        return Ok(());
    }
    ensure!(!matches!(got, Err(SolveError::NonFinite)), "{name}: refused sound values as not finite | {}", told());
    if fa == 0.0 || fb == 0.0 {
        let ok = got.as_ref().is_ok_and(|r| (fa == 0.0 && same(r.root, a)) || (fb == 0.0 && same(r.root, b)));
        ensure!(ok, "{name}: a root at an end was not taken | {}", told());
        cx.reach("root at an end");
        return Ok(());
    }
    if (fa > 0.0) == (fb > 0.0) {
        ensure!(matches!(got, Err(SolveError::InvalidBracket)), "{name}: accepted ends of one sign | {}", told());
        cx.reach("bracket refused");
        return Ok(());
    }
    ensure!(!matches!(got, Err(SolveError::InvalidBracket)), "{name}: refused a sound bracket | {}", told());
    // Every later point lies in the bracket that is left, which always holds a sign change.
    let (mut lo, mut hi, flo) = if a <= b { (a, b, fa) } else { (b, a, fb) };
    let (mut flo2, mut fhi2) = if a <= b { (fa, fb) } else { (fb, fa) };
    for (i, (x, y)) in log[2..].iter().enumerate() {
        ensure!(*x >= lo && *x <= hi, "{name}: looks outside the bracket that is left | point {i} {x} in {lo} {hi} {}", told());
        if method == 0 {
            let mid = lo + (hi - lo) * 0.5;
            ensure!((x - mid).abs() <= 1e-15 * (lo.abs() + hi.abs()), "{name}: does not halve the bracket | point {i} {x} in {lo} {hi} {}", told());
        }
        let before = (lo, hi);
        if (*y >= 0.0) == (flo > 0.0) && *y != 0.0 {
            lo = *x;
            flo2 = *y;
        } else {
            hi = *x;
            fhi2 = *y;
        }
        let last = i + 3 == log.len();
        if !last {
            ensure!(y.abs() > ftol, "{name}: carries on past a small residual | point {i} {x} {y:e} {}", told());
        }
        if method == 0 && !last {
            ensure!(before.1 - before.0 > xtol * (1.0 + x.abs()), "{name}: carries on past a narrow bracket | point {i} {}", told());
        }
    }
    match got {
        Ok(r) => {
            cx.reach("bracket closed on a root");
            let inside = r.root >= a.min(b) && r.root <= a.max(b);
            ensure!(inside, "{name}: a root outside the bracket | {}", told());
            if r.termination == RootTermination::BracketWidth {
                let tol = xtol * (1.0 + r.root.abs());
                ensure!((hi - lo) <= 2.0 * tol * (1.0 + 1e-9), "{name}: says the bracket is narrow, it is not | {lo} {hi} {}", told());
                ensure!(r.root >= lo - 2.0 * tol && r.root <= hi + 2.0 * tol, "{name}: the root is not at the sign change | {lo} {hi} {}", told());
                if method == 1 {
                    ensure!(r.residual.abs() <= flo2.abs().min(fhi2.abs()), "{name}: not the better end | {}", told());
                }
            }
            ensure!(r.termination != RootTermination::StepTolerance, "{name}: speaks of steps | {}", told());
            ensure!(r.iterations + 2 == log.len() || r.iterations == 0, "{name}: iterations miscounted | {}", told());
        }
        Err(SolveError::DidNotConverge { .. }) => {
            ensure!(log.len() == budget + 2, "{name}: gave up early or late | {}", told());
            let w = (b - a).abs();
            let most = (w / (xtol * (1.0 + lo.abs().min(hi.abs())))).log2().ceil().max(0.0) as i64 + 3;
            if method == 0 {
                ensure!((budget as i64) < most, "{name}: not done after the halvings it needs | needs {most} {}", told());
            } else {
                // Interpolation may lose to halving, but not by this much.
                ensure!((budget as i64) < 4 * most + 40, "{name}: not done long after halving would be | needs {most} {}", told());
            }
        }
        Err(other) => return Err(format!("{name}: unexpected refusal | {other:?} {}", told())),
    }
    if method == 1 && easy && ftol >= 1e-11 && log.len() > 40 {
        return Err(format!("{name}: no faster than halving on a smooth function | {}", told()));
    }
    Ok(())
}

/// `F_i = b_i + Σ a_ij x_j + s_i sin(x_i)`, not a number beyond `edge` in its first coordinate.
struct Square<const N: usize> {
    a: [[f64; N]; N],
    b: [f64; N],
    s: [f64; N],
    edge: f64,
    bad_at: usize,
    bad: f64,
    calls: Cell<usize>,
    fired: Cell<bool>,
    log: RefCell<Vec<([f64; N], [f64; N])>>,
}

impl<const N: usize> VectorFn<N, N> for Square<N> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; N] {
        let n = self.calls.get() + 1;
        self.calls.set(n);
        let f = S::from_f64;
        let mut y: [S; N] = std::array::from_fn(|i| {
            let mut v = f(self.b[i]) + f(self.s[i]) * x[i].sin();
            for j in 0..N {
                v += f(self.a[i][j]) * x[j];
            }
            v
        });
        if x[0] > f(self.edge) {
            self.fired.set(true);
            y[0] *= f(f64::NAN);
        }
        if n == self.bad_at {
            self.fired.set(true);
            y[n % N] *= f(self.bad);
        }
        if plain(x[0]).is_some() {
            self.log.borrow_mut().push((
                std::array::from_fn(|i| plain(x[i]).unwrap_or(0.0)),
                std::array::from_fn(|i| plain(y[i]).unwrap_or(0.0)),
            ));
        }
        y
    }
}

fn system<const N: usize>(e: &Ev, cx: &mut Cx) -> R {
    let mut r = Rng::new(e.u(2) as u64);
    let damped = e.u(1) == 1;
    let mut f = Square::<N> {
        a: std::array::from_fn(|i| std::array::from_fn(|j| if i == j { r.sign() * r.range(0.6, 2.0) } else { r.range(-0.5, 0.5) })),
        b: std::array::from_fn(|_| r.range(-2.0, 2.0)),
        s: std::array::from_fn(|_| r.range(-1.2, 1.2)),
        edge: if e.u(8) == 1 { e.n(9) } else { f64::INFINITY },
        bad_at: e.u(3),
        bad: BAD[e.u(4) % 3],
        calls: Cell::new(0),
        fired: Cell::new(false),
        log: RefCell::new(Vec::new()),
    };
    let singular = e.u(8) == 2;
    if singular {
        f.a[N - 1] = [0.0; N];
        f.s[N - 1] = 0.0;
        f.b[N - 1] = 1.0;
    }
    let mut x0: [f64; N] = std::array::from_fn(|_| r.range(-2.0, 2.0));
    if e.u(8) == 3 {
        x0[N - 1] = f.bad;
    }
    let (budget, xtol, ftol) = (e.u(5), e.n(6), e.n(7));
    let solver: NewtonSystem = NewtonSystem::default();
    let got = solver.with_xtol(xtol).with_ftol(ftol).with_max_iterations(budget).with_backtracking(damped).solve(&f, &x0);
    let log = f.log.borrow();
    let told = || format!("{got:?} budget {budget} tol {xtol} {ftol} tried {log:?}");
    if f.fired.get() {
        cx.fault(if f.bad_at > 0 { "function failed" } else { "function has a hole" });
    }
    let norm = |y: &[f64]| y.iter().map(|v| v * v).sum::<f64>().sqrt();
    let broken = f.fired.get() || !x0.iter().all(|v| v.is_finite());
    match &got {
        Ok(rep) => {
            cx.logs(&rep.root);
            cx.reach("system solved");
            let seen = log.iter().rev().find(|(x, y)| all_same(x, &rep.root) && close(norm(y), rep.residual_norm, 1e-12, 1e-300));
            ensure!(seen.is_some(), "newton system: the residual is not the function there | {}", told());
            ensure!(rep.residual_norm.is_finite(), "newton system: an answer that is not finite | {}", told());
            ensure!(rep.iterations <= budget.max(1), "newton system: more iterations than allowed | {}", told());
            ensure!(damped || !broken, "newton system: a broken function value was hidden | {}", told());
            match rep.termination {
                RootTermination::ResidualTolerance => ensure!(rep.residual_norm <= ftol, "newton system: says the residual is small, it is not | {}", told()),
                RootTermination::StepTolerance if !damped && log.len() > 1 => {
                    let (x, before) = (log[log.len() - 1].0, log[log.len() - 2].0);
                    let d: Vec<f64> = (0..N).map(|i| x[i] - before[i]).collect();
                    ensure!(norm(&d) <= xtol * (1.0 + norm(&x)) * (1.0 + 1e-6) + 1e-15, "newton system: says the step is small, it is not | {}", told());
                }
                RootTermination::StepTolerance => {}
                _ => return Err(format!("newton system: speaks of a bracket | {}", told())),
            }
        }
        Err(SolveError::DidNotConverge { iters }) => {
            cx.reach("budget exhausted");
            ensure!(*iters == budget, "newton system: reports another budget than it had | {}", told());
        }
        Err(SolveError::NonFinite) => {
            cx.reach("newton stopped by a broken value");
            ensure!(broken || log.iter().any(|(x, _)| norm(x) > 1e90), "newton system: refused sound values as not finite | {}", told());
        }
        Err(SolveError::Linalg(_)) => {
            cx.reach("singular system refused");
            let flat = log.iter().any(|(x, _)| {
                let j = Mat::from_fn(N, N, |i, k| f.a[i][k] + if i == k { f.s[i] * x[i].cos() } else { 0.0 });
                j.inv().is_none_or(|v| v.max_abs() > 1e9)
            });
            ensure!(singular || flat, "newton system: says singular where it is not | {}", told());
        }
        Err(other) => return Err(format!("newton system: unexpected refusal | {other:?}")),
    }
    if singular && !broken && budget > 0 {
        ensure!(matches!(got, Err(SolveError::Linalg(_)) | Err(SolveError::NonFinite)), "newton system: solved a system that has no solution | {}", told());
    }
    if !damped {
        let mut tried: Vec<([f64; N], f64)> = Vec::new();
        for (x, y) in log.iter() {
            let x: [f64; N] = std::array::from_fn(|i| x[i]);
            if tried.last().is_none_or(|l| l.0 != x) {
                tried.push((x, norm(y)));
            }
        }
        for i in 0..tried.len().saturating_sub(1) {
            let (x, y) = tried[i];
            ensure!(!(y <= ftol * (1.0 - 1e-9)), "newton system: carries on past a point it should have answered | point {i} {}", told());
            let d: Vec<f64> = (0..N).map(|k| if i > 0 { x[k] - tried[i - 1].0[k] } else { f64::NAN }).collect();
            let small = norm(&d) <= xtol * (1.0 + norm(&x)) * (1.0 - 1e-6) - 1e-15;
            ensure!(!small, "newton system: carries on past a step that is small enough | point {i} {}", told());
        }
    }
    // An independent iteration, while it is far from any tie.
    if f.bad_at == 0 && !singular && x0.iter().all(|v| v.is_finite()) {
        let eval = |x: &[f64]| -> Vec<f64> {
            (0..N)
                .map(|i| {
                    let v = f.b[i] + f.s[i] * x[i].sin() + (0..N).map(|j| f.a[i][j] * x[j]).sum::<f64>();
                    if i == 0 && x[0] > f.edge { f64::NAN } else { v }
                })
                .collect()
        };
        let mut x = x0.to_vec();
        let mut y = eval(&x);
        let mut drift = 1e-14 * (1.0 + norm(&x));
        for i in 0..=budget.min(12) {
            let n = norm(&y);
            if !n.is_finite() {
                break;
            }
            if n <= 0.3 * ftol {
                if i < budget && i < 12 {
                    ensure!(got.is_ok(), "newton system: did not find a root it should | root {x:?} after {i} steps {}", told());
                    let rep = got.as_ref().map_err(|_| String::new())?;
                    let off = (0..N).map(|k| (rep.root[k] - x[k]).abs()).fold(0.0, f64::max);
                    ensure!(off <= (xtol * (1.0 + norm(&x)) + ftol) * 1e4 + 1e-8, "newton system: not the root the iteration leads to | want {x:?} {}", told());
                    ensure!(rep.iterations <= i + 2, "newton system: takes more iterations than the method | want about {i} {}", told());
                    cx.reach("system agrees with the model");
                }
                break;
            }
            if n <= 3.0 * ftol {
                break;
            }
            let j = Mat::from_fn(N, N, |i, k| f.a[i][k] + if i == k { f.s[i] * x[i].cos() } else { 0.0 });
            let Some(inv) = j.inv() else { break };
            if inv.max_abs() > 1e3 {
                break;
            }
            let step = inv.mul(&Mat::col(&y));
            if norm(&step.d) <= 10.0 * xtol * (1.0 + norm(&x)) {
                break;
            }
            let mut alpha = 1.0;
            let mut tie = false;
            let (nx, ny) = loop {
                let nx: Vec<f64> = (0..N).map(|k| x[k] - alpha * step.d[k]).collect();
                let ny = eval(&nx);
                if !damped {
                    break (nx, ny);
                }
                let m = norm(&ny);
                tie |= m.is_finite() && (m - n).abs() < 1e-9 * n;
                if m.is_finite() && m < n {
                    break (nx, ny);
                }
                alpha *= 0.5;
                if alpha < 1e-5 {
                    tie = true;
                    break (nx, ny);
                }
            };
            let bend = Mat::from_fn(N, N, |i, k| if i == k { (f.s[i] * step.d[k]).abs() } else { 0.0 });
            drift = drift * (1.0 + N as f64 * inv.mul(&bend).max_abs()) + 1e-14 * (1.0 + norm(&x) + norm(&step.d));
            let short = damped && alpha * norm(&step.d) <= 10.0 * xtol * (1.0 + norm(&nx));
            if tie || short || !(drift < 1e-9) || norm(&nx) > 1e3 || (nx[0] - f.edge).abs() < 1e-9 {
                break;
            }
            x = nx;
            y = ny;
        }
    }
    cx.state(&[10 + N as i64, got.is_ok() as i64, broken as i64, (log.len() as f64).sqrt() as i64]);
    Ok(())
}
