//! Least-squares fits of measurements that are wild, missing, degenerate or broken.

use crate::core::*;
use crate::ensure;
use crate::refs::Mat;
use crate::worlds::roots::plain;
use multicalc::error::{LinalgError, SolveError};
use multicalc::optimization::*;
use multicalc::scalar::{Numeric, VectorFn};
use std::cell::{Cell, RefCell};

const BAD: [f64; 3] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];

/// A decay (0), a circle (1), ranges to beacons (2), or two lines bent by a cube (3).
struct Fit<const N: usize, const M: usize> {
    kind: usize,
    u: [f64; M],
    v: [f64; M],
    d: [f64; M],
    /// Powers of two on each parameter and on every residual.
    px: [f64; N],
    pr: f64,
    edge: f64,
    bad_at: usize,
    bad: f64,
    calls: Cell<usize>,
    fired: Cell<bool>,
    log: RefCell<Vec<([f64; N], [f64; M])>>,
}

impl<const N: usize, const M: usize> Fit<N, M> {
    fn at(&self, x: &[f64]) -> Vec<f64> {
        let p: Vec<f64> = (0..N).map(|i| x[i] * self.px[i]).collect();
        (0..M)
            .map(|i| {
                let y = match self.kind {
                    0 => p[0] * (-p[1] * self.u[i]).exp() + p[2 % N],
                    1 => ((self.u[i] - p[0]).powi(2) + (self.v[i] - p[1]).powi(2)).sqrt() - p[2 % N],
                    2 => ((self.u[i] - p[0]).powi(2) + (self.v[i] - p[1]).powi(2)).sqrt(),
                    _ => self.u[i] * p[0] + self.v[i] * (p[1] + p[1] * p[1] * p[1]),
                };
                (y - self.d[i]) * self.pr + if i == 0 && x[0] > self.edge { f64::NAN } else { 0.0 }
            })
            .collect()
    }

    fn jacobian(&self, x: &[f64]) -> Mat {
        let p: Vec<f64> = (0..N).map(|i| x[i] * self.px[i]).collect();
        Mat::from_fn(M, N, |i, j| {
            let rho = ((self.u[i] - p[0]).powi(2) + (self.v[i] - p[1]).powi(2)).sqrt();
            let g = match (self.kind, j) {
                (0, 0) => (-p[1] * self.u[i]).exp(),
                (0, 1) => -p[0] * self.u[i] * (-p[1] * self.u[i]).exp(),
                (0, _) => 1.0,
                (1 | 2, 0) => -(self.u[i] - p[0]) / rho,
                (1 | 2, 1) => -(self.v[i] - p[1]) / rho,
                (1, _) => -1.0,
                (3, 0) => self.u[i],
                (3, 1) => self.v[i] * (1.0 + 3.0 * p[1] * p[1]),
                _ => 0.0,
            };
            g * self.px[j] * self.pr
        })
    }
}

impl<const N: usize, const M: usize> VectorFn<N, M> for Fit<N, M> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] {
        let f = S::from_f64;
        let n = self.calls.get() + 1;
        self.calls.set(n);
        let p: [S; N] = std::array::from_fn(|i| x[i] * f(self.px[i]));
        let mut y: [S; M] = std::array::from_fn(|i| {
            let (u, v) = (f(self.u[i]), f(self.v[i]));
            let y = match self.kind {
                0 => p[0] * (-p[1] * u).exp() + p[2 % N],
                1 => ((u - p[0]) * (u - p[0]) + (v - p[1]) * (v - p[1])).sqrt() - p[2 % N],
                2 => ((u - p[0]) * (u - p[0]) + (v - p[1]) * (v - p[1])).sqrt(),
                _ => u * p[0] + v * (p[1] + p[1] * p[1] * p[1]),
            };
            (y - f(self.d[i])) * f(self.pr)
        });
        if x[0] > f(self.edge) {
            self.fired.set(true);
            y[0] *= f(f64::NAN);
        }
        if n == self.bad_at {
            self.fired.set(true);
            y[n % M] *= f(self.bad);
        }
        if plain(x[0]).is_some() {
            self.log.borrow_mut().push((
                std::array::from_fn(|i| plain(x[i]).unwrap_or(0.0)),
                std::array::from_fn(|i| plain(y[i]).unwrap_or(0.0)),
            ));
        }
        y
    }
}

pub struct Fits;

impl World for Fits {
    fn name(&self) -> &'static str {
        "fits"
    }

    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        // method, settings
        t.cfg = vec![
            r.below(4) as f64,
            if r.chance(0.3) { r.log_range(1e-12, 1e-3) } else { 30.0 * f64::EPSILON },
            if r.chance(0.3) { r.log_range(1e-12, 1e-3) } else { 30.0 * f64::EPSILON },
            if r.chance(0.3) { r.log_range(1e-12, 1e-3) } else { 30.0 * f64::EPSILON },
            if r.chance(0.3) { r.int(0, 12) as f64 } else { 100.0 },
            if r.chance(0.5) { r.log_range(0.1, 1000.0) } else { 100.0 },
            f64::from(r.chance(0.8)),
        ];
        for _ in 0..r.int(1, 3) {
            t.evs.push(ev(
                "fit",
                &[
                    r.below(5) as f64,
                    r.below(1 << 30) as f64,
                    if r.chance(0.5) { 0.0 } else { r.log_range(1e-4, 3.0) },
                    r.log_range(0.01, 3.0),
                    if r.chance(0.15) { r.int(1, 20) as f64 } else { 0.0 },
                    r.below(3) as f64,
                    if r.chance(0.15) { r.range(-2.0, 4.0) } else { f64::INFINITY },
                    f64::from(r.chance(0.2)),
                    r.int(0, 12) as f64 - 6.0,
                    r.int(0, 12) as f64 - 6.0,
                ],
            ));
            // Faults in the measurements themselves.
            for _ in 0..r.below(3) {
                t.evs.push(ev("datum", &[r.below(8) as f64, r.below(5) as f64, r.log_range(0.1, 1e4) * r.sign()]));
            }
        }
        t
    }

    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        let mut i = 0;
        while i < t.evs.len() {
            if t.evs[i].k != "fit" {
                i += 1;
                continue;
            }
            let mut j = i + 1;
            while j < t.evs.len() && t.evs[j].k == "datum" {
                j += 1;
            }
            cx.step("fit");
            let (e, data) = (&t.evs[i], &t.evs[i + 1..j]);
            match e.u(0) {
                0 | 1 => fit::<3, 8>(t, e, data, cx)?,
                2 => fit::<2, 4>(t, e, data, cx)?,
                3 => fit::<2, 3>(t, e, data, cx)?,
                _ => fit::<3, 2>(t, e, data, cx)?,
            }
            i = j;
        }
        Ok(())
    }
}

struct Settings {
    damped: bool,
    backtracking: bool,
    ftol: f64,
    xtol: f64,
    gtol: f64,
    patience: usize,
    stepbound: f64,
    scale: bool,
}

fn solve<const N: usize, const M: usize>(s: &Settings, f: &Fit<N, M>, x0: &[f64; N]) -> Result<MinimizationReport<N, f64>, SolveError> {
    if s.damped {
        let lm: LevenbergMarquardt = LevenbergMarquardt::default();
        lm.with_ftol(s.ftol)
            .with_xtol(s.xtol)
            .with_gtol(s.gtol)
            .with_patience(s.patience)
            .with_stepbound(s.stepbound)
            .with_scale_diag(s.scale)
            .minimize(f, x0)
    } else {
        let gn: GaussNewton = GaussNewton::default();
        gn.with_ftol(s.ftol)
            .with_xtol(s.xtol)
            .with_gtol(s.gtol)
            .with_patience(s.patience)
            .with_backtracking(s.backtracking)
            .minimize(f, x0)
    }
}

fn norm(y: &[f64]) -> f64 {
    y.iter().map(|v| v * v).sum::<f64>().sqrt()
}

fn fit<const N: usize, const M: usize>(t: &Trace, e: &Ev, data: &[Ev], cx: &mut Cx) -> R {
    let s = Settings {
        damped: t.cu(0) < 2,
        backtracking: t.cu(0) == 3,
        ftol: t.c(1),
        xtol: t.c(2),
        gtol: t.c(3),
        patience: t.cu(4),
        stepbound: t.c(5),
        scale: t.cu(6) == 1,
    };
    let name = ["levenberg-marquardt", "levenberg-marquardt", "gauss-newton", "gauss-newton with backtracking"][t.cu(0).min(3)];
    let mut r = Rng::new(e.u(1) as u64);
    let kind = match e.u(0) {
        4 => r.below(2),
        k => k,
    };
    let truth: [f64; N] = match kind {
        0 => std::array::from_fn(|i| [r.range(0.5, 4.0), r.range(0.2, 1.5), r.range(-1.0, 1.0)][i]),
        _ => std::array::from_fn(|i| if i == 2 { r.range(0.5, 3.0) } else { r.range(-2.0, 2.0) }),
    };
    let mut f = Fit::<N, M> {
        kind,
        u: std::array::from_fn(|i| match kind {
            0 => 0.4 * i as f64 + r.range(0.0, 0.3),
            1 => truth[0] + truth[2 % N] * (i as f64 * 0.785).cos(),
            2 => [-5.0, 5.0, 5.0, -4.0][i % 4] + r.range(-1.0, 1.0),
            _ => r.range(-2.0, 2.0),
        }),
        v: std::array::from_fn(|i| match kind {
            1 => truth[1] + truth[2 % N] * (i as f64 * 0.785).sin(),
            2 => [-5.0, -4.0, 5.0, 5.0][i % 4] + r.range(-1.0, 1.0),
            _ => r.range(-2.0, 2.0),
        }),
        d: [0.0; M],
        px: [1.0; N],
        pr: 1.0,
        edge: f64::INFINITY,
        bad_at: 0,
        bad: BAD[e.u(5) % 3],
        calls: Cell::new(0),
        fired: Cell::new(false),
        log: RefCell::new(Vec::new()),
    };
    f.d = f.at(&truth).try_into().map_err(|_| String::new())?;
    for d in &mut f.d {
        *d += e.n(2) * r.normal();
    }
    let mut x0: [f64; N] = std::array::from_fn(|i| truth[i] + e.n(3) * r.normal());
    let mut broken = false;
    for d in data {
        let i = d.u(0) % M;
        match d.u(1) {
            0 => {
                cx.fault("wild measurement");
                f.d[i] += d.n(2);
            }
            1 => {
                cx.fault("broken measurement");
                f.d[i] = if d.n(2) > 0.0 { f64::NAN } else { f64::INFINITY };
                broken = true;
            }
            2 => {
                cx.fault("repeated measurement");
                let k = (i + 1) % M;
                (f.u[i], f.v[i], f.d[i]) = (f.u[k], f.v[k], f.d[k]);
            }
            3 => {
                cx.fault("every sensor at one place");
                (f.u, f.v) = ([f.u[i]; M], [f.v[i]; M]);
            }
            _ => {
                cx.fault("guess on a sensor");
                x0[0] = f.u[i];
                x0[1] = f.v[i];
            }
        }
    }
    f.edge = e.n(6);
    f.bad_at = e.u(4);
    let got = solve(&s, &f, &x0);
    if f.fired.get() {
        cx.fault(if f.bad_at > 0 { "residual failed" } else { "residual has a hole" });
    }
    let log = f.log.borrow().clone();
    let told = || format!("{name}: {got:?} from {x0:?} patience {} tol {} {} {} tried {log:?}", s.patience, s.ftol, s.xtol, s.gtol);
    let sick = log.iter().any(|(_, y)| y.iter().any(|v| !v.is_finite()));
    ensure!(!log.is_empty() && all_same(&log[0].0, &x0), "the guess itself was not looked at | {}", told());
    let start = norm(&log[0].1);
    match &got {
        Ok(rep) => {
            cx.reach("fitted");
            cx.logs(&rep.solution);
            cx.logu(rep.evaluations as u64);
            ensure!(rep.solution.iter().all(|v| v.is_finite()) && rep.objective_function.is_finite(), "an answer that is not finite | {}", told());
            let seen = log.iter().any(|(x, y)| all_same(x, &rep.solution) && close(0.5 * norm(y) * norm(y), rep.objective_function, 1e-12, 1e-290));
            ensure!(seen, "the objective is not the function at the answer | {}", told());
            ensure!(rep.evaluations <= log.len() && rep.evaluations > 0, "evaluations miscounted | {}", told());
            if !s.backtracking {
                ensure!(!sick && !f.fired.get(), "a broken residual was hidden | {}", told());
            }
            if s.damped {
                let best = log.iter().map(|(_, y)| norm(y)).fold(f64::INFINITY, f64::min);
                let at = (2.0 * rep.objective_function).sqrt();
                ensure!(at <= start * (1.0 + 1e-12), "{name} ends worse than it began | {}", told());
                ensure!(at <= best * (1.0 + 1e-3) + 1e-12 * start, "{name} ends worse than a point it tried | best {best} {}", told());
            }
            let j = f.jacobian(&rep.solution);
            let y = f.at(&rep.solution);
            if j.finite() && y.iter().all(|v| v.is_finite()) {
                let n = norm(&y);
                let g = scaled_gradient(&j, &y);
                match rep.termination {
                    TerminationReason::Gtol => {
                        ensure!(g <= s.gtol * (1.0 + 1e-6) + 1e-12 || n <= 1e-13 * (1.0 + norm(&f.d)), "says the gradient is small, it is not | {g:e} {}", told());
                        cx.reach("stopped on the gradient");
                    }
                    TerminationReason::Ftol => cx.reach("stopped on the cost"),
                    _ => cx.reach("stopped on the step"),
                }
            }
        }
        Err(SolveError::NonFinite) => {
            cx.reach("fit stopped by a broken residual");
            let cusp = log.iter().any(|(x, _)| !f.jacobian(x).finite());
            let far = log.iter().any(|(x, _)| norm(x) > 1e50) || log.iter().any(|(_, y)| norm(y) > 1e100);
            ensure!(sick || f.fired.get() || broken || cusp || far, "refused sound residuals as not finite | {}", told());
        }
        Err(SolveError::DidNotConverge { iters }) => {
            cx.reach("patience exhausted");
            ensure!(!sick || s.backtracking, "a broken residual was hidden | {}", told());
            ensure!(*iters <= log.len() && *iters > 0, "evaluations miscounted | {}", told());
        }
        Err(SolveError::Linalg(LinalgError::Underdetermined)) => {
            cx.reach("too few residuals refused");
            ensure!(M < N, "says there are too few residuals, there are enough | {}", told());
        }
        Err(SolveError::Linalg(LinalgError::Singular)) => {
            cx.reach("singular fit refused");
            ensure!(!s.damped, "{name}: gave up on a singular fit it should damp | {}", told());
            let flat = log.iter().any(|(x, _)| condition(&f.jacobian(x)) > 1e6 || spread(&f.jacobian(x)) > 1e6);
            ensure!(flat, "says singular where it is not | {}", told());
        }
        Err(other) => return Err(format!("unexpected refusal | {other:?}")),
    }
    if M < N && s.patience > 0 && !sick && !f.fired.get() && f.jacobian(&x0).finite() {
        ensure!(matches!(got, Err(SolveError::Linalg(LinalgError::Underdetermined))), "fitted more parameters than residuals | {}", told());
    }
    if M >= N && !broken {
        if s.damped {
            follow_damped(&f, &s, &log, &got, name, cx)?;
        } else {
            follow_plain(&f, &s, &log, &got, name, cx)?;
        }
    }
    // The same problem in other units has the same answer.
    if e.u(7) == 1 && f.bad_at == 0 && f.edge == f64::INFINITY && M >= N && log.iter().all(|(x, y)| condition(&f.jacobian(x)) < 1e3 && norm(y) < 1e5) {
        let uniform = !s.damped || !s.scale;
        let k: [f64; N] = std::array::from_fn(|i| (2.0_f64).powf(e.n(if uniform { 8 } else { 8 + i % 2 })));
        let pr = 2.0_f64.powf(e.n(9));
        let other = Fit { px: k, pr, u: f.u, v: f.v, d: f.d, kind, edge: f.edge, bad_at: 0, bad: f.bad, calls: Cell::new(0), fired: Cell::new(false), log: RefCell::new(Vec::new()) };
        let again = solve(&s, &other, &std::array::from_fn(|i| x0[i] / k[i]));
        // Unscaled damping sees the units of the whole, and only those.
        if s.scale || !s.damped {
            match (&got, &again) {
                (Ok(a), Ok(b)) => {
                    let same_place = (0..N).all(|i| close(a.solution[i], b.solution[i] * k[i], 1e-5, 1e-5));
                    ensure!(same_place, "another answer in other units | {:?} against {:?} units {k:?} {pr} {}", a, b, told());
                    ensure!(close(a.objective_function * pr * pr, b.objective_function, 1e-3, 1e-9 * pr * pr * (1.0 + start * start)), "another cost in other units | {:?} against {:?} {}", a, b, told());
                    cx.reach("same in other units");
                }
                (Err(SolveError::DidNotConverge { .. }), _) | (_, Err(SolveError::DidNotConverge { .. })) => {}
                (a, b) => ensure!(a.is_ok() == b.is_ok(), "another outcome in other units | {b:?} units {k:?} {pr} {}", told()),
            }
        }
    }
    cx.state(&[t.cu(0) as i64, e.u(0) as i64, got.is_ok() as i64, sick as i64, (log.len() as f64).sqrt() as i64]);
    Ok(())
}

fn scaled_gradient(j: &Mat, y: &[f64]) -> f64 {
    let n = norm(y);
    if n == 0.0 {
        return 0.0;
    }
    let g = j.t().mul(&Mat::col(y));
    (0..j.c)
        .map(|c| {
            let cn = (0..j.r).map(|i| j.at(i, c).powi(2)).sum::<f64>().sqrt();
            if cn == 0.0 { 0.0 } else { (g.d[c] / n / cn).abs() }
        })
        .fold(0.0, f64::max)
}

/// The condition of the columns once each has unit length.
fn condition(j: &Mat) -> f64 {
    let cn: Vec<f64> = (0..j.c).map(|c| (0..j.r).map(|i| j.at(i, c).powi(2)).sum::<f64>().sqrt()).collect();
    let mut m = j.clone();
    for i in 0..m.r {
        for c in 0..m.c {
            m.set(i, c, j.at(i, c) / cn[c]);
        }
    }
    if !m.finite() {
        return f64::INFINITY;
    }
    m.t().mul(&m).inv().map_or(f64::INFINITY, |v| v.max_abs().sqrt() * 3.0)
}

/// How much longer the longest column is than the shortest.
fn spread(j: &Mat) -> f64 {
    let cn: Vec<f64> = (0..j.c).map(|c| (0..j.r).map(|i| j.at(i, c).powi(2)).sum::<f64>().sqrt()).collect();
    cn.iter().copied().fold(0.0, f64::max) / cn.iter().copied().fold(f64::INFINITY, f64::min)
}

fn normal_step(j: &Mat, y: &[f64], lambda: f64, d: &[f64]) -> Option<Vec<f64>> {
    let a = j.t().mul(j);
    let m = Mat::from_fn(j.c, j.c, |i, k| (a.at(i, k) + if i == k { lambda * d[i] * d[i] } else { 0.0 }) / d[i] / d[k]);
    let g = j.t().mul(&Mat::col(y));
    let p = m.inv()?.mul(&Mat::from_fn(j.c, 1, |i, _| g.d[i] / d[i]));
    Some((0..j.c).map(|i| p.d[i] / d[i]).collect())
}

/// Every damped step is the one the trust region allows, and is taken only if it pays.
fn follow_damped<const N: usize, const M: usize>(
    f: &Fit<N, M>,
    s: &Settings,
    log: &[([f64; N], [f64; M])],
    got: &Result<MinimizationReport<N, f64>, SolveError>,
    name: &str,
    cx: &mut Cx,
) -> R {
    let told = || format!("{name}: {got:?} tol {} {} {} bound {} scale {} tried {log:?}", s.ftol, s.xtol, s.gtol, s.stepbound, s.scale);
    let (mut x, mut y) = log[0];
    if y.iter().any(|v| !v.is_finite()) {
        return Ok(());
    }
    let mut n = norm(&y);
    let mut d = [0.0; N];
    let mut delta = 0.0;
    let mut xn = 0.0;
    let mut at = 1;
    let mut refused_in_row = 0;
    let mut outer = 0;
    'outer: while at < log.len() {
        let j = f.jacobian(&x);
        if condition(&j) > 3e3 || spread(&j) > 1e5 || n > 1e5 * f.pr || n < 1e-9 * (1.0 + norm(&f.d)) * f.pr {
            return Ok(());
        }
        outer += 1;
        for c in 0..N {
            let cn = (0..M).map(|i| j.at(i, c).powi(2)).sum::<f64>().sqrt();
            if outer == 1 || (s.scale && cn > d[c]) {
                d[c] = cn;
            }
        }
        if outer == 1 {
            xn = norm(&(0..N).map(|i| d[i] * x[i]).collect::<Vec<_>>());
            delta = s.stepbound * xn;
            if delta == 0.0 {
                delta = s.stepbound;
            }
        }
        loop {
            if at >= log.len() {
                break 'outer;
            }
            let (nx, ny) = log[at];
            at += 1;
            let p: Vec<f64> = (0..N).map(|i| x[i] - nx[i]).collect();
            let dp: Vec<f64> = (0..N).map(|i| d[i] * p[i]).collect();
            let pn = norm(&dp);
            if pn < 1e-5 * norm(&(0..N).map(|i| d[i] * x[i]).collect::<Vec<_>>()) || pn == 0.0 {
                // Too short to be told from rounding.
                return Ok(());
            }
            let jp = j.mul(&Mat::col(&p));
            let length = |lambda: f64| normal_step(&j, &y, lambda, &d).map(|p| norm(&(0..N).map(|i| d[i] * p[i]).collect::<Vec<_>>()));
            // The one damping that gives a step this long.
            let Some(undamped) = length(0.0) else { return Ok(()) };
            ensure!(pn <= undamped * (1.0 + 1e-5), "a step the damping cannot give | trial {at} length {pn:e} undamped {undamped:e} {}", told());
            let near = 1.1 * delta;
            if (undamped - near).abs() < 1e-3 * near || (undamped > near && pn > undamped * (1.0 - 1e-3)) {
                // Whether this one was damped cannot be told.
                return Ok(());
            }
            let mut lambda = 0.0;
            if pn < undamped * (1.0 - 1e-7) {
                let (mut lo, mut hi) = (0.0, 1e-12);
                while length(hi).is_some_and(|l| l > pn) && hi < 1e30 {
                    lo = hi;
                    hi *= 10.0;
                }
                for _ in 0..60 {
                    let mid = 0.5 * (lo + hi);
                    if length(mid).is_some_and(|l| l > pn) {
                        lo = mid;
                    } else {
                        hi = mid;
                    }
                }
                lambda = 0.5 * (lo + hi);
            }
            let Some(want) = normal_step(&j, &y, lambda, &d) else { return Ok(()) };
            let off = norm(&(0..N).map(|i| d[i] * (want[i] - p[i])).collect::<Vec<_>>());
            ensure!(off <= 1e-3 * pn, "not a damped least-squares step | trial {at} off {off:e} of {pn:e} lambda {lambda:e} {}", told());
            ensure!(pn <= 1.1 * delta * (1.0 + 1e-6), "a step beyond the trust region | trial {at} {pn} region {delta} {}", told());
            // As long as the region allows, when the undamped step is longer than that.
            let least = if undamped <= 1.1 * delta * (1.0 - 1e-4) { undamped * 0.99 } else { 0.9 * delta * 0.99 };
            ensure!(pn >= least, "a step shorter than the trust region allows | trial {at} {pn} region {delta} undamped {undamped} {}", told());
            if at == 2 {
                delta = delta.min(pn);
            }
            if ny.iter().any(|v| !v.is_finite()) {
                return Ok(());
            }
            let nn = norm(&ny);
            let actred = if 0.1 * nn < n { 1.0 - (nn / n).powi(2) } else { -1.0 };
            let (t1, t2) = (norm(&jp.d) / n, lambda.sqrt() * pn / n);
            let prered = t1 * t1 + 2.0 * t2 * t2;
            if prered < 1e-9 {
                return Ok(());
            }
            let ratio = actred / prered;
            for edge in [1e-4, 0.25, 0.75] {
                if (ratio - edge).abs() < 1e-6 {
                    return Ok(());
                }
            }
            if ratio <= 0.25 {
                let dirder = -(t1 * t1 + t2 * t2);
                let mut cut = if actred >= 0.0 { 0.5 } else { 0.5 * dirder / (dirder + 0.5 * actred) };
                if 0.1 * nn >= n || cut < 0.1 {
                    cut = 0.1;
                }
                delta = cut * delta.min(10.0 * pn);
                cx.reach("trust region shrunk");
            } else if pn >= undamped * (1.0 - 1e-7) || ratio >= 0.75 {
                delta = 2.0 * pn;
                cx.reach("trust region grown");
            }
            let pays = ratio >= 1e-4;
            if pays {
                xn = norm(&(0..N).map(|i| d[i] * nx[i]).collect::<Vec<_>>());
            }
            let slack = 1.0 + 1e-5;
            // What it says it stopped on, and what it should have stopped on.
            let flat = |k: f64| actred.abs() <= s.ftol * k && prered <= s.ftol * k && ratio <= 2.0 * k;
            if at == log.len() {
                if let Ok(rep) = got {
                    let ok = match rep.termination {
                        TerminationReason::Ftol => flat(slack),
                        TerminationReason::Xtol => delta <= s.xtol * xn * slack,
                        _ => true,
                    };
                    ensure!(ok, "stopped for a reason that does not hold | actual {actred:e} predicted {prered:e} region {delta:e} of {xn} {}", told());
                    cx.reach("stopping reason confirmed");
                }
            } else {
                ensure!(!flat(1.0 / slack) && delta > s.xtol * xn / slack, "carries on past convergence | trial {at} actual {actred:e} predicted {prered:e} region {delta:e} of {xn} {}", told());
            }
            if pays {
                x = nx;
                y = ny;
                n = nn;
                refused_in_row = 0;
                cx.reach("damped step followed");
                break;
            }
            refused_in_row += 1;
            cx.reach("damped step refused");
            if refused_in_row > 90 {
                return Ok(());
            }
        }
    }
    // What it stopped for, at the point the model stands at.
    if let Ok(rep) = got {
        ensure!(all_same(&rep.solution, &x), "the answer is not the last step that paid | stands at {x:?} {}", told());
    }
    Ok(())
}

/// Every plain step is the least-squares one, shortened only when it does not pay.
fn follow_plain<const N: usize, const M: usize>(
    f: &Fit<N, M>,
    s: &Settings,
    log: &[([f64; N], [f64; M])],
    got: &Result<MinimizationReport<N, f64>, SolveError>,
    name: &str,
    cx: &mut Cx,
) -> R {
    let told = || format!("{name}: {got:?} tol {} {} {} tried {log:?}", s.ftol, s.xtol, s.gtol);
    let (mut x, mut y) = log[0];
    let mut at = 1;
    while at < log.len() {
        if y.iter().any(|v| !v.is_finite()) {
            return Ok(());
        }
        let n = norm(&y);
        let j = f.jacobian(&x);
        if condition(&j) > 3e3 || spread(&j) > 1e5 || n > 1e5 * f.pr || n < 1e-9 * (1.0 + norm(&f.d)) * f.pr {
            return Ok(());
        }
        let Some(p) = normal_step(&j, &y, 0.0, &[1.0; N]) else { return Ok(()) };
        if norm(&p) < 1e-5 * norm(&x) {
            return Ok(());
        }
        let mut alpha = 1.0;
        let mut tries = 0;
        loop {
            if at >= log.len() {
                ensure!(false, "gave up on a step that did not pay | {}", told());
            }
            let (nx, ny) = log[at];
            at += 1;
            let off = norm(&(0..N).map(|i| x[i] - alpha * p[i] - nx[i]).collect::<Vec<_>>());
            ensure!(off <= 1e-3 * alpha * norm(&p) + 1e-12 * norm(&x), "not a least-squares step | trial {at} off {off:e} of {p:?} share {alpha} {}", told());
            let fine = ny.iter().all(|v| v.is_finite());
            if !s.backtracking || (fine && norm(&ny) < n) {
                let (step, gain) = (alpha * norm(&p), (n - norm(&ny)).abs());
                let (xn, slack) = (norm(&nx), 1.0 + 1e-5);
                if at == log.len() {
                    if let Ok(rep) = got {
                        let ok = match rep.termination {
                            TerminationReason::Ftol => gain <= s.ftol * n * slack,
                            TerminationReason::Xtol => step <= s.xtol * xn * slack,
                            _ => true,
                        };
                        ensure!(ok, "stopped for a reason that does not hold | step {step:e} of {xn} gain {gain:e} of {n} {}", told());
                        cx.reach("stopping reason confirmed");
                    }
                } else if fine {
                    ensure!(step > s.xtol * xn / slack && gain > s.ftol * n / slack, "carries on past convergence | trial {at} step {step:e} of {xn} gain {gain:e} of {n} {}", told());
                }
                x = nx;
                y = ny;
                cx.reach("plain step followed");
                break;
            }
            alpha *= 0.5;
            tries += 1;
            cx.reach("plain step shortened");
            if tries > 8 {
                return Ok(());
            }
        }
    }
    if let Ok(rep) = got {
        ensure!(all_same(&rep.solution, &x), "the answer is not the last step taken | stands at {x:?} {}", told());
    }
    Ok(())
}
