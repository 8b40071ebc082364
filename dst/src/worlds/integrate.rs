//! A plant carried through time in legs by the integrators, while the caller's rate function fails,
//! the clock jumps and a leg is resumed from the last step that was accepted.

use crate::core::*;
use crate::ensure;
use crate::refs::*;
use multicalc::error::IntegrateError;
use multicalc::linear_algebra::Vector;
use multicalc::ode::{ExponentialMap, Rk4, Rk45, Step};
use multicalc::spatial::SO3;
use std::cell::{Cell, RefCell};

/// `y_i' = Σ a_ij y_j + b_i sin(w t + i) + c_i sin(y_{i+1})`.
struct Plant<const N: usize> {
    a: [[f64; N]; N],
    b: [f64; N],
    c: [f64; N],
    w: f64,
    calls: Cell<usize>,
    bad_at: usize,
    bad: f64,
    fired: Cell<bool>,
    log: RefCell<Vec<f64>>,
}

impl<const N: usize> Plant<N> {
    fn new(r: &mut Rng) -> Self {
        let s = r.log_range(0.1, 1.5) / N as f64;
        Plant {
            a: std::array::from_fn(|_| std::array::from_fn(|_| r.range(-s, s))),
            b: std::array::from_fn(|_| r.range(-1.0, 1.0)),
            c: std::array::from_fn(|_| r.range(-0.7, 0.7)),
            w: r.range(0.0, 4.0),
            calls: Cell::new(0),
            bad_at: 0,
            bad: 0.0,
            fired: Cell::new(false),
            log: RefCell::new(Vec::new()),
        }
    }
    fn rate(&self, t: f64, y: &[f64]) -> [f64; N] {
        std::array::from_fn(|i| {
            let mut v = self.b[i] * (self.w * t + i as f64).sin() + self.c[i] * y[(i + 1) % N].sin();
            for j in 0..N {
                v += self.a[i][j] * y[j];
            }
            v
        })
    }
    /// What the integrator calls: the same, except at the evaluation that fails.
    fn call(&self, t: f64, y: &Vector<N>) -> Vector<N> {
        self.calls.set(self.calls.get() + 1);
        let mut v = self.rate(t, y.as_slice());
        if self.calls.get() == self.bad_at {
            self.fired.set(true);
            v[self.bad_at % N] = self.bad;
        }
        self.log.borrow_mut().push(t);
        Vector::new(v)
    }
    fn arm(&mut self, at: usize, bad: f64) {
        self.calls.set(0);
        self.bad_at = at;
        self.bad = bad;
        self.fired.set(false);
        self.log.borrow_mut().clear();
    }
    fn rk4(&self, t: f64, y: &[f64], h: f64) -> Vec<f64> {
        let ax = |y: &[f64], k: &[f64], s: f64| -> Vec<f64> { (0..N).map(|i| y[i] + s * k[i]).collect() };
        let k1 = self.rate(t, y);
        let k2 = self.rate(t + 0.5 * h, &ax(y, &k1, 0.5 * h));
        let k3 = self.rate(t + 0.5 * h, &ax(y, &k2, 0.5 * h));
        let k4 = self.rate(t + h, &ax(y, &k3, h));
        (0..N).map(|i| y[i] + h / 6.0 * (k1[i] + 2.0 * k2[i] + 2.0 * k3[i] + k4[i])).collect()
    }
    /// The true flow, by many small steps.
    fn flow(&self, t: f64, y: &[f64], to: f64) -> Vec<f64> {
        let n = ((to - t).abs() * 150.0).ceil().clamp(1.0, 1e5);
        let h = (to - t) / n;
        let mut y = y.to_vec();
        for i in 0..n as usize {
            y = self.rk4(t + h * i as f64, &y, h);
        }
        y
    }
    /// One Dormand-Prince step from the published table: the fifth-order state and the error estimate.
    fn dopri(&self, t: f64, y: &[f64], h: f64) -> (Vec<f64>, Vec<f64>) {
        const C: [f64; 7] = [0.0, 0.2, 0.3, 0.8, 8.0 / 9.0, 1.0, 1.0];
        const A: [[f64; 6]; 7] = [
            [0.0; 6],
            [1.0 / 5.0, 0.0, 0.0, 0.0, 0.0, 0.0],
            [3.0 / 40.0, 9.0 / 40.0, 0.0, 0.0, 0.0, 0.0],
            [44.0 / 45.0, -56.0 / 15.0, 32.0 / 9.0, 0.0, 0.0, 0.0],
            [19372.0 / 6561.0, -25360.0 / 2187.0, 64448.0 / 6561.0, -212.0 / 729.0, 0.0, 0.0],
            [9017.0 / 3168.0, -355.0 / 33.0, 46732.0 / 5247.0, 49.0 / 176.0, -5103.0 / 18656.0, 0.0],
            [35.0 / 384.0, 0.0, 500.0 / 1113.0, 125.0 / 192.0, -2187.0 / 6784.0, 11.0 / 84.0],
        ];
        const B4: [f64; 7] = [
            5179.0 / 57600.0,
            0.0,
            7571.0 / 16695.0,
            393.0 / 640.0,
            -92097.0 / 339200.0,
            187.0 / 2100.0,
            1.0 / 40.0,
        ];
        let mut k: Vec<[f64; N]> = Vec::new();
        let mut y5 = y.to_vec();
        for s in 0..7 {
            let arg: Vec<f64> = (0..N).map(|i| y[i] + h * (0..s).map(|j| A[s][j] * k[j][i]).sum::<f64>()).collect();
            k.push(self.rate(t + C[s] * h, &arg));
            if s == 6 {
                y5 = arg;
            }
        }
        let e = (0..N).map(|i| y5[i] - y[i] - h * (0..7).map(|j| B4[j] * k[j][i]).sum::<f64>()).collect();
        (y5, e)
    }
    fn lipschitz(&self) -> f64 {
        (0..N).map(|i| self.a[i].iter().map(|v| v.abs()).sum::<f64>() + self.c[i].abs()).fold(0.0, f64::max)
    }
}


fn norm_of(e: &[f64], a: &[f64], b: &[f64], atol: f64, rtol: f64) -> f64 {
    let s: f64 = (0..e.len()).map(|i| (e[i] / (atol + rtol * a[i].abs().max(b[i].abs()))).powi(2)).sum();
    (s / e.len() as f64).sqrt()
}

struct Settings {
    rtol: f64,
    atol: f64,
    first: f64,
    min: f64,
    max: f64,
    attempts: usize,
}

/// Checks every accepted step against the published method; says how many there were.
fn check_steps<const N: usize>(
    p: &Plant<N>,
    steps: &[Step<N>],
    t0: f64,
    y0: &[f64],
    tf: f64,
    s: &Settings,
    cx: &mut Cx,
) -> R {
    let (mut t, mut y) = (t0, y0.to_vec());
    let dir = (tf - t0).signum();
    for (i, k) in steps.iter().enumerate() {
        let h = k.time_end - k.time_start;
        ensure!(same(k.time_start, t) && all_same(k.state_start.as_slice(), &y), "rk45: a step does not start where the last one ended | step {i} {k:?}");
        ensure!(h * dir > 0.0, "rk45: a step does not advance | step {i} {k:?}");
        ensure!((tf - k.time_end) * dir >= -1e-12 * (1.0 + tf.abs()), "rk45: a step overshoots the end | step {i} {k:?} end {tf}");
        ensure!(h.abs() <= s.max * (1.0 + 1e-9) + 1e-12, "rk45: a step exceeds the largest allowed | step {i} h {h} max {}", s.max);
        let last = (tf - k.time_end).abs() <= 1e-12 * (1.0 + tf.abs());
        // The first step is the caller's or the starting guess.
        ensure!(last || i == 0 || h.abs() >= s.min * (1.0 - 1e-9) - 1e-12, "rk45: a step below the smallest allowed | step {i} h {h} min {}", s.min);
        let (y5, e) = p.dopri(t, &y, h);
        let scale = y5.iter().chain(&y).fold(1.0f64, |m, v| m.max(v.abs()));
        ensure!(all_close(k.state_end.as_slice(), &y5, 0.0, 1e-11 * scale), "rk45: a step is not the published one | step {i} {k:?} want {y5:?}");
        for (d, at, s) in [(&k.derivative_start, k.time_start, &k.state_start), (&k.derivative_end, k.time_end, &k.state_end)] {
            ensure!(all_close(d.as_slice(), &p.rate(at, s.as_slice()), 1e-10, 1e-10), "rk45: a step's derivative is not the rate there | step {i} {k:?}");
        }
        // The tolerance, less what rounding does to the estimate.
        let slack = 1e-13 * scale / (s.atol + s.rtol * y.iter().fold(0.0f64, |m, v| m.max(v.abs())).min(scale));
        let n = norm_of(&e, &y, &y5, s.atol, s.rtol);
        ensure!(n <= 1.0 + 1e-6 + 10.0 * slack, "rk45: a step beyond the tolerance was accepted | step {i} error {n} {k:?}");
        // Inside the step, the cubic through both ends.
        let ts = k.time_start + 0.37 * h;
        let want = cubic(k, ts);
        ensure!(all_close(k.interpolate(ts).as_slice(), &want, 1e-11, 1e-12), "rk45: interpolation is not the cubic through both ends | {k:?}");
        for (end, at) in [(&k.state_start, k.time_start), (&k.state_end, k.time_end)] {
            ensure!(all_close(k.interpolate(at).as_slice(), end.as_slice(), 1e-13, 0.0), "rk45: interpolation misses an end of the step | {k:?}");
        }
        t = k.time_end;
        y = k.state_end.as_slice().to_vec();
        cx.logs(&y);
    }
    ensure!(steps.len() <= s.attempts, "rk45: more steps than allowed | {} of {}", steps.len(), s.attempts);
    Ok(())
}

fn cubic<const N: usize>(k: &Step<N>, t: f64) -> Vec<f64> {
    let h = k.time_end - k.time_start;
    let u = (t - k.time_start) / h;
    (0..N)
        .map(|i| {
            let (a, b) = (k.state_start[i], k.state_end[i]);
            let (p, q) = (h * k.derivative_start[i], h * k.derivative_end[i]);
            (1.0 - u) * a + u * b + u * (u - 1.0) * ((1.0 - 2.0 * u) * (b - a) + (u - 1.0) * p + u * q)
        })
        .collect()
}

pub struct Integrators;

impl World for Integrators {
    fn name(&self) -> &'static str {
        "integrators"
    }

    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace { cfg: vec![r.int(1, 3) as f64, r.below(1 << 30) as f64], evs: vec![] };
        let legs = r.int(1, 6);
        for _ in 0..legs {
            let span = r.sign() * r.log_range(1e-3, 2.5);
            let fault = if r.chance(0.3) { r.int(1, 60) as f64 } else { 0.0 };
            let kind = r.below(3) as f64;
            match r.below(10) {
                0..=3 => {
                    let rtol = r.log_range(1e-10, 1e-3);
                    t.evs.push(ev(
                        "solve",
                        &[
                            span,
                            fault,
                            kind,
                            rtol,
                            rtol * r.log_range(1e-3, 1.0),
                            if r.chance(0.3) { r.log_range(1e-4, 1.0) } else { 0.0 },
                            if r.chance(0.2) { r.log_range(1e-5, 1e-2) } else { 0.0 },
                            if r.chance(0.3) { r.log_range(0.01, 1.0) } else { f64::INFINITY },
                            if r.chance(0.2) { r.int(1, 40) as f64 } else { 20000.0 },
                        ],
                    ));
                }
                4..=5 => t.evs.push(ev(
                    "grid",
                    &[span, fault, kind, r.log_range(1e-9, 1e-4), r.int(0, 12) as f64, r.below(8) as f64, r.below(1 << 20) as f64],
                )),
                6..=7 => t.evs.push(ev("rk4", &[span, fault, kind, r.int(0, 20) as f64])),
                8 => {
                    let mut a = vec![r.log_range(1e-3, 0.2), fault, kind, r.int(0, 15) as f64, r.below(10) as f64];
                    a.extend((0..9).map(|_| r.range(-2.0, 2.0)));
                    t.evs.push(ev("turn", &a));
                }
                _ => t.evs.push(ev("clock", &[r.below(6) as f64, r.range(-5.0, 5.0)])),
            }
        }
        t
    }

    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        match t.cu(0) {
            2 => run::<2>(t, cx),
            3 => run::<3>(t, cx),
            _ => run::<1>(t, cx),
        }
    }
}

const BAD: [f64; 3] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];

fn run<const N: usize>(tr: &Trace, cx: &mut Cx) -> R {
    let mut r = Rng::new(tr.cu(1) as u64);
    let mut p = Plant::<N>::new(&mut r);
    let mut y: Vec<f64> = (0..N).map(|_| r.range(-2.0, 2.0)).collect();
    let mut t = 0.0;
    let l = p.lipschitz();
    // The true state at this time, and how far the plant may be from it.
    let mut truth = y.clone();
    let mut budget = 0.0f64;
    // A first step longer than the motion it has to see can fool any error estimate.
    let mut blind = false;
    for e in &tr.evs {
        cx.step(e.k);
        let bad = BAD[e.u(2) % 3];
        match e.k {
            "solve" => {
                let s = Settings {
                    rtol: e.n(3),
                    atol: e.n(4),
                    first: e.n(5),
                    min: e.n(6),
                    max: e.n(7),
                    attempts: e.u(8),
                };
                let solver = Rk45::default()
                    .with_rtol(s.rtol)
                    .with_atol(s.atol)
                    .with_first_step(s.first)
                    .with_min_step(s.min)
                    .with_max_step(s.max)
                    .with_max_steps(s.attempts);
                let tf = t + e.n(0);
                if tf == t {
                    continue;
                }
                let (t0, y0) = (t, y.clone());
                blind |= s.first.min(s.max).min((tf - t).abs()) * (p.w + l) > 0.3;
                p.arm(e.u(1), bad);
                let mut steps = Vec::new();
                let got = solver.for_each_step(&|t, y: &Vector<N>| p.call(t, y), t, &Vector::from_slice_or(&y), tf, |k| steps.push(*k));
                if p.fired.get() {
                    cx.fault("rate function failed");
                }
                check_steps(&p, &steps, t0, &y0, tf, &s, cx)?;
                let ended = steps.last().is_some_and(|k| (tf - k.time_end).abs() <= 1e-12 * (1.0 + tf.abs()));
                match got {
                    Ok(end) => {
                        cx.reach("leg finished");
                        ensure!(ended, "rk45: says it arrived, but the steps end elsewhere | end {tf} steps {:?}", steps.last());
                        let last = steps.last().expect("a step");
                        ensure!(all_same(end.as_slice(), last.state_end.as_slice()), "rk45: the answer is not the last step's end | {end:?} {last:?}");
                        // Attempts cost six evaluations each at most a few more.
                        ensure!(p.calls.get() <= 7 * s.attempts + 2, "rk45: more attempts than allowed | {} evaluations", p.calls.get());
                        // Without an observer, the same.
                        if !p.fired.get() {
                            let calls = p.calls.get();
                            p.arm(0, 0.0);
                            let quiet = solver.solve(&|t, y: &Vector<N>| p.call(t, y), t0, &Vector::from_slice_or(&y0), tf);
                            ensure!(quiet.as_ref().is_ok_and(|q| all_same(q.as_slice(), end.as_slice())), "rk45: the observer changes the answer | {quiet:?} {end:?}");
                            cx.logu(calls as u64);
                        }
                    }
                    Err(IntegrateError::NonFinite) => {
                        cx.reach("leg stopped by a broken rate");
                        ensure!(p.fired.get(), "rk45: refused a sound leg as not finite | steps {}", steps.len());
                    }
                    Err(IntegrateError::StepSizeTooSmall) => {
                        cx.reach("leg stopped by the smallest step");
                        ensure!(s.min > 0.0, "rk45: stopped at a smallest step nobody set | steps {}", steps.len());
                        ensure!(!ended, "rk45: failed after arriving | ");
                    }
                    Err(IntegrateError::DidNotConverge { steps: n }) => {
                        cx.reach("leg stopped by the step limit");
                        ensure!(n == s.attempts, "rk45: reports another number of steps than it was allowed | {n} of {}", s.attempts);
                        ensure!(!ended, "rk45: failed after arriving | ");
                        ensure!(s.attempts < 20000, "rk45: does not arrive | span {} steps {}", tf - t, steps.len());
                        ensure!(p.calls.get() >= 6 * s.attempts, "rk45: gave up early | {} evaluations for {}", p.calls.get(), s.attempts);
                    }
                    Err(other) => return Err(format!("rk45: unexpected refusal | {other:?}")),
                }
                // Carry on from the last accepted step.
                if let Some(k) = steps.last() {
                    let h = (k.time_end - t).abs();
                    truth = p.flow(t, &truth, k.time_end);
                    t = k.time_end;
                    y = k.state_end.as_slice().to_vec();
                    let big = y.iter().fold(0.0f64, |m, v| m.max(v.abs())).max(y0.iter().fold(0.0, |m, v| m.max(v.abs())));
                    budget = (budget + steps.len() as f64 * (s.atol + s.rtol * big) * (N as f64).sqrt()) * (l * h).exp() + 1e-8;
                    cx.sim_time += h;
                    if got.is_err() {
                        cx.fault("leg cut short and resumed");
                    }
                }
                let far = (0..N).map(|i| (y[i] - truth[i]).abs()).fold(0.0, f64::max);
                ensure!(blind || far <= 100.0 * budget, "rk45: drifted from the true flow beyond its tolerance | off by {far:e}, budget {budget:e}");
                cx.state(&[1, got.is_ok() as i64, (steps.len() as f64).log2() as i64, p.fired.get() as i64]);
            }
            "grid" => {
                let n = e.u(4);
                let mut g = Rng::new(e.u(6) as u64);
                let tf = t + e.n(0);
                let mut fr: Vec<f64> = (0..n).map(|_| g.unit()).collect();
                fr.sort_by(f64::total_cmp);
                let mut times: Vec<f64> = fr.iter().map(|f| t + f * (tf - t)).collect();
                if n > 0 {
                    times[n - 1] = tf;
                    match g.below(3) {
                        0 => times[0] = if n > 1 { t } else { tf },
                        1 if n > 2 => times[1] = times[0],
                        _ => {}
                    }
                }
                let mut sound = true;
                let mut out = vec![Vector::<N>::zeros(); n];
                match e.u(5) {
                    1 => {
                        out.push(Vector::zeros());
                        sound = false;
                        cx.fault("grid and buffer of different lengths");
                    }
                    2 if n > 2 && times[0] != times[1] => {
                        times.swap(0, 1);
                        sound = false;
                        cx.fault("grid out of order");
                    }
                    3 if n > 1 => {
                        times[0] = t - 0.1 * (tf - t);
                        sound = false;
                        cx.fault("grid time out of range");
                    }
                    4 if n > 1 => {
                        times[0] = bad;
                        sound = false;
                        cx.fault("grid time not finite");
                    }
                    5 if n > 0 => {
                        times[n - 1] = bad;
                        sound = false;
                        cx.fault("grid time not finite");
                    }
                    _ => {}
                }
                let tol = e.n(3);
                let solver = Rk45::default().with_rtol(tol).with_atol(tol);
                p.arm(e.u(1), bad);
                let start = Vector::from_slice_or(&y);
                let got = solver.solve_on_grid(&|t, y: &Vector<N>| p.call(t, y), t, &start, &times, &mut out);
                let fired = p.fired.get();
                if fired {
                    cx.fault("rate function failed");
                }
                if !sound {
                    ensure!(
                        matches!(got, Err(IntegrateError::LimitsIllDefined)) || (fired && got.is_err()),
                        "rk45: an unusable grid was accepted | {got:?} {times:?}"
                    );
                    continue;
                }
                if n == 0 {
                    ensure!(got.is_ok(), "rk45: an empty grid was refused | {got:?}");
                    continue;
                }
                if got.is_err() {
                    ensure!(fired, "rk45: a sound grid was refused | {got:?} from {t} {times:?}");
                    cx.reach("grid stopped by a broken rate");
                    continue;
                }
                cx.reach("grid sampled");
                p.arm(e.u(1), bad);
                let mut steps = Vec::new();
                let _ = solver.for_each_step(&|t, y: &Vector<N>| p.call(t, y), t, &start, tf, |k| steps.push(*k));
                for (i, q) in times.iter().enumerate() {
                    let k = steps
                        .iter()
                        .find(|k| (*q - k.time_start) * (tf - t) >= 0.0 && (k.time_end - *q) * (tf - t) >= 0.0)
                        .or(steps.last())
                        .expect("a step");
                    let want = cubic(k, *q);
                    ensure!(all_close(out[i].as_slice(), &want, 1e-10, 1e-10), "rk45: a grid sample is not the solution there | time {q} got {:?} want {want:?}", out[i]);
                    cx.logs(out[i].as_slice());
                }
            }
            "rk4" => {
                let n = e.u(3);
                let h = e.n(0) / n.max(1) as f64;
                p.arm(e.u(1), bad);
                let mut nodes: Vec<(f64, Vector<N>)> = Vec::new();
                let start = Vector::from_slice_or(&y);
                let end = Rk4::integrate(&|t, y: &Vector<N>| p.call(t, y), t, &start, h, n, |t, y| nodes.push((t, *y)));
                let fired = p.fired.get();
                if fired {
                    cx.fault("rate function failed");
                }
                ensure!(nodes.len() == n + 1, "rk4: a node is missing | {} of {}", nodes.len(), n + 1);
                ensure!(all_same(nodes[n].1.as_slice(), end.as_slice()), "rk4: the answer is not the last node | ");
                let (mut at, mut z) = (t, y.clone());
                let broken_from = if fired { e.u(1).div_ceil(4) } else { usize::MAX };
                for (i, (tn, yn)) in nodes.iter().enumerate() {
                    ensure!(close(*tn, at, 1e-12, 1e-12), "rk4: a node's time is off | node {i} {tn} want {at}");
                    if i >= broken_from {
                        ensure!(!yn.is_finite(), "rk4: a broken rate was hidden | node {i} {yn:?}");
                    } else {
                        ensure!(all_close(yn.as_slice(), &z, 1e-11, 1e-11), "rk4: a node is not the published step | node {i} {yn:?} want {z:?}");
                    }
                    z = p.rk4(at, &z, h);
                    at = t + h * (i + 1) as f64;
                }
                let one = Rk4::step(&|t, y: &Vector<N>| Vector::new(p.rate(t, y.as_slice())), t, &start, h);
                ensure!(all_close(one.as_slice(), &p.rk4(t, &y, h), 1e-12, 1e-12), "rk4: a single step is not the published one | {one:?}");
                if fired {
                    cx.reach("fixed leg broken and repeated");
                    continue;
                }
                cx.sim_time += (h * n as f64).abs();
                t = nodes[n].0;
                y = end.as_slice().to_vec();
                truth = y.clone();
                budget = 0.0;
                cx.logs(&y);
                cx.state(&[2, n as i64]);
            }
            "turn" => {
                let n = e.u(3);
                let h = match e.u(4) {
                    1 => 0.0,
                    2 => -e.n(0),
                    3 => bad,
                    _ => e.n(0),
                };
                let w0 = [e.n(5), e.n(6), e.n(7)];
                let w1 = [e.n(8), e.n(9), e.n(10)];
                let q0 = [e.n(11), e.n(12), e.n(13)];
                let calls = Cell::new(0usize);
                let fired = Cell::new(false);
                let clean = |t: f64, m: &Mat| -> V3 { std::array::from_fn(|i| w0[i] * (1.0 + (t * 1.3).sin()) + w1[i] * m.at(i, (i + 1) % 3)) };
                let rate = |t: f64, o: SO3<f64>| {
                    calls.set(calls.get() + 1);
                    let m = o.to_matrix();
                    let mut w = clean(t, &Mat::from_fn(3, 3, |i, j| m[(i, j)]));
                    if calls.get() == e.u(1) {
                        fired.set(true);
                        w[e.u(1) % 3] = bad;
                    }
                    Vector::new(w)
                };
                let mut nodes: Vec<(f64, SO3<f64>)> = Vec::new();
                let start = SO3::exp(Vector::new(q0));
                let got = ExponentialMap::integrate_attitude(&rate, t, start, h, n, |t, o| nodes.push((t, o)));
                if fired.get() {
                    cx.fault("rate function failed");
                }
                if !h.is_finite() {
                    cx.fault("step not finite");
                    ensure!(got == Err(IntegrateError::NonFinite), "attitude: a step that is not finite was not refused | {got:?}");
                    continue;
                }
                if h <= 0.0 {
                    cx.fault("step not positive");
                    ensure!(got == Err(IntegrateError::NonPositiveTimestep), "attitude: a step that is not positive was not refused | {got:?}");
                    continue;
                }
                let mut m = exp_so3(q0);
                let mut at = t;
                for (i, (tn, o)) in nodes.iter().enumerate() {
                    let om = o.to_matrix();
                    let om = Mat::from_fn(3, 3, |i, j| om[(i, j)]);
                    ensure!(close(*tn, at, 1e-12, 1e-12), "attitude: a node's time is off | node {i} {tn} want {at}");
                    ensure!(om.sub(&m).max_abs() <= 1e-11, "attitude: a node is not the half-way step | node {i}");
                    ensure!(om.mul(&om.t()).sub(&Mat::eye(3)).max_abs() <= 1e-12, "attitude: a node is no rotation | node {i}");
                    cx.logs(&om.d);
                    let w = clean(at, &m);
                    let half = m.mul(&exp_so3(scale(w, 0.5 * h)));
                    let w = clean(at + 0.5 * h, &half);
                    m = m.mul(&exp_so3(scale(w, h)));
                    at = t + h * (i + 1) as f64;
                }
                if fired.get() {
                    ensure!(got == Err(IntegrateError::NonFinite), "attitude: a broken rate was not reported | {got:?}");
                    ensure!(nodes.len() == 1 + (e.u(1) - 1) / 2, "attitude: nodes reported beyond the broken rate | {}", nodes.len());
                    cx.reach("attitude stopped by a broken rate");
                } else {
                    ensure!(nodes.len() == n + 1, "attitude: a node is missing | {}", nodes.len());
                    let last = nodes[n].1;
                    ensure!(got.is_ok_and(|g| g == last), "attitude: the answer is not the last node | ");
                    cx.reach("attitude turned");
                    cx.sim_time += h * n as f64;
                }
                // The single steps.
                let a = ExponentialMap::attitude_step(start, Vector::new(w0), h).to_matrix();
                let b = ExponentialMap::attitude_step_with_angular_acceleration(start, Vector::new(w0), Vector::new(w1), h).to_matrix();
                let s = exp_so3(q0);
                let wa = s.mul(&exp_so3(scale(w0, h)));
                let wb = s.mul(&exp_so3(scale(add(w0, scale(w1, 0.5 * h)), h)));
                for (got, want) in [(a, wa), (b, wb)] {
                    let got = Mat::from_fn(3, 3, |i, j| got[(i, j)]);
                    ensure!(got.sub(&want).max_abs() <= 1e-12, "attitude: a single step is not the turn made over it | {got:?} {want:?}");
                }
                cx.state(&[3, n as i64, fired.get() as i64]);
            }
            "clock" => {
                let solver = Rk45::default();
                let (a, b, want) = match e.u(0) {
                    0 => (t, t, IntegrateError::LimitsIllDefined),
                    1 => (f64::NAN, t, IntegrateError::LimitsIllDefined),
                    2 => (t, f64::NAN, IntegrateError::LimitsIllDefined),
                    3 => (t, f64::INFINITY, IntegrateError::LimitsIllDefined),
                    4 => (f64::NEG_INFINITY, t, IntegrateError::LimitsIllDefined),
                    _ => (t, t + 1.0, IntegrateError::NonFinite),
                };
                cx.fault("clock or state not usable");
                let mut start = y.clone();
                if e.u(0) >= 5 {
                    start[0] = f64::NAN;
                }
                p.arm(0, 0.0);
                let got = solver.solve(&|t, y: &Vector<N>| p.call(t, y), a, &Vector::from_slice_or(&start), b);
                ensure!(got == Err(want), "rk45: an unusable span or start was not refused as such | from {a} to {b}: {got:?}");
            }
            _ => {}
        }
    }
    Ok(())
}

trait FromSlice<const N: usize> {
    fn from_slice_or(s: &[f64]) -> Vector<N>;
}
impl<const N: usize> FromSlice<N> for Vector<N> {
    fn from_slice_or(s: &[f64]) -> Vector<N> {
        Vector::new(std::array::from_fn(|i| s[i]))
    }
}
