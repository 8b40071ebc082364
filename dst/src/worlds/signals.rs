//! PID, recursive filters, window filters, conditioning, rotor lag and mixing: the real components,
//! and models of them written apart from the library.

use super::comps::*;
use crate::core::*;
use crate::refs::Mat;
use crate::{comp, model};
use multicalc::control::Pid;
use multicalc::linear_algebra::Vector;
use multicalc::plant::{MultirotorMixer, RotorLag, RotorSpin};
use multicalc::signal_processing::*;
use std::f64::consts::{LN_10, TAU};

fn at(a: &[f64], i: usize) -> f64 {
    a.get(i).copied().unwrap_or(0.0)
}

/// Swaps one argument for an unusable one.
fn spoil(r: &mut Rng, p: &mut [f64], choices: &[(usize, f64)]) {
    let (i, v) = *r.pick(choices);
    p[i] = if v.is_nan() { r.broken() } else { v };
}
const NF: f64 = f64::NAN;

fn limits(b: bool, e: &str) -> Result<(), String> {
    if b { Err(e.to_string()) } else { Ok(()) }
}
fn finite_all(p: &[f64]) -> bool {
    p.iter().all(|v| v.is_finite())
}

// ----- PID -----
// params: kp ki kd dt has_limits lo hi has_filter smoothing

fn pid_params(r: &mut Rng, bad: bool) -> Vec<f64> {
    let lo = -r.log_range(0.1, 10.0);
    let hi = r.log_range(0.1, 10.0);
    let simple = r.chance(0.3);
    let g = |r: &mut Rng| {
        if simple { *r.pick(&[0.0, 1.0, 2.0, 0.5]) } else { r.sign() * r.log_range(1e-2, 20.0) }
    };
    let mut p = vec![
        g(r).abs(),
        if r.chance(0.8) { g(r).abs() } else { 0.0 },
        if r.chance(0.6) { 0.1 * g(r) } else { 0.0 },
        if simple { *r.pick(&[1.0, 0.5, 0.25]) } else { r.log_range(1e-3, 1.0) },
        if r.chance(0.7) { 1.0 } else { 0.0 },
        *r.pick(&[lo, lo, 0.0, -1.0, f64::NEG_INFINITY]),
        *r.pick(&[hi, hi, hi, 1.0, f64::INFINITY]),
        if r.chance(0.5) { 1.0 } else { 0.0 },
        *r.pick(&[1.0, 0.0, 0.5, 0.1, 0.9]),
    ];
    if r.chance(0.1) {
        // A one-way actuator.
        p[5] = 0.5;
        p[6] = 4.0;
    }
    if bad {
        p[4] = 1.0;
        p[7] = 1.0;
        spoil(
            r,
            &mut p,
            &[(0, NF), (1, NF), (2, NF), (3, NF), (3, 0.0), (3, -0.1), (5, 1e9), (8, NF), (8, -0.01), (8, 1.01)],
        );
        if p[5].is_infinite() || p[6].is_infinite() {
            p[5] = f64::NAN;
        }
    }
    p
}

fn pid_real(p: &[f64]) -> MadeReal {
    let made = say(Pid::new(p[0], p[1], p[2], p[3])).and_then(|c| {
        let c = if p[4] > 0.5 { say(c.with_output_limits(p[5], p[6]))? } else { c };
        if p[7] > 0.5 { say(c.with_derivative_filter(p[8])) } else { Ok(c) }
    });
    boxed(made)
}

comp!(Pid<f64>, |s, op, a| {
    match op {
        0 => {
            let u = s.update(at(a, 0), at(a, 1));
            Out::V(vec![u, s.integral()])
        }
        1 => {
            s.reset();
            Out::V(vec![s.integral()])
        }
        2 => unit_or(s.resume_from(at(a, 0), at(a, 1), at(a, 2))),
        20 => unit_or(s.set_gains(at(a, 0), at(a, 1), at(a, 2))),
        50 => v(s.integral()),
        _ => Out::Any,
    }
});

#[derive(Clone)]
struct PidModel {
    k: [f64; 3],
    dt: f64,
    lim: (f64, f64),
    smooth: f64,
    integral: f64,
    d: Option<f64>,
    last: Option<(f64, f64)>,
    lost: bool,
}

fn pid_model(p: &[f64]) -> MadeModel {
    modelled((|| {
        limits(!finite_all(&p[..4]), "NonFinite")?;
        limits(p[3] <= 0.0, "NonPositiveTimestep")?;
        let mut lim = (f64::NEG_INFINITY, f64::INFINITY);
        if p[4] > 0.5 {
            limits(p[5].is_nan() || p[6].is_nan(), "NonFinite")?;
            limits(p[5] > p[6], "InvalidOutputLimits")?;
            lim = (p[5], p[6]);
        }
        let mut smooth = 1.0;
        if p[7] > 0.5 {
            limits(!p[8].is_finite(), "Signal(NonFinite)")?;
            limits(!(0.0..=1.0).contains(&p[8]), "Signal(CoefficientOutOfRange)")?;
            smooth = p[8];
        }
        Ok(PidModel { k: [p[0], p[1], p[2]], dt: p[3], lim, smooth, integral: 0.0, d: None, last: None, lost: false })
    })())
}

model!(PidModel, |s, op, a, real| {
    match op {
        0 => {
            let (sp, y) = (at(a, 0), at(a, 1));
            if s.lost || !sp.is_finite() || !y.is_finite() {
                s.lost = true;
                return Out::Any;
            }
            let e = sp - y;
            let rate = s.last.map_or(0.0, |(before, _)| -(y - before) / s.dt);
            let d = match s.d {
                Some(old) => old + s.smooth * (rate - old),
                None => rate,
            };
            s.d = Some(d);
            s.last = Some((y, e));
            let grown = s.integral + s.k[1] * s.dt * e;
            let want = s.k[0] * e + grown + s.k[2] * d;
            let out = if want > s.lim.1 { s.lim.1 } else if want < s.lim.0 { s.lim.0 } else { want };
            let hold = (want > s.lim.1 && e > 0.0) || (want < s.lim.0 && e < 0.0);
            let size = 1e-9 * (want.abs() + (s.k[0] * e).abs() + grown.abs() + (s.k[2] * d).abs());
            let edge = (want - s.lim.1).abs().min((want - s.lim.0).abs());
            let mut integral = if hold { s.integral } else { grown };
            if edge <= size {
                // On the limit to the last digit: either decision is right.
                if let Out::V(r) = real {
                    for cand in [s.integral, grown] {
                        if close(r[1], cand, 1e-9, size) {
                            integral = r[1];
                        }
                    }
                }
            }
            s.integral = integral;
            Out::V(vec![out, integral])
        }
        1 => {
            *s = PidModel { integral: 0.0, d: None, last: None, lost: false, ..s.clone() };
            v(0.0)
        }
        2 => {
            if !finite_all(a) {
                return Out::E("NonFinite".into());
            }
            let e = at(a, 1) - at(a, 2);
            s.integral = at(a, 0) - s.k[0] * e - s.k[1] * s.dt * e;
            s.d = None;
            s.last = Some((at(a, 2), e));
            s.lost = false;
            Out::V(vec![])
        }
        20 => {
            if !finite_all(a) {
                return Out::E("NonFinite".into());
            }
            if let Some((_, e)) = s.last {
                s.integral += (s.k[0] - at(a, 0)) * e + (s.k[2] - at(a, 2)) * s.d.unwrap_or(0.0);
            }
            s.k = [at(a, 0), at(a, 1), at(a, 2)];
            Out::V(vec![])
        }
        50 => {
            if s.lost { Out::Any } else { v(s.integral) }
        }
        _ => Out::Any,
    }
});

fn pid_call(r: &mut Rng, _p: &[f64], t: f64, bad: bool) -> (usize, Vec<f64>) {
    match r.below(24) {
        0 => {
            let mut a = vec![r.range(-5.0, 5.0), r.range(-2.0, 2.0), r.range(-2.0, 2.0)];
            if bad {
                a[r.below(3)] = r.broken();
            }
            (2, a)
        }
        1 => {
            let mut a = vec![r.log_range(0.01, 20.0), r.log_range(0.01, 10.0), r.range(-1.0, 1.0)];
            if bad {
                a[r.below(3)] = r.broken();
            }
            (20, a)
        }
        2 => (50, vec![]),
        _ => {
            let sp = if ((t / 0.15) as i64) % 2 == 0 { 1.0 } else { *r.pick(&[-1.0, 0.0, 2.0, 0.5]) };
            let y = match r.below(6) {
                0 => sp,
                1 => sp + *r.pick(&[1.0, -1.0, 0.5, -0.5]),
                2 => r.normal() * 1e3,
                _ => sp + (t * 9.0).sin() + 0.2 * r.normal(),
            };
            if bad {
                if r.chance(0.5) { (0, vec![r.broken(), y]) } else { (0, vec![sp, r.broken()]) }
            } else {
                (0, vec![sp, y])
            }
        }
    }
}

// ----- One pole -----
// params: from_cutoff smoothing cutoff dt

fn pole_params(r: &mut Rng, bad: bool) -> Vec<f64> {
    let mut p = vec![
        if r.chance(0.5) { 1.0 } else { 0.0 },
        if r.chance(0.3) { *r.pick(&[0.0, 1.0, 0.5]) } else { r.unit() },
        if r.chance(0.1) { 0.0 } else { r.log_range(0.01, 1e4) },
        r.log_range(1e-4, 1.0),
    ];
    if bad {
        let c: &[(usize, f64)] = if p[0] > 0.5 {
            &[(2, NF), (3, NF), (2, -1.0), (3, 0.0), (3, -1.0)]
        } else {
            &[(1, NF), (1, -1e-9), (1, 1.0 + 1e-9)]
        };
        spoil(r, &mut p, c);
    }
    p
}
fn pole_real(p: &[f64]) -> MadeReal {
    boxed(say(if p[0] > 0.5 {
        OnePoleLowPass::from_cutoff(p[2], p[3])
    } else {
        OnePoleLowPass::new(p[1])
    }))
}
comp!(OnePoleLowPass<f64>, |s, op, a| {
    match op {
        0 => v(s.filter(at(a, 0))),
        1 => {
            s.reset();
            v(s.value())
        }
        50 => v(s.value()),
        _ => Out::Any,
    }
});
#[derive(Clone)]
struct PoleModel {
    s: f64,
    y: Option<f64>,
}
fn pole_model(p: &[f64]) -> MadeModel {
    modelled((|| {
        if p[0] > 0.5 {
            limits(!finite_all(&p[2..4]), "NonFinite")?;
            limits(p[3] <= 0.0, "NonPositiveTimestep")?;
            limits(p[2] < 0.0, "FrequencyOutOfRange")?;
            // Backward difference of tau y' = x - y with tau = 1 / (2 pi fc).
            let s = if p[2] == 0.0 { 0.0 } else { p[3] / (p[3] + 1.0 / (TAU * p[2])) };
            return Ok(PoleModel { s, y: None });
        }
        limits(!p[1].is_finite(), "NonFinite")?;
        limits(!(0.0..=1.0).contains(&p[1]), "CoefficientOutOfRange")?;
        Ok(PoleModel { s: p[1], y: None })
    })())
}
model!(PoleModel, |s, op, a, _real| {
    match op {
        0 => {
            let x = at(a, 0);
            let y = match s.y {
                None => x,
                Some(y) => s.s * x + (1.0 - s.s) * y,
            };
            s.y = Some(y);
            v(y)
        }
        1 => {
            s.y = None;
            v(0.0)
        }
        50 => v(s.y.unwrap_or(0.0)),
        _ => Out::Any,
    }
});
fn scalar_call(r: &mut Rng, _p: &[f64], t: f64, bad: bool) -> (usize, Vec<f64>) {
    if r.chance(0.1) { (50, vec![]) } else { (0, vec![sample(r, t, bad)]) }
}

// ----- Biquads -----
// A section is four numbers: design, frequency, quality, timestep; design 4 is raw weights.

fn section_args(r: &mut Rng, dt: f64) -> Vec<f64> {
    let f = if r.chance(0.05) { 0.4999 / dt } else { r.log_range(4e-3, 0.49) / dt };
    vec![r.below(4) as f64, f, r.log_range(0.1, 20.0), dt]
}
fn section_real(d: &[f64]) -> Result<BiquadCoefficients, String> {
    say(match d[0] as i64 {
        0 => BiquadCoefficients::low_pass(d[1], d[2], d[3]),
        1 => BiquadCoefficients::high_pass(d[1], d[2], d[3]),
        2 => BiquadCoefficients::band_pass(d[1], d[2], d[3]),
        3 => BiquadCoefficients::notch(d[1], d[2], d[3]),
        _ => BiquadCoefficients::new([d[1], d[2], d[3]], [d[4], d[5]], d[6]),
    })
}
#[derive(Clone, Debug)]
struct Sec {
    b: [f64; 3],
    a: [f64; 2],
    dt: f64,
}
fn section_model(d: &[f64]) -> Result<Sec, String> {
    if d[0] >= 4.0 {
        limits(!finite_all(&d[1..7]), "NonFinite")?;
        limits(d[6] <= 0.0, "NonPositiveTimestep")?;
        return Ok(Sec { b: [d[1], d[2], d[3]], a: [d[4], d[5]], dt: d[6] });
    }
    limits(!finite_all(&d[1..4]), "NonFinite")?;
    limits(d[3] <= 0.0, "NonPositiveTimestep")?;
    limits(d[2] <= 0.0, "NonPositiveQualityFactor")?;
    limits(d[1] <= 0.0 || d[1] * d[3] >= 0.5, "FrequencyOutOfRange")?;
    let w = TAU * d[1] * d[3];
    let (c, s) = (w.cos(), w.sin());
    let q = d[2];
    let (b, a0, a1, a2) = match d[0] as i64 {
        0 | 1 => {
            let al = s / (2.0 * q);
            let k = if d[0] < 0.5 { 1.0 - c } else { 1.0 + c };
            let mid = if d[0] < 0.5 { k } else { -k };
            ([k / 2.0, mid, k / 2.0], 1.0 + al, -2.0 * c, 1.0 - al)
        }
        n => {
            let al = (w / (2.0 * q)).tan();
            let b = if n == 2 { [al, 0.0, -al] } else { [1.0, -2.0 * c, 1.0] };
            (b, 1.0 + al, -2.0 * c, 1.0 - al)
        }
    };
    Ok(Sec { b: b.map(|x| x / a0), a: [a1 / a0, a2 / a0], dt: d[3] })
}
type Cpx = (f64, f64);
fn cmul(a: Cpx, b: Cpx) -> Cpx {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}
fn cdiv(a: Cpx, b: Cpx) -> Cpx {
    let n = b.0 * b.0 + b.1 * b.1;
    ((a.0 * b.0 + a.1 * b.1) / n, (a.1 * b.0 - a.0 * b.1) / n)
}
impl Sec {
    fn response(&self, f: f64) -> Cpx {
        let w = -TAU * f * self.dt;
        let z = (w.cos(), w.sin());
        let poly = |k0: f64, k1: f64, k2: f64| {
            let inner = cmul((k2, 0.0), z);
            let inner = cmul((inner.0 + k1, inner.1), z);
            (inner.0 + k0, inner.1)
        };
        cdiv(poly(self.b[0], self.b[1], self.b[2]), poly(1.0, self.a[0], self.a[1]))
    }
    /// Both poles strictly inside the unit circle.
    fn stable(&self) -> Option<bool> {
        let disc = self.a[0] * self.a[0] / 4.0 - self.a[1];
        let worst = if disc >= 0.0 {
            (self.a[0].abs() / 2.0) + disc.sqrt()
        } else {
            self.a[1].sqrt()
        };
        if (worst - 1.0).abs() < 1e-6 { None } else { Some(worst < 1.0) }
    }
    fn dc(&self) -> f64 {
        (self.b[0] + self.b[1] + self.b[2]) / (1.0 + self.a[0] + self.a[1])
    }
}

/// Memory as past inputs and outputs folded into the two delayed sums a coefficient swap keeps.
#[derive(Clone)]
struct SecState {
    sec: Sec,
    s1: f64,
    s2: f64,
    y: f64,
}
impl SecState {
    fn new(sec: Sec) -> Self {
        SecState { sec, s1: 0.0, s2: 0.0, y: 0.0 }
    }
    fn feed(&mut self, x: f64) -> f64 {
        let y = self.s1 + self.sec.b[0] * x;
        let s1 = self.s2 + self.sec.b[1] * x - self.sec.a[0] * y;
        let s2 = self.sec.b[2] * x - self.sec.a[1] * y;
        (self.s1, self.s2, self.y) = (s1, s2, y);
        y
    }
    fn settle(&mut self, x: f64) -> f64 {
        // The state at which feeding x for ever changes nothing.
        let y = self.sec.dc() * x;
        self.s1 = y - self.sec.b[0] * x;
        self.s2 = self.sec.b[2] * x - self.sec.a[1] * y;
        self.y = y;
        y
    }
    fn clear(&mut self) {
        (self.s1, self.s2, self.y) = (0.0, 0.0, 0.0);
    }
}

/// What a frequency query answers: response as a complex number, then decibels against magnitude,
/// delay against phase, and stability.
fn queried(mag: f64, phase: f64, db: f64, delay: f64, f: f64, stable: bool) -> Out {
    let db_ok = mag <= 0.0 || (db - 20.0 * mag.ln() / LN_10).abs() < 1e-6 * (1.0 + db.abs());
    let want = if f == 0.0 { 0.0 } else { -phase / (TAU * f) };
    let delay_ok = (delay - want).abs() <= 1e-9 * (1.0 + want.abs());
    Out::V(vec![mag * phase.cos(), mag * phase.sin(), db_ok as i64 as f64, delay_ok as i64 as f64, stable as i64 as f64])
}
fn modelled_query(resp: Cpx, stable: Option<bool>, real: &Out) -> Out {
    let st = match (stable, real) {
        (Some(s), _) => s as i64 as f64,
        (None, Out::V(r)) => r[4],
        _ => 0.0,
    };
    Out::V(vec![resp.0, resp.1, 1.0, 1.0, st])
}

fn biquad_params(r: &mut Rng, bad: bool) -> Vec<f64> {
    let dt = r.log_range(1e-4, 1.0);
    let mut p = if r.chance(0.3) {
        // Random weights with poles drawn inside (or now and then just outside) the unit circle.
        let rad: f64 = if r.chance(0.1) { r.range(1.0, 1.02) } else { r.range(0.0, 0.98) };
        let ang = r.range(0.0, std::f64::consts::PI);
        vec![4.0, r.range(-2.0, 2.0), r.range(-2.0, 2.0), r.range(-2.0, 2.0), -2.0 * rad * ang.cos(), rad * rad, dt]
    } else {
        section_args(r, dt)
    };
    if bad {
        if p[0] >= 4.0 {
            spoil(r, &mut p, &[(1, NF), (3, NF), (4, NF), (5, NF), (6, NF), (6, 0.0)]);
        } else {
            let top = 0.5 / p[3];
            spoil(r, &mut p, &[(1, NF), (2, NF), (3, NF), (3, 0.0), (3, -1.0), (2, 0.0), (2, -1.0), (1, 0.0), (1, -1.0), (1, top), (1, 2.0 * top)]);
        }
    }
    p
}
fn biquad_real(p: &[f64]) -> MadeReal {
    boxed(section_real(p).map(Biquad::new))
}
fn biquad_model(p: &[f64]) -> MadeModel {
    modelled(section_model(p).map(SecState::new))
}
comp!(Biquad<f64>, |s, op, a| {
    match op {
        0 => v(s.filter(at(a, 0))),
        1 => {
            s.reset();
            v(s.value())
        }
        2 => {
            s.settle_to(at(a, 0));
            v(s.value())
        }
        20 => match section_real(a) {
            Ok(c) => {
                s.set_coefficients(c);
                let now = s.coefficients();
                let (f, b) = (now.feed_forward(), now.feedback());
                Out::V(vec![f[0], f[1], f[2], b[0], b[1], now.timestep()])
            }
            Err(e) => Out::E(e),
        },
        50 => v(s.value()),
        51 => {
            let c = s.coefficients();
            let f = at(a, 0);
            queried(c.magnitude_at(f), c.phase_at(f), c.magnitude_in_decibels_at(f), c.delay_at(f), f, c.is_stable())
        }
        _ => Out::Any,
    }
});
model!(SecState, |s, op, a, real| {
    match op {
        0 => v(s.feed(at(a, 0))),
        1 => {
            s.clear();
            v(0.0)
        }
        2 => v(s.settle(at(a, 0))),
        20 => match section_model(a) {
            Ok(c) => {
                s.sec = c.clone();
                Out::V(vec![c.b[0], c.b[1], c.b[2], c.a[0], c.a[1], c.dt])
            }
            Err(e) => Out::E(e),
        },
        50 => v(s.y),
        51 => modelled_query(s.sec.response(at(a, 0)), s.sec.stable(), real),
        _ => Out::Any,
    }
});
fn biquad_call(r: &mut Rng, p: &[f64], t: f64, bad: bool) -> (usize, Vec<f64>) {
    let dt = if p[0] >= 4.0 { p[6] } else { p[3] };
    let dt = if dt.is_finite() && dt > 0.0 { dt } else { 0.01 };
    match r.below(20) {
        0 => (50, vec![]),
        1 => (51, vec![if r.chance(0.1) { 0.0 } else { r.range(0.0, 0.5) / dt }]),
        2 => (2, vec![sample(r, t, bad)]),
        3 | 4 => (20, section_args(r, dt)),
        _ => (0, vec![sample(r, t, bad)]),
    }
}

// ----- Cascade of three, and harmonic notches -----
// params: harmonic, then either 3x4 section numbers or fundamental, quality, dt

fn cascade_params(r: &mut Rng, bad: bool) -> Vec<f64> {
    let dt = r.log_range(1e-4, 1.0);
    if r.chance(0.4) {
        let mut p = vec![1.0, r.range(0.001, 0.166) / dt, r.log_range(0.3, 20.0), dt];
        if bad {
            let edge = 0.5 / 3.0 / dt * 1.01;
            spoil(r, &mut p, &[(1, NF), (2, NF), (3, NF), (1, 0.0), (1, edge), (1, 3.0 * edge), (2, 0.0), (3, 0.0)]);
        }
        return p;
    }
    let mut p = vec![0.0];
    for _ in 0..3 {
        p.extend(section_args(r, dt));
    }
    if bad {
        let at = 4 * r.below(3);
        spoil(r, &mut p, &[(at + 2, NF), (at + 3, 0.0), (at + 4, 0.0)]);
    }
    p
}
fn cascade_real(p: &[f64]) -> MadeReal {
    if p[0] > 0.5 {
        return boxed(say(harmonic_notch_coefficients::<3, f64>(p[1], p[2], p[3])).map(BiquadCascade::<3, f64>::new));
    }
    boxed((|| {
        Ok(BiquadCascade::new([section_real(&p[1..5])?, section_real(&p[5..9])?, section_real(&p[9..13])?]))
    })())
}
#[derive(Clone)]
struct CascadeModel(Vec<SecState>);
fn cascade_model(p: &[f64]) -> MadeModel {
    modelled((|| {
        let mut sections = Vec::new();
        if p[0] > 0.5 {
            // Each harmonic, refused as a whole when the highest does not fit.
            section_model(&[3.0, p[1], p[2], p[3]])?;
            for n in 1..=3 {
                sections.push(SecState::new(section_model(&[3.0, n as f64 * p[1], p[2], p[3]])?));
            }
        } else {
            for c in p[1..13].chunks(4) {
                sections.push(SecState::new(section_model(c)?));
            }
        }
        Ok(CascadeModel(sections))
    })())
}
comp!(BiquadCascade<3, f64>, |s, op, a| {
    match op {
        0 => v(s.filter(at(a, 0))),
        1 => {
            s.reset();
            v(s.value())
        }
        2 => {
            s.settle_to(at(a, 0));
            v(s.value())
        }
        20 => match section_real(&a[1..]) {
            Ok(c) => unit_or(s.set_section(a[0] as usize, c)),
            Err(e) => Out::E(e),
        },
        50 => v(s.value()),
        51 => {
            let f = at(a, 0);
            queried(s.magnitude_at(f), s.phase_at(f), s.magnitude_in_decibels_at(f), s.delay_at(f), f, s.is_stable())
        }
        _ => Out::Any,
    }
});
model!(CascadeModel, |s, op, a, real| {
    match op {
        0 => v(s.0.iter_mut().fold(at(a, 0), |x, c| c.feed(x))),
        1 => {
            s.0.iter_mut().for_each(|c| c.clear());
            v(0.0)
        }
        2 => v(s.0.iter_mut().fold(at(a, 0), |x, c| c.settle(x))),
        20 => match section_model(&a[1..]) {
            Ok(c) => {
                let i = a[0] as usize;
                if i >= 3 {
                    return Out::E("SectionIndexOutOfRange".into());
                }
                s.0[i].sec = c;
                Out::V(vec![])
            }
            Err(e) => Out::E(e),
        },
        50 => v(s.0[2].y),
        51 => {
            let h = s.0.iter().fold((1.0, 0.0), |h, c| cmul(h, c.sec.response(at(a, 0))));
            let st: Vec<_> = s.0.iter().map(|c| c.sec.stable()).collect();
            let all = if st.contains(&Some(false)) {
                Some(false)
            } else if st.contains(&None) {
                None
            } else {
                Some(true)
            };
            modelled_query(h, all, real)
        }
        _ => Out::Any,
    }
});
fn cascade_call(r: &mut Rng, p: &[f64], t: f64, bad: bool) -> (usize, Vec<f64>) {
    let dt = if p[0] > 0.5 { p[3] } else { p[4] };
    let dt = if dt.is_finite() && dt > 0.0 { dt } else { 0.01 };
    match r.below(20) {
        0 => (50, vec![]),
        1 => (51, vec![if r.chance(0.1) { 0.0 } else { r.range(0.0, 0.5) / dt }]),
        2 => (2, vec![sample(r, t, bad)]),
        3 | 4 => {
            let mut a = vec![r.below(4) as f64];
            a.extend(section_args(r, dt));
            (20, a)
        }
        _ => (0, vec![sample(r, t, bad)]),
    }
}

// ----- Several channels -----

fn channels_params(r: &mut Rng, _bad: bool) -> Vec<f64> {
    let dt = r.log_range(1e-4, 1.0);
    section_args(r, dt)
}
fn channels_real(p: &[f64]) -> MadeReal {
    boxed(section_real(p).map(MultiChannelBiquad::<3, f64>::new))
}
#[derive(Clone)]
struct ChannelsModel(Vec<SecState>);
fn channels_model(p: &[f64]) -> MadeModel {
    modelled(section_model(p).map(|c| ChannelsModel(vec![SecState::new(c); 3])))
}
fn vec3(a: &[f64]) -> Vector<3, f64> {
    Vector::new([at(a, 0), at(a, 1), at(a, 2)])
}
comp!(MultiChannelBiquad<3, f64>, |s, op, a| {
    match op {
        0 => Out::V(s.filter(vec3(a)).as_array().to_vec()),
        1 => {
            s.reset();
            Out::V(s.value().as_array().to_vec())
        }
        2 => {
            s.settle_to(vec3(a));
            Out::V(s.value().as_array().to_vec())
        }
        20 => match section_real(a) {
            Ok(c) => {
                s.set_coefficients(c);
                Out::V(vec![])
            }
            Err(e) => Out::E(e),
        },
        50 => Out::V(s.value().as_array().to_vec()),
        _ => Out::Any,
    }
});
model!(ChannelsModel, |s, op, a, _real| {
    match op {
        0 => Out::V(s.0.iter_mut().zip(a).map(|(c, x)| c.feed(*x)).collect()),
        1 => {
            s.0.iter_mut().for_each(|c| c.clear());
            Out::V(vec![0.0; 3])
        }
        2 => Out::V(s.0.iter_mut().zip(a).map(|(c, x)| c.settle(*x)).collect()),
        20 => match section_model(a) {
            Ok(k) => {
                s.0.iter_mut().for_each(|c| c.sec = k.clone());
                Out::V(vec![])
            }
            Err(e) => Out::E(e),
        },
        50 => Out::V(s.0.iter().map(|c| c.y).collect()),
        _ => Out::Any,
    }
});
fn channels_call(r: &mut Rng, p: &[f64], t: f64, bad: bool) -> (usize, Vec<f64>) {
    match r.below(20) {
        0 => (50, vec![]),
        1 => (20, section_args(r, p[3])),
        k => {
            let mut a = vec![sample(r, t, false), sample(r, t, false), sample(r, t, false)];
            if bad {
                a[r.below(3)] = r.broken();
            }
            (if k == 2 { 2 } else { 0 }, a)
        }
    }
}

// ----- Windows -----
// params: which, dt

macro_rules! window_comp {
    ($($t:ty),*) => {$(
        comp!($t, |s, op, a| {
            match op {
                0 => v(s.filter(at(a, 0))),
                1 => {
                    s.reset();
                    v(s.value())
                }
                50 => v(s.value()),
                _ => Out::Any,
            }
        });
    )*};
}
window_comp!(
    MovingAverage<1, f64>, MovingAverage<4, f64>, MovingAverage<9, f64>,
    RunningMedian<1, f64>, RunningMedian<3, f64>, RunningMedian<7, f64>
);
macro_rules! sg_comp {
    ($($w:literal $p:literal),*) => {$(
        comp!(SavitzkyGolay<$w, $p, f64>, |s, op, a| {
            match op {
                0 => {
                    let y = s.filter(at(a, 0));
                    Out::V(vec![y, s.first_derivative(), s.second_derivative()])
                }
                1 => {
                    s.reset();
                    v(s.value())
                }
                50 => v(s.value()),
                51 => v(s.delay()),
                _ => Out::Any,
            }
        });
    )*};
}
sg_comp!(1 1, 3 1, 3 2, 3 3, 4 2, 5 3, 6 3, 7 3, 9 4, 11 3);

#[derive(Clone, Copy, PartialEq)]
enum Win {
    Mean,
    Median,
    Fit { terms: usize, read: usize, dt: f64 },
}
#[derive(Clone)]
struct WindowModel {
    len: usize,
    kind: Win,
    /// Oldest first; empty before the first sample.
    seen: Vec<f64>,
    weights: [Vec<f64>; 3],
}
impl WindowModel {
    fn new(len: usize, kind: Win) -> Self {
        let mut weights = [vec![], vec![], vec![]];
        if let Win::Fit { terms, read, dt } = kind {
            // Least squares by normal equations on positions scaled to the window, then read off
            // at the wanted position.
            let half = (len as f64 / 2.0).max(1.0);
            let pos = |i: usize| (i as f64 - read as f64) / half;
            let x = Mat::from_fn(len, terms, |i, j| pos(i).powi(j as i32));
            let w = x.t().mul(&x).inv().expect("window fit").mul(&x.t());
            for (order, row) in weights.iter_mut().enumerate() {
                let k = match order {
                    0 => 1.0,
                    1 => 1.0 / (half * dt),
                    _ => 2.0 / (half * dt * half * dt),
                };
                *row = (0..len).map(|i| if order < terms { w.at(order, i) * k } else { 0.0 }).collect();
            }
        }
        WindowModel { len, kind, seen: vec![], weights }
    }
    fn value(&self) -> Out {
        if self.seen.is_empty() {
            return v(0.0);
        }
        match self.kind {
            Win::Mean => v(self.seen.iter().sum::<f64>() / self.len as f64),
            Win::Median => {
                if self.seen.iter().any(|x| x.is_nan()) {
                    return Out::Any;
                }
                let mut s = self.seen.clone();
                s.sort_by(f64::total_cmp);
                v(s[self.len / 2])
            }
            Win::Fit { .. } => v(self.dot(0)),
        }
    }
    fn dot(&self, order: usize) -> f64 {
        self.weights[order].iter().zip(&self.seen).map(|(w, x)| w * x).sum()
    }
}
model!(WindowModel, |s, op, a, real| {
    match op {
        0 => {
            let x = at(a, 0);
            if s.seen.is_empty() {
                s.seen = vec![x; s.len];
            } else {
                s.seen.remove(0);
                s.seen.push(x);
            }
            if let Win::Fit { .. } = s.kind {
                if s.seen.iter().any(|x| !x.is_finite()) {
                    // A derivative the fit has no terms for is zero whatever is in the window.
                    return Out::Any;
                }
                // Derivatives are judged on the scale of what they are a difference of.
                let big = s.seen.iter().fold(0.0f64, |m, x| m.max(x.abs()));
                let mut out = vec![s.dot(0)];
                for o in 1..3 {
                    let size: f64 = s.weights[o].iter().map(|w| w.abs()).sum::<f64>() * big;
                    let want = s.dot(o);
                    match real {
                        Out::V(r) if (r[o] - want).abs() <= 1e-8 * size => out.push(r[o]),
                        _ => out.push(want),
                    }
                }
                return Out::V(out);
            }
            s.value()
        }
        1 => {
            s.seen.clear();
            v(0.0)
        }
        50 => s.value(),
        51 => match s.kind {
            Win::Fit { read, dt, .. } => v((s.len - 1 - read) as f64 * dt),
            _ => Out::Any,
        },
        _ => Out::Any,
    }
});

fn mean_params(r: &mut Rng, bad: bool) -> Vec<f64> {
    vec![if bad { 3.0 } else { r.below(3) as f64 }]
}
fn mean_real(p: &[f64]) -> MadeReal {
    match p[0] as i64 {
        0 => boxed(say(MovingAverage::<1, f64>::new())),
        1 => boxed(say(MovingAverage::<4, f64>::new())),
        2 => boxed(say(MovingAverage::<9, f64>::new())),
        _ => match MovingAverage::<0, f64>::new() {
            Ok(_) => Err("a window of nothing was accepted".into()),
            Err(e) => Err(format!("{e:?}")),
        },
    }
}
fn mean_model(p: &[f64]) -> MadeModel {
    match p[0] as i64 {
        n @ 0..=2 => modelled(Ok(WindowModel::new([1, 4, 9][n as usize], Win::Mean))),
        _ => Err("WindowTooShort".into()),
    }
}
fn median_params(r: &mut Rng, bad: bool) -> Vec<f64> {
    vec![if bad { 3.0 + r.below(2) as f64 } else { r.below(3) as f64 }]
}
fn median_real(p: &[f64]) -> MadeReal {
    match p[0] as i64 {
        0 => boxed(say(RunningMedian::<1, f64>::new())),
        1 => boxed(say(RunningMedian::<3, f64>::new())),
        2 => boxed(say(RunningMedian::<7, f64>::new())),
        3 => Err(RunningMedian::<0, f64>::new().map(|_| ()).map_or_else(|e| format!("{e:?}"), |_| "accepted".into())),
        _ => Err(RunningMedian::<4, f64>::new().map(|_| ()).map_or_else(|e| format!("{e:?}"), |_| "accepted".into())),
    }
}
fn median_model(p: &[f64]) -> MadeModel {
    match p[0] as i64 {
        n @ 0..=2 => modelled(Ok(WindowModel::new([1, 3, 7][n as usize], Win::Median))),
        3 => Err("WindowTooShort".into()),
        _ => Err("WindowEvenLength".into()),
    }
}

// params: which size, centered, dt
const FITS: [(usize, usize); 10] =
    [(1, 1), (3, 1), (3, 2), (3, 3), (4, 2), (5, 3), (6, 3), (7, 3), (9, 4), (11, 3)];
fn fit_params(r: &mut Rng, bad: bool) -> Vec<f64> {
    let n = r.below(10);
    let odd = FITS[n].0 % 2 == 1;
    let mut p = vec![n as f64, if odd && r.chance(0.5) { 1.0 } else { 0.0 }, r.log_range(1e-3, 1.0)];
    if bad {
        match r.below(3) {
            0 => p = vec![10.0 + r.below(4) as f64, f64::from(u8::from(r.chance(0.5))), 0.01],
            1 => p = vec![4.0, 1.0, 0.01],
            _ => spoil(r, &mut p, &[(2, NF), (2, 0.0), (2, -1.0)]),
        }
    }
    p
}
macro_rules! fit_real {
    ($p:expr, $($n:literal $w:literal $t:literal),*) => {
        match $p[0] as i64 {
            $($n => boxed(say(if $p[1] > 0.5 {
                SavitzkyGolay::<$w, $t, f64>::centered($p[2])
            } else {
                SavitzkyGolay::<$w, $t, f64>::latest($p[2])
            })),)*
            10 => Err(say(SavitzkyGolay::<3, 5, f64>::latest($p[2])).map_or_else(|e| e, |_| "accepted".into())),
            11 => Err(say(SavitzkyGolay::<0, 1, f64>::latest($p[2])).map_or_else(|e| e, |_| "accepted".into())),
            12 => Err(say(SavitzkyGolay::<3, 0, f64>::latest($p[2])).map_or_else(|e| e, |_| "accepted".into())),
            _ => Err(say(SavitzkyGolay::<0, 0, f64>::latest($p[2])).map_or_else(|e| e, |_| "accepted".into())),
        }
    };
}
fn fit_real(p: &[f64]) -> MadeReal {
    fit_real!(p, 0 1 1, 1 3 1, 2 3 2, 3 3 3, 4 4 2, 5 5 3, 6 6 3, 7 7 3, 8 9 4, 9 11 3)
}
fn fit_model(p: &[f64]) -> MadeModel {
    let n = p[0] as usize;
    if n >= 10 {
        return Err(if n == 10 { "PolynomialOrderTooHigh" } else { "WindowTooShort" }.into());
    }
    let (w, terms) = FITS[n];
    if p[1] > 0.5 && w % 2 == 0 {
        return Err("WindowEvenLength".into());
    }
    if !p[2].is_finite() {
        return Err("NonFinite".into());
    }
    if p[2] <= 0.0 {
        return Err("NonPositiveTimestep".into());
    }
    let read = if p[1] > 0.5 { w / 2 } else { w - 1 };
    modelled(Ok(WindowModel::new(w, Win::Fit { terms, read, dt: p[2] })))
}
fn fit_call(r: &mut Rng, _p: &[f64], t: f64, bad: bool) -> (usize, Vec<f64>) {
    match r.below(20) {
        0 => (50, vec![]),
        1 => (51, vec![]),
        _ => (0, vec![sample(r, t, bad)]),
    }
}

// ----- Conditioning -----

fn dead_params(r: &mut Rng, bad: bool) -> Vec<f64> {
    let mut p = vec![r.below(2) as f64, if r.chance(0.3) { *r.pick(&[0.0, 0.5, 1.0, 2.0]) } else { r.log_range(1e-3, 5.0) }];
    if bad {
        spoil(r, &mut p, &[(1, NF), (1, -0.1)]);
    }
    p
}
fn dead_real(p: &[f64]) -> MadeReal {
    boxed(say(if p[0] > 0.5 { Deadband::recentered(p[1]) } else { Deadband::plain(p[1]) }))
}
comp!(Deadband<f64>, |s, op, a| {
    match op {
        0 => v(s.apply(at(a, 0))),
        50 => v(s.threshold()),
        _ => Out::V(vec![]),
    }
});
#[derive(Clone)]
struct DeadModel(bool, f64);
fn dead_model(p: &[f64]) -> MadeModel {
    modelled((|| {
        limits(!p[1].is_finite(), "NonFinite")?;
        limits(p[1] < 0.0, "NegativeThreshold")?;
        Ok(DeadModel(p[0] > 0.5, p[1]))
    })())
}
model!(DeadModel, |s, op, a, _real| {
    match op {
        0 => {
            let x = at(a, 0);
            v(if x.is_nan() {
                x
            } else if x >= -s.1 && x <= s.1 {
                0.0
            } else if !s.0 {
                x
            } else if x > 0.0 {
                x - s.1
            } else {
                x + s.1
            })
        }
        50 => v(s.1),
        _ => Out::V(vec![]),
    }
});
fn edge_call(r: &mut Rng, p: &[f64], t: f64, bad: bool) -> (usize, Vec<f64>) {
    if r.chance(0.1) {
        return (50, vec![]);
    }
    if !bad && r.chance(0.3) {
        let k = *r.pick(p);
        return (0, vec![*r.pick(&[k, -k, k * (1.0 + 1e-12), k * (1.0 - 1e-12), k.next_up(), k.next_down()])]);
    }
    (0, vec![sample(r, t, bad)])
}
fn hyst_params(r: &mut Rng, bad: bool) -> Vec<f64> {
    let lo = if r.chance(0.3) { *r.pick(&[-1.0, 0.0, 0.5]) } else { r.range(-3.0, 2.0) };
    let mut p = vec![lo, lo + if r.chance(0.3) { 1.0 } else { r.log_range(1e-6, 4.0) }];
    if bad {
        let hi = p[1];
        spoil(r, &mut p, &[(0, NF), (1, NF), (1, lo), (1, lo - 1.0), (0, hi)]);
    }
    p
}
fn hyst_real(p: &[f64]) -> MadeReal {
    boxed(say(Hysteresis::new(p[0], p[1])))
}
comp!(Hysteresis<f64>, |s, op, a| {
    let b = |x: bool| v(x as i64 as f64);
    match op {
        0 => b(s.update(at(a, 0))),
        1 => {
            s.reset();
            b(s.is_high())
        }
        50 => b(s.is_high()),
        _ => Out::Any,
    }
});
#[derive(Clone)]
struct HystModel(f64, f64, bool);
fn hyst_model(p: &[f64]) -> MadeModel {
    modelled((|| {
        limits(!finite_all(p), "NonFinite")?;
        limits(p[0] >= p[1], "ThresholdsOutOfOrder")?;
        Ok(HystModel(p[0], p[1], false))
    })())
}
model!(HystModel, |s, op, a, _real| {
    match op {
        0 => {
            let x = at(a, 0);
            s.2 = (s.2 && !(x < s.0)) || (!s.2 && x > s.1);
        }
        1 => s.2 = false,
        50 => {}
        _ => return Out::Any,
    }
    v(s.2 as i64 as f64)
});
fn slew_params(r: &mut Rng, bad: bool) -> Vec<f64> {
    let mut p = vec![
        r.below(2) as f64,
        if r.chance(0.3) { 1.0 } else { r.log_range(1e-2, 1e3) },
        if r.chance(0.3) { 2.0 } else { r.log_range(1e-2, 1e3) },
        if r.chance(0.3) { 0.5 } else { r.log_range(1e-3, 1.0) },
    ];
    if bad {
        spoil(r, &mut p, &[(1, NF), (3, NF), (1, 0.0), (1, -1.0), (3, 0.0), (3, -1.0)]);
        if p[0] < 0.5 && r.chance(0.3) {
            p[1] = 1.0;
            p[3] = 0.5;
            p[2] = *r.pick(&[0.0, -1.0, f64::NAN]);
        }
    }
    p
}
fn slew_real(p: &[f64]) -> MadeReal {
    boxed(say(if p[0] > 0.5 { SlewRateLimiter::symmetric(p[1], p[3]) } else { SlewRateLimiter::new(p[1], p[2], p[3]) }))
}
comp!(SlewRateLimiter<f64>, |s, op, a| {
    match op {
        0 => v(s.filter(at(a, 0))),
        1 => {
            s.reset();
            v(s.value())
        }
        50 => v(s.value()),
        _ => Out::Any,
    }
});
#[derive(Clone)]
struct SlewModel {
    up: f64,
    down: f64,
    y: Option<f64>,
}
fn slew_model(p: &[f64]) -> MadeModel {
    modelled((|| {
        let down = if p[0] > 0.5 { p[1] } else { p[2] };
        limits(!p[1].is_finite() || !down.is_finite() || !p[3].is_finite(), "NonFinite")?;
        limits(p[3] <= 0.0, "NonPositiveTimestep")?;
        limits(p[1] <= 0.0 || down <= 0.0, "NonPositiveRate")?;
        Ok(SlewModel { up: p[1] * p[3], down: down * p[3], y: None })
    })())
}
model!(SlewModel, |s, op, a, _real| {
    match op {
        0 => {
            let x = at(a, 0);
            let y = match s.y {
                None => x,
                Some(y) if x.is_nan() || y.is_nan() => f64::NAN,
                // An infinite seed stays where it is or has no difference to follow.
                Some(y) if !y.is_finite() => {
                    s.y = Some(f64::NAN);
                    return Out::Any;
                }
                Some(y) => x.min(y + s.up).max(y - s.down),
            };
            s.y = Some(y);
            v(y)
        }
        1 => {
            s.y = None;
            v(0.0)
        }
        50 => match s.y {
            Some(y) if !y.is_finite() => Out::Any,
            y => v(y.unwrap_or(0.0)),
        },
        _ => Out::Any,
    }
});

// ----- Rotor lag and mixing -----

type Lag = RotorLag<4, f64>;
fn vec4(a: &[f64]) -> Vector<4, f64> {
    Vector::new([at(a, 0), at(a, 1), at(a, 2), at(a, 3)])
}
fn lag_params(r: &mut Rng, bad: bool) -> Vec<f64> {
    let mut p = vec![
        if r.chance(0.2) { 1.0 } else { r.log_range(1e-3, 10.0) },
        r.log_range(1e-4, 1.0),
        if r.chance(0.5) { 1.0 } else { 0.0 },
        r.range(0.0, 10.0),
        r.range(0.0, 10.0),
        r.range(0.0, 10.0),
        r.range(0.0, 10.0),
    ];
    if bad {
        spoil(r, &mut p, &[(0, NF), (1, NF), (0, 0.0), (0, -1.0), (1, 0.0), (1, -1.0)]);
    }
    p
}
fn lag_real(p: &[f64]) -> MadeReal {
    boxed(say(Lag::new(p[0], p[1])).map(|l| if p[2] > 0.5 { l.with_thrusts(vec4(&p[3..])) } else { l }))
}
comp!(Lag, |s, op, a| {
    let all = |x: Vector<4, f64>| Out::V(x.as_array().to_vec());
    match op {
        0 => all(s.stepped(vec4(a))),
        1 => {
            s.reset();
            all(s.thrusts())
        }
        2 => all(s.stepped_over(vec4(a), at(a, 4))),
        3 => {
            *s = s.with_thrusts(vec4(a));
            all(s.thrusts())
        }
        50 => all(s.thrusts()),
        51 => all(s.rate(vec4(a))),
        52 => Out::V(vec![s.time_constant(), s.timestep()]),
        _ => Out::Any,
    }
});
#[derive(Clone)]
struct LagModel {
    tau: f64,
    dt: f64,
    x: [f64; 4],
}
fn lag_model(p: &[f64]) -> MadeModel {
    modelled((|| {
        limits(!finite_all(&p[..2]), "NonFinite")?;
        limits(p[0] <= 0.0, "NonPositiveTimeConstant")?;
        limits(p[1] <= 0.0, "NonPositiveTimestep")?;
        let x = if p[2] > 0.5 { [p[3], p[4], p[5], p[6]] } else { [0.0; 4] };
        Ok(LagModel { tau: p[0], dt: p[1], x })
    })())
}
impl LagModel {
    fn go(&mut self, a: &[f64], dt: f64) -> Out {
        let left = (-dt / self.tau).exp();
        for i in 0..4 {
            // Exact answer of x' = (u - x) / tau over the step: the gap shrinks by `left`.
            let u = at(a, i);
            self.x[i] = u - (u - self.x[i]) * left;
        }
        Out::V(self.x.to_vec())
    }
}
model!(LagModel, |s, op, a, _real| {
    match op {
        0 => {
            let dt = s.dt;
            s.go(a, dt)
        }
        1 => {
            s.x = [0.0; 4];
            Out::V(s.x.to_vec())
        }
        2 => s.go(a, at(a, 4)),
        3 => {
            s.x = [at(a, 0), at(a, 1), at(a, 2), at(a, 3)];
            Out::V(s.x.to_vec())
        }
        50 => Out::V(s.x.to_vec()),
        51 => Out::V((0..4).map(|i| (at(a, i) - s.x[i]) / s.tau).collect()),
        52 => Out::V(vec![s.tau, s.dt]),
        _ => Out::Any,
    }
});
fn lag_call(r: &mut Rng, _p: &[f64], _t: f64, bad: bool) -> (usize, Vec<f64>) {
    let mut u: Vec<f64> = (0..4).map(|_| if r.chance(0.2) { 0.0 } else { r.range(-1.0, 12.0) }).collect();
    if bad {
        u[r.below(4)] = r.broken();
    }
    match r.below(16) {
        0 => (50, vec![]),
        1 => {
            u.iter_mut().for_each(|x| if !x.is_finite() { *x = 0.0 });
            (51, u)
        }
        2 => (52, vec![]),
        3 => (3, u),
        4..=8 => {
            u.push(if r.chance(0.1) { 0.0 } else { r.log_range(1e-5, 5.0) });
            (2, u)
        }
        _ => (0, u),
    }
}

// params: layout kind(0 general 4, 1 general 6, 2 quadrotor_x), kappa, min, max, arm, then x y z spin per rotor
#[derive(Clone)]
enum Mix {
    Four(MultirotorMixer<4, f64>),
    Six(MultirotorMixer<6, f64>),
}
fn mix_params(r: &mut Rng, bad: bool) -> Vec<f64> {
    let kind = r.below(3);
    let mut p = vec![kind as f64, r.log_range(1e-3, 0.5), if r.chance(0.5) { 0.0 } else { -r.range(0.0, 5.0) }, r.range(1.0, 20.0), r.log_range(0.05, 2.0)];
    let n = if kind == 1 { 6 } else { 4 };
    let arm = p[4];
    for i in 0..n {
        let ang = TAU * (i as f64 + 0.5) / n as f64 + 0.2 * r.normal() * (kind != 2) as i64 as f64;
        let len = arm * r.range(0.8, 1.2);
        p.extend([len * ang.cos(), len * ang.sin(), 0.1 * r.normal(), (i % 2) as f64]);
    }
    if bad {
        match r.below(3) {
            // Every rotor turning the same way leaves turning and pushing tied together.
            0 if kind != 2 => {
                for i in 0..n {
                    p[5 + 4 * i + 3] = 1.0;
                }
            }
            // Every rotor on one line cannot turn the craft about it.
            1 if kind != 2 => {
                for i in 0..n {
                    p[5 + 4 * i + 1] = 0.0;
                }
            }
            _ => {
                let mut c = vec![(1, NF), (2, NF), (3, NF), (1, 0.0), (1, -0.1), (3, -100.0)];
                if kind == 2 {
                    c.extend([(4, NF), (4, 0.0), (4, -1.0)]);
                } else {
                    c.push((5 + 4 * r.below(n), NF));
                }
                spoil(r, &mut p, &c);
            }
        }
    }
    p
}
fn mix_real(p: &[f64]) -> MadeReal {
    fn general<const N: usize>(p: &[f64]) -> Result<MultirotorMixer<N, f64>, String> {
        say(MultirotorMixer::<N, f64>::new(
            std::array::from_fn(|i| Vector::new([p[5 + 4 * i], p[6 + 4 * i], p[7 + 4 * i]])),
            std::array::from_fn(|i| if p[8 + 4 * i] > 0.5 { RotorSpin::CounterClockwise } else { RotorSpin::Clockwise }),
            p[1],
            p[2],
            p[3],
        ))
    }
    boxed(match p[0] as i64 {
        0 => general::<4>(p).map(Mix::Four),
        1 => general::<6>(p).map(Mix::Six),
        _ => say(MultirotorMixer::quadrotor_x(p[4], p[1], p[2], p[3])).map(Mix::Four),
    })
}
macro_rules! with_mix {
    ($s:expr, $m:ident, $body:expr) => {
        match $s {
            Mix::Four($m) => $body,
            Mix::Six($m) => $body,
        }
    };
}
comp!(Mix, |s, op, a| {
    with_mix!(s, m, match op {
        0 => {
            let c = m.rotor_thrusts(at(a, 0), Vector::new([at(a, 1), at(a, 2), at(a, 3)]));
            let mut out = c.thrusts().as_array().to_vec();
            out.push(c.saturated() as i64 as f64);
            // What those thrusts make, by the mixer's own account.
            let w = m.wrench(c.thrusts());
            let (f, q) = (w.force(), w.torque());
            out.extend([f[0], f[1], f[2], q[0], q[1], q[2]]);
            Out::V(out)
        }
        50 => Out::V(vec![m.minimum_thrust(), m.maximum_thrust()]),
        _ => Out::V(vec![]),
    })
});
#[derive(Clone)]
struct MixModel {
    a: Mat,
    pinv: Mat,
    lo: f64,
    hi: f64,
}
fn mix_model(p: &[f64]) -> MadeModel {
    modelled((|| {
        let quad = p[0] >= 2.0;
        if quad {
            limits(!p[4].is_finite(), "NonFinite")?;
            limits(p[4] <= 0.0, "NonPositiveArmLength")?;
        }
        limits(!finite_all(&p[1..4]), "NonFinite")?;
        limits(!quad && !finite_all(&p[5..]), "NonFinite")?;
        limits(p[1] <= 0.0, "NonPositiveTorqueRatio")?;
        limits(p[3] <= p[2], "InvalidThrustLimits")?;
        let rotors: Vec<(f64, f64, f64)> = if quad {
            let h = p[4] * 0.5f64.sqrt();
            vec![(h, -h, 1.0), (-h, h, 1.0), (h, h, -1.0), (-h, -h, -1.0)]
        } else {
            p[5..].chunks(4).map(|c| (c[0], c[1], if c[3] > 0.5 { -1.0 } else { 1.0 })).collect()
        };
        // Thrust up at (x, y): torque r x F = (y F, -x F), and the drag of the spin about z.
        let a = Mat::from_fn(4, rotors.len(), |i, j| {
            let (x, y, s) = rotors[j];
            [1.0, y, -x, s * p[1]][i]
        });
        let gram = a.mul(&a.t());
        let scale = 1.0 / gram.max_abs();
        let singular = {
            // Independent directions: the smallest eigenvalue of the scaled Gram matrix.
            let d: Vec<f64> = (0..4).map(|i| gram.at(i, i).sqrt()).collect();
            if d.iter().any(|x| *x <= 0.0) {
                true
            } else {
                let n = Mat::from_fn(4, 4, |i, j| gram.at(i, j) / (d[i] * d[j]));
                crate::refs::eigen(&n).0.iter().any(|e| e.abs() < 1e-9)
            }
        };
        let _ = scale;
        limits(singular, "RotorLayoutNotIndependent")?;
        let pinv = a.t().mul(&gram.inv().ok_or("gram")?);
        Ok(MixModel { a, pinv, lo: p[2], hi: p[3] })
    })())
}
model!(MixModel, |s, op, a, real| {
    match op {
        0 => {
            if !finite_all(a) {
                return Out::Any;
            }
            let want = s.pinv.mul(&Mat::col(a)).d;
            let size = s.pinv.max_abs() * a.iter().fold(1.0f64, |m, x| m.max(x.abs()));
            let mut sat = false;
            let mut unsure = false;
            let mut out: Vec<f64> = want
                .iter()
                .map(|&x| {
                    unsure |= (x - s.lo).abs().min((x - s.hi).abs()) <= 1e-9 * size;
                    sat |= x < s.lo || x > s.hi;
                    x.max(s.lo).min(s.hi)
                })
                .collect();
            if let Out::V(r) = real {
                if unsure {
                    sat = r[want.len()] > 0.5;
                }
                // Thrusts near enough, then the wrench of exactly those.
                for (w, g) in out.iter_mut().zip(r) {
                    if (*w - g).abs() <= 1e-8 * size {
                        *w = *g;
                    }
                }
            }
            let made = s.a.mul(&Mat::col(&out)).d;
            out.push(sat as i64 as f64);
            out.extend([0.0, 0.0, made[0], made[1], made[2], made[3]]);
            Out::V(out)
        }
        50 => Out::V(vec![s.lo, s.hi]),
        _ => Out::V(vec![]),
    }
});
fn mix_call(r: &mut Rng, p: &[f64], _t: f64, bad: bool) -> (usize, Vec<f64>) {
    if r.chance(0.05) {
        return (50, vec![]);
    }
    let hi = p[3];
    let big = if r.chance(0.4) { 3.0 } else { 0.3 };
    let arm = if p[4].is_finite() { p[4] } else { 1.0 };
    let mut a = vec![
        if r.chance(0.2) { 0.0 } else { r.range(0.0, 4.0 * hi) },
        big * arm * hi * r.normal() * 0.3,
        big * arm * hi * r.normal() * 0.3,
        big * p[1] * hi * r.normal() * 0.3,
    ];
    if r.chance(0.2) {
        a[1] = 0.0;
        a[2] = 0.0;
        a[3] = 0.0;
    }
    if bad {
        a[r.below(4)] = r.broken();
    }
    (0, a)
}

// ----- Groups -----

macro_rules! kind {
    ($name:literal, $params:ident, $real:ident, $model:ident, $call:ident, $tol:expr) => {
        Kind { name: $name, params: $params, real: $real, model: Some($model), call: $call, tol: $tol }
    };
}
pub static PID: [Kind; 1] = [kind!("pid", pid_params, pid_real, pid_model, pid_call, 1e-8)];
pub static RECURSIVE: [Kind; 4] = [
    kind!("one-pole", pole_params, pole_real, pole_model, scalar_call, 1e-9),
    kind!("biquad", biquad_params, biquad_real, biquad_model, biquad_call, 1e-7),
    kind!("biquad cascade", cascade_params, cascade_real, cascade_model, cascade_call, 1e-6),
    kind!("channels", channels_params, channels_real, channels_model, channels_call, 1e-7),
];
pub static WINDOWS: [Kind; 3] = [
    kind!("moving average", mean_params, mean_real, mean_model, scalar_call, 1e-12),
    kind!("running median", median_params, median_real, median_model, scalar_call, 0.0),
    kind!("savitzky-golay", fit_params, fit_real, fit_model, fit_call, 1e-8),
];
pub static CONDITIONING: [Kind; 3] = [
    kind!("deadband", dead_params, dead_real, dead_model, edge_call, 1e-13),
    kind!("hysteresis", hyst_params, hyst_real, hyst_model, edge_call, 0.0),
    kind!("slew limiter", slew_params, slew_real, slew_model, scalar_call, 1e-12),
];
pub static ROTORS: [Kind; 2] = [
    kind!("rotor lag", lag_params, lag_real, lag_model, lag_call, 1e-10),
    kind!("mixer", mix_params, mix_real, mix_model, mix_call, 1e-8),
];

pub static PID_WORLD: Components = Components { name: "pid", kinds: || &PID, mode: Mode::Model };
pub static RECURSIVE_WORLD: Components =
    Components { name: "recursive-filters", kinds: || &RECURSIVE, mode: Mode::Model };
pub static WINDOW_WORLD: Components = Components { name: "window-filters", kinds: || &WINDOWS, mode: Mode::Model };
pub static CONDITIONING_WORLD: Components =
    Components { name: "conditioning", kinds: || &CONDITIONING, mode: Mode::Model };
pub static ROTOR_WORLD: Components = Components { name: "rotors", kinds: || &ROTORS, mode: Mode::Model };
