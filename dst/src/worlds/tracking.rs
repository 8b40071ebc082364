//! A tracker following a turning vehicle with the ready-made models, its fixes lost, late, unwrapped or broken.

use crate::core::*;
use crate::ensure;
use multicalc::error::EstimationError;
use multicalc::estimation::{ConstantTurnAndSpeed, DirectMeasurement, ExtendedKalmanFilter, residual_with_wrapped_angles};
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::scalar::VectorFn;
use std::f64::consts::{PI, TAU};

pub struct Tracker;

fn sinc(x: f64) -> f64 {
    if x.abs() < 1e-4 { 1.0 - x * x / 6.0 } else { x.sin() / x }
}

/// The chord of the arc: half-angle form, sound at any turn rate.
fn arc(s: &[f64], dt: f64) -> [f64; 5] {
    let half = 0.5 * s[4] * dt;
    let chord = s[3] * dt * sinc(half);
    [s[0] + chord * (s[2] + half).cos(), s[1] + chord * (s[2] + half).sin(), s[2] + s[4] * dt, s[3], s[4]]
}

fn wrap(a: f64) -> f64 {
    a - TAU * (a / TAU).round()
}

fn step_holds(real: &[f64; 5], from: &[f64], dt: f64) -> R {
    let want = arc(from, dt);
    let told = || format!("from {from:?} over {dt} got {real:?} want {want:?}");
    let w = from[4].abs();
    // Below a millionth the model straightens the arc, above it the radius costs digits.
    let slack = if w <= 1.001e-6 { from[3].abs() * dt * dt * w } else { 1e-15 * (from[3] / w).abs() * (1.0 + from[2].abs()) };
    let tol = 1e-12 * (1.0 + from[0].abs() + from[1].abs() + (from[3] * dt).abs() * (1.0 + from[2].abs())) + 2.0 * slack;
    ensure!((real[0] - want[0]).abs() <= tol && (real[1] - want[1]).abs() <= tol, "tracking model: leaves the arc | {}", told());
    ensure!(real[2].abs() <= PI * (1.0 + 1e-12), "tracking model: a heading beyond half a turn | {}", told());
    ensure!(wrap(real[2] - want[2]).abs() <= 1e-12 * (1.0 + want[2].abs()), "tracking model: not the heading turned to | {}", told());
    ensure!(real[3] == from[3] && real[4] == from[4], "tracking model: the speed or turn rate does not hold | {}", told());
    Ok(())
}

impl World for Tracker {
    fn name(&self) -> &'static str {
        "tracker"
    }
    /// cfg: dt, the vehicle's five, the guess's five, seven sensed components
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        t.cfg.push(r.range(0.05, 0.2));
        let rate = match r.below(5) {
            0 => 0.0,
            1 => r.sign() * r.log_range(1e-9, 1e-3),
            _ => r.range(-1.0, 1.0),
        };
        let truth = [r.range(-5.0, 5.0), r.range(-5.0, 5.0), r.range(-PI, PI), r.range(0.3, 3.0), rate];
        t.cfg.extend(truth);
        t.cfg.extend([r.range(-0.5, 0.5), r.range(-0.5, 0.5), r.range(-0.3, 0.3), r.range(-0.2, 0.2), r.range(-0.1, 0.1)]);
        for _ in 0..r.int(0, 40) {
            match r.below(9) {
                0 => t.evs.push(ev("lost", &[r.int(1, 10) as f64])),
                1 => t.evs.push(ev("bad", &[r.below(3) as f64, r.broken()])),
                2 => t.evs.push(ev("laps", &[r.int(0, 6) as f64 - 3.0])),
                3 => {
                    let (size, dt) = (r.log_range(1e-3, 1e3), r.log_range(1e-3, 10.0));
                    let w = match r.below(4) {
                        0 => r.sign() * r.log_range(1e-9, 1e-5),
                        1 => 0.0,
                        _ => r.range(-3.0, 3.0),
                    };
                    t.evs.push(ev("roll", &[dt, r.range(-size, size), r.range(-size, size), r.range(-4.0, 4.0), r.range(-size, size), w]));
                }
                4 => {
                    let a: Vec<f64> = (0..6).map(|i| if i % 3 == 0 { r.range(-10.0, 10.0) } else { r.range(-1e3, 1e3) }).collect();
                    let mut a = a;
                    a.push(r.below(8) as f64);
                    t.evs.push(ev("residual", &a));
                }
                5 => t.evs.push(ev("sensor", &[r.below(7) as f64, r.below(7) as f64, r.below(7) as f64])),
                _ => t.evs.push(ev("tick", &[r.int(1, 20) as f64])),
            }
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        let dt = t.c(0);
        if !(dt > 0.0) {
            return Ok(());
        }
        let model = ConstantTurnAndSpeed { timestep: dt };
        let fix = DirectMeasurement::<5, 3>::try_new([0, 1, 2]).map_err(|e| format!("tracking model: a sensor is refused | {e:?}"))?;
        ensure!(fix.indices() == [0, 1, 2], "tracking model: not the components asked for | {:?}", fix.indices());
        let mut truth: [f64; 5] = std::array::from_fn(|i| t.c(1 + i));
        let guess: [f64; 5] = std::array::from_fn(|i| truth[i] + t.c(6 + i));
        let mut f = ExtendedKalmanFilter::<5, 3>::new(
            Vector::new(guess),
            Matrix::from_diagonal([0.5, 0.5, 0.2, 0.2, 0.1]),
            Matrix::from_diagonal([1e-4, 1e-4, 1e-4, 1e-3, 1e-3]),
            Matrix::from_diagonal([1e-2, 1e-2, 1e-2]),
        );
        let mut laps = 0.0;
        let tick = |truth: &mut [f64; 5], f: &mut ExtendedKalmanFilter<5, 3>, reading: Option<f64>| -> R {
            let before = *truth;
            *truth = model.eval(&before);
            step_holds(truth, &before, dt)?;
            f.predict(&model).map_err(|e| format!("tracker: a predict is refused | {e:?}"))?;
            if let Some(laps) = reading {
                let z = Vector::new([truth[0], truth[1], truth[2] + laps * TAU]);
                let state = f.state();
                let seen = Vector::new(fix.eval(state.as_array()));
                ensure!(seen[0] == state[0] && seen[1] == state[1] && seen[2] == state[2], "tracking model: a sensor reads other components than asked | {seen:?} {state:?}");
                let y = residual_with_wrapped_angles(z, seen, &[2]);
                ensure!(y[2].abs() <= PI * (1.0 + 1e-12), "tracker: a heading residual beyond half a turn | {y:?}");
                f.update_with_residual(&fix, y).map_err(|e| format!("tracker: a fix is refused | {e:?}"))?;
            }
            Ok(())
        };
        for e in &t.evs {
            cx.step(e.k);
            match e.k {
                "lost" => {
                    cx.fault("fixes lost");
                    for _ in 0..e.u(0).min(10) {
                        tick(&mut truth, &mut f, None)?;
                    }
                }
                "bad" => {
                    cx.fault("fix not finite");
                    let mut y = Vector::zeros();
                    y[e.u(0) % 3] = e.n(1);
                    if !e.n(1).is_finite() {
                        let before = f.state();
                        ensure!(f.update_with_residual(&fix, y).is_err(), "tracker: a residual that is not finite is taken");
                        ensure!(all_same(before.as_slice(), f.state().as_slice()), "tracker: a refused fix moved the guess");
                    }
                }
                "laps" => {
                    cx.fault("heading counted in whole turns");
                    laps = e.n(0);
                }
                "roll" => {
                    let from = [e.n(1), e.n(2), e.n(3), e.n(4), e.n(5)];
                    if e.n(0) > 0.0 {
                        let got = ConstantTurnAndSpeed { timestep: e.n(0) }.eval(&from);
                        cx.logs(&got);
                        cx.reach(if from[4].abs() > 1e-6 { "rolled along an arc" } else { "rolled straight" });
                        step_holds(&got, &from, e.n(0))?;
                    }
                }
                "residual" => {
                    let (a, b) = ([e.n(0), e.n(1), e.n(2)], [e.n(3), e.n(4), e.n(5)]);
                    let mask = e.u(6);
                    let list: Vec<usize> = (0..3).filter(|i| mask & (1 << i) != 0).collect();
                    let got = residual_with_wrapped_angles(Vector::new(a), Vector::new(b), &list);
                    for i in 0..3 {
                        let d = a[i] - b[i];
                        if list.contains(&i) {
                            let k = ((d - got[i]) / TAU).round();
                            let whole = ((d - got[i]) - k * TAU).abs() <= 1e-12 * (1.0 + d.abs());
                            ensure!(whole && got[i].abs() <= PI * (1.0 + 1e-9), "tracking model: an angle is not folded into half a turn | {a:?} {b:?} {list:?} got {got:?}");
                        } else {
                            ensure!(got[i] == d, "tracking model: a plain component is not the difference | {a:?} {b:?} {list:?} got {got:?}");
                        }
                    }
                }
                "sensor" => {
                    let ix = [e.u(0), e.u(1), e.u(2)];
                    let got = DirectMeasurement::<5, 3>::try_new(ix);
                    if ix.iter().any(|i| *i >= 5) {
                        ensure!(matches!(got, Err(EstimationError::StateIndexOutOfRange)), "tracking model: a sensor of what is not there | {ix:?} {got:?}");
                    } else {
                        let m = got.map_err(|e| format!("tracking model: a sound sensor is refused | {ix:?} {e:?}"))?;
                        let got = m.eval(&truth);
                        ensure!((0..3).all(|i| got[i] == truth[ix[i]]), "tracking model: a sensor reads other components than asked | {ix:?} of {truth:?} got {got:?}");
                    }
                }
                _ => {
                    for _ in 0..e.u(0).min(20) {
                        tick(&mut truth, &mut f, Some(laps))?;
                    }
                }
            }
            cx.state(&[hash_str(e.k) as i64 & 0xff, (truth[2] * 8.0) as i64, (f.covariance()[(2, 2)].log2()) as i64]);
        }
        // Once the fixes come, the guess closes in on the vehicle.
        for _ in 0..400 {
            tick(&mut truth, &mut f, Some(laps))?;
        }
        let s = f.state();
        cx.logs(s.as_slice());
        let off = (0..5).map(|i| if i == 2 { wrap(s[i] - truth[i]).abs() } else { (s[i] - truth[i]).abs() }).fold(0.0, f64::max);
        ensure!(off < 0.02, "tracker: does not close in on the vehicle once the fixes come | truth {truth:?} guess {s:?}");
        Ok(())
    }
}
