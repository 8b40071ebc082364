//! The particle filter with every draw of randomness, every model call and every score behind a seam.

use crate::conv::*;
use crate::core::*;
use crate::ensure;
use crate::refs::*;
use crate::worlds::kalman::{Fun, Oracle, fun, spd};
use multicalc::error::EstimationError;
use multicalc::estimation::{GaussianLikelihood, ParticleFilter, ResamplingScheme};
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::random::RandomSource;
use std::cell::RefCell;
use std::rc::Rc;

/// A random source the simulator decides: ordinary draws, or the extremes a real one can produce.
pub struct Tape {
    rng: Rng,
    rough: f64,
    pub log: Vec<f64>,
    pub edges: u64,
}

#[derive(Clone)]
pub struct Script(pub Rc<RefCell<Tape>>);

impl Script {
    pub fn new(seed: u64, rough: f64) -> Script {
        Script(Rc::new(RefCell::new(Tape { rng: Rng::new(seed), rough, log: Vec::new(), edges: 0 })))
    }
}

impl RandomSource<f64> for Script {
    fn next_u32(&mut self) -> u32 {
        self.0.borrow_mut().rng.u64() as u32
    }
    fn next_unit(&mut self) -> f64 {
        let mut t = self.0.borrow_mut();
        let p = t.rough;
        let v = if t.rng.chance(p) {
            t.edges += 1;
            *t.rng.pick(&[0.0, 1.0 - f64::EPSILON / 2.0, 0.5, 0.25])
        } else {
            t.rng.unit()
        };
        t.log.push(v);
        v
    }
    fn standard_normal(&mut self) -> f64 {
        let mut t = self.0.borrow_mut();
        let p = t.rough;
        let v = if t.rng.chance(p) {
            t.edges += 1;
            *t.rng.pick(&[0.0, 8.5, -8.5])
        } else {
            t.rng.normal()
        };
        t.log.push(v);
        v
    }
    fn get_cache(&mut self) -> Option<f64> {
        None
    }
    fn set_cache(&mut self, _value: f64) {}
}

const SCHEMES: [ResamplingScheme; 4] = [
    ResamplingScheme::Systematic,
    ResamplingScheme::Stratified,
    ResamplingScheme::Multinomial,
    ResamplingScheme::Residual,
];

/// Which sources each slot may hold, given the draws. `None` where rounding leaves it open.
pub fn allowed(scheme: usize, w: &[f64], count: usize, draws: &[f64]) -> Result<Vec<Vec<usize>>, String> {
    let eps = 1e-9;
    let covers = |w: &[f64], p: f64| -> Vec<usize> {
        let mut out = Vec::new();
        let mut low = 0.0;
        for (s, &v) in w.iter().enumerate() {
            let high = low + v;
            if v > 0.0 && p >= low - eps && p <= high + eps {
                out.push(s);
            }
            low = high;
        }
        // A draw at the very end of the line lands on whatever is last.
        if p >= low - eps {
            out.push(w.len() - 1);
        }
        out
    };
    let n = count as f64;
    match scheme {
        0 => {
            let offset = *draws.first().ok_or("systematic resampling drew nothing | ")?;
            Ok((0..count).map(|k| covers(w, (offset + k as f64) / n)).collect())
        }
        1 => {
            if draws.len() < count {
                return Err("stratified resampling drew too little | ".into());
            }
            Ok((0..count).map(|k| covers(w, (draws[k] + k as f64) / n)).collect())
        }
        2 => {
            if draws.len() < count {
                return Err("multinomial resampling drew too little | ".into());
            }
            Ok((0..count).map(|k| covers(w, draws[k])).collect())
        }
        _ => {
            if w.iter().any(|v| {
                let x = v * n;
                x > 1e-9 && (x - x.round()).abs() < 1e-9
            }) {
                // How many whole copies a source gets hangs on rounding; the count check covers it.
                return Ok(vec![(0..w.len()).collect(); count]);
            }
            let mut out = Vec::new();
            for (s, v) in w.iter().enumerate() {
                for _ in 0..(v * n).floor() as usize {
                    out.push(vec![s]);
                }
            }
            let rest: Vec<f64> = w.iter().map(|v| (v * n) - (v * n).floor()).collect();
            let total: f64 = rest.iter().sum();
            let rest: Vec<f64> = rest.iter().map(|v| v / total).collect();
            let left = count.saturating_sub(out.len());
            if draws.len() < left {
                return Err("residual resampling drew too little | ".into());
            }
            for d in draws.iter().take(left) {
                out.push(covers(&rest, *d));
            }
            Ok(out)
        }
    }
}

/// cfg: dim variant, model seed, count, scheme, threshold fraction (negative: default), roughening, tape seed, rough draws
fn drive<const N: usize, const M: usize>(t: &Trace, cx: &mut Cx, oracle: Oracle) -> R {
    let mut r = Rng::new(t.c(1) as u64);
    let mean0: Vector<N> = Vector::from_fn(|_| r.range(-1.0, 1.0));
    let p0: Matrix<N, N> = spd(&mut r, 0.01, 1.0);
    let mut q: Matrix<N, N> = spd(&mut r, 0.001, 0.3);
    let rr: Matrix<M, M> = spd(&mut r, 0.003, 0.3);
    let f: Fun<N, N> = fun(&mut r, 0.8, true);
    let h: Fun<N, M> = fun(&mut r, 1.0, true);
    let count = t.cu(2).max(1);
    let scheme = t.cu(3) % 4;
    let threshold = if t.c(4) < 0.0 { 0.5 * count as f64 } else { t.c(4) * count as f64 };
    let roughening = t.c(5);
    let tape = Script::new(t.c(6) as u64, t.c(7));
    let tape_b = Script::new(t.c(6) as u64, t.c(7));
    let build = |s: Script| -> Result<ParticleFilter<N, M, f64, Script>, String> {
        let mut pf = ParticleFilter::<N, M, f64, Script>::from_random(count, mean0, p0, q, s)
            .map_err(|e| format!("particle: a sound filter was refused | {e:?}"))?
            .with_resampling(SCHEMES[scheme]);
        if t.c(4) >= 0.0 {
            pf = pf.with_resample_threshold(threshold);
        }
        if roughening > 0.0 {
            pf = pf.with_roughening(roughening);
        }
        Ok(pf)
    };
    let mut a = build(tape.clone())?;
    let mut b = build(tape_b.clone())?;
    let gauss = GaussianLikelihood::<M>::new(rr).map_err(|e| format!("particle: sound noise was refused | {e:?}"))?;
    let r_inv = m2(&rr).inv().expect("positive definite");

    // The starting cloud.
    let l0 = m2(&p0).chol().expect("positive definite");
    {
        let log = std::mem::take(&mut tape.0.borrow_mut().log);
        ensure!(log.len() >= count * N, "particle: the starting cloud drew too little | {}", log.len());
        for (i, x) in a.particles().iter().enumerate() {
            let want = Mat::col(mean0.as_slice()).add(&l0.mul(&Mat::col(&log[i * N..(i + 1) * N])));
            ensure!(
                all_close(x.as_slice(), &want.d, 1e-10, 1e-10),
                "particle: the starting cloud is not the mean plus the factored draws | particle {i}"
            );
        }
        ensure!(a.particles().len() == count && a.weights().len() == count, "particle: wrong cloud size | ");
    }
    ensure!(
        a.weights().iter().all(|w| close(*w, 1.0 / count as f64, 1e-12, 0.0)),
        "particle: the starting weights are not even | "
    );

    let flat = |pf: &ParticleFilter<N, M, f64, Script>| -> Vec<f64> {
        let mut o: Vec<f64> = pf.particles().iter().flat_map(|p| p.as_slice().to_vec()).collect();
        o.extend(pf.weights());
        o
    };

    for e in &t.evs {
        cx.step(e.k);
        tape.0.borrow_mut().log.clear();
        let before = flat(&a);
        let old: Vec<Vector<N>> = a.particles().to_vec();
        let w0: Vec<f64> = a.weights().to_vec();
        let mut must_reject = false;
        let mut scores: Option<Vec<f64>> = None;
        let mut forced = false;
        let mut predicted = false;
        let z: Vector<M> = Vector::from_fn(|i| e.n(i));
        // Scores for the closure form: an ordinary field with planted extremes.
        let mut custom: Vec<f64> = Vec::new();
        let got: Option<Result<(), EstimationError>> = match e.k {
            "predict" => {
                predicted = true;
                Some(a.predict(&f))
            }
            "fbad" => {
                f.arm(e.u(0), e.u(1));
                predicted = true;
                let got = a.predict(&f);
                if f.fired.get() {
                    cx.fault("process-model-broke");
                    must_reject = true;
                }
                f.arm(0, 0);
                Some(got)
            }
            "read" | "late" | "dup" => {
                match e.k {
                    "late" => cx.fault("reading-delayed"),
                    "dup" => cx.fault("reading-duplicated"),
                    _ => {}
                }
                let s: Vec<f64> = old
                    .iter()
                    .map(|x| {
                        let y: Vec<f64> = h.eval_ref(x.as_slice()).iter().zip(z.as_slice()).map(|(p, z)| z - p).collect();
                        let y = Mat::col(&y);
                        -0.5 * y.t().mul(&r_inv).mul(&y).at(0, 0)
                    })
                    .collect();
                scores = Some(s);
                Some(a.update(&h, &gauss, z))
            }
            "zbad" => {
                must_reject = !z.is_finite();
                if must_reject {
                    cx.fault("reading-not-finite");
                }
                Some(a.update(&h, &gauss, z))
            }
            "score" => {
                // seed, how spread, which particle is odd, how odd
                let mut r2 = Rng::new(e.n(0) as u64);
                custom = (0..count).map(|_| r2.range(-1.0, 0.0) * e.n(1)).collect();
                if e.n(2) >= 0.0 {
                    let odd = match e.u(3) {
                        0 => f64::NAN,
                        1 => f64::INFINITY,
                        _ => f64::NEG_INFINITY,
                    };
                    cx.fault("score-not-finite");
                    custom[e.u(2) % count] = odd;
                    if e.u(3) < 2 {
                        must_reject = true;
                    }
                }
                if e.u(4) == 1 {
                    cx.fault("no-particle-explains-it");
                    custom.fill(f64::NEG_INFINITY);
                    must_reject = true;
                }
                if e.u(4) == 2 {
                    cx.fault("one-particle-explains-it");
                    custom.fill(-800.0);
                    custom[e.u(2).max(1) % count] = 0.0;
                }
                let mut at = 0;
                let got = a.update_with_log_weights(|_| {
                    at += 1;
                    custom[at - 1]
                });
                if custom.iter().all(|v| *v == f64::NEG_INFINITY) {
                    must_reject = true;
                }
                scores = Some(custom.clone());
                Some(got)
            }
            "resample" => {
                forced = true;
                a.resample();
                cx.reach("resample-forced");
                Some(Ok(()))
            }
            "setq" => {
                q = Matrix::from_fn(|i, j| q[(i, j)] * e.n(0));
                Some(a.set_process_noise(q))
            }
            "qbad" => {
                cx.fault("noise-indefinite");
                must_reject = true;
                Some(a.set_process_noise(Matrix::from_fn(|i, j| if i == j { -1.0 } else { 0.0 })))
            }
            "lost" => {
                cx.fault("reading-lost");
                None
            }
            _ => None,
        };
        let after = flat(&a);
        cx.logs(&after);
        let log = tape.0.borrow().log.clone();
        if let Some(got) = got {
            if must_reject {
                ensure!(got.is_err(), "particle: an input or score that is not usable was accepted | at {}", e.k);
            } else {
                ensure!(got.is_ok(), "particle: a sound call was rejected | at {} {got:?}", e.k);
            }
            if got.is_err() {
                ensure!(
                    all_same(&before, &after),
                    "particle: a rejected call changed the cloud or its weights | at {} {got:?}",
                    e.k
                );
                cx.reach("call-rejected");
                let mut tb = tape_b.0.borrow_mut();
                tb.rng = tape.0.borrow().rng.clone();
            } else if oracle == Oracle::Twin {
                let other = match e.k {
                    "predict" | "fbad" => b.predict(&f),
                    "read" | "late" | "dup" | "zbad" => b.update(&h, &gauss, z),
                    "score" => {
                        let mut at = 0;
                        b.update_with_log_weights(|_| {
                            at += 1;
                            custom[at - 1]
                        })
                    }
                    "resample" => {
                        b.resample();
                        Ok(())
                    }
                    "setq" => b.set_process_noise(q),
                    _ => Ok(()),
                };
                ensure!(other.is_ok(), "particle: a call succeeds only after earlier rejected calls | {other:?}");
            }
            if oracle == Oracle::Twin {
                ensure!(
                    all_same(&after, &flat(&b)),
                    "particle: a rejected call left a trace in a later estimate | at {}",
                    e.k
                );
            }
        }
        ensure!(a.particles().len() == count && a.weights().len() == count, "particle: the cloud changed size | at {}", e.k);
        if oracle == Oracle::Textbook && matches!(got, Some(Ok(()))) {
            if predicted {
                let l = m2(&q).chol().expect("positive definite");
                ensure!(log.len() >= count * N, "particle: a predict drew too little | ");
                for (i, x) in a.particles().iter().enumerate() {
                    let want = Mat::col(&f.eval_ref(old[i].as_slice())).add(&l.mul(&Mat::col(&log[i * N..(i + 1) * N])));
                    ensure!(
                        all_close(x.as_slice(), &want.d, 1e-10, 1e-10),
                        "particle: a predicted particle is not the model's answer plus the factored draw | particle {i} got {x:?} want {:?}",
                        want.d
                    );
                }
                ensure!(all_same(a.weights(), &w0), "particle: a predict changed the weights | ");
            }
            let mut now = w0.clone();
            let mut resampled = forced;
            let mut unsure = false;
            if let Some(scores) = scores {
                let lw: Vec<f64> = w0
                    .iter()
                    .zip(&scores)
                    .map(|(w, s)| (if *w == 0.0 { f64::MIN_POSITIVE } else { *w }).ln() + s)
                    .collect();
                let top = lw.iter().copied().fold(f64::NEG_INFINITY, f64::max);
                let raw: Vec<f64> = lw.iter().map(|l| (l - top).exp()).collect();
                let sum: f64 = raw.iter().sum();
                now = raw.iter().map(|v| v / sum).collect();
                if w0.iter().zip(&now).any(|(w, p)| *w < 1e-290 && *p > 1e-12) {
                    // How far an underflowed weight recovers is the library's own choice.
                    cx.reach("dead-particle-revived");
                    continue;
                }
                let ess = 1.0 / now.iter().map(|w| w * w).sum::<f64>();
                unsure = close(ess, threshold, 1e-7, 1e-9);
                resampled = if unsure {
                    a.weights().iter().all(|w| close(*w, 1.0 / count as f64, 1e-12, 0.0))
                } else {
                    ess < threshold
                };
                if !resampled {
                    ensure!(
                        a.weights().iter().zip(&now).all(|(x, y)| close(*x, *y, 1e-7, 1e-290)),
                        "particle: the weights are not the old ones times the likelihood, normalized | ess {ess} threshold {threshold} got {:?} want {now:?}",
                        a.weights()
                    );
                    ensure!(
                        all_same(&after[..count * N], &before[..count * N]),
                        "particle: an update without resampling moved the particles | "
                    );
                } else {
                    cx.reach("resampled");
                }
            }
            if resampled && !unsure {
                ensure!(
                    a.weights().iter().all(|w| close(*w, 1.0 / count as f64, 1e-12, 0.0)),
                    "particle: the weights are not even after resampling | {:?}",
                    a.weights()
                );
                let slots = allowed(scheme, &now, count, &log)?;
                let used = match scheme {
                    0 => 1,
                    3 => log.len(),
                    _ => count,
                };
                if roughening > 0.0 {
                    cx.reach("roughened");
                    // Recover the picks from a cloud that was jittered afterwards.
                    let tail: Vec<f64> = match scheme {
                        3 => {
                            let whole: usize = now.iter().map(|w| (w * count as f64).floor() as usize).sum();
                            log.iter().copied().skip(count.saturating_sub(whole)).collect()
                        }
                        _ => log.iter().copied().skip(used).collect(),
                    };
                    if slots.iter().all(|s| s.len() == 1) {
                        let picked: Vec<Vector<N>> = slots.iter().map(|s| old[s[0]]).collect();
                        let mut at = 0;
                        for axis in 0..N {
                            let lo = picked.iter().map(|p| p[axis]).fold(f64::INFINITY, f64::min);
                            let hi = picked.iter().map(|p| p[axis]).fold(f64::NEG_INFINITY, f64::max);
                            let scale = roughening * (hi - lo);
                            for (i, p) in picked.iter().enumerate() {
                                let mut want = p[axis];
                                if scale > 0.0 {
                                    ensure!(at < tail.len(), "particle: roughening drew too little | ");
                                    want += scale * tail[at];
                                    at += 1;
                                }
                                ensure!(
                                    close(a.particles()[i][axis], want, 1e-10, 1e-10),
                                    "particle: a roughened particle is not its source plus the scaled draw | particle {i} axis {axis} got {} want {want}",
                                    a.particles()[i][axis]
                                );
                            }
                        }
                    }
                } else {
                    for (i, x) in a.particles().iter().enumerate() {
                        ensure!(
                            slots[i].iter().any(|&s| all_same(old[s].as_slice(), x.as_slice())),
                            "particle: a resampled slot does not hold the source its draw picks | scheme {:?} slot {i} may hold {:?} weights {now:?} draws {log:?}",
                            SCHEMES[scheme],
                            slots[i]
                        );
                    }
                    // Whole copies are guaranteed by three of the schemes.
                    if scheme != 2 && old.iter().enumerate().all(|(i, x)| old.iter().skip(i + 1).all(|y| x != y)) {
                        for (s, w) in now.iter().enumerate() {
                            let have = a.particles().iter().filter(|p| **p == old[s]).count() as f64;
                            let fair = w * count as f64;
                            let least = match scheme {
                                1 => (fair - 1e-9).floor() - 1.0,
                                _ => (fair - 1e-9).floor(),
                            };
                            ensure!(
                                have >= least,
                                "particle: a heavy particle got fewer copies than its weight guarantees | scheme {:?} weight {w} copies {have}",
                                SCHEMES[scheme]
                            );
                        }
                    }
                }
            }
        }
        // What must hold after anything at all.
        let w = a.weights();
        let sum: f64 = w.iter().sum();
        ensure!(
            (sum - 1.0).abs() < 1e-9 && w.iter().all(|v| *v >= 0.0 && v.is_finite()),
            "particle: the weights are not a distribution | sum {sum} {w:?}"
        );
        ensure!(
            a.particles().iter().all(|p| p.is_finite()),
            "particle: the cloud holds a particle that is not finite | after {}",
            e.k
        );
        let ess = 1.0 / w.iter().map(|v| v * v).sum::<f64>();
        ensure!(close(a.effective_sample_size(), ess, 1e-9, 0.0), "particle: effective sample size is wrong | want {ess}");
        let mean = a.mean();
        let mut want = [0.0; N];
        for (p, v) in a.particles().iter().zip(w) {
            for k in 0..N {
                want[k] += v * p[k];
            }
        }
        ensure!(all_close(mean.as_slice(), &want, 1e-9, 1e-9), "particle: the mean is not the weighted mean | {mean:?} {want:?}");
        let top = w.iter().copied().fold(0.0, f64::max);
        let best = a.maximum_a_posteriori_state();
        ensure!(
            a.particles().iter().zip(w).any(|(p, v)| *v == top && all_same(p.as_slice(), best.as_slice())),
            "particle: the likeliest state is not a heaviest particle | "
        );
        cx.state(&[N as i64, scheme as i64, (ess * 8.0 / count as f64) as i64, (count as f64).log2() as i64, i64::from(roughening > 0.0)]);
    }
    if tape.0.borrow().edges > 0 {
        cx.fault("extreme-random-draw");
    }
    Ok(())
}

fn schedule(r: &mut Rng) -> Trace {
    let variant = r.below(4);
    let m = [1, 1, 2, 2][variant];
    let n = [1, 2, 3, 2][variant];
    let count = *r.pick(&[1, 2, 3, 5, 8, 16, 25, 40]);
    let mut t = Trace {
        cfg: vec![
            variant as f64,
            (r.u64() >> 12) as f64,
            count as f64,
            r.below(4) as f64,
            *r.pick(&[-1.0, -1.0, 0.0, 0.3, 0.9, 1.1]),
            *r.pick(&[0.0, 0.0, 0.1]),
            (r.u64() >> 12) as f64,
            *r.pick(&[0.0, 0.02, 0.2]),
        ],
        evs: Vec::new(),
    };
    let calm = r.chance(0.1);
    let p: Vec<f64> = (0..9)
        .map(|_| if calm || r.chance(0.4) { 0.0 } else { r.range(0.02, 0.25) })
        .collect();
    for _ in 0..r.int(3, 25) {
        if r.chance(p[0]) {
            t.evs.push(ev("fbad", &[r.int(1, count) as f64, r.below(3) as f64]));
        }
        t.evs.push(ev("predict", &[]));
        let z: Vec<f64> = (0..m).map(|_| r.range(-1.5, 1.5)).collect();
        if r.chance(p[1]) {
            t.evs.push(ev("lost", &[]));
            continue;
        }
        if r.chance(p[2]) {
            let mut b = z.clone();
            let k = r.below(m);
            b[k] = r.broken();
            t.evs.push(ev("zbad", &b));
        }
        if r.chance(p[3]) {
            t.evs.push(ev(
                "score",
                &[(r.u64() >> 12) as f64, r.log_range(0.1, 30.0), r.below(count) as f64, r.below(3) as f64, 0.0],
            ));
        }
        if r.chance(p[4] * 0.5) {
            t.evs.push(ev("score", &[1.0, 1.0, -1.0, 0.0, 1.0]));
        }
        if r.chance(p[5]) {
            t.evs.push(ev("score", &[1.0, 1.0, -1.0, 0.0, 2.0]));
        }
        if r.chance(p[6]) {
            t.evs.push(ev("qbad", &[]));
        }
        if r.chance(0.3) {
            t.evs.push(ev("score", &[(r.u64() >> 12) as f64, r.log_range(0.1, 30.0), -1.0, 0.0, 0.0]));
        } else {
            t.evs.push(ev(if r.chance(0.1) { "late" } else { "read" }, &z));
            if r.chance(p[7]) {
                t.evs.push(ev("dup", &z));
            }
        }
        if r.chance(0.1) {
            t.evs.push(ev("resample", &[]));
        }
        if r.chance(0.05) {
            t.evs.push(ev("setq", &[r.range(0.5, 1.5)]));
        }
    }
    let _ = n;
    t
}

pub struct Particles(pub Oracle);

impl World for Particles {
    fn name(&self) -> &'static str {
        if self.0 == Oracle::Twin { "particle-twin" } else { "particle" }
    }
    fn generate(&self, r: &mut Rng) -> Trace {
        schedule(r)
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        match t.cu(0) {
            0 => drive::<1, 1>(t, cx, self.0),
            1 => drive::<2, 1>(t, cx, self.0),
            2 => drive::<3, 2>(t, cx, self.0),
            _ => drive::<2, 2>(t, cx, self.0),
        }
    }
}
