//! A continuous system read by a sampled loop: its sampled model has to land where the system itself
//! does, however the ticks are spaced, split, repeated or broken.

use crate::conv::*;
use crate::core::*;
use crate::ensure;
use crate::refs::*;
use multicalc::discretization::{q_discrete_white_noise, van_loan, zoh};
use multicalc::error::LinalgError;
use multicalc::linear_algebra::Matrix;

pub struct Held;

fn fit<const A: usize, const B: usize>(m: &Mat) -> Matrix<A, B> {
    Matrix::from_fn(|i, j| m.at(i, j))
}

/// The power series of a small enough part of the step, and doubling up from there: the whole
/// step's motion, what a held input adds, and what unsteady forcing adds up to. No exponential of
/// the backward motion is taken.
fn walk(a: &Mat, b: &Mat, q: &Mat, dt: f64) -> (Mat, Mat, Mat) {
    let n = a.r;
    let size = a.max_abs() * n as f64 * dt;
    let halvings = if size > 0.05 { (size / 0.05).log2().ceil() as i32 } else { 0 };
    let h = dt / 2f64.powi(halvings);
    let x = a.scale(h);
    let (mut f, mut s) = (Mat::eye(n), Mat::eye(n));
    let mut term = Mat::eye(n);
    for k in 1..14 {
        term = term.mul(&x).scale(1.0 / k as f64);
        f = f.add(&term);
        s = s.add(&term.scale(1.0 / (k + 1) as f64));
    }
    let mut g = s.scale(h).mul(b);
    // The forcing's own series: each derivative of its sum is the motion applied on both sides.
    let mut d = q.clone();
    let mut sum = Mat::zeros(n, n);
    let mut w = h;
    for k in 1..14 {
        sum = sum.add(&d.scale(w));
        d = a.mul(&d).add(&d.mul(&a.t()));
        w *= h / (k + 1) as f64;
    }
    for _ in 0..halvings {
        g = f.mul(&g).add(&g);
        sum = f.mul(&sum).mul(&f.t()).add(&sum);
        f = f.mul(&f);
    }
    (f, g, sum.sym())
}

fn go<const N: usize, const M: usize, const NM: usize, const N2: usize>(t: &Trace, cx: &mut Cx) -> R {
    let a = Mat::from_fn(N, N, |i, j| t.c(1 + i * N + j));
    let b = Mat::from_fn(N, M, |i, j| t.c(1 + N * N + i * M + j));
    let root = Mat::from_fn(N, N, |i, j| t.c(1 + N * N + N * M + i * N + j));
    let q = root.mul(&root.t()).sym();
    let (la, lb, lq): (Matrix<N, N>, Matrix<N, M>, Matrix<N, N>) = (fit(&a), fit(&b), fit(&q));
    let mut x = vec![1.0; N];
    let mut truth = Mat::from_fn(N, 1, |_, _| 1.0);
    let mut drift = 0.0;
    let mut p = Mat::zeros(N, N);
    let told = |dt: f64| format!("A {a:?} B {b:?} Q {q:?} dt {dt:e}");
    for e in &t.evs {
        cx.step(e.k);
        let dt = e.n(0);
        match e.k {
            "broken" => {
                cx.fault("a timestep that is none");
                let bad = if dt >= 0.0 && dt.is_finite() { -1e-9 - dt } else { dt };
                ensure!(matches!(zoh::<N, M, NM, f64>(la, lb, bad), Err(LinalgError::InvalidTimestep)), "a step that is none is taken | {bad}");
                ensure!(matches!(van_loan::<N, N2, f64>(la, lq, bad), Err(LinalgError::InvalidTimestep)), "a forced step that is none is taken | {bad}");
            }
            "endless" => {
                cx.fault("a tick longer than numbers can follow");
                let dt = dt.abs();
                if let Ok((f, g)) = zoh::<N, M, NM, f64>(la, lb, dt) {
                    ensure!(m2(&f).finite() && m2(&g).finite(), "a sampled model that is no number is handed out | {}", told(dt));
                }
                if let Ok((f, s)) = van_loan::<N, N2, f64>(la, lq, dt) {
                    ensure!(m2(&f).finite() && m2(&s).finite(), "a forced model that is no number is handed out | {}", told(dt));
                }
            }
            "hurt" => {
                cx.fault("a model not finite");
                let (i, j) = (e.u(1) % N, e.u(2) % N);
                let bad = if e.n(3).is_finite() { f64::NAN } else { e.n(3) };
                let (mut ha, mut hb, mut hq) = (la, lb, lq);
                ha[(i, j)] = bad;
                hb[(i, j % M)] = bad;
                hq[(i, j)] = bad;
                if dt > 0.0 && dt.is_finite() {
                    ensure!(matches!(zoh::<N, M, NM, f64>(ha, lb, dt), Err(LinalgError::NonFinite)) && matches!(zoh::<N, M, NM, f64>(la, hb, dt), Err(LinalgError::NonFinite)), "a model that is not finite is stepped | {} at {i},{j}", told(dt));
                    ensure!(matches!(van_loan::<N, N2, f64>(ha, lq, dt), Err(LinalgError::NonFinite)) && matches!(van_loan::<N, N2, f64>(la, hq, dt), Err(LinalgError::NonFinite)), "a forced model that is not finite is stepped | {} at {i},{j}", told(dt));
                }
            }
            _ => {
                let parts = if e.k == "split" { e.u(1).clamp(2, 6) } else { 1 };
                if !(dt >= 0.0 && dt.is_finite()) {
                    continue;
                }
                let reach = a.max_abs() * N as f64 * dt;
                // Far ticks are for systems that do not run away over them: their forced model loses
                // all its digits, so only the held one is looked at.
                let far = reach > 30.0;
                let chain = (0..N).all(|i| (0..=i).all(|j| a.at(i, j) == 0.0));
                if far && !chain {
                    let (spread, _) = eigen(&a.add(&a.t()).scale(0.5));
                    if spread.iter().any(|v| v * dt > 5.0) || reach > 1e5 {
                        continue;
                    }
                }
                match e.k {
                    _ if far => {}
                    "split" => cx.fault("a tick split in several"),
                    "repeat" => cx.fault("a tick come twice"),
                    _ => {}
                }
                let u: Vec<f64> = (0..M).map(|i| e.n(2 + i)).collect();
                let (f, g, s) = walk(&a, &b, &q, dt);
                let (lf, lg) = match zoh::<N, M, NM, f64>(la, lb, dt) {
                    Ok(v) => v,
                    Err(err) => return Err(format!("a sound model is refused | {err:?} {}", told(dt))),
                };
                let (lf, lg) = (m2(&lf), m2(&lg));
                // What rounding may cost: once for each doubling, on numbers of this size.
                let size = f.max_abs().max(1.0);
                let doublings = 4.0 + (reach + b.max_abs() * dt).max(1.0).log2().ceil();
                let tol = 2e-14 * N as f64 * 2f64.powf(doublings) * size;
                let gsize = g.max_abs().max(b.max_abs() * dt * 1e-3);
                ensure!(lf.sub(&f).max_abs() <= tol, "the sampled model moves elsewhere than the system | {lf:?} want {f:?} {}", told(dt));
                ensure!(lg.sub(&g).max_abs() <= tol * (gsize + 1e-12 * dt.min(1.0)), "a held input moves the sampled model elsewhere | {lg:?} want {g:?} {}", told(dt));
                if chain {
                    // Nothing but sums of products of the same sign: every entry keeps its digits.
                    for i in 0..N {
                        for j in 0..N {
                            ensure!((lf.at(i, j) - f.at(i, j)).abs() <= 1e-10 * f.at(i, j).abs(), "a chain's own motion loses its digits | {lf:?} want {f:?} {}", told(dt));
                        }
                    }
                    cx.reach("a bare chain");
                }
                if far {
                    cx.fault("a tick of many times the system's own time");
                    cx.reach("far");
                    continue;
                }
                // Forcing: the backward motion the method takes costs digits of its own.
                let (back, _, _) = walk(&a.scale(-1.0), &b, &q, dt);
                let (vf, vq) = match van_loan::<N, N2, f64>(la, lq, dt) {
                    Ok(v) => (m2(&v.0), m2(&v.1)),
                    Err(err) => return Err(format!("a sound forced model is refused | {err:?} {}", told(dt))),
                };
                let lost = back.max_abs().max(1.0) * size;
                let doublings = doublings + (q.max_abs() * dt).max(1.0).log2().ceil();
                let tolv = 2e-14 * N as f64 * 2f64.powf(doublings) * lost;
                if tolv < 1e-4 {
                    ensure!(vf.sub(&f).max_abs() <= tolv * size, "a forced model moves elsewhere than the system | {vf:?} want {f:?} {}", told(dt));
                    let ssize = s.max_abs().max(q.max_abs() * dt * 1e-6);
                    ensure!(vq.sub(&s).max_abs() <= tolv * ssize * size, "what forcing adds up to is wrong | {vq:?} want {s:?} {} tol {tolv:e}", told(dt));
                    let (low, _) = eigen(&vq.sym());
                    ensure!(low.iter().all(|v| *v >= -tolv * ssize * size * 4.0), "what forcing adds up to is no covariance | {vq:?} {}", told(dt));
                    cx.reach("forced");
                }
                if dt == 0.0 {
                    ensure!(lf == Mat::eye(N) && lg.max_abs() == 0.0 && vq.max_abs() == 0.0, "a tick of no length moves something | {lf:?} {lg:?} {vq:?}");
                    cx.reach("no time passed");
                }
                // The loop's own state, stepped in one go or in parts, follows the system's.
                let dtp = dt / parts as f64;
                let mut psum = Mat::zeros(N, N);
                let (mut pf, mut pg) = (Mat::eye(N), Mat::zeros(N, M));
                for _ in 0..parts {
                    let Ok((sf, sg)) = zoh::<N, M, NM, f64>(la, lb, dtp) else {
                        return Err(format!("part of a sound step is refused | {}", told(dtp)));
                    };
                    let Ok((_, sq)) = van_loan::<N, N2, f64>(la, lq, dtp) else {
                        return Err(format!("part of a sound forced step is refused | {}", told(dtp)));
                    };
                    let (sf, sg, sq) = (m2(&sf), m2(&sg), m2(&sq));
                    let y = sf.mul(&Mat::col(&x)).add(&sg.mul(&Mat::col(&u)));
                    x = (0..N).map(|i| y.at(i, 0)).collect();
                    p = sf.mul(&p).mul(&sf.t()).add(&sq).sym();
                    psum = sf.mul(&psum).mul(&sf.t()).add(&sq);
                    pg = sf.mul(&pg).add(&sg);
                    pf = sf.mul(&pf);
                }
                if parts > 1 {
                    ensure!(pf.sub(&f).max_abs() <= tol * 4.0 && pg.sub(&g).max_abs() <= 4.0 * tol * (gsize + 1e-12 * dt.min(1.0)), "a tick in parts is not the tick | {pf:?} {pg:?} want {f:?} {g:?} {}", told(dt));
                    if tolv < 1e-4 {
                        ensure!(psum.sub(&s).max_abs() <= 4.0 * tolv * size * s.max_abs().max(q.max_abs() * dt * 1e-6), "what forcing adds up to in parts is not the whole | {psum:?} want {s:?} {}", told(dt));
                    }
                    cx.reach("stepped in parts");
                }
                truth = f.mul(&truth).add(&g.mul(&Mat::col(&u)));
                drift = drift * size * N as f64 + 8.0 * tol * (truth.max_abs() + u.iter().fold(0.0f64, |m, v| m.max(v.abs())) * (gsize + dt));
                ensure!(Mat::col(&x).sub(&truth).max_abs() <= drift, "the loop's state leaves the system's | {x:?} want {truth:?} {}", told(dt));
                if truth.max_abs() > 1e6 || drift > 1e-4 {
                    x = vec![1.0; N];
                    truth = Mat::from_fn(N, 1, |_, _| 1.0);
                    drift = 0.0;
                }
                if p.max_abs() > 1e6 {
                    p = Mat::zeros(N, N);
                }
                cx.sim_time += dt;
                cx.log(x[0]);
                cx.log(vq.at(0, 0));
            }
        }
        // The chain of integrators' closed form: one white push held over the tick.
        let v = 0.3 + e.n(1).abs().min(10.0);
        let dt = if dt.is_finite() { dt.abs().min(1e30) } else { 0.5 };
        chain::<2>(dt, v)?;
        chain::<3>(dt, v)?;
        chain::<4>(dt, v)?;
        cx.state(&[hash_str(e.k) as i64 & 0xff, (dt + 1e-12).log2() as i64, (truth.max_abs() + 1e-9).log2() as i64]);
    }
    Ok(())
}

/// How a push moves each of the chain's states over the tick: once held, or for the longer chains
/// set at its start.
fn chain<const D: usize>(dt: f64, v: f64) -> R {
    let q = q_discrete_white_noise::<D, f64>(dt, v);
    let push: Vec<f64> = (0..D)
        .map(|i| {
            let k = if D == 2 { 2 - i } else { D - 1 - i };
            (1..=k).fold(1.0, |w, n| w * dt / n as f64)
        })
        .collect();
    for i in 0..D {
        for j in 0..D {
            let want = push[i] * push[j] * v;
            ensure!((q[(i, j)] - want).abs() <= 1e-13 * want.abs() + 1e-300, "a chain's noise is not one push's | {D} at {i},{j} {} want {want} dt {dt:e}", q[(i, j)]);
        }
    }
    Ok(())
}

impl World for Held {
    fn name(&self) -> &'static str {
        "sampled model"
    }
    /// cfg: shape, A, B, the root of the forcing
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        let shape = r.below(4);
        let (n, m) = [(1, 1), (2, 1), (3, 2), (4, 2)][shape];
        t.cfg.push(shape as f64);
        let kind = r.below(4);
        let rate = *r.pick(&[0.3, 1.0, 1.0, 10.0, 100.0]);
        for i in 0..n {
            for j in 0..n {
                t.cfg.push(match kind {
                    // A chain of integrators, a chain with drag, a swinging one, and anything.
                    0 => if j == i + 1 { 1.0 } else { 0.0 },
                    1 => if j == i + 1 { rate } else if i == j { -rate * r.unit() } else { 0.0 },
                    2 => if j == i + 1 { rate } else if i == j + 1 { -rate } else { 0.0 },
                    _ => rate * r.range(-1.0, 1.0),
                });
            }
        }
        let gain = r.log_range(1e-3, 1e2);
        for _ in 0..n * m {
            t.cfg.push(gain * r.range(-1.0, 1.0));
        }
        let noise = r.log_range(1e-3, 1e1);
        let last = r.chance(0.4);
        for i in 0..n {
            for _ in 0..n {
                t.cfg.push(if last && i + 1 < n { 0.0 } else { noise * r.range(-1.0, 1.0) });
            }
        }
        let tick = r.log_range(1e-4, 0.5);
        let mut held = 0.0;
        for _ in 0..r.int(2, 14) {
            let mut a = vec![tick * r.range(0.2, 2.0), r.int(2, 6) as f64];
            a.extend((0..m).map(|_| r.range(-3.0, 3.0)));
            match r.below(13) {
                12 => t.evs.push(ev("endless", &[r.log_range(1.0, 1e300)])),
                0 => t.evs.push(ev("broken", &[if r.chance(0.5) { r.broken() } else { -r.log_range(1e-12, 1.0) }, 0.0])),
                1 => t.evs.push(ev("hurt", &[a[0], r.below(4) as f64, r.below(4) as f64, r.broken()])),
                2 => {
                    a[0] = 0.0;
                    t.evs.push(ev("tick", &a));
                }
                3 => {
                    // A tick long missed.
                    let most = *r.pick(&[300.0, 1e6]);
                    a[0] *= r.log_range(1.0, most);
                    t.evs.push(ev("tick", &a));
                }
                4 | 5 => {
                    a[0] *= r.log_range(1.0, 10.0);
                    t.evs.push(ev("split", &a));
                }
                6 => {
                    a[0] = held;
                    t.evs.push(ev("repeat", &a));
                }
                7 => {
                    a[0] = r.log_range(1e-12, 1e-5);
                    t.evs.push(ev("tick", &a));
                }
                _ => t.evs.push(ev("tick", &a)),
            }
            held = a[0];
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        match t.cu(0) {
            0 => go::<1, 1, 2, 2>(t, cx),
            1 => go::<2, 1, 3, 4>(t, cx),
            2 => go::<3, 2, 5, 6>(t, cx),
            _ => go::<4, 2, 6, 8>(t, cx),
        }
    }
}
