//! A regulator's loop: the gain is the cheapest there is, and what it certifies settles.

use crate::conv::*;
use crate::core::*;
use crate::ensure;
use crate::refs::*;
use multicalc::control::Lqr;
use multicalc::error::{ControlError, LinalgError};
use multicalc::linear_algebra::{Matrix, Vector};

pub struct Loop;

fn fit<const A: usize, const B: usize>(m: &Mat) -> Matrix<A, B> {
    Matrix::from_fn(|i, j| m.at(i, j))
}
fn fro(m: &Mat, r: usize, c: usize) -> f64 {
    (0..r).flat_map(|i| (0..c).map(move |j| (i, j))).map(|(i, j)| m.at(i, j) * m.at(i, j)).sum::<f64>().sqrt()
}

/// One pass of the equation, in the form that keeps what it makes positive.
fn pass(a: &Mat, b: &Mat, q: &Mat, r: &Mat, p: &Mat) -> Option<(Mat, Mat)> {
    let w = r.add(&b.t().mul(p).mul(b));
    let k = w.inv()?.mul(&b.t().mul(p).mul(a));
    let c = a.sub(&b.mul(&k));
    Some((c.t().mul(p).mul(&c).add(&k.t().mul(r).mul(&k)).add(q).sym(), k))
}

/// The cheapest cost, by taking one step of the future at a time: also how fast it settles.
fn cheapest(a: &Mat, b: &Mat, q: &Mat, r: &Mat, n: usize) -> Option<(Mat, Mat, usize)> {
    let mut p = q.clone();
    for k in 0..600 {
        let (next, gain) = pass(a, b, q, r, &p)?;
        if !next.finite() {
            return None;
        }
        let moved = fro(&next.sub(&p), n, n);
        let size = fro(&next, n, n);
        p = next;
        if moved <= 1e-14 * size {
            return Some((p, gain, k));
        }
    }
    None
}

struct Case {
    a: Mat,
    b: Mat,
    q: Mat,
    r: Mat,
}

fn case(t: &Trace, n: usize, m: usize) -> Case {
    let mut at = 2;
    let mut take = |r: usize, c: usize| {
        let o = Mat::from_fn(r, c, |i, j| t.c(at + i * c + j));
        at += r * c;
        o
    };
    let a = take(n, n);
    let b = take(n, m);
    let q = take(n, n);
    let r = take(m, m);
    Case { a, b, q, r }
}

fn go<const N: usize, const M: usize>(t: &Trace, cx: &mut Cx) -> R {
    let Case { a, b, q, r } = case(t, N, M);
    let unit = t.c(1);
    if !(unit > 0.0) {
        return Ok(());
    }
    let (q, r) = (q.t().mul(&q).scale(unit).sym(), r.t().mul(&r).add(&Mat::eye(M).scale(1e-2)).scale(unit).sym());
    let told = || format!("A {a:?} B {b:?} Q {q:?} R {r:?}");
    let made = Lqr::<N, M>::new(fit(&a), fit(&b), fit(&q), fit(&r));
    let best = cheapest(&a, &b, &q, &r, N);
    // How much the answer moves when its terms are rounded, by the size of the terms it is the difference of.
    let (p_size, loopy) = match &best {
        Some((p, _, k)) => (fro(p, N, N), *k),
        None => (0.0, 600),
    };
    let hard = 1.0 + fro(&a, N, N).powi(2);
    let lqr = match (made, &best) {
        (Ok(l), _) => l,
        (Err(_), None) => {
            cx.reach("no cheapest law found");
            return Ok(());
        }
        (Err(e), Some(_)) => {
            let s = r.add(&b.t().mul(&best.as_ref().unwrap().0).mul(&b));
            let (ev, _) = eigen(&s);
            let (lo, hi) = ev.iter().fold((f64::MAX, 0.0f64), |x, v| (x.0.min(*v), x.1.max(*v)));
            let (qe, _) = eigen(&q);
            let (qlo, qhi) = qe.iter().fold((f64::MAX, 0.0f64), |x, v| (x.0.min(*v), x.1.max(*v)));
            // Costs that hardly see some direction, or a law at the edge of settling, may be given up on.
            if loopy > 200 || hi > 1e6 * lo || p_size > 1e6 * unit || qlo < 1e-4 * qhi {
                cx.reach("a hard system refused");
                return Ok(());
            }
            return Err(format!("regulator: a system that can be settled is refused | {e:?} {}", told()));
        }
    };
    let (p, k, c) = (m2(&lqr.cost_to_go()), m2(&lqr.gain()), m2(&lqr.closed_loop()));
    for i in 0..M {
        for j in 0..N {
            cx.log(k.at(i, j));
        }
    }
    ensure!(p.finite() && k.finite(), "regulator: a law that is not finite | {}", told());
    let size = fro(&p, N, N);
    // The law is the one its cost to go asks for, and the loop is the system under it.
    let (again, want_k) = match pass(&a, &b, &q, &r, &p) {
        Some(v) => v,
        None => return Ok(()),
    };
    let k_size = 1.0 + fro(&want_k, M, N);
    ensure!(fro(&k.sub(&want_k), M, N) <= 1e-7 * k_size * hard, "regulator: the gain is not the one its cost to go asks for | {k:?} want {want_k:?} {}", told());
    ensure!(c.sub(&a.sub(&b.mul(&k))).max_abs() <= 1e-12 * (1.0 + a.max_abs() + b.max_abs() * k.max_abs()), "regulator: the loop is not the system under its gain | {c:?} {}", told());
    ensure!(fro(&again.sub(&p), N, N) <= 1e-6 * hard * size, "regulator: the cost to go does not solve its equation | {p:?} {}", told());
    if let Some((truly, gain, loops)) = &best {
        if *loops < 200 && size < 1e6 * unit {
            ensure!(fro(&p.sub(truly), N, N) <= 1e-5 * hard * size, "regulator: the cost to go is not the cheapest | {p:?} want {truly:?} {}", told());
            ensure!(fro(&k.sub(gain), M, N) <= 1e-5 * hard * k_size, "regulator: the gain is not the cheapest | {k:?} want {gain:?} {}", told());
        }
    }
    // Whether the loop settles, by squaring it many times over.
    let mut power = c.clone();
    let mut radius = 0.0;
    let mut log_scale = 0.0;
    for i in 1..=24 {
        power = power.mul(&power);
        let f = fro(&power, N, N);
        log_scale = 2.0 * log_scale;
        if f == 0.0 || !f.is_finite() {
            radius = if f == 0.0 { 0.0 } else { f64::INFINITY };
            break;
        }
        log_scale += f.ln();
        power = power.scale(1.0 / f);
        radius = (log_scale / 2f64.powi(i)).exp();
    }
    let proof = lqr.certify_stability();
    let (qe, _) = eigen(&q);
    let (qlo, qhi) = qe.iter().fold((f64::MAX, 0.0f64), |x, v| (x.0.min(*v), x.1.max(*v)));
    match &proof {
        Ok(v) => {
            ensure!(radius < 1.0 + 1e-6, "regulator: a loop that does not settle is certified | radius {radius} {}", told());
            let v = m2(v);
            let left = c.t().mul(&v).mul(&c).sub(&v).add(&q);
            if radius < 0.999 {
                ensure!(fro(&left, N, N) <= 1e-9 * (1.0 + fro(&c, N, N).powi(2)) * fro(&v, N, N), "regulator: the proof does not solve its equation | {v:?} left {left:?} {}", told());
            }
            cx.reach("certified");
        }
        Err(e) => {
            ensure!(matches!(e, ControlError::Linalg(LinalgError::DidNotConverge { .. } | LinalgError::NotPositiveDefinite)), "regulator: refuses to certify for another reason | {e:?} {}", told());
            if radius < 0.999 && qlo > 1e-6 * qhi {
                return Err(format!("regulator: a loop that settles is not certified | {e:?} radius {radius} {}", told()));
            }
            cx.reach("not certified");
        }
    }
    let settles = radius < 0.98;
    let mut x = vec![0.0; N];
    let mut held: Option<Vector<M>> = None;
    for e in &t.evs {
        cx.step(e.k);
        let vec = |at: usize, n: usize| -> Vec<f64> { (0..n).map(|i| e.n(at + i)).collect() };
        let state = |x: &[f64]| Vector::<N>::from_fn(|i| x[i]);
        match e.k {
            "knock" => {
                cx.fault("state knocked");
                for (i, v) in vec(0, N).into_iter().enumerate() {
                    x[i] += v;
                }
                held = None;
            }
            "stall" => cx.fault("controller stalled"),
            "broken" => {
                cx.fault("reading not finite");
                let mut s = state(&x);
                s[e.u(0) % N] = e.n(1);
                let _ = lqr.control(s);
            }
            "refuse" => {
                let bad = if e.n(1).is_finite() { f64::NAN } else { e.n(1) };
                let (mut fa, mut fb, mut fq, mut fr): (Matrix<N, N>, Matrix<N, M>, Matrix<N, N>, Matrix<M, M>) = (fit(&a), fit(&b), fit(&q), fit(&r));
                let i = e.u(2) % N;
                let want = match e.u(0) % 7 {
                    0 => {
                        fa[(i, 0)] = bad;
                        LinalgError::NonFinite
                    }
                    1 => {
                        fb[(i, 0)] = bad;
                        LinalgError::NonFinite
                    }
                    2 => {
                        fq[(i, i)] = bad;
                        LinalgError::NonFinite
                    }
                    3 => {
                        fr[(0, 0)] = bad;
                        LinalgError::NonFinite
                    }
                    4 if N > 1 => {
                        fq[(i, (i + 1) % N)] += 1.0 + unit;
                        LinalgError::NotSymmetric
                    }
                    5 if M > 1 => {
                        fr[(0, 1)] += 1.0 + unit;
                        LinalgError::NotSymmetric
                    }
                    _ => {
                        fr[(0, 0)] = if bad > 0.0 { 0.0 } else { -unit };
                        LinalgError::NotPositiveDefinite
                    }
                };
                let got = Lqr::<N, M>::new(fa, fb, fq, fr);
                ensure!(matches!(&got, Err(ControlError::Linalg(w)) if *w == want), "regulator: costs or a system that cannot be used are not refused as documented | wanted {want:?} got {got:?}");
                cx.reach("refused");
            }
            "gamble" => {
                // No other run of inputs is cheaper than the law's, seen to the end by the cost to go.
                let steps = e.u(0).clamp(1, 6);
                let start = vec(1, N);
                let mut y = Mat::col(&start);
                let mut law = Mat::col(&start);
                let mut spent = 0.0;
                let mut spent_law = 0.0;
                let quad = |m: &Mat, v: &Mat| v.t().mul(m).mul(v).at(0, 0);
                for s in 0..steps {
                    let u_law = Mat::col(lqr.control(Vector::from_fn(|i| law.at(i, 0))).as_slice());
                    let u_mine = Mat::from_fn(M, 1, |i, _| {
                        let own: f64 = -(0..N).map(|j| k.at(i, j) * y.at(j, 0)).sum::<f64>();
                        own + e.n(1 + N + (s * M + i) % 8)
                    });
                    spent += quad(&q, &y) + quad(&r, &u_mine);
                    spent_law += quad(&q, &law) + quad(&r, &u_law);
                    y = a.mul(&y).add(&b.mul(&u_mine));
                    law = a.mul(&law).add(&b.mul(&u_law));
                }
                spent += quad(&p, &y);
                spent_law += quad(&p, &law);
                let told_p = quad(&p, &Mat::col(&start));
                let tol = 1e-6 * hard * size * dot_all(&start) * (1.0 + k_size * k_size * hard.powi(steps as i32)).min(1e6);
                if tol < 1e-3 * told_p.abs().max(1e-300) {
                    ensure!((spent_law - told_p).abs() <= tol, "regulator: following the law costs something else than its cost to go | from {start:?} spent {spent_law} told {told_p} {}", told());
                    ensure!(spent >= told_p - tol, "regulator: another run of inputs is cheaper than the law | from {start:?} spent {spent} told {told_p} {}", told());
                    cx.reach("gambled");
                }
            }
            _ => {
                // Drive to a reference held by a feedforward, through the real calls.
                let reference = vec(1, N);
                let ff: Vec<f64> = vec(1 + N, M);
                let s = state(&x);
                let want: Vec<f64> = (0..M).map(|i| ff[i] - (0..N).map(|j| k.at(i, j) * (x[j] - reference[j])).sum::<f64>()).collect();
                let got = lqr.control_tracking(s, state(&reference), Vector::from_fn(|i| ff[i]));
                let scale_u: f64 = ff.iter().map(|v| v.abs()).sum::<f64>() + k_size * (0..N).map(|j| x[j].abs() + reference[j].abs()).sum::<f64>();
                ensure!((0..M).all(|i| (got[i] - want[i]).abs() <= 1e-12 * scale_u), "regulator: tracking is not the gain on the error beside the feedforward | {got:?} want {want:?}");
                let alone = lqr.control(s);
                let zero = lqr.control_tracking(s, Vector::zeros(), Vector::zeros());
                ensure!((0..M).all(|i| (alone[i] - zero[i]).abs() <= 1e-12 * scale_u), "regulator: holding at zero is not tracking zero | {alone:?} {zero:?}");
                let u = if e.k == "track" { lqr.control(s) } else { held.unwrap_or(alone) };
                held = Some(u);
                let y = a.mul(&Mat::col(&x)).add(&b.mul(&Mat::col(u.as_slice())));
                if e.k == "track" && settles {
                    // What is left to pay falls by exactly what was just paid.
                    let (xc, uc) = (Mat::col(&x), Mat::col(u.as_slice()));
                    let before = xc.t().mul(&p).mul(&xc).at(0, 0);
                    let after = y.t().mul(&p).mul(&y).at(0, 0);
                    let paid = xc.t().mul(&q).mul(&xc).at(0, 0) + uc.t().mul(&r).mul(&uc).at(0, 0);
                    let tol = 1e-6 * hard * k_size * k_size * size * dot_all(&x);
                    ensure!((before - after - paid).abs() <= tol, "regulator: what is left to pay does not fall by what was paid | {before} {after} {paid} {}", told());
                }
                x = (0..N).map(|i| y.at(i, 0)).collect();
                if x.iter().any(|v| v.abs() > 1e6) {
                    x = vec![0.0; N];
                    cx.reach("ran away under a stalled controller");
                }
                cx.sim_time += 0.1;
            }
        }
        cx.state(&[hash_str(e.k) as i64 & 0xff, (radius * 20.0) as i64, (dot_all(&x) + 1e-12).log2() as i64 / 4]);
    }
    // Left alone, the loop settles.
    if settles {
        let start = dot_all(&x).sqrt();
        let n = (30.0 / (1.0 - radius)) as usize + 50;
        for _ in 0..n {
            let u = lqr.control(Vector::from_fn(|i| x[i]));
            let y = a.mul(&Mat::col(&x)).add(&b.mul(&Mat::col(u.as_slice())));
            x = (0..N).map(|i| y.at(i, 0)).collect();
        }
        ensure!(dot_all(&x).sqrt() <= 1e-3 * start.max(1e-9), "regulator: the loop does not bring the state home | from {start} to {x:?} radius {radius} {}", told());
        cx.reach("came home");
    }
    Ok(())
}

fn dot_all(x: &[f64]) -> f64 {
    x.iter().map(|v| v * v).sum()
}

impl World for Loop {
    fn name(&self) -> &'static str {
        "regulator"
    }
    /// cfg: shape, cost unit, A, B, the roots of Q and R
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        let shape = r.below(6);
        let (n, m) = [(1, 1), (2, 1), (2, 2), (3, 1), (4, 2), (6, 2)][shape];
        t.cfg.push(shape as f64);
        // Costs in whatever unit the user counts them.
        t.cfg.push(if r.chance(0.5) { 1.0 } else { r.log_range(1e-12, 1e6) });
        let grow = *r.pick(&[0.3, 0.7, 1.0, 1.3]);
        let dt = r.log_range(1e-2, 0.3);
        for i in 0..n {
            for j in 0..n {
                let v = if r.chance(0.0) { 0.0 } else if grow == 1.0 { if i == j { 1.0 } else if j == i + 1 { dt } else { 0.0 } } else { grow * r.range(-1.0, 1.0) };
                t.cfg.push(v);
            }
        }
        for i in 0..n {
            for _ in 0..m {
                t.cfg.push(if grow == 1.0 { if i + 1 == n { r.range(0.3, 1.0) } else { r.range(-0.3, 0.3) } } else { r.range(-1.0, 1.0) });
            }
        }
        let blind = r.chance(0.2);
        for i in 0..n {
            for j in 0..n {
                t.cfg.push(if blind && i > 0 { 0.0 } else if i == j { r.log_range(0.1, 3.0) } else { 0.3 * r.range(-1.0, 1.0) });
            }
        }
        for _ in 0..m * m {
            t.cfg.push(r.range(-2.0, 2.0));
        }
        for _ in 0..r.int(2, 16) {
            match r.below(10) {
                0 => t.evs.push(ev("stall", &[])),
                1 => t.evs.push(ev("broken", &[r.below(n) as f64, r.broken()])),
                2 => t.evs.push(ev("refuse", &[r.below(7) as f64, r.broken(), r.below(n) as f64])),
                3 | 4 => {
                    let mut a = vec![r.int(1, 6) as f64];
                    a.extend((0..n).map(|_| r.range(-2.0, 2.0)));
                    let size = *r.pick(&[1e-2, 0.3, 3.0]);
                    a.extend((0..8).map(|_| size * r.normal()));
                    t.evs.push(ev("gamble", &a));
                }
                5 | 6 => t.evs.push(ev("knock", &(0..n).map(|_| 3.0 * r.normal()).collect::<Vec<_>>())),
                k => {
                    let mut a = vec![0.0];
                    a.extend((0..n + m).map(|_| r.range(-2.0, 2.0)));
                    t.evs.push(ev(if k == 7 { "held" } else { "track" }, &a));
                }
            }
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        match t.cu(0) {
            0 => go::<1, 1>(t, cx),
            1 => go::<2, 1>(t, cx),
            2 => go::<2, 2>(t, cx),
            3 => go::<3, 1>(t, cx),
            4 => go::<4, 2>(t, cx),
            _ => go::<6, 2>(t, cx),
        }
    }
}

/// Loops whose inputs are so dear that they settle over thousands or millions of steps.
pub struct Patient;

impl World for Patient {
    fn name(&self) -> &'static str {
        "patient regulator"
    }
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        t.cfg.push(if r.chance(0.5) { 1.0 } else { r.log_range(1e-9, 1e6) });
        for _ in 0..r.int(1, 4) {
            // How far the state keeps to itself, the input's reach, its price, and the start.
            let a = match r.below(4) {
                0 => 1.0,
                1 => 1.0 - r.log_range(1e-9, 1e-1),
                2 => 1.0 + r.log_range(1e-9, 1e-1),
                _ => -1.0 + r.log_range(1e-9, 1e-1),
            };
            let sign = if r.chance(0.5) { 1.0 } else { -1.0 };
            t.evs.push(ev("channel", &[a, sign * r.log_range(1e-2, 1e1), r.log_range(1e-3, 1e10), r.range(-3.0, 3.0), r.log_range(0.1, 10.0)]));
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        let unit = t.c(0);
        for e in &t.evs {
            let [a, b, dear, x0, q] = [e.n(0), e.n(1), e.n(2), e.n(3), e.n(4)];
            if !(unit > 0.0 && dear > 0.0 && q > 0.0 && b != 0.0 && a.is_finite() && b.is_finite()) {
                continue;
            }
            cx.step("channel");
            cx.fault("an input too dear to use much");
            let (q, r) = (q * unit, q * dear * unit);
            let told = || format!("a {a} b {b} q {q} r {r}");
            // The root of b²p² + (r(1-a²) - qb²)p - qr that keeps its digits.
            let half = 0.5 * (r * (1.0 - a) * (1.0 + a) - q * b * b);
            let root = (half * half + b * b * q * r).sqrt();
            let want = if half > 0.0 { q * r / (half + root) } else { (root - half) / (b * b) };
            let k = a * b * want / (r + b * b * want);
            let closed = a * r / (r + b * b * want);
            let one = |v: f64| Matrix::<1, 1>::from_fn(|_, _| v);
            let lqr = match Lqr::<1, 1>::new(one(a), one(b), one(q), one(r)) {
                Ok(l) => l,
                Err(e) => return Err(format!("regulator: a slow system is refused | {e:?} {}", told())),
            };
            let (p, g, c) = (lqr.cost_to_go()[(0, 0)], lqr.gain()[(0, 0)], lqr.closed_loop()[(0, 0)]);
            cx.log(p);
            // What rounding each of the many steps may add up to.
            let slow = 1.0 / (1.0 - closed.abs());
            let tol = 1e-12 * (10.0 + slow);
            if tol > 1e-4 {
                cx.reach("too slow to judge");
                continue;
            }
            ensure!((p - want).abs() <= tol * want, "regulator: a slow loop's cost to go is not the cheapest | {p} want {want} {} tol {tol:e}", told());
            ensure!((g - k).abs() <= tol * k.abs() + 1e-15, "regulator: a slow loop's gain is not the cheapest | {g} want {k} {} tol {tol:e}", told());
            ensure!((c - closed).abs() <= 1e-12 + tol * (1.0 - closed.abs()), "regulator: a slow loop is not the system under its gain | {c} want {closed} {}", told());
            // The proof holds what the loop runs up: q over one less its square.
            match lqr.certify_stability() {
                Ok(v) => {
                    let v = v[(0, 0)];
                    let sum = q / ((1.0 - c) * (1.0 + c));
                    ensure!((v - sum).abs() <= 10.0 * tol * sum, "regulator: a slow loop's proof is not what it runs up | {v} want {sum} {}", told());
                }
                Err(e) => return Err(format!("regulator: a slow loop that settles is not certified | {e:?} {} closed {c}", told())),
            }
            // As long as it takes to halve, several times over, unless that is too long to walk.
            let steps = (5.0 * slow) as usize;
            if steps < 20000 {
                let mut x = x0;
                for _ in 0..steps {
                    x = a * x + b * lqr.control(Vector::new([x]))[0];
                }
                ensure!(x.abs() <= 0.02 * x0.abs() + 1e-12, "regulator: a slow loop does not come home | from {x0} to {x} in {steps} {}", told());
                cx.sim_time += 0.1 * steps as f64;
                cx.reach("came home slowly");
            }
            cx.state(&[(slow.log2() * 2.0) as i64, dear.log2() as i64, (a * 4.0) as i64]);
        }
        Ok(())
    }
}
