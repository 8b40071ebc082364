//! The Monte Carlo localizer driven by faulty odometry and faulty scans of a simulated room.

use crate::core::*;
use crate::ensure;
use crate::refs::wrap_pi;
use crate::worlds::particles::allowed;
use crate::worlds::random::RefPcg;
use multicalc::estimation::{BeamModel, InitialParticleCloud, MonteCarloLocalizer};
use multicalc::mapping::{OccupancyMap, ScanGeometry};
use std::cell::Cell;

/// A rectangular room with exact walls, so that a range has no cell edges in it.
struct Room {
    w: f64,
    h: f64,
    /// 0: ordinary, 1: no walls at all, 2: not a number at the n-th beam, 3: infinitely far at every beam
    mode: Cell<usize>,
    bad_at: Cell<usize>,
    calls: Cell<usize>,
}

impl Room {
    fn range(&self, p: [f64; 2], a: f64) -> Option<f64> {
        if p[0] < 0.0 || p[1] < 0.0 || p[0] > self.w || p[1] > self.h {
            return None;
        }
        let (c, s) = (a.cos(), a.sin());
        let x = if c > 0.0 { (self.w - p[0]) / c } else if c < 0.0 { -p[0] / c } else { f64::INFINITY };
        let y = if s > 0.0 { (self.h - p[1]) / s } else if s < 0.0 { -p[1] / s } else { f64::INFINITY };
        Some(x.min(y))
    }
    /// The range, and whether the answer hangs on rounding.
    fn sure(&self, p: [f64; 2], a: f64, max: f64) -> (Option<f64>, bool) {
        let tight = p[0].abs() < 1e-9 || p[1].abs() < 1e-9 || (p[0] - self.w).abs() < 1e-9 || (p[1] - self.h).abs() < 1e-9;
        match self.range(p, a) {
            None => (None, !tight),
            Some(d) => (if d <= max { Some(d) } else { None }, !tight && (d - max).abs() > 1e-9),
        }
    }
}

impl OccupancyMap for Room {
    fn columns(&self) -> usize {
        1
    }
    fn rows(&self) -> usize {
        1
    }
    fn resolution(&self) -> f64 {
        self.w
    }
    fn origin(&self) -> [f64; 2] {
        [0.0, 0.0]
    }
    fn is_occupied(&self, _: usize, _: usize) -> bool {
        false
    }
    fn cast_ray(&self, p: [f64; 2], a: f64, max: f64) -> Option<f64> {
        self.calls.set(self.calls.get() + 1);
        match self.mode.get() {
            1 => None,
            2 if self.calls.get() == self.bad_at.get() => Some(f64::NAN),
            3 => Some(f64::INFINITY),
            _ => self.range(p, a).filter(|d| *d <= max),
        }
    }
}

#[derive(Clone)]
struct Shadow {
    w: Vec<f64>,
    rng: RefPcg,
}

/// cfg: beams variant, room w, h, fov, max range, min range, count, x, y, heading, position variance,
/// heading variance, deviation, reward, penalty, seed hi, seed lo, motion noise (negative: as built)
fn drive<const B: usize>(t: &Trace, cx: &mut Cx) -> R {
    let room = Room { w: t.c(1), h: t.c(2), mode: Cell::new(0), bad_at: Cell::new(0), calls: Cell::new(0) };
    let (fov, far, near) = (t.c(3), t.c(4), t.c(5));
    let geometry = ScanGeometry::<B>::try_new(fov, far)
        .and_then(|g| g.with_minimum_range(near))
        .map_err(|e| format!("localizer: a sound scan geometry was refused | {e:?}"))?;
    let count = t.cu(6).max(1);
    let hint = [t.c(7), t.c(8), t.c(9)];
    let vars = [t.c(10), t.c(10), t.c(11)];
    let (dev, reward, penalty) = (t.c(12), t.c(13), t.c(14));
    let seed = ((t.c(15) as u64) << 32) | t.c(16) as u64;
    let mut mcl = MonteCarloLocalizer::<B>::new(
        hint,
        InitialParticleCloud { particle_count: count, position_variance: vars[0], heading_variance: vars[2] },
        BeamModel { range_deviation: dev, agreement_reward: reward, mismatch_penalty: penalty },
        seed,
    )
    .map_err(|e| format!("localizer: a sound localizer was refused | {e:?}"))?;
    let mut noise = [1e-4f64; 3];
    let mut shadow = Shadow { w: vec![1.0 / count as f64; count], rng: RefPcg::new(seed) };
    ensure!(mcl.particle_count() == count && mcl.particles().len() == count, "localizer: wrong cloud size | ");
    for (i, p) in mcl.particles().iter().enumerate() {
        for k in 0..3 {
            let want = hint[k] + vars[k].sqrt() * shadow.rng.normal();
            ensure!(
                close(p[k], want, 1e-12, 1e-12),
                "localizer: the starting cloud is not the hint plus the seeded draws | particle {i} axis {k} got {} want {want}",
                p[k]
            );
        }
    }
    let mut saved: Option<(MonteCarloLocalizer<B>, Shadow, [f64; 3])> = None;
    let mut last_scan = [0.0; B];
    let beams: Vec<f64> = (0..B).map(|i| -fov / 2.0 + fov * i as f64 / (B - 1) as f64).collect();
    let view = |m: &MonteCarloLocalizer<B>| -> Vec<f64> {
        let (e, c) = m.estimate();
        let mut o: Vec<f64> = m.particles().iter().flat_map(|p| p.as_slice().to_vec()).collect();
        o.extend(e.as_slice());
        for i in 0..3 {
            for j in 0..3 {
                o.push(c[(i, j)]);
            }
        }
        o.push(m.effective_sample_size());
        o
    };

    for e in &t.evs {
        cx.step(e.k);
        let before = view(&mcl);
        let kept = mcl.clone();
        let old: Vec<[f64; 3]> = mcl.particles().iter().map(|p| [p[0], p[1], p[2]]).collect();
        match e.k {
            "move" | "odobad" => {
                let (ds, dh) = (e.n(0), e.n(1));
                let got = mcl.predict(ds, dh);
                if e.k == "odobad" && !(ds.is_finite() && dh.is_finite()) {
                    cx.fault("odometry-not-finite");
                    ensure!(got.is_err(), "localizer: odometry that is not finite was accepted | ");
                    ensure!(all_same(&before, &view(&mcl)), "localizer: a rejected predict changed the belief | ");
                    mcl = kept;
                    continue;
                }
                ensure!(got.is_ok(), "localizer: sound odometry was rejected | {got:?}");
                for (i, p) in mcl.particles().iter().enumerate() {
                    let draw = [shadow.rng.normal(), shadow.rng.normal(), shadow.rng.normal()];
                    let h = old[i][2];
                    let turned = wrap_pi(h + dh);
                    let want = [
                        old[i][0] + ds * h.cos() + noise[0].sqrt() * draw[0],
                        old[i][1] + ds * h.sin() + noise[1].sqrt() * draw[1],
                        turned + noise[2].sqrt() * draw[2],
                    ];
                    let edge = (turned.abs() - std::f64::consts::PI).abs() < 1e-9;
                    let off = if edge { wrap_pi(p[2] - want[2]) } else { p[2] - want[2] };
                    ensure!(
                        close(p[0], want[0], 1e-11, 1e-11) && close(p[1], want[1], 1e-11, 1e-11) && off.abs() < 1e-10,
                        "localizer: a guess did not move by the odometry and its own draws | guess {i} got {p:?} want {want:?}"
                    );
                }
            }
            "odolost" => cx.fault("odometry-lost"),
            "noise" | "noisebad" => {
                let v = [e.n(0), e.n(1), e.n(2)];
                let got = mcl.set_motion_noise(v);
                if e.k == "noisebad" {
                    cx.fault("noise-not-usable");
                    ensure!(got.is_err(), "localizer: motion noise that is not a variance was accepted | {v:?}");
                    ensure!(all_same(&before, &view(&mcl)), "localizer: rejected noise changed the belief | ");
                } else {
                    ensure!(got.is_ok(), "localizer: sound motion noise was rejected | {got:?}");
                    noise = v;
                }
            }
            "save" => saved = Some((mcl.clone(), shadow.clone(), noise)),
            "crash" => {
                if let Some((m, s, n)) = saved.clone() {
                    cx.fault("crash-and-restart-from-checkpoint");
                    mcl = m;
                    shadow = s;
                    noise = n;
                }
            }
            "scan" | "dup" => {
                // scan: true x, y, heading, fault seed, fault rate, map mode, bad call
                if e.k == "scan" {
                    let mut r = Rng::new(e.n(3) as u64);
                    for (i, s) in last_scan.iter_mut().enumerate() {
                        let d = room.range([e.n(0), e.n(1)], e.n(2) + beams[i]).unwrap_or(far * 2.0);
                        *s = d + 0.02 * r.normal();
                        if r.chance(e.n(4)) {
                            let k = r.below(6);
                            cx.fault(["beam-not-a-number", "beam-infinite", "beam-zero", "beam-past-range", "beam-too-close", "beam-negative"][k]);
                            *s = [f64::NAN, f64::INFINITY, 0.0, far * 1.5, near * 0.5, -1.0][k];
                        }
                    }
                    room.mode.set(e.u(5));
                    room.bad_at.set(e.u(6));
                    room.calls.set(0);
                } else {
                    cx.fault("scan-duplicated");
                    room.mode.set(0);
                }
                let mode = room.mode.get();
                let got = mcl.update(&last_scan, &room, &geometry);
                let believed: Vec<bool> = last_scan.iter().map(|v| v.is_finite() && *v >= near && *v <= far).collect();
                let hit_nan = mode == 2
                    && room.bad_at.get() >= 1
                    && room.bad_at.get() <= count * B
                    && believed[(room.bad_at.get() - 1) % B];
                let all_out = mode == 3 && believed.iter().any(|b| *b);
                if hit_nan || all_out {
                    cx.fault(if hit_nan { "map-answers-not-a-number" } else { "no-guess-explains-the-scan" });
                    ensure!(got.is_err(), "localizer: a scan no guess can be scored by was accepted | {mode}");
                    ensure!(all_same(&before, &view(&mcl)), "localizer: a rejected scan changed the belief | ");
                    mcl = kept;
                    continue;
                }
                ensure!(got.is_ok(), "localizer: a scan that can be scored was rejected | {got:?}");
                let mut sure = true;
                let mut scores = Vec::with_capacity(count);
                for (i, p) in old.iter().enumerate() {
                    let mut score = 0.0;
                    for (b, off) in beams.iter().enumerate() {
                        let (d, clear) = match mode {
                            1 => (None, true),
                            2 if room.bad_at.get() == i * B + b + 1 => (Some(f64::NAN), true),
                            3 => (Some(f64::INFINITY), true),
                            _ => room.sure([p[0], p[1]], p[2] + off, far),
                        };
                        sure &= clear;
                        score += match (d, believed[b]) {
                            (Some(d), true) => -0.5 * ((d - last_scan[b]) / dev).powi(2),
                            (None, false) => reward,
                            _ => penalty,
                        };
                    }
                    scores.push(score);
                }
                if !sure {
                    cx.reach("scan-hangs-on-rounding");
                    return Ok(());
                }
                let lw: Vec<f64> = shadow.w.iter().zip(&scores).map(|(w, s)| w.max(f64::MIN_POSITIVE).ln() + s).collect();
                let top = lw.iter().copied().fold(f64::NEG_INFINITY, f64::max);
                let raw: Vec<f64> = lw.iter().map(|l| (l - top).exp()).collect();
                let sum: f64 = raw.iter().sum();
                let posterior: Vec<f64> = raw.iter().map(|v| v / sum).collect();
                if shadow.w.iter().zip(&posterior).any(|(w, p)| *w < 1e-290 && *p > 1e-12) {
                    // How far an underflowed weight recovers is the library's own choice.
                    cx.reach("dead-guess-revived");
                    return Ok(());
                }
                shadow.w = posterior;
                let ess = 1.0 / shadow.w.iter().map(|w| w * w).sum::<f64>();
                let half = count as f64 / 2.0;
                if (ess - half).abs() < 1e-6 * half {
                    cx.reach("threshold-hangs-on-rounding");
                    return Ok(());
                }
                if ess < half {
                    cx.reach("resampled");
                    let offset = shadow.rng.unit();
                    let slots = allowed(0, &shadow.w, count, &[offset])?;
                    for (i, p) in mcl.particles().iter().enumerate() {
                        ensure!(
                            slots[i].iter().any(|&s| all_same(p.as_slice(), &old[s])),
                            "localizer: a resampled guess is not the one the seeded draw picks | slot {i} may hold {:?} holds {:?} offset {offset} weights {:?}",
                            slots[i],
                            (0..count).filter(|s| all_same(p.as_slice(), &old[*s])).collect::<Vec<_>>(),
                            shadow.w
                        );
                    }
                    shadow.w = vec![1.0 / count as f64; count];
                } else {
                    cx.reach("reweighted");
                    ensure!(
                        mcl.particles().iter().zip(&old).all(|(p, o)| all_same(p.as_slice(), o)),
                        "localizer: a scan moved guesses without resampling | "
                    );
                }
            }
            _ => {}
        }
        // The summary, from the cloud and the shadow weights.
        cx.logs(&view(&mcl));
        let ess = 1.0 / shadow.w.iter().map(|w| w * w).sum::<f64>();
        ensure!(
            close(mcl.effective_sample_size(), ess, 1e-6, 0.0),
            "localizer: the effective sample size is not that of the scored cloud | after {} got {} want {ess}",
            e.k,
            mcl.effective_sample_size()
        );
        ensure!(mcl.particle_count() == count && mcl.particles().len() == count, "localizer: the cloud changed size | ");
        let (est, cov) = mcl.estimate();
        let (mut mx, mut my, mut sn, mut cs) = (0.0, 0.0, 0.0, 0.0);
        for (p, w) in mcl.particles().iter().zip(&shadow.w) {
            mx += w * p[0];
            my += w * p[1];
            sn += w * p[2].sin();
            cs += w * p[2].cos();
        }
        let (mut xx, mut yy, mut xy) = (0.0, 0.0, 0.0);
        for (p, w) in mcl.particles().iter().zip(&shadow.w) {
            xx += w * (p[0] - mx).powi(2);
            yy += w * (p[1] - my).powi(2);
            xy += w * (p[0] - mx) * (p[1] - my);
        }
        let r = sn.hypot(cs);
        let hh = (2.0 * (1.0 - r.min(1.0))).max(1e-6);
        ensure!(
            close(est[0], mx, 1e-8, 1e-8) && close(est[1], my, 1e-8, 1e-8),
            "localizer: the estimated place is not the weighted mean of the guesses | {est:?} want {mx} {my}"
        );
        ensure!(
            r < 1e-6 || wrap_pi(est[2] - sn.atan2(cs)).abs() < 1e-6 / r.max(1e-3),
            "localizer: the estimated heading is not the weighted circular mean | {} want {}",
            est[2],
            sn.atan2(cs)
        );
        let want = [xx, xy, 0.0, xy, yy, 0.0, 0.0, 0.0, hh];
        for k in 0..9 {
            ensure!(
                close(cov[(k / 3, k % 3)], want[k], 1e-7, 1e-8),
                "localizer: the reported spread is not that of the guesses | entry {k} got {} want {}",
                cov[(k / 3, k % 3)],
                want[k]
            );
        }
        for (pl, hl) in [(0.05, 0.05), (xx + yy + 1e-4, hh * 1.01), (xx + yy + 1e-4, hh * 0.99), ((xx + yy) * 0.99 - 1e-6, hh * 1.01)] {
            if (pl - xx - yy).abs() > 1e-7 && (hl - hh).abs() > 1e-8 {
                ensure!(
                    mcl.is_converged(pl, hl) == (xx + yy < pl && hh < hl),
                    "localizer: convergence does not match the spread | limits {pl} {hl} spread {} {hh}",
                    xx + yy
                );
            }
        }
        ensure!(mcl.particles().iter().all(|p| p.is_finite()), "localizer: a guess is not finite | ");
        cx.state(&[B as i64, (ess * 8.0 / count as f64) as i64, (xx + yy < 0.05) as i64, (r * 4.0) as i64]);
    }
    Ok(())
}

pub struct Localizer;

impl World for Localizer {
    fn name(&self) -> &'static str {
        "localizer"
    }
    fn generate(&self, r: &mut Rng) -> Trace {
        let variant = r.below(3);
        let b = [2, 5, 9][variant];
        let (w, h) = (r.range(3.0, 8.0), r.range(3.0, 8.0));
        let far = *r.pick(&[2.0, 4.0, 20.0]);
        let (x, y, a) = (r.range(0.5, w - 0.5), r.range(0.5, h - 0.5), r.range(-3.1, 3.1));
        let count = r.int(2, 60);
        let mut t = Trace {
            cfg: vec![
                variant as f64,
                w,
                h,
                *r.pick(&[1.5, 3.0, std::f64::consts::TAU]),
                far,
                *r.pick(&[0.0, 0.1, 0.3]),
                count as f64,
                x + r.range(-0.3, 0.3),
                y + r.range(-0.3, 0.3),
                a,
                r.log_range(0.001, 0.5),
                r.log_range(0.001, 4.0),
                r.log_range(0.05, 2.0),
                r.range(0.0, 0.5),
                -r.range(0.1, 6.0),
                r.below(1 << 32) as f64,
                r.below(1 << 32) as f64,
            ],
            evs: Vec::new(),
        };
        let calm = r.chance(0.1);
        let p: Vec<f64> = (0..8).map(|_| if calm || r.chance(0.4) { 0.0 } else { r.range(0.02, 0.25) }).collect();
        let (mut x, mut y, mut a) = (x, y, a);
        for _ in 0..r.int(3, 20) {
            let (ds, dh) = (r.range(-0.2, 0.4), r.range(-0.5, 0.5));
            x += ds * a.cos();
            y += ds * a.sin();
            a += dh;
            if r.chance(p[0]) {
                t.evs.push(ev("odolost", &[]));
            } else {
                if r.chance(p[1]) {
                    let mut v = [ds, dh];
                    v[r.below(2)] = r.broken();
                    t.evs.push(ev("odobad", &v));
                }
                t.evs.push(ev("move", &[ds, dh]));
            }
            let rate = if r.chance(p[2] * 2.0) { r.range(0.1, 0.9) } else { 0.0 };
            let mode = if r.chance(p[3]) { r.int(1, 3) } else { 0 };
            t.evs.push(ev(
                "scan",
                &[x, y, a, (r.u64() >> 12) as f64, rate, mode as f64, r.int(1, count * b) as f64],
            ));
            if r.chance(p[4]) {
                t.evs.push(ev("dup", &[]));
            }
            if r.chance(0.1) {
                t.evs.push(ev("noise", &[r.log_range(1e-5, 0.05), r.log_range(1e-5, 0.05), r.log_range(1e-5, 0.05)]));
            }
            if r.chance(p[5]) {
                let mut v = [0.01, 0.01, 0.01];
                v[r.below(3)] = *r.pick(&[-1.0, f64::NAN, 0.0]);
                t.evs.push(ev("noisebad", &v));
            }
            if r.chance(0.1) {
                t.evs.push(ev("save", &[]));
            }
            if r.chance(p[6]) {
                t.evs.push(ev("crash", &[]));
            }
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        match t.cu(0) {
            0 => drive::<2>(t, cx),
            1 => drive::<5>(t, cx),
            _ => drive::<9>(t, cx),
        }
    }
}
