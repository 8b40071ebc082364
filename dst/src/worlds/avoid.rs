//! A robot steering through a cluttered room by its range scan, beams lost, broken and stale.

use crate::core::*;
use crate::ensure;
use multicalc::control::{FollowTheGap, FollowTheGapOutput};
use multicalc::error::{ControlError, MappingError};
use multicalc::mapping::ScanGeometry;
use std::f64::consts::{PI, TAU};

pub struct Avoid;

#[derive(Clone, Debug)]
struct Set {
    fov: f64,
    reach: f64,
    width: f64,
    free: f64,
    cruise: f64,
    gain: f64,
    bias: f64,
    stop: f64,
    clear: f64,
    front: f64,
}

/// What the sensor's reading is worth: anything it cannot have seen is open space.
fn seen(s: &Set, v: f64) -> f64 {
    if v.is_finite() && v > 0.0 { v.min(s.reach) } else { s.reach }
}

struct Gap {
    start: usize,
    end: usize,
    aim: f64,
    score: f64,
    /// How far the chord is above the chassis width; infinite when a side is open.
    room: f64,
    /// The safe bearings left between its edges; which aim applies turns on its sign.
    span: f64,
}

fn angle(s: &Set, n: usize, i: usize) -> f64 {
    -0.5 * s.fov + s.fov * i as f64 / (n - 1) as f64
}

/// Every open stretch, with what the method makes of it.
fn gaps(s: &Set, scan: &[f64], goal: f64) -> Vec<Gap> {
    let n = scan.len();
    let r: Vec<f64> = scan.iter().map(|v| seen(s, *v)).collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < n {
        if r[i] < s.free {
            i += 1;
            continue;
        }
        let start = i;
        while i < n && r[i] >= s.free {
            i += 1;
        }
        let end = i - 1;
        let point = |k: usize| [r[k] * angle(s, n, k).cos(), r[k] * angle(s, n, k).sin()];
        let room = if start > 0 && end + 1 < n {
            let (a, b) = (point(start - 1), point(end + 1));
            (a[0] - b[0]).hypot(a[1] - b[1]) - s.width
        } else {
            f64::INFINITY
        };
        let mut low = angle(s, n, start);
        if start > 0 {
            low += (0.5 * s.width).atan2(r[start - 1]);
        }
        let mut high = angle(s, n, end);
        if end + 1 < n {
            high -= (0.5 * s.width).atan2(r[end + 1]);
        }
        let aim = if low > high { 0.5 * (angle(s, n, start) + angle(s, n, end)) } else if goal < low { low } else if goal > high { high } else { goal };
        let score = (high - low).max(0.0) - s.bias * (aim - goal).abs();
        out.push(Gap { start, end, aim, score, room, span: high - low });
    }
    out
}

fn pose_walls(r: &mut Rng) -> (Vec<[f64; 3]>, [f64; 3]) {
    let n = r.int(0, 14);
    let discs = (0..n).map(|_| [r.range(-4.0, 4.0), r.range(-4.0, 4.0), r.log_range(0.03, 1.0)]).collect();
    (discs, [r.range(-1.0, 1.0), r.range(-1.0, 1.0), r.range(-PI, PI)])
}

/// How far along a bearing the first wall is, in a round room of radius six.
fn look(discs: &[[f64; 3]], p: [f64; 3], bearing: f64) -> f64 {
    let d = [(p[2] + bearing).cos(), (p[2] + bearing).sin()];
    let mut best = f64::INFINITY;
    for (k, c) in discs.iter().chain(&[[0.0, 0.0, 6.0]]).enumerate() {
        let o = [p[0] - c[0], p[1] - c[1]];
        let b = o[0] * d[0] + o[1] * d[1];
        let q = o[0] * o[0] + o[1] * o[1] - c[2] * c[2];
        let disc = b * b - q;
        if disc < 0.0 {
            continue;
        }
        let at = if k == discs.len() { -b + disc.sqrt() } else { -b - disc.sqrt() };
        if at > 0.0 {
            best = best.min(at);
        } else if q < 0.0 {
            best = best.min(0.0);
        }
    }
    best
}

impl World for Avoid {
    fn name(&self) -> &'static str {
        "avoidance"
    }

    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        let width = r.log_range(0.1, 1.2);
        let reach = r.range(0.6 * width, 8.0).max(0.5);
        let fov = match r.below(6) {
            0 => PI,
            1 => TAU,
            2 => 2.0 * PI / 3.0,
            _ => r.range(0.2, TAU),
        };
        let bad = r.chance(0.08);
        let mut cfg = vec![
            r.below(6) as f64,
            r.below(1 << 30) as f64,
            fov,
            reach,
            width,
            if r.chance(0.1) { reach } else { r.range(0.05, 1.0) * reach },
            r.log_range(0.05, 3.0),
            r.log_range(0.1, 5.0),
            if r.chance(0.2) { 0.0 } else { r.log_range(0.01, 5.0) },
            if r.chance(0.2) { 0.0 } else { r.range(0.0, 0.4) * reach },
            r.range(0.5, 1.2) * reach,
            if r.chance(0.2) { 0.5 * fov } else { r.range(0.05, 0.5) * fov },
            f64::from(r.chance(0.3)),
            r.range(0.0, 0.3) * reach,
        ];
        if bad {
            let at = 2 + r.below(10);
            cfg[at] = *r.pick(&[f64::NAN, f64::INFINITY, 0.0, -0.5, -0.0, 7.0, 100.0, f64::MIN_POSITIVE]);
        }
        t.cfg = cfg;
        for _ in 0..r.int(2, 14) {
            let mut a = vec![
                // What the link does to this scan.
                if r.chance(0.6) { 0.0 } else { r.int(1, 6) as f64 },
                r.below(1 << 20) as f64,
                match r.below(12) {
                    0 => r.broken(),
                    1 => 0.0,
                    2 => -r.unit(),
                    3 => r.log_range(1e-3, 1e3),
                    4 => 1e-300,
                    _ => r.range(0.0, 1.1) * reach,
                },
                if r.chance(0.02) { r.broken() } else if r.chance(0.3) { 0.0 } else { r.normal() * r.log_range(0.1, 4.0) },
                r.log_range(0.01, 0.5),
            ];
            if r.chance(0.15) {
                a.push(1.0);
            }
            t.evs.push(ev("scan", &a));
        }
        t
    }

    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        match t.cu(0) {
            0 => run::<2>(t, cx),
            1 => run::<3>(t, cx),
            2 => run::<5>(t, cx),
            3 => run::<16>(t, cx),
            4 => run::<31>(t, cx),
            _ => run::<64>(t, cx),
        }
    }
}

fn run<const B: usize>(t: &Trace, cx: &mut Cx) -> R {
    let mut s = Set {
        fov: t.c(2),
        reach: t.c(3),
        width: t.c(4),
        free: t.c(5),
        cruise: t.c(6),
        gain: t.c(7),
        bias: t.c(8),
        stop: t.c(9),
        clear: t.c(10),
        front: t.c(11),
    };
    let told = format!("{s:?} beams {B}");
    ensure!(matches!(FollowTheGap::<1>::try_new(s.fov, s.reach, s.width, s.free, s.cruise), Err(ControlError::InvalidBeamCount)), "steers by one beam | {told}");
    ensure!(matches!(ScanGeometry::<1>::try_new(s.fov, s.reach), Err(MappingError::TooFewBeams)), "scans with one beam | {told}");
    // The settings, each refused for its own reason.
    let finite = [s.fov, s.reach, s.width, s.free, s.cruise].iter().all(|v| v.is_finite());
    let want = if !finite {
        Some(ControlError::NonFinite)
    } else if s.fov <= 0.0 || s.fov > TAU {
        Some(ControlError::InvalidFieldOfView)
    } else if s.reach <= 0.0 || s.free <= 0.0 || s.free > s.reach {
        Some(ControlError::NonPositiveRange)
    } else if s.width <= 0.0 || 0.5 * s.width >= s.reach {
        Some(ControlError::NonPositiveChassisWidth)
    } else if s.cruise <= 0.0 {
        Some(ControlError::NonPositiveSpeed)
    } else {
        None
    };
    let scan_want = if !s.fov.is_finite() || !s.reach.is_finite() {
        Some(MappingError::NonFinite)
    } else if s.fov <= 0.0 || s.fov > TAU {
        Some(MappingError::InvalidFieldOfView)
    } else if s.reach <= 0.0 {
        Some(MappingError::NonPositiveRange)
    } else {
        None
    };
    let shape = ScanGeometry::<B>::try_new(s.fov, s.reach);
    ensure!(shape.as_ref().err() == scan_want.as_ref(), "a scan's shape is taken or refused for another reason | {shape:?} want {scan_want:?} {told}");
    if let Ok(shape) = shape {
        geometry(&s, shape, t, cx)?;
    }
    let made = FollowTheGap::<B>::try_new(s.fov, s.reach, s.width, s.free, s.cruise);
    ensure!(made.as_ref().err() == want.as_ref(), "settings taken or refused for another reason | {:?} want {want:?} {told}", made.as_ref().err());
    let Ok(mut robot) = made else {
        cx.reach("settings refused");
        return Ok(());
    };
    if t.cu(12) == 1 {
        s.gain = 1.5;
        s.bias = 0.5;
        s.stop = 0.5 * s.width;
        s.clear = s.reach;
        s.front = 0.25 * s.fov;
        cx.reach("default settings");
    } else {
        let steps: [(Result<FollowTheGap<B>, ControlError>, Option<ControlError>); 4] = [
            (robot.with_steering_gain(s.gain), if !s.gain.is_finite() { Some(ControlError::NonFinite) } else if s.gain <= 0.0 { Some(ControlError::NonPositiveSpeed) } else { None }),
            (robot.with_goal_bias(s.bias), if !s.bias.is_finite() { Some(ControlError::NonFinite) } else if s.bias < 0.0 { Some(ControlError::NegativeGoalBias) } else { None }),
            (
                robot.with_speed_scaling(s.stop, s.clear),
                if !s.stop.is_finite() || !s.clear.is_finite() { Some(ControlError::NonFinite) } else if s.stop < 0.0 || s.stop >= s.clear { Some(ControlError::InvalidSpeedScaling) } else { None },
            ),
            (
                robot.with_frontal_half_angle(s.front),
                if !s.front.is_finite() { Some(ControlError::NonFinite) } else if s.front <= 0.0 || s.front > 0.5 * s.fov { Some(ControlError::InvalidFieldOfView) } else { None },
            ),
        ];
        for (k, (got, want)) in steps.iter().enumerate() {
            ensure!(got.as_ref().err() == want.as_ref(), "a setting is taken or refused for another reason | setting {k} {:?} want {want:?} {told}", got.as_ref().err());
            if want.is_some() {
                cx.reach("setting refused");
                return Ok(());
            }
        }
        let set = |robot: FollowTheGap<B>| robot.with_steering_gain(s.gain)?.with_goal_bias(s.bias)?.with_speed_scaling(s.stop, s.clear)?.with_frontal_half_angle(s.front);
        robot = set(robot).map_err(|e| format!("good settings refused together | {e:?} {told}"))?;
    }
    for i in 0..B + 2 {
        let want = (i < B).then(|| angle(&s, B, i));
        let got = robot.beam_angle(i);
        ensure!(got.is_some() == want.is_some() && got.zip(want).is_none_or(|(a, b)| close(a, b, 1e-12, 0.0)), "a beam points elsewhere | beam {i} {got:?} want {want:?} {told}");
    }
    let mut r = Rng::new(t.cu(1) as u64);
    let (discs, mut pose) = pose_walls(&mut r);
    let mut last_scan = [s.reach; B];
    for e in &t.evs {
        cx.step(e.k);
        let mut fresh = [0.0; B];
        for (i, v) in fresh.iter_mut().enumerate() {
            *v = look(&discs, pose, angle(&s, B, i));
            if *v > s.reach {
                *v = if e.a.len() > 5 { f64::INFINITY } else { s.reach };
            }
        }
        let mut er = Rng::new(e.u(1) as u64);
        let mut scan = fresh;
        match e.u(0) {
            1 => {
                cx.fault("beam corrupted");
                scan[e.u(1) % B] = e.n(2);
            }
            2 => {
                cx.fault("several beams corrupted");
                for _ in 0..er.int(1, B) {
                    scan[er.below(B)] = e.n(2);
                }
            }
            3 => {
                cx.fault("stale scan");
                scan = last_scan;
            }
            4 => {
                cx.fault("beams dropped");
                for v in &mut scan {
                    if er.chance(0.3) {
                        *v = er.broken();
                    }
                }
            }
            5 => {
                cx.fault("arc blocked");
                let (a, b) = (er.below(B), er.below(B));
                for v in &mut scan[a.min(b)..=a.max(b)] {
                    *v = e.n(2).abs() * 0.3;
                }
            }
            6 => {
                cx.fault("noise on every beam");
                for v in &mut scan {
                    *v += 0.2 * er.normal();
                }
            }
            _ => {}
        }
        last_scan = fresh;
        let goal = e.n(3);
        let got = robot.compute(&scan, goal);
        let told = || format!("{got:?} scan {scan:?} goal {goal} {s:?}");
        if !goal.is_finite() {
            ensure!(matches!(got, Err(ControlError::NonFinite)), "steers for a goal that is not finite | {}", told());
            continue;
        }
        let out = got.map_err(|e| format!("a scan was refused | {e:?} {}", told()))?;
        let again = robot.compute(&scan, goal);
        ensure!(again.as_ref().is_ok_and(|a| *a == out), "the same scan steers differently the second time | {again:?} {}", told());
        judge(&s, &scan, goal, &out, cx).map_err(|m| if m.contains(" | ") { format!("{m} {}", told()) } else { format!("{m} | {}", told()) })?;
        // The mirror image of the scene steers the mirror image.
        let mut flipped = scan;
        flipped.reverse();
        let mirror = robot.compute(&flipped, -goal).map_err(|e| format!("the mirrored scan was refused | {e:?} {}", told()))?;
        ensure!(mirror.is_blocked() == out.is_blocked() || near_tie(&s, &scan, goal), "left and right are not treated alike | {mirror:?} {}", told());
        if !near_tie(&s, &scan, goal) && !out.is_blocked() {
            ensure!(close(mirror.heading(), -out.heading(), 1e-9, 1e-9), "left and right are not steered alike | {mirror:?} {}", told());
        }
        // Drive on.
        let (v, w, dt) = (out.body_twist().linear(), out.body_twist().angular(), e.n(4));
        let turn = w * dt;
        let chord = if turn.abs() < 1e-9 { 1.0 } else { (0.5 * turn).sin() / (0.5 * turn) };
        pose = [pose[0] + v * dt * chord * (pose[2] + 0.5 * turn).cos(), pose[1] + v * dt * chord * (pose[2] + 0.5 * turn).sin(), pose[2] + turn];
        cx.logs(&pose);
        cx.sim_time += dt;
    }
    Ok(())
}

/// Whether rounding decides which gap wins or whether one is wide enough.
fn near_tie(s: &Set, scan: &[f64], goal: f64) -> bool {
    let mut all = gaps(s, scan, goal);
    if all.iter().any(|g| g.room.abs() < 1e-6 || g.span.abs() < 1e-9) {
        return true;
    }
    all.retain(|g| g.room >= 0.0);
    all.sort_by(|a, b| b.score.total_cmp(&a.score));
    all.len() > 1 && (all[0].score - all[1].score).abs() < 1e-7 * (1.0 + s.bias * (1.0 + goal.abs()))
}

fn judge(s: &Set, scan: &[f64], goal: f64, out: &FollowTheGapOutput<f64>, cx: &mut Cx) -> R {
    let n = scan.len();
    let nearest = scan.iter().map(|v| seen(s, *v)).fold(s.reach, f64::min);
    ensure!(same(out.minimum_clearance(), nearest), "the nearest obstacle is not the nearest | want {nearest}");
    let all = gaps(s, scan, goal);
    let fitting = all.iter().filter(|g| g.room > 1e-6).count();
    let maybe = all.iter().filter(|g| g.room > -1e-6).count();
    if out.is_blocked() {
        cx.reach("blocked");
        ensure!(fitting == 0, "stops although there is a gap it fits through | {fitting} gaps");
        ensure!(out.body_twist().linear() == 0.0 && out.body_twist().angular() == 0.0, "moves although blocked");
        ensure!(out.heading() == 0.0 && out.gap_start_index() == 0 && out.gap_end_index() == 0, "names a gap although blocked");
        return Ok(());
    }
    ensure!(maybe > 0, "drives although no gap is wide enough");
    let Some(mine) = all.iter().find(|g| g.start == out.gap_start_index() && g.end == out.gap_end_index()) else {
        return Err("the gap chosen is no open stretch of the scan".into());
    };
    ensure!(mine.room > -1e-6, "the gap chosen is too narrow for the robot | short by {}", -mine.room);
    if all.iter().any(|g| g.span.abs() < 1e-9) {
        cx.reach("edges just touching");
        return Ok(());
    }
    let slack = 1e-7 * (1.0 + s.bias * (1.0 + goal.abs()));
    for g in &all {
        if g.room > 1e-6 {
            ensure!(g.score <= mine.score + slack, "a better gap was left | beams {} to {} score {} against {}", g.start, g.end, g.score, mine.score);
            if (g.score - mine.score).abs() <= slack && g.start != mine.start {
                cx.reach("two gaps tied");
            }
        }
    }
    ensure!(close(out.heading(), mine.aim, 1e-9, 1e-9), "does not aim where the gap allows | {} want {}", out.heading(), mine.aim);
    ensure!(out.heading() >= angle(s, n, mine.start) - 1e-9 && out.heading() <= angle(s, n, mine.end) + 1e-9, "aims outside the gap chosen");
    let turn = s.gain * out.heading();
    ensure!(close(out.body_twist().angular(), turn, 1e-12, 1e-12), "turns otherwise than it steers | want {turn}");
    let ahead = |half: f64| (0..n).filter(|i| angle(s, n, *i).abs() <= half).map(|i| seen(s, scan[i])).fold(s.reach, f64::min);
    let speed = |clear: f64| s.cruise * ((clear - s.stop) / (s.clear - s.stop)).clamp(0.0, 1.0);
    // Rounding decides whether a beam right on the edge of the front counts.
    let sure = ahead(s.front - 1e-9);
    let mut fits = vec![speed(sure)];
    fits.extend((0..n).filter(|i| (angle(s, n, *i).abs() - s.front).abs() <= 1e-9).map(|i| speed(sure.min(seen(s, scan[i])))));
    let v = out.body_twist().linear();
    ensure!(fits.iter().any(|w| close(v, *w, 1e-9, 1e-9)), "drives at another speed than the space ahead allows | {v} want {fits:?}");
    ensure!(v >= 0.0 && v <= s.cruise, "drives backwards or too fast");
    if v == 0.0 {
        cx.reach("stopped by the space ahead");
    } else if v < s.cruise {
        cx.reach("slowed down");
    }
    cx.state(&[n as i64, all.len() as i64, fitting as i64, (4.0 * out.heading()) as i64, (3.0 * v / s.cruise) as i64]);
    Ok(())
}

fn geometry<const B: usize>(s: &Set, shape: ScanGeometry<B>, t: &Trace, cx: &mut Cx) -> R {
    let told = format!("{shape:?}");
    ensure!(shape.minimum_range() == 0.0 && shape.maximum_range() == s.reach && shape.field_of_view() == s.fov && shape.num_beams() == B, "a scan's shape is not as made | {told}");
    ensure!(close(shape.angle_increment(), s.fov / (B - 1) as f64, 0.0, 1e-12), "beams are spaced otherwise | {told}");
    let low = if t.c(13) < s.reach { t.c(13).max(0.0) } else { 0.0 };
    for (v, want) in [
        (f64::NAN, Some(MappingError::NonFinite)),
        (-1e-9, Some(MappingError::InvalidRangeLimits)),
        (s.reach, Some(MappingError::InvalidRangeLimits)),
        (low, None),
    ] {
        let got = shape.with_minimum_range(v);
        ensure!(got.as_ref().err() == want.as_ref(), "a blind spot is taken or refused for another reason | {v} {got:?}");
    }
    let shape = shape.with_minimum_range(low).map_err(|e| format!("a blind spot was refused | {e:?}"))?;
    for (v, ok) in [(low, true), (s.reach, true), (0.5 * (low + s.reach), true), (s.reach * 1.000001, false), (f64::INFINITY, false), (f64::NAN, false), (low - 1e-6, false), (f64::NEG_INFINITY, false)] {
        ensure!(shape.range_is_valid(v) == ok, "a reading is believed or not, wrongly | {v} {shape:?}");
    }
    let step = s.fov / (B - 1) as f64;
    for i in 0..B {
        let a = shape.beam_angle(i);
        ensure!(a.is_some_and(|a| close(a, angle(s, B, i), 1e-12, 0.0)), "a beam points elsewhere | {i} {a:?} {shape:?}");
        let a = a.unwrap_or(0.0);
        // Just to either side of the beam, and not past the arc.
        for off in [0.0, 0.49, -0.49, 0.3, -0.3] {
            let at = (a + off * step).clamp(-0.5 * s.fov, 0.5 * s.fov);
            ensure!(shape.nearest_beam_index(at) == Some(i) || (off == 0.0 && at != a), "another beam is called the nearest | angle {at} beam {i} got {:?} {shape:?}", shape.nearest_beam_index(at));
        }
    }
    ensure!(shape.beam_angle(B).is_none(), "names a beam it has not | {shape:?}");
    for out in [0.5 * s.fov + 1e-6, -0.5 * s.fov - 1e-6, f64::NAN, f64::INFINITY] {
        ensure!(shape.nearest_beam_index(out).is_none(), "a beam looks outside the arc | {out} {shape:?}");
    }
    cx.reach("scan geometry matched");
    Ok(())
}
