//! Dead reckoning and tracking, waypoint paths under edit histories, and motion profiles read by
//! faulty clocks: the real ones and models written apart from the library.

use super::comps::*;
use crate::core::*;
use crate::refs::wrap_pi;
use crate::{comp, model};
use multicalc::control::pure_pursuit_curvature;
use multicalc::kinematics::*;
use multicalc::linear_algebra::Vector;
use multicalc::motion::*;
use multicalc::scalar::VectorFn;
use multicalc::spatial::{SE2, SO2};

fn at(a: &[f64], i: usize) -> f64 {
    a.get(i).copied().unwrap_or(0.0)
}
const NF: f64 = f64::NAN;
fn spoil(r: &mut Rng, p: &mut [f64], choices: &[(usize, f64)]) {
    let (i, v) = *r.pick(choices);
    p[i] = if v.is_nan() { r.broken() } else { v };
}
fn finite_all(p: &[f64]) -> bool {
    p.iter().all(|v| v.is_finite())
}

// ----- Dead reckoning -----
// params: wheel radius, wheelbase, start x y heading

#[derive(Clone)]
struct Reckoner {
    drive: DifferentialDrive<f64>,
    start: [f64; 3],
    pose: SE2<f64>,
}
fn se2(p: [f64; 3]) -> SE2<f64> {
    SE2::from_parts(SO2::exp(p[2]), Vector::new([p[0], p[1]]))
}
fn drive_params(r: &mut Rng, bad: bool) -> Vec<f64> {
    let mut p = vec![
        r.log_range(0.01, 1.0),
        r.log_range(0.05, 2.0),
        if r.chance(0.3) { 0.0 } else { r.range(-10.0, 10.0) },
        if r.chance(0.3) { 0.0 } else { r.range(-10.0, 10.0) },
        r.range(-3.1, 3.1),
    ];
    if bad {
        spoil(r, &mut p, &[(0, NF), (1, NF), (0, 0.0), (1, 0.0), (0, -1.0), (1, -1.0)]);
    }
    p
}
fn drive_real(p: &[f64]) -> MadeReal {
    boxed(say(DifferentialDrive::new(p[0], p[1])).map(|drive| {
        let start = [p[2], p[3], p[4]];
        Reckoner { drive, start, pose: se2(start) }
    }))
}
impl Reckoner {
    fn out(&self) -> Out {
        let t = self.pose.translation();
        let (c, s) = self.pose.rotation().cos_sin();
        Out::V(vec![t[0], t[1], c, s])
    }
}
comp!(Reckoner, |s, op, a| {
    match op {
        // Wheel travel since the last reading.
        0 => {
            let turned = s.drive.wheel_rotations_from_travel(at(a, 0), at(a, 1));
            s.pose = s.drive.odometry_step(s.pose, turned);
            s.out()
        }
        1 => {
            s.pose = se2(s.start);
            s.out()
        }
        // Wheel speeds held for a while.
        2 => {
            let twist = s.drive.forward(WheelVelocities::new(at(a, 0), at(a, 1)));
            s.pose = integrate(s.pose, twist.integrate_over(at(a, 2)));
            s.out()
        }
        // The process model a filter differentiates.
        3 => {
            let t = s.pose.translation();
            let arc = s.drive.forward_arc(WheelRotations::new(at(a, 0), at(a, 1)));
            let n = OdometryStep.eval(&[t[0], t[1], s.pose.rotation().log(), arc.linear(), arc.angular()]);
            s.pose = se2([n[0], n[1], n[2]]);
            let mut out = vec![n[2]];
            if let Out::V(x) = s.out() {
                out.extend(x);
            }
            Out::V(out)
        }
        // Many readings in a row: the rotation must stay one.
        4 => {
            for _ in 0..(at(a, 2) as usize).min(4000) {
                let turned = s.drive.wheel_rotations_from_travel(at(a, 0), at(a, 1));
                s.pose = s.drive.odometry_step(s.pose, turned);
            }
            s.out()
        }
        // Wanted motion to wheel speeds and back.
        50 => {
            let w = s.drive.inverse(BodyTwist::new(at(a, 0), at(a, 1)));
            let b = s.drive.forward(w);
            Out::V(vec![w.left(), w.right(), b.linear(), b.angular()])
        }
        51 => {
            let w = s.drive.inverse_arc(BodyArc::new(at(a, 0), at(a, 1)));
            let b = s.drive.forward_arc(w);
            let (l, r) = s.drive.wheel_travel(w);
            let back = s.drive.wheel_rotations_from_travel(l, r);
            Out::V(vec![w.left(), w.right(), b.linear(), b.angular(), l, r, back.left(), back.right()])
        }
        // Steering at a point.
        52 => match pure_pursuit_curvature(s.pose, Vector::new([at(a, 0), at(a, 1)]), at(a, 2)) {
            Ok(c) => {
                let t = c.to_body_twist(at(a, 3));
                Out::V(vec![c.value(), t.linear(), t.angular()])
            }
            Err(e) => err(e),
        },
        53 => {
            let t = s.pose.translation();
            let d = Unicycle::new(BodyTwist::new(at(a, 0), at(a, 1)))
                .derivative(&Vector::new([t[0], t[1], s.pose.rotation().log()]));
            let f = Unicycle::new(BodyTwist::new(at(a, 0), at(a, 1))).field()(
                3.0,
                &Vector::new([t[0], t[1], s.pose.rotation().log()]),
            );
            Out::V(vec![d[0], d[1], d[2], f[0], f[1], f[2]])
        }
        54 => s.out(),
        _ => Out::Any,
    }
});
#[derive(Clone)]
struct DriveModel {
    r: f64,
    b: f64,
    start: [f64; 3],
    x: f64,
    y: f64,
    h: f64,
    lost: bool,
}
fn drive_model(p: &[f64]) -> MadeModel {
    modelled((|| {
        if !finite_all(&p[..2]) {
            return Err("NonFinite".to_string());
        }
        if p[0] <= 0.0 || p[1] <= 0.0 {
            return Err("NonPositiveParameter".to_string());
        }
        let start = [p[2], p[3], p[4]];
        Ok(DriveModel { r: p[0], b: p[1], start, x: p[2], y: p[3], h: p[4], lost: false })
    })())
}
impl DriveModel {
    fn arc(&mut self, left_m: f64, right_m: f64) {
        // The chord of the arc, at the heading half way round it.
        let s = 0.5 * (left_m + right_m);
        let turn = (right_m - left_m) / self.b;
        let half = 0.5 * turn;
        let k = if half.abs() < 1e-6 { 1.0 - half * half / 6.0 } else { half.sin() / half };
        self.x += s * k * (self.h + half).cos();
        self.y += s * k * (self.h + half).sin();
        self.h = wrap_pi(self.h + turn);
    }
    fn out(&self) -> Out {
        if self.lost {
            return Out::Any;
        }
        Out::V(vec![self.x, self.y, self.h.cos(), self.h.sin()])
    }
}
model!(DriveModel, |s, op, a, real| {
    if op < 50 && !finite_all(a) {
        s.lost = true;
    }
    match op {
        0 => s.arc(at(a, 0), at(a, 1)),
        1 => {
            [s.x, s.y, s.h] = s.start;
            s.lost = false;
        }
        2 => s.arc(s.r * at(a, 0) * at(a, 2), s.r * at(a, 1) * at(a, 2)),
        3 => {
            s.arc(s.r * at(a, 0), s.r * at(a, 1));
            if s.lost {
                return Out::Any;
            }
            // Reported in (-pi, pi]; either end is right on the boundary.
            let mut h = s.h;
            if let Out::V(r) = real {
                if r[0].abs() <= std::f64::consts::PI && wrap_pi(r[0] - h).abs() < 1e-9 {
                    h = r[0];
                }
            }
            return Out::V(vec![h, s.x, s.y, s.h.cos(), s.h.sin()]);
        }
        4 => {
            for _ in 0..(at(a, 2) as usize).min(4000) {
                s.arc(at(a, 0), at(a, 1));
            }
        }
        50 => {
            let (v, w) = (at(a, 0), at(a, 1));
            return Out::V(vec![(v - w * s.b / 2.0) / s.r, (v + w * s.b / 2.0) / s.r, v, w]);
        }
        51 => {
            let (v, w) = (at(a, 0), at(a, 1));
            let (l, r) = (v - w * s.b / 2.0, v + w * s.b / 2.0);
            return Out::V(vec![l / s.r, r / s.r, v, w, l, r, l / s.r, r / s.r]);
        }
        52 => {
            if !(at(a, 2).is_finite() && at(a, 2) > 0.0) {
                return Out::E("NonPositiveLookaheadDistance".into());
            }
            if !finite_all(&a[..2]) {
                return Out::E("NonFinite".into());
            }
            if s.lost {
                return Out::Any;
            }
            let (dx, dy) = (at(a, 0) - s.x, at(a, 1) - s.y);
            let side = dy * s.h.cos() - dx * s.h.sin();
            let mut k = 2.0 * side / at(a, 2) / at(a, 2);
            if let Out::V(r) = real {
                // On the scale of the place it is steering at.
                let size = s.x.abs() + s.y.abs() + at(a, 0).abs() + at(a, 1).abs() + 1.0;
                if (r[0] - k).abs() <= 2e-7 * size / at(a, 2) / at(a, 2) {
                    k = r[0];
                }
            }
            return Out::V(vec![k, at(a, 3), at(a, 3) * k]);
        }
        53 => {
            if s.lost {
                return Out::Any;
            }
            let d = [at(a, 0) * s.h.cos(), at(a, 0) * s.h.sin(), at(a, 1)];
            return Out::V(vec![d[0], d[1], d[2], d[0], d[1], d[2]]);
        }
        54 => {}
        _ => return Out::Any,
    }
    s.out()
});
fn drive_call(r: &mut Rng, p: &[f64], t: f64, bad: bool) -> (usize, Vec<f64>) {
    let b = if p[1].is_finite() { p[1].abs() } else { 1.0 };
    let w = if p[0].is_finite() && p[0] > 0.0 { p[0] } else { 1.0 };
    let v = 0.05 * (1.0 + (t * 3.0).sin());
    let turn = match r.below(6) {
        0 => 0.0,
        1 => 1e-9 * r.normal(),
        2 => 1e-5 * r.normal(),
        3 => 3.0 * r.normal(),
        _ => 0.1 * r.normal(),
    };
    let v = match r.below(6) {
        0 => 0.0,
        1 => -v,
        _ => v,
    };
    let mut wheels = vec![v - 0.5 * turn * b, v + 0.5 * turn * b];
    if bad {
        wheels[r.below(2)] = r.broken();
    }
    match r.below(24) {
        0 => (50, vec![r.range(-2.0, 2.0), r.range(-4.0, 4.0)]),
        1 => (51, vec![r.range(-2.0, 2.0), r.range(-4.0, 4.0)]),
        2 | 3 => {
            let mut a = vec![r.range(-10.0, 10.0), r.range(-10.0, 10.0), r.log_range(0.1, 5.0), r.range(-2.0, 2.0)];
            if r.chance(0.2) {
                let i = r.below(3);
                a[i] = if i == 2 { *r.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY]) } else { r.broken() };
            }
            (52, a)
        }
        4 => (53, vec![r.range(-2.0, 2.0), r.range(-4.0, 4.0)]),
        5 => (54, vec![]),
        6..=9 => (2, vec![wheels[0] / w / 0.02, wheels[1] / w / 0.02, if r.chance(0.1) { 0.0 } else { r.log_range(1e-4, 1.0) }]),
        10..=12 => (3, vec![wheels[0] / w, wheels[1] / w]),
        13 if r.chance(0.1) => {
            wheels.push(r.int(100, 3000) as f64);
            (4, wheels)
        }
        _ => (0, wheels),
    }
}

// ----- Waypoint paths -----
// params: loop?, then starting waypoints x y ...

type Path = PolylinePath<6, 2, f64>;
#[derive(Clone)]
struct PathReal(Path);
fn mode(loop_: f64) -> EndOfPath {
    if loop_ > 0.5 { EndOfPath::Loop } else { EndOfPath::Stop }
}
fn way(r: &mut Rng, prev: Option<[f64; 2]>) -> [f64; 2] {
    match (r.below(8), prev) {
        (0, Some(p)) => p,
        (1, _) => [r.below(4) as f64, r.below(4) as f64],
        (2, Some(p)) => [p[0] + 1.0, p[1]],
        (3, Some(p)) => [p[0] + 1e-7, p[1]],
        _ => [r.range(-5.0, 5.0), r.range(-5.0, 5.0)],
    }
}
fn path_params(r: &mut Rng, bad: bool) -> Vec<f64> {
    let mut p = vec![r.below(2) as f64];
    let n = if bad { 7 } else { r.below(7) };
    let mut prev = None;
    for _ in 0..n {
        let w = way(r, prev);
        p.extend(w);
        prev = Some(w);
    }
    if bad && r.chance(0.5) {
        p.truncate(1 + 2 * r.int(1, 6));
        let i = 1 + r.below(p.len() - 1);
        p[i] = r.broken();
    }
    p
}
fn path_real(p: &[f64]) -> MadeReal {
    let points: Vec<Vector<2, f64>> = p[1..].chunks(2).map(|c| Vector::new([c[0], c[1]])).collect();
    boxed(say(Path::try_from_points(&points)).map(|x| PathReal(x.with_end_of_path(mode(p[0])))))
}
comp!(PathReal, |s, op, a| {
    match op {
        0 => unit_or(s.0.push(Vector::new([at(a, 0), at(a, 1)]))),
        1 => {
            s.0 = Path::new();
            Out::V(vec![s.0.len() as f64, s.0.total_arc_length()])
        }
        2 => {
            s.0 = s.0.with_end_of_path(mode(at(a, 0)));
            Out::V(vec![])
        }
        50 => {
            let mut out = vec![s.0.len() as f64, s.0.is_empty() as i64 as f64, s.0.total_arc_length()];
            for w in s.0.waypoints() {
                out.extend(w.as_array());
            }
            Out::V(out)
        }
        51 => match s.0.closest_point(Vector::new([at(a, 0), at(a, 1)])) {
            Ok(p) => Out::V(vec![p.point()[0], p.point()[1], p.segment_index() as f64, p.arc_length(), p.distance()]),
            Err(e) => err(e),
        },
        52 => match s.0.lookahead_point(at(a, 0), at(a, 1)) {
            Ok(p) => Out::V(p.as_array().to_vec()),
            Err(e) => err(e),
        },
        _ => Out::Any,
    }
});
#[derive(Clone)]
struct PathModel {
    loops: bool,
    w: Vec<[f64; 2]>,
}
fn path_model(p: &[f64]) -> MadeModel {
    modelled((|| {
        let w: Vec<[f64; 2]> = p[1..].chunks(2).map(|c| [c[0], c[1]]).collect();
        if w.len() > 6 {
            return Err("CapacityExceeded".to_string());
        }
        if !finite_all(&p[1..]) {
            return Err("NonFinite".to_string());
        }
        Ok(PathModel { loops: p[0] > 0.5, w })
    })())
}
fn gap(a: [f64; 2], b: [f64; 2]) -> f64 {
    (a[0] - b[0]).hypot(a[1] - b[1])
}
impl PathModel {
    fn total(&self) -> f64 {
        self.w.windows(2).map(|p| gap(p[0], p[1])).sum()
    }
    /// The point this far along from the start, kept on the path.
    fn walk(&self, mut s: f64) -> [f64; 2] {
        for p in self.w.windows(2) {
            let l = gap(p[0], p[1]);
            if l > 0.0 && s <= l {
                let k = s / l;
                return [p[0][0] + k * (p[1][0] - p[0][0]), p[0][1] + k * (p[1][1] - p[0][1])];
            }
            s -= l;
        }
        self.w[self.w.len() - 1]
    }
}
model!(PathModel, |s, op, a, real| {
    match op {
        0 => {
            if s.w.len() == 6 {
                return Out::E("CapacityExceeded".into());
            }
            if !finite_all(a) {
                return Out::E("NonFinite".into());
            }
            s.w.push([at(a, 0), at(a, 1)]);
            Out::V(vec![])
        }
        1 => {
            s.w.clear();
            s.loops = false;
            Out::V(vec![0.0, 0.0])
        }
        2 => {
            s.loops = at(a, 0) > 0.5;
            Out::V(vec![])
        }
        50 => {
            let mut out = vec![s.w.len() as f64, s.w.is_empty() as i64 as f64, s.total()];
            s.w.iter().for_each(|w| out.extend(w));
            Out::V(out)
        }
        51 => {
            if s.w.is_empty() {
                return Out::E("PathTooShort".into());
            }
            let q = [at(a, 0), at(a, 1)];
            if s.w.len() == 1 {
                return Out::V(vec![s.w[0][0], s.w[0][1], 0.0, 0.0, gap(q, s.w[0])]);
            }
            // Every segment's nearest point; any of the equally near ones is right, and where the
            // same point belongs to two segments either may name it.
            let mut before = 0.0;
            let mut all = Vec::new();
            for (i, p) in s.w.windows(2).enumerate() {
                let d = [p[1][0] - p[0][0], p[1][1] - p[0][1]];
                let l = gap(p[0], p[1]);
                let k = if l == 0.0 {
                    0.0
                } else {
                    (((q[0] - p[0][0]) * d[0] + (q[1] - p[0][1]) * d[1]) / l / l).clamp(0.0, 1.0)
                };
                let c = [p[0][0] + k * d[0], p[0][1] + k * d[1]];
                all.push(vec![c[0], c[1], i as f64, before + k * l, gap(q, c)]);
                before += l;
            }
            let best = all.iter().map(|c| c[4]).fold(f64::INFINITY, f64::min);
            let scale = 1.0 + q[0].abs() + q[1].abs();
            let near: Vec<_> = all.into_iter().filter(|c| c[4] <= best + 1e-9 * scale).collect();
            let first = near[0].clone();
            if let Out::V(r) = real {
                if r.len() == 5 {
                    // A tie decided exactly goes to the earliest; one within rounding to any.
                    let exact: Vec<_> = near.iter().filter(|c| c[4] == best).collect();
                    if exact.len() == near.len() && near.len() > 1 {
                        // All equal to the last bit here, which rounding elsewhere may still split.
                    }
                    for c in &near {
                        if all_close(c, r, 0.0, 1e-6 * scale) {
                            return Out::V(r.clone());
                        }
                    }
                }
            }
            Out::V(first)
        }
        52 => {
            if s.w.is_empty() {
                return Out::E("PathTooShort".into());
            }
            if s.w.len() == 1 {
                return Out::V(s.w[0].to_vec());
            }
            let total = s.total();
            let mut target = at(a, 0) + at(a, 1);
            if !target.is_finite() {
                return Out::Any;
            }
            if s.loops {
                if total == 0.0 {
                    return Out::V(s.w[0].to_vec());
                }
                target = target.rem_euclid(total);
            } else if target < 0.0 {
                // Before the start of a path that does not loop: not specified.
                return Out::Any;
            }
            let want = s.walk(target.min(total));
            if let Out::V(r) = real {
                // At the seam of a loop either end is right.
                let slack = 1e-9 * (1.0 + total + (at(a, 0) + at(a, 1)).abs());
                if s.loops && (target <= slack || total - target <= slack) {
                    for end in [s.w[0], s.w[s.w.len() - 1]] {
                        if gap(end, [r[0], r[1]]) <= 1e-6 {
                            return Out::V(r.clone());
                        }
                    }
                }
            }
            Out::V(want.to_vec())
        }
        _ => Out::Any,
    }
});
fn path_call(r: &mut Rng, p: &[f64], _t: f64, bad: bool) -> (usize, Vec<f64>) {
    let prev = if p.len() >= 3 { Some([p[p.len() - 2], p[p.len() - 1]]) } else { None };
    match r.below(16) {
        0..=2 => {
            let mut w = way(r, prev).to_vec();
            if bad {
                w[r.below(2)] = r.broken();
            }
            (0, w)
        }
        3 => (2, vec![r.below(2) as f64]),
        4 | 5 => (50, vec![]),
        6..=10 => {
            // Near the path, on a waypoint, half way between two, or far off.
            let q = match r.below(4) {
                0 if p.len() >= 3 => {
                    let i = 1 + 2 * r.below((p.len() - 1) / 2);
                    vec![p[i], p[i + 1]]
                }
                1 if p.len() >= 5 => {
                    let i = 1 + 2 * r.below((p.len() - 3) / 2);
                    vec![0.5 * (p[i] + p[i + 2]), 0.5 * (p[i + 1] + p[i + 3])]
                }
                _ => vec![r.range(-8.0, 8.0), r.range(-8.0, 8.0)],
            };
            (51, q)
        }
        _ => {
            let a = match r.below(6) {
                0 => vec![0.0, 0.0],
                1 => vec![r.range(0.0, 20.0), 0.0],
                2 => vec![r.range(-30.0, 0.0), r.range(0.0, 5.0)],
                3 => vec![r.range(0.0, 200.0), r.range(0.0, 200.0)],
                _ => vec![r.range(0.0, 30.0), r.range(0.0, 5.0)],
            };
            (52, a)
        }
    }
}

// ----- Motion profiles -----
// params: axes, strategy(0 auto, 1 trapezoid, 2 jerk), then per axis: speed acc has_jerk jerk distance

#[derive(Clone)]
struct ProfileReal {
    p: Vec<f64>,
    one: Option<MotionProfile<f64>>,
    many: Option<SynchronizedProfile<3, f64>>,
}
fn limits_at(p: &[f64], i: usize) -> Result<ProfileLimits<f64>, String> {
    let a = &p[2 + 5 * i..7 + 5 * i];
    say(ProfileLimits::try_new(a[0], a[1], if a[2] > 0.5 { Some(a[3]) } else { None }))
}
fn plan_at(p: &[f64], i: usize, distance: f64) -> Result<MotionProfile<f64>, String> {
    let planner = MotionProfilePlanner::new(limits_at(p, i)?);
    let planner = match p[1] as i64 {
        0 => planner,
        1 => planner.with_strategy(ProfileStrategy::Trapezoidal),
        _ => planner.with_strategy(ProfileStrategy::JerkLimited),
    };
    say(planner.plan(distance))
}
fn profile_params(r: &mut Rng, bad: bool) -> Vec<f64> {
    let axes = if r.chance(0.5) { 1 } else { 3 };
    let strategy = r.below(3);
    let mut p = vec![axes as f64, strategy as f64];
    for _ in 0..axes {
        let tidy = r.chance(0.3);
        let pick = |r: &mut Rng| if tidy { *r.pick(&[1.0, 2.0, 4.0, 0.5]) } else { r.log_range(0.05, 20.0) };
        p.extend([pick(r), pick(r), if strategy == 2 || r.chance(0.6) { 1.0 } else { 0.0 }, pick(r)]);
        let d = match r.below(8) {
            0 => 0.0,
            1 => r.sign() * r.log_range(1e-9, 1e-3),
            2 => r.sign() * r.log_range(10.0, 1e5),
            3 => *r.pick(&[1.0, -2.0, 8.0, 4.0]),
            _ => r.sign() * r.log_range(1e-3, 50.0),
        };
        p.push(d);
    }
    if bad {
        let k = 2 + 5 * r.below(axes);
        match r.below(3) {
            0 => {
                p[1] = 2.0;
                p[k + 2] = 0.0;
            }
            1 => p[k + 4] = r.broken(),
            _ => {
                p[k + 2] = 1.0;
                let i = *r.pick(&[0usize, 1, 3]);
                p[k + i] = *r.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY]);
            }
        }
    }
    p
}
fn made_profile(p: &[f64], scale: f64) -> Result<ProfileReal, String> {
    if p[0] < 2.0 {
        return Ok(ProfileReal { p: p.to_vec(), one: Some(plan_at(p, 0, p[6] * scale)?), many: None });
    }
    let axes = [plan_at(p, 0, p[6] * scale)?, plan_at(p, 1, p[11] * scale)?, plan_at(p, 2, p[16] * scale)?];
    Ok(ProfileReal { p: p.to_vec(), one: None, many: Some(SynchronizedProfile::from_profiles(axes)) })
}
fn profile_real(p: &[f64]) -> MadeReal {
    boxed(made_profile(p, 1.0))
}
comp!(ProfileReal, |s, op, a| {
    let st = |x: &ProfileState<f64>| vec![x.position, x.velocity, x.acceleration, x.jerk];
    match op {
        // Where to be now.
        0 => {
            if let Some(one) = &s.one {
                return match one.state_at(at(a, 0)) {
                    Ok(x) => Out::V(st(&x)),
                    Err(e) => err(e),
                };
            }
            match s.many.expect("axes").state_at(at(a, 0)) {
                Ok(x) => {
                    let mut out = vec![];
                    for i in 0..3 {
                        out.extend([x.position[i], x.velocity[i], x.acceleration[i], x.jerk[i]]);
                    }
                    Out::V(out)
                }
                Err(e) => err(e),
            }
        }
        1 => match made_profile(&s.p, 1.0) {
            Ok(x) => {
                *s = x;
                Out::V(vec![])
            }
            Err(e) => Out::E(e),
        },
        // A new move of another length.
        2 => match made_profile(&s.p, at(a, 0)) {
            Ok(x) => {
                *s = x;
                Out::V(vec![])
            }
            Err(e) => Out::E(e),
        },
        // Slow it down (or ask it to hurry, which it may not).
        3 => {
            if let Some(one) = s.one.as_mut() {
                *one = one.stretched_to(at(a, 0));
                return Out::V(vec![one.duration(), one.distance()]);
            }
            let many = s.many.expect("axes");
            let axes = [0, 1, 2].map(|i| *many.axis(i).expect("axis"));
            match SynchronizedProfile::try_from_profiles_over(axes, at(a, 0)) {
                Ok(x) => {
                    s.many = Some(x);
                    Out::V(vec![x.duration(), 0.0])
                }
                Err(e) => err(e),
            }
        }
        50 => {
            if let Some(one) = &s.one {
                let mut out = vec![one.duration(), one.distance(), one.peak_speed()];
                out.push(one.phase_durations().iter().sum());
                return Out::V(out);
            }
            let many = s.many.expect("axes");
            let mut out = vec![many.duration(), many.axis(3).is_none() as i64 as f64];
            for i in 0..3 {
                let x = many.axis(i).expect("axis");
                out.extend([x.duration(), x.distance()]);
            }
            Out::V(out)
        }
        _ => Out::Any,
    }
});

/// A move as seven stretches of constant jerk from its own solve, in its own unstretched time.
#[derive(Clone)]
struct Move {
    sign: f64,
    /// Start time, length, jerk, and starting acceleration, velocity and position.
    phases: Vec<[f64; 6]>,
    total: f64,
    distance: f64,
    peak: f64,
    slow: f64,
}
fn ramp(v: f64, a: f64, j: Option<f64>) -> (f64, f64) {
    // Time at each jerk, and time at full acceleration.
    match j {
        None => (0.0, v / a),
        Some(j) => {
            if v * j >= a * a { (a / j, v / a - a / j) } else { ((v / j).sqrt(), 0.0) }
        }
    }
}
impl Move {
    fn plan(d: f64, v_max: f64, a: f64, j: Option<f64>) -> Move {
        let sign = if d < 0.0 { -1.0 } else { 1.0 };
        let d = d.abs();
        let length = |v: f64| {
            let (tj, ta) = ramp(v, a, j);
            v * (2.0 * tj + ta)
        };
        let mut m = Move { sign, phases: vec![], total: 0.0, distance: sign * d, peak: 0.0, slow: 1.0 };
        if d == 0.0 {
            return m;
        }
        // Fastest cruise whose two ramps fit: bisection on the peak speed.
        let peak = if length(v_max) <= d {
            v_max
        } else {
            let (mut lo, mut hi) = (0.0f64, v_max);
            for _ in 0..2000 {
                let mid = if hi > 4.0 * lo && lo > 0.0 { (lo * hi).sqrt() } else { 0.5 * (lo + hi) };
                if mid <= lo || mid >= hi {
                    break;
                }
                if length(mid) <= d {
                    lo = mid;
                } else {
                    hi = mid;
                }
            }
            0.5 * (lo + hi)
        };
        let (tj, ta) = ramp(peak, a, j);
        let cruise = ((d - length(peak)) / peak).max(0.0);
        let jj = j.unwrap_or(0.0);
        let top = if j.is_some() { jj * tj } else { a };
        let spec = [
            (tj, jj, 0.0),
            (ta, 0.0, top),
            (tj, -jj, top),
            (cruise, 0.0, 0.0),
            (tj, -jj, 0.0),
            (ta, 0.0, -top),
            (tj, jj, -top),
        ];
        let (mut t, mut v, mut x) = (0.0, 0.0, 0.0);
        for (l, j, a0) in spec {
            m.phases.push([t, l, j, a0, v, x]);
            x += l * (v + l * (a0 / 2.0 + l * j / 6.0));
            v += l * (a0 + l * j / 2.0);
            t += l;
        }
        m.total = t;
        m.peak = sign * peak;
        m
    }
    fn duration(&self) -> f64 {
        self.total * self.slow
    }
    /// Position, velocity, acceleration and jerk; the flag says an acceleration step is too near
    /// to say which side a reading is on.
    fn read(&self, t: f64) -> ([f64; 4], bool) {
        let s = self.slow;
        let t0 = t.max(0.0).min(self.duration()) / s;
        let edge = 1e-9 * (self.total + 1e-300);
        let rest = [self.distance, 0.0, 0.0, 0.0];
        if t >= self.duration() * (1.0 + 1e-12) || self.total == 0.0 {
            return (rest, false);
        }
        let unsure = self.phases.iter().any(|p| {
            let end = p[0] + p[1];
            (t0 - end).abs() <= edge
        });
        for p in &self.phases {
            let e = t0 - p[0];
            if e < p[1] {
                let k = self.sign;
                return (
                    [
                        k * (p[5] + e * (p[4] + e * (p[3] / 2.0 + e * p[2] / 6.0))),
                        k * (p[4] + e * (p[3] + e * p[2] / 2.0)) / s,
                        k * (p[3] + e * p[2]) / s / s,
                        k * p[2] / s / s / s,
                    ],
                    unsure,
                );
            }
        }
        (rest, unsure)
    }
}
#[derive(Clone)]
struct ProfileModel {
    p: Vec<f64>,
    axes: Vec<Move>,
    common: f64,
}
fn modelled_moves(p: &[f64], scale: f64) -> Result<ProfileModel, String> {
    let n = p[0] as usize;
    let mut axes = Vec::new();
    for i in 0..n {
        let a = &p[2 + 5 * i..7 + 5 * i];
        let good = |v: f64| v.is_finite() && v > 0.0;
        if !good(a[0]) || !good(a[1]) || (a[2] > 0.5 && !good(a[3])) {
            return Err("LimitNotPositive".into());
        }
        let d = a[4] * scale;
        if !d.is_finite() {
            return Err("NonFinite".into());
        }
        if p[1] >= 2.0 && a[2] < 0.5 {
            return Err("JerkLimitRequired".into());
        }
        let j = if p[1] == 1.0 || a[2] < 0.5 { None } else { Some(a[3]) };
        axes.push(Move::plan(d, a[0], a[1], j));
    }
    let common = axes.iter().map(|m| m.total).fold(0.0, f64::max);
    if n > 1 {
        for m in &mut axes {
            if m.total > 0.0 {
                m.slow = common / m.total;
            }
        }
    }
    Ok(ProfileModel { p: p.to_vec(), axes, common })
}
fn profile_model(p: &[f64]) -> MadeModel {
    modelled(modelled_moves(p, 1.0))
}
model!(ProfileModel, |s, op, a, real| {
    match op {
        0 => {
            let t = at(a, 0);
            if !t.is_finite() {
                return Out::E("NonFinite".into());
            }
            let mut out = vec![];
            for (i, m) in s.axes.iter().enumerate() {
                let (want, unsure) = m.read(t);
                let end = (t - m.duration()).abs() <= 1e-9 * (m.duration() + 1e-300);
                let size = [m.distance.abs(), m.peak.abs() / m.slow];
                for k in 0..4 {
                    let mut w = want[k];
                    if let Out::V(r) = real {
                        let got = r[4 * i + k];
                        let ok = match k {
                            // Each on the scale of its own move.
                            0 | 1 => (got - w).abs() <= 1e-8 * size[k] + 1e-30,
                            _ if unsure || end => {
                                // One side of the step or the other.
                                let d = 1e-7 * m.duration();
                                let side = |t: f64| m.read(t).0[k];
                                let (b, f) = (side(t - d), side(t + d));
                                let top = m.phases.iter().map(|p| p[k].abs().max(p[5 - k].abs())).fold(0.0, f64::max);
                                let near = |x: f64| (got - x).abs() <= 1e-5 * (x.abs() + top) / m.slow.powi(k as i32);
                                near(b) || near(f) || near(w) || (end && got == 0.0) || m.touching(t).iter().any(|x| near(x[k - 2]))
                            }
                            _ => {
                                let top = m.p_top(k) / m.slow.powi(k as i32);
                                (got - w).abs() <= 1e-7 * top
                            }
                        };
                        if ok {
                            w = got;
                        }
                    }
                    out.push(w);
                }
            }
            Out::V(out)
        }
        1 | 2 => match modelled_moves(&s.p, if op == 1 { 1.0 } else { at(a, 0) }) {
            Ok(x) => {
                *s = x;
                Out::V(vec![])
            }
            Err(e) => Out::E(e),
        },
        3 => {
            let want = at(a, 0);
            if s.axes.len() == 1 {
                let m = &mut s.axes[0];
                if want.is_finite() && want > m.duration() && m.total > 0.0 {
                    m.slow = want / m.total;
                }
                s.common = m.duration();
                return Out::V(vec![m.duration(), m.distance]);
            }
            if !want.is_finite() || want <= 0.0 {
                return Out::E("DurationNotPositive".into());
            }
            let now = s.axes.iter().map(Move::duration).fold(0.0, f64::max);
            let to = want.max(now);
            for m in &mut s.axes {
                if m.total > 0.0 && to > m.duration() {
                    m.slow = to / m.total;
                }
            }
            s.common = to;
            Out::V(vec![to, 0.0])
        }
        50 => {
            if s.axes.len() == 1 {
                let m = &s.axes[0];
                return Out::V(vec![m.duration(), m.distance, m.peak / m.slow, m.duration()]);
            }
            let mut out = vec![s.common, 1.0];
            for m in &s.axes {
                out.extend([m.duration(), m.distance]);
            }
            Out::V(out)
        }
        _ => Out::Any,
    }
});
impl Move {
    /// Acceleration and jerk of every phase this time touches, an empty one between two included.
    fn touching(&self, t: f64) -> Vec<[f64; 2]> {
        let (k, s) = (self.sign, self.slow);
        let t0 = t.max(0.0).min(self.duration()) / s;
        let edge = 1e-9 * (self.total + 1e-300);
        self.phases
            .iter()
            .filter(|p| t0 >= p[0] - edge && t0 <= p[0] + p[1] + edge)
            .map(|p| [k * (p[3] + (t0 - p[0]) * p[2]) / s / s, k * p[2] / s / s / s])
            .collect()
    }
    fn p_top(&self, k: usize) -> f64 {
        let i = 5 - k;
        self.phases.iter().map(|p| p[i].abs()).fold(0.0, f64::max)
    }
}
fn profile_call(r: &mut Rng, p: &[f64], t: f64, bad: bool) -> (usize, Vec<f64>) {
    // A guess at how long the move takes, so the clock reads inside, at and past its end.
    let i = 2 + 5 * r.below((p[0] as usize).max(1));
    let (v, a, j, d) = (p[i], p[i + 1], p[i + 3], p[i + 4].abs());
    let long = (d / v + v / a + if p[i + 2] > 0.5 { a / j } else { 0.0 }).clamp(1e-6, 1e9);
    let long = if long.is_finite() { long } else { 1.0 };
    match r.below(20) {
        0 => (2, vec![if bad { r.broken() } else { r.sign() * r.log_range(0.01, 100.0) }]),
        1 => (3, vec![if bad { r.broken() } else { *r.pick(&[0.0, -1.0, 0.5, 1.01, 2.0, 10.0]) * long }]),
        2 => (50, vec![]),
        _ if bad => (0, vec![r.broken()]),
        // A clock that runs, jumps ahead, runs back, or is exactly at an end.
        3 => (0, vec![0.0]),
        4 => (0, vec![-r.range(0.0, long)]),
        5 => (0, vec![long * r.range(1.0, 100.0)]),
        6 => (0, vec![1e-9 * long]),
        7 => (0, vec![t * long]),
        _ => (0, vec![long * r.unit() * 1.2]),
    }
}

macro_rules! kind {
    ($name:literal, $params:ident, $real:ident, $model:ident, $call:ident, $tol:expr) => {
        Kind { name: $name, params: $params, real: $real, model: Some($model), call: $call, tol: $tol }
    };
}
pub static ODOMETRY: [Kind; 1] = [kind!("odometry", drive_params, drive_real, drive_model, drive_call, 1e-7)];
pub static PATHS: [Kind; 1] = [kind!("path", path_params, path_real, path_model, path_call, 1e-8)];
pub static PROFILES: [Kind; 1] = [kind!("profile", profile_params, profile_real, profile_model, profile_call, 1e-7)];
pub static ODOMETRY_WORLD: Components = Components { name: "odometry", kinds: || &ODOMETRY, mode: Mode::Model };
pub static PATH_WORLD: Components = Components { name: "paths", kinds: || &PATHS, mode: Mode::Model };
pub static PROFILE_WORLD: Components = Components { name: "profiles", kinds: || &PROFILES, mode: Mode::Model };
