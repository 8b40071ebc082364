//! An arm servoing after a target, its encoders failing, started again from redrawn seeds.

use crate::conv::*;
use crate::core::*;
use crate::ensure;
use crate::refs::*;
use multicalc::error::KinematicsError;
use multicalc::kinematics::*;
use multicalc::linear_algebra::Vector;
use multicalc::random::RandomSource;
use multicalc::spatial::{Quaternion, SE3, SO3};

pub const C: usize = 16;
const STARTS: usize = 6;
pub type Tree = KinematicTree<8, C, f64>;

#[derive(Clone, Debug)]
pub struct Link {
    pub kind: JointKind,
    pub parent: Option<usize>,
    pub r: Mat,
    pub p: V3,
    pub axis: V3,
    pub anchor: V3,
    pub zero: f64,
    pub limits: Option<(f64, f64)>,
    pub at: usize,
    pub vat: usize,
}

/// The arm as this file sees it.
pub struct Arm {
    pub links: Vec<Link>,
    pub dof: usize,
    pub width: usize,
}

#[derive(Clone)]
pub struct Pose(pub Mat, pub V3);

impl Pose {
    pub fn then(&self, o: &Pose) -> Pose {
        Pose(self.0.mul(&o.0), add(self.1, apply(&self.0, o.1)))
    }
    pub fn inv(&self) -> Pose {
        let r = self.0.t();
        let p = scale(apply(&r, self.1), -1.0);
        Pose(r, p)
    }
    fn log(&self) -> ([f64; 6], f64) {
        let w = log_so3(&self.0);
        let th = norm(w);
        let c = cross(w, self.1);
        let cc = cross(w, c);
        let k = if th < 1e-3 { 1.0 / 12.0 + th * th / 720.0 } else { (1.0 - th * th.sin() / (2.0 * (1.0 - th.cos()))) / (th * th) };
        let v = add(sub(self.1, scale(c, 0.5)), scale(cc, k));
        ([v[0], v[1], v[2], w[0], w[1], w[2]], th)
    }
}

pub fn quat_mat(q: [f64; 4]) -> Option<Mat> {
    let n = q.iter().map(|v| v * v).sum::<f64>().sqrt();
    if n == 0.0 || !n.is_finite() {
        return None;
    }
    let [w, x, y, z] = q.map(|v| v / n);
    Some(Mat {
        r: 3,
        c: 3,
        d: vec![
            1.0 - 2.0 * (y * y + z * z),
            2.0 * (x * y - w * z),
            2.0 * (x * z + w * y),
            2.0 * (x * y + w * z),
            1.0 - 2.0 * (x * x + z * z),
            2.0 * (y * z - w * x),
            2.0 * (x * z - w * y),
            2.0 * (y * z + w * x),
            1.0 - 2.0 * (x * x + y * y),
        ],
    })
}

impl Arm {
    pub fn local(&self, l: &Link, q: &[f64]) -> Option<Pose> {
        Some(match l.kind {
            JointKind::Fixed => Pose(Mat::eye(3), [0.0; 3]),
            JointKind::Prismatic => Pose(Mat::eye(3), scale(l.axis, q[l.at] - l.zero)),
            JointKind::Floating => Pose(quat_mat([q[3], q[4], q[5], q[6]])?, [q[0], q[1], q[2]]),
            _ => {
                let r = exp_so3(scale(l.axis, q[l.at] - l.zero));
                let p = sub(l.anchor, apply(&r, l.anchor));
                Pose(r, p)
            }
        })
    }
    pub fn tool(&self, q: &[f64], tool: usize) -> Option<Pose> {
        let mut chain = vec![tool];
        while let Some(p) = self.links[chain[chain.len() - 1]].parent {
            chain.push(p);
        }
        let mut at = Pose(Mat::eye(3), [0.0; 3]);
        for i in chain.into_iter().rev() {
            let l = &self.links[i];
            let local = self.local(l, q)?;
            at = at.then(&Pose(l.r.clone(), l.p)).then(&local);
        }
        Some(at)
    }
    /// The same derivative from the geometry: a turn sweeps the tool about its axis, a slide
    /// carries it along. Read along the tool's own axes.
    pub fn jacobian(&self, q: &[f64], tool: usize) -> Option<Mat> {
        let mut chain = vec![tool];
        while let Some(p) = self.links[chain[chain.len() - 1]].parent {
            chain.push(p);
        }
        let here = self.tool(q, tool)?;
        let back = here.0.t();
        let mut j = Mat::zeros(6, self.dof);
        let mut put = |v: usize, lin: V3, ang: V3| {
            let (lin, ang) = (apply(&back, lin), apply(&back, ang));
            for r in 0..3 {
                j.set(r, v, lin[r]);
                j.set(r + 3, v, ang[r]);
            }
        };
        for &i in &chain {
            let l = &self.links[i];
            // The joint's frame before it moves.
            let base = match l.parent {
                Some(p) => self.tool(q, p)?,
                None => Pose(Mat::eye(3), [0.0; 3]),
            }
            .then(&Pose(l.r.clone(), l.p));
            let axis = apply(&base.0, l.axis);
            match l.kind {
                JointKind::Fixed => {}
                JointKind::Prismatic => put(l.vat, axis, [0.0; 3]),
                JointKind::Floating => {
                    let moved = base.then(&self.local(l, q)?);
                    for k in 0..3 {
                        let mut unit = [0.0; 3];
                        unit[k] = 1.0;
                        put(k, apply(&base.0, unit), [0.0; 3]);
                        let turn = apply(&moved.0, unit);
                        put(3 + k, cross(turn, sub(here.1, moved.1)), turn);
                    }
                }
                _ => {
                    let on_axis = add(base.1, apply(&base.0, l.anchor));
                    put(l.vat, cross(axis, sub(here.1, on_axis)), axis);
                }
            }
        }
        Some(j)
    }
    pub fn clamp(&self, q: &mut [f64]) {
        for l in &self.links {
            if let (Some((lo, hi)), true) = (l.limits, l.kind != JointKind::Floating) {
                q[l.at] = q[l.at].max(lo).min(hi);
            }
        }
    }
    pub fn distance(&self, a: &[f64], b: &[f64]) -> f64 {
        let mut t = 0.0;
        for l in &self.links {
            match l.kind {
                JointKind::Fixed => {}
                JointKind::Floating => {
                    let (Some(x), Some(y)) = (self.local(l, a), self.local(l, b)) else { continue };
                    t += norm(sub(x.1, y.1)).powi(2) + norm(log_so3(&x.0.t().mul(&y.0))).powi(2);
                }
                JointKind::Continuous => t += wrap_pi(a[l.at] - b[l.at]).powi(2),
                _ => t += (a[l.at] - b[l.at]).powi(2),
            }
        }
        t.sqrt()
    }
}

pub fn build(seed: u64) -> (Arm, Vec<Joint<f64>>, Vec<JointParent>) {
    let mut r = Rng::new(seed);
    let mut links = Vec::new();
    let (mut joints, mut parents) = (Vec::new(), Vec::new());
    let n = r.int(2, 8);
    let floating = r.chance(0.1);
    let simple = r.chance(0.5);
    for i in 0..n {
        let kind = match r.below(20) {
            _ if i == 0 && floating => JointKind::Floating,
            0..=9 => JointKind::Revolute,
            10..=12 => JointKind::Prismatic,
            13..=17 => JointKind::Continuous,
            _ => JointKind::Fixed,
        };
        let parent = if i == 0 { None } else if r.chance(0.9) { Some(i - 1) } else { Some(r.below(i)) };
        let w = if simple && r.chance(0.5) { [0.0; 3] } else { [r.range(-1.5, 1.5), r.range(-1.5, 1.5), r.range(-1.5, 1.5)] };
        let p = [r.range(-0.5, 0.5), r.range(-0.5, 0.5), r.range(0.0, 0.6)];
        let axis = if simple {
            let mut a = [0.0; 3];
            a[r.below(3)] = r.sign();
            a
        } else {
            [r.normal(), r.normal(), r.normal()]
        };
        let anchor = if r.chance(0.15) { [r.range(-0.3, 0.3), r.range(-0.3, 0.3), 0.0] } else { [0.0; 3] };
        let zero = if r.chance(0.2) { r.range(-1.0, 1.0) } else { 0.0 };
        let limits = if r.chance(0.5) && matches!(kind, JointKind::Revolute | JointKind::Prismatic) {
            let lo = r.range(-2.0, 0.5);
            Some((lo, lo + if r.chance(0.1) { 0.0 } else { r.range(0.2, 3.0) }))
        } else {
            None
        };
        let origin = SE3::from_parts(SO3::exp(v3(w)), v3(p));
        let mut j = match kind {
            JointKind::Revolute => Joint::revolute(v3(axis), origin),
            JointKind::Prismatic => Joint::prismatic(v3(axis), origin),
            JointKind::Continuous => Joint::continuous(v3(axis), origin),
            JointKind::Floating => Joint::floating(origin),
            JointKind::Fixed => Joint::fixed(origin),
        };
        if matches!(kind, JointKind::Revolute | JointKind::Continuous) {
            j = j.with_anchor(v3(anchor));
        }
        if !matches!(kind, JointKind::Fixed | JointKind::Floating) {
            j = j.with_zero_offset(zero);
        }
        if let Some((lo, hi)) = limits {
            j = j.with_limits(lo, hi);
        }
        joints.push(j);
        parents.push(parent.map_or(JointParent::World, JointParent::Joint));
        let (at, vat) = if floating && i > 0 { (i + 6, i + 5) } else { (i, i) };
        links.push(Link { kind, parent, r: exp_so3(w), p, axis: unit(axis).unwrap_or([0.0; 3]), anchor, zero, limits, at, vat });
    }
    let (dof, width) = if floating { (n + 5, n + 6) } else { (n, n) };
    (Arm { links, dof, width }, joints, parents)
}

/// A source that hands out what it is told to, and counts.
struct Draws {
    seed: u64,
    kind: usize,
    taken: usize,
    cache: Option<f64>,
}

impl RandomSource<f64> for Draws {
    fn next_u32(&mut self) -> u32 {
        self.taken += 1;
        match self.kind {
            1 => 0,
            2 => u32::MAX,
            3 => (self.seed >> 7) as u32,
            _ => (splitmix(&mut self.seed) >> 32) as u32,
        }
    }
    fn get_cache(&mut self) -> Option<f64> {
        self.cache.take()
    }
    fn set_cache(&mut self, value: f64) {
        self.cache = Some(value);
    }
}

pub struct Servo;

impl World for Servo {
    fn name(&self) -> &'static str {
        "servo"
    }

    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        let plain = r.chance(0.5);
        t.cfg = vec![
            r.below(1 << 30) as f64,
            if plain { 1e-6 } else { r.log_range(1e-9, 1e-1) },
            if plain { 1e-6 } else { r.log_range(1e-9, 1e-1) },
            if plain { 100.0 } else { r.int(0, 60) as f64 },
            if plain { 1e-3 } else { r.log_range(1e-4, 0.3) },
            if plain { 1e-2 } else { r.log_range(1e-3, 0.5) },
            if plain { 0.2 } else { r.log_range(1e-2, 2.0) },
            f64::from(r.chance(0.75)),
            f64::from(r.chance(0.2)),
            r.below(4) as f64,
            r.log_range(1e-3, 0.5),
            r.below(8) as f64,
        ];
        for _ in 0..r.int(2, 7) {
            match r.below(10) {
                0 => t.evs.push(ev("encoder", &[r.below(8) as f64, r.below(5) as f64, r.normal() * r.log_range(0.1, 100.0)])),
                1 => t.evs.push(ev("home", &[r.below(1 << 30) as f64])),
                2 => t.evs.push(ev(
                    "starts",
                    &[
                        r.below(1 << 30) as f64,
                        r.int(0, STARTS + 1) as f64,
                        if r.chance(0.3) { r.int(1, 3) as f64 } else { 0.0 },
                        if r.chance(0.5) { 1e-3 } else { r.log_range(1e-6, 3.0) },
                        if r.chance(0.5) { std::f64::consts::PI } else { r.log_range(1e-3, 10.0) },
                        r.below(3) as f64,
                    ],
                )),
                _ => t.evs.push(ev(
                    "reach",
                    &[
                        r.below(6) as f64,
                        r.below(1 << 30) as f64,
                        r.log_range(1e-3, 1.0),
                        if r.chance(0.06) { r.broken() } else { 0.0 },
                        r.below(7) as f64,
                    ],
                )),
            }
        }
        t
    }

    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        let (arm, joints, parents) = build(t.cu(0) as u64);
        let tree = Tree::try_from_joints(&joints, &parents).map_err(|e| format!("a sound arm was refused | {e:?}"))?;
        ensure!(tree.config_len() == arm.width && tree.velocity_len() == arm.dof, "the arm has another shape");
        let mut r = Rng::new(mix(t.cu(0) as u64, 5));
        let weights: [f64; C] = std::array::from_fn(|_| if t.cu(8) == 1 { r.log_range(0.2, 5.0) } else { 1.0 });
        let posture: [f64; C] = std::array::from_fn(|_| r.range(-2.0, 2.0));
        let solver = |budget: usize| {
            InverseKinematics::<C, f64>::new()
                .with_position_tolerance(t.c(1))
                .with_orientation_tolerance(t.c(2))
                .with_maximum_iterations(budget)
                .with_singular_value_threshold(t.c(4))
                .with_maximum_damping(t.c(5))
                .with_maximum_step_norm(t.c(6))
                .with_respect_limits(t.cu(7) == 1)
                .with_joint_weights(Vector::new(weights))
                .with_secondary_gain(t.c(10))
                .with_secondary_objective(match t.cu(9) {
                    1 => SecondaryObjective::PreferredPosture(Vector::new(posture)),
                    2 => SecondaryObjective::JointLimitMargin,
                    _ => SecondaryObjective::None,
                })
        };
        let tool = t.cu(11) % arm.links.len();
        let s = Sim { t, arm: &arm, tree: &tree, weights, posture, tool };
        let mut q = random_config(&arm, &mut r);
        for e in &t.evs {
            cx.step(e.k);
            match e.k {
                "home" => q = random_config(&arm, &mut Rng::new(e.u(0) as u64)),
                "encoder" => {
                    let l = &arm.links[e.u(0) % arm.links.len()];
                    cx.fault("encoder reads wrong");
                    match e.u(1) {
                        0 => q[l.at] += e.n(2),
                        1 => q[l.at] += std::f64::consts::TAU * e.n(2).round(),
                        2 => q[l.at] = f64::NAN,
                        3 => q[l.at] = 1e3 * e.n(2),
                        _ => q = [0.0; C],
                    }
                }
                "reach" => {
                    let target = s.target(e, &q);
                    s.reach(&solver, t.cu(3), &mut q, target, e.u(0) == 0 && e.n(2) < 0.03, cx)?;
                }
                "starts" => {
                    let target = s.target(&ev("reach", &[e.n(5), e.n(0) + 1.0, 0.3, 0.0, 0.0]), &q);
                    s.starts(e, solver(t.cu(3).min(40)), &q, target, cx)?;
                }
                _ => {}
            }
        }
        Ok(())
    }
}

pub fn random_config(arm: &Arm, r: &mut Rng) -> [f64; C] {
    let mut q = [0.0; C];
    for l in &arm.links {
        match l.kind {
            JointKind::Floating => {
                for v in q.iter_mut().take(7) {
                    *v = r.normal();
                }
                let n = q[3..7].iter().map(|v| v * v).sum::<f64>().sqrt().max(1e-9);
                for v in &mut q[3..7] {
                    *v /= n;
                }
            }
            _ => {
                q[l.at] = match l.limits {
                    Some((lo, hi)) => r.range(lo, hi),
                    None => r.range(-2.0, 2.0),
                }
            }
        }
    }
    q
}

struct Sim<'a> {
    t: &'a Trace,
    arm: &'a Arm,
    tree: &'a Tree,
    weights: [f64; C],
    posture: [f64; C],
    tool: usize,
}

impl Sim<'_> {
    fn target(&self, e: &Ev, q: &[f64; C]) -> SE3<f64> {
        let mut r = Rng::new(e.u(1) as u64);
        let mut near = random_config(self.arm, &mut r);
        if e.u(0) <= 2 {
            for l in &self.arm.links {
                if l.kind != JointKind::Floating && q[l.at].is_finite() {
                    near[l.at] = q[l.at] + e.n(2) * r.range(-1.0, 1.0);
                } else if l.kind == JointKind::Floating && q[..7].iter().all(|v| v.is_finite()) && e.u(0) == 0 {
                    near[..7].copy_from_slice(&q[..7]);
                    near[0] += e.n(2) * r.range(-1.0, 1.0);
                }
            }
            if self.t.cu(7) == 1 {
                self.arm.clamp(&mut near);
            }
        }
        let Some(Pose(m, mut p)) = self.arm.tool(&near, self.tool) else { return SE3::identity() };
        let w = log_so3(&m);
        let mut rotation = SO3::exp(v3(w));
        if e.u(0) == 4 {
            p = scale(p, 20.0);
        }
        if e.u(0) == 5 {
            rotation = SO3::exp(v3([r.range(-2.0, 2.0), r.range(-2.0, 2.0), r.range(-1.0, 1.0)]));
        }
        if e.n(3) != 0.0 {
            let bad = e.n(3);
            let mut c = rotation.quaternion().as_array();
            match e.u(4) {
                k @ 0..=2 => p[k] = bad,
                k => c[k - 3] = bad,
            }
            rotation = SO3::from_quaternion(Quaternion::new(c[0], c[1], c[2], c[3]));
        }
        SE3::from_parts(rotation, v3(p))
    }

    /// The two residuals at a configuration, and whether the turn is far enough from a half turn
    /// for them to have one answer.
    fn residual(&self, q: &[f64], target: SE3<f64>) -> Option<([f64; 6], f64, f64, bool)> {
        let here = self.arm.tool(q, self.tool)?;
        let want = Pose(rot(target.rotation()), a3(target.translation()));
        let (e, th) = here.inv().then(&want).log();
        Some((e, norm([e[0], e[1], e[2]]), norm([e[3], e[4], e[5]]), th < 3.0))
    }

    fn reach(&self, solver: &dyn Fn(usize) -> InverseKinematics<C, f64>, budget: usize, q: &mut [f64; C], target: SE3<f64>, easy: bool, cx: &mut Cx) -> R {
        let t = self.t;
        let seed = *q;
        let got = solver(budget).solve(self.tree, self.tool, target, &Vector::new(seed));
        let told = || format!("{got:?} seed {seed:?} target {target:?} budget {budget} arm {:?} tool {}", self.arm.links, self.tool);
        let pose_ok = target.translation().as_array().iter().chain(target.rotation().quaternion().as_array().iter()).all(|v| v.is_finite());
        if !pose_ok || !seed.iter().all(|v| v.is_finite()) {
            cx.fault("broken target or reading");
            ensure!(matches!(got, Err(KinematicsError::NonFinite)), "a broken target or reading was taken | {}", told());
            if !seed.iter().all(|v| v.is_finite()) {
                *q = random_config(self.arm, &mut Rng::new(3));
            }
            return Ok(());
        }
        let no_way = self.arm.links[0].kind == JointKind::Floating && seed[3..7].iter().all(|v| *v == 0.0);
        if no_way {
            // An attitude of all zeros.
            ensure!(matches!(got, Err(KinematicsError::OrientationHasNoDirection)), "an attitude of zeros was taken | {}", told());
            *q = random_config(self.arm, &mut Rng::new(3));
            return Ok(());
        }
        let rep = match &got {
            Ok(r) => *r,
            Err(KinematicsError::Linalg(_)) => {
                let wild = seed.iter().any(|v| v.abs() > 1e6);
                ensure!(wild, "a decomposition failed at ordinary values | {}", told());
                cx.reach("decomposition failed far out");
                return Ok(());
            }
            Err(_) => return Err(format!("a sound request was refused | {}", told())),
        };
        let out: [f64; C] = *rep.joint_positions.as_array();
        cx.logs(&out);
        cx.logu(rep.iterations as u64);
        ensure!(out.iter().all(|v| v.is_finite()), "a command that is not finite | {}", told());
        ensure!(rep.iterations <= budget, "more iterations than allowed | {}", told());
        if t.cu(7) == 1 {
            for l in &self.arm.links {
                if let Some((lo, hi)) = l.limits {
                    ensure!(out[l.at] >= lo && out[l.at] <= hi, "a command beyond a joint limit | joint at {} {} not in {lo} {hi} {}", l.at, out[l.at], told());
                }
            }
        }
        for l in &self.arm.links {
            if l.kind == JointKind::Fixed {
                ensure!(same(out[l.at], seed[l.at]), "a fixed joint was moved | {}", told());
            }
        }
        let wild = out.iter().any(|v| v.abs() > 1e3);
        let Some((_, pe, oe, clear)) = self.residual(&out, target) else { return Err(format!("no pose | {}", told())) };
        let k = if wild { 1e-6 } else { 1e-9 };
        if clear {
            ensure!(close(rep.position_error, pe, 1e-7, k) && close(rep.orientation_error, oe, 1e-7, k), "the residuals are not those of the answer | want {pe:e} {oe:e} {}", told());
        }
        let (pt, ot) = (t.c(1), t.c(2));
        match rep.termination {
            InverseKinematicsTermination::Converged => {
                cx.reach("reached");
                ensure!(rep.position_error <= pt && rep.orientation_error <= ot, "says it is there, it is not | {}", told());
            }
            InverseKinematicsTermination::Stalled => {
                cx.reach("stalled");
                ensure!(rep.position_error > pt || rep.orientation_error > ot, "is there, says it stalled | {}", told());
            }
            InverseKinematicsTermination::IterationBudget => {
                cx.reach("budget exhausted");
                ensure!(rep.iterations == budget, "says the budget is gone, it is not | {}", told());
                ensure!(rep.position_error > pt || rep.orientation_error > ot, "is there, says the budget ran out | {}", told());
            }
            _ => return Err(format!("unknown ending | {}", told())),
        }
        // The same journey one iteration at a time, each against the published step.
        let mut at = seed;
        if t.cu(7) == 1 {
            self.arm.clamp(&mut at);
        }
        let one = solver(1);
        let steps = rep.iterations.min(12);
        for i in 0..steps {
            let step = one.solve(self.tree, self.tool, target, &Vector::new(at)).map_err(|e| format!("one step of a sound journey was refused | {e:?} at {at:?} {}", told()))?;
            let next: [f64; C] = *step.joint_positions.as_array();
            self.step(&at, &next, target, cx).map_err(|m| format!("{m} | from {at:?} to {next:?} {}", told()))?;
            if i + 1 == steps && rep.iterations == steps {
                let arrived = rep.termination != InverseKinematicsTermination::Converged || (0..C).all(|i| close(next[i], out[i], 1e-12, 1e-12)) || (0..C).all(|i| close(at[i], out[i], 1e-12, 1e-12));
                ensure!(arrived, "the journey ends elsewhere than its steps | {at:?} {next:?} {}", told());
                if rep.termination != InverseKinematicsTermination::Converged {
                    ensure!((0..C).all(|i| close(next[i], out[i], 1e-12, 1e-12)), "the journey ends elsewhere than its steps | {next:?} {}", told());
                }
            }
            at = next;
        }
        // A reachable pose close by, with every direction open, is reached.
        if easy && t.c(1) >= 1e-7 && t.c(2) >= 1e-7 && t.c(6) >= 0.1 && t.cu(9) != 1 && t.cu(9) != 2 && budget >= 30 {
            let open = self.arm.links.iter().all(|l| l.limits.is_none_or(|(lo, hi)| t.cu(7) == 0 || (seed[l.at] > lo + 0.1 && seed[l.at] < hi - 0.1)));
            let j = self.arm.jacobian(&seed, self.tool);
            let stiff = j.map(|j| eigen(&j.mul(&j.t())).0.iter().copied().fold(f64::INFINITY, f64::min).max(0.0).sqrt());
            if open && stiff.is_some_and(|s| s > 0.15 && s > t.c(4)) {
                ensure!(rep.termination == InverseKinematicsTermination::Converged, "a pose close by was not reached | {}", told());
                ensure!(rep.iterations <= 20, "a pose close by took long | {}", told());
                cx.reach("close pose reached");
            }
        }
        cx.state(&[self.arm.dof as i64, rep.termination as i64, (rep.iterations as f64).sqrt() as i64, t.cu(9) as i64]);
        *q = out;
        Ok(())
    }

    /// One iteration: damped least squares toward the target, the rest of the freedom to the
    /// second wish, no longer than the cap, and inside the limits.
    fn step(&self, at: &[f64; C], next: &[f64; C], target: SE3<f64>, cx: &mut Cx) -> Result<(), String> {
        let t = self.t;
        let Some((e, pe, oe, clear)) = self.residual(at, target) else { return Ok(()) };
        if (pe <= t.c(1) * 1.001 && oe <= t.c(2) * 1.001) || !clear || at.iter().any(|v| v.abs() > 1e3) {
            return Ok(());
        }
        let arm = self.arm;
        let Some(j) = arm.jacobian(at, self.tool) else { return Ok(()) };
        let wi = Mat::from_fn(arm.dof, 6, |i, r| j.at(r, i) / self.weights[i]);
        let base = j.mul(&wi);
        let least = eigen(&base).0.iter().copied().fold(f64::INFINITY, f64::min).max(0.0).sqrt();
        let (threshold, most) = (t.c(4), t.c(5));
        let damping = if least >= threshold { 0.0 } else { most * most * (1.0 - (least / threshold).powi(2)) };
        if least * least + damping < 1e-7 {
            // Too close to singular for the reference arithmetic.
            return Ok(());
        }
        let (values, vectors) = eigen(&base);
        let inv = vectors.mul(&Mat::from_fn(6, 6, |r, c| if r == c { 1.0 / (values[r].max(0.0) + damping) } else { 0.0 })).mul(&vectors.t());
        let mut bias = Mat::zeros(arm.dof, 1);
        for l in &arm.links {
            if matches!(l.kind, JointKind::Fixed | JointKind::Floating) {
                continue;
            }
            bias.d[l.vat] = match (t.cu(9), l.limits) {
                (1, _) if l.kind == JointKind::Continuous => t.c(10) * wrap_pi(self.posture[l.at] - at[l.at]),
                (1, _) => t.c(10) * (self.posture[l.at] - at[l.at]),
                (2, Some((lo, hi))) if hi > lo => t.c(10) * (0.5 * (lo + hi) - at[l.at]) / (hi - lo),
                _ => 0.0,
            };
        }
        let task = wi.mul(&inv).mul(&Mat::col(&e));
        let null = bias.sub(&wi.mul(&inv).mul(&j).mul(&bias));
        let mut step = task.add(&null);
        for l in &arm.links {
            if l.kind == JointKind::Fixed {
                step.d[l.vat] = 0.0;
            }
        }
        let n = step.d.iter().map(|v| v * v).sum::<f64>().sqrt();
        if n > t.c(6) {
            step = step.scale(t.c(6) / n);
            cx.reach("step capped");
        }
        if damping > 0.0 {
            cx.reach("step damped");
        }
        // Arithmetic near a singular pose: what rounding of the inputs does to the step.
        let size = (j.d.iter().map(|v| v * v).sum::<f64>() + 1.0).sqrt() * (1.0 + at.iter().fold(0.0f64, |m, v| m.max(v.abs())));
        let reach = Mat::col(&e).d.iter().map(|v| v * v).sum::<f64>().sqrt() + bias.d.iter().map(|v| v * v).sum::<f64>().sqrt();
        let blur = 1e-13 * size * size * size * (1.0 + reach) / (least * least + damping) + (1e-6 + 1e-13 * size * size / (threshold * threshold)) * n.min(t.c(6)) + 1e-10;
        let mut want = *at;
        for l in &arm.links {
            if l.kind == JointKind::Floating {
                continue;
            }
            want[l.at] += step.d[l.vat];
        }
        if arm.links[0].kind == JointKind::Floating {
            for k in 0..3 {
                want[k] += step.d[k];
            }
            let (Some(a), Some(b)) = (quat_mat([at[3], at[4], at[5], at[6]]), quat_mat([next[3], next[4], next[5], next[6]])) else { return Err("an attitude of zeros".into()) };
            let turned = a.mul(&exp_so3([step.d[3], step.d[4], step.d[5]]));
            ensure!(angle_between(&turned, &b) < 10.0 * blur + 1e-7, "the base does not turn as it should | off {:e}", angle_between(&turned, &b));
            want[3..7].copy_from_slice(&next[3..7]);
            cx.reach("floating base moved");
        }
        if t.cu(7) == 1 {
            let free = want;
            arm.clamp(&mut want);
            if free != want {
                cx.reach("step clipped by a limit");
            }
        }
        for i in 0..C {
            ensure!(close(next[i], want[i], 0.0, blur), "not the damped least-squares step | slot {i} {} want {} length {n:e} least {least:e} damping {damping:e}", next[i], want[i]);
        }
        cx.reach("step matched");
        Ok(())
    }

    fn starts(&self, e: &Ev, solver: InverseKinematics<C, f64>, q: &[f64; C], target: SE3<f64>, cx: &mut Cx) -> R {
        let (count, distinct, span) = (e.u(1), e.n(3), e.n(4));
        let multi = MultiStartInverseKinematics::<STARTS, C, f64>::new().with_solver(solver).with_distinct_threshold(distinct).with_jitter_span(span);
        let source = || Draws { seed: e.u(0) as u64, kind: e.u(2), taken: 0, cache: None };
        let mut draws = source();
        let got = multi.solve_seeded(self.tree, self.tool, target, &Vector::new(*q), &mut draws, count);
        let told = || format!("{got:?} base {q:?} target {target:?} count {count} threshold {distinct} span {span} arm {:?}", self.arm.links);
        if e.u(2) > 0 {
            cx.fault("random source stuck");
        }
        if count > STARTS {
            ensure!(matches!(got, Err(KinematicsError::StartCapacityExceeded)), "took more starts than it can hold | {}", told());
            ensure!(draws.taken == 0, "drew before refusing");
            return Ok(());
        }
        // The seeds it should have drawn, each solved alone.
        let mut again = source();
        let mut want: Vec<InverseKinematicsReport<C, f64>> = Vec::new();
        let mut seeds = Vec::new();
        for i in 0..count {
            let mut seed = *q;
            if i > 0 {
                for l in &self.arm.links {
                    if matches!(l.kind, JointKind::Fixed | JointKind::Floating) {
                        continue;
                    }
                    let u: f64 = again.next_unit();
                    seed[l.at] = match l.limits {
                        Some((lo, hi)) => lo + u * (hi - lo),
                        None => q[l.at] + (2.0 * u - 1.0) * span,
                    };
                }
            }
            seeds.push(Vector::new(seed));
            match solver.solve(self.tree, self.tool, target, &Vector::new(seed)) {
                Ok(r) => {
                    if r.termination == InverseKinematicsTermination::Converged {
                        let at = r.joint_positions.as_array();
                        let nearest = want.iter().map(|k| self.arm.distance(k.joint_positions.as_array(), at)).fold(f64::INFINITY, f64::min);
                        if (nearest - distinct).abs() < 1e-7 * (1.0 + distinct) {
                            // A tie.
                            return Ok(());
                        }
                        if nearest >= distinct {
                            want.push(r);
                        } else {
                            cx.reach("repeated branch dropped");
                        }
                    }
                }
                Err(err) => {
                    ensure!(got.as_ref().is_err_and(|g| *g == err), "a failed start was hidden | want {err:?} {}", told());
                    cx.reach("start failed");
                    return Ok(());
                }
            }
        }
        let rep = got.as_ref().map_err(|_| format!("sound starts were refused | {}", told()))?;
        ensure!(draws.taken == again.taken, "drew another number of times | {} want {}", draws.taken, again.taken);
        ensure!(rep.attempts() == count, "miscounted its starts | {}", told());
        let say = |s: &[InverseKinematicsReport<C, f64>]| s.iter().map(|r| *r.joint_positions.as_array()).collect::<Vec<_>>();
        let ok = rep.len() == want.len() && rep.solutions().iter().zip(&want).all(|(a, b)| all_close(a.joint_positions.as_array(), b.joint_positions.as_array(), 1e-9, 1e-9) && a.iterations == b.iterations);
        ensure!(ok, "not the branches its starts lead to | {:?} want {:?}", say(rep.solutions()), say(&want));
        ensure!(rep.is_empty() == want.is_empty(), "says it is empty, or not");
        if want.len() > 1 {
            cx.reach("several branches kept");
        }
        if count > 1 && !want.is_empty() {
            let near = rep.closest_to(self.tree, &Vector::new(*q)).map(|r| self.arm.distance(r.joint_positions.as_array(), q));
            let best = want.iter().map(|r| self.arm.distance(r.joint_positions.as_array(), q)).fold(f64::INFINITY, f64::min);
            ensure!(near.is_some_and(|n| close(n, best, 1e-7, 1e-7)), "not the nearest branch | {near:?} want {best}");
        } else {
            ensure!(!want.is_empty() || rep.closest_to(self.tree, &Vector::new(*q)).is_none(), "names a branch of none");
        }
        let same_again = multi.solve_from_seeds(self.tree, self.tool, target, &seeds);
        ensure!(same_again.is_ok_and(|s| s.len() == rep.len() && s.attempts() == count), "the same seeds given by hand lead elsewhere | {}", told());
        cx.reach("starts matched");
        cx.state(&[100 + count as i64, rep.len() as i64, e.u(2) as i64]);
        Ok(())
    }
}
