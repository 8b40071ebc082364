//! A robot put together joint by joint and dressed shape by shape, some of the parts refused, posed
//! over and over from readings that sometimes break, and asked each time where it is, how it would
//! move and what it is about to hit.

use super::ik::{self, build, random_config, Arm, Link, Pose};
use crate::conv::*;
use crate::core::*;
use crate::ensure;
use crate::refs::*;
use multicalc::error::KinematicsError as E;
use multicalc::kinematics::*;
use multicalc::linear_algebra::Vector;
use multicalc::spatial::{SE3, SO3};

const JOINTS: usize = 6;
const SLOTS: usize = 10;
type Tree = KinematicTree<JOINTS, SLOTS, f64>;

fn part(arm: &Arm, n: usize) -> Arm {
    let links: Vec<Link> = arm.links[..n].to_vec();
    let more = usize::from(n > 0 && links[0].kind == JointKind::Floating);
    Arm { links, dof: n + 5 * more, width: n + 6 * more }
}

fn poses_of(s: &KinematicTreeState<JOINTS, f64>) -> Vec<(V3, Mat)> {
    s.poses().iter().map(|p| (a3(p.translation()), rot(p.rotation()))).collect()
}

/// Assembly and motion of the tree.
pub struct Posing;

impl World for Posing {
    fn name(&self) -> &'static str {
        "posing"
    }

    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        t.cfg = vec![r.below(1 << 30) as f64];
        let eager = r.chance(0.7);
        for i in 0..r.int(6, 22) {
            let k = if eager && i < 6 { r.below(8) } else { r.below(20) };
            match k {
                0..=5 => t.evs.push(ev("joint", &[])),
                6..=7 => t.evs.push(ev("bad", &[r.below(12) as f64, r.below(1 << 30) as f64, r.broken()])),
                _ => t.evs.push(ev(
                    "move",
                    &[
                        r.below(1 << 30) as f64,
                        if r.chance(0.75) { 0.0 } else { r.int(1, 5) as f64 },
                        if r.chance(0.5) { 1.0 } else { r.log_range(1e-6, 20.0) },
                        r.broken(),
                        r.log_range(1e-4, 1.0),
                        if r.chance(0.4) { 0.0 } else { r.log_range(1e-3, 1.0) },
                        r.below(12) as f64,
                    ],
                )),
            }
        }
        t
    }

    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        let (arm, joints, parents) = build(t.cu(0) as u64);
        let mut tree = Tree::new();
        let mut n = 0;
        let mut old: Option<KinematicTreeState<JOINTS, f64>> = None;
        let mut last: Option<[f64; SLOTS]> = None;
        let mut closed = false;
        for e in &t.evs {
            cx.step(e.k);
            match e.k {
                "joint" => {
                    let Some(joint) = joints.get(n) else { continue };
                    let next = part(&arm, n + 1);
                    let got = tree.push(*joint, parents[n]);
                    if n == JOINTS {
                        cx.fault("one joint too many");
                        ensure!(got == Err(E::CapacityExceeded), "took more joints than it holds | {got:?}");
                    } else if next.width > SLOTS {
                        cx.fault("one reading too many");
                        ensure!(got == Err(E::ConfigurationCapacityExceeded), "took more readings than it holds | {got:?}");
                        closed = true;
                    } else {
                        ensure!(got.is_ok(), "a sound joint was refused | {got:?} {joint:?}");
                        n += 1;
                        last = None;
                    }
                    self.shape(&tree, &arm, &joints, &parents, n)?;
                }
                "bad" => {
                    let (joint, parent, want) = self.bad(e, n);
                    let Some(want) = want else { continue };
                    cx.fault("unsound joint");
                    let before = tree;
                    let got = tree.push(joint, parent);
                    ensure!(got.is_err(), "an unsound joint was taken | {joint:?} {parent:?} at {n}");
                    if n < JOINTS && !closed {
                        ensure!(got == Err(want), "an unsound joint was refused for another reason | {got:?} want {want:?} {joint:?}");
                    }
                    ensure!(tree == before, "a refused joint changed the tree | {joint:?}");
                    self.shape(&tree, &arm, &joints, &parents, n)?;
                    cx.reach("unsound joint refused");
                }
                _ => self.moved(e, &tree, &part(&arm, n), &mut old, &mut last, cx)?,
            }
            cx.logu(n as u64);
        }
        // The same joints in one go make the same tree.
        let all = Tree::try_from_joints(&joints[..n], &parents[..n]);
        ensure!(all.as_ref().is_ok_and(|a| *a == tree), "the same joints at once make another tree | {all:?}");
        ensure!(Tree::try_from_joints(&joints[..n], &parents[..n.saturating_sub(1)]).is_err() || n == 0, "a joint without a parent was taken");
        Ok(())
    }
}

impl Posing {
    fn shape(&self, tree: &Tree, arm: &Arm, joints: &[Joint<f64>], parents: &[JointParent], n: usize) -> R {
        let p = part(arm, n);
        ensure!(tree.len() == n && tree.is_empty() == (n == 0), "miscounted joints | {} want {n}", tree.len());
        ensure!(tree.config_len() == p.width && tree.velocity_len() == p.dof, "miscounted readings | {} {} want {} {}", tree.config_len(), tree.velocity_len(), p.width, p.dof);
        for i in 0..JOINTS + 2 {
            if i < n {
                let (Some(j), Some(l)) = (tree.joint(i), p.links.get(i)) else { return Err(format!("a joint is gone | {i} of {n}")) };
                ensure!(tree.parent(i) == Some(parents[i]), "another parent | {i}");
                ensure!(tree.config_offset(i) == Some(l.at) && tree.velocity_offset(i) == Some(l.vat), "a reading in another place | {i}");
                ensure!(j.kind() == l.kind && j.limits() == l.limits && j.origin() == joints[i].origin(), "another joint | {i} {j:?}");
                if !matches!(l.kind, JointKind::Fixed | JointKind::Floating) {
                    ensure!(all_close(&a3(j.axis()), &l.axis, 0.0, 1e-12), "another axis | {i} {:?}", j.axis());
                }
            } else {
                ensure!(tree.joint(i).is_none() && tree.parent(i).is_none() && tree.config_offset(i).is_none() && tree.velocity_offset(i).is_none(), "names a joint it has not | {i} of {n}");
            }
        }
        ensure!(tree.has_floating_base() == (n > 0 && arm.links[0].kind == JointKind::Floating), "floats, or not");
        Ok(())
    }

    fn bad(&self, e: &Ev, n: usize) -> (Joint<f64>, JointParent, Option<E>) {
        let mut r = Rng::new(e.u(1) as u64);
        let bad = e.n(2);
        let axis = Vector::new([r.normal(), r.normal(), r.normal()]);
        let origin = SE3::from_parts(SO3::exp(v3([r.normal(), r.normal(), r.normal()])), v3([r.normal(), r.normal(), r.normal()]));
        let parent = if n == 0 { JointParent::World } else { JointParent::Joint(r.below(n)) };
        let plain = match r.below(3) {
            0 => Joint::revolute(axis, origin),
            1 => Joint::prismatic(axis, origin),
            _ => Joint::continuous(axis, origin),
        };
        let mut broken = [axis[0], axis[1], axis[2]];
        broken[r.below(3)] = bad;
        match e.u(0) {
            0 => (plain, JointParent::Joint(n + r.below(3)), Some(E::ParentOutOfOrder)),
            1 if n > 0 => (Joint::floating(origin), if r.chance(0.5) { parent } else { JointParent::World }, Some(E::FloatingJointNotAtRoot)),
            2 => (Joint::revolute(v3(broken), origin), parent, Some(E::NonFinite)),
            3 => (Joint::prismatic(axis, SE3::from_parts(origin.rotation(), v3(broken))), parent, Some(E::NonFinite)),
            4 => (plain.with_zero_offset(bad), parent, Some(E::NonFinite)),
            5 => (Joint::revolute(axis, origin).with_anchor(v3(broken)), parent, Some(E::NonFinite)),
            6 => {
                let j = match r.below(3) {
                    0 => plain.with_armature(bad),
                    1 => plain.with_damping(bad),
                    _ => plain.with_friction_loss(bad),
                };
                (j, parent, Some(E::NonFinite))
            }
            7 => {
                let x = r.normal();
                let (lo, hi) = if r.chance(0.5) { (x, bad) } else { (bad, x) };
                (Joint::revolute(axis, origin).with_limits(lo, hi), parent, Some(E::NonFinite))
            }
            8 => {
                let x = r.normal();
                (Joint::prismatic(axis, origin).with_limits(x, x - r.log_range(1e-9, 1.0)), parent, Some(E::LimitsReversed))
            }
            9 => (Joint::continuous(axis, origin).with_limits(-1.0, 1.0), parent, Some(E::ContinuousJointHasLimits)),
            10 => (Joint::revolute(v3([0.0; 3]), origin), parent, Some(E::AxisHasNoDirection)),
            11 => (Joint::prismatic(v3([0.0, -0.0, 0.0]), origin), parent, Some(E::AxisHasNoDirection)),
            _ => (plain, parent, None),
        }
    }

    fn moved(&self, e: &Ev, tree: &Tree, arm: &Arm, old: &mut Option<KinematicTreeState<JOINTS, f64>>, last: &mut Option<[f64; SLOTS]>, cx: &mut Cx) -> R {
        let mut r = Rng::new(e.u(0) as u64);
        let n = arm.links.len();
        let full = random_config(arm, &mut r);
        let mut q = [0.0; SLOTS];
        q.copy_from_slice(&full[..SLOTS]);
        for (i, v) in q.iter_mut().enumerate() {
            let floating = n > 0 && arm.links[0].kind == JointKind::Floating && i < 7;
            if !floating {
                *v *= e.n(2);
            }
            if i >= arm.width {
                *v = *r.pick(&[0.0, 1.0, f64::NAN, f64::INFINITY, -1e300]);
            }
        }
        let floating = n > 0 && arm.links[0].kind == JointKind::Floating;
        if floating {
            let k = r.log_range(1e-3, 1e3);
            for v in &mut q[3..7] {
                *v *= k;
            }
        }
        for l in &arm.links {
            if l.kind == JointKind::Fixed && r.chance(0.3) {
                cx.fault("noise where nothing is read");
                q[l.at] = f64::NAN;
            }
        }
        let mut refused = None;
        let mobile: Vec<usize> = arm.links.iter().filter(|l| l.kind != JointKind::Fixed).map(|l| l.at + if l.kind == JointKind::Floating { r.below(7) } else { 0 }).collect();
        match e.u(1) {
            1 | 2 if !mobile.is_empty() => {
                cx.fault("reading broken");
                q[*r.pick(&mobile)] = e.n(3);
                refused = Some(E::NonFinite);
            }
            3 if floating => {
                cx.fault("attitude lost");
                q[3..7].fill(0.0);
                refused = Some(E::OrientationHasNoDirection);
            }
            4 => {
                // A stuck encoder: the reading of the last move.
                if let (Some(was), Some(&m)) = (last.as_ref(), mobile.first()) {
                    cx.fault("encoder stuck");
                    if !floating {
                        q[m] = was[m];
                    }
                }
            }
            _ => {}
        }
        let at = Vector::new(q);
        let got = tree.forward_kinematics(&at);
        let told = || format!("{q:?} arm {:?}", arm.links);
        if let Some(want) = refused {
            ensure!(got.as_ref().err() == Some(&want), "a broken reading was posed | {got:?} want {want:?} {}", told());
            ensure!(tree.geometric_jacobian_at(&at, 0, JacobianFrame::World).err() == Some(want), "a broken reading was differentiated | {}", told());
            return Ok(());
        }
        let state = got.map_err(|e| format!("sound readings were refused | {e:?} {}", told()))?;
        ensure!(state.len() == n && state.is_empty() == (n == 0) && state.poses().len() == n && state.pose(n).is_none(), "another number of frames | {}", state.len());
        let far = 1.0 + q[..arm.width].iter().filter(|v| v.is_finite()).fold(0.0f64, |m, v| m.max(v.abs()));
        for (i, (p, m)) in poses_of(&state).into_iter().enumerate() {
            let Some(want) = arm.tool(&q, i) else { return Err("no reference".into()) };
            ensure!(all_close(&p, &want.1, 0.0, 1e-11 * far) && m.sub(&want.0).max_abs() < 1e-11 * far, "a frame is elsewhere | {i} {p:?} want {:?} {}", want.1, told());
            ensure!(state.pose(i).is_some_and(|s| all_same(&a3(s.translation()), &p)), "two answers for a frame | {i}");
        }
        cx.reach("posed");
        ensure!(tree.geometric_jacobian(&state, n + e.u(6) % 2, JacobianFrame::World).err() == Some(E::ToolIndexOutOfRange), "the motion of a frame that is not there");
        if let Some(was) = old.as_ref().filter(|s| s.len() != n) {
            cx.fault("state of a smaller tree");
            if n > 0 {
                ensure!(tree.geometric_jacobian(was, 0, JacobianFrame::Body).err() == Some(E::StateShapeMismatch), "another tree's poses were taken");
            }
        }
        *old = Some(state);
        if let Some(was) = *last {
            let d = tree.configuration_distance(&at, &Vector::new(was));
            let back = tree.configuration_distance(&Vector::new(was), &at);
            let want = arm.distance(&q, &was);
            ensure!(close(d, want, 1e-7, 1e-7) && close(back, want, 1e-7, 1e-7), "another distance between two poses | {d} {back} want {want} {was:?} {}", told());
            ensure!(tree.configuration_distance(&at, &at) < 1e-6, "a pose is away from itself | {}", told());
        }
        *last = Some(q);
        if n == 0 {
            return Ok(());
        }
        let tool = e.u(6) % n;
        let world = tree.geometric_jacobian(&state, tool, JacobianFrame::World).map_err(|e| format!("no derivative | {e:?}"))?;
        let body = tree.geometric_jacobian_at(&at, tool, JacobianFrame::Body).map_err(|e| format!("no derivative | {e:?}"))?;
        let (Some(jb), Some(here)) = (arm.jacobian(&q, tool), arm.tool(&q, tool)) else { return Err("no reference".into()) };
        let mut jw = Mat::zeros(6, arm.dof);
        for c in 0..arm.dof {
            for h in 0..2 {
                let v = apply(&here.0, [jb.at(3 * h, c), jb.at(3 * h + 1, c), jb.at(3 * h + 2, c)]);
                for k in 0..3 {
                    jw.set(3 * h + k, c, v[k]);
                }
            }
        }
        for (j, want, frame) in [(&world, &jw, JacobianFrame::World), (&body, &jb, JacobianFrame::Body)] {
            ensure!(j.columns() == arm.dof && !j.is_empty() && j.frame() == frame, "another derivative was asked for | {} {:?}", j.columns(), j.frame());
            let m = m2(&j.matrix());
            for c in 0..SLOTS {
                for k in 0..6 {
                    let w = if c < arm.dof { want.at(k, c) } else { 0.0 };
                    ensure!(close(m.at(k, c), w, 0.0, 1e-11 * far * far), "the tool does not move so | {frame:?} row {k} column {c} {} want {w} tool {tool} {}", m.at(k, c), told());
                }
                let col = j.column(c);
                ensure!(col.is_some() == (c < arm.dof), "a column that is not there | {c}");
                if let Some(col) = col {
                    ensure!((0..6).all(|k| same(col.to_vector()[k], m.at(k, c))), "a column says otherwise than the whole | {c}");
                }
            }
            let rates: [f64; SLOTS] = std::array::from_fn(|_| r.normal());
            let twist = j.tool_twist(&Vector::new(rates)).to_vector();
            let w = want.mul(&Mat::col(&rates[..arm.dof]));
            ensure!((0..6).all(|k| close(twist[k], w.d[k], 0.0, 1e-10 * far * far)), "another twist | {twist:?} want {:?} {}", w.d, told());
        }
        cx.reach("differentiated");
        if far < 100.0 {
            self.inverse(e, arm, &body, &jb, &mut r, cx).map_err(|m| format!("{m} {}", told()))?;
        }
        cx.state(&[n as i64, arm.dof as i64, tool as i64]);
        Ok(())
    }

    fn inverse(&self, e: &Ev, arm: &Arm, j: &KinematicJacobian<SLOTS, f64>, want: &Mat, r: &mut Rng, cx: &mut Cx) -> R {
        let gram = want.mul(&want.t());
        let (values, vectors) = eigen(&gram);
        let mut order: Vec<usize> = (0..6).collect();
        order.sort_by(|a, b| values[*a].total_cmp(&values[*b]));
        let top = values[order[5]].max(1e-300);
        let least = values[order[0]].max(0.0).sqrt();
        let got = j.smallest_singular_value().map_err(|e| format!("no singular value | {e:?}"))?;
        let noise = 1e-7 * (top.sqrt() + 1.0);
        ensure!(close(got, least, 0.0, noise) || (got * got - least * least).abs() < 1e-13 * top, "another smallest singular value | {got:e} want {least:e}");
        let threshold = e.n(4);
        let kind = j.classify_singularity(threshold).map_err(|e| format!("no classification | {e:?}"))?;
        if least > threshold + 2.0 * noise {
            ensure!(kind == SingularityKind::None, "an open pose called singular | {kind:?} least {least:e} threshold {threshold:e}");
            cx.reach("open pose");
        } else if least < threshold - 2.0 * noise {
            ensure!(kind != SingularityKind::None, "a singular pose called open | least {least:e} threshold {threshold:e}");
            let gap = values[order[1]] - values[order[0]];
            if gap > 1e-6 * top && gap > 1e-6 {
                let v: Vec<f64> = (0..6).map(|k| vectors.at(k, order[0])).collect();
                let lin: f64 = v[..3].iter().map(|x| x * x).sum();
                let ang: f64 = v[3..].iter().map(|x| x * x).sum();
                let share = lin / (lin + ang);
                let named = if share > 2.0 / 3.0 + 1e-4 {
                    Some(SingularityKind::Positional)
                } else if share < 1.0 / 3.0 - 1e-4 {
                    Some(SingularityKind::Rotational)
                } else if share > 1.0 / 3.0 + 1e-4 && share < 2.0 / 3.0 - 1e-4 {
                    Some(SingularityKind::Mixed)
                } else {
                    None
                };
                ensure!(named.is_none_or(|w| w == kind), "the lost direction misnamed | {kind:?} want {named:?} {v:?}");
                cx.reach("lost direction named");
            }
        }
        let mut weights = [1.0; SLOTS];
        for (i, w) in weights.iter_mut().enumerate() {
            *w = if i < arm.dof { r.log_range(0.1, 10.0) } else { *r.pick(&[0.0, -1.0, f64::NAN, 1.0]) };
        }
        let damping = e.n(5);
        if e.u(1) == 5 {
            cx.fault("weight not positive");
            let mut w = weights;
            w[r.below(arm.dof)] = *r.pick(&[0.0, -1.0, -1e-9, f64::NEG_INFINITY]);
            ensure!(j.damped_pseudo_inverse(&Vector::new(w), damping).err() == Some(E::NonPositiveWeight), "a weight that is not positive was used | {w:?}");
            ensure!(j.null_space_projector(&Vector::new(w), damping).err() == Some(E::NonPositiveWeight), "a weight that is not positive was used | {w:?}");
            return Ok(());
        }
        let inverse = j.damped_pseudo_inverse(&Vector::new(weights), damping).map_err(|e| format!("no inverse | {e:?} {weights:?}"))?;
        let p = m2(&inverse);
        let wi = Mat::from_fn(arm.dof, 6, |i, k| want.at(k, i) / weights[i]);
        let (wv, we) = eigen(&want.mul(&wi));
        let most = wv.iter().copied().fold(0.0f64, f64::max).max(1e-300) + damping * damping;
        // Only where every direction is clearly open or clearly shut: measured without squaring,
        // so that a direction nearly shut is not taken for one that is.
        let a = Mat::from_fn(6, arm.dof, |k, i| want.at(k, i) / weights[i].sqrt());
        let d = 6 + arm.dof;
        let both = Mat::from_fn(d, d, |x, y| match (x < 6, y < 6) {
            (true, false) => a.at(x, y - 6),
            (false, true) => a.at(y, x - 6),
            _ => 0.0,
        });
        let mut open: Vec<f64> = eigen(&both).0;
        open.sort_by(|x, y| y.total_cmp(x));
        let unclear = open[..6.min(arm.dof)].iter().any(|s| *s > 1e-13 * most.sqrt() && s * s + damping * damping < 1e-7 * most);
        let lost = |v: f64| v + damping * damping < 1e-12 * most;
        if unclear || wv.iter().any(|&v| !lost(v) && v + damping * damping < 1e-7 * most) {
            return Ok(());
        }
        let inv = we.mul(&Mat::from_fn(6, 6, |a, b| if a == b && !lost(wv[a]) { 1.0 / (wv[a].max(0.0) + damping * damping) } else { 0.0 })).mul(&we.t());
        let full = wi.mul(&inv);
        let worst = wv.iter().filter(|v| !lost(**v)).map(|v| v + damping * damping).fold(f64::INFINITY, f64::min);
        if !worst.is_finite() {
            return Ok(());
        }
        let blur = 1e-12 * (1.0 + full.max_abs()) * (most / worst) + 1e-12;
        for i in 0..SLOTS {
            for k in 0..6 {
                let w = if i < arm.dof { full.at(i, k) } else { 0.0 };
                ensure!(close(p.at(i, k), w, 0.0, blur), "not the weighted damped inverse | {i} {k} {} want {w} blur {blur:e} weights {weights:?} damping {damping}", p.at(i, k));
            }
        }
        let n = m2(&j.null_space_projector(&Vector::new(weights), damping).map_err(|e| format!("no projector | {e:?}"))?);
        let pj = full.mul(want);
        for i in 0..SLOTS {
            for k in 0..SLOTS {
                let w = f64::from(i == k) - if i < arm.dof && k < arm.dof { pj.at(i, k) } else { 0.0 };
                ensure!(close(n.at(i, k), w, 0.0, blur * (1.0 + top.sqrt())), "not the projector onto what the tool does not feel | {i} {k} {} want {w}", n.at(i, k));
            }
        }
        if damping == 0.0 {
            let seen = want.mul(&Mat::from_fn(arm.dof, arm.dof, |i, k| n.at(i, k)));
            ensure!(seen.max_abs() < blur * 10.0 * (1.0 + top), "the tool feels what it should not | {:e}", seen.max_abs());
            cx.reach("undamped inverse");
        } else {
            cx.reach("damped inverse");
        }
        Ok(())
    }
}

/// What two segments are apart, by trying every place the least can be.
fn apart(a: &[V3; 2], b: &[V3; 2]) -> f64 {
    let to = |p: V3, s: &[V3; 2]| {
        let d = sub(s[1], s[0]);
        let l = dot(d, d);
        let t = if l > 0.0 { (dot(sub(p, s[0]), d) / l).clamp(0.0, 1.0) } else { 0.0 };
        norm(sub(p, add(s[0], scale(d, t))))
    };
    let mut best = to(a[0], b).min(to(a[1], b)).min(to(b[0], a)).min(to(b[1], a));
    let (u, v, w) = (sub(a[1], a[0]), sub(b[1], b[0]), sub(a[0], b[0]));
    let (Some(uu), Some(vv)) = (crate::refs::unit(u), crate::refs::unit(v)) else { return best };
    let c = cross(uu, vv);
    let s = norm(c);
    if s > 1e-9 {
        // Both feet of the common perpendicular inside: that is the least.
        let nn = scale(c, 1.0 / s);
        let x = dot(cross(v, w), nn) / dot(cross(u, v), nn);
        let y = dot(cross(u, w), nn) / dot(cross(u, v), nn);
        if (0.0..=1.0).contains(&x) && (0.0..=1.0).contains(&y) {
            best = best.min(dot(w, nn).abs());
        }
    }
    best
}

#[derive(Clone, Debug)]
struct Shape {
    ball: bool,
    radius: f64,
    half: f64,
    /// In the frame it is fixed to.
    r: Mat,
    w: V3,
    p: V3,
    broken: bool,
    place: SE3<f64>,
}

impl Shape {
    fn primitive(&self) -> Primitive<f64> {
        if self.ball {
            Primitive::Sphere { radius: self.radius }
        } else {
            Primitive::Capsule { radius: self.radius, half_length: self.half }
        }
    }
    fn ends(&self, at: &Pose) -> [V3; 2] {
        let p = at.then(&Pose(self.r.clone(), self.p));
        let z = apply(&p.0, [0.0, 0.0, if self.ball { 0.0 } else { self.half }]);
        [sub(p.1, z), add(p.1, z)]
    }
    /// How closely the arithmetic can know the gap.
    fn blur(&self, other: &Shape, a: &[V3; 2], b: &[V3; 2]) -> f64 {
        let far = norm(sub(a[0], b[0]));
        let l = if self.ball || other.ball { 0.0 } else { 2.0 * self.half.max(other.half) };
        let size = a.iter().chain(b).fold(0.0f64, |m, v| m.max(norm(*v)));
        1e-12 * (1.0 + size) + 1e-7 * (l * (l + far)).sqrt()
    }
}

fn shape(r: &mut Rng, near: Option<V3>, twin: Option<&Mat>) -> Shape {
    let ball = r.chance(0.35);
    let half = if r.chance(0.1) { 0.0 } else if r.chance(0.5) { r.range(0.05, 0.5) } else { r.log_range(1e-6, 2.0) };
    let spread = if r.chance(0.5) { r.range(0.0, 1.0) } else { half * r.log_range(1e-2, 3.0) };
    let radius = if r.chance(0.2) { 0.0 } else { spread * r.range(0.0, 0.8) };
    let w = [r.range(-1.5, 1.5), r.range(-1.5, 1.5), r.range(-1.5, 1.5)];
    let mut m = exp_so3(w);
    let off = [r.normal() * spread, r.normal() * spread, r.normal() * spread];
    if let Some(t) = twin {
        let tilt = match r.below(5) {
            0 | 1 => None,
            2 => Some(0.0),
            _ => Some(r.log_range(1e-10, 1e-2)),
        };
        if let Some(k) = tilt {
            m = t.mul(&exp_so3([k, 0.0, 0.0]));
            if r.chance(0.3) {
                m = m.mul(&exp_so3([3.0, 0.0, 0.0]));
            }
        }
    }
    let w = log_so3(&m);
    let p = near.map_or(off, |n| add(n, off));
    Shape { ball, radius, half, r: exp_so3(w), w, p, broken: false, place: SE3::from_parts(SO3::exp(v3(w)), v3(p)) }
}

const SELVES: usize = 6;
const OBSTACLES: usize = 4;
const EXCLUDED: usize = 3;
type Query = CollisionQuery<SELVES, OBSTACLES, EXCLUDED, f64>;

#[derive(Clone, Default)]
struct Model {
    own: Vec<(usize, Shape)>,
    out: Vec<Shape>,
    skip: Vec<(usize, usize)>,
}

/// The dressed robot watching its distance.
pub struct Guard;

impl World for Guard {
    fn name(&self) -> &'static str {
        "guard"
    }

    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        t.cfg = vec![r.below(1 << 30) as f64];
        let clean = r.chance(0.7);
        for i in 0..r.int(5, 24) {
            let k = if i < 5 { r.below(9) } else { r.below(20) };
            let fault = |r: &mut Rng| if clean || !r.chance(0.25) { 0.0 } else { r.int(1, 5) as f64 };
            match k {
                0..=4 => t.evs.push(ev("own", &[r.below(1 << 30) as f64, r.below(9) as f64, fault(r)])),
                5..=7 => t.evs.push(ev("obstacle", &[r.below(1 << 30) as f64, r.below(8) as f64, fault(r)])),
                8 => t.evs.push(ev("exclude", &[r.below(SELVES + 1) as f64, r.below(SELVES + 1) as f64])),
                9 => t.evs.push(ev("save", &[])),
                10 => t.evs.push(ev("restore", &[])),
                11..=13 => t.evs.push(ev("single", &[r.below(1 << 30) as f64])),
                _ => t.evs.push(ev("move", &[r.below(1 << 30) as f64, r.range(0.0, 2.0)])),
            }
        }
        t
    }

    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        let (arm, joints, parents) = build(t.cu(0) as u64);
        let tree = ik::Tree::try_from_joints(&joints, &parents).map_err(|e| format!("a sound arm was refused | {e:?}"))?;
        let mut r = Rng::new(mix(t.cu(0) as u64, 9));
        let mut query = Query::new();
        let mut m = Model::default();
        let mut saved = (query, m.clone());
        let mut q = random_config(&arm, &mut r);
        for e in &t.evs {
            cx.step(e.k);
            let mut r = Rng::new(e.u(0) as u64 + 1);
            match e.k {
                "own" => {
                    let frame = if e.n(2) == 5.0 { arm.links.len() + e.u(1) } else { e.u(1) % arm.links.len() };
                    let twin = m.own.last().filter(|o| o.0 == frame).map(|o| o.1.r.clone());
                    let mut s = shape(&mut r, None, twin.as_ref());
                    damage(&mut s, e.u(2), &mut r, cx);
                    let got = query.push_self_primitive(frame, s.primitive(), s.place);
                    if m.own.len() == SELVES {
                        cx.fault("one shape too many");
                        ensure!(got == Err(E::CollisionCapacityExceeded), "took more shapes than it holds | {got:?}");
                    } else {
                        ensure!(got == Ok(m.own.len()), "a shape numbered otherwise | {got:?} want {}", m.own.len());
                        m.own.push((frame, s));
                    }
                }
                "obstacle" => {
                    let i = e.u(1) % arm.links.len();
                    let near = arm.tool(&q, i);
                    let twin = near.as_ref().and_then(|n| m.own.iter().find(|o| o.0 == i).map(|o| n.0.mul(&o.1.r)));
                    let mut s = shape(&mut r, near.map(|n| n.1), twin.as_ref());
                    damage(&mut s, e.u(2) % 5, &mut r, cx);
                    let got = query.push_environment_primitive(s.primitive(), s.place);
                    if m.out.len() == OBSTACLES {
                        cx.fault("one shape too many");
                        ensure!(got == Err(E::CollisionCapacityExceeded), "took more shapes than it holds | {got:?}");
                    } else {
                        ensure!(got == Ok(m.out.len()), "a shape numbered otherwise | {got:?} want {}", m.out.len());
                        m.out.push(s);
                    }
                }
                "exclude" => {
                    let got = query.exclude_pair(e.u(0), e.u(1));
                    if m.skip.len() == EXCLUDED {
                        cx.fault("one exclusion too many");
                        ensure!(got == Err(E::CollisionCapacityExceeded), "took more exclusions than it holds | {got:?}");
                    } else {
                        ensure!(got.is_ok(), "an exclusion was refused | {got:?}");
                        m.skip.push((e.u(0), e.u(1)));
                    }
                }
                "save" => saved = (query, m.clone()),
                "restore" => {
                    cx.fault("restart from a snapshot");
                    (query, m) = saved.clone();
                }
                "single" => single(&mut r, cx)?,
                _ => {
                    let to = random_config(&arm, &mut r);
                    for (i, v) in q.iter_mut().enumerate() {
                        *v += (to[i] - *v) * e.n(1).min(1.0);
                    }
                    if arm.links[0].kind == JointKind::Floating {
                        q[..7].copy_from_slice(&to[..7]);
                    }
                    watch(&arm, &tree, &q, &query, &m, &mut r, cx)?;
                }
            }
            ensure!(query.self_primitive_count() == m.own.len() && query.environment_primitive_count() == m.out.len(), "miscounted its shapes");
        }
        Ok(())
    }
}

fn damage(s: &mut Shape, kind: usize, r: &mut Rng, cx: &mut Cx) {
    if (1..=4).contains(&kind) {
        cx.fault("shape that is not a number");
        s.broken = true;
        match kind {
            1 => s.radius = f64::NAN,
            2 if !s.ball => s.half = f64::NAN,
            _ => {
                let mut p = s.p;
                p[r.below(3)] = f64::NAN;
                s.place = SE3::from_parts(SO3::exp(v3(s.w)), v3(p));
            }
        }
    }
}

fn watch(arm: &Arm, tree: &ik::Tree, q: &[f64; ik::C], query: &Query, m: &Model, r: &mut Rng, cx: &mut Cx) -> R {
    let state = tree.forward_kinematics(&Vector::new(*q)).map_err(|e| format!("sound readings were refused | {e:?}"))?;
    let got = query.check(&state);
    let told = || format!("{got:?} own {:?} out {:?} skip {:?} at {q:?}", m.own, m.out, m.skip);
    let missing = m.own.iter().any(|o| o.0 >= arm.links.len());
    let skipped = |a: usize, b: usize| m.skip.iter().any(|&s| s == (a, b) || s == (b, a));
    let mut pairs = Vec::new();
    for i in 0..m.own.len() {
        for j in i + 1..m.own.len() {
            if !skipped(i, j) {
                pairs.push((i, Some(j), 0));
            }
        }
        for k in 0..m.out.len() {
            pairs.push((i, None, k));
        }
    }
    let shape_of = |p: &(usize, Option<usize>, usize)| (&m.own[p.0].1, p.1.map_or_else(|| &m.out[p.2], |j| &m.own[j].1));
    let broken = pairs.iter().any(|p| shape_of(p).0.broken || shape_of(p).1.broken);
    if missing || broken {
        let named = matches!(got, Err(E::ToolIndexOutOfRange)) && missing || matches!(got, Err(E::NonFinite)) && broken;
        ensure!(named, "a clearance nobody can measure was reported | missing {missing} broken {broken} {}", told());
        cx.reach("check refused");
        return Ok(());
    }
    let rep = got.as_ref().map_err(|_| format!("sound shapes were refused | {}", told()))?;
    let world = Pose(Mat::eye(3), [0.0; 3]);
    let gap = |p: &(usize, Option<usize>, usize)| -> Option<(f64, f64)> {
        let (a, b) = shape_of(p);
        let ea = a.ends(&arm.tool(q, m.own[p.0].0)?);
        let eb = match p.1 {
            Some(j) => b.ends(&arm.tool(q, m.own[j].0)?),
            None => b.ends(&world),
        };
        Some((apart(&ea, &eb) - a.radius - b.radius, a.blur(b, &ea, &eb)))
    };
    let far = 1.0 + q.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let all: Vec<(f64, f64)> = pairs.iter().filter_map(gap).collect();
    ensure!(all.len() == pairs.len(), "no reference");
    let least = all.iter().map(|g| g.0).fold(f64::INFINITY, f64::min);
    cx.log(rep.minimum_clearance);
    let asked = least.clamp(-1e3, 1e3) + r.sign() * r.log_range(1e-6, 1.0);
    if pairs.is_empty() {
        ensure!(rep.closest_pair.is_none() && same(rep.minimum_clearance, 0.0), "a clearance with nothing to measure | {}", told());
        ensure!(rep.is_clear(asked) && rep.is_clear(1e9), "in the way of nothing | {}", told());
        cx.reach("nothing to check");
        return Ok(());
    }
    let blur = all.iter().map(|g| g.1).fold(0.0f64, f64::max) + 1e-11 * far;
    ensure!(close(rep.minimum_clearance, least, 0.0, blur), "another clearance | {:e} want {least:e} blur {blur:e} all {all:?} pairs {pairs:?} {}", rep.minimum_clearance, told());
    use CollisionSource::*;
    let named = match rep.closest_pair {
        Some((SelfPrimitive(a), SelfPrimitive(b))) => pairs.iter().position(|p| p.1 == Some(b) && p.0 == a || p.1 == Some(a) && p.0 == b),
        Some((SelfPrimitive(a), Environment(k))) | Some((Environment(k), SelfPrimitive(a))) => pairs.iter().position(|p| p.1.is_none() && p.0 == a && p.2 == k),
        _ => None,
    };
    let Some(named) = named else { return Err(format!("names a pair it was not to check | {}", told())) };
    ensure!(close(all[named].0, least, 0.0, 2.0 * blur), "names a pair that is not the closest | {:?} all {all:?} {}", pairs[named], told());
    ensure!(rep.is_clear(asked) == (rep.minimum_clearance >= asked), "clear, or not | asked {asked} {}", told());
    ensure!(rep.is_clear(rep.minimum_clearance), "not clear of what it has | {}", told());
    if (least - asked).abs() > 2.0 * blur {
        ensure!(rep.is_clear(asked) == (least > asked), "called {} wrongly | asked {asked} least {least} {}", if rep.is_clear(asked) { "clear" } else { "blocked" }, told());
    }
    cx.reach(if least < 0.0 { "overlapping" } else { "apart" });
    cx.state(&[pairs.len() as i64, named as i64, (least * 4.0) as i64]);
    Ok(())
}

/// Two shapes alone, in both widths of number.
fn single(r: &mut Rng, cx: &mut Cx) -> R {
    let a = shape(r, None, None);
    let b = shape(r, Some(a.p), Some(&a.r));
    let world = Pose(Mat::eye(3), [0.0; 3]);
    let (ea, eb) = (a.ends(&world), b.ends(&world));
    let want = apart(&ea, &eb) - a.radius - b.radius;
    let blur = a.blur(&b, &ea, &eb);
    let d = a.primitive().distance_to(a.place, b.primitive(), b.place);
    let back = b.primitive().distance_to(b.place, a.primitive(), a.place);
    ensure!(close(d, want, 0.0, blur) && close(back, want, 0.0, blur), "two shapes are otherwise apart | {d:e} {back:e} want {want:e} blur {blur:e} {a:?} {b:?}");
    // The same in short numbers: the shapes those numbers say, measured in long ones.
    let short = |s: &Shape| {
        let w = [s.w[0] as f32, s.w[1] as f32, s.w[2] as f32];
        let pose = SE3::<f32>::from_parts(SO3::exp(Vector::new(w)), Vector::new([s.p[0] as f32, s.p[1] as f32, s.p[2] as f32]));
        let c = pose.rotation().quaternion().as_array().map(f64::from);
        let (radius, half) = (s.radius as f32, s.half as f32);
        let prim = if s.ball { Primitive::Sphere { radius } } else { Primitive::Capsule { radius, half_length: half } };
        let mut o = s.clone();
        o.r = ik::quat_mat(c)?;
        let p = pose.translation();
        o.p = [f64::from(p[0]), f64::from(p[1]), f64::from(p[2])];
        o.radius = f64::from(radius);
        o.half = f64::from(half);
        Some((pose, prim, o))
    };
    let (Some((pa, fa, sa)), Some((pb, fb, sb))) = (short(&a), short(&b)) else { return Err("no reference".into()) };
    let (ea, eb) = (sa.ends(&world), sb.ends(&world));
    let want = apart(&ea, &eb) - sa.radius - sb.radius;
    let far = norm(sub(ea[0], eb[0]));
    let l = if sa.ball || sb.ball { 0.0 } else { 2.0 * sa.half.max(sb.half) };
    let size = ea.iter().chain(&eb).fold(0.0f64, |m, v| m.max(norm(*v))) + sa.radius + sb.radius;
    let blur = 4e-6 * size + 2e-3 * (l * (l + far)).sqrt() + 1e-30;
    let d = f64::from(fa.distance_to(pa, fb, pb));
    let back = f64::from(fb.distance_to(pb, fa, pa));
    ensure!(close(d, want, 0.0, blur) && close(back, want, 0.0, blur), "two shapes in short numbers are otherwise apart | {d:e} {back:e} want {want:e} blur {blur:e} {sa:?} {sb:?}");
    cx.logs(&[want, d]);
    cx.reach(if a.ball && b.ball { "two balls" } else if a.ball || b.ball { "ball and capsule" } else { "two capsules" });
    Ok(())
}
