//! The laws that fly a drone, one call at a time and closed into a loop with gusts and stalls.

use crate::conv::*;
use crate::core::*;
use crate::ensure;
use crate::refs::*;
use multicalc::control::{GeometricAttitudeController, Lqr, thrust_command_from_acceleration};
use multicalc::dynamics::RigidBody;
use multicalc::error::ControlError;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::plant::{MultirotorMixer, RotorLag};
use multicalc::spatial::{FreeJointState, SE3, SO3, SpatialInertia, Twist, Wrench};

type V3 = [f64; 3];

fn three(e: &Ev, at: usize) -> V3 {
    [e.n(at), e.n(at + 1), e.n(at + 2)]
}
fn direction(r: &mut Rng, size: f64) -> V3 {
    [size * r.range(-1.0, 1.0), size * r.range(-1.0, 1.0), size * r.range(-1.0, 1.0)]
}
fn m33(m: &Mat) -> Matrix<3, 3> {
    Matrix::from_fn(|i, j| m.at(i, j))
}
fn tensor(p: V3, turn: V3) -> Mat {
    let r = exp_so3(turn);
    r.mul(&Mat::diag(&p)).mul(&r.t()).sym()
}
fn fin(v: &[f64]) -> bool {
    v.iter().all(|x| x.is_finite())
}

/// What the thrust command should be: axes as columns, the push, and how far the push is from the heading.
fn lean(a: V3, heading: f64, g: f64) -> Option<(Mat, f64, f64)> {
    let push = add(a, [0.0, 0.0, g]);
    let size = norm(push);
    let up = unit(push)?;
    let nose = [heading.cos(), heading.sin(), 0.0];
    let across = cross(up, nose);
    let open = norm(across);
    let side = unit(across)?;
    let fwd = cross(side, up);
    Some((Mat::from_fn(3, 3, |i, j| [fwd, side, up][j][i]), size, open))
}

fn judge_command(a: V3, heading: f64, g: f64, mass: f64, cx: &mut Cx) -> Result<Option<(Mat, f64, SO3<f64>)>, String> {
    let got = thrust_command_from_acceleration(v3(a), heading, g);
    let told = || format!("acceleration {a:?} heading {heading} gravity {g}");
    if !fin(&a) || !heading.is_finite() || !g.is_finite() {
        ensure!(matches!(got, Err(ControlError::NonFinite)), "thrust command: arguments that are not finite are not refused as such | {got:?} {}", told());
        cx.reach("refused, not finite");
        return Ok(None);
    }
    let push = add(a, [0.0, 0.0, g]);
    if push == [0.0; 3] {
        ensure!(matches!(got, Err(ControlError::UndefinedThrustDirection)), "thrust command: a free fall is not refused as one | {got:?} {}", told());
        cx.reach("refused, free fall");
        return Ok(None);
    }
    let nose = [heading.cos(), heading.sin(), 0.0];
    let want = lean(a, heading, g);
    let along = norm(cross(unit(push).unwrap_or([0.0; 3]), nose));
    if along == 0.0 {
        ensure!(matches!(got, Err(ControlError::UndefinedHeadingDirection)), "thrust command: a push straight along the heading is not refused as one | {got:?} {}", told());
        cx.reach("refused, no heading");
        return Ok(None);
    }
    let sharp = along > 1e-9;
    let cmd = match got {
        Ok(c) => c,
        Err(e) => {
            ensure!(!sharp, "thrust command: a push that can be given is refused | {e:?} {}", told());
            return Ok(None);
        }
    };
    let r = rot(cmd.attitude());
    ensure!((0..3).all(|i| r.mul(&r.t()).sub(&Mat::eye(3)).at(i, i).abs() < 1e-9) && r.finite(), "thrust command: not a rotation | {r:?} {}", told());
    let size = norm(push);
    ensure!((cmd.thrust_acceleration() - size).abs() <= 1e-14 * size, "thrust command: not the push that was wanted | {} want {size} {}", cmd.thrust_acceleration(), told());
    ensure!((cmd.thrust_force(mass) - size * mass).abs() <= 1e-14 * size * mass.abs(), "thrust command: the force is not mass times the push | {} {}", cmd.thrust_force(mass), told());
    if let (true, Some((m, _, open))) = (sharp, want) {
        let off = angle_between(&r, &m);
        ensure!(off <= 1e-7 + 1e-14 / open, "thrust command: points elsewhere than the push and the heading ask | off by {off} {}", told());
        cx.reach("command");
    }
    // Pushing that hard the way it points is the acceleration asked for.
    let up = apply(&r, [0.0, 0.0, 1.0]);
    let felt = sub(scale(up, cmd.thrust_acceleration()), [0.0, 0.0, g]);
    if sharp {
        ensure!((0..3).all(|i| (felt[i] - a[i]).abs() <= 1e-7 * size), "thrust command: does not give the acceleration asked for | {felt:?} {}", told());
    }
    Ok(Some((r, size, cmd.attitude())))
}

/// The published tracking law, with its size.
#[allow(clippy::too_many_arguments)]
fn law(kr: f64, kw: f64, j: &Mat, r: &Mat, w: V3, rd: &Mat, wd: V3, ad: V3) -> (V3, f64, V3) {
    let rel = r.t().mul(rd);
    let d = rel.t().sub(&rel);
    let er = scale([d.at(2, 1), d.at(0, 2), d.at(1, 0)], 0.5);
    let cw = apply(&rel, wd);
    let ew = sub(w, cw);
    let gyro = cross(w, apply(j, w));
    let follow = apply(j, sub(cross(w, cw), apply(&rel, ad)));
    let t: V3 = std::array::from_fn(|i| -kr * er[i] - kw * ew[i] + gyro[i] - follow[i]);
    let jm = j.max_abs() * 3.0;
    (t, kr + kw * (norm(w) + norm(wd)) + jm * (norm(w) * norm(w) + norm(w) * norm(wd) + norm(ad)), er)
}

fn judge_torque(c: &GeometricAttitudeController, kr: f64, kw: f64, j: &Mat, now: (SO3<f64>, V3), goal: (SO3<f64>, V3, V3)) -> Result<V3, String> {
    let (r, rd) = (rot(now.0), rot(goal.0));
    let got = a3(c.torque(now.0, v3(now.1), goal.0, v3(goal.1), v3(goal.2)));
    let (want, size, er) = law(kr, kw, j, &r, now.1, &rd, goal.1, goal.2);
    let told = || format!("gains {kr} {kw} at {r:?} turning {:?} toward {rd:?} turning {:?} changing {:?}", now.1, goal.1, goal.2);
    ensure!((0..3).all(|i| (got[i] - want[i]).abs() <= 1e-11 * size), "attitude law: not the torque the law gives | {got:?} want {want:?} {}", told());
    let e = a3(GeometricAttitudeController::attitude_error(now.0, goal.0));
    ensure!((0..3).all(|i| (e[i] - er[i]).abs() <= 1e-12), "attitude law: not the pointing error | {e:?} want {er:?} {}", told());
    Ok(got)
}

pub struct Commands;

impl World for Commands {
    fn name(&self) -> &'static str {
        "flight commands"
    }
    /// cfg: gains 2, principal 3, turn 3, gravity, mass
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        t.cfg.push(r.log_range(1e-4, 1e3));
        t.cfg.push(r.log_range(1e-4, 1e3));
        let size = r.log_range(1e-6, 1e2);
        let s: V3 = std::array::from_fn(|_| size * r.log_range(1e-2, 1.0));
        t.cfg.extend([s[1] + s[2], s[0] + s[2], s[0] + s[1]]);
        t.cfg.extend(if r.chance(0.3) { [0.0; 3] } else { direction(r, 2.0) });
        t.cfg.push(*r.pick(&[9.81, 1.62, 0.0, 25.0]));
        t.cfg.push(r.log_range(1e-2, 1e2));
        for _ in 0..r.int(3, 16) {
            match r.below(12) {
                0..=4 => {
                    // What is asked, the heading, and how close to a corner the push is: free fall,
                    // upside down, or along the nose.
                    let heading = match r.below(4) {
                        0 => 0.0,
                        1 => r.range(-20.0, 20.0),
                        2 => *r.pick(&[std::f64::consts::PI, -std::f64::consts::PI, std::f64::consts::FRAC_PI_2, -std::f64::consts::FRAC_PI_2]),
                        _ => r.range(-3.2, 3.2),
                    };
                    let size = r.log_range(1e-6, 30.0);
                    let a = direction(r, size);
                    t.evs.push(ev("lean", &[r.below(6) as f64, a[0], a[1], a[2], heading, r.log_range(1e-12, 1.0)]));
                }
                5 => t.evs.push(ev("bad lean", &[r.below(5) as f64, r.broken()])),
                6 => t.evs.push(ev("build", &[r.below(7) as f64, r.broken(), r.below(3) as f64])),
                7 => {
                    // A turn away from where it should be, by this much about this axis.
                    let axis = direction(r, 1.0);
                    let by = *r.pick(&[1e-9, 1e-3, 0.5, 1.5707963267948966, 3.0, 3.1415, 3.141592653589793]);
                    t.evs.push(ev("away", &[axis[0], axis[1], axis[2], by, r.range(-3.0, 3.0), r.range(-3.0, 3.0), r.range(-3.0, 3.0)]));
                }
                k => {
                    let spin = *r.pick(&[0.0, 0.1, 3.0, 30.0]);
                    let mut a = direction(r, 3.2).to_vec();
                    a.extend(direction(r, spin));
                    a.extend(direction(r, 3.2));
                    let spin = *r.pick(&[0.0, 0.1, 3.0, 30.0]);
                    a.extend(direction(r, spin));
                    a.extend(direction(r, spin));
                    a.push(k as f64);
                    t.evs.push(ev("torque", &a));
                }
            }
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        let (kr, kw, g, mass) = (t.c(0), t.c(1), t.c(8), t.c(9));
        let principal = [t.c(2), t.c(3), t.c(4)];
        if !(kr > 0.0 && kw > 0.0) || principal.iter().any(|v| !(*v > 0.0)) {
            return Ok(());
        }
        let j = tensor(principal, [t.c(5), t.c(6), t.c(7)]);
        let c = match GeometricAttitudeController::new(kr, kw, m33(&j)) {
            Ok(c) => c,
            Err(e) => return Err(format!("attitude law: gains and an inertia that can be used are refused | {e:?} {kr} {kw} {j:?}")),
        };
        ensure!(c.attitude_gain() == kr && c.rate_gain() == kw && m2(&c.inertia()) == j, "attitude law: holds other numbers than it was given | {c:?}");
        for e in &t.evs {
            cx.step(e.k);
            match e.k {
                "lean" => {
                    let mut a = three(e, 1);
                    let heading = e.n(4);
                    let near = e.n(5);
                    let nose = [heading.cos(), heading.sin(), 0.0];
                    match e.u(0) {
                        0 => a = [0.0, 0.0, -g],
                        1 => a = add([0.0, 0.0, -g], scale(a, near)),
                        2 => a = add(sub(scale(nose, a[0]), [0.0, 0.0, g]), scale(a, near)),
                        3 => a = [a[0], a[1], -g - 10.0 * a[2].abs()],
                        4 => a = [a[0], 0.0, -g],
                        _ => {}
                    }
                    if let Some((r, size, _)) = judge_command(a, heading, g, mass, cx)? {
                        cx.logs(&[r.at(0, 0), r.at(1, 0), r.at(2, 2), size]);
                        cx.state(&[e.u(0) as i64, (r.at(2, 2) * 4.0) as i64, (heading * 2.0) as i64, size.log2() as i64]);
                    }
                }
                "bad lean" => {
                    cx.fault("command not finite");
                    let mut a = [1.0, 2.0, 3.0, 0.4, g];
                    a[e.u(0) % 5] = e.n(1);
                    judge_command([a[0], a[1], a[2]], a[3], a[4], mass, cx)?;
                }
                "build" => {
                    cx.fault("settings that cannot be used");
                    let bad = e.n(1);
                    let i = e.u(2) % 3;
                    let k = (i + 1) % 3;
                    let mut x = (kr, kw, m33(&j));
                    let low = if bad.is_finite() && bad <= 0.0 { bad } else { 0.0 };
                    let want = match e.u(0) % 7 {
                        0 if !bad.is_finite() => {
                            x.0 = bad;
                            ControlError::NonFinite
                        }
                        1 if !bad.is_finite() => {
                            x.1 = bad;
                            ControlError::NonFinite
                        }
                        2 if !bad.is_finite() => {
                            x.2[(i, k)] = bad;
                            ControlError::NonFinite
                        }
                        3 => {
                            x.2[(i, k)] += 1.0 + j.max_abs();
                            ControlError::NotSymmetricInertia
                        }
                        4 => {
                            x.2[(i, i)] = -x.2[(i, i)];
                            ControlError::NonPositiveInertia
                        }
                        5 => {
                            x.1 = low;
                            ControlError::NonPositiveGain
                        }
                        _ => {
                            x.0 = if e.u(0) % 7 == 6 { -kr } else { low };
                            ControlError::NonPositiveGain
                        }
                    };
                    let got = GeometricAttitudeController::new(x.0, x.1, x.2);
                    ensure!(matches!(&got, Err(w) if *w == want), "attitude law: settings that cannot be used are not refused as documented | wanted {want:?} got {got:?}");
                    cx.reach("refused settings");
                }
                "away" => {
                    // However far it is turned, the error is along the turn and as long as its sine.
                    let Some(axis) = unit(three(e, 0)) else { continue };
                    let goal = SO3::exp(v3(three(e, 4)));
                    let r = goal.compose(SO3::exp(v3(scale(axis, e.n(3)))));
                    let er = a3(GeometricAttitudeController::attitude_error(r, goal));
                    let want = scale(axis, e.n(3).sin());
                    ensure!((0..3).all(|i| (er[i] - want[i]).abs() <= 1e-13), "attitude law: the error is not along the turn | {er:?} want {want:?} turned {} about {axis:?}", e.n(3));
                    let still = [0.0; 3];
                    let tau = judge_torque(&c, kr, kw, &j, (r, still), (goal, still, still))?;
                    ensure!(dot(tau, axis) <= 1e-12 * kr, "attitude law: pushes further away | {tau:?} turned {} about {axis:?}", e.n(3));
                    cx.reach("turned away");
                }
                _ => {
                    let r = SO3::exp(v3(three(e, 0)));
                    let rd = if e.u(15) == 8 { r } else { SO3::exp(v3(three(e, 6))) };
                    let tau = judge_torque(&c, kr, kw, &j, (r, three(e, 3)), (rd, three(e, 9), three(e, 12)))?;
                    cx.logs(&tau);
                    // The same again, seen by someone standing elsewhere.
                    let q = SO3::exp(v3(three(e, 6)));
                    let again = a3(c.torque(q.compose(r), v3(three(e, 3)), q.compose(rd), v3(three(e, 9)), v3(three(e, 12))));
                    let size = norm(tau) + kr + kw * (norm(three(e, 3)) + norm(three(e, 9)));
                    ensure!((0..3).all(|i| (tau[i] - again[i]).abs() <= 1e-9 * size + 1e-10 * j.max_abs() * (1.0 + norm(three(e, 3)) + norm(three(e, 9))).powi(2)), "attitude law: depends on which way the world is laid out | {tau:?} {again:?}");
                    cx.reach("torque");
                    cx.state(&[9, (norm(tau) + 1e-12).log2() as i64]);
                }
            }
        }
        Ok(())
    }
}

pub struct Drone;

struct Fly {
    body: RigidBody,
    outer: Lqr<6, 3>,
    inner: GeometricAttitudeController,
    kr: f64,
    kw: f64,
    j: Mat,
    m: f64,
    mixer: Option<(MultirotorMixer<4>, RotorLag<4>)>,
    dt: f64,
    state: FreeJointState<f64>,
    place: V3,
    heading: f64,
    asked: V3,
    faced: SO3<f64>,
    push: f64,
    wrench: Wrench<f64>,
    /// The last reading of where the body is: kept while the reading is lost.
    seen: (V3, V3),
    count: u64,
}

const G: f64 = 9.81;

impl Fly {
    fn outer(&mut self, blind: bool, broken: Option<f64>, cx: &mut Cx) -> R {
        if !blind {
            self.seen = (a3(self.state.pose().translation()), a3(self.state.velocity().linear()));
        }
        let (p, v) = self.seen;
        let x = Vector::new([p[0], p[1], p[2], v[0], v[1], v[2]]);
        let goal = Vector::new([self.place[0], self.place[1], self.place[2], 0.0, 0.0, 0.0]);
        let u = self.outer.control_tracking(x, goal, Vector::zeros());
        // Held inside what it can do.
        let mut a = [u[0], u[1], u[2].clamp(-4.0, 5.0)];
        let side = a[0].hypot(a[1]);
        let most = (0.45f64.tan() * (G + a[2])).min(5.0);
        if side > most {
            a[0] *= most / side;
            a[1] *= most / side;
        }
        if let Some(b) = broken {
            a[0] = b;
            ensure!(!matches!(thrust_command_from_acceleration(v3(a), self.heading, G), Ok(_)), "drone: a command that is not finite is accepted | {a:?}");
            cx.reach("held the last command");
            return Ok(());
        }
        self.asked = a;
        Ok(())
    }
    fn inner(&mut self, cx: &mut Cx) -> R {
        let Some((_, size, q)) = judge_command(self.asked, self.heading, G, self.m, cx)? else {
            return Ok(());
        };
        self.faced = q;
        self.push = size * self.m;
        Ok(())
    }
    fn tick(&mut self, gust: (V3, V3), hold: bool) -> R {
        let now = self.state.pose().rotation();
        let w = a3(self.state.velocity().angular());
        if !hold {
            let still = [0.0; 3];
            let tau = judge_torque(&self.inner, self.kr, self.kw, &self.j, (now, w), (self.faced, still, still))?;
            let up = apply(&rot(now), [0.0, 0.0, 1.0]);
            let wanted = apply(&rot(self.faced), [0.0, 0.0, 1.0]);
            let f = self.push * dot(up, wanted).max(0.0);
            self.wrench = match &mut self.mixer {
                None => Wrench::new(v3([0.0, 0.0, f]), v3(tau)),
                Some((mix, _)) => {
                    let cmd = mix.rotor_thrusts(f, v3(tau));
                    mix.wrench(cmd.thrusts())
                }
            };
        }
        let mut given = self.wrench;
        if let Some((mix, lag)) = &mut self.mixer {
            // The wrench asked is shared again over the rotors, which take a while to follow.
            let wanted = mix.rotor_thrusts(given.force()[2], given.torque());
            given = mix.wrench(lag.stepped(wanted.thrusts()));
        }
        let r = rot(now);
        let push = apply(&r.t(), gust.0);
        let total = Wrench::new(v3(add(a3(given.force()), push)), v3(add(a3(given.torque()), gust.1)));
        self.state = self.body.stepped(self.state, total, self.dt);
        self.count += 1;
        let (p, v) = (a3(self.state.pose().translation()), a3(self.state.velocity().linear()));
        ensure!(fin(&p) && fin(&v) && fin(&a3(self.state.velocity().angular())), "drone: the flight is no longer finite | {p:?} {v:?}");
        Ok(())
    }
    fn fly(&mut self, ticks: usize, gust: (V3, V3), stall: bool, blind: bool, broken: Option<f64>, cx: &mut Cx) -> R {
        for k in 0..ticks {
            if !stall {
                if k % 5 == 0 {
                    self.outer(blind, broken, cx)?;
                    self.inner(cx)?;
                }
            }
            self.tick(gust, stall)?;
        }
        cx.sim_time += ticks as f64 * self.dt;
        Ok(())
    }
}

impl World for Drone {
    fn name(&self) -> &'static str {
        "drone"
    }
    /// cfg: mass, principal 3, turn 3, quickness, damping, real rotors, dt, position cost, speed cost, start 3, heading
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        let mass = r.log_range(0.05, 5.0);
        let long = 0.12 * mass.cbrt();
        t.cfg.push(mass);
        let s: V3 = std::array::from_fn(|_| 0.5 * mass * long * long * r.log_range(0.4, 1.0));
        t.cfg.extend([s[1] + s[2], s[0] + s[2], s[0] + s[1]]);
        t.cfg.extend(if r.chance(0.5) { [0.0; 3] } else { direction(r, 0.5) });
        t.cfg.push(r.range(12.0, 18.0));
        t.cfg.push(r.range(0.7, 1.2));
        t.cfg.push(r.below(2) as f64);
        t.cfg.push(*r.pick(&[0.001, 0.002]));
        t.cfg.push(r.range(10.0, 50.0));
        t.cfg.push(r.range(6.0, 15.0));
        t.cfg.extend(direction(r, 3.0));
        t.cfg.push(r.range(-3.0, 3.0));
        for _ in 0..r.int(2, 10) {
            let n = r.int(50, 600) as f64;
            match r.below(9) {
                0 => t.evs.push(ev("stall", &[r.int(2, 60) as f64])),
                1 => t.evs.push(ev("blind", &[r.int(20, 120) as f64])),
                2 => t.evs.push(ev("broken", &[r.int(5, 40) as f64, *r.pick(&[f64::NAN, f64::INFINITY])])),
                3 => {
                    let mut a = vec![n];
                    a.extend(direction(r, 2.0));
                    a.extend(direction(r, 3.0));
                    t.evs.push(ev("gust", &a));
                }
                4 => t.evs.push(ev("knock", &direction(r, 4.0))),
                5 | 6 => {
                    let mut a = direction(r, 4.0).to_vec();
                    a.push(r.range(-1.0, 1.0));
                    t.evs.push(ev("target", &a));
                }
                _ => t.evs.push(ev("fly", &[n])),
            }
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        let (mass, dt) = (t.c(0), t.c(10));
        let principal = [t.c(1), t.c(2), t.c(3)];
        if !(mass > 0.0 && dt > 0.0 && dt < 0.01) || principal.iter().any(|v| !(*v > 0.0)) {
            return Ok(());
        }
        let j = tensor(principal, [t.c(4), t.c(5), t.c(6)]);
        let (wn, zeta) = (t.c(7), t.c(8));
        let mean = (principal[0] + principal[1] + principal[2]) / 3.0;
        let (kr, kw) = (mean * wn * wn, 2.0 * zeta * mean * wn);
        let outer_dt = 5.0 * dt;
        let a = Matrix::<6, 6>::from_fn(|i, k| if i == k { 1.0 } else if i < 3 && k == i + 3 { outer_dt } else { 0.0 });
        let b = Matrix::<6, 3>::from_fn(|i, k| if i == k { 0.5 * outer_dt * outer_dt } else if i == k + 3 { outer_dt } else { 0.0 });
        let (qp, qv) = (t.c(11), t.c(12));
        if !(qp > 0.0 && qv > 0.0) {
            return Ok(());
        }
        let q = Matrix::<6, 6>::from_diagonal([qp, qp, qp, qv, qv, qv]);
        let outer = match Lqr::new(a, b, q, Matrix::<3, 3>::identity()) {
            Ok(v) => v,
            Err(e) => return Err(format!("drone: no law for the position loop | {e:?}")),
        };
        ensure!(outer.certify_stability().is_ok(), "drone: the position loop is not certified");
        let built = (
            SpatialInertia::new(mass, Vector::zeros(), m33(&j)).ok().and_then(|i| RigidBody::new(i, Vector::new([0.0, 0.0, -G])).ok()),
            GeometricAttitudeController::new(kr, kw, m33(&j)).ok(),
        );
        let (Some(body), Some(inner)) = built else {
            return Err(format!("drone: a body that can fly is refused | {mass} {j:?} {kr} {kw}"));
        };
        let long = 0.25 * mass.cbrt();
        let mixer = if t.c(9) == 1.0 {
            let most = mass * G;
            match (MultirotorMixer::quadrotor_x(long, 0.1 * long, 0.0, most), RotorLag::<4>::new(0.01, dt)) {
                (Ok(m), Ok(l)) => Some((m, l.with_thrusts(Vector::from_fn(|_| mass * G / 4.0)))),
                _ => return Err("drone: rotors that can fly it are refused".into()),
            }
        } else {
            None
        };
        let heading = t.c(16);
        let start = SE3::from_parts(SO3::exp(v3([0.0, 0.0, heading])), v3([0.0; 3]));
        let mut f = Fly {
            body,
            outer,
            inner,
            kr,
            kw,
            j,
            m: mass,
            mixer,
            dt,
            state: FreeJointState::new(start, Twist::zeros()),
            place: [t.c(13), t.c(14), t.c(15)],
            heading,
            asked: [0.0; 3],
            faced: start.rotation(),
            push: mass * G,
            wrench: Wrench::new(v3([0.0, 0.0, mass * G]), v3([0.0; 3])),
            seen: ([0.0; 3], [0.0; 3]),
            count: 0,
        };
        let calm = ([0.0; 3], [0.0; 3]);
        for e in &t.evs {
            cx.step(e.k);
            let n = e.u(0).min(2000);
            match e.k {
                "stall" => {
                    cx.fault("controller stalled");
                    f.fly(n, calm, true, false, None, cx)?;
                }
                "blind" => {
                    cx.fault("position reading lost");
                    f.fly(n, calm, false, true, None, cx)?;
                }
                "broken" => {
                    cx.fault("command not finite");
                    f.fly(n, calm, false, false, Some(e.n(1)), cx)?;
                }
                "gust" => {
                    cx.fault("gust");
                    let force = scale(three(e, 1), mass);
                    let twist = scale(three(e, 4), f.j.max_abs() * 4.0);
                    f.fly(n, (force, twist), false, false, None, cx)?;
                }
                "knock" => {
                    cx.fault("knocked into a spin");
                    let v = f.state.velocity();
                    f.state = FreeJointState::new(f.state.pose(), Twist::new(v.linear(), v.angular() + v3(three(e, 0))));
                }
                "target" => {
                    f.place = three(e, 0);
                    f.heading += e.n(3);
                }
                _ => f.fly(n, calm, false, false, None, cx)?,
            }
            let p = a3(f.state.pose().translation());
            cx.logs(&p);
            cx.state(&[hash_str(e.k) as i64 & 0xff, p[0] as i64, p[1] as i64, p[2] as i64]);
        }
        // Left in still air, it comes to the place it was told and faces the way it was told.
        f.fly(((16.0 / dt) as usize).min(20_000), calm, false, false, None, cx)?;
        let off = norm(sub(a3(f.state.pose().translation()), f.place));
        let fast = norm(a3(f.state.velocity().linear()));
        let want = exp_so3([0.0, 0.0, f.heading]);
        let turned = angle_between(&rot(f.state.pose().rotation()), &want);
        ensure!(off < 0.02 && fast < 0.02 && turned < 0.02, "drone: does not come to rest where it was told | off by {off} m at {fast} m/s turned {turned} at {:?}", a3(f.state.pose().translation()));
        cx.reach("came to rest on target");
        Ok(())
    }
}
