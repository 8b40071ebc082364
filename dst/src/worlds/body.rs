//! A free body under gusts: a tick is the balance of momentum, whatever frame it is written in.

use crate::conv::*;
use crate::core::*;
use crate::ensure;
use crate::refs::*;
use multicalc::dynamics::{RigidBody, free_joint_from_state_vector, state_vector_from_free_joint};
use multicalc::error::{DynamicsError, SpatialError};
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::ode::Rk4;
use multicalc::spatial::{FreeJointState, SE3, SO3, SpatialInertia, Twist, Wrench};

pub struct Body;

type V3 = [f64; 3];

/// What the body is, kept apart from the code's own copy.
struct Plain {
    m: f64,
    c: V3,
    i: Mat,
    g: V3,
    least: f64,
    most: f64,
}

#[derive(Clone)]
struct Flight {
    p: V3,
    r: Mat,
    v: V3,
    w: V3,
}

impl Plain {
    /// Newton and Euler about the frame's origin, as one six-by-six system. Body axes for the turn,
    /// world axes for the straight part, and the size of what went into each.
    fn change(&self, r: &Mat, w: V3, f: V3, tau: V3) -> Option<(V3, V3, f64, f64)> {
        let reach = (self.most / self.m).sqrt().max(norm(self.c)).max(1e-12);
        let about = Mat::from_fn(3, 3, |i, j| {
            let d = if i == j { dot(self.c, self.c) } else { 0.0 };
            self.i.at(i, j) / self.m + d - self.c[i] * self.c[j]
        });
        let sk = skew(self.c);
        // Unknowns: the origin's acceleration in body axes, and the spin's change times the reach.
        let mut a = Mat::zeros(6, 6);
        for i in 0..3 {
            a.set(i, i, 1.0);
            for j in 0..3 {
                a.set(i, j + 3, -sk.at(i, j) / reach);
                a.set(i + 3, j, sk.at(i, j) / reach);
                a.set(i + 3, j + 3, about.at(i, j) / (reach * reach));
            }
        }
        let pull = apply(&r.t(), self.g);
        let top = sub(add(scale(f, 1.0 / self.m), pull), cross(w, cross(w, self.c)));
        let low = sub(add(scale(tau, 1.0 / self.m), cross(self.c, pull)), cross(w, apply(&about, w)));
        let b = Mat::col(&[top[0], top[1], top[2], low[0] / reach, low[1] / reach, low[2] / reach]);
        let x = a.inv()?.mul(&b);
        let lin = apply(r, [x.at(0, 0), x.at(1, 0), x.at(2, 0)]);
        let ang = [x.at(3, 0) / reach, x.at(4, 0) / reach, x.at(5, 0) / reach];
        let wn = norm(w);
        let turn = (norm(tau) + norm(self.c) * (norm(f) + self.m * norm(self.g)) + wn * wn * (self.most + self.m * dot(self.c, self.c))) / self.least;
        let push = norm(f) / self.m + norm(self.g) + norm(self.c) * (turn + wn * wn);
        Some((lin, ang, push, turn))
    }
    fn tick(&self, s: &Flight, f: V3, tau: V3, dt: f64) -> Option<(Flight, [f64; 4])> {
        let (a0, b0, pa, ta) = self.change(&s.r, s.w, f, tau)?;
        let half = 0.5 * dt;
        let mid_r = s.r.mul(&exp_so3(scale(s.w, half)));
        let mid_v = add(s.v, scale(a0, half));
        let mid_w = add(s.w, scale(b0, half));
        let (a1, b1, pb, tb) = self.change(&mid_r, mid_w, f, tau)?;
        let next = Flight {
            p: add(s.p, scale(mid_v, dt)),
            r: s.r.mul(&exp_so3(scale(mid_w, dt))),
            v: add(s.v, scale(a1, dt)),
            w: add(s.w, scale(b1, dt)),
        };
        let dt = dt.abs();
        // What the spin at half way being off does to the push read there.
        let off = ta * dt * (1.0 + norm(mid_w) * dt);
        let stir = tb + off * (norm(s.w) + off) * self.most / self.least;
        let shake = pb + norm(self.c) * stir + off * (norm(mid_w) + off) * norm(self.c);
        Some((next, [norm(s.p) + dt * (norm(s.v) + pa * dt), 1.0 + dt * (norm(s.w) + off), norm(s.v) + dt * shake, norm(s.w) + dt * stir]))
    }
    /// Energy and the momentum of turning about the balance point, in world axes, of a state.
    fn held(&self, s: &Flight) -> (f64, V3, V3) {
        let vc = add(s.v, apply(&s.r, cross(s.w, self.c)));
        let pc = add(s.p, apply(&s.r, self.c));
        let lw = apply(&self.i, s.w);
        (0.5 * self.m * dot(vc, vc) + 0.5 * dot(s.w, lw) - self.m * dot(self.g, pc), apply(&s.r, lw), scale(vc, self.m))
    }
}

fn seen(s: FreeJointState<f64>) -> Flight {
    Flight { p: a3(s.pose().translation()), r: rot(s.pose().rotation()), v: a3(s.velocity().linear()), w: a3(s.velocity().angular()) }
}
fn three(e: &Ev, at: usize) -> V3 {
    [e.n(at), e.n(at + 1), e.n(at + 2)]
}
fn near(a: V3, b: V3, tol: f64) -> bool {
    (0..3).all(|i| (a[i] - b[i]).abs() <= tol)
}
fn tensor(p: V3, turn: V3) -> Mat {
    let r = exp_so3(turn);
    r.mul(&Mat::diag(&p)).mul(&r.t()).sym()
}
fn m33(m: &Mat) -> Matrix<3, 3> {
    Matrix::from_fn(|i, j| m.at(i, j))
}

fn direction(r: &mut Rng, size: f64) -> V3 {
    [size * r.range(-1.0, 1.0), size * r.range(-1.0, 1.0), size * r.range(-1.0, 1.0)]
}

impl World for Body {
    fn name(&self) -> &'static str {
        "free body"
    }
    /// cfg: mass, balance point 3, principal 3, turn 3, gravity 3, place 3, facing 3, speed 3, spin 3
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        let mass = r.log_range(1e-2, 1e3);
        let long = r.log_range(1e-2, 3.0);
        let spread: V3 = std::array::from_fn(|_| mass * long * long * r.log_range(1e-3, 1.0));
        let c = match r.below(4) {
            0 => [0.0; 3],
            1 => [0.0, 0.0, long * r.range(-1.0, 1.0)],
            _ => direction(r, 2.0 * long),
        };
        let g = match r.below(5) {
            0 => [0.0; 3],
            1 => direction(r, 20.0),
            _ => [0.0, 0.0, -9.81],
        };
        let turn = if r.chance(0.3) { [0.0; 3] } else { direction(r, 2.0) };
        t.cfg.push(mass);
        t.cfg.extend(c);
        t.cfg.extend([spread[1] + spread[2], spread[0] + spread[2], spread[0] + spread[1]]);
        t.cfg.extend(turn);
        t.cfg.extend(g);
        t.cfg.extend(direction(r, 10.0));
        t.cfg.extend(direction(r, 2.5));
        t.cfg.extend(direction(r, 10.0));
        let spin = *r.pick(&[0.0, 0.1, 3.0, 30.0]);
        t.cfg.extend(direction(r, spin));
        for _ in 0..r.int(2, 14) {
            let (push, twist) = (mass * r.log_range(0.1, 100.0), mass * long * long * r.log_range(0.1, 100.0));
            let mut w = direction(r, push).to_vec();
            w.extend(direction(r, twist));
            match r.below(14) {
                0..=4 => {
                    let dt = *r.pick(&[0.0, 1e-4, 1e-3, 1e-2, 0.02]);
                    let mut a = vec![r.int(1, 6) as f64, dt];
                    a.extend(w);
                    t.evs.push(ev("tick", &a));
                }
                5 => t.evs.push(ev("late", &[1.0, r.range(0.05, 1.0), w[0], w[1], w[2], w[3], w[4], w[5]])),
                6 => t.evs.push(ev("back", &[1.0, -r.log_range(1e-4, 0.02), w[0], w[1], w[2], w[3], w[4], w[5]])),
                7 => t.evs.push(ev("coast", &[r.int(5, 60) as f64])),
                8 => {
                    let mut a = vec![r.sign() * r.log_range(1e-3, 1e3)];
                    a.extend(w);
                    t.evs.push(ev("drift", &a));
                }
                9 => t.evs.push(ev("blank", &w)),
                10 => {
                    let mut a = direction(r, 3.0).to_vec();
                    a.extend(direction(r, 2.0 * long));
                    a.extend(w);
                    t.evs.push(ev("reframe", &a));
                }
                11 => {
                    let m = mass * r.log_range(0.01, 10.0);
                    let s: V3 = std::array::from_fn(|_| m * long * long * r.log_range(1e-3, 1.0));
                    let mut a = vec![m];
                    a.extend(direction(r, 2.0 * long));
                    a.extend([s[1] + s[2], s[0] + s[2], s[0] + s[1]]);
                    a.extend(direction(r, 2.0));
                    t.evs.push(ev("load", &a));
                }
                12 => t.evs.push(ev("broken", &[r.below(6) as f64, r.broken()])),
                _ => t.evs.push(ev("build", &[r.below(8) as f64, r.broken(), r.below(3) as f64])),
            }
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        let at = |k: usize| -> V3 { [t.c(k), t.c(k + 1), t.c(k + 2)] };
        let principal = at(4);
        if principal.iter().any(|v| !(*v > 0.0)) || !(t.c(0) > 0.0) {
            return Ok(());
        }
        let mut plain = Plain {
            m: t.c(0),
            c: at(1),
            i: tensor(principal, at(7)),
            g: at(10),
            least: principal.iter().fold(f64::MAX, |a, b| a.min(*b)),
            most: principal.iter().fold(0.0, |a, b| a.max(*b)),
        };
        let make = |p: &Plain| -> Result<RigidBody, String> {
            let inertia = SpatialInertia::new(p.m, v3(p.c), m33(&p.i)).map_err(|e| format!("free body: a sound inertia is refused | {e:?}"))?;
            let body = RigidBody::new(inertia, v3(p.g)).map_err(|e| format!("free body: a sound body is refused | {e:?}"))?;
            ensure!(body.inertia() == inertia && a3(body.gravity()) == p.g, "free body: not the mass or gravity it was given | {body:?}");
            Ok(body)
        };
        let mut body = make(&plain)?;
        let first = FreeJointState::new(SE3::from_parts(SO3::exp(v3(at(16))), v3(at(13))), Twist::new(v3(at(19)), v3(at(22))));
        let mut state = first;
        for e in &t.evs {
            cx.step(e.k);
            match e.k {
                "tick" | "late" | "back" => {
                    if e.k == "late" {
                        cx.fault("tick late");
                    }
                    if e.k == "back" {
                        cx.fault("clock stepped back");
                    }
                    let (dt, f, tau) = (e.n(1), three(e, 2), three(e, 5));
                    let wrench = Wrench::new(v3(f), v3(tau));
                    for _ in 0..e.u(0).min(6) {
                        let from = seen(state);
                        let Some((want, size)) = plain.tick(&from, f, tau, dt) else { return Ok(()) };
                        if size[1] > 1e3 || size.iter().any(|v| !(*v < 1e9)) {
                            cx.reach("spun past what a tick can follow");
                            state = first;
                            break;
                        }
                        let told = || format!("dt {dt} force {f:?} torque {tau:?}");
                        let (lin, ang, ps, ts) = plain.change(&from.r, from.w, f, tau).unwrap();
                        let now = body.accelerations(state.pose().rotation(), state.velocity().angular(), wrench);
                        ensure!(near(a3(now.angular()), ang, 1e-10 * (1.0 + ts)), "free body: the spin does not change as its momentum says | {} got {:?} want {ang:?}", told(), now.angular());
                        ensure!(near(a3(now.linear()), lin, 1e-10 * (1.0 + ps)), "free body: the origin does not speed up as its momentum says | {} got {:?} want {lin:?}", told(), now.linear());
                        state = body.stepped(state, wrench, dt);
                        let got = seen(state);
                        cx.logs(&got.p);
                        cx.sim_time += dt.abs();
                        let q = quat(state.pose().rotation());
                        let len = q.iter().map(|v| v * v).sum::<f64>().sqrt();
                        ensure!((len - 1.0).abs() < 1e-12, "free body: the facing is no longer a rotation | length {len}");
                        ensure!(near(got.p, want.p, 1e-9 * (1e-3 + size[0])), "free body: a tick moves it elsewhere | {} got {:?} want {:?}", told(), got.p, want.p);
                        ensure!(got.r.sub(&want.r).max_abs() <= 1e-9 * size[1], "free body: a tick turns it elsewhere | {} got {:?} want {:?}", told(), got.r, want.r);
                        ensure!(near(got.v, want.v, 1e-9 * (1e-3 + size[2])), "free body: a tick leaves another speed | {} got {:?} want {:?}", told(), got.v, want.v);
                        ensure!(near(got.w, want.w, 1e-9 * (1e-3 + size[3])), "free body: a tick leaves another spin | {} got {:?} want {:?}", told(), got.w, want.w);
                    }
                }
                "coast" => {
                    // Nothing but gravity: what physics keeps is kept.
                    let from = seen(state);
                    let spin = norm(from.w) * (plain.most / plain.least).max(1.0);
                    let dt = 0.01 / (1.0 + spin);
                    let n = e.u(0).clamp(1, 60);
                    let rate = |_t: f64, s: &Vector<13>| body.state_derivative(s, Wrench::zeros());
                    let end = Rk4::integrate(&rate, 0.0, &state_vector_from_free_joint(state), dt, n, |_, _| {});
                    let Some(end) = free_joint_from_state_vector(&end) else {
                        return Err("free body: coasting loses the facing | ".into());
                    };
                    let to = seen(end);
                    let ((e0, l0, p0), (e1, l1, p1)) = (plain.held(&from), plain.held(&to));
                    let time = dt * n as f64;
                    let kinetic = 0.5 * plain.m * dot(p0, p0) / (plain.m * plain.m) + 0.5 * dot(from.w, apply(&plain.i, from.w));
                    let scale_e = kinetic + plain.m * norm(plain.g) * (norm(from.p) + norm(to.p) + norm(plain.c)) + 1e-9;
                    ensure!((e1 - e0).abs() <= 1e-6 * scale_e, "free body: coasting does not keep its energy | from {e0} to {e1}");
                    ensure!(near(l0, l1, 1e-6 * (norm(l0) + 1e-9 * plain.most)), "free body: coasting does not keep its spin momentum | from {l0:?} to {l1:?}");
                    let fell = add(p0, scale(plain.g, plain.m * time));
                    ensure!(near(fell, p1, 1e-6 * (norm(p0) + plain.m * (norm(plain.g) * time + norm(from.w) * norm(plain.c)) + 1e-12)), "free body: coasting does not fall as gravity says | got {p1:?} want {fell:?}");
                    state = end;
                    cx.sim_time += time;
                    cx.reach("coasted");
                }
                "drift" => {
                    cx.fault("facing numbers drifted off unit length");
                    let k = e.n(0);
                    if k == 0.0 {
                        continue;
                    }
                    let (f, tau) = (three(e, 1), three(e, 4));
                    let wrench = Wrench::new(v3(f), v3(tau));
                    let plainly = state_vector_from_free_joint(state);
                    let now = seen(state);
                    let q = quat(state.pose().rotation());
                    let mut listed = now.p.to_vec();
                    listed.extend(q);
                    listed.extend(now.v);
                    listed.extend(now.w);
                    ensure!(all_same(plainly.as_slice(), &listed), "free body: the thirteen numbers are not the state | {plainly:?} {listed:?}");
                    let mut s = plainly;
                    for i in 3..7 {
                        s[i] *= k;
                    }
                    let Some(back) = free_joint_from_state_vector(&s) else {
                        return Err(format!("free body: a drifted facing is refused | {k}"));
                    };
                    let back = seen(back);
                    ensure!(back.p == now.p && back.v == now.v && back.w == now.w && back.r.sub(&now.r).max_abs() < 1e-14, "free body: a drifted facing reads as another state | {k}");
                    let d = body.state_derivative(&s, wrench);
                    let Some((lin, ang, ps, ts)) = plain.change(&now.r, now.w, f, tau) else { return Ok(()) };
                    let w = now.w;
                    // The four numbers change as the facing times half the spin.
                    let spun = [
                        -q[1] * w[0] - q[2] * w[1] - q[3] * w[2],
                        q[0] * w[0] + q[2] * w[2] - q[3] * w[1],
                        q[0] * w[1] + q[3] * w[0] - q[1] * w[2],
                        q[0] * w[2] + q[1] * w[1] - q[2] * w[0],
                    ];
                    ensure!((0..3).all(|i| d[i] == now.v[i]), "free body: the place does not change at the speed | {d:?}");
                    ensure!((0..4).all(|i| (d[3 + i] - 0.5 * k * spun[i]).abs() <= 1e-12 * k.abs() * (1e-9 + norm(w))), "free body: the facing numbers change otherwise than the spin says | {d:?} want {spun:?} times {}", 0.5 * k);
                    ensure!(near([d[7], d[8], d[9]], lin, 1e-10 * (1.0 + ps)) && near([d[10], d[11], d[12]], ang, 1e-10 * (1.0 + ts)), "free body: the derivative is not the accelerations | {d:?} want {lin:?} {ang:?}");
                }
                "blank" => {
                    cx.fault("facing numbers lost");
                    let mut s = state_vector_from_free_joint(state);
                    for i in 3..7 {
                        s[i] = 0.0;
                    }
                    ensure!(free_joint_from_state_vector(&s).is_none(), "free body: a facing of no direction is taken | {s:?}");
                    let d = body.state_derivative(&s, Wrench::new(v3(three(e, 0)), v3(three(e, 3))));
                    ensure!(d.as_slice().iter().all(|v| *v == 0.0), "free body: a facing of no direction still moves | {d:?}");
                }
                "reframe" => {
                    // The same body, state and push written in another frame fixed to it.
                    cx.reach("written in another frame");
                    let x = SE3::from_parts(SO3::exp(v3(three(e, 0))), v3(three(e, 3)));
                    let (f, tau) = (three(e, 6), three(e, 9));
                    let wrench = Wrench::new(v3(f), v3(tau));
                    let other = x.act_inertia(body.inertia());
                    let moved = match RigidBody::new(other, v3(plain.g)) {
                        Ok(b) => b,
                        Err(err) => return Err(format!("free body: the body in another frame is refused | {err:?}")),
                    };
                    let now = seen(state);
                    let xr = rot(x.rotation());
                    let origin = scale(apply(&xr.t(), a3(x.translation())), -1.0);
                    let facing = state.pose().rotation() * x.rotation().inverse();
                    let a = body.accelerations(state.pose().rotation(), v3(now.w), wrench);
                    let b = moved.accelerations(facing, v3(apply(&xr, now.w)), x.act_wrench(wrench));
                    let alpha = a3(a.angular());
                    let carried = add(cross(alpha, origin), cross(now.w, cross(now.w, origin)));
                    let want = add(a3(a.linear()), apply(&now.r, carried));
                    let Some((_, _, ps, ts)) = plain.change(&now.r, now.w, f, tau) else { return Ok(()) };
                    let size = ps + (norm(origin) + norm(plain.c)) * (ts + dot(now.w, now.w)) + 1.0 + norm(origin) * norm(f) * norm(origin) / plain.least;
                    let ts = ts + norm(origin) * norm(f) / plain.least;
                    ensure!(near(a3(b.angular()), apply(&xr, alpha), 1e-9 * (1.0 + ts)), "free body: another frame sees another spin change | {:?} {alpha:?}", b.angular());
                    ensure!(near(a3(b.linear()), want, 1e-9 * size), "free body: another frame sees another push | {:?} want {want:?}", b.linear());
                }
                "load" => {
                    // A load bolted on: the two bodies' momenta add.
                    let p = three(e, 4);
                    if p.iter().any(|v| !(*v > 0.0)) || !(e.n(0) > 0.0) {
                        continue;
                    }
                    let i = tensor(p, three(e, 7));
                    let load = SpatialInertia::new(e.n(0), v3(three(e, 1)), m33(&i)).map_err(|er| format!("free body: a sound inertia is refused | {er:?}"))?;
                    let both = body.inertia().combined(load);
                    let tw = Twist::new(v3(seen(state).v), v3(seen(state).w));
                    let (a, b, s) = (m2(&body.inertia().to_matrix()), m2(&load.to_matrix()), m2(&both.to_matrix()));
                    let sum = a.add(&b);
                    let tol = 1e-11 * sum.max_abs();
                    ensure!(sum.sub(&s).max_abs() <= tol, "free body: a load bolted on is not the sum of the two | {s:?} want {sum:?}");
                    let v = Mat::col(&tw.as_array());
                    let mom = s.mul(&v);
                    let got = both.momentum(tw).as_array();
                    let size = 1e-11 * sum.max_abs() * (1e-12 + v.max_abs());
                    ensure!((0..6).all(|k| (got[k] - mom.at(k, 0)).abs() <= 10.0 * size), "free body: momentum is not the inertia times the motion | {got:?} want {mom:?}");
                    let energy = 0.5 * v.t().mul(&mom).at(0, 0);
                    ensure!((both.kinetic_energy(tw) - energy).abs() <= 100.0 * size * (1e-12 + v.max_abs()), "free body: kinetic energy is not half the motion times momentum | {} want {energy}", both.kinetic_energy(tw));
                    let bias = both.bias_wrench(tw);
                    let (vl, w) = (a3(tw.linear()), a3(tw.angular()));
                    let (pl, hl) = ([got[0], got[1], got[2]], [got[3], got[4], got[5]]);
                    let big = 1e-10 * sum.max_abs() * (1e-12 + v.max_abs() * v.max_abs());
                    ensure!(near(a3(bias.force()), cross(w, pl), 10.0 * big) && near(a3(bias.torque()), add(cross(w, hl), cross(vl, pl)), 10.0 * big), "free body: the bias is not the motion crossed with momentum | {bias:?}");
                    // The two together fly on as one.
                    let (ci, cc) = (a3(both.center_of_mass()), m2(&both.rotational_inertia()));
                    let (eig, _) = eigen(&cc);
                    let least = eig.iter().fold(f64::MAX, |x, y| x.min(*y));
                    let most = eig.iter().fold(0.0f64, |x, y| x.max(*y));
                    if least < 1e-5 * most {
                        continue;
                    }
                    plain = Plain { m: plain.m + e.n(0), c: ci, i: cc.sym(), g: plain.g, least, most };
                    body = make(&plain)?;
                    cx.reach("took on a load");
                }
                "broken" => {
                    cx.fault("push not finite");
                    let mut w = [0.0; 6];
                    w[e.u(0) % 6] = e.n(1);
                    if !e.n(1).is_finite() {
                        let after = seen(body.stepped(state, Wrench::from_array(w), 0.01));
                        let told = after.p.iter().chain(&after.v).chain(&after.w).any(|v| !v.is_finite());
                        ensure!(told, "free body: a push that is not finite leaves a plausible state | {after:?}", after = (after.p, after.v, after.w));
                    }
                }
                _ => {
                    let k = e.u(2) % 3;
                    let bad = if e.n(1).is_finite() { f64::NAN } else { e.n(1) };
                    let inertia = body.inertia();
                    let refused = |got: Result<SpatialInertia, SpatialError>, want: SpatialError, what: &str| -> R {
                        ensure!(matches!(&got, Err(x) if *x == want), "free body: an inertia {what} is not refused as it should be | {got:?}");
                        Ok(())
                    };
                    let (c, i) = (inertia.center_of_mass(), inertia.rotational_inertia());
                    match e.u(0) % 8 {
                        0 => {
                            let mut g = v3(plain.g);
                            g[k] = bad;
                            let got = RigidBody::new(inertia, g);
                            ensure!(matches!(got, Err(DynamicsError::NonFinite)), "free body: gravity that is not finite is taken | {got:?}");
                        }
                        1 => {
                            // A tensor no body has: each diagonal positive, but turning some way costs less than nothing.
                            let mut m = Matrix::<3, 3>::identity();
                            let (a, b) = (k, (k + 1) % 3);
                            m[(a, b)] = 2.0;
                            m[(b, a)] = 2.0;
                            let odd = SpatialInertia::new(1.0, c, m).map_err(|er| format!("free body: an inertia read the same across the diagonal is refused | {er:?}"))?;
                            let got = RigidBody::new(odd, v3(plain.g));
                            ensure!(matches!(got, Err(DynamicsError::NonPositiveInertia)), "free body: a tensor that is not positive is taken | {got:?}");
                        }
                        2 => refused(SpatialInertia::new(bad, c, i), SpatialError::NonFinite, "of no finite mass")?,
                        3 => refused(SpatialInertia::new(-plain.m * (k as f64), c, i), SpatialError::NonPositiveMass, "of no positive mass")?,
                        4 => {
                            let mut m = i;
                            m[(k, (k + 1) % 3)] += plain.most.max(1.0);
                            refused(SpatialInertia::new(plain.m, c, m), SpatialError::NotSymmetric, "not read the same across the diagonal")?;
                        }
                        5 => {
                            let mut m = i;
                            m[(k, k)] = if bad > 0.0 { 0.0 } else { -plain.least };
                            refused(SpatialInertia::new(plain.m, c, m), SpatialError::NonPositiveInertia, "with nothing resisting a turn")?;
                        }
                        6 => {
                            let mut q = c;
                            q[k] = bad;
                            refused(SpatialInertia::new(plain.m, q, i), SpatialError::NonFinite, "balanced nowhere")?;
                        }
                        _ => {
                            let mut m = i;
                            m[(k, k)] = bad;
                            refused(SpatialInertia::new(plain.m, c, m), SpatialError::NonFinite, "of no finite spread")?;
                        }
                    }
                }
            }
            let now = seen(state);
            cx.state(&[hash_str(e.k) as i64 & 0xff, (norm(now.w) + 1e-9).log2() as i64, (norm(now.v) + 1e-9).log2() as i64]);
        }
        Ok(())
    }
}
