//! A tree of frames kept by a robot's software over a long life: composed, turned round, blended,
//! written out and read back, some of it broken on the way, beside plain matrices that stand for
//! the same motions.

use crate::conv::*;
use crate::core::*;
use crate::ensure;
use crate::refs::*;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::spatial::{FreeJointState, Quaternion, SE2, SE3, SO2, SO3, SpatialInertia, Twist, Wrench};
use std::f64::consts::PI;

const SLOTS: usize = 4;

/// A motion of space as plain numbers, and how far it may be off: its turn and its place.
#[derive(Clone, Debug)]
struct Put {
    r: Mat,
    t: V3,
    er: f64,
    et: f64,
}

const ROUND: f64 = 2e-15;

impl Put {
    fn still() -> Put {
        Put { r: Mat::eye(3), t: [0.0; 3], er: 0.0, et: 0.0 }
    }
    fn after(&self, o: &Put) -> Put {
        let t = add(apply(&self.r, o.t), self.t);
        Put {
            r: self.r.mul(&o.r),
            t,
            er: self.er + o.er + ROUND,
            et: self.et + o.et + (self.er + ROUND) * norm(o.t) + ROUND * norm(self.t),
        }
    }
    fn back(&self) -> Put {
        let r = self.r.t();
        Put { t: scale(apply(&r, self.t), -1.0), r, er: self.er + ROUND, et: self.et + (self.er + ROUND) * norm(self.t) }
    }
    fn point(&self, p: V3) -> V3 {
        add(apply(&self.r, p), self.t)
    }
}

/// What a steady turn and slide adds up to: V of the turn, by its series or its closed form.
fn spread(w: V3) -> Mat {
    let th = norm(w);
    let k = skew(w);
    let (a, b) = if th < 0.5 {
        let (mut a, mut b) = (0.0, 0.0);
        let (mut fa, mut fb) = (0.5, 1.0 / 6.0);
        for n in 0..12 {
            a += fa;
            b += fb;
            let m = 2.0 * n as f64;
            fa *= -th * th / ((m + 3.0) * (m + 4.0));
            fb *= -th * th / ((m + 4.0) * (m + 5.0));
        }
        (a, b)
    } else {
        ((1.0 - th.cos()) / (th * th), (th - th.sin()) / (th * th * th))
    };
    Mat::eye(3).add(&k.scale(a)).add(&k.mul(&k).scale(b))
}

fn turned(w: V3) -> Mat {
    let th = norm(w);
    let k = skew(w);
    let half = 0.5 * th;
    let a = if th < 1e-4 { 1.0 - th * th / 6.0 } else { th.sin() / th };
    let s = if half < 1e-4 { 1.0 - half * half / 6.0 } else { half.sin() / half };
    Mat::eye(3).add(&k.scale(a)).add(&k.mul(&k).scale(0.5 * s * s))
}

fn exp(x: &[f64; 6]) -> Put {
    let (v, w) = ([x[0], x[1], x[2]], [x[3], x[4], x[5]]);
    let th = norm(w);
    Put { r: turned(w), t: apply(&spread(w), v), er: ROUND * (2.0 + th), et: 1e-13 * (1.0 + th) * norm(v) }
}

/// The turn of an attitude, told well near a half turn too, with how sure it is.
fn turn_of(m: &Mat) -> V3 {
    let w = [m.at(2, 1) - m.at(1, 2), m.at(0, 2) - m.at(2, 0), m.at(1, 0) - m.at(0, 1)];
    let s = 0.5 * norm(w);
    let c = 0.5 * (m.trace() - 1.0);
    let th = s.atan2(c);
    if c > -0.5 {
        return log_so3(m);
    }
    // Near a half turn the axis is the long column of what stays put.
    let stay = m.add(&m.t()).add(&Mat::eye(3).scale(1.0 - m.trace()));
    let j = (0..3).max_by(|a, b| stay.at(*a, *a).total_cmp(&stay.at(*b, *b))).unwrap_or(0);
    let axis = unit([stay.at(0, j), stay.at(1, j), stay.at(2, j)]).unwrap_or([1.0, 0.0, 0.0]);
    scale(axis, if dot(axis, w) < 0.0 { -th } else { th })
}

/// The sum of what a slot of the series makes: each power over one more than its factorial.
fn series(ad: &Mat) -> Mat {
    let n = ad.r;
    let mut term = Mat::eye(n);
    let mut sum = Mat::eye(n);
    for k in 1..70 {
        term = term.mul(ad).scale(1.0 / (k + 1) as f64);
        sum = sum.add(&term);
    }
    sum
}

fn ad3(x: &[f64; 6]) -> Mat {
    let (v, w) = (skew([x[0], x[1], x[2]]), skew([x[3], x[4], x[5]]));
    Mat::from_fn(6, 6, |i, j| match (i < 3, j < 3) {
        (true, true) => w.at(i, j),
        (true, false) => v.at(i, j - 3),
        (false, false) => w.at(i - 3, j - 3),
        _ => 0.0,
    })
}

fn ad2(x: &[f64; 3]) -> Mat {
    Mat { r: 3, c: 3, d: vec![0.0, -x[2], x[1], x[2], 0.0, -x[0], 0.0, 0.0, 0.0] }
}

/// The same in the plane: cosine, sine, place, and how far each may be off.
#[derive(Clone, Debug)]
struct Flat {
    a: f64,
    x: f64,
    y: f64,
    ea: f64,
    et: f64,
}

impl Flat {
    fn after(&self, o: &Flat) -> Flat {
        let (s, c) = self.a.sin_cos();
        let reach = o.x.hypot(o.y);
        Flat {
            a: wrap_pi(self.a + o.a),
            x: c * o.x - s * o.y + self.x,
            y: s * o.x + c * o.y + self.y,
            ea: self.ea + o.ea + ROUND,
            et: self.et + o.et + (self.ea + ROUND) * reach + ROUND * self.x.hypot(self.y),
        }
    }
    fn back(&self) -> Flat {
        let (s, c) = self.a.sin_cos();
        Flat {
            a: -self.a,
            x: -(c * self.x + s * self.y),
            y: -(-s * self.x + c * self.y),
            ea: self.ea + ROUND,
            et: self.et + (self.ea + ROUND) * self.x.hypot(self.y),
        }
    }
    fn exp(x: &[f64; 3]) -> Flat {
        let v = spread([0.0, 0.0, x[2]]);
        Flat {
            a: wrap_pi(x[2]),
            x: v.at(0, 0) * x[0] + v.at(0, 1) * x[1],
            y: v.at(1, 0) * x[0] + v.at(1, 1) * x[1],
            ea: ROUND * (1.0 + x[2].abs()),
            et: 1e-13 * (1.0 + x[2].abs()) * x[0].hypot(x[1]),
        }
    }
    /// The slide that, turning steadily, ends here; for turns short of a whole one.
    fn slide(&self) -> Option<[f64; 2]> {
        let v = spread([0.0, 0.0, self.a]);
        let d = v.at(0, 0) * v.at(1, 1) - v.at(0, 1) * v.at(1, 0);
        (d > 1e-3).then(|| [(v.at(1, 1) * self.x - v.at(0, 1) * self.y) / d, (v.at(0, 0) * self.y - v.at(1, 0) * self.x) / d])
    }
}

fn same2(what: &str, got: SE2<f64>, want: &Flat) -> R {
    let (c, s) = got.rotation().cos_sin();
    let t = got.translation();
    let off = (c - want.a.cos()).abs().max((s - want.a.sin()).abs());
    let far = (t[0] - want.x).hypot(t[1] - want.y);
    ensure!(off <= want.ea + ROUND && far <= want.et + ROUND * want.x.hypot(want.y), "{what} | {got:?} want {want:?} off {off:e} far {far:e}");
    Ok(())
}

fn same3(what: &str, got: SE3<f64>, want: &Put) -> R {
    let r = rot(got.rotation());
    let t = a3(got.translation());
    let off = r.sub(&want.r).max_abs();
    let far = norm(sub(t, want.t));
    ensure!(off <= want.er * 4.0 + ROUND && far <= want.et + ROUND * norm(want.t), "{what} | {got:?} want {want:?} off {off:e} far {far:e}");
    Ok(())
}

fn read3(x: SE3<f64>) -> Put {
    Put { r: rot(x.rotation().normalized()), t: a3(x.translation()), er: ROUND, et: ROUND * norm(a3(x.translation())) }
}

pub struct Tree;

fn turns(r: &mut Rng) -> V3 {
    let axis = match r.below(4) {
        0 => {
            let mut a = [0.0; 3];
            a[r.below(3)] = r.sign();
            a
        }
        _ => unit([r.normal(), r.normal(), r.normal()]).unwrap_or([0.0, 0.0, 1.0]),
    };
    let th = match r.below(8) {
        0 => 0.0,
        1 => r.log_range(1e-16, 1e-6),
        2 => r.log_range(1e-6, 0.3),
        3 => PI - r.log_range(1e-12, 1e-2),
        4 => PI,
        5 => r.range(PI, 20.0),
        _ => r.range(0.0, PI),
    };
    scale(axis, th)
}

fn slides(r: &mut Rng) -> V3 {
    let size = match r.below(5) {
        0 => 0.0,
        1 => r.log_range(1e-9, 1e-3),
        2 => r.log_range(1.0, 1e4),
        _ => 1.0,
    };
    [size * r.range(-1.0, 1.0), size * r.range(-1.0, 1.0), size * r.range(-1.0, 1.0)]
}

impl World for Tree {
    fn name(&self) -> &'static str {
        "frames"
    }
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        for i in 0..SLOTS {
            let (v, w) = (slides(r), turns(r));
            t.evs.push(ev("twist", &[i as f64, v[0], v[1], v[2], w[0], w[1], w[2]]));
            let (v, w) = (slides(r), turns(r));
            let a = w[0] + w[1] + w[2];
            t.evs.push(ev("twist2", &[i as f64, v[0], v[1], a]));
        }
        for _ in 0..r.int(4, 60) {
            let (i, j, k) = (r.below(SLOTS) as f64, r.below(SLOTS) as f64, r.below(SLOTS) as f64);
            let amount = *r.pick(&[0.0, 1.0, 0.5, r.clone().range(0.0, 1.0), r.clone().range(-0.5, 1.5)]);
            let (v, w) = (slides(r), turns(r));
            let e = match r.below(24) {
                0 => ev("twist", &[i, v[0], v[1], v[2], w[0], w[1], w[2]]),
                1 => ev("twist2", &[i, v[0], v[1], w[0] + w[1] + w[2]]),
                2..=5 => ev("compose", &[i, j, k]),
                6 => ev("invert", &[i, k]),
                7 | 8 => ev("blend", &[i, j, k, amount]),
                9 => ev("written out", &[i]),
                10 => ev("drifted", &[i, r.range(-0.3, 0.3), r.sign()]),
                11 => ev("log", &[i]),
                12 => {
                    let w = if r.chance(0.5) { w } else { scale(w, r.log_range(1e-9, 1.0)) };
                    ev("slope", &[v[0], v[1], v[2], w[0], w[1], w[2]])
                }
                13 | 14 => {
                    let mut a = vec![i];
                    a.extend((0..12).map(|_| r.range(-2.0, 2.0)));
                    a.push(r.log_range(1e-2, 1e2));
                    a.extend((0..3).map(|_| r.range(0.5, 1.0)));
                    ev("carry", &a)
                }
                15 => {
                    let pitch = match r.below(4) {
                        0 => r.sign() * (0.5 * PI - r.log_range(1e-12, 1e-1)),
                        1 => r.sign() * 0.5 * PI,
                        _ => r.range(-1.5, 1.5),
                    };
                    ev("euler", &[r.range(-PI, PI), pitch, r.range(-PI, PI)])
                }
                16 => {
                    let a = turns(r);
                    let b = turns(r);
                    let kind = r.below(5) as f64;
                    let (p, q) = (r.log_range(1e-3, 1e3), r.log_range(1e-3, 1e3));
                    let gap = r.log_range(1e-14, 1e-1);
                    let (p, q) = if r.chance(0.2) { (*r.pick(&[1e-180, 1e180]), *r.pick(&[1e-180, 1.0, 1e180])) } else { (p, q) };
                    ev("pointed", &[a[0], a[1], a[2], b[0], b[1], b[2], kind, p, q, gap])
                }
                17 => ev("sighted", &[w[0], w[1], w[2], r.range(-1.0, 1.0), r.range(-1.0, 1.0), r.range(-1.0, 1.0), r.range(-1.0, 1.0), r.range(-1.0, 1.0), r.range(-1.0, 1.0), r.log_range(1e-3, 1e3), r.log_range(1e-3, 1e3), r.range(-0.3, 0.3)]),
                18 | 19 => ev("refuse", &[i, r.below(12) as f64, r.below(9) as f64, r.broken(), r.log_range(1e-9, 1.0)]),
                20 if r.chance(0.5) => {
                    let small = if r.chance(0.3) { r.log_range(1e-18, 1e-2) } else { 1.0 };
                    let mut a: Vec<f64> = (0..8).map(|n| if n % 4 == 0 { r.range(-1.5, 1.5) } else { small * r.range(-1.9, 1.9) }).collect();
                    a.push(r.range(-2.0, 2.0));
                    ev("algebra", &a)
                }
                20 => ev("state", &[i, r.range(0.2, 3.0), r.normal(), r.normal(), r.normal(), r.normal(), r.normal(), r.normal()]),
                21 => ev("act", &[i, v[0], v[1], v[2]]),
                22 => ev("chain", &[i, j, r.int(10, 400) as f64]),
                _ => ev("compose2", &[i, j, k, r.below(6) as f64, amount]),
            };
            t.evs.push(e);
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        let mut s = [SE3::<f64>::identity(); SLOTS];
        let mut m: Vec<Put> = (0..SLOTS).map(|_| Put::still()).collect();
        let mut s2 = [SE2::<f64>::identity(); SLOTS];
        let mut m2d: Vec<Flat> = (0..SLOTS).map(|_| Flat { a: 0.0, x: 0.0, y: 0.0, ea: 0.0, et: 0.0 }).collect();
        for e in &t.evs {
            cx.step(e.k);
            let (i, j, k) = (e.u(0) % SLOTS, e.u(1) % SLOTS, e.u(2) % SLOTS);
            match e.k {
                "twist" => {
                    let x = [e.n(1), e.n(2), e.n(3), e.n(4), e.n(5), e.n(6)];
                    s[i] = SE3::exp(Vector::new(x));
                    m[i] = exp(&x);
                    same3("a steady motion does not end where it should", s[i], &m[i])?;
                    let q = Quaternion::from_scaled_axis(Vector::new([x[3], x[4], x[5]]));
                    ensure!(q == s[i].rotation().quaternion(), "a turn and its quaternion differ | {x:?}");
                    if let Some(axis) = unit([x[3], x[4], x[5]]) {
                        let th = norm([x[3], x[4], x[5]]);
                        let by_axis = SO3::from_quaternion(Quaternion::from_axis_angle(v3(scale(axis, 3.0)), th));
                        ensure!(rot(by_axis).sub(&m[i].r).max_abs() <= 4.0 * m[i].er, "a turn about an axis is not the turn | {x:?}");
                    }
                    // The algebra's matrix, and back.
                    let hat = SE3::hat(Vector::new(x));
                    let sk = skew([x[3], x[4], x[5]]);
                    for a in 0..4 {
                        for b in 0..4 {
                            let want = if a == 3 { 0.0 } else if b == 3 { x[a] } else { sk.at(a, b) };
                            ensure!(hat[(a, b)] == want, "the matrix of a twist is wrong | {x:?} {hat:?}");
                        }
                    }
                    ensure!(*SE3::<f64>::vee(hat).as_array() == x, "a twist does not come back from its matrix | {x:?}");
                }
                "twist2" => {
                    let x = [e.n(1), e.n(2), e.n(3)];
                    s2[i] = SE2::exp(Vector::new(x));
                    m2d[i] = Flat::exp(&x);
                    same2("a steady motion in the plane does not end where it should", s2[i], &m2d[i])?;
                    ensure!(*SE2::<f64>::vee(SE2::hat(Vector::new(x))).as_array() == x, "a plane twist does not come back from its matrix | {x:?}");
                    let flat_hat = SO2::hat(x[2]);
                    ensure!(flat_hat[(0, 0)] == 0.0 && flat_hat[(1, 1)] == 0.0 && flat_hat[(0, 1)] == -x[2] && flat_hat[(1, 0)] == x[2], "an angle's matrix is wrong | {x:?} {flat_hat:?}");
                    ensure!(SO2::<f64>::vee(flat_hat) == x[2], "an angle does not come back from its matrix | {x:?}");
                }
                "compose" => {
                    (s[k], m[k]) = (if e.u(0) % 2 == 0 { s[i] * s[j] } else { s[i].compose(s[j]) }, m[i].after(&m[j]));
                    same3("composing is not one motion after the other", s[k], &m[k])?;
                }
                "invert" => {
                    let k = e.u(1) % SLOTS;
                    (s[k], m[k]) = (s[i].inverse(), m[i].back());
                    same3("an inverse does not undo", s[k], &m[k])?;
                }
                "chain" => {
                    // One motion made over and over, as a wheel or a clock's hand would, put back on
                    // the sphere now and then.
                    let n = e.u(2).min(400);
                    cx.fault("a long run of the same motion");
                    for c in 0..n {
                        s[i] = s[i] * s[j];
                        m[i] = m[i].after(&m[j]);
                        if j == i && c > 8 {
                            break;
                        }
                        if c % 32 == 31 {
                            s[i] = SE3::from_parts(s[i].rotation().normalized(), s[i].translation());
                        }
                    }
                    same3("a long run of motions drifts off", s[i], &m[i])?;
                }
                "blend" => {
                    let x = e.n(3);
                    let rel = m[i].back().after(&m[j]);
                    let w = turn_of(&rel.r);
                    let th = norm(w);
                    let got = s[i].interpolate(s[j], x);
                    let alone = s[i].rotation().interpolate(s[j].rotation(), x);
                    let short = (PI - th).max(0.0);
                    let sure = rel.er + 1e-14;
                    // How far the slide is off where the turn's axis is told less well.
                    let fuzzy = sure / short.max(sure);
                    if fuzzy < 1e-6 {
                        let Some(vi) = spread(w).inv() else { continue };
                        let v = apply(&vi, rel.t);
                        let part = exp(&[x * v[0], x * v[1], x * v[2], x * w[0], x * w[1], x * w[2]]);
                        let mut want = m[i].after(&part);
                        want.er += 40.0 * fuzzy + 20.0 * sure;
                        want.et += (200.0 * fuzzy + 1e-13) * (norm(rel.t) + norm(m[i].t)) + rel.et * 10.0;
                        same3("a blend is not that part of the way", got, &want)?;
                        ensure!(rot(alone).sub(&want.r).max_abs() <= 4.0 * want.er, "a turn's blend is not that part of the way | {alone:?} want {want:?} amount {x} turn {th}");
                        cx.reach("blended");
                    }
                    // Whatever the way, it starts and ends at its ends and moves evenly.
                    let d = rot(s[i].rotation().normalized()).t().mul(&rot(alone));
                    let gone = norm(turn_of(&d));
                    let want = norm(turn_of(&turned(scale(w, x))));
                    ensure!((gone - want).abs() <= 1e-7 + 1e3 * sure, "a turn's blend does not cover its part of the angle | {gone} want {want} amount {x} turn {th}");
                    if x == 0.0 || x == 1.0 {
                        let end = if x == 0.0 { &m[i] } else { &m[j] };
                        let mut end = end.clone();
                        end.er += rel.er * 4.0 + 1e-13 + if x == 1.0 { 3.0 * m[i].er } else { 0.0 };
                        end.et += (4.0 * rel.er + 1e-12) * (norm(m[i].t) + norm(m[j].t)) + rel.et * 4.0;
                        same3("a blend does not start and end at its ends", got, &end)?;
                        ensure!(rot(alone).sub(&end.r).max_abs() <= 4.0 * end.er, "a turn's blend does not start and end at its ends | {alone:?} {end:?}");
                    }
                    if x.is_finite() {
                        s[k] = got;
                        m[k] = read3(got);
                        s[k] = SE3::from_parts(s[k].rotation().normalized(), s[k].translation());
                    }
                }
                "written out" => {
                    cx.fault("written out and read back");
                    let clean = SE3::from_parts(s[i].rotation().normalized(), s[i].translation());
                    let a = clean.to_matrix();
                    let r = rot(clean.rotation());
                    let tt = a3(clean.translation());
                    for x in 0..4 {
                        for y in 0..4 {
                            let want = match (x, y) {
                                (3, 3) => 1.0,
                                (3, _) => 0.0,
                                (_, 3) => tt[x],
                                _ => r.at(x, y),
                            };
                            ensure!((a[(x, y)] - want).abs() <= ROUND && (y < 3 || a[(x, y)] == want), "a pose's matrix is not the pose | {clean:?} {a:?}");
                        }
                    }
                    let Some(back) = SE3::try_from_matrix(a) else {
                        return Err(format!("a pose's own matrix is refused | {clean:?} {a:?}"));
                    };
                    s[i] = back;
                    m[i].er += 10.0 * ROUND;
                    same3("a pose read back from its matrix is another", s[i], &m[i])?;
                    let q = s[i].rotation().quaternion();
                    ensure!((q.norm() - 1.0).abs() <= 1e-14, "a turn read back is not of unit length | {q:?}");
                    // The quaternion's own conversions agree.
                    let (axis, angle) = q.to_axis_angle();
                    ensure!((0.0..=PI + 1e-15).contains(&angle), "an angle past a half turn | {angle} {q:?}");
                    ensure!((norm(a3(axis)) - 1.0).abs() <= 1e-12, "an axis that is not of unit length | {axis:?} {q:?}");
                    ensure!(turned(scale(a3(axis), angle)).sub(&rot(s[i].rotation())).max_abs() <= 1e-13, "an axis and angle are another turn | {q:?} {axis:?} {angle}");
                    let flat = SE2::try_from_matrix(s2[i].to_matrix());
                    let slack = (s2[i].rotation().norm() - 1.0).abs();
                    if slack < 1e-15 {
                        let Some(f) = flat else {
                            return Err(format!("a plane pose's own matrix is refused | {:?}", s2[i]));
                        };
                        m2d[i].ea += ROUND;
                        s2[i] = f;
                        // A little longer or shorter than it was, it comes back put right.
                        let mut off = f.to_matrix();
                        let by = 1.0 + 4e-15 * m2d[i].a.sin();
                        for x in 0..2 {
                            for y in 0..2 {
                                off[(x, y)] *= by;
                            }
                        }
                        let Some(g) = SE2::try_from_matrix(off) else {
                            return Err(format!("a plane pose hardly off is refused | {off:?}"));
                        };
                        ensure!((g.rotation().norm() - 1.0).abs() <= 4.5e-16, "a plane pose hardly off is not put right | {g:?}");
                        same2("a plane pose put right is another", g, &m2d[i])?;
                        same2("a plane pose read back from its matrix is another", s2[i], &m2d[i])?;
                    }
                    cx.reach("read back");
                }
                "drifted" => {
                    // The four numbers come back longer or shorter, or with their sign turned: the same turn.
                    cx.fault("a quaternion off its length or turned over");
                    let (f, sign) = (1.0 + e.n(1), e.n(2));
                    if !(f > 0.1) || sign == 0.0 {
                        continue;
                    }
                    let q = s[i].rotation().quaternion().normalized();
                    let raw = q * (f * sign);
                    let r = if f > 1.0 { Some(SO3::from_quaternion(raw)) } else { SO3::try_from_quaternion(raw) };
                    let Some(r) = r else {
                        return Err(format!("a drifted quaternion is refused | {raw:?}"));
                    };
                    m[i].er += 3.0 * ROUND;
                    s[i] = SE3::from_parts(r, s[i].translation());
                    same3("a drifted quaternion is another turn once put right", s[i], &m[i])?;
                    ensure!((r.quaternion().norm() - 1.0).abs() <= 1e-15 * 2.0, "putting a quaternion right leaves it off | {r:?}");
                    let inv = raw.inverse() * raw;
                    ensure!((inv.w() - 1.0).abs() <= 1e-14 && inv.vec().norm() <= 1e-14, "a quaternion times its inverse is not one | {raw:?}");
                    ensure!(q.rotation_angle_to(q * sign) <= 1e-15, "a quaternion turned over is another turn | {q:?}");
                    let th = q.rotation_angle_to(s[j].rotation().quaternion().normalized());
                    let want = norm(turn_of(&m[i].r.t().mul(&m[j].r)));
                    ensure!((th - want).abs() <= 1e-12 + 10.0 * (m[i].er + m[j].er).max(1e-16) * (1.0 + 1.0 / (PI - want).max(1e-3)) + if PI - want < 1e-3 { 1e-7 } else { 0.0 }, "the angle between two turns is wrong | {th} want {want}");
                    let (c, sn) = s2[i].rotation().cos_sin();
                    let _ = (c, sn);
                    s2[i] = SE2::from_parts(s2[i].rotation().normalized(), s2[i].translation());
                    m2d[i].ea += ROUND;
                    same2("putting a plane turn right moves it", s2[i], &m2d[i])?;
                    ensure!((s2[i].rotation().norm() - 1.0).abs() <= 4e-16, "putting a plane turn right leaves it off");
                }
                "log" => {
                    let clean = SE3::from_parts(s[i].rotation().normalized(), s[i].translation());
                    let x = *clean.log().as_array();
                    let w = [x[3], x[4], x[5]];
                    ensure!(norm(w) <= PI + 1e-14, "a turn longer than a half one | {x:?} of {clean:?}");
                    let again = exp(&x);
                    let mut want = m[i].clone();
                    want.er += 1e-14;
                    want.et += 1e-12 * norm(want.t);
                    let off = again.r.sub(&want.r).max_abs();
                    let far = norm(sub(again.t, want.t));
                    ensure!(off <= 4.0 * want.er && far <= want.et + again.et, "the motion a pose is told to be leads elsewhere | {clean:?} told {x:?} off {off:e} far {far:e}");
                    let back = SE3::exp(clean.log());
                    same3("told and made again, a pose is another", back, &want)?;
                    // Small turns keep their digits.
                    let truly = turn_of(&m[i].r);
                    if norm(truly) < 1.0 {
                        ensure!(norm(sub(truly, w)) <= 4.0 * m[i].er + 1e-14, "a small turn is told wrong | {w:?} want {truly:?}");
                    }
                    // In the plane.
                    let f = SE2::from_parts(s2[i].rotation().normalized(), s2[i].translation());
                    let y = *f.log().as_array();
                    ensure!((wrap_pi(y[2] - m2d[i].a)).abs() <= m2d[i].ea * 2.0 + ROUND && y[2].abs() <= PI, "a plane turn is told wrong | {y:?} want {:?}", m2d[i]);
                    if let Some(v) = (Flat { a: y[2], ..m2d[i].clone() }).slide() {
                        let size = m2d[i].x.hypot(m2d[i].y);
                        ensure!((y[0] - v[0]).hypot(y[1] - v[1]) <= 1e-12 * size + 4.0 * (m2d[i].et + m2d[i].ea * size), "a plane slide is told wrong | {y:?} want {v:?}");
                    }
                    let mut want = m2d[i].clone();
                    want.ea += 1e-14;
                    want.et += 1e-12 * want.x.hypot(want.y);
                    same2("told and made again, a plane pose is another", SE2::exp(f.log()), &want)?;
                    cx.reach("told and made again");
                }
                "slope" => {
                    let x: [f64; 6] = std::array::from_fn(|n| e.n(n));
                    let (v, w) = ([x[0], x[1], x[2]], [x[3], x[4], x[5]]);
                    let (big, th) = (norm(v), norm(w));
                    if th > 6.0 || big > 20.0 {
                        continue;
                    }
                    let neg = x.map(|n| -n);
                    let want = series(&ad3(&x));
                    let tol = 3e-11 * (1.0 + big);
                    let jl = m2(&SE3::left_jacobian(Vector::new(x)));
                    let jr = m2(&SE3::right_jacobian(Vector::new(neg)));
                    ensure!(jl.sub(&want).max_abs() <= tol, "the slope of a motion is wrong | {x:?} {jl:?} want {want:?}");
                    ensure!(jr.sub(&want).max_abs() <= tol, "the slope of a motion from its end is wrong | {x:?} {jr:?} want {want:?}");
                    let so = m2(&SO3::left_jacobian(v3(w)));
                    let sr = m2(&SO3::right_jacobian(v3(scale(w, -1.0))));
                    let sub3 = Mat::from_fn(3, 3, |a, b| want.at(a, b));
                    ensure!(so.sub(&sub3).max_abs() <= 3e-11 && sr.sub(&sub3).max_abs() <= 3e-11, "the slope of a turn is wrong | {w:?} {so:?} want {sub3:?}");
                    // Its inverse, short of a whole turn.
                    if th < 5.5 {
                        let ji = m2(&SE3::left_jacobian_inverse(Vector::new(x)));
                        let jri = m2(&SE3::right_jacobian_inverse(Vector::new(neg)));
                        let far = 1.0 + th / (2.0 * PI - th);
                        let tol = 1e-10 * (1.0 + big) * far * far;
                        ensure!(ji.mul(&want).sub(&Mat::eye(6)).max_abs() <= tol && jri.mul(&want).sub(&Mat::eye(6)).max_abs() <= tol, "the inverse slope of a motion is wrong | {x:?} {ji:?}");
                        let si = m2(&SO3::left_jacobian_inverse(v3(w)));
                        let sri = m2(&SO3::right_jacobian_inverse(v3(scale(w, -1.0))));
                        ensure!(si.mul(&sub3).sub(&Mat::eye(3)).max_abs() <= 1e-10 * far && sri.mul(&sub3).sub(&Mat::eye(3)).max_abs() <= 1e-10 * far, "the inverse slope of a turn is wrong | {w:?} {si:?}");
                    }
                    // In the plane.
                    let y = [x[0], x[1], th * if w[2] < 0.0 { -1.0 } else { 1.0 }];
                    let want = series(&ad2(&y));
                    let j2 = m2(&SE2::left_jacobian(Vector::new(y)));
                    let r2 = m2(&SE2::right_jacobian(Vector::new(y.map(|n| -n))));
                    let tol = 3e-11 * (1.0 + big);
                    ensure!(j2.sub(&want).max_abs() <= tol, "the slope of a plane motion is wrong | {y:?} {j2:?} want {want:?}");
                    ensure!(r2.sub(&want).max_abs() <= tol, "the slope of a plane motion from its end is wrong | {y:?} {r2:?}");
                    if th < 5.5 {
                        let far = 1.0 + th / (2.0 * PI - th);
                        let i2 = m2(&SE2::left_jacobian_inverse(Vector::new(y)));
                        let ir2 = m2(&SE2::right_jacobian_inverse(Vector::new(y.map(|n| -n))));
                        ensure!(i2.mul(&want).sub(&Mat::eye(3)).max_abs() <= tol * far * far * 4.0 && ir2.mul(&want).sub(&Mat::eye(3)).max_abs() <= tol * far * far * 4.0, "the inverse slope of a plane motion is wrong | {y:?} {i2:?}");
                    }
                    cx.reach("slopes");
                }
                "carry" => {
                    let x: [f64; 6] = std::array::from_fn(|n| e.n(1 + n));
                    let f: [f64; 6] = std::array::from_fn(|n| e.n(7 + n));
                    let mass = e.n(13);
                    let shape = [e.n(14), e.n(15), e.n(16)];
                    if !(mass > 0.0) || shape.iter().any(|d| !(*d > 0.0)) {
                        continue;
                    }
                    let pose = SE3::from_parts(s[i].rotation().normalized(), s[i].translation());
                    let p = read3(pose);
                    let big = 1.0 + norm(p.t);
                    let (v, w) = ([x[0], x[1], x[2]], [x[3], x[4], x[5]]);
                    let (push, twist) = ([f[0], f[1], f[2]], [f[3], f[4], f[5]]);
                    let t6 = Twist::from_array(x);
                    let w6 = Wrench::from_array(f);
                    let moved = pose.act_twist(t6);
                    let (rw, rv) = (apply(&p.r, w), apply(&p.r, v));
                    let want_t = add(rv, cross(p.t, rw));
                    ensure!(norm(sub(a3(moved.angular()), rw)) <= 1e-14 * 4.0 && norm(sub(a3(moved.linear()), want_t)) <= 4e-14 * big, "a twist carried to another frame is another motion | {pose:?} {x:?} {moved:?}");
                    let pushed = pose.act_wrench(w6);
                    let (rf, rt) = (apply(&p.r, push), apply(&p.r, twist));
                    let want_w = add(rt, cross(p.t, rf));
                    ensure!(norm(sub(a3(pushed.force()), rf)) <= 4e-14 && norm(sub(a3(pushed.torque()), want_w)) <= 4e-14 * big, "a push carried to another frame is another push | {pose:?} {f:?} {pushed:?}");
                    // The matrices say the same.
                    let by_ad = m2(&pose.adjoint()).mul(&Mat::col(&x));
                    let by_fad = m2(&pose.force_adjoint()).mul(&Mat::col(&f));
                    for n in 0..6 {
                        ensure!((by_ad.at(n, 0) - moved.as_array()[n]).abs() <= 1e-13 * big, "a frame's matrix carries a twist elsewhere | {pose:?} {x:?}");
                        ensure!((by_fad.at(n, 0) - pushed.as_array()[n]).abs() <= 1e-13 * big, "a frame's matrix carries a push elsewhere | {pose:?} {f:?}");
                    }
                    let power = t6.dot_wrench(w6);
                    ensure!((power - dot(v, push) - dot(w, twist)).abs() <= 1e-13, "power is not what the motion gives the push | {x:?} {f:?}");
                    ensure!((moved.dot_wrench(pushed) - power).abs() <= 1e-12 * big * big, "power depends on the frame | {pose:?} {x:?} {f:?}");
                    let back = pose.inverse_act_twist(moved).as_array();
                    let backw = pose.inverse_act_wrench(pushed).as_array();
                    for n in 0..6 {
                        ensure!((back[n] - x[n]).abs() <= 1e-13 * big && (backw[n] - f[n]).abs() <= 1e-13 * big, "carried there and back, it is another | {pose:?} {x:?} {f:?}");
                    }
                    // What a body holds does not depend on the frame either.
                    let Ok(body) = SpatialInertia::new(mass, v3([x[3], f[3], x[4]]), Matrix::from_diagonal(shape.map(|d| d * mass))) else {
                        return Err(format!("a body that can be is refused | {mass} {shape:?}"));
                    };
                    let there = pose.act_inertia(body);
                    ensure!(body.is_finite() && there.is_finite(), "a sound body is not finite | {body:?}");
                    let lost = SE3::from_parts(pose.rotation(), v3([f64::NAN, 0.0, 0.0])).act_inertia(body);
                    ensure!(!lost.is_finite(), "a body carried to nowhere is finite");
                    let (e0, e1) = (body.kinetic_energy(t6), there.kinetic_energy(moved));
                    ensure!((e0 - e1).abs() <= 1e-11 * big * big * (1.0 + e0.abs()), "a body's energy depends on the frame | {e0} {e1} {pose:?}");
                    let (h0, h1) = (pose.act_wrench(body.momentum(t6)).as_array(), there.momentum(moved).as_array());
                    for n in 0..6 {
                        ensure!((h0[n] - h1[n]).abs() <= 1e-11 * big * big * (1.0 + mass), "a body's momentum depends on the frame | {h0:?} {h1:?} {pose:?}");
                    }
                    ensure!((e0 - 0.5 * t6.dot_wrench(body.momentum(t6))).abs() <= 1e-12 * (1.0 + e0), "a body's energy is not half its momentum's power | {e0}");
                    let home = pose.inverse_act_inertia(there);
                    ensure!((home.center_of_mass() - body.center_of_mass()).norm() <= 1e-13 * big && m2(&home.rotational_inertia()).sub(&m2(&body.rotational_inertia())).max_abs() <= 1e-12 * mass, "a body carried there and back is another | {pose:?}");
                    // The cross products are the slopes of carrying.
                    let other = Twist::from_array(f);
                    let c = t6.cross(other).as_array();
                    let want = ad3(&x).mul(&Mat::col(&f));
                    let cw = t6.cross_wrench(w6).as_array();
                    let want_c = ad3(&x).t().scale(-1.0).mul(&Mat::col(&f));
                    for n in 0..6 {
                        ensure!((c[n] - want.at(n, 0)).abs() <= 1e-13, "the cross of two motions is wrong | {x:?} {f:?} {c:?}");
                        ensure!((cw[n] - want_c.at(n, 0)).abs() <= 1e-13, "the cross of a motion with a push is wrong | {x:?} {f:?} {cw:?}");
                    }
                    cx.reach("carried");
                }
                "euler" => {
                    let (ro, pi, ya) = (e.n(0), e.n(1), e.n(2));
                    let q = Quaternion::from_euler_zyx(ro, pi, ya);
                    let want = turned([0.0, 0.0, ya]).mul(&turned([0.0, pi, 0.0])).mul(&turned([ro, 0.0, 0.0]));
                    let r = rot(SO3::from_quaternion(q));
                    ensure!(r.sub(&want).max_abs() <= 1e-14, "three turns in order are another turn | {ro} {pi} {ya}");
                    ensure!((q.norm() - 1.0).abs() <= 1e-15, "three turns in order are not of unit length | {q:?}");
                    for q in [q, -q] {
                        let (a, b, c) = q.to_euler_zyx();
                        let again = turned([0.0, 0.0, c]).mul(&turned([0.0, b, 0.0])).mul(&turned([a, 0.0, 0.0]));
                        let pole = 0.5 * PI - pi.abs();
                        let tol = 1e-14 + if pole < 1e-6 { 4e-7 } else { 1e-15 / pole };
                        ensure!(b.abs() <= 0.5 * PI, "a pitch past the pole | {b}");
                        ensure!(again.sub(&want).max_abs() <= tol * 10.0, "the three turns told are another turn | told {a} {b} {c} of {ro} {pi} {ya} off {:e}", again.sub(&want).max_abs());
                        if pole > 1e-3 && pi.abs() < 0.5 * PI {
                            ensure!(wrap_pi(a - ro).abs() <= 1e-12 / pole && (b - pi).abs() <= 1e-12 / pole && wrap_pi(c - ya).abs() <= 1e-12 / pole, "the three turns told are others | told {a} {b} {c} of {ro} {pi} {ya}");
                        }
                    }
                }
                "pointed" => {
                    let (Some(a), b) = (unit([e.n(0), e.n(1), e.n(2)]), unit([e.n(3), e.n(4), e.n(5)])) else { continue };
                    let Some(b) = b else { continue };
                    let side = unit(cross(a, if a[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] })).unwrap_or(a);
                    let b = match e.u(6) {
                        0 => scale(a, -1.0),
                        1 => a,
                        2 => unit(add(scale(a, -1.0), scale(side, e.n(9)))).unwrap_or(b),
                        3 => unit(add(a, scale(side, e.n(9)))).unwrap_or(b),
                        _ => b,
                    };
                    let (fa, fb) = (scale(a, e.n(7)), scale(b, e.n(8)));
                    if unit(a).is_none() || !fa.iter().chain(&fb).all(|v| v.is_finite()) || fa == [0.0; 3] || fb == [0.0; 3] {
                        continue;
                    }
                    let q = Quaternion::from_two_vectors(v3(fa), v3(fb));
                    ensure!((q.norm() - 1.0).abs() <= 1e-14, "the turn between two directions is not of unit length | {fa:?} {fb:?} {q:?}");
                    let r = rot(SO3::from_quaternion(q));
                    let got = apply(&r, a);
                    ensure!(norm(sub(got, b)) <= 1e-14, "the turn between two directions misses | {fa:?} {fb:?} {got:?}");
                    // And it is the shortest there is.
                    let angle = norm(cross(a, b)).atan2(dot(a, b));
                    let turn = norm(turn_of(&r));
                    ensure!((turn - angle).abs() <= 1e-7, "the turn between two directions is not the shortest | {turn} want {angle}");
                    ensure!(Quaternion::from_two_vectors(v3([0.0; 3]), v3(fb)) == Quaternion::identity(), "a direction that is none turns something");
                    cx.reach("pointed");
                }
                "sighted" => {
                    let truth = turned([e.n(0), e.n(1), e.n(2)]);
                    let (a, b) = ([e.n(3), e.n(4), e.n(5)], [e.n(6), e.n(7), e.n(8)]);
                    let apart = norm(cross(a, b));
                    if apart < 1e-2 || norm(a) < 1e-2 || norm(b) < 1e-2 {
                        continue;
                    }
                    cx.fault("the second sight off");
                    // The body sees both turned back; the second sight is off, within the plane or out.
                    let (ba, bb) = (apply(&truth.t(), a), apply(&truth.t(), b));
                    let bb = add(bb, scale(ba, e.n(11) / norm(ba)));
                    let got = SO3::from_two_direction_pairs(v3(scale(ba, e.n(9))), v3(scale(bb, e.n(10))), v3(scale(a, e.n(10))), v3(scale(b, e.n(9))));
                    let Some(got) = got else {
                        return Err(format!("two sights that settle it are refused | {a:?} {b:?}"));
                    };
                    ensure!(rot(got).sub(&truth).max_abs() <= 1e-12 / apart, "two sights settle on another facing | {got:?} want {truth:?}");
                    let bad = SO3::from_two_direction_pairs(v3(ba), v3(scale(ba, 2.0)), v3(a), v3(b));
                    if let Some(bad) = bad {
                        // Rounding may leave a sliver of direction; what is given still carries the first.
                        ensure!(norm(sub(apply(&rot(bad), ba), a)) <= 1e-12, "sights that settle nothing turn the first one");
                        cx.reach("a sliver taken for a direction");
                    }
                    for n in 0..4 {
                        for bad in [[0.0; 3], [f64::NAN, 0.5, 0.0], [0.3, f64::INFINITY, 0.0]] {
                            let mut four = [ba, bb, a, b];
                            four[n] = bad;
                            ensure!(SO3::from_two_direction_pairs(v3(four[0]), v3(four[1]), v3(four[2]), v3(four[3])).is_none(), "a sight that is none is taken | {n} {bad:?}");
                        }
                    }
                    cx.reach("sighted");
                }
                "refuse" => {
                    cx.fault("something that is no motion");
                    let clean = SE3::from_parts(s[i].rotation().normalized(), s[i].translation());
                    let mut a = clean.to_matrix();
                    let (row, col) = (e.u(2) / 3 % 3, e.u(2) % 3);
                    let off = e.n(4).abs();
                    let refused = match e.u(1) {
                        0 => {
                            a[(row, col)] = e.n(3);
                            a[(row, col)].is_finite() || SE3::try_from_matrix(a).is_none()
                        }
                        1 => {
                            a[(row, 3)] = e.n(3);
                            a[(row, 3)].is_finite() || SE3::try_from_matrix(a).is_none()
                        }
                        2 if e.u(2) == 8 => {
                            a[(3, 3)] += off * if e.n(3) > 0.0 { -1.0 } else { 1.0 };
                            off < 1e-9 || SE3::try_from_matrix(a).is_none()
                        }
                        2 => {
                            a[(3, row)] = e.n(4) * if col == 1 { -1.0 } else { 1.0 };
                            off < 1e-9 || SE3::try_from_matrix(a).is_none()
                        }
                        3 => {
                            // Mirrored.
                            for n in 0..3 {
                                a[(row, n)] = -a[(row, n)];
                            }
                            SE3::try_from_matrix(a).is_none()
                        }
                        4 => {
                            // Stretched.
                            for n in 0..3 {
                                a[(n, col)] *= 1.0 + off;
                            }
                            off < 1e-9 || SE3::try_from_matrix(a).is_none()
                        }
                        5 => {
                            // Skewed.
                            for n in 0..3 {
                                a[(n, col)] += off * a[(n, (col + 1) % 3)];
                            }
                            off < 1e-9 || SE3::try_from_matrix(a).is_none()
                        }
                        6 => {
                            let mut q = clean.rotation().quaternion().as_array();
                            q[e.u(2) % 4] = e.n(3);
                            e.n(3).is_finite() || SO3::try_from_quaternion(Quaternion::from_array(q)).is_none()
                        }
                        7 => SO3::try_from_quaternion(Quaternion::<f64>::from_array([0.0; 4])).is_none() && Quaternion::<f64>::from_array([0.0; 4]).try_normalized().is_none(),
                        8 => {
                            let mut p = FreeJointState::new(clean, Twist::zeros()).generalized_position();
                            for n in &mut p[3..] {
                                *n = 0.0;
                            }
                            FreeJointState::from_generalized_vectors(p, [0.0; 6]).is_none()
                        }
                        9 => {
                            let c = s2[i].rotation().normalized();
                            let mut f = SE2::from_parts(c, s2[i].translation()).to_matrix();
                            for n in 0..2 {
                                f[(n, col % 2)] = -f[(n, col % 2)];
                            }
                            SE2::try_from_matrix(f).is_none()
                        }
                        10 => {
                            let c = s2[i].rotation().normalized();
                            let mut f = SE2::from_parts(c, s2[i].translation()).to_matrix();
                            f[(row, col)] = e.n(3);
                            e.n(3).is_finite() || SE2::try_from_matrix(f).is_none()
                        }
                        _ => {
                            let c = s2[i].rotation().normalized();
                            let mut f = SE2::from_parts(c, s2[i].translation()).to_matrix();
                            for n in 0..2 {
                                f[(n, col % 2)] *= 1.0 + off;
                            }
                            off < 1e-9 || SE2::try_from_matrix(f).is_none()
                        }
                    };
                    ensure!(refused, "what is no motion is taken for one | case {} at {row},{col} off {off:e}", e.u(1));
                    cx.reach("refused");
                }
                "algebra" => {
                    let (p, q) = ([e.n(0), e.n(1), e.n(2), e.n(3)], [e.n(4), e.n(5), e.n(6), e.n(7)]);
                    let (lp, lq) = (Quaternion::from_array(p), Quaternion::from_array(q));
                    let k = e.n(8);
                    let (sum, less, by) = ((lp + lq).as_array(), (lp - lq).as_array(), (lp * k).as_array());
                    for n in 0..4 {
                        ensure!(sum[n] == p[n] + q[n] && less[n] == p[n] - q[n] && by[n] == p[n] * k && (-lp).as_array()[n] == -p[n], "a quaternion's sum is not its parts' | {p:?} {q:?} {sum:?} {less:?} {by:?}");
                    }
                    let (pv, qv) = ([p[1], p[2], p[3]], [q[1], q[2], q[3]]);
                    let want_v = add(add(scale(qv, p[0]), scale(pv, q[0])), cross(pv, qv));
                    let got = lp * lq;
                    let size = lp.norm() * lq.norm();
                    ensure!((got.w() - (p[0] * q[0] - dot(pv, qv))).abs() <= 4e-15 * size && norm(sub(a3(got.vec()), want_v)) <= 4e-15 * size, "a quaternion's product is not Hamilton's | {p:?} {q:?} {got:?}");
                    ensure!((lp.dot(lq) - p[0] * q[0] - dot(pv, qv)).abs() <= 4e-15 * size && (lp.norm_squared() - p[0] * p[0] - dot(pv, pv)).abs() <= 4e-15 * lp.norm_squared(), "a quaternion's length is not its parts' | {p:?} {q:?}");
                    // Its own exponential: a stretch beside a turn twice as large.
                    let ex = lp.exp();
                    let th = norm(pv);
                    let (sn, cs) = th.sin_cos();
                    let grown = p[0].exp();
                    let sinc = if th < 1e-6 { 1.0 - th * th / 6.0 } else { sn / th };
                    ensure!((ex.w() - grown * cs).abs() <= 4e-15 * grown && norm(sub(a3(ex.vec()), scale(pv, grown * sinc))) <= 4e-15 * grown * (1.0 + th), "a quaternion's exponential is wrong | {p:?} {ex:?}");
                    if th < PI - 1e-3 {
                        let back = ex.log();
                        ensure!((back.w() - p[0]).abs() <= 1e-14 * (1.0 + p[0].abs()) && norm(sub(a3(back.vec()), pv)) <= 1e-14 / (PI - th), "a quaternion's logarithm does not undo its exponential | {p:?} {back:?}");
                        cx.reach("told and made again");
                    }
                }
                "state" => {
                    let f = e.n(1);
                    let clean = SE3::from_parts(s[i].rotation().normalized(), s[i].translation());
                    let vel: [f64; 6] = std::array::from_fn(|n| e.n(2 + n));
                    let st = FreeJointState::new(clean, Twist::from_array(vel));
                    let mut p = st.generalized_position();
                    let tt = a3(clean.translation());
                    let q = quat(clean.rotation());
                    ensure!(p == [tt[0], tt[1], tt[2], q[0], q[1], q[2], q[3]] && st.generalized_velocity() == vel, "a free body's numbers are not its own | {p:?}");
                    if !(f > 0.1) {
                        continue;
                    }
                    for n in &mut p[3..] {
                        *n *= f;
                    }
                    let Some(back) = FreeJointState::from_generalized_vectors(p, vel) else {
                        return Err(format!("a free body's own numbers are refused | {p:?}"));
                    };
                    ensure!(back.generalized_velocity() == vel && a3(back.pose().translation()) == tt, "a free body read back is another | {p:?}");
                    ensure!(rot(back.pose().rotation()).sub(&rot(clean.rotation())).max_abs() <= 4.0 * ROUND, "a free body read back faces elsewhere | {p:?}");
                }
                "act" => {
                    let p = [e.n(1), e.n(2), e.n(3)];
                    let big = norm(p) + norm(m[i].t);
                    let got = a3(s[i].act(v3(p)));
                    let tol = m[i].et + (4.0 * m[i].er + 4.0 * ROUND) * big;
                    ensure!(norm(sub(got, m[i].point(p))) <= tol, "a point is moved elsewhere | {p:?} {got:?} by {:?}", s[i]);
                    let q = s[i].rotation().quaternion();
                    let only = a3(q.transform_point(v3(p)));
                    ensure!(norm(sub(only, apply(&m[i].r, p))) <= tol && norm(sub(a3(s[i].rotation().act(v3(p))), only)) <= tol, "a point is turned elsewhere | {p:?}");
                    ensure!(norm(sub(a3(q.inverse_transform_point(v3(only))), p)) <= 3.0 * tol, "a point turned there and back is another | {p:?}");
                    let home = a3(s[i].inverse().act(v3(got)));
                    ensure!(norm(sub(home, p)) <= 3.0 * tol, "a point moved there and back is another | {p:?} {home:?}");
                    let f = s2[i].act(Vector::new([p[0], p[1]]));
                    let (sn, c) = m2d[i].a.sin_cos();
                    let want = [c * p[0] - sn * p[1] + m2d[i].x, sn * p[0] + c * p[1] + m2d[i].y];
                    ensure!((f[0] - want[0]).hypot(f[1] - want[1]) <= m2d[i].et + (4.0 * m2d[i].ea + 4.0 * ROUND) * (norm(p) + m2d[i].x.hypot(m2d[i].y)), "a plane point is moved elsewhere | {p:?} {f:?} want {want:?}");
                }
                "compose2" => match e.u(3) {
                    0 | 1 => {
                        (s2[k], m2d[k]) = (s2[i] * s2[j], m2d[i].after(&m2d[j]));
                        same2("composing in the plane is not one motion after the other", s2[k], &m2d[k])?;
                    }
                    2 => {
                        (s2[k], m2d[k]) = (s2[i].inverse(), m2d[i].back());
                        same2("a plane inverse does not undo", s2[k], &m2d[k])?;
                    }
                    3 => {
                        // The plane's frame carries a twist as its matrix says.
                        let a = m2(&SE2::from_parts(s2[i].rotation().normalized(), s2[i].translation()).adjoint());
                        let (sn, c) = m2d[i].a.sin_cos();
                        let want = Mat { r: 3, c: 3, d: vec![c, -sn, m2d[i].y, sn, c, -m2d[i].x, 0.0, 0.0, 1.0] };
                        ensure!(a.sub(&want).max_abs() <= 4.0 * (m2d[i].ea + m2d[i].et) + ROUND * (1.0 + m2d[i].x.hypot(m2d[i].y)), "a plane frame carries a twist elsewhere | {a:?} want {want:?}");
                    }
                    _ => {
                        let x = e.n(4);
                        let rel = m2d[i].back().after(&m2d[j]);
                        let sure = rel.ea + 1e-14;
                        let got = s2[i].interpolate(s2[j], x);
                        let alone = s2[i].rotation().interpolate(s2[j].rotation(), x);
                        let ends = PI - rel.a.abs();
                        if ends > 10.0 * sure {
                            let Some(v) = rel.slide() else { continue };
                            let part = Flat::exp(&[x * v[0], x * v[1], x * rel.a]);
                            let mut want = m2d[i].after(&part);
                            want.ea += 4.0 * sure;
                            want.et += (10.0 * sure + 1e-13) * (rel.x.hypot(rel.y) + m2d[i].x.hypot(m2d[i].y)) + rel.et * 4.0;
                            same2("a plane blend is not that part of the way", got, &want)?;
                            let (c, sn) = alone.cos_sin();
                            ensure!((c - want.a.cos()).abs().max((sn - want.a.sin()).abs()) <= want.ea + ROUND, "a plane turn's blend is not that part of the way | {alone:?} want {want:?}");
                            cx.reach("blended in the plane");
                        }
                        s2[k] = SE2::from_parts(got.rotation().normalized(), got.translation());
                        let (c, sn) = s2[k].rotation().cos_sin();
                        let tt = s2[k].translation();
                        m2d[k] = Flat { a: sn.atan2(c), x: tt[0], y: tt[1], ea: ROUND, et: 0.0 };
                    }
                },
                _ => {}
            }
            for n in 0..SLOTS {
                // Kept within reason, so that what is judged is the motion and not the size of a number.
                if !(norm(m[n].t) < 1e6) || m[n].er > 1e-9 {
                    s[n] = SE3::identity();
                    m[n] = Put::still();
                    cx.reach("put back");
                }
                if !(m2d[n].x.hypot(m2d[n].y) < 1e6) || m2d[n].ea > 1e-9 {
                    s2[n] = SE2::identity();
                    m2d[n] = Flat { a: 0.0, x: 0.0, y: 0.0, ea: 0.0, et: 0.0 };
                }
            }
            cx.log(s[i].translation()[0]);
            cx.log(s[i].rotation().quaternion().w());
            cx.log(s2[i].rotation().cos_sin().0);
            cx.state(&[hash_str(e.k) as i64 & 0xff, (norm(turn_of(&m[i].r)) * 4.0) as i64, (norm(m[i].t) + 1e-9).log2() as i64 / 4]);
        }
        Ok(())
    }
}
