//! The error-state filter and the two attitude filters, driven by a simulated IMU and a faulty link.

use crate::conv::*;
use crate::core::*;
use crate::ensure;
use crate::refs::*;
use crate::worlds::kalman::Oracle;
use multicalc::error::EstimationError;
use multicalc::estimation::{
    CovarianceUpdate, ErrorStateKalmanFilter, ImuNoise, MadgwickFilter, MahonyFilter, NominalState,
    NominalStateFn,
};
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::scalar::Numeric;
use multicalc::spatial::SO3;
use std::cell::Cell;

/// A sensor whose k-th evaluation can be made to return something broken.
struct Sensor {
    kind: usize,
    at: V3,
    calls: Cell<usize>,
    bad_at: usize,
    bad: f64,
    fired: Cell<bool>,
}

impl Sensor {
    fn new(kind: usize, at: V3) -> Self {
        Sensor { kind, at, calls: Cell::new(0), bad_at: 0, bad: 0.0, fired: Cell::new(false) }
    }
    fn three<S: Numeric>(&self, s: &NominalState<S>) -> [S; 3] {
        let at = Vector::new([S::from_f64(self.at[0]), S::from_f64(self.at[1]), S::from_f64(self.at[2])]);
        let into = s.orientation().inverse();
        let out = match self.kind % 5 {
            0 => s.position(),
            1 => into.act(s.velocity()) + s.accelerometer_bias(),
            2 => into.act(at),
            3 => into.act(at - s.position()),
            _ => s.gyroscope_bias() + s.velocity() * S::from_f64(0.1),
        };
        [out[0], out[1], out[2]]
    }
    fn poison<S: Numeric>(&self, v: S) -> S {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() == self.bad_at {
            self.fired.set(true);
            return v * S::from_f64(self.bad);
        }
        v
    }
}

impl NominalStateFn<3> for Sensor {
    fn eval<S: Numeric>(&self, state: &NominalState<S>) -> [S; 3] {
        let mut y = self.three(state);
        let slot = self.bad_at % 3;
        y[slot] = self.poison(y[slot]);
        y
    }
}
impl NominalStateFn<2> for Sensor {
    fn eval<S: Numeric>(&self, state: &NominalState<S>) -> [S; 2] {
        let y = self.three(state);
        [self.poison(y[0]), y[1]]
    }
}
impl NominalStateFn<1> for Sensor {
    fn eval<S: Numeric>(&self, state: &NominalState<S>) -> [S; 1] {
        let y = match self.kind % 3 {
            0 => {
                let f = state.orientation().act(Vector::new([S::ONE, S::ZERO, S::ZERO]));
                f[1].atan2(f[0])
            }
            1 => state.position()[2],
            _ => {
                let mut sum = S::ZERO;
                for i in 0..3 {
                    let d = state.position()[i] - S::from_f64(self.at[i]);
                    sum += d * d;
                }
                sum.sqrt()
            }
        };
        [self.poison(y)]
    }
}

/// The reference copy of the nominal state.
#[derive(Clone)]
struct Nom {
    p: V3,
    v: V3,
    r: Mat,
    bg: V3,
    ba: V3,
}

impl Nom {
    fn of(s: NominalState) -> Nom {
        Nom {
            p: a3(s.position()),
            v: a3(s.velocity()),
            r: rot(s.orientation()),
            bg: a3(s.gyroscope_bias()),
            ba: a3(s.accelerometer_bias()),
        }
    }
    fn plus(&self, e: &[f64]) -> Nom {
        let g = |i: usize| [e[i], e[i + 1], e[i + 2]];
        Nom {
            p: add(self.p, g(0)),
            v: add(self.v, g(3)),
            r: self.r.mul(&exp_so3(g(6))),
            bg: add(self.bg, g(9)),
            ba: add(self.ba, g(12)),
        }
    }
    fn minus(&self, o: &Nom) -> Vec<f64> {
        let mut e = Vec::new();
        e.extend(sub(self.p, o.p));
        e.extend(sub(self.v, o.v));
        e.extend(log_so3(&o.r.t().mul(&self.r)));
        e.extend(sub(self.bg, o.bg));
        e.extend(sub(self.ba, o.ba));
        e
    }
    fn flat(&self) -> Vec<f64> {
        let mut o = Vec::new();
        o.extend(self.p);
        o.extend(self.v);
        o.extend(&self.r.d);
        o.extend(self.bg);
        o.extend(self.ba);
        o
    }
    /// Each group compared on its own scale.
    fn near(&self, o: &Nom, tol: f64) -> bool {
        all_close(&self.p, &o.p, tol, tol)
            && all_close(&self.v, &o.v, tol, tol)
            && all_close(&self.r.d, &o.r.d, tol, tol)
            && all_close(&self.bg, &o.bg, tol, tol)
            && all_close(&self.ba, &o.ba, tol, tol)
    }
    fn read(&self, kind: usize, at: V3, width: usize) -> Vec<f64> {
        if width == 1 {
            return vec![match kind % 3 {
                0 => {
                    let f = apply(&self.r, [1.0, 0.0, 0.0]);
                    f[1].atan2(f[0])
                }
                1 => self.p[2],
                _ => norm(sub(self.p, at)),
            }];
        }
        let into = self.r.t();
        let y = match kind % 5 {
            0 => self.p,
            1 => add(apply(&into, self.v), self.ba),
            2 => apply(&into, at),
            3 => apply(&into, sub(at, self.p)),
            _ => add(self.bg, scale(self.v, 0.1)),
        };
        y[..width].to_vec()
    }
    /// Sensitivities by a fourth-order central difference.
    fn jac(&self, kind: usize, at: V3, width: usize) -> Mat {
        let mut m = Mat::zeros(width, 15);
        let h = 1e-3;
        for c in 0..15 {
            let go = |k: f64| {
                let mut e = [0.0; 15];
                e[c] = k * h;
                self.plus(&e).read(kind, at, width)
            };
            let (a, b, x, y) = (go(1.0), go(-1.0), go(2.0), go(-2.0));
            for i in 0..width {
                let d = |u: f64, w: f64| if width == 1 && kind % 3 == 0 { wrap_pi(u - w) } else { u - w };
                m.set(i, c, (8.0 * d(a[i], b[i]) - d(x[i], y[i])) / (12.0 * h));
            }
        }
        m
    }
}

type Eskf = ErrorStateKalmanFilter<3>;

fn snapshot(f: &Eskf) -> Vec<f64> {
    let s = f.nominal_state();
    let mut o = Vec::new();
    o.extend(a3(s.position()));
    o.extend(a3(s.velocity()));
    o.extend(quat(s.orientation()));
    o.extend(a3(s.gyroscope_bias()));
    o.extend(a3(s.accelerometer_bias()));
    o.extend(m2(&f.covariance()).d);
    o.extend(a3(f.innovation()));
    o.extend(m2(&f.innovation_covariance()).d);
    o
}

fn noise_of(r: &mut Rng) -> ImuNoise {
    ImuNoise {
        gyroscope_noise_density: r.log_range(1e-3, 0.1),
        accelerometer_noise_density: r.log_range(1e-3, 0.3),
        gyroscope_bias_random_walk: r.log_range(1e-4, 0.05),
        accelerometer_bias_random_walk: r.log_range(1e-4, 0.05),
    }
}

fn state_of(r: &mut Rng) -> NominalState {
    let mut g = |k: f64| v3([r.range(-k, k), r.range(-k, k), r.range(-k, k)]);
    NominalState::new(g(3.0), g(2.0), SO3::exp(g(1.6)), g(0.1), g(0.2))
}

fn cov_of(r: &mut Rng) -> Matrix<15, 15> {
    let d: Vec<f64> = (0..15).map(|_| r.log_range(1e-3, 0.5)).collect();
    let mut g = Mat::zeros(15, 15);
    for v in g.d.iter_mut() {
        *v = r.range(-0.3, 0.3);
    }
    let base = g.mul(&g.t()).scale(0.3).add(&Mat::eye(15));
    Matrix::from_fn(|i, j| (d[i] * d[j]).sqrt() * base.sym().at(i, j))
}

fn finite(a: &[f64]) -> bool {
    a.iter().all(|v| v.is_finite())
}

fn eskf_run(t: &Trace, cx: &mut Cx, oracle: Oracle) -> R {
    let mut r = Rng::new(t.c(0) as u64);
    let state = state_of(&mut r);
    let cov = cov_of(&mut r);
    let mut noise = noise_of(&mut r);
    let mut rr = {
        let mut g = Mat::zeros(3, 3);
        for v in g.d.iter_mut() {
            *v = r.range(-0.5, 0.5);
        }
        let s = r.log_range(1e-3, 0.3);
        let b = g.mul(&g.t()).add(&Mat::eye(3)).scale(s);
        Matrix::<3, 3>::from_fn(|i, j| b.at(i, j))
    };
    let gravity = if t.cu(2) == 1 { [0.3, -0.2, -9.6] } else { [0.0, 0.0, -9.81] };
    let mut a = Eskf::new(state, cov, noise, rr);
    if t.cu(2) == 1 {
        a = a.with_gravity(v3(gravity));
    }
    let naive = t.cu(1) == 1;
    if naive {
        a = a.with_covariance_update(CovarianceUpdate::Naive);
    }
    let mut b = a;
    for e in &t.evs {
        cx.step(e.k);
        let before = snapshot(&a);
        let nom = Nom::of(a.nominal_state());
        let cov = m2(&a.covariance());
        let mut restore = None;
        let mut must_reject = false;
        let mut huge = false;
        enum Did {
            Predict(V3, V3, f64),
            Correct { width: usize, kind: usize, at: V3, y: Vec<f64>, noise: Mat },
            Other,
        }
        let mut did = Did::Other;
        let at = [1.5, -0.7, 2.5];
        let bad_tail = |s: &mut Sensor, from: usize| {
            if e.n(from) > 0.0 {
                s.bad_at = e.u(from);
                s.bad = e.n(from + 1);
            }
        };
        let got: Option<Result<(), EstimationError>> = match e.k {
            "imu" | "imubad" | "imuhuge" => {
                let g = [e.n(0), e.n(1), e.n(2)];
                let acc = [e.n(3), e.n(4), e.n(5)];
                let dt = e.n(6);
                must_reject = !finite(&e.a);
                if e.k == "imubad" && must_reject {
                    cx.fault("imu-not-finite");
                }
                if e.k == "imuhuge" {
                    huge = true;
                    cx.fault("imu-overflows");
                } else if dt > 0.05 {
                    cx.fault("tick-stalled");
                } else if dt == 0.0 {
                    cx.fault("tick-zero-length");
                }
                if dt.is_finite() && dt < 10.0 {
                    cx.sim_time += dt;
                }
                did = Did::Predict(g, acc, dt);
                Some(a.predict(v3(g), v3(acc), dt))
            }
            "fix" | "res" | "late" | "dup" | "zbad" | "hbad" | "rneg" => {
                let kind = e.u(0);
                let z = [e.n(1), e.n(2), e.n(3)];
                let mut s = Sensor::new(kind, at);
                if e.k == "hbad" {
                    bad_tail(&mut s, 4);
                }
                if e.k == "rneg" {
                    restore = Some(rr);
                    let w = Matrix::<3, 3>::from_fn(|i, j| if i == j { -e.n(4) } else { 0.0 });
                    a.set_measurement_noise(w);
                    b.set_measurement_noise(w);
                    cx.fault("noise-indefinite");
                }
                match e.k {
                    "late" => cx.fault("reading-delayed"),
                    "dup" => cx.fault("reading-duplicated"),
                    _ => {}
                }
                must_reject = !finite(&z);
                if must_reject {
                    cx.fault("reading-not-finite");
                }
                let direct = e.k == "res" || (e.k == "zbad" && kind % 2 == 1);
                let got = if direct {
                    a.update_with_residual(&s, v3(z))
                } else {
                    a.update(&s, v3(z))
                };
                if s.fired.get() {
                    cx.fault("model-broke");
                    must_reject = true;
                }
                let y = if direct {
                    z.to_vec()
                } else {
                    nom.read(kind, at, 3).iter().zip(z).map(|(h, z)| z - h).collect()
                };
                let noise = if restore.is_some() { Mat::eye(3).scale(-e.n(4)) } else { m2(&rr) };
                did = Did::Correct { width: 3, kind, at, y, noise };
                Some(got)
            }
            "one" | "onebad" => {
                let kind = e.u(0);
                let y = e.n(1);
                let v = e.n(2);
                let mut s = Sensor::new(kind, at);
                bad_tail(&mut s, 3);
                must_reject = !y.is_finite();
                if must_reject {
                    cx.fault("reading-not-finite");
                }
                let f = apply(&nom.r, [1.0, 0.0, 0.0]);
                if (kind.is_multiple_of(3) && f[0].hypot(f[1]) < 0.3) || (kind % 3 == 2 && norm(sub(nom.p, at)) < 0.3) {
                    continue;
                }
                let got = a.update_other::<1, _>(&s, Vector::new([y]), Matrix::new([[v]]));
                if s.fired.get() {
                    cx.fault("model-broke");
                    must_reject = true;
                }
                did = Did::Correct { width: 1, kind, at, y: vec![y], noise: Mat::diag(&[v]) };
                Some(got)
            }
            "two" => {
                let kind = e.u(0);
                let y = [e.n(1), e.n(2)];
                let v = [[e.n(3), 0.2 * e.n(3)], [0.2 * e.n(3), 2.0 * e.n(3)]];
                let s = Sensor::new(kind, at);
                let got = a.update_other::<2, _>(&s, Vector::new(y), Matrix::new(v));
                did = Did::Correct {
                    width: 2,
                    kind,
                    at,
                    y: y.to_vec(),
                    noise: Mat { r: 2, c: 2, d: v.concat() },
                };
                Some(got)
            }
            "lost" => {
                cx.fault("reading-lost");
                None
            }
            "noise" => {
                let mut r2 = Rng::new(e.n(0) as u64);
                noise = noise_of(&mut r2);
                a.set_imu_noise(noise);
                b.set_imu_noise(noise);
                None
            }
            "setr" => {
                rr = Matrix::from_fn(|i, j| rr[(i, j)] * e.n(0));
                a.set_measurement_noise(rr);
                b.set_measurement_noise(rr);
                None
            }
            "setx" => {
                let s = state_of(&mut Rng::new(e.n(0) as u64));
                a.set_nominal_state(s);
                b.set_nominal_state(s);
                ensure!(
                    Nom::of(a.nominal_state()).flat() == Nom::of(s).flat(),
                    "error-state: replacing the guess did not take | "
                );
                ensure!(m2(&a.covariance()).d == cov.d, "error-state: replacing the guess changed the spread | ");
                cx.reach("state-replaced");
                None
            }
            "inject" => {
                let err: [f64; 15] = std::array::from_fn(|i| e.n(i));
                a.inject_error_and_reset(Vector::new(err));
                b.inject_error_and_reset(Vector::new(err));
                cx.reach("error-injected");
                if oracle == Oracle::Textbook {
                    let want = nom.plus(&err);
                    let mut g = Mat::eye(15);
                    put3(&mut g, 6, 6, &Mat::eye(3).sub(&skew([err[6], err[7], err[8]]).scale(0.5)));
                    let p = g.mul(&cov).mul(&g.t());
                    ensure!(
                        Nom::of(a.nominal_state()).near(&want, 1e-9),
                        "error-state: an injected error moved the guess wrongly | {err:?}"
                    );
                    ensure!(
                        all_close(&m2(&a.covariance()).d, &p.d, 1e-9, 1e-14),
                        "error-state: the reset carried the spread wrongly | {err:?}"
                    );
                }
                None
            }
            "cond" => {
                let min = e.n(0);
                let got = a.condition_covariance(min);
                let other = b.condition_covariance(min);
                ensure!(got.is_ok() && other.is_ok(), "error-state: conditioning a finite spread failed | {got:?}");
                cx.reach("conditioned");
                if oracle == Oracle::Textbook {
                    let (l, v) = eigen(&cov);
                    let clamped: Vec<f64> = l.iter().map(|x| x.max(min)).collect();
                    let want = v.mul(&Mat::diag(&clamped)).mul(&v.t());
                    ensure!(
                        all_close(&m2(&a.covariance()).d, &want.d, 1e-8, 1e-14),
                        "error-state: conditioning did not lift the spread to the floor | floor {min} had {l:?}"
                    );
                }
                None
            }
            _ => None,
        };
        let after = snapshot(&a);
        cx.logs(&after);
        if let Some(got) = got {
            cx.logu(u64::from(got.is_ok()));
            if must_reject {
                ensure!(got.is_err(), "error-state: an input or model value that is not finite was accepted | at {}", e.k);
            }
            if got.is_err() {
                ensure!(
                    all_same(&before, &after),
                    "error-state: a rejected call changed the filter | at {} {got:?}",
                    e.k
                );
                cx.reach("call-rejected");
            }
        }
        match oracle {
            Oracle::Twin => {
                if let Some(Ok(())) = got {
                    let other = match &did {
                        Did::Predict(g, acc, dt) => b.predict(v3(*g), v3(*acc), *dt),
                        Did::Correct { width, kind, at, y, noise } => {
                            let s = Sensor::new(*kind, *at);
                            match (width, e.k) {
                                (1, _) => b.update_other::<1, _>(&s, Vector::new([y[0]]), Matrix::new([[noise.at(0, 0)]])),
                                (2, _) => b.update_other::<2, _>(
                                    &s,
                                    Vector::new([y[0], y[1]]),
                                    Matrix::from_fn(|i, j| noise.at(i, j)),
                                ),
                                (_, "res") => b.update_with_residual(&s, v3([y[0], y[1], y[2]])),
                                _ => b.update(&s, v3([e.n(1), e.n(2), e.n(3)])),
                            }
                        }
                        Did::Other => Ok(()),
                    };
                    ensure!(
                        other.is_ok(),
                        "error-state: a call succeeds only after earlier rejected calls | at {} {other:?}",
                        e.k
                    );
                }
                ensure!(
                    all_same(&after, &snapshot(&b)),
                    "error-state: a rejected call left a trace in a later estimate | at {}",
                    e.k
                );
            }
            Oracle::Textbook => match (&did, got) {
                (Did::Predict(g, acc, dt), Some(Ok(()))) if !huge => {
                    let push = sub(*acc, nom.ba);
                    let turn = sub(*g, nom.bg);
                    let world = add(apply(&nom.r, push), gravity);
                    let want = Nom {
                        p: add(add(nom.p, scale(nom.v, *dt)), scale(world, 0.5 * dt * dt)),
                        v: add(nom.v, scale(world, *dt)),
                        r: nom.r.mul(&exp_so3(scale(turn, *dt))),
                        bg: nom.bg,
                        ba: nom.ba,
                    };
                    ensure!(
                        Nom::of(a.nominal_state()).near(&want, 1e-9),
                        "error-state: predicted guess differs from the strapdown step | dt {dt} got {:?} want {:?}",
                        Nom::of(a.nominal_state()).flat(),
                        want.flat()
                    );
                    let mut f = Mat::eye(15);
                    put3(&mut f, 0, 3, &Mat::eye(3).scale(*dt));
                    put3(&mut f, 3, 6, &nom.r.mul(&skew(push)).scale(-*dt));
                    put3(&mut f, 3, 12, &nom.r.scale(-*dt));
                    put3(&mut f, 6, 6, &exp_so3(scale(turn, -*dt)));
                    put3(&mut f, 6, 9, &Mat::eye(3).scale(-*dt));
                    let mut p = f.mul(&cov).mul(&f.t());
                    for i in 0..3 {
                        let mut bump = |k: usize, v: f64| p.set(k, k, p.at(k, k) + v);
                        bump(3 + i, (noise.accelerometer_noise_density * dt).powi(2));
                        bump(6 + i, (noise.gyroscope_noise_density * dt).powi(2));
                        bump(9 + i, noise.gyroscope_bias_random_walk.powi(2) * dt);
                        bump(12 + i, noise.accelerometer_bias_random_walk.powi(2) * dt);
                    }
                    let have = m2(&a.covariance());
                    ensure!(
                        all_close(&have.d, &p.sym().d, 1e-9, 1e-15),
                        "error-state: predicted spread differs from the error-state step | dt {dt}"
                    );
                    // Small noise must not hide behind large entries: diagonal on its own scale.
                    for i in 0..15 {
                        ensure!(
                            close(have.at(i, i), p.at(i, i), 1e-7, 1e-15),
                            "error-state: predicted variance differs from the error-state step | axis {i} dt {dt} got {} want {}",
                            have.at(i, i),
                            p.at(i, i)
                        );
                    }
                }
                (Did::Predict(..), Some(Err(_))) => {
                    ensure!(must_reject || huge, "error-state: a sound predict was rejected | {:?}", e.a);
                }
                (Did::Correct { width, kind, at, y, noise }, Some(got)) => {
                    let h = nom.jac(*kind, *at, *width);
                    let s = h.mul(&cov).mul(&h.t()).add(noise);
                    let well = s.clearly_pd(1e-5);
                    if got.is_ok() {
                        ensure!(
                            s.is_covariance(1e-6),
                            "error-state: folded in a reading whose expected spread is not positive definite | {s:?}"
                        );
                        if !well {
                            return Ok(());
                        }
                        let Some((dx, p, s)) = kalman_update(&Mat::zeros(15, 1), &cov, &h, noise, &Mat::col(y)) else {
                            return Ok(());
                        };
                        if norm([dx.d[6], dx.d[7], dx.d[8]]) > 2.0 {
                            return Ok(());
                        }
                        let want = nom.plus(&dx.d);
                        ensure!(
                            Nom::of(a.nominal_state()).near(&want, 1e-6),
                            "error-state: corrected guess differs from the textbook step | width {width} sensor {kind} got {:?} want {:?}",
                            Nom::of(a.nominal_state()).flat(),
                            want.flat()
                        );
                        let mut g = Mat::eye(15);
                        put3(&mut g, 6, 6, &Mat::eye(3).sub(&skew([dx.d[6], dx.d[7], dx.d[8]]).scale(0.5)));
                        let p = g.mul(&p).mul(&g.t());
                        let have = m2(&a.covariance());
                        ensure!(
                            all_close(&have.d, &p.d, 1e-6, 1e-6 * cov.max_abs()),
                            "error-state: corrected spread differs from the textbook step | width {width} sensor {kind}"
                        );
                        if *width == 3 {
                            ensure!(
                                all_close(&a3(a.innovation()), y, 1e-9, 1e-9),
                                "error-state: reported innovation is wrong | got {:?} want {y:?}",
                                a.innovation()
                            );
                            ensure!(
                                all_close(&m2(&a.innovation_covariance()).d, &s.d, 1e-6, 1e-9),
                                "error-state: reported innovation covariance is wrong | sensor {kind}"
                            );
                            if let Some(inv) = s.inv() {
                                let yv = Mat::col(y);
                                let nis = yv.t().mul(&inv).mul(&yv).at(0, 0);
                                let have = a.normalized_innovation_squared();
                                ensure!(
                                    have.is_ok_and(|v| close(v, nis, 1e-4, 1e-9)),
                                    "error-state: normalized innovation is wrong | got {have:?} want {nis}"
                                );
                            }
                        } else {
                            ensure!(
                                all_same(&after[after.len() - 12..], &before[before.len() - 12..]),
                                "error-state: a reading of another width rewrote the reported innovation | "
                            );
                        }
                        if have.clearly_pd(1e-7) {
                            let truth = a.nominal_state().plus_error(Vector::from_fn(|i| 0.01 * (i as f64 - 6.0)));
                            let err = Nom::of(truth).minus(&Nom::of(a.nominal_state()));
                            if let Some(inv) = have.inv() {
                                let ev = Mat::col(&err);
                                let nees = ev.t().mul(&inv).mul(&ev).at(0, 0);
                                let got = a.normalized_estimation_error_squared(truth);
                                ensure!(
                                    got.is_ok_and(|v| close(v, nees, 1e-5, 1e-9)),
                                    "error-state: normalized estimation error is wrong | got {got:?} want {nees}"
                                );
                            }
                        }
                    } else if !must_reject {
                        ensure!(!well || restore.is_some(), "error-state: a sound reading was rejected | {got:?}");
                    }
                }
                _ => {}
            },
        }
        if let Some(old) = restore {
            a.set_measurement_noise(old);
            b.set_measurement_noise(old);
            if matches!(got, Some(Ok(()))) {
                return Ok(());
            }
        }
        if let Some(Ok(())) = got {
            if huge {
                return Ok(());
            }
            ensure!(finite(&after), "error-state: the estimate stopped being finite | after {}", e.k);
            let q = quat(a.nominal_state().orientation());
            let n: f64 = q.iter().map(|v| v * v).sum::<f64>().sqrt();
            ensure!((n - 1.0).abs() < 1e-9, "error-state: the facing is no longer a rotation | norm {n}");
            let c = m2(&a.covariance());
            // The naive form loses what rounding takes; the twin does not stop at ill-conditioned gains.
            let tol = if naive { 1e-7 } else { 1e-9 };
            ensure!(oracle == Oracle::Twin || c.is_covariance(tol), "error-state: the spread is no longer symmetric positive semidefinite | after {}", e.k);
        }
        cx.state(&[
            i64::from(naive),
            (m2(&a.covariance()).trace().ln() * 2.0) as i64,
            (norm(a3(a.nominal_state().position())) * 0.3) as i64,
            (norm(a3(a.nominal_state().orientation().log())) * 4.0) as i64,
        ]);
    }
    Ok(())
}

fn put3(m: &mut Mat, r: usize, c: usize, b: &Mat) {
    for i in 0..3 {
        for j in 0..3 {
            m.set(r + i, c + j, b.at(i, j));
        }
    }
}

fn eskf_schedule(r: &mut Rng) -> Trace {
    let mut t = Trace {
        cfg: vec![(r.u64() >> 12) as f64, r.below(2) as f64, r.below(2) as f64],
        evs: Vec::new(),
    };
    let calm = r.chance(0.1);
    let p: Vec<f64> = (0..10)
        .map(|_| if calm || r.chance(0.4) { 0.0 } else { r.range(0.02, 0.3) })
        .collect();
    let dt0 = *r.pick(&[0.001, 0.01, 0.02]);
    let turn = *r.pick(&[0.1, 1.0, 6.0]);
    let mut held: Vec<(usize, Vec<f64>)> = Vec::new();
    for tick in 0..r.int(3, 25) {
        let imu = |r: &mut Rng, dt: f64| {
            vec![
                r.range(-turn, turn),
                r.range(-turn, turn),
                r.range(-turn, turn),
                r.range(-4.0, 4.0),
                r.range(-4.0, 4.0),
                9.81 + r.range(-4.0, 4.0),
                dt,
            ]
        };
        let dt = if r.chance(p[0]) { *r.pick(&[0.0, 0.1, 0.2]) } else { dt0 };
        if r.chance(p[1]) {
            let mut a = imu(r, dt);
            let k = r.below(7);
            a[k] = r.broken();
            t.evs.push(ev("imubad", &a));
        }
        if r.chance(p[2]) {
            let mut a = imu(r, dt);
            let k = r.below(7);
            a[k] = *r.pick(&[1e160, 1e200, 1e305, 1.7e308]);
            if r.chance(0.5) {
                let k = r.below(7);
                a[k] = *r.pick(&[1e160, 1e200, 1e305, 1.7e308]);
            }
            t.evs.push(ev("imuhuge", &a));
        }
        let a = imu(r, dt);
        t.evs.push(ev("imu", &a));
        if r.chance(0.03) {
            t.evs.push(ev("noise", &[(r.u64() >> 12) as f64]));
        }
        if r.chance(0.03) {
            t.evs.push(ev("setr", &[r.range(0.5, 2.0)]));
        }
        if r.chance(0.03) {
            t.evs.push(ev("setx", &[(r.u64() >> 12) as f64]));
        }
        if r.chance(0.04) {
            let e: Vec<f64> = (0..15).map(|_| r.range(-0.3, 0.3)).collect();
            t.evs.push(ev("inject", &e));
        }
        if r.chance(0.04) {
            t.evs.push(ev("cond", &[r.log_range(1e-6, 1e-2)]));
        }
        for due in std::mem::take(&mut held) {
            if due.0 <= tick {
                t.evs.push(ev("late", &due.1));
            } else {
                held.push(due);
            }
        }
        if r.chance(0.5) {
            let z = vec![r.below(5) as f64, r.range(-2.0, 2.0), r.range(-2.0, 2.0), r.range(-2.0, 2.0)];
            if r.chance(p[3]) {
                t.evs.push(ev("lost", &[]));
            } else if r.chance(p[4]) {
                held.push((tick + r.int(1, 4), z));
            } else {
                if r.chance(p[5]) {
                    let mut b = z.clone();
                    let k = r.int(1, 3);
                    b[k] = r.broken();
                    t.evs.push(ev("zbad", &b));
                }
                if r.chance(p[6]) {
                    let mut b = z.clone();
                    b.push(r.int(1, 16) as f64);
                    b.push(r.broken());
                    t.evs.push(ev("hbad", &b));
                }
                if r.chance(p[7]) {
                    let mut b = z.clone();
                    b.push(r.log_range(1.0, 1e4));
                    t.evs.push(ev("rneg", &b));
                }
                t.evs.push(ev(if r.chance(0.3) { "res" } else { "fix" }, &z));
                if r.chance(p[8]) {
                    t.evs.push(ev("dup", &z));
                }
            }
        }
        if r.chance(0.3) {
            let y = r.range(-1.0, 1.0);
            t.evs.push(ev("one", &[r.below(3) as f64, y, r.log_range(1e-3, 0.3)]));
        }
        if r.chance(p[9]) {
            let y = if r.chance(0.5) { r.broken() } else { 0.3 };
            let b = r.broken();
            t.evs.push(ev("onebad", &[r.below(3) as f64, y, 0.1, r.int(1, 15) as f64, b]));
        }
        if r.chance(0.1) {
            let (y, z) = (r.range(-1.0, 1.0), r.range(-1.0, 1.0));
            t.evs.push(ev("two", &[r.below(5) as f64, y, z, r.log_range(1e-3, 0.3)]));
        }
    }
    t
}

pub struct ErrorState(pub Oracle);

impl World for ErrorState {
    fn name(&self) -> &'static str {
        if self.0 == Oracle::Twin { "error-state-twin" } else { "error-state" }
    }
    fn generate(&self, r: &mut Rng) -> Trace {
        eskf_schedule(r)
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        eskf_run(t, cx, self.0)
    }
}

// ----- Attitude filters -----

#[derive(Clone, Copy)]
enum Att {
    Mahony(MahonyFilter),
    Madgwick(MadgwickFilter),
}

impl Att {
    fn step(&mut self, g: V3, a: V3, m: Option<V3>, dt: f64, short: bool) -> Result<(), EstimationError> {
        match self {
            Att::Mahony(f) if short => f.step_without_magnetometer(v3(g), v3(a), dt),
            Att::Madgwick(f) if short => f.step_without_magnetometer(v3(g), v3(a), dt),
            Att::Mahony(f) => f.step(v3(g), v3(a), m.map(v3), dt),
            Att::Madgwick(f) => f.step(v3(g), v3(a), m.map(v3), dt),
        }
    }
    fn facing(&self) -> SO3<f64> {
        match self {
            Att::Mahony(f) => f.orientation(),
            Att::Madgwick(f) => f.orientation(),
        }
    }
    fn bias(&self) -> V3 {
        a3(match self {
            Att::Mahony(f) => f.gyroscope_bias(),
            Att::Madgwick(f) => f.gyroscope_bias(),
        })
    }
    fn snap(&self) -> Vec<f64> {
        let mut o = quat(self.facing()).to_vec();
        o.extend(self.bias());
        o
    }
}

fn reference_correction(r: &Mat, acc: V3, mag: Option<V3>, up: V3, north: V3) -> V3 {
    let mut e = [0.0; 3];
    let into = r.t();
    if let Some(m) = unit(acc) {
        e = add(e, cross(m, apply(&into, up)));
    }
    if let Some(m) = mag.and_then(unit) {
        let w = apply(r, m);
        let vert = dot(w, up);
        let hor = (1.0 - vert * vert).max(0.0).sqrt();
        let want = add(scale(north, hor), scale(up, vert));
        e = add(e, cross(m, apply(&into, want)));
    }
    e
}

/// cfg: kind, tilt seed, kp, ki, custom references, dt
fn attitude_run(t: &Trace, cx: &mut Cx, twin: bool) -> R {
    let kind = t.cu(0);
    let name = if kind == 0 { "mahony" } else { "madgwick" };
    let mut r = Rng::new(t.c(1) as u64);
    let mut g3 = |k: f64| [r.range(-k, k), r.range(-k, k), r.range(-k, k)];
    let start = SO3::exp(v3(g3(1.5)));
    let bias0 = g3(0.1);
    let tilt = g3(0.4);
    let (kp, ki) = if t.c(2) == 0.0 {
        if kind == 0 { (1.0, 0.1) } else { (0.1, 0.01) }
    } else {
        (t.c(2), t.c(3))
    };
    let (mut up, mut north) = ([0.0, 0.0, 1.0], [1.0, 0.0, 0.0]);
    let odd = t.cu(4);
    let (given_up, given_north) = match odd {
        1 => {
            let m = exp_so3(tilt);
            (scale(apply(&m, up), 3.0), add(scale(apply(&m, north), 0.5), scale(apply(&m, up), 0.2)))
        }
        // Pairs that do not describe two usable directions leave the references alone.
        2 => ([0.0; 3], [1.0, 0.0, 0.0]),
        3 => ([0.0, 0.0, 1.0], [0.0, 0.0, 5.0]),
        _ => (up, north),
    };
    if odd == 1 {
        up = unit(given_up).unwrap_or(up);
        north = unit(sub(given_north, scale(up, dot(given_north, up)))).unwrap_or(north);
    }
    let mut a = if kind == 0 {
        let mut f = MahonyFilter::new(start);
        if t.c(2) != 0.0 {
            f = f.with_proportional_gain(kp).with_integral_gain(ki);
        }
        if odd > 0 {
            f = f.with_reference_directions(v3(given_up), v3(given_north));
        }
        f.set_gyroscope_bias(v3(bias0));
        Att::Mahony(f)
    } else {
        let mut f = MadgwickFilter::new(start);
        if t.c(2) != 0.0 {
            f = f.with_correction_gain(kp).with_bias_gain(ki);
        }
        if odd > 0 {
            f = f.with_reference_directions(v3(given_up), v3(given_north));
        }
        f.set_gyroscope_bias(v3(bias0));
        Att::Madgwick(f)
    };
    let mut b = a;
    // What the simulated body truly does once it settles, for the convergence phase.
    let truth = exp_so3(scale(tilt, 2.0));
    for e in &t.evs {
        cx.step(e.k);
        let before = a.snap();
        let r0 = rot(a.facing());
        let b0 = a.bias();
        match e.k {
            "step" => {
                let g = [e.n(0), e.n(1), e.n(2)];
                let acc = [e.n(3), e.n(4), e.n(5)];
                let mag = [e.n(6), e.n(7), e.n(8)];
                let dt = e.n(9);
                let mode = e.u(10);
                let m = if mode == 0 { Some(mag) } else { None };
                let used_mag = m.unwrap_or([0.0; 3]);
                let bad = !finite(&g) || !finite(&acc) || !dt.is_finite() || !finite(&used_mag);
                if bad {
                    cx.fault("reading-not-finite");
                }
                if mode != 0 {
                    cx.fault("magnetometer-lost");
                }
                if norm(acc) == 0.0 {
                    cx.fault("accelerometer-reads-nothing");
                }
                if mode == 0 && norm(mag) == 0.0 {
                    cx.fault("magnetometer-reads-nothing");
                }
                if dt > 0.05 {
                    cx.fault("tick-stalled");
                }
                let got = a.step(g, acc, m, dt, mode == 2);
                let after = a.snap();
                cx.logs(&after);
                if bad {
                    ensure!(got.is_err(), "{name}: a reading that is not finite was accepted | {:?}", e.a);
                }
                if got.is_err() {
                    ensure!(all_same(&before, &after), "{name}: a rejected step changed the filter | {:?}", e.a);
                    cx.reach("call-rejected");
                } else if twin {
                    let other = b.step(g, acc, m, dt, mode == 2);
                    ensure!(other.is_ok(), "{name}: a step succeeds only after earlier rejected ones | ");
                }
                if twin {
                    ensure!(
                        all_same(&after, &b.snap()),
                        "{name}: a rejected step left a trace in a later estimate | {:?}",
                        e.a
                    );
                }
                if dt.is_finite() && dt < 10.0 {
                    cx.sim_time += dt;
                }
                // A timestep or rate too large to represent may be refused; an ordinary one may not.
                let tame = !bad && e.a.iter().all(|v| v.abs() < 1e6);
                if !tame {
                    if got.is_ok() && !bad {
                        return Ok(());
                    }
                    continue;
                }
                ensure!(got.is_ok(), "{name}: a sound reading was rejected | {got:?} {:?}", e.a);
                if twin {
                    continue;
                }
                let raw = reference_correction(&r0, acc, m, up, north);
                let c = if kind == 0 {
                    raw
                } else if norm(acc) == 0.0 && norm(used_mag) == 0.0 {
                    cx.reach("no direction read at all");
                    [0.0; 3]
                } else if norm(raw) < 1e-10 {
                    // The direction of a vanishing correction is rounding; nothing to compare.
                    continue;
                } else {
                    unit(raw).unwrap_or([0.0; 3])
                };
                let bias = sub(b0, scale(c, ki * dt));
                let rate = add(sub(g, bias), scale(c, kp));
                let want = r0.mul(&exp_so3(scale(rate, dt)));
                // How far the level part of a field near the vertical is known at all.
                let vert = unit(used_mag).map_or(0.0, |m| dot(apply(&r0, m), up));
                let level = (1.0 - vert * vert).max(0.0).sqrt();
                let loose = (8e-16 / level.max(1e-300)).min(4e-8) * (kp + ki);
                let slack = 1e-11 + if kind == 0 || norm(raw) == 0.0 { loose } else { (1e-15 * (kp + ki) + loose) / norm(raw) };
                ensure!(
                    all_close(&a.bias(), &bias, 1e-11, slack),
                    "{name}: the tracked offset differs from the filter's equation | got {:?} want {bias:?}",
                    a.bias()
                );
                ensure!(
                    all_close(&rot(a.facing()).d, &want.d, 1e-10, slack),
                    "{name}: the facing differs from the filter's equation | after {:?}",
                    e.a
                );
                let n: f64 = quat(a.facing()).iter().map(|v| v * v).sum::<f64>().sqrt();
                ensure!((n - 1.0).abs() < 1e-12, "{name}: the facing is no longer a rotation | norm {n}");
                cx.state(&[kind as i64, (norm(raw) * 8.0) as i64, (norm(b0) * 20.0) as i64, mode as i64]);
            }
            "seed" => {
                let q = SO3::exp(v3([e.n(0), e.n(1), e.n(2)]));
                let bias = v3([e.n(3), e.n(4), e.n(5)]);
                for f in [&mut a, &mut b] {
                    match f {
                        Att::Mahony(f) => {
                            f.set_orientation(q);
                            f.set_gyroscope_bias(bias);
                        }
                        Att::Madgwick(f) => {
                            f.set_orientation(q);
                            f.set_gyroscope_bias(bias);
                        }
                    }
                }
                ensure!(
                    same(norm(sub(a.bias(), a3(bias))), 0.0) && all_same(&quat(a.facing()), &quat(q)),
                    "{name}: re-seeding does not set the facing and the offset given | {:?}",
                    a.snap()
                );
                cx.reach("re-seeded");
            }
            "hours" => {
                // A long watch in single precision: nothing else pulls the facing back onto a rotation.
                let mut r = Rng::new(e.n(0) as u64);
                let mut f = MahonyFilter::<f32>::new(SO3::identity());
                let mut h = MadgwickFilter::<f32>::new(SO3::identity());
                let ticks = e.u(1);
                let spin: V3 = [r.range(-2.0, 2.0), r.range(-2.0, 2.0), r.range(-2.0, 2.0)];
                for _ in 0..ticks {
                    let mut v = |k: f64, m: V3| {
                        let a = [m[0] + r.range(-k, k), m[1] + r.range(-k, k), m[2] + r.range(-k, k)];
                        multicalc::linear_algebra::Vector3D::new(a.map(|x| x as f32))
                    };
                    let (g, acc, mag) = (v(0.5, spin), v(1.0, [0.0, 0.0, 9.81]), v(0.2, [0.6, 0.0, -0.8]));
                    let (x, y) = (f.step(g, acc, Some(mag), 0.001), h.step(g, acc, Some(mag), 0.001));
                    ensure!(x.is_ok() && y.is_ok(), "attitude: a sound reading was rejected in single precision | {x:?} {y:?}");
                }
                cx.sim_time += ticks as f64 * 0.001;
                for q in [f.orientation(), h.orientation()] {
                    let n = q.quaternion().as_array().iter().map(|v| f64::from(*v).powi(2)).sum::<f64>().sqrt();
                    cx.log(n);
                    ensure!((n - 1.0).abs() < 1e-6, "attitude: the facing drifts off a rotation over a long watch | norm {n} after {ticks}");
                }
                cx.reach("a long watch in single precision");
            }
            "settle" => {
                // Faults stop: the body is still, the sensors are honest, and the error may only shrink.
                let dt = 0.01;
                let ticks = 6000;
                let acc = scale(apply(&truth.t(), up), 9.81);
                let field = add(scale(north, 0.6), scale(up, -0.8));
                let mag = apply(&truth.t(), field);
                let gap = angle_between(&rot(a.facing()), &truth);
                if gap > 2.0 || kp < 0.5 || ki > 0.03 * kp * kp {
                    continue;
                }
                for f in [&mut a, &mut b] {
                    match f {
                        Att::Mahony(f) => f.set_gyroscope_bias(v3([0.0; 3])),
                        Att::Madgwick(f) => f.set_gyroscope_bias(v3([0.0; 3])),
                    }
                }
                for _ in 0..ticks {
                    let got = a.step([0.0; 3], acc, Some(mag), dt, false);
                    ensure!(got.is_ok(), "{name}: a sound reading was rejected while settling | {got:?}");
                    let _ = b.step([0.0; 3], acc, Some(mag), dt, false);
                }
                cx.sim_time += dt * ticks as f64;
                let left = angle_between(&rot(a.facing()), &truth);
                cx.log(left);
                cx.reach("settled");
                ensure!(
                    left < 0.15 + 2.0 * kp * dt,
                    "{name}: still readings did not bring the facing to the truth | started {gap} left {left} after {} s",
                    dt * ticks as f64
                );
            }
            _ => {}
        }
    }
    Ok(())
}

fn attitude_schedule(r: &mut Rng) -> Trace {
    let custom = r.chance(0.6);
    let kind = r.below(2) as f64;
    let mut t = Trace {
        cfg: vec![
            kind,
            (r.u64() >> 12) as f64,
            if custom { r.log_range(0.05, 5.0) } else { 0.0 },
            if custom { *r.pick(&[0.0, 0.01, 0.1, 0.5]) } else { 0.0 },
            r.below(4) as f64,
        ],
        evs: Vec::new(),
    };
    let calm = r.chance(0.1);
    let p: Vec<f64> = (0..6)
        .map(|_| if calm || r.chance(0.4) { 0.0 } else { r.range(0.02, 0.3) })
        .collect();
    let dt0 = *r.pick(&[0.001, 0.005, 0.02]);
    for _ in 0..r.int(5, 60) {
        let mut a: Vec<f64> = (0..3).map(|_| r.range(-2.0, 2.0)).collect();
        a.extend((0..3).map(|_| r.range(-3.0, 3.0)));
        a[5] += 9.81;
        a.extend((0..3).map(|_| r.range(-1.0, 1.0)));
        a.push(if r.chance(p[0]) { *r.pick(&[0.0, 0.1, 0.3]) } else { dt0 });
        a.push(0.0);
        if r.chance(p[1]) {
            let k = r.below(10);
            a[k] = r.broken();
        }
        if r.chance(p[2]) {
            a[10] = r.int(1, 2) as f64;
        }
        if r.chance(p[3]) {
            a[3..6].fill(0.0);
        }
        if r.chance(p[4]) {
            a[6..9].fill(0.0);
        }
        if r.chance(p[4] * 0.3) {
            // Straight along the vertical, where there is no heading to read.
            a[6..9].copy_from_slice(&[0.0, 0.0, r.sign()]);
        }
        if r.chance(p[3] * 0.3) {
            a[3..6].copy_from_slice(&[0.0, 0.0, 9.81 * r.sign()]);
        }
        if r.chance(p[5] * 0.2) {
            let k = r.below(10);
            a[k] = *r.pick(&[1e200, 1.7e308, -1.7e308]);
            if r.chance(0.5) {
                a[9] = 1e300;
            }
        }
        t.evs.push(ev("step", &a));
        if r.chance(0.03) {
            let mut s: Vec<f64> = (0..6).map(|_| r.range(-0.5, 0.5)).collect();
            if r.chance(0.4) {
                s[..3].fill(0.0);
            }
            t.evs.push(ev("seed", &s));
        }
    }
    if r.chance(0.08) {
        t.evs.push(ev("settle", &[]));
    }
    if r.chance(0.005) {
        t.evs.push(ev("hours", &[r.below(1 << 40) as f64, r.int(2000, 60000) as f64]));
    }
    t
}

pub struct Attitude(pub Oracle);

impl World for Attitude {
    fn name(&self) -> &'static str {
        if self.0 == Oracle::Twin { "attitude-twin" } else { "attitude" }
    }
    fn generate(&self, r: &mut Rng) -> Trace {
        attitude_schedule(r)
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        attitude_run(t, cx, self.0 == Oracle::Twin)
    }
}
