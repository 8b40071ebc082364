//! The estimators as slots on one machine, beside every other stateful component: whatever is
//! interleaved with it, restarted or read, a component answers only from its own history.

use super::comps::*;
use crate::comp;
use crate::core::*;
use multicalc::estimation::*;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::mapping::{DynamicOccupancyGrid, MutableOccupancyMap, ScanGeometry};
use multicalc::scalar::{Numeric, VectorFn};
use multicalc::spatial::SO3;
use std::sync::OnceLock;

fn at(a: &[f64], i: usize) -> f64 {
    a.get(i).copied().unwrap_or(0.0)
}
fn v3(a: &[f64], i: usize) -> Vector<3> {
    Vector::new([at(a, i), at(a, i + 1), at(a, i + 2)])
}

/// A pendulum-like model with two states.
struct Swing(f64);
impl VectorFn<2, 2> for Swing {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 2] {
        let dt = S::from_f64(self.0);
        [x[0] + dt * x[1], x[1] - dt * x[0].sin()]
    }
}
struct Seen(f64);
impl VectorFn<2, 1> for Seen {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 1] {
        [x[0].sin() + S::from_f64(self.0) * x[1]]
    }
}
struct Position;
impl NominalStateFn<3> for Position {
    fn eval<S: Numeric>(&self, state: &NominalState<S>) -> [S; 3] {
        *state.position().as_array()
    }
}

fn out(r: Result<(), EstimationErr>, x: &[f64]) -> Out {
    let mut all = vec![match r {
        Ok(()) => 0.0,
        Err(e) => 1.0 + format!("{e:?}").len() as f64,
    }];
    all.extend(x);
    Out::V(all)
}
type EstimationErr = multicalc::error::EstimationError;

fn flat<const A: usize, const B: usize>(m: &Matrix<A, B>) -> Vec<f64> {
    (0..A * B).map(|k| m[(k / B, k % B)]).collect()
}

macro_rules! planar {
    ($wrap:ident, $inner:ty, $make:expr, |$f:ident, $a:ident| $predict:expr, $update:expr) => {
        #[derive(Clone)]
        struct $wrap($inner, Vec<f64>);
        impl $wrap {
            fn make(p: &[f64]) -> Result<$wrap, String> {
                let x = Vector::new([p[0], p[1]]);
                let cov = Matrix::new([[p[2], 0.1 * p[2]], [0.1 * p[2], p[2]]]);
                let q = Matrix::new([[p[3], 0.0], [0.0, p[3]]]);
                let r = Matrix::new([[p[4]]]);
                #[allow(clippy::redundant_closure_call)]
                Ok($wrap(($make)(x, cov, q, r, p)?, p.to_vec()))
            }
            fn view(&self) -> Vec<f64> {
                let mut o = self.0.state().as_slice().to_vec();
                o.extend(flat(&self.0.covariance()));
                o.extend(self.0.innovation().as_slice());
                o.extend(flat(&self.0.innovation_covariance()));
                o.push(self.0.normalized_innovation_squared().unwrap_or(-1.0));
                o
            }
        }
        comp!($wrap, |s, op, a| {
            match op {
                0 => {
                    let ($f, $a) = (&mut s.0, a);
                    let r = $predict;
                    out(r, &s.view())
                }
                2 => {
                    let ($f, $a) = (&mut s.0, a);
                    let r = $update;
                    out(r, &s.view())
                }
                1 => {
                    *s = $wrap::make(&s.1.clone()).expect("built before");
                    out(Ok(()), &s.view())
                }
                3 => {
                    s.0.set_state(Vector::new([at(a, 0), at(a, 1)]));
                    out(Ok(()), &s.view())
                }
                4 => {
                    s.0.set_process_noise(Matrix::new([[at(a, 0), 0.0], [0.0, at(a, 0)]]));
                    s.0.set_measurement_noise(Matrix::new([[at(a, 1)]]));
                    out(Ok(()), &s.view())
                }
                _ => Out::V(s.view()),
            }
        });
    };
}

fn form(p: &[f64]) -> CovarianceUpdate {
    if p[5] > 0.5 { CovarianceUpdate::Joseph } else { CovarianceUpdate::Naive }
}

planar!(
    Lin,
    KalmanFilter<2, 1>,
    |x, cov, q, r, p: &[f64]| {
        let model = KalmanModel {
            state_transition: Matrix::new([[1.0, 0.05], [-0.05, 1.0]]),
            process_noise: q,
            measurement_model: Matrix::new([[1.0, 0.2]]),
            measurement_noise: r,
        };
        Ok::<_, String>(KalmanFilter::new(x, cov, model).with_covariance_update(form(p)))
    },
    |f, a| {
        if at(a, 1) > 0.5 {
            f.predict_with_control(Matrix::new([[0.0], [0.1]]), Vector::new([at(a, 0)]));
        } else {
            f.predict();
        }
        Ok(())
    },
    f.update(Vector::new([at(a, 0)]))
);
planar!(
    Ext,
    ExtendedKalmanFilter<2, 1>,
    |x, cov, q, r, p: &[f64]| Ok::<_, String>(ExtendedKalmanFilter::new(x, cov, q, r).with_covariance_update(form(p))),
    |f, a| f.predict(&Swing(at(a, 0))),
    f.update(&Seen(at(a, 1)), Vector::new([at(a, 0)]))
);
planar!(
    Uns,
    UnscentedKalmanFilter<2, 1>,
    |x, cov, q, r, _: &[f64]| Ok::<_, String>(UnscentedKalmanFilter::new(x, cov, q, r)),
    |f, a| f.predict(&Swing(at(a, 0))),
    {
        // A second reading without a predict is a known finding elsewhere.
        f.predict(&Swing(0.01)).and_then(|()| f.update(&Seen(at(a, 1)), Vector::new([at(a, 0)])))
    }
);

fn planar_params(r: &mut Rng, bad: bool) -> Vec<f64> {
    let mut p = vec![
        r.range(-1.0, 1.0),
        r.range(-1.0, 1.0),
        r.log_range(1e-2, 2.0),
        r.log_range(1e-4, 0.1),
        r.log_range(1e-3, 0.5),
        r.below(2) as f64,
    ];
    if bad {
        p[r.int(0, 4)] = r.broken();
    }
    p
}
fn planar_call(r: &mut Rng, _p: &[f64], t: f64, bad: bool) -> (usize, Vec<f64>) {
    match r.below(12) {
        0..=4 => (0, vec![if bad { r.broken() } else { 0.05 }, r.below(2) as f64]),
        5..=8 => (2, vec![sample(r, t, bad), r.range(-0.5, 0.5)]),
        9 => (3, vec![r.normal(), r.normal()]),
        10 => (4, vec![r.log_range(1e-4, 0.1), r.log_range(1e-3, 0.5)]),
        _ => (50, vec![]),
    }
}

// ----- Inertial -----

#[derive(Clone)]
struct Eskf(ErrorStateKalmanFilter<3>, Vec<f64>);
impl Eskf {
    fn make(p: &[f64]) -> Result<Eskf, String> {
        let noise = ImuNoise {
            gyroscope_noise_density: p[0],
            accelerometer_noise_density: p[1],
            gyroscope_bias_random_walk: p[2],
            accelerometer_bias_random_walk: p[3],
        };
        let state = NominalState::at_rest(SO3::exp(v3(p, 4)));
        let f = ErrorStateKalmanFilter::<3>::new(
            state,
            Matrix::from_diagonal([p[7]; 15]),
            noise,
            Matrix::from_diagonal([p[8]; 3]),
        );
        Ok(Eskf(f, p.to_vec()))
    }
    fn view(&self) -> Vec<f64> {
        let s = self.0.nominal_state();
        let mut o = Vec::with_capacity(64);
        for x in [s.position(), s.velocity(), s.gyroscope_bias(), s.accelerometer_bias()] {
            o.extend(x.as_slice());
        }
        o.extend(s.orientation().log().as_slice());
        let c = self.0.covariance();
        o.extend((0..15).map(|i| c[(i, i)]));
        o.extend((0..14).map(|i| c[(i, i + 1)]));
        o.extend((0..9).map(|i| c[(i, i + 6)]));
        o.extend(self.0.innovation().as_slice());
        o
    }
}
comp!(Eskf, |s, op, a| {
    match op {
        0 => {
            let r = s.0.predict(v3(a, 0), v3(a, 3), at(a, 6));
            out(r, &s.view())
        }
        2 => {
            let r = s.0.update(&Position, v3(a, 0));
            out(r, &s.view())
        }
        3 => {
            let r = s.0.condition_covariance(at(a, 0));
            out(r, &s.view())
        }
        1 => {
            *s = Eskf::make(&s.1.clone()).expect("built before");
            out(Ok(()), &s.view())
        }
        _ => Out::V(s.view()),
    }
});
fn eskf_params(r: &mut Rng, bad: bool) -> Vec<f64> {
    let mut p: Vec<f64> = (0..4).map(|_| r.log_range(1e-4, 1e-1)).collect();
    p.extend((0..3).map(|_| r.range(-1.0, 1.0)));
    p.push(r.log_range(1e-3, 1.0));
    p.push(r.log_range(1e-4, 1e-1));
    if bad {
        p[r.int(0, 3)] = r.broken();
    }
    p
}
fn imu_sample(r: &mut Rng, bad: bool) -> Vec<f64> {
    let mut a: Vec<f64> = (0..3).map(|_| r.range(-1.0, 1.0)).collect();
    a.extend([r.range(-2.0, 2.0), r.range(-2.0, 2.0), 9.8 + r.range(-1.0, 1.0)]);
    a.push(*r.pick(&[0.01, 0.02, 0.005]));
    if bad {
        let i = r.below(7);
        a[i] = r.broken();
    }
    a
}
fn eskf_call(r: &mut Rng, _p: &[f64], t: f64, bad: bool) -> (usize, Vec<f64>) {
    match r.below(12) {
        0..=6 => (0, imu_sample(r, bad)),
        7..=9 => (2, vec![sample(r, t, bad), r.normal(), r.normal()]),
        10 => (3, vec![if bad { r.broken() } else { r.log_range(1e-9, 1e-6) }]),
        _ => (50, vec![]),
    }
}

macro_rules! attitude {
    ($wrap:ident, $inner:ty, $gain:ident, $second:ident) => {
        #[derive(Clone)]
        struct $wrap($inner, Vec<f64>);
        impl $wrap {
            fn make(p: &[f64]) -> Result<$wrap, String> {
                let f = <$inner>::new(SO3::exp(v3(p, 0))).$gain(p[3]).$second(p[4]);
                Ok($wrap(f, p.to_vec()))
            }
            fn view(&self) -> Vec<f64> {
                let m = self.0.orientation().to_matrix();
                let mut o = flat(&m);
                o.extend(self.0.gyroscope_bias().as_slice());
                o
            }
        }
        comp!($wrap, |s, op, a| {
            match op {
                0 => {
                    let mag = (at(a, 7) > 0.5).then(|| v3(a, 8));
                    let r = s.0.step(v3(a, 0), v3(a, 3), mag, at(a, 6));
                    out(r, &s.view())
                }
                1 => {
                    *s = $wrap::make(&s.1.clone()).expect("built before");
                    out(Ok(()), &s.view())
                }
                2 => {
                    s.0.set_gyroscope_bias(v3(a, 0));
                    out(Ok(()), &s.view())
                }
                3 => {
                    s.0.set_orientation(SO3::exp(v3(a, 0)));
                    out(Ok(()), &s.view())
                }
                _ => Out::V(s.view()),
            }
        });
    };
}
attitude!(Mah, MahonyFilter<f64>, with_proportional_gain, with_integral_gain);
attitude!(Mad, MadgwickFilter<f64>, with_correction_gain, with_bias_gain);
fn attitude_params(r: &mut Rng, _bad: bool) -> Vec<f64> {
    vec![r.range(-1.5, 1.5), r.range(-1.5, 1.5), r.range(-1.5, 1.5), r.log_range(0.01, 3.0), r.log_range(1e-3, 0.5)]
}
fn attitude_call(r: &mut Rng, _p: &[f64], _t: f64, bad: bool) -> (usize, Vec<f64>) {
    match r.below(12) {
        0..=8 => {
            let mut a = imu_sample(r, bad);
            if r.chance(0.1) {
                a[3] = 0.0;
                a[4] = 0.0;
                a[5] = 0.0;
            }
            a.push(r.below(2) as f64);
            a.extend([0.4 + 0.1 * r.normal(), 0.1 * r.normal(), -0.3 + 0.1 * r.normal()]);
            (0, a)
        }
        9 => (2, vec![0.1 * r.normal(), 0.1 * r.normal(), 0.1 * r.normal()]),
        10 => (3, vec![r.normal(), r.normal(), r.normal()]),
        _ => (50, vec![]),
    }
}

// ----- Clouds -----

#[derive(Clone)]
struct Cloud(ParticleFilter<2, 1>, GaussianLikelihood<1>, Vec<f64>);
impl Cloud {
    fn make(p: &[f64]) -> Result<Cloud, String> {
        let cov = |s: f64| Matrix::new([[s, 0.0], [0.0, s]]);
        let f = say(ParticleFilter::<2, 1>::new(
            (p[0] as usize).min(16),
            Vector::new([p[1], p[2]]),
            cov(p[3]),
            cov(p[4]),
            p[5] as u64,
        ))?;
        let scheme = [
            ResamplingScheme::Systematic,
            ResamplingScheme::Stratified,
            ResamplingScheme::Multinomial,
            ResamplingScheme::Residual,
        ][(p[6] as usize) % 4];
        let f = f.with_resampling(scheme).with_resample_threshold(p[7]).with_roughening(p[8]);
        Ok(Cloud(f, say(GaussianLikelihood::new(Matrix::new([[p[9]]])))?, p.to_vec()))
    }
    fn view(&self) -> Vec<f64> {
        let mut o: Vec<f64> = self.0.particles().iter().flat_map(|p| p.as_slice().to_vec()).collect();
        o.extend(self.0.weights());
        o.extend(self.0.mean().as_slice());
        o.extend(self.0.maximum_a_posteriori_state().as_slice());
        o.push(self.0.effective_sample_size());
        o
    }
}
comp!(Cloud, |s, op, a| {
    match op {
        0 => {
            let r = s.0.predict(&Swing(at(a, 0)));
            out(r, &s.view())
        }
        2 => {
            let r = s.0.update(&Seen(at(a, 1)), &s.1, Vector::new([at(a, 0)]));
            out(r, &s.view())
        }
        3 => {
            s.0.resample();
            out(Ok(()), &s.view())
        }
        1 => {
            *s = Cloud::make(&s.2.clone()).expect("built before");
            out(Ok(()), &s.view())
        }
        _ => Out::V(s.view()),
    }
});
fn cloud_params(r: &mut Rng, bad: bool) -> Vec<f64> {
    vec![
        if bad { 0.0 } else { r.int(1, 8) as f64 },
        r.normal(),
        r.normal(),
        r.log_range(1e-3, 1.0),
        r.log_range(1e-4, 0.1),
        r.below(1000) as f64,
        r.below(4) as f64,
        *r.pick(&[0.5, 1.0, 0.0, 0.9]),
        *r.pick(&[0.0, 0.1]),
        r.log_range(1e-2, 1.0),
    ]
}
fn cloud_call(r: &mut Rng, _p: &[f64], t: f64, bad: bool) -> (usize, Vec<f64>) {
    match r.below(10) {
        0..=4 => (0, vec![if bad { r.broken() } else { 0.05 }]),
        5..=7 => (2, vec![sample(r, t, bad), r.range(-0.5, 0.5)]),
        8 => (3, vec![]),
        _ => (50, vec![]),
    }
}

#[derive(Clone)]
struct Where(MonteCarloLocalizer<4>, Vec<f64>);
fn room() -> &'static (DynamicOccupancyGrid, ScanGeometry<4>) {
    static ROOM: OnceLock<(DynamicOccupancyGrid, ScanGeometry<4>)> = OnceLock::new();
    ROOM.get_or_init(|| {
        let mut g = DynamicOccupancyGrid::try_new(20, 16, 0.25, [0.0, 0.0]).expect("a sound map");
        for i in 0..20 {
            g.set_cell(1, i, true);
            g.set_cell(14, i, true);
            g.set_cell(i.min(15), 1, true);
            g.set_cell(i.min(15), 18, true);
        }
        let s = ScanGeometry::try_new(4.0, 6.0).expect("a sound scan");
        (g, s)
    })
}
impl Where {
    fn make(p: &[f64]) -> Result<Where, String> {
        let cloud = InitialParticleCloud {
            particle_count: (p[0] as usize).min(16),
            position_variance: p[4],
            heading_variance: p[5],
        };
        let f = say(MonteCarloLocalizer::<4>::new([p[1], p[2], p[3]], cloud, BeamModel::default(), p[6] as u64))?;
        Ok(Where(f, p.to_vec()))
    }
    fn view(&self) -> Vec<f64> {
        let mut o: Vec<f64> = self.0.particles().iter().flat_map(|p| p.as_slice().to_vec()).collect();
        let (x, c) = self.0.estimate();
        o.extend(x.as_slice());
        o.extend(flat(&c));
        o.push(self.0.effective_sample_size());
        o.push(f64::from(self.0.is_converged(0.2, 0.2)));
        o
    }
}
comp!(Where, |s, op, a| {
    match op {
        0 => {
            let r = s.0.predict(at(a, 0), at(a, 1));
            out(r, &s.view())
        }
        2 => {
            let (g, scan) = room();
            let r = s.0.update(&[at(a, 0), at(a, 1), at(a, 2), at(a, 3)], g, scan);
            out(r, &s.view())
        }
        1 => {
            *s = Where::make(&s.1.clone()).expect("built before");
            out(Ok(()), &s.view())
        }
        4 => {
            let r = s.0.set_motion_noise([at(a, 0), at(a, 0), at(a, 1)]);
            out(r, &[])
        }
        _ => Out::V(s.view()),
    }
});
fn where_params(r: &mut Rng, bad: bool) -> Vec<f64> {
    vec![
        if bad { 0.0 } else { r.int(2, 10) as f64 },
        r.range(0.5, 4.5),
        r.range(0.5, 3.5),
        r.range(-3.0, 3.0),
        r.log_range(1e-3, 0.1),
        r.log_range(1e-3, 0.1),
        r.below(1000) as f64,
    ]
}
fn where_call(r: &mut Rng, _p: &[f64], _t: f64, bad: bool) -> (usize, Vec<f64>) {
    match r.below(10) {
        0..=4 => (0, vec![if bad { r.broken() } else { r.range(-0.1, 0.2) }, r.range(-0.2, 0.2)]),
        5..=7 => {
            let mut a: Vec<f64> = (0..4).map(|_| r.range(0.2, 4.0)).collect();
            if bad {
                let i = r.below(4);
                a[i] = r.broken();
            }
            (2, a)
        }
        8 => (4, vec![r.log_range(1e-4, 1e-2), r.log_range(1e-4, 1e-2)]),
        _ => (50, vec![]),
    }
}

macro_rules! alone {
    ($name:literal, $params:ident, $t:ident, $call:ident) => {
        Kind { name: $name, params: $params, real: |p| boxed($t::make(p)), model: None, call: $call, tol: 0.0 }
    };
}

/// Every stateful component of the library.
fn everything() -> &'static [Kind] {
    static ALL: OnceLock<Vec<Kind>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut all = vec![
            alone!("linear filter", planar_params, Lin, planar_call),
            alone!("extended filter", planar_params, Ext, planar_call),
            alone!("unscented filter", planar_params, Uns, planar_call),
            alone!("error-state filter", eskf_params, Eskf, eskf_call),
            alone!("Mahony filter", attitude_params, Mah, attitude_call),
            alone!("Madgwick filter", attitude_params, Mad, attitude_call),
            alone!("particle filter", cloud_params, Cloud, cloud_call),
            alone!("localizer", where_params, Where, where_call),
        ];
        let groups: [&'static [Kind]; 8] = [
            &super::signals::PID,
            &super::signals::RECURSIVE,
            &super::signals::WINDOWS,
            &super::signals::CONDITIONING,
            &super::signals::ROTORS,
            &super::motion::ODOMETRY,
            &super::motion::PATHS,
            &super::motion::PROFILES,
        ];
        for g in groups {
            all.extend(g.iter().cloned());
        }
        all
    })
}

pub static ALONE_WORLD: Components = Components { name: "one-machine", kinds: everything, mode: Mode::Alone };
