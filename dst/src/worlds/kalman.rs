//! Linear, extended and unscented Kalman filters fed over a faulty link.
//!
//! The simulated parts are the sensors, the link and the caller's models; the filters are real. Two
//! oracles: a twin that never receives the calls the filter rejected, and an independent textbook
//! step taken from the filter's own state before each call.

use crate::core::*;
use crate::ensure;
use crate::refs::*;
use multicalc::error::EstimationError;
use multicalc::estimation::{
    CovarianceUpdate, ExtendedKalmanFilter, KalmanFilter, KalmanModel, UnscentedKalmanFilter,
};
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::scalar::{Numeric, VectorFn};
use std::cell::Cell;

/// A model `y_i = gain · (Σ lin_ij x_j + sin_ij sin x_j + prod_i sin(x_i) x_{i+1})`, whose k-th
/// evaluation can be made to fail.
#[derive(Clone)]
pub struct Fun<const N: usize, const M: usize> {
    pub lin: [[f64; N]; M],
    pub sin: [[f64; N]; M],
    pub prod: [f64; M],
    pub gain: f64,
    pub calls: Cell<usize>,
    pub bad_at: Cell<usize>,
    pub bad_kind: Cell<usize>,
    pub fired: Cell<bool>,
}

impl<const N: usize, const M: usize> Fun<N, M> {
    pub fn eval_ref(&self, x: &[f64]) -> Vec<f64> {
        (0..M)
            .map(|i| {
                let mut y = self.prod[i] * x[i % N].sin() * x[(i + 1) % N];
                for j in 0..N {
                    y += self.lin[i][j] * x[j] + self.sin[i][j] * x[j].sin();
                }
                self.gain * y
            })
            .collect()
    }
    pub fn jac_ref(&self, x: &[f64]) -> Mat {
        let mut m = Mat::from_fn(M, N, |i, j| self.lin[i][j] + self.sin[i][j] * x[j].cos());
        for i in 0..M {
            let (p, q) = (i % N, (i + 1) % N);
            m.set(i, p, m.at(i, p) + self.prod[i] * x[p].cos() * x[q]);
            m.set(i, q, m.at(i, q) + self.prod[i] * x[p].sin());
        }
        m.scale(self.gain)
    }
    pub fn arm(&self, at: usize, kind: usize) {
        self.calls.set(0);
        self.bad_at.set(at);
        self.bad_kind.set(kind);
        self.fired.set(false);
    }
}

impl<const N: usize, const M: usize> VectorFn<N, M> for Fun<N, M> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] {
        self.calls.set(self.calls.get() + 1);
        let bad = self.calls.get() == self.bad_at.get();
        std::array::from_fn(|i| {
            let mut y = S::from_f64(self.prod[i]) * x[i % N].sin() * x[(i + 1) % N];
            for j in 0..N {
                y += S::from_f64(self.lin[i][j]) * x[j] + S::from_f64(self.sin[i][j]) * x[j].sin();
            }
            y *= S::from_f64(self.gain);
            if bad && i == self.bad_at.get() % M {
                self.fired.set(true);
                y *= match self.bad_kind.get() % 3 {
                    0 => S::from_f64(f64::NAN),
                    1 => S::from_f64(f64::INFINITY),
                    _ => S::from_f64(f64::NEG_INFINITY),
                };
            }
            y
        })
    }
}

pub fn fun<const N: usize, const M: usize>(r: &mut Rng, size: f64, nonlinear: bool) -> Fun<N, M> {
    let mut f = Fun {
        lin: [[0.0; N]; M],
        sin: [[0.0; N]; M],
        prod: [0.0; M],
        gain: 1.0,
        calls: Cell::new(0),
        bad_at: Cell::new(0),
        bad_kind: Cell::new(0),
        fired: Cell::new(false),
    };
    for i in 0..M {
        for j in 0..N {
            f.lin[i][j] = if i == j { size } else { 0.0 } + r.range(-0.3, 0.3) / N as f64;
            if nonlinear {
                f.sin[i][j] = r.range(-0.3, 0.3) / N as f64;
            }
        }
        if nonlinear {
            f.prod[i] = r.range(-0.1, 0.1);
        }
    }
    f
}

pub fn spd<const N: usize>(r: &mut Rng, lo: f64, hi: f64) -> Matrix<N, N> {
    let g = Mat::from_fn(N, N, |_, _| 0.0);
    let mut g2 = g.clone();
    for v in g2.d.iter_mut() {
        *v = r.range(-0.5, 0.5);
    }
    let base = g2.mul(&g2.t());
    let s = r.log_range(lo, hi);
    Matrix::from_fn(|i, j| s * (base.at(i, j) + if i == j { 0.5 } else { 0.0 }))
}

fn m2<const A: usize, const B: usize>(m: &Matrix<A, B>) -> Mat {
    Mat::from_fn(A, B, |i, j| m[(i, j)])
}
fn v2<const A: usize>(v: &Vector<A>) -> Mat {
    Mat::col(v.as_slice())
}

pub trait Sut<const N: usize, const M: usize>: Clone {
    const KIND: &'static str;
    fn build(x: Vector<N>, p: Matrix<N, N>, q: Matrix<N, N>, r: Matrix<M, M>, t: &Trace) -> Self;
    fn predict(&mut self, f: &Fun<N, N>) -> Result<(), EstimationError>;
    fn update(&mut self, h: &Fun<N, M>, z: Vector<M>) -> Result<(), EstimationError>;
    fn residual(&mut self, h: &Fun<N, M>, y: Vector<M>) -> Option<Result<(), EstimationError>>;
    fn control(&mut self, _f: &Fun<N, N>, _g: &Matrix<N, 2>, _u: Vector<2>) -> bool {
        false
    }
    fn set_state(&mut self, x: Vector<N>);
    fn set_q(&mut self, q: Matrix<N, N>);
    fn set_r(&mut self, r: Matrix<M, M>);
    fn x(&self) -> Vector<N>;
    fn p(&self) -> Matrix<N, N>;
    fn y(&self) -> Vector<M>;
    fn s(&self) -> Matrix<M, M>;
    fn nis(&self) -> Result<f64, EstimationError>;
}

macro_rules! accessors {
    () => {
        fn set_state(&mut self, x: Vector<N>) {
            Self::set_state(self, x);
        }
        fn set_q(&mut self, q: Matrix<N, N>) {
            self.set_process_noise(q);
        }
        fn set_r(&mut self, r: Matrix<M, M>) {
            self.set_measurement_noise(r);
        }
        fn x(&self) -> Vector<N> {
            self.state()
        }
        fn p(&self) -> Matrix<N, N> {
            self.covariance()
        }
        fn y(&self) -> Vector<M> {
            self.innovation()
        }
        fn s(&self) -> Matrix<M, M> {
            self.innovation_covariance()
        }
        fn nis(&self) -> Result<f64, EstimationError> {
            self.normalized_innovation_squared()
        }
    };
}

fn form(t: &Trace) -> CovarianceUpdate {
    if t.cu(2) == 1 { CovarianceUpdate::Naive } else { CovarianceUpdate::Joseph }
}

impl<const N: usize, const M: usize> Sut<N, M> for KalmanFilter<N, M> {
    const KIND: &'static str = "linear";
    fn build(x: Vector<N>, p: Matrix<N, N>, q: Matrix<N, N>, r: Matrix<M, M>, t: &Trace) -> Self {
        KalmanFilter::new(
            x,
            p,
            KalmanModel {
                state_transition: Matrix::<N, N>::identity(),
                measurement_model: Matrix::<M, N>::zeros(),
                process_noise: q,
                measurement_noise: r,
            },
        )
        .with_covariance_update(form(t))
    }
    fn predict(&mut self, f: &Fun<N, N>) -> Result<(), EstimationError> {
        self.set_state_transition(Matrix::new(f.lin));
        KalmanFilter::predict(self);
        Ok(())
    }
    fn control(&mut self, f: &Fun<N, N>, g: &Matrix<N, 2>, u: Vector<2>) -> bool {
        self.set_state_transition(Matrix::new(f.lin));
        self.predict_with_control(*g, u);
        true
    }
    fn update(&mut self, h: &Fun<N, M>, z: Vector<M>) -> Result<(), EstimationError> {
        self.set_measurement_model(Matrix::new(h.lin));
        KalmanFilter::update(self, z)
    }
    fn residual(&mut self, _: &Fun<N, M>, _: Vector<M>) -> Option<Result<(), EstimationError>> {
        None
    }
    accessors!();
}

impl<const N: usize, const M: usize> Sut<N, M> for ExtendedKalmanFilter<N, M> {
    const KIND: &'static str = "extended";
    fn build(x: Vector<N>, p: Matrix<N, N>, q: Matrix<N, N>, r: Matrix<M, M>, t: &Trace) -> Self {
        ExtendedKalmanFilter::<N, M>::new(x, p, q, r).with_covariance_update(form(t))
    }
    fn predict(&mut self, f: &Fun<N, N>) -> Result<(), EstimationError> {
        ExtendedKalmanFilter::predict(self, f)
    }
    fn update(&mut self, h: &Fun<N, M>, z: Vector<M>) -> Result<(), EstimationError> {
        ExtendedKalmanFilter::update(self, h, z)
    }
    fn residual(&mut self, h: &Fun<N, M>, y: Vector<M>) -> Option<Result<(), EstimationError>> {
        Some(self.update_with_residual(h, y))
    }
    accessors!();
}

impl<const N: usize, const M: usize> Sut<N, M> for UnscentedKalmanFilter<N, M> {
    const KIND: &'static str = "unscented";
    fn build(x: Vector<N>, p: Matrix<N, N>, q: Matrix<N, N>, r: Matrix<M, M>, t: &Trace) -> Self {
        let f = UnscentedKalmanFilter::<N, M>::new(x, p, q, r);
        if t.c(3) == 0.0 {
            return f;
        }
        f.clone()
            .with_scaling(t.c(3), t.c(4), t.c(5))
            .and_then(|f| f.with_regularization(t.c(6)))
            .unwrap_or(f)
    }
    fn predict(&mut self, f: &Fun<N, N>) -> Result<(), EstimationError> {
        UnscentedKalmanFilter::predict(self, f)
    }
    fn update(&mut self, h: &Fun<N, M>, z: Vector<M>) -> Result<(), EstimationError> {
        UnscentedKalmanFilter::update(self, h, z)
    }
    fn residual(&mut self, h: &Fun<N, M>, y: Vector<M>) -> Option<Result<(), EstimationError>> {
        Some(self.update_with_residual(h, y))
    }
    accessors!();
}

/// The points an unscented filter keeps between its predict and its update.
struct Points {
    pts: Vec<Vec<f64>>,
    wm: Vec<f64>,
    wc: Vec<f64>,
}

struct Shadow {
    q: Mat,
    r: Mat,
    alpha: f64,
    beta: f64,
    kappa: f64,
    reg: f64,
    points: Option<Points>,
    updates_since_predict: usize,
}

impl Shadow {
    /// The unscented transform of (x, p) through f.
    fn unscented_predict(
        &self,
        x: &[f64],
        p: &Mat,
        f: &dyn Fn(&[f64]) -> Vec<f64>,
    ) -> Option<(Mat, Mat, Points)> {
        let n = x.len() as f64;
        let lambda = self.alpha * self.alpha * (n + self.kappa) - n;
        let mut scaled = p.scale(n + lambda);
        for i in 0..x.len() {
            scaled.set(i, i, scaled.at(i, i) + self.reg);
        }
        let l = scaled.chol()?;
        let mut pts = vec![x.to_vec()];
        for j in 0..x.len() {
            for s in [1.0, -1.0] {
                pts.push((0..x.len()).map(|i| x[i] + s * l.at(i, j)).collect());
            }
        }
        let mut wm = vec![0.5 / (n + lambda); pts.len()];
        let mut wc = wm.clone();
        wm[0] = lambda / (n + lambda);
        wc[0] = wm[0] + 1.0 - self.alpha * self.alpha + self.beta;
        let pts: Vec<Vec<f64>> = pts.iter().map(|q| f(q)).collect();
        let mut mean = vec![0.0; x.len()];
        // Differences from the middle point first: the weights are large and cancel.
        for (q, w) in pts.iter().zip(&wm) {
            for i in 0..mean.len() {
                mean[i] += w * (q[i] - pts[0][i]);
            }
        }
        for i in 0..mean.len() {
            mean[i] += pts[0][i];
        }
        let mut cov = self.q.clone();
        for (q, w) in pts.iter().zip(&wc) {
            for i in 0..mean.len() {
                for j in 0..mean.len() {
                    cov.set(i, j, cov.at(i, j) + w * (q[i] - mean[i]) * (q[j] - mean[j]));
                }
            }
        }
        Some((Mat::col(&mean), cov, Points { pts, wm, wc }))
    }

    #[allow(clippy::type_complexity)]
    fn unscented_update(
        &self,
        x: &[f64],
        p: &Mat,
        h: &dyn Fn(&[f64]) -> Vec<f64>,
        z: Result<&[f64], &[f64]>,
        m: usize,
    ) -> Option<(Mat, Mat, Mat, Vec<f64>)> {
        let pts = self.points.as_ref()?;
        let zs: Vec<Vec<f64>> = pts.pts.iter().map(|q| h(q)).collect();
        let mut zh = vec![0.0; m];
        for (q, w) in zs.iter().zip(&pts.wm) {
            for i in 0..m {
                zh[i] += w * (q[i] - zs[0][i]);
            }
        }
        for i in 0..m {
            zh[i] += zs[0][i];
        }
        let mut s = self.r.clone();
        let mut c = Mat::zeros(x.len(), m);
        for ((q, w), y) in zs.iter().zip(&pts.wc).zip(&pts.pts) {
            for j in 0..m {
                for i in 0..m {
                    s.set(i, j, s.at(i, j) + w * (q[i] - zh[i]) * (q[j] - zh[j]));
                }
                for i in 0..x.len() {
                    c.set(i, j, c.at(i, j) + w * (y[i] - x[i]) * (q[j] - zh[j]));
                }
            }
        }
        let y: Vec<f64> = match z {
            Ok(z) => z.iter().zip(&zh).map(|(a, b)| a - b).collect(),
            Err(y) => y.to_vec(),
        };
        let k = c.mul(&s.inv()?);
        let x2 = Mat::col(x).add(&k.mul(&Mat::col(&y)));
        let p2 = p.sub(&k.mul(&s).mul(&k.t()));
        Some((x2, p2, s, y))
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Oracle {
    Twin,
    Textbook,
}

fn drive<const N: usize, const M: usize, F: Sut<N, M>>(t: &Trace, cx: &mut Cx, oracle: Oracle) -> R {
    let kind = F::KIND;
    let nonlinear = kind != "linear";
    let mut r = Rng::new(t.c(1) as u64);
    let mut f: Fun<N, N> = fun(&mut r, 0.6, nonlinear);
    let h: Fun<N, M> = fun(&mut r, 1.0, nonlinear);
    let x0 = Vector::from_fn(|_| r.range(-1.0, 1.0));
    let p0 = spd::<N>(&mut r, 0.1, 3.0);
    let mut q = spd::<N>(&mut r, 1e-4, 0.3);
    let mut rr = spd::<M>(&mut r, 1e-3, 1.0);
    let g: Matrix<N, 2> = Matrix::from_fn(|_, _| r.range(-1.0, 1.0));
    let mut a = F::build(x0, p0, q, rr, t);
    let mut b = a.clone();
    let mut shadow = Shadow {
        q: m2(&q),
        r: m2(&rr),
        alpha: if t.c(3) == 0.0 { 1e-3 } else { t.c(3) },
        beta: if t.c(3) == 0.0 { 2.0 } else { t.c(4) },
        kappa: if t.c(3) == 0.0 { 0.0 } else { t.c(5) },
        reg: if t.c(3) == 0.0 { 0.0 } else { t.c(6) },
        points: None,
        updates_since_predict: 0,
    };
    let tol = if kind == "unscented" { 2e-6 } else { 1e-8 };
    let mut rejected = 0i64;
    let mut ever_predicted = false;

    for e in &t.evs {
        cx.step(e.k);
        cx.sim_time += 0.01;
        f.arm(0, 0);
        h.arm(0, 0);
        let (px, pp) = (a.x(), a.p());
        let z: Vector<M> = Vector::from_fn(|i| e.n(i));
        // What the call is expected to do, from the outside.
        let mut must_reject = false;
        enum Op {
            Predict,
            Control,
            Update,
            Residual,
            None,
        }
        let mut op = Op::None;
        let mut restore_r = false;
        match e.k {
            "predict" => op = Op::Predict,
            "control" => op = Op::Control,
            "read" => op = Op::Update,
            "resid" => op = Op::Residual,
            "lost" => cx.fault("reading-lost"),
            "dup" => {
                cx.fault("reading-duplicated");
                op = Op::Update;
            }
            "late" => {
                cx.fault("reading-delayed");
                op = Op::Update;
            }
            "zbad" => {
                cx.fault("reading-not-finite");
                op = Op::Update;
                must_reject = true;
            }
            "ybad" => {
                cx.fault("residual-not-finite");
                op = Op::Residual;
                must_reject = true;
            }
            "hbad" => {
                h.arm(e.u(M), e.u(M + 1));
                op = Op::Update;
            }
            "fbad" => {
                f.arm(e.u(0), e.u(1));
                op = Op::Predict;
            }
            "fhuge" => {
                f.gain = e.n(0);
                op = Op::Predict;
            }
            "rbad" => {
                // The caller hands over a measurement noise that is not a covariance.
                cx.fault("noise-not-a-covariance");
                let bad = Matrix::from_fn(|i, j| if i == j { e.n(M) } else { 0.0 });
                a.set_r(bad);
                b.set_r(bad);
                shadow.r = m2(&bad);
                restore_r = true;
                op = Op::Update;
            }
            "rinf" => {
                cx.fault("noise-not-finite");
                let bad = Matrix::from_fn(|i, j| if i == j { f64::INFINITY } else { 0.0 });
                a.set_r(bad);
                b.set_r(bad);
                restore_r = true;
                must_reject = true;
                op = Op::Update;
            }
            "setr" => {
                rr = Matrix::from_fn(|i, j| rr[(i, j)] * e.n(0));
                a.set_r(rr);
                b.set_r(rr);
                shadow.r = m2(&rr);
            }
            "setq" => {
                q = Matrix::from_fn(|i, j| q[(i, j)] * e.n(0));
                a.set_q(q);
                b.set_q(q);
                shadow.q = m2(&q);
            }
            "setx" => {
                let x = Vector::from_fn(|i| e.n(i));
                a.set_state(x);
                b.set_state(x);
                ensure!(all_same(a.x().as_slice(), x.as_slice()), "{kind}: set_state did not take | {:?}", a.x());
                ensure!(all_same(&m2(&a.p()).d, &m2(&pp).d), "{kind}: set_state changed the covariance | ");
                cx.reach("state-replaced");
                // The points an unscented filter kept no longer sit around its state.
                if kind == "unscented" && t.cu(7) == 0 {
                    shadow.updates_since_predict += 1;
                }
            }
            "model" => {
                // The system changes between steps.
                let mut r2 = Rng::new(e.n(0) as u64);
                f = fun(&mut r2, 0.6, nonlinear);
                cx.reach("model-changed");
            }
            _ => {}
        }
        if matches!(op, Op::Update | Op::Residual)
            && kind == "unscented"
            && shadow.updates_since_predict > 0
            && t.cu(7) == 0
        {
            // An unscented filter takes one reading per predict; see DESIGN.md for what happens
            // otherwise. A second one is dropped here unless this world asks for it.
            if restore_r {
                a.set_r(rr);
                b.set_r(rr);
                shadow.r = m2(&rr);
            }
            continue;
        }
        let is_update = matches!(op, Op::Update | Op::Residual);
        let u = Vector::new([e.n(0), e.n(1)]);
        let got: Option<Result<(), EstimationError>> = match op {
            Op::Predict => Some(a.predict(&f)),
            Op::Control => {
                if a.control(&f, &g, u) {
                    Some(Ok(()))
                } else {
                    Some(a.predict(&f))
                }
            }
            Op::Update => Some(a.update(&h, z)),
            Op::Residual => a.residual(&h, z),
            Op::None => None,
        };
        if h.fired.get() || f.fired.get() {
            cx.fault(if h.fired.get() { "measurement-model-not-finite" } else { "process-model-not-finite" });
            must_reject = true;
        }
        let Some(got) = got else {
            if restore_r {
                a.set_r(rr);
                b.set_r(rr);
                shadow.r = m2(&rr);
            }
            continue;
        };
        let (ax, ap) = (a.x(), a.p());
        cx.logs(ax.as_slice());
        cx.logs(&m2(&ap).d);
        cx.logu(u64::from(got.is_ok()));
        if must_reject {
            ensure!(
                got == Err(EstimationError::NonFinite),
                "{kind}: a value that is not finite was not rejected as such | {} gave {got:?}",
                e.k
            );
        }
        if let Err(err) = got {
            rejected += 1;
            cx.reach(match err {
                EstimationError::NonFinite => "rejected-not-finite",
                EstimationError::NotPositiveDefinite => "rejected-not-positive-definite",
                _ => "rejected-otherwise",
            });
            ensure!(
                all_same(ax.as_slice(), px.as_slice()),
                "{kind}: a rejected call moved the state | {} {err:?}: {px:?} became {ax:?}",
                e.k
            );
            ensure!(
                all_same(&m2(&ap).d, &m2(&pp).d),
                "{kind}: a rejected call moved the covariance | {} {err:?}: {pp:?} became {ap:?}",
                e.k
            );
        }
        match oracle {
            Oracle::Twin => {
                if got.is_ok() {
                    f.arm(f.bad_at.get(), f.bad_kind.get());
                    h.arm(h.bad_at.get(), h.bad_kind.get());
                    let other = match op {
                        Op::Predict => b.predict(&f),
                        Op::Control => {
                            if b.control(&f, &g, u) { Ok(()) } else { b.predict(&f) }
                        }
                        Op::Update => b.update(&h, z),
                        Op::Residual => b.residual(&h, z).unwrap_or(Ok(())),
                        Op::None => Ok(()),
                    };
                    ensure!(
                        other.is_ok(),
                        "{kind}: a call succeeds only after earlier rejected calls | {} {other:?}",
                        e.k
                    );
                }
                ensure!(
                    all_same(ax.as_slice(), b.x().as_slice()) && all_same(&m2(&ap).d, &m2(&b.p()).d),
                    "{kind}: a rejected call left a trace in a later estimate | at {}: with it {ax:?} without it {:?}",
                    e.k,
                    b.x()
                );
                if is_update && got.is_ok() {
                    ensure!(
                        all_same(a.y().as_slice(), b.y().as_slice()) && all_same(&m2(&a.s()).d, &m2(&b.s()).d),
                        "{kind}: a rejected call left a trace in a later innovation | at {}",
                        e.k
                    );
                }
            }
            Oracle::Textbook => {
                let xs = px.as_slice();
                let pm = m2(&pp);
                match op {
                    Op::Predict | Op::Control => {
                        let want: Option<(Mat, Mat, Option<Points>)> = if kind == "unscented" {
                            shadow
                                .unscented_predict(xs, &pm, &|x| f.eval_ref(x))
                                .map(|(x, p, pts)| (x, p, Some(pts)))
                        } else {
                            let j = f.jac_ref(xs);
                            let mut x = Mat::col(&f.eval_ref(xs));
                            if matches!(op, Op::Control) && kind == "linear" {
                                x = x.add(&m2(&g).mul(&v2(&u)));
                            }
                            Some((x, j.mul(&pm).mul(&j.t()).add(&shadow.q), None))
                        };
                        if got.is_ok() {
                            let Some((x, p, pts)) = want else {
                                return Err(format!("{kind}: predicted from a covariance that cannot be factorized | {pp:?}"));
                            };
                            ensure!(
                                all_close(ax.as_slice(), &x.d, tol, tol),
                                "{kind}: predicted state differs from the textbook step | got {ax:?} want {:?}",
                                x.d
                            );
                            ensure!(
                                all_close(&m2(&ap).d, &p.d, tol, 1e-12),
                                "{kind}: predicted covariance differs from the textbook step | got {ap:?} want {:?}",
                                p.d
                            );
                            shadow.points = pts;
                            shadow.updates_since_predict = 0;
                            ever_predicted = true;
                        } else if !must_reject && f.gain == 1.0 {
                            ensure!(
                                want.is_none() || !pm.clearly_pd(1e-9),
                                "{kind}: a sound predict was rejected | {got:?} from {pp:?}"
                            );
                        }
                    }
                    Op::Update | Op::Residual => {
                        let zs = z.as_slice();
                        let direct = matches!(op, Op::Residual);
                        if kind == "unscented" && !ever_predicted {
                            if got.is_ok() {
                                cx.reach("update-before-predict");
                                ensure!(
                                    all_close(ax.as_slice(), xs, 1e-6, 1e-6),
                                    "{kind}: an update before any predict moved the state | {px:?} became {ax:?}"
                                );
                            }
                        } else {
                            let want = if kind == "unscented" {
                                let arg = if direct { Err(zs) } else { Ok(zs) };
                                shadow.unscented_update(xs, &pm, &|x| h.eval_ref(x), arg, M)
                            } else {
                                let j = h.jac_ref(xs);
                                let y: Vec<f64> = if direct {
                                    zs.to_vec()
                                } else {
                                    zs.iter().zip(h.eval_ref(xs)).map(|(a, b)| a - b).collect()
                                };
                                kalman_update(&Mat::col(xs), &pm, &j, &shadow.r, &Mat::col(&y))
                                    .map(|(x, p, s)| (x, p, s, y))
                            };
                            let first = shadow.updates_since_predict == 0 || kind != "unscented";
                            if let (Ok(()), Some((x, p, s, y))) = (got, &want)
                                && s.finite()
                            {
                                let sound = s.is_covariance(1e-9);
                                ensure!(sound, "{kind}: folded in a reading whose expected spread is not positive definite | {s:?}");
                                // A nearly singular spread makes the gain itself ill-conditioned.
                                let well = s.clearly_pd(1e-5);
                                if well && first {
                                    ensure!(
                                        all_close(ax.as_slice(), &x.d, tol * 10.0, tol),
                                        "{kind}: updated state differs from the textbook step | got {ax:?} want {:?}",
                                        x.d
                                    );
                                    let scale = pm.max_abs();
                                    ensure!(
                                        all_close(&m2(&ap).d, &p.d, tol, tol * scale),
                                        "{kind}: updated covariance differs from the textbook step | got {ap:?} want {:?}",
                                        p.d
                                    );
                                    ensure!(
                                        all_close(a.y().as_slice(), y, tol, tol),
                                        "{kind}: reported innovation is wrong | got {:?} want {y:?}",
                                        a.y()
                                    );
                                    ensure!(
                                        all_close(&m2(&a.s()).d, &s.d, tol, tol * s.max_abs()),
                                        "{kind}: reported innovation covariance is wrong | got {:?} want {:?}",
                                        a.s(),
                                        s.d
                                    );
                                    if let Some(inv) = s.inv() {
                                        let yv = Mat::col(y);
                                        let nis = yv.t().mul(&inv).mul(&yv).at(0, 0);
                                        let have = a.nis();
                                        ensure!(
                                            have.is_ok_and(|v| close(v, nis, 1e-4, 1e-9)),
                                            "{kind}: normalized innovation is wrong | got {have:?} want {nis}"
                                        );
                                    }
                                }
                            }
                            if let (Err(_), Some((_, _, s, _))) = (got, &want)
                                && !must_reject
                            {
                                ensure!(
                                    !s.finite() || !s.clearly_pd(1e-6),
                                    "{kind}: a sound reading was rejected | {got:?} with spread {s:?}"
                                );
                            }
                        }
                        if got.is_ok() {
                            shadow.updates_since_predict += 1;
                        }
                    }
                    Op::None => {}
                }
                if got.is_ok() {
                    // The belief stays a belief: finite, symmetric, no negative variance.
                    ensure!(
                        ax.is_finite() && ap.is_finite(),
                        "{kind}: the estimate stopped being finite | after {} {ax:?} {ap:?}",
                        e.k
                    );
                    let sound_tol = if kind == "unscented" { 1e-5 } else { 1e-8 };
                    if !m2(&ap).is_covariance(sound_tol) && m2(&pp).is_covariance(sound_tol) && !restore_r {
                        ensure!(
                            !(kind == "unscented" && shadow.updates_since_predict > 1),
                            "unscented: a second reading folded in after one predict leaves a covariance that is not one | {ap:?}"
                        );
                        return Err(format!(
                            "{kind}: the covariance is no longer symmetric positive semidefinite | after {} {ap:?}",
                            e.k
                        ));
                    }
                }
            }
        }
        if oracle == Oracle::Twin && got.is_ok() {
            if is_update {
                shadow.updates_since_predict += 1;
            } else {
                shadow.updates_since_predict = 0;
            }
        }
        if restore_r {
            a.set_r(rr);
            b.set_r(rr);
            shadow.r = m2(&rr);
            if got.is_ok() {
                // Accepted with the odd noise: nothing is promised about the belief from here on.
                return Ok(());
            }
        }
        f.gain = 1.0;
        cx.state(&[N as i64, M as i64, rejected.min(5), (m2(&ap).trace().abs().ln() * 2.0) as i64]);
    }
    Ok(())
}

fn schedule(r: &mut Rng, kind: usize) -> Trace {
    let variant = r.below(6);
    let m = [1, 1, 2, 2, 3, 1][variant];
    let n = [1, 2, 3, 4, 2, 3][variant];
    let mseed = (r.u64() >> 12) as f64;
    let (mut alpha, mut beta, mut kappa, mut reg) = (0.0, 2.0, 0.0, 0.0);
    if kind == 2 && r.chance(0.7) {
        alpha = *r.pick(&[1e-3, 0.1, 0.5, 1.0]);
        beta = *r.pick(&[0.0, 2.0, 3.0]);
        kappa = *r.pick(&[0.0, 1.0, 3.0 - n as f64 * 0.5]);
        reg = *r.pick(&[0.0, 0.0, 1e-4, 1e-2]) * alpha * alpha;
    }
    let mut t = Trace {
        cfg: vec![variant as f64, mseed, r.below(2) as f64, alpha, beta, kappa, reg, 0.0],
        evs: Vec::new(),
    };
    // Swarm: each run turns on its own subset of faults.
    let calm = r.chance(0.15);
    let p: Vec<f64> = (0..10)
        .map(|_| if calm || r.chance(0.4) { 0.0 } else { r.range(0.02, 0.3) })
        .collect();
    let ticks = r.int(3, 40);
    let mut held: Vec<(usize, Vec<f64>)> = Vec::new();
    let reading = |r: &mut Rng| -> Vec<f64> { (0..m).map(|_| r.range(-2.0, 2.0)).collect() };
    for tick in 0..ticks {
        if r.chance(p[0]) {
            let k = r.int(1, 2 * n + 2) as f64;
            t.evs.push(ev("fbad", &[k, r.below(3) as f64]));
        }
        if kind == 2 && r.chance(p[1]) {
            let huge = *r.pick(&[1e160, 1e200, 1e306]);
            t.evs.push(ev("fhuge", &[huge]));
        }
        if r.chance(0.05) {
            t.evs.push(ev("setq", &[r.range(0.5, 2.0)]));
        }
        if r.chance(0.05) {
            t.evs.push(ev("setr", &[r.range(0.5, 2.0)]));
        }
        if r.chance(0.04) {
            let x: Vec<f64> = (0..n).map(|_| r.range(-1.0, 1.0)).collect();
            t.evs.push(ev("setx", &x));
        }
        if r.chance(0.05) {
            t.evs.push(ev("model", &[(r.u64() >> 12) as f64]));
        }
        match r.below(8) {
            0 => {}
            1 => t.evs.push(ev("control", &[r.range(-1.0, 1.0), r.range(-1.0, 1.0)])),
            _ => t.evs.push(ev("predict", &[])),
        }
        for due in std::mem::take(&mut held) {
            if due.0 <= tick {
                t.evs.push(ev("late", &due.1));
            } else {
                held.push(due);
            }
        }
        let z = reading(r);
        if r.chance(p[2]) {
            t.evs.push(ev("lost", &[]));
            continue;
        }
        if r.chance(p[3]) {
            held.push((tick + r.int(1, 4), z));
            continue;
        }
        if r.chance(p[4]) {
            let mut bad = z.clone();
            let at = r.below(m);
            bad[at] = r.broken();
            t.evs.push(ev(if r.chance(0.5) { "zbad" } else { "ybad" }, &bad));
        }
        if r.chance(p[5]) {
            let mut a = z.clone();
            a.push(r.int(1, 2 * n + 2) as f64);
            a.push(r.below(3) as f64);
            t.evs.push(ev("hbad", &a));
        }
        if r.chance(p[6]) {
            let mut a = z.clone();
            a.push(-r.log_range(0.1, 1e4));
            t.evs.push(ev("rbad", &a));
        }
        if r.chance(p[7]) {
            t.evs.push(ev("rinf", &z));
        }
        t.evs.push(ev(if r.chance(0.2) { "resid" } else { "read" }, &z));
        if r.chance(p[8]) {
            t.evs.push(ev("dup", &z));
        }
    }
    t
}

macro_rules! by_size {
    ($filter:ident, $t:expr, $cx:expr, $oracle:expr) => {
        match $t.cu(0) {
            0 => drive::<1, 1, $filter<1, 1>>($t, $cx, $oracle),
            1 => drive::<2, 1, $filter<2, 1>>($t, $cx, $oracle),
            2 => drive::<3, 2, $filter<3, 2>>($t, $cx, $oracle),
            3 => drive::<4, 2, $filter<4, 2>>($t, $cx, $oracle),
            4 => drive::<2, 3, $filter<2, 3>>($t, $cx, $oracle),
            _ => drive::<3, 1, $filter<3, 1>>($t, $cx, $oracle),
        }
    };
}

pub struct Linear(pub Oracle);
pub struct Extended(pub Oracle);
pub struct Unscented(pub Oracle);
/// The unscented filter given more than one reading between predicts.
pub struct UnscentedDuplicates;

macro_rules! world {
    ($ty:ident, $filter:ident, $kind:expr, $a:expr, $b:expr) => {
        impl World for $ty {
            fn name(&self) -> &'static str {
                if self.0 == Oracle::Twin { $a } else { $b }
            }
            fn generate(&self, r: &mut Rng) -> Trace {
                schedule(r, $kind)
            }
            fn run(&self, t: &Trace, cx: &mut Cx) -> R {
                by_size!($filter, t, cx, self.0)
            }
        }
    };
}
world!(Linear, KalmanFilter, 0, "kalman-linear-twin", "kalman-linear");
world!(Extended, ExtendedKalmanFilter, 1, "kalman-extended-twin", "kalman-extended");
world!(Unscented, UnscentedKalmanFilter, 2, "kalman-unscented-twin", "kalman-unscented");

impl World for UnscentedDuplicates {
    fn name(&self) -> &'static str {
        "kalman-unscented-duplicates"
    }
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = schedule(r, 2);
        t.cfg[7] = 1.0;
        t.evs.retain(|e| e.k != "setx");
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        by_size!(UnscentedKalmanFilter, t, cx, Oracle::Textbook)
    }
}
