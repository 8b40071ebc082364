//! Calls that take numbers and give numbers back, fed the worst numbers there are.
//!
//! A run is a list of calls with the numbers each is handed. A call may answer or refuse; it may
//! not panic, run on, or ask for memory.

#![allow(unused_must_use)]

use super::comps::say;
use super::hostile::worse;
use crate::alloc_count::allocations;
use crate::core::*;
use crate::ensure;
use multicalc::approximation::{LinearApproximator, QuadraticApproximator};
use multicalc::discretization::{q_discrete_white_noise, van_loan, zoh};
use multicalc::kinematics::{
    CollisionQuery, Joint, JacobianFrame, JointParent, KinematicTree, Primitive, Unicycle, BodyTwist,
};
use multicalc::linear_algebra::{Matrix, PivotedQr, Vector, solve_discrete_lyapunov, solve_discrete_riccati};
use multicalc::estimation::{BeamModel, GaussianLikelihood, InitialParticleCloud, MonteCarloLocalizer, ParticleFilter, ResamplingScheme};
use multicalc::mapping::{DynamicOccupancyGrid, MutableOccupancyMap, OccupancyMap, ScanGeometry};
use multicalc::motion::{BoundaryDerivatives, MinimumSnapPlanner, durations_from_average_speed};
use multicalc::numerical_derivative::{
    AutoDiffMulti, AutoDiffSingle, DerivatorMultiVariable, DerivatorSingleVariable, FiniteDifferenceMode,
    FiniteDifferenceMulti, FiniteDifferenceSingle, Hessian, Jacobian,
};
use multicalc::numerical_integration::{
    GaussianMulti, GaussianQuadratureMethod, GaussianSingle, IntegratorMultiVariable, IntegratorSingleVariable,
    IterativeMethod, IterativeMulti, IterativeSingle,
};
use multicalc::ode::{ExponentialMap, Rk4, Rk45};
use multicalc::polynomial::{MultivariatePolynomial, MultivariateTerm, PiecewisePolynomial, Polynomial};
use multicalc::root_finding::NewtonSystem;
use multicalc::scalar::{Dual, HyperDual, Jet, Numeric, ScalarFn, ScalarFnN, VectorFn};
use multicalc::spatial::{FreeJointState, Quaternion, SE2, SE3, SO2, SO3, SpatialInertia, Twist, Wrench};
use multicalc::vector_field::{
    curl_2d, curl_3d, divergence_2d, divergence_3d, flux_integral_2d_custom, flux_integral_3d_custom,
    line_integral_2d_custom, line_integral_3d_custom,
};
use std::hint::black_box;

/// The numbers of one call, handed out in turn, over and over.
struct Feed<'a> {
    a: &'a [f64],
    i: usize,
}

impl Feed<'_> {
    fn x(&mut self) -> f64 {
        let v = self.a.get(self.i % self.a.len().max(1)).copied().unwrap_or(0.0);
        self.i += 1;
        v
    }
    /// A number from 0 up to below `n`.
    fn n(&mut self, n: usize) -> usize {
        let v = self.x().abs();
        if v.is_finite() { ((v * 64.0) % n as f64) as usize } else { n - 1 }
    }
    fn flag(&mut self) -> bool {
        self.n(2) == 1
    }
    fn v<const N: usize>(&mut self) -> Vector<N> {
        Vector::from_fn(|_| self.x())
    }
    fn a<const N: usize>(&mut self) -> [f64; N] {
        std::array::from_fn(|_| self.x())
    }
    fn m<const ROWS: usize, const COLS: usize>(&mut self) -> Matrix<ROWS, COLS> {
        let mut m = Matrix::from_fn(|_, _| self.x());
        match self.n(5) {
            // Rows that repeat, and rows of nothing.
            0 => {
                for c in 0..COLS {
                    m[(ROWS - 1, c)] = m[(0, c)];
                }
            }
            1 => {
                for c in 0..COLS {
                    m[(ROWS / 2, c)] = 0.0;
                }
            }
            _ => {}
        }
        m
    }
    fn square<const N: usize>(&mut self) -> Matrix<N, N> {
        let m = self.m::<N, N>();
        match self.n(4) {
            0 => m * m.transpose(),
            1 => m.symmetrized(),
            _ => m,
        }
    }
    fn quaternion(&mut self) -> Quaternion<f64> {
        let q = Quaternion::from_array(self.a());
        if self.flag() { q.normalized() } else { q }
    }
    fn so3(&mut self) -> SO3<f64> {
        match self.n(3) {
            0 => SO3::from_quaternion(self.quaternion()),
            _ => SO3::exp(self.v()),
        }
    }
    fn se3(&mut self) -> SE3<f64> {
        let r = self.so3();
        SE3::from_parts(r, self.v())
    }
    fn se2(&mut self) -> SE2<f64> {
        let a = self.x();
        SE2::from_parts(SO2::from_angle(a), self.v())
    }
}

// ----- The functions handed in -----

struct One(f64);
impl ScalarFn for One {
    fn eval<S: Numeric>(&self, x: S) -> S {
        let k = S::from_f64(self.0);
        (x * k).sin() * x + (x * x + k).sqrt() + x.exp() / (x - k) + x.abs().log()
    }
}
impl ScalarFnN<3> for One {
    fn eval<S: Numeric>(&self, p: &[S; 3]) -> S {
        let k = S::from_f64(self.0);
        (p[0] * k).sin() * p[1] + (p[2] - k).abs().sqrt() + p[0] * p[1] / p[2] + p[1].atan2(p[2])
    }
}
impl VectorFn<3, 3> for One {
    fn eval<S: Numeric>(&self, p: &[S; 3]) -> [S; 3] {
        let k = S::from_f64(self.0);
        [p[0] * p[1] + k, (p[2] * k).exp() - p[0], p[1] / (p[2] + k)]
    }
}
impl VectorFn<2, 2> for One {
    fn eval<S: Numeric>(&self, p: &[S; 2]) -> [S; 2] {
        let k = S::from_f64(self.0);
        [p[0] * p[1] + k, (p[1] * k).tanh() - p[0]]
    }
}

type Call = fn(&mut Feed);

fn lu(f: &mut Feed) {
    let (m, b, k) = (f.square::<4>(), f.v::<4>(), f.m::<4, 2>());
    if let Ok(d) = m.lu_decompose() {
        black_box((d.lower(), d.upper(), d.permutation(), d.determinant(), d.solve(b), d.solve_matrix(k), d.inverse()));
    }
    let _ = black_box((m.solve(b), m.inverse(), m.determinant(), m.trace(), m.frobenius_norm(), m.is_symmetric()));
    let s = f.square::<1>();
    let _ = black_box((s.lu_decompose(), s.inverse()));
}
fn cholesky(f: &mut Feed) {
    let (m, b, k) = (f.square::<4>(), f.v::<4>(), f.m::<4, 2>());
    if let Ok(d) = m.cholesky() {
        black_box((d.lower(), d.determinant(), d.solve(b), d.solve_matrix(k), d.inverse()));
    }
}
fn qr(f: &mut Feed) {
    let (m, b) = (f.m::<5, 3>(), f.v::<5>());
    if let Ok(d) = PivotedQr::decompose(m) {
        let _ = black_box((d.triangular(), d.orthogonal(), d.permutation(), d.solve_least_squares(b)));
        let s = d.into_damped(b);
        let diag: [f64; 3] = f.a();
        let (x, c) = s.solve_with_diagonal(&diag);
        black_box((s.a_x_norm(&x), s.max_a_t_b_scaled(f.x()), s.is_non_singular(), c.solve(f.a())));
        let (x, c) = s.solve_with_zero_diagonal();
        black_box((x, c.solve(f.a())));
    }
    // Wider than tall.
    let _ = black_box(PivotedQr::decompose(f.m::<2, 4>()).map(|d| d.into_damped(f.v::<2>()).solve_with_zero_diagonal()));
}
fn svd(f: &mut Feed) {
    let (m, b) = (f.m::<4, 3>(), f.v::<4>());
    if let Ok(d) = m.svd() {
        black_box((d.singular_values(), d.left(), d.right(), d.rank(f.x()), d.condition_number()));
        black_box((d.pseudo_inverse_tol(f.x()), d.pseudo_inverse(), d.solve(b)));
    }
    let _ = black_box((f.m::<2, 3>().svd(), f.m::<3, 2>().pseudo_inverse()));
}
fn eigen(f: &mut Feed) {
    if let Ok(d) = f.square::<4>().symmetric_eigendecomposition() {
        black_box((d.eigenvalues(), d.eigenvectors(), d.determinant(), d.condition_number(), d.is_positive_definite(), d.clamped(f.x())));
    }
}
fn solvers(f: &mut Feed) {
    let _ = black_box(solve_discrete_lyapunov(f.square::<3>(), f.square::<3>()));
    let _ = black_box(solve_discrete_riccati(f.square::<3>(), f.m::<3, 2>(), f.square::<3>(), f.square::<2>()));
}
fn expm(f: &mut Feed) {
    let _ = black_box(f.square::<3>().expm());
    let _ = black_box(zoh::<2, 1, 3, f64>(f.square(), f.m(), f.x()));
    let _ = black_box(van_loan::<2, 4, f64>(f.square(), f.square(), f.x()));
    let (t, v) = (f.x(), f.x());
    black_box((q_discrete_white_noise::<2, f64>(t, v), q_discrete_white_noise::<3, f64>(t, v), q_discrete_white_noise::<4, f64>(t, v)));
}
fn vectors(f: &mut Feed) {
    let (a, b, c) = (f.v::<3>(), f.v::<3>(), f.v::<3>());
    black_box((a.dot(b), a.norm(), a.normalized(), a.try_normalized(), a.cross(b), a.scalar_triple(b, c), a.is_finite()));
    let mut d = a;
    d.normalize();
    let mut e = b;
    let _ = black_box((d, e.try_normalize(), e));
    let all: [f64; 9] = f.a();
    let n = f.n(12);
    let some = &all[..n.min(9)];
    black_box((Vector::<4>::try_from_slice(some), Matrix::<2, 3>::try_from_row_slice(some), a.get(n), f.m::<2, 3>().try_row(n), f.m::<2, 3>().try_column(n)));
    // A sound input by its rules: entries of a triangle, and too few or many of them.
    black_box(f.m::<3, 3>().get(n, n));
}
fn polynomials(f: &mut Feed) {
    let (p, q) = (Polynomial::<5>::new(f.a()), Polynomial::<3>::new(f.a()));
    let x = f.x();
    black_box((p.degree(), p.leading_coefficient(), p.is_zero(), p.evaluate(x), p.evaluate_with_derivatives::<7>(x)));
    black_box((p.derivative(), p.nth_derivative(f.n(9)), p.definite_integral(f.x(), f.x()), p.coefficient(f.n(9))));
    black_box((p.try_resize::<3>(), p.try_resize::<8>(), p.shift_argument(f.x()), p.scale_argument(f.x()), p.reverse()));
    let _ = black_box((p.multiply_into::<3, 7>(&q), p.multiply_into::<3, 5>(&q), p.compose_into::<3, 9>(&q), p.compose_into::<3, 6>(&q)));
    let _ = black_box((p.divide::<3, 3, 3>(&q), p.divide::<3, 5, 2>(&q), p.divide::<3, 1, 1>(&q)));
    let _ = black_box((q.divide::<5, 3, 3>(&p), Polynomial::<0>::zeros().degree()));
}
fn roots(f: &mut Feed) {
    let a: [f64; 5] = f.a();
    let _ = black_box((
        Polynomial::<2>::new([a[0], a[1]]).real_roots(),
        Polynomial::<3>::new([a[0], a[1], a[2]]).real_roots(),
        Polynomial::<4>::new([a[0], a[1], a[2], a[3]]).real_roots(),
    ));
    let p = Polynomial::<5>::new(a);
    let _ = black_box((p.real_roots(), p.cauchy_root_bound()));
    let p = if f.flag() { Polynomial::<5>::from_roots(&a[..f.n(7).min(5)]).unwrap_or(p) } else { p };
    let (lo, hi) = (f.x(), f.x());
    let most = [0, 1, 60, 200][f.n(4)];
    let _ = black_box((p.count_real_roots(lo, hi), p.real_roots_in(lo, hi, f.x(), most)));
    let _ = black_box(p.real_roots_in(-10.0, 10.0, 1e-9, most));
}
fn building(f: &mut Feed) {
    let (x, y): ([f64; 4], [f64; 4]) = (f.a(), f.a());
    let (x7, y7): ([f64; 7], [f64; 7]) = (f.a(), f.a());
    let _ = black_box((Polynomial::<4>::from_points(&x, &y), Polynomial::<3>::fit_least_squares(&x7, &y7), Polynomial::<4>::fit_least_squares(&x[..2].try_into().unwrap_or([0.0; 2]), &[y[0], y[1]])));
    let _ = black_box((Polynomial::<3>::from_roots(&x7), Polynomial::<6>::from_roots(&x), Polynomial::<6>::chebyshev_nodes(x[0], x[1])));
    let _ = black_box(Polynomial::<8>::from_endpoint_derivatives(&x, &y, f.x()));
    let _ = black_box(Polynomial::<4>::from_endpoint_derivatives(x[0], x[1], x[2], x[3], y[0]));
    let j: Jet<f64, 5> = Jet::variable(f.x());
    let out = ScalarFn::eval(&One(f.x()), j);
    let _ = black_box((Polynomial::<5>::from_jet(&out), Polynomial::<3>::from_jet(&out)));
}
fn piecewise(f: &mut Feed) {
    let pieces: [[Polynomial<4>; 2]; 4] = std::array::from_fn(|_| std::array::from_fn(|_| Polynomial::new(f.a())));
    let spans: [f64; 4] = std::array::from_fn(|_| if f.flag() { f.x().abs() } else { f.x() });
    let n = f.n(5);
    if let Ok(p) = PiecewisePolynomial::<3, 4, 2>::try_from_pieces(&pieces[..n.min(4)], &spans[..if f.n(8) == 0 { 2 } else { n.min(4) }]) {
        let _ = black_box((p.piece_count(), p.total_span(), p.span(f.n(6)), p.evaluate(f.x()), p.evaluate_with_derivatives::<6>(f.x())));
        let _ = black_box((p.definite_integral(f.x(), f.x()), p.derivative(), p.nth_derivative(f.n(7)), p.piece_polynomial(f.n(5), f.n(4)).is_some()));
    }
}
fn terms(f: &mut Feed) {
    let e = |f: &mut Feed| [0u32, 1, 2, 3, 7, 1000, u32::MAX / 2, u32::MAX - 1, u32::MAX][f.n(9)];
    let t: [MultivariateTerm<2, f64>; 4] = std::array::from_fn(|_| {
        let c = f.x();
        let (a, b) = if f.flag() { (e(f), e(f)) } else { (f.n(4) as u32, f.n(4) as u32) };
        MultivariateTerm::new(c, [a, b])
    });
    let at: [f64; 2] = f.a();
    if let Ok(mut p) = MultivariatePolynomial::<2, 6>::try_from_terms(&t[..f.n(6).min(4)]) {
        let _ = p.push(t[0]);
        black_box((p.evaluate(&at), p.gradient_at(&at), p.total_degree(), p.degree_in(f.n(4)), p.is_finite()));
        let v = f.n(4);
        let _ = black_box((p.partial_derivative(v), p.partial_antiderivative(v), p.substitute(v, f.x())));
        let _ = black_box((p.add_into::<6, 12>(&p), p.add_into::<6, 4>(&p), p.multiply_into::<6, 36>(&p), p.multiply_into::<6, 3>(&p)));
        p.collect_like_terms();
        black_box(p);
    }
    let _ = black_box(MultivariatePolynomial::<2, 2>::try_from_terms(&t));
    let one: [MultivariateTerm<1, f64>; 3] = std::array::from_fn(|_| MultivariateTerm::new(f.x(), [if f.flag() { e(f) } else { f.n(5) as u32 }]));
    if let Ok(p) = MultivariatePolynomial::<1, 4>::try_from_terms(&one) {
        let _ = black_box((p.to_univariate::<4>(), MultivariatePolynomial::<1, 3>::from_univariate(&Polynomial::<5>::new(f.a()))));
    }
}
fn snap(f: &mut Feed) {
    let way: [Vector<2>; 5] = std::array::from_fn(|_| f.v());
    let mut spans: [f64; 5] = std::array::from_fn(|_| if f.n(4) > 0 { f.x().abs() } else { f.x() });
    let edge = |f: &mut Feed| BoundaryDerivatives { velocity: f.v(), acceleration: f.v(), jerk: f.v() };
    let n = f.n(6).min(5);
    let m = if f.n(6) == 0 { f.n(6).min(5) } else { n.saturating_sub(1) };
    let _ = black_box(durations_from_average_speed(&way[..n], f.x(), &mut spans[..m]));
    let p = MinimumSnapPlanner::<4, 9, 2>::new().with_start(edge(f)).with_end(edge(f));
    let _ = black_box(p.plan(&way[..n], &spans[..m]).map(|c| (c.evaluate(f.x()), c.evaluate_with_derivatives::<5>(f.x()))));
    // Fewer free numbers than the path needs.
    let _ = black_box(MinimumSnapPlanner::<3, 4, 2>::new().plan(&way[..n], &spans[..m]));
}
fn integrals(f: &mut Feed) {
    let k = f.x();
    let fun = |x: f64| (x * k).sin() / (x - k);
    let lim = [[f.x(), f.x()], [f.x(), f.x()]];
    let count = [0u64, 1, 2, 3, 4, 7, 12, 17][f.n(8)];
    let how = [IterativeMethod::Booles, IterativeMethod::Simpsons, IterativeMethod::Trapezoidal][f.n(3)];
    let i = IterativeSingle::<f64>::from_parameters(count, how);
    let i = if f.flag() { i.with_kahan_summation() } else { i };
    let _ = black_box((i.single_integral(&fun, &lim[0]), i.double_integral(&fun, &lim)));
    let mut raw = i;
    raw.config.total_iterations = count;
    let _ = black_box(raw.single_integral(&fun, &lim[0]));
    let g = GaussianSingle::<f64>::from_parameters(
        [0, 1, 2, 5, 29, 30, 31, 1000, usize::MAX][f.n(9)],
        [GaussianQuadratureMethod::GaussLegendre, GaussianQuadratureMethod::GaussHermite, GaussianQuadratureMethod::GaussLaguerre][f.n(3)],
    );
    let _ = black_box((g.single_integral(&fun, &lim[0]), g.double_integral(&fun, &lim)));
    let line = |p: &[f64; 2]| (p[0] * k).sin() / (p[1] - k);
    let at: [f64; 2] = f.a();
    let idx = [f.n(3), f.n(3)];
    let m = IterativeMulti::<f64>::from_parameters(count.min(7), how);
    let _ = black_box((m.integrate([idx[0]], &line, &[lim[0]], &at), m.integrate(idx, &line, &lim, &at)));
    let g = GaussianMulti::<f64>::from_parameters([0, 2, 5, 31][f.n(4)], GaussianQuadratureMethod::GaussLegendre);
    let _ = black_box((g.integrate([idx[0]], &line, &[lim[0]], &at), g.integrate(idx, &line, &lim, &at)));
}
fn fields(f: &mut Feed) {
    let k = f.x();
    let (fx, fy) = (move |p: &[f64; 2]| p[1] * k, move |p: &[f64; 2]| p[0] / k);
    let (gx, gy) = (move |t: f64| t.cos() * k, move |t: f64| t.sin());
    let lim = [f.x(), f.x()];
    let n = [0u64, 1, 5, 20][f.n(4)];
    let _ = black_box((
        line_integral_2d_custom::<f64>(&[&fx, &fy], &[&gx, &gy], &lim, n),
        flux_integral_2d_custom::<f64>(&[&fx, &fy], &[&gx, &gy], &lim, n),
    ));
    let (hx, hy) = (move |p: &[f64; 3]| p[1] * k, move |p: &[f64; 3]| p[0] / p[2]);
    let _ = black_box((
        line_integral_3d_custom::<f64>(&[&hx, &hy, &hx], &[&gx, &gy, &gx], &lim, n),
        flux_integral_3d_custom::<f64>(&[&hx, &hy, &hx], &[&gx, &gy, &gx], &lim, n),
    ));
    let one = One(k);
    let _ = black_box((
        curl_3d(AutoDiffMulti::<f64>::new(), &one, &f.a::<3>()),
        divergence_3d(AutoDiffMulti::<f64>::new(), &one, &f.a::<3>()),
        curl_2d(FiniteDifferenceMulti::<f64>::default(), &one, &f.a::<2>()),
        divergence_2d(AutoDiffMulti::<f64>::new(), &one, &f.a::<2>()),
    ));
}
fn slopes(f: &mut Feed) {
    let one = One(f.x());
    let mode = [FiniteDifferenceMode::Forward, FiniteDifferenceMode::Backward, FiniteDifferenceMode::Central][f.n(3)];
    let s = FiniteDifferenceSingle::<f64>::from_parameters(f.x(), mode, f.x());
    let m = FiniteDifferenceMulti::<f64>::from_parameters(f.x(), mode, f.x());
    let (x, p): (f64, [f64; 3]) = (f.x(), f.a());
    let order = f.n(7);
    let idx = [f.n(4), f.n(4), f.n(5)];
    let _ = black_box((s.differentiate(order, &one, x), AutoDiffSingle::<f64>::new().differentiate(order, &one, x)));
    let _ = black_box((m.differentiate(&one, &idx, &p), AutoDiffMulti::<f64>::new().differentiate(&one, &idx, &p)));
    let _ = black_box((m.first_partial_derivative(&one, idx[0], &p), AutoDiffMulti::<f64>::new().second_partial_derivative(&one, &[idx[0], idx[1]], &p)));
    let _ = black_box((m.differentiate::<_, 3, 0>(&one, &[], &p), AutoDiffMulti::<f64>::new().differentiate::<_, 3, 0>(&one, &[], &p)));
    let _ = black_box((Hessian::new().evaluate(&one, &p), Hessian::from_derivator(m).evaluate(&one, &p)));
    let _ = black_box((Jacobian::new().evaluate::<_, 3, 3>(&one, &p), Jacobian::from_derivator(m).evaluate::<_, 3, 3>(&one, &p)));
    if let Ok(l) = LinearApproximator::new().approximate(&one, &p) {
        black_box((l.predict(&f.a()), l.prediction_metrics(&[f.a(), f.a()], &one), l.prediction_metrics::<_, 0>(&[], &one)));
    }
    if let Ok(l) = QuadraticApproximator::from_derivator(m).approximate(&one, &p) {
        black_box((l.predict(&f.a()), l.prediction_metrics(&[f.a(), f.a(), f.a()], &one)));
    }
    let _ = black_box(NewtonSystem::new().with_xtol(f.x()).with_ftol(f.x()).with_max_iterations(f.n(40)).with_backtracking(f.flag()).solve::<_, 3>(&one, &p));
}
fn scalars(f: &mut Feed) {
    fn all<S: Numeric>(x: S, y: S) -> S {
        let mut s = x.sin() + x.cos() + x.tan() + x.asin() + x.acos() + x.atan() + x.atan2(y) + x.sinh() + x.cosh() + x.tanh();
        s = s + x.exp() + x.log() + x.sqrt() + x.abs() + x.hypot(y) + x.max(y) + x.min(y) + x / y + x * y - x;
        s
    }
    let (x, y) = (f.x(), f.x());
    black_box((all(x, y), all(x as f32, y as f32)));
    black_box((all(Dual::variable(x), Dual::constant(y)), all(HyperDual::variable(x), HyperDual::constant(y))));
    black_box(all(Jet::<f64, 6>::variable(x), Jet::<f64, 6>::constant(y)));
}
fn turns(f: &mut Feed) {
    let (q, p) = (f.quaternion(), f.quaternion());
    let (v, w) = (f.v::<3>(), f.v::<3>());
    black_box((q.inverse(), q.normalized(), q.try_normalized(), q.exp(), q.log(), q.norm(), q * p));
    black_box((q.to_rotation_matrix(), q.to_axis_angle(), q.to_scaled_axis(), q.to_euler_zyx(), q.rotation_angle_to(p), q.slerp(p, f.x())));
    black_box((Quaternion::from_axis_angle(v, f.x()), Quaternion::from_scaled_axis(v), Quaternion::from_two_vectors(v, w), Quaternion::from_euler_zyx(f.x(), f.x(), f.x())));
    black_box((q.transform_point(v), q.inverse_transform_point(v), Quaternion::try_from_rotation_matrix(f.m::<3, 3>())));
    let (r, s) = (f.so3(), f.so3());
    black_box((r.compose(s), r.inverse(), r.act(v), r.log(), r.adjoint(), r.to_matrix(), r.interpolate(s, f.x()), r.normalized()));
    black_box((SO3::<f64>::try_from_matrix(f.m()), SO3::<f64>::from_two_direction_pairs(v, w, f.v(), f.v()), SO3::<f64>::try_from_quaternion(p), SO3::<f64>::vee(f.m())));
    black_box((SO3::<f64>::left_jacobian(v), SO3::<f64>::right_jacobian(v), SO3::<f64>::left_jacobian_inverse(v), SO3::<f64>::right_jacobian_inverse(v)));
    let (a, b) = (f.se2(), f.se2());
    black_box((a.compose(b), a.inverse(), a.log(), a.adjoint(), SE2::<f64>::exp(v), a.interpolate(b, f.x()), SE2::<f64>::try_from_matrix(f.m()), a.act(f.v())));
    black_box((SE2::<f64>::left_jacobian(v), SE2::<f64>::right_jacobian(v), SE2::<f64>::left_jacobian_inverse(v), SE2::<f64>::right_jacobian_inverse(v)));
    black_box((SO2::from_angle(f.x()).log(), SO2::<f64>::try_from_matrix(f.m()), SO2::from_angle(f.x()).interpolate(SO2::from_angle(f.x()), f.x()).normalized()));
}
fn motions(f: &mut Feed) {
    let (a, b, v) = (f.se3(), f.se3(), f.v::<6>());
    black_box((a.compose(b), a.inverse(), a.log(), a.adjoint(), a.force_adjoint(), SE3::<f64>::exp(v), a.interpolate(b, f.x()), SE3::<f64>::try_from_matrix(f.m())));
    black_box((SE3::<f64>::left_jacobian(v), SE3::<f64>::right_jacobian(v), SE3::<f64>::left_jacobian_inverse(v), SE3::<f64>::right_jacobian_inverse(v), SE3::<f64>::vee(f.m())));
    let (t, w) = (Twist::from_vector(f.v()), Wrench::from_vector(f.v()));
    black_box((t.cross(t), t.cross_wrench(w), t.dot_wrench(w), a.act_twist(t), a.act_wrench(w), a.inverse_act_twist(t), a.inverse_act_wrench(w)));
    let about = if f.flag() { f.square() } else { Matrix::from_diagonal(f.a()) };
    if let Ok(i) = SpatialInertia::new(f.x(), f.v(), about) {
        black_box((a.act_inertia(i), a.inverse_act_inertia(i), i.inertia_about(f.v()), i.momentum(t), i.bias_wrench(t), i.kinetic_energy(t), i.to_matrix(), i.combined(i)));
    }
    let _ = black_box(SpatialInertia::from_diagonal_inertia(f.x(), f.v(), f.v()));
    black_box(FreeJointState::<f64>::from_generalized_vectors(f.a(), f.a()).map(|s| (s.generalized_position(), s.generalized_velocity())));
}
fn arms(f: &mut Feed) {
    let mut tree = KinematicTree::<5, 12>::new();
    for i in 0..f.n(7) {
        let (axis, origin) = (f.v(), f.se3());
        let j = match f.n(6) {
            0 => Joint::prismatic(axis, origin),
            1 => Joint::fixed(origin),
            2 if i == 0 || f.flag() => Joint::floating(origin),
            3 => Joint::continuous(axis, origin),
            _ => Joint::revolute(axis, origin),
        };
        let j = j.with_anchor(f.v()).with_zero_offset(f.x()).with_limits(f.x(), f.x()).with_armature(f.x());
        let parent = if i == 0 { JointParent::World } else { JointParent::Joint(f.n(7)) };
        let _ = black_box(tree.push(j, parent));
    }
    let n = f.n(7);
    black_box((tree.len(), tree.config_offset(n), tree.velocity_offset(n), tree.config_len(), tree.velocity_len(), tree.joint(n), tree.parent(n)));
    let (q, p) = (f.v::<12>(), f.v::<12>());
    black_box(tree.configuration_distance(&q, &p));
    let frame = [JacobianFrame::World, JacobianFrame::Body][f.n(2)];
    let Ok(state) = tree.forward_kinematics(&q) else { return };
    black_box((state.pose(n), state.poses().len()));
    if let Ok(j) = tree.geometric_jacobian(&state, n, frame) {
        black_box((j.column(f.n(14)), j.tool_twist(&f.v()), j.columns()));
        let _ = black_box((j.smallest_singular_value(), j.classify_singularity(f.x())));
        let _ = black_box((j.damped_pseudo_inverse(&f.v(), f.x()), j.null_space_projector(&f.v(), f.x())));
    }
    let _ = black_box(tree.geometric_jacobian_at(&q, n, frame));
    let mut query = CollisionQuery::<3, 2, 2>::new();
    let shape = |f: &mut Feed| if f.flag() { Primitive::Sphere { radius: f.x() } } else { Primitive::Capsule { radius: f.x(), half_length: f.x() } };
    for _ in 0..f.n(5) {
        let _ = black_box((query.push_self_primitive(f.n(7), shape(f), f.se3()), query.push_environment_primitive(shape(f), f.se3()), query.exclude_pair(f.n(5), f.n(5))));
    }
    let _ = black_box(query.check(&state).map(|r| r.is_clear(f.x())));
    black_box(shape(f).distance_to(f.se3(), shape(f), f.se3()));
}
fn flows(f: &mut Feed) {
    let k = f.x();
    let field = |t: f64, y: &Vector<2>| Vector::new([y[1] * k + t, -y[0]]);
    let (t, y, h) = (f.x(), f.v::<2>(), f.x());
    let n = f.n(20);
    let _ = black_box(Rk4::step(&field, t, &y, h));
    let _ = black_box(Rk4::integrate(&field, t, &y, h, n, |_, _| {}));
    let s = Rk45::default().with_rtol(f.x()).with_atol(f.x()).with_first_step(f.x()).with_min_step(f.x()).with_max_step(f.x()).with_max_steps(n);
    let _ = black_box((s.solve(&field, t, &y, f.x()), s.for_each_step(&field, t, &y, f.x(), |st| { black_box(st.interpolate(0.5)); })));
    let r = f.so3();
    let rate = f.v::<3>();
    black_box((ExponentialMap::attitude_step(r, rate, h), ExponentialMap::attitude_step_with_angular_acceleration(r, rate, f.v(), h)));
    let _ = black_box(ExponentialMap::integrate_attitude(&|_, _| rate, t, r, h, n, |_, _| {}));
    black_box(Unicycle::new(BodyTwist::new(f.x(), f.x())).derivative(&f.v()));
    if let Ok(g) = ScanGeometry::<5>::try_new(f.x(), f.x()) {
        black_box((g.angle_increment(), g.beam_angle(f.n(9)), g.nearest_beam_index(f.x()), g.range_is_valid(f.x())));
        let _ = black_box(g.with_minimum_range(f.x()));
    }
    let _ = black_box((ScanGeometry::<1>::try_new(f.x(), f.x()).map(|g| g.nearest_beam_index(f.x())), ScanGeometry::<0>::try_new(f.x(), f.x()).map(|g| g.nearest_beam_index(f.x()))));
}

const CALLS: [(&str, Call); 21] = [
    ("lu", lu),
    ("cholesky", cholesky),
    ("qr", qr),
    ("svd", svd),
    ("eigen", eigen),
    ("solvers", solvers),
    ("expm", expm),
    ("vectors", vectors),
    ("polynomials", polynomials),
    ("roots", roots),
    ("building", building),
    ("piecewise", piecewise),
    ("terms", terms),
    ("snap", snap),
    ("integrals", integrals),
    ("fields", fields),
    ("slopes", slopes),
    ("scalars", scalars),
    ("turns", turns),
    ("motions", motions),
    ("arms", arms),
];
const MORE: [(&str, Call); 1] = [("flows", flows)];

fn call(k: &str) -> Option<(&'static str, Call)> {
    CALLS.iter().chain(&MORE).find(|c| c.0 == k).copied()
}

pub struct Calls;

impl World for Calls {
    fn name(&self) -> &'static str {
        "calls"
    }
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        let n = CALLS.len() + MORE.len();
        let (name, _) = *CALLS.iter().chain(&MORE).nth(r.below(n)).unwrap_or(&CALLS[0]);
        for _ in 0..r.int(1, 4) {
            let share = *r.pick(&[0.0, 0.03, 0.1, 0.3, 1.0]);
            let scale = *r.pick(&[1.0, 1.0, 1.0, 10.0, 1e-4, 1e6]);
            let len = r.int(20, 90);
            let a: Vec<f64> = (0..len)
                .map(|_| {
                    let v = match r.below(6) {
                        0 => 0.0,
                        1 => r.int(0, 6) as f64 - 3.0,
                        2 => r.unit(),
                        _ => r.normal() * scale,
                    };
                    if r.chance(share) { worse(r, v, true) } else { v }
                })
                .collect();
            t.evs.push(ev(name, &a));
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        for e in &t.evs {
            cx.step(e.k);
            if e.a.iter().any(|v| !v.is_finite()) {
                cx.fault("a number that is none");
            }
            if e.a.iter().any(|v| v.is_finite() && (v.abs() > 1e100 || (*v != 0.0 && v.abs() < 1e-100))) {
                cx.fault("a number at the edge of what a number can be");
            }
            let Some((name, f)) = call(e.k) else { continue };
            let before = allocations();
            f(&mut Feed { a: &e.a, i: 0 });
            ensure!(allocations() == before, "a call asked for memory | {name}");
            cx.reach(name);
        }
        Ok(())
    }
}

// ----- Clouds of particles, which ask for memory once and never again -----

struct Turn;
impl VectorFn<2, 2> for Turn {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 2] {
        let dt = S::from_f64(0.1);
        [x[0] + dt * x[1], x[1] - dt * x[0].sin()]
    }
}
struct Bearing;
impl VectorFn<2, 1> for Bearing {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 1] {
        [x[0].atan2(x[1])]
    }
}

/// cfg: how many, resampling, threshold, roughening
pub struct Steady;

impl World for Steady {
    fn name(&self) -> &'static str {
        "steady-clouds"
    }
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        t.cfg = vec![r.int(1, 60) as f64, r.below(4) as f64, *r.pick(&[0.0, 0.5, 0.9, 1.0]), *r.pick(&[0.0, 0.05, 0.3])];
        let share = *r.pick(&[0.0, 0.02, 0.1]);
        for _ in 0..r.int(5, 40) {
            let k = *r.pick(&["predict", "update", "score", "resample", "noise", "drive", "scan", "map"]);
            let a: Vec<f64> = (0..8)
                .map(|_| {
                    let v = r.normal() * 0.5;
                    if r.chance(share) { worse(r, v, true) } else { v }
                })
                .collect();
            t.evs.push(ev(k, &a));
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        let n = (t.c(0) as usize).clamp(1, 60);
        let scheme = [ResamplingScheme::Systematic, ResamplingScheme::Stratified, ResamplingScheme::Multinomial, ResamplingScheme::Residual]
            [(t.c(1) as usize) % 4];
        let eye = |s: f64| Matrix::<2, 2>::identity().scale(s);
        let mut cloud = say(ParticleFilter::<2, 1>::new(n, Vector::new([0.3, 0.1]), eye(0.5), eye(0.01), 7))?
            .with_resampling(scheme)
            .with_resample_threshold(t.c(2))
            .with_roughening(t.c(3));
        let likely = say(GaussianLikelihood::new(Matrix::new([[0.1]])))?;
        let start = InitialParticleCloud { particle_count: n, position_variance: 0.2, heading_variance: 0.1 };
        let mut here = say(MonteCarloLocalizer::<4>::new([1.0, 1.0, 0.0], start, BeamModel::default(), 11))?;
        let mut map = say(DynamicOccupancyGrid::<f64>::try_new(20, 16, 0.25, [0.0, 0.0]))?;
        map.occupy_polyline(&[[0.1, 0.1], [4.9, 0.1], [4.9, 3.9], [0.1, 3.9]], true);
        let beams = say(ScanGeometry::<4>::try_new(4.0, 6.0))?;
        for e in &t.evs {
            cx.step(e.k);
            if e.a.iter().any(|v| !v.is_finite()) {
                cx.fault("a number that is none");
            }
            let before = allocations();
            match e.k {
                "predict" => {
                    black_box(cloud.predict(&Turn));
                }
                "update" => {
                    black_box(cloud.update(&Bearing, &likely, Vector::new([e.n(0)])));
                }
                "score" => {
                    black_box(cloud.update_with_log_weights(|x| -(x[0] * e.n(0)).powi(2)));
                }
                "resample" => cloud.resample(),
                "noise" => {
                    black_box((cloud.set_process_noise(eye(e.n(0).abs())), here.set_motion_noise([e.n(1).abs(), e.n(2).abs(), e.n(3).abs()])));
                }
                "drive" => {
                    black_box(here.predict(e.n(0), e.n(1)));
                }
                "scan" => {
                    let r: [f64; 4] = std::array::from_fn(|i| e.n(i).abs() * 4.0);
                    black_box(here.update(&r, &map, &beams));
                }
                "map" => {
                    map.clear();
                    map.occupy_polyline(&[[e.n(0), e.n(1)], [e.n(2), e.n(3)], [e.n(5), e.n(6)]], e.n(7) > 0.0);
                    map.occupy_circle([e.n(0), e.n(1)], e.n(4));
                    black_box(map.cast_ray([e.n(0), e.n(1)], e.n(7), 5.0));
                }
                _ => {}
            }
            black_box((cloud.mean(), cloud.maximum_a_posteriori_state(), cloud.effective_sample_size(), here.estimate(), here.is_converged(0.1, 0.1)));
            ensure!(allocations() == before, "a step of a running filter asked for memory | {}", e.k);
        }
        Ok(())
    }
}

// ----- Model files nested deeper than any stack -----

/// A file of `depth` things, each inside the last.
fn nested(kind: usize, depth: usize, branch: usize, closed: bool) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    let inertia = "<inertial pos=\"0 0 0\" mass=\"1\" diaginertia=\"1 1 1\"/>";
    match kind {
        0 => {
            s.push_str("<mujoco><worldbody>");
            for i in 0..depth {
                let _ = write!(s, "<body name=\"b{i}\">{inertia}");
                if branch > 0 && i % branch == 0 {
                    let _ = write!(s, "<body name=\"c{i}\">{inertia}</body>");
                }
            }
            for _ in 0..if closed { depth } else { depth / 2 } {
                s.push_str("</body>");
            }
            s.push_str("</worldbody></mujoco>");
        }
        1 => {
            s.push_str("<mujoco><default>");
            for i in 0..depth {
                let _ = write!(s, "<default class=\"d{i}\"><joint armature=\"{}\"/>", 1 + i % 7);
            }
            for _ in 0..if closed { depth } else { depth / 2 } {
                s.push_str("</default>");
            }
            let _ = write!(s, "</default><worldbody><body name=\"a\">{inertia}<joint class=\"d{}\"/></body></worldbody></mujoco>", depth.saturating_sub(1));
        }
        _ => {
            s.push_str("<robot name=\"r\">");
            for i in 0..depth {
                let _ = write!(s, "<link name=\"l{i}\"/>");
            }
            for i in 1..depth {
                let _ = write!(s, "<joint name=\"j{i}\" type=\"fixed\"><parent link=\"l{}\"/><child link=\"l{i}\"/></joint>", i - 1);
            }
            if !closed {
                s.push_str("<joint name=\"j\" type=\"fixed\"><parent link=\"l1\"/><child link=\"l0\"/></joint>");
            }
            s.push_str("</robot>");
        }
    }
    s
}

/// One event: what is nested, how deep, a side branch every so many, and whether the file is whole.
pub struct Nested;

impl World for Nested {
    fn name(&self) -> &'static str {
        "nested-files"
    }
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        let depth = r.log_range(1.0, 6000.0).floor();
        t.evs.push(ev("file", &[r.below(3) as f64, depth, r.below(4) as f64, f64::from(r.chance(0.8))]));
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        for e in &t.evs {
            cx.step(e.k);
            let (kind, depth, branch, closed) = (e.n(0) as usize % 3, (e.n(1) as usize).min(20000), e.n(2) as usize, e.n(3) == 1.0);
            let text = nested(kind, depth, branch, closed);
            if depth > 1000 {
                cx.fault("a file nested thousands deep");
            }
            // Read on a stack far smaller than a thread is given.
            let got = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(512 << 10)
                    .spawn_scoped(s, || match kind {
                        2 => multicalc_robot_model::urdf::load_str(&text).map(|m| m.body_count()).map_err(|e| e.to_string()),
                        _ => multicalc_robot_model::mjcf::load_str(&text).map(|m| m.body_count()).map_err(|e| e.to_string()),
                    })
                    .map_err(|e| e.to_string())?
                    .join()
                    .map_err(|_| "panic".to_owned())
            });
            let got = got?;
            if depth < 2 {
                continue;
            }
            if !closed {
                ensure!(got.is_err(), "a file that is not whole was read | kind {kind} depth {depth}");
                continue;
            }
            let sides = if kind == 0 && branch > 0 { depth.div_ceil(branch) } else { 0 };
            let want = if kind == 1 { 1 } else { depth + sides };
            match got {
                Ok(n) => {
                    cx.reach("read");
                    ensure!(n == want, "a nested file lost some of its bodies | kind {kind} depth {depth} branch {branch}: {n} instead of {want}");
                }
                Err(m) => return Err(format!("a whole file was refused | kind {kind} depth {depth} branch {branch}: {m}")),
            }
        }
        Ok(())
    }
}
