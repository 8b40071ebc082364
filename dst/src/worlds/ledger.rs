//! One matrix kept through a long history of edits and faults, asked for its factors, its
//! determinant, its inverse, its solutions and its directions all along the way.

use crate::core::*;
use crate::ensure;
use crate::refs::*;
use multicalc::error::LinalgError;
use multicalc::linear_algebra::{Matrix, PivotedQr, Vector};
use multicalc::scalar::Numeric;

pub struct Ledger;

pub(crate) trait Width: Numeric {
    fn of(v: f64) -> Self;
    fn f(self) -> f64;
    const EPS: f64;
    /// The sizes within which products of four entries are held in full.
    const LOW: f64;
    const HIGH: f64;
    /// The sizes within which squares of entries are held.
    const FAR: f64;
}
impl Width for f64 {
    fn of(v: f64) -> f64 {
        v
    }
    fn f(self) -> f64 {
        self
    }
    const EPS: f64 = f64::EPSILON;
    const LOW: f64 = 1e-40;
    const HIGH: f64 = 1e40;
    const FAR: f64 = 1e130;
}
impl Width for f32 {
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    const EPS: f64 = f32::EPSILON as f64;
    const LOW: f64 = 1e-4;
    const HIGH: f64 = 1e4;
    const FAR: f64 = 1e16;
}

fn given<const M: usize, const N: usize, T: Width>(a: &Mat) -> Matrix<M, N, T> {
    Matrix::from_fn(|i, j| T::of(a.at(i, j)))
}
fn back<const M: usize, const N: usize, T: Width>(a: &Matrix<M, N, T>) -> Mat {
    Mat::from_fn(M, N, |i, j| a[(i, j)].f())
}
fn arrow<const N: usize, T: Width>(v: &[f64]) -> Vector<N, T> {
    Vector::from_fn(|i| T::of(v[i % v.len().max(1)]))
}
fn list<const N: usize, T: Width>(v: &Vector<N, T>) -> Vec<f64> {
    (0..N).map(|i| v[i].f()).collect()
}
fn bare(a: &Mat) -> Mat {
    Mat::from_fn(a.r, a.c, |i, j| a.at(i, j).abs())
}
fn length(v: &[f64]) -> f64 {
    let top = v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    if top == 0.0 || !top.is_finite() { top } else { top * v.iter().map(|x| (x / top) * (x / top)).sum::<f64>().sqrt() }
}
fn column(a: &Mat, j: usize) -> Vec<f64> {
    (0..a.r).map(|i| a.at(i, j)).collect()
}
fn times(a: &Mat, v: &[f64]) -> Vec<f64> {
    (0..a.r).map(|i| (0..a.c).map(|j| a.at(i, j) * v[j]).sum()).collect()
}
/// How far the columns are from being a set of unit directions square to one another.
fn skewed(q: &Mat, columns: usize) -> f64 {
    let mut worst = 0.0f64;
    for i in 0..columns {
        for j in 0..columns {
            let got: f64 = (0..q.r).map(|k| q.at(k, i) * q.at(k, j)).sum();
            let off = (got - (i == j) as u8 as f64).abs();
            worst = if off.is_nan() { f64::INFINITY } else { worst.max(off) };
        }
    }
    worst
}
fn shown(a: &Mat) -> String {
    format!("{}x{} {:?}", a.r, a.c, a.d)
}

/// The determinant and the sum of the sizes of its terms, term by term.
fn terms(a: &Mat, rows: &mut Vec<usize>, from: usize) -> (f64, f64) {
    let n = a.r;
    if from == n {
        return (1.0, 1.0);
    }
    let (mut sum, mut lost, mut size) = (0.0f64, 0.0f64, 0.0);
    for k in from..n {
        let entry = a.at(rows[k], from);
        rows[from..=k].rotate_right(1);
        let (part, weight) = terms(a, rows, from + 1);
        rows[from..=k].rotate_left(1);
        let sign = if (k - from) % 2 == 0 { 1.0 } else { -1.0 };
        let t = sign * entry * part;
        let next = sum + t;
        lost += if sum.abs() >= t.abs() { (sum - next) + t } else { (t - next) + sum };
        sum = next;
        size += entry.abs() * weight;
    }
    (sum + lost, size)
}
fn determinant(a: &Mat) -> (f64, f64) {
    terms(a, &mut (0..a.r).collect(), 0)
}

/// Singular values, largest first, good to rounding of the largest.
fn spread(a: &Mat) -> Vec<f64> {
    let tall = if a.r >= a.c { a.clone() } else { a.t() };
    let top = tall.max_abs();
    if top == 0.0 {
        return vec![0.0; tall.c];
    }
    let tall = tall.scale(1.0 / top);
    // One-sided turns, each pair measured afresh.
    let mut w = tall.clone();
    for _ in 0..80 {
        let mut still = true;
        for p in 0..w.c {
            for q in p + 1..w.c {
                let (x, y) = (column(&w, p), column(&w, q));
                let (nx, ny) = (length(&x), length(&y));
                let between: f64 = x.iter().zip(&y).map(|(a, b)| a * b).sum();
                if nx < 1e-30 || ny < 1e-30 || between.abs() <= 1e-16 * nx * ny {
                    continue;
                }
                still = false;
                let turn = 0.5 * (2.0 * between).atan2(nx * nx - ny * ny);
                let (s, c) = turn.sin_cos();
                for i in 0..w.r {
                    w.set(i, p, c * x[i] + s * y[i]);
                    w.set(i, q, c * y[i] - s * x[i]);
                }
            }
        }
        if still {
            break;
        }
    }
    let mut s: Vec<f64> = (0..w.c).map(|j| top * length(&column(&w, j))).collect();
    s.sort_by(|a, b| b.total_cmp(a));
    s
}

fn lu<const N: usize, T: Width>(a: &Mat, b: &[f64], cx: &mut Cx) -> R {
    let m: Matrix<N, N, T> = given(a);
    let rhs: Vector<N, T> = arrow(b);
    let top = a.max_abs();
    let eps = T::EPS;
    let n = N as f64;
    let sunk = sunk::<T>(N, top);
    if a.d.iter().any(|v| v.is_nan()) {
        if let Ok(x) = m.solve(rhs) {
            ensure!(!x.is_finite(), "an entry that is no number gave a solution | {:?} of {}", list(&x), shown(a));
        }
        if let Ok(x) = m.inverse() {
            ensure!(!x.is_finite(), "an entry that is no number gave an inverse | {} of {}", shown(&back(&x)), shown(a));
        }
        let d = m.determinant().f();
        ensure!(!d.is_finite() || d == 0.0, "an entry that is no number gave a determinant | {d:e} of {}", shown(a));
        cx.reach("no number in");
        return Ok(());
    }
    if !a.finite() {
        return Ok(());
    }
    let blank = (0..N).any(|i| (0..N).all(|j| a.at(i, j) == 0.0) || (0..N).all(|j| a.at(j, i) == 0.0));
    let solved = m.solve(rhs);
    match m.lu_decompose() {
        Err(e) => {
            ensure!(matches!(e, LinalgError::Singular | LinalgError::IllConditioned), "a square matrix is refused for the wrong reason | {e:?} of {}", shown(a));
            ensure!(!blank || e == LinalgError::Singular, "a row or column of nothing is called {e:?} | {}", shown(a));
            ensure!(solved.err() == Some(e), "solving and factoring disagree about a matrix | {solved:?} against {e:?} of {}", shown(a));
            // A pivot that small means some direction is nearly lost.
            let s = spread(a);
            let allowed = 2f64.powi(N as i32 - 1) * 4.0 * n * n * n * eps * top;
            ensure!(s[N - 1] <= allowed, "a sound matrix is refused | {e:?} least stretch {:e} of {}", s[N - 1], shown(a));
            cx.reach("factors refused");
        }
        Ok(f) => {
            ensure!(!blank, "a row or column of nothing was factored | {}", shown(a));
            let (l, u, p) = (back(&f.lower()), back(&f.upper()), f.permutation());
            let mut all = p.to_vec();
            all.sort();
            ensure!(all == (0..N).collect::<Vec<_>>(), "the row order is not one | {p:?} of {}", shown(a));
            for i in 0..N {
                for j in 0..N {
                    let sound = match i.cmp(&j) {
                        std::cmp::Ordering::Equal => l.at(i, i) == 1.0,
                        std::cmp::Ordering::Less => l.at(i, j) == 0.0,
                        _ => l.at(i, j).abs() <= 1.0 && u.at(i, j) == 0.0,
                    };
                    ensure!(sound, "a factor has the wrong shape | L {} U {} of {}", shown(&l), shown(&u), shown(a));
                }
            }
            let least = (0..N).map(|i| u.at(i, i).abs()).fold(f64::INFINITY, f64::min);
            ensure!(least > eps * top * (1.0 - 1e-6), "a pivot too small to trust was let through | {least:e} of {}", shown(a));
            let (product, weight) = (l.mul(&u), bare(&l).mul(&bare(&u)));
            for i in 0..N {
                for j in 0..N {
                    let off = (product.at(i, j) - a.at(p[i], j)).abs();
                    ensure!(off <= 4.0 * n * eps * weight.at(i, j), "the factors do not multiply back | row {i} column {j} off {off:e} of {}", shown(a));
                }
            }
            // The same order of rows as the matrix is weighed in.
            let mut unmixed = Mat::zeros(N, N);
            for i in 0..N {
                for j in 0..N {
                    unmixed.set(p[i], j, weight.at(i, j));
                }
            }
            let x = f.solve(rhs);
            ensure!(matches!(&solved, Ok(y) if all_same(&list(y), &list(&x))), "solving at once and by factors differ | {solved:?} against {x:?} of {}", shown(a));
            let judge = |x: &[f64], b: &dyn Fn(usize) -> f64, what: &str| -> R {
                for i in 0..N {
                    let got: f64 = (0..N).map(|j| a.at(i, j) * x[j]).sum();
                    let size: f64 = (0..N).map(|j| unmixed.at(i, j) * x[j].abs()).sum();
                    ensure!((got - b(i)).abs() <= 8.0 * n * eps * size + 4.0 * eps * b(i).abs(), "{what} does not solve what it was asked | row {i} {got:e} want {:e} x {x:?} of {}", b(i), shown(a));
                }
                Ok(())
            };
            judge(&list(&x), &|i| rhs[i].f(), "a solution")?;
            let block: Matrix<N, 3, T> = Matrix::from_fn(|i, k| T::of(b[(i * 3 + k + 1) % b.len()]));
            let many = back(&f.solve_matrix(block));
            for k in 0..3 {
                judge(&column(&many, k), &|i| block[(i, k)].f(), "a column of solutions")?;
            }
            let inverse = back(&f.inverse());
            for k in 0..N {
                judge(&column(&inverse, k), &|i| (i == k) as u8 as f64, "a column of the inverse")?;
            }
            let (want, _) = determinant(a);
            let (_, size) = determinant(&Mat::from_fn(N, N, |i, j| unmixed.at(i, j).max(a.at(i, j).abs())));
            let got = f.determinant().f();
            ensure!((got - want).abs() <= 4.0 * n * n * eps * size + sunk, "the factors' determinant is wrong | {got:e} want {want:e} of {}", shown(a));
            cx.reach("factors");
        }
    }
    Ok(())
}

/// What a product of as many entries can lose by sinking below the smallest number.
fn sunk<T: Width>(n: usize, top: f64) -> f64 {
    8.0 * T::MIN_POSITIVE.f() * (2f64.powi(n as i32) * top.max(1.0)).powi(n as i32 - 1)
}

/// Determinant and inverse as the matrix itself gives them.
fn direct<const N: usize, T: Width>(a: &Mat, cx: &mut Cx) -> R {
    let m: Matrix<N, N, T> = given(a);
    let (n, eps) = (N as f64, T::EPS);
    let (want, size) = determinant(a);
    let got = m.determinant().f();
    let inverse = m.inverse();
    if N <= 4 {
        let slack = 8.0 * n * eps * size + sunk::<T>(N, a.max_abs());
        ensure!((got - want).abs() <= slack, "a determinant is wrong | {got:e} want {want:e} of {}", shown(a));
        let bar = eps * n * a.max_abs().powi(N as i32);
        match inverse {
            Err(e) => {
                ensure!(e == LinalgError::Singular, "a small matrix is refused for the wrong reason | {e:?} of {}", shown(a));
                ensure!(want.abs() <= bar * 1.001 + slack, "a matrix with an inverse is refused one | determinant {want:e} of {}", shown(a));
                cx.reach("inverse refused");
            }
            Ok(x) => {
                ensure!(want.abs() >= bar * 0.999 - slack, "a matrix as good as singular was inverted | determinant {want:e} of {}", shown(a));
                if want.abs() > 4.0 * slack {
                    for i in 0..N {
                        for j in 0..N {
                            let minor = Mat::from_fn(N - 1, N - 1, |r, c| a.at(r + (r >= j) as usize, c + (c >= i) as usize));
                            let (part, weight) = determinant(&minor);
                            let sign = if (i + j) % 2 == 0 { 1.0 } else { -1.0 };
                            let right = sign * part / want;
                            let allowed = 2.0 * (right.abs() * slack + 8.0 * n * eps * weight) / want.abs();
                            ensure!((x[(i, j)].f() - right).abs() <= allowed, "an inverse's entry is wrong | ({i},{j}) {:e} want {right:e} of {}", x[(i, j)].f(), shown(a));
                        }
                    }
                    cx.reach("inverse by its minors");
                }
            }
        }
    } else {
        match (m.lu_decompose(), inverse) {
            (Err(e), Err(g)) => ensure!(e == g, "inverse and factors refuse differently | {g:?} against {e:?} of {}", shown(a)),
            (Ok(f), Ok(x)) => {
                let (l, u, p) = (back(&f.lower()), back(&f.upper()), f.permutation());
                let weight = bare(&l).mul(&bare(&u));
                for k in 0..N {
                    for i in 0..N {
                        let row = p.iter().position(|r| *r == i).unwrap_or(0);
                        let back: f64 = (0..N).map(|j| a.at(i, j) * x[(j, k)].f()).sum();
                        let size: f64 = (0..N).map(|j| weight.at(row, j) * x[(j, k)].f().abs()).sum();
                        let want = (i == k) as u8 as f64;
                        ensure!((back - want).abs() <= 8.0 * n * eps * size + 4.0 * eps, "an inverse does not undo its matrix | ({i},{k}) {back:e} of {}", shown(a));
                    }
                }
                cx.reach("inverse by factors");
            }
            (f, x) => return Err(format!("inverse and factors disagree about a matrix | {:?} against {:?} of {}", x.is_ok(), f.is_ok(), shown(a))),
        }
        // Rows picked largest first can grow the entries at most twofold a step.
        let (_, size) = determinant(&Mat::from_fn(N, N, |_, j| column(a, j).iter().fold(0.0, |m: f64, v| m.max(v.abs()))));
        ensure!((got - want).abs() <= 2f64.powi(N as i32) * n * n * eps * size + sunk::<T>(N, a.max_abs()), "a large determinant is wrong | {got:e} want {want:e} of {}", shown(a));
        if let Ok(f) = m.lu_decompose() {
            let other = f.determinant().f();
            ensure!(close(got, other, 1e-3_f64.min(1e3 * eps), sunk::<T>(N, a.max_abs())), "a determinant and its factors' differ | {got:e} {other:e} of {}", shown(a));
        }
    }
    Ok(())
}

fn cholesky<const N: usize, T: Width>(a: &Mat, b: &[f64], cx: &mut Cx) -> R {
    let (n, eps) = (N as f64, T::EPS);
    let m: Matrix<N, N, T> = given(a);
    let lower = Mat::from_fn(N, N, |i, j| a.at(i.max(j), i.min(j)));
    let got = m.cholesky();
    // What stands above the diagonal is never read.
    let littered: Matrix<N, N, T> = Matrix::from_fn(|i, j| if j > i { T::NAN } else { m[(i, j)] });
    match (&got, littered.cholesky()) {
        (Err(_), Err(_)) => {}
        (Ok(x), Ok(y)) => ensure!(all_same(&back(&x.lower()).d, &back(&y.lower()).d), "a factor depends on what stands above the diagonal | {}", shown(a)),
        (x, y) => return Err(format!("the verdict depends on what stands above the diagonal | {:?} {:?} {}", x.is_ok(), y.is_ok(), shown(a))),
    }
    if let Err(e) = &got {
        ensure!(*e == LinalgError::NotPositiveDefinite, "a factor is refused for the wrong reason | {e:?} of {}", shown(a));
    }
    if lower.d.iter().any(|v| v.is_nan()) {
        ensure!(got.is_err(), "an entry that is no number was factored | {}", shown(a));
        return Ok(());
    }
    if !lower.finite() {
        return Ok(());
    }
    let diagonal: Vec<f64> = (0..N).map(|i| lower.at(i, i)).collect();
    if diagonal.iter().any(|d| *d <= 0.0) {
        ensure!(got.is_err(), "a matrix with a diagonal entry not above nothing was factored | {}", shown(a));
        cx.reach("diagonal not above nothing");
        return Ok(());
    }
    let scaled = Mat::from_fn(N, N, |i, j| lower.at(i, j) / diagonal[i].sqrt() / diagonal[j].sqrt());
    let least = eigen(&scaled).0.into_iter().fold(f64::INFINITY, f64::min);
    let grey = 4.0 * n * (n + 1.0) * eps;
    match got {
        Err(_) => {
            ensure!(least <= grey, "a positive definite matrix is refused | least {least:e} of {}", shown(a));
            cx.reach("not positive definite");
        }
        Ok(f) => {
            ensure!(least >= -grey * (1.0 + scaled.max_abs()), "a matrix that is not positive definite was factored | least {least:e} of {}", shown(a));
            let l = back(&f.lower());
            for i in 0..N {
                for j in 0..N {
                    ensure!(if i == j { l.at(i, i) > 0.0 } else { j < i || l.at(i, j) == 0.0 }, "a factor has the wrong shape | {} of {}", shown(&l), shown(a));
                    let product: f64 = (0..N).map(|k| l.at(i, k) * l.at(j, k)).sum();
                    let size = (diagonal[i] * diagonal[j]).sqrt();
                    ensure!((product - lower.at(i, j)).abs() <= 4.0 * n * eps * size, "a factor does not multiply back | ({i},{j}) {product:e} want {:e} of {}", lower.at(i, j), shown(a));
                }
            }
            let want: f64 = (0..N).map(|i| l.at(i, i) * l.at(i, i)).product();
            let (over, under) = (0..N).fold((1.0, 1.0), |(o, u): (f64, f64), i| (o * l.at(i, i).powi(2).max(1.0), u * l.at(i, i).powi(2).min(1.0)));
            let held = over < T::MAX.f() * 0.1 && under > 1e3 * T::MIN_POSITIVE.f();
            ensure!(close(f.determinant().f(), want, 4.0 * n * eps, 0.0) || !held, "a factor's determinant is not its diagonal squared | {:e} want {want:e} of {}", f.determinant().f(), shown(a));
            let judge = |x: &[f64], b: &dyn Fn(usize) -> f64, what: &str| -> R {
                for i in 0..N {
                    let got: f64 = (0..N).map(|j| lower.at(i, j) * x[j]).sum();
                    let size: f64 = (0..N).map(|j| (diagonal[i] * diagonal[j]).sqrt() * x[j].abs()).sum();
                    ensure!((got - b(i)).abs() <= 16.0 * n * n * eps * size + 4.0 * eps * b(i).abs(), "{what} does not solve what it was asked, by the symmetric factor | row {i} {got:e} want {:e} of {}", b(i), shown(a));
                }
                Ok(())
            };
            let rhs: Vector<N, T> = arrow(b);
            judge(&list(&f.solve(rhs)), &|i| rhs[i].f(), "a solution")?;
            let block: Matrix<N, 3, T> = Matrix::from_fn(|i, k| T::of(b[(i * 3 + k + 1) % b.len()]));
            let many = back(&f.solve_matrix(block));
            for k in 0..3 {
                judge(&column(&many, k), &|i| block[(i, k)].f(), "a column of solutions")?;
            }
            let inverse = back(&f.inverse());
            for k in 0..N {
                judge(&column(&inverse, k), &|i| (i == k) as u8 as f64, "a column of the inverse")?;
            }
            cx.reach("symmetric factor");
        }
    }
    Ok(())
}

fn qr<const M: usize, const N: usize, T: Width>(a: &Mat, b: &[f64], d: &[f64], cx: &mut Cx) -> R {
    let (m, n, eps) = (M as f64, N as f64, T::EPS);
    let got = PivotedQr::decompose(given::<M, N, T>(a));
    let Ok(f) = got else {
        ensure!(M < N && got.err() == Some(LinalgError::Underdetermined), "an orthogonal factor is refused | {}", shown(a));
        cx.reach("too few rows");
        return Ok(());
    };
    ensure!(M >= N, "a matrix with too few rows was factored | {}", shown(a));
    let rhs: Vector<M, T> = arrow(b);
    let right = list(&rhs);
    let diag: [T; N] = core::array::from_fn(|j| T::of(d[j]));
    let damping: Vec<f64> = diag.iter().map(|v| v.f()).collect();
    if a.d.iter().any(|v| v.is_nan()) {
        if let Ok(x) = f.solve_least_squares(rhs) {
            ensure!(!x.is_finite(), "an entry that is no number gave a closest fit | {:?} of {}", list(&x), shown(a));
        }
        return Ok(());
    }
    if !a.finite() {
        return Ok(());
    }
    let (q, r, p) = (back(&f.orthogonal()), back(&f.triangular()), f.permutation());
    let mut all = p.to_vec();
    all.sort();
    ensure!(all == (0..N).collect::<Vec<_>>(), "the column order is not one | {p:?} of {}", shown(a));
    let grain = 8.0 * m * n * eps;
    let skew = skewed(&q, N);
    ensure!(skew <= grain, "an orthogonal factor is not orthogonal | off {skew:e} of {}", shown(a));
    let columns: Vec<f64> = (0..N).map(|j| length(&column(a, j))).collect();
    let product = q.mul(&r);
    for j in 0..N {
        for i in 0..M {
            ensure!(i <= j || i >= N || r.at(i, j) == 0.0, "a triangular factor is not | {} of {}", shown(&r), shown(a));
            let off = (product.at(i, j) - a.at(i, p[j])).abs();
            ensure!(off <= grain * columns[p[j]], "the orthogonal factors do not multiply back | ({i},{j}) off {off:e} of {}", shown(a));
        }
        for k in j + 1..N {
            let rest = length(&(j..=k).map(|i| r.at(i, k)).collect::<Vec<_>>());
            let share = (rest / columns[p[k]].max(f64::MIN_POSITIVE)).min(r.at(j, j).abs() / columns[p[j]].max(f64::MIN_POSITIVE));
            let least = if share > 0.05 { 1.0 - 4e3 * m * n * eps } else { 0.5 };
            ensure!(r.at(j, j).abs() >= least.max(0.5) * rest - grain * columns[p[k]], "a shorter column was taken before a longer | step {j} {:e} against {rest:e} of {}", r.at(j, j), shown(a));
        }
    }
    let least = (0..N).map(|j| r.at(j, j).abs()).fold(f64::INFINITY, f64::min);
    let bar = eps * m.max(n) * r.at(0, 0).abs();
    match f.solve_least_squares(rhs) {
        Err(e) => {
            ensure!(e == LinalgError::Singular && least <= bar * (1.0 + 4.0 * eps), "a closest fit is refused | {e:?} of {}", shown(a));
            cx.reach("closest fit refused");
        }
        Ok(x) => {
            ensure!(least > bar * (1.0 - 4.0 * eps), "a closest fit was found where directions are lost | {}", shown(a));
            let x = list(&x);
            let left: Vec<f64> = times(a, &x).iter().zip(&right).map(|(g, w)| g - w).collect();
            let size = length(&right) + (0..N).map(|k| columns[k] * x[k].abs()).sum::<f64>();
            for j in 0..N {
                let pull: f64 = column(a, j).iter().zip(&left).map(|(a, l)| a * l).sum();
                ensure!(pull.abs() <= 4.0 * grain * columns[j] * size, "a closest fit is not the closest | column {j} still pulls {pull:e} x {x:?} of {} for {right:?}", shown(a));
            }
            cx.reach("closest fit");
        }
    }
    // One factorization serves every damping.
    let problem = f.into_damped(rhs);
    let well = least > eps * n * r.at(0, 0).abs();
    if (least - eps * n * r.at(0, 0).abs()).abs() > 4.0 * eps * least {
        ensure!(problem.is_non_singular() == well, "a verdict on lost directions is wrong | {} of {}", problem.is_non_singular(), shown(a));
    }
    let mut dampings = vec![(diag, damping.clone())];
    dampings.push((core::array::from_fn(|j| T::of(8.0) * diag[j]), damping.iter().map(|v| 8.0 * v).collect()));
    if well {
        dampings.push(([T::ZERO; N], vec![0.0; N]));
    }
    for (diag, damping) in &dampings {
        let (x, factor) = if damping.iter().all(|v| *v == 0.0) { problem.solve_with_zero_diagonal() } else { problem.solve_with_diagonal(diag) };
        let x = list(&x);
        let weigh = Mat::from_fn(N, N, |i, j| column(a, i).iter().zip(&column(a, j)).map(|(x, y)| x * y).sum::<f64>() + if i == j { damping[i] * damping[i] } else { 0.0 });
        let even = Mat::from_fn(N, N, |i, j| weigh.at(i, j) / (weigh.at(i, i) * weigh.at(j, j)).sqrt());
        if !even.finite() {
            continue;
        }
        let values = eigen(&even).0;
        let (low, high) = values.iter().fold((f64::INFINITY, 0.0f64), |(l, h), v| (l.min(*v), h.max(*v)));
        if low <= 1e-12 * high {
            cx.reach("damped, still a direction lost");
            continue;
        }
        let left: Vec<f64> = times(a, &x).iter().zip(&right).map(|(g, w)| g - w).collect();
        let size = length(&right) + (0..N).map(|k| columns[k].hypot(damping[k]) * x[k].abs()).sum::<f64>();
        for j in 0..N {
            let pull: f64 = column(a, j).iter().zip(&left).map(|(a, l)| a * l).sum::<f64>() + damping[j] * damping[j] * x[j];
            let allowed = 8.0 * grain * columns[j].hypot(damping[j]) * size;
            ensure!(pull.abs() <= allowed, "a damped fit does not balance | column {j} {pull:e} over {allowed:e} x {x:?} damping {damping:?} of {} for {right:?}", shown(a));
        }
        cx.reach("damped fit");
        // The factor it hands back measures the way the system does.
        if low > 1e-3 * high {
            let v: Vec<f64> = (0..N).map(|i| b[(i + 2) % b.len()]).collect();
            let w = factor.solve(core::array::from_fn(|j| T::of(v[p[j]])));
            let got: f64 = w.iter().map(|x| x.f() * x.f()).sum();
            let held: Vec<f64> = (0..N).map(|i| T::of(v[i]).f()).collect();
            if let Some(undo) = even.inv() {
                let share: Vec<f64> = (0..N).map(|i| held[i] / weigh.at(i, i).sqrt()).collect();
                let y = times(&undo, &share);
                let want: f64 = y.iter().zip(&share).map(|(a, b)| a * b).sum();
                ensure!(close(got, want, 1e5 * grain, 0.0), "a damped factor measures wrongly | {got:e} want {want:e} damping {damping:?} of {}", shown(a));
                cx.reach("damped factor");
            }
        }
        let go: Vector<N, T> = arrow(&x);
        let reach = length(&times(a, &list(&go)));
        let size: f64 = (0..N).map(|k| columns[k] * x[k].abs()).sum();
        ensure!((problem.a_x_norm(&go).f() - reach).abs() <= 4.0 * grain * size + 4.0 * n * T::MIN_POSITIVE.f(), "a step's reach is wrong | {:e} want {reach:e} of {}", problem.a_x_norm(&go).f(), shown(a));
    }
    let long = length(&right);
    for k in [1.0, 0.25, 0.0] {
        let by = T::of(k * long);
        let want = if by.f() == 0.0 {
            0.0
        } else {
            (0..N).filter(|j| columns[*j] > 0.0).map(|j| (column(a, j).iter().zip(&right).map(|(a, b)| a * b).sum::<f64>() / columns[j] / by.f()).abs()).fold(0.0, f64::max)
        };
        let got = problem.max_a_t_b_scaled(by).f();
        ensure!((got - want).abs() <= if by.f() == 0.0 { 0.0 } else { 8.0 * grain * long / by.f() }, "the steepest pull is wrong | {got:e} want {want:e} of {}", shown(a));
    }
    Ok(())
}

/// The same matrix as large, and as small, as its entries can still be squared, factored again.
fn stretched<const M: usize, const N: usize, T: Width>(a: &Mat, turn: f64, cx: &mut Cx) -> R {
    let (top, low) = (a.max_abs(), a.d.iter().filter(|v| **v != 0.0).fold(f64::INFINITY, |m: f64, v| m.min(v.abs())));
    if M < N || !a.finite() || top == 0.0 {
        return Ok(());
    }
    let grain = 8.0 * M as f64 * N as f64 * T::EPS;
    // Powers of two, so that nothing but the size changes.
    let largest = (T::MAX.f().sqrt() / top).log2().floor() - (turn * 4.0).floor();
    let smallest = (T::MIN_POSITIVE.f().sqrt() / low).log2().ceil() + (turn * 4.0).floor();
    for (power, name) in [(largest, "as large as squares"), (smallest, "as small as squares")] {
        if smallest > largest || power.abs() > 1000.0 {
            continue;
        }
        let by = 2.0f64.powi(power as i32);
        let Ok(f) = PivotedQr::decompose(given::<M, N, T>(&a.scale(by))) else { return Err(format!("an orthogonal factor is refused for size | {by:e} of {}", shown(a))) };
        let (q, r, p) = (back(&f.orthogonal()), back(&f.triangular()), f.permutation());
        let skew = skewed(&q, N);
        ensure!(skew <= grain, "an orthogonal factor is not orthogonal | off {skew:e} of {by:e} times {}", shown(a));
        let product = q.mul(&r.scale(1.0 / by));
        for j in 0..N {
            let size = length(&column(a, p[j]));
            for i in 0..M {
                let off = (product.at(i, j) - a.at(i, p[j])).abs();
                ensure!(off <= grain * size, "the orthogonal factors do not multiply back | ({i},{j}) off {off:e} of {by:e} times {}", shown(a));
            }
        }
        cx.reach(name);
    }
    Ok(())
}

/// A column whose largest entry, when one stands out, is not positive.
fn faces_away(v: &Mat, rows: usize, columns: usize) -> Option<usize> {
    (0..columns).find(|k| {
        let best = (0..rows).fold(0, |b, i| if v.at(i, *k).abs() > v.at(b, *k).abs() { i } else { b });
        let rest = (0..rows).filter(|i| *i != best).fold(0.0f64, |m, i| m.max(v.at(i, *k).abs()));
        v.at(best, *k) < 0.0 && rest < 0.999 * v.at(best, *k).abs()
    })
}

fn svd<const M: usize, const N: usize, T: Width>(a: &Mat, b: &[f64], cx: &mut Cx) -> R {
    let (m, n, eps) = (M as f64, N as f64, T::EPS);
    let given: Matrix<M, N, T> = given(a);
    let got = given.svd();
    let whole = given.pseudo_inverse();
    if M < N {
        ensure!(matches!(got, Err(LinalgError::Underdetermined)), "a wide matrix was stretched | {}", shown(a));
    } else if !a.finite() {
        ensure!(matches!(got, Err(LinalgError::NonFinite)), "a matrix with an entry not finite was stretched | {}", shown(a));
    }
    if !a.finite() {
        ensure!(matches!(whole, Err(LinalgError::NonFinite)), "a matrix with an entry not finite was pseudo-inverted | {}", shown(a));
        cx.reach("not finite, refused");
        return Ok(());
    }
    let Ok(whole) = whole else { return Err(format!("a sound matrix has no pseudo-inverse | {}", shown(a))) };
    let whole = back(&whole);
    let top = a.max_abs();
    let true_spread = spread(a);
    let grain = 20.0 * m.max(n) * n * eps;
    let cut = m.max(n) * eps * true_spread.first().copied().unwrap_or(0.0);
    // The four laws of a pseudo-inverse, where which directions are kept is not in doubt.
    let kept = true_spread.iter().filter(|s| **s > cut).count();
    if kept > 0 && true_spread[kept - 1] > 1e-3_f64.max(1e3 * eps) * true_spread[0] && true_spread[kept..].iter().all(|s| *s < 0.02 * cut) {
        let bound = 8.0 * grain * true_spread[0] / true_spread[kept - 1];
        let (left, right) = (a.mul(&whole), whole.mul(a));
        ensure!(left.sub(&left.t()).max_abs() <= bound * 30.0 && right.sub(&right.t()).max_abs() <= bound * 30.0, "a pseudo-inverse does not project squarely | {}", shown(a));
        ensure!(left.mul(a).sub(a).max_abs() <= bound * 30.0 * top, "a pseudo-inverse does not undo its matrix | {}", shown(a));
        ensure!(right.mul(&whole).sub(&whole).max_abs() <= bound * 30.0 * whole.max_abs(), "a pseudo-inverse is not undone by its matrix | {}", shown(a));
        cx.reach(if kept < M.min(N) { "pseudo-inverse, directions lost" } else { "pseudo-inverse" });
    }
    if M < N {
        let turned = given.transpose().pseudo_inverse();
        ensure!(matches!(&turned, Ok(t) if all_same(&back(t).t().d, &whole.d)), "a wide pseudo-inverse is not the tall one turned | {}", shown(a));
        return Ok(());
    }
    let Ok(f) = got else { return Err(format!("a sound matrix cannot be stretched | {}", shown(a))) };
    let (u, s, v) = (back(&f.left()), list(&f.singular_values()), back(&f.right()));
    for k in 0..N {
        ensure!(s[k] >= 0.0 && (k == 0 || s[k] <= s[k - 1]), "stretches are out of order | {s:?} of {}", shown(a));
        ensure!((s[k] - true_spread[k]).abs() <= grain * true_spread[0], "a stretch is wrong | {s:?} want {true_spread:?} of {}", shown(a));
    }
    let skew = skewed(&v, N);
    ensure!(skew <= grain, "the directions stretched are not square to one another | off {skew:e} of {}", shown(a));
    let skew = skewed(&u, N);
    ensure!(skew <= grain, "the directions stretched to are not square to one another | off {skew:e} of {}", shown(a));
    let away = faces_away(&u, M, N);
    ensure!(away.is_none(), "a direction stretched to has its largest entry below nothing | {away:?} of {}", shown(a));
    for i in 0..M {
        for j in 0..N {
            let back: f64 = (0..N).map(|k| u.at(i, k) * s[k] * v.at(j, k)).sum();
            ensure!((back - a.at(i, j)).abs() <= grain * true_spread[0], "the stretches do not make up the matrix | ({i},{j}) {back:e} want {:e} of {}", a.at(i, j), shown(a));
        }
    }
    for tol in [0.0, 0.3, 1.0].map(|k| T::of(k * s[0] * 1.0001)).into_iter().chain([T::of(s[N - 1]), T::of(-1.0)]) {
        let want = s.iter().filter(|s| **s > tol.f()).count();
        ensure!(f.rank(tol) == want, "a count of directions is wrong | {} want {want} over {:e} of {s:?}", f.rank(tol), tol.f());
        if tol.f() >= 0.0 {
            let cut = back(&f.pseudo_inverse_tol(tol));
            let tiny = s.iter().filter(|s| **s > tol.f()).fold(0.0, |m: f64, s| m.max((1.0 + 1.0 / s) * n * T::MIN_POSITIVE.f()));
            for i in 0..N {
                for j in 0..M {
                    let (mut want, mut size) = (0.0, 0.0);
                    for k in (0..N).filter(|k| s[*k] > tol.f()) {
                        want += v.at(i, k) * u.at(j, k) / s[k];
                        size += (v.at(i, k) * u.at(j, k) / s[k]).abs();
                    }
                    ensure!((cut.at(i, j) - want).abs() <= 8.0 * n * eps * size + tiny || !want.is_finite() || size > T::MAX.f() * 0.1, "a cut pseudo-inverse is wrong | ({i},{j}) {:e} want {want:e} over {:e} of {}", cut.at(i, j), tol.f(), shown(a));
                }
            }
        }
    }
    let c = f.condition_number().f();
    let want = if s[N - 1] == 0.0 { f64::INFINITY } else { T::of(s[0] / s[N - 1]).f() };
    ensure!(close(c, want, 4.0 * eps, 0.0), "a condition number is wrong | {c:e} want {want:e} of {s:?}");
    // The closest fit with the shortest answer.
    let bar = m.max(n) * eps * s[0];
    if s.iter().all(|s| (s - bar).abs() > 1e-3 * bar || bar == 0.0) {
        let tiny = s.iter().filter(|s| **s > bar).fold(0.0, |m: f64, s| m.max((1.0 + 1.0 / s) * n * T::MIN_POSITIVE.f()));
        let rhs: Vector<M, T> = arrow(b);
        let x = list(&f.solve(rhs));
        for i in 0..N {
            let (mut want, mut size) = (0.0, 0.0);
            for k in (0..N).filter(|k| s[*k] > bar) {
                for j in 0..M {
                    want += v.at(i, k) * u.at(j, k) * rhs[j].f() / s[k];
                    size += (v.at(i, k) * u.at(j, k) * rhs[j].f() / s[k]).abs();
                }
            }
            ensure!((x[i] - want).abs() <= 8.0 * (m + n) * eps * size + tiny * (1.0 + rhs.norm().f()), "the shortest closest fit is wrong | {i} {:e} want {want:e} of {}", x[i], shown(a));
            for j in 0..M {
                let (mut want, mut size) = (0.0, 0.0);
                for k in (0..N).filter(|k| s[*k] > bar) {
                    want += v.at(i, k) * u.at(j, k) / s[k];
                    size += (v.at(i, k) * u.at(j, k) / s[k]).abs();
                }
                ensure!((whole.at(i, j) - want).abs() <= 8.0 * n * eps * size + tiny, "a pseudo-inverse keeps the wrong directions | ({i},{j}) {:e} want {want:e} of {}", whole.at(i, j), shown(a));
            }
        }
    }
    cx.reach("stretches");
    Ok(())
}

fn directions<const N: usize, T: Width>(a: &Mat, floor: f64, cx: &mut Cx) -> R {
    let (n, eps) = (N as f64, T::EPS);
    let m: Matrix<N, N, T> = given(a);
    let got = m.symmetric_eigendecomposition();
    if !a.finite() {
        ensure!(matches!(got, Err(LinalgError::NonFinite)), "a matrix with an entry not finite has directions | {}", shown(a));
        return Ok(());
    }
    let mut doubt = false;
    let mut even = true;
    for i in 0..N {
        for j in i + 1..N {
            let gap = (a.at(i, j) - a.at(j, i)).abs();
            let bar = 30.0 * eps * a.at(i, j).abs().max(a.at(j, i).abs()).max(1.0);
            doubt |= (gap - bar).abs() < 0.1 * bar;
            even &= gap <= bar;
        }
    }
    if doubt {
        return Ok(());
    }
    ensure!(m.is_symmetric() == even, "a matrix is wrongly called {}symmetric | {}", if even { "not " } else { "" }, shown(a));
    let Ok(f) = got else {
        ensure!(!even && matches!(got, Err(LinalgError::NotSymmetric)), "a symmetric matrix has no directions | {}", shown(a));
        cx.reach("lopsided, refused");
        return Ok(());
    };
    ensure!(even, "a lopsided matrix has directions | {}", shown(a));
    let (l, v) = (list(&f.eigenvalues()), back(&f.eigenvectors()));
    let top = a.max_abs();
    let gap = a.sub(&a.t()).max_abs();
    let grain = 40.0 * n * n * eps;
    let skew = skewed(&v, N);
    ensure!(skew <= grain, "the directions of a symmetric matrix are not square to one another | off {skew:e} of {}", shown(a));
    let away = faces_away(&v, N, N);
    ensure!(away.is_none(), "a direction of a symmetric matrix has its largest entry below nothing | {away:?} of {}", shown(a));
    let allowed = grain * top + 2.0 * n * gap;
    for i in 0..N {
        ensure!(i == 0 || l[i] <= l[i - 1], "the stretches of a symmetric matrix are out of order | {l:?} of {}", shown(a));
        for j in 0..N {
            let back: f64 = (0..N).map(|k| v.at(i, k) * l[k] * v.at(j, k)).sum();
            ensure!((back - a.at(i, j)).abs() <= allowed, "directions and stretches do not make up the matrix | ({i},{j}) {back:e} want {:e} of {}", a.at(i, j), shown(a));
        }
    }
    let product: f64 = l.iter().product();
    let (over, under): (f64, f64) = (l.iter().map(|v| v.abs().max(1.0)).product(), l.iter().map(|v| v.abs().min(1.0)).product());
    ensure!(close(f.determinant().f(), product, 4.0 * n * eps, 0.0) || over > T::MAX.f() * 0.1 || under < 1e3 * T::MIN_POSITIVE.f(), "the determinant is not the product of the stretches | {:e} want {product:e}", f.determinant().f());
    let (low, high) = l.iter().fold((f64::INFINITY, 0.0f64), |(a, b), v| (a.min(v.abs()), b.max(v.abs())));
    let want = if low == 0.0 { f64::INFINITY } else { T::of(high / low).f() };
    ensure!(close(f.condition_number().f(), want, 4.0 * eps, 0.0), "a condition number is wrong | {:e} want {want:e} of {l:?}", f.condition_number().f());
    ensure!(f.is_positive_definite() == l.iter().all(|v| *v > 0.0), "positive definite is wrong | {l:?}");
    let floor = T::of(floor * top);
    let mended = back(&f.clamped(floor));
    let raised: Vec<f64> = l.iter().map(|v| v.max(floor.f())).collect();
    let size = raised.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    for i in 0..N {
        for j in 0..N {
            let want: f64 = (0..N).map(|k| v.at(i, k) * raised[k] * v.at(j, k)).sum();
            ensure!((mended.at(i, j) - want).abs() <= 8.0 * n * eps * size, "a mended matrix is wrong | ({i},{j}) {:e} want {want:e} of {}", mended.at(i, j), shown(a));
            ensure!(mended.at(i, j) == mended.at(j, i), "a mended matrix is lopsided | {}", shown(&mended));
        }
    }
    cx.reach("directions");
    Ok(())
}

/// Sums, products and readings of the matrix, with another of its shape.
fn sums<const M: usize, const N: usize, T: Width>(a: &Mat, o: &Mat, k: f64, cx: &mut Cx) -> R {
    let eps = T::EPS;
    let (x, y): (Matrix<M, N, T>, Matrix<M, N, T>) = (given(a), given(o));
    let k = T::of(k);
    let plain = |got: &Mat, f: &dyn Fn(T, T) -> T, what: &str| -> R {
        for i in 0..M {
            for j in 0..N {
                let want = f(x[(i, j)], y[(i, j)]).f();
                ensure!(same(got.at(i, j), want), "{what} of matrices is wrong | ({i},{j}) {:e} want {want:e} of {} and {}", got.at(i, j), shown(a), shown(o));
            }
        }
        Ok(())
    };
    plain(&back(&(x + y)), &|a, b| a + b, "a sum")?;
    plain(&back(&(x - y)), &|a, b| a - b, "a difference")?;
    plain(&back(&(-x)), &|a, _| -a, "a negation")?;
    plain(&back(&(x * k)), &|a, _| a * k, "a multiple")?;
    plain(&back(&x.scale(k)), &|a, _| a * k, "a scaling")?;
    plain(&back(&(x / k)), &|a, _| a / k, "a quotient")?;
    let mut z = x;
    z += y;
    plain(&back(&z), &|a, b| a + b, "a sum in place")?;
    let mut z = x;
    z -= y;
    plain(&back(&z), &|a, b| a - b, "a difference in place")?;
    let t = x.transpose();
    ensure!(all_same(&back(&t).d, &a.t().d), "a transpose is wrong | {}", shown(a));
    let product = back(&(t * y));
    let other = back(&(x * y.transpose()));
    let judge = |got: &Mat, p: &Mat, q: &Mat| -> R {
        let (want, size) = (p.mul(q), bare(p).mul(&bare(q)));
        for i in 0..got.r {
            for j in 0..got.c {
                let sound = if want.at(i, j).is_finite() && size.at(i, j) < T::MAX.f() * 0.1 {
                    (got.at(i, j) - want.at(i, j)).abs() <= 2.0 * (p.c + 1) as f64 * eps * size.at(i, j) + p.c as f64 * T::MIN_POSITIVE.f()
                } else {
                    !got.at(i, j).is_finite() || want.at(i, j).is_finite()
                };
                ensure!(sound, "a product is wrong | ({i},{j}) {:e} want {:e} of {} and {}", got.at(i, j), want.at(i, j), shown(p), shown(q));
            }
        }
        Ok(())
    };
    judge(&product, &a.t(), o)?;
    judge(&other, a, &o.t())?;
    let v: Vector<N, T> = Vector::from_fn(|j| y[(0, j)]);
    judge(&Mat::col(&list(&(x * v))), a, &Mat::col(&list(&v)))?;
    let finite = a.finite();
    ensure!(x.is_finite() == finite, "finite is wrongly told | {}", shown(a));
    if finite && a.max_abs() < T::FAR && a.max_abs() > 1.0 / T::FAR {
        let want = length(&a.d);
        ensure!(close(x.frobenius_norm().f(), want, 4.0 * (M * N) as f64 * eps, 0.0), "a norm is wrong | {:e} want {want:e} of {}", x.frobenius_norm().f(), shown(a));
    }
    for i in 0..M + 2 {
        let got = x.try_row(i).map(|r| list(&r));
        let want = (i < M).then(|| (0..N).map(|j| a.at(i, j)).collect::<Vec<_>>());
        ensure!(match (&got, &want) { (Some(g), Some(w)) => all_same(g, w), (None, None) => true, _ => false }, "a row is wrong | {i} {got:?} of {}", shown(a));
        for j in 0..N + 2 {
            let got = x.get(i, j).map(|v| v.f());
            let want = (i < M && j < N).then(|| a.at(i, j));
            let written = z.get_mut(i, j).map(|v| v.f());
            let sound = match (got, want) {
                (Some(g), Some(w)) => same(g, w),
                (None, None) => true,
                _ => false,
            };
            ensure!(sound && written.is_some() == want.is_some(), "an entry is wrong | ({i},{j}) {got:?} of {}", shown(a));
        }
    }
    for j in 0..N + 2 {
        let got = x.try_column(j).map(|r| list(&r));
        let want = (j < N).then(|| column(a, j));
        ensure!(match (&got, &want) { (Some(g), Some(w)) => all_same(g, w), (None, None) => true, _ => false }, "a column is wrong | {j} {got:?} of {}", shown(a));
    }
    let flat: Vec<T> = a.d.iter().map(|v| T::of(*v)).collect();
    let read = Matrix::<M, N, T>::try_from_row_slice(&flat);
    ensure!(matches!(&read, Some(r) if all_same(&back(r).d, &a.d)), "a matrix from its entries is wrong | {}", shown(a));
    ensure!(Matrix::<M, N, T>::try_from_row_slice(&flat[1..]).is_none(), "a matrix from too few entries | {}", shown(a));
    cx.reach("sums");
    Ok(())
}

fn square_sums<const N: usize, T: Width>(a: &Mat, cx: &mut Cx) -> R {
    let m: Matrix<N, N, T> = given(a);
    let even = back(&m.symmetrized());
    for i in 0..N {
        for j in 0..N {
            let want = if i == j { a.at(i, i) } else { T::of(T::of(a.at(i, j) + a.at(j, i)).f() * 0.5).f() };
            ensure!(close(even.at(i, j), want, 2.0 * T::EPS, 0.0) || !want.is_finite(), "an evened entry is wrong | ({i},{j}) {:e} want {want:e} of {}", even.at(i, j), shown(a));
            ensure!(same(even.at(i, j), even.at(j, i)), "an evened matrix is lopsided | {}", shown(&even));
        }
    }
    let diagonal: Vec<f64> = m.diagonal().iter().map(|v| v.f()).collect();
    ensure!(all_same(&diagonal, &(0..N).map(|i| a.at(i, i)).collect::<Vec<_>>()), "a diagonal is wrong | {diagonal:?} of {}", shown(a));
    ensure!(all_same(&back(&Matrix::from_diagonal(m.diagonal())).d, &Mat::diag(&diagonal).d), "a matrix of a diagonal is wrong | {diagonal:?}");
    ensure!(back(&Matrix::<N, N, T>::identity()) == Mat::eye(N), "the identity is not");
    if a.finite() {
        let size: f64 = diagonal.iter().map(|v| v.abs()).sum();
        let want: f64 = diagonal.iter().sum();
        ensure!((m.trace().f() - want).abs() <= N as f64 * T::EPS * size, "a trace is wrong | {:e} want {want:e} of {}", m.trace().f(), shown(a));
        let entries: Vec<f64> = a.d.iter().map(|v| v / a.max_abs().max(1e-300)).collect();
        let made = back(&Matrix::<N, N>::symmetric_positive_definite(&entries));
        let e = Mat { r: N, c: N, d: entries };
        let want = e.mul(&e.t()).add(&Mat::eye(N).scale(0.25));
        ensure!(all_close(&made.d, &want.d, 1e-14, 0.0) && made == made.t() && made.chol().is_some(), "a matrix made positive definite is not | {} of {}", shown(&made), shown(&e));
    }
    cx.reach("square sums");
    Ok(())
}

/// A row of the matrix as a vector, with another.
fn vectors<const N: usize, T: Width>(a: &Mat, o: &Mat, cx: &mut Cx) -> R {
    let eps = T::EPS;
    let row = |m: &Mat| -> Vec<f64> { (0..N).map(|j| m.at(0, j)).collect() };
    let (p, q) = (row(a), row(o));
    let (x, y): (Vector<N, T>, Vector<N, T>) = (arrow(&p), arrow(&q));
    let broken = p.iter().chain(&q).any(|v| !v.is_finite());
    let nan = p.iter().any(|v| v.is_nan());
    let mut kept = x;
    let (tried, told) = (x.try_normalized(), kept.try_normalize());
    let blank = p.iter().all(|v| *v == 0.0);
    ensure!(tried.is_some() == told.is_some(), "two ways to a unit vector disagree | {p:?}");
    if nan || blank {
        ensure!(tried.is_none() && all_same(&list(&kept), &p), "a vector without a direction was given one | {p:?} became {kept:?}");
        cx.reach("no direction");
    }
    ensure!(x.is_finite() == p.iter().all(|v| v.is_finite()), "finite is wrongly told | {p:?}");
    let mut sum = x;
    sum += y;
    let mut less = x;
    less -= y;
    for i in 0..N {
        let (s, t) = (x[i], y[i]);
        for (got, want, what) in [
            ((x + y)[i], s + t, "sum"),
            ((x - y)[i], s - t, "difference"),
            ((-x)[i], -s, "negation"),
            ((x * t)[i], s * t, "multiple"),
            (x.scale(t)[i], s * t, "scaling"),
            ((x / t)[i], s / t, "quotient"),
            (sum[i], s + t, "sum in place"),
            (less[i], s - t, "difference in place"),
            (x.map(|v| v + t)[i], s + t, "mapping"),
        ] {
            ensure!(same(got.f(), want.f()), "a {what} of vectors is wrong | {got:?} want {want:?} of {p:?} and {q:?}");
        }
    }
    for i in 0..N + 2 {
        ensure!(x.get(i).is_some() == (i < N) && kept.get_mut(i).is_some() == (i < N), "an entry off the end | {i} of {p:?}");
    }
    ensure!(Vector::<N, T>::try_from_slice(&[T::ONE; 9]).is_none() && matches!(Vector::<N, T>::try_from_slice(x.as_slice()), Some(v) if all_same(&list(&v), &p)), "a vector from its entries is wrong | {p:?}");
    if broken {
        return Ok(());
    }
    let (want, size): (f64, f64) = (p.iter().zip(&q).map(|(a, b)| a * b).sum(), p.iter().zip(&q).map(|(a, b)| (a * b).abs()).sum());
    ensure!((x.dot(y).f() - want).abs() <= 2.0 * N as f64 * eps * size + N as f64 * T::MIN_POSITIVE.f() || size > T::MAX.f() * 0.1, "a dot product is wrong | {:e} want {want:e} of {p:?} {q:?}", x.dot(y).f());
    let long = length(&p);
    let held = |v: f64| v < T::FAR && v > 1.0 / T::FAR;
    if held(long) {
        ensure!(close(x.norm().f(), long, 2.0 * N as f64 * eps, 0.0) && close(x.norm_squared().f(), long * long, 4.0 * N as f64 * eps, 0.0), "a length is wrong | {:e} want {long:e} of {p:?}", x.norm().f());
        let mut turned = x;
        turned.normalize();
        for (got, what) in [(Some(turned), "in place"), (Some(x.normalized()), "copied"), (tried, "tried"), (Some(kept), "tried in place")] {
            let Some(got) = got else { return Err(format!("a vector with a direction was refused one | {p:?}")) };
            for i in 0..N {
                ensure!((got[i].f() - p[i] / long).abs() <= 4.0 * N as f64 * eps * (p[i] / long).abs() + T::MIN_POSITIVE.f(), "a unit vector is wrong, {what} | {got:?} of {p:?}");
            }
        }
    }
    if N == 3 && held(long) && held(length(&q)) {
        let (u, v, w): (Vector<3, T>, Vector<3, T>, Vector<3, T>) = (arrow(&p), arrow(&q), Vector::new([T::of(p[1]), T::of(q[2]), T::of(p[0])]));
        let got = list(&u.cross(v));
        let want = cross([p[0], p[1], p[2]], [q[0], q[1], q[2]]);
        for i in 0..3 {
            let (j, k) = ((i + 1) % 3, (i + 2) % 3);
            let size = (p[j] * q[k]).abs() + (p[k] * q[j]).abs();
            ensure!((got[i] - want[i]).abs() <= 4.0 * eps * size + 4.0 * T::MIN_POSITIVE.f(), "a cross product is wrong | {got:?} want {want:?} of {p:?} {q:?}");
        }
        let m = Mat { r: 3, c: 3, d: [list(&u), list(&v), list(&w)].concat() };
        let (want, size) = determinant(&m);
        if size < T::FAR && size > 1.0 / T::FAR {
            ensure!((u.scalar_triple(v, w).f() - want).abs() <= 16.0 * eps * size + 16.0 * T::MIN_POSITIVE.f() * m.max_abs(), "a triple product is wrong | {:e} want {want:e} of {}", u.scalar_triple(v, w).f(), shown(&m));
        }
    }
    if N == 2 && held(long) && held(length(&q)) {
        let (u, v): (Vector<2, T>, Vector<2, T>) = (arrow(&p), arrow(&q));
        let (want, size) = (p[0] * q[1] - p[1] * q[0], (p[0] * q[1]).abs() + (p[1] * q[0]).abs());
        ensure!((u.cross(v).f() - want).abs() <= 4.0 * eps * size + 4.0 * T::MIN_POSITIVE.f(), "a flat cross product is wrong | {:e} want {want:e} of {p:?} {q:?}", u.cross(v).f());
    }
    cx.reach("vectors");
    Ok(())
}

const SHAPES: [(usize, usize); 16] =
    [(1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (6, 6), (3, 2), (5, 3), (6, 4), (2, 3), (4, 1), (3, 5), (1, 4), (6, 5), (2, 6), (4, 3)];

fn rounded<T: Width>(a: &mut Mat) {
    for v in &mut a.d {
        *v = T::of(*v).f();
    }
}

fn session<const M: usize, const N: usize, T: Width>(t: &Trace, cx: &mut Cx) -> R {
    let mut a = Mat::from_fn(M, N, |i, j| if i == j { 1.0 } else { 0.0 });
    let mut other = Mat::from_fn(M, N, |i, j| (i + 2 * j) as f64 - 1.5);
    for (when, e) in t.evs.iter().enumerate() {
        cx.step(e.k);
        let (i, j, k, v) = (e.u(0) % M, e.u(1) % N, e.u(2), e.n(3));
        match e.k {
            "all" => {
                other = a.clone();
                a = Mat::from_fn(M, N, |r, c| e.n(4 + (r * 7 + c) % 40) * if e.n(2) > 0.5 { e.n(1) } else { 1.0 });
            }
            "entry" => a.set(i, j, v),
            "outer" => {
                for r in 0..M {
                    for c in 0..N {
                        a.set(r, c, a.at(r, c) + v * e.n(4 + r) * e.n(12 + c));
                    }
                }
            }
            "size" => a = a.scale(v),
            "grade" => {
                for r in 0..M {
                    if k % 2 == 0 {
                        a.set(r, j, a.at(r, j) * v);
                    }
                }
                for c in 0..N {
                    if k % 2 == 1 {
                        a.set(i, c, a.at(i, c) * v);
                    }
                }
            }
            "same column" => {
                let from = k % N;
                for r in 0..M {
                    a.set(r, j, a.at(r, from) * v + if from == j { 0.0 } else { e.n(4) * a.at(r, j) });
                }
                cx.fault("direction lost");
            }
            "same row" => {
                let from = k % M;
                for c in 0..N {
                    a.set(i, c, a.at(from, c) * v + if from == i { 0.0 } else { e.n(4) * a.at(i, c) });
                }
                cx.fault("direction lost");
            }
            "blank" => {
                for r in 0..M {
                    for c in 0..N {
                        if if k % 2 == 0 { c == j } else { r == i } {
                            a.set(r, c, 0.0);
                        }
                    }
                }
                cx.fault("direction blanked");
            }
            "break" => {
                a.set(i, j, if v.is_finite() { f64::NAN } else { v });
                cx.fault("entry broken");
            }
            "mend" => a = Mat::from_fn(M, N, |r, c| if a.at(r, c).is_finite() { a.at(r, c) } else { v }),
            "even" if M == N => a = Mat::from_fn(N, N, |r, c| 0.5 * a.at(r, c) + 0.5 * a.at(c, r)),
            "gram" if M == N => {
                let s = a.max_abs();
                if s > 0.0 && s.is_finite() {
                    a = a.mul(&a.t()).scale(1.0 / s);
                    for d in 0..N {
                        a.set(d, d, a.at(d, d) + v * s);
                    }
                }
            }
            "tilt" if M == N => {
                // A pair across the diagonal a few rounding steps apart.
                if i != j {
                    a.set(j, i, a.at(i, j) + v * T::EPS * a.at(i, j).abs().max(1.0));
                    cx.fault("pair tilted");
                }
            }
            _ => {}
        }
        rounded::<T>(&mut a);
        if a.d.iter().any(|v| v.is_finite() && v.abs() > T::FAR) {
            let s = a.d.iter().filter(|v| v.is_finite()).fold(0.0f64, |m, v| m.max(v.abs()));
            a = a.scale(T::FAR / s * 0.5);
            rounded::<T>(&mut a);
        }
        // What is too small to square is nothing.
        let low = 1.0 / T::FAR;
        for v in &mut a.d {
            if v.abs() < low {
                *v = 0.0;
            }
        }
        let b: Vec<f64> = (0..13).map(|n| T::of(e.n(20 + n) * if e.n(19) > 0.5 { a.max_abs().clamp(low, T::FAR) } else { 1.0 }).f()).collect();
        let top = a.max_abs();
        let graded = a.d.iter().filter(|v| **v != 0.0 && v.is_finite()).fold(f64::INFINITY, |m, v| m.min(v.abs()));
        let within = a.finite() && top <= T::HIGH && (graded >= T::LOW || top == 0.0);
        let damping: Vec<f64> = (0..N).map(|n| T::of(if (e.u(18) >> n) & 1 == 1 { e.n(33 + n % 6).abs() * e.n(39) * top.clamp(low, T::FAR) } else { 0.0 }).f()).collect();
        // An entry can be held and its square not; a factor that squares is asked only for what it holds.
        let whole = a.d.iter().filter(|v| v.is_finite()).fold(0.0f64, |m, v| m.max(v.abs()));
        let square = whole <= T::HIGH && (graded >= T::LOW || whole == 0.0);
        if M == N {
            if square {
                lu::<N, T>(&a, &b, cx)?;
            }
            if within {
                direct::<N, T>(&a, cx)?;
            }
            if square {
                cholesky::<N, T>(&a, &b, cx)?;
            }
            directions::<N, T>(&a, e.n(17), cx)?;
            square_sums::<N, T>(&a, cx)?;
        }
        let span = a.finite() && (top == 0.0 || graded >= top * T::EPS * T::EPS * T::EPS);
        if span || !a.finite() {
            qr::<M, N, T>(&a, &b, &damping, cx)?;
            stretched::<M, N, T>(&a, (e.n(17) * 1e3).fract().abs(), cx)?;
        }
        if !a.finite() || (graded >= low.sqrt() && top <= T::FAR) || top == 0.0 {
            svd::<M, N, T>(&a, &b, cx)?;
        }
        sums::<M, N, T>(&a, &other, e.n(16), cx)?;
        vectors::<N, T>(&a, &other, cx)?;
        let kind = if !a.finite() { 3 } else if top == 0.0 { 2 } else { (!within) as i64 };
        let lost = if a.finite() { spread(&a).iter().filter(|s| **s > 1e-6 * top).count() as i64 } else { -1 };
        cx.state(&[M as i64, N as i64, (T::EPS > 1e-10) as i64, kind, lost, (when as i64).min(5)]);
        if a.finite() {
            cx.logs(&a.d);
        }
    }
    Ok(())
}

impl World for Ledger {
    fn name(&self) -> &'static str {
        "ledger"
    }
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        t.cfg = vec![r.chance(0.4) as u8 as f64, r.below(SHAPES.len()) as f64];
        let whole = r.chance(0.3);
        let far = r.chance(0.2);
        for n in 0..r.int(2, 14) {
            let mut a = vec![r.below(6) as f64, r.below(6) as f64, r.below(6) as f64, r.normal()];
            if whole {
                a[3] = r.int(0, 6) as f64 - 3.0;
            }
            let k = if n == 0 { 0 } else { r.below(15) };
            let name = match k {
                0 | 1 => {
                    let size = if far { r.log_range(1e-12, 1e14) } else { r.log_range(1e-2, 1e2) };
                    a[2] = r.chance(0.4) as u8 as f64;
                    a[1] = size;
                    "all"
                }
                2 | 3 => {
                    if r.chance(0.2) {
                        a[3] *= r.log_range(1e-5, 1e5);
                    }
                    "entry"
                }
                4 | 5 => "outer",
                6 => {
                    a[3] = r.sign() * if far { r.log_range(1e-14, 1e14) } else { r.log_range(1e-2, 1e2) };
                    "size"
                }
                7 => {
                    a[3] = if far { r.log_range(1e-10, 1e10) } else { r.log_range(1e-3, 1e3) };
                    "grade"
                }
                8 => "same column",
                9 => "same row",
                10 => "blank",
                11 => {
                    if r.chance(0.5) {
                        a[3] = r.broken();
                        "break"
                    } else {
                        "mend"
                    }
                }
                12 => "even",
                13 => {
                    a[3] = if r.chance(0.5) { r.log_range(1e-9, 1.0) } else { 0.0 } * if r.chance(0.1) { -1.0 } else { 1.0 };
                    "gram"
                }
                _ => {
                    a[3] = *r.pick(&[1.0, 5.0, 20.0, 40.0, -20.0, -60.0, 1e3]);
                    "tilt"
                }
            };
            let near = *r.pick(&[0.0, 0.0, 1e-3, 1e-6, 1e-9, 1e-14]);
            a.push(near);
            // What the event and the questions after it are made of.
            for i in a.len()..50 {
                a.push(match i {
                    16 => r.normal(),
                    17 => *r.pick(&[-2.0, -0.5, 0.0, 1e-3, 0.5, 2.0]),
                    18 => r.below(64) as f64,
                    19 => r.chance(0.5) as u8 as f64,
                    39 => r.log_range(1e-4, 1e2),
                    _ if whole => r.int(0, 8) as f64 - 4.0,
                    _ => r.normal(),
                });
            }
            t.evs.push(ev(name, &a));
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        macro_rules! go {
            ($($m:literal $n:literal),*) => {
                match (SHAPES[t.cu(1) % SHAPES.len()], t.cu(0)) {
                    $((($m, $n), 0) => session::<$m, $n, f64>(t, cx),
                    (($m, $n), _) => session::<$m, $n, f32>(t, cx),)*
                    _ => Ok(()),
                }
            };
        }
        go!(1 1, 2 2, 3 3, 4 4, 5 5, 6 6, 3 2, 5 3, 6 4, 2 3, 4 1, 3 5, 1 4, 6 5, 2 6, 4 3)
    }
}
