//! Small, slow, independent reference arithmetic used by the oracles.

#[derive(Clone, Debug, PartialEq)]
pub struct Mat {
    pub r: usize,
    pub c: usize,
    pub d: Vec<f64>,
}

impl Mat {
    pub fn zeros(r: usize, c: usize) -> Mat {
        Mat { r, c, d: vec![0.0; r * c] }
    }
    pub fn eye(n: usize) -> Mat {
        let mut m = Mat::zeros(n, n);
        for i in 0..n {
            m.d[i * n + i] = 1.0;
        }
        m
    }
    pub fn from_fn(r: usize, c: usize, f: impl Fn(usize, usize) -> f64) -> Mat {
        let mut m = Mat::zeros(r, c);
        for i in 0..r {
            for j in 0..c {
                m.d[i * c + j] = f(i, j);
            }
        }
        m
    }
    pub fn col(v: &[f64]) -> Mat {
        Mat { r: v.len(), c: 1, d: v.to_vec() }
    }
    pub fn diag(v: &[f64]) -> Mat {
        Mat::from_fn(v.len(), v.len(), |i, j| if i == j { v[i] } else { 0.0 })
    }
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.d[i * self.c + j]
    }
    pub fn set(&mut self, i: usize, j: usize, v: f64) {
        self.d[i * self.c + j] = v;
    }
    pub fn t(&self) -> Mat {
        Mat::from_fn(self.c, self.r, |i, j| self.at(j, i))
    }
    pub fn mul(&self, o: &Mat) -> Mat {
        assert_eq!(self.c, o.r);
        let mut m = Mat::zeros(self.r, o.c);
        for i in 0..self.r {
            for j in 0..o.c {
                let mut s = 0.0;
                for k in 0..self.c {
                    s += self.at(i, k) * o.at(k, j);
                }
                m.set(i, j, s);
            }
        }
        m
    }
    pub fn add(&self, o: &Mat) -> Mat {
        Mat::from_fn(self.r, self.c, |i, j| self.at(i, j) + o.at(i, j))
    }
    pub fn sub(&self, o: &Mat) -> Mat {
        Mat::from_fn(self.r, self.c, |i, j| self.at(i, j) - o.at(i, j))
    }
    pub fn scale(&self, k: f64) -> Mat {
        Mat::from_fn(self.r, self.c, |i, j| self.at(i, j) * k)
    }
    pub fn sym(&self) -> Mat {
        self.add(&self.t()).scale(0.5)
    }
    pub fn max_abs(&self) -> f64 {
        self.d.iter().fold(0.0, |m, v| m.max(v.abs()))
    }
    pub fn trace(&self) -> f64 {
        (0..self.r).map(|i| self.at(i, i)).sum()
    }
    pub fn finite(&self) -> bool {
        self.d.iter().all(|v| v.is_finite())
    }
    /// Gauss-Jordan with full row pivoting.
    pub fn inv(&self) -> Option<Mat> {
        let n = self.r;
        let mut a = self.clone();
        let mut b = Mat::eye(n);
        for k in 0..n {
            let p = (k..n).max_by(|&i, &j| a.at(i, k).abs().total_cmp(&a.at(j, k).abs()))?;
            if a.at(p, k) == 0.0 || !a.at(p, k).is_finite() {
                return None;
            }
            for j in 0..n {
                a.d.swap(k * n + j, p * n + j);
                b.d.swap(k * n + j, p * n + j);
            }
            let d = a.at(k, k);
            for j in 0..n {
                a.set(k, j, a.at(k, j) / d);
                b.set(k, j, b.at(k, j) / d);
            }
            for i in 0..n {
                if i != k {
                    let f = a.at(i, k);
                    for j in 0..n {
                        a.set(i, j, a.at(i, j) - f * a.at(k, j));
                        b.set(i, j, b.at(i, j) - f * b.at(k, j));
                    }
                }
            }
        }
        Some(b)
    }
    /// Lower Cholesky factor, or `None` when not positive definite.
    pub fn chol(&self) -> Option<Mat> {
        let n = self.r;
        let mut l = Mat::zeros(n, n);
        for j in 0..n {
            let mut s = self.at(j, j);
            for k in 0..j {
                s -= l.at(j, k) * l.at(j, k);
            }
            if !(s > 0.0) {
                return None;
            }
            let d = s.sqrt();
            l.set(j, j, d);
            for i in j + 1..n {
                let mut s = self.at(i, j);
                for k in 0..j {
                    s -= l.at(i, k) * l.at(j, k);
                }
                l.set(i, j, s / d);
            }
        }
        Some(l)
    }
    /// Positive definite with every direction well above rounding.
    pub fn clearly_pd(&self, tol: f64) -> bool {
        let mut lowered = self.sym();
        let scale = self.max_abs();
        for i in 0..self.r {
            lowered.set(i, i, lowered.at(i, i) - tol * scale);
        }
        scale.is_finite() && lowered.chol().is_some()
    }
    /// Symmetric to rounding and no direction of clearly negative variance.
    pub fn is_covariance(&self, tol: f64) -> bool {
        let scale = self.max_abs();
        if !scale.is_finite() {
            return false;
        }
        if self.sub(&self.t()).max_abs() > tol * scale {
            return false;
        }
        let mut lifted = self.sym();
        for i in 0..self.r {
            lifted.set(i, i, lifted.at(i, i) + tol * scale + 1e-300);
        }
        lifted.chol().is_some()
    }
}

/// The textbook measurement update. Returns (state, covariance, innovation covariance).
pub fn kalman_update(x: &Mat, p: &Mat, h: &Mat, r: &Mat, y: &Mat) -> Option<(Mat, Mat, Mat)> {
    let s = h.mul(p).mul(&h.t()).add(r);
    let k = p.mul(&h.t()).mul(&s.inv()?);
    let a = Mat::eye(p.r).sub(&k.mul(h));
    let p2 = a.mul(p).mul(&a.t()).add(&k.mul(r).mul(&k.t()));
    Some((x.add(&k.mul(y)), p2, s))
}

pub type V3 = [f64; 3];

pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V3, b: V3) -> V3 {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn norm(a: V3) -> f64 {
    dot(a, a).sqrt()
}
pub fn scale(a: V3, k: f64) -> V3 {
    [a[0] * k, a[1] * k, a[2] * k]
}
pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn unit(a: V3) -> Option<V3> {
    let n = norm(a);
    (n > 0.0 && n.is_finite()).then(|| scale(a, 1.0 / n))
}

/// Rodrigues: the rotation matrix of a rotation vector.
pub fn exp_so3(w: V3) -> Mat {
    let th = norm(w);
    let k = skew(w);
    let (a, b) = if th < 1e-5 {
        (1.0 - th * th / 6.0, 0.5 - th * th / 24.0)
    } else {
        (th.sin() / th, (1.0 - th.cos()) / (th * th))
    };
    Mat::eye(3).add(&k.scale(a)).add(&k.mul(&k).scale(b))
}

pub fn skew(w: V3) -> Mat {
    Mat {
        r: 3,
        c: 3,
        d: vec![0.0, -w[2], w[1], w[2], 0.0, -w[0], -w[1], w[0], 0.0],
    }
}

pub fn apply(m: &Mat, v: V3) -> V3 {
    [
        m.at(0, 0) * v[0] + m.at(0, 1) * v[1] + m.at(0, 2) * v[2],
        m.at(1, 0) * v[0] + m.at(1, 1) * v[1] + m.at(1, 2) * v[2],
        m.at(2, 0) * v[0] + m.at(2, 1) * v[1] + m.at(2, 2) * v[2],
    ]
}

/// The angle of the rotation taking one attitude matrix to another.
pub fn angle_between(a: &Mat, b: &Mat) -> f64 {
    let d = a.t().mul(b);
    let w = [
        d.at(2, 1) - d.at(1, 2),
        d.at(0, 2) - d.at(2, 0),
        d.at(1, 0) - d.at(0, 1),
    ];
    (0.5 * norm(w)).atan2(0.5 * (d.trace() - 1.0))
}

pub fn wrap_pi(a: f64) -> f64 {
    let two = std::f64::consts::TAU;
    a - two * (a / two).round()
}

/// Cyclic Jacobi: eigenvalues and the matrix of eigenvectors (columns) of a symmetric matrix.
pub fn eigen(m: &Mat) -> (Vec<f64>, Mat) {
    let n = m.r;
    let mut a = m.sym();
    let mut v = Mat::eye(n);
    for _ in 0..60 {
        let mut off = 0.0f64;
        for i in 0..n {
            for j in i + 1..n {
                off = off.max(a.at(i, j).abs());
            }
        }
        if off <= 1e-18 * a.max_abs() {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                if a.at(p, q) == 0.0 {
                    continue;
                }
                let th = (a.at(q, q) - a.at(p, p)) / (2.0 * a.at(p, q));
                let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                let t = if th == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a.at(k, p), a.at(k, q));
                    a.set(k, p, c * x - s * y);
                    a.set(k, q, s * x + c * y);
                }
                for k in 0..n {
                    let (x, y) = (a.at(p, k), a.at(q, k));
                    a.set(p, k, c * x - s * y);
                    a.set(q, k, s * x + c * y);
                }
                for k in 0..n {
                    let (x, y) = (v.at(k, p), v.at(k, q));
                    v.set(k, p, c * x - s * y);
                    v.set(k, q, s * x + c * y);
                }
            }
        }
    }
    ((0..n).map(|i| a.at(i, i)).collect(), v)
}

/// The rotation vector of an attitude matrix, for turns under a half turn.
pub fn log_so3(m: &Mat) -> V3 {
    let w = [
        m.at(2, 1) - m.at(1, 2),
        m.at(0, 2) - m.at(2, 0),
        m.at(1, 0) - m.at(0, 1),
    ];
    let s = 0.5 * norm(w);
    let c = 0.5 * (m.trace() - 1.0);
    let th = s.atan2(c);
    if s < 1e-9 {
        return scale(w, 0.5);
    }
    scale(w, 0.5 * th / s)
}
