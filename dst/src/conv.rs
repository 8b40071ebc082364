//! Between the library's types and the plain reference ones.

use crate::refs::*;
use multicalc::linear_algebra::{Matrix, Vector, Vector3D};
use multicalc::spatial::SO3;

pub fn m2<const A: usize, const B: usize>(m: &Matrix<A, B>) -> Mat {
    Mat::from_fn(A, B, |i, j| m[(i, j)])
}
pub fn a3(v: Vector3D<f64>) -> V3 {
    [v[0], v[1], v[2]]
}
pub fn v3(a: V3) -> Vector3D<f64> {
    Vector::new(a)
}
pub fn rot(r: SO3<f64>) -> Mat {
    // From the quaternion by the textbook formula, so that the library's own conversion is not
    // what it is compared with.
    let [w, x, y, z] = r.quaternion().as_array();
    Mat {
        r: 3,
        c: 3,
        d: vec![
            1.0 - 2.0 * (y * y + z * z),
            2.0 * (x * y - w * z),
            2.0 * (x * z + w * y),
            2.0 * (x * y + w * z),
            1.0 - 2.0 * (x * x + z * z),
            2.0 * (y * z - w * x),
            2.0 * (x * z - w * y),
            2.0 * (y * z + w * x),
            1.0 - 2.0 * (x * x + y * y),
        ],
    }
}
pub fn quat(r: SO3<f64>) -> [f64; 4] {
    r.quaternion().as_array()
}
