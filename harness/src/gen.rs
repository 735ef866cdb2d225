//! Shared generators and the plain-data case pieces they produce, plus small reference maths.
use cv_core::nalgebra::{IsometryMatrix3, Matrix3, Rotation3, UnitVector3, Vector3};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

pub type V3 = [f64; 3];

pub fn v3(a: V3) -> Vector3<f64> {
    Vector3::new(a[0], a[1], a[2])
}

pub fn uv(a: V3) -> UnitVector3<f64> {
    UnitVector3::new_normalize(v3(a))
}

/// 10^[lo,hi], log-uniform.
pub fn logu(lo: f64, hi: f64) -> BoxedStrategy<f64> {
    (lo..=hi).prop_map(|e| 10f64.powf(e)).boxed()
}

/// A signed scalar in [-1, 1] that likes the special values.
pub fn coord() -> BoxedStrategy<f64> {
    prop_oneof![
        10 => -1.0..=1.0f64,
        1 => Just(0.0),
        1 => Just(1.0),
        1 => Just(-1.0),
        1 => Just(0.5),
        1 => (-9.0..0.0f64).prop_map(|e| 10f64.powf(e)),
        1 => (-9.0..0.0f64).prop_map(|e| -10f64.powf(e)),
    ]
    .boxed()
}

/// A generic vector in the cube [-1,1]^3 (may be zero).
pub fn cube() -> BoxedStrategy<V3> {
    prop_oneof![20 => [coord(), coord(), coord()], 1 => Just([0.0; 3])].boxed()
}

/// Unit direction: mostly uniform on the sphere, sometimes axis aligned, in a coordinate plane or
/// very close to an axis.
pub fn dir() -> BoxedStrategy<V3> {
    prop_oneof![
        8 => (-1.0..=1.0f64, 0.0..std::f64::consts::TAU).prop_map(|(z, p)| {
            let r = (1.0 - z * z).max(0.0).sqrt();
            norm([r * p.cos(), r * p.sin(), z])
        }),
        1 => (0usize..3, any::<bool>()).prop_map(|(i, s)| {
            let mut v = [0.0; 3];
            v[i] = if s { 1.0 } else { -1.0 };
            v
        }),
        1 => (0usize..3, 0.0..std::f64::consts::TAU).prop_map(|(i, p)| {
            let mut v = [0.0; 3];
            v[(i + 1) % 3] = p.cos();
            v[(i + 2) % 3] = p.sin();
            norm(v)
        }),
        1 => (0usize..3, any::<bool>(), -8.0..-1.0f64, 0.0..std::f64::consts::TAU).prop_map(|(i, s, e, p)| {
            let mut v = [0.0; 3];
            v[i] = if s { 1.0 } else { -1.0 };
            v[(i + 1) % 3] = 10f64.powf(e) * p.cos();
            v[(i + 2) % 3] = 10f64.powf(e) * p.sin();
            norm(v)
        }),
        // Components that are equal, opposite or in simple ratios.
        1 => [-3i32..=3, -3i32..=3, -3i32..=3].prop_map(|v| {
            if v == [0; 3] { [0.0, 0.0, 1.0] } else { norm([v[0] as f64, v[1] as f64, v[2] as f64]) }
        }),
    ]
    .boxed()
}

/// Uniform direction on the sphere only.
pub fn udir() -> BoxedStrategy<V3> {
    (-1.0..=1.0f64, 0.0..std::f64::consts::TAU)
        .prop_map(|(z, p)| {
            let r = (1.0 - z * z).max(0.0).sqrt();
            norm([r * p.cos(), r * p.sin(), z])
        })
        .boxed()
}

pub fn norm(v: V3) -> V3 {
    let n = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
    [v[0] / n, v[1] / n, v[2] / n]
}

/// Axis-angle rotation as plain data.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Rot {
    pub axis: V3,
    pub angle: f64,
}

impl Rot {
    /// Rodrigues formula, written out independently of the code under test.
    pub fn mat(&self) -> Matrix3<f64> {
        rodrigues(v3(self.axis), self.angle)
    }
    pub fn rot(&self) -> Rotation3<f64> {
        Rotation3::from_matrix_unchecked(self.mat())
    }
}

pub fn rodrigues(k: Vector3<f64>, th: f64) -> Matrix3<f64> {
    let (s, c) = th.sin_cos();
    // 1 - cos without cancellation.
    let v = 2.0 * (th / 2.0).sin().powi(2);
    Matrix3::new(
        c + k.x * k.x * v,
        k.x * k.y * v - k.z * s,
        k.x * k.z * v + k.y * s,
        k.y * k.x * v + k.z * s,
        c + k.y * k.y * v,
        k.y * k.z * v - k.x * s,
        k.z * k.x * v - k.y * s,
        k.z * k.y * v + k.x * s,
        c + k.z * k.z * v,
    )
}

/// Reference exponential of so(3).
pub fn exp_so3(w: Vector3<f64>) -> Matrix3<f64> {
    let th = w.norm();
    if th == 0.0 {
        Matrix3::identity()
    } else {
        rodrigues(w / th, th)
    }
}

pub fn cross_mat(w: Vector3<f64>) -> Matrix3<f64> {
    Matrix3::new(0.0, -w.z, w.y, w.z, 0.0, -w.x, -w.y, w.x, 0.0)
}

const PI: f64 = std::f64::consts::PI;

/// Rotation angles in [-pi, pi] with the special regions over-represented.
pub fn angle() -> BoxedStrategy<f64> {
    prop_oneof![
        8 => -PI..=PI,
        1 => Just(0.0),
        1 => Just(PI / 2.0),
        1 => Just(-PI / 2.0),
        1 => Just(PI),
        1 => (-12i32..=12).prop_map(|k| k as f64 * PI / 12.0),
        1 => (-16.0..-1.0f64).prop_map(|e| 10f64.powf(e)),
        1 => (-16.0..-1.0f64).prop_map(|e| PI - 10f64.powf(e)),
    ]
    .boxed()
}

pub fn rot() -> BoxedStrategy<Rot> {
    (dir(), angle()).prop_map(|(axis, angle)| Rot { axis, angle }).boxed()
}

/// Rotations of at most `max` radians.
pub fn rot_upto(max: f64) -> BoxedStrategy<Rot> {
    (dir(), prop_oneof![6 => 0.0..=max, 1 => Just(0.0), 1 => (-12.0..0.0f64).prop_map(move |e| max * 10f64.powf(e))])
        .prop_map(|(axis, angle)| Rot { axis, angle })
        .boxed()
}

/// Rigid transform as plain data: x -> R x + t.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Iso {
    pub r: Rot,
    pub t: V3,
}

impl Iso {
    pub fn iso(&self) -> IsometryMatrix3<f64> {
        IsometryMatrix3::from_parts(v3(self.t).into(), self.r.rot())
    }
    pub fn apply(&self, p: Vector3<f64>) -> Vector3<f64> {
        self.r.mat() * p + v3(self.t)
    }
}

/// Translation: direction times log-uniform length, or zero.
pub fn trans(lo: f64, hi: f64) -> BoxedStrategy<V3> {
    prop_oneof![
        12 => (dir(), logu(lo, hi)).prop_map(|(d, s)| [d[0] * s, d[1] * s, d[2] * s]),
        // A unit, power of ten or small integer length.
        1 => (dir(), lo.ceil() as i32..=hi.floor().max(lo.ceil()) as i32).prop_map(|(d, e)| { let s = 10f64.powi(e); [d[0] * s, d[1] * s, d[2] * s] }),
        1 => Just([0.0; 3]),
    ]
    .boxed()
}

pub fn iso(lo: f64, hi: f64) -> BoxedStrategy<Iso> {
    (rot(), trans(lo, hi)).prop_map(|(r, t)| Iso { r, t }).boxed()
}

/// Largest absolute entry.
pub fn amax<R: cv_core::nalgebra::Dim, C: cv_core::nalgebra::Dim, S: cv_core::nalgebra::storage::Storage<f64, R, C>>(
    m: &cv_core::nalgebra::Matrix<f64, R, C, S>,
) -> f64 {
    let mut a = 0.0f64;
    for x in m.iter() {
        if x.is_nan() {
            return f64::NAN;
        }
        a = a.max(x.abs());
    }
    a
}

/// How far a matrix is from a proper rotation (NaN propagates).
pub fn rot_defect(m: &Matrix3<f64>) -> f64 {
    let o = amax(&(m.transpose() * m - Matrix3::identity()));
    let d = (m.determinant() - 1.0).abs();
    if o.is_nan() || d.is_nan() {
        f64::NAN
    } else {
        o.max(d)
    }
}

/// Angle between two vectors, accurate near 0 and pi.
pub fn ang(a: Vector3<f64>, b: Vector3<f64>) -> f64 {
    a.cross(&b).norm().atan2(a.dot(&b))
}

/// Angle of the rotation taking `a` to `b`.
pub fn rot_angle(a: &Matrix3<f64>, b: &Matrix3<f64>) -> f64 {
    let d = a.transpose() * b;
    let w = Vector3::new(d.m32 - d.m23, d.m13 - d.m31, d.m21 - d.m12);
    (w.norm()).atan2(d.trace() - 1.0)
}

/// Mostly a few, sometimes many of something.
pub fn few<S: Strategy + 'static>(s: S, few: std::ops::Range<usize>, many: std::ops::Range<usize>) -> BoxedStrategy<Vec<S::Value>>
where
    S::Value: Clone + std::fmt::Debug + 'static,
{
    let s = s.boxed();
    prop_oneof![15 => prop::collection::vec(s.clone(), few), 1 => prop::collection::vec(s, many)].boxed()
}
