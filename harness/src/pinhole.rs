//! cv-pinhole: camera models, essential matrices, reprojection errors.
use crate::chk;
use crate::fw::*;
use crate::gen::*;
use crate::linalg::{jacobi_svd, svd3};
use cv_core::nalgebra::{IsometryMatrix3, Matrix3, Point2, UnitVector3, Vector2, Vector3};
use cv_core::sample_consensus::Model;
use cv_core::*;
use cv_pinhole::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Intr {
    f: [f64; 2],
    c: [f64; 2],
    skew: f64,
}

impl Intr {
    fn get(&self) -> CameraIntrinsics {
        CameraIntrinsics { focals: Vector2::new(self.f[0], self.f[1]), principal_point: Point2::new(self.c[0], self.c[1]), skew: self.skew }
    }
}

fn intr() -> BoxedStrategy<Intr> {
    let focal = || prop_oneof![6 => logu(2.0, 4.0), 2 => logu(-3.0, 6.0), 1 => Just(1.0)];
    let pp = || prop_oneof![6 => 0.0..4000.0f64, 2 => -1e4..1e4f64, 1 => Just(0.0)];
    (
        [focal(), focal()],
        [pp(), pp()],
        // skew as a fraction of the horizontal focal length
        prop_oneof![3 => Just(0.0), 3 => -0.01..0.01f64, 2 => -1.0..1.0f64],
    )
        .prop_map(|(f, c, s)| Intr { f, c, skew: s * f[0] })
        .boxed()
}

/// Offset from the optical axis in focal lengths: mostly within a normal field of view.
fn focal_plane() -> BoxedStrategy<[f64; 2]> {
    prop_oneof![
        10 => [-2.0..2.0f64, -2.0..2.0f64],
        1 => Just([0.0, 0.0]),
        1 => (-2.0..2.0f64).prop_map(|y| [0.0, y]),
        1 => (-2.0..2.0f64).prop_map(|x| [x, 0.0]),
        2 => (logu(-9.0, 3.0), 0.0..std::f64::consts::TAU).prop_map(|(r, p)| [r * p.cos(), r * p.sin()]),
    ]
    .boxed()
}

fn unit_scale(i: &Intr, x: [f64; 2]) -> f64 {
    // magnitude of the terms that make up a pixel coordinate
    (i.f[0].abs() + i.skew.abs()) * x[0].abs().max(x[1].abs()) + i.f[1].abs() * x[1].abs() + i.c[0].abs().max(i.c[1].abs())
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CalCase {
    i: Intr,
    x: [f64; 2],
    flip: bool,
}

fn cal_strat() -> BoxedStrategy<CalCase> {
    (intr(), focal_plane(), any::<bool>()).prop_map(|(i, x, flip)| CalCase { i, x, flip }).boxed()
}

fn cal_check(c: &CalCase, obs: &mut Obs) -> Check {
    let cam = c.i.get();
    let [x, y] = c.x;
    if (x != 0.0 || y != 0.0) && c.i.f[0] != c.i.f[1] {
        obs.nontrivial();
    }
    obs.label_if(c.i.skew != 0.0, "skew");
    let k = cam.matrix();
    let px = c.i.f[0] * x + c.i.skew * y + c.i.c[0];
    let py = c.i.f[1] * y + c.i.c[1];
    let sc = unit_scale(&c.i, c.x);
    let kx = k * Vector3::new(x, y, 1.0);
    chk!((kx - Vector3::new(px, py, 1.0)).norm() <= 1e-13 * (1.0 + sc), "matrix() maps {:?} to {:?} instead of ({}, {}, 1)", c.x, kx, px, py);
    let fmin = c.i.f[0].min(c.i.f[1]);
    // error of pixel coordinates, brought back to the focal plane
    let kappa = 1.0 + c.i.skew.abs() / c.i.f[0];
    let plane_tol = 1e-13 * (1.0 + sc / fmin) * kappa + 1e-13 * (x.abs() + y.abs());
    // bearing -> pixel
    let want = Vector3::new(x, y, 1.0);
    let b = UnitVector3::new_normalize(want);
    let pix = cam.uncalibrate(b);
    chk!(pix.is_some(), "bearing {:?} in front of the camera has no pixel", b);
    let pix = pix.unwrap().0;
    chk!((pix.x - px).abs() <= 1e-13 * (1.0 + sc) && (pix.y - py).abs() <= 1e-13 * (1.0 + sc), "bearing {:?} is at pixel {:?}, not ({}, {})", b, pix, px, py);
    // pixel -> bearing
    let back = cam.calibrate(KeyPoint(Point2::new(px, py)));
    chk!((back.norm() - 1.0).abs() <= 1e-14, "bearing {:?} is not a unit vector", back);
    chk!(back.z > 0.0, "calibrated bearing {:?} points backwards", back);
    let r = want.norm_squared();
    let d = ang(back.into_inner(), want);
    chk!(d <= plane_tol + 1e-14, "pixel ({}, {}) has bearing {:?}, expected {:?} (angle {})", px, py, back, b, d);
    // round trips
    let rt = cam.uncalibrate(back).map(|k| k.0);
    let rt_tol = 1e-12 * (1.0 + sc) * (1.0 + r) + 4.0 * plane_tol * (1.0 + r) * (c.i.f[0] + c.i.f[1] + c.i.skew.abs());
    chk!(matches!(rt, Some(p) if (p.x - px).abs() <= rt_tol && (p.y - py).abs() <= rt_tol), "pixel ({}, {}) comes back as {:?}", px, py, rt);
    // The pixel of a point does not depend on its depth; a bearing to behind the camera has no pixel.
    let behind = UnitVector3::new_normalize(Vector3::new(if c.flip { -x } else { x }, if c.flip { -y } else { y }, -1.0));
    chk!(cam.uncalibrate(behind).is_none(), "bearing {:?} behind the camera got a pixel", behind);
    Ok(())
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct K1Case {
    i: Intr,
    k1: f64,
    /// undistorted position on the focal plane, used by the inverse direction
    u: [f64; 2],
    /// distorted radius as a fraction of the monotonic range
    frac: f64,
    phi: f64,
}

fn k1_strat() -> BoxedStrategy<K1Case> {
    (
        intr(),
        prop_oneof![6 => -0.6..0.6f64, 1 => Just(0.0), 1 => logu(-14.0, 1.0), 1 => logu(-14.0, 1.0).prop_map(|x| -x)],
        focal_plane(),
        prop_oneof![8 => 0.0..0.97f64, 1 => Just(0.0), 1 => logu(-8.0, -1.0)],
        0.0..std::f64::consts::TAU,
    )
        .prop_map(|(i, k1, u, frac, phi)| K1Case { i, k1, u, frac, phi })
        .boxed()
}

fn k1_check(c: &K1Case, obs: &mut Obs) -> Check {
    let simple = c.i.get();
    let cam = CameraIntrinsicsK1Distortion::new(simple, c.k1);
    // 1. pixel -> bearing -> pixel inside the range where the distortion is invertible
    let limit = if c.k1 == 0.0 { 3.0 } else { (1.0 / c.k1.abs().sqrt()).min(3.0) };
    let r = limit * c.frac;
    let d = [r * c.phi.cos(), r * c.phi.sin()];
    let px = c.i.f[0] * d[0] + c.i.skew * d[1] + c.i.c[0];
    let py = c.i.f[1] * d[1] + c.i.c[1];
    let sc = unit_scale(&c.i, d);
    let fmin = c.i.f[0].min(c.i.f[1]);
    let kappa = 1.0 + c.i.skew.abs() / c.i.f[0];
    let plane_tol = 1e-13 * (1.0 + sc / fmin) * kappa;
    let den = 1.0 + c.k1 * r * r;
    let b = cam.calibrate(KeyPoint(Point2::new(px, py)));
    let want = Vector3::new(d[0] / den, d[1] / den, 1.0);
    obs.label_if(c.k1 == 0.0, "k1 = 0");
    obs.label_if(r == 0.0, "principal point");
    if r > 0.0 && c.k1 != 0.0 {
        obs.nontrivial();
    }
    // d(u)/d(r) is bounded by (1 + |k1| r^2) / den^2
    let gain = (1.0 + c.k1.abs() * r * r) / (den * den);
    chk!((b.norm() - 1.0).abs() <= 1e-14 && b.z > 0.0, "bearing {:?} is not a forward unit vector", b);
    chk!(ang(b.into_inner(), want) <= gain * plane_tol + 1e-13, "pixel ({}, {}) has bearing {:?}, expected direction {:?}", px, py, b, want);
    // 2. bearing -> pixel
    for (name, bearing) in [("calibrated", b), ("arbitrary", UnitVector3::new_normalize(Vector3::new(c.u[0], c.u[1], 1.0)))] {
        let u = bearing.xy() / bearing.z;
        let u2 = u.norm_squared();
        let disc = 1.0 - 4.0 * c.k1 * u2;
        if disc.abs() < 1e-6 * (1.0 + u2) {
            obs.label("skipped: at the fold of the distortion");
            continue;
        }
        let got = cam.uncalibrate(bearing);
        if disc < 0.0 {
            obs.label("no pixel sees this bearing");
            chk!(got.is_none(), "{} bearing {:?} cannot be seen through k1 = {} but got pixel {:?}", name, bearing, c.k1, got);
            continue;
        }
        chk!(got.is_some(), "{} bearing {:?} got no pixel", name, bearing);
        let got = got.unwrap().0;
        let s = 2.0 / (1.0 + disc.sqrt());
        let (ex, ey) = (u.x * s, u.y * s);
        let wx = c.i.f[0] * ex + c.i.skew * ey + c.i.c[0];
        let wy = c.i.f[1] * ey + c.i.c[1];
        let sc = unit_scale(&c.i, [ex, ey]);
        let tol = 1e-12 * (1.0 + sc) * (1.0 + (1.0 + u2) / disc.sqrt());
        chk!((got.x - wx).abs() <= tol && (got.y - wy).abs() <= tol, "{} bearing {:?} is at pixel {:?}, expected ({}, {})", name, bearing, got, wx, wy);
        // and calibrate takes it back
        let again = cam.calibrate(KeyPoint(got));
        let e2 = ex * ex + ey * ey;
        let den = 1.0 + c.k1 * e2;
        let gain = (1.0 + c.k1.abs() * e2) / (den * den);
        let back_tol = gain * (tol / fmin * kappa + 1e-13 * (1.0 + sc / fmin) * kappa) + 1e-12;
        chk!(ang(again.into_inner(), bearing.into_inner()) <= back_tol, "{} bearing {:?} comes back as {:?}", name, bearing, again);
        if name == "calibrated" {
            let tol = (1.0 + sc) * 1e-12 * (1.0 + u2) * (1.0 + 4.0 / disc.sqrt()) + gain * plane_tol * (1.0 + u2) * (c.i.f[0] + c.i.f[1] + c.i.skew.abs()) * 4.0 / disc.sqrt();
            chk!((got.x - px).abs() <= tol && (got.y - py).abs() <= tol, "pixel ({}, {}) comes back as {:?}", px, py, got);
        }
    }
    // 3. behind the camera
    let behind = UnitVector3::new_normalize(Vector3::new(c.u[0], c.u[1], -1.0));
    chk!(cam.uncalibrate(behind).is_none(), "bearing {:?} behind the camera got a pixel", behind);
    // 4. without distortion both models agree
    let plain = CameraIntrinsicsK1Distortion::new(simple, 0.0);
    let k = KeyPoint(Point2::new(px, py));
    chk!((plain.calibrate(k).into_inner() - simple.calibrate(k).into_inner()).norm() <= 1e-13, "k1 = 0 calibrates differently from the plain model");
    let (p, q) = (plain.uncalibrate(simple.calibrate(k)), simple.uncalibrate(simple.calibrate(k)));
    chk!(matches!((p, q), (Some(p), Some(q)) if (p.0 - q.0).norm() <= 1e-12 * (1.0 + sc)), "k1 = 0 uncalibrates to {:?}, the plain model to {:?}", p, q);
    Ok(())
}

// ---------------------------------------------------------------- C12

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SpecCase {
    px: [usize; 2],
    sensor: [f64; 2],
    focal: f64,
    i: Intr,
    j: Intr,
}

fn spec_strat() -> BoxedStrategy<SpecCase> {
    let n = || prop_oneof![6 => 1usize..10_000, 1 => Just(1usize), 1 => 10_000usize..1_000_000];
    ([n(), n()], [logu(-4.0, 0.0), logu(-4.0, 0.0)], logu(-3.0, 5.0), intr(), intr())
        .prop_map(|(px, sensor, focal, i, j)| SpecCase { px, sensor, focal, i, j })
        .boxed()
}

fn rel(a: f64, b: f64) -> f64 {
    (a - b).abs() / a.abs().max(b.abs()).max(1e-300)
}

fn spec_check(c: &SpecCase, obs: &mut Obs) -> Check {
    let px = Vector2::new(c.px[0], c.px[1]);
    if c.px[0] != c.px[1] {
        obs.nontrivial();
    }
    let a = CameraSpecification::from_sensor(px, Vector2::new(c.sensor[0], c.sensor[1]));
    let b = CameraSpecification::from_sensor_square(px, c.sensor[0]);
    chk!(a.pixels == px && b.pixels == px, "pixel counts are not kept");
    chk!(
        rel(a.pixel_dimensions.x * c.px[0] as f64, c.sensor[0]) < 1e-14 && rel(a.pixel_dimensions.y * c.px[1] as f64, c.sensor[1]) < 1e-14,
        "pixels of size {:?} do not make up a sensor of {:?}", a.pixel_dimensions, c.sensor
    );
    chk!(
        rel(b.pixel_dimensions.x * c.px[0] as f64, c.sensor[0]) < 1e-14 && b.pixel_dimensions.x == b.pixel_dimensions.y,
        "square pixels of size {:?} do not make up a sensor of width {}", b.pixel_dimensions, c.sensor[0]
    );
    for s in [a, b] {
        let i = s.intrinsics_centered(c.focal);
        chk!(i.focals == Vector2::new(c.focal, c.focal) && i.skew == 0.0, "centred intrinsics have focals {:?}, skew {}", i.focals, i.skew);
        // The centre is equally far from opposite corner pixels.
        let far = KeyPoint(Point2::new((c.px[0] - 1) as f64, (c.px[1] - 1) as f64));
        let (p, q) = (i.calibrate(KeyPoint(Point2::origin())), i.calibrate(far));
        let d = Vector3::new(p.x + q.x, p.y + q.y, p.z - q.z);
        chk!(d.norm() <= 1e-12, "principal point {:?} is not the centre of {:?} pixels: corner bearings {:?} and {:?}", i.principal_point, c.px, p, q);
    }
    // Builders set exactly the named parameter.
    let (i, j) = (c.i.get(), c.j.get());
    let f = i.focals(j.focals);
    chk!(f.focals == j.focals && f.principal_point == i.principal_point && f.skew == i.skew, "focals()");
    let f = i.principal_point(j.principal_point);
    chk!(f.focals == i.focals && f.principal_point == j.principal_point && f.skew == i.skew, "principal_point()");
    let f = i.skew(j.skew);
    chk!(f.focals == i.focals && f.principal_point == i.principal_point && f.skew == j.skew, "skew()");
    let f = i.focal(c.focal);
    chk!(f.focals == Vector2::new(c.focal, c.focal) && f.principal_point == i.principal_point && f.skew == i.skew, "focal()");
    chk!(CameraIntrinsics::identity().matrix() == Matrix3::identity(), "identity()");
    Ok(())
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EssCase {
    pose: Iso,
    p: V3,
    dist: f64,
    a: V3,
    b: V3,
    k: f64,
    flip: [bool; 2],
}

fn ess_strat() -> BoxedStrategy<EssCase> {
    (iso(-3.0, 3.0), dir(), logu(-2.0, 3.0), dir(), dir(), logu(-3.0, 3.0), any::<[bool; 2]>())
        .prop_map(|(pose, p, dist, a, b, k, flip)| EssCase { pose, p, dist, a, b, k, flip })
        .boxed()
}

fn ess_check(c: &EssCase, obs: &mut Obs) -> Check {
    let r = c.pose.r.mat();
    let t = v3(c.pose.t);
    let pose = CameraToCamera(c.pose.iso());
    let e = EssentialMatrix::from(pose);
    let m = e.0;
    let n = t.norm();
    if n > 0.0 && c.pose.r.angle != 0.0 {
        obs.nontrivial();
    }
    // Internal constraints of an essential matrix.
    let tol = 1e-14 * n;
    chk!(m.determinant().abs() <= 1e-13 * n * n * n, "determinant {}", m.determinant());
    let mmt = m * m.transpose();
    chk!(amax(&(mmt * m * 2.0 - m * mmt.trace())) <= 1e-12 * n * n * n, "2EE'E - tr(EE')E is not zero");
    chk!((m.transpose() * t).norm() <= 10.0 * tol * n && (m * (r.transpose() * t)).norm() <= 10.0 * tol * n, "the epipoles are not in the null spaces");
    chk!(rel(m.norm_squared(), 2.0 * n * n) <= 1e-13 || n == 0.0, "norm^2 {} should be {}", m.norm_squared(), 2.0 * n * n);
    // Exact matches satisfy the epipolar constraint, whichever sign the bearings have.
    let pa = v3(c.p) * c.dist;
    let pb = r * pa + t;
    let sg = |f: bool| if f { -1.0 } else { 1.0 };
    if pa.z.abs() > 1e-6 * pa.norm() && pb.z.abs() > 1e-6 * pb.norm() && pb.norm() > 1e-6 * (n + c.dist) {
        let fm = FeatureMatch(UnitVector3::new_normalize(pa * sg(c.flip[0])), UnitVector3::new_normalize(pb * sg(c.flip[1])));
        let res = e.residual(&fm);
        let amp = (pa.norm() / pa.z.abs()) * (pb.norm() / pb.z.abs()) * (1.0 + (n + c.dist) / pb.norm());
        chk!(res >= 0.0 && res <= 1e-14 * n * amp, "exact match has residual {} (allowed {})", res, 1e-14 * n * amp);
        obs.label("exact match");
    }
    // In general it is the triple product of b, t and the rotated a on the z = 1 planes.
    let (a, b) = (v3(c.a), v3(c.b));
    if a.z.abs() > 1e-9 && b.z.abs() > 1e-9 {
        let want = (b / b.z).dot(&t.cross(&(r * (a / a.z)))).abs();
        let fm = FeatureMatch(UnitVector3::new_normalize(a), UnitVector3::new_normalize(b));
        let res = e.residual(&fm);
        let mag = n / (a.z.abs() * b.z.abs());
        chk!(res >= 0.0 && (res - want).abs() <= 1e-13 * mag, "residual {} should be {}", res, want);
        // Swapping the cameras transposes the matrix.
        let inv = EssentialMatrix::from(pose.inverse());
        let back = inv.residual(&FeatureMatch(fm.1, fm.0));
        chk!((back - want).abs() <= 1e-13 * mag, "residual from the other camera {} should be {}", back, want);
        chk!((EssentialMatrix(m.transpose()).residual(&FeatureMatch(fm.1, fm.0)) - want).abs() <= 1e-13 * mag, "transposed matrix");
        // Linear in the scale of the scene.
        let s = EssentialMatrix::from(pose.scale(c.k));
        chk!((s.residual(&fm) - c.k * want).abs() <= 1e-13 * c.k * mag, "scaled pose: residual {} should be {}", s.residual(&fm), c.k * want);
        chk!((EssentialMatrix(-m).residual(&fm) - want).abs() <= 1e-13 * mag, "negated matrix");
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DecCase {
    pose: Iso,
    k: f64,
    neg: bool,
    p: V3,
    dist: f64,
    eps_exp: f64,
    noise: [V3; 3],
    noise_mag: f64,
}

fn dec_strat() -> BoxedStrategy<DecCase> {
    (
        (rot(), dir(), logu(-2.0, 2.0)).prop_map(|(r, d, s)| Iso { r, t: [d[0] * s, d[1] * s, d[2] * s] }),
        logu(-3.0, 3.0),
        any::<bool>(),
        dir(),
        logu(-1.0, 1.0),
        prop_oneof![Just(-6.0), Just(-12.0), -15.0..-6.0f64],
        [cube(), cube(), cube()],
        prop_oneof![3 => Just(0.0), 1 => logu(-8.0, 0.0)],
    )
        .prop_map(|(pose, k, neg, p, dist, eps_exp, noise, noise_mag)| DecCase { pose, k, neg, p, dist, eps_exp, noise, noise_mag })
        .boxed()
}

fn mat3(a: [V3; 3]) -> Matrix3<f64> {
    Matrix3::from_columns(&[v3(a[0]), v3(a[1]), v3(a[2])])
}

struct Decomposed {
    /// Smallest distance of one of the four solutions from the true rotation and direction.
    truth: f64,
    /// Largest relative distance between a solution's essential matrix and the input.
    matrix: f64,
    four: [CameraToCamera; 4],
}

/// Decompose and check everything that has to hold whatever the accuracy of the solver.
fn decompose(m: Matrix3<f64>, eps: f64, r: &Matrix3<f64>, th: Vector3<f64>, scale: f64) -> Result<Decomposed, String> {
    let e = EssentialMatrix(m);
    let got = e.possible_rotations_unscaled_translation(eps, 1000);
    chk!(got.is_some(), "no decomposition of {:?}", m);
    let (ra, rb, tt) = got.unwrap();
    for q in [ra, rb] {
        chk!(rot_defect(q.matrix()) <= 1e-12, "{:?} is not a proper rotation", q.matrix());
    }
    chk!((tt.norm() - 1.0).abs() <= 1e-12, "translation {:?} is not a unit vector", tt);
    // The rotations are related by half a turn about the translation.
    let half = rodrigues(tt, std::f64::consts::PI);
    chk!(amax(&(half * ra.matrix() - rb.matrix())) <= 1e-11, "rotations {:?} and {:?} are not half a turn about {:?} apart", ra.matrix(), rb.matrix(), tt);
    // The other entry points report the same solutions.
    let four = e.possible_unscaled_poses(eps, 1000);
    let two = e.possible_unscaled_poses_bearing(eps, 1000);
    let rots = e.possible_rotations(eps, 1000);
    chk!(four.is_some() && two.is_some() && rots.is_some(), "other decompositions fail");
    let (four, two, rots) = (four.unwrap(), two.unwrap(), rots.unwrap());
    let close = |p: &CameraToCamera, q: &Matrix3<f64>, s: Vector3<f64>| amax(&(p.0.rotation.matrix() - q)) <= 1e-12 && (p.0.translation.vector - s).norm() <= 1e-12;
    for (q, s) in [(ra, tt), (rb, tt), (ra, -tt), (rb, -tt)] {
        chk!(four.iter().filter(|p| close(p, q.matrix(), s)).count() == 1, "possible_unscaled_poses lacks rotation {:?} translation {:?}: {:?}", q.matrix(), s, four);
    }
    for q in [ra, rb] {
        chk!(two.iter().any(|p| close(p, q.matrix(), tt) || close(p, q.matrix(), -tt)), "possible_unscaled_poses_bearing lacks {:?}: {:?}", q.matrix(), two);
        chk!(rots.iter().any(|p| amax(&(p.matrix() - q.matrix())) <= 1e-12), "possible_rotations lacks {:?}: {:?}", q.matrix(), rots);
    }
    let (mut truth, mut matrix) = (f64::INFINITY, 0.0f64);
    for p in &four {
        truth = truth.min(amax(&(p.0.rotation.matrix() - r)).max((p.0.translation.vector - th).norm()));
        let f = cross_mat(p.0.translation.vector) * p.0.rotation.matrix() * scale;
        matrix = matrix.max((f - m).norm().min((f + m).norm()) / scale);
    }
    Ok(Decomposed { truth, matrix, four })
}

fn dec_check(c: &DecCase, obs: &mut Obs) -> Check {
    let r = c.pose.r.mat();
    let t = v3(c.pose.t);
    let n = t.norm();
    let eps = 10f64.powf(c.eps_exp);
    let k = if c.neg { -c.k } else { c.k };
    let exact = EssentialMatrix::from(CameraToCamera(c.pose.iso())).0 * k;
    if c.noise_mag != 0.0 {
        obs.label("noisy matrix");
        let m = exact + mat3(c.noise) * (c.noise_mag * n * c.k);
        let (s, _, _) = svd3(&m);
        let mean = 0.5 * (s[0] + s[1]);
        if !(s[0] > 0.0 && s[1] - s[2] > 0.05 * s[0]) {
            return Ok(());
        }
        let d = decompose(m, eps, &r, t / n, mean)?;
        obs.nontrivial();
        // Each solution belongs to the essential matrix closest to the input.
        let best = (0.5 * (s[0] - s[1]).powi(2) + s[2] * s[2]).sqrt() / mean;
        chk!(d.matrix <= best + 0.1, "a solution's essential matrix is {} away from the input, the closest one {}: {:?}", d.matrix, best, d.four);
        return Ok(());
    }
    if c.pose.r.angle != 0.0 {
        obs.nontrivial();
    }
    obs.label("exact matrix");
    let th = t / n;
    // The solver of the dependency is accurate but for rare inputs, so of two evaluations in
    // different frames one has to be accurate and both have to be right.
    let d1 = decompose(exact, eps, &r, th, n * c.k)?;
    let (qa, qb) = (mat3(c.noise), rodrigues(v3(c.p), 1.1));
    let qa = exp_so3(qa.column(0).into_owned() + qa.column(1) * 0.5);
    let d2 = decompose(qb * exact * qa.transpose(), eps, &(qb * r * qa.transpose()), qb * th, n * c.k)?;
    obs.max("pose error", d1.truth);
    let tight = 1e-6 + 20.0 * eps;
    chk!(d1.truth.max(d2.truth) <= 0.1 && d1.truth.min(d2.truth) <= tight, "the true pose (rotation {:?}, direction {:?}) is {} ({} in rotated frames) away from {:?}", r, th, d1.truth, d2.truth, d1.four);
    chk!(d1.matrix.max(d2.matrix) <= 0.1 && d1.matrix.min(d2.matrix) <= tight, "solutions have an essential matrix {} ({} in rotated frames) away from the input: {:?}", d1.matrix, d2.matrix, d1.four);
    // Exactly one of the four sees a finite point in front of both cameras.
    let pa = v3(c.p) * (c.dist * n);
    let pb = r * pa + t;
    let parallax = ang(r * pa, pb);
    if parallax > 0.02 && parallax < std::f64::consts::PI - 0.02 && d1.truth < 1e-4 {
        obs.label("cheirality");
        let (ua, ub) = (pa.normalize(), pb.normalize());
        let good = d1
            .four
            .iter()
            .filter(|p| {
                // depths along both rays: x ub = y R ua + t
                let rua = p.0.rotation.matrix() * ua;
                let t = p.0.translation.vector;
                let cr = rua.cross(&ub);
                let (dy, dx) = (-t.cross(&ub).dot(&cr), -t.cross(&rua).dot(&cr));
                dy > 0.0 && dx > 0.0
            })
            .count();
        chk!(good == 1, "{} of the four poses see the point in front of both cameras", good);
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RecCase {
    u: Rot,
    v: Rot,
    s: [f64; 3],
    neg: bool,
    scale: f64,
    rival: Iso,
    step: f64,
}

fn rec_strat() -> BoxedStrategy<RecCase> {
    (
        rot(),
        rot(),
        prop_oneof![
            6 => [0.0..=1.0f64, 0.0..=1.0f64, 0.0..=1.0f64],
            2 => (0.1..1.0f64, logu(-9.0, -1.0)).prop_map(|(a, e)| [a, a + e, e]),
            1 => (0.1..1.0f64).prop_map(|a| [a, a, 0.0]),
            1 => (0.1..1.0f64).prop_map(|a| [a, a, a]),
            1 => (0.1..1.0f64).prop_map(|a| [a, 0.0, 0.0]),
        ],
        any::<bool>(),
        logu(-4.0, 4.0),
        iso(-1.0, 1.0),
        prop_oneof![1 => Just(1.0), 2 => logu(-6.0, 0.0)],
    )
        .prop_map(|(u, v, s, neg, scale, rival, step)| RecCase { u, v, s, neg, scale, rival, step })
        .boxed()
}

fn rec_check(c: &RecCase, obs: &mut Obs) -> Check {
    let sgn = if c.neg { -1.0 } else { 1.0 };
    let d = Matrix3::from_diagonal(&(v3(c.s) * c.scale));
    let m = c.u.mat() * d * c.v.mat() * sgn;
    let mut s = [c.s[0] * c.scale, c.s[1] * c.scale, c.s[2] * c.scale];
    s.sort_by(|a, b| b.partial_cmp(a).unwrap());
    if s[0] - s[1] > 1e-3 * s[0] && s[2] > 1e-3 * s[0] {
        obs.nontrivial();
    }
    let eps = 1e-14;
    let mean = 0.5 * (s[0] + s[1]);
    if mean == 0.0 {
        return Ok(());
    }
    let best = (0.5 * (s[0] - s[1]).powi(2) + s[2] * s[2]).sqrt() / mean;
    // The solver of the dependency is accurate but for rare inputs, so of two evaluations in
    // different frames one has to be accurate and both have to be right.
    let mut errs = [0.0f64; 2];
    for (i, q) in [Matrix3::identity(), exp_so3(v3(c.rival.t) * 3.7 + Vector3::new(1.0, 0.4, -0.6))].iter().enumerate() {
        let m = q * m * q;
        let out = EssentialMatrix(m).recondition(eps, 1000);
        chk!(out.is_some(), "no reconditioned matrix for {:?}", m);
        let e = out.unwrap().0;
        let so = jacobi_svd(&e).s;
        // Structure: two equal singular values (their mean in the input) and a zero.
        let mut err = (so[0] / mean - 1.0).abs().max((so[1] / mean - 1.0).abs()).max(so[2] / mean);
        // Closeness: as near as an essential matrix can be.
        let dist = (e - m).norm() / mean;
        err = err.max((dist - best).abs());
        let again = EssentialMatrix(e).recondition(eps, 1000);
        chk!(again.is_some(), "no reconditioned matrix for {:?}", e);
        err = err.max(amax(&(again.unwrap().0 - e)) / mean);
        errs[i] = err;
        chk!(err <= 0.1, "recondition({:?}) = {:?} is not the closest essential matrix: singular values {:?} (expected {} twice), distance {} (possible: {}), defect {}", m, e, so, mean, dist * mean, best * mean, err);
        // Direct rivals: other essential matrices, near and far, are no closer.
        let rt = v3(c.rival.t);
        let q = exp_so3(v3(c.rival.r.axis) * (c.rival.r.angle * c.step));
        let q2 = exp_so3(rt * (c.step * 0.3));
        let near = q * e * q2 * (1.0 + 0.3 * c.step * c.rival.r.angle.sin());
        let far = cross_mat(rt) * c.rival.r.mat() * c.scale;
        for rival in [near, far] {
            chk!((rival - m).norm() / mean >= dist - 0.1, "a rival essential matrix is closer: {} < {}", (rival - m).norm(), dist * mean);
        }
    }
    obs.max("defect", errs[0].min(errs[1]));
    chk!(errs[0].min(errs[1]) <= 1e-6, "recondition({:?}) is inaccurate in two frames: defects {:?}", m, errs);
    Ok(())
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ReprCase {
    pose: Iso,
    a: [f64; 2],
    b: [f64; 2],
    /// the point the stub triangulator claims, homogeneous
    p: V3,
    dist: f64,
    infinite: bool,
    none: bool,
    exact: bool,
    neg: [bool; 2],
}

fn repr_strat() -> BoxedStrategy<ReprCase> {
    let plane = || [-3.0..3.0f64, -3.0..3.0f64];
    (
        (iso(-2.0, 1.0), plane(), plane(), udir(), logu(-1.0, 2.0)),
        (prop::bool::weighted(0.1), prop::bool::weighted(0.05), any::<bool>(), [prop::bool::weighted(0.1), prop::bool::weighted(0.1)]),
    )
        .prop_map(|((pose, a, b, p, dist), (infinite, none, exact, neg))| ReprCase { pose, a, b, p, dist, infinite, none, exact, neg })
        .boxed()
}

struct Stub {
    answer: Option<CameraPoint>,
    want: (IsometryMatrix3<f64>, UnitVector3<f64>, UnitVector3<f64>),
}

impl TriangulatorRelative for &Stub {
    fn triangulate_relative(&self, pose: CameraToCamera, a: UnitVector3<f64>, b: UnitVector3<f64>) -> Option<CameraPoint> {
        assert!(pose.0 == self.want.0, "the triangulator got another pose");
        assert!(a == self.want.1 && b == self.want.2, "the triangulator got other bearings");
        self.answer
    }
}

fn repr_check(c: &ReprCase, obs: &mut Obs) -> Check {
    let r = c.pose.r.mat();
    let t = v3(c.pose.t);
    let w = if c.infinite { 0.0 } else { 1.0 / c.dist };
    let pa = v3(c.p);
    let pb = r * pa + t * w;
    if pa.z.abs() < 1e-6 || pb.z.abs() < 1e-6 {
        obs.label("skipped: point in the camera plane");
        return Ok(());
    }
    let point = CameraPoint::from_homogeneous(pa.push(w));
    let sg = |n: bool| if n { -1.0 } else { 1.0 };
    let (a, b) = if c.exact {
        (pa, pb)
    } else {
        (Vector3::new(c.a[0], c.a[1], 1.0) * sg(c.neg[0]), Vector3::new(c.b[0], c.b[1], 1.0) * sg(c.neg[1]))
    };
    let (ua, ub) = (UnitVector3::new_normalize(a), UnitVector3::new_normalize(b));
    let pose = CameraToCamera(c.pose.iso());
    let stub = Stub { answer: if c.none { None } else { Some(point) }, want: (pose.0, ua, ub) };
    let got = pose_reprojection_error(pose, FeatureMatch(ua, ub), &stub);
    let avg = average_pose_reprojection_error(pose, FeatureMatch(ua, ub), &stub);
    if c.none || pa.z < 0.0 || pb.z < 0.0 {
        obs.label(if c.none { "no point" } else { "point behind a camera" });
        chk!(got.is_none() && avg.is_none(), "error {:?} (average {:?}) without a point in front of both cameras", got, avg);
        return Ok(());
    }
    obs.nontrivial();
    chk!(got.is_some() && avg.is_some(), "no error for a point in front of both cameras");
    let (got, avg) = (got.unwrap(), avg.unwrap());
    let ea = a.xy() / a.z - pa.xy() / pa.z;
    let eb = b.xy() / b.z - pb.xy() / pb.z;
    let tol = 1e-13 * (1.0 + (1.0 + t.norm() * w) / pa.z.abs().min(pb.z.abs()).powi(2)) * (1.0 + t.norm() * w);
    chk!((got[0] - ea).norm() <= tol && (got[1] - eb).norm() <= tol, "errors {:?} should be {:?} and {:?}", got, ea, eb);
    let m = 0.5 * (ea.norm() + eb.norm());
    chk!((avg - m).abs() <= tol, "average error {} should be {}", avg, m);
    if c.exact {
        obs.label("exact");
        chk!(avg <= tol, "exact match has an average error of {}", avg);
    }
    Ok(())
}

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "C10",
            assumptions: &["focal lengths are positive; bearings exactly in the camera plane (z = 0) are not generated"],
            laws: vec![law("intrinsics", "intrinsics (focals 1e-3..1e6, any principal point, skew up to the focal length) x position on the focal plane; non-trivial: off-centre and focals differ", 4_000_000, 60_000_000, cal_strat, cal_check)],
        },
        Property {
            id: "C11",
            assumptions: &["pixels beyond the radius where the K1 polynomial folds over are outside the model; bearings within 1e-6 of the fold are skipped"],
            laws: vec![law("k1_distortion", "intrinsics x k1 in [-10,10] (also 0 and tiny) x pixel inside the invertible radius x arbitrary forward bearing; non-trivial: k1 and radius non-zero", 4_000_000, 60_000_000, k1_strat, k1_check)],
        },
        Property {
            id: "C12",
            assumptions: &[],
            laws: vec![law("camera_specification", "resolution 1..1e6 px per side x sensor size x focal x two intrinsics; non-trivial: width differs from height", 2_000_000, 40_000_000, spec_strat, spec_check)],
        },
        Property {
            id: "C13",
            assumptions: &["bearings within 1e-9 of the camera plane are not asserted: the residual divides by z"],
            laws: vec![law("epipolar_constraint", "relative pose x point x two free bearings x scale; non-trivial: rotation and translation non-zero", 4_000_000, 60_000_000, ess_strat, ess_check)],
        },
        Property {
            id: "C14",
            assumptions: &["translation is non-zero; SVD epsilon at most 1e-6 as the documentation recommends, 1000 iterations"],
            laws: vec![law("decompose_essential", "pose x scale x sign x solver epsilon, exact or with noise up to the matrix' own size; non-trivial: rotation non-zero, or noisy with separated singular values", 2_000_000, 30_000_000, dec_strat, dec_check)],
        },
        Property {
            id: "C15",
            assumptions: &["solver epsilon 1e-14, 1000 iterations"],
            laws: vec![law("recondition", "U diag(s) V' with free, nearly essential, repeated and rank-deficient singular values; non-trivial: unequal singular values and full rank", 2_000_000, 30_000_000, rec_strat, rec_check)],
        },
        Property {
            id: "C16",
            assumptions: &["the triangulator is a stub that checks its arguments and returns a generated point"],
            laws: vec![law("reprojection_error", "pose x bearings x claimed point (finite, at infinity, none, behind); non-trivial: point in front of both cameras", 3_000_000, 40_000_000, repr_strat, repr_check)],
        },
    ]
}
