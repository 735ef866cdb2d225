//! cv-core: projective points, poses, so(3)/se(3), Jacobians, tangent steps, serialization.
use crate::chk;
use crate::fw::*;
use crate::gen::*;
use cv_core::nalgebra::{
    IsometryMatrix3, Matrix3, Matrix4, Matrix4x6, Point2, Point3, Rotation3, Vector2, Vector3,
    Vector4, Vector6,
};
use cv_core::*;
use cv_pinhole::{CameraIntrinsics, CameraIntrinsicsK1Distortion, CameraSpecification};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};

const EPS: f64 = f64::EPSILON;

// ---------------------------------------------------------------- C01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HomCase {
    dir: V3,
    norm: f64,
    /// w relative to the norm
    w: f64,
    k: f64,
}

fn hom_strat() -> proptest::strategy::BoxedStrategy<HomCase> {
    (
        dir(),
        logu(-40.0, 40.0),
        prop_oneof![
            6 => (any::<bool>(), -12.0..12.0f64).prop_map(|(s, e)| if s { 10f64.powf(e) } else { -10f64.powf(e) }),
            2 => -1.0..1.0f64,
            2 => Just(0.0),
            1 => Just(1.0),
            1 => Just(-1.0),
        ],
        (any::<bool>(), prop_oneof![3 => logu(-30.0, 30.0), 1 => Just(1.0)]).prop_map(|(s, k)| if s { k } else { -k }),
    )
        .prop_map(|(dir, norm, w, k)| HomCase { dir, norm, w, k })
        .boxed()
}

fn hom_check_t<P: Projective>(c: &HomCase, obs: &mut Obs) -> Check {
    let raw = (v3(c.dir) * c.norm).push(c.w * c.norm);
    obs.label_if(c.w == 0.0, "at infinity");
    obs.label_if(c.w < 0.0, "negative w");
    obs.label_if(c.w.abs() > 1e6, "close to the origin");
    obs.nontrivial();
    let p = P::from_homogeneous(raw);
    let h = p.homogeneous();
    chk!(h.iter().all(|x| x.is_finite()), "non-finite homogeneous {:?} from {:?}", h, raw);
    chk!((h.xyz().norm() - 1.0).abs() <= 1e-12, "xyz of {:?} not unit (from {:?})", h, raw);
    chk!(h.w >= 0.0, "w of {:?} negative (from {:?})", h, raw);
    // Same projective point, oriented so that w is non-negative.
    let s = if c.w < 0.0 { -1.0 } else { 1.0 };
    let expect = (v3(c.dir) * s).push(c.w.abs());
    chk!(amax(&(h.xyz() - expect.xyz())) <= 1e-12, "direction of {:?} should be {:?}", h, expect);
    chk!((h.w - expect.w).abs() <= 1e-12 * expect.w, "w of {:?} should be {:?}", h, expect);
    chk!(amax(&(p.bearing().into_inner() - expect.xyz())) <= 1e-12, "bearing {:?}", p.bearing());
    // Distance is the reciprocal of w; no euclidean point at infinity.
    match p.point() {
        None => chk!(c.w == 0.0, "point() is None for finite {:?}", h),
        Some(q) => {
            chk!(c.w != 0.0, "point() is {:?} for a point at infinity {:?}", q, h);
            let e = expect.xyz() / expect.w;
            chk!(amax(&(q.coords - e)) <= 1e-11 * e.norm(), "point {:?} should be {:?}", q, e);
        }
    }
    // Invariant under scaling of the representative (the sign only matters away from infinity).
    let k = if c.w == 0.0 { c.k.abs() } else { c.k };
    let h2 = P::from_homogeneous(raw * k).homogeneous();
    chk!(amax(&(h2.xyz() - h.xyz())) <= 1e-12, "scaling by {:e} turned {:?} into {:?}", k, h, h2);
    chk!((h2.w - h.w).abs() <= 1e-12 * h.w, "scaling by {:e} turned {:?} into {:?}", k, h, h2);
    // Idempotent.
    let h3 = P::from_homogeneous(h).homogeneous();
    chk!(amax(&(h3 - h)) <= 1e-12 * (1.0 + h.w), "renormalising {:?} gave {:?}", h, h3);
    Ok(())
}

fn hom_check(c: &HomCase, obs: &mut Obs) -> Check {
    hom_check_t::<CameraPoint>(c, obs).map_err(|e| format!("CameraPoint: {}", e))?;
    hom_check_t::<WorldPoint>(c, obs).map_err(|e| format!("WorldPoint: {}", e))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PointCase {
    dir: V3,
    norm: f64,
}

fn point_check_t<P: Projective>(c: &PointCase, obs: &mut Obs) -> Check {
    let p = v3(c.dir) * c.norm;
    obs.nontrivial();
    let q = P::from_point(Point3::from(p));
    let h = q.homogeneous();
    chk!((h.xyz().norm() - 1.0).abs() <= 1e-12 && h.w > 0.0, "representation {:?} of {:?}", h, p);
    chk!((h.w * c.norm - 1.0).abs() <= 1e-11, "w {:e} is not the reciprocal of distance {:e}", h.w, c.norm);
    let b = q.point().ok_or_else(|| format!("{:?} lost its euclidean point", p))?;
    chk!(amax(&(b.coords - p)) <= 1e-12 * c.norm, "round trip {:?} -> {:?}", p, b);
    chk!(amax(&(q.bearing().into_inner() - v3(c.dir))) <= 1e-12, "bearing {:?}", q.bearing());
    Ok(())
}

fn point_check(c: &PointCase, obs: &mut Obs) -> Check {
    point_check_t::<CameraPoint>(c, obs).map_err(|e| format!("CameraPoint: {}", e))?;
    point_check_t::<WorldPoint>(c, obs).map_err(|e| format!("WorldPoint: {}", e))
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        assumptions: &["representatives have xyz norms in [1e-40,1e40]; the origin itself has no representation and is excluded"],
        laws: vec![
            law("homogeneous", "direction x norm x w (any sign, zero) x rescale; every case is non-trivial", 1_600_000, 12_000_000, hom_strat, hom_check),
            law(
                "euclidean",
                "euclidean points with log-uniform distance 1e-40..1e40; every case is non-trivial",
                400_000,
                12_000_000,
                || bx((dir(), logu(-40.0, 40.0)).prop_map(|(dir, norm)| PointCase { dir, norm })),
                point_check,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PoseCase {
    pose: Iso,
    other: Iso,
    dir: V3,
    dist: f64,
    infinite: bool,
    scale: f64,
}

fn pose_strat() -> proptest::strategy::BoxedStrategy<PoseCase> {
    (
        prop_oneof![5 => iso(-3.0, 3.0), 1 => iso(-9.0, 12.0)],
        iso(-3.0, 3.0),
        dir(),
        prop_oneof![5 => logu(-3.0, 4.0), 1 => logu(-9.0, 13.0)],
        prop::bool::weighted(0.15),
        prop_oneof![4 => (any::<bool>(), logu(-3.0, 3.0)).prop_map(|(s, k)| if s { k } else { -k }), 1 => Just(0.0), 1 => Just(1.0)],
    )
        .prop_map(|(pose, other, dir, dist, infinite, scale)| PoseCase { pose, other, dir, dist, infinite, scale })
        .boxed()
}

fn input<P: Projective>(c: &PoseCase) -> P {
    if c.infinite {
        P::from_homogeneous(v3(c.dir).push(0.0))
    } else {
        P::from_point(Point3::from(v3(c.dir) * c.dist))
    }
}

/// Distance between two projective points, as a fraction of the given scene size.
fn same_h(a: Vector4<f64>, b: Vector4<f64>) -> f64 {
    // cross-multiplied so that it works at infinity too
    let d = a.xyz() * b.w - b.xyz() * a.w;
    let s = (1.0 + a.w) * (1.0 + b.w);
    let dirdiff = amax(&(a.xyz() - b.xyz()));
    dirdiff.max(amax(&d) / s).max((a.w - b.w).abs() / (1.0 + a.w.max(b.w)))
}

fn pose_check_t<P>(c: &PoseCase, obs: &mut Obs) -> Check
where
    P: Pose,
    <P as Pose>::Inverse: Pose<InputPoint = P::OutputPoint, OutputPoint = P::InputPoint>,
{
    let isom = c.pose.iso();
    let pose: P = isom.into();
    let r = c.pose.r.mat();
    let t = v3(c.pose.t);
    let got = pose.isometry();
    chk!(amax(&(got.rotation.matrix() - r)) <= 1e-13, "isometry rotation changed");
    chk!(amax(&(got.translation.vector - t)) <= 1e-13 * (1.0 + t.norm()), "isometry translation changed");

    // Homogeneous matrix.
    let mut m = Matrix4::identity();
    m.fixed_slice_mut::<3, 3>(0, 0).copy_from(&r);
    m.fixed_slice_mut::<3, 1>(0, 3).copy_from(&t);
    chk!(amax(&(pose.homogeneous() - m)) <= 1e-13 * (1.0 + t.norm()), "homogeneous matrix {} should be {}", pose.homogeneous(), m);

    // from_parts.
    let fp = P::from_parts(t, c.pose.r.rot());
    chk!(amax(&(fp.isometry().to_homogeneous() - m)) <= 1e-13 * (1.0 + t.norm()), "from_parts {} should be {}", fp.isometry().to_homogeneous(), m);

    // Scale.
    let sc = pose.scale(c.scale).isometry();
    chk!(amax(&(sc.rotation.matrix() - r)) <= 1e-13, "scale changed rotation");
    chk!(amax(&(sc.translation.vector - t * c.scale)) <= 1e-12 * t.norm() * c.scale.abs(), "scale({}) translation {:?} of {:?}", c.scale, sc.translation.vector, t);

    // Identity.
    let x: P::InputPoint = input(c);
    let id = P::identity().isometry();
    chk!(amax(&(id.to_homogeneous() - Matrix4::identity())) == 0.0, "identity is {}", id);

    // Transform against R x + t.
    let hin = x.homogeneous();
    let y = pose.transform(x);
    let h = y.homogeneous();
    let raw = r * hin.xyz() + t * hin.w;
    let rn = raw.norm();
    let mag = 1.0 + t.norm() * hin.w;
    let cond = mag / rn;
    obs.max("cond", cond);
    if cond > 1e8 || !cond.is_finite() {
        obs.label("output at optical centre (skipped)");
        return Ok(());
    }
    obs.label_if(c.infinite, "at infinity");
    obs.label_if(c.pose.r.angle.abs() > 3.1, "rotation near pi");
    if v3(c.pose.t).norm() > 0.0 && c.pose.r.angle != 0.0 {
        obs.nontrivial();
    }
    let tol = 64.0 * EPS * cond;
    chk!((h.xyz().norm() - 1.0).abs() < 1e-12 && h.w >= 0.0, "output {:?} not normalised", h);
    chk!(amax(&(h.xyz() - raw / rn)) <= tol, "direction {:?} should be {:?}", h, raw / rn);
    chk!((h.w - hin.w / rn).abs() <= tol * hin.w / rn, "w {:e} should be {:e}", h.w, hin.w / rn);
    if c.infinite {
        chk!(h.w == 0.0 && y.point().is_none(), "a point at infinity came back as {:?}", h);
        chk!(amax(&(y.bearing().into_inner() - r * v3(c.dir))) <= 1e-12, "direction at infinity not purely rotated");
    } else {
        let e = c.pose.apply(v3(c.dir) * c.dist);
        let g = y.point().ok_or("finite point lost")?.coords;
        chk!((g - e).norm() <= 64.0 * EPS * (c.dist + t.norm()) * (1.0 + cond), "transformed point {:?} should be {:?}", g, e);
    }

    // Inverse.
    let inv = pose.inverse();
    let ii = inv.isometry();
    chk!(amax(&(ii.rotation.matrix() - r.transpose())) <= 1e-12, "inverse rotation {} should be {}", ii.rotation, r.transpose());
    chk!(amax(&(ii.translation.vector + r.transpose() * t)) <= 1e-12 * (1.0 + t.norm()), "inverse translation");
    let back = inv.transform(y).homogeneous();
    let btol = 256.0 * EPS * cond * mag;
    obs.label_if(btol > 1e-3, "inverse lands at the optical centre (not compared)");
    chk!(btol > 1e-3 || same_h(back, hin) <= btol, "inverse maps {:?} back to {:?} instead of {:?}", h, back, hin);
    let twice = inv.inverse().isometry();
    chk!(amax(&(twice.to_homogeneous() - m)) <= 1e-12 * (1.0 + t.norm()), "inverse twice is not the pose");
    Ok(())
}

fn pose_check(c: &PoseCase, obs: &mut Obs) -> Check {
    pose_check_t::<WorldToCamera>(c, obs).map_err(|e| format!("WorldToCamera: {}", e))?;
    pose_check_t::<CameraToWorld>(c, obs).map_err(|e| format!("CameraToWorld: {}", e))?;
    pose_check_t::<CameraToCamera>(c, obs).map_err(|e| format!("CameraToCamera: {}", e))?;
    pose_check_t::<WorldToWorld>(c, obs).map_err(|e| format!("WorldToWorld: {}", e))
}

fn w2w_check(c: &PoseCase, obs: &mut Obs) -> Check {
    let (a, b) = (WorldToCamera(c.pose.iso()), WorldToCamera(c.other.iso()));
    let w = WorldToWorld::from_camera_poses(a, b);
    let size = 1.0 + v3(c.pose.t).norm() + v3(c.other.t).norm();
    if c.pose.r.angle != 0.0 && c.other.r.angle != 0.0 && v3(c.pose.t).norm() > 0.0 && v3(c.other.t).norm() > 0.0 {
        obs.nontrivial();
    }
    // The map takes a point of reconstruction A to the one at the same camera coordinates in B.
    let (ra, rb) = (c.pose.r.mat(), c.other.r.mat());
    let er = rb.transpose() * ra;
    let et = rb.transpose() * (v3(c.pose.t) - v3(c.other.t));
    let g = w.isometry();
    chk!(amax(&(g.rotation.matrix() - er)) <= 1e-12, "rotation {} should be {}", g.rotation, er);
    chk!(amax(&(g.translation.vector - et)) <= 1e-12 * size, "translation {:?} should be {:?}", g.translation.vector, et);
    // Swapping gives the inverse.
    let s = WorldToWorld::from_camera_poses(b, a).isometry();
    let i = w.inverse().isometry();
    chk!(amax(&(s.to_homogeneous() - i.to_homogeneous())) <= 1e-11 * size, "swapped arguments give {} not the inverse {}", s, i);
    let same = WorldToWorld::from_camera_poses(a, a).isometry();
    chk!(amax(&(same.to_homogeneous() - Matrix4::identity())) <= 1e-12 * size, "same camera gives {}", same);
    Ok(())
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        assumptions: &["points closer than 1e-8 (relative) to the target optical centre are skipped: their direction is undefined there"],
        laws: vec![
            law("pose", "pose x point (15% at infinity) x scale, all four pose types; non-trivial: non-zero translation and rotation and the output is not at the optical centre", 960_000, 8_000_000, pose_strat, pose_check),
            law("world_to_world", "two camera poses; non-trivial: both have rotation and translation", 960_000, 8_000_000, pose_strat, w2w_check),
        ],
    }
}

// ---------------------------------------------------------------- C03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ExpCase {
    axis: V3,
    angle: f64,
    t: V3,
}

fn exp_strat() -> proptest::strategy::BoxedStrategy<ExpCase> {
    (
        dir(),
        prop_oneof![
            6 => 0.0..=std::f64::consts::PI,
            2 => 0.0..20.0f64,
            1 => Just(0.0),
            1 => Just(std::f64::consts::PI),
            1 => Just(std::f64::consts::FRAC_PI_2),
            3 => (-18.0..0.0f64).prop_map(|e| 10f64.powf(e)),
            3 => (-16.0..0.0f64).prop_map(|e| std::f64::consts::PI - 10f64.powf(e)),
            1 => (-10.0..0.0f64).prop_map(|e| std::f64::consts::PI + 10f64.powf(e)),
            // around the small-angle switch at sqrt(epsilon)
            1 => 1.0e-8..2.2e-8f64,
        ],
        trans(-3.0, 3.0),
    )
        .prop_map(|(axis, angle, t)| ExpCase { axis, angle, t })
        .boxed()
}

fn exp_check(c: &ExpCase, obs: &mut Obs) -> Check {
    let w = v3(c.axis) * c.angle;
    let pi = std::f64::consts::PI;
    obs.label_if(c.angle < 1.5e-8, "small-angle branch");
    obs.label_if((c.angle - pi).abs() < 1e-3, "near pi");
    obs.label_if(c.angle > pi + 1e-3, "beyond pi");
    if c.angle != 0.0 {
        obs.nontrivial();
    }
    let r = Rotation3::from(Skew3(w));
    let e = rodrigues(v3(c.axis), c.angle);
    chk!(rot_defect(r.matrix()) <= 1e-12, "exp({:?}) = {} is not a rotation", w, r);
    let tol = 1e-13 * (1.0 + c.angle);
    chk!(amax(&(r.matrix() - e)) <= tol, "exp({:?}) = {} should be {}", w, r, e);
    chk!(amax(&(Skew3(w).rotation().matrix() - r.matrix())) <= tol, "rotation() differs from the conversion");
    let rn = Rotation3::from(Skew3(-w));
    chk!(amax(&(rn.matrix() - r.matrix().transpose())) <= 2.0 * tol, "exp(-w) is not the inverse of exp(w)");
    // Logarithm, of the reference rotation.
    let l = Skew3::from(Rotation3::from_matrix_unchecked(e));
    chk!(l.0.iter().all(|x| x.is_finite()), "log({}) = {:?}", e, l);
    chk!(l.0.norm() <= pi + 1e-9, "log has angle {} > pi", l.0.norm());
    let back = exp_so3(l.0);
    let err = rot_angle(&back, &e);
    obs.max("exp(log) angle error", err);
    chk!(err <= 1e-9, "exp(log(R)) differs from R by {:e} rad, R = exp({:?}), log = {:?}", err, w, l);
    if c.angle < pi - 1e-6 {
        chk!((l.0 - w).norm() <= 1e-9, "log(exp(w)) = {:?} for w = {:?}", l, w);
        if c.angle < 1e-3 {
            chk!((l.0 - w).norm() <= 1e-12, "log(exp(w)) = {:?} for tiny w = {:?}", l, w);
        }
    }
    // First-order rotation.
    if c.angle <= 1e-3 {
        let s = Skew3(w).rotation_small();
        chk!(rot_defect(s.matrix()) <= 1e-9, "rotation_small({:?}) not a rotation", w);
        chk!(amax(&(s.matrix() - e)) <= c.angle * c.angle + 1e-14, "rotation_small({:?}) = {} should be close to {}", w, s, e);
    }
    // se(3) of a pose.
    let t = v3(c.t);
    let se = Vector6::new(t.x, t.y, t.z, w.x, w.y, w.z);
    let p = WorldToCamera::from_se3(se);
    chk!(amax(&(p.isometry().rotation.matrix() - e)) <= tol, "from_se3 rotation {}", p.isometry());
    chk!(amax(&(p.isometry().translation.vector - t)) <= 1e-13 * t.norm(), "from_se3 translation {}", p.isometry());
    let s = p.se3();
    chk!(amax(&(s.xyz() - t)) <= 1e-13 * t.norm(), "se3 translation {:?}", s);
    let q = CameraToWorld::from_se3(s).isometry();
    chk!(rot_angle(q.rotation.matrix(), &e) <= 1e-9 && amax(&(q.translation.vector - t)) <= 1e-13 * t.norm(), "from_se3(se3(p)) is {} not p", q);
    if c.angle < pi - 1e-6 {
        chk!(amax(&(s - se)) <= 1e-9 * (1.0 + t.norm()), "se3(from_se3(v)) = {:?} for {:?}", s, se);
    }
    Ok(())
}

pub fn c03() -> Property {
    Property {
        id: "C03",
        assumptions: &["logarithm compared through the rotation it denotes (1e-9 rad), since its sign is free at exactly pi"],
        laws: vec![law("exp_log", "axis x angle (0..20 rad, heavy near 0, sqrt(eps) and pi) x translation; non-trivial: non-zero angle", 1_600_000, 12_000_000, exp_strat, exp_check)],
    }
}

// ---------------------------------------------------------------- C04

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AlgCase {
    a: V3,
    b: V3,
    c: V3,
    sa: f64,
    sb: f64,
}

fn alg_check(c: &AlgCase, obs: &mut Obs) -> Check {
    let (a, b, d) = (v3(c.a) * c.sa, v3(c.b) * c.sb, v3(c.c));
    if a.norm() > 0.0 && b.norm() > 0.0 && d.norm() > 0.0 {
        obs.nontrivial();
    }
    let mag = (1.0 + a.norm()) * (1.0 + b.norm());
    let (sa, sb) = (Skew3(a), Skew3(b));
    let h = sa.hat();
    chk!(amax(&(h + h.transpose())) == 0.0, "hat({:?}) not antisymmetric", a);
    chk!(amax(&(h * b - a.cross(&b))) <= 8.0 * EPS * mag, "hat(a) b = {:?} is not a x b = {:?}", h * b, a.cross(&b));
    chk!(Skew3::vee(h) == sa, "vee(hat(a)) = {:?}, a = {:?}", Skew3::vee(h), a);
    chk!(amax(&(sa.hat2() - h * h)) <= 8.0 * EPS * a.norm_squared(), "hat2({:?}) = {} is not hat^2 = {}", a, sa.hat2(), h * h);
    let br = sa.bracket(sb);
    chk!(amax(&(br.0 - a.cross(&b))) <= 32.0 * EPS * a.norm() * b.norm(), "[a,b] = {:?} is not a x b = {:?}", br, a.cross(&b));
    let rb = sb.bracket(sa);
    chk!(amax(&(br.0 + rb.0)) <= 32.0 * EPS * a.norm() * b.norm(), "bracket not antisymmetric");
    chk!(amax(&sa.bracket(sa).0) <= 32.0 * EPS * a.norm_squared(), "[a,a] != 0");
    let sc = Skew3(d);
    let jac = sa.bracket(sb.bracket(sc)).0 + sb.bracket(sc.bracket(sa)).0 + sc.bracket(sa.bracket(sb)).0;
    chk!(amax(&jac) <= 256.0 * EPS * a.norm() * b.norm() * d.norm(), "Jacobi identity violated: {:?}", jac);
    // dy/dx of y = R x is R in homogeneous form.
    let w = d * c.sa.min(3.0);
    let ji = Skew3(w).jacobian_input();
    let e = exp_so3(w).to_homogeneous();
    chk!(amax(&(ji - e)) <= 1e-12, "jacobian_input({:?}) = {} should be {}", w, ji, e);
    // d(exp(delta) y)/d delta at 0 is -hat(y).
    let js = Skew3::jacobian_self(b);
    chk!(amax(&(js + cross_mat(b))) <= 4.0 * EPS * b.norm(), "jacobian_self({:?}) = {} should be -hat(y) = {}", b, js, -cross_mat(b));
    Ok(())
}

pub fn c04() -> Property {
    Property {
        id: "C04",
        assumptions: &[],
        laws: vec![law(
            "algebra",
            "three vectors with log-uniform scales; non-trivial: all non-zero",
            400_000,
            12_000_000,
            || bx((cube(), cube(), cube(), logu(-6.0, 6.0), logu(-6.0, 6.0)).prop_map(|(a, b, c, sa, sb)| AlgCase { a, b, c, sa, sb })),
            alg_check,
        )],
    }
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct JacCase {
    pose: Iso,
    dir: V3,
    w: f64,
    dx: [f64; 4],
    dp: [f64; 6],
}

fn jac_strat() -> proptest::strategy::BoxedStrategy<JacCase> {
    (
        iso(-2.0, 1.0),
        dir(),
        prop_oneof![6 => logu(-4.0, 1.0), 1 => Just(0.0), 1 => Just(1.0)],
        [-1.0..1.0f64, -1.0..1.0f64, -1.0..1.0f64, -1.0..1.0f64],
        [-1.0..1.0f64, -1.0..1.0f64, -1.0..1.0f64, -1.0..1.0f64, -1.0..1.0f64, -1.0..1.0f64],
    )
        .prop_map(|(pose, dir, w, dx, dp)| JacCase { pose, dir, w, dx, dp })
        .boxed()
}

fn jac_check_t<P: Pose>(c: &JacCase, obs: &mut Obs) -> Check {
    let pose: P = c.pose.iso().into();
    let x = P::InputPoint::from_homogeneous(v3(c.dir).push(c.w));
    let hx = x.homogeneous();
    let r = c.pose.r.mat();
    let t = v3(c.pose.t);
    let rot = r * hx.xyz();
    let raw = (rot + t * hx.w).push(hx.w);
    let cond = (1.0 + t.norm() * hx.w) / raw.xyz().norm();
    if cond > 1e4 || !cond.is_finite() {
        obs.label("skipped: at optical centre");
        return Ok(());
    }
    obs.label_if(c.w == 0.0, "at infinity");
    if c.pose.r.angle != 0.0 && t.norm() > 0.0 {
        obs.nontrivial();
    }
    let (o, ji, js) = pose.transform_jacobians(x);
    let (oi, ji2) = pose.transform_jacobian_input(x);
    let (os, js2) = pose.transform_jacobian_self(x);
    let plain = pose.transform(x).homogeneous();
    for (n, q) in [("transform_jacobians", o), ("transform_jacobian_input", oi), ("transform_jacobian_self", os)] {
        let e = amax(&(q.homogeneous() - plain));
        chk!(e <= 1e-12 * (1.0 + plain.w), "{} returned point {:?}, transform gives {:?}", n, q.homogeneous(), plain);
    }
    let mag = 1.0 + t.norm();
    chk!(amax(&(ji - ji2)) <= 1e-13 * mag, "the two input Jacobians differ");
    chk!(amax(&(js - js2)) <= 1e-13 * mag, "the two pose Jacobians differ");

    // Exact derivative of the homogeneous output T x, before it is renormalised.
    let mut m = Matrix4::identity();
    m.fixed_slice_mut::<3, 3>(0, 0).copy_from(&r);
    m.fixed_slice_mut::<3, 1>(0, 3).copy_from(&t);
    chk!(amax(&(ji - m)) <= 1e-12 * mag, "input Jacobian {} should be {}", ji, m);
    let mut e = Matrix4x6::zeros();
    e.fixed_slice_mut::<3, 3>(0, 0).copy_from(&(Matrix3::identity() * hx.w));
    e.fixed_slice_mut::<3, 3>(0, 3).copy_from(&(-cross_mat(rot)));
    chk!(amax(&(js - e)) <= 1e-12 * mag, "pose Jacobian {} should be {}", js, e);

    // Black box: central difference of transform() itself against the chain rule through the
    // normalisation of the output.
    let n = raw.xyz().norm();
    let u = raw.xyz() / n;
    let chain = |d: Vector4<f64>| -> Vector4<f64> {
        let dn = u.dot(&d.xyz());
        let dxyz = (d.xyz() - u * dn) / n;
        dxyz.push(d.w / n - raw.w * dn / (n * n))
    };
    let h = 1e-5 / cond;
    let dp = Vector6::from_row_slice(&c.dp);
    let step = |s: f64| -> Vector4<f64> {
        let d = dp * s;
        let rr = exp_so3(Vector3::new(d[3], d[4], d[5])) * r;
        let q: P = IsometryMatrix3::from_parts((t + d.xyz()).into(), Rotation3::from_matrix_unchecked(rr)).into();
        q.transform(x).homogeneous()
    };
    let fd = (step(h) - step(-h)) / (2.0 * h);
    let an = chain(js * dp);
    let scale = cond * cond * (1.0 + hx.w) / n.min(1.0);
    obs.max("pose fd error/scale", amax(&(fd - an)) / scale);
    chk!(amax(&(fd - an)) <= 1e-6 * scale, "finite difference {:?} vs Jacobian {:?} along {:?}", fd, an, dp);
    if hx.w > 1e-3 {
        let dx = Vector4::from_row_slice(&c.dx);
        let h = (1e-5 / cond).min(hx.w * 1e-2);
        let step = |s: f64| pose.transform(P::InputPoint::from_homogeneous(hx + dx * s)).homogeneous();
        let fd = (step(h) - step(-h)) / (2.0 * h);
        let dn = hx.xyz().dot(&dx.xyz());
        // The input is renormalised too when it is built.
        let din = (dx.xyz() - hx.xyz() * dn).push(dx.w - hx.w * dn);
        let an = chain(ji * din);
        obs.max("input fd error/scale", amax(&(fd - an)) / scale);
        chk!(amax(&(fd - an)) <= 1e-5 * scale, "finite difference {:?} vs input Jacobian {:?} along {:?}", fd, an, dx);
        obs.label("input finite difference");
    }
    Ok(())
}

fn jac_check(c: &JacCase, obs: &mut Obs) -> Check {
    jac_check_t::<WorldToCamera>(c, obs).map_err(|e| format!("WorldToCamera: {}", e))?;
    jac_check_t::<CameraToWorld>(c, obs).map_err(|e| format!("CameraToWorld: {}", e))?;
    jac_check_t::<CameraToCamera>(c, obs).map_err(|e| format!("CameraToCamera: {}", e))?;
    jac_check_t::<WorldToWorld>(c, obs).map_err(|e| format!("WorldToWorld: {}", e))
}

pub fn c05() -> Property {
    Property {
        id: "C05",
        assumptions: &["derivatives are of the homogeneous output T*x before renormalisation; the pose perturbation adds to the translation and left-multiplies exp(delta) to the rotation"],
        laws: vec![law("jacobians", "pose x homogeneous point (incl. infinity) x perturbation directions; non-trivial: rotation and translation non-zero", 960_000, 5_000_000, jac_strat, jac_check)],
    }
}

// ---------------------------------------------------------------- C06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TanCase {
    t: V3,
    r: V3,
    ts: f64,
    rs: f64,
    more: Vec<(V3, V3)>,
    k: f64,
    nan: u8,
}

fn tan_strat() -> proptest::strategy::BoxedStrategy<TanCase> {
    (
        cube(),
        cube(),
        logu(-8.0, 3.0),
        logu(-8.0, 0.5),
        few((cube(), cube()), 0..6, 6..60),
        prop_oneof![4 => -10.0..10.0f64, 1 => Just(0.0), 1 => Just(1.0)],
        prop_oneof![3 => Just(0u8), 1 => 0u8..64],
    )
        .prop_map(|(t, r, ts, rs, more, k, nan)| TanCase { t, r, ts, rs, more, k, nan })
        .boxed()
}

fn tan_check(c: &TanCase, obs: &mut Obs) -> Check {
    let (t, r) = (v3(c.t) * c.ts, v3(c.r) * c.rs);
    let d = Se3TangentSpace::new(t, r);
    chk!(d.translation == t && d.rotation == r, "new changed finite components");
    if t.norm() > 0.0 && r.norm() > 0.0 {
        obs.nontrivial();
    }
    obs.label_if(c.more.len() >= 2, "sum of >=2");
    obs.label_if(t.norm() == 0.0 || r.norm() == 0.0, "zero component");
    // isometry: rotate after translating.
    let i = d.isometry();
    let er = exp_so3(r);
    chk!(amax(&(i.rotation.matrix() - er)) <= 1e-12, "isometry rotation {} should be {}", i.rotation, er);
    chk!(amax(&(i.translation.vector - er * t)) <= 1e-12 * (t.norm() + 1e-300), "isometry translation {:?} should be {:?}", i.translation.vector, er * t);
    // inverse
    let n = d.inverse();
    chk!(n.translation == -t && n.rotation == -r, "inverse of {:?} is {:?}", d, n);
    let comp = i * n.isometry();
    let tol = 1e-12 * (1.0 + t.norm());
    chk!(rot_angle(comp.rotation.matrix(), &Matrix3::identity()) <= 1e-9, "rotation of a step and its inverse does not cancel");
    chk!(comp.translation.vector.norm() <= t.norm() * r.norm() + tol, "step and inverse leave translation {:?}", comp.translation.vector);
    for pure in [Se3TangentSpace::new(t, Vector3::zeros()), Se3TangentSpace::new(Vector3::zeros(), r)] {
        let z = pure.isometry() * pure.inverse().isometry();
        chk!(amax(&(z.to_homogeneous() - Matrix4::identity())) <= tol, "pure step {:?} and inverse give {}", pure, z);
    }
    // rotations
    let (tr, rr) = d.rotations();
    chk!(amax(&(tr.matrix() - exp_so3(t))) <= 1e-12 * (1.0 + t.norm()), "rotations().0");
    chk!(amax(&(rr.matrix() - er)) <= 1e-12, "rotations().1");
    // scaling
    let s = d.scale(c.k);
    chk!(s.translation == t * c.k && s.rotation == r * c.k, "scale({}) of {:?} is {:?}", c.k, d, s);
    let s = d.scale_translation(c.k);
    chk!(s.translation == t * c.k && s.rotation == r, "scale_translation({}) of {:?} is {:?}", c.k, d, s);
    let s = d.scale_rotation(c.k);
    chk!(s.translation == t && s.rotation == r * c.k, "scale_rotation({}) of {:?} is {:?}", c.k, d, s);
    // vector form
    let v = d.to_vec();
    chk!(v == Vector6::new(t.x, t.y, t.z, r.x, r.y, r.z), "to_vec of {:?} is {:?}", d, v);
    chk!(Se3TangentSpace::from_vec(v) == d, "from_vec(to_vec) is {:?}", Se3TangentSpace::from_vec(v));
    // addition
    let id = Se3TangentSpace::identity();
    chk!(id.translation.norm() == 0.0 && id.rotation.norm() == 0.0, "identity is {:?}", id);
    chk!(amax(&(id.isometry().to_homogeneous() - Matrix4::identity())) == 0.0, "identity step moves");
    chk!(d + id == d, "identity is not neutral");
    let list: Vec<Se3TangentSpace> = std::iter::once(d).chain(c.more.iter().map(|(a, b)| Se3TangentSpace::new(v3(*a), v3(*b)))).collect();
    let mut et = Vector3::zeros();
    let mut err = Vector3::zeros();
    let mut acc = Se3TangentSpace::identity();
    for x in &list {
        et += x.translation;
        err += x.rotation;
        acc += *x;
    }
    let sum: Se3TangentSpace = list.iter().copied().sum();
    let plus = list.iter().copied().fold(Se3TangentSpace::identity(), |a, b| a + b);
    for (n, g) in [("+=", acc), ("sum", sum), ("+", plus)] {
        chk!(amax(&(g.translation - et)) <= 1e-13 * (10.0 + t.norm()) && amax(&(g.rotation - err)) <= 1e-13 * (10.0 + r.norm()), "{} of {} steps is {:?}, should be {:?} {:?}", n, list.len(), g, et, err);
    }
    // L1: unit length or zero.
    for x in &list {
        let l = x.l1();
        for (g, o) in [(l.translation, x.translation), (l.rotation, x.rotation)] {
            if o.norm() == 0.0 {
                chk!(g == Vector3::zeros(), "l1 of a zero component is {:?}", g);
            } else {
                chk!(amax(&(g - o / o.norm())) <= 1e-12, "l1 of {:?} is {:?}", o, g);
            }
        }
    }
    // NaN sanitising
    if c.nan != 0 {
        obs.label("NaN component");
        let (mut a, mut b) = (t, r);
        for k in 0..3 {
            if c.nan >> k & 1 == 1 {
                a[k] = f64::NAN;
            }
            if c.nan >> (k + 3) & 1 == 1 {
                b[k] = f64::NAN;
            }
        }
        let g = Se3TangentSpace::new(a, b);
        let ea = if c.nan & 7 != 0 { Vector3::zeros() } else { t };
        let eb = if c.nan >> 3 != 0 { Vector3::zeros() } else { r };
        chk!(g.translation == ea && g.rotation == eb, "new({:?}, {:?}) = {:?}", a, b, g);
    }
    Ok(())
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        assumptions: &["inverse() cancels exactly for pure translations/rotations and to second order (|t||r|) otherwise"],
        laws: vec![law("tangent", "tangent step x scale x list of further steps x NaN pattern; non-trivial: both components non-zero", 960_000, 8_000_000, tan_strat, tan_check)],
    }
}

// ---------------------------------------------------------------- C09

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SerCase {
    iso: Iso,
    hom: [f64; 4],
    pt: [f64; 2],
    w: V3,
    focals: [f64; 2],
    skew: f64,
    k1: f64,
    pixels: [u32; 2],
    dims: [f64; 2],
}

fn rt<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(n: &str, x: T) -> Check {
    let j = serde_json::to_string(&x).map_err(|e| format!("{}: {}", n, e))?;
    let y: T = serde_json::from_str(&j).map_err(|e| format!("{}: {} from {}", n, e, j))?;
    chk!(x == y, "{}: json round trip of {:?} gave {:?}", n, x, y);
    let b = bincode::serialize(&x).map_err(|e| format!("{}: {}", n, e))?;
    let y: T = bincode::deserialize(&b).map_err(|e| format!("{}: {}", n, e))?;
    chk!(x == y, "{}: bincode round trip of {:?} gave {:?}", n, x, y);
    let b2 = bincode::serialize(&y).unwrap();
    chk!(b == b2, "{}: bincode of the copy differs", n);
    Ok(())
}

fn ser_check(c: &SerCase, obs: &mut Obs) -> Check {
    if c.iso.r.angle != 0.0 && v3(c.iso.t).norm() > 0.0 {
        obs.nontrivial();
    }
    let i = c.iso.iso();
    rt("WorldToCamera", WorldToCamera(i))?;
    rt("CameraToWorld", CameraToWorld(i))?;
    rt("CameraToCamera", CameraToCamera(i))?;
    rt("WorldToWorld", WorldToWorld(i))?;
    let h = Vector4::from_row_slice(&c.hom);
    if h.xyz().norm() > 0.0 {
        rt("WorldPoint", WorldPoint::from_homogeneous(h))?;
        rt("CameraPoint", CameraPoint::from_homogeneous(h))?;
    }
    rt("KeyPoint", KeyPoint(Point2::new(c.pt[0], c.pt[1])))?;
    rt("Skew3", Skew3(v3(c.w)))?;
    let intr = CameraIntrinsics {
        focals: Vector2::new(c.focals[0], c.focals[1]),
        principal_point: Point2::new(c.pt[0], c.pt[1]),
        skew: c.skew,
    };
    rt("CameraIntrinsics", intr)?;
    rt("CameraIntrinsicsK1Distortion", CameraIntrinsicsK1Distortion::new(intr, c.k1))?;
    rt(
        "CameraSpecification",
        CameraSpecification { pixels: Vector2::new(c.pixels[0] as usize, c.pixels[1] as usize), pixel_dimensions: Vector2::new(c.dims[0], c.dims[1]) },
    )
}

fn sscalar() -> proptest::strategy::BoxedStrategy<f64> {
    bx((any::<bool>(), prop_oneof![8 => logu(-12.0, 12.0), 1 => Just(0.0)]).prop_map(|(s, x)| if s { x } else { -x }))
}

pub fn c09() -> Property {
    Property {
        id: "C09",
        assumptions: &["finite values only (JSON has no NaN); serde_json with float_roundtrip and bincode as the carriers"],
        laws: vec![law(
            "serde",
            "one value of every serializable type; non-trivial: pose with rotation and translation",
            40_000,
            2_000_000,
            || {
                bx((
                    iso(-6.0, 6.0),
                    [sscalar(), sscalar(), sscalar(), sscalar()],
                    [sscalar(), sscalar()],
                    cube(),
                    [sscalar(), sscalar()],
                    sscalar(),
                    sscalar(),
                    [any::<u32>(), any::<u32>()],
                    [sscalar(), sscalar()],
                )
                    .prop_map(|(iso, hom, pt, w, focals, skew, k1, pixels, dims)| SerCase { iso, hom, pt, w, focals, skew, k1, pixels, dims }))
            },
            ser_check,
        )],
    }
}
