//! cv-core: model residuals.
use crate::chk;
use crate::fw::*;
use crate::gen::*;
use crate::linalg::jacobi_svd;
use cv_core::nalgebra::{IsometryMatrix3, Matrix3x4, OMatrix, Rotation3, UnitVector3, Vector3, U4, U6};
use cv_core::sample_consensus::Model;
use cv_core::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WtcCase {
    pose: Iso,
    dir: V3,
    dist: f64,
    infinite: bool,
    /// observation: 0 exact, 1 opposite, 2 exact rotated by `tilt`, 3 arbitrary
    mode: u8,
    tilt: f64,
    obs: V3,
    k: f64,
    q: Rot,
}

fn wtc_strat() -> BoxedStrategy<WtcCase> {
    (
        iso(-2.0, 2.0),
        dir(),
        logu(-2.0, 3.0),
        prop::bool::weighted(0.15),
        0u8..4,
        prop_oneof![1 => 0.0..std::f64::consts::PI, 1 => logu(-6.0, 0.0)],
        dir(),
        logu(-3.0, 3.0),
        rot(),
    )
        .prop_map(|(pose, dir, dist, infinite, mode, tilt, obs, k, q)| WtcCase { pose, dir, dist, infinite, mode, tilt, obs, k, q })
        .boxed()
}

fn perp(v: Vector3<f64>, hint: Vector3<f64>) -> Vector3<f64> {
    let c = v.cross(&hint);
    if c.norm() > 1e-6 {
        return c.normalize();
    }
    let e = if v.x.abs() < 0.6 { Vector3::x() } else { Vector3::y() };
    v.cross(&e).normalize()
}

fn wtc_check(c: &WtcCase, obs: &mut Obs) -> Check {
    let r = c.pose.r.mat();
    let t = v3(c.pose.t);
    let w = if c.infinite { 0.0 } else { 1.0 / c.dist };
    let raw = r * v3(c.dir) + t * w;
    if raw.norm() < 1e-6 * (1.0 + t.norm() * w) {
        obs.label("skipped: at optical centre");
        return Ok(());
    }
    let d = raw.normalize();
    let o = match c.mode {
        0 => d,
        1 => -d,
        2 => exp_so3(perp(d, v3(c.obs)) * c.tilt) * d,
        _ => v3(c.obs),
    };
    let o = UnitVector3::new_normalize(o);
    obs.label(["exact", "opposite", "tilted", "arbitrary"][c.mode as usize]);
    obs.label_if(c.infinite, "at infinity");
    if t.norm() > 0.0 && c.pose.r.angle != 0.0 {
        obs.nontrivial();
    }
    let point = if c.infinite { WorldPoint::from_homogeneous(v3(c.dir).push(0.0)) } else { WorldPoint::from_point((v3(c.dir) * c.dist).into()) };
    let pose = WorldToCamera(c.pose.iso());
    let res = pose.residual(&FeatureWorldMatch(o, point));
    let cond = (1.0 + t.norm() * w) / raw.norm();
    let tol = 1e-14 * (1.0 + cond);
    chk!(res >= -1e-14 && res <= 2.0 + 1e-14, "residual {} outside [0,2]", res);
    let th = ang(o.into_inner(), d);
    let e = 2.0 * (th / 2.0).sin().powi(2);
    chk!((res - e).abs() <= tol, "residual {} should be 1-cos({}) = {}", res, th, e);
    // Rescaling the world does not matter; nor does rotating the camera together with the bearing.
    let p2 = if c.infinite { point } else { WorldPoint::from_point((v3(c.dir) * (c.dist * c.k)).into()) };
    let r2 = pose.scale(c.k).residual(&FeatureWorldMatch(o, p2));
    chk!((r2 - res).abs() <= 4.0 * tol, "rescaled world: {} vs {}", r2, res);
    let q = c.q.rot();
    let p3 = WorldToCamera(IsometryMatrix3::from_parts((q * t).into(), q * c.pose.r.rot()));
    let r3 = p3.residual(&FeatureWorldMatch(q * o, point));
    chk!((r3 - res).abs() <= 4.0 * tol, "rotated camera: {} vs {}", r3, res);
    Ok(())
}

pub fn c07() -> Property {
    Property {
        id: "C07",
        assumptions: &["points at the optical centre (relative distance < 1e-6) are skipped: their bearing is undefined"],
        laws: vec![law("world_residual", "pose x point x observation (exact, opposite, tilted, arbitrary); non-trivial: rotation and translation non-zero", 4_000_000, 40_000_000, wtc_strat, wtc_check)],
    }
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CtcCase {
    pose: Iso,
    dir: V3,
    dist: f64,
    flip: [bool; 2],
    /// 0 exact, 1 both tilted, 2 arbitrary, 3 first bearing along the baseline
    mode: u8,
    tilt: [V3; 2],
    mag: f64,
    q: [Rot; 2],
    k: f64,
}

fn ctc_strat() -> BoxedStrategy<CtcCase> {
    (
        (rot(), trans(-1.5, 1.5)).prop_map(|(r, t)| Iso { r, t }),
        dir(),
        logu(-1.0, 1.5),
        [prop::bool::weighted(0.25), prop::bool::weighted(0.25)],
        prop_oneof![4 => Just(0u8), 4 => Just(1u8), 4 => Just(2u8), 1 => Just(3u8)],
        [dir(), dir()],
        logu(-6.0, 0.0),
        [rot(), rot()],
        logu(-1.0, 1.0),
    )
        .prop_map(|(pose, dir, dist, flip, mode, tilt, mag, q, k)| CtcCase { pose, dir, dist, flip, mode, tilt, mag, q, k })
        .boxed()
}

type M64 = OMatrix<f64, U6, U4>;

/// Stacked least-squares system, singular values (ascending) and null direction.
fn two_view_system(r: &cv_core::nalgebra::Matrix3<f64>, t: Vector3<f64>, a: Vector3<f64>, b: Vector3<f64>) -> (Vec<f64>, cv_core::nalgebra::Vector4<f64>) {
    let mut m = M64::zeros();
    for (k, (rr, tt, v)) in [(cv_core::nalgebra::Matrix3::identity(), Vector3::zeros(), a), (*r, t, b)].iter().enumerate() {
        let mut p = Matrix3x4::zeros();
        p.fixed_slice_mut::<3, 3>(0, 0).copy_from(rr);
        p.fixed_slice_mut::<3, 1>(0, 3).copy_from(tt);
        let term = p - v * (v.transpose() * p);
        m.fixed_slice_mut::<3, 4>(3 * k, 0).copy_from(&term);
    }
    let d = jacobi_svd(&m);
    let v = &d.v[3];
    (d.s.iter().rev().copied().collect(), cv_core::nalgebra::Vector4::new(v[0], v[1], v[2], v[3]))
}

/// Smallest possible sin^2 of the angular corrections needed to make both rays meet on one plane
/// through the baseline: the smaller eigenvalue of the 2x2 form on the plane normals.
fn epipolar_floor(t: Vector3<f64>, a: Vector3<f64>, b: Vector3<f64>) -> f64 {
    if t.norm() == 0.0 {
        return 0.0;
    }
    let t = t.normalize();
    let e1 = perp(t, Vector3::new(0.3, -0.5, 0.8));
    let e2 = t.cross(&e1);
    let (a1, a2, b1, b2) = (a.dot(&e1), a.dot(&e2), b.dot(&e1), b.dot(&e2));
    let (p, q, s) = (a1 * a1 + b1 * b1, a1 * a2 + b1 * b2, a2 * a2 + b2 * b2);
    let m = 0.5 * (p + s);
    (m - (0.25 * (p - s) * (p - s) + q * q).sqrt()).max(0.0)
}

fn ctc_check(c: &CtcCase, obs: &mut Obs) -> Check {
    let r = c.pose.r.mat();
    let t = v3(c.pose.t);
    let p = v3(c.dir) * c.dist;
    let pb = r * p + t;
    if pb.norm() < 1e-3 {
        obs.label("skipped: point at optical centre of B");
        return Ok(());
    }
    let sg = |f: bool| if f { -1.0 } else { 1.0 };
    let tilt = |v: Vector3<f64>, h: V3| exp_so3(perp(v, v3(h)) * c.mag) * v;
    let (a, b) = match c.mode {
        0 => (p * sg(c.flip[0]), pb * sg(c.flip[1])),
        1 => (tilt(p, c.tilt[0]), tilt(pb, c.tilt[1])),
        2 => (v3(c.tilt[0]), v3(c.tilt[1])),
        _ => (if t.norm() > 0.0 { -(r.transpose() * t) * sg(c.flip[0]) } else { p }, v3(c.tilt[1])),
    };
    let (a, b) = (UnitVector3::new_normalize(a), UnitVector3::new_normalize(b));
    let pose = CameraToCamera(c.pose.iso());
    let res = pose.residual(&FeatureMatch(a, b));
    chk!(res >= -1e-12 && res <= 2.0 + 1e-12, "residual {} outside [0,2] for {:?} {:?}", res, a, b);
    obs.label(["exact", "tilted", "arbitrary", "along baseline"][c.mode as usize]);
    // Never better than what the epipolar geometry allows.
    let floor = epipolar_floor(t, (r * a.into_inner()).into(), b.into_inner()) / 4.0;
    chk!(res >= floor - 1e-9, "residual {} is below the smallest possible {}", res, floor);
    let (sv, null) = two_view_system(&r, t, a.into_inner(), b.into_inner());
    // Eigenvectors of the squared system carry an error of about (solver epsilon 1e-12) * s_max^2 / (gap of squares),
    // plus rounding noise of about 1e-8. At isolated inputs cancellation in the solver's closed form for its last
    // 2x2 block costs up to 1e-4 instead; so one of two evaluations in different frames has to be accurate, and
    // both have to be within the looser bound.
    let gap_err = |s: &[f64]| 1e-11 * s[3] * s[3] / (s[1] * s[1] - s[0] * s[0]);
    let err = gap_err(&sv) + 1e-7;
    let null = if null.w < 0.0 { -null } else { null };
    let nb = r * null.xyz() + t * null.w;
    let depth = null.xyz().norm().min(nb.norm());
    let cond = err / depth;
    if !(cond < 1e-4 && null.w > 10.0 * err) {
        obs.label("ill-conditioned (range and floor only)");
        return Ok(());
    }
    obs.nontrivial();
    obs.label("well-conditioned");
    let coarse = (err + 1e-4) / depth;
    let sign_sure = null.w > 1e-3;
    // Rotating either camera frame together with its bearing changes nothing.
    let (qa, qb) = (c.q[0].rot(), c.q[1].rot());
    let p2 = CameraToCamera(IsometryMatrix3::from_parts((qb * t).into(), qb * Rotation3::from_matrix_unchecked(r) * qa.inverse()));
    let r2 = p2.residual(&FeatureMatch(qa * a, qb * b));
    // Differential: residual of the least-squares point computed by another decomposition.
    let e = 0.5 * (2.0 - a.dot(&null.xyz().normalize()) - b.dot(&nb.normalize()));
    let (d1, d2) = ((res - e).abs(), (r2 - e).abs());
    chk!(d1.min(d2) <= 4.0 * cond + 1e-12, "residual {} ({} in rotated camera frames) should be {} (least-squares point {:?})", res, r2, e, null);
    chk!(!sign_sure || d1.max(d2) <= 4.0 * coarse, "residual {} ({} in rotated camera frames) should be {} (least-squares point {:?})", res, r2, e, null);
    if c.mode == 0 {
        let behind = c.flip.iter().filter(|f| **f).count() as f64;
        let (d1, d2) = ((res - behind).abs(), (r2 - behind).abs());
        chk!(d1.min(d2) <= 1e-6, "exact match seen with the point behind {} cameras has residual {} ({} in rotated camera frames)", behind, res, r2);
        chk!(!sign_sure || d1.max(d2) <= 1e-6 + coarse * coarse, "exact match seen with the point behind {} cameras has residual {} ({} in rotated camera frames)", behind, res, r2);
        // Exact matches do not depend on the unknown scale.
        let (sk, nk) = two_view_system(&r, t * c.k, a.into_inner(), b.into_inner());
        let nk = if nk.w < 0.0 { -nk } else { nk };
        let dk = nk.xyz().norm().min((r * nk.xyz() + t * (c.k * nk.w)).norm());
        let ek = gap_err(&sk) + 1e-4;
        if ek < 1e-3 && nk.w > 1e-3 && ek < 1e-2 * dk {
            let rk = pose.scale(c.k).residual(&FeatureMatch(a, b));
            chk!((rk - behind).abs() <= 1e-6 + (ek / dk).powi(2), "scaling the translation by {} changed the residual of an exact match from {} to {}", c.k, res, rk);
        }
        obs.label_if(behind > 0.0, "behind a camera");
    }
    Ok(())
}

pub fn c08() -> Property {
    Property {
        id: "C08",
        assumptions: &[
            "the differential and exactness parts apply where the two-view least-squares system has a well separated null direction; elsewhere only range and the epipolar lower bound are asserted",
        ],
        laws: vec![law("relative_residual", "relative pose x point x bearings (exact with sign flips, tilted, arbitrary, along the baseline); non-trivial: well-conditioned least-squares system", 1_200_000, 20_000_000, ctc_strat, ctc_check)],
    }
}
