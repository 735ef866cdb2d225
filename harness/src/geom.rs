//! cv-geom: triangulators, epipolar loss and gradients.
use crate::chk;
use crate::fw::*;
use crate::gen::*;
use crate::linalg::jacobi_svd;
use cv_core::nalgebra::{IsometryMatrix3, Matrix3, Rotation3, UnitVector3, Vector3, Vector4};
use cv_core::*;
use cv_geom::epipolar;
use cv_geom::triangulation::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

type Unit = UnitVector3<f64>;
type Vec3 = Vector3<f64>;
type Mat3 = Matrix3<f64>;

const NAMES: [&str; 6] = ["LinearEigen", "SineL1", "MeanMean", "RelativeDlt", "AngularL1", "AngularLInfinity"];
const LE: usize = 0;
const SINE: usize = 1;
const MEAN: usize = 2;
const DLT: usize = 3;
const L1: usize = 4;
const LINF: usize = 5;

fn relative(kind: usize, pose: CameraToCamera, a: Unit, b: Unit) -> Option<Vector4<f64>> {
    match kind {
        LE => LinearEigenTriangulator::new().triangulate_relative(pose, a, b),
        SINE => SineL1Triangulator::new().triangulate_relative(pose, a, b),
        MEAN => MeanMeanTriangulator.triangulate_relative(pose, a, b),
        DLT => RelativeDltTriangulator::new().triangulate_relative(pose, a, b),
        L1 => AngularL1Triangulator.triangulate_relative(pose, a, b),
        _ => AngularLInfinityTriangulator.triangulate_relative(pose, a, b),
    }
    .map(|p| p.homogeneous())
}

fn many(kind: usize, obs: &[(WorldToCamera, Unit)]) -> Option<Vector4<f64>> {
    let it = obs.iter().copied();
    match kind {
        LE => LinearEigenTriangulator::new().triangulate_observations(it),
        SINE => SineL1Triangulator::new().triangulate_observations(it),
        _ => MeanMeanTriangulator.triangulate_observations(it),
    }
    .map(|p| p.homogeneous())
}

fn iso_of(r: Mat3, t: Vec3) -> IsometryMatrix3<f64> {
    IsometryMatrix3::from_parts(t.into(), Rotation3::from_matrix_unchecked(r))
}

/// Depths x, y with x a ~ y b + c in the least-squares sense (rays o + x a and c + y b).
fn ray_depths(a: Vec3, b: Vec3, c: Vec3) -> (f64, f64) {
    let n = a.cross(&b);
    let d = n.norm_squared();
    (c.cross(&b).dot(&n) / d, c.cross(&a).dot(&n) / d)
}

// ---------------------------------------------------------------- C17 exact recovery

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ExactCase {
    pose: Iso,
    dir: V3,
    dist: f64,
    extra: Vec<Iso>,
    world: Iso,
}

/// Relative pose with unit-scale baseline, point 0.3 to 30 baselines away.
fn exact_strat() -> BoxedStrategy<ExactCase> {
    (
        (rot(), dir(), logu(-0.5, 0.5)).prop_map(|(r, d, s)| Iso { r, t: [d[0] * s, d[1] * s, d[2] * s] }),
        dir(),
        logu(-0.5, 1.5),
        few((rot(), trans(-0.5, 0.5)).prop_map(|(r, t)| Iso { r, t }), 0..5, 5..40),
        (rot(), trans(-1.0, 0.7)).prop_map(|(r, t)| Iso { r, t }),
    )
        .prop_map(|(pose, dir, dist, extra, world)| ExactCase { pose, dir, dist, extra, world })
        .boxed()
}

/// Ratio of the third to the first singular value of the DLT equations.
fn dlt_gap(r: Mat3, t: Vec3, a: Vec3, b: Vec3) -> f64 {
    let row = |i: usize| Vector4::new(r[(i, 0)], r[(i, 1)], r[(i, 2)], t[i]);
    let rows = [
        Vector4::new(-a.z, 0.0, a.x, 0.0),
        Vector4::new(0.0, -a.z, a.y, 0.0),
        row(2) * b.x - row(0) * b.z,
        row(2) * b.y - row(1) * b.z,
    ];
    let s = crate::linalg::jacobi_svd_cols((0..4).map(|j| rows.iter().map(|r| r[j]).collect()).collect()).s;
    s[2] / s[0]
}

fn exact_check(c: &ExactCase, obs: &mut Obs) -> Check {
    let r = c.pose.r.mat();
    let t = v3(c.pose.t);
    let p = v3(c.dir) * c.dist;
    let pb = r * p + t;
    let parallax = ang(r * p, pb);
    let s = parallax.sin();
    if pb.norm() < 0.1 || p.norm() < 0.1 || s < 0.01 {
        obs.label("skipped: little parallax");
        return Ok(());
    }
    obs.nontrivial();
    let pose = CameraToCamera(iso_of(r, t));
    // Rotating the frames of both cameras is the second, equivalent, evaluation used to set aside
    // inputs where the dependency's eigen solver happens to be inaccurate.
    let (qa, qb) = (exp_so3(Vector3::new(0.3, -0.7, 0.2)), exp_so3(Vector3::new(-0.5, 0.1, 0.4)));
    let pose2 = CameraToCamera(iso_of(qb * r * qa.transpose(), qb * t));
    let err = |got: Option<Vector4<f64>>, want: Vec3| match got {
        None => f64::INFINITY,
        Some(h) => (h.xyz() / h.w - want).norm() / want.norm(),
    };
    for kind in [LE, SINE, DLT, L1, LINF] {
        let (a, b) = (Unit::new_normalize(p), Unit::new_normalize(pb));
        let (a2, b2) = (Unit::new_normalize(qa * p), Unit::new_normalize(qb * pb));
        let e1 = err(relative(kind, pose, a, b), p);
        let e2 = err(relative(kind, pose2, a2, b2), qa * p);
        obs.max(NAMES[kind], e1.min(e2));
        let (tight, coarse) = match kind {
            L1 | LINF => (1e-12 / (s * s), 1e-12 / (s * s)),
            _ => (1e-8 / (s * s), 1e-3 / (s * s)),
        };
        if kind == DLT {
            // The equations of this method lose rank for bearings in the image plane of their camera.
            let ok = [dlt_gap(r, t, a.into_inner(), b.into_inner()), dlt_gap(qb * r * qa.transpose(), qb * t, a2.into_inner(), b2.into_inner())].map(|g| g > 0.02);
            if ok != [true, true] {
                obs.label("image plane");
                for (ok, e) in ok.iter().zip([e1, e2]) {
                    chk!(!ok || e <= coarse, "{}: exact point {:?} in the image plane recovered with relative error {}", NAMES[kind], p, e);
                }
                continue;
            }
        }
        chk!(
            e1.min(e2) <= tight && e1.max(e2) <= coarse.max(tight),
            "{}: exact point {:?} recovered with relative errors {} and {} in rotated frames (got {:?}; allowed {} once, {} twice)",
            NAMES[kind], p, e1, e2, relative(kind, pose, a, b), tight, coarse
        );
    }
    // Many views, in world coordinates.
    let (rw, tw) = (c.world.r.mat(), v3(c.world.t));
    let (mut o1, mut o2) = (vec![], vec![]);
    let mut near = false;
    let qw = exp_so3(Vector3::new(-0.2, 0.8, 0.5));
    for (r, t) in [(Matrix3::identity(), Vector3::zeros()), (r, t)].into_iter().chain(c.extra.iter().map(|i| (i.r.mat(), v3(i.t)))) {
        // camera from world: r (Rw x + tw) + t
        let d = r * p + t;
        near |= d.norm() < 0.1;
        let b = Unit::new_normalize(d);
        o1.push((WorldToCamera(iso_of(r * rw, r * tw + t)), b));
        o2.push((WorldToCamera(iso_of(r * rw * qw.transpose(), r * tw + t)), b));
    }
    if near {
        return Ok(());
    }
    obs.label(["2 views", "3 views", "4 views", "5 views", "6 views", "7-41 views"][c.extra.len().min(5)]);
    let x = rw.transpose() * (p - tw);
    let n = o1.len() as f64;
    for kind in [LE, SINE] {
        let scale = x.norm().max(1e-9);
        let amp = (1.0 + tw.norm() + p.norm()) / scale * n;
        let e1 = err(many(kind, &o1), x);
        let e2 = err(many(kind, &o2), qw * x);
        let (tight, coarse) = (1e-8 * amp / (s * s), 1e-3 * amp / (s * s));
        chk!(
            e1.min(e2) <= tight && e1.max(e2) <= coarse,
            "{}: exact point {:?} seen by {} cameras recovered with relative errors {} and {} in a rotated world (got {:?})",
            NAMES[kind], x, n, e1, e2, many(kind, &o1)
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- C18 soundness

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SoundCase {
    poses: Vec<Iso>,
    bearings: Vec<V3>,
    p: V3,
    dist: f64,
    /// per view: 0 exact, 1 slightly off, 2 opposite, 3 free
    mode: Vec<u8>,
    mag: f64,
}

fn sound_strat() -> BoxedStrategy<SoundCase> {
    let view = (
        prop_oneof![6 => iso(-1.5, 1.0), 1 => Just(Iso { r: Rot { axis: [1.0, 0.0, 0.0], angle: 0.0 }, t: [0.0; 3] })],
        dir(),
        prop_oneof![6 => Just(0u8), 5 => Just(1u8), 1 => Just(2u8), 2 => Just(3u8)],
    );
    (
        few(view, 1..6, 6..40),
        dir(),
        logu(-1.0, 2.0),
        logu(-5.0, -0.3),
        // all views alike, to visit fully consistent and fully free inputs often enough
        prop_oneof![3 => Just(None), 2 => Just(Some(0u8)), 2 => Just(Some(1u8)), 1 => Just(Some(3u8))],
    )
        .prop_map(|(v, p, dist, mag, all)| {
            let mode = v.iter().map(|x| all.unwrap_or(x.2)).collect();
            SoundCase { poses: v.iter().map(|x| x.0).collect(), bearings: v.iter().map(|x| x.1).collect(), mode, p, dist, mag }
        })
        .boxed()
}

fn bearing_of(mode: u8, d: Vec3, free: Vec3, mag: f64) -> Unit {
    let d = if d.norm() < 1e-9 { free } else { d.normalize() };
    Unit::new_normalize(match mode {
        0 => d,
        1 => d + free * mag,
        2 => -d,
        _ => free,
    })
}

fn in_front(h: Vector4<f64>, views: &[(Mat3, Vec3, Unit)]) -> Result<(), String> {
    chk!(h.iter().all(|x| x.is_finite()), "returned {:?}", h);
    chk!(h.w >= 0.0, "returned {:?} with negative w", h);
    chk!((h.xyz().norm() - 1.0).abs() < 1e-9, "returned {:?}, which is not normalized", h);
    for (r, t, b) in views {
        let d = r * h.xyz() + t * h.w;
        let m = h.xyz().norm() + t.norm() * h.w;
        let dot = d.dot(b) / m;
        chk!(dot >= -1e-9, "returned {:?}, which is behind the camera {:?} {:?} observing it along {:?} (cosine {})", h, r, t, b, d.dot(b) / d.norm());
    }
    Ok(())
}

fn sound_check(c: &SoundCase, obs: &mut Obs) -> Check {
    let x = v3(c.p) * c.dist;
    let mut views = vec![];
    for (i, p) in c.poses.iter().enumerate() {
        let (r, t) = (p.r.mat(), v3(p.t));
        views.push((r, t, bearing_of(c.mode[i], r * x + t, v3(c.bearings[i]), c.mag)));
    }
    let list: Vec<_> = views.iter().map(|(r, t, b)| (WorldToCamera(iso_of(*r, *t)), *b)).collect();
    for kind in [LE, SINE, MEAN] {
        let got = many(kind, &list);
        if let Some(h) = got {
            obs.label(NAMES[kind]);
            if list.len() > 1 {
                obs.nontrivial();
            }
            in_front(h, &views).map_err(|e| format!("{} with {} views {}", NAMES[kind], list.len(), e))?;
        }
        if kind != MEAN {
            chk!(list.len() >= 2 || got.is_none(), "{} returned {:?} from a single observation", NAMES[kind], got);
        }
        chk!(many(kind, &[]).is_none(), "{} returned a point without observations", NAMES[kind]);
    }
    if views.len() >= 2 {
        // First two views as a relative problem in the frame of the first camera.
        let (r0, t0, a) = views[0];
        let (r1, t1, b) = views[1];
        let r = r1 * r0.transpose();
        let t = t1 - r * t0;
        let v = [(Matrix3::identity(), Vector3::zeros(), a), (r, t, b)];
        for kind in [LE, SINE, MEAN, DLT, L1, LINF] {
            if let Some(h) = relative(kind, CameraToCamera(iso_of(r, t)), a, b) {
                obs.label(["rel LinearEigen", "rel SineL1", "rel MeanMean", "rel RelativeDlt", "rel AngularL1", "rel AngularLInfinity"][kind]);
                in_front(h, &v).map_err(|e| format!("relative {} {}", NAMES[kind], e))?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C19 equivariance

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EquiCase {
    poses: Vec<Iso>,
    noise: Vec<V3>,
    mag: f64,
    p: V3,
    dist: f64,
    q: Rot,
    shift: V3,
    k: f64,
    far: f64,
    cams: Vec<Rot>,
    rotate_by: usize,
}

fn equi_strat() -> BoxedStrategy<EquiCase> {
    (
        few(((rot(), trans(-0.5, 0.5)).prop_map(|(r, t)| Iso { r, t }), dir(), rot()), 2..6, 6..40),
        prop_oneof![1 => Just(0.0), 4 => logu(-6.0, -1.0)],
        dir(),
        logu(-0.3, 1.0),
        rot(),
        trans(-1.0, 0.5),
        (logu(-1.0, 1.0), logu(-14.0, 6.0)),
        0usize..5,
    )
        .prop_map(|(v, mag, p, dist, q, shift, (k, far), rotate_by)| EquiCase {
            far,
            poses: v.iter().map(|x| x.0).collect(),
            noise: v.iter().map(|x| x.1).collect(),
            cams: v.iter().map(|x| x.2).collect(),
            mag,
            p,
            dist,
            q,
            shift,
            k,
            rotate_by,
        })
        .boxed()
}

/// Euclidean position, if the homogeneous point is safely finite.
fn fin(h: Vector4<f64>) -> Vec3 {
    h.xyz() / h.w
}

fn equi_check(c: &EquiCase, obs: &mut Obs) -> Check {
    let x = v3(c.p) * c.dist;
    let mut views: Vec<(Mat3, Vec3, Unit)> = vec![];
    for (i, p) in c.poses.iter().enumerate() {
        let (r, t) = (p.r.mat(), v3(p.t));
        let d = r * x + t;
        if d.norm() < 0.2 {
            obs.label("skipped: next to a camera");
            return Ok(());
        }
        views.push((r, t, Unit::new_normalize(d.normalize() + v3(c.noise[i]) * c.mag)));
    }
    // Conditioning: spread of the ray directions.
    let mut spread = 0.0f64;
    for i in 0..views.len() {
        for j in 0..i {
            spread = spread.max((views[i].0.transpose() * views[i].2.into_inner()).cross(&(views[j].0.transpose() * views[j].2.into_inner())).norm());
        }
    }
    if spread < 0.2 {
        obs.label("skipped: little parallax");
        return Ok(());
    }
    let list = |v: &[(Mat3, Vec3, Unit)]| -> Vec<(WorldToCamera, Unit)> { v.iter().map(|(r, t, b)| (WorldToCamera(iso_of(*r, *t)), *b)).collect() };
    let (q, s) = (c.q.mat(), v3(c.shift));
    // New world coordinates y = q x + s.
    let moved: Vec<_> = views.iter().map(|(r, t, b)| (r * q.transpose(), t - r * q.transpose() * s, *b)).collect();
    let scaled: Vec<_> = views.iter().map(|(r, t, b)| (*r, t * c.k, *b)).collect();
    let turned: Vec<_> = views.iter().zip(&c.cams).map(|((r, t, b), w)| (w.mat() * r, w.mat() * t, Unit::new_normalize(w.mat() * b.into_inner()))).collect();
    let mut shuffled = views.clone();
    let by = c.rotate_by % views.len();
    shuffled.rotate_left(by);
    if c.rotate_by % 2 == 0 {
        shuffled.reverse();
    }
    let far: Vec<_> = views.iter().map(|(r, t, b)| (*r, t * c.far, *b)).collect();
    // Smallest stiffness of the point in the field of its rays, per ray.
    let stiff = {
        let mut cols = vec![vec![]; 3];
        for (r, _, b) in &views {
            let d = r.transpose() * b.into_inner();
            let m = Matrix3::identity() - d * d.transpose();
            for (j, col) in cols.iter_mut().enumerate() {
                col.extend(m.column(j).iter());
            }
        }
        crate::linalg::jacobi_svd_cols(cols).s[2].powi(2) / views.len() as f64
    };
    for kind in [LE, SINE, MEAN] {
        let base = many(kind, &list(&views));
        let Some(h) = base else { continue };
        if h.w < 1e-3 {
            continue;
        }
        let p0 = fin(h);
        // The projective least squares of LinearEigen is not translation or scale covariant unless exact.
        let exact = c.mag == 0.0;
        let tol = match kind {
            LE => 1e-4,
            SINE => 1e-6,
            _ => 1e-8,
        } * (1.0 + p0.norm());
        let cmp = |what: &str, got: Option<Vector4<f64>>, want: Vec3, scale: f64| -> Check {
            match got {
                // A point that is all but behind a camera may fall either way.
                None => {
                    let edge = views.iter().any(|(r, t, b)| (r * p0 + t).normalize().dot(b).abs() < 1e-3);
                    chk!(edge, "{}: {} turns point {:?} into none", NAMES[kind], what, p0);
                }
                Some(g) => {
                    let d = (fin(g) - want).norm();
                    chk!(d <= tol * scale, "{}: {} should give {:?} but gives {:?} (off by {})", NAMES[kind], what, want, fin(g), d);
                }
            }
            Ok(())
        };
        obs.label(NAMES[kind]);
        obs.nontrivial();
        cmp("reordering the observations", many(kind, &list(&shuffled)), p0, 1.0)?;
        cmp("rotating every camera together with its bearing", many(kind, &list(&turned)), p0, 1.0)?;
        if kind != LE && kind != SINE || exact {
            cmp("changing the world frame", many(kind, &list(&moved)), q * p0 + s, 1.0 + s.norm())?;
            cmp("scaling the world", many(kind, &list(&scaled)), p0 * c.k, c.k)?;
        } else {
            let rotated: Vec<_> = views.iter().map(|(r, t, b)| (r * q.transpose(), *t, *b)).collect();
            cmp("rotating the world", many(kind, &list(&rotated)), q * p0, 1.0)?;
            if kind == SINE && stiff > 0.05 {
                // The refinement ends at the same point wherever it starts.
                for (what, views, want, unit) in [
                    ("changing the world frame", &moved, q * p0 + s, 1.0 + s.norm()),
                    ("scaling the world", &scaled, p0 * c.k, c.k),
                    ("scaling the world a lot", &far, p0 * c.far, c.far),
                ] {
                    // Its start may be behind a camera in one of both worlds.
                    if let Some(h) = many(kind, &list(views)) {
                        obs.label(what);
                        cmp(what, Some(h), want, unit)?;
                    }
                }
            }
        }
    }
    // Two views: relative entry point against the observation list, and swapping the cameras.
    let (r0, t0, a) = views[0];
    let (r1, t1, b) = views[1];
    let r = r1 * r0.transpose();
    let t = t1 - r * t0;
    let n = (r * a.into_inner()).cross(&b).norm();
    if t.norm() < 0.1 || n < 0.2 {
        return Ok(());
    }
    let pose = CameraToCamera(iso_of(r, t));
    let back = CameraToCamera(iso_of(r.transpose(), -(r.transpose() * t)));
    for kind in [LE, SINE, MEAN] {
        let o = [(WorldToCamera(IsometryMatrix3::identity()), a), (WorldToCamera(pose.0), b)];
        let (x1, x2) = (relative(kind, pose, a, b), many(kind, &o));
        // The same inputs by another entry point (which may round differently).
        let same = |u: Option<Vector4<f64>>, v: Option<Vector4<f64>>| match (u, v) {
            (Some(u), Some(v)) => (u - v).norm() <= 1e-4,
            (None, None) => true,
            (Some(h), None) | (None, Some(h)) => {
                let d = r * h.xyz() + t * h.w;
                d.normalize().dot(&b).abs() < 1e-3 || h.xyz().dot(&a).abs() < 1e-3
            }
        };
        chk!(same(x1, x2), "{}: relative gives {:?}, the same observations give {:?}", NAMES[kind], x1, x2);
        let direct = match kind {
            LE => LinearEigenTriangulator::new().triangulate_observations_to_camera(a, std::iter::once((pose, b))),
            SINE => SineL1Triangulator::new().triangulate_observations_to_camera(a, std::iter::once((pose, b))),
            _ => MeanMeanTriangulator.triangulate_observations_to_camera(a, std::iter::once((pose, b))),
        };
        let direct = direct.map(|p| p.homogeneous());
        chk!(same(direct, x1), "{}: triangulate_observations_to_camera gives {:?}, triangulate_relative {:?}", NAMES[kind], direct, x1);
    }
    for kind in [L1, LINF] {
        let (ca, cb) = ((r * a.into_inner()).cross(&t).norm(), b.cross(&t).norm());
        if (ca - cb).abs() < 1e-3 * t.norm() {
            continue; // both corrections cost the same
        }
        if kind == LINF {
            let (ra, tn) = (r * a.into_inner(), t.normalize());
            let (m1, m2) = ((ra + b.into_inner()).cross(&tn).norm(), (ra - b.into_inner()).cross(&tn).norm());
            if (m1 - m2).abs() < 1e-3 {
                continue;
            }
        }
        let Some(h) = relative(kind, pose, a, b) else { continue };
        let d = r * h.xyz() + t * h.w;
        if h.w < 1e-3 || h.w > 1e3 || d.norm() < 0.05 || h.xyz().dot(&a).min(d.dot(&b)) < 1e-3 {
            continue;
        }
        let (rc, bc) = {
            let x = fin(h).normalize();
            (r * x, (r * fin(h) + t).normalize())
        };
        if rc.cross(&bc).norm() < 0.02 {
            continue;
        }
        obs.label(NAMES[kind]);
        obs.nontrivial();
        let p0 = fin(h);
        let tol = 1e-8 * (1.0 + p0.norm());
        let other = relative(kind, back, b, a);
        chk!(matches!(other, Some(g) if (fin(g) - (r * p0 + t)).norm() <= tol), "{}: swapping the cameras gives {:?} instead of {:?}", NAMES[kind], other.map(fin), r * p0 + t);
        let sc = relative(kind, CameraToCamera(iso_of(r, t * c.k)), a, b);
        chk!(matches!(sc, Some(g) if (fin(g) - p0 * c.k).norm() <= tol * c.k), "{}: scaling the baseline by {} gives {:?} instead of {:?}", NAMES[kind], c.k, sc.map(fin), p0 * c.k);
        let (wa, wb) = (c.cams[0].mat(), c.cams[1].mat());
        let tu = relative(kind, CameraToCamera(iso_of(wb * r * wa.transpose(), wb * t)), Unit::new_normalize(wa * a.into_inner()), Unit::new_normalize(wb * b.into_inner()));
        chk!(matches!(tu, Some(g) if (fin(g) - wa * p0).norm() <= tol), "{}: rotating the cameras gives {:?} instead of {:?}", NAMES[kind], tu.map(fin), wa * p0);
    }
    Ok(())
}

// ---------------------------------------------------------------- C20 optimality

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OptCase {
    pose: Iso,
    p: V3,
    dist: f64,
    noise: [V3; 2],
    mag: f64,
    free: bool,
    extra: Vec<(Iso, V3)>,
    rival: V3,
    step: f64,
}

fn opt_strat() -> BoxedStrategy<OptCase> {
    (
        (rot(), dir(), logu(-0.5, 0.5)).prop_map(|(r, d, s)| Iso { r, t: [d[0] * s, d[1] * s, d[2] * s] }),
        dir(),
        logu(-0.5, 1.3),
        [dir(), dir()],
        logu(-5.0, -0.3),
        prop::bool::weighted(0.15),
        few(((rot(), trans(-0.5, 0.5)).prop_map(|(r, t)| Iso { r, t }), dir()), 0..4, 4..40),
        dir(),
        logu(-4.0, 0.5),
    )
        .prop_map(|(pose, p, dist, noise, mag, free, extra, rival, step)| OptCase { pose, p, dist, noise, mag, free, extra, rival, step })
        .boxed()
}

/// Unit normals of the planes through the baseline, by angle.
fn plane(e1: Vec3, e2: Vec3, phi: f64) -> Vec3 {
    e1 * phi.cos() + e2 * phi.sin()
}

fn scan_min(f: impl Fn(f64) -> f64) -> f64 {
    let n = 96;
    let h = std::f64::consts::PI / n as f64;
    let v: Vec<f64> = (0..n).map(|i| f(i as f64 * h)).collect();
    let mut best = f64::INFINITY;
    for i in 0..n {
        best = best.min(v[i]);
        if v[i] > v[(i + 1) % n] || v[i] > v[(i + n - 1) % n] {
            continue;
        }
        // golden section around a local minimum of the samples
        let (mut lo, mut hi) = ((i as f64 - 1.0) * h, (i as f64 + 1.0) * h);
        let g = 0.618_033_988_749_894_9;
        for _ in 0..40 {
            let (x, y) = (hi - g * (hi - lo), lo + g * (hi - lo));
            if f(x) < f(y) {
                hi = y;
            } else {
                lo = x;
            }
        }
        best = best.min(f(0.5 * (lo + hi)));
    }
    best
}

fn opt_check(c: &OptCase, obs: &mut Obs) -> Check {
    let (r, t) = (c.pose.r.mat(), v3(c.pose.t));
    let x = v3(c.p) * c.dist;
    let d = r * x + t;
    if d.norm() < 0.1 {
        return Ok(());
    }
    let (a, b) = if c.free {
        (uv(c.noise[0]), uv(c.noise[1]))
    } else {
        (Unit::new_normalize(x.normalize() + v3(c.noise[0]) * c.mag), Unit::new_normalize(d.normalize() + v3(c.noise[1]) * c.mag))
    };
    let pose = CameraToCamera(iso_of(r, t));
    // In camera A: rays a from 0 and bb from cb.
    let bb = r.transpose() * b.into_inner();
    let cb = -(r.transpose() * t);
    let tn = cb.normalize();
    let e1 = tn.cross(&if tn.x.abs() < 0.6 { Vector3::x() } else { Vector3::y() }).normalize();
    let e2 = tn.cross(&e1);
    for kind in [L1, LINF] {
        let cost = |sa: f64, sb: f64| {
            let (x, y) = (sa.abs().min(1.0).asin(), sb.abs().min(1.0).asin());
            if kind == L1 {
                x + y
            } else {
                x.max(y)
            }
        };
        let got = relative(kind, pose, a, b);
        // What the closed forms should choose, written with plane normals.
        let (na, nb) = (a.cross(&tn), bb.cross(&tn));
        let (n, margin) = if kind == L1 {
            let m = (na.norm() - nb.norm()).abs();
            (if na.norm() < nb.norm() { nb.normalize() } else { na.normalize() }, m)
        } else {
            let (p, q) = ((a.into_inner() + bb).cross(&tn), (a.into_inner() - bb).cross(&tn));
            (if p.norm() > q.norm() { p.normalize() } else { q.normalize() }, (p.norm() - q.norm()).abs())
        };
        let pa = a.into_inner() - n * n.dot(&a);
        let pb = bb - n * n.dot(&bb);
        if margin < 1e-6 || pa.norm() < 1e-3 || pb.norm() < 1e-3 {
            continue;
        }
        let (pa, pb) = (pa.normalize(), pb.normalize());
        let par = pa.cross(&pb).norm();
        if par < 1e-3 {
            continue;
        }
        let (xa, xb) = ray_depths(pa, pb, cb);
        let eps = 1e-6 * cb.norm();
        if xa > eps && xb > eps {
            chk!(got.is_some(), "{}: corrected rays meet at depths {} and {} in front of both cameras, but no point is returned", NAMES[kind], xa, xb);
        }
        if xa < -eps || xb < -eps {
            chk!(got.is_none(), "{}: corrected rays meet at depths {} and {}, but {:?} is returned", NAMES[kind], xa, xb, got);
            obs.label("corrected rays meet behind a camera");
        }
        let Some(h) = got else { continue };
        let p = h.xyz() / h.w;
        if !(p.norm() < 1e3 && (p - cb).norm() > 1e-3 && p.norm() > 1e-3) {
            continue;
        }
        obs.label(NAMES[kind]);
        obs.nontrivial();
        let (ta, tb) = (ang(p, a.into_inner()), ang(p - cb, bb));
        let mine = if kind == L1 { ta + tb } else { ta.max(tb) };
        let best = scan_min(|phi| {
            let n = plane(e1, e2, phi);
            cost(n.dot(&a), n.dot(&bb))
        });
        chk!(mine <= best + 1e-6 / par, "{}: point {:?} has angular error {} ({} and {}), but {} is possible", NAMES[kind], p, mine, ta, tb, best);
        // Any other point in front of the cameras is no better.
        for rival in [p + v3(c.rival) * (c.step * p.norm()), x] {
            let (ra, rb) = (ang(rival, a.into_inner()), ang(rival - cb, bb));
            let theirs = if kind == L1 { ra + rb } else { ra.max(rb) };
            chk!(mine <= theirs + 1e-6 / par, "{}: point {:?} has angular error {}, but {:?} has {}", NAMES[kind], p, mine, rival, theirs);
        }
    }
    // Linear eigen: smallest algebraic cost. Sine: smallest sum of squared distances to the rays.
    let mut views = vec![(Matrix3::identity(), Vector3::zeros(), a), (r, t, b)];
    for (i, n) in &c.extra {
        let (r, t) = (i.r.mat(), v3(i.t));
        let d = r * x + t;
        if d.norm() < 0.1 {
            return Ok(());
        }
        views.push((r, t, Unit::new_normalize(d.normalize() + v3(*n) * c.mag)));
    }
    let list: Vec<_> = views.iter().map(|(r, t, b)| (WorldToCamera(iso_of(*r, *t)), *b)).collect();
    // 3n x 4 system, as columns.
    let mut cols = vec![vec![]; 4];
    for (r, t, b) in &views {
        let proj = Matrix3::identity() - b.into_inner() * b.transpose();
        let m = proj * r;
        let q = proj * t;
        for i in 0..3 {
            for (j, col) in cols.iter_mut().enumerate().take(3) {
                col.push(m[(i, j)]);
            }
            cols[3].push(q[i]);
        }
    }
    let acost = |h: Vector4<f64>| -> f64 {
        let h = h.normalize();
        (0..cols[0].len()).map(|i| (cols[0][i] * h.x + cols[1][i] * h.y + cols[2][i] * h.z + cols[3][i] * h.w).powi(2)).sum()
    };
    let svd = crate::linalg::jacobi_svd_cols(cols.clone());
    let best = svd.s[3] * svd.s[3];
    let top = svd.s[0] * svd.s[0];
    let nullv = Vector4::new(svd.v[3][0], svd.v[3][1], svd.v[3][2], svd.v[3][3]);
    let nullv = if nullv.w < 0.0 { -nullv } else { nullv };
    let gap = (svd.s[2] * svd.s[2] - best) / top;
    match many(LE, &list) {
        Some(h) => {
            chk!(acost(h) <= best + 1e-9 * top, "LinearEigen: {:?} has algebraic error {}, but {} is possible", h, acost(h), best);
            obs.label("LinearEigen");
            obs.nontrivial();
        }
        None => {
            // Only acceptable if the optimum is behind one of the cameras.
            let sure = gap > 1e-4 && nullv.w > 1e-3 && views.iter().all(|(r, t, b)| (r * nullv.xyz() + t * nullv.w).dot(b) > 1e-3);
            chk!(!sure, "LinearEigen: no point, but {:?} is the optimum and in front of all {} cameras", nullv, views.len());
        }
    }
    if let Some(h) = many(SINE, &list) {
        let mut m = Matrix3::zeros();
        let mut v = Vector3::zeros();
        let mut centres = vec![];
        for (r, t, b) in &views {
            let w = r.transpose() * b.into_inner();
            let pr = Matrix3::identity() - w * w.transpose();
            let ctr = -(r.transpose() * t);
            m += pr;
            v += pr * ctr;
            centres.push((ctr, pr));
        }
        m /= views.len() as f64;
        v /= views.len() as f64;
        let lam = jacobi_svd(&m).s[2];
        let p = h.xyz() / h.w;
        let cost = |p: Vec3| centres.iter().map(|(c, pr)| (pr * (p - c)).norm_squared()).sum::<f64>();
        // Refinement never makes the first guess worse.
        if let Some(g) = many(LE, &list) {
            let g = g.xyz() / g.w;
            if g.norm() < 1e6 {
                chk!(cost(p) <= cost(g) * (1.0 + 1e-9) + 1e-12 * (1.0 + g.norm_squared()), "SineL1: refined {:?} has squared distance {}, the first guess {:?} had {}", p, cost(p), g, cost(g));
            }
        }
        if lam > 0.04 {
            if let Some(inv) = m.try_inverse() {
                let want = inv * v;
                let tol = 1e-7 * (1.0 + want.norm()) / lam;
                chk!((p - want).norm() <= tol, "SineL1: {:?} should be the point closest to all rays {:?}", p, want);
                obs.label("SineL1");
                obs.nontrivial();
            }
        }
    }
    Ok(())
}

/// The mean-mean triangulator: the mean, over all observations, of the point of the mean ray that
/// is closest to the ray of the observation.
fn mean_ray_check(c: &EquiCase, obs: &mut Obs) -> Check {
    let x = v3(c.p) * c.dist;
    let mut rays: Vec<(Vec3, Vec3)> = vec![];
    let mut list = vec![];
    let mut views = vec![];
    for (i, p) in c.poses.iter().enumerate() {
        let (r, t) = (p.r.mat(), v3(p.t));
        let d = r * x + t;
        if d.norm() < 0.1 {
            obs.label("skipped: next to a camera");
            return Ok(());
        }
        let b = Unit::new_normalize(d.normalize() + v3(c.noise[i]) * c.mag);
        rays.push((-(r.transpose() * t), r.transpose() * b.into_inner()));
        list.push((WorldToCamera(iso_of(r, t)), b));
        views.push((r, t, b));
    }
    let n = rays.len() as f64;
    let centre = rays.iter().map(|r| r.0).sum::<Vec3>() / n;
    let sum = rays.iter().map(|r| r.1).sum::<Vec3>();
    if sum.norm() < 0.05 {
        obs.label("skipped: no mean bearing");
        return Ok(());
    }
    let d = sum.normalize();
    let (mut s, mut mag) = (0.0, centre.norm() + c.dist);
    for (o, b) in &rays {
        // Minimise |centre + k d - o - l b| over k and l.
        let w = centre - o;
        let db = d.dot(b);
        let det = 1.0 - db * db;
        if det < 1e-4 {
            obs.label("skipped: an observation along the mean ray");
            return Ok(());
        }
        s += (db * b.dot(&w) - d.dot(&w)) / det / n;
        mag += w.norm() / det;
    }
    if s.abs() <= 1e-6 * mag {
        return Ok(());
    }
    let e = centre + d * s;
    let got = many(MEAN, &list);
    let margin = views.iter().map(|(r, t, b)| { let q = r * e + t; q.dot(b) / q.norm() }).fold(f64::INFINITY, f64::min);
    // A point at a negative distance along the mean ray is in homogeneous form in the opposite direction.
    match got {
        Some(h) => {
            obs.nontrivial();
            obs.label_if(rays.len() > 2, "more than two cameras");
            obs.label_if(c.mag > 0.0, "noisy");
            let g = fin(h);
            chk!((g - e).norm() <= 1e-9 * mag * (1.0 + mag / s.abs()), "MeanMean: {:?} from {} cameras, but the mean closest point of the mean ray is {:?}", g, rays.len(), e);
            chk!(margin > -1e-6, "MeanMean: {:?} is behind a camera", g);
        }
        None => {
            chk!(margin < 1e-6, "MeanMean: no point, but {:?} is in front of all {} cameras", e, rays.len());
            obs.label("none: behind a camera");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C21 loss

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LossCase {
    t: V3,
    a: V3,
    b: V3,
    depth: f64,
    mode: u8,
    q: Rot,
    k: f64,
    mag: f64,
}

fn loss_strat() -> BoxedStrategy<LossCase> {
    (trans(-2.0, 2.0), dir(), dir(), logu(-1.0, 2.0), 0u8..5, rot(), logu(-3.0, 3.0), logu(-8.0, 0.0))
        .prop_map(|(t, a, b, depth, mode, q, k, mag)| LossCase { t, a, b, depth, mode, q, k, mag })
        .boxed()
}

fn loss_check(c: &LossCase, obs: &mut Obs) -> Check {
    let t = v3(c.t);
    let a = uv(c.a);
    let meet = v3(c.a) * c.depth + t;
    let b = match c.mode {
        0 | 1 if meet.norm() > 1e-6 => Unit::new_normalize(if c.mode == 0 { meet } else { meet.normalize() + v3(c.b) * c.mag }),
        2 if t.norm() > 0.0 => Unit::new_normalize(t + v3(c.b) * (c.mag * t.norm() * 1e-3)),
        _ => uv(c.b),
    };
    let got = epipolar::loss(t, a, b);
    chk!((0.0..=1.0 + 1e-12).contains(&got), "loss {} outside [0,1]", got);
    let dot = a.dot(&b);
    if dot < -1e-12 {
        obs.label("bearings point apart");
        chk!(got == 1.0, "bearings more than 90 degrees apart have loss {}", got);
        return Ok(());
    }
    if t.norm() == 0.0 {
        chk!(got == 1.0, "loss {} without a baseline", got);
        return Ok(());
    }
    if dot < 1e-12 {
        return Ok(());
    }
    let th = t.normalize();
    let (ca, cb) = (a.cross(&th), b.cross(&th));
    let m = ca.norm().max(cb.norm());
    if m < 1e-6 {
        obs.label("skipped: both bearings along the baseline");
        return Ok(());
    }
    obs.nontrivial();
    let want = a.dot(&b.cross(&th)).abs() / m;
    let tol = 1e-14 / m;
    chk!((got - want).abs() <= tol, "loss {} should be {}", got, want);
    // Smallest possible sum of angular corrections, searched directly.
    if c.mode != 2 && c.k > 1.0 && c.k < 3.0 {
        let e1 = th.cross(&if th.x.abs() < 0.6 { Vector3::x() } else { Vector3::y() }).normalize();
        let e2 = th.cross(&e1);
        let sum = |n: Vec3| n.dot(&a).abs().min(1.0).asin() + n.dot(&b).abs().min(1.0).asin();
        let mut best = scan_min(|phi| sum(plane(e1, e2, phi)));
        // The planes through one of the bearings are kinks, which the scan may step over.
        for x in [ca, cb] {
            if x.norm() > 1e-9 {
                best = best.min(sum(x.normalize()));
            }
        }
        chk!((got.min(1.0).asin() - best).abs() <= 1e-6 / m, "loss {} is the sine of {}, but the smallest correction is {}", got, got.asin(), best);
        obs.label("searched");
    }
    if c.mode == 0 {
        obs.label("exact");
        chk!(got <= 1e-14 * (1.0 + (c.depth + t.norm()) / meet.norm()) / m, "exact match has loss {}", got);
    }
    let q = c.q.rot();
    for (what, v) in [
        ("swapping the bearings", epipolar::loss(t, b, a)),
        ("negating the translation", epipolar::loss(-t, a, b)),
        ("scaling the translation", epipolar::loss(t * c.k, a, b)),
        ("negating both bearings", epipolar::loss(t, -a, -b)),
        ("rotating everything", epipolar::loss(q * t, q * a, q * b)),
    ] {
        chk!((v - got).abs() <= 4.0 * tol, "{} changes the loss from {} to {}", what, got, v);
    }
    Ok(())
}

// ---------------------------------------------------------------- C22 gradients

#[derive(Clone, Debug, Serialize, Deserialize)]
struct GradCase {
    x: V3,
    b: V3,
    near: bool,
    mag: f64,
    p: V3,
    dist: f64,
    f: V3,
    s: V3,
    noise: [V3; 3],
    nmag: f64,
    q: Rot,
    k: f64,
}

fn scaled_dir(lo: f64, hi: f64) -> BoxedStrategy<V3> {
    (dir(), logu(lo, hi)).prop_map(|(d, s)| [d[0] * s, d[1] * s, d[2] * s]).boxed()
}

fn grad_strat() -> BoxedStrategy<GradCase> {
    (
        scaled_dir(-3.0, 3.0),
        dir(),
        any::<bool>(),
        logu(-6.0, 0.0),
        dir(),
        logu(-0.3, 1.0),
        [scaled_dir(-0.7, 0.5), scaled_dir(-0.7, 0.5)],
        [dir(), dir(), dir()],
        prop_oneof![1 => Just(0.0), 3 => logu(-6.0, 0.5)],
        rot(),
        logu(-2.0, 2.0),
    )
        .prop_map(|(x, b, near, mag, p, dist, [f, s], noise, nmag, q, k)| GradCase { x, b, near, mag, p, dist, f, s, noise, nmag, q, k })
        .boxed()
}

fn point_grad_check(c: &GradCase, obs: &mut Obs) -> Check {
    let x = v3(c.x);
    let n = x.norm();
    let b = if c.near { Unit::new_normalize(x.normalize() + v3(c.b) * c.mag) } else { uv(c.b) };
    obs.nontrivial();
    // The camera sits at x, the point at the origin.
    let g = epipolar::point_gradient(x, b);
    chk!(g.dot(&b).abs() <= 1e-13 * n, "point gradient {:?} moves along the bearing {:?}", g, b);
    chk!((g - x).cross(&b).norm() <= 1e-13 * n, "point moved by {:?} is not on the ray from {:?} along {:?}", g, x, b);
    let flip = epipolar::point_gradient(x, -b);
    chk!((flip - g).norm() <= 1e-13 * n, "point gradient depends on the sign of the bearing");
    // The point sits at x in the camera.
    let s = epipolar::world_pose_gradient(x, b);
    let (tg, rg) = (s.translation, s.rotation);
    chk!(tg.dot(&b).abs() <= 1e-13 * n, "translation gradient {:?} moves along the bearing {:?}", tg, b);
    chk!((x + tg).cross(&b).norm() <= 1e-13 * n, "point {:?} translated by {:?} is not on the ray along {:?}", x, tg, b);
    let th = ang(x, b.into_inner());
    chk!((rg.norm() - th.sin()).abs() <= 1e-13, "rotation gradient {:?} should have length sin({})", rg, th);
    chk!(rg.dot(&x).abs() <= 1e-13 * n && rg.dot(&b).abs() <= 1e-13, "rotation gradient {:?} is not perpendicular to {:?} and {:?}", rg, x, b);
    // Rotating by it brings the point closer to the bearing: the remaining angle is th - sin(th).
    let after = ang(exp_so3(rg) * x, b.into_inner());
    chk!((after - (th - th.sin())).abs() <= 1e-7, "rotating by the gradient leaves an angle of {} (before: {})", after, th);
    // Applying the whole step through a pose: translate, then rotate.
    let moved = s.isometry() * cv_core::nalgebra::Point3::from(x);
    let want = exp_so3(rg) * (x + tg);
    chk!((moved.coords - want).norm() <= 1e-12 * n, "applied to a pose, the gradient maps {:?} to {:?} instead of {:?}", x, moved, want);
    Ok(())
}

/// Reference two-view L1 triangulation: rays a from 0 and b from `cb`.
fn ref_l1(cb: Vec3, a: Unit, b: Unit, mirrored: bool) -> Option<(Option<Vec3>, f64)> {
    let (a, b) = (a.into_inner(), b.into_inner());
    let tn = cb.normalize();
    let (na, nb) = (a.cross(&tn), b.cross(&tn));
    let tie = (na.norm() - nb.norm()).abs();
    let n = if na.norm() < nb.norm() { nb.normalize() } else { na.normalize() };
    let pa = a - n * n.dot(&a);
    let pb = b - n * n.dot(&b);
    if pa.norm() < 1e-3 || pb.norm() < 1e-3 {
        return None;
    }
    let (pa, pb) = (pa.normalize(), pb.normalize());
    let par = pa.cross(&pb).norm();
    if par < 1e-3 || tie < 1e-6 {
        return None;
    }
    let (x, y) = ray_depths(pa, pb, cb);
    if x.abs() < 1e-6 || y.abs() < 1e-6 {
        return None;
    }
    let front = if mirrored {
        // The recorded finding includes the cheirality check of the second bearing from the first camera.
        if pa.dot(&pb).abs() < 1e-9 {
            return None;
        }
        x > 0.0 && pa.dot(&pb) > 0.0
    } else {
        x > 0.0 && y > 0.0
    };
    Some((if front { Some(pa * x) } else { None }, par))
}

fn three_check(c: &GradCase, obs: &mut Obs) -> Check {
    let p = v3(c.p) * c.dist;
    let (ft, st) = (v3(c.f), v3(c.s));
    let (pf, ps) = (p - ft, p - st);
    if pf.norm() < 0.1 || ps.norm() < 0.1 || (st - ft).norm() < 0.05 {
        return Ok(());
    }
    let mk = |d: Vec3, n: V3| Unit::new_normalize(d.normalize() + v3(n) * c.nmag);
    if [(p, 0), (pf, 1), (ps, 2)].iter().any(|(d, i)| (d.normalize() + v3(c.noise[*i]) * c.nmag).norm() < 1e-3) {
        return Ok(());
    }
    let (bc, bf, bs) = (mk(p, c.noise[0]), mk(pf, c.noise[1]), mk(ps, c.noise[2]));
    // All epipolar planes have to be well defined.
    for (b, t) in [(bc, ft), (bc, st), (bf, ft), (bs, st), (bf, st - ft), (bs, st - ft)] {
        if b.cross(&t.normalize()).norm() < 1e-2 {
            obs.label("skipped: bearing along a baseline");
            return Ok(());
        }
    }
    let got = epipolar::three_view_gradients(bc, bf, ft, bs, st);
    let rot = |t: Vec3, a: Unit, b: Unit| b.cross(&t).normalize().cross(&a.cross(&t).normalize());
    let (cf, cs, fs) = (rot(ft, bc, bf), rot(st, bc, bs), rot(st - ft, bf, bs));
    let (w1, w2) = ((cf * 2.0 - fs) / 3.0, (cs * 2.0 + fs) / 3.0);
    chk!((got[0].rotation - w1).norm() <= 1e-10 && (got[1].rotation - w2).norm() <= 1e-10, "rotation gradients {:?} {:?} should be {:?} {:?}", got[0].rotation, got[1].rotation, w1, w2);
    // `mirrored`: the recorded finding, where every second camera is put on the opposite side.
    let reference = |mirrored: bool| -> Option<(Vec3, Vec3, f64, f64)> {
        let side = if mirrored { -1.0 } else { 1.0 };
        let tri = [ref_l1(st * side, bc, bs, mirrored)?, ref_l1(ft * side, bc, bf, mirrored)?, ref_l1((st - ft) * side, bf, bs, mirrored)?];
        let mut worst = 1.0f64;
        let mut parts = [Vector3::zeros(); 3];
        let mut size = 0.0f64;
        for (i, (at, b)) in [(-ft, bf), (-st, bs), (ft, bc)].iter().enumerate() {
            let (q, par) = tri[i];
            worst = worst.min(par);
            if let Some(q) = q {
                let q = q + at;
                size = size.max(q.norm());
                let off = q - b.into_inner() * q.dot(b);
                parts[i] = if i == 2 { -off } else { off };
            }
        }
        let (w1, w2) = ((parts[0] * 2.0 + parts[2]) / 3.0, (parts[1] * 2.0 + parts[2]) / 3.0);
        Some((w1, w2, 1e-9 * (1.0 + size) / (worst * worst), worst))
    };
    let mut worst = 1.0f64;
    if let (Some((w1, w2, tol, par)), Some((m1, m2, tolm, parm))) = (reference(false), reference(true)) {
        worst = par.min(parm);
        let is = |w1: Vec3, w2: Vec3, tol: f64| (got[0].translation - w1).norm() <= tol && (got[1].translation - w2).norm() <= tol;
        if !is(w1, w2, tol) {
            let msg = format!("translation gradients {:?} {:?} should be {:?} {:?}", got[0].translation, got[1].translation, w1, w2);
            chk!(is(m1, m2, tolm), "{}", msg);
            obs.finding("three-view-mirrored-baseline", msg);
        }
        let tol = tol.max(tolm);
        obs.nontrivial();
        obs.label("translation compared");
        let tolr = 1e-9 / worst;
        // The frame and the scale do not matter.
        let q = c.q.rot();
        let rg = epipolar::three_view_gradients(q * bc, q * bf, q * ft, q * bs, q * st);
        for i in 0..2 {
            chk!((rg[i].translation - q * got[i].translation).norm() <= 4.0 * tol && (rg[i].rotation - q * got[i].rotation).norm() <= tolr, "rotating the frame gives {:?} instead of the rotated {:?}", rg[i], got[i]);
        }
        let sc = epipolar::three_view_gradients(bc, bf, ft * c.k, bs, st * c.k);
        for i in 0..2 {
            chk!((sc[i].translation - got[i].translation * c.k).norm() <= 4.0 * c.k * tol && (sc[i].rotation - got[i].rotation).norm() <= tolr, "scaling the scene by {} gives {:?} from {:?}", c.k, sc[i], got[i]);
        }
    }
    if c.nmag == 0.0 {
        obs.label("exact");
        for g in &got {
            chk!(g.rotation.norm() <= 1e-10 && (g.translation.norm() <= 1e-9 * (1.0 + p.norm()) / (worst * worst)), "exact matches have gradient {:?}", g);
        }
    }
    for g in &got {
        chk!(g.rotation.iter().chain(g.translation.iter()).all(|x| x.is_finite()), "gradient {:?}", g);
    }
    Ok(())
}

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "C17",
            assumptions: &[
                "parallax with sine at least 0.01; RelativeDlt only where no bearing is within 0.05 of the image plane; MeanMean is documented as approximate and excluded",
                "for the eigen/SVD based triangulators one of two equivalent frames must be accurate to 1e-8 (scaled), both to 1e-3: the dependency's solver has isolated inaccurate inputs",
            ],
            laws: vec![law("exact_recovery", "relative pose x finite point x up to 4 more cameras x world frame; non-trivial: enough parallax", 1_200_000, 10_000_000, exact_strat, exact_check)],
        },
        Property {
            id: "C18",
            assumptions: &["points within 1e-9 (relative) of a camera's dividing plane may fall either way"],
            laws: vec![law("sound_points", "1-5 cameras (also coincident) x bearings that are exact, noisy, opposite or free; non-trivial: a point was returned for two or more views", 900_000, 8_000_000, sound_strat, sound_check)],
        },
        Property {
            id: "C19",
            assumptions: &["largest angle between two rays has a sine of at least 0.2", "world shift and scale covariance of the projective least squares (LinearEigen, and SineL1 started from it) is only asserted for exact observations"],
            laws: vec![law("equivariance", "2-5 cameras x noisy bearings x frame change, scale, per-camera rotation, reordering, camera swap; non-trivial: a triangulated point was compared", 360_000, 3_000_000, equi_strat, equi_check)],
        },
        Property {
            id: "C20",
            assumptions: &["near ties between the two closed-form candidates (1e-6) and nearly parallel corrected rays (1e-3) are skipped"],
            laws: vec![
                law("optimal_points", "relative pose x noisy or free bearings x up to 3 more cameras x rival point; non-trivial: a returned point was compared with the searched optimum", 360_000, 3_000_000, opt_strat, opt_check),
                law("mean_ray", "2-5 cameras x noisy or exact bearings, MeanMean against the mean closest point of the mean ray; non-trivial: a point was compared", 1_200_000, 20_000_000, equi_strat, mean_ray_check),
            ],
        },
        Property {
            id: "C21",
            assumptions: &["both bearings within 1e-6 of the baseline are skipped"],
            laws: vec![law("epipolar_loss", "translation x bearings (exact, noisy, along the baseline, free); non-trivial: well-defined epipolar planes", 4_000_000, 60_000_000, loss_strat, loss_check)],
        },
        Property {
            id: "C22",
            assumptions: &["bearings within 1e-2 of a baseline are skipped for the three-view gradients; translation parts are compared where all three triangulations are decided by a margin"],
            laws: vec![
                law("point_and_pose_gradients", "point offset x bearing (near and free); every case counts", 2_000_000, 30_000_000, grad_strat, point_grad_check),
                law("three_view_gradients", "point x two camera positions x noisy bearings; non-trivial: translation gradients compared", 1_200_000, 20_000_000, grad_strat, three_check),
            ],
        },
    ]
}
