//! cv-optimize: single-view and three-view pose optimisation.
use crate::chk;
use crate::fw::*;
use crate::gen::*;
use cv_core::nalgebra::{IsometryMatrix3, Matrix3, Point3, Rotation3, UnitVector3, Vector3};
use cv_core::*;
use cv_geom::epipolar::three_view_gradients;
use cv_optimize::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

type Unit = UnitVector3<f64>;
type Vec3 = Vector3<f64>;
type Iso3 = IsometryMatrix3<f64>;

/// x -> exp(rotation) (x + translation), written out.
fn step_iso(t: Vec3, w: Vec3, on: &Iso3) -> Iso3 {
    let r = exp_so3(w);
    IsometryMatrix3::from_parts(
        (r * (on.translation.vector + t)).into(),
        Rotation3::from_matrix_unchecked(r * on.rotation.matrix()),
    )
}

fn iso_dist(a: &Iso3, b: &Iso3, scale: f64) -> f64 {
    let d = amax(&(a.rotation.matrix() - b.rotation.matrix())) + (a.translation.vector - b.translation.vector).norm() / scale;
    if d.is_nan() {
        f64::INFINITY
    } else {
        d
    }
}

fn finite(p: &Iso3) -> bool {
    p.translation.vector.iter().all(|x| x.is_finite()) && p.rotation.matrix().iter().all(|x| x.is_finite())
}

fn iso_of(r: Matrix3<f64>, t: Vec3) -> Iso3 {
    IsometryMatrix3::from_parts(t.into(), Rotation3::from_matrix_unchecked(r))
}

// ---------------------------------------------------------------- C27 single view

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mark {
    dir: V3,
    dist: f64,
    /// Error of the observation.
    noise: V3,
}

fn marks(n: std::ops::Range<usize>, noise: BoxedStrategy<f64>) -> BoxedStrategy<Vec<Mark>> {
    few(
        (prop_oneof![3 => (-0.8..0.8f64, -0.8..0.8f64).prop_map(|(x, y)| norm([x, y, 1.0])), 1 => udir()], logu(-0.5, 1.5), udir(), noise)
            .prop_map(|(dir, dist, d, s)| Mark { dir, dist, noise: [d[0] * s, d[1] * s, d[2] * s] }),
        n,
        12..150,
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SvCase {
    pose: Iso,
    start: Iso,
    marks: Vec<Mark>,
    scale: f64,
    rate: f64,
    epsilon: f64,
    iterations: usize,
    world: Iso,
    cam: Rot,
    factor: f64,
    shift: usize,
}

fn sv_gen(n: std::ops::Range<usize>, noise: BoxedStrategy<f64>, rate: BoxedStrategy<f64>, iterations: BoxedStrategy<usize>) -> BoxedStrategy<SvCase> {
    (
        (iso(-1.0, 1.0), (rot_upto(0.3), trans(-3.0, -0.3)).prop_map(|(r, t)| Iso { r, t }), marks(n, noise), prop_oneof![3 => Just(1.0), 1 => logu(-2.0, 2.0)]),
        (rate, logu(-9.0, -3.0), iterations),
        (iso(-1.0, 1.0), rot(), logu(-1.5, 1.5), 0usize..8),
    )
        .prop_map(|((pose, start, marks, scale), (rate, epsilon, iterations), (world, cam, factor, shift))| SvCase {
            pose,
            start,
            marks,
            scale,
            rate,
            epsilon,
            iterations,
            world,
            cam,
            factor,
            shift,
        })
        .boxed()
}

fn noisy() -> BoxedStrategy<f64> {
    logu(-4.0, -0.5)
}

fn sv_step_strat() -> BoxedStrategy<SvCase> {
    sv_gen(1..12, noisy(), prop_oneof![1 => Just(1.0), 3 => logu(-4.0, 0.3)].boxed(), Just(1usize).boxed())
}

fn sv_inv_strat() -> BoxedStrategy<SvCase> {
    sv_gen(1..10, noisy(), logu(-4.0, -0.5), (1usize..10).boxed())
}

fn sv_compose_strat() -> BoxedStrategy<SvCase> {
    sv_gen(
        1..8,
        prop_oneof![2 => noisy(), 1 => Just(0.0)].boxed(),
        prop_oneof![3 => logu(-4.0, 0.0), 1 => Just(1.0)].boxed(),
        (1usize..50).boxed(),
    )
}

fn sv_fixed_strat() -> BoxedStrategy<SvCase> {
    sv_gen(1..12, Just(0.0).boxed(), logu(-4.0, -0.7), (1usize..20).boxed())
}

impl SvCase {
    fn truth(&self) -> Iso3 {
        iso_of(self.pose.r.mat(), v3(self.pose.t) * self.scale)
    }
    fn begin(&self) -> Iso3 {
        let d = iso_of(self.start.r.mat(), v3(self.start.t) * self.scale);
        d * self.truth()
    }
    /// World points and bearings.
    fn world(&self) -> Vec<(Vec3, Vec3)> {
        let t = self.truth();
        self.marks
            .iter()
            .map(|m| {
                let p = v3(m.dir) * m.dist * self.scale;
                (t.rotation.matrix().transpose() * (p - t.translation.vector), (v3(m.dir) + v3(m.noise)).normalize())
            })
            .collect()
    }
    /// Largest distance that matters.
    fn size(&self) -> f64 {
        self.world().iter().map(|w| w.0.norm()).fold(self.truth().translation.vector.norm(), f64::max)
    }
}

fn data(w: &[(Vec3, Vec3)]) -> Vec<FeatureWorldMatch> {
    w.iter().map(|(p, b)| FeatureWorldMatch(Unit::new_normalize(*b), WorldPoint::from_point(Point3::from(*p)))).collect()
}

#[derive(Clone, Copy, PartialEq)]
enum Loss {
    L1,
    L2,
}

fn sv_run(l: Loss, start: &Iso3, c: &SvCase, rate: f64, iterations: usize, w: &[(Vec3, Vec3)]) -> Iso3 {
    let p = WorldToCamera(*start);
    match l {
        Loss::L1 => single_view_simple_optimize_l1(p, c.epsilon, rate, iterations, &data(w)).0,
        Loss::L2 => single_view_simple_optimize_l2(p, rate, iterations, &data(w)).0,
    }
}

/// The gradients of the landmarks, by the documented geometry: the translation moves the point
/// onto the line of the bearing, the rotation turns the point towards the bearing.
fn sv_gradients(pose: &Iso3, w: &[(Vec3, Vec3)]) -> Vec<(Vec3, Vec3)> {
    w.iter()
        .map(|(p, b)| {
            let q = pose.rotation.matrix() * p + pose.translation.vector;
            (b * q.dot(b) - q, q.cross(b) / q.norm())
        })
        .collect()
}

/// Mean of the gradients, or the sum of their directions by the sum of their inverse lengths.
fn combine(l: Loss, g: &[Vec3], epsilon: f64) -> Vec3 {
    match l {
        Loss::L2 => g.iter().sum::<Vec3>() / g.len() as f64,
        Loss::L1 => {
            let weights: f64 = g.iter().map(|v| 1.0 / (v.norm() + epsilon)).sum();
            g.iter().filter(|v| v.norm() > 0.0).map(|v| v.normalize()).sum::<Vec3>() / weights
        }
    }
}

/// Smallest gradients of the case: directions of gradients below rounding are arbitrary.
fn smallest(g: &[(Vec3, Vec3)], size: f64) -> f64 {
    g.iter().map(|(t, r)| (t.norm() / size).min(r.norm())).fold(f64::INFINITY, f64::min)
}

fn sv_step(c: &SvCase, obs: &mut Obs) -> Check {
    let (w, start, size) = (c.world(), c.begin(), c.size());
    let g = sv_gradients(&start, &w);
    let near = w.iter().map(|(p, _)| (start * Point3::from(*p)).coords.norm() / size).fold(f64::INFINITY, f64::min);
    if smallest(&g, size) < 1e-7 || near < 1e-3 {
        obs.label("skipped: no direction of a gradient");
        return Ok(());
    }
    obs.nontrivial();
    let (t, r): (Vec<_>, Vec<_>) = g.into_iter().unzip();
    for l in [Loss::L1, Loss::L2] {
        let dt = combine(l, &t, start.translation.vector.norm() * c.epsilon) * c.rate;
        let dr = combine(l, &r, c.epsilon) * c.rate;
        let want = step_iso(dt, dr, &start);
        let got = sv_run(l, &start, c, c.rate, 1, &w);
        let e = iso_dist(&got, &want, size);
        obs.max(if l == Loss::L1 { "l1 step" } else { "l2 step" }, e);
        chk!(e < 1e-8, "{} step: {} instead of {} (off by {})", if l == Loss::L1 { "L1" } else { "L2" }, got, want, e);
    }
    Ok(())
}

fn sv_invariance(c: &SvCase, obs: &mut Obs) -> Check {
    let (w, start, size) = (c.world(), c.begin(), c.size());
    let near = w.iter().map(|(p, _)| (start * Point3::from(*p)).coords.norm() / size).fold(f64::INFINITY, f64::min);
    if smallest(&sv_gradients(&start, &w), size) < 1e-6 || near < 1e-3 {
        obs.label("skipped: no direction of a gradient");
        return Ok(());
    }
    for l in [Loss::L1, Loss::L2] {
        let name = if l == Loss::L1 { "L1" } else { "L2" };
        let run = |s: &Iso3, w: &[(Vec3, Vec3)]| sv_run(l, s, c, c.rate, c.iterations, w);
        let base = run(&start, &w);
        chk!(finite(&base), "{}: {}", name, base);
        // A gradient that vanishes on the way has no direction for the L1 steps.
        let mut p = start;
        let mut ok = true;
        for _ in 0..c.iterations {
            p = sv_run(l, &p, c, c.rate, 1, &w);
            let near = w.iter().map(|(x, _)| (p * Point3::from(*x)).coords.norm() / size).fold(f64::INFINITY, f64::min);
            ok &= near > 1e-3 && smallest(&sv_gradients(&p, &w), size) > 1e-5;
        }
        if !ok {
            obs.label("skipped: close to a landmark on the way");
            continue;
        }
        obs.nontrivial();
        let mut perm = w.clone();
        perm.rotate_left(c.shift % w.len());
        perm.reverse();
        let e = iso_dist(&run(&start, &perm), &base, size);
        obs.max("order", e);
        chk!(e < 1e-7, "{}: the order of the landmarks changes the pose by {}", name, e);

        let mut twice = w.clone();
        twice.extend_from_slice(&w);
        let e = iso_dist(&run(&start, &twice), &base, size);
        obs.max("twice", e);
        chk!(e < 1e-7, "{}: giving all landmarks twice changes the pose by {}", name, e);

        // Another world frame. The L1 steps know the distance of the world origin.
        let q = if l == Loss::L1 { iso_of(c.world.r.mat(), Vec3::zeros()) } else { iso_of(c.world.r.mat(), v3(c.world.t) * c.scale) };
        let moved: Vec<_> = w.iter().map(|(p, b)| ((q * Point3::from(*p)).coords, *b)).collect();
        let e = iso_dist(&(run(&(start * q.inverse()), &moved) * q), &base, size + c.size());
        obs.max("world frame", e);
        chk!(e < 1e-7, "{}: another world frame changes the pose by {}", name, e);

        // Another camera frame.
        let r = iso_of(c.cam.mat(), Vec3::zeros());
        let turned: Vec<_> = w.iter().map(|(p, b)| (*p, r * *b)).collect();
        let e = iso_dist(&(r.inverse() * run(&(r * start), &turned)), &base, size);
        obs.max("camera frame", e);
        chk!(e < 1e-7, "{}: another camera frame changes the pose by {}", name, e);

        // Another unit of length.
        let scaled: Vec<_> = w.iter().map(|(p, b)| (p * c.factor, *b)).collect();
        let mut s = start;
        s.translation.vector *= c.factor;
        let mut got = run(&s, &scaled);
        got.translation.vector /= c.factor;
        let e = iso_dist(&got, &base, size);
        obs.max("scale", e);
        chk!(e < 1e-7, "{}: another unit of length changes the pose by {}", name, e);
    }
    Ok(())
}

fn sv_compose(c: &SvCase, obs: &mut Obs) -> Check {
    let (w, start, size) = (c.world(), c.begin(), c.size());
    for l in [Loss::L1, Loss::L2] {
        let name = if l == Loss::L1 { "L1" } else { "L2" };
        let all = sv_run(l, &start, c, c.rate, c.iterations, &w);
        let (mut pose, mut tiny) = (start, false);
        for _ in 0..c.iterations {
            tiny |= smallest(&sv_gradients(&pose, &w), size) < 1e-7;
            pose = sv_run(l, &pose, c, c.rate, 1, &w);
        }
        if all == pose {
            obs.nontrivial();
            continue;
        }
        if tiny {
            obs.label("skipped: no direction of a gradient on the way");
            continue;
        }
        obs.nontrivial();
        chk!(iso_dist(&all, &pose, size) < 1e-7, "{}: {} iterations at once lead to {}, one by one to {}", name, c.iterations, all, pose);
    }
    Ok(())
}

/// The stopping rule of the optimisers: after fifty looks in a row in which none of the lengths got
/// below its best so far. Tells whether to stop, or None where rounding decides.
struct Stop {
    best: Vec<f64>,
    stale: usize,
}

impl Stop {
    fn new(n: usize) -> Self {
        Stop { best: vec![f64::INFINITY; n], stale: 0 }
    }
    fn look(&mut self, lens: &[f64]) -> Option<bool> {
        self.stale += 1;
        for (b, l) in self.best.iter_mut().zip(lens) {
            if b.is_finite() && (*b - l).abs() < 1e-9 * *b {
                return None;
            }
            if *b > *l {
                *b = *l;
                self.stale = 0;
            }
        }
        Some(self.stale >= 50)
    }
}

fn sv_end_strat() -> BoxedStrategy<SvCase> {
    sv_gen(1..6, prop_oneof![2 => logu(-2.0, -0.3), 1 => noisy()].boxed(), prop_oneof![2 => logu(-0.3, 0.8), 1 => logu(-2.0, -0.3)].boxed(), (52usize..150).boxed())
}

fn sv_end(c: &SvCase, obs: &mut Obs) -> Check {
    let (w, start, size) = (c.world(), c.begin(), c.size());
    'loss: for l in [Loss::L1, Loss::L2] {
        let name = if l == Loss::L1 { "L1" } else { "L2" };
        let mut rule = Stop::new(2);
        let mut pose = start;
        for i in 0..c.iterations {
            let g = sv_gradients(&pose, &w);
            let small = smallest(&g, size);
            if !(small > 1e-7) || !finite(&pose) {
                obs.label("skipped: no direction of a gradient");
                continue 'loss;
            }
            let unit = |v: &Vec3| if l == Loss::L1 { v.normalize() } else { *v };
            let lens = [g.iter().map(|x| unit(&x.0)).sum::<Vec3>().norm(), g.iter().map(|x| unit(&x.1)).sum::<Vec3>().norm()];
            if l == Loss::L1 && w.len() == 1 || lens[0] < 1e-6 * size || lens[1] < 1e-6 {
                obs.label("skipped: the lengths are constant or vanish");
                continue 'loss;
            }
            match rule.look(&lens) {
                None => {
                    obs.label("skipped: rounding decides");
                    continue 'loss;
                }
                Some(true) => {
                    for n in [i + 1, c.iterations] {
                        let got = sv_run(l, &start, c, c.rate, n, &w);
                        chk!(got == pose, "{}: {} iterations go on after {} iterations, the last 50 of them without improvement", name, n, i);
                    }
                    obs.label(if i == 50 { "stopped after 50 iterations" } else { "stopped after more than 50 iterations" });
                    obs.nontrivial();
                    continue 'loss;
                }
                Some(false) => {}
            }
            let next = sv_run(l, &start, c, c.rate, i + 1, &w);
            chk!(next != pose, "{}: {} iterations stopped although there was an improvement {} iterations before", name, i + 1, rule.stale);
            pose = next;
        }
        obs.label("all iterations");
        obs.nontrivial();
    }
    Ok(())
}

fn sv_fixed(c: &SvCase, obs: &mut Obs) -> Check {
    let (w, truth, size) = (c.world(), c.truth(), c.size());
    obs.nontrivial();
    for l in [Loss::L1, Loss::L2] {
        let name = if l == Loss::L1 { "L1" } else { "L2" };
        let got = sv_run(l, &truth, c, c.rate, c.iterations, &w);
        let e = iso_dist(&got, &truth, size);
        // The L1 step of an exact landmark has a length up to epsilon.
        let tol = 1e-9 + if l == Loss::L1 { 20.0 * c.epsilon * c.rate * c.iterations as f64 } else { 0.0 };
        obs.max(if l == Loss::L1 { "l1 moves (by epsilon)" } else { "l2 moves" }, if l == Loss::L1 { e / tol } else { e });
        chk!(e < tol, "{}: the exact pose moves by {}", name, e);
        // Nothing to do.
        let start = c.begin();
        for (what, p) in [
            ("no landmarks", sv_run(l, &start, c, c.rate, c.iterations, &[])),
            ("no iterations", sv_run(l, &start, c, c.rate, 0, &w)),
        ] {
            chk!(p == start, "{}: {} change the pose from {} to {}", name, what, start, p);
        }
        let p = sv_run(l, &start, c, 0.0, c.iterations, &w);
        let e = iso_dist(&p, &start, size);
        chk!(e < 1e-12, "{}: a rate of zero changes the pose from {} to {}", name, start, p);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DescentCase {
    pose: Iso,
    start: Iso,
    pts: Vec<(V3, f64)>,
    rate: f64,
}

fn descent_strat() -> BoxedStrategy<DescentCase> {
    (
        iso(-1.0, 1.0),
        (udir(), 0.02..0.1f64, udir(), 0.02..0.3f64).prop_map(|(axis, angle, d, s)| Iso { r: Rot { axis, angle }, t: [d[0] * s, d[1] * s, d[2] * s] }),
        prop::collection::vec(((-0.8..0.8f64, -0.8..0.8f64).prop_map(|(x, y)| norm([x, y, 1.0])), 2.0..6.0f64), 20..60),
        0.002..0.01f64,
    )
        .prop_map(|(pose, start, pts, rate)| DescentCase { pose, start, pts, rate })
        .boxed()
}

fn sv_descent(c: &DescentCase, obs: &mut Obs) -> Check {
    let truth = c.pose.iso();
    let w: Vec<(Vec3, Vec3)> = c
        .pts
        .iter()
        .map(|(d, s)| (truth.rotation.matrix().transpose() * (v3(*d) * *s - truth.translation.vector), v3(*d)))
        .collect();
    let start = c.start.iso() * truth;
    let loss = |p: &Iso3| w.iter().map(|(x, b)| ang((p * Point3::from(*x)).coords, *b).powi(2)).sum::<f64>().sqrt();
    let before = loss(&start);
    obs.nontrivial();
    for (name, limit, p) in [
        ("L1", 0.95, single_view_simple_optimize_l1(WorldToCamera(start), 1e-6, c.rate, 100, &data(&w)).0),
        ("L2", 0.95, single_view_simple_optimize_l2(WorldToCamera(start), c.rate, 100, &data(&w)).0),
    ] {
        let after = loss(&p) / before;
        obs.max(name, after);
        obs.rate(if name == "L1" { "L1: misalignment not reduced" } else { "L2: misalignment not reduced" }, 2e-2, !(after < limit));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OddCase {
    pose: Iso,
    /// Kind of point, position, bearing.
    marks: Vec<(u8, V3, V3)>,
    rate: f64,
    epsilon: f64,
    iterations: usize,
}

fn odd_strat() -> BoxedStrategy<OddCase> {
    (
        iso(-2.0, 1.0),
        (0u8..8).prop_flat_map(|only| {
            let kind = if only < 4 { Just(only).boxed() } else { (0u8..4).boxed() };
            prop::collection::vec((kind, cube(), dir()), 1..6)
        }),
        prop_oneof![Just(1.0), logu(-4.0, 0.0)],
        logu(-12.0, -2.0),
        prop_oneof![4 => 1usize..8, 1 => 50usize..200],
    )
        .prop_map(|(pose, marks, rate, epsilon, iterations)| OddCase { pose, marks, rate, epsilon, iterations })
        .boxed()
}

/// Points at infinity, points on the camera, points seen exactly or exactly from behind.
fn sv_total(c: &OddCase, obs: &mut Obs) -> Check {
    let pose = c.pose.iso();
    let inv = pose.inverse();
    let lm: Vec<FeatureWorldMatch> = c
        .marks
        .iter()
        .map(|(k, p, b)| {
            let world = match k {
                0 => WorldPoint::from_homogeneous((v3(*p) + Vec3::new(0.0, 0.0, if v3(*p).norm() == 0.0 { 1.0 } else { 0.0 })).push(0.0)),
                1 => WorldPoint::from_point(inv * Point3::origin()),
                2 => WorldPoint::from_point(inv * Point3::from(v3(*b) * (p[0] * 3.0))),
                _ => WorldPoint::from_point(Point3::from(v3(*p))),
            };
            FeatureWorldMatch(Unit::new_normalize(v3(*b)), world)
        })
        .collect();
    obs.nontrivial();
    obs.label_if(c.marks.iter().all(|m| m.0 == 0), "all points at infinity");
    obs.label_if(c.marks.iter().all(|m| m.0 == 1), "all points on the camera");
    let w = WorldToCamera(pose);
    for (name, p) in [
        ("L1", single_view_simple_optimize_l1(w, c.epsilon, c.rate, c.iterations, &lm).0),
        ("L2", single_view_simple_optimize_l2(w, c.rate, c.iterations, &lm).0),
    ] {
        chk!(finite(&p), "{}: the pose is {}", name, p);
        let d = rot_defect(p.rotation.matrix());
        chk!(d < 1e-9, "{}: the rotation is off by {}", name, d);
        if c.marks.iter().all(|m| m.0 == 0) {
            let e = iso_dist(&p, &pose, 1.0 + v3(c.pose.t).norm());
            chk!(e < 1e-12, "{}: points at infinity only, and the pose moves from {} to {}", name, pose, p);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C28 three views

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TvCase {
    poses: [Iso; 2],
    start: [Iso; 2],
    marks: Vec<Mark>,
    noise: [V3; 2],
    rate: f64,
    epsilon: f64,
    iterations: usize,
    frames: [Rot; 3],
    factor: f64,
    shift: usize,
}

fn tv_gen(noise: BoxedStrategy<f64>, rate: BoxedStrategy<f64>, iterations: BoxedStrategy<usize>) -> BoxedStrategy<TvCase> {
    let pose = || (rot_upto(0.6), (dir(), 0.1..1.0f64).prop_map(|(d, s)| [d[0] * s, d[1] * s, d[2] * s])).prop_map(|(r, t)| Iso { r, t });
    let small = || (rot_upto(0.1), trans(-3.0, -1.0)).prop_map(|(r, t)| Iso { r, t });
    (
        ([pose(), pose()], [small(), small()], marks(1..8, noise), [udir(), udir()]),
        (rate, logu(-9.0, -3.0), iterations),
        ([rot(), rot(), rot()], logu(-1.5, 1.5), 0usize..8),
    )
        .prop_map(|((poses, start, marks, noise), (rate, epsilon, iterations), (frames, factor, shift))| TvCase {
            poses,
            start,
            marks,
            noise,
            rate,
            epsilon,
            iterations,
            frames,
            factor,
            shift,
        })
        .boxed()
}

fn tv_step_strat() -> BoxedStrategy<TvCase> {
    tv_gen(logu(-4.0, -1.0), prop_oneof![1 => Just(1.0), 3 => logu(-4.0, 0.3)].boxed(), Just(1usize).boxed())
}

fn tv_inv_strat() -> BoxedStrategy<TvCase> {
    tv_gen(logu(-4.0, -1.0), logu(-4.0, -1.0), (1usize..6).boxed())
}

fn tv_compose_strat() -> BoxedStrategy<TvCase> {
    tv_gen(logu(-4.0, -1.0), logu(-4.0, -1.0), prop_oneof![3 => 1usize..20, 1 => 20usize..50].boxed())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Tv {
    L1,
    L2,
    Adaptive,
}

const TVS: [Tv; 3] = [Tv::L1, Tv::L2, Tv::Adaptive];

impl TvCase {
    /// Starting poses (first camera to the others) and the observations.
    fn build(&self) -> ([Iso3; 2], Vec<[Vec3; 3]>) {
        let truth = [self.poses[0].iso(), self.poses[1].iso()];
        let start = [self.start[0].iso() * truth[0], self.start[1].iso() * truth[1]];
        let lm = self
            .marks
            .iter()
            .map(|m| {
                let p = v3(m.dir) * (1.0 + m.dist);
                let s = v3(m.noise).norm();
                [
                    (p.normalize() + v3(m.noise)).normalize(),
                    ((truth[0] * Point3::from(p)).coords.normalize() + v3(self.noise[0]) * s).normalize(),
                    ((truth[1] * Point3::from(p)).coords.normalize() + v3(self.noise[1]) * s).normalize(),
                ]
            })
            .collect();
        (start, lm)
    }
    fn run(&self, m: Tv, start: [Iso3; 2], rate: f64, iterations: usize, lm: &[[Vec3; 3]]) -> [Iso3; 2] {
        let poses = start.map(CameraToCamera);
        let lm: Vec<[Unit; 3]> = lm.iter().map(|o| o.map(Unit::new_normalize)).collect();
        match m {
            Tv::L1 => three_view_simple_optimize_l1(poses, self.epsilon, rate, iterations, &lm),
            Tv::L2 => three_view_simple_optimize_l2(poses, rate, iterations, &lm),
            Tv::Adaptive => three_view_adaptive_optimize_l2(poses, iterations, &lm),
        }
        .map(|p| p.0)
    }
}

fn tv_dist(a: &[Iso3; 2], b: &[Iso3; 2]) -> f64 {
    let size = 1.0 + b[0].translation.vector.norm().max(b[1].translation.vector.norm());
    iso_dist(&a[0], &b[0], size) + iso_dist(&a[1], &b[1], size)
}

/// Gradients of both poses for every landmark.
fn tv_gradients(poses: &[Iso3; 2], lm: &[[Vec3; 3]]) -> Vec<[Se3TangentSpace; 2]> {
    let back = poses.map(|p| p.inverse());
    lm.iter()
        .map(|o| {
            three_view_gradients(
                Unit::new_normalize(o[0]),
                Unit::new_normalize(back[0].rotation.matrix() * o[1]),
                back[0].translation.vector,
                Unit::new_normalize(back[1].rotation.matrix() * o[2]),
                back[1].translation.vector,
            )
        })
        .collect()
}

fn tv_step(c: &TvCase, obs: &mut Obs) -> Check {
    let (start, lm) = c.build();
    let g = tv_gradients(&start, &lm);
    let back = start.map(|p| p.inverse());
    let tscale = back[0].translation.vector.norm() + back[1].translation.vector.norm();
    for m in TVS {
        let mut want = start;
        let mut ok = true;
        for k in 0..2 {
            let t: Vec<Vec3> = g.iter().map(|g| g[k].translation).collect();
            let r: Vec<Vec3> = g.iter().map(|g| g[k].rotation).collect();
            let (dt, dr) = match m {
                Tv::L1 => {
                    ok &= t.iter().all(|v| v.norm() == 0.0 || v.norm() > 1e-7) && r.iter().all(|v| v.norm() > 1e-7);
                    (combine(Loss::L1, &t, tscale * c.epsilon) * c.rate, combine(Loss::L1, &r, c.epsilon) * c.rate)
                }
                Tv::L2 => (combine(Loss::L2, &t, 0.0) * c.rate, combine(Loss::L2, &r, 0.0) * c.rate),
                Tv::Adaptive => {
                    // The mean, by how much the gradients agree.
                    let agree = |v: &[Vec3]| {
                        let mean = combine(Loss::L2, v, 0.0);
                        let len = v.iter().map(|x| x.norm()).sum::<f64>() / v.len() as f64;
                        if len > 0.0 {
                            mean * (mean.norm() / len)
                        } else {
                            Vec3::zeros()
                        }
                    };
                    (agree(&t), agree(&r))
                }
            };
            want[k] = step_iso(dt, dr, &back[k]).inverse();
        }
        if !ok {
            obs.label("skipped: no direction of a gradient");
            continue;
        }
        obs.nontrivial();
        obs.label_if(g.iter().any(|g| g[0].translation.norm() > 0.0), "translation gradients");
        let got = c.run(m, start, c.rate, 1, &lm);
        let e = tv_dist(&got, &want);
        obs.max(["l1 step", "l2 step", "adaptive step"][m as usize], e);
        chk!(e < 1e-8, "{:?} step: {} and {} instead of {} and {} (off by {})", m, got[0], got[1], want[0], want[1], e);
    }
    Ok(())
}

fn tv_invariance(c: &TvCase, obs: &mut Obs) -> Check {
    let (start, lm) = c.build();
    for m in TVS {
        let run = |s: [Iso3; 2], lm: &[[Vec3; 3]]| c.run(m, s, c.rate, c.iterations, lm);
        let base = run(start, &lm);
        chk!(finite(&base[0]) && finite(&base[1]), "{:?}: {} and {}", m, base[0], base[1]);
        // Decisions on the cheirality of triangulated points must not be close on the way.
        let mut p = start;
        let mut ok = true;
        for _ in 0..c.iterations {
            ok &= steady(&p, &lm);
            p = c.run(m, p, c.rate, 1, &lm);
        }
        if !ok {
            obs.label("skipped: gradients are not steady");
            continue;
        }
        obs.nontrivial();
        let mut compare = |what: &'static str, got: [Iso3; 2]| -> Check {
            let e = tv_dist(&got, &base);
            obs.max(what, e);
            chk!(e < 1e-7, "{:?}: {} changes the poses by {}", m, what, e);
            Ok(())
        };
        let mut perm = lm.clone();
        perm.rotate_left(c.shift % lm.len());
        perm.reverse();
        compare("another order of the landmarks", run(start, &perm))?;

        let mut twice = lm.clone();
        twice.extend_from_slice(&lm);
        compare("giving the landmarks twice", run(start, &twice))?;

        let f = c.frames.map(|r| iso_of(r.mat(), Vec3::zeros()));
        let turned: Vec<_> = lm.iter().map(|o| [f[0] * o[0], f[1] * o[1], f[2] * o[2]]).collect();
        let got = run([f[1] * start[0] * f[0].inverse(), f[2] * start[1] * f[0].inverse()], &turned);
        compare("turning the camera frames", [f[1].inverse() * got[0] * f[0], f[2].inverse() * got[1] * f[0]])?;

        let scale = |p: [Iso3; 2], k: f64| {
            p.map(|mut p| {
                p.translation.vector *= k;
                p
            })
        };
        compare("another unit of length", scale(run(scale(start, c.factor), &lm), 1.0 / c.factor))?;
    }
    Ok(())
}

/// True if tiny changes of the poses change the gradients by little.
fn steady(p: &[Iso3; 2], lm: &[[Vec3; 3]]) -> bool {
    let g = tv_gradients(p, lm);
    let moved = [
        step_iso(Vec3::new(1e-7, -2e-7, 1.5e-7), Vec3::new(2e-7, 1e-7, -1e-7), &p[0]),
        step_iso(Vec3::new(-1.5e-7, 1e-7, 2e-7), Vec3::new(-1e-7, 1.5e-7, 1e-7), &p[1]),
    ];
    let h = tv_gradients(&moved, lm);
    let unit = |v: Vec3| if v.norm() > 0.0 { v.normalize() } else { v };
    g.iter().zip(&h).all(|(g, h)| {
        (0..2).all(|k| {
            let (a, b) = (g[k], h[k]);
            (a.translation - b.translation).norm() < 1e-5 * (1.0 + a.translation.norm())
                && (a.rotation - b.rotation).norm() < 1e-5
                && (unit(a.translation) - unit(b.translation)).norm() < 1e-4
                && (unit(a.rotation) - unit(b.rotation)).norm() < 1e-4
        })
    })
}

fn tv_compose(c: &TvCase, obs: &mut Obs) -> Check {
    let (start, lm) = c.build();
    for m in TVS {
        let all = c.run(m, start, c.rate, c.iterations, &lm);
        let mut p = start;
        let mut ok = true;
        for _ in 0..c.iterations {
            ok &= steady(&p, &lm);
            p = c.run(m, p, c.rate, 1, &lm);
        }
        if !ok {
            obs.label("skipped: gradients are not steady");
            continue;
        }
        obs.nontrivial();
        let e = tv_dist(&all, &p);
        obs.max("compose", e);
        chk!(e < 1e-6, "{:?}: {} iterations at once and one by one differ by {}", m, c.iterations, e);
    }
    Ok(())
}

fn tv_end_strat() -> BoxedStrategy<TvCase> {
    tv_gen(logu(-3.0, -0.5), prop_oneof![2 => logu(-0.3, 0.8), 1 => logu(-2.0, -0.3)].boxed(), (52usize..110).boxed())
}

fn tv_end(c: &TvCase, obs: &mut Obs) -> Check {
    let (start, lm) = c.build();
    'loss: for m in [Tv::L1, Tv::L2] {
        let mut rule = Stop::new(4);
        let mut pose = start;
        for i in 0..c.iterations {
            let g = tv_gradients(&pose, &lm);
            let mut lens = vec![];
            for k in 0..2 {
                let unit = |v: &Vec3| if m == Tv::L1 && v.norm() > 0.0 { v.normalize() } else { *v };
                let (t, r): (Vec<_>, Vec<_>) = g.iter().map(|g| (g[k].translation, g[k].rotation)).unzip();
                if m == Tv::L1 && t.iter().any(|v| v.norm() != 0.0 && v.norm() < 1e-7) || r.iter().any(|v| !(v.norm() > 1e-7)) {
                    obs.label("skipped: no direction of a gradient");
                    continue 'loss;
                }
                let moving = t.iter().filter(|v| v.norm() > 0.0).count();
                let (a, b) = (t.iter().map(unit).sum::<Vec3>().norm(), r.iter().map(unit).sum::<Vec3>().norm());
                // One landmark alone has a constant length in the L1 rule, and none at all never improves.
                if m == Tv::L1 && (moving == 1 || lm.len() == 1) || (moving > 0 && a < 1e-8) || b < 1e-8 {
                    obs.label("skipped: the lengths are constant or vanish");
                    continue 'loss;
                }
                lens.push(a);
                lens.push(b);
            }
            if !finite(&pose[0]) || !finite(&pose[1]) || !steady(&pose, &lm) {
                obs.label("skipped: gradients are not steady");
                continue 'loss;
            }
            match rule.look(&lens) {
                None => {
                    obs.label("skipped: rounding decides");
                    continue 'loss;
                }
                Some(true) => {
                    for n in [i + 1, c.iterations] {
                        let got = c.run(m, start, c.rate, n, &lm);
                        chk!(got == pose, "{:?}: {} iterations go on after {} iterations, the last 50 of them without improvement", m, n, i);
                    }
                    obs.label(if i == 50 { "stopped after 50 iterations" } else { "stopped after more than 50 iterations" });
                    obs.nontrivial();
                    continue 'loss;
                }
                Some(false) => {}
            }
            let next = c.run(m, start, c.rate, i + 1, &lm);
            chk!(next != pose, "{:?}: {} iterations stopped although there was an improvement {} iterations before", m, i + 1, rule.stale);
            pose = next;
        }
        obs.label("all iterations");
        obs.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OddTvCase {
    poses: [Iso; 2],
    obs: Vec<(u8, [V3; 3])>,
    rate: f64,
    epsilon: f64,
    iterations: usize,
}

fn odd_tv_strat() -> BoxedStrategy<OddTvCase> {
    (
        [iso(-2.0, 0.5), iso(-2.0, 0.5)],
        prop::collection::vec((0u8..4, [dir(), dir(), dir()]), 0..5),
        prop_oneof![Just(1.0), logu(-4.0, 0.0), Just(0.0)],
        logu(-12.0, -2.0),
        prop_oneof![8 => 0usize..8, 1 => 50usize..120],
    )
        .prop_map(|(poses, obs, rate, epsilon, iterations)| OddTvCase { poses, obs, rate, epsilon, iterations })
        .boxed()
}

/// Parallel bearings, bearings along the baseline, cameras at the same place: poses stay poses.
fn tv_total(c: &OddTvCase, obs: &mut Obs) -> Check {
    let start = [c.poses[0].iso(), c.poses[1].iso()];
    let lm: Vec<[Unit; 3]> = c
        .obs
        .iter()
        .map(|(k, o)| {
            let o = match k {
                // The same direction in the first frame.
                0 => [v3(o[0]), start[0].rotation * v3(o[0]), start[1].rotation * v3(o[0])],
                // Towards the other cameras.
                1 => {
                    let b = start[0].inverse().translation.vector;
                    let b = if b.norm() > 0.0 { b } else { v3(o[0]) };
                    [b, start[0].rotation * b, start[1].rotation * b]
                }
                _ => o.map(v3),
            };
            o.map(Unit::new_normalize)
        })
        .collect();
    obs.nontrivial();
    let poses = start.map(CameraToCamera);
    for (name, p) in [
        ("L1", three_view_simple_optimize_l1(poses, c.epsilon, c.rate, c.iterations, &lm)),
        ("L2", three_view_simple_optimize_l2(poses, c.rate, c.iterations, &lm)),
        ("adaptive", three_view_adaptive_optimize_l2(poses, c.iterations, &lm)),
    ] {
        for (p, s) in p.iter().zip(&start) {
            chk!(finite(&p.0), "{}: a pose is {}", name, p.0);
            let d = rot_defect(p.0.rotation.matrix());
            chk!(d < 1e-9, "{}: a rotation is off by {}", name, d);
            if lm.is_empty() || c.iterations == 0 || (c.rate == 0.0 && name != "adaptive") {
                let e = iso_dist(&p.0, s, 1.0 + s.translation.vector.norm());
                obs.label("nothing to do");
                chk!(e < 1e-12, "{}: nothing to do, and a pose changes by {}", name, e);
            }
        }
    }
    Ok(())
}

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "C27",
            assumptions: &[],
            laws: vec![
                law("step", "pose x noisy landmarks x rate; non-trivial: no gradient vanishes", 1_000_000, 5_000_000, sv_step_strat, sv_step),
                law("invariance", "non-trivial: no gradient vanishes on the way", 360_000, 2_000_000, sv_inv_strat, sv_invariance),
                law("composition", "non-trivial: no gradient vanishes on the way", 160_000, 500_000, sv_compose_strat, sv_compose),
                law("early_end", "non-trivial: the end is not decided by rounding", 20_000, 500_000, sv_end_strat, sv_end),
                law("fixed_point", "all are non-trivial", 400_000, 2_000_000, sv_fixed_strat, sv_fixed),
                law("descent", "all are non-trivial", 15_000, 100_000, descent_strat, sv_descent),
                law("odd_landmarks", "all are non-trivial", 300_000, 2_000_000, odd_strat, sv_total),
            ],
        },
        Property {
            id: "C28",
            assumptions: &[],
            laws: vec![
                law("step", "non-trivial: no gradient vanishes", 500_000, 3_000_000, tv_step_strat, tv_step),
                law("invariance", "non-trivial: gradients are steady on the way", 120_000, 500_000, tv_inv_strat, tv_invariance),
                law("composition", "non-trivial: gradients are steady on the way", 40_000, 300_000, tv_compose_strat, tv_compose),
                law("early_end", "non-trivial: the end is not decided by rounding", 40_000, 1_000_000, tv_end_strat, tv_end),
                law("odd_observations", "all are non-trivial", 200_000, 1_000_000, odd_tv_strat, tv_total),
            ],
        },
    ]
}
