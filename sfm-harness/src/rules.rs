//! Rules of single operations on reconstructions of generated scenes.
use crate::base::*;
use crate::fw::*;
use crate::sfm::*;
use cv_core::nalgebra::{IsometryMatrix3, Rotation3, UnitVector3, Vector3};
use cv_core::{Pose, Projective, TriangulatorObservations, WorldPoint, WorldToCamera};
use cv_sfm::*;
use proptest::prelude::{any, prop_oneof, BoxedStrategy, Just, Strategy};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};

// ---------------------------------------------------------------------------------------------
// C37: symmetric matches

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Match {
    seed: u64,
    na: usize,
    nb: usize,
    /// Number of different bits between the descriptors of both frames.
    far: usize,
    /// Bits in which the descriptors of one frame differ from each other.
    spread: usize,
    better_by: u32,
    swapped: bool,
}

fn match_strat() -> BoxedStrategy<Match> {
    let n = || prop_oneof![2 => 0usize..4, 8 => 2usize..24, 2 => 24usize..80, 1 => 80usize..200];
    (any::<u64>(), n(), n(), prop_oneof![0usize..6, 0usize..60], prop_oneof![1usize..8, 8usize..300], prop_oneof![1u32..4, Just(24u32), 1u32..200], any::<bool>())
        .prop_map(|(seed, na, nb, far, spread, better_by, swapped)| Match { seed, na, nb, far, spread, better_by, swapped })
        .boxed()
}

fn match_check(c: &Match, obs: &mut Obs) -> Check {
    isolated(c.seed, c, obs, |c, obs| {
        let mut r = Rng(c.seed);
        let base = r.bits();
        let vary = |n: usize, far: usize, from: &[Bits], r: &mut Rng| -> Vec<Bits> {
            let mut v: Vec<Bits> = (0..n)
                .map(|i| {
                    let mut b = if i < from.len() && r.chance(0.8) { from[i] } else {
                        let mut b = base;
                        let k = 1 + r.below(c.spread);
                        r.flip(&mut b, k);
                        b
                    };
                    let k = r.below(far + 1);
                    r.flip(&mut b, k);
                    b
                })
                .collect();
            r.shuffle(&mut v);
            v
        };
        let a = vary(c.na, 0, &[], &mut r);
        let b = vary(c.nb, c.far, &a, &mut r);
        let mut vs = vslam(VSlamSettings::default(), 0);
        let feed = vs.add_feed(intrinsics());
        let with = |v: &[Bits]| v.iter().map(|d| (*d, feature(Vector3::z_axis(), [0; 3]))).collect::<Vec<_>>();
        let fa = vs.data.cvcheck_add_features(feed, with(&a));
        let fb = vs.data.cvcheck_add_features(feed, with(&b));
        let (fa, fb) = (vs.data.frame(fa), vs.data.frame(fb));
        let got: BTreeSet<[usize; 2]> = if c.swapped {
            cvcheck::symmetric_matches(fb, fa, c.better_by).into_iter().map(|[b, a]| [a, b]).collect()
        } else {
            cvcheck::symmetric_matches(fa, fb, c.better_by).into_iter().collect()
        };
        // Both are nearest to each other by at least `better_by` bits.
        let dist = |x: &Bits, y: &Bits| -> u32 { x.bytes().iter().zip(y.bytes()).map(|(p, q)| (p ^ q).count_ones()).sum() };
        let clear = |i: usize, j: usize, of: &[Bits], to: &[Bits]| {
            let d = dist(&of[i], &to[j]);
            (0..to.len()).all(|k| k == j || d + c.better_by <= dist(&of[i], &to[k]))
        };
        let mut want = BTreeSet::new();
        if c.na >= 2 && c.nb >= 2 {
            for i in 0..c.na {
                for j in 0..c.nb {
                    if clear(i, j, &a, &b) && clear(j, i, &b, &a) {
                        want.insert([i, j]);
                    }
                }
            }
        }
        chk!(got == want, "matches {:?}, expected {:?}", got, want);
        obs.label_if(want.len() == c.na.min(c.nb), "all matched");
        if !want.is_empty() && want.len() < c.na.max(c.nb) {
            obs.nontrivial();
        }
        Ok(())
    })
}

// ---------------------------------------------------------------------------------------------
// A reconstruction with known geometry

/// Seed of a reconstruction: cameras that see the same points with noise and mixed-up features.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Site {
    pub hash: u64,
    pub seed: u64,
    pub views: usize,
    pub points: usize,
    pub noise: f64,
    /// Share of features that join the landmark of another point.
    pub wrong: f64,
    pub spread: f64,
}

pub fn site(points: BoxedStrategy<usize>) -> BoxedStrategy<Site> {
    (
        any::<u64>(),
        any::<u64>(),
        prop_oneof![15 => 2usize..7, 1 => 7usize..16],
        points,
        prop_oneof![1 => Just(0.0), 3 => (-6.0..-1.0f64).prop_map(|e| 10f64.powf(e))],
        prop_oneof![Just(0.0), Just(0.1), Just(0.4)],
        prop_oneof![Just(0.02), Just(0.3), Just(1.5)],
    )
        .prop_map(|(hash, seed, views, points, noise, wrong, spread)| Site { hash, seed, views, points, noise, wrong, spread })
        .boxed()
}

pub struct Built {
    pub vs: Vs,
    pub rec: ReconstructionKey,
    pub views: Vec<ViewKey>,
    pub frames: Vec<FrameKey>,
    pub rng: Rng,
    pub points: Vec<V3>,
}

impl Site {
    pub fn build(&self, settings: VSlamSettings) -> Built {
        let mut r = Rng(self.seed);
        let mut vs = vslam(settings, self.seed);
        let feed = vs.add_feed(intrinsics());
        let points: Vec<V3> = (0..self.points)
            .map(|_| if r.chance(0.05) { bearing_behind(&mut r) } else { V3::new(0.0, 0.0, 6.0) + r.cube() * 2.0 })
            .collect();
        let place = iso(r.cube() * 10.0, r.rot(3.0));
        let (mut frames, mut cams, mut sees) = (vec![], vec![], vec![]);
        for _ in 0..self.views.max(3) {
            let c = camera(&mut r, self.spread, 0.5);
            let mut ids: Vec<usize> = (0..self.points).filter(|_| r.chance(0.8)).collect();
            r.shuffle(&mut ids);
            let noise = self.noise;
            let features = ids
                .iter()
                .map(|&p| {
                    let b = uv(bearing_of(&c, points[p])).into_inner() + r.cube() * noise;
                    (r.bits(), feature(uv(b), [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8]))
                })
                .collect();
            frames.push(vs.data.cvcheck_add_features(feed, features));
            cams.push(c * place.inverse());
            sees.push(ids);
        }
        // The first view alone defines the reconstruction; others are added with their landmarks.
        let rel = |i: usize| cams[i] * cams[0].inverse();
        let rec = vs.data.add_reconstruction(frames[0], frames[1], frames[2], cam(rel(1)), cam(rel(2)), vec![], vec![], vec![]);
        let views: Vec<ViewKey> = frames[..3].iter().map(|f| vs.data.frame(*f).view.unwrap().1).collect();
        for v in &views[1..] {
            vs.data.cvcheck_remove_view(rec, *v);
        }
        vs.data.cvcheck_set_pose(rec, views[0], world(cams[0]));
        let mut views = vec![views[0]];
        for i in 1..self.views {
            let mut map: HashMap<usize, Vec<LandmarkKey>> = HashMap::new();
            let mut taken = BTreeSet::new();
            // Landmarks by the point that most of their features observe.
            let lms: Vec<LandmarkKey> = vs.data.reconstruction(rec).landmarks.keys().collect();
            let first = |l: LandmarkKey| {
                let o = &vs.data.landmark(rec, l).observations;
                let (k, f) = (0..views.len()).find_map(|k| o.get(&views[k]).map(|f| (k, *f))).unwrap();
                sees[k][f]
            };
            for (f, &p) in sees[i].iter().enumerate() {
                if r.chance(0.1) {
                    continue;
                }
                let l = if r.chance(self.wrong) { lms.get(r.below(lms.len())).copied() } else { lms.iter().copied().find(|l| first(*l) == p) };
                if let Some(l) = l {
                    if taken.insert(l) {
                        map.insert(f, vec![l]);
                    }
                }
            }
            views.push(vs.data.cvcheck_add_view(rec, frames[i], world(cams[i]), &map));
        }
        Built { vs, rec, views, frames, rng: r, points }
    }
}

fn bearing_behind(r: &mut Rng) -> V3 {
    V3::new(0.0, 0.0, -5.0) + r.cube() * 2.0
}

impl Built {
    pub fn rec(&self) -> &Reconstruction {
        self.vs.data.reconstruction(self.rec)
    }
    pub fn pose(&self, v: ViewKey) -> IsometryMatrix3<f64> {
        self.vs.data.pose(self.rec, v).isometry()
    }
    pub fn bearing(&self, v: ViewKey, f: usize) -> V3 {
        self.vs.data.frame(self.rec().views[v].frame).feature(f).bearing.into_inner()
    }
    /// The observations of a landmark in the order in which the library walks them.
    pub fn observations(&self, l: LandmarkKey) -> Vec<(ViewKey, usize)> {
        self.rec().landmarks[l].observations.iter().map(|(v, f)| (*v, *f)).collect()
    }
    pub fn triangulated(&self, o: &[(ViewKey, usize)]) -> Option<WorldPoint> {
        let v: Vec<(WorldToCamera, UnitVector3<f64>)> =
            o.iter().map(|&(v, f)| (world(self.pose(v)), UnitVector3::new_unchecked(self.bearing(v, f)))).collect();
        self.vs.triangulator.triangulate_observations(v.into_iter())
    }
    /// Cosine distance of an observation from a world point, which may be at infinity.
    pub fn off(&self, p: &WorldPoint, v: ViewKey, f: usize) -> f64 {
        let h = p.homogeneous();
        let pose = self.pose(v);
        let c = pose.rotation * h.xyz() + pose.translation.vector * h.w;
        cosine_distance(&c, &self.bearing(v, f))
    }
    /// Sine distance of two observations from their epipolar plane.
    pub fn apart(&self, a: (ViewKey, usize), b: (ViewKey, usize)) -> f64 {
        let (pa, pb) = (self.pose(a.0).inverse(), self.pose(b.0).inverse());
        let base = pb.translation.vector - pa.translation.vector;
        epipolar_sine(base, pa.rotation * self.bearing(a.0, a.1), pb.rotation * self.bearing(b.0, b.1))
    }
    /// All bearings of the observations in the world frame.
    pub fn rays(&self, o: &[(ViewKey, usize)]) -> Vec<V3> {
        o.iter().map(|&(v, f)| self.pose(v).rotation.inverse() * self.bearing(v, f)).collect()
    }
}

/// Sine of the smallest angle by which the bearings of two cameras, given in one frame, must be
/// turned so that they can meet: the larger of the two distances from the best epipolar plane.
fn epipolar_sine(base: V3, a: V3, b: V3) -> f64 {
    cv_geom::epipolar::loss(-base, uv(a), uv(b))
}

// ---------------------------------------------------------------------------------------------
// C38: robust landmarks and filters

/// Whether `x` is so close to a threshold that rounding may decide.
fn near(x: f64, threshold: f64) -> bool {
    !((x - threshold).abs() > 1e-6 * threshold + 1e-12)
}

/// Decides a comparison with a threshold unless it is too close.
fn below(x: f64, threshold: f64) -> Option<bool> {
    (!near(x, threshold)).then_some(x < threshold)
}

impl Built {
    /// Whether two bearings differ by enough; `None` if rounding may decide.
    fn wide(&self, o: &[(ViewKey, usize)]) -> Option<bool> {
        let t = self.vs.settings.robust_observation_incidence_minimum_cosine_distance;
        let rays = self.rays(o);
        let mut unsure = false;
        for i in 0..rays.len() {
            for j in 0..i {
                match below(cosine_distance(&rays[i], &rays[j]), t) {
                    Some(false) => return Some(true),
                    Some(true) => {}
                    None => unsure = true,
                }
            }
        }
        (!unsure).then_some(false)
    }
    fn robust(&self, o: &[(ViewKey, usize)]) -> Option<bool> {
        let need = self.vs.settings.robust_minimum_observations.min(self.rec().views.len());
        if o.len() < need {
            return Some(false);
        }
        self.wide(o)
    }
    /// Whether two observations are apart by less than the maximum.
    fn epipolar(&self, a: (ViewKey, usize), b: (ViewKey, usize)) -> Option<bool> {
        let t = self.vs.settings.maximum_sine_distance;
        let rel = self.pose(b.0) * self.pose(a.0).inverse();
        let back = rel.inverse();
        let (ba, bb) = (self.bearing(a.0, a.1), self.bearing(b.0, b.1));
        let x = below(epipolar_sine(-rel.translation.vector, rel.rotation * ba, bb), t)?;
        let y = below(epipolar_sine(-back.translation.vector, back.rotation * bb, ba), t)?;
        let z = below(self.apart(a, b), t)?;
        (x == y && y == z).then_some(x)
    }
    fn class_vec(c: &Class) -> Vec<(ViewKey, usize)> {
        c.iter().copied().collect()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Filter {
    site: Site,
    cosine: f64,
    sine: f64,
    incidence: f64,
    minimum: usize,
    keep: usize,
    pick: u64,
}

fn filter_strat() -> BoxedStrategy<Filter> {
    let e = |a: f64, b: f64| (a..b).prop_map(|e| 10f64.powf(e));
    (site(prop_oneof![15 => 1usize..20, 1 => 20usize..60].boxed()), e(-9.0, -0.5), e(-5.0, -0.2), e(-6.0, -0.5), 1usize..5, prop_oneof![Just(0usize), 1usize..16], any::<u64>())
        .prop_map(|(site, cosine, sine, incidence, minimum, keep, pick)| Filter { site, cosine, sine, incidence, minimum, keep, pick })
        .boxed()
}

impl Filter {
    fn build(&self) -> Built {
        let mut s = VSlamSettings::default();
        s.maximum_cosine_distance = self.cosine;
        s.maximum_sine_distance = self.sine;
        s.robust_observation_incidence_minimum_cosine_distance = self.incidence;
        s.robust_minimum_observations = self.minimum;
        s.minimum_robust_landmarks = self.keep;
        self.site.build(s)
    }
}

fn observations_check(c: &Filter, obs: &mut Obs) -> Check {
    isolated(c.site.hash, c, obs, observations_run)
}
fn observations_run(c: &Filter, obs: &mut Obs) -> Check {
    let mut b = c.build();
    let before = snapshot(&b.vs)?.recs[&b.rec].clone();
    let mut want: BTreeSet<Class> = BTreeSet::new();
    let (mut kicked, mut parted, mut stay) = (0, 0, 0);
    for l in before.classes.keys() {
        let o = b.observations(*l);
        let all: Class = o.iter().copied().collect();
        match &o[..] {
            [_] => {
                want.insert(all);
            }
            [x, y] => {
                let Some(fits) = b.epipolar(*x, *y) else { return Ok(()) };
                if fits {
                    stay += 1;
                    want.insert(all);
                } else {
                    parted += 1;
                    want.extend(singles(&all));
                }
            }
            _ => match b.triangulated(&o) {
                Some(p) => {
                    let mut kept = Class::new();
                    for &(v, f) in &o {
                        let Some(fits) = below(b.off(&p, v, f), c.cosine) else { return Ok(()) };
                        if fits {
                            kept.insert((v, f));
                        } else {
                            want.insert([(v, f)].into_iter().collect());
                        }
                    }
                    kicked += (kept.len() < all.len()) as usize;
                    if !kept.is_empty() {
                        stay += (kept.len() == all.len()) as usize;
                        want.insert(kept);
                    }
                }
                None => {
                    parted += 1;
                    want.extend(singles(&all));
                }
            },
        }
    }
    let mut robust = 0;
    for class in &want {
        match b.robust(&Built::class_vec(class)) {
            Some(r) => robust += r as usize,
            None => return Ok(()),
        }
    }
    let rec = b.rec;
    let did = b.vs.filter_non_robust_observations(rec);
    let after = snapshot(&b.vs)?;
    if robust < c.keep {
        chk!(did.is_none() && !after.recs.contains_key(&rec), "{} robust landmarks are left of {} needed, but the reconstruction was kept", robust, c.keep);
        obs.label("given up");
        return Ok(());
    }
    chk!(did == Some(rec) && after.recs.contains_key(&rec), "{} robust landmarks are left of {} needed, but the reconstruction was given up", robust, c.keep);
    let got = &after.recs[&rec];
    chk!(got.partition() == want, "filtering left landmarks {:?}, expected {:?}", got.partition(), want);
    chk!(got.views == before.views && got.constraints == before.constraints, "filtering changed views");
    if kicked + parted > 0 && stay > 0 {
        obs.nontrivial();
    }
    obs.label_if(kicked > 0, "observation split off");
    obs.label_if(parted > 0, "landmark split");
    Ok(())
}

fn landmarks_check(c: &Filter, obs: &mut Obs) -> Check {
    isolated(c.site.hash, c, obs, landmarks_run)
}
fn landmarks_run(c: &Filter, obs: &mut Obs) -> Check {
    let mut b = c.build();
    let before = snapshot(&b.vs)?.recs[&b.rec].clone();
    let mut want: BTreeSet<Class> = BTreeSet::new();
    let (mut split, mut stay) = (0, 0);
    for (l, class) in &before.classes {
        let Some(robust) = b.robust(&Built::class_vec(class)) else { return Ok(()) };
        if robust && b.triangulated(&b.observations(*l)).is_some() {
            stay += (class.len() > 1) as usize;
            want.insert(class.clone());
        } else {
            split += (class.len() > 1) as usize;
            want.extend(singles(class));
        }
    }
    let rec = b.rec;
    b.vs.filter_non_robust_landmarks(rec);
    let got = snapshot(&b.vs)?.recs[&rec].clone();
    chk!(got.partition() == want, "filtering left landmarks {:?}, expected {:?}", got.partition(), want);
    chk!(got.views == before.views && got.constraints == before.constraints, "filtering changed views");
    if split > 0 && stay > 0 {
        obs.nontrivial();
    }
    Ok(())
}

/// The same point, or none in both.
fn same_point(a: Option<WorldPoint>, b: Option<WorldPoint>, what: &str) -> Check {
    match (a, b) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) => {
            let (a, b) = (a.homogeneous().normalize(), b.homogeneous().normalize());
            let d = (a - b).amax().min((a + b).amax());
            chk!(d < 1e-5, "{}: triangulated {:?}, expected {:?}", what, a, b);
            Ok(())
        }
        (a, b) => Err(format!("{}: triangulated {:?}, expected {:?}", what, a, b)),
    }
}

fn queries_check(c: &Filter, obs: &mut Obs) -> Check {
    isolated(c.site.hash, c, obs, queries_run)
}
fn queries_run(c: &Filter, obs: &mut Obs) -> Check {
    let b = c.build();
    snapshot(&b.vs)?;
    let mut r = Rng(c.pick);
    let lms: Vec<LandmarkKey> = b.rec().landmarks.keys().collect();
    let (mut yes, mut no) = (0, 0);
    for &l in &lms {
        let o = b.observations(l);
        let point = if o.len() >= 2 { b.triangulated(&o) } else { None };
        same_point(b.vs.triangulate_landmark(b.rec, l), point, "triangulate_landmark")?;
        if let Some(robust) = b.robust(&o) {
            let got = b.vs.is_landmark_robust(b.rec, l);
            chk!(got == robust, "a landmark with observations {:?} is {}robust, expected {}", o, if got { "" } else { "not " }, robust);
            let got = b.vs.are_observations_robust(b.rec, &o);
            chk!(got == robust, "observations {:?} are {}robust, expected {}", o, if got { "" } else { "not " }, robust);
            let want = if robust { b.triangulated(&o) } else { None };
            same_point(b.vs.triangulate_landmark_robust(b.rec, l), want, "triangulate_landmark_robust")?;
            if o.len() > 1 {
                if robust { yes += 1 } else { no += 1 }
            }
        }
        // Without one view.
        let v = b.views[r.below(b.views.len())];
        let rest: Vec<_> = o.iter().copied().filter(|x| x.0 != v).collect();
        if let Some(wide) = b.wide(&rest) {
            let got = b.vs.is_landmark_robust_without_view(b.rec, l, v);
            chk!(got == wide, "without a view, a landmark with {:?} is {}robust, expected {}", rest, if got { "" } else { "not " }, wide);
            let want = if wide { b.triangulated(&rest) } else { None };
            same_point(b.vs.triangulate_landmark_robust_without_view(b.rec, l, v), want, "triangulate_landmark_robust_without_view")?;
        }
        // Together with another landmark that shares no view.
        let m = lms[r.below(lms.len())];
        let p = b.observations(m);
        if m != l && p.iter().all(|x| o.iter().all(|y| x.0 != y.0)) {
            let both: Vec<_> = o.iter().chain(&p).copied().collect();
            if let Some(robust) = b.robust(&both) {
                let got = b.vs.is_merged_landmark_robust(b.rec, [l, m]);
                chk!(got == robust, "merged landmarks {:?} and {:?} are {}robust, expected {}", o, p, if got { "" } else { "not " }, robust);
                let want = if robust { b.triangulated(&both) } else { None };
                same_point(b.vs.triangulate_merged_landmark_robust(b.rec, [l, m]), want, "triangulate_merged_landmark_robust")?;
                obs.label_if(robust, "merged robust");
            }
        }
    }
    if yes > 0 && no > 0 {
        obs.nontrivial();
    }
    Ok(())
}

fn dedup_check(c: &Filter, obs: &mut Obs) -> Check {
    isolated(c.site.hash, c, obs, dedup_run)
}
fn dedup_run(c: &Filter, obs: &mut Obs) -> Check {
    let mut b = c.build();
    let before = snapshot(&b.vs)?.recs[&b.rec].clone();
    let mut r = Rng(c.pick);
    let mut lms: Vec<LandmarkKey> = before.classes.keys().copied().collect();
    if lms.len() < 2 {
        return Ok(());
    }
    // Prefer landmarks with several observations.
    lms.sort_by_key(|l| std::cmp::Reverse(before.classes[l].len()));
    let top = lms.len().min(6);
    let i = r.below(top);
    let j = (i + 1 + r.below(top - 1)) % top;
    let (mut la, mut lb) = (lms[i], lms[j]);
    if r.chance(0.8) {
        // Prefer two that share one view.
        let shared = |a: &Class, b: &Class| a.iter().filter(|o| b.iter().any(|p| p.0 == o.0)).count();
        let several: Vec<LandmarkKey> = lms.iter().copied().filter(|l| before.classes[l].len() > 1).collect();
        let pairs: Vec<_> = several
            .iter()
            .flat_map(|a| several.iter().map(move |b| (*a, *b)))
            .filter(|(a, b)| a != b && shared(&before.classes[a], &before.classes[b]) == 1)
            .collect();
        if let Some(p) = pairs.get(r.below(pairs.len())) {
            (la, lb) = *p;
        }
    }
    let (ca, cb) = (before.classes[&la].clone(), before.classes[&lb].clone());
    let find = |c: &Class, v: ViewKey| c.iter().find(|o| o.0 == v).map(|o| o.1);
    let both: Vec<(ViewKey, usize, usize)> = ca.iter().filter_map(|&(v, f)| Some((v, f, find(&cb, v)?))).collect();
    // How badly an observation fits to its landmark.
    let loss = |l: LandmarkKey, v: ViewKey, f: usize| -> f64 {
        let o = b.observations(l);
        match o[..] {
            [_] => 2.0,
            [x, y] => 1.0 - b.apart(x, y).asin().cos(),
            _ => b.triangulated(&o).map_or(2.0, |p| b.off(&p, v, f)),
        }
    };
    let expected = match both[..] {
        [] => Some(Some(vec![])),
        [(v, fa, fb)] => {
            let (a, d) = (loss(la, v, fa), loss(lb, v, fb));
            if a == 2.0 && d == 2.0 && ca.len() == 1 && cb.len() == 1 {
                Some(None)
            } else if !((a - d).abs() > 1e-6 * d.abs() + 1e-12) {
                None
            } else if a > d {
                Some((ca.len() > 1).then(|| vec![(v, fa)]))
            } else {
                Some((cb.len() > 1).then(|| vec![(v, fb)]))
            }
        }
        _ => None,
    };
    let rec = b.rec;
    let did = b.vs.merge_landmarks_dedup(rec, la, lb);
    let got = snapshot(&b.vs)?.recs[&rec].clone();
    chk!(got.views == before.views && got.constraints == before.constraints, "merging changed views");
    for (l, class) in before.classes.iter().filter(|(l, _)| **l != la && **l != lb) {
        chk!(got.classes.get(l) == Some(class), "merging changed another landmark");
    }
    let mut union = ca.clone();
    union.extend(cb.iter().copied());
    match did {
        Some(l) => {
            chk!(l == la || l == lb, "the merged landmark is {:?}", l);
            let is = got.classes.get(&l).ok_or("the merged landmark does not exist")?;
            let gone: Class = union.difference(is).copied().collect();
            chk!(is.is_subset(&union) && gone.len() == both.len(), "merging {:?} and {:?} gave {:?}", ca, cb, is);
            for &(v, fa, fb) in &both {
                chk!(is.contains(&(v, fa)) != is.contains(&(v, fb)), "merging {:?} and {:?} kept not one of view {:?}: {:?}", ca, cb, v, is);
            }
            for o in gone {
                chk!(got.classes.values().any(|c| c.len() == 1 && c.contains(&o)), "merging lost observation {:?}", o);
            }
        }
        None => {
            chk!(!both.is_empty(), "landmarks that share no view were not merged");
            for o in &union {
                let is = got.classes.values().find(|c| c.contains(o)).ok_or("merging lost an observation")?;
                chk!(is.is_subset(&ca) || is.is_subset(&cb), "landmarks were merged although nothing was returned");
            }
        }
    }
    if let Some(expected) = expected {
        match (&expected, did) {
            (Some(gone), Some(l)) => {
                let is = &got.classes[&l];
                for o in gone {
                    chk!(!is.contains(o), "merging {:?} and {:?} kept the worse observation {:?}", ca, cb, o);
                }
                if both.len() == 1 && ca.len() > 1 && cb.len() > 1 {
                    obs.nontrivial();
                }
            }
            (None, None) => obs.label("not merged"),
            _ => return Err(format!("merging {:?} and {:?} returned {:?}, expected to split {:?}", ca, cb, did, expected)),
        }
    }
    obs.label_if(both.is_empty(), "no shared view");
    obs.label_if(both.len() > 1, "several shared views");
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C39: the graph of constraints

type Constraint = ([ViewKey; 3], [IsometryMatrix3<f64>; 2]);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Graph {
    hash: u64,
    seed: u64,
    views: usize,
    /// Constraints beyond those that reach all views.
    more: usize,
    /// Share of views that no constraint reaches.
    free: f64,
    noise: f64,
    turn: f64,
    iterations: usize,
    rate: f64,
    scale: f64,
}

fn graph_strat() -> BoxedStrategy<Graph> {
    (
        any::<u64>(),
        any::<u64>(),
        prop_oneof![15 => 3usize..9, 1 => 9usize..20],
        prop_oneof![15 => 0usize..8, 1 => 8usize..40],
        prop_oneof![2 => Just(0.0), 1 => Just(0.3)],
        prop_oneof![1 => Just(0.0), 4 => (-6.0..0.0f64).prop_map(|e| 10f64.powf(e))],
        prop_oneof![Just(0.2), Just(1.0), Just(3.0)],
        1usize..5,
        (-3.0..-0.5f64).prop_map(|e| 10f64.powf(e)),
        (-3.0..3.0f64).prop_map(|e| 10f64.powf(e)),
    )
        .prop_map(|(hash, seed, views, more, free, noise, turn, iterations, rate, scale)| Graph { hash, seed, views, more, free, noise, turn, iterations, rate, scale })
        .boxed()
}

struct Posed {
    vs: Vs,
    rec: ReconstructionKey,
    views: Vec<ViewKey>,
    poses: Vec<IsometryMatrix3<f64>>,
    constraints: Vec<Constraint>,
}

impl Graph {
    /// Views without features in poses that fit to the constraints up to the noise.
    fn build(&self, change: impl Fn(&IsometryMatrix3<f64>) -> IsometryMatrix3<f64>, scaled: f64) -> Posed {
        let mut r = Rng(self.seed);
        let mut s = VSlamSettings::default();
        s.optimization_iterations = self.iterations;
        s.graph_optimization_rate = self.rate;
        let mut vs = vslam(s, 0);
        let feed = vs.add_feed(intrinsics());
        let frames: Vec<FrameKey> = (0..self.views).map(|_| vs.data.cvcheck_add_features(feed, vec![])).collect();
        let one = cam(IsometryMatrix3::identity());
        let rec = vs.data.add_reconstruction(frames[0], frames[1], frames[2], one, one, vec![], vec![], vec![]);
        let mut views: Vec<ViewKey> = frames[..3].iter().map(|f| vs.data.frame(*f).view.unwrap().1).collect();
        for f in &frames[3..] {
            views.push(vs.data.cvcheck_add_view(rec, *f, world(IsometryMatrix3::identity()), &HashMap::new()));
        }
        let truth: Vec<IsometryMatrix3<f64>> = (0..self.views).map(|_| iso(r.cube() * self.scale, r.rot(self.turn))).collect();
        let mut poses = vec![];
        for t in &truth {
            let n = iso(r.cube() * self.scale * self.noise, r.rot(self.noise));
            poses.push(n * t);
        }
        let mut reached: Vec<usize> = (0..self.views).filter(|_| !r.chance(self.free)).collect();
        r.shuffle(&mut reached);
        let mut triples: Vec<[usize; 3]> = vec![];
        if reached.len() >= 3 {
            for i in 2..reached.len() {
                let a = r.below(i);
                let b = (a + 1 + r.below(i - 1)) % i;
                triples.push([reached[a], reached[b], reached[i]]);
            }
            for _ in 0..self.more {
                r.shuffle(&mut reached);
                triples.push([reached[0], reached[1], reached[2]]);
            }
        }
        let mut constraints: Vec<Constraint> = vec![];
        for mut t in triples {
            t.sort_by_key(|i| views[*i]);
            let rel = |i: usize, r: &mut Rng| {
                let mut c = truth[t[i]] * truth[t[0]].inverse();
                if r.chance(0.3) {
                    c = iso(r.cube() * self.scale * self.noise, r.rot(self.noise)) * c;
                }
                c.translation.vector *= scaled;
                c
            };
            let p = [rel(1, &mut r), rel(2, &mut r)];
            constraints.push(([views[t[0]], views[t[1]], views[t[2]]], p));
        }
        for (v, p) in views.iter().zip(poses.iter_mut()) {
            p.translation.vector *= scaled;
            *p = change(p);
            vs.data.cvcheck_set_pose(rec, *v, world(*p));
        }
        vs.data.cvcheck_set_constraints(rec, &constraints);
        Posed { vs, rec, views, poses, constraints }
    }
}

/// Translation and axis times angle of a rotation.
fn log(i: &IsometryMatrix3<f64>) -> (V3, V3) {
    let m = i.rotation.matrix();
    let twice = Vector3::new(m[(2, 1)] - m[(1, 2)], m[(0, 2)] - m[(2, 0)], m[(1, 0)] - m[(0, 1)]);
    let (sin, cos) = (twice.norm() / 2.0, (m.trace() - 1.0) / 2.0);
    let angle = sin.atan2(cos);
    let r = if sin < 1e-12 { twice / 2.0 } else { twice / 2.0 / sin * angle };
    (i.translation.vector, r)
}

/// The relative poses from other views that the constraints demand of each view.
fn edges(constraints: &[Constraint]) -> BTreeMap<ViewKey, Vec<(ViewKey, IsometryMatrix3<f64>)>> {
    let mut e: BTreeMap<ViewKey, Vec<_>> = BTreeMap::new();
    for (v, [p, q]) in constraints {
        let to = [IsometryMatrix3::identity(), *p, *q];
        for i in 0..3 {
            for j in 0..3 {
                if i != j {
                    e.entry(v[i]).or_default().push((v[j], to[i] * to[j].inverse()));
                }
            }
        }
    }
    e
}

fn apply_check(c: &Graph, obs: &mut Obs) -> Check {
    isolated(c.hash, c, obs, apply_run)
}
fn apply_run(c: &Graph, obs: &mut Obs) -> Check {
    let mut b = c.build(|p| *p, 1.0);
    let e = edges(&b.constraints);
    let mut poses: BTreeMap<ViewKey, IsometryMatrix3<f64>> = b.views.iter().copied().zip(b.poses.iter().copied()).collect();
    let gone: BTreeSet<ViewKey> = b.views.iter().copied().filter(|v| !e.contains_key(v)).collect();
    for _ in 0..c.iterations {
        let mut next = BTreeMap::new();
        for (v, es) in &e {
            let (mut t, mut w) = (V3::zeros(), V3::zeros());
            for (o, rel) in es {
                let (dt, dw) = log(&(rel * poses[o] * poses[v].inverse()));
                if dw.norm() > 3.1 {
                    return Ok(());
                }
                t += dt;
                w += dw;
            }
            next.insert(*v, iso(t * c.rate, Rotation3::new(w * c.rate)) * poses[v]);
        }
        poses = next;
    }
    let did = b.vs.apply_constraints(b.rec);
    let after = snapshot(&b.vs)?;
    if e.len() < 3 {
        chk!(did.is_none() && !after.recs.contains_key(&b.rec), "a reconstruction of {} views with constraints was kept", e.len());
        obs.label("given up");
        return Ok(());
    }
    chk!(did == Some(b.rec), "a reconstruction of {} views with constraints was given up", e.len());
    let got = &after.recs[&b.rec];
    chk!(got.views.keys().all(|v| !gone.contains(v)) && got.views.len() == e.len(), "views {:?} are left of {:?} with constraints", got.views.keys(), e.keys());
    let size = poses.values().map(|p| p.translation.vector.norm()).fold(c.scale, f64::max);
    for (v, p) in &poses {
        let (x, y) = (got.views[v].1, numbers(p));
        for k in 0..12 {
            let (d, lim) = ((x[k] - y[k]).abs(), if k < 9 { 1e-8 } else { 1e-8 * size });
            obs.max("difference of poses", if k < 9 { d } else { d / size });
            chk!(d < lim, "view {:?} is at {:?}, expected {:?}", v, x, y);
        }
    }
    // What fits stays where it is.
    if c.noise == 0.0 {
        for (v, p) in b.views.iter().zip(&b.poses).filter(|(v, _)| !gone.contains(v)) {
            for (k, (x, y)) in got.views[v].1.iter().zip(numbers(p)).enumerate() {
                chk!((x - y).abs() < if k < 9 { 1e-9 } else { 1e-9 * size }, "constraints that fit moved a view");
            }
        }
        obs.label("fits");
    }
    if c.noise > 0.0 && c.views > 3 {
        obs.nontrivial();
    }
    obs.label_if(!gone.is_empty(), "views removed");
    Ok(())
}

fn frame_check(c: &Graph, obs: &mut Obs) -> Check {
    isolated(c.hash, c, obs, frame_run)
}
/// Moving or scaling the world moves or scales the result.
fn frame_run(c: &Graph, obs: &mut Obs) -> Check {
    let mut r = Rng(c.seed ^ 1);
    let w = iso(r.cube() * c.scale, r.rot(3.0));
    let k = 10f64.powf(r.range(-2.0, 2.0));
    let mut a = c.build(|p| *p, 1.0);
    let mut b = c.build(|p| p * w, k);
    let (x, y) = (a.vs.apply_constraints(a.rec), b.vs.apply_constraints(b.rec));
    chk!(x.is_some() == y.is_some(), "a reconstruction was given up in one world and not in the other");
    if x.is_none() {
        return Ok(());
    }
    let e = edges(&a.constraints);
    let poses: BTreeMap<ViewKey, IsometryMatrix3<f64>> = a.views.iter().copied().zip(a.poses.iter().copied()).collect();
    if e.iter().any(|(v, es)| es.iter().any(|(o, rel)| log(&(rel * poses[o] * poses[v].inverse())).1.norm() > 3.0)) {
        return Ok(());
    }
    let size = c.scale * k * (1.0 + k.recip()) * 10.0;
    for (v, u) in a.views.iter().zip(&b.views) {
        if !a.vs.data.reconstruction(a.rec).views.contains_key(*v) {
            continue;
        }
        let mut p = a.vs.data.pose(a.rec, *v).isometry();
        p.translation.vector *= k;
        let (p, q) = (numbers(&(p * w)), numbers(&b.vs.data.pose(b.rec, *u).isometry()));
        for i in 0..12 {
            chk!((p[i] - q[i]).abs() < if i < 9 { 1e-7 } else { 1e-7 * size }, "view {:?} is at {:?} in another world, expected {:?}", v, q, p);
        }
    }
    if c.noise > 0.0 {
        obs.nontrivial();
    }
    Ok(())
}

fn converge_strat() -> BoxedStrategy<Graph> {
    (any::<u64>(), any::<u64>(), 3usize..7, 0usize..8, -4.0..-0.8f64, prop_oneof![Just(0.2), Just(1.0), Just(3.0)], -3.0..3.0f64)
        .prop_map(|(hash, seed, views, more, noise, turn, scale)| Graph {
            hash, seed, views, more, free: 0.0, noise: 10f64.powf(noise), turn, iterations: 300, rate: 0.02, scale: 10f64.powf(scale),
        })
        .boxed()
}
fn converge_check(c: &Graph, obs: &mut Obs) -> Check {
    isolated(c.hash, c, obs, converge_run)
}
/// Poses near ones that fit to all constraints get nearer to fitting.
fn converge_run(c: &Graph, obs: &mut Obs) -> Check {
    let mut b = c.build(|p| *p, 1.0);
    // Make the constraints agree with one another.
    let truth: BTreeMap<ViewKey, IsometryMatrix3<f64>> = {
        let mut r = Rng(c.seed);
        b.views.iter().map(|v| (*v, iso(r.cube() * c.scale, r.rot(c.turn)))).collect()
    };
    for (v, p) in &mut b.constraints {
        *p = [truth[&v[1]] * truth[&v[0]].inverse(), truth[&v[2]] * truth[&v[0]].inverse()];
    }
    b.vs.data.cvcheck_set_constraints(b.rec, &b.constraints);
    let off = |vs: &Vs| -> f64 {
        edges(&b.constraints)
            .iter()
            .flat_map(|(v, es)| es.iter().map(move |(o, rel)| log(&(rel * vs.data.pose(b.rec, *o).isometry() * vs.data.pose(b.rec, *v).isometry().inverse()))))
            .map(|(t, w)| t.norm_squared() / (c.scale * c.scale) + w.norm_squared())
            .sum::<f64>()
            .sqrt()
    };
    let before = off(&b.vs);
    chk!(b.vs.apply_constraints(b.rec).is_some(), "a reconstruction was given up");
    let after = off(&b.vs);
    obs.max("share left", after / before);
    chk!(after < 0.5 * before, "poses fit with {:e} before and {:e} after optimising", before, after);
    obs.nontrivial();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Record {
    site: Site,
    incidence: f64,
    minimum: usize,
    /// Landmarks that three views must share.
    share: usize,
    new: usize,
    maximum: usize,
    pick: u64,
}

fn record_strat() -> BoxedStrategy<Record> {
    (site((2usize..60).boxed()), (-5.0..-2.0f64).prop_map(|e| 10f64.powf(e)), 1usize..4, prop_oneof![3 => 1usize..4, 1 => 4usize..16], prop_oneof![3 => Just(0usize), 1 => 1usize..5], 1usize..5, any::<u64>())
        .prop_map(|(mut site, incidence, minimum, share, new, maximum, pick)| {
            site.views = if site.views < 7 { 4 + site.views % 3 } else { site.views.min(9) };
            Record { site, incidence, minimum, share, new, maximum, pick }
        })
        .boxed()
}

fn record_check(c: &Record, obs: &mut Obs) -> Check {
    isolated(c.site.hash, c, obs, record_run)
}
fn record_run(c: &Record, obs: &mut Obs) -> Check {
    let mut s = VSlamSettings::default();
    s.robust_observation_incidence_minimum_cosine_distance = c.incidence;
    s.robust_minimum_observations = c.minimum;
    s.optimization_minimum_landmarks = 0;
    s.robust_view_num_robust_bearing_pair = 0;
    s.optimization_robust_covisibility_minimum_landmarks = c.share;
    s.optimization_minimum_new_constraints = c.new;
    s.optimization_maximum_three_view_constraints = c.maximum;
    let exact = c.site.noise == 0.0 && c.site.wrong == 0.0;
    s.constraint_patience = if exact { 10 } else { 50 };
    let mut b = c.site.build(s);
    b.vs.data.cvcheck_set_constraints(b.rec, &[]);
    let before = snapshot(&b.vs)?.recs[&b.rec].clone();
    let mut r = Rng(c.pick);
    let view = b.views[r.below(b.views.len())];
    // The robust landmarks that three views share.
    let mut robust: Vec<&Class> = vec![];
    for (l, class) in &before.classes {
        let o = b.observations(*l);
        match b.robust(&o) {
            Some(true) if b.triangulated(&o).is_some() => robust.push(class),
            Some(_) => {}
            None => return Ok(()),
        }
    }
    let sees = |c: &Class, v: ViewKey| c.iter().any(|o| o.0 == v);
    let mut fit: Vec<(usize, [ViewKey; 3])> = vec![];
    for i in 0..b.views.len() {
        for j in 0..i {
            let (x, y) = (b.views[i], b.views[j]);
            if x != view && y != view {
                let n = robust.iter().filter(|c| sees(c, view) && sees(c, x) && sees(c, y)).count();
                if n >= c.share {
                    let mut t = [view, x, y];
                    t.sort();
                    fit.push((n, t));
                }
            }
        }
    }
    fit.sort();
    fit.reverse();
    let ties = fit.windows(2).any(|w| w[0].0 == w[1].0);
    let did = b.vs.cvcheck_record_view_constraints(b.rec, view);
    let got = snapshot(&b.vs)?.recs[&b.rec].clone();
    chk!(got.classes == before.classes && got.views == before.views, "recording constraints changed more than those");
    let n = fit.len().min(c.maximum);
    let enough = n >= c.new || n + 1 >= before.views.len();
    chk!(did == enough, "recording {} constraints of {} needed for a view of {} returned {}", n, c.new, before.views.len(), did);
    chk!(got.constraints.len() == if enough { n } else { 0 }, "{} constraints were recorded, {} fit, at most {} may be, {} must be", got.constraints.len(), fit.len(), c.maximum, c.new);
    let made: BTreeSet<[ViewKey; 3]> = got.constraints.iter().map(|c| c.0).collect();
    chk!(made.len() == got.constraints.len(), "two constraints of the same views were recorded");
    for t in &made {
        chk!(fit.iter().any(|f| f.1 == *t), "a constraint of {:?} was recorded, but only {:?} fit", t, fit);
    }
    // Those that reach a new view come first, then those with the most landmarks.
    if enough && !ties {
        let mut seen = BTreeSet::new();
        let (mut first, mut rest) = (vec![], vec![]);
        for (_, t) in &fit {
            let new = t.iter().filter(|v| seen.insert(**v)).count() > 0;
            if new { first.push(*t) } else { rest.push(*t) }
        }
        first.extend(rest);
        let want: BTreeSet<_> = first.into_iter().take(c.maximum).collect();
        chk!(made == want, "constraints {:?} were recorded, expected {:?} of {:?}", made, want, fit);
        obs.label_if(fit.len() > c.maximum, "chosen among several");
    }
    // Their scale is that of the poses, and exact observations give exact poses.
    for (v, [p, q]) in &got.constraints {
        let base = b.pose(v[0]).inverse();
        let (x, y) = (b.pose(v[1]) * base, b.pose(v[2]) * base);
        let size = |a: &IsometryMatrix3<f64>, b: &IsometryMatrix3<f64>| a.translation.vector.norm() + b.translation.vector.norm();
        chk!((size(p, q) - size(&x, &y)).abs() <= 1e-9 * size(&x, &y), "a constraint has size {} instead of {}", size(p, q), size(&x, &y));
        // A landmark near the line between two views, or far from them, makes every iteration amplify rounding.
        let stable = |class: &Class| {
            let ray = |v: ViewKey| class.iter().find(|o| o.0 == v).map(|o| b.pose(v).rotation.inverse() * b.bearing(o.0, o.1));
            let at = |v: ViewKey| b.pose(v).inverse().translation.vector;
            let rays = v.map(ray);
            [(0, 1), (0, 2), (1, 2)].iter().all(|&(i, j)| match (rays[i], rays[j]) {
                (Some(x), Some(y)) => {
                    let base = (at(v[i]) - at(v[j])).normalize();
                    x.cross(&base).norm().min(y.cross(&base).norm()) > 0.1 && x.cross(&y).norm() > 0.03
                }
                _ => true,
            })
        };
        if exact && robust.iter().filter(|c| v.iter().all(|v| sees(c, *v))).all(|c| stable(c)) {
            for (a, b) in [(p, &x), (q, &y)] {
                let d = a.to_homogeneous() - b.to_homogeneous();
                obs.max("error of an exact constraint", d.amax());
                chk!(d.amax() < 1e-5, "a constraint from exact observations is off by {:e}", d.amax());
            }
            obs.label("exact");
        }
    }
    if !made.is_empty() && fit.len() > 1 {
        obs.nontrivial();
    }
    obs.label_if(!did, "refused");
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C41: normalisation and export

impl Built {
    /// Finite points of robust landmarks; `None` if rounding may decide on one.
    fn cloud(&self) -> Option<BTreeMap<LandmarkKey, V3>> {
        let mut m = BTreeMap::new();
        for l in self.rec().landmarks.keys() {
            let o = self.observations(l);
            if self.robust(&o)? {
                if let Some(p) = self.triangulated(&o) {
                    let h = p.homogeneous();
                    if h.w.abs() < 1e-6 * h.norm() {
                        return None;
                    }
                    m.insert(l, h.xyz() / h.w);
                }
            }
        }
        Some(m)
    }
    /// Mean distance of the robust landmarks that a view observes.
    fn distance(&self, v: ViewKey, cloud: &BTreeMap<LandmarkKey, V3>) -> f64 {
        let p = self.pose(v);
        let d: Vec<f64> = self.rec().views[v].landmarks.iter().filter_map(|l| cloud.get(l)).map(|x| bearing_of(&p, *x).norm()).collect();
        d.iter().sum::<f64>() / d.len() as f64
    }
}

fn normalise_check(c: &Filter, obs: &mut Obs) -> Check {
    isolated(c.site.hash, c, obs, normalise_run)
}
fn normalise_run(c: &Filter, obs: &mut Obs) -> Check {
    let mut b = c.build();
    let mut r = Rng(c.pick);
    if b.views.len() > 2 {
        let mut v = b.views.clone();
        let made: Vec<Constraint> = (0..r.below(4))
            .map(|_| {
                r.shuffle(&mut v);
                let mut t = [v[0], v[1], v[2]];
                t.sort();
                (t, [iso(r.cube(), r.rot(3.0)), iso(r.cube(), r.rot(3.0))])
            })
            .collect();
        b.vs.data.cvcheck_set_constraints(b.rec, &made);
    }
    let Some(cloud) = b.cloud() else { return Ok(()) };
    let first = b.rec().views.keys().next().unwrap();
    let mean = b.distance(first, &cloud);
    let before = snapshot(&b.vs)?.recs[&b.rec].clone();
    let old: BTreeMap<ViewKey, IsometryMatrix3<f64>> = b.views.iter().map(|v| (*v, b.pose(*v))).collect();
    let rec = b.rec;
    b.vs.normalize_reconstruction(rec);
    let got = snapshot(&b.vs)?.recs[&b.rec].clone();
    chk!(got.classes == before.classes, "normalising changed landmarks");
    if !mean.is_normal() {
        chk!(got == before, "a reconstruction without points changed");
        obs.label("no points");
        return Ok(());
    }
    let base = old[&first].inverse();
    let scaled = |i: IsometryMatrix3<f64>| iso(i.translation.vector / mean, i.rotation);
    for (v, p) in &old {
        let want = scaled(p * base);
        let d = (want.to_homogeneous() - b.pose(*v).to_homogeneous()).amax();
        chk!(d < 1e-9 * (1.0 + want.translation.vector.norm()), "view {:?} is at {:?}, expected {:?}", v, b.pose(*v), want);
    }
    for ((v, p), (u, q)) in before.constraints.iter().zip(&got.constraints) {
        chk!(v == u, "normalising changed the views of a constraint");
        for (p, q) in p.iter().zip(q) {
            let d = (scaled(*p).to_homogeneous() - q.to_homogeneous()).amax();
            chk!(d < 1e-9 * (1.0 + q.translation.vector.norm()), "a constraint is {:?}, expected {:?}", q, scaled(*p));
        }
    }
    if old.len() > 2 && cloud.len() > 1 {
        obs.nontrivial();
    }
    // The points lie at distance 1 on average, and normalising again changes nothing.
    let Some(cloud) = b.cloud() else { return Ok(()) };
    let far = cloud.values().map(|p| p.norm()).fold(0.0, f64::max);
    // Only exact observations give the same points in another world.
    if far > 100.0 || c.site.noise > 0.0 || c.site.wrong > 0.0 {
        return Ok(());
    }
    obs.label("exact");
    // The narrower the rays of a landmark, the less its distance is determined.
    let wide = |l: &LandmarkKey| {
        let r = b.rays(&b.observations(*l));
        r.iter().flat_map(|x| r.iter().map(move |y| x.cross(y).norm())).fold(0.0, f64::max)
    };
    let tol = 1e-6 + 1e-10 / cloud.keys().map(wide).fold(1.0, f64::min).powi(2);
    if tol > 1e-3 {
        return Ok(());
    }
    let mean = b.distance(first, &cloud);
    chk!((mean - 1.0).abs() < tol, "the mean distance after normalising is {}", mean);
    b.vs.normalize_reconstruction(rec);
    for (v, p) in &got.views {
        let q = numbers(&b.pose(*v));
        chk!(p.1.iter().zip(q).all(|(a, b)| (a - b).abs() < tol * (1.0 + a.abs())), "normalising again moved a view from {:?} to {:?}", p.1, q);
    }
    Ok(())
}

#[derive(Debug)]
struct PlyFile {
    vertices: Vec<([f64; 3], [u8; 3])>,
    faces: Option<Vec<[usize; 3]>>,
}

fn read_ply(text: &str) -> Result<PlyFile, String> {
    let mut lines = text.lines();
    let mut vertices = 0;
    let mut faces = None;
    if lines.next() != Some("ply") {
        return Err("not a PLY file".into());
    }
    for l in lines.by_ref() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[..] {
            ["element", "vertex", n] => vertices = n.parse().map_err(|_| "bad count")?,
            ["element", "face", n] => faces = Some(n.parse::<usize>().map_err(|_| "bad count")?),
            ["end_header"] => break,
            _ => {}
        }
    }
    let mut numbers = |n: usize| -> Result<Vec<f64>, String> {
        let v: Vec<f64> = lines.next().ok_or("too few lines")?.split(' ').map(|x| x.parse().map_err(|_| format!("bad number {}", x))).collect::<Result<_, String>>()?;
        if v.len() != n {
            return Err(format!("{} numbers instead of {}", v.len(), n));
        }
        Ok(v)
    };
    let mut out = PlyFile { vertices: vec![], faces: None };
    for _ in 0..vertices {
        let v = numbers(6)?;
        out.vertices.push(([v[0], v[1], v[2]], [v[3] as u8, v[4] as u8, v[5] as u8]));
    }
    if let Some(n) = faces {
        let mut f = vec![];
        for _ in 0..n {
            let v = numbers(4)?;
            chk_or(v[0] == 3.0, "a face that is not a triangle")?;
            f.push([v[1] as usize, v[2] as usize, v[3] as usize]);
        }
        out.faces = Some(f);
    }
    Ok(out)
}
fn chk_or(b: bool, m: &str) -> Check {
    if b { Ok(()) } else { Err(m.into()) }
}

fn export_check(c: &Filter, obs: &mut Obs) -> Check {
    isolated(c.site.hash, c, obs, export_run)
}
fn export_run(c: &Filter, obs: &mut Obs) -> Check {
    let mut b = c.build();
    let Some(cloud) = b.cloud() else { return Ok(()) };
    let faces = c.pick % 2 == 0;
    let before = snapshot(&b.vs)?;
    static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let path = std::env::temp_dir().join(format!("sfmcheck-{}-{}.ply", std::process::id(), n));
    struct Remove(std::path::PathBuf);
    impl Drop for Remove {
        fn drop(&mut self) {
            let _ = std::fs::remove_file(&self.0);
        }
    }
    let _remove = Remove(path.clone());
    b.vs.export_reconstruction(b.rec, &path, faces);
    let text = std::fs::read_to_string(&path).map_err(|e| e.to_string())?;
    let ply = read_ply(&text)?;
    chk!(snapshot(&b.vs)? == before, "exporting changed the reconstruction");
    let close = |a: &[f64; 3], b: V3, tol: f64| (0..3).all(|k| (a[k] - b[k]).abs() <= tol * (1.0 + b.norm()));
    // One coloured vertex for each point.
    let views = b.views.len();
    chk!(ply.vertices.len() == 5 * views + cloud.len(), "{} vertices for {} cameras and {} points", ply.vertices.len(), views, cloud.len());
    let mut left: Vec<usize> = (0..ply.vertices.len()).collect();
    for (l, p) in &cloud {
        let colors: Vec<[u8; 3]> = b.observations(*l).iter().map(|&(v, f)| b.vs.data.frame(b.rec().views[v].frame).feature(f).color).collect();
        let at = left.iter().position(|&i| close(&ply.vertices[i].0, *p, 1e-6) && colors.contains(&ply.vertices[i].1));
        let Some(at) = at else { return Err(format!("no vertex at {:?} with one of the colours {:?}", p, colors)) };
        left.remove(at);
    }
    // One pyramid for each camera.
    let mut pyramids: Vec<[usize; 5]> = vec![];
    for v in &b.views {
        let (pose, d) = (b.pose(*v).inverse(), 0.01 * b.distance(*v, &cloud));
        let centre = pose.translation.vector;
        let mut own = [usize::MAX; 5];
        let axis = |x: f64, y: f64| pose.rotation * Vector3::new(x, y, 1.0);
        let spots = [centre, centre + axis(1.0, -1.0) * d, centre + axis(-1.0, -1.0) * d, centre + axis(-1.0, 1.0) * d, centre + axis(1.0, 1.0) * d];
        if d.is_nan() {
            // Without points the size is not defined.
            let at = left.iter().position(|&i| close(&ply.vertices[i].0, centre, 1e-9)).ok_or("no vertex at the camera")?;
            own[0] = left.remove(at);
        } else {
            for (k, s) in spots.iter().enumerate() {
                let at = left.iter().position(|&i| close(&ply.vertices[i].0, *s, 1e-8)).ok_or_else(|| format!("no vertex at corner {} of a camera, {:?}", k, s))?;
                own[k] = left.remove(at);
            }
        }
        pyramids.push(own);
    }
    chk!(ply.faces.is_some() == faces, "faces are {}written", if faces { "not " } else { "" });
    if let Some(f) = &ply.faces {
        chk!(f.len() == 4 * views, "{} faces for {} cameras", f.len(), views);
        let set: BTreeSet<BTreeSet<usize>> = f.iter().map(|t| t.iter().copied().collect()).collect();
        for p in pyramids.iter().filter(|p| !p.contains(&usize::MAX)) {
            for k in 0..4 {
                let t: BTreeSet<usize> = [p[0], p[1 + k], p[1 + (k + 1) % 4]].into_iter().collect();
                chk!(set.contains(&t), "no face from the centre of a camera to the edge {}", k);
            }
        }
    }
    if !cloud.is_empty() && pyramids.iter().any(|p| !p.contains(&usize::MAX)) {
        obs.nontrivial();
    }
    obs.label_if(faces, "with faces");
    b.vs.settings.minimum_robust_landmarks = 0;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C43: similar and recent frames

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Retrieval {
    hash: u64,
    seed: u64,
    feeds: usize,
    frames: usize,
    recent: usize,
    similar: usize,
    apart: usize,
    search: usize,
    viewed: f64,
}

fn retrieval_strat() -> BoxedStrategy<Retrieval> {
    (any::<u64>(), any::<u64>(), 1usize..4, prop_oneof![15 => 1usize..24, 1 => 24usize..60], 0usize..6, 0usize..8, 0usize..10, 0usize..24, prop_oneof![Just(0.0), Just(0.5), Just(1.0)])
        .prop_map(|(hash, seed, feeds, frames, recent, similar, apart, search, viewed)| Retrieval { hash, seed, feeds, frames, recent, similar, apart, search, viewed })
        .boxed()
}

fn retrieval_check(c: &Retrieval, obs: &mut Obs) -> Check {
    isolated(c.hash, c, obs, retrieval_run)
}
fn retrieval_run(c: &Retrieval, obs: &mut Obs) -> Check {
    let mut r = Rng(c.seed);
    let mut s = VSlamSettings::default();
    s.tracking_recent_frames = c.recent;
    s.tracking_similar_frames = c.similar;
    s.tracking_similar_frame_recent_threshold = c.apart;
    s.tracking_similar_frame_search_num = c.search;
    let mut vs = vslam(s, 0);
    let feeds: Vec<FeedKey> = (0..c.feeds).map(|_| vs.add_feed(intrinsics())).collect();
    let words: Vec<Bits> = (0..40).map(|_| r.bits()).collect();
    let mut all: Vec<(FrameKey, usize, usize)> = vec![];
    let mut counts = vec![0; c.feeds];
    for _ in 0..c.frames {
        let feed = r.below(c.feeds);
        let from = r.below(words.len());
        let features = (0..2 + r.below(10)).map(|_| (words[(from + r.below(12)) % words.len()], feature(Vector3::z_axis(), [0; 3]))).collect();
        let f = vs.data.cvcheck_add_features(feeds[feed], features);
        all.push((f, feed, counts[feed]));
        counts[feed] += 1;
    }
    for (f, feed, n) in &all {
        let is = vs.data.frame(*f);
        chk!(is.feed == feeds[*feed] && is.feed_frame == *n, "frame {} of feed {} says it is {} of {:?}", n, feed, is.feed_frame, is.feed);
    }
    for (k, feed) in feeds.iter().enumerate() {
        let mine: Vec<FrameKey> = all.iter().filter(|f| f.1 == k).map(|f| f.0).collect();
        chk!(vs.data.cvcheck_feed_frames(*feed) == &mine[..], "the frames of a feed are not those that were added, in order");
    }
    // Put some of the frames into reconstructions.
    let one = cam(IsometryMatrix3::identity());
    let mut free: Vec<FrameKey> = all.iter().map(|f| f.0).filter(|_| r.chance(c.viewed)).collect();
    r.shuffle(&mut free);
    let mut rec = None;
    while let Some(f) = free.pop() {
        match rec {
            Some(k) if r.chance(0.7) => {
                vs.data.cvcheck_add_view(k, f, world(IsometryMatrix3::identity()), &HashMap::new());
            }
            _ if free.len() >= 2 => {
                let (a, b) = (free.pop().unwrap(), free.pop().unwrap());
                rec = Some(vs.data.add_reconstruction(f, a, b, one, one, vec![], vec![], vec![]));
            }
            _ => break,
        }
    }
    let snap = snapshot(&vs)?;
    let (me, feed, at) = all[r.below(all.len())];
    let (got_views, got_free) = vs.cvcheck_similar_and_recent(me);
    let near = |f: &(FrameKey, usize, usize), n: usize| f.1 == feed && f.2.abs_diff(at) < n;
    let mut want: Vec<FrameKey> = all.iter().filter(|f| f.0 != me && near(f, c.recent)).map(|f| f.0).collect();
    let recent = want.len();
    let dist = |f: FrameKey| -> u32 { vs.data.frame(f).lsh.bytes().iter().zip(vs.data.frame(me).lsh.bytes()).map(|(a, b)| (a ^ b).count_ones()).sum() };
    let mut found = all.clone();
    found.sort_by_key(|f| dist(f.0));
    found.truncate(c.search);
    let similar: Vec<FrameKey> = found.iter().filter(|f| f.0 != me && !want.contains(&f.0) && !near(f, c.apart)).map(|f| f.0).take(c.similar).collect();
    want.extend(&similar);
    let mut views: BTreeMap<ReconstructionKey, BTreeSet<ViewKey>> = BTreeMap::new();
    let mut none: BTreeSet<FrameKey> = BTreeSet::new();
    for f in &want {
        match snap.frames[f] {
            Some((k, v)) => {
                views.entry(k).or_default().insert(v);
            }
            None => {
                none.insert(*f);
            }
        }
    }
    let n: usize = got_views.values().map(|v| v.len()).sum::<usize>() + got_free.len();
    chk!(n == want.len(), "{} frames were found, expected {:?}", n, want);
    let got_views: BTreeMap<_, BTreeSet<_>> = got_views.into_iter().map(|(k, v)| (k, v.into_iter().collect())).collect();
    let got_free: BTreeSet<_> = got_free.into_iter().collect();
    chk!(got_views == views && got_free == none, "found views {:?} and frames {:?}, expected {:?} and {:?}", got_views, got_free, views, none);
    if recent > 0 && !similar.is_empty() {
        obs.nontrivial();
    }
    obs.label_if(!views.is_empty() && !none.is_empty(), "views and free frames");
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C44: settings and stored maps

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Partial {
    seed: u64,
    given: f64,
}

fn settings_check(c: &Partial, obs: &mut Obs) -> Check {
    let mut r = Rng(c.seed);
    let json = |s: &VSlamSettings| match serde_json::to_value(s) {
        Ok(serde_json::Value::Object(m)) => Ok(m),
        other => Err(format!("settings are written as {:?}", other)),
    };
    let all = json(&VSlamSettings::default())?;
    let mut given = serde_json::Map::new();
    for (k, v) in &all {
        if r.chance(c.given) {
            let new = match v {
                serde_json::Value::Number(n) if n.is_f64() => serde_json::json!(10f64.powf(r.range(-9.0, 3.0))),
                serde_json::Value::Number(_) => serde_json::json!(r.below(1 << 30)),
                other => return Err(format!("setting {} is {:?}", k, other)),
            };
            given.insert(k.clone(), new);
        }
    }
    let read: VSlamSettings = serde_json::from_value(serde_json::Value::Object(given.clone())).map_err(|e| e.to_string())?;
    let got = json(&read)?;
    for (k, v) in &all {
        let want = given.get(k).unwrap_or(v);
        chk!(got.get(k) == Some(want), "setting {} is {:?}, expected {:?}", k, got.get(k), want);
    }
    chk!(got.len() == all.len(), "there are {} settings instead of {}", got.len(), all.len());
    if !given.is_empty() && given.len() < all.len() {
        obs.nontrivial();
    }
    Ok(())
}
fn settings_strat() -> BoxedStrategy<Partial> {
    (any::<u64>(), prop_oneof![Just(0.0), Just(0.1), Just(0.5), Just(1.0)]).prop_map(|(seed, given)| Partial { seed, given }).boxed()
}

fn stored_check(c: &Filter, obs: &mut Obs) -> Check {
    isolated(c.site.hash, c, obs, stored_run)
}
fn stored_run(c: &Filter, obs: &mut Obs) -> Check {
    let mut b = c.build();
    let before = snapshot(&b.vs)?;
    let bytes = bincode::serialize(&b.vs.data).map_err(|e| e.to_string())?;
    let data: VSlamData = bincode::deserialize(&bytes).map_err(|e| e.to_string())?;
    let mut other = vslam(VSlamSettings::default(), c.site.seed);
    other.settings = b.vs.settings;
    other.data = data;
    let after = snapshot(&other)?;
    chk!(after == before, "a stored map is {:?}, expected {:?}", after, before);
    for f in b.vs.data.cvcheck_frames() {
        let (x, y) = (b.vs.data.frame(f), other.data.frame(f));
        chk!(x.feed == y.feed && x.feed_frame == y.feed_frame && x.lsh == y.lsh, "a stored frame belongs to another place");
        for i in 0..x.descriptor_features.len() {
            let (p, q) = (x.feature(i), y.feature(i));
            chk!(x.descriptor(i) == y.descriptor(i) && p.bearing == q.bearing && p.response == q.response && p.color == q.color, "a stored feature is {:?}, expected {:?}", q, p);
        }
        let sorted = |vs: &Vs| {
            let (v, mut n) = vs.cvcheck_similar_and_recent(f);
            n.sort();
            (v.into_iter().map(|(k, v)| (k, v.into_iter().collect::<BTreeSet<_>>())).collect::<BTreeMap<_, _>>(), n)
        };
        chk!(sorted(&b.vs) == sorted(&other), "frames similar to one of a stored map differ");
    }
    // It can be used like the original.
    let rec = b.rec;
    if b.cloud().is_some() {
        b.vs.filter_non_robust_landmarks(rec);
        other.filter_non_robust_landmarks(rec);
        let (x, y) = (snapshot(&b.vs)?, snapshot(&other)?);
        let part = |s: &Snap| s.recs.values().map(|r| r.partition().into_iter().filter(|c| c.len() > 1).collect::<BTreeSet<_>>()).collect::<Vec<_>>();
        chk!(part(&x) == part(&y), "a stored map filters to other landmarks");
        let feed = other.data.frame(b.frames[0]).feed;
        let f = other.data.cvcheck_add_features(feed, vec![]);
        chk!(!before.frames.contains_key(&f), "a new frame of a stored map has the key of an old one");
        chk!(other.data.frame(f).feed_frame == before.frames.len(), "a new frame of a stored map has number {}", other.data.frame(f).feed_frame);
        snapshot(&other)?;
    }
    if before.recs[&rec].classes.values().any(|c| c.len() > 1) {
        obs.nontrivial();
    }
    Ok(())
}

pub const STANDINS: &str = "hgg, hamming-lsh, slotmap, imageproc, conv, average, maplit, ply-rs, image, bitarray, space, wide, rayon and thiserror are not installed here; stand-ins with the documented behaviour of what the crate uses replace them (HggLite searches exactly)";
pub const ORACLE: &str = "triangulation, epipolar loss and pose algebra are those of the other crates of the repository, which C01-C28 check";

pub fn all() -> Vec<Property> {
    let mut v = vec![
        Property {
            id: "C36",
            assumptions: &[STANDINS, ORACLE],
            laws: vec![law("history", "1-40 operations on frames, views, landmarks, constraints and reconstructions; non-trivial: at least five of them change something and a reconstruction has three views", 80_000, 1_000_000, history_strat, history_check), crate::scene::life_law()],
        },
        Property {
            id: "C37",
            assumptions: &[STANDINS],
            laws: vec![law("mutual", "two frames of 0-199 descriptors that vary and repeat; non-trivial: some but not all features match", 30_000, 300_000, match_strat, match_check)],
        },
        Property {
            id: "C38",
            assumptions: &[STANDINS, ORACLE],
            laws: vec![
                law("observations", "2-15 views of 1-59 points with noise and mixed-up features x thresholds; non-trivial: something is split off and a landmark stays", 40_000, 500_000, filter_strat, observations_check),
                law("landmarks", "as observations; non-trivial: a landmark is split and one stays", 30_000, 400_000, filter_strat, landmarks_check),
                law("queries", "as observations; non-trivial: a landmark is robust and another is not", 30_000, 400_000, filter_strat, queries_check),
                law("dedup", "as observations, two of the landmarks with most observations; non-trivial: they share one view and have others", 40_000, 500_000, filter_strat, dedup_check),
            ],
        },
        Property {
            id: "C39",
            assumptions: &[STANDINS, ORACLE],
            laws: vec![
                law("apply", "3-19 posed views with triples of constraints; non-trivial: more than three views that do not fit exactly", 60_000, 800_000, graph_strat, apply_check),
                law("world", "as apply, and the same in another world; non-trivial: they do not fit exactly", 40_000, 500_000, graph_strat, frame_check),
                law("converge", "3-6 views near poses that fit to all constraints; every case is non-trivial", 4_000, 50_000, converge_strat, converge_check),
                law("record", "4-9 views of 2-59 points; non-trivial: more than one triple of views shares enough landmarks", 16_000, 200_000, record_strat, record_check),
            ],
        },
        Property {
            id: "C41",
            assumptions: &[STANDINS, ORACLE],
            laws: vec![
                law("normalise", "2-15 views of 1-59 points; non-trivial: more than two views and more than one point", 30_000, 400_000, filter_strat, normalise_check),
                law("export", "2-15 views of 1-59 points; non-trivial: a point and a camera with points are written", 20_000, 200_000, filter_strat, export_check),
            ],
        },
        Property {
            id: "C43",
            assumptions: &[STANDINS],
            laws: vec![law("retrieval", "1-59 frames of 1-3 feeds, some in reconstructions; non-trivial: a recent and a similar frame are found", 16_000, 100_000, retrieval_strat, retrieval_check)],
        },
        Property {
            id: "C44",
            assumptions: &[STANDINS],
            laws: vec![
                law("settings", "random subsets of the settings; non-trivial: some but not all are given", 40_000, 500_000, settings_strat, settings_check),
                law("stored", "2-15 views of 1-59 points; non-trivial: a landmark has two observations", 10_000, 150_000, filter_strat, stored_check),
            ],
        },
    ];
    v.push(crate::scene::property(&[STANDINS, ORACLE]));
    v.push(crate::features::property(&[STANDINS, "the keypoints and descriptors are those of the akaze crate, which C29-C35 check"]));
    v.sort_by_key(|p| p.id);
    v
}
