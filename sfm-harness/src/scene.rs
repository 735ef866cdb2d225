//! Whole runs on generated scenes: initialisation, registration, localisation and merging.
use crate::base::*;
use crate::fw::*;
use cv_core::nalgebra::{IsometryMatrix3, Rotation3};
use cv_core::Pose;
use cv_sfm::*;
use proptest::prelude::{any, prop_oneof, BoxedStrategy, Just, Strategy};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scene {
    hash: u64,
    seed: u64,
    frames: usize,
    points: usize,
    /// Share of the points that a frame sees.
    seen: f64,
    noise: f64,
    /// Features without a partner, as a share of the points.
    clutter: f64,
    /// Features with the descriptor of a point that they do not show, as a share of the points.
    decoys: f64,
    /// The same, but on the epipolar line of the first frame, as a point nearer or farther would be.
    slid: f64,
    /// Features that are there twice, as a share of the points.
    twins: f64,
    /// Bits in which descriptors of a point differ between frames.
    bits: usize,
    spread: f64,
    turn: f64,
}

fn scene_strat(frames: std::ops::Range<usize>) -> BoxedStrategy<Scene> {
    (
        any::<u64>(),
        any::<u64>(),
        frames,
        80usize..140,
        0.8..1.0f64,
        prop_oneof![1 => Just(0.0), 2 => (-7.0..-4.3f64).prop_map(|e| 10f64.powf(e))],
        prop_oneof![Just(0.0), Just(0.3)],
        prop_oneof![
            8 => Just((0.0, 0.0, 0.0)),
            3 => Just((0.15, 0.0, 0.0)),
            3 => Just((0.0, 0.15, 0.0)),
            2 => Just((0.0, 0.0, 0.1)),
        ],
        0usize..40,
        0.5..1.6f64,
        0.0..0.6f64,
    )
        .prop_map(|(hash, seed, frames, points, seen, noise, clutter, (decoys, slid, twins), bits, spread, turn)| {
            Scene { hash, seed, frames, points, seen, noise, clutter, decoys, slid, twins, bits, spread, turn }
        })
        .boxed()
}

pub struct Shot {
    vs: Vs,
    frames: Vec<FrameKey>,
    cams: BTreeMap<FrameKey, IsometryMatrix3<f64>>,
    /// The point whose descriptor a feature has; clutter has numbers of its own.
    ids: BTreeMap<FrameKey, Vec<usize>>,
    /// Features at the place of their point.
    good: BTreeMap<FrameKey, Vec<bool>>,
    rng: Rng,
}

impl Scene {
    fn settings(&self) -> VSlamSettings {
        let mut s = VSlamSettings::default();
        s.two_view_minimum_robust_matches = 32;
        s.three_view_patience = 300;
        s.three_view_filter_loop_iterations = 2;
        s.single_view_patience = 2000;
        s.single_view_filter_loop_iterations = 2;
        s.single_view_minimum_robust_landmarks = 32;
        s.constraint_patience = 200;
        s.optimization_iterations = 32;
        s.optimization_minimum_new_constraints = 1;
        s.optimization_maximum_three_view_constraints = 6;
        s.single_view_consensus_threshold = 1e-6;
        s
    }

    fn build(&self) -> Shot {
        let mut r = Rng(self.seed);
        let mut vs = vslam(self.settings(), self.seed);
        let feed = vs.add_feed(intrinsics());
        let points: Vec<V3> = (0..self.points).map(|_| V3::new(0.0, 0.0, 6.0) + r.cube().component_mul(&V3::new(3.0, 3.0, 2.5))).collect();
        let words: Vec<Bits> = (0..self.points).map(|_| r.bits()).collect();
        let mut s = Shot { vs, frames: vec![], cams: BTreeMap::new(), ids: BTreeMap::new(), good: BTreeMap::new(), rng: Rng(0) };
        let mut next = self.points;
        let mut first = V3::zeros();
        for k in 0..self.frames {
            // Cameras around a ring, so that no two are at the same place.
            let a = std::f64::consts::TAU * (k as f64 * 0.382 + 0.05 * r.unit());
            let at = V3::new(a.cos(), a.sin(), 0.0) * self.spread * r.range(0.7, 1.0) + r.cube() * 0.3;
            let rot = r.rot(self.turn);
            let c = iso(-(rot * at), rot);
            if k == 0 {
                first = at;
            }
            let mut list: Vec<(usize, bool, Bits, V3)> = vec![];
            for p in 0..self.points {
                if !r.chance(self.seen) {
                    continue;
                }
                let mut b = words[p];
                let n = r.below(self.bits + 1);
                r.flip(&mut b, n);
                let bad = r.chance(self.decoys);
                let slid = self.slid > 0.0 && r.chance(self.slid);
                let twin = self.twins > 0.0 && r.chance(self.twins);
                let at = if bad {
                    V3::new(0.0, 0.0, 6.0) + r.cube() * 3.0
                } else if slid {
                    first + (points[p] - first) * if r.chance(0.5) { r.range(0.6, 0.8) } else { r.range(1.3, 2.0) }
                } else {
                    points[p]
                };
                list.push((p, !(bad || slid || twin), b, uv(bearing_of(&c, at)).into_inner() + r.cube() * self.noise));
                if twin {
                    r.flip(&mut b, 1);
                    list.push((p, false, b, uv(bearing_of(&c, at)).into_inner() + r.cube() * self.noise));
                }
            }
            for _ in 0..(self.clutter * self.points as f64) as usize {
                list.push((next, false, r.bits(), bearing_of(&c, V3::new(0.0, 0.0, 6.0) + r.cube() * 3.0)));
                next += 1;
            }
            r.shuffle(&mut list);
            let f = s.vs.data.cvcheck_add_features(feed, list.iter().map(|x| (x.2, feature(uv(x.3), [0; 3]))).collect());
            s.frames.push(f);
            s.cams.insert(f, c);
            s.ids.insert(f, list.iter().map(|x| x.0).collect());
            s.good.insert(f, list.iter().map(|x| x.1).collect());
        }
        s.rng = r;
        s
    }
}

impl Shot {
    fn view(&self, rec: ReconstructionKey, v: ViewKey) -> IsometryMatrix3<f64> {
        self.vs.data.pose(rec, v).isometry()
    }

    /// How far the poses are from the truth, as (angle, distance over size) after moving and scaling.
    fn error(&self, snap: &Snap, rec: ReconstructionKey) -> (f64, f64, f64) {
        let views: Vec<(ViewKey, FrameKey)> = snap.recs[&rec].views.iter().map(|(v, f)| (*v, f.0)).collect();
        let base = (self.view(rec, views[0].0), self.cams[&views[0].1]);
        let rel: Vec<(IsometryMatrix3<f64>, IsometryMatrix3<f64>)> =
            views.iter().map(|(v, f)| (self.view(rec, *v) * base.0.inverse(), self.cams[f] * base.1.inverse())).collect();
        // The scale that fits best.
        let dot: f64 = rel.iter().map(|(a, b)| a.translation.vector.dot(&b.translation.vector)).sum();
        let own: f64 = rel.iter().map(|(a, _)| a.translation.vector.norm_squared()).sum();
        let size: f64 = rel.iter().map(|(_, b)| b.translation.vector.norm()).fold(0.0, f64::max);
        let k = dot / own;
        let angle = rel.iter().map(|(a, b)| angle(a.rotation * b.rotation.inverse())).fold(0.0, f64::max);
        let off = rel.iter().map(|(a, b)| (a.translation.vector * k - b.translation.vector).norm()).fold(0.0, f64::max);
        (angle, off / size, k)
    }

    /// Landmarks only join features with the descriptor of the same point, and their observations fit.
    fn landmarks(&self, snap: &Snap, rec: ReconstructionKey, slack: f64, chance: &mut bool) -> Result<usize, String> {
        let r = &snap.recs[&rec];
        let mut joined = 0;
        for class in r.classes.values() {
            self.one_point(r, class, chance)?;
            joined += (class.len() >= 3) as usize;
            self.fits(rec, class, slack)?;
        }
        Ok(joined)
    }
    /// Every feature lies where the landmark is seen, up to the threshold.
    fn fits(&self, rec: ReconstructionKey, class: &BTreeSet<(ViewKey, usize)>, slack: f64) -> Check {
        let o: Vec<_> = class.iter().map(|&(v, f)| (self.vs.data.pose(rec, v), self.vs.data.observation_bearing(rec, v, f))).collect();
        if o.len() == 2 {
            let rel = o[1].0.isometry() * o[0].0.isometry().inverse();
            let d = cv_geom::epipolar::loss(rel.translation.vector, rel * o[0].1, o[1].1);
            let limit = self.vs.settings.maximum_sine_distance * slack;
            chk!(d <= limit, "two observations of a landmark are off by {:e}, limit {:e}", d, limit);
        }
        if o.len() >= 3 {
            let p = self.vs.triangulate_pose_bearings(o.iter().copied());
            let Some(p) = p else { return Err(format!("a landmark with {} observations cannot be triangulated", class.len())) };
            let h = cv_core::Projective::homogeneous(p);
            for (pose, b) in o {
                let i = pose.isometry();
                let d = cosine_distance(&(i.rotation * h.xyz() + i.translation.vector * h.w), &b);
                let limit = self.vs.settings.maximum_cosine_distance * slack;
                chk!(d <= limit, "an observation of a landmark is off by {:e}, limit {:e}", d, limit);
            }
        }
        Ok(())
    }
    /// What a registered frame has joined fits, and is enough.
    fn registered(&self, snap: &Snap, rec: ReconstructionKey, view: ViewKey) -> Check {
        let mut joined = 0;
        for class in snap.recs[&rec].classes.values().filter(|c| c.len() > 1 && c.iter().any(|o| o.0 == view)) {
            self.fits(rec, class, 1.0 + 1e-6)?;
            joined += 1;
        }
        let least = self.vs.settings.single_view_minimum_robust_landmarks;
        chk!(joined >= least, "a frame was registered with {} landmarks, {} are needed", joined, least);
        Ok(())
    }
    /// All features of a landmark have the descriptor of one point, unless one of another point is
    /// by chance clearly the nearest in its frame.
    fn one_point(&self, r: &Rec, class: &BTreeSet<(ViewKey, usize)>, chance: &mut bool) -> Check {
        let all: Vec<(FrameKey, usize, usize)> = class.iter().map(|(v, f)| (r.views[v].0, *f, self.ids[&r.views[v].0][*f])).collect();
        if all.iter().all(|x| x.2 == all[0].2) {
            return Ok(());
        }
        let better_by = self.vs.settings.two_view_match_better_by.min(self.vs.settings.single_view_match_better_by);
        let apart = |f: FrameKey, i: usize, g: FrameKey, j: usize| -> u32 {
            let (a, b) = (self.vs.data.descriptor(f, i), self.vs.data.descriptor(g, j));
            a.bytes().iter().zip(b.bytes().iter()).map(|(x, y)| (x ^ y).count_ones()).sum()
        };
        for (f, i, p) in &all {
            for (g, j, q) in &all {
                if f != g && p != q {
                    let own = apart(*f, *i, *g, *j);
                    if (0..self.ids[g].len()).all(|k| k == *j || apart(*f, *i, *g, k) >= own + better_by) {
                        *chance = true;
                        return Ok(());
                    }
                }
            }
        }
        let ids: BTreeSet<usize> = all.iter().map(|x| x.2).collect();
        Err(format!("a landmark joins features of different points {:?}", ids))
    }
    /// Whether no frame has a misplaced feature with the descriptor of the point.
    fn clean(&self, p: usize) -> bool {
        self.frames.iter().all(|f| self.ids[f].iter().zip(&self.good[f]).all(|(q, g)| *q != p || *g))
    }
    fn sees(&self, f: FrameKey, p: usize) -> bool {
        self.ids[&f].contains(&p)
    }
    fn constrained(&self, snap: &Snap, rec: ReconstructionKey) -> Check {
        for v in snap.recs[&rec].views.keys() {
            chk!(snap.recs[&rec].constraints.iter().any(|c| c.0.contains(v)), "a view has no constraint");
        }
        Ok(())
    }
}

/// The angle of a rotation; also exact near no turn.
fn angle(r: Rotation3<f64>) -> f64 {
    let m = r.matrix();
    let sine = V3::new(m[(2, 1)] - m[(1, 2)], m[(0, 2)] - m[(2, 0)], m[(1, 0)] - m[(0, 1)]).norm() / 2.0;
    sine.atan2((m.trace() - 1.0) / 2.0)
}

/// Bounds of the errors (angle, distance over size) for a level of noise. Slid features that
/// nearly fit count as noise.
fn limits(c: &Scene) -> (f64, f64) {
    let noise = if c.slid > 0.0 { c.noise.max(3e-6) } else { c.noise };
    (2e-4 + 1000.0 * noise, 2e-4 + 3000.0 * noise)
}

fn start_check(c: &Scene, obs: &mut Obs) -> Check {
    isolated(c.hash, c, obs, start_run)
}
fn start_run(c: &Scene, obs: &mut Obs) -> Check {
    let mut s = c.build();
    let options = s.frames[1..].to_vec();
    let empty = snapshot(&s.vs)?;
    let center = s.frames[0];
    let Some(rec) = s.vs.cvcheck_init(center, options.clone()) else {
        chk!(snapshot(&s.vs)? == empty, "a failed initialisation changed something");
        obs.rate("no initialisation", 0.05, true);
        return Ok(());
    };
    obs.rate("no initialisation", 0.05, false);
    let snap = snapshot(&s.vs)?;
    chk!(snap.recs.len() == 1 && snap.recs.contains_key(&rec), "initialising made {} reconstructions", snap.recs.len());
    let r = &snap.recs[&rec];
    chk!(r.views.len() == 3 && r.views.values().any(|v| v.0 == center), "the first views are {:?}", r.views);
    let mut chance = false;
    let n = s.landmarks(&snap, rec, 1.0 + 1e-6, &mut chance)?;
    obs.rate("matched by chance", 0.02, chance);
    chk!(n >= s.vs.settings.three_view_minimum_robust_matches, "only {} landmarks are seen by all views", n);
    s.constrained(&snap, rec)?;
    // Good features of one point that all three see join one landmark.
    let (mut all, mut kept) = (0, 0);
    let views: Vec<(ViewKey, FrameKey)> = r.views.iter().map(|(v, f)| (*v, f.0)).collect();
    let find = |f: FrameKey, p: usize| s.ids[&f].iter().position(|q| *q == p).filter(|i| s.good[&f][*i]);
    for p in 0..c.points {
        let o: Vec<(ViewKey, usize)> = views.iter().filter_map(|(v, f)| Some((*v, find(*f, p)?))).collect();
        if o.len() == 3 {
            all += 1;
            kept += r.classes.values().any(|c| o.iter().all(|x| c.contains(x))) as usize;
        }
    }
    let (angle, off, k) = s.error(&snap, rec);
    let lim = limits(c);
    let bad = angle > lim.0 || off > lim.1 || !(k > 0.0);
    obs.rate("poses off", 0.03, bad);
    obs.rate("matches lost", 0.05, kept * 10 < all * 9);
    if std::env::var("SFM_DEBUG").is_ok() {
        println!("init noise {:.1e} angle {:.1e} off {:.1e} k {:.2} kept {}/{} decoys {} slid {} twins {} bad {}", c.noise, angle, off, k, kept, all, c.decoys, c.slid, c.twins, bad);
    }
    obs.nontrivial();
    obs.label_if(c.decoys > 0.0, "decoys");
    obs.label_if(c.slid > 0.0, "slid features");
    obs.label_if(c.twins > 0.0, "twin features");
    obs.label_if(c.noise == 0.0, "exact");
    Ok(())
}

fn join_check(c: &Scene, obs: &mut Obs) -> Check {
    isolated(c.hash, c, obs, join_run)
}
/// A reconstruction with the true poses of all frames but the last, which is then registered.
fn join_run(c: &Scene, obs: &mut Obs) -> Check {
    // Points with two landmarks, which only the same descriptors can show to be one.
    let split = c.seed % 4 == 0 && c.frames > 4;
    let mut s = if split { Scene { bits: 0, ..c.clone() }.build() } else { c.build() };
    let n = s.frames.len() - 1;
    let rec = s.truth(0..n, split);
    let before = snapshot(&s.vs)?;
    let views: Vec<ViewKey> = before.recs[&rec].views.keys().copied().collect();
    let frame = s.frames[n];
    let Some(view) = s.vs.cvcheck_incorporate_frame(rec, frame, views) else {
        chk!(snapshot(&s.vs)?.recs[&rec].views == before.recs[&rec].views, "a failed registration changed views");
        obs.rate("not registered", 0.07, true);
        return Ok(());
    };
    obs.rate("not registered", 0.07, false);
    let snap = snapshot(&s.vs)?;
    chk!(snap.frames[&frame] == Some((rec, view)), "the registered frame has view {:?}", snap.frames[&frame]);
    for (v, p) in &before.recs[&rec].views {
        chk!(snap.recs[&rec].views.get(v) == Some(p), "registering a frame moved view {:?}", v);
    }
    // The new features join the landmarks of their points.
    let r = &snap.recs[&rec];
    let (mut joined, mut all) = (0, 0);
    let (mut merged, mut halves) = (0, 0);
    let mut chance = false;
    for (i, (p, good)) in s.ids[&frame].iter().zip(&s.good[&frame]).enumerate() {
        let class = r.classes.values().find(|c| c.contains(&(view, i))).unwrap();
        s.one_point(r, class, &mut chance)?;
        if *good && s.clean(*p) && s.frames[..n].iter().filter(|f| s.sees(**f, *p)).count() > 1 {
            all += 1;
            joined += (class.len() > 1) as usize;
            // The landmarks with the point that were there before, among them none of a bad feature.
            let known = |o: &(ViewKey, usize)| s.ids[&before.recs[&rec].views[&o.0].0][o.1] == *p;
            let parts: Vec<_> = before.recs[&rec].classes.values().filter(|c| c.iter().any(known)).collect();
            if split && p % 3 == 0 && parts.len() == 2 {
                halves += 1;
                merged += parts.iter().all(|c| c.is_subset(class)) as usize;
            }
        }
    }
    if halves > 4 {
        obs.rate("landmarks of one point not joined", 0.03, merged * 10 < halves * 9);
        obs.label("points with two landmarks");
    }
    obs.rate("matched by chance", 0.02, chance);
    s.registered(&snap, rec, view)?;
    let lim = limits(c);
    let (a, b) = (s.view(rec, view), s.cams[&frame]);
    let (angle, off) = (angle(a.rotation * b.rotation.inverse()), (a.translation.vector - b.translation.vector).norm());
    if std::env::var("SFM_DEBUG").is_ok() {
        println!("join noise {:.1e} angle {:.1e} off {:.1e} joined {}/{} merged {}/{} decoys {} slid {} twins {}", c.noise, angle, off, joined, all, merged, halves, c.decoys, c.slid, c.twins);
    }
    obs.rate("pose off", 0.03, angle > lim.0 || off > lim.1);
    obs.rate("matches lost", 0.05, joined * 10 < all * 9);
    s.constrained_view(&snap, rec, view)?;
    obs.nontrivial();
    obs.label_if(c.decoys > 0.0, "decoys");
    obs.label_if(c.slid > 0.0, "slid features");
    obs.label_if(c.twins > 0.0, "twin features");
    Ok(())
}

impl Shot {
    /// A reconstruction with the true poses of some frames and the true landmarks of good features.
    /// With `split`, every third point has one landmark in the first three views and another in the rest.
    fn truth(&mut self, range: std::ops::Range<usize>, split: bool) -> ReconstructionKey {
        let f = self.frames[range].to_vec();
        let find = |s: &Shot, f: FrameKey, p: usize| s.ids[&f].iter().position(|q| *q == p).filter(|i| s.good[&f][*i]);
        let rel = |s: &Shot, i: usize| cam(s.cams[&f[i]] * s.cams[&f[0]].inverse());
        let (mut both, mut one, mut two) = (vec![], vec![], vec![]);
        for (i, p) in self.ids[&f[0]].iter().enumerate().filter(|(i, _)| self.good[&f[0]][*i]) {
            match (find(self, f[1], *p), find(self, f[2], *p)) {
                (Some(a), Some(b)) => both.push((i, a, b)),
                (Some(a), None) => one.push([i, a]),
                (None, Some(b)) => two.push([i, b]),
                _ => {}
            }
        }
        let (r1, r2) = (rel(self, 1), rel(self, 2));
        let rec = self.vs.data.add_reconstruction(f[0], f[1], f[2], r1, r2, both, one, two);
        // Move it to where the cameras are.
        let views: Vec<(FrameKey, ViewKey)> = f[..3].iter().map(|f| (*f, self.vs.data.frame(*f).view.unwrap().1)).collect();
        for (f, v) in &views {
            self.vs.data.cvcheck_set_pose(rec, *v, world(self.cams[f]));
        }
        let early = &f[..3];
        for f in &f[3..] {
            let mut map: HashMap<usize, Vec<LandmarkKey>> = HashMap::new();
            let snap = snapshot(&self.vs).unwrap();
            let mut of: HashMap<usize, LandmarkKey> = HashMap::new();
            for (l, c) in &snap.recs[&rec].classes {
                let (v, i) = c.iter().next().unwrap();
                let g = snap.recs[&rec].views[v].0;
                if self.good[&g][*i] && !(split && self.ids[&g][*i] % 3 == 0 && early.contains(&g)) {
                    of.insert(self.ids[&g][*i], *l);
                }
            }
            for (i, p) in self.ids[f].iter().enumerate().filter(|(i, _)| self.good[f][*i]) {
                if let Some(l) = of.get(p) {
                    map.insert(i, vec![*l]);
                }
            }
            let v = self.vs.data.cvcheck_add_view(rec, *f, world(self.cams[f]), &map);
            self.vs.cvcheck_record_view_constraints(rec, v);
        }
        rec
    }
    fn constrained_view(&self, snap: &Snap, rec: ReconstructionKey, view: ViewKey) -> Check {
        chk!(snap.recs[&rec].constraints.iter().any(|c| c.0.contains(&view)), "a registered view has no constraint");
        Ok(())
    }
}

fn merge_check(c: &Scene, obs: &mut Obs) -> Check {
    isolated(c.hash, c, obs, merge_run)
}
/// Two reconstructions of the same scene at the same scale become one.
fn merge_run(c: &Scene, obs: &mut Obs) -> Check {
    let mut s = c.build();
    let half = s.frames.len() / 2;
    let n = s.frames.len();
    let (a, b) = (s.truth(0..half, false), s.truth(half..n, false));
    // The source lies somewhere else.
    let w = iso(s.rng.cube() * 5.0, s.rng.rot(3.0));
    let before = snapshot(&s.vs)?;
    for v in before.recs[&a].views.keys() {
        let p = s.view(a, *v) * w;
        s.vs.data.cvcheck_set_pose(a, *v, world(p));
    }
    let before = snapshot(&s.vs)?;
    let views: Vec<ViewKey> = before.recs[&b].views.keys().copied().collect();
    let from: Vec<ViewKey> = before.recs[&a].views.keys().copied().collect();
    let view = from[s.rng.below(from.len())];
    let Some(rec) = s.vs.cvcheck_merge_reconstructions(a, view, b, views) else {
        let after = snapshot(&s.vs)?;
        chk!(after.frames == before.frames && after.recs.keys().eq(before.recs.keys()), "a failed merge changed views");
        obs.rate("not merged", 0.06, true);
        return Ok(());
    };
    obs.rate("not merged", 0.06, false);
    chk!(rec == b, "merging made reconstruction {:?}", rec);
    let snap = snapshot(&s.vs)?;
    chk!(snap.recs.len() == 1, "{} reconstructions are left", snap.recs.len());
    let r = &snap.recs[&b];
    for (v, p) in &before.recs[&b].views {
        chk!(r.views.get(v) == Some(p), "merging moved view {:?}", v);
    }
    let (mut angle, mut off) = (0f64, 0f64);
    for (v, p) in &r.views {
        let (i, t) = (s.view(b, *v), s.cams[&p.0]);
        angle = angle.max(self::angle(i.rotation * t.rotation.inverse()));
        off = off.max((i.translation.vector - t.translation.vector).norm());
    }
    let (mut both, mut all) = (0, 0);
    let mut chance = false;
    let parts = [&before.recs[&a], &before.recs[&b]].map(|r| r.views.values().map(|v| v.0).collect::<BTreeSet<_>>());
    for class in r.classes.values() {
        let ids: BTreeSet<usize> = class.iter().map(|(v, f)| s.ids[&r.views[v].0][*f]).collect();
        s.one_point(r, class, &mut chance)?;
        let frames: BTreeSet<FrameKey> = class.iter().map(|(v, _)| r.views[v].0).collect();
        both += (s.clean(*ids.first().unwrap()) && parts.iter().all(|p| !p.is_disjoint(&frames))) as usize;
    }
    for p in (0..c.points).filter(|p| s.clean(*p)) {
        all += parts.iter().all(|f| f.iter().filter(|f| s.sees(**f, p)).count() > 1) as usize;
    }
    if std::env::var("SFM_DEBUG").is_ok() {
        println!("merge noise {:.1e} angle {:.1e} off {:.1e} views {} of {} both {}/{} decoys {}", c.noise, angle, off, r.views.len(), n, both, all, c.decoys);
    }
    obs.rate("matched by chance", 0.02, chance);
    let lim = limits(c);
    obs.rate("views lost", 0.1, r.views.len() < n);
    obs.rate("poses off", 0.05, angle > lim.0 || off > 3.0 * lim.1);
    obs.rate("landmarks not merged", 0.05, both * 20 < all * 13);
    obs.nontrivial();
    Ok(())
}

fn track_check(c: &Scene, obs: &mut Obs) -> Check {
    isolated(c.hash, c, obs, track_run)
}
/// Frames are localised one after the other.
fn track_run(c: &Scene, obs: &mut Obs) -> Check {
    let mut s = c.build();
    let mut last = snapshot(&s.vs)?;
    let mut chance = false;
    for f in s.frames.clone() {
        if last.frames[&f].is_some() {
            continue;
        }
        let got = s.vs.cvcheck_localize(f);
        last = snapshot(&s.vs)?;
        chk!(got == last.frames[&f] || got.is_none(), "localising returned {:?} for a frame with view {:?}", got, last.frames[&f]);
        for rec in last.recs.keys() {
            s.landmarks(&last, *rec, 1.0 + 1e-6, &mut chance)?;
        }
    }
    let lost = last.frames.values().filter(|v| v.is_none()).count();
    obs.rate("frames lost", 0.1, lost > 0);
    obs.rate("matched by chance", 0.02, chance);
    if lost == c.frames {
        obs.label("no reconstruction");
        return Ok(());
    }
    obs.label_if(last.recs.len() > 1, "several reconstructions");
    let mut worst = (0f64, 0f64);
    for rec in last.recs.keys() {
        let (angle, off, _) = s.error(&last, *rec);
        worst = (worst.0.max(angle), worst.1.max(off));
    }
    if std::env::var("SFM_DEBUG").is_ok() {
        println!("track noise {:.1e} angle {:.1e} off {:.1e} lost {} of {} recs {} decoys {}", c.noise, worst.0, worst.1, lost, c.frames, last.recs.len(), c.decoys);
    }
    let lim = limits(c);
    obs.rate("poses off", 0.05, worst.0 > 2.0 * lim.0 || worst.1 > 2.0 * lim.1);
    obs.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C36: what is stored stays consistent through whole runs, whether their steps succeed or fail

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Life {
    scene: Scene,
    /// Choices of the settings.
    knobs: [u8; 8],
    ops: Vec<(u8, u64)>,
}

fn life_strat() -> BoxedStrategy<Life> {
    (scene_strat(5..9), 24usize..64, prop_oneof![2 => Just(0.0), 1 => Just(0.2)], any::<[u8; 8]>(), 0usize..4, proptest::collection::vec((0u8..22, any::<u64>()), 1..14))
        .prop_map(|(mut scene, points, decoys, knobs, first, mut ops)| {
            for o in ops.iter_mut().take(first.saturating_sub(1)) {
                o.0 = 0;
            }
            scene.points = points;
            scene.decoys = decoys;
            Life { scene, knobs, ops }
        })
        .boxed()
}

fn life_check(c: &Life, obs: &mut Obs) -> Check {
    isolated(c.scene.hash, c, obs, life_run)
}
fn life_run(c: &Life, obs: &mut Obs) -> Check {
    let mut s = c.scene.build();
    let k = |i: usize, of: &[usize]| of[c.knobs[i] as usize % of.len()];
    let set = &mut s.vs.settings;
    set.three_view_patience = 30;
    set.single_view_patience = 60;
    set.constraint_patience = 20;
    set.optimization_iterations = 8;
    set.optimization_minimum_landmarks = 0;
    set.robust_view_num_robust_bearing_pair = k(0, &[0, 0, 0, 4]);
    set.two_view_minimum_robust_matches = k(1, &[6, 8, 16]);
    set.three_view_minimum_robust_matches = k(1, &[6, 8, 16]);
    set.single_view_minimum_landmarks = k(2, &[4, 6]);
    set.single_view_minimum_robust_landmarks = k(2, &[6, 6, 8, 8, 16, 1000]);
    set.optimization_minimum_new_constraints = k(3, &[0, 1, 1, 1, 3, 1000]);
    set.optimization_robust_covisibility_minimum_landmarks = k(4, &[1, 4, 8]);
    set.reconstruction_optimization_iterations = k(5, &[0, 1, 2]);
    set.minimum_robust_landmarks = k(6, &[0, 0, 6]);
    set.robust_minimum_observations = k(7, &[1, 2, 3]);
    set.single_view_match_better_by = 24;
    let mut before = snapshot(&s.vs)?;
    let mut done = 0;
    for (step, &(kind, seed)) in c.ops.iter().enumerate() {
        let op = life_step(&mut s, &before, kind, seed, obs, &mut done).map_err(|m| format!("step {}: {}", step, m))?;
        before = snapshot(&s.vs).map_err(|m| format!("step {} ({}): {}", step, op, m))?;
    }
    if done >= 2 {
        obs.nontrivial();
    }
    Ok(())
}

fn life_step(s: &mut Shot, before: &Snap, kind: u8, seed: u64, obs: &mut Obs, done: &mut usize) -> Result<&'static str, String> {
    let mut r = Rng(seed);
    let mut free: Vec<FrameKey> = before.frames.iter().filter(|(_, v)| v.is_none()).map(|(f, _)| *f).collect();
    r.shuffle(&mut free);
    let mut recs: Vec<ReconstructionKey> = before.recs.keys().copied().collect();
    r.shuffle(&mut recs);
    // All but some reconstructions stay as they are, and so do their frames.
    let others = |s: &Shot, touched: &[ReconstructionKey], op: &str| -> Result<Snap, String> {
        let after = snapshot(&s.vs).map_err(|m| format!("{}: {}", op, m))?;
        for (k, rec) in &before.recs {
            chk!(touched.contains(k) || after.recs.get(k) == Some(rec), "{}: another reconstruction changed", op);
        }
        for (f, v) in &before.frames {
            chk!(v.map_or(true, |v| touched.contains(&v.0)) || after.frames.get(f) == Some(v), "{}: frame {:?} was {:?} and is {:?}", op, f, v, after.frames.get(f));
        }
        Ok(after)
    };
    // Views stay, and landmarks only grow, and grow together only in a view that was not there.
    let grows = |a: &Rec, b: &Rec, strict: bool, op: &str| -> Check {
        for (v, p) in &a.views {
            chk!(b.views.get(v) == Some(p), "{}: view {:?} changed", op, v);
        }
        for c in &a.constraints {
            chk!(b.constraints.contains(c), "{}: a constraint is gone", op);
        }
        let mut seen: BTreeMap<(ViewKey, usize), LandmarkKey> = BTreeMap::new();
        for (l, c) in &b.classes {
            seen.extend(c.iter().map(|o| (*o, *l)));
        }
        let mut of: BTreeMap<LandmarkKey, usize> = BTreeMap::new();
        for c in a.classes.values() {
            let now: BTreeSet<LandmarkKey> = c.iter().map(|o| seen[o]).collect();
            chk!(now.len() == 1, "{}: landmark {:?} fell apart", op, c);
            *of.entry(*now.first().unwrap()).or_default() += 1;
        }
        for (l, n) in of.into_iter().filter(|_| strict) {
            chk!(n == 1 || b.classes[&l].iter().any(|o| !a.views.contains_key(&o.0)), "{}: landmarks grew together to {:?}", op, b.classes[&l]);
        }
        Ok(())
    };
    // A failed attempt may leave landmarks together that it found to be one.
    let same = |a: &Rec, b: &Rec, op: &str| -> Check {
        grows(a, b, false, op)?;
        chk!(a.views.len() == b.views.len() && a.constraints.len() == b.constraints.len(), "{}: {:?} became {:?}", op, a, b);
        Ok(())
    };
    match kind {
        0..=2 if free.len() >= 3 => {
            free.truncate(3 + r.below(3));
            let first = s.frames.clone();
            // A reconstruction of three frames or more with true poses.
            let mut order = free.clone();
            order.extend(first.iter().copied().filter(|f| !free.contains(f)));
            let n = free.len();
            s.frames = order;
            let rec = s.truth(0..n, false);
            s.frames = first;
            others(s, &[rec], "true reconstruction")?;
            obs.label("true reconstruction");
            Ok("true reconstruction")
        }
        3..=5 if free.len() >= 3 => {
            let center = free[0];
            let got = s.vs.cvcheck_init(center, free[1..].to_vec());
            let Some(rec) = got else {
                let after = others(s, &[], "failed start")?;
                chk!(after == *before, "a failed start changed something");
                obs.label("start fails");
                return Ok("start");
            };
            let after = others(s, &[rec], "start")?;
            chk!(after.recs.len() == before.recs.len() + 1 && !before.recs.contains_key(&rec), "{} reconstructions after starting one more than {}", after.recs.len(), before.recs.len());
            let at = |f: &FrameKey| after.frames[f].filter(|v| v.0 == rec).map(|v| v.1);
            let in_it: BTreeSet<ViewKey> = free.iter().filter_map(at).collect();
            chk!(at(&center).is_some() && in_it.len() == 3 && after.recs[&rec].views.keys().all(|v| in_it.contains(v)), "a reconstruction of {:?} started with {:?}", free, after.recs[&rec].views);
            let mut all = 0;
            for class in after.recs[&rec].classes.values() {
                s.fits(rec, class, 1.0 + 1e-6)?;
                all += (class.len() == 3) as usize;
            }
            let least = s.vs.settings.three_view_minimum_robust_matches;
            chk!(all >= least, "a reconstruction started with {} landmarks of all views, {} are needed", all, least);
            obs.label("start");
            *done += 1;
            Ok("start")
        }
        3..=8 if !free.is_empty() => {
            let f = free[0];
            let got = s.vs.cvcheck_localize(f);
            let after = snapshot(&s.vs).map_err(|m| format!("localise: {}", m))?;
            chk!(got.is_none() || got == after.frames[&f], "localise: returned {:?}, but the frame has {:?}", got, after.frames[&f]);
            chk!(after.recs.len() <= before.recs.len() + 1, "localise: {} reconstructions after {}", after.recs.len(), before.recs.len());
            obs.label_if(got.is_some(), "localise");
            *done += got.is_some() as usize;
            Ok("localise")
        }
        9..=12 if !recs.is_empty() && !free.is_empty() => {
            let (rk, f) = (recs[0], free[0]);
            let rec = &before.recs[&rk];
            let mut views: Vec<ViewKey> = rec.views.keys().copied().collect();
            r.shuffle(&mut views);
            views.truncate(1 + r.below(views.len()));
            let got = s.vs.cvcheck_incorporate_frame(rk, f, views);
            let after = others(s, &[rk], "register")?;
            let now = after.recs.get(&rk).ok_or("register: the reconstruction is gone")?;
            match got {
                None => {
                    chk!(after.frames == before.frames, "a failed registration changed frames");
                    same(rec, now, "failed registration")?;
                    obs.label("register fails");
                }
                Some(v) => {
                    chk!(after.frames[&f] == Some((rk, v)) && now.views.len() == rec.views.len() + 1, "a registered frame has {:?}", after.frames[&f]);
                    grows(rec, now, true, "register")?;
                    s.registered(&after, rk, v)?;
                    chk!(now.constraints.iter().all(|c| rec.constraints.contains(c) || c.0.contains(&v)), "registering made constraints of other views");
                    obs.label("register");
                    *done += 1;
                }
            }
            Ok("register")
        }
        13..=16 if recs.len() >= 2 => {
            let (src, dest) = (recs[0], recs[1]);
            let (a, b) = (&before.recs[&src], &before.recs[&dest]);
            let from: Vec<ViewKey> = a.views.keys().copied().collect();
            let view = from[r.below(from.len())];
            let mut views: Vec<ViewKey> = b.views.keys().copied().collect();
            r.shuffle(&mut views);
            views.truncate(1 + r.below(views.len()));
            match s.vs.cvcheck_merge_reconstructions(src, view, dest, views) {
                None => {
                    let after = others(s, &[src, dest], "failed merge")?;
                    chk!(after.frames == before.frames, "after a failed merge the frames are {:?}, before {:?}", after.frames, before.frames);
                    for k in [src, dest] {
                        same(&before.recs[&k], after.recs.get(&k).ok_or("failed merge: a reconstruction is gone")?, "failed merge")?;
                    }
                    obs.label("merge fails");
                }
                Some(k) => {
                    let after = others(s, &[src, dest], "merge")?;
                    chk!(k == dest && !after.recs.contains_key(&src), "merging made {:?} of {:?} and {:?}", k, src, dest);
                    let now = after.recs.get(&dest).ok_or("merge: the reconstruction is gone")?;
                    grows(b, now, true, "merge")?;
                    let frames: BTreeSet<FrameKey> = now.views.values().map(|v| v.0).collect();
                    let parts = [a, b].map(|r| r.views.values().map(|v| v.0).collect::<BTreeSet<_>>());
                    chk!(frames.contains(&a.views[&view].0), "merge: the common frame has no view");
                    chk!(frames.iter().all(|f| parts.iter().any(|p| p.contains(f))), "merge: a frame came from elsewhere");
                    // What one landmark joined, as far as it is still there, one landmark joins.
                    let new: BTreeMap<FrameKey, ViewKey> = now.views.iter().map(|(v, f)| (f.0, *v)).collect();
                    for class in a.classes.values() {
                        let moved: BTreeSet<(ViewKey, usize)> = class.iter().filter(|(v, _)| *v != view).filter_map(|(v, i)| Some((*new.get(&a.views[v].0)?, *i))).collect();
                        let of = now.classes.values().filter(|c| !c.is_disjoint(&moved)).count();
                        chk!(of <= 1, "merge: landmark {:?} fell apart", class);
                    }
                    obs.label("merge");
                    obs.label_if(frames.len() < parts[0].len() + parts[1].len(), "merge loses views");
                    *done += 1;
                }
            }
            Ok("merge")
        }
        17 if !recs.is_empty() => {
            let did = s.vs.optimize_reconstruction(recs[0]).is_some();
            let after = others(s, &[recs[0]], "optimise")?;
            chk!(did == after.recs.contains_key(&recs[0]), "optimising returned {}", did);
            obs.label_if(did, "optimise");
            Ok("optimise")
        }
        18 if !recs.is_empty() => {
            s.vs.filter_non_robust_observations(recs[0]);
            others(s, &[recs[0]], "filter observations")?;
            Ok("filter observations")
        }
        19 if !recs.is_empty() => {
            let views: Vec<ViewKey> = before.recs[&recs[0]].views.keys().copied().collect();
            if views.len() > 3 {
                s.vs.data.cvcheck_remove_view(recs[0], views[r.below(views.len())]);
                others(s, &[recs[0]], "remove view")?;
            }
            Ok("remove view")
        }
        20 | 21 if !recs.is_empty() => {
            // Several features leave their landmarks.
            let rec = &before.recs[&recs[0]];
            for (v, f) in &rec.views {
                for i in 0..s.ids[&f.0].len() {
                    if r.chance(0.3) {
                        s.vs.data.cvcheck_split_observation(recs[0], *v, i);
                    }
                }
            }
            others(s, &[recs[0]], "split")?;
            Ok("split")
        }
        _ => Ok("nothing"),
    }
}

pub fn life_law() -> Law {
    law("lifecycle", "1-13 steps (start, localise, register, join, optimise, filter, remove, split) on 5-8 frames of 24-63 points under varied settings; non-trivial: two frames or reconstructions are put together", 1_600, 40_000, life_strat, life_check)
}

pub fn property(assumptions: &'static [&'static str]) -> Property {
    Property {
        id: "C40",
        assumptions,
        laws: vec![
            law("start", "3-5 frames of 80-140 points with noise, clutter and decoys; non-trivial: a reconstruction starts", 400, 10_000, || scene_strat(3..6), start_check),
            law("join", "3-5 frames with true poses and another one; non-trivial: it is registered", 1_000, 10_000, || scene_strat(4..7), join_check),
            law("merge", "two reconstructions of three or four frames with true poses; non-trivial: they are merged", 400, 5_000, || scene_strat(6..9), merge_check),
            law("track", "3-7 frames localised in order; non-trivial: a reconstruction is there in the end", 300, 5_000, || scene_strat(3..8), track_check),
        ],
    }
}
