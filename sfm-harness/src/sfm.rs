use crate::base::*;
use crate::fw::*;
use cv_core::nalgebra::IsometryMatrix3;
use cv_core::{Pose, WorldToWorld};
use cv_sfm::*;
use proptest::prelude::{any, prop, prop_oneof, BoxedStrategy, Just, Strategy};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};

// ---------------------------------------------------------------------------------------------
// C36: histories of views and landmarks

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    hash: u64,
    seed: u64,
    points: usize,
    min_new: usize,
    min_robust: usize,
    noise: f64,
    ops: Vec<(u8, u64)>,
}

pub fn history_strat() -> BoxedStrategy<History> {
    (
        any::<u64>(),
        any::<u64>(),
        prop_oneof![15 => 3usize..12, 1 => 12usize..40],
        prop_oneof![3 => Just(0usize), 1 => 1usize..3],
        prop_oneof![3 => Just(0usize), 1 => 1usize..4],
        prop_oneof![Just(0.0), Just(1e-3), Just(0.05)],
        prop::collection::vec((0u8..32, any::<u64>()), 1..40),
    )
        .prop_map(|(hash, seed, points, min_new, min_robust, noise, ops)| History { hash, seed, points, min_new, min_robust, noise, ops })
        .boxed()
}

/// Generated frames: features[frame][feature] is the point of the scene that it observes.
struct World {
    rng: Rng,
    points: Vec<V3>,
    noise: f64,
    cams: BTreeMap<FrameKey, IsometryMatrix3<f64>>,
    sees: BTreeMap<FrameKey, Vec<usize>>,
}

impl World {
    fn new(seed: u64, points: usize, noise: f64) -> Self {
        let mut rng = Rng(seed);
        let points = (0..points).map(|_| V3::new(0.0, 0.0, 6.0) + rng.cube() * 2.0).collect();
        World { rng, points, noise, cams: BTreeMap::new(), sees: BTreeMap::new() }
    }
    fn add_frame(&mut self, vs: &mut Vs, feed: FeedKey) -> FrameKey {
        let c = camera(&mut self.rng, 1.5, 0.5);
        let mut ids: Vec<usize> = (0..self.points.len()).collect();
        self.rng.shuffle(&mut ids);
        let n = self.rng.below(self.points.len() + 1);
        ids.truncate(n);
        let features = ids
            .iter()
            .map(|&p| {
                let b = bearing_of(&c, self.points[p]) + self.rng.cube() * self.noise;
                (self.rng.bits(), feature(uv(b), [0; 3]))
            })
            .collect();
        let f = vs.data.cvcheck_add_features(feed, features);
        self.cams.insert(f, c);
        self.sees.insert(f, ids);
        f
    }
    /// Random one-to-one pairs of the features of two frames, most of them of the same point.
    fn pairs(&mut self, a: FrameKey, b: FrameKey) -> Vec<[usize; 2]> {
        let (sa, mut free) = (self.sees[&a].clone(), (0..self.sees[&b].len()).collect::<Vec<_>>());
        let mut out = vec![];
        for (i, p) in sa.iter().enumerate() {
            if free.is_empty() || self.rng.chance(0.2) {
                continue;
            }
            let same = free.iter().position(|&j| self.sees[&b][j] == *p);
            let at = match same {
                Some(at) if self.rng.chance(0.9) => at,
                _ if self.rng.chance(0.3) => self.rng.below(free.len()),
                _ => continue,
            };
            out.push([i, free.swap_remove(at)]);
        }
        out
    }
}

pub fn quick_settings(r: &mut Rng) -> VSlamSettings {
    let mut s = VSlamSettings::default();
    s.maximum_cosine_distance = 10f64.powf(r.range(-6.0, -2.0));
    s.maximum_sine_distance = 10f64.powf(r.range(-3.0, -0.5));
    s.robust_minimum_observations = 1 + r.below(4);
    s.robust_observation_incidence_minimum_cosine_distance = 10f64.powf(r.range(-4.0, -1.5));
    s.minimum_robust_landmarks = 0;
    s.optimization_minimum_new_constraints = 0;
    s.optimization_iterations = 2;
    s.optimization_minimum_landmarks = 1;
    s.optimization_robust_covisibility_minimum_landmarks = 1 + r.below(3);
    s.robust_view_num_robust_bearing_pair = r.below(2);
    s.constraint_patience = 3;
    s.graph_optimization_rate = 0.05;
    s
}

pub fn singles(c: &Class) -> impl Iterator<Item = Class> + '_ {
    c.iter().map(|&o| [o].into_iter().collect())
}

/// All classes of `after` are what is left of one of `before` or a single observation of one.
fn refines(before: &Rec, after: &Rec, gone: &BTreeSet<ViewKey>) -> Check {
    for c in before.classes.values() {
        let kept: Class = c.iter().filter(|(v, _)| !gone.contains(v)).copied().collect();
        let parts: Vec<&Class> = after.classes.values().filter(|d| d.iter().any(|o| kept.contains(o))).collect();
        chk!(parts.iter().filter(|d| d.len() > 1).count() <= 1, "{:?} became several landmarks with more than one observation: {:?}", c, parts);
        chk!(parts.iter().all(|d| d.is_subset(&kept)), "{:?} was joined with others: {:?}", c, parts);
    }
    Ok(())
}

fn same_poses(before: &Rec, after: &Rec) -> Check {
    for (v, p) in &after.views {
        chk!(before.views.get(v).map_or(true, |q| q == p), "view {:?} was {:?} and is {:?}", v, before.views.get(v), p);
    }
    Ok(())
}

/// Views and frames are those of before except `gone`.
fn views_without(before: &Rec, after: &Rec, gone: &BTreeSet<ViewKey>) -> Check {
    let a: BTreeMap<_, _> = before.views.iter().filter(|(v, _)| !gone.contains(v)).map(|(v, f)| (*v, f.0)).collect();
    let b: BTreeMap<_, _> = after.views.iter().map(|(v, f)| (*v, f.0)).collect();
    chk!(a == b, "views were {:?}, expected without {:?}, are {:?}", before.views, gone, after.views);
    Ok(())
}

pub fn history_check(c: &History, obs: &mut Obs) -> Check {
    isolated(c.hash, c, obs, history_run)
}

fn history_run(c: &History, obs: &mut Obs) -> Check {
    let mut r = Rng(c.seed);
    let mut settings = quick_settings(&mut r);
    settings.optimization_minimum_new_constraints = c.min_new;
    settings.minimum_robust_landmarks = c.min_robust;
    let mut vs = vslam(settings, c.seed);
    let feed = vs.add_feed(intrinsics());
    let mut w = World::new(r.next(), c.points, c.noise);
    for _ in 0..4 {
        w.add_frame(&mut vs, feed);
    }
    let mut before = snapshot(&vs)?;
    let (mut changes, mut most_views) = (0, 0);
    for (step, &(kind, seed)) in c.ops.iter().enumerate() {
        let op = history_step(&mut vs, &mut w, feed, &before, kind, seed, obs).map_err(|m| format!("step {}: {}", step, m))?;
        let after = snapshot(&vs).map_err(|m| format!("step {} ({}): {}", step, op, m))?;
        if after != before {
            changes += 1;
        }
        most_views = most_views.max(after.recs.values().map(|r| r.views.len()).max().unwrap_or(0));
        before = after;
    }
    if changes >= 5 && most_views >= 3 {
        obs.nontrivial();
    }
    Ok(())
}

#[allow(clippy::too_many_lines)]
fn history_step(vs: &mut Vs, w: &mut World, feed: FeedKey, before: &Snap, kind: u8, seed: u64, obs: &mut Obs) -> Result<&'static str, String> {
    let mut r = Rng(seed);
    let free: Vec<FrameKey> = before.frames.iter().filter(|(_, v)| v.is_none()).map(|(f, _)| *f).collect();
    let recs: Vec<ReconstructionKey> = before.recs.keys().copied().collect();
    // The other reconstructions must stay as they are.
    let others = |vs: &Vs, touched: &[ReconstructionKey], op: &str| -> Result<Snap, String> {
        let after = snapshot(vs).map_err(|m| format!("{}: {}", op, m))?;
        for (k, rec) in &before.recs {
            chk!(touched.contains(k) || after.recs.get(k) == Some(rec), "{}: another reconstruction changed", op);
        }
        for (f, v) in &before.frames {
            let of = v.map(|v| v.0);
            let is = after.frames.get(f).ok_or("a frame is gone")?;
            chk!(of.is_none() || touched.contains(&of.unwrap()) || is == v, "{}: frame {:?} was {:?} and is {:?}", op, f, v, is);
        }
        Ok(after)
    };
    if kind < 3 || recs.is_empty() && free.len() < 3 {
        w.add_frame(vs, feed);
        let after = others(vs, &[], "add frame")?;
        chk!(after.frames.len() == before.frames.len() + 1 && after.recs == before.recs, "adding a frame changed more than that");
        return Ok("add frame");
    }
    if (kind < 6 || recs.is_empty()) && free.len() >= 3 {
        let mut f = free.clone();
        r.shuffle(&mut f);
        let (ce, fi, se) = (f[0], f[1], f[2]);
        let (mf, ms) = (w.pairs(ce, fi), w.pairs(ce, se));
        let map: HashMap<usize, usize> = ms.iter().map(|&[c, s]| (c, s)).collect();
        let combined: Vec<_> = mf.iter().filter_map(|&[c, f]| map.get(&c).map(|&s| (c, f, s))).collect();
        let both: BTreeSet<usize> = combined.iter().map(|m| m.0).collect();
        let only = |v: &[[usize; 2]]| v.iter().filter(|m| !both.contains(&m[0])).copied().collect::<Vec<_>>();
        let (mf, ms) = (only(&mf), only(&ms));
        let rel = |k: FrameKey| w.cams[&k] * w.cams[&ce].inverse();
        let rec = vs.data.add_reconstruction(ce, fi, se, cam(rel(fi)), cam(rel(se)), combined.clone(), mf.clone(), ms.clone());
        let after = others(vs, &[rec], "add reconstruction")?;
        let got = &after.recs[&rec];
        let view = |f: FrameKey| after.frames[&f].filter(|v| v.0 == rec).map(|v| v.1);
        let (Some(vc), Some(vf), Some(vsec)) = (view(ce), view(fi), view(se)) else { return Err("add reconstruction: a frame has no view".into()) };
        chk!(got.views.len() == 3, "a new reconstruction has {} views", got.views.len());
        for (v, i) in [(vc, IsometryMatrix3::identity()), (vf, rel(fi)), (vsec, rel(se))] {
            chk!(got.views[&v].1 == numbers(&i), "a new view has pose {:?} instead of {:?}", got.views[&v].1, i);
        }
        let mut want: BTreeSet<Class> = BTreeSet::new();
        for c in 0..w.sees[&ce].len() {
            let mut class: Class = [(vc, c)].into_iter().collect();
            class.extend(combined.iter().filter(|m| m.0 == c).flat_map(|m| [(vf, m.1), (vsec, m.2)]));
            class.extend(mf.iter().filter(|m| m[0] == c).map(|m| (vf, m[1])));
            class.extend(ms.iter().filter(|m| m[0] == c).map(|m| (vsec, m[1])));
            want.insert(class);
        }
        for (f, v) in [(fi, vf), (se, vsec)] {
            for i in 0..w.sees[&f].len() {
                if !want.iter().any(|c| c.contains(&(v, i))) {
                    want.insert([(v, i)].into_iter().collect());
                }
            }
        }
        chk!(got.partition() == want, "a new reconstruction has landmarks {:?}, expected {:?}", got.partition(), want);
        // Its constraint leads from the pose of its first view to those of the others.
        chk!(got.constraints.len() == 1, "a new reconstruction has {} constraints", got.constraints.len());
        let (views, poses) = &got.constraints[0];
        for (k, p) in poses.iter().enumerate() {
            let a = vs.data.pose(rec, views[0]).isometry();
            let b = vs.data.pose(rec, views[k + 1]).isometry();
            let d = (p * a).to_homogeneous() - b.to_homogeneous();
            chk!(d.amax() <= 1e-9 * (1.0 + b.translation.vector.norm()), "the constraint of a new reconstruction does not lead from view to view: {:?}", d);
        }
        obs.label("add reconstruction");
        return Ok("add reconstruction");
    }
    if recs.is_empty() {
        return Ok("nothing");
    }
    let rk = recs[r.below(recs.len())];
    let rec = &before.recs[&rk];
    let lks: Vec<LandmarkKey> = rec.classes.keys().copied().collect();
    let vks: Vec<ViewKey> = rec.views.keys().copied().collect();
    let none = BTreeSet::new();
    // Optimising gives up reconstructions with fewer than three constrained views; let most live on.
    let bound: BTreeSet<ViewKey> = rec.constraints.iter().flat_map(|c| c.0).collect();
    if kind >= 29 && bound.len() < 3 && !r.chance(0.1) {
        return Ok("nothing");
    }
    match kind {
        3 if !vks.is_empty() => {
            let v = vks[r.below(vks.len())];
            let did = vs.cvcheck_record_view_constraints(rk, v);
            let after = others(vs, &[rk], "record constraints")?;
            let got = &after.recs[&rk];
            chk!(got.classes == rec.classes && got.views == rec.views, "recording constraints changed more than those");
            chk!(rec.constraints.iter().all(|c| got.constraints.contains(c)), "recording constraints removed one");
            chk!(did || got.constraints.len() == rec.constraints.len(), "constraints were recorded although there are too few");
            obs.label_if(got.constraints.len() > rec.constraints.len(), "constraints recorded");
            Ok("record constraints")
        }
        3..=12 if !free.is_empty() => {
            // A new view whose features join one or two landmarks.
            let f = free[r.below(free.len())];
            let mut taken: BTreeSet<LandmarkKey> = BTreeSet::new();
            let mut map: HashMap<usize, Vec<LandmarkKey>> = HashMap::new();
            let point = |l: LandmarkKey| {
                let (v, i) = rec.classes[&l].iter().next().unwrap();
                w.sees[&rec.views[v].0][*i]
            };
            for i in 0..w.sees[&f].len() {
                if r.chance(0.2) {
                    continue;
                }
                let random = r.chance(0.1);
                let mut pick: Vec<LandmarkKey> = lks.iter().copied().filter(|l| !taken.contains(l) && (random || point(*l) == w.sees[&f][i])).collect();
                r.shuffle(&mut pick);
                pick.truncate(2);
                if pick.len() == 2 {
                    let views: BTreeSet<ViewKey> = rec.classes[&pick[0]].iter().map(|o| o.0).collect();
                    if r.chance(0.3) || rec.classes[&pick[1]].iter().any(|o| views.contains(&o.0)) {
                        pick.pop();
                    }
                }
                if !pick.is_empty() {
                    taken.extend(pick.iter().copied());
                    map.insert(i, pick);
                }
            }
            let pose = w.cams[&f];
            let v = vs.data.cvcheck_add_view(rk, f, world(pose), &map);
            let after = others(vs, &[rk], "add view")?;
            let got = &after.recs[&rk];
            chk!(after.frames[&f] == Some((rk, v)), "the frame of a new view has view {:?}", after.frames[&f]);
            same_poses(rec, got)?;
            chk!(got.views.len() == rec.views.len() + 1 && got.views.get(&v).map(|x| x.1) == Some(numbers(&pose)), "the new view is {:?}", got.views.get(&v));
            let mut want: BTreeSet<Class> = rec.classes.iter().filter(|(l, _)| !taken.contains(l)).map(|(_, c)| c.clone()).collect();
            for i in 0..w.sees[&f].len() {
                let mut class: Class = [(v, i)].into_iter().collect();
                for l in map.get(&i).into_iter().flatten() {
                    class.extend(rec.classes[l].iter().copied());
                }
                want.insert(class);
            }
            chk!(got.partition() == want, "after adding a view with {:?} the landmarks are {:?}, expected {:?}", map, got.partition(), want);
            chk!(got.constraints == rec.constraints, "adding a view changed constraints");
            obs.label("add view");
            obs.label_if(map.values().any(|v| v.len() == 2), "add view that merges landmarks");
            Ok("add view")
        }
        13 | 14 if lks.len() >= 2 => {
            // Two landmarks without a common view.
            let a = lks[r.below(lks.len())];
            let views: BTreeSet<ViewKey> = rec.classes[&a].iter().map(|o| o.0).collect();
            let fit: Vec<_> = lks.iter().copied().filter(|b| *b != a && rec.classes[b].iter().all(|o| !views.contains(&o.0))).collect();
            if fit.is_empty() {
                return Ok("nothing");
            }
            let b = fit[r.below(fit.len())];
            let k = vs.data.merge_landmarks(rk, a, b);
            let after = others(vs, &[rk], "merge landmarks")?;
            let got = &after.recs[&rk];
            let union: Class = rec.classes[&a].union(&rec.classes[&b]).copied().collect();
            chk!(got.classes.get(&k) == Some(&union), "merging gave {:?} instead of {:?}", got.classes.get(&k), union);
            let mut want = rec.partition();
            want.remove(&rec.classes[&a]);
            want.remove(&rec.classes[&b]);
            want.insert(union);
            chk!(got.partition() == want && got.views == rec.views && got.constraints == rec.constraints, "merging two landmarks changed others");
            obs.label("merge landmarks");
            Ok("merge landmarks")
        }
        15..=17 if lks.len() >= 2 => {
            let a = lks[r.below(lks.len())];
            let mut b = lks[r.below(lks.len())];
            if r.chance(0.5) {
                // Prefer landmarks that share views.
                let views: BTreeSet<ViewKey> = rec.classes[&a].iter().map(|o| o.0).collect();
                if let Some(x) = lks.iter().filter(|x| **x != a).max_by_key(|x| rec.classes[x].iter().filter(|o| views.contains(&o.0)).count()) {
                    b = *x;
                }
            }
            if a == b {
                return Ok("nothing");
            }
            let res = vs.merge_landmarks_dedup(rk, a, b);
            let after = others(vs, &[rk], "merge with common views")?;
            let got = &after.recs[&rk];
            let (ca, cb) = (&rec.classes[&a], &rec.classes[&b]);
            let union: Class = ca.union(cb).copied().collect();
            let views_a: BTreeSet<ViewKey> = ca.iter().map(|o| o.0).collect();
            let shared: BTreeSet<ViewKey> = cb.iter().map(|o| o.0).filter(|v| views_a.contains(v)).collect();
            chk!(got.views == rec.views && got.constraints == rec.constraints, "merging two landmarks changed views");
            for (l, c) in rec.classes.iter().filter(|(l, _)| **l != a && **l != b) {
                chk!(got.classes.get(l) == Some(c), "merging two landmarks changed another: {:?} to {:?}", c, got.classes.get(l));
            }
            let inside: Vec<&Class> = got.classes.values().filter(|c| c.iter().any(|o| union.contains(o))).collect();
            match res {
                Some(k) => {
                    let m = got.classes.get(&k).ok_or("the merged landmark does not exist")?;
                    let vm: BTreeSet<ViewKey> = m.iter().map(|o| o.0).collect();
                    let vu: BTreeSet<ViewKey> = union.iter().map(|o| o.0).collect();
                    chk!(m.is_subset(&union) && vm == vu, "merging {:?} and {:?} gave {:?}", ca, cb, m);
                    chk!(inside.iter().all(|c| *c == m || c.len() == 1), "merging {:?} and {:?} left {:?}", ca, cb, inside);
                    obs.label_if(!shared.is_empty(), "merge with common views");
                }
                None => {
                    chk!(!shared.is_empty(), "landmarks without a common view were not merged: {:?} {:?}", ca, cb);
                    // One of the two lost all it had.
                    let all_in_common = |c: &Class| c.iter().all(|o| shared.contains(&o.0));
                    chk!(all_in_common(ca) || all_in_common(cb), "{:?} and {:?} were not merged", ca, cb);
                    chk!(
                        inside.iter().all(|c| c.is_subset(ca) || c.is_subset(cb)) && inside.iter().filter(|c| c.len() > 1).count() <= 2,
                        "a failed merge of {:?} and {:?} left {:?}", ca, cb, inside
                    );
                    let gone = union.iter().filter(|o| !shared.contains(&o.0)).find(|o| {
                        let l = if ca.contains(o) { a } else { b };
                        !got.classes.get(&l).map_or(false, |c| c.contains(o))
                    });
                    chk!(gone.is_none(), "a failed merge of {:?} and {:?} split {:?}, whose view has one of them", ca, cb, gone);
                    obs.label("merge gave way");
                }
            }
            Ok("merge with common views")
        }
        18 if !lks.is_empty() => {
            let l = lks[r.below(lks.len())];
            let all: Vec<_> = rec.classes[&l].iter().copied().collect();
            let o = all[r.below(all.len())];
            let did = vs.data.cvcheck_split_observation(rk, o.0, o.1);
            let after = others(vs, &[rk], "split observation")?;
            let got = &after.recs[&rk];
            chk!(did == (all.len() > 1), "splitting one of {} observations returned {}", all.len(), did);
            let mut want = rec.partition();
            want.remove(&rec.classes[&l]);
            let rest: Class = all.iter().copied().filter(|x| *x != o).collect();
            if !rest.is_empty() {
                chk!(got.classes.get(&l) == Some(&rest), "the split landmark is {:?}", got.classes.get(&l));
                want.insert(rest);
            }
            want.insert([o].into_iter().collect());
            chk!(got.partition() == want && got.views == rec.views && got.constraints == rec.constraints, "splitting an observation changed others");
            obs.label("split observation");
            Ok("split observation")
        }
        19 if !lks.is_empty() => {
            let l = lks[r.below(lks.len())];
            vs.cvcheck_split_landmark(rk, l);
            let after = others(vs, &[rk], "split landmark")?;
            let got = &after.recs[&rk];
            let mut want = rec.partition();
            want.remove(&rec.classes[&l]);
            want.extend(singles(&rec.classes[&l]));
            chk!(got.partition() == want && got.views == rec.views && got.constraints == rec.constraints, "splitting a landmark: {:?}, expected {:?}", got.partition(), want);
            obs.label("split landmark");
            Ok("split landmark")
        }
        20 | 21 if vks.len() > 1 => {
            let v = vks[r.below(vks.len())];
            vs.data.cvcheck_remove_view(rk, v);
            let after = others(vs, &[rk], "remove view")?;
            let got = &after.recs[&rk];
            views_without(rec, got, &[v].into_iter().collect())?;
            same_poses(rec, got)?;
            for (l, c) in &rec.classes {
                let rest: Class = c.iter().copied().filter(|o| o.0 != v).collect();
                chk!(got.classes.get(l) == Some(&rest).filter(|c| !c.is_empty()), "removing {:?} made {:?} {:?}", v, c, got.classes.get(l));
            }
            let count = |rec: &Rec| rec.constraints.iter().filter(|c| !c.0.contains(&v)).count();
            chk!(got.constraints.len() == count(rec), "removing a view left {} of {} constraints", got.constraints.len(), count(rec));
            obs.label("remove view");
            Ok("remove view")
        }
        22 | 23 => {
            let did = vs.filter_non_robust_observations(rk).is_some();
            let after = others(vs, &[rk], "filter observations")?;
            chk!(did == after.recs.contains_key(&rk), "filtering returned {} and left {}", did, after.recs.contains_key(&rk));
            if let Some(got) = after.recs.get(&rk) {
                refines(rec, got, &none)?;
                chk!(got.views == rec.views && got.constraints == rec.constraints, "filtering changed views");
                obs.label_if(got.classes.len() > rec.classes.len(), "filter observations");
            } else {
                obs.label("reconstruction given up");
            }
            Ok("filter observations")
        }
        24 => {
            vs.filter_non_robust_landmarks(rk);
            let after = others(vs, &[rk], "filter landmarks")?;
            let got = &after.recs[&rk];
            let mut n = 0;
            for c in rec.classes.values() {
                let kept = got.classes.values().any(|d| d == c);
                n += (!kept) as usize;
                chk!(kept || singles(c).all(|s| got.classes.values().any(|d| *d == s)), "filtering left a part of landmark {:?}", c);
            }
            refines(rec, got, &none)?;
            chk!(got.views == rec.views && got.constraints == rec.constraints, "filtering changed views");
            obs.label_if(n > 0, "filter landmarks");
            Ok("filter landmarks")
        }
        25 if !vks.is_empty() => {
            vs.normalize_reconstruction(rk);
            let after = others(vs, &[rk], "normalise")?;
            let got = &after.recs[&rk];
            chk!(got.classes == rec.classes, "normalising changed landmarks");
            views_without(rec, got, &none)?;
            Ok("normalise")
        }
        26..=28 if recs.len() >= 2 => {
            // All views of another reconstruction.
            let src = *recs.iter().find(|k| **k != rk).unwrap();
            let srec = &before.recs[&src];
            let mut open = lks.clone();
            r.shuffle(&mut open);
            let mut map: HashMap<LandmarkKey, LandmarkKey> = HashMap::new();
            for l in srec.classes.keys() {
                if r.chance(0.6) {
                    if let Some(d) = open.pop() {
                        map.insert(*l, d);
                    }
                }
            }
            let t = iso(r.cube() * 3.0, r.rot(3.0));
            let poses: BTreeMap<FrameKey, IsometryMatrix3<f64>> =
                srec.views.iter().map(|(v, f)| (f.0, vs.data.pose(src, *v).isometry() * t.inverse())).collect();
            vs.incorporate_reconstruction(src, rk, WorldToWorld(t), map.clone());
            let after = others(vs, &[rk, src], "incorporate reconstruction")?;
            chk!(!after.recs.contains_key(&src), "the incorporated reconstruction still exists");
            let got = after.recs.get(&rk).ok_or("the reconstruction is gone")?;
            same_poses(rec, got)?;
            // Old view to new view; a view without enough constraints is dropped and its frame free.
            let mut new: BTreeMap<ViewKey, ViewKey> = BTreeMap::new();
            for (v, f) in &srec.views {
                match after.frames[&f.0] {
                    Some((k, n)) => {
                        chk!(k == rk && !new.values().any(|x| *x == n), "a frame moved to {:?}", (k, n));
                        let d = got.views[&n].1.iter().zip(numbers(&poses[&f.0])).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max);
                        chk!(d < 1e-9 * (1.0 + poses[&f.0].translation.vector.norm()), "a moved view is off by {:e}", d);
                        new.insert(*v, n);
                    }
                    None => chk!(vs.settings.optimization_minimum_new_constraints > 0, "a moved view was dropped"),
                }
            }
            chk!(got.views.len() == rec.views.len() + new.len(), "{} views and {} make {}", rec.views.len(), new.len(), got.views.len());
            let moved = |c: &Class| -> Class { c.iter().filter_map(|(v, i)| new.get(v).map(|n| (*n, *i))).collect() };
            let back: HashMap<LandmarkKey, LandmarkKey> = map.iter().map(|(s, d)| (*d, *s)).collect();
            let mut want: BTreeSet<Class> = BTreeSet::new();
            for (l, c) in &rec.classes {
                let mut c = c.clone();
                if let Some(s) = back.get(l) {
                    c.extend(moved(&srec.classes[s]));
                }
                want.insert(c);
            }
            for (l, c) in &srec.classes {
                if !map.contains_key(l) {
                    let c = moved(c);
                    if !c.is_empty() {
                        want.insert(c);
                    }
                }
            }
            chk!(got.partition() == want, "incorporating gave landmarks {:?}, expected {:?}", got.partition(), want);
            for c in &rec.constraints {
                chk!(got.constraints.contains(c), "incorporating removed a constraint");
            }
            obs.label("incorporate reconstruction");
            obs.label_if(new.len() < srec.views.len(), "views dropped");
            Ok("incorporate reconstruction")
        }
        29 if r.chance(0.2) => {
            vs.data.cvcheck_remove_reconstruction(rk);
            let after = others(vs, &[rk], "remove reconstruction")?;
            chk!(!after.recs.contains_key(&rk), "the removed reconstruction exists");
            obs.label("remove reconstruction");
            Ok("remove reconstruction")
        }
        29 | 30 => {
            let did = vs.optimize_reconstruction(rk).is_some();
            let after = others(vs, &[rk], "optimise")?;
            chk!(did == after.recs.contains_key(&rk), "optimising returned {} and left {}", did, after.recs.contains_key(&rk));
            if let Some(got) = after.recs.get(&rk) {
                let gone: BTreeSet<ViewKey> = vks.iter().copied().filter(|v| !got.views.contains_key(v)).collect();
                views_without(rec, got, &gone)?;
                chk!(gone.iter().all(|v| !rec.constraints.iter().any(|c| c.0.contains(v))), "optimising removed a view with constraints");
                refines(rec, got, &gone)?;
                obs.label("optimise");
                obs.label_if(!gone.is_empty(), "optimise removes views");
            } else {
                obs.label("reconstruction given up");
            }
            Ok("optimise")
        }
        _ => {
            let did = vs.regenerate_reconstruction(rk).is_some();
            let after = others(vs, &[rk], "regenerate")?;
            chk!(did == after.recs.contains_key(&rk), "regenerating returned {} and left {}", did, after.recs.contains_key(&rk));
            if let Some(got) = after.recs.get(&rk) {
                let gone: BTreeSet<ViewKey> = vks.iter().copied().filter(|v| !got.views.contains_key(v)).collect();
                views_without(rec, got, &gone)?;
                refines(rec, got, &gone)?;
                obs.label("regenerate");
            } else {
                obs.label("reconstruction given up");
            }
            Ok("regenerate")
        }
    }
}

