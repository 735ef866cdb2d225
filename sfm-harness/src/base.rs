//! Frames and reconstructions of generated scenes, and snapshots of what the library stores.
use crate::fw::*;
use cv_core::nalgebra::{IsometryMatrix3, Rotation3, Translation3, UnitVector3, Vector3};
use cv_core::{CameraToCamera, Pose, WorldToCamera};
use cv_geom::triangulation::LinearEigenTriangulator;
use cv_pinhole::{CameraIntrinsics, CameraIntrinsicsK1Distortion};
use cv_sfm::*;
use rand_pcg::Pcg64;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Vs = VSlam<
    arrsac::Arrsac<Pcg64>,
    arrsac::Arrsac<Pcg64>,
    lambda_twist::LambdaTwist,
    eight_point::EightPoint,
    LinearEigenTriangulator,
    Pcg64,
>;
pub type Bits = bitarray::BitArray<64>;
pub type V3 = Vector3<f64>;

thread_local! {
    static HASH: Cell<u64> = const { Cell::new(0) };
}

/// The standard library takes the keys of its hash maps from here, so that the order in which the
/// library walks its maps is part of the case.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut r = Rng(HASH.try_with(|h| h.get()).unwrap_or(0));
    for i in 0..len {
        *buf.add(i) = r.next() as u8;
    }
    len as isize
}

/// Runs a check in a thread of its own, in which all hash maps are ordered by `hash`.
pub fn isolated<C: Sync>(hash: u64, case: &C, obs: &mut Obs, check: fn(&C, &mut Obs) -> Check) -> Check {
    let (r, o) = std::thread::scope(|s| {
        let t = s.spawn(move || {
            HASH.with(|h| h.set(hash));
            let mut o = Obs::default();
            let r = guarded(check, case, &mut o);
            (r, o)
        });
        t.join().expect("the thread of a case")
    });
    *obs = o;
    r
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn gauss(&mut self) -> f64 {
        (-2.0 * (1.0 - self.unit()).ln()).sqrt() * (std::f64::consts::TAU * self.unit()).cos()
    }
    pub fn cube(&mut self) -> V3 {
        V3::new(self.range(-1.0, 1.0), self.range(-1.0, 1.0), self.range(-1.0, 1.0))
    }
    pub fn dir(&mut self) -> V3 {
        V3::new(self.gauss(), self.gauss(), self.gauss()).normalize()
    }
    pub fn rot(&mut self, max: f64) -> Rotation3<f64> {
        let d = self.dir();
        Rotation3::new(d * self.range(0.0, max))
    }
    pub fn bits(&mut self) -> Bits {
        let mut b = Bits::zeros();
        for c in b.bytes_mut().chunks_mut(8) {
            c.copy_from_slice(&self.next().to_le_bytes());
        }
        b
    }
    pub fn flip(&mut self, b: &mut Bits, n: usize) {
        for _ in 0..n {
            let i = self.below(512);
            b.bytes_mut()[i / 8] ^= 1 << (i % 8);
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

pub fn iso(t: V3, r: Rotation3<f64>) -> IsometryMatrix3<f64> {
    IsometryMatrix3::from_parts(Translation3::from(t), r)
}
pub fn world(i: IsometryMatrix3<f64>) -> WorldToCamera {
    WorldToCamera(i)
}
pub fn cam(i: IsometryMatrix3<f64>) -> CameraToCamera {
    CameraToCamera(i)
}
pub fn bearing_of(cam: &IsometryMatrix3<f64>, p: V3) -> V3 {
    cam.rotation * p + cam.translation.vector
}
pub fn uv(v: V3) -> UnitVector3<f64> {
    UnitVector3::new_normalize(v)
}

/// A camera that looks at the part of the world around (0, 0, 6) from somewhere near the origin.
pub fn camera(r: &mut Rng, spread: f64, turn: f64) -> IsometryMatrix3<f64> {
    let at = r.cube() * spread;
    let rot = r.rot(turn);
    iso(-(rot * at), rot)
}

pub fn vslam(settings: VSlamSettings, seed: u64) -> Vs {
    let pcg = |k: u64| Pcg64::new((seed ^ k) as u128, 0xa02bdbf7bb3c0a7ac28fa16a64abf96);
    VSlam::new(
        VSlamData::default(),
        settings,
        arrsac::Arrsac::new(settings.single_view_consensus_threshold, pcg(1))
            .initialization_hypotheses(256)
            .max_candidate_hypotheses(64),
        arrsac::Arrsac::new(settings.two_view_consensus_threshold, pcg(2))
            .initialization_hypotheses(256)
            .max_candidate_hypotheses(64),
        lambda_twist::LambdaTwist::new(),
        eight_point::EightPoint::new(),
        LinearEigenTriangulator::new(),
        pcg(3),
    )
}

pub fn intrinsics() -> CameraIntrinsicsK1Distortion {
    CameraIntrinsicsK1Distortion::new(CameraIntrinsics::identity(), 0.0)
}

pub fn feature(bearing: UnitVector3<f64>, color: [u8; 3]) -> Feature {
    Feature { bearing, response: 1.0, color }
}

/// A class of observations: those of one landmark.
pub type Class = BTreeSet<(ViewKey, usize)>;

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub views: BTreeMap<ViewKey, (FrameKey, [f64; 12])>,
    pub classes: BTreeMap<LandmarkKey, Class>,
    pub constraints: Vec<([ViewKey; 3], [IsometryMatrix3<f64>; 2])>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub recs: BTreeMap<ReconstructionKey, Rec>,
    pub frames: BTreeMap<FrameKey, Option<(ReconstructionKey, ViewKey)>>,
}

pub fn numbers(i: &IsometryMatrix3<f64>) -> [f64; 12] {
    let mut a = [0.0; 12];
    let (r, t) = (i.rotation.matrix(), i.translation.vector);
    for k in 0..9 {
        a[k] = r[(k / 3, k % 3)];
    }
    a[9..].copy_from_slice(t.as_slice());
    a
}

impl Rec {
    pub fn class_of(&self, view: ViewKey, feature: usize) -> LandmarkKey {
        *self.classes.iter().find(|(_, c)| c.contains(&(view, feature))).unwrap().0
    }
    pub fn partition(&self) -> BTreeSet<Class> {
        self.classes.values().cloned().collect()
    }
}

/// Reads everything the library stores and checks that it is consistent.
pub fn snapshot(vs: &Vs) -> Result<Snap, String> {
    let d = &vs.data;
    let mut snap = Snap { recs: BTreeMap::new(), frames: BTreeMap::new() };
    let mut seen: HashMap<FrameKey, (ReconstructionKey, ViewKey)> = HashMap::new();
    for rk in d.reconstructions() {
        let rec = d.reconstruction(rk);
        let mut out = Rec { views: BTreeMap::new(), classes: BTreeMap::new(), constraints: d.cvcheck_constraints(rk) };
        for (lk, l) in rec.landmarks.iter() {
            chk!(!l.observations.is_empty(), "landmark {:?} has no observations", lk);
            for (&v, &f) in &l.observations {
                chk!(rec.views.contains_key(v), "landmark {:?} is observed by a view {:?} that does not exist", lk, v);
                chk!(
                    rec.views[v].landmarks.get(f) == Some(&lk),
                    "landmark {:?} is observed by feature {} of view {:?}, which belongs to {:?}", lk, f, v, rec.views[v].landmarks.get(f)
                );
            }
            out.classes.insert(lk, l.observations.iter().map(|(&v, &f)| (v, f)).collect());
        }
        for (vk, v) in rec.views.iter() {
            chk!(d.cvcheck_frames().contains(&v.frame), "view {:?} has a frame that does not exist", vk);
            let n = d.frame(v.frame).descriptor_features.len();
            chk!(v.landmarks.len() == n, "view {:?} has {} landmarks for {} features", vk, v.landmarks.len(), n);
            for (f, &lk) in v.landmarks.iter().enumerate() {
                chk!(rec.landmarks.contains_key(lk), "feature {} of view {:?} belongs to a landmark {:?} that does not exist", f, vk, lk);
                let o = rec.landmarks[lk].observations.get(&vk);
                chk!(o == Some(&f), "feature {} of view {:?} belongs to landmark {:?}, which has feature {:?} of that view", f, vk, lk, o);
            }
            if let Some(other) = seen.insert(v.frame, (rk, vk)) {
                return Err(format!("frame {:?} has two views, {:?} and {:?}", v.frame, other, (rk, vk)));
            }
            out.views.insert(vk, (v.frame, numbers(&v.pose.isometry())));
        }
        for (views, _) in &out.constraints {
            chk!(views[0] < views[1] && views[1] < views[2], "views of a constraint are not three different ones in order: {:?}", views);
            for v in views {
                chk!(rec.views.contains_key(*v), "a constraint has a view {:?} that does not exist", v);
            }
        }
        snap.recs.insert(rk, out);
    }
    for fk in d.cvcheck_frames() {
        let is = d.frame(fk).view;
        chk!(is == seen.get(&fk).copied(), "frame {:?} says its view is {:?}, but it is {:?}", fk, is, seen.get(&fk));
        snap.frames.insert(fk, is);
    }
    Ok(snap)
}

/// Loss of the bearing of a point that is not at the camera.
pub fn cosine_distance(a: &V3, b: &V3) -> f64 {
    1.0 - a.dot(b) / (a.norm() * b.norm())
}
