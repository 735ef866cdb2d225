//! Features of frames from generated images.
use crate::base::*;
use crate::fw::*;
use akaze::{Akaze, KeyPoint};
use cv_core::CameraModel;
use cv_pinhole::{CameraIntrinsics, CameraIntrinsicsK1Distortion};
use cv_sfm::*;
use image::{DynamicImage, Rgb, RgbImage};
use proptest::prelude::{any, prop_oneof, BoxedStrategy, Just, Strategy};
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------------------------------------
// Colours between pixels

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Between {
    seed: u64,
    w: u32,
    h: u32,
    /// 0: noise, 1: extremes only, 2: ramp
    kind: u8,
    at: Vec<(f32, f32)>,
}

fn between_strat() -> BoxedStrategy<Between> {
    let side = || prop_oneof![5 => 1u32..5, 15 => 8u32..24, 1 => 24u32..120];
    let coord = || {
        prop_oneof![
            1 => -3.0..27.0f32,
            1 => 20.0..124.0f32,
            3 => 0.5..12.0f32,
            1 => (-12..108i32).prop_map(|i| i as f32 / 4.0),
            1 => (0..12i32).prop_map(|i| i as f32),
            1 => (-3..27i32).prop_map(|i| f32::from_bits((i as f32).to_bits().wrapping_sub(1))),
        ]
    };
    (any::<u64>(), side(), side(), 0u8..3, proptest::collection::vec((coord(), coord()), 1..12))
        .prop_map(|(seed, w, h, kind, at)| Between { seed, w, h, kind, at: at.into_iter().filter(|p| p.0.is_finite() && p.1.is_finite()).collect() })
        .boxed()
}

fn picture(c: &Between) -> RgbImage {
    let mut r = Rng(c.seed);
    let (a, b, e) = ((r.range(0.0, 120.0)), r.range(0.0, 5.0), r.range(0.0, 5.0));
    let kind = c.kind;
    RgbImage::from_fn(c.w, c.h, |x, y| {
        let mut p = [0u8; 3];
        for (k, v) in p.iter_mut().enumerate() {
            *v = match kind {
                0 => r.below(256) as u8,
                1 => 255 * r.below(2) as u8,
                _ => (a + b * x as f64 + e * y as f64 * (k as f64 + 1.0) / 3.0).min(255.0) as u8,
            };
        }
        Rgb(p)
    })
}

/// The weights of the cubic through four values, the Catmull-Rom spline.
fn weights(t: f64) -> [f64; 4] {
    let (t2, t3) = (t * t, t * t * t);
    [(-t + 2.0 * t2 - t3) / 2.0, (2.0 - 5.0 * t2 + 3.0 * t3) / 2.0, (t + 4.0 * t2 - 3.0 * t3) / 2.0, (t3 - t2) / 2.0]
}

/// What a value may become when it is cut to a byte.
fn byte(lo: f64, hi: f64) -> (f64, f64) {
    ((lo - 2e-3).clamp(0.0, 255.0).floor(), (hi + 2e-3).clamp(0.0, 255.0).floor())
}

/// The colour at a place: rows first, each result cut to a byte.
fn colour(image: &RgbImage, x: f32, y: f32) -> Option<[(f64, f64); 3]> {
    let (fx, fy) = ((x as f64).floor(), (y as f64).floor());
    let (left, top) = (fx - 1.0, fy - 1.0);
    if left < 0.0 || top < 0.0 || left + 3.0 > image.width() as f64 - 1.0 || top + 3.0 > image.height() as f64 - 1.0 {
        return None;
    }
    let (wx, wy) = (weights(x as f64 - fx), weights(y as f64 - fy));
    let mut out = [(0.0, 0.0); 3];
    for (k, o) in out.iter_mut().enumerate() {
        let (mut lo, mut hi) = (0.0, 0.0);
        for j in 0..4 {
            let v: f64 = (0..4).map(|i| wx[i] * image.get_pixel(left as u32 + i as u32, top as u32 + j as u32).0[k] as f64).sum();
            let (a, b) = byte(v, v);
            lo += if wy[j] > 0.0 { wy[j] * a } else { wy[j] * b };
            hi += if wy[j] > 0.0 { wy[j] * b } else { wy[j] * a };
        }
        *o = byte(lo, hi);
    }
    Some(out)
}

/// Compares with the rule; where the pixels end one short of the edge, the default is right as well.
fn same_colour(image: &RgbImage, x: f32, y: f32, got: [u8; 3], default: [u8; 3]) -> Result<bool, String> {
    let Some(want) = colour(image, x, y) else {
        chk!(got == default, "colour {:?} at ({:?}, {:?}) outside an image of {:?}, expected the default {:?}", got, x, y, image.dimensions(), default);
        return Ok(false);
    };
    let last = x.floor() + 3.0 >= image.width() as f32 || y.floor() + 3.0 >= image.height() as f32;
    if last && got == default {
        return Ok(false);
    }
    for k in 0..3 {
        let g = got[k] as f64;
        chk!(want[k].0 <= g && g <= want[k].1, "colour {:?} at ({:?}, {:?}), channel {} should be in {:?}", got, x, y, k, want[k]);
    }
    Ok(true)
}

fn between_check(c: &Between, obs: &mut Obs) -> Check {
    let image = picture(c);
    let mut r = Rng(c.seed ^ 1);
    let mut inside = 0;
    for &(x, y) in &c.at {
        let default = [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8];
        let Rgb(got) = cvcheck::interpolate_bicubic(&image, x, y, Rgb(default));
        inside += same_colour(&image, x, y, got, default)? as usize;
        if colour(&image, x, y).is_some() && x == x.floor() && y == y.floor() {
            obs.label("on a pixel");
        }
    }
    if inside > 0 && inside < c.at.len() {
        obs.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Features of images

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shots {
    hash: u64,
    seed: u64,
    w: u32,
    h: u32,
    images: usize,
    blobs: usize,
    limit: usize,
    threshold: f64,
    focal: f64,
    k1: f64,
    gray: bool,
}

fn shots_strat() -> BoxedStrategy<Shots> {
    (
        any::<u64>(),
        any::<u64>(),
        64u32..150,
        64u32..150,
        1usize..4,
        prop_oneof![1 => 0usize..3, 4 => 3usize..60],
        prop_oneof![1 => 1usize..12, 1 => Just(5000usize)],
        (-7.0..-3.0f64).prop_map(|e| 10f64.powf(e)),
        50.0..400.0f64,
        prop_oneof![Just(0.0), -0.2..0.2f64],
        any::<bool>(),
    )
        .prop_map(|(hash, seed, w, h, images, blobs, limit, threshold, focal, k1, gray)| Shots { hash, seed, w, h, images, blobs, limit, threshold, focal, k1, gray })
        .boxed()
}

fn blobs(c: &Shots, r: &mut Rng) -> DynamicImage {
    let list: Vec<(f64, f64, f64, [f64; 3])> = (0..c.blobs)
        .map(|_| {
            let (x, y, s) = (r.range(0.0, c.w as f64), r.range(0.0, c.h as f64), r.range(0.8, 4.0));
            let v = r.range(-110.0, 110.0);
            (x, y, s, if c.gray { [v; 3] } else { [v, r.range(-110.0, 110.0), r.range(-110.0, 110.0)] })
        })
        .collect();
    let image = RgbImage::from_fn(c.w, c.h, |x, y| {
        let mut p = [127.0; 3];
        for (bx, by, s, v) in &list {
            let d = ((x as f64 - bx).powi(2) + (y as f64 - by).powi(2)) / (2.0 * s * s);
            for k in 0..3 {
                p[k] += v[k] * (-d).exp();
            }
        }
        Rgb(p.map(|v| v.clamp(0.0, 255.0) as u8))
    });
    let all = DynamicImage::ImageRgb8(image);
    if c.gray {
        all.grayscale()
    } else {
        all
    }
}

fn shots_check(c: &Shots, obs: &mut Obs) -> Check {
    isolated(c.hash, c, obs, shots_run)
}
fn shots_run(c: &Shots, obs: &mut Obs) -> Check {
    let mut r = Rng(c.seed);
    let mut settings = VSlamSettings::default();
    settings.akaze_threshold = c.threshold;
    settings.tracking_features = c.limit;
    let mut vs = vslam(settings, c.seed);
    let intrinsics = |r: &mut Rng| {
        CameraIntrinsicsK1Distortion::new(
            CameraIntrinsics {
                focals: cv_core::nalgebra::Vector2::new(c.focal, c.focal * r.range(0.8, 1.2)),
                principal_point: cv_core::nalgebra::Point2::new(c.w as f64 * r.range(0.3, 0.7), c.h as f64 * r.range(0.3, 0.7)),
                skew: r.range(-1.0, 1.0),
            },
            c.k1,
        )
    };
    // Two feeds with cameras of their own.
    let cams = [intrinsics(&mut r), intrinsics(&mut r)];
    let feeds = [vs.add_feed(cams[0]), vs.add_feed(cams[1])];
    let mut count = [0usize; 2];
    let mut frames: Vec<(FrameKey, usize)> = vec![];
    for _ in 0..c.images {
        let image = blobs(c, &mut r);
        let which = r.below(2);
        let (kps, descs): (Vec<KeyPoint>, Vec<Bits>) = {
            let mut a = Akaze::new(c.threshold);
            a.maximum_features = c.limit;
            a.extract(&image)
        };
        let rgb = image.to_rgb8();
        let frame = vs.add_frame(feeds[which], &image);
        let f = vs.data.frame(frame);
        chk!(f.feed == feeds[which] && f.feed_frame == count[which], "the frame is number {} of feed {:?}", f.feed_frame, f.feed);
        count[which] += 1;
        frames.push((frame, which));
        let n = f.descriptor_features.len();
        chk!(n == kps.len() && n == descs.len(), "{} features for {} keypoints", n, kps.len());
        chk!(n <= c.limit, "{} features, limit {}", n, c.limit);
        let mut used = vec![false; n];
        for i in 0..n {
            let got = f.feature(i);
            chk!(i == 0 || f.feature(i - 1).response >= got.response, "feature {} has a higher response than the one before", i);
            // The keypoint of this feature: its response, descriptor and bearing.
            let j = (0..n).find(|&j| {
                !used[j] && kps[j].response == got.response && descs[j] == *f.descriptor(i) && {
                    let (x, y) = kps[j].point;
                    let want = cams[which].calibrate(cv_core::KeyPoint(cv_core::nalgebra::Point2::new(x as f64, y as f64)));
                    (want.into_inner() - f.bearing(i).into_inner()).norm() <= 1e-9
                }
            });
            let Some(j) = j else { return Err(format!("no keypoint has response {:?}, descriptor and bearing {:?} of feature {}", got.response, got.bearing, i)) };
            used[j] = true;
            let lit = same_colour(&rgb, kps[j].point.0, kps[j].point.1, f.color(i), [0; 3])?;
            obs.label_if(lit, "coloured feature");
        }
        if n > 1 {
            obs.nontrivial();
        }
        obs.label_if(n == c.limit && n > 0, "limit reached");
        let again = vs.cvcheck_features(feeds[which], &image);
        let f = vs.data.frame(frame);
        chk!(again.len() == n && again.iter().enumerate().all(|(i, (d, x))| f.feature(i).response == x.response || f.descriptor(i) == d), "other features the second time");
    }
    for (k, feed) in feeds.iter().enumerate() {
        let want: Vec<FrameKey> = frames.iter().filter(|f| f.1 == k).map(|f| f.0).collect();
        chk!(vs.data.cvcheck_feed_frames(*feed) == want, "the feed has frames {:?}, expected {:?}", vs.data.cvcheck_feed_frames(*feed), want);
    }
    snapshot(&vs)?;
    Ok(())
}

pub fn property(assumptions: &'static [&'static str]) -> Property {
    Property {
        id: "C42",
        assumptions,
        laws: vec![
            law("colours", "1-11 places in and around images of 1-119 pixels a side; non-trivial: some but not all are inside", 100_000, 3_000_000, between_strat, between_check),
            law("features", "1-3 images of 64-150 pixels a side in two feeds; non-trivial: an image has several features", 300, 8_000, shots_strat, shots_check),
        ],
    }
}
