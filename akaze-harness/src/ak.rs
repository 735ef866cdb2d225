//! C29-C35: the feature extractor.
use crate::chk;
use crate::fw::*;
use ak_seq::image::{gaussian_blur, gaussian_kernel, horizontal_filter, separable_filter, vertical_filter, GrayFloatImage};
use ak_seq::{Akaze, KeyPoint};
use image::{DynamicImage, ImageBuffer, Luma, LumaA};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- reference images

/// A gray image in double precision.
#[derive(Clone, Debug)]
struct Im {
    w: usize,
    h: usize,
    d: Vec<f64>,
}

impl Im {
    fn new(w: usize, h: usize, f: impl Fn(usize, usize) -> f64) -> Self {
        let mut d = Vec::with_capacity(w * h);
        for y in 0..h {
            for x in 0..w {
                d.push(f(x, y));
            }
        }
        Im { w, h, d }
    }
    fn at(&self, x: usize, y: usize) -> f64 {
        self.d[y * self.w + x]
    }
    /// With the border pixels repeated outside.
    fn clamped(&self, x: isize, y: isize) -> f64 {
        self.at(x.clamp(0, self.w as isize - 1) as usize, y.clamp(0, self.h as isize - 1) as usize)
    }
    fn of(g: &GrayFloatImage) -> Self {
        Im::new(g.width(), g.height(), |x, y| g.get(x, y) as f64)
    }
    fn float(&self) -> GrayFloatImage {
        let mut g = GrayFloatImage::new(self.w, self.h);
        for y in 0..self.h {
            for x in 0..self.w {
                g.put(x, y, self.at(x, y) as f32);
            }
        }
        g
    }
    /// Rounded to single precision, as the code under test will see it.
    fn rounded(mut self) -> Self {
        self.d.iter_mut().for_each(|v| *v = *v as f32 as f64);
        self
    }
    fn row_filter(&self, k: &[f64]) -> Im {
        let r = (k.len() / 2) as isize;
        Im::new(self.w, self.h, |x, y| {
            if x as isize >= r && x + (r as usize) < self.w {
                let p = y * self.w + x - r as usize;
                return k.iter().zip(&self.d[p..]).map(|(c, v)| c * v).sum();
            }
            k.iter().enumerate().map(|(i, c)| c * self.clamped(x as isize + i as isize - r, y as isize)).sum()
        })
    }
    fn col_filter(&self, k: &[f64]) -> Im {
        let r = (k.len() / 2) as isize;
        Im::new(self.w, self.h, |x, y| k.iter().enumerate().map(|(i, c)| c * self.clamped(x as isize, y as isize + i as isize - r)).sum())
    }
    fn blur(&self, sigma: f64) -> Im {
        let k = gauss_ref(sigma, (2.0 * sigma).ceil() as usize);
        self.row_filter(&k).col_filter(&k)
    }
    fn max_abs(&self) -> f64 {
        self.d.iter().fold(0.0, |m, v| m.max(v.abs()))
    }
    /// Largest difference to an image of the code under test (infinite for other sizes and NaN).
    fn diff(&self, g: &GrayFloatImage) -> f64 {
        if g.width() != self.w || g.height() != self.h {
            return f64::INFINITY;
        }
        let mut m = 0.0f64;
        for (a, b) in self.d.iter().zip(g.0.iter()) {
            let e = (a - *b as f64).abs();
            if !(e <= m) {
                m = if e.is_nan() { f64::INFINITY } else { e };
            }
        }
        m
    }
    fn half(&self) -> Im {
        let (w, h) = (self.w / 2, self.h / 2);
        Im::new(w, h, |x, y| {
            // The last row and column of odd sizes stand for themselves.
            let bottom = self.h % 2 == 1 && y == h - 1;
            let right = self.w % 2 == 1 && x == w - 1;
            let xs = if right { vec![self.w - 1] } else { vec![2 * x, 2 * x + 1] };
            let ys = if bottom { vec![self.h - 1] } else { vec![2 * y, 2 * y + 1] };
            let n = (xs.len() * ys.len()) as f64;
            ys.iter().flat_map(|y| xs.iter().map(move |x| (x, y))).map(|(x, y)| self.at(*x, *y)).sum::<f64>() / n
        })
    }
}

fn gauss_ref(sigma: f64, radius: usize) -> Vec<f64> {
    let r = radius as i64;
    let k: Vec<f64> = (-r..=r).map(|i| (-(i * i) as f64 / (2.0 * sigma * sigma)).exp()).collect();
    let s: f64 = k.iter().sum();
    k.iter().map(|v| v / s).collect()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Shape {
    /// Centre in units of the image.
    x: f64,
    y: f64,
    /// Half sizes in pixels.
    sx: f64,
    sy: f64,
    turn: f64,
    amp: f64,
    kind: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scene {
    w: usize,
    h: usize,
    base: f64,
    slope: [f64; 2],
    shapes: Vec<Shape>,
    noise: f64,
    seed: u64,
}

fn hash01(seed: u64, x: usize, y: usize) -> f64 {
    let mut z = seed ^ (x as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (y as u64).wrapping_mul(0xC2B2_AE3D_27D4_EB4F);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    ((z ^ (z >> 31)) >> 11) as f64 / (1u64 << 53) as f64
}

impl Scene {
    fn image(&self) -> Im {
        let mut im = Im::new(self.w, self.h, |x, y| self.base + self.slope[0] * x as f64 / self.w as f64 + self.slope[1] * y as f64 / self.h as f64);
        for s in &self.shapes {
            let (cx, cy) = (s.x * self.w as f64, s.y * self.h as f64);
            let reach = if s.kind == 0 { 6.5 } else { 1.5 } * s.sx.max(s.sy);
            let range = |c: f64, n: usize| (c - reach).ceil().max(0.0) as usize..((c + reach).floor() as usize + 1).min(n);
            let (si, co) = s.turn.sin_cos();
            for y in range(cy, self.h) {
                for x in range(cx, self.w) {
                    let (dx, dy) = (x as f64 - cx, y as f64 - cy);
                    let (u, t) = ((dx * co + dy * si) / s.sx, (dy * co - dx * si) / s.sy);
                    im.d[y * self.w + x] += s.amp
                        * match s.kind {
                            0 => (-(u * u + t * t) / 2.0).exp(),
                            1 => (u.abs() <= 1.0 && t.abs() <= 1.0) as u8 as f64,
                            _ => (u * u + t * t <= 1.0) as u8 as f64,
                        };
                }
            }
        }
        for y in 0..self.h {
            for x in 0..self.w {
                let v = &mut im.d[y * self.w + x];
                if self.noise > 0.0 {
                    *v += self.noise * (hash01(self.seed, x, y) - 0.5);
                }
                *v = v.clamp(0.0, 1.0);
            }
        }
        im.rounded()
    }
}

fn shapes(n: std::ops::Range<usize>) -> BoxedStrategy<Vec<Shape>> {
    let shape = (0.0..1.0f64, 0.0..1.0f64, 1.0..14.0f64, 1.0..14.0f64, 0.0..3.2f64, -0.7..0.7f64, 0u8..3)
        .prop_map(|(x, y, sx, sy, turn, amp, kind)| Shape { x, y, sx, sy, turn, amp, kind });
    prop::collection::vec(shape, n).boxed()
}

fn scene(w: BoxedStrategy<usize>, h: BoxedStrategy<usize>) -> BoxedStrategy<Scene> {
    (
        w,
        h,
        0.1..0.9f64,
        prop_oneof![2 => Just([0.0; 2]), 1 => [-0.5..0.5f64, -0.5..0.5f64]],
        prop_oneof![8 => shapes(4..60), 1 => shapes(0..3)],
        prop_oneof![3 => Just(0.0), 2 => 0.0..0.1f64, 1 => 0.1..1.0f64],
        any::<u64>(),
    )
        .prop_map(|(w, h, base, slope, shapes, noise, seed)| Scene { w, h, base, slope, shapes, noise, seed })
        .boxed()
}

fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}

// ---------------------------------------------------------------- C29 filters

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FilterCase {
    w: usize,
    h: usize,
    seed: u64,
    amp: f64,
    row: Vec<f64>,
    col: Vec<f64>,
}

fn kernel() -> BoxedStrategy<Vec<f64>> {
    (0usize..12, prop::collection::vec(prop_oneof![4 => -3.0..3.0f64, 1 => Just(0.0), 1 => Just(1.0)], 25))
        .prop_map(|(r, v)| v[..2 * r + 1].to_vec())
        .boxed()
}

fn small_side() -> BoxedStrategy<usize> {
    prop_oneof![3 => 1usize..20, 3 => 20usize..70, 1 => Just(16usize), 1 => Just(17usize), 1 => Just(32usize)].boxed()
}

fn filter_check(c: &FilterCase, obs: &mut Obs) -> Check {
    let img = Im::new(c.w, c.h, |x, y| c.amp * (hash01(c.seed, x, y) - 0.3)).rounded();
    let g = img.float();
    let f32s = |k: &[f64]| k.iter().map(|v| *v as f32).collect::<Vec<f32>>();
    let f64s = |k: &[f64]| k.iter().map(|v| *v as f32 as f64).collect::<Vec<f64>>();
    let (rk, ck) = (f64s(&c.row), f64s(&c.col));
    let (rs, cs): (f64, f64) = (rk.iter().map(|v| v.abs()).sum(), ck.iter().map(|v| v.abs()).sum());
    let m = img.max_abs();
    let row = img.row_filter(&rk);
    let e = row.diff(&GrayFloatImage(horizontal_filter(&g.0, &f32s(&c.row))));
    chk!(e <= 4e-6 * (rs * m + 1e-30), "horizontal filter off by {:e} (scale {:e})", e, rs * m);
    let e = img.col_filter(&ck).diff(&GrayFloatImage(vertical_filter(&g.0, &f32s(&c.col))));
    chk!(e <= 4e-6 * (cs * m + 1e-30), "vertical filter off by {:e} (scale {:e})", e, cs * m);
    let e = row.col_filter(&ck).diff(&GrayFloatImage(separable_filter(&g.0, &f32s(&c.row), &f32s(&c.col))));
    chk!(e <= 8e-6 * (rs * cs * m + 1e-30), "separable filter off by {:e} (scale {:e})", e, rs * cs * m);
    obs.nontrivial();
    obs.label_if(c.row.len() > c.w, "row kernel wider than the image");
    obs.label_if(c.col.len() > c.h, "column kernel higher than the image");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BlurCase {
    w: usize,
    h: usize,
    seed: u64,
    sigma: f64,
    radius: usize,
}

fn blur_check(c: &BlurCase, obs: &mut Obs) -> Check {
    let sigma = c.sigma as f32;
    let k = gaussian_kernel(sigma, 2 * c.radius + 1);
    let want = gauss_ref(sigma as f64, c.radius);
    chk!(k.len() == want.len(), "kernel of {} values", k.len());
    for (a, b) in k.iter().zip(&want) {
        chk!(near(*a as f64, *b, 2e-6), "kernel value {} instead of {}", a, b);
    }
    let img = Im::new(c.w, c.h, |x, y| hash01(c.seed, x, y)).rounded();
    let e = img.blur(sigma as f64).diff(&gaussian_blur(&img.float(), sigma));
    chk!(e < 1e-5, "blurred image off by {:e}", e);
    let (lo, hi) = img.d.iter().fold((1.0f64, 0.0f64), |(l, h), v| (l.min(*v), h.max(*v)));
    let b = gaussian_blur(&img.float(), sigma);
    chk!(b.0.iter().all(|v| *v as f64 >= lo - 1e-5 && *v as f64 <= hi + 1e-5), "blurring left the range of the image");
    if c.w > 1 && c.h > 1 {
        let half = img.float().half_size();
        let e = img.half().diff(&half);
        chk!(e < 1e-6, "half size image off by {:e} ({} x {} -> {} x {})", e, c.w, c.h, half.width(), half.height());
        obs.label(["even sizes", "odd width", "odd height", "odd sizes"][c.w % 2 + 2 * (c.h % 2)]);
        obs.nontrivial();
    }
    // Gray values keep their meaning for every depth.
    let v8 = |x: u32, y: u32| (hash01(c.seed ^ 1, x as usize, y as usize) * 256.0) as u8;
    let v16 = |x: u32, y: u32| (hash01(c.seed ^ 2, x as usize, y as usize) * 65536.0) as u16;
    let (w, h) = (c.w as u32, c.h as u32);
    let a8 = DynamicImage::ImageLuma8(ImageBuffer::from_fn(w, h, |x, y| Luma([v8(x, y)])));
    let b8 = DynamicImage::ImageLumaA8(ImageBuffer::from_fn(w, h, |x, y| LumaA([v8(x, y), v8(y, x)])));
    let a16 = DynamicImage::ImageLuma16(ImageBuffer::from_fn(w, h, |x, y| Luma([v16(x, y)])));
    let b16 = DynamicImage::ImageLumaA16(ImageBuffer::from_fn(w, h, |x, y| LumaA([v16(x, y), v16(y, x)])));
    let want8 = Im::new(c.w, c.h, |x, y| v8(x as u32, y as u32) as f64 / 255.0);
    let want16 = Im::new(c.w, c.h, |x, y| v16(x as u32, y as u32) as f64 / 65535.0);
    for (name, img, want) in [("8 bit", &a8, &want8), ("8 bit with alpha", &b8, &want8), ("16 bit", &a16, &want16), ("16 bit with alpha", &b16, &want16)] {
        let e = want.diff(&GrayFloatImage::from_dynamic(img));
        chk!(e < 1e-6, "{} gray image off by {:e}", name, e);
    }
    Ok(())
}

// ---------------------------------------------------------------- C30 schedule

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Conf {
    sublevels: u32,
    octaves: u32,
    offset: f64,
    percentile: f64,
    bins: usize,
    factor: f64,
    threshold: f64,
    channels: usize,
    pattern: usize,
}

impl Conf {
    fn akaze(&self) -> Akaze {
        Akaze {
            num_sublevels: self.sublevels,
            max_octave_evolution: self.octaves,
            base_scale_offset: self.offset,
            contrast_percentile: self.percentile,
            contrast_factor_num_bins: self.bins,
            derivative_factor: self.factor,
            detector_threshold: self.threshold,
            descriptor_channels: self.channels,
            descriptor_pattern_size: self.pattern,
            ..Akaze::default()
        }
    }
    fn parallel(&self) -> ak_par::Akaze {
        ak_par::Akaze {
            num_sublevels: self.sublevels,
            max_octave_evolution: self.octaves,
            base_scale_offset: self.offset,
            contrast_percentile: self.percentile,
            contrast_factor_num_bins: self.bins,
            derivative_factor: self.factor,
            detector_threshold: self.threshold,
            descriptor_channels: self.channels,
            descriptor_pattern_size: self.pattern,
            ..ak_par::Akaze::default()
        }
    }
}

fn default_conf() -> Conf {
    let a = Akaze::default();
    Conf {
        sublevels: a.num_sublevels,
        octaves: a.max_octave_evolution,
        offset: a.base_scale_offset,
        percentile: a.contrast_percentile,
        bins: a.contrast_factor_num_bins,
        factor: a.derivative_factor,
        threshold: a.detector_threshold,
        channels: a.descriptor_channels,
        pattern: a.descriptor_pattern_size,
    }
}

fn conf() -> BoxedStrategy<Conf> {
    prop_oneof![
        1 => (-5.0..-2.0f64).prop_map(|t| Conf { threshold: 10f64.powf(t), ..default_conf() }),
        2 => (1u32..9, 1u32..6, 1.0..3.0f64, 0.3..0.95f64, 20usize..600, 1.0..2.0f64, -5.0..-2.0f64, 1usize..4, 6usize..13).prop_map(
            |(sublevels, octaves, offset, percentile, bins, factor, t, channels, pattern)| Conf {
                sublevels,
                octaves,
                offset,
                percentile,
                bins,
                factor,
                threshold: 10f64.powf(t),
                channels,
                pattern
            }
        ),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ScheduleCase {
    w: u32,
    h: u32,
    sublevels: u32,
    octaves: u32,
    offset: f64,
}

fn schedule_strat() -> BoxedStrategy<ScheduleCase> {
    let side = || prop_oneof![2 => 0u32..200, 2 => 200u32..5000, 1 => (0u32..7, 0u32..3).prop_map(|(o, d)| (40u32 << o) + d - 1), 1 => Just(100_000u32)];
    (side(), side(), prop_oneof![3 => 1u32..9, 1 => 9u32..40], 0u32..9, (-1.0..1.0f64).prop_map(|e| 10f64.powf(e)))
        .prop_map(|(w, h, sublevels, octaves, offset)| ScheduleCase { w, h, sublevels, octaves, offset })
        .boxed()
}

fn schedule_check(c: &ScheduleCase, obs: &mut Obs) -> Check {
    let a = Akaze { num_sublevels: c.sublevels, max_octave_evolution: c.octaves, base_scale_offset: c.offset, ..Akaze::default() };
    let ev = a.allocate_evolutions(c.w, c.h);
    // Octaves go on while the halved image has 40 pixels in both directions, with one level below 80.
    let mut want = vec![];
    for o in 0..c.octaves {
        let side = (c.w >> o).min(c.h >> o);
        if side >= 40 {
            for s in 0..if side < 80 { 1 } else { c.sublevels } {
                want.push((o, s));
            }
        }
    }
    let got: Vec<_> = ev.iter().map(|e| (e.octave, e.sublevel)).collect();
    chk!(got == want, "levels {:?} instead of {:?}", got, want);
    for (i, e) in ev.iter().enumerate() {
        let sigma = c.offset * 2f64.powf(e.octave as f64 + e.sublevel as f64 / c.sublevels as f64);
        chk!(near(e.esigma, sigma, 1e-12 * sigma), "sigma {} instead of {}", e.esigma, sigma);
        chk!(near(e.etime, sigma * sigma / 2.0, 1e-12 * sigma * sigma), "time {} of sigma {}", e.etime, sigma);
        if i == 0 {
            chk!(e.fed_tau_steps.is_empty(), "diffusion steps before the first level");
            continue;
        }
        let t = e.etime - ev[i - 1].etime;
        let steps = &e.fed_tau_steps;
        let n = steps.len();
        // A cycle of n steps of fast explicit diffusion with stability limit 1/4 covers n(n+1)/12.
        let reach = |n: usize| (n * (n + 1)) as f64 / 12.0;
        chk!(n >= 1 && reach(n) >= t * (1.0 - 1e-6), "{} steps cannot cover {}", n, t);
        chk!(n == 1 || reach(n - 1) <= t * (1.0 + 1e-6), "{} steps for {}, fewer would do", n, t);
        let sum: f64 = steps.iter().sum();
        chk!(near(sum, t, 1e-9 * t), "steps sum up to {} instead of {}", sum, t);
        let mut sorted = steps.clone();
        sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let scale = t / reach(n);
        for (k, s) in sorted.iter().enumerate() {
            let h = (std::f64::consts::PI * (2 * k + 1) as f64 / (4 * n + 2) as f64).cos();
            let want = scale * 0.125 / (h * h);
            chk!(near(*s, want, 1e-9 * want), "step {} of {} is {} instead of {}", k, n, s, want);
        }
        // Reordered steps keep the cycle stable: no mode of the diffusion grows beyond a modest factor on the way.
        obs.label(match n {
            1 => "1 step",
            2..=4 => "2-4 steps",
            5..=16 => "5-16 steps",
            _ => "17+ steps",
        });
        obs.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C31 scale space

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SpaceCase {
    scene: Scene,
    conf: Conf,
    #[serde(default)]
    stripes: u8,
}

fn side(lo: usize, hi: usize) -> BoxedStrategy<usize> {
    (lo..hi).boxed()
}

fn scharr_ref(i: &Im) -> (Im, Im) {
    let (d, m) = ([-1.0, 0.0, 1.0], [3.0, 10.0, 3.0]);
    (i.row_filter(&d).col_filter(&m), i.row_filter(&m).col_filter(&d))
}

fn space_strat() -> BoxedStrategy<SpaceCase> {
    let scene = prop_oneof![
        30 => scene(side(40, 200), side(40, 200)),
        10 => scene(side(80, 90), side(80, 90)),
        2 => scene(side(160, 400), side(160, 400)),
        1 => scene(side(320, 700), side(320, 700)),
    ];
    (scene, conf(), prop_oneof![6 => Just(0u8), 1 => Just(1), 1 => Just(2)]).prop_map(|(scene, conf, stripes)| SpaceCase { scene, conf, stripes }).boxed()
}

/// How much larger the roundings of all the steps can be after the last of them, over all the
/// frequencies an image can have (0 to 8 for conductivities up to 1).
fn rounding_growth(taus: &[f64]) -> f64 {
    let mut factors = vec![1.0f64; 401];
    let mut sum = 0.0;
    for tau in taus.iter().rev() {
        sum += factors.iter().fold(0.0f64, |m, f| m.max(f.abs())) * (1.0 + 8.0 * tau);
        for (k, f) in factors.iter_mut().enumerate() {
            *f *= 1.0 - tau * (k as f64 / 50.0);
        }
    }
    sum
}

fn space_check(c: &SpaceCase, obs: &mut Obs) -> Check {
    let mut img = c.scene.image();
    // The same line throughout: many equal gradients, among them the strongest.
    match c.stripes {
        1 => img = Im::new(img.w, img.h, |x, _| img.at(x, img.h / 2)),
        2 => img = Im::new(img.w, img.h, |_, y| img.at(img.w / 2, y)),
        _ => {}
    }
    obs.label_if(c.stripes > 0, "stripes");
    let a = c.conf.akaze();
    let ev = a.cvcheck_scale_space(&img.float());
    chk!(!ev.is_empty(), "no levels for {} x {}", img.w, img.h);
    // First level: the image, smoothed by the base scale.
    let e = img.blur(c.conf.offset as f32 as f64).diff(&ev[0].Lt);
    chk!(e < 2e-5, "first level off by {:e}", e);
    // Contrast: a bin edge of the histogram of gradient lengths at the percentile.
    let (gx, gy) = scharr_ref(&img.blur(1.0));
    let mut grads = vec![];
    for y in 1..img.h - 1 {
        for x in 1..img.w - 1 {
            let g = gx.at(x, y).hypot(gy.at(x, y));
            // Beside the border, where sums are taken in another order, constant parts may have tiny gradients.
            let border = x < 4 || y < 4 || x + 4 >= img.w || y + 4 >= img.h;
            if g > 1e-10 || border {
                grads.push(g);
            }
        }
    }
    grads.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let hmax = grads.last().copied().unwrap_or(0.0);
    // Tiny gradients may or may not vanish in single precision: they count as either.
    let tiny = grads.partition_point(|g| *g < 1e-5);
    let flat = grads.len() - tiny < 20;
    let mut contrast = None;
    let mut prev = Im::of(&ev[0].Lt);
    let mut octave = 0;
    for (i, l) in ev.iter().enumerate().skip(1) {
        let halved = l.octave > ev[i - 1].octave;
        let start = if halved { prev.half() } else { prev.clone() };
        octave += halved as i32;
        let mut mag = start.max_abs().max(1e-3);
        let smooth = start.blur(1.0);
        let e = smooth.diff(&l.Lsmooth);
        chk!(e < 1e-5, "level {}: smoothed image off by {:e}", i, e);
        let smooth = Im::of(&l.Lsmooth);
        let (x, y) = scharr_ref(&smooth);
        let e = x.diff(&l.Lx).max(y.diff(&l.Ly));
        chk!(e < 1e-4, "level {}: derivatives off by {:e}", i, e);
        let (x, y) = (Im::of(&l.Lx), Im::of(&l.Ly));
        let flow = Im::of(&l.Lflow);
        chk!(flow.d.len() == start.d.len(), "level {}: conductivity of the wrong size", i);
        chk!(flow.d.iter().all(|g| *g >= 0.0 && *g <= 1.0), "level {}: conductivity not between 0 and 1", i);
        if !flat {
            // The contrast of this level, from the pixel that determines it best.
            let g2 = |p: usize| x.d[p] * x.d[p] + y.d[p] * y.d[p];
            let best = (0..flow.d.len()).min_by(|a, b| (flow.d[*a] - 0.5).abs().partial_cmp(&(flow.d[*b] - 0.5).abs()).unwrap()).unwrap();
            let g = flow.d[best];
            if g > 0.05 && g < 0.95 {
                let k2 = g2(best) * g / (1.0 - g);
                for p in 0..flow.d.len() {
                    let want = 1.0 / (1.0 + g2(p) / k2);
                    chk!(near(flow.d[p], want, 1e-4), "level {}: conductivity {} instead of {}", i, flow.d[p], want);
                }
                let k = k2.sqrt() / 0.75f64.powi(octave);
                if let Some(k0) = contrast {
                    chk!(near(k, k0, 1e-3 * k), "level {}: contrast {} instead of {}", i, k, k0);
                }
                contrast = Some(k);
            }
        }
        // Explicit diffusion with these conductivities and the steps of the schedule.
        let mut u = start.clone();
        for t in &l.fed_tau_steps {
            let mut d = vec![0.0; u.d.len()];
            for yy in 0..u.h {
                for xx in 0..u.w {
                    let p = yy * u.w + xx;
                    for q in [(xx + 1 < u.w).then(|| p + 1), (yy + 1 < u.h).then(|| p + u.w)].into_iter().flatten() {
                        let f = 0.5 * *t as f32 as f64 * (flow.d[p] + flow.d[q]) * (u.d[q] - u.d[p]);
                        d[p] += f;
                        d[q] -= f;
                    }
                }
            }
            u.d.iter_mut().zip(&d).for_each(|(a, b)| *a += b);
            // The steps in between may leave the range of the image.
            mag = mag.max(u.max_abs());
        }
        let e = u.diff(&l.Lt);
        let tol = 6e-7 * rounding_growth(&l.fed_tau_steps);
        obs.max("error of the diffused image, as part of its tolerance", e / (tol * mag));
        chk!(e < tol * mag, "level {}: diffused image off by {:e}", i, e);
        let u = Im::of(&l.Lt);
        let n = u.d.len() as f64;
        let (m0, m1) = (start.d.iter().sum::<f64>() / n, u.d.iter().sum::<f64>() / n);
        chk!(near(m0, m1, 1e-5), "level {}: mean {} became {}", i, m0, m1);
        let var = |i: &Im, m: f64| i.d.iter().map(|v| (v - m) * (v - m)).sum::<f64>() / n;
        chk!(var(&u, m1) <= var(&start, m0) * (1.0 + 1e-4) + 1e-9, "level {}: variance {} became {}", i, var(&start, m0), var(&u, m1));
        prev = u;
    }
    if let (Some(k), false) = (contrast, flat) {
        let bin = hmax / c.conf.bins as f64;
        // The edge of the bin: this share of the gradients is below it, up to one bin.
        let below = |v: f64, from: usize| (grads.partition_point(|g| *g < v) as f64 - from as f64) / (grads.len() - from) as f64;
        let slack = 2.0 / (grads.len() - tiny) as f64 + 0.01;
        chk!(below(k + 1.01 * bin + 1e-3 * k, 0) + slack >= c.conf.percentile, "contrast {} is too low: {} of the gradients are below", k, below(k, 0));
        chk!(below(k - 1.01 * bin - 1e-3 * k, tiny) - slack <= c.conf.percentile, "contrast {} is too high: {} of the gradients are below", k, below(k, tiny));
        obs.label_if(grads.len() - tiny > 500, "contrast of 500 or more gradients");
        obs.nontrivial();
    }
    obs.label_if(flat, "flat image");
    obs.label(["", "1 octave", "2 octaves", "3 octaves", "4 octaves"][(octave as usize + 1).min(4)]);
    Ok(())
}

// ---------------------------------------------------------------- C32 detector response

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ResponseCase {
    scene: Scene,
    conf: Conf,
    amp: f64,
}

fn response_strat() -> BoxedStrategy<ResponseCase> {
    (scene(side(3, 60), side(3, 60)), conf(), prop_oneof![2 => Just(1.0), 1 => (-2.0..2.0f64).prop_map(|e| 10f64.powf(e))])
        .prop_map(|(scene, conf, amp)| ResponseCase { scene, conf, amp })
        .boxed()
}

fn response_check(c: &ResponseCase, obs: &mut Obs) -> Check {
    let a = c.conf.akaze();
    let mut ev = a.allocate_evolutions(1300, 1300);
    let mut images = vec![];
    for (i, e) in ev.iter_mut().enumerate() {
        // Every level has its own image, also of its own size.
        let s = Scene { w: c.scene.w + 3 * i, h: c.scene.h + i, seed: c.scene.seed + i as u64, noise: c.scene.noise.max(0.05), ..c.scene.clone() };
        let mut im = s.image();
        im.d.iter_mut().for_each(|v| *v *= c.amp);
        let im = im.rounded();
        e.Lsmooth = im.float();
        images.push(im);
    }
    a.detector_response(&mut ev);
    for (i, (e, im)) in ev.iter().zip(&images).enumerate() {
        let s = e.esigma * c.conf.factor / 2f64.powi(e.octave as i32);
        if (s - s.floor() - 0.5).abs() < 1e-9 || s < 0.5 {
            obs.label("skipped: scale between two integers");
            continue;
        }
        let s = s.round() as usize;
        // Normalized Scharr derivative over distance s: the slope of a ramp is its derivative.
        let (mut d, mut m) = (vec![0.0; 2 * s + 1], vec![0.0; 2 * s + 1]);
        d[0] = -1.0 / (2.0 * s as f64);
        d[2 * s] = 1.0 / (2.0 * s as f64);
        m[0] = 3.0 / 16.0;
        m[s] = 10.0 / 16.0;
        m[2 * s] = 3.0 / 16.0;
        let dx = |i: &Im| i.row_filter(&d).col_filter(&m);
        let dy = |i: &Im| i.row_filter(&m).col_filter(&d);
        let (lx, ly) = (dx(im), dy(im));
        let (lxx, lyy) = (dx(&lx), dy(&ly));
        // The mixed derivative in either order, which differ near the border only.
        let (xy, yx) = (dy(&lx), dx(&ly));
        let lxy = if xy.diff(&e.Lxy) <= yx.diff(&e.Lxy) { xy } else { yx };
        let mag = im.max_abs();
        for (name, want, got) in [("Lx", &lx, &e.Lx), ("Ly", &ly, &e.Ly), ("Lxx", &lxx, &e.Lxx), ("Lyy", &lyy, &e.Lyy), ("Lxy", &lxy, &e.Lxy)] {
            let err = want.diff(got);
            chk!(err <= 3e-6 * mag, "level {}, scale {}: {} off by {:e} of {:e}", i, s, name, err, mag);
        }
        let q = (s as f64).powi(4);
        let det = Im::new(im.w, im.h, |x, y| q * (lxx.at(x, y) * lyy.at(x, y) - lxy.at(x, y) * lxy.at(x, y)));
        let err = det.diff(&e.Ldet);
        chk!(err <= 1e-5 * q * mag * mag, "level {}, scale {}: determinant off by {:e} of {:e}", i, s, err, q * mag * mag);
        obs.label(["", "scale 1", "scale 2", "scale 3", "scale 4", "scale 5 or more"][s.min(5)]);
        obs.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C33 keypoints of given levels

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DetectCase {
    scene: Scene,
    conf: Conf,
    /// How much the determinants are smoothed, and their scale.
    smooth: f64,
    amp: f64,
}

/// Mostly images of few octaves, some of many.
fn levels_scene(lo: usize, hi: usize) -> BoxedStrategy<Scene> {
    prop_oneof![
        12 => scene(side(lo, hi), side(lo, hi)),
        1 => scene(side(220, 440), side(220, 440)),
        1 => scene(side(400, 900), side(400, 900)),
    ]
    .boxed()
}

/// The large levels of large images stay empty, for speed.
const LARGE: usize = 70_000;

fn detect_strat() -> BoxedStrategy<DetectCase> {
    (levels_scene(66, 220), conf(), 0.4..4.0f64, (-2.0..1.0f64).prop_map(|e| 10f64.powf(e)))
        .prop_map(|(scene, conf, smooth, amp)| DetectCase { scene, conf, smooth, amp })
        .boxed()
}

/// Different random image of the size of a level.
fn field(c: &Scene, w: usize, h: usize, salt: u64, smooth: f64) -> Im {
    if w * h > LARGE {
        return Im::new(w, h, |_, _| 0.0);
    }
    let s = Scene { w, h, seed: c.seed.wrapping_mul(31).wrapping_add(salt), noise: if salt % 4 == 0 { c.noise } else { 1.0 }, ..c.clone() };
    let mut im = s.image();
    if smooth > 0.0 {
        im = im.blur(smooth);
    }
    im.d.iter_mut().for_each(|v| *v -= 0.5);
    im.rounded()
}

struct Candidate {
    level: usize,
    x: usize,
    y: usize,
    v: f64,
    /// Offset of the maximum of the quadratic fit, None if it is not within one pixel (or nearly so).
    offset: Option<[f64; 2]>,
    tol: f64,
    borderline: bool,
}

/// The angles with which most of the weighted gradients agree, with their uncertainty: the angle of
/// the strongest of the windows, and of all others that can be the strongest after rounding.
fn orientation_ref(lx: &Im, ly: &Im, x: f32, y: f32, s: f32) -> Vec<(f64, f64)> {
    use std::f64::consts::PI;
    let mut g = vec![];
    for j in -6i32..=6 {
        for i in -6i32..=6 {
            if i * i + j * j < 36 {
                let (px, py) = ((x + i as f32 * s).round() as usize, (y + j as f32 * s).round() as usize);
                let w = (-(i * i + j * j) as f64 / 12.5).exp();
                let (gx, gy) = (w * lx.at(px, py), w * ly.at(px, py));
                g.push((gx, gy, gy.atan2(gx).rem_euclid(2.0 * PI)));
            }
        }
    }
    let total: f64 = g.iter().map(|g| g.0.hypot(g.1)).sum();
    let windows: Vec<(f64, f64, f64)> = (0..42)
        .map(|k| {
            let a = 0.15 * k as f64;
            // The sum of the gradients in the window, and the length of those at its edges.
            let (mut sx, mut sy, mut unsure) = (0.0, 0.0, 1e-5 * total);
            for (gx, gy, ang) in &g {
                let rel = (ang - a).rem_euclid(2.0 * PI);
                let edge = 2e-5;
                if rel < edge || (rel - PI / 3.0).abs() < edge || rel > 2.0 * PI - edge || *ang < 1e-6 {
                    unsure += gx.hypot(*gy);
                }
                if rel < PI / 3.0 {
                    sx += gx;
                    sy += gy;
                }
            }
            (sx, sy, unsure)
        })
        .collect();
    let least = windows.iter().map(|w| w.0.hypot(w.1) - w.2).fold(0.0, f64::max);
    windows
        .iter()
        .filter(|w| w.0.hypot(w.1) + w.2 >= least)
        .map(|w| (w.1.atan2(w.0), (w.2 / w.0.hypot(w.1)).min(1.0).asin() + 1e-4))
        .collect()
}

fn detect_check(c: &DetectCase, obs: &mut Obs) -> Check {
    let a = c.conf.akaze();
    let mut ev = a.allocate_evolutions(c.scene.w as u32, c.scene.h as u32);
    let mut dets = vec![];
    let mut grads = vec![];
    for (i, e) in ev.iter_mut().enumerate() {
        let (w, h) = (c.scene.w >> e.octave, c.scene.h >> e.octave);
        let mut d = field(&c.scene, w, h, 4 * i as u64, c.smooth);
        d.d.iter_mut().for_each(|v| *v *= c.amp);
        let d = d.rounded();
        let (x, y) = (field(&c.scene, w, h, 4 * i as u64 + 1, 1.0), field(&c.scene, w, h, 4 * i as u64 + 2, 1.0));
        e.Ldet = d.float();
        e.Lx = x.float();
        e.Ly = y.float();
        dets.push(d);
        grads.push((x, y));
    }
    let threshold = c.conf.threshold as f32 as f64;
    let mut cands = vec![];
    for (l, (d, e)) in dets.iter().zip(&ev).enumerate() {
        let size = (e.esigma * c.conf.factor) as f32;
        let sigma = (size / 2f32.powi(e.octave as i32)).round();
        let margin = 10.0f32 * 2f32.sqrt() * sigma;
        for y in 1..d.h - 1 {
            for x in 1..d.w - 1 {
                let v = d.at(x, y);
                let inside = (x as f32 - margin).round() - 1.0 >= 0.0
                    && (y as f32 - margin).round() - 1.0 >= 0.0
                    && (x as f32 + margin).round() + 1.0 < d.w as f32
                    && (y as f32 + margin).round() + 1.0 < d.h as f32;
                if !inside || !(v > threshold) || (0..9).any(|k| k != 4 && d.at(x + k % 3 - 1, y + k / 3 - 1) >= v) {
                    continue;
                }
                let (gx, gy) = ((d.at(x + 1, y) - d.at(x - 1, y)) / 2.0, (d.at(x, y + 1) - d.at(x, y - 1)) / 2.0);
                let (hxx, hyy) = (d.at(x + 1, y) + d.at(x - 1, y) - 2.0 * v, d.at(x, y + 1) + d.at(x, y - 1) - 2.0 * v);
                let hxy = (d.at(x + 1, y + 1) + d.at(x - 1, y - 1) - d.at(x + 1, y - 1) - d.at(x - 1, y + 1)) / 4.0;
                let det = hxx * hyy - hxy * hxy;
                let o = [-(hyy * gx - hxy * gy) / det, -(hxx * gy - hxy * gx) / det];
                let m = o[0].abs().max(o[1].abs());
                // What cancellation in single precision can move the maximum by.
                let tol = 1e-4 + 1e-6 * v.abs() * (hxx.abs() + hyy.abs()) / det.abs();
                let weak = !(tol < 0.02);
                cands.push(Candidate { level: l, x, y, v, offset: (m <= 1.0 || weak).then_some(o), tol, borderline: weak || (m - 1.0).abs() < tol });
            }
        }
    }
    let kps = a.detect_keypoints(&ev);
    let mut used = vec![false; cands.len()];
    for kp in &kps {
        chk!(kp.class_id < ev.len(), "keypoint of level {} of {}", kp.class_id, ev.len());
        let e = &ev[kp.class_id];
        chk!(kp.octave == e.octave as usize, "keypoint of octave {} on a level of octave {}", kp.octave, e.octave);
        let r = 2f64.powi(e.octave as i32);
        let size = 2.0 * e.esigma * c.conf.factor;
        chk!(near(kp.size as f64, size, 1e-5 * size), "size {} instead of {}", kp.size, size);
        let p = [(kp.point.0 as f64 - 0.5 * (r - 1.0)) / r, (kp.point.1 as f64 - 0.5 * (r - 1.0)) / r];
        let found = cands.iter().enumerate().find(|(_, k)| {
            k.level == kp.class_id && k.v == kp.response as f64 && (k.x as f64 - p[0]).abs() < 1.01 && (k.y as f64 - p[1]).abs() < 1.01
        });
        let Some((i, k)) = found else {
            return Err(format!("keypoint {:?} is at no local maximum above the threshold", kp));
        };
        chk!(!used[i], "two keypoints at the same maximum");
        used[i] = true;
        if !k.borderline {
            let Some(o) = k.offset else {
                return Err(format!("keypoint {:?} more than a pixel from its maximum", kp));
            };
            let err = (p[0] - k.x as f64 - o[0]).abs().max((p[1] - k.y as f64 - o[1]).abs());
            chk!(err < k.tol, "keypoint at {:?}, the fit has its maximum at {:?} of ({}, {})", p, o, k.x, k.y);
        }
        chk!(kp.angle >= 0.0 && kp.angle <= 2.0 * std::f32::consts::PI, "angle {}", kp.angle);
        let rf = r as f32;
        let (lx, ly) = &grads[kp.class_id];
        let angles = orientation_ref(lx, ly, kp.point.0 / rf, kp.point.1 / rf, (0.5 * kp.size / rf).round());
        let agrees = |(ang, tol): &(f64, f64)| {
            let d = (kp.angle as f64 - ang).rem_euclid(std::f64::consts::TAU);
            d.min(std::f64::consts::TAU - d) < *tol
        };
        chk!(angles.iter().any(agrees), "angle {} instead of {:?}", kp.angle, angles);
        obs.label(["octave 0", "octave 1", "octave 2", "octave 3", "octave 4"][kp.octave]);
        obs.label(if angles.len() == 1 { "one possible angle" } else { "several possible angles" });
        obs.nontrivial();
    }
    // Every other maximum gave way to a stronger one nearby, on its own or a neighbouring level.
    let place = |k: &Candidate| {
        let r = 2f64.powi(ev[k.level].octave as i32);
        ([r * k.x as f64 + 0.5 * (r - 1.0), r * k.y as f64 + 0.5 * (r - 1.0)], ev[k.level].esigma * c.conf.factor, r)
    };
    for (i, k) in cands.iter().enumerate() {
        if used[i] || k.borderline || k.offset.is_none() {
            continue;
        }
        let (p, size, r) = place(k);
        let beaten = cands.iter().enumerate().any(|(j, o)| {
            let (q, osize, or) = place(o);
            j != i && k.level.abs_diff(o.level) <= 1 && o.v >= k.v && (p[0] - q[0]).hypot(p[1] - q[1]) <= size.max(osize) + r.max(or)
        });
        chk!(beaten, "maximum ({}, {}) of level {} with response {} was dropped without a stronger one nearby", k.x, k.y, k.level, k.v);
        obs.label("maximum gave way");
    }
    for (i, k) in kps.iter().enumerate() {
        let crowd = kps[..i].iter().any(|o| {
            o.class_id == k.class_id && (o.point.0 - k.point.0).hypot(o.point.1 - k.point.1) < 0.45 * k.size
        });
        obs.rate("keypoints of one level closer than their size", 0.04, crowd);
        let upper = kps.iter().any(|o| {
            o.class_id == k.class_id + 1 && o.response > k.response && (o.point.0 - k.point.0).hypot(o.point.1 - k.point.1) < 0.4 * k.size
        });
        obs.rate("keypoints beside a stronger one of the next level", 0.04, upper);
    }
    Ok(())
}

// ---------------------------------------------------------------- C34 descriptors

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DescribeCase {
    scene: Scene,
    conf: Conf,
    /// Level, position in units of the image, angle, size factor.
    points: Vec<(usize, f64, f64, f64, f64)>,
}

fn describe_strat() -> BoxedStrategy<DescribeCase> {
    let place = || prop_oneof![3 => 0.3..0.7f64, 1 => -0.05..1.05f64];
    let point = (any::<usize>(), place(), place(), prop_oneof![4 => 0.0..6.4f64, 1 => (0u8..5).prop_map(|k| k as f64 * std::f64::consts::FRAC_PI_2)], prop_oneof![2 => Just(1.0), 1 => 0.5..2.0f64]);
    (levels_scene(60, 260), conf(), prop::collection::vec(point, 1..16))
        .prop_map(|(scene, conf, points)| DescribeCase { scene, conf, points })
        .boxed()
}

fn describe_check(c: &DescribeCase, obs: &mut Obs) -> Check {
    let a = c.conf.akaze();
    let mut ev = a.allocate_evolutions(c.scene.w as u32, c.scene.h as u32);
    let mut fields = vec![];
    for (i, e) in ev.iter_mut().enumerate() {
        let (w, h) = (c.scene.w >> e.octave, c.scene.h >> e.octave);
        let f: Vec<Im> = (0..3).map(|s| field(&c.scene, w, h, 4 * i as u64 + s, 1.0)).collect();
        e.Lt = f[0].float();
        e.Lx = f[1].float();
        e.Ly = f[2].float();
        fields.push(f);
    }
    let filled: Vec<usize> = (0..ev.len()).filter(|i| ev.len() == 1 || fields[*i][0].w * fields[*i][0].h <= LARGE).collect();
    if filled.is_empty() {
        return Ok(());
    }
    let kps: Vec<KeyPoint> = c
        .points
        .iter()
        .map(|(l, x, y, angle, size)| {
            let class_id = filled[l % filled.len()];
            KeyPoint {
                point: ((x * c.scene.w as f64) as f32, (y * c.scene.h as f64) as f32),
                response: 1.0,
                size: (2.0 * ev[class_id].esigma * c.conf.factor * size) as f32,
                octave: ev[class_id].octave as usize,
                class_id,
                angle: *angle as f32,
            }
        })
        .collect();
    let (out, desc) = a.extract_descriptors(&ev, &kps);
    chk!(out.len() == desc.len(), "{} keypoints with {} descriptors", out.len(), desc.len());
    let same = |a: &KeyPoint, b: &KeyPoint| a.point == b.point && a.angle == b.angle && a.class_id == b.class_id && a.size == b.size && a.octave == b.octave && a.response == b.response;
    let mut next = 0;
    for kp in &kps {
        let r = (1u32 << kp.octave) as f64;
        let scale = (0.5 * kp.size as f64 / r).round();
        let tie = (0.5 * kp.size as f64 / r).fract();
        if (tie - 0.5).abs() < 1e-5 {
            return Ok(());
        }
        let (xf, yf) = (kp.point.0 as f64 / r, kp.point.1 as f64 / r);
        let (si, co) = (kp.angle as f64).sin_cos();
        let ps = c.conf.pattern as i64;
        let f = &fields[kp.class_id];
        let (w, h) = (f[0].w as f64, f[0].h as f64);
        let mut bits: Vec<Option<bool>> = vec![];
        let (mut outside, mut unsure_outside) = (false, false);
        for (lvl, mult) in [1.0f32, 2.0 / 3.0, 1.0 / 2.0].iter().enumerate() {
            let step = (c.conf.pattern as f32 * mult).ceil() as i64;
            let n = lvl + 2;
            let mut cells: Vec<([f64; 3], bool)> = vec![];
            for i in (-ps..ps).step_by(step as usize) {
                for j in (-ps..ps).step_by(step as usize) {
                    let (mut v, mut unsure) = ([0.0; 3], false);
                    for k in i..i + step {
                        for l in j..j + step {
                            let x = xf + scale * (k as f64 * co - l as f64 * si);
                            let y = yf + scale * (l as f64 * co + k as f64 * si);
                            let close = (x - x.floor() - 0.5).abs() < 2e-4 || (y - y.floor() - 0.5).abs() < 2e-4;
                            let (x, y) = (x.round(), y.round());
                            let margin = close as u8 as f64;
                            if x < -margin || y < -margin || x >= w + margin || y >= h + margin {
                                outside = true;
                            } else if x < margin || y < margin || x >= w - margin || y >= h - margin {
                                unsure_outside |= close;
                                if x < 0.0 || y < 0.0 || x >= w || y >= h {
                                    continue;
                                }
                            }
                            if x < 0.0 || y < 0.0 || x >= w || y >= h {
                                continue;
                            }
                            unsure |= close;
                            let (x, y) = (x as usize, y as usize);
                            let (rx, ry) = (f[1].at(x, y), f[2].at(x, y));
                            v[0] += f[0].at(x, y);
                            if c.conf.channels == 2 {
                                v[1] += rx.hypot(ry);
                            } else {
                                v[1] += ry * co - rx * si;
                                v[2] += rx * co + ry * si;
                            }
                        }
                    }
                    let m = (step * step) as f64;
                    cells.push((v.map(|x| x / m), unsure));
                }
            }
            if cells.len() < n * n {
                obs.label("skipped: pattern too small for its grid");
                return Ok(());
            }
            for ch in 0..c.conf.channels {
                for i in 0..n * n {
                    for j in i + 1..n * n {
                        let ((a, ua), (b, ub)) = (&cells[i], &cells[j]);
                        let d = a[ch] - b[ch];
                        bits.push(if *ua || *ub || d.abs() < 2e-5 { None } else { Some(d > 0.0) });
                    }
                }
            }
        }
        if outside {
            chk!(next >= out.len() || !same(&out[next], kp) || kps.iter().filter(|k| same(k, kp)).count() > 1, "a descriptor for {:?} reaches outside of the image", kp);
            obs.label("outside");
            continue;
        }
        if unsure_outside {
            if next < out.len() && same(&out[next], kp) {
                next += 1;
            }
            continue;
        }
        chk!(next < out.len() && same(&out[next], kp), "no descriptor for {:?}", kp);
        let d = &desc[next];
        next += 1;
        let bit = |i: usize| d.bytes()[i / 8] >> (i % 8) & 1 == 1;
        for (i, b) in bits.iter().enumerate() {
            if let Some(b) = b {
                chk!(bit(i) == *b, "bit {} of {} is {} for {:?}", i, bits.len(), bit(i), kp);
            }
        }
        for i in bits.len()..512 {
            chk!(!bit(i), "bit {} beyond the {} bits of the descriptor is set", i, bits.len());
        }
        obs.max("bits", bits.len() as f64);
        obs.label_if(bits.iter().filter(|b| b.is_none()).count() * 4 > bits.len(), "more than a quarter of the bits unsure");
        obs.label("described");
        obs.label(["octave 0", "octave 1", "octave 2", "octave 3", "octave 4"][kp.octave]);
        obs.nontrivial();
    }
    chk!(next == out.len(), "{} more keypoints than expected", out.len() - next);
    Ok(())
}

// ---------------------------------------------------------------- C35 whole extractor

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ExtractCase {
    scene: Scene,
    conf: Conf,
    /// Power of two to darken by, and limit for the number of features.
    darker: u32,
    limit: usize,
    eight_bit: bool,
}

fn extract_strat() -> BoxedStrategy<ExtractCase> {
    let any_side = || prop_oneof![1 => 1usize..50, 1 => 36usize..44, 1 => 76usize..84, 4 => 80usize..260];
    (
        prop_oneof![
            16 => scene(any_side().boxed(), any_side().boxed()),
            32 => scene(side(80, 260), side(80, 260)),
            1 => scene(side(240, 560), side(240, 560)),
        ],
        conf(),
        prop_oneof![3 => Just(None), 1 => Just(Some(0u32))],
        0u32..6,
        prop_oneof![1 => 0usize..3, 2 => 3usize..60],
        any::<bool>(),
    )
        .prop_map(|(scene, conf, octaves, darker, limit, eight_bit)| {
            let conf = if let (Some(octaves), true) = (octaves, scene.seed % 8 == 0) { Conf { octaves, ..conf } } else { conf };
            ExtractCase { scene, conf, darker, limit, eight_bit }
        })
        .boxed()
}

fn same_keypoint(a: &KeyPoint, b: &KeyPoint) -> bool {
    a.point == b.point && a.response == b.response && a.size == b.size && a.octave == b.octave && a.class_id == b.class_id && a.angle == b.angle
}

type Features = (Vec<KeyPoint>, Vec<bitarray::BitArray<64>>);

fn same_features(a: &Features, b: &Features, what: &str) -> Check {
    chk!(a.0.len() == b.0.len() && a.1.len() == b.1.len(), "{}: {} features instead of {}", what, b.0.len(), a.0.len());
    for i in 0..a.0.len() {
        chk!(same_keypoint(&a.0[i], &b.0[i]), "{}: keypoint {:?} instead of {:?}", what, b.0[i], a.0[i]);
        chk!(a.1[i].bytes() == b.1[i].bytes(), "{}: other descriptor for {:?}", what, a.0[i]);
    }
    Ok(())
}

fn extract_check(c: &ExtractCase, obs: &mut Obs) -> Check {
    let mut img = c.scene.image();
    let eight = |x: u32, y: u32| Luma([(img.at(x as usize, y as usize) * 255.0).round() as u8]);
    let dynamic = DynamicImage::ImageLuma8(ImageBuffer::from_fn(img.w as u32, img.h as u32, eight));
    if c.eight_bit {
        img = Im::of(&GrayFloatImage::from_dynamic(&dynamic));
    }
    let g = img.float();
    let a = c.conf.akaze();
    let all = a.extract_from_gray_float_image(&g);
    let n = all.0.len();
    chk!(all.1.len() == n, "{} keypoints with {} descriptors", n, all.1.len());
    if c.conf.octaves == 0 || img.w < 40 || img.h < 40 {
        chk!(n == 0, "{} features without any level", n);
        obs.label("no level");
    }
    for (i, k) in all.0.iter().enumerate() {
        chk!(k.response > c.conf.threshold as f32 && k.response.is_finite(), "response {} with threshold {}", k.response, c.conf.threshold);
        chk!(i == 0 || all.0[i - 1].response >= k.response, "keypoint {} has a stronger response than the one before it", i);
        let (x, y) = k.point;
        chk!(x >= 0.0 && y >= 0.0 && x <= (img.w - 1) as f32 && y <= (img.h - 1) as f32, "keypoint at {:?} in an image of {} x {}", k.point, img.w, img.h);
        chk!(k.angle >= 0.0 && k.angle <= std::f32::consts::TAU, "angle {}", k.angle);
        chk!((k.octave as u32) < c.conf.octaves, "octave {}", k.octave);
    }
    same_features(&all, &a.extract_from_gray_float_image(&g), "second run")?;
    // What the constructors promise about the threshold, with everything else as in the default.
    for (what, t, made) in [
        ("new", c.conf.threshold, Akaze::new(c.conf.threshold)),
        ("sparse", 0.01, Akaze::sparse()),
        ("dense", 0.0001, Akaze::dense()),
        ("default", 0.001, Akaze::default()),
    ] {
        chk!(made.detector_threshold == t, "Akaze::{} has a threshold of {} instead of {}", what, made.detector_threshold, t);
        let rest = Akaze { detector_threshold: t, ..Akaze::default() };
        chk!(format!("{:?}", made) == format!("{:?}", rest), "Akaze::{} changes more than the threshold: {:?}", what, made);
    }
    if c.eight_bit {
        same_features(&all, &a.extract(&dynamic), "image of 8 bits")?;
    }
    // The parallel build, feature by feature.
    {
        let mut pg = ak_par::image::GrayFloatImage::new(img.w, img.h);
        for y in 0..img.h {
            for x in 0..img.w {
                pg.put(x, y, g.get(x, y));
            }
        }
        let p = c.conf.parallel().extract_from_gray_float_image(&pg);
        let kps = p
            .0
            .iter()
            .map(|k| KeyPoint { point: k.point, response: k.response, size: k.size, octave: k.octave, class_id: k.class_id, angle: k.angle })
            .collect();
        same_features(&all, &(kps, p.1), "parallel")?;
    }
    // The strongest keypoints are taken before those too close to the border for a descriptor are dropped.
    {
        let mut ev = a.cvcheck_scale_space(&g);
        let mut kps = a.find_image_keypoints(&mut ev);
        kps.sort_by(|a, b| b.response.partial_cmp(&a.response).unwrap());
        if kps.windows(2).all(|w| w[0].response != w[1].response) {
            same_features(&a.extract_descriptors(&ev, &kps), &all, "steps")?;
            kps.truncate(c.limit);
            let few = Akaze { maximum_features: c.limit, ..a }.extract_from_gray_float_image(&g);
            same_features(&a.extract_descriptors(&ev, &kps), &few, "limited number of features")?;
            obs.label_if(few.0.len() < n, "limit reached");
        }
    }
    // An image that is darker by a power of two, with the threshold of its smaller determinants: all roundings agree.
    let (gx, gy) = scharr_ref(&img.blur(1.0));
    if gx.max_abs().max(gy.max_abs()) > 1e-3 {
        let f = 0.5f64.powi(c.darker as i32);
        let mut dark = img.clone();
        dark.d.iter_mut().for_each(|v| *v *= f);
        let b = Conf { threshold: c.conf.threshold * f * f, ..c.conf }.akaze();
        let mut d = b.extract_from_gray_float_image(&dark.float());
        d.0.iter_mut().for_each(|k| k.response /= (f * f) as f32);
        same_features(&all, &d, "darker image")?;
    }
    obs.label(match n {
        0 => "no feature",
        1..=9 => "1-9 features",
        10..=99 => "10-99 features",
        _ => "100+ features",
    });
    if n > 0 {
        obs.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MoveCase {
    scene: Scene,
    threshold: f64,
    channels: usize,
    /// What is done to the image: a shift, or one of the eight symmetries of the square.
    shift: [i32; 2],
    symmetry: u8,
}

const CANVAS: usize = 304;

fn move_strat() -> BoxedStrategy<MoveCase> {
    (
        scene(side(40, 100), side(40, 100)),
        -4.5..-2.5f64,
        1usize..4,
        [-12i32..13, -12i32..13],
        prop_oneof![2 => Just(0u8), 3 => 1u8..8],
    )
        .prop_map(|(scene, t, channels, shift, symmetry)| MoveCase { scene, threshold: 10f64.powf(t), channels, shift, symmetry })
        .boxed()
}

fn move_check(c: &MoveCase, obs: &mut Obs) -> Check {
    // The scene in the middle of a larger canvas, fading into it.
    let s = Scene { w: c.scene.w, h: c.scene.h, ..c.scene.clone() }.image();
    let (ox, oy) = ((CANVAS - s.w) / 2, (CANVAS - s.h) / 2);
    let base = (c.scene.base * 256.0).round() / 256.0;
    let canvas = |dx: i32, dy: i32| {
        Im::new(CANVAS, CANVAS, |x, y| {
            let (x, y) = (x as i32 - dx - ox as i32, y as i32 - dy - oy as i32);
            if x < 0 || y < 0 || x >= s.w as i32 || y >= s.h as i32 {
                return base;
            }
            let (u, v) = (2.0 * (x as f64 + 0.5) / s.w as f64 - 1.0, 2.0 * (y as f64 + 0.5) / s.h as f64 - 1.0);
            let fade = (1.0 - u * u) * (1.0 - v * v);
            base + fade * (s.at(x as usize, y as usize) - base)
        })
        .rounded()
    };
    let a = Akaze { max_octave_evolution: 2, descriptor_channels: c.channels, detector_threshold: c.threshold, ..Akaze::default() };
    let first = canvas(0, 0);
    let n = CANVAS - 1;
    // Where a pixel and a direction of the first image are in the second one.
    let (flip_x, flip_y, swap) = (c.symmetry & 1 != 0, c.symmetry & 2 != 0, c.symmetry & 4 != 0);
    let shift = [2 * c.shift[0], 2 * c.shift[1]];
    let (second, what) = if c.symmetry == 0 {
        (canvas(shift[0], shift[1]), "moved")
    } else {
        let back = |x: usize, y: usize| {
            let (x, y) = (if flip_x { n - x } else { x }, if flip_y { n - y } else { y });
            if swap { (y, x) } else { (x, y) }
        };
        let turned = flip_x as u8 + flip_y as u8 + swap as u8;
        (Im::new(CANVAS, CANVAS, |x, y| { let (x, y) = back(x, y); first.at(x, y) }), if turned % 2 == 0 { "turned" } else { "mirrored" })
    };
    let place = |p: (f32, f32)| {
        let p = [p.0 as f64, p.1 as f64];
        if c.symmetry == 0 {
            return [p[0] + shift[0] as f64, p[1] + shift[1] as f64];
        }
        let p = if swap { [p[1], p[0]] } else { p };
        [if flip_x { n as f64 - p[0] } else { p[0] }, if flip_y { n as f64 - p[1] } else { p[1] }]
    };
    let direction = |a: f32| {
        let d = [(a as f64).cos(), (a as f64).sin()];
        let d = if swap { [d[1], d[0]] } else { d };
        (if flip_y { -d[1] } else { d[1] }).atan2(if flip_x { -d[0] } else { d[0] })
    };
    let f = a.extract_from_gray_float_image(&first.float());
    let g = a.extract_from_gray_float_image(&second.float());
    let key = |t: &'static str, u: &'static str, v: &'static str| match what {
        "moved" => t,
        "turned" => u,
        _ => v,
    };
    for (k, d) in f.0.iter().zip(&f.1) {
        // Those that stay far enough from the border for the whole pattern of their level.
        let margin = 10.0 * std::f64::consts::SQRT_2 * k.size as f64 / 2.0 + 4.0;
        let inside = |p: [f64; 2]| p.iter().all(|v| *v >= margin && *v <= n as f64 - margin);
        let p = place(k.point);
        if !inside(p) || !inside([k.point.0 as f64, k.point.1 as f64]) || k.response < 1.01 * c.threshold as f32 {
            continue;
        }
        let near = g.0.iter().zip(&g.1).find(|(m, _)| {
            m.class_id == k.class_id && (m.point.0 as f64 - p[0]).hypot(m.point.1 as f64 - p[1]) < 0.05 * k.size as f64 && (m.response / k.response - 1.0).abs() < 0.05
        });
        obs.rate(key("moved: keypoint lost", "turned: keypoint lost", "mirrored: keypoint lost"), LOST[match what { "moved" => 0, "turned" => 1, _ => 2 }], near.is_none());
        if let Some((m, e)) = near {
            let err = (direction(k.angle) - m.angle as f64).rem_euclid(std::f64::consts::TAU);
            let err = err.min(std::f64::consts::TAU - err);
            obs.rate(key("moved: other angle", "turned: other angle", "mirrored: other angle"), ANGLE[match what { "moved" => 0, "turned" => 1, _ => 2 }], err > if what == "moved" { 0.05 } else { 0.35 });
            if what != "mirrored" && err < 0.05 {
                let bits: u32 = d.bytes().iter().zip(e.bytes()).map(|(a, b)| (a ^ b).count_ones()).sum();
                obs.rate(key("moved: other descriptor", "turned: other descriptor", ""), if what == "moved" { 0.01 } else { 0.04 }, bits > 25);
            }
        }
        obs.nontrivial();
    }
    obs.label(what);
    Ok(())
}

/// Accepted shares for moved, turned and mirrored images.
const LOST: [f64; 3] = [0.01, 0.02, 0.02];
const ANGLE: [f64; 3] = [0.01, 0.08, 0.08];

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "C29",
            assumptions: &[],
            laws: vec![
                law("filters", "image sizes (also smaller than the kernels) x kernels of 1-23 values; non-trivial: all cases", 300_000, 3_000_000, || {
                    (small_side(), small_side(), any::<u64>(), prop_oneof![Just(1.0), (-3.0..3.0f64).prop_map(|e| 10f64.powf(e))], kernel(), kernel())
                        .prop_map(|(w, h, seed, amp, row, col)| FilterCase { w, h, seed, amp, row, col })
                        .boxed()
                }, filter_check),
                law("blur_and_half_size", "image sizes x sigma x kernel radius; non-trivial: at least 2 x 2 pixels", 90_000, 1_000_000, || {
                    (small_side(), small_side(), any::<u64>(), 0.3..5.0f64, 0usize..12)
                        .prop_map(|(w, h, seed, sigma, radius)| BlurCase { w, h, seed, sigma, radius })
                        .boxed()
                }, blur_check),
            ],
        },
        Property { id: "C30", assumptions: &[], laws: vec![law("schedule", "image sizes x levels x scales; non-trivial: at least two levels", 1_000_000, 20_000_000, schedule_strat, schedule_check)] },
        Property { id: "C31", assumptions: &[], laws: vec![law("scale_space", "scenes x configurations; non-trivial: the contrast could be measured", 3_000, 60_000, space_strat, space_check)] },
        Property { id: "C32", assumptions: &[], laws: vec![law("detector_response", "level images x configurations; non-trivial: at least one level was compared", 9_000, 200_000, response_strat, response_check)] },
        Property { id: "C33", assumptions: &[], laws: vec![law("keypoints", "level fields x configurations; non-trivial: at least one keypoint", 3_000, 60_000, detect_strat, detect_check)] },
        Property { id: "C34", assumptions: &[], laws: vec![law("descriptors", "level fields x configurations x keypoints; non-trivial: at least one descriptor was compared", 3_000, 60_000, describe_strat, describe_check)] },
        Property {
            id: "C35",
            assumptions: &[],
            laws: vec![
                law("extract", "scenes of any size x configurations; non-trivial: at least one feature", 800, 30_000, extract_strat, extract_check),
                law("symmetries", "scenes on a canvas, shifted, turned and mirrored; non-trivial: at least one keypoint far from the border", 500, 20_000, move_strat, move_check),
            ],
        },
    ]
}
