//! Stand-in for the part of the image crate that akaze uses: buffers, pixels and gray conversion.
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut, Index, IndexMut};

#[derive(Debug)]
pub struct ImageError(pub String);
impl std::fmt::Display for ImageError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for ImageError {}
pub type ImageResult<T> = Result<T, ImageError>;

pub fn open(_: impl AsRef<std::path::Path>) -> ImageResult<DynamicImage> {
    Err(ImageError("the stand-in cannot read files".into()))
}

/// Rec. 709 weights, rounded down for integers as the image crate does.
pub trait Primitive: Copy + Default + PartialEq + std::fmt::Debug {
    fn luma(rgb: [Self; 3]) -> Self;
}
macro_rules! int_luma {
    ($($t:ty),*) => {$(
        impl Primitive for $t {
            fn luma(c: [Self; 3]) -> Self {
                ((2126 * c[0] as u64 + 7152 * c[1] as u64 + 722 * c[2] as u64) / 10000) as $t
            }
        }
    )*};
}
int_luma!(u8, u16);
impl Primitive for f32 {
    fn luma(c: [f32; 3]) -> f32 {
        (2126.0 * c[0] + 7152.0 * c[1] + 722.0 * c[2]) / 10000.0
    }
}

pub trait Pixel: Copy {
    type Subpixel: Primitive;
    const CHANNEL_COUNT: u8;
    fn channels(&self) -> &[Self::Subpixel];
    fn channels_mut(&mut self) -> &mut [Self::Subpixel];
    fn from_slice(s: &[Self::Subpixel]) -> &Self;
    fn from_slice_mut(s: &mut [Self::Subpixel]) -> &mut Self;
    fn to_luma(&self) -> Luma<Self::Subpixel>;
    fn map(&self, mut f: impl FnMut(Self::Subpixel) -> Self::Subpixel) -> Self {
        let mut p = *self;
        p.apply(&mut f);
        p
    }
    fn apply(&mut self, mut f: impl FnMut(Self::Subpixel) -> Self::Subpixel) {
        self.channels_mut().iter_mut().for_each(|c| *c = f(*c));
    }
}

macro_rules! pixel {
    ($name:ident, $n:expr, $s:ident => $luma:expr) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
        #[repr(transparent)]
        pub struct $name<T>(pub [T; $n]);
        impl<T> Index<usize> for $name<T> {
            type Output = T;
            fn index(&self, i: usize) -> &T {
                &self.0[i]
            }
        }
        impl<T> IndexMut<usize> for $name<T> {
            fn index_mut(&mut self, i: usize) -> &mut T {
                &mut self.0[i]
            }
        }
        impl<T: Primitive> Pixel for $name<T> {
            type Subpixel = T;
            const CHANNEL_COUNT: u8 = $n;
            fn channels(&self) -> &[T] {
                &self.0
            }
            fn channels_mut(&mut self) -> &mut [T] {
                &mut self.0
            }
            fn from_slice(s: &[T]) -> &Self {
                assert_eq!(s.len(), $n);
                unsafe { &*(s.as_ptr() as *const Self) }
            }
            fn from_slice_mut(s: &mut [T]) -> &mut Self {
                assert_eq!(s.len(), $n);
                unsafe { &mut *(s.as_mut_ptr() as *mut Self) }
            }
            fn to_luma(&self) -> Luma<T> {
                let $s = self;
                Luma([$luma])
            }
        }
    };
}
pixel!(Luma, 1, s => s.0[0]);
pixel!(LumaA, 2, s => s.0[0]);
pixel!(Rgb, 3, s => T::luma([s.0[0], s.0[1], s.0[2]]));
pixel!(Rgba, 4, s => T::luma([s.0[0], s.0[1], s.0[2]]));

#[derive(Clone, Debug, PartialEq)]
pub struct ImageBuffer<P: Pixel, C> {
    width: u32,
    height: u32,
    data: C,
    pixel: PhantomData<P>,
}

impl<P: Pixel, C: Deref<Target = [P::Subpixel]>> ImageBuffer<P, C> {
    pub fn from_raw(width: u32, height: u32, data: C) -> Option<Self> {
        if data.len() >= width as usize * height as usize * P::CHANNEL_COUNT as usize {
            Some(ImageBuffer { width, height, data, pixel: PhantomData })
        } else {
            None
        }
    }
    pub fn into_raw(self) -> C {
        self.data
    }
    pub fn as_raw(&self) -> &C {
        &self.data
    }
    pub fn dimensions(&self) -> (u32, u32) {
        (self.width, self.height)
    }
    pub fn width(&self) -> u32 {
        self.width
    }
    pub fn height(&self) -> u32 {
        self.height
    }
    fn at(&self, x: u32, y: u32) -> usize {
        assert!(x < self.width && y < self.height, "pixel ({}, {}) of an image of {} x {}", x, y, self.width, self.height);
        (y as usize * self.width as usize + x as usize) * P::CHANNEL_COUNT as usize
    }
    pub fn get_pixel(&self, x: u32, y: u32) -> &P {
        let i = self.at(x, y);
        P::from_slice(&self.data[i..i + P::CHANNEL_COUNT as usize])
    }
    pub fn pixels(&self) -> impl Iterator<Item = &P> {
        self.data.chunks_exact(P::CHANNEL_COUNT as usize).map(P::from_slice)
    }
    pub fn get_pixel_checked(&self, x: u32, y: u32) -> Option<&P> {
        (x < self.width && y < self.height).then(|| self.get_pixel(x, y))
    }
    pub fn rows(&self) -> impl Iterator<Item = impl Iterator<Item = &P>> {
        let w = self.width as usize * P::CHANNEL_COUNT as usize;
        self.data.chunks_exact(w.max(1)).map(|r| r.chunks_exact(P::CHANNEL_COUNT as usize).map(P::from_slice))
    }
    pub fn enumerate_pixels(&self) -> impl Iterator<Item = (u32, u32, &P)> {
        let w = self.width;
        self.pixels().enumerate().map(move |(i, p)| ((i % w as usize) as u32, (i / w as usize) as u32, p))
    }
}

impl<P: Pixel, C: Deref<Target = [P::Subpixel]> + DerefMut> ImageBuffer<P, C> {
    pub fn get_pixel_mut(&mut self, x: u32, y: u32) -> &mut P {
        let i = self.at(x, y);
        P::from_slice_mut(&mut self.data[i..i + P::CHANNEL_COUNT as usize])
    }
    pub fn put_pixel(&mut self, x: u32, y: u32, p: P) {
        *self.get_pixel_mut(x, y) = p;
    }
    pub fn enumerate_pixels_mut(&mut self) -> impl Iterator<Item = (u32, u32, &mut P)> {
        let w = self.width;
        self.pixels_mut().enumerate().map(move |(i, p)| ((i % w as usize) as u32, (i / w as usize) as u32, p))
    }
    pub fn pixels_mut(&mut self) -> impl Iterator<Item = &mut P> {
        self.data.chunks_exact_mut(P::CHANNEL_COUNT as usize).map(P::from_slice_mut)
    }
}

impl<P: Pixel> ImageBuffer<P, Vec<P::Subpixel>> {
    pub fn new(width: u32, height: u32) -> Self {
        let n = width as usize * height as usize * P::CHANNEL_COUNT as usize;
        ImageBuffer { width, height, data: vec![Default::default(); n], pixel: PhantomData }
    }
    pub fn from_pixel(width: u32, height: u32, p: P) -> Self {
        Self::from_fn(width, height, |_, _| p)
    }
    pub fn from_fn(width: u32, height: u32, mut f: impl FnMut(u32, u32) -> P) -> Self {
        let mut data = Vec::new();
        for y in 0..height {
            for x in 0..width {
                data.extend_from_slice(f(x, y).channels());
            }
        }
        ImageBuffer { width, height, data, pixel: PhantomData }
    }
    pub fn into_vec(self) -> Vec<P::Subpixel> {
        self.data
    }
    pub fn from_vec(width: u32, height: u32, data: Vec<P::Subpixel>) -> Option<Self> {
        Self::from_raw(width, height, data)
    }
}

impl<P: Pixel, C: Deref<Target = [P::Subpixel]>> Deref for ImageBuffer<P, C> {
    type Target = [P::Subpixel];
    fn deref(&self) -> &[P::Subpixel] {
        &self.data
    }
}
impl<P: Pixel, C: Deref<Target = [P::Subpixel]> + DerefMut> DerefMut for ImageBuffer<P, C> {
    fn deref_mut(&mut self) -> &mut [P::Subpixel] {
        &mut self.data
    }
}
impl<P: Pixel, C: Deref<Target = [P::Subpixel]>> Index<(u32, u32)> for ImageBuffer<P, C> {
    type Output = P;
    fn index(&self, (x, y): (u32, u32)) -> &P {
        self.get_pixel(x, y)
    }
}

type Buf<P, T> = ImageBuffer<P, Vec<T>>;
pub type GrayImage = Buf<Luma<u8>, u8>;
pub type RgbImage = Buf<Rgb<u8>, u8>;
pub type RgbaImage = Buf<Rgba<u8>, u8>;

#[derive(Clone, Debug)]
pub enum DynamicImage {
    ImageLuma8(Buf<Luma<u8>, u8>),
    ImageLumaA8(Buf<LumaA<u8>, u8>),
    ImageRgb8(Buf<Rgb<u8>, u8>),
    ImageRgba8(Buf<Rgba<u8>, u8>),
    ImageLuma16(Buf<Luma<u16>, u16>),
    ImageLumaA16(Buf<LumaA<u16>, u16>),
    ImageRgb16(Buf<Rgb<u16>, u16>),
    ImageRgba16(Buf<Rgba<u16>, u16>),
    ImageRgb32F(Buf<Rgb<f32>, f32>),
    ImageRgba32F(Buf<Rgba<f32>, f32>),
}

fn convert<P: Pixel, Q: Pixel>(i: &Buf<P, P::Subpixel>, f: impl Fn(&P) -> Q) -> Buf<Q, Q::Subpixel> {
    ImageBuffer::from_fn(i.width(), i.height(), |x, y| f(i.get_pixel(x, y)))
}

impl DynamicImage {
    /// The variants of the results follow image 0.24.
    pub fn grayscale(&self) -> DynamicImage {
        use DynamicImage::*;
        match self {
            ImageLuma8(i) => ImageLuma8(i.clone()),
            ImageLuma16(i) => ImageLuma16(i.clone()),
            ImageLumaA8(i) => ImageLumaA8(i.clone()),
            ImageLumaA16(i) => ImageLumaA16(i.clone()),
            ImageRgb8(i) => ImageLuma8(convert(i, |p| p.to_luma())),
            ImageRgb16(i) => ImageLuma16(convert(i, |p| p.to_luma())),
            ImageRgba8(i) => ImageLumaA8(convert(i, |p| LumaA([p.to_luma()[0], p[3]]))),
            ImageRgba16(i) => ImageLumaA16(convert(i, |p| LumaA([p.to_luma()[0], p[3]]))),
            ImageRgb32F(i) => ImageRgb32F(convert(i, |p| Rgb([p.to_luma()[0]; 3]))),
            ImageRgba32F(i) => ImageRgba32F(convert(i, |p| {
                let l = p.to_luma()[0];
                Rgba([l, l, l, p[3]])
            })),
        }
    }
    /// Whole images of 8 bits only; others lose their lower bits.
    pub fn to_rgb8(&self) -> RgbImage {
        use DynamicImage::*;
        let high = |v: u16| ((v as u32 + 128) / 257) as u8;
        let unit = |v: f32| (v.clamp(0.0, 1.0) * 255.0).round() as u8;
        match self {
            ImageLuma8(i) => convert(i, |p| Rgb([p[0]; 3])),
            ImageLumaA8(i) => convert(i, |p| Rgb([p[0]; 3])),
            ImageRgb8(i) => i.clone(),
            ImageRgba8(i) => convert(i, |p| Rgb([p[0], p[1], p[2]])),
            ImageLuma16(i) => convert(i, |p| Rgb([high(p[0]); 3])),
            ImageLumaA16(i) => convert(i, |p| Rgb([high(p[0]); 3])),
            ImageRgb16(i) => convert(i, |p| Rgb([high(p[0]), high(p[1]), high(p[2])])),
            ImageRgba16(i) => convert(i, |p| Rgb([high(p[0]), high(p[1]), high(p[2])])),
            ImageRgb32F(i) => convert(i, |p| Rgb([unit(p[0]), unit(p[1]), unit(p[2])])),
            ImageRgba32F(i) => convert(i, |p| Rgb([unit(p[0]), unit(p[1]), unit(p[2])])),
        }
    }
    pub fn into_rgb8(self) -> RgbImage {
        self.to_rgb8()
    }
    pub fn as_luma8(&self) -> Option<&GrayImage> {
        if let DynamicImage::ImageLuma8(i) = self { Some(i) } else { None }
    }
    pub fn as_rgb8(&self) -> Option<&RgbImage> {
        if let DynamicImage::ImageRgb8(i) = self { Some(i) } else { None }
    }
    pub fn dimensions(&self) -> (u32, u32) {
        use DynamicImage::*;
        match self {
            ImageLuma8(i) => i.dimensions(),
            ImageLumaA8(i) => i.dimensions(),
            ImageRgb8(i) => i.dimensions(),
            ImageRgba8(i) => i.dimensions(),
            ImageLuma16(i) => i.dimensions(),
            ImageLumaA16(i) => i.dimensions(),
            ImageRgb16(i) => i.dimensions(),
            ImageRgba16(i) => i.dimensions(),
            ImageRgb32F(i) => i.dimensions(),
            ImageRgba32F(i) => i.dimensions(),
        }
    }
    pub fn width(&self) -> u32 {
        self.dimensions().0
    }
    pub fn height(&self) -> u32 {
        self.dimensions().1
    }
}

impl<P: Pixel, C: Deref<Target = [P::Subpixel]> + DerefMut> IndexMut<(u32, u32)> for ImageBuffer<P, C> {
    fn index_mut(&mut self, (x, y): (u32, u32)) -> &mut P {
        self.get_pixel_mut(x, y)
    }
}

pub trait GenericImageView {
    type Pixel: Pixel;
    fn dimensions(&self) -> (u32, u32);
    fn get_pixel(&self, x: u32, y: u32) -> Self::Pixel;
    fn width(&self) -> u32 {
        self.dimensions().0
    }
    fn height(&self) -> u32 {
        self.dimensions().1
    }
    fn in_bounds(&self, x: u32, y: u32) -> bool {
        x < self.width() && y < self.height()
    }
    /// Checked here all the same.
    ///
    /// # Safety
    /// The pixel must exist.
    unsafe fn unsafe_get_pixel(&self, x: u32, y: u32) -> Self::Pixel {
        self.get_pixel(x, y)
    }
}
impl<P: Pixel, C: Deref<Target = [P::Subpixel]>> GenericImageView for ImageBuffer<P, C> {
    type Pixel = P;
    fn dimensions(&self) -> (u32, u32) {
        ImageBuffer::dimensions(self)
    }
    fn get_pixel(&self, x: u32, y: u32) -> P {
        *ImageBuffer::get_pixel(self, x, y)
    }
}
