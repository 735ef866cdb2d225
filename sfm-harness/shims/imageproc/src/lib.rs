//! Stand-in for the definitions of imageproc 0.23 that cv-sfm uses.
pub mod definitions {
    pub type Image<P> = image::ImageBuffer<P, Vec<<P as image::Pixel>::Subpixel>>;
    /// Cuts to the range of the type and then to an integer.
    pub trait Clamp<T> {
        fn clamp(x: T) -> Self;
    }
    macro_rules! clamp {
        ($($from:ty => $to:ty),*) => {$(
            impl Clamp<$from> for $to {
                fn clamp(x: $from) -> $to {
                    if x < <$to>::MAX as $from {
                        if x > <$to>::MIN as $from { x as $to } else { <$to>::MIN }
                    } else {
                        <$to>::MAX
                    }
                }
            }
        )*};
    }
    clamp!(f32 => u8, f32 => u16, f64 => u8, f64 => u16, f32 => f32);
}
pub mod math {
    pub fn cast<T: conv::ValueInto<U>, U>(x: T) -> U {
        x.value_into().unwrap()
    }
}
