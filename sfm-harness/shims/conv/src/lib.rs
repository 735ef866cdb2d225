//! Stand-in for the value conversions of the conv crate that bicubic sampling uses.
pub trait ValueInto<T>: Sized {
    type Err: std::fmt::Debug;
    fn value_into(self) -> Result<T, Self::Err>;
}
macro_rules! into {
    ($($a:ty => $b:ty),*) => {$(
        impl ValueInto<$b> for $a {
            type Err = std::convert::Infallible;
            fn value_into(self) -> Result<$b, Self::Err> { Ok(self as $b) }
        }
    )*};
}
into!(u8 => f32, u16 => f32, f32 => f32, u8 => f64, u16 => f64, u32 => f64, f32 => f64, f64 => f64);
