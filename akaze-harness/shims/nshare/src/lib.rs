//! Stand-in for the two nshare conversions that akaze uses.
use image::{ImageBuffer, Luma};
use ndarray::{ArrayView2, ArrayViewMut2};

pub trait RefNdarray2 {
    type Out;
    fn ref_ndarray2(self) -> Self::Out;
}
pub trait MutNdarray2 {
    type Out;
    fn mut_ndarray2(self) -> Self::Out;
}
impl<'a> RefNdarray2 for &'a ImageBuffer<Luma<f32>, Vec<f32>> {
    type Out = ArrayView2<'a, f32>;
    fn ref_ndarray2(self) -> Self::Out {
        ArrayView2::from_slice((self.height() as usize, self.width() as usize), self.as_raw())
    }
}
impl<'a> MutNdarray2 for &'a mut ImageBuffer<Luma<f32>, Vec<f32>> {
    type Out = ArrayViewMut2<'a, f32>;
    fn mut_ndarray2(self) -> Self::Out {
        let dim = (self.height() as usize, self.width() as usize);
        ArrayViewMut2::from_slice(dim, std::ops::DerefMut::deref_mut(self))
    }
}
