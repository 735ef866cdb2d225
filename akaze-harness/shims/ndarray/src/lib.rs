//! Stand-in for the part of the ndarray crate that akaze uses (ndarray cannot be fetched here):
//! two-dimensional arrays and views, `s!`, `azip!`, `exact_chunks` and elementwise helpers.
use std::marker::PhantomData;
use std::ops::{Index, IndexMut, Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};

#[derive(Clone, Copy, Debug)]
pub struct SliceElem {
    start: isize,
    end: Option<isize>,
}

macro_rules! slice_from {
    ($($t:ty),*) => {$(
        impl From<Range<$t>> for SliceElem {
            fn from(r: Range<$t>) -> Self { SliceElem { start: r.start as isize, end: Some(r.end as isize) } }
        }
        impl From<RangeInclusive<$t>> for SliceElem {
            fn from(r: RangeInclusive<$t>) -> Self {
                let e = *r.end() as isize;
                SliceElem { start: *r.start() as isize, end: if e == -1 { None } else { Some(e + 1) } }
            }
        }
        impl From<RangeFrom<$t>> for SliceElem {
            fn from(r: RangeFrom<$t>) -> Self { SliceElem { start: r.start as isize, end: None } }
        }
        impl From<RangeTo<$t>> for SliceElem {
            fn from(r: RangeTo<$t>) -> Self { SliceElem { start: 0, end: Some(r.end as isize) } }
        }
        impl From<RangeToInclusive<$t>> for SliceElem {
            fn from(r: RangeToInclusive<$t>) -> Self {
                let e = r.end as isize;
                SliceElem { start: 0, end: if e == -1 { None } else { Some(e + 1) } }
            }
        }
    )*};
}
slice_from!(isize, usize, i32);

impl From<RangeFull> for SliceElem {
    fn from(_: RangeFull) -> Self {
        SliceElem { start: 0, end: None }
    }
}

impl SliceElem {
    /// First index and length along an axis of length `n`. Out of bounds slices panic, as in ndarray.
    fn resolve(self, n: usize) -> (usize, usize) {
        let n = n as isize;
        let fix = |i: isize| if i < 0 { n + i } else { i };
        let (a, b) = (fix(self.start), fix(self.end.unwrap_or(n)));
        assert!(a >= 0 && a <= n && b >= 0 && b <= n, "slice {}..{} is out of bounds of an axis of length {}", a, b, n);
        (a as usize, if b > a { (b - a) as usize } else { 0 })
    }
}

pub type SliceInfo2 = (SliceElem, SliceElem);

#[macro_export]
macro_rules! s {
    ($a:expr, $b:expr $(,)?) => {
        ($crate::SliceElem::from($a), $crate::SliceElem::from($b))
    };
}

#[derive(Clone, Debug, PartialEq)]
pub struct Array2<T> {
    data: Vec<T>,
    dim: (usize, usize),
}

#[derive(Debug)]
pub struct ArrayView2<'a, T> {
    ptr: *const T,
    dim: (usize, usize),
    stride: usize,
    life: PhantomData<&'a T>,
}

impl<'a, T> Clone for ArrayView2<'a, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'a, T> Copy for ArrayView2<'a, T> {}

#[derive(Debug)]
pub struct ArrayViewMut2<'a, T> {
    ptr: *mut T,
    dim: (usize, usize),
    stride: usize,
    life: PhantomData<&'a mut T>,
}

unsafe impl<'a, T: Sync> Send for ArrayView2<'a, T> {}
unsafe impl<'a, T: Sync> Sync for ArrayView2<'a, T> {}
unsafe impl<'a, T: Send> Send for ArrayViewMut2<'a, T> {}

pub trait AsView2<T> {
    fn as_view(&self) -> ArrayView2<'_, T>;
}
pub trait AsViewMut2<T> {
    fn as_view_mut(&mut self) -> ArrayViewMut2<'_, T>;
}

impl<T> AsView2<T> for Array2<T> {
    fn as_view(&self) -> ArrayView2<'_, T> {
        ArrayView2 { ptr: self.data.as_ptr(), dim: self.dim, stride: self.dim.1, life: PhantomData }
    }
}
impl<T> AsViewMut2<T> for Array2<T> {
    fn as_view_mut(&mut self) -> ArrayViewMut2<'_, T> {
        ArrayViewMut2 { ptr: self.data.as_mut_ptr(), dim: self.dim, stride: self.dim.1, life: PhantomData }
    }
}
impl<'a, T> AsView2<T> for ArrayView2<'a, T> {
    fn as_view(&self) -> ArrayView2<'_, T> {
        *self
    }
}
impl<'a, T> AsView2<T> for ArrayViewMut2<'a, T> {
    fn as_view(&self) -> ArrayView2<'_, T> {
        ArrayView2 { ptr: self.ptr, dim: self.dim, stride: self.stride, life: PhantomData }
    }
}
impl<'a, T> AsViewMut2<T> for ArrayViewMut2<'a, T> {
    fn as_view_mut(&mut self) -> ArrayViewMut2<'_, T> {
        ArrayViewMut2 { ptr: self.ptr, dim: self.dim, stride: self.stride, life: PhantomData }
    }
}

impl<T> Array2<T> {
    pub fn from_elem(dim: (usize, usize), v: T) -> Self
    where
        T: Clone,
    {
        Array2 { data: vec![v; dim.0 * dim.1], dim }
    }
    pub fn zeros(dim: (usize, usize)) -> Self
    where
        T: Clone + Default,
    {
        Self::from_elem(dim, T::default())
    }
    pub fn from_shape_fn(dim: (usize, usize), mut f: impl FnMut((usize, usize)) -> T) -> Self {
        let mut data = Vec::with_capacity(dim.0 * dim.1);
        for y in 0..dim.0 {
            for x in 0..dim.1 {
                data.push(f((y, x)));
            }
        }
        Array2 { data, dim }
    }
    pub fn from_shape_vec(dim: (usize, usize), data: Vec<T>) -> Result<Self, String> {
        if data.len() == dim.0 * dim.1 {
            Ok(Array2 { data, dim })
        } else {
            Err("incompatible shape".into())
        }
    }
    pub fn into_raw_vec(self) -> Vec<T> {
        self.data
    }
    pub fn as_slice(&self) -> Option<&[T]> {
        Some(&self.data)
    }
}

impl<'a, T> ArrayView2<'a, T> {
    pub fn from_slice(dim: (usize, usize), data: &'a [T]) -> Self {
        assert_eq!(dim.0 * dim.1, data.len());
        ArrayView2 { ptr: data.as_ptr(), dim, stride: dim.1, life: PhantomData }
    }
    fn at(&self, y: usize, x: usize) -> &'a T {
        assert!(y < self.dim.0 && x < self.dim.1, "index ({}, {}) of an array of {:?}", y, x, self.dim);
        unsafe { &*self.ptr.add(y * self.stride + x) }
    }
    fn sub(&self, s: SliceInfo2) -> ArrayView2<'a, T> {
        let ((y, h), (x, w)) = (s.0.resolve(self.dim.0), s.1.resolve(self.dim.1));
        ArrayView2 { ptr: unsafe { self.ptr.add(y * self.stride + x) }, dim: (h, w), stride: self.stride, life: PhantomData }
    }
}

impl<'a, T> ArrayViewMut2<'a, T> {
    pub fn from_slice(dim: (usize, usize), data: &'a mut [T]) -> Self {
        assert_eq!(dim.0 * dim.1, data.len());
        ArrayViewMut2 { ptr: data.as_mut_ptr(), dim, stride: dim.1, life: PhantomData }
    }
    fn sub_mut(&mut self, s: SliceInfo2) -> ArrayViewMut2<'_, T> {
        let ((y, h), (x, w)) = (s.0.resolve(self.dim.0), s.1.resolve(self.dim.1));
        ArrayViewMut2 { ptr: unsafe { self.ptr.add(y * self.stride + x) }, dim: (h, w), stride: self.stride, life: PhantomData }
    }
}

pub trait FromCount {
    fn from_count(n: usize) -> Self;
}
impl FromCount for f32 {
    fn from_count(n: usize) -> f32 {
        n as f32
    }
}
impl FromCount for f64 {
    fn from_count(n: usize) -> f64 {
        n as f64
    }
}

/// All the parts of a size.
pub struct Windows<'a, T> {
    v: ArrayView2<'a, T>,
    size: (usize, usize),
}
impl<'a, T> Windows<'a, T> {
    fn dim(&self) -> (usize, usize) {
        ((self.v.dim.0 + 1).saturating_sub(self.size.0), (self.v.dim.1 + 1).saturating_sub(self.size.1))
    }
    fn part(&self, i: usize) -> ArrayView2<'a, T> {
        let w = self.dim().1;
        let (y, x) = ((i / w) as i32, (i % w) as i32);
        self.v.sub((SliceElem::from(y..y + self.size.0 as i32), SliceElem::from(x..x + self.size.1 as i32)))
    }
}
impl<'a, T> IntoIterator for Windows<'a, T> {
    type Item = ArrayView2<'a, T>;
    type IntoIter = Box<dyn Iterator<Item = ArrayView2<'a, T>> + 'a>;
    fn into_iter(self) -> Self::IntoIter {
        let d = self.dim();
        Box::new((0..d.0 * d.1).map(move |i| self.part(i)))
    }
}
impl<'a, T> IntoNdProducer for Windows<'a, T> {
    type Item = ArrayView2<'a, T>;
    type Iter = Box<dyn Iterator<Item = ArrayView2<'a, T>> + 'a>;
    fn into_nd(self) -> ((usize, usize), Self::Iter) {
        (self.dim(), self.into_iter())
    }
}

macro_rules! readers {
    ($($imp:tt)*) => {
        $($imp)* {
            pub fn dim(&self) -> (usize, usize) { self.dim }
            pub fn raw_dim(&self) -> (usize, usize) { self.dim }
            pub fn nrows(&self) -> usize { self.dim.0 }
            pub fn ncols(&self) -> usize { self.dim.1 }
            pub fn len(&self) -> usize { self.dim.0 * self.dim.1 }
            pub fn is_empty(&self) -> bool { self.len() == 0 }
            pub fn shape(&self) -> [usize; 2] { [self.dim.0, self.dim.1] }
            pub fn view(&self) -> ArrayView2<'_, T> { self.as_view() }
            pub fn slice(&self, s: SliceInfo2) -> ArrayView2<'_, T> { self.as_view().sub(s) }
            pub fn iter(&self) -> Iter<'_, T> { Iter { v: self.as_view(), i: 0 } }
            pub fn indexed_iter(&self) -> impl Iterator<Item = ((usize, usize), &T)> {
                let w = self.dim.1;
                self.iter().enumerate().map(move |(i, v)| ((i / w, i % w), v))
            }
            pub fn get(&self, i: (usize, usize)) -> Option<&T> {
                if i.0 < self.dim.0 && i.1 < self.dim.1 { Some(self.as_view().at(i.0, i.1)) } else { None }
            }
            pub fn exact_chunks(&self, size: (usize, usize)) -> ExactChunks<'_, T> {
                ExactChunks { v: self.as_view(), size }
            }
            pub fn sum(&self) -> T where T: Clone + std::iter::Sum<T> { self.iter().cloned().sum() }
            pub fn mean(&self) -> Option<T> where T: Clone + std::iter::Sum<T> + std::ops::Div<Output = T> + FromCount {
                if self.is_empty() { None } else { Some(self.sum() / T::from_count(self.len())) }
            }
            pub fn fold<B>(&self, init: B, f: impl FnMut(B, &T) -> B) -> B { self.iter().fold(init, f) }
            pub fn for_each(&self, f: impl FnMut(&T)) { self.iter().for_each(f) }
            /// One row or column, as a view of one row or column.
            pub fn row(&self, y: usize) -> ArrayView2<'_, T> { self.slice((SliceElem::from(y as i32..y as i32 + 1), SliceElem::from(..))) }
            pub fn column(&self, x: usize) -> ArrayView2<'_, T> { self.slice((SliceElem::from(..), SliceElem::from(x as i32..x as i32 + 1))) }
            pub fn rows(&self) -> impl Iterator<Item = ArrayView2<'_, T>> { (0..self.dim.0).map(move |y| self.row(y)) }
            pub fn columns(&self) -> impl Iterator<Item = ArrayView2<'_, T>> { (0..self.dim.1).map(move |x| self.column(x)) }
            pub fn outer_iter(&self) -> impl Iterator<Item = ArrayView2<'_, T>> { self.rows() }
            pub fn windows(&self, size: (usize, usize)) -> Windows<'_, T> { Windows { v: self.as_view(), size } }
            pub fn map<U>(&self, f: impl FnMut(&T) -> U) -> Array2<U> {
                Array2 { data: self.iter().map(f).collect(), dim: self.dim }
            }
            pub fn mapv<U>(&self, mut f: impl FnMut(T) -> U) -> Array2<U> where T: Clone {
                self.map(|v| f(v.clone()))
            }
            pub fn to_owned(&self) -> Array2<T> where T: Clone { self.map(|v| v.clone()) }
        }
    };
}
readers!(impl<T> Array2<T>);
readers!(impl<'a, T> ArrayView2<'a, T>);
readers!(impl<'a, T> ArrayViewMut2<'a, T>);

macro_rules! writers {
    ($($imp:tt)*) => {
        $($imp)* {
            pub fn view_mut(&mut self) -> ArrayViewMut2<'_, T> { self.as_view_mut() }
            pub fn iter_mut(&mut self) -> IterMut<'_, T> {
                let v = self.as_view_mut();
                IterMut { ptr: v.ptr, dim: v.dim, stride: v.stride, i: 0, life: PhantomData }
            }
            pub fn fill(&mut self, x: T) where T: Clone { self.iter_mut().for_each(|v| *v = x.clone()) }
            pub fn mapv_inplace(&mut self, mut f: impl FnMut(T) -> T) where T: Clone {
                self.iter_mut().for_each(|v| *v = f(v.clone()))
            }
            pub fn map_inplace(&mut self, f: impl FnMut(&mut T)) { self.iter_mut().for_each(f) }
            pub fn zip_mut_with<U>(&mut self, rhs: &impl AsView2<U>, mut f: impl FnMut(&mut T, &U)) {
                let r = rhs.as_view();
                assert_eq!(self.dim, r.dim, "shapes differ");
                self.iter_mut().zip(Iter { v: r, i: 0 }).for_each(|(a, b)| f(a, b))
            }
            pub fn assign(&mut self, rhs: &impl AsView2<T>) where T: Clone {
                self.zip_mut_with(rhs, |a, b: &T| *a = b.clone())
            }
        }
    };
}
writers!(impl<T> Array2<T>);
writers!(impl<'a, T> ArrayViewMut2<'a, T>);

impl<T> Array2<T> {
    pub fn slice_mut(&mut self, s: SliceInfo2) -> ArrayViewMut2<'_, T> {
        let ((y, h), (x, w)) = (s.0.resolve(self.dim.0), s.1.resolve(self.dim.1));
        ArrayViewMut2 { ptr: unsafe { self.data.as_mut_ptr().add(y * self.dim.1 + x) }, dim: (h, w), stride: self.dim.1, life: PhantomData }
    }
}
impl<'a, T> ArrayViewMut2<'a, T> {
    pub fn slice_mut(&mut self, s: SliceInfo2) -> ArrayViewMut2<'_, T> {
        self.sub_mut(s)
    }
}

macro_rules! indexing {
    ($idx:ty, $i:ident => $y:expr, $x:expr) => {
        impl<T> Index<$idx> for Array2<T> {
            type Output = T;
            fn index(&self, $i: $idx) -> &T { self.as_view().at($y, $x) }
        }
        impl<'a, T> Index<$idx> for ArrayView2<'a, T> {
            type Output = T;
            fn index(&self, $i: $idx) -> &T { self.at($y, $x) }
        }
        impl<'a, T> Index<$idx> for ArrayViewMut2<'a, T> {
            type Output = T;
            fn index(&self, $i: $idx) -> &T { self.as_view().at($y, $x) }
        }
        impl<T> IndexMut<$idx> for Array2<T> {
            fn index_mut(&mut self, $i: $idx) -> &mut T {
                assert!($y < self.dim.0 && $x < self.dim.1);
                let w = self.dim.1;
                &mut self.data[$y * w + $x]
            }
        }
        impl<'a, T> IndexMut<$idx> for ArrayViewMut2<'a, T> {
            fn index_mut(&mut self, $i: $idx) -> &mut T {
                assert!($y < self.dim.0 && $x < self.dim.1);
                unsafe { &mut *self.ptr.add($y * self.stride + $x) }
            }
        }
    };
}
indexing!([usize; 2], i => i[0], i[1]);
indexing!((usize, usize), i => i.0, i.1);

pub struct Iter<'a, T> {
    v: ArrayView2<'a, T>,
    i: usize,
}
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        let (h, w) = self.v.dim;
        if self.i >= h * w {
            return None;
        }
        let (y, x) = (self.i / w, self.i % w);
        self.i += 1;
        Some(unsafe { &*self.v.ptr.add(y * self.v.stride + x) })
    }
}

pub struct IterMut<'a, T> {
    ptr: *mut T,
    dim: (usize, usize),
    stride: usize,
    i: usize,
    life: PhantomData<&'a mut T>,
}
impl<'a, T> Iterator for IterMut<'a, T> {
    type Item = &'a mut T;
    fn next(&mut self) -> Option<&'a mut T> {
        let (h, w) = self.dim;
        if self.i >= h * w {
            return None;
        }
        let (y, x) = (self.i / w, self.i % w);
        self.i += 1;
        Some(unsafe { &mut *self.ptr.add(y * self.stride + x) })
    }
}

pub struct ExactChunks<'a, T> {
    v: ArrayView2<'a, T>,
    size: (usize, usize),
}
pub struct ExactChunksIter<'a, T> {
    c: ExactChunks<'a, T>,
    i: usize,
}
impl<'a, T> ExactChunks<'a, T> {
    fn grid(&self) -> (usize, usize) {
        (self.v.dim.0 / self.size.0, self.v.dim.1 / self.size.1)
    }
}
impl<'a, T> Iterator for ExactChunksIter<'a, T> {
    type Item = ArrayView2<'a, T>;
    fn next(&mut self) -> Option<ArrayView2<'a, T>> {
        let (h, w) = self.c.grid();
        if self.i >= h * w {
            return None;
        }
        let (y, x) = ((self.i / w) * self.c.size.0, (self.i % w) * self.c.size.1);
        self.i += 1;
        Some(ArrayView2 { ptr: unsafe { self.c.v.ptr.add(y * self.c.v.stride + x) }, dim: self.c.size, stride: self.c.v.stride, life: PhantomData })
    }
}
impl<'a, T> IntoIterator for ExactChunks<'a, T> {
    type Item = ArrayView2<'a, T>;
    type IntoIter = ExactChunksIter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        ExactChunksIter { c: self, i: 0 }
    }
}

/// What `azip!` walks over in step.
pub trait IntoNdProducer {
    type Item;
    type Iter: Iterator<Item = Self::Item>;
    fn into_nd(self) -> ((usize, usize), Self::Iter);
}
impl<'a, T> IntoNdProducer for &'a Array2<T> {
    type Item = &'a T;
    type Iter = Iter<'a, T>;
    fn into_nd(self) -> ((usize, usize), Self::Iter) {
        (self.dim, self.iter())
    }
}
impl<'a, T> IntoNdProducer for &'a mut Array2<T> {
    type Item = &'a mut T;
    type Iter = IterMut<'a, T>;
    fn into_nd(self) -> ((usize, usize), Self::Iter) {
        (self.dim, self.iter_mut())
    }
}
impl<'a, T> IntoNdProducer for ArrayView2<'a, T> {
    type Item = &'a T;
    type Iter = Iter<'a, T>;
    fn into_nd(self) -> ((usize, usize), Self::Iter) {
        (self.dim, Iter { v: self, i: 0 })
    }
}
impl<'a, 'b, T> IntoNdProducer for &'b ArrayView2<'a, T> {
    type Item = &'b T;
    type Iter = Iter<'b, T>;
    fn into_nd(self) -> ((usize, usize), Self::Iter) {
        (self.dim, self.iter())
    }
}
impl<'a, T> IntoNdProducer for ArrayViewMut2<'a, T> {
    type Item = &'a mut T;
    type Iter = IterMut<'a, T>;
    fn into_nd(self) -> ((usize, usize), Self::Iter) {
        (self.dim, IterMut { ptr: self.ptr, dim: self.dim, stride: self.stride, i: 0, life: PhantomData })
    }
}
impl<'a, 'b, T> IntoNdProducer for &'b ArrayViewMut2<'a, T> {
    type Item = &'b T;
    type Iter = Iter<'b, T>;
    fn into_nd(self) -> ((usize, usize), Self::Iter) {
        (self.dim, self.iter())
    }
}
impl<'a, 'b, T> IntoNdProducer for &'b mut ArrayViewMut2<'a, T> {
    type Item = &'b mut T;
    type Iter = IterMut<'b, T>;
    fn into_nd(self) -> ((usize, usize), Self::Iter) {
        (self.dim, self.iter_mut())
    }
}
impl<'a, T> IntoNdProducer for ExactChunks<'a, T> {
    type Item = ArrayView2<'a, T>;
    type Iter = ExactChunksIter<'a, T>;
    fn into_nd(self) -> ((usize, usize), Self::Iter) {
        (self.grid(), self.into_iter())
    }
}
pub struct Joined<A, B>((usize, usize), std::iter::Zip<A, B>);
impl<A: Iterator, B: Iterator> IntoNdProducer for Joined<A, B> {
    type Item = (A::Item, B::Item);
    type Iter = std::iter::Zip<A, B>;
    fn into_nd(self) -> ((usize, usize), Self::Iter) {
        (self.0, self.1)
    }
}
pub fn join_nd<A: IntoNdProducer, B: IntoNdProducer>(a: A, b: B) -> Joined<A::Iter, B::Iter> {
    let ((da, ia), (db, ib)) = (a.into_nd(), b.into_nd());
    assert_eq!(da, db, "azip: shapes differ");
    Joined(da, ia.zip(ib))
}

#[macro_export]
macro_rules! azip_pat {
    ($p:pat) => { $p };
    ($p:pat, $($r:pat),+) => { ($p, $crate::azip_pat!($($r),+)) };
}
#[macro_export]
macro_rules! azip_join {
    ($e:expr) => { $e };
    ($e:expr, $($r:expr),+) => { $crate::join_nd($e, $crate::azip_join!($($r),+)) };
}
#[macro_export]
macro_rules! azip {
    ((index $i:pat, $($p:pat in $e:expr),+ $(,)?) $body:expr) => {{
        let ((_, w), all) = $crate::IntoNdProducer::into_nd($crate::azip_join!($($e),+));
        for (i, $crate::azip_pat!($($p),+)) in all.enumerate() {
            let $i = (i / w, i % w);
            $body;
        }
    }};
    (($($p:pat in $e:expr),+ $(,)?) $body:expr) => {
        for $crate::azip_pat!($($p),+) in $crate::IntoNdProducer::into_nd($crate::azip_join!($($e),+)).1 {
            $body;
        }
    };
}
#[macro_export]
macro_rules! par_azip {
    ($($t:tt)*) => { $crate::azip!($($t)*) };
}

/// Arrays of one shape, visited together.
pub struct Zip<A>(A);
impl<A: IntoNdProducer> Zip<A> {
    pub fn from(a: A) -> Self {
        Zip(a)
    }
    pub fn and<X: IntoNdProducer>(self, x: X) -> Zip2<A, X> {
        Zip2(self.0, x)
    }
    pub fn for_each(self, mut go: impl FnMut(A::Item)) {
        for a in self.0.into_nd().1 {
            go(a)
        }
    }
    pub fn map_collect<U>(self, mut go: impl FnMut(A::Item) -> U) -> Array2<U> {
        let (dim, all) = self.0.into_nd();
        Array2 { data: all.map(|a| go(a)).collect(), dim }
    }
}
pub struct Zip2<A, B>(A, B);
impl<A: IntoNdProducer, B: IntoNdProducer> Zip2<A, B> {
    pub fn and<X: IntoNdProducer>(self, x: X) -> Zip3<A, B, X> {
        Zip3(self.0, self.1, x)
    }
    pub fn for_each(self, mut go: impl FnMut(A::Item, B::Item)) {
        for (a, b) in join_nd(self.0, self.1).into_nd().1 {
            go(a, b)
        }
    }
    pub fn map_collect<U>(self, mut go: impl FnMut(A::Item, B::Item) -> U) -> Array2<U> {
        let (dim, all) = join_nd(self.0, self.1).into_nd();
        Array2 { data: all.map(|(a, b)| go(a, b)).collect(), dim }
    }
}
pub struct Zip3<A, B, C>(A, B, C);
impl<A: IntoNdProducer, B: IntoNdProducer, C: IntoNdProducer> Zip3<A, B, C> {
    pub fn and<X: IntoNdProducer>(self, x: X) -> Zip4<A, B, C, X> {
        Zip4(self.0, self.1, self.2, x)
    }
    pub fn for_each(self, mut go: impl FnMut(A::Item, B::Item, C::Item)) {
        for (a, (b, c)) in join_nd(self.0, join_nd(self.1, self.2)).into_nd().1 {
            go(a, b, c)
        }
    }
    pub fn map_collect<U>(self, mut go: impl FnMut(A::Item, B::Item, C::Item) -> U) -> Array2<U> {
        let (dim, all) = join_nd(self.0, join_nd(self.1, self.2)).into_nd();
        Array2 { data: all.map(|(a, (b, c))| go(a, b, c)).collect(), dim }
    }
}
pub struct Zip4<A, B, C, D>(A, B, C, D);
impl<A: IntoNdProducer, B: IntoNdProducer, C: IntoNdProducer, D: IntoNdProducer> Zip4<A, B, C, D> {
    pub fn and<X: IntoNdProducer>(self, x: X) -> Zip5<A, B, C, D, X> {
        Zip5(self.0, self.1, self.2, self.3, x)
    }
    pub fn for_each(self, mut go: impl FnMut(A::Item, B::Item, C::Item, D::Item)) {
        for (a, (b, (c, d))) in join_nd(self.0, join_nd(self.1, join_nd(self.2, self.3))).into_nd().1 {
            go(a, b, c, d)
        }
    }
    pub fn map_collect<U>(self, mut go: impl FnMut(A::Item, B::Item, C::Item, D::Item) -> U) -> Array2<U> {
        let (dim, all) = join_nd(self.0, join_nd(self.1, join_nd(self.2, self.3))).into_nd();
        Array2 { data: all.map(|(a, (b, (c, d)))| go(a, b, c, d)).collect(), dim }
    }
}
pub struct Zip5<A, B, C, D, E>(A, B, C, D, E);
impl<A: IntoNdProducer, B: IntoNdProducer, C: IntoNdProducer, D: IntoNdProducer, E: IntoNdProducer> Zip5<A, B, C, D, E> {
    pub fn and<X: IntoNdProducer>(self, x: X) -> Zip6<A, B, C, D, E, X> {
        Zip6(self.0, self.1, self.2, self.3, self.4, x)
    }
    pub fn for_each(self, mut go: impl FnMut(A::Item, B::Item, C::Item, D::Item, E::Item)) {
        for (a, (b, (c, (d, e)))) in join_nd(self.0, join_nd(self.1, join_nd(self.2, join_nd(self.3, self.4)))).into_nd().1 {
            go(a, b, c, d, e)
        }
    }
    pub fn map_collect<U>(self, mut go: impl FnMut(A::Item, B::Item, C::Item, D::Item, E::Item) -> U) -> Array2<U> {
        let (dim, all) = join_nd(self.0, join_nd(self.1, join_nd(self.2, join_nd(self.3, self.4)))).into_nd();
        Array2 { data: all.map(|(a, (b, (c, (d, e))))| go(a, b, c, d, e)).collect(), dim }
    }
}
pub struct Zip6<A, B, C, D, E, F>(A, B, C, D, E, F);
impl<A: IntoNdProducer, B: IntoNdProducer, C: IntoNdProducer, D: IntoNdProducer, E: IntoNdProducer, F: IntoNdProducer> Zip6<A, B, C, D, E, F> {
    pub fn for_each(self, mut go: impl FnMut(A::Item, B::Item, C::Item, D::Item, E::Item, F::Item)) {
        for (a, (b, (c, (d, (e, f))))) in join_nd(self.0, join_nd(self.1, join_nd(self.2, join_nd(self.3, join_nd(self.4, self.5))))).into_nd().1 {
            go(a, b, c, d, e, f)
        }
    }
    pub fn map_collect<U>(self, mut go: impl FnMut(A::Item, B::Item, C::Item, D::Item, E::Item, F::Item) -> U) -> Array2<U> {
        let (dim, all) = join_nd(self.0, join_nd(self.1, join_nd(self.2, join_nd(self.3, join_nd(self.4, self.5))))).into_nd();
        Array2 { data: all.map(|(a, (b, (c, (d, (e, f)))))| go(a, b, c, d, e, f)).collect(), dim }
    }
}

macro_rules! arithmetic {
    ($($tr:ident $f:ident $atr:ident $af:ident),*) => {$(
        impl<'a, 'b, T: Copy + std::ops::$tr<Output = T>> std::ops::$tr<&'b Array2<T>> for &'a Array2<T> {
            type Output = Array2<T>;
            fn $f(self, o: &'b Array2<T>) -> Array2<T> {
                assert_eq!(self.dim, o.dim);
                Array2 { data: self.iter().zip(o.iter()).map(|(a, b)| a.$f(*b)).collect(), dim: self.dim }
            }
        }
        impl<'a, T: Copy + std::ops::$tr<Output = T>> std::ops::$tr<T> for &'a Array2<T> {
            type Output = Array2<T>;
            fn $f(self, o: T) -> Array2<T> {
                self.map(|a| a.$f(o))
            }
        }
        impl<T: Copy + std::ops::$tr<Output = T>> std::ops::$tr<Array2<T>> for Array2<T> {
            type Output = Array2<T>;
            fn $f(self, o: Array2<T>) -> Array2<T> {
                std::ops::$tr::$f(&self, &o)
            }
        }
        impl<T: Copy + std::ops::$tr<Output = T>> std::ops::$tr<T> for Array2<T> {
            type Output = Array2<T>;
            fn $f(self, o: T) -> Array2<T> {
                self.map(|a| a.$f(o))
            }
        }
        impl<'b, T: Copy + std::ops::$tr<Output = T>> std::ops::$atr<&'b Array2<T>> for Array2<T> {
            fn $af(&mut self, o: &'b Array2<T>) {
                self.zip_mut_with(o, |a, b| *a = a.$f(*b));
            }
        }
        impl<T: Copy + std::ops::$tr<Output = T>> std::ops::$atr<T> for Array2<T> {
            fn $af(&mut self, o: T) {
                self.map_inplace(|a| *a = a.$f(o));
            }
        }
        impl<'a, 'b, T: Copy + std::ops::$tr<Output = T>> std::ops::$atr<&'b Array2<T>> for ArrayViewMut2<'a, T> {
            fn $af(&mut self, o: &'b Array2<T>) {
                self.zip_mut_with(o, |a, b| *a = a.$f(*b));
            }
        }
        impl<'a, T: Copy + std::ops::$tr<Output = T>> std::ops::$atr<T> for ArrayViewMut2<'a, T> {
            fn $af(&mut self, o: T) {
                self.map_inplace(|a| *a = a.$f(o));
            }
        }
    )*};
}
arithmetic!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign, Div div DivAssign div_assign);
