//! Stand-in for the space crate.
pub trait Metric<P> {
    type Unit: Copy + Ord;
    fn distance(&self, a: &P, b: &P) -> Self::Unit;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Neighbor<Unit, Ix = usize> {
    pub index: Ix,
    pub distance: Unit,
}
pub trait Knn {
    type Ix: Copy;
    type Point;
    type Metric: Metric<Self::Point>;
    fn knn(&self, query: &Self::Point, num: usize) -> Vec<Neighbor<<Self::Metric as Metric<Self::Point>>::Unit, Self::Ix>>;
    fn nn(&self, query: &Self::Point) -> Option<Neighbor<<Self::Metric as Metric<Self::Point>>::Unit, Self::Ix>> {
        self.knn(query, 1).into_iter().next()
    }
}
pub trait KnnPoints: Knn {
    fn get_point(&self, index: Self::Ix) -> &Self::Point;
}
#[allow(clippy::type_complexity)]
pub trait KnnMap: KnnPoints {
    type Value;
    fn get_value(&self, index: Self::Ix) -> &Self::Value;
    fn knn_values(&self, query: &Self::Point, num: usize) -> Vec<(Neighbor<<Self::Metric as Metric<Self::Point>>::Unit, Self::Ix>, &Self::Value)> {
        self.knn(query, num).into_iter().map(|n| { let v = self.get_value(n.index); (n, v) }).collect()
    }
}
pub trait KnnInsert: KnnMap {
    fn insert(&mut self, key: Self::Point, value: Self::Value) -> Self::Ix;
}
