//! Stand-in for hgg::HggLite: an exact nearest neighbour search instead of an approximate one.
use serde1 as serde;
use serde::{Deserialize, Serialize};
pub use space;
use space::{Knn, KnnInsert, KnnMap, KnnPoints, Metric, Neighbor};

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "serde1")]
pub struct HggLite<M, K, V> {
    metric: M,
    items: Vec<(K, V)>,
}
impl<M: Default, K, V> Default for HggLite<M, K, V> {
    fn default() -> Self {
        Self::new(M::default())
    }
}
pub type Hgg<M, K, V> = HggLite<M, K, V>;
impl<M, K, V> HggLite<M, K, V> {
    pub fn new(metric: M) -> Self {
        HggLite { metric, items: vec![] }
    }
    pub fn insert_knn(self, _: usize) -> Self {
        self
    }
    pub fn exclude_all_searched(self, _: bool) -> Self {
        self
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    pub fn get_key(&self, i: usize) -> Option<&K> {
        self.items.get(i).map(|i| &i.0)
    }
    pub fn get_value(&self, i: usize) -> Option<&V> {
        self.items.get(i).map(|i| &i.1)
    }
    pub fn get_value_mut(&mut self, i: usize) -> Option<&mut V> {
        self.items.get_mut(i).map(|i| &mut i.1)
    }
}
impl<M: Metric<K>, K, V> Knn for HggLite<M, K, V> {
    type Ix = usize;
    type Point = K;
    type Metric = M;
    fn knn(&self, query: &K, num: usize) -> Vec<Neighbor<M::Unit>> {
        let mut v: Vec<_> = self.items.iter().enumerate().map(|(index, i)| Neighbor { index, distance: self.metric.distance(&i.0, query) }).collect();
        let by = |n: &Neighbor<M::Unit>| (n.distance, n.index);
        if num < v.len() {
            if num > 0 {
                v.select_nth_unstable_by_key(num - 1, by);
            }
            v.truncate(num);
        }
        v.sort_unstable_by_key(by);
        v
    }
}
impl<M: Metric<K>, K, V> KnnPoints for HggLite<M, K, V> {
    fn get_point(&self, i: usize) -> &K {
        &self.items[i].0
    }
}
impl<M: Metric<K>, K, V> KnnMap for HggLite<M, K, V> {
    type Value = V;
    fn get_value(&self, i: usize) -> &V {
        &self.items[i].1
    }
}
impl<M: Metric<K>, K, V> KnnInsert for HggLite<M, K, V> {
    fn insert(&mut self, k: K, v: V) -> usize {
        self.items.push((k, v));
        self.items.len() - 1
    }
}
