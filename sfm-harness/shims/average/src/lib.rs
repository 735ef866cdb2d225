//! Stand-in for average::Mean.
#[derive(Clone, Copy, Debug, Default)]
pub struct Mean {
    mean: f64,
    n: u64,
}
impl Mean {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn add(&mut self, v: f64) {
        self.n += 1;
        self.mean += (v - self.mean) / self.n as f64;
    }
    pub fn mean(&self) -> f64 {
        self.mean
    }
    pub fn len(&self) -> u64 {
        self.n
    }
    pub fn is_empty(&self) -> bool {
        self.n == 0
    }
}
impl std::iter::FromIterator<f64> for Mean {
    fn from_iter<I: IntoIterator<Item = f64>>(i: I) -> Self {
        let mut m = Mean::new();
        i.into_iter().for_each(|v| m.add(v));
        m
    }
}
impl<'a> std::iter::FromIterator<&'a f64> for Mean {
    fn from_iter<I: IntoIterator<Item = &'a f64>>(i: I) -> Self {
        i.into_iter().copied().collect()
    }
}
