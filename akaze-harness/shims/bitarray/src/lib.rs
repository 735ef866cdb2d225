//! Stand-in for the bitarray crate.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct BitArray<const B: usize> {
    bytes: [u8; B],
}
impl<const B: usize> BitArray<B> {
    pub fn new(bytes: [u8; B]) -> Self {
        Self { bytes }
    }
    pub fn zeros() -> Self {
        Self { bytes: [0; B] }
    }
    pub fn bytes(&self) -> &[u8; B] {
        &self.bytes
    }
    pub fn bytes_mut(&mut self) -> &mut [u8; B] {
        &mut self.bytes
    }
    pub fn into_bytes(self) -> [u8; B] {
        self.bytes
    }
    pub fn weight(&self) -> u32 {
        self.bytes.iter().map(|b| b.count_ones()).sum()
    }
    pub fn distance(&self, o: &Self) -> u32 {
        self.bytes.iter().zip(&o.bytes).map(|(a, b)| (a ^ b).count_ones()).sum()
    }
}
impl<const B: usize> From<[u8; B]> for BitArray<B> {
    fn from(bytes: [u8; B]) -> Self {
        Self { bytes }
    }
}
impl<const B: usize> AsRef<[u8]> for BitArray<B> {
    fn as_ref(&self) -> &[u8] {
        &self.bytes
    }
}
impl<const B: usize> std::ops::Deref for BitArray<B> {
    type Target = [u8; B];
    fn deref(&self) -> &[u8; B] {
        &self.bytes
    }
}
impl<const B: usize> std::ops::DerefMut for BitArray<B> {
    fn deref_mut(&mut self) -> &mut [u8; B] {
        &mut self.bytes
    }
}

/// The number of different bits.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
#[cfg_attr(feature = "serde", derive(serde1::Serialize, serde1::Deserialize), serde(crate = "serde1"))]
pub struct Hamming;
#[cfg(feature = "space")]
impl<const B: usize> space::Metric<BitArray<B>> for Hamming {
    type Unit = u32;
    fn distance(&self, a: &BitArray<B>, b: &BitArray<B>) -> u32 {
        a.distance(b)
    }
}
#[cfg(feature = "serde")]
mod with_serde {
    use super::BitArray;
    use serde1 as serde;
    use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};
    impl<const B: usize> Serialize for BitArray<B> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            self.bytes.as_slice().serialize(s)
        }
    }
    impl<'de, const B: usize> Deserialize<'de> for BitArray<B> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let v = Vec::<u8>::deserialize(d)?;
            Ok(BitArray { bytes: v.try_into().map_err(|_| D::Error::custom("wrong number of bytes"))? })
        }
    }
}
