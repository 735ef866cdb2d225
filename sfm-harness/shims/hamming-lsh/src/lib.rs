//! Stand-in for hamming-lsh: a bag hashes to the set of codewords that are nearest to its members
//! (judged by the first 8 bytes, which is enough to make equal bags equal and similar bags similar).
use bitarray::BitArray;
use serde1 as serde;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "serde1")]
pub struct HammingHasher<const B: usize, const H: usize> {
    words: Vec<u64>,
}
fn head<const B: usize>(b: &BitArray<B>) -> u64 {
    let mut h = [0; 8];
    h.copy_from_slice(&b.bytes()[..8]);
    u64::from_le_bytes(h)
}
impl<const B: usize, const H: usize> HammingHasher<B, H> {
    pub fn new_with_codewords(codewords: Vec<BitArray<B>>) -> Self {
        assert_eq!(codewords.len(), H * 8);
        HammingHasher { words: codewords.iter().map(head).collect() }
    }
    pub fn hash_bag<'a>(&self, bag: impl IntoIterator<Item = &'a BitArray<B>>) -> BitArray<H> {
        let mut out = BitArray::zeros();
        for d in bag {
            let h = head(d);
            let at = (0..self.words.len()).min_by_key(|&i| (self.words[i] ^ h).count_ones()).unwrap();
            out.bytes_mut()[at / 8] |= 1 << (at % 8);
        }
        out
    }
}
