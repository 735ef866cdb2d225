//! Stand-in for the part of slotmap 1 that cv-sfm uses. Keys are handed out as there: slots are
//! reused last in first out with a higher version, values are kept dense with swap-remove.
use serde1 as serde;
use serde::{Deserialize, Serialize};
use std::marker::PhantomData;
use std::ops::{Index, IndexMut};

#[doc(hidden)]
pub use serde1 as __serde;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[serde(crate = "serde1")]
pub struct KeyData {
    idx: u32,
    version: u32,
}
impl std::fmt::Debug for KeyData {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}v{}", self.idx, self.version)
    }
}
impl KeyData {
    pub fn null() -> Self {
        KeyData { idx: u32::MAX, version: 1 }
    }
    pub fn is_null(self) -> bool {
        self == Self::null()
    }
    pub fn as_ffi(self) -> u64 {
        ((self.version as u64) << 32) | self.idx as u64
    }
    pub fn from_ffi(v: u64) -> Self {
        KeyData { idx: v as u32, version: (v >> 32) as u32 | 1 }
    }
}
impl Default for KeyData {
    fn default() -> Self {
        Self::null()
    }
}

pub trait Key: From<KeyData> + Copy + Clone + Default + Eq + PartialEq + Ord + PartialOrd + std::hash::Hash + std::fmt::Debug {
    fn data(&self) -> KeyData;
    fn null() -> Self {
        KeyData::null().into()
    }
    fn is_null(&self) -> bool {
        self.data().is_null()
    }
}

#[macro_export]
macro_rules! new_key_type {
    ($($(#[$m:meta])* $vis:vis struct $name:ident;)*) => {$(
        $(#[$m])*
        #[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
        #[repr(transparent)]
        $vis struct $name($crate::KeyData);
        impl From<$crate::KeyData> for $name {
            fn from(k: $crate::KeyData) -> Self { $name(k) }
        }
        impl $crate::Key for $name {
            fn data(&self) -> $crate::KeyData { self.0 }
        }
        impl $crate::__serde::Serialize for $name {
            fn serialize<S: $crate::__serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                $crate::__serde::Serialize::serialize(&self.0, s)
            }
        }
        impl<'de> $crate::__serde::Deserialize<'de> for $name {
            fn deserialize<D: $crate::__serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                Ok($name(<$crate::KeyData as $crate::__serde::Deserialize>::deserialize(d)?))
            }
        }
    )*};
}
new_key_type! { pub struct DefaultKey; }

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(crate = "serde1")]
struct Slot {
    /// Odd while occupied.
    version: u32,
    /// Index of the value, or the next free slot.
    at: u32,
}

macro_rules! slot_map {
    ($map:ident) => {
        #[derive(Clone, Debug, Serialize, Deserialize)]
        #[serde(crate = "serde1")]
        pub struct $map<K, V> {
            keys: Vec<KeyData>,
            values: Vec<V>,
            slots: Vec<Slot>,
            free: u32,
            #[serde(skip)]
            kind: PhantomData<fn(K) -> K>,
        }
        impl<K: Key, V> Default for $map<K, V> {
            fn default() -> Self {
                $map { keys: vec![], values: vec![], slots: vec![Slot { version: 0, at: 0 }], free: 1, kind: PhantomData }
            }
        }
        impl<K: Key, V> $map<K, V> {
            pub fn with_key() -> Self {
                Self::default()
            }
            pub fn with_capacity_and_key(_: usize) -> Self {
                Self::default()
            }
            pub fn reserve(&mut self, _: usize) {}
            pub fn capacity(&self) -> usize {
                self.values.capacity()
            }
            pub fn len(&self) -> usize {
                self.keys.len()
            }
            pub fn is_empty(&self) -> bool {
                self.keys.is_empty()
            }
            fn find(&self, k: K) -> Option<usize> {
                let k = k.data();
                self.slots.get(k.idx as usize).filter(|s| s.version == k.version && k.version % 2 == 1).map(|s| s.at as usize)
            }
            pub fn contains_key(&self, k: K) -> bool {
                self.find(k).is_some()
            }
            pub fn get(&self, k: K) -> Option<&V> {
                self.find(k).map(|i| &self.values[i])
            }
            pub fn get_mut(&mut self, k: K) -> Option<&mut V> {
                self.find(k).map(move |i| &mut self.values[i])
            }
            pub fn insert(&mut self, v: V) -> K {
                self.insert_with_key(|_| v)
            }
            pub fn insert_with_key(&mut self, f: impl FnOnce(K) -> V) -> K {
                let at = self.values.len() as u32;
                let idx = self.free;
                let key = if let Some(s) = self.slots.get_mut(idx as usize) {
                    self.free = s.at;
                    s.version |= 1;
                    s.at = at;
                    KeyData { idx, version: s.version }
                } else {
                    self.slots.push(Slot { version: 1, at });
                    self.free = self.slots.len() as u32;
                    KeyData { idx, version: 1 }
                };
                self.keys.push(key);
                self.values.push(f(key.into()));
                key.into()
            }
            pub fn remove(&mut self, k: K) -> Option<V> {
                let i = self.find(k)?;
                let idx = k.data().idx;
                let s = &mut self.slots[idx as usize];
                s.version += 1;
                s.at = self.free;
                self.free = idx;
                self.keys.swap_remove(i);
                let v = self.values.swap_remove(i);
                if let Some(moved) = self.keys.get(i) {
                    self.slots[moved.idx as usize].at = i as u32;
                }
                Some(v)
            }
            pub fn retain(&mut self, mut f: impl FnMut(K, &mut V) -> bool) {
                let mut i = 0;
                while i < self.keys.len() {
                    let k: K = self.keys[i].into();
                    if f(k, &mut self.values[i]) {
                        i += 1;
                    } else {
                        self.remove(k);
                    }
                }
            }
            pub fn clear(&mut self) {
                self.retain(|_, _| false);
            }
            pub fn drain(&mut self) -> impl Iterator<Item = (K, V)> + '_ {
                std::iter::from_fn(move || {
                    let k: K = (*self.keys.last()?).into();
                    let v = self.remove(k)?;
                    Some((k, v))
                })
            }
            pub fn keys(&self) -> impl Iterator<Item = K> + Clone + ExactSizeIterator + '_ {
                self.keys.iter().map(|&k| k.into())
            }
            pub fn values(&self) -> std::slice::Iter<'_, V> {
                self.values.iter()
            }
            pub fn values_mut(&mut self) -> std::slice::IterMut<'_, V> {
                self.values.iter_mut()
            }
            pub fn iter(&self) -> impl Iterator<Item = (K, &V)> + Clone + ExactSizeIterator {
                self.keys.iter().zip(&self.values).map(|(&k, v)| (k.into(), v))
            }
            pub fn iter_mut(&mut self) -> impl Iterator<Item = (K, &mut V)> + ExactSizeIterator {
                self.keys.iter().zip(&mut self.values).map(|(&k, v)| (k.into(), v))
            }
        }
        impl<'a, K: Key, V> IntoIterator for &'a $map<K, V> {
            type Item = (K, &'a V);
            type IntoIter = std::iter::Map<std::iter::Zip<std::slice::Iter<'a, KeyData>, std::slice::Iter<'a, V>>, fn((&'a KeyData, &'a V)) -> (K, &'a V)>;
            fn into_iter(self) -> Self::IntoIter {
                self.keys.iter().zip(self.values.iter()).map(|(&k, v)| (k.into(), v))
            }
        }
        impl<'a, K: Key, V> IntoIterator for &'a mut $map<K, V> {
            type Item = (K, &'a mut V);
            type IntoIter = std::iter::Map<std::iter::Zip<std::slice::Iter<'a, KeyData>, std::slice::IterMut<'a, V>>, fn((&'a KeyData, &'a mut V)) -> (K, &'a mut V)>;
            fn into_iter(self) -> Self::IntoIter {
                self.keys.iter().zip(self.values.iter_mut()).map(|(&k, v)| (k.into(), v))
            }
        }
        impl<K: Key, V> IntoIterator for $map<K, V> {
            type Item = (K, V);
            type IntoIter = std::iter::Map<std::iter::Zip<std::vec::IntoIter<KeyData>, std::vec::IntoIter<V>>, fn((KeyData, V)) -> (K, V)>;
            fn into_iter(self) -> Self::IntoIter {
                self.keys.into_iter().zip(self.values).map(|(k, v)| (k.into(), v))
            }
        }
        impl<K: Key, V> Index<K> for $map<K, V> {
            type Output = V;
            fn index(&self, k: K) -> &V {
                self.get(k).expect("invalid SlotMap key used")
            }
        }
        impl<K: Key, V> IndexMut<K> for $map<K, V> {
            fn index_mut(&mut self, k: K) -> &mut V {
                self.get_mut(k).expect("invalid SlotMap key used")
            }
        }
    };
}
slot_map!(DenseSlotMap);
slot_map!(SlotMap);
slot_map!(HopSlotMap);
