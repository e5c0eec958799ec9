// Stand-in for the part of the enum-map crate the repository uses (the crate is not available offline).
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Index, IndexMut};

pub use enum_map_derive::Enum;

pub trait Enum: Sized {
    const LENGTH: usize;
    fn into_usize(self) -> usize;
}

pub struct EnumMap<K, V> {
    v: Vec<V>,
    k: PhantomData<K>,
}

impl<K: Enum, V> EnumMap<K, V> {
    pub fn from_pairs(pairs: Vec<(K, V)>) -> Self {
        let mut slots: Vec<Option<V>> = (0..K::LENGTH).map(|_| None).collect();
        for (k, v) in pairs {
            slots[k.into_usize()] = Some(v);
        }
        EnumMap { v: slots.into_iter().map(|x| x.expect("enum_map! misses a key")).collect(), k: PhantomData }
    }
    pub fn values(&self) -> std::slice::Iter<'_, V> {
        self.v.iter()
    }
    pub fn values_mut(&mut self) -> std::slice::IterMut<'_, V> {
        self.v.iter_mut()
    }
}
impl<K: Enum, V> Index<K> for EnumMap<K, V> {
    type Output = V;
    fn index(&self, k: K) -> &V {
        &self.v[k.into_usize()]
    }
}
impl<K: Enum, V> IndexMut<K> for EnumMap<K, V> {
    fn index_mut(&mut self, k: K) -> &mut V {
        &mut self.v[k.into_usize()]
    }
}
impl<K, V: Clone> Clone for EnumMap<K, V> {
    fn clone(&self) -> Self {
        EnumMap { v: self.v.clone(), k: PhantomData }
    }
}
impl<K, V: PartialEq> PartialEq for EnumMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.v == o.v
    }
}
impl<K, V: Eq> Eq for EnumMap<K, V> {}
impl<K, V: fmt::Debug> fmt::Debug for EnumMap<K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.v.fmt(f)
    }
}
impl<K: Enum, V: Default> Default for EnumMap<K, V> {
    fn default() -> Self {
        EnumMap { v: (0..K::LENGTH).map(|_| V::default()).collect(), k: PhantomData }
    }
}

#[macro_export]
macro_rules! enum_map {
    ($($k:expr => $v:expr),* $(,)?) => {
        $crate::EnumMap::from_pairs(vec![$(($k, $v)),*])
    };
}
