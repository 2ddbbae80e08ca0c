use super::hash_map::{self, HashMap, RandomState};
use std::borrow::Borrow;
use std::hash::Hash;

pub struct HashSet<K, S = RandomState> {
    map: HashMap<K, (), S>,
}
impl<K: Clone, S: Clone> Clone for HashSet<K, S> {
    fn clone(&self) -> Self {
        HashSet { map: self.map.clone() }
    }
}
impl<K: std::fmt::Debug, S> std::fmt::Debug for HashSet<K, S> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_set().entries(self.iter()).finish()
    }
}
impl<K, S: Default> Default for HashSet<K, S> {
    fn default() -> Self {
        HashSet { map: HashMap::default() }
    }
}
impl<K> HashSet<K> {
    pub fn new() -> Self {
        HashSet { map: HashMap::new() }
    }
    pub fn with_capacity(_n: usize) -> Self { Self::new() }
}
impl<K, S> HashSet<K, S> {
    pub fn len(&self) -> usize {
        self.map.len()
    }
    pub fn is_empty(&self) -> bool {
        self.map.is_empty()
    }
    pub fn clear(&mut self) {
        self.map.clear()
    }
    pub fn iter(&self) -> hash_map::Keys<'_, K, ()> {
        self.map.keys()
    }
    pub fn retain<F: FnMut(&K) -> bool>(&mut self, mut f: F) {
        self.map.retain(|k, _| f(k))
    }
    pub fn drain(&mut self) -> std::vec::IntoIter<K> {
        self.map.drain().map(|x| x.0).collect::<Vec<_>>().into_iter()
    }
    pub fn with_hasher(s: S) -> Self {
        HashSet { map: HashMap::with_hasher(s) }
    }
}
impl<K: Eq + Hash, S> HashSet<K, S> {
    pub fn insert(&mut self, k: K) -> bool {
        if self.map.contains_key(&k) {
            false
        } else {
            self.map.insert(k, ());
            true
        }
    }
    pub fn replace(&mut self, k: K) -> Option<K> {
        let old = self.map.remove_entry(&k).map(|(k, _)| k);
        self.map.insert(k, ());
        old
    }
    pub fn contains<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.map.contains_key(k)
    }
    pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&K>
    where
        K: Borrow<Q>,
    {
        self.map.get_key_value(k).map(|(k, _)| k)
    }
    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.map.remove(k).is_some()
    }
    pub fn take<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<K>
    where
        K: Borrow<Q>,
    {
        self.map.remove_entry(k).map(|(k, _)| k)
    }
    pub fn difference<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a K> {
        self.iter().filter(move |k| !o.contains(*k))
    }
    pub fn intersection<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a K> {
        self.iter().filter(move |k| o.contains(*k))
    }
    pub fn union<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a K> {
        self.iter().chain(o.iter().filter(move |k| !self.contains(*k)))
    }
    pub fn is_subset(&self, o: &Self) -> bool {
        self.iter().all(|k| o.contains(k))
    }
    pub fn is_superset(&self, o: &Self) -> bool {
        o.is_subset(self)
    }
    pub fn is_disjoint(&self, o: &Self) -> bool {
        self.iter().all(|k| !o.contains(k))
    }
}
pub struct IntoIter<K>(hash_map::IntoIter<K, ()>);
impl<K> Iterator for IntoIter<K> {
    type Item = K;
    fn next(&mut self) -> Option<K> {
        match self.0.next() {
            Some((k, _)) => Some(k),
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<K> ExactSizeIterator for IntoIter<K> {}
impl<K, S> IntoIterator for HashSet<K, S> {
    type Item = K;
    type IntoIter = IntoIter<K>;
    fn into_iter(self) -> IntoIter<K> {
        IntoIter(self.map.into_iter())
    }
}
impl<'a, K, S> IntoIterator for &'a HashSet<K, S> {
    type Item = &'a K;
    type IntoIter = hash_map::Keys<'a, K, ()>;
    fn into_iter(self) -> hash_map::Keys<'a, K, ()> {
        self.iter()
    }
}
impl<K: Eq + Hash, S: Default> FromIterator<K> for HashSet<K, S> {
    fn from_iter<I: IntoIterator<Item = K>>(it: I) -> Self {
        let mut m = Self::default();
        for k in it {
            m.insert(k);
        }
        m
    }
}
impl<K: Eq + Hash, S> Extend<K> for HashSet<K, S> {
    fn extend<I: IntoIterator<Item = K>>(&mut self, it: I) {
        for k in it {
            self.insert(k);
        }
    }
}
impl<'a, K: Eq + Hash + Copy, S> Extend<&'a K> for HashSet<K, S> {
    fn extend<I: IntoIterator<Item = &'a K>>(&mut self, it: I) {
        for k in it {
            self.insert(*k);
        }
    }
}
impl<K: Eq + Hash, const N: usize> From<[K; N]> for HashSet<K> {
    fn from(a: [K; N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Eq + Hash, S> PartialEq for HashSet<K, S> {
    fn eq(&self, o: &Self) -> bool {
        self.map == o.map
    }
}
impl<K: Eq + Hash, S> Eq for HashSet<K, S> {}
