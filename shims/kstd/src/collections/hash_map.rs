use std::borrow::Borrow;
use std::hash::{BuildHasher, Hash};

/// Hashing is not modelled: equality alone decides membership.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct RandomState;
impl RandomState {
    pub fn new() -> Self {
        RandomState
    }
}
impl BuildHasher for RandomState {
    type Hasher = std::collections::hash_map::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        ::core::panic!("hashing is not modelled")
    }
}
pub use std::collections::hash_map::DefaultHasher;

pub struct HashMap<K, V, S = RandomState> {
    v: Vec<(K, V)>,
    s: S,
}

impl<K: Clone, V: Clone, S: Clone> Clone for HashMap<K, V, S> {
    fn clone(&self) -> Self {
        HashMap { v: self.v.clone(), s: self.s.clone() }
    }
}
impl<K: std::fmt::Debug, V: std::fmt::Debug, S> std::fmt::Debug for HashMap<K, V, S> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_map().entries(self.iter()).finish()
    }
}
impl<K, V, S: Default> Default for HashMap<K, V, S> {
    fn default() -> Self {
        Self::with_hasher(S::default())
    }
}
impl<K, V> HashMap<K, V, RandomState> {
    pub fn new() -> Self {
        Self::with_hasher(RandomState)
    }
    pub fn with_capacity(_n: usize) -> Self {
        Self::new()
    }
}
impl<K, V, S> HashMap<K, V, S> {
    pub fn with_hasher(s: S) -> Self {
        HashMap { v: Vec::new(), s }
    }
    pub fn with_capacity_and_hasher(_n: usize, s: S) -> Self {
        Self::with_hasher(s)
    }
    pub fn hasher(&self) -> &S {
        &self.s
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    pub fn capacity(&self) -> usize {
        self.v.capacity()
    }
    pub fn clear(&mut self) {
        self.v.clear()
    }
    pub fn shrink_to_fit(&mut self) {}
    pub fn reserve(&mut self, _n: usize) {}
    pub fn iter(&self) -> Iter<'_, K, V> {
        Iter(self.v.iter())
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
        IterMut(self.v.iter_mut())
    }
    pub fn keys(&self) -> Keys<'_, K, V> {
        Keys(self.iter())
    }
    pub fn values(&self) -> Values<'_, K, V> {
        Values(self.iter())
    }
    pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
        ValuesMut(self.iter_mut())
    }
    pub fn into_keys(self) -> IntoKeys<K, V> {
        IntoKeys(self.v.into_iter())
    }
    pub fn into_values(self) -> IntoValues<K, V> {
        IntoValues(self.v.into_iter())
    }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        self.v.retain_mut(|(k, v)| f(k, v))
    }
    pub fn drain(&mut self) -> Drain<'_, K, V> {
        self.v.drain(..)
    }
}

impl<K: Eq + Hash, V, S> HashMap<K, V, S> {
    fn find<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        let mut i = 0;
        while i < self.v.len() {
            if self.v[i].0.borrow() == k {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    /// Place a key known to be absent; returns its position.
    fn place(&mut self, k: K, v: V) -> usize {
        let n = self.v.len();
        let i = crate::place(n);
        if i >= n {
            self.v.push((k, v));
            n
        } else {
            self.v.insert(i, (k, v));
            i
        }
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.find(&k) {
            Some(i) => Some(std::mem::replace(&mut self.v[i].1, v)),
            None => {
                self.place(k, v);
                None
            }
        }
    }
    pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        match self.find(k) {
            Some(i) => Some(&self.v[i].1),
            None => None,
        }
    }
    pub fn get_key_value<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<(&K, &V)>
    where
        K: Borrow<Q>,
    {
        match self.find(k) {
            Some(i) => Some((&self.v[i].0, &self.v[i].1)),
            None => None,
        }
    }
    pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        match self.find(k) {
            Some(i) => Some(&mut self.v[i].1),
            None => None,
        }
    }
    pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.find(k).is_some()
    }
    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        match self.find(k) {
            Some(i) => Some(self.v.remove(i).1),
            None => None,
        }
    }
    pub fn remove_entry<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        match self.find(k) {
            Some(i) => Some(self.v.remove(i)),
            None => None,
        }
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V, S> {
        match self.find(&k) {
            Some(idx) => Entry::Occupied(OccupiedEntry { map: self, idx, key: k }),
            None => Entry::Vacant(VacantEntry { map: self, key: k }),
        }
    }
}

pub enum Entry<'a, K, V, S> {
    Occupied(OccupiedEntry<'a, K, V, S>),
    Vacant(VacantEntry<'a, K, V, S>),
}
pub struct OccupiedEntry<'a, K, V, S> {
    map: &'a mut HashMap<K, V, S>,
    idx: usize,
    key: K,
}
pub struct VacantEntry<'a, K, V, S> {
    map: &'a mut HashMap<K, V, S>,
    key: K,
}
impl<'a, K: Eq + Hash, V, S> Entry<'a, K, V, S> {
    pub fn or_insert(self, v: V) -> &'a mut V {
        match self {
            Entry::Occupied(e) => e.into_mut(),
            Entry::Vacant(e) => e.insert(v),
        }
    }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(e) => e.into_mut(),
            Entry::Vacant(e) => e.insert(f()),
        }
    }
    pub fn or_default(self) -> &'a mut V
    where
        V: Default,
    {
        match self {
            Entry::Occupied(e) => e.into_mut(),
            Entry::Vacant(e) => e.insert(V::default()),
        }
    }
    pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self {
        match self {
            Entry::Occupied(mut e) => {
                f(e.get_mut());
                Entry::Occupied(e)
            }
            e => e,
        }
    }
    pub fn key(&self) -> &K {
        match self {
            Entry::Occupied(e) => e.key(),
            Entry::Vacant(e) => e.key(),
        }
    }
}
impl<'a, K: Eq + Hash, V, S> OccupiedEntry<'a, K, V, S> {
    pub fn get(&self) -> &V {
        &self.map.v[self.idx].1
    }
    pub fn get_mut(&mut self) -> &mut V {
        &mut self.map.v[self.idx].1
    }
    pub fn into_mut(self) -> &'a mut V {
        &mut self.map.v[self.idx].1
    }
    pub fn insert(&mut self, v: V) -> V {
        std::mem::replace(self.get_mut(), v)
    }
    pub fn remove(self) -> V {
        self.map.v.remove(self.idx).1
    }
    pub fn remove_entry(self) -> (K, V) {
        self.map.v.remove(self.idx)
    }
    pub fn key(&self) -> &K {
        &self.key
    }
}
impl<'a, K: Eq + Hash, V, S> VacantEntry<'a, K, V, S> {
    pub fn insert(self, v: V) -> &'a mut V {
        let i = self.map.place(self.key, v);
        &mut self.map.v[i].1
    }
    pub fn key(&self) -> &K {
        &self.key
    }
    pub fn into_key(self) -> K {
        self.key
    }
}

pub struct Iter<'a, K, V>(std::slice::Iter<'a, (K, V)>);
impl<'a, K, V> Clone for Iter<'a, K, V> {
    fn clone(&self) -> Self {
        Iter(self.0.clone())
    }
}
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> {
        match self.0.next() {
            Some((k, v)) => Some((k, v)),
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}
pub struct IterMut<'a, K, V>(std::slice::IterMut<'a, (K, V)>);
impl<'a, K, V> Iterator for IterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    fn next(&mut self) -> Option<Self::Item> {
        match self.0.next() {
            Some((k, v)) => Some((&*k, v)),
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<'a, K, V> ExactSizeIterator for IterMut<'a, K, V> {}
pub type IntoIter<K, V> = std::vec::IntoIter<(K, V)>;
pub struct IntoKeys<K, V>(std::vec::IntoIter<(K, V)>);
impl<K, V> Iterator for IntoKeys<K, V> {
    type Item = K;
    fn next(&mut self) -> Option<K> {
        self.0.next().map(|x| x.0)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
pub struct IntoValues<K, V>(std::vec::IntoIter<(K, V)>);
impl<K, V> Iterator for IntoValues<K, V> {
    type Item = V;
    fn next(&mut self) -> Option<V> {
        self.0.next().map(|x| x.1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
pub struct Keys<'a, K, V>(Iter<'a, K, V>);
impl<'a, K, V> Clone for Keys<'a, K, V> {
    fn clone(&self) -> Self {
        Keys(self.0.clone())
    }
}
impl<'a, K, V> Iterator for Keys<'a, K, V> {
    type Item = &'a K;
    fn next(&mut self) -> Option<&'a K> {
        match self.0.next() {
            Some((k, _)) => Some(k),
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<'a, K, V> ExactSizeIterator for Keys<'a, K, V> {}
pub struct Values<'a, K, V>(Iter<'a, K, V>);
impl<'a, K, V> Iterator for Values<'a, K, V> {
    type Item = &'a V;
    fn next(&mut self) -> Option<&'a V> {
        match self.0.next() {
            Some((_, v)) => Some(v),
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<'a, K, V> ExactSizeIterator for Values<'a, K, V> {}
pub struct ValuesMut<'a, K, V>(IterMut<'a, K, V>);
impl<'a, K, V> Iterator for ValuesMut<'a, K, V> {
    type Item = &'a mut V;
    fn next(&mut self) -> Option<&'a mut V> {
        match self.0.next() {
            Some((_, v)) => Some(v),
            None => None,
        }
    }
}
impl<K, V, S> IntoIterator for HashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = IntoIter<K, V>;
    fn into_iter(self) -> IntoIter<K, V> {
        self.v.into_iter()
    }
}
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Iter<'a, K, V> {
        self.iter()
    }
}
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = IterMut<'a, K, V>;
    fn into_iter(self) -> IterMut<'a, K, V> {
        self.iter_mut()
    }
}
impl<K: Eq + Hash, V, S: Default> FromIterator<(K, V)> for HashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut m = Self::default();
        for (k, v) in it {
            m.insert(k, v);
        }
        m
    }
}
impl<K: Eq + Hash, V, S> Extend<(K, V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
impl<'a, K: Eq + Hash + Copy, V: Copy, S> Extend<(&'a K, &'a V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(*k, *v);
        }
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Eq + Hash, V: PartialEq, S> PartialEq for HashMap<K, V, S> {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).is_some_and(|w| *v == *w))
    }
}
impl<K: Eq + Hash, V: Eq, S> Eq for HashMap<K, V, S> {}
impl<Q: ?Sized + Eq + Hash, K: Eq + Hash + Borrow<Q>, V, S> std::ops::Index<&Q> for HashMap<K, V, S> {
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        self.get(k).expect("no entry found for key")
    }
}

pub type Drain<'a, K, V> = std::vec::Drain<'a, (K, V)>;
