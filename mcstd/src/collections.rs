//! Drop-in `std::collections` for the mirrored crate.
pub use std::collections::{
    binary_heap, btree_map, btree_set, linked_list, vec_deque, BTreeMap, BTreeSet, BinaryHeap,
    LinkedList, TryReserveError, VecDeque,
};

use crate::choice::order;
use std::borrow::Borrow;
use std::fmt;
use std::hash::{BuildHasherDefault, Hash};
use std::ops::{Deref, DerefMut, Index};

type Fixed = BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
type StdMap<K, V> = std::collections::HashMap<K, V, Fixed>;
type StdSet<K> = std::collections::HashSet<K, Fixed>;

pub mod hash_map {
    pub use super::HashMap;
    pub use std::collections::hash_map::{DefaultHasher, Entry, OccupiedEntry, RandomState, VacantEntry};
    use super::Ordered;
    /// lets an alias name a parameter it does not use
    pub trait Beside<X> {
        type It;
    }
    impl<T, X> Beside<X> for T {
        type It = T;
    }
    pub type Iter<'a, K, V> = Ordered<(&'a K, &'a V)>;
    pub type IterMut<'a, K, V> = Ordered<(&'a K, &'a mut V)>;
    pub type IntoIter<K, V> = Ordered<(K, V)>;
    pub type Drain<'a, K, V> = Ordered<(K, V)>;
    pub type Keys<'a, K, V> = Ordered<<&'a K as Beside<V>>::It>;
    pub type Values<'a, K, V> = Ordered<<&'a V as Beside<K>>::It>;
    pub type ValuesMut<'a, K, V> = Ordered<<&'a mut V as Beside<K>>::It>;
    pub type IntoKeys<K, V> = Ordered<<K as Beside<V>>::It>;
    pub type IntoValues<K, V> = Ordered<<V as Beside<K>>::It>;
}
pub mod hash_set {
    pub use super::HashSet;
    use super::Ordered;
    pub type Iter<'a, K> = Ordered<&'a K>;
    pub type IntoIter<K> = Ordered<K>;
    pub type Drain<'a, K> = Ordered<K>;
}

#[derive(Clone)]
pub struct HashMap<K, V>(StdMap<K, V>);

/// entries in the chosen order; chosen lazily, so that a loop that stops early makes no idle choices
pub struct Ordered<T> {
    items: Vec<Option<T>>,
    order: crate::choice::Order,
}

impl<T> Ordered<T> {
    fn new(items: impl Iterator<Item = T>) -> Self {
        let items: Vec<Option<T>> = items.map(Some).collect();
        let order = order(items.len());
        Ordered { items, order }
    }
}

impl<T> Iterator for Ordered<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let i = self.order.next()?;
        self.items[i].take()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.order.size_hint()
    }
}

impl<T> ExactSizeIterator for Ordered<T> {}
impl<T: Clone> Clone for Ordered<T> {
    fn clone(&self) -> Self {
        Ordered::new(self.items.iter().flatten().cloned())
    }
}
impl<T> std::iter::FusedIterator for Ordered<T> {}

impl<K, V> Deref for HashMap<K, V> {
    type Target = StdMap<K, V>;
    fn deref(&self) -> &StdMap<K, V> {
        &self.0
    }
}
impl<K, V> DerefMut for HashMap<K, V> {
    fn deref_mut(&mut self) -> &mut StdMap<K, V> {
        &mut self.0
    }
}

impl<K, V> HashMap<K, V> {
    pub fn new() -> Self {
        HashMap(StdMap::default())
    }
    pub fn with_capacity(n: usize) -> Self {
        HashMap(StdMap::with_capacity_and_hasher(n, Fixed::default()))
    }
    pub fn iter(&self) -> Ordered<(&K, &V)> {
        Ordered::new(self.0.iter())
    }
    pub fn iter_mut(&mut self) -> Ordered<(&K, &mut V)> {
        Ordered::new(self.0.iter_mut())
    }
    pub fn keys(&self) -> Ordered<&K> {
        Ordered::new(self.0.keys())
    }
    pub fn values(&self) -> Ordered<&V> {
        Ordered::new(self.0.values())
    }
    pub fn values_mut(&mut self) -> Ordered<&mut V> {
        Ordered::new(self.0.values_mut())
    }
    pub fn drain(&mut self) -> Ordered<(K, V)> {
        Ordered::new(self.0.drain())
    }
    pub fn into_keys(self) -> Ordered<K> {
        Ordered::new(self.0.into_keys())
    }
    pub fn into_values(self) -> Ordered<V> {
        Ordered::new(self.0.into_values())
    }
    pub fn retain<F>(&mut self, mut f: F)
    where
        K: Eq + Hash,
        F: FnMut(&K, &mut V) -> bool,
    {
        let all: Vec<(K, V)> = Ordered::new(self.0.drain()).collect();
        for (k, mut v) in all {
            if f(&k, &mut v) {
                self.0.insert(k, v);
            }
        }
    }
}

impl<K, V> Default for HashMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Eq + Hash, V: PartialEq> PartialEq for HashMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<K: Eq + Hash, V: Eq> Eq for HashMap<K, V> {}
impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for HashMap<K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        HashMap(it.into_iter().collect())
    }
}
impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        self.0.extend(it)
    }
}
impl<'a, K: Eq + Hash + Copy, V: Copy> Extend<(&'a K, &'a V)> for HashMap<K, V> {
    fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: I) {
        self.0.extend(it)
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V> Index<&Q> for HashMap<K, V> {
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        self.0.get(k).expect("no entry found for key")
    }
}
impl<K, V> IntoIterator for HashMap<K, V> {
    type Item = (K, V);
    type IntoIter = Ordered<(K, V)>;
    fn into_iter(self) -> Self::IntoIter {
        Ordered::new(self.0.into_iter())
    }
}
impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = Ordered<(&'a K, &'a V)>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = Ordered<(&'a K, &'a mut V)>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}

#[derive(Clone)]
pub struct HashSet<K>(StdSet<K>);

impl<K> Deref for HashSet<K> {
    type Target = StdSet<K>;
    fn deref(&self) -> &StdSet<K> {
        &self.0
    }
}
impl<K> DerefMut for HashSet<K> {
    fn deref_mut(&mut self) -> &mut StdSet<K> {
        &mut self.0
    }
}
impl<K> HashSet<K> {
    pub fn new() -> Self {
        HashSet(StdSet::default())
    }
    pub fn with_capacity(n: usize) -> Self {
        HashSet(StdSet::with_capacity_and_hasher(n, Fixed::default()))
    }
    pub fn iter(&self) -> Ordered<&K> {
        Ordered::new(self.0.iter())
    }
    pub fn drain(&mut self) -> Ordered<K> {
        Ordered::new(self.0.drain())
    }
    pub fn retain<F>(&mut self, mut f: F)
    where
        K: Eq + Hash,
        F: FnMut(&K) -> bool,
    {
        let all: Vec<K> = Ordered::new(self.0.drain()).collect();
        for k in all {
            if f(&k) {
                self.0.insert(k);
            }
        }
    }
}
impl<K: Eq + Hash> HashSet<K> {
    pub fn union<'a>(&'a self, o: &'a Self) -> Ordered<&'a K> {
        Ordered::new(self.0.union(&o.0))
    }
    pub fn intersection<'a>(&'a self, o: &'a Self) -> Ordered<&'a K> {
        Ordered::new(self.0.intersection(&o.0))
    }
    pub fn difference<'a>(&'a self, o: &'a Self) -> Ordered<&'a K> {
        Ordered::new(self.0.difference(&o.0))
    }
    pub fn symmetric_difference<'a>(&'a self, o: &'a Self) -> Ordered<&'a K> {
        Ordered::new(self.0.symmetric_difference(&o.0))
    }
    pub fn is_disjoint(&self, o: &Self) -> bool {
        self.0.is_disjoint(&o.0)
    }
    pub fn is_subset(&self, o: &Self) -> bool {
        self.0.is_subset(&o.0)
    }
    pub fn is_superset(&self, o: &Self) -> bool {
        self.0.is_superset(&o.0)
    }
}
impl<K: Eq + Hash + Clone> std::ops::BitOr for &HashSet<K> {
    type Output = HashSet<K>;
    fn bitor(self, o: Self) -> HashSet<K> {
        HashSet(self.0.union(&o.0).cloned().collect())
    }
}
impl<K: Eq + Hash + Clone> std::ops::BitAnd for &HashSet<K> {
    type Output = HashSet<K>;
    fn bitand(self, o: Self) -> HashSet<K> {
        HashSet(self.0.intersection(&o.0).cloned().collect())
    }
}
impl<K: Eq + Hash + Clone> std::ops::Sub for &HashSet<K> {
    type Output = HashSet<K>;
    fn sub(self, o: Self) -> HashSet<K> {
        HashSet(self.0.difference(&o.0).cloned().collect())
    }
}
impl<K> Default for HashSet<K> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Eq + Hash> PartialEq for HashSet<K> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<K: Eq + Hash> Eq for HashSet<K> {}
impl<K: fmt::Debug> fmt::Debug for HashSet<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<K: Eq + Hash> FromIterator<K> for HashSet<K> {
    fn from_iter<I: IntoIterator<Item = K>>(it: I) -> Self {
        HashSet(it.into_iter().collect())
    }
}
impl<K: Eq + Hash> Extend<K> for HashSet<K> {
    fn extend<I: IntoIterator<Item = K>>(&mut self, it: I) {
        self.0.extend(it)
    }
}
impl<'a, K: Eq + Hash + Copy + 'a> Extend<&'a K> for HashSet<K> {
    fn extend<I: IntoIterator<Item = &'a K>>(&mut self, it: I) {
        self.0.extend(it)
    }
}
impl<K: Eq + Hash, const N: usize> From<[K; N]> for HashSet<K> {
    fn from(a: [K; N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K> IntoIterator for HashSet<K> {
    type Item = K;
    type IntoIter = Ordered<K>;
    fn into_iter(self) -> Self::IntoIter {
        Ordered::new(self.0.into_iter())
    }
}
impl<'a, K> IntoIterator for &'a HashSet<K> {
    type Item = &'a K;
    type IntoIter = Ordered<&'a K>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
