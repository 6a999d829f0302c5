//! Verification stand-in for `hashbrown` 0.14: an association list behind the part
//! of the `HashMap` API the crate uses.  TRUSTED: the real map is a finite map keyed by
//! `Equivalent`; its iteration order is unspecified (here: insertion order).
use std::borrow::Borrow;
use std::fmt;
use std::mem::ManuallyDrop;

pub trait Equivalent<K: ?Sized> {
    fn equivalent(&self, key: &K) -> bool;
}
impl<Q: ?Sized + Eq, K: ?Sized + Borrow<Q>> Equivalent<K> for Q {
    fn equivalent(&self, key: &K) -> bool {
        *self == *key.borrow()
    }
}

pub struct HashMap<K, V> {
    // never dropped: breaks the recursive drop glue node -> children -> node (the
    // leak is not observable through the crate's API)
    e: ManuallyDrop<Vec<(K, V)>>,
}
impl<K, V> HashMap<K, V> {
    pub const fn new() -> Self {
        HashMap { e: ManuallyDrop::new(Vec::new()) }
    }
    pub fn with_capacity(_n: usize) -> Self {
        Self::new()
    }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn len(&self) -> usize {
        self.e.len()
    }
    pub fn is_empty(&self) -> bool {
        self.e.is_empty()
    }
    pub fn clear(&mut self) {
        self.e.clear()
    }
    pub fn iter(&self) -> Iter<'_, K, V> {
        Iter(self.e.iter())
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
        IterMut(self.e.iter_mut())
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> + Clone + ExactSizeIterator {
        self.e.iter().map(|x| &x.0)
    }
    pub fn values(&self) -> impl Iterator<Item = &V> + Clone + ExactSizeIterator {
        self.e.iter().map(|x| &x.1)
    }
    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> + ExactSizeIterator {
        self.e.iter_mut().map(|x| &mut x.1)
    }
    pub fn into_values(self) -> impl Iterator<Item = V> + ExactSizeIterator {
        ManuallyDrop::into_inner(self.e).into_iter().map(|x| x.1)
    }
    pub fn into_keys(self) -> impl Iterator<Item = K> + ExactSizeIterator {
        ManuallyDrop::into_inner(self.e).into_iter().map(|x| x.0)
    }
    pub fn drain(&mut self) -> std::vec::Drain<'_, (K, V)> {
        self.e.drain(..)
    }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        self.e.retain_mut(|x| f(&x.0, &mut x.1))
    }
    fn find<Q: ?Sized + Equivalent<K>>(&self, k: &Q) -> Option<usize> {
        let mut i = 0;
        while i < self.e.len() {
            if k.equivalent(&self.e[i].0) {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn get<Q: ?Sized + Equivalent<K>>(&self, k: &Q) -> Option<&V> {
        match self.find(k) {
            Some(i) => Some(&self.e[i].1),
            None => None,
        }
    }
    pub fn get_key_value<Q: ?Sized + Equivalent<K>>(&self, k: &Q) -> Option<(&K, &V)> {
        match self.find(k) {
            Some(i) => Some((&self.e[i].0, &self.e[i].1)),
            None => None,
        }
    }
    pub fn get_mut<Q: ?Sized + Equivalent<K>>(&mut self, k: &Q) -> Option<&mut V> {
        match self.find(k) {
            Some(i) => Some(&mut self.e[i].1),
            None => None,
        }
    }
    pub fn contains_key<Q: ?Sized + Equivalent<K>>(&self, k: &Q) -> bool {
        self.find(k).is_some()
    }
    pub fn remove<Q: ?Sized + Equivalent<K>>(&mut self, k: &Q) -> Option<V> {
        match self.find(k) {
            Some(i) => Some(self.e.remove(i).1),
            None => None,
        }
    }
    pub fn remove_entry<Q: ?Sized + Equivalent<K>>(&mut self, k: &Q) -> Option<(K, V)> {
        match self.find(k) {
            Some(i) => Some(self.e.remove(i)),
            None => None,
        }
    }
}
impl<K: Eq, V> HashMap<K, V> {
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let mut i = 0;
        while i < self.e.len() {
            if k == self.e[i].0 {
                return Some(std::mem::replace(&mut self.e[i].1, v));
            }
            i += 1;
        }
        self.e.push((k, v));
        None
    }
    pub fn try_insert(&mut self, k: K, v: V) -> Result<&mut V, V> {
        let mut i = 0;
        while i < self.e.len() {
            if k == self.e[i].0 {
                return Err(v);
            }
            i += 1;
        }
        self.e.push((k, v));
        Ok(&mut self.e.last_mut().unwrap().1)
    }
    pub fn entry(&mut self, k: K) -> hash_map::Entry<'_, K, V> {
        let mut i = 0;
        while i < self.e.len() {
            if k == self.e[i].0 {
                return hash_map::Entry::Occupied(hash_map::OccupiedEntry { m: self, i });
            }
            i += 1;
        }
        hash_map::Entry::Vacant(hash_map::VacantEntry { m: self, k })
    }
}
pub mod hash_map {
    pub use super::HashMap;
    pub enum Entry<'a, K, V> {
        Occupied(OccupiedEntry<'a, K, V>),
        Vacant(VacantEntry<'a, K, V>),
    }
    pub struct OccupiedEntry<'a, K, V> {
        pub(crate) m: &'a mut HashMap<K, V>,
        pub(crate) i: usize,
    }
    pub struct VacantEntry<'a, K, V> {
        pub(crate) m: &'a mut HashMap<K, V>,
        pub(crate) k: K,
    }
    impl<'a, K, V> OccupiedEntry<'a, K, V> {
        pub fn key(&self) -> &K {
            &self.m.e[self.i].0
        }
        pub fn get(&self) -> &V {
            &self.m.e[self.i].1
        }
        pub fn get_mut(&mut self) -> &mut V {
            &mut self.m.e[self.i].1
        }
        pub fn into_mut(self) -> &'a mut V {
            &mut self.m.e[self.i].1
        }
        pub fn insert(&mut self, v: V) -> V {
            std::mem::replace(&mut self.m.e[self.i].1, v)
        }
        pub fn remove(self) -> V {
            self.m.e.remove(self.i).1
        }
    }
    impl<'a, K, V> VacantEntry<'a, K, V> {
        pub fn key(&self) -> &K {
            &self.k
        }
        pub fn into_key(self) -> K {
            self.k
        }
        pub fn insert(self, v: V) -> &'a mut V {
            self.m.e.push((self.k, v));
            &mut self.m.e.last_mut().unwrap().1
        }
    }
    impl<'a, K, V> Entry<'a, K, V> {
        pub fn or_insert(self, v: V) -> &'a mut V {
            match self {
                Entry::Occupied(o) => o.into_mut(),
                Entry::Vacant(x) => x.insert(v),
            }
        }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(o) => o.into_mut(),
                Entry::Vacant(x) => x.insert(f()),
            }
        }
    }
}
pub struct Iter<'a, K, V>(std::slice::Iter<'a, (K, V)>);
impl<'a, K, V> Clone for Iter<'a, K, V> {
    fn clone(&self) -> Self {
        Iter(self.0.clone())
    }
}
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> {
        match self.0.next() {
            Some((a, b)) => Some((a, b)),
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}
pub struct IterMut<'a, K, V>(std::slice::IterMut<'a, (K, V)>);
impl<'a, K, V> Iterator for IterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    fn next(&mut self) -> Option<Self::Item> {
        match self.0.next() {
            Some((a, b)) => Some((&*a, b)),
            None => None,
        }
    }
}
impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Iter<'a, K, V> {
        self.iter()
    }
}
impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = IterMut<'a, K, V>;
    fn into_iter(self) -> IterMut<'a, K, V> {
        self.iter_mut()
    }
}
impl<K, V> IntoIterator for HashMap<K, V> {
    type Item = (K, V);
    type IntoIter = std::vec::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter {
        ManuallyDrop::into_inner(self.e).into_iter()
    }
}
impl<K: Eq, V> Extend<(K, V)> for HashMap<K, V> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
impl<K: Eq, V> FromIterator<(K, V)> for HashMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut m = Self::new();
        m.extend(it);
        m
    }
}
impl<K, V> Default for HashMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Clone, V: Clone> Clone for HashMap<K, V> {
    fn clone(&self) -> Self {
        HashMap { e: self.e.clone() }
    }
}
impl<K: Eq, V: PartialEq> PartialEq for HashMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len()
            && self.e.iter().all(|(k, v)| {
                o.e.iter().any(|(k2, v2)| k == k2 && v == v2)
            })
    }
}
impl<K: Eq, V: Eq> Eq for HashMap<K, V> {}
impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for HashMap<K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.iter()).finish()
    }
}
