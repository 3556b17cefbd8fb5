//! `std` as the sources see it under Kani: the hash containers are association lists (the same
//! observable behaviour apart from the order of iteration, which here is that of insertion).
pub use ::std::*;
pub mod collections {
    pub use super::maps::{HashMap, HashSet};
    pub use ::std::collections::*;
    pub mod hash_map {
        pub use super::super::maps::{Entry, HashMap, OccupiedEntry, VacantEntry};
    }
    pub mod hash_set {
        pub use super::super::maps::HashSet;
    }
}
/// The only file is the one of `nd::file`.
#[cfg(ll)]
pub mod fs {
    pub use ::std::fs::*;
    pub fn read<P: AsRef<::std::path::Path>>(p: P) -> ::std::io::Result<Vec<u8>> {
        if p.as_ref().as_os_str().len() == 4 {
            Ok(unsafe { (*crate::file::CONTENTS.0.get()).clone() })
        } else {
            Err(::std::io::Error::from(::std::io::ErrorKind::NotFound))
        }
    }
}
pub mod maps {
    use ::std::borrow::Borrow;
    #[derive(Clone, Debug)]
    pub struct HashMap<K, V> {
        e: Vec<(K, V)>,
    }
    impl<K, V> Default for HashMap<K, V> {
        fn default() -> Self {
            Self { e: Vec::new() }
        }
    }
    pub struct Iter<'a, K, V>(::std::slice::Iter<'a, (K, V)>);
    impl<'a, K, V> Iterator for Iter<'a, K, V> {
        type Item = (&'a K, &'a V);
        fn next(&mut self) -> Option<Self::Item> {
            self.0.next().map(|(k, v)| (k, v))
        }
    }
    impl<K, V> ExactSizeIterator for Iter<'_, K, V> {
        fn len(&self) -> usize {
            self.0.len()
        }
    }
    impl<K: Eq, V> HashMap<K, V> {
        fn at<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize>
        where
            K: Borrow<Q>,
        {
            let mut i = 0;
            while i < self.e.len() {
                if self.e[i].0.borrow() == k {
                    return Some(i);
                }
                i += 1;
            }
            None
        }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            match self.at(&k) {
                Some(i) => Some(::std::mem::replace(&mut self.e[i].1, v)),
                None => {
                    self.e.push((k, v));
                    None
                }
            }
        }
        pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V>
        where
            K: Borrow<Q>,
        {
            self.at(k).map(|i| &self.e[i].1)
        }
        pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V>
        where
            K: Borrow<Q>,
        {
            self.at(k).map(|i| &mut self.e[i].1)
        }
        pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool
        where
            K: Borrow<Q>,
        {
            self.at(k).is_some()
        }
        pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            self.at(k).map(|i| self.e.swap_remove(i).1)
        }
        pub fn remove_entry<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<(K, V)>
        where
            K: Borrow<Q>,
        {
            self.at(k).map(|i| self.e.swap_remove(i))
        }
        pub fn get_key_value<Q: ?Sized + Eq>(&self, k: &Q) -> Option<(&K, &V)>
        where
            K: Borrow<Q>,
        {
            self.at(k).map(|i| (&self.e[i].0, &self.e[i].1))
        }
        pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
            match self.at(&k) {
                Some(at) => Entry::Occupied(OccupiedEntry { map: self, at }),
                None => Entry::Vacant(VacantEntry { map: self, key: k }),
            }
        }
    }
    pub struct OccupiedEntry<'a, K, V> {
        map: &'a mut HashMap<K, V>,
        at: usize,
    }
    pub struct VacantEntry<'a, K, V> {
        map: &'a mut HashMap<K, V>,
        key: K,
    }
    pub enum Entry<'a, K, V> {
        Occupied(OccupiedEntry<'a, K, V>),
        Vacant(VacantEntry<'a, K, V>),
    }
    impl<'a, K, V> OccupiedEntry<'a, K, V> {
        pub fn key(&self) -> &K {
            &self.map.e[self.at].0
        }
        pub fn get(&self) -> &V {
            &self.map.e[self.at].1
        }
        pub fn get_mut(&mut self) -> &mut V {
            &mut self.map.e[self.at].1
        }
        pub fn into_mut(self) -> &'a mut V {
            &mut self.map.e[self.at].1
        }
        pub fn insert(&mut self, v: V) -> V {
            ::std::mem::replace(&mut self.map.e[self.at].1, v)
        }
        pub fn remove(self) -> V {
            self.map.e.swap_remove(self.at).1
        }
    }
    impl<'a, K, V> VacantEntry<'a, K, V> {
        pub fn key(&self) -> &K {
            &self.key
        }
        pub fn insert(self, v: V) -> &'a mut V {
            self.map.e.push((self.key, v));
            let n = self.map.e.len();
            &mut self.map.e[n - 1].1
        }
    }
    impl<'a, K, V> Entry<'a, K, V> {
        pub fn or_insert(self, v: V) -> &'a mut V {
            self.or_insert_with(|| v)
        }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => e.insert(f()),
            }
        }
        pub fn or_default(self) -> &'a mut V
        where
            V: Default,
        {
            self.or_insert_with(V::default)
        }
        pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
            if let Entry::Occupied(e) = &mut self {
                f(e.get_mut())
            }
            self
        }
        pub fn key(&self) -> &K {
            match self {
                Entry::Occupied(e) => e.key(),
                Entry::Vacant(e) => e.key(),
            }
        }
    }
    impl<K, V> HashMap<K, V> {
        pub fn capacity(&self) -> usize {
            self.e.capacity()
        }
        pub fn shrink_to_fit(&mut self) {}
        pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> {
            self.e.iter_mut().map(|(k, v)| (&*k, v))
        }
        pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> {
            self.e.iter_mut().map(|(_, v)| v)
        }
        pub fn into_keys(self) -> impl Iterator<Item = K> {
            self.e.into_iter().map(|(k, _)| k)
        }
        pub fn into_values(self) -> impl Iterator<Item = V> {
            self.e.into_iter().map(|(_, v)| v)
        }
        pub fn drain(&mut self) -> impl Iterator<Item = (K, V)> + '_ {
            self.e.drain(..)
        }
        pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
            self.e.retain_mut(|(k, v)| f(k, v))
        }
        pub fn new() -> Self {
            Self { e: Vec::new() }
        }
        pub fn with_capacity(_n: usize) -> Self {
            Self { e: Vec::new() }
        }
        pub fn len(&self) -> usize {
            self.e.len()
        }
        pub fn is_empty(&self) -> bool {
            self.e.is_empty()
        }
        pub fn iter(&self) -> Iter<'_, K, V> {
            Iter(self.e.iter())
        }
        pub fn keys(&self) -> impl Iterator<Item = &K> {
            self.e.iter().map(|(k, _)| k)
        }
        pub fn values(&self) -> impl Iterator<Item = &V> {
            self.e.iter().map(|(_, v)| v)
        }
        pub fn reserve(&mut self, _n: usize) {}
        pub fn clear(&mut self) {
            self.e.clear()
        }
    }
    impl<K: Eq, V> Extend<(K, V)> for HashMap<K, V> {
        fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
            for (k, v) in i {
                self.insert(k, v);
            }
        }
    }
    impl<K: Eq, V> FromIterator<(K, V)> for HashMap<K, V> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
            let mut m = Self::new();
            m.extend(i);
            m
        }
    }
    impl<K: Eq, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
        fn from(a: [(K, V); N]) -> Self {
            a.into_iter().collect()
        }
    }
    impl<K, V> IntoIterator for HashMap<K, V> {
        type Item = (K, V);
        type IntoIter = ::std::vec::IntoIter<(K, V)>;
        fn into_iter(self) -> Self::IntoIter {
            self.e.into_iter()
        }
    }
    impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
        type Item = (&'a K, &'a V);
        type IntoIter = Iter<'a, K, V>;
        fn into_iter(self) -> Iter<'a, K, V> {
            self.iter()
        }
    }
    impl<K: Eq, V: PartialEq> PartialEq for HashMap<K, V> {
        fn eq(&self, o: &Self) -> bool {
            self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).map_or(false, |w| v == w))
        }
    }
    impl<K: Eq, V: Eq> Eq for HashMap<K, V> {}
    impl<K: Eq + Borrow<Q>, Q: Eq + ?Sized, V> ::std::ops::Index<&Q> for HashMap<K, V> {
        type Output = V;
        fn index(&self, k: &Q) -> &V {
            self.get(k).expect("no entry found for key")
        }
    }
    #[derive(Clone, Debug)]
    pub struct HashSet<K> {
        m: HashMap<K, ()>,
    }
    impl<K> Default for HashSet<K> {
        fn default() -> Self {
            Self { m: HashMap::new() }
        }
    }
    impl<K> HashSet<K> {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn with_capacity(_n: usize) -> Self {
            Self::default()
        }
        pub fn len(&self) -> usize {
            self.m.len()
        }
        pub fn is_empty(&self) -> bool {
            self.m.is_empty()
        }
        pub fn iter(&self) -> impl Iterator<Item = &K> {
            self.m.keys()
        }
    }
    impl<K: Eq> HashSet<K> {
        pub fn insert(&mut self, k: K) -> bool {
            self.m.insert(k, ()).is_none()
        }
        pub fn contains<Q: ?Sized + Eq>(&self, k: &Q) -> bool
        where
            K: Borrow<Q>,
        {
            self.m.contains_key(k)
        }
        pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&K>
        where
            K: Borrow<Q>,
        {
            self.m.get_key_value(k).map(|x| x.0)
        }
        pub fn retain<F: FnMut(&K) -> bool>(&mut self, mut f: F) {
            self.m.retain(|k, _| f(k))
        }
        pub fn difference<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a K> {
            self.iter().filter(move |k| !o.contains(*k))
        }
        pub fn intersection<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a K> {
            self.iter().filter(move |k| o.contains(*k))
        }
        pub fn union<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a K> {
            self.iter().chain(o.difference(self))
        }
        pub fn is_subset(&self, o: &Self) -> bool {
            self.iter().all(|k| o.contains(k))
        }
        pub fn is_superset(&self, o: &Self) -> bool {
            o.is_subset(self)
        }
        pub fn is_disjoint(&self, o: &Self) -> bool {
            !self.iter().any(|k| o.contains(k))
        }
        pub fn drain(&mut self) -> impl Iterator<Item = K> + '_ {
            self.m.drain().map(|x| x.0)
        }
        pub fn clear(&mut self) {
            self.m.clear()
        }
        pub fn reserve(&mut self, _n: usize) {}
        pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> bool
        where
            K: Borrow<Q>,
        {
            self.m.remove(k).is_some()
        }
    }
    impl<K: Eq> Extend<K> for HashSet<K> {
        fn extend<I: IntoIterator<Item = K>>(&mut self, i: I) {
            for k in i {
                self.insert(k);
            }
        }
    }
    impl<K: Eq> FromIterator<K> for HashSet<K> {
        fn from_iter<I: IntoIterator<Item = K>>(i: I) -> Self {
            let mut m = Self::new();
            m.extend(i);
            m
        }
    }
    impl<'a, K> IntoIterator for &'a HashSet<K> {
        type Item = &'a K;
        type IntoIter = Box<dyn Iterator<Item = &'a K> + 'a>;
        fn into_iter(self) -> Self::IntoIter {
            Box::new(self.iter())
        }
    }
    impl<K: Eq, const N: usize> From<[K; N]> for HashSet<K> {
        fn from(a: [K; N]) -> Self {
            a.into_iter().collect()
        }
    }
    impl<'a, K: Eq + Copy, V: Copy> Extend<(&'a K, &'a V)> for HashMap<K, V> {
        fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, i: I) {
            for (k, v) in i {
                self.insert(*k, *v);
            }
        }
    }
    impl<'a, K: Eq + Copy> Extend<&'a K> for HashSet<K> {
        fn extend<I: IntoIterator<Item = &'a K>>(&mut self, i: I) {
            for k in i {
                self.insert(*k);
            }
        }
    }
    impl<K> IntoIterator for HashSet<K> {
        type Item = K;
        type IntoIter = ::std::iter::Map<::std::vec::IntoIter<(K, ())>, fn((K, ())) -> K>;
        fn into_iter(self) -> Self::IntoIter {
            self.m.into_iter().map(|(k, _)| k)
        }
    }
    impl<K: Eq> PartialEq for HashSet<K> {
        fn eq(&self, o: &Self) -> bool {
            self.m == o.m
        }
    }
    impl<K: Eq> Eq for HashSet<K> {}
}
