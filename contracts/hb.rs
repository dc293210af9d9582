//! Stand-in for the hash maps and sets keyed by text, in the extraction only. What is assumed of them is that they are
//! finite maps and sets keyed by the content of the text; the entry API is derived from that.
#![allow(unused_imports, dead_code, unused_variables)]
use crate::vspec::*;
use vstd::prelude::*;
use vstd::std_specs::iter::*;

verus! {

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> {
    m: std::collections::HashMap<K, V>,
}

impl<K, V> View for HashMap<K, V> {
    type V = Map<Seq<char>, V>;
    uninterp spec fn view(&self) -> Map<Seq<char>, V>;
}

/// the text of a key
pub uninterp spec fn text<Q: ?Sized>(q: &Q) -> Seq<char>;
pub broadcast axiom fn text_str(q: &str)
    ensures #[trigger] text::<str>(q) == q@;
pub broadcast axiom fn text_ref_str(q: &&str)
    ensures #[trigger] text::<&str>(q) == (*q)@;
pub broadcast axiom fn text_string(q: &String)
    ensures #[trigger] text::<String>(q) == q@;
pub broadcast group texts { text_str, text_ref_str, text_string }

impl<K: std::hash::Hash + Eq, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r@ == Map::<Seq<char>, V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<Seq<char>, V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@ == Map::<Seq<char>, V>::empty()), r == (forall|t: Seq<char>| !#[trigger] self@.contains_key(t)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.dom().len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: ?Sized + std::hash::Hash + Eq>(&self, k: &Q) -> (r: bool) where K: std::borrow::Borrow<Q>
        ensures r == self@.contains_key(text(k))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: ?Sized + std::hash::Hash + Eq>(&self, k: &Q) -> (r: Option<&V>) where K: std::borrow::Borrow<Q>
        ensures
            match r {
                Some(v) => self@.contains_key(text(k)) && *v == self@[text(k)],
                None => !self@.contains_key(text(k)),
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q: ?Sized + std::hash::Hash + Eq>(&mut self, k: &Q) -> (r: Option<&mut V>) where K: std::borrow::Borrow<Q>
        ensures
            match r {
                Some(v) => old(self)@.contains_key(text(k)) && *v == old(self)@[text(k)]
                    && final(self)@ == old(self)@.insert(text(k), *final(v)),
                None => !old(self)@.contains_key(text(k)) && final(self)@ == old(self)@,
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(text(&k), v),
            r == if old(self)@.contains_key(text(&k)) { Some(old(self)@[text(&k)]) } else { None::<V> },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: ?Sized + std::hash::Hash + Eq>(&mut self, k: &Q) -> (r: Option<V>) where K: std::borrow::Borrow<Q>
        ensures
            final(self)@ == old(self)@.remove(text(k)),
            r == if old(self)@.contains_key(text(k)) { Some(old(self)@[text(k)]) } else { None::<V> },
    { unimplemented!() }
    /// keeps the key
    #[verifier::external_body]
    fn get_mut_by_key(&mut self, k: &K) -> (r: &mut V)
        requires old(self)@.contains_key(text(k))
        ensures
            *r == old(self)@[text(k)],
            final(self)@ == old(self)@.insert(text(k), *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    fn get_by_key(&self, k: &K) -> (r: &V)
        requires self@.contains_key(text(k))
        ensures *r == self@[text(k)],
    { unimplemented!() }
    #[verifier::external_body]
    fn remove_by_key(&mut self, k: &K) -> (r: V)
        requires old(self)@.contains_key(text(k))
        ensures
            r == old(self)@[text(k)],
            final(self)@ == old(self)@.remove(text(k)),
    { unimplemented!() }
    #[verifier::external_body]
    fn contains(&self, k: &K) -> (r: bool)
        ensures r == self@.contains_key(text(k))
    { unimplemented!() }

    /// the keys in the order of iteration, which is not specified
    pub uninterp spec fn order(&self) -> Seq<Seq<char>>;
    pub axiom fn axiom_order(&self)
        ensures
            self.order().no_duplicates(),
            forall|k: Seq<char>| self.order().contains(k) <==> #[trigger] self@.contains_key(k),
    ;
    #[verifier::external_body]
    pub fn values(&self) -> (r: std::vec::IntoIter<&V>)
        ensures
            plain(&r),
            IteratorSpec::remaining(&r) == Seq::new(self.order().len(), |i: int| &self@[self.order()[i]]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: std::vec::IntoIter<(&K, &V)>)
        ensures
            plain(&r),
            IteratorSpec::remaining(&r).len() == self.order().len(),
            forall|i: int| 0 <= i < self.order().len() ==> text(IteratorSpec::remaining(&r)[i].0) == self.order()[i]
                && *(#[trigger] IteratorSpec::remaining(&r)[i]).1 == self@[self.order()[i]],
    { unimplemented!() }

    pub fn entry(&mut self, k: K) -> (r: hash_map::Entry<'_, K, V>)
        ensures
            match r {
                hash_map::Entry::Occupied(e) => old(self)@.contains_key(text(&k)) && e.key == k && *e.map == *old(self) && *final(e.map) == *final(self),
                hash_map::Entry::Vacant(e) => !old(self)@.contains_key(text(&k)) && e.key == k && *e.map == *old(self) && *final(e.map) == *final(self),
            }
    {
        if self.contains(&k) {
            hash_map::Entry::Occupied(hash_map::OccupiedEntry { map: self, key: k })
        } else {
            hash_map::Entry::Vacant(hash_map::VacantEntry { map: self, key: k })
        }
    }
}

pub mod hash_map {
    use super::*;
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct OccupiedEntry<'a, K, V> {
        pub map: &'a mut HashMap<K, V>,
        pub key: K,
    }
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct VacantEntry<'a, K, V> {
        pub map: &'a mut HashMap<K, V>,
        pub key: K,
    }
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub enum Entry<'a, K, V> {
        Occupied(OccupiedEntry<'a, K, V>),
        Vacant(VacantEntry<'a, K, V>),
    }
    impl<'a, K: std::hash::Hash + Eq, V> OccupiedEntry<'a, K, V> {
        pub fn get(&self) -> (r: &V)
            requires self.map@.contains_key(text(&self.key))
            ensures *r == old(self.map)@[text(&self.key)]
        {
            self.map.get_by_key(&self.key)
        }
        pub fn remove_entry(self) -> (r: (K, V))
            requires self.map@.contains_key(text(&self.key))
            ensures
                r.0 == self.key,
                r.1 == old(self.map)@[text(&self.key)],
                final(self.map)@ == old(self.map)@.remove(text(&self.key)),
        {
            let v = self.map.remove_by_key(&self.key);
            (self.key, v)
        }
        pub fn remove(self) -> (r: V)
            requires self.map@.contains_key(text(&self.key))
            ensures
                r == old(self.map)@[text(&self.key)],
                final(self.map)@ == old(self.map)@.remove(text(&self.key)),
        {
            self.map.remove_by_key(&self.key)
        }
    }
    impl<'a, K: std::hash::Hash + Eq, V> VacantEntry<'a, K, V> {
        pub fn insert(self, v: V)
            ensures
                final(self.map)@ == old(self.map)@.insert(text(&self.key), v),
        {
            let k = self.key;
            self.map.insert(k, v);
        }
    }
}

impl<K: std::hash::Hash + Eq, V> std::iter::FromIterator<(K, V)> for HashMap<K, V> {
    #[verifier::external_body]
    fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { unimplemented!() }
}
impl<K: std::hash::Hash + Eq, V> FromIteratorSpecImpl<(K, V)> for HashMap<K, V> {
    /// the last of each key
    open spec fn from_iter_ensures(s: Seq<(K, V)>, r: Self) -> bool {
        &&& forall|i: int| 0 <= i < s.len() ==> r@.contains_key(text(&(#[trigger] s[i]).0))
        &&& forall|t: Seq<char>| #[trigger] r@.contains_key(t) ==> exists|i: int| 0 <= i < s.len() && text(&(#[trigger] s[i]).0) == t && r@[t] == s[i].1
                && forall|j: int| i < j < s.len() ==> text(&(#[trigger] s[j]).0) != t
        &&& s.len() > 0 ==> r@.contains_key(text(&s[0].0))
    }
}
impl<K: std::hash::Hash + Eq> std::iter::FromIterator<K> for HashSet<K> {
    #[verifier::external_body]
    fn from_iter<I: IntoIterator<Item = K>>(i: I) -> Self
    { unimplemented!() }
}
impl<K: std::hash::Hash + Eq> FromIteratorSpecImpl<K> for HashSet<K> {
    open spec fn from_iter_ensures(s: Seq<K>, r: Self) -> bool {
        &&& forall|i: int| 0 <= i < s.len() ==> r@.contains(text(&#[trigger] s[i]))
        &&& forall|t: Seq<char>| #[trigger] r@.contains(t) ==> exists|i: int| 0 <= i < s.len() && text(&#[trigger] s[i]) == t
        &&& s.len() > 0 ==> r@.contains(text(&s[0]))
    }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> {
    m: std::collections::HashSet<K>,
}
impl<K> View for HashSet<K> {
    type V = Set<Seq<char>>;
    uninterp spec fn view(&self) -> Set<Seq<char>>;
}
impl<K: std::hash::Hash + Eq> HashSet<K> {
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r@ == Set::<Seq<char>>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: ?Sized + std::hash::Hash + Eq>(&self, k: &Q) -> (r: bool) where K: std::borrow::Borrow<Q>
        ensures r == self@.contains(text(k))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@ == Set::<Seq<char>>::empty()), r == (forall|t: Seq<char>| !#[trigger] self@.contains(t)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(text(&k)), r == !old(self)@.contains(text(&k)),
    { unimplemented!() }
}
}
impl<K, V> std::fmt::Debug for HashMap<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
}
impl<K> std::fmt::Debug for HashSet<K> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
}
impl<K, V> Clone for HashMap<K, V> { fn clone(&self) -> Self { unimplemented!() } }
impl<K, V> PartialEq for HashMap<K, V> { fn eq(&self, _: &Self) -> bool { unimplemented!() } }
impl<K, V> Eq for HashMap<K, V> { }
impl<K> Clone for HashSet<K> { fn clone(&self) -> Self { unimplemented!() } }
impl<K> PartialEq for HashSet<K> { fn eq(&self, _: &Self) -> bool { unimplemented!() } }
impl<K> Eq for HashSet<K> { }

impl<K, V> IntoIterator for HashMap<K, V> { type Item = (K, V); type IntoIter = std::vec::IntoIter<(K, V)>; fn into_iter(self) -> Self::IntoIter { unimplemented!() } }
impl<K> IntoIterator for HashSet<K> { type Item = K; type IntoIter = std::vec::IntoIter<K>; fn into_iter(self) -> Self::IntoIter { unimplemented!() } }
impl<'a, K> IntoIterator for &'a HashSet<K> { type Item = &'a K; type IntoIter = std::vec::IntoIter<&'a K>; fn into_iter(self) -> Self::IntoIter { unimplemented!() } }
