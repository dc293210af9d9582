//! The wire format as the hand-written encoders and decoders see it: what serde's and serde_json's parts of it promise.
#![allow(unused_imports, dead_code, unused_variables)]
use rust_decimal::Decimal;
use std::borrow::Cow;
use vstd::prelude::*;
verus! {

/// a value on the wire
pub enum Tree { Null, Truth(bool), Count(nat), Number(Decimal), Text(Seq<char>), Map(Seq<Tree>), Tuple(Seq<Tree>) }
// (a map lists its keys and values alternately)

/// what the encoder makes of a value
pub uninterp spec fn tree<T: ?Sized>(v: &T) -> Tree;
/// what was put on the wire
pub uninterp spec fn put<Ok>(o: Ok) -> Tree;
pub uninterp spec fn entries<M: ?Sized>(m: &M) -> Seq<Tree>;
pub uninterp spec fn elements<M: ?Sized>(m: &M) -> Seq<Tree>;

/// such a value can be decoded from this
pub uninterp spec fn kept<T>(t: Tree) -> bool;
/// that is decoded from this
pub uninterp spec fn reads<T>(t: Tree, v: T) -> bool;
/// no name in it is there twice
pub uninterp spec fn unrepeated(t: Tree) -> bool;
/// a text without characters which are escaped on the wire
pub uninterp spec fn unescaped(s: Seq<char>) -> bool;

pub broadcast axiom fn tree_ref<T: ?Sized>(v: &&T) ensures #[trigger] tree::<&T>(v) == tree::<T>(*v);
pub broadcast axiom fn tree_str(v: &str) ensures #[trigger] tree::<str>(v) == Tree::Text(v@);
pub broadcast axiom fn tree_string(v: &String) ensures #[trigger] tree::<String>(v) == Tree::Text(v@);
pub broadcast axiom fn tree_cow(v: &Cow<'_, str>) ensures #[trigger] tree::<Cow<'_, str>>(v) == Tree::Text(v@);
pub broadcast axiom fn tree_decimal(v: &Decimal) ensures #[trigger] tree::<Decimal>(v) == Tree::Number(*v);
pub broadcast axiom fn tree_bool(v: &bool) ensures #[trigger] tree::<bool>(v) == Tree::Truth(*v);
pub broadcast axiom fn tree_usize(v: &usize) ensures #[trigger] tree::<usize>(v) == Tree::Count(*v as nat);
pub broadcast axiom fn tree_option<T>(v: &Option<T>)
    ensures #[trigger] tree::<Option<T>>(v) == match *v { Some(x) => tree::<T>(&x), None => Tree::Null };
pub broadcast group writing { tree_ref, tree_str, tree_string, tree_cow, tree_decimal, tree_bool, tree_usize, tree_option }

/// what is under each name, of a map with names for keys
pub uninterp spec fn keyed(t: Tree) -> Map<Seq<char>, Tree>;
/// what was put under each name so far
pub uninterp spec fn named<M: ?Sized>(m: &M) -> Map<Seq<char>, Tree>;
/// with that, where there is such
pub open spec fn with<T>(m: Map<Seq<char>, Tree>, key: &str, v: Option<T>) -> Map<Seq<char>, Tree> {
    unless(m, v is None, key@, tree(&v))
}
pub open spec fn unless(m: Map<Seq<char>, Tree>, left_out: bool, key: Seq<char>, t: Tree) -> Map<Seq<char>, Tree> {
    if left_out { m } else { m.insert(key, t) }
}

pub broadcast axiom fn kept_str(t: Tree) ensures #[trigger] kept::<&str>(t) == (t matches Tree::Text(s) && unescaped(s));
pub broadcast axiom fn kept_cow(t: Tree) ensures #[trigger] kept::<Cow<'_, str>>(t) == (t is Text);
pub broadcast axiom fn kept_decimal(t: Tree) ensures t is Number ==> #[trigger] kept::<Decimal>(t);
pub broadcast axiom fn kept_bool(t: Tree) ensures #[trigger] kept::<bool>(t) == (t is Truth);
pub broadcast axiom fn kept_usize(t: Tree) ensures (t matches Tree::Count(n) && n <= usize::MAX) ==> #[trigger] kept::<usize>(t);
pub broadcast axiom fn reads_str(t: Tree, v: &str) ensures #[trigger] reads::<&str>(t, v) ==> (t matches Tree::Text(s) ==> v@ == s);
pub broadcast axiom fn reads_cow(t: Tree, v: Cow<'_, str>) ensures #[trigger] reads::<Cow<'_, str>>(t, v) ==> (t matches Tree::Text(s) ==> v@ == s);
pub broadcast axiom fn reads_decimal(t: Tree, v: Decimal) ensures #[trigger] reads::<Decimal>(t, v) ==> (t matches Tree::Number(d) ==> v == d);
pub broadcast axiom fn reads_bool(t: Tree, v: bool) ensures #[trigger] reads::<bool>(t, v) ==> (t matches Tree::Truth(b) ==> v == b);
pub broadcast axiom fn reads_usize(t: Tree, v: usize) ensures #[trigger] reads::<usize>(t, v) ==> (t matches Tree::Count(n) ==> v == n);
pub broadcast group reading { kept_str, kept_cow, kept_decimal, kept_bool, kept_usize, reads_str, reads_cow, reads_decimal, reads_bool, reads_usize, iso_plain }

/// a date as written
pub uninterp spec fn iso(d: time::Date) -> Seq<char>;
pub uninterp spec fn dated(s: Seq<char>) -> time::Date;
pub broadcast axiom fn iso_plain(d: time::Date) ensures unescaped(#[trigger] iso(d)), dated(iso(d)) == d;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTimeParse(time::error::Parse);
// ---- serde
#[verifier::external_trait_specification]
pub trait ExSerialize { type ExternalTraitSpecificationFor: serde::Serialize; }
#[verifier::external_trait_specification]
pub trait ExDeserialize<'de>: Sized { type ExternalTraitSpecificationFor: serde::Deserialize<'de>; }
#[verifier::external_trait_specification]
pub trait ExStdError: std::fmt::Debug + std::fmt::Display { type ExternalTraitSpecificationFor: std::error::Error; }
#[verifier::external_trait_specification]
pub trait ExSerError: Sized + std::error::Error { type ExternalTraitSpecificationFor: serde::ser::Error; }
#[verifier::external_trait_specification]
pub trait ExDeError: Sized + std::error::Error { type ExternalTraitSpecificationFor: serde::de::Error; }
#[verifier::external_trait_specification]
pub trait ExSerializer: Sized {
    type ExternalTraitSpecificationFor: serde::Serializer;
    type Ok;
    type Error: serde::ser::Error;
    type SerializeMap: serde::ser::SerializeMap<Ok = Self::Ok, Error = Self::Error>;
    type SerializeTuple: serde::ser::SerializeTuple<Ok = Self::Ok, Error = Self::Error>;
    type SerializeStruct: serde::ser::SerializeStruct<Ok = Self::Ok, Error = Self::Error>;
    fn serialize_struct(self, name: &'static str, len: usize) -> (r: Result<Self::SerializeStruct, Self::Error>)
        ensures r matches Ok(m) ==> named(&m) == Map::<Seq<char>, Tree>::empty();
    fn serialize_unit_variant(self, name: &'static str, index: u32, variant: &'static str) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> put(o) == Tree::Text(variant@);
    fn serialize_none(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> put(o) == Tree::Null;
    fn serialize_unit(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> put(o) == Tree::Null;
    fn serialize_map(self, len: Option<usize>) -> (r: Result<Self::SerializeMap, Self::Error>)
        ensures r matches Ok(m) ==> entries(&m) == Seq::<Tree>::empty() && named(&m) == Map::<Seq<char>, Tree>::empty();
    fn serialize_tuple(self, len: usize) -> (r: Result<Self::SerializeTuple, Self::Error>)
        ensures r matches Ok(m) ==> elements(&m) == Seq::<Tree>::empty();
}
#[verifier::external_trait_specification]
pub trait ExSerializeMap {
    type ExternalTraitSpecificationFor: serde::ser::SerializeMap;
    type Ok;
    type Error: serde::ser::Error;
    fn serialize_entry<K: ?Sized + serde::Serialize, V: ?Sized + serde::Serialize>(&mut self, key: &K, value: &V) -> (r: Result<(), Self::Error>)
        ensures
            r is Ok ==> entries(final(self)) == entries(old(self)).push(tree(key)).push(tree(value)),
            r is Ok ==> (tree(key) matches Tree::Text(k) ==> named(final(self)) == named(old(self)).insert(k, tree(value)));
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> put(o) == Tree::Map(entries(&self)) && keyed(put(o)) == named(&self);
}
#[verifier::external_trait_specification]
pub trait ExSerializeStruct {
    type ExternalTraitSpecificationFor: serde::ser::SerializeStruct;
    type Ok;
    type Error: serde::ser::Error;
    fn serialize_field<V: ?Sized + serde::Serialize>(&mut self, key: &'static str, value: &V) -> (r: Result<(), Self::Error>)
        ensures r is Ok ==> named(final(self)) == named(old(self)).insert(key@, tree(value));
    fn skip_field(&mut self, key: &'static str) -> (r: Result<(), Self::Error>)
        ensures named(final(self)) == named(old(self));
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> put(o) is Map && keyed(put(o)) == named(&self);
}
#[verifier::external_trait_specification]
pub trait ExSerializeTuple {
    type ExternalTraitSpecificationFor: serde::ser::SerializeTuple;
    type Ok;
    type Error: serde::ser::Error;
    fn serialize_element<V: ?Sized + serde::Serialize>(&mut self, value: &V) -> (r: Result<(), Self::Error>)
        ensures r is Ok ==> elements(final(self)) == elements(old(self)).push(tree(value));
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> put(o) == Tree::Tuple(elements(&self));
}
// ---- what serde's derives use besides
/// Serialize::serialize
#[verifier::external_body]
pub fn through<T: ?Sized + serde::Serialize, S: serde::Serializer>(v: &T, s: S) -> (r: Result<S::Ok, S::Error>)
    ensures r matches Ok(o) ==> put(o) == tree(v)
{ v.serialize(s) }
/// SerializeStruct::serialize_field or skip_field
#[verifier::external_body]
pub fn field_unless<V: ?Sized + serde::Serialize, M: serde::ser::SerializeStruct>(m: &mut M, left_out: bool, key: &'static str, value: &V) -> (r: Result<(), M::Error>)
    ensures r is Ok ==> named(final(m)) == unless(named(old(m)), left_out, key@, tree(value))
{ if !left_out { m.serialize_field(key, value) } else { m.skip_field(key) } }
/// Serialize::serialize, into the map in hand
#[verifier::external_body]
pub fn flattened<T: ?Sized + serde::Serialize, M: serde::ser::SerializeMap>(v: &T, m: &mut M) -> (r: Result<(), M::Error>)
    ensures r is Ok ==> named(final(m)) == named(old(m)).union_prefer_right(keyed(tree(v)))
{ unimplemented!() }
/// serialize_tagged_newtype
#[verifier::external_body]
pub fn tagged<T: ?Sized + serde::Serialize, S: serde::Serializer>(s: S, ty: &'static str, of: &'static str, tag: &'static str, name: &'static str, v: &T) -> (r: Result<S::Ok, S::Error>)
    ensures r matches Ok(o) ==> keyed(put(o)) == keyed(tree(v)).insert(tag@, Tree::Text(name@))
{ unimplemented!() }
/// as iso8601date writes it
#[verifier::external_body]
pub struct Dated;
impl serde::Serialize for Dated {
    #[verifier::external_body]
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { unimplemented!() }
}
#[verifier::external_body]
pub fn by_iso8601date(d: &time::Date) -> (r: Dated)
    ensures tree(&r) == Tree::Text(iso(*d))
{ unimplemented!() }
#[verifier::external_body]
pub fn by_iso8601date_option(d: &Option<time::Date>) -> (r: Dated)
    ensures tree(&r) == match *d { Some(d) => Tree::Text(iso(d)), None => Tree::Null }
{ unimplemented!() }

/// what is still to be decoded
pub uninterp spec fn rest<A: ?Sized>(a: &A) -> Seq<Tree>;
/// it is well-formed
pub uninterp spec fn sound<A: ?Sized>(a: &A) -> bool;
#[verifier::external_trait_specification]
pub trait ExMapAccess<'de> {
    type ExternalTraitSpecificationFor: serde::de::MapAccess<'de>;
    type Error: serde::de::Error;
    fn next_key<K: serde::Deserialize<'de>>(&mut self) -> (r: Result<Option<K>, Self::Error>)
        requires rest(old(self)).len() % 2 == 0,
        ensures
            sound(final(self)) == sound(old(self)),
            match r {
                Ok(Some(k)) => rest(old(self)).len() > 0 && rest(old(self))[0] is Text && reads(rest(old(self))[0], k) && rest(final(self)) == rest(old(self)).skip(1),
                Ok(None) => rest(old(self)).len() == 0 && rest(final(self)) == rest(old(self)),
                Err(_) => sound(old(self)) ==> rest(old(self)).len() > 0 && !kept::<K>(rest(old(self))[0]),
            };
    fn next_value<V: serde::Deserialize<'de>>(&mut self) -> (r: Result<V, Self::Error>)
        requires rest(old(self)).len() % 2 == 1,
        ensures
            sound(final(self)) == sound(old(self)),
            match r {
                Ok(v) => reads(rest(old(self))[0], v) && rest(final(self)) == rest(old(self)).skip(1),
                Err(_) => sound(old(self)) ==> !kept::<V>(rest(old(self))[0]),
            };
}
#[verifier::external_trait_specification]
pub trait ExSeqAccess<'de> {
    type ExternalTraitSpecificationFor: serde::de::SeqAccess<'de>;
    type Error: serde::de::Error;
    fn next_element<T: serde::Deserialize<'de>>(&mut self) -> (r: Result<Option<T>, Self::Error>)
        ensures
            sound(final(self)) == sound(old(self)),
            match r {
                Ok(Some(v)) => rest(old(self)).len() > 0 && reads(rest(old(self))[0], v) && rest(final(self)) == rest(old(self)).skip(1),
                Ok(None) => rest(old(self)).len() == 0 && rest(final(self)) == rest(old(self)),
                Err(_) => sound(old(self)) ==> rest(old(self)).len() > 0 && !kept::<T>(rest(old(self))[0]),
            };
}
/// an error of whatever wording
#[verifier::external_body]
pub fn refused<E: serde::de::Error>() -> (r: E) { E::custom("") }
}
verus! {
impl<K, V> serde::Serialize for crate::hb::HashMap<K, V> {
    #[verifier::external_body]
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { unimplemented!() }
}
impl<K> serde::Serialize for crate::hb::HashSet<K> {
    #[verifier::external_body]
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { unimplemented!() }
}
}
// ---- what serde's derives make of decoders
verus! {
#[verifier::external_trait_specification]
pub trait ExDeserializer<'de>: Sized {
    type ExternalTraitSpecificationFor: serde::Deserializer<'de>;
    type Error: serde::de::Error;
}
#[verifier::external_trait_specification]
pub trait ExEnumAccess<'de>: Sized {
    type ExternalTraitSpecificationFor: serde::de::EnumAccess<'de>;
    type Error: serde::de::Error;
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIgnoredAny(serde::de::IgnoredAny);

pub open spec fn text_of(t: Tree) -> Seq<char> { match t { Tree::Text(s) => s, _ => Seq::empty() } }
/// that many of the keys and values, by name
pub open spec fn first(all: Seq<Tree>, n: int) -> Map<Seq<char>, Tree>
    decreases n
{
    if n <= 0 { Map::empty() } else { first(all, n - 1).insert(text_of(all[2 * (n - 1)]), all[2 * (n - 1) + 1]) }
}
/// all of them
pub open spec fn whole(all: Seq<Tree>) -> Map<Seq<char>, Tree> { first(all, all.len() as int / 2) }
/// those no longer in the rest
pub open spec fn so_far(all: Seq<Tree>, rest: Seq<Tree>) -> Map<Seq<char>, Tree> { first(all, (all.len() - rest.len()) / 2) }
/// the keys are texts, each of them there once
pub open spec fn named_once(all: Seq<Tree>) -> bool {
    &&& forall|i: int| 0 <= i < all.len() as int / 2 ==> (#[trigger] all[2 * i]) is Text
    &&& forall|i: int, j: int| 0 <= i < j < all.len() as int / 2 ==> #[trigger] all[2 * i] != #[trigger] all[2 * j]
}
/// some of it has been read
pub open spec fn under_way(all: Seq<Tree>, rest: Seq<Tree>) -> bool {
    &&& all.len() % 2 == 0
    &&& rest.len() % 2 == 0
    &&& rest.len() <= all.len()
    &&& rest == all.skip(all.len() - rest.len())
}
proof fn found_in(all: Seq<Tree>, n: int, k: Seq<char>)
    requires first(all, n).contains_key(k),
    ensures exists|i: int| 0 <= i < n && text_of(#[trigger] all[2 * i]) == k,
    decreases n
{
    if n > 0 {
        if text_of(all[2 * (n - 1)]) != k {
            found_in(all, n - 1, k);
            let i = choose|i: int| 0 <= i < n - 1 && text_of(#[trigger] all[2 * i]) == k;
            assert(text_of(all[2 * i]) == k);
        }
    }
}
proof fn lasts(all: Seq<Tree>, i: int, n: int)
    requires named_once(all), 0 <= i < n <= all.len() as int / 2,
    ensures first(all, n).contains_key(text_of(all[2 * i])), first(all, n)[text_of(all[2 * i])] == all[2 * i + 1],
    decreases n
{
    if i < n - 1 {
        lasts(all, i, n - 1);
        assert(all[2 * i] != all[2 * (n - 1)]);
    }
}
/// one more key and value
pub proof fn step(all: Seq<Tree>, rest: Seq<Tree>)
    requires under_way(all, rest),
    ensures
        rest.len() == 0 ==> so_far(all, rest) == whole(all),
        rest.len() > 0 ==> {
            let k = text_of(rest[0]);
            &&& rest.len() >= 2
            &&& rest.skip(1)[0] == rest[1]
            &&& under_way(all, rest.skip(1).skip(1))
            &&& so_far(all, rest.skip(1).skip(1)) == so_far(all, rest).insert(k, rest[1])
            &&& named_once(all) ==> rest[0] is Text && !so_far(all, rest).contains_key(k)
            &&& named_once(all) ==> whole(all).contains_key(k) && whole(all)[k] == rest[1]
        },
{
    if rest.len() > 0 {
        let n = (all.len() - rest.len()) / 2;
        assert(all.len() - rest.len() == 2 * n);
        assert(rest[0] == all[2 * n] && rest[1] == all[2 * n + 1]);
        assert(rest.skip(1).skip(1) =~= all.skip(2 * (n + 1)));
        assert((all.len() - rest.skip(1).skip(1).len()) / 2 == n + 1);
        if named_once(all) {
            lasts(all, n, all.len() as int / 2);
            let k = text_of(rest[0]);
            if first(all, n).contains_key(k) {
                found_in(all, n, k);
                let i = choose|i: int| 0 <= i < n && text_of(#[trigger] all[2 * i]) == k;
                assert(all[2 * i] != all[2 * n]);
                assert(all[2 * i] is Text);
            }
        }
    }
}
/// where that is a text (a position in the list of names is taken for a name too)
pub open spec fn says(m: Map<Seq<char>, Tree>, tag: &str, name: Seq<char>) -> bool {
    m.contains_key(tag@) && (m[tag@] matches Tree::Text(s) ==> s == name)
}
/// or is what is taken where nothing goes by it
pub open spec fn had_or_unsaid<T>(m: Map<Seq<char>, Tree>, key: &str, v: T) -> bool {
    if m.contains_key(key@) { reads::<T>(m[key@], v) } else { unsaid::<T>() == Some(v) }
}
/// that was read from what goes by the name
pub open spec fn had<T>(m: Map<Seq<char>, Tree>, key: &str, v: T) -> bool { m.contains_key(key@) && reads::<T>(m[key@], v) }
/// or nothing goes by it
pub open spec fn had_or<T>(m: Map<Seq<char>, Tree>, key: &str, v: T, else_: T) -> bool {
    if m.contains_key(key@) { reads::<T>(m[key@], v) } else { v == else_ }
}
pub open spec fn takes<T>(m: Map<Seq<char>, Tree>, key: &str) -> bool { m.contains_key(key@) ==> kept::<T>(m[key@]) }
pub open spec fn takes_date(m: Map<Seq<char>, Tree>, key: &str) -> bool { m.contains_key(key@) ==> dates(m[key@]) is Some }
pub open spec fn takes_date_or_none(m: Map<Seq<char>, Tree>, key: &str) -> bool { m.contains_key(key@) ==> m[key@] is Null || dates(m[key@]) is Some }
/// what a variable holds of what was read so far
pub open spec fn held<T>(m: Map<Seq<char>, Tree>, key: &str, v: Option<T>) -> bool {
    match v { Some(x) => m.contains_key(key@) && reads::<T>(m[key@], x), None => !m.contains_key(key@) }
}
pub open spec fn held_date(m: Map<Seq<char>, Tree>, key: &str, v: Option<time::Date>) -> bool {
    match v { Some(x) => m.contains_key(key@) && dates(m[key@]) == Some(x), None => !m.contains_key(key@) }
}
pub open spec fn held_date_or_none(m: Map<Seq<char>, Tree>, key: &str, v: Option<Option<time::Date>>) -> bool {
    match v { Some(x) => m.contains_key(key@) && dates(m[key@]) == x, None => !m.contains_key(key@) }
}

/// what a type is taken to be where nothing is said of it
pub uninterp spec fn unsaid<T>() -> Option<T>;
pub broadcast axiom fn unsaid_option<T>() ensures #[trigger] unsaid::<Option<T>>() == Some(None::<T>);
pub broadcast axiom fn unsaid_str() ensures #[trigger] unsaid::<&str>() is None;
pub broadcast axiom fn unsaid_cow() ensures #[trigger] unsaid::<Cow<'_, str>>() is None;
pub broadcast axiom fn unsaid_decimal() ensures #[trigger] unsaid::<Decimal>() is None;
pub broadcast axiom fn unsaid_bool() ensures #[trigger] unsaid::<bool>() is None;
pub broadcast axiom fn unsaid_vec<T>() ensures #[trigger] unsaid::<Vec<T>>() is None;
#[verifier::external_body]
pub fn missing<T, E: serde::de::Error>(name: &'static str) -> (r: Result<T, E>)
    ensures match r { Ok(v) => unsaid::<T>() == Some(v), Err(_) => unsaid::<T>() is None }
{ unimplemented!() }
pub uninterp spec fn by_default<T>() -> T;
pub broadcast axiom fn default_bool() ensures #[trigger] by_default::<bool>() == false;
pub broadcast axiom fn default_option<T>() ensures #[trigger] by_default::<Option<T>>() == None::<T>;
#[verifier::external_body]
pub fn default_of<T: Default>() -> (r: T)
    ensures r == by_default::<T>()
{ T::default() }
pub broadcast axiom fn kept_ignored(t: Tree) ensures #[trigger] kept::<serde::de::IgnoredAny>(t);
pub broadcast group lacking { unsaid_option, unsaid_str, unsaid_cow, unsaid_decimal, unsaid_bool, unsaid_vec, default_bool, default_option, kept_ignored }

/// what iso8601date reads
pub uninterp spec fn dates(t: Tree) -> Option<time::Date>;
pub broadcast axiom fn dates_written(d: time::Date) ensures dates(Tree::Text(#[trigger] iso(d))) == Some(d);
pub broadcast axiom fn dates_null() ensures #[trigger] dates(Tree::Null) is None;
#[verifier::external_body]
pub fn next_by_iso8601date<'de, A: serde::de::MapAccess<'de>>(m: &mut A) -> (r: Result<time::Date, A::Error>)
    requires rest(old(m)).len() % 2 == 1,
    ensures
        sound(final(m)) == sound(old(m)),
        match r {
            Ok(d) => dates(rest(old(m))[0]) == Some(d) && rest(final(m)) == rest(old(m)).skip(1),
            Err(_) => sound(old(m)) ==> dates(rest(old(m))[0]) is None,
        }
{ unimplemented!() }
#[verifier::external_body]
pub fn next_by_iso8601date_option<'de, A: serde::de::MapAccess<'de>>(m: &mut A) -> (r: Result<Option<time::Date>, A::Error>)
    requires rest(old(m)).len() % 2 == 1,
    ensures
        sound(final(m)) == sound(old(m)),
        match r {
            Ok(d) => dates(rest(old(m))[0]) == d && (d is None ==> rest(old(m))[0] is Null) && rest(final(m)) == rest(old(m)).skip(1),
            Err(_) => sound(old(m)) ==> !(rest(old(m))[0] is Null) && dates(rest(old(m))[0]) is None,
        }
{ unimplemented!() }

/// such a value can be decoded from what goes by these names
pub uninterp spec fn kept_in<T>(m: Map<Seq<char>, Tree>) -> bool;
/// that is decoded from these
pub uninterp spec fn reads_in<T>(m: Map<Seq<char>, Tree>, v: T) -> bool;

/// a name as given
#[verifier::external_body]
pub struct Name;
impl Name { pub uninterp spec fn text(&self) -> Seq<char>; }
/// what goes by names which are not those of the fields
#[verifier::external_body]
pub struct Collected<'de> { p: std::marker::PhantomData<&'de ()> }
pub uninterp spec fn gathered(c: &Collected<'_>) -> Map<Seq<char>, Tree>;
#[verifier::external_body]
pub fn collected<'de>() -> (r: Collected<'de>)
    ensures gathered(&r) == Map::<Seq<char>, Tree>::empty()
{ unimplemented!() }
#[verifier::external_body]
pub fn collect<'de, A: serde::de::MapAccess<'de>>(c: &mut Collected<'de>, name: Name, m: &mut A) -> (r: Result<(), A::Error>)
    requires rest(old(m)).len() % 2 == 1,
    ensures
        sound(final(m)) == sound(old(m)),
        match r {
            Ok(_) => rest(final(m)) == rest(old(m)).skip(1) && gathered(final(c)) == gathered(old(c)).insert(name.text(), rest(old(m))[0]),
            Err(_) => !sound(old(m)),
        }
{ unimplemented!() }
#[verifier::external_body]
pub fn flat_in<'de, T: serde::Deserialize<'de>, E: serde::de::Error>(c: &mut Collected<'de>) -> (r: Result<T, E>)
    ensures match r { Ok(v) => reads_in::<T>(gathered(old(c)), v), Err(_) => !kept_in::<T>(gathered(old(c))) }
{ unimplemented!() }
/// what goes by which names, of that to be decoded
pub uninterp spec fn offered<D>(d: D) -> Map<Seq<char>, Tree>;
/// it is well-formed
pub uninterp spec fn sound_map<D>(d: D) -> bool;
#[verifier::external_body]
pub struct Content<'de> { p: std::marker::PhantomData<&'de ()> }
#[verifier::external_body]
pub fn tag_and_content<'de, T: serde::Deserialize<'de>, D: serde::Deserializer<'de>>(tag: &'static str, d: D) -> (r: Result<(T, Content<'de>), D::Error>)
    ensures
        match r {
            Ok((t, c)) => offered(d).contains_key(tag@) && reads::<T>(offered(d)[tag@], t) && offered(c) == offered(d).remove(tag@) && (sound_map(d) ==> sound_map(c)),
            Err(_) => sound_map(d) ==> !(offered(d).contains_key(tag@) && kept::<T>(offered(d)[tag@])),
        }
{ unimplemented!() }
#[verifier::external_body]
pub fn content_in<'de, T: serde::Deserialize<'de>, E: serde::de::Error>(c: Content<'de>) -> (r: Result<T, E>)
    ensures match r { Ok(v) => reads_in::<T>(offered(c), v), Err(_) => !kept_in::<T>(offered(c)) }
{ unimplemented!() }
/// whatever else is there is passed over
#[verifier::external_body]
pub fn nothing_in<'de, E: serde::de::Error>(c: Content<'de>) -> (r: Result<(), E>)
    ensures r is Err ==> !sound_map(c)
{ unimplemented!() }
/// as next_value, whatever is or is not escaped
#[verifier::external_body]
pub fn next_by_borrow_cow_str<'de, A: serde::de::MapAccess<'de>>(m: &mut A) -> (r: Result<Cow<'de, str>, A::Error>)
    requires rest(old(m)).len() % 2 == 1,
    ensures
        sound(final(m)) == sound(old(m)),
        match r {
            Ok(v) => reads::<Cow<'_, str>>(rest(old(m))[0], v) && rest(final(m)) == rest(old(m)).skip(1),
            Err(_) => sound(old(m)) ==> !kept::<Cow<'_, str>>(rest(old(m))[0]),
        }
{ unimplemented!() }
/// what is to be decoded
pub uninterp spec fn value_in<D>(d: D) -> Tree;
/// that, kept to be looked at more than once
#[verifier::external_body]
pub struct Kept<'de> { p: std::marker::PhantomData<&'de ()> }
impl Kept<'_> { pub uninterp spec fn value(&self) -> Tree; }
#[verifier::external_body]
pub fn content_of<'de, D: serde::Deserializer<'de>>(d: D) -> (r: Result<Kept<'de>, D::Error>)
    ensures match r { Ok(c) => c.value() == value_in(d), Err(_) => !sound_map(d) }
{ unimplemented!() }
#[verifier::external_body]
pub fn untagged_in<'de, T: serde::Deserialize<'de>, E: serde::de::Error>(c: &Kept<'de>) -> (r: Result<T, E>)
    ensures match r { Ok(v) => reads::<T>(c.value(), v), Err(_) => !kept::<T>(c.value()) }
{ unimplemented!() }
#[verifier::external_body]
pub fn untagged_by_borrow_cow_str<'de, E: serde::de::Error>(c: &Kept<'de>) -> (r: Result<Cow<'de, str>, E>)
    ensures match r { Ok(v) => c.value() == Tree::Text(v@), Err(_) => !(c.value() is Text) }
{ unimplemented!() }
/// a number as given: it is written as it was read, and no text is one
pub broadcast axiom fn kept_number(t: Tree) ensures t is Number || t is Count ==> #[trigger] kept::<serde_json::Number>(t);
pub broadcast axiom fn number_back(t: Tree, v: serde_json::Number)
    ensures #[trigger] reads::<serde_json::Number>(t, v) ==> !(t is Text) && (t is Number || t is Count ==> tree::<serde_json::Number>(&v) == t);
/// only a text is decoded as one
pub broadcast axiom fn cow_text(t: Tree, v: Cow<'_, str>) ensures #[trigger] reads::<Cow<'_, str>>(t, v) ==> t == Tree::Text(v@);
pub broadcast group numbers { kept_number, number_back }
/// a name of a variant to be decoded, with nothing else
pub uninterp spec fn variant_named<D>(d: D) -> Tree;
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct Nothing<A> { p: std::marker::PhantomData<A> }
#[verifier::external_body]
pub fn variant<'de, T: serde::Deserialize<'de>, A: serde::de::EnumAccess<'de>>(d: A) -> (r: Result<(T, Nothing<A>), A::Error>)
    ensures
        match r {
            Ok((t, n)) => variant_named(d) is Text && reads::<T>(variant_named(d), t) && (sound_map(d) ==> sound_map(n)),
            Err(_) => sound_map(d) ==> !kept::<T>(variant_named(d)),
        }
{ unimplemented!() }
#[verifier::external_body]
pub fn no_more<'de, A: serde::de::EnumAccess<'de>>(n: Nothing<A>) -> (r: Result<(), A::Error>)
    ensures r is Err ==> !sound_map(n)
{ unimplemented!() }

// collections
pub broadcast axiom fn tree_vec<T>(v: &Vec<T>)
    ensures #[trigger] tree::<Vec<T>>(v) matches Tree::Tuple(es) && es.len() == v@.len() && (forall|i: int| 0 <= i < es.len() ==> #[trigger] es[i] == tree::<T>(&v@[i]));
pub broadcast axiom fn reads_vec<T>(t: Tree, v: Vec<T>)
    ensures #[trigger] reads::<Vec<T>>(t, v) ==> (t matches Tree::Tuple(es) ==> v@.len() == es.len() && (forall|i: int| 0 <= i < es.len() ==> reads::<T>(#[trigger] es[i], v@[i])));
pub broadcast axiom fn kept_vec<T>(t: Tree)
    ensures (t matches Tree::Tuple(es) && (forall|i: int| 0 <= i < es.len() ==> kept::<T>(#[trigger] es[i]))) ==> #[trigger] kept::<Vec<T>>(t);
pub broadcast proof fn vec_back<T>(a: &Vec<T>, b: Vec<T>)
    ensures #[trigger] reads::<Vec<T>>(tree(a), b) ==> a@.len() == b@.len() && (forall|i: int| 0 <= i < a@.len() ==> reads::<T>(tree::<T>(&#[trigger] a@[i]), b@[i]))
{
    broadcast use {tree_vec, reads_vec};
    if reads::<Vec<T>>(tree(a), b) {
        assert forall|i: int| 0 <= i < a@.len() implies reads::<T>(tree::<T>(&#[trigger] a@[i]), b@[i]) by {
            assert(tree(a)->Tuple_0[i] == tree::<T>(&a@[i]));
        }
    }
}
pub broadcast axiom fn tree_pair<A, B>(v: &(A, B)) ensures #[trigger] tree::<(A, B)>(v) == Tree::Tuple(seq![tree(&v.0), tree(&v.1)]);
pub broadcast axiom fn reads_pair<A, B>(t: Tree, v: (A, B))
    ensures #[trigger] reads::<(A, B)>(t, v) ==> (t matches Tree::Tuple(es) ==> es.len() == 2 && reads::<A>(es[0], v.0) && reads::<B>(es[1], v.1));
pub broadcast axiom fn kept_pair<A, B>(t: Tree)
    ensures (t matches Tree::Tuple(es) && es.len() == 2 && kept::<A>(es[0]) && kept::<B>(es[1])) ==> #[trigger] kept::<(A, B)>(t);
pub broadcast axiom fn reads_option<T>(t: Tree, v: Option<T>)
    ensures #[trigger] reads::<Option<T>>(t, v) ==> match v { Some(x) => !(t is Null) && reads::<T>(t, x), None => t is Null };
pub broadcast axiom fn kept_option<T>(t: Tree)
    ensures (t is Null || kept::<T>(t)) ==> #[trigger] kept::<Option<T>>(t);
pub broadcast axiom fn tree_set(v: &crate::hb::HashSet<&str>) ensures !(#[trigger] tree::<crate::hb::HashSet<&str>>(v) is Null);
pub broadcast axiom fn tree_map<V>(v: &crate::hb::HashMap<&str, V>) ensures !(#[trigger] tree::<crate::hb::HashMap<&str, V>>(v) is Null);
pub broadcast axiom fn reads_set(a: &crate::hb::HashSet<&str>, v: crate::hb::HashSet<&str>)
    ensures #[trigger] reads::<crate::hb::HashSet<&str>>(tree(a), v) ==> v@ == a@;
pub broadcast axiom fn kept_set(a: &crate::hb::HashSet<&str>)
    ensures (forall|s: Seq<char>| #[trigger] a@.contains(s) ==> unescaped(s)) ==> kept::<crate::hb::HashSet<&str>>(#[trigger] tree(a));
pub broadcast axiom fn reads_map<V>(a: &crate::hb::HashMap<&str, V>, v: crate::hb::HashMap<&str, V>)
    ensures #[trigger] reads::<crate::hb::HashMap<&str, V>>(tree(a), v) ==> v@.dom() == a@.dom() && (forall|k: Seq<char>| #[trigger] a@.contains_key(k) ==> reads::<V>(tree::<V>(&a@[k]), v@[k]));
pub broadcast axiom fn kept_map<V>(a: &crate::hb::HashMap<&str, V>)
    ensures (forall|k: Seq<char>| #[trigger] a@.contains_key(k) ==> unescaped(k) && kept::<V>(tree::<V>(&a@[k]))) ==> kept::<crate::hb::HashMap<&str, V>>(#[trigger] tree(a));
pub broadcast group gathering { tree_vec, reads_vec, vec_back, kept_vec, tree_pair, reads_pair, kept_pair, reads_option, kept_option, tree_set, tree_map, reads_set, kept_set, reads_map, kept_map }
}
impl<'de, K: serde::Deserialize<'de>, V: serde::Deserialize<'de>> serde::Deserialize<'de> for crate::hb::HashMap<K, V> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { unimplemented!() }
}
impl<'de, K: serde::Deserialize<'de>> serde::Deserialize<'de> for crate::hb::HashSet<K> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { unimplemented!() }
}
