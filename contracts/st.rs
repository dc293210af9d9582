//! What the standard library's small functions do, as far as vstd does not say it.
#![allow(unused_imports)]
use std::borrow::Cow;
use vstd::prelude::*;

verus! {

// ---- Option
pub assume_specification<T, U: std::marker::Destruct, F: FnOnce(T) -> U>[ Option::<T>::map_or ](o: Option<T>, d: U, f: F) -> (r: U)
    where F: std::marker::Destruct
    requires
        o matches Some(x) ==> f.requires((x,)),
    ensures
        match o { Some(x) => f.ensures((x,), r), None => r == d };
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[ Option::<T>::map_or_else ](o: Option<T>, d: D, f: F) -> (r: U)
    where D: std::marker::Destruct, F: std::marker::Destruct
    requires
        o matches Some(x) ==> f.requires((x,)),
        o is None ==> d.requires(()),
    ensures
        match o { Some(x) => f.ensures((x,), r), None => d.ensures((), r) };
pub assume_specification<T, P: FnOnce(&T) -> bool>[ Option::<T>::filter ](o: Option<T>, p: P) -> (r: Option<T>)
    where P: std::marker::Destruct, T: std::marker::Destruct
    requires
        o matches Some(x) ==> p.requires((&x,)),
    ensures
        match o {
            Some(x) => (r == o && p.ensures((&x,), true)) || (r is None && p.ensures((&x,), false)),
            None => r is None,
        };
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_none_or ](o: Option<T>, f: F) -> (r: bool)
    where F: std::marker::Destruct
    requires
        o matches Some(x) ==> f.requires((x,)),
    ensures
        match o { Some(x) => f.ensures((x,), r), None => r };
pub assume_specification<T, F: FnOnce() -> Option<T>>[ Option::<T>::or_else ](o: Option<T>, f: F) -> (r: Option<T>)
    where F: std::marker::Destruct, T: std::marker::Destruct
    requires
        o is None ==> f.requires(()),
    ensures
        match o { Some(x) => r == o, None => f.ensures((), r) };
pub assume_specification<T: std::marker::Destruct>[ Option::<T>::xor ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures
        r == match (o, p) { (Some(x), None) => Some(x), (None, Some(x)) => Some(x), _ => None };
pub assume_specification<T, U>[ Option::<T>::zip ](o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>)
    where T: std::marker::Destruct, U: std::marker::Destruct
    ensures
        r == match (o, p) { (Some(x), Some(y)) => Some((x, y)), _ => None };
pub assume_specification<T, U>[ Option::<T>::and ](o: Option<T>, p: Option<U>) -> (r: Option<U>)
    where T: std::marker::Destruct, U: std::marker::Destruct
    ensures
        r == if o is Some { p } else { None };
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures
        r == *old(o),
        *final(o) == Some(v);
pub assume_specification<T>[ Option::<Option<T>>::flatten ](o: Option<Option<T>>) -> (r: Option<T>)
    ensures
        r == match o { Some(x) => x, None => None };
pub assume_specification<T, E>[ Option::<Result<T, E>>::transpose ](o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures
        r == match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) };

// ---- Result
pub assume_specification<T, E, F: FnOnce(T) -> bool>[ Result::<T, E>::is_ok_and ](o: Result<T, E>, f: F) -> (r: bool)
    where F: std::marker::Destruct, E: std::marker::Destruct, T: std::marker::Destruct
    requires
        o matches Ok(x) ==> f.requires((x,)),
    ensures
        match o { Ok(x) => f.ensures((x,), r), Err(_) => !r };
pub assume_specification<T, E, F: FnOnce(E) -> bool>[ Result::<T, E>::is_err_and ](o: Result<T, E>, f: F) -> (r: bool)
    where F: std::marker::Destruct, E: std::marker::Destruct, T: std::marker::Destruct
    requires
        o matches Err(x) ==> f.requires((x,)),
    ensures
        match o { Err(x) => f.ensures((x,), r), Ok(_) => !r };
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[ Result::<T, E>::and_then ](o: Result<T, E>, f: F) -> (r: Result<U, E>)
    where F: std::marker::Destruct
    requires
        o matches Ok(x) ==> f.requires((x,)),
    ensures
        match o { Ok(x) => f.ensures((x,), r), Err(e) => r == Err::<U, E>(e) };
pub assume_specification<T, E, G, F: FnOnce(E) -> Result<T, G>>[ Result::<T, E>::or_else ](o: Result<T, E>, f: F) -> (r: Result<T, G>)
    where F: std::marker::Destruct
    requires
        o matches Err(x) ==> f.requires((x,)),
    ensures
        match o { Err(x) => f.ensures((x,), r), Ok(x) => r == Ok::<T, G>(x) };
pub assume_specification<T, E, F: FnOnce(E) -> T>[ Result::<T, E>::unwrap_or_else ](o: Result<T, E>, f: F) -> (r: T)
    where F: std::marker::Destruct
    requires
        o matches Err(x) ==> f.requires((x,)),
    ensures
        match o { Err(x) => f.ensures((x,), r), Ok(x) => r == x };
pub assume_specification<T, E, U: std::marker::Destruct, F: FnOnce(T) -> U>[ Result::<T, E>::map_or ](o: Result<T, E>, d: U, f: F) -> (r: U)
    where F: std::marker::Destruct, E: std::marker::Destruct, T: std::marker::Destruct
    requires
        o matches Ok(x) ==> f.requires((x,)),
    ensures
        match o { Ok(x) => f.ensures((x,), r), Err(_) => r == d };

// ---- places
pub assume_specification<T>[ std::mem::replace::<T> ](d: &mut T, v: T) -> (r: T)
    ensures
        r == *old(d),
        *final(d) == v;
pub assume_specification<T>[ std::mem::drop::<T> ](v: T)
    where T: std::marker::Destruct;

// ---- texts
/// what a text, however it is held, is seen through
pub uninterp spec fn seen<'x, T: std::ops::Deref>(v: &'x T) -> &'x <T as std::ops::Deref>::Target;
pub broadcast axiom fn seen_string<'x>(v: &'x String)
    ensures (#[trigger] seen::<String>(v))@ == v@;
pub broadcast axiom fn seen_cow<'x, 'a>(v: &'x Cow<'a, str>)
    ensures (#[trigger] seen::<Cow<'a, str>>(v))@ == v@;
pub broadcast group sights { seen_string, seen_cow }
pub assume_specification<'x, T: std::ops::Deref>[ Option::<T>::as_deref ](o: &'x Option<T>) -> (r: Option<&'x <T as std::ops::Deref>::Target>)
    ensures
        r == match o { Some(x) => Some(seen(x)), None => None };

}
