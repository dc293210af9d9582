//! Specifications of what the contracted functions call in other crates, and the mathematical vocabulary.
#![allow(unused_imports, dead_code, unused_variables, non_snake_case)]
use crate::api::types::*;
use limabean_booking::*;
use rust_decimal::Decimal;
use std::borrow::Cow;
use std::collections::{HashMap, HashSet};
use time::Date;
use vstd::prelude::*;
use vstd::std_specs::iter::*;
verus! {

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExDecimal(Decimal);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExDate(Date);

// ---- rust_decimal: exact arithmetic, read as real numbers (overflow, which panics, is outside the domain)
pub uninterp spec fn val(d: Decimal) -> real;

pub assume_specification[ Decimal::abs ](d: &Decimal) -> (r: Decimal)
    ensures
        val(r) == if val(*d) >= 0real { val(*d) } else { -val(*d) };

pub broadcast axiom fn decimal_sub(a: Decimal, b: Decimal)
    ensures
        #[trigger] val(vstd::std_specs::ops::SubSpec::sub_spec(a, b)) == val(a) - val(b);
pub broadcast axiom fn decimal_sub_obeys()
    ensures
        #[trigger] <Decimal as vstd::std_specs::ops::SubSpec>::obeys_sub_spec();
pub broadcast axiom fn decimal_neg(a: Decimal)
    ensures
        #[trigger] val(vstd::std_specs::ops::NegSpec::neg_spec(a)) == -val(a);
pub broadcast axiom fn decimal_neg_obeys()
    ensures
        #[trigger] <Decimal as vstd::std_specs::ops::NegSpec>::obeys_neg_spec();
pub broadcast axiom fn decimal_cmp_obeys()
    ensures
        #[trigger] <Decimal as vstd::std_specs::cmp::PartialOrdSpec>::obeys_partial_cmp_spec();
pub broadcast axiom fn decimal_sub_assign_obeys()
    ensures
        #[trigger] <Decimal as vstd::std_specs::ops::SubAssignSpec>::obeys_sub_assign_spec();
pub broadcast axiom fn decimal_sub_assign_req(a: Decimal, b: Decimal)
    ensures
        #[trigger] vstd::std_specs::ops::SubAssignSpec::sub_assign_req(&a, b);
pub broadcast axiom fn decimal_sub_assign(a: Decimal, b: Decimal)
    ensures
        val(#[trigger] *vstd::std_specs::ops::SubAssignSpec::sub_assign_spec(&a, b)) == val(a) - val(b);
pub broadcast axiom fn decimal_mul_assign_obeys()
    ensures
        #[trigger] <Decimal as vstd::std_specs::ops::MulAssignSpec>::obeys_mul_assign_spec();
pub broadcast axiom fn decimal_mul_assign_req(a: Decimal, b: Decimal)
    ensures
        #[trigger] vstd::std_specs::ops::MulAssignSpec::mul_assign_req(&a, b);
pub broadcast axiom fn decimal_mul_assign(a: Decimal, b: Decimal)
    ensures
        val(#[trigger] *vstd::std_specs::ops::MulAssignSpec::mul_assign_spec(&a, b)) == val(a) * val(b);
pub broadcast axiom fn decimal_add_at_0_obeys<'x>()
    ensures #[trigger] <Decimal as vstd::std_specs::ops::AddSpec<&'x Decimal>>::obeys_add_spec();
pub broadcast axiom fn decimal_add_at_0_req<'x>(a: Decimal, b: &'x Decimal)
    ensures #[trigger] vstd::std_specs::ops::AddSpec::add_req(a, b);
pub broadcast axiom fn decimal_add_at_0<'x>(a: Decimal, b: &'x Decimal)
    ensures #[trigger] val(vstd::std_specs::ops::AddSpec::add_spec(a, b)) == val(a) + val(*b);
pub broadcast axiom fn decimal_add_at_1_obeys<'x>()
    ensures #[trigger] <&'x Decimal as vstd::std_specs::ops::AddSpec<Decimal>>::obeys_add_spec();
pub broadcast axiom fn decimal_add_at_1_req<'x>(a: &'x Decimal, b: Decimal)
    ensures #[trigger] vstd::std_specs::ops::AddSpec::add_req(a, b);
pub broadcast axiom fn decimal_add_at_1<'x>(a: &'x Decimal, b: Decimal)
    ensures #[trigger] val(vstd::std_specs::ops::AddSpec::add_spec(a, b)) == val(*a) + val(b);
pub broadcast axiom fn decimal_add_at_2_obeys<'x, 'y>()
    ensures #[trigger] <&'x Decimal as vstd::std_specs::ops::AddSpec<&'y Decimal>>::obeys_add_spec();
pub broadcast axiom fn decimal_add_at_2_req<'x, 'y>(a: &'x Decimal, b: &'y Decimal)
    ensures #[trigger] vstd::std_specs::ops::AddSpec::add_req(a, b);
pub broadcast axiom fn decimal_add_at_2<'x, 'y>(a: &'x Decimal, b: &'y Decimal)
    ensures #[trigger] val(vstd::std_specs::ops::AddSpec::add_spec(a, b)) == val(*a) + val(*b);
pub broadcast axiom fn decimal_sub_at_0_obeys<'x>()
    ensures #[trigger] <Decimal as vstd::std_specs::ops::SubSpec<&'x Decimal>>::obeys_sub_spec();
pub broadcast axiom fn decimal_sub_at_0_req<'x>(a: Decimal, b: &'x Decimal)
    ensures #[trigger] vstd::std_specs::ops::SubSpec::sub_req(a, b);
pub broadcast axiom fn decimal_sub_at_0<'x>(a: Decimal, b: &'x Decimal)
    ensures #[trigger] val(vstd::std_specs::ops::SubSpec::sub_spec(a, b)) == val(a) - val(*b);
pub broadcast axiom fn decimal_sub_at_1_obeys<'x>()
    ensures #[trigger] <&'x Decimal as vstd::std_specs::ops::SubSpec<Decimal>>::obeys_sub_spec();
pub broadcast axiom fn decimal_sub_at_1_req<'x>(a: &'x Decimal, b: Decimal)
    ensures #[trigger] vstd::std_specs::ops::SubSpec::sub_req(a, b);
pub broadcast axiom fn decimal_sub_at_1<'x>(a: &'x Decimal, b: Decimal)
    ensures #[trigger] val(vstd::std_specs::ops::SubSpec::sub_spec(a, b)) == val(*a) - val(b);
pub broadcast axiom fn decimal_sub_at_2_obeys<'x, 'y>()
    ensures #[trigger] <&'x Decimal as vstd::std_specs::ops::SubSpec<&'y Decimal>>::obeys_sub_spec();
pub broadcast axiom fn decimal_sub_at_2_req<'x, 'y>(a: &'x Decimal, b: &'y Decimal)
    ensures #[trigger] vstd::std_specs::ops::SubSpec::sub_req(a, b);
pub broadcast axiom fn decimal_sub_at_2<'x, 'y>(a: &'x Decimal, b: &'y Decimal)
    ensures #[trigger] val(vstd::std_specs::ops::SubSpec::sub_spec(a, b)) == val(*a) - val(*b);
pub broadcast axiom fn decimal_mul_at_0_obeys<'x>()
    ensures #[trigger] <Decimal as vstd::std_specs::ops::MulSpec<&'x Decimal>>::obeys_mul_spec();
pub broadcast axiom fn decimal_mul_at_0_req<'x>(a: Decimal, b: &'x Decimal)
    ensures #[trigger] vstd::std_specs::ops::MulSpec::mul_req(a, b);
pub broadcast axiom fn decimal_mul_at_0<'x>(a: Decimal, b: &'x Decimal)
    ensures #[trigger] val(vstd::std_specs::ops::MulSpec::mul_spec(a, b)) == val(a) * val(*b);
pub broadcast axiom fn decimal_mul_at_1_obeys<'x>()
    ensures #[trigger] <&'x Decimal as vstd::std_specs::ops::MulSpec<Decimal>>::obeys_mul_spec();
pub broadcast axiom fn decimal_mul_at_1_req<'x>(a: &'x Decimal, b: Decimal)
    ensures #[trigger] vstd::std_specs::ops::MulSpec::mul_req(a, b);
pub broadcast axiom fn decimal_mul_at_1<'x>(a: &'x Decimal, b: Decimal)
    ensures #[trigger] val(vstd::std_specs::ops::MulSpec::mul_spec(a, b)) == val(*a) * val(b);
pub broadcast axiom fn decimal_mul_at_2_obeys<'x, 'y>()
    ensures #[trigger] <&'x Decimal as vstd::std_specs::ops::MulSpec<&'y Decimal>>::obeys_mul_spec();
pub broadcast axiom fn decimal_mul_at_2_req<'x, 'y>(a: &'x Decimal, b: &'y Decimal)
    ensures #[trigger] vstd::std_specs::ops::MulSpec::mul_req(a, b);
pub broadcast axiom fn decimal_mul_at_2<'x, 'y>(a: &'x Decimal, b: &'y Decimal)
    ensures #[trigger] val(vstd::std_specs::ops::MulSpec::mul_spec(a, b)) == val(*a) * val(*b);
pub broadcast axiom fn decimal_neg_at_obeys<'x>()
    ensures #[trigger] <&'x Decimal as vstd::std_specs::ops::NegSpec>::obeys_neg_spec();
pub broadcast axiom fn decimal_neg_at_req<'x>(a: &'x Decimal)
    ensures #[trigger] vstd::std_specs::ops::NegSpec::neg_req(a);
pub broadcast axiom fn decimal_neg_at<'x>(a: &'x Decimal)
    ensures #[trigger] val(vstd::std_specs::ops::NegSpec::neg_spec(a)) == -val(*a);
pub broadcast axiom fn decimal_ord_obeys()
    ensures #[trigger] <Decimal as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec();
pub broadcast axiom fn decimal_ord(a: Decimal, b: Decimal)
    ensures #[trigger] vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) == real_cmp(val(a), val(b));
pub assume_specification[ <Decimal as Clone>::clone ](d: &Decimal) -> (r: Decimal)
    ensures r == *d;
pub assume_specification[ <Decimal as Default>::default ]() -> (r: Decimal)
    ensures val(r) == 0real;
pub broadcast axiom fn decimal_from_i32_obeys()
    ensures #[trigger] <Decimal as vstd::std_specs::convert::FromSpec<i32>>::obeys_from_spec();
pub broadcast axiom fn decimal_from_i32(n: i32)
    ensures #[trigger] val(<Decimal as vstd::std_specs::convert::FromSpec<i32>>::from_spec(n)) == n as real;
pub broadcast axiom fn decimal_from_u32_obeys()
    ensures #[trigger] <Decimal as vstd::std_specs::convert::FromSpec<u32>>::obeys_from_spec();
pub broadcast axiom fn decimal_from_u32(n: u32)
    ensures #[trigger] val(<Decimal as vstd::std_specs::convert::FromSpec<u32>>::from_spec(n)) == n as real;
pub broadcast axiom fn decimal_from_i64_obeys()
    ensures #[trigger] <Decimal as vstd::std_specs::convert::FromSpec<i64>>::obeys_from_spec();
pub broadcast axiom fn decimal_from_i64(n: i64)
    ensures #[trigger] val(<Decimal as vstd::std_specs::convert::FromSpec<i64>>::from_spec(n)) == n as real;
pub broadcast axiom fn decimal_from_u64_obeys()
    ensures #[trigger] <Decimal as vstd::std_specs::convert::FromSpec<u64>>::obeys_from_spec();
pub broadcast axiom fn decimal_from_u64(n: u64)
    ensures #[trigger] val(<Decimal as vstd::std_specs::convert::FromSpec<u64>>::from_spec(n)) == n as real;
pub broadcast axiom fn decimal_from_usize_obeys()
    ensures #[trigger] <Decimal as vstd::std_specs::convert::FromSpec<usize>>::obeys_from_spec();
pub broadcast axiom fn decimal_from_usize(n: usize)
    ensures #[trigger] val(<Decimal as vstd::std_specs::convert::FromSpec<usize>>::from_spec(n)) == n as real;
pub broadcast axiom fn decimal_eq_obeys()
    ensures
        #[trigger] <Decimal as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn decimal_eq(a: &Decimal, b: &Decimal)
    ensures
        #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (val(*a) == val(*b));
pub broadcast axiom fn date_eq_obeys()
    ensures
        #[trigger] <time::Date as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn date_eq(a: &time::Date, b: &time::Date)
    ensures
        #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (*a == *b);
pub broadcast axiom fn decimal_add_assign_obeys()
    ensures
        #[trigger] <Decimal as vstd::std_specs::ops::AddAssignSpec>::obeys_add_assign_spec();
pub broadcast axiom fn decimal_add_assign_req(a: Decimal, b: Decimal)
    ensures
        #[trigger] vstd::std_specs::ops::AddAssignSpec::add_assign_req(&a, b);
pub broadcast axiom fn decimal_add_assign(a: Decimal, b: Decimal)
    ensures
        val(#[trigger] *vstd::std_specs::ops::AddAssignSpec::add_assign_spec(&a, b)) == val(a) + val(b);
pub open spec fn real_cmp(a: real, b: real) -> std::cmp::Ordering {
    if a < b { std::cmp::Ordering::Less } else if a == b { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater }
}
pub broadcast axiom fn decimal_cmp(a: Decimal, b: Decimal)
    ensures
        #[trigger] vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(real_cmp(val(a), val(b)));
pub broadcast axiom fn decimal_sub_req(a: Decimal, b: Decimal)
    ensures
        #[trigger] vstd::std_specs::ops::SubSpec::sub_req(a, b);
pub broadcast axiom fn decimal_neg_req(a: Decimal)
    ensures
        #[trigger] vstd::std_specs::ops::NegSpec::neg_req(a);
pub broadcast axiom fn decimal_mul(a: Decimal, b: Decimal)
    ensures
        #[trigger] val(vstd::std_specs::ops::MulSpec::mul_spec(a, b)) == val(a) * val(b);
pub broadcast axiom fn decimal_mul_obeys()
    ensures
        #[trigger] <Decimal as vstd::std_specs::ops::MulSpec>::obeys_mul_spec();
pub broadcast axiom fn decimal_mul_req(a: Decimal, b: Decimal)
    ensures
        #[trigger] vstd::std_specs::ops::MulSpec::mul_req(a, b);
pub uninterp spec fn scale_of(d: Decimal) -> u32;
pub assume_specification[ Decimal::scale ](d: &Decimal) -> (r: u32)
    ensures
        r == scale_of(*d);
/// one unit in the last of that many decimal places
pub open spec fn place(scale: nat) -> real
    decreases scale
{
    if scale == 0 { 1real } else { place((scale - 1) as nat) / 10real }
}
pub assume_specification[ Decimal::new ](num: i64, scale: u32) -> (r: Decimal)
    ensures
        val(r) == (num as int as real) * place(scale as nat);
/// Decimal::ZERO
#[verifier::external_body]
pub fn zero() -> (r: Decimal)
    ensures
        val(r) == 0real
{ Decimal::ZERO }
/// Decimal::TWO
#[verifier::external_body]
pub fn two() -> (r: Decimal)
    ensures
        val(r) == 2real
{ Decimal::TWO }
pub broadcast axiom fn decimal_add(a: Decimal, b: Decimal)
    ensures
        #[trigger] val(vstd::std_specs::ops::AddSpec::add_spec(a, b)) == val(a) + val(b);
pub broadcast axiom fn decimal_add_obeys()
    ensures
        #[trigger] <Decimal as vstd::std_specs::ops::AddSpec>::obeys_add_spec();
pub broadcast axiom fn decimal_add_req(a: Decimal, b: Decimal)
    ensures
        #[trigger] vstd::std_specs::ops::AddSpec::add_req(a, b);
pub broadcast group decimals { parser_booking_eq_obeys, parser_booking_eq, lots_booking_eq_obeys, lots_booking_eq, ordering_eq, ordering_eq_obeys, decimal_add, decimal_add_obeys, decimal_add_req, decimal_mul, decimal_mul_obeys, decimal_mul_req,  decimal_sub, decimal_sub_obeys, decimal_sub_req, decimal_neg_req, decimal_neg, decimal_neg_obeys, decimal_cmp, decimal_cmp_obeys, decimal_sub_assign_obeys, decimal_sub_assign_req, decimal_sub_assign, decimal_mul_assign_obeys, decimal_mul_assign_req, decimal_mul_assign, decimal_add_at_0, decimal_add_at_0_obeys, decimal_add_at_0_req, decimal_add_at_1, decimal_add_at_1_obeys, decimal_add_at_1_req, decimal_add_at_2, decimal_add_at_2_obeys, decimal_add_at_2_req, decimal_sub_at_0, decimal_sub_at_0_obeys, decimal_sub_at_0_req, decimal_sub_at_1, decimal_sub_at_1_obeys, decimal_sub_at_1_req, decimal_sub_at_2, decimal_sub_at_2_obeys, decimal_sub_at_2_req, decimal_mul_at_0, decimal_mul_at_0_obeys, decimal_mul_at_0_req, decimal_mul_at_1, decimal_mul_at_1_obeys, decimal_mul_at_1_req, decimal_mul_at_2, decimal_mul_at_2_obeys, decimal_mul_at_2_req, decimal_neg_at_obeys, decimal_neg_at_req, decimal_neg_at, decimal_ord_obeys, decimal_ord, decimal_from_i32_obeys, decimal_from_i32, decimal_from_u32_obeys, decimal_from_u32, decimal_from_i64_obeys, decimal_from_i64, decimal_from_u64_obeys, decimal_from_u64, decimal_from_usize_obeys, decimal_from_usize, decimal_eq, decimal_eq_obeys, decimal_add_assign_obeys, decimal_add_assign_req, decimal_add_assign, date_eq, date_eq_obeys }

pub assume_specification<T: std::marker::Destruct>[ bool::then_some ](b: bool, t: T) -> (r: Option<T>)
    ensures
        r == if b { Some(t) } else { None::<T> };

pub assume_specification<T: std::marker::Destruct>[ Option::<T>::or ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures
        r == if o is Some { o } else { p };

pub assume_specification<T: Copy>[ Option::<&T>::copied ](o: Option<&T>) -> (r: Option<T>)
    ensures
        r == match o { Some(x) => Some(*x), None => None::<T> };

pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](o: Option<T>, f: F) -> (r: bool)
    requires
        o matches Some(x) ==> f.requires((x,)),
    ensures
        match o {
            Some(x) => f.ensures((x,), r),
            None => !r,
        };

pub uninterp spec fn cow_ref<'a, 'b, T: std::marker::MetaSized + ToOwned + ?Sized>(c: &'b Cow<'a, T>) -> &'b T;
pub broadcast axiom fn cow_text<'a, 'b>(c: &'b Cow<'a, str>)
    ensures
        (#[trigger] cow_ref::<str>(c))@ == c@;
pub assume_specification<'a, 'b, T: std::marker::MetaSized + ToOwned + ?Sized>[ <Cow<'a, T> as AsRef<T>>::as_ref ](c: &'b Cow<'a, T>) -> (r: &'b T)
    ensures
        r == cow_ref::<T>(c);
// ---- strings
pub broadcast axiom fn string_into_obeys()
    ensures
        #[trigger] <String as vstd::std_specs::convert::IntoSpec<String>>::obeys_into_spec();
pub broadcast axiom fn string_into(s: String)
    ensures
        #[trigger] vstd::std_specs::convert::IntoSpec::<String>::into_spec(s) == s;
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool {
    &&& p.len() <= s.len()
    &&& forall|i: int| 0 <= i < p.len() ==> s[i] == p[i]
}
/// what a literal pattern is the text of
pub uninterp spec fn pat<P>(p: P) -> Seq<char>;
pub uninterp spec fn literal<P>() -> bool;
pub broadcast axiom fn pat_str(p: &str)
    ensures #[trigger] pat::<&str>(p) == p@;
pub broadcast axiom fn pat_char(p: char)
    ensures #[trigger] pat::<char>(p) == seq![p];
pub broadcast axiom fn literal_str()
    ensures #[trigger] literal::<&str>();
pub broadcast axiom fn literal_char()
    ensures #[trigger] literal::<char>();
pub broadcast axiom fn text_of_text_0_obeys<'a>()
    ensures #[trigger] <Cow<'a, str> as vstd::std_specs::convert::FromSpec<&'a str>>::obeys_from_spec();
pub broadcast axiom fn text_of_text_0<'a>(s: &'a str)
    ensures (#[trigger] <Cow<'a, str> as vstd::std_specs::convert::FromSpec<&'a str>>::from_spec(s))@ == s@;
pub broadcast axiom fn text_of_text_1_obeys<'a>()
    ensures #[trigger] <Cow<'a, str> as vstd::std_specs::convert::FromSpec<String>>::obeys_from_spec();
pub broadcast axiom fn text_of_text_1<'a>(s: String)
    ensures (#[trigger] <Cow<'a, str> as vstd::std_specs::convert::FromSpec<String>>::from_spec(s))@ == s@;
pub broadcast axiom fn text_of_text_2_obeys<'x>()
    ensures #[trigger] <String as vstd::std_specs::convert::FromSpec<&'x str>>::obeys_from_spec();
pub broadcast axiom fn text_of_text_2<'x>(s: &'x str)
    ensures (#[trigger] <String as vstd::std_specs::convert::FromSpec<&'x str>>::from_spec(s))@ == s@;
pub broadcast axiom fn text_of_text_3_obeys<'a>()
    ensures #[trigger] <String as vstd::std_specs::convert::FromSpec<Cow<'a, str>>>::obeys_from_spec();
pub broadcast axiom fn text_of_text_3<'a>(s: Cow<'a, str>)
    ensures (#[trigger] <String as vstd::std_specs::convert::FromSpec<Cow<'a, str>>>::from_spec(s))@ == s@;
pub broadcast axiom fn text_of_text_4_obeys<'a, 'x>()
    ensures #[trigger] <Cow<'a, str> as vstd::std_specs::convert::FromSpec<&'a String>>::obeys_from_spec();
pub broadcast axiom fn text_of_text_4<'a, 'x>(s: &'a String)
    ensures (#[trigger] <Cow<'a, str> as vstd::std_specs::convert::FromSpec<&'a String>>::from_spec(s))@ == s@;
pub broadcast axiom fn option_from_obeys<T>()
    ensures #[trigger] <Option<T> as vstd::std_specs::convert::FromSpec<T>>::obeys_from_spec();
pub broadcast axiom fn option_from<T>(v: T)
    ensures (#[trigger] <Option<T> as vstd::std_specs::convert::FromSpec<T>>::from_spec(v)) == Some(v);
pub broadcast axiom fn parser_booking_eq_obeys()
    ensures #[trigger] <beancount_parser_lima::Booking as vstd::std_specs::cmp::PartialEqSpec<beancount_parser_lima::Booking>>::obeys_eq_spec();
pub broadcast axiom fn parser_booking_eq(a: beancount_parser_lima::Booking, b: beancount_parser_lima::Booking)
    ensures (#[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b)) == (a == b);
pub broadcast axiom fn lots_booking_eq_obeys()
    ensures #[trigger] <limabean_booking::Booking as vstd::std_specs::cmp::PartialEqSpec<limabean_booking::Booking>>::obeys_eq_spec();
pub broadcast axiom fn lots_booking_eq(a: limabean_booking::Booking, b: limabean_booking::Booking)
    ensures (#[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b)) == (a == b);
pub broadcast axiom fn text_more_obeys<'x>()
    ensures #[trigger] <String as vstd::std_specs::ops::AddAssignSpec<&'x str>>::obeys_add_assign_spec();
pub broadcast axiom fn text_more_req<'x>(a: String, b: &'x str)
    ensures #[trigger] vstd::std_specs::ops::AddAssignSpec::add_assign_req(&a, b);
pub broadcast axiom fn text_more<'x>(a: String, b: &'x str)
    ensures (#[trigger] *vstd::std_specs::ops::AddAssignSpec::add_assign_spec(&a, b))@ == a@ + b@;
pub broadcast axiom fn ordering_eq_obeys()
    ensures #[trigger] <std::cmp::Ordering as vstd::std_specs::cmp::PartialEqSpec<std::cmp::Ordering>>::obeys_eq_spec();
pub broadcast axiom fn ordering_eq(a: std::cmp::Ordering, b: std::cmp::Ordering)
    ensures (#[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b)) == (a == b);
pub broadcast axiom fn text_of_cow<'a>(c: &Cow<'a, str>, r: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures::<Cow<'a, str>>(c, r) ==> r@ == c@;
pub uninterp spec fn cloned_text<'a, B: ?Sized + ToOwned>(c: Cow<'a, B>) -> Cow<'a, B>;
pub broadcast axiom fn text_cloned<'a>(c: Cow<'a, str>)
    ensures (#[trigger] cloned_text(c))@ == c@;
pub assume_specification<'a, B: ?Sized + ToOwned>[ <Cow<'a, B> as Clone>::clone ](c: &Cow<'a, B>) -> (r: Cow<'a, B>)
    ensures r == cloned_text(*c);
// ---- texts are equal when they read alike
pub broadcast axiom fn texts_alike_0<'a>(a: &Cow<'a, str>, b: &str)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::<str>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn texts_alike_0_obeys<'a>()
    ensures #[trigger] <Cow<'a, str> as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn texts_alike_1<'a, 'b>(a: &Cow<'a, str>, b: &&'b str)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::<&'b str>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn texts_alike_1_obeys<'a, 'b>()
    ensures #[trigger] <Cow<'a, str> as vstd::std_specs::cmp::PartialEqSpec<&'b str>>::obeys_eq_spec();
pub broadcast axiom fn texts_alike_2<'a>(a: &Cow<'a, str>, b: &String)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::<String>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn texts_alike_2_obeys<'a>()
    ensures #[trigger] <Cow<'a, str> as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn texts_alike_3<'a>(a: &str, b: &Cow<'a, str>)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::<Cow<'a, str>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn texts_alike_3_obeys<'a>()
    ensures #[trigger] <str as vstd::std_specs::cmp::PartialEqSpec<Cow<'a, str>>>::obeys_eq_spec();
pub broadcast axiom fn texts_alike_4<'a, 'b>(a: &&'b str, b: &Cow<'a, str>)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::<Cow<'a, str>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn texts_alike_4_obeys<'a, 'b>()
    ensures #[trigger] <&'b str as vstd::std_specs::cmp::PartialEqSpec<Cow<'a, str>>>::obeys_eq_spec();
pub broadcast axiom fn texts_alike_5<'a>(a: &String, b: &Cow<'a, str>)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::<Cow<'a, str>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn texts_alike_5_obeys<'a>()
    ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<Cow<'a, str>>>::obeys_eq_spec();
pub broadcast axiom fn texts_alike_6<'a, 'b>(a: &Cow<'a, str>, b: &Cow<'b, str>)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::<Cow<'b, str>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn texts_alike_6_obeys<'a, 'b>()
    ensures #[trigger] <Cow<'a, str> as vstd::std_specs::cmp::PartialEqSpec<Cow<'b, str>>>::obeys_eq_spec();
pub broadcast axiom fn texts_alike_7(a: &String, b: &str)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::<str>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn texts_alike_7_obeys()
    ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn texts_alike_8<'b>(a: &String, b: &&'b str)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::<&'b str>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn texts_alike_8_obeys<'b>()
    ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&'b str>>::obeys_eq_spec();
pub broadcast axiom fn texts_alike_9(a: &str, b: &String)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::<String>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn texts_alike_9_obeys()
    ensures #[trigger] <str as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn texts_alike_10<'b>(a: &&'b str, b: &String)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::<String>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn texts_alike_10_obeys<'b>()
    ensures #[trigger] <&'b str as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast group strings { text_more_obeys, text_more_req, text_more, text_of_cow, text_cloned, string_into_obeys, string_into, cow_text, pat_str, pat_char, literal_str, literal_char, text_of_text_0_obeys, text_of_text_0, text_of_text_1_obeys, text_of_text_1, text_of_text_2_obeys, text_of_text_2, text_of_text_3_obeys, text_of_text_3, text_of_text_4_obeys, text_of_text_4, option_from_obeys, option_from, texts_alike_0, texts_alike_0_obeys, texts_alike_1, texts_alike_1_obeys, texts_alike_2, texts_alike_2_obeys, texts_alike_3, texts_alike_3_obeys, texts_alike_4, texts_alike_4_obeys, texts_alike_5, texts_alike_5_obeys, texts_alike_6, texts_alike_6_obeys, texts_alike_7, texts_alike_7_obeys, texts_alike_8, texts_alike_8_obeys, texts_alike_9, texts_alike_9_obeys, texts_alike_10, texts_alike_10_obeys }

pub assume_specification<P: std::str::pattern::Pattern>[ str::strip_prefix ](s: &str, p: P) -> (r: Option<&str>)
    ensures
        literal::<P>() ==> match r {
            Some(t) => s@ == pat(p) + t@,
            None => !starts(s@, pat(p)),
        };
pub assume_specification<P: std::str::pattern::Pattern>[ str::starts_with ](s: &str, p: P) -> (r: bool)
    ensures
        literal::<P>() ==> r == starts(s@, pat(p));

// ---- the vocabulary of accounts
/// the account itself, or an account below it
pub open spec fn at_or_below(base: Seq<char>, name: Seq<char>) -> bool {
    name == base || starts(name, base + seq![':'])
}
pub proof fn lemma_at_or_below(b: Seq<char>, c: Seq<char>)
    ensures
        forall|t: Seq<char>| c == #[trigger] (b + t) ==> (at_or_below(b, c) == (t.len() == 0 || t[0] == ':')),
        !starts(c, b) ==> !at_or_below(b, c),
{
    let bc = b + seq![':'];
    assert(forall|i: int| 0 <= i < b.len() ==> bc[i] == b[i]);
    assert(bc[b.len() as int] == ':');
    assert forall|t: Seq<char>| c == #[trigger] (b + t) implies (at_or_below(b, c) == (t.len() == 0 || t[0] == ':')) by {
        if t.len() == 0 {
            assert(c =~= b);
        } else {
            assert(c[b.len() as int] == t[0]);
            assert(c.len() > b.len());
        }
    }
    if starts(c, bc) {
        assert forall|i: int| 0 <= i < b.len() implies b[i] == c[i] by { assert(bc[i] == c[i]); }
    }
}

// ---- iterator adapters vstd does not have, as eager functions (the closures given to them are pure)
pub open spec fn somes<B>(s: Seq<Option<B>>) -> Seq<B>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        match s.last() {
            Some(b) => somes(s.drop_last()).push(b),
            None => somes(s.drop_last()),
        }
    }
}
/// the members of a sequence of which something is true, in order
pub open spec fn those(q: Seq<Seq<char>>, p: spec_fn(Seq<char>) -> bool) -> Seq<Seq<char>>
    decreases q.len()
{
    if q.len() == 0 { Seq::empty() } else if p(q.last()) { those(q.drop_last(), p).push(q.last()) } else { those(q.drop_last(), p) }
}
pub proof fn lemma_those(q: Seq<Seq<char>>, p: spec_fn(Seq<char>) -> bool)
    ensures
        forall|k: Seq<char>| #[trigger] those(q, p).contains(k) <==> q.contains(k) && p(k),
        q.no_duplicates() ==> those(q, p).no_duplicates(),
    decreases q.len()
{
    if q.len() > 0 {
        let d = q.drop_last();
        let l = q.last();
        lemma_those(d, p);
        assert(q =~= d.push(l));
        assert forall|k: Seq<char>| q.contains(k) <==> d.contains(k) || k == l by { lemma_push_contains(d, l, k); }
        if p(l) {
            assert forall|k: Seq<char>| #[trigger] those(q, p).contains(k) <==> q.contains(k) && p(k) by { lemma_push_contains(those(d, p), l, k); }
        }
        if q.no_duplicates() {
            assert(d.no_duplicates());
            assert(!d.contains(l)) by {
                if d.contains(l) {
                    let i = choose|i: int| 0 <= i < d.len() && d[i] == l;
                    assert(q[i] == q[q.len() - 1]);
                }
            }
            if p(l) {
                assert(!those(d, p).contains(l));
                let r = those(q, p);
                assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by {
                    if i == r.len() - 1 { assert(those(d, p).contains(those(d, p)[j])); }
                    if j == r.len() - 1 { assert(those(d, p).contains(those(d, p)[i])); }
                }
            }
        }
    }
}
/// an iterator which keeps to the rules and ends
pub open spec fn plain<I: Iterator>(i: &I) -> bool {
    IteratorSpec::obeys_prophetic_iter_laws(i) && IteratorSpec::decrease(i) is Some
}
pub trait IterExt: Iterator + Sized {
    /// enumerate
    #[verifier::external_body]
    fn numbered(self) -> (r: std::vec::IntoIter<(usize, Self::Item)>)
        ensures
            IteratorSpec::will_return_none(&self),
            plain(&r),
            IteratorSpec::remaining(&self).len() <= usize::MAX,
            IteratorSpec::remaining(&r) == Seq::new(IteratorSpec::remaining(&self).len(), |i: int| (i as usize, IteratorSpec::remaining(&self)[i])),
    { unimplemented!() }
    /// filter_map
    #[verifier::external_body]
    fn chosen<B, F: FnMut(Self::Item) -> Option<B>>(self, f: F) -> (r: std::vec::IntoIter<B>)
        requires
            forall|i: int| 0 <= i < IteratorSpec::remaining(&self).len() ==> f.requires((#[trigger] IteratorSpec::remaining(&self)[i],)),
        ensures
            IteratorSpec::will_return_none(&self),
            plain(&r),
            exists|outs: Seq<Option<B>>| #![auto] outs.len() == IteratorSpec::remaining(&self).len()
                && (forall|i: int| 0 <= i < outs.len() ==> f.ensures((IteratorSpec::remaining(&self)[i],), #[trigger] outs[i]))
                && IteratorSpec::remaining(&r) == somes(outs),
    { unimplemented!() }
    /// map
    #[verifier::external_body]
    fn mapped<B, F: FnMut(Self::Item) -> B>(self, f: F) -> (r: std::vec::IntoIter<B>)
        requires
            forall|i: int| 0 <= i < IteratorSpec::remaining(&self).len() ==> f.requires((#[trigger] IteratorSpec::remaining(&self)[i],)),
        ensures
            IteratorSpec::will_return_none(&self),
            plain(&r),
            IteratorSpec::remaining(&r).len() == IteratorSpec::remaining(&self).len(),
            forall|i: int| #![trigger IteratorSpec::remaining(&r)[i]] #![trigger IteratorSpec::remaining(&self)[i]]
                0 <= i < IteratorSpec::remaining(&r).len() ==> f.ensures((IteratorSpec::remaining(&self)[i],), IteratorSpec::remaining(&r)[i]),
    { unimplemented!() }
    /// flat_map to vectors
    #[verifier::external_body]
    fn spread<B, F: FnMut(Self::Item) -> Vec<B>>(self, f: F) -> (r: std::vec::IntoIter<B>)
        requires
            forall|i: int| 0 <= i < IteratorSpec::remaining(&self).len() ==> f.requires((#[trigger] IteratorSpec::remaining(&self)[i],)),
        ensures
            IteratorSpec::will_return_none(&self),
            plain(&r),
            exists|outs: Seq<Vec<B>>| #![auto] outs.len() == IteratorSpec::remaining(&self).len()
                && (forall|i: int| 0 <= i < outs.len() ==> f.ensures((IteratorSpec::remaining(&self)[i],), #[trigger] outs[i]))
                && IteratorSpec::remaining(&r) == joined(outs),
    { unimplemented!() }
    /// count
    #[verifier::external_body]
    fn counted(self) -> (r: usize)
        ensures
            IteratorSpec::will_return_none(&self),
            r == IteratorSpec::remaining(&self).len(),
    { unimplemented!() }
    /// sum of decimals
    #[verifier::external_body]
    fn totalled(self) -> (r: Decimal) where Self: Iterator<Item = Decimal>
        ensures
            IteratorSpec::will_return_none(&self),
            val(r) == total(IteratorSpec::remaining(&self)),
    { unimplemented!() }
}
impl<I: Iterator> IterExt for I {}
pub open spec fn joined<B>(s: Seq<Vec<B>>) -> Seq<B>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { joined(s.drop_last()) + s.last()@ }
}
pub open spec fn total(s: Seq<Decimal>) -> real
    decreases s.len()
{
    if s.len() == 0 { 0real } else { total(s.drop_last()) + val(s.last()) }
}

pub broadcast proof fn lemma_take_all<T>(s: Seq<T>, n: int)
    requires n == s.len()
    ensures #[trigger] s.take(n) == s
{
    assert(s.take(n) =~= s);
}
/// into_owned
pub trait CowExt { fn owned_text(self) -> String; }
impl<'a> CowExt for Cow<'a, str> {
    #[verifier::external_body]
    fn owned_text(self) -> (r: String)
        ensures r@ == self@
    { unimplemented!() }
}
/// a text which states a value
pub uninterp spec fn states<A: ?Sized>(text: Seq<char>, a: &A) -> bool;
pub broadcast axiom fn states_it<A: ?Sized>(text: Seq<char>, a: &&A)
    ensures #[trigger] states::<&A>(text, a) == states::<A>(text, *a);
/// what a formatting macro makes of the values given to it
#[verifier::external_body]
pub fn said0() -> (r: String)
{ unimplemented!() }
#[verifier::external_body]
pub fn said1<A: ?Sized>(a: &A) -> (r: String)
    ensures states(r@, a)
{ unimplemented!() }
#[verifier::external_body]
pub fn said2<A: ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: String)
    ensures states(r@, a), states(r@, b)
{ unimplemented!() }
#[verifier::external_body]
pub fn said3<A: ?Sized, B: ?Sized, C: ?Sized>(a: &A, b: &B, c: &C) -> (r: String)
    ensures states(r@, a), states(r@, b), states(r@, c)
{ unimplemented!() }

/// what something iterates over
pub uninterp spec fn listing<I: IntoIterator>(i: I) -> Seq<I::Item>;
#[verifier::external_body]
pub fn listed<I: IntoIterator>(i: I) -> (r: std::vec::IntoIter<I::Item>)
    ensures plain(&r), IteratorSpec::remaining(&r) == listing(i)
{ unimplemented!() }
pub axiom fn listing_slice<T>(s: &[T])
    ensures listing::<&[T]>(s) == Seq::new(s@.len(), |i: int| &s@[i]);
pub broadcast axiom fn listing_vec<T>(v: Vec<T>)
    ensures #[trigger] listing::<Vec<T>>(v) == v@;
pub broadcast axiom fn listing_iter<I: Iterator>(i: I)
    ensures #[trigger] listing::<I>(i) == IteratorSpec::remaining(&i);
/// a table, about which nothing is said
#[verifier::external_body]
pub fn table<T>(rows: T, wide: bool) -> (r: String)
{ unimplemented!() }
/// a part of a slice
#[verifier::external_body]
pub fn part<'a, T>(s: &'a [T], w: &std::ops::Range<usize>) -> (r: &'a [T])
    requires w.start <= w.end <= s@.len()
    ensures r@ == s@.subrange(w.start as int, w.end as int)
{ unimplemented!() }

/// clone
pub trait Dup: Clone {
    #[verifier::external_body]
    fn dup(&self) -> (r: Self)
        ensures r == *self
    { self.clone() }
}
impl<T: Clone> Dup for T {}
/// each text of an optional set
#[verifier::external_body]
pub(crate) fn each<'a>(s: &Option<crate::hb::HashSet<&'a str>>) -> (r: std::vec::IntoIter<&'a str>)
    ensures
        forall|t: Seq<char>| (exists|i: int| 0 <= i < IteratorSpec::remaining(&r).len() && (#[trigger] IteratorSpec::remaining(&r)[i])@ == t) <==> names(*s).contains(t),
{ unimplemented!() }
pub(crate) open spec fn names<'a>(s: Option<crate::hb::HashSet<&'a str>>) -> Set<Seq<char>> {
    match s { Some(s) => s@, None => Set::empty() }
}

// ---- sums
pub open spec fn rsum(s: Set<Seq<char>>, f: spec_fn(Seq<char>) -> real) -> real
    decreases s.len()
{
    if s.len() == 0 { 0real } else {
        let x = s.choose();
        f(x) + rsum(s.remove(x), f)
    }
}
pub proof fn lemma_rsum_same(s: Set<Seq<char>>, f: spec_fn(Seq<char>) -> real, g: spec_fn(Seq<char>) -> real)
    requires
        forall|x: Seq<char>| s.contains(x) ==> f(x) == g(x),
    ensures
        rsum(s, f) == rsum(s, g),
    decreases s.len()
{
    if s.len() != 0 {
        lemma_rsum_same(s.remove(s.choose()), f, g);
    }
}
pub proof fn lemma_rsum_remove(s: Set<Seq<char>>, f: spec_fn(Seq<char>) -> real, x: Seq<char>)
    requires
        s.contains(x),
    ensures
        rsum(s, f) == f(x) + rsum(s.remove(x), f),
    decreases s.len()
{
    let y = s.choose();
    if y != x {
        lemma_rsum_remove(s.remove(y), f, x);
        lemma_rsum_remove(s.remove(x), f, y);
        assert(s.remove(x).remove(y) =~= s.remove(y).remove(x));
    }
}
pub open spec fn qsum(q: Seq<Seq<char>>, f: spec_fn(Seq<char>) -> real) -> real
    decreases q.len()
{
    if q.len() == 0 { 0real } else { qsum(q.drop_last(), f) + f(q.last()) }
}
pub proof fn lemma_qsum(q: Seq<Seq<char>>, s: Set<Seq<char>>, f: spec_fn(Seq<char>) -> real)
    requires
        q.no_duplicates(),
        forall|x: Seq<char>| #![trigger s.contains(x)] #![trigger q.contains(x)] s.contains(x) <==> q.contains(x),
    ensures
        qsum(q, f) == rsum(s, f),
    decreases q.len()
{
    if q.len() == 0 {
        assert(s =~= Set::empty());
    } else {
        let x = q.last();
        assert(q.contains(x));
        assert forall|y: Seq<char>| s.remove(x).contains(y) <==> q.drop_last().contains(y) by {
            if q.drop_last().contains(y) {
                let i = choose|i: int| 0 <= i < q.drop_last().len() && q.drop_last()[i] == y;
                assert(q[i] == y);
            }
            if s.remove(x).contains(y) {
                let i = choose|i: int| 0 <= i < q.len() && q[i] == y;
                assert(i != q.len() - 1);
                assert(q.drop_last()[i] == y);
            }
        }
        lemma_qsum(q.drop_last(), s.remove(x), f);
        lemma_rsum_remove(s, f, x);
    }
}
pub broadcast proof fn lemma_somes<B>(s: Seq<Option<B>>)
    ensures
        (#[trigger] somes(s)).len() == 0 <==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is None,
        somes(s).len() > 0 ==> exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == Some(somes(s)[0]) && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]) is None,
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_somes(d);
        assert forall|i: int| 0 <= i < d.len() implies d[i] == #[trigger] s[i] by {}
        if somes(d).len() > 0 {
            let i = choose|i: int| #![trigger d[i]] 0 <= i < d.len() && d[i] == Some(somes(d)[0]) && forall|j: int| 0 <= j < i ==> (#[trigger] d[j]) is None;
            assert(s[i] == Some(somes(s)[0]));
            assert forall|j: int| 0 <= j < i implies (#[trigger] s[j]) is None by { assert(d[j] is None); }
        } else {
            assert forall|j: int| 0 <= j < s.len() - 1 implies (#[trigger] s[j]) is None by { assert(d[j] is None); }
            assert(s[s.len() - 1] == s.last());
        }
    }
}
pub proof fn lemma_total(s: Seq<Decimal>, q: Seq<Seq<char>>, f: spec_fn(Seq<char>) -> real)
    requires
        s.len() == q.len(),
        forall|i: int| 0 <= i < q.len() ==> val(#[trigger] s[i]) == f(q[i]),
    ensures
        total(s) == qsum(q, f),
    decreases q.len()
{
    if q.len() > 0 {
        assert forall|i: int| 0 <= i < q.len() - 1 implies val(#[trigger] s.drop_last()[i]) == f(q.drop_last()[i]) by { assert(s[i] == s.drop_last()[i]); }
        lemma_total(s.drop_last(), q.drop_last(), f);
        assert(val(s[s.len() - 1]) == f(q[q.len() - 1]));
    }
}
/// the names which are the base or below it
pub open spec fn kept(q: Seq<Seq<char>>, base: Seq<char>) -> Seq<Seq<char>>
    decreases q.len()
{
    if q.len() == 0 { Seq::empty() } else if at_or_below(base, q.last()) { kept(q.drop_last(), base).push(q.last()) } else { kept(q.drop_last(), base) }
}
pub proof fn lemma_kept(q: Seq<Seq<char>>, base: Seq<char>)
    ensures
        forall|k: Seq<char>| #[trigger] kept(q, base).contains(k) <==> q.contains(k) && at_or_below(base, k),
        q.no_duplicates() ==> kept(q, base).no_duplicates(),
    decreases q.len()
{
    if q.len() > 0 {
        let d = q.drop_last();
        let l = q.last();
        lemma_kept(d, base);
        assert(q =~= d.push(l));
        assert forall|k: Seq<char>| q.contains(k) <==> d.contains(k) || k == l by { lemma_push_contains(d, l, k); }
        if at_or_below(base, l) {
            assert forall|k: Seq<char>| #[trigger] kept(q, base).contains(k) <==> q.contains(k) && at_or_below(base, k) by { lemma_push_contains(kept(d, base), l, k); }
        }
        if q.no_duplicates() {
            assert(d.no_duplicates());
            assert(!d.contains(l)) by {
                if d.contains(l) {
                    let i = choose|i: int| 0 <= i < d.len() && d[i] == l;
                    assert(q[i] == q[q.len() - 1]);
                }
            }
            if at_or_below(base, l) {
                assert(!kept(d, base).contains(l));
                let r = kept(q, base);
                assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by {
                    if i == r.len() - 1 { assert(kept(d, base).contains(kept(d, base)[j])); }
                    if j == r.len() - 1 { assert(kept(d, base).contains(kept(d, base)[i])); }
                }
            }
        }
    }
}
pub proof fn lemma_push_contains<T>(d: Seq<T>, l: T, k: T)
    ensures
        d.push(l).contains(k) <==> d.contains(k) || k == l,
{
    let q = d.push(l);
    assert(q[q.len() - 1] == l);
    if d.contains(k) {
        let i = choose|i: int| 0 <= i < d.len() && d[i] == k;
        assert(q[i] == k);
    }
    if q.contains(k) {
        let i = choose|i: int| 0 <= i < q.len() && q[i] == k;
        if i < d.len() { assert(d[i] == k); }
    }
}
pub proof fn lemma_kept_somes<B>(q: Seq<Seq<char>>, base: Seq<char>, outs: Seq<Option<B>>, f: spec_fn(Seq<char>) -> B)
    requires
        outs.len() == q.len(),
        forall|i: int| 0 <= i < outs.len() ==> #[trigger] outs[i] == if at_or_below(base, q[i]) { Some(f(q[i])) } else { None::<B> },
    ensures
        somes(outs) == kept(q, base).map_values(f),
    decreases q.len()
{
    if q.len() > 0 {
        assert forall|i: int| 0 <= i < outs.len() - 1 implies #[trigger] outs.drop_last()[i] == if at_or_below(base, q.drop_last()[i]) { Some(f(q.drop_last()[i])) } else { None::<B> } by {
            assert(outs[i] == outs.drop_last()[i]);
        }
        lemma_kept_somes(q.drop_last(), base, outs.drop_last(), f);
        assert(outs[outs.len() - 1] == outs.last());
    }
    assert(somes(outs) =~= kept(q, base).map_values(f));
}

/// what the kind of a directive is called (written by a derive macro of the strum crate)
pub open spec fn kind_name<'a>(v: raw::DirectiveVariant<'a>) -> Seq<char> {
    match v {
        raw::DirectiveVariant::Transaction(_) => "transaction"@,
        raw::DirectiveVariant::Price(_) => "price"@,
        raw::DirectiveVariant::Balance(_) => "balance"@,
        raw::DirectiveVariant::Open(_) => "open"@,
        raw::DirectiveVariant::Close(_) => "close"@,
        raw::DirectiveVariant::Commodity(_) => "commodity"@,
        raw::DirectiveVariant::Pad(_) => "pad"@,
        raw::DirectiveVariant::Document(_) => "document"@,
        raw::DirectiveVariant::Note(_) => "note"@,
        raw::DirectiveVariant::Event(_) => "event"@,
        raw::DirectiveVariant::Query(_) => "query"@,
        raw::DirectiveVariant::Custom(_) => "custom"@,
    }
}
pub broadcast axiom fn kind_into_obeys<'x, 'a>()
    ensures #[trigger] <&'static str as vstd::std_specs::convert::FromSpec<&'x raw::DirectiveVariant<'a>>>::obeys_from_spec();
pub broadcast axiom fn kind_into<'x, 'a>(v: &'x raw::DirectiveVariant<'a>)
    ensures #[trigger] (<&'static str as vstd::std_specs::convert::FromSpec<&'x raw::DirectiveVariant<'a>>>::from_spec(v))@ == kind_name(*v);
pub broadcast group kinds { kind_into_obeys, kind_into }
}
