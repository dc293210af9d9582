//! Stand-in for the declarations of the limabean-booking crate that the contracted code calls, in the extraction only.
//! Everything said of them here is assumed (it is a dependency, not part of this repository).
#![allow(unused_imports, dead_code, unused_variables)]
use crate::api::types::raw;
use crate::vspec::*;
use beancount_parser_lima as parser;
pub use limabean_booking::Booking;
use rust_decimal::Decimal;
use std::borrow::Cow;
use std::marker::PhantomData;
use time::Date;
use vstd::prelude::*;
use vstd::std_specs::iter::*;

verus! {

#[verifier::external_type_specification]
pub struct ExBooking(Booking);

pub open spec fn supported(b: Booking) -> bool { !(b is Average) }
pub open spec fn strict() -> Booking { Booking::Strict }
#[verifier::external_body]
pub fn is_supported_method(method: Booking) -> (r: bool)
    ensures r == supported(method)
{ unimplemented!() }
pub assume_specification[ <Booking as std::default::Default>::default ]() -> (r: Booking)
    ensures r == strict();

pub trait BookingTypes: Sized {
    type Account;
    type Date;
    type Currency;
    type Number;
    type Label;
}
#[derive(Debug)]
pub struct LimaParserBookingTypes<'a>(pub PhantomData<&'a str>);
impl<'a> BookingTypes for LimaParserBookingTypes<'a> {
    type Account = &'a str;
    type Date = Date;
    type Currency = &'a str;
    type Number = Decimal;
    type Label = Cow<'a, str>;
}
pub trait PostingSpec {
    type Types: BookingTypes;
    type CostSpec: CostSpec<Types = Self::Types>;
    type PriceSpec: PriceSpec<Types = Self::Types>;
    fn account(&self) -> <Self::Types as BookingTypes>::Account;
    fn units(&self) -> Option<<Self::Types as BookingTypes>::Number>;
    fn currency(&self) -> Option<<Self::Types as BookingTypes>::Currency>;
    fn cost(&self) -> Option<&Self::CostSpec>;
    fn price(&self) -> Option<&Self::PriceSpec>;
}
pub trait CostSpec {
    type Types: BookingTypes;
    fn date(&self) -> Option<<Self::Types as BookingTypes>::Date>;
    fn per_unit(&self) -> Option<<Self::Types as BookingTypes>::Number>;
    fn total(&self) -> Option<<Self::Types as BookingTypes>::Number>;
    fn currency(&self) -> Option<<Self::Types as BookingTypes>::Currency>;
    fn label(&self) -> Option<<Self::Types as BookingTypes>::Label>;
    fn merge(&self) -> bool;
}
pub trait PriceSpec {
    type Types: BookingTypes;
    fn per_unit(&self) -> Option<<Self::Types as BookingTypes>::Number>;
    fn total(&self) -> Option<<Self::Types as BookingTypes>::Number>;
    fn currency(&self) -> Option<<Self::Types as BookingTypes>::Currency>;
}

/// the tolerances of a ledger
#[verifier::external_body]
#[derive(Debug)]
pub struct LimaTolerance<'a> { x: PhantomData<&'a str> }
impl<'a> LimaTolerance<'a> {
    pub uninterp spec fn multiplier(&self) -> Option<Decimal>;
    #[verifier::external_body]
    pub fn inferred_tolerance_multiplier(&self) -> (r: Option<Decimal>)
        ensures r == self.multiplier()
    { unimplemented!() }
}
pub trait Tolerance {}

/// the lots of an account
#[verifier::external_body]
#[verifier::accept_recursive_types(B)]
#[derive(Debug)]
pub struct Positions<B> { x: PhantomData<B> }
impl<'a> Positions<LimaParserBookingTypes<'a>> {
    /// the units held in a currency, over all lots
    pub uninterp spec fn held(&self, cur: Seq<char>) -> real;
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures forall|c: Seq<char>| #[trigger] r.held(c) == 0real
    { unimplemented!() }
    #[verifier::external_body]
    pub fn units(&self) -> (r: crate::hb::HashMap<&&'a str, Decimal>)
        ensures
            forall|c: Seq<char>| #[trigger] r@.contains_key(c) ==> val(r@[c]) == self.held(c),
            forall|c: Seq<char>| !#[trigger] r@.contains_key(c) ==> self.held(c) == 0real,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn accumulate(&mut self, units: Decimal, currency: &'a str, cost: Option<Cost<LimaParserBookingTypes<'a>>>, method: Booking)
        requires supported(method)
        ensures
            forall|c: Seq<char>| #[trigger] final(self).held(c) == old(self).held(c) + if c == currency@ { val(units) } else { 0real },
    { unimplemented!() }
}

pub struct Cost<B: BookingTypes> {
    pub date: B::Date,
    pub per_unit: B::Number,
    pub total: B::Number,
    pub currency: B::Currency,
    pub label: Option<B::Label>,
    pub merge: bool,
}
pub struct Price<B: BookingTypes> {
    pub per_unit: B::Number,
    pub total: Option<B::Number>,
    pub currency: B::Currency,
}
pub struct PostingCost<B: BookingTypes> {
    pub date: B::Date,
    pub units: B::Number,
    pub per_unit: B::Number,
    pub total: B::Number,
    pub label: Option<B::Label>,
    pub merge: bool,
}
pub struct PostingCosts<B: BookingTypes> {
    pub cost_currency: B::Currency,
    pub adjustments: Vec<PostingCost<B>>,
}
impl<B: BookingTypes> PostingCosts<B> {
    #[verifier::external_body]
    pub fn into_currency_costs(self) -> (r: std::vec::IntoIter<(B::Currency, PostingCost<B>)>)
        ensures
            plain(&r),
            IteratorSpec::remaining(&r) == Seq::new(self.adjustments@.len(), |i: int| (self.cost_currency, self.adjustments@[i])),
    { unimplemented!() }
}
pub struct Interpolated<'p, B: BookingTypes, P> {
    pub posting: &'p P,
    pub idx: usize,
    pub units: B::Number,
    pub currency: B::Currency,
    pub cost: Option<PostingCosts<B>>,
    pub price: Option<Price<B>>,
}
#[verifier::reject_recursive_types(B)]
pub struct Bookings<'p, B: BookingTypes, P> {
    pub interpolated_postings: Vec<Interpolated<'p, B, P>>,
    pub updated_inventory: Inventory<B>,
}
#[verifier::external_body]
#[verifier::reject_recursive_types(B)]
pub struct Inventory<B: BookingTypes> { x: PhantomData<B> }
impl<'a> Inventory<LimaParserBookingTypes<'a>> {
    /// the accounts and their lots, in the order of iteration, which is not specified
    pub uninterp spec fn entries(&self) -> Seq<(&'a str, Positions<LimaParserBookingTypes<'a>>)>;
    /// into_iter
    #[verifier::external_body]
    pub fn listed(self) -> (r: std::vec::IntoIter<(&'a str, Positions<LimaParserBookingTypes<'a>>)>)
        ensures IteratorSpec::remaining(&r) == self.entries(), plain(&r)
    { unimplemented!() }
}
impl<'a> IntoIterator for Inventory<LimaParserBookingTypes<'a>> {
    type Item = (&'a str, Positions<LimaParserBookingTypes<'a>>);
    type IntoIter = std::vec::IntoIter<(&'a str, Positions<LimaParserBookingTypes<'a>>)>;
    #[verifier::external_body]
    fn into_iter(self) -> (r: std::vec::IntoIter<(&'a str, Positions<LimaParserBookingTypes<'a>>)>)
        ensures IteratorSpec::remaining(&r) == self.entries(), plain(&r)
    { unimplemented!() }
}

#[verifier::external_body]
#[derive(Debug)]
pub struct TransactionBookingError { x: u8 }
#[verifier::external_body]
#[derive(Debug)]
pub struct PostingBookingError { x: u8 }
pub enum BookingError {
    Transaction(TransactionBookingError),
    Posting(usize, PostingBookingError),
}

pub type Types<'a> = LimaParserBookingTypes<'a>;
pub type Lots<'a> = Positions<LimaParserBookingTypes<'a>>;

/// what the dependency makes of the postings of a transaction, given the lots held and the booking method of each account
pub(crate) uninterp spec fn booked_by<'a, 'p>(
    date: Date,
    postings: Seq<raw::PostingSpec<'a>>,
    tolerance: LimaTolerance<'a>,
    lots: spec_fn(Seq<char>) -> Option<Lots<'a>>,
    method: spec_fn(Seq<char>) -> Booking,
) -> Result<Bookings<'p, Types<'a>, raw::PostingSpec<'a>>, BookingError>;

pub(crate) open spec fn posted_to(postings: Seq<raw::PostingSpec<'_>>, name: Seq<char>) -> bool {
    exists|j: int| 0 <= j < postings.len() && #[trigger] postings[j].acc@ == name
}
/// postings and interpolated postings correspond; only lots of accounts posted to are updated
pub(crate) axiom fn booked_by_aligned<'a, 'p>(
    date: Date,
    postings: Seq<raw::PostingSpec<'a>>,
    tolerance: LimaTolerance<'a>,
    lots: spec_fn(Seq<char>) -> Option<Lots<'a>>,
    method: spec_fn(Seq<char>) -> Booking,
)
    ensures
        booked_by(date, postings, tolerance, lots, method) matches Ok(b) ==> {
            &&& b.interpolated_postings@.len() == postings.len()
            &&& forall|i: int| 0 <= i < b.updated_inventory.entries().len() ==> posted_to(postings, (#[trigger] b.updated_inventory.entries()[i]).0@)
        };

#[verifier::external_body]
pub(crate) fn book<'a, 'p, 'i, 't, I: Fn(&'a str) -> Option<&'i Lots<'a>>, M: Fn(&'a str) -> Booking>(
    date: Date,
    postings: &[&'p raw::PostingSpec<'a>],
    tolerance: &'t LimaTolerance<'a>,
    inventory: I,
    method: M,
) -> (r: Result<Bookings<'p, Types<'a>, raw::PostingSpec<'a>>, BookingError>) where 'a: 'i
    requires
        forall|n: &'a str| #[trigger] inventory.requires((n,)),
        forall|n: &'a str| #[trigger] method.requires((n,)),
    ensures
        forall|ps: Seq<raw::PostingSpec<'a>>, lots: spec_fn(Seq<char>) -> Option<Lots<'a>>, m: spec_fn(Seq<char>) -> Booking|
            ps.len() == postings@.len() && (forall|i: int| 0 <= i < ps.len() ==> #[trigger] ps[i] == *postings@[i])
            && (forall|n: &'a str, o: Option<&'i Lots<'a>>| #[trigger] inventory.ensures((n,), o) ==> match o {
                Some(p) => lots(n@) == Some(*p),
                None => lots(n@) is None,
            })
            && (forall|n: &'a str, o: Booking| #[trigger] method.ensures((n,), o) ==> o == m(n@))
            ==> r == #[trigger] booked_by(date, ps, *tolerance, lots, m),
{ unimplemented!() }
}
macro_rules! shown { ($($t:ty),*) => { $(impl std::fmt::Display for $t {
    fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
})* } }
shown!(TransactionBookingError, PostingBookingError);
verus! {
/// the text of an error, as it is displayed
pub broadcast axiom fn error_of_transaction_stated(e: TransactionBookingError, r: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures::<TransactionBookingError>(&e, r) ==> states(r@, &e);
/// the reason given is the dependency's own
pub open spec fn gives(reason: Seq<char>, e: BookingError) -> bool {
    match e {
        BookingError::Transaction(x) => states(reason, &x),
        BookingError::Posting(i, x) => states(reason, &i) && states(reason, &x),
    }
}
/// the tolerances that the options of a ledger give
pub uninterp spec fn tolerance_of<'a>(o: parser::Options<'a>) -> LimaTolerance<'a>;
pub broadcast axiom fn tolerance_of_options<'a>(o: parser::Options<'a>)
    ensures (#[trigger] tolerance_of(o)).multiplier() == crate::pl::options_inferred_tolerance_multiplier(o);
impl<'a, 'x> From<&'x parser::Options<'a>> for LimaTolerance<'a> {
    #[verifier::external_body]
    fn from(o: &'x parser::Options<'a>) -> Self { unimplemented!() }
}
impl<'a, 'x> vstd::std_specs::convert::FromSpecImpl<&'x parser::Options<'a>> for LimaTolerance<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(o: &'x parser::Options<'a>) -> Self { tolerance_of(*o) }
}
}
