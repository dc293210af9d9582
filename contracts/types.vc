@file api/types.rs
@replace pub(crate) => pub
@prepend
use crate::vspec::*;
@struct ElementIdx #[derive(Structural)]
@struct IndexedReport
@struct SyntheticSpan
@struct Report
@struct Plugin
@append
verus! {
impl vstd::std_specs::convert::FromSpecImpl<usize> for ElementIdx {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: usize) -> Self { ElementIdx { directive: v, posting: None } }
}
impl vstd::std_specs::convert::FromSpecImpl<(ElementIdx, usize)> for ElementIdx {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: (ElementIdx, usize)) -> Self { ElementIdx { directive: v.0.directive, posting: Some(v.1) } }
}
}
@fn fmt_iso8601date(date) : C16
@attr #[verifier::external_body]
r => ensures r@ == crate::se::iso(date)
@fn parse_iso8601date(s) : C16
@attr #[verifier::external_body]
r => ensures forall|d: Date| #[trigger] crate::se::iso(d) == s@ ==> r == Ok::<Date, time::error::Parse>(d)
@fn From<usize>forElementIdx::from(value) : C10 C17
@fn From<(ElementIdx,usize)>forElementIdx::from(value) : C10 C17
@fn ElementIdx::report(self, reason) : C10 C17 C21
r => ensures r.idx == self, r.related is None, r.annotation is None,
   <S as vstd::std_specs::convert::IntoSpec<String>>::obeys_into_spec() ==> r.reason == vstd::std_specs::convert::IntoSpec::<String>::into_spec(reason)
@fn IndexedReport::related_to(self, element) : C10 C17
r => ensures r.idx == self.idx, r.reason == self.reason, r.annotation == self.annotation,
   r.related is Some, r.related->0@ == (match self.related { Some(v) => v@, None => Seq::empty() }).push(element)
@fn IndexedReport::with_annotation(self, annotation) : C10 C17
r => ensures r.idx == self.idx, r.reason == self.reason, r.related == self.related, r.annotation is Some,
   <S as vstd::std_specs::convert::IntoSpec<String>>::obeys_into_spec() ==> r.annotation == Some(vstd::std_specs::convert::IntoSpec::<String>::into_spec(annotation))
@file api/types/raw.rs
@replace pub(crate) => pub
@replace collections::{HashMap, HashSet}, => collections::{},
@prepend
use crate::hb::{HashMap, HashSet};
@struct Directive
@struct DirectiveVariant
@struct Transaction
@struct PriceDct
@struct Balance
@struct Open
@struct Close
@struct Commodity
@struct Pad
@struct Document
@struct Note
@struct Event
@struct Query
@struct Custom
@struct PostingSpec
@struct CostSpec
@struct PriceSpec
@struct Price
@struct MetaValue
@struct Options
@struct Booking #[derive(Structural)]
@struct PluginProcessingMode #[derive(Structural)]
@struct SpannedSource
@struct Span
@file api/types/booked.rs
@replace pub(crate) => pub
@replace collections::{HashMap, HashSet}, => collections::{},
@prepend
use crate::hb::{HashMap, HashSet};
@replace limabean_booking:: => crate::lb::
@struct Directive
@struct DirectiveVariant
@struct Transaction
@struct Posting
@struct Cost
@struct Price
@struct Balance
@file api/types/booking_type_conversions.rs
@replace limabean_booking:: => crate::lb::
@append
verus! {
impl<'a, 'x> vstd::std_specs::convert::FromSpecImpl<&'x crate::lb::Price<crate::lb::LimaParserBookingTypes<'a>>> for Price<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'x crate::lb::Price<crate::lb::LimaParserBookingTypes<'a>>) -> Self {
        Price { per_unit: v.per_unit, total: v.total, cur: v.currency }
    }
}
}
@fn From<&crate::lb::Price<crate::lb::LimaParserBookingTypes>>forPrice::from(value) : C20
@file api/booking.rs
@replace limabean_booking:: => crate::lb::
@append
pub(crate) use accumulator::{all_there, there, values, Course};
verus! {
broadcast use crate::pl::parsed;
/// what booking of a ledger comes to
pub(crate) open spec fn outcome<'a, 'b>(ds: Seq<crate::api::types::raw::Directive<'b>>, o: parser::Options<'a>, r: Result<BookingSuccess<'b>, BookingFailure>) -> bool {
    exists|from: Accumulator<'b, '_>, c: Course<'b, '_>| #[trigger] c.ended(from, ds, r)
        && from.starts_off(method_by_default(o), crate::lb::tolerance_of(o)) && from.in_step(Seq::empty())
}
/// the method that booking of a ledger falls back on: the one of its option, if it is supported, else strict
pub(crate) open spec fn method_by_default(o: parser::Options<'_>) -> crate::lb::Booking {
    match crate::pl::options_booking_method(o) {
        Some(b) => if crate::lb::supported(crate::pl::method_named(b)) { crate::pl::method_named(b) } else { crate::lb::strict() },
        None => crate::lb::strict(),
    }
}
}
@fn book(directives, options) : C12 C03 C10 C11 C21
r => ensures
   outcome(directives@, *options, r),
   r matches Err(f) ==> f.errors@.len() > 0 && forall|t: int| 0 <= t < f.errors@.len() ==> all_there(directives@, #[trigger] f.errors@[t]),
@start
crate::vspec::listing_slice(directives);
@end
assert(values(crate::vspec::listing(directives)) =~= directives@);
let (from, c) = choose|from: Accumulator<'b, '_>, c: Course<'b, '_>| #[trigger] c.ended(from, directives@, result__)
   && from.starts_off(method_by_default(*options), crate::lb::tolerance_of(*options)) && from.in_step(Seq::empty());
c.errors_are_there(from, method_by_default(*options), crate::lb::tolerance_of(*options), directives@, result__);
@file api/booking/types.rs
@replace limabean_booking:: => crate::lb::
@rename clone dup
@prepend
use crate::vspec::*;
@append
verus! {
/// the method of that name
pub open spec fn method_of(b: raw::Booking) -> Booking {
    match b {
        raw::Booking::Strict => Booking::Strict,
        raw::Booking::StrictWithSize => Booking::StrictWithSize,
        raw::Booking::None => Booking::None,
        raw::Booking::Average => Booking::Average,
        raw::Booking::Fifo => Booking::Fifo,
        raw::Booking::Lifo => Booking::Lifo,
        raw::Booking::Hifo => Booking::Hifo,
    }
}
impl vstd::std_specs::convert::FromSpecImpl<raw::Booking> for Booking {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: raw::Booking) -> Self { method_of(v) }
}
}
@fn From<raw::Booking>forBooking::from(value) : C12
@fn PostingSpecforraw::PostingSpec::account(self) : C01 C20 C21
r => ensures r == self.acc
@fn PostingSpecforraw::PostingSpec::currency(self) : C02 C20 C21
r => ensures r == self.cur
@fn PostingSpecforraw::PostingSpec::units(self) : C20 C21
r => ensures r == self.units
@fn PostingSpecforraw::PostingSpec::cost(self) : C20 C21
r => ensures match r { Some(c) => self.cost_spec == Some(*c), None => self.cost_spec is None }
@fn PostingSpecforraw::PostingSpec::price(self) : C20 C21
r => ensures match r { Some(c) => self.price_spec == Some(*c), None => self.price_spec is None }
@fn CostSpecforraw::CostSpec::currency(self) : C20 C21
r => ensures r == self.cur
@fn CostSpecforraw::CostSpec::per_unit(self) : C20 C21
r => ensures r == self.per_unit
@fn CostSpecforraw::CostSpec::total(self) : C20 C21
r => ensures r == self.total
@fn CostSpecforraw::CostSpec::date(self) : C20 C21
r => ensures r == self.date
@fn CostSpecforraw::CostSpec::label(self) : C20 C21
r => ensures r == self.label
@fn CostSpecforraw::CostSpec::merge(self) : C20 C21
r => ensures r == self.merge
@fn PriceSpecforraw::PriceSpec::currency(self) : C20 C21
r => ensures r == self.cur
@fn PriceSpecforraw::PriceSpec::per_unit(self) : C20 C21
r => ensures r == self.per_unit
@fn PriceSpecforraw::PriceSpec::total(self) : C20 C21
r => ensures r == self.total
@file api/types/parser_type_conversions.rs
@options
@rename count counted
@rename contexts contexts_listed
@rename related related_listed
@rename inferred_tolerance_defaults tolerances_listed
@rename into_owned owned_text
@rename message message_told
@rename reason reason_told
@replace collections::{HashMap, HashSet}, => collections::{},
@prepend
use crate::hb::{HashMap, HashSet};
use crate::vspec::*;
use vstd::std_specs::iter::*;
use crate::api::booking::{all_there, there};
use crate::pl::*;
use vstd::std_specs::convert::FromSpecImpl;
use std::path::PathBuf;
verus! { broadcast use {strings, kinds, crate::hb::texts, crate::st::sights, crate::pl::parsed, crate::pl::names, crate::pl::flags, crate::pl::plains, lemma_take_all}; }
@append
verus! {
/// each directive, and each posting, has a location
pub(crate) open spec fn located<'a>(ds: Seq<raw::Directive<'a>>) -> bool {
    forall|i: int| 0 <= i < ds.len() ==> placed(#[trigger] ds[i])
}
pub(crate) open spec fn placed<'a>(d: raw::Directive<'a>) -> bool {
    &&& d.span is Some
    &&& match d.variant {
        raw::DirectiveVariant::Transaction(t) => forall|p: int| 0 <= p < t.postings@.len() ==> (#[trigger] t.postings@[p]).span is Some,
        _ => true,
    }
}
/// what an element is called, and where it is
pub(crate) open spec fn titled<'a>(ds: Seq<raw::Directive<'a>>, e: ElementIdx) -> Seq<char> {
    if e.posting is Some { "posting"@ } else { kind_name(ds[e.directive as int].variant) }
}
pub(crate) open spec fn located_at<'a>(ds: Seq<raw::Directive<'a>>, e: ElementIdx) -> Option<Span> {
    let d = ds[e.directive as int];
    match (e.posting, d.variant) {
        (Some(p), raw::DirectiveVariant::Transaction(t)) => t.postings@[p as int].span,
        _ => d.span,
    }
}
pub(crate) open spec fn points_to<'a, 'c>(r: (Cow<'c, str>, Span), ds: Seq<raw::Directive<'a>>, e: ElementIdx) -> bool {
    r.0@ == titled(ds, e) && Some(r.1) == located_at(ds, e)
}
/// the text states the title
pub(crate) open spec fn mentions(text: Seq<char>, title: Seq<char>) -> bool {
    exists|t: Cow<'static, str>| t@ == title && #[trigger] states(text, &t)
}
/// the report says where the error is, and all that was said of it
pub(crate) open spec fn reported<'a, 'c>(r: Report<'c>, ds: Seq<raw::Directive<'a>>, e: IndexedReport) -> bool {
    &&& mentions(r.message@, titled(ds, e.idx))
    &&& r.reason@ == e.reason@
    &&& Some(r.span) == located_at(ds, e.idx)
    &&& match r.contexts {
        Some(q) => e.idx.posting is Some && q@.len() == 1 && points_to(q@[0], ds, ElementIdx { directive: e.idx.directive, posting: None }),
        None => e.idx.posting is None,
    }
    &&& match r.related {
        Some(q) => e.related is Some && q@.len() == e.related->0@.len() && forall|i: int| 0 <= i < q@.len() ==> points_to(#[trigger] q@[i], ds, e.related->0@[i]),
        None => e.related is None,
    }
    &&& match r.annotation {
        Some(a) => e.annotation is Some && a@ == e.annotation->0@,
        None => e.annotation is None,
    }
}
}
@fn resolve_indexed_element(idx, directives) : C17
r =>
requires
    there(directives@, idx), located(directives@),
ensures
    points_to(r, directives@, idx),
@fn create_reports_from_booking_errors(indexed_reports, directives) : C17 C11
r =>
requires
    located(directives@),
    forall|i: int| 0 <= i < indexed_reports@.len() ==> all_there(directives@, #[trigger] indexed_reports@[i]),
ensures
    r@.len() == indexed_reports@.len(),
    forall|i: int| 0 <= i < r@.len() ==> reported(#[trigger] r@[i], directives@, indexed_reports@[i]),
@closure 0 : IndexedReport -> r: Report<'c>
requires located(directives@), all_there(directives@, arg0)
ensures reported(r, directives@, arg0)
@closure 1 : ElementIdx -> r: (Cow<'static, str>, Span)
requires located(directives@), there(directives@, arg0)
ensures points_to(r, directives@, arg0)
@append
verus! {
/// a text, if there is one
pub open spec fn same_text(r: Option<&str>, v: Option<&str>) -> bool {
    match (r, v) { (Some(r), Some(v)) => r@ == v@, (None, None) => true, _ => false }
}
pub open spec fn same_words(r: Option<Cow<'_, str>>, v: Option<&str>) -> bool {
    match (r, v) { (Some(r), Some(v)) => r@ == v@, (None, None) => true, _ => false }
}
pub open spec fn same_currency<'a>(r: Option<&'a str>, v: Option<parser::Currency<'a>>) -> bool {
    match (r, v) { (Some(r), Some(v)) => r@ == currency_text(v), (None, None) => true, _ => false }
}
pub open spec fn same_below<'a>(r: Option<&'a str>, v: Option<parser::Subaccount<'a>>) -> bool {
    match (r, v) { (Some(r), Some(v)) => r@ == subaccount_text(v), (None, None) => true, _ => false }
}
pub open spec fn same_value(r: Option<Decimal>, v: Option<parser::ExprValue>) -> bool {
    r == match v { Some(v) => Some(expr_value(v)), None => None }
}
/// a set of texts, present if it has any
pub open spec fn texts_kept<T>(r: Option<HashSet<&str>>, v: Seq<T>, text_of: spec_fn(T) -> Seq<char>) -> bool {
    match r {
        Some(s) => v.len() > 0 && all_texts(s@, v, text_of),
        None => v.len() == 0,
    }
}
pub open spec fn all_texts<T>(s: Set<Seq<char>>, v: Seq<T>, text_of: spec_fn(T) -> Seq<char>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> s.contains(text_of(#[trigger] v[i]))
    &&& forall|t: Seq<char>| #[trigger] s.contains(t) ==> exists|i: int| 0 <= i < v.len() && text_of(#[trigger] v[i]) == t
}
pub open spec fn tag_of<'a>() -> spec_fn(parser::Spanned<parser::Tag<'a>>) -> Seq<char> { |x: parser::Spanned<parser::Tag<'a>>| tag_text(item_of(x)) }
pub open spec fn link_of<'a>() -> spec_fn(parser::Spanned<parser::Link<'a>>) -> Seq<char> { |x: parser::Spanned<parser::Link<'a>>| link_text(item_of(x)) }
pub open spec fn cur_of<'a>() -> spec_fn(parser::Spanned<parser::Currency<'a>>) -> Seq<char> { |x: parser::Spanned<parser::Currency<'a>>| currency_text(item_of(x)) }
/// keys with their values, present if there are any
pub open spec fn metadata_kept<'a>(r: Option<HashMap<&'a str, MetaValue<'a>>>, v: Seq<(parser::Key<'a>, parser::MetaValue<'a>)>) -> bool {
    match r {
        Some(m) => v.len() > 0
            && (forall|i: int| 0 <= i < v.len() ==> m@.contains_key(key_text((#[trigger] v[i]).0)))
            && (forall|k: Seq<char>| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < v.len() && key_text((#[trigger] v[i]).0) == k && meta_kept(v[i].1, m@[k])),
        None => v.len() == 0,
    }
}
pub open spec fn span_kept(v: parser::Span, r: Span) -> bool {
    r.source == v.source && r.start == v.start && r.end == v.end
}
pub open spec fn flag_kept(v: parser::Flag, r: Seq<char>) -> bool {
    r == match v {
        parser::Flag::Asterisk => "*"@,
        parser::Flag::Exclamation => "!"@,
        parser::Flag::Ampersand => "&"@,
        parser::Flag::Hash => "#"@,
        parser::Flag::Question => "?"@,
        parser::Flag::Percent => "%"@,
        parser::Flag::Letter(_) => flag_text(v),
    }
}
/// PriceDct
pub open spec fn price_kept<'a>(v: parser::Price<'a>, r: PriceDct<'a>) -> bool {
    r.cur@ == currency_text(price_currency(v)) && r.price.per_unit == expr_value(amount_number(price_amount(v))) && r.price.total is None && r.price.cur@ == currency_text(amount_currency(price_amount(v)))
}
impl<'a, 'x> FromSpecImpl<&'x parser::Price<'a>> for PriceDct<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::Price<'a>) -> Self { arbitrary() }
}
/// Balance
pub open spec fn balance_kept<'a>(v: parser::Balance<'a>, r: Balance<'a>) -> bool {
    r.acc@ == account_text(balance_account(v)) && r.units == expr_value(amount_number(amount_with_tolerance_amount(balance_atol(v)))) && r.cur@ == currency_text(amount_currency(amount_with_tolerance_amount(balance_atol(v)))) && r.tolerance == amount_with_tolerance_tolerance(balance_atol(v))
}
impl<'a, 'x> FromSpecImpl<&'x parser::Balance<'a>> for Balance<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::Balance<'a>) -> Self { arbitrary() }
}
/// Close
pub open spec fn close_kept<'a>(v: parser::Close<'a>, r: Close<'a>) -> bool {
    r.acc@ == account_text(close_account(v))
}
impl<'a, 'x> FromSpecImpl<&'x parser::Close<'a>> for Close<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::Close<'a>) -> Self { arbitrary() }
}
/// Commodity
pub open spec fn commodity_kept<'a>(v: parser::Commodity<'a>, r: Commodity<'a>) -> bool {
    r.cur@ == currency_text(commodity_currency(v))
}
impl<'a, 'x> FromSpecImpl<&'x parser::Commodity<'a>> for Commodity<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::Commodity<'a>) -> Self { arbitrary() }
}
/// Pad
pub open spec fn pad_kept<'a>(v: parser::Pad<'a>, r: Pad<'a>) -> bool {
    r.acc@ == account_text(pad_account(v)) && r.source@ == account_text(pad_source(v))
}
impl<'a, 'x> FromSpecImpl<&'x parser::Pad<'a>> for Pad<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::Pad<'a>) -> Self { arbitrary() }
}
/// Document
pub open spec fn document_kept<'a>(v: parser::Document<'a>, r: Document<'a>) -> bool {
    r.acc@ == account_text(document_account(v)) && r.path@ == document_path(v)@
}
impl<'a, 'x> FromSpecImpl<&'x parser::Document<'a>> for Document<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::Document<'a>) -> Self { arbitrary() }
}
/// Note
pub open spec fn note_kept<'a>(v: parser::Note<'a>, r: Note<'a>) -> bool {
    r.acc@ == account_text(note_account(v)) && r.comment@ == note_comment(v)@
}
impl<'a, 'x> FromSpecImpl<&'x parser::Note<'a>> for Note<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::Note<'a>) -> Self { arbitrary() }
}
/// Event
pub open spec fn event_kept<'a>(v: parser::Event<'a>, r: Event<'a>) -> bool {
    r.type_@ == event_event_type(v)@ && r.description@ == event_description(v)@
}
impl<'a, 'x> FromSpecImpl<&'x parser::Event<'a>> for Event<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::Event<'a>) -> Self { arbitrary() }
}
/// Query
pub open spec fn query_kept<'a>(v: parser::Query<'a>, r: Query<'a>) -> bool {
    r.name@ == query_name(v)@ && r.content@ == query_content(v)@
}
impl<'a, 'x> FromSpecImpl<&'x parser::Query<'a>> for Query<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::Query<'a>) -> Self { arbitrary() }
}
/// Plugin
pub open spec fn plugin_kept<'a>(v: parser::Plugin<'a>, r: Plugin<'a>) -> bool {
    r.name@ == plugin_module_name(v)@ && same_text(r.config, plugin_config(v))
}
impl<'a, 'x> FromSpecImpl<&'x parser::Plugin<'a>> for Plugin<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::Plugin<'a>) -> Self { arbitrary() }
}
/// MetaValue
pub open spec fn meta_kept<'a>(v: parser::MetaValue<'a>, r: MetaValue<'a>) -> bool {
    match (v, r) {
        (parser::MetaValue::Simple(parser::SimpleValue::String(x)), MetaValue::String(y)) => y@ == x@,
        (parser::MetaValue::Simple(parser::SimpleValue::Currency(x)), MetaValue::Currency(y)) => y@ == currency_text(x),
        (parser::MetaValue::Simple(parser::SimpleValue::Account(x)), MetaValue::Account(y)) => y@ == account_text(x),
        (parser::MetaValue::Simple(parser::SimpleValue::Tag(x)), MetaValue::Tag(y)) => y@ == tag_text(x),
        (parser::MetaValue::Simple(parser::SimpleValue::Link(x)), MetaValue::Link(y)) => y@ == link_text(x),
        (parser::MetaValue::Simple(parser::SimpleValue::Date(x)), MetaValue::Date(y)) => y == x,
        (parser::MetaValue::Simple(parser::SimpleValue::Bool(x)), MetaValue::Bool(y)) => y == x,
        (parser::MetaValue::Simple(parser::SimpleValue::Expr(x)), MetaValue::Number(y)) => y == expr_value(x),
        (parser::MetaValue::Simple(parser::SimpleValue::Null), MetaValue::Null) => true,
        (parser::MetaValue::Amount(x), MetaValue::Amount(n, c)) => n == expr_value(amount_number(x)) && c@ == currency_text(amount_currency(x)),
        _ => false,
    }
}
impl<'a, 'x> FromSpecImpl<&'x parser::MetaValue<'a>> for MetaValue<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::MetaValue<'a>) -> Self { arbitrary() }
}
/// CostSpec
pub open spec fn cost_kept<'a>(v: parser::CostSpec<'a>, r: CostSpec<'a>) -> bool {
    &&& same_value(r.per_unit, cost_spec_per_unit(v))
    &&& same_value(r.total, cost_spec_total(v))
    &&& same_currency(r.cur, cost_spec_currency(v))
    &&& r.date == cost_spec_date(v)
    &&& same_words(r.label, cost_spec_label(v))
    &&& r.merge == cost_spec_merge(v)
}
impl<'a, 'x> FromSpecImpl<&'x parser::CostSpec<'a>> for CostSpec<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::CostSpec<'a>) -> Self { arbitrary() }
}
/// PriceSpec
pub open spec fn price_spec_kept<'a>(v: parser::PriceSpec<'a>, r: PriceSpec<'a>) -> bool {
    match v {
        parser::PriceSpec::Unspecified => r.per_unit is None && r.total is None && r.cur is None,
        parser::PriceSpec::BareCurrency(c) => r.per_unit is None && r.total is None && same_currency(r.cur, Some(c)),
        parser::PriceSpec::BareAmount(parser::ScopedExprValue::PerUnit(x)) => r.per_unit == Some(expr_value(x)) && r.total is None && r.cur is None,
        parser::PriceSpec::BareAmount(parser::ScopedExprValue::Total(x)) => r.per_unit is None && r.total == Some(expr_value(x)) && r.cur is None,
        parser::PriceSpec::CurrencyAmount(parser::ScopedExprValue::PerUnit(x), c) => r.per_unit == Some(expr_value(x)) && r.total is None && same_currency(r.cur, Some(c)),
        parser::PriceSpec::CurrencyAmount(parser::ScopedExprValue::Total(x), c) => r.per_unit is None && r.total == Some(expr_value(x)) && same_currency(r.cur, Some(c)),
    }
}
impl<'a, 'x> FromSpecImpl<&'x parser::PriceSpec<'a>> for PriceSpec<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::PriceSpec<'a>) -> Self { arbitrary() }
}
/// PostingSpec
pub open spec fn posting_kept<'a>(v: parser::Spanned<parser::Posting<'a>>, r: PostingSpec<'a>) -> bool {
    let p = item_of(v);
    &&& r.span matches Some(s) && span_kept(span_of(v), s)
    &&& match (posting_flag(p), r.flag) { (Some(f), Some(r)) => flag_kept(f, r@), (None, None) => true, _ => false }
    &&& r.acc@ == account_text(posting_account(p))
    &&& same_value(r.units, posting_amount(p))
    &&& same_currency(r.cur, posting_currency(p))
    &&& match (posting_cost_spec(p), r.cost_spec) { (Some(c), Some(r)) => cost_kept(c, r), (None, None) => true, _ => false }
    &&& match (posting_price_annotation(p), r.price_spec) { (Some(c), Some(r)) => price_spec_kept(c, r), (None, None) => true, _ => false }
    &&& texts_kept(r.tags, metadata_tags(posting_metadata(p)), tag_of())
    &&& texts_kept(r.links, metadata_links(posting_metadata(p)), link_of())
    &&& metadata_kept(r.metadata, metadata_key_values(posting_metadata(p)))
}
impl<'a, 'x> FromSpecImpl<&'x parser::Spanned<parser::Posting<'a>>> for PostingSpec<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::Spanned<parser::Posting<'a>>) -> Self { arbitrary() }
}
/// Transaction
pub open spec fn transaction_kept<'a>(v: parser::Transaction<'a>, r: Transaction<'a>) -> bool {
    &&& flag_kept(transaction_flag(v), r.flag@)
    &&& same_words(r.payee, transaction_payee(v))
    &&& same_words(r.narration, transaction_narration(v))
    &&& r.postings@.len() == transaction_postings(v).len()
    &&& forall|i: int| 0 <= i < r.postings@.len() ==> posting_kept(transaction_postings(v)[i], #[trigger] r.postings@[i])
}
impl<'a, 'x> FromSpecImpl<&'x parser::Transaction<'a>> for Transaction<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::Transaction<'a>) -> Self { arbitrary() }
}
/// Open
pub open spec fn open_kept<'a>(v: parser::Open<'a>, r: Open<'a>) -> bool {
    &&& r.acc@ == account_text(open_account(v))
    &&& texts_kept(r.currencies, open_currencies(v), cur_of())
    &&& match (open_booking(v), r.booking) { (Some(b), Some(r)) => booking_kept(b, r), (None, None) => true, _ => false }
}
impl<'a, 'x> FromSpecImpl<&'x parser::Open<'a>> for Open<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::Open<'a>) -> Self { arbitrary() }
}
/// Custom
pub open spec fn custom_kept<'a>(v: parser::Custom<'a>, r: Custom<'a>) -> bool {
    &&& r.type_@ == custom_type(v)@
    &&& r.values@.len() == custom_values(v).len()
    &&& forall|i: int| 0 <= i < r.values@.len() ==> meta_kept(item_of(custom_values(v)[i]), #[trigger] r.values@[i])
}
impl<'a, 'x> FromSpecImpl<&'x parser::Custom<'a>> for Custom<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::Custom<'a>) -> Self { arbitrary() }
}
/// DirectiveVariant
pub open spec fn variant_kept<'a>(v: parser::DirectiveVariant<'a>, r: DirectiveVariant<'a>) -> bool {
    match (v, r) {
        (parser::DirectiveVariant::Transaction(x), DirectiveVariant::Transaction(y)) => transaction_kept(x, y),
        (parser::DirectiveVariant::Price(x), DirectiveVariant::Price(y)) => price_kept(x, y),
        (parser::DirectiveVariant::Balance(x), DirectiveVariant::Balance(y)) => balance_kept(x, y),
        (parser::DirectiveVariant::Open(x), DirectiveVariant::Open(y)) => open_kept(x, y),
        (parser::DirectiveVariant::Close(x), DirectiveVariant::Close(y)) => close_kept(x, y),
        (parser::DirectiveVariant::Commodity(x), DirectiveVariant::Commodity(y)) => commodity_kept(x, y),
        (parser::DirectiveVariant::Pad(x), DirectiveVariant::Pad(y)) => pad_kept(x, y),
        (parser::DirectiveVariant::Document(x), DirectiveVariant::Document(y)) => document_kept(x, y),
        (parser::DirectiveVariant::Note(x), DirectiveVariant::Note(y)) => note_kept(x, y),
        (parser::DirectiveVariant::Event(x), DirectiveVariant::Event(y)) => event_kept(x, y),
        (parser::DirectiveVariant::Query(x), DirectiveVariant::Query(y)) => query_kept(x, y),
        (parser::DirectiveVariant::Custom(x), DirectiveVariant::Custom(y)) => custom_kept(x, y),
        _ => false,
    }
}
impl<'a, 'x> FromSpecImpl<&'x parser::DirectiveVariant<'a>> for DirectiveVariant<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::DirectiveVariant<'a>) -> Self { arbitrary() }
}
/// Directive
pub open spec fn directive_kept<'a>(v: parser::Spanned<parser::Directive<'a>>, r: Directive<'a>) -> bool {
    let d = item_of(v);
    &&& r.span matches Some(s) && span_kept(span_of(v), s)
    &&& r.date == directive_date(d)
    &&& variant_kept(directive_variant(d), r.variant)
    &&& texts_kept(r.tags, metadata_tags(directive_metadata(d)), tag_of())
    &&& texts_kept(r.links, metadata_links(directive_metadata(d)), link_of())
    &&& metadata_kept(r.metadata, metadata_key_values(directive_metadata(d)))
}
impl<'a, 'x> FromSpecImpl<&'x parser::Spanned<parser::Directive<'a>>> for Directive<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::Spanned<parser::Directive<'a>>) -> Self { arbitrary() }
}
pub open spec fn booking_kept(v: parser::Booking, r: Booking) -> bool {
    match (v, r) {
        (parser::Booking::Strict, Booking::Strict) => true,
        (parser::Booking::StrictWithSize, Booking::StrictWithSize) => true,
        (parser::Booking::None, Booking::None) => true,
        (parser::Booking::Average, Booking::Average) => true,
        (parser::Booking::Fifo, Booking::Fifo) => true,
        (parser::Booking::Lifo, Booking::Lifo) => true,
        (parser::Booking::Hifo, Booking::Hifo) => true,
        _ => false,
    }
}
pub open spec fn mode_kept(v: parser::PluginProcessingMode, r: PluginProcessingMode) -> bool {
    match (v, r) {
        (parser::PluginProcessingMode::Default, PluginProcessingMode::Default) => true,
        (parser::PluginProcessingMode::Raw, PluginProcessingMode::Raw) => true,
        _ => false,
    }
}
impl FromSpecImpl<parser::Booking> for Booking {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: parser::Booking) -> Self { arbitrary() }
}
impl<'x> FromSpecImpl<&'x parser::Booking> for Booking {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::Booking) -> Self { arbitrary() }
}
impl FromSpecImpl<parser::PluginProcessingMode> for PluginProcessingMode {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: parser::PluginProcessingMode) -> Self { arbitrary() }
}
impl<'x> FromSpecImpl<&'x parser::PluginProcessingMode> for PluginProcessingMode {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::PluginProcessingMode) -> Self { arbitrary() }
}
impl<'x, T> FromSpecImpl<&'x parser::Spanned<T>> for Span {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::Spanned<T>) -> Self { arbitrary() }
}
impl<'x> FromSpecImpl<&'x parser::Span> for Span {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::Span) -> Self { arbitrary() }
}
impl FromSpecImpl<parser::Span> for Span {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: parser::Span) -> Self { arbitrary() }
}
impl FromSpecImpl<Span> for parser::Span {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Span) -> Self { arbitrary() }
}
impl<'x> FromSpecImpl<&'x Span> for parser::Span {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x Span) -> Self { arbitrary() }
}
impl<'a> FromSpecImpl<parser::SpannedSource<'a>> for SpannedSource<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: parser::SpannedSource<'a>) -> Self { arbitrary() }
}
}
@fn From<&parser::Price>forPriceDct::from(value) : C15
r => ensures price_kept(*value, r)
@fn From<&parser::Balance>forBalance::from(value) : C15
r => ensures balance_kept(*value, r)
@fn From<&parser::Close>forClose::from(value) : C15
r => ensures close_kept(*value, r)
@fn From<&parser::Commodity>forCommodity::from(value) : C15
r => ensures commodity_kept(*value, r)
@fn From<&parser::Pad>forPad::from(value) : C15
r => ensures pad_kept(*value, r)
@fn From<&parser::Document>forDocument::from(value) : C15
r => ensures document_kept(*value, r)
@fn From<&parser::Note>forNote::from(value) : C15
r => ensures note_kept(*value, r)
@fn From<&parser::Event>forEvent::from(value) : C15
r => ensures event_kept(*value, r)
@fn From<&parser::Query>forQuery::from(value) : C15
r => ensures query_kept(*value, r)
@fn From<&parser::Plugin>forPlugin::from(value) : C15
r => ensures plugin_kept(*value, r)
@fn From<&parser::MetaValue>forMetaValue::from(value) : C15
r => ensures meta_kept(*value, r)
@fn From<&parser::CostSpec>forCostSpec::from(value) : C15
r => ensures cost_kept(*value, r)
@fn From<&parser::PriceSpec>forPriceSpec::from(value) : C15
r => ensures price_spec_kept(*value, r)
@fn From<&parser::Spanned<parser::Posting>>forPostingSpec::from(value) : C15 C17
r => ensures posting_kept(*value, r)
@fn From<&parser::Transaction>forTransaction::from(value) : C15 C17
r => ensures transaction_kept(*value, r)
@closure 0 : &parser::Spanned<parser::Posting<'a>> -> r: PostingSpec<'a>
ensures posting_kept(*arg0, r)
@fn From<&parser::Open>forOpen::from(value) : C15
r => ensures open_kept(*value, r)
@closure 0 : &parser::Spanned<parser::Currency<'a>> -> r: &'a str
ensures r@ == currency_text(item_of(*arg0))
@fn From<&parser::Custom>forCustom::from(value) : C15
r => ensures custom_kept(*value, r)
@closure 0 : &parser::Spanned<parser::MetaValue<'a>> -> r: MetaValue<'a>
ensures meta_kept(item_of(*arg0), r)
@fn From<&parser::DirectiveVariant>forDirectiveVariant::from(value) : C15 C17
r => ensures variant_kept(*value, r)
@fn From<&parser::Spanned<parser::Directive>>forDirective::from(value) : C15 C17
r => ensures directive_kept(*value, r)
@fn From<parser::Booking>forBooking::from(value) : C15 C12
r => ensures booking_kept(value, r)
@fn From<&parser::Booking>forBooking::from(value) : C15 C12
r => ensures booking_kept(*value, r)
@fn From<parser::PluginProcessingMode>forPluginProcessingMode::from(value) : C15
r => ensures mode_kept(value, r)
@fn From<&parser::PluginProcessingMode>forPluginProcessingMode::from(value) : C15
r => ensures mode_kept(*value, r)
@fn from_flag(flag) : C15
r => ensures flag_kept(flag, r@)
@fn from_tags(tags) : C15
r =>
requires
    plain(&tags),
ensures
    texts_kept(r, plainly(IteratorSpec::remaining(&tags)), tag_of()),
@closure 0 -> r: &'a str
ensures r@ == tag_text(item_of(*arg0))
@fn from_links(links) : C15
r =>
requires
    plain(&links),
ensures
    texts_kept(r, plainly(IteratorSpec::remaining(&links)), link_of()),
@closure 0 -> r: &'a str
ensures r@ == link_text(item_of(*arg0))
@fn from_key_values(key_values) : C15
r =>
requires
    plain(&key_values),
ensures
    metadata_kept(r, pairs(IteratorSpec::remaining(&key_values))),
@closure 0 -> r: (&'a str, MetaValue<'a>)
ensures r.0@ == key_text(item_of(*arg0.0)), meta_kept(item_of(*arg0.1), r.1)
@fn From<&parser::Spanned<T>>forSpan::from(value) : C15 C17
r => ensures span_kept(span_of(*value), r)
@fn From<&parser::Span>forSpan::from(value) : C15 C17 C18
r => ensures span_kept(*value, r)
@fn From<parser::Span>forSpan::from(value) : C15 C17 C18
r => ensures span_kept(value, r)
@fn From<&Span>forparser::Span::from(value) : C18
r => ensures span_kept(r, *value)
@fn From<Span>forparser::Span::from(value) : C18
r => ensures span_kept(r, value)
@fn From<parser::SpannedSource>forSpannedSource::from(value) : C18
r => ensures r.file_name == value.file_name, r.start_line == value.start_line, r.end_line == value.end_line, r.content == value.content
@append
verus! {
/// the tolerance of each currency, the last given
pub open spec fn tolerances<'a>(v: Seq<(Option<parser::Currency<'a>>, Decimal)>) -> Map<Seq<char>, Decimal>
    decreases v.len()
{
    if v.len() == 0 { Map::empty() } else {
        match v.last().0 {
            Some(c) => tolerances(v.drop_last()).insert(currency_text(c), v.last().1),
            None => tolerances(v.drop_last()),
        }
    }
}
/// and that of the others
pub open spec fn tolerance_otherwise<'a>(v: Seq<(Option<parser::Currency<'a>>, Decimal)>) -> Option<Decimal>
    decreases v.len()
{
    if v.len() == 0 { None } else {
        match v.last().0 {
            Some(c) => tolerance_otherwise(v.drop_last()),
            None => Some(v.last().1),
        }
    }
}
pub open spec fn path_of() -> spec_fn(PathBuf) -> Seq<char> { |x: PathBuf| path_text(x) }
pub open spec fn itself_of<'a>() -> spec_fn(parser::Currency<'a>) -> Seq<char> { |x: parser::Currency<'a>| currency_text(x) }
pub open spec fn owned_texts_kept<T>(r: Option<HashSet<String>>, v: Seq<T>, text_of: spec_fn(T) -> Seq<char>) -> bool {
    match r {
        Some(s) => v.len() > 0 && all_texts(s@, v, text_of),
        None => v.len() == 0,
    }
}
pub open spec fn options_kept<'a>(v: parser::Options<'a>, r: Options<'a>) -> bool {
    &&& r.name_assets@ == account_type_name_text(options_account_type_name(v, parser::AccountType::Assets))
    &&& r.name_liabilities@ == account_type_name_text(options_account_type_name(v, parser::AccountType::Liabilities))
    &&& r.name_equity@ == account_type_name_text(options_account_type_name(v, parser::AccountType::Equity))
    &&& r.name_income@ == account_type_name_text(options_account_type_name(v, parser::AccountType::Income))
    &&& r.name_expenses@ == account_type_name_text(options_account_type_name(v, parser::AccountType::Expenses))
    &&& same_text(r.title, options_title(v))
    &&& same_below(r.account_previous_balances, options_account_previous_balances(v))
    &&& same_below(r.account_previous_earnings, options_account_previous_earnings(v))
    &&& same_below(r.account_previous_conversions, options_account_previous_conversions(v))
    &&& same_below(r.account_current_earnings, options_account_current_earnings(v))
    &&& same_below(r.account_current_conversions, options_account_current_conversions(v))
    &&& same_below(r.account_unrealized_gains, options_account_unrealized_gains(v))
    &&& same_below(r.account_rounding, options_account_rounding(v))
    &&& same_currency(r.conversion_currency, options_conversion_currency(v))
    &&& match r.inferred_tolerance_default {
        Some(m) => m@ == tolerances(options_inferred_tolerance_defaults(v)) && exists|k: Seq<char>| #[trigger] m@.contains_key(k),
        None => tolerances(options_inferred_tolerance_defaults(v)) == Map::<Seq<char>, Decimal>::empty(),
    }
    &&& r.inferred_tolerance_default_fallback == tolerance_otherwise(options_inferred_tolerance_defaults(v))
    &&& r.inferred_tolerance_multiplier == options_inferred_tolerance_multiplier(v)
    &&& r.infer_tolerance_from_cost == options_infer_tolerance_from_cost(v)
    &&& owned_texts_kept(r.documents, options_documents(v), path_of())
    &&& texts_kept(r.operating_currency, options_operating_currency(v), itself_of())
    &&& r.render_commas == options_render_commas(v)
    &&& match (options_booking_method(v), r.booking_method) { (Some(b), Some(r)) => booking_kept(b, r), (None, None) => true, _ => false }
    &&& match (options_plugin_processing_mode(v), r.plugin_processing_mode) { (Some(b), Some(r)) => mode_kept(b, r), (None, None) => true, _ => false }
}
impl<'a, 'x> FromSpecImpl<&'x parser::Options<'a>> for Options<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'x parser::Options<'a>) -> Self { arbitrary() }
}
/// errors and warnings of the parser
pub open spec fn labels_kept(v: Seq<(Seq<char>, parser::Span)>, r: Option<Vec<(Cow<'_, str>, Span)>>) -> bool {
    match r {
        Some(q) => v.len() > 0 && q@.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> label_kept(v[i], #[trigger] q@[i]),
        None => v.len() == 0,
    }
}
pub open spec fn label_kept(v: (Seq<char>, parser::Span), r: (Cow<'_, str>, Span)) -> bool {
    r.0@ == v.0 && span_kept(v.1, r.1)
}
pub open spec fn error_kept<'a, K>(v: parser::ErrorOrWarning<K>, r: Report<'a>) -> bool {
    &&& r.message@ == eow_message(v)
    &&& r.reason@ == eow_reason(v)
    &&& span_kept(eow_span(v), r.span)
    &&& labels_kept(eow_contexts(v), r.contexts)
    &&& labels_kept(eow_related(v), r.related)
}
}
@fn From<&parser::Options>forOptions::from(value) : C15 C12
r => ensures options_kept(*value, r)
@loop 0
it => invariant
    it.seq() == options_inferred_tolerance_defaults(*value),
    inferred_tolerance_default@ == tolerances(it.seq().take(it.index@)),
    inferred_tolerance_default_fallback == tolerance_otherwise(it.seq().take(it.index@)),
@tail 0
assert(it.seq().take(it.index@ + 1).drop_last() =~= it.seq().take(it.index@));
@closure 0 : &PathBuf -> r: String
ensures r@ == path_text(*arg0)
@closure 1 : &parser::Currency<'a> -> r: &'a str
ensures r@ == currency_text(*arg0)
@fn from_error_or_warning(eow, annotation) : C14 C15 C18
r => ensures error_kept(*eow, r), r.annotation == annotation
@rewrite eow.span() => crate::pl::SpanExt::span_told(eow)
@closure 0 : (&'a str, parser::Span) -> r: (Cow<'a, str>, Span)
ensures r.0@ == arg0.0@, span_kept(arg0.1, r.1)
@closure 1 : (&'a str, parser::Span) -> r: (Cow<'a, str>, Span)
ensures r.0@ == arg0.0@, span_kept(arg0.1, r.1)
@fn create_reports_from_parser_errors(errors_or_warnings) : C14 C15 C18
r =>
ensures
    r@.len() == errors_or_warnings@.len(),
    forall|i: int| 0 <= i < r@.len() ==> error_kept(errors_or_warnings@[i], #[trigger] r@[i]) && r@[i].annotation is None,
@closure 0 : &'a parser::ErrorOrWarning<K> -> r: Report<'a>
ensures error_kept(*arg0, r), r.annotation is None
@file api/types/serializers.rs
@lift SerializeforSpan::serialize => span_out
@lift VisitorforSourceVisitor::visit_seq => span_in
@lift SerializeforElementIdx::serialize => idx_out
@lift Serializeforraw::MetaValue::serialize => value_out
@lift VisitorforMetaValueVisitor::visit_map => value_in
@lift VisitorforMetaValueVisitor::visit_unit => nothing_in
@derived SerializeforMetaKey => meta_key_out
@derived DeserializeforMetaKey => meta_key_in
@prepend
use crate::se::{Tree, tree, put, entries, elements, kept, reads, unescaped, rest, sound};
@struct MetaKey #[derive(Structural)]
@struct SourceVisitor
@struct MetaValueVisitor
@append
verus! {
broadcast use {crate::se::writing, crate::se::reading};
/// the name of a key on the wire
spec fn named(k: MetaKey) -> Seq<char> {
    match k {
        MetaKey::Account => "acc"@,
        MetaKey::Bool => "bool"@,
        MetaKey::Currency => "cur"@,
        MetaKey::Date => "date"@,
        MetaKey::Link => "link"@,
        MetaKey::Null => "null"@,
        MetaKey::Number => "number"@,
        MetaKey::String => "string"@,
        MetaKey::Tag => "tag"@,
        MetaKey::Units => "units"@,
    }
}
spec fn unnamed(s: Seq<char>) -> MetaKey { choose|k: MetaKey| named(k) == s }
/// what meta_key_out writes is what the encoder makes of it
broadcast axiom fn tree_key(k: &MetaKey) ensures #[trigger] tree::<MetaKey>(k) == key(*k);
broadcast axiom fn kept_key(k: MetaKey) ensures #[trigger] kept::<MetaKey>(key(k));
broadcast axiom fn reads_key(t: Tree, k: MetaKey) ensures #[trigger] reads::<MetaKey>(t, k) ==> t == key(k);
proof fn names_differ(a: MetaKey, b: MetaKey)
    requires named(a) == named(b),
    ensures a == b,
{
    reveal_strlit("acc"); reveal_strlit("bool"); reveal_strlit("cur"); reveal_strlit("date"); reveal_strlit("link");
    reveal_strlit("null"); reveal_strlit("number"); reveal_strlit("string"); reveal_strlit("tag"); reveal_strlit("units");
    assert("acc"@[0] == 'a' && "acc"@.len() == 3); assert("bool"@[0] == 'b' && "bool"@.len() == 4); assert("cur"@[0] == 'c' && "cur"@.len() == 3); assert("date"@[0] == 'd' && "date"@.len() == 4); assert("link"@[0] == 'l' && "link"@.len() == 4); assert("null"@[0] == 'n' && "null"@.len() == 4); assert("number"@[0] == 'n' && "number"@.len() == 6); assert("string"@[0] == 's' && "string"@.len() == 6); assert("tag"@[0] == 't' && "tag"@.len() == 3); assert("units"@[0] == 'u' && "units"@.len() == 5);
    assert(named(a)[0] == named(b)[0] && named(a).len() == named(b).len());
}
broadcast proof fn key_known(k: MetaKey)
    ensures unnamed(#[trigger] named(k)) == k
{
    names_differ(unnamed(named(k)), k);
}
broadcast group keys { tree_key, kept_key, reads_key, key_known }
spec fn key(k: MetaKey) -> Tree { Tree::Text(named(k)) }

/// how a location is written
spec fn located(s: raw::Span) -> Seq<Tree> {
    seq![Tree::Count(s.source as nat), Tree::Count(s.start as nat), Tree::Count(s.end as nat)]
}
/// how the place of an error is written
spec fn placed(e: ElementIdx) -> Seq<Tree> {
    match e.posting {
        Some(p) => seq![Tree::Count(e.directive as nat), Tree::Count(p as nat)],
        None => seq![Tree::Count(e.directive as nat)],
    }
}
/// the keys and values of a value of metadata, in whatever order
spec fn fields(t: Seq<Tree>, m: raw::MetaValue) -> bool {
    match m {
        raw::MetaValue::Amount(units, cur) => t =~= seq![key(MetaKey::Units), Tree::Number(units), key(MetaKey::Currency), Tree::Text(cur@)]
            || t =~= seq![key(MetaKey::Currency), Tree::Text(cur@), key(MetaKey::Units), Tree::Number(units)],
        raw::MetaValue::String(x) => t =~= seq![key(MetaKey::String), Tree::Text(x@)],
        raw::MetaValue::Currency(x) => t =~= seq![key(MetaKey::Currency), Tree::Text(x@)],
        raw::MetaValue::Account(x) => t =~= seq![key(MetaKey::Account), Tree::Text(x@)],
        raw::MetaValue::Tag(x) => t =~= seq![key(MetaKey::Tag), Tree::Text(x@)],
        raw::MetaValue::Link(x) => t =~= seq![key(MetaKey::Link), Tree::Text(x@)],
        raw::MetaValue::Date(x) => t =~= seq![key(MetaKey::Date), Tree::Text(crate::se::iso(x))],
        raw::MetaValue::Bool(x) => t =~= seq![key(MetaKey::Bool), Tree::Truth(x)],
        raw::MetaValue::Number(x) => t =~= seq![key(MetaKey::Number), Tree::Number(x)],
        raw::MetaValue::Null => false,
    }
}
/// a value of metadata on the wire
spec fn denotes(t: Tree, m: raw::MetaValue) -> bool {
    match t {
        Tree::Null => m is Null,
        Tree::Map(es) => fields(es, m),
        _ => false,
    }
}
/// names are without characters that need escaping
pub open spec fn plain_names(m: raw::MetaValue) -> bool {
    match m {
        raw::MetaValue::Amount(_, x) => unescaped(x@),
        raw::MetaValue::Currency(x) => unescaped(x@),
        raw::MetaValue::Account(x) => unescaped(x@),
        raw::MetaValue::Tag(x) => unescaped(x@),
        raw::MetaValue::Link(x) => unescaped(x@),
        _ => true,
    }
}
pub open spec fn same_value(a: raw::MetaValue, b: raw::MetaValue) -> bool {
    match (a, b) {
        (raw::MetaValue::Amount(m, x), raw::MetaValue::Amount(n, y)) => m == n && x@ == y@,
        (raw::MetaValue::String(x), raw::MetaValue::String(y)) => x@ == y@,
        (raw::MetaValue::Currency(x), raw::MetaValue::Currency(y)) => x@ == y@,
        (raw::MetaValue::Account(x), raw::MetaValue::Account(y)) => x@ == y@,
        (raw::MetaValue::Tag(x), raw::MetaValue::Tag(y)) => x@ == y@,
        (raw::MetaValue::Link(x), raw::MetaValue::Link(y)) => x@ == y@,
        (raw::MetaValue::Date(x), raw::MetaValue::Date(y)) => x == y,
        (raw::MetaValue::Bool(x), raw::MetaValue::Bool(y)) => x == y,
        (raw::MetaValue::Number(x), raw::MetaValue::Number(y)) => x == y,
        (raw::MetaValue::Null, raw::MetaValue::Null) => true,
        _ => false,
    }
}
/// the key a value other than an amount goes by
spec fn kind(m: raw::MetaValue) -> MetaKey {
    match m {
        raw::MetaValue::Amount(_, _) => MetaKey::Units,
        raw::MetaValue::String(_) => MetaKey::String,
        raw::MetaValue::Currency(_) => MetaKey::Currency,
        raw::MetaValue::Account(_) => MetaKey::Account,
        raw::MetaValue::Tag(_) => MetaKey::Tag,
        raw::MetaValue::Link(_) => MetaKey::Link,
        raw::MetaValue::Date(_) => MetaKey::Date,
        raw::MetaValue::Bool(_) => MetaKey::Bool,
        raw::MetaValue::Number(_) => MetaKey::Number,
        raw::MetaValue::Null => MetaKey::Units,
    }
}
/// what goes with that key
spec fn content(m: raw::MetaValue) -> Tree {
    match m {
        raw::MetaValue::Amount(n, _) => Tree::Number(n),
        raw::MetaValue::String(x) => Tree::Text(x@),
        raw::MetaValue::Currency(x) => Tree::Text(x@),
        raw::MetaValue::Account(x) => Tree::Text(x@),
        raw::MetaValue::Tag(x) => Tree::Text(x@),
        raw::MetaValue::Link(x) => Tree::Text(x@),
        raw::MetaValue::Date(x) => Tree::Text(crate::se::iso(x)),
        raw::MetaValue::Bool(x) => Tree::Truth(x),
        raw::MetaValue::Number(x) => Tree::Number(x),
        raw::MetaValue::Null => Tree::Null,
    }
}
proof fn keyed(es: Seq<Tree>, m: raw::MetaValue)
    requires fields(es, m), !(m is Amount),
    ensures es.len() == 2, es[0] == key(kind(m)), es[1] == content(m),
{
}
proof fn amount(es: Seq<Tree>, n: Decimal, c: Seq<char>)
    requires
        es =~= seq![key(MetaKey::Units), Tree::Number(n), key(MetaKey::Currency), Tree::Text(c)]
            || es =~= seq![key(MetaKey::Currency), Tree::Text(c), key(MetaKey::Units), Tree::Number(n)],
    ensures
        es.len() == 4,
        es[0] == key(MetaKey::Units) ==> es[1] == Tree::Number(n) && es[3] == Tree::Text(c),
        es[0] != key(MetaKey::Units) ==> es[3] == Tree::Number(n) && es[1] == Tree::Text(c),
{
    key_known(MetaKey::Units);
    key_known(MetaKey::Currency);
}
/// what value_out writes is what the encoder makes of it
axiom fn value_tree(v: &raw::MetaValue) ensures denotes(tree::<raw::MetaValue>(v), *v);
/// what value_in and nothing_in make of it is what the decoder makes of it
axiom fn value_read(t: Tree, m: raw::MetaValue, v: raw::MetaValue)
    requires denotes(t, m), plain_names(m), reads::<raw::MetaValue>(t, v),
    ensures same_value(m, v);
axiom fn value_kept(t: Tree, m: raw::MetaValue)
    requires denotes(t, m), plain_names(m),
    ensures kept::<raw::MetaValue>(t);
/// and the same for span_out and span_in
pub broadcast axiom fn span_tree(v: &raw::Span) ensures (#[trigger] tree::<raw::Span>(v)) is Tuple;
axiom fn span_written(v: &raw::Span) ensures tree::<raw::Span>(v) matches Tree::Tuple(es) && es =~= located(*v);
axiom fn span_read(s: raw::Span, v: raw::Span)
    requires reads::<raw::Span>(Tree::Tuple(located(s)), v),
    ensures v == s;
pub broadcast axiom fn span_unsaid() ensures #[trigger] crate::se::unsaid::<raw::Span>() is None;
axiom fn span_kept(s: raw::Span) ensures kept::<raw::Span>(Tree::Tuple(located(s)));
pub broadcast proof fn value_back(a: &raw::MetaValue, b: raw::MetaValue)
    ensures plain_names(*a) && #[trigger] reads::<raw::MetaValue>(tree(a), b) ==> same_value(*a, b)
{
    if plain_names(*a) && reads::<raw::MetaValue>(tree(a), b) {
        value_tree(a);
        value_read(tree(a), *a, b);
    }
}
pub broadcast proof fn value_taken(a: &raw::MetaValue)
    ensures plain_names(*a) ==> kept::<raw::MetaValue>(#[trigger] tree(a))
{
    if plain_names(*a) {
        value_tree(a);
        value_kept(tree(a), *a);
    }
}
pub broadcast proof fn span_back(a: &raw::Span, b: raw::Span)
    ensures #[trigger] reads::<raw::Span>(tree(a), b) ==> b == *a
{
    if reads::<raw::Span>(tree(a), b) {
        span_written(a);
        span_read(*a, b);
    }
}
pub broadcast proof fn span_taken(a: &raw::Span)
    ensures kept::<raw::Span>(#[trigger] tree(a))
{
    span_written(a);
    span_kept(*a);
}
pub broadcast group values { value_back, value_taken, span_tree, span_back, span_taken, span_unsaid }
/// no two values look the same on the wire
proof fn told_apart(t: Tree, a: raw::MetaValue, b: raw::MetaValue)
    requires denotes(t, a), denotes(t, b),
    ensures same_value(a, b),
{
    if let Tree::Map(es) = t {
        match (a, b) {
            (raw::MetaValue::Amount(m, x), raw::MetaValue::Amount(n, y)) => {
                amount(es, m, x@);
                amount(es, n, y@);
            }
            (raw::MetaValue::Amount(m, x), _) => {
                amount(es, m, x@);
                keyed(es, b);
            }
            (_, raw::MetaValue::Amount(n, y)) => {
                keyed(es, a);
                amount(es, n, y@);
            }
            _ => {
                keyed(es, a);
                keyed(es, b);
                key_known(kind(a));
                key_known(kind(b));
                assert(kind(a) == kind(b) && content(a) == content(b));
            }
        }
    }
}
}
@lemma told_apart : C16
@fn span_out(this, serializer) : C16
r => ensures r matches Ok(o) ==> (put(o) matches Tree::Tuple(es) && es =~= located(*this))
@fn span_in(this, seq) : C16
@call serde::de::Error::invalid_length => crate::se::refused()
r => ensures forall|s: Span| sound(&seq) && rest(&seq) == #[trigger] located(s) ==> r == Ok::<Span, A::Error>(s)
@fn idx_out(this, serializer) : C10 C16
r => ensures r matches Ok(o) ==> (put(o) matches Tree::Tuple(es) && es =~= placed(*this))
@fn meta_key_out(this, __serializer) : C15 C16
r => ensures r matches Ok(o) ==> put(o) == key(*this)
@fn meta_key_in(__data) : C16
r => ensures match r { Ok(v) => crate::se::variant_named(__data) == key(v), Err(_) => crate::se::sound_map(__data) ==> forall|v: MetaKey| crate::se::variant_named(__data) != #[trigger] key(v) }
@start
broadcast use meta_key_in_names;
reveal_strlit("acc"); reveal_strlit("bool"); reveal_strlit("cur"); reveal_strlit("date"); reveal_strlit("link"); reveal_strlit("null"); reveal_strlit("number"); reveal_strlit("string"); reveal_strlit("tag"); reveal_strlit("units");
assert("acc"@.len() == 3); assert("bool"@.len() == 4); assert("cur"@.len() == 3); assert("date"@.len() == 4); assert("link"@.len() == 4); assert("null"@.len() == 4); assert("number"@.len() == 6); assert("string"@.len() == 6); assert("tag"@.len() == 3); assert("units"@.len() == 5);
assert("acc"@[0] == 'a'); assert("bool"@[0] == 'b'); assert("cur"@[0] == 'c'); assert("date"@[0] == 'd'); assert("link"@[0] == 'l'); assert("null"@[0] == 'n'); assert("number"@[0] == 'n'); assert("string"@[0] == 's'); assert("tag"@[0] == 't');
@fn value_out(this, serializer) : C15 C16
r => ensures r matches Ok(o) ==> denotes(put(o), *this)
@start
broadcast use keys;
@fn value_in(this, map) : C16
@call serde::de::Error::custom => crate::se::refused()
r => requires rest(&map).len() % 2 == 0,
   ensures forall|m: raw::MetaValue| sound(&map) && #[trigger] fields(rest(&map), m) && plain_names(m) ==> r is Ok && same_value(r->Ok_0, m)
@start
broadcast use keys;
@fn nothing_in(this) : C16
r => ensures r matches Ok(v) && v is Null
