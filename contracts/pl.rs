//! Specifications of the parser (beancount-parser-lima) that the contracted code reads: its real types, of which the
//! accessors' contracts are assumed (it is a dependency, not part of this repository).
#![allow(unused_imports, dead_code, unused_variables)]
use crate::vspec::*;
use beancount_parser_lima as parser;
use rust_decimal::Decimal;
use std::borrow::Cow;
use std::path::PathBuf;
use time::Date;
use vstd::prelude::*;
use vstd::std_specs::convert::FromSpec;
use vstd::std_specs::iter::*;

verus! {
// ---- its types, those with public fields and those with accessors only
#[verifier::external_type_specification]
pub struct ExPBooking(parser::Booking);
#[verifier::external_type_specification]
pub struct ExPPluginProcessingMode(parser::PluginProcessingMode);
#[verifier::external_type_specification]
pub struct ExPAccountType(parser::AccountType);
#[verifier::external_type_specification]
pub struct ExPFlag(parser::Flag);
#[verifier::external_type_specification]
pub struct ExPSpan(parser::Span);
#[verifier::external_type_specification]
pub struct ExPScopedExprValue(parser::ScopedExprValue);
#[verifier::external_type_specification]
pub struct ExPDirectiveVariant<'a>(parser::DirectiveVariant<'a>);
#[verifier::external_type_specification]
pub struct ExPMetaValue<'a>(parser::MetaValue<'a>);
#[verifier::external_type_specification]
pub struct ExPSimpleValue<'a>(parser::SimpleValue<'a>);
#[verifier::external_type_specification]
pub struct ExPPriceSpec<'a>(parser::PriceSpec<'a>);
#[verifier::external_type_specification]
pub struct ExPSpannedSource<'a>(parser::SpannedSource<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPSourceId(parser::SourceId);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPExprValue(parser::ExprValue);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPFlagLetter(parser::FlagLetter);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPDirective<'a>(parser::Directive<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPTransaction<'a>(parser::Transaction<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPPrice<'a>(parser::Price<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPBalance<'a>(parser::Balance<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPOpen<'a>(parser::Open<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPClose<'a>(parser::Close<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPCommodity<'a>(parser::Commodity<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPPad<'a>(parser::Pad<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPDocument<'a>(parser::Document<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPNote<'a>(parser::Note<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPEvent<'a>(parser::Event<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPQuery<'a>(parser::Query<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPCustom<'a>(parser::Custom<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPPlugin<'a>(parser::Plugin<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPPosting<'a>(parser::Posting<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPMetadata<'a>(parser::Metadata<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPAmount<'a>(parser::Amount<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPAmountWithTolerance<'a>(parser::AmountWithTolerance<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPCostSpec<'a>(parser::CostSpec<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPAccount<'a>(parser::Account<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPSubaccount<'a>(parser::Subaccount<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPAccountTypeName<'a>(parser::AccountTypeName<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPCurrency<'a>(parser::Currency<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPTag<'a>(parser::Tag<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPLink<'a>(parser::Link<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPKey<'a>(parser::Key<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPOptions<'a>(parser::Options<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ExPSpanned<T>(parser::Spanned<T>);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(PathBuf);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPath(std::path::Path);

// ---- something with its location
pub uninterp spec fn item_of<T>(s: parser::Spanned<T>) -> T;
pub uninterp spec fn span_of<T>(s: parser::Spanned<T>) -> parser::Span;
pub assume_specification<T>[ parser::Spanned::<T>::item ](s: &parser::Spanned<T>) -> (r: &T)
    ensures *r == item_of(*s);
pub assume_specification<T>[ parser::Spanned::<T>::span ](s: &parser::Spanned<T>) -> (r: &parser::Span)
    ensures *r == span_of(*s);
pub assume_specification<T>[ <parser::Spanned<T> as std::ops::Deref>::deref ](s: &parser::Spanned<T>) -> (r: &<parser::Spanned<T> as std::ops::Deref>::Target)
    ensures *r == item_of(*s);
/// what the optional item is
pub open spec fn opt_item<T>(o: Option<&parser::Spanned<T>>) -> Option<T> {
    match o { Some(s) => Some(item_of(*s)), None => None }
}

/// what is referred to
pub open spec fn plainly<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub broadcast proof fn lemma_plainly<T>(s: Seq<&T>, i: int)
    requires 0 <= i < s.len()
    ensures (#[trigger] s[i]) == &(#[trigger] plainly(s))[i]
{}
pub broadcast proof fn lemma_plainly_len<T>(s: Seq<&T>)
    ensures (#[trigger] plainly(s)).len() == s.len()
{}
pub open spec fn pairs<K, V>(s: Seq<(&parser::Spanned<K>, &parser::Spanned<V>)>) -> Seq<(K, V)> {
    Seq::new(s.len(), |i: int| (item_of(*s[i].0), item_of(*s[i].1)))
}
pub broadcast proof fn lemma_pairs<K, V>(s: Seq<(&parser::Spanned<K>, &parser::Spanned<V>)>, i: int)
    requires 0 <= i < s.len()
    ensures (item_of(*(#[trigger] s[i]).0), item_of(*s[i].1)) == (#[trigger] pairs(s))[i]
{}
pub broadcast proof fn lemma_pairs_len<K, V>(s: Seq<(&parser::Spanned<K>, &parser::Spanned<V>)>)
    ensures (#[trigger] pairs(s)).len() == s.len()
{}
pub broadcast group plains { lemma_plainly, lemma_plainly_len, lemma_pairs, lemma_pairs_len }

// ---- its accessors
pub uninterp spec fn directive_date<'a>(v: parser::Directive<'a>) -> Date;
pub assume_specification<'a, 'x>[ parser::Directive::<'a>::date ](v: &'x parser::Directive<'a>) -> (r: &'x parser::Spanned<Date>)
    ensures item_of(*r) == directive_date(*v);
pub uninterp spec fn directive_metadata<'a>(v: parser::Directive<'a>) -> parser::Metadata<'a>;
pub assume_specification<'a, 'x>[ parser::Directive::<'a>::metadata ](v: &'x parser::Directive<'a>) -> (r: &'x parser::Metadata<'a>)
    ensures *r == directive_metadata(*v);
pub uninterp spec fn directive_variant<'a>(v: parser::Directive<'a>) -> parser::DirectiveVariant<'a>;
pub assume_specification<'a, 'x>[ parser::Directive::<'a>::variant ](v: &'x parser::Directive<'a>) -> (r: &'x parser::DirectiveVariant<'a>)
    ensures *r == directive_variant(*v);
pub uninterp spec fn transaction_flag<'a>(v: parser::Transaction<'a>) -> parser::Flag;
pub assume_specification<'a, 'x>[ parser::Transaction::<'a>::flag ](v: &'x parser::Transaction<'a>) -> (r: &'x parser::Spanned<parser::Flag>)
    ensures item_of(*r) == transaction_flag(*v);
pub uninterp spec fn transaction_payee<'a>(v: parser::Transaction<'a>) -> Option<&'a str>;
pub assume_specification<'a, 'x>[ parser::Transaction::<'a>::payee ](v: &'x parser::Transaction<'a>) -> (r: Option<&'x parser::Spanned<&'a str>>)
    ensures opt_item(r) == transaction_payee(*v);
pub uninterp spec fn transaction_narration<'a>(v: parser::Transaction<'a>) -> Option<&'a str>;
pub assume_specification<'a, 'x>[ parser::Transaction::<'a>::narration ](v: &'x parser::Transaction<'a>) -> (r: Option<&'x parser::Spanned<&'a str>>)
    ensures opt_item(r) == transaction_narration(*v);
pub uninterp spec fn transaction_postings<'a>(v: parser::Transaction<'a>) -> Seq<parser::Spanned<parser::Posting<'a>>>;
pub assume_specification<'a, 'x>[ parser::Transaction::<'a>::postings ](v: &'x parser::Transaction<'a>) -> (r: impl ExactSizeIterator<Item = &'x parser::Spanned<parser::Posting<'a>>>)
    ensures plain(&r), IteratorSpec::remaining(&r).len() == transaction_postings(*v).len(), forall|i: int| 0 <= i < transaction_postings(*v).len() ==> *(#[trigger] IteratorSpec::remaining(&r)[i]) == transaction_postings(*v)[i], plainly(IteratorSpec::remaining(&r)) == transaction_postings(*v);
pub uninterp spec fn price_currency<'a>(v: parser::Price<'a>) -> parser::Currency<'a>;
pub assume_specification<'a, 'x>[ parser::Price::<'a>::currency ](v: &'x parser::Price<'a>) -> (r: &'x parser::Spanned<parser::Currency<'a>>)
    ensures item_of(*r) == price_currency(*v);
pub uninterp spec fn price_amount<'a>(v: parser::Price<'a>) -> parser::Amount<'a>;
pub assume_specification<'a, 'x>[ parser::Price::<'a>::amount ](v: &'x parser::Price<'a>) -> (r: &'x parser::Spanned<parser::Amount<'a>>)
    ensures item_of(*r) == price_amount(*v);
pub uninterp spec fn balance_account<'a>(v: parser::Balance<'a>) -> parser::Account<'a>;
pub assume_specification<'a, 'x>[ parser::Balance::<'a>::account ](v: &'x parser::Balance<'a>) -> (r: &'x parser::Spanned<parser::Account<'a>>)
    ensures item_of(*r) == balance_account(*v);
pub uninterp spec fn balance_atol<'a>(v: parser::Balance<'a>) -> parser::AmountWithTolerance<'a>;
pub assume_specification<'a, 'x>[ parser::Balance::<'a>::atol ](v: &'x parser::Balance<'a>) -> (r: &'x parser::Spanned<parser::AmountWithTolerance<'a>>)
    ensures item_of(*r) == balance_atol(*v);
pub uninterp spec fn open_account<'a>(v: parser::Open<'a>) -> parser::Account<'a>;
pub assume_specification<'a, 'x>[ parser::Open::<'a>::account ](v: &'x parser::Open<'a>) -> (r: &'x parser::Spanned<parser::Account<'a>>)
    ensures item_of(*r) == open_account(*v);
pub uninterp spec fn open_currencies<'a>(v: parser::Open<'a>) -> Seq<parser::Spanned<parser::Currency<'a>>>;
pub assume_specification<'a, 'x>[ parser::Open::<'a>::currencies ](v: &'x parser::Open<'a>) -> (r: impl ExactSizeIterator<Item = &'x parser::Spanned<parser::Currency<'a>>>)
    ensures plain(&r), IteratorSpec::remaining(&r).len() == open_currencies(*v).len(), forall|i: int| 0 <= i < open_currencies(*v).len() ==> *(#[trigger] IteratorSpec::remaining(&r)[i]) == open_currencies(*v)[i], plainly(IteratorSpec::remaining(&r)) == open_currencies(*v);
pub uninterp spec fn open_booking<'a>(v: parser::Open<'a>) -> Option<parser::Booking>;
pub assume_specification<'a, 'x>[ parser::Open::<'a>::booking ](v: &'x parser::Open<'a>) -> (r: Option<&'x parser::Spanned<parser::Booking>>)
    ensures opt_item(r) == open_booking(*v);
pub uninterp spec fn close_account<'a>(v: parser::Close<'a>) -> parser::Account<'a>;
pub assume_specification<'a, 'x>[ parser::Close::<'a>::account ](v: &'x parser::Close<'a>) -> (r: &'x parser::Spanned<parser::Account<'a>>)
    ensures item_of(*r) == close_account(*v);
pub uninterp spec fn commodity_currency<'a>(v: parser::Commodity<'a>) -> parser::Currency<'a>;
pub assume_specification<'a, 'x>[ parser::Commodity::<'a>::currency ](v: &'x parser::Commodity<'a>) -> (r: &'x parser::Spanned<parser::Currency<'a>>)
    ensures item_of(*r) == commodity_currency(*v);
pub uninterp spec fn pad_account<'a>(v: parser::Pad<'a>) -> parser::Account<'a>;
pub assume_specification<'a, 'x>[ parser::Pad::<'a>::account ](v: &'x parser::Pad<'a>) -> (r: &'x parser::Spanned<parser::Account<'a>>)
    ensures item_of(*r) == pad_account(*v);
pub uninterp spec fn pad_source<'a>(v: parser::Pad<'a>) -> parser::Account<'a>;
pub assume_specification<'a, 'x>[ parser::Pad::<'a>::source ](v: &'x parser::Pad<'a>) -> (r: &'x parser::Spanned<parser::Account<'a>>)
    ensures item_of(*r) == pad_source(*v);
pub uninterp spec fn document_account<'a>(v: parser::Document<'a>) -> parser::Account<'a>;
pub assume_specification<'a, 'x>[ parser::Document::<'a>::account ](v: &'x parser::Document<'a>) -> (r: &'x parser::Spanned<parser::Account<'a>>)
    ensures item_of(*r) == document_account(*v);
pub uninterp spec fn document_path<'a>(v: parser::Document<'a>) -> &'a str;
pub assume_specification<'a, 'x>[ parser::Document::<'a>::path ](v: &'x parser::Document<'a>) -> (r: &'x parser::Spanned<&'a str>)
    ensures item_of(*r) == document_path(*v);
pub uninterp spec fn note_account<'a>(v: parser::Note<'a>) -> parser::Account<'a>;
pub assume_specification<'a, 'x>[ parser::Note::<'a>::account ](v: &'x parser::Note<'a>) -> (r: &'x parser::Spanned<parser::Account<'a>>)
    ensures item_of(*r) == note_account(*v);
pub uninterp spec fn note_comment<'a>(v: parser::Note<'a>) -> &'a str;
pub assume_specification<'a, 'x>[ parser::Note::<'a>::comment ](v: &'x parser::Note<'a>) -> (r: &'x parser::Spanned<&'a str>)
    ensures item_of(*r) == note_comment(*v);
pub uninterp spec fn event_event_type<'a>(v: parser::Event<'a>) -> &'a str;
pub assume_specification<'a, 'x>[ parser::Event::<'a>::event_type ](v: &'x parser::Event<'a>) -> (r: &'x parser::Spanned<&'a str>)
    ensures item_of(*r) == event_event_type(*v);
pub uninterp spec fn event_description<'a>(v: parser::Event<'a>) -> &'a str;
pub assume_specification<'a, 'x>[ parser::Event::<'a>::description ](v: &'x parser::Event<'a>) -> (r: &'x parser::Spanned<&'a str>)
    ensures item_of(*r) == event_description(*v);
pub uninterp spec fn query_name<'a>(v: parser::Query<'a>) -> &'a str;
pub assume_specification<'a, 'x>[ parser::Query::<'a>::name ](v: &'x parser::Query<'a>) -> (r: &'x parser::Spanned<&'a str>)
    ensures item_of(*r) == query_name(*v);
pub uninterp spec fn query_content<'a>(v: parser::Query<'a>) -> &'a str;
pub assume_specification<'a, 'x>[ parser::Query::<'a>::content ](v: &'x parser::Query<'a>) -> (r: &'x parser::Spanned<&'a str>)
    ensures item_of(*r) == query_content(*v);
pub uninterp spec fn custom_type<'a>(v: parser::Custom<'a>) -> &'a str;
pub assume_specification<'a, 'x>[ parser::Custom::<'a>::type_ ](v: &'x parser::Custom<'a>) -> (r: &'x parser::Spanned<&'a str>)
    ensures item_of(*r) == custom_type(*v);
pub uninterp spec fn custom_values<'a>(v: parser::Custom<'a>) -> Seq<parser::Spanned<parser::MetaValue<'a>>>;
pub assume_specification<'a, 'x>[ parser::Custom::<'a>::values ](v: &'x parser::Custom<'a>) -> (r: impl ExactSizeIterator<Item = &'x parser::Spanned<parser::MetaValue<'a>>>)
    ensures plain(&r), IteratorSpec::remaining(&r).len() == custom_values(*v).len(), forall|i: int| 0 <= i < custom_values(*v).len() ==> *(#[trigger] IteratorSpec::remaining(&r)[i]) == custom_values(*v)[i], plainly(IteratorSpec::remaining(&r)) == custom_values(*v);
pub uninterp spec fn plugin_module_name<'a>(v: parser::Plugin<'a>) -> &'a str;
pub assume_specification<'a, 'x>[ parser::Plugin::<'a>::module_name ](v: &'x parser::Plugin<'a>) -> (r: &'x parser::Spanned<&'a str>)
    ensures item_of(*r) == plugin_module_name(*v);
pub uninterp spec fn plugin_config<'a>(v: parser::Plugin<'a>) -> Option<&'a str>;
pub assume_specification<'a, 'x>[ parser::Plugin::<'a>::config ](v: &'x parser::Plugin<'a>) -> (r: Option<&'x parser::Spanned<&'a str>>)
    ensures opt_item(r) == plugin_config(*v);
pub uninterp spec fn posting_flag<'a>(v: parser::Posting<'a>) -> Option<parser::Flag>;
pub assume_specification<'a, 'x>[ parser::Posting::<'a>::flag ](v: &'x parser::Posting<'a>) -> (r: Option<&'x parser::Spanned<parser::Flag>>)
    ensures opt_item(r) == posting_flag(*v);
pub uninterp spec fn posting_account<'a>(v: parser::Posting<'a>) -> parser::Account<'a>;
pub assume_specification<'a, 'x>[ parser::Posting::<'a>::account ](v: &'x parser::Posting<'a>) -> (r: &'x parser::Spanned<parser::Account<'a>>)
    ensures item_of(*r) == posting_account(*v);
pub uninterp spec fn posting_amount<'a>(v: parser::Posting<'a>) -> Option<parser::ExprValue>;
pub assume_specification<'a, 'x>[ parser::Posting::<'a>::amount ](v: &'x parser::Posting<'a>) -> (r: Option<&'x parser::Spanned<parser::ExprValue>>)
    ensures opt_item(r) == posting_amount(*v);
pub uninterp spec fn posting_currency<'a>(v: parser::Posting<'a>) -> Option<parser::Currency<'a>>;
pub assume_specification<'a, 'x>[ parser::Posting::<'a>::currency ](v: &'x parser::Posting<'a>) -> (r: Option<&'x parser::Spanned<parser::Currency<'a>>>)
    ensures opt_item(r) == posting_currency(*v);
pub uninterp spec fn posting_cost_spec<'a>(v: parser::Posting<'a>) -> Option<parser::CostSpec<'a>>;
pub assume_specification<'a, 'x>[ parser::Posting::<'a>::cost_spec ](v: &'x parser::Posting<'a>) -> (r: Option<&'x parser::Spanned<parser::CostSpec<'a>>>)
    ensures opt_item(r) == posting_cost_spec(*v);
pub uninterp spec fn posting_price_annotation<'a>(v: parser::Posting<'a>) -> Option<parser::PriceSpec<'a>>;
pub assume_specification<'a, 'x>[ parser::Posting::<'a>::price_annotation ](v: &'x parser::Posting<'a>) -> (r: Option<&'x parser::Spanned<parser::PriceSpec<'a>>>)
    ensures opt_item(r) == posting_price_annotation(*v);
pub uninterp spec fn posting_metadata<'a>(v: parser::Posting<'a>) -> parser::Metadata<'a>;
pub assume_specification<'a, 'x>[ parser::Posting::<'a>::metadata ](v: &'x parser::Posting<'a>) -> (r: &'x parser::Metadata<'a>)
    ensures *r == posting_metadata(*v);
pub uninterp spec fn metadata_tags<'a>(v: parser::Metadata<'a>) -> Seq<parser::Spanned<parser::Tag<'a>>>;
pub assume_specification<'a, 'x>[ parser::Metadata::<'a>::tags ](v: &'x parser::Metadata<'a>) -> (r: impl ExactSizeIterator<Item = &'x parser::Spanned<parser::Tag<'a>>>)
    ensures plain(&r), IteratorSpec::remaining(&r).len() == metadata_tags(*v).len(), forall|i: int| 0 <= i < metadata_tags(*v).len() ==> *(#[trigger] IteratorSpec::remaining(&r)[i]) == metadata_tags(*v)[i], plainly(IteratorSpec::remaining(&r)) == metadata_tags(*v);
pub uninterp spec fn metadata_links<'a>(v: parser::Metadata<'a>) -> Seq<parser::Spanned<parser::Link<'a>>>;
pub assume_specification<'a, 'x>[ parser::Metadata::<'a>::links ](v: &'x parser::Metadata<'a>) -> (r: impl ExactSizeIterator<Item = &'x parser::Spanned<parser::Link<'a>>>)
    ensures plain(&r), IteratorSpec::remaining(&r).len() == metadata_links(*v).len(), forall|i: int| 0 <= i < metadata_links(*v).len() ==> *(#[trigger] IteratorSpec::remaining(&r)[i]) == metadata_links(*v)[i], plainly(IteratorSpec::remaining(&r)) == metadata_links(*v);
pub uninterp spec fn amount_number<'a>(v: parser::Amount<'a>) -> parser::ExprValue;
pub assume_specification<'a, 'x>[ parser::Amount::<'a>::number ](v: &'x parser::Amount<'a>) -> (r: &'x parser::Spanned<parser::ExprValue>)
    ensures item_of(*r) == amount_number(*v);
pub uninterp spec fn amount_currency<'a>(v: parser::Amount<'a>) -> parser::Currency<'a>;
pub assume_specification<'a, 'x>[ parser::Amount::<'a>::currency ](v: &'x parser::Amount<'a>) -> (r: &'x parser::Spanned<parser::Currency<'a>>)
    ensures item_of(*r) == amount_currency(*v);
pub uninterp spec fn amount_with_tolerance_amount<'a>(v: parser::AmountWithTolerance<'a>) -> parser::Amount<'a>;
pub assume_specification<'a, 'x>[ parser::AmountWithTolerance::<'a>::amount ](v: &'x parser::AmountWithTolerance<'a>) -> (r: &'x parser::Spanned<parser::Amount<'a>>)
    ensures item_of(*r) == amount_with_tolerance_amount(*v);
pub uninterp spec fn amount_with_tolerance_tolerance<'a>(v: parser::AmountWithTolerance<'a>) -> Option<Decimal>;
pub assume_specification<'a, 'x>[ parser::AmountWithTolerance::<'a>::tolerance ](v: &'x parser::AmountWithTolerance<'a>) -> (r: Option<&'x parser::Spanned<Decimal>>)
    ensures opt_item(r) == amount_with_tolerance_tolerance(*v);
pub uninterp spec fn cost_spec_per_unit<'a>(v: parser::CostSpec<'a>) -> Option<parser::ExprValue>;
pub assume_specification<'a, 'x>[ parser::CostSpec::<'a>::per_unit ](v: &'x parser::CostSpec<'a>) -> (r: Option<&'x parser::Spanned<parser::ExprValue>>)
    ensures opt_item(r) == cost_spec_per_unit(*v);
pub uninterp spec fn cost_spec_total<'a>(v: parser::CostSpec<'a>) -> Option<parser::ExprValue>;
pub assume_specification<'a, 'x>[ parser::CostSpec::<'a>::total ](v: &'x parser::CostSpec<'a>) -> (r: Option<&'x parser::Spanned<parser::ExprValue>>)
    ensures opt_item(r) == cost_spec_total(*v);
pub uninterp spec fn cost_spec_currency<'a>(v: parser::CostSpec<'a>) -> Option<parser::Currency<'a>>;
pub assume_specification<'a, 'x>[ parser::CostSpec::<'a>::currency ](v: &'x parser::CostSpec<'a>) -> (r: Option<&'x parser::Spanned<parser::Currency<'a>>>)
    ensures opt_item(r) == cost_spec_currency(*v);
pub uninterp spec fn cost_spec_date<'a>(v: parser::CostSpec<'a>) -> Option<Date>;
pub assume_specification<'a, 'x>[ parser::CostSpec::<'a>::date ](v: &'x parser::CostSpec<'a>) -> (r: Option<&'x parser::Spanned<Date>>)
    ensures opt_item(r) == cost_spec_date(*v);
pub uninterp spec fn cost_spec_label<'a>(v: parser::CostSpec<'a>) -> Option<&'a str>;
pub assume_specification<'a, 'x>[ parser::CostSpec::<'a>::label ](v: &'x parser::CostSpec<'a>) -> (r: Option<&'x parser::Spanned<&'a str>>)
    ensures opt_item(r) == cost_spec_label(*v);
pub uninterp spec fn options_title<'a>(v: parser::Options<'a>) -> Option<&'a str>;
pub assume_specification<'a, 'x>[ parser::Options::<'a>::title ](v: &'x parser::Options<'a>) -> (r: Option<&'x parser::Spanned<&'a str>>)
    ensures opt_item(r) == options_title(*v);
pub uninterp spec fn options_account_previous_balances<'a>(v: parser::Options<'a>) -> Option<parser::Subaccount<'a>>;
pub assume_specification<'a, 'x>[ parser::Options::<'a>::account_previous_balances ](v: &'x parser::Options<'a>) -> (r: Option<&'x parser::Spanned<parser::Subaccount<'a>>>)
    ensures opt_item(r) == options_account_previous_balances(*v);
pub uninterp spec fn options_account_previous_earnings<'a>(v: parser::Options<'a>) -> Option<parser::Subaccount<'a>>;
pub assume_specification<'a, 'x>[ parser::Options::<'a>::account_previous_earnings ](v: &'x parser::Options<'a>) -> (r: Option<&'x parser::Spanned<parser::Subaccount<'a>>>)
    ensures opt_item(r) == options_account_previous_earnings(*v);
pub uninterp spec fn options_account_previous_conversions<'a>(v: parser::Options<'a>) -> Option<parser::Subaccount<'a>>;
pub assume_specification<'a, 'x>[ parser::Options::<'a>::account_previous_conversions ](v: &'x parser::Options<'a>) -> (r: Option<&'x parser::Spanned<parser::Subaccount<'a>>>)
    ensures opt_item(r) == options_account_previous_conversions(*v);
pub uninterp spec fn options_account_current_earnings<'a>(v: parser::Options<'a>) -> Option<parser::Subaccount<'a>>;
pub assume_specification<'a, 'x>[ parser::Options::<'a>::account_current_earnings ](v: &'x parser::Options<'a>) -> (r: Option<&'x parser::Spanned<parser::Subaccount<'a>>>)
    ensures opt_item(r) == options_account_current_earnings(*v);
pub uninterp spec fn options_account_current_conversions<'a>(v: parser::Options<'a>) -> Option<parser::Subaccount<'a>>;
pub assume_specification<'a, 'x>[ parser::Options::<'a>::account_current_conversions ](v: &'x parser::Options<'a>) -> (r: Option<&'x parser::Spanned<parser::Subaccount<'a>>>)
    ensures opt_item(r) == options_account_current_conversions(*v);
pub uninterp spec fn options_account_unrealized_gains<'a>(v: parser::Options<'a>) -> Option<parser::Subaccount<'a>>;
pub assume_specification<'a, 'x>[ parser::Options::<'a>::account_unrealized_gains ](v: &'x parser::Options<'a>) -> (r: Option<&'x parser::Spanned<parser::Subaccount<'a>>>)
    ensures opt_item(r) == options_account_unrealized_gains(*v);
pub uninterp spec fn options_account_rounding<'a>(v: parser::Options<'a>) -> Option<parser::Subaccount<'a>>;
pub assume_specification<'a, 'x>[ parser::Options::<'a>::account_rounding ](v: &'x parser::Options<'a>) -> (r: Option<&'x parser::Spanned<parser::Subaccount<'a>>>)
    ensures opt_item(r) == options_account_rounding(*v);
pub uninterp spec fn options_conversion_currency<'a>(v: parser::Options<'a>) -> Option<parser::Currency<'a>>;
pub assume_specification<'a, 'x>[ parser::Options::<'a>::conversion_currency ](v: &'x parser::Options<'a>) -> (r: Option<&'x parser::Spanned<parser::Currency<'a>>>)
    ensures opt_item(r) == options_conversion_currency(*v);
pub uninterp spec fn options_inferred_tolerance_multiplier<'a>(v: parser::Options<'a>) -> Option<Decimal>;
pub assume_specification<'a, 'x>[ parser::Options::<'a>::inferred_tolerance_multiplier ](v: &'x parser::Options<'a>) -> (r: Option<&'x parser::Spanned<Decimal>>)
    ensures opt_item(r) == options_inferred_tolerance_multiplier(*v);
pub uninterp spec fn options_infer_tolerance_from_cost<'a>(v: parser::Options<'a>) -> Option<bool>;
pub assume_specification<'a, 'x>[ parser::Options::<'a>::infer_tolerance_from_cost ](v: &'x parser::Options<'a>) -> (r: Option<&'x parser::Spanned<bool>>)
    ensures opt_item(r) == options_infer_tolerance_from_cost(*v);
pub uninterp spec fn options_render_commas<'a>(v: parser::Options<'a>) -> Option<bool>;
pub assume_specification<'a, 'x>[ parser::Options::<'a>::render_commas ](v: &'x parser::Options<'a>) -> (r: Option<&'x parser::Spanned<bool>>)
    ensures opt_item(r) == options_render_commas(*v);
pub uninterp spec fn options_booking_method<'a>(v: parser::Options<'a>) -> Option<parser::Booking>;
pub assume_specification<'a, 'x>[ parser::Options::<'a>::booking_method ](v: &'x parser::Options<'a>) -> (r: Option<&'x parser::Spanned<parser::Booking>>)
    ensures opt_item(r) == options_booking_method(*v);
pub uninterp spec fn options_plugin_processing_mode<'a>(v: parser::Options<'a>) -> Option<parser::PluginProcessingMode>;
pub assume_specification<'a, 'x>[ parser::Options::<'a>::plugin_processing_mode ](v: &'x parser::Options<'a>) -> (r: Option<&'x parser::Spanned<parser::PluginProcessingMode>>)
    ensures opt_item(r) == options_plugin_processing_mode(*v);
pub uninterp spec fn expr_value(v: parser::ExprValue) -> Decimal;
pub assume_specification[ parser::ExprValue::value ](v: &parser::ExprValue) -> (r: Decimal)
    ensures r == expr_value(*v);
pub uninterp spec fn cost_spec_merge<'a>(v: parser::CostSpec<'a>) -> bool;
pub assume_specification<'a>[ parser::CostSpec::<'a>::merge ](v: &parser::CostSpec<'a>) -> (r: bool)
    ensures r == cost_spec_merge(*v);
pub uninterp spec fn metadata_key_values<'a>(v: parser::Metadata<'a>) -> Seq<(parser::Key<'a>, parser::MetaValue<'a>)>;
pub assume_specification<'a, 'x>[ parser::Metadata::<'a>::key_values ](v: &'x parser::Metadata<'a>) -> (r: impl ExactSizeIterator<Item = (&'x parser::Spanned<parser::Key<'a>>, &'x parser::Spanned<parser::MetaValue<'a>>)>)
    ensures plain(&r), IteratorSpec::remaining(&r).len() == metadata_key_values(*v).len(),
       pairs(IteratorSpec::remaining(&r)) == metadata_key_values(*v),
       forall|i: int| 0 <= i < metadata_key_values(*v).len() ==> item_of(*(#[trigger] IteratorSpec::remaining(&r)[i]).0) == metadata_key_values(*v)[i].0
          && item_of(*IteratorSpec::remaining(&r)[i].1) == metadata_key_values(*v)[i].1;
pub uninterp spec fn options_account_type_name<'a>(v: parser::Options<'a>, t: parser::AccountType) -> parser::AccountTypeName<'a>;
pub assume_specification<'a, 'x>[ parser::Options::<'a>::account_type_name ](v: &'x parser::Options<'a>, t: parser::AccountType) -> (r: &'x parser::AccountTypeName<'a>)
    ensures *r == options_account_type_name(*v, t);
pub uninterp spec fn options_inferred_tolerance_defaults<'a>(v: parser::Options<'a>) -> Seq<(Option<parser::Currency<'a>>, Decimal)>;
pub trait OptionsExt<'a> { fn tolerances_listed(&self) -> std::vec::IntoIter<(Option<parser::Currency<'a>>, Decimal)>; }
impl<'a> OptionsExt<'a> for parser::Options<'a> {
    #[verifier::external_body]
    fn tolerances_listed(&self) -> (r: std::vec::IntoIter<(Option<parser::Currency<'a>>, Decimal)>)
        ensures plain(&r), IteratorSpec::remaining(&r) == options_inferred_tolerance_defaults(*self)
    { unimplemented!() }
}
pub uninterp spec fn options_documents<'a>(v: parser::Options<'a>) -> Seq<PathBuf>;
pub assume_specification<'a, 'x>[ parser::Options::<'a>::documents ](v: &'x parser::Options<'a>) -> (r: impl Iterator<Item = &'x PathBuf>)
    ensures plain(&r), IteratorSpec::remaining(&r).len() == options_documents(*v).len(),
       forall|i: int| 0 <= i < options_documents(*v).len() ==> *(#[trigger] IteratorSpec::remaining(&r)[i]) == options_documents(*v)[i], plainly(IteratorSpec::remaining(&r)) == options_documents(*v);
pub uninterp spec fn options_operating_currency<'a>(v: parser::Options<'a>) -> Seq<parser::Currency<'a>>;
pub assume_specification<'a, 'x>[ parser::Options::<'a>::operating_currency ](v: &'x parser::Options<'a>) -> (r: impl Iterator<Item = &'x parser::Currency<'a>>)
    ensures plain(&r), IteratorSpec::remaining(&r).len() == options_operating_currency(*v).len(),
       forall|i: int| 0 <= i < options_operating_currency(*v).len() ==> *(#[trigger] IteratorSpec::remaining(&r)[i]) == options_operating_currency(*v)[i], plainly(IteratorSpec::remaining(&r)) == options_operating_currency(*v);

pub uninterp spec fn path_text(v: PathBuf) -> Seq<char>;
pub assume_specification<'x>[ <PathBuf as std::ops::Deref>::deref ](v: &'x PathBuf) -> (r: &'x std::path::Path)
    ensures of_path(r) == path_text(*v), r == crate::tb::as_path(*v);
pub uninterp spec fn of_path(v: &std::path::Path) -> Seq<char>;
pub assume_specification<'x>[ std::path::Path::to_string_lossy ](v: &'x std::path::Path) -> (r: Cow<'x, str>)
    ensures r@ == of_path(v);

// ---- its errors and warnings
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
pub struct ExPErrorOrWarning<K>(parser::ErrorOrWarning<K>);
#[verifier::external_trait_specification]
pub trait ExPErrorOrWarningKind { type ExternalTraitSpecificationFor: parser::ErrorOrWarningKind; }
pub uninterp spec fn eow_message<K>(e: parser::ErrorOrWarning<K>) -> Seq<char>;
pub uninterp spec fn eow_reason<K>(e: parser::ErrorOrWarning<K>) -> Seq<char>;
pub uninterp spec fn eow_span<K>(e: parser::ErrorOrWarning<K>) -> parser::Span;
pub uninterp spec fn eow_contexts<K>(e: parser::ErrorOrWarning<K>) -> Seq<(Seq<char>, parser::Span)>;
pub uninterp spec fn eow_related<K>(e: parser::ErrorOrWarning<K>) -> Seq<(Seq<char>, parser::Span)>;
pub open spec fn labelled(r: Seq<(&str, parser::Span)>, s: Seq<(Seq<char>, parser::Span)>) -> bool {
    r.len() == s.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0@ == s[i].0 && r[i].1 == s[i].1
}
pub trait EowExt<K> {
    fn message_told<'x>(&'x self) -> &'x str;
    fn reason_told<'x>(&'x self) -> &'x str;
    fn contexts_listed<'x>(&'x self) -> std::vec::IntoIter<(&'x str, parser::Span)>;
    fn related_listed<'x>(&'x self) -> std::vec::IntoIter<(&'x str, parser::Span)>;
}
/// span
pub trait SpanExt {
    type S;
    fn span_told(&self) -> Self::S;
}
impl<K> SpanExt for parser::ErrorOrWarning<K> {
    type S = parser::Span;
    #[verifier::external_body]
    fn span_told(&self) -> (r: parser::Span)
        ensures r == eow_span(*self)
    { unimplemented!() }
}
impl<K> EowExt<K> for parser::ErrorOrWarning<K> {
    #[verifier::external_body]
    fn message_told<'x>(&'x self) -> (r: &'x str)
        ensures r@ == eow_message(*self)
    { unimplemented!() }
    #[verifier::external_body]
    fn reason_told<'x>(&'x self) -> (r: &'x str)
        ensures r@ == eow_reason(*self)
    { unimplemented!() }
    #[verifier::external_body]
    fn contexts_listed<'x>(&'x self) -> (r: std::vec::IntoIter<(&'x str, parser::Span)>)
        ensures plain(&r), labelled(IteratorSpec::remaining(&r), eow_contexts(*self))
    { unimplemented!() }
    #[verifier::external_body]
    fn related_listed<'x>(&'x self) -> (r: std::vec::IntoIter<(&'x str, parser::Span)>)
        ensures plain(&r), labelled(IteratorSpec::remaining(&r), eow_related(*self))
    { unimplemented!() }
}

// ---- names as texts
pub uninterp spec fn account_text<'a>(v: parser::Account<'a>) -> Seq<char>;
pub broadcast axiom fn account_into_obeys<'a, 'x>()
    ensures #[trigger] <&'a str as FromSpec<&'x parser::Account<'a>>>::obeys_from_spec();
pub broadcast axiom fn account_into<'a, 'x>(v: &'x parser::Account<'a>)
    ensures (#[trigger] <&'a str as FromSpec<&'x parser::Account<'a>>>::from_spec(v))@ == account_text(*v);
pub uninterp spec fn currency_text<'a>(v: parser::Currency<'a>) -> Seq<char>;
pub broadcast axiom fn currency_into_obeys<'a, 'x>()
    ensures #[trigger] <&'a str as FromSpec<&'x parser::Currency<'a>>>::obeys_from_spec();
pub broadcast axiom fn currency_into<'a, 'x>(v: &'x parser::Currency<'a>)
    ensures (#[trigger] <&'a str as FromSpec<&'x parser::Currency<'a>>>::from_spec(v))@ == currency_text(*v);
pub uninterp spec fn subaccount_text<'a>(v: parser::Subaccount<'a>) -> Seq<char>;
pub broadcast axiom fn subaccount_into_obeys<'a, 'x>()
    ensures #[trigger] <&'a str as FromSpec<&'x parser::Subaccount<'a>>>::obeys_from_spec();
pub broadcast axiom fn subaccount_into<'a, 'x>(v: &'x parser::Subaccount<'a>)
    ensures (#[trigger] <&'a str as FromSpec<&'x parser::Subaccount<'a>>>::from_spec(v))@ == subaccount_text(*v);
pub uninterp spec fn account_type_name_text<'a>(v: parser::AccountTypeName<'a>) -> Seq<char>;
pub broadcast axiom fn account_type_name_into_obeys<'a, 'x>()
    ensures #[trigger] <&'a str as FromSpec<&'x parser::AccountTypeName<'a>>>::obeys_from_spec();
pub broadcast axiom fn account_type_name_into<'a, 'x>(v: &'x parser::AccountTypeName<'a>)
    ensures (#[trigger] <&'a str as FromSpec<&'x parser::AccountTypeName<'a>>>::from_spec(v))@ == account_type_name_text(*v);
pub uninterp spec fn tag_text<'a>(v: parser::Tag<'a>) -> Seq<char>;
pub broadcast axiom fn tag_into_obeys<'a, 'x>()
    ensures #[trigger] <&'a str as FromSpec<&'x parser::Tag<'a>>>::obeys_from_spec();
pub broadcast axiom fn tag_into<'a, 'x>(v: &'x parser::Tag<'a>)
    ensures (#[trigger] <&'a str as FromSpec<&'x parser::Tag<'a>>>::from_spec(v))@ == tag_text(*v);
pub uninterp spec fn link_text<'a>(v: parser::Link<'a>) -> Seq<char>;
pub broadcast axiom fn link_into_obeys<'a, 'x>()
    ensures #[trigger] <&'a str as FromSpec<&'x parser::Link<'a>>>::obeys_from_spec();
pub broadcast axiom fn link_into<'a, 'x>(v: &'x parser::Link<'a>)
    ensures (#[trigger] <&'a str as FromSpec<&'x parser::Link<'a>>>::from_spec(v))@ == link_text(*v);
pub uninterp spec fn key_text<'a>(v: parser::Key<'a>) -> Seq<char>;
pub broadcast axiom fn key_into_obeys<'a, 'x>()
    ensures #[trigger] <&'a str as FromSpec<&'x parser::Key<'a>>>::obeys_from_spec();
pub broadcast axiom fn key_into<'a, 'x>(v: &'x parser::Key<'a>)
    ensures (#[trigger] <&'a str as FromSpec<&'x parser::Key<'a>>>::from_spec(v))@ == key_text(*v);
pub broadcast axiom fn currency_itself_obeys<'a>()
    ensures #[trigger] <&'a str as FromSpec<parser::Currency<'a>>>::obeys_from_spec();
pub broadcast axiom fn currency_itself<'a>(v: parser::Currency<'a>)
    ensures (#[trigger] <&'a str as FromSpec<parser::Currency<'a>>>::from_spec(v))@ == currency_text(v);

// ---- booking methods
/// the method of that name
pub open spec fn method_named(b: parser::Booking) -> limabean_booking::Booking {
    match b {
        parser::Booking::Strict => limabean_booking::Booking::Strict,
        parser::Booking::StrictWithSize => limabean_booking::Booking::StrictWithSize,
        parser::Booking::None => limabean_booking::Booking::None,
        parser::Booking::Average => limabean_booking::Booking::Average,
        parser::Booking::Fifo => limabean_booking::Booking::Fifo,
        parser::Booking::Lifo => limabean_booking::Booking::Lifo,
        parser::Booking::Hifo => limabean_booking::Booking::Hifo,
    }
}
pub broadcast axiom fn method_named_obeys()
    ensures #[trigger] <limabean_booking::Booking as FromSpec<parser::Booking>>::obeys_from_spec();
pub broadcast axiom fn method_named_from(b: parser::Booking)
    ensures #[trigger] <limabean_booking::Booking as FromSpec<parser::Booking>>::from_spec(b) == method_named(b);
pub broadcast group parsed { method_named_obeys, method_named_from }
pub uninterp spec fn flag_text(v: parser::Flag) -> Seq<char>;
pub broadcast axiom fn flag_displayed(v: parser::Flag, r: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures::<parser::Flag>(&v, r) ==> r@ == flag_text(v);
pub broadcast group flags { flag_displayed }
pub broadcast group names { account_into_obeys, account_into, currency_into_obeys, currency_into, subaccount_into_obeys, subaccount_into, account_type_name_into_obeys, account_type_name_into, tag_into_obeys, tag_into, link_into_obeys, link_into, key_into_obeys, key_into, currency_itself_obeys, currency_itself }
}
