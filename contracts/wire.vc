@file api/types/raw.rs
@derived SerializeforDirective => directive_out
@derived SerializeforDirectiveVariant => directive_variant_out
@derived SerializeforTransaction => transaction_out
@derived SerializeforPriceDct => price_dct_out
@derived SerializeforBalance => balance_out
@derived SerializeforOpen => open_out
@derived SerializeforClose => close_out
@derived SerializeforCommodity => commodity_out
@derived SerializeforPad => pad_out
@derived SerializeforDocument => document_out
@derived SerializeforNote => note_out
@derived SerializeforEvent => event_out
@derived SerializeforQuery => query_out
@derived SerializeforCustom => custom_out
@derived SerializeforPostingSpec => posting_spec_out
@derived SerializeforCostSpec => cost_spec_out
@derived SerializeforPriceSpec => price_spec_out
@derived SerializeforPrice => price_out
@derived SerializeforOptions => options_out
@derived SerializeforBooking => booking_out
@derived SerializeforPluginProcessingMode => plugin_processing_mode_out
@derived SerializeforSpannedSource => spanned_source_out
@derived DeserializeforPrice => price_in
@derived DeserializeforPriceDct => price_dct_in
@derived DeserializeforBalance => balance_in
@derived DeserializeforOpen => open_in
@derived DeserializeforClose => close_in
@derived DeserializeforCommodity => commodity_in
@derived DeserializeforPad => pad_in
@derived DeserializeforDocument => document_in
@derived DeserializeforNote => note_in
@derived DeserializeforEvent => event_in
@derived DeserializeforQuery => query_in
@derived DeserializeforCustom => custom_in
@derived DeserializeforCostSpec => cost_spec_in
@derived DeserializeforPriceSpec => price_spec_in
@derived DeserializeforPostingSpec => posting_spec_in
@derived DeserializeforTransaction => transaction_in
@derived DeserializeforDirectiveVariant => directive_variant_in
@derived DeserializeforDirective => directive_in
@derived DeserializeforBooking => booking_in
@append
use crate::se::*;
use super::serializers::{self, same_value, plain_names};
verus! {
spec fn same_metadata<'a>(a: HashMap<&'a str, MetaValue<'a>>, b: HashMap<&'a str, MetaValue<'a>>) -> bool {
    a@.dom() == b@.dom() && (forall|k: Seq<char>| #[trigger] a@.contains_key(k) ==> same_value(a@[k], b@[k]))
}
spec fn plain_metadata<'a>(a: HashMap<&'a str, MetaValue<'a>>) -> bool {
    forall|k: Seq<char>| #[trigger] a@.contains_key(k) ==> unescaped(k) && plain_names(a@[k])
}
spec fn directive_keyed<'a>(v: Directive<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = with(m, "span", v.span);
    let m = m.insert("date"@, Tree::Text(iso(v.date)));
    let m = with(m, "tags", v.tags);
    let m = with(m, "links", v.links);
    let m = with(m, "metadata", v.metadata);
    let m = m.union_prefer_right(keyed(tree(&v.variant)));
    m
}
spec fn directive_variant_keyed<'a>(v: DirectiveVariant<'a>) -> Map<Seq<char>, Tree> {
    match v {
        DirectiveVariant::Transaction(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("txn"@)),
        DirectiveVariant::Price(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("price"@)),
        DirectiveVariant::Balance(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("balance"@)),
        DirectiveVariant::Open(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("open"@)),
        DirectiveVariant::Close(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("close"@)),
        DirectiveVariant::Commodity(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("commodity"@)),
        DirectiveVariant::Pad(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("pad"@)),
        DirectiveVariant::Document(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("document"@)),
        DirectiveVariant::Note(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("note"@)),
        DirectiveVariant::Event(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("event"@)),
        DirectiveVariant::Query(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("query"@)),
        DirectiveVariant::Custom(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("custom"@)),
    }
}
spec fn transaction_keyed<'a>(v: Transaction<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("flag"@, tree(&v.flag));
    let m = with(m, "payee", v.payee);
    let m = with(m, "narration", v.narration);
    let m = m.insert("postings"@, tree(&v.postings));
    m
}
spec fn price_dct_keyed<'a>(v: PriceDct<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("cur"@, tree(&v.cur));
    let m = m.insert("price"@, tree(&v.price));
    m
}
spec fn balance_keyed<'a>(v: Balance<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("acc"@, tree(&v.acc));
    let m = m.insert("units"@, tree(&v.units));
    let m = m.insert("cur"@, tree(&v.cur));
    let m = with(m, "tolerance", v.tolerance);
    m
}
spec fn open_keyed<'a>(v: Open<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("acc"@, tree(&v.acc));
    let m = with(m, "currencies", v.currencies);
    let m = with(m, "booking", v.booking);
    m
}
spec fn close_keyed<'a>(v: Close<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("acc"@, tree(&v.acc));
    m
}
spec fn commodity_keyed<'a>(v: Commodity<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("cur"@, tree(&v.cur));
    m
}
spec fn pad_keyed<'a>(v: Pad<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("acc"@, tree(&v.acc));
    let m = m.insert("source"@, tree(&v.source));
    m
}
spec fn document_keyed<'a>(v: Document<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("acc"@, tree(&v.acc));
    let m = m.insert("path"@, tree(&v.path));
    m
}
spec fn note_keyed<'a>(v: Note<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("acc"@, tree(&v.acc));
    let m = m.insert("comment"@, tree(&v.comment));
    m
}
spec fn event_keyed<'a>(v: Event<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("type"@, tree(&v.type_));
    let m = m.insert("description"@, tree(&v.description));
    m
}
spec fn query_keyed<'a>(v: Query<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("name"@, tree(&v.name));
    let m = m.insert("content"@, tree(&v.content));
    m
}
spec fn custom_keyed<'a>(v: Custom<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("type"@, tree(&v.type_));
    let m = m.insert("values"@, tree(&v.values));
    m
}
spec fn posting_spec_keyed<'a>(v: PostingSpec<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = with(m, "span", v.span);
    let m = with(m, "flag", v.flag);
    let m = m.insert("acc"@, tree(&v.acc));
    let m = with(m, "units", v.units);
    let m = with(m, "cur", v.cur);
    let m = with(m, "cost-spec", v.cost_spec);
    let m = with(m, "price-spec", v.price_spec);
    let m = with(m, "tags", v.tags);
    let m = with(m, "links", v.links);
    let m = with(m, "metadata", v.metadata);
    m
}
spec fn cost_spec_keyed<'a>(v: CostSpec<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = with(m, "per-unit", v.per_unit);
    let m = with(m, "total", v.total);
    let m = with(m, "cur", v.cur);
    let m = unless(m, v.date is None, "date"@, match v.date { Some(d) => Tree::Text(iso(d)), None => Tree::Null });
    let m = with(m, "label", v.label);
    let m = unless(m, !v.merge, "merge"@, Tree::Truth(v.merge));
    m
}
spec fn price_spec_keyed<'a>(v: PriceSpec<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = with(m, "per-unit", v.per_unit);
    let m = with(m, "total", v.total);
    let m = with(m, "cur", v.cur);
    m
}
spec fn price_keyed<'a>(v: Price<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("per-unit"@, tree(&v.per_unit));
    let m = with(m, "total", v.total);
    let m = m.insert("cur"@, tree(&v.cur));
    m
}
spec fn options_keyed<'a>(v: Options<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("name-assets"@, tree(&v.name_assets));
    let m = m.insert("name-liabilities"@, tree(&v.name_liabilities));
    let m = m.insert("name-equity"@, tree(&v.name_equity));
    let m = m.insert("name-income"@, tree(&v.name_income));
    let m = m.insert("name-expenses"@, tree(&v.name_expenses));
    let m = with(m, "title", v.title);
    let m = with(m, "account-previous-balances", v.account_previous_balances);
    let m = with(m, "account-previous-earnings", v.account_previous_earnings);
    let m = with(m, "account-previous-conversions", v.account_previous_conversions);
    let m = with(m, "account-current-earnings", v.account_current_earnings);
    let m = with(m, "account-current-conversions", v.account_current_conversions);
    let m = with(m, "account-unrealized-gains", v.account_unrealized_gains);
    let m = with(m, "account-rounding", v.account_rounding);
    let m = with(m, "conversion-currency", v.conversion_currency);
    let m = with(m, "inferred-tolerance-default", v.inferred_tolerance_default);
    let m = with(m, "inferred-tolerance-default-fallback", v.inferred_tolerance_default_fallback);
    let m = with(m, "inferred-tolerance-multiplier", v.inferred_tolerance_multiplier);
    let m = with(m, "infer-tolerance-from-cost", v.infer_tolerance_from_cost);
    let m = with(m, "documents", v.documents);
    let m = with(m, "operating-currency", v.operating_currency);
    let m = with(m, "render-commas", v.render_commas);
    let m = with(m, "booking-method", v.booking_method);
    let m = with(m, "plugin-processing-mode", v.plugin_processing_mode);
    m
}
spec fn booking_written(v: Booking) -> Tree {
    match v {
        Booking::Strict => Tree::Text("strict"@),
        Booking::StrictWithSize => Tree::Text("strict-with-size"@),
        Booking::None => Tree::Text("none"@),
        Booking::Average => Tree::Text("average"@),
        Booking::Fifo => Tree::Text("fifo"@),
        Booking::Lifo => Tree::Text("lifo"@),
        Booking::Hifo => Tree::Text("hifo"@),
    }
}
spec fn plugin_processing_mode_written(v: PluginProcessingMode) -> Tree {
    match v {
        PluginProcessingMode::Default => Tree::Text("default"@),
        PluginProcessingMode::Raw => Tree::Text("raw"@),
    }
}
spec fn spanned_source_keyed<'a>(v: SpannedSource<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = with(m, "file-name", v.file_name);
    let m = m.insert("start-line"@, tree(&v.start_line));
    let m = m.insert("end-line"@, tree(&v.end_line));
    let m = m.insert("content"@, tree(&v.content));
    m
}
spec fn price_read<'a>(m: Map<Seq<char>, Tree>, v: Price<'a>) -> bool {
    &&& had(m, "per-unit", v.per_unit)
    &&& had_or(m, "total", v.total, None)
    &&& had(m, "cur", v.cur)
}
spec fn price_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& m.contains_key("per-unit"@) && takes::<Decimal>(m, "per-unit")
    &&& takes::<Option<Decimal>>(m, "total")
    &&& m.contains_key("cur"@) && takes::<&'a str>(m, "cur")
}
spec fn same_price<'a>(a: Price<'a>, b: Price<'a>) -> bool {
    &&& a.per_unit == b.per_unit
    &&& (match (a.total, b.total) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false })
    &&& a.cur@ == b.cur@
}
spec fn plain_price<'a>(a: Price<'a>) -> bool {
    &&& true
    &&& true
    &&& unescaped(a.cur@)
}
broadcast axiom fn price_tree<'a>(v: &Price<'a>) ensures (#[trigger] tree::<Price<'a>>(v)) is Map, keyed(tree::<Price<'a>>(v)) == price_keyed(*v);
broadcast axiom fn price_read_as<'a>(t: Tree, v: Price<'a>) ensures #[trigger] reads::<Price<'a>>(t, v) ==> (t is Map ==> price_read(keyed(t), v));
broadcast axiom fn price_kept_as<'a>(v: &Price<'a>) ensures price_kept(price_keyed(*v)) ==> kept::<Price<'a>>(#[trigger] tree::<Price<'a>>(v));
broadcast axiom fn price_read_in<'a>(m: Map<Seq<char>, Tree>, v: Price<'a>) ensures #[trigger] reads_in::<Price<'a>>(m, v) ==> price_read(m, v);
broadcast axiom fn price_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures price_kept(m) ==> #[trigger] kept_in::<Price<'a>>(m);
broadcast axiom fn price_unsaid<'a>() ensures #[trigger] unsaid::<Price<'a>>() is None;
broadcast group price_linked { price_tree, price_kept_as, price_read_as, price_read_in, price_kept_in }
spec fn price_dct_read<'a>(m: Map<Seq<char>, Tree>, v: PriceDct<'a>) -> bool {
    &&& had(m, "cur", v.cur)
    &&& had(m, "price", v.price)
}
spec fn price_dct_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& m.contains_key("cur"@) && takes::<&'a str>(m, "cur")
    &&& m.contains_key("price"@) && takes::<Price<'a>>(m, "price")
}
spec fn same_price_dct<'a>(a: PriceDct<'a>, b: PriceDct<'a>) -> bool {
    &&& a.cur@ == b.cur@
    &&& same_price(a.price, b.price)
}
spec fn plain_price_dct<'a>(a: PriceDct<'a>) -> bool {
    &&& unescaped(a.cur@)
    &&& plain_price(a.price)
}
broadcast axiom fn price_dct_tree<'a>(v: &PriceDct<'a>) ensures (#[trigger] tree::<PriceDct<'a>>(v)) is Map, keyed(tree::<PriceDct<'a>>(v)) == price_dct_keyed(*v);
broadcast axiom fn price_dct_read_as<'a>(t: Tree, v: PriceDct<'a>) ensures #[trigger] reads::<PriceDct<'a>>(t, v) ==> (t is Map ==> price_dct_read(keyed(t), v));
broadcast axiom fn price_dct_kept_as<'a>(v: &PriceDct<'a>) ensures price_dct_kept(price_dct_keyed(*v)) ==> kept::<PriceDct<'a>>(#[trigger] tree::<PriceDct<'a>>(v));
broadcast axiom fn price_dct_read_in<'a>(m: Map<Seq<char>, Tree>, v: PriceDct<'a>) ensures #[trigger] reads_in::<PriceDct<'a>>(m, v) ==> price_dct_read(m, v);
broadcast axiom fn price_dct_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures price_dct_kept(m) ==> #[trigger] kept_in::<PriceDct<'a>>(m);
broadcast axiom fn price_dct_unsaid<'a>() ensures #[trigger] unsaid::<PriceDct<'a>>() is None;
broadcast group price_dct_linked { price_dct_tree, price_dct_kept_as, price_dct_read_as, price_dct_read_in, price_dct_kept_in }
spec fn balance_read<'a>(m: Map<Seq<char>, Tree>, v: Balance<'a>) -> bool {
    &&& had(m, "acc", v.acc)
    &&& had(m, "units", v.units)
    &&& had(m, "cur", v.cur)
    &&& had_or(m, "tolerance", v.tolerance, None)
}
spec fn balance_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& m.contains_key("acc"@) && takes::<&'a str>(m, "acc")
    &&& m.contains_key("units"@) && takes::<Decimal>(m, "units")
    &&& m.contains_key("cur"@) && takes::<&'a str>(m, "cur")
    &&& takes::<Option<Decimal>>(m, "tolerance")
}
spec fn same_balance<'a>(a: Balance<'a>, b: Balance<'a>) -> bool {
    &&& a.acc@ == b.acc@
    &&& a.units == b.units
    &&& a.cur@ == b.cur@
    &&& (match (a.tolerance, b.tolerance) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false })
}
spec fn plain_balance<'a>(a: Balance<'a>) -> bool {
    &&& unescaped(a.acc@)
    &&& true
    &&& unescaped(a.cur@)
    &&& true
}
broadcast axiom fn balance_tree<'a>(v: &Balance<'a>) ensures (#[trigger] tree::<Balance<'a>>(v)) is Map, keyed(tree::<Balance<'a>>(v)) == balance_keyed(*v);
broadcast axiom fn balance_read_as<'a>(t: Tree, v: Balance<'a>) ensures #[trigger] reads::<Balance<'a>>(t, v) ==> (t is Map ==> balance_read(keyed(t), v));
broadcast axiom fn balance_kept_as<'a>(v: &Balance<'a>) ensures balance_kept(balance_keyed(*v)) ==> kept::<Balance<'a>>(#[trigger] tree::<Balance<'a>>(v));
broadcast axiom fn balance_read_in<'a>(m: Map<Seq<char>, Tree>, v: Balance<'a>) ensures #[trigger] reads_in::<Balance<'a>>(m, v) ==> balance_read(m, v);
broadcast axiom fn balance_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures balance_kept(m) ==> #[trigger] kept_in::<Balance<'a>>(m);
broadcast axiom fn balance_unsaid<'a>() ensures #[trigger] unsaid::<Balance<'a>>() is None;
broadcast group balance_linked { balance_tree, balance_kept_as, balance_read_as, balance_read_in, balance_kept_in }
spec fn open_read<'a>(m: Map<Seq<char>, Tree>, v: Open<'a>) -> bool {
    &&& had(m, "acc", v.acc)
    &&& had_or(m, "currencies", v.currencies, None)
    &&& had_or(m, "booking", v.booking, None)
}
spec fn open_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& m.contains_key("acc"@) && takes::<&'a str>(m, "acc")
    &&& takes::<Option<HashSet<&'a str>>>(m, "currencies")
    &&& takes::<Option<Booking>>(m, "booking")
}
spec fn same_open<'a>(a: Open<'a>, b: Open<'a>) -> bool {
    &&& a.acc@ == b.acc@
    &&& (match (a.currencies, b.currencies) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false })
    &&& (match (a.booking, b.booking) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false })
}
spec fn plain_open<'a>(a: Open<'a>) -> bool {
    &&& unescaped(a.acc@)
    &&& (match a.currencies { Some(x) => (forall|s: Seq<char>| #[trigger] x@.contains(s) ==> unescaped(s)), None => true })
    &&& true
}
broadcast axiom fn open_tree<'a>(v: &Open<'a>) ensures (#[trigger] tree::<Open<'a>>(v)) is Map, keyed(tree::<Open<'a>>(v)) == open_keyed(*v);
broadcast axiom fn open_read_as<'a>(t: Tree, v: Open<'a>) ensures #[trigger] reads::<Open<'a>>(t, v) ==> (t is Map ==> open_read(keyed(t), v));
broadcast axiom fn open_kept_as<'a>(v: &Open<'a>) ensures open_kept(open_keyed(*v)) ==> kept::<Open<'a>>(#[trigger] tree::<Open<'a>>(v));
broadcast axiom fn open_read_in<'a>(m: Map<Seq<char>, Tree>, v: Open<'a>) ensures #[trigger] reads_in::<Open<'a>>(m, v) ==> open_read(m, v);
broadcast axiom fn open_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures open_kept(m) ==> #[trigger] kept_in::<Open<'a>>(m);
broadcast axiom fn open_unsaid<'a>() ensures #[trigger] unsaid::<Open<'a>>() is None;
broadcast group open_linked { open_tree, open_kept_as, open_read_as, open_read_in, open_kept_in }
spec fn close_read<'a>(m: Map<Seq<char>, Tree>, v: Close<'a>) -> bool {
    &&& had(m, "acc", v.acc)
}
spec fn close_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& m.contains_key("acc"@) && takes::<&'a str>(m, "acc")
}
spec fn same_close<'a>(a: Close<'a>, b: Close<'a>) -> bool {
    &&& a.acc@ == b.acc@
}
spec fn plain_close<'a>(a: Close<'a>) -> bool {
    &&& unescaped(a.acc@)
}
broadcast axiom fn close_tree<'a>(v: &Close<'a>) ensures (#[trigger] tree::<Close<'a>>(v)) is Map, keyed(tree::<Close<'a>>(v)) == close_keyed(*v);
broadcast axiom fn close_read_as<'a>(t: Tree, v: Close<'a>) ensures #[trigger] reads::<Close<'a>>(t, v) ==> (t is Map ==> close_read(keyed(t), v));
broadcast axiom fn close_kept_as<'a>(v: &Close<'a>) ensures close_kept(close_keyed(*v)) ==> kept::<Close<'a>>(#[trigger] tree::<Close<'a>>(v));
broadcast axiom fn close_read_in<'a>(m: Map<Seq<char>, Tree>, v: Close<'a>) ensures #[trigger] reads_in::<Close<'a>>(m, v) ==> close_read(m, v);
broadcast axiom fn close_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures close_kept(m) ==> #[trigger] kept_in::<Close<'a>>(m);
broadcast axiom fn close_unsaid<'a>() ensures #[trigger] unsaid::<Close<'a>>() is None;
broadcast group close_linked { close_tree, close_kept_as, close_read_as, close_read_in, close_kept_in }
spec fn commodity_read<'a>(m: Map<Seq<char>, Tree>, v: Commodity<'a>) -> bool {
    &&& had(m, "cur", v.cur)
}
spec fn commodity_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& m.contains_key("cur"@) && takes::<&'a str>(m, "cur")
}
spec fn same_commodity<'a>(a: Commodity<'a>, b: Commodity<'a>) -> bool {
    &&& a.cur@ == b.cur@
}
spec fn plain_commodity<'a>(a: Commodity<'a>) -> bool {
    &&& unescaped(a.cur@)
}
broadcast axiom fn commodity_tree<'a>(v: &Commodity<'a>) ensures (#[trigger] tree::<Commodity<'a>>(v)) is Map, keyed(tree::<Commodity<'a>>(v)) == commodity_keyed(*v);
broadcast axiom fn commodity_read_as<'a>(t: Tree, v: Commodity<'a>) ensures #[trigger] reads::<Commodity<'a>>(t, v) ==> (t is Map ==> commodity_read(keyed(t), v));
broadcast axiom fn commodity_kept_as<'a>(v: &Commodity<'a>) ensures commodity_kept(commodity_keyed(*v)) ==> kept::<Commodity<'a>>(#[trigger] tree::<Commodity<'a>>(v));
broadcast axiom fn commodity_read_in<'a>(m: Map<Seq<char>, Tree>, v: Commodity<'a>) ensures #[trigger] reads_in::<Commodity<'a>>(m, v) ==> commodity_read(m, v);
broadcast axiom fn commodity_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures commodity_kept(m) ==> #[trigger] kept_in::<Commodity<'a>>(m);
broadcast axiom fn commodity_unsaid<'a>() ensures #[trigger] unsaid::<Commodity<'a>>() is None;
broadcast group commodity_linked { commodity_tree, commodity_kept_as, commodity_read_as, commodity_read_in, commodity_kept_in }
spec fn pad_read<'a>(m: Map<Seq<char>, Tree>, v: Pad<'a>) -> bool {
    &&& had(m, "acc", v.acc)
    &&& had(m, "source", v.source)
}
spec fn pad_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& m.contains_key("acc"@) && takes::<&'a str>(m, "acc")
    &&& m.contains_key("source"@) && takes::<&'a str>(m, "source")
}
spec fn same_pad<'a>(a: Pad<'a>, b: Pad<'a>) -> bool {
    &&& a.acc@ == b.acc@
    &&& a.source@ == b.source@
}
spec fn plain_pad<'a>(a: Pad<'a>) -> bool {
    &&& unescaped(a.acc@)
    &&& unescaped(a.source@)
}
broadcast axiom fn pad_tree<'a>(v: &Pad<'a>) ensures (#[trigger] tree::<Pad<'a>>(v)) is Map, keyed(tree::<Pad<'a>>(v)) == pad_keyed(*v);
broadcast axiom fn pad_read_as<'a>(t: Tree, v: Pad<'a>) ensures #[trigger] reads::<Pad<'a>>(t, v) ==> (t is Map ==> pad_read(keyed(t), v));
broadcast axiom fn pad_kept_as<'a>(v: &Pad<'a>) ensures pad_kept(pad_keyed(*v)) ==> kept::<Pad<'a>>(#[trigger] tree::<Pad<'a>>(v));
broadcast axiom fn pad_read_in<'a>(m: Map<Seq<char>, Tree>, v: Pad<'a>) ensures #[trigger] reads_in::<Pad<'a>>(m, v) ==> pad_read(m, v);
broadcast axiom fn pad_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures pad_kept(m) ==> #[trigger] kept_in::<Pad<'a>>(m);
broadcast axiom fn pad_unsaid<'a>() ensures #[trigger] unsaid::<Pad<'a>>() is None;
broadcast group pad_linked { pad_tree, pad_kept_as, pad_read_as, pad_read_in, pad_kept_in }
spec fn document_read<'a>(m: Map<Seq<char>, Tree>, v: Document<'a>) -> bool {
    &&& had(m, "acc", v.acc)
    &&& had(m, "path", v.path)
}
spec fn document_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& m.contains_key("acc"@) && takes::<&'a str>(m, "acc")
    &&& m.contains_key("path"@) && takes::<Cow<'a, str>>(m, "path")
}
spec fn same_document<'a>(a: Document<'a>, b: Document<'a>) -> bool {
    &&& a.acc@ == b.acc@
    &&& a.path@ == b.path@
}
spec fn plain_document<'a>(a: Document<'a>) -> bool {
    &&& unescaped(a.acc@)
    &&& true
}
broadcast axiom fn document_tree<'a>(v: &Document<'a>) ensures (#[trigger] tree::<Document<'a>>(v)) is Map, keyed(tree::<Document<'a>>(v)) == document_keyed(*v);
broadcast axiom fn document_read_as<'a>(t: Tree, v: Document<'a>) ensures #[trigger] reads::<Document<'a>>(t, v) ==> (t is Map ==> document_read(keyed(t), v));
broadcast axiom fn document_kept_as<'a>(v: &Document<'a>) ensures document_kept(document_keyed(*v)) ==> kept::<Document<'a>>(#[trigger] tree::<Document<'a>>(v));
broadcast axiom fn document_read_in<'a>(m: Map<Seq<char>, Tree>, v: Document<'a>) ensures #[trigger] reads_in::<Document<'a>>(m, v) ==> document_read(m, v);
broadcast axiom fn document_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures document_kept(m) ==> #[trigger] kept_in::<Document<'a>>(m);
broadcast axiom fn document_unsaid<'a>() ensures #[trigger] unsaid::<Document<'a>>() is None;
broadcast group document_linked { document_tree, document_kept_as, document_read_as, document_read_in, document_kept_in }
spec fn note_read<'a>(m: Map<Seq<char>, Tree>, v: Note<'a>) -> bool {
    &&& had(m, "acc", v.acc)
    &&& had(m, "comment", v.comment)
}
spec fn note_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& m.contains_key("acc"@) && takes::<&'a str>(m, "acc")
    &&& m.contains_key("comment"@) && takes::<Cow<'a, str>>(m, "comment")
}
spec fn same_note<'a>(a: Note<'a>, b: Note<'a>) -> bool {
    &&& a.acc@ == b.acc@
    &&& a.comment@ == b.comment@
}
spec fn plain_note<'a>(a: Note<'a>) -> bool {
    &&& unescaped(a.acc@)
    &&& true
}
broadcast axiom fn note_tree<'a>(v: &Note<'a>) ensures (#[trigger] tree::<Note<'a>>(v)) is Map, keyed(tree::<Note<'a>>(v)) == note_keyed(*v);
broadcast axiom fn note_read_as<'a>(t: Tree, v: Note<'a>) ensures #[trigger] reads::<Note<'a>>(t, v) ==> (t is Map ==> note_read(keyed(t), v));
broadcast axiom fn note_kept_as<'a>(v: &Note<'a>) ensures note_kept(note_keyed(*v)) ==> kept::<Note<'a>>(#[trigger] tree::<Note<'a>>(v));
broadcast axiom fn note_read_in<'a>(m: Map<Seq<char>, Tree>, v: Note<'a>) ensures #[trigger] reads_in::<Note<'a>>(m, v) ==> note_read(m, v);
broadcast axiom fn note_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures note_kept(m) ==> #[trigger] kept_in::<Note<'a>>(m);
broadcast axiom fn note_unsaid<'a>() ensures #[trigger] unsaid::<Note<'a>>() is None;
broadcast group note_linked { note_tree, note_kept_as, note_read_as, note_read_in, note_kept_in }
spec fn event_read<'a>(m: Map<Seq<char>, Tree>, v: Event<'a>) -> bool {
    &&& had(m, "type", v.type_)
    &&& had(m, "description", v.description)
}
spec fn event_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& m.contains_key("type"@) && takes::<Cow<'a, str>>(m, "type")
    &&& m.contains_key("description"@) && takes::<Cow<'a, str>>(m, "description")
}
spec fn same_event<'a>(a: Event<'a>, b: Event<'a>) -> bool {
    &&& a.type_@ == b.type_@
    &&& a.description@ == b.description@
}
spec fn plain_event<'a>(a: Event<'a>) -> bool {
    &&& true
    &&& true
}
broadcast axiom fn event_tree<'a>(v: &Event<'a>) ensures (#[trigger] tree::<Event<'a>>(v)) is Map, keyed(tree::<Event<'a>>(v)) == event_keyed(*v);
broadcast axiom fn event_read_as<'a>(t: Tree, v: Event<'a>) ensures #[trigger] reads::<Event<'a>>(t, v) ==> (t is Map ==> event_read(keyed(t), v));
broadcast axiom fn event_kept_as<'a>(v: &Event<'a>) ensures event_kept(event_keyed(*v)) ==> kept::<Event<'a>>(#[trigger] tree::<Event<'a>>(v));
broadcast axiom fn event_read_in<'a>(m: Map<Seq<char>, Tree>, v: Event<'a>) ensures #[trigger] reads_in::<Event<'a>>(m, v) ==> event_read(m, v);
broadcast axiom fn event_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures event_kept(m) ==> #[trigger] kept_in::<Event<'a>>(m);
broadcast axiom fn event_unsaid<'a>() ensures #[trigger] unsaid::<Event<'a>>() is None;
broadcast group event_linked { event_tree, event_kept_as, event_read_as, event_read_in, event_kept_in }
spec fn query_read<'a>(m: Map<Seq<char>, Tree>, v: Query<'a>) -> bool {
    &&& had(m, "name", v.name)
    &&& had(m, "content", v.content)
}
spec fn query_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& m.contains_key("name"@) && takes::<Cow<'a, str>>(m, "name")
    &&& m.contains_key("content"@) && takes::<Cow<'a, str>>(m, "content")
}
spec fn same_query<'a>(a: Query<'a>, b: Query<'a>) -> bool {
    &&& a.name@ == b.name@
    &&& a.content@ == b.content@
}
spec fn plain_query<'a>(a: Query<'a>) -> bool {
    &&& true
    &&& true
}
broadcast axiom fn query_tree<'a>(v: &Query<'a>) ensures (#[trigger] tree::<Query<'a>>(v)) is Map, keyed(tree::<Query<'a>>(v)) == query_keyed(*v);
broadcast axiom fn query_read_as<'a>(t: Tree, v: Query<'a>) ensures #[trigger] reads::<Query<'a>>(t, v) ==> (t is Map ==> query_read(keyed(t), v));
broadcast axiom fn query_kept_as<'a>(v: &Query<'a>) ensures query_kept(query_keyed(*v)) ==> kept::<Query<'a>>(#[trigger] tree::<Query<'a>>(v));
broadcast axiom fn query_read_in<'a>(m: Map<Seq<char>, Tree>, v: Query<'a>) ensures #[trigger] reads_in::<Query<'a>>(m, v) ==> query_read(m, v);
broadcast axiom fn query_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures query_kept(m) ==> #[trigger] kept_in::<Query<'a>>(m);
broadcast axiom fn query_unsaid<'a>() ensures #[trigger] unsaid::<Query<'a>>() is None;
broadcast group query_linked { query_tree, query_kept_as, query_read_as, query_read_in, query_kept_in }
spec fn custom_read<'a>(m: Map<Seq<char>, Tree>, v: Custom<'a>) -> bool {
    &&& had(m, "type", v.type_)
    &&& had(m, "values", v.values)
}
spec fn custom_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& m.contains_key("type"@) && takes::<Cow<'a, str>>(m, "type")
    &&& m.contains_key("values"@) && takes::<Vec<MetaValue<'a>>>(m, "values")
}
spec fn same_custom<'a>(a: Custom<'a>, b: Custom<'a>) -> bool {
    &&& a.type_@ == b.type_@
    &&& (a.values@.len() == b.values@.len() && (forall|i: int| 0 <= i < a.values@.len() ==> same_value((#[trigger] a.values@[i]), b.values@[i])))
}
spec fn plain_custom<'a>(a: Custom<'a>) -> bool {
    &&& true
    &&& (forall|i: int| 0 <= i < a.values@.len() ==> plain_names((#[trigger] a.values@[i])))
}
broadcast axiom fn custom_tree<'a>(v: &Custom<'a>) ensures (#[trigger] tree::<Custom<'a>>(v)) is Map, keyed(tree::<Custom<'a>>(v)) == custom_keyed(*v);
broadcast axiom fn custom_read_as<'a>(t: Tree, v: Custom<'a>) ensures #[trigger] reads::<Custom<'a>>(t, v) ==> (t is Map ==> custom_read(keyed(t), v));
broadcast axiom fn custom_kept_as<'a>(v: &Custom<'a>) ensures custom_kept(custom_keyed(*v)) ==> kept::<Custom<'a>>(#[trigger] tree::<Custom<'a>>(v));
broadcast axiom fn custom_read_in<'a>(m: Map<Seq<char>, Tree>, v: Custom<'a>) ensures #[trigger] reads_in::<Custom<'a>>(m, v) ==> custom_read(m, v);
broadcast axiom fn custom_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures custom_kept(m) ==> #[trigger] kept_in::<Custom<'a>>(m);
broadcast axiom fn custom_unsaid<'a>() ensures #[trigger] unsaid::<Custom<'a>>() is None;
broadcast group custom_linked { custom_tree, custom_kept_as, custom_read_as, custom_read_in, custom_kept_in }
spec fn cost_spec_read<'a>(m: Map<Seq<char>, Tree>, v: CostSpec<'a>) -> bool {
    &&& had_or(m, "per-unit", v.per_unit, None)
    &&& had_or(m, "total", v.total, None)
    &&& had_or(m, "cur", v.cur, None)
    &&& if m.contains_key("date"@) { dates(m["date"@]) == v.date } else { v.date is None }
    &&& had_or(m, "label", v.label, None)
    &&& had_or(m, "merge", v.merge, false)
}
spec fn cost_spec_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& takes::<Option<Decimal>>(m, "per-unit")
    &&& takes::<Option<Decimal>>(m, "total")
    &&& takes::<Option<&'a str>>(m, "cur")
    &&& takes_date_or_none(m, "date")
    &&& takes::<Option<Cow<'a, str>>>(m, "label")
    &&& takes::<bool>(m, "merge")
}
spec fn same_cost_spec<'a>(a: CostSpec<'a>, b: CostSpec<'a>) -> bool {
    &&& (match (a.per_unit, b.per_unit) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false })
    &&& (match (a.total, b.total) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false })
    &&& (match (a.cur, b.cur) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false })
    &&& (match (a.date, b.date) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false })
    &&& (match (a.label, b.label) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false })
    &&& a.merge == b.merge
}
spec fn plain_cost_spec<'a>(a: CostSpec<'a>) -> bool {
    &&& true
    &&& true
    &&& (match a.cur { Some(x) => unescaped(x@), None => true })
    &&& true
    &&& true
    &&& true
}
broadcast axiom fn cost_spec_tree<'a>(v: &CostSpec<'a>) ensures (#[trigger] tree::<CostSpec<'a>>(v)) is Map, keyed(tree::<CostSpec<'a>>(v)) == cost_spec_keyed(*v);
broadcast axiom fn cost_spec_read_as<'a>(t: Tree, v: CostSpec<'a>) ensures #[trigger] reads::<CostSpec<'a>>(t, v) ==> (t is Map ==> cost_spec_read(keyed(t), v));
broadcast axiom fn cost_spec_kept_as<'a>(v: &CostSpec<'a>) ensures cost_spec_kept(cost_spec_keyed(*v)) ==> kept::<CostSpec<'a>>(#[trigger] tree::<CostSpec<'a>>(v));
broadcast axiom fn cost_spec_read_in<'a>(m: Map<Seq<char>, Tree>, v: CostSpec<'a>) ensures #[trigger] reads_in::<CostSpec<'a>>(m, v) ==> cost_spec_read(m, v);
broadcast axiom fn cost_spec_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures cost_spec_kept(m) ==> #[trigger] kept_in::<CostSpec<'a>>(m);
broadcast axiom fn cost_spec_unsaid<'a>() ensures #[trigger] unsaid::<CostSpec<'a>>() is None;
broadcast group cost_spec_linked { cost_spec_tree, cost_spec_kept_as, cost_spec_read_as, cost_spec_read_in, cost_spec_kept_in }
spec fn price_spec_read<'a>(m: Map<Seq<char>, Tree>, v: PriceSpec<'a>) -> bool {
    &&& had_or(m, "per-unit", v.per_unit, None)
    &&& had_or(m, "total", v.total, None)
    &&& had_or(m, "cur", v.cur, None)
}
spec fn price_spec_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& takes::<Option<Decimal>>(m, "per-unit")
    &&& takes::<Option<Decimal>>(m, "total")
    &&& takes::<Option<&'a str>>(m, "cur")
}
spec fn same_price_spec<'a>(a: PriceSpec<'a>, b: PriceSpec<'a>) -> bool {
    &&& (match (a.per_unit, b.per_unit) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false })
    &&& (match (a.total, b.total) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false })
    &&& (match (a.cur, b.cur) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false })
}
spec fn plain_price_spec<'a>(a: PriceSpec<'a>) -> bool {
    &&& true
    &&& true
    &&& (match a.cur { Some(x) => unescaped(x@), None => true })
}
broadcast axiom fn price_spec_tree<'a>(v: &PriceSpec<'a>) ensures (#[trigger] tree::<PriceSpec<'a>>(v)) is Map, keyed(tree::<PriceSpec<'a>>(v)) == price_spec_keyed(*v);
broadcast axiom fn price_spec_read_as<'a>(t: Tree, v: PriceSpec<'a>) ensures #[trigger] reads::<PriceSpec<'a>>(t, v) ==> (t is Map ==> price_spec_read(keyed(t), v));
broadcast axiom fn price_spec_kept_as<'a>(v: &PriceSpec<'a>) ensures price_spec_kept(price_spec_keyed(*v)) ==> kept::<PriceSpec<'a>>(#[trigger] tree::<PriceSpec<'a>>(v));
broadcast axiom fn price_spec_read_in<'a>(m: Map<Seq<char>, Tree>, v: PriceSpec<'a>) ensures #[trigger] reads_in::<PriceSpec<'a>>(m, v) ==> price_spec_read(m, v);
broadcast axiom fn price_spec_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures price_spec_kept(m) ==> #[trigger] kept_in::<PriceSpec<'a>>(m);
broadcast axiom fn price_spec_unsaid<'a>() ensures #[trigger] unsaid::<PriceSpec<'a>>() is None;
broadcast group price_spec_linked { price_spec_tree, price_spec_kept_as, price_spec_read_as, price_spec_read_in, price_spec_kept_in }
spec fn posting_spec_read<'a>(m: Map<Seq<char>, Tree>, v: PostingSpec<'a>) -> bool {
    &&& had_or(m, "span", v.span, None)
    &&& had_or(m, "flag", v.flag, None)
    &&& had(m, "acc", v.acc)
    &&& had_or(m, "units", v.units, None)
    &&& had_or(m, "cur", v.cur, None)
    &&& had_or(m, "cost-spec", v.cost_spec, None)
    &&& had_or(m, "price-spec", v.price_spec, None)
    &&& had_or(m, "tags", v.tags, None)
    &&& had_or(m, "links", v.links, None)
    &&& had_or(m, "metadata", v.metadata, None)
}
spec fn posting_spec_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& takes::<Option<Span>>(m, "span")
    &&& takes::<Option<Cow<'static, str>>>(m, "flag")
    &&& m.contains_key("acc"@) && takes::<&'a str>(m, "acc")
    &&& takes::<Option<Decimal>>(m, "units")
    &&& takes::<Option<&'a str>>(m, "cur")
    &&& takes::<Option<CostSpec<'a>>>(m, "cost-spec")
    &&& takes::<Option<PriceSpec<'a>>>(m, "price-spec")
    &&& takes::<Option<HashSet<&'a str>>>(m, "tags")
    &&& takes::<Option<HashSet<&'a str>>>(m, "links")
    &&& takes::<Option<HashMap<&'a str, MetaValue<'a>>>>(m, "metadata")
}
spec fn same_posting_spec<'a>(a: PostingSpec<'a>, b: PostingSpec<'a>) -> bool {
    &&& (match (a.span, b.span) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false })
    &&& (match (a.flag, b.flag) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false })
    &&& a.acc@ == b.acc@
    &&& (match (a.units, b.units) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false })
    &&& (match (a.cur, b.cur) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false })
    &&& (match (a.cost_spec, b.cost_spec) { (Some(x), Some(y)) => same_cost_spec(x, y), (None, None) => true, _ => false })
    &&& (match (a.price_spec, b.price_spec) { (Some(x), Some(y)) => same_price_spec(x, y), (None, None) => true, _ => false })
    &&& (match (a.tags, b.tags) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false })
    &&& (match (a.links, b.links) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false })
    &&& (match (a.metadata, b.metadata) { (Some(x), Some(y)) => same_metadata(x, y), (None, None) => true, _ => false })
}
spec fn plain_posting_spec<'a>(a: PostingSpec<'a>) -> bool {
    &&& true
    &&& true
    &&& unescaped(a.acc@)
    &&& true
    &&& (match a.cur { Some(x) => unescaped(x@), None => true })
    &&& (match a.cost_spec { Some(x) => plain_cost_spec(x), None => true })
    &&& (match a.price_spec { Some(x) => plain_price_spec(x), None => true })
    &&& (match a.tags { Some(x) => (forall|s: Seq<char>| #[trigger] x@.contains(s) ==> unescaped(s)), None => true })
    &&& (match a.links { Some(x) => (forall|s: Seq<char>| #[trigger] x@.contains(s) ==> unescaped(s)), None => true })
    &&& (match a.metadata { Some(x) => plain_metadata(x), None => true })
}
broadcast axiom fn posting_spec_tree<'a>(v: &PostingSpec<'a>) ensures (#[trigger] tree::<PostingSpec<'a>>(v)) is Map, keyed(tree::<PostingSpec<'a>>(v)) == posting_spec_keyed(*v);
broadcast axiom fn posting_spec_read_as<'a>(t: Tree, v: PostingSpec<'a>) ensures #[trigger] reads::<PostingSpec<'a>>(t, v) ==> (t is Map ==> posting_spec_read(keyed(t), v));
broadcast axiom fn posting_spec_kept_as<'a>(v: &PostingSpec<'a>) ensures posting_spec_kept(posting_spec_keyed(*v)) ==> kept::<PostingSpec<'a>>(#[trigger] tree::<PostingSpec<'a>>(v));
broadcast axiom fn posting_spec_read_in<'a>(m: Map<Seq<char>, Tree>, v: PostingSpec<'a>) ensures #[trigger] reads_in::<PostingSpec<'a>>(m, v) ==> posting_spec_read(m, v);
broadcast axiom fn posting_spec_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures posting_spec_kept(m) ==> #[trigger] kept_in::<PostingSpec<'a>>(m);
broadcast axiom fn posting_spec_unsaid<'a>() ensures #[trigger] unsaid::<PostingSpec<'a>>() is None;
broadcast group posting_spec_linked { posting_spec_tree, posting_spec_kept_as, posting_spec_read_as, posting_spec_read_in, posting_spec_kept_in }
spec fn transaction_read<'a>(m: Map<Seq<char>, Tree>, v: Transaction<'a>) -> bool {
    &&& had(m, "flag", v.flag)
    &&& had_or(m, "payee", v.payee, None)
    &&& had_or(m, "narration", v.narration, None)
    &&& had(m, "postings", v.postings)
}
spec fn transaction_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& m.contains_key("flag"@) && takes::<Cow<'static, str>>(m, "flag")
    &&& takes::<Option<Cow<'a, str>>>(m, "payee")
    &&& takes::<Option<Cow<'a, str>>>(m, "narration")
    &&& m.contains_key("postings"@) && takes::<Vec<PostingSpec<'a>>>(m, "postings")
}
spec fn same_transaction<'a>(a: Transaction<'a>, b: Transaction<'a>) -> bool {
    &&& a.flag@ == b.flag@
    &&& (match (a.payee, b.payee) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false })
    &&& (match (a.narration, b.narration) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false })
    &&& (a.postings@.len() == b.postings@.len() && (forall|i: int| 0 <= i < a.postings@.len() ==> same_posting_spec((#[trigger] a.postings@[i]), b.postings@[i])))
}
spec fn plain_transaction<'a>(a: Transaction<'a>) -> bool {
    &&& true
    &&& true
    &&& true
    &&& (forall|i: int| 0 <= i < a.postings@.len() ==> plain_posting_spec((#[trigger] a.postings@[i])))
}
broadcast axiom fn transaction_tree<'a>(v: &Transaction<'a>) ensures (#[trigger] tree::<Transaction<'a>>(v)) is Map, keyed(tree::<Transaction<'a>>(v)) == transaction_keyed(*v);
broadcast axiom fn transaction_read_as<'a>(t: Tree, v: Transaction<'a>) ensures #[trigger] reads::<Transaction<'a>>(t, v) ==> (t is Map ==> transaction_read(keyed(t), v));
broadcast axiom fn transaction_kept_as<'a>(v: &Transaction<'a>) ensures transaction_kept(transaction_keyed(*v)) ==> kept::<Transaction<'a>>(#[trigger] tree::<Transaction<'a>>(v));
broadcast axiom fn transaction_read_in<'a>(m: Map<Seq<char>, Tree>, v: Transaction<'a>) ensures #[trigger] reads_in::<Transaction<'a>>(m, v) ==> transaction_read(m, v);
broadcast axiom fn transaction_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures transaction_kept(m) ==> #[trigger] kept_in::<Transaction<'a>>(m);
broadcast axiom fn transaction_unsaid<'a>() ensures #[trigger] unsaid::<Transaction<'a>>() is None;
broadcast group transaction_linked { transaction_tree, transaction_kept_as, transaction_read_as, transaction_read_in, transaction_kept_in }
spec fn directive_variant_read<'a>(m: Map<Seq<char>, Tree>, v: DirectiveVariant<'a>) -> bool {
    m.contains_key("dct"@) && match v {
        DirectiveVariant::Transaction(x) => says(m, "dct", "txn"@) && reads_in::<Transaction<'a>>(m.remove("dct"@), x),
        DirectiveVariant::Price(x) => says(m, "dct", "price"@) && reads_in::<PriceDct<'a>>(m.remove("dct"@), x),
        DirectiveVariant::Balance(x) => says(m, "dct", "balance"@) && reads_in::<Balance<'a>>(m.remove("dct"@), x),
        DirectiveVariant::Open(x) => says(m, "dct", "open"@) && reads_in::<Open<'a>>(m.remove("dct"@), x),
        DirectiveVariant::Close(x) => says(m, "dct", "close"@) && reads_in::<Close<'a>>(m.remove("dct"@), x),
        DirectiveVariant::Commodity(x) => says(m, "dct", "commodity"@) && reads_in::<Commodity<'a>>(m.remove("dct"@), x),
        DirectiveVariant::Pad(x) => says(m, "dct", "pad"@) && reads_in::<Pad<'a>>(m.remove("dct"@), x),
        DirectiveVariant::Document(x) => says(m, "dct", "document"@) && reads_in::<Document<'a>>(m.remove("dct"@), x),
        DirectiveVariant::Note(x) => says(m, "dct", "note"@) && reads_in::<Note<'a>>(m.remove("dct"@), x),
        DirectiveVariant::Event(x) => says(m, "dct", "event"@) && reads_in::<Event<'a>>(m.remove("dct"@), x),
        DirectiveVariant::Query(x) => says(m, "dct", "query"@) && reads_in::<Query<'a>>(m.remove("dct"@), x),
        DirectiveVariant::Custom(x) => says(m, "dct", "custom"@) && reads_in::<Custom<'a>>(m.remove("dct"@), x),
    }
}
spec fn directive_variant_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    m.contains_key("dct"@) && {
        ||| m["dct"@] == Tree::Text("txn"@) && kept_in::<Transaction<'a>>(m.remove("dct"@))
        ||| m["dct"@] == Tree::Text("price"@) && kept_in::<PriceDct<'a>>(m.remove("dct"@))
        ||| m["dct"@] == Tree::Text("balance"@) && kept_in::<Balance<'a>>(m.remove("dct"@))
        ||| m["dct"@] == Tree::Text("open"@) && kept_in::<Open<'a>>(m.remove("dct"@))
        ||| m["dct"@] == Tree::Text("close"@) && kept_in::<Close<'a>>(m.remove("dct"@))
        ||| m["dct"@] == Tree::Text("commodity"@) && kept_in::<Commodity<'a>>(m.remove("dct"@))
        ||| m["dct"@] == Tree::Text("pad"@) && kept_in::<Pad<'a>>(m.remove("dct"@))
        ||| m["dct"@] == Tree::Text("document"@) && kept_in::<Document<'a>>(m.remove("dct"@))
        ||| m["dct"@] == Tree::Text("note"@) && kept_in::<Note<'a>>(m.remove("dct"@))
        ||| m["dct"@] == Tree::Text("event"@) && kept_in::<Event<'a>>(m.remove("dct"@))
        ||| m["dct"@] == Tree::Text("query"@) && kept_in::<Query<'a>>(m.remove("dct"@))
        ||| m["dct"@] == Tree::Text("custom"@) && kept_in::<Custom<'a>>(m.remove("dct"@))
    }
}
spec fn same_directive_variant<'a>(a: DirectiveVariant<'a>, b: DirectiveVariant<'a>) -> bool {
    match (a, b) {
        (DirectiveVariant::Transaction(x), DirectiveVariant::Transaction(y)) => same_transaction(x, y),
        (DirectiveVariant::Price(x), DirectiveVariant::Price(y)) => same_price_dct(x, y),
        (DirectiveVariant::Balance(x), DirectiveVariant::Balance(y)) => same_balance(x, y),
        (DirectiveVariant::Open(x), DirectiveVariant::Open(y)) => same_open(x, y),
        (DirectiveVariant::Close(x), DirectiveVariant::Close(y)) => same_close(x, y),
        (DirectiveVariant::Commodity(x), DirectiveVariant::Commodity(y)) => same_commodity(x, y),
        (DirectiveVariant::Pad(x), DirectiveVariant::Pad(y)) => same_pad(x, y),
        (DirectiveVariant::Document(x), DirectiveVariant::Document(y)) => same_document(x, y),
        (DirectiveVariant::Note(x), DirectiveVariant::Note(y)) => same_note(x, y),
        (DirectiveVariant::Event(x), DirectiveVariant::Event(y)) => same_event(x, y),
        (DirectiveVariant::Query(x), DirectiveVariant::Query(y)) => same_query(x, y),
        (DirectiveVariant::Custom(x), DirectiveVariant::Custom(y)) => same_custom(x, y),
        _ => false,
    }
}
spec fn plain_directive_variant<'a>(a: DirectiveVariant<'a>) -> bool {
    match a {
        DirectiveVariant::Transaction(x) => plain_transaction(x),
        DirectiveVariant::Price(x) => plain_price_dct(x),
        DirectiveVariant::Balance(x) => plain_balance(x),
        DirectiveVariant::Open(x) => plain_open(x),
        DirectiveVariant::Close(x) => plain_close(x),
        DirectiveVariant::Commodity(x) => plain_commodity(x),
        DirectiveVariant::Pad(x) => plain_pad(x),
        DirectiveVariant::Document(x) => plain_document(x),
        DirectiveVariant::Note(x) => plain_note(x),
        DirectiveVariant::Event(x) => plain_event(x),
        DirectiveVariant::Query(x) => plain_query(x),
        DirectiveVariant::Custom(x) => plain_custom(x),
    }
}
broadcast axiom fn directive_variant_tree<'a>(v: &DirectiveVariant<'a>) ensures (#[trigger] tree::<DirectiveVariant<'a>>(v)) is Map, keyed(tree::<DirectiveVariant<'a>>(v)) == directive_variant_keyed(*v);
broadcast axiom fn directive_variant_read_in<'a>(m: Map<Seq<char>, Tree>, v: DirectiveVariant<'a>) ensures #[trigger] reads_in::<DirectiveVariant<'a>>(m, v) ==> directive_variant_read(m, v);
broadcast axiom fn directive_variant_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures directive_variant_kept(m) ==> #[trigger] kept_in::<DirectiveVariant<'a>>(m);
broadcast group directive_variant_linked { directive_variant_tree, directive_variant_read_in, directive_variant_kept_in }
spec fn directive_others(m: Map<Seq<char>, Tree>) -> Map<Seq<char>, Tree> { m.remove_keys(set!["span"@, "date"@, "tags"@, "links"@, "metadata"@]) }
spec fn directive_read<'a>(m: Map<Seq<char>, Tree>, v: Directive<'a>) -> bool {
    &&& had_or(m, "span", v.span, None)
    &&& m.contains_key("date"@) && dates(m["date"@]) == Some(v.date)
    &&& had_or(m, "tags", v.tags, None)
    &&& had_or(m, "links", v.links, None)
    &&& had_or(m, "metadata", v.metadata, None)
    &&& reads_in(directive_others(m), v.variant)
}
spec fn directive_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& takes::<Option<Span>>(m, "span")
    &&& m.contains_key("date"@) && takes_date(m, "date")
    &&& takes::<Option<HashSet<&'a str>>>(m, "tags")
    &&& takes::<Option<HashSet<&'a str>>>(m, "links")
    &&& takes::<Option<HashMap<&'a str, MetaValue<'a>>>>(m, "metadata")
    &&& kept_in::<DirectiveVariant<'a>>(directive_others(m))
}
spec fn same_directive<'a>(a: Directive<'a>, b: Directive<'a>) -> bool {
    &&& (match (a.span, b.span) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false })
    &&& a.date == b.date
    &&& (match (a.tags, b.tags) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false })
    &&& (match (a.links, b.links) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false })
    &&& (match (a.metadata, b.metadata) { (Some(x), Some(y)) => same_metadata(x, y), (None, None) => true, _ => false })
    &&& same_directive_variant(a.variant, b.variant)
}
spec fn plain_directive<'a>(a: Directive<'a>) -> bool {
    &&& true
    &&& true
    &&& (match a.tags { Some(x) => (forall|s: Seq<char>| #[trigger] x@.contains(s) ==> unescaped(s)), None => true })
    &&& (match a.links { Some(x) => (forall|s: Seq<char>| #[trigger] x@.contains(s) ==> unescaped(s)), None => true })
    &&& (match a.metadata { Some(x) => plain_metadata(x), None => true })
    &&& plain_directive_variant(a.variant)
}
broadcast axiom fn directive_tree<'a>(v: &Directive<'a>) ensures (#[trigger] tree::<Directive<'a>>(v)) is Map, keyed(tree::<Directive<'a>>(v)) == directive_keyed(*v);
broadcast axiom fn directive_read_as<'a>(t: Tree, v: Directive<'a>) ensures #[trigger] reads::<Directive<'a>>(t, v) ==> (t is Map ==> directive_read(keyed(t), v));
broadcast axiom fn directive_kept_as<'a>(v: &Directive<'a>) ensures directive_kept(directive_keyed(*v)) ==> kept::<Directive<'a>>(#[trigger] tree::<Directive<'a>>(v));
broadcast axiom fn directive_read_in<'a>(m: Map<Seq<char>, Tree>, v: Directive<'a>) ensures #[trigger] reads_in::<Directive<'a>>(m, v) ==> directive_read(m, v);
broadcast axiom fn directive_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures directive_kept(m) ==> #[trigger] kept_in::<Directive<'a>>(m);
broadcast axiom fn directive_unsaid<'a>() ensures #[trigger] unsaid::<Directive<'a>>() is None;
broadcast group directive_linked { directive_tree, directive_kept_as, directive_read_as, directive_read_in, directive_kept_in }
broadcast axiom fn booking_tree(v: &Booking) ensures #[trigger] tree::<Booking>(v) == booking_written(*v);
broadcast axiom fn booking_read_as(t: Tree, v: Booking) ensures #[trigger] reads::<Booking>(t, v) ==> t == booking_written(v);
broadcast axiom fn booking_kept_as(v: &Booking) ensures kept::<Booking>(#[trigger] booking_written(*v));
broadcast group booking_linked { booking_tree, booking_read_as, booking_kept_as }
proof fn booking_differ(a: Booking, b: Booking)
    requires booking_written(a) == booking_written(b),
    ensures a == b,
{
reveal_strlit("strict"); reveal_strlit("strict-with-size"); reveal_strlit("none"); reveal_strlit("average"); reveal_strlit("fifo"); reveal_strlit("lifo"); reveal_strlit("hifo");
assert("strict"@.len() == 6); assert("strict-with-size"@.len() == 16); assert("none"@.len() == 4); assert("average"@.len() == 7); assert("fifo"@.len() == 4); assert("lifo"@.len() == 4); assert("hifo"@.len() == 4);
assert("fifo"@[0] == 'f'); assert("hifo"@[0] == 'h'); assert("lifo"@[0] == 'l'); assert("none"@[0] == 'n');
}
/// what is written of it is read as the same
proof fn price_back<'a>(a: Price<'a>, b: Price<'a>)
    requires plain_price(a), price_read(price_keyed(a), b) || reads::<Price<'a>>(tree::<Price<'a>>(&a), b),
    ensures same_price(a, b),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, price_linked};
    reveal_strlit("per-unit"); reveal_strlit("total"); reveal_strlit("cur");
assert("per-unit"@.len() == 8); assert("total"@.len() == 5); assert("cur"@.len() == 3);
}
/// and is not refused
proof fn price_taken<'a>(a: Price<'a>)
    requires plain_price(a),
    ensures price_kept(price_keyed(a)), kept::<Price<'a>>(tree::<Price<'a>>(&a)),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, price_linked};
    reveal_strlit("per-unit"); reveal_strlit("total"); reveal_strlit("cur");
assert("per-unit"@.len() == 8); assert("total"@.len() == 5); assert("cur"@.len() == 3);
}
/// what is written of it is read as the same
proof fn price_dct_back<'a>(a: PriceDct<'a>, b: PriceDct<'a>)
    requires plain_price_dct(a), price_dct_read(price_dct_keyed(a), b) || reads::<PriceDct<'a>>(tree::<PriceDct<'a>>(&a), b),
    ensures same_price_dct(a, b),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, price_linked, price_dct_linked};
    reveal_strlit("cur"); reveal_strlit("price");
assert("cur"@.len() == 3); assert("price"@.len() == 5);
    assert forall|x: Price<'a>, y: Price<'a>| plain_price(x) && #[trigger] reads::<Price<'a>>(tree::<Price<'a>>(&x), y) implies same_price(x, y) by { price_back(x, y); }
}
/// and is not refused
proof fn price_dct_taken<'a>(a: PriceDct<'a>)
    requires plain_price_dct(a),
    ensures price_dct_kept(price_dct_keyed(a)), kept::<PriceDct<'a>>(tree::<PriceDct<'a>>(&a)),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, price_linked, price_dct_linked};
    reveal_strlit("cur"); reveal_strlit("price");
assert("cur"@.len() == 3); assert("price"@.len() == 5);
    assert forall|x: Price<'a>| plain_price(x) implies kept::<Price<'a>>(#[trigger] tree::<Price<'a>>(&x)) by { price_taken(x); }
}
/// what is written of it is read as the same
proof fn balance_back<'a>(a: Balance<'a>, b: Balance<'a>)
    requires plain_balance(a), balance_read(balance_keyed(a), b) || reads::<Balance<'a>>(tree::<Balance<'a>>(&a), b),
    ensures same_balance(a, b),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, balance_linked};
    reveal_strlit("acc"); reveal_strlit("units"); reveal_strlit("cur"); reveal_strlit("tolerance");
assert("acc"@.len() == 3); assert("units"@.len() == 5); assert("cur"@.len() == 3); assert("tolerance"@.len() == 9);
assert("acc"@[0] == 'a'); assert("cur"@[0] == 'c');
}
/// and is not refused
proof fn balance_taken<'a>(a: Balance<'a>)
    requires plain_balance(a),
    ensures balance_kept(balance_keyed(a)), kept::<Balance<'a>>(tree::<Balance<'a>>(&a)),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, balance_linked};
    reveal_strlit("acc"); reveal_strlit("units"); reveal_strlit("cur"); reveal_strlit("tolerance");
assert("acc"@.len() == 3); assert("units"@.len() == 5); assert("cur"@.len() == 3); assert("tolerance"@.len() == 9);
assert("acc"@[0] == 'a'); assert("cur"@[0] == 'c');
}
/// what is written of it is read as the same
proof fn open_back<'a>(a: Open<'a>, b: Open<'a>)
    requires plain_open(a), open_read(open_keyed(a), b) || reads::<Open<'a>>(tree::<Open<'a>>(&a), b),
    ensures same_open(a, b),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, booking_linked, open_linked};
    reveal_strlit("acc"); reveal_strlit("currencies"); reveal_strlit("booking");
assert("acc"@.len() == 3); assert("currencies"@.len() == 10); assert("booking"@.len() == 7);
    assert forall|x: Booking, y: Booking| #[trigger] booking_written(x) == #[trigger] booking_written(y) implies x == y by { booking_differ(x, y); }
}
/// and is not refused
proof fn open_taken<'a>(a: Open<'a>)
    requires plain_open(a),
    ensures open_kept(open_keyed(a)), kept::<Open<'a>>(tree::<Open<'a>>(&a)),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, booking_linked, open_linked};
    reveal_strlit("acc"); reveal_strlit("currencies"); reveal_strlit("booking");
assert("acc"@.len() == 3); assert("currencies"@.len() == 10); assert("booking"@.len() == 7);
}
/// what is written of it is read as the same
proof fn close_back<'a>(a: Close<'a>, b: Close<'a>)
    requires plain_close(a), close_read(close_keyed(a), b) || reads::<Close<'a>>(tree::<Close<'a>>(&a), b),
    ensures same_close(a, b),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, close_linked};
    
}
/// and is not refused
proof fn close_taken<'a>(a: Close<'a>)
    requires plain_close(a),
    ensures close_kept(close_keyed(a)), kept::<Close<'a>>(tree::<Close<'a>>(&a)),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, close_linked};
    
}
/// what is written of it is read as the same
proof fn commodity_back<'a>(a: Commodity<'a>, b: Commodity<'a>)
    requires plain_commodity(a), commodity_read(commodity_keyed(a), b) || reads::<Commodity<'a>>(tree::<Commodity<'a>>(&a), b),
    ensures same_commodity(a, b),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, commodity_linked};
    
}
/// and is not refused
proof fn commodity_taken<'a>(a: Commodity<'a>)
    requires plain_commodity(a),
    ensures commodity_kept(commodity_keyed(a)), kept::<Commodity<'a>>(tree::<Commodity<'a>>(&a)),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, commodity_linked};
    
}
/// what is written of it is read as the same
proof fn pad_back<'a>(a: Pad<'a>, b: Pad<'a>)
    requires plain_pad(a), pad_read(pad_keyed(a), b) || reads::<Pad<'a>>(tree::<Pad<'a>>(&a), b),
    ensures same_pad(a, b),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, pad_linked};
    reveal_strlit("acc"); reveal_strlit("source");
assert("acc"@.len() == 3); assert("source"@.len() == 6);
}
/// and is not refused
proof fn pad_taken<'a>(a: Pad<'a>)
    requires plain_pad(a),
    ensures pad_kept(pad_keyed(a)), kept::<Pad<'a>>(tree::<Pad<'a>>(&a)),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, pad_linked};
    reveal_strlit("acc"); reveal_strlit("source");
assert("acc"@.len() == 3); assert("source"@.len() == 6);
}
/// what is written of it is read as the same
proof fn document_back<'a>(a: Document<'a>, b: Document<'a>)
    requires plain_document(a), document_read(document_keyed(a), b) || reads::<Document<'a>>(tree::<Document<'a>>(&a), b),
    ensures same_document(a, b),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, document_linked};
    reveal_strlit("acc"); reveal_strlit("path");
assert("acc"@.len() == 3); assert("path"@.len() == 4);
}
/// and is not refused
proof fn document_taken<'a>(a: Document<'a>)
    requires plain_document(a),
    ensures document_kept(document_keyed(a)), kept::<Document<'a>>(tree::<Document<'a>>(&a)),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, document_linked};
    reveal_strlit("acc"); reveal_strlit("path");
assert("acc"@.len() == 3); assert("path"@.len() == 4);
}
/// what is written of it is read as the same
proof fn note_back<'a>(a: Note<'a>, b: Note<'a>)
    requires plain_note(a), note_read(note_keyed(a), b) || reads::<Note<'a>>(tree::<Note<'a>>(&a), b),
    ensures same_note(a, b),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, note_linked};
    reveal_strlit("acc"); reveal_strlit("comment");
assert("acc"@.len() == 3); assert("comment"@.len() == 7);
}
/// and is not refused
proof fn note_taken<'a>(a: Note<'a>)
    requires plain_note(a),
    ensures note_kept(note_keyed(a)), kept::<Note<'a>>(tree::<Note<'a>>(&a)),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, note_linked};
    reveal_strlit("acc"); reveal_strlit("comment");
assert("acc"@.len() == 3); assert("comment"@.len() == 7);
}
/// what is written of it is read as the same
proof fn event_back<'a>(a: Event<'a>, b: Event<'a>)
    requires plain_event(a), event_read(event_keyed(a), b) || reads::<Event<'a>>(tree::<Event<'a>>(&a), b),
    ensures same_event(a, b),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, event_linked};
    reveal_strlit("type"); reveal_strlit("description");
assert("type"@.len() == 4); assert("description"@.len() == 11);
}
/// and is not refused
proof fn event_taken<'a>(a: Event<'a>)
    requires plain_event(a),
    ensures event_kept(event_keyed(a)), kept::<Event<'a>>(tree::<Event<'a>>(&a)),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, event_linked};
    reveal_strlit("type"); reveal_strlit("description");
assert("type"@.len() == 4); assert("description"@.len() == 11);
}
/// what is written of it is read as the same
proof fn query_back<'a>(a: Query<'a>, b: Query<'a>)
    requires plain_query(a), query_read(query_keyed(a), b) || reads::<Query<'a>>(tree::<Query<'a>>(&a), b),
    ensures same_query(a, b),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, query_linked};
    reveal_strlit("name"); reveal_strlit("content");
assert("name"@.len() == 4); assert("content"@.len() == 7);
}
/// and is not refused
proof fn query_taken<'a>(a: Query<'a>)
    requires plain_query(a),
    ensures query_kept(query_keyed(a)), kept::<Query<'a>>(tree::<Query<'a>>(&a)),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, query_linked};
    reveal_strlit("name"); reveal_strlit("content");
assert("name"@.len() == 4); assert("content"@.len() == 7);
}
/// what is written of it is read as the same
proof fn custom_back<'a>(a: Custom<'a>, b: Custom<'a>)
    requires plain_custom(a), custom_read(custom_keyed(a), b) || reads::<Custom<'a>>(tree::<Custom<'a>>(&a), b),
    ensures same_custom(a, b),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, custom_linked};
    reveal_strlit("type"); reveal_strlit("values");
assert("type"@.len() == 4); assert("values"@.len() == 6);
}
/// and is not refused
proof fn custom_taken<'a>(a: Custom<'a>)
    requires plain_custom(a),
    ensures custom_kept(custom_keyed(a)), kept::<Custom<'a>>(tree::<Custom<'a>>(&a)),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, custom_linked};
    reveal_strlit("type"); reveal_strlit("values");
assert("type"@.len() == 4); assert("values"@.len() == 6);
}
/// what is written of it is read as the same
proof fn cost_spec_back<'a>(a: CostSpec<'a>, b: CostSpec<'a>)
    requires plain_cost_spec(a), cost_spec_read(cost_spec_keyed(a), b) || reads::<CostSpec<'a>>(tree::<CostSpec<'a>>(&a), b),
    ensures same_cost_spec(a, b),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, cost_spec_linked};
    reveal_strlit("per-unit"); reveal_strlit("total"); reveal_strlit("cur"); reveal_strlit("date"); reveal_strlit("label"); reveal_strlit("merge");
assert("per-unit"@.len() == 8); assert("total"@.len() == 5); assert("cur"@.len() == 3); assert("date"@.len() == 4); assert("label"@.len() == 5); assert("merge"@.len() == 5);
assert("label"@[0] == 'l'); assert("merge"@[0] == 'm'); assert("total"@[0] == 't');
}
/// and is not refused
proof fn cost_spec_taken<'a>(a: CostSpec<'a>)
    requires plain_cost_spec(a),
    ensures cost_spec_kept(cost_spec_keyed(a)), kept::<CostSpec<'a>>(tree::<CostSpec<'a>>(&a)),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, cost_spec_linked};
    reveal_strlit("per-unit"); reveal_strlit("total"); reveal_strlit("cur"); reveal_strlit("date"); reveal_strlit("label"); reveal_strlit("merge");
assert("per-unit"@.len() == 8); assert("total"@.len() == 5); assert("cur"@.len() == 3); assert("date"@.len() == 4); assert("label"@.len() == 5); assert("merge"@.len() == 5);
assert("label"@[0] == 'l'); assert("merge"@[0] == 'm'); assert("total"@[0] == 't');
}
/// what is written of it is read as the same
proof fn price_spec_back<'a>(a: PriceSpec<'a>, b: PriceSpec<'a>)
    requires plain_price_spec(a), price_spec_read(price_spec_keyed(a), b) || reads::<PriceSpec<'a>>(tree::<PriceSpec<'a>>(&a), b),
    ensures same_price_spec(a, b),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, price_spec_linked};
    reveal_strlit("per-unit"); reveal_strlit("total"); reveal_strlit("cur");
assert("per-unit"@.len() == 8); assert("total"@.len() == 5); assert("cur"@.len() == 3);
}
/// and is not refused
proof fn price_spec_taken<'a>(a: PriceSpec<'a>)
    requires plain_price_spec(a),
    ensures price_spec_kept(price_spec_keyed(a)), kept::<PriceSpec<'a>>(tree::<PriceSpec<'a>>(&a)),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, price_spec_linked};
    reveal_strlit("per-unit"); reveal_strlit("total"); reveal_strlit("cur");
assert("per-unit"@.len() == 8); assert("total"@.len() == 5); assert("cur"@.len() == 3);
}
/// what is written of it is read as the same
proof fn posting_spec_back<'a>(a: PostingSpec<'a>, b: PostingSpec<'a>)
    requires plain_posting_spec(a), posting_spec_read(posting_spec_keyed(a), b) || reads::<PostingSpec<'a>>(tree::<PostingSpec<'a>>(&a), b),
    ensures same_posting_spec(a, b),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, cost_spec_linked, price_spec_linked, posting_spec_linked};
    reveal_strlit("span"); reveal_strlit("flag"); reveal_strlit("acc"); reveal_strlit("units"); reveal_strlit("cur"); reveal_strlit("cost-spec"); reveal_strlit("price-spec"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("span"@.len() == 4); assert("flag"@.len() == 4); assert("acc"@.len() == 3); assert("units"@.len() == 5); assert("cur"@.len() == 3); assert("cost-spec"@.len() == 9); assert("price-spec"@.len() == 10); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("acc"@[0] == 'a'); assert("cur"@[0] == 'c'); assert("flag"@[0] == 'f'); assert("links"@[0] == 'l'); assert("span"@[0] == 's'); assert("tags"@[0] == 't'); assert("units"@[0] == 'u');
    assert forall|x: CostSpec<'a>, y: CostSpec<'a>| plain_cost_spec(x) && #[trigger] reads::<CostSpec<'a>>(tree::<CostSpec<'a>>(&x), y) implies same_cost_spec(x, y) by { cost_spec_back(x, y); }
    assert forall|x: PriceSpec<'a>, y: PriceSpec<'a>| plain_price_spec(x) && #[trigger] reads::<PriceSpec<'a>>(tree::<PriceSpec<'a>>(&x), y) implies same_price_spec(x, y) by { price_spec_back(x, y); }
}
/// and is not refused
proof fn posting_spec_taken<'a>(a: PostingSpec<'a>)
    requires plain_posting_spec(a),
    ensures posting_spec_kept(posting_spec_keyed(a)), kept::<PostingSpec<'a>>(tree::<PostingSpec<'a>>(&a)),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, cost_spec_linked, price_spec_linked, posting_spec_linked};
    reveal_strlit("span"); reveal_strlit("flag"); reveal_strlit("acc"); reveal_strlit("units"); reveal_strlit("cur"); reveal_strlit("cost-spec"); reveal_strlit("price-spec"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("span"@.len() == 4); assert("flag"@.len() == 4); assert("acc"@.len() == 3); assert("units"@.len() == 5); assert("cur"@.len() == 3); assert("cost-spec"@.len() == 9); assert("price-spec"@.len() == 10); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("acc"@[0] == 'a'); assert("cur"@[0] == 'c'); assert("flag"@[0] == 'f'); assert("links"@[0] == 'l'); assert("span"@[0] == 's'); assert("tags"@[0] == 't'); assert("units"@[0] == 'u');
    assert forall|x: CostSpec<'a>| plain_cost_spec(x) implies kept::<CostSpec<'a>>(#[trigger] tree::<CostSpec<'a>>(&x)) by { cost_spec_taken(x); }
    assert forall|x: PriceSpec<'a>| plain_price_spec(x) implies kept::<PriceSpec<'a>>(#[trigger] tree::<PriceSpec<'a>>(&x)) by { price_spec_taken(x); }
}
/// what is written of it is read as the same
proof fn transaction_back<'a>(a: Transaction<'a>, b: Transaction<'a>)
    requires plain_transaction(a), transaction_read(transaction_keyed(a), b) || reads::<Transaction<'a>>(tree::<Transaction<'a>>(&a), b),
    ensures same_transaction(a, b),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, posting_spec_linked, transaction_linked};
    reveal_strlit("flag"); reveal_strlit("payee"); reveal_strlit("narration"); reveal_strlit("postings");
assert("flag"@.len() == 4); assert("payee"@.len() == 5); assert("narration"@.len() == 9); assert("postings"@.len() == 8);
    assert forall|x: PostingSpec<'a>, y: PostingSpec<'a>| plain_posting_spec(x) && #[trigger] reads::<PostingSpec<'a>>(tree::<PostingSpec<'a>>(&x), y) implies same_posting_spec(x, y) by { posting_spec_back(x, y); }
}
/// and is not refused
proof fn transaction_taken<'a>(a: Transaction<'a>)
    requires plain_transaction(a),
    ensures transaction_kept(transaction_keyed(a)), kept::<Transaction<'a>>(tree::<Transaction<'a>>(&a)),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, posting_spec_linked, transaction_linked};
    reveal_strlit("flag"); reveal_strlit("payee"); reveal_strlit("narration"); reveal_strlit("postings");
assert("flag"@.len() == 4); assert("payee"@.len() == 5); assert("narration"@.len() == 9); assert("postings"@.len() == 8);
    assert forall|x: PostingSpec<'a>| plain_posting_spec(x) implies kept::<PostingSpec<'a>>(#[trigger] tree::<PostingSpec<'a>>(&x)) by { posting_spec_taken(x); }
}
/// none of its names is one of a directive's
proof fn transaction_apart<'a>(x: Transaction<'a>)
    ensures !transaction_keyed(x).contains_key("dct"@), !transaction_keyed(x).contains_key("span"@), !transaction_keyed(x).contains_key("date"@), !transaction_keyed(x).contains_key("tags"@), !transaction_keyed(x).contains_key("links"@), !transaction_keyed(x).contains_key("metadata"@),
{
    reveal_strlit("flag"); reveal_strlit("payee"); reveal_strlit("narration"); reveal_strlit("postings"); reveal_strlit("dct"); reveal_strlit("span"); reveal_strlit("date"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("flag"@.len() == 4); assert("payee"@.len() == 5); assert("narration"@.len() == 9); assert("postings"@.len() == 8); assert("dct"@.len() == 3); assert("span"@.len() == 4); assert("date"@.len() == 4); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("date"@[0] == 'd'); assert("flag"@[0] == 'f'); assert("links"@[0] == 'l'); assert("metadata"@[0] == 'm'); assert("payee"@[0] == 'p'); assert("postings"@[0] == 'p'); assert("span"@[0] == 's'); assert("tags"@[0] == 't');
}
/// none of its names is one of a directive's
proof fn price_dct_apart<'a>(x: PriceDct<'a>)
    ensures !price_dct_keyed(x).contains_key("dct"@), !price_dct_keyed(x).contains_key("span"@), !price_dct_keyed(x).contains_key("date"@), !price_dct_keyed(x).contains_key("tags"@), !price_dct_keyed(x).contains_key("links"@), !price_dct_keyed(x).contains_key("metadata"@),
{
    reveal_strlit("cur"); reveal_strlit("price"); reveal_strlit("dct"); reveal_strlit("span"); reveal_strlit("date"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("cur"@.len() == 3); assert("price"@.len() == 5); assert("dct"@.len() == 3); assert("span"@.len() == 4); assert("date"@.len() == 4); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("cur"@[0] == 'c'); assert("date"@[0] == 'd'); assert("dct"@[0] == 'd'); assert("links"@[0] == 'l'); assert("price"@[0] == 'p'); assert("span"@[0] == 's'); assert("tags"@[0] == 't');
}
/// none of its names is one of a directive's
proof fn balance_apart<'a>(x: Balance<'a>)
    ensures !balance_keyed(x).contains_key("dct"@), !balance_keyed(x).contains_key("span"@), !balance_keyed(x).contains_key("date"@), !balance_keyed(x).contains_key("tags"@), !balance_keyed(x).contains_key("links"@), !balance_keyed(x).contains_key("metadata"@),
{
    reveal_strlit("acc"); reveal_strlit("units"); reveal_strlit("cur"); reveal_strlit("tolerance"); reveal_strlit("dct"); reveal_strlit("span"); reveal_strlit("date"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("acc"@.len() == 3); assert("units"@.len() == 5); assert("cur"@.len() == 3); assert("tolerance"@.len() == 9); assert("dct"@.len() == 3); assert("span"@.len() == 4); assert("date"@.len() == 4); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("acc"@[0] == 'a'); assert("cur"@[0] == 'c'); assert("date"@[0] == 'd'); assert("dct"@[0] == 'd'); assert("links"@[0] == 'l'); assert("span"@[0] == 's'); assert("tags"@[0] == 't'); assert("units"@[0] == 'u');
}
/// none of its names is one of a directive's
proof fn open_apart<'a>(x: Open<'a>)
    ensures !open_keyed(x).contains_key("dct"@), !open_keyed(x).contains_key("span"@), !open_keyed(x).contains_key("date"@), !open_keyed(x).contains_key("tags"@), !open_keyed(x).contains_key("links"@), !open_keyed(x).contains_key("metadata"@),
{
    reveal_strlit("acc"); reveal_strlit("currencies"); reveal_strlit("booking"); reveal_strlit("dct"); reveal_strlit("span"); reveal_strlit("date"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("acc"@.len() == 3); assert("currencies"@.len() == 10); assert("booking"@.len() == 7); assert("dct"@.len() == 3); assert("span"@.len() == 4); assert("date"@.len() == 4); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("acc"@[0] == 'a'); assert("date"@[0] == 'd'); assert("dct"@[0] == 'd'); assert("span"@[0] == 's'); assert("tags"@[0] == 't');
}
/// none of its names is one of a directive's
proof fn close_apart<'a>(x: Close<'a>)
    ensures !close_keyed(x).contains_key("dct"@), !close_keyed(x).contains_key("span"@), !close_keyed(x).contains_key("date"@), !close_keyed(x).contains_key("tags"@), !close_keyed(x).contains_key("links"@), !close_keyed(x).contains_key("metadata"@),
{
    reveal_strlit("acc"); reveal_strlit("dct"); reveal_strlit("span"); reveal_strlit("date"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("acc"@.len() == 3); assert("dct"@.len() == 3); assert("span"@.len() == 4); assert("date"@.len() == 4); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("acc"@[0] == 'a'); assert("date"@[0] == 'd'); assert("dct"@[0] == 'd'); assert("span"@[0] == 's'); assert("tags"@[0] == 't');
}
/// none of its names is one of a directive's
proof fn commodity_apart<'a>(x: Commodity<'a>)
    ensures !commodity_keyed(x).contains_key("dct"@), !commodity_keyed(x).contains_key("span"@), !commodity_keyed(x).contains_key("date"@), !commodity_keyed(x).contains_key("tags"@), !commodity_keyed(x).contains_key("links"@), !commodity_keyed(x).contains_key("metadata"@),
{
    reveal_strlit("cur"); reveal_strlit("dct"); reveal_strlit("span"); reveal_strlit("date"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("cur"@.len() == 3); assert("dct"@.len() == 3); assert("span"@.len() == 4); assert("date"@.len() == 4); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("cur"@[0] == 'c'); assert("date"@[0] == 'd'); assert("dct"@[0] == 'd'); assert("span"@[0] == 's'); assert("tags"@[0] == 't');
}
/// none of its names is one of a directive's
proof fn pad_apart<'a>(x: Pad<'a>)
    ensures !pad_keyed(x).contains_key("dct"@), !pad_keyed(x).contains_key("span"@), !pad_keyed(x).contains_key("date"@), !pad_keyed(x).contains_key("tags"@), !pad_keyed(x).contains_key("links"@), !pad_keyed(x).contains_key("metadata"@),
{
    reveal_strlit("acc"); reveal_strlit("source"); reveal_strlit("dct"); reveal_strlit("span"); reveal_strlit("date"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("acc"@.len() == 3); assert("source"@.len() == 6); assert("dct"@.len() == 3); assert("span"@.len() == 4); assert("date"@.len() == 4); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("acc"@[0] == 'a'); assert("date"@[0] == 'd'); assert("dct"@[0] == 'd'); assert("span"@[0] == 's'); assert("tags"@[0] == 't');
}
/// none of its names is one of a directive's
proof fn document_apart<'a>(x: Document<'a>)
    ensures !document_keyed(x).contains_key("dct"@), !document_keyed(x).contains_key("span"@), !document_keyed(x).contains_key("date"@), !document_keyed(x).contains_key("tags"@), !document_keyed(x).contains_key("links"@), !document_keyed(x).contains_key("metadata"@),
{
    reveal_strlit("acc"); reveal_strlit("path"); reveal_strlit("dct"); reveal_strlit("span"); reveal_strlit("date"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("acc"@.len() == 3); assert("path"@.len() == 4); assert("dct"@.len() == 3); assert("span"@.len() == 4); assert("date"@.len() == 4); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("acc"@[0] == 'a'); assert("date"@[0] == 'd'); assert("dct"@[0] == 'd'); assert("path"@[0] == 'p'); assert("span"@[0] == 's'); assert("tags"@[0] == 't');
}
/// none of its names is one of a directive's
proof fn note_apart<'a>(x: Note<'a>)
    ensures !note_keyed(x).contains_key("dct"@), !note_keyed(x).contains_key("span"@), !note_keyed(x).contains_key("date"@), !note_keyed(x).contains_key("tags"@), !note_keyed(x).contains_key("links"@), !note_keyed(x).contains_key("metadata"@),
{
    reveal_strlit("acc"); reveal_strlit("comment"); reveal_strlit("dct"); reveal_strlit("span"); reveal_strlit("date"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("acc"@.len() == 3); assert("comment"@.len() == 7); assert("dct"@.len() == 3); assert("span"@.len() == 4); assert("date"@.len() == 4); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("acc"@[0] == 'a'); assert("date"@[0] == 'd'); assert("dct"@[0] == 'd'); assert("span"@[0] == 's'); assert("tags"@[0] == 't');
}
/// none of its names is one of a directive's
proof fn event_apart<'a>(x: Event<'a>)
    ensures !event_keyed(x).contains_key("dct"@), !event_keyed(x).contains_key("span"@), !event_keyed(x).contains_key("date"@), !event_keyed(x).contains_key("tags"@), !event_keyed(x).contains_key("links"@), !event_keyed(x).contains_key("metadata"@),
{
    reveal_strlit("type"); reveal_strlit("description"); reveal_strlit("dct"); reveal_strlit("span"); reveal_strlit("date"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("type"@.len() == 4); assert("description"@.len() == 11); assert("dct"@.len() == 3); assert("span"@.len() == 4); assert("date"@.len() == 4); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("date"@[0] == 'd'); assert("span"@[0] == 's'); assert("tags"@[0] == 't'); assert("tags"@[1] == 'a'); assert("type"@[0] == 't'); assert("type"@[1] == 'y');
}
/// none of its names is one of a directive's
proof fn query_apart<'a>(x: Query<'a>)
    ensures !query_keyed(x).contains_key("dct"@), !query_keyed(x).contains_key("span"@), !query_keyed(x).contains_key("date"@), !query_keyed(x).contains_key("tags"@), !query_keyed(x).contains_key("links"@), !query_keyed(x).contains_key("metadata"@),
{
    reveal_strlit("name"); reveal_strlit("content"); reveal_strlit("dct"); reveal_strlit("span"); reveal_strlit("date"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("name"@.len() == 4); assert("content"@.len() == 7); assert("dct"@.len() == 3); assert("span"@.len() == 4); assert("date"@.len() == 4); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("date"@[0] == 'd'); assert("name"@[0] == 'n'); assert("span"@[0] == 's'); assert("tags"@[0] == 't');
}
/// none of its names is one of a directive's
proof fn custom_apart<'a>(x: Custom<'a>)
    ensures !custom_keyed(x).contains_key("dct"@), !custom_keyed(x).contains_key("span"@), !custom_keyed(x).contains_key("date"@), !custom_keyed(x).contains_key("tags"@), !custom_keyed(x).contains_key("links"@), !custom_keyed(x).contains_key("metadata"@),
{
    reveal_strlit("type"); reveal_strlit("values"); reveal_strlit("dct"); reveal_strlit("span"); reveal_strlit("date"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("type"@.len() == 4); assert("values"@.len() == 6); assert("dct"@.len() == 3); assert("span"@.len() == 4); assert("date"@.len() == 4); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("date"@[0] == 'd'); assert("span"@[0] == 's'); assert("tags"@[0] == 't'); assert("tags"@[1] == 'a'); assert("type"@[0] == 't'); assert("type"@[1] == 'y');
}
proof fn directive_variant_apart<'a>(v: DirectiveVariant<'a>)
    ensures !directive_variant_keyed(v).contains_key("span"@), !directive_variant_keyed(v).contains_key("date"@), !directive_variant_keyed(v).contains_key("tags"@), !directive_variant_keyed(v).contains_key("links"@), !directive_variant_keyed(v).contains_key("metadata"@),
{
    broadcast use {balance_linked, close_linked, commodity_linked, custom_linked, document_linked, event_linked, note_linked, open_linked, pad_linked, price_dct_linked, query_linked, transaction_linked, directive_variant_linked};
    reveal_strlit("dct"); reveal_strlit("span"); reveal_strlit("date"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("dct"@.len() == 3); assert("span"@.len() == 4); assert("date"@.len() == 4); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("date"@[0] == 'd'); assert("span"@[0] == 's'); assert("tags"@[0] == 't');
    match v {
        DirectiveVariant::Transaction(x) => transaction_apart(x),
        DirectiveVariant::Price(x) => price_dct_apart(x),
        DirectiveVariant::Balance(x) => balance_apart(x),
        DirectiveVariant::Open(x) => open_apart(x),
        DirectiveVariant::Close(x) => close_apart(x),
        DirectiveVariant::Commodity(x) => commodity_apart(x),
        DirectiveVariant::Pad(x) => pad_apart(x),
        DirectiveVariant::Document(x) => document_apart(x),
        DirectiveVariant::Note(x) => note_apart(x),
        DirectiveVariant::Event(x) => event_apart(x),
        DirectiveVariant::Query(x) => query_apart(x),
        DirectiveVariant::Custom(x) => custom_apart(x),
    }
}
proof fn directive_variant_back<'a>(a: DirectiveVariant<'a>, b: DirectiveVariant<'a>)
    requires plain_directive_variant(a), directive_variant_read(directive_variant_keyed(a), b),
    ensures same_directive_variant(a, b),
{
    broadcast use {balance_linked, close_linked, commodity_linked, custom_linked, document_linked, event_linked, note_linked, open_linked, pad_linked, price_dct_linked, query_linked, transaction_linked, directive_variant_linked};
    reveal_strlit("txn"); reveal_strlit("price"); reveal_strlit("balance"); reveal_strlit("open"); reveal_strlit("close"); reveal_strlit("commodity"); reveal_strlit("pad"); reveal_strlit("document"); reveal_strlit("note"); reveal_strlit("event"); reveal_strlit("query"); reveal_strlit("custom");
assert("txn"@.len() == 3); assert("price"@.len() == 5); assert("balance"@.len() == 7); assert("open"@.len() == 4); assert("close"@.len() == 5); assert("commodity"@.len() == 9); assert("pad"@.len() == 3); assert("document"@.len() == 8); assert("note"@.len() == 4); assert("event"@.len() == 5); assert("query"@.len() == 5); assert("custom"@.len() == 6);
assert("close"@[0] == 'c'); assert("event"@[0] == 'e'); assert("note"@[0] == 'n'); assert("open"@[0] == 'o'); assert("pad"@[0] == 'p'); assert("price"@[0] == 'p'); assert("query"@[0] == 'q'); assert("txn"@[0] == 't');
    let m = directive_variant_keyed(a);
    match (a, b) {
        (DirectiveVariant::Transaction(x), DirectiveVariant::Transaction(y)) => { transaction_apart(x); assert(m.remove("dct"@) =~= transaction_keyed(x)); transaction_back(x, y); }
        (DirectiveVariant::Price(x), DirectiveVariant::Price(y)) => { price_dct_apart(x); assert(m.remove("dct"@) =~= price_dct_keyed(x)); price_dct_back(x, y); }
        (DirectiveVariant::Balance(x), DirectiveVariant::Balance(y)) => { balance_apart(x); assert(m.remove("dct"@) =~= balance_keyed(x)); balance_back(x, y); }
        (DirectiveVariant::Open(x), DirectiveVariant::Open(y)) => { open_apart(x); assert(m.remove("dct"@) =~= open_keyed(x)); open_back(x, y); }
        (DirectiveVariant::Close(x), DirectiveVariant::Close(y)) => { close_apart(x); assert(m.remove("dct"@) =~= close_keyed(x)); close_back(x, y); }
        (DirectiveVariant::Commodity(x), DirectiveVariant::Commodity(y)) => { commodity_apart(x); assert(m.remove("dct"@) =~= commodity_keyed(x)); commodity_back(x, y); }
        (DirectiveVariant::Pad(x), DirectiveVariant::Pad(y)) => { pad_apart(x); assert(m.remove("dct"@) =~= pad_keyed(x)); pad_back(x, y); }
        (DirectiveVariant::Document(x), DirectiveVariant::Document(y)) => { document_apart(x); assert(m.remove("dct"@) =~= document_keyed(x)); document_back(x, y); }
        (DirectiveVariant::Note(x), DirectiveVariant::Note(y)) => { note_apart(x); assert(m.remove("dct"@) =~= note_keyed(x)); note_back(x, y); }
        (DirectiveVariant::Event(x), DirectiveVariant::Event(y)) => { event_apart(x); assert(m.remove("dct"@) =~= event_keyed(x)); event_back(x, y); }
        (DirectiveVariant::Query(x), DirectiveVariant::Query(y)) => { query_apart(x); assert(m.remove("dct"@) =~= query_keyed(x)); query_back(x, y); }
        (DirectiveVariant::Custom(x), DirectiveVariant::Custom(y)) => { custom_apart(x); assert(m.remove("dct"@) =~= custom_keyed(x)); custom_back(x, y); }
        _ => { assert(false); }
    }
}
proof fn directive_variant_taken<'a>(a: DirectiveVariant<'a>)
    requires plain_directive_variant(a),
    ensures directive_variant_kept(directive_variant_keyed(a)),
{
    broadcast use {balance_linked, close_linked, commodity_linked, custom_linked, document_linked, event_linked, note_linked, open_linked, pad_linked, price_dct_linked, query_linked, transaction_linked, directive_variant_linked};
    let m = directive_variant_keyed(a);
    match a {
        DirectiveVariant::Transaction(x) => { transaction_apart(x); assert(m.remove("dct"@) =~= transaction_keyed(x)); transaction_taken(x); }
        DirectiveVariant::Price(x) => { price_dct_apart(x); assert(m.remove("dct"@) =~= price_dct_keyed(x)); price_dct_taken(x); }
        DirectiveVariant::Balance(x) => { balance_apart(x); assert(m.remove("dct"@) =~= balance_keyed(x)); balance_taken(x); }
        DirectiveVariant::Open(x) => { open_apart(x); assert(m.remove("dct"@) =~= open_keyed(x)); open_taken(x); }
        DirectiveVariant::Close(x) => { close_apart(x); assert(m.remove("dct"@) =~= close_keyed(x)); close_taken(x); }
        DirectiveVariant::Commodity(x) => { commodity_apart(x); assert(m.remove("dct"@) =~= commodity_keyed(x)); commodity_taken(x); }
        DirectiveVariant::Pad(x) => { pad_apart(x); assert(m.remove("dct"@) =~= pad_keyed(x)); pad_taken(x); }
        DirectiveVariant::Document(x) => { document_apart(x); assert(m.remove("dct"@) =~= document_keyed(x)); document_taken(x); }
        DirectiveVariant::Note(x) => { note_apart(x); assert(m.remove("dct"@) =~= note_keyed(x)); note_taken(x); }
        DirectiveVariant::Event(x) => { event_apart(x); assert(m.remove("dct"@) =~= event_keyed(x)); event_taken(x); }
        DirectiveVariant::Query(x) => { query_apart(x); assert(m.remove("dct"@) =~= query_keyed(x)); query_taken(x); }
        DirectiveVariant::Custom(x) => { custom_apart(x); assert(m.remove("dct"@) =~= custom_keyed(x)); custom_taken(x); }
    }
}
/// a directive is read as it was written
proof fn directive_back<'a>(a: Directive<'a>, b: Directive<'a>)
    requires plain_directive(a), directive_read(directive_keyed(a), b) || reads::<Directive<'a>>(tree::<Directive<'a>>(&a), b),
    ensures same_directive(a, b),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, directive_linked, directive_variant_linked};
    reveal_strlit("span"); reveal_strlit("date"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("span"@.len() == 4); assert("date"@.len() == 4); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("date"@[0] == 'd'); assert("span"@[0] == 's'); assert("tags"@[0] == 't');
    directive_variant_apart(a.variant);
    assert(directive_others(directive_keyed(a)) =~= directive_variant_keyed(a.variant));
    directive_variant_back(a.variant, b.variant);
}
proof fn directive_taken<'a>(a: Directive<'a>)
    requires plain_directive(a),
    ensures directive_kept(directive_keyed(a)), kept::<Directive<'a>>(tree::<Directive<'a>>(&a)),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, directive_linked, directive_variant_linked};
    reveal_strlit("span"); reveal_strlit("date"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("span"@.len() == 4); assert("date"@.len() == 4); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("date"@[0] == 'd'); assert("span"@[0] == 's'); assert("tags"@[0] == 't');
    directive_variant_apart(a.variant);
    assert(directive_others(directive_keyed(a)) =~= directive_variant_keyed(a.variant));
    directive_variant_taken(a.variant);
}
/// and a ledger's worth of them
proof fn directives_back<'a>(a: Vec<Directive<'a>>, b: Vec<Directive<'a>>)
    requires forall|i: int| 0 <= i < a@.len() ==> plain_directive(#[trigger] a@[i]), reads::<Vec<Directive<'a>>>(tree::<Vec<Directive<'a>>>(&a), b),
    ensures a@.len() == b@.len(), forall|i: int| 0 <= i < a@.len() ==> same_directive(#[trigger] a@[i], b@[i]),
{
    broadcast use crate::se::gathering;
    assert forall|i: int| 0 <= i < a@.len() implies same_directive(#[trigger] a@[i], b@[i]) by { directive_back(a@[i], b@[i]); }
}
proof fn directives_taken<'a>(a: Vec<Directive<'a>>)
    requires forall|i: int| 0 <= i < a@.len() ==> plain_directive(#[trigger] a@[i]),
    ensures kept::<Vec<Directive<'a>>>(tree::<Vec<Directive<'a>>>(&a)),
{
    broadcast use crate::se::gathering;
    assert forall|x: Directive<'a>| plain_directive(x) implies kept::<Directive<'a>>(#[trigger] tree::<Directive<'a>>(&x)) by { directive_taken(x); }
}
}
@fn directive_out(this, __serializer) : C15 C16
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= directive_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("span"); reveal_strlit("date"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("span"@.len() == 4); assert("date"@.len() == 4); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("date"@[0] == 'd'); assert("span"@[0] == 's'); assert("tags"@[0] == 't');
@fn directive_variant_out(this, __serializer) : C15 C16
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= directive_variant_keyed(*this)
@start
broadcast use crate::se::writing;
@fn transaction_out(this, __serializer) : C15 C16
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= transaction_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("flag"); reveal_strlit("payee"); reveal_strlit("narration"); reveal_strlit("postings");
assert("flag"@.len() == 4); assert("payee"@.len() == 5); assert("narration"@.len() == 9); assert("postings"@.len() == 8);
@fn price_dct_out(this, __serializer) : C15 C16
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= price_dct_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("cur"); reveal_strlit("price");
assert("cur"@.len() == 3); assert("price"@.len() == 5);
@fn balance_out(this, __serializer) : C15 C16 C03
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= balance_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("acc"); reveal_strlit("units"); reveal_strlit("cur"); reveal_strlit("tolerance");
assert("acc"@.len() == 3); assert("units"@.len() == 5); assert("cur"@.len() == 3); assert("tolerance"@.len() == 9);
assert("acc"@[0] == 'a'); assert("cur"@[0] == 'c');
@fn open_out(this, __serializer) : C15 C16
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= open_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("acc"); reveal_strlit("currencies"); reveal_strlit("booking");
assert("acc"@.len() == 3); assert("currencies"@.len() == 10); assert("booking"@.len() == 7);
@fn close_out(this, __serializer) : C15 C16
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= close_keyed(*this)
@start
broadcast use crate::se::writing;

@fn commodity_out(this, __serializer) : C15 C16
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= commodity_keyed(*this)
@start
broadcast use crate::se::writing;

@fn pad_out(this, __serializer) : C15 C16
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= pad_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("acc"); reveal_strlit("source");
assert("acc"@.len() == 3); assert("source"@.len() == 6);
@fn document_out(this, __serializer) : C15 C16
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= document_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("acc"); reveal_strlit("path");
assert("acc"@.len() == 3); assert("path"@.len() == 4);
@fn note_out(this, __serializer) : C15 C16
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= note_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("acc"); reveal_strlit("comment");
assert("acc"@.len() == 3); assert("comment"@.len() == 7);
@fn event_out(this, __serializer) : C15 C16
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= event_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("type"); reveal_strlit("description");
assert("type"@.len() == 4); assert("description"@.len() == 11);
@fn query_out(this, __serializer) : C15 C16
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= query_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("name"); reveal_strlit("content");
assert("name"@.len() == 4); assert("content"@.len() == 7);
@fn custom_out(this, __serializer) : C15 C16
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= custom_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("type"); reveal_strlit("values");
assert("type"@.len() == 4); assert("values"@.len() == 6);
@fn posting_spec_out(this, __serializer) : C15 C16
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= posting_spec_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("span"); reveal_strlit("flag"); reveal_strlit("acc"); reveal_strlit("units"); reveal_strlit("cur"); reveal_strlit("cost-spec"); reveal_strlit("price-spec"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("span"@.len() == 4); assert("flag"@.len() == 4); assert("acc"@.len() == 3); assert("units"@.len() == 5); assert("cur"@.len() == 3); assert("cost-spec"@.len() == 9); assert("price-spec"@.len() == 10); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("acc"@[0] == 'a'); assert("cur"@[0] == 'c'); assert("flag"@[0] == 'f'); assert("links"@[0] == 'l'); assert("span"@[0] == 's'); assert("tags"@[0] == 't'); assert("units"@[0] == 'u');
@fn cost_spec_out(this, __serializer) : C15 C16
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= cost_spec_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("per-unit"); reveal_strlit("total"); reveal_strlit("cur"); reveal_strlit("date"); reveal_strlit("label"); reveal_strlit("merge");
assert("per-unit"@.len() == 8); assert("total"@.len() == 5); assert("cur"@.len() == 3); assert("date"@.len() == 4); assert("label"@.len() == 5); assert("merge"@.len() == 5);
assert("label"@[0] == 'l'); assert("merge"@[0] == 'm'); assert("total"@[0] == 't');
@fn price_spec_out(this, __serializer) : C15 C16
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= price_spec_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("per-unit"); reveal_strlit("total"); reveal_strlit("cur");
assert("per-unit"@.len() == 8); assert("total"@.len() == 5); assert("cur"@.len() == 3);
@fn price_out(this, __serializer) : C15 C16
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= price_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("per-unit"); reveal_strlit("total"); reveal_strlit("cur");
assert("per-unit"@.len() == 8); assert("total"@.len() == 5); assert("cur"@.len() == 3);
@fn options_out(this, __serializer) : C15
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= options_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("name-assets"); reveal_strlit("name-liabilities"); reveal_strlit("name-equity"); reveal_strlit("name-income"); reveal_strlit("name-expenses"); reveal_strlit("title"); reveal_strlit("account-previous-balances"); reveal_strlit("account-previous-earnings"); reveal_strlit("account-previous-conversions"); reveal_strlit("account-current-earnings"); reveal_strlit("account-current-conversions"); reveal_strlit("account-unrealized-gains"); reveal_strlit("account-rounding"); reveal_strlit("conversion-currency"); reveal_strlit("inferred-tolerance-default"); reveal_strlit("inferred-tolerance-default-fallback"); reveal_strlit("inferred-tolerance-multiplier"); reveal_strlit("infer-tolerance-from-cost"); reveal_strlit("documents"); reveal_strlit("operating-currency"); reveal_strlit("render-commas"); reveal_strlit("booking-method"); reveal_strlit("plugin-processing-mode");
assert("name-assets"@.len() == 11); assert("name-liabilities"@.len() == 16); assert("name-equity"@.len() == 11); assert("name-income"@.len() == 11); assert("name-expenses"@.len() == 13); assert("title"@.len() == 5); assert("account-previous-balances"@.len() == 25); assert("account-previous-earnings"@.len() == 25); assert("account-previous-conversions"@.len() == 28); assert("account-current-earnings"@.len() == 24); assert("account-current-conversions"@.len() == 27); assert("account-unrealized-gains"@.len() == 24); assert("account-rounding"@.len() == 16); assert("conversion-currency"@.len() == 19); assert("inferred-tolerance-default"@.len() == 26); assert("inferred-tolerance-default-fallback"@.len() == 35); assert("inferred-tolerance-multiplier"@.len() == 29); assert("infer-tolerance-from-cost"@.len() == 25); assert("documents"@.len() == 9); assert("operating-currency"@.len() == 18); assert("render-commas"@.len() == 13); assert("booking-method"@.len() == 14); assert("plugin-processing-mode"@.len() == 22);
assert("account-current-earnings"@[8] == 'c'); assert("account-previous-balances"@[0] == 'a'); assert("account-previous-balances"@[17] == 'b'); assert("account-previous-earnings"@[0] == 'a'); assert("account-previous-earnings"@[17] == 'e'); assert("account-rounding"@[0] == 'a'); assert("account-unrealized-gains"@[8] == 'u'); assert("infer-tolerance-from-cost"@[0] == 'i'); assert("name-assets"@[5] == 'a'); assert("name-equity"@[5] == 'e'); assert("name-expenses"@[0] == 'n'); assert("name-income"@[5] == 'i'); assert("name-liabilities"@[0] == 'n'); assert("render-commas"@[0] == 'r');
@fn booking_out(this, __serializer) : C15 C16
r => ensures r matches Ok(o) ==> put(o) == booking_written(*this)
@start
broadcast use crate::se::writing;
@fn plugin_processing_mode_out(this, __serializer) : C15
r => ensures r matches Ok(o) ==> put(o) == plugin_processing_mode_written(*this)
@start
broadcast use crate::se::writing;
@fn spanned_source_out(this, __serializer) : C18
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= spanned_source_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("file-name"); reveal_strlit("start-line"); reveal_strlit("end-line"); reveal_strlit("content");
assert("file-name"@.len() == 9); assert("start-line"@.len() == 10); assert("end-line"@.len() == 8); assert("content"@.len() == 7);
@fn price_in(__given) : C16
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => price_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !price_kept(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, price_in_names};
reveal_strlit("per-unit"); reveal_strlit("total"); reveal_strlit("cur");
assert("per-unit"@.len() == 8); assert("total"@.len() == 5); assert("cur"@.len() == 3);
assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "per-unit", f_per_unit),
    held(so_far(all, rest(&__map)), "total", f_total),
    held(so_far(all, rest(&__map)), "cur", f_cur),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, price_in_names};
reveal_strlit("per-unit"); reveal_strlit("total"); reveal_strlit("cur");
assert("per-unit"@.len() == 8); assert("total"@.len() == 5); assert("cur"@.len() == 3);
step(all, rest(&__map));
@fn price_dct_in(__given) : C16
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => price_dct_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !price_dct_kept(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, price_dct_in_names, price_unsaid};
reveal_strlit("cur"); reveal_strlit("price");
assert("cur"@.len() == 3); assert("price"@.len() == 5);
assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "cur", f_cur),
    held(so_far(all, rest(&__map)), "price", f_price),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, price_dct_in_names};
reveal_strlit("cur"); reveal_strlit("price");
assert("cur"@.len() == 3); assert("price"@.len() == 5);
step(all, rest(&__map));
@fn balance_in(__given) : C16
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => balance_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !balance_kept(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, balance_in_names};
reveal_strlit("acc"); reveal_strlit("units"); reveal_strlit("cur"); reveal_strlit("tolerance");
assert("acc"@.len() == 3); assert("units"@.len() == 5); assert("cur"@.len() == 3); assert("tolerance"@.len() == 9);
assert("acc"@[0] == 'a'); assert("cur"@[0] == 'c');
assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "acc", f_acc),
    held(so_far(all, rest(&__map)), "units", f_units),
    held(so_far(all, rest(&__map)), "cur", f_cur),
    held(so_far(all, rest(&__map)), "tolerance", f_tolerance),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, balance_in_names};
reveal_strlit("acc"); reveal_strlit("units"); reveal_strlit("cur"); reveal_strlit("tolerance");
assert("acc"@.len() == 3); assert("units"@.len() == 5); assert("cur"@.len() == 3); assert("tolerance"@.len() == 9);
assert("acc"@[0] == 'a'); assert("cur"@[0] == 'c');
step(all, rest(&__map));
@fn open_in(__given) : C16
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => open_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !open_kept(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, open_in_names};
reveal_strlit("acc"); reveal_strlit("currencies"); reveal_strlit("booking");
assert("acc"@.len() == 3); assert("currencies"@.len() == 10); assert("booking"@.len() == 7);
assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "acc", f_acc),
    held(so_far(all, rest(&__map)), "currencies", f_currencies),
    held(so_far(all, rest(&__map)), "booking", f_booking),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, open_in_names};
reveal_strlit("acc"); reveal_strlit("currencies"); reveal_strlit("booking");
assert("acc"@.len() == 3); assert("currencies"@.len() == 10); assert("booking"@.len() == 7);
step(all, rest(&__map));
@fn close_in(__given) : C16
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => close_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !close_kept(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, close_in_names};

assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "acc", f_acc),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, close_in_names};

step(all, rest(&__map));
@fn commodity_in(__given) : C16
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => commodity_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !commodity_kept(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, commodity_in_names};

assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "cur", f_cur),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, commodity_in_names};

step(all, rest(&__map));
@fn pad_in(__given) : C16
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => pad_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !pad_kept(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, pad_in_names};
reveal_strlit("acc"); reveal_strlit("source");
assert("acc"@.len() == 3); assert("source"@.len() == 6);
assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "acc", f_acc),
    held(so_far(all, rest(&__map)), "source", f_source),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, pad_in_names};
reveal_strlit("acc"); reveal_strlit("source");
assert("acc"@.len() == 3); assert("source"@.len() == 6);
step(all, rest(&__map));
@fn document_in(__given) : C16
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => document_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !document_kept(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, document_in_names};
reveal_strlit("acc"); reveal_strlit("path");
assert("acc"@.len() == 3); assert("path"@.len() == 4);
assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "acc", f_acc),
    held(so_far(all, rest(&__map)), "path", f_path),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, document_in_names};
reveal_strlit("acc"); reveal_strlit("path");
assert("acc"@.len() == 3); assert("path"@.len() == 4);
step(all, rest(&__map));
@fn note_in(__given) : C16
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => note_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !note_kept(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, note_in_names};
reveal_strlit("acc"); reveal_strlit("comment");
assert("acc"@.len() == 3); assert("comment"@.len() == 7);
assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "acc", f_acc),
    held(so_far(all, rest(&__map)), "comment", f_comment),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, note_in_names};
reveal_strlit("acc"); reveal_strlit("comment");
assert("acc"@.len() == 3); assert("comment"@.len() == 7);
step(all, rest(&__map));
@fn event_in(__given) : C16
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => event_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !event_kept(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, event_in_names};
reveal_strlit("type"); reveal_strlit("description");
assert("type"@.len() == 4); assert("description"@.len() == 11);
assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "type", f_type_),
    held(so_far(all, rest(&__map)), "description", f_description),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, event_in_names};
reveal_strlit("type"); reveal_strlit("description");
assert("type"@.len() == 4); assert("description"@.len() == 11);
step(all, rest(&__map));
@fn query_in(__given) : C16
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => query_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !query_kept(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, query_in_names};
reveal_strlit("name"); reveal_strlit("content");
assert("name"@.len() == 4); assert("content"@.len() == 7);
assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "name", f_name),
    held(so_far(all, rest(&__map)), "content", f_content),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, query_in_names};
reveal_strlit("name"); reveal_strlit("content");
assert("name"@.len() == 4); assert("content"@.len() == 7);
step(all, rest(&__map));
@fn custom_in(__given) : C16
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => custom_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !custom_kept(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, custom_in_names};
reveal_strlit("type"); reveal_strlit("values");
assert("type"@.len() == 4); assert("values"@.len() == 6);
assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "type", f_type_),
    held(so_far(all, rest(&__map)), "values", f_values),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, custom_in_names};
reveal_strlit("type"); reveal_strlit("values");
assert("type"@.len() == 4); assert("values"@.len() == 6);
step(all, rest(&__map));
@fn cost_spec_in(__given) : C16
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => cost_spec_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !cost_spec_kept(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, cost_spec_in_names};
reveal_strlit("per-unit"); reveal_strlit("total"); reveal_strlit("cur"); reveal_strlit("date"); reveal_strlit("label"); reveal_strlit("merge");
assert("per-unit"@.len() == 8); assert("total"@.len() == 5); assert("cur"@.len() == 3); assert("date"@.len() == 4); assert("label"@.len() == 5); assert("merge"@.len() == 5);
assert("label"@[0] == 'l'); assert("merge"@[0] == 'm'); assert("total"@[0] == 't');
assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "per-unit", f_per_unit),
    held(so_far(all, rest(&__map)), "total", f_total),
    held(so_far(all, rest(&__map)), "cur", f_cur),
    held_date_or_none(so_far(all, rest(&__map)), "date", f_date),
    held(so_far(all, rest(&__map)), "label", f_label),
    held(so_far(all, rest(&__map)), "merge", f_merge),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, cost_spec_in_names};
reveal_strlit("per-unit"); reveal_strlit("total"); reveal_strlit("cur"); reveal_strlit("date"); reveal_strlit("label"); reveal_strlit("merge");
assert("per-unit"@.len() == 8); assert("total"@.len() == 5); assert("cur"@.len() == 3); assert("date"@.len() == 4); assert("label"@.len() == 5); assert("merge"@.len() == 5);
assert("label"@[0] == 'l'); assert("merge"@[0] == 'm'); assert("total"@[0] == 't');
step(all, rest(&__map));
@fn price_spec_in(__given) : C16
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => price_spec_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !price_spec_kept(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, price_spec_in_names};
reveal_strlit("per-unit"); reveal_strlit("total"); reveal_strlit("cur");
assert("per-unit"@.len() == 8); assert("total"@.len() == 5); assert("cur"@.len() == 3);
assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "per-unit", f_per_unit),
    held(so_far(all, rest(&__map)), "total", f_total),
    held(so_far(all, rest(&__map)), "cur", f_cur),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, price_spec_in_names};
reveal_strlit("per-unit"); reveal_strlit("total"); reveal_strlit("cur");
assert("per-unit"@.len() == 8); assert("total"@.len() == 5); assert("cur"@.len() == 3);
step(all, rest(&__map));
@fn posting_spec_in(__given) : C16
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => posting_spec_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !posting_spec_kept(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, posting_spec_in_names};
reveal_strlit("span"); reveal_strlit("flag"); reveal_strlit("acc"); reveal_strlit("units"); reveal_strlit("cur"); reveal_strlit("cost-spec"); reveal_strlit("price-spec"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("span"@.len() == 4); assert("flag"@.len() == 4); assert("acc"@.len() == 3); assert("units"@.len() == 5); assert("cur"@.len() == 3); assert("cost-spec"@.len() == 9); assert("price-spec"@.len() == 10); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("acc"@[0] == 'a'); assert("cur"@[0] == 'c'); assert("flag"@[0] == 'f'); assert("links"@[0] == 'l'); assert("span"@[0] == 's'); assert("tags"@[0] == 't'); assert("units"@[0] == 'u');
assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "span", f_span),
    held(so_far(all, rest(&__map)), "flag", f_flag),
    held(so_far(all, rest(&__map)), "acc", f_acc),
    held(so_far(all, rest(&__map)), "units", f_units),
    held(so_far(all, rest(&__map)), "cur", f_cur),
    held(so_far(all, rest(&__map)), "cost-spec", f_cost_spec),
    held(so_far(all, rest(&__map)), "price-spec", f_price_spec),
    held(so_far(all, rest(&__map)), "tags", f_tags),
    held(so_far(all, rest(&__map)), "links", f_links),
    held(so_far(all, rest(&__map)), "metadata", f_metadata),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, posting_spec_in_names};
reveal_strlit("span"); reveal_strlit("flag"); reveal_strlit("acc"); reveal_strlit("units"); reveal_strlit("cur"); reveal_strlit("cost-spec"); reveal_strlit("price-spec"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("span"@.len() == 4); assert("flag"@.len() == 4); assert("acc"@.len() == 3); assert("units"@.len() == 5); assert("cur"@.len() == 3); assert("cost-spec"@.len() == 9); assert("price-spec"@.len() == 10); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("acc"@[0] == 'a'); assert("cur"@[0] == 'c'); assert("flag"@[0] == 'f'); assert("links"@[0] == 'l'); assert("span"@[0] == 's'); assert("tags"@[0] == 't'); assert("units"@[0] == 'u');
step(all, rest(&__map));
@fn transaction_in(__given) : C16
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => transaction_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !transaction_kept(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, transaction_in_names};
reveal_strlit("flag"); reveal_strlit("payee"); reveal_strlit("narration"); reveal_strlit("postings");
assert("flag"@.len() == 4); assert("payee"@.len() == 5); assert("narration"@.len() == 9); assert("postings"@.len() == 8);
assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "flag", f_flag),
    held(so_far(all, rest(&__map)), "payee", f_payee),
    held(so_far(all, rest(&__map)), "narration", f_narration),
    held(so_far(all, rest(&__map)), "postings", f_postings),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, transaction_in_names};
reveal_strlit("flag"); reveal_strlit("payee"); reveal_strlit("narration"); reveal_strlit("postings");
assert("flag"@.len() == 4); assert("payee"@.len() == 5); assert("narration"@.len() == 9); assert("postings"@.len() == 8);
step(all, rest(&__map));
@fn directive_variant_in(__deserializer) : C16
r => ensures match r { Ok(v) => directive_variant_read(offered(__deserializer), v), Err(_) => sound_map(__deserializer) ==> !directive_variant_kept(offered(__deserializer)) }
@start
broadcast use directive_variant_in_names;
reveal_strlit("txn"); reveal_strlit("price"); reveal_strlit("balance"); reveal_strlit("open"); reveal_strlit("close"); reveal_strlit("commodity"); reveal_strlit("pad"); reveal_strlit("document"); reveal_strlit("note"); reveal_strlit("event"); reveal_strlit("query"); reveal_strlit("custom");
assert("txn"@.len() == 3); assert("price"@.len() == 5); assert("balance"@.len() == 7); assert("open"@.len() == 4); assert("close"@.len() == 5); assert("commodity"@.len() == 9); assert("pad"@.len() == 3); assert("document"@.len() == 8); assert("note"@.len() == 4); assert("event"@.len() == 5); assert("query"@.len() == 5); assert("custom"@.len() == 6);
assert("close"@[0] == 'c'); assert("event"@[0] == 'e'); assert("note"@[0] == 'n'); assert("open"@[0] == 'o'); assert("pad"@[0] == 'p'); assert("price"@[0] == 'p'); assert("query"@[0] == 'q'); assert("txn"@[0] == 't');
@fn directive_in(__given) : C16
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => directive_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !directive_kept(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, directive_in_names};
reveal_strlit("span"); reveal_strlit("date"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("span"@.len() == 4); assert("date"@.len() == 4); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("date"@[0] == 'd'); assert("span"@[0] == 's'); assert("tags"@[0] == 't');
assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "span", f_span),
    held_date(so_far(all, rest(&__map)), "date", f_date),
    held(so_far(all, rest(&__map)), "tags", f_tags),
    held(so_far(all, rest(&__map)), "links", f_links),
    held(so_far(all, rest(&__map)), "metadata", f_metadata),
    gathered(&__collect) == directive_others(so_far(all, rest(&__map))),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, directive_in_names};
reveal_strlit("span"); reveal_strlit("date"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("span"@.len() == 4); assert("date"@.len() == 4); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("date"@[0] == 'd'); assert("span"@[0] == 's'); assert("tags"@[0] == 't');
step(all, rest(&__map));
@before let f_variant
assert(so_far(all, rest(&__map)) == whole(all));
@lemma booking_differ : C16
@fn booking_in(__data) : C16
r => ensures match r { Ok(v) => variant_named(__data) == booking_written(v), Err(_) => sound_map(__data) ==> forall|v: Booking| variant_named(__data) != #[trigger] booking_written(v) }
@start
broadcast use booking_in_names;
reveal_strlit("strict"); reveal_strlit("strict-with-size"); reveal_strlit("none"); reveal_strlit("average"); reveal_strlit("fifo"); reveal_strlit("lifo"); reveal_strlit("hifo");
assert("strict"@.len() == 6); assert("strict-with-size"@.len() == 16); assert("none"@.len() == 4); assert("average"@.len() == 7); assert("fifo"@.len() == 4); assert("lifo"@.len() == 4); assert("hifo"@.len() == 4);
assert("fifo"@[0] == 'f'); assert("hifo"@[0] == 'h'); assert("lifo"@[0] == 'l'); assert("none"@[0] == 'n');
@lemma price_back : C16
@lemma price_taken : C16
@lemma price_dct_back : C16
@lemma price_dct_taken : C16
@lemma balance_back : C16
@lemma balance_taken : C16
@lemma open_back : C16
@lemma open_taken : C16
@lemma close_back : C16
@lemma close_taken : C16
@lemma commodity_back : C16
@lemma commodity_taken : C16
@lemma pad_back : C16
@lemma pad_taken : C16
@lemma document_back : C16
@lemma document_taken : C16
@lemma note_back : C16
@lemma note_taken : C16
@lemma event_back : C16
@lemma event_taken : C16
@lemma query_back : C16
@lemma query_taken : C16
@lemma custom_back : C16
@lemma custom_taken : C16
@lemma cost_spec_back : C16
@lemma cost_spec_taken : C16
@lemma price_spec_back : C16
@lemma price_spec_taken : C16
@lemma posting_spec_back : C16
@lemma posting_spec_taken : C16
@lemma transaction_back : C16
@lemma transaction_taken : C16
@lemma transaction_apart : C16
@lemma price_dct_apart : C16
@lemma balance_apart : C16
@lemma open_apart : C16
@lemma close_apart : C16
@lemma commodity_apart : C16
@lemma pad_apart : C16
@lemma document_apart : C16
@lemma note_apart : C16
@lemma event_apart : C16
@lemma query_apart : C16
@lemma custom_apart : C16
@lemma directive_variant_apart : C16
@lemma directive_variant_back : C16
@lemma directive_variant_taken : C16
@lemma directive_back : C16
@lemma directive_taken : C16
@lemma directives_back : C16
@lemma directives_taken : C16
@file api/types/booked.rs
@derived SerializeforDirective => booked_directive_out
@derived SerializeforDirectiveVariant => booked_directive_variant_out
@derived SerializeforTransaction => booked_transaction_out
@derived SerializeforPosting => booked_posting_out
@derived SerializeforCost => booked_cost_out
@derived SerializeforPrice => booked_price_out
@derived SerializeforBalance => booked_balance_out
@append
use crate::se::*;
verus! {
spec fn booked_directive_keyed<'a>(v: Directive<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("idx"@, tree(&v.idx));
    let m = m.insert("date"@, Tree::Text(iso(v.date)));
    let m = with(m, "tags", v.tags);
    let m = with(m, "links", v.links);
    let m = with(m, "metadata", v.metadata);
    let m = m.union_prefer_right(keyed(tree(&v.variant)));
    m
}
spec fn booked_directive_variant_keyed<'a>(v: DirectiveVariant<'a>) -> Map<Seq<char>, Tree> {
    match v {
        DirectiveVariant::Transaction(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("txn"@)),
        DirectiveVariant::Price(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("price"@)),
        DirectiveVariant::Balance(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("balance"@)),
        DirectiveVariant::Open(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("open"@)),
        DirectiveVariant::Close(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("close"@)),
        DirectiveVariant::Commodity(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("commodity"@)),
        DirectiveVariant::Pad(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("pad"@)),
        DirectiveVariant::Document(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("document"@)),
        DirectiveVariant::Note(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("note"@)),
        DirectiveVariant::Event(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("event"@)),
        DirectiveVariant::Query(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("query"@)),
        DirectiveVariant::Custom(x) => keyed(tree(&x)).insert("dct"@, Tree::Text("custom"@)),
    }
}
spec fn booked_transaction_keyed<'a>(v: Transaction<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("flag"@, tree(&v.flag));
    let m = with(m, "payee", v.payee);
    let m = with(m, "narration", v.narration);
    let m = m.insert("postings"@, tree(&v.postings));
    m
}
spec fn booked_posting_keyed<'a>(v: Posting<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = with(m, "idx", v.idx);
    let m = with(m, "flag", v.flag);
    let m = m.insert("acc"@, tree(&v.acc));
    let m = m.insert("units"@, tree(&v.units));
    let m = m.insert("cur"@, tree(&v.cur));
    let m = with(m, "cost", v.cost);
    let m = with(m, "price", v.price);
    let m = with(m, "tags", v.tags);
    let m = with(m, "links", v.links);
    let m = with(m, "metadata", v.metadata);
    m
}
spec fn booked_cost_keyed<'a>(v: Cost<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("date"@, Tree::Text(iso(v.date)));
    let m = m.insert("per-unit"@, tree(&v.per_unit));
    let m = m.insert("total"@, tree(&v.total));
    let m = m.insert("cur"@, tree(&v.cur));
    let m = with(m, "label", v.label);
    let m = unless(m, !v.merge, "merge"@, Tree::Truth(v.merge));
    m
}
spec fn booked_price_keyed<'a>(v: Price<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("per-unit"@, tree(&v.per_unit));
    let m = with(m, "total", v.total);
    let m = m.insert("cur"@, tree(&v.cur));
    m
}
spec fn booked_balance_keyed<'a>(v: Balance<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.union_prefer_right(keyed(tree(&v.raw)));
    m
}
}
@fn booked_directive_out(this, __serializer) : C09
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= booked_directive_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("idx"); reveal_strlit("date"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("idx"@.len() == 3); assert("date"@.len() == 4); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("date"@[0] == 'd'); assert("tags"@[0] == 't');
@fn booked_directive_variant_out(this, __serializer) : C09
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= booked_directive_variant_keyed(*this)
@start
broadcast use crate::se::writing;
@fn booked_transaction_out(this, __serializer) : C09 C20
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= booked_transaction_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("flag"); reveal_strlit("payee"); reveal_strlit("narration"); reveal_strlit("postings");
assert("flag"@.len() == 4); assert("payee"@.len() == 5); assert("narration"@.len() == 9); assert("postings"@.len() == 8);
@fn booked_posting_out(this, __serializer) : C09 C20
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= booked_posting_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("idx"); reveal_strlit("flag"); reveal_strlit("acc"); reveal_strlit("units"); reveal_strlit("cur"); reveal_strlit("cost"); reveal_strlit("price"); reveal_strlit("tags"); reveal_strlit("links"); reveal_strlit("metadata");
assert("idx"@.len() == 3); assert("flag"@.len() == 4); assert("acc"@.len() == 3); assert("units"@.len() == 5); assert("cur"@.len() == 3); assert("cost"@.len() == 4); assert("price"@.len() == 5); assert("tags"@.len() == 4); assert("links"@.len() == 5); assert("metadata"@.len() == 8);
assert("acc"@[0] == 'a'); assert("cost"@[0] == 'c'); assert("cur"@[0] == 'c'); assert("flag"@[0] == 'f'); assert("idx"@[0] == 'i'); assert("links"@[0] == 'l'); assert("price"@[0] == 'p'); assert("tags"@[0] == 't'); assert("units"@[0] == 'u');
@fn booked_cost_out(this, __serializer) : C09 C20
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= booked_cost_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("date"); reveal_strlit("per-unit"); reveal_strlit("total"); reveal_strlit("cur"); reveal_strlit("label"); reveal_strlit("merge");
assert("date"@.len() == 4); assert("per-unit"@.len() == 8); assert("total"@.len() == 5); assert("cur"@.len() == 3); assert("label"@.len() == 5); assert("merge"@.len() == 5);
assert("label"@[0] == 'l'); assert("merge"@[0] == 'm'); assert("total"@[0] == 't');
@fn booked_price_out(this, __serializer) : C09 C20
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= booked_price_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("per-unit"); reveal_strlit("total"); reveal_strlit("cur");
assert("per-unit"@.len() == 8); assert("total"@.len() == 5); assert("cur"@.len() == 3);
@fn booked_balance_out(this, __serializer) : C09
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= booked_balance_keyed(*this)
@start
broadcast use crate::se::writing;

@file api/types.rs
@derived SerializeforReport => report_out
@derived SerializeforIndexedReport => indexed_report_out
@derived SerializeforSyntheticSpan => synthetic_span_out
@derived SerializeforPlugin => plugin_out
@derived DeserializeforReport => report_in
@derived DeserializeforSyntheticSpan => synthetic_span_in
@append
use crate::se::*;
use crate::se::kept;
verus! {
spec fn report_keyed<'a>(v: Report<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("message"@, tree(&v.message));
    let m = m.insert("reason"@, tree(&v.reason));
    let m = m.insert("span"@, tree(&v.span));
    let m = with(m, "contexts", v.contexts);
    let m = with(m, "related", v.related);
    let m = with(m, "annotation", v.annotation);
    m
}
spec fn indexed_report_keyed(v: IndexedReport) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("reason"@, tree(&v.reason));
    let m = m.insert("idx"@, tree(&v.idx));
    let m = with(m, "related", v.related);
    let m = with(m, "annotation", v.annotation);
    m
}
spec fn synthetic_span_keyed<'a>(v: SyntheticSpan<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("name"@, tree(&v.name));
    let m = m.insert("content"@, tree(&v.content));
    m
}
spec fn plugin_keyed<'a>(v: Plugin<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("name"@, tree(&v.name));
    let m = m.insert("config"@, tree(&v.config));
    m
}
spec fn report_read<'a>(m: Map<Seq<char>, Tree>, v: Report<'a>) -> bool {
    &&& had(m, "message", v.message)
    &&& had(m, "reason", v.reason)
    &&& had(m, "span", v.span)
    &&& had_or(m, "contexts", v.contexts, None)
    &&& had_or(m, "related", v.related, None)
    &&& had_or(m, "annotation", v.annotation, None)
}
spec fn report_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& m.contains_key("message"@) && takes::<Cow<'a, str>>(m, "message")
    &&& m.contains_key("reason"@) && takes::<Cow<'a, str>>(m, "reason")
    &&& m.contains_key("span"@) && takes::<Span>(m, "span")
    &&& takes::<Option<Vec<(Cow<'a, str>, Span)>>>(m, "contexts")
    &&& takes::<Option<Vec<(Cow<'a, str>, Span)>>>(m, "related")
    &&& takes::<Option<Cow<'a, str>>>(m, "annotation")
}
spec fn same_report<'a>(a: Report<'a>, b: Report<'a>) -> bool {
    &&& a.message@ == b.message@
    &&& a.reason@ == b.reason@
    &&& a.span == b.span
    &&& (match (a.contexts, b.contexts) { (Some(x), Some(y)) => (x@.len() == y@.len() && (forall|i: int| 0 <= i < x@.len() ==> ((#[trigger] x@[i]).0@ == y@[i].0@ && (#[trigger] x@[i]).1 == y@[i].1))), (None, None) => true, _ => false })
    &&& (match (a.related, b.related) { (Some(x), Some(y)) => (x@.len() == y@.len() && (forall|i: int| 0 <= i < x@.len() ==> ((#[trigger] x@[i]).0@ == y@[i].0@ && (#[trigger] x@[i]).1 == y@[i].1))), (None, None) => true, _ => false })
    &&& (match (a.annotation, b.annotation) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false })
}
spec fn plain_report<'a>(a: Report<'a>) -> bool {
    &&& true
    &&& true
    &&& true
    &&& true
    &&& true
    &&& true
}
broadcast axiom fn report_tree<'a>(v: &Report<'a>) ensures (#[trigger] tree::<Report<'a>>(v)) is Map, keyed(tree::<Report<'a>>(v)) == report_keyed(*v);
broadcast axiom fn report_read_as<'a>(t: Tree, v: Report<'a>) ensures #[trigger] reads::<Report<'a>>(t, v) ==> (t is Map ==> report_read(keyed(t), v));
broadcast axiom fn report_kept_as<'a>(v: &Report<'a>) ensures report_kept(report_keyed(*v)) ==> kept::<Report<'a>>(#[trigger] tree::<Report<'a>>(v));
broadcast axiom fn report_read_in<'a>(m: Map<Seq<char>, Tree>, v: Report<'a>) ensures #[trigger] reads_in::<Report<'a>>(m, v) ==> report_read(m, v);
broadcast axiom fn report_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures report_kept(m) ==> #[trigger] kept_in::<Report<'a>>(m);
broadcast axiom fn report_unsaid<'a>() ensures #[trigger] unsaid::<Report<'a>>() is None;
broadcast group report_linked { report_tree, report_kept_as, report_read_as, report_read_in, report_kept_in }
spec fn synthetic_span_read<'a>(m: Map<Seq<char>, Tree>, v: SyntheticSpan<'a>) -> bool {
    &&& had(m, "name", v.name)
    &&& had(m, "content", v.content)
}
spec fn synthetic_span_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& m.contains_key("name"@) && takes::<Cow<'a, str>>(m, "name")
    &&& m.contains_key("content"@) && takes::<Cow<'a, str>>(m, "content")
}
spec fn same_synthetic_span<'a>(a: SyntheticSpan<'a>, b: SyntheticSpan<'a>) -> bool {
    &&& a.name@ == b.name@
    &&& a.content@ == b.content@
}
spec fn plain_synthetic_span<'a>(a: SyntheticSpan<'a>) -> bool {
    &&& true
    &&& true
}
broadcast axiom fn synthetic_span_tree<'a>(v: &SyntheticSpan<'a>) ensures (#[trigger] tree::<SyntheticSpan<'a>>(v)) is Map, keyed(tree::<SyntheticSpan<'a>>(v)) == synthetic_span_keyed(*v);
broadcast axiom fn synthetic_span_read_as<'a>(t: Tree, v: SyntheticSpan<'a>) ensures #[trigger] reads::<SyntheticSpan<'a>>(t, v) ==> (t is Map ==> synthetic_span_read(keyed(t), v));
broadcast axiom fn synthetic_span_kept_as<'a>(v: &SyntheticSpan<'a>) ensures synthetic_span_kept(synthetic_span_keyed(*v)) ==> kept::<SyntheticSpan<'a>>(#[trigger] tree::<SyntheticSpan<'a>>(v));
broadcast axiom fn synthetic_span_read_in<'a>(m: Map<Seq<char>, Tree>, v: SyntheticSpan<'a>) ensures #[trigger] reads_in::<SyntheticSpan<'a>>(m, v) ==> synthetic_span_read(m, v);
broadcast axiom fn synthetic_span_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures synthetic_span_kept(m) ==> #[trigger] kept_in::<SyntheticSpan<'a>>(m);
broadcast axiom fn synthetic_span_unsaid<'a>() ensures #[trigger] unsaid::<SyntheticSpan<'a>>() is None;
broadcast group synthetic_span_linked { synthetic_span_tree, synthetic_span_kept_as, synthetic_span_read_as, synthetic_span_read_in, synthetic_span_kept_in }
/// what is written of it is read as the same
proof fn report_back<'a>(a: Report<'a>, b: Report<'a>)
    requires plain_report(a), report_read(report_keyed(a), b) || reads::<Report<'a>>(tree::<Report<'a>>(&a), b),
    ensures same_report(a, b),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, report_linked};
    reveal_strlit("message"); reveal_strlit("reason"); reveal_strlit("span"); reveal_strlit("contexts"); reveal_strlit("related"); reveal_strlit("annotation");
assert("message"@.len() == 7); assert("reason"@.len() == 6); assert("span"@.len() == 4); assert("contexts"@.len() == 8); assert("related"@.len() == 7); assert("annotation"@.len() == 10);
assert("message"@[0] == 'm'); assert("related"@[0] == 'r');
}
/// and is not refused
proof fn report_taken<'a>(a: Report<'a>)
    requires plain_report(a),
    ensures report_kept(report_keyed(a)), kept::<Report<'a>>(tree::<Report<'a>>(&a)),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, report_linked};
    reveal_strlit("message"); reveal_strlit("reason"); reveal_strlit("span"); reveal_strlit("contexts"); reveal_strlit("related"); reveal_strlit("annotation");
assert("message"@.len() == 7); assert("reason"@.len() == 6); assert("span"@.len() == 4); assert("contexts"@.len() == 8); assert("related"@.len() == 7); assert("annotation"@.len() == 10);
assert("message"@[0] == 'm'); assert("related"@[0] == 'r');
}
/// what is written of it is read as the same
proof fn synthetic_span_back<'a>(a: SyntheticSpan<'a>, b: SyntheticSpan<'a>)
    requires plain_synthetic_span(a), synthetic_span_read(synthetic_span_keyed(a), b) || reads::<SyntheticSpan<'a>>(tree::<SyntheticSpan<'a>>(&a), b),
    ensures same_synthetic_span(a, b),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, synthetic_span_linked};
    reveal_strlit("name"); reveal_strlit("content");
assert("name"@.len() == 4); assert("content"@.len() == 7);
}
/// and is not refused
proof fn synthetic_span_taken<'a>(a: SyntheticSpan<'a>)
    requires plain_synthetic_span(a),
    ensures synthetic_span_kept(synthetic_span_keyed(a)), kept::<SyntheticSpan<'a>>(tree::<SyntheticSpan<'a>>(&a)),
{
    broadcast use {crate::se::gathering, crate::se::writing, crate::se::reading, crate::se::dates_written, crate::se::dates_null, serializers::values, synthetic_span_linked};
    reveal_strlit("name"); reveal_strlit("content");
assert("name"@.len() == 4); assert("content"@.len() == 7);
}
}
@fn report_out(this, __serializer) : C14 C17 C18
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= report_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("message"); reveal_strlit("reason"); reveal_strlit("span"); reveal_strlit("contexts"); reveal_strlit("related"); reveal_strlit("annotation");
assert("message"@.len() == 7); assert("reason"@.len() == 6); assert("span"@.len() == 4); assert("contexts"@.len() == 8); assert("related"@.len() == 7); assert("annotation"@.len() == 10);
assert("message"@[0] == 'm'); assert("related"@[0] == 'r');
@fn indexed_report_out(this, __serializer) : C10 C14
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= indexed_report_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("reason"); reveal_strlit("idx"); reveal_strlit("related"); reveal_strlit("annotation");
assert("reason"@.len() == 6); assert("idx"@.len() == 3); assert("related"@.len() == 7); assert("annotation"@.len() == 10);
@fn synthetic_span_out(this, __serializer) : C14
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= synthetic_span_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("name"); reveal_strlit("content");
assert("name"@.len() == 4); assert("content"@.len() == 7);
@fn plugin_out(this, __serializer) : C14 C15
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= plugin_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("name"); reveal_strlit("config");
assert("name"@.len() == 4); assert("config"@.len() == 6);
@fn report_in(__given) : C14 C17 C18
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => report_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !report_kept(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, report_in_names, serializers::values};
reveal_strlit("message"); reveal_strlit("reason"); reveal_strlit("span"); reveal_strlit("contexts"); reveal_strlit("related"); reveal_strlit("annotation");
assert("message"@.len() == 7); assert("reason"@.len() == 6); assert("span"@.len() == 4); assert("contexts"@.len() == 8); assert("related"@.len() == 7); assert("annotation"@.len() == 10);
assert("message"@[0] == 'm'); assert("related"@[0] == 'r');
assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "message", f_message),
    held(so_far(all, rest(&__map)), "reason", f_reason),
    held(so_far(all, rest(&__map)), "span", f_span),
    held(so_far(all, rest(&__map)), "contexts", f_contexts),
    held(so_far(all, rest(&__map)), "related", f_related),
    held(so_far(all, rest(&__map)), "annotation", f_annotation),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, report_in_names};
reveal_strlit("message"); reveal_strlit("reason"); reveal_strlit("span"); reveal_strlit("contexts"); reveal_strlit("related"); reveal_strlit("annotation");
assert("message"@.len() == 7); assert("reason"@.len() == 6); assert("span"@.len() == 4); assert("contexts"@.len() == 8); assert("related"@.len() == 7); assert("annotation"@.len() == 10);
assert("message"@[0] == 'm'); assert("related"@[0] == 'r');
step(all, rest(&__map));
@fn synthetic_span_in(__given) : C14 C18
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => synthetic_span_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !synthetic_span_kept(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, synthetic_span_in_names};
reveal_strlit("name"); reveal_strlit("content");
assert("name"@.len() == 4); assert("content"@.len() == 7);
assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "name", f_name),
    held(so_far(all, rest(&__map)), "content", f_content),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, synthetic_span_in_names};
reveal_strlit("name"); reveal_strlit("content");
assert("name"@.len() == 4); assert("content"@.len() == 7);
step(all, rest(&__map));
@lemma report_back : C17
@lemma report_taken : C17
@lemma synthetic_span_back : C18
@lemma synthetic_span_taken : C18
@file api/json_rpc.rs
@derived SerializeforResultResponse => result_response_out
@derived SerializeforResultData => result_data_out
@derived SerializeforRawDirectives => raw_directives_out
@derived SerializeforBookedDirectives => booked_directives_out
@derived SerializeforErrorResponse => error_response_out
@derived SerializeforErrorData => error_data_out
@derived SerializeforId => id_out
@derived DeserializeforId => id_in
@derived DeserializeforParams => params_in
@derived DeserializeforOptionalParams => optional_params_in
@derived DeserializeforRequest => request_in
@derived DeserializeforRequestMethod => request_method_in
@append
use crate::se::*;
verus! {
spec fn result_response_keyed<'i, 'a, 'b>(v: ResultResponse<'i,'a,'b>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("jsonrpc"@, tree(&v.jsonrpc));
    let m = m.insert("id"@, tree(&v.id));
    let m = m.insert("result"@, tree(&v.result));
    m
}
spec fn result_data_written<'a, 'b>(v: ResultData<'a,'b>) -> Tree {
    match v {
        ResultData::Ok => Tree::Null,
        ResultData::Plugins(x) => tree(&x),
        ResultData::RawDirectives(x) => tree(&x),
        ResultData::Options(x) => tree(&x),
        ResultData::Report(x) => tree(&x),
        ResultData::ResolvedSpan(x) => tree(&x),
        ResultData::ResolvedSpans(x) => tree(&x),
        ResultData::Spans(x) => tree(&x),
        ResultData::BookedDirectives(x) => tree(&x),
    }
}
spec fn raw_directives_keyed<'a>(v: RawDirectives<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("directives"@, tree(&v.directives));
    let m = m.insert("warnings"@, tree(&v.warnings));
    m
}
spec fn booked_directives_keyed<'a>(v: BookedDirectives<'a>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("directives"@, tree(&v.directives));
    m
}
spec fn error_response_keyed<'a, 'b, T: Serialize>(v: ErrorResponse<'a,'b,T>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("jsonrpc"@, tree(&v.jsonrpc));
    let m = m.insert("id"@, tree(&v.id));
    let m = m.insert("error"@, tree(&v.error));
    m
}
spec fn error_data_keyed<'a, T: Serialize>(v: ErrorData<'a,T>) -> Map<Seq<char>, Tree> {
    let m = Map::<Seq<char>, Tree>::empty();
    let m = m.insert("code"@, tree(&v.code));
    let m = m.insert("message"@, tree(&v.message));
    let m = with(m, "data", v.data);
    m
}
spec fn id_written<'a>(v: Id<'a>) -> Tree {
    match v {
        Id::String(x) => tree(&x),
        Id::Number(x) => tree(&x),
    }
}
spec fn id_read<'a>(t: Tree, v: Id<'a>) -> bool {
    match v {
        Id::String(x) => t == Tree::Text(x@),
        Id::Number(x) => !(t is Text) && reads::<serde_json::Number>(t, x),
    }
}
spec fn id_kept<'a>(t: Tree) -> bool { t is Text || kept::<serde_json::Number>(t) }
broadcast axiom fn id_tree<'a>(v: &Id<'a>) ensures #[trigger] tree::<Id<'a>>(v) == id_written(*v);
broadcast axiom fn id_read_as<'a>(t: Tree, v: Id<'a>) ensures #[trigger] reads::<Id<'a>>(t, v) ==> id_read(t, v);
broadcast axiom fn id_kept_as<'a>(t: Tree) ensures id_kept(t) ==> #[trigger] kept::<Id<'a>>(t);
broadcast group id_linked { id_tree, id_read_as, id_kept_as }
broadcast axiom fn result_response_tree<'i, 'a, 'b>(v: &ResultResponse<'i,'a,'b>) ensures keyed(#[trigger] tree::<ResultResponse<'i,'a,'b>>(v)) == result_response_keyed(*v);
broadcast axiom fn error_response_tree<'a, 'b, T: Serialize>(v: &ErrorResponse<'a,'b,T>) ensures keyed(#[trigger] tree::<ErrorResponse<'a,'b,T>>(v)) == error_response_keyed(*v);
/// a name, a number or nothing
pub(crate) open spec fn simple(t: Tree) -> bool { t is Text || t is Number || t is Count || t is Null }
/// an identity is written as it was read
proof fn id_back<'a>(t: Tree, v: Option<Id<'a>>)
    requires reads::<Option<Id<'a>>>(t, v), simple(t),
    ensures tree::<Option<Id<'a>>>(&v) == t,
{
    broadcast use {id_linked, crate::se::numbers, crate::se::writing, crate::se::reads_option};
    if let Some(x) = v {
        assert(tree::<Id<'a>>(&x) == id_written(x));
    }
}
/// and none of these is refused
proof fn id_taken<'a>(t: Tree)
    requires simple(t),
    ensures kept::<Option<Id<'a>>>(t),
{
    broadcast use {id_linked, crate::se::numbers, crate::se::kept_option};
}
/// an answer of the protocol, with the identity of what was asked
pub(crate) open spec fn answers(asked: Tree, answer: Tree) -> bool {
    let (m, a) = (keyed(asked), keyed(answer));
    &&& a.contains_key("jsonrpc"@) && a["jsonrpc"@] == Tree::Text("2.0"@)
    &&& a.contains_key("result"@) != a.contains_key("error"@)
    &&& a.contains_key("id"@)
    &&& if m.contains_key("id"@) { simple(m["id"@]) ==> a["id"@] == m["id"@] } else { a["id"@] is Null }
}
pub(crate) proof fn result_answers<'r, 'i, 'a, 'b>(text: Seq<char>, r: Request<'r>, v: ResultResponse<'i, 'a, 'b>, line: Seq<char>)
    requires
        crate::sv::decoded::<Request<'r>>(text) == Some(r), crate::sv::in_json(text) is Map,
        crate::sv::encoded(&v) == Some(line), v.id == r.id, v.jsonrpc@ == "2.0"@,
    ensures answers(crate::sv::in_json(text), crate::sv::in_json(line)),
{
    broadcast use {crate::sv::encoded_value, result_response_tree, crate::se::writing};
    reveal_strlit("jsonrpc"); reveal_strlit("id"); reveal_strlit("result"); reveal_strlit("error");
assert("jsonrpc"@.len() == 7); assert("id"@.len() == 2); assert("result"@.len() == 6); assert("error"@.len() == 5);
    request_of(text, r);
    let m = keyed(crate::sv::in_json(text));
    assert(keyed(tree(&v)) == result_response_keyed(v));
    if m.contains_key("id"@) && simple(m["id"@]) { id_back(m["id"@], r.id); }
}
pub(crate) proof fn error_answers<'r, 'i, 'b, T: Serialize>(text: Seq<char>, r: Request<'r>, v: ErrorResponse<'i, 'b, T>, line: Seq<char>)
    requires
        crate::sv::decoded::<Request<'r>>(text) == Some(r), crate::sv::in_json(text) is Map,
        crate::sv::encoded(&v) == Some(line), v.id == r.id, v.jsonrpc@ == "2.0"@,
    ensures answers(crate::sv::in_json(text), crate::sv::in_json(line)),
{
    broadcast use {crate::sv::encoded_value, error_response_tree, crate::se::writing};
    reveal_strlit("jsonrpc"); reveal_strlit("id"); reveal_strlit("error"); reveal_strlit("result");
assert("jsonrpc"@.len() == 7); assert("id"@.len() == 2); assert("error"@.len() == 5); assert("result"@.len() == 6);
    request_of(text, r);
    let m = keyed(crate::sv::in_json(text));
    assert(keyed(tree(&v)) == error_response_keyed(v));
    if m.contains_key("id"@) && simple(m["id"@]) { id_back(m["id"@], r.id); }
}
spec fn params_read<T>(m: Map<Seq<char>, Tree>, v: Params<T>) -> bool {
    &&& had_or_unsaid(m, "params", v.params)
}
spec fn params_kept<T>(m: Map<Seq<char>, Tree>) -> bool {
    &&& if m.contains_key("params"@) { kept::<T>(m["params"@]) } else { unsaid::<T>() is Some }
}
broadcast axiom fn params_read_as<T>(t: Tree, v: Params<T>) ensures #[trigger] reads::<Params<T>>(t, v) ==> (t is Map ==> params_read(keyed(t), v));
broadcast axiom fn params_kept_of<T>(t: Tree) ensures t is Map && unrepeated(t) && params_kept::<T>(keyed(t)) ==> #[trigger] kept::<Params<T>>(t);
broadcast axiom fn params_read_in<T>(m: Map<Seq<char>, Tree>, v: Params<T>) ensures #[trigger] reads_in::<Params<T>>(m, v) ==> params_read(m, v);
broadcast axiom fn params_kept_in<T>(m: Map<Seq<char>, Tree>) ensures params_kept::<T>(m) ==> #[trigger] kept_in::<Params<T>>(m);
broadcast axiom fn params_unsaid<T>() ensures #[trigger] unsaid::<Params<T>>() is None;
broadcast group params_linked { params_kept_of, params_read_as, params_read_in, params_kept_in }
spec fn optional_params_read<T>(m: Map<Seq<char>, Tree>, v: OptionalParams<T>) -> bool {
    &&& had_or(m, "params", v.params, None)
}
spec fn optional_params_kept<T>(m: Map<Seq<char>, Tree>) -> bool {
    &&& takes::<Option<T>>(m, "params")
}
broadcast axiom fn optional_params_read_as<T>(t: Tree, v: OptionalParams<T>) ensures #[trigger] reads::<OptionalParams<T>>(t, v) ==> (t is Map ==> optional_params_read(keyed(t), v));
broadcast axiom fn optional_params_kept_of<T>(t: Tree) ensures t is Map && unrepeated(t) && optional_params_kept::<T>(keyed(t)) ==> #[trigger] kept::<OptionalParams<T>>(t);
broadcast axiom fn optional_params_read_in<T>(m: Map<Seq<char>, Tree>, v: OptionalParams<T>) ensures #[trigger] reads_in::<OptionalParams<T>>(m, v) ==> optional_params_read(m, v);
broadcast axiom fn optional_params_kept_in<T>(m: Map<Seq<char>, Tree>) ensures optional_params_kept::<T>(m) ==> #[trigger] kept_in::<OptionalParams<T>>(m);
broadcast axiom fn optional_params_unsaid<T>() ensures #[trigger] unsaid::<OptionalParams<T>>() is None;
broadcast group optional_params_linked { optional_params_kept_of, optional_params_read_as, optional_params_read_in, optional_params_kept_in }
spec fn request_others(m: Map<Seq<char>, Tree>) -> Map<Seq<char>, Tree> { m.remove_keys(set!["jsonrpc"@, "id"@]) }
spec fn request_read<'a>(m: Map<Seq<char>, Tree>, v: Request<'a>) -> bool {
    &&& had(m, "jsonrpc", v.jsonrpc)
    &&& had_or(m, "id", v.id, None)
    &&& reads_in(request_others(m), v.method)
}
spec fn request_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& m.contains_key("jsonrpc"@) && takes::<Cow<'a, str>>(m, "jsonrpc")
    &&& takes::<Option<Id<'a>>>(m, "id")
    &&& kept_in::<RequestMethod<'a>>(request_others(m))
}
broadcast axiom fn request_read_as<'a>(t: Tree, v: Request<'a>) ensures #[trigger] reads::<Request<'a>>(t, v) ==> (t is Map ==> request_read(keyed(t), v));
broadcast axiom fn request_kept_of<'a>(t: Tree) ensures t is Map && unrepeated(t) && request_kept(keyed(t)) ==> #[trigger] kept::<Request<'a>>(t);
broadcast axiom fn request_read_in<'a>(m: Map<Seq<char>, Tree>, v: Request<'a>) ensures #[trigger] reads_in::<Request<'a>>(m, v) ==> request_read(m, v);
broadcast axiom fn request_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures request_kept(m) ==> #[trigger] kept_in::<Request<'a>>(m);
broadcast axiom fn request_unsaid<'a>() ensures #[trigger] unsaid::<Request<'a>>() is None;
broadcast group request_linked { request_kept_of, request_read_as, request_read_in, request_kept_in }
spec fn request_method_read<'a>(m: Map<Seq<char>, Tree>, v: RequestMethod<'a>) -> bool {
    m.contains_key("method"@) && match v {
        RequestMethod::Status => says(m, "method", "status"@),
        RequestMethod::ParserPlugins => says(m, "method", "parser.plugins"@),
        RequestMethod::ParserDirectives => says(m, "method", "parser.directives"@),
        RequestMethod::ParserOptions => says(m, "method", "parser.options"@),
        RequestMethod::ParserFormatErrors(x) => says(m, "method", "parser.format-errors"@) && reads_in::<Params<Vec<Report<'a>>>>(m.remove("method"@), x),
        RequestMethod::ParserFormatWarnings(x) => says(m, "method", "parser.format-warnings"@) && reads_in::<Params<Vec<Report<'a>>>>(m.remove("method"@), x),
        RequestMethod::ParserResolveSpans(x) => says(m, "method", "parser.resolve-spans"@) && reads_in::<Params<Vec<Span>>>(m.remove("method"@), x),
        RequestMethod::ParserCreateSyntheticSpans(x) => says(m, "method", "parser.create-synthetic-spans"@) && reads_in::<Params<Vec<SyntheticSpan<'a>>>>(m.remove("method"@), x),
        RequestMethod::Book(x) => says(m, "method", "book"@) && reads_in::<OptionalParams<Vec<Directive<'a>>>>(m.remove("method"@), x),
    }
}
spec fn request_method_kept<'a>(m: Map<Seq<char>, Tree>) -> bool {
    m.contains_key("method"@) && {
        ||| m["method"@] == Tree::Text("status"@)
        ||| m["method"@] == Tree::Text("parser.plugins"@)
        ||| m["method"@] == Tree::Text("parser.directives"@)
        ||| m["method"@] == Tree::Text("parser.options"@)
        ||| m["method"@] == Tree::Text("parser.format-errors"@) && kept_in::<Params<Vec<Report<'a>>>>(m.remove("method"@))
        ||| m["method"@] == Tree::Text("parser.format-warnings"@) && kept_in::<Params<Vec<Report<'a>>>>(m.remove("method"@))
        ||| m["method"@] == Tree::Text("parser.resolve-spans"@) && kept_in::<Params<Vec<Span>>>(m.remove("method"@))
        ||| m["method"@] == Tree::Text("parser.create-synthetic-spans"@) && kept_in::<Params<Vec<SyntheticSpan<'a>>>>(m.remove("method"@))
        ||| m["method"@] == Tree::Text("book"@) && kept_in::<OptionalParams<Vec<Directive<'a>>>>(m.remove("method"@))
    }
}
broadcast axiom fn request_method_read_in<'a>(m: Map<Seq<char>, Tree>, v: RequestMethod<'a>) ensures #[trigger] reads_in::<RequestMethod<'a>>(m, v) ==> request_method_read(m, v);
broadcast axiom fn request_method_kept_in<'a>(m: Map<Seq<char>, Tree>) ensures request_method_kept(m) ==> #[trigger] kept_in::<RequestMethod<'a>>(m);
broadcast group request_method_linked { request_method_read_in, request_method_kept_in }
/// a request asks for what its text says
spec fn asked<'a>(m: Map<Seq<char>, Tree>, r: Request<'a>) -> bool {
    &&& had(m, "jsonrpc", r.jsonrpc)
    &&& had_or(m, "id", r.id, None)
    &&& m.contains_key("method"@)
    &&& match r.method {
        RequestMethod::Status => says(m, "method", "status"@),
        RequestMethod::ParserPlugins => says(m, "method", "parser.plugins"@),
        RequestMethod::ParserDirectives => says(m, "method", "parser.directives"@),
        RequestMethod::ParserOptions => says(m, "method", "parser.options"@),
        RequestMethod::ParserFormatErrors(p) => says(m, "method", "parser.format-errors"@) && had(m, "params", p.params),
        RequestMethod::ParserFormatWarnings(p) => says(m, "method", "parser.format-warnings"@) && had(m, "params", p.params),
        RequestMethod::ParserResolveSpans(p) => says(m, "method", "parser.resolve-spans"@) && had(m, "params", p.params),
        RequestMethod::ParserCreateSyntheticSpans(p) => says(m, "method", "parser.create-synthetic-spans"@) && had(m, "params", p.params),
        RequestMethod::Book(p) => says(m, "method", "book"@) && had_or(m, "params", p.params, None),
    }
}
proof fn request_of<'a>(text: Seq<char>, r: Request<'a>)
    requires crate::sv::decoded::<Request<'a>>(text) == Some(r), crate::sv::in_json(text) is Map,
    ensures asked(keyed(crate::sv::in_json(text)), r),
{
    broadcast use {request_linked, request_method_linked, params_linked, optional_params_linked, crate::se::lacking, crate::sv::decoded_value};
    reveal_strlit("jsonrpc"); reveal_strlit("id"); reveal_strlit("method"); reveal_strlit("params");
assert("jsonrpc"@.len() == 7); assert("id"@.len() == 2); assert("method"@.len() == 6); assert("params"@.len() == 6);
assert("method"@[0] == 'm'); assert("params"@[0] == 'p');
    let m = keyed(crate::sv::in_json(text));
    assert(crate::se::reads::<Request<'a>>(crate::sv::in_json(text), r));
    assert(request_read(m, r));
    let o = request_others(m);
    assert(request_method_read(o, r.method));
    assert(o["method"@] == m["method"@]);
    let p = o.remove("method"@);
    assert(p.contains_key("params"@) == m.contains_key("params"@));
    assert(m.contains_key("params"@) ==> p["params"@] == m["params"@]);
}
/// and one which asks for something known, with what goes with it, is not refused
spec fn proper<'a>(m: Map<Seq<char>, Tree>) -> bool {
    &&& m.contains_key("jsonrpc"@) && m["jsonrpc"@] is Text
    &&& takes::<Option<Id<'a>>>(m, "id")
    &&& m.contains_key("method"@)
    &&& {
        ||| m["method"@] == Tree::Text("status"@)
        ||| m["method"@] == Tree::Text("parser.plugins"@)
        ||| m["method"@] == Tree::Text("parser.directives"@)
        ||| m["method"@] == Tree::Text("parser.options"@)
        ||| m["method"@] == Tree::Text("parser.format-errors"@) && m.contains_key("params"@) && kept::<Vec<Report<'a>>>(m["params"@])
        ||| m["method"@] == Tree::Text("parser.format-warnings"@) && m.contains_key("params"@) && kept::<Vec<Report<'a>>>(m["params"@])
        ||| m["method"@] == Tree::Text("parser.resolve-spans"@) && m.contains_key("params"@) && kept::<Vec<Span>>(m["params"@])
        ||| m["method"@] == Tree::Text("parser.create-synthetic-spans"@) && m.contains_key("params"@) && kept::<Vec<SyntheticSpan<'a>>>(m["params"@])
        ||| m["method"@] == Tree::Text("book"@) && takes::<Option<Vec<Directive<'a>>>>(m, "params")
    }
}
proof fn request_taken<'a>(text: Seq<char>)
    requires proper(keyed(crate::sv::in_json(text))), crate::sv::in_json(text) is Map, unrepeated(crate::sv::in_json(text)), crate::sv::well_formed(text),
    ensures crate::sv::decoded::<Request<'a>>(text) is Some,
{
    broadcast use {request_linked, request_method_linked, params_linked, optional_params_linked, crate::se::lacking, crate::se::reading, crate::se::gathering, crate::sv::decoded_value};
    reveal_strlit("jsonrpc"); reveal_strlit("id"); reveal_strlit("method"); reveal_strlit("params");
assert("jsonrpc"@.len() == 7); assert("id"@.len() == 2); assert("method"@.len() == 6); assert("params"@.len() == 6);
assert("method"@[0] == 'm'); assert("params"@[0] == 'p');
    let m = keyed(crate::sv::in_json(text));
    let o = request_others(m);
    let p = o.remove("method"@);
    assert(o["method"@] == m["method"@]);
    assert(p.contains_key("params"@) == m.contains_key("params"@));
    assert(m.contains_key("params"@) ==> p["params"@] == m["params"@]);
    assert(request_method_kept(o));
    assert(request_kept(m));
}
}
@fn result_response_out(this, __serializer) : C13 C14
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= result_response_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("jsonrpc"); reveal_strlit("id"); reveal_strlit("result");
assert("jsonrpc"@.len() == 7); assert("id"@.len() == 2); assert("result"@.len() == 6);
@fn result_data_out(this, __serializer) : C13 C14
r => ensures r matches Ok(o) ==> put(o) == result_data_written(*this)
@start
broadcast use crate::se::writing;
@fn raw_directives_out(this, __serializer) : C13 C14
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= raw_directives_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("directives"); reveal_strlit("warnings");
assert("directives"@.len() == 10); assert("warnings"@.len() == 8);
@fn booked_directives_out(this, __serializer) : C13 C14
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= booked_directives_keyed(*this)
@start
broadcast use crate::se::writing;

@fn error_response_out(this, __serializer) : C13 C14
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= error_response_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("jsonrpc"); reveal_strlit("id"); reveal_strlit("error");
assert("jsonrpc"@.len() == 7); assert("id"@.len() == 2); assert("error"@.len() == 5);
@fn error_data_out(this, __serializer) : C13 C14
r => ensures r matches Ok(o) ==> keyed(put(o)) =~= error_data_keyed(*this)
@start
broadcast use crate::se::writing;
reveal_strlit("code"); reveal_strlit("message"); reveal_strlit("data");
assert("code"@.len() == 4); assert("message"@.len() == 7); assert("data"@.len() == 4);
assert("code"@[0] == 'c'); assert("data"@[0] == 'd');
@fn id_out(this, __serializer) : C13 C14
r => ensures r matches Ok(o) ==> put(o) == id_written(*this)
@start
broadcast use crate::se::writing;
@fn id_in(__deserializer) : C13 C14
r => ensures match r { Ok(v) => id_read(value_in(__deserializer), v), Err(_) => sound_map(__deserializer) ==> !id_kept(value_in(__deserializer)) }
@start
broadcast use {crate::se::numbers, crate::se::kept_cow, crate::se::cow_text};
@lemma id_back : C13 C14
@lemma id_taken : C13 C14
@lemma result_answers : C13
@lemma error_answers : C13 C14
@fn params_in(__given) : C13 C14
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => params_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !params_kept::<T>(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, params_in_names};

assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "params", f_params),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, params_in_names};

step(all, rest(&__map));
@fn optional_params_in(__given) : C13 C14
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => optional_params_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !optional_params_kept::<T>(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, optional_params_in_names};

assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "params", f_params),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, optional_params_in_names};

step(all, rest(&__map));
@fn request_in(__given) : C13 C14
r => requires rest(&__given).len() % 2 == 0,
   ensures match r { Ok(v) => request_read(whole(rest(&__given)), v), Err(_) => sound(&__given) && named_once(rest(&__given)) ==> !request_kept(whole(rest(&__given))) }
@start
broadcast use {crate::se::lacking, request_in_names};
reveal_strlit("jsonrpc"); reveal_strlit("id");
assert("jsonrpc"@.len() == 7); assert("id"@.len() == 2);
assert(so_far(rest(&__given), rest(&__given)) == Map::<Seq<char>, Tree>::empty()); assert(rest(&__given).skip(0) =~= rest(&__given));
@ghost loop { let __next => let ghost all = rest(&__given);
@loop 0
invariant
    all == rest(&__given), sound(&__map) == sound(&__given),
    under_way(all, rest(&__map)),
    held(so_far(all, rest(&__map)), "jsonrpc", f_jsonrpc),
    held(so_far(all, rest(&__map)), "id", f_id),
    gathered(&__collect) == request_others(so_far(all, rest(&__map))),
ensures
    rest(&__map).len() == 0,
decreases rest(&__map).len()
@before let __next
broadcast use {crate::se::lacking, request_in_names};
reveal_strlit("jsonrpc"); reveal_strlit("id");
assert("jsonrpc"@.len() == 7); assert("id"@.len() == 2);
step(all, rest(&__map));
@before let f_method
assert(so_far(all, rest(&__map)) == whole(all));
@fn request_method_in(__deserializer) : C13 C14
r => ensures match r { Ok(v) => request_method_read(offered(__deserializer), v), Err(_) => sound_map(__deserializer) ==> !request_method_kept(offered(__deserializer)) }
@start
broadcast use request_method_in_names;
reveal_strlit("status"); reveal_strlit("parser.plugins"); reveal_strlit("parser.directives"); reveal_strlit("parser.options"); reveal_strlit("parser.format-errors"); reveal_strlit("parser.format-warnings"); reveal_strlit("parser.resolve-spans"); reveal_strlit("parser.create-synthetic-spans"); reveal_strlit("book");
assert("status"@.len() == 6); assert("parser.plugins"@.len() == 14); assert("parser.directives"@.len() == 17); assert("parser.options"@.len() == 14); assert("parser.format-errors"@.len() == 20); assert("parser.format-warnings"@.len() == 22); assert("parser.resolve-spans"@.len() == 20); assert("parser.create-synthetic-spans"@.len() == 29); assert("book"@.len() == 4);
assert("parser.format-errors"@[7] == 'f'); assert("parser.options"@[7] == 'o'); assert("parser.plugins"@[7] == 'p'); assert("parser.resolve-spans"@[7] == 'r');
@lemma request_of : C13 C14
@lemma request_taken : C13 C14
