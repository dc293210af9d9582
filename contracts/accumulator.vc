@file api/booking/accumulator.rs
@replace hashbrown:: => crate::hb::
@replace limabean_booking:: => crate::lb::
@struct Accumulator
@struct AccountBuilder
@struct BookingSuccess
@struct BookingFailure
@struct Adjustment #[derive(Structural)]
@replace collections::{HashMap, HashSet}, => collections::{},
@rename enumerate numbered
@rename filter_map chosen
@rename flat_map spread
@rename sum totalled
@rename clone dup
@replace Decimal::ZERO => crate::vspec::zero()
@replace Decimal::TWO => crate::vspec::two()
@replace const PAD_FLAG: &str => #[verus_verify] const PAD_FLAG: &'static str
@prepend
use crate::vspec::*;
use vstd::std_specs::iter::*;
use crate::hb::{HashMap, HashSet};
verus! { broadcast use {decimals, strings, crate::hb::texts, crate::st::sights}; }
@append
verus! {
/// an error at that element, for that reason
pub(crate) open spec fn told(e: IndexedReport, element: ElementIdx, why: Option<Option<ElementIdx>>) -> bool {
    e.idx == element && match why {
        Some(Some(x)) => e.related is Some && e.related->0@ == seq![x],
        Some(None) => e.related is None,
        None => false,
    }
}
impl<'a> AccountBuilder<'a> {
    pub(crate) closed spec fn allows(&self, cur: Seq<char>) -> bool {
        self.allowed_currencies@ == Set::<Seq<char>>::empty() || self.allowed_currencies@.contains(cur)
    }
}
impl<'a, 't> Accumulator<'a, 't> {
    pub(crate) closed spec fn wf(&self) -> bool {
        &&& forall|k: Seq<char>| self.open_accounts@.contains_key(k) ==> self.accounts@.contains_key(k)
        &&& forall|k: Seq<char>| self.closed_accounts@.contains_key(k) ==> self.accounts@.contains_key(k)
    }
    /// why an account cannot be used here, if it cannot, with the directive to refer to
    pub(crate) closed spec fn unavailable(&self, n: Seq<char>) -> Option<Option<ElementIdx>> {
        if self.open_accounts@.contains_key(n) { None }
        else if self.closed_accounts@.contains_key(n) { Some(Some(self.closed_accounts@[n])) }
        else { Some(None) }
    }
    /// why an amount in that currency cannot go to the account, if it cannot
    pub(crate) closed spec fn refuses(&self, n: Seq<char>, cur: Seq<char>) -> Option<Option<ElementIdx>> {
        match self.unavailable(n) {
            Some(x) => Some(x),
            None => if self.accounts@[n].allows(cur) { None } else { Some(Some(self.accounts@[n].opened)) },
        }
    }
    /// everything but the account of that name
    pub(crate) closed spec fn same_but(&self, o: &Self, name: Seq<char>) -> bool {
        &&& self.open_accounts@ == o.open_accounts@
        &&& self.closed_accounts@ == o.closed_accounts@
        &&& self.default_booking == o.default_booking
        &&& self.tolerance == o.tolerance
        &&& self.warnings == o.warnings
        &&& self.accounts@.dom() =~= o.accounts@.dom()
    }
}
}
@fn calculate_balance_margin(balance_units, balance_tolerance, account_units) : C03 C04 C05 C08
r =>
ensures
    match r {
        Some(m) => val(m) == val(balance_units) - val(account_units)
            && !(-val(balance_tolerance) <= val(m) <= val(balance_tolerance)),
        None => -val(balance_tolerance) <= val(balance_units) - val(account_units) <= val(balance_tolerance),
    }
@fn is_nonstrict_subaccount(base_account_name, candidate) : C04 C03 C05 C08
r => ensures r == at_or_below(base_account_name@, candidate@)
@start
lemma_at_or_below(base_account_name@, candidate@);
@closure 0 -> r: bool
ensures r == (arg0@.len() == 0 || arg0@[0] == ':')
@fn AccountBuilder::is_currency_valid(self, currency) : C02
r => ensures r == self.allows(currency@)
@fn AccountBuilder::validate_currency(self, currency, element) : C02 C10
r => ensures
    match r {
        Ok(_) => self.allows(currency@),
        Err(e) => !self.allows(currency@) && e.idx == element && e.related is Some && e.related->0@ == seq![self.opened],
    }
@fn Accumulator::validate_account(self, account_name, element) : C01 C10
r => ensures
    match r {
        Ok(_) => self.unavailable(account_name@) is None,
        Err(e) => told(e, element, self.unavailable(account_name@)),
    }
@fn Accumulator::get_valid_account(self, account_name, element) : C01 C10
r => 
requires self.wf(),
ensures
    match r {
        Ok(a) => self.unavailable(account_name@) is None && *a == self.accounts@[account_name@],
        Err(e) => told(e, element, self.unavailable(account_name@)),
    }
@fn Accumulator::get_mut_valid_account(self, account_name, element) : C01 C07 C10
r => 
requires old(self).wf(),
ensures
    match r {
        Ok(a) => old(self).unavailable(account_name@) is None && *a == old(self).accounts@[account_name@]
            && final(self).accounts@ == old(self).accounts@.insert(account_name@, *final(a))
            && final(self).same_but(old(self), account_name@) && final(self).wf(),
        Err(e) => told(e, element, old(self).unavailable(account_name@)) && *final(self) == *old(self),
    }
@fn Accumulator::validate_account_and_currency(self, account_name, currency, element) : C01 C02 C10
r => 
requires self.wf(),
ensures
    match r {
        Ok(a) => self.refuses(account_name@, currency@) is None,
        Err(e) => told(e, element, self.refuses(account_name@, currency@)),
    }
@append
verus! {
/// what is held of a currency in an account and all below it
pub(crate) closed spec fn rollup<'a>(m: Map<Seq<char>, AccountBuilder<'a>>, base: Seq<char>, cur: Seq<char>) -> real {
    rsum(family(m, base), |n: Seq<char>| m[n].positions.held(cur))
}
/// the account and all below it
pub(crate) open spec fn family<'a>(m: Map<Seq<char>, AccountBuilder<'a>>, base: Seq<char>) -> Set<Seq<char>> {
    m.dom().filter(|n: Seq<char>| at_or_below(base, n))
}
proof fn lemma_rollup<'a>(m: Map<Seq<char>, AccountBuilder<'a>>, base: Seq<char>, cur: Seq<char>, q: Seq<Seq<char>>, s: Seq<Decimal>)
    requires
        q.no_duplicates(),
        forall|k: Seq<char>| q.contains(k) <==> #[trigger] m.contains_key(k) && at_or_below(base, k),
        s.len() == q.len(),
        forall|i: int| 0 <= i < q.len() ==> val(#[trigger] s[i]) == m[q[i]].positions.held(cur),
    ensures
        total(s) == rollup(m, base, cur),
{
    let f = |n: Seq<char>| m[n].positions.held(cur);
    let d = family(m, base);
    assert forall|x: Seq<char>| #![trigger d.contains(x)] #![trigger q.contains(x)] d.contains(x) <==> q.contains(x) by {
        assert(m.dom().contains(x) == m.contains_key(x));
    }
    lemma_qsum(q, d, f);
    lemma_total(s, q, f);
}
}
@fn Accumulator::account_and_subaccounts(self, base_account_name) : C04 C03 C05 C08
r => ensures
    IteratorSpec::obeys_prophetic_iter_laws(&r),
    exists|q: Seq<Seq<char>>| #![auto] q.no_duplicates()
        && (forall|k: Seq<char>| q.contains(k) <==> #[trigger] self.accounts@.contains_key(k) && at_or_below(base_account_name@, k))
        && IteratorSpec::remaining(&r) == q.map_values(|k: Seq<char>| &self.accounts@[k])
@closure 0 : (&&'a str, &AccountBuilder<'a>) -> r: Option<&AccountBuilder<'a>>
ensures at_or_below(base_account_name@, arg0.0@) ==> r == Some(arg0.1), !at_or_below(base_account_name@, arg0.0@) ==> r is None
@end
self.accounts.axiom_order();
let q = kept(self.accounts.order(), base_account_name@);
lemma_kept(self.accounts.order(), base_account_name@);
assert forall|outs: Seq<Option<&AccountBuilder<'a>>>| outs.len() == self.accounts.order().len()
    && (forall|i: int| 0 <= i < outs.len() ==> #[trigger] outs[i] == if at_or_below(base_account_name@, self.accounts.order()[i]) { Some(&self.accounts@[self.accounts.order()[i]]) } else { None })
    implies #[trigger] somes(outs) == q.map_values(|k: Seq<char>| &self.accounts@[k]) by {
    lemma_kept_somes(self.accounts.order(), base_account_name@, outs, |k: Seq<char>| &self.accounts@[k]);
}
@fn Accumulator::total_rollup_units_for_currency(self, base_account_name, currency) : C04 C03 C05 C08
r => ensures val(r) == rollup(self.accounts@, base_account_name@, currency@)
@closure 0 : &AccountBuilder<'a> -> r: Decimal
ensures val(r) == arg0.positions.held(currency@)
@end
assert forall|q: Seq<Seq<char>>, s: Seq<Decimal>| #![trigger total(s), q.no_duplicates()] q.no_duplicates() && (forall|k: Seq<char>| q.contains(k) <==> #[trigger] self.accounts@.contains_key(k) && at_or_below(base_account_name@, k))
   && s.len() == q.len() && (forall|i: int| 0 <= i < q.len() ==> val(#[trigger] s[i]) == self.accounts@[q[i]].positions.held(currency@))
   implies total(s) == rollup(self.accounts@, base_account_name@, currency@) by {
   lemma_rollup(self.accounts@, base_account_name@, currency@, q, s);
}
@append
verus! {
/// twice the multiplier times one unit in the last place of the asserted amount, unless written on the directive
pub(crate) open spec fn tolerated(b: raw::Balance<'_>, multiplier: Option<Decimal>) -> real {
    match b.tolerance {
        Some(t) => val(t),
        None => if scale_of(b.units) > 0 {
            (1real * place(scale_of(b.units) as nat)) * (match multiplier { Some(m) => val(m), None => 1real / 2real }) * 2real
        } else { 0real },
    }
}
pub(crate) open spec fn within(m: real, t: real) -> bool { -t <= m <= t }
impl<'a> AccountBuilder<'a> {
    /// the same account, but for an amount of a currency
    pub(crate) closed spec fn moved(&self, o: &Self, cur: Seq<char>, by: real) -> bool {
        &&& self.allowed_currencies == o.allowed_currencies
        &&& self.opened == o.opened
        &&& self.booking == o.booking
        &&& forall|c: Seq<char>| #[trigger] self.positions.held(c) == o.positions.held(c) + if c == cur { by } else { 0real }
    }
}
/// where a pad awaits its balance
pub(crate) open spec fn pad_at<'a>(bd: Seq<booked::Directive<'a>>, i: int) -> bool {
    &&& 0 <= i && i + 1 < bd.len()
    &&& bd[i].variant is Pad
    &&& bd[i + 1].variant is Transaction
}
pub(crate) open spec fn source_at<'a>(bd: Seq<booked::Directive<'a>>, i: int) -> Seq<char> {
    match bd[i].variant { booked::DirectiveVariant::Pad(p) => p.source@, _ => Seq::empty() }
}
impl<'a, 't> Accumulator<'a, 't> {
    /// pads pending are in the output, with their transaction after them
    pub(crate) closed spec fn in_step(&self, bd: Seq<booked::Directive<'a>>) -> bool {
        &&& self.wf()
        &&& forall|n: Seq<char>| #[trigger] self.accounts@.contains_key(n) ==> match self.accounts@[n].pad {
            Some((i, _)) => pad_at(bd, i as int) && self.accounts@.contains_key(source_at(bd, i as int)),
            None => true,
        }
        &&& forall|n: Seq<char>| #[trigger] self.accounts@.contains_key(n) ==> match self.accounts@[n].balance_window {
            Some(w) => w.start <= w.end <= bd.len(),
            None => true,
        }
    }
    pub(crate) closed spec fn same(&self, o: &Self) -> bool {
        &&& self.open_accounts@ == o.open_accounts@
        &&& self.closed_accounts@ == o.closed_accounts@
        &&& self.accounts@ =~= o.accounts@
        &&& self.default_booking == o.default_booking
        &&& self.tolerance == o.tolerance
        &&& self.warnings == o.warnings
    }
    /// how far the accumulated amount is from the one asserted
    pub(crate) closed spec fn off(&self, b: raw::Balance<'_>) -> real {
        val(b.units) - rollup(self.accounts@, b.acc@, b.cur@)
    }
    pub(crate) closed spec fn good(&self, b: raw::Balance<'_>) -> bool {
        within(self.off(b), tolerated(b, self.tolerance.multiplier()))
    }
    pub(crate) closed spec fn pending(&self, n: Seq<char>) -> Option<(usize, ElementIdx)> {
        self.accounts@[n].pad
    }
    /// by how much a balance assertion changes the amount in an account
    pub(crate) closed spec fn delta(&self, b: raw::Balance<'_>, bd: Seq<booked::Directive<'a>>, n: Seq<char>) -> real {
        if self.good(b) { 0real } else {
            (if n == b.acc@ { self.off(b) } else { 0real })
            - (match self.pending(b.acc@) { Some((i, _)) => if n == source_at(bd, i as int) { self.off(b) } else { 0real }, None => 0real })
        }
    }
}
}
@fn adjust_account_to_match_balance(account, cur, units, adjustment) : C05 C08
ensures
    final(account).moved(old(account), cur@, if adjustment is Add { val(units) } else { -val(units) }),
    final(account).pad == old(account).pad,
    final(account).balance_window == old(account).balance_window,
@fn calculate_balance_pad_postings(cur, margin, balance_account, pad_source) : C05
r => ensures
    r@.len() == 2,
    r@[0].acc@ == balance_account@, r@[0].cur@ == cur@, val(r@[0].units) == val(margin),
    r@[1].acc@ == pad_source@, r@[1].cur@ == cur@, val(r@[1].units) == -val(margin),
    forall|i: int| 0 <= i < 2 ==> (#[trigger] r@[i]).idx is None && r@[i].cost is None && r@[i].price is None && r@[i].tags is None && r@[i].links is None && r@[i].metadata is None,
@append
verus! {
impl<'a, 't> Accumulator<'a, 't> {
    /// everything an accepted balance assertion does
    pub(crate) closed spec fn balanced(&self, o: &Self, b: raw::Balance<'a>, bd0: Seq<booked::Directive<'a>>, bd1: Seq<booked::Directive<'a>>, r: booked::DirectiveVariant<'a>) -> bool {
        let pad = o.pending(b.acc@);
        &&& self.open_accounts@ == o.open_accounts@
        &&& self.closed_accounts@ == o.closed_accounts@
        &&& self.default_booking == o.default_booking
        &&& self.tolerance == o.tolerance
        &&& self.warnings == o.warnings
        &&& forall|n: Seq<char>| #[trigger] self.accounts@.contains_key(n) <==> o.accounts@.contains_key(n)
        &&& forall|n: Seq<char>| #[trigger] o.accounts@.contains_key(n) ==> self.accounts@[n].moved(&o.accounts@[n], b.cur@, o.delta(b, bd0, n))
        &&& forall|n: Seq<char>| #[trigger] o.accounts@.contains_key(n) ==> self.accounts@[n].pad == if n == b.acc@ { None } else { o.accounts@[n].pad }
        &&& forall|n: Seq<char>| #[trigger] o.accounts@.contains_key(n) && n != b.acc@ ==> self.accounts@[n].balance_window == o.accounts@[n].balance_window
        &&& self.accounts@[b.acc@].balance_window is Some
        &&& bd1.len() == bd0.len()
        &&& match r {
            booked::DirectiveVariant::Balance(r) => {
                &&& r.raw == b
                &&& r.unused_pad == if o.good(b) { match pad { Some((_, e)) => Some(e), None => None } } else { None }
                &&& match r.margin { Some(m) => !o.good(b) && pad is None && val(m) == o.off(b), None => o.good(b) || pad is Some }
            },
            _ => false,
        }
        &&& match pad {
            Some((i, _)) if !o.good(b) => {
                &&& forall|j: int| 0 <= j < bd0.len() && j != i + 1 ==> #[trigger] bd1[j] == bd0[j]
                &&& padded(bd0[i + 1], bd1[i + 1], b, source_at(bd0, i as int), o.off(b))
            },
            _ => bd1 == bd0,
        }
    }
}
/// the transaction of a pad, holding its two postings now
pub(crate) open spec fn padded<'a>(d0: booked::Directive<'a>, d1: booked::Directive<'a>, b: raw::Balance<'a>, source: Seq<char>, by: real) -> bool {
    &&& d1.idx == d0.idx && d1.date == d0.date && d1.tags == d0.tags && d1.links == d0.links && d1.metadata == d0.metadata
    &&& match (d0.variant, d1.variant) {
        (booked::DirectiveVariant::Transaction(t0), booked::DirectiveVariant::Transaction(t1)) => {
            &&& t1.flag == t0.flag && t1.payee == t0.payee && t1.narration == t0.narration
            &&& pad_postings(t1.postings@, b.acc@, source, b.cur@, by)
        },
        _ => false,
    }
}
/// exactly the difference to the one and its negation to the other
pub(crate) open spec fn pad_postings<'a>(p: Seq<booked::Posting<'a>>, acc: Seq<char>, source: Seq<char>, cur: Seq<char>, by: real) -> bool {
    &&& p.len() == 2
    &&& p[0].acc@ == acc && p[0].cur@ == cur && val(p[0].units) == by
    &&& p[1].acc@ == source && p[1].cur@ == cur && val(p[1].units) == -by
    &&& forall|i: int| 0 <= i < 2 ==> (#[trigger] p[i]).idx is None && p[i].cost is None && p[i].price is None && p[i].tags is None && p[i].links is None && p[i].metadata is None
}
}
@fn Accumulator::balance(self, balance, element, booked_directives) : C03 C04 C05 C06 C07 C08 C01 C02 C10 C11
r =>
requires
    old(self).in_step(old(booked_directives)@),
ensures
    match r {
        Ok(v) => {
            &&& old(self).refuses(balance.acc@, balance.cur@) is None
            &&& final(self).balanced(old(self), *balance, old(booked_directives)@, final(booked_directives)@, v)
            &&& final(self).in_step(final(booked_directives)@)
        },
        Err(e) => {
            &&& told(e, element, old(self).refuses(balance.acc@, balance.cur@))
            &&& final(self).same(old(self))
            &&& final(booked_directives)@ == old(booked_directives)@
        },
    }
@closure 0 -> r: Decimal
ensures val(r) == tolerated(raw::Balance { tolerance: None, ..*balance }, self.tolerance.multiplier())
@closure 1 : (usize, ElementIdx) -> r: ElementIdx
ensures r == arg0.1
@start
reveal_with_fuel(place, 2);
assert(place(1) == 1real / 10real);
assert((5 as int as real) * place(1) == 1real / 2real) by(nonlinear_arith) requires place(1) == 1real / 10real;
@append
verus! {
/// the method for lots in an account opened so
pub(crate) open spec fn method_for(b: Option<raw::Booking>, default: Booking) -> Booking {
    let m = match b { Some(b) => crate::api::booking::types::method_of(b), None => default };
    if crate::lb::supported(m) { m } else { crate::lb::strict() }
}
impl<'a> AccountBuilder<'a> {
    pub(crate) closed spec fn fresh(&self, currencies: Set<Seq<char>>, booking: Booking, opened: ElementIdx) -> bool {
        &&& self.allowed_currencies@ =~= currencies
        &&& self.booking == booking
        &&& self.opened == opened
        &&& self.pad is None
        &&& self.balance_window is None
        &&& forall|c: Seq<char>| #[trigger] self.positions.held(c) == 0real
    }
}
impl<'a, 't> Accumulator<'a, 't> {
    /// everything an accepted open does
    pub(crate) closed spec fn opened(&self, o: &Self, d: raw::Open<'a>, e: ElementIdx) -> bool {
        &&& !o.open_accounts@.contains_key(d.acc@) && !o.closed_accounts@.contains_key(d.acc@)
        &&& self.open_accounts@ =~= o.open_accounts@.insert(d.acc@, e)
        &&& self.closed_accounts@ == o.closed_accounts@
        &&& self.accounts@ =~= o.accounts@.insert(d.acc@, self.accounts@[d.acc@])
        &&& self.accounts@[d.acc@].fresh(names(d.currencies), method_for(d.booking, o.default_booking), e)
        &&& self.default_booking == o.default_booking
        &&& self.tolerance == o.tolerance
    }
    /// what a rejected one does
    pub(crate) closed spec fn not_opened(&self, o: &Self, d: raw::Open<'a>, r: IndexedReport, e: ElementIdx) -> bool {
        &&& r.idx == e && r.related is Some
        &&& self.closed_accounts@ == o.closed_accounts@
        &&& self.accounts@ =~= o.accounts@
        &&& self.default_booking == o.default_booking
        &&& self.tolerance == o.tolerance
        &&& self.warnings == o.warnings
        &&& if o.open_accounts@.contains_key(d.acc@) {
            r.related->0@ == seq![o.open_accounts@[d.acc@]] && self.open_accounts@ =~= o.open_accounts@
        } else {
            // whether it counts as open from here on is left open
            o.closed_accounts@.contains_key(d.acc@) && r.related->0@ == seq![o.closed_accounts@[d.acc@]]
                && (self.open_accounts@ =~= o.open_accounts@ || self.open_accounts@ =~= o.open_accounts@.insert(d.acc@, e))
        }
    }
    /// everything an accepted close does
    pub(crate) closed spec fn closed(&self, o: &Self, d: raw::Close<'a>, e: ElementIdx) -> bool {
        &&& o.open_accounts@.contains_key(d.acc@)
        &&& self.open_accounts@ =~= o.open_accounts@.remove(d.acc@)
        &&& self.closed_accounts@ =~= o.closed_accounts@.insert(d.acc@, e)
        &&& self.accounts@ =~= o.accounts@
        &&& self.default_booking == o.default_booking
        &&& self.tolerance == o.tolerance
        &&& self.warnings == o.warnings
    }
    /// everything an accepted pad does
    pub(crate) closed spec fn pads(&self, o: &Self, d: raw::Pad<'a>, at: usize, e: ElementIdx) -> bool {
        &&& o.open_accounts@.contains_key(d.acc@) && o.open_accounts@.contains_key(d.source@)
        &&& o.pending(d.acc@) is None
        &&& self.repadded(o, d.acc@, Some((at, e)))
    }
    /// nothing but the pad of an account differs
    pub(crate) closed spec fn repadded(&self, o: &Self, n: Seq<char>, pad: Option<(usize, ElementIdx)>) -> bool {
        &&& self.open_accounts@ =~= o.open_accounts@
        &&& self.closed_accounts@ =~= o.closed_accounts@
        &&& self.accounts@ =~= o.accounts@.insert(n, AccountBuilder { pad: pad, ..o.accounts@[n] })
        &&& self.default_booking == o.default_booking
        &&& self.tolerance == o.tolerance
        &&& self.warnings == o.warnings
    }
    /// what a rejected one does
    pub(crate) closed spec fn not_padded(&self, o: &Self, d: raw::Pad<'a>, r: IndexedReport, e: ElementIdx) -> bool {
        if o.open_accounts@.contains_key(d.acc@) && o.open_accounts@.contains_key(d.source@) {
            // the pad before it is unused, and neither is in effect
            &&& o.pending(d.acc@) matches Some((_, first)) && r.idx == first
            &&& r.related is Some && r.related->0@ == seq![e]
            &&& self.repadded(o, d.acc@, None)
        } else {
            told(r, e, match o.unavailable(d.source@) { Some(x) => Some(x), None => o.unavailable(d.acc@) }) && self.same(o)
        }
    }
}
}
@fn AccountBuilder::new(allowed_currencies, booking, opened) : C02 C12 C01
r =>
requires
    IteratorSpec::obeys_prophetic_iter_laws(&allowed_currencies),
ensures
    forall|t: Seq<char>| #[trigger] r.allowed_currencies@.contains(t) <==> exists|i: int| 0 <= i < IteratorSpec::remaining(&allowed_currencies).len() && (#[trigger] IteratorSpec::remaining(&allowed_currencies)[i])@ == t,
    r.fresh(r.allowed_currencies@, booking, opened),
@fn Accumulator::open(self, open, _date, element) : C01 C02 C07 C10 C12
r =>
requires
    old(self).wf(),
ensures
    match r {
        Ok(v) => v == booked::DirectiveVariant::Open(*open) && final(self).opened(old(self), *open, element) && final(self).wf(),
        Err(e) => final(self).not_opened(old(self), *open, e, element) && final(self).wf(),
    }
@rewrite open.currencies.iter().flatten().copied() => crate::vspec::each(&open.currencies)
@closure 0 : raw::Booking -> r: Booking
ensures r == crate::api::booking::types::method_of(arg0)
@fn Accumulator::close(self, close, _date, element) : C01 C07 C10
r =>
requires
    old(self).wf(),
ensures
    match r {
        Ok(v) => v == booked::DirectiveVariant::Close(*close) && final(self).closed(old(self), *close, element) && final(self).wf(),
        Err(e) => final(self).not_closed(old(self), *close, e, element) && final(self).wf(),
    }
@fn Accumulator::pad(self, pad, _date, idx, element) : C01 C05 C06 C07 C10
r =>
requires
    old(self).wf(),
ensures
    match r {
        Ok((v, Some(booked::DirectiveVariant::Transaction(t)))) => v == booked::DirectiveVariant::Pad(*pad) && padding(t)
            && final(self).pads(old(self), *pad, idx, element) && final(self).wf(),
        Ok(_) => false,
        Err(e) => final(self).not_padded(old(self), *pad, e, element) && final(self).wf(),
    }
@append
verus! {
pub(crate) type Done<'a> = crate::lb::Bookings<'a, LimaParserBookingTypes<'a>, raw::PostingSpec<'a>>;
pub(crate) type Inferred<'a> = Interpolated<'a, LimaParserBookingTypes<'a>, raw::PostingSpec<'a>>;
/// what becomes of a posting: one posting per lot if at cost, else itself with what was inferred
pub(crate) open spec fn booked_posting<'a>(p: raw::PostingSpec<'a>, k: usize, i: Inferred<'a>) -> Seq<booked::Posting<'a>> {
    match i.cost {
        Some(c) => Seq::new(c.adjustments@.len(), |j: int| booked::Posting {
            idx: Some(k), flag: p.flag, acc: p.acc, units: c.adjustments@[j].units, cur: i.currency,
            cost: Some(booked::Cost {
                date: c.adjustments@[j].date, per_unit: c.adjustments@[j].per_unit, total: c.adjustments@[j].total,
                cur: c.cost_currency, label: c.adjustments@[j].label, merge: c.adjustments@[j].merge,
            }),
            price: None, tags: p.tags, links: p.links, metadata: p.metadata,
        }),
        None => seq![booked::Posting {
            idx: Some(k), flag: p.flag, acc: p.acc, units: i.units, cur: i.currency, cost: None,
            price: match i.price { Some(x) => Some(booked::Price { per_unit: x.per_unit, total: x.total, cur: x.currency }), None => None },
            tags: p.tags, links: p.links, metadata: p.metadata,
        }],
    }
}
/// and of the first n postings
pub(crate) open spec fn all_booked<'a>(ps: Seq<raw::PostingSpec<'a>>, is: Seq<Inferred<'a>>, n: nat) -> Seq<booked::Posting<'a>>
    decreases n
{
    if n == 0 { Seq::empty() } else { all_booked(ps, is, (n - 1) as nat) + booked_posting(ps[n - 1], (n - 1) as usize, is[n - 1]) }
}
proof fn lemma_all_booked<'a>(ps: Seq<raw::PostingSpec<'a>>, is: Seq<Inferred<'a>>, n: nat, outs: Seq<Vec<booked::Posting<'a>>>)
    requires
        n <= outs.len(),
        forall|i: int| 0 <= i < n ==> (#[trigger] outs[i])@ == booked_posting(ps[i], i as usize, is[i]),
    ensures
        joined(outs.take(n as int)) == all_booked(ps, is, n),
    decreases n
{
    if n > 0 {
        lemma_all_booked(ps, is, (n - 1) as nat, outs);
        assert(outs.take(n as int).drop_last() =~= outs.take(n - 1));
        assert(outs.take(n as int).last() == outs[n - 1]);
    }
}
/// the accounts after the first n of these lots have been put in place
pub(crate) closed spec fn with_lots<'a>(m: Map<Seq<char>, AccountBuilder<'a>>, lots: Seq<(&'a str, Positions<'a>)>, n: nat) -> Map<Seq<char>, AccountBuilder<'a>>
    decreases n
{
    if n == 0 { m } else {
        let before = with_lots(m, lots, (n - 1) as nat);
        let name = lots[n - 1].0@;
        before.insert(name, AccountBuilder { positions: lots[n - 1].1, ..before[name] })
    }
}
impl<'a, 't> Accumulator<'a, 't> {
    pub(crate) closed spec fn lots(&self) -> spec_fn(Seq<char>) -> Option<Positions<'a>> {
        |n: Seq<char>| if self.accounts@.contains_key(n) { Some(self.accounts@[n].positions) } else { None }
    }
    /// the method for each account: the account's, else the ledger's
    pub(crate) closed spec fn methods(&self) -> spec_fn(Seq<char>) -> Booking {
        |n: Seq<char>| if self.accounts@.contains_key(n) { self.accounts@[n].booking } else { self.default_booking }
    }
    pub(crate) closed spec fn booking_of(&self, date: Date, ps: Seq<raw::PostingSpec<'a>>) -> Result<Done<'a>, crate::lb::BookingError> {
        crate::lb::booked_by(date, ps, *self.tolerance, self.lots(), self.methods())
    }
    /// the first posting which cannot go where it is meant to
    pub(crate) closed spec fn first_refused(&self, ps: Seq<raw::PostingSpec<'a>>, is: Seq<Inferred<'a>>, k: int) -> bool {
        &&& 0 <= k < ps.len()
        &&& self.refuses(ps[k].acc@, is[k].currency@) is Some
        &&& forall|j: int| 0 <= j < k ==> self.refuses((#[trigger] ps[j]).acc@, is[j].currency@) is None
    }
    pub(crate) closed spec fn all_taken(&self, ps: Seq<raw::PostingSpec<'a>>, is: Seq<Inferred<'a>>) -> bool {
        forall|k: int| 0 <= k < ps.len() ==> self.refuses((#[trigger] ps[k]).acc@, is[k].currency@) is None
    }
    closed spec fn examined(&self, ps: Seq<raw::PostingSpec<'a>>, is: Seq<Inferred<'a>>, element: ElementIdx, outs: Seq<Option<IndexedReport>>) -> bool {
        &&& outs.len() == ps.len()
        &&& forall|i: int| 0 <= i < outs.len() ==> match #[trigger] outs[i] {
            None => self.refuses(ps[i].acc@, is[i].currency@) is None,
            Some(e) => told(e, ElementIdx { directive: element.directive, posting: Some(i as usize) }, self.refuses(ps[i].acc@, is[i].currency@)),
        }
    }
    proof fn lemma_examined(&self, ps: Seq<raw::PostingSpec<'a>>, is: Seq<Inferred<'a>>, element: ElementIdx, outs: Seq<Option<IndexedReport>>)
        requires
            self.examined(ps, is, element, outs),
        ensures
            somes(outs).len() == 0 ==> self.all_taken(ps, is),
            somes(outs).len() > 0 ==> exists|k: int| #[trigger] self.first_refused(ps, is, k)
                && told(somes(outs)[0], ElementIdx { directive: element.directive, posting: Some(k as usize) }, self.refuses(ps[k].acc@, is[k].currency@)),
    {
        lemma_somes(outs);
        if somes(outs).len() == 0 {
            assert forall|k: int| 0 <= k < ps.len() implies self.refuses((#[trigger] ps[k]).acc@, is[k].currency@) is None by {
                assert(outs[k] is None);
            }
        } else {
            let k = choose|i: int| #![trigger outs[i]] 0 <= i < outs.len() && outs[i] == Some(somes(outs)[0]) && forall|j: int| 0 <= j < i ==> (#[trigger] outs[j]) is None;
            assert forall|j: int| 0 <= j < k implies self.refuses((#[trigger] ps[j]).acc@, is[j].currency@) is None by {
                assert(outs[j] is None);
            }
            assert(self.first_refused(ps, is, k));
        }
    }
    pub(crate) closed spec fn relotted(&self, o: &Self, m: Map<Seq<char>, AccountBuilder<'a>>) -> bool {
        &&& self.open_accounts@ =~= o.open_accounts@
        &&& self.closed_accounts@ =~= o.closed_accounts@
        &&& self.accounts@ =~= m
        &&& self.default_booking == o.default_booking
        &&& self.tolerance == o.tolerance
        &&& self.warnings == o.warnings
    }
    /// an accepted transaction
    pub(crate) closed spec fn takes(&self, o: &Self, date: Date, ps: Seq<raw::PostingSpec<'a>>, r: Seq<booked::Posting<'a>>) -> bool {
        match o.booking_of(date, ps) {
            Ok(b) => {
                &&& o.all_taken(ps, b.interpolated_postings@)
                &&& r == all_booked(ps, b.interpolated_postings@, ps.len())
                &&& self.relotted(o, with_lots(o.accounts@, b.updated_inventory.entries(), b.updated_inventory.entries().len()))
            },
            Err(_) => false,
        }
    }
    /// a rejected one
    pub(crate) closed spec fn declines(&self, o: &Self, date: Date, ps: Seq<raw::PostingSpec<'a>>, e: IndexedReport, element: ElementIdx) -> bool {
        &&& self.same(o)
        &&& match o.booking_of(date, ps) {
            Ok(b) => exists|k: int| #[trigger] o.first_refused(ps, b.interpolated_postings@, k)
                && told(e, ElementIdx { directive: element.directive, posting: Some(k as usize) }, o.refuses(ps[k].acc@, b.interpolated_postings@[k].currency@)),
            Err(x) => e.idx == element && e.related is None && crate::lb::gives(e.reason@, x),
        }
    }
}
}
@fn cur_posting_cost_to_cost(currency, cost) : C20
r => ensures
    r == (booked::Cost { date: cost.date, per_unit: cost.per_unit, total: cost.total, cur: currency, label: cost.label, merge: cost.merge })
@fn Accumulator::book(self, date, postings, element) : C01 C02 C07 C10 C11 C12 C20 C21
r =>
requires
    old(self).wf(),
ensures
    match r {
        Ok(v) => final(self).takes(old(self), date, postings@, v@) && final(self).wf(),
        Err(e) => final(self).declines(old(self), date, postings@, e, element),
    }
@rewrite .map_or_else(Some, |_| None) => .err()
@rewrite in updated_inventory => in updated_inventory.listed()
@closure 0 : &'a str -> r: Option<&Positions<'a>>
ensures match r { Some(p) => self.lots()(arg0@) == Some(*p), None => self.lots()(arg0@) is None }
@closure 1 : &AccountBuilder<'a> -> r: &Positions<'a>
ensures *r == arg0.positions
@closure 2 : &'a str -> r: Booking
ensures r == self.methods()(arg0@)
@closure 3 : &AccountBuilder<'a> -> r: Booking
ensures r == arg0.booking
@closure 4 : (usize, (&Inferred<'a>, &&'a raw::PostingSpec<'a>)) -> r: Option<IndexedReport>
ensures match r {
    None => self.refuses(arg0.1.1.acc@, arg0.1.0.currency@) is None,
    Some(e) => told(e, ElementIdx { directive: element.directive, posting: Some(arg0.0) }, self.refuses(arg0.1.1.acc@, arg0.1.0.currency@)),
}
@closure 5 : (usize, (Inferred<'a>, &&'a raw::PostingSpec<'a>)) -> r: Vec<booked::Posting<'a>>
ensures r@ =~= booked_posting(**arg0.1.1, arg0.0, arg0.1.0)
@closure 6 : (&'a str, crate::lb::PostingCost<LimaParserBookingTypes<'a>>) -> r: booked::Posting<'a>
ensures r == (booked::Posting { idx: Some(posting_idx), flag: posting.flag, acc: posting.acc, units: arg0.1.units, cur: currency,
    cost: Some(booked::Cost { date: arg0.1.date, per_unit: arg0.1.per_unit, total: arg0.1.total, cur: arg0.0, label: arg0.1.label, merge: arg0.1.merge }),
    price: None, tags: posting.tags, links: posting.links, metadata: posting.metadata })
@closure 7 : crate::lb::Price<LimaParserBookingTypes<'a>> -> r: booked::Price<'a>
ensures r == (booked::Price { per_unit: arg0.per_unit, total: arg0.total, cur: arg0.currency })
@start
broadcast use {lemma_somes, crate::vspec::states_it, crate::lb::error_of_transaction_stated};
crate::lb::booked_by_aligned(date, postings@, *self.tolerance, self.lots(), self.methods());
@ghost postings.iter().collect => let ghost o = *self; let ghost ps = postings@;
@ghost return Err(error) => let ghost is = interpolated_postings@;
@before return Err(error);
assert forall|outs: Seq<Option<IndexedReport>>| #![trigger somes(outs)] o.examined(ps, is, element, outs)
    implies somes(outs).len() > 0 ==> exists|k: int| #[trigger] o.first_refused(ps, is, k)
        && told(somes(outs)[0], ElementIdx { directive: element.directive, posting: Some(k as usize) }, o.refuses(ps[k].acc@, is[k].currency@)) by {
    o.lemma_examined(ps, is, element, outs);
}
@before let booked_postings =
assert forall|outs: Seq<Option<IndexedReport>>| #![trigger somes(outs)] o.examined(ps, interpolated_postings@, element, outs) && somes(outs).len() == 0
    implies o.all_taken(ps, interpolated_postings@) by {
    o.lemma_examined(ps, interpolated_postings@, element, outs);
}
@ghost let booked_postings = => let ghost is = interpolated_postings@;
@after let booked_postings =
assert forall|outs: Seq<Vec<booked::Posting<'a>>>| outs.len() == ps.len() && (forall|i: int| 0 <= i < ps.len() ==> (#[trigger] outs[i])@ == booked_posting(ps[i], i as usize, is[i]))
    implies #[trigger] joined(outs) == all_booked(ps, is, ps.len()) by {
    lemma_all_booked(ps, is, ps.len(), outs);
    assert(outs.take(ps.len() as int) =~= outs);
}
@ghost in updated_inventory => let ghost es = updated_inventory.entries();
@loop 0
it => invariant
    it.seq() == es,
    o.wf(), self.wf(),
    self.relotted(&o, with_lots(o.accounts@, es, it.index@ as nat)),
    o.all_taken(ps, is),
    forall|i: int| 0 <= i < es.len() ==> crate::lb::posted_to(ps, (#[trigger] es[i]).0@),
@append
verus! {
impl<'a, 't> Accumulator<'a, 't> {
    pub(crate) closed spec fn padless(&self, n: Seq<char>) -> bool {
        self.pending(n) is None
    }
    /// the reports of pads still pending at the end: one for each, in any order
    pub(crate) closed spec fn leftover(&self, es: Seq<IndexedReport>) -> bool {
        exists|q: Seq<Seq<char>>| #[trigger] self.left_in(q) && self.reported_unused(q, es)
    }
    /// the accounts with a pad pending, each once
    closed spec fn left_in(&self, q: Seq<Seq<char>>) -> bool {
        &&& q.no_duplicates()
        &&& forall|k: Seq<char>| #[trigger] q.contains(k) <==> self.accounts@.contains_key(k) && self.pending(k) is Some
    }
    closed spec fn reported_unused(&self, q: Seq<Seq<char>>, es: Seq<IndexedReport>) -> bool {
        &&& es.len() == q.len()
        &&& forall|i: int| 0 <= i < es.len() ==> Some((#[trigger] es[i]).idx) == (match self.pending(q[i]) { Some((_, e)) => Some(e), None => None }) && es[i].related is None
    }
}
}
@fn Accumulator::validate(self, directives, errors) : C06 C10
r =>
ensures
    match r {
        Ok(s) => errors@.len() == 0 && s.directives == directives && self.leftover(Seq::empty()),
        Err(f) => f.errors@.len() > 0 && f.errors@.len() >= errors@.len() && f.errors@.take(errors@.len() as int) == errors@
            && self.leftover(f.errors@.skip(errors@.len() as int)),
    }
@start
let p = |n: Seq<char>| self.pending(n) is Some;
lemma_those(self.accounts.order(), p);
self.accounts.axiom_order();
@ghost if let Some((_, pad)) => let ghost before = errors@;
@ghost in accounts.values() => let ghost e0 = errors@; let ghost p = |n: Seq<char>| self.pending(n) is Some;
@loop 0
it => invariant
    accounts == self.accounts,
    it.seq() == Seq::new(accounts.order().len(), |i: int| &accounts@[accounts.order()[i]]),
    p == |n: Seq<char>| self.pending(n) is Some,
    errors@.len() >= e0.len(),
    errors@.take(e0.len() as int) =~= e0,
    self.reported_unused(those(accounts.order().take(it.index@), p), errors@.skip(e0.len() as int)),
@tail 0
let o = self.accounts.order();
assert(o.take(it.index@ + 1).drop_last() =~= o.take(it.index@));
assert(o.take(it.index@ + 1).last() == o[it.index@]);
let (t0, t1) = (before.skip(e0.len() as int), errors@.skip(e0.len() as int));
if p(o[it.index@]) {
    assert(t1 =~= t0.push(errors@.last()));
    let (q0, q1) = (those(o.take(it.index@), p), those(o.take(it.index@ + 1), p));
    assert(q1 =~= q0.push(o[it.index@]));
    assert forall|i: int| 0 <= i < t1.len() implies Some((#[trigger] t1[i]).idx) == (match self.pending(q1[i]) { Some((_, e)) => Some(e), None => None }) && t1[i].related is None by {
        if i < t0.len() { assert(t1[i] == t0[i]); }
    }
} else {
    assert(t1 =~= t0);
}
@after in accounts.values()
assert(accounts.order().take(accounts.order().len() as int) =~= accounts.order());
assert(self.left_in(those(accounts.order(), p)));
assert(errors@.len() == 0 ==> errors@.skip(e0.len() as int) =~= Seq::empty());
@append
verus! {
pub(crate) type Kind<'a> = booked::DirectiveVariant<'a>;
pub(crate) type Outcome<'a> = Result<(Kind<'a>, Option<Kind<'a>>), IndexedReport>;
/// what of a transaction is kept as it is
pub(crate) open spec fn headed<'a>(t: raw::Transaction<'a>, x: booked::Transaction<'a>) -> bool {
    &&& x.flag == t.flag
    &&& match (t.payee, x.payee) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false }
    &&& match (t.narration, x.narration) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false }
}
/// the transaction of a pad, before the balance
pub(crate) open spec fn padding<'a>(t: booked::Transaction<'a>) -> bool {
    t.flag@ == "'P"@ && t.postings@.len() == 0 && t.payee is None && t.narration is None
}
impl<'a, 't> Accumulator<'a, 't> {
    /// what a rejected close means
    pub(crate) closed spec fn not_closed(&self, o: &Self, d: raw::Close<'a>, e: IndexedReport, element: ElementIdx) -> bool {
        // (open as well as closed: only after a rejected attempt to open it again)
        &&& e.idx == element
        &&& self.same(o)
        &&& (e.related is None || o.closed_accounts@.contains_key(d.acc@) && e.related->0@ == seq![o.closed_accounts@[d.acc@]])
        &&& (!o.open_accounts@.contains_key(d.acc@) || o.closed_accounts@.contains_key(d.acc@))
    }
    /// a directive which is accepted, and what is put out for it
    pub(crate) closed spec fn accepts(&self, o: &Self, d: raw::Directive<'a>, e: ElementIdx, bd0: Seq<booked::Directive<'a>>, bd1: Seq<booked::Directive<'a>>, v: Kind<'a>, x: Option<Kind<'a>>) -> bool {
        match d.variant {
            raw::DirectiveVariant::Balance(b) => x is None && o.refuses(b.acc@, b.cur@) is None && self.balanced(o, b, bd0, bd1, v),
            raw::DirectiveVariant::Transaction(t) => bd1 == bd0 && x is None && match v {
                booked::DirectiveVariant::Transaction(y) => headed(t, y) && self.takes(o, d.date, t.postings@, y.postings@),
                _ => false,
            },
            raw::DirectiveVariant::Open(y) => bd1 == bd0 && x is None && v == booked::DirectiveVariant::Open(y) && self.opened(o, y, e),
            raw::DirectiveVariant::Close(y) => bd1 == bd0 && x is None && v == booked::DirectiveVariant::Close(y) && self.closed(o, y, e),
            raw::DirectiveVariant::Pad(y) => bd1 == bd0 && v == booked::DirectiveVariant::Pad(y) && self.pads(o, y, bd0.len() as usize, e) && match x {
                Some(booked::DirectiveVariant::Transaction(t)) => padding(t),
                _ => false,
            },
            raw::DirectiveVariant::Price(y) => bd1 == bd0 && x is None && v == booked::DirectiveVariant::Price(y) && self.same(o),
            raw::DirectiveVariant::Commodity(y) => bd1 == bd0 && x is None && v == booked::DirectiveVariant::Commodity(y) && self.same(o),
            raw::DirectiveVariant::Document(y) => bd1 == bd0 && x is None && v == booked::DirectiveVariant::Document(y) && self.same(o),
            raw::DirectiveVariant::Note(y) => bd1 == bd0 && x is None && v == booked::DirectiveVariant::Note(y) && self.same(o),
            raw::DirectiveVariant::Event(y) => bd1 == bd0 && x is None && v == booked::DirectiveVariant::Event(y) && self.same(o),
            raw::DirectiveVariant::Query(y) => bd1 == bd0 && x is None && v == booked::DirectiveVariant::Query(y) && self.same(o),
            raw::DirectiveVariant::Custom(y) => bd1 == bd0 && x is None && v == booked::DirectiveVariant::Custom(y) && self.same(o),
        }
    }
    /// a directive which is rejected, and how
    pub(crate) closed spec fn rejects(&self, o: &Self, d: raw::Directive<'a>, e: ElementIdx, bd0: Seq<booked::Directive<'a>>, bd1: Seq<booked::Directive<'a>>, r: IndexedReport) -> bool {
        &&& bd1 == bd0
        &&& match d.variant {
            raw::DirectiveVariant::Balance(b) => told(r, e, o.refuses(b.acc@, b.cur@)) && self.same(o),
            raw::DirectiveVariant::Transaction(t) => self.declines(o, d.date, t.postings@, r, e),
            raw::DirectiveVariant::Open(y) => self.not_opened(o, y, r, e),
            raw::DirectiveVariant::Close(y) => self.not_closed(o, y, r, e),
            raw::DirectiveVariant::Pad(y) => self.not_padded(o, y, r, e),
            _ => false,
        }
    }
    pub(crate) closed spec fn did(&self, o: &Self, d: raw::Directive<'a>, e: ElementIdx, bd0: Seq<booked::Directive<'a>>, bd1: Seq<booked::Directive<'a>>, r: Outcome<'a>) -> bool {
        match r {
            Ok((v, x)) => self.accepts(o, d, e, bd0, bd1, v, x),
            Err(r) => self.rejects(o, d, e, bd0, bd1, r),
        }
    }
}
}
@fn Accumulator::transaction(self, transaction, date, element) : C01 C02 C07 C09 C10 C11 C12 C20 C21
r =>
requires
    old(self).wf(),
ensures
    match r {
        Ok(v) => final(self).wf() && match v {
            booked::DirectiveVariant::Transaction(y) => headed(*transaction, y) && final(self).takes(old(self), date, transaction.postings@, y.postings@),
            _ => false,
        },
        Err(e) => final(self).declines(old(self), date, transaction.postings@, e, element),
    }
@closure 0 : &Cow<'a, str> -> r: &str
ensures r@ == arg0@
@closure 1 : &Cow<'a, str> -> r: &str
ensures r@ == arg0@
@fn Accumulator::directive(self, directive, element, booked_directives) : C01 C02 C03 C05 C06 C07 C08 C09 C10 C11 C21
r =>
requires
    old(self).in_step(old(booked_directives)@),
ensures
    final(self).did(old(self), *directive, element, old(booked_directives)@, final(booked_directives)@, r),
    final(self).wf(),
    directive.variant is Balance ==> final(self).in_step(final(booked_directives)@),
@closure 0 : booked::DirectiveVariant<'a> -> r: (booked::DirectiveVariant<'a>, Option<booked::DirectiveVariant<'a>>)
ensures r == (arg0, None::<booked::DirectiveVariant<'a>>)
@closure 1 : booked::DirectiveVariant<'a> -> r: (booked::DirectiveVariant<'a>, Option<booked::DirectiveVariant<'a>>)
ensures r == (arg0, None::<booked::DirectiveVariant<'a>>)
@closure 2 : booked::DirectiveVariant<'a> -> r: (booked::DirectiveVariant<'a>, Option<booked::DirectiveVariant<'a>>)
ensures r == (arg0, None::<booked::DirectiveVariant<'a>>)
@closure 3 : booked::DirectiveVariant<'a> -> r: (booked::DirectiveVariant<'a>, Option<booked::DirectiveVariant<'a>>)
ensures r == (arg0, None::<booked::DirectiveVariant<'a>>)
@append
verus! {
impl<'a, 't> Accumulator<'a, 't> {
    pub(crate) closed spec fn windowed(&self, n: Seq<char>) -> bool {
        self.accounts@.contains_key(n) && self.accounts@[n].balance_window is Some
    }
}
}
@fn Accumulator::balance_report(self, base_account_name, margin, cur, element, booked_directives) : C03 C10 C11
r =>
requires
    self.windowed(base_account_name@),
    self.in_step(booked_directives@),
ensures
    r.idx == element, r.related is None, r.annotation is Some, states(r.reason@, &margin),
@rewrite &booked_directives[balance_window.clone()] => crate::vspec::part(booked_directives, balance_window)
@rewrite total += pst.units => total = total + pst.units
@loop 0
it => invariant
    self.in_step(booked_directives@),
@loop 1
it => invariant
    self.in_step(booked_directives@),
@before let description =
lemma_at_or_below(base_account_name@, pst.acc@);
@opaque Cell::Stack( => crate::vspec::table(diagnostics, multiple_accounts)
@append
verus! {
/// how it went: before each directive and at the end the state, the output and the errors so far, and each outcome
pub(crate) ghost struct Course<'a, 't> {
    pub(crate) states: Seq<Accumulator<'a, 't>>,
    pub(crate) outs: Seq<Seq<booked::Directive<'a>>>,
    pub(crate) errors: Seq<Seq<IndexedReport>>,
    pub(crate) outcomes: Seq<Outcome<'a>>,
    /// the output with the transactions of pads filled in, before what is new
    pub(crate) mids: Seq<Seq<booked::Directive<'a>>>,
}
/// a directive of the output made of one of the input
pub(crate) open spec fn made_of<'a>(b: booked::Directive<'a>, d: raw::Directive<'a>, i: int, v: Kind<'a>) -> bool {
    b.idx == i && b.date == d.date && b.tags == d.tags && b.links == d.links && b.metadata == d.metadata && b.variant == v
}
/// what is put out
pub(crate) open spec fn put_out<'a>(b0: Seq<booked::Directive<'a>>, b1: Seq<booked::Directive<'a>>, d: raw::Directive<'a>, i: int, r: Outcome<'a>) -> bool {
    match r {
        Err(_) => b1 == b0,
        Ok((v, None)) => b1.len() == b0.len() + 1 && b1.take(b0.len() as int) == b0 && made_of(b1[b0.len() as int], d, i, v),
        Ok((v, Some(x))) => b1.len() == b0.len() + 2 && b1.take(b0.len() as int) == b0 && made_of(b1[b0.len() as int], d, i, v) && made_of(b1[b0.len() as int + 1], d, i, x),
    }
}
/// what is reported
pub(crate) open spec fn spoken<'a>(f0: Seq<IndexedReport>, f1: Seq<IndexedReport>, i: int, r: Outcome<'a>) -> bool {
    match r {
        Err(e) => f1 == f0.push(e),
        Ok((booked::DirectiveVariant::Balance(b), _)) => match (b.unused_pad, b.margin) {
            (None, None) => f1 == f0,
            (Some(p), None) => f1.len() == f0.len() + 1 && f1.take(f0.len() as int) == f0 && f1.last().idx == p && f1.last().related is None,
            (None, Some(m)) => f1.len() == f0.len() + 1 && f1.take(f0.len() as int) == f0 && f1.last().idx == (ElementIdx { directive: i as usize, posting: None }) && f1.last().related is None && states(f1.last().reason@, &m),
            (Some(_), Some(_)) => f1.len() == f0.len() + 2,
        },
        Ok(_) => f1 == f0,
    }
}
impl<'a, 't> Accumulator<'a, 't> {
    pub(crate) closed spec fn starts_off(&self, default_booking: Booking, tolerance: LimaTolerance<'a>) -> bool {
        &&& self.open_accounts@ =~= Map::empty()
        &&& self.closed_accounts@ =~= Map::empty()
        &&& self.accounts@ =~= Map::empty()
        &&& self.default_booking == default_booking
        &&& *self.tolerance == tolerance
    }
}
impl<'a, 't> Course<'a, 't> {
    /// a directive was dealt with as it should be
    pub(crate) open spec fn went(&self, ds: Seq<raw::Directive<'a>>, i: int) -> bool {
        let e = ElementIdx { directive: i as usize, posting: None };
        &&& self.states[i + 1].did(&self.states[i], ds[i], e, self.outs[i], self.mids[i], self.outcomes[i])
        &&& put_out(self.mids[i], self.outs[i + 1], ds[i], i, self.outcomes[i])
        &&& spoken(self.errors[i], self.errors[i + 1], i, self.outcomes[i])
        &&& self.states[i + 1].in_step(self.outs[i + 1])
        &&& self.outs[i + 1].len() <= usize::MAX
    }
    /// the first n directives were
    pub(crate) open spec fn ran(&self, from: Accumulator<'a, 't>, ds: Seq<raw::Directive<'a>>, n: int) -> bool {
        &&& 0 <= n <= ds.len() && ds.len() <= usize::MAX
        &&& self.states.len() == n + 1 && self.outs.len() == n + 1 && self.errors.len() == n + 1 && self.outcomes.len() == n && self.mids.len() == n
        &&& self.states[0] == from && self.outs[0].len() == 0 && self.errors[0].len() == 0
        &&& from.in_step(self.outs[0])
        &&& forall|i: int| 0 <= i < n ==> #[trigger] self.went(ds, i)
    }
    pub(crate) open spec fn ended(&self, from: Accumulator<'a, 't>, ds: Seq<raw::Directive<'a>>, r: Result<BookingSuccess<'a>, BookingFailure>) -> bool {
        let n = ds.len() as int;
        &&& self.ran(from, ds, n)
        &&& match r {
            Ok(s) => self.errors[n].len() == 0 && s.directives@ == self.outs[n] && self.states[n].leftover(Seq::empty()),
            Err(f) => f.errors@.len() > 0 && f.errors@.len() >= self.errors[n].len() && f.errors@.take(self.errors[n].len() as int) == self.errors[n]
                && self.states[n].leftover(f.errors@.skip(self.errors[n].len() as int)),
        }
    }
}
pub(crate) open spec fn values<T>(s: Seq<&T>) -> Seq<T> {
    s.map_values(|d: &T| *d)
}
/// the lots put in place are those of accounts there are, and nothing else about these changes
proof fn lemma_with_lots<'a>(m: Map<Seq<char>, AccountBuilder<'a>>, lots: Seq<(&'a str, Positions<'a>)>, n: nat)
    requires
        n <= lots.len(),
        forall|i: int| 0 <= i < lots.len() ==> m.contains_key((#[trigger] lots[i]).0@),
    ensures
        with_lots(m, lots, n).dom() =~= m.dom(),
        forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> {
            let (a, b) = (with_lots(m, lots, n)[k], m[k]);
            a.pad == b.pad && a.balance_window == b.balance_window && a.booking == b.booking && a.opened == b.opened && a.allowed_currencies == b.allowed_currencies
        },
    decreases n
{
    if n > 0 {
        lemma_with_lots(m, lots, (n - 1) as nat);
    }
}
impl<'a, 't> Accumulator<'a, 't> {
    proof fn lemma_takes(&self, o: &Self, date: Date, ps: Seq<raw::PostingSpec<'a>>, r: Seq<booked::Posting<'a>>)
        requires
            o.wf(),
            self.takes(o, date, ps, r),
        ensures
            forall|k: Seq<char>| #[trigger] self.accounts@.contains_key(k) <==> o.accounts@.contains_key(k),
            forall|k: Seq<char>| #[trigger] o.accounts@.contains_key(k) ==> {
                let (a, b) = (self.accounts@[k], o.accounts@[k]);
                a.pad == b.pad && a.balance_window == b.balance_window && a.booking == b.booking && a.opened == b.opened && a.allowed_currencies == b.allowed_currencies
            },
    {
        let b = o.booking_of(date, ps)->Ok_0;
        crate::lb::booked_by_aligned(date, ps, *o.tolerance, o.lots(), o.methods());
        let lots = b.updated_inventory.entries();
        assert forall|i: int| 0 <= i < lots.len() implies o.accounts@.contains_key((#[trigger] lots[i]).0@) by {
            let j = choose|j: int| 0 <= j < ps.len() && #[trigger] ps[j].acc@ == lots[i].0@;
            assert(o.refuses(ps[j].acc@, b.interpolated_postings@[j].currency@) is None);
        }
        lemma_with_lots(o.accounts@, lots, lots.len());
        assert forall|k: Seq<char>| #[trigger] self.accounts@.contains_key(k) <==> o.accounts@.contains_key(k) by {
            assert(with_lots(o.accounts@, lots, lots.len()).dom().contains(k) <==> o.accounts@.dom().contains(k));
        }
    }
    proof fn lemma_in_step(&self, o: &Self, d: raw::Directive<'a>, i: int, bd0: Seq<booked::Directive<'a>>, bd1: Seq<booked::Directive<'a>>, r: Outcome<'a>, bd2: Seq<booked::Directive<'a>>)
        requires
            o.in_step(bd0),
            self.wf(),
            self.did(o, d, ElementIdx { directive: i as usize, posting: None }, bd0, bd1, r),
            put_out(bd1, bd2, d, i, r),
            d.variant is Balance ==> self.in_step(bd1),
            bd2.len() <= usize::MAX,
        ensures
            self.in_step(bd2),
    {
        assert forall|j: int| 0 <= j < bd1.len() implies #[trigger] bd2[j] == bd1[j] by {
            assert(bd2.take(bd1.len() as int)[j] == bd1[j]);
        }
        if let (raw::DirectiveVariant::Transaction(t), Ok((booked::DirectiveVariant::Transaction(y), _))) = (d.variant, r) {
            self.lemma_takes(o, d.date, t.postings@, y.postings@);
        }
    }
}
}
@fn Accumulator::new(default_booking, tolerance) : C12 C10 C01 C21
r => ensures
    r.starts_off(default_booking, *tolerance), r.in_step(Seq::empty()),
@fn Accumulator::collect(self, directives) : C01 C02 C03 C05 C06 C07 C08 C09 C10 C11 C21
r =>
requires
    self.in_step(Seq::empty()),
ensures
    exists|c: Course<'a, 't>| #[trigger] c.ended(self, values(crate::vspec::listing(directives)), r),
@rewrite directives.into_iter() => crate::vspec::listed(directives)
@ghost let mut errors => let ghost from = self; let ghost ds = values(crate::vspec::listing(directives)); let ghost mut c = Course { states: seq![self], outs: seq![Seq::empty()], errors: seq![Seq::empty()], outcomes: Seq::empty(), mids: Seq::empty() };
@loop 0
it => invariant
    it.seq() == Seq::new(ds.len(), |i: int| (i as usize, crate::vspec::listing(directives)[i])),
    ds == values(crate::vspec::listing(directives)),
    c.ran(from, ds, it.index@),
    c.states.last() == this__,
    ds.len() <= usize::MAX,
    this__.in_step(booked_directives@),
    c.outs.last() == booked_directives@,
    c.errors.last() == errors@,
@ghost raw_element_idx, &mut booked_directives => let ghost mut took: Option<Outcome<'a>> = None; let ghost mut mid: Seq<booked::Directive<'a>> = Seq::empty();
@before if let booked::DirectiveVariant::Balance
took = Some(Ok((booked_variant, pad_txn)));
mid = booked_directives@;
@tail 0
let i = it.index@;
let outcome = match took { Some(r) => r, None => Err(errors@.last()) };
let m = if took is Some { mid } else { booked_directives@ };
assert(booked_directives.len() as int == booked_directives@.len());
assert(c.errors[i] =~= errors@.take(c.errors[i].len() as int));
assert(m =~= booked_directives@.take(m.len() as int));
this__.lemma_in_step(&c.states[i], ds[i], i, c.outs[i], m, outcome, booked_directives@);
let c1 = Course { states: c.states.push(this__), outs: c.outs.push(booked_directives@), errors: c.errors.push(errors@), outcomes: c.outcomes.push(outcome), mids: c.mids.push(m) };
assert forall|j: int| 0 <= j < i + 1 implies #[trigger] c1.went(ds, j) by {
    if j < i { assert(c.went(ds, j)); }
}
c = c1;
@after in crate::vspec::listed(directives)
assert(c.ran(from, ds, ds.len() as int));
@end
assert(c.ended(from, ds, result__));
