@file api/booking/accumulator.rs
@append
verus! {
// ---- what the contracts come to, for a whole ledger
/// where an account stands
pub(crate) ghost enum Status { Never, Open(int), Closed(int), Reopened }
/// where it stands before the i-th directive, going by the text of the ledger alone
pub(crate) open spec fn status<'a>(ds: Seq<raw::Directive<'a>>, i: int, n: Seq<char>) -> Status
    decreases i
{
    if i <= 0 { Status::Never } else {
        let s = status(ds, i - 1, n);
        match ds[i - 1].variant {
            raw::DirectiveVariant::Open(o) => if o.acc@ != n { s } else {
                match s {
                    Status::Never => Status::Open(i - 1),
                    Status::Open(k) => Status::Open(k),
                    _ => Status::Reopened,
                }
            },
            raw::DirectiveVariant::Close(c) => if c.acc@ != n { s } else {
                match s {
                    Status::Open(_) => Status::Closed(i - 1),
                    s => s,
                }
            },
            _ => s,
        }
    }
}
pub(crate) open spec fn at_directive(k: int) -> ElementIdx { ElementIdx { directive: k as usize, posting: None } }
/// the open directive at k
pub(crate) open spec fn opening<'a>(ds: Seq<raw::Directive<'a>>, k: int) -> Option<raw::Open<'a>> {
    match ds[k].variant { raw::DirectiveVariant::Open(o) => Some(o), _ => None }
}
/// why the account cannot be used, going by the text of the ledger alone
pub(crate) open spec fn not_usable<'a>(ds: Seq<raw::Directive<'a>>, i: int, n: Seq<char>) -> Option<Option<ElementIdx>> {
    match status(ds, i, n) {
        Status::Never => Some(None),
        Status::Closed(k) => Some(Some(at_directive(k))),
        _ => None,
    }
}
/// why that currency cannot go there, going by the text of the ledger alone
pub(crate) open spec fn not_allowed<'a>(ds: Seq<raw::Directive<'a>>, i: int, n: Seq<char>, cur: Seq<char>) -> Option<Option<ElementIdx>> {
    match status(ds, i, n) {
        Status::Open(k) => match opening(ds, k) {
            Some(o) => if names(o.currencies) == Set::<Seq<char>>::empty() || names(o.currencies).contains(cur) { None } else { Some(Some(at_directive(k))) },
            None => None,
        },
        _ => not_usable(ds, i, n),
    }
}
impl<'a, 't> Accumulator<'a, 't> {
    /// the state has it as the text has it
    closed spec fn tallies(&self, default: Booking, ds: Seq<raw::Directive<'a>>, i: int, n: Seq<char>) -> bool {
        match status(ds, i, n) {
            Status::Never => !self.open_accounts@.contains_key(n) && !self.closed_accounts@.contains_key(n) && !self.accounts@.contains_key(n),
            Status::Open(k) => 0 <= k < i && self.open_accounts@.contains_key(n) && self.open_accounts@[n] == at_directive(k) && !self.closed_accounts@.contains_key(n)
                && self.set_up(default, ds, k, n),
            Status::Closed(k) => 0 <= k < i && !self.open_accounts@.contains_key(n) && self.closed_accounts@.contains_key(n) && self.closed_accounts@[n] == at_directive(k)
                && self.accounts@.contains_key(n) && ds[k].variant is Close,
            Status::Reopened => self.accounts@.contains_key(n) && self.closed_accounts@.contains_key(n),
        }
    }
    closed spec fn set_up(&self, default: Booking, ds: Seq<raw::Directive<'a>>, k: int, n: Seq<char>) -> bool {
        &&& self.accounts@.contains_key(n)
        &&& opening(ds, k) matches Some(o) && o.acc@ == n
        &&& self.accounts@[n].opened == at_directive(k)
        &&& self.accounts@[n].allowed_currencies@ =~= names(opening(ds, k)->0.currencies)
        &&& self.accounts@[n].booking == method_for(opening(ds, k)->0.booking, default)
    }
    /// what makes an account what it is stays, but for opening and closing
    closed spec fn steady(&self, o: &Self) -> bool {
        &&& self.default_booking == o.default_booking
        &&& forall|n: Seq<char>| #[trigger] self.accounts@.contains_key(n) <==> o.accounts@.contains_key(n)
        &&& forall|n: Seq<char>| #[trigger] o.accounts@.contains_key(n) ==> {
            let (a, b) = (self.accounts@[n], o.accounts@[n]);
            a.booking == b.booking && a.opened == b.opened && a.allowed_currencies == b.allowed_currencies
        }
    }
    proof fn lemma_steady(&self, o: &Self, d: raw::Directive<'a>, e: ElementIdx, bd0: Seq<booked::Directive<'a>>, bd1: Seq<booked::Directive<'a>>, r: Outcome<'a>)
        requires
            o.wf(),
            self.did(o, d, e, bd0, bd1, r),
        ensures
            !(d.variant is Open) ==> self.steady(o),
            !(d.variant is Open || d.variant is Close) ==> self.open_accounts@ == o.open_accounts@ && self.closed_accounts@ == o.closed_accounts@,
    {
        if let (raw::DirectiveVariant::Transaction(t), Ok((booked::DirectiveVariant::Transaction(y), _))) = (d.variant, r) {
            self.lemma_takes(o, d.date, t.postings@, y.postings@);
        }
    }
}
/// the lots an account is left with: those last given for it, if any are
pub(crate) open spec fn left_with<'a>(held: Option<Positions<'a>>, es: Seq<(&'a str, Positions<'a>)>, n: nat, name: Seq<char>) -> Option<Positions<'a>>
    decreases n
{
    if n == 0 { held } else if es[n - 1].0@ == name { Some(es[n - 1].1) } else { left_with(held, es, (n - 1) as nat, name) }
}
proof fn lemma_left_with<'a>(m: Map<Seq<char>, AccountBuilder<'a>>, es: Seq<(&'a str, Positions<'a>)>, n: nat, name: Seq<char>)
    requires
        n <= es.len(),
    ensures
        ({
            let r = with_lots(m, es, n);
            let held = if m.contains_key(name) { Some(m[name].positions) } else { None };
            left_with(held, es, n, name) == if r.contains_key(name) { Some(r[name].positions) } else { None }
        }),
    decreases n
{
    if n > 0 {
        lemma_left_with(m, es, (n - 1) as nat, name);
    }
}
proof fn lemma_left_alone<'a>(held: Option<Positions<'a>>, es: Seq<(&'a str, Positions<'a>)>, n: nat, ps: Seq<raw::PostingSpec<'a>>, name: Seq<char>)
    requires
        n <= es.len(),
        forall|i: int| 0 <= i < es.len() ==> crate::lb::posted_to(ps, (#[trigger] es[i]).0@),
        !crate::lb::posted_to(ps, name),
    ensures
        left_with(held, es, n, name) == held,
    decreases n
{
    if n > 0 {
        assert(crate::lb::posted_to(ps, es[n - 1].0@));
        lemma_left_alone(held, es, (n - 1) as nat, ps, name);
    }
}
impl<'a, 't> Course<'a, 't> {
    proof fn lemma_tallies(&self, from: Accumulator<'a, 't>, default: Booking, tolerance: LimaTolerance<'a>, ds: Seq<raw::Directive<'a>>, n: int, i: int, name: Seq<char>)
        requires
            self.ran(from, ds, n),
            from.starts_off(default, tolerance),
            0 <= i <= n,
        ensures
            self.states[i].tallies(default, ds, i, name),
            self.states[i].default_booking == default,
            self.states[i].wf(),
        decreases i
    {
        if i > 0 {
            self.lemma_tallies(from, default, tolerance, ds, n, i - 1, name);
            assert(self.went(ds, i - 1));
            self.states[i].lemma_steady(&self.states[i - 1], ds[i - 1], at_directive(i - 1), self.outs[i - 1], self.mids[i - 1], self.outcomes[i - 1]);
        }
    }
    /// C01, C02: what is refused at a directive is what the text of the ledger says
    proof fn usable(&self, from: Accumulator<'a, 't>, default: Booking, tolerance: LimaTolerance<'a>, ds: Seq<raw::Directive<'a>>, n: int, i: int, name: Seq<char>)
        requires
            self.ran(from, ds, n),
            from.starts_off(default, tolerance),
            0 <= i <= n,
            !(status(ds, i, name) is Reopened),
        ensures
            self.states[i].unavailable(name) == not_usable(ds, i, name),
            forall|cur: Seq<char>| #[trigger] self.states[i].refuses(name, cur) == not_allowed(ds, i, name, cur),
    {
        self.lemma_tallies(from, default, tolerance, ds, n, i, name);
    }
}
/// C01, C02: which directives are rejected for their accounts and currencies, going by the text of the ledger alone
pub(crate) open spec fn as_told<'a>(ds: Seq<raw::Directive<'a>>, i: int, r: Outcome<'a>) -> bool {
    let here = at_directive(i);
    match ds[i].variant {
        raw::DirectiveVariant::Balance(b) => match r {
            Ok(_) => not_allowed(ds, i, b.acc@, b.cur@) is None,
            Err(e) => told(e, here, not_allowed(ds, i, b.acc@, b.cur@)),
        },
        raw::DirectiveVariant::Open(o) => match (r, status(ds, i, o.acc@)) {
            (Ok(_), Status::Never) => true,
            (Err(e), Status::Open(k)) => e.idx == here && e.related is Some && e.related->0@ == seq![at_directive(k)],
            (Err(e), Status::Closed(k)) => e.idx == here && e.related is Some && e.related->0@ == seq![at_directive(k)],
            _ => false,
        },
        raw::DirectiveVariant::Close(c) => match (r, status(ds, i, c.acc@)) {
            (Ok(_), Status::Open(_)) => true,
            (Err(e), Status::Never) => e.idx == here,
            (Err(e), Status::Closed(_)) => e.idx == here,
            _ => false,
        },
        raw::DirectiveVariant::Pad(p) => match (not_usable(ds, i, p.source@), not_usable(ds, i, p.acc@)) {
            (None, None) => r matches Err(e) ==> e.idx != here,
            (Some(x), _) => r matches Err(e) && told(e, here, Some(x)),
            (None, Some(x)) => r matches Err(e) && told(e, here, Some(x)),
        },
        raw::DirectiveVariant::Transaction(_) => true,
        _ => r is Ok,
    }
}
/// none of the accounts it names was opened a second time before
pub(crate) open spec fn regular<'a>(ds: Seq<raw::Directive<'a>>, i: int) -> bool {
    match ds[i].variant {
        raw::DirectiveVariant::Balance(b) => !(status(ds, i, b.acc@) is Reopened),
        raw::DirectiveVariant::Open(o) => !(status(ds, i, o.acc@) is Reopened),
        raw::DirectiveVariant::Close(c) => !(status(ds, i, c.acc@) is Reopened),
        raw::DirectiveVariant::Pad(p) => !(status(ds, i, p.acc@) is Reopened) && !(status(ds, i, p.source@) is Reopened),
        raw::DirectiveVariant::Transaction(t) => forall|j: int| 0 <= j < t.postings@.len() ==> !(status(ds, i, (#[trigger] t.postings@[j]).acc@) is Reopened),
        _ => true,
    }
}
/// the first posting refused, going by the text of the ledger alone
pub(crate) open spec fn first_not_allowed<'a>(ds: Seq<raw::Directive<'a>>, i: int, ps: Seq<raw::PostingSpec<'a>>, is: Seq<Inferred<'a>>, k: int) -> bool {
    &&& 0 <= k < ps.len()
    &&& not_allowed(ds, i, ps[k].acc@, is[k].currency@) is Some
    &&& forall|j: int| 0 <= j < k ==> not_allowed(ds, i, (#[trigger] ps[j]).acc@, is[j].currency@) is None
}
impl<'a, 't> Course<'a, 't> {
    proof fn outcome_as_told(&self, from: Accumulator<'a, 't>, default: Booking, tolerance: LimaTolerance<'a>, ds: Seq<raw::Directive<'a>>, n: int, i: int)
        requires
            self.ran(from, ds, n),
            from.starts_off(default, tolerance),
            0 <= i < n,
            regular(ds, i),
        ensures
            as_told(ds, i, self.outcomes[i]),
    {
        assert(self.went(ds, i));
        let s = self.states[i];
        match ds[i].variant {
            raw::DirectiveVariant::Balance(b) => {
                self.usable(from, default, tolerance, ds, n, i, b.acc@);
                assert(s.refuses(b.acc@, b.cur@) == not_allowed(ds, i, b.acc@, b.cur@));
            },
            raw::DirectiveVariant::Open(o) => { self.lemma_tallies(from, default, tolerance, ds, n, i, o.acc@); },
            raw::DirectiveVariant::Close(c) => { self.lemma_tallies(from, default, tolerance, ds, n, i, c.acc@); },
            raw::DirectiveVariant::Pad(p) => {
                self.lemma_tallies(from, default, tolerance, ds, n, i, p.acc@);
                self.lemma_tallies(from, default, tolerance, ds, n, i, p.source@);
                self.lemma_indexes(from, default, tolerance, ds, n, i);
            },
            _ => {},
        }
    }
    /// C01, C02: a transaction is rejected for an account or currency exactly when a posting names one which is not allowed there
    proof fn transaction_as_told(&self, from: Accumulator<'a, 't>, default: Booking, tolerance: LimaTolerance<'a>, ds: Seq<raw::Directive<'a>>, n: int, i: int, t: raw::Transaction<'a>)
        requires
            self.ran(from, ds, n),
            from.starts_off(default, tolerance),
            0 <= i < n,
            regular(ds, i),
            ds[i].variant == raw::DirectiveVariant::Transaction(t),
        ensures
            match self.states[i].booking_of(ds[i].date, t.postings@) {
                Ok(b) => match self.outcomes[i] {
                    Ok(_) => forall|j: int| 0 <= j < t.postings@.len() ==> not_allowed(ds, i, (#[trigger] t.postings@[j]).acc@, b.interpolated_postings@[j].currency@) is None,
                    Err(e) => exists|k: int| #[trigger] first_not_allowed(ds, i, t.postings@, b.interpolated_postings@, k)
                        && told(e, ElementIdx { directive: i as usize, posting: Some(k as usize) }, not_allowed(ds, i, t.postings@[k].acc@, b.interpolated_postings@[k].currency@)),
                },
                Err(_) => self.outcomes[i] matches Err(e) && e.idx == at_directive(i),
            },
    {
        assert(self.went(ds, i));
        let s = self.states[i];
        let ps = t.postings@;
        if let Ok(b) = s.booking_of(ds[i].date, ps) {
            let is = b.interpolated_postings@;
            assert forall|j: int| 0 <= j < ps.len() implies s.refuses((#[trigger] ps[j]).acc@, is[j].currency@) == not_allowed(ds, i, ps[j].acc@, is[j].currency@) by {
                self.usable(from, default, tolerance, ds, n, i, ps[j].acc@);
            }
            match self.outcomes[i] {
                Ok(_) => {},
                Err(e) => {
                    let k = choose|k: int| #[trigger] s.first_refused(ps, is, k)
                        && told(e, ElementIdx { directive: i as usize, posting: Some(k as usize) }, s.refuses(ps[k].acc@, is[k].currency@));
                    assert(ps[k].acc@ == ps[k].acc@);
                    assert(first_not_allowed(ds, i, ps, is, k));
                },
            }
        }
    }
    /// C12: the method for the lots of an account is its own, else the ledger's, and always one that is supported
    proof fn method_as_told(&self, from: Accumulator<'a, 't>, default: Booking, tolerance: LimaTolerance<'a>, ds: Seq<raw::Directive<'a>>, n: int, i: int, name: Seq<char>)
        requires
            self.ran(from, ds, n),
            from.starts_off(default, tolerance),
            0 <= i <= n,
            status(ds, i, name) is Open,
        ensures
            self.states[i].methods()(name) == method_for(opening(ds, status(ds, i, name)->Open_0)->0.booking, default),
            crate::lb::supported(self.states[i].methods()(name)),
            opening(ds, status(ds, i, name)->Open_0)->0.acc@ == name,
            opening(ds, status(ds, i, name)->Open_0) is Some,
    {
        self.lemma_tallies(from, default, tolerance, ds, n, i, name);
    }
    /// C21: a transaction is put to the booking library as it is written, with the lots held and the tolerances of the ledger;
    /// what the library says is reported or held
    proof fn decided_as_written(&self, from: Accumulator<'a, 't>, default: Booking, tolerance: LimaTolerance<'a>, ds: Seq<raw::Directive<'a>>, n: int, i: int, t: raw::Transaction<'a>, name: Seq<char>)
        requires
            self.ran(from, ds, n),
            from.starts_off(default, tolerance),
            0 <= i < n,
            ds[i].variant == raw::DirectiveVariant::Transaction(t),
        ensures
            *self.states[i].tolerance == tolerance,
            match crate::lb::booked_by(ds[i].date, t.postings@, tolerance, self.states[i].lots(), self.states[i].methods()) {
                Ok(b) => match self.outcomes[i] {
                    Ok((k, _)) => (k matches booked::DirectiveVariant::Transaction(y)
                            && y.postings@ == all_booked(t.postings@, b.interpolated_postings@, t.postings@.len()))
                        && self.states[i + 1].lots()(name) == left_with(self.states[i].lots()(name), b.updated_inventory.entries(), b.updated_inventory.entries().len(), name),
                    Err(e) => e.idx.posting is Some && self.states[i + 1].lots()(name) == self.states[i].lots()(name),
                },
                Err(x) => (self.outcomes[i] matches Err(e) && e.idx == at_directive(i) && e.related is None && crate::lb::gives(e.reason@, x))
                    && self.states[i + 1].lots()(name) == self.states[i].lots()(name),
            },
            !crate::lb::posted_to(t.postings@, name) ==> self.states[i + 1].lots()(name) == self.states[i].lots()(name),
    {
        self.lemma_tolerance(from, default, tolerance, ds, n, i);
        assert(self.went(ds, i));
        let s = self.states[i];
        if let (Ok(b), Ok(_)) = (s.booking_of(ds[i].date, t.postings@), self.outcomes[i]) {
            let es = b.updated_inventory.entries();
            crate::lb::booked_by_aligned(ds[i].date, t.postings@, *s.tolerance, s.lots(), s.methods());
            lemma_left_with(s.accounts@, es, es.len(), name);
            if !crate::lb::posted_to(t.postings@, name) { lemma_left_alone(s.lots()(name), es, es.len(), t.postings@, name); }
        }
    }
    proof fn lemma_tolerance(&self, from: Accumulator<'a, 't>, default: Booking, tolerance: LimaTolerance<'a>, ds: Seq<raw::Directive<'a>>, n: int, i: int)
        requires
            self.ran(from, ds, n),
            from.starts_off(default, tolerance),
            0 <= i <= n,
        ensures
            *self.states[i].tolerance == tolerance,
        decreases i
    {
        if i > 0 {
            self.lemma_tolerance(from, default, tolerance, ds, n, i - 1);
            assert(self.went(ds, i - 1));
        }
    }
    proof fn lemma_indexes(&self, from: Accumulator<'a, 't>, default: Booking, tolerance: LimaTolerance<'a>, ds: Seq<raw::Directive<'a>>, n: int, i: int)
        requires
            self.ran(from, ds, n),
            from.starts_off(default, tolerance),
            0 <= i <= n,
        ensures
            self.states[i].looks_back(i),
        decreases i
    {
        if i > 0 {
            self.lemma_indexes(from, default, tolerance, ds, n, i - 1);
            assert(self.went(ds, i - 1));
            self.lemma_tallies(from, default, tolerance, ds, n, i - 1, Seq::empty());
            self.states[i].lemma_looks_back(&self.states[i - 1], ds[i - 1], i - 1, self.outs[i - 1], self.mids[i - 1], self.outcomes[i - 1]);
        }
    }
}
impl<'a, 't> Accumulator<'a, 't> {
    /// every directive referred to is one that came before
    closed spec fn looks_back(&self, i: int) -> bool {
        &&& forall|x: Seq<char>| #[trigger] self.closed_accounts@.contains_key(x) ==> earlier(self.closed_accounts@[x], i)
        &&& forall|x: Seq<char>| #[trigger] self.open_accounts@.contains_key(x) ==> earlier(self.open_accounts@[x], i)
        &&& forall|x: Seq<char>| #[trigger] self.accounts@.contains_key(x) ==> earlier(self.accounts@[x].opened, i)
        &&& forall|x: Seq<char>| #[trigger] self.accounts@.contains_key(x) ==> match self.accounts@[x].pad { Some((_, e)) => earlier(e, i), None => true }
    }
    proof fn lemma_looks_back(&self, o: &Self, d: raw::Directive<'a>, i: int, bd0: Seq<booked::Directive<'a>>, bd1: Seq<booked::Directive<'a>>, r: Outcome<'a>)
        requires
            o.wf(),
            0 <= i < usize::MAX,
            o.looks_back(i),
            self.did(o, d, at_directive(i), bd0, bd1, r),
        ensures
            self.looks_back(i + 1),
    {
        let e = at_directive(i);
        self.lemma_steady(o, d, e, bd0, bd1, r);
        assert forall|x: Seq<char>| #[trigger] self.accounts@.contains_key(x) implies earlier(self.accounts@[x].opened, i + 1) by {}
        assert forall|x: Seq<char>| #[trigger] self.accounts@.contains_key(x) implies match self.accounts@[x].pad { Some((_, e)) => earlier(e, i + 1), None => true } by {
            match d.variant {
                raw::DirectiveVariant::Transaction(t) => {
                    if let Ok((booked::DirectiveVariant::Transaction(y), _)) = r {
                        self.lemma_takes(o, d.date, t.postings@, y.postings@);
                    }
                    assert(o.accounts@.contains_key(x));
                },
                _ => {},
            }
        }
    }
}
/// a directive before that one
pub(crate) open spec fn earlier(e: ElementIdx, i: int) -> bool {
    e.directive < i && e.posting is None
}

// ---- C03, C08, C05: what becomes of the amounts
impl<'a, 't> Accumulator<'a, 't> {
    /// the total over an account and those below it, after the account (or none of them) has been moved
    proof fn lemma_moved(&self, o: &Self, base: Seq<char>, cur: Seq<char>, by: real)
        requires
            o.accounts@.contains_key(base),
            forall|n: Seq<char>| #[trigger] self.accounts@.contains_key(n) <==> o.accounts@.contains_key(n),
            forall|n: Seq<char>| #[trigger] o.accounts@.contains_key(n) && at_or_below(base, n) ==>
                self.accounts@[n].positions.held(cur) == o.accounts@[n].positions.held(cur) + if n == base { by } else { 0real },
        ensures
            rollup(self.accounts@, base, cur) == rollup(o.accounts@, base, cur) + by,
    {
        let d = family(o.accounts@, base);
        assert(family(self.accounts@, base) =~= d) by {
            assert forall|n: Seq<char>| family(self.accounts@, base).contains(n) <==> d.contains(n) by {
                assert(self.accounts@.dom().contains(n) == self.accounts@.contains_key(n));
                assert(o.accounts@.dom().contains(n) == o.accounts@.contains_key(n));
            }
        }
        let f = |n: Seq<char>| self.accounts@[n].positions.held(cur);
        let g = |n: Seq<char>| o.accounts@[n].positions.held(cur);
        assert(d.contains(base)) by { assert(o.accounts@.dom().contains(base)); }
        lemma_rsum_remove(d, f, base);
        lemma_rsum_remove(d, g, base);
        assert forall|x: Seq<char>| d.remove(base).contains(x) implies f(x) == g(x) by {
            assert(o.accounts@.contains_key(x));
        }
        lemma_rsum_same(d.remove(base), f, g);
    }
    /// C03, C08, C05: after a balance assertion has been dealt with, the total is what was asserted, if it was out of tolerance
    proof fn settles(&self, o: &Self, b: raw::Balance<'a>, bd0: Seq<booked::Directive<'a>>, bd1: Seq<booked::Directive<'a>>, r: Kind<'a>)
        requires
            o.in_step(bd0),
            o.refuses(b.acc@, b.cur@) is None,
            self.balanced(o, b, bd0, bd1, r),
        ensures
            // within tolerance: nothing is changed
            o.good(b) ==> forall|n: Seq<char>, c: Seq<char>| #[trigger] o.accounts@.contains_key(n) ==> #[trigger] self.accounts@[n].positions.held(c) == o.accounts@[n].positions.held(c),
            // the failure is reported with the difference exactly if it is out of tolerance, and no pad makes up for it
            r matches booked::DirectiveVariant::Balance(x) && match x.margin {
                Some(m) => !within(o.off(b), tolerated(b, o.tolerance.multiplier())) && val(m) == o.off(b) && o.pending(b.acc@) is None,
                None => within(o.off(b), tolerated(b, o.tolerance.multiplier())) || o.pending(b.acc@) is Some,
            },
            // out of tolerance: the total is what is asserted, and no other currency or account (but the source of the pad) is touched
            !o.good(b) && (match o.pending(b.acc@) { None => true, Some((i, _)) => !at_or_below(b.acc@, source_at(bd0, i as int)) }) ==> {
                &&& rollup(self.accounts@, b.acc@, b.cur@) == val(b.units)
                &&& self.off(b) == 0real
                &&& (tolerated(b, o.tolerance.multiplier()) >= 0real ==> self.good(b))
            },
            forall|n: Seq<char>, c: Seq<char>| #[trigger] o.accounts@.contains_key(n) && c != b.cur@ ==> #[trigger] self.accounts@[n].positions.held(c) == o.accounts@[n].positions.held(c),
            o.pending(b.acc@) is None ==> forall|n: Seq<char>, c: Seq<char>| #[trigger] o.accounts@.contains_key(n) && n != b.acc@ ==> #[trigger] self.accounts@[n].positions.held(c) == o.accounts@[n].positions.held(c),
    {
        assert(o.accounts@.contains_key(b.acc@));
        assert forall|n: Seq<char>, c: Seq<char>| #[trigger] o.accounts@.contains_key(n) implies
            #[trigger] self.accounts@[n].positions.held(c) == o.accounts@[n].positions.held(c) + if c == b.cur@ { o.delta(b, bd0, n) } else { 0real } by {
            assert(self.accounts@[n].moved(&o.accounts@[n], b.cur@, o.delta(b, bd0, n)));
        }
        if !o.good(b) {
            match o.pending(b.acc@) {
                None => { self.lemma_moved(o, b.acc@, b.cur@, o.off(b)); },
                Some((i, _)) => if !at_or_below(b.acc@, source_at(bd0, i as int)) {
                    self.lemma_moved(o, b.acc@, b.cur@, o.off(b));
                },
            }
        }
    }
}
// ---- C07: what is rejected leaves everything as it was
impl<'a, 't> Accumulator<'a, 't> {
    proof fn rejected_without_trace(&self, o: &Self, d: raw::Directive<'a>, e: ElementIdx, bd0: Seq<booked::Directive<'a>>, bd1: Seq<booked::Directive<'a>>, r: IndexedReport)
        requires
            self.did(o, d, e, bd0, bd1, Err::<(Kind<'a>, Option<Kind<'a>>), IndexedReport>(r)),
            match d.variant {
                // once closed, an account is out of use: whether it counts as open from there on is left open
                raw::DirectiveVariant::Open(y) => o.open_accounts@.contains_key(y.acc@),
                // an unused pad, reported at the next one, is dropped
                raw::DirectiveVariant::Pad(y) => !(o.open_accounts@.contains_key(y.acc@) && o.open_accounts@.contains_key(y.source@)),
                _ => true,
            },
        ensures
            self.same(o),
            bd1 == bd0,
    {
    }
    /// whatever can be done from one state can be done from the same state: later directives are judged as if the rejected one were absent
    proof fn judged_alike(&self, o: &Self, p: &Self, d: raw::Directive<'a>, e: ElementIdx, bd0: Seq<booked::Directive<'a>>, bd1: Seq<booked::Directive<'a>>, r: Outcome<'a>)
        requires
            p.same(o),
            self.did(o, d, e, bd0, bd1, r),
        ensures
            self.did(p, d, e, bd0, bd1, r),
    {
        assert(p.lots() =~= o.lots());
        assert(p.methods() =~= o.methods());
        assert forall|n: Seq<char>, c: Seq<char>| p.refuses(n, c) == #[trigger] o.refuses(n, c) by {}
        match d.variant {
            raw::DirectiveVariant::Transaction(t) => {
                match (r, o.booking_of(d.date, t.postings@)) {
                    (Err(x), Ok(b)) => {
                        let is = b.interpolated_postings@;
                        let k = choose|k: int| #[trigger] o.first_refused(t.postings@, is, k)
                            && told(x, ElementIdx { directive: e.directive, posting: Some(k as usize) }, o.refuses(t.postings@[k].acc@, is[k].currency@));
                        assert(p.first_refused(t.postings@, is, k));
                        assert(self.same(p));
                    },
                    _ => {},
                }
            },
            raw::DirectiveVariant::Balance(b) => {
                assert(p.off(b) == o.off(b));
                assert forall|n: Seq<char>| #[trigger] p.accounts@.contains_key(n) implies p.delta(b, bd0, n) == o.delta(b, bd0, n) by {}
            },
            _ => {},
        }
    }
}

// ---- C06: what becomes of pads
impl<'a, 't> Course<'a, 't> {
    /// the pad in effect for an account before the i-th directive
    closed spec fn awaiting(&self, ds: Seq<raw::Directive<'a>>, i: int, n: Seq<char>) -> Option<int>
        decreases i
    {
        if i <= 0 { None } else {
            let was = self.awaiting(ds, i - 1, n);
            match (ds[i - 1].variant, self.outcomes[i - 1]) {
                (raw::DirectiveVariant::Pad(p), Ok(_)) => if p.acc@ == n { Some(i - 1) } else { was },
                // another pad before any balance: neither is in effect then
                (raw::DirectiveVariant::Pad(p), Err(e)) => if p.acc@ == n && e.idx != at_directive(i - 1) { None } else { was },
                (raw::DirectiveVariant::Balance(b), Ok(_)) => if b.acc@ == n { None } else { was },
                (raw::DirectiveVariant::Open(o), Ok(_)) => if o.acc@ == n { None } else { was },
                _ => was,
            }
        }
    }
    closed spec fn awaited(&self, ds: Seq<raw::Directive<'a>>, i: int, n: Seq<char>) -> bool {
        if self.states[i].accounts@.contains_key(n) {
            match (self.states[i].pending(n), self.awaiting(ds, i, n)) {
                (None, None) => true,
                (Some((_, e)), Some(k)) => e == at_directive(k) && 0 <= k < i && self.outcomes[k] is Ok
                    && (ds[k].variant matches raw::DirectiveVariant::Pad(p) && p.acc@ == n),
                _ => false,
            }
        } else { self.awaiting(ds, i, n) is None }
    }
    proof fn lemma_awaited(&self, from: Accumulator<'a, 't>, default: Booking, tolerance: LimaTolerance<'a>, ds: Seq<raw::Directive<'a>>, n: int, i: int, x: Seq<char>)
        requires
            self.ran(from, ds, n),
            from.starts_off(default, tolerance),
            0 <= i <= n,
        ensures
            self.awaited(ds, i, x),
        decreases i
    {
        if i > 0 {
            self.lemma_awaited(from, default, tolerance, ds, n, i - 1, x);
            self.lemma_indexes(from, default, tolerance, ds, n, i - 1);
            self.lemma_tallies(from, default, tolerance, ds, n, i - 1, x);
            assert(self.went(ds, i - 1));
            if let (raw::DirectiveVariant::Transaction(t), Ok((booked::DirectiveVariant::Transaction(y), _))) = (ds[i - 1].variant, self.outcomes[i - 1]) {
                self.states[i].lemma_takes(&self.states[i - 1], ds[i - 1].date, t.postings@, y.postings@);
            }
        }
    }
    /// a pad is in effect from where it stands, without a break
    proof fn lemma_since(&self, from: Accumulator<'a, 't>, default: Booking, tolerance: LimaTolerance<'a>, ds: Seq<raw::Directive<'a>>, n: int, i: int, x: Seq<char>, k: int, m: int)
        requires
            self.ran(from, ds, n),
            from.starts_off(default, tolerance),
            0 <= k < m <= i <= n,
            self.awaiting(ds, i, x) == Some(k),
        ensures
            self.awaiting(ds, m, x) == Some(k),
        decreases i - m
    {
        if m < i {
            self.lemma_since(from, default, tolerance, ds, n, i - 1, x, k, m);
        }
    }
    /// it made up for a balance out of tolerance, at the j-th directive
    closed spec fn serves(&self, ds: Seq<raw::Directive<'a>>, n: int, k: int, j: int) -> bool {
        &&& k < j < n
        &&& ds[k].variant matches raw::DirectiveVariant::Pad(p) && ds[j].variant matches raw::DirectiveVariant::Balance(b)
            && p.acc@ == b.acc@ && self.awaiting(ds, j, b.acc@) == Some(k) && self.outcomes[j] is Ok && !self.states[j].good(b)
    }
    /// no error up to there is at that pad
    closed spec fn blameless(&self, i: int, k: int) -> bool {
        forall|t: int| 0 <= t < self.errors[i].len() ==> (#[trigger] self.errors[i][t]).idx != at_directive(k)
    }
    closed spec fn accused(es: Seq<IndexedReport>, k: int) -> bool {
        exists|t: int| 0 <= t < es.len() && (#[trigger] es[t]).idx == at_directive(k)
    }
    proof fn lemma_blameless(&self, from: Accumulator<'a, 't>, default: Booking, tolerance: LimaTolerance<'a>, ds: Seq<raw::Directive<'a>>, n: int, k: int, j: int, i: int)
        requires
            self.ran(from, ds, n),
            from.starts_off(default, tolerance),
            0 <= k < n,
            self.outcomes[k] is Ok,
            self.serves(ds, n, k, j),
            0 <= i <= n,
        ensures
            self.blameless(i, k),
        decreases i
    {
        if i > 0 {
            let h = i - 1;
            self.lemma_blameless(from, default, tolerance, ds, n, k, j, h);
            assert(self.went(ds, h));
            let x = match ds[k].variant { raw::DirectiveVariant::Pad(p) => p.acc@, _ => Seq::empty() };
            assert forall|y: Seq<char>| #[trigger] self.awaiting(ds, h, y) != Some(k) || h == j || !(match ds[h].variant {
                raw::DirectiveVariant::Balance(b) => b.acc@ == y && self.outcomes[h] is Ok,
                raw::DirectiveVariant::Pad(p) => p.acc@ == y && (self.outcomes[h] matches Err(e) && e.idx != at_directive(h)),
                _ => false,
            }) by {
                self.lemma_awaited(from, default, tolerance, ds, n, h, y);
                self.lemma_awaited(from, default, tolerance, ds, n, h + 1, y);
                if self.awaiting(ds, h, y) == Some(k) {
                    if self.states[h].accounts@.contains_key(y) { assert(x == y); }
                    if h < j { if k < h + 1 { self.lemma_since(from, default, tolerance, ds, n, j, x, k, h + 1); } }
                    if h > j { self.lemma_since(from, default, tolerance, ds, n, h, y, k, j + 1); }
                }
            }
            match ds[h].variant {
                raw::DirectiveVariant::Balance(b) => { self.lemma_awaited(from, default, tolerance, ds, n, h, b.acc@); },
                raw::DirectiveVariant::Pad(p) => { self.lemma_awaited(from, default, tolerance, ds, n, h, p.acc@); self.lemma_indexes(from, default, tolerance, ds, n, h); },
                _ => {},
            }
            assert forall|t: int| 0 <= t < self.errors[i].len() implies (#[trigger] self.errors[i][t]).idx != at_directive(k) by {
                if t < self.errors[h].len() {
                    assert(self.errors[i].take(self.errors[h].len() as int)[t] == self.errors[h][t]);
                    assert(self.errors[h][t].idx != at_directive(k));
                } else {
                    match self.outcomes[h] {
                        Err(e) => {
                            assert(self.errors[i][t] == e);
                            match ds[h].variant {
                                raw::DirectiveVariant::Transaction(y) => { assert(e.idx.directive == h); },
                                raw::DirectiveVariant::Balance(b) => { assert(e.idx.directive == h); },
                                raw::DirectiveVariant::Open(b) => { assert(e.idx.directive == h); },
                                raw::DirectiveVariant::Close(b) => { assert(e.idx.directive == h); },
                                raw::DirectiveVariant::Pad(b) => {
                                    self.lemma_tallies(from, default, tolerance, ds, n, h, b.acc@);
                                    if e.idx == at_directive(k) {
                                        assert(self.awaiting(ds, h, b.acc@) == Some(k));
                                    }
                                },
                                _ => {},
                            }
                        },
                        Ok((booked::DirectiveVariant::Balance(b), _)) => {
                            assert(self.errors[i][t] == self.errors[i].last());
                            assert(b.unused_pad is Some ==> b.margin is None);
                            if b.unused_pad is None { assert(self.errors[i][t].idx.directive == h); }
                        },
                        _ => {},
                    }
                }
            }
        }
    }
    /// once reported it stays so
    proof fn lemma_accused(&self, from: Accumulator<'a, 't>, ds: Seq<raw::Directive<'a>>, n: int, k: int, i: int, j: int)
        requires
            self.ran(from, ds, n),
            0 <= i <= j <= n,
            Self::accused(self.errors[i], k),
        ensures
            Self::accused(self.errors[j], k),
        decreases j - i
    {
        if i < j {
            self.lemma_accused(from, ds, n, k, i, j - 1);
            assert(self.went(ds, j - 1));
            let t = choose|t: int| 0 <= t < self.errors[j - 1].len() && (#[trigger] self.errors[j - 1][t]).idx == at_directive(k);
            assert(self.errors[j].take(self.errors[j - 1].len() as int)[t] == self.errors[j - 1][t]);
            assert(self.errors[j][t].idx == at_directive(k));
        }
    }
    /// up to there the pad is still in effect, or made up for a balance, or was reported
    proof fn lemma_fate(&self, from: Accumulator<'a, 't>, default: Booking, tolerance: LimaTolerance<'a>, ds: Seq<raw::Directive<'a>>, n: int, k: int, x: Seq<char>, i: int)
        requires
            self.ran(from, ds, n),
            from.starts_off(default, tolerance),
            0 <= k < i <= n,
            ds[k].variant matches raw::DirectiveVariant::Pad(p) && p.acc@ == x,
            self.outcomes[k] is Ok,
        ensures
            self.awaiting(ds, i, x) == Some(k) || (exists|j: int| #[trigger] self.serves(ds, n, k, j)) || Self::accused(self.errors[i], k),
        decreases i
    {
        if i > k + 1 {
            let h = i - 1;
            self.lemma_fate(from, default, tolerance, ds, n, k, x, h);
            assert(self.went(ds, h));
            if Self::accused(self.errors[h], k) { self.lemma_accused(from, ds, n, k, h, i); }
            else if self.awaiting(ds, h, x) == Some(k) && self.awaiting(ds, i, x) != Some(k) {
                self.lemma_awaited(from, default, tolerance, ds, n, h, x);
                self.lemma_tallies(from, default, tolerance, ds, n, h, x);
                self.lemma_indexes(from, default, tolerance, ds, n, h);
                match ds[h].variant {
                    raw::DirectiveVariant::Balance(b) => {
                        if self.states[h].good(b) {
                            assert(self.errors[i].last().idx == at_directive(k));
                        } else {
                            assert(self.serves(ds, n, k, h));
                        }
                    },
                    raw::DirectiveVariant::Pad(p) => {
                        assert(self.errors[i].last().idx == at_directive(k));
                    },
                    _ => {},
                }
            }
        }
    }
    /// C06: a pad which was accepted either made up for a balance and is not reported, or is reported as unused
    proof fn pads_accounted_for(&self, from: Accumulator<'a, 't>, default: Booking, tolerance: LimaTolerance<'a>, ds: Seq<raw::Directive<'a>>, r: Result<BookingSuccess<'a>, BookingFailure>, k: int, x: Seq<char>)
        requires
            self.ended(from, ds, r),
            from.starts_off(default, tolerance),
            0 <= k < ds.len(),
            ds[k].variant matches raw::DirectiveVariant::Pad(p) && p.acc@ == x,
            self.outcomes[k] is Ok,
        ensures
            ({
                let served = exists|j: int| #[trigger] self.serves(ds, ds.len() as int, k, j);
                let reported = match r { Ok(_) => false, Err(f) => Self::accused(f.errors@, k) };
                served != reported
            }),
    {
        let n = ds.len() as int;
        self.lemma_fate(from, default, tolerance, ds, n, k, x, n);
        self.lemma_awaited(from, default, tolerance, ds, n, n, x);
        let last = self.states[n];
        let es = match r { Ok(_) => Seq::empty(), Err(f) => f.errors@ };
        let m = self.errors[n].len() as int;
        let rest = match r { Ok(_) => Seq::empty(), Err(f) => f.errors@.skip(m) };
        let q = choose|q: Seq<Seq<char>>| #[trigger] last.left_in(q) && last.reported_unused(q, rest);
        assert(r is Err ==> es =~= self.errors[n] + rest);
        if exists|j: int| #[trigger] self.serves(ds, n, k, j) {
            let j = choose|j: int| #[trigger] self.serves(ds, n, k, j);
            self.lemma_blameless(from, default, tolerance, ds, n, k, j, n);
            assert forall|t: int| 0 <= t < es.len() implies (#[trigger] es[t]).idx != at_directive(k) by {
                if t < m { assert(es[t] == self.errors[n][t]); } else {
                    let y = q[t - m];
                    assert(es[t] == rest[t - m]);
                    assert(q.contains(y));
                    self.lemma_awaited(from, default, tolerance, ds, n, n, y);
                    if es[t].idx == at_directive(k) {
                        assert(self.awaiting(ds, n, y) == Some(k));
                        assert(x == y);
                        self.lemma_since(from, default, tolerance, ds, n, n, y, k, j + 1);
                    }
                }
            }
        } else if Self::accused(self.errors[n], k) {
            let t = choose|t: int| 0 <= t < self.errors[n].len() && (#[trigger] self.errors[n][t]).idx == at_directive(k);
            assert(es[t] == self.errors[n][t]);
        } else {
            assert(q.contains(x));
            let t = choose|t: int| 0 <= t < q.len() && q[t] == x;
            assert(rest[t].idx == at_directive(k));
            assert(es[m + t] == rest[t]);
        }
    }
}
// ---- C10: where errors are
/// the element is there
pub(crate) open spec fn there<'a>(ds: Seq<raw::Directive<'a>>, e: ElementIdx) -> bool {
    &&& e.directive < ds.len()
    &&& match e.posting {
        None => true,
        Some(p) => ds[e.directive as int].variant matches raw::DirectiveVariant::Transaction(t) && p < t.postings@.len(),
    }
}
pub(crate) open spec fn all_there<'a>(ds: Seq<raw::Directive<'a>>, r: IndexedReport) -> bool {
    &&& there(ds, r.idx)
    &&& match r.related { None => true, Some(q) => forall|i: int| 0 <= i < q@.len() ==> there(ds, #[trigger] q@[i]) }
}
impl<'a, 't> Accumulator<'a, 't> {
    proof fn lemma_rejects_there(&self, o: &Self, ds: Seq<raw::Directive<'a>>, h: int, bd0: Seq<booked::Directive<'a>>, bd1: Seq<booked::Directive<'a>>, e: IndexedReport)
        requires
            o.wf(),
            o.looks_back(h),
            0 <= h < ds.len() <= usize::MAX,
            self.rejects(o, ds[h], at_directive(h), bd0, bd1, e),
        ensures
            all_there(ds, e),
    {
        assert forall|n: Seq<char>, c: Seq<char>| match #[trigger] o.refuses(n, c) { Some(Some(x)) => there(ds, x), _ => true } by {}
        assert forall|n: Seq<char>| match #[trigger] o.unavailable(n) { Some(Some(x)) => there(ds, x), _ => true } by {}
        match ds[h].variant {
            raw::DirectiveVariant::Transaction(y) => {
                match o.booking_of(ds[h].date, y.postings@) {
                    Ok(b) => {
                        let is = b.interpolated_postings@;
                        let k = choose|k: int| #[trigger] o.first_refused(y.postings@, is, k)
                            && told(e, ElementIdx { directive: h as usize, posting: Some(k as usize) }, o.refuses(y.postings@[k].acc@, is[k].currency@));
                        assert(y.postings.len() as int == y.postings@.len());
                        assert(all_there(ds, e));
                    },
                    Err(_) => {},
                }
            },
            raw::DirectiveVariant::Balance(b) => { assert(all_there(ds, e)); },
            raw::DirectiveVariant::Open(b) => { assert(all_there(ds, e)); },
            raw::DirectiveVariant::Close(b) => { assert(all_there(ds, e)); },
            raw::DirectiveVariant::Pad(b) => { assert(all_there(ds, e)); },
            _ => {},
        }
    }
}
impl<'a, 't> Course<'a, 't> {
    proof fn lemma_there(&self, from: Accumulator<'a, 't>, default: Booking, tolerance: LimaTolerance<'a>, ds: Seq<raw::Directive<'a>>, n: int, i: int)
        requires
            self.ran(from, ds, n),
            from.starts_off(default, tolerance),
            0 <= i <= n,
        ensures
            forall|t: int| 0 <= t < self.errors[i].len() ==> all_there(ds, #[trigger] self.errors[i][t]),
        decreases i
    {
        if i > 0 {
            let h = i - 1;
            self.lemma_there(from, default, tolerance, ds, n, h);
            self.lemma_indexes(from, default, tolerance, ds, n, h);
            self.lemma_tallies(from, default, tolerance, ds, n, h, Seq::empty());
            assert(self.went(ds, h));
            let o = self.states[h];
            assert forall|t: int| 0 <= t < self.errors[i].len() implies all_there(ds, #[trigger] self.errors[i][t]) by {
                if t < self.errors[h].len() {
                    assert(self.errors[i].take(self.errors[h].len() as int)[t] == self.errors[h][t]);
                    assert(all_there(ds, self.errors[h][t]));
                } else {
                    match self.outcomes[h] {
                        Err(e) => {
                            self.states[i].lemma_rejects_there(&o, ds, h, self.outs[h], self.mids[h], e);
                            assert(self.errors[i][t] == e);
                        },
                        Ok((booked::DirectiveVariant::Balance(b), _)) => {
                            assert(self.errors[i][t] == self.errors[i].last());
                            assert(b.unused_pad is Some ==> b.margin is None);
                        },
                        _ => {},
                    }
                }
            }
        }
    }
    /// C10: booked directives come with no error; else every error, and all it refers to, is at an element of the ledger
    pub(crate) proof fn errors_are_there(&self, from: Accumulator<'a, 't>, default: Booking, tolerance: LimaTolerance<'a>, ds: Seq<raw::Directive<'a>>, r: Result<BookingSuccess<'a>, BookingFailure>)
        requires
            self.ended(from, ds, r),
            from.starts_off(default, tolerance),
        ensures
            match r {
                Ok(_) => self.errors[ds.len() as int].len() == 0,
                Err(f) => f.errors@.len() > 0 && forall|t: int| 0 <= t < f.errors@.len() ==> all_there(ds, #[trigger] f.errors@[t]),
            },
    {
        let n = ds.len() as int;
        if let Err(f) = r {
            self.lemma_there(from, default, tolerance, ds, n, n);
            self.lemma_indexes(from, default, tolerance, ds, n, n);
            let m = self.errors[n].len() as int;
            let last = self.states[n];
            let rest = f.errors@.skip(m);
            let q = choose|q: Seq<Seq<char>>| #[trigger] last.left_in(q) && last.reported_unused(q, rest);
            assert forall|t: int| 0 <= t < f.errors@.len() implies all_there(ds, #[trigger] f.errors@[t]) by {
                if t < m { assert(f.errors@.take(m)[t] == self.errors[n][t]); } else {
                    assert(f.errors@[t] == rest[t - m]);
                    assert(q.contains(q[t - m]));
                }
            }
        }
    }
}

// ---- C09, C05: what is put out where
/// where in the output what is made of the i-th directive stands: a pad takes two places
pub(crate) open spec fn spot<'a>(ds: Seq<raw::Directive<'a>>, i: int) -> int
    decreases i
{
    if i <= 0 { 0 } else { spot(ds, i - 1) + if ds[i - 1].variant is Pad { 2int } else { 1int } }
}
proof fn lemma_spot<'a>(ds: Seq<raw::Directive<'a>>, i: int, j: int)
    requires
        0 <= i < j,
    ensures
        spot(ds, i) + (if ds[i].variant is Pad { 2int } else { 1int }) <= spot(ds, j),
    decreases j
{
    if i < j - 1 { lemma_spot(ds, i, j - 1); }
}
/// the assertion made by a directive, if it makes one
pub(crate) open spec fn asserted<'a>(d: raw::Directive<'a>) -> raw::Balance<'a> {
    match d.variant { raw::DirectiveVariant::Balance(b) => b, _ => arbitrary() }
}
/// of the same kind, with what belongs to the kind unchanged
pub(crate) open spec fn alike<'a>(v: Kind<'a>, d: raw::DirectiveVariant<'a>) -> bool {
    match d {
        raw::DirectiveVariant::Balance(y) => v matches booked::DirectiveVariant::Balance(x) && x.raw == y,
        raw::DirectiveVariant::Transaction(y) => v matches booked::DirectiveVariant::Transaction(x) && headed(y, x),
        raw::DirectiveVariant::Open(y) => v == booked::DirectiveVariant::Open(y),
        raw::DirectiveVariant::Close(y) => v == booked::DirectiveVariant::Close(y),
        raw::DirectiveVariant::Pad(y) => v == booked::DirectiveVariant::Pad(y),
        raw::DirectiveVariant::Price(y) => v == booked::DirectiveVariant::Price(y),
        raw::DirectiveVariant::Commodity(y) => v == booked::DirectiveVariant::Commodity(y),
        raw::DirectiveVariant::Document(y) => v == booked::DirectiveVariant::Document(y),
        raw::DirectiveVariant::Note(y) => v == booked::DirectiveVariant::Note(y),
        raw::DirectiveVariant::Event(y) => v == booked::DirectiveVariant::Event(y),
        raw::DirectiveVariant::Query(y) => v == booked::DirectiveVariant::Query(y),
        raw::DirectiveVariant::Custom(y) => v == booked::DirectiveVariant::Custom(y),
    }
}
/// made of that directive
pub(crate) open spec fn stands_for<'a>(b: booked::Directive<'a>, d: raw::Directive<'a>, i: int) -> bool {
    made_of(b, d, i, b.variant) && alike(b.variant, d.variant)
}
/// the transaction which a pad adds
pub(crate) open spec fn pads_for<'a>(b: booked::Directive<'a>, d: raw::Directive<'a>, i: int) -> bool {
    made_of(b, d, i, b.variant) && (b.variant matches booked::DirectiveVariant::Transaction(t) && t.flag@ == "'P"@ && t.payee is None && t.narration is None)
}
/// one for each of the first i directives, in order, and one more for each pad
pub(crate) open spec fn laid_out<'a>(ds: Seq<raw::Directive<'a>>, os: Seq<Outcome<'a>>, out: Seq<booked::Directive<'a>>, i: int) -> bool {
    &&& out.len() == spot(ds, i)
    &&& forall|k: int| 0 <= k < i ==> #[trigger] in_place(ds, os, out, k)
}
/// what is made of the k-th directive is where it should be
pub(crate) open spec fn in_place<'a>(ds: Seq<raw::Directive<'a>>, os: Seq<Outcome<'a>>, out: Seq<booked::Directive<'a>>, k: int) -> bool {
    &&& stands_for(out[spot(ds, k)], ds[k], k)
    &&& os[k] matches Ok((v, _)) && out[spot(ds, k)].variant == v
    &&& ds[k].variant is Pad ==> pads_for(out[spot(ds, k) + 1], ds[k], k)
}
proof fn lemma_laid_next<'a>(ds: Seq<raw::Directive<'a>>, os: Seq<Outcome<'a>>, out0: Seq<booked::Directive<'a>>, mid: Seq<booked::Directive<'a>>, out1: Seq<booked::Directive<'a>>, h: int,
    fill: Option<(int, raw::Balance<'a>, Seq<char>, real)>, v: Kind<'a>, x: Option<Kind<'a>>)
    requires
        0 <= h < ds.len(),
        laid_out(ds, os, out0, h),
        mid.len() == out0.len(),
        match fill {
            None => mid == out0,
            Some((q, b, source, by)) => 0 <= q < h && ds[q].variant is Pad && (forall|j: int| 0 <= j < out0.len() && j != spot(ds, q) + 1 ==> #[trigger] mid[j] == out0[j])
                && padded(out0[spot(ds, q) + 1], mid[spot(ds, q) + 1], b, source, by),
        },
        0 <= h < os.len(),
        os[h] == Ok::<(Kind<'a>, Option<Kind<'a>>), IndexedReport>((v, x)),
        put_out(mid, out1, ds[h], h, os[h]),
        alike(v, ds[h].variant),
        match x {
            Some(y) => ds[h].variant is Pad && (y matches booked::DirectiveVariant::Transaction(t) && padding(t)),
            None => !(ds[h].variant is Pad),
        },
    ensures
        laid_out(ds, os, out1, h + 1),
{
    assert forall|k: int| 0 <= k < h implies #[trigger] in_place(ds, os, mid, k) by {
        lemma_spot(ds, k, h);
        lemma_spot_positive(ds, k);
        if let Some((q, _, _, _)) = fill {
            lemma_spot_positive(ds, q);
            lemma_spot(ds, q, h);
            if k < q { lemma_spot(ds, k, q); }
            if q < k { lemma_spot(ds, q, k); }
        }
        assert(in_place(ds, os, out0, k));
    }
    assert forall|k: int| 0 <= k < h + 1 implies #[trigger] in_place(ds, os, out1, k) by {
        lemma_spot_positive(ds, k);
        if k < h {
            lemma_spot(ds, k, h);
            assert(in_place(ds, os, mid, k));
            assert(out1.take(mid.len() as int)[spot(ds, k)] == mid[spot(ds, k)]);
            if ds[k].variant is Pad { assert(out1.take(mid.len() as int)[spot(ds, k) + 1] == mid[spot(ds, k) + 1]); }
        }
    }
}
impl<'a, 't> Course<'a, 't> {
    proof fn lemma_no_errors(&self, from: Accumulator<'a, 't>, ds: Seq<raw::Directive<'a>>, n: int, i: int)
        requires
            self.ran(from, ds, n),
            0 <= i <= n,
            self.errors[n].len() == 0,
        ensures
            self.errors[i].len() == 0,
            i < n ==> self.outcomes[i] is Ok,
        decreases n - i
    {
        if i < n {
            self.lemma_no_errors(from, ds, n, i + 1);
            assert(self.went(ds, i));
        }
    }
    /// pads pending are where their directives are laid out
    closed spec fn placed(&self, ds: Seq<raw::Directive<'a>>, i: int) -> bool {
        forall|x: Seq<char>| #[trigger] self.states[i].accounts@.contains_key(x) ==> match self.states[i].pending(x) {
            None => true,
            Some((at, e)) => 0 <= e.directive < i && ds[e.directive as int].variant is Pad && at == spot(ds, e.directive as int)
                && (ds[e.directive as int].variant matches raw::DirectiveVariant::Pad(p) && p.acc@ == x),
        }
    }
    proof fn lemma_laid_out(&self, from: Accumulator<'a, 't>, default: Booking, tolerance: LimaTolerance<'a>, ds: Seq<raw::Directive<'a>>, n: int, i: int)
        requires
            self.ran(from, ds, n),
            from.starts_off(default, tolerance),
            self.errors[n].len() == 0,
            0 <= i <= n,
        ensures
            laid_out(ds, self.outcomes, self.outs[i], i),
            self.placed(ds, i),
        decreases i
    {
        hide(Accumulator::did);
        if i > 0 {
            let h = i - 1;
            self.lemma_laid_out(from, default, tolerance, ds, n, h);
            self.lemma_no_errors(from, ds, n, h);
            assert(self.went(ds, h));
            self.lemma_tallies(from, default, tolerance, ds, n, h, Seq::empty());
            let (o, s, mid) = (self.states[h], self.states[i], self.mids[h]);
            s.lemma_placed(&o, ds[h], at_directive(h), self.outs[h], mid, self.outcomes[h]);
            s.lemma_fills_in(&o, ds[h], at_directive(h), self.outs[h], mid, self.outcomes[h]);
            let (v, x) = match self.outcomes[h] { Ok(y) => y, Err(_) => arbitrary() };
            let fill = if mid == self.outs[h] { None } else {
                match o.pending(asserted(ds[h]).acc@) { Some((_, e)) => Some((e.directive as int, asserted(ds[h]), source_at(self.outs[h], spot(ds, e.directive as int)), o.off(asserted(ds[h])))), None => None }
            };
            lemma_laid_next(ds, self.outcomes, self.outs[h], mid, self.outs[i], h, fill, v, x);
            assert(self.placed(ds, i)) by {
                assert forall|x: Seq<char>| #[trigger] s.accounts@.contains_key(x) implies match s.pending(x) {
                    None => true,
                    Some((at, e)) => 0 <= e.directive < i && ds[e.directive as int].variant is Pad && at == spot(ds, e.directive as int)
                        && (ds[e.directive as int].variant matches raw::DirectiveVariant::Pad(p) && p.acc@ == x),
                } by {}
            }
        }
    }
    /// C09: when booking succeeds what is put out corresponds to the directives, one by one, in order, but for the transactions pads add
    proof fn one_to_one(&self, from: Accumulator<'a, 't>, default: Booking, tolerance: LimaTolerance<'a>, ds: Seq<raw::Directive<'a>>, r: Result<BookingSuccess<'a>, BookingFailure>)
        requires
            self.ended(from, ds, r),
            from.starts_off(default, tolerance),
        ensures
            r matches Ok(s) ==> laid_out(ds, self.outcomes, s.directives@, ds.len() as int),
    {
        if r is Ok {
            self.lemma_laid_out(from, default, tolerance, ds, ds.len() as int, ds.len() as int);
        }
    }
    proof fn lemma_padded(&self, from: Accumulator<'a, 't>, default: Booking, tolerance: LimaTolerance<'a>, ds: Seq<raw::Directive<'a>>, n: int, k: int, j: int, i: int)
        requires
            self.ran(from, ds, n),
            from.starts_off(default, tolerance),
            self.errors[n].len() == 0,
            0 <= k < j < i <= n,
            self.serves(ds, n, k, j),
        ensures
            made_up(ds, self.outs[i], k, j, self.states[j].off(asserted(ds[j]))),
        decreases i
    {
        hide(Accumulator::did);
        let h = i - 1;
        self.lemma_laid_out(from, default, tolerance, ds, n, h);
        self.lemma_no_errors(from, ds, n, h);
        self.lemma_tallies(from, default, tolerance, ds, n, h, Seq::empty());
        assert(self.went(ds, h));
        lemma_spot(ds, k, h);
        lemma_spot_positive(ds, k);
        let (o, mid) = (self.states[h], self.mids[h]);
        self.states[i].lemma_fills_in(&o, ds[h], at_directive(h), self.outs[h], mid, self.outcomes[h]);
        let at1 = spot(ds, k) + 1;
        assert(self.outs[i].take(mid.len() as int)[at1] == mid[at1]);
        if h > j {
            self.lemma_padded(from, default, tolerance, ds, n, k, j, h);
            let b = asserted(ds[h]);
            if mid != self.outs[h] {
                self.lemma_awaited(from, default, tolerance, ds, n, h, b.acc@);
                match o.pending(b.acc@) {
                    Some((at, e)) => {
                        let q = e.directive as int;
                        if q == k {
                            self.lemma_since(from, default, tolerance, ds, n, h, b.acc@, k, j + 1);
                            assert(false);
                        }
                        lemma_spot_positive(ds, q);
                        if k < q { lemma_spot(ds, k, q); }
                        if q < k { lemma_spot(ds, q, k); }
                    },
                    None => {},
                }
            }
            assert(mid[at1] == self.outs[h][at1]);
        } else {
            let b = asserted(ds[j]);
            self.lemma_awaited(from, default, tolerance, ds, n, j, b.acc@);
            self.states[i].lemma_filled(&o, ds[j], at_directive(j), self.outs[j], mid, self.outcomes[j]);
            assert(in_place(ds, self.outcomes, self.outs[j], k));
        }
    }
    /// C05: the transaction after a pad which made up for a balance holds the difference to the one account and its negation to the other
    proof fn pads_make_up(&self, from: Accumulator<'a, 't>, default: Booking, tolerance: LimaTolerance<'a>, ds: Seq<raw::Directive<'a>>, r: Result<BookingSuccess<'a>, BookingFailure>, k: int, j: int)
        requires
            self.ended(from, ds, r),
            from.starts_off(default, tolerance),
            0 <= k,
            self.serves(ds, ds.len() as int, k, j),
        ensures
            r matches Ok(s) ==> made_up(ds, s.directives@, k, j, self.states[j].off(asserted(ds[j]))),
    {
        if r is Ok {
            self.lemma_padded(from, default, tolerance, ds, ds.len() as int, k, j, ds.len() as int);
        }
    }
    /// C05, C06: a pad makes up for at most one balance
    proof fn serves_once(&self, from: Accumulator<'a, 't>, default: Booking, tolerance: LimaTolerance<'a>, ds: Seq<raw::Directive<'a>>, n: int, k: int, i: int, j: int)
        requires
            self.ran(from, ds, n),
            from.starts_off(default, tolerance),
            0 <= k,
            self.serves(ds, n, k, i),
            self.serves(ds, n, k, j),
        ensures
            i == j,
    {
        let b = asserted(ds[i]);
        let c = asserted(ds[j]);
        if i < j { self.lemma_since(from, default, tolerance, ds, n, j, c.acc@, k, i + 1); }
        if j < i { self.lemma_since(from, default, tolerance, ds, n, i, b.acc@, k, j + 1); }
    }
}
/// the transaction of the k-th directive, a pad, makes up for the j-th, a balance
pub(crate) open spec fn made_up<'a>(ds: Seq<raw::Directive<'a>>, out: Seq<booked::Directive<'a>>, k: int, j: int, by: real) -> bool {
    match (ds[k].variant, ds[j].variant, out[spot(ds, k) + 1].variant) {
        (raw::DirectiveVariant::Pad(p), raw::DirectiveVariant::Balance(b), booked::DirectiveVariant::Transaction(t)) => pad_postings(t.postings@, p.acc@, p.source@, b.cur@, by),
        _ => false,
    }
}
proof fn lemma_spot_positive<'a>(ds: Seq<raw::Directive<'a>>, i: int)
    ensures
        spot(ds, i) >= 0,
    decreases i
{
    if i > 0 { lemma_spot_positive(ds, i - 1); }
}
impl<'a, 't> Accumulator<'a, 't> {
    /// what is already put out is left alone, but for the transaction of the pad in effect
    closed spec fn fills_in(o: &Self, d: raw::Directive<'a>, bd0: Seq<booked::Directive<'a>>, bd1: Seq<booked::Directive<'a>>) -> bool {
        ||| bd1 == bd0
        ||| {
            &&& d.variant is Balance
            &&& bd1.len() == bd0.len()
            &&& o.accounts@.contains_key(asserted(d).acc@)
            &&& o.pending(asserted(d).acc@) matches Some((at, _)) && (forall|j: int| 0 <= j < bd0.len() && j != at + 1 ==> #[trigger] bd1[j] == bd0[j])
                && padded(bd0[at + 1], bd1[at + 1], asserted(d), source_at(bd0, at as int), o.off(asserted(d)))
        }
    }
    proof fn lemma_fills_in(&self, o: &Self, d: raw::Directive<'a>, e: ElementIdx, bd0: Seq<booked::Directive<'a>>, bd1: Seq<booked::Directive<'a>>, r: Outcome<'a>)
        requires
            o.wf(),
            self.did(o, d, e, bd0, bd1, r),
        ensures
            Self::fills_in(o, d, bd0, bd1),
            r matches Ok((v, x)) ==> alike(v, d.variant) && match x {
                Some(y) => d.variant is Pad && (y matches booked::DirectiveVariant::Transaction(t) && padding(t)),
                None => !(d.variant is Pad),
            },
    {
    }
    proof fn lemma_filled(&self, o: &Self, d: raw::Directive<'a>, e: ElementIdx, bd0: Seq<booked::Directive<'a>>, bd1: Seq<booked::Directive<'a>>, r: Outcome<'a>)
        requires
            o.wf(),
            self.did(o, d, e, bd0, bd1, r),
            d.variant is Balance,
            r is Ok,
            !o.good(asserted(d)),
            o.pending(asserted(d).acc@) is Some,
        ensures
            o.accounts@.contains_key(asserted(d).acc@),
            o.pending(asserted(d).acc@) matches Some((at, _)) && padded(bd0[at + 1], bd1[at + 1], asserted(d), source_at(bd0, at as int), o.off(asserted(d))),
    {
    }
    /// only a pad makes one pending
    proof fn lemma_placed(&self, o: &Self, d: raw::Directive<'a>, e: ElementIdx, bd0: Seq<booked::Directive<'a>>, bd1: Seq<booked::Directive<'a>>, r: Outcome<'a>)
        requires
            o.wf(),
            self.did(o, d, e, bd0, bd1, r),
        ensures
            forall|x: Seq<char>| #[trigger] self.accounts@.contains_key(x) ==> match self.pending(x) {
                None => true,
                Some(p) => (o.accounts@.contains_key(x) && o.pending(x) == Some(p)) || (r is Ok && p == (bd0.len() as usize, e) && (d.variant matches raw::DirectiveVariant::Pad(y) && y.acc@ == x)),
            },
    {
        if let (raw::DirectiveVariant::Transaction(t), Ok((booked::DirectiveVariant::Transaction(y), _))) = (d.variant, r) {
            self.lemma_takes(o, d.date, t.postings@, y.postings@);
        }
    }
}
}
@lemma Course::usable : C01 C02
@lemma Course::lemma_tallies : C01 C02 C12
@lemma Accumulator::lemma_steady : C01 C02 C12
@lemma Accumulator::lemma_takes : C01 C02 C12
@lemma Course::outcome_as_told : C01 C02
@lemma Course::transaction_as_told : C01 C02
@lemma Course::method_as_told : C12
@lemma Course::decided_as_written : C21
@lemma Course::lemma_tolerance : C21
@lemma lemma_left_with : C21
@lemma lemma_left_alone : C21
@lemma Course::lemma_indexes : C10 C01
@lemma Accumulator::lemma_moved : C03 C05 C08
@lemma Accumulator::settles : C03 C05 C08
@lemma Accumulator::rejected_without_trace : C07
@lemma Accumulator::judged_alike : C07
@lemma Accumulator::lemma_looks_back : C10 C01
@lemma Course::lemma_awaited : C06
@lemma Course::lemma_since : C06
@lemma Course::lemma_blameless : C06
@lemma Course::lemma_accused : C06
@lemma Course::lemma_fate : C06
@lemma Course::pads_accounted_for : C06
@lemma Accumulator::lemma_rejects_there : C10
@lemma Course::lemma_there : C10
@lemma Course::errors_are_there : C10
@lemma lemma_spot : C09 C05
@lemma lemma_spot_positive : C09 C05
@lemma Accumulator::lemma_placed : C09 C05
@lemma Course::lemma_no_errors : C09 C05
@lemma Course::lemma_laid_out : C09 C05
@lemma Course::one_to_one : C09
@lemma Course::lemma_padded : C05
@lemma Course::pads_make_up : C05
@lemma Course::serves_once : C05 C06
@lemma Accumulator::lemma_fills_in : C09 C05
@lemma Accumulator::lemma_filled : C05
@lemma lemma_laid_next : C09 C05
