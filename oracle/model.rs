//! Executable reading of the contracts: what booking a list of directives must yield.
//!
//! Written from the property statements.  The booking algorithm for one transaction (lot matching, interpolation,
//! balancing) is the limabean-booking crate's and is called here as it is there: it is a trusted dependency.  The
//! rest (lifecycle, currencies, tolerances, roll-up, pads, localisation, output) is independent of the code in /repo.
use limabean_booking::{Booking, Bookings, CostSpec, LimaParserBookingTypes, LimaTolerance, PostingSpec, PriceSpec};
use crate::r#gen::dec;
use rust_decimal::Decimal;
use serde_json::{Map, Value, json};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use time::Date;

thread_local! { pub static IN_DEPENDENCY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
pub type S = &'static str;
pub type Types = LimaParserBookingTypes<'static>;
pub type Positions = limabean_booking::Positions<Types>;

#[derive(Clone, Debug, PartialEq)]
pub enum Meta {
    Amount(Decimal, S),
    Str(S),
    Cur(S),
    Acc(S),
    Tag(S),
    Link(S),
    Date(Date),
    Bool(bool),
    Num(Decimal),
    Null,
}

#[derive(Clone, Debug, Default)]
pub struct Extras {
    pub tags: Option<BTreeSet<S>>,
    pub links: Option<BTreeSet<S>>,
    pub meta: Option<BTreeMap<S, Meta>>,
}

#[derive(Clone, Debug, Default)]
pub struct Cost {
    pub per_unit: Option<Decimal>,
    pub total: Option<Decimal>,
    pub cur: Option<S>,
    pub date: Option<Date>,
    pub label: Option<S>,
    pub merge: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Price {
    pub per_unit: Option<Decimal>,
    pub total: Option<Decimal>,
    pub cur: Option<S>,
}

#[derive(Clone, Debug, Default)]
pub struct Posting {
    pub flag: Option<S>,
    pub acc: S,
    pub units: Option<Decimal>,
    pub cur: Option<S>,
    pub cost: Option<Cost>,
    pub price: Option<Price>,
    pub x: Extras,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Txn { flag: S, payee: Option<S>, narration: Option<S>, postings: Vec<Posting> },
    Price { cur: S, per_unit: Decimal, pcur: S },
    Balance { acc: S, units: Decimal, cur: S, tol: Option<Decimal> },
    Open { acc: S, curs: Option<BTreeSet<S>>, booking: Option<S> },
    Close { acc: S },
    Commodity { cur: S },
    Pad { acc: S, source: S },
    Document { acc: S, path: S },
    Note { acc: S, comment: S },
    Event { type_: S, desc: S },
    Query { name: S, content: S },
    Custom { type_: S, values: Vec<Meta> },
}

#[derive(Clone, Debug)]
pub struct Dir {
    pub date: Date,
    pub kind: Kind,
    pub x: Extras,
}

impl Kind {
    pub fn name(&self) -> S {
        match self {
            Kind::Txn { .. } => "txn",
            Kind::Price { .. } => "price",
            Kind::Balance { .. } => "balance",
            Kind::Open { .. } => "open",
            Kind::Close { .. } => "close",
            Kind::Commodity { .. } => "commodity",
            Kind::Pad { .. } => "pad",
            Kind::Document { .. } => "document",
            Kind::Note { .. } => "note",
            Kind::Event { .. } => "event",
            Kind::Query { .. } => "query",
            Kind::Custom { .. } => "custom",
        }
    }
}

impl PostingSpec for Posting {
    type Types = Types;
    type CostSpec = Cost;
    type PriceSpec = Price;
    fn account(&self) -> S {
        self.acc
    }
    fn units(&self) -> Option<Decimal> {
        self.units
    }
    fn currency(&self) -> Option<S> {
        self.cur
    }
    fn cost(&self) -> Option<&Cost> {
        self.cost.as_ref()
    }
    fn price(&self) -> Option<&Price> {
        self.price.as_ref()
    }
}
impl CostSpec for Cost {
    type Types = Types;
    fn date(&self) -> Option<Date> {
        self.date
    }
    fn per_unit(&self) -> Option<Decimal> {
        self.per_unit
    }
    fn total(&self) -> Option<Decimal> {
        self.total
    }
    fn currency(&self) -> Option<S> {
        self.cur
    }
    fn label(&self) -> Option<Cow<'static, str>> {
        self.label.map(Cow::Borrowed)
    }
    fn merge(&self) -> bool {
        self.merge
    }
}
impl PriceSpec for Price {
    type Types = Types;
    fn per_unit(&self) -> Option<Decimal> {
        self.per_unit
    }
    fn total(&self) -> Option<Decimal> {
        self.total
    }
    fn currency(&self) -> Option<S> {
        self.cur
    }
}

pub fn fmt_date(d: Date) -> String {
    format!("{:04}-{:02}-{:02}", d.year(), d.month() as u8, d.day())
}
pub fn num(d: Decimal) -> Value {
    // exact digits
    serde_json::from_str(&d.to_string()).unwrap()
}

pub fn meta_json(m: &Meta) -> Value {
    match m {
        Meta::Amount(n, c) => json!({"units": num(*n), "cur": c}),
        Meta::Str(s) => json!({"string": s}),
        Meta::Cur(s) => json!({"cur": s}),
        Meta::Acc(s) => json!({"acc": s}),
        Meta::Tag(s) => json!({"tag": s}),
        Meta::Link(s) => json!({"link": s}),
        Meta::Date(d) => json!({"date": fmt_date(*d)}),
        Meta::Bool(b) => json!({"bool": b}),
        Meta::Num(n) => json!({"number": num(*n)}),
        Meta::Null => Value::Null,
    }
}

fn put(m: &mut Map<String, Value>, k: &str, v: Option<Value>) {
    if let Some(v) = v {
        m.insert(k.into(), v);
    }
}
fn extras_json(m: &mut Map<String, Value>, x: &Extras) {
    put(m, "tags", x.tags.as_ref().map(|t| json!(t)));
    put(m, "links", x.links.as_ref().map(|t| json!(t)));
    put(
        m,
        "metadata",
        x.meta.as_ref().map(|t| Value::Object(t.iter().map(|(k, v)| (k.to_string(), meta_json(v))).collect())),
    );
}

/// The wire form of an unbooked directive.
pub fn raw_json(d: &Dir) -> Value {
    let mut m = Map::new();
    m.insert("date".into(), json!(fmt_date(d.date)));
    extras_json(&mut m, &d.x);
    m.insert("dct".into(), json!(d.kind.name()));
    if let Kind::Txn { flag, payee, narration, postings } = &d.kind {
        m.insert("flag".into(), json!(flag));
        put(&mut m, "payee", payee.map(|x| json!(x)));
        put(&mut m, "narration", narration.map(|x| json!(x)));
        m.insert("postings".into(), Value::Array(postings.iter().map(raw_posting_json).collect()));
    } else {
        kind_json(&mut m, &d.kind);
    }
    Value::Object(m)
}

pub fn raw_posting_json(p: &Posting) -> Value {
    let mut m = Map::new();
    put(&mut m, "flag", p.flag.map(|x| json!(x)));
    m.insert("acc".into(), json!(p.acc));
    put(&mut m, "units", p.units.map(num));
    put(&mut m, "cur", p.cur.map(|x| json!(x)));
    if let Some(c) = &p.cost {
        let mut k = Map::new();
        put(&mut k, "per-unit", c.per_unit.map(num));
        put(&mut k, "total", c.total.map(num));
        put(&mut k, "cur", c.cur.map(|x| json!(x)));
        put(&mut k, "date", c.date.map(|x| json!(fmt_date(x))));
        put(&mut k, "label", c.label.map(|x| json!(x)));
        put(&mut k, "merge", c.merge.then(|| json!(true)));
        m.insert("cost-spec".into(), Value::Object(k));
    }
    if let Some(c) = &p.price {
        let mut k = Map::new();
        put(&mut k, "per-unit", c.per_unit.map(num));
        put(&mut k, "total", c.total.map(num));
        put(&mut k, "cur", c.cur.map(|x| json!(x)));
        m.insert("price-spec".into(), Value::Object(k));
    }
    extras_json(&mut m, &p.x);
    Value::Object(m)
}

fn kind_json(m: &mut Map<String, Value>, k: &Kind) {
    match k {
        Kind::Txn { .. } => unreachable!(),
        Kind::Price { cur, per_unit, pcur } => {
            m.insert("cur".into(), json!(cur));
            m.insert("price".into(), json!({"per-unit": num(*per_unit), "cur": pcur}));
        }
        Kind::Balance { acc, units, cur, tol } => {
            m.insert("acc".into(), json!(acc));
            m.insert("units".into(), num(*units));
            m.insert("cur".into(), json!(cur));
            put(m, "tolerance", tol.map(num));
        }
        Kind::Open { acc, curs, booking } => {
            m.insert("acc".into(), json!(acc));
            put(m, "currencies", curs.as_ref().map(|c| json!(c)));
            put(m, "booking", booking.map(|b| json!(b)));
        }
        Kind::Close { acc } => {
            m.insert("acc".into(), json!(acc));
        }
        Kind::Commodity { cur } => {
            m.insert("cur".into(), json!(cur));
        }
        Kind::Pad { acc, source } => {
            m.insert("acc".into(), json!(acc));
            m.insert("source".into(), json!(source));
        }
        Kind::Document { acc, path } => {
            m.insert("acc".into(), json!(acc));
            m.insert("path".into(), json!(path));
        }
        Kind::Note { acc, comment } => {
            m.insert("acc".into(), json!(acc));
            m.insert("comment".into(), json!(comment));
        }
        Kind::Event { type_, desc } => {
            m.insert("type".into(), json!(type_));
            m.insert("description".into(), json!(desc));
        }
        Kind::Query { name, content } => {
            m.insert("name".into(), json!(name));
            m.insert("content".into(), json!(content));
        }
        Kind::Custom { type_, values } => {
            m.insert("type".into(), json!(type_));
            m.insert("values".into(), Value::Array(values.iter().map(meta_json).collect()));
        }
    }
}

pub type El = (usize, Option<usize>);

/// One expected error: any of these attributions (with these related elements) will do.
#[derive(Clone, Debug)]
pub struct ExpErr {
    pub any_of: Vec<(El, Vec<El>)>,
    pub margin: Option<Decimal>,
    /// what the reason must say, where there is only one thing it can
    pub says: Option<String>,
    pub why: String,
}

#[derive(Clone, Debug)]
pub struct Expected {
    pub errors: Vec<ExpErr>,
    /// errors found only at the end, in any order
    pub final_errors: Vec<ExpErr>,
    /// meaningful only without errors
    pub directives: Vec<Value>,
    pub stats: Stats,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub lifecycle_rejects: usize,
    pub currency_rejects: usize,
    pub balance_pass: usize,
    pub balance_fail: usize,
    pub padded: usize,
    pub unused_pads: usize,
    pub booking_rejects: usize,
    pub txns: usize,
    pub lots: usize,
    pub weighed: usize,
    pub unbalanced: usize,
    pub weighed_otherwise: usize,
    pub reasons: usize,
}

pub struct Acc {
    pub curs: Option<BTreeSet<S>>,
    pub pos: Positions,
    pub opened: usize,
    pub pad: Option<(usize, usize, S)>, // output index of the placeholder, directive, source
    pub booking: Booking,
}

pub struct Settings {
    pub booking_option: Option<S>,
    pub multiplier: Option<Decimal>,
}

pub fn method(s: S) -> Booking {
    match s {
        "strict" => Booking::Strict,
        "strict-with-size" => Booking::StrictWithSize,
        "none" => Booking::None,
        "average" => Booking::Average,
        "fifo" => Booking::Fifo,
        "lifo" => Booking::Lifo,
        "hifo" => Booking::Hifo,
        _ => panic!("method {s}"),
    }
}
fn supported_or_strict(b: Booking) -> Booking {
    if b == Booking::Average { Booking::Strict } else { b }
}

/// name boundary: same account or one below it
pub fn covers(base: &str, candidate: &str) -> bool {
    let b: Vec<&str> = base.split(':').collect();
    let c: Vec<&str> = candidate.split(':').collect();
    c.len() >= b.len() && c[..b.len()] == b[..]
}

pub fn units_of(p: &Positions, cur: S) -> Decimal {
    p.iter().filter(|p| p.currency == cur).map(|p| p.units).sum()
}

thread_local! {
    /// the directive which `book` got to
    static REACHED: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// A long ledger without the directives which put its outcome outside the domain and, when asked, without those which are rejected.
pub fn settle(mut dirs: Vec<Dir>, set: &Settings, tol: &LimaTolerance<'static>, accepted: bool) -> Vec<Dir> {
    let t0 = std::time::Instant::now();
    while t0.elapsed().as_millis() < 1500 {
        match book(&dirs, set, tol) {
            None => {
                let k = REACHED.with(|a| a.get());
                if k >= dirs.len() {
                    break;
                }
                dirs.remove(k);
            }
            Some(e) if accepted => {
                let bad: BTreeSet<usize> = e.errors.iter().chain(&e.final_errors).flat_map(|e| e.any_of.iter().map(|((i, _), _)| *i)).collect();
                if bad.is_empty() {
                    break;
                }
                let mut k = 0;
                dirs.retain(|_| {
                    k += 1;
                    !bad.contains(&(k - 1))
                });
            }
            _ => break,
        }
    }
    dirs
}

/// None: the case is outside the domain on which the contracts fix the outcome.
pub fn book(dirs: &[Dir], set: &Settings, tol: &LimaTolerance<'static>) -> Option<Expected> {
    let default = set.booking_option.map(method).map(supported_or_strict).unwrap_or(Booking::Strict);
    let mut open: HashMap<S, usize> = HashMap::new();
    let mut closed: HashMap<S, usize> = HashMap::new();
    let mut accs: HashMap<S, Acc> = HashMap::new();
    let mut taint: BTreeSet<S> = BTreeSet::new();
    let mut errors: Vec<ExpErr> = vec![];
    let mut out: Vec<Value> = vec![];
    let mut st = Stats::default();

    fn exp(at: El, rel: Vec<El>, why: &str) -> ExpErr {
        ExpErr { any_of: vec![(at, rel)], margin: None, says: None, why: why.into() }
    }
    let push = |out: &mut Vec<Value>, i: usize, d: &Dir, kind: &str, rest: Map<String, Value>| {
        let mut m = Map::new();
        m.insert("idx".into(), json!(i));
        m.insert("date".into(), json!(fmt_date(d.date)));
        extras_json(&mut m, &d.x);
        m.insert("dct".into(), json!(kind));
        m.extend(rest);
        out.push(Value::Object(m));
    };

    for (i, d) in dirs.iter().enumerate() {
        REACHED.with(|a| a.set(i));
        let at = (i, None);
        // lifecycle fault of using an account here
        let fault = |a: S, open: &HashMap<S, usize>, closed: &HashMap<S, usize>| -> Option<Vec<El>> {
            if open.contains_key(a) { None } else { Some(closed.get(a).map(|c| (*c, None)).into_iter().collect()) }
        };
        match &d.kind {
            Kind::Open { acc, curs, booking } => {
                if taint.contains(acc) {
                    return None;
                }
                if let Some(by) = open.get(acc) {
                    st.lifecycle_rejects += 1;
                    errors.push(exp(at, vec![(*by, None)], "open of an open account"));
                    continue;
                }
                if let Some(by) = closed.get(acc) {
                    st.lifecycle_rejects += 1;
                    taint.insert(acc);
                    errors.push(exp(at, vec![(*by, None)], "open of a closed account"));
                    continue;
                }
                open.insert(acc, i);
                accs.insert(
                    acc,
                    Acc {
                        curs: curs.clone(),
                        pos: Positions::default(),
                        opened: i,
                        pad: None,
                        booking: booking.map(method).map(supported_or_strict).unwrap_or(default),
                    },
                );
                let mut m = Map::new();
                kind_json(&mut m, &d.kind);
                push(&mut out, i, d, "open", m);
            }
            Kind::Close { acc } => {
                if taint.contains(acc) {
                    return None;
                }
                if open.remove(acc).is_none() {
                    st.lifecycle_rejects += 1;
                    errors.push(exp(at, vec![], "close of an account not open"));
                    continue;
                }
                closed.insert(acc, i);
                let mut m = Map::new();
                kind_json(&mut m, &d.kind);
                push(&mut out, i, d, "close", m);
            }
            Kind::Pad { acc, source } => {
                if taint.contains(acc) || taint.contains(source) {
                    return None;
                }
                let faults: Vec<Vec<El>> =
                    [*acc, *source].iter().filter_map(|a| fault(a, &open, &closed)).collect();
                if !faults.is_empty() {
                    st.lifecycle_rejects += 1;
                    errors.push(ExpErr {
                        any_of: faults.into_iter().map(|rel| (at, rel)).collect(),
                        margin: None,
                        says: None,
                        why: "pad on an account not open".into(),
                    });
                    continue;
                }
                let a = accs.get_mut(acc).unwrap();
                if let Some((_, first, _)) = a.pad.take() {
                    st.unused_pads += 1;
                    errors.push(exp((first, None), vec![at], "pad unused, second pad"));
                    continue;
                }
                a.pad = Some((out.len() + 1, i, source));
                let mut m = Map::new();
                kind_json(&mut m, &d.kind);
                push(&mut out, i, d, "pad", m);
                let mut m = Map::new();
                m.insert("flag".into(), json!("'P"));
                m.insert("postings".into(), json!([]));
                push(&mut out, i, d, "txn", m);
            }
            Kind::Balance { acc, units, cur, tol: explicit } => {
                if taint.iter().any(|t| covers(acc, t)) {
                    return None;
                }
                if let Some(rel) = fault(acc, &open, &closed) {
                    st.lifecycle_rejects += 1;
                    errors.push(exp(at, rel, "balance on an account not open"));
                    continue;
                }
                let a = &accs[acc];
                if !cur_ok(a, cur) {
                    st.currency_rejects += 1;
                    errors.push(exp(at, vec![(a.opened, None)], "balance in a currency not allowed"));
                    continue;
                }
                let tolerance = explicit.unwrap_or_else(|| {
                    if units.scale() == 0 {
                        Decimal::ZERO
                    } else {
                        Decimal::TWO
                            * set.multiplier.unwrap_or(Decimal::new(5, 1))
                            * Decimal::new(1, units.scale())
                    }
                });
                let have: Decimal =
                    accs.iter().filter(|(n, _)| covers(acc, n)).map(|(_, a)| units_of(&a.pos, cur)).sum();
                let margin = *units - have;
                let pending = accs.get_mut(acc).unwrap().pad.take();
                if margin.abs() <= tolerance {
                    st.balance_pass += 1;
                    if let Some((_, pad, _)) = pending {
                        st.unused_pads += 1;
                        errors.push(exp((pad, None), vec![], "pad unused, balance holds"));
                    }
                } else {
                    let a = accs.get_mut(acc).unwrap();
                    a.pos.accumulate(margin, cur, None, Booking::Strict);
                    if let Some((o, _, source)) = pending {
                        if covers(acc, source) {
                            return None; // known finding: such a pad cannot adjust anything
                        }
                        st.padded += 1;
                        let s = accs.get_mut(source).unwrap();
                        s.pos.accumulate(-margin, cur, None, Booking::Strict);
                        out[o]["postings"] = json!([
                            {"flag": "'P", "acc": acc, "units": num(margin), "cur": cur},
                            {"flag": "'P", "acc": source, "units": num(-margin), "cur": cur},
                        ]);
                    } else {
                        st.balance_fail += 1;
                        let mut e = exp(at, vec![], "balance does not hold");
                        e.margin = Some(margin);
                        errors.push(e);
                    }
                }
                let mut m = Map::new();
                kind_json(&mut m, &d.kind);
                push(&mut out, i, d, "balance", m);
            }
            Kind::Txn { flag, payee, narration, postings } => {
                st.txns += 1;
                if postings.iter().any(|p| taint.contains(p.acc)) {
                    return None;
                }
                let refs: Vec<&Posting> = postings.iter().collect();
                IN_DEPENDENCY.with(|f| f.set(true));
                let booked = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    limabean_booking::book(
                        d.date,
                        &refs,
                        tol,
                        |a| accs.get(a).map(|a| &a.pos),
                        |a| accs.get(a).map(|a| a.booking).unwrap_or(default),
                    )
                }));
                IN_DEPENDENCY.with(|f| f.set(false));
                let Ok(booked) = booked else {
                    return None; // the dependency panics
                };
                let at_cost = postings.iter().any(|p| accs.get(p.acc).is_some_and(|a| a.pos.iter().any(|q| q.cost.is_some())));
                match balances(postings, set) {
                    Some(b) if !at_cost => {
                        st.weighed += 1;
                        st.unbalanced += !b as usize;
                        if booked.is_ok() != b {
                            st.weighed_otherwise += 1;
                            if std::env::var("ORACLE_SHOW").is_ok() { println!("{postings:?} balances: {b}, {:?}", booked.as_ref().err()); }
                        }
                    }
                    _ => (),
                }
                let faults: Vec<(El, Vec<El>)> = postings
                    .iter()
                    .enumerate()
                    .filter_map(|(j, p)| fault(p.acc, &open, &closed).map(|rel| ((i, Some(j)), rel)))
                    .collect();
                match booked {
                    Err(e) => {
                        st.booking_rejects += 1;
                        let mut any_of = vec![(at, vec![])];
                        any_of.extend(faults);
                        // buckets of several currencies are visited in any order
                        let curs: BTreeSet<S> = postings
                            .iter()
                            .flat_map(|p| [p.cur, p.cost.as_ref().and_then(|c| c.cur), p.price.as_ref().and_then(|x| x.cur)])
                            .flatten()
                            .collect();
                        let says = (curs.len() == 1 && !at_cost && any_of.len() == 1).then(|| match &e {
                            limabean_booking::BookingError::Transaction(e) => e.to_string(),
                            limabean_booking::BookingError::Posting(_, e) => e.to_string(),
                        });
                        st.reasons += says.is_some() as usize;
                        errors.push(ExpErr { any_of, margin: None, says, why: format!("transaction cannot be booked: {e}") });
                    }
                    Ok(Bookings { interpolated_postings, updated_inventory }) => {
                        let mut bad = faults.clone();
                        for (j, (p, ip)) in postings.iter().zip(&interpolated_postings).enumerate() {
                            if let Some(a) = accs.get(p.acc) {
                                if open.contains_key(p.acc) && !cur_ok(a, ip.currency) {
                                    bad.push(((i, Some(j)), vec![(a.opened, None)]));
                                }
                            }
                        }
                        if !bad.is_empty() {
                            if faults.is_empty() { st.currency_rejects += 1 } else { st.lifecycle_rejects += 1 }
                            // the first posting at fault
                            let first = bad.iter().map(|b| b.0).min().unwrap();
                            let any_of = bad.into_iter().filter(|b| b.0 == first).collect();
                            errors.push(ExpErr { any_of, margin: None, says: None, why: if faults.is_empty() { "posting in a currency not allowed" } else { "posting on an account not open" }.into() });
                            continue;
                        }
                        let mut js = vec![];
                        for (j, (p, ip)) in postings.iter().zip(interpolated_postings).enumerate() {
                            let base = |units: Decimal| {
                                let mut m = Map::new();
                                m.insert("idx".into(), json!(j));
                                put(&mut m, "flag", p.flag.map(|x| json!(x)));
                                m.insert("acc".into(), json!(p.acc));
                                m.insert("units".into(), num(units));
                                m.insert("cur".into(), json!(ip.currency));
                                extras_json(&mut m, &p.x);
                                m
                            };
                            if let Some(costs) = ip.cost.clone() {
                                for (ccur, c) in costs.into_currency_costs() {
                                    st.lots += 1;
                                    let mut m = base(c.units);
                                    let mut k = Map::new();
                                    k.insert("date".into(), json!(fmt_date(c.date)));
                                    k.insert("per-unit".into(), num(c.per_unit));
                                    k.insert("total".into(), num(c.total));
                                    k.insert("cur".into(), json!(ccur));
                                    put(&mut k, "label", c.label.map(|l| json!(l)));
                                    put(&mut k, "merge", c.merge.then(|| json!(true)));
                                    m.insert("cost".into(), Value::Object(k));
                                    js.push(Value::Object(m));
                                }
                            } else {
                                let mut m = base(ip.units);
                                if let Some(pr) = &ip.price {
                                    let mut k = Map::new();
                                    k.insert("per-unit".into(), num(pr.per_unit));
                                    put(&mut k, "total", pr.total.map(num));
                                    k.insert("cur".into(), json!(pr.currency));
                                    m.insert("price".into(), Value::Object(k));
                                }
                                js.push(Value::Object(m));
                            }
                        }
                        for (a, p) in updated_inventory {
                            accs.get_mut(a).unwrap().pos = p;
                        }
                        let mut m = Map::new();
                        m.insert("flag".into(), json!(flag));
                        put(&mut m, "payee", payee.map(|x| json!(x)));
                        put(&mut m, "narration", narration.map(|x| json!(x)));
                        m.insert("postings".into(), Value::Array(js));
                        push(&mut out, i, d, "txn", m);
                    }
                }
            }
            k => {
                let mut m = Map::new();
                kind_json(&mut m, k);
                push(&mut out, i, d, k.name(), m);
            }
        }
    }
    let mut final_errors = vec![];
    for a in accs.values() {
        if let Some((_, pad, _)) = a.pad {
            st.unused_pads += 1;
            final_errors.push(exp((pad, None), vec![], "pad unused, no balance"));
        }
    }
    Some(Expected { errors, final_errors, directives: out, stats: st })
}

/// whether a transaction balances, where its amounts are all written and far enough from the tolerance; at no cost
fn balances(postings: &[Posting], set: &Settings) -> Option<bool> {
    let mut sums: BTreeMap<S, (Decimal, Option<u32>, bool)> = BTreeMap::new();
    for p in postings {
        let (u, c) = (p.units?, p.cur?);
        if p.cost.is_some() {
            return None;
        }
        let (w, c, exact) = match &p.price {
            None => (u, c, true),
            Some(Price { per_unit: Some(x), total: None, cur: Some(c) }) => (u * x, *c, false),
            Some(Price { per_unit: None, total: Some(x), cur: Some(c) }) if !u.is_sign_negative() => (*x, *c, false),
            _ => return None,
        };
        let s = sums.entry(c).or_default();
        s.0 += w;
        if w.scale() > 0 {
            s.1 = Some(s.1.map_or(w.scale(), |x| x.min(w.scale())));
        }
        s.2 |= !exact;
    }
    let mut all = true;
    for (off, scale, priced) in sums.into_values() {
        match scale {
            Some(k) => {
                let tolerance = dec(1, k) * set.multiplier.unwrap_or(dec(5, 1));
                if off.abs() == tolerance || priced && !off.is_zero() {
                    return None;
                }
                all &= off.abs() < tolerance;
            }
            None if off.is_zero() => (),
            None => return None,
        }
    }
    Some(all)
}

fn cur_ok(a: &Acc, cur: S) -> bool {
    match &a.curs {
        None => true,
        Some(c) => c.is_empty() || c.contains(cur),
    }
}

/// JSON equality: numbers digit by digit (by value only in postings made by a pad), arrays under tags/links/currencies as sets.
pub fn same(a: &Value, b: &Value, key: &str) -> bool {
    same_(a, b, key, true)
}

fn same_(a: &Value, b: &Value, key: &str, exact: bool) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            let (x, y) = (x.to_string(), y.to_string());
            x == y
                || !exact && matches!((x.parse::<Decimal>(), y.parse::<Decimal>()), (Ok(x), Ok(y)) if x == y)
        }
        (Value::Array(x), Value::Array(y)) => {
            if matches!(key, "tags" | "links" | "currencies" | "documents" | "operating-currency") {
                let f = |v: &Vec<Value>| v.iter().map(|x| x.to_string()).collect::<BTreeSet<_>>();
                x.len() == y.len() && f(x) == f(y)
            } else {
                x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same_(x, y, "", exact))
            }
        }
        (Value::Object(x), Value::Object(y)) => {
            // amounts computed for a pad need only be equal in value
            let exact = exact && x.get("flag") != Some(&json!("'P"));
            x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same_(v, w, k, exact)))
        }
        _ => a == b,
    }
}

impl ExpErr {
    pub fn aspect(&self) -> &'static str {
        let w = &self.why;
        if w.starts_with("transaction cannot be booked") {
            "unbookable"
        } else if w.starts_with("balance does not hold") {
            "balance"
        } else if w.starts_with("pad unused") {
            "unused-pad"
        } else if w.contains("currency not allowed") {
            "currency"
        } else {
            "lifecycle"
        }
    }
}

/// A disagreement, and the aspects of the behaviour it can be a disagreement about.
pub struct Wrong {
    pub what: String,
    pub aspects: Vec<&'static str>,
}

fn wrong(what: String, aspects: &[&'static str]) -> Option<Wrong> {
    Some(Wrong { what, aspects: aspects.to_vec() })
}

/// What an error not called for at a directive may be about.
fn uncalled(k: &Kind) -> &'static [&'static str] {
    match k {
        Kind::Open { .. } | Kind::Close { .. } => &["lifecycle"],
        Kind::Pad { .. } => &["lifecycle", "unused-pad"],
        Kind::Balance { .. } => &["lifecycle", "currency", "balance"],
        Kind::Txn { .. } => &["lifecycle", "currency", "unbookable"],
        _ => &["other"],
    }
}

/// What is wrong with the outcome, if anything.
pub fn judge(dirs: &[Dir], exp: &Expected, resp: &Value) -> Option<Wrong> {
    let no_errors = exp.errors.is_empty() && exp.final_errors.is_empty();
    if let Some(r) = resp.get("result") {
        if !no_errors {
            let e = exp.errors.iter().chain(&exp.final_errors).next().unwrap();
            return wrong(
                format!("booking succeeded, but an error was due: {} at {:?}", e.why, e.any_of[0].0),
                &[e.aspect(), "errors"],
            );
        }
        let got = r.get("directives").and_then(|d| d.as_array()).cloned().unwrap_or_default();
        for (k, (g, e)) in got.iter().zip(&exp.directives).enumerate() {
            if !same(g, e, "") {
                let kind = e["dct"].as_str().unwrap_or("");
                let padding = kind == "txn" && e["flag"] == json!("'P");
                let head = |v: &Value| {
                    let mut v = v.clone();
                    if let Some(p) = v.as_object_mut() {
                        p.remove("postings");
                    }
                    v
                };
                let heads = same(&head(g), &head(e), "");
                return wrong(
                    format!("booked directive {k} is {g}, expected {e}"),
                    match (kind, padding, heads) {
                        (_, true, true) => &["padding"],
                        (_, true, false) => &["padding", "output"],
                        ("txn", _, true) => &["postings"],
                        _ => &["output"],
                    },
                );
            }
        }
        if got.len() != exp.directives.len() {
            return wrong(format!("{} directives booked, {} expected", got.len(), exp.directives.len()), &["output"]);
        }
        None
    } else if let Some(err) = resp.get("error") {
        let got = err.get("data").and_then(|d| d.as_array()).cloned().unwrap_or_default();
        let el = |v: &Value| -> Option<El> {
            let a = v.as_array()?;
            Some((a.first()?.as_u64()? as usize, a.get(1).and_then(|p| p.as_u64()).map(|p| p as usize)))
        };
        let at = |g: &Value| g.get("idx").and_then(el);
        let about = |g: &Value| -> Vec<&'static str> {
            let mut v = match at(g).and_then(|(i, _)| dirs.get(i)) {
                Some(d) => uncalled(&d.kind).to_vec(),
                None => vec!["other"],
            };
            v.push("errors");
            v
        };
        if no_errors {
            let a = got.first().map(|g| about(g)).unwrap_or(vec!["errors"]);
            return wrong(format!("booking failed with {err}, no error expected"), &a);
        }
        let code = err.get("code").and_then(|c| c.as_i64());
        if code != Some(3) {
            return wrong(format!("error code {code:?}, expected 3"), &["errors"]);
        }
        let matches = |e: &ExpErr, g: &Value| -> bool {
            let here = at(g);
            let rel: Option<Vec<El>> = match g.get("related") {
                None => Some(vec![]),
                Some(r) => r.as_array().and_then(|r| r.iter().map(el).collect()),
            };
            let ok = e.any_of.iter().any(|(a, r)| Some(*a) == here && Some(r) == rel.as_ref());
            ok && e.margin.is_none_or(|m| {
                let reason = g.get("reason").and_then(|r| r.as_str()).unwrap_or("");
                reason
                    .split("error ")
                    .nth(1)
                    .and_then(|r| r.split(' ').next())
                    .and_then(|n| n.parse::<Decimal>().ok())
                    == Some(m)
            })
        };
        let n = exp.errors.len();
        let mut reason = None;
        for (k, e) in exp.errors.iter().enumerate() {
            let g = got.get(k);
            if let Some(g) = g.filter(|g| matches(e, g)) {
                if let Some(says) = &e.says {
                    if !g.get("reason").and_then(|r| r.as_str()).is_some_and(|r| r.contains(says.as_str())) {
                        reason = reason.or(wrong(format!("error {k} is {g}, its reason should say {says:?}"), &["reason"]));
                    }
                }
                continue;
            }
            let mut aspects = vec![e.aspect(), "errors"];
            if let Some(g) = g {
                // one too many before the one expected, rather than the expected one missing?
                if got.iter().skip(k + 1).any(|h| matches(e, h)) {
                    aspects = about(g);
                }
            }
            return wrong(format!("error {k} is {}, expected {e:?}", g.unwrap_or(&Value::Null)), &aspects);
        }
        let mut rest: Vec<&Value> = got.iter().skip(n).collect();
        for e in &exp.final_errors {
            match rest.iter().position(|g| matches(e, g)) {
                Some(p) => {
                    rest.remove(p);
                }
                None => return wrong(format!("no error among {rest:?}, expected {e:?}"), &[e.aspect(), "errors"]),
            }
        }
        rest.first().and_then(|g| wrong(format!("unexpected error {g}"), &about(g))).or(reason)
    } else {
        wrong(format!("neither result nor error: {resp}"), &["errors", "crash"])
    }
}

/// The aspects a property is about; a disagreement on others is another property's.
pub fn concerns(prop: &str, w: &Wrong) -> bool {
    let of: &[&str] = match prop {
        "C01" => &["lifecycle"],
        "C02" => &["currency"],
        "C03" | "C04" | "C08" => &["balance"],
        "C05" => &["balance", "padding"],
        "C06" => &["unused-pad"],
        "C07" | "C10" => return !w.aspects.contains(&"reason"),
        "C09" => &["output", "padding", "postings", "other"],
        "C11" => &["crash"],
        "C12" => &["unbookable", "postings"],
        "C20" => &["postings", "unbookable"],
        "C21" => &["postings", "unbookable", "reason"],
        _ => return !w.aspects.contains(&"reason"),
    };
    w.aspects.iter().any(|a| *a == "crash" || of.contains(a))
}
