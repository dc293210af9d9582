//! Generation of ledgers, by profile.
use crate::model::*;
use rust_decimal::Decimal;
use std::collections::{BTreeMap, BTreeSet};
use time::{Date, Month};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % (hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
    /// Below `few`, but now and then below `many`.
    pub fn few(&mut self, few: usize, many: usize) -> usize {
        if self.below(30) == 0 { self.below(many) } else { self.below(few) }
    }
}

pub const ACCOUNTS: &[S] = &[
    "Assets:Bank",
    "Assets:Bank:Cash",
    "Assets:Bank:Cash:Tin",
    "Assets:BankAccount",
    "Assets:Bank-2",
    "Assets:Bank:C",
    "Assets:Ban",
    "Equity:Opening",
    "Expenses:Food",
    "Income:Bänk",
];
pub const CURS: &[S] = &["USD", "EUR", "USDX"];
pub const STOCKS: &[S] = &["STK", "XYZ"];
pub const METHODS: &[S] = &["strict", "strict-with-size", "none", "average", "fifo", "lifo", "hifo"];
const STRINGS: &[S] = &["", "x", "a \"quoted\" b", "back\\slash", "tab\tand é ü 漢", "line\nbreak", "{}", "null", "  ", " padded ",
    "\u{1F4B0} emoji\u{200B}", "a\r\nb", "UPPER lower", "12.50", "2024-01-31", "#tag ^link", "bell\u{7}\u{1}", "Assets:Bank", "TRUE", "one two  three ", "'single' `back`",
    "a rather long text which goes on and on, past what a line of a terminal would hold, so that nothing may be cut short: 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 end"];
pub const ODD_CURS: &[S] = &["USD", "V", "A'B._-2", "NZD2", "ABCDEFGHIJKLMNOPQRSTUVWX"];
const LABELS: &[S] = &["lot-a", "lot-b", "", " sp ", "q \"uote\"", "b\\s", "\u{e9}\u{6f22}"];

/// One thing of which a ledger has many, now and then: more than any small number that code may have been written for.
#[derive(Clone, Copy, PartialEq)]
pub enum Large {
    Nothing,
    Directives,
    Accounts,
    Postings,
    Currencies,
    Extras,
    Texts,
    Lots,
}
thread_local! {
    static LARGE: std::cell::Cell<Large> = const { std::cell::Cell::new(Large::Nothing) };
}
fn large(x: Large) -> bool {
    LARGE.with(|l| l.get()) == x
}
fn pool(i: usize, of: &dyn Fn(usize) -> String) -> Vec<S> {
    thread_local! {
        static POOLS: std::cell::RefCell<BTreeMap<usize, Vec<S>>> = const { std::cell::RefCell::new(BTreeMap::new()) };
    }
    POOLS.with(|p| p.borrow_mut().entry(i).or_insert_with(|| (0..40).map(|k| leak(of(k))).collect()).clone())
}
fn more_accounts() -> Vec<S> {
    pool(0, &|k| if k % 3 == 2 { format!("Assets:Bank:Sub{}:Deep{k}", k / 4) } else { format!("Assets:Bank:Sub{k}") })
}
fn more_currencies() -> Vec<S> {
    pool(1, &|k| format!("C{}{}", (b'A' + (k / 10) as u8) as char, k % 10))
}
fn more_names() -> Vec<S> {
    pool(2, &|k| format!("n{k}"))
}
fn long_texts() -> Vec<S> {
    // the lexer, built without optimisation, goes deeper with each character which is escaped or not of ASCII
    pool(3, &|k| {
        let n = [30, 60, 150, 700, 4000, 20000][k % 6] + k;
        (0..n).map(|i| if n > 1000 { format!("{i} ") } else { format!("{i} {}", ["ab ", "é漢", "\"q\\"][i % 3]) }).collect()
    })
}
pub fn text(r: &mut Rng) -> S {
    if large(Large::Texts) && r.chance(25) { r.pick(&long_texts()) } else { r.pick(STRINGS) }
}

#[derive(Clone, Default)]
pub struct Profile {
    pub accounts: usize, // how many of ACCOUNTS
    pub open_all: bool,
    pub len: (usize, usize),
    pub w_open: usize,
    pub w_close: usize,
    pub w_txn: usize,
    pub w_balance: usize,
    pub w_pad: usize,
    pub w_other: usize,
    pub declare_currencies: usize, // percent
    pub methods: usize,            // percent of opens with a method
    pub lots: usize,               // percent of transactions at cost
    pub prices: usize,
    pub missing: usize, // percent of transactions with an amount left out
    pub unbalanced: usize,
    pub holes: usize,
    pub nearly: usize, // balanced but for a little
    pub extras: usize,
    pub wild_amounts: bool,
    pub multi: usize, // percent of transactions with many postings
    pub bad_pad: usize, // percent chance that a pad source is arbitrary
}

pub fn dec(m: i64, scale: u32) -> Decimal {
    Decimal::new(m, scale)
}
pub fn leak(s: String) -> S {
    Box::leak(s.into_boxed_str())
}

/// Mostly near the present, but anything a book can name, years 0001 to 9999.
pub fn any_date(r: &mut Rng) -> Date {
    if r.chance(30) { date(r.range(-737000, 2900000)) } else { date(r.range(-40000, 40000)) }
}

pub fn date(n: i64) -> Date {
    Date::from_calendar_date(2020, Month::January, 1).unwrap() + time::Duration::days(n)
}

pub fn meta(r: &mut Rng) -> Meta {
    match r.below(10) {
        0 => Meta::Amount(amount(r, true), r.pick(ODD_CURS)),
        1 => Meta::Str(text(r)),
        2 => Meta::Cur(r.pick(ODD_CURS)),
        3 => Meta::Acc(r.pick(ACCOUNTS)),
        4 => Meta::Tag(r.pick(&["t1", "t2-x", "T/a.b_c", "9", "a-tag-of-some-length-2024"])),
        5 => Meta::Link(r.pick(&["l1", "l2.y", "L/a.b_c", "9", "a-link-of-some-length-2024"])),
        6 => Meta::Date(any_date(r)),
        7 => Meta::Bool(r.chance(50)),
        8 => Meta::Num(amount(r, true)),
        _ => Meta::Null,
    }
}

pub fn extras(r: &mut Rng, percent: usize) -> Extras {
    let mut x = Extras::default();
    if r.chance(percent) {
        let many = large(Large::Extras) && r.chance(30);
        let set = |r: &mut Rng, xs: &[S]| {
            let mut s = (0..1 + r.below(3)).map(|_| r.pick(xs)).collect::<BTreeSet<S>>();
            if many {
                let n = r.below(40);
                s.extend(more_names().iter().take(n));
            }
            s
        };
        if r.chance(50) {
            x.tags = Some(set(r, &["tag-a", "tag-b", "x", "T/a.b_c", "TAG-A"]));
        }
        if r.chance(50) {
            x.links = Some(set(r, &["link.a", "link-b", "x", "L/1_2", "LINK.A"]));
        }
        if r.chance(50) {
            x.meta = Some((0..1 + r.below(3)).map(|_| (r.pick(&["ka", "kb", "kc-d", "ke_f", "camelCase", "date", "k2"]), meta(r))).collect::<BTreeMap<_, _>>());
            if many {
                let n = r.below(40);
                for k in more_names().into_iter().take(n) {
                    x.meta.as_mut().unwrap().insert(k, meta(r));
                }
            }
        }
    }
    x
}

fn any_label(r: &mut Rng) -> S {
    if r.chance(80) { r.pick(&LABELS[..2]) } else { r.pick(LABELS) }
}

pub fn amount(r: &mut Rng, wild: bool) -> Decimal {
    let scale = if r.chance(4) { r.below(16) as u32 } else { r.below(4) as u32 };
    if r.chance(6) {
        // whole hundreds, and decimals which end in zeros
        return dec(r.range(-9, 9) * 100, scale);
    }
    let m = if wild && r.chance(5) { r.range(-1_000_000_000_000_000, 1_000_000_000_000_000) } else { r.range(-500, 500) };
    dec(m, scale)
}

fn posting(acc: S, units: Option<Decimal>, cur: Option<S>) -> Posting {
    Posting { acc, units, cur, ..Default::default() }
}

pub fn ledger(r: &mut Rng, p: &Profile, mult: Option<Decimal>) -> Vec<Dir> {
    let n = p.len.0 + r.below(p.len.1 - p.len.0 + 1);
    // now and then more directives than fit in a byte, and so on
    let of = match r.below(200) {
        0 | 1 => Large::Directives,
        2..4 => Large::Accounts,
        4..6 => Large::Postings,
        6..8 => Large::Currencies,
        8 | 9 if p.extras > 0 => Large::Extras,
        10 => Large::Texts,
        11..14 if p.lots > 0 && p.open_all => Large::Lots,
        _ => Large::Nothing,
    };
    LARGE.with(|l| l.set(of));
    // or else nearly all of a long ledger is about accounts which are not open
    let p = &match of {
        Large::Directives => Profile { open_all: p.open_all || r.chance(70), w_close: p.w_close / 8, lots: p.lots / 2, ..p.clone() },
        _ => p.clone(),
    };
    let n = match of {
        Large::Directives => n + 330,
        Large::Accounts => n + 50 + r.below(40),
        Large::Currencies => n + r.below(30),
        _ => n,
    };
    let mut accounts: Vec<S> = ACCOUNTS.to_vec();
    for i in (1..accounts.len()).rev() {
        let j = r.below(i + 1);
        accounts.swap(i, j);
    }
    accounts.truncate(p.accounts);
    if of == Large::Accounts {
        let k = 8 + r.below(32);
        accounts.extend(more_accounts().into_iter().take(k));
    }
    let mut tally: BTreeMap<(S, S), Decimal> = BTreeMap::new();
    let mut allowed: BTreeMap<S, BTreeSet<S>> = BTreeMap::new();
    let mut day = 0i64;
    let mut out: Vec<Dir> = vec![];
    let mk_open = |r: &mut Rng, a: S, allowed: &mut BTreeMap<S, BTreeSet<S>>| {
        let curs = if r.chance(p.declare_currencies) {
            let mut c: BTreeSet<S> = (0..1 + r.below(2)).map(|_| r.pick(CURS)).collect();
            if large(Large::Currencies) {
                let k = r.below(40);
                c.extend(more_currencies().into_iter().take(k));
            }
            allowed.insert(a, c.clone());
            Some(c)
        } else {
            None
        };
        let booking = if large(Large::Lots) {
            Some(r.pick(&["fifo", "lifo", "hifo", "fifo", "strict"]))
        } else {
            r.chance(p.methods).then(|| r.pick(METHODS))
        };
        Kind::Open { acc: a, curs, booking }
    };
    if p.open_all {
        for a in accounts.clone() {
            let k = mk_open(r, a, &mut allowed);
            out.push(Dir { date: date(0), kind: k, x: extras(r, p.extras) });
        }
    }
    let total = p.w_open + p.w_close + p.w_txn + p.w_balance + p.w_pad + p.w_other;
    for _ in 0..n {
        day += r.range(0, 2);
        let d = date(day);
        let mut w = r.below(total);
        let mut hit = |x: usize| {
            if w < x {
                w = usize::MAX;
                true
            } else {
                if w != usize::MAX {
                    w -= x;
                }
                false
            }
        };
        let kind = if hit(p.w_open) {
            let a = r.pick(&accounts);
            mk_open(r, a, &mut allowed)
        } else if hit(p.w_close) {
            Kind::Close { acc: r.pick(&accounts) }
        } else if hit(p.w_txn) {
            txn(r, p, &accounts, &mut tally)
        } else if hit(p.w_balance) {
            let acc = r.pick(&accounts);
            let cur = if large(Large::Currencies) && r.chance(50) {
                r.pick(&more_currencies())
            } else if r.chance(85) {
                r.pick(&CURS[..2])
            } else {
                r.pick(CURS)
            };
            let total: Decimal = tally.iter().filter(|((a, c), _)| *c == cur && covers(acc, a)).map(|(_, v)| *v).sum();
            let tol = if r.chance(35) { Some(r.pick(&[dec(0, 0), dec(5, 1), dec(1, 2), dec(10, 0), dec(15, 3), dec(-1, 1)])) } else { None };
            let mut units = total;
            let scale = r.below(4) as u32;
            if scale > units.scale() {
                units.rescale(scale);
            }
            let eff = tol.unwrap_or(if units.scale() == 0 {
                Decimal::ZERO
            } else {
                mult.unwrap_or(dec(5, 1)) * Decimal::TWO * dec(1, units.scale())
            });
            let ulp = dec(1, units.scale());
            let delta = match r.below(9) {
                0 | 1 | 2 => Decimal::ZERO,
                3 => eff,
                4 => eff + ulp,
                5 => eff - ulp,
                6 => ulp,
                _ => amount(r, p.wild_amounts),
            };
            let delta = if r.chance(50) { delta } else { -delta };
            // keep the scale: it decides the tolerance
            let mut u = units + delta;
            if r.chance(80) {
                u.rescale(units.scale());
            }
            u.set_sign_positive(u.is_sign_positive() || u.is_zero());
            let eff2 = tol.unwrap_or(if u.scale() == 0 { Decimal::ZERO } else { mult.unwrap_or(dec(5, 1)) * Decimal::TWO * dec(1, u.scale()) });
            if (u - total).abs() > eff2 {
                *tally.entry((acc, cur)).or_default() += u - total;
            }
            Kind::Balance { acc, units: u, cur, tol }
        } else if hit(p.w_pad) {
            let acc = r.pick(&accounts);
            let mut source = r.pick(&accounts);
            if covers(acc, source) && !r.chance(p.bad_pad) {
                source = accounts.iter().copied().find(|s| !covers(acc, s)).unwrap_or(source);
            }
            Kind::Pad { acc, source }
        } else {
            other(r, &accounts)
        };
        out.push(Dir { date: d, kind, x: extras(r, p.extras) });
    }
    if of == Large::Lots {
        many_lots(r, p, &accounts, date(day), &mut out);
    }
    LARGE.with(|l| l.set(Large::Nothing));
    out
}

/// Many lots of one stock, then several of them given up at once.
fn many_lots(r: &mut Rng, p: &Profile, accounts: &[S], d: Date, out: &mut Vec<Dir>) {
    let acc = accounts[0];
    let other = *accounts.last().unwrap();
    let mut held = 0;
    let mut add = |r: &mut Rng, cost: Cost, n: i64, paid: Option<i64>| {
        let postings = vec![
            Posting { cost: Some(cost), ..posting(acc, Some(dec(n, 0)), Some("XYZ")) },
            posting(other, paid.map(|x| dec(-x, 0)), paid.map(|_| "USD")),
        ];
        let kind = Kind::Txn { flag: "*", payee: None, narration: None, postings };
        out.push(Dir { date: d, kind, x: extras(r, p.extras) });
    };
    for k in 0..5 + r.range(0, 20) {
        let n = r.range(1, 9);
        held += n;
        let label = r.chance(20).then(|| r.pick(&LABELS[..2]));
        add(r, Cost { per_unit: Some(dec(k + 2, 0)), cur: Some("USD"), label, ..Default::default() }, n, Some(n * (k + 2)));
    }
    for _ in 0..1 + r.below(3) {
        let n = r.range(held / 2, held);
        held -= n;
        if n > 0 {
            add(r, Cost::default(), -n, None);
        }
    }
}

pub fn other(r: &mut Rng, accounts: &[S]) -> Kind {
    match r.below(8) {
        0 => Kind::Price { cur: r.pick(STOCKS), per_unit: amount(r, true), pcur: r.pick(ODD_CURS) },
        1 => Kind::Commodity { cur: r.pick(ODD_CURS) },
        2 => Kind::Document { acc: r.pick(accounts), path: text(r) },
        3 => Kind::Note { acc: r.pick(accounts), comment: text(r) },
        4 => Kind::Event { type_: text(r), desc: text(r) },
        5 => Kind::Query { name: text(r), content: text(r) },
        _ => Kind::Custom { type_: text(r), values: (0..if large(Large::Extras) { r.below(40) } else { r.below(6) }).map(|_| meta(r)).collect() },
    }
}

fn txn(r: &mut Rng, p: &Profile, accounts: &[S], tally: &mut BTreeMap<(S, S), Decimal>) -> Kind {
    let mut ps: Vec<Posting> = vec![];
    let cash = |r: &mut Rng| match r.below(10) {
        _ if large(Large::Currencies) && r.chance(60) => r.pick(&more_currencies()),
        0 | 1 => r.pick(CURS),
        _ => r.pick(&CURS[..2]),
    };
    if r.chance(p.lots) {
        let acc = accounts[r.below(2.min(accounts.len()))];
        let other = r.pick(accounts);
        let k = 1 + r.below(2);
        let stock = r.pick(&STOCKS[..k]);
        let cur = CURS[0];
        let n = r.range(1, 9);
        let px = r.range(1, 6);
        let merge = r.chance(8);
        if r.chance(50) {
            // augment
            let c = match r.below(4) {
                0 => Cost { total: Some(dec(n * px, 0)), cur: Some(cur), ..Default::default() },
                1 => Cost { per_unit: Some(dec(px, 0)), cur: Some(cur), label: Some(any_label(r)), ..Default::default() },
                2 => Cost { per_unit: Some(dec(px, 0)), cur: Some(cur), date: Some(date(r.range(0, 20))), ..Default::default() },
                _ => Cost { per_unit: Some(dec(px * 100, 2)), cur: Some(cur), ..Default::default() },
            };
            let c = Cost { merge, ..c };
            let price = r.chance(15).then(|| match r.below(2) {
                0 => Price { per_unit: Some(dec(px + 1, 0)), cur: Some(cur), ..Default::default() },
                _ => Price { total: Some(dec(n * px + 1, 0)), cur: Some(cur), ..Default::default() },
            });
            ps.push(Posting { cost: Some(c), price, ..posting(acc, Some(dec(n, 0)), Some(stock)) });
            ps.push(posting(other, Some(dec(-n * px, 0)), Some(cur)));
        } else {
            let c = match r.below(5) {
                0 => Cost { per_unit: Some(dec(px, 0)), cur: Some(cur), ..Default::default() },
                1 => Cost { label: Some(any_label(r)), ..Default::default() },
                2 => Cost { date: Some(date(r.range(0, 20))), ..Default::default() },
                _ => Cost::default(),
            };
            let price = r.chance(30).then(|| Price { per_unit: Some(dec(px + 1, 0)), cur: Some(cur), ..Default::default() });
            ps.push(Posting { cost: Some(c), price, ..posting(acc, Some(dec(-n, 0)), Some(stock)) });
            ps.push(posting(other, None, None));
        }
    } else if r.chance(p.prices) {
        let (a, b) = (r.pick(accounts), r.pick(accounts));
        let n = if r.chance(25) { -r.range(1, 50) } else { r.range(1, 50) };
        let px = r.range(1, 300);
        let (price, total) = match r.below(4) {
            0 => (Price { per_unit: Some(dec(px, 2)), cur: Some("USD"), ..Default::default() }, Some(dec(-n * px, 2))),
            1 => (Price { total: Some(dec(px, 1)), cur: Some("USD"), ..Default::default() }, Some(dec(-px * n.signum(), 1))),
            2 => (Price { per_unit: Some(dec(px, 2)), cur: Some("USD"), ..Default::default() }, None),
            _ => (Price { cur: Some("USD"), ..Default::default() }, Some(dec(-px * n.signum(), 2))),
        };
        ps.push(Posting { price: Some(price), ..posting(a, Some(dec(n, 0)), Some("EUR")) });
        if let Some(t) = total {
            ps.push(posting(b, Some(t), Some("USD")));
        } else {
            ps.push(posting(b, None, None));
        }
        *tally.entry((a, "EUR")).or_default() += dec(n, 0);
        if let Some(t) = total {
            *tally.entry((b, "USD")).or_default() += t;
        }
    } else {
        let k = if (large(Large::Postings) && r.chance(30)) || (large(Large::Accounts) && r.chance(50)) {
            12 + r.below(40)
        } else if r.chance(p.multi) { if r.chance(10) { 11 + r.below(4) } else { 3 + r.below(3) } } else { 2 };
        let cur = cash(r);
        let two = r.chance(p.multi / 2);
        let mut sum: BTreeMap<S, Decimal> = BTreeMap::new();
        for _ in 0..k - 1 {
            let c = if two { cash(r) } else { cur };
            let a = r.pick(accounts);
            let u = amount(r, p.wild_amounts);
            *sum.entry(c).or_default() += u;
            ps.push(posting(a, Some(u), Some(c)));
        }
        let last = r.pick(accounts);
        if r.chance(p.missing) && sum.len() == 1 {
            let at = r.below(ps.len() + 1);
            let only_cur = r.chance(30);
            let c = *sum.keys().next().unwrap();
            ps.insert(at, posting(last, None, if only_cur { Some(c) } else { None }));
        } else if r.chance(p.unbalanced) {
            ps.push(posting(last, Some(dec(12345, 1)), Some(cur)));
        } else {
            for (c, s) in &sum {
                if !s.is_zero() {
                    let at = r.below(ps.len() + 1);
                    let off = if r.chance(p.nearly) { dec(r.range(-12, 12), r.pick(&[1, 2, 3, 4])) } else { Decimal::ZERO };
                    ps.insert(at, posting(last, Some(off - *s), Some(c)));
                }
            }
        }
        for q in &ps {
            if let (Some(u), Some(c)) = (q.units, q.cur) {
                *tally.entry((q.acc, c)).or_default() += u;
            } else {
                for (c, s) in &sum {
                    *tally.entry((q.acc, c)).or_default() -= *s;
                }
            }
        }
    }
    if r.chance(p.holes) {
        // something left for limabean-booking to work out, or to refuse
        let j = r.below(ps.len());
        let q = &mut ps[j];
        match r.below(9) {
            0 | 1 => q.units = None,
            2 => q.cur = None,
            3 => (q.units, q.cur) = (None, None),
            4 => q.price.iter_mut().for_each(|x| x.per_unit = None),
            5 => q.price.iter_mut().for_each(|x| x.cur = None),
            6 => q.cost.iter_mut().for_each(|c| c.per_unit = None),
            7 => q.cost.iter_mut().for_each(|c| c.cur = None),
            _ => q.cost = None,
        }
    }
    for q in ps.iter_mut() {
        if r.chance(p.extras / 2) {
            q.flag = Some(r.pick(&["*", "!", "&", "#", "?", "%", "'A"]));
        }
        q.x = extras(r, p.extras / 2);
    }
    if r.below(80) == 0 {
        ps.clear();
    }
    Kind::Txn {
        flag: r.pick(&["*", "!", "txn", "'P"]),
        payee: r.chance(50).then(|| text(r)),
        narration: r.chance(50).then(|| text(r)),
        postings: ps,
    }
}
