//! Counterexample search against the real binaries, with the contracts' executable reading as the oracle.
//! usage: oracle PROPERTY   (env: POD, LIMABEAN, ORACLE_SEED, ORACLE_MS, ORACLE_DIR, ORACLE_OUT)
#![allow(dead_code, clippy::all)]
mod r#gen;
mod launch;
mod model;
mod pod;
mod rpc;
mod table;
mod text;

use beancount_parser_lima as parser;
use r#gen::*;
use limabean_booking::LimaTolerance;
use model::*;
use pod::*;
use rust_decimal::Decimal;
use serde_json::{Value, json};
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

pub struct Run {
    pub prop: String,
    pub seed: u64,
    pub budget: Duration,
    pub dir: PathBuf,
    pub started: Instant,
    pub evaluations: u64,
    pub distinct: BTreeSet<u64>,
    pub nontrivial: u64,
    pub skipped: u64,
    pub samples: Vec<Value>,
    pub counters: std::collections::BTreeMap<String, u64>,
}

pub struct Failure {
    pub what: String,
    pub replay: Value,
}

impl Run {
    pub fn time_left(&self) -> bool {
        self.started.elapsed() < self.budget
    }
    pub fn past(&self, fraction: f64) -> bool {
        self.started.elapsed().as_secs_f64() > self.budget.as_secs_f64() * fraction
    }
    pub fn note(&mut self, case: &str, nontrivial: bool) {
        use std::hash::{Hash, Hasher};
        self.evaluations += 1;
        if nontrivial {
            let mut h = std::hash::DefaultHasher::new();
            case.hash(&mut h);
            if self.distinct.insert(h.finish()) {
                self.nontrivial += 1;
                if self.samples.len() < 3 {
                    self.samples.push(json!(case.chars().take(1500).collect::<String>()));
                }
            }
        }
    }
    pub fn count(&mut self, k: &str, n: usize) {
        *self.counters.entry(k.into()).or_default() += n as u64;
    }
    pub fn file(&self, name: &str, content: &str) -> PathBuf {
        let p = self.dir.join(name);
        std::fs::write(&p, content).unwrap();
        p
    }
}

pub struct Header {
    pub set: Settings,
    pub text: String,
}

pub fn headers() -> Vec<Header> {
    let mut v = vec![];
    let h = |b: Option<S>, m: Option<Decimal>, extra: &str| {
        let mut text = String::new();
        if let Some(b) = b {
            text += &format!("option \"booking_method\" \"{}\"\n", b.to_uppercase().replace("STRICT-WITH-SIZE", "STRICT_WITH_SIZE"));
        }
        if let Some(m) = m {
            text += &format!("option \"inferred_tolerance_multiplier\" \"{m}\"\n");
        }
        text += extra;
        Header { set: Settings { booking_option: b, multiplier: m }, text }
    };
    v.push(h(None, None, ""));
    v.push(h(Some("fifo"), None, ""));
    v.push(h(None, Some(dec(11, 1)), ""));
    v.push(h(Some("lifo"), Some(dec(25, 2)), ""));
    v.push(h(Some("average"), Some(dec(0, 0)), ""));
    v.push(h(Some("none"), Some(dec(3, 0)), ""));
    v.push(h(Some("hifo"), None, "option \"inferred_tolerance_default\" \"USD:0.01\"\n"));
    v.push(h(Some("strict"), None, "option \"inferred_tolerance_default\" \"*:0.002\"\n"));
    v.push(h(Some("strict-with-size"), None, ""));
    v
}

pub fn tolerance_of(path: &Path) -> LimaTolerance<'static> {
    let sources: &'static parser::BeancountSources =
        Box::leak(Box::new(parser::BeancountSources::try_from(path).expect("header")));
    let p: &'static parser::BeancountParser = Box::leak(Box::new(parser::BeancountParser::new(sources)));
    let options: &'static parser::Options<'static> = match p.parse() {
        Ok(parser::ParseSuccess { options, .. }) => Box::leak(Box::new(options)),
        Err(parser::ParseError { errors, .. }) => panic!("header does not parse: {:?}", errors),
    };
    options.into()
}

pub struct Target {
    pub header: Header,
    pub path: PathBuf,
    pub tol: LimaTolerance<'static>,
    pub pod: Pod,
}

pub fn targets(run: &Run) -> Vec<Target> {
    headers()
        .into_iter()
        .enumerate()
        .map(|(i, header)| {
            let path = run.file(&format!("header{i}.beancount"), &header.text);
            let tol = tolerance_of(&path);
            let pod = Pod::start(&path);
            Target { header, path, tol, pod }
        })
        .collect()
}

pub fn request(dirs: &[Dir]) -> String {
    json!({"jsonrpc": "2.0", "id": 1, "method": "book", "params": dirs.iter().map(raw_json).collect::<Vec<_>>()}).to_string()
}

impl Target {
    /// Outcome of one ledger on the real server: what is wrong, if anything. (None, _) when outside the domain.
    fn one(&mut self, dirs: &[Dir]) -> (Option<Expected>, Option<Wrong>, String) {
        let crash = |what: String| Some(Wrong { what, aspects: vec!["crash"] });
        let exp = book(dirs, &self.header.set, &self.tol);
        match self.pod.ask(&request(dirs)) {
            Ok(line) => {
                let v: Value = serde_json::from_str(&line).unwrap_or(Value::Null);
                let wrong = if v.get("id") != Some(&json!(1)) {
                    crash(format!("not a response to the request: {line}"))
                } else if v.pointer("/error/code").and_then(|c| c.as_i64()) == Some(-32700) {
                    crash(format!("request refused: {line}"))
                } else {
                    exp.as_ref().and_then(|e| judge(dirs, e, &v))
                };
                (exp, wrong, line)
            }
            Err(dead) => {
                self.pod = Pod::start(&self.path);
                (exp, crash(format!("no response, server {dead:?}")), String::new())
            }
        }
    }

    fn shrink(&mut self, dirs: &[Dir], keep: &dyn Fn(&Wrong, bool) -> bool) -> Vec<Dir> {
        let mut best = dirs.to_vec();
        let mut changed = true;
        let t0 = Instant::now();
        while changed && t0.elapsed() < Duration::from_secs(20) {
            changed = false;
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                c.remove(i);
                let (e, w, _) = self.one(&c);
                if w.as_ref().is_some_and(|w| keep(w, e.is_some())) {
                    best = c;
                    changed = true;
                } else {
                    i += 1;
                }
            }
            for i in 0..best.len() {
                if let Kind::Txn { postings, .. } = &best[i].kind {
                    for j in 0..postings.len() {
                        let mut c = best.clone();
                        if let Kind::Txn { postings, .. } = &mut c[i].kind {
                            postings.remove(j);
                        }
                        let (e, w, _) = self.one(&c);
                        if w.as_ref().is_some_and(|w| keep(w, e.is_some())) {
                            best = c;
                            changed = true;
                            break;
                        }
                    }
                }
            }
        }
        best
    }
}

pub fn failure(t: &mut Target, dirs: &[Dir], first: Wrong, prop: &str) -> Failure {
    let crash = first.aspects.contains(&"crash");
    let keep =
        move |w: &Wrong, in_domain: bool| if crash { w.aspects.contains(&"crash") } else { in_domain && concerns(prop, w) };
    let small = t.shrink(dirs, &keep);
    let (exp, w, line) = t.one(&small);
    let (small, exp, w, line) = if w.is_some() {
        (small, exp, w, line)
    } else {
        let (e, w, l) = t.one(dirs);
        (dirs.to_vec(), e, w, l)
    };
    Failure {
        what: w.map(|w| w.what).unwrap_or(first.what),
        replay: json!({
            "beanfile": t.header.text,
            "requests": [request(&small)],
            "directives": small.iter().map(raw_json).collect::<Vec<_>>(),
            "response": line,
            "expected": exp.map(|e| format!("errors {:?} {:?} directives {}", e.errors, e.final_errors, Value::Array(e.directives))),
            "how": "write beanfile to FILE; feed requests, one per line, to `limabean-pod serve FILE`",
        }),
    }
}

pub fn profile(prop: &str) -> Profile {
    let base = Profile { accounts: 4, open_all: true, len: (3, 16), w_txn: 30, w_balance: 25, w_other: 2, missing: 15, multi: 20, ..Default::default() };
    match prop {
        "C01" => Profile { accounts: 3, open_all: false, len: (3, 14), w_open: 30, w_close: 18, w_txn: 25, w_balance: 15, w_pad: 8, w_other: 4, multi: 20, ..Default::default() },
        "C02" => Profile { declare_currencies: 60, w_pad: 3, holes: 10, ..base },
        "C03" => Profile { w_txn: 25, w_balance: 50, ..base },
        "C04" => Profile { accounts: 8, w_balance: 50, ..base },
        "C05" | "C06" => Profile { w_pad: 25, w_balance: 30, w_other: 4, ..base },
        "C07" => Profile { unbalanced: 25, declare_currencies: 25, open_all: false, w_open: 25, w_close: 8, lots: 20, methods: 30, w_pad: 6, holes: 10, ..base },
        "C08" => Profile { accounts: 6, w_balance: 60, ..base },
        "C09" => Profile { accounts: 5, w_txn: 20, w_balance: 6, w_pad: 6, w_open: 3, w_close: 2, w_other: 50, extras: 60, lots: 15, prices: 15, ..base },
        "C10" => Profile { accounts: 4, open_all: false, w_open: 20, w_close: 8, w_pad: 10, declare_currencies: 20, unbalanced: 15, extras: 10, w_other: 6, lots: 10, holes: 10, ..base },
        "C11" => Profile { accounts: 4, open_all: false, w_open: 25, w_close: 12, w_pad: 18, declare_currencies: 15, unbalanced: 10, extras: 15, w_other: 6, lots: 30, methods: 70, prices: 15, wild_amounts: true, bad_pad: 100, holes: 20, ..base },
        "C12" => Profile { accounts: 3, methods: 70, lots: 90, w_txn: 60, w_balance: 4, len: (5, 22), holes: 12, ..base },
        "C21" => Profile { accounts: 4, lots: 30, prices: 35, missing: 25, multi: 50, methods: 40, unbalanced: 8, nearly: 35, holes: 25, w_txn: 60, w_balance: 6, wild_amounts: true, ..base },
        "C20" => Profile { accounts: 5, lots: 30, prices: 30, missing: 40, multi: 50, extras: 40, methods: 40, w_txn: 60, w_balance: 2, holes: 12, ..base },
        _ => base,
    }
}

fn relevant(prop: &str, s: &Stats, e: &Expected) -> bool {
    let ok = e.errors.is_empty() && e.final_errors.is_empty();
    match prop {
        "C01" => s.lifecycle_rejects > 0,
        "C02" => s.currency_rejects > 0,
        "C03" | "C04" => s.balance_fail + s.balance_pass > 1,
        "C05" => s.padded > 0,
        "C06" => s.unused_pads > 0,
        "C07" => s.lifecycle_rejects + s.currency_rejects + s.booking_rejects > 0,
        "C08" => s.balance_fail > 0 && s.balance_fail + s.balance_pass > 1,
        "C09" => ok,
        "C10" => e.errors.len() + e.final_errors.len() > 1,
        "C12" => s.lots > 1,
        "C20" => s.txns > 0,
        "C21" => s.weighed > 0,
        _ => true,
    }
}

/// Small alphabets, all sequences up to a length: the bounded stage.
fn alphabet(prop: &str) -> Option<(Vec<Dir>, Vec<Dir>, usize)> {
    let d = |kind: Kind| Dir { date: date(0), kind, x: Extras::default() };
    let open = |a: S, curs: Option<&[S]>| d(Kind::Open { acc: a, curs: curs.map(|c| c.iter().copied().collect()), booking: None });
    let close = |a: S| d(Kind::Close { acc: a });
    let txn = |a: S, b: S, n: i64, c: S| {
        d(Kind::Txn {
            flag: "*",
            payee: None,
            narration: None,
            postings: vec![
                Posting { acc: a, units: Some(dec(n, 0)), cur: Some(c), ..Default::default() },
                Posting { acc: b, units: Some(dec(-n, 0)), cur: Some(c), ..Default::default() },
            ],
        })
    };
    let bal = |a: S, n: i64, c: S| d(Kind::Balance { acc: a, units: dec(n, 0), cur: c, tol: None });
    let pad = |a: S, b: S| d(Kind::Pad { acc: a, source: b });
    let (a, b, e) = ("A:X", "A:X:Y", "E");
    let note = d(Kind::Note { acc: a, comment: "n" });
    Some(match prop {
        "C01" => (vec![], vec![open(a, None), open(e, None), close(a), txn(a, e, 1, "USD"), bal(a, 0, "USD"), pad(a, e), pad(e, a)], 5),
        "C02" => (
            vec![],
            vec![open(a, Some(&["USD"])), open(e, None), open(e, Some(&["USD", "EUR"])), txn(a, e, 1, "USD"), txn(a, e, 1, "EUR"), bal(a, 0, "EUR"), bal(e, 0, "EUR"), bal(a, 0, "USD")],
            4,
        ),
        "C03" | "C04" | "C08" => (
            vec![open(a, None), open(b, None), open(e, None), open("A:XY", None)],
            vec![txn(a, e, 1, "USD"), txn(b, e, 2, "USD"), txn("A:XY", e, 4, "USD"), txn(a, e, 8, "EUR"), bal(a, 1, "USD"), bal(a, 3, "USD"), bal(b, 2, "USD"), bal(e, -1, "USD")],
            4,
        ),
        "C05" | "C06" | "C07" | "C10" => (
            vec![open(a, None), open(b, None), open(e, None)],
            vec![pad(a, e), pad(b, e), bal(a, 0, "USD"), bal(a, 1, "USD"), bal(b, 1, "USD"), bal(e, 0, "USD"), txn(a, e, 1, "USD"), txn(b, "Z", 1, "USD"), note],
            4,
        ),
        "C11" => (vec![], vec![open(a, None), open(e, None), close(e), pad(a, e), pad(a, a), bal(a, 1, "USD"), txn(a, e, 1, "USD")], 5),
        _ => return None,
    })
}

fn book_property(run: &mut Run) -> Option<Failure> {
    std::panic::set_hook(Box::new(|i| {
        if !model::IN_DEPENDENCY.with(|f| f.get()) {
            eprintln!("{i}");
        }
    }));
    let mut ts = targets(run);
    let prop = run.prop.clone();
    if let Some((prefix, letters, len)) = alphabet(&prop) {
        let mut n = 0usize;
        let mut complete = true;
        'outer: for l in 1..=len {
            let mut word = vec![0usize; l];
            loop {
                if run.past(0.5) {
                    complete = false;
                    break 'outer;
                }
                let mut dirs = prefix.clone();
                dirs.extend(word.iter().enumerate().map(|(i, w)| Dir { date: date(i as i64), ..letters[*w].clone() }));
                n += 1;
                if let Some(f) = step(run, &mut ts[0], &dirs, &prop) {
                    return Some(f);
                }
                let mut k = 0;
                while k < l {
                    word[k] += 1;
                    if word[k] < letters.len() {
                        break;
                    }
                    word[k] = 0;
                    k += 1;
                }
                if k == l {
                    break;
                }
            }
        }
        run.count("exhaustive_sequences", n);
        run.count(if complete { "exhaustive_complete_to_length" } else { "exhaustive_cut_short_below_length" }, len);
    }
    let p = profile(&prop);
    let mut r = Rng::new(run.seed);
    while run.time_left() {
        let i = r.below(ts.len());
        let mut dirs = ledger(&mut r, &p, ts[i].header.set.multiplier);
        if dirs.len() > 50 {
            let accepted = r.chance(50);
            dirs = model::settle(dirs, &ts[i].header.set, &ts[i].tol, accepted);
            run.count("long_ledgers", 1);
        }
        if let Some(f) = step(run, &mut ts[i], &dirs, &prop) {
            return Some(f);
        }
    }
    None
}

fn step(run: &mut Run, t: &mut Target, dirs: &[Dir], prop: &str) -> Option<Failure> {
    let (exp, wrong, _) = t.one(dirs);
    let case = || Value::Array(dirs.iter().map(raw_json).collect()).to_string();
    match &exp {
        None => {
            run.skipped += 1;
            if prop == "C11" {
                run.note(&case(), true);
            }
        }
        Some(e) => {
            run.note(&case(), relevant(prop, &e.stats, e));
            for (k, v) in [
                ("lifecycle_rejects", e.stats.lifecycle_rejects),
                ("currency_rejects", e.stats.currency_rejects),
                ("balances_passed", e.stats.balance_pass),
                ("balances_failed", e.stats.balance_fail),
                ("balances_padded", e.stats.padded),
                ("unused_pads", e.stats.unused_pads),
                ("transactions", e.stats.txns),
                ("transactions_unbookable", e.stats.booking_rejects),
                ("transactions_weighed_independently", e.stats.weighed),
                ("of_them_not_in_balance", e.stats.unbalanced),
                ("of_them_judged_otherwise_by_the_dependency", e.stats.weighed_otherwise),
                ("refusals_held_to_the_reason", e.stats.reasons),
                ("lots", e.stats.lots),
            ] {
                run.count(k, v);
            }
        }
    }
    let w = wrong?;
    if exp.is_none() && !(prop == "C11" && w.aspects.contains(&"crash")) {
        return None;
    }
    if !concerns(prop, &w) {
        run.count("disagreements_on_aspects_of_other_properties", 1);
        return None;
    }
    Some(failure(t, dirs, w, prop))
}

fn main() {
    let prop = std::env::args().nth(1).expect("property");
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or(d.into());
    let dir = PathBuf::from(env("ORACLE_DIR", "/tmp/oracle"));
    std::fs::create_dir_all(&dir).unwrap();
    let mut run = Run {
        prop: prop.clone(),
        seed: env("ORACLE_SEED", "1").parse().unwrap_or(1),
        budget: Duration::from_millis(env("ORACLE_MS", "10000").parse().unwrap()),
        dir,
        started: Instant::now(),
        evaluations: 0,
        distinct: BTreeSet::new(),
        nontrivial: 0,
        skipped: 0,
        samples: vec![],
        counters: Default::default(),
    };
    let failure = match prop.as_str() {
        "C13" => rpc::c13(&mut run),
        "C14" => rpc::c14(&mut run),
        "C15" => text::c15(&mut run),
        "C16" => text::c16(&mut run),
        "C17" => text::c17(&mut run),
        "C18" => rpc::c18(&mut run),
        "C19" => launch::c19(&mut run),
        "C26" => launch::c26(&mut run),
        "C25" => table::c25(&mut run),
        "KNOWN" => None,
        _ => book_property(&mut run),
    };
    let rep = json!({
        "property": prop,
        "seed": run.seed,
        "evaluations": run.evaluations,
        "distinct_nontrivial": run.nontrivial,
        "skipped_out_of_domain": run.skipped,
        "counters": run.counters,
        "samples": run.samples,
        "wall_s": run.started.elapsed().as_secs_f64(),
        "failure": failure.as_ref().map(|f| json!({"what": f.what, "replay": f.replay})),
    });
    let out = env("ORACLE_OUT", "/dev/stdout");
    std::fs::write(out, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
    std::process::exit(if failure.is_some() { 1 } else { 0 });
}
