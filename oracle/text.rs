//! Ledgers as text: conveyance (C15), the round trip over the wire (C16), locations of errors (C17).
use crate::*;
use std::collections::BTreeMap;
use std::fmt::Write;

pub fn string_literal(s: &str, r: &mut Rng) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' if r.chance(50) => o.push_str("\\n"),
            '\t' if r.chance(50) => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn meta_text(m: &Meta, r: &mut Rng) -> String {
    match m {
        Meta::Amount(n, c) => format!("{n} {c}"),
        Meta::Str(s) => string_literal(s, r),
        Meta::Cur(s) | Meta::Acc(s) => s.to_string(),
        Meta::Tag(s) => format!("#{s}"),
        Meta::Link(s) => format!("^{s}"),
        Meta::Date(d) => fmt_date(*d),
        Meta::Bool(b) => if *b { "TRUE" } else { "FALSE" }.into(),
        Meta::Num(n) => n.to_string(),
        Meta::Null => "NULL".into(),
    }
}

/// Tags and links may stand on the header line (not of a custom directive or posting) or on lines of their own.
fn extras_text(x: &Extras, header: bool, indent: &str, r: &mut Rng) -> (String, String) {
    let (mut on, mut below) = (String::new(), String::new());
    let marks = x.tags.iter().flatten().map(|t| format!("#{t}")).chain(x.links.iter().flatten().map(|l| format!("^{l}")));
    for m in marks {
        if header && r.chance(60) {
            write!(on, " {m}").unwrap();
        } else {
            writeln!(below, "{indent}{m}").unwrap();
        }
    }
    for (k, v) in x.meta.iter().flatten() {
        let t = meta_text(v, r);
        if *v == Meta::Null && r.chance(50) {
            writeln!(below, "{indent}{k}:").unwrap();
        } else {
            writeln!(below, "{indent}{k}: {t}").unwrap();
        }
    }
    (on, below)
}

fn cost_text(c: &Cost, r: &mut Rng) -> String {
    let mut v: Vec<String> = vec![];
    let n = match (c.per_unit, c.total) {
        (Some(p), Some(t)) => Some(format!("{p} # {t}")),
        (Some(p), None) => Some(p.to_string()),
        (None, Some(t)) => Some(format!("# {t}")),
        _ => None,
    };
    match (n, c.cur) {
        (Some(n), Some(cur)) => v.push(format!("{n} {cur}")),
        (Some(n), None) => v.push(n),
        (None, Some(cur)) => v.push(cur.to_string()),
        _ => {}
    }
    if let Some(d) = c.date {
        v.push(fmt_date(d));
    }
    if let Some(l) = c.label {
        v.push(string_literal(l, r));
    }
    if c.merge {
        v.push("*".into());
    }
    if v.len() > 1 && r.chance(50) {
        let k = r.below(v.len());
        v.rotate_left(k);
    }
    format!(" {{{}}}", v.join(", "))
}

pub struct Rendered {
    pub text: String,
    /// the text of each posting
    pub postings: Vec<String>,
}

pub fn render(d: &Dir, r: &mut Rng) -> Rendered {
    let mut t = fmt_date(d.date);
    let mut postings = vec![];
    let header = !matches!(d.kind, Kind::Custom { .. });
    let (on, below) = extras_text(&d.x, header, "  ", r);
    let q = |s: S, r: &mut Rng| string_literal(s, r);
    match &d.kind {
        Kind::Txn { flag, payee, narration, .. } => {
            write!(t, " {flag}").unwrap();
            match (payee, narration) {
                (Some(p), n) => write!(t, " {} {}", q(p, r), q(n.unwrap_or(""), r)).unwrap(),
                (None, Some(n)) => write!(t, " {}", q(n, r)).unwrap(),
                _ => {}
            }
        }
        Kind::Price { cur, per_unit, pcur } => write!(t, " price {cur} {per_unit} {pcur}").unwrap(),
        Kind::Balance { acc, units, cur, tol } => {
            write!(t, " balance {acc} {units}").unwrap();
            if let Some(x) = tol {
                write!(t, " ~ {x}").unwrap();
            }
            write!(t, " {cur}").unwrap();
        }
        Kind::Open { acc, curs, booking } => {
            write!(t, " open {acc}").unwrap();
            if let Some(c) = curs {
                let mut c: Vec<S> = c.iter().copied().collect();
                if r.chance(50) {
                    c.reverse();
                }
                write!(t, " {}", c.join(",")).unwrap();
            }
            if let Some(b) = booking {
                write!(t, " \"{}\"", b.to_uppercase().replace('-', "_")).unwrap();
            }
        }
        Kind::Close { acc } => write!(t, " close {acc}").unwrap(),
        Kind::Commodity { cur } => write!(t, " commodity {cur}").unwrap(),
        Kind::Pad { acc, source } => write!(t, " pad {acc} {source}").unwrap(),
        Kind::Document { acc, path } => write!(t, " document {acc} {}", q(path, r)).unwrap(),
        Kind::Note { acc, comment } => write!(t, " note {acc} {}", q(comment, r)).unwrap(),
        Kind::Event { type_, desc } => write!(t, " event {} {}", q(type_, r), q(desc, r)).unwrap(),
        Kind::Query { name, content } => write!(t, " query {} {}", q(name, r), q(content, r)).unwrap(),
        Kind::Custom { type_, values } => {
            write!(t, " custom {}", q(type_, r)).unwrap();
            for v in values {
                write!(t, " {}", meta_text(v, r)).unwrap();
            }
        }
    }
    t += &on;
    t += "\n";
    t += &below;
    if let Kind::Txn { postings: ps, .. } = &d.kind {
        for p in ps {
            let mut l = String::new();
            if let Some(f) = p.flag {
                write!(l, "{f} ").unwrap();
            }
            l += p.acc;
            if let Some(u) = p.units {
                write!(l, " {u}").unwrap();
            }
            if let Some(c) = p.cur {
                write!(l, " {c}").unwrap();
            }
            if let Some(c) = &p.cost {
                l += &cost_text(c, r);
            }
            if let Some(x) = &p.price {
                let at = if x.total.is_some() { "@@" } else { "@" };
                write!(l, " {at}").unwrap();
                if let Some(n) = x.per_unit.or(x.total) {
                    write!(l, " {n}").unwrap();
                }
                if let Some(c) = x.cur {
                    write!(l, " {c}").unwrap();
                }
            }
            writeln!(t, "  {l}").unwrap();
            t += &extras_text(&p.x, false, "    ", r).1;
            postings.push(l);
        }
    }
    Rendered { text: t, postings }
}

/// Bring a directive to the form which the notation can express.
pub fn expressible(d: &mut Dir) {
    let fix = |x: &mut Extras| {
        if x.tags.as_ref().is_some_and(|t| t.is_empty()) {
            x.tags = None;
        }
    };
    fix(&mut d.x);
    match &mut d.kind {
        Kind::Txn { flag, payee, narration, postings } => {
            if *flag == "txn" {
                *flag = "*";
            }
            *payee = payee.filter(|p| !p.is_empty());
            *narration = narration.filter(|p| !p.is_empty());
            for p in postings.iter_mut() {
                if let Some(x) = &mut p.price {
                    if x.per_unit.is_some() {
                        x.total = None;
                    }
                }
            }
        }
        Kind::Open { curs, .. } => {
            if curs.as_ref().is_some_and(|c| c.is_empty()) {
                *curs = None;
            }
        }
        Kind::Balance { tol, .. } => *tol = tol.map(|t| t.abs()),
        Kind::Custom { values, .. } => {
            // a number swallows a currency or a signed number after it
            let mut k = 1;
            while k < values.len() {
                if matches!(values[k - 1], Meta::Num(_)) && matches!(values[k], Meta::Num(_) | Meta::Cur(_) | Meta::Amount(..)) {
                    values.remove(k);
                } else {
                    k += 1;
                }
            }
        }
        _ => {}
    }
}

/// The parser's order: by date, at the same date opens, then balances, then the rest, otherwise as written.
pub fn parser_order(dirs: &[Dir]) -> Vec<usize> {
    let mut v: Vec<usize> = (0..dirs.len()).collect();
    v.sort_by_key(|i| {
        let d = &dirs[*i];
        (
            d.date,
            match d.kind {
                Kind::Open { .. } => 0,
                Kind::Balance { .. } => 1,
                _ => 2,
            },
        )
    });
    v
}

pub struct Written {
    pub dirs: Vec<Dir>,
    pub rendered: Vec<Rendered>,
    /// which file each was written to
    pub main: String,
    pub included: Option<String>,
}

/// Write the directives down, reorder as the parser does.
pub fn written(r: &mut Rng, header: &str, mut dirs: Vec<Dir>, include_as: Option<&str>) -> Written {
    for d in dirs.iter_mut() {
        expressible(d);
    }
    if r.chance(40) {
        for i in (1..dirs.len()).rev() {
            if r.chance(20) {
                let j = r.below(i + 1);
                dirs.swap(i, j);
            }
        }
    }
    let mut rendered: Vec<Rendered> = dirs.iter().map(|d| render(d, r)).collect();
    let cut = if include_as.is_some() { r.below(dirs.len() + 1) } else { dirs.len() };
    let mut main = header.to_string();
    let mut included = include_as.map(|_| String::new());
    for (i, t) in rendered.iter().enumerate() {
        let f = if i < cut { &mut main } else { included.as_mut().unwrap() };
        if r.chance(20) {
            f.push_str(r.pick(&["; a comment\n", "\n", "* heading\n", "; ünïcode\n"]));
        }
        f.push_str(&t.text);
    }
    if let Some(n) = include_as {
        writeln!(main, "include \"{n}\"").unwrap();
    }
    let order = parser_order(&dirs);
    let ds = order.iter().map(|i| dirs[*i].clone()).collect();
    let mut slots: Vec<Option<Rendered>> = rendered.drain(..).map(Some).collect();
    let rs = order.iter().map(|i| slots[*i].take().unwrap()).collect();
    Written { dirs: ds, rendered: rs, main, included }
}

/// without locations
fn unspanned(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(m) = v.as_object_mut() {
        m.remove("span");
        if let Some(p) = m.get_mut("postings").and_then(|p| p.as_array_mut()) {
            for q in p {
                q.as_object_mut().map(|q| q.remove("span"));
            }
        }
    }
    v
}

pub fn ask(pod: &mut Pod, method: &str, params: Option<Value>) -> Result<Value, String> {
    let mut q = json!({"jsonrpc": "2.0", "id": 1, "method": method});
    if let Some(p) = params {
        q["params"] = p;
    }
    let line = pod.ask(&q.to_string()).map_err(|d| format!("no response to {method}: {d:?}"))?;
    serde_json::from_str::<Value>(&line).map_err(|e| format!("response to {method} is not JSON: {e}: {line}"))
}

fn files(run: &Run, w: &Written) -> PathBuf {
    if let Some(i) = &w.included {
        run.file("inc.beancount", i);
    }
    run.file("main.beancount", &w.main)
}

pub fn fail(w: &Written, what: String, method: &str) -> Failure {
    Failure {
        what,
        replay: json!({
            "beanfile": w.main, "inc.beancount": w.included, "request": method,
            "how": "write beanfile to main.beancount and, if there, inc.beancount beside it; ask `limabean-pod serve main.beancount`",
        }),
    }
}

/// options: how written, and what they must be conveyed as
fn options(r: &mut Rng, dir: &Path) -> (String, Value) {
    let mut t = String::new();
    let mut m = json!({
        "name-assets": "Assets", "name-liabilities": "Liabilities", "name-equity": "Equity",
        "name-income": "Income", "name-expenses": "Expenses",
    });
    let mut opt = |t: &mut String, name: &str, v: &str| writeln!(t, "option \"{name}\" \"{v}\"").unwrap();
    for (name, v) in [
        ("title", "My Büks"),
        ("account_previous_balances", "Opening-Balances"),
        ("account_previous_earnings", "Earnings:Previous"),
        ("account_previous_conversions", "Conversions:Previous"),
        ("account_current_earnings", "Earnings:Current"),
        ("account_current_conversions", "Conversions:Current"),
        ("account_unrealized_gains", "Earnings:Unrealized"),
        ("account_rounding", "Rounding"),
        ("conversion_currency", "NOTHING"),
    ] {
        if r.chance(30) {
            let v = if r.chance(20) { "Xyz" } else { v };
            let v = if name == "conversion_currency" { "NOTHING" } else { v };
            // the values at the edges: nothing but blanks, or the value that there is anyway
            let v = if name == "title" { r.pick(&["", " ", "Beancount", v, v]) } else { v };
            opt(&mut t, name, v);
            m[name.replace('_', "-")] = json!(v);
        }
    }
    if r.chance(30) {
        let d = match r.below(4) {
            0 => r.pick(&[dec(0, 0), dec(0, 2), dec(5, 1), dec(50, 2), dec(1, 0)]),
            _ => dec(r.range(1, 400), r.below(4) as u32),
        };
        opt(&mut t, "inferred_tolerance_multiplier", &d.to_string());
        m["inferred-tolerance-multiplier"] = num(d);
    }
    let mut defaults = BTreeMap::new();
    for c in ["USD", "EUR", "*"] {
        if r.chance(25) {
            let d = if r.chance(20) { dec(0, r.below(3) as u32) } else { dec(r.range(0, 90), 1 + r.below(4) as u32) };
            opt(&mut t, "inferred_tolerance_default", &format!("{c}:{d}"));
            if c == "*" {
                m["inferred-tolerance-default-fallback"] = num(d);
            } else {
                defaults.insert(c, num(d));
            }
        }
    }
    if !defaults.is_empty() {
        m["inferred-tolerance-default"] = json!(defaults);
    }
    for name in ["infer_tolerance_from_cost", "render_commas"] {
        if r.chance(30) {
            let b = r.chance(50);
            opt(&mut t, name, if b { "TRUE" } else { "FALSE" });
            m[name.replace('_', "-")] = json!(b);
        }
    }
    let mut set = |r: &mut Rng, name: &str, key: &str, vs: &[&str], f: &dyn Fn(&str) -> String| {
        let mut got = BTreeSet::new();
        for v in vs {
            if r.chance(25) {
                opt(&mut t, name, v);
                got.insert(f(v));
            }
        }
        if !got.is_empty() {
            m[key] = json!(got);
        }
    };
    set(r, "documents", "documents", &["docs", "more docs/x"], &|v| dir.join(v).to_string_lossy().into_owned());
    set(r, "operating_currency", "operating-currency", &["USD", "NZD", "GBP"], &|v| v.to_string());
    if r.chance(40) {
        let b = r.pick(METHODS);
        opt(&mut t, "booking_method", &b.to_uppercase().replace('-', "_"));
        m["booking-method"] = json!(b);
    }
    if r.chance(30) {
        let b = r.pick(&["default", "raw"]);
        opt(&mut t, "plugin_processing_mode", &b.to_uppercase());
        m["plugin-processing-mode"] = json!(b);
    }
    (t, m)
}

fn plugins(r: &mut Rng) -> (String, Value) {
    let (mut t, mut v) = (String::new(), vec![]);
    for _ in 0..r.few(3, 30) {
        let n = r.pick(&["a.plugin", "beancount.ops", "ünï"]);
        match r.below(3) {
            0 => {
                writeln!(t, "plugin \"{n}\"").unwrap();
                v.push(json!({"name": n, "config": null}));
            }
            k => {
                let c = if k == 1 { "" } else { "{:x 1}" };
                writeln!(t, "plugin \"{n}\" \"{c}\"").unwrap();
                v.push(json!({"name": n, "config": c}));
            }
        }
    }
    (t, Value::Array(v))
}

/// every way of stating a cost or a price
fn any_costs(r: &mut Rng, dirs: &mut [Dir], percent: usize) {
    for d in dirs.iter_mut() {
        if let Kind::Txn { postings, .. } = &mut d.kind {
            for q in postings.iter_mut() {
                if r.chance(percent) {
                    q.cost = Some(Cost {
                        per_unit: r.chance(50).then(|| amount(r, true)),
                        total: r.chance(50).then(|| amount(r, true)),
                        cur: r.chance(70).then(|| r.pick(CURS)),
                        date: r.chance(40).then(|| any_date(r)),
                        label: r.chance(40).then(|| r.pick(&["lot", "\u{e9} \"q\"", "back\\slash", "", " x "])),
                        merge: r.chance(20),
                    });
                }
                if r.chance(percent) {
                    let total = r.chance(50);
                    q.price = Some(Price {
                        per_unit: (!total).then(|| amount(r, true)).filter(|_| r.chance(70)),
                        total: total.then(|| amount(r, true)),
                        cur: r.chance(70).then(|| r.pick(CURS)),
                    });
                    // without both, `@ USD` after `100` reads as intended
                }
                if r.chance(10) {
                    q.cur = None;
                }
            }
        }
    }
}

fn conveyance_ledger(r: &mut Rng) -> Vec<Dir> {
    let p = Profile {
        accounts: 8, open_all: false, len: (4, 30), w_open: 15, w_close: 8, w_txn: 40, w_balance: 15, w_pad: 8, w_other: 60,
        declare_currencies: 50, methods: 50, lots: 25, prices: 25, missing: 30, unbalanced: 10, nearly: 0, holes: 0, extras: 60, wild_amounts: true,
        multi: 30, bad_pad: 100,
    };
    let mut dirs = ledger(r, &p, None);
    // sometimes set in another age
    let shift = if r.chance(20) { r.range(-737000, 2900000) } else { 0 };
    for d in dirs.iter_mut() {
        d.date += time::Duration::days(shift);
    }
    any_costs(r, &mut dirs, 15);
    dirs
}

pub fn c15(run: &mut Run) -> Option<Failure> {
    let mut r = Rng::new(run.seed ^ 15);
    while run.time_left() {
        let (o, want_options) = options(&mut r, &run.dir);
        let (p, want_plugins) = plugins(&mut r);
        let dirs = conveyance_ledger(&mut r);
        let inc = r.chance(30).then_some("inc.beancount");
        let w = written(&mut r, &(o + &p), dirs, inc);
        let path = files(run, &w);
        let mut pod = Pod::start(&path);
        let case = format!("{}{}", w.main, w.included.as_deref().unwrap_or(""));
        let outcome = (|| -> Result<bool, (String, &str)> {
            let v = ask(&mut pod, "parser.directives", None).map_err(|e| (e, "parser.directives"))?;
            if v.get("error").is_some() {
                if std::env::var("ORACLE_DEBUG").is_ok() { eprintln!("SKIP {v}"); }
                // must not be: the notation above is within the grammar; see that the parser agrees
                if parses(&path) {
                    return Err((format!("the ledger parses, yet: {v}"), "parser.directives"));
                }
                return Ok(false);
            }
            let got = v.pointer("/result/directives").and_then(|d| d.as_array()).cloned().unwrap_or_default();
            if got.len() != w.dirs.len() {
                return Err((format!("{} directives conveyed, {} written", got.len(), w.dirs.len()), "parser.directives"));
            }
            let mut spans = vec![];
            let mut texts: Vec<&str> = vec![];
            for (k, (g, d)) in got.iter().zip(&w.dirs).enumerate() {
                let want = raw_json(d);
                if !same(&unspanned(g), &want, "") {
                    return Err((format!("directive {k} conveyed as {g}, written {want}"), "parser.directives"));
                }
                spans.push(g.get("span").cloned().unwrap_or(Value::Null));
                texts.push(&w.rendered[k].text);
                for (j, q) in g.get("postings").and_then(|p| p.as_array()).into_iter().flatten().enumerate() {
                    spans.push(q.get("span").cloned().unwrap_or(Value::Null));
                    texts.push(&w.rendered[k].postings[j]);
                }
            }
            let v = ask(&mut pod, "parser.resolve-spans", Some(Value::Array(spans.clone()))).map_err(|e| (e, "parser.resolve-spans"))?;
            let res = v.get("result").and_then(|d| d.as_array()).cloned().unwrap_or_default();
            for (k, t) in texts.iter().enumerate() {
                let g = res.get(k).and_then(|x| x.get("content")).and_then(|c| c.as_str());
                // comments straight after a directive count as part of it
                let as_written = g.and_then(|g| g.strip_prefix(t.trim_end())).is_some_and(|rest| {
                    rest.lines().all(|l| l.is_empty() || l.starts_with(';') || l.starts_with('*'))
                });
                if !as_written {
                    return Err((format!("location {} resolves to {g:?}, written {t:?}", spans[k]), "parser.resolve-spans"));
                }
            }
            let v = ask(&mut pod, "parser.options", None).map_err(|e| (e, "parser.options"))?;
            if !same(v.get("result").unwrap_or(&Value::Null), &want_options, "") {
                return Err((format!("options conveyed as {v}, written {want_options}"), "parser.options"));
            }
            let v = ask(&mut pod, "parser.plugins", None).map_err(|e| (e, "parser.plugins"))?;
            if v.get("result") != Some(&want_plugins) {
                return Err((format!("plugins conveyed as {v}, written {want_plugins}"), "parser.plugins"));
            }
            Ok(true)
        })();
        match outcome {
            Ok(true) => {
                run.note(&case, true);
                run.count("directives", w.dirs.len());
            }
            Ok(false) => run.skipped += 1,
            Err((what, method)) => {
                run.note(&case, true);
                return Some(fail(&w, what, method));
            }
        }
    }
    None
}

pub fn parses(path: &Path) -> bool {
    let Ok(sources) = parser::BeancountSources::try_from(path) else { return false };
    let p = parser::BeancountParser::new(&sources);
    p.parse().is_ok()
}

/// Reverse the members of every object: nothing may depend on their order.
fn reordered(v: &Value, out: &mut String) {
    match v {
        Value::Object(m) => {
            out.push('{');
            for (k, (key, x)) in m.iter().rev().enumerate() {
                if k > 0 {
                    out.push(',');
                }
                write!(out, "{}:", json!(key)).unwrap();
                reordered(x, out);
            }
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (k, x) in a.iter().enumerate() {
                if k > 0 {
                    out.push(',');
                }
                reordered(x, out);
            }
            out.push(']');
        }
        v => out.push_str(&v.to_string()),
    }
}

/// the same, with the texts the ledger may hold anything in (names apart: these are a known finding) spelled in JSON escapes
fn spelled(v: &Value, at: &str, out: &mut String) {
    const TEXTS: [&str; 11] = ["dct", "flag", "payee", "narration", "path", "comment", "type", "description", "content", "label", "string"];
    match v {
        Value::Object(m) => {
            out.push('{');
            for (k, (key, x)) in m.iter().enumerate() {
                if k > 0 {
                    out.push(',');
                }
                write!(out, "{}:", json!(key)).unwrap();
                spelled(x, key, out);
            }
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (k, x) in a.iter().enumerate() {
                if k > 0 {
                    out.push(',');
                }
                spelled(x, "", out);
            }
            out.push(']');
        }
        Value::String(s) if TEXTS.contains(&at) => out.push_str(&in_escapes(s)),
        v => out.push_str(&v.to_string()),
    }
}

pub fn in_escapes(s: &str) -> String {
    let mut o = String::from("\"");
    for u in s.encode_utf16() {
        write!(o, "\\u{u:04x}").unwrap();
    }
    o + "\""
}

fn booking_ledger(r: &mut Rng, errors: bool) -> Vec<Dir> {
    let p = Profile {
        accounts: 5, open_all: !errors, len: (3, 18), w_open: if errors { 15 } else { 0 }, w_close: if errors { 6 } else { 0 },
        w_txn: 40, w_balance: if errors { 20 } else { 4 }, w_pad: if errors { 10 } else { 0 }, w_other: 30,
        declare_currencies: if errors { 20 } else { 0 }, methods: 30, lots: 15, prices: 15, missing: 30,
        unbalanced: if errors { 10 } else { 0 },
        nearly: 0, holes: 0, extras: 40, wild_amounts: true, multi: 30, bad_pad: 0,
    };
    ledger(r, &p, None)
}

type Locations = Vec<(Value, Vec<Value>)>;

fn locations(dirs: &[Value]) -> Locations {
    dirs.iter()
        .map(|d| {
            (
                d.get("span").cloned().unwrap_or(Value::Null),
                d.get("postings")
                    .and_then(|p| p.as_array())
                    .map(|p| p.iter().map(|q| q.get("span").cloned().unwrap_or(Value::Null)).collect())
                    .unwrap_or_default(),
            )
        })
        .collect()
}

fn kind_names(d: &Dir) -> Vec<&'static str> {
    if matches!(d.kind, Kind::Txn { .. }) { vec!["transaction", "txn"] } else { vec![d.kind.name()] }
}

/// An error report by location, as one by index; or what is wrong with it.
fn by_index(g: &Value, at: &Locations, dirs: &[Dir]) -> Result<Value, String> {
    let find = |span: &Value| -> Option<El> {
        for (i, (s, ps)) in at.iter().enumerate() {
            if s == span {
                return Some((i, None));
            }
            if let Some(j) = ps.iter().position(|p| p == span) {
                return Some((i, Some(j)));
            }
        }
        None
    };
    let idx = |e: El| match e.1 {
        Some(j) => json!([e.0, j]),
        None => json!([e.0]),
    };
    let title_of = |e: El| if e.1.is_some() { vec!["posting"] } else { kind_names(&dirs[e.0]) };
    let span = g.get("span").unwrap_or(&Value::Null);
    let e = find(span).ok_or(format!("report {g} is not at the location of any directive or posting"))?;
    let m = g.get("message").and_then(|m| m.as_str()).unwrap_or("");
    if !title_of(e).iter().any(|t| m == format!("invalid {t}")) {
        return Err(format!("report {g} is about a {} but titled {m:?}", title_of(e)[0]));
    }
    let contexts = g.get("contexts").and_then(|c| c.as_array()).cloned().unwrap_or_default();
    if e.1.is_some() {
        let ok = contexts.len() == 1
            && contexts[0].get(1) == Some(&at[e.0].0)
            && contexts[0].get(0).and_then(|k| k.as_str()).is_some_and(|k| title_of((e.0, None)).contains(&k));
        if !ok {
            return Err(format!("report {g} on a posting lacks its transaction as context"));
        }
    } else if !contexts.is_empty() {
        return Err(format!("report {g} on a directive has contexts"));
    }
    let mut o = json!({"idx": idx(e), "reason": g.get("reason")});
    if let Some(rel) = g.get("related").and_then(|c| c.as_array()) {
        let mut v = vec![];
        for x in rel {
            let e = x.get(1).and_then(|s| find(s)).ok_or(format!("related {x} is not at the location of any directive"))?;
            if !x.get(0).and_then(|k| k.as_str()).is_some_and(|k| title_of(e).contains(&k)) {
                return Err(format!("related {x} is not of the kind {}", title_of(e)[0]));
            }
            v.push(idx(e));
        }
        o["related"] = Value::Array(v);
    }
    if let Some(a) = g.get("annotation") {
        o["annotation"] = a.clone();
    }
    Ok(o)
}

pub fn multiset(v: &[Value]) -> Vec<String> {
    let mut s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    s.sort();
    s
}

/// both: the outcome of booking the ledger itself, and of booking the directives reported for it
fn both_ways(run: &mut Run, prop: &str, r: &mut Rng, hs: &[(Header, LimaTolerance<'static>)]) -> Option<Failure> {
    let (h, tol) = &hs[r.below(hs.len())];
    let errors = if prop == "C17" { r.chance(90) } else { r.chance(60) };
    let mut dirs = booking_ledger(r, errors);
    // where a transaction is wrong in several ways, which is reported is left to chance (hash order in the booking library)
    let any = prop == "C16" && r.chance(40);
    if any {
        any_costs(r, &mut dirs, 8);
    }
    let inc = r.chance(20).then_some("inc.beancount");
    let mut w = written(r, &h.text, dirs, inc);
    let _ = &mut w;
    let path = files(run, &w);
    let mut pod = Pod::start(&path);
    let case = format!("{}{}", w.main, w.included.as_deref().unwrap_or(""));
    let outcome = (|| -> Result<Option<bool>, String> {
        let v = ask(&mut pod, "parser.directives", None)?;
        let Some(parsed) = v.pointer("/result/directives").and_then(|d| d.as_array()).cloned() else {
            if parses(&path) {
                return Err(format!("the ledger parses, yet: {v}"));
            }
            return Ok(None);
        };
        if parsed.len() != w.dirs.len() {
            return Ok(None); // conveyance is another property's
        }
        let at = locations(&parsed);
        let direct = ask(&mut pod, "book", None)?;
        if prop == "C17" {
            let Some(reports) = direct.pointer("/error/data").and_then(|d| d.as_array()) else {
                return Ok(Some(false));
            };
            if direct.pointer("/error/code") != Some(&json!(2)) {
                return Err(format!("booking errors with code other than 2: {direct}"));
            }
            let mut conv = vec![];
            for g in reports {
                conv.push(by_index(g, &at, &w.dirs)?);
            }
            if let Some(exp) = book(&w.dirs, &h.set, tol) {
                let as3 = json!({"error": {"code": 3, "data": conv}});
                if !(exp.errors.is_empty() && exp.final_errors.is_empty()) {
                    if let Some(x) = judge(&w.dirs, &exp, &as3) {
                        return Err(x.what);
                    }
                }
            }
            // passed on unchanged: what the same booking says when asked by index
            let v = ask(&mut pod, "book", Some(Value::Array(parsed.clone())))?;
            let other = v.pointer("/error/data").and_then(|d| d.as_array()).cloned().unwrap_or_default();
            if multiset(&other) != multiset(&conv) {
                return Err(format!("reports by location {reports:?} disagree with those by index {other:?}"));
            }
            return Ok(Some(!reports.is_empty()));
        }
        // what is sent back is what was written, digit by digit
        for (k, (g, d)) in parsed.iter().zip(&w.dirs).enumerate() {
            let want = raw_json(d);
            if !same(&unspanned(g), &want, "") {
                return Err(format!("directive {k} did not survive encoding: {g}, written {want}"));
            }
        }
        for form in 0..3 {
            let mut line = String::new();
            if form == 0 {
                write!(line, "{}", json!({"jsonrpc": "2.0", "id": 1, "method": "book", "params": parsed})).unwrap();
            } else {
                write!(line, "{{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"book\",\"params\":").unwrap();
                if form == 1 {
                    reordered(&Value::Array(parsed.clone()), &mut line);
                } else {
                    spelled(&Value::Array(parsed.clone()), "", &mut line);
                }
                line.push('}');
            }
            let back = pod.ask(&line).map_err(|d| format!("no response to the directives sent back: {d:?}"))?;
            let back: Value = serde_json::from_str(&back).map_err(|e| format!("{e}: {back}"))?;
            match (direct.get("result"), back.get("result")) {
                (Some(a), Some(b)) => {
                    let (a, b) = (&a["directives"], &b["directives"]);
                    let (a, b) = (a.as_array().cloned().unwrap_or_default(), b.as_array().cloned().unwrap_or_default());
                    if a.len() != b.len() {
                        return Err(format!("{} booked directly, {} when sent back", a.len(), b.len()));
                    }
                    for (x, y) in a.iter().zip(&b) {
                        if !same(x, y, "") {
                            return Err(format!("booked directly as {x}, when sent back as {y}"));
                        }
                    }
                }
                (None, None) => {
                    let f = |v: &Value| v.pointer("/error/data").and_then(|d| d.as_array()).cloned().unwrap_or_default();
                    if back.pointer("/error/code") != Some(&json!(3)) {
                        return Err(format!("sent back, the directives give {back}; directly {direct}"));
                    }
                    let (a, b) = (f(&direct), f(&back));
                    if a.len() != b.len() {
                        return Err(format!("errors directly {a:?}, when sent back {b:?}"));
                    }
                    if any {
                        let span_of = |d: usize| at.get(d).map(|x| (d, x));
                        let direct_of = |g: &Value| {
                            let s = g.get("span")?;
                            (0..at.len()).filter_map(span_of).find(|(_, x)| x.0 == *s || x.1.contains(s)).map(|x| x.0)
                        };
                        let (mut x, mut y): (Vec<Option<usize>>, Vec<Option<usize>>) = (
                            a.iter().map(direct_of).collect(),
                            b.iter().map(|g| g.pointer("/idx/0").and_then(|i| i.as_u64()).map(|i| i as usize)).collect(),
                        );
                        x.sort();
                        y.sort();
                        if x != y {
                            return Err(format!("errors directly {a:?}, when sent back {b:?}"));
                        }
                        continue;
                    }
                    let spans = |e: &Value| -> Option<Value> {
                        let i = e.get(0)?.as_u64()? as usize;
                        match e.get(1).and_then(|j| j.as_u64()) {
                            Some(j) => at.get(i)?.1.get(j as usize).cloned(),
                            None => Some(at.get(i)?.0.clone()),
                        }
                    };
                    let key_a: Vec<Value> = a
                        .iter()
                        .map(|g| json!([g.get("span"), g.get("reason"), g.get("annotation"),
                            g.get("related").and_then(|r| r.as_array()).map(|r| r.iter().map(|x| x[1].clone()).collect::<Vec<_>>())]))
                        .collect();
                    let key_b: Vec<Value> = b
                        .iter()
                        .map(|g| json!([g.get("idx").and_then(spans), g.get("reason"), g.get("annotation"),
                            g.get("related").and_then(|r| r.as_array()).map(|r| r.iter().map(|x| spans(x)).collect::<Vec<_>>())]))
                        .collect();
                    if multiset(&key_a) != multiset(&key_b) {
                        return Err(format!("errors directly {a:?}, when sent back {b:?}"));
                    }
                }
                _ => return Err(format!("directly {direct}, when sent back {back}")),
            }
        }
        Ok(Some(true))
    })();
    match outcome {
        Ok(None) => run.skipped += 1,
        Ok(Some(nontrivial)) => run.note(&case, nontrivial),
        Err(what) => {
            run.note(&case, true);
            return Some(fail(&w, what, "parser.directives, book, book with those directives as params"));
        }
    }
    None
}

fn twice(run: &mut Run, prop: &str) -> Option<Failure> {
    std::panic::set_hook(Box::new(|i| {
        if !model::IN_DEPENDENCY.with(|f| f.get()) {
            eprintln!("{i}");
        }
    }));
    let hs: Vec<(Header, LimaTolerance<'static>)> = headers()
        .into_iter()
        .enumerate()
        .map(|(i, h)| {
            let p = run.file(&format!("h{i}.beancount"), &h.text);
            let t = tolerance_of(&p);
            (h, t)
        })
        .collect();
    let mut r = Rng::new(run.seed ^ 16);
    while run.time_left() {
        if let Some(f) = both_ways(run, prop, &mut r, &hs) {
            return Some(f);
        }
    }
    None
}

pub fn c16(run: &mut Run) -> Option<Failure> {
    twice(run, "C16")
}
pub fn c17(run: &mut Run) -> Option<Failure> {
    twice(run, "C17")
}
