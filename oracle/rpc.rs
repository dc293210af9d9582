//! The protocol: one answer per line (C13), bad ledgers (C14), locations and synthetic sources (C18).
use crate::text::{ask, fail, multiset, parses, written};
use crate::*;

const METHODS_NONE: &[S] = &["status", "parser.plugins", "parser.directives", "parser.options"];
const METHODS_PARAMS: &[S] =
    &["parser.format-errors", "parser.format-warnings", "parser.resolve-spans", "parser.create-synthetic-spans"];

pub fn quiet_dependency_panics() {
    std::panic::set_hook(Box::new(|i| {
        if !model::IN_DEPENDENCY.with(|f| f.get()) {
            eprintln!("{i}");
        }
    }));
}

pub fn in_dependency<T>(f: impl FnOnce() -> T) -> Option<T> {
    model::IN_DEPENDENCY.with(|x| x.set(true));
    let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
    model::IN_DEPENDENCY.with(|x| x.set(false));
    v
}

/// The members in any order, with any white space a line may have.
fn object(r: &mut Rng, mut members: Vec<(String, String)>) -> String {
    for i in (1..members.len()).rev() {
        let j = r.below(i + 1);
        members.swap(i, j);
    }
    let sp = |r: &mut Rng| if r.chance(10) { " " } else { "" };
    let mut o = String::from("{");
    for (k, (key, v)) in members.iter().enumerate() {
        if k > 0 {
            o.push(',');
        }
        let key = if r.chance(3) { crate::text::in_escapes(key) } else { json!(key).to_string() };
        o += &format!("{}{}{}:{}{}", sp(r), key, sp(r), sp(r), v);
    }
    o.push('}');
    o
}

fn any_id(r: &mut Rng) -> Option<Value> {
    Some(match r.below(12) {
        0 => return None,
        1 => Value::Null,
        2 => json!(r.next()),
        3 => json!(-(r.below(1 << 40) as i64)),
        4 => json!(r.below(9) as f64 + 0.5),
        5 => json!(""),
        6 => json!("a \"quoted\" \\ one"),
        7 => json!("tab\t, newline\n, ünïcode 漢 \u{1}"),
        8 if r.chance(3) => json!("long é ".repeat(r.below(12000))),
        8 => json!(format!("{}", r.below(1000))),
        9 => json!(i64::MIN),
        10 => json!(0),
        _ => json!(r.below(100000)),
    })
}

/// As JSON, sometimes with everything escaped that may be
fn id_text(r: &mut Rng, id: &Value) -> String {
    match id {
        Value::String(s) if r.chance(30) => {
            let mut o = String::from("\"");
            for u in s.encode_utf16() {
                o += &format!("\\u{u:04x}");
            }
            o + "\""
        }
        v => v.to_string(),
    }
}

struct Fragment(S, S);
const FRAGMENTS: &[Fragment] = &[
    Fragment("plugin-a", "2024-01-01 open A"),
    Fragment("plugin-a", "a\nb\nc"),
    Fragment("b", "single"),
    Fragment("ünï", "é ü 漢 x"),
    Fragment("", "named by nothing"),
    Fragment("b", "\"quoted\" \\ "),
    Fragment("/etc/nothing.beancount", "first\n  second\n"),
    Fragment("main.beancount", "same name as a file"),
];

fn some_spans(r: &mut Rng) -> Value {
    Value::Array((0..r.few(4, 60)).map(|_| { let a = r.below(20); json!([0, a, a + r.below(6)]) }).collect())
}

fn some_reports(r: &mut Rng) -> Value {
    Value::Array(
        (0..r.few(3, 40))
            .map(|_| {
                let a = r.below(15);
                let mut m = json!({"message": r.pick(&["mess\u{e9}ge \"x\"", "mess\u{e9}ge \"x\"", ""]), "reason": r.pick(&["r", "why\nso", ""]), "span": [0, a, a + 3]});
                if r.chance(40) {
                    m["annotation"] = json!("note \\ well");
                }
                if r.chance(40) {
                    m["contexts"] = json!([["in", [0, 0, 3]]]);
                }
                if r.chance(40) {
                    m["related"] = json!([["to", [0, 1, 3]], ["to \"q\"", [0, 5, 9]]]);
                }
                m
            })
            .collect(),
    )
}

fn some_fragments(r: &mut Rng) -> Value {
    Value::Array(
        (0..r.few(4, 60))
            .map(|_| {
                let f = &FRAGMENTS[r.below(FRAGMENTS.len())];
                json!({"name": f.0, "content": f.1})
            })
            .collect(),
    )
}

fn book_params(r: &mut Rng) -> Value {
    let p = Profile { accounts: 3, open_all: r.chance(50), len: (0, 6), w_open: 20, w_close: 5, w_txn: 40, w_balance: 20, w_pad: 8, w_other: 20, extras: 30, ..Default::default() };
    Value::Array(ledger(r, &p, None).iter().map(raw_json).collect())
}

fn method(r: &mut Rng) -> (S, Option<Value>) {
    match r.below(6) {
        0 | 1 => (r.pick(METHODS_NONE), None),
        2 => ("book", if r.chance(20) { Some(Value::Null) } else { None }),
        3 => ("book", Some(book_params(r))),
        _ => {
            let m = r.pick(METHODS_PARAMS);
            let p = match m {
                "parser.resolve-spans" => some_spans(r),
                "parser.create-synthetic-spans" => some_fragments(r),
                _ => some_reports(r),
            };
            (m, Some(p))
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Class {
    WellFormed,
    Version,
    Malformed,
}

struct Line {
    raw: String,
    id: Value,
    class: Class,
}

fn line(r: &mut Rng) -> Line {
    let id = any_id(r);
    let (m, p) = method(r);
    let spell = |r: &mut Rng, s: &str| if r.chance(12) { crate::text::in_escapes(s) } else { json!(s).to_string() };
    let mut members: Vec<(String, String)> = vec![("jsonrpc".into(), spell(r, "2.0")), ("method".into(), spell(r, m))];
    if let Some(i) = &id {
        members.push(("id".into(), id_text(r, i)));
    }
    let takes_params = p.is_some();
    if let Some(p) = &p {
        members.push(("params".into(), p.to_string()));
    }
    let set = |ms: &mut Vec<(String, String)>, k: &str, v: Option<&str>| {
        ms.retain(|m| m.0 != k);
        if let Some(v) = v {
            ms.push((k.into(), v.into()));
        }
    };
    let bad = |raw: String| Line { raw, id: Value::Null, class: Class::Malformed };
    match r.below(20) {
        0 => bad(r.pick(&["", " ", "\t  ", "{", "}", "[]", "null", "1", "\"x\"", "{}", "status", "[1,", "{\"jsonrpc\":\"2.0\"}", "\u{feff}{}", "é"]).into()),
        1 => {
            set(&mut members, "method", Some(r.pick(&["\"nope\"", "\"Status\"", "\"parser\"", "\"parser.options \"", "\"\"", "\"5\"", "[\"status\"]", "null"])));
            bad(object(r, members))
        }
        2 => {
            let k = r.pick(&["jsonrpc", "method"]);
            set(&mut members, k, None);
            bad(object(r, members))
        }
        3 => {
            set(&mut members, "jsonrpc", Some(r.pick(&["2.0", "null", "[\"2.0\"]", "true"])));
            bad(object(r, members))
        }
        4 => {
            set(&mut members, "id", Some(r.pick(&["true", "false", "[]", "[1]", "{}", "{\"id\":1}"])));
            bad(object(r, members))
        }
        5 if takes_params && m != "book" => {
            let v = r.pick(&[None, Some("null"), Some("{}"), Some("5"), Some("[5]"), Some("[[1]]"), Some("[{}]"), Some("\"x\"")]);
            set(&mut members, "params", v);
            bad(object(r, members))
        }
        6 if m == "book" => {
            set(&mut members, "params", Some(r.pick(&[
                "{}", "5", "[5]", "[{}]", "\"x\"", "[{\"date\":\"2024-01-01\"}]", "[{\"date\":\"2024-13-01\",\"dct\":\"close\",\"acc\":\"A\"}]",
                "[{\"date\":\"2024-01-01\",\"dct\":\"closed\",\"acc\":\"A\"}]", "[{\"date\":\"2024-01-01\",\"dct\":\"close\"}]",
                "[{\"date\":\"2024-01-01\",\"dct\":\"balance\",\"acc\":\"A\",\"units\":\"x\",\"cur\":\"USD\"}]",
            ])));
            bad(object(r, members))
        }
        7 => {
            let o = object(r, members);
            let mut cut = r.below(o.len());
            while !o.is_char_boundary(cut) {
                cut -= 1;
            }
            bad(o[..cut].replace('\n', " "))
        }
        8 => {
            let o = object(r, members);
            bad(match r.below(4) {
                0 => format!("{o} x"),
                1 => format!("{o}{o}"),
                2 => format!("[{o}]"),
                _ => format!("x{o}"),
            })
        }
        9 | 10 => {
            let v = r.pick(&["\"1.0\"", "\"\"", "\"2\"", "\"2.1\"", "\"2.0 \"", "\"two\"", "\"02.0\"", "\"2.00\""]);
            let v = if r.chance(12) { crate::text::in_escapes(v.trim_matches('"')) } else { v.into() };
            set(&mut members, "jsonrpc", Some(&v));
            Line { raw: object(r, members), id: id.unwrap_or(Value::Null), class: Class::Version }
        }
        _ => {
            if r.chance(10) {
                members.push(("extra".into(), "[1,{\"a\":null}]".into()));
            }
            let mut raw = object(r, members);
            if r.chance(10) {
                raw = format!("  {raw}\t ");
            }
            Line { raw, id: id.unwrap_or(Value::Null), class: Class::WellFormed }
        }
    }
}

fn check_line(l: &Line, got: &str) -> Result<(), String> {
    let v: Value = serde_json::from_str(got).map_err(|e| format!("answer is not JSON ({e}): {got}"))?;
    let m = v.as_object().ok_or(format!("answer is not an object: {got}"))?;
    if m.get("jsonrpc") != Some(&json!("2.0")) {
        return Err(format!("answer is not JSON-RPC 2.0: {got}"));
    }
    if m.contains_key("result") == m.contains_key("error") {
        return Err(format!("answer has not exactly one of result and error: {got}"));
    }
    if m.get("id") != Some(&l.id) {
        return Err(format!("answer carries id {:?}, the request {}", m.get("id"), l.id));
    }
    let code = v.pointer("/error/code").and_then(|c| c.as_i64());
    if m.contains_key("error") && (code.is_none() || !v.pointer("/error/message").is_some_and(|m| m.is_string())) {
        return Err(format!("error without code and message: {got}"));
    }
    match (l.class, code) {
        (Class::Malformed, Some(-32700)) | (Class::Version, Some(-32600)) | (Class::WellFormed, None | Some(1..=3)) => Ok(()),
        (c, _) => Err(format!("line of class {c:?} answered {got}")),
    }
}

fn states(run: &Run) -> Vec<(S, PathBuf)> {
    let dir = run.dir.join("a-directory");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(run.dir.join("latin1.beancount"), b"; \xe9\n").unwrap();
    vec![
        ("good", run.file("good.beancount", GOOD)),
        ("empty", run.file("empty.beancount", "")),
        ("does not book", run.file("nobook.beancount", &format!("{GOOD}\n2024-03-01 balance Assets:Bank 5 USD\n"))),
        ("does not parse", run.file("noparse.beancount", &format!("{GOOD}\n2024-03-01 balance Assets:Bank USD\nrubbish\n"))),
        ("missing", run.dir.join("no such file")),
        ("is a directory", dir),
        ("is not text", run.dir.join("latin1.beancount")),
    ]
}

const GOOD: &str = "option \"title\" \"Büks\"\nplugin \"p\" \"c\"\n2024-01-01 open Assets:Bank\n2024-01-01 open Equity:Opening\n2024-01-02 txn \"x\" \"y\"\n  Assets:Bank 10 USD\n  Equity:Opening\n";

pub fn c13(run: &mut Run) -> Option<Failure> {
    let states = states(run);
    let mut r = Rng::new(run.seed ^ 13);
    while run.time_left() {
        let (state, path) = &states[r.below(states.len())];
        let n = 1 + r.below(12);
        let lines: Vec<Line> = (0..n).map(|_| line(&mut r)).collect();
        let crlf = r.chance(20);
        let open_end = r.chance(30) && !lines[n - 1].raw.is_empty();
        let mut input = String::new();
        for (i, l) in lines.iter().enumerate() {
            input += &l.raw;
            if i + 1 < n || !open_end {
                input += if crlf { "\r\n" } else { "\n" };
            }
        }
        let mut pod = Pod::start(path);
        pod.send_raw(input.as_bytes());
        let (got, code) = pod.finish();
        let what = (|| {
            for (i, (l, g)) in lines.iter().zip(&got).enumerate() {
                if let Err(e) = check_line(l, g) {
                    return Some(format!("ledger {state}, line {i} {:?}: {e}", l.raw));
                }
            }
            if got.len() != n {
                return Some(format!("ledger {state}: {n} lines of input, {} of output", got.len()));
            }
            (code != Some(0)).then(|| format!("ledger {state}: ended with {code:?} at the end of input"))
        })();
        run.note(&format!("{state}: {input}"), lines.iter().any(|l| l.class == Class::WellFormed) && n > 1);
        run.count("lines", n);
        for c in [Class::WellFormed, Class::Version, Class::Malformed] {
            run.count(&format!("lines {c:?}"), lines.iter().filter(|l| l.class == c).count());
        }
        if let Some(what) = what {
            // the shortest prefix which fails on its own is not sought: the input is short
            return Some(Failure {
                what,
                replay: json!({"ledger": state, "path": path, "beanfile": std::fs::read_to_string(path).ok(), "stdin": input, "output": got, "exit": code,
                    "how": "`limabean-pod serve FILE` with that input"}),
            });
        }
    }
    None
}

fn report_of<R: parser::Report>(e: &R) -> Value {
    let span = |s: &parser::Span| json!([s.source, s.start, s.end]);
    let list = |v: Vec<(&str, parser::Span)>| -> Option<Value> {
        (!v.is_empty()).then(|| Value::Array(v.iter().map(|(l, s)| json!([l, span(s)])).collect()))
    };
    let mut m = json!({"message": e.message(), "reason": e.reason(), "span": span(&e.span())});
    if let Some(v) = list(e.contexts().collect()) {
        m["contexts"] = v;
    }
    if let Some(v) = list(e.related().collect()) {
        m["related"] = v;
    }
    m
}

fn unreadable(run: &mut Run, r: &mut Rng, path: &Path) -> Result<(), String> {
    let Err(e) = parser::BeancountSources::try_from(path) else { return Ok(()) };
    let mut pod = Pod::start(path);
    for _ in 0..6 {
        let (m, p) = method(r);
        let v = ask(&mut pod, m, p)?;
        run.note(&format!("{} {m}", path.display()), true);
        if v.pointer("/error/code") != Some(&json!(1)) {
            return Err(format!("{m} on an unreadable ledger answered {v}"));
        }
        let msg = v.pointer("/error/message").and_then(|m| m.as_str()).unwrap_or("");
        if !msg.contains(&e.to_string()) {
            return Err(format!("{m} on an unreadable ledger: message {msg:?} lacks the reason {e}"));
        }
    }
    Ok(())
}

fn corrupt(r: &mut Rng, text: &str) -> String {
    let mut ls: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    for _ in 0..1 + r.below(4) {
        let i = if ls.is_empty() { 0 } else { r.below(ls.len()) };
        match r.below(5) {
            0 => ls.insert(i, r.pick(&["rubbish", "2024-01-01", "2024-02-01 balance Assets:Bank", "2024-13-45 open Assets:X", "  Assets:Bank 10 USD", "option \"x\"", "option \"nope\" \"y\"", "include \"missing.beancount\"", "2024-01-01 open Lima:Bank", "option \"booking_method\" \"XYZ\"", "poptag #nope", "é", "option \"title\" \"again\"", "option \"operating_currency\" \"USD\"\noption \"operating_currency\" \"USD\"", "option \"inferred_tolerance_default\" \"USD:1\"\noption \"inferred_tolerance_default\" \"USD:2\""]).into()),
            1 if !ls.is_empty() => {
                let l = ls.remove(i);
                let cut = l.char_indices().map(|c| c.0).nth(r.below(l.chars().count().max(1))).unwrap_or(0);
                ls.insert(i, l[..cut].to_string());
            }
            2 if !ls.is_empty() => ls[i] = ls[i].replacen(' ', "", 1),
            3 if !ls.is_empty() => ls[i].push_str(r.pick(&[" extra", " \"s\"", " 10", " {"])),
            _ if !ls.is_empty() => {
                ls.remove(i);
            }
            _ => {}
        }
    }
    ls.join("\n") + "\n"
}

fn bad_ledger(run: &mut Run, r: &mut Rng) -> Result<Option<bool>, (String, String)> {
    let p = Profile { accounts: 4, open_all: r.chance(60), len: (2, 10), w_open: 10, w_close: 4, w_txn: 40, w_balance: 20, w_pad: 8, w_other: 20, extras: 20, ..Default::default() };
    let dirs = ledger(r, &p, None);
    let w = written(r, "option \"title\" \"t\"\nplugin \"p\"\n", dirs, None);
    let faulty = r.chance(70);
    let mut text = if faulty { corrupt(r, &w.main) } else { w.main.clone() };
    if r.chance(8) {
        // errors by the dozen, with directives between them where the parser finds its feet again
        for i in 0..r.range(15, 140) {
            text += &format!("\n2024-02-02 balance Assets:Many USD\n\n2024-02-02 open Assets:Many{i}\n");
        }
    }
    let path = run.file("main.beancount", &text);
    let e = |what: String| (what, text.clone());
    let Ok(sources) = parser::BeancountSources::try_from(path.as_path()) else { return Ok(None) };
    let p = parser::BeancountParser::new(&sources);
    let Some(parsed) = in_dependency(|| p.parse()) else { return Ok(None) };
    let mut pod = Pod::start(&path);
    let params = book_params(r);
    match parsed {
        Err(parser::ParseError { errors, .. }) => {
            let want = multiset(&errors.iter().map(report_of).collect::<Vec<_>>());
            for (m, p) in [("parser.directives", None), ("parser.options", None), ("parser.plugins", None), ("book", None), ("book", Some(params))] {
                let v = ask(&mut pod, m, p).map_err(e)?;
                if v.pointer("/error/code") != Some(&json!(2)) {
                    return Err(e(format!("{m} on a ledger which does not parse answered {v}")));
                }
                let got = v.pointer("/error/data").and_then(|d| d.as_array()).cloned().unwrap_or_default();
                if multiset(&got) != want {
                    return Err(e(format!("{m} on a ledger which does not parse reports {got:?}, the parser {want:?}")));
                }
            }
            let (s, f) = (some_spans(r), some_fragments(r));
            let reports = Value::Array(errors.iter().map(report_of).collect());
            for (m, p) in [
                ("status", None), ("parser.format-errors", Some(reports.clone())), ("parser.format-warnings", Some(reports)),
                ("parser.resolve-spans", Some(s)), ("parser.create-synthetic-spans", Some(f)), ("status", None),
            ] {
                let v = ask(&mut pod, m, p).map_err(e)?;
                if v.get("result").is_none() {
                    return Err(e(format!("{m} on a ledger which does not parse answered {v}")));
                }
            }
            run.count("parser_errors", errors.len());
            Ok(Some(true))
        }
        Ok(_) => {
            for (m, p, code) in [
                ("parser.directives", None, None), ("parser.options", None, None), ("parser.plugins", None, None), ("status", None, None),
                ("book", None, Some(2)), ("book", Some(params), Some(3)),
                ("book", Some(json!([])), None),
            ] {
                let v = ask(&mut pod, m, p).map_err(e)?;
                let got = v.pointer("/error/code").and_then(|c| c.as_i64());
                if v.get("result").is_none() && got != code {
                    return Err(e(format!("{m} on a ledger which parses answered {v}")));
                }
                if let Some(c) = got {
                    let key = if c == 2 { "span" } else { "idx" };
                    let d = v.pointer("/error/data").and_then(|d| d.as_array()).cloned().unwrap_or_default();
                    if d.is_empty() || d.iter().any(|x| x.get(key).is_none()) {
                        return Err(e(format!("{m}: errors not by {key}: {v}")));
                    }
                    run.count("booking_errors", d.len());
                }
            }
            Ok(Some(!faulty))
        }
    }
}

pub fn c14(run: &mut Run) -> Option<Failure> {
    quiet_dependency_panics();
    let mut r = Rng::new(run.seed ^ 14);
    let bad: Vec<PathBuf> = states(run).into_iter().map(|s| s.1).collect();
    for p in &bad {
        if let Err(what) = unreadable(run, &mut r, p) {
            return Some(Failure { what, replay: json!({"path": p, "how": "ask `limabean-pod serve PATH` that method"}) });
        }
    }
    while run.time_left() {
        match bad_ledger(run, &mut r) {
            Ok(None) => run.skipped += 1,
            Ok(Some(nontrivial)) => {
                let t = std::fs::read_to_string(run.dir.join("main.beancount")).unwrap_or_default();
                run.note(&t, nontrivial);
            }
            Err((what, text)) => {
                return Some(Failure { what, replay: json!({"beanfile": text, "how": "ask `limabean-pod serve FILE` that method"}) });
            }
        }
    }
    None
}

/// A report as the parser's library takes it
struct Rep {
    message: String,
    reason: String,
    span: parser::Span,
    contexts: Vec<(String, parser::Span)>,
    related: Vec<(String, parser::Span)>,
    annotation: Option<String>,
}
impl parser::Report for Rep {
    fn message(&self) -> &str {
        &self.message
    }
    fn reason(&self) -> &str {
        &self.reason
    }
    fn span(&self) -> parser::Span {
        self.span
    }
    fn contexts(&self) -> impl Iterator<Item = (&str, parser::Span)> {
        self.contexts.iter().map(|(l, s)| (l.as_str(), *s))
    }
    fn related(&self) -> impl Iterator<Item = (&str, parser::Span)> {
        self.related.iter().map(|(l, s)| (l.as_str(), *s))
    }
}

fn span_of(v: &Value) -> parser::Span {
    let n = |i: usize| v.get(i).and_then(|x| x.as_u64()).unwrap_or(0) as usize;
    parser::Span { source: n(0), start: n(1), end: n(2) }
}

fn resolved(s: &parser::SpannedSource) -> Value {
    let mut m = json!({"start-line": s.start_line, "end-line": s.end_line, "content": s.content});
    if let Some(f) = s.file_name {
        m["file-name"] = json!(f);
    }
    m
}

fn sources_session(run: &mut Run, r: &mut Rng) -> Option<Failure> {
    let p = Profile { accounts: 4, open_all: true, len: (1, 8), w_open: 4, w_txn: 40, w_balance: 20, w_pad: 4, w_other: 40, extras: 40, ..Default::default() };
    let dirs = ledger(r, &p, None);
    let inc = r.chance(30).then_some("inc.beancount");
    let w = written(r, "option \"title\" \"t\"\n", dirs, inc);
    if let Some(i) = &w.included {
        run.file("inc.beancount", i);
    }
    let broken = r.chance(15);
    let text = if broken { format!("{}rubbish\n", w.main) } else { w.main.clone() };
    let path = run.file("main.beancount", &text);
    let Ok(sources) = parser::BeancountSources::try_from(path.as_path()) else { return None };
    let mut synthetic = parser::SyntheticSources::new(&sources);
    let mut pod = Pod::start(&path);
    // locations known so far, with what they must resolve to where known from what was registered
    let mut known: Vec<(Value, Option<(String, String)>)> = vec![];
    if let Ok(v) = ask(&mut pod, "parser.directives", None) {
        for d in v.pointer("/result/directives").and_then(|d| d.as_array()).into_iter().flatten() {
            known.push((d["span"].clone(), None));
            for q in d.get("postings").and_then(|p| p.as_array()).into_iter().flatten() {
                known.push((q["span"].clone(), None));
            }
        }
    }
    let mut log: Vec<Value> = vec![];
    let len = 2 + r.few(8, 50);
    for _ in 0..len {
        let ask = |pod: &mut Pod, log: &mut Vec<Value>, m: &str, p: Value| {
            log.push(json!({"method": m, "params": p}));
            let v = ask(pod, m, Some(p))?;
            v.get("result").cloned().ok_or(format!("{m} answered {v}"))
        };
        let outcome = (|| -> Result<bool, String> {
            match r.below(3) {
                0 => {
                    let f: Vec<(String, String)> = (0..1 + r.few(3, 40))
                        .map(|_| {
                            let f = &FRAGMENTS[r.below(FRAGMENTS.len())];
                            (f.0.to_string(), format!("{}{}{}", f.1, if r.chance(4) { "é long\n".repeat(r.below(20000)) } else { String::new() }, if r.chance(50) { format!(" {}", r.below(100)) } else { String::new() }))
                        })
                        .collect();
                    let p = Value::Array(f.iter().map(|(n, c)| json!({"name": n, "content": c})).collect());
                    let v = ask(&mut pod, &mut log, "parser.create-synthetic-spans", p)?;
                    let want: Vec<Value> = f
                        .iter()
                        .map(|(n, c)| {
                            let s = synthetic.create_synthetic_span(n, c);
                            json!([s.source, s.start, s.end])
                        })
                        .collect();
                    let got = v.as_array().cloned().unwrap_or_default();
                    if got.len() != f.len() {
                        return Err(format!("{} fragments registered, {} locations given: {v}", f.len(), got.len()));
                    }
                    if got != want {
                        return Err(format!("locations {v} for fragments which the source store puts at {want:?}"));
                    }
                    for (g, f) in got.into_iter().zip(f) {
                        if known.iter().any(|(k, _)| *k == g) {
                            return Err(format!("location {g} given for {f:?} is not new"));
                        }
                        known.push((g, Some(f)));
                    }
                    Ok(true)
                }
                1 => {
                    let mut q: Vec<(Value, Option<(String, String)>)> = vec![];
                    for _ in 0..r.few(5, 60) {
                        if !known.is_empty() {
                            q.push(known[r.below(known.len())].clone());
                        }
                    }
                    let want: Option<Vec<Value>> = q
                        .iter()
                        .map(|(s, _)| in_dependency(|| resolved(&synthetic.resolve_span(&span_of(s)))))
                        .collect();
                    let Some(want) = want else { return Ok(false) };
                    let v = ask(&mut pod, &mut log, "parser.resolve-spans", Value::Array(q.iter().map(|x| x.0.clone()).collect()))?;
                    let got = v.as_array().cloned().unwrap_or_default();
                    if got.len() != q.len() {
                        return Err(format!("{} locations requested, {} answers: {v}", q.len(), got.len()));
                    }
                    for ((g, wn), (s, f)) in got.iter().zip(&want).zip(&q) {
                        if g != wn {
                            return Err(format!("location {s} answered {g}, must be {wn}"));
                        }
                        if let Some((name, content)) = f {
                            if g["file-name"] != json!(name) || g["content"].as_str() != Some(content.trim_end()) {
                                return Err(format!("location {s} of {content:?} in {name:?} answered {g}"));
                            }
                        }
                    }
                    Ok(true)
                }
                _ => {
                    let mut reps = vec![];
                    let mut params = vec![];
                    for k in 0..r.few(4, 40) {
                        if known.is_empty() {
                            break;
                        }
                        let mut some = |r: &mut Rng| known[r.below(known.len())].0.clone();
                        let mut labelled = |r: &mut Rng, l: &str| -> Vec<(String, Value)> {
                            (0..r.few(3, 20)).map(|i| (format!("{l} {i}"), some(r))).collect()
                        };
                        let (c, rel) = (labelled(r, "in"), labelled(r, "of"));
                        let span = some(r);
                        let annotation = r.chance(50).then(|| r.pick(&["", "table\n of é", "x\n"]).to_string());
                        let mut p = json!({"message": format!("message {k}"), "reason": "rëason", "span": span});
                        if !c.is_empty() || r.chance(20) {
                            p["contexts"] = json!(c);
                        }
                        if !rel.is_empty() || r.chance(20) {
                            p["related"] = json!(rel);
                        }
                        if let Some(a) = &annotation {
                            p["annotation"] = json!(a);
                        }
                        params.push(p);
                        let conv = |v: Vec<(String, Value)>| v.into_iter().map(|(l, s)| (l, span_of(&s))).collect::<Vec<_>>();
                        reps.push(Rep {
                            message: format!("message {k}"),
                            reason: "rëason".into(),
                            span: span_of(&span),
                            contexts: conv(c),
                            related: conv(rel),
                            annotation,
                        });
                    }
                    let errors = r.chance(50);
                    let want = in_dependency(|| {
                        let mut buf = vec![];
                        for (i, rep) in reps.iter().enumerate() {
                            if i > 0 {
                                buf.push(b'\n');
                            }
                            if errors {
                                synthetic.write_report::<_, parser::ErrorKind, Rep>(&mut buf, rep).unwrap();
                            } else {
                                synthetic.write_report::<_, parser::WarningKind, Rep>(&mut buf, rep).unwrap();
                            }
                            if let Some(a) = &rep.annotation {
                                buf.extend_from_slice(a.as_bytes());
                                buf.push(b'\n');
                            }
                        }
                        String::from_utf8_lossy(&buf).into_owned()
                    });
                    let Some(want) = want else { return Ok(false) };
                    let m = if errors { "parser.format-errors" } else { "parser.format-warnings" };
                    let v = ask(&mut pod, &mut log, m, Value::Array(params))?;
                    if v.as_str() != Some(&want) {
                        return Err(format!("reports formatted as {v}, must be {:?}", want));
                    }
                    Ok(true)
                }
            }
        })();
        match outcome {
            Ok(true) => {}
            Ok(false) => {
                run.skipped += 1;
                break;
            }
            Err(what) => {
                let mut f = fail(&w, what, "the requests");
                f.replay["beanfile"] = json!(text);
                f.replay["requests"] = Value::Array(log.iter().map(|l| {
                    let mut l = l.clone();
                    l["jsonrpc"] = json!("2.0");
                    l["id"] = json!(1);
                    l
                }).collect());
                return Some(f);
            }
        }
    }
    run.note(&Value::Array(log).to_string(), len > 2);
    None
}

pub fn c18(run: &mut Run) -> Option<Failure> {
    quiet_dependency_panics();
    let _ = parses;
    let mut r = Rng::new(run.seed ^ 18);
    while run.time_left() {
        if let Some(f) = sources_session(run, &mut r) {
            return Some(f);
        }
    }
    None
}
