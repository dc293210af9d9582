//! Tables: what `limabean-pod tabulate` makes of a cell on its standard input (C25).
use crate::rpc::{in_dependency, quiet_dependency_panics};
use crate::*;
use std::io::Write;
use std::process::{Command, Stdio};
use tabulator::Cell;

const TEXTS: &[S] = &["", "x", "Assets:Cash", "1.25", "100", "-0.5", "long text with spaces", "é漢字", "a\"quoted\"", "back\\slash", "{}", "tab\there", " lead", "trail ", "🎉", "[\"aligned\"]", "two\nlines"];

fn text(r: &mut Rng) -> String {
    if r.chance(70) { r.pick(TEXTS).into() } else { (0..r.below(24)).map(|_| r.pick(&['a', 'B', '7', '.', ' ', '-', 'ß', '/'])).collect() }
}

/// a cell, and the texts in it
fn cell(r: &mut Rng, depth: usize, texts: &mut Vec<String>) -> Value {
    let leaf = depth == 0 || r.chance(35);
    match r.below(if leaf { 5 } else { 10 }) {
        0 => json!("empty"),
        1 | 2 => {
            let t = text(r);
            texts.push(t.clone());
            json!({"aligned": [t, r.pick(&["left", "right", "centre"])]})
        }
        3 | 4 => {
            let t = r.pick(&["1.25", "100", "-0.5", "USD", "1234567.891", ".5"]);
            texts.push(t.into());
            json!({"anchored": [t, r.below(t.len() + 1)]})
        }
        5 | 6 => {
            let n = r.below(5);
            let cs: Vec<Value> = (0..n).map(|_| cell(r, depth - 1, texts)).collect();
            json!({"row": [cs, r.pick(&["  ", "", " ", " | ", "\u{2502}"])]})
        }
        7 => {
            // like the rows of a table
            let (rows, cols) = (r.below(6), r.below(5));
            let kinds: Vec<usize> = (0..cols).map(|_| r.below(4)).collect();
            let all: Vec<Value> = (0..rows)
                .map(|_| {
                    let cs: Vec<Value> = kinds
                        .iter()
                        .map(|k| {
                            let t = text(r).replace('\n', " ");
                            texts.push(t.clone());
                            match k {
                                3 => json!({"anchored": [t, 0]}),
                                k => json!({"aligned": [t, (["left", "right", "centre"][*k])]}),
                            }
                        })
                        .collect();
                    json!({"row": [cs, "  "]})
                })
                .collect();
            json!({"stack": all})
        }
        _ => {
            let n = r.below(6);
            json!({"stack": (0..n).map(|_| cell(r, depth - 1, texts)).collect::<Vec<_>>()})
        }
    }
}

/// something that is not a cell, most of the time
fn spoilt(r: &mut Rng, good: &str) -> Vec<u8> {
    let b = good.as_bytes();
    let cut = r.below(b.len().max(1));
    match r.below(12) {
        0 => vec![],
        1 => b"\n \n".to_vec(),
        2 => b[..cut].to_vec(),
        3 => [b, b"]"].concat(),
        4 => [b, b"\n", b].concat(),
        5 => [b, b" x"].concat(),
        6 => [&b[..cut], &[0xff, 0xfe], &b[cut..]].concat(),
        7 => [b, &[0xc3]].concat(),
        8 => good.replace("left", "middle").replace("empty", "Empty").replace("stack", "stacked").into_bytes(),
        9 => r.pick(&["null", "17", "[]", "{}", "\"left\"", "{\"aligned\":[\"a\"]}", "{\"aligned\":[\"a\",\"left\",1]}", "{\"anchored\":[\"a\",-1]}", "{\"anchored\":[\"a\",0.5]}", "{\"row\":[[]]}",
            "{\"stack\":{}}", "{\"row\":[[],\"\"],\"stack\":[]}", "{\"aligned\":[1,\"left\"]}", "true", "{\"stack\":[null]}", "NaN", "//", "{\"stack\":[\"empty\",]}"]).as_bytes().to_vec(),
        10 => [&b[..cut], &b[(cut + 1).min(b.len())..]].concat(),
        _ => [b"x", b].concat(),
    }
}

/// the same JSON, written with more room
fn spread(r: &mut Rng, v: &Value) -> String {
    match r.below(3) {
        0 => serde_json::to_string(v).unwrap(),
        1 => serde_json::to_string_pretty(v).unwrap() + "\n",
        _ => format!("\n  {}\t\r\n\n", serde_json::to_string(v).unwrap()),
    }
}

fn tabulate(pod: &str, input: &[u8]) -> std::io::Result<std::process::Output> {
    let mut c = Command::new(pod).arg("tabulate").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).env_remove("LIMABEAN_POD_LOG").spawn()?;
    let mut to = c.stdin.take().unwrap();
    let input = input.to_vec();
    let feed = std::thread::spawn(move || {
        // in pieces, as a pipe may
        for p in input.chunks(3000) {
            if to.write_all(p).is_err() {
                break;
            }
        }
    });
    let o = c.wait_with_output();
    let _ = feed.join();
    o
}

pub fn c25(run: &mut Run) -> Option<Failure> {
    quiet_dependency_panics();
    let pod = std::env::var("POD").expect("POD: path to limabean-pod");
    let mut r = Rng::new(run.seed ^ 25);
    while run.time_left() {
        let mut texts = vec![];
        let depth = 1 + r.below(4);
        let mut v = cell(&mut r, depth, &mut texts);
        if r.chance(3) {
            // more than fits a pipe at once
            v = json!({"stack": (0..3000).map(|i| json!({"row": [[v.clone(), {"aligned": [format!("line {i}"), "left"]}], " "]})).take(r.pick(&[200, 3000])).collect::<Vec<_>>()});
        }
        let good = spread(&mut r, &v);
        let spoil = r.chance(35);
        let input = if spoil { spoilt(&mut r, &good) } else { good.clone().into_bytes() };
        // the rendering, or nothing when there is no cell, or one which cannot be rendered
        let want = std::str::from_utf8(&input).ok().and_then(|t| Cell::from_json(t).ok().map(|c| in_dependency(|| format!("{c}\n"))));
        let Ok(o) = tabulate(&pod, &input) else {
            run.skipped += 1;
            continue;
        };
        let (out, err) = (String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string());
        let fail = |what: String| {
            Some(Failure {
                what,
                replay: json!({"input": String::from_utf8_lossy(&input), "input_bytes": input.iter().take(2000).collect::<Vec<_>>(), "stdout": out, "stderr": err.chars().take(2000).collect::<String>(), "exit": o.status.code(),
                    "how": "give that input to limabean-pod tabulate"}),
            })
        };
        match want {
            Some(Some(want)) => {
                if !o.status.success() {
                    return fail(format!("limabean-pod tabulate ended with {:?} for a well-formed cell", o.status.code()));
                }
                if o.stdout != want.as_bytes() {
                    return fail(format!("limabean-pod tabulate printed {out:?}, the cell is {want:?}"));
                }
                if !spoil {
                    if let Some(t) = texts.iter().find(|t| t.lines().any(|l| !out.contains(l))) {
                        return fail(format!("limabean-pod tabulate left out {t:?}: {out:?}"));
                    }
                }
                run.note(&good, !texts.is_empty());
                run.count("tables", 1);
            }
            Some(None) => run.skipped += 1,
            None => {
                if o.status.success() || !o.stdout.is_empty() || o.stderr.is_empty() {
                    return fail(format!("limabean-pod tabulate ended with {:?} and printed {out:?} for something that is not a cell", o.status.code()));
                }
                run.note(&String::from_utf8_lossy(&input), true);
                run.count("refused", 1);
            }
        }
    }
    None
}
