//! The launcher, with stand-ins for java and clojure which record what they were given (C19), and how its report on them ends (C26).
use crate::*;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::PermissionsExt;
use std::process::{Command, Stdio};

const ARGS: &[&[u8]] = &[
    b"", b"-v", b"--verbose", b"--version", b"report", b"--beanfile", b"my ledger.beancount", b"*", b"$HOME", b"\"quoted\"", b"'q'",
    b"a\nb", b"--", b"-M", b"-Sdeps", b"-jar", b"health", b"\xc3\xa9", b"\xff\xfe", b"{:a 1}", b"\\", b"-J-Xmx1g", b" lead", b"trail ", b"@x", b"x=y", b"--enable-native-access=ALL-UNNAMED",
];

fn version() -> String {
    // of the crate this is built with, which is the launcher's own
    env!("CARGO_PKG_VERSION").to_string()
}

struct Case {
    args: Vec<OsString>,
    local: Option<OsString>,
    uberjar: Option<OsString>,
    deps: Option<OsString>,
}

fn want(c: &Case) -> (S, Vec<OsString>) {
    let mut v: Vec<OsString> = vec![];
    let deps = |coord: String, v: &mut Vec<OsString>| {
        let mut d: Vec<u8> = format!("{{:deps {{io.github.tesujimath/limabean {coord}").into_bytes();
        if let Some(x) = &c.deps {
            d.push(b' ');
            d.extend_from_slice(x.as_bytes());
        }
        d.extend_from_slice(b"}}");
        for a in ["-J--enable-native-access=ALL-UNNAMED", "-Sdeps"] {
            v.push(a.into());
        }
        v.push(OsString::from_vec(d));
        for a in ["-M", "-m", "limabean.main"] {
            v.push(a.into());
        }
    };
    let built_in = option_env!("LIMABEAN_UBERJAR").map(OsString::from);
    let prog = if let Some(l) = &c.local {
        deps(format!("{{:local/root \"{}\"}}", l.to_str().unwrap()), &mut v);
        "clojure"
    } else if let Some(u) = c.uberjar.clone().or(built_in) {
        for a in ["--enable-native-access=ALL-UNNAMED", "-jar"] {
            v.push(a.into());
        }
        v.push(u);
        "java"
    } else {
        deps(format!("{{:mvn/version \"{}\"}}", version()), &mut v);
        "clojure"
    };
    v.extend(c.args.iter().cloned());
    (prog, v)
}

pub fn c19(run: &mut Run) -> Option<Failure> {
    let bin = run.dir.join("bin");
    std::fs::create_dir_all(&bin).unwrap();
    let rec = run.dir.join("record");
    for p in ["java", "clojure"] {
        let f = bin.join(p);
        std::fs::write(&f, format!("#!/bin/sh\nprintf '%s\\0' {p} \"$@\" >> \"$ORACLE_RECORD\"\n")).unwrap();
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    let launcher = std::env::var("LIMABEAN").expect("LIMABEAN: path to limabean");
    let mut r = Rng::new(run.seed ^ 19);
    let texts: &[S] = &["/src/limabean", "", "with space", "é/漢", "rel/path", "a{b}", "x\\y"];
    let mut systematic = 0usize;
    while run.time_left() {
        let bits = if systematic < 64 { systematic } else { r.below(8) };
        let n = if systematic < 64 { systematic / 8 % 3 } else { r.few(6, 90) };
        systematic += 1;
        let mut opt = |on: bool| on.then(|| OsString::from(r.pick(texts)));
        let (local, uberjar, deps) = (opt(bits & 1 != 0), opt(bits & 2 != 0), opt(bits & 4 != 0));
        let mut args: Vec<OsString> = (0..n)
            .map(|_| if r.below(200) == 0 { "long é ".repeat(r.below(4000)).into() } else { OsString::from_vec(r.pick(ARGS).to_vec()) })
            .collect();
        while args.first().is_some_and(|a| a == "health") {
            args.remove(0);
        }
        let c = Case { args, local, uberjar, deps };
        let _ = std::fs::remove_file(&rec);
        let mut cmd = Command::new(&launcher);
        cmd.args(&c.args)
            .env("PATH", format!("{}:/usr/bin:/bin", bin.display()))
            .env("ORACLE_RECORD", &rec)
            .env_remove("LIMABEAN_CLJ_LOCAL_ROOT")
            .env_remove("LIMABEAN_UBERJAR")
            .env_remove("LIMABEAN_CLJ_DEPS")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null());
        for (k, v) in [("LIMABEAN_CLJ_LOCAL_ROOT", &c.local), ("LIMABEAN_UBERJAR", &c.uberjar), ("LIMABEAN_CLJ_DEPS", &c.deps)] {
            if let Some(v) = v {
                cmd.env(k, v);
            }
        }
        let status = cmd.status().expect("start limabean");
        let (prog, args) = want(&c);
        let mut expect: Vec<u8> = vec![];
        for a in std::iter::once(OsString::from(prog)).chain(args) {
            expect.extend_from_slice(a.as_bytes());
            expect.push(0);
        }
        let got = std::fs::read(&rec).unwrap_or_default();
        let show = |b: &[u8]| String::from_utf8_lossy(b).replace('\0', " | ");
        let case = format!("{:?} local {:?} uberjar {:?} deps {:?}", c.args, c.local, c.uberjar, c.deps);
        run.note(&case, !c.args.is_empty() || bits != 0);
        if got != expect {
            return Some(Failure {
                what: format!("limabean ran {:?} (exit {:?}), must run {:?}", show(&got), status.code(), show(&expect)),
                replay: json!({"case": case, "ran": show(&got), "must_run": show(&expect),
                    "how": "run limabean with those arguments and LIMABEAN_CLJ_LOCAL_ROOT, LIMABEAN_UBERJAR, LIMABEAN_CLJ_DEPS, with recording java and clojure first on PATH"}),
            });
        }
    }
    None
}

/// a stand-in for java or clojure: not there, not to be started, or ending so
#[derive(Clone, Copy, Debug, PartialEq)]
enum Program {
    Missing,
    NotProgram,
    Ends(u8),
    Killed,
}

pub fn c26(run: &mut Run) -> Option<Failure> {
    use Program::*;
    let bin = run.dir.join("health-bin");
    std::fs::create_dir_all(&bin).unwrap();
    let rec = run.dir.join("record");
    let jars = run.dir.join("jars");
    std::fs::create_dir_all(&jars).unwrap();
    std::fs::write(jars.join("some where.jar"), b"x").unwrap();
    std::fs::write(jars.join("trail.jar "), b"x").unwrap();
    std::fs::write(jars.join("empty.jar"), b"").unwrap();
    std::os::unix::fs::symlink("nowhere.jar", jars.join("dangling.jar")).ok();
    std::os::unix::fs::symlink("empty.jar", jars.join("linked.jar")).ok();
    let launcher = std::env::var("LIMABEAN").expect("LIMABEAN: path to limabean");
    let built_in = option_env!("LIMABEAN_UBERJAR");
    let mut r = Rng::new(run.seed ^ 26);
    let programs = [Ends(0), Ends(1), Missing, Ends(2), NotProgram, Ends(127), Ends(255), Killed];
    let names: &[S] = &["some where.jar", "missing.jar", "empty.jar", "dangling.jar", "linked.jar", "empty.jar/inside", "none/such.jar", "", "trail.jar ", "empty.jar "];
    let mut systematic = 0usize;
    while run.time_left() {
        // every pair of programs, then every uberjar, with either runtime
        let n = systematic;
        systematic += 1;
        let java = if n < 64 { programs[n % 8] } else { r.pick(&programs) };
        let clojure = if n < 64 { programs[n / 8] } else { r.pick(&programs) };
        let jar = if n < 64 { names[n / 2 % names.len()] } else { r.pick(names) };
        let bits = if n < 64 { n % 3 } else { r.below(8) };
        let (local, uberjar, deps) = (bits == 2 || bits > 5, bits % 2 == 1, bits > 3);
        let more: Vec<S> = if r.below(3) == 0 { vec![r.pick(&["-v", "--version", "report", "health"])] } else { vec![] };
        for (p, how) in [("java", java), ("clojure", clojure)] {
            let f = bin.join(p);
            let _ = std::fs::remove_file(&f);
            let end = match how {
                Missing => continue,
                NotProgram => String::new(),
                Ends(c) => format!("exit {c}"),
                Killed => "kill -9 $$".to_string(),
            };
            let told = r.pick(&["echo said", "", "echo complaint >&2", "printf 'a\\nb\\n'; printf '\\377' >&2"]);
            std::fs::write(&f, format!("#!/bin/sh\nprintf '%s\\0' {p} \"$@\" >> \"$ORACLE_RECORD\"\nprintf '\\n' >> \"$ORACLE_RECORD\"\n{told}\n{end}\n")).unwrap();
            let mode = if how == NotProgram { 0o644 } else { 0o755 };
            std::fs::set_permissions(&f, std::fs::Permissions::from_mode(mode)).unwrap();
        }
        let jar_path = if jar.is_empty() { String::new() } else { jars.join(jar).to_str().unwrap().to_string() };
        let runs_jar = if local { None } else if uberjar { Some(jar_path.clone()) } else { built_in.map(|t| t.to_string()) };
        let (prog, how) = if runs_jar.is_some() { ("java", java) } else { ("clojure", clojure) };
        let jar_there = runs_jar.as_ref().is_none_or(|j| std::fs::metadata(j).is_ok());
        let good = how == Ends(0) && jar_there;
        let _ = std::fs::remove_file(&rec);
        let mut cmd = Command::new(&launcher);
        cmd.arg("health")
            .args(&more)
            .env("PATH", &bin)
            .env("ORACLE_RECORD", &rec)
            .env_remove("LIMABEAN_CLJ_LOCAL_ROOT")
            .env_remove("LIMABEAN_UBERJAR")
            .env_remove("LIMABEAN_CLJ_DEPS")
            .stdin(Stdio::null());
        if local {
            cmd.env("LIMABEAN_CLJ_LOCAL_ROOT", "/src/limabean");
        }
        if uberjar {
            cmd.env("LIMABEAN_UBERJAR", &jar_path);
        }
        if deps {
            cmd.env("LIMABEAN_CLJ_DEPS", "x/y {:mvn/version \"1\"}");
        }
        let out = cmd.output().expect("start limabean");
        let case = format!("health {more:?} java {java:?} clojure {clojure:?} local {local} uberjar {:?} deps {deps}", uberjar.then_some(jar));
        run.note(&case, !good || uberjar);
        // whatever was run was run for its version only
        let ran = std::fs::read(&rec).unwrap_or_default();
        let asked = format!("{prog}\0--version\0");
        let only_asked = ran.split(|b| *b == b'\n').all(|l| l.is_empty() || l == asked.as_bytes());
        let stderr = String::from_utf8_lossy(&out.stderr).to_string();
        let wrong = if good && !out.status.success() {
            Some(format!("limabean health failed ({:?}: {stderr:?}) although {prog} and what it needs are there", out.status.code()))
        } else if !good && out.status.success() {
            Some(format!("limabean health succeeded although {prog} {how:?}{}", if jar_there { "" } else { ", uberjar missing" }))
        } else if !good && (out.status.code().is_none() || stderr.trim().is_empty()) {
            Some(format!("limabean health ended with {:?} without saying what is wrong ({stderr:?})", out.status))
        } else if !only_asked {
            Some(format!("limabean health ran {:?}", String::from_utf8_lossy(&ran).replace('\0', " | ")))
        } else {
            None
        };
        if let Some(what) = wrong {
            return Some(Failure {
                what: format!("{what}; {case}"),
                replay: json!({"case": case, "exit": out.status.code(), "stderr": stderr,
                    "how": "run limabean health with those variables and, alone on PATH, java and clojure which are missing, cannot be started, or end with that code"}),
            });
        }
    }
    None
}
