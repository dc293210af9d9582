"""Building, proving and searching, from /repo's current working tree. Nothing here writes into /repo."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LIMABEAN_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
VERUS_TOOLCHAIN = "1.98.1"
CRATES = ["limabean-booking", "beancount-parser-lima", "tabulator", "rust_decimal", "hashbrown@0.17.1", "time", "clap",
          "itertools", "serde", "serde_json", "tracing", "tracing-subscriber", "strum@0.28.0", "strum_macros@0.28.0",
          "joinery", "allocator-api2", "tracing-appender"]


class Broken(Exception):
    """the tree does not build, or this machinery cannot run"""


def env(**kw):
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.setdefault("HOME", "/root")
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", CARGO_PKG_VERSION="0.6.0", CARGO_PKG_DESCRIPTION="limabean", CARGO_PKG_NAME="limabean", CARGO_PKG_AUTHORS="")
    e.update(kw)
    return e


def run(cmd, cwd=None, timeout=800, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env(**kw), capture_output=True, text=True, timeout=timeout, errors="replace")


# ---------------------------------------------------------------- things made once

def annotator():
    out = os.path.join(BUILD, "annot", "debug", "annot")
    src = os.path.join(VERIF, "annot", "src", "main.rs")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        r = run(["cargo", "build", "--offline", "--locked"], cwd=os.path.join(VERIF, "annot"), RUSTUP_TOOLCHAIN="stable",
                CARGO_TARGET_DIR=os.path.join(BUILD, "annot"), CARGO_PROFILE_DEV_OPT_LEVEL="2")
        if r.returncode != 0:
            raise Broken("the annotator does not build: " + r.stderr[-2000:])
    return out


def manifest_key():
    h = hashlib.sha256()
    for f in ("Cargo.toml", "Cargo.lock"):
        h.update(open(os.path.join(REPO, "rust", f), "rb").read())
    return h.hexdigest()[:16]


def verus_deps():
    """metadata of the dependencies, as Verus' compiler wants it"""
    home = os.path.join(BUILD, "vdeps-" + manifest_key())
    cache = os.path.join(home, "extern.json")
    if not os.path.exists(cache):
        crate = os.path.join(home, "crate")
        shutil.rmtree(home, ignore_errors=True)
        os.makedirs(os.path.join(crate, "src"))
        for f in ("Cargo.toml", "Cargo.lock"):
            shutil.copy(os.path.join(REPO, "rust", f), crate)
        open(os.path.join(home, "README.md"), "w").write("x")
        for f in ("lib.rs", "bin/limabean/main.rs", "bin/limabean-pod/main.rs"):
            p = os.path.join(crate, "src", f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write("fn main() {}\n" if "main" in f else "")
        r = run(["cargo", "check", "--lib", "--offline", "--locked", "--message-format=json"], cwd=crate,
                RUSTUP_TOOLCHAIN=VERUS_TOOLCHAIN, CARGO_TARGET_DIR=os.path.join(home, "target"))
        if r.returncode != 0:
            raise Broken("the dependencies do not build for Verus: " + r.stderr[-2000:])
        found = {}
        for line in r.stdout.splitlines():
            if '"compiler-artifact"' not in line:
                continue
            a = json.loads(line)
            name = a["target"]["name"].replace("-", "_")
            ident = a["package_id"].split("#")[-1]
            for want in CRATES:
                base, _, ver = want.partition("@")
                if name == base.replace("-", "_") and (not ver or ident.endswith(ver)):
                    files = [f for f in a["filenames"] if f.endswith(".so")] or [f for f in a["filenames"] if f.endswith(".rmeta")]
                    if files:
                        found[name] = os.path.relpath(files[0], home)
        json.dump(found, open(cache, "w"))
    return home, json.load(open(cache))


# ---------------------------------------------------------------- the crate and the search program

def stage_crate(work):
    crate = os.path.join(work, "rust")
    os.makedirs(crate)
    for f in os.listdir(os.path.join(REPO, "rust")):
        s = os.path.join(REPO, "rust", f)
        if f == "target":
            continue
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(crate, f), symlinks=True)
        else:
            shutil.copy(s, crate)
    for f in os.listdir(REPO):
        s = os.path.join(REPO, f)
        if os.path.isfile(s):
            shutil.copy(s, work)
    return crate


def build_binaries(work, crate):
    o = os.path.join(crate, "src", "bin", "oracle")
    os.makedirs(o)
    for f in glob.glob(os.path.join(VERIF, "oracle", "*.rs")):
        shutil.copy(f, o)
    target = os.path.join(work, "target")
    have = os.path.join(REPO, "rust", "target", "debug")
    if os.path.isdir(os.path.join(have, "deps")):
        # the compiled dependencies, not anything of limabean itself
        os.makedirs(os.path.join(target, "debug"))
        for d in ("deps", "build", ".fingerprint"):
            src, dst = os.path.join(have, d), os.path.join(target, "debug", d)
            if subprocess.run(["cp", "-al", src, dst], capture_output=True).returncode != 0:
                shutil.rmtree(dst, ignore_errors=True)
                subprocess.run(["cp", "-a", src, dst], capture_output=True)
            for pat in ("limabean-[0-9a-f]*", "limabean_pod-*", "liblimabean-*"):
                for p in glob.glob(os.path.join(dst, pat)):
                    if "limabean-booking" in p or "limabean_booking" in p:
                        continue
                    shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    kw = dict(RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=target, CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    cmd = ["cargo", "build", "--bins", "--offline", "--locked"]
    r = run(cmd, cwd=crate, **kw)
    if r.returncode != 0:
        shutil.rmtree(target, ignore_errors=True)
        r = run(cmd, cwd=crate, **kw)
        if r.returncode != 0:
            raise Broken("the tree does not build: " + r.stderr[-4000:])
    return os.path.join(target, "debug")


def search(prop, bins, work, seed, ms, tag):
    d = os.path.join(work, "search-" + tag)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "report.json")
    tmp = os.path.join(d, "files")
    os.makedirs(tmp)
    r = run([os.path.join(bins, "oracle"), prop], cwd=tmp, timeout=ms / 1000 * 3 + 120,
            POD=os.path.join(bins, "limabean-pod"), LIMABEAN=os.path.join(bins, "limabean"),
            ORACLE_SEED=str(seed), ORACLE_MS=str(ms), ORACLE_DIR=tmp, ORACLE_OUT=out)
    if not os.path.exists(out):
        raise Broken(f"the search ended without a report (exit {r.returncode}): " + (r.stdout + r.stderr)[-3000:])
    return json.load(open(out))


# ---------------------------------------------------------------- the proof

UNPROVED = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
            "loop invariant not satisfied", "possible arithmetic", "possible division", "possible bit shift",
            "unable to prove", "failed to satisfy", "could not prove", "constructed value may fail", "decreases not satisfied",
            "assertion not satisfied", "unreachable", "cannot show", "pattern may fail", "index out of bounds", "argument")

LIB = """#![allow(warnings)]
#![feature(proc_macro_hygiene, allocator_api, pattern, const_destruct, sized_hierarchy)]
use vstd::prelude::*;
pub mod api;
pub(crate) mod vspec; pub(crate) mod hb; pub(crate) mod lb; pub(crate) mod pl; pub(crate) mod sv; pub(crate) mod ln; pub(crate) mod se; pub(crate) mod st; pub(crate) mod tb;
pub mod bin { #[path = "limabean/main.rs"] pub mod limabean; #[path = "limabean-pod/main.rs"] pub mod limabean_pod; }
extern crate self as limabean;
pub(crate) use bin::limabean_pod::Error;
"""


def expand(work):
    """the crate with its macros and derives written out, for what the derives make; None if it cannot be had"""
    out = os.path.join(work, "expanded.rs")
    if not os.path.exists(out):
        src = os.path.join(work, "expand")
        shutil.copytree(os.path.join(REPO, "rust", "src"), src)
        t = os.path.join(src, "api", "booking", "tests.rs")
        if os.path.exists(t):
            open(t, "w").write("")
        open(os.path.join(src, "lib.rs"), "w").write(re.sub(r"(?m)^(use vstd|pub\(crate\) mod).*$", "", LIB))
        home, ext = verus_deps()
        cmd = ["rustc", "-Zunpretty=expanded", "--crate-type=lib", "--crate-name", "limabean", "--edition", "2024", os.path.join(src, "lib.rs"),
               "-L", "dependency=" + os.path.join(home, "target", "debug", "deps")]
        for n, f in sorted(ext.items()):
            cmd += ["--extern", f"{n}={os.path.join(home, f)}"]
        r = run(cmd, cwd=work, RUSTUP_TOOLCHAIN=VERUS_TOOLCHAIN, RUSTC_BOOTSTRAP="1")
        open(out, "w").write(r.stdout)
        shutil.rmtree(src)
    return out


def stage_proof(work, name="proof", vacuity=False, isolate=(), bare=()):
    src = os.path.join(work, name)
    shutil.copytree(os.path.join(REPO, "rust", "src"), src)
    t = os.path.join(src, "api", "booking", "tests.rs")
    if os.path.exists(t):
        open(t, "w").write("")
    cmd = [annotator()] + (["--vacuity"] if vacuity else []) + [x for k in sorted(isolate) for x in ("--isolate", k)] + [x for k in sorted(bare) for x in ("--bare", k)] + ["--expanded", expand(work)] + sorted(glob.glob(os.path.join(VERIF, "contracts", "*.vc"))) + ["--", src]
    r = run(cmd)
    if r.returncode != 0:
        return src, None, "the annotator could not read the source: " + (r.stderr or r.stdout)[-2000:]
    for f in glob.glob(os.path.join(VERIF, "contracts", "*.rs")):
        shutil.copy(f, src)
    open(os.path.join(src, "lib.rs"), "w").write(LIB)
    return src, json.loads(r.stdout), None


def verus(src, work, extra=(), timeout=500):
    home, ext = verus_deps()
    cmd = ["verus", "--crate-type=lib", "--crate-name", "limabean", "--edition", "2024", os.path.join(src, "lib.rs"),
           "-L", "dependency=" + os.path.join(home, "target", "debug", "deps")]
    for n, f in sorted(ext.items()):
        cmd += ["--extern", f"{n}={os.path.join(home, f)}"]
    cmd += ["--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "3"] + list(extra)
    here = src + "-cwd"
    os.makedirs(here, exist_ok=True)
    try:
        r = run(cmd, cwd=here, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, [], "Verus did not finish in time", cmd
    diags = []
    for line in r.stderr.splitlines():
        if line.startswith("{"):
            try:
                diags.append(json.loads(line))
            except ValueError:
                pass
    data = None
    i = r.stdout.find("{\n")
    if i >= 0:
        try:
            data = json.JSONDecoder().raw_decode(r.stdout[i:])[0]
        except ValueError:
            pass
    return data, diags, None if data else "no report from Verus: " + r.stderr[-1500:], cmd


def functions_of(data):
    """Verus' queries: name -> {mode, time, rlimit, success}"""
    out = {}
    for m in ((data or {}).get("times-ms", {}).get("smt", {}) or {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            k = f["function"]
            o = out.setdefault(k, {"mode": f.get("mode:", f.get("mode")), "us": 0, "rlimit": 0, "success": True})
            o["us"] += f.get("time-micros", 0)
            o["rlimit"] += f.get("rlimit", 0)
            o["success"] = o["success"] and f.get("success", True)
    return out


def rust_name(c):
    """the name Verus gives a contracted function"""
    mod = c["file"][:-3].replace("/", "::").replace("-", "_")
    for last in ("::mod", "::main"):
        mod = mod.removesuffix(last)
    return f"limabean::{mod}::{c['fn']}"


def query_of(c, queries):
    """the query for a contracted function; Verus numbers the implementations of traits"""
    n = rust_name(c)
    if n in queries:
        return n
    # of a trait: named after the type, where that is
    of = re.fullmatch(r".*for(.+)::(\w+)", c["fn"])
    if of:
        ty, last = of.groups()
        ty = ty.split("<")[0].split("::")[-1].lstrip("&")
        mine = [q for q in queries if q.endswith(f"::{ty}::{last}")]
        return mine[0] if mine else None
    return None


class Proof:
    """the outcome of putting the contracts on the current source and asking Verus"""

    def __init__(self, work, vacuity=True):
        self.problem = None         # why nothing can be said at all
        self.report = {"functions": [], "lost": [], "contracts": [], "rewritten": []}
        self.queries, self.errors, self.smt_ms, self.cmd, self.verified = {}, [], 0, [], 0
        self.vacuous, self.reached = [], 0
        self.isolated = {}          # functions taken on their contracts alone -> why
        self.bare = set()           # functions read without the hints in their bodies, which no longer fit
        t = time.time()
        # meanwhile, whether the preconditions can be met; of use if the source is read as it is
        side = None
        if vacuity:
            annotator(), verus_deps(), expand(work)
            side = concurrent.futures.ThreadPoolExecutor(1).submit(self.look_behind, work, "vacuity")
        try:
            while True:
                name = f"proof{len(self.isolated)}-{len(self.bare)}"
                src, rep, why = stage_proof(work, name, isolate=self.isolated, bare=self.bare)
                if rep is None:
                    self.problem = why
                    return
                self.report = rep
                data, diags, why, self.cmd = verus(src, work)
                self.wall = time.time() - t
                if data is None:
                    self.problem = why
                    return
                self.queries = functions_of(data)
                res = data.get("verification-results", {})
                self.verified = res.get("verified", 0)
                self.smt_ms = data.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
                self.errors = []
                self.place(src, diags)
                bad = [e for e in self.errors if e["kind"] == "unsupported"]
                unread = bool(bad) or bool(res.get("encountered-vir-error"))
                if not unread:
                    break
                # what Verus cannot read is taken on its contract alone, and whatever rests on it is undecided
                here = {(c["file"], c["fn"]) for c in rep["contracts"] if c["kind"] != "lemma"}
                more = {f"{e['file']} {e['fn']}" for e in bad if (e["file"], e["fn"]) in here} - set(self.isolated)
                if not more or time.time() - t > 150:
                    break
                # perhaps it is only the hints in there, which speak of what is gone
                unfit = {f"{e['file']} {e['fn']}" for e in bad if e["code"]} & more - self.bare
                if unfit:
                    self.bare |= unfit
                    continue
                for k in more:
                    self.isolated[k] = "; ".join(e["message"] for e in bad if f"{e['file']} {e['fn']}" == k)[:400]
            if unread:
                self.problem = "Verus cannot read the source as it is: " + "; ".join(e["message"] for e in bad[:3])[:900]
            elif not self.queries:
                self.problem = "Verus produced no obligations"
            elif vacuity:
                as_is = not (self.isolated or self.bare)
                self.vacuous, self.reached = side.result() if as_is else self.look_behind(work, "vacuity-again")
        finally:
            if side:
                concurrent.futures.wait([side])
            self.wall = time.time() - t

    def place(self, src, diags):
        """which function each error is in"""
        spans = {}
        for f in spans_of(src, self.report):
            spans.setdefault(f["file"], []).append(f)
        for d in diags:
            if d.get("level") != "error":
                continue
            m = d.get("message", "")
            if m.startswith("aborting due to") or m.startswith("could not compile"):
                continue
            kind = "unsupported"
            if d.get("code") is None and any(m.startswith(u) or u in m for u in UNPROVED[:15]):
                kind = "unproved"
            if "rlimit" in m.lower() or "resource limit" in m.lower():
                kind = "gave up"
            where, fn, labels, file = None, None, [], None
            for s in sorted(d.get("spans", []), key=lambda s: not s.get("is_primary")):
                rel = os.path.relpath(s["file_name"], src) if os.path.isabs(s["file_name"]) else s["file_name"]
                text = "".join(x["text"].strip() + " " for x in s.get("text", [])[:3])[:300]
                labels.append(f"{rel}:{s['line_start']}: {s.get('label') or ''}: {text}")
                for f in spans.get(rel, []):
                    if f["from"] <= s["line_start"] <= f["to"] and (fn is None or s.get("is_primary")):
                        if not fn:
                            fn, file = f["key"], rel
                where = where or f"{rel}:{s['line_start']}"
            self.errors.append({"kind": kind, "code": d.get("code"), "message": m, "where": where, "fn": fn, "file": file, "labels": labels,
                                "rendered": (d.get("rendered") or "")[:3000]})

    def look_behind(self, work, name):
        """behind every precondition something can happen: `assert(false)` at the start of each contracted function must fail
        -> (those where it does not, how many fail)"""
        vacuous, reached = [], 0
        src, rep, why = stage_proof(work, name, vacuity=True, isolate=dict(self.isolated), bare=set(self.bare))
        if rep is None:
            return vacuous, reached
        data, diags, why, _ = verus(src, work)
        q = functions_of(data) if data else {}
        for c in rep["contracts"]:
            n = query_of(c, q)
            if c["kind"] in ("lemma", "assumed"):
                continue
            if n in q:
                if q[n]["success"]:
                    vacuous.append(n)
                else:
                    reached += 1
        return vacuous, reached

    def of(self, prop):
        return [c for c in self.report["contracts"] if prop in c["props"]]

    def verdict(self, prop):
        """-> ("proved" | "failed" | "undecided" | "none", details)"""
        mine = self.of(prop)
        lost = [l for l in self.report["lost"] if (prop in l.get("props", []) or not l.get("props")) and not l.get("hint")]
        if not mine and not lost:
            return "none", []
        if self.problem:
            return "undecided", [self.problem]
        if lost:
            return "undecided", [f"{l['file']}: {l['fn']}: {l['what']}" for l in lost]
        alone = [f"{c['fn']}: {self.isolated[k]}" for c in mine for k in [c["file"] + " " + c["fn"]] if k in self.isolated]
        if alone:
            return "undecided", alone
        names = {c["fn"] for c in mine}
        here = {(c["file"], c["fn"]) for c in mine}
        errs = [e for e in self.errors if e["fn"] in names and (e["file"] is None or (e["file"], e["fn"]) in here)]
        stray = [e for e in self.errors if e["fn"] is None or e["fn"].startswith("lemma ")]
        if stray:
            return "undecided", [e["message"] + " at " + str(e["where"]) for e in stray]
        if [e for e in errs if e["kind"] == "gave up"]:
            return "undecided", [e["fn"] + ": " + e["message"] for e in errs]
        if errs:
            changed = self.reshaped({e["fn"] for e in errs}) + self.unhinted({e["fn"] for e in errs})
            if changed:
                return "undecided", changed + [e["fn"] + ": " + e["message"] for e in errs]
            return "failed", errs
        if [v for v in self.vacuous if any(v == query_of(c, self.queries) for c in mine)]:
            return "undecided", ["vacuous: " + v for v in self.vacuous]
        missing = [c["fn"] for c in mine if c["kind"] != "assumed" and not query_of(c, self.queries)]
        if missing:
            return "undecided", ["no obligation was generated for " + m for m in missing]
        # a proof against contracts which do not hold is none
        rest = self.below(here) - here
        bad = [e for e in self.errors if (e["file"], e["fn"]) in rest]
        if prop == "C11":
            crash = [e for e in bad if e["kind"] == "unproved" and self.can_crash(e)]
            fns = {e["fn"] for e in crash}
            if crash and not self.reshaped(fns) and not self.unhinted(fns):
                return "failed", crash
        bad = [f"rests on the contract of {e['fn']}, which does not hold: {e['message']}" for e in bad]
        bad += [f"rests on the contract of {k.split(' ', 1)[1]}, which Verus cannot read: {v}" for k, v in sorted(self.isolated.items()) if tuple(k.split(" ", 1)) in rest]
        bad += [f"rests on {l['fn']}: {l['what']}" for l in self.report["lost"] if (l["file"], l["fn"]) in rest and not l.get("hint")]
        if bad:
            return "undecided", bad
        return "proved", []

    def below(self, names):
        """the functions under contract which these may call, by name, and those which they call; one binary sees nothing of another"""
        by = {}
        for c in self.report["contracts"]:
            if c["kind"] != "lemma":
                by.setdefault(c["fn"].split("::")[-1], []).append((c["file"], c["fn"]))
        calls = {(f["file"], f["fn"]): f["calls"] for f in self.report["functions"]}
        home = lambda file: "/".join(file.split("/")[:2]) if file.startswith("bin/") else None
        seen, todo = set(names), list(names)
        while todo:
            at = todo.pop()
            for n in calls.get(at, ()):
                for g in by.get(n, ()):
                    if g not in seen and (home(g[0]) is None or home(g[0]) == home(at[0])):
                        seen.add(g)
                        todo.append(g)
        return seen

    def can_crash(self, e):
        """is it an obligation without which the program may panic: arithmetic, or what a function of a library requires?"""
        m = e["message"]
        if "precondition not satisfied" in m:
            return not any("failed precondition" in l and l.split(":", 1)[0].startswith(("api/", "bin/")) for l in e["labels"])
        return any(w in m for w in ("arithmetic", "division", "bit shift", "index out of bounds", "unreachable"))

    def unhinted(self, fns):
        """of these, the functions in which hints for the verifier found no place"""
        out = [f"{l['fn']}: {l['what']}" for l in self.report["lost"] if l.get("hint") and l["fn"] in fns]
        return out + [k.split(" ", 1)[1] + ": read without hints" for k in sorted(self.bare) if k.split(" ", 1)[1] in fns]

    def reshaped(self, fns):
        """functions of which so much changed that the annotations inside them no longer fit: closures, loops, or calls of
        functions in this crate that have no contract"""
        try:
            base = json.load(open(os.path.join(VERIF, "contracts", "shape.json")))
        except OSError:
            return []
        out = []
        local = {f["fn"].split("::")[-1] for f in self.report["functions"]}
        contracted = {f["fn"].split("::")[-1] for f in self.report["functions"] if f["contract"]}
        for f in self.report["functions"]:
            if f["fn"] not in fns:
                continue
            b = base.get(f["file"] + " " + f["fn"])
            if b is None:
                out.append(f["fn"] + ": not there before")
                continue
            for k in ("closures", "loops"):
                if b[k] != f[k]:
                    out.append(f"{f['fn']}: {f[k]} {k}, were {b[k]}")
            if b["given"] != f["given"]:
                out.append(f"{f['fn']}: closures are given to {', '.join(f['given']) or 'nothing'}, not to {', '.join(b['given']) or 'nothing'}")
            new = (set(f["calls"]) - set(b["calls"])) & local - contracted
            if new:
                out.append(f"{f['fn']}: calls {', '.join(sorted(new))}, which is without a contract")
        return out


def spans_of(src, report):
    return [dict(f, key=f["fn"]) for f in report.get("spans", [])]
