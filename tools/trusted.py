"""What the proofs rest on without checking it: found by scanning the contract files, plus what is said here."""
import glob, os, re

EXTRACTION = ("every run copies rust/src, empties api/booking/tests.rs, inserts the contracts of contracts/*.vc as attributes and ghost "
              "blocks, and verifies the crate in place. Dropped or replaced: the derived impls themselves, "
              "the headers of encoders and hand-written decoders (the methods, those which the derives make included, are copied out as functions of their own, self named this, errors' wording dropped), "
              "logging statements, let-chains (nested instead), `mut` parameters (rebound), std/hashbrown maps and sets keyed by text (by the "
              "stand-ins in contracts/hb.rs), limabean-booking's declarations (contracts/lb.rs), the command line of limabean-pod; each rewrite is listed in extraction_rewrites")
GENERAL = ["rust_decimal arithmetic is read as exact real arithmetic; overflow, which panics, is outside the domain",
           "machine integers are checked for overflow by Verus; termination of loops over finite collections is taken from vstd's iterators",
           "which of a derived decoder's names a text is follows the match in the field visitor which the derive made (two axioms per decoder, put in on every run: …_in_name_read, …_in_name_kept)",
           "vstd, Verus and Z3 are trusted"]


def base(verif):
    out = []
    for f in sorted(glob.glob(os.path.join(verif, "contracts", "*.rs")) + glob.glob(os.path.join(verif, "contracts", "*.vc"))):
        t = open(f).read()
        n = os.path.basename(f)
        for m in re.finditer(r"axiom fn (\w+)", t):
            out.append(f"axiom {n}: {m.group(1)}")
        for m in re.finditer(r"assume_specification(?:<[^\[]*>)?\s*\[\s*(.+?)\s*\]\s*\(", t):
            out.append(f"assumed contract {n}: {m.group(1)}")
        for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([^)]*\))?\s+)?(fn|struct) (\w+)", t):
            out.append(f"external {m.group(1)} {n}: {m.group(2)}")
        for m in re.finditer(r"(?:@attr\s+)#\[verifier::external_body\]", t):
            out.append(f"external contracted function in {n}")
        for w in ("assume(", "admit("):
            if w in t.replace("assume_specification", ""):
                out.append(f"{n} uses {w}")
    return GENERAL + out


_JSON = "the JSON texts themselves (serde_json, and serde's buffering for untagged, flattened and tagged types) are searched on the real server with generated cases, not proved"
_DEPS = "limabean-booking balances, infers and matches lots as its documentation says (contracts in contracts/lb.rs): searched on the real server, not proved"
BOUNDED = {p: [_JSON, _DEPS] for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C20", "C21")}
BOUNDED.update({p: [_JSON] for p in ("C13", "C14", "C15", "C17", "C18")})
BOUNDED["C11"] = [_JSON, "that limabean-booking, the parser and rust_decimal do not panic: searched, not proved"]
BOUNDED["C16"] = [_JSON, "that equal directives are booked alike in every respect: ledgers are generated, reported by the real server, sent back, and the answers compared"]
BOUNDED["C19"] = ["everything but the functions listed under contract: the real launcher is run with generated arguments and environments and a recording stand-in for java and clojure"]

BOUNDED["C25"] = ["reading and rendering a cell (the tabulator crate), and that it is printed only once: searched on the real binary, not proved"]

_SERVER = ["the parser (beancount-parser-lima) is assumed: contracts in contracts/pl.rs (accessors) and contracts/sv.rs (sources, spans, reports)",
           "standard output can be written to; a failure to write it is not described",
           "what a type's encoder puts on the wire is what is found in the value that holds it",
           "serde_json encodes equal values equally, encodes an error of numbers and texts always, and never fails for reasons of I/O into a string",
           "logging has no effect"]
BOUNDED["C26"] = ["that something is said on standard error: the real launcher is run with stand-ins for java and clojure"]
NOTES = {"C26": ["a program asked twice for its version answers alike"], "C25": ["clap reads the command line as its attributes say", "setting up the log, on request of the environment, succeeds and has no other effect"]}
NOTES.update({p: _SERVER for p in ("C11", "C13", "C14", "C15", "C17", "C18")})
