#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decide one property for /repo's current working tree."""
import concurrent.futures, hashlib, json, os, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, known, trusted


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = int(os.environ.get("VERIF_MS", "300000" if tier == "thorough" else "20000"))
    started = time.time()
    work = tempfile.mkdtemp(prefix="limabean-check-")
    try:
        code = decide(prop, tier, seed, budget, work, started)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, budget, work, started):
    with concurrent.futures.ThreadPoolExecutor(2) as pool:
        proving = pool.submit(lib.Proof, work)
        crate = lib.stage_crate(work)
        bins = lib.build_binaries(work, crate)
        listed = known.replay(prop, bins, work)
        found = lib.search(prop, bins, work, seed, budget, "a")
        proof = proving.result()
    state, details = proof.verdict(prop)
    if state == "failed" and not found["failure"]:
        # an obligation fails: look harder for an input that shows it
        again = lib.search(prop, bins, work, seed + 7919, max(3 * budget, 60000) if tier == "quick" else budget, "b")
        for k in ("evaluations", "distinct_nontrivial", "skipped_out_of_domain"):
            found[k] = found.get(k, 0) + again.get(k, 0)
        found["failure"] = again["failure"]

    mine = [c for c in proof.of(prop) if c["kind"] != "assumed"]
    names = {lib.query_of(c, proof.queries) or lib.rust_name(c) for c in mine}
    own = {n: q for n, q in proof.queries.items() if n in names}
    shared = {n: q for n, q in proof.queries.items()
              if q["mode"] == "proof" and n.startswith("limabean::")}
    proved = state == "proved"
    broken = bool(found["failure"]) or state == "failed"
    cov = {
        "evaluations": found["evaluations"],
        "distinct_nontrivial": found["distinct_nontrivial"],
        "rule": found.get("rule") or "generated cases are run on the real binaries and compared with the property's executable reading; "
                "a case is non-trivial when the behaviour the property speaks of occurs in it",
        "samples": found["samples"][:3],
        "skipped_out_of_domain": found.get("skipped_out_of_domain", 0),
        "counters": found.get("counters", {}),
        "search_seconds": found.get("wall_s"),
        "verifier_outcome": state,
        "verifier_details": [d if isinstance(d, str) else f"{d['fn']}: {d['message']} ({d['where']})" for d in details][:20],
        "functions_under_contract": [{"function": c["fn"], "file": "rust/src/" + c["file"],
                                      "obligations_discharged": own.get(lib.query_of(c, proof.queries), {}).get("success", False),
                                      "solver_us": own.get(lib.query_of(c, proof.queries), {}).get("us", 0)} for c in mine],
        "back_end": "Verus " + "0.2026.09.13.671956e" + " (Z3)",
        "verus_functions_verified_in_whole_crate": proof.verified,
        "solver_ms_whole_crate": proof.smt_ms,
        "prover_wall_s": round(proof.wall, 2),
        "extraction": trusted.EXTRACTION,
        "extraction_rewrites": sorted(set(proof.report["rewritten"])),
        "preconditions_shown_reachable": proof.reached,
        "functions_taken_on_their_contract_alone": proof.isolated,
    }
    if mine:
        cov["obligations"] = len(names) + len(shared)
        cov["discharged"] = sum(q["success"] for q in own.values()) + sum(q["success"] for q in shared.values())
        cov["obligation_unit"] = "one Verus query: every pre- and postcondition, invariant, call and panic site of one function or lemma"
        cov["checker_cmd"] = " ".join(proof.cmd)
        cov["trusted_base"] = trusted.base(lib.VERIF)
    bounded = trusted.BOUNDED.get(prop)
    if bounded:
        cov["bounded_part"] = bounded
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": level_of(prop),
        "coverage": cov,
        "assumptions": trusted.base(lib.VERIF) + trusted.NOTES.get(prop, []),
        "wall_s": round(time.time() - started, 2),
        "violations": int(broken),
    }
    code = 0
    for line in listed:
        print(line)
    if broken:
        code = 1
        d = os.path.join(lib.VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        f = found["failure"]
        body = {"property": prop, "failed_obligations": details if state == "failed" else [],
                "verifier_outcome": state, "verifier_details": cov["verifier_details"],
                "failing_input": f["replay"] if f else None, "what": f["what"] if f else None}
        text = json.dumps(body, indent=1, default=str)
        path = os.path.join(d, f"{prop}-{hashlib.sha256(text.encode()).hexdigest()[:10]}.json")
        open(path, "w").write(text)
        for e in details if state == "failed" else []:
            print(f"failed obligation: {e['fn']}: {e['message']} at {e['where']}")
        if f:
            print(f["what"][:2000])
            print(f"VIOLATION property={prop} replay={path}")
        else:
            print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    os.makedirs(os.path.join(lib.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(lib.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop}: verifier: {state} ({cov.get('discharged', 0)}/{cov.get('obligations', 0)} obligations); "
          f"search: {found['evaluations']} cases, {found['distinct_nontrivial']} non-trivial; {ev['wall_s']} s")
    for d in cov["verifier_details"]:
        print("  " + d[:300])
    return code


def level_of(prop):
    m = json.load(open(os.path.join(lib.VERIF, "MANIFEST.json")))
    for c in m["checks"]:
        if c["property"] == prop:
            return c["level"]
    return "exploration"


if __name__ == "__main__":
    main()
