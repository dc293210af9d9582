"""The findings listed in known-findings.json: replayed, and announced while they are still there."""
import json, os, re, subprocess
import lib


def replay(prop, bins, work):
    out = []
    for k in json.load(open(os.path.join(lib.VERIF, "known-findings.json")))["findings"]:
        if k["property"] != prop:
            continue
        d = os.path.join(work, "known-" + k["id"])
        os.makedirs(d)
        bean = os.path.join(d, "ledger.beancount")
        open(bean, "w").write(k["ledger"])
        try:
            r = subprocess.run([os.path.join(bins, "limabean-pod"), "serve", bean], input=k["requests"], text=True,
                               capture_output=True, timeout=60, errors="replace")
            if re.search(k["observed"], r.stdout):
                out.append(f"KNOWN-FINDING: property={prop} {k['what']}")
        except subprocess.TimeoutExpired:
            pass
    return out
