#!/usr/bin/env python3
"""Record the shape of the functions under contract (contracts/shape.json): run on the unchanged tree after editing contracts."""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
w = tempfile.mkdtemp(prefix="limabean-shape-")
_, rep, why = lib.stage_proof(w)
shutil.rmtree(w)
assert rep, why
out = {f["file"] + " " + f["fn"]: {k: f[k] for k in ("closures", "loops", "calls", "given")} for f in rep["functions"]}
json.dump(out, open(os.path.join(lib.VERIF, "contracts", "shape.json"), "w"), indent=0, sort_keys=True)
print(len(out), "functions;", "lost:", rep["lost"])
