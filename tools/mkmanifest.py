#!/usr/bin/env python3
# MANIFEST.json from lib/props.py: every property with runs is claimed, the rest are listed with a reason.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append({
            "property": i,
            "quick_cmd": "./check %s --tier quick" % i,
            "thorough_cmd": "./check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the compiled LLVM IR, every path and assertion decided by Z3",
            "level": "model_checking",
            "level_note": "Holds for every value within the bounds: " + PROPS[i]["bounds"] + ". Trusts rustc's IR, Z3 and the executor (sampled paths and every counterexample are replayed on the native build).",
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "cargo build --release --offline --quiet --manifest-path engine/Cargo.toml",
     "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds the executor and the IR of /repo's current source; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable:", " ".join(x["property"] for x in na))
