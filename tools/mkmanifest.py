#!/usr/bin/env python3
"""writes MANIFEST.json: one entry per property in check.py's CHECKS, the rest as not applicable"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
check.register_checks()

ENUM = "explicit-state enumeration of a bounded space against a reference model, every trace replayed on the real code"
TRUST = ("trusts the reference model's reading of RFC 9535 (cross-checked against the RFC's ABNF) and the small-scope "
         "hypothesis beyond the stated bounds")
NOTES = {
    "C01": (ENUM, "every document up to the node bound x every query up to the segment and selector bound is evaluated by the real crate and by the model; nodes, their identity, order and paths must agree; " + TRUST),
}
NOTES.update(json.load(open(os.path.join(V, "tools", "notes.json"))))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.CHECKS:
        t, n = NOTES.get(i, (ENUM, "exhaustive within the bounds in DESIGN.md and the evidence; " + TRUST))
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything is observed through public interfaces (or, for C21 and C23, through compiler-inserted coverage callbacks in a build of /repo's sources made under /verif/.target). Known findings and repaired defects: KNOWN-FINDINGS.txt. python3 check.py replay FILE judges a recorded counterexample again."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", len(na), "not claimed")
