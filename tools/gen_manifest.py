#!/usr/bin/env python3
"""writes MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS, NA
ps = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
for p in ps:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py %s --thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the compiled LLVM IR (vx) with z3/cvc5, counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Bounded: %s. Outside: %s. Within the bounds the solver decides every path for all values. Trusts rustc/LLVM (opt-level 1 IR), the vx executor (sampled paths are re-run natively and compared), z3/cvc5, the injective-hash idealisation and the letter form of symbolic integers (DESIGN.md)." % (c["bounds"], c.get("outside") or "as in DESIGN.md")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", [x["property"] for x in m["not_applicable"]])
