#!/usr/bin/env python3
"""MANIFEST.json from registry.py and properties.jsonl"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import registry
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    P = registry.PROPS.get(i)
    if not P:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE[i]})
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "technique": P.get("technique", "contract-based deductive verification of the real C++ (cppvc: contracts as C++ functions in the same translation unit, loop invariants found and proved, obligations by z3 and cvc5); native replay of failures"),
                   "level": P.get("level", "proof"),
                   "level_note": P.get("note", "every obligation of the listed contracts is discharged from /repo's current source for all inputs and iterations; library models and the extraction are trusted, termination and integer overflow are not covered")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
