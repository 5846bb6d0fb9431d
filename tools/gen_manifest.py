"""Regenerate MANIFEST.json from properties.jsonl and the contract modules present."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import meta
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in meta.NOT_APPLICABLE:
        na.append({"property": i, "reason": meta.NOT_APPLICABLE[i]})
        continue
    if not os.path.exists(HERE + "/contracts/%s.py" % i.lower()):
        na.append({"property": i, "reason": "no contracts within reach yet"})
        continue
    checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                   "technique": meta.TECHNIQUE.get(i, meta.DEFAULT_TECHNIQUE), "level": meta.LEVEL.get(i, "proof"),
                   "level_note": meta.NOTE.get(i, meta.DEFAULT_NOTE)})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
     "notes": "Deductive verification of the instrumented real source (pyvc: symbolic execution with contracts, loop invariants, z3/cvc5). See DESIGN.md."}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
