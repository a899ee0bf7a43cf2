#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the modules under props/"""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from na import NA, NOTES
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    f = os.path.join(ROOT, "props", i.lower() + ".py")
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(f):
        checks.append({
            "property": i,
            "quick_cmd": "./check.py %s --tier quick" % i,
            "thorough_cmd": "./check.py %s --tier thorough" % i,
            "technique": "symbolic execution of the current Python source + SMT (z3) over all outcome values within bounds, counterexamples replayed on the real code",
            "level": "model_checking",
            "level_note": NOTES.get(i, "") + "Bounded: the panel shapes listed in the evidence, all real outcome values in the stated boxes; real arithmetic (queries at 1e-6 "
                          "tolerance), generic position (no exact ties) unless a case says otherwise; numpy/pandas/scipy semantics trusted through the facade, cross-checked by "
                          "replaying a witness of every explored path on the stock libraries.",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Symbolic engine in symx/, harnesses in props/, runner check.py; see DESIGN.md."}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
