#!/usr/bin/env python3
"""fixed.py PROP COMMIT TEXT | known PROP CASE LABEL TEXT -> known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}
if sys.argv[1] == "known":
    d["known"].append(dict(zip(("property", "case", "label", "what"), sys.argv[2:6])))
else:
    d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
json.dump(d, open(p, "w"), indent=1)
