#!/usr/bin/env python3
"""addfix.py PROP COMMIT TEXT: records a repaired defect in known_findings.json."""
import json, sys
p = '/verif/known_findings.json'; k = json.load(open(p))
n = 1 + max(int(x["id"][1:]) for x in k if x["id"][0] == "F")
k.append({"id": "F%02d" % n, "property": sys.argv[1], "status": "fixed", "what": "fixed: property=%s %s %s" % tuple(sys.argv[1:4])})
json.dump(k, open(p, 'w'), indent=1)
