#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT WHAT: records a repaired defect."""
import json
import sys
p = "/verif/known_findings.json"
d = json.load(open(p))
q, c, w = sys.argv[1:]
d["findings"].append(dict(id="fixed-%02d" % (len(d["findings"]) + 1), kind="fixed", property=q, commit=c, what=w, line="fixed: property=%s %s %s" % (q, c, w)))
with open(p, "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
