#!/usr/bin/env python3
"""known.py fixed ID COMMIT WHAT  -- appends a fixed entry to known_findings.json"""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = root + "/known_findings.json"
k = json.load(open(f)) if os.path.exists(f) else []
_, st, i, c, what = sys.argv
assert st == "fixed"
k.append(dict(status="fixed", property=i, commit=c, what=what, line=f"fixed: property={i} {c} {what}"))
json.dump(k, open(f, "w"), indent=1)
