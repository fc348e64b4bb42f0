#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(root + "/checks.json"))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
na = json.load(open(root + "/not_applicable.json")) if os.path.exists(root + "/not_applicable.json") else {}
out = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
    notes="All checks run the same engine (gosym): the harness and the code it calls are executed symbolically from Go SSA of /repo's current tree; z3 decides every branch and assertion; counterexamples and sample paths are replayed against the compiled code.")
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        out["checks"].append(dict(property=i, quick_cmd=f"VERIF_TIER=quick ./run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
            evidence_file=f"evidence/{i}.json",
            technique=c.get("technique", "symbolic execution of Go SSA with an SMT solver (z3), bounded"),
            level="model_checking",
            level_note="Holds for every input within the bounds in evidence (harnesses[].bounds) when exhaustive is true there. Outside: " + c.get("outside", "larger sizes") + ". Trusted: gosym's SSA semantics and its models of the standard library and of Unicode segmentation (sample paths are validated natively on each run), z3."))
    else:
        out["not_applicable"].append(dict(property=i, reason=na.get(i, "not built yet")))
json.dump(out, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(out["checks"]), "checks;", len(out["not_applicable"]), "not applicable")
