#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NA
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in sorted(PROPS):
    checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                       technique="symbolic execution of the Go SSA of /repo, Z3 decides every branch and assertion; counterexamples replayed natively",
                       level="model_checking",
                       level_note=PROPS[p].get("note", "exhaustive over all values within the bounds named per entry in the evidence; nothing is claimed beyond them")))
na = [dict(property=i, reason=NA.get(i, "not built yet")) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="check.py builds the engine and the native replay binary from /repo's working tree on every run; harnesses enter through overlays, /repo carries no hooks.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
