#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the plans that exist."""
import json, os, sys, types
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
os.environ.setdefault("VERIF_SEED", "1")
import check
sys.modules["check"] = check
import plans
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        t = plans.TECH.get(i, {})
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 bin/check.py " + i,
            thorough_cmd="VERIF_TIER=thorough python3 bin/check.py " + i,
            evidence_file="evidence/%s.json" % i,
            technique=t.get("technique", "TLA+ specification checked with TLC; TLC-judged conformance of the real code"),
            level=t.get("level", "model_checking"),
            level_note=t.get("note", "TLC explores the design model exhaustively within small bounds; the real code is bound to the specification by replaying TLC behaviours and seeded random cases and having TLC judge every observation. Trusts TLC, the Go driver's projection and archive/tar.")))
    else:
        na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="bash bin/setup.sh", checks=checks, not_applicable=na,
    notes="No hooks are compiled into /repo: all observations are made through exported packages and the command line.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
