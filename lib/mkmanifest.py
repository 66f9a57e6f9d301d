#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of implemented checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
REASONS = {}
out = dict(version=1, setup_cmd="python3 /verif/lib/setup.py", checks=[], not_applicable=[])
for p in props:
    if p in checks.CHECKS:
        m = checks.META.get(p, {})
        out["checks"].append(dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % p,
            evidence_file="evidence/%s.json" % p, technique=m.get("technique", "TLA+ specification; TLC trace validation of recorded executions"),
            level=m.get("level", "model_checking"), level_note=m.get("note", "")))
    else:
        out["not_applicable"].append(dict(property=p, reason=REASONS.get(p, "check not built yet")))
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
