#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules present."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
        continue
    m = importlib.import_module("checks." + i.lower())
    checks.append({
        "property": i,
        "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % i,
        "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % i,
        "technique": "bounded exhaustive model checking of the implementation (stateless exploration in lockstep with a reference model)",
        "level": "model_checking",
        "level_note": m.RULE + ". Quick bounds: %r; thorough bounds: %r" % (m.BOUNDS["quick"], m.BOUNDS["thorough"]),
    })
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.exit(0)\"", "checks": checks,
           "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
