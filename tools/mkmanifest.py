#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present."""
import importlib.util
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    f = os.path.join(V, "checks", p + ".py")
    if not os.path.exists(f):
        na.append({"property": p, "reason": "check not built yet"})
        continue
    spec = importlib.util.spec_from_file_location(p, f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    checks.append({
        "property": p,
        "quick_cmd": "python3 tools/check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
        "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "model_checking"), "level_note": m.NOTE,
    })
d = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "No hooks in /repo: the checks build with a generated -overlay that replaces the \"sync\" import by verif/harness/vsync.", "source_commits": []}}
json.dump(d, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
