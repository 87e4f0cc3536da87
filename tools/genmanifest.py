#!/usr/bin/env python3
"""Writes MANIFEST.json from the check registry and the tables below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import REGISTRY
sys.path.insert(0, os.path.join(ROOT, "tools"))
from claims import CLAIMS, NA
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    if p in REGISTRY:
        t, note = CLAIMS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                       "technique": t, "level": "other", "level_note": note})
na = [{"property": p, "reason": NA.get(p, "not built yet")} for p in props if p not in REGISTRY]
json.dump({"version": 1, "setup_cmd": "python3 engine/extract.py host", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
