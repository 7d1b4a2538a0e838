#!/usr/bin/env python3
"""Rewrite MANIFEST.json from the checks present and properties.jsonl."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
LEVEL = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")) and i in LEVEL:
        l = LEVEL[i]
        checks.append({"property": i, "quick_cmd": "python3 checks/%s.py quick" % i, "thorough_cmd": "python3 checks/%s.py thorough" % i, "evidence_file": "evidence/%s.json" % i, "technique": l["technique"], "level": l["level"], "level_note": l["note"]})
    else: na.append({"property": i, "reason": LEVEL.get(i, {}).get("na", "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
