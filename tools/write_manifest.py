#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import checks as C
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: all observation is at the public API, at the replaced random source, and through sanitizers."}
for p in props:
    c = C.CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 tools/check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
        "technique": c["technique"],
        "level": "exploration",
        "level_note": c["note"],
    })
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
