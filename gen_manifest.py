#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
meta = json.load(open(os.path.join(here, "checks.json")))
checks = []
for p in props:
    m = meta["checks"].get(p["id"])
    if not m:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": m["technique"],
        "level": "exploration",
        "level_note": m["note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": meta["hooks"],
    "checks": checks,
    "not_applicable": meta["not_applicable"],
    "notes": meta["notes"],
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
