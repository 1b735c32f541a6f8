#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties the simulator decides."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
exec(open(f"{root}/tools/claims.py").read())
checks = [{"property": p["id"], "quick_cmd": f"tools/check.sh {p['id']} quick", "thorough_cmd": f"tools/check.sh {p['id']} thorough",
           "technique": "deterministic simulation with fault injection: " + CLAIMS[p["id"]][0], "level": "exploration", "level_note": CLAIMS[p["id"]][1]} for p in props if p["id"] in CLAIMS]
na = [{"property": p["id"], "reason": NA.get(p["id"], "no check yet")} for p in props if p["id"] not in CLAIMS]
json.dump({"version": 1, "setup_cmd": "tools/setup.sh", "checks": checks, "not_applicable": na}, open(f"{root}/MANIFEST.json", "w"), indent=1)
