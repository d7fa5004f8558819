#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks, and a reason for every property not claimed."""
import json, os
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
exec(open(os.path.join(V, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": [{"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i, "evidence_file": "evidence/%s.json" % i,
                 "technique": CLAIMS[i][0], "level": "other", "level_note": CLAIMS[i][1]} for i in ids if i in CLAIMS],
     "not_applicable": [{"property": i, "reason": NA.get(i, "not yet claimed: machinery under construction")} for i in ids if i not in CLAIMS]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
