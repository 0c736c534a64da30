#!/usr/bin/env python3
"""writes MANIFEST.json from vp/registry.json, vp/not_applicable.json and properties.jsonl"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
reg = json.load(open(H + "/vp/registry.json"))
na = dict(json.load(open(H + "/vp/not_applicable.json")))
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in reg:
        r = reg[i]
        m["checks"].append({
            "property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check " + i, "evidence_file": "evidence/%s.json" % i,
            "technique": r.get("technique", "static analysis of MIR"), "level": "other", "level_note": r.get("note", r["explanation"]),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "check under construction")})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
