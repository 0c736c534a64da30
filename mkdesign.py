#!/usr/bin/env python3
"""writes DESIGN.md from vp/design_head.md, vp/design_tail.md, properties.jsonl, vp/registry.json, vp/not_applicable.json, seeded/ and known_findings.json"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
reg = json.load(open(H + "/vp/registry.json"))
na = dict(json.load(open(H + "/vp/not_applicable.json")))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
o = [open(H + "/vp/design_head.md").read().rstrip(), "", "## The properties and how each is decided", ""]
for p in props:
    i = p["id"]
    o += ["### %s %s" % (i, p["title"]), "", p["statement"], ""]
    if i in reg:
        r = reg[i]
        o += ["*Decided by:* %s (`vp/rules/%s.py`). %s" % (r.get("technique", "static analysis of MIR"), r["module"], r["explanation"]), ""]
    else:
        o += ["*Not claimed:* " + na.get(i, "no check."), ""]
o += ["## Planted changes and what catches them", "", "All were validated in a scratch copy: they build, pass the existing tests, and their demonstration fails with them only.", "", "| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for s in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/%s/meta.json" % s))
    o.append("| %s | %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
k = json.load(open(H + "/known_findings.json"))
o += ["", open(H + "/vp/design_tail.md").read().rstrip(), "", "## Genuine defects that were repaired", ""]
o += ["* `%s`" % x for x in k["fixed"]]
o += ["", "## Known findings", ""]
o += ["* %s: %s (`%s`)" % (x["property"], x["what"], x["key"]) for x in k["findings"]] or ["None."]
open(H + "/DESIGN.md", "w").write("\n".join(o) + "\n")
