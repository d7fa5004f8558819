#!/usr/bin/env python3
"""Writes DESIGN.md from its parts and the planted bugs."""
import glob, json, os
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
t = open(V + "/tools/design_head.md").read() + open(V + "/tools/design_props.md").read()
t += "\n### Planted bugs, and the checks that catch them\n\n| bug | needs | breaks | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    t += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), d["needs"], d["what_it_breaks"], d.get("caught_by", d["property"]))
t += open(V + "/tools/design_tail.md").read() if os.path.exists(V + "/tools/design_tail.md") else ""
open(V + "/DESIGN.md", "w").write(t)
