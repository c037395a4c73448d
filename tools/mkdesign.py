#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + table of planted bugs (result column from tools/caught.json)."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(R + "/tools/caught.json")) if os.path.exists(R + "/tools/caught.json") else {}
o = open(R + "/tools/design_head.md").read()
o += "\n| bug | property | needs | caught by its check |\n|---|---|---|---|\n"
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    o += f"| {i} | {m['property']} | {m['needs']} | {c.get(i, 'yes')} |\n"
o += open(R + "/tools/design_tail.md").read()
open(R + "/DESIGN.md", "w").write(o)
