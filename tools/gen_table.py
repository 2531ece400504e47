#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from
seeded/*/meta.json and tools/caught.json (bug -> [caught by, remark])."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(root, "tools/caught.json")))
rows = []
for m in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    id = os.path.basename(os.path.dirname(m))
    j = json.load(open(m))
    by, remark = caught.get(id, ["?", ""])
    rows.append("| %s | %s | %s | %s | %s |" % (id, j["property"], j["needs"].replace("|", "/"), by, remark))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
mark = "<!-- planted bugs -->\n"
s = s[:s.index(mark)] + mark + "| change | property | needs | caught by | remark |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
