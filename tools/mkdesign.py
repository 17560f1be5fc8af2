#!/usr/bin/env python3
"""joins the design text with the table of planted bugs (tools/bugtable.txt holds the last results of trybugs.sh)"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(H + "/tools/design/head.md").read() + open(H + "/tools/design/props.md").read()
out += "\n## Planted bugs (`seeded/`)\n\nEach passes the stable tests; result of the property's quick check.\n\n| bug | property | needs | result |\n|---|---|---|---|\n"
res = {}
p = H + "/tools/design/bugtable.txt"
if os.path.exists(p):
    for l in open(p):
        w = l.split()
        if len(w) > 2:
            res[w[0]] = "caught" if w[2] == "rc=1" else "missed"
for b in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/" + b + "/meta.json"))
    out += "| %s | %s | %s | %s |\n" % (b, m["property"], m["needs"], res.get(b, "not run"))
open(H + "/DESIGN.md", "w").write(out)
