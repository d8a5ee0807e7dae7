#!/usr/bin/env python3
"""writes the table of planted bugs into DESIGN.md"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = R + "/tools/seed_results.json"
res = json.load(open(f)) if os.path.exists(f) else {}
rows = ["| bug | property | needs | check |", "| --- | --- | --- | --- |"]
for i in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(R + "/seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), res.get(i, {}).get("verdict", "caught when planted")))
t = open(R + "/DESIGN.md").read()
a, rest = t.split("<!-- seeds:begin -->")
b = rest.split("<!-- seeds:end -->", 1)[1]
open(R + "/DESIGN.md", "w").write(a + "<!-- seeds:begin -->\n" + "\n".join(rows) + "\n<!-- seeds:end -->" + b)
