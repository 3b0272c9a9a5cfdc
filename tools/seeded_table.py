#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (d.split("/")[-2], m["needs"].replace("|", "\\|").replace("\n", " "), m["property"]))
t = "Each is caught by the quick check of its own property (seed 1).\n\n| bug | what it needs to manifest | caught by |\n|---|---|---|\n" + "\n".join(rows)
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeded table.*?-->\n).*?(\n<!-- end -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(p, "w").write(s)
