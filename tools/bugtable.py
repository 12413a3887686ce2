#!/usr/bin/env python3
"""bugtable.py LOG: writes the results of run_seeded.sh into DESIGN.md."""
import json, re, sys
res = {}
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) (C\d+) (caught|MISSED)(.*)", l)
    if m: res[m[1]] = (m[2], m[3], (re.search(r"class=(\S+)", l) or [None, ""])[1])
rows = ["| bug | property | needs | quick check |", "|---|---|---|---|"]
for i in sorted(res):
    meta = json.load(open(f"/verif/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {res[i][0]} | {meta['needs']} | {res[i][1]}{' (' + res[i][2] + ')' if res[i][2] else ''} |")
s = open("/verif/DESIGN.md").read().split("<!-- BUGTABLE -->")[0]
open("/verif/DESIGN.md", "w").write(s + "<!-- BUGTABLE -->\n" + "\n".join(rows) + "\n")
