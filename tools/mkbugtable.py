#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md from the output of plant.py --recheck (files named on the command line)."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seen = {}
for f in sys.argv[1:]:
    for l in open(f, errors="replace"):
        m = re.match(r"## (\S+) (CAUGHT|MISSED)", l)
        if m:
            w = re.search(r"replays/(C\d\d)-(.+?)-\d+-\d+\.replay", l)
            seen[m[1]] = (m[2], w and f"{w[1]} {w[2]}")
rows = []
for i in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{i}/meta.json"))
    what, by = seen.get(i, ("?", None))
    rows.append(f"| {i} | {m['needs'].replace('|', '/')} | {by if what == 'CAUGHT' else what.lower()} |")
n = sum(1 for x in seen.values() if x[0] == "CAUGHT")
text = f"{n} of {len(rows)} caught.\n\n| bug | needs | caught by (check, suite) |\n|---|---|---|\n" + "\n".join(rows) + "\n"
p = root + "/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- bugs -->") + len("<!-- bugs -->\n"), s.index("<!-- /bugs -->")
open(p, "w").write(s[:a] + text + s[b:])
