"""Rewrites the table of planted bugs in DESIGN.md: tools/mktable.py RESULTS (the output of tools/plant.py try)."""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs | reported by its check as | at run |", "|---|---|---|---|---|"]
for line in open(sys.argv[1]):
    m = re.match(r"(OK|BAD) +(\S+) (\S+) (.*)", line)
    if not m:
        continue
    ok, bid, prop, rest = m.groups()
    meta = json.load(open(os.path.join(ROOT, "seeded", bid, "meta.json")))
    kind, at = "MISSED", ""
    v = re.search(r"\|([a-z_-]+): .*?\(seed 1, run (\d+)\)", rest) or re.search(r"\|([a-z_-]+): ()", rest)
    if ok == "OK" and v:
        kind, at = v.groups()
    rows.append(f"| {bid} | {prop} | {meta['needs']} | {kind} | {at} |")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- end planted -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
