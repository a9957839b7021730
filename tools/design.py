#!/usr/bin/env python3
"""Rewrite the table of seeded changes in DESIGN.md (not part of any check)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# change -> (caught before the checks were strengthened?, caught by)
res = json.load(open(os.path.join(root, "tools", "seeded_results.json")))
rows = []
for s in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", s, "meta.json")))
    first, by = res.get(s, ("?", "?"))
    rows.append("| %s | %s | %s: %s | %s | %s |" % (s, m["property"], m["needs"], m["what_it_breaks"], first, by))
p = os.path.join(root, "DESIGN.md")
t = open(p).read()
head = "|---|---|---|---|---|\n"
a = t.index("| change | property |")
a = t.index(head, a) + len(head)
b = t.index("\n\n", a - 1)
t = t[:a] + "\n".join(rows) + t[b:]
open(p, "w").write(t)
