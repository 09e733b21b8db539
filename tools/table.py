#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json. Not used by any check."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| `%s` | %s | %s | %s |" % (d, m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"] + " quick")))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(\|-----\|.*\n)(?:\|.*\n|@@TABLE@@\n)*", lambda k: k.group(1) + "\n".join(rows) + "\n", s)
open(p, "w").write(s)
