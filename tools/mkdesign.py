#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md (between the table header and the next blank line)."""
import os, json, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def rows(d):
    out = []
    for i in sorted(os.listdir(os.path.join(R, d))):
        m = json.load(open(os.path.join(R, d, i, "meta.json")))
        out.append((i, m))
    return out
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
table = "".join("| %s: %s | %s |\n" % (i, m["what_it_breaks"].split(";")[0], m["property"]) for i, m in sorted(rows("seeded") + rows("seeded_more"), key=lambda r: r[0]))
s = s.replace("@SEEDS@\n", table).replace("@LATER@\n", "")
s = re.sub(r"(\| bug \| caught by \|\n\|---\|---\|\n)(\|.*\n)*", lambda k: k.group(1) + table, s)
open(p, "w").write(s)
