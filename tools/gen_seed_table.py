#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p = os.path.join(V, "DESIGN.md"); s = open(p).read(); mark = "| planted bug | caught by | what it breaks |\n|---|---|---|\n"
rows = []
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); rows.append("| `%s` | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"]))
i = s.index(mark) + len(mark); open(p, "w").write(s[:i] + "".join(rows))
