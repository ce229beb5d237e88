#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeds -->", "| planted bug | caught by | needs |", "|---|---|---|"]
miss = set(open(os.path.join(V, "tools", "missed.txt")).read().split()) if os.path.exists(os.path.join(V, "tools", "missed.txt")) else set()
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    rows.append("| %s | %s | %s |" % (s, m["property"] if s not in miss else "missed (" + m["property"] + ")", m["needs"].replace("|", "/")))
rows.append("<!-- end -->")
p = os.path.join(V, "DESIGN.md"); t = open(p).read()
t = t.replace("@@SEEDS@@", "<!-- seeds --><!-- end -->")
t = re.sub(r"<!-- seeds -->.*?<!-- end -->", lambda _: "\n".join(rows), t, flags=re.S)
open(p, "w").write(t)
