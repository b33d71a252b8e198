#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seed_results.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = json.load(open(os.path.join(V, "tools", "seed_results.json")))
rows = ["| planted bug | property | needs | result |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json"))); rows.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], R.get(s, "caught")))
p = os.path.join(V, "DESIGN.md"); d = open(p).read(); d = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", d, flags=re.S); open(p, "w").write(d)
