#!/usr/bin/env python3
"""Write the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.txt (name: checks)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(V + "/tools/caught.txt"):
    if ":" in l: k, v = l.strip().split(":", 1); caught[k] = v.strip()
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for n in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{n}/meta.json"))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {caught.get(n, '?')} |")
p = V + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"<!-- plants -->.*<!-- /plants -->", lambda _: "<!-- plants -->\n" + "\n".join(rows) + "\n<!-- /plants -->", s, flags=re.S)
open(p, "w").write(s)
