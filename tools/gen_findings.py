#!/usr/bin/env python3
"""Writes known_findings.jsonl: the open findings below and one fixed entry per fix: commit of /repo."""
import json, subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# hash prefix -> properties
PROP = {}
for line in open(os.path.join(HERE, "tools", "fixes.txt")):
    if line.strip():
        h, p = line.split()[:2]
        PROP[h] = p
OPEN = [json.loads(l) for l in open(os.path.join(HERE, "tools", "open_findings.jsonl")) if l.strip()]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
out = list(OPEN)
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        h = h[:7]
        if h not in PROP:
            print("no property for", l)
            continue
        out.append(dict(property=PROP[h], id="F-" + h, status="fixed", what="fixed: property=%s %s %s" % (PROP[h], h, s[5:])))
with open(os.path.join(HERE, "known_findings.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
print(len(OPEN), "open,", len(out) - len(OPEN), "fixed")
