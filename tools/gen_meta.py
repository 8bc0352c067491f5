#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
from properties import PROPS
from checks import CHECKS
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        for x in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in PROPS:
    c = CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason="no check built yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"],
                       thorough_cmd="python3 run.py %s thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"],
                       technique=c["technique"], level=c.get("level", "exploration"), level_note=c["note"]))
json.dump(dict(version=1, setup_cmd="python3 run.py --self-test",
               hooks=dict(guard="TPIE_VERIF_HOOKS", enable="no hooks were needed: monitors sit at the API, at the system-call boundary (linker wraps) and in the sanitizers", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="See DESIGN.md. Every check rebuilds libtpie with sanitizers from /repo's working tree into /verif/build (content-hashed)."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
