#!/usr/bin/env python3
"""Write /verif/MANIFEST.json and the shape files from props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS
import props
NA = getattr(props, "NOT_APPLICABLE", {})
ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks = []
for i in ids:
    p = PROPS.get(i)
    if not p:
        continue
    c = dict(property=i, quick_cmd="python3 tools/check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py %s" % i,
             evidence_file="evidence/%s.json" % i, technique=p["technique"], level=p["level"], level_note=p["note"])
    if p["level"] == "proof" and p.get("theorems"):
        c["theorems"] = p["theorems"]
    checks.append(c)
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks,
         not_applicable=[dict(property=i, reason=NA.get(i, "machinery under construction; not claimed yet")) for i in ids if i not in PROPS],
         notes="No hooks in /repo: contracts are spliced into the current source on every run (weaver/), private items are reached in the woven text. See DESIGN.md.")
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
