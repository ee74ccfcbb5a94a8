#!/usr/bin/env python3
"""Record how many loops and closures each woven function has (specs/UNIT.shape.json)."""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
import glob
for s in sorted(glob.glob(VERIF + "/specs/*.spec")):
    u = os.path.basename(s)[:-5]
    with tempfile.TemporaryDirectory() as t:
        subprocess.run([VERIF + "/.build/weaver/release/weaver", s, "/repo", t + "/a.rs", t + "/a.json"], check=True)
        r = json.load(open(t + "/a.json"))
    sh = {}
    for f in r["functions"]:
        sh.setdefault(f["key"], []).extend([f["loops"], f["closures"]])
    json.dump(sh, open(VERIF + "/specs/%s.shape.json" % u, "w"), indent=0, sort_keys=True)
    print(u, len(sh), "lost:", r["lost"])
