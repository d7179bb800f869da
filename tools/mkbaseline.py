#!/usr/bin/env python3
"""Regenerate tools/baseline.json (the functions and contract anchors of the tree
the contracts were written for)."""
import json, subprocess, sys, os, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.argv = ["x"]
import check
d = tempfile.mkdtemp()
w = check.build_weave()
subprocess.check_call([w, "--src", "/repo/src", "--contracts", V + "/contracts", "--out", d + "/o.rs", "--map", d + "/m.json"])
m = json.load(open(d + "/m.json"))
lines = open(d + "/o.rs").read().split("\n")
pf, rest = check.prints(m, lines)
json.dump({"prints": pf, "rest": rest, "functions": sorted(f["key"] for f in m["functions"]), "uncontracted": m["uncontracted"], "lost_anchors": m["lost_anchors"], "loops": m["loops"]}, open(V + "/tools/baseline.json", "w"), indent=1)
