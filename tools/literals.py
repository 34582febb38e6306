#!/usr/bin/env python3
"""developer tool: record the numeric literals of the current sources"""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import common as C
out = {}
for c in sorted(os.listdir(C.REPO)):
    for root, _, fs in os.walk(os.path.join(C.REPO, c, "src")):
        for f in fs:
            if f.endswith(".rs"):
                p = os.path.join(root, f)
                out[os.path.relpath(p, C.REPO)] = sorted(C.literals_of(p))
json.dump(out, open(os.path.join(C.VERIF, "vc", "literals.json"), "w"), separators=(",", ":"))
