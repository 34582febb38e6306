#!/usr/bin/env python3
"""Builds the extractor and the harness crates (the checks rebuild what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc import common as C
ok, err = C.build_vx()
if not ok:
    print(err)
    sys.exit(1)
rc = 0
for c in sorted(os.listdir(os.path.join(C.VERIF, "hx"))):
    if c != "common" and os.path.isdir(os.path.join(C.VERIF, "hx", c)):
        ok, err, t = C.build_hx(c)
        print(c, "built" if ok else "FAILED", "%.1f s" % t)
        if not ok:
            print(err)
            rc = 1
from vc import sym
for f in sorted(os.listdir(os.path.join(C.VERIF, "sx"))):
    if f.endswith(".json"):
        ok, err, exe = sym.build(f[:-5])
        print("symbolic", f[:-5], "built" if ok else "FAILED " + err)
        rc = rc if ok else 1
sys.exit(rc)
