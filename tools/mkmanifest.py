#!/usr/bin/env python3
"""developer tool: writes MANIFEST.json from vc/props.py"""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc.props import PROPS, NOT_APPLICABLE
checks = []
for pid in sorted(PROPS):
    c = PROPS[pid]
    checks.append({"property": pid, "quick_cmd": "python3 check.py " + pid, "thorough_cmd": "python3 check.py " + pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": c["technique"], "level": c.get("level", "proof"), "level_note": c["level_note"]})
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"))]
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "python3 setup.py", "hooks": {"guard": "none", "enable": "no hooks are used: the checks read the sources or link the unmodified crates", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "See DESIGN.md."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
