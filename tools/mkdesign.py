"""Writes DESIGN.md: fixed text, one entry per property from vc/props.py and the last evidence, table of planted bugs."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import vc.props as vp
from vc.props import PROPS, NOT_APPLICABLE
CODES = [("A1", vp.EXACT), ("A2", vp.LITS), ("A3", vp.GENERIC), ("A4", vp.VEC), ("A5", vp.FUNCS), ("A6", vp.BLAS), ("A7", vp.STAT)]
code = dict((t, c) for c, t in CODES)
rd = lambda p: open(os.path.join(V, p)).read()
EV = sys.argv[1] if len(sys.argv) > 1 else os.path.join(V, "evidence")
out = [rd("tools/design_head.md"), "## Per property\n\nNumbers are those of a quick run on 8 cores. Assumptions that occur often:\n\n" + "\n".join("* %s: %s." % (c, t) for c, t in CODES) + "\n"]
for l in rd("properties.jsonl").splitlines():
    p = json.loads(l)
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in NOT_APPLICABLE:
        out.append("Not applicable: %s.\n" % NOT_APPLICABLE[i])
        continue
    q = PROPS[i]
    eng = "".join(a for a, k in (("V", "verus"), ("S", "sym"), ("K", "kani"), ("R", "hx")) if q.get(k))
    lev = q.get("level", "proof")
    out.append("* Engines %s, level %s. %s." % ("+".join(eng), lev, q["technique"][0].upper() + q["technique"][1:]))
    out.append("* Decided: " + q["level_note"])
    if q.get("bounded"):
        out.append("* Bounded only: " + "; ".join(q["bounded"]) + ".")
    if q.get("assumptions"):
        out.append("* Assumed: " + "; ".join(code.get(t, t) for t in q["assumptions"]) + ".")
    out.append("* Reaches what tests cannot: " + p["why_tests_cant"])
    try:
        e = json.load(open(os.path.join(EV, i + ".json")))
        c = e["coverage"]
        n = c.get("obligations")
        out.append("* Cost: %s%.0f s." % ("%d obligations, %d functions under contract, " % (n, len(c["functions_under_contract"])) if n and "functions_under_contract" in c else "", e["wall_s"]))
    except (OSError, KeyError, TypeError):
        pass
    out.append("")
out.append(rd("tools/design_tail.md"))
for s in sorted(os.listdir(os.path.join(V, "seeded"))) if os.path.isdir(os.path.join(V, "seeded")) else []:
    m = json.loads(rd("seeded/%s/meta.json" % s))
    out.append("* **%s** %s Needs: %s." % (s, m["what_it_breaks"], m["needs"].rstrip(".")))
try:
    out.append("\n" + rd("tools/design_end.md"))
except OSError:
    pass
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(x.rstrip("\n") if x.startswith("* ") or x.startswith("### ") else x for x in out) + "\n")
