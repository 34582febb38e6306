#!/usr/bin/env python3
"""check.py ID: decides one property on the current tree of /repo. Exit 0 held, 1 violation."""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc import common as C
from vc.props import PROPS, files_of


def main():
    pid = sys.argv[1]
    cfg = PROPS[pid]
    t0 = time.time()
    files = cfg.get("files") or files_of(pid)
    thorough = C.tier() == "thorough"
    ev = {"property": pid, "tier": C.tier(), "seed": C.seed(), "level": cfg.get("level", "proof"), "assumptions": list(cfg.get("assumptions", []))}
    violations, known_seen, bounded, lines = [], [], [], []
    known = C.known_findings(pid)
    units = []          # proof units of all engines
    # 1. proof engines
    if cfg.get("verus"):
        ok, err = C.build_vx()
        for t in cfg["verus"]:
            r = C.run_verus(t, cfg.get("verus_opts", {}).get(t)) if ok else {"template": t, "status": "lost", "lost": ["extractor did not build: " + err[-300:]],
                                                "functions": [], "failed": [], "inconclusive": [], "verified": 0, "errors": 0, "solver_s": 0, "trusted": []}
            r["engine"] = "verus"
            units.append(r)
    for eng in ("sym", "kani"):
        for u in cfg.get(eng, []):
            mod = __import__("vc." + eng, fromlist=["run_unit"])
            r = mod.run_unit(u, pid, thorough)
            r["engine"] = eng
            units.append(r)
            if r.get("point"):
                # values for which a contract fails: replayed on the unmodified crate
                os.environ["HX_POINT"] = ",".join(str(b) for b in r["point"] + [k % 2**64 for k in r.get("point_ints", [])])
    # 2. executable contracts on the unmodified crates
    hxs = []
    for h in cfg.get("hxs", [cfg["hx"]] if "hx" in cfg else []):
        crate, bq, bt = h
        need_more = any(u["status"] not in ("proved",) for u in units)
        budget = (bt if thorough else bq) * (3 if need_more and not thorough else 1)
        hxs.append(C.run_hx(crate, pid, budget, files))
    # 3. outcome
    for h in hxs:
        for f in h["fails"]:
            if f["sub"] in known:
                known_seen.append("KNOWN-FINDING: property=%s %s" % (pid, known[f["sub"]]))
            else:
                violations.append({"kind": "failing input", "contract": f["sub"], "message": f["message"], "input": f["case"], "replay_cmd": f["replay_cmd"]})
        if h["status"] not in ("ok", "failed"):
            bounded.append("harness %s: %s %s" % (h["crate"], h["status"], h.get("message", h.get("stderr", ""))[-300:]))
    nfif = []
    for u in units:
        name = u.get("template") or u.get("unit")
        if u["status"] == "failed":
            intact = all(f.get("same_loops", True) for f in u["functions"])
            if u.get("witness"):
                violations.append({"kind": "failing input", "contract": name, "message": u["failed"][0].get("message", ""), "input": u["witness"], "replay_cmd": u.get("replay_cmd", "")})
            elif intact or u.get("definitive"):
                nfif.append(u)
            else:
                bounded.append("%s: obligations not re-established after a structural change (%s); decided by the bounded harness in this run"
                               % (name, "; ".join(sorted(set(x["function"] for x in u["failed"])))))
        elif u["status"] != "proved":
            bounded.append("%s: no verdict from %s (%s); decided by the bounded harness in this run"
                           % (name, u["engine"], "; ".join([str(x)[:300] for x in u.get("lost", [])] + [x["message"] for x in u.get("inconclusive", [])])))
    rc = 0
    rdir = os.path.join(C.VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, "%s.json" % pid)
    if os.path.exists(rpath):
        os.remove(rpath)
    if violations or nfif:
        failed_obl = [{"unit": u.get("template") or u.get("unit"), "obligations": u["failed"], "verifier_output": u.get("stderr", "")[-4000:]} for u in units if u["status"] == "failed"]
        C.write_json(rpath, {"property": pid, "seed": C.seed(), "violations": violations, "failed_obligations": failed_obl,
                             "failing_input_found": bool(violations)})
        rel = os.path.relpath(rpath, C.VERIF)
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, rel, "" if violations else " no-failing-input-found"))
        rc = 1
    # 4. evidence
    nfun = sum(len(u["functions"]) for u in units)
    obl = sum(u["verified"] + u["errors"] for u in units)
    dis = sum(u["verified"] for u in units)
    trusted = sorted(set(sum([u.get("trusted", []) for u in units], [])))
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": "; ".join(u.get("checker_cmd", "") for u in units if u.get("checker_cmd")) or "python3 check.py " + pid,
        "trusted_base": trusted + list(cfg.get("trusted", [])),
        "functions_under_contract": [{"file": f["file"], "fn": f["fn"]} for u in units for f in u["functions"]][:200],
        "n_functions_under_contract": nfun,
        "by_engine": {e: {"units": sum(1 for u in units if u["engine"] == e), "discharged": sum(u["verified"] for u in units if u["engine"] == e),
                           "solver_s": round(sum(u.get("solver_s", 0) for u in units if u["engine"] == e), 2)} for e in sorted(set(u["engine"] for u in units))},
        "units": [{k: u.get(k) for k in ("template", "unit", "engine", "status", "verified", "errors", "solver_s", "wall_s", "clauses", "assumes", "lost", "notes", "bound", "explanation") if u.get(k) not in (None, [], "")} for u in units],
        "bounded_this_run": bounded,
        "bounded_always": cfg.get("bounded", []),
        "evaluations": sum(h["evaluations"] for h in hxs), "distinct_nontrivial": sum(h["distinct_nontrivial"] for h in hxs),
        "rule": cfg.get("rule", "a case is one generated input of one executable contract; distinct by the drawn values"),
        "samples": [s for h in hxs for s in h["samples"]][:8],
        "contracts_executed": {k: v for h in hxs for k, v in h["subs"].items()},
        "new_literals": sum([h.get("new_literals", []) for h in hxs], []),
        "explanation": cfg.get("explanation", ""),
    }
    ev["coverage"] = cov
    ev["violations"] = len(violations) + len(nfif)
    ev["known_findings"] = known_seen
    ev["wall_s"] = round(time.time() - t0, 2)
    # without any answer the check must say so
    no_answer = not any(u["status"] in ("proved", "failed") for u in units) and not any(h["status"] in ("ok", "failed") for h in hxs)
    C.write_json(os.path.join(C.EVID, pid + ".json"), ev)
    for l in sorted(set(known_seen)):
        print(l)
    for b in bounded:
        print("note: " + b.replace("\n", " ")[:600])
    print("%s: %d/%d obligations discharged, %d functions under contract, %d contract evaluations, %.1f s" % (pid, dis, obl, nfun, cov["evaluations"], ev["wall_s"]))
    for l in lines:
        print(l)
    if rc == 0 and no_answer:
        print("no engine gave an answer")
        sys.exit(2)
    sys.exit(rc)


if __name__ == "__main__":
    main()
