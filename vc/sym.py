"""Exact symbolic execution of the converted crates: contracts as identities over the reals."""
import concurrent.futures, json, os, shutil, time
from . import common as C

TRUSTED = [
    "sx/sym: arithmetic of rational functions, sign bookkeeping and path exploration of the symbolic numbers (own back end)",
    "vx sx: replacement of f64 by the symbolic numbers in the current source text",
]


def build(spec):
    """convert the current sources, build the driver; (ok, message, binary)"""
    gen = os.path.join(C.BUILD, "sx", "gen", spec)
    with C.Lock("sx"):
        rc, so, se, _ = C.run([os.path.join(C.BUILD, "vx", "debug", "vx"), "sx", os.path.join(C.VERIF, "sx", spec + ".json"), C.REPO, gen], 60)
        if rc != 0:
            return False, "conversion: " + (so + se)[-400:], None
        drv = os.path.join(gen, "sx_" + spec)
        lock = os.path.join(drv, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copy(os.path.join(C.VERIF, "hx", "lab", "Cargo.lock"), lock)
        e = C.base_env()
        e["CFLAGS"] = ""
        e["CARGO_TARGET_DIR"] = os.path.join(C.BUILD, "sx", "target")
        rc, so, se, _ = C.run(["cargo", "build", "--offline", "-q"], 600, cwd=drv, env=e)
        if rc != 0:
            k = se.find("error")
            return False, "converted crate does not compile: " + se[k:k + 500], None
    return True, "", os.path.join(C.BUILD, "sx", "target", "debug", "sx_" + spec)


def run_unit(spec, pid, thorough):
    t0 = time.time()
    res = {"unit": "symbolic " + spec, "status": "lost", "functions": [], "failed": [], "inconclusive": [], "lost": [], "verified": 0, "errors": 0,
           "solver_s": 0.0, "trusted": TRUSTED, "definitive": True, "contracts": {}}
    ok, err = C.build_vx()
    if not ok:
        res["lost"].append("extractor did not build: " + err[-300:])
        return res
    ok, err, exe = build(spec)
    if not ok:
        res["lost"].append(err)
        return res
    rc, so, se, _ = C.run([exe, pid, "--list"], 20)
    names = so.split()
    if rc != 0 or not names:
        res["lost"].append("no contracts listed: " + se[-200:])
        return res
    limit = 600 if thorough else 150

    def one(n):
        return n, C.run([exe, pid, n, "20000"], limit, mem_gb=6)
    fns = set()
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for n, (rc, so, se, w) in ex.map(one, names):
            res["solver_s"] += w
            try:
                j = json.loads(so)
            except ValueError:
                res["inconclusive"].append({"function": n, "message": "contract %s: %s" % (n, "time limit" if rc == -999 else "driver died " + se[-200:])})
                res["errors"] += 1
                continue
            fns |= set(j["functions"])
            res["contracts"][n] = {"paths": j["paths"], "obligations": j["identities"], "generic": j["generic"], "wall_s": j["wall_s"]}
            if j["fail"]:
                res["failed"].append({"function": n, "message": j["fail"]["message"], "clause": j["fail"]["path"][:1500]})
                res["errors"] += 1
                res["verified"] += max(0, j["identities"] - 1)
            elif j["stuck"]:
                res["inconclusive"].append({"function": n, "message": "contract %s: %s" % (n, j["stuck"][:300])})
                res["errors"] += 1
                res["verified"] += max(0, j["identities"] - 1)
            else:
                res["verified"] += j["identities"]
    res["functions"] = [{"file": f.split("#")[0], "fn": f.split("#")[1], "clauses": 0} for f in sorted(fns)]
    res["checker_cmd"] = "%s %s" % (os.path.relpath(exe, C.VERIF), pid)
    res["status"] = "failed" if res["failed"] else "inconclusive" if res["inconclusive"] else "proved"
    res["explanation"] = json.dumps(res["contracts"])
    res["wall_s"] = round(time.time() - t0, 2)
    return res
