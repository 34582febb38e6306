"""Shared plumbing of the checks: building, running the engines, outcome policy, evidence."""
import fcntl, hashlib, json, os, re, resource, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
GEN = os.path.join(BUILD, "gen")
JOBS = "8"


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "0"))
    except ValueError:
        return 0


def base_env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["OMP_NUM_THREADS"] = "1"
    e["RUST_BACKTRACE"] = "0"
    e["CARGO_INCREMENTAL"] = "1"
    # the build scripts do not watch the C code; they watch CFLAGS
    h = hashlib.sha256()
    for c in sorted(os.listdir(REPO)):
        d = os.path.join(REPO, c, "c_code")
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                with open(os.path.join(d, f), "rb") as fh:
                    h.update(fh.read())
    e["CFLAGS"] = "-DC_CODE_HASH=0x" + h.hexdigest()[:16]
    return e


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def run(cmd, timeout, cwd=VERIF, env=None, mem_gb=None):
    def lim():
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env or base_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", preexec_fn=lim)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = -999
    return rc, out, err, time.time() - t0


def build_vx():
    with Lock("vx"):
        e = base_env()
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "vx")
        e["CFLAGS"] = ""
        rc, out, err, _ = run(["cargo", "build", "--offline", "-q"], 600, cwd=os.path.join(VERIF, "vx"), env=e)
        return rc == 0, err


def build_hx(crate):
    """harness crate with path dependencies on the crates of the repository"""
    with Lock("hx"):
        e = base_env()
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "hx")
        rc, out, err, t = run(["cargo", "build", "--offline", "-q"], 800, cwd=os.path.join(VERIF, "hx", crate), env=e)
        return rc == 0, err[-4000:], t


# ---------------------------------------------------------------- literals that are new in the source
NUM = re.compile(r"(?<![A-Za-z_0-9.])(\d[\d_]*\.?\d*(?:[eE][-+]?\d+)?)")


def literals_of(path):
    try:
        with open(path) as f:
            t = f.read()
    except OSError:
        return set()
    k = t.find("#[cfg(test)]")
    if k >= 0:
        t = t[:k]
    t = re.sub(r"//[^\n]*", "", t)
    r = set()
    for m in NUM.finditer(t):
        s = m.group(1).replace("_", "").rstrip(".")
        try:
            r.add(float(s))
        except ValueError:
            pass
    return r


def new_literals(files):
    try:
        with open(os.path.join(VERIF, "vc", "literals.json")) as f:
            base = json.load(f)
    except OSError:
        return []
    out = set()
    for fn in files:
        cur = literals_of(os.path.join(REPO, fn))
        out |= cur - set(base.get(fn, []))
    return sorted(out)[:24]


# ---------------------------------------------------------------- Verus
def fn_spans(path):
    """(line, name) of every function of the generated file"""
    spans = []
    with open(path) as f:
        for k, l in enumerate(f, 1):
            m = re.match(r"\s*(?:pub\s+)?(?:open\s+|closed\s+)?(?:broadcast\s+)?(?:proof\s+|spec\s+)?(?:const\s+)?fn\s+(\w+)", l)
            if m:
                spans.append((k, m.group(1)))
    return spans


def run_verus(template, opts=None, timeout=400, update=False):
    """generate from the current source and verify; returns a result dictionary"""
    opts = opts or {}
    os.makedirs(GEN, exist_ok=True)
    out = os.path.join(GEN, template + ".rs")
    res = {"template": template, "status": "error", "functions": [], "failed": [], "inconclusive": [], "lost": [], "verified": 0,
           "errors": 0, "solver_s": 0.0, "wall_s": 0.0, "trusted": [], "notes": []}
    cmd = [os.path.join(BUILD, "vx", "debug", "vx"), "gen", os.path.join(VERIF, "verus", template + ".rs"), REPO, out,
           os.path.join(VERIF, "verus", "baseline.json")]
    rc, so, se, _ = run(cmd, 60)
    try:
        rep = json.loads(so)
    except ValueError:
        res["lost"].append("extractor: " + (so + se)[:500])
        res["status"] = "lost"
        return res
    if rep.get("fatal"):
        res["lost"].append(rep["fatal"])
        res["status"] = "lost"
        return res
    res["functions"] = rep["functions"]
    res["lost"] = rep["lost"]
    res["notes"] = rep["notes"]
    text = open(out).read()
    res["trusted"] = sorted(set(re.findall(r"external_body\]\s*(?:pub\s+)?(?:open\s+)?(?:broadcast\s+)?(?:proof\s+)?fn\s+(\w+)", text)))
    res["assumes"] = len(re.findall(r"\b(assume|admit)\s*\(", text))
    res["clauses"] = sum(f["clauses"] for f in rep["functions"]) + len(re.findall(r"\binvariant\b", text))
    if rep["lost"]:
        res["status"] = "lost"
        return res
    cmd = ["verus", out, "--triggers-mode", "silent", "--output-json", "--time", "--rlimit", str(opts.get("rlimit", 40)),
           "--multiple-errors", "4", "--num-threads", "6"]
    res["checker_cmd"] = " ".join(cmd)
    rc, so, se, w = run(cmd, timeout, cwd=GEN)
    res["wall_s"] = round(w, 2)
    res["stderr"] = se[-6000:]
    try:
        j = json.loads(so[so.index("{"):])
    except ValueError:
        j = {}
    vr = j.get("verification-results", {})
    try:
        res["solver_s"] = j["times-ms"]["smt"]["smt-run"] / 1000.0
    except (KeyError, TypeError):
        pass
    if rc == -999:
        res["status"] = "lost"
        res["lost"].append("verifier time-out")
        return res
    res["verified"] = vr.get("verified", 0)
    res["errors"] = vr.get("errors", 0)
    if vr.get("encountered-vir-error") or vr.get("verified") is None or (rc != 0 and vr.get("errors", 0) == 0):
        # the generated file is not accepted (construct outside the subset, type error after an edit)
        res["status"] = "lost"
        m = re.findall(r"^error[^\n]*(?:\n[^\n]*){0,4}", se, re.M)
        res["lost"].append("not accepted by the verifier: " + (m[0] if m else se[-400:]))
        return res
    spans = fn_spans(out)
    cur = None
    for m in re.finditer(r"^(error[^\n]*)\n\s*-->\s*([^\n:]+):(\d+):(\d+)", se, re.M):
        msg, f, line = m.group(1), m.group(2), int(m.group(3))
        if "aborting due to" in msg:
            continue
        fnm = "?"
        for l0, n in spans:
            if l0 <= line:
                fnm = n
        lt = text.split("\n")[line - 1].strip() if f.endswith(template + ".rs") and line <= text.count("\n") else ""
        item = {"function": fnm, "message": msg, "line": line, "clause": lt[:300]}
        if "rlimit" in msg.lower() or "resource limit" in msg.lower():
            res["inconclusive"].append(item)
        else:
            res["failed"].append(item)
    if res["errors"] == 0 and rc == 0:
        res["status"] = "proved"
    elif res["failed"]:
        res["status"] = "failed"
    else:
        res["status"] = "inconclusive"
    return res


# ---------------------------------------------------------------- harness
def run_hx(crate, prop, budget, files, timeout=None):
    res = {"crate": crate, "status": "error", "fails": [], "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "subs": {}}
    ok, err, t = build_hx(crate)
    res["build_s"] = round(t, 1)
    if not ok:
        res["status"] = "build-failed"
        res["message"] = err
        return res
    e = base_env()
    lits = new_literals(files)
    res["new_literals"] = lits
    e["HX_LITS"] = ",".join(repr(x) for x in lits)
    scratch = os.path.join(BUILD, "scratch", prop)
    os.makedirs(scratch, exist_ok=True)
    st = os.path.join(scratch, "status")
    e["HX_STATUS"] = st
    e["HX_SCRATCH"] = scratch
    exe = os.path.join(BUILD, "hx", "debug", "hx_" + crate)
    cmd = [exe, prop, "--budget", str(budget)]
    rc, so, se, w = run(cmd, timeout or budget * 4 + 200, cwd=scratch, env=e, mem_gb=16)
    res["wall_s"] = round(w, 2)
    for l in so.splitlines():
        if not l.startswith("{"):
            continue
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if "fail" in j:
            f = j["fail"]
            f["replay_cmd"] = "VERIF_SEED=%d VERIF_TIER=%s HX_LITS=%s HX_POINT=%s %s %s --replay %s %d %d %d" % (
                seed(), tier(), e["HX_LITS"], e.get("HX_POINT", ""), os.path.relpath(exe, VERIF), prop, f["sub"], f["seed"], f["idx"], f["size"])
            res["fails"].append(f)
        if "summary" in j:
            res.update({k: j["summary"][k] for k in ("evaluations", "distinct_nontrivial", "samples", "subs")})
    if rc in (0, 1) and res["evaluations"] > 0:
        res["status"] = "ok" if not res["fails"] else "failed"
    elif rc == 4 and res["fails"]:
        res["status"] = "failed"
    elif rc == -999:
        res["status"] = "timeout"
    elif rc < 0:
        # killed by a signal: the status file names the case
        try:
            sub, cs, idx, size = open(st).read().split()
            res["fails"].append({"sub": sub, "seed": int(cs), "idx": int(idx), "size": int(size), "message": "process died with signal %d" % -rc,
                                 "case": se[-1500:], "replay_cmd": "%s %s --replay %s %s %s %s" % (os.path.relpath(exe, VERIF), prop, sub, cs, idx, size)})
            res["status"] = "failed"
        except (OSError, ValueError):
            res["status"] = "error"
    res["stderr"] = se[-2000:]
    return res


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    """lines `known: property=<id> sub=<sub-check> <text>` of the committed file"""
    out = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for l in f:
                m = re.match(r"known:\s+property=(\S+)\s+sub=(\S+)\s+(.*)", l)
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return out


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1)
    os.replace(tmp, path)
