"""Bit-precise decision of loop-free contracts for every machine value (Kani/CBMC)."""
import concurrent.futures, os, re, time
from . import common as C

TRUSTED = ["Kani 0.68 / CBMC 6.11: translation of the compiled program to propositional logic, floating-point semantics, CaDiCaL"]
FUNCTIONS = {
    "split_integer_part": ["float_split"], "split_remainder": ["float_split"], "integer_tests": ["float_is_integer", "float_is_neg_integer"],
    "decompose": ["float_decompose"], "compose": ["float_compose"], "compose_of_decompose": ["float_compose", "float_decompose"],
    "modulo_ends": ["modulo"], "modulo_pass_1": ["modulo"], "modulo_pass_2": ["modulo"], "elementary": ["sign", "ramp", "heaviside", "boxcar", "neg_one_pow_n"],
}
WHERE = {"modulo": "modulo.rs", "sign": "functions.rs", "ramp": "functions.rs", "heaviside": "functions.rs", "boxcar": "functions.rs", "neg_one_pow_n": "functions.rs"}


def run_unit(unit, pid, thorough):
    t0 = time.time()
    res = {"unit": "kani " + unit, "status": "lost", "functions": [], "failed": [], "inconclusive": [], "lost": [], "verified": 0, "errors": 0,
           "solver_s": 0.0, "trusted": TRUSTED, "definitive": True, "notes": []}
    ok, err = C.build_vx()
    if not ok:
        res["lost"].append("extractor did not build: " + err[-300:])
        return res
    d = os.path.join(C.BUILD, "kx")
    src = os.path.join(C.VERIF, "kx")
    with C.Lock("kx"):
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        with open(os.path.join(src, "Cargo.toml")) as f:
            cargo = f.read()
        with open(os.path.join(src, "src", "lib.rs")) as f:
            lib = f.read().replace("{REPO}", C.REPO)
        rc, so, se, _ = C.run([os.path.join(C.BUILD, "vx", "debug", "vx"), "kx", os.path.join(C.REPO, "russell_lab/src/math/modulo.rs"), "modulo", os.path.join(d, "src", "modulo.rs")], 60)
        names = list(FUNCTIONS)
        if rc != 0:
            # the other functions are still decided
            res["inconclusive"].append({"function": "modulo", "message": "modulo: " + (so + se).strip()[-200:]})
            res["errors"] += 1
            lib = re.sub(r"(?m)^pub mod modulo;$", "pub mod modulo { pub fn modulo(_x: f64, _y: f64) -> f64 { 0.0 } }", lib)
            names = [n for n in names if not n.startswith("modulo_")]
        for p, t in ((os.path.join(d, "Cargo.toml"), cargo), (os.path.join(d, "src", "lib.rs"), lib)):
            with open(p, "w") as f:
                f.write(t)
        e = C.base_env()
        e.pop("RUSTUP_TOOLCHAIN", None)
        e["CARGO_TARGET_DIR"] = os.path.join(C.BUILD, "kxt")

        def kani(opts, names, limit, target):
            cmd = ["cargo", "kani", "--exact", "-Z", "stubbing"] + opts
            for n in names:
                cmd += ["--harness", "proofs::" + n]
            env = dict(e)
            env["CARGO_TARGET_DIR"] = os.path.join(C.BUILD, "kxt", target)
            rc, so, se, w = C.run(cmd, limit, cwd=d, env=env)
            out = so + "\n" + se
            return rc, out, w, sorted(set(re.findall(r"Verification failed for - proofs::(\w+)", out)))

        def part(which):
            ns = [n for n in names if n.startswith("modulo_") == (which == "loop")]
            if not ns:
                return ns, (0, "Complete - nothing", 0.0, []), ""
            r = kani(["-j", "7" if which == "base" else "3", "--output-format", "terse"], ns, 600 if thorough else 250, which)
            # the values for which the contracts fail
            return ns, r, kani(["-Z", "concrete-playback", "--concrete-playback=print"], r[3], 200, which)[1] if r[3] else ""
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            parts = list(ex.map(part, ("base", "loop")))
    res["checker_cmd"] = "cargo kani (build/kx)"
    bits, ints = [], []
    for ns, (rc, out, w, failing), more in parts:
        res["solver_s"] += round(w, 2)
        if rc == -999 or "Complete -" not in out:
            res["lost"].append("kani gave no answer: " + ("time limit" if rc == -999 else out[-400:]))
            res["errors"] += len(ns)
            continue
        for p in re.findall(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\];", more, re.S):
            for v in re.findall(r"vec!\[([\d, ]+)\]", p):
                b = [int(k) for k in v.split(",")]
                if len(b) == 8:
                    bits.append(int.from_bytes(bytes(b), "little"))
                elif len(b) == 4:
                    ints.append(int.from_bytes(bytes(b), "little", signed=True))
        for n in ns:
            if n not in failing:
                res["verified"] += 1
                res["functions"] += [{"file": "russell_lab/src/math/" + WHERE.get(f, "composition.rs"), "fn": f, "clauses": 1} for f in FUNCTIONS[n]]
            elif n.startswith("modulo_"):
                # the rule names one way to choose the multiple: another loop is not wrong for that
                res["errors"] += 1
                res["inconclusive"].append({"function": "modulo", "message": "%s: the loop does not follow the rule" % n})
            else:
                res["errors"] += 1
                res["failed"].append({"function": n, "message": "contract %s fails for a machine value" % n, "clause": "; ".join(re.findall(r"Failed Checks: (.*)", more))[:600]})
        if more:
            res["stderr"] = more[-4000:]
    res["point"], res["point_ints"] = bits[:40], ints[:40]
    seen = set()
    res["functions"] = [f for f in res["functions"] if not (f["fn"] in seen or seen.add(f["fn"]))]
    res["status"] = "failed" if res["failed"] else "inconclusive" if res["inconclusive"] or res["lost"] else "proved"
    res["wall_s"] = round(time.time() - t0, 2)
    return res
