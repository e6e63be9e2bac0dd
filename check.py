"""Entry point of a check:  python3-vt check.py C01

1. verifies every contract of the property against /repo's current source (vf/, contracts/);
2. evaluates the same property on the real code with real JAX (oracles/), to replay refuted obligations
   and as the bounded stand-in for obligations that are out of reach after a change.
Exit 0: no violation.  Exit 1: `VIOLATION property=<id> replay=<path>` was printed."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from vf import driver, loader  # noqa: E402

TECH = "contracts verified by symbolic execution of the extracted source; z3 / term normaliser"
PY = os.environ.get("VF_REAL_PYTHON", "/opt/venv/bin/python")
SECONDS = {"C24": 100}    # real-code evaluation in the quick tier, else 20 s
TRUSTED = [
    "vf/ (the verification-condition generator, the term normaliser and the prover) and Python's own semantics",
    "vf/shims.py: contracts assumed for jax, jax.numpy, jax.random, jax.experimental, loguru, tqdm (first-order mathematical meaning of each function)",
    "array entries are mathematical reals (IEEE rounding, overflow and NaN propagation are not modelled, except NaN/inf tests that are tracked symbolically)",
    "z3 4.8/4.16",
]


def oracle_start(prop, seed, secs, out, case=None):
    env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", WANDB_MODE="offline", XLA_FLAGS="--xla_cpu_multi_thread_eigen=false")
    cmd = [PY, os.path.join(HERE, "oracles/run.py"), prop, str(seed), str(secs), out] + ([case] if case else [])
    return subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def oracle_wait(p, out, limit):
    try:
        txt, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"error": "time limit", "evaluations": 0, "failures": [], "samples": [], "distinct": 0}
    if p.returncode or not os.path.exists(out):
        return {"error": txt[-1500:], "evaluations": 0, "failures": [], "samples": [], "distinct": 0}
    return json.load(open(out))


def known():
    f = os.path.join(HERE, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else []


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs("evidence", exist_ok=True)
    rdir = os.path.join("evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "_"):
            os.remove(os.path.join(rdir, f))
    oout = os.path.join(rdir, prop + "_oracle.json")
    op = oracle_start(prop, seed, SECONDS.get(prop, 20) if tier == "quick" else 180, oout)
    driver.load_specs()
    results = driver.run_property(prop, limit=240 if tier == "quick" else 420, procs=7, budget=420 if tier == "quick" else 1500)
    orc = oracle_wait(op, oout, 330 if tier == "quick" else 900)

    nob = ndis = 0
    refuted, undecided = [], []
    table = {}
    for r in results:
        for name, ob in r["obligations"].items():
            nob += 1
            oid = f"{r['spec']}/{name}"
            table[oid] = {"status": ob["status"], "by": ob["backend"], "paths": ob["n"]}
            if ob["status"] == "discharged":
                ndis += 1
            elif ob["status"] == "refuted":
                refuted.append((oid, ob["detail"]))
            else:
                undecided.append((oid, ob["detail"]))
        for u in r["unsupported"]:
            undecided.append((f"{r['spec']}/(out of reach)", u))
    if not results:
        undecided.append(("(no contract)", ""))

    # known findings
    kf = [k for k in known() if k["property"] == prop and k.get("status") == "finding"]
    k_obl = {o for k in kf for o in k.get("obligations", [])}
    k_case = [k for k in kf if k.get("case_kind")]
    printed = set()

    def say_known(k):
        if k["id"] not in printed:
            printed.add(k["id"])
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for oid, _ in refuted + undecided:
        for k in kf:
            if oid in k.get("obligations", []):
                say_known(k)
    refuted = [x for x in refuted if x[0] not in k_obl]
    undecided = [x for x in undecided if x[0] not in k_obl]

    def split(failures):
        out = []
        for f in failures:
            m = [k for k in k_case if f["case"].get("kind") == k["case_kind"] and k.get("message", "") in f["message"]]
            if m:
                say_known(m[0])
            else:
                out.append(f)
        return out
    failures = split(orc["failures"])

    bounded = None
    if (refuted or undecided) and not failures:
        # search for a concrete failing input on the real code (several seeds, in parallel)
        ps = []
        for k in range(4):
            o = os.path.join(rdir, f"{prop}_search{k}.json")
            ps.append((oracle_start(prop, seed * 1000 + 17 * k + 3, 60 if tier == "quick" else 240, o), o))
        more = [oracle_wait(p, o, 300 if tier == "quick" else 600) for p, o in ps]
        bounded = {"reason": [o for o, _ in (refuted + undecided)][:20],
                   "evaluations": sum(m["evaluations"] for m in more) + orc["evaluations"]}
        for m in more:
            failures += split(m["failures"])
            if m.get("error"):
                bounded.setdefault("errors", []).append(m["error"][-300:])
        for _, o in ps:
            if os.path.exists(o):
                os.remove(o)

    violations = []
    if failures:
        path = os.path.join(rdir, f"{prop}_1.json")
        json.dump({"property": prop, "case": failures[0]["case"], "message": failures[0]["message"],
                   "replay_cmd": f"cd /verif && {PY} oracles/run.py {prop} {seed} 1 /dev/null {path}",
                   "failed_obligations": [{"obligation": o, "verifier": d[:2500]} for o, d in refuted + undecided],
                   "other_failures": failures[1:6]}, open(path, "w"), indent=1)
        violations.append(f"VIOLATION property={prop} replay={os.path.join(HERE, path)}")
    elif refuted:
        path = os.path.join(rdir, f"{prop}_1.json")
        json.dump({"property": prop, "failed_obligations": [{"obligation": o, "verifier": d[:4000]} for o, d in refuted],
                   "note": "the verifier refutes these obligations; no failing input was found on the real code",
                   "bounded_search": bounded}, open(path, "w"), indent=1)
        violations.append(f"VIOLATION property={prop} replay={os.path.join(HERE, path)} no-failing-input-found")

    assumptions = sorted({a for r in results for a in r["assumptions"]})
    executed = sorted({f for r in results for f in r["executed"]})
    cov = {
        "obligations": nob, "discharged": ndis,
        "checker_cmd": f"cd /verif && python3-vt check.py {prop}",
        "trusted_base": TRUSTED,
        "functions_under_contract": sorted({f for r in results for f in r["functions"]}),
        "functions_of_repo_verified_through": executed,
        "obligation_table": table,
        "paths": sum(r["paths"] for r in results),
        "solver": {"z3_queries": sum(r["z3_queries"] for r in results), "z3_seconds": round(sum(r["z3_s"] for r in results), 2),
                   "verifier_seconds": round(sum(r["time_s"] for r in results), 2)},
        "undischarged": [{"obligation": o, "status": "refuted", "detail": d[:600]} for o, d in refuted]
        + [{"obligation": o, "status": "undecided", "detail": d[:600]} for o, d in undecided],
        "evaluations": orc["evaluations"], "distinct_nontrivial": orc.get("distinct", 0),
        "rule": "real-code evaluations that accompany the proof (never counted as proved): random cases per kind, distinct JSON descriptions",
        "samples": orc["samples"][:3], "oracle_error": orc.get("error"),
        "bounded_stand_in": bounded or "none: every obligation was discharged on this run",
        "known_findings": sorted(printed),
    }
    if not nob or ndis != nob or undecided:
        cov["explanation"] = ("not every obligation was discharged on this run; the undischarged ones are listed under `undischarged` and were "
                              "looked at by a bounded search on the real code (`bounded_stand_in`), which proves nothing")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof" if nob and ndis == nob and not undecided else "other", "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    json.dump(ev, open(f"evidence/{prop}.json", "w"), indent=1, default=str)
    print(f"{prop}: {ndis}/{nob} obligations discharged, {len(refuted)} refuted, {len(undecided)} undecided; "
          f"{orc['evaluations']} real-code evaluations, {len(failures)} failing; {time.time() - t0:.0f} s")
    for o, d in (refuted + undecided)[:8]:
        print("  not discharged:", o, d[:300].replace("\n", " "))
    for f in failures[:3]:
        print("  failing:", json.dumps(f["case"]), f["message"][:300])
    if orc.get("error"):
        print("  real-code evaluation did not run:", orc["error"][-600:])
    if os.path.exists(oout):
        os.remove(oout)
    for v in violations:
        print(v)
    if violations:
        sys.exit(1)
    if orc.get("error") and (undecided or not nob):
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
