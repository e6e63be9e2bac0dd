"""Concrete evaluation of a property on the real code (real JAX).

usage: run.py PROP SEED SECONDS OUT.json [CASE.json]
Runs the property's cases (the module's fixed ones first, then random ones) until the time is used up.
Used to replay refuted obligations on the real code, and as the bounded stand-in where an obligation
is out of the verifier's reach."""
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("WANDB_MODE", "offline")
os.environ.setdefault("TQDM_DISABLE", "1")
import jax  # noqa: E402

jax.config.update("jax_enable_x64", True)
try:
    from loguru import logger
    logger.remove()
except Exception:
    pass


def one(mod, case):
    """-> None or a message."""
    jax.config.update("jax_enable_x64", bool(case.get("x64", True)))
    try:
        with jax.disable_jit(False):
            mod.check(case)
        return None
    except mod.Skip:
        return None
    except AssertionError as e:
        return f"{e}" or "assertion failed"
    except Exception as e:  # an unexpected exception of the code under test
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(os.path.realpath(REPO) + os.sep + "laplax") for f in tb):
            at = [f"{os.path.relpath(f.filename, os.path.realpath(REPO))}:{f.lineno}" for f in tb if "/laplax/" in f.filename][-2:]
            return f"unexpected {type(e).__name__}: {str(e)[:300]} at {at}"
        raise


def main():
    prop, seed, secs, out = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), sys.argv[4]
    mod = importlib.import_module("oracles." + prop.lower())
    import laplax
    assert os.path.realpath(laplax.__file__).startswith(os.path.realpath(REPO)), laplax.__file__
    res = {"property": prop, "evaluations": 0, "failures": [], "samples": [], "kinds": {}}
    if len(sys.argv) > 5:
        case = json.load(open(sys.argv[5]))
        case = case.get("case", case)
        m = one(mod, case)
        print("FAILS:" if m else "passes", m or "")
        sys.exit(1 if m else 0)
    t0 = time.time()
    rng = random.Random(seed)
    seen = set()

    def stop():
        return time.time() - t0 > secs

    def run(case):
        key = json.dumps(case, sort_keys=True)
        if key in seen:
            return
        seen.add(key)
        m = one(mod, case)
        res["evaluations"] += 1
        k = case.get("kind", "")
        res["kinds"][k] = res["kinds"].get(k, 0) + 1
        if len(res["samples"]) < 6:
            res["samples"].append(case)
        if m and len(res["failures"]) < 20:
            res["failures"].append({"case": case, "message": m})
    for case in mod.FIXED:
        run(case)
        if time.time() - t0 > 3 * secs + 60:
            break
    n = 0
    while not stop() and n < 4000 and len(res["failures"]) < 8:
        run(mod.random_case(rng))
        n += 1
    res["distinct"] = len(seen)
    res["wall_s"] = round(time.time() - t0, 2)
    json.dump(res, open(out, "w"))


if __name__ == "__main__":
    main()
