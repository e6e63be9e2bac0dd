"""Developer tool: mutation analysis of the contracts.

python3-vt tools/mutate.py map  MAP.json                     which specs execute which function (baseline run)
python3-vt tools/mutate.py run  MAP.json OUT.jsonl [PATTERN]  mutate every function under contract, run its specs until one
                                                             refutes; OUT has one line per mutant
Works on a scratch copy of /repo/laplax; /repo itself is only read."""
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from vf import driver, loader  # noqa: E402

SRC = os.environ.get("VF_REPO", "/repo")


def functions(tree):
    out = []

    def go(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                nq = q + [c.name]
                if isinstance(c, ast.FunctionDef):
                    out.append((".".join(nq), c))
                    go(c, nq + ["<locals>"])
                else:
                    go(c, nq)
            else:
                go(c, q)
    go(tree, [])
    return out


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Pow: [ast.Mult],
       ast.MatMult: [], ast.Mod: [ast.Add]}
ATTR = {"sum": ["mean"], "mean": ["sum"], "max": ["min"], "min": ["max"], "argmax": ["argmin"], "argmin": ["argmax"], "sqrt": ["square"], "square": ["sqrt"],
        "exp": ["log"], "log": ["exp"], "vmap": [], "zeros_like": ["ones_like"], "ones_like": ["zeros_like"], "zeros": ["ones"], "ones": ["zeros"],
        "var": ["std"], "std": ["var"], "softmax": ["sigmoid"], "add": ["subtract"], "subtract": ["add"], "keys": [], "T": ["mT"], "floor": ["ceil"], "ceil": ["floor"],
        "isnan": ["isinf"], "isinf": ["isnan"], "less": ["greater"], "append": [], "logical_and": ["logical_or"], "logical_or": ["logical_and"]}


def mutations(fn):
    """-> [(description, function(copy of fn node) -> None)] on nodes addressed by walk position."""
    nodes = list(ast.walk(fn))
    inner = set()
    for n in nodes:
        if isinstance(n, ast.FunctionDef) and n is not fn:
            inner |= {id(x) for x in ast.walk(n) if x is not n}
    skip = set()
    for n in nodes:
        if isinstance(n, ast.arg) and n.annotation is not None:
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            skip |= {id(x) for x in ast.walk(n.returns)}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "cast":
            skip |= {id(x) for x in ast.walk(n.args[0])}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and "logger" in ast.unparse(n.value.func):
            skip |= {id(x) for x in ast.walk(n)}
    params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
    out = []
    for k, n in enumerate(nodes):
        if id(n) in skip or id(n) in inner:
            continue
        ln = getattr(n, "lineno", 0)

        def put(desc, f, k=k, ln=ln):
            out.append((f"L{ln} {desc}", k, f))
        if isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                put(f"{type(n.op).__name__}->{o.__name__}: {ast.unparse(n)[:60]}", lambda m, o=o: setattr(m, "op", o()))
            if isinstance(n.op, (ast.Sub, ast.Div, ast.MatMult)):
                def swap(m):
                    m.left, m.right = m.right, m.left
                put(f"swap operands: {ast.unparse(n)[:60]}", swap)
        if isinstance(n, ast.AugAssign):
            for o in BIN.get(type(n.op), []):
                put(f"aug {type(n.op).__name__}->{o.__name__}", lambda m, o=o: setattr(m, "op", o()))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(f"cmp: {ast.unparse(n)[:60]}", lambda m: m.ops.__setitem__(0, CMP[type(m.ops[0])]()))
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(f"const {n.value}", lambda m: setattr(m, "value", not m.value))
            elif isinstance(n.value, int):
                put(f"const {n.value}+1", lambda m: setattr(m, "value", m.value + 1))
                if n.value:
                    put(f"const {n.value}-1", lambda m: setattr(m, "value", m.value - 1))
            elif isinstance(n.value, float):
                put(f"const {n.value}*1.5", lambda m: setattr(m, "value", m.value * 1.5 + (m.value == 0)))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            def drop(m):
                v = m.operand
                m.__class__ = v.__class__
                m.__dict__ = v.__dict__
            put(f"drop {type(n.op).__name__}: {ast.unparse(n)[:50]}", drop)
        if isinstance(n, ast.BoolOp):
            put(f"boolop: {ast.unparse(n)[:60]}", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
        if isinstance(n, (ast.If, ast.IfExp)):
            put(f"negate if: {ast.unparse(n.test)[:60]}", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)))
        if isinstance(n, ast.Call):
            for j, kw in enumerate(n.keywords):
                if kw.arg is not None:
                    put(f"drop kw {kw.arg}: {ast.unparse(n)[:60]}", lambda m, j=j: m.keywords.pop(j))
                else:
                    put(f"drop ** {ast.unparse(n)[:60]}", lambda m, j=j: m.keywords.pop(j))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                def sw(m):
                    m.args[0], m.args[1] = m.args[1], m.args[0]
                put(f"swap args: {ast.unparse(n)[:60]}", sw)
            if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
                def un(m):
                    v = m.args[0]
                    m.__class__ = v.__class__
                    m.__dict__ = v.__dict__
                put(f"unwrap call: {ast.unparse(n)[:60]}", un)
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                def un2(m):
                    v = m.func.value
                    m.__class__ = v.__class__
                    m.__dict__ = v.__dict__
                put(f"unwrap method: {ast.unparse(n)[:60]}", un2)
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for o in ATTR.get(n.attr, []):
                put(f"attr {n.attr}->{o}: {ast.unparse(n)[:50]}", lambda m, o=o: setattr(m, "attr", o))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in params:
            others = [p for p in params if p != n.id]
            if others:
                o = others[(k * 7) % len(others)]
                put(f"name {n.id}->{o}", lambda m, o=o: setattr(m, "id", o))
        if isinstance(n, ast.Slice):
            put(f"slice: {ast.unparse(n)[:40]}", lambda m: (setattr(m, "lower", None), setattr(m, "upper", None), setattr(m, "step", None)))
        if isinstance(n, ast.Dict) and len(n.keys) >= 2:
            for j in range(len(n.keys)):
                def dd(m, j=j):
                    m.keys.pop(j)
                    m.values.pop(j)
                put(f"drop dict entry {j}: {ast.unparse(n)[:50]}", dd)
        if isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.With, ast.Try)):
            for field in ("body", "orelse", "finalbody"):
                body = getattr(n, field, None) or []
                for j, s in enumerate(body):
                    if isinstance(s, (ast.Expr, ast.AugAssign, ast.If, ast.Assign, ast.For)) and id(s) not in skip and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        put(f"delete: {ast.unparse(s)[:60]!r}", lambda m, field=field, j=j: getattr(m, field).__setitem__(j, ast.Pass()))
    return out


def build_map(path):
    driver.load_specs()
    jobs = [(p, s.name, 240) for p in driver.SPECS for s in driver.SPECS[p]]
    with mp.get_context("fork").Pool(7, maxtasksperchild=1) as pool:
        rs = pool.map(driver._work, jobs, chunksize=1)
    m = {}
    for r in rs:
        for e in r["executed"]:
            m.setdefault(e, []).append((r["time_s"], r["prop"], r["spec"]))
    for e in m:
        m[e].sort()
    json.dump(m, open(path, "w"), indent=0)
    print(len(m), "functions")


def one(job):
    file, fq, desc, k, idx, specs, budget = job
    d = tempfile.mkdtemp(prefix="vfmut")
    try:
        shutil.copytree(os.path.join(SRC, "laplax"), os.path.join(d, "laplax"))
        p = os.path.join(d, file)
        tree = ast.parse(open(p).read())
        fn = dict(functions(tree))[fq]
        ms = mutations(fn)
        node = list(ast.walk(fn))[k]
        ms[idx][2](node)
        ast.fix_missing_locations(tree)
        open(p, "w").write(ast.unparse(tree))
        loader.REPO = d
        used, und, first = 0.0, [], None
        for t, prop, sp in specs:
            if used > budget:
                break
            r = driver._work((prop, sp, 60))
            used += r["time_s"]
            bad = [(o, x["detail"][:160]) for o, x in r["obligations"].items() if x["status"] == "refuted"]
            if bad:
                return {"file": file, "fn": fq, "m": desc, "r": "killed", "by": f"{prop} {sp}", "ob": bad[0]}
            u = r["unsupported"] or [o for o, x in r["obligations"].items() if x["status"] != "discharged"]
            if u:
                und.append([prop, sp, str(u[0])[:200]])
        return {"file": file, "fn": fq, "m": desc, "r": "undecided" if und else "survived", "und": und[:5], "specs": [f"{a} {b}" for _, a, b in specs][:4]}
    except BaseException as e:   # noqa: BLE001
        return {"file": file, "fn": fq, "m": desc, "r": "error", "e": f"{type(e).__name__} {e}"}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == "map":
        return build_map(sys.argv[2])
    m = json.load(open(sys.argv[2]))
    driver.load_specs()
    pat = sys.argv[4] if len(sys.argv) > 4 else ""
    jobs = []
    want = sys.argv[5] if len(sys.argv) > 5 else ""
    for file in sorted({e.split(":")[0] for e in m}):
        tree = ast.parse(open(os.path.join(SRC, file)).read())
        for fq, fn in functions(tree):
            specs = m.get(f"{file}:{fq}")
            if specs:
                short = "laplax." + file[7:-3].replace("/", ".") + "." + fq.split(".<locals>")[0]
                names = lambda p, n: any(short in x.functions for x in driver.SPECS[p] if x.name == n)
                specs = sorted(specs, key=lambda s: (not names(s[1], s[2]), s[0]))
            if not specs or pat not in f"{file}:{fq}":
                continue
            for idx, (desc, k, _) in enumerate(mutations(fn)):
                if want in desc:
                    jobs.append((file, fq, desc, k, idx, specs, 90 if not want else 2000))
    random.Random(1).shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    procs = int(os.environ.get("PROCS", "7"))
    cnt = {}
    with open(sys.argv[3], "w") as out, mp.get_context("fork").Pool(procs, maxtasksperchild=1) as pool:
        for q, r in enumerate(pool.imap_unordered(one, jobs, chunksize=1)):
            out.write(json.dumps(r) + "\n")
            out.flush()
            cnt[r["r"]] = cnt.get(r["r"], 0) + 1
            if q % 50 == 0:
                print(q, cnt, flush=True)
    print(cnt)


if __name__ == "__main__":
    main()
