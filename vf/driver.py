"""Running contracts: path exploration, obligation bookkeeping."""
import importlib
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback
from . import term as T, core as C, numeric, smt, shims, loader, prove
from .term import R, Unsupported
from .core import E, PathEnd, SymArray, SymNum, SymList, SymTree, Block, SymBool, as_cond
from .loops import Retry, obj_terms

SPECS = {}       # property -> list[Spec]


class Spec:
    def __init__(self, prop, fn, functions, ensures, note=""):
        self.prop, self.fn, self.functions, self.ensures, self.note = prop, fn, functions, ensures, note
        self.name = fn.__name__


def spec(prop, functions=(), ensures="", note=""):
    """Register a contract harness. `functions`: the functions of /repo it specifies."""
    def deco(fn):
        props = prop if isinstance(prop, (list, tuple)) else [prop]
        for p in props:
            SPECS.setdefault(p, []).append(Spec(p, fn, list(functions), ensures or (fn.__doc__ or "").strip(), note))
        return fn
    return deco


def _placeholders(objs):
    """Whether terms of the objects or of the path condition mention the unknown state of a cut loop."""
    pat = re.compile(r"\bph(len)?\d+\.\d+")
    if any(pat.search(c.key) for c in R.pc):
        return True
    for o in objs:
        try:
            if any(pat.search(p.key) for p in ([T.iv(o)] if isinstance(o, T.Cond) else obj_terms(o))):
                return True
        except Unsupported:
            return True
    return False


def reachable():
    """Whether the path condition has a model (None: unknown, e.g. the solver gave up under load)."""
    r = smt.satisfiable()
    if r is None:
        try:
            for _ in numeric.instances(1, tries=100):
                return True
        except Unsupported:
            pass
    return r


def confirm(r):
    """A refutation found without a concrete instance counts only on a path known to be reachable."""
    if r.status != "refuted" or r.backend == "evaluation":
        return r
    ok = reachable()
    if ok is True:
        return r
    if ok is False:
        return prove.Result("discharged", "", "z3 (path unreachable)")
    return prove.Result("undecided", "on a path not known to be reachable: " + r.detail, r.backend)


class Ctx:
    """What a harness sees."""

    def __init__(self, out, config=None):
        self.out = out
        self.cfg = shims.Config()
        self.extra = {}
        self.shims = shims.make(self.cfg, self.extra)
        self.P = loader.Program(self.shims)
        self.jnp, self.jax = self.shims["jax.numpy"], self.shims["jax"]

    # -- program access
    def __getitem__(self, dotted):
        return self.P["laplax." + dotted]

    def mod(self, name):
        return self.P.load("laplax." + name)

    # -- obligations
    def _add(self, name, r, *objs):
        if r.status == "refuted" and _placeholders(objs):
            # part of the state of an arbitrary loop iteration is unknown: a counter-model of it need not be reachable
            r = prove.Result("undecided", "counter-model in an unknown loop state: " + r.detail, r.backend)
        r = confirm(r)
        self.out.append((name, r.status, r.detail, r.backend, list(E.decisions)))
        return r

    def eq(self, name, a, b):
        t = time.time()
        return self._add(name, prove.prove_eq(a, b), a, b)

    def true(self, name, c, detail=""):
        if isinstance(c, bool):
            return self._add(name, prove.Result("discharged" if c else "refuted", detail, "evaluation of the path"))
        return self._add(name, prove.prove_cond(as_cond(c)), as_cond(c))

    def same(self, name, a, b):
        return self._add(name, prove.Result("discharged" if a is b else "refuted", f"{a!r:.80} is not {b!r:.80}", "identity"))

    def raises(self, name, exc, fn):
        try:
            r = fn()
        except exc:
            return self._add(name, prove.Result("discharged", "", "evaluation of the path"))
        except Exception as e:
            return self._add(name, prove.Result("refuted", f"raised {type(e).__name__}: {e} instead of {exc}", "path"))
        return self._add(name, prove.Result("refuted", f"no exception; returned {type(r).__name__}", "path"))

    def assume(self, c):
        E.assume(as_cond(c))

    # -- symbolic inputs
    def size(self, name, lo=1, hi=None):
        if name in E.pins:
            return T.const(E.pins[name])
        E.pinnable.add(name)
        return T.ivar(name, lo, hi)

    def int(self, name, lo=0, hi=None):
        return C.mknum(self.size(name, lo, hi))

    def real(self, name, pos=False, nonneg=False):
        return SymNum(T.rvar(name, pos, nonneg), True)

    def arr(self, name, dims, dtype=C.FLOAT, pos=False, sort=None):
        if pos:
            R.pos.add(name)
        s = sort or ("i" if dtype.kind in "ib" else "r")
        if dtype.kind == "b":
            return SymArray.make(dims, lambda *i: T.iv(T.capp(name, *i)), dtype)
        return SymArray.make(dims, lambda *i: T.app(name, *i, sort=s), dtype)

    def treedef(self, name="TD", nleaves=None):
        n = self.size("n_" + name) if nleaves is None else nleaves
        return C.TreeDefS(name, n)

    def leafsize(self, td, l):
        f = "sz_" + td.name
        R.nonneg.add(f)
        return T.app(f, l, sort="i")

    def leafblock(self, td, l):
        return Block("S_" + td.name, [l], self.leafsize(td, l))

    def tree(self, name, td, lead=(), trail=(), pos=False):
        """Tree of structure td, leaf l of shape lead + S(l) + trail."""
        if pos:
            R.pos.add(name)
        return SymTree.make(td, lambda l: SymArray.make(
            list(lead) + [self.leafblock(td, l)] + list(trail), lambda *i: T.app(name, l, *i)))

    def treesize(self, td):
        return T.bigsum(td.n, lambda l: self.leafsize(td, l))

    def flat(self, td, tree):
        """Specification of flattening: position p is entry p - off(l) of leaf l, l the leaf containing p."""
        L = T.lam([td.n], lambda l: self.leafsize(td, l))

        def el(p):
            l = C.find(L, p)
            return tree.at(l).el(p - C.offset(L, l))
        return SymArray.make((self.treesize(td),), el)

    def index(self, name, n):
        return T.ivar(name, 0, n)

    def lams(self, *xs):
        """The entries of arrays / trees as functional arguments, one per leaf (one per abstract subtree)."""
        out = []
        for x in xs:
            if isinstance(x, SymTree):
                l = T.fresh_var("i", "l")
                R.range[l.name] = (T.ZERO, x.td.n)
                leaf = C.to_arr(x.at(T.pvar(l)))
                ds = [C.dim_size(d) for d in leaf.dims]
                us = [T.fresh_var("i", "u") for _ in ds]
                with T.binder_facts(list(zip(us, ds))):
                    body = leaf.el(*[T.pvar(u) for u in us])
                out.append(T.Lam([l] + us, [x.td.n] + ds, body))
                continue
            ch = C.children_of(x)
            if ch is not None:
                for c in ch[2]:
                    out += self.lams(c)
                continue
            a = C.to_arr(x)
            out.append(T.lam([C.dim_size(d) for d in a.dims], lambda *i: a.el(*i)))
        return out

    def spd(self, name, n):
        """An arbitrary symmetric positive definite matrix."""
        shims.spd(name, n)
        return self.arr(name, (n, n))

    def any_of(self, name, *proofs):
        """One of several sufficient proofs of the same statement."""
        rs = []
        for g in proofs:
            r = g()
            if r.status == "discharged":
                return self._add(name, r)
            rs.append(r)
        return self._add(name, next((r for r in rs if r.status == "refuted"), rs[0]))

    def orthonormal(self, name, n, r):
        """An arbitrary n x r matrix with orthonormal columns (r <= n)."""
        E.assume(T.le(T.as_poly(r), T.as_poly(n)))
        shims.orthonormal(name, n, r)
        return self.arr(name, (n, r))

    def fn(self, name, out_dims, dtype=C.FLOAT):
        """An arbitrary smooth function of arrays and trees: F(x1, x2, ...)[idx]."""
        def f(*xs):
            ls = self.lams(*xs)
            return SymArray.make(out_dims, lambda *i: T.fapp(name, i, ls), dtype)
        return f


_mon = {"codes": set()}


def _track(on):
    """Record which functions of /repo were executed."""
    m = sys.monitoring
    if on:
        try:
            m.use_tool_id(4, "vf")
        except ValueError:
            pass
        root = os.path.realpath(loader.REPO) + os.sep

        def start(code, off):
            if code.co_filename.startswith(root):
                _mon["codes"].add((os.path.relpath(code.co_filename, root), code.co_qualname))
            return m.DISABLE
        m.register_callback(4, m.events.PY_START, start)
        m.set_events(4, m.events.PY_START)
        m.restart_events()
    else:
        m.set_events(4, 0)
        try:
            m.free_tool_id(4)
        except Exception:
            pass


def run_spec(sp, limit=240):
    """-> dict with obligations and bookkeeping."""
    t0 = time.time()
    res = {"spec": sp.name, "prop": sp.prop, "functions": sp.functions, "ensures": sp.ensures,
           "obligations": {}, "paths": 0, "unsupported": [], "assumptions": set(), "executed": set()}
    loader.Program.code_cache = {}
    prove.PRECISE[0] = 60
    pending = [[]]
    E.loop_hints = {}
    E.loop_plans = {}
    smt.STATS.update(queries=0, z3_s=0.0, cache=0, unknown=0)
    _mon["codes"] = set()
    _track(True)

    def timeout(*a):
        raise Unsupported(f"time limit of {limit} s")
    signal.signal(signal.SIGALRM, timeout)
    signal.setitimer(signal.ITIMER_REAL, int(limit), 5)   # repeated: an exception inside __del__ is swallowed
    stop = False
    try:
        while pending and not stop:
            prefix = pending.pop()
            pins = {}
            if isinstance(prefix, tuple):
                pins, prefix = prefix[1], list(prefix[2]) if len(prefix) > 2 else []
            for attempt in range(6):
                T.R.reset()
                shims.install_rules()
                shims.CUMS.clear()
                C.REGISTERED.clear()
                E.prefix, E.decisions, E.pending = list(prefix), [], []
                E.pins, E.pinnable = dict(pins), set()
                E.generic, E.traced, E.effects = set(), set(), []
                E.assumptions = res["assumptions"]
                E.loop_plans, E.loop_count, E.loop_policy = {}, {}, None
                out = []
                retry = False
                try:
                    sp.fn(Ctx(out))
                except PathEnd:
                    pass
                except Retry:
                    retry = True
                except Unsupported as e:
                    tb = traceback.extract_tb(e.__traceback__)
                    at = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb if "/laplax/" in f.filename][-2:]
                    res["unsupported"].append(f"{e} {at}")
                    stop = stop or "time limit" in str(e)
                except RecursionError as e:
                    res["unsupported"].append("recursion limit")
                except Exception as e:
                    tb = traceback.extract_tb(e.__traceback__)
                    inrepo = [f for f in tb if "/laplax/" in f.filename]
                    at = [f"{os.path.relpath(f.filename, loader.REPO)}:{f.lineno} in {f.name}" for f in inrepo][-3:]
                    pc = "; ".join(c.key for c in R.pc)[:300]
                    if inrepo and engine_error(e, tb):
                        res["unsupported"].append(f"{type(e).__name__}: {str(e)[:200]} at {at}")
                    elif inrepo:
                        r = confirm(prove.Result("refuted", f"{type(e).__name__}: {str(e)[:300]} at {at} on path [{pc}]", "path"))
                        out.append(("no-unexpected-exception", r.status, r.detail, r.backend, list(E.decisions)))
                    else:
                        res["unsupported"].append(f"harness error {type(e).__name__}: {e} {[f'{f.filename}:{f.lineno}' for f in tb[-3:]]}")
                if not retry:
                    break
            else:
                res["unsupported"].append("loop hints did not converge")
            if "--trace" in sys.argv:
                print(sp.name, E.decisions, [(o[0], o[1]) for o in out], res["unsupported"][-1:], file=sys.stderr)
            pending += [x if isinstance(x, tuple) else (("pin", pins, x) if pins else x) for x in E.pending]
            res["paths"] += 1
            for name, st, detail, be, dec in out:
                ob = res["obligations"].setdefault(name, {"status": "discharged", "n": 0, "backend": set(), "detail": ""})
                ob["n"] += 1
                if be:
                    ob["backend"].add(be)
                rank = {"discharged": 0, "undecided": 1, "refuted": 2}
                if rank[st] > rank[ob["status"]]:
                    ob["status"], ob["detail"] = st, f"path {dec}: {detail}"
            if res["paths"] > 400:
                res["unsupported"].append("more than 400 paths")
                break
    except Unsupported as e:
        res["unsupported"].append(str(e))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        _track(False)
    if not res["obligations"] and not res["unsupported"]:
        res["unsupported"].append("no obligation was generated (vacuous)")
    res["executed"] = sorted(f"{a}:{b}" for a, b in _mon["codes"] if not b.startswith("<module>"))
    res["z3_queries"] = smt.STATS["queries"]
    res["z3_s"] = round(smt.STATS["z3_s"], 2)
    res["time_s"] = round(time.time() - t0, 2)
    res["assumptions"] = sorted(res["assumptions"])
    for ob in res["obligations"].values():
        ob["backend"] = sorted(ob["backend"])
    return res


def engine_error(e, tb):
    """Whether an exception in the code under test may come from the symbolic values standing in for the real ones (an
    operation or a signature the engine does not know) rather than from the code itself."""
    if not isinstance(e, (TypeError, AttributeError, KeyError, IndexError, NotImplementedError)):
        return False
    last = tb[-1]
    if (last.line or "").lstrip().startswith("raise ") and "/laplax/" in last.filename:
        return False
    msg = str(e)
    if re.search(r"NoneType|function|not callable|has no attribute|'?Sym(Num|Bool)'? object is not (iterable|subscriptable)", msg):
        return False
    if any(re.search(rf"\b{c}\b", msg) for c in VF_CLASSES) or "Sym<" in msg:
        return True
    m = re.search(r"([\w.<>]+)\(\) (?:got |takes |missing )", msg)
    return bool(m) and m.group(1).split(".")[-1] in defined("vf") - defined("contracts") - defined("laplax")


def defined(which):
    """Names of the functions defined in the engine, the contracts or the code under test."""
    base = loader.REPO if which == "laplax" else os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    out = set()
    for d, _, fs in os.walk(os.path.join(base, which)):
        for f in fs:
            if f.endswith(".py"):
                out |= set(re.findall(r"def (\w+)", open(os.path.join(d, f)).read()))
    return out


VF_CLASSES = sorted({n for m in (C, shims, loader) for n, o in vars(m).items() if isinstance(o, type) and o.__module__.startswith("vf")}
                    | {"SymSeq", "PhList", "Poison", "GList", "Val"})


def _work(a):
    prop, name, limit = a[:3]
    if len(a) > 3 and a[3] is not None:      # wall-clock deadline of the whole run
        limit = int(min(limit, max(2, a[3] - time.time())))
    sys.setrecursionlimit(20000)
    for s in SPECS[prop]:
        if s.name == name:
            try:
                return run_spec(s, limit)
            except BaseException as e:       # noqa: BLE001
                return {"spec": name, "prop": prop, "functions": s.functions, "ensures": s.ensures, "obligations": {}, "paths": 0,
                        "unsupported": [f"engine error {type(e).__name__}: {e} {traceback.format_exc()[-600:]}"], "assumptions": [],
                        "executed": [], "z3_queries": 0, "z3_s": 0, "time_s": 0}


def load_specs():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    sys.path.insert(0, os.path.dirname(d))
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("contracts." + f[:-3])


def run_property(prop, limit=240, only=None, procs=8, budget=None):
    names = [s.name for s in SPECS.get(prop, []) if only is None or s.name in only]
    end = time.time() + budget if budget else None
    jobs = [(prop, n, limit, end) for n in names]
    if not jobs:
        return []
    if procs == 1 or len(jobs) == 1:
        return [_work(j) for j in jobs]
    ctx = mp.get_context("fork")
    with ctx.Pool(min(procs, len(jobs)), maxtasksperchild=1) as pool:
        return pool.map(_work, jobs, chunksize=1)


if __name__ == "__main__":
    pass
