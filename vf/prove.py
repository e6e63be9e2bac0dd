"""Discharging obligations.  discharged: accepted by the normaliser and/or z3.
refuted: a concrete counter-model of the terms was found.  undecided: neither."""
import itertools
import re
import time
from . import term as T, smt, numeric
from .term import R, Poly, Cond
from .core import E, SymArray, SymNum, SymBool, SymTree, SymList, Unsupported, Block, as_cond, scalar_poly, dim_size, \
    children_of, SymBoolish, ShapeT, to_arr


class Result:
    def __init__(self, status, detail="", backend=""):
        self.status, self.detail, self.backend = status, detail, backend

    def __repr__(self):
        return f"{self.status}({self.backend}) {self.detail[:400]}"


OK = "discharged"
NO = "refuted"
UNK = "undecided"


def _pa_denominators(p):
    out = {}
    for m in p.terms:
        bn = {v.name for v, _ in m.binders}
        for a, e in m.factors:
            if e < 0 and a.fv.isdisjoint(bn):
                if a.key not in out or out[a.key][1] > e:
                    out[a.key] = (a, e)
    return list(out.values())


def clear_denominators(p):
    """p * common binder-free denominators (assumed non-zero): same zeros."""
    for _ in range(6):
        ds = [(a, e) for a, e in _pa_denominators(p) if isinstance(a, (T.PA, T.App, T.Var, T.FApp))]
        ds = [(a, e) for a, e in ds if e.denominator == 1]
        if not ds:
            return p
        for a, e in ds:
            f = T.PONE
            base = a.p if isinstance(a, T.PA) else T.patom(a)
            # multiply every monomial by base^(-e): cancel where present
            out = []
            for m, c in p.terms.items():
                k = sum((x for b, x in m.factors if b.key == a.key), T.Fraction(0))
                need = -e + (k if True else 0)
                fs = tuple((b, x) for b, x in m.factors if b.key != a.key)
                mm = T.reclose(T.Mono(m.binders, fs)).scale(c)
                if need.denominator != 1 or need < 0:
                    return p
                out.append(mm * T.ppow(base, need))
            p = T.psum(out)
        if len(p.terms) > 4000:
            return p
    return p


def group_bound_rational(p):
    """Sums whose summands are rational functions: compare numerators under the same binder.

    Monomials with equal binders and equal tensor core (factors that are not PA with negative
    exponents / atoms of rational dependence) are gathered and put over a common denominator."""
    groups = {}
    rest = []
    for m, c in p.terms.items():
        if not m.binders:
            rest.append(Poly({m: c}))
            continue
        bk = ";".join(f"{v.name}<{n.key}" for v, n in m.binders)
        groups.setdefault(bk, []).append((m, c))
    out = list(rest)
    for bk, ms in groups.items():
        if len(ms) < 2:
            out += [Poly({m: c}) for m, c in ms]
            continue
        bs, _, r = T.open_mono(ms[0][0])
        for v, n in bs:
            R.range[v.name] = (T.ZERO, n)
        try:
            body = []
            for m, c in ms:
                q = T.Poly({T.Mono((), m.factors): T.ONE}).subst({v.name: T.pvar(u) for (v, _), (u, _n) in zip(m.binders, bs)})
                body.append(q.scale(c))
            b = T.psum(body)
            den = {}
            for m in b.terms:
                for a, e in m.factors:
                    if e < 0 and e.denominator == 1 and not isinstance(a, T.Iv):
                        if a.key not in den or den[a.key][1] > e:
                            den[a.key] = (a, e)
            cleared = clear_denominators(b) if den else b
            if cleared.is_zero():
                continue
            out.append(T.sum_poly(bs, b))
        finally:
            for v, n in bs:
                R.range.pop(v.name, None)
    return T.psum(out)


def free_ivs(p):
    """Iverson atoms without bound variables, outermost first: [(level, key)] -> atom."""
    out = {}

    def add(x, lvl):
        if "[" not in x.key:
            return
        if isinstance(x, Poly):
            for m in x.terms:
                for v, n in m.binders:
                    add(n, lvl + 1)
                for a, _ in m.factors:
                    add(a, lvl)
        elif isinstance(x, T.Iv):
            if not any(nm.startswith("<%") for nm in x.fv):
                k = (lvl, x.key)
                if not any(kk[1] == x.key and kk[0] <= lvl for kk in out):
                    out[k] = x
            add(x.cond, lvl + 1)
        elif isinstance(x, Cond):
            if x.p is not None:
                add(x.p, lvl)
            for a in x.args:
                if isinstance(a, (Poly, T.Lam, Cond)):
                    add(a, lvl)
        elif isinstance(x, T.PA):
            add(x.p, lvl)
        elif isinstance(x, T.App):
            for a in x.args:
                if isinstance(a, (Poly, T.Lam, Cond)):
                    add(a, lvl + 1)
        elif isinstance(x, T.FApp):
            for a in list(x.idx) + list(x.lams) + [y for _, t in x.dv for y in t]:
                add(a, lvl + 1)
        elif isinstance(x, T.Lam):
            add(x.body, lvl + 1)
            for r in x.ranges:
                add(r, lvl + 1)
    add(p, 0)
    return out


def subst_pc_eqs(p):
    """Apply integer/real equalities v == e of the path condition."""
    for _ in range(3):
        ch = False
        for c in R.pc:
            if c.op != "eq":
                continue
            for nm in sorted(c.fv & p.fv, reverse=True):
                e = T.lin_solve(c.p, nm)
                if e is None or nm in e.fv:
                    continue
                if e.fv and any(x > nm for x in e.fv) and T._vars.get(nm) is not None and T._vars[nm].sort == "i":
                    continue
                p2 = p.subst({nm: e})
                if p2.key != p.key:
                    p, ch = p2, True
                    break
        if not ch:
            return p
    return p


def pinned_apps(p):
    """Replace integer applications whose value the path condition fixes (atom <= c with atom >= c, or atom = c)."""
    for c in list(R.pc):
        if c.op not in ("le", "eq") or len([m for m in c.p.terms if m.key]) != 1:
            continue
        m = [m for m in c.p.terms if m.key][0]
        if m.binders or len(m.factors) != 1 or m.factors[0][1] != 1:
            continue
        a = m.factors[0][0]
        if not isinstance(a, T.App) or a.sort != "i" or a.key not in p.key:
            continue
        val = -c.p.terms.get(T.UNIT, T.Fraction(0)) / c.p.terms[m]
        if val.denominator != 1:
            continue
        if c.op == "le" and T.decide(T.eq(T.patom(a), T.const(int(val)))) is not True:
            continue

        def rule(*args, a=a, val=val):
            q = T.app(a.f, *args, sort=a.sort)
            one = T.single(q)
            return T.const(int(val)) if one is not None and one.key == a.key else q
        p = T.replace(p, {a.f: rule})
    return p


def algebra_zero(p, depth=0):
    """True if p normalises to 0 (sound); else the simplified p."""
    p = T.rebuild(p) if depth == 0 and p.terms else p
    if p.is_zero():
        return True, p, "normaliser"
    p = subst_pc_eqs(p)
    if R.pc and p.terms:
        p = pinned_apps(p)
    if p.is_zero():
        return True, p, "normaliser"
    f = T.fold(p)
    if f.is_zero():
        return True, f, "normaliser(telescoping)"
    q = clear_denominators(p)
    if q.is_zero():
        return True, q, "normaliser(denominators cleared)"
    f = T.fold(q)
    if f.is_zero():
        return True, f, "normaliser(denominators cleared, telescoping)"
    f = T.shift_canon(q)
    if f.is_zero():
        return True, f, "normaliser(index shifts)"
    q = group_bound_rational(q)
    if q.is_zero():
        return True, q, "normaliser(summand-wise rational)"
    q2 = clear_denominators(q)
    if q2.is_zero():
        return True, q2, "normaliser(denominators cleared)"
    return False, q2, ""


def prove_zero(p):
    r = _prove_zero(p)
    if r.status == UNK and p.terms:
        r2 = _prove_zero(p, inner=True)
        if r2.status != UNK:
            return r2
    return r


def _prove_zero(p, depth=0, budget=None, inner=False):
    if budget is None:
        budget = [64]
    if not p.terms:
        return Result(OK, "", "normaliser")
    ok, q, be = algebra_zero(p, depth)
    if ok:
        return Result(OK, "", be)
    # case split on binder-free conditions
    ivs = free_ivs(q)
    if ivs and depth < 8 and budget[0] > 0:
        a = ivs[min(ivs, key=lambda k: ((-k[0],) if inner else ()) + (len(k[1]), k))]
        allok = True
        saved = list(R.pc)
        try:
            for c in (a.cond, T.cnot(a.cond)):
                R.pc = saved        # (each half is judged under the original path condition)
                R.bump()
                if T.decide(c) is False:
                    continue
                R.pc = saved + (list(c.args) if c.op == "and" else [c])
                R.bump()
                budget[0] -= 1
                if not smt.feasible():
                    continue
                r = _prove_zero(T.rebuild(q), depth + 1, budget, inner)
                if r.status != OK:
                    allok = False
                    if r.status == NO:
                        return r
                    break
        finally:
            R.pc = saved
            R.bump()
        if allok:
            return Result(OK, "", "case split + normaliser")
    # z3 on the whole equation (nonlinear arithmetic over atoms)
    if T.decide(Cond("eq", q)) is True:
        return Result(OK, "", "z3")
    return numeric_eq(p, q)


def numeric_eq(p, q=None, n=8):
    good = 0
    for ev in itertools.chain(list_instances(n), large_instances(p), precise_instances()):
        try:
            v = ev.poly(p, {})
            scale = 0 if ev.precise else 1.0
            for m, c in p.terms.items():
                scale = max(scale, abs(ev.F(ev.mono(m, {})) * ev.F(c.numerator) / ev.F(c.denominator)))
        except (numeric.Undef, OverflowError, ZeroDivisionError, RecursionError):
            continue
        if abs(v) > (1e-10 if ev.precise else 1e-7) * scale:
            return Result(NO, f"difference = {float(v):.6g} at {show_env(ev)}; residual term {short((q or p).key)}", "evaluation")
        good += 1
    return Result(UNK, f"no counter-model in {good} instances; residual {short((q or p).key)}", "")


def show_env(ev):
    return {k: (float(f"{float(x):.5g}") if not isinstance(x, int) else x) for k, x in sorted(ev.env.items())}


def precise_instances(n=6, seconds=8):
    """Instances evaluated in 60 digits, with inputs of very different magnitudes."""
    start = time.time()
    if PRECISE[0] <= 0:
        return
    try:
        for ev in numeric.instances(n, tries=40, precise=True):
            yield ev
            if time.time() > start + seconds:
                return
    finally:
        PRECISE[0] -= time.time() - start


PRECISE = [60]     # seconds of precise evaluation left for this specification


def large_instances(p, many=1):
    """Instances in which an index is at a literal that the term mentions."""
    big = sorted({int(x) for x in re.findall(r"(?<![\w<%/.·-])\d+(?![\w>/])|(?<=-)\d+(?![\w>/])", p.key) if int(x) > 4 and len(x) < 10}, reverse=True)
    if not big or not R.pc and not p.fv:
        return
    names = sorted(x for x in p.fv if x in T._vars and T._vars[x].sort == "i" and x in R.range)
    for c in [x + d for x in big[:3] for d in (0, 1)]:
        for nm in names[:4]:
            for rest in ((), [x for x in names if x != nm]) if len(names) > 1 else ((),):
                fix = numeric.z3_fix(at=(nm, c), rest=rest)
                if fix is None:
                    continue
                yield from numeric.instances(many, tries=4 * many, seed0=7, fix=fix)


def list_instances(n):
    got = 0
    for ev in numeric.instances(n, tries=200):
        got += 1
        yield ev
    if got < 2:
        for k in range(8):
            fix = numeric.z3_fix(seed=k)
            if fix is None:
                return
            for ev in numeric.instances(2, tries=40, seed0=1000 * k, fix=fix):
                got += 1
                yield ev


def short(s, n=600):
    return s if len(s) <= n else s[:n] + "..."


def prove_cond(c):
    t = T.decide(c)
    if t is True:
        return Result(OK, "", "z3")
    if t is False:
        return Result(NO, f"condition {short(c.key)} is false on this path", "z3")
    if c.op == "and":
        worst = Result(OK, "", "z3")
        for a in c.args:
            r = prove_cond(a)
            if r.status == NO:
                return r
            if r.status != OK:
                worst = r
        return worst
    if c.op == "eq":
        return prove_zero(c.p)
    for ev in itertools.chain(list_instances(10), large_instances(c, 4), precise_instances()):
        try:
            if not ev.cond(c, {}):
                return Result(NO, f"condition {short(c.key)} fails at {show_env(ev)}", "evaluation")
        except (numeric.Undef, OverflowError, ZeroDivisionError, RecursionError):
            continue
    return Result(UNK, f"condition {short(c.key)}", "")


def prove_eq(a, b):
    """Equality of two symbolic values (numbers, arrays, trees, lists, containers)."""
    if isinstance(a, (SymArray,)) or isinstance(b, SymArray):
        try:
            a, b = to_arr(a), to_arr(b)
        except TypeError as e:
            return Result(NO, f"kinds differ: {type(a).__name__} / {type(b).__name__}", "structure")
        if len(a.dims) != len(b.dims):
            return Result(NO, f"ranks differ: {list(a.dims)} vs {list(b.dims)}", "structure")
        for x, y in zip(a.dims, b.dims):
            if isinstance(x, Block) or isinstance(y, Block):
                if not (isinstance(x, Block) and isinstance(y, Block) and x.name == y.name):
                    return Result(NO, f"shapes differ: {x} vs {y}", "structure")
                for u, w in zip(x.args, y.args):
                    r = prove_zero(u - w)
                    if r.status != OK:
                        return r
            else:
                r = prove_zero(x - y)
                if r.status != OK:
                    return Result(r.status, f"shapes differ: {list(a.dims)} vs {list(b.dims)}; " + r.detail, r.backend)
        vs = []
        for d in a.dims:
            v = T.fresh_var("i", "k")
            R.range[v.name] = (T.ZERO, dim_size(d))
            vs.append(T.pvar(v))
        return prove_zero(a.el(*vs) - b.el(*vs))
    if isinstance(a, SymTree) or isinstance(b, SymTree):
        if not (isinstance(a, SymTree) and isinstance(b, SymTree)) or a.td != b.td:
            return Result(NO, f"tree structures differ: {type(a).__name__} vs {type(b).__name__}", "structure")
        v = T.fresh_var("i", "l")
        R.range[v.name] = (T.ZERO, a.td.n)
        return prove_eq(a.at(T.pvar(v)), b.at(T.pvar(v)))
    if isinstance(a, SymList) and isinstance(b, SymList):
        r = prove_zero(a.n - b.n)
        if r.status != OK:
            return r
        v = T.fresh_var("i", "j")
        R.range[v.name] = (T.ZERO, a.n)
        return prove_eq(a.at(T.pvar(v)), b.at(T.pvar(v)))
    if isinstance(a, SymList) or isinstance(b, SymList):
        if isinstance(a, SymList):
            a, b = b, a
        if isinstance(a, (list, tuple)):
            r = prove_zero(b.n - len(a))
            if r.status != OK:
                return r
            return combine([prove_eq(x, b.at(T.const(k))) for k, x in enumerate(a)])
        return Result(NO, f"kinds differ: {type(a).__name__} / SymList", "structure")
    num = (int, float, SymNum, SymBool, Poly, T.Fraction)
    if isinstance(a, num) and isinstance(b, num):
        return prove_zero(scalar_poly(a) - scalar_poly(b))
    ca, cb = children_of(a), children_of(b)
    if ca is not None and cb is not None:
        if ca[0] != cb[0] or ca[1] != cb[1] or len(ca[2]) != len(cb[2]):
            return Result(NO, f"structures differ: {ca[0]}/{ca[1]} vs {cb[0]}/{cb[1]}", "structure")
        return combine([prove_eq(x, y) for x, y in zip(ca[2], cb[2])])
    if ca is None and cb is None:
        if a is b:
            return Result(OK, "", "identity")
        if isinstance(a, str) or isinstance(b, str):
            return Result(OK if a == b else NO, f"{a!r} vs {b!r}", "structure")
        return Result(NO, f"{type(a).__name__} vs {type(b).__name__}", "structure")
    return Result(NO, f"structures differ: {type(a).__name__} vs {type(b).__name__}", "structure")


def combine(rs):
    worst = Result(OK, "", "normaliser")
    for r in rs:
        if r.status == NO:
            return r
        if r.status == UNK:
            worst = r
        elif worst.status == OK and r.backend:
            worst = Result(OK, "", r.backend)
    return worst
