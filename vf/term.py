"""Term language and normaliser.

A scalar (integer or real) is a `Poly`: a finite sum  coef * SUM_{binders} PROD atom^exp
in normal form ("tensor network" normal form: sums are pulled out in front of the
product, bound variables are renamed canonically).  Conditions enter terms as Iverson
brackets `Iv(cond)`, so `where(c, a, b)` is  [c]*a + [not c]*b, and unit-vector /
identity-matrix reasoning is elimination of a summation variable by an [u == e] factor.

Everything is over mathematical integers and reals; 1/0 is an unspecified real.
"""
from fractions import Fraction
import itertools
import re

ONE = Fraction(1)
_fresh = itertools.count(1)


class Unsupported(BaseException):
    """The engine cannot express something: the obligation is not generated."""


# ----------------------------------------------------------------- registries
class Registry:
    def __init__(self):
        self.reset()

    def reset(self):
        self.range = {}        # int var name -> (lo Poly, hi Poly): lo <= v < hi
        self.pos = set()       # names of real Vars / App functions that are > 0
        self.nonneg = set()    # names of Vars/App functions that are >= 0
        self.rules = []        # contraction rules: fn(binders, factors) -> Poly|None
        self.app_rules = {}    # App name -> fn(args)-> Poly|None  (construction time)
        self.deriv = {}        # App name -> fn(args, dargs)-> Poly
        self.interp = {}       # App name -> python evaluator fn(ev, args)
        self.int_funcs = set()
        self.no_contract = set()
        self.sym = set()       # App names f with f(i,j) = f(j,i)
        self.pairs = {}        # (App f, App g) -> (n, fn): SUM_d f(a.., d) g(b.., d) = fn(a, b)
        self.ortho = {}        # App name -> ("cols", rows, cols): orthonormal columns
        self.pc = []           # path condition: list[Cond]
        self.int_lemmas = []   # fn(atom)-> list[Cond]
        self.eq_rules = []     # fn(Cond p == 0)-> Poly|None: other forms of integer equalities
        self.cache = {}
        self.seg_guard = None
        self.fn_range = {}     # App int function -> fn(args)->(lo, hi)

    def bump(self):
        self.cache = {}


R = Registry()


# ----------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("key", "sort", "fv", "depth")

    def __repr__(self):
        return self.key

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self.key == o.key


_vars = {}


class Var(Atom):
    __slots__ = ("name",)

    def __init__(self, name, sort):
        self.name = name
        self.sort = sort
        self.key = name
        self.fv = frozenset([name])
        self.depth = 0

    def subst(self, m):
        return m.get(self.name) or patom(self)


def var(name, sort):
    v = _vars.get(name)
    if v is None or v.sort != sort:
        v = _vars[name] = Var(name, sort)
    return v


def fresh_var(sort="i", hint="u"):
    return var(f"<{hint}{next(_fresh)}>", sort)


def canon_var(d, k):
    return var(f"<%{d}.{k}>", "i")


class Lam:
    """lambda params (with ranges). body  -- functional argument of an App."""
    __slots__ = ("params", "ranges", "body", "key", "fv", "depth")

    def __init__(self, params, ranges, body):
        d = 1 + max([body.depth] + [r.depth for r in ranges] + [0])
        cps = tuple(canon_var(d, k) for k in range(len(params)))
        if tuple(p.name for p in params) != tuple(c.name for c in cps):
            m = {p.name: pvar(c) for p, c in zip(params, cps)}
            body = body.subst(m)
            ranges = tuple(r.subst(m) for r in ranges)
        self.params, self.ranges, self.body = cps, tuple(ranges), body
        names = frozenset(c.name for c in cps)
        fv = body.fv
        for r in ranges:
            fv = fv | r.fv
        self.fv = fv - names
        self.depth = d
        self.key = "λ" + ",".join(f"{c.name}<{r.key}" for c, r in zip(cps, ranges)) + "." + body.key

    def __call__(self, *args):
        return self.body.subst({p.name: a for p, a in zip(self.params, args)})

    def subst(self, m):
        if self.fv.isdisjoint(m):
            return self
        ps = [fresh_var() for _ in self.params]
        r = {p.name: pvar(q) for p, q in zip(self.params, ps)}
        # ranges of lambda parameters matter for simplification while rebuilding
        rngs = [x.subst(r).subst(m) for x in self.ranges]
        with binder_facts(list(zip(ps, rngs))):
            body = self.body.subst(r).subst(m)
        return Lam(ps, rngs, body)

    def __repr__(self):
        return self.key


def lam(ranges, f):
    """Build a Lam from a python function on Polys."""
    ps = [fresh_var() for _ in ranges]
    with binder_facts(list(zip(ps, ranges))):
        body = f(*[pvar(p) for p in ps])
    return Lam(ps, [as_poly(r) for r in ranges], body)


class App(Atom):
    __slots__ = ("f", "args")

    def __init__(self, f, args, sort):
        self.f, self.args, self.sort = f, args, sort
        fv, d = frozenset(), 0
        ks = []
        for a in args:
            if isinstance(a, (Poly, Lam, Cond)):
                fv = fv | a.fv
                d = max(d, a.depth)
                ks.append(a.key)
            else:
                ks.append(repr(a))
        self.fv, self.depth = fv, d
        self.key = f"{f}({';'.join(ks)})"

    def subst(self, m):
        if self.fv.isdisjoint(m):
            return patom(self)
        return app(self.f, *[a.subst(m) if isinstance(a, (Poly, Lam, Cond)) else a for a in self.args],
                   sort=self.sort)


class FApp(Atom):
    """Uninterpreted smooth functional F[idx](lam...) with partial derivatives dv.
    dv: sorted tuple of (slot, idx tuple): differentiated w.r.t. lams[slot] at idx."""
    __slots__ = ("f", "idx", "lams", "dv")

    def __init__(self, f, idx, lams, dv):
        dv = tuple(sorted(dv, key=lambda t: (t[0], tuple(x.key for x in t[1]))))
        self.f, self.idx, self.lams, self.dv, self.sort = f, tuple(idx), tuple(lams), dv, "r"
        fv, d = frozenset(), 0
        for a in list(idx) + list(lams) + [x for _, t in dv for x in t]:
            fv = fv | a.fv
            d = max(d, a.depth)
        self.fv, self.depth = fv, d
        self.key = (f"{f}[{';'.join(a.key for a in idx)}]"
                    + "".join(f"∂{s}:{','.join(x.key for x in t)}" for s, t in dv)
                    + f"({';'.join(a.key for a in lams)})")

    def subst(self, m):
        if self.fv.isdisjoint(m):
            return patom(self)
        return patom(FApp(self.f, [a.subst(m) for a in self.idx], [a.subst(m) for a in self.lams],
                          [(s, tuple(x.subst(m) for x in t)) for s, t in self.dv]))


class Iv(Atom):
    __slots__ = ("cond",)

    def __init__(self, cond):
        self.cond, self.sort = cond, "i"
        self.fv, self.depth = cond.fv, cond.depth
        self.key = f"[{cond.key}]"

    def subst(self, m):
        if self.fv.isdisjoint(m):
            return patom(self)
        return iv(self.cond.subst(m))


class PA(Atom):
    """A multi-term polynomial as an atom (carries non-natural exponents)."""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p, self.sort = p, p.sort
        self.fv, self.depth = p.fv, p.depth
        self.key = "{" + p.key + "}"

    def subst(self, m):
        raise AssertionError("PA.subst is handled with its exponent")


# ----------------------------------------------------------------- monomials / polys
class Mono:
    __slots__ = ("binders", "factors", "key", "fv", "depth")

    def __init__(self, binders, factors):
        # canonical: binders tuple[(Var, Poly)], factors tuple[(Atom, Fraction)] sorted
        self.binders, self.factors = binders, factors
        fv, d = frozenset(), 0
        for a, _ in factors:
            fv = fv | a.fv
            d = max(d, a.depth)
        for v, n in binders:
            fv = fv | n.fv
            d = max(d, n.depth)
        if binders:
            fv = fv - frozenset(v.name for v, _ in binders)
            d = int(binders[0][0].name[2:].split(".")[0])
        self.fv, self.depth = fv, d
        k = "*".join(a.key if e == 1 else f"{a.key}^{e}" for a, e in factors)
        if binders:
            k = "Σ" + ",".join(f"{v.name}<{n.key}" for v, n in binders) + "(" + k + ")"
        self.key = k

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self.key == o.key


UNIT = Mono((), ())


class Poly:
    __slots__ = ("terms", "key", "fv", "depth", "_sort")

    def __init__(self, terms):
        # terms: dict Mono -> Fraction (nonzero)
        self.terms = terms
        items = sorted(terms.items(), key=lambda t: t[0].key)
        self.key = "+".join((m.key or "1") if c == 1 else f"{c}·{m.key}" for m, c in items) or "0"
        fv, d = frozenset(), 0
        for m in terms:
            fv = fv | m.fv
            d = max(d, m.depth)
        self.fv, self.depth = fv, d
        self._sort = None

    @property
    def sort(self):
        if self._sort is None:
            s = "i"
            for m, c in self.terms.items():
                if c.denominator != 1:
                    s = "r"
                for a, e in m.factors:
                    if a.sort != "i" or e < 0 or e.denominator != 1:
                        s = "r"
            self._sort = s
        return self._sort

    def __repr__(self):
        return self.key

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key == o.key

    # -- queries
    def const(self):
        if not self.terms:
            return Fraction(0)
        if len(self.terms) == 1 and UNIT in self.terms:
            return self.terms[UNIT]
        return None

    def is_zero(self):
        return not self.terms

    # -- arithmetic
    def __add__(self, o):
        o = as_poly(o)
        if not o.terms:
            return self
        if not self.terms:
            return o
        t = dict(self.terms)
        for m, c in o.terms.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return self.scale(Fraction(-1))

    def scale(self, c):
        if c == 1:
            return self
        if c == 0:
            return ZERO
        return Poly({m: v * c for m, v in self.terms.items()})

    def __sub__(self, o):
        return self + (-as_poly(o))

    def __rsub__(self, o):
        return as_poly(o) + (-self)

    def __mul__(self, o):
        o = as_poly(o)
        c = o.const()
        if c is not None:
            return self.scale(c)
        c = self.const()
        if c is not None:
            return o.scale(c)
        return psum(mono_mul(m1, m2).scale(c1 * c2)
                    for m1, c1 in self.terms.items() for m2, c2 in o.terms.items())

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * ppow(as_poly(o), Fraction(-1))

    def __rtruediv__(self, o):
        return as_poly(o) * ppow(self, Fraction(-1))

    def __pow__(self, e):
        return ppow(self, Fraction(e))

    def subst(self, m):
        if self.fv.isdisjoint(m):
            return self
        acc, rest = [], {}
        for mono, c in self.terms.items():
            if mono.fv.isdisjoint(m):
                rest[mono] = c
            else:
                acc.append(mono_subst(mono, m).scale(c))
        acc.append(Poly(rest))
        return psum(acc)


ZERO = Poly({})
PONE = Poly({UNIT: ONE})


def psum(ps):
    t = {}
    for p in ps:
        for m, c in p.terms.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
    return Poly(t)


def const(c):
    c = Fraction(c)
    return Poly({UNIT: c}) if c else ZERO


def as_poly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return PONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        c = float_const(x)
        return PI if c is None else const(c)
    if isinstance(x, Atom):
        return patom(x)
    raise Unsupported(f"not a scalar: {type(x).__name__}")


def float_const(x):
    import math
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("nan/inf constant")
    if x == math.pi:
        return None
    f = Fraction(x).limit_denominator(10**6)
    if float(f) == x:
        return f
    return Fraction(x)


def patom(a):
    return Poly({Mono((), ((a, ONE),)): ONE})


def pvar(v):
    return patom(v)


def ivar(name, lo=0, hi=None):
    """A named integer variable; lo <= v (< hi)."""
    v = var(name, "i")
    R.range[name] = (as_poly(lo), None if hi is None else as_poly(hi))
    return pvar(v)


def rvar(name, pos=False, nonneg=False):
    v = var(name, "r")
    if pos:
        R.pos.add(name)
    if nonneg:
        R.nonneg.add(name)
    return pvar(v)


class binder_facts:
    """Temporarily declare ranges 0 <= v < n."""

    def __init__(self, binders):
        self.b = binders

    def __enter__(self):
        for v, n in self.b:
            R.range[v.name] = (ZERO, as_poly(n))

    def __exit__(self, *a):
        for v, _ in self.b:
            R.range.pop(v.name, None)


def open_mono(m):
    """-> (binders with fresh names, list[(Atom,exp)] , Poly coefficient-free product not needed)"""
    if not m.binders:
        return [], list(m.factors), None
    fr = [fresh_var() for _ in m.binders]
    r = {v.name: pvar(u) for (v, _), u in zip(m.binders, fr)}
    bs = [(u, n.subst(r)) for (v, n), u in zip(m.binders, fr)]
    return bs, m.factors, r


def mono_mul(m1, m2):
    if not m1.binders and not m2.binders:
        d = {}
        for a, e in m1.factors + m2.factors:
            if a.key in d:
                d[a.key] = (a, d[a.key][1] + e)
            else:
                d[a.key] = (a, e)
        return normalise([], d)
    b1, f1, r1 = open_mono(m1)
    b2, f2, r2 = open_mono(m2)
    return _with(b1 + b2, [(f1, r1), (f2, r2)])


def mono_subst(mono, m):
    bs, fs, r = open_mono(mono)
    rr = dict(m)
    if r:
        for k in r:
            rr.pop(k, None)
        # two-step (simultaneous: r maps canonical names, m maps free names)
        rr.update(r)
        bs = [(u, n.subst(m)) for u, n in bs]
    return _with(bs, [(fs, rr)])


def _with(bs, groups):
    """Product of factor groups (each substituted) under binders bs, summed."""
    for v, n in bs:
        R.range[v.name] = (ZERO, n)
    try:
        d, polys = {}, []
        for fs, r in groups:
            for a, e in fs:
                if r is None or a.fv.isdisjoint(r):
                    add_factor(d, a, e)
                    continue
                if isinstance(a, PA):
                    polys.append(ppow(a.p.subst(r), e))
                else:
                    q = a.subst(r)
                    one = single(q)
                    if one is not None:
                        add_factor(d, one, e)
                    else:
                        polys.append(ppow(q, e))
        if not polys:
            return normalise(bs, d)
        acc = normalise([], d)
        for p in polys:
            acc = acc * p
        return sum_poly(bs, acc)
    finally:
        for v, _ in bs:
            R.range.pop(v.name, None)


def single(q):
    """The atom if q is exactly one atom."""
    if len(q.terms) == 1:
        (m, c), = q.terms.items()
        if c == 1 and not m.binders and len(m.factors) == 1 and m.factors[0][1] == 1:
            return m.factors[0][0]
    return None


def add_factor(d, a, e):
    if a.key in d:
        d[a.key] = (a, d[a.key][1] + e)
    else:
        d[a.key] = (a, e)


def sum_poly(bs, p):
    """SUM over binders (fresh vars, in scope) of an open poly."""
    if not bs:
        return p
    for v, n in bs:
        R.range[v.name] = (ZERO, n)
    try:
        out = []
        for m, c in p.terms.items():
            b2, f2, r2 = open_mono(m)
            if r2 is None:
                d = {}
                for a, e in f2:
                    add_factor(d, a, e)
                out.append(normalise(bs, d).scale(c))
            else:
                out.append(_with(list(bs) + b2, [(f2, r2)]).scale(c))
        return psum(out)
    finally:
        for v, _ in bs:
            R.range.pop(v.name, None)


def bigsum(n, f):
    """SUM_{0<=i<n} f(i)."""
    n = as_poly(n)
    c = n.const()
    if c is not None and c <= 0:
        return ZERO
    if c is not None and c <= 3:
        return psum(f(const(k)) for k in range(int(c)))
    u = fresh_var()
    R.range[u.name] = (ZERO, n)
    try:
        body = as_poly(f(pvar(u)))
    finally:
        R.range.pop(u.name, None)
    return sum_poly([(u, n)], body)


# ----------------------------------------------------------------- normalisation of one product
def is_pos_atom(a):
    if isinstance(a, Var):
        return a.name in R.pos
    if isinstance(a, App):
        return a.f in R.pos or a.f == "exp" or a.f == "pi"
    if isinstance(a, PA):
        return is_pos(a.p)
    return False


def is_nonneg_atom(a):
    if is_pos_atom(a) or isinstance(a, Iv):
        return True
    if isinstance(a, Var):
        if a.name in R.nonneg:
            return True
        if a.sort == "i":
            r = R.range.get(a.name)
            return bool(r and r[0].const() is not None and r[0].const() >= 0)
    if isinstance(a, App):
        return a.f in R.nonneg or a.f == "abs"
    if isinstance(a, PA):
        return is_nonneg(a.p)
    return False


def _mono_sign(m, c):
    """2: >0, 1: >=0, 0 unknown (bound ranges may be empty: >=0 only)."""
    if c < 0:
        return 0
    s = 2
    for v, n in m.binders:
        R.range[v.name] = (ZERO, n)
    try:
        for a, e in m.factors:
            if is_pos_atom(a):
                continue
            if isinstance(a, Var) and a.sort == "i":
                r = R.range.get(a.name)
                if r and r[0].const() is not None and r[0].const() >= 1:
                    continue
            if e.denominator == 1 and e % 2 == 0 or is_nonneg_atom(a):
                s = min(s, 1)
                continue
            return 0
    finally:
        for v, _ in m.binders:
            R.range.pop(v.name, None)
    if m.binders and s == 2:
        s = 2 if all(_ge1(n) for _, n in m.binders) else 1
    return s


def _ge1(n):
    c = n.const()
    if c is not None:
        return c >= 1
    return decide(le(const(1), n)) is True


def is_pos(p):
    ss = [_mono_sign(m, c) for m, c in p.terms.items()]
    if ss and all(s >= 1 for s in ss) and any(s == 2 for s in ss):
        return True
    if p.fv and p.sort == "r":
        return cond_known(lt(ZERO, p))
    return False


def is_nonneg(p):
    if all(_mono_sign(m, c) >= 1 for m, c in p.terms.items()):
        return True
    if p.fv and p.sort == "r":
        return cond_known(le(ZERO, p)) or cond_known(lt(ZERO, p))
    return False


def cond_known(c):
    return any(c.key == k.key for k in R.pc)


def lin_solve(p, name):
    """p == c*v + rest with constant c=+-1 and v not in rest; returns v's value for p==0."""
    coef, rest = None, {}
    for m, c in p.terms.items():
        if name in m.fv:
            if m.binders or len(m.factors) != 1 or not isinstance(m.factors[0][0], Var) or m.factors[0][1] != 1:
                return None
            coef = c
        else:
            rest[m] = c
    if coef is None or abs(coef) != 1:
        return None
    return Poly(rest).scale(-1 / coef)


def normalise(bs, d):
    """Sum over binders bs of the product of factors d -> Poly. bs ranges may be in R.range."""
    bs = list(bs)
    own = [v for v, _ in bs if v.name not in R.range]
    for v, n in bs:
        R.range[v.name] = (ZERO, n)
    try:
        return _normalise(bs, d)
    finally:
        for v in own:
            R.range.pop(v.name, None)


def _count(bs, d, ivs):
    """Sum over v < n of [a v + b <= 0] (real comparison, a of known sign), v occurring nowhere else."""
    for a in ivs:
        c = a.cond
        if c.op not in ("le", "lt") or c.p.sort == "i":
            continue
        for v, n in bs:
            if v.name not in c.fv or any(v.name in o.fv for o, _ in d.values() if o is not a) or any(v.name in q.fv for _, q in bs):
                continue
            if any(w.name in n.fv for w, _ in bs):
                continue
            co, rest = [], []
            for m, x in c.p.terms.items():
                if v.name not in m.fv:
                    rest.append(Poly({m: x}))
                    continue
                e = [y for at, y in m.factors if isinstance(at, Var) and at.name == v.name]
                if m.binders or e != [1] or any(v.name in at.fv for at, _ in m.factors if not (isinstance(at, Var) and at.name == v.name)):
                    co = None
                    break
                co.append(Poly({Mono((), tuple((at, y) for at, y in m.factors if not (isinstance(at, Var) and at.name == v.name))): x}))
            if not co:
                continue
            k, b = psum(co), psum(rest)
            up = is_pos(k)
            if not up and not is_pos(-k):
                continue
            r = -b * ppow(k, -1)
            if up and c.op == "le":      # v <= r
                m = app("floor", r, sort="i") + 1
            elif up:                     # v < r
                m = -app("floor", -r, sort="i")
            elif c.op == "le":           # v >= r: complement of v < r
                m = -app("floor", -r, sort="i")
            else:
                m = app("floor", r, sort="i") + 1
            cnt = m if decide(le(m, n)) is True else iv(lt(m, n)) * m + (PONE - iv(lt(m, n))) * n
            cnt = iv(lt(ZERO, m)) * cnt
            if not up:
                cnt = n - cnt
            others = [(o, x) for o, x in d.values() if o is not a]
            bs2 = [(w, q) for w, q in bs if w is not v]
            inner = normalise([], {o.key: (o, x) for o, x in others}) if others else PONE
            return sum_poly(bs2, inner * cnt) if bs2 else inner * cnt
    return None


def _split_digits(bs, d):
    for v, n in bs:
        if len(n.terms) != 1:
            continue
        tag = f"idiv({pvar(v).key};"
        if not any(tag in a.key for a, _ in d.values()):
            continue
        (m, c), = n.terms.items()
        if c != 1 or m.binders or sum(e for _, e in m.factors) < 2 or any(e.denominator != 1 or e < 0 for _, e in m.factors) \
                or any(v.name in q.fv for _, q in bs):
            continue
        units = [a for a, e in m.factors for _ in range(int(e))]
        for r in range(len(units) - 1, 0, -1):
            for sub in itertools.combinations(range(len(units)), r):
                lo = PONE
                for x in sub:
                    lo = lo * patom(units[x])
                if not any(f"{tag}{lo.key})" in a.key for a, _ in d.values()):
                    continue
                hi = PONE
                for x in range(len(units)):
                    if x not in sub:
                        hi = hi * patom(units[x])
                i, j = fresh_var("i", "q"), fresh_var("i", "q")
                R.range[i.name], R.range[j.name] = (ZERO, hi), (ZERO, lo)
                try:
                    bs2 = [(w, q) for w, q in bs if w is not v] + [(i, hi), (j, lo)]
                    return _with(bs2, [(list(d.values()), {v.name: pvar(i) * lo + pvar(j)})])
                finally:
                    R.range.pop(i.name, None)
                    R.range.pop(j.name, None)
    return None


def _normalise(bs, d):
    # 1. exponents
    extra = []
    nd = {}
    for k, (a, e) in d.items():
        if e == 0:
            continue
        if isinstance(a, Iv):
            e = ONE if e > 0 else e
        if isinstance(a, PA) and e.denominator == 1 and e > 0:
            extra.append(ppow(a.p, e))
            continue
        if isinstance(a, PA) and e.denominator != 1 and e > 1:
            extra.append(ppow(a.p, Fraction(int(e))))
            e = e - int(e)
        nd[k] = (a, e)
    if extra:
        acc = normalise([], nd)
        for p in extra:
            acc = acc * p
        return sum_poly(bs, acc) if bs else acc
    d = nd
    ivs = [a for a, e in d.values() if isinstance(a, Iv)]
    if ivs:
        # 2. truth of brackets under the other facts
        for a in ivs:
            t = decide(a.cond, [o.cond for o in ivs if o is not a])
            if t is False:
                return ZERO
            if t is True:
                d2 = dict(d)
                del d2[a.key]
                return _normalise(bs, d2)
        # 3. equalities: eliminate bound variables, orient free ones
        names = {v.name: n for v, n in bs}
        for a in ivs:
            c = a.cond
            if c.op != "eq" or c.p.sort != "i":
                continue
            for nm in sorted(x for x in c.fv if x in names):
                if any(nm in n.fv for v, n in bs):
                    continue
                e = lin_solve(c.p, nm)
                if e is None:
                    continue
                n = names[nm]
                rest = [(o, x) for o, x in d.values() if o is not a]
                bs2 = [(v, q) for v, q in bs if v.name != nm]
                out = _with(bs2, [(rest, {nm: e})])
                g = iv(le(ZERO, e)) * iv(lt(e, n))
                if g.const() is None:
                    sg = R.seg_guard and R.seg_guard(e, n)
                    if sg is not None:
                        g = sg
                if g.const() == 1:
                    return out
                if not bs2 or g.fv.isdisjoint({v.name for v, _ in bs2}):
                    return out * g
                # guard mentions remaining bound variables: redo inside the sum
                inner = _with([], [(rest, {nm: e})]) if not bs2 else None
                for v, q in bs2:
                    R.range[v.name] = (ZERO, q)
                try:
                    inner = _with([], [(rest, {nm: e})]) * g
                finally:
                    pass
                return sum_poly(bs2, inner)
            cand = sorted((x for x in c.fv if x not in names), reverse=True)
            for nm in cand:
                e = lin_solve(c.p, nm)
                if e is None or any(x > nm for x in e.fv) or any(x in names for x in e.fv):
                    continue
                if all(nm not in o.fv for o, _ in d.values() if o is not a) and all(nm not in n.fv for _, n in bs):
                    break
                rest = [(o, x) for o, x in d.values() if o is not a]
                bs2 = [(v, q.subst({nm: e})) for v, q in bs]
                return _with(bs2, [(rest, {nm: e}), ([(a, ONE)], None)])
        # 3b. [v < m] with bound v: shrink the range
        for a in ivs:
            c = a.cond
            if c.op != "le":
                continue
            for nm in sorted(x for x in c.fv if x in names):
                # c.p = v - m + 1 <= 0  <=> v < m
                n = names[nm]
                hi = lin_solve(c.p - const(1), nm)  # v = m  when p-1==0 and coefficient +1
                if hi is None:
                    continue
                coef = [cc for mm, cc in c.p.terms.items() if nm in mm.fv][0]
                if any(x in names for x in hi.fv) or any(nm in q.fv for v, q in bs):
                    continue
                if coef == 1 and decide(le(hi, n)) is True and decide(le(ZERO, hi)) is True:
                    d2 = dict(d)
                    del d2[a.key]
                    bs2 = [(v, hi if v.name == nm else q) for v, q in bs]
                    R.range[nm] = (ZERO, hi)
                    return _normalise(bs2, d2)
        # 3c. counting: #{v < n : a v + b <= 0} for a real threshold
        q = _count(bs, d, ivs)
        if q is not None:
            return q
    # 3d. sum over a flattened index used through its digits: sum over the digits instead
    if bs:
        q = _split_digits(bs, d)
        if q is not None:
            return q
    # 4. unused binders / empty / unit ranges
    for i, (v, n) in enumerate(bs):
        cn = n.const()
        if cn is not None and cn <= 0:
            return ZERO
        if cn is not None and cn <= 3:
            bs2 = bs[:i] + bs[i + 1:]
            rest = list(d.values())
            return psum(_with([(b, q.subst({v.name: const(k)})) for b, q in bs2], [(rest, {v.name: const(k)})])
                        for k in range(int(cn)))
        if all(v.name not in a.fv for a, _ in d.values()) and all(v.name not in q.fv for _, q in bs):
            bs2 = bs[:i] + bs[i + 1:]
            size = n if decide(le(ZERO, n)) is True else iv(le(ZERO, n)) * n
            inner = _normalise(bs2, d) if size.fv.isdisjoint({b.name for b, _ in bs2}) else None
            if inner is not None:
                return inner * size
            return sum_poly(bs2, _with([], [(list(d.values()), None)]) * size)
    # 5. contraction rules
    for rule in R.rules:
        out = rule(bs, d)
        if out is not None:
            return out
    # 6. product atoms: abs(x)*abs(x) etc. are left alone
    if not bs:
        fs = tuple(sorted(d.values(), key=lambda t: t[0].key))
        return Poly({Mono((), fs): ONE})
    return close(bs, d)


_DV = re.compile(r"(?:∂\d+:[^∂(]+){2,}")
_DV1 = re.compile(r"∂\d+:[^∂(]+")


def close(bs, d):
    depth = 1 + max([a.depth for a, _ in d.values()] + [n.depth for _, n in bs])
    names = [v.name for v, _ in bs]
    keys = {}
    if len(bs) > 1:
        sig = {nm: "" for nm in names}
        for _round in range(3):
            new = {}
            for nm in names:
                parts = []
                for a, e in d.values():
                    if nm in a.fv:
                        def anon(s):
                            s = s.replace(nm, "<*>")
                            for o in names:
                                if o != nm:
                                    s = s.replace(o, "<?%s>" % (hash(sig[o]) if _round else ""))
                            return s
                        if isinstance(a, App) and a.f in R.sym and len(a.args) == 2:
                            s = a.f + "".join(sorted(anon(x.key) for x in a.args))   # argument order is immaterial
                        else:
                            s = anon(a.key)
                        if s.count("∂") > 1:     # the order of partial derivatives is immaterial
                            s = _DV.sub(lambda m: "".join(sorted(_DV1.findall(m.group(0)))), s)
                        parts.append(f"{s}^{e}")
                n = [q for v, q in bs if v.name == nm][0].key
                for o in names:
                    n = n.replace(o, "<?>")
                new[nm] = n + "|" + "|".join(sorted(parts))
            if _round and len(set(new.values())) == len(set(sig.values())):
                sig = new
                break
            sig = new
        # signatures contain hash() of strings: make them order-stable per process only
        groups = {}
        for nm in names:
            groups.setdefault(sig[nm], []).append(nm)
        # order groups by a name-free first-round signature
        gl = [groups[s] for s in sorted(groups)]
        import math as _m
        tot = 1
        for g in gl:
            tot *= _m.factorial(len(g))
        if tot > 720:
            perms = [[x for g in gl for x in g]]
        else:
            perms = [[x for g in t for x in g] for t in itertools.product(*[list(itertools.permutations(g)) for g in gl])]
    else:
        perms = [names]
    best = None
    for perm in perms:
        cand = _close_with(bs, d, perm, depth)
        if cand is None:
            continue
        k = cand.key
        if best is None or k < best.key:
            best = cand
        if len(perms) == 1:
            break
    return best


def _close_with(bs, d, perm, depth):
    cv = {nm: canon_var(depth, i) for i, nm in enumerate(perm)}
    r = {nm: pvar(c) for nm, c in cv.items()}
    rng = {v.name: n for v, n in bs}
    for nm in perm:
        R.range[cv[nm].name] = (ZERO, rng[nm].subst(r))
    try:
        fs, coef = {}, ONE
        for a, e in d.values():
            if a.fv.isdisjoint(r):
                add_factor(fs, a, e)
                continue
            if isinstance(a, PA):
                q = ppow(a.p.subst(r), e)
                if len(q.terms) != 1:
                    raise Unsupported("close: PA renaming")
                (mm, c), = q.terms.items()
                if mm.binders:
                    raise Unsupported("close: PA renaming")
                coef *= c
                for x, y in mm.factors:
                    add_factor(fs, x, y)
                continue
            q = a.subst(r)
            one = single(q)
            if one is None:
                if len(q.terms) == 1 and e.denominator == 1:
                    (mm, c), = q.terms.items()
                    if not mm.binders:
                        coef *= c ** int(e)
                        for x, y in mm.factors:
                            add_factor(fs, x, y * e)
                        continue
                raise Unsupported(f"close: renaming changed {a.key} to {q.key}")
            add_factor(fs, one, e)
        factors = tuple(sorted(fs.values(), key=lambda t: t[0].key))
        binders = tuple((cv[nm], rng[nm].subst(r)) for nm in perm)
        return Poly({Mono(binders, factors): coef})
    finally:
        for nm in perm:
            R.range.pop(cv[nm].name, None)


# ----------------------------------------------------------------- powers
def _rat_pow(c, e):
    """Exact rational power or None."""
    if e.denominator == 1:
        return c ** int(e)
    if c < 0:
        return None
    n, q = c.numerator ** abs(e.numerator), c.denominator ** abs(e.numerator)
    if e < 0:
        n, q = q, n
    def root(x):
        r = round(x ** (1.0 / e.denominator))
        for y in (r - 1, r, r + 1):
            if y >= 0 and y ** e.denominator == x:
                return y
        return None
    a, b = root(n), root(q)
    return Fraction(a, b) if a is not None and b else None


def ppow(p, e):
    e = Fraction(e)
    if e == 1:
        return p
    if e == 0:
        return PONE
    if e.denominator == 1 and e > 0:
        out, n, base = PONE, int(e), p
        if n > 8 and len(p.terms) > 1:
            raise Unsupported("large power")
        while n:
            if n & 1:
                out = out * base
            n >>= 1
            if n:
                base = base * base
        return out
    c = p.const()
    if c is not None:
        if c == 0:
            return app("zeropow", const(e), sort="r") if e < 0 else ZERO
        r = _rat_pow(c, e)
        if r is not None:
            return const(r)
        return Poly({Mono((), ((PA(p), e),)): ONE})
    content_c, content, rest = extract_content(p, e)
    out = PONE
    if content_c != 1:
        r = _rat_pow(content_c, e)
        out = const(r) if r is not None else Poly({Mono((), ((PA(const(content_c)), e),)): ONE})
    for a, x in content:
        out = out * normalise([], {a.key: (a, x * e)})
    rc = rest.const()
    if rc is not None:
        return out * ppow(rest, e) if rc != 1 else out
    # (poly)^(1/2) atoms: PA(rest)^e
    one = single(rest)
    if one is not None and not isinstance(one, Iv) and (e.denominator == 1 or True):
        return out * Poly({Mono((), ((one, e),)): ONE})
    pa = PA(rest)
    return out * normalise([], {pa.key: (pa, e)})


def extract_content(p, e):
    """p = c * prod(content) * rest, content free of bound variables."""
    frac = e.denominator != 1
    common = None
    for m, c in p.terms.items():
        bn = {v.name for v, _ in m.binders}
        cur = {}
        for a, x in m.factors:
            if isinstance(a, Iv) or (bn and not a.fv.isdisjoint(bn)):
                continue
            if frac and not is_pos_atom(a):
                if not (is_nonneg_atom(a) and len(p.terms) == 1 and x > 0):
                    continue
            cur[a.key] = (a, x)
        if common is None:
            common = cur
            # atoms absent from later monos have exponent 0
        else:
            new = {}
            for k in set(common) | set(cur):
                a = (common.get(k) or cur.get(k))[0]
                x = min(common[k][1] if k in common else Fraction(0), cur[k][1] if k in cur else Fraction(0))
                if x != 0:
                    new[k] = (a, x)
            common = new
    content = [(a, x) for a, x in (common or {}).values() if x != 0]
    # rational content: gcd of coefficients, sign of the leading one
    from math import gcd
    num, den = 0, 1
    for c in p.terms.values():
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    cc = Fraction(num, den)
    lead = min(p.terms, key=lambda m: m.key)
    if p.terms[lead] < 0 and not frac:
        cc = -cc
    rest = p.scale(1 / cc)
    if content:
        inv = {a.key: (a, -x) for a, x in content}
        out = {}
        for m, c in rest.terms.items():
            # direct division of factors (no renaming needed: content is free of binders)
            fs = {a.key: (a, x) for a, x in m.factors}
            for a, x in inv.values():
                add_factor(fs, a, x)
            fs2 = tuple(sorted(((a, x) for a, x in fs.values() if x != 0), key=lambda t: t[0].key))
            mm = Mono(m.binders, fs2)
            if m.binders:
                # depth of canonical names may have changed: re-close
                q = mono_subst(mm, {}) if False else reclose(mm)
                for m2, c2 in q.terms.items():
                    out[m2] = out.get(m2, 0) + c2 * c
            else:
                out[mm] = out.get(mm, 0) + c
        rest = Poly({m: c for m, c in out.items() if c})
    return cc, content, rest


def reclose(mm):
    bs, fs, r = open_mono(mm)
    return _with(bs, [(fs, r)])


def sqrt(p):
    return ppow(as_poly(p), Fraction(1, 2))


# ----------------------------------------------------------------- conditions
class Cond:
    """op: eq (p==0), le (p<=0), lt (p<0, real only), capp (uninterpreted), and, or, not, true, false"""
    __slots__ = ("op", "p", "args", "key", "fv", "depth")

    def __init__(self, op, p=None, args=()):
        self.op, self.p, self.args = op, p, args
        fv, d = frozenset(), 0
        if p is not None:
            fv, d = p.fv, p.depth
        ks = []
        for a in args:
            if isinstance(a, (Poly, Lam, Cond)):
                fv = fv | a.fv
                d = max(d, a.depth)
                ks.append(a.key)
            else:
                ks.append(repr(a))
        self.fv, self.depth = fv, d
        if op == "eq":
            self.key = p.key + "=0"
        elif op == "le":
            self.key = p.key + "≤0"
        elif op == "lt":
            self.key = p.key + "<0"
        else:
            self.key = f"{op}({' ; '.join(ks)})"

    def __repr__(self):
        return self.key

    def subst(self, m):
        if self.fv.isdisjoint(m):
            return self
        if self.op in ("eq", "le", "lt"):
            return {"eq": eq0, "le": le0, "lt": lt0}[self.op](self.p.subst(m))
        args = [a.subst(m) if isinstance(a, (Poly, Lam, Cond)) else a for a in self.args]
        if self.op == "and":
            return cand(*args)
        if self.op == "or":
            return cor(*args)
        if self.op == "not":
            return cnot(args[0])
        if self.op == "forall":
            return Cond("forall", args=tuple(args))
        return Cond(self.op, args=tuple(args))


TRUE, FALSE = Cond("true"), Cond("false")


def eq0(p):
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    # normalise scale and sign
    if p.sort == "i" or all(True for _ in ()):
        from math import gcd
        num, den = 0, 1
        for x in p.terms.values():
            num = gcd(num, abs(x.numerator))
            den = den * x.denominator // gcd(den, x.denominator)
        cc = Fraction(num, den)
        lead = min(p.terms, key=lambda m: m.key)
        if p.terms[lead] < 0:
            cc = -cc
        p = p.scale(1 / cc)
    if p.sort == "i" and len(p.terms) == 2 and UNIT in p.terms:
        (m, c), = [(m, c) for m, c in p.terms.items() if m is not UNIT and m.key != ""]
        if abs(c) > 1 and p.terms[UNIT] % c != 0:
            return FALSE
    return Cond("eq", p)


def le0(p):
    c = p.const()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    return Cond("le", p)


def lt0(p):
    c = p.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    if p.sort == "i":
        return le0(p + 1)
    return Cond("lt", p)


def eq(a, b):
    return eq0(as_poly(a) - as_poly(b))


def le(a, b):
    return le0(as_poly(a) - as_poly(b))


def lt(a, b):
    return lt0(as_poly(a) - as_poly(b))


def capp(name, *args):
    return Cond("capp", args=(name,) + args)


def cnot(c):
    if c.op == "true":
        return FALSE
    if c.op == "false":
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "le":
        return lt0(-c.p)
    if c.op == "lt":
        return le0(-c.p)
    if c.op == "and":
        return cor(*[cnot(a) for a in c.args])
    if c.op == "or":
        return cand(*[cnot(a) for a in c.args])
    return Cond("not", args=(c,))


def cand(*cs):
    out = {}
    for c in cs:
        if c.op == "false":
            return FALSE
        if c.op == "true":
            continue
        for x in (c.args if c.op == "and" else (c,)):
            out[x.key] = x
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out.values()))
    return Cond("and", args=tuple(out[k] for k in sorted(out)))


def cor(*cs):
    out = {}
    for c in cs:
        if c.op == "true":
            return TRUE
        if c.op == "false":
            continue
        for x in (c.args if c.op == "or" else (c,)):
            out[x.key] = x
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out.values()))
    return Cond("or", args=tuple(out[k] for k in sorted(out)))


_ANGLE = re.compile(r"<[^<>]*>")


def _sig(m):
    """Key of a monomial without variable names (index renaming must not change orientations)."""
    out = []
    for a, e in m.factors:
        k = a.key
        while True:
            k2 = _ANGLE.sub("$", k)
            if k2 == k:
                break
            k = k2
        out.append(f"{k}^{e}")
    return "*".join(sorted(out)) + f"|{len(m.binders)}"


def _negative_lead(p):
    terms = [(m, c) for m, c in p.terms.items() if m.key]
    if len(terms) > 1:
        tot = {}
        for m, c in terms:
            g = _sig(m)
            tot[g] = tot.get(g, 0) + c
        for g in sorted(tot):
            if tot[g]:
                return tot[g] < 0
    lead = min((m for m, _ in terms), key=lambda m: m.key)
    return p.terms[lead] < 0


def iv(c):
    """Iverson bracket as a Poly."""
    if c.op == "true":
        return PONE
    if c.op == "false":
        return ZERO
    if c.op == "and":
        out = PONE
        for a in c.args:
            out = out * iv(a)
        return out
    if c.op == "or":
        out = PONE
        for a in c.args:
            out = out * (PONE - iv(a))
        return PONE - out
    if c.op == "not":
        return PONE - iv(c.args[0])
    if c.op == "lt":
        return PONE - iv(le0(-c.p))
    if c.op == "le" and c.p.sort == "i" and len(c.p.terms) == 1:
        # [a <= 0] = [a = 0] for a ranking or a remainder, which is never negative
        (m, x), = c.p.terms.items()
        if x > 0 and not m.binders and len(m.factors) == 1 and isinstance(m.factors[0][0], App) and decide(le0(-c.p)) is True:
            return iv(eq0(c.p))
    if c.op == "le" and c.p.sort == "i":
        # canonical orientation: [p<=0] vs 1-[1-p<=0]
        q = -c.p + 1
        if _negative_lead(c.p):
            t = decide(le0(q))
            if t is not None:
                return ZERO if t else PONE
            return PONE - patom(Iv(le0(q)))
    t = decide(c)
    if t is not None:
        return PONE if t else ZERO
    if c.op == "eq" and c.p.sort == "i":
        q = _cases(c)
        if q is not None:
            return q
        q = _digits(c.p)
        if q is not None:
            return q
        for h in R.eq_rules:
            q = h(c)
            if q is not None:
                return q
    return patom(Iv(c))


def _cases(c):
    """[p = 0] with brackets among the factors of p: by cases on the brackets."""
    ivs = {}
    for m in c.p.terms:
        if m.binders:
            continue
        for a, _ in m.factors:
            if isinstance(a, Iv):
                ivs[a.key] = a
    if not ivs or len(ivs) > 3:
        return None
    a = ivs[min(ivs)]
    def fix(t):
        out = {}
        for m, x in c.p.terms.items():
            if not m.binders and any(y is a or y.key == a.key for y, _ in m.factors):
                if not t:
                    continue
                m = Mono((), tuple((y, e) for y, e in m.factors if y.key != a.key))
            out[m] = out.get(m, 0) + x
        return Poly({m: x for m, x in out.items() if x})
    g = patom(a)
    return g * iv(eq0(fix(True))) + (PONE - g) * iv(eq0(fix(False)))




def _digits(p):
    """[u*L + w == q] with 0 <= w < L  ->  [u == q div L]*[w == q - L*(q div L)], or None."""
    if len(p.terms) < 3:
        return None
    for m, c in p.terms.items():
        if m.binders or len(m.factors) != 1 or m.factors[0][1] != 1 or abs(c) != 1:
            continue
        w = m.factors[0][0]
        r = R.range.get(w.name) if isinstance(w, Var) else None
        if r is None or r[1] is None or not r[0].is_zero() or len(r[1].terms) != 1:
            continue
        (hm, hc), = r[1].terms.items()
        if hc != 1 or hm.binders or not hm.factors:
            continue
        u, q = [], []
        for n, d in p.terms.items():
            if n is m:
                continue
            d = d * c                       # orient so that w has coefficient one
            fs = {a.key: (a, e) for a, e in n.factors}
            ok = not n.binders
            for a, e in hm.factors:
                if not ok or a.key not in fs or fs[a.key][1] < e:
                    ok = False
                    break
                fs[a.key] = (a, fs[a.key][1] - e)
            if ok:
                u.append(normalise([], {k: v for k, v in fs.items() if v[1] != 0}).scale(d))
            else:
                q.append(Poly({n: -d}))
        if not u:
            continue
        u, q = psum(u), psum(q)
        if w.name in u.fv or w.name in q.fv or u.sort != "i" or not u.fv:
            continue
        dq = app("idiv", q, r[1], sort="i")
        if (u - dq).is_zero() or not q.terms or "floor(" in q.key:
            continue
        return iv(eq0(u - dq)) * iv(eq0(pvar(w) - q + r[1] * dq))
    return None


def ite(c, a, b):
    a, b = as_poly(a), as_poly(b)
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    q = _minmax(c, a, b)
    if q is not None:
        return q
    i = iv(c)
    return i * a + (PONE - i) * b


def _minmax(c, a, b):
    """ite(a <= b, a, b) and the like over integers that contain a floor: kept as one atom."""
    if a.sort != "i" or b.sort != "i" or ("floor(" not in a.key and "floor(" not in b.key):
        return None
    if c.op == "le" and c.p.sort == "i":
        p = c.p
    elif c.op == "lt":
        p = c.p + 1
    elif c.op == "not" and c.args[0].op == "le":
        p = -c.args[0].p + 1
    else:
        return None
    k = (p - (a - b)).const()
    if k in (0, 1):              # a <= b or a < b: the minimum
        return app("imin", a, b, sort="i")
    k = (p - (b - a)).const()
    if k in (0, 1):
        return a + b - app("imin", a, b, sort="i")
    return None


def iv_cond(p):
    """The condition of a 0/1 term, if it is one bracket or its complement."""
    if len(p.terms) == 1:
        a = single(p)
        return a.cond if isinstance(a, Iv) else None
    a = single(PONE - p)
    return cnot(a.cond) if isinstance(a, Iv) else None


def _imin(args):
    a, b = args
    if decide(le0(a - b)) is True:
        return a
    if decide(le0(b - a)) is True:
        return b
    return patom(App("imin", (b, a), "i")) if b.key < a.key else None


# ----------------------------------------------------------------- applications
def app(f, *args, sort="r"):
    args = tuple(as_poly(a) if isinstance(a, (int, float, Fraction)) and not isinstance(a, bool) else a for a in args)
    h = R.app_rules.get(f) or BUILTIN.get(f)
    if h is not None:
        out = h(args)
        if out is not None:
            return out
    return patom(App(f, args, sort))


def fapp(f, idx, lams):
    return patom(FApp(f, [as_poly(i) for i in idx], lams, ()))


def _exp(args):
    x = args[0]
    if x.is_zero():
        return PONE
    out = {}
    res = PONE
    for m, c in x.terms.items():
        if m.key == "":
            a = App("exp", (PONE,), "r")
            add_factor(out, a, c)
            continue
        if not m.binders and len(m.factors) == 1 and m.factors[0][1] == 1 and isinstance(m.factors[0][0], App) \
                and m.factors[0][0].f == "log":
            res = res * ppow(m.factors[0][0].args[0], c)
            continue
        a = App("exp", (Poly({m: ONE}),), "r")
        add_factor(out, a, c)
    return normalise([], out) * res


def _log(args):
    x = args[0]
    c = x.const()
    if c == 1:
        return ZERO
    if c is not None and c <= 0:
        return None
    if c is not None:
        if c.denominator != 1 and c.numerator != 1:
            return app("log", const(c.numerator)) - app("log", const(c.denominator))
        if c.numerator == 1:
            return -patom(App("log", (const(c.denominator),), "r"))
        return None
    cc, content, rest = extract_content(x, Fraction(1, 2))
    if cc == 1 and not content:
        one = single(rest)
        if isinstance(one, App) and one.f == "exp":
            return one.args[0]
        # single PA^e
        if len(x.terms) == 1:
            (m, c1), = x.terms.items()
            if c1 == 1 and not m.binders and len(m.factors) == 1:
                a, e = m.factors[0]
                if isinstance(a, PA) and e != 1:
                    return app("log", a.p).scale(e)
        return None
    out = app("log", const(cc)) if cc != 1 else ZERO
    for a, e in content:
        if isinstance(a, App) and a.f == "exp":
            out = out + a.args[0].scale(e)
        elif isinstance(a, PA):
            out = out + app("log", a.p).scale(e)
        else:
            out = out + patom(App("log", (patom(a),), "r")).scale(e)
    if rest.const() != 1:
        out = out + app("log", rest)
    return out


def _abs(args):
    x = args[0]
    c = x.const()
    if c is not None:
        return const(abs(c))
    if is_nonneg(x):
        return x
    if is_nonneg(-x):
        return -x
    lead = min(x.terms, key=lambda m: m.key)
    k = x.terms[lead]
    y = x.scale(1 / k)
    if y.key != x.key:
        return patom(App("abs", (y,), "r")).scale(abs(k))
    return None


def _floor(args):
    x = args[0]
    c = x.const()
    if c is not None:
        return const(c.numerator // c.denominator)
    if x.sort == "i":
        return x
    return None


BUILTIN = {"exp": _exp, "log": _log, "abs": _abs, "floor": _floor, "imin": _imin}
PI = patom(App("pi", (), "r"))


def exp(x):
    return app("exp", as_poly(x))


def log(x):
    return app("log", as_poly(x))


def replace(p, rules):
    """Replace App atoms by rules[name](args) -> Poly, everywhere."""
    if isinstance(p, Lam):
        ps = [fresh_var() for _ in p.params]
        r = {q.name: pvar(v) for q, v in zip(p.params, ps)}
        rngs = [replace(x.subst(r), rules) for x in p.ranges]
        with binder_facts(list(zip(ps, rngs))):
            b = replace(p.body.subst(r), rules)
        return Lam(ps, rngs, b)
    if isinstance(p, Cond):
        if p.op in ("true", "false"):
            return p
        if p.op in ("eq", "le", "lt"):
            return {"eq": eq0, "le": le0, "lt": lt0}[p.op](replace(p.p, rules))
        args = [replace(a, rules) if isinstance(a, (Poly, Lam, Cond)) else a for a in p.args]
        if p.op == "and":
            return cand(*args)
        if p.op == "or":
            return cor(*args)
        if p.op == "not":
            return cnot(args[0])
        return Cond(p.op, args=tuple(args))
    out = []
    for m, c in p.terms.items():
        bs, fs, r = open_mono(m)
        bs = [(v, replace(n, rules)) for v, n in bs]
        for v, n in bs:
            R.range[v.name] = (ZERO, n)
        try:
            acc = PONE
            for a, e in fs:
                if isinstance(a, PA):
                    q = ppow(replace(a.p.subst(r) if r else a.p, rules), e)
                else:
                    b = a.subst(r) if r else patom(a)
                    one = single(b)
                    q = ppow(replace_atom(one, rules) if one is not None else replace(b, rules), e)
                acc = acc * q
            out.append(sum_poly(bs, acc).scale(c))
        finally:
            for v, _ in bs:
                R.range.pop(v.name, None)
    return psum(out)


def replace_atom(a, rules):
    if isinstance(a, Var):
        return patom(a)
    if isinstance(a, Iv):
        return iv(replace(a.cond, rules))
    if isinstance(a, PA):
        return replace(a.p, rules)
    if isinstance(a, App):
        args = [replace(x, rules) if isinstance(x, (Poly, Lam, Cond)) else x for x in a.args]
        if a.f in rules:
            return rules[a.f](*args)
        return app(a.f, *args, sort=a.sort)
    if isinstance(a, FApp):
        return patom(FApp(a.f, [replace(x, rules) for x in a.idx], [replace(x, rules) for x in a.lams],
                          [(s, tuple(replace(x, rules) for x in t)) for s, t in a.dv]))
    raise Unsupported("replace")


def _fold_inner(p):
    """fold() inside PA factors."""
    if "{" not in p.key:
        return p
    out, ch = [], False
    for m, c in p.terms.items():
        bn = {v.name for v, _ in m.binders}
        pas = [(a, e, fold(a.p)) for a, e in m.factors if isinstance(a, PA) and a.fv.isdisjoint(bn)]
        if all(q.key == a.p.key for a, e, q in pas):
            out.append(Poly({m: c}))
            continue
        ch = True
        keys = {a.key for a, _, _ in pas}
        bs, fs, r = open_mono(Mono(m.binders, tuple((a, e) for a, e in m.factors if a.key not in keys)))
        acc = _with(bs, [(fs, r)]).scale(c)
        for a, e, q in pas:
            acc = acc * ppow(q, e)
        out.append(acc)
    return psum(out) if ch else p


def _cut(m, k, at):
    """The summand of m with binder k set to `at`, summed over the other binders."""
    bs, fs, r = open_mono(m)
    v, n = bs[k]
    rest = [(u, q.subst({v.name: at})) for i, (u, q) in enumerate(bs) if i != k]
    rr = {x: y.subst({v.name: at}) for x, y in r.items()}
    return _with(rest, [(fs, rr)])


def _resize(m, k, n):
    """m with the bound of binder k replaced by n."""
    bs, fs, r = open_mono(m)
    bs2 = [(u, n if i == k else q) for i, (u, q) in enumerate(bs)]
    return _with(bs2, [(fs, r)])


def fold(p):
    """Telescoping: c*SUM_{x<N} b(x) + c*b(N) -> c*SUM_{x<N+1} b(x)   (0 <= N)
    and c*SUM_{x<N} b(x) - c*b(N-1) -> c*SUM_{x<N-1} b(x)   (1 <= N)."""
    p = _fold_inner(p)
    for _ in range(60):
        done = True
        # SUM_{x<N+k} b - SUM_{x<N} b
        for m, c in p.terms.items():
            if not m.binders or not done:
                continue
            for k, (v, n) in enumerate(m.binders):
                if not n.fv.isdisjoint({u.name for u, _ in m.binders}) or not done:
                    continue
                for m2, c2 in p.terms.items():
                    if m2 is m or c2 != -c or len(m2.binders) != len(m.binders):
                        continue
                    for v2, n2 in m2.binders:
                        dk = (n - n2).const()
                        if dk is None or dk.denominator != 1 or not 1 <= dk <= 3 or decide(le(ZERO, n2)) is not True:
                            continue
                        small = _resize(m, k, n2)
                        if small.terms != {m2: ONE}:
                            continue
                        p = p - Poly({m: c}) - Poly({m2: c2})
                        for j in range(int(dk)):
                            p = p + _cut(m, k, n2 + j).scale(c)
                        done = False
                        break
                    if not done:
                        break
        if not done:
            continue
        for m, c in p.terms.items():
            if not m.binders or not done:
                continue
            for k, (v, n) in enumerate(m.binders):
                if not n.fv.isdisjoint({u.name for u, _ in m.binders}):
                    continue
                if n.const() is not None or decide(le(ZERO, n)) is not True:
                    continue
                tail = _cut(m, k, n)
                if tail.terms and all(p.terms.get(tm) == tc * c for tm, tc in tail.terms.items()):
                    p = p - tail.scale(c) - Poly({m: c}) + _resize(m, k, n + 1).scale(c)
                    done = False
                    break
                if decide(le(PONE, n)) is True:
                    tail = _cut(m, k, n - 1)
                    if tail.terms and all(p.terms.get(tm) == -tc * c for tm, tc in tail.terms.items()):
                        p = p + tail.scale(c) - Poly({m: c}) + _resize(m, k, n - 1).scale(c)
                        done = False
                        break
        if done:
            return p
    return p


ONE_ = PONE
_PROBE = fresh_var('i', 'probe')


def app_names(x, out=None):
    """Names of all App atoms inside a term."""
    out = set() if out is None else out
    if isinstance(x, Poly):
        for m in x.terms:
            for v, n in m.binders:
                app_names(n, out)
            for a, _ in m.factors:
                app_names(a, out)
    elif isinstance(x, Lam):
        app_names(x.body, out)
        for r in x.ranges:
            app_names(r, out)
    elif isinstance(x, Cond):
        if x.p is not None:
            app_names(x.p, out)
        for a in x.args:
            app_names(a, out)
    elif isinstance(x, App):
        out.add(x.f)
        for a in x.args:
            app_names(a, out)
    elif isinstance(x, FApp):
        for a in list(x.idx) + list(x.lams) + [y for _, t in x.dv for y in t]:
            app_names(a, out)
    elif isinstance(x, Iv):
        app_names(x.cond, out)
    elif isinstance(x, PA):
        app_names(x.p, out)
    return out


def apps_of(x, name, out=None):
    """App atoms called `name` inside a term (including under binders, with canonical names)."""
    out = {} if out is None else out
    if name + "(" not in x.key:
        return out
    if isinstance(x, Poly):
        for m in x.terms:
            for v, n in m.binders:
                apps_of(n, name, out)
            for a, _ in m.factors:
                apps_of(a, name, out)
    elif isinstance(x, Lam):
        apps_of(x.body, name, out)
        for r in x.ranges:
            apps_of(r, name, out)
    elif isinstance(x, Cond):
        if x.p is not None:
            apps_of(x.p, name, out)
        for a in x.args:
            if isinstance(a, (Poly, Lam, Cond)):
                apps_of(a, name, out)
    elif isinstance(x, App):
        if x.f == name:
            out[x.key] = x
        for a in x.args:
            if isinstance(a, (Poly, Lam, Cond)):
                apps_of(a, name, out)
    elif isinstance(x, FApp):
        for a in list(x.idx) + list(x.lams) + [y for _, t in x.dv for y in t]:
            apps_of(a, name, out)
    elif isinstance(x, Iv):
        apps_of(x.cond, name, out)
    elif isinstance(x, PA):
        apps_of(x.p, name, out)
    return out


# ----------------------------------------------------------------- derivatives
def diff(p, v):
    """d p / d v for a real variable name v."""
    if v not in p.fv:
        return ZERO
    return psum(_diff_mono(m, v).scale(c) for m, c in p.terms.items() if v in m.fv)


def _diff_mono(m, v):
    bs, fs, r = open_mono(m)
    for b, n in bs:
        R.range[b.name] = (ZERO, n)
    try:
        ps = []
        for a, e in fs:
            if r is not None and not a.fv.isdisjoint(r):
                base = a.p.subst(r) if isinstance(a, PA) else a.subst(r)
            else:
                base = a.p if isinstance(a, PA) else patom(a)
            ps.append((base, e))
        out = []
        for i, (b, e) in enumerate(ps):
            db = _diff_poly_atom(b, v)
            if db.is_zero():
                continue
            t = db * ppow(b, e - 1).scale(e)
            for j, (b2, e2) in enumerate(ps):
                if j != i:
                    t = t * ppow(b2, e2)
            out.append(t)
        return sum_poly(bs, psum(out))
    finally:
        for b, _ in bs:
            R.range.pop(b.name, None)


def _diff_poly_atom(b, v):
    a = single(b)
    if a is None:
        return diff(b, v)
    if v not in a.fv:
        return ZERO
    if isinstance(a, Var):
        return PONE if a.name == v else ZERO
    if isinstance(a, Iv):
        return ZERO      # conditions are piecewise constant
    if isinstance(a, FApp):
        out = []
        for i in a.idx:
            if v in i.fv:
                raise Unsupported("derivative through an index")
        for s, L in enumerate(a.lams):
            if v not in L.fv:
                continue
            us = [fresh_var() for _ in L.params]
            rr = {p.name: pvar(u) for p, u in zip(L.params, us)}
            bs = [(u, rg.subst(rr)) for u, rg in zip(us, L.ranges)]
            for u, n in bs:
                R.range[u.name] = (ZERO, n)
            try:
                db = diff(L.body.subst(rr), v)
                t = patom(FApp(a.f, a.idx, a.lams, a.dv + ((s, tuple(pvar(u) for u in us)),))) * db
                out.append(sum_poly(bs, t))
            finally:
                for u, _ in bs:
                    R.range.pop(u.name, None)
        return psum(out)
    if isinstance(a, App):
        h = R.deriv.get(a.f) or DERIV.get(a.f)
        if h is None:
            raise Unsupported(f"derivative of {a.f}")
        return h(a.args, v)
    if isinstance(a, PA):
        return diff(a.p, v)
    raise Unsupported("diff")


DERIV = {
    "exp": lambda args, v: exp(args[0]) * diff(args[0], v),
    "log": lambda args, v: diff(args[0], v) / args[0],
    "abs": lambda args, v: app("sign", args[0]) * diff(args[0], v),
}


# ----------------------------------------------------------------- deciding conditions
def rebuild(p):
    """Re-normalise everything under the current facts."""
    u = fresh_var("i", "rb")
    names = [x for x in p.fv]
    if not names:
        return p
    # substitute each variable by itself through a round trip of fresh names
    fr = {nm: fresh_var(_vars[nm].sort, "rb") for nm in names if nm in _vars}
    for nm, v in fr.items():
        if nm in R.range:
            R.range[v.name] = R.range[nm]
        if nm in R.pos:
            R.pos.add(v.name)
        if nm in R.nonneg:
            R.nonneg.add(v.name)
    q = p.subst({nm: pvar(v) for nm, v in fr.items()})
    q = q.subst({v.name: pvar(_vars[nm]) for nm, v in fr.items()})
    for nm, v in fr.items():
        R.range.pop(v.name, None)
    return q


def decide(c, extra=()):
    """True / False / None (unknown) under R.range, R.pc and extra conditions."""
    if c.op == "true":
        return True
    if c.op == "false":
        return False
    from . import smt
    return smt.decide(c, extra)


def shift_canon(p, limit=6):
    """Sums whose summand uses its index only as v + c1, v + c2, ... with min c = 0 (boundary terms are split off)."""
    for _ in range(limit):
        out, ch = [], False
        for m, c in p.terms.items():
            q = _shift_one(m)
            if q is None:
                out.append(Poly({m: c}))
            else:
                out.append(q.scale(c))
                ch = True
        if not ch:
            return p
        p = psum(out)
    return p


def _shift_one(m):
    for k, (v, n) in enumerate(m.binders):
        if any(v.name in q.fv for w, q in m.binders if w is not v):
            continue
        offs = []
        for a, e in m.factors:
            if v.name not in a.fv:
                continue
            if not isinstance(a, App):
                offs = None
                break
            for x in a.args:
                if v.name not in x.fv:
                    continue
                d = (x - pvar(v)).const() if isinstance(x, Poly) else None
                if d is None or d.denominator != 1:
                    offs = None
                    break
                offs.append(int(d))
            if offs is None:
                break
        if not offs or min(offs) == 0:
            continue
        c = min(offs)
        if abs(c) > 3:
            continue
        bs, fs, r = open_mono(m)
        u = bs[k][0]
        rest = bs[:k] + bs[k + 1:]
        n2 = bs[k][1]
        if c < 0 and decide(le(const(-c), n2)) is not True:
            continue
        w = fresh_var()
        R.range[w.name] = (ZERO, n2 + c)
        try:
            r2 = dict(r)
            sub = {vv: (pvar(w) - c if pvar_name(q) == u.name else q) for vv, q in r2.items()}
            main = _with(rest + [(w, n2 + c)], [(fs, sub)])
            edge = []
            for q0 in (range(c, 0) if c < 0 else range(0, c)):
                sub = {vv: (const(q0) - c if pvar_name(q) == u.name else q) for vv, q in r2.items()}
                edge.append(_with(list(rest), [(fs, sub)]))
        finally:
            R.range.pop(w.name, None)
        return main + psum(edge) if c < 0 else main - psum(edge)
    return None


def pvar_name(q):
    a = single(q)
    return a.name if isinstance(a, Var) else None
