"""z3 back end: deciding conditions on index/size terms (and simple real ones)."""
import os
import random
import time
import z3
from . import term as T

STATS = {"queries": 0, "z3_s": 0.0, "cache": 0, "unknown": 0}
TIMEOUT_MS = 12000          # wall clock, reached only on an overloaded machine
RLIMIT = 4_000_000         # z3 resource units, about 1.5 s: the deciding limit, so that load does not change answers


def lo_hi_quick(p, sign, depth=6):
    """A constant lower bound of p (sign=+1) using variable ranges, or None."""
    for _ in range(depth):
        c = p.const()
        if c is not None:
            return c
        progressed = False
        for m, k in p.terms.items():
            if m.key == "":
                continue
            if m.binders or len(m.factors) != 1 or m.factors[0][1] != 1:
                return None
            a = m.factors[0][0]
            if not isinstance(a, T.Var):
                return None
            r = T.R.range.get(a.name)
            if r is None:
                return None
            b = r[0] if k > 0 else (None if r[1] is None else r[1] - 1)
            if b is None:
                continue
            if a.name in b.fv:
                return None
            # prefer substituting variables that have symbolic bounds last
            if any(a.name in (rr[0].fv | (rr[1].fv if rr[1] is not None else frozenset()))
                   for nm, rr in ((x, T.R.range[x]) for x in p.fv if x in T.R.range) if nm != a.name):
                continue
            q = T.Poly({mm: cc for mm, cc in p.terms.items() if mm is not m}) + b.scale(k)
            p = q
            progressed = True
            break
        if not progressed:
            return None
    return p.const()


def quick(c):
    if c.op == "le" and c.p.sort == "i":
        lo = lo_hi_quick(-c.p, 1)       # -p >= lo
        if lo is not None and lo >= 0:
            return True
        lo = lo_hi_quick(c.p, 1)
        if lo is not None and lo > 0:
            return False
    if c.op == "eq" and c.p.sort == "i":
        lo = lo_hi_quick(c.p, 1)
        if lo is not None and lo > 0:
            return False
        lo = lo_hi_quick(-c.p, 1)
        if lo is not None and lo > 0:
            return False
    return None


class Tr:
    """Translation of terms to z3 with the facts needed about the atoms met."""

    def __init__(self):
        self.consts = {}
        self.queue = []      # facts to add (Cond)
        self.seen = set()
        self.sums = []
        self.apps = []
        self.names = set()

    def const(self, key, sort):
        k = (key, sort)
        if k not in self.consts:
            self.consts[k] = z3.Int(key) if sort == "i" else z3.Real(key)
        return self.consts[k]

    def atom(self, a):
        if isinstance(a, T.Var):
            if a.name not in self.names:
                self.names.add(a.name)
                r = T.R.range.get(a.name)
                if r is not None:
                    v = T.pvar(a)
                    self.queue.append(T.le(r[0], v))
                    if r[1] is not None:
                        self.queue.append(T.lt(v, r[1]))
                if a.sort == "r" and a.name in T.R.pos:
                    self.queue.append(T.Cond("lt", -T.pvar(a)))
                elif a.sort == "r" and a.name in T.R.nonneg:
                    self.queue.append(T.Cond("le", -T.pvar(a)))
            return self.const(a.name, a.sort)
        if a.key not in self.seen:
            self.seen.add(a.key)
            if isinstance(a, T.App):
                if a.sort == "i" and a.args and all(isinstance(x, T.Poly) for x in a.args):
                    self.apps.append(a)
                for lem in T.R.int_lemmas:
                    self.queue.extend(lem(a))
                if a.f in T.R.pos or T.is_pos_atom(a):
                    self.queue.append(T.Cond("lt", -T.patom(a)) if a.sort == "r" else T.le(T.PONE, T.patom(a)))
                elif a.f in T.R.nonneg:
                    self.queue.append(T.Cond("le", -T.patom(a)))
        if isinstance(a, T.Iv):
            return z3.If(self.cond(a.cond), z3.IntVal(1), z3.IntVal(0))
        return self.const(a.key, a.sort)

    def mono(self, m):
        if m.binders:
            if m.key not in self.seen:
                self.seen.add(m.key)
                if T._mono_sign(m, 1) >= 1:
                    self.queue.append(T.Cond("le", T.Poly({m: -T.ONE})))
                if len(m.binders) == 1:
                    self.sums.append(m)
            s = "i" if T.Poly({m: T.ONE}).sort == "i" else "r"
            return self.const(m.key, s)
        out = None
        for a, e in m.factors:
            if isinstance(a, T.PA) or e.denominator != 1 or e < 0:
                x = self.const(f"{a.key}^{e}", "r")
                if T.is_pos_atom(a) and f"{a.key}^{e}" not in self.seen:
                    self.seen.add(f"{a.key}^{e}")
                    self.pos_consts = getattr(self, "pos_consts", [])
                    self.pos_consts.append(x > 0)
            else:
                b = self.atom(a)
                x = b
                for _ in range(int(e) - 1):
                    x = x * b
            out = x if out is None else out * x
        return z3.IntVal(1) if out is None else out

    def poly(self, p):
        from math import gcd
        if not p.terms:
            return z3.IntVal(0)
        den = 1
        for c in p.terms.values():
            den = den * c.denominator // gcd(den, c.denominator)
        out = None
        for m, c in p.terms.items():
            x = self.mono(m) * z3.IntVal(int(c * den))
            out = x if out is None else out + x
        return out      # scaled by den > 0: fine for comparisons with 0

    def poly_eq(self, x, y):
        return self.cond(T.eq(x, y))

    def cond(self, c):
        if c.op == "true":
            return z3.BoolVal(True)
        if c.op == "false":
            return z3.BoolVal(False)
        if c.op == "eq":
            return self.poly(c.p) == 0
        if c.op == "le":
            return self.poly(c.p) <= 0
        if c.op == "lt":
            return self.poly(c.p) < 0
        if c.op == "and":
            return z3.And(*[self.cond(a) for a in c.args])
        if c.op == "or":
            return z3.Or(*[self.cond(a) for a in c.args])
        if c.op == "not":
            return z3.Not(self.cond(c.args[0]))
        return z3.Bool(c.key)

    def facts(self, s, limit=60):
        n = 0
        while self.queue and n < limit:
            f = self.queue.pop(0)
            n += 1
            s.add(self.cond(f))
        for i, m1 in enumerate(self.sums):
            for m2 in self.sums:
                if m1 is m2:
                    continue
                b1, b2 = body_of(m1), body_of(m2)
                if b1 is None or b2 is None or b1[2] != b2[2]:
                    continue
                if T._mono_sign(m1, 1) < 1:
                    continue
                A, B = b1[1], b2[1]
                c1 = self.cond(T.le(A, B))
                x1, x2 = self.mono(m1), self.mono(m2)
                s.add(z3.Implies(c1, x1 <= x2))
                step = T.Poly({T.Mono((), b1[3]): T.ONE}).subst({b1[0]: A})
                s.add(z3.Implies(self.cond(T.le(A + 1, B)), x1 + self.poly(step) <= x2))
        for m1 in self.sums:         # an empty sum
            b1 = body_of(m1)
            s.add(z3.Implies(self.cond(T.le(b1[1], T.ZERO)), self.mono(m1) == 0))
        # congruence of the integer functions met
        done = 0
        for i, a in enumerate(self.apps):
            for b in self.apps[:i]:
                if a.f != b.f or len(a.args) != len(b.args) or done >= 40:
                    continue
                done += 1
                s.add(z3.Implies(z3.And(*[self.poly_eq(x, y) for x, y in zip(a.args, b.args)]), self.const(a.key, "i") == self.const(b.key, "i")))
        while self.queue and n < limit:
            f = self.queue.pop(0)
            n += 1
            s.add(self.cond(f))
        for x in getattr(self, "pos_consts", []):
            s.add(x)


_CANON = T.var("<body>", "i")


def body_of(m):
    (v, n), = m.binders
    # name-free body key (single binder): depth-normalised already
    key = T.Poly({T.Mono((), m.factors): T.ONE}).subst({v.name: T.pvar(_CANON)}).key
    return v.name, n, key, m.factors


def relevant(c, extra):
    names = set(c.fv)
    for e in extra:
        names |= e.fv
    pcs = []
    todo = list(T.R.pc)
    changed = True
    while changed:
        changed = False
        for n in list(names):
            r = T.R.range.get(n)
            if r is not None:
                new = r[0].fv | (r[1].fv if r[1] is not None else frozenset())
                if not new <= names:
                    names |= new
                    changed = True
        rest = []
        for p in todo:
            if not p.fv or p.fv & names:
                pcs.append(p)
                if not p.fv <= names:
                    names |= p.fv
                changed = True
            else:
                rest.append(p)
        todo = rest
    return names, pcs


UNK = float(os.environ.get("VF_Z3_UNK", "0"))      # self-test: answer "unknown" at random
RND = random.Random(os.environ.get("VF_Z3_UNK_SEED", "0"))


class Solver(z3.Solver):
    def check(self, *a):
        if UNK and RND.random() < UNK:
            return z3.unknown
        return super().check(*a)


def solver():
    s = Solver()
    s.set("timeout", TIMEOUT_MS)
    s.set("rlimit", RLIMIT)
    return s


def decide(c, extra=()):
    if not c.fv and c.op in ("eq", "le", "lt"):
        pass
    q = quick(c)
    if q is not None:
        return q
    names, pcs = relevant(c, extra)
    rk = ";".join(f"{n}:{T.R.range[n][0].key},{T.R.range[n][1].key if T.R.range[n][1] is not None else ''}"
                  for n in sorted(names) if n in T.R.range)
    key = (c.key, tuple(sorted(e.key for e in extra)), tuple(p.key for p in pcs), rk)
    if key in T.R.cache:
        STATS["cache"] += 1
        return T.R.cache[key]
    for p in pcs + list(extra):
        if p.key == c.key:
            T.R.cache[key] = True
            return True
    nc = T.cnot(c)
    for p in pcs + list(extra):
        if p.key == nc.key:
            T.R.cache[key] = False
            return False
    T.R.cache[key] = None     # guards recursion through lemma construction
    t0 = time.time()
    STATS["queries"] += 1
    tr = Tr()
    s = solver()
    zc = tr.cond(c)
    for p in pcs:
        s.add(tr.cond(p))
    for e in extra:
        s.add(tr.cond(e))
    tr.facts(s)
    out = None
    s.push()
    s.add(z3.Not(zc))
    r = s.check()
    if r == z3.unsat:
        out = True
    else:
        if r == z3.unknown:
            STATS["unknown"] += 1
        s.pop()
        s.add(zc)
        r = s.check()
        if r == z3.unsat:
            out = False
    STATS["z3_s"] += time.time() - t0
    T.R.cache[key] = out
    return out


def pc_model(want=(), prefer_small=True, seed=0, extra=()):
    """A model of the path condition for the integer variables in `want`."""
    tr = Tr()
    s = solver()
    s.set("random_seed", seed)
    for p in T.R.pc:
        s.add(tr.cond(p))
    for e in extra:
        s.add(tr.cond(e))
    vs = {}
    for n in want:
        vs[n] = tr.atom(T.var(n, "i"))
    tr.facts(s, limit=200)
    return s, tr, vs


def satisfiable():
    """True / False / None: the path condition with the facts about its atoms."""
    tr = Tr()
    s = solver()
    s.set("timeout", 8000)
    s.set("rlimit", 0)
    for p in T.R.pc:
        s.add(tr.cond(p))
    tr.facts(s, limit=400)
    STATS["queries"] += 1
    t0 = time.time()
    r = s.check()
    STATS["z3_s"] += time.time() - t0
    return True if r == z3.sat else False if r == z3.unsat else None


def feasible(extra=()):
    tr = Tr()
    s = solver()
    for p in T.R.pc:
        s.add(tr.cond(p))
    for e in extra:
        s.add(tr.cond(e))
    tr.facts(s, limit=200)
    STATS["queries"] += 1
    t0 = time.time()
    r = s.check()
    STATS["z3_s"] += time.time() - t0
    return r != z3.unsat
