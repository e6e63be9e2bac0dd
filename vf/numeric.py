"""Concrete evaluation of terms: counter-model search (never used to accept an obligation)."""
import hashlib
import itertools
import math
import random
import mpmath
from mpmath import mp, mpf
from . import term as T
from .term import R

MAXLOOP = 4000
mp.dps = 60


class Undef(Exception):
    """A value outside the domain (1/0, log of a negative number, ...)."""


def _h(*xs):
    d = hashlib.sha256("|".join(map(str, xs)).encode()).digest()
    return int.from_bytes(d[:8], "big") / 2**64


class Ev:
    """One random concrete instance (deterministic in `seed`)."""

    def __init__(self, seed=0, maxdim=3, precise=False):
        """precise: 60 digits, and real inputs of very different magnitudes."""
        self.seed = seed
        self.maxdim = maxdim
        self.precise = precise
        self.F = mpf if precise else float
        self.m = mpmath if precise else math
        self.eps = mpf(10) ** -40 if precise else 1e-12
        self.maxloops = 20000 if precise else 400000
        self.env = {}
        self.memo = {}
        self.loops = 0

    def magnitude(self, name):
        """The scale of a real input in a precise instance."""
        if not self.precise:
            return 1
        modes = ((-5,), (-9,), (0, -4, -8), (0, 2), (0, -2, -12), (0, 1, -6))
        ks = modes[self.seed % len(modes)]
        return mpf(10) ** ks[int(_h(self.seed, "magnitude", name) * len(ks))]

    # -- variables
    def var(self, a):
        if a.name in self.env:
            return self.env[a.name]
        if a.sort == "i":
            r = R.range.get(a.name)
            lo, hi = 0, None
            if r is not None:
                lo = self.poly(r[0], {})
                hi = None if r[1] is None else self.poly(r[1], {})
            if hi is None:
                hi = lo + self.maxdim + (1 if lo == 0 else 0)
            if hi <= lo:
                raise Undef("empty range")
            v = lo + int(_h(self.seed, a.name) * (hi - lo))
        else:
            u = _h(self.seed, a.name)
            if a.name in R.pos:
                v = 0.3 + 1.7 * u
            elif a.name in R.nonneg:
                v = 1.8 * u
            else:
                v = 3 * u - 1.5
            if self.precise:
                v = v * self.magnitude(a.name)
        self.env[a.name] = v
        return v

    def in_range(self, name):
        """Values prescribed from outside are within the declared range under this instance's functions."""
        r = R.range.get(name)
        if r is None:
            return True
        v = self.env[name]
        return v >= self.poly(r[0], {}) and (r[1] is None or v < self.poly(r[1], {}))

    # -- polys
    def poly(self, p, env):
        s = 0
        for m, c in p.terms.items():
            x = self.mono(m, env)
            s = s + (x * c.numerator if c.denominator == 1 else x * (mpf(c.numerator) / c.denominator if self.precise else float(c)))
        return s

    def mono(self, m, env):
        if not m.binders:
            return self.prod(m.factors, env)
        bs, left = [], list(m.binders)
        while left:
            names = {v.name for v, _ in left}
            for b in left:
                if b[1].fv.isdisjoint(names):
                    bs.append(b)
                    left.remove(b)
                    break
            else:
                raise Undef("cyclic binders")
        return self._loop(bs, m, 0, dict(env))

    def _loop(self, bs, m, k, env):
        if k == len(bs):
            self.loops += 1
            if self.loops > self.maxloops:
                raise Undef("too large")
            return self.prod(m.factors, env)
        v = bs[k][0]
        n = self.order(bs, k, env)
        s = 0
        for i in range(n):
            env[v.name] = i
            s += self._loop(bs, m, k + 1, env)
        env.pop(v.name, None)
        return s

    def order(self, bs, k, env):
        n = self.poly(bs[k][1], env)
        if n > MAXLOOP:
            raise Undef("too large")
        return n

    def prod(self, factors, env):
        out = 1
        ivs = [f for f in factors if isinstance(f[0], T.Iv)]
        for a, e in ivs:
            if not self.cond(a.cond, env):
                if e < 0:
                    raise Undef("1/0")
                return 0
        for a, e in factors:
            if isinstance(a, T.Iv):
                continue
            x = self.poly(a.p, env) if isinstance(a, T.PA) else self.atom(a, env)
            if e == 1:
                out = out * x
                continue
            if x == 0 and e < 0:
                raise Undef("1/0")
            if e.denominator != 1:
                if x < 0:
                    if x > -self.eps:
                        x = self.F(0)
                    else:
                        raise Undef("root of a negative number")
                if x == 0 and e < 0:
                    raise Undef("1/0")
            if isinstance(x, int) and e.denominator == 1 and e > 0:
                out = out * x ** int(e)
            else:
                out = out * (mpf(x) ** (mpf(e.numerator) / e.denominator) if self.precise else float(x) ** float(e))
        return out

    def atom(self, a, env):
        if isinstance(a, T.Var):
            if a.name in env:
                return env[a.name]
            return self.var(a)
        if isinstance(a, T.FApp):
            return self.fapp(a, env)
        if isinstance(a, T.App):
            return self.app(a, env)
        raise AssertionError(a)

    def table(self, L, env):
        out = []

        def rec(k, env):
            if k == len(L.params):
                out.append(self.poly(L.body, env))
                return
            n = self.poly(L.ranges[k], env)
            for i in range(n):
                env[L.params[k].name] = i
                rec(k + 1, env)
            env.pop(L.params[k].name, None)
        rec(0, dict(env))
        return out

    def dims(self, L, env):
        return [self.poly(r, env) for r in L.ranges]

    def fapp(self, a, env):
        idx = tuple(self.poly(i, env) for i in a.idx)
        arg1, arg2 = 0.0, 0.0
        for s, L in enumerate(a.lams):
            for k, x in enumerate(self.table(L, env)):
                arg1 += self.w(a.f, idx, s, k, 1) * x
                arg2 += self.w(a.f, idx, s, k, 2) * x
        d1, d2 = 1.0, 1.0
        for s, t in a.dv:
            ix = [self.poly(x, env) for x in t]
            n = self.dims(a.lams[s], env)
            k = 0
            for x, y in zip(ix, n):
                k = k * y + x
            d1 *= self.w(a.f, idx, s, k, 1)
            d2 *= self.w(a.f, idx, s, k, 2)
        c = 2 * math.pi * _h(self.seed, "c", a.f, idx)
        n = len(a.dv)
        m = self.m
        if self.precise and abs(arg2) > 2000:
            raise Undef("too large")
        return d1 * m.sin(c + arg1 + n * m.pi / 2) + d2 * m.exp(arg2 if self.precise else min(arg2, 30.0))

    def w(self, *k):
        key = k
        if key not in self.memo:
            self.memo[key] = 1.2 * _h(self.seed, *k) - 0.5
        return self.memo[key]

    def app(self, a, env):
        f = a.f
        h = R.interp.get(f) or INTERP.get(f)
        if h is not None:
            return h(self, a, env)
        # uninterpreted: smooth in real arguments, arbitrary in integer ones
        ints, reals = [], []
        for x in a.args:
            if isinstance(x, T.Poly):
                v = self.poly(x, env)
                (ints if x.sort == "i" else reals).append(v)
            elif isinstance(x, T.Lam):
                tb = self.table(x, env)
                if x.body.sort == "i":
                    ints.append(tuple(tb))
                else:
                    ints.append(tuple(self.dims(x, env)))
                    reals.extend(tb)
            elif isinstance(x, T.Cond):
                ints.append(self.cond(x, env))
            else:
                ints.append(str(x))
        b = _h(self.seed, "app", f, ints)
        if a.sort == "i":
            fr = R.fn_range.get(f)
            lo, hi = 0, None
            if fr is not None:
                lo, hi = fr(a.args)
                lo = self.poly(lo, env)
                hi = None if hi is None else self.poly(hi, env)
            if f in R.pos:
                lo = max(lo, 1)
            if hi is None:
                hi = lo + self.maxdim
            if reals:
                b = (b + sum((0.37 + 0.61 * ((k * 7) % 5)) * r for k, r in enumerate(reals))) % 1.0
            return lo + int(b * max(1, hi - lo))
        x = 2 * b - 1
        for k, r in enumerate(reals):
            x += (0.9 * _h(self.seed, "w", f, ints, k) + 0.2) * self.m.sin(r + k)
        if f in R.pos:
            x = self.m.exp(0.5 * x)
        elif f in R.nonneg:
            x = abs(x)
        return x * self.magnitude(f) if self.precise else x

    def digest(self, v):
        if isinstance(v, mpf):
            return mpmath.nstr(v, 20)
        return round(v, 6) if isinstance(v, float) else v

    # -- conditions
    def cond(self, c, env):
        if c.op == "true":
            return True
        if c.op == "false":
            return False
        if c.op in ("eq", "le", "lt"):
            v = self.poly(c.p, env)
            if c.p.sort == "r":
                v = self.F(v)
                if c.op == "eq":
                    return abs(v) < self.eps
                return v <= self.eps / 10 if c.op == "le" else v < -self.eps / 10
            return v == 0 if c.op == "eq" else (v <= 0 if c.op == "le" else v < 0)
        if c.op == "and":
            return all(self.cond(a, env) for a in c.args)
        if c.op == "or":
            return any(self.cond(a, env) for a in c.args)
        if c.op == "not":
            return not self.cond(c.args[0], env)
        if c.op == "capp":
            ks = []
            for a in c.args[1:]:
                if isinstance(a, T.Poly):
                    v = self.poly(a, env)
                    ks.append(self.digest(v))
                elif isinstance(a, T.Lam):
                    ks.append(tuple(self.digest(x if isinstance(x, mpf) else float(x)) for x in self.table(a, env)))
                else:
                    ks.append(str(a))
            h = R.interp.get("?" + c.args[0])
            if h is not None:
                return h(self, c, env)
            return _h(self.seed, c.args[0], ks) < 0.5
        if c.op == "forall":
            L, = c.args
            return all(abs(float(x)) > 0.5 for x in self.table(L, env))
        raise Undef(c.op)


def _exp(ev, a, env):
    x = ev.F(ev.poly(a.args[0], env))
    if x > (100000 if ev.precise else 300):
        raise Undef("overflow")
    return ev.m.exp(x)


def _log(ev, a, env):
    x = ev.poly(a.args[0], env)
    if x <= 0:
        raise Undef("log")
    return ev.m.log(x)


def _sign(ev, a, env):
    x = ev.poly(a.args[0], env)
    return (x > 0) - (x < 0)


def _argmax(ev, a, env):
    t = ev.table(a.args[0], env)
    if not t:
        raise Undef("empty")
    return t.index(max(t))


def _max(ev, a, env):
    t = ev.table(a.args[0], env)
    if not t:
        raise Undef("empty")
    return max(t)


def _idiv(ev, a, env):
    x, d = ev.poly(a.args[0], env), ev.poly(a.args[1], env)
    if d == 0:
        raise Undef("1/0")
    return x // d


def _find(ev, a, env):
    L, p = a.args
    p = ev.poly(p, env)
    n = ev.poly(L.ranges[0], env)
    off = 0
    for j in range(n):
        s = ev.poly(L.body, {**env, L.params[0].name: j})
        if off <= p < off + s:
            return j
        off += s
    return 0


def _order(ev, L, env):
    t = ev.table(L, env)
    return sorted(range(len(t)), key=lambda c: (-t[c], c))


def _topidx(ev, a, env):
    o, j = _order(ev, a.args[0], env), ev.poly(a.args[1], env)
    if not 0 <= j < len(o):
        raise Undef("rank outside the sequence")
    return o[j]


def _rank(ev, a, env):
    o, t = _order(ev, a.args[0], env), ev.poly(a.args[1], env)
    if t not in o:
        raise Undef("no such class")
    return o.index(t)


INTERP = {
    "imin": lambda ev, a, env: min(ev.poly(a.args[0], env), ev.poly(a.args[1], env)),
    "bitand": lambda ev, a, env: ev.poly(a.args[0], env) & ev.poly(a.args[1], env),
    "bitor": lambda ev, a, env: ev.poly(a.args[0], env) | ev.poly(a.args[1], env),
    "floor": lambda ev, a, env: int(mpmath.floor(ev.poly(a.args[0], env))), "topidx": _topidx, "rank": _rank,
    "exp": _exp, "log": _log, "sign": _sign, "max": _max, "argmax": _argmax, "idiv": _idiv, "find": _find,
    "abs": lambda ev, a, env: abs(ev.poly(a.args[0], env)),
    "pi": lambda ev, a, env: +ev.m.pi,
    "erf": lambda ev, a, env: ev.m.erf(ev.poly(a.args[0], env)),
    "trunc": lambda ev, a, env: int(ev.poly(a.args[0], env)),
    "zeropow": lambda ev, a, env: (_ for _ in ()).throw(Undef("1/0")),
    "tanh": lambda ev, a, env: ev.m.tanh(ev.poly(a.args[0], env)),
    "cos": lambda ev, a, env: ev.m.cos(ev.poly(a.args[0], env)),
    "sin": lambda ev, a, env: ev.m.sin(ev.poly(a.args[0], env)),
}


def instances(n=6, tries=300, seed0=0, extra=(), fix=None, precise=False):
    """Up to n random instances satisfying the path condition."""
    got = 0
    for k in range(tries):
        ev = Ev(seed0 + k, maxdim=3 if k % 3 and not precise else 2, precise=precise)
        if fix:
            ev.env.update(fix)
        try:
            ok = all(ev.cond(c, {}) for c in list(R.pc) + list(extra)) and all(ev.in_range(x) for x in fix or ())
        except (Undef, RecursionError, OverflowError, ZeroDivisionError):
            continue
        if not ok:
            continue
        got += 1
        yield ev
        if got >= n:
            return


def z3_fix(seed=0, extra=(), at=None, rest=()):
    """A small model of the integer part of the path condition, as an env; the names in `rest` are zero where possible."""
    from . import smt
    import z3
    names = set()
    for c in list(R.pc) + list(extra):
        names |= {x for x in c.fv if x in T._vars and T._vars[x].sort == "i"}
    names = {x for x in names if x in R.range}
    if at is not None:
        todo, done = [at[0], *rest], set()
        while todo:
            x = todo.pop()
            if x in done or x not in R.range:
                continue
            done.add(x)
            names.add(x)
            todo += [y for b in R.range[x] if b is not None for y in b.fv if y in T._vars]
    if not names:
        return {}
    s, tr, vs = smt.pc_model(names, seed=seed, extra=extra)
    rnd = random.Random(seed)
    if at is not None:
        s.add(vs[at[0]] == at[1])
    for nm, v in vs.items():
        s.push()
        s.add(v <= 0 if nm in rest else v <= rnd.choice([2, 3, 4]))
        if s.check() != z3.sat:
            s.pop()
    if s.check() != z3.sat:
        return None
    m = s.model()
    return {nm: m.eval(v, model_completion=True).as_long() for nm, v in vs.items()}
