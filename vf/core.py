"""Symbolic values: numbers, booleans, arrays, lists, trees; path exploration."""
import functools
from fractions import Fraction
from . import term as T
from .term import Poly, Cond, Unsupported, R, as_poly


# ================================================================= exploration
class PathEnd(BaseException):
    """This path ends here (infeasible, or an inductive step was completed)."""


class TracerError(TypeError):
    """jax.errors.TracerBoolConversionError"""


class Engine:
    """State of the current path."""

    def __init__(self):
        self.prefix = []
        self.decisions = []
        self.pending = []
        self.loop_plans = {}
        self.loop_policy = None
        self.obligations = None
        self.assumptions = set()
        self.effects = []
        self.loop_hints, self.loop_count = {}, {}
        self.loop_ghosts = []
        self.pins, self.pinnable = {}, set()
        self.depth = 0
        self.generic = set()     # generic element indices: no branching on them
        self.traced = set()      # vmapped indices: branching on them is an error in JAX

    def branch(self, cond):
        t = T.decide(cond)
        if t is not None:
            return t
        if cond.fv & self.traced:
            raise TracerError("Attempted boolean conversion of traced array")
        if cond.fv & self.generic:
            raise Unsupported(f"branch on a generic element: {cond.key[:120]}")
        k = len(self.decisions)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            if k > 60:
                raise Unsupported("too many branches on one path")
            from . import smt
            ft = smt.feasible([cond])
            ff = smt.feasible([T.cnot(cond)])
            if not ft and not ff:
                raise PathEnd("infeasible")
            if ft and ff:
                self.pending.append(self.prefix[:0] + self.decisions + [False])
                d = True
            else:
                d = ft
        self.decisions.append(d)
        self.assume(cond if d else T.cnot(cond))
        return d

    def choose(self, n, what=""):
        """Nondeterministic choice among n alternatives (all explored)."""
        k = len(self.decisions)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            for alt in range(1, n):
                self.pending.append(self.decisions + [alt])
            d = 0
        self.decisions.append(d)
        return d

    def assume(self, cond):
        if cond.op == "and":
            for c in cond.args:
                self.assume(c)
            return
        if cond.op == "true":
            return
        if cond.op == "false":
            raise PathEnd("assumed false")
        R.pc.append(cond)
        R.bump()
        self.maybe_pin(cond)

    def maybe_pin(self, cond):
        """A size whose value is forced by the path is made a constant: that case is explored again
        from the start with the constant in place (the remaining path is covered by it)."""
        if cond.op not in ("le", "eq") or len(cond.fv) != 1 or not self.pinnable:
            return
        nm = next(iter(cond.fv))
        if nm not in self.pinnable or nm in self.pins:
            return
        lo = R.range.get(nm, (None, None))[0]
        if lo is None or lo.const() is None:
            return
        if T.decide(T.eq(T.pvar(T._vars[nm]), lo)) is True:
            self.pending.append(("pin", {**self.pins, nm: int(lo.const())}))
            raise PathEnd("pinned")


E = Engine()


class generic:
    def __init__(self, *vs):
        self.vs = {v.name for v in vs}

    def __enter__(self):
        self.new = self.vs - E.generic
        E.generic |= self.new

    def __exit__(self, *a):
        E.generic -= self.new


class traced(generic):
    def __enter__(self):
        self.new = self.vs - E.traced
        E.traced |= self.new

    def __exit__(self, *a):
        E.traced -= self.new


def assume(c):
    E.assume(as_cond(c))


def as_cond(x):
    if isinstance(x, Cond):
        return x
    if isinstance(x, SymBool):
        return x.cond
    if isinstance(x, bool):
        return T.TRUE if x else T.FALSE
    if isinstance(x, SymArray):
        return elem_cond(x.item_poly())
    raise Unsupported(f"condition from {type(x).__name__}")


def elem_cond(p):
    """Condition of a 0/1-valued term."""
    c = p.const()
    if c is not None:
        return T.TRUE if c != 0 else T.FALSE
    a = T.single(p)
    if isinstance(a, T.Iv):
        return a.cond
    q = T.PONE - p
    a = T.single(q)
    if isinstance(a, T.Iv):
        return T.cnot(a.cond)
    return T.cnot(T.eq(p, T.ZERO))


# ================================================================= scalars
# Attributes the real objects have: asking for one without a contract is not an error of the code under test.
REAL_ATTRS = {
    "array": set("addressable_data addressable_shards all any argmax argmin argpartition argsort astype at aval block_until_ready choose clip clone committed compress conj conjugate copy copy_to_host_async cumprod cumsum delete device devices diagonal dot dtype flat flatten global_shards imag is_deleted is_fully_addressable is_fully_replicated is_ready item itemsize mT max mean min nbytes ndim nonzero on_device_size_in_bytes platform prod ptp ravel real repeat reshape round searchsorted shape sharding size sort squeeze std sum swapaxes take to_device tobytes tolist trace transpose unsafe_buffer_pointer var view weak_type".split()),
    "tree": set("items keys values get pop popitem setdefault update copy append extend insert remove index count sort reverse _fields _replace _asdict".split()),
    "list": set("append extend insert remove index count sort reverse pop copy clear".split()),
    "number": set("addressable_data addressable_shards all any argmax argmin argpartition argsort astype at aval block_until_ready choose clip clone committed compress conj conjugate copy copy_to_host_async cumprod cumsum delete device devices diagonal dot dtype flat flatten global_shards imag is_deleted is_fully_addressable is_fully_replicated is_ready item itemsize mT max mean min nbytes ndim nonzero on_device_size_in_bytes platform prod ptp ravel real repeat reshape round searchsorted shape sharding size sort squeeze std sum swapaxes take to_device tobytes tolist trace transpose unsafe_buffer_pointer var view weak_type bit_length as_integer_ratio is_integer numerator denominator hex fromhex to_bytes".split()),
    "at": set("add apply divide get max min mul multiply power set subtract".split()),
}


def missing(kind):
    def __getattr__(self, k):
        if k in REAL_ATTRS[kind] and not k.startswith("__"):
            raise Unsupported(f"attribute {k} of a symbolic {kind}")
        raise AttributeError(f"a symbolic {kind} has no attribute {k!r}")
    return __getattr__


class SymBool:
    __slots__ = ("cond",)
    __getattr__ = missing("number")

    def __init__(self, cond):
        self.cond = cond

    def __bool__(self):
        return E.branch(self.cond)

    def __invert__(self):
        return SymBool(T.cnot(self.cond))

    def __and__(self, o):
        return SymBool(T.cand(self.cond, as_cond(o)))

    def __or__(self, o):
        return SymBool(T.cor(self.cond, as_cond(o)))
    __rand__, __ror__ = __and__, __or__

    def __eq__(self, o):
        return SymBool(T.eq(T.iv(self.cond), scalar_poly(o)))

    def __mul__(self, o):
        return mknum(T.iv(self.cond)) * o
    __rmul__ = __mul__

    def __repr__(self):
        return f"SymBool({self.cond})"
    __hash__ = None


def mknum(p):
    c = p.const()
    if c is not None and c.denominator == 1 and p.sort == "i":
        return int(c)
    return SymNum(p)


def scalar_poly(x):
    if isinstance(x, SymNum):
        return x.p
    if isinstance(x, SymBool):
        return T.iv(x.cond)
    if isinstance(x, SymArray):
        return x.item_poly()
    if isinstance(x, bool):
        return T.PONE if x else T.ZERO
    if isinstance(x, (int, float, Fraction, Poly)):
        return as_poly(x)
    raise Unsupported(f"scalar expected, got {type(x).__name__}")


def is_scalar(x):
    return isinstance(x, (SymNum, SymBool, int, float, Fraction))


def div(a, b):
    """Real division; the denominator is assumed non-zero (recorded)."""
    return a / b


class SymNum:
    """A symbolic Python number."""
    __slots__ = ("p", "isfloat")
    __getattr__ = missing("number")

    def __init__(self, p, isfloat=None):
        self.p = p
        self.isfloat = (p.sort != "i") if isfloat is None else isfloat

    def _bin(self, o, f, isf=None):
        if isinstance(o, SymArray):
            return NotImplemented
        if not is_scalar(o):
            return NotImplemented
        r = f(self.p, scalar_poly(o))
        c = r.const()
        fl = self.isfloat or isinstance(o, float) or (isinstance(o, SymNum) and o.isfloat)
        if isf is not None:
            fl = isf
        if not fl and c is not None and c.denominator == 1:
            return int(c)
        return SymNum(r, fl)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o):
        if isinstance(o, (list, tuple)) and not isinstance(o, ShapeT):
            return SymList(self.p, T.fresh_var(), o[0]) if len(o) == 1 else NotImplemented
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b, True)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a, True)
    def __floordiv__(self, o): return self._bin(o, idiv)
    def __rfloordiv__(self, o): return self._bin(o, lambda a, b: idiv(b, a))
    def __mod__(self, o): return self._bin(o, imod)
    def __rmod__(self, o): return self._bin(o, lambda a, b: imod(b, a))
    def __and__(self, o): return bits(self, o, "bitand")
    def __or__(self, o): return bits(self, o, "bitor")
    __rand__, __ror__ = __and__, __or__
    def __neg__(self): return SymNum(-self.p, self.isfloat)
    def __pos__(self): return self
    def __abs__(self): return SymNum(T.app("abs", self.p), self.isfloat)

    def __pow__(self, o):
        c = as_poly(o).const() if is_scalar(o) else None
        if c is None:
            raise Unsupported("symbolic exponent")
        return SymNum(T.ppow(self.p, c), self.isfloat or c.denominator != 1 or c < 0)

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def _cmp(self, o, f):
        if isinstance(o, SymArray):
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            raise Unsupported("comparison with inf")
        if not is_scalar(o):
            return NotImplemented
        return SymBool(f(self.p, scalar_poly(o)))

    def __eq__(self, o):
        if isinstance(o, SymArray):
            return NotImplemented
        if not is_scalar(o):
            return False
        return SymBool(T.eq(self.p, scalar_poly(o)))

    def __ne__(self, o):
        if isinstance(o, SymArray):
            return NotImplemented
        if not is_scalar(o):
            return True
        return SymBool(T.cnot(T.eq(self.p, scalar_poly(o))))

    def __lt__(self, o): return self._cmp(o, T.lt)
    def __le__(self, o): return self._cmp(o, T.le)
    def __gt__(self, o): return self._cmp(o, lambda a, b: T.lt(b, a))
    def __ge__(self, o): return self._cmp(o, lambda a, b: T.le(b, a))
    def __bool__(self): return E.branch(T.cnot(T.eq(self.p, T.ZERO)))
    def __hash__(self): return hash(self.p.key)
    def __repr__(self): return f"Sym<{self.p}>"
    def __format__(self, spec): return f"<{self.p.key}>"

    def __index__(self):
        c = self.p.const()
        if c is not None and c.denominator == 1:
            return int(c)
        raise Unsupported("a symbolic number was used as a concrete index")

    def __float__(self):
        raise Unsupported("float() of a symbolic number outside the rewriting")


def idiv(a, b):
    a, b = as_poly(a), as_poly(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return T.const(ca // cb)
    if cb == 1:
        return a
    return T.app("idiv", a, b, sort="i")


def imod(a, b):
    return as_poly(a) - as_poly(b) * idiv(a, b)


def _idiv_rule(args):
    x, d = args
    if x.is_zero():
        return T.ZERO
    # split x = q*d + r syntactically (d a single monomial)
    if len(d.terms) == 1:
        (dm, dc), = d.terms.items()
        if not dm.binders:
            q, r = [], []
            for m, c in x.terms.items():
                fs = {a.key: (a, e) for a, e in m.factors}
                ok = not m.binders and (c / dc).denominator == 1
                for a, e in dm.factors:
                    if a.key not in fs or fs[a.key][1] < e:
                        ok = False
                        break
                    fs[a.key] = (a, fs[a.key][1] - e)
                if ok:
                    q.append(T.normalise([], {k: v for k, v in fs.items() if v[1] != 0}).scale(c / dc))
                else:
                    r.append(Poly({m: c}))
            q, r = T.psum(q), T.psum(r)
            if T.decide(T.le(T.ZERO, r)) is True and T.decide(T.lt(r, d)) is True:
                return q
            if not q.is_zero():
                return q + idiv(r, d)
    if T.decide(T.le(T.ZERO, x)) is True and T.decide(T.lt(x, d)) is True:
        return T.ZERO
    return None


def _idiv_lemma(a):
    if a.f == "idiv":
        x, d = a.args
        q = T.patom(a)
        r = x - d * q
        return [T.cor(T.lt(d, T.PONE), T.cand(T.le(T.ZERO, r), T.lt(r, d)))]
    if a.f == "floor":
        q = T.patom(a)
        return [T.le(q, a.args[0]), T.lt(a.args[0], q + 1)]
    if a.f == "imin":
        q = T.patom(a)
        return [T.le(q, a.args[0]), T.le(q, a.args[1]), T.cor(T.le(a.args[0], q), T.le(a.args[1], q))]
    if a.f == "argmax":
        q = T.patom(a)
        n = T.PONE
        for r in a.args[0].ranges:
            n = n * r
        return [T.le(T.ZERO, q), T.lt(q, n)]
    if a.f in ("rank", "topidx"):       # x is an index of the ranked sequence
        q, n = T.patom(a), a.args[0].ranges[0]
        x = a.args[1]
        return [T.cor(T.lt(x, T.ZERO), T.le(n, x), T.cand(T.le(T.ZERO, q), T.lt(q, n)))]
    if a.f == "find":
        L, p = a.args
        q = T.patom(a)
        m = L.ranges[0]
        off = offset(L, q)
        inr = T.cand(T.le(T.ZERO, p), T.lt(p, offset(L, m)))
        return [T.cor(T.cnot(inr), T.cand(T.le(T.ZERO, q), T.lt(q, m), T.le(off, p), T.lt(p, off + L(q))))]
    return []


def offset(L, j):
    """SUM_{x<j} L(x)."""
    return T.bigsum(j, lambda x: L(x))


def find(L, p):
    return T.app("find", L, as_poly(p), sort="i")


def _find_rule(args):
    L, p = args
    m = L.ranges[0]
    cands = []
    body = L(T.pvar(T.canon_var(L.depth, 0)))
    for mono in p.terms:
        if len(mono.binders) == 1:
            (v, n), = mono.binders
            cands.append(n)
    cands.append(T.ZERO)
    for nm in p.fv:
        vv = T._vars.get(nm)
        if vv is not None and vv.sort == "i":
            cands.append(T.pvar(vv))
    for c in cands:
        r = p - offset(L, c)
        if T.decide(T.le(T.ZERO, c)) is True and T.decide(T.lt(c, m)) is True \
                and T.decide(T.le(T.ZERO, r)) is True and T.decide(T.lt(r, L(c))) is True:
            return c
    return None


def seg_guard(e, n):
    """[0 <= p - off(l) < L(l)]  =  [find(L, p) = l]  for 0 <= p < off(m), 0 <= l < m."""
    for mono, c in e.terms.items():
        if c != -1 or not mono.binders or len(mono.binders) != 1:
            continue
        (v, lim), = mono.binders
        l = T.single(lim)
        if not isinstance(l, T.Var) or l.name not in R.range:
            continue
        lo, m = R.range[l.name]
        if m is None or lo is None or not lo.is_zero():
            continue
        body = Poly({T.Mono((), mono.factors): T.ONE})
        if body.subst({v.name: T.pvar(l)}).key != n.key or l.name in m.fv:
            continue
        L = T.lam([m], lambda x: body.subst({v.name: x}))
        p = e + Poly({mono: T.ONE})
        if l.name in p.fv:
            continue
        if T.decide(T.le(T.ZERO, p)) is True and T.decide(T.lt(p, offset(L, m))) is True:
            return T.iv(T.eq(find(L, p), T.pvar(l)))
    return None


def rule_reindex(bs, d):
    """SUM_{p<off(m)} G(find(L,p), p) = SUM_{l<m} SUM_{j<L(l)} G(l, off(l)+j)."""
    if not any("find(" in a.key for a, _ in d.values()):
        return None
    for v, n in bs:
        for a, _ in d.values():
            if v.name not in a.fv:
                continue
            for f in T.apps_of(a, "find").values():
                L, p = f.args
                one = T.single(p)
                if not isinstance(one, T.Var) or one.name != v.name or not L.fv.isdisjoint({b.name for b, _ in bs}):
                    continue
                m = L.ranges[0]
                if offset(L, m).key != n.key:
                    continue
                if any(v.name in q.fv for _, q in bs):
                    continue
                return split_binder(bs, d, v, L)
    return None


def split_binder(bs, d, v, L):
    m = L.ranges[0]
    l, j = T.fresh_var(), T.fresh_var()
    T.R.range[l.name] = (T.ZERO, m)
    bs2 = [(b, q) for b, q in bs if b.name != v.name] + [(l, m), (j, L(T.pvar(l)))]
    return T._with(bs2, [(list(d.values()), {v.name: offset(L, T.pvar(l)) + T.pvar(j)})])


def _topidx_rule(c):
    """The class of rank j is t  <->  t has rank j (both in range): ranking is a permutation."""
    for m, x in c.p.terms.items():
        if m.binders or len(m.factors) != 1 or m.factors[0][1] != 1 or abs(x) != 1:
            continue
        a = m.factors[0][0]
        if not isinstance(a, T.App) or a.f != "topidx":
            continue
        t = T.Poly({k: y for k, y in c.p.terms.items() if k is not m}).scale(-x)
        L, j = a.args
        n = L.ranges[0]
        if "topidx(" in t.key:
            continue
        if all(T.decide(q) is True for q in (T.le(T.ZERO, t), T.lt(t, n), T.le(T.ZERO, j), T.lt(j, n))):
            return T.iv(T.eq(T.app("rank", L, t, sort="i"), j))
    return None


def install_base_rules():
    R.seg_guard = seg_guard
    R.rules.append(rule_reindex)
    R.app_rules["idiv"] = _idiv_rule
    R.app_rules["find"] = _find_rule
    R.int_lemmas.append(_idiv_lemma)
    R.eq_rules.append(_topidx_rule)


# ================================================================= shapes
class Block:
    """An unknown number of axes, addressed by one flat (row-major) index."""
    __slots__ = ("name", "args", "size", "key")

    def __init__(self, name, args, size):
        self.name, self.args, self.size = name, tuple(args), size
        self.key = f"Block:{name}({';'.join(a.key for a in args)})"

    def subst(self, m):
        return Block(self.name, [a.subst(m) for a in self.args], self.size.subst(m))

    def __eq__(self, o):
        return isinstance(o, Block) and same_block(self, o)

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.key


def same_block(a, b):
    return a.name == b.name and (a.key == b.key or all(T.decide(T.eq(x, y)) is True for x, y in zip(a.args, b.args)))


def dim_size(d):
    return d.size if isinstance(d, Block) else d


class ShapeT(tuple):
    """Shape tuple; items int | SymNum | Block."""

    def __getitem__(self, i):
        items = tuple(self)
        if not any(isinstance(x, Block) for x in items):
            r = tuple.__getitem__(self, i)
            return ShapeT(r) if isinstance(i, slice) else r
        bpos = [k for k, x in enumerate(items) if isinstance(x, Block)]
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("strided slice of a generic shape")
            def pos(v, default):
                if v is None:
                    return default
                if v >= 0 and v <= bpos[0]:
                    return v
                if v < 0 and len(items) + v > bpos[-1]:
                    return len(items) + v
                raise Unsupported("slice cuts a generic shape")
            a, b = pos(i.start, 0), pos(i.stop, len(items))
            return ShapeT(items[a:b])
        if isinstance(i, int):
            if i >= 0 and i < bpos[0]:
                return items[i]
            if i < 0 and len(items) + i > bpos[-1]:
                return items[len(items) + i]
            raise Unsupported("index into a generic shape")
        return tuple.__getitem__(self, i)

    def __add__(self, o):
        return ShapeT(tuple(self) + tuple(o))

    def __radd__(self, o):
        return ShapeT(tuple(o) + tuple(self))

    def __eq__(self, o):
        if not isinstance(o, tuple):
            return False
        a, b = tuple(self), tuple(o)
        if any(isinstance(x, Block) for x in a + b):
            if len(a) == len(b) and all((isinstance(x, Block) and isinstance(y, Block) and same_block(x, y)) or
                                        (not isinstance(x, Block) and not isinstance(y, Block) and
                                         T.decide(T.eq(as_dim(x), as_dim(y))) is True) for x, y in zip(a, b)):
                return True
            return SymBool(T.capp("shape_eq", repr(a), repr(b)))
        if len(a) != len(b):
            return False
        return SymBoolish(T.cand(*[T.eq(as_dim(x), as_dim(y)) for x, y in zip(a, b)]))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SymBool(T.cnot(r.cond))

    __hash__ = tuple.__hash__


def SymBoolish(c):
    if c.op == "true":
        return True
    if c.op == "false":
        return False
    return SymBool(c)


def as_dim(x):
    if isinstance(x, Block):
        return x.size
    if isinstance(x, Poly):
        return x
    if isinstance(x, (int, SymNum)):
        return scalar_poly(x)
    if isinstance(x, SymArray):
        return x.item_poly()
    raise Unsupported(f"dimension {x!r}")


def norm_shape(sh):
    """-> tuple of Poly | Block"""
    if isinstance(sh, (int, SymNum, Poly, Block)):
        sh = (sh,)
    if isinstance(sh, SymArray):
        raise Unsupported("array as a shape")
    return tuple(x if isinstance(x, (Block, Poly)) else as_dim(x) for x in sh)


def prod_sizes(items):
    p = T.PONE
    for d in items:
        p = p * dim_size(d)
    return p


# ================================================================= dtypes
class DT:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind

    def __repr__(self):
        return f"dtype({self.name})"

    def __call__(self, x):
        return asarray(x, self)

    def __eq__(self, o):
        return isinstance(o, DT) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


FLOAT = DT("float", "f")        # the working float type
F32, F64, F16, BF16 = DT("float32", "f"), DT("float64", "f"), DT("float16", "f"), DT("bfloat16", "f")
INT, BOOL, KEY = DT("int", "i"), DT("bool", "b"), DT("key", "k")
I32, I64 = DT("int32", "i"), DT("int64", "i")
LEVEL = {"float16": 1, "bfloat16": 1, "float32": 2, "float": 3, "float64": 4}


def promote(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a.kind == b.kind:
        if a.kind == "f":
            return a if LEVEL[a.name] >= LEVEL[b.name] else b
        return a
    order = {"b": 0, "i": 1, "f": 2, "k": 3}
    return a if order[a.kind] > order[b.kind] else b


def cast_poly(p, src, dst):
    """Effect of a dtype cast on a value."""
    if dst is None or src is None or src == dst:
        return p
    if dst.kind == "f":
        if src.kind == "f" and LEVEL[dst.name] < LEVEL[src.name] and p.const() is None:
            return T.app("round_" + dst.name, p)
        return p
    if dst.kind == "i" and src.kind == "f":
        c = p.const()
        if c is not None and c.denominator == 1:
            return p
        return T.app("trunc", p, sort="i")
    if dst.kind == "b" and src.kind != "b":
        return T.iv(T.cnot(T.eq(p, T.ZERO)))
    return p


# ================================================================= arrays
_int_index_cache = {}


class SymArray:
    """dims: tuple of Poly|Block; body: Poly over the index variables ivs."""
    __slots__ = ("dims", "ivs", "body", "_dtype")
    __getattr__ = missing("array")

    def __init__(self, dims, ivs, body, dtype=FLOAT):
        self.dims, self.ivs, self.body, self._dtype = tuple(dims), tuple(ivs), body, dtype

    @staticmethod
    def make(dims, f, dtype=FLOAT):
        dims = norm_shape(dims)
        ivs = []
        for d in dims:
            v = T.fresh_var("i", "x")
            R.range[v.name] = (T.ZERO, dim_size(d))
            ivs.append(v)
        body = as_poly(f(*[T.ZERO if isinstance(d, Poly) and d.const() == 1 else T.pvar(v) for v, d in zip(ivs, dims)]))
        return SymArray(dims, ivs, body, dtype)

    def el(self, *idx):
        if not idx:
            return self.body
        return self.body.subst({v.name: as_poly(i) for v, i in zip(self.ivs, idx)})

    def item_poly(self):
        if len(self.dims) == 0:
            return self.body
        if all(dim_size(d).const() == 1 for d in self.dims):
            return self.el(*[T.ZERO] * len(self.dims))
        raise TypeError("only size-1 arrays can be converted to scalars")

    def osubst(self, m):
        return SymArray([d.subst(m) for d in self.dims], self.ivs, self.body.subst(m), self._dtype)

    # -- attributes
    @property
    def shape(self):
        return ShapeT(d if isinstance(d, Block) else mknum(d) for d in self.dims)

    @property
    def ndim(self):
        nb = [d for d in self.dims if isinstance(d, Block)]
        if nb:
            p = T.const(len(self.dims) - len(nb))
            for b in nb:
                r = T.app("rank", *b.args, b.name, sort="i")
                R.nonneg.add("rank")
                p = p + r
            return SymNum(p)
        return len(self.dims)

    @property
    def size(self):
        return mknum(prod_sizes(self.dims))

    @property
    def dtype(self):
        return self._dtype

    @property
    def T(self):
        return transpose(self)

    @property
    def mT(self):
        n = len(self.dims)
        if n < 2:
            raise ValueError("x.mT requires x to have at least 2 dimensions")
        if any(isinstance(d, Block) for d in self.dims[-2:]):
            raise Unsupported("mT of a generic shape")
        return transpose(self, [*range(n - 2), n - 1, n - 2])

    @property
    def at(self):
        return AtProxy(self)

    def block_until_ready(self):
        return self

    def astype(self, dt):
        dt = as_dtype(dt)
        return SymArray.make(self.dims, lambda *i: cast_poly(self.el(*i), self._dtype, dt), dt)

    def item(self):
        return SymNum(self.item_poly())

    def copy(self):
        return self

    # -- conversions
    def __bool__(self):
        return E.branch(elem_cond(self.item_poly()))

    def __float__(self):
        raise Unsupported("float(array)")

    def __len__(self):
        if not self.dims:
            raise TypeError("len() of unsized object")
        c = dim_size(self.dims[0]).const()
        if c is None or isinstance(self.dims[0], Block):
            raise Unsupported("len() of a symbolic array outside the rewriting")
        return int(c)

    def __iter__(self):
        if not self.dims:
            raise TypeError("iteration over a 0-d array")
        c = self.dims[0].const() if isinstance(self.dims[0], Poly) else None
        if c is None:
            raise Unsupported("iteration over a symbolic axis outside a rewritten loop")
        return iter([self[k] for k in range(int(c))])

    def __index__(self):
        c = self.item_poly().const()
        if c is not None and c.denominator == 1:
            return int(c)
        raise Unsupported("a symbolic array was used as a concrete index")

    __hash__ = None

    def __repr__(self):
        return f"SymArray({list(self.dims)}, λ{[v.name for v in self.ivs]}.{self.body})"

    def __format__(self, spec):
        return "<array>"

    # -- arithmetic
    def __add__(self, o): return binop(self, o, lambda a, b: a + b)
    def __radd__(self, o): return binop(o, self, lambda a, b: a + b)
    def __sub__(self, o): return binop(self, o, lambda a, b: a - b)
    def __rsub__(self, o): return binop(o, self, lambda a, b: a - b)
    def __mul__(self, o): return binop(self, o, lambda a, b: a * b)
    def __rmul__(self, o): return binop(o, self, lambda a, b: a * b)
    def __truediv__(self, o): return binop(self, o, lambda a, b: a / b, dt="f")
    def __rtruediv__(self, o): return binop(o, self, lambda a, b: a / b, dt="f")
    def __floordiv__(self, o): return binop(self, o, idiv)
    def __mod__(self, o): return binop(self, o, imod)
    def __neg__(self): return unop(self, lambda a: -a)
    def __pos__(self): return self
    def __abs__(self): return unop(self, lambda a: T.app("abs", a))
    def __pow__(self, o): return power(self, o)
    def __rpow__(self, o): return power(o, self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return cmpop(self, o, T.eq)
    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return cmpop(self, o, lambda a, b: T.cnot(T.eq(a, b)))
    def __lt__(self, o): return cmpop(self, o, T.lt)
    def __le__(self, o): return cmpop(self, o, T.le)
    def __gt__(self, o): return cmpop(self, o, lambda a, b: T.lt(b, a))
    def __ge__(self, o): return cmpop(self, o, lambda a, b: T.le(b, a))
    def __and__(self, o): return bitop(self, o, "bitand", lambda a, b: a * b)
    __rand__ = __and__
    def __or__(self, o): return bitop(self, o, "bitor", lambda a, b: a + b - a * b)
    __ror__ = __or__
    def __invert__(self):
        if self._dtype.kind == "b":
            return unop(self, lambda a: T.PONE - a)
        if self._dtype.kind == "i":
            return unop(self, lambda a: -a - 1)
        raise TypeError("invert of a float array")

    # -- methods (delegated)
    def reshape(self, *sh, **kw):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = sh[0]
        return reshape(self, sh)

    def ravel(self, *a): return reshape(self, (-1,))
    def flatten(self, *a): return reshape(self, (-1,))
    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = axes[0]
        return transpose(self, axes or None)
    def sum(self, axis=None, keepdims=False, dtype=None): return rsum(self, axis, keepdims)
    def mean(self, axis=None, keepdims=False): return mean(self, axis, keepdims)
    def var(self, axis=None, ddof=0, keepdims=False): return var(self, axis, ddof, keepdims)
    def std(self, axis=None, ddof=0, keepdims=False): return sqrt(var(self, axis, ddof, keepdims))
    def max(self, axis=None, keepdims=False): return rmax(self, axis, keepdims)
    def min(self, axis=None, keepdims=False): return -rmax(-self, axis, keepdims)
    def prod(self, axis=None): raise Unsupported("prod")
    def dot(self, o): return matmul(self, o)
    def squeeze(self, axis=None): return squeeze(self, axis)
    def argmax(self, axis=None): return argmax(self, axis)
    def __getitem__(self, k): return getitem(self, k)


def as_dtype(dt):
    if dt is None or isinstance(dt, DT):
        return dt
    if dt is float:
        return FLOAT
    if dt is int:
        return INT
    if dt is bool:
        return BOOL
    if isinstance(dt, str):
        return {"float32": F32, "float64": F64, "int32": I32, "float": FLOAT, "int": INT, "bool": BOOL}.get(dt) or \
            DT(dt, "f" if "float" in dt else "i")
    raise Unsupported(f"dtype {dt!r}")


def asarray(x, dtype=None):
    dtype = as_dtype(dtype)
    if isinstance(x, SymArray):
        return x.astype(dtype) if dtype is not None and dtype != x._dtype else x
    if isinstance(x, SymBool) or isinstance(x, bool):
        return SymArray((), (), cast_poly(scalar_poly(x), BOOL, dtype), dtype or BOOL)
    if is_scalar(x):
        p = scalar_poly(x)
        isf = isinstance(x, float) or (isinstance(x, SymNum) and x.isfloat)
        dt = FLOAT if isf else INT
        if dtype is not None:
            return SymArray((), (), cast_poly(p, dt, dtype) if not (dtype.kind == "f") else p, dtype)
        return SymArray((), (), p, dt)
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return SymArray.make((0,), lambda i: T.ZERO, dtype or FLOAT)
        xs = [asarray(e, dtype) for e in x]
        return stack(xs)
    if isinstance(x, SymList):
        if is_scalar(x.obj) or isinstance(x.obj, SymArray):
            a = asarray(x.obj, dtype)
            return SymArray.make((x.n,) + a.dims,
                                 lambda i, *r: osubst_poly(a.el(*r), {x.v.name: i}), a._dtype)
    if hasattr(x, "__jax_array__"):
        return x.__jax_array__()
    if isinstance(x, (SymTree, dict)) or x is None or callable(x):
        raise TypeError(f"Cannot interpret value of type {type(x)} as an abstract array")
    raise Unsupported(f"asarray({type(x).__name__})")


def osubst_poly(p, m):
    return p.subst(m)


def to_arr(x):
    if isinstance(x, SymArray):
        return x
    if isinstance(x, (SymTree, dict, SymList, str)) or x is None or callable(x):
        raise TypeError(f"unsupported operand of type {type(x).__name__} for an array operation")
    return asarray(x)


def weak_dtype(x):
    if isinstance(x, SymArray):
        return x._dtype
    return None


def same_dim(a, b):
    """Provable/decided equality of two dims (forks when undetermined)."""
    if isinstance(a, Block) or isinstance(b, Block):
        return isinstance(a, Block) and isinstance(b, Block) and same_block(a, b)
    if a.key == b.key:
        return True
    return E.branch(T.eq(a, b))


def bcast(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(1, n + 1):
        ds = [s[-k] for s in shapes if len(s) >= k]
        if any(isinstance(d, Block) for d in ds):
            full = [d for d in ds if not (isinstance(d, Poly) and d.const() == 1)]
            b = full[0]
            if not isinstance(b, Block) or any(not isinstance(d, Block) or not same_block(d, b) for d in full):
                raise Unsupported("broadcast against a generic shape")
            if len(full) != len(ds):
                # a literal 1 against a block of unknown rank
                raise Unsupported("broadcast against a generic shape")
            # every other shape must have either this block at this place or nothing
            out.append(b)
            continue
        cur = T.PONE
        for d in ds:
            if d.const() == 1:
                continue
            if cur.const() == 1:
                cur = d
            elif not same_dim(cur, d):
                if E.branch(T.eq(d, T.PONE)):
                    continue
                if E.branch(T.eq(cur, T.PONE)):
                    cur = d
                    continue
                raise TypeError(f"Incompatible shapes for broadcasting: {shapes}")
        out.append(cur)
    return tuple(reversed(out))


def bidx(dims, out, idx):
    """Index into an array of shape dims, broadcast to shape out, at idx."""
    k = len(dims)
    sub = list(idx[len(idx) - k:])
    res = []
    for d, o, i in zip(dims, out[len(out) - k:], sub):
        if isinstance(d, Poly) and d.const() == 1:
            res.append(T.ZERO)
        elif isinstance(d, Poly) and isinstance(o, Poly) and d.key != o.key and T.decide(T.eq(d, T.PONE)) is True:
            res.append(T.ZERO)
        else:
            res.append(i)
    return res


def ewise(f, *xs, dtype=None):
    xs = [to_arr(x) for x in xs]
    out = bcast(*[x.dims for x in xs])
    return SymArray.make(out, lambda *i: f(*[x.el(*bidx(x.dims, out, i)) for x in xs]), dtype or FLOAT)


def res_dtype(a, b):
    da, db = weak_dtype(a), weak_dtype(b)
    if da is None:
        ka = asarray(a)._dtype
        return db if not (ka.kind == "f" and db.kind != "f") else FLOAT
    if db is None:
        kb = asarray(b)._dtype
        return da if not (kb.kind == "f" and da.kind != "f") else FLOAT
    return promote(da, db)


class VecProxy:
    pass


def binop(a, b, f, dt=None):
    if isinstance(a, (SymTree, dict, str)) or isinstance(b, (SymTree, dict, str)) or a is None or b is None \
            or isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)) or callable(a) or callable(b):
        raise TypeError(f"unsupported operand type(s): {type(a).__name__} and {type(b).__name__}")
    d = res_dtype(a, b)
    if dt == "f" and d.kind != "f":
        d = FLOAT
    if d.kind == "b":
        return ewise(lambda x, y: T.iv(T.cnot(T.eq(f(x, y), T.ZERO))), a, b, dtype=BOOL)
    return ewise(f, a, b, dtype=d)


def bits(a, b, name):
    """& and | of Python integers."""
    if isinstance(b, SymArray):
        return NotImplemented
    if a.isfloat or isinstance(b, float) or isinstance(b, SymNum) and b.isfloat:
        raise TypeError(f"{name} of floats")
    return SymNum(T.app(name, as_poly(a), as_poly(b), sort="i"), False)


def bitop(a, b, name, f):
    """& and |: logical on booleans, bitwise (uninterpreted) on integers."""
    d = res_dtype(a, b)
    if d.kind == "b":
        return ewise(f, a, b, dtype=BOOL)
    if d.kind != "i":
        raise TypeError(f"{name} of {d.kind} arrays")
    return ewise(lambda x, y: T.app(name, x, y, sort="i"), a, b, dtype=d)


def cmpop(a, b, f):
    if isinstance(b, float) and b in (float("inf"), float("-inf")):
        raise Unsupported("comparison with inf")
    return ewise(lambda x, y: T.iv(f(x, y)), a, b, dtype=BOOL)


def unop(a, f, dt=None):
    a = to_arr(a)
    return SymArray.make(a.dims, lambda *i: f(a.el(*i)), dt or a._dtype)


def power(a, b):
    c = scalar_poly(b).const() if is_scalar(b) or (isinstance(b, SymArray) and not b.dims) else None
    if c is None:
        raise Unsupported("symbolic exponent")
    a = to_arr(a)
    dt = a._dtype if (a._dtype.kind == "f" or (c.denominator == 1 and c >= 0)) else FLOAT
    return SymArray.make(a.dims, lambda *i: T.ppow(a.el(*i), c), dt)


def sqrt(a):
    a = to_arr(a)
    return SymArray.make(a.dims, lambda *i: T.sqrt(a.el(*i)), FLOAT if a._dtype.kind != "f" else a._dtype)


def norm_axis(axis, nd):
    if isinstance(axis, SymNum):
        raise Unsupported("symbolic axis")
    if axis < -nd or axis >= nd:
        raise ValueError(f"axis {axis} is out of bounds for array of dimension {nd}")
    return axis % nd


def axes_of(a, axis):
    nd = len(a.dims)
    has_block = any(isinstance(d, Block) for d in a.dims)
    if axis is None:
        return list(range(nd))
    axs = axis if isinstance(axis, (tuple, list)) else [axis]
    out = []
    for x in axs:
        if has_block:
            b = [k for k, d in enumerate(a.dims) if isinstance(d, Block)]
            if x >= 0 and x < b[0]:
                out.append(x)
            elif x < 0 and nd + x > b[-1]:
                out.append(nd + x)
            else:
                raise Unsupported("axis inside a generic shape")
        else:
            out.append(norm_axis(x, nd))
    return out


def reduce_axes(a, axis, keepdims, f, dtype):
    """f(list of (var poly,size)), builder) over axes."""
    axs = axes_of(a, axis)
    if keepdims and any(isinstance(a.dims[k], Block) for k in axs):
        raise Unsupported("keepdims over a generic shape")
    keep = [k for k in range(len(a.dims)) if k not in axs]
    outd = [(T.PONE if k in axs else a.dims[k]) for k in range(len(a.dims))] if keepdims else [a.dims[k] for k in keep]

    def elem(*idx):
        full = {}
        if keepdims:
            for k in keep:
                full[k] = idx[k]
        else:
            for k, i in zip(keep, idx):
                full[k] = i
        return f(full, axs)
    return SymArray.make(outd, elem, dtype)


def rsum(a, axis=None, keepdims=False, where=None):
    a = to_arr(a)

    def f(full, axs):
        def rec(k, cur):
            if k == len(axs):
                return a.el(*[cur[q] for q in range(len(a.dims))])
            return T.bigsum(dim_size(a.dims[axs[k]]), lambda u: rec(k + 1, {**cur, axs[k]: u}))
        return rec(0, full)
    return reduce_axes(a, axis, keepdims, f, INT if a._dtype.kind == "b" else a._dtype)


def axsize(a, axis):
    return prod_sizes([a.dims[k] for k in axes_of(a, axis)])


def mean(a, axis=None, keepdims=False):
    a = to_arr(a)
    n = axsize(a, axis)
    s = rsum(a, axis, keepdims)
    return SymArray.make(s.dims, lambda *i: s.el(*i) / n, a._dtype if a._dtype.kind == "f" else FLOAT)


def var(a, axis=None, ddof=0, keepdims=False, correction=None):
    if correction is not None:
        ddof = correction
    a = to_arr(a)
    n = axsize(a, axis)
    m = mean(a, axis, True) if not any(isinstance(a.dims[k], Block) for k in axes_of(a, axis)) else None
    if m is None:
        if axis is not None and len(axes_of(a, axis)) != len(a.dims):
            raise Unsupported("var over a generic shape")
        mm = mean(a, None)
        d = SymArray.make(a.dims, lambda *i: (a.el(*i) - mm.body) ** 2, a._dtype)
    else:
        d = (a - m) ** 2
    s = rsum(d, axis, keepdims)
    den = n - scalar_poly(ddof)
    return SymArray.make(s.dims, lambda *i: s.el(*i) / den, FLOAT if a._dtype.kind != "f" else a._dtype)


def lam_over(a, axs, full):
    """Lam over axes axs of a, other indices fixed."""
    rngs = [dim_size(a.dims[k]) for k in axs]
    return T.lam(rngs, lambda *u: a.el(*[full[k] if k in full else u[axs.index(k)] for k in range(len(a.dims))]))


def rmax(a, axis=None, keepdims=False, initial=None):
    a = to_arr(a)
    return reduce_axes(a, axis, keepdims, lambda full, axs: T.app("max", lam_over(a, axs, full)), a._dtype)


def argmax(a, axis=None):
    a = to_arr(a)
    if axis is None:
        a = reshape(a, (-1,))
        axis = 0
    return reduce_axes(a, axis, False, lambda full, axs: T.app("argmax", lam_over(a, axs, full), sort="i"), INT)


def matmul(a, b):
    for x in (a, b):
        if is_scalar(x) or (isinstance(x, SymArray) and not x.dims):
            raise TypeError("matmul: scalar operand")
    a, b = to_arr(a), to_arr(b)
    da, db = list(a.dims), list(b.dims)
    if any(isinstance(d, Block) for d in (da[-1:] + (db[-2:-1] if len(db) > 1 else db))):
        raise Unsupported("matmul over a generic axis")
    k = da[-1]
    kb = db[-2] if len(db) > 1 else db[0]
    if not same_dim(k, kb):
        raise TypeError(f"matmul shapes do not match: {da} and {db}")
    dt = promote(a._dtype, b._dtype)
    if len(db) == 1:
        return SymArray.make(da[:-1], lambda *i: T.bigsum(k, lambda u: a.el(*i, u) * b.el(u)), dt)
    if len(da) == 1:
        if len(db) == 2:
            return SymArray.make(db[-1:], lambda j: T.bigsum(k, lambda u: a.el(u) * b.el(u, j)), dt)
        raise Unsupported("matmul vec @ batched")
    batch = bcast(tuple(da[:-2]), tuple(db[:-2])) if (len(da) > 2 or len(db) > 2) else ()

    def f(*i):
        bi = i[:len(batch)]
        r, c = i[len(batch)], i[len(batch) + 1]
        return T.bigsum(k, lambda u: a.el(*bidx(a.dims[:-2], batch, bi), r, u) * b.el(*bidx(b.dims[:-2], batch, bi), u, c))
    return SymArray.make(list(batch) + [da[-2], db[-1]], f, dt)


def transpose(a, axes=None):
    a = to_arr(a)
    n = len(a.dims)
    if any(isinstance(d, Block) for d in a.dims) and axes is None and n > 1:
        # reversing all axes also reverses the axes inside the block
        ds = list(reversed(a.dims))
        ds = [Block(d.name + "^T", d.args, d.size) if isinstance(d, Block) else d for d in ds]

        def f(*i):
            j = list(reversed(i))
            j = [T.app("revflat_" + d.name, *d.args, x, sort="i") if isinstance(d, Block) else x
                 for d, x in zip(a.dims, j)]
            return a.el(*j)
        return SymArray.make(ds, f, a._dtype)
    if axes is None:
        axes = list(reversed(range(n)))
    axes = [norm_axis(x, n) for x in axes]
    if sorted(axes) != list(range(n)):
        raise ValueError("axes don't match array")
    inv = {ax: k for k, ax in enumerate(axes)}
    return SymArray.make([a.dims[x] for x in axes], lambda *i: a.el(*[i[inv[k]] for k in range(n)]), a._dtype)


def horner(dims, idx):
    p = T.ZERO
    for d, i in zip(dims, idx):
        p = p * dim_size(d) + i
    return p


def unhorner(dims, flat):
    idx = []
    for d in reversed(dims[1:]):
        s = dim_size(d)
        q = idiv(flat, s)
        idx.append(flat - q * s)
        flat = q
    idx.append(flat)
    return list(reversed(idx))


def poly_div(a, b):
    """a / b for size polynomials when it is exact monomial-wise; else None."""
    q = a / b
    for m in q.terms:
        for at, e in m.factors:
            if e < 0 or e.denominator != 1 or isinstance(at, T.PA):
                return None
    return q


def reshape(a, sh):
    a = to_arr(a)
    if isinstance(sh, (int, SymNum, Block)):
        sh = (sh,)
    items = list(sh)
    neg = [k for k, x in enumerate(items) if isinstance(x, int) and x == -1]
    tgt = [None if k in neg else norm_shape((x,))[0] for k, x in enumerate(items)]
    if len(neg) > 1:
        raise ValueError("can only specify one unknown dimension")
    src = list(a.dims)
    # match common prefix / suffix

    def eqd(x, y):
        if x is None or y is None:
            return False
        if isinstance(x, Block) or isinstance(y, Block):
            return isinstance(x, Block) and isinstance(y, Block) and same_block(x, y)
        return x.key == y.key or T.decide(T.eq(x, y)) is True
    if neg:
        s = [d for d in src]
        others = [t for t in tgt if t is not None]
        num = list(s)
        for o in others:
            hit = next((k for k, d in enumerate(num) if eqd(d, o)), None)
            if hit is not None:
                num.pop(hit)
                others = [x for x in others if x is not o]
        size = prod_sizes(num)
        den = prod_sizes(others)
        q = poly_div(size, den)
        if q is None:
            raise Unsupported("reshape with an inexact -1")
        if len(num) == 1 and den.const() == 1 and isinstance(num[0], Block) and False:
            tgt[neg[0]] = num[0]
        else:
            tgt[neg[0]] = q
    else:
        ps, pt = T.fold(prod_sizes(src)), T.fold(prod_sizes(tgt))
        if ps.key != pt.key and not E.branch(T.eq(ps, pt)):
            raise TypeError(f"cannot reshape array of shape {src} into shape {tgt}")
    pre = 0
    while pre < len(src) and pre < len(tgt) and eqd(src[pre], tgt[pre]):
        pre += 1
    suf = 0
    while suf < len(src) - pre and suf < len(tgt) - pre and eqd(src[-1 - suf], tgt[-1 - suf]):
        suf += 1
    ms, mt = src[pre:len(src) - suf], tgt[pre:len(tgt) - suf]
    ones_s = [k for k, d in enumerate(ms) if isinstance(d, Poly) and d.const() == 1]
    ones_t = [k for k, d in enumerate(mt) if isinstance(d, Poly) and d.const() == 1]
    ms2 = [d for k, d in enumerate(ms) if k not in ones_s]
    mt2 = [d for k, d in enumerate(mt) if k not in ones_t]

    def f(*i):
        mid = i[pre:len(tgt) - suf]
        mid = [x for k, x in enumerate(mid) if k not in ones_t]
        if len(ms2) == len(mt2) and all(eqd(x, y) for x, y in zip(ms2, mt2)):
            back = list(mid)
        else:
            flat = horner(mt2, mid)
            back = unhorner(ms2, flat) if ms2 else []
        full, it = [], iter(back)
        for k in range(len(ms)):
            full.append(T.ZERO if k in ones_s else next(it))
        return a.el(*i[:pre], *full, *i[len(tgt) - suf:])
    return SymArray.make(tgt, f, a._dtype)


def squeeze(a, axis=None):
    a = to_arr(a)
    if axis is None:
        axs = [k for k, d in enumerate(a.dims) if isinstance(d, Poly) and d.const() == 1]
        if any(isinstance(d, Poly) and d.const() is None for d in a.dims):
            raise Unsupported("squeeze of symbolic dims")
    else:
        axs = axes_of(a, axis)
        for k in axs:
            if not same_dim(a.dims[k], T.PONE):
                raise ValueError("cannot squeeze")
    keep = [k for k in range(len(a.dims)) if k not in axs]

    def f(*i):
        full = [T.ZERO] * len(a.dims)
        for k, x in zip(keep, i):
            full[k] = x
        return a.el(*full)
    return SymArray.make([a.dims[k] for k in keep], f, a._dtype)


def expand_dims(a, axis):
    a = to_arr(a)
    nd = len(a.dims) + 1
    ax = norm_axis(axis, nd)
    dims = list(a.dims)
    dims.insert(ax, T.PONE)
    return SymArray.make(dims, lambda *i: a.el(*[x for k, x in enumerate(i) if k != ax]), a._dtype)


def _norm_index(p, n, static):
    """Negative wrap + clamp (jax gather semantics)."""
    if p.const() is not None and static:
        q = p if p.const() >= 0 else n + p
    else:
        t = T.decide(T.le(T.ZERO, p))
        if t is True:
            q = p
        elif t is False:
            q = p + n
        else:
            q = p + n * (T.PONE - T.iv(T.le(T.ZERO, p)))
    lo = T.decide(T.le(T.ZERO, q))
    hi = T.decide(T.lt(q, n))
    if lo is True and hi is True:
        return q
    if hi is not True:
        q = T.ite(T.lt(q, n), q, n - 1)
    if lo is not True:
        q = T.ite(T.le(T.ZERO, q), q, T.ZERO)
    return q


def slice_bounds(s, n):
    """-> (start Poly, length Poly, step) for a slice over length n."""
    step = 1 if s.step is None else s.step
    if not isinstance(step, int) or step not in (1, -1):
        raise Unsupported("slice step")
    if step == -1:
        if s.start is None and s.stop is None:
            return n - 1, n, -1
        raise Unsupported("slice step -1 with bounds")

    def b(v, default):
        if v is None:
            return default
        p = scalar_poly(v)
        t = T.decide(T.le(T.ZERO, p))
        if t is None:
            t = E.branch(T.le(T.ZERO, p))
        if not t:
            p = p + n
            if T.decide(T.le(T.ZERO, p)) is not True and not E.branch(T.le(T.ZERO, p)):
                p = T.ZERO
        if T.decide(T.le(p, n)) is not True and not E.branch(T.le(p, n)):
            p = n
        return p
    st, en = b(s.start, T.ZERO), b(s.stop, n)
    ln = en - st
    if T.decide(T.le(T.ZERO, ln)) is not True and not E.branch(T.le(T.ZERO, ln)):
        ln = T.ZERO
    return st, ln, 1


def getitem(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    if isinstance(key, ShapeT):
        key = tuple(key)
    n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
    has_block = any(isinstance(d, Block) for d in a.dims)
    if Ellipsis in [k if k is Ellipsis else None for k in key]:
        pos = [k for k, x in enumerate(key) if x is Ellipsis][0]
        fill = len(a.dims) - n_real
        key = key[:pos] + (slice(None),) * fill + key[pos + 1:]
    elif n_real < len(a.dims):
        key = key + (slice(None),) * (len(a.dims) - n_real)
    if n_real > len(a.dims):
        raise IndexError("Too many indices for array")
    outd, plan, adv = [], [], []
    ax = 0
    adv_shape = None
    advs = [asarray(k) if isinstance(k, (list, SymList)) else k for k in key
            if isinstance(k, (SymArray, list, SymList)) and not (isinstance(k, SymArray) and not k.dims)]
    if advs:
        adv_shape = bcast(*[x.dims for x in advs])
    adv_at = None
    for k in key:
        if k is None:
            outd.append(T.PONE)
            plan.append(("new",))
            continue
        d = a.dims[ax]
        if isinstance(k, slice):
            if isinstance(d, Block):
                if k != slice(None):
                    raise Unsupported("slice of a generic axis")
                plan.append(("id", len(outd)))
                outd.append(d)
            else:
                st, ln, step = slice_bounds(k, d)
                plan.append(("sl", len(outd), st, step))
                outd.append(ln)
        elif isinstance(k, (SymArray, list, SymList)) and not (isinstance(k, SymArray) and not k.dims):
            kk = asarray(k) if not isinstance(k, SymArray) else k
            if kk._dtype.kind == "b":
                raise Unsupported("boolean mask indexing")
            if adv_at is None:
                adv_at = len(outd)
                outd.extend(adv_shape)
            plan.append(("adv", kk))
            adv.append(kk)
        elif is_scalar(k) or isinstance(k, SymArray):
            if isinstance(d, Block):
                raise Unsupported("index into a generic axis")
            static = is_scalar(k)
            p = scalar_poly(k)
            plan.append(("ix", _norm_index(p, d, static)))
        else:
            raise Unsupported(f"index {k!r}")
        ax += 1

    def f(*i):
        full = []
        for pl in plan:
            if pl[0] == "new":
                continue
            if pl[0] == "id":
                full.append(i[pl[1]])
            elif pl[0] == "sl":
                full.append(pl[2] + (i[pl[1]] if pl[3] == 1 else -i[pl[1]]))
            elif pl[0] == "ix":
                full.append(pl[1])
            else:
                ai = i[adv_at:adv_at + len(adv_shape)]
                v = pl[1].el(*bidx(pl[1].dims, adv_shape, ai))
                full.append(_norm_index(v, a.dims[len(full)], False))
        return a.el(*full)
    # fix positions after the advanced block shifted
    return SymArray.make(outd, f, a._dtype)


class AtProxy:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, key):
        return AtIdx(self.a, key)


class AtIdx:
    __getattr__ = missing("at")
    def __init__(self, a, key):
        self.a, self.key = a, key if isinstance(key, tuple) else (key,)

    def _upd(self, v, mode):
        a = self.a
        v = to_arr(v)
        key = self.key
        if len(key) < len(a.dims):
            key = key + (slice(None),) * (len(a.dims) - len(key))
        if len(key) != len(a.dims):
            raise IndexError("too many indices")
        advs = [k for k in key if isinstance(k, SymArray) and k.dims]
        if not advs:
            rest_dims, sel = [], []
            for k, d in zip(key, a.dims):
                if isinstance(k, slice):
                    st, ln, step = slice_bounds(k, d) if not isinstance(d, Block) else (T.ZERO, d, 1)
                    sel.append(("sl", st, ln))
                    rest_dims.append(ln)
                else:
                    p = scalar_poly(k)
                    t = T.decide(T.le(T.ZERO, p))
                    if t is not True:
                        p = p + d * (T.PONE - T.iv(T.le(T.ZERO, p))) if t is None else p + d
                    sel.append(("ix", p))
            out = bcast(tuple(rest_dims), v.dims) if v.dims else tuple(rest_dims)
            if len(out) != len(rest_dims):
                raise ValueError("Incompatible shapes for broadcasting in .at[].set")

            def f(*i):
                hit, ri = T.PONE, []
                for s, x in zip(sel, i):
                    if s[0] == "ix":
                        hit = hit * T.iv(T.eq(x, s[1]))
                    else:
                        hit = hit * T.iv(T.le(s[1], x)) * T.iv(T.lt(x, s[1] + dim_size(s[2])))
                        ri.append(x - s[1])
                nv = cast_poly(v.el(*bidx(v.dims, out, ri)) if v.dims else v.body, v._dtype, a._dtype)
                old = a.el(*i)
                return hit * nv + ((T.PONE - hit) * old if mode == "set" else old)
            return SymArray.make(a.dims, f, a._dtype)
        if len(advs) != len(key):
            raise Unsupported(".at with mixed index arrays and slices")
        sh = bcast(*[k.dims for k in advs])
        if len(sh) != 1:
            raise Unsupported(".at with multi-dimensional index arrays")
        n = dim_size(sh[0])
        if v.dims and not (len(v.dims) == 1 and same_dim(v.dims[0], sh[0])):
            raise Unsupported(".at update shape")
        ks = [k for k in key]
        if mode == "set":
            x, y = T.fresh_var(), T.fresh_var()
            R.range[x.name] = (T.ZERO, n)
            R.range[y.name] = (T.ZERO, n)
            same = T.cand(*[T.eq(k.el(T.pvar(x)), k.el(T.pvar(y))) for k in ks])
            ok = T.decide(T.cor(T.cnot(same), T.eq(T.pvar(x), T.pvar(y))))
            if ok is not True:
                raise Unsupported(".at[].set with possibly repeated indices")

        def f(*i):
            def hit(u):
                h = T.PONE
                for k, d, x in zip(ks, a.dims, i):
                    e = k.el(*bidx(k.dims, sh, [u]))
                    t = T.decide(T.le(T.ZERO, e))
                    if t is not True:
                        e = e + d * (T.PONE - T.iv(T.le(T.ZERO, e))) if t is None else e + d
                    h = h * T.iv(T.eq(x, e))
                return h
            s = T.bigsum(n, lambda u: hit(u) * cast_poly(v.el(u) if v.dims else v.body, v._dtype, a._dtype))
            old = a.el(*i)
            if mode == "add":
                return old + s
            return s + (T.PONE - T.bigsum(n, hit)) * old
        return SymArray.make(a.dims, f, a._dtype)

    def set(self, v, **kw):
        return self._upd(v, "set")

    def add(self, v, **kw):
        if self.a._dtype is BOOL:
            raise TypeError("add does not accept dtype bool")
        return self._upd(v, "add")

    def multiply(self, v, **kw):
        raise Unsupported(".at[].multiply")

    def get(self, **kw):
        return self.a[self.key]


def stack(xs, axis=0):
    xs = [to_arr(x) for x in xs]
    base = xs[0]
    for x in xs[1:]:
        if len(x.dims) != len(base.dims) or not all(same_dim(p, q) for p, q in zip(x.dims, base.dims)):
            raise ValueError("All input arrays must have the same shape.")
    dt = functools.reduce(promote, [x._dtype for x in xs])
    ax = norm_axis(axis, len(base.dims) + 1)
    dims = list(base.dims)
    dims.insert(ax, T.const(len(xs)))

    def f(*i):
        k = i[ax]
        rest = [x for q, x in enumerate(i) if q != ax]
        c = k.const()
        if c is not None:
            return xs[int(c)].el(*rest)
        if len(xs) == 1:
            return xs[0].el(*rest)
        return T.psum(T.iv(T.eq(k, T.const(q))) * x.el(*rest) for q, x in enumerate(xs))
    return SymArray.make(dims, f, dt)


def concatenate(xs, axis=0):
    if isinstance(xs, SymArray):
        xs = list(xs)
    if isinstance(xs, SymList):
        a = to_arr(xs.obj)
        ax = axes_of(a, axis)[0]
        s = a.dims[ax]
        if isinstance(s, Block):
            raise Unsupported("concatenate along a generic axis")
        for k, d in enumerate(a.dims):
            if k != ax and xs.v.name in (d.size.fv if isinstance(d, Block) else d.fv):
                raise Unsupported("concatenate of parts with differing other axes")
        jv = xs.v
        with_rng = T.lam([xs.n], lambda j: s.subst({jv.name: j}))
        total = T.bigsum(xs.n, lambda j: s.subst({jv.name: j}))
        dims = list(a.dims)
        dims[ax] = total

        def f(*i):
            k = i[ax]
            q = find(with_rng, k)
            off = k - offset(with_rng, q)
            idx = list(i)
            idx[ax] = off
            m = {v.name: as_poly(x) for v, x in zip(a.ivs, idx)}
            m[jv.name] = q
            return a.body.subst(m)
        return SymArray.make(dims, f, a._dtype)
    xs = [to_arr(x) for x in xs]
    if not xs:
        raise ValueError("Need at least one array to concatenate.")
    for x in xs:
        if not x.dims:
            raise ValueError("Zero-dimensional arrays cannot be concatenated.")
    ax = axes_of(xs[0], axis)[0]
    base = xs[0]
    for x in xs[1:]:
        if len(x.dims) != len(base.dims):
            raise TypeError("Cannot concatenate arrays with different numbers of dimensions")
        for k in range(len(base.dims)):
            if k != ax and not same_dim(base.dims[k], x.dims[k]):
                raise TypeError("Cannot concatenate arrays with shapes that differ in dimensions other than the one being concatenated")
    if len(xs) == 1:
        return xs[0]
    dt = functools.reduce(promote, [x._dtype for x in xs])
    if any(isinstance(x.dims[ax], Block) for x in xs):
        raise Unsupported("concatenate along a generic axis")
    dims = list(base.dims)
    dims[ax] = T.psum(x.dims[ax] for x in xs)

    def f(*i):
        off, out = T.ZERO, []
        for q, x in enumerate(xs):
            idx = list(i)
            idx[ax] = i[ax] - off
            g = T.PONE
            if q > 0:
                g = g * T.iv(T.le(off, i[ax]))
            if q < len(xs) - 1:
                g = g * T.iv(T.lt(i[ax], off + x.dims[ax]))
            off = off + x.dims[ax]
            if g.is_zero():
                continue
            out.append(g * x.el(*idx))
        return T.psum(out)
    return SymArray.make(dims, f, dt)


def split(a, sections, axis=0):
    a = to_arr(a)
    ax = axes_of(a, axis)[0]
    n = a.dims[ax]
    if isinstance(n, Block):
        raise Unsupported("split along a generic axis")
    if is_scalar(sections):
        p = scalar_poly(sections)
        sz = idiv(n, p)
        lst = SymList.make(p, lambda j: slice_ax(a, ax, j * sz, sz))
        return lst if p.const() is None else [lst[k] for k in range(int(p.const()))]
    if isinstance(sections, SymArray):
        if not sections.dims:
            return split(a, SymNum(sections.item_poly()), axis)
        s0 = sections
        v = T.fresh_var()
        R.range[v.name] = (T.ZERO, s0.dims[0])
        sections = SymList(s0.dims[0], v, SymNum(s0.el(T.pvar(v))))
    if isinstance(sections, SymList):
        m = sections.n + 1
        jv = sections.v
        e = scalar_poly(sections.obj)

        def start(j):
            # offset before part j: sections[j-1], or 0 for j = 0
            s0 = e.subst({jv.name: T.const(-1)})
            g = e.subst({jv.name: j - 1})
            if s0.is_zero():
                return g
            return T.ite(T.eq(j, T.ZERO), T.ZERO, g)

        def stop(j):
            g = e.subst({jv.name: j})
            last = e.subst({jv.name: m - 1})
            if T.decide(T.eq(last, n)) is True:
                return g
            return T.ite(T.lt(j, m - 1), g, n)

        def part(j):
            st, en = T.fold(start(j)), T.fold(stop(j))
            return slice_ax(a, ax, st, T.fold(en - st))
        return SymList.make(m, part)
    bounds = [T.ZERO] + [scalar_poly(s) for s in sections] + [n]
    out = []
    for s, e2 in zip(bounds, bounds[1:]):
        out.append(slice_ax(a, ax, s, e2 - s))
    return out


def slice_ax(a, ax, st, ln):
    """a[..., st:st+ln, ...]; assumes 0 <= st, st+ln <= n (checked, forks otherwise)."""
    n = a.dims[ax]
    if T.decide(T.le(st + ln, n)) is not True or T.decide(T.le(T.ZERO, ln)) is not True:
        if not E.branch(T.cand(T.le(st + ln, n), T.le(T.ZERO, ln), T.le(T.ZERO, st))):
            raise Unsupported("split outside the array")
    dims = list(a.dims)
    dims[ax] = ln
    return SymArray.make(dims, lambda *i: a.el(*[x + st if k == ax else x for k, x in enumerate(i)]), a._dtype)


# ================================================================= generic object substitution
def osubst(o, m):
    if isinstance(o, (Poly, Cond, Block)):
        return o.subst(m)
    if isinstance(o, SymNum):
        p = o.p.subst(m)
        return mknum(p) if not o.isfloat else SymNum(p, True)
    if isinstance(o, SymBool):
        return SymBoolish(o.cond.subst(m))
    if isinstance(o, SymArray):
        return o.osubst(m)
    if isinstance(o, ShapeT):
        return ShapeT(osubst(x, m) for x in o)
    if isinstance(o, tuple):
        if hasattr(o, "_fields"):
            return type(o)(*[osubst(x, m) for x in o])
        return tuple(osubst(x, m) for x in o)
    if isinstance(o, list):
        return [osubst(x, m) for x in o]
    if isinstance(o, dict):
        return {k: osubst(v, m) for k, v in o.items()}
    if isinstance(o, SymList):
        return SymList(o.n.subst(m), o.v, osubst(o.obj, m))
    if isinstance(o, SymTree):
        return SymTree(o.td.osubst(m), o.v, osubst(o.obj, m))
    if o is None or isinstance(o, (str, int, float, bool, DT)):
        return o
    reg = REGISTERED.get(type(o))
    if reg is not None:
        ch, aux = reg[0](o)
        return reg[1](aux, [osubst(c, m) for c in ch])
    if hasattr(o, "osubst"):
        return o.osubst(m)
    if callable(o):
        # closures over generic elements cannot be substituted; constants are fine
        return o
    raise Unsupported(f"substitution in {type(o).__name__}")


def omentions(o, name):
    """Does the object mention variable `name`?"""
    if isinstance(o, (Poly, Cond)):
        return name in o.fv
    if isinstance(o, Block):
        return any(name in a.fv for a in o.args) or name in o.size.fv
    if isinstance(o, SymNum):
        return name in o.p.fv
    if isinstance(o, SymBool):
        return name in o.cond.fv
    if isinstance(o, SymArray):
        return name in o.body.fv or any(omentions(d, name) for d in o.dims)
    if isinstance(o, (tuple, list)):
        return any(omentions(x, name) for x in o)
    if isinstance(o, dict):
        return any(omentions(x, name) for x in o.values())
    if isinstance(o, (SymList, SymTree)):
        return omentions(o.obj, name)
    reg = REGISTERED.get(type(o))
    if reg is not None:
        return any(omentions(c, name) for c in reg[0](o)[0])
    return False


class SymList:
    """A list of symbolic length n; obj is the element at index variable v."""
    __getattr__ = missing("list")

    def __init__(self, n, v, obj):
        self.n, self.v, self.obj = as_poly(n), v, obj
        R.range[v.name] = (T.ZERO, self.n)

    @staticmethod
    def make(n, f):
        v = T.fresh_var("i", "j")
        R.range[v.name] = (T.ZERO, as_poly(n))
        if as_poly(n).const() == 1:
            return SymList(n, v, f(T.ZERO))
        with generic(v):
            return SymList(n, v, f(T.pvar(v)))

    def at(self, p):
        return osubst(self.obj, {self.v.name: as_poly(p)})

    def __getitem__(self, k):
        if isinstance(k, slice):
            st, ln, step = slice_bounds(k, self.n)
            if step != 1:
                return SymList.make(ln, lambda j: self.at(st - j))
            return SymList.make(ln, lambda j: self.at(st + j))
        p = scalar_poly(k)
        if p.const() is not None and p.const() < 0:
            p = self.n + p
        if T.decide(T.lt(p, self.n)) is not True or T.decide(T.le(T.ZERO, p)) is not True:
            if not E.branch(T.cand(T.le(T.ZERO, p), T.lt(p, self.n))):
                raise IndexError("list index out of range")
        return self.at(p)

    def __bool__(self):
        return E.branch(T.lt(T.ZERO, self.n))

    def __len__(self):
        c = self.n.const()
        if c is not None:
            return int(c)
        raise Unsupported("len() of a symbolic list outside the rewriting")

    def __iter__(self):
        c = self.n.const()
        if c is not None:
            return iter([self.at(T.const(k)) for k in range(int(c))])
        raise Unsupported("iteration over a symbolic list outside a rewritten loop")

    def __add__(self, o):
        raise Unsupported("concatenation of symbolic lists")

    def __repr__(self):
        return f"SymList({self.n}, {self.v.name}. {self.obj})"
    __hash__ = None


REGISTERED = {}      # python type -> (flatten, unflatten) as given to register_pytree_node


# ================================================================= trees
class TreeDefS:
    """Structure of an abstract tree with n leaves."""

    def __init__(self, name, n):
        self.name, self.n = name, n

    def osubst(self, m):
        return TreeDefS(self.name, self.n.subst(m))

    def __eq__(self, o):
        return isinstance(o, TreeDefS) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    @property
    def num_leaves(self):
        return mknum(self.n)

    def unflatten(self, leaves):
        return tree_unflatten(self, leaves)

    def __repr__(self):
        return f"TreeDef({self.name})"


class SymTree:
    """An abstract pytree: structure td, generic leaf obj at index v."""
    __getattr__ = missing("tree")

    def __init__(self, td, v, obj):
        self.td, self.v, self.obj = td, v, obj
        R.range[v.name] = (T.ZERO, td.n)

    @staticmethod
    def make(td, f):
        v = T.fresh_var("i", "l")
        R.range[v.name] = (T.ZERO, td.n)
        if as_poly(td.n).const() == 1:
            return SymTree(td, v, f(T.ZERO))
        with generic(v):
            return SymTree(td, v, f(T.pvar(v)))

    def at(self, p):
        return osubst(self.obj, {self.v.name: as_poly(p)})

    def __repr__(self):
        return f"SymTree({self.td.name}, {self.v.name}. {self.obj})"

    def __getitem__(self, k):
        raise Unsupported("indexing into an abstract tree")

    def __add__(self, o):
        raise TypeError("unsupported operand type(s) for +: pytree")
    __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __matmul__ = __truediv__ = __neg__ = __add__
    __hash__ = None

    def __bool__(self):
        raise Unsupported("truth value of an abstract tree")


class TreeDefC:
    """Concrete container structure."""

    def __init__(self, kind, data, children):
        self.kind, self.data, self.children = kind, data, children

    def __eq__(self, o):
        return isinstance(o, TreeDefC) and (o.kind, o.data, o.children) == (self.kind, self.data, self.children)

    def __hash__(self):
        return hash((self.kind, repr(self.data)))

    @property
    def num_leaves(self):
        return sum(1 if c == "*" else c.num_leaves for c in self.children)

    def unflatten(self, leaves):
        return tree_unflatten(self, leaves)

    def __repr__(self):
        return f"TD({self.kind},{self.data},{self.children})"


LEAF = "*"


def children_of(t, is_leaf=None):
    """-> (kind, data, children) or None for a leaf."""
    if is_leaf is not None and is_leaf(t):
        return None
    if t is None:
        return ("none", None, [])
    if isinstance(t, ShapeT):
        return ("tuple", len(t), list(tuple(t)))
    if isinstance(t, tuple):
        if hasattr(t, "_fields"):
            return (type(t), None, list(t))
        return ("tuple", len(t), list(t))
    if isinstance(t, list):
        return ("list", len(t), list(t))
    if isinstance(t, dict):
        ks = sorted(t.keys())
        return ("dict", tuple(ks), [t[k] for k in ks])
    reg = REGISTERED.get(type(t))
    if reg is not None:
        ch, aux = reg[0](t)
        return (type(t), aux, list(ch))
    return None


def rebuild(kind, data, ch):
    if kind == "none":
        return None
    if kind == "tuple":
        return tuple(ch)
    if kind == "list":
        return list(ch)
    if kind == "dict":
        return dict(zip(data, ch))
    reg = REGISTERED.get(kind)
    if reg is not None:
        return reg[1](data, ch)
    return kind(*ch)


def tree_map(f, tree, *rest, is_leaf=None):
    if is_leaf is not None and is_leaf(tree):
        return f(tree, *rest)
    if isinstance(tree, SymTree):
        for r in rest:
            if not isinstance(r, SymTree) or r.td != tree.td:
                raise ValueError("Custom node type mismatch / tree structures differ")
        return SymTree.make(tree.td, lambda p: f(tree.at(p), *[r.at(p) for r in rest]))
    c = children_of(tree)
    if c is None:
        if isinstance(tree, SymList):
            if any(not isinstance(r, SymList) for r in rest):
                raise ValueError("tree structures differ")
            return SymList.make(tree.n, lambda p: tree_map(f, tree.at(p), *[r.at(p) for r in rest]))
        return f(tree, *rest)
    kind, data, ch = c
    rch = []
    for r in rest:
        rc = children_of(r)
        if rc is None or rc[0] != kind or rc[1] != data or len(rc[2]) != len(ch):
            raise ValueError(f"tree structures differ: {kind} {data} vs {type(r).__name__}")
        rch.append(rc[2])
    out = [tree_map(f, x, *[q[k] for q in rch], is_leaf=is_leaf) for k, x in enumerate(ch)]
    return rebuild(kind, data, out)


def tree_flatten(tree, is_leaf=None):
    if isinstance(tree, SymTree):
        return SymList.make(tree.td.n, lambda p: tree.at(p)), tree.td
    leaves = []

    def rec(t):
        if isinstance(t, SymTree):
            raise Unsupported("flattening a container of abstract trees")
        c = children_of(t, is_leaf)
        if c is None:
            if isinstance(t, SymList):
                raise Unsupported("flattening a symbolic list")
            leaves.append(t)
            return LEAF
        return TreeDefC(c[0], c[1], tuple(rec(x) for x in c[2]))
    td = rec(tree)
    return leaves, td


def tree_unflatten(td, leaves):
    if isinstance(td, TreeDefS):
        if not isinstance(leaves, SymList):
            leaves2 = list(leaves)
            c = as_poly(td.n).const()
            if c is not None and c != len(leaves2):
                raise ValueError("Too few or too many leaves for PyTreeDef")
            if c == 1:
                return SymTree.make(td, lambda p: leaves2[0])
            raise Unsupported("unflatten of an abstract structure from a concrete list")
        if leaves.n.key != td.n.key and T.decide(T.eq(leaves.n, td.n)) is not True:
            if not E.branch(T.eq(leaves.n, td.n)):
                raise ValueError("Too few or too many leaves for PyTreeDef")
        return SymTree.make(td, lambda p: leaves.at(p))
    it = iter(list(leaves))

    def rec(d):
        if d == LEAF:
            try:
                return next(it)
            except StopIteration:
                raise ValueError("Too few leaves for PyTreeDef")
        return rebuild(d.kind, d.data, [rec(c) for c in d.children])
    out = rec(td)
    if next(it, it) is not it:
        raise ValueError("Too many leaves for PyTreeDef")
    return out


def tree_leaves(tree, is_leaf=None):
    return tree_flatten(tree, is_leaf)[0]


def flat_leaf_objs(tree):
    """[(leafobj, [generic leaf vars])] of any tree: SymTree leaves appear once, generically."""
    out = []

    def rec(t):
        if isinstance(t, SymTree):
            out.append((t.obj, t))
            return
        c = children_of(t)
        if c is None:
            out.append((t, None))
            return
        for x in c[2]:
            rec(x)
    rec(tree)
    return out
