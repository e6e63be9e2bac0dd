"""Contracts assumed of jax / numpy / the standard library: symbolic versions of the
functions laplax calls.  Each is the mathematical meaning of the real one (real
arithmetic, no rounding); anything not listed raises Unsupported."""
import builtins
import functools
import itertools as _it
import math as _math
import operator as _op
import types
import typing
import collections.abc
from fractions import Fraction
from . import term as T, core as C
from .term import R, Unsupported, Poly, as_poly
from .core import (E, SymArray, SymNum, SymBool, SymList, SymTree, ShapeT, Block, DT, mknum, scalar_poly, is_scalar,
                   to_arr, asarray, tree_map, tree_flatten, tree_unflatten, tree_leaves, traced, generic, dim_size,
                   norm_shape, axes_of, reduce_axes, lam_over, ewise, unop, FLOAT, INT, BOOL, KEY, E as ENG,
                   SymBoolish, TreeDefC, TreeDefS, norm_axis, same_dim)
from .loops import SymSeq, sym_seq, seq_view, comp


# ================================================================= helpers
class NS(types.ModuleType):
    def __init__(self, name, **kw):
        super().__init__(name)
        self.__dict__.update(kw)
        self.__path__ = []

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Lazy(f"{self.__name__}.{k}")


class Lazy:
    """An attribute without contract: fails when used."""

    def __init__(self, name):
        self._vfname = name

    def _bad(self, *a, **k):
        raise Unsupported(f"{self._vfname} has no contract")
    __call__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __iter__ = _bad
    __bool__ = __lt__ = __gt__ = __le__ = __ge__ = __float__ = __int__ = __index__ = _bad

    def __getitem__(self, k):
        return self

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Lazy(self._vfname + "." + k)

    def __or__(self, o):
        return typing.Any
    __ror__ = __or__


def uns(name):
    def f(*a, **k):
        raise Unsupported(f"{name} has no contract")
    return f


def isf(x):
    return isinstance(x, SymArray)


# ================================================================= jnp
def j_where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    c = to_arr(c)
    if c._dtype.kind != "b":
        c = unop(c, lambda p: T.iv(T.cnot(T.eq(p, T.ZERO))), BOOL)
    def f(p, x, y):
        k = T.iv_cond(p) if "floor(" in p.key else None
        q = T._minmax(k, x, y) if k is not None else None
        return p * x + (T.PONE - p) * y if q is None else q
    return ewise(f, c, a, b, dtype=C.res_dtype(a, b) if (isf(a) or isf(b))
                 else C.promote(asarray(a)._dtype, asarray(b)._dtype))


def fdt(x):
    d = to_arr(x)._dtype
    return d if d.kind == "f" else FLOAT


def u_fn(name, sort="r"):
    def f(x, *a, **k):
        return unop(to_arr(x), lambda p: T.app(name, p, sort=sort), fdt(x))
    return f


def j_exp(x): return unop(x, T.exp, fdt(x))
def j_log(x): return unop(x, T.log, fdt(x))
def j_abs(x): return unop(x, lambda p: T.app("abs", p))


def maximum(a, b):
    return ewise(lambda x, y: T.ite(T.le(y, x), x, y), a, b, dtype=_rd(a, b))


def minimum(a, b):
    return ewise(lambda x, y: T.ite(T.le(x, y), x, y), a, b, dtype=_rd(a, b))


def _rd(a, b):
    if isf(a) or isf(b):
        return C.res_dtype(a, b)
    return C.promote(asarray(a)._dtype, asarray(b)._dtype)


def j_clip(x, a_min=None, a_max=None, min=None, max=None):
    lo = a_min if min is None else min
    hi = a_max if max is None else max
    if lo is not None:
        x = maximum(x, lo)
    if hi is not None:
        x = minimum(x, hi)
    return to_arr(x)


def j_top_k(x, k):
    """Values and indices of the k largest entries along the last axis, in descending order (ties: lower index first).
    The index at place j is the class of rank j."""
    x = to_arr(x)
    k, n = scalar_poly(k), x.dims[-1]
    if T.decide(T.lt(n, k)) is True:
        raise ValueError("k argument to top_k must be no larger than minor dimension")
    if T.decide(T.le(k, n)) is not True:
        raise Unsupported("top_k with k possibly above the size of the axis")
    row = lambda b: T.lam([n], lambda c: x.el(*b, c))
    idx = lambda *i: T.app("topidx", row(i[:-1]), i[-1], sort="i")
    dims = (*x.dims[:-1], k)
    return SymArray.make(dims, lambda *i: x.el(*i[:-1], idx(*i)), x._dtype), SymArray.make(dims, idx, INT)


def j_arange(a, b=None, step=None, dtype=None):
    if b is None:
        a, b = 0, a
    if isinstance(b, SymArray):
        b = SymNum(b.item_poly())
    st = 1 if step is None else step
    lo, hi, s = scalar_poly(a), scalar_poly(b), scalar_poly(st)
    if s.const() is None:
        raise Unsupported("arange step")
    if s.const() == 1 and lo.sort == "i" and hi.sort == "i":
        n = hi - lo
    elif s.const() == -1:
        n = lo - hi
    else:
        c = (hi - lo).const()
        if c is None:
            raise Unsupported("arange")
        n = T.const(max(0, _math.ceil(c / s.const())))
    dt = C.as_dtype(dtype) or (INT if lo.sort == "i" and s.const().denominator == 1 and not isinstance(a, float) else FLOAT)
    if T.decide(T.le(T.ZERO, n)) is not True and not E.branch(T.le(T.ZERO, n)):
        n = T.ZERO
    return SymArray.make((n,), lambda i: lo + i * s, dt)


def j_linspace(start, stop, num=50, endpoint=True, dtype=None, **k):
    n = scalar_poly(num)
    pa, pb = scalar_poly(start), scalar_poly(stop)
    den = n - 1 if endpoint else n
    if den.const() == 0:
        return SymArray.make((n,), lambda i: pa)
    return SymArray.make((n,), lambda i: pa + i * (pb - pa) / den)


def j_logspace(start, stop, num=50, endpoint=True, base=10.0, **k):
    ls = j_linspace(start, stop, num, endpoint)
    lb = T.log(scalar_poly(base))
    return unop(ls, lambda p: T.exp(p * lb))


def filled(v):
    def f(shape=(), dtype=None, **k):
        dt = C.as_dtype(dtype) or FLOAT
        if isinstance(shape, SymList):
            raise Unsupported("symbolic-rank shape")
        return SymArray.make(norm_shape(shape), lambda *i: T.const(v), dt)
    return f


def j_full(shape, fill_value, dtype=None, **k):
    v = to_arr(fill_value)
    return SymArray.make(norm_shape(shape), lambda *i: v.item_poly(), C.as_dtype(dtype) or v._dtype)


def like(v):
    def f(x, dtype=None, shape=None, **k):
        x = to_arr(x)
        return SymArray.make(x.dims if shape is None else norm_shape(shape), lambda *i: T.const(v), C.as_dtype(dtype) or x._dtype)
    return f


def j_eye(n, m=None, dtype=None, **k):
    if isinstance(n, SymArray):
        n = SymNum(n.item_poly())
    m = n if m is None else m
    return SymArray.make((n, m), lambda i, j: T.iv(T.eq(i, j)), C.as_dtype(dtype) or FLOAT)


def j_diag(x, k=0):
    x = to_arr(x)
    if k != 0:
        raise Unsupported("diag offset")
    if len(x.dims) == 1:
        return SymArray.make((x.dims[0], x.dims[0]), lambda i, j: T.iv(T.eq(i, j)) * x.el(i), x._dtype)
    if len(x.dims) == 2:
        return j_diagonal(x)
    raise ValueError("diag input must be 1d or 2d")


def j_diagonal(x, offset=0, axis1=0, axis2=1):
    x = to_arr(x)
    if offset != 0:
        raise Unsupported("diagonal offset")
    nd = len(x.dims)
    a1, a2 = norm_axis(axis1, nd), norm_axis(axis2, nd)
    keep = [k for k in range(nd) if k not in (a1, a2)]
    n = x.dims[a1]
    if not same_dim(x.dims[a1], x.dims[a2]):
        if E.branch(T.le(x.dims[a2], n)):
            n = x.dims[a2]

    def f(*i):
        full = [None] * nd
        for k, v in zip(keep, i[:-1]):
            full[k] = v
        full[a1] = full[a2] = i[-1]
        return x.el(*full)
    return SymArray.make([x.dims[k] for k in keep] + [n], f, x._dtype)


def j_trace(x, **k):
    return C.rsum(j_diagonal(x), -1)


def j_flip(x, axis=None):
    x = to_arr(x)
    axs = axes_of(x, axis)

    def f(*i):
        return x.el(*[x.dims[k] - 1 - v if k in axs else v for k, v in enumerate(i)])
    return SymArray.make(x.dims, f, x._dtype)


def j_cumsum(x, axis=None):
    x = to_arr(x)
    if axis is None:
        x = C.reshape(x, (-1,))
        axis = 0
    ax = axes_of(x, axis)[0]

    def f(*i):
        return T.bigsum(i[ax] + 1, lambda u: x.el(*[u if k == ax else v for k, v in enumerate(i)]))
    out = SymArray.make(x.dims, f, x._dtype)
    CUMS[id(out)] = (out, x)
    return out


CUMS = {}


def j_searchsorted(a, v, side="left", **k):
    """Number of entries < v (left) or <= v (right) of the sorted array a."""
    a, v = to_arr(a), to_arr(v)
    if len(a.dims) != 1:
        raise Unsupported("searchsorted")
    c = CUMS.get(id(a))
    if c is not None and c[0] is a and len(c[1].dims) == 1 and c[1]._dtype.kind in "iu" and side == "right":
        x = c[1]
        n = a.dims[0]
        L = T.lam([n], lambda j: x.el(j))
        u = T.fresh_var()
        R.range[u.name] = (T.ZERO, n)
        if T.decide(T.le(T.ZERO, x.el(T.pvar(u)))) is True:
            tot = C.offset(L, n)

            def f(*i):
                p = v.el(*i)
                inside = T.cand(T.le(T.ZERO, p), T.lt(p, tot))
                if T.decide(inside) is True:
                    return C.find(L, p)
                return T.ite(T.lt(p, T.ZERO), T.ZERO, T.ite(T.lt(p, tot), C.find(L, p), n))
            return SymArray.make(v.dims, f, INT)
    if side == "right":
        g = lambda x, y: T.iv(T.le(x, y))
    else:
        g = lambda x, y: T.iv(T.lt(x, y))
    return SymArray.make(v.dims, lambda *i: T.bigsum(a.dims[0], lambda u: g(a.el(u), v.el(*i))), INT)


def j_digitize(x, bins, right=False):
    """bins increasing: count of bins <= x (right=False) or < x (right=True)."""
    return j_searchsorted(bins, x, side="left" if right else "right")


def j_moveaxis(x, s, d):
    x = to_arr(x)
    nd = len(x.dims)
    s, d = norm_axis(s, nd), norm_axis(d, nd)
    order = [k for k in range(nd) if k != s]
    order.insert(d, s)
    return C.transpose(x, order)


def j_swapaxes(x, a, b):
    x = to_arr(x)
    nd = len(x.dims)
    o = list(range(nd))
    a, b = norm_axis(a, nd), norm_axis(b, nd)
    o[a], o[b] = o[b], o[a]
    return C.transpose(x, o)


def j_broadcast_to(x, shape):
    x = to_arr(x)
    out = norm_shape(shape)
    full = C.bcast(x.dims, out)
    return SymArray.make(full, lambda *i: x.el(*C.bidx(x.dims, full, i)), x._dtype)


def j_dot(a, b, **k):
    a, b = to_arr(a), to_arr(b)
    if not a.dims or not b.dims:
        return a * b
    return C.matmul(a, b)


def j_vdot(a, b, **k):
    return C.rsum(C.reshape(a, (-1,)) * C.reshape(b, (-1,)))


def j_outer(a, b):
    a, b = C.reshape(a, (-1,)), C.reshape(b, (-1,))
    return SymArray.make((a.dims[0], b.dims[0]), lambda i, j: a.el(i) * b.el(j), C.promote(a._dtype, b._dtype))


def j_einsum(spec, *ops, **k):
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        cnt = {}
        for ch in ins.replace(",", ""):
            cnt[ch] = cnt.get(ch, 0) + 1
        out = "".join(sorted(c for c in cnt if cnt[c] == 1))
    if "." in ins:
        raise Unsupported("einsum ellipsis")
    ops = [to_arr(o) for o in ops]
    ins = ins.split(",")
    dim = {}
    for s, o in zip(ins, ops):
        if len(s) != len(o.dims):
            raise ValueError("einsum rank mismatch")
        for ch, d in zip(s, o.dims):
            if ch in dim and not same_dim(dim[ch], d):
                raise ValueError("einsum size mismatch")
            dim.setdefault(ch, d)
    summed = [c for c in dim if c not in out]

    def f(*i):
        env = dict(zip(out, i))

        def rec(q):
            if q == len(summed):
                p = T.PONE
                for s, o in zip(ins, ops):
                    p = p * o.el(*[env[ch] for ch in s])
                return p

            def g(u):
                env[summed[q]] = u
                return rec(q + 1)
            return T.bigsum(dim_size(dim[summed[q]]), g)
        return rec(0)
    return SymArray.make([dim[c] for c in out], f, functools.reduce(C.promote, [o._dtype for o in ops]))


def j_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    if k or y is not None:
        raise Unsupported("cov arguments")
    m = to_arr(m)
    if len(m.dims) > 2:
        raise ValueError("m has more than 2 dimensions")
    if len(m.dims) == 1:
        m = C.expand_dims(m, 0)
    elif not rowvar:
        m = C.transpose(m)
    if T.decide(T.eq(m.dims[0], T.PONE)) is None:
        pass
    n = m.dims[1]
    dd = (0 if bias else 1) if ddof is None else ddof
    mu = C.mean(m, 1, True)
    x = m - mu
    p = m.dims[0]
    out = SymArray.make((p, p), lambda i, j: T.bigsum(n, lambda u: x.el(i, u) * x.el(j, u)) / (n - as_poly(dd)))
    if p.const() == 1 or E.branch(T.eq(p, T.PONE)):
        return C.squeeze(out, (0, 1))
    return out


def j_norm(x, ord=None, axis=None, keepdims=False):
    x = to_arr(x)
    if ord not in (None, 2, "fro"):
        raise Unsupported("norm ord")
    if ord == 2 and axis is None and len(x.dims) == 2:
        raise Unsupported("spectral norm")
    return C.sqrt(C.rsum(x * x, axis, keepdims))


def j_std(x, axis=None, ddof=0, keepdims=False, correction=None, **k):
    return C.sqrt(C.var(x, axis, ddof, keepdims, correction))


def bool_reduce(all_):
    def f(x, axis=None, **k):
        x = to_arr(x)
        def g(full, axs):
            n = C.prod_sizes([x.dims[a] for a in axs])
            def rec(q, cur):
                if q == len(axs):
                    v = x.el(*[cur[z] for z in range(len(x.dims))])
                    v = T.iv(T.cnot(T.eq(v, T.ZERO)))
                    return (T.PONE - v) if all_ else v
                return T.bigsum(dim_size(x.dims[axs[q]]), lambda u: rec(q + 1, {**cur, axs[q]: u}))
            s = rec(0, full)
            return T.iv(T.eq(s, T.ZERO)) if all_ else T.PONE - T.iv(T.eq(s, T.ZERO))
        return reduce_axes(x, axis, False, g, BOOL)
    return f


def j_astype(x, dt):
    return to_arr(x).astype(dt)


def j_tile(x, reps):
    x = to_arr(x)
    if is_scalar(reps):
        reps = (reps,)
    if len(x.dims) == 1 and len(reps) == 1:
        n = x.dims[0]
        return SymArray.make((n * scalar_poly(reps[0]),), lambda i: x.el(C.imod(i, n)), x._dtype)
    raise Unsupported("tile")


def j_allclose(a, b, **k):
    # exact-arithmetic reading: equality of all entries
    a, b = to_arr(a), to_arr(b)
    return SymArray((), (), T.iv(T.capp("allclose", T.lam([], lambda: T.ZERO))), BOOL)


def j_sum(x, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    if where is not None or initial is not None:
        raise Unsupported("sum(where=)")
    return C.rsum(x, axis, keepdims)


def j_mean(x, axis=None, dtype=None, out=None, keepdims=False, where=None):
    if where is not None:
        raise Unsupported("mean(where=)")
    return C.mean(x, axis, keepdims)


def j_var(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=None, correction=None):
    if where is not None:
        raise Unsupported("var(where=)")
    return C.var(x, axis, ddof, keepdims, correction)


def j_split(a, s, axis=0):
    return C.split(a, s, axis)


def j_concat(xs, axis=0, dtype=None):
    if isinstance(xs, SymSeq):
        xs = xs.tolist()
    if axis is None:
        xs = [C.reshape(x, (-1,)) for x in xs] if not isinstance(xs, SymList) else comp("list", xs, lambda x: C.reshape(x, (-1,)))
        axis = 0
    return C.concatenate(xs, axis)


def j_stack(xs, axis=0, **k):
    if isinstance(xs, SymSeq):
        xs = xs.tolist()
    if isinstance(xs, SymList):
        e = to_arr(xs.obj)
        ax = norm_axis(axis, len(e.dims) + 1)
        dims = list(e.dims)
        dims.insert(ax, xs.n)

        def f(*i):
            r = [v for q, v in enumerate(i) if q != ax]
            return e.el(*r).subst({xs.v.name: i[ax]})
        return SymArray.make(dims, f, e._dtype)
    if isinstance(xs, SymArray):
        xs = list(xs)
    return C.stack(xs, axis)


def j_hstack(xs, **k):
    xs = [to_arr(x) for x in xs]
    return C.concatenate(xs, 0 if len(xs[0].dims) <= 1 else 1)


def j_vstack(xs, **k):
    xs = [to_arr(x) for x in xs]
    xs = [C.expand_dims(x, 0) if len(x.dims) == 1 else x for x in xs]
    return C.concatenate(xs, 0)


def j_power(a, b):
    ca = scalar_poly(a) if is_scalar(a) else None
    if ca is not None and ca.const() is not None and ca.const() > 0:
        lb = T.log(ca)
        return unop(to_arr(b), lambda p: T.exp(p * lb), FLOAT)
    return C.power(a, b)


def j_argmin(a, axis=None):
    return C.argmax(-to_arr(a), axis)


def j_isnan(x):
    if hasattr(x, "__vf_isnan__"):
        return x.__vf_isnan__()
    if isinstance(x, float):
        return x != x
    return unop(to_arr(x), lambda p: T.ZERO, BOOL)


def j_sign(x):
    return unop(to_arr(x), lambda p: T.app("sign", p))


def j_expand_dims(x, axis):
    if isinstance(axis, (tuple, list)):
        for a in sorted(axis):
            x = C.expand_dims(x, a)
        return x
    return C.expand_dims(x, axis)


def j_squeeze(x, axis=None): return C.squeeze(x, axis)


def truth(x):
    x = to_arr(x)
    return x if x._dtype.kind == "b" else x != 0


def b2(f):
    def g(a, b):
        if isf(a) or isf(b):
            return f(a, b)
        return f(to_arr(a), b)
    return g


# ---- linear algebra by contract
def mat_lam(a):
    return T.lam(a.dims, lambda *i: a.el(*i))


def la_cholesky(a, **k):
    a = to_arr(a)
    if len(a.dims) != 2:
        raise Unsupported("batched cholesky")
    L = mat_lam(a)
    E.assumptions.add("jnp.linalg.cholesky(A): L lower triangular with L L^T = A (A symmetric positive definite)")
    return SymArray.make(a.dims, lambda i, j: T.app("chol", L, i, j), a._dtype)


def la_inv(a):
    a = to_arr(a)
    if len(a.dims) != 2:
        raise Unsupported("batched inverse")
    L = mat_lam(a)
    E.assumptions.add("jnp.linalg.inv(A): A^-1 A = A A^-1 = I (A non-singular)")
    return SymArray.make(a.dims, lambda i, j: T.app("matinv", L, i, j), a._dtype)


def la_solve(a, b):
    return C.matmul(la_inv(a), b)


def la_solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, **k):
    """x with op(tri(a)) x = b, tri = lower or upper triangle of a."""
    a, b = to_arr(a), to_arr(b)
    if unit_diagonal:
        raise Unsupported("unit_diagonal")
    i, j = T.fresh_var(), T.fresh_var()
    R.range[i.name] = R.range[j.name] = (T.ZERO, a.dims[0])
    saved = list(R.pc)
    R.pc = saved + [T.lt(T.pvar(i), T.pvar(j)) if lower else T.lt(T.pvar(j), T.pvar(i))]
    R.bump()
    try:
        is_tri = a.el(T.pvar(i), T.pvar(j)).is_zero()      # the other triangle is zero already
    finally:
        R.pc = saved
        R.bump()
    tri = a if is_tri else SymArray.make(a.dims, lambda i, j: T.iv(T.le(j, i) if lower else T.le(i, j)) * a.el(i, j), a._dtype)
    if trans in (1, "T", 2, "C"):
        tri = C.transpose(tri)
    E.assumptions.add("solve_triangular(A, b): inverse of the selected triangle of A times b (non-zero diagonal)")
    return C.matmul(la_inv(tri), b)


def la_slogdet(a):
    a = to_arr(a)
    L = mat_lam(a)
    E.assumptions.add("jnp.linalg.slogdet(A) = (sign det A, log |det A|)")
    t = typing.NamedTuple("SlogdetResult", [("sign", object), ("logabsdet", object)])
    return t(SymArray((), (), T.app("detsign", L)), SymArray((), (), T.app("logdet", L)))


def la_det(a):
    a = to_arr(a)
    return SymArray((), (), T.app("det", mat_lam(a)))


class EighResult(typing.NamedTuple):
    eigenvalues: object
    eigenvectors: object


def la_eigh(a, **k):
    a = to_arr(a)
    L = mat_lam(a)
    n = a.dims[0]
    E.assumptions.add("jnp.linalg.eigh(A) = (w ascending, V) with V^T V = V V^T = I and V diag(w) V^T = (A + A^T)/2")
    return EighResult(SymArray.make((n,), lambda i: T.app("eigw", L, i)),
                      SymArray.make((n, n), lambda i, j: T.app("eigv", L, i, j)))


class QRResult(typing.NamedTuple):
    Q: object
    R: object


class SVDResult(typing.NamedTuple):
    U: object
    S: object
    Vh: object


def la_svd(a, full_matrices=True, compute_uv=True, **k):
    a = to_arr(a)
    if full_matrices or not compute_uv:
        raise Unsupported("full svd")
    m, n = a.dims
    r = m if T.decide(T.le(m, n)) is True else (n if T.decide(T.le(n, m)) is True else None)
    if r is None:
        r = m if E.branch(T.le(m, n)) else n
    L = mat_lam(a)
    E.assumptions.add("jnp.linalg.svd(A, full_matrices=False): orthonormal U, Vh, singular values s >= 0, U diag(s) Vh = A")
    R.nonneg.add("svds")
    return SVDResult(SymArray.make((m, r), lambda i, j: T.app("svdu", L, i, j)),
                     SymArray.make((r,), lambda i: T.app("svds", L, i)),
                     SymArray.make((r, n), lambda i, j: T.app("svdvh", L, i, j)))


def la_multi_dot(xs, **k):
    return functools.reduce(C.matmul, [to_arr(x) for x in xs])


# ---- contraction rules for the contract symbols
def find_pair(bs, d, names):
    pass


def rule_linear_algebra(bs, d):
    """SUM_k chol(A,i,k) chol(A,j,k) = A(i,j);  matinv/eigh contractions; triangular zeros."""
    items = list(d.values())
    for v, n in bs:
        occ = [(a, e) for a, e in items if v.name in a.fv]
        if any(v.name in q.fv for w, q in bs):
            continue
        apps = [a for a, e in occ if isinstance(a, T.App) and e == 1]
        r3 = triple(occ, v, n)
        if r3 is not None:
            rest = [(a, e) for a, e in items if all(a is not o[0] for o in occ)]
            bs2 = [(w, q) for w, q in bs if w is not v]
            for w, q in bs2:
                R.range[w.name] = (T.ZERO, q)
            return T.sum_poly(bs2, T._with([], [(rest, None)]) * r3)
        # occurrences with exponent 2 (same factor twice)
        if len(occ) == 1 and isinstance(occ[0][0], T.App) and occ[0][1] == 2:
            apps = [occ[0][0], occ[0][0]]
            occ2 = [occ[0]]
        elif len(occ) == 2 and len(apps) == 2:
            occ2 = occ
        else:
            continue
        r = contract_pair(apps[0], apps[1], v, n) or contract_pair(apps[1], apps[0], v, n)
        if r is None:
            continue
        rest = [(a, e) for a, e in items if all(a is not o[0] for o in occ2)]
        bs2 = [(w, q) for w, q in bs if w is not v]
        for w, q in bs2:
            R.range[w.name] = (T.ZERO, q)
        inner = T._with([], [(rest, None)]) * r
        return T.sum_poly(bs2, inner)
    return None


def triple(occ, v, n):
    """SUM_k Q(i,k) w(k) Q(j,k) = (A(i,j) + A(j,i)) / 2 for the eigendecomposition of A; SUM_k U(i,k) s(k) Vh(k,j) = A(i,j)."""
    apps = [(a, e) for a, e in occ if isinstance(a, T.App)]
    if len(apps) != len(occ) or sum(e for _, e in occ) != 3:
        return None
    by = {}
    for a, e in apps:
        by.setdefault(a.f, []).extend([a] * int(e))
    L = apps[0][0].args[0] if apps[0][0].args and isinstance(apps[0][0].args[0], T.Lam) else None
    if L is None or v.name in L.fv or any(not a.args or not isinstance(a.args[0], T.Lam) or a.args[0].key != L.key for a, _ in apps):
        return None
    if set(by) == {"eigv", "eigw"} and len(by["eigw"]) == 1 and n.key == L.ranges[0].key and isv(by["eigw"][0].args[1], v):
        x, y = by["eigv"]
        if isv(x.args[2], v) and isv(y.args[2], v) and free_of(x.args[1], v) and free_of(y.args[1], v):
            i, j = x.args[1], y.args[1]
            return (L(i, j) + L(j, i)) * T.const(Fraction(1, 2))
    if set(by) == {"svdu", "svds", "svdvh"} and all(len(z) == 1 for z in by.values()):
        u, s, w = by["svdu"][0], by["svds"][0], by["svdvh"][0]
        if isv(u.args[2], v) and isv(s.args[1], v) and isv(w.args[1], v) and free_of(u.args[1], v) and free_of(w.args[2], v):
            return L(u.args[1], w.args[2])
    return None


def isv(p, v):
    a = T.single(p)
    return isinstance(a, T.Var) and a.name == v.name


def covers(p, v, n):
    """p runs through [0,n) exactly once as v does (p = v or p = n-1-v)."""
    return isv(p, v) or (p - (n - 1 - T.pvar(v))).is_zero()


def free_of(p, v):
    return v.name not in p.fv


# App name -> (which index is summed, ...) : orthonormality of a family of vectors
ORTHO = {"eigv": "both", "svdu": "cols", "svdvh": "rows"}


def contract_pair(a, b, v, n):
    pr = R.pairs.get((a.f, b.f))
    if pr is not None and a.args and b.args and n.key == pr[0].key and covers(a.args[-1], v, n) and b.args[-1].key == a.args[-1].key \
            and all(isinstance(x, Poly) and free_of(x, v) for x in a.args[:-1] + b.args[:-1]):
        return pr[1](a.args[:-1], b.args[:-1])
    o = R.ortho.get(a.f)
    if o is not None and a.f == b.f and len(a.args) == 2 and len(b.args) == 2:
        # an input matrix assumed to have orthonormal columns / rows
        which, rows, cols = o
        (i, k), (j, k2) = a.args, b.args
        if which == "cols" and n.key == rows.key and covers(i, v, n) and i.key == j.key and free_of(k, v) and free_of(k2, v):
            return T.iv(T.eq(k, k2))
        if which == "rows" and n.key == cols.key and covers(k, v, n) and k.key == k2.key and free_of(i, v) and free_of(j, v):
            return T.iv(T.eq(i, j))
    if not (isinstance(a.args[0] if a.args else None, T.Lam)):
        return None
    L = a.args[0]
    if v.name in L.fv or len(L.ranges) != 2:
        return None
    if a.f == b.f and isinstance(b.args[0], T.Lam) and b.args[0].key == L.key and len(a.args) == 3:
        i, k = a.args[1], a.args[2]
        j, k2 = b.args[1], b.args[2]
        second = covers(k, v, n) and k.key == k2.key and free_of(i, v) and free_of(j, v)
        first = covers(i, v, n) and i.key == j.key and free_of(k, v) and free_of(k2, v)
        if a.f == "chol" and "chol" not in R.no_contract and second and n.key == L.ranges[1].key:
            return L(i, j)
        if a.f == "eigv" and second and n.key == L.ranges[0].key:
            return T.iv(T.eq(i, j))
        if a.f in ("eigv", "svdu") and first and n.key == L.ranges[0].key:
            return T.iv(T.eq(k, k2))
        if a.f == "svdvh" and second and n.key == L.ranges[1].key:
            return T.iv(T.eq(i, j))
    if a.f == "matinv" and len(a.args) == 3 and n.key == L.ranges[0].key:
        # SUM_k inv(A)(i,k) A(k,j) = [i==j] = SUM_k A(i,k) inv(A)(k,j)
        i, k = a.args[1], a.args[2]
        if covers(k, v, n) and free_of(i, v):
            j = solve_other(L, b, k, 1, v)
            if j is not None:
                return T.iv(T.eq(i, j))
        if covers(i, v, n) and free_of(k, v):
            j = solve_other(L, b, i, 0, v)
            if j is not None:
                return T.iv(T.eq(j, k))
    return None


def solve_other(L, b, at, side, v):
    """b == L(at, j) (side 1) or L(j, at) (side 0) for some index j free of v?"""
    w = T.fresh_var("i", "w")
    R.range[w.name] = (T.ZERO, L.ranges[1 if side else 0])
    try:
        q = L(at, T.pvar(w)) if side else L(T.pvar(w), at)
        q = T.single(q)
        if q is None or type(q) is not type(b):
            return None
        if isinstance(q, T.App):
            if q.f != b.f or len(q.args) != len(b.args):
                return None
            pairs = list(zip(q.args, b.args))
        elif isinstance(q, T.FApp):
            if q.f != b.f or len(q.idx) != len(b.idx) or q.dv or b.dv:
                return None
            pairs = list(zip(q.idx, b.idx))
        else:
            return None
        j = None
        for x, y in pairs:
            if isinstance(x, Poly) and isinstance(y, Poly) and w.name in x.fv:
                j = T.lin_solve(x - y, w.name)
                break
        if j is None or not free_of(j, v):
            return None
        q2 = T.single(L(at, j) if side else L(j, at))
        return j if q2 is not None and q2.key == b.key else None
    finally:
        R.range.pop(w.name, None)


def _chol_rule(args):
    if len(args) == 3 and T.decide(T.lt(args[1], args[2])) is True:
        return T.ZERO
    return None


# ---- concrete evaluation of the contract symbols (counter-model search only)
def _np_matrix(ev, L, env):
    import numpy as np
    n, m = ev.dims(L, env)
    if ev.precise:
        import mpmath
        t = ev.table(L, env)
        return mpmath.matrix(n, m) if not t else mpmath.matrix([t[i * m:(i + 1) * m] for i in range(n)])
    return np.array([float(x) for x in ev.table(L, env)]).reshape(n, m)


def _np(name, f):
    def h(ev, a, env):
        import numpy as np
        from .numeric import Undef
        L = a.args[0]
        key = (name, L.key, tuple(sorted((k, env.get(k, ev.env.get(k))) for k in L.fv if k in T._vars)))
        if key not in ev.memo:
            try:
                ev.memo[key] = (_mp_la(name, _np_matrix(ev, L, env)) if ev.precise else f(_np_matrix(ev, L, env)))
            except (np.linalg.LinAlgError, ZeroDivisionError, ValueError) as e:
                raise Undef(str(e))
        r = ev.memo[key]
        idx = tuple(ev.poly(x, env) for x in a.args[1:])
        return ev.F(r[idx[0] if len(idx) == 1 else idx]) if idx else ev.F(r)
    return h


def _mp_la(name, M):
    """The same functions in 60 digits (mpmath)."""
    import mpmath
    from mpmath import mp
    n, m = M.rows, M.cols
    big = max([abs(x) for x in M] + [0])
    if name in ("chol", "eigw", "eigv"):
        if any(abs(M[i, j] - M[j, i]) > mpmath.mpf(10) ** -40 * big for i in range(n) for j in range(i)):
            raise ValueError("not symmetric")
    if name == "chol":
        return mp.cholesky(M)
    if name in ("eigw", "eigv"):
        w, Q = mp.eigsy(M)
        order = sorted(range(n), key=lambda i: w[i])
        if name == "eigw":
            return [w[i] for i in order]
        return mpmath.matrix([[Q[i, j] for j in order] for i in range(n)])
    if name in ("svdu", "svds", "svdvh"):
        U, S, V = mp.svd_r(M)
        return {"svdu": U, "svds": [S[i] for i in range(min(n, m))], "svdvh": V}[name]
    d = mp.det(M) if n else mpmath.mpf(1)
    if name == "det":
        return d
    if abs(d) <= mpmath.mpf(10) ** -45 * big ** n:
        raise ValueError("singular")
    if name == "logdet":
        return mp.log(abs(d))
    if name == "detsign":
        return mp.sign(d)
    if name == "matinv":
        return mp.inverse(M)
    raise ValueError(name)


def _chol_np(m):
    import numpy as np
    if not np.allclose(m, m.T, atol=1e-9):
        raise np.linalg.LinAlgError("not symmetric")
    return np.linalg.cholesky(m)


def _inv_np(m):
    import numpy as np
    if abs(np.linalg.det(m)) < 1e-9:
        raise np.linalg.LinAlgError("singular")
    return np.linalg.inv(m)


def _eig_np(k):
    def f(m):
        import numpy as np
        if not np.allclose(m, m.T, atol=1e-9):
            raise np.linalg.LinAlgError("not symmetric")
        return np.linalg.eigh(m)[k]
    return f


def _svd_np(k):
    def f(m):
        import numpy as np
        return np.linalg.svd(m, full_matrices=False)[k]
    return f


def _slog_np(k):
    def f(m):
        import numpy as np
        r = np.linalg.slogdet(m)
        if r[0] == 0:
            raise np.linalg.LinAlgError("singular")
        return np.array(r[k])
    return f


def install_la_interp():
    from . import numeric
    numeric.INTERP.update(chol=_np("chol", _chol_np), matinv=_np("matinv", _inv_np), eigw=_np("eigw", _eig_np(0)), eigv=_np("eigv", _eig_np(1)),
                          svdu=_np("svdu", _svd_np(0)), svds=_np("svds", _svd_np(1)), svdvh=_np("svdvh", _svd_np(2)),
                          logdet=_np("logdet", _slog_np(1)), detsign=_np("detsign", _slog_np(0)),
                          det=_np("det", lambda m: __import__("numpy").array(__import__("numpy").linalg.det(m))))


def spd(name, n):
    """Facts of a symmetric positive definite input matrix name(i,j), i,j < n."""
    R.sym.add(name)
    R.app_rules[name] = lambda args: T.app(name, args[1], args[0]) if args[1].key < args[0].key else None

    def h(ev, a, env):
        import numpy as np
        k = ev.poly(as_poly(n), env)
        key = ("spd", name, k)
        if key not in ev.memo:
            m = np.random.RandomState((ev.seed * 7919 + 17) % 2 ** 31).normal(size=(k, k))
            ev.memo[key] = m @ m.T + 0.3 * np.eye(k)
            if ev.precise:
                import mpmath
                m = mpmath.matrix(m.tolist()) if k else mpmath.matrix(0, 0)
                ev.memo[key] = ev.magnitude(name) * (m * m.T + mpmath.mpf("0.3") * mpmath.eye(k)) if k else m
        return ev.F(ev.memo[key][tuple(ev.poly(x, env) for x in a.args)])
    R.interp[name] = h


class uncontracted:
    """Within: products of Cholesky factors are left as they are (L L^T is not folded into the matrix)."""

    def __enter__(self):
        R.no_contract = {"chol"}

    def __exit__(self, *a):
        R.no_contract = set()


def orthonormal(name, rows, cols):
    """Facts of an input matrix name(i,j), i<rows, j<cols, with orthonormal columns."""
    R.ortho[name] = ("cols", as_poly(rows), as_poly(cols))

    def h(ev, a, env):
        import numpy as np
        n, m = ev.poly(as_poly(rows), env), ev.poly(as_poly(cols), env)
        key = ("ortho", name, n, m)
        if key not in ev.memo:
            rng = np.random.RandomState((ev.seed * 7919 + 13) % 2 ** 31)
            x = rng.normal(size=(n, n))
            ev.memo[key] = np.linalg.qr(x)[0][:, :m] if not ev.precise else __import__("mpmath").mp.qr(__import__("mpmath").matrix(x.tolist()))[0]
        return ev.F(ev.memo[key][tuple(ev.poly(x, env) for x in a.args)])
    R.interp[name] = h


# ================================================================= jax.tree
class TreeNS:
    pass


def t_map(f, tree, *rest, is_leaf=None):
    return tree_map(f, tree, *rest, is_leaf=is_leaf)


def t_all(tree):
    ls = tree_leaves(tree)
    if isinstance(ls, SymList) and ls.n.const() is None:
        x = ls.obj      # the generic leaf
        with C.generic(ls.v):
            b = x if isinstance(x, bool) else T.decide(x.cond) if isinstance(x, SymBool) else None
        if b is True:
            return True
        if b is False:
            return E.branch(T.eq(ls.n, T.ZERO))
        raise Unsupported("all leaves of an abstract tree satisfy an undetermined condition")
    for x in ls:
        if not x:
            return False
    return True


def t_reduce(f, tree, initializer=None, is_leaf=None):
    ls = list(tree_leaves(tree))
    return functools.reduce(f, ls) if initializer is None else functools.reduce(f, ls, initializer)


def t_transpose(outer, inner, tree):
    raise Unsupported("tree_transpose")


def t_structure(tree, is_leaf=None):
    return tree_flatten(tree, is_leaf)[1]


def register_pytree_node(cls, flatten, unflatten, *a):
    C.REGISTERED[cls] = (flatten, unflatten)


def register_pytree_node_class(cls):
    C.REGISTERED[cls] = (lambda o: o.tree_flatten(), cls.tree_unflatten)
    return cls


def register_dataclass(cls, data_fields=None, meta_fields=None, **k):
    df = list(data_fields or [])
    mf = list(meta_fields or [])
    C.REGISTERED[cls] = (lambda o: ([getattr(o, f) for f in df], tuple(getattr(o, f) for f in mf)),
                         lambda aux, ch: cls(**dict(zip(df, ch)), **dict(zip(mf, aux))))
    return cls


# ================================================================= transformations
class Jitted:
    """jit is semantically transparent (assumed)."""

    def __init__(self, f):
        self.f = f
        functools.update_wrapper(self, f) if hasattr(f, "__name__") else None

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def __get__(self, o, t=None):
        return self if o is None else functools.partial(self, o)


def jit(f=None, **k):
    if f is None:
        return lambda g: Jitted(g)
    if not callable(f):
        raise TypeError("Expected a callable value")
    return Jitted(f)


def arr_leaf(x):
    return x if isinstance(x, SymArray) else (asarray(x) if is_scalar(x) else x)


def stack_over(v, n, out, axis=0):
    """Results for every v in [0,n) stacked along `axis`."""
    def g(x):
        x = to_arr(x)
        if axis is None:
            if any(v.name in (d.size.fv if isinstance(d, Block) else d.fv) for d in x.dims) or v.name in x.body.fv:
                raise ValueError("vmap has mapped output but out_axes is None")
            return x
        ax = norm_axis(axis, len(x.dims) + 1)
        bl = [k for k, d in enumerate(x.dims) if isinstance(d, Block)]
        if bl and ((axis >= 0 and ax > bl[0]) or (axis < 0 and ax <= bl[-1])):
            raise Unsupported("out_axes over a generic shape")
        if any(v.name in (d.size.fv if isinstance(d, Block) else d.fv) for d in x.dims):
            raise Unsupported("mapped shapes depend on the index")
        dims = list(x.dims)
        dims.insert(ax, n)
        return SymArray.make(dims, lambda *i: x.el(*[q for k, q in enumerate(i) if k != ax]).subst({v.name: i[ax]}), x._dtype)
    return tree_map(g, out)


def take_axis(x, ax, p):
    x = to_arr(x)
    a = axes_of(x, ax)[0]
    if isinstance(x.dims[a], Block):
        raise Unsupported("vmap over a generic axis")
    dims = [d for k, d in enumerate(x.dims) if k != a]
    return SymArray.make(dims, lambda *i: x.el(*(list(i[:a]) + [p] + list(i[a:]))), x._dtype)


def ax_size(x, ax):
    x = to_arr(x)
    if not x.dims:
        raise ValueError("vmap was requested to map its argument along axis 0, which implies that its rank should be at least 1")
    a = axes_of(x, ax)[0]
    return x.dims[a]


def vmap(f, in_axes=0, out_axes=0, **kw):
    def g(*args, **kwargs):
        axes = in_axes if isinstance(in_axes, (tuple, list)) else [in_axes] * len(args)
        if len(axes) != len(args):
            raise ValueError("vmap in_axes must match the number of positional arguments")
        sizes = []

        def collect(t, ax):
            if ax is None:
                return
            if isinstance(ax, (dict, list, tuple)):
                c = C.children_of(t)
                ca = C.children_of(ax)
                for x, y in zip(c[2], ca[2]):
                    collect(x, y)
                return
            tree_map(lambda x: sizes.append(ax_size(x, ax)) or x, t)
        for t, ax in zip(args, axes):
            collect(t, ax)
        for t in kwargs.values():
            collect(t, 0)
        if not sizes:
            raise ValueError("vmap must have at least one non-None value in in_axes")
        n = sizes[0]
        for s in sizes[1:]:
            if not same_dim(n, s):
                raise ValueError("vmap got inconsistent sizes for array axes to be mapped")
        v = T.fresh_var("i", "m")
        R.range[v.name] = (T.ZERO, n)
        p = T.pvar(v)

        def take(t, ax):
            if ax is None:
                return t
            if isinstance(ax, (dict, list, tuple)):
                c = C.children_of(t)
                return C.rebuild(c[0], c[1], [take(x, y) for x, y in zip(c[2], C.children_of(ax)[2])])
            return tree_map(lambda x: take_axis(x, ax, p), t)
        with traced(v):
            out = f(*[take(t, ax) for t, ax in zip(args, axes)], **{k: take(t, 0) for k, t in kwargs.items()})
            if isinstance(out_axes, (tuple, list)):
                return type(out)(stack_over(v, n, o, a) for o, a in zip(out, out_axes))
            return stack_over(v, n, out, out_axes)
    functools.update_wrapper(g, f) if hasattr(f, "__name__") else None
    return g


def lax_map(f, xs, *, batch_size=None):
    if batch_size is not None and is_scalar(batch_size):
        # results must not depend on it (contract of lax.map)
        pass
    return vmap(f)(xs)


def merge(c, a, b):
    """[c] a + [not c] b on trees."""
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    i = T.iv(c)

    def g(x, y):
        x, y = to_arr(x), to_arr(y)
        if len(x.dims) != len(y.dims) or not all(same_dim(p, q) for p, q in zip(x.dims, y.dims)):
            raise TypeError("true_fun and false_fun output must have identical types")
        return SymArray.make(x.dims, lambda *k: i * x.el(*k) + (T.PONE - i) * y.el(*k), C.promote(x._dtype, y._dtype))
    return tree_map(g, a, b)


def lax_cond(pred, t, f, *ops, **k):
    if "operand" in k:
        ops = ops + (k["operand"],)
    c = C.as_cond(pred)
    d = T.decide(c)
    if d is True:
        return t(*ops)
    if d is False:
        return f(*ops)
    saved = list(R.pc)
    # both branches are traced; facts of the condition hold inside each
    def run(h, cc):
        R.pc = saved + (list(cc.args) if cc.op == "and" else [cc])
        R.bump()
        try:
            return h(*ops)
        finally:
            R.pc = saved
            R.bump()
    a, b = run(t, c), run(f, T.cnot(c))
    return merge(c, a, b)


def lax_select(p, a, b):
    return j_where(p, a, b)


class _Carry:
    pass


def lax_scan(f, init, xs=None, length=None, reverse=False, **k):
    from .loops import Loop
    if reverse:
        raise Unsupported("reverse scan")
    if xs is None:
        n = scalar_poly(length)
        at = lambda p: None
    else:
        sizes = []
        tree_map(lambda x: sizes.append(ax_size(x, 0)) or x, xs)
        n = sizes[0]
        at = lambda p: tree_map(lambda x: take_axis(x, 0, p), xs)
    init = tree_map(arr_leaf, init)
    c = n.const()
    if c is not None:
        carry, ys = init, []
        for q in range(int(c)):
            carry, y = f(carry, at(T.const(q)))
            ys.append(y)
        if not ys:
            raise Unsupported("empty scan")
        if ys[0] is None:
            return carry, None
        return carry, tree_map(lambda *a: C.stack(list(a)), ys[0], *ys[1:])
    st = {"carry": init, "y": None}
    lp = Loop(SymSeq(n, at), "scan", ("carry", "y"), (lambda: st["carry"], lambda: st["ys"]))
    st["ys"] = []
    for x in lp:
        if lp.abstract:
            st["carry"], st["ys"] = lp.state
        st["carry"], y = f(st["carry"], x)
        st["carry"] = tree_map(arr_leaf, st["carry"])
        st["ys"].append(y)
    if lp.cut:
        st["carry"], st["ys"] = lp.final
    ys = st["ys"]
    if isinstance(ys, list):
        if not ys:
            raise Unsupported("empty scan")
        ys = None if ys[0] is None else tree_map(lambda *a: C.stack(list(a)), ys[0], *ys[1:])
    elif isinstance(ys, SymList):
        if ys.obj is None:
            ys = None
        else:
            v = ys.v
            ys = stack_over(v, ys.n, ys.obj)
    return st["carry"], ys


def lax_fori(lo, hi, f, init, **k):
    a, b = scalar_poly(lo), scalar_poly(hi)
    n = b - a

    def step(c, i):
        return f(i, c), None
    if n.const() is not None and n.const() <= 0:
        return tree_map(arr_leaf, init)
    idx = SymArray.make((n,), lambda i: a + i, INT)
    return lax_scan(step, init, idx)[0]


def lax_while(cond, body, init):
    raise Unsupported("lax.while_loop")


# ---- differentiation
def perturb(x, t, eps):
    def g(a, b):
        a = to_arr(a)
        b = to_arr(b)
        if len(a.dims) != len(b.dims) or not all(same_dim(p, q) for p, q in zip(a.dims, b.dims)):
            raise TypeError("primal and tangent arguments to jax.jvp must have the same shape")
        return SymArray.make(a.dims, lambda *i: a.el(*i) + T.pvar(eps) * b.el(*i), a._dtype)
    return tree_map(g, x, t)


def d_eps(out, eps):
    def g(a):
        a = to_arr(a)
        return SymArray.make(a.dims, lambda *i: T.diff(a.el(*i), eps.name).subst({eps.name: T.ZERO}), fdt(a))
    return tree_map(g, out)


def at0(out, eps):
    def g(a):
        a = to_arr(a)
        return SymArray.make(a.dims, lambda *i: a.el(*i).subst({eps.name: T.ZERO}), a._dtype)
    return tree_map(g, out)


def jvp(f, primals, tangents, has_aux=False):
    if not isinstance(primals, (tuple, list)) or not isinstance(tangents, (tuple, list)):
        raise TypeError("primal and tangent arguments to jax.jvp must be tuples or lists")
    if has_aux:
        raise Unsupported("has_aux")
    eps = T.fresh_var("r", "eps")
    out = f(*[perturb(p, t, eps) for p, t in zip(primals, tangents)])
    return at0(out, eps), d_eps(out, eps)


def basis_tree(tree):
    """(unit vector tree at symbolic position, vars, sizes, rebuild(fn)->tree) one leaf kind at a time.

    The result of `each(fn)` is a tree shaped like `tree` whose entry at position e is fn(unit_e)."""


def entrywise(tree, fn):
    """Tree of the same shape as `tree`, entry at position p = fn(unit vector tree at p) (a Poly)."""
    def build(sub, wrap):
        if isinstance(sub, SymTree):
            lv = T.fresh_var("i", "l")
            R.range[lv.name] = (T.ZERO, sub.td.n)

            def leaf(l):
                x = to_arr(sub.at(l))

                def el(*i):
                    unit = SymTree.make(sub.td, lambda l2: (lambda y: SymArray.make(
                        y.dims, lambda *j: T.iv(T.eq(l, l2)) * _all_eq(i, j, l, l2, x, y), y._dtype))(to_arr(sub.at(l2))))
                    return fn(wrap(unit))
                return SymArray.make(x.dims, el, fdt(x))
            return SymTree.make(sub.td, leaf)
        c = C.children_of(sub)
        if c is None:
            x = to_arr(sub)
            return SymArray.make(x.dims, lambda *i: fn(wrap(SymArray.make(
                x.dims, lambda *j: functools.reduce(lambda p, q: p * q, [T.iv(T.eq(a, b)) for a, b in zip(i, j)], T.PONE),
                fdt(x)))), fdt(x))
        zeros = [tree_map(lambda y: filled(0)(to_arr(y).dims), y) for y in c[2]]
        out = []
        for q, s in enumerate(c[2]):
            out.append(build(s, lambda u, q=q: wrap(C.rebuild(c[0], c[1], [u if z == q else zeros[z] for z in range(len(zeros))]))))
        return C.rebuild(c[0], c[1], out)
    return build(tree, lambda u: u)


def _all_eq(i, j, l, l2, x, y):
    p = T.PONE
    for a, b in zip(i, j):
        p = p * T.iv(T.eq(a, b))
    return p


def inner(a, b):
    """<a, b> over all leaves."""
    tot = []

    def leafdot(x, y):
        x, y = to_arr(x), to_arr(y)
        def rec(k, idx):
            if k == len(x.dims):
                return x.el(*idx) * y.el(*idx)
            return T.bigsum(dim_size(x.dims[k]), lambda u: rec(k + 1, idx + [u]))
        return rec(0, [])

    def rec(a, b):
        if isinstance(a, SymTree):
            if not isinstance(b, SymTree) or a.td != b.td:
                raise ValueError("tree structures differ in vjp cotangent")
            tot.append(T.bigsum(a.td.n, lambda l: leafdot(a.at(l), b.at(l))))
            return
        c, d = C.children_of(a), C.children_of(b)
        if c is None:
            x, y = to_arr(a), to_arr(b)
            if len(x.dims) != len(y.dims) or not all(same_dim(p, q) for p, q in zip(x.dims, y.dims)):
                raise ValueError("cotangent shape mismatch")
            tot.append(leafdot(x, y))
            return
        if d is None or c[0] != d[0] or c[1] != d[1]:
            raise ValueError("tree structures differ in vjp cotangent")
        for x, y in zip(c[2], d[2]):
            rec(x, y)
    rec(a, b)
    return T.psum(tot)


def vjp(f, *primals, has_aux=False):
    if has_aux:
        raise Unsupported("has_aux")
    out = f(*primals)
    tup = tuple(primals)

    def pull(ct):
        def fn(unit):
            return inner(jvp(f, tup, unit)[1], ct)
        return entrywise(tup, fn)
    return out, pull


def grad(f, argnums=0, has_aux=False, **k):
    def g(*args, **kw):
        return value_and_grad(f, argnums, has_aux)(*args, **kw)[1]
    return g


def value_and_grad(f, argnums=0, has_aux=False, **k):
    if has_aux:
        raise Unsupported("has_aux")

    def g(*args, **kw):
        multi = isinstance(argnums, (tuple, list))
        nums = list(argnums) if multi else [argnums]

        def h(*sel):
            full = list(args)
            for q, s in zip(nums, sel):
                full[q] = s
            r = f(*full, **kw)
            ra = to_arr(r)
            if ra.dims:
                raise TypeError(f"Gradient only defined for scalar-output functions. Output had shape: {ra.dims}")
            return r
        sel = tuple(args[q] for q in nums)
        out = h(*sel)
        gr = entrywise(sel, lambda unit: to_arr(jvp(h, sel, unit)[1]).item_poly())
        return out, (gr if multi else gr[0])
    return g


def linearize(f, *primals, has_aux=False):
    if has_aux:
        raise Unsupported("has_aux")
    out = f(*primals)

    def lin(*t):
        return jvp(f, tuple(primals), tuple(t))[1]
    return out, lin


def linear_transpose(f, *primals):
    tup = tuple(primals)

    def tr(ct):
        return entrywise(tup, lambda unit: inner(f(*unit), ct))
    return tr


def jacfwd(f, argnums=0):
    def g(*args):
        if argnums != 0:
            raise Unsupported("jacfwd argnums")
        x = args[0]
        if not isinstance(x, SymArray):
            raise Unsupported("jacfwd over trees")
        eps = None
        out0 = f(*args)
        nx = len(x.dims)

        def leaf(sel):
            pass
        vs = [T.fresh_var() for _ in x.dims]
        for v, d in zip(vs, x.dims):
            R.range[v.name] = (T.ZERO, dim_size(d))
        unit = SymArray.make(x.dims, lambda *j: functools.reduce(lambda p, q: p * q, [T.iv(T.eq(T.pvar(a), b)) for a, b in zip(vs, j)], T.PONE))
        dout = jvp(lambda y: f(y, *args[1:]), (x,), (unit,))[1]

        def g2(o):
            return SymArray.make(list(o.dims) + list(x.dims),
                                 lambda *i: o.el(*i[:len(o.dims)]).subst({v.name: q for v, q in zip(vs, i[len(o.dims):])}), fdt(o))
        return tree_map(g2, dout)
    return g


def hessian(f, argnums=0):
    return jacfwd(grad(f, argnums), argnums)


# ================================================================= random
def key(seed=0, **k):
    p = scalar_poly(seed)
    return SymArray((), (), T.app("key", p), KEY)


def as_key(k):
    k = to_arr(k)
    if k._dtype.kind != "k":
        raise TypeError("not a PRNG key")
    return k


def split(k, num=2):
    k = as_key(k)
    n = scalar_poly(num)
    return SymArray.make((n,), lambda i: T.app("split", k.item_poly(), n, i), KEY)


def fold_in(k, data):
    k = as_key(k)
    return SymArray((), (), T.app("fold_in", k.item_poly(), scalar_poly(data)), KEY)


def rnd(name):
    def f(k, shape=(), dtype=None, **kw):
        if kw:
            raise Unsupported(f"random.{name} arguments")
        k = as_key(k)
        if k.dims:
            raise ValueError("accepts a single key")
        dims = norm_shape(shape)
        sz = [dim_size(d) for d in dims]
        return SymArray.make(dims, lambda *i: T.app("rng_" + name, k.item_poly(), *sz, *i), C.as_dtype(dtype) or FLOAT)
    return f


# ================================================================= config
class Config:
    def __init__(self):
        self.vals = {}
        self.log = []

    def read(self, name):
        if name not in self.vals:
            raise AttributeError(name)
        return self.vals[name]

    def update(self, name, val):
        self.log.append((name, val))
        self.vals[name] = val

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        v = self.__dict__.get("vals", {})
        if k in v:
            return v[k]
        raise Unsupported(f"jax.config.{k}")


# ================================================================= nn / scipy
def nn_softmax(x, axis=-1, **k):
    x = to_arr(x)
    ax = axes_of(x, axis)[0]
    n = x.dims[ax]

    def f(*i):
        z = T.bigsum(n, lambda u: T.exp(x.el(*[u if k == ax else v for k, v in enumerate(i)])))
        return T.exp(x.el(*i)) / z
    return SymArray.make(x.dims, f, fdt(x))


def logsumexp(x, axis=None, keepdims=False, **k):
    return j_log(C.rsum(j_exp(x), axis, keepdims))


def nn_log_softmax(x, axis=-1, **k):
    x = to_arr(x)
    return x - logsumexp(x, axis, True)


def sig(p):
    return T.PONE / (T.PONE + T.exp(-p))


def nn_sigmoid(x): return unop(x, sig, fdt(x))
def nn_log_sigmoid(x): return unop(x, lambda p: -T.log(T.PONE + T.exp(-p)), fdt(x))
def nn_softplus(x): return unop(x, lambda p: T.log(T.PONE + T.exp(p)), fdt(x))


def nn_one_hot(x, num_classes, dtype=None, axis=-1, **k):
    x = to_arr(x)
    if axis != -1:
        raise Unsupported("one_hot axis")
    n = scalar_poly(num_classes)
    return SymArray.make(list(x.dims) + [n], lambda *i: T.iv(T.eq(x.el(*i[:-1]), i[-1])), C.as_dtype(dtype) or FLOAT)


def xlogy(x, y):
    return ewise(lambda a, b: a * T.log(b), x, y, dtype=FLOAT)   # 0*log(b) = 0 for b>0


def normal_pdf(x, loc=0, scale=1):
    def f(a, m, s):
        z = (a - m) / s
        return T.exp(-(z * z).scale(Fraction(1, 2))) / (s * T.sqrt(T.PI * 2))
    return ewise(f, x, loc, scale, dtype=FLOAT)


def normal_logpdf(x, loc=0, scale=1):
    def f(a, m, s):
        z = (a - m) / s
        return -(z * z).scale(Fraction(1, 2)) - T.log(s) - T.log(T.PI * 2).scale(Fraction(1, 2))
    return ewise(f, x, loc, scale, dtype=FLOAT)


def normal_cdf(x, loc=0, scale=1):
    def f(a, m, s):
        return (T.PONE + T.app("erf", (a - m) / (s * T.sqrt(T.const(2))))).scale(Fraction(1, 2))
    return ewise(f, x, loc, scale, dtype=FLOAT)


def _derf(args, v):
    x = args[0]
    return T.exp(-(x * x)) * T.diff(x, v) * 2 / T.sqrt(T.PI)


T.DERIV["erf"] = _derf


# ================================================================= builtins
def b_len(x):
    if isinstance(x, SymArray):
        if not x.dims:
            raise TypeError("len() of unsized object")
        return mknum(dim_size(x.dims[0]))
    if isinstance(x, (SymList, SymSeq)):
        return mknum(x.n)
    h = getattr(x, "__vf_len__", None)
    if h is not None:
        return h()
    if isinstance(x, ShapeT) and any(isinstance(d, Block) for d in tuple(x)):
        p = T.const(0)
        for d in tuple(x):
            p = p + (T.app("rank", *d.args, d.name, sort="i") if isinstance(d, Block) else T.PONE)
        R.nonneg.add("rank")
        return mknum(p)
    return builtins.len(x)


def b_range(*a):
    ps = [scalar_poly(x) if not isinstance(x, int) else T.const(x) for x in a]
    if all(p.const() is not None for p in ps):
        return builtins.range(*[int(p.const()) for p in ps])
    if len(ps) == 1:
        return SymSeq(ps[0], mknum)
    if len(ps) == 2:
        return SymSeq(ps[1] - ps[0], lambda p: mknum(p + ps[0]))
    raise Unsupported("range step")


def b_zip(*its, strict=False):
    its = [i if not isinstance(i, (types.GeneratorType, map, zip)) else list(i) for i in its]
    if all(sym_seq(i) is None for i in its):
        its2 = [list(iter(i)) if isinstance(i, (SymList, SymSeq)) else i for i in its]
        return builtins.zip(*its2, strict=strict)
    views = [seq_view(i) for i in its]
    n = views[0][0]
    for m, _ in views[1:]:
        if T.decide(T.eq(n, m)) is True:
            continue
        if E.branch(T.eq(n, m)):
            continue
        if strict:
            raise ValueError("zip() arguments have different lengths")
        n = T.ite(T.le(n, m), n, m)
    return SymSeq(n, lambda p: tuple(at(p) for _, at in views))


def b_enumerate(it, start=0):
    s = sym_seq(it)
    if s is None:
        return builtins.enumerate(iter(it), start)
    n, at = s
    return SymSeq(n, lambda p: (mknum(p + as_poly(start)), at(p)))


def b_sum(it, start=0):
    s = sym_seq(it)
    if s is None:
        out = start
        for x in it:
            out = out + x
        return out
    n, at = s
    v = T.fresh_var()
    R.range[v.name] = (T.ZERO, n)
    with generic(v):
        x = at(T.pvar(v))
    if isinstance(x, SymArray):
        r = SymArray.make(x.dims, lambda *i: T.bigsum(n, lambda u: x.el(*i).subst({v.name: u})), x._dtype)
        return r + start if not (isinstance(start, int) and start == 0) else r
    p = scalar_poly(x)
    return mknum(T.bigsum(n, lambda u: p.subst({v.name: u})) + scalar_poly(start))


def prod(it, start=1):
    if isinstance(it, ShapeT):
        return mknum(C.prod_sizes(norm_shape(it))) * start if start != 1 else mknum(C.prod_sizes(norm_shape(it)))
    s = sym_seq(it)
    if s is None:
        out = start
        for x in it:
            if isinstance(x, Block):
                x = mknum(x.size)
            out = out * x
        return out
    raise Unsupported("math.prod over a symbolic sequence")


def b_isinstance(o, cls):
    if isinstance(cls, tuple):
        return any(b_isinstance(o, c) for c in cls)
    if isinstance(cls, types.UnionType):
        return any(b_isinstance(o, c) for c in typing.get_args(cls))
    if isinstance(o, SymNum):
        if cls is int:
            return not o.isfloat
        if cls is float:
            return o.isfloat
    if isinstance(o, SymBool) and cls in (bool, int):
        return True
    if isinstance(o, SymList) and cls in (list, collections.abc.Sequence, collections.abc.Iterable):
        return True
    if isinstance(o, SymTree) and cls is dict:
        raise Unsupported("isinstance of an abstract tree")
    return builtins.isinstance(o, cls)


def b_int(x=0, *a):
    if isinstance(x, SymNum):
        if not x.isfloat:
            return x
        return SymNum(T.app("trunc", x.p, sort="i"), False)
    if isinstance(x, SymBool):
        return mknum(T.iv(x.cond))
    if isinstance(x, SymArray):
        p = x.item_poly()
        if p.sort != "i":
            p = T.app("trunc", p, sort="i")
        return mknum(p)
    return int(x, *a)


def b_float(x=0.0):
    if isinstance(x, SymNum):
        return SymNum(x.p, True)
    if isinstance(x, (SymBool, SymArray)):
        return SymNum(scalar_poly(x), True)
    return float(x)


def b_bool(x=False):
    if isinstance(x, (SymBool,)):
        return x
    if isinstance(x, SymNum):
        return SymBoolish(T.cnot(T.eq(x.p, T.ZERO)))
    if isinstance(x, SymArray):
        return SymBoolish(C.elem_cond(x.item_poly()))
    return bool(x)


def b_list(x=()):
    if isinstance(x, SymSeq):
        return x.tolist() if x.n.const() is None else [x.at(T.const(k)) for k in range(int(x.n.const()))]
    if isinstance(x, SymList):
        return x if x.n.const() is None else list(iter(x))
    s = sym_seq(x)
    if s is not None:
        return SymList.make(s[0], s[1])
    return list(x)


def b_tuple(x=()):
    if isinstance(x, ShapeT):
        return x
    if isinstance(x, (SymSeq, SymList)) or sym_seq(x) is not None:
        return b_list(x)
    return tuple(x)


def b_map(f, *its):
    if any(sym_seq(i) is not None for i in its):
        z = b_zip(*its)
        return SymSeq(z.n, lambda p: f(*z.at(p)))
    return builtins.map(f, *[list(iter(i)) if isinstance(i, (SymList, SymSeq)) else i for i in its])


def b_minmax(is_min):
    def f(*a, **k):
        if len(a) == 1 and (isinstance(a[0], SymArray) or sym_seq(a[0]) is not None):
            raise Unsupported("min/max of a symbolic sequence")
        xs = list(a[0]) if len(a) == 1 else list(a)
        if k or not any(isinstance(x, (SymNum, SymArray)) for x in xs):
            return (min if is_min else max)(xs, **k) if xs or k else (min if is_min else max)(xs)
        out = xs[0]
        for x in xs[1:]:
            p, q = scalar_poly(out), scalar_poly(x)
            c = T.le(p, q) if is_min else T.le(q, p)
            t = T.decide(c)
            fl = any((isinstance(z, SymNum) and z.isfloat) or isinstance(z, float) for z in (out, x))
            r = p if t is True else q if t is False else T.ite(c, p, q)
            out = SymNum(r, True) if fl else mknum(r)
        return out
    return f


def b_abs(x): return abs(x)


def b_reversed(x):
    s = sym_seq(x)
    if s is None:
        return reversed(x if not isinstance(x, (SymList, SymSeq)) else list(iter(x)))
    n, at = s
    return SymSeq(n, lambda p: at(n - 1 - p))


def b_allany(is_all):
    def f(it):
        if sym_seq(it) is not None:
            raise Unsupported("all/any of a symbolic sequence")
        for x in it:
            if bool(x) != is_all:
                return not is_all
        return is_all
    return f


def b_next(it, *d):
    h = getattr(it, "__vf_next__", None)
    if h is not None:
        return h(*d)
    return next(it, *d)


def b_iter(x, *a):
    h = getattr(x, "__vf_iter__", None)
    if h is not None:
        return h()
    if isinstance(x, (SymList, SymSeq)):
        return SymSeqIter(x)
    return iter(x, *a)


class SymSeqIter:
    """One-shot iterator over a symbolic sequence."""

    def __init__(self, s):
        self.s, self.k = s, T.ZERO
        self.given = []

    def __vf_next__(self, *d):
        if not E.branch(T.lt(self.k, self.s.n)):
            if d:
                return d[0]
            raise StopIteration
        v = self.s.at(self.k)
        self.k = self.k + 1
        self.given.append(v)
        return v

    def __vf_iter__(self):
        return self

    def __vf_seq__(self):
        k = self.k
        n = self.s.n - k
        self.k = self.s.n
        return n, lambda p: self.s.at(p + k)

    def __iter__(self):
        n, at = self.__vf_seq__()
        c = n.const()
        if c is None:
            raise Unsupported("iteration over a symbolic iterator")
        return iter([at(T.const(q)) for q in range(int(c))])

    def __next__(self):
        return self.__vf_next__()


def chain(*its):
    if all(not isinstance(i, SymSeqIter) and sym_seq(i) is None for i in its):
        return _it.chain(*its)
    its = [i if not isinstance(i, (types.GeneratorType,)) else list(i) for i in its]
    if len(its) == 2 and isinstance(its[0], (list, tuple)) and its[0] and isinstance(its[1], SymSeqIter):
        # the elements just taken, put back in front of the rest: the sequence before they were taken
        xs, r = its[0], its[1]
        if len(r.given) >= len(xs) and all(a is b for a, b in builtins.zip(xs, r.given[-len(xs):])):
            k = r.k - len(xs)
            n, r.k = r.s.n - k, r.s.n
            return SymSeqIter(SymSeq(n, lambda p: r.s.at(p + k)))
    views = [seq_view(i) for i in its]

    def at(p):
        off = T.ZERO
        for q, (n, a) in enumerate(views):
            if q == len(views) - 1:
                return a(p - off)
            c = T.decide(T.lt(p, off + n))
            if c is True:
                return a(p - off)
            if c is None:
                raise Unsupported("chain at an undetermined position")
            off = off + n
    return SymSeq(T.psum(n for n, _ in views), at)


def starmap(f, it):
    s = sym_seq(it)
    if s is None:
        return _it.starmap(f, it)
    n, at = s
    return SymSeq(n, lambda p: f(*at(p)))


class PyTreeMeta(type):
    def __instancecheck__(cls, o):
        return True

    def __getitem__(cls, k):
        return cls


class PyTree(metaclass=PyTreeMeta):
    pass


class AnnMeta(type):
    def __getitem__(cls, k):
        return cls


def ann(name):
    return AnnMeta(name, (), {})


# ================================================================= assembly
def m_sqrt(x):
    if isinstance(x, (SymNum, SymArray)):
        return SymNum(T.sqrt(scalar_poly(x)), True)
    if isinstance(x, int):
        return SymNum(T.sqrt(T.const(x)), True)
    return SymNum(T.sqrt(as_poly(x)), True)


def m_fn(f):
    def g(x):
        return SymNum(f(scalar_poly(x)), True)
    return g


def make(config=None, extra=None):
    """A fresh family of shim modules."""
    config = config or Config()

    def canon(dt):
        """The type an array of type dt gets under the current precision setting."""
        dt = C.as_dtype(dt)
        return C.F32 if dt is C.F64 and config.vals.get("jax_enable_x64") is False else dt
    iinfo = types.SimpleNamespace
    linalg = NS("jax.numpy.linalg", norm=j_norm, cholesky=la_cholesky, inv=la_inv, solve=la_solve, slogdet=la_slogdet,
                eigh=la_eigh, svd=la_svd, multi_dot=la_multi_dot, det=la_det,
                qr=uns("jnp.linalg.qr"), eigvalsh=lambda a, **k: la_eigh(a)[0])

    def finfo(dt):
        R.pos.add("fpeps")
        return types.SimpleNamespace(eps=SymNum(T.app("fpeps", str(dt)), True), tiny=SymNum(T.app("fpeps", "tiny" + str(dt)), True),
                                     max=SymNum(T.app("fpeps", "max" + str(dt)), True), dtype=dt)
    jnp = NS("jax.numpy", linalg=linalg, ndarray=SymArray, pi=SymNum(T.PI, True), newaxis=None, inf=float("inf"), nan=float("nan"),
             float32=C.F32, float64=C.F64, float16=C.F16, bfloat16=C.BF16, int32=C.I32, int64=C.I64, bool_=BOOL, dtype=lambda d: C.as_dtype(d),
             sum=j_sum, mean=j_mean, var=j_var, std=j_std, asarray=lambda x, dtype=None, **k: asarray(x, canon(dtype)),
             array=lambda x, dtype=None, **k: asarray(x, canon(dtype)), arange=j_arange, sqrt=C.sqrt, concatenate=j_concat,
             zeros=filled(0), ones=filled(1), full=j_full, empty=filled(0), zeros_like=like(0), ones_like=like(1), empty_like=like(0),
             full_like=lambda x, v, dtype=None: j_full(to_arr(x).dims, v, dtype),
             where=j_where, log=j_log, exp=j_exp, log1p=lambda x: j_log(1 + to_arr(x)), expm1=lambda x: j_exp(x) - 1,
             log2=lambda x: j_log(x) / SymNum(T.log(T.const(2)), True), square=lambda x: to_arr(x) * x, eye=j_eye,
             identity=lambda n, dtype=None: j_eye(n, dtype=dtype), split=j_split,
             array_split=uns("array_split"),
             reciprocal=lambda x: 1.0 / to_arr(x), power=j_power, float_power=j_power,
             max=lambda x, axis=None, keepdims=False, **k: C.rmax(x, axis, keepdims), amax=lambda x, axis=None, keepdims=False, **k: C.rmax(x, axis, keepdims),
             min=lambda x, axis=None, keepdims=False, **k: -C.rmax(-to_arr(x), axis, keepdims), dot=j_dot, vdot=j_vdot, inner=j_dot,
             matmul=lambda a, b, **k: C.matmul(a, b), outer=j_outer, einsum=j_einsum, diag=j_diag, diagonal=j_diagonal, trace=j_trace,
             argmax=C.argmax, argmin=j_argmin, transpose=C.transpose, flip=j_flip, expand_dims=j_expand_dims, cov=j_cov,
             abs=j_abs, absolute=j_abs, negative=lambda x: -to_arr(x), invert=lambda x: ~to_arr(x), searchsorted=j_searchsorted,
             reshape=lambda x, shape=None, **k: C.reshape(x, shape if shape is not None else k["newshape"]),
             ravel=lambda x: C.reshape(x, (-1,)), maximum=maximum, minimum=minimum, clip=j_clip,
             linspace=j_linspace, logspace=j_logspace, isnan=j_isnan, isinf=j_isnan, isfinite=lambda x: ~j_isnan(x), digitize=j_digitize,
             nan_to_num=lambda x, **k: to_arr(x),
             cumsum=j_cumsum, allclose=j_allclose, add=b2(lambda a, b: a + b), subtract=b2(lambda a, b: a - b),
             multiply=b2(lambda a, b: a * b), divide=b2(lambda a, b: a / b), true_divide=b2(lambda a, b: a / b), mod=b2(lambda a, b: a % b),
             stack=j_stack, hstack=j_hstack, vstack=j_vstack, squeeze=j_squeeze, swapaxes=j_swapaxes, moveaxis=j_moveaxis,
             broadcast_to=j_broadcast_to, sign=j_sign, all=bool_reduce(True), any=bool_reduce(False), tile=j_tile,
             logical_and=b2(lambda a, b: truth(a) & truth(b)), logical_or=b2(lambda a, b: truth(a) | truth(b)), logical_not=lambda x: ~truth(x),
             equal=b2(lambda a, b: a == b), not_equal=b2(lambda a, b: a != b), less=b2(lambda a, b: a < b), greater=b2(lambda a, b: a > b),
             less_equal=b2(lambda a, b: a <= b), greater_equal=b2(lambda a, b: a >= b), astype=j_astype,
             finfo=finfo, size=lambda x, axis=None: to_arr(x).size, ndim=lambda x: to_arr(x).ndim, shape=lambda x: to_arr(x).shape,
             result_type=lambda *a: functools.reduce(C.promote, [to_arr(x)._dtype if not isinstance(x, (DT, type)) else C.as_dtype(x) for x in a]),
             sin=u_fn("sin"), cos=u_fn("cos"), tanh=u_fn("tanh"), atleast_1d=lambda x: to_arr(x) if to_arr(x).dims else C.reshape(x, (1,)),
             prod=uns("jnp.prod"), sort=uns("jnp.sort"), argsort=uns("jnp.argsort"), quantile=uns("jnp.quantile"))
    tree = NS("jax.tree", map=t_map, flatten=tree_flatten, unflatten=tree_unflatten, leaves=tree_leaves, all=t_all, reduce=t_reduce,
              structure=t_structure, transpose=t_transpose)
    tu = NS("jax.tree_util", tree_map=t_map, tree_flatten=tree_flatten, tree_unflatten=tree_unflatten, tree_leaves=tree_leaves,
            tree_all=t_all, tree_reduce=t_reduce, tree_structure=t_structure, PyTreeDef=object, Partial=functools.partial,
            register_pytree_node=register_pytree_node, register_pytree_node_class=register_pytree_node_class,
            register_dataclass=register_dataclass)
    lax = NS("jax.lax", map=lax_map, cond=lax_cond, scan=lax_scan, fori_loop=lax_fori, while_loop=lax_while, select=lax_select,
             stop_gradient=lambda x: x, top_k=j_top_k, dynamic_slice=uns("lax.dynamic_slice"),
             dynamic_index_in_dim=uns("dynamic_index_in_dim"), Precision=types.SimpleNamespace(HIGHEST=None, DEFAULT=None, HIGH=None))
    nn = NS("jax.nn", softmax=nn_softmax, log_softmax=nn_log_softmax, sigmoid=nn_sigmoid, log_sigmoid=nn_log_sigmoid,
            softplus=nn_softplus, one_hot=nn_one_hot, logsumexp=logsumexp, relu=lambda x: maximum(x, 0.0))
    rand = NS("jax.random", key=key, PRNGKey=key, split=split, fold_in=fold_in, normal=rnd("normal"), uniform=rnd("uniform"))
    special = NS("jax.scipy.special", xlogy=xlogy, logsumexp=logsumexp, erf=lambda x: unop(x, lambda p: T.app("erf", p), fdt(x)))
    stats = NS("jax.scipy.stats", norm=NS("jax.scipy.stats.norm", pdf=normal_pdf, logpdf=normal_logpdf, cdf=normal_cdf))
    sl = NS("jax.scipy.linalg", solve_triangular=la_solve_triangular, cholesky=lambda a, lower=False: la_cholesky(a) if lower else C.transpose(la_cholesky(a)))
    scipy = NS("jax.scipy", special=special, stats=stats, linalg=sl)
    spl = NS("jax.experimental.sparse.linalg", lobpcg_standard=uns("lobpcg_standard"), _svqb=uns("_svqb"))
    sparse = NS("jax.experimental.sparse", linalg=spl)
    exper = NS("jax.experimental", sparse=sparse)
    typ = NS("jax.typing", DTypeLike=object, ArrayLike=object)
    errors = NS("jax.errors", TracerBoolConversionError=C.TracerError, ConcretizationTypeError=C.TracerError)
    jax = NS("jax", numpy=jnp, tree=tree, tree_util=tu, lax=lax, nn=nn, random=rand, scipy=scipy, experimental=exper, config=config,
             typing=typ, Array=SymArray, jit=jit, vmap=vmap, grad=grad, value_and_grad=value_and_grad, jvp=jvp, vjp=vjp,
             linearize=linearize, linear_transpose=linear_transpose, jacfwd=jacfwd, jacrev=jacfwd, jacobian=jacfwd, hessian=hessian,
             errors=errors, block_until_ready=lambda x: x, device_get=lambda x: x, device_put=lambda x, *a: x,
             checkpoint=lambda f, **k: f, ShapeDtypeStruct=uns("ShapeDtypeStruct"), eval_shape=uns("eval_shape"), pmap=uns("pmap"))
    jt = NS("jaxtyping", Array=SymArray, PyTree=PyTree, **{n: ann(n) for n in
            ("Float", "Int", "Num", "PRNGKeyArray", "Bool", "Shaped", "Real", "Inexact", "Integer", "UInt", "Complex", "Key", "ArrayLike", "Scalar", "ScalarLike")})

    class Log:
        def __getattr__(self, k):
            return lambda *a, **kw: None

    def np_nanargmin(a, axis=None):
        if type(a) is list and "nanargmin" in extra:
            return extra["nanargmin"](a)
        return a.__vf_nanargmin__() if hasattr(a, "__vf_nanargmin__") else uns("np.nanargmin")(a)
    np_ = NS("numpy", float32=C.F32, float64=C.F64, int32=C.I32, int64=C.I64, bool_=BOOL, nanargmin=np_nanargmin, inf=float("inf"), nan=float("nan"), asarray=jnp.asarray, array=jnp.array, ndarray=SymArray,
             argmin=lambda a, axis=None: a.__vf_argmin__() if hasattr(a, "__vf_argmin__") else uns("np.argmin")(a), isnan=j_isnan, isfinite=lambda x: ~j_isnan(x), mean=j_mean, sqrt=C.sqrt, log=j_log, sum=j_sum)
    math = NS("math", prod=prod, pi=SymNum(T.PI, True), sqrt=m_sqrt, log=m_fn(T.log), exp=m_fn(T.exp), inf=float("inf"), nan=float("nan"),
              isnan=lambda x: False if isinstance(x, (SymNum, SymArray)) else _math.isnan(x),
              isinf=lambda x: False if isinstance(x, (SymNum, SymArray)) else _math.isinf(x),
              isfinite=lambda x: True if isinstance(x, (SymNum, SymArray)) else _math.isfinite(x), ceil=_math.ceil, floor=_math.floor,
              log2=m_fn(lambda p: T.log(p) / T.log(T.const(2))), log10=m_fn(lambda p: T.log(p) / T.log(T.const(10))))
    itertools = NS("itertools", **{k: v for k, v in vars(_it).items() if not k.startswith("_")})
    ch = type("chain", (), {"__new__": staticmethod(lambda cls, *a: chain(*a)), "from_iterable": staticmethod(_it.chain.from_iterable)})
    itertools.__dict__.update(starmap=starmap, chain=ch)
    # stand-ins for effects
    tq = NS("tqdm", tqdm=lambda it=None, *a, **k: it, auto=None)
    tqa = NS("tqdm.auto", tqdm=lambda it=None, *a, **k: it)
    tq.__dict__["auto"] = tqa
    import importlib as _il
    meta = NS("importlib.metadata", version=lambda n: "0", PackageNotFoundError=Exception, entry_points=lambda **k: [])
    util = NS("importlib.util", find_spec=lambda n: None)
    iml = NS("importlib", metadata=meta, util=util, import_module=uns("importlib.import_module"))
    wr = NS("warnings", warn=lambda *a, **k: None, filterwarnings=lambda *a, **k: None)
    mods = {m.__name__: m for m in (jax, jnp, linalg, tree, tu, lax, nn, rand, scipy, special, stats, sl, exper, sparse, spl, typ, errors,
                                    jt, np_, math, itertools, tq, tqa, meta, util, iml, wr)}
    mods["loguru"] = NS("loguru", logger=Log())
    mods["jax.scipy.stats.norm"] = stats.norm
    mods["builtins"] = dict(len=b_len, range=b_range, zip=b_zip, enumerate=b_enumerate, sum=b_sum, isinstance=b_isinstance,
                            map=b_map, min=b_minmax(True), max=b_minmax(False), reversed=b_reversed, all=b_allany(True), any=b_allany(False),
                            next=b_next, iter=b_iter, print=lambda *a, **k: None,
                            __vf_int=b_int, __vf_float=b_float, __vf_bool=b_bool, __vf_list=b_list, __vf_tuple=b_tuple,
                            __vf_str=str, __vf_dict=dict, __vf_set=set)
    return mods


def install_rules():
    C.install_base_rules()
    install_la_interp()
    R.app_rules["chol"] = _chol_rule
    R.rules.append(rule_linear_algebra)
    R.nonneg.add("svds")
