"""Differential test of the assumed contracts on JAX / numpy (vf/shims.py) against the real libraries.

python3-vt tools/conformance.py [SEED]     every case: the term the engine builds, evaluated at random concrete values, once with
                                           concrete and once with symbolic dimensions, against real JAX on the same values
Bounded evidence for the trusted base, not a proof.  Exit 1 on a disagreement."""
import json
import os
import random
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

# name -> (dims, kind); n = 3, m = 2, b = 4
DIMS = {"n": 3, "m": 2, "b": 4}
INPUTS = {
    "A": ("nm", "r"), "B": ("mn", "r"), "S": ("nn", "r"), "x": ("n", "r"), "y": ("n", "r"), "u": ("m", "r"), "p": ("n", "p"),
    "P": ("nm", "p"), "X": ("bnm", "r"), "s": ("", "r"), "q": ("", "p"), "k": ("n", "i"), "c": ("n", "b"), "M": ("bn", "r"), "H": ("nn", "spd"),
    "w": ("b", "r"), "W": ("bm", "r"), "f": ("b", "u"),
}
CASES = """
x + y
x - 2 * y
x * y / p
A @ u
A @ B
S @ x
x @ A
x @ y
X @ u
A.T
X.T
X.mT
-A
abs(A)
x ** 2
p ** -0.5
p ** s
A + x[:, None]
A * u
A[1]
A[:, 1]
A[-1]
A[:, -1]
A[1:]
A[:-1]
A[::-1]
A[None]
A[..., 0]
X[..., 1]
X[1, :, 0]
X[:, None, 2]
x[k]
A[k]
A.at[0].set(u)
A.at[0].add(u)
A.at[:, 1].set(x)
x.at[1].multiply(s)
x.at[-1].add(s)
A.sum()
A.sum(0)
A.sum(axis=-1)
A.sum(axis=1, keepdims=True)
A.mean(0)
A.reshape(-1)
A.ravel()
A.reshape(2, 3) if CONCRETE else A
A.flatten()
A.transpose()
X.transpose(2, 0, 1)
A.astype(int) if CONCRETE else A
A.size
A.shape
A.ndim
len(A)
x < y
x <= y
x == x
(x < y) & c
(x < y) | ~c
~c
jnp.abs(x)
jnp.add(x, y)
jnp.subtract(x, y)
jnp.multiply(x, y)
jnp.divide(x, p)
jnp.true_divide(x, p)
jnp.power(p, 3)
jnp.float_power(p, 2)
jnp.negative(x)
jnp.reciprocal(p)
jnp.all(x < 100)
jnp.any(x < y)
jnp.arange(5)
jnp.arange(2, 5)
jnp.arange(len(x))
jnp.argmax(x)
jnp.argmin(x)
jnp.argmax(A, axis=1)
jnp.argmax(A, axis=0)
jnp.argmax(A, axis=-1)
jnp.argmin(A, axis=-1)
jnp.max(x)
jnp.min(x)
jnp.max(A, axis=1)
jnp.min(A, axis=0)
jnp.amax(A, axis=-1)
jnp.maximum(x, y)
jnp.minimum(x, 0.1)
jnp.clip(x, -0.5, 0.5)
jnp.clip(x, min=0.)
jnp.array([s, q])
jnp.asarray([x, y])
jnp.atleast_1d(s)
jnp.broadcast_to(u, A.shape)
jnp.broadcast_to(s, (4,))
jnp.concatenate([x, u])
jnp.concatenate([A, x[:, None]], axis=1)
jnp.concatenate([A, A], axis=0)
jnp.concatenate([A, A], axis=-1)
jnp.stack([x, y])
jnp.stack([x, y], axis=1)
jnp.stack([x, y], axis=-1)
jnp.hstack([x, y])
jnp.hstack([A, A])
jnp.vstack([A, A])
jnp.vstack([x, y])
jnp.cov(M, rowvar=False)
jnp.cov(M)
jnp.cov(M, rowvar=False, ddof=0)
jnp.cov(M.T)
jnp.cumsum(x)
jnp.cumsum(A, axis=0)
jnp.cumsum(A, axis=-1)
jnp.diag(x)
jnp.diag(S)
jnp.diagonal(S)
jnp.trace(S)
jnp.dot(A, B)
jnp.dot(x, y)
jnp.vdot(x, y)
jnp.inner(x, y)
jnp.outer(x, u)
jnp.matmul(A, B)
jnp.einsum('ij,jk->ik', A, B)
jnp.einsum('ij,ij->i', A, A)
jnp.einsum('ii->i', S)
jnp.einsum('ii', S)
jnp.einsum('bij,j->bi', X, u)
jnp.einsum('i,j->ij', x, u)
jnp.einsum('bnm->mnb', X)
jnp.einsum('ij->j', A)
jnp.einsum('...j,j->...', X, u)
jnp.empty_like(x) * 0
jnp.eye(3)
jnp.eye(len(x))
jnp.identity(3)
jnp.exp(x)
jnp.expm1(x)
jnp.log(p)
jnp.log1p(p)
jnp.log2(p)
jnp.sqrt(p)
jnp.square(x)
jnp.tanh(x)
jnp.sin(x)
jnp.cos(x)
jnp.sign(x)
jnp.expand_dims(x, 0)
jnp.expand_dims(x, -1)
jnp.expand_dims(A, 1)
jnp.flip(x)
jnp.flip(A, axis=1)
jnp.full(3, s)
jnp.full((2, 3), s)
jnp.full_like(A, s)
jnp.greater(x, y)
jnp.greater_equal(x, y)
jnp.less(x, y)
jnp.equal(k, 1)
jnp.not_equal(k, 1)
jnp.isnan(x)
jnp.isfinite(x)
jnp.isinf(x)
jnp.logical_and(c, x < y)
jnp.logical_or(c, x < y)
jnp.logical_not(c)
jnp.linspace(0., 1., 5)
jnp.linspace(s, s + q, 4)
jnp.linspace(0., 1., 16)
jnp.logspace(-1., 1., 5)
jnp.logspace(start=-1., stop=1., num=5)
jnp.mean(A)
jnp.mean(A, axis=0)
jnp.mean(A, 1)
jnp.mean(X, axis=(0, 2))
jnp.sum(X, axis=(0, 2))
jnp.sum(A, axis=0, keepdims=True)
jnp.std(A)
jnp.std(A, axis=0)
jnp.var(A, axis=0)
jnp.var(A, axis=0, ddof=1)
jnp.std(x, ddof=1)
jnp.moveaxis(X, 0, -1)
jnp.moveaxis(X, 0, 1)
jnp.swapaxes(X, 0, 2)
jnp.nan_to_num(x)
jnp.ones(3)
jnp.ones((2, 3))
jnp.ones_like(A)
jnp.zeros((2, 3))
jnp.zeros_like(A)
jnp.ravel(A)
jnp.reshape(A, -1)
jnp.reshape(A, (-1,))
jnp.searchsorted(jnp.array([0., .5, 1.]), f)
jnp.searchsorted(jnp.array([0., .5, 1.]), f, side='right')
jnp.digitize(f, jnp.array([0., .5, 1.]))
jnp.digitize(f, jnp.array([0., .5, 1.]), right=True)
jnp.split(A, [1], axis=0)
jnp.squeeze(x[None])
jnp.squeeze(A[:, :1], axis=1)
jnp.tile(x, 2)
jnp.tile(x, (2, 1))
jnp.transpose(A)
jnp.transpose(X, (2, 0, 1))
jnp.where(x < y, x, y)
jnp.where(c, x, 0.)
jnp.where(c[:, None], A, u)
jnp.linalg.cholesky(H) @ jnp.linalg.cholesky(H).T
jnp.linalg.inv(H) @ H
jnp.linalg.solve(H, x)
jnp.linalg.norm(x)
jnp.linalg.norm(A)
jnp.linalg.norm(A, axis=1)
jnp.linalg.slogdet(H)[1]
jnp.linalg.slogdet(H)[0]
jnp.linalg.multi_dot([A, B, S])
jnp.sum(jnp.linalg.eigh(H)[0])
jnp.linalg.eigh(H)[1] @ jnp.diag(jnp.linalg.eigh(H)[0]) @ jnp.linalg.eigh(H)[1].T
jax.nn.softmax(x)
jax.nn.softmax(A, axis=-1)
jax.nn.softmax(A, axis=0)
jax.nn.softmax(A)
jax.nn.log_softmax(A)
jax.nn.log_softmax(A, axis=0)
jax.nn.logsumexp(A, axis=1)
jax.nn.sigmoid(x)
jax.nn.log_sigmoid(x)
jax.nn.softplus(x)
jax.nn.relu(x)
jax.nn.one_hot(k, 3)
jax.nn.one_hot(k, num_classes=4)
jax.scipy.special.erf(x)
jax.scipy.special.xlogy(p, p)
jax.scipy.special.logsumexp(x)
jax.scipy.stats.norm.pdf(x)
jax.scipy.stats.norm.cdf(x)
jax.scipy.stats.norm.logpdf(x)
jax.scipy.stats.norm.logpdf(x, y, p)
jax.scipy.linalg.solve_triangular(jnp.linalg.cholesky(H), x, lower=True) @ jax.scipy.linalg.solve_triangular(jnp.linalg.cholesky(H), y, lower=True)
jax.lax.top_k(A, 1)[1]
jax.lax.top_k(x, 2)[0]
jax.lax.dynamic_slice(A, (1, 0), (2, 2)) if CONCRETE else A
jax.lax.dynamic_index_in_dim(A, 1, 0)
jax.lax.select(c, x, y)
jax.lax.stop_gradient(x)
jax.lax.cond(s < 0, lambda z: z, lambda z: 2 * z, x)
jax.lax.fori_loop(0, 3, lambda i, z: z + i * x, x)
jax.lax.fori_loop(0, len(x), lambda i, z: z + x[i], 0.)
jax.lax.map(lambda r: r.sum(), A)
jax.lax.map(lambda r: r.sum(), A, batch_size=2)
jax.lax.map(lambda d: d['a'] @ d['b'], {'a': A, 'b': A})
jax.lax.scan(lambda z, r: (z + r.sum(), r * 2), 0., A)
jax.lax.scan(lambda z, r: (z + r.sum(), r * 2), 0., A)[0]
jax.vmap(lambda a, b: a @ b)(A, A)
jax.vmap(lambda a, b: a @ b, in_axes=(0, None))(A, u)
jax.vmap(lambda a: a.sum(), in_axes=1)(A)
jax.vmap(lambda a: a * 2, out_axes=1)(A)
jax.vmap(lambda a: a * 2, out_axes=-1)(A)
jax.vmap(lambda a, b: a @ b, in_axes=(-1, 0))(B, A)
jax.vmap(jax.vmap(lambda a, b: a * b, in_axes=(None, 0)), in_axes=(0, None))(x, u)
jax.vmap(lambda d: d['a'].sum() + d['b'])({'a': A, 'b': x})
jax.vmap(lambda a, b: (a.sum(), b), in_axes=(0, None), out_axes=(0, None))(A, s)
jax.grad(lambda z: jnp.sum(z ** 3))(x)
jax.grad(lambda z: jnp.sum(jnp.exp(z) * y))(x)
jax.grad(lambda z, t: jnp.sum(z * t), argnums=1)(x, y)
jax.value_and_grad(lambda z: jnp.sum(z ** 2))(x)
jax.hessian(lambda z: jnp.sum(z ** 3))(x)
jax.hessian(lambda z: jnp.sum(z ** 2) ** 2)(x)
jax.jacfwd(lambda z: jnp.exp(z) * y)(x)
jax.jacrev(lambda z: A.T @ z)(x)
jax.jacobian(lambda z: z * z)(x)
jax.jvp(lambda z: jnp.sin(z), (x,), (y,))
jax.jvp(lambda z, t: z * t, (x, y), (y, x))
jax.vjp(lambda z: A.T @ z, x)[1](u)
jax.vjp(lambda z, t: z * t, x, y)[1](p)
jax.linearize(lambda z: z ** 2, x)[1](y)
jax.linearize(lambda z: z ** 2, x)[0]
jax.jvp(jax.grad(lambda z: jnp.sum(z ** 3)), (x,), (y,))[1]
jax.jit(lambda z: z + 1)(x)
jax.tree.map(lambda a, b: a + b, {'a': x, 'b': (A, s)}, {'a': y, 'b': (A, q)})
jax.tree.leaves({'b': x, 'a': (A, s)})
jax.tree.leaves([x, None, {'z': s, 'c': q}])
jax.tree.reduce(lambda a, b: a + b, {'b': s, 'a': q})
jax.tree.all({'b': True, 'a': (True, False)})
jax.tree.flatten({'b': x, 'a': (A, s)})[0]
jax.tree.unflatten(jax.tree.structure({'b': 1, 'a': (2, 3)}), [x, y, s])
jax.tree.transpose(jax.tree.structure([0, 0]), jax.tree.structure({'a': 0, 'b': 0}), [{'a': x, 'b': y}, {'a': s, 'b': q}])
jax.tree.structure({'b': 1, 'a': (2, 3)}) == jax.tree.structure({'a': x, 'b': (A, s)})
jax.tree_util.tree_map(jnp.negative, [x, y])
sum([x, y])
sum(r for r in [s, q])
max([1, 3, 2])
[a * b for a, b in zip(x, y)] if CONCRETE else 0
math.sqrt(2.) * x
math.prod(A.shape)
math.ceil(7 / 2)
math.pi * s
np.nanargmin([2., float('nan'), 1.])
np.asarray([1., 2.]).sum()
isinstance(x, jax.Array)
jnp.finfo(x.dtype).eps > 0
jnp.logical_and(x >= 0, x < 1)
jnp.nan_to_num(jnp.where(x < 100, x, jnp.nan))
jax.nn.softmax(W, axis=-1).mean(0)
jnp.sum(c)
jnp.mean(c)
jnp.mean(c * p)
k + 1
k // 2
k % 2
(k == 1) * x
x[1:].sum() + x[:1].sum()
X.reshape(-1)
X.reshape(X.shape[0], -1)
jnp.einsum('bi,bj->ij', M, M)
jnp.diag(jnp.diag(S))
jnp.diag(S) * x
(A * x[:, None]).sum(axis=0)
jnp.log(jnp.sum(jnp.exp(x)))
jnp.sum(jnp.square(A), axis=-1)
jnp.sqrt(jnp.sum(x ** 2))
-jnp.sum(jax.nn.softmax(x) * jax.nn.log_softmax(y))
jnp.max(jax.nn.softmax(A, axis=-1), axis=-1)
jnp.abs(x).max()
jnp.array(1.5) * x
jnp.float32(1.5) * 1
x.T
s.T
jnp.zeros(len(x)).at[1].set(1.)
jnp.eye(len(x))[1]
jnp.arange(len(x)) == 1
jnp.stack([x, y]).T
A.T[None] @ A
X @ X.mT
""".strip().splitlines()

EVAL = r'''
import json, sys, math
def leaves(o, out):
    if o is None: return
    if isinstance(o, (list, tuple)):
        out.append(("seq", len(o)))
        for x in o: leaves(x, out)
    elif isinstance(o, dict):
        out.append(("dict", sorted(o)))
        for k in sorted(o): leaves(o[k], out)
    else: out.append(o)
'''


def values(seed):
    rnd = random.Random(seed)
    out = {}
    for nm, (dims, kind) in INPUTS.items():
        sh = [DIMS[d] for d in dims]

        def go(s):
            if s:
                return [go(s[1:]) for _ in range(s[0])]
            return {"r": rnd.uniform(-1.5, 1.5), "p": rnd.uniform(0.3, 2.), "i": rnd.randrange(3), "b": rnd.random() < 0.5, "u": rnd.random()}[kind]
        if kind == "spd":
            n = sh[0]
            g = [[rnd.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
            out[nm] = [[sum(g[i][k] * g[j][k] for k in range(n)) + (i == j) for j in range(n)] for i in range(n)]
        else:
            out[nm] = go(sh)
    return out


REAL = EVAL + r'''
import jax, jax.numpy as jnp, numpy as np
jax.config.update("jax_enable_x64", True)
job = json.load(open(sys.argv[1]))
CONCRETE = True
env = {k: jnp.asarray(v) for k, v in job["values"].items()}
res = []
for c in job["cases"]:
    try:
        o = eval(c, {"jax": jax, "jnp": jnp, "np": np, "math": math, "CONCRETE": True, **env})
        ls = []; leaves(o, ls)
        res.append([x if isinstance(x, tuple) else ("arr", list(np.shape(x)), np.asarray(x, dtype=float).ravel().tolist()) for x in ls])
    except Exception as e:
        res.append(["error", type(e).__name__ + ": " + str(e)[:100]])
json.dump(res, open(sys.argv[2], "w"))
'''


def shim(vals, case, concrete):
    import math
    from vf import driver, numeric, shims, term as T, core as C
    from vf.core import E
    T.R.reset()
    shims.install_rules()
    shims.CUMS.clear()
    C.REGISTERED.clear()
    E.generic, E.traced, E.effects = set(), set(), []
    E.prefix, E.decisions, E.pending = [], [], []
    E.pins, E.pinnable = {}, set()
    E.loop_plans, E.loop_count, E.loop_policy = {}, {}, None
    E.assumptions = set()
    v = driver.Ctx([])
    size = {d: (T.const(k) if concrete else v.size("dim" + d, 2)) for d, k in DIMS.items()}
    env = {}
    for nm, (dims, kind) in INPUTS.items():
        def look(ev, a, e, nm=nm):
            o = vals[nm]
            for q in a.args:
                i = int(ev.poly(q, e))
                if not 0 <= i < len(o):      # the unselected branch of a case distinction
                    return 0.0
                o = o[i]
            return float(o) if INPUTS[nm][1] not in "ib" else int(o)
        ds = [size[d] for d in dims]
        if kind == "spd":
            v.spd("in_" + nm, ds[0])
        if kind == "b":
            env[nm] = C.SymArray.make(ds, lambda *i, nm=nm: T.iv(T.eq(T.app("in_" + nm, *i, sort="i"), T.PONE)), C.BOOL)
        elif not ds:
            if kind == "p":
                T.R.pos.add("in_" + nm)
            env[nm] = C.SymArray.make((), lambda nm=nm: T.app("in_" + nm))
        else:
            if kind == "i":
                T.R.fn_range["in_" + nm] = lambda a: (T.ZERO, T.const(3))
            env[nm] = v.arr("in_" + nm, ds, sort="i" if kind == "i" else None, pos=kind == "p", **({"dtype": C.INT} if kind == "i" else {}))
        T.R.interp["in_" + nm] = look
    ev = numeric.Ev(0)
    for d, k in DIMS.items():
        ev.env["dim" + d] = k
    sh = v.shims
    g = {"jax": v.jax, "jnp": v.jnp, "np": sh["numpy"], "math": sh["math"], "CONCRETE": concrete, "isinstance": lambda a, b: a.__class__ is C.SymArray,
         "len": lambda o: o.__vf_len__() if hasattr(type(o), "__vf_len__") else (C.mknum(o.dims[0]) if isinstance(o, C.SymArray) else len(o)), **env}
    o = eval(case, g)
    ns = {}
    exec(EVAL, ns)
    ls = []

    def norm(o):
        if isinstance(o, C.SymTree) or isinstance(o, C.SymList):
            raise T.Unsupported("tree result")
        if isinstance(o, (list, tuple)):
            return [norm(x) for x in o]
        if isinstance(o, dict):
            return {k: norm(x) for k, x in o.items()}
        if isinstance(o, C.ShapeT) if isinstance(C.ShapeT, type) else False:
            return [norm(x) for x in o]
        return o
    ns["leaves"](norm(o), ls)
    out = []
    for x in ls:
        if isinstance(x, tuple):
            out.append(x)
            continue
        if isinstance(x, C.SymBool):
            x = C.SymArray.make((), lambda: T.iv(x.cond))
        if isinstance(x, (int, float, bool)):
            out.append(("arr", [], [float(x)]))
            continue
        if isinstance(x, C.SymNum):
            out.append(("arr", [], [float(ev.poly(x.p, {}))]))
            continue
        a = C.to_arr(x)
        shp = [int(ev.poly(C.dim_size(d), {})) for d in a.dims]
        vs = []

        def rec(k, idx):
            if k == len(shp):
                vs.append(float(ev.poly(a.el(*[T.const(i) for i in idx]), {})))
                return
            for i in range(shp[k]):
                rec(k + 1, idx + [i])
        rec(0, [])
        out.append(("arr", shp, vs))
    return out


def close(a, b):
    if a and a[0] == "error" or b and b[0] == "error":
        return False
    fa, fb = [x for x in a if x[0] == "arr"], [x for x in b if x[0] == "arr"]
    if len(fa) != len(fb):
        return False
    return all(list(x[1]) == list(y[1]) and all(abs(p - q) <= 1e-6 * (1 + abs(q)) for p, q in zip(x[2], y[2])) for x, y in zip(fa, fb))


def main(seed=1):
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(20000)
    from vf.term import Unsupported
    vals = values(seed)
    with tempfile.TemporaryDirectory() as d:
        json.dump({"values": vals, "cases": CASES}, open(d + "/in.json", "w"))
        open(d + "/real.py", "w").write(REAL)
        subprocess.run(["/opt/venv/bin/python", d + "/real.py", d + "/in.json", d + "/out.json"], check=True, env=dict(os.environ, JAX_PLATFORMS="cpu"))
        real = json.load(open(d + "/out.json"))
    bad = agree = uns = 0
    for case, want in zip(CASES, real):
        if want and want[0] == "error":
            print("REAL JAX", case, want[1])
            continue
        for concrete in (True, False):
            if not concrete and "CONCRETE" in case:
                continue
            try:
                got = shim(vals, case, concrete)
            except Unsupported as e:
                uns += 1
                if "-v" in sys.argv:
                    print("no contract", "concrete" if concrete else "symbolic", case, "--", str(e)[:100])
                continue
            except Exception as e:
                print("ERROR", "concrete" if concrete else "symbolic", case, "--", type(e).__name__, str(e)[:150])
                bad += 1
                continue
            got = json.loads(json.dumps(got))
            if close(got, want):
                agree += 1
            else:
                bad += 1
                print("DISAGREE", "concrete" if concrete else "symbolic", case, "\n   engine", str(got)[:300], "\n   real  ", str(want)[:300])
    print(f"{len(CASES)} cases: {agree} agreements, {uns} without a contract, {bad} bad")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(*[int(x) for x in sys.argv[1:] if x.isdigit()]))
