from oracles.common import *
from laplax.util import tree as TT

KINDS = ["elementwise", "stats", "matvec"]
FIXED = sum([seeds(k, 4) for k in KINDS], [])
random_case = pick(KINDS)


def check(c):
    r = rs(c)
    t = rand_tree(r, shapes=EMPTY if c["kind"] == "elementwise" else SHAPES, bare=True)
    mk = lambda f: jax.tree.map(lambda x: jnp.asarray(f(np.shape(x))), t)
    if c["kind"] == "elementwise":
        u = mk(lambda s: r.normal(size=s))
        w = mk(lambda s: r.uniform(0.1, 3, size=s))
        a = float(r.normal())
        m = lambda f, *ts: jax.tree.map(lambda *x: f(*[np.asarray(y) for y in x]), *ts)
        tree_close(TT.add(t, u), m(lambda x, y: x + y, t, u), "add")
        tree_close(TT.sub(t, u), m(lambda x, y: x - y, t, u), "sub")
        tree_close(TT.neg(t), m(lambda x: -x, t), "neg")
        tree_close(TT.mul(a, t), m(lambda x: a * x, t), "mul")
        tree_close(TT.sqrt(w), m(np.sqrt, w), "sqrt")
        tree_close(TT.zeros_like(t), m(np.zeros_like, t), "zeros_like")
        tree_close(TT.ones_like(t), m(np.ones_like, t), "ones_like")
        assert int(TT.get_size(t)) == size(t), f"get_size {TT.get_size(t)}"
    elif c["kind"] == "stats":
        n = r.randint(3, 7)
        s = jax.tree.map(lambda x: jnp.asarray(r.normal(size=(n,) + np.shape(x))), t)
        m = lambda f: jax.tree.map(lambda x: f(np.asarray(x)), s)
        tree_close(TT.mean(s, axis=0), m(lambda x: x.mean(0)), "mean axis 0")
        tree_close(TT.var(s, axis=0), m(lambda x: x.var(0)), "var axis 0")
        tree_close(TT.std(s, axis=0, ddof=1), m(lambda x: x.std(0, ddof=1)), "std ddof 1")
        tree_close(TT.mean(s), m(lambda x: x.mean()), "mean")
        tree_close(TT.var(s), m(lambda x: x.var()), "var")
        tree_close(TT.std(s), m(lambda x: x.std()), "std")
        a = r.randint(0, n)
        b = r.randint(a, n + 1)
        tree_close(TT.tree_slice(s, int(a), int(b)), m(lambda x: x[a:b]), "tree_slice")
    else:
        leaves, td = jax.tree.flatten(t)
        n = len(leaves)
        sz = [int(np.asarray(x).size) for x in leaves]
        P = sum(sz)
        M = r.normal(size=(P, P))
        off = np.cumsum([0] + sz)
        blocks = [jnp.asarray(M[off[j]:off[j + 1], off[i]:off[i + 1]].reshape(np.shape(leaves[j]) + np.shape(leaves[i])))
                  for i in range(n) for j in range(n)]
        out = TT.tree_matvec(blocks, t)
        tree_close(out, unflat(t, M @ flat(t)), "tree_matvec")
        k = r.randint(1, 4)
        A = jax.tree.map(lambda x: jnp.asarray(r.normal(size=np.shape(x) + (k,))), t)
        v = r.normal(size=k)
        tree_close(TT.tree_partialmatvec(A, jnp.asarray(v)), jax.tree.map(lambda x: np.asarray(x) @ v, A), "tree_partialmatvec")
