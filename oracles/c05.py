from oracles.common import *
from laplax.util import loader as L
from laplax.util.mv import to_dense, diagonal
from laplax.util.flatten import wrap_function
from laplax.curv.full import create_full_curvature
from laplax.curv.diagonal import create_diagonal_curvature

KINDS = ["flat", "wrap", "tree"]
FIXED = sum([seeds(k, 4) for k in KINDS], [])
random_case = pick(KINDS)


def check(c):
    r = rs(c)
    nb, n = r.randint(1, 5), r.randint(1, 6)
    data = [(jnp.asarray(r.normal(size=(r.randint(1, 4), n))), jnp.asarray(r.normal())) for _ in range(nb)]
    K = r.normal(size=(n, n))

    def mv(vec, data):
        x = data["input"]
        return x.T @ (x @ vec) + data["target"] * (K @ vec)
    tot = sum(np.asarray(x).T @ np.asarray(x) + float(y) * K for x, y in data)
    op = L.DataLoaderMV(mv, data, reduce=L.reduce_add)
    v = r.normal(size=n)
    if c["kind"] == "flat":
        close(op(jnp.asarray(v)), tot @ v, "call")
        close(to_dense(op, layout=n), tot, "to_dense")
        close(diagonal(op, layout=n), np.diag(tot), "diagonal")
        tr = lambda b: {"input": 2 * b[0], "target": b[1]}
        tot2 = sum(4 * np.asarray(x).T @ np.asarray(x) + float(y) * K for x, y in data)
        close(L.DataLoaderMV(mv, data, transform=tr, reduce=L.reduce_add)(jnp.asarray(v)), tot2 @ v, "transform")
        close(L.DataLoaderMV(mv, data, reduce=L.reduce_concat)(jnp.asarray(v)),
              np.concatenate([(np.asarray(x).T @ np.asarray(x) + float(y) * K) @ v for x, y in data]), "reduction")
    elif c["kind"] == "wrap":
        k, q = r.randint(1, 4), r.randint(1, 4)
        A, B, A2, B2 = r.normal(size=(n, k)), r.normal(size=(q, n)), r.normal(size=(k, q)), r.normal(size=(k, q))
        before = dict(vars(op))
        w1 = wrap_function(op, input_fn=lambda z: A @ z, output_fn=lambda z: B @ z)
        w2 = wrap_function(w1, input_fn=lambda z: A2 @ z, output_fn=lambda z: B2 @ z)
        x, z = r.normal(size=k), r.normal(size=q)
        D = B @ tot @ A
        close(w1(jnp.asarray(x)), D @ x, "wrapped")
        close(to_dense(w1, layout=k), D, "wrapped dense")
        close(w2(jnp.asarray(z)), B2 @ D @ A2 @ z, "wrapped twice")
        close(to_dense(w2, layout=q), B2 @ D @ A2, "wrapped twice dense")
        close(w1(jnp.asarray(x)), D @ x, "wrapped, again")
        close(wrap_function(op, input_fn=lambda z: A @ z)(jnp.asarray(x)), tot @ A @ x, "input only")
        close(wrap_function(op, output_fn=lambda z: B @ z)(jnp.asarray(v)), B @ tot @ v, "output only")
        assert vars(op) == before, "the original operator changed"
        close(op(jnp.asarray(v)), tot @ v, "original")
        close(to_dense(op, layout=n), tot, "original dense")
    else:
        t = rand_tree(r)
        P = size(t)
        Ms = [r.normal(size=(P, P)) for _ in range(nb)]
        load = [(jnp.asarray(m), jnp.asarray(0.0)) for m in Ms]
        mvt = lambda vec, data: unflat(t, data["input"] @ jnp.concatenate([y.reshape(-1) for y in jax.tree.leaves(vec)]))
        opt = L.DataLoaderMV(mvt, load, reduce=L.reduce_add)
        close(create_full_curvature(opt, t), sum(Ms), "full curvature")
        close(create_diagonal_curvature(opt, t), np.diag(sum(Ms)), "diagonal curvature")
        close(flat(opt(t)), sum(Ms) @ flat(t), "call")
