from oracles.common import *
from oracles.c07 import problem, unflat_j
from laplax.curv.hessian import create_hessian_mv, create_hessian_mv_without_data

KINDS = ["mse", "callable", "single", "reject"]
FIXED = sum([seeds(k, 3) for k in KINDS], [])
random_case = pick(KINDS)


def check(c):
    r, kind = rs(c), c["kind"]
    n, d, k, p, f, X, Y = problem(r)
    data = {"input": X, "target": Y}
    v = unflat(p, r.normal(size=size(p)) * mag(r))
    nt, nc = int(r.randint(1, 50)), int(r.randint(1, 50))
    H = lambda obj: np.asarray(jax.hessian(lambda w: obj(unflat_j(p, w)))(jnp.asarray(flat(p))))
    same = lambda got, G, s, what: near(flat(got), s * (G @ flat(v)), what)
    ell = lambda z, y: jnp.sum(jnp.cos(z) * y) + jnp.sum(z) ** 3
    if kind == "mse":
        G = H(lambda q: sum(jnp.sum((f(x, q) - y) ** 2) for x, y in zip(X, Y)))
        same(create_hessian_mv(f, p, data, "mse")(v), G, 1.0, "no counts")
        same(create_hessian_mv(f, p, data, "mse", num_curv_samples=nc, num_total_samples=nt)(v), G, nt / nc, "both")
        same(create_hessian_mv(f, p, data, "mse", num_total_samples=nt)(v), G, nt / n, "total only")
        same(create_hessian_mv(f, p, data, "mse", num_curv_samples=nc)(v), G, 1.0, "curv only")
        same(create_hessian_mv_without_data(f, p, "mse", 0.37)(v, data), G, 0.37, "factor")
    elif kind == "callable":
        G = H(lambda q: ell(jnp.stack([f(x, q) for x in X]), Y))
        same(create_hessian_mv(f, p, data, ell, num_curv_samples=nc, num_total_samples=nt)(v), G, nt / nc, "callable")
    elif kind == "single":
        one = {"input": X[0], "target": Y[0]}
        G = H(lambda q: jnp.sum((f(X[0], q) - Y[0]) ** 2))
        same(create_hessian_mv(f, p, one, "mse", vmap_over_data=False, num_curv_samples=nc, num_total_samples=nt)(v), G, nt / nc, "single")
        G = H(lambda q: ell(f(X[0], q), Y[0]))
        same(create_hessian_mv(f, p, one, ell, vmap_over_data=False, num_curv_samples=nc)(v), G, 1.0, "single callable")
    else:
        raises(ValueError, lambda: create_hessian_mv(f, p, data, "no such loss"), "unknown loss")
