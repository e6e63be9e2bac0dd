from oracles.common import *
from laplax.curv.ggn import create_ggn_mv, create_ggn_mv_without_data

KINDS = ["loss", "factor", "other", "single", "matrix", "args"]
FIXED = sum([seeds(k, 3) for k in KINDS], [])
random_case = pick(KINDS)


def problem(r, shape=None):
    n, d, k = r.randint(1, 5), r.randint(1, 4), r.randint(1, 4)
    p = {"W": jnp.asarray(r.normal(size=(d, k))), "b": jnp.asarray(r.normal(size=k)), "c": [jnp.asarray(r.normal())]}
    f = lambda input, params: jnp.tanh(input @ params["W"] + params["b"]) * params["c"][0] + jnp.sin(params["b"])
    X, Y = jnp.asarray(r.normal(size=(n, d))), jnp.asarray(r.uniform(size=(n, k)))
    return n, d, k, p, f, X, Y


HESS = {"mse": lambda z, y: 2 * np.eye(len(z)), "none": lambda z, y: np.eye(len(z)),
        "cross_entropy": lambda z, y: np.diag(np.asarray(jax.nn.softmax(z))) - np.outer(jax.nn.softmax(z), jax.nn.softmax(z)),
        "binary_cross_entropy": lambda z, y: np.diag(np.asarray(jax.nn.sigmoid(z) * (1 - jax.nn.sigmoid(z))))}


def ggn(p, f, X, Y, H):
    P = size(p)
    G = np.zeros((P, P))
    for x, y in zip(X, Y):
        g = lambda w: f(x, unflat_j(p, w)).reshape(-1)
        w0 = jnp.asarray(flat(p))
        J = np.asarray(jax.jacfwd(g)(w0))
        G += J.T @ np.asarray(H(g(w0), y.reshape(-1))) @ J
    return G


def unflat_j(t, v):
    out, k = [], 0
    for x in jax.tree.leaves(t):
        n = np.asarray(x).size
        out.append(v[k:k + n].reshape(np.shape(x)))
        k += n
    return jax.tree.unflatten(jax.tree.structure(t), out)


def check(c):
    r, kind = rs(c), c["kind"]
    n, d, k, p, f, X, Y = problem(r)
    data = {"input": X, "target": Y}
    v = unflat(p, r.normal(size=size(p)) * mag(r))
    nt, nc = int(r.randint(1, 50)), int(r.randint(1, 50))
    same = lambda got, G, s, what: near(flat(got), s * (G @ flat(v)), what)
    if kind == "loss":
        for name, H in HESS.items():
            same(create_ggn_mv(f, p, data, name, num_curv_samples=nc, num_total_samples=nt)(v), ggn(p, f, X, Y, H), nt / nc, name)
    elif kind == "factor":
        G = ggn(p, f, X, Y, HESS["mse"])
        same(create_ggn_mv(f, p, data, "mse")(v), G, 1.0, "no counts")
        same(create_ggn_mv(f, p, data, "mse", num_total_samples=nt)(v), G, nt / n, "total only")
        same(create_ggn_mv(f, p, data, "mse", num_curv_samples=nc)(v), G, 1.0, "curv only")
        same(create_ggn_mv_without_data(f, p, "mse", 0.37)(v, data), G, 0.37, "factor")
    elif kind == "other":
        ell = lambda z, y: jnp.sum(jnp.cos(z) * y) + jnp.sum(z) ** 3
        same(create_ggn_mv(f, p, data, ell)(v), ggn(p, f, X, Y, lambda z, y: jax.hessian(ell)(z, y)), 1.0, "callable")
        Hx = lambda z, y: jnp.outer(z, z) + jnp.diag(y)
        same(create_ggn_mv(f, p, data, loss_hessian_mv=lambda jv, pred, target, **kw: Hx(pred, target) @ jv)(v), ggn(p, f, X, Y, Hx), 1.0, "explicit")
    elif kind == "single":
        one = {"input": X[0], "target": Y[0]}
        for name, H in HESS.items():
            same(create_ggn_mv(f, p, one, name, vmap_over_data=False, num_curv_samples=nc, num_total_samples=nt)(v), ggn(p, f, X[:1], Y[:1], H), nt / nc, name)
        ell = lambda z, y: jnp.sum(jnp.cos(z) * y) + jnp.sum(z) ** 3
        same(create_ggn_mv(f, p, one, ell, vmap_over_data=False, num_curv_samples=nc)(v), ggn(p, f, X[:1], Y[:1], lambda z, y: jax.hessian(ell)(z, y)), 1.0, "callable")
    elif kind == "matrix":
        f2 = lambda input, params: jnp.outer(f(input, params), jnp.cos(params["b"]))
        Y2 = jnp.asarray(r.normal(size=(n, k, k)))
        same(create_ggn_mv(f2, p, {"input": X, "target": Y2}, "mse")(v), ggn(p, f2, X, Y2, HESS["mse"]), 1.0, "matrix output")
    else:
        raises(ValueError, lambda: create_ggn_mv(f, p, data), "neither")
        raises(ValueError, lambda: create_ggn_mv(f, p, data, "mse", loss_hessian_mv=lambda jv, **k: jv), "both")
