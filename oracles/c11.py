from oracles.common import *
from laplax.curv import cov as CV, low_rank
from laplax.curv.lanczos import lanczos_lowrank
from laplax.curv.lobpcg import lobpcg_lowrank
from laplax.enums import CurvApprox
from oracles.c09 import lr_dense

KINDS = ["full", "diagonal", "lanczos", "lobpcg", "stand-in", "lobpcg-rank"]
FIXED = sum([seeds(k, 3) for k in KINDS], []) + [{"kind": "lobpcg-rank", "seed": 9, "n": 15, "rank": 3, "jit": False}, {"kind": "lobpcg-rank", "seed": 10, "n": 30, "rank": 6, "jit": True}]
random_case = pick(KINDS)


def mat(f, n):
    return np.asarray(jax.vmap(f, in_axes=1, out_axes=1)(jnp.eye(n)))


def check(c):
    r, kind = rs(c), c["kind"]
    if kind == "stand-in":
        return stand_in(r)
    if kind == "lobpcg-rank":
        return lobpcg_rank(c, r)
    t = rand_tree(r, bare=True)
    P = size(t)
    if kind == "lobpcg":
        t = {"w": jnp.asarray(r.normal(size=(6, 4))), "b": jnp.asarray(r.normal(size=7))}
        P = size(t)
    K = spd(r, P) if kind != "lobpcg" else psd(r, P, 4)
    mv = lambda x: unflat(t, jnp.asarray(K) @ jnp.concatenate([z.reshape(-1) for z in jax.tree.leaves(x)]))
    args = {"prior_prec": float(r.uniform(0.3, 2)), "sigma_squared": float(r.uniform(0.3, 2))}
    l = float(r.uniform(0.5, 3))
    opts = {}
    key = jax.random.key(int(r.randint(1000)))
    if kind in ("lanczos", "lobpcg"):
        opts = {"key": key, "rank": 4 if kind == "lobpcg" else max(2, P)}
    est = CV.estimate_curvature(kind, mv, t, **opts)
    if kind == "full":
        close(est, K, "estimate")
        C = K
    elif kind == "diagonal":
        close(est, np.diag(K), "estimate")
        C = np.diag(np.diag(K))
    else:
        own = {"lanczos": lanczos_lowrank, "lobpcg": lobpcg_lowrank}[kind](mv, layout=t, **opts)
        tree_close(est, own, "estimate of its own routine")
        U, S = np.asarray(est.U), np.asarray(est.S)
        C = U @ np.diag(S) @ U.T
    prec = (args["sigma_squared"] * C + args["prior_prec"] * np.eye(P)) / l
    want = np.linalg.inv(prec)
    post = CV.create_posterior_fn(kind, mv, layout=t, **opts)(args, l)
    tol = 1e-6
    cov = np.stack([flat(post.cov_mv(post.state)(unflat(t, e))) for e in np.eye(P)], 1)
    sc = np.stack([flat(post.scale_mv(post.state)(unflat(t, e))) for e in np.eye(P)], 1)
    close(cov, want, "covariance", tol)
    close(sc @ sc.T, want, "scale", tol)
    assert jax.tree.structure(post.cov_mv(post.state)(t)) == jax.tree.structure(t)
    flat_mv = lambda x: jnp.asarray(K) @ x
    if kind in ("full", "diagonal"):
        close(CV.estimate_curvature(kind, flat_mv, layout=P), est, "estimate from a flat operator")
    again = CV.set_posterior_fn(kind, est, layout=P)         # one function, many calls
    for a, q in ((args, l), (args, 2 * l), ({**args, "prior_prec": 5.0}, l), ({"prior_prec": args["prior_prec"]}, l), (args, l)):
        w = np.linalg.inv((a.get("sigma_squared", 1.0) * C + a["prior_prec"] * np.eye(P)) / q)
        fp = again(a, q)
        close(mat(fp.cov_mv(fp.state), P), w, f"covariance in a later call ({a}, {q})", tol)
    for lay in (None, P):
        fp = CV.set_posterior_fn(kind, est, layout=lay)(args, l)
        close(mat(fp.cov_mv(fp.state), P), want, "flat covariance", tol)
        close(mat(fp.scale_mv(fp.state), P), sc, "flat scale", tol)


def lobpcg_rank(c, r):
    n, rank = c.get("n", r.randint(6, 40)), c.get("rank", r.randint(1, 9))
    jit = c.get("jit", bool(r.randint(2)))
    K = spd(r, n)
    key = jax.random.key(int(r.randint(1000)))
    tree = bool(r.randint(2))
    t = {"a": jnp.zeros((2, 1)), "b": jnp.zeros(n - 2)}
    fl = lambda x: jnp.concatenate([z.reshape(-1) for z in jax.tree.leaves(x)])
    mv, lay = (lambda x: unflat(t, jnp.asarray(K) @ fl(x)), t) if tree else (lambda x: jnp.asarray(K) @ x, n)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        est = CV.estimate_curvature("lobpcg", mv, lay, rank=rank, key=key, mv_jit=jit)
    k = len(est.S)
    assert k == rank if 5 * rank < n else k < rank or k == 1, f"{k} pairs for rank {rank} and size {n}"
    U = np.asarray(est.U)
    close(U.T @ U, np.eye(k), "orthonormal", 1e-6)
    close(U.T @ K @ U, np.diag(np.asarray(est.S)), "Rayleigh quotients", 1e-6)


def stand_in(r):
    n = r.randint(1, 5)
    a, b = r.normal(size=n), r.normal(size=(n, n))
    log = []
    tabs = [CV.CURVATURE_METHODS, CV.CURVATURE_PRECISION_METHODS, CV.CURVATURE_TO_POSTERIOR_STATE, CV.CURVATURE_STATE_TO_SCALE, CV.CURVATURE_STATE_TO_COV]
    fns = [lambda mv, layout=None, **k: log.append(("e", k)) or jnp.asarray(a), lambda curv_estimate, prior_arguments, loss_scaling_factor=1.0:
           log.append(("p", prior_arguments, loss_scaling_factor)) or curv_estimate * 3,
           lambda p: {"s": p + 1}, lambda s: lambda x: s["s"] * (b @ x), lambda s: lambda x: s["s"] * (b.T @ x)]
    try:
        for t, f in zip(tabs, fns):
            t["stand-in"] = f
        x = r.normal(size=n)
        args = {"prior_prec": 2.0}
        post = CV.create_posterior_fn("stand-in", lambda z: z, layout=n, opt=5)(args, 0.3)
        assert log == [("e", {"opt": 5}), ("p", args, 0.3)], f"calls {log}"
        close(post.scale_mv(post.state)(jnp.asarray(x)), (3 * a + 1) * (b @ x), "scale")
        close(post.cov_mv(post.state)(jnp.asarray(x)), (3 * a + 1) * (b.T @ x), "cov")
    finally:
        for t in tabs:
            t.pop("stand-in", None)
