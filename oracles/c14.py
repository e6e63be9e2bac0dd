from oracles.common import *
from oracles.c09 import lr_dense
from oracles.c07 import problem
from laplax.curv.utils import LowRankTerms
from laplax.enums import CurvApprox, LossFn
from laplax.eval import likelihood as LI

KINDS = ["joint", "structures", "marginal"]
FIXED = sum([seeds(k, 4) for k in KINDS], [])
random_case = pick(KINDS)


def ref_joint(loss, delta, sigma, p):
    f = flat(p)
    return -float(loss) / (2 * sigma) - 0.5 * delta * float(f @ f) - 0.5 * len(f) * (np.log(2 * np.pi) - np.log(delta))


def ref(loss, delta, sigma, p, prec):
    s, ld = np.linalg.slogdet(prec)
    assert s > 0
    return ref_joint(loss, delta, sigma, p) + 0.5 * prec.shape[0] * np.log(2 * np.pi) - 0.5 * ld


def check(c):
    r, kind = rs(c), c["kind"]
    delta, sigma, s2, l = (float(x) * mag(r, -3, 2) for x in r.uniform(0.2, 3, size=4))
    if kind in ("joint", "structures"):
        p = rand_tree(r)
        n = size(p)
        full = lambda x, y, q: sum(jnp.sum(jnp.sin(a)) for a in jax.tree.leaves(q)) + jnp.sum(x * y)
        data = {"input": jnp.asarray(r.normal(size=3)), "target": jnp.asarray(r.normal(size=3))}
        loss = full(data["input"], data["target"], p)
        for args, sg in (({"prior_prec": delta}, 1.0), ({"prior_prec": delta, "sigma": sigma}, sigma)):
            close(LI.joint_log_likelihood(full, args, p, data), ref_joint(loss, delta, sg, p), "joint")
            if kind == "structures":
                A, D, k = spd(r, n), r.uniform(0.2, 3, size=n), r.randint(1, n + 1)
                U = np.linalg.qr(r.normal(size=(n, n)))[0][:, :k]
                low = LowRankTerms(U=jnp.asarray(U), S=jnp.asarray(r.uniform(-0.9 * delta, 3, size=k)), scalar=jnp.asarray(delta))
                for t, prec, mat in (("full", A, A), ("diagonal", D, np.diag(D)), ("low_rank", low, lr_dense(low))):
                    prec = jnp.asarray(prec) if t != "low_rank" else prec
                    want = ref(loss, delta, sg, p, mat)
                    close(getattr(LI, t + "_marginal_log_likelihood")(prec, args, full, p, data), want, t)
                    for name in {"low_rank": ["lanczos", "lobpcg"]}.get(t, [t]):
                        close(LI.CURVATURE_MARGINAL_LOG_LIKELIHOOD[name](prec, args, full, p, data), want, name)
        return
    n, d, k, p, f, X, Y = problem(r)
    q = size(p)
    data = {"input": X, "target": Y}
    out = jnp.stack([f(x, p) for x in X])
    ls = lambda z: -np.log1p(np.exp(-np.asarray(z)))
    o, y = np.asarray(out), np.asarray(Y)
    ell = lambda z, t: jnp.sum(jnp.cos(z) * t)
    C = psd(r, q)
    w, V = np.linalg.eigh(C)
    low = LowRankTerms(U=jnp.asarray(V), S=jnp.asarray(w), scalar=jnp.asarray(0.0))
    losses = [(LossFn.MSE, np.sum((o - y) ** 2)), ("cross_entropy", np.sum(-y * ls(o) - (1 - y) * ls(-o))), (ell, float(ell(out, Y)))]
    fn = lambda x, params: f(x, params)
    args = {"prior_prec": delta, "sigma": sigma, "sigma_squared": s2}
    for loss, val in losses:
        for kw, lf in (({}, 1.0), ({"loss_scaling_factor": l}, l)):
            for t, est, mat in (("full", jnp.asarray(C), C), (CurvApprox.DIAGONAL, jnp.asarray(np.diag(C)), np.diag(np.diag(C))),
                                ("lanczos", low, C), ("lobpcg", low, C)):
                got = LI.marginal_log_likelihood(est, args, data, fn, p, loss, t, vmap_over_data=True, **kw)
                close(got, ref(val, delta, sigma, p, (s2 * mat + delta * np.eye(q)) / lf), f"{loss} {t} {kw}", 1e-6)
        got = LI.marginal_log_likelihood(jnp.asarray(C), args, {"input": X, "target": Y}, lambda input, params: jnp.stack([f(x, params) for x in input]), p, loss, "full")
        close(got, ref(val, delta, sigma, p, s2 * C + delta * np.eye(q)), f"{loss} unmapped", 1e-6)
