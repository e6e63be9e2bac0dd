from oracles.common import *
from laplax.curv.cov import CURVATURE_PRECISION_METHODS as TAB
from laplax.curv.utils import LowRankTerms

KINDS = ["formula"]
FIXED = seeds("formula", 6)
random_case = pick(KINDS)


def lr_dense(t):
    U, S = np.asarray(t.U), np.asarray(t.S)
    return float(t.scalar) * np.eye(U.shape[0]) + U @ np.diag(S) @ U.T


def check(c):
    r = rs(c)
    n = r.randint(1, 6)
    k = r.randint(1, n + 1)
    C = r.normal(size=(n, n))
    d = r.normal(size=n)
    C, d = C * mag(r), d * mag(r)
    U, S = np.linalg.qr(r.normal(size=(n, n)))[0][:, :k], r.normal(size=k) * mag(r)
    delta, s2, l = (float(x) * mag(r) for x in r.uniform(0.2, 3, size=3))
    if not r.randint(4):
        s2 = 0.0
    if not r.randint(6):
        delta = 0.0
    for args, s in (({"prior_prec": delta}, 1.0), ({"prior_prec": delta, "sigma_squared": s2}, s2)):
        for kw, lf in (({}, 1.0), ({"loss_scaling_factor": l}, l)):
            keep = dict(args)
            near(TAB["full"](jnp.asarray(C), args, **kw), (s * C + delta * np.eye(n)) / lf, "full")
            near(TAB["diagonal"](jnp.asarray(d), args, **kw), (s * d + delta) / lf, "diagonal")
            for kind in ("lanczos", "lobpcg"):
                est = LowRankTerms(U=jnp.asarray(U), S=jnp.asarray(S), scalar=jnp.asarray(0.0))
                near(lr_dense(TAB[kind](est, args, **kw)), (s * U @ np.diag(S) @ U.T + delta * np.eye(n)) / lf, kind)
                near(est.S, S, "estimate")
                near(est.U, U, "estimate")
                assert float(est.scalar) == 0.0, "estimate scalar changed"
            assert args == keep, "arguments changed"
