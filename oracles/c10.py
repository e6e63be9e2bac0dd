from oracles.common import *
from laplax.curv import cov as CV
from laplax.curv.utils import LowRankTerms
from oracles.c09 import lr_dense

KINDS = ["full", "diagonal", "lanczos", "lobpcg"]
FIXED = sum([seeds(k, 4) for k in KINDS], [])
random_case = pick(KINDS)


def check(c):
    r, kind = rs(c), c["kind"]
    n = r.randint(1, 7)
    big = mag(r)
    if kind == "full":
        P = spd(r, n) * big
        prec = jnp.asarray(P)
    elif kind == "diagonal":
        d = r.uniform(0.1, 4, size=n) * big
        P, prec = np.diag(d), jnp.asarray(d)
    else:
        k = r.randint(1, n + 1)
        U = np.linalg.qr(r.normal(size=(n, n)))[0][:, :k]
        sc = float(r.uniform(0.2, 3)) * big
        S = r.uniform(0.1, 4, size=k) * big - sc
        prec = LowRankTerms(U=jnp.asarray(U), S=jnp.asarray(S), scalar=jnp.asarray(sc))
        P = lr_dense(prec)
    st = CV.CURVATURE_TO_POSTERIOR_STATE[kind](prec)
    scale, cov = CV.CURVATURE_STATE_TO_SCALE[kind](st), CV.CURVATURE_STATE_TO_COV[kind](st)
    E = np.eye(n)
    S = np.stack([np.asarray(scale(jnp.asarray(e))) for e in E], 1)
    K = np.stack([np.asarray(cov(jnp.asarray(e))) for e in E], 1)
    near(S @ S.T, K, "S S^T", 1e-8)
    close(K @ P, E, "covariance precision", 1e-7)
    x, y = r.normal(size=n), r.normal(size=n)
    near(scale(jnp.asarray(x + 2 * y)), S @ (x + 2 * y), "scale linear")
    near(cov(jnp.asarray(x + 2 * y)), K @ (x + 2 * y), "cov linear")
