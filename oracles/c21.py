from oracles.common import *
from scipy import stats
from laplax.eval import metrics as M

KINDS = ["values", "shapes"]
FIXED = seeds("values", 8) + seeds("shapes", 2)
random_case = pick(["values"])
SH = [(1,), (5,), (3, 2), (1, 1), (2, 3, 2), (4, 1), ()]


def check(c):
    r = rs(c)
    if c["kind"] == "shapes":
        A = lambda *s: jnp.asarray(np.exp(r.normal(size=s)))
        for f in (M.crps_gaussian, M.nll_gaussian):
            for a, b, t in ((A(3), A(3), A(4)), (A(3), A(4), A(3)), (A(4), A(3), A(3)), (A(3, 2), A(3, 2), A(3)), (A(3, 2), A(3, 1), A(3, 2)), (A(3, 2), A(3, 2), A(3, 1)), (A(2, 3), A(3, 2), A(3, 2)), (A(3), A(3), A(1))):
                for s in (True, False):
                    raises(ValueError, lambda: f(a, b, t, scaled=s), f"{f.__name__} {a.shape} {b.shape} {t.shape}")
        return
    sh = SH[r.randint(len(SH) - 1)]
    m, s, y = r.normal(size=sh) * 2, np.exp(r.normal(size=sh)), r.normal(size=sh)
    big = mag(r)
    m, s, y = m * big, s * big, y * big
    a = [jnp.asarray(q) for q in (m, s, y)]
    e = m - y
    chi = (e / s) ** 2
    for kw, red in (({}, np.mean), ({"averaged": True}, np.mean), ({"averaged": False}, np.sum)):
        close(M.chi_squared(*a, **kw), red(chi), f"chi squared {kw}")
        close(M.chi_squared_zero(pred_mean=a[0], pred_std=a[1], target=a[2], **kw), abs(red(chi) - 1), f"chi squared zero {kw}")
    near(M.estimate_rmse(a[0], a[2], pred_std=a[1]), np.sqrt(np.mean(e ** 2)), "rmse")
    nll = -stats.norm.logpdf(y, m, s)
    z = (y - m) / s
    crps = s * (z * (2 * stats.norm.cdf(z) - 1) + 2 * stats.norm.pdf(z) - 1 / np.sqrt(np.pi))
    for kw, red in (({}, np.mean), ({"scaled": True}, np.mean), ({"scaled": False}, np.sum)):
        close(M.nll_gaussian(*a, **kw), red(nll), f"nll {kw}")
        near(M.crps_gaussian(*a, **kw), red(crps), f"crps {kw}")
        near(jax.jit(lambda p, q, t: M.crps_gaussian(p, q, t, **kw))(*a), red(crps), f"crps compiled {kw}")
