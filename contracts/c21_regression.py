"""C21: regression metrics equal their closed-form definitions."""
from vf.driver import spec
from vf import term as T, core as C
from vf.core import E, SymArray, mknum

M = "laplax.eval.metrics."
FNS = [M + n for n in ("chi_squared", "chi_squared_zero", "estimate_rmse", "crps_gaussian", "nll_gaussian")]
HALF = T.const(1) / 2


def body(dims):
    def run(v):
        m = v.mod("eval.metrics")
        d = dims(v)
        mean, std, y = v.arr("m", d), v.arr("s", d, pos=True), v.arr("y", d)
        N = C.prod_sizes(d)

        def total(f):
            def go(i, rest):
                return f(*i) if not rest else T.bigsum(C.dim_size(rest[0]), lambda j: go(i + (j,), rest[1:]))
            return go((), d)
        num = lambda p: SymArray.make((), lambda: T.as_poly(p))
        e = lambda *i: mean.el(*i) - y.el(*i)
        chi = total(lambda *i: e(*i) ** 2 / std.el(*i) ** 2)
        v.eq("chi squared", m.chi_squared(mean, std, y), num(chi / N))
        v.eq("chi squared, averaged", m.chi_squared(pred_mean=mean, pred_std=std, target=y, averaged=True, other=1), num(chi / N))
        v.eq("chi squared, summed", m.chi_squared(mean, std, y, averaged=False), num(chi))
        v.eq("distance from one", m.chi_squared_zero(pred_mean=mean, pred_std=std, target=y), num(T.app("abs", chi / N - 1)))
        v.eq("distance of the sum from one", m.chi_squared_zero(pred_mean=mean, pred_std=std, target=y, averaged=False), num(T.app("abs", chi - 1)))
        v.eq("root mean squared error", m.estimate_rmse(mean, y, pred_std=std), num(T.sqrt(total(lambda *i: e(*i) ** 2) / N)))
        nll = total(lambda *i: HALF * T.log(2 * T.PI) + T.log(std.el(*i)) + e(*i) ** 2 / (2 * std.el(*i) ** 2))
        v.eq("negative log-likelihood", m.nll_gaussian(mean, std, y), num(nll / N))
        v.eq("negative log-likelihood, scaled", m.nll_gaussian(mean, std, target=y, scaled=True, other=1), num(nll / N))
        v.eq("negative log-likelihood, summed", m.nll_gaussian(mean, std, y, scaled=False), num(nll))

        def crps_at(*i):
            z = (y.el(*i) - mean.el(*i)) / std.el(*i)
            pdf = T.exp(-z ** 2 / 2) / T.sqrt(2 * T.PI)
            cdf = HALF * (1 + T.app("erf", z / T.sqrt(T.const(2))))
            return std.el(*i) * (z * (2 * cdf - 1) + 2 * pdf - 1 / T.sqrt(T.PI))
        crps = total(crps_at)
        v.eq("ranked probability score", m.crps_gaussian(mean, std, y), num(crps / N))
        v.eq("ranked probability score, scaled", m.crps_gaussian(mean, std, target=y, scaled=True, other=1), num(crps / N))
        v.eq("ranked probability score, summed", m.crps_gaussian(mean, std, y, scaled=False), num(crps))
    return run


@spec("C21", FNS, "arrays of any number of axes and any sizes")
def arrays(v):
    body(lambda v: (C.Block("shape", [], v.size("N")),))(v)


@spec("C21", FNS, "vectors of any length")
def vectors(v):
    body(lambda v: (v.size("N"),))(v)


@spec("C21", FNS, "arrays with two axes of any sizes")
def matrices(v):
    body(lambda v: (v.size("N"), v.size("K")))(v)


@spec("C21", FNS[3:], "differing shapes are rejected with a value error")
def shapes(v):
    m = v.mod("eval.metrics")
    n, k = v.size("N"), v.size("K", 2)
    A = lambda *d: v.arr("a" + str(len(d)) + str(d[-1]) if d else "a", d, pos=True)
    for f in (m.crps_gaussian, m.nll_gaussian):
        for a, b, c in ((A(n), A(n), A(n + 1)), (A(n), A(n + 1), A(n)), (A(n + 1), A(n), A(n)), (A(n, k), A(n, k), A(n)), (A(n, k), A(n, T.PONE), A(n, k)), (A(n, k), A(n, k), A(n, T.PONE))):
            for s in (True, False):
                v.raises(f"{f.__name__} {len(a.dims)}{len(b.dims)}{len(c.dims)}", ValueError, lambda: f(a, b, c, scaled=s))
