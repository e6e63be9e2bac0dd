"""C17: nonlinear predictive statistics are the ensemble's sample statistics."""
import itertools
from vf.driver import spec
from vf import term as T, core as C
from vf.core import E, SymArray, SymTree, SymNum, mknum
from contracts.c02_dense import tree_op

PF = "laplax.eval.pushforward."
TR = "laplax.util.tree."
FNS = [PF + n for n in ("nonlin_setup", "nonlin_pred_mean", "nonlin_pred_cov", "nonlin_pred_var", "nonlin_pred_std", "nonlin_samples",
                        "nonlin_mc_pred_act", "set_prob_predictive", "set_nonlin_pushforward")] + ["laplax.eval.utils.finalize_fns"] \
    + [TR + n for n in ("mean", "cov", "var", "std", "tree_slice")]


class Setup:
    """Any model, mean, posterior and input; reference ensemble from the weight samples (C16)."""

    def __init__(self, v, out="vector", lo=2):
        self.v = v
        self.td = v.treedef()
        self.mean = v.tree("mean", self.td)
        self.n = v.size("N", lo)
        if out == "scalar" or E.choose(2) == 1:      # a single output (the covariance then has no axes)
            self.dims = {"vector": (T.PONE,), "matrix": (T.PONE, T.PONE), "scalar": ()}[out]
        else:
            self.dims = {"vector": (T.ivar("K", 2, None),), "matrix": (T.ivar("K", 1, None), T.ivar("L", 1, None))}[out]
            E.assume(T.le(T.const(2), C.prod_sizes(self.dims)))
        self.F = v.fn("F", self.dims)
        self.calls = []
        self.x = v.arr("x", (v.size("D"),))
        self.S = tree_op(v, self.td, "S")
        self.key = v.jax.random.key(v.int("seed"))
        self.state = {"s": self.x}
        self.prior = {"prior_prec": v.real("delta", pos=True)}
        Post = v.mod("curv.cov").Posterior
        self.asked = []
        self.post = Post(state=self.state, cov_mv=lambda s: v.fn("NOCOV", ()), scale_mv=lambda s: self.S)
        self.lsf = v.real("lsf", pos=True)

    def posterior_fn(self, *a, **k):
        self.asked.append((a, k))
        return self.post

    def model(self, input, params):
        self.calls.append((input, params))
        return self.F(input, params)

    def weight(self):
        return self.v[PF[7:] + "set_get_weight_sample"](self.key, self.mean, self.S, mknum(self.n), set_get_weight_sample_precompute=False)

    def ensemble(self):
        w = self.weight()
        return lambda s, *o: self.F(self.x, w(mknum(s))).el(*o)


def stats(n, E_, dims):
    """mean, unbiased covariance, population variance as functions of output indices (tuples)."""
    mean = lambda *o: T.bigsum(n, lambda s: E_(s, *o)) / n
    cov = lambda o, p: T.bigsum(n, lambda s: (E_(s, *o) - mean(*o)) * (E_(s, *p) - mean(*p))) / (n - 1)
    var = lambda *o: T.bigsum(n, lambda s: (E_(s, *o) - mean(*o)) ** 2) / n
    return mean, cov, var


def unflatten(dims):
    """flat position -> output index"""
    if len(dims) == 1:
        return lambda p: (p,)
    if len(dims) == 2:
        return lambda p: (C.idiv(p, dims[1]), C.imod(p, dims[1]))
    return lambda p: ()


def check(v, s, fns, tag, expect, whole=True, **kw):
    f = v[PF[7:] + "set_nonlin_pushforward"]
    s.asked.clear()
    given = {"pushforward_fns": fns} if fns is not None else {}
    pred = f(s.model, s.mean, s.posterior_fn, s.prior, key=s.key, loss_scaling_factor=s.lsf, num_samples=mknum(s.n), **given, **kw)
    a, k = s.asked[0]
    got = dict(zip(("prior_arguments", "loss_scaling_factor"), a))
    got.update(k)
    v.true(f"{tag}: one posterior for the given prior and scaling", len(s.asked) == 1 and got["prior_arguments"] is s.prior and got["loss_scaling_factor"] is s.lsf)
    res = pred(s.x)
    v.true(f"{tag}: reported entries", set(res) == set(expect) | {"map"}, f"{sorted(res)}")
    v.eq(f"{tag}: map is the model at the mean parameters", res["map"], s.F(s.x, s.mean))
    if not whole:
        v.eq(f"{tag}: the entries", {k: res[k] for k in expect}, expect)
        return
    for name, want in expect.items():
        v.eq(f"{tag}: {name}", res[name], want)


def expected(v, s):
    E_ = s.ensemble()
    mean, cov, var = stats(s.n, E_, s.dims)
    un = unflatten(s.dims)
    size = C.prod_sizes(s.dims)
    one = len(s.dims) == 0 or T.decide(T.eq(size, T.PONE)) is True
    A = lambda f: SymArray.make(s.dims, f)
    covm = SymArray.make((), lambda: cov(un(T.ZERO), un(T.ZERO))) if one else SymArray.make((size, size), lambda p, q: cov(un(p), un(q)))
    return E_, A(mean), covm, A(lambda *o: cov(o, o)), A(var)


def body(out):
    def run(v):
        s = Setup(v, out)
        m = v.mod("eval.pushforward")
        E_, mean, cov, dvar, pvar = expected(v, s)
        sq = lambda a: SymArray.make(s.dims, lambda *o: T.sqrt(a.el(*o)))
        E.branch(T.le(T.const(5), s.n))
        five = T.ite(T.le(T.const(5), s.n), T.const(5), s.n)
        samples = SymArray.make((five,) + tuple(s.dims), E_)
        full = {"pred_mean": mean, "pred_cov": cov, "pred_var": dvar, "pred_std": sq(dvar), "samples": samples}
        check(v, s, None, "default statistics", full)
        st, me, co, va, sd, sa = (getattr(m, "nonlin_" + n) for n in ("setup", "pred_mean", "pred_cov", "pred_var", "pred_std", "samples"))
        check(v, s, [st, me, va, sd], "without covariance", {"pred_mean": mean, "pred_var": pvar, "pred_std": sq(pvar)}, weight_batch_size=v.int("bs", 1))
        check(v, s, [st, sd], "standard deviation alone", {"pred_std": sq(pvar)}, nonlin_setup_batch_size=v.int("bs", 1))
    return run


def orders(out, statistics, most):
    """Every order of every choice of at most `most` of the statistics."""
    def run(v):
        s = Setup(v, out)
        m = v.mod("eval.pushforward")
        E_, mean, cov, dvar, pvar = expected(v, s)
        sq = lambda a: SymArray.make(s.dims, lambda *o: T.sqrt(a.el(*o)))
        samples = None
        if "samples" in statistics:
            E.branch(T.le(T.const(5), s.n))
            five = T.ite(T.le(T.const(5), s.n), T.const(5), s.n)
            samples = SymArray.make((five,) + tuple(s.dims), E_)
        fn = {"mean": m.nonlin_pred_mean, "covariance": m.nonlin_pred_cov, "variance": m.nonlin_pred_var, "deviation": m.nonlin_pred_std, "samples": m.nonlin_samples}
        for k in range(1, most + 1):
            for names in itertools.permutations(statistics, k):
                exp = {}
                for q in names:
                    now = dvar if "pred_cov" in exp else pvar       # the variance consistent with what was reported before
                    if q == "mean":
                        exp["pred_mean"] = mean
                    elif q == "covariance":
                        exp["pred_cov"] = cov
                    elif q == "variance":
                        exp["pred_var"] = now
                    elif q == "deviation":
                        exp["pred_std"] = sq(exp.get("pred_var", now))
                    else:
                        exp["samples"] = samples
                check(v, s, [m.nonlin_setup] + [fn[q] for q in names], ", ".join(names), exp, whole=False)
    return run


FOUR = ("mean", "covariance", "variance", "deviation")


@spec("C17", FNS, "vector outputs, every order of every choice of statistics: the variance is that of the covariance reported before it if any, the deviation is its root")
def vector_orders(v):
    orders("vector", FOUR, 4)(v)


@spec("C17", FNS, "vector outputs: samples before and after each statistic")
def vector_sample_orders(v):
    orders("vector", FOUR + ("samples",), 2)(v)


@spec("C17", FNS, "matrix outputs, every order")
def matrix_orders(v):
    orders("matrix", FOUR, 3)(v)


@spec("C17", FNS, "scalar outputs, every order")
def scalar_orders(v):
    orders("scalar", FOUR, 3)(v)


@spec("C17", FNS, "vector outputs: mean, unbiased covariance, its diagonal / population variance, square root, first five samples of F(x, w_1), ..., F(x, w_N)")
def vector_outputs(v):
    body("vector")(v)


@spec("C17", FNS, "matrix outputs: the same with the covariance over row-major flattened outputs and the other statistics in output shape")
def matrix_outputs(v):
    body("matrix")(v)


@spec("C17", FNS, "scalar outputs: the same")
def scalar_outputs(v):
    body("scalar")(v)


@spec("C17", FNS, "requested numbers of samples; Monte-Carlo class probabilities are the mean over the samples of each one's softmax")
def samples_and_probabilities(v):
    s = Setup(v, "vector", lo=1)
    m = v.mod("eval.pushforward")
    E_ = s.ensemble()
    k = s.dims[0]
    E.branch(T.le(T.const(5), s.n))
    five = T.ite(T.le(T.const(5), s.n), T.const(5), s.n)
    sm = lambda i, o: T.exp(E_(i, o)) / T.bigsum(k, lambda c: T.exp(E_(i, c)))
    prob = lambda n: SymArray.make((k,), lambda o: T.bigsum(n, lambda i: sm(i, o)) / n)
    st, sa, mc = m.nonlin_setup, m.nonlin_samples, m.nonlin_mc_pred_act
    samples = lambda n: SymArray.make((n, k), E_)
    check(v, s, [st, mc], "probabilities", {"samples": samples(five), "mc_pred_act": prob(five)})
    check(v, s, [st, sa, mc], "probabilities of the samples", {"samples": samples(five), "mc_pred_act": prob(five)})
    # a requested number of samples
    q = T.ivar("Q", 1, None)
    E.assume(T.le(q, s.n))
    ds = v[PF[7:] + "get_dist_state"](s.mean, s.model, s.post, num_samples=mknum(s.n), key=s.key)
    pp = v[PF[7:] + "set_prob_predictive"]
    for fns, tag in (([st, sa, mc], "requested"), ([st, mc], "requested on the way")):
        r = pp(s.model, s.mean, ds, fns, num_samples=mknum(q))(s.x)
        v.eq(f"{tag}: samples", r["samples"], samples(q))
        v.eq(f"{tag}: probabilities", r["mc_pred_act"], prob(q))
