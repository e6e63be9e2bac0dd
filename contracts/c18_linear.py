"""C18: linearised predictive covariance is J Sigma J^T, with consistent marginals."""
import itertools
from vf.driver import spec
from vf import term as T, core as C
from vf.core import E, SymArray, SymTree, mknum
from contracts.c02_dense import tree_op
from contracts.c07_ggn import jac_dir, jac_col
from contracts.c17_nonlinear import unflatten

PF = "laplax.eval.pushforward."
FNS = [PF + n for n in ("lin_setup", "lin_pred_mean", "lin_pred_cov", "lin_pred_var", "lin_pred_std", "lin_samples", "set_output_mv",
                        "get_dist_state", "set_prob_predictive", "set_lin_pushforward")] + \
    ["laplax.eval.utils.finalize_fns", "laplax.util.mv.to_dense", "laplax.util.mv.diagonal", "laplax.util.tree.sqrt", "laplax.util.tree.add"]


class Setup:
    def __init__(self, v, out="vector"):
        self.v = v
        self.td = v.treedef()
        self.mean = v.tree("mean", self.td)
        self.n = v.size("N")
        self.dims = {"vector": lambda: (v.size("K"),), "matrix": lambda: (v.size("K"), v.size("L")), "scalar": lambda: ()}[out]()
        self.F = v.fn("F", self.dims)
        self.x = v.arr("x", (v.size("D"),))
        self.sigma = tree_op(v, self.td, "Sig")
        self.S = tree_op(v, self.td, "S")
        self.key = v.jax.random.key(v.int("seed"))
        self.state = object()
        self.prior = {"prior_prec": v.real("delta", pos=True)}
        self.states, self.asked = [], []
        self.post = v.mod("curv.cov").Posterior(state=self.state, cov_mv=lambda s: self.states.append(s) or self.sigma, scale_mv=lambda s: self.states.append(s) or self.S)
        self.lsf = v.real("lsf", pos=True)

    def posterior_fn(self, *a, **k):
        self.asked.append((a, k))
        return self.post

    def model(self, input, params):
        return self.F(input, params)

    def jac(self, x, o, l, i):
        """d F_o(x) / d mean_l[i]"""
        return jac_col(self.v, lambda p: self.F(x, p), self.mean, l, i).el(*o)

    def cov(self, x1, o, x2, p):
        td, ls = self.td, lambda l: self.v.leafsize(self.td, l)
        inner = lambda l, i: T.bigsum(td.n, lambda m: T.bigsum(ls(m), lambda j: T.app("Sig", l, i, m, j) * self.jac(x2, p, m, j)))
        return T.bigsum(td.n, lambda l: T.bigsum(ls(l), lambda i: self.jac(x1, o, l, i) * inner(l, i)))

    def weight(self):
        zero = SymTree.make(self.td, lambda l: SymArray.make((self.v.leafblock(self.td, l),), lambda i: T.ZERO))
        return self.v[PF[7:] + "set_get_weight_sample"](self.key, zero, self.S, mknum(self.n), set_get_weight_sample_precompute=False)

    def samples(self):
        w = self.weight()
        f = lambda p: self.F(self.x, p)
        mean = f(self.mean)
        return SymArray.make((self.n,) + tuple(self.dims), lambda s, *o: mean.el(*o) + jac_dir(self.v, f, self.mean, w(mknum(s))).el(*o))


def run(v, s, fns, tag, expect, whole=True, **kw):
    s.asked.clear(), s.states.clear()
    given = {"pushforward_fns": fns} if fns is not None else {}
    pred = v[PF[7:] + "set_lin_pushforward"](s.model, s.mean, s.posterior_fn, s.prior, s.lsf, num_samples=mknum(s.n), key=s.key, **given, **kw)
    a, k = s.asked[0]
    got = dict(zip(("prior_arguments", "loss_scaling_factor"), a))
    got.update(k)
    v.true(f"{tag}: one posterior for the given prior and scaling", len(s.asked) == 1 and got["prior_arguments"] is s.prior and got["loss_scaling_factor"] is s.lsf)
    res = pred(s.x)
    v.true(f"{tag}: products of the posterior's own state", all(x is s.state for x in s.states))
    v.true(f"{tag}: reported entries", set(res) == set(expect) | {"map"}, f"{sorted(res)}")
    v.eq(f"{tag}: map is the model at the mean parameters", res["map"], s.F(s.x, s.mean))
    if not whole:
        v.eq(f"{tag}: the entries", {k: res[k] for k in expect}, expect)
        return
    for name, want in expect.items():
        v.eq(f"{tag}: {name}", res[name], want)


def body(out):
    def f(v):
        s = Setup(v, out)
        m = v.mod("eval.pushforward")
        un, P = unflatten(s.dims), C.prod_sizes(s.dims)
        A = lambda g: SymArray.make(s.dims, g)
        mean = s.F(s.x, s.mean)
        cov = SymArray.make((P, P), lambda p, q: s.cov(s.x, un(p), s.x, un(q)))
        var = A(lambda *o: s.cov(s.x, o, s.x, o))
        std = A(lambda *o: T.sqrt(s.cov(s.x, o, s.x, o)))
        full = {"pred_mean": mean, "pred_cov": cov, "pred_var": var, "pred_std": std, "samples": s.samples()}
        run(v, s, None, "default statistics", full)
        st, me, co, va, sd, sa = (getattr(m, "lin_" + n) for n in ("setup", "pred_mean", "pred_cov", "pred_var", "pred_std", "samples"))
        run(v, s, [st, sd, co, va], "covariance last", {"pred_mean": mean, "pred_var": var, "pred_std": std, "pred_cov": cov}, mv_jittable=False)
        run(v, s, [st, sa], "samples alone", {"pred_mean": mean, "samples": s.samples()}, lin_samples_batch_size=v.int("bs", 1))
        # every order of every choice of at most three statistics: each reports what it needs itself
        each = {"mean": (me, ["pred_mean"]), "covariance": (co, ["pred_mean", "pred_cov"]), "variance": (va, ["pred_mean", "pred_var"]),
                "deviation": (sd, ["pred_mean", "pred_var", "pred_std"]), "samples": (sa, ["pred_mean", "samples"])}
        for k in (1, 2, 3) if out == "vector" else (1, 2):
            for names in itertools.permutations(each, k):
                run(v, s, [st] + [each[q][0] for q in names], ", ".join(names), {e: full[e] for q in names for e in each[q][1]}, whole=False)
    return f


@spec("C18", FNS, "vector outputs: mean F(x, m), covariance J Sigma J^T, its diagonal, square root; sample i = mean + J w_i; in every order of the functions")
def vector_outputs(v):
    body("vector")(v)


@spec("C18", FNS, "matrix outputs: the same with the covariance over row-major flattened outputs")
def matrix_outputs(v):
    body("matrix")(v)


@spec("C18", FNS, "scalar outputs: the same")
def scalar_outputs(v):
    body("scalar")(v)


@spec("C18", [PF + "lin_setup"], "a distribution state that is not a linearised one is rejected with a type error")
def rejected(v):
    s = Setup(v)
    f = v[PF[7:] + "lin_setup"]
    ok = {"jvp": lambda *a: None, "vjp": lambda *a: None, "posterior_state": s.post}
    for k in ok:
        v.raises(f"no proper {k}", TypeError, lambda: f({}, {}, s.x, {**ok, k: "nothing"}))


@spec("C18", [PF + "set_posterior_gp_kernel", PF + "get_dist_state", "laplax.util.mv.to_dense"], "kernel(x1, x2) = J(x1) Sigma J(x2)^T as a product and densely")
def kernel(v):
    s = Setup(v)
    k = s.dims[0]
    x1, x2, w = v.arr("x1", s.x.dims), v.arr("x2", s.x.dims), v.arr("w", (k,))
    f = v[PF[7:] + "set_posterior_gp_kernel"]
    K = lambda o, p: s.cov(x1, (o,), x2, (p,))
    mv, ds = f(s.model, s.mean, s.posterior_fn, s.prior, s.lsf)
    a, kw = s.asked[0]
    got = {**dict(zip(("prior_arguments", "loss_scaling_factor"), a)), **kw}
    v.true("one posterior for the given prior and scaling", len(s.asked) == 1 and got["prior_arguments"] is s.prior and got["loss_scaling_factor"] is s.lsf)
    v.true("the posterior is handed out", ds["posterior_state"] is s.post)
    v.eq("product", mv(w, x1, x2, ds), SymArray.make((k,), lambda o: T.bigsum(k, lambda p: K(o, p) * w.el(p))))
    other = v.mod("curv.cov").Posterior(state=None, cov_mv=lambda _: lambda t: v.jax.tree.map(lambda a: 3 * a, s.sigma(t)), scale_mv=None)
    v.eq("product for another posterior", mv(w, x1, x2, {**ds, "posterior_state": other}), SymArray.make((k,), lambda o: 3 * T.bigsum(k, lambda p: K(o, p) * w.el(p))))
    dense, ds = f(s.model, s.mean, s.posterior_fn, s.prior, s.lsf, dense=True, output_layout=mknum(k))
    v.eq("dense", dense(x1, x2), SymArray.make((k, k), K))
    v.true("products of the posterior's own state", all(x is s.state for x in s.states))
    s.asked.clear()
    f(s.model, s.mean, s.posterior_fn, s.prior)
    v.raises("dense without an output layout", ValueError, lambda: f(s.model, s.mean, s.posterior_fn, s.prior, s.lsf, dense=True))
    a, kw = s.asked[0]
    got = {**dict(zip(("prior_arguments", "loss_scaling_factor"), a)), **kw}
    v.eq("scaling defaults to one", got.get("loss_scaling_factor", 1.0), 1.0)
