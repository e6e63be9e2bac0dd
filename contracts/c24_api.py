"""C24: the high-level API gives the same answer for batch, mapping and loader data."""
import itertools
from vf.driver import spec
from vf import term as T, core as C
from vf.core import SymArray, SymTree, SymList, SymNum, mknum
from vf.shims import SymSeqIter
from contracts.c07_ggn import ggn_spec, losses, model
from contracts.c11_posterior import TABLES
from contracts.c02_dense import tree_op
from contracts import c18_linear as c18
from contracts.c23_registration import everywhere

A = "laplax.api."
OPERATOR = [A + n for n in ("GGN", "_maybe_wrap_loader_or_batch", "_validate_and_get_transform", "_is_data_loader")]


class Loader:
    """A re-iterable of symbolic length that is neither a tuple, a mapping nor a list."""

    def __init__(self, n, at):
        self.s = SymList.make(n, at)

    def __vf_iter__(self):
        return SymSeqIter(self.s)

    def __iter__(self):
        return SymSeqIter(self.s)

    def __vf_seq__(self):
        return self.s.n, self.s.at


class Few:
    """A concrete loader."""

    def __init__(self, *batches):
        self.b = list(batches)

    def __iter__(self):
        return iter(self.b)


class World:
    def __init__(self, v):
        self.v = v
        self.td = v.treedef()
        self.p, self.x = v.tree("p", self.td), v.tree("v", self.td)
        self.d, self.k = v.size("d"), v.size("K")
        self.F = v.fn("F", (self.k,))
        self.model = model(self.F)

    def row(self, a, s):
        return SymArray.make(a.dims[1:], lambda *i: a.el(s, *i))

    def batch(self, n):
        return self.v.arr("x", (n, self.d)), self.v.arr("y", (n, self.k))

    def loader(self, form):
        T.R.pos.add("B")
        B = lambda b: T.app("B", b, sort="i")
        X = lambda b: SymArray.make((B(b), self.d), lambda i, j: T.app("xb", b, i, j))
        Y = lambda b: SymArray.make((B(b), self.k), lambda i, j: T.app("yb", b, i, j))
        nb = self.v.size("nb")
        return nb, B, X, Y, Loader(nb, lambda b: form(X(b), Y(b)))

    def spec(self, n, x, y, factor, H=None):
        H = H or losses(self.v)["mse"]
        return ggn_spec(self.v, self.td, self.p, self.x, n, self.k, x, y, self.F, self.row, factor, H)

    def loader_spec(self, nb, B, X, Y, factor, H=None):
        per = lambda b: self.spec(B(b), X(b), Y(b), factor, H)
        return SymTree.make(self.td, lambda l: SymArray.make((self.v.leafblock(self.td, l),), lambda i: T.bigsum(nb, lambda b: per(b).at(l).el(i))))


FORMS = {"tuple": lambda x, y: (x, y), "mapping": lambda x, y: {"target": y, "input": x}, "list": lambda x, y: [x, y]}


@spec("C24", OPERATOR, "GGN on a tuple or mapping batch of any size: factor * J^T H J, for every named loss, mapped or not, with a given transform")
def batch_operator(v):
    w = World(v)
    n = v.size("N")
    x, y = w.batch(n)
    g = v["api.GGN"]
    c = v.real("c")
    for form in ("tuple", "mapping"):
        data = FORMS[form](x, y)
        v.eq(f"{form}: given factor", g(w.model, w.p, data, "mse", factor=c)(w.x), w.spec(n, x, y, c.p))
        v.eq(f"{form}: default factor", g(w.model, w.p, data, v.mod("enums").LossFn.MSE)(w.x), w.spec(n, x, y, T.PONE))
        v.eq(f"{form}: cross entropy", g(w.model, w.p, data, "cross_entropy", factor=c, verbose_logging=False)(w.x), w.spec(n, x, y, c.p, losses(v)["cross_entropy"]))
        op = g(w.model, w.p, data, "mse", factor=c)
        v.eq(f"{form}: applied again", [op(w.x), op(w.x)], [w.spec(n, x, y, c.p)] * 2)
    t = lambda b: {"input": b[1], "target": 3 * b[0]}
    y3 = SymArray.make(y.dims, lambda *i: 3 * y.el(*i))
    v.eq("given transform", g(w.model, w.p, (y, x), "cross_entropy", factor=c, transform=t)(w.x), w.spec(n, x, y3, c.p, losses(v)["cross_entropy"]))


@spec("C24", OPERATOR, "GGN on a batch that is not mapped: one model evaluation on the whole input")
def unmapped_operator(v):
    w = World(v)
    x, y = v.arr("x", (w.d,)), v.arr("y", (w.k,))
    up = lambda a: SymArray.make((T.PONE,) + tuple(a.dims), lambda s, *i: a.el(*i))
    c = v.real("c")
    for form in ("tuple", "mapping"):
        got = v["api.GGN"](w.model, w.p, FORMS[form](x, y), "mse", factor=c, vmap_over_data=False)(w.x)
        v.eq(form, got, w.spec(T.PONE, up(x), up(y), c.p))


def loader_body(form):
    def f(v):
        w = World(v)
        nb, B, X, Y, data = w.loader(FORMS[form])
        c = v.real("c")
        g = v["api.GGN"]
        op = g(w.model, w.p, data, "mse", factor=c)
        want = w.loader_spec(nb, B, X, Y, c.p)
        v.eq("sum over the batches", op(w.x), want)
        v.eq("applied again", op(w.x), want)
        v.eq("without a progress bar", g(w.model, w.p, data, "mse", factor=c, verbose_logging=False)(w.x), want)
        if form == "tuple":
            t = lambda b: {"input": b[0], "target": 3 * b[1]}
            ce = losses(v)["cross_entropy"]
            Y3 = lambda b: SymArray.make(Y(b).dims, lambda *i: 3 * Y(b).el(*i))
            v.eq("given transform", g(w.model, w.p, data, "cross_entropy", factor=c, transform=t)(w.x), w.loader_spec(nb, B, X, Y3, c.p, ce))
    f.__name__ = f"loader_operator_{form}"
    return f


for _f in FORMS:
    spec("C24", OPERATOR + ["laplax.util.loader.DataLoaderMV.__call__", "laplax.util.loader.process_batches", "laplax.util.loader.reduce_add"],
         f"GGN on a loader of any number of {_f} batches of any sizes: factor * the sum of J^T H J over every batch once")(loader_body(_f))


@spec("C24", OPERATOR, "a malformed batch, alone or first of a loader, is rejected with a value error")
def malformed(v):
    w = World(v)
    x, y = w.batch(v.size("N"))
    g = v["api.GGN"]
    bad = {"one entry": (x,), "three entries": (x, y, y), "no entry": (), "list of one": [x], "list of three": [x, y, x], "no target": {"input": x},
           "no input": {"target": y}, "other keys": {"inputs": x, "targets": y}, "empty mapping": {}}
    for nm, b in bad.items():
        v.raises(nm, ValueError, lambda: g(w.model, w.p, b, "mse"))
        v.raises(f"loader, {nm}", ValueError, lambda: g(w.model, w.p, Few(b), "mse"))
    for b in (3, None, "ab", x):
        v.raises(f"loader of {type(b).__name__}", ValueError, lambda: g(w.model, w.p, Few(b), "mse"))
    v.raises("a number", ValueError, lambda: g(w.model, w.p, 3, "mse"))


def rows(v, kind, log, n):
    """Arbitrary functions in the five tables under a built-in type, which record their calls."""
    mod = v.mod("curv.cov")
    state = {"s": v.arr("st", (n,))}
    fns = {
        "CURVATURE_METHODS": lambda mv, *a, **k: log.append(("estimate", mv, a, k)) or SymArray.make((n,), lambda i: T.app("est", i)),
        "CURVATURE_PRECISION_METHODS": lambda *a, **k: log.append(("precision", a, k)) or SymArray.make((n,), lambda i: T.app("prec", i)),
        "CURVATURE_TO_POSTERIOR_STATE": lambda p: log.append(("state", p)) or state,
        "CURVATURE_STATE_TO_SCALE": lambda s: lambda x: SymArray.make((n,), lambda i: T.bigsum(n, lambda j: T.app("SC", i, j) * s["s"].el(j) * x.el(j))),
        "CURVATURE_STATE_TO_COV": lambda s: lambda x: SymArray.make((n,), lambda i: T.bigsum(n, lambda j: T.app("CV", i, j) * s["s"].el(j) * x.el(j))),
    }
    for t in TABLES:
        tab = getattr(mod, t)
        for k in list(tab):
            tab[k] = fns[t] if k == kind else lambda *a, **k: (_ for _ in ()).throw(AssertionError("wrong curvature type used"))
    return fns, state


def spellings(m):
    s = m.value
    return [m, s, s.upper(), s.title(), "".join(c.upper() if i % 2 else c for i, c in enumerate(s))]


def named(args, kw, names):
    out = dict(zip(names, args))
    v = dict(kw)
    v.update(out)
    return v


@spec("C24", [A + "laplace"] + OPERATOR, "laplace: for the requested type (any functions in its tables), the estimate of the operator scaled by total over curvature samples with all options, "
      "and the posterior function of that estimate")
def fit(v):
    w = World(v)
    n = v.size("N")
    x, y = w.batch(n)
    P = v.treesize(w.td)
    f = v["api.laplace"]
    nt, nc = v.int("T", 1), v.int("Q", 1)
    opt = object()
    En = v.mod("enums").CurvApprox
    LL = T.lam([w.td.n], lambda l: v.leafsize(w.td, l))
    kinds = list(En)
    v.true("four types", len(kinds) == 4)
    for q, kind in enumerate(kinds):
        log = []
        fns, state = rows(v, kind, log, P)
        sp = spellings(kind)
        for form in ("tuple", "mapping"):
            data = FORMS[form](x, y)
            for counts, s in (({}, T.PONE), ({"num_curv_samples": nc, "num_total_samples": nt}, nt.p / nc.p), ({"num_total_samples": nt}, nt.p), ({"num_curv_samples": nc}, 1 / nc.p)):
                log.clear()
                name = sp[(q + len(counts) + (form == "tuple")) % len(sp)]
                tag = f"{kind.value}, {form}, {'/'.join(counts) or 'no counts'}"
                pf, est = f(w.model, w.p, data, loss_fn="mse", curv_type=name, **counts, maxiter=opt)
                v.true(f"{tag}: one estimate", [e[0] for e in log] == ["estimate"])
                kw = named(log[0][2], log[0][3], ("layout",))
                v.true(f"{tag}: parameters as layout, all options", kw.get("layout") is w.p and kw.get("maxiter") is opt and set(kw) == {"layout", "maxiter"})
                v.eq(f"{tag}: operator", log[0][1](w.x), w.spec(n, x, y, s))
                v.eq(f"{tag}: estimate returned", est, SymArray.make((P,), lambda i: T.app("est", i)))
                prior, lsf = {"prior_prec": v.real("delta", pos=True)}, v.real("lsf", pos=True)
                log.clear()
                post = pf(prior, lsf)
                v.true(f"{tag}: precision, then state", [e[0] for e in log] == ["precision", "state"])
                got = named(log[0][1], log[0][2], ("curv_estimate", "prior_arguments", "loss_scaling_factor"))
                v.true(f"{tag}: prior and scaling handed on", got["prior_arguments"]["prior_prec"] is prior["prior_prec"] and got["loss_scaling_factor"] is lsf)
                v.eq(f"{tag}: precision of the estimate", got["curv_estimate"], est)
                v.true(f"{tag}: posterior state", post.state is state)
                flat = fns["CURVATURE_STATE_TO_COV"](state)(v.flat(w.td, w.x))
                v.eq(f"{tag}: covariance on parameter trees", post.cov_mv(post.state)(w.x), SymTree.make(w.td, lambda l: SymArray.make((v.leafblock(w.td, l),), lambda i: flat.el(C.offset(LL, l) + i))))
    log = []
    rows(v, En.FULL, log, P)
    f(w.model, w.p, (x, y), loss_fn="mse", curv_type="full", curv_mv_jit=True, num_curv_samples=nc, num_total_samples=nt)
    v.eq("compiled operator", log[0][1](w.x), w.spec(n, x, y, nt.p / nc.p))
    log.clear()
    f(w.model, w.p, (x, y), loss_fn="cross_entropy", curv_type="full")
    v.eq("the given loss", log[0][1](w.x), w.spec(n, x, y, T.PONE, losses(v)["cross_entropy"]))
    for bad in ("nothing", "", "fulls", "ggn"):
        v.raises(f"unknown type {bad!r}", ValueError, lambda: f(w.model, w.p, (x, y), loss_fn="mse", curv_type=bad))


@spec("C24", [A + "laplace"] + OPERATOR, "laplace on a loader: the estimate of the summed operator")
def fit_loader(v):
    w = World(v)
    nb, B, X, Y, data = w.loader(FORMS["tuple"])
    nt, nc = v.int("T", 1), v.int("Q", 1)
    log = []
    rows(v, "full", log, v.treesize(w.td))
    v["api.laplace"](w.model, w.p, data, loss_fn="mse", curv_type="full", num_curv_samples=nc, num_total_samples=nt)
    v.eq("operator", log[0][1](w.x), w.loader_spec(nb, B, X, Y, nt.p / nc.p))
    log.clear()
    up = lambda a: SymArray.make((T.PONE,) + tuple(a.dims), lambda s, *i: a.el(*i))
    x1, y1 = v.arr("x1", (w.d,)), v.arr("y1", (w.k,))
    v["api.laplace"](w.model, w.p, (x1, y1), loss_fn="mse", curv_type="full", vmap_over_data=False)
    v.eq("unmapped operator", log[0][1](w.x), w.spec(T.PONE, up(x1), up(y1), T.PONE))


@spec("C24", [A + "_convert_to_enum"], "members and names of any case stand for the member; anything else is a value error (or handed back where a default is asked for)")
def options(v):
    E_ = v.mod("enums")
    f = v["api._convert_to_enum"]
    ok, bad, back = [], [], []
    for cls in (E_.CurvApprox, E_.Pushforward, E_.Predictive, E_.CalibrationObjective, E_.CalibrationMethod, E_.DefaultMetrics, E_.LossFn):
        for m in cls:
            s = m.value
            cases = itertools.product(*[sorted({c, c.upper()}) for c in s]) if len(s) <= 10 else (
                [c.upper() if (k >> (i % 11)) & 1 else c for i, c in enumerate(s)] for k in range(2 ** 11))
            ok.append(f(cls, m) is m)
            ok += [f(cls, "".join(c)) is m for c in cases]
            for t in (s + " ", " " + s, s[1:], s + s, s.replace("_", "-") + "-", "", "no such option"):
                try:
                    bad.append(not f(cls, t))
                except ValueError:
                    bad.append(True)
                back.append(f(cls, t, str_default=True) == t)
    v.true("every spelling of every option", all(ok) and len(ok) > 5000, f"{sum(not o for o in ok)} fail")
    v.true("anything else is rejected", all(bad))
    v.true("anything else is handed back where asked for", all(back))


# ------------------------------------------------------------------ calibration and evaluation
ORCH = [A + n for n in ("calibration", "_setup_pushforward", "_build_calibration_objective", "_make_nll_objective", "_make_chi2_objective", "_make_ece_objective",
                        "_make_mll_objective", "nll_gaussian_classification", "get_pred_act", "_convert_to_enum", "_validate_and_get_transform", "_check_if_none")]
EVAL = [A + n for n in ("evaluation", "_resolve_metrics", "_setup_pushforward", "get_pred_act", "_convert_to_enum", "_validate_and_get_transform", "_is_data_loader")]
SPECIAL = ("laplace_bridge", "mean_field_0", "mean_field_1", "mean_field_2")


class Case:
    """A model, a posterior, data, and the reference predictive of a pushforward / predictive pair."""

    def __init__(self, v, cls):
        self.s = s = c18.Setup(v)
        self.v, self.cls = v, cls
        self.K = s.dims[0]
        self.n = v.size("Npts")
        self.D = s.x.dims[0]
        self.x = v.arr("X", (self.n, self.D))
        self.y = v.arr("Y", (self.n,), sort="i") if cls else v.arr("Y", (self.n, self.K))
        self.ns = mknum(s.n)
        self.opts = dict(sample_key=s.key, num_samples=self.ns)

        def scaled(op):
            """The posterior depends on the prior arguments it was asked for."""
            def from_state(prior):
                c = prior["prior_prec"] if isinstance(prior, dict) and "prior_prec" in prior else 0
                return lambda x: v.jax.tree.map(lambda leaf: c * leaf, op(x))
            return from_state
        post = v.mod("curv.cov").Posterior
        s.posterior_fn = lambda prior_arguments, loss_scaling_factor=1.0: post(state=prior_arguments, cov_mv=scaled(s.sigma), scale_mv=scaled(s.S))

    def steps(self, push, pred):
        PF, E_ = self.v.mod("eval.pushforward"), self.v.mod("enums")

        def act(results, aux, **kw):
            for k in ("mc_pred_act", "special_pred_act"):
                if k in results:
                    results["pred_act"] = results[k]
            return results, aux
        if push == "linear":
            fns = [PF.lin_setup, PF.lin_pred_mean, PF.lin_pred_std]
            if pred == "mc_bridge":
                fns.append(PF.lin_mc_pred_act)
            elif pred in SPECIAL:
                fns.append(lambda **k: PF.lin_special_pred_act(special_pred_type=E_.Predictive(pred), **k))
            return PF.set_lin_pushforward, [*fns, act]
        fns = [PF.nonlin_setup, PF.nonlin_pred_mean, PF.nonlin_pred_std]
        if pred == "mc_bridge":
            fns.append(PF.nonlin_mc_pred_act)
        return PF.set_nonlin_pushforward, [*fns, act]

    def reference(self, push, pred, own=None):
        setter, fns = self.steps(push, pred)
        s = self.s
        return lambda prior_arguments: setter(s.model, s.mean, s.posterior_fn, prior_arguments=prior_arguments, pushforward_fns=fns if own is None else own, key=s.key, num_samples=self.ns)

    def onehot(self, y):
        """Class indicator rows."""
        return self.v.jax.nn.one_hot(y, num_classes=mknum(self.K))


def stack(v, n, at):
    """Stack the entries of at(i), i < n."""
    return {k: SymArray.make((n,) + tuple(a.dims), lambda i, *o, k=k: at(i)[k].el(*o)) for k, a in at(T.ZERO).items()}


PAIRS = [("linear", "none"), ("nonlinear", "none"), ("linear", "mc_bridge"), ("nonlinear", "mc_bridge"), *[("linear", q) for q in SPECIAL]]


def calibrate_body(push, pred):
    def f(v):
        cls = pred != "none"
        c = Case(v, cls)
        s = c.s
        api, E_, ev, me = v.mod("api"), v.mod("enums"), v.mod("eval.calibrate"), v.mod("eval.metrics")
        P = v.treesize(s.td)
        est = v.arr("est", (P,), pos=True)
        calls = []
        sentinel = v.real("chosen", pos=True)
        api.calibration_options[E_.CalibrationMethod.GRID_SEARCH] = lambda **k: calls.append(k) or sentinel
        q = 0
        lo, hi, size, pat = v.real("lo"), v.real("hi"), v.int("G", 1), v.int("pat", 1)
        prior = {"prior_prec": v.real("delta2", pos=True)}
        ref = c.reference(push, pred)
        loss = "cross_entropy" if cls else "mse"
        ece, errors = v.real("ece"), []         # the calibration error (C22) is a stand-in here

        def error(confidence, correctness, num_bins=None, **k):
            errors.append((confidence, correctness, num_bins))
            return ece
        everywhere(v, me.expected_calibration_error, error)
        for obj in E_.CalibrationObjective:
            name = obj.value
            common = dict(loss_fn=loss, curv_estimate=est, curv_type="diagonal", predictive_type=spellings(E_.Predictive(pred))[q % 5], pushforward_type=spellings(E_.Pushforward(push))[(q + 1) % 5],
                          calibration_objective=spellings(obj)[(q + 2) % 5], calibration_method=spellings(E_.CalibrationMethod.GRID_SEARCH)[q % 5], **c.opts)
            q += 1
            go = lambda data=None, **k: api.calibration(s.posterior_fn, s.model, s.mean, (c.x, c.y) if data is None else data, **{**common, **k})
            if name == ("chi_squared" if cls else "ece"):
                v.raises(f"{name} is rejected", ValueError, go)
                continue
            if name == "marginal_log_likelihood" and cls:
                continue
            outs = []
            for data, jit, extra in (((c.x, c.y), True, {}), ({"input": c.x, "target": c.y}, False, dict(log_prior_prec_min=lo, log_prior_prec_max=hi, grid_size=size, patience=pat))):
                calls.clear()
                res, spp = go(data, objective_jit=jit, **extra)
                tag = f"{name}, {'tuple' if jit else 'mapping'}"
                v.true(f"{tag}: one search, its result returned", len(calls) == 1 and set(res) == {"prior_prec"} and res["prior_prec"] is sentinel)
                k = calls[0]
                v.true(f"{tag}: only the objective, the grid and the patience", set(k) == {"objective", "log_prior_prec_min", "log_prior_prec_max", "grid_size", "patience"}, f"{sorted(k)}")
                for a, d in (("log_prior_prec_min", -3.0), ("log_prior_prec_max", 3.0), ("grid_size", 50), ("patience", None)):
                    v.true(f"{tag}: {a}", k[a] is extra[a] if extra else k[a] == d, f"{k[a]}")
                outs.append(k["objective"](prior))
            if name == "marginal_log_likelihood":
                want = -v["eval.likelihood.marginal_log_likelihood"](est, prior, {"input": c.x, "target": c.y}, s.model, s.mean, "mse", "diagonal", vmap_over_data=True)
            else:
                pts = stack(v, c.n, lambda i: ref(prior)(SymArray.make((c.D,), lambda j: c.x.el(i, j))))
                if name == "nll":
                    want = me.nll_gaussian(pts["pred_mean"], pts["pred_std"], c.onehot(c.y) if cls else c.y)
                elif name == "chi_squared":
                    want = me.chi_squared_zero(pred_mean=pts["pred_mean"], pred_std=pts["pred_std"], target=c.y)
                else:
                    v.true("ece: one error with 15 bins per evaluation", len(errors) == 2 and all(b == 15 for _, _, b in errors))
                    for conf, cor, _ in errors:
                        v.eq("ece: confidence of the activated prediction", conf, v.jnp.max(pts["pred_act"], axis=-1))
                        v.eq("ece: correctness of the MAP prediction", cor, me.correctness(pts["map"], c.y) * 1)
                    want = ece
            for o, t in zip(outs, ("tuple", "mapping")):
                v.eq(f"{name}, {t}: objective", o, want)
            if name == "marginal_log_likelihood":       # one observation, or a model that takes the whole batch
                row = lambda a: SymArray.make(a.dims[1:], lambda *j: a.el(T.ZERO, *j))
                for jit in (True, False):
                    calls.clear()
                    go((row(c.x), row(c.y)), vmap_over_data=False, objective_jit=jit)
                    v.eq(f"{name}, not mapped over the data: objective", calls[0]["objective"](prior),
                         -v["eval.likelihood.marginal_log_likelihood"](est, prior, {"input": row(c.x), "target": row(c.y)}, s.model, s.mean, "mse", "diagonal", vmap_over_data=False))
            v.eq(f"{name}: predictive handed back", spp(prior_arguments=prior)(s.x), ref(prior)(s.x))
    f.__name__ = f"calibrate_{push}_{pred}"
    return f


for _a, _b in PAIRS:
    spec("C24", ORCH, f"calibration ({_a}, {_b}): the selected search gets the selected objective of the data, the grid and the patience; its result is returned")(calibrate_body(_a, _b))


def reg_metrics(v):
    me = v.mod("eval.metrics")
    return lambda o, y: {"rmse": me.estimate_rmse(pred_mean=o["pred_mean"], target=y), "chi^2": me.chi_squared(pred_mean=o["pred_mean"], pred_std=o["pred_std"], target=y),
                         "nll": me.nll_gaussian(pred_mean=o["pred_mean"], pred_std=o["pred_std"], target=y), "crps": me.crps_gaussian(pred_mean=o["pred_mean"], pred_std=o["pred_std"], target=y)}


def cls_metrics(v, c):
    me, jnp = v.mod("eval.metrics"), v.jnp
    return lambda o, y: {"confidences_map": jnp.max(v.jax.nn.softmax(o["map"], axis=-1), axis=-1), "confidences_pred": jnp.max(o["pred_act"], axis=-1),
                         "correctness_map": me.correctness(o["map"], y) * 1, "correctness_pred": me.correctness(o["pred_mean"], y) * 1,
                         "nll_gaussian": me.nll_gaussian(o["pred_mean"], o["pred_std"], c.onehot(y))}


def evaluate_body(push, pred):
    def f(v):
        cls = pred != "none"
        c = Case(v, cls)
        s = c.s
        api, E_ = v.mod("api"), v.mod("enums")
        prior = {"prior_prec": v.real("delta2", pos=True)}
        ref = c.reference(push, pred)
        Z = v.fn("Z", ())
        own = v["eval.utils.apply_fns"](lambda a, b: Z(a, b), names=["own"], a="pred_std", b="target")
        own_want = lambda o, y: {"own": Z(o["pred_std"], y)}
        std, want_std = (E_.DefaultMetrics.CLASSIFICATION, cls_metrics(v, c)) if cls else (E_.DefaultMetrics.REGRESSION, reg_metrics(v))
        xi = lambda i: SymArray.make((c.D,), lambda j: c.x.el(i, j))
        yi = lambda i: SymArray.make(c.y.dims[1:], lambda *j: c.y.el(i, *j))
        go = lambda data, **k: api.evaluation(s.posterior_fn, s.model, s.mean, prior, data, **{"predictive_type": E_.Predictive(pred), "pushforward_type": E_.Pushforward(push), **c.opts, **k})
        R = v.fn("R", ())
        keep = list(v.mod("eval.metrics").DEFAULT_REGRESSION_METRICS)
        for nm, metrics, want in (("default", std, want_std), ("one callable", own, own_want), ("list", [own], own_want)):
            exp = stack(v, c.n, lambda i: want(ref(prior)(xi(i)), yi(i)))
            for q, data in enumerate(((c.x, c.y), {"target": c.y, "input": c.x})):
                form = ("tuple", "mapping")[q]
                res, pp = go(data, metrics=metrics, predictive_jit=bool(q))
                v.eq(f"{nm}, {form}", res, exp)
                if nm != "default":
                    res, _ = go(data, metrics=metrics, reduce=lambda a: {"reduced": R(a)})
                    v.eq(f"{nm}, {form}: reduced", res, {k: {"reduced": R(a)} for k, a in exp.items()})
            if nm == "list":
                v.true("the caller's list is unchanged", len(metrics) == 1 and metrics[0] is own)
        v.eq("predictive handed back", pp(s.x), ref(prior)(s.x))
        if cls:
            return
        v.eq("regression is the default", go((c.x, c.y))[0], stack(v, c.n, lambda i: want_std(ref(prior)(xi(i)), yi(i))))
        v.true("the default metrics are unchanged", len(keep) == len(v.mod("eval.metrics").DEFAULT_REGRESSION_METRICS) and all(a is b for a, b in zip(keep, v.mod("eval.metrics").DEFAULT_REGRESSION_METRICS)))
    f.__name__ = f"evaluate_{push}_{pred}"
    return f


for _a, _b in PAIRS:
    spec("C24", EVAL, f"evaluation ({_a}, {_b}) of tuple and mapping data of any size: the selected metrics of the selected predictive at every point, reduced as asked")(evaluate_body(_a, _b))


def stream_body(form, once):
    def f(v):
        c = Case(v, False)
        s, td = c.s, c.s.td
        api = v.mod("api")
        T.R.pos.add("B")
        nb = v.size("nb")
        B = lambda b: T.app("B", b, sort="i")
        X = lambda b: SymArray.make((B(b), c.D), lambda i, j: T.app("xb", b, i, j))
        Y = lambda b: SymArray.make((B(b), c.K), lambda i, j: T.app("yb", b, i, j))
        mk = lambda: Loader(nb, lambda b: FORMS[form](X(b), Y(b)))
        prior = {"prior_prec": v.real("delta2", pos=True)}
        G = v.fn("G", (c.K,))
        push = lambda results, aux, **kw: ({**results, "pred_mean": G(kw["input"])}, aux)
        Z, R = v.fn("Z", ()), v.fn("R", ())
        own = v["eval.utils.apply_fns"](lambda a, b: Z(a, b), names=["own"], a="pred_mean", b="target")
        LB = T.lam([nb], lambda b: B(b))
        total = T.bigsum(nb, lambda b: B(b))

        def el(p):
            b = C.find(LB, p)
            i = p - C.offset(LB, b)
            return Z(SymArray.make((c.K,), lambda o: G(SymArray.make((c.D,), lambda j: T.app("xb", b, i, j))).el(o)), SymArray.make((c.K,), lambda o: T.app("yb", b, i, o))).item_poly()
        exp = SymArray.make((total,), el)
        go = lambda data, **k: api.evaluation(s.posterior_fn, s.model, s.mean, prior, data, metrics=[own], pushforward_fns=[push], **c.opts, **k)[0]
        loader = mk()
        data = (lambda: iter(mk())) if once else (lambda: loader)
        v.eq("every point of every batch, in order", go(data()), {"own": exp})
        v.eq("again", go(data(), predictive_jit=False), {"own": exp})
        v.eq("reduced", go(data(), reduce=lambda a: {"reduced": R(a)}), {"own": {"reduced": R(exp)}})
    f.__name__ = f"stream_{form}_{'iterator' if once else 'loader'}"
    return f


for _f in FORMS:
    for _o in (False, True):
        spec("C24", EVAL, f"evaluation of a {'one-shot iterator' if _o else 'loader'} of any number of {_f} batches of any sizes: the metrics at every point of every batch once")(stream_body(_f, _o))


@spec("C24", EVAL + ORCH, "given pushforward functions are used as they are; unsupported selections, unknown names and empty metric lists are value errors")
def selections(v):
    c = Case(v, False)
    s = c.s
    api, E_ = v.mod("api"), v.mod("enums")
    prior = {"prior_prec": v.real("delta2", pos=True)}
    G = v.fn("G", (c.K,))
    fns = [lambda results, aux, **kw: ({**results, "pred_mean": G(kw["input"]), "pred_std": v.jnp.exp(G(kw["input"]))}, aux)]
    own = list(fns)
    go = lambda **k: api.evaluation(s.posterior_fn, s.model, s.mean, prior, (c.x, c.y), **{**c.opts, **k})
    for push in ("linear", "nonlinear"):
        for pred in ("none", "mc_bridge", "laplace_bridge"):
            if push == "nonlinear" and pred == "laplace_bridge":
                continue
            _, pp = go(pushforward_type=push, predictive_type=pred, pushforward_fns=own)
            v.eq(f"{push}, {pred}: only the given functions", pp(s.x), {"map": s.F(s.x, s.mean), "pred_mean": G(s.x), "pred_std": v.jnp.exp(G(s.x))})
            v.true(f"{push}, {pred}: the given list is unchanged", len(own) == 1 and own[0] is fns[0])
    for q in SPECIAL:
        v.raises(f"nonlinear {q}", ValueError, lambda: go(pushforward_type="nonlinear", predictive_type=q))
    for bad in ({"pushforward_type": "nothing"}, {"predictive_type": "nothing"}, {"metrics": "nothing"}, {"metrics": []}, {"metrics": ()}, {"metrics": None}, {"metrics": 3}, {"metrics": {}}):
        v.raises(f"{bad}", ValueError, lambda: go(**bad))
    x, y = c.x, c.y
    for nm, b in {"one entry": (x,), "three entries": (x, y, y), "list of one": [x], "no target": {"input": x}, "no input": {"target": y}, "a number": 3}.items():
        v.raises(f"data: {nm}", ValueError, lambda: api.evaluation(s.posterior_fn, s.model, s.mean, prior, b, **c.opts))
        if nm != "a number":
            v.raises(f"calibration data: {nm}", ValueError, lambda: api.calibration(s.posterior_fn, s.model, s.mean, b, loss_fn="mse", curv_estimate=x, curv_type="diagonal"))
    cal = lambda **k: api.calibration(s.posterior_fn, s.model, s.mean, (c.x, c.y), **{**dict(loss_fn="mse", curv_estimate=c.x, curv_type="diagonal"), **c.opts, **k})
    for bad in ({"calibration_objective": "nothing"}, {"calibration_method": "nothing"}, {"pushforward_type": "nothing"}, {"predictive_type": "nothing"}):
        v.raises(f"calibration {bad}", ValueError, lambda: cal(**bad))
    v.raises("no curvature estimate for the evidence", ValueError, lambda: cal(calibration_objective="marginal_log_likelihood", curv_estimate=None))


@spec("C24", ORCH, "a registered calibration method gets the objective, the data as a mapping and exactly the given options; its result is returned as it is")
def registered_method(v):
    c = Case(v, False)
    s = c.s
    api = v.mod("api")
    prior = {"prior_prec": v.real("delta2", pos=True)}
    result, opt = object(), object()
    x, y = c.x, c.y
    for name in ("mine", "Mine"):
        calls = []
        v["register.register_calibration_method"](name, lambda **k: calls.append(k) or result)
        for jit in (True, False):
            for data in ((x, y), {"input": x, "target": y}):
                calls.clear()
                res, spp = api.calibration(s.posterior_fn, s.model, s.mean, data, loss_fn="mse", curv_estimate=x, curv_type="diagonal", calibration_method=name, calibration_objective="chi_squared",
                                           objective_jit=jit, option=opt, grid_size=9, **c.opts)
                tag = f"{name}, {jit}, {type(data).__name__}"
                v.true(f"{tag}: once, with exactly the options", len(calls) == 1 and set(calls[0]) == {"objective", "data", "option", "grid_size"} and calls[0]["option"] is opt and calls[0]["grid_size"] == 9)
                v.true(f"{tag}: its result", res is result)
                v.eq(f"{tag}: the data", calls[0]["data"], {"input": x, "target": y})
                ref = c.reference("linear", "none")
                pts = stack(v, c.n, lambda i: ref(prior)(SymArray.make((c.D,), lambda j: x.el(i, j))))
                v.eq(f"{tag}: the objective", calls[0]["objective"](prior, calls[0]["data"]), v["eval.metrics.chi_squared_zero"](pred_mean=pts["pred_mean"], pred_std=pts["pred_std"], target=y))


@spec("C24", ["laplax.eval.calibrate.evaluate_for_given_prior_arguments"], "the metric of the stacked predictions and targets of every point, for any predictive, metric and batch size")
def objective_value(v):
    n, d, k = v.size("N"), v.size("D"), v.size("K")
    x, y = v.arr("X", (n, d)), v.arr("Y", (n, k))
    M, S, Z = v.fn("M", (k,)), v.fn("S", (k,)), v.fn("Z", ())
    prior = {"prior_prec": v.real("delta", pos=True)}
    seen = []

    def setter(**kw):
        seen.append(kw)
        return lambda inp: {"pred_mean": M(inp), "pred_std": S(inp)}
    at = lambda i: SymArray.make((d,), lambda j: x.el(i, j))
    st = lambda F: SymArray.make((n, k), lambda i, o: F(at(i)).el(o))
    f = v["eval.calibrate.evaluate_for_given_prior_arguments"]
    for kw in ({}, {"data_batch_size": v.int("bs", 1)}, {"evaluate_for_given_prior_arguments_batch_size": v.int("bs", 1)}):
        seen.clear()
        got = f(data={"input": x, "target": y}, set_prob_predictive=setter, metric=lambda **e: Z(e["pred_mean"], e["pred_std"], e["target"]), prior_arguments=prior, **kw)
        v.eq(f"{sorted(kw)}", got, Z(st(M), st(S), y))
        v.true(f"{sorted(kw)}: the predictive of the given prior, once", len(seen) == 1 and seen[0].get("prior_arguments") is prior)
    v.eq("default metric", f(data={"input": x, "target": y}, set_prob_predictive=setter, prior_arguments=prior), v["eval.metrics.chi_squared_zero"](pred_mean=st(M), pred_std=st(S), target=y))
