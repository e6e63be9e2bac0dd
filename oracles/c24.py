from oracles.common import *
import itertools
import random as _random
from laplax import api
from laplax import enums as EN
from laplax.curv import cov as CO
from laplax.eval import likelihood as LK, metrics as ME, pushforward as PF
from oracles.c07 import problem as ggn_problem, ggn, HESS
from oracles.c16 import unflat_j

KINDS = ["ggn", "malformed", "laplace", "calibrate", "custom", "evaluate", "classify", "options", "stream"]
FIXED = [{"kind": k, "seed": s} for s in range(8) for k in KINDS if s < {"classify": 6, "calibrate": 8, "evaluate": 6, "laplace": 3, "ggn": 3}.get(k, 1)]
random_case = pick(KINDS)


def forms(X, Y, sizes):
    """The same points as tuple, mapping and loaders of batches of the given sizes."""
    cut = np.cumsum(sizes)[:-1]
    parts = list(zip(np.split(np.asarray(X), cut), np.split(np.asarray(Y), cut)))
    tb = [(jnp.asarray(a), jnp.asarray(b)) for a, b in parts]

    class Loader:
        def __init__(self, bs):
            self.bs = bs

        def __iter__(self):
            return iter(self.bs)
    return {"tuple": (X, Y), "mapping": {"input": X, "target": Y, "extra": jnp.zeros(len(X))} if len(sizes) % 2 else {"input": X, "target": Y},
            "tuple loader": Loader(tb), "list loader": Loader([list(b) for b in tb]), "mapping loader": Loader([{"input": a, "target": b} for a, b in tb])}


def spell(r, e):
    return [e, e.value, e.value.upper(), e.value.title()][r.randint(4)]


def make_sizes(r, n):
    out = []
    while sum(out) < n:
        out.append(int(r.randint(1, n - sum(out) + 1)))
    return out


def check_ggn(c, r):
    n, d, k, p, f, X, Y = ggn_problem(r)
    v = unflat(p, r.normal(size=size(p)))
    loss = ["mse", "cross_entropy", EN.LossFn.MSE][r.randint(3)]
    if loss == "cross_entropy":
        Y = jnp.asarray(r.randint(k, size=n))
    fac = float(r.uniform(0.2, 3))
    H = HESS[str(getattr(loss, "value", loss))]
    G = ggn(p, f, X, Y if Y.ndim > 1 else Y[:, None], H) * fac
    for nm, data in list(forms(X, Y, make_sizes(r, n)).items())[c["seed"] % 2::2]:
        mv = api.GGN(f, p, data, loss, factor=fac, verbose_logging=False)
        for rep in range(2):
            tree_close(mv(v), unflat(p, G @ flat(v)), f"{nm} call {rep}")
    swapped = api.GGN(f, p, (Y, X), loss, factor=fac, transform=lambda b: {"input": b[1], "target": b[0]})
    tree_close(swapped(v), unflat(p, G @ flat(v)), "given transform, batch")
    swapped = api.GGN(f, p, forms(Y, X, make_sizes(r, n))["tuple loader"], loss, factor=fac, transform=lambda b: {"input": b[1], "target": b[0]}, verbose_logging=False)
    tree_close(swapped(v), unflat(p, G @ flat(v)), "given transform, loader")
    if np.ndim(Y[0]) and loss != "cross_entropy":
        one = api.GGN(f, p, (X[0], Y[0]), loss, vmap_over_data=False)
        tree_close(one(v), unflat(p, ggn(p, f, X[:1], Y[:1], H) @ flat(v)), "single point")
    tree_close(api.GGN(f, p, (X, Y), loss)(v), unflat(p, G / fac @ flat(v)), "default factor")


def check_malformed(c, r):
    n, d, k, p, f, X, Y = ggn_problem(r)
    bad = [(X,), (X, Y, Y), [X], {"input": X}, {"target": Y}, {"x": X, "y": Y}, {}, (), 3, None, "ab"]
    for b in bad:
        if b is not None and not isinstance(b, (int, str)):
            raises(ValueError, lambda: api.GGN(f, p, b, "mse"), f"batch {type(b).__name__} of {len(b)}")
        if b != 3 or True:
            class L:
                def __iter__(self):
                    return iter([b])
            raises(ValueError, lambda: api.GGN(f, p, L(), "mse", verbose_logging=False), f"loader of {type(b).__name__}")
    raises(ValueError, lambda: api.GGN(f, p, 3, "mse"), "a number")


def setting(r, out=None, shape=None):
    """A small model and an exact quadratic-type posterior."""
    d, k = int(r.randint(1, 4)), int(r.randint(2, 4)) if out is None else out
    p = {"W": jnp.asarray(r.normal(size=(d, k))), "b": jnp.asarray(r.normal(size=k))}
    f = lambda input, params: jnp.tanh(input @ params["W"]) + params["b"]
    n = int(r.randint(2, 6))
    X, Y = jnp.asarray(r.normal(size=(n, d))), jnp.asarray(r.normal(size=(n, k)))
    return p, f, X, Y


def check_laplace(c, r):
    p, f, X, Y = setting(r)
    G = ggn(p, f, X, Y, HESS["mse"])
    P = len(G)
    nc, nt = int(r.randint(1, 9)), int(r.randint(1, 9))
    kind = [EN.CurvApprox.FULL, EN.CurvApprox.DIAGONAL][r.randint(2)]
    kw = dict(loss_fn="mse", curv_type=spell(r, kind))
    x = unflat(p, r.normal(size=P))
    delta, lsf = float(r.uniform(0.5, 2)), float(r.uniform(0.5, 2))
    for nm, data in forms(X, Y, make_sizes(r, len(X))).items():
        if "loader" in nm and r.randint(3):
            continue
        for counts, s in (({}, 1.0), (dict(num_curv_samples=nc, num_total_samples=nt), nt / nc))[r.randint(2):]:
            pf, est = api.laplace(f, p, data, **kw, **counts)
            M = s * G if kind == "full" else np.diag(np.diag(s * G))
            close(est, M if kind == "full" else np.diag(M), f"{nm} {counts}: estimate")
            post = pf({"prior_prec": delta}, lsf)
            cov = np.linalg.inv((M + delta * np.eye(P)) / lsf) if kind == "full" else np.linalg.inv((M + delta * np.eye(P)) / lsf)
            tree_close(post.cov_mv(post.state)(x), unflat(p, cov @ flat(x)), f"{nm} {counts}: covariance", tol=1e-6)
    pf, est = api.laplace(f, p, (X, Y), curv_mv_jit=True, **kw)
    close(est, G if kind == "full" else np.diag(G), "compiled operator")
    lr = EN.CurvApprox.LANCZOS
    pf, est = api.laplace(f, p, (X, Y), loss_fn="mse", curv_type=spell(r, lr), rank=P, key=jax.random.key(1), num_curv_samples=nc, num_total_samples=nt)
    ev = np.linalg.eigvalsh(G * nt / nc)
    got = np.asarray(est.U) @ np.diag(np.asarray(est.S)) @ np.asarray(est.U).T
    keep = min(P, len(est.S))
    assert got.shape == G.shape, got.shape
    close(np.max(np.linalg.eigvalsh(got)), ev[-1], "Lanczos: largest eigenvalue", tol=1e-4)
    raises(ValueError, lambda: api.laplace(f, p, (X, Y), loss_fn="mse", curv_type="nothing"), "unknown curvature type")


OBJ = list(EN.CalibrationObjective)


def reference(objective, p, f, pf, est, kind, X, Y, pred_fns, prior, key, ns, pushf, loss, vmap=True):
    if objective is EN.CalibrationObjective.MARGINAL_LOG_LIKELIHOOD:
        return -LK.marginal_log_likelihood(est, prior, {"input": X, "target": Y}, f, p, loss, kind, vmap_over_data=vmap)
    pred = jax.jit(pushf(f, p, pf, prior_arguments=prior, pushforward_fns=pred_fns, key=key, num_samples=ns))
    outs = [pred(x) for x in X]
    st = {k: jnp.stack([o[k] for o in outs]) for k in outs[0]}
    cls = Y.ndim == 1
    if objective is EN.CalibrationObjective.NLL:
        T = np.eye(st["pred_mean"].shape[-1])[np.asarray(Y)] if cls else np.asarray(Y)
        m, s = np.asarray(st["pred_mean"]), np.asarray(st["pred_std"])
        return np.mean(0.5 * ((m - T) / s) ** 2 + np.log(s) + 0.5 * np.log(2 * np.pi))
    if objective is EN.CalibrationObjective.CHI_SQUARED:
        return np.abs(np.mean((np.asarray(st["pred_mean"]) - np.asarray(Y)) ** 2 / np.asarray(st["pred_std"]) ** 2) - 1)
    act, mp = np.asarray(st["pred_act"]), np.asarray(st["map"])
    return ece(act.max(-1), (mp.argmax(-1) == np.asarray(Y)).astype(float))


def ece(conf, cor, bins=15):
    tot, n = 0.0, len(conf)
    for b in range(bins):
        lo, hi = b / bins, (b + 1) / bins
        m = (conf > lo) & (conf <= hi)
        if m.any():
            tot += m.sum() / n * abs(cor[m].mean() - conf[m].mean())
    return tot


PRED = {EN.Predictive.MC_BRIDGE: [PF.lin_mc_pred_act], **{p: [lambda p=p, **k: PF.lin_special_pred_act(special_pred_type=p, **k)] for p in
        (EN.Predictive.LAPLACE_BRIDGE, EN.Predictive.MEAN_FIELD_0, EN.Predictive.MEAN_FIELD_1, EN.Predictive.MEAN_FIELD_2)}, EN.Predictive.NONE: []}


def act(results, aux, **kw):
    for k in ("mc_pred_act", "special_pred_act"):
        if k in results:
            results["pred_act"] = results[k]
    return results, aux


def steps(pushf, predictive):
    if pushf is EN.Pushforward.LINEAR:
        return PF.set_lin_pushforward, [PF.lin_setup, PF.lin_pred_mean, PF.lin_pred_std, *PRED[predictive], act]
    return PF.set_nonlin_pushforward, [PF.nonlin_setup, PF.nonlin_pred_mean, PF.nonlin_pred_std, *([PF.nonlin_mc_pred_act] if predictive is not EN.Predictive.NONE else []), act]


def legal(r, cls=None):
    """A supported pair of pushforward and predictive."""
    cls = bool(r.randint(2)) if cls is None else cls
    pushf = list(EN.Pushforward)[r.randint(2)]
    if not cls:
        return pushf, EN.Predictive.NONE
    if pushf is EN.Pushforward.NONLINEAR:
        return pushf, EN.Predictive.MC_BRIDGE
    return pushf, [p for p in EN.Predictive if p is not EN.Predictive.NONE][r.randint(5)]


def check_calibrate(c, r):
    p, f, X, Y = setting(r)
    pushf, predictive = legal(r, bool(c["seed"] % 2))
    cls = predictive is not EN.Predictive.NONE
    if cls:
        Y = jnp.asarray(r.randint(Y.shape[1], size=len(Y)))
    loss = "cross_entropy" if cls else "mse"
    kind = [EN.CurvApprox.FULL, EN.CurvApprox.DIAGONAL][r.randint(2)]
    pf, est = api.laplace(f, p, (X, Y), loss_fn=loss, curv_type=kind)
    key, ns = jax.random.key(int(r.randint(100))), int(r.randint(2, 6))
    setter, fns = steps(pushf, predictive)
    lo, hi, g = float(r.uniform(-2, 0)), float(r.uniform(0.5, 2)), int(r.randint(2, 5))
    grid = np.logspace(lo, hi, g)
    wrong = EN.CalibrationObjective.CHI_SQUARED if cls else EN.CalibrationObjective.ECE
    for objective in [[o for o in OBJ if o is not wrong][c["seed"] // 2 % 3], wrong]:
        if objective is (EN.CalibrationObjective.CHI_SQUARED if cls else EN.CalibrationObjective.ECE):
            raises(ValueError, lambda: api.calibration(pf, f, p, (X, Y), loss_fn=loss, curv_estimate=est, curv_type=kind, predictive_type=predictive, pushforward_type=pushf,
                                                       calibration_objective=objective), f"{objective.value} for the wrong task")
            continue
        if cls and objective is EN.CalibrationObjective.MARGINAL_LOG_LIKELIHOOD:
            continue        # the evidence takes losses of equal prediction and target shapes
        one = objective is EN.CalibrationObjective.MARGINAL_LOG_LIKELIHOOD and bool(r.randint(2))       # one observation, no batch axis
        xs, ys = (X[0], Y[0]) if one else (X, Y)
        want = [float(reference(objective, p, f, pf, est, kind, xs, ys, fns, {"prior_prec": a}, key, ns, setter, loss, not one)) for a in grid]
        data = (xs, ys) if r.randint(2) else {"input": xs, "target": ys}
        seen = {}

        def method(**kw):
            seen.update(kw)
            return [kw["objective"]({"prior_prec": jnp.asarray(a)}) for a in grid]
        real = api.calibration_options[EN.CalibrationMethod.GRID_SEARCH]
        opts = dict(loss_fn=loss, curv_estimate=est, curv_type=kind, predictive_type=spell(r, predictive), pushforward_type=spell(r, pushf), sample_key=key,
                    num_samples=ns, calibration_objective=spell(r, objective), calibration_method=spell(r, EN.CalibrationMethod.GRID_SEARCH), objective_jit=bool(r.randint(2)),
                    log_prior_prec_min=lo, log_prior_prec_max=hi, grid_size=g, **(dict(vmap_over_data=False) if one else {}))
        try:
            api.calibration_options[EN.CalibrationMethod.GRID_SEARCH] = method
            res, spp = api.calibration(pf, f, p, data, **opts)
        finally:
            api.calibration_options[EN.CalibrationMethod.GRID_SEARCH] = real
        tag = f"{objective.value} {predictive.value} {pushf.value}"
        assert set(res) == {"prior_prec"}, res
        close(np.asarray(res["prior_prec"]), want, f"{tag}: objective", tol=1e-5)
        for k, x in (("log_prior_prec_min", lo), ("log_prior_prec_max", hi), ("grid_size", g), ("patience", None)):
            assert seen.get(k) == x, f"{tag}: {k} = {seen.get(k)}"
        if objective is EN.CalibrationObjective.ECE:
            continue        # ties
        res, spp = api.calibration(pf, f, p, data, **opts)
        got = float(res["prior_prec"])
        assert any(abs(got / a - 1) < 1e-6 and w <= min(want) + 1e-6 * (1 + abs(min(want))) for a, w in zip(grid, want)), f"{tag}: chose {got} on {grid} {want}"
        out = spp(prior_arguments=res)(X[0])
        ref = setter(f, p, pf, prior_arguments=res, pushforward_fns=fns, key=key, num_samples=ns)(X[0])
        tree_close({k: out[k] for k in ref}, ref, f"{tag}: predictive", tol=1e-6)
    raises(ValueError, lambda: api.calibration(pf, f, p, (X, Y), loss_fn=loss, curv_estimate=est, curv_type=kind, calibration_method="nothing"), "unknown method")
    raises(ValueError, lambda: api.calibration(pf, f, p, (X, Y), loss_fn=loss, curv_estimate=est, curv_type=kind, calibration_objective="nothing"), "unknown objective")


def check_custom(c, r):
    """Registered calibration methods get the objective, the data and the options, and their result is returned."""
    p, f, X, Y = setting(r)
    pf, est = api.laplace(f, p, (X, Y), loss_fn="mse", curv_type="full")
    seen = {}
    ret = {"prior_prec": 3.0}
    before = dict(api.calibration_options)
    key = jax.random.key(3)
    try:
        name = ["Mine", "other"][r.randint(2)]
        api.calibration_options[name] = lambda **kw: seen.update(kw) or ret
        res, _ = api.calibration(pf, f, p, (X, Y), loss_fn="mse", curv_estimate=est, curv_type="full", calibration_method=name, sample_key=key, opt=5, objective_jit=bool(r.randint(2)))
    finally:
        api.calibration_options.clear()
        api.calibration_options.update(before)
    assert res is ret, res
    assert set(seen) == {"objective", "data", "opt"} and seen["opt"] == 5, sorted(seen)
    tree_close(seen["data"], {"input": X, "target": Y}, "data")
    setter, fns = steps(EN.Pushforward.LINEAR, EN.Predictive.NONE)
    want = reference(EN.CalibrationObjective.NLL, p, f, pf, est, "full", X, Y, fns, ret, key, 30, setter, "mse")
    close(seen["objective"]({"prior_prec": jnp.asarray(3.0)}, seen["data"]), want, "objective", tol=1e-5)


def check_evaluate(c, r):
    p, f, X, Y = setting(r)
    pushf = list(EN.Pushforward)[r.randint(2)]
    pf, est = api.laplace(f, p, (X, Y), loss_fn="mse", curv_type="full")
    key, ns = jax.random.key(int(r.randint(100))), int(r.randint(2, 6))
    setter, fns = steps(pushf, EN.Predictive.NONE)
    prior = {"prior_prec": float(r.uniform(0.5, 3))}
    pred = jax.jit(setter(f, p, pf, prior_arguments=prior, pushforward_fns=fns, key=key, num_samples=ns))
    outs = [pred(x) for x in X]
    reg = {"rmse": ME.estimate_rmse, "chi^2": ME.chi_squared, "nll": ME.nll_gaussian, "crps": ME.crps_gaussian}
    from laplax.eval.utils import apply_fns
    own = apply_fns(lambda m, t: jnp.sum(m * t), names=["own"], m="pred_mean", t="target")
    cases = [(spell(r, EN.DefaultMetrics.REGRESSION), reg), (None, reg), (own, {"own": lambda pred_mean, target, **k: jnp.sum(pred_mean * target)}),
             ([own], {"own": lambda pred_mean, target, **k: jnp.sum(pred_mean * target)})]
    red = [None, jnp.mean, lambda a: 2 * a]
    for metrics, want in [cases[c["seed"] % 4]]:
        exp = {k: np.stack([np.asarray(g(**o, target=y)) for o, y in zip(outs, Y)]) for k, g in want.items()}
        fm = forms(X, Y, make_sizes(r, len(X)))
        allf = [*fm, "iterator", "generator"]
        for nm in sorted({allf[c["seed"] % 2], allf[2 + c["seed"] % 5], "generator" if r.randint(2) else "iterator"}):
            reduce = red[r.randint(3)]
            data = fm[nm] if nm in fm else iter(fm["tuple loader"].bs) if nm == "iterator" else (b for b in fm["mapping loader"].bs)
            kw = {} if metrics is None else {"metrics": metrics}
            if reduce is not None:
                kw["reduce"] = reduce
            res, pp = api.evaluation(pf, f, p, prior, data, pushforward_type=spell(r, pushf), predictive_type=spell(r, EN.Predictive.NONE), sample_key=key, num_samples=ns, predictive_jit=bool(r.randint(2)), **kw)
            assert set(res) == set(exp), sorted(res)
            for k in exp:
                close(res[k], exp[k] if reduce is None else np.asarray(reduce(jnp.asarray(exp[k]))), f"{nm}: {k}", tol=1e-5)
            tree_close({k: pp(X[0])[k] for k in outs[0]}, outs[0], f"{nm}: predictive", tol=1e-6)


def check_classify(c, r):
    p, f, X, Y = setting(r)
    Y = jnp.asarray(r.randint(Y.shape[1], size=len(Y)))
    pushf, predictive = legal(r, True)
    pf, est = api.laplace(f, p, (X, Y), loss_fn="cross_entropy", curv_type="full")
    key, ns = jax.random.key(int(r.randint(100))), int(r.randint(2, 6))
    setter, fns = steps(pushf, predictive)
    prior = {"prior_prec": float(r.uniform(0.5, 3))}
    pred = jax.jit(setter(f, p, pf, prior_arguments=prior, pushforward_fns=fns, key=key, num_samples=ns))
    outs = [pred(x) for x in X]
    K = p["b"].shape[0]
    sm = lambda z: np.exp(z - z.max()) / np.exp(z - z.max()).sum()
    exp = {"confidences_map": np.array([sm(np.asarray(o["map"])).max() for o in outs]), "confidences_pred": np.array([np.asarray(o["pred_act"]).max() for o in outs]),
           "correctness_map": np.array([int(np.argmax(o["map"]) == y) for o, y in zip(outs, Y)]), "correctness_pred": np.array([int(np.argmax(o["pred_mean"]) == y) for o, y in zip(outs, Y)]),
           "nll_gaussian": np.array([ME.nll_gaussian(o["pred_mean"], o["pred_std"], jnp.eye(K)[y]) for o, y in zip(outs, Y)])}
    fm = forms(X, Y, make_sizes(r, len(X)))
    for nm, data in list(fm.items())[c["seed"] % 3::2]:
        res, pp = api.evaluation(pf, f, p, prior, data, metrics=spell(r, EN.DefaultMetrics.CLASSIFICATION), pushforward_type=spell(r, pushf), predictive_type=spell(r, predictive), sample_key=key, num_samples=ns)
        assert set(res) == set(exp), sorted(res)
        for k in exp:
            close(res[k], exp[k], f"{nm} {pushf.value} {predictive.value}: {k}", tol=1e-5)


def check_options(c, r):
    rng = _random.Random(c["seed"])
    for e in (EN.CurvApprox, EN.Pushforward, EN.Predictive, EN.CalibrationObjective, EN.CalibrationMethod, EN.DefaultMetrics):
        for m in e:
            for s in (m, m.value, m.value.upper(), m.value.title(), "".join(rng.choice((ch, ch.upper())) for ch in m.value)):
                assert api._convert_to_enum(e, s) is m, (e, s)
        for s in ("", "nothing", m.value + "x", m.value[1:], " " + m.value):
            raises(ValueError, lambda: api._convert_to_enum(e, s), f"{e} {s!r}")
            assert api._convert_to_enum(e, s, str_default=True) == s
    p, f, X, Y = setting(r)
    pf, est = api.laplace(f, p, (X, Y), loss_fn="mse", curv_type="full")
    ev = lambda **kw: api.evaluation(pf, f, p, {"prior_prec": 1.0}, (X, Y), **kw)
    raises(ValueError, lambda: ev(pushforward_type="nothing"), "unknown pushforward")
    raises(ValueError, lambda: ev(predictive_type="nothing"), "unknown predictive")
    raises(ValueError, lambda: ev(metrics="nothing"), "unknown metrics")
    for m in ([], None, 3, {}):
        raises(ValueError, lambda: ev(metrics=m), f"metrics {m}")
    for q in list(PRED)[1:5]:
        raises(ValueError, lambda: ev(pushforward_type="nonlinear", predictive_type=q), f"nonlinear {q}")


def check_stream(c, r):
    """Evaluations after each other are independent of each other."""
    p, f, X, Y = setting(r)
    pf, est = api.laplace(f, p, (X, Y), loss_fn="mse", curv_type="full")
    fm = forms(X, Y, make_sizes(r, len(X)))
    first = None
    for i in range(3):
        res, _ = api.evaluation(pf, f, p, {"prior_prec": 1.0}, fm["tuple loader"], pushforward_type="linear")
        first = res if first is None else first
        tree_close(res, first, f"evaluation {i}")
        api.evaluation(pf, f, p, {"prior_prec": 2.0}, fm["tuple"], metrics="regression")
    mv = api.GGN(f, p, fm["mapping loader"], "mse", factor=0.5, verbose_logging=False)
    a = mv(p)
    api.GGN(f, p, fm["tuple"], "mse", factor=4.0)(p)
    tree_close(mv(p), a, "operator after another one")


def check(c):
    globals()["check_" + c["kind"]](c, rs(c))
