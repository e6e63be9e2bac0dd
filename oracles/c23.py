from oracles.common import *
import random as _random
from laplax import register as R, api
from laplax.curv import cov as CO
from laplax.eval import likelihood as LK
from laplax.enums import CurvApprox

KINDS = ["history", "use", "calibration"]
FIXED = seeds("history", 10) + seeds("use", 3) + seeds("calibration", 2)
random_case = pick(["history", "history", "use", "calibration"])
ARGS = dict(create_curvature_fn=CO.CURVATURE_METHODS, curvature_to_precision_fn=CO.CURVATURE_PRECISION_METHODS,
            prec_to_posterior_fn=CO.CURVATURE_TO_POSTERIOR_STATE, posterior_state_to_scale_fn=CO.CURVATURE_STATE_TO_SCALE,
            posterior_state_to_cov_fn=CO.CURVATURE_STATE_TO_COV, marginal_log_likelihood_fn=LK.CURVATURE_MARGINAL_LOG_LIKELIHOOD)


def same(t, want, what):
    assert t.keys() == want.keys(), f"{what}: entries {list(t)} instead of {list(want)}"
    for k in t:
        assert t[k] is want[k], f"{what}: entry {k} differs"


def history(c):
    rng = _random.Random(c["seed"])
    model = {a: dict(t) for a, t in ARGS.items()}
    names = ["x", "Mixed-Case", "full", CurvApprox.LANCZOS, "y"]
    for step in range(rng.randint(1, 8)):
        name = rng.choice(names)
        p = rng.choice([0, 0.2, 0.5, 0.9, 1])
        fns = {a: (lambda *x, a=a, s=step: None) for a in ARGS if rng.random() < p}
        default = rng.choice([None, "unknown", name, *CurvApprox, "full", *names, "lobpcg"])
        miss = [a for a in ARGS if a not in fns]
        fails = bool(miss) and (default is None or any(default not in model[a] for a in miss))
        what = f"step {step}: register {name!r} with {sorted(fns)} and default {default!r}"
        if rng.random() < 0.3:
            fns.update({a: None for a in miss})
        try:
            R.register_curvature_method(name, default=default, **fns)
            assert not fails, f"{what}: accepted"
        except (ValueError, KeyError) as e:
            assert fails, f"{what}: raised {e!r}"
            assert default is not None or isinstance(e, ValueError), f"{what}: raised {e!r}"
        if not fails:
            for a in ARGS:
                model[a][name] = fns[a] if fns.get(a) is not None else model[a][default]
        for a, t in ARGS.items():
            same(t, model[a], f"{what}: table for {a}")


def use(c):
    """A registered type is used by the posterior construction and the evidence."""
    r = rs(c)
    base = list(CurvApprox)[c["seed"] % 2]
    A = jnp.asarray(spd(r, 4))
    log = []
    f = lambda *a, **k: log.append("mll") or jnp.asarray(3.5)
    R.register_curvature_method("tagged", create_curvature_fn=lambda mv, layout, **k: log.append("est") or 2 * ARGS["create_curvature_fn"][base](mv, layout=layout, **k),
                                marginal_log_likelihood_fn=f, default=base)
    R.register_curvature_method("again", default="tagged")
    for name in ("tagged", "again"):
        log.clear()
        mv = lambda v: A @ v
        est = CO.estimate_curvature(name, mv, layout=4)
        close(est, 2 * np.asarray(CO.estimate_curvature(base, mv, layout=4)), f"{name}: own estimate")
        assert log == ["est"], log
        p = CO.set_posterior_fn(name, est, layout=4)({"prior_prec": 2.0})
        q = CO.set_posterior_fn(base, est, layout=4)({"prior_prec": 2.0})
        x = jnp.asarray(r.normal(size=4))
        close(p.cov_mv(p.state)(x), q.cov_mv(q.state)(x), f"{name}: inherited covariance")
        d = {"input": jnp.ones((2, 4)), "target": jnp.ones(2)}
        m = LK.marginal_log_likelihood(est, {"prior_prec": 2.0}, d, lambda input, params: input @ params, x, "mse", name)
        close(m, 3.5, f"{name}: own evidence")


def calibration(c):
    rng = _random.Random(c["seed"])
    model = dict(api.calibration_options)
    for step in range(rng.randint(1, 5)):
        name = rng.choice(["m", "N", "grid_search", *list(model)])
        fn = lambda s=step, **k: s
        R.register_calibration_method(name, fn)
        model[name] = fn
        same(api.calibration_options, model, f"calibration table after {name!r}")


def check(c):
    tabs = [*ARGS.values(), api.calibration_options]
    before = [dict(t) for t in tabs]
    try:
        globals()[c["kind"]](c)
    finally:
        for t, b in zip(tabs, before):
            t.clear()
            t.update(b)
