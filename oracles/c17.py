from oracles.common import *
from oracles.c16 import unflat_j, OPTS
from laplax.curv.cov import Posterior
from laplax.eval import pushforward as PF

KINDS = ["default", "nocov", "order", "std", "mc", "count", "posterior"]
FIXED = sum([seeds(k, 2) for k in KINDS], [])
random_case = pick(KINDS)
SHAPES_OUT = [(3,), (1,), (4,), (2, 3), (1, 1), (3, 1), (1, 2), ()]


def problem(c, r, shape=None):
    mean = rand_tree(r)
    P = size(mean)
    shape = SHAPES_OUT[r.randint(len(SHAPES_OUT))] if shape is None else shape
    K = int(np.prod(shape))
    A, B = jnp.asarray(r.normal(size=(K, P))), jnp.asarray(r.normal(size=(K, 2)))
    S = jnp.asarray(r.normal(size=(P, P)) * 0.4 * mag(r, -3, -5))
    vec = lambda t: jnp.concatenate([jnp.reshape(x, -1) for x in jax.tree.leaves(t)])

    def model(input, params):
        return jnp.reshape(jnp.tanh(A @ vec(params) + B @ input) + 0.3 * (A @ vec(params)) * input[0], shape)
    asked = []

    def posterior_fn(prior_arguments, loss_scaling_factor=None):
        asked.append((prior_arguments, loss_scaling_factor))
        st = {"S": S}
        return Posterior(state=st, cov_mv=lambda s: lambda t: unflat_j(mean, s["S"] @ s["S"].T @ vec(t)), scale_mv=lambda s: lambda t: unflat_j(mean, s["S"] @ vec(t)))
    return mean, model, posterior_fn, asked, jnp.asarray(r.normal(size=2)), shape, S, vec


def ensemble(mean, model, S, vec, key, n, x):
    zero = jax.tree.map(jnp.zeros_like, mean)
    w = PF.set_get_weight_sample(key, zero, lambda t: t, n, set_get_weight_sample_precompute=False)
    return np.stack([np.asarray(model(x, unflat_j(mean, vec(mean) + S @ vec(w(i))))) for i in range(n)])


def softmax(a, axis):
    e = np.exp(a - a.max(axis=axis, keepdims=True))
    return e / e.sum(axis=axis, keepdims=True)


def check(c):
    r, kind = rs(c), c["kind"]
    mean, model, pf, asked, x, shape, S, vec = problem(c, r, shape=None if kind != "mc" else (int(r.randint(1, 5)),))
    n = int(r.randint(2, 9))
    key = jax.random.key(int(r.randint(1000)))
    Y = ensemble(mean, model, S, vec, key, n, x)
    F = Y.reshape(n, -1)
    dev = F - F.mean(0)
    cov = dev.T @ dev / (n - 1)
    dvar, pvar = np.diag(cov).reshape(shape), (dev ** 2).mean(0).reshape(shape)
    prior = {"prior_prec": 1.5}
    bs = [{}, {"nonlin_setup_batch_size": int(r.randint(1, 4))}, {"weight_batch_size": int(r.randint(1, n + 1))}][r.randint(3)]

    def run(fns=None, **kw):
        asked.clear()
        kw = {**bs, **kw}
        given = {} if fns is None else {"pushforward_fns": fns}
        lsf = float(r.uniform(0.5, 3))
        pred = PF.set_nonlin_pushforward(model, mean, pf, prior, key=key, loss_scaling_factor=lsf, num_samples=n, **given, **kw)
        assert len(asked) == 1 and asked[0][0] is prior and asked[0][1] == lsf, f"posterior asked for {asked}"
        out = pred(x)
        close(out["map"], model(x, mean), "map")
        return out
    P = PF

    def covm(a, w):
        a = np.asarray(a)
        assert a.size == w.size, f"pred_cov shape {a.shape}"
        near(a.reshape(w.shape), w, "pred_cov", 1e-6)
        if w.size > 1:
            assert a.shape == w.shape, f"pred_cov shape {a.shape}"
    if kind == "default":
        out = run()
        assert set(out) == {"map", "pred_mean", "pred_cov", "pred_var", "pred_std", "samples"}, sorted(out)
        close(out["pred_mean"], Y.mean(0), "pred_mean")
        covm(out["pred_cov"], cov)
        near(out["pred_var"], dvar, "pred_var", 1e-6)
        near(out["pred_std"], np.sqrt(dvar), "pred_std", 1e-6)
        close(out["samples"], Y[:5], "samples")
    elif kind == "nocov":
        out = run([P.nonlin_setup, P.nonlin_pred_mean, P.nonlin_pred_var, P.nonlin_pred_std, P.nonlin_samples])
        close(out["pred_mean"], Y.mean(0), "pred_mean")
        near(out["pred_var"], pvar, "pred_var without covariance", 1e-6)
        near(out["pred_std"], np.sqrt(pvar), "pred_std without covariance", 1e-6)
        close(out["samples"], Y[:5], "samples")
        assert "pred_cov" not in out
    elif kind == "order":
        fn = {"mean": P.nonlin_pred_mean, "covariance": P.nonlin_pred_cov, "variance": P.nonlin_pred_var, "deviation": P.nonlin_pred_std, "samples": P.nonlin_samples}
        some = [["covariance", "deviation", "variance"], ["variance", "covariance", "deviation"]] + [list(r.permutation(list(fn))[:r.randint(2, 6)]) for _ in range(3)]
        for names in some:
            exp, root = {}, None
            out = run([P.nonlin_setup] + [fn[q] for q in names])
            tag = ", ".join(names) + ": "
            for q in names:
                now = dvar if "covariance" in exp else pvar
                if q == "deviation":
                    exp[q] = np.sqrt(exp.get("variance", now))
                    near(out["pred_std"], exp[q], tag + "pred_std", 1e-6)
                elif q == "variance":
                    exp[q] = now
                    near(out["pred_var"], now, tag + "pred_var", 1e-6)
                elif q == "mean":
                    close(out["pred_mean"], Y.mean(0), tag + "pred_mean")
                elif q == "covariance":
                    exp[q] = True
                    covm(out["pred_cov"], cov)
                else:
                    close(out["samples"], Y[:5], tag + "samples")
            assert len(out) == len(names) + 1, f"{tag}{sorted(out)}"
    elif kind == "std":
        out = run([P.nonlin_setup, P.nonlin_pred_std])
        near(out["pred_std"], np.sqrt(pvar), "pred_std alone", 1e-6)
    elif kind == "mc":
        for fns in ([P.nonlin_setup, P.nonlin_mc_pred_act], [P.nonlin_setup, P.nonlin_samples, P.nonlin_mc_pred_act]):
            out = run(fns)
            close(out["samples"], Y[:5], "samples")
            close(out["mc_pred_act"], softmax(Y[:5], 1).mean(0), "mc_pred_act")
    elif kind == "count":
        post = pf(prior, 1.0)
        q = int(r.randint(1, n + 1))
        ds = PF.get_dist_state(mean, model, post, num_samples=n, key=key, **OPTS[r.randint(len(OPTS))])
        out = PF.set_prob_predictive(model, mean, ds, [P.nonlin_setup, P.nonlin_pred_mean, P.nonlin_samples], num_samples=q)(x)
        close(out["samples"], Y[:q], f"{q} samples")
        close(out["pred_mean"], Y.mean(0), "pred_mean")
    else:
        # at any other input, from the same predictive
        post = pf(prior, 1.0)
        ds = PF.get_dist_state(mean, model, post, num_samples=n, key=key)
        pred = PF.set_prob_predictive(model, mean, ds, PF.DEFAULT_NONLIN_FINALIZE_FNS)
        for k in range(3):
            x2 = jnp.asarray(r.normal(size=2))
            out = pred(x2)
            Y2 = ensemble(mean, model, S, vec, key, n, x2)
            close(out["pred_mean"], Y2.mean(0), f"input {k} pred_mean")
            close(out["samples"], Y2[:5], f"input {k} samples")
        xs = jnp.asarray(r.normal(size=(3, 2)))
        out = jax.vmap(pred)(xs)
        for k in range(3):
            close(out["pred_mean"][k], ensemble(mean, model, S, vec, key, n, xs[k]).mean(0), f"vmapped input {k}")
