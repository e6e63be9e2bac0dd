from oracles.common import *
from oracles.c17 import problem, ensemble, softmax
from laplax.eval import pushforward as PF
from laplax.eval import predictives as PR

KINDS = ["formula", "limit", "linear", "nonlinear", "mc", "select"]
FIXED = seeds("select", 2) + seeds("formula", 8) + seeds("limit", 2) + seeds("linear", 4) + seeds("nonlinear", 4) + seeds("mc", 2)
random_case = pick(KINDS)
TYPES = ["mean_field_0", "mean_field_1", "mean_field_2", "laplace_bridge"]
L0 = np.pi / 8


@np.errstate(all="ignore")
def ref(kind, m, var, cov, correct=True):
    K = len(m)
    if kind == "mean_field_0":
        return softmax(m / np.sqrt(1 + L0 * var), 0)
    if kind == "laplace_bridge":
        if correct:
            c = var.sum(0) / np.sqrt(K / 2)
            m, var = m / np.sqrt(c), var / c
        a = (1 - 2 / K + np.exp(m) * np.exp(-m).sum(0) / K ** 2) / var
        return a / a.sum(0)
    s = var[:, None] + var[None] if kind == "mean_field_1" else np.diag(cov)[:, None] + np.diag(cov)[None] - 2 * cov
    return np.array([1 / sum(np.exp((m[j] - m[k]) / np.sqrt(1 + L0 * s[j, k])) for j in range(K)) for k in range(K)])


FN = {"mean_field_0": PR.mean_field_0_predictive, "mean_field_1": PR.mean_field_1_predictive, "mean_field_2": PR.mean_field_2_predictive, "laplace_bridge": PR.laplace_bridge}


def check(c):
    r, kind = rs(c), c["kind"]
    if kind in ("formula", "limit"):
        K = int(r.randint(2, 6))
        m, var = r.normal(size=K) * 2 * [1, 1, 1, 20][c["seed"] % 4], np.exp(r.normal(size=K))
        big = mag(r, -6, -9, 3)
        var, cov = var * big, spd(r, K) * big
        if kind == "limit":
            for n in TYPES[:3]:
                z = jnp.zeros((K, K)) if n == "mean_field_2" else jnp.zeros(K)
                close(FN[n](jnp.asarray(m), z), softmax(m, 0), f"{n} at zero variance")
            close(PR.mean_field_2_predictive(jnp.asarray(m), jnp.diag(jnp.asarray(var))) * 0 + 1, np.ones(K), "finite")
            return
        for n in TYPES:
            arg = cov if n == "mean_field_2" else var
            for corr in (True, False) if n == "laplace_bridge" else (None,):
                kw = {} if corr is None else {"use_correction": corr}
                if not np.all(np.isfinite(ref(n, m, var, cov, corr))):      # the formula itself overflows
                    continue
                close(FN[n](jnp.asarray(m), jnp.asarray(arg), **kw), ref(n, m, var, cov, corr), f"{n} {kw}")
                if n == "mean_field_2":
                    close(jax.jit(FN[n])(jnp.asarray(m), jnp.asarray(arg)), ref(n, m, var, cov, corr), f"{n} compiled")
        M, V = r.normal(size=(K, 3)), np.exp(r.normal(size=(K, 3))) * big
        for corr in (True, False):
            if not np.all(np.isfinite(ref("laplace_bridge", M, V, None, corr))):
                continue
            close(PR.laplace_bridge(jnp.asarray(M), jnp.asarray(V), use_correction=corr), ref("laplace_bridge", M, V, None, corr), f"bridge of columns, correction {corr}")
        return
    if kind == "select":
        for K in (1, 2, 3, int(r.randint(4, 9))):
            m, cov = r.normal(size=K), spd(r, K)
            var = np.exp(r.normal(size=K))
            have = {"pred_mean": jnp.asarray(m), "pred_var": jnp.asarray(var), "pred_cov": jnp.asarray(cov)}
            for t in TYPES:
                if K == 1 and t == "laplace_bridge":
                    continue
                for fn in (PF.lin_special_pred_act, PF.nonlin_special_pred_act):
                    for corr in (None, True, False):
                        out, _ = fn(dict(have), {}, special_pred_type=t, **({} if corr is None else {"use_correction": corr}))
                        close(out["special_pred_act"], ref(t, m, var, cov, corr is not False), f"{t} of {K} classes, correction {corr}")
        return
    mean, model, pf, asked, x, shape, S, vec = problem(c, r, shape=(int(r.randint(2, 5)),))
    n = int(r.randint(2, 7))
    key = jax.random.key(int(r.randint(1000)))
    P = PF
    from oracles.c16 import unflat_j
    J = np.asarray(jax.jacobian(lambda w: model(x, unflat_j(mean, w)))(vec(mean)))
    C = J @ np.asarray(S @ S.T) @ J.T
    m = np.asarray(model(x, mean))
    if kind == "mc":
        for fns in ([P.lin_setup, P.lin_mc_pred_act], [P.lin_setup, P.lin_pred_mean, P.lin_samples, P.lin_mc_pred_act]):
            out = P.set_lin_pushforward(model, mean, pf, {}, 1.0, num_samples=n, key=key, pushforward_fns=fns)(x)
            close(out["mc_pred_act"], softmax(np.asarray(out["samples"]), 1).mean(0), "lin Monte Carlo")
            assert np.shape(out["samples"]) == (n, *shape)
        return
    t = TYPES[c["seed"] % 4]
    corr = [True, False, None][r.randint(3)]
    kw = {} if corr is None else {"use_correction": corr}
    if t != "mean_field_0" or r.randint(2):
        kw["special_pred_type"] = t
    if kind == "linear":
        st, me, co, va, act = P.lin_setup, P.lin_pred_mean, P.lin_pred_cov, P.lin_pred_var, P.lin_special_pred_act
        var = np.diag(C)
        want = lambda fns: ref(t, m, var, C, corr is not False)
        make = lambda fns: P.set_lin_pushforward(model, mean, pf, {}, 1.0, pushforward_fns=fns, **kw)
    else:
        st, me, co, va, act = P.nonlin_setup, P.nonlin_pred_mean, P.nonlin_pred_cov, P.nonlin_pred_var, P.nonlin_special_pred_act
        F = ensemble(mean, model, S, vec, key, n, x)
        d = F - F.mean(0)
        C = d.T @ d / (n - 1)
        m = F.mean(0)
        want = lambda fns: ref(t, m, np.diag(C) if co in fns else (d ** 2).mean(0), C, corr is not False)
        make = lambda fns: P.set_nonlin_pushforward(model, mean, pf, {}, key=key, num_samples=n, pushforward_fns=fns, **kw)
    for fns in ([st, act], [st, me, va, act], [st, me, co, va, act], [st, co, act]):
        close(make(fns)(x)["special_pred_act"], want(fns), f"{t} {kw} {[f.__name__ for f in fns]}", tol=1e-6)
