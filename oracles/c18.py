from oracles.common import *
from oracles.c16 import unflat_j, OPTS
from oracles.c17 import problem, SHAPES_OUT
from laplax.eval import pushforward as PF
from laplax.curv.cov import Posterior

KINDS = ["default", "order", "samples", "kernel", "rejected", "vmap"]
FIXED = sum([seeds(k, 2) for k in KINDS[:4]], []) + seeds("rejected", 1) + seeds("vmap", 1)
random_case = pick(KINDS)


def check(c):
    r, kind = rs(c), c["kind"]
    mean, model, pf, asked, x, shape, S, vec = problem(c, r, shape=None if kind != "kernel" else (int(r.randint(1, 5)),))
    n = int(r.randint(1, 6))
    key = jax.random.key(int(r.randint(1000)))
    prior = {"prior_prec": 1.5}
    J = lambda x: np.asarray(jax.jacobian(lambda w: jnp.reshape(model(x, unflat_j(mean, w)), -1))(vec(mean)))
    SS = np.asarray(S @ S.T)

    def run(fns, x=x, **kw):
        asked.clear()
        lsf = float(r.uniform(0.5, 3))
        given = {} if fns is None else {"pushforward_fns": fns}
        pred = PF.set_lin_pushforward(model, mean, pf, prior, lsf, num_samples=n, key=key, **given, **kw)
        assert len(asked) == 1 and asked[0][0] is prior and asked[0][1] == lsf, f"posterior asked for {asked}"
        return pred(x)

    def stats(out, x=x, tag=""):
        C = J(x) @ SS @ J(x).T
        m = np.asarray(model(x, mean))
        Z = PF.set_get_weight_sample(key, jax.tree.map(jnp.zeros_like, mean), lambda t: t, n, set_get_weight_sample_precompute=False)
        smp = np.stack([m + (J(x) @ np.asarray(S) @ np.asarray(vec(Z(i)))).reshape(shape) for i in range(n)])
        want = {"map": m, "pred_mean": m, "pred_var": np.diag(C).reshape(shape), "pred_std": np.sqrt(np.diag(C)).reshape(shape), "samples": smp}
        for k, v in out.items():
            if k == "pred_cov":
                assert np.size(v) == C.size, f"{tag}pred_cov shape {np.shape(v)}"
                if C.size > 1:
                    near(v, C, f"{tag}pred_cov", 1e-6)
                else:
                    near(np.reshape(v, C.shape), C, f"{tag}pred_cov", 1e-6)
            else:
                near(v, want[k], f"{tag}{k}", tol=1e-6)
    P = PF
    if kind == "default":
        out = run(None)
        assert set(out) == {"map", "pred_mean", "pred_cov", "pred_var", "pred_std", "samples"}, sorted(out)
        stats(out)
    elif kind == "order":
        every = [P.lin_pred_mean, P.lin_pred_var, P.lin_pred_std, P.lin_pred_cov, P.lin_samples]
        for fns in ([P.lin_setup, P.lin_pred_std], [P.lin_setup, P.lin_pred_cov], [P.lin_setup, P.lin_pred_cov, P.lin_pred_std],
                    *([P.lin_setup] + [every[i] for i in r.permutation(5)[:r.randint(1, 6)]] for _ in range(3))):
            for jt in (bool(r.randint(2)),):
                out = run(fns, mv_jittable=jt)
                assert {f.__name__[4:] for f in fns[1:]} <= set(out), sorted(out)
                stats(out, tag=f"{[f.__name__ for f in fns]} ")
    elif kind == "samples":
        opts = ({}, {"lin_samples_batch_size": 1}, {"weight_batch_size": 2}, {"set_get_weight_sample_precompute": False}, {"lin_samples_batch_size": 7})
        for kw in [opts[i] for i in r.choice(5, 2, replace=False)]:
            out = run([P.lin_setup, P.lin_samples], **kw)
            assert np.shape(out["samples"])[0] == n
            stats(out, tag=f"{kw} ")
    elif kind == "vmap":
        xs = jnp.asarray(r.normal(size=(3, 2)))
        asked.clear()
        pred = PF.set_lin_pushforward(model, mean, pf, prior, 1.0, num_samples=n, key=key)
        out = jax.vmap(pred)(xs)
        for k in range(3):
            stats({q: v[k] for q, v in out.items()}, xs[k], f"input {k} ")
    elif kind == "kernel":
        x1, x2 = (jnp.asarray(r.normal(size=2)) for _ in range(2))
        K = J(x1) @ SS @ J(x2).T
        lsf = 2.5
        asked.clear()
        mv, ds = PF.set_posterior_gp_kernel(model, mean, pf, prior, lsf)
        assert asked == [(prior, lsf)] and asked[0][0] is prior
        v = r.normal(size=shape)
        near(mv(jnp.asarray(v), x1, x2, ds), K @ v, "kernel product", tol=1e-6)
        other = Posterior(state=None, cov_mv=lambda _: lambda t: t, scale_mv=None)
        near(mv(jnp.asarray(v), x1, x2, {**ds, "posterior_state": other}), J(x1) @ J(x2).T @ v, "kernel product for another posterior", tol=1e-6)
        dense, _ = PF.set_posterior_gp_kernel(model, mean, pf, prior, lsf, dense=True, output_layout=shape[0])
        near(dense(x1, x2), K, "dense kernel", tol=1e-6)
        raises(ValueError, lambda: PF.set_posterior_gp_kernel(model, mean, pf, prior, dense=True), "dense without an output layout")
    else:
        post = pf(prior, 1.0)
        ok = {"jvp": lambda *a: None, "vjp": lambda *a: None, "posterior_state": post}
        for k in ok:
            raises(TypeError, lambda: PF.lin_setup({}, {}, x, {**ok, k: "nothing"}), f"no proper {k}")
