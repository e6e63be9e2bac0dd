"""C14: the marginal log-likelihood equals the Laplace evidence for every structure."""
from vf.driver import spec
from vf import term as T, core as C
from vf.core import SymArray, SymTree
from contracts.c08_hessian import problem, rows

LI = "laplax.eval.likelihood."
FNS = [LI + n for n in ("joint_log_likelihood", "full_marginal_log_likelihood", "diagonal_marginal_log_likelihood",
                        "low_rank_marginal_log_likelihood")]
HALF = T.const(1) / 2


def joint(P, loss, delta, sigma, norm2):
    """-1/(2 sigma) loss - delta/2 |p|^2 - P/2 (log 2 pi - log delta)."""
    return -loss / (2 * sigma) - HALF * delta * norm2 - HALF * P * (T.log(2 * T.PI) - T.log(delta))


def sq_norm(v, td, p):
    return T.bigsum(td.n, lambda l: T.bigsum(v.leafsize(td, l), lambda i: p.at(l).el(i) ** 2))


@spec("C14", [LI + "joint_log_likelihood"], "for any loss function of the data and the parameters: scaled negative loss plus the Gaussian log-prior of all parameters")
def joint_likelihood(v):
    td = v.treedef()
    p = v.tree("p", td)
    x, y = v.arr("x", (v.size("N"),)), v.arr("y", (v.size("M"),))
    full_fn = v.fn("LOSS", ())
    delta, sigma = v.real("delta", pos=True), v.real("sigma", pos=True)
    f = v[LI[7:] + "joint_log_likelihood"]
    data = {"input": x, "target": y}
    loss = full_fn(x, y, p).body
    P = v.treesize(td)
    v.eq("with sigma", f(full_fn, {"prior_prec": delta, "sigma": sigma}, p, data), SymArray.make((), lambda: joint(P, loss, delta.p, sigma.p, sq_norm(v, td, p))))
    v.eq("sigma defaults to one", f(full_fn, {"prior_prec": delta}, p, data), SymArray.make((), lambda: joint(P, loss, delta.p, T.PONE, sq_norm(v, td, p))))


@spec("C14", FNS, "joint log-likelihood + P/2 log(2 pi) - 1/2 log det of the represented precision: slogdet (full), sum of logs (diagonal), "
      "P log c + sum log(1 + S/c) for c I + U diag(S) U^T (low rank, any rank)")
def evidence(v):
    td = v.treedef()
    p = v.tree("p", td)
    P, r = v.treesize(td), v.size("R")
    data = {"input": v.arr("x", (v.size("N"),)), "target": v.arr("y", (v.size("M"),))}
    full_fn = v.fn("LOSS", ())
    delta, sigma = v.real("delta", pos=True), v.real("sigma", pos=True)
    args = {"prior_prec": delta, "sigma": sigma}
    mod = v.mod("eval.likelihood")
    base = joint(P, full_fn(data["input"], data["target"], p).body, delta.p, sigma.p, sq_norm(v, td, p)) + HALF * P * T.log(2 * T.PI)
    A, D = v.spd("A", P), v.arr("D", (P,), pos=True)
    scalar, w = v.arr("c", (), pos=True), v.arr("w", (r,), pos=True)
    c = scalar.body
    # eigenvalues w > 0 on the span of U, c elsewhere: S = w - c has any sign
    low = v.mod("curv.utils").LowRankTerms(U=v.arr("U", (P, r)), S=SymArray.make((r,), lambda i: w.el(i) - c), scalar=scalar)
    dets = {"full": T.app("logdet", T.lam([P, P], lambda i, j: A.el(i, j))),
            "diagonal": T.bigsum(P, lambda i: T.log(D.el(i))),
            "low_rank": P * T.log(c) + T.bigsum(r, lambda k: T.log(T.PONE + low.S.el(k) / c))}
    for name, prec in (("full", A), ("diagonal", D), ("low_rank", low)):
        f = getattr(mod, name + "_marginal_log_likelihood")
        v.eq(name, f(prec, args, full_fn, p, data), SymArray.make((), lambda: base - HALF * dets[name]))
    kinds = {"full": "full", "diagonal": "diagonal", "lanczos": "low_rank", "lobpcg": "low_rank"}
    prec = {"full": A, "diagonal": D, "low_rank": low}
    En = v.mod("enums").CurvApprox
    for kind, st in kinds.items():
        for key in (kind, En(kind)):
            v.eq(f"table entry {kind} ({type(key).__name__})", mod.CURVATURE_MARGINAL_LOG_LIKELIHOOD[key](prec[st], args, full_fn, p, data),
                 SymArray.make((), lambda: base - HALF * dets[st]))


@spec("C14", [LI + "marginal_log_likelihood", "laplax.curv.utils.concatenate_model_and_loss_fn"],
      "evidence of the precision (of the given type, prior and loss scaling) for the model's loss on the data, mapped over the data exactly on request")
def marginal(v):
    td, p, _, n, d, k, X, Y, F = problem(v)
    mod = v.mod("eval.likelihood")
    L = v.mod("enums").LossFn
    P = v.treesize(td)
    delta, sigma, s2, lsf = (v.real(x, pos=True) for x in ("delta", "sigma", "s2", "lsf"))
    args = {"prior_prec": delta, "sigma": sigma, "sigma_squared": s2}
    D = v.arr("D", (P,), pos=True)
    # what the precision of a diagonal estimate is (C09)
    prec = lambda l: (lambda i: (s2.p * D.el(i) + delta.p) / l)
    model = lambda input, params: F(input, params)
    big = v.fn("FB", (n, k))
    whole = lambda input, params: big(input, params)
    G = v.fn("G", ())
    err = lambda out: T.bigsum(n, lambda s: T.bigsum(k, lambda o: (out(s, o) - Y.el(s, o)) ** 2))
    ls = lambda z: T.log(T.PONE / (T.PONE + T.exp(-z)))
    bce = lambda out: T.bigsum(n, lambda s: T.bigsum(k, lambda o: -Y.el(s, o) * ls(out(s, o)) - (1 - Y.el(s, o)) * ls(-out(s, o))))
    mapped = lambda s, o: F(rows(X, s), p).el(o)
    plain = lambda s, o: big(X, p).el(s, o)
    outs = lambda f: SymArray.make((n, k), f)
    cases = [("squared error, mapped", model, L.MSE, True, err(mapped)), ("squared error by name, unmapped", whole, "mse", False, err(plain)),
             ("sigmoid cross entropy, mapped", model, L.CROSS_ENTROPY, True, bce(mapped)), ("sigmoid cross entropy, unmapped", whole, L.CROSS_ENTROPY, False, bce(plain)),
             ("callable, mapped", model, lambda z, t: G(z, t), True, G(outs(mapped), Y).body), ("callable, unmapped", whole, lambda z, t: G(z, t), False, G(outs(plain), Y).body)]
    data = {"input": X, "target": Y}
    for nm, m, loss, vm, val in cases:
        want = lambda l: joint(P, val, delta.p, sigma.p, sq_norm(v, td, p)) + HALF * P * T.log(2 * T.PI) - HALF * T.bigsum(P, lambda i: T.log(prec(l)(i)))
        v.eq(f"{nm}, diagonal estimate, given scaling", mod.marginal_log_likelihood(D, args, data, m, p, loss, "diagonal", vmap_over_data=vm, loss_scaling_factor=lsf),
             SymArray.make((), lambda: want(lsf.p)))
        kw = {"vmap_over_data": vm} if vm else {}
        v.eq(f"{nm}, default scaling", mod.marginal_log_likelihood(D, args, data, m, p, loss, v.mod("enums").CurvApprox.DIAGONAL, **kw), SymArray.make((), lambda: want(T.PONE)))
    # any registered type: its own precision function, then its own evidence function
    log = []
    est = v.arr("est", (P,))
    pr = lambda *a, **kw: log.append(("precision", a, kw)) or SymArray.make((P,), lambda i: T.app("prec", i))
    ev = lambda *a, **kw: log.append(("evidence", a, kw)) or SymArray.make((), lambda: T.app("ev"))
    mod.CURVATURE_PRECISION_METHODS["stand-in"] = pr
    mod.CURVATURE_MARGINAL_LOG_LIKELIHOOD["stand-in"] = ev
    out = mod.marginal_log_likelihood(est, args, data, whole, p, L.MSE, "stand-in", loss_scaling_factor=lsf)
    v.true("registered type: precision then evidence", [x[0] for x in log] == ["precision", "evidence"])
    given = dict(zip(("curv_estimate", "prior_arguments", "loss_scaling_factor"), log[0][1]))
    given.update(log[0][2])
    v.true("registered type: precision of the estimate with the prior arguments", given["curv_estimate"] is est and given["prior_arguments"] == args)
    v.eq("registered type: loss scaling", given.get("loss_scaling_factor", 1.0), lsf)
    given = dict(zip(("posterior_precision", "prior_arguments", "full_fn", "params", "data"), log[1][1]))
    given.update(log[1][2])
    v.eq("registered type: evidence of that precision", given["posterior_precision"], SymArray.make((P,), lambda i: T.app("prec", i)))
    v.true("registered type: prior, parameters and data", given["prior_arguments"] == args and given["params"] is p and given["data"] is data)
    v.eq("registered type: loss of the model on the data", given["full_fn"](X, Y, p), SymArray.make((), lambda: err(plain)))
    v.eq("registered type: result", out, SymArray.make((), lambda: T.app("ev")))
    v.raises("unknown loss", ValueError, lambda: mod.marginal_log_likelihood(D, args, data, whole, p, "no such loss", "diagonal"))
