"""C19: analytic classification predictives follow their formulas."""
from vf.driver import spec
from vf import term as T, core as C
from vf.core import E, SymArray, mknum
from contracts import c17_nonlinear as c17, c18_linear as c18

PR = "laplax.eval.predictives."
PF = "laplax.eval.pushforward."
FORMULAS = [PR + n for n in ("laplace_bridge", "dirichlet_predictive", "mean_field_0_predictive", "mean_field_1_predictive", "mean_field_2_predictive")]
SELECT = [PF + n for n in ("special_pred_act", "lin_special_pred_act", "nonlin_special_pred_act", "lin_mc_pred_act", "lin_pred_mean", "lin_pred_var", "lin_pred_cov",
                           "nonlin_pred_mean", "nonlin_pred_var", "nonlin_pred_cov", "lin_samples")]
L0 = lambda: T.PI / 8


def softmax(k, f):
    return lambda o: T.exp(f(o)) / T.bigsum(k, lambda c: T.exp(f(c)))


def mf0(k, m, s):
    return softmax(k, lambda o: m(o) / T.sqrt(1 + L0() * s(o)))


def mf_pair(k, m, s):
    """1 / sum_j exp((m_j - m_k) / sqrt(1 + pi/8 s_jk))"""
    return lambda o: T.PONE / T.bigsum(k, lambda j: T.exp((m(j) - m(o)) / T.sqrt(1 + L0() * s(o, j))))


def mf1(k, m, s):
    return mf_pair(k, m, lambda a, b: s(a) + s(b))


def mf2(k, m, cov):
    return mf_pair(k, m, lambda a, b: cov(a, a) + cov(b, b) - 2 * cov(a, b))


def bridge(k, m, s, correct):
    if correct:
        c = T.bigsum(k, s) / T.sqrt(k / T.const(2))
        m0, s0 = m, s
        m, s = lambda o: m0(o) / T.sqrt(c), lambda o: s0(o) / c
    total = T.bigsum(k, lambda j: T.exp(-m(j)))
    alpha = lambda o: (1 - T.const(2) / k + T.exp(m(o)) * total / (k * k)) / s(o)
    return lambda o: alpha(o) / T.bigsum(k, alpha)


def vec(k, f):
    return SymArray.make((k,), f)


@spec("C19", FORMULAS, "each predictive of any logit mean and variance or covariance equals its formula; the Laplace bridge also for every column of a matrix of logits")
def formulas(v):
    m = v.mod("eval.predictives")
    k = v.size("K", 2)
    mean, var = v.arr("m", (k,)), v.arr("s", (k,), pos=True)
    cov = v.spd("S", k)
    me, va = (lambda o: mean.el(o)), (lambda o: var.el(o))
    v.eq("mean field 0", m.mean_field_0_predictive(mean, var), vec(k, mf0(k, me, va)))
    v.eq("mean field 1", m.mean_field_1_predictive(mean, var), vec(k, mf1(k, me, va)))
    v.eq("mean field 2", m.mean_field_2_predictive(mean, cov), vec(k, mf2(k, me, lambda a, b: cov.el(a, b))))
    for c in (True, False):
        v.eq(f"laplace bridge, correction {c}", m.laplace_bridge(mean, var, use_correction=c), vec(k, bridge(k, me, va, c)))
    v.eq("mean field ignores the correction option", m.mean_field_0_predictive(mean, var, use_correction=True), vec(k, mf0(k, me, va)))
    v.eq("mean field 1 ignores the correction option", m.mean_field_1_predictive(mean, var, use_correction=False), vec(k, mf1(k, me, va)))
    n = v.size("N")
    M, V = v.arr("M", (k, n)), v.arr("V", (k, n), pos=True)
    for c in (True, False):
        v.eq(f"laplace bridge of columns, correction {c}", m.laplace_bridge(M, V, use_correction=c),
             SymArray.make((k, n), lambda o, b: bridge(k, lambda q: M.el(q, b), lambda q: V.el(q, b), c)(o)))


@spec("C19", FORMULAS[2:], "at zero variance the mean-field family is the softmax of the mean; mean-field 1 is mean-field 2 of a diagonal covariance")
def limits(v):
    m = v.mod("eval.predictives")
    k = v.size("K")
    mean, var = v.arr("m", (k,)), v.arr("s", (k,), pos=True)
    zero, zero2 = vec(k, lambda o: T.ZERO), SymArray.make((k, k), lambda a, b: T.ZERO)
    sm = vec(k, softmax(k, lambda o: mean.el(o)))
    v.eq("mean field 0", m.mean_field_0_predictive(mean, zero), sm)
    v.eq("mean field 1", m.mean_field_1_predictive(mean, zero), sm)
    v.eq("mean field 2", m.mean_field_2_predictive(mean, zero2), sm)


KINDS = {"mean_field_0": mf0, "mean_field_1": mf1, "laplace_bridge": lambda k, m, s: bridge(k, m, s, True)}


def predictive(kind, k, mean, var, cov, correct=True):
    if kind == "mean_field_2":
        return vec(k, mf2(k, mean, cov))
    if kind == "laplace_bridge":
        return vec(k, bridge(k, mean, var, correct))
    return vec(k, KINDS[kind](k, mean, var))


@spec("C19", SELECT[:3] + FORMULAS, "the requested predictive of statistics that are already there, for any number of classes; the statistics stay as they are")
def selection(v):
    m = v.mod("eval.pushforward")
    k = v.size("K", 1)
    mean, var, cov = v.arr("m", (k,)), v.arr("s", (k,), pos=True), v.spd("S", k)
    me, va, co = (lambda o: mean.el(o)), (lambda o: var.el(o)), (lambda a, b: cov.el(a, b))
    for how, fn in (("linearised", m.lin_special_pred_act), ("nonlinear", m.nonlin_special_pred_act),
                    ("either", lambda *a, **kw: m.special_pred_act(*a, linearized=True, **kw))):
        for kind in (None, "mean_field_0", "mean_field_1", "mean_field_2", "laplace_bridge"):
            for correct in (None, True, False):
                have = {"pred_mean": mean, "pred_var": var, "pred_cov": cov, "map": me}
                aux = {"any": have}
                kw = {} if kind is None else {"special_pred_type": kind}
                if correct is not None:
                    kw["use_correction"] = correct
                out, aux2 = fn(dict(have), aux, **kw)
                tag = f"{how}, {kind or 'default'}, correction {correct}"
                v.eq(tag, out["special_pred_act"], predictive(kind or "mean_field_0", k, me, va, co, correct is not False))
                v.true(f"{tag}: the rest stays", set(out) == {*have, "special_pred_act"} and all(out[n] is have[n] for n in have) and aux2 is aux)


@spec("C19", SELECT + FORMULAS, "linearised pushforward: the requested predictive of its own mean and variance or covariance, whichever statistics were computed before; "
      "Monte-Carlo probabilities of its own samples")
def linearised(v):
    s = c18.Setup(v, "vector")
    k = s.dims[0]
    m = v.mod("eval.pushforward")
    mean = lambda o: s.F(s.x, s.mean).el(o)
    cov = lambda a, b: s.cov(s.x, (a,), s.x, (b,))
    var = lambda a: cov(a, a)
    arr = {"pred_mean": vec(k, mean), "pred_cov": SymArray.make((k, k), cov), "pred_var": vec(k, var)}
    st, me, co, va, act, sa, mc = (getattr(m, "lin_" + n) for n in ("setup", "pred_mean", "pred_cov", "pred_var", "special_pred_act", "samples", "mc_pred_act"))
    for kind in (None, "mean_field_0", "mean_field_1", "mean_field_2", "laplace_bridge"):
        need = "pred_cov" if kind == "mean_field_2" else "pred_var"
        want = predictive(kind or "mean_field_0", k, mean, var, cov)
        kw = {"special_pred_type": kind} if kind else {}
        for fns, have in (([st, act], {"pred_mean", need}), ([st, me, va, act], {"pred_mean", "pred_var", need}), ([st, me, co, va, act], set(arr))):
            c18.run(v, s, fns, f"{kind} after {sorted(have)} {len(fns)}", {**{n: arr[n] for n in have}, "special_pred_act": want}, **kw)
    c18.run(v, s, [st, act], "bridge without correction", {"pred_mean": arr["pred_mean"], "pred_var": arr["pred_var"],
            "special_pred_act": predictive("laplace_bridge", k, mean, var, cov, False)}, special_pred_type="laplace_bridge", use_correction=False)
    smp = s.samples()
    prob = vec(k, lambda o: T.bigsum(s.n, lambda i: softmax(k, lambda c: smp.el(i, c))(o)) / s.n)
    c18.run(v, s, [st, mc], "Monte Carlo", {"pred_mean": arr["pred_mean"], "samples": smp, "mc_pred_act": prob})
    c18.run(v, s, [st, sa, mc], "Monte Carlo of the samples", {"pred_mean": arr["pred_mean"], "samples": smp, "mc_pred_act": prob})


@spec("C19", SELECT + FORMULAS, "nonlinear pushforward: the requested predictive of the ensemble's own mean and variance or covariance")
def nonlinear(v):
    s = c17.Setup(v, "vector")
    k = s.dims[0]
    if T.decide(T.eq(k, T.PONE)) is True:
        return
    m = v.mod("eval.pushforward")
    E_, mean_, cov_, dvar, pvar = c17.expected(v, s)
    mean, cov = (lambda o: mean_.el(o)), (lambda a, b: cov_.el(a, b))
    st, me, co, va, act = (getattr(m, "nonlin_" + n) for n in ("setup", "pred_mean", "pred_cov", "pred_var", "special_pred_act"))
    for kind in (None, "mean_field_0", "mean_field_1", "mean_field_2", "laplace_bridge"):
        kw = {"special_pred_type": kind} if kind else {}
        for fns, var in (([st, act], pvar), ([st, me, va, act], pvar), ([st, me, co, va, act], dvar)):
            have = {"pred_mean": mean_}
            if kind != "mean_field_2" or va in fns:
                have["pred_var"] = var
            if kind == "mean_field_2" or co in fns:
                have["pred_cov"] = cov_
            want = predictive(kind or "mean_field_0", k, mean, lambda o: var.el(o), cov)
            c17.check(v, s, fns, f"{kind} after {len(fns)}", {**have, "special_pred_act": want}, **kw)
