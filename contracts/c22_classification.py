"""C22: classification metrics and calibration errors equal their definitions."""
from vf.driver import spec
from vf import term as T, core as C
from vf.core import BOOL, I32, E, SymArray, SymNum, mknum

M = "laplax.eval.metrics."


def bounded(v, name, lo, hi, strict=True):
    """entries of the array `name` lie in [lo, hi) (or [lo, hi])"""
    T.R.int_lemmas.append(lambda a: [T.le(lo, T.patom(a)), (T.lt if strict else T.le)(T.patom(a), hi)] if a.f == name else [])

    def value(ev, a, env):       # (instances of the counter-model search obey the bound)
        x, y = ev.poly(lo, env), ev.poly(hi, env)
        u = ev.w(name, *[ev.poly(i, env) for i in a.args]) / 1.2 + 0.5 / 1.2
        return x + (int(u * (y - x)) if strict else u * (y - x))
    T.R.interp[name] = value


def labels(v, n, c):
    y = v.arr("y", (n,), dtype=C.INT)
    bounded(v, "y", T.ZERO, c)
    return y


@spec("C22", [M + "correctness"], "index i is true exactly when the arg-max of the prediction is the target index, or the arg-max of the one-hot target")
def correct(v):
    n, c = v.size("N"), v.size("C")
    f = v["eval.metrics.correctness"]
    p, onehot, y = v.arr("p", (n, c)), v.arr("h", (n, c)), v.arr("y", (n,), dtype=C.INT)
    am = lambda a, i: T.app("argmax", T.lam([c], lambda k: a.el(i, k)), sort="i")
    v.eq("index targets", f(p, y), SymArray.make((n,), lambda i: T.iv(T.eq(am(p, i), y.el(i))), C.BOOL))
    v.eq("one-hot targets", f(p, onehot, other=1), SymArray.make((n,), lambda i: T.iv(T.eq(am(p, i), am(onehot, i))), C.BOOL))


def rank(p, c, i, t):
    """number of classes before t in descending order of p[i] (ties: lower index first)"""
    return T.app("rank", T.lam([c], lambda k: p.el(i, k)), t, sort="i")


@spec("C22", [M + "accuracy"], "for each k: percentage of rows whose target has fewer than k classes before it in descending order of the prediction")
def topk(v):
    n, c = v.size("N"), v.size("C")
    f = v["eval.metrics.accuracy"]
    p, onehot, y = v.arr("p", (n, c)), v.arr("h", (n, c)), labels(v, n, c)
    am = lambda i: T.app("argmax", T.lam([c], lambda k: onehot.el(i, k)), sort="i")
    acc = lambda k, t: SymArray.make((), lambda: 100 * T.bigsum(n, lambda i: T.iv(T.lt(rank(p, c, i, t(i)), k))) / n)
    one, two, k3 = T.PONE, v.size("K1"), v.size("K2")
    E.branch(T.le(two, k3))
    E.branch(T.le(c, two))
    E.branch(T.le(c, k3))
    for tag, target, t in (("index", y, lambda i: y.el(i)), ("one-hot", onehot, am)):
        v.eq(f"{tag} targets, top 1", f(p, target), [acc(one, t)])
        v.eq(f"{tag} targets, top k", f(p, target, top_k=(mknum(two),), other=1), [acc(two, t)])
        v.eq(f"{tag} targets, several k", f(p, target, (mknum(two), 1, mknum(k3))), [acc(two, t), acc(one, t), acc(k3, t)])


@spec("C22", [M + "cross_entropy"], "minus the sum of p log q over the given axis")
def entropy(v):
    n, c = v.size("N"), v.size("C")
    f = v["eval.metrics.cross_entropy"]
    p, q = v.arr("p", (n, c)), v.arr("q", (n, c), pos=True)
    t = lambda i, k: p.el(i, k) * T.log(q.el(i, k))
    v.eq("last axis", f(p, q), SymArray.make((n,), lambda i: -T.bigsum(c, lambda k: t(i, k))))
    v.eq("given axis", f(p, q, axis=0), SymArray.make((c,), lambda k: -T.bigsum(n, lambda i: t(i, k))))
    v.eq("given axis, keyword ignored", f(p, q, axis=1, other=1), SymArray.make((n,), lambda i: -T.bigsum(c, lambda k: t(i, k))))
    a, b = v.arr("a", (c,)), v.arr("b", (c,), pos=True)
    v.eq("vectors", f(a, b), SymArray.make((), lambda: -T.bigsum(c, lambda k: a.el(k) * T.log(b.el(k)))))


class Bins:
    def __init__(self, v):
        self.n, self.m = v.size("N"), v.size("M")
        n, m = self.n, self.m
        self.conf = v.arr("conf", (n,), pos=False)
        bounded(v, "conf", T.ZERO, T.PONE, strict=False)
        self.corr = v.arr("corr", (n,))
        # membership: b/M <= confidence < (b+1)/M, the last bin including 1
        fl = lambda i: T.app("floor", self.conf.el(i) * m, sort="i")
        self.bin = lambda i: T.ite(T.le(fl(i), m - 1), fl(i), m - 1)
        self.inside = lambda b, i: T.iv(T.eq(b, self.bin(i)))
        self.count = lambda b: T.bigsum(n, lambda i: self.inside(b, i))
        pos = lambda b: T.iv(T.lt(T.ZERO, self.count(b)))
        self.prop = lambda b: self.count(b) / n
        self.mean = lambda a: (lambda b: pos(b) * T.bigsum(n, lambda i: self.inside(b, i) * a.el(i)) / self.count(b))


@spec("C22", [M + "calculate_bin_metrics"], "every confidence lies in exactly its equal-width bin; proportions, mean confidence and mean correctness of the points in each bin, zero for empty bins")
def bins(v):
    B = Bins(v)
    f = v["eval.metrics.calculate_bin_metrics"]
    A = lambda g: SymArray.make((B.m,), g)
    prop, conf, acc = f(B.conf, B.corr, num_bins=mknum(B.m))
    v.eq("proportions", prop, A(B.prop))
    v.eq("mean confidences", conf, A(B.mean(B.conf)))
    v.eq("mean correctness", acc, A(B.mean(B.corr)))
    hit = v.arr("hit", (B.n,))
    for dt in (BOOL, I32):                       # what `correctness` returns, and 0/1 integers
        given = SymArray.make((B.n,), lambda i: T.iv(T.lt(T.ZERO, hit.el(i))), dt)
        for what, g, w in zip(("proportions", "mean confidences", "mean correctness"), f(B.conf, given, num_bins=mknum(B.m)), (B.prop, B.mean(B.conf), B.mean(given))):
            v.eq(f"{what}, {dt.name} correctness", g, A(w))


@spec("C22", [M + n for n in ("calibration_error", "expected_calibration_error", "maximum_calibration_error", "calculate_bin_metrics")],
      "proportion-weighted sum and maximum over bins of |mean correctness - mean confidence|")
def errors(v):
    B = Bins(v)
    m = v.mod("eval.metrics")
    N = v.mod("enums").CalibrationErrorNorm
    gap = lambda b: T.app("abs", B.mean(B.corr)(b) - B.mean(B.conf)(b))
    num = lambda p: SymArray.make((), lambda: p)
    ece = num(T.bigsum(B.m, lambda b: B.prop(b) * gap(b)))
    mce = num(T.app("max", T.lam([B.m], gap)))
    b = mknum(B.m)
    v.eq("expected", m.expected_calibration_error(B.conf, B.corr, b), ece)
    v.eq("expected, keywords", m.expected_calibration_error(confidence=B.conf, correctness=B.corr, num_bins=b, other=1), ece)
    v.eq("maximum", m.maximum_calibration_error(B.conf, B.corr, b), mce)
    v.eq("L1", m.calibration_error(B.conf, B.corr, b, N.L1), ece)
    v.eq("INF", m.calibration_error(B.conf, B.corr, b, N.INF, other=1), mce)
