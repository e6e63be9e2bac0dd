from oracles.common import *
from laplax.eval import metrics as M
from laplax.enums import CalibrationErrorNorm as Norm

KINDS = ["correct", "topk", "entropy", "bins"]
FIXED = seeds("correct", 4) + seeds("topk", 6) + seeds("entropy", 5) + seeds("bins", 12)
random_case = pick(KINDS)


def targets(r, n, c):
    y = r.randint(c, size=n)
    return y, np.eye(c)[y]


def check(c):
    r = rs(c)
    n, k = r.randint(1, 9), r.randint(1, 7)
    if c["kind"] == "correct":
        p = r.permutation(n * k).reshape(n, k) / (n * k)        # distinct scores
        y, h = targets(r, n, k)
        if c["seed"] % 2:                                        # every answer right, and every one wrong
            y = p.argmax(1)
            h = np.eye(k)[y]
        want = p.argmax(1) == y
        for t in (y, h, h.astype(int), h.astype(bool)):
            got = M.correctness(jnp.asarray(p), jnp.asarray(t))
            close(got.astype(int), want.astype(int), f"correctness {np.shape(t)}")
    elif c["kind"] == "topk":
        p = r.permutation(n * k).reshape(n, k) / (n * k)
        y, h = targets(r, n, k)
        place = np.array([sum(p[i] > p[i, y[i]]) for i in range(n)])
        want = lambda q: 100 * np.mean(place < q)
        for t in (y, h):
            a = lambda *x, **kw: M.accuracy(jnp.asarray(p), jnp.asarray(t), *x, **kw)
            for got, ks in ((a(), (1,)), (a(top_k=(1, 3)), (1, 3)), (a((2,)), (2,)), (a((5, 1, 2, k)), (5, 1, 2, k)), (a((k + 4,)), (k + 4,)), (a((k + 4, 1)), (k + 4, 1))):
                assert isinstance(got, list) and len(got) == len(ks), f"top-k result {got}"
                for g, q in zip(got, ks):
                    close(g, want(q), f"top {q} of {k}", 1e-5)
    elif c["kind"] == "entropy":
        p, q = r.dirichlet(np.ones(k), n), r.dirichlet(np.ones(k), n)
        p[r.uniform(size=p.shape) < 0.3] = 0
        q = np.where((p == 0) & (r.uniform(size=p.shape) < 0.5), 0, q)
        t = np.where(p == 0, 0, p * np.log(np.where(q == 0, 1, q)))
        for kw, ax in (({}, -1), ({"axis": 0}, 0), ({"axis": 1}, 1), ({"axis": -2}, 0)):
            close(M.cross_entropy(jnp.asarray(p), jnp.asarray(q), **kw), -t.sum(ax), f"cross entropy {kw}")
        close(M.cross_entropy(jnp.asarray(p[0]), jnp.asarray(q[0])), -t[0].sum(), "cross entropy of vectors")
    else:
        m = [1, 2, 4, 8, 16, 3, 5, 7, 10, 15][r.randint(10)]
        n = r.randint(1, 40)
        conf = r.uniform(size=n)
        corr = (r.uniform(size=n) < 0.6).astype(float)
        if m & (m - 1) == 0:                                     # edges that are exact in floating point
            e = r.uniform(size=n) < 0.4
            conf[e] = r.randint(0, m + 1, size=e.sum()) / m
        e = r.uniform(size=n) < 0.3                              # next to an edge, farther than double precision rounds
        conf[e] = np.clip(r.randint(0, m + 1, size=e.sum()) / m + 1e-10 * r.choice([-1, 1], size=e.sum()), 0, 1)
        conf[0] = [0.0, 1.0, conf[0]][r.randint(3)]
        b = np.minimum(np.floor(conf * m).astype(int), m - 1)
        cnt = np.bincount(b, minlength=m)
        some = np.maximum(cnt, 1)
        mc, ma = np.bincount(b, conf, m) / some, np.bincount(b, corr, m) / some
        jc, ja = jnp.asarray(conf), jnp.asarray(corr.astype([float, bool, int, np.float32][r.randint(4)]))
        for what, g, w in zip(("proportions", "confidences", "correctness"), M.calculate_bin_metrics(jc, ja, m), (cnt / n, mc, ma)):
            close(g, w, f"bin {what}, {m} bins", 1e-6)
        if m == 15:
            for g, w in zip(M.calculate_bin_metrics(jc, ja), (cnt / n, mc, ma)):
                close(g, w, "default bins", 1e-6)
        gap = np.abs(mc - ma)
        ece, mce = (cnt / n * gap).sum(), gap.max()
        close(M.expected_calibration_error(confidence=jc, correctness=ja, num_bins=m), ece, "expected calibration error", 1e-6)
        close(M.maximum_calibration_error(confidence=jc, correctness=ja, num_bins=m), mce, "maximum calibration error", 1e-6)
        close(M.calibration_error(jc, ja, m, Norm.L1), ece, "L1", 1e-6)
        close(M.calibration_error(jc, ja, m, Norm.INF), mce, "INF", 1e-6)
