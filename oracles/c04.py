from oracles.common import *
from laplax.util import loader as L

KINDS = ["rows", "trees", "order", "empty"]
FIXED = sum([seeds(k, 4) for k in KINDS], [])
random_case = pick(KINDS)


def check(c):
    r = rs(c)
    nb = r.randint(1, 6)
    sizes = [r.randint(1, 5) for _ in range(nb)]
    d, o = r.randint(1, 4), r.randint(1, 4)
    W = r.normal(size=(d, o))
    data = [(jnp.asarray(r.normal(size=(s, d))), jnp.asarray(r.normal(size=s))) for s in sizes]
    p, w = float(r.normal()), float(r.normal())

    def f(p_, *, data, w):
        return jnp.tanh(data["input"] @ W * p_) + w * data["target"][:, None]
    X = np.concatenate([a for a, _ in data])
    Y = np.concatenate([b for _, b in data])
    full = np.tanh(X @ W * p) + w * Y[:, None]
    ident = L.input_target_split
    if c["kind"] == "rows":
        for load in (data, iter(data), (x for x in data)):
            close(L.process_batches(f, load, ident, L.reduce_online_mean, p, w=w), full.mean(0), "online mean")
        close(L.process_batches(f, data, ident, L.reduce_concat, p, w=w), full, "concat")
        close(L.process_batches(f, data, ident, L.reduce_sum, p, w=w), full.sum(0, keepdims=True), "sum")
        close(L.process_batches(f, data, ident, lambda a, s: L.reduce_sum(a, s, keepdims=False), p, w=w), full.sum(0), "sum")
        for jit in (False, True):
            close(L.wrap_function_with_data_loader(f, data, jit=jit)(p, w=w), full.mean(0), "wrap")
            close(L.wrap_function_with_data_loader(f, data, reduce=L.reduce_concat, jit=jit)(p, w=w), full, "wrap concat")
            g = lambda *, data, w: f(p, data=data, w=w)
            close(L.execute_with_data_loader(g, data, jit=jit, w=w), full.mean(0), "execute")
        f1 = lambda *, data: data["input"][:, 0]
        close(L.process_batches(f1, data, lambda b: {"input": 2 * b[0], "target": b[1]}, L.reduce_concat), 2 * X[:, 0], "transform")
    elif c["kind"] == "trees":
        h = lambda *, data: {"rows": data["input"], "s": (jnp.sum(data["target"] ** 2),), "l": [data["target"]]}
        out = L.process_batches(h, data, ident, L.reduce_online_mean)
        tree_close(out, {"rows": X.mean(0), "s": (np.mean([np.sum(np.asarray(b) ** 2) for _, b in data]),), "l": [Y.mean()]}, "online mean of trees")
        k = lambda *, data: {"g": jnp.sum(data["input"], 0), "s": jnp.sum(data["target"])}
        tree_close(L.process_batches(k, data, ident, L.reduce_add), {"g": X.sum(0), "s": Y.sum()}, "add of trees")
        tree_close(L.process_batches(lambda *, data: (data["input"], [data["target"]]), data, ident, L.reduce_concat), (X, [Y]), "concat of trees")
        close(L.process_batches(lambda *, data: data["input"].T, data, ident, lambda a, s: L.reduce_concat(a, s, axis=1)), X.T, "concat axis 1")
    elif c["kind"] == "order":
        log = []

        def gen():
            for i in range(nb):
                log.append(("b", i))
                yield i
        tr = lambda i: (log.append(("t", i)), i)[1]
        fn = lambda a, *, data, k: (log.append(("f", data, a, k)), data)[1]
        red = lambda x, s: (log.append(("r", x, s)), (("out", x), ("st", x)))[1]
        out = L.process_batches(fn, gen(), tr, red, 11, k=12)
        want = []
        for i in range(nb):
            want += [("b", i), ("t", i), ("f", i, 11, 12), ("r", i, ("st", i - 1) if i else None)]
        assert log == want, f"call order {log}"
        assert out == ("out", nb - 1), out
    else:
        for red in (L.reduce_add, L.reduce_sum, L.reduce_concat, L.reduce_online_mean):
            for load in ([], iter([])):
                raises(ValueError, lambda: L.process_batches(f, load, ident, red, p, w=w), "empty loader")
                raises(ValueError, lambda: L.wrap_function_with_data_loader(f, load, reduce=red)(p, w=w), "empty loader")
