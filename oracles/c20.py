from oracles.common import *
from laplax.eval import utils as U
from laplax.eval import metrics as M

KINDS = ["pipeline", "apply", "transfer", "predictions", "dataset", "generator", "defaults", "errors"]
FIXED = sum([seeds(k, 3) for k in KINDS[:7]], []) + seeds("errors", 1)
random_case = pick(KINDS[:7])


def same(a, b):
    if isinstance(a, dict):
        return list(a) == list(b) and all(a[k] is b[k] for k in a)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def pred_fn(x):
    return {"pred_mean": jnp.tanh(x[:2]) * 3, "pred_std": jnp.exp(x[-2:])}


def m1(pred_mean, pred_std, target, **kw):
    return jnp.sum((pred_mean - target) ** 2 / pred_std)


def q(t, s, **kw):
    return t * s


def z(**kw):
    return jnp.max(kw["pred_mean"] - kw["target"])


def steps(kind):
    st = [U.apply_fns(m1, names=["m"], pred_mean="pred_mean", pred_std="pred_std", target="target"), U.transfer_entry({"std": "pred_std"}),
          U.apply_fns(q, names=["q"], t="target", s="std")]
    md = {"z": z, "m2": m1}
    return (None if kind == 1 else st), (None if kind == 0 else md)


def expected(kind, x, y):
    p = {k: np.asarray(v) for k, v in pred_fn(x).items()}
    m, s = p["pred_mean"], p["pred_std"]
    a = {"m": np.sum((m - y) ** 2 / s), "std": s, "q": y * s}
    b = {"z": np.max(m - y), "m2": np.sum((m - y) ** 2 / s)}
    return a if kind == 0 else b if kind == 1 else {**a, **b}


def check(c):
    r, kind = rs(c), c["kind"]
    n = int(r.randint(1, 9))
    x, y = jnp.asarray(r.normal(size=(n, 3))), jnp.asarray(r.normal(size=(n, 2)))
    if kind == "pipeline":
        log = []
        fns = [(lambda k: lambda results, aux, **kw: (log.append((k, dict(results), dict(aux), kw)) or ({**results, k: k, "last": k}, {**aux, "seen": k})))(k) for k in range(n)]
        o = object()
        f0 = list(fns)
        out = U.finalize_fns(fns, {"start": 1}, {"seen": -1}, w=o)
        assert [e[0] for e in log] == list(range(n)) and all(e[3] == {"w": o} for e in log), "order or keywords"
        for k, res, aux, _ in log:
            assert res == {"start": 1, **{j: j for j in range(k)}, **({"last": k - 1} if k else {})} and aux == {"seen": k - 1}, f"step {k}: {res} {aux}"
        assert out == {"start": 1, **{j: j for j in range(n)}, "last": n - 1} and same(f0, fns), out
    elif kind == "apply":
        k = int(r.randint(1, 5))
        names = [f"n{i}" for i in range(k)] if r.randint(2) else None
        field = ["results", "aux"][r.randint(2)]
        o = {e: object() for e in ("r", "a", "b1", "b2")}
        if r.randint(3) == 0:
            o = {"r": None, "a": None, "b1": None, "b2": 0}
        calls = []

        def make(i):
            def f(**kw):
                calls.append((i, kw))
                return (i, "out")
            f.__name__ = f"fn{i}"
            return f
        res, aux = {"r": o["r"], "both": o["b1"]}, {"a": o["a"], "both": o["b2"]}
        r0, a0 = dict(res), dict(aux)
        out = U.apply_fns(*[make(i) for i in range(k)], names=names, field=field, p="r", q="a", s="both")(res, aux, extra=5)
        want = {"p": o["r"], "q": o["a"], "s": o["b1"], "extra": 5}
        assert [i for i, _ in calls] == list(range(k)) and all(kw == want for _, kw in calls), calls
        stored = {(names[i] if names else f"fn{i}"): (i, "out") for i in range(k)}
        nr, na = ({**r0, **stored}, a0) if field == "results" else (r0, {**a0, **stored})
        assert out[0] == nr and out[1] == na, out
        calls.clear()
        out = U.apply_fns(*[make(i) for i in range(k)], names=[f"n{i}" for i in range(k)])(dict(r0), dict(a0), extra=5, more=None)
        assert [i for i, _ in calls] == list(range(k)) and all(kw == {**a0, "extra": 5, "more": None} for _, kw in calls), f"no mapping: {calls}"
        assert out[0] == {**r0, **{f"n{i}": (i, "out") for i in range(k)}} and out[1] == a0, f"no mapping: {out}"
    elif kind == "transfer":
        keys = ["x", "y", "z"]
        d = {"results": {k: object() for k in keys}, "aux": {k: object() for k in keys}}
        before = {k: dict(v) for k, v in d.items()}
        field, src = ["results", "aux"][r.randint(2)], ["results", "aux"][r.randint(2)]
        if r.randint(2):
            mapping = [keys[i] for i in r.permutation(3)[:r.randint(1, 4)]]
            m = {k: k for k in mapping}
        else:
            mapping = m = {["new", "w", "v"][i]: keys[i] for i in r.permutation(3)[:r.randint(1, 4)]}
        out = U.transfer_entry(mapping, field=field, access_from=src)(d["results"], d["aux"], other=1)
        want = {k: dict(v) for k, v in before.items()}
        want[field].update({k: before[src][q] for k, q in m.items()})
        assert out[0] == want["results"] and out[1] == want["aux"], f"{mapping} {src} {field}"
    elif kind == "predictions":
        for kw in ({}, {"data_batch_size": int(r.randint(1, n + 3))}, {"evaluate_on_dataset_batch_size": int(r.randint(1, n + 3))}):
            data = {"input": x, "target": y}
            out = U.evaluate_on_dataset(pred_fn, data, **kw)
            assert set(out) == {"pred_mean", "pred_std", "target"} and set(data) == {"input", "target"} and data["input"] is x
            for k in ("pred_mean", "pred_std"):
                close(out[k], np.stack([np.asarray(pred_fn(x[i])[k]) for i in range(n)]), f"{k} {kw}")
            close(out["target"], y, "target")
    elif kind == "dataset":
        w = int(r.randint(3))
        st, md = steps(w)
        st0, md0 = (None if st is None else list(st)), (None if md is None else dict(md))
        want = {k: np.stack([expected(w, x[i], np.asarray(y[i]))[k] for i in range(n)]) for k in expected(w, x[0], np.asarray(y[0]))}
        for kw in ({}, {"data_batch_size": int(r.randint(1, n + 3))}, {"evaluate_metrics_on_dataset_batch_size": int(r.randint(1, n + 3))}):
            for red in (None, jnp.mean):
                out = U.evaluate_metrics_on_dataset(pred_fn, {"input": x, "target": y}, metrics=st, metrics_dict=md, **({} if red is None else {"reduce": red}), **kw)
                assert set(out) == set(want), sorted(out)
                for k in want:
                    close(out[k], want[k] if red is None else want[k].mean(), f"{k} {kw}")
                assert (st is None or same(st0, st)) and (md is None or same(md0, md)), "the caller's metrics changed"
    elif kind == "generator":
        w = int(r.randint(3))
        st, md = steps(w)
        st0, md0 = (None if st is None else list(st)), (None if md is None else dict(md))
        sizes = [int(r.randint(1, 5)) for _ in range(r.randint(0, 4))]
        bs = [(jnp.asarray(r.normal(size=(b, 3))), jnp.asarray(r.normal(size=(b, 2)))) for b in sizes]
        want = lambda k: [np.stack([expected(w, a[i], np.asarray(b[i]))[k] for i in range(len(a))]) for a, b in bs]
        names = list(expected(w, x[0], np.asarray(y[0]))) if bs else []
        for _ in range(2):
            seen = {}
            out = U.evaluate_metrics_on_generator(pred_fn, ({"input": a, "target": b} for a, b in bs), metrics=st, metrics_dict=md)
            assert set(out) == set(names), sorted(out)
            for k in names:
                assert isinstance(out[k], list) and len(out[k]) == len(bs), f"{k}: {type(out[k])}"
                for i, (g, e) in enumerate(zip(out[k], want(k))):
                    close(g, e, f"{k} batch {i}")
            out = U.evaluate_metrics_on_generator(pred_fn, iter(bs), metrics=st, metrics_dict=md, transform=lambda b: {"input": b[0], "target": b[1]}, reduce=lambda l: jnp.concatenate(l))
            for k in names:
                close(out[k], np.concatenate(want(k)), f"{k} reduced")
            assert (st is None or same(st0, st)) and (md is None or same(md0, md)), "the caller's metrics changed"
        pts = [{"input": x[i], "target": y[i]} for i in range(n)]
        out = U.evaluate_metrics_on_generator(pred_fn, iter(pts), metrics=st, metrics_dict=md, vmap_over_data=False, reduce=jnp.stack)
        for k in out:
            close(out[k], np.stack([expected(w, x[i], np.asarray(y[i]))[k] for i in range(n)]), f"{k} of single points")
    elif kind == "defaults":
        keep = list(M.DEFAULT_REGRESSION_METRICS), dict(M.DEFAULT_REGRESSION_METRICS_DICT)
        for _ in range(2):
            out = U.evaluate_metrics_on_dataset(pred_fn, {"input": x, "target": y}, metrics=M.DEFAULT_REGRESSION_METRICS, metrics_dict={"z": z})
            assert set(out) == {"rmse", "chi^2", "nll", "crps", "z"}, sorted(out)
            out = U.evaluate_metrics_on_generator(pred_fn, [{"input": x, "target": y}], metrics=M.DEFAULT_REGRESSION_METRICS, metrics_dict={"z": z})
            assert set(out) == {"rmse", "chi^2", "nll", "crps", "z"}, sorted(out)
        U.evaluate_metrics_on_dataset(pred_fn, {"input": x, "target": y}, metrics_dict=M.DEFAULT_REGRESSION_METRICS_DICT)
        assert same(keep[0], M.DEFAULT_REGRESSION_METRICS) and same(keep[1], M.DEFAULT_REGRESSION_METRICS_DICT), "the library's defaults changed"
        out = U.evaluate_metrics_on_dataset(pred_fn, {"input": x, "target": y}, metrics=M.DEFAULT_REGRESSION_METRICS)
        assert set(out) == {"rmse", "chi^2", "nll", "crps"}, sorted(out)
    else:
        f, g = U.apply_fns, lambda **kw: 1
        raises(ValueError, lambda: f(g, names=["m"], p="nothing")({"r": 1}, {"a": 2}), "missing name")
        raises(ValueError, lambda: f(g, names=["m"], p="r", q="nothing")({"r": 1}, {"a": 2}), "one missing name")
        raises(ValueError, lambda: f(g, g, names=["m"], p="r")({"r": 1}, {"a": 2}), "too few names")
        raises(ValueError, lambda: f(g, names=["m", "n"], p="r")({"r": 1}, {"a": 2}), "too many names")
        raises(ValueError, lambda: f(g, names=["m"], field="elsewhere", p="r")({"r": 1}, {"a": 2}), "unknown field")
        raises(TypeError, lambda: f(g, 3, names=["m", "n"], p="r"), "not a function")
        raises(ValueError, lambda: U.transfer_entry(["x"], field="elsewhere"), "unknown field")
        raises(ValueError, lambda: U.transfer_entry(["x"], access_from="elsewhere"), "unknown source")
        raises(ValueError, lambda: U.evaluate_metrics_on_dataset(pred_fn, {"input": x, "target": y}), "no metrics")
        raises(ValueError, lambda: U.evaluate_metrics_on_generator(pred_fn, iter([])), "no metrics")
