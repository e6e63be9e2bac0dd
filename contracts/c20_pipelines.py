"""C20: evaluation pipelines compute every metric on every point and touch nothing else."""
from vf.driver import spec
from vf import term as T, core as C, loops
from vf.core import E, SymArray, SymList, SymNum, mknum

U = "laplax.eval.utils."


def snap(d):
    return dict(d) if isinstance(d, dict) else list(d)


def same(a, b):
    """same keys / length, identical objects"""
    if isinstance(a, dict):
        return list(a) == list(b) and all(a[k] is b[k] for k in a)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


@spec("C20", [U + "finalize_fns"], "any number of steps of any kind: step k receives the results and entries left by step k-1 and every keyword; the last results are returned")
def pipeline(v):
    n = v.size("S", 0)
    r = lambda k: {"r": SymArray.make((), lambda: T.app("Rs", k))}
    a = lambda k: {"a": SymArray.make((), lambda: T.app("As", k))}
    res0, aux0 = r(T.ZERO), a(T.ZERO)
    kw = {"w": v.real("w"), "flag": "text"}
    extra = object()

    def step(k):
        def fn(*, results, aux, **given):
            v.eq("step k receives the results of step k-1", results, r(k))
            v.eq("step k receives the entries of step k-1", aux, a(k))
            v.true("step k receives the keywords", set(given) == {"w", "flag", "obj"} and given["w"] is kw["w"] and given["flag"] == "text" and given["obj"] is extra)
            return r(k + 1), a(k + 1)
        return fn

    def policy(lp):
        names = {x: (r if y is res0 else a) for x, y in lp.mapping(lp.read()).items() if y is res0 or y is aux0}
        if len(names) != 2:
            return None
        return loops.closed_form(lambda k, s: {x: f(k) for x, f in names.items()}, v._add, "pipeline")
    E.loop_policy = policy
    out = v["eval.utils.finalize_fns"](loops.SymSeq(n, step), res0, aux0, obj=extra, **kw)
    E.loop_policy = None
    v.eq("returns the last results", out, r(n))
    v.eq("no step: the given results", v["eval.utils.finalize_fns"]([], res0, aux0), res0)


@spec("C20", [U + "apply_fns"], "every function receives exactly the mapped entries (results before auxiliary) and the step's keywords, and is stored under its name in the selected field")
def application(v):
    f = v["eval.utils.apply_fns"]
    plain = {k: object() for k in ("r1", "r2", "both_r", "a1", "both_a", "o1", "o2", "o3")}
    empty = {"r1": None, "r2": [], "both_r": None, "a1": None, "both_a": 0, "o1": "", "o2": None, "o3": False}
    for field, names, obj in [(a, b, c) for a in ("results", "aux") for b in (None, ["n1", "n2", "n3"]) for c in (plain, empty)]:
        if True:
            calls = []

            def fn(i):
                def g(**kw):
                    calls.append((i, kw))
                    return obj[f"o{i}"]
                g.__name__ = f"fn{i}"
                return g
            res = {"r1": obj["r1"], "r2": obj["r2"], "both": obj["both_r"]}
            aux = {"a1": obj["a1"], "both": obj["both_a"]}
            r0, a0 = snap(res), snap(aux)
            step = f(fn(1), fn(2), fn(3), names=names, field=field, p="r1", q="a1", s="both")
            out = step(res, aux, extra=obj["r2"])
            tag = f"{field} {names}{'' if obj is plain else ', empty values'}"
            want = {"p": obj["r1"], "q": obj["a1"], "s": obj["both_r"], "extra": obj["r2"]}
            v.true(f"{tag}: every function once, in order", [i for i, _ in calls] == [1, 2, 3])
            v.true(f"{tag}: the mapped entries and nothing else", all(set(kw) == set(want) and all(kw[k] is want[k] for k in want) for _, kw in calls), f"{calls}")
            stored = dict(zip(names or ["fn1", "fn2", "fn3"], (obj["o1"], obj["o2"], obj["o3"])))
            nr, na = ({**r0, **stored}, a0) if field == "results" else (r0, {**a0, **stored})
            v.true(f"{tag}: stored under their names", same(nr, out[0]) and same(na, out[1]), f"{out}")
    calls = []
    aux = {"a": obj["a1"], "b": obj["r1"]}
    out = f(lambda **kw: calls.append(kw) or obj["o1"], names=["m"])({}, aux)
    v.true("no mapping: the auxiliary entries", len(calls) == 1 and same(calls[0], {"a": obj["a1"], "b": obj["r1"]}), f"{calls}")
    v.true("no mapping: stored", same(out[0], {"m": obj["o1"]}) and same(out[1], {"a": obj["a1"], "b": obj["r1"]}))
    calls, aux = [], {"a": obj["a1"], "b": obj["r1"]}
    out = f(lambda **kw: calls.append(kw) or obj["o1"], lambda **kw: calls.append(kw) or obj["o2"], names=["m", "k"])({"r": obj["r2"]}, aux, extra=obj["o3"], more=None)
    v.true("no mapping, with keywords: the auxiliary entries and the keywords", len(calls) == 2 and all(same(c, {"a": obj["a1"], "b": obj["r1"], "extra": obj["o3"], "more": None}) for c in calls), f"{calls}")
    v.true("no mapping, with keywords: stored, nothing else changes", same(out[0], {"r": obj["r2"], "m": obj["o1"], "k": obj["o2"]}) and same(out[1], {"a": obj["a1"], "b": obj["r1"]})
           and same(aux, {"a": obj["a1"], "b": obj["r1"]}), f"{out}")
    g = lambda **kw: obj["o1"]
    v.raises("missing name", ValueError, lambda: f(g, names=["m"], p="nothing")({"r": 1}, {"a": 2}))
    v.raises("one of two names missing", ValueError, lambda: f(g, names=["m"], p="r", q="nothing")({"r": 1}, {"a": 2}))
    v.raises("too few names", ValueError, lambda: f(g, g, names=["m"], p="r")({"r": 1}, {"a": 2}))
    v.raises("too many names", ValueError, lambda: f(g, names=["m", "n"], p="r")({"r": 1}, {"a": 2}))
    v.raises("unknown field", ValueError, lambda: f(g, names=["m"], field="elsewhere", p="r")({"r": 1}, {"a": 2}))
    v.raises("not a function", TypeError, lambda: f(g, 3, names=["m", "n"], p="r"))


@spec("C20", [U + "transfer_entry"], "exactly the named entries are copied between the two dictionaries")
def transfer(v):
    f = v["eval.utils.transfer_entry"]
    o = [object() for _ in range(4)]
    for field in ("results", "aux"):
        for src in ("results", "aux"):
            for mapping in (["x"], ["x", "y"], {"new": "x"}, {"new": "x", "z": "y"}, {"y": "x"}, []):
                d = {"results": {"x": o[0], "y": o[1]}, "aux": {"x": o[2], "y": o[3]}}
                before = {k: snap(x) for k, x in d.items()}
                m0 = snap(mapping)
                m = mapping if isinstance(mapping, dict) else {k: k for k in mapping}
                out = f(mapping, field=field, access_from=src)(d["results"], d["aux"], ignored=1)
                want = {k: dict(x) for k, x in before.items()}
                for k, q in m.items():
                    want[field][k] = before[src][q]
                v.true(f"{src} to {field} {mapping}", same(want["results"], out[0]) and same(want["aux"], out[1]) and same(m0, snap(mapping)), f"{out}")
    out = f(["x"])({}, {"x": o[0], "y": o[1]})
    v.true("by default from auxiliary to results", same(out[0], {"x": o[0]}) and same(out[1], {"x": o[0], "y": o[1]}))
    v.raises("unknown field", ValueError, lambda: f(["x"], field="elsewhere"))
    v.raises("unknown source", ValueError, lambda: f(["x"], access_from="elsewhere"))


class Data:
    def __init__(self, v, lead):
        self.v, self.lead = v, lead
        self.d, self.k = v.size("D"), v.size("K")
        self.F, self.G, self.M, self.Q, self.Z = (v.fn(n, s) for n, s in (("F", (self.k,)), ("G", (self.k,)), ("M", ()), ("Q", (self.k,)), ("Z", ())))

    def pred(self, x):
        return {"pred_mean": self.F(x), "pred_std": self.G(x)}

    def metric(self, pred_mean, pred_std, target, **kw):
        return self.M(pred_mean, pred_std, target)

    def other(self, t, s, **kw):
        return self.Q(t, s)

    def whole(self, **kw):
        return self.Z(kw["pred_mean"], kw["target"])


def rows(v, x, n, f):
    """f(row) stacked."""
    def el(i, *o):
        return f(i).el(*o)
    probe = f(T.ZERO)
    return SymArray.make((n,) + tuple(probe.dims), el)


@spec("C20", [U + "evaluate_on_dataset"], "position n holds the predictions for input n and target n, for any data set and batch size")
def predictions(v):
    n = v.size("N")
    D = Data(v, n)
    x, y = v.arr("x", (n, D.d)), v.arr("y", (n, D.k))
    xi = lambda i: SymArray.make((D.d,), lambda j: x.el(i, j))
    data = {"input": x, "target": y}
    d0 = snap(data)
    f = v["eval.utils.evaluate_on_dataset"]
    want = {"pred_mean": rows(v, x, n, lambda i: D.F(xi(i))), "pred_std": rows(v, x, n, lambda i: D.G(xi(i))), "target": y}
    for kw in ({}, {"evaluate_on_dataset_batch_size": v.int("bs", 1)}, {"data_batch_size": v.int("bs", 1)}):
        v.eq(f"{sorted(kw)}", f(D.pred, data, **kw), want)
    v.true("the data are unchanged", same(d0, data))


def pipelines(v, D, kind):
    """metric list, metric dict, expected values for a data point given by its predictions and target"""
    ap, tr = v["eval.utils.apply_fns"], v["eval.utils.transfer_entry"]
    steps = [ap(D.metric, names=["m"], pred_mean="pred_mean", pred_std="pred_std", target="target"),
             tr({"std": "pred_std"}),
             ap(D.other, names=["q"], t="target", s="std")]
    from_steps = lambda x, y: {"m": D.M(D.F(x), D.G(x), y), "std": D.G(x), "q": D.Q(y, D.G(x))}
    from_dict = lambda x, y: {"z": D.Z(D.F(x), y), "m2": D.M(D.F(x), D.G(x), y)}
    md = {"z": D.whole, "m2": D.metric}
    if kind == "list":
        return steps, None, from_steps
    if kind == "dict":
        return None, md, from_dict
    return steps, md, lambda x, y: {**from_steps(x, y), **from_dict(x, y)}


@spec("C20", [U + "evaluate_metrics_on_dataset", U + "finalize_fns", U + "apply_fns", U + "transfer_entry"],
      "each metric at every point of any data set, for any batch size, from a list, a dictionary or both; neither is changed")
def metrics_dataset(v):
    n = v.size("N")
    D = Data(v, n)
    x, y = v.arr("x", (n, D.d)), v.arr("y", (n, D.k))
    row = lambda a, i: SymArray.make(a.dims[1:], lambda j: a.el(i, j))
    data = {"input": x, "target": y}
    f = v["eval.utils.evaluate_metrics_on_dataset"]
    for kind in ("list", "dict", "both"):
        steps, md, exp = pipelines(v, D, kind)
        keep = [snap(c) if c is not None else None for c in (steps, md)]
        want = {k: rows(v, x, n, lambda i, k=k: exp(row(x, i), row(y, i))[k]) for k in exp(row(x, T.ZERO), row(y, T.ZERO))}
        for kw in ({}, {"evaluate_metrics_on_dataset_batch_size": v.int("bs", 1)}, {"data_batch_size": v.int("bs", 1)}):
            v.eq(f"{kind} {sorted(kw)}", f(D.pred, data, metrics=steps, metrics_dict=md, **kw), want)
        seen = []
        out = f(D.pred, data, metrics=steps, metrics_dict=md, reduce=lambda a: seen.append(a) or {"reduced": a})
        v.true(f"{kind}: one reduction per metric", len(seen) == len(want))
        v.eq(f"{kind}: reduced", out, {k: {"reduced": a} for k, a in want.items()})
        v.true(f"{kind}: the caller's list and dictionary are unchanged", all(c is None or same(k0, c) for k0, c in zip(keep, (steps, md))))
    v.raises("neither list nor dictionary", ValueError, lambda: f(D.pred, data))


@spec("C20", [U + "evaluate_metrics_on_generator", U + "finalize_fns", U + "apply_fns", U + "transfer_entry"],
      "each metric on every batch of any generator, in order, handed per metric to the reduction; nothing of the caller is changed")
def metrics_generator(v):
    nb = v.size("nb")
    D = Data(v, nb)
    T.R.pos.add("B")
    B = lambda b: T.app("B", b, sort="i")
    X = lambda b: SymArray.make((B(b), D.d), lambda i, j: T.app("x", b, i, j))
    Y = lambda b: SymArray.make((B(b), D.k), lambda i, j: T.app("y", b, i, j))
    xi = lambda b, i: SymArray.make((D.d,), lambda j: T.app("x", b, i, j))
    yi = lambda b, i: SymArray.make((D.k,), lambda j: T.app("y", b, i, j))
    f = v["eval.utils.evaluate_metrics_on_generator"]
    gen = lambda: SymList.make(nb, lambda b: {"input": X(b), "target": Y(b)})
    raw = lambda: SymList.make(nb, lambda b: (X(b), Y(b)))
    for kind in ("list", "dict", "both"):
        steps, md, exp = pipelines(v, D, kind)
        keep = [snap(c) if c is not None else None for c in (steps, md)]
        names = list(exp(xi(T.ZERO, T.ZERO), yi(T.ZERO, T.ZERO)))
        want = {k: SymList.make(nb, lambda b, k=k: rows(v, None, B(b), lambda i: exp(xi(b, i), yi(b, i))[k])) for k in names}
        v.eq(f"{kind}", f(D.pred, gen(), metrics=steps, metrics_dict=md), want)
        seen = []
        out = f(D.pred, raw(), metrics=steps, metrics_dict=md, transform=lambda b: {"input": b[0], "target": b[1]},
                reduce=lambda a: seen.append(a) or {"reduced": a})
        v.true(f"{kind}: one reduction per metric", len(seen) == len(want))
        v.eq(f"{kind}: transformed and reduced", out, {k: {"reduced": a} for k, a in want.items()})
        # without mapping over the points of a batch
        one = SymList.make(nb, lambda b: {"input": xi(b, T.ZERO), "target": yi(b, T.ZERO)})
        v.eq(f"{kind}: unmapped", f(D.pred, one, metrics=steps, metrics_dict=md, vmap_over_data=False),
             {k: SymList.make(nb, lambda b, k=k: exp(xi(b, T.ZERO), yi(b, T.ZERO))[k]) for k in names})
        v.true(f"{kind}: the caller's list and dictionary are unchanged", all(c is None or same(k0, c) for k0, c in zip(keep, (steps, md))))
    v.true("no batch: no result", f(D.pred, [], metrics=pipelines(v, D, "list")[0]) == {})
    v.raises("neither list nor dictionary", ValueError, lambda: f(D.pred, gen()))


@spec("C20", [U + "evaluate_metrics_on_dataset", U + "evaluate_metrics_on_generator"], "the library's default metric list and dictionary stay as they are")
def defaults(v):
    n = v.size("N")
    D = Data(v, n)
    x, y = v.arr("x", (n, D.d)), v.arr("y", (n, D.k))
    m = v.mod("eval.metrics")
    keep = snap(m.DEFAULT_REGRESSION_METRICS), snap(m.DEFAULT_REGRESSION_METRICS_DICT)
    extra = {"z": D.whole}
    for f, data in ((v["eval.utils.evaluate_metrics_on_dataset"], {"input": x, "target": y}),
                    (v["eval.utils.evaluate_metrics_on_generator"], [{"input": x, "target": y}])):
        for _ in range(2):
            out = f(D.pred, data, metrics=m.DEFAULT_REGRESSION_METRICS, metrics_dict=extra)
            v.true("entries", set(out) == {"rmse", "chi^2", "nll", "crps", "z"}, f"{sorted(out)}")
        f(D.pred, data, metrics_dict=m.DEFAULT_REGRESSION_METRICS_DICT)
        v.true("list unchanged", same(keep[0], m.DEFAULT_REGRESSION_METRICS))
        v.true("dictionary unchanged", same(keep[1], m.DEFAULT_REGRESSION_METRICS_DICT) and list(extra) == ["z"])
