"""C04: streaming over batches equals evaluating on all the data at once."""
from vf.driver import spec
from vf import term as T, core as C
from vf.core import SymArray, SymTree, SymNum, SymList
from vf.term import R

LO = "laplax.util.loader."


def batches(v, lo=1):
    """nb batches; batch b is (x_b of shape (B(b), d), y_b of shape (B(b),))."""
    nb, d = v.size("nb", lo), v.size("d")
    R.nonneg.add("B")
    B = lambda b: T.app("B", b, sort="i")
    loader = SymList.make(nb, lambda b: (SymArray.make((B(b), d), lambda i, j: T.app("x", b, i, j)),
                                         SymArray.make((B(b),), lambda i: T.app("y", b, i))))
    return nb, d, B, loader


def row_fn(v, out):
    """A function evaluated row by row: result row i depends on row i, on params and on the keyword."""
    def f(p, *, data, w):
        x, y = data["input"], data["target"]
        n, d = x.dims
        return SymArray.make((n, out), lambda i, o: T.fapp("F", (o,), [
            T.lam([d], lambda j: x.el(i, j)), T.lam([], lambda: y.el(i)), T.lam([], lambda: p.p), T.lam([], lambda: w.p)]))
    return f


def cat(nb, B, item, tail):
    """Concatenation of item(b, i, ...) over batches."""
    L = T.lam([nb], B)

    def el(p, *o):
        b = C.find(L, p)
        return item(b, p - C.offset(L, b), *o)
    return SymArray.make((C.offset(L, nb),) + tuple(tail), el)


@spec("C04", [LO + n for n in ("process_batches", "reduce_sum", "reduce_add", "reduce_concat", "reduce_online_mean",
                               "execute_with_data_loader", "wrap_function_with_data_loader", "input_target_split")],
      "row-wise function: mean / sum / concatenation over all rows, for any number of batches of any sizes")
def rows(v):
    nb, d, B, loader = batches(v)
    o = v.size("o")
    f = row_fn(v, o)
    p, w = v.real("p"), v.real("w")
    x = lambda b, i: T.lam([d], lambda j: T.app("x", b, i, j))
    Fr = lambda b, i, q: T.fapp("F", (q,), [x(b, i), T.lam([], lambda: T.app("y", b, i)), T.lam([], lambda: p.p), T.lam([], lambda: w.p)])
    total = lambda q: T.bigsum(nb, lambda b: T.bigsum(B(b), lambda i: Fr(b, i, q)))
    N = T.bigsum(nb, lambda b: B(b))
    L = v.mod("util.loader")
    run = L.process_batches
    mean = SymArray.make((o,), lambda q: total(q) / N)
    v.eq("process_batches, online mean", run(f, loader, L.input_target_split, L.reduce_online_mean, p, w=w), mean)
    v.eq("process_batches, sum", run(f, loader, L.input_target_split, lambda r, s: L.reduce_sum(r, s, keepdims=False), p, w=w),
         SymArray.make((o,), total))
    v.eq("process_batches, sum (keepdims)", run(f, loader, L.input_target_split, L.reduce_sum, p, w=w),
         SymArray.make((1, o), lambda z, q: total(q)))
    v.eq("process_batches, concatenation", run(f, loader, L.input_target_split, L.reduce_concat, p, w=w),
         cat(nb, B, Fr, (o,)))
    v.eq("wrap_function_with_data_loader (default reduction)",
         L.wrap_function_with_data_loader(f, loader)(p, w=w), mean)
    v.eq("wrap_function_with_data_loader, jit, concatenation",
         L.wrap_function_with_data_loader(f, loader, reduce=L.reduce_concat, jit=True)(p, w=w), cat(nb, B, Fr, (o,)))
    g = lambda *, data, w: f(p, data=data, w=w)
    v.eq("execute_with_data_loader (default reduction)", L.execute_with_data_loader(g, loader, w=w), mean)
    v.eq("execute_with_data_loader, jit, sum", L.execute_with_data_loader(
        g, loader, reduce=lambda r, s: L.reduce_sum(r, s, keepdims=False), jit=True, w=w), SymArray.make((o,), total))
    # another transform
    tr = lambda b: {"input": b[0], "target": 2 * b[1]}
    Fr2 = lambda b, i, q: T.fapp("F", (q,), [x(b, i), T.lam([], lambda: 2 * T.app("y", b, i)), T.lam([], lambda: p.p), T.lam([], lambda: w.p)])
    v.eq("the given transform is applied", run(f, loader, tr, L.reduce_concat, p, w=w), cat(nb, B, Fr2, (o,)))


@spec("C04", [LO + n for n in ("process_batches", "reduce_add", "reduce_concat", "reduce_online_mean", "concat")],
      "per-batch results (arrays, scalars, containers, abstract trees): sum over batches; scalars count as one row in the mean")
def per_batch(v):
    nb, d, B, loader = batches(v)
    o = v.size("o")
    td = v.treedef()
    L = v.mod("util.loader")
    bvar = lambda data: T.single(data["input"].el(T.ZERO, T.ZERO)).args[0]

    def f(*, data):
        b = bvar(data)
        return {"arr": SymArray.make((o,), lambda q: T.app("A", b, q)),
                "num": (SymArray.make((), lambda: T.app("S", b)),),
                "tree": SymTree.make(td, lambda l: SymArray.make((v.leafblock(td, l),), lambda i: T.app("G", b, l, i)))}
    run = lambda red, fn=f: L.process_batches(fn, loader, L.input_target_split, red)
    sm = lambda g: T.bigsum(nb, g)
    v.eq("reduce_add", run(L.reduce_add), {
        "arr": SymArray.make((o,), lambda q: sm(lambda b: T.app("A", b, q))),
        "num": (SymArray.make((), lambda: sm(lambda b: T.app("S", b))),),
        "tree": SymTree.make(td, lambda l: SymArray.make((v.leafblock(td, l),), lambda i: sm(lambda b: T.app("G", b, l, i))))})

    def h(*, data):
        b = bvar(data)
        return {"rows": SymArray.make((B(b), o), lambda i, q: T.app("A", b, i, q)), "num": SymArray.make((), lambda: T.app("S", b))}
    N = T.bigsum(nb, lambda b: B(b))
    v.eq("reduce_online_mean weights rows and counts scalars once", run(L.reduce_online_mean, h), {
        "rows": SymArray.make((o,), lambda q: sm(lambda b: T.bigsum(B(b), lambda i: T.app("A", b, i, q))) / N),
        "num": SymArray.make((), lambda: sm(lambda b: T.app("S", b)) / nb)})

    def rows(*, data):
        b = bvar(data)
        return (SymArray.make((B(b), o), lambda i, q: T.app("A", b, i, q)), [SymArray.make((B(b),), lambda i: T.app("C", b, i))])
    v.eq("reduce_concat of containers", run(L.reduce_concat, rows), (
        cat(nb, B, lambda b, i, q: T.app("A", b, i, q), (o,)), [cat(nb, B, lambda b, i: T.app("C", b, i), ())]))

    def cols(*, data):
        b = bvar(data)
        return SymArray.make((o, B(b)), lambda q, i: T.app("A", b, q, i))
    LL = T.lam([nb], B)

    def el(q, p):
        b = C.find(LL, p)
        return T.app("A", b, q, p - C.offset(LL, b))
    v.eq("reduce_concat along axis 1", run(lambda r, s: L.reduce_concat(r, s, axis=1), cols), SymArray.make((o, N), el))
    v.eq("reduce_sum along axis 1", run(lambda r, s: L.reduce_sum(r, s, axis=1, keepdims=False), cols),
         SymArray.make((o,), lambda q: sm(lambda b: T.bigsum(B(b), lambda i: T.app("A", b, q, i)))))


@spec("C04", [LO + "process_batches"], "an empty loader raises ValueError (whatever the function and the reduction)")
def empty(v):
    nb, d, B, loader = batches(v, lo=0)
    L = v.mod("util.loader")
    v.assume(T.eq(nb, T.ZERO))
    f = row_fn(v, d)
    for name in ("reduce_sum", "reduce_add", "reduce_concat", "reduce_online_mean"):
        v.raises(name, ValueError, lambda: L.process_batches(f, loader, L.input_target_split, getattr(L, name), v.real("p"), w=v.real("w")))
    v.raises("concrete empty list", ValueError, lambda: L.process_batches(f, [], L.input_target_split, L.reduce_add, v.real("p"), w=v.real("w")))
    v.raises("wrapped", ValueError, lambda: L.wrap_function_with_data_loader(f, iter([]))(v.real("p"), w=v.real("w")))


@spec("C04", [LO + "process_batches"], "a concrete history: batches are consumed once, in order; the reduction sees the function's results in order; "
      "arguments are passed through unchanged (3 batches, arbitrary contents)")
def order(v):
    L = v.mod("util.loader")
    log = []

    class Loader:
        def __init__(self):
            self.n = 0

        def __iter__(self):
            for k in range(3):
                log.append(("batch", k))
                yield ("b", k)
    args, kw = (object(), object()), {"k": object()}

    def tr(b):
        log.append(("tr", b[1]))
        return ("data", b[1])

    def f(*a, data, **k):
        log.append(("f", data[1]))
        v.true("arguments", a == args and k == kw)
        return ("res", data[1])

    def red(r, s):
        log.append(("red", r[1], s))
        return ("out", r[1]), ("st", r[1])
    out = L.process_batches(f, Loader(), tr, red, *args, **kw)
    want = []
    for k in range(3):
        want += [("batch", k), ("tr", k), ("f", k), ("red", k, ("st", k - 1) if k else None)]
    v.true("order of calls and carried state", log == want, f"{log}")
    v.true("result of the last reduction", out == ("out", 2), f"{out}")
    seen = []
    out = L.process_batches(f, Loader(), tr, lambda r, s: (seen.append((r[1], s)) or 0, None), *args, **kw)
    v.true("a reduction without a state, and with a falsy result", out == 0 and seen == [(k, None) for k in range(3)], f"{out} {seen}")
