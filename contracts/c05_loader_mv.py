"""C05: a loader-backed curvature operator behaves like the full-data operator."""
from vf.driver import spec
from vf import term as T, core as C
from vf.core import SymArray, SymTree, SymNum, SymList
from contracts.c02_dense import flat_matrix

LO, FU = "laplax.util.loader.", "laplax.curv.full."
FNS = [LO + n for n in ("DataLoaderMV.__init__", "DataLoaderMV.__call__", "DataLoaderMV.lower_func", "process_batches", "reduce_add")] \
    + ["laplax.util.flatten.wrap_function", "laplax.util.mv.to_dense", "laplax.util.mv.diagonal"]


def setup(v, n, m=None):
    """A loader of nb batches and an arbitrary linear operator per batch (through the data)."""
    nb = v.size("nb")
    loader = SymList.make(nb, lambda b: (SymArray.make((), lambda: T.app("x", b)), SymArray.make((), lambda: T.app("y", b))))
    mm = n if m is None else m

    def mv(vec, data):
        x, y = data["input"], data["target"]
        lams = lambda: [T.lam([], lambda: x.el()), T.lam([], lambda: y.el())]
        return SymArray.make((mm,), lambda i: T.bigsum(n, lambda j: T.fapp("M", (i, j), lams()) * vec.el(j)))
    Mb = lambda b, i, j, s=1: T.fapp("M", (i, j), [T.lam([], lambda: T.app("x", b)), T.lam([], lambda: s * T.app("y", b))])
    return nb, loader, mv, Mb


@spec("C05", FNS, "applying, densifying and taking the diagonal: all are those of SUM over batches of the per-batch operator")
def flat_operator(v):
    n, m = v.size("n"), v.size("m")
    nb, loader, mv, Mb = setup(v, n, m)
    L = v.mod("util.loader")
    x = v.arr("v", (n,))
    tot = lambda i, j: T.bigsum(nb, lambda b: Mb(b, i, j))
    op = L.DataLoaderMV(mv, loader, reduce=L.reduce_add)
    want = SymArray.make((m,), lambda i: T.bigsum(n, lambda j: tot(i, j) * x.el(j)))
    v.eq("call", op(x), want)
    v.eq("call with keyword", op(vec=x), want)
    v.eq("to_dense", v["util.mv.to_dense"](op, layout=v.int("n", 1)), SymArray.make((m, n), tot))
    # concatenating reduction of the product
    cat = L.DataLoaderMV(mv, loader, reduce=L.reduce_concat)
    lam = T.lam([nb], lambda b: m)

    def el(p):
        b = C.find(lam, p)
        return T.bigsum(n, lambda j: Mb(b, p - b * m, j) * x.el(j))
    out = cat(x)
    b, i = v.index("b", nb), v.index("i", m)
    v.eq("the given reduction is used: length", SymNum(C.dim_size(out.dims[0])), SymNum(nb * m))
    v.eq("the given transform is used", L.DataLoaderMV(mv, loader, transform=lambda t: {"input": t[0], "target": 3 * t[1]},
                                                      reduce=L.reduce_add)(x),
         SymArray.make((m,), lambda i: T.bigsum(n, lambda j: T.bigsum(nb, lambda b: Mb(b, i, j, 3)) * x.el(j))))


@spec("C05", FNS, "square operator: diagonal")
def diagonal_operator(v):
    n = v.size("n")
    nb, loader, mv, Mb = setup(v, n)
    L = v.mod("util.loader")
    op = L.DataLoaderMV(mv, loader, reduce=L.reduce_add)
    v.eq("diagonal", v["util.mv.diagonal"](op, layout=v.int("n", 1)), SymArray.make((n,), lambda i: T.bigsum(nb, lambda b: Mb(b, i, i))))
    v.eq("diagonal (positional layout)", v["util.mv.diagonal"](op, v.int("n", 1)), SymArray.make((n,), lambda i: T.bigsum(nb, lambda b: Mb(b, i, i))))


@spec("C05", FNS + [LO + "DataLoaderMV"], "wrapping once and twice with linear maps, then applying / densifying; the original is unchanged")
def wrapped_operator(v):
    n, k, r = v.size("n"), v.size("k"), v.size("r")
    nb, loader, mv, Mb = setup(v, n)
    L = v.mod("util.loader")
    wrap = v["util.flatten.wrap_function"]
    A, B = v.arr("A", (n, k)), v.arr("B", (r, n))
    A2, B2 = v.arr("A2", (k, r)), v.arr("B2", (k, r))
    x = v.arr("v", (k,))
    y = v.arr("w", (n,))
    op = L.DataLoaderMV(mv, loader, reduce=L.reduce_add, transform=L.input_target_split)
    before = dict(vars(op))
    w1 = wrap(op, input_fn=lambda z: A @ z, output_fn=lambda z: B @ z)
    Mt = SymArray.make((n, n), lambda i, j: T.bigsum(nb, lambda b: Mb(b, i, j)))
    D1 = B @ (Mt @ A)
    v.true("wrapping makes a new operator", w1 is not op and isinstance(w1, L.DataLoaderMV))
    v.eq("wrapped: call", w1(x), B @ (Mt @ (A @ x)))
    v.eq("wrapped: to_dense", v["util.mv.to_dense"](w1, layout=v.int("k", 1)), D1)
    w2 = wrap(w1, input_fn=lambda z: A2 @ z, output_fn=lambda z: B2 @ z)
    z = v.arr("z", (r,))
    v.eq("wrapped twice: call", w2(z), B2 @ (B @ (Mt @ (A @ (A2 @ z)))))
    v.eq("wrapped twice: to_dense", v["util.mv.to_dense"](w2, layout=v.int("r", 1)), B2 @ (D1 @ A2))
    v.eq("wrapped once, after wrapping again", w1(x), B @ (Mt @ (A @ x)))
    wi = wrap(op, input_fn=lambda z: A @ z)
    v.eq("input transform only", wi(x), Mt @ (A @ x))
    wo = wrap(op, output_fn=lambda z: B @ z)
    v.eq("output transform only", wo(y), B @ (Mt @ y))
    for a in ("mv", "loader", "transform", "reduce", "verbose_logging"):
        v.true(f"wrapping keeps {a}", getattr(w2, a) is getattr(op, a))
    v.true("the original is unchanged", vars(op).keys() == before.keys() and all(getattr(op, a) is b for a, b in before.items()))
    v.eq("the original still acts as before", op(y), Mt @ y)


@spec("C05", FNS + [FU + "create_full_curvature"], "tree operator: full curvature of a loader-backed operator = matrix of the summed operator in flattening order")
def tree_operator(v):
    td = v.treedef()
    lay = v.tree("lay", td)
    nb = v.size("nb")
    loader = SymList.make(nb, lambda b: (SymArray.make((), lambda: T.app("x", b)), SymArray.make((), lambda: T.app("y", b))))
    L = v.mod("util.loader")

    def mv(vec, data):
        xb = data["input"].el()
        return SymTree.make(td, lambda l: SymArray.make((v.leafblock(td, l),), lambda i: T.bigsum(
            td.n, lambda l2: T.bigsum(v.leafsize(td, l2), lambda j: T.fapp("M", (l, i, l2, j), [T.lam([], lambda: xb)]) * vec.at(l2).el(j)))))
    op = L.DataLoaderMV(mv, loader, reduce=L.reduce_add)
    LL = T.lam([td.n], lambda l: v.leafsize(td, l))
    P = v.treesize(td)

    def el(p, q):
        l, k = C.find(LL, p), C.find(LL, q)
        return T.bigsum(nb, lambda b: T.fapp("M", (l, p - C.offset(LL, l), k, q - C.offset(LL, k)), [T.lam([], lambda: T.app("x", b))]))
    v.eq("create_full_curvature", v["curv.full.create_full_curvature"](op, lay), SymArray.make((P, P), el))
    v.eq("create_diagonal_curvature", v["curv.diagonal.create_diagonal_curvature"](op, lay), SymArray.make((P,), lambda p: el(p, p)))
