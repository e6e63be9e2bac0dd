"""C03: tree arithmetic acts leafwise like vector arithmetic."""
from vf.driver import spec
from vf import term as T, core as C
from vf.core import SymArray, SymTree, SymNum

TR = "laplax.util.tree."


def leafwise(v, td, f, *trees, lead=()):
    return SymTree.make(td, lambda l: SymArray.make(
        list(lead) + [v.leafblock(td, l)], lambda *i: f(*[t.at(l).el(*i) for t in trees])))


@spec("C03", [TR + n for n in ("add", "sub", "neg", "mul", "sqrt", "zeros_like", "ones_like")],
      "every elementwise operation acts on every entry of every leaf and keeps structure and leaf shapes")
def elementwise(v):
    td = v.treedef()
    a, b = v.tree("a", td), v.tree("b", td)
    pos = v.tree("w", td, pos=True)
    c = v.real("c")
    g = lambda n: v["util.tree." + n]
    v.eq("add", g("add")(a, b), leafwise(v, td, lambda x, y: x + y, a, b))
    v.eq("sub", g("sub")(a, b), leafwise(v, td, lambda x, y: x - y, a, b))
    v.eq("neg", g("neg")(a), leafwise(v, td, lambda x: -x, a))
    v.eq("mul", g("mul")(c, a), leafwise(v, td, lambda x: c.p * x, a))
    v.eq("mul by a 0-d array", g("mul")(v.arr("z", ()), a), leafwise(v, td, lambda x: T.app("z") * x, a))
    v.eq("sqrt", g("sqrt")(pos), leafwise(v, td, T.sqrt, pos))
    v.eq("zeros_like", g("zeros_like")(a), leafwise(v, td, lambda x: T.ZERO, a))
    v.eq("ones_like", g("ones_like")(a), leafwise(v, td, lambda x: T.PONE, a))


@spec("C03", [TR + n for n in ("add", "sub", "neg", "mul")], "the operations commute with flattening")
def commute_with_flattening(v):
    td = v.treedef()
    a, b = v.tree("a", td), v.tree("b", td)
    c = v.real("c")
    fl = v["util.flatten.full_flatten"]
    g = lambda n: v["util.tree." + n]
    v.eq("add", fl(g("add")(a, b)), fl(a) + fl(b))
    v.eq("sub", fl(g("sub")(a, b)), fl(a) - fl(b))
    v.eq("neg", fl(g("neg")(a)), -fl(a))
    v.eq("mul", fl(g("mul")(c, a)), c * fl(a))


@spec("C03", [TR + n for n in ("mean", "var", "std", "cov", "tree_slice", "get_size")],
      "statistics reduce the requested axis of every leaf; slicing cuts the leading axis of every leaf; the size is the number of entries")
def statistics(v):
    td = v.treedef()
    n = v.size("n", 2)
    t = v.tree("t", td, lead=(n,))
    g = lambda n_: v["util.tree." + n_]
    nn = n

    def mean_of(l, k):
        return T.bigsum(nn, lambda s: t.at(l).el(s, k)) / nn

    def var_of(l, k, ddof):
        mu = mean_of(l, k)
        return T.bigsum(nn, lambda s: (t.at(l).el(s, k) - mu) * (t.at(l).el(s, k) - mu)) / (nn - ddof)

    def tree_of(f):
        return SymTree.make(td, lambda l: SymArray.make((v.leafblock(td, l),), lambda k: f(l, k)))
    v.eq("mean axis 0", g("mean")(t, axis=0), tree_of(mean_of))
    v.eq("var axis 0", g("var")(t, axis=0), tree_of(lambda l, k: var_of(l, k, 0)))
    v.eq("var axis 0 ddof 1", g("var")(t, axis=0, ddof=1), tree_of(lambda l, k: var_of(l, k, 1)))
    v.eq("std axis 0", g("std")(t, axis=0), tree_of(lambda l, k: T.sqrt(var_of(l, k, 0))))
    flat = v.tree("f", td)

    def whole(l):
        s = v.leafsize(td, l)
        return T.bigsum(s, lambda k: flat.at(l).el(k)) / s
    v.eq("mean over everything", g("mean")(flat), SymTree.make(td, lambda l: SymArray.make((), lambda: whole(l))))

    def varall(l):
        s, mu = v.leafsize(td, l), whole(l)
        return T.bigsum(s, lambda k: (flat.at(l).el(k) - mu) * (flat.at(l).el(k) - mu)) / s
    v.eq("var over everything", g("var")(flat), SymTree.make(td, lambda l: SymArray.make((), lambda: varall(l))))
    v.eq("get_size", g("get_size")(flat), C.mknum(v.treesize(td)))
    a, w = v.size("a", 0), v.size("w", 1)
    big = v.tree("B", td, lead=(a + w + v.size("r", 0),))
    sl = g("tree_slice")(big, SymNum(a), SymNum(a + w))
    v.eq("tree_slice", sl, SymTree.make(td, lambda l: SymArray.make(
        (w, v.leafblock(td, l)), lambda s, k: big.at(l).el(s + a, k))))
    m = v.size("m", 2)
    x = {"a": v.arr("x", (m, n))}
    mu = lambda i: T.bigsum(nn, lambda s: T.app("x", i, s)) / nn
    cov = SymArray.make((m, m), lambda i, j: T.bigsum(nn, lambda s: (T.app("x", i, s) - mu(i)) * (T.app("x", j, s) - mu(j))) / (nn - 1))
    v.eq("cov", g("cov")(x), {"a": cov})


@spec("C03", [TR + "tree_matvec"], "block matrix times tree vector: result leaf j, entry a = SUM_i SUM_b M(i,j)[a,b] vec_i[b]")
def block_matvec(v):
    td = v.treedef()
    n = td.n
    vec = v.tree("vec", td)
    td2 = C.TreeDefS("TD2", n * n)
    mat = SymTree.make(td2, lambda p: SymArray.make(
        (v.leafblock(td, C.imod(p, n)), v.leafsize(td, C.idiv(p, n))),
        lambda a, b: T.app("M", C.idiv(p, n), C.imod(p, n), a, b)))
    out = v["util.tree.tree_matvec"](mat, vec)
    want = SymTree.make(td, lambda j: SymArray.make((v.leafblock(td, j),), lambda a: T.bigsum(n, lambda i: T.bigsum(
        v.leafsize(td, i), lambda b: T.app("M", i, j, a, b) * vec.at(i).el(b)))))
    v.eq("tree_matvec", out, want)


@spec("C03", [TR + "tree_partialmatvec"], "per-leaf product with one vector")
def partial_matvec(v):
    td = v.treedef()
    c = v.size("c")
    A = v.tree("A", td, trail=(c,))
    x = v.arr("x", (c,))
    v.eq("tree_partialmatvec", v["util.tree.tree_partialmatvec"](A, x), SymTree.make(td, lambda l: SymArray.make(
        (v.leafblock(td, l),), lambda i: T.bigsum(c, lambda j: A.at(l).el(i, j) * x.el(j)))))
