"""C01: flattening is an order-preserving bijection; function wrapping."""
from vf.driver import spec
from vf import term as T, core as C
from vf.core import SymArray, SymTree

F = "laplax.util.flatten."


@spec("C01", [F + "full_flatten", F + "create_pytree_flattener", F + "cumsum"],
      "for every tree: flatten(t)[p] = entry p-off(l) of the leaf l containing position p; unflatten(flatten(t)) = t; "
      "for every vector v of matching length: flatten(unflatten(v)) = v and leaf l, entry k of unflatten(v) is v[off(l)+k]")
def flatten_bijection(v):
    td = v.treedef()
    t = v.tree("t", td)
    flatten, unflatten = v["util.flatten.create_pytree_flattener"](t)
    f = flatten(t)
    v.eq("flatten: layout", f, v.flat(td, t))
    v.eq("full_flatten: layout", v["util.flatten.full_flatten"](t), v.flat(td, t))
    v.eq("unflatten(flatten(t)) = t", unflatten(f), t)
    vec = v.arr("vec", (v.treesize(td),))
    u = unflatten(vec)
    L = T.lam([td.n], lambda l: v.leafsize(td, l))
    want = SymTree.make(td, lambda l: SymArray.make((v.leafblock(td, l),), lambda i: vec.el(C.offset(L, l) + i)))
    v.eq("unflatten: layout", u, want)
    v.eq("flatten(unflatten(v)) = v", flatten(u), vec)


@spec("C01", [F + "create_partial_pytree_flattener"],
      "column-preserving flattener: leaves of shape S(l)+(c,) are stacked along axis 0 in tree order; both round trips are the identity")
def partial_flatten_bijection(v):
    td = v.treedef()
    c = v.size("c")
    t = v.tree("t", td, trail=(c,))
    flatten, unflatten = v["util.flatten.create_partial_pytree_flattener"](t)
    f = flatten(t)
    L = T.lam([td.n], lambda l: v.leafsize(td, l))

    def el(p, j):
        l = C.find(L, p)
        return t.at(l).el(p - C.offset(L, l), j)
    v.eq("partial flatten: layout", f, SymArray.make((v.treesize(td), c), el))
    v.eq("partial: unflatten(flatten(t)) = t", unflatten(f), t)
    m = v.arr("m", (v.treesize(td), c))
    u = unflatten(m)
    want = SymTree.make(td, lambda l: SymArray.make((v.leafblock(td, l), c), lambda i, j: m.el(C.offset(L, l) + i, j)))
    v.eq("partial: unflatten layout", u, want)
    v.eq("partial: flatten(unflatten(m)) = m", flatten(u), m)


@spec("C01", [F + "unravel_array_into_pytree"],
      "unravelling axis a of an array puts position off(l)+k of that axis at entry k of leaf l and keeps the other axes")
def unravel_axis(v):
    td = v.treedef()
    t = v.tree("t", td)
    L = T.lam([td.n], lambda l: v.leafsize(td, l))
    P = v.treesize(td)
    n, m = v.size("n"), v.size("m")
    un = v["util.flatten.unravel_array_into_pytree"]
    a0 = v.arr("a0", (P, m))
    v.eq("axis 0", un(t, 0, a0), SymTree.make(td, lambda l: SymArray.make((v.leafblock(td, l), m), lambda i, j: a0.el(C.offset(L, l) + i, j))))
    a1 = v.arr("a1", (n, P))
    want = SymTree.make(td, lambda l: SymArray.make((n, v.leafblock(td, l)), lambda i, j: a1.el(i, C.offset(L, l) + j)))
    v.eq("axis 1", un(t, 1, a1), want)
    v.eq("axis -1", un(t, -1, a1), want)
    a2 = v.arr("a2", (n, P, m))
    a3, a4 = v.arr("a3", (P, n, m)), v.arr("a4", (n, m, P))
    for ax in (0, -3):
        v.eq(f"rank 3, axis {ax}", un(t, ax, a3), SymTree.make(td, lambda l: SymArray.make((v.leafblock(td, l), n, m), lambda i, j, k: a3.el(C.offset(L, l) + i, j, k))))
    for ax in (2, -1):
        v.eq(f"rank 3, axis {ax}", un(t, ax, a4), SymTree.make(td, lambda l: SymArray.make((n, m, v.leafblock(td, l)), lambda i, j, k: a4.el(i, j, C.offset(L, l) + k))))
    v.eq("axis -2", un(t, -2, a0), SymTree.make(td, lambda l: SymArray.make((v.leafblock(td, l), m), lambda i, j: a0.el(C.offset(L, l) + i, j))))
    vec = v.arr("vec", (P,))
    for ax in (0, -1):
        v.eq(f"vector, axis {ax}", un(t, ax, vec), SymTree.make(td, lambda l: SymArray.make((v.leafblock(td, l),), lambda i: vec.el(C.offset(L, l) + i))))
    for ax in (1, -2):
        v.eq(f"rank 3, middle axis {ax}", un(t, ax, a2), SymTree.make(td, lambda l: SymArray.make(
        (n, v.leafblock(td, l), m), lambda i, j, k: a2.el(i, C.offset(L, l) + j, k))))


@spec("C01", [F + "wrap_function", F + "wrap_factory", F + "flatten_function"],
      "wrap_function(f, i, o, argnums=k)(*a, **kw) = o(f(a_0, .., i(a_k), .., **kw)); omitted transforms are the identity; "
      "wrap_factory wraps the function the factory makes")
def wrapping(v):
    log = []

    class Tok:
        def __init__(self, n):
            self.n = n

        def __repr__(self):
            return self.n

    def f(*a, **k):
        log.append((a, k))
        return ("f", a, tuple(sorted(k.items(), key=lambda t: t[0])))

    def i(x):
        return ("i", x)

    def o(x):
        return ("o", x)
    wrap = v["util.flatten.wrap_function"]
    xs = [Tok("a"), Tok("b"), Tok("c")]
    kw = {"p": Tok("p"), "q": Tok("q")}
    kws = tuple(sorted(kw.items(), key=lambda t: t[0]))
    for n in (1, 2, 3):
        for k in range(n):
            for hi in (False, True):
                for ho in (False, True):
                    g = wrap(f, input_fn=i if hi else None, output_fn=o if ho else None, argnums=k)
                    got = g(*xs[:n], **kw)
                    a = tuple((("i", x) if hi and j == k else x) for j, x in enumerate(xs[:n]))
                    want = ("f", a, kws)
                    v.true(f"wrap n={n} k={k} in={hi} out={ho}", got == (("o", want) if ho else want), f"got {got}")
    odd = {"fn": Tok("p"), "input_fn": Tok("q"), "output_fn": None, "args": Tok("r"), "argnums": 1}
    odds = tuple(sorted(odd.items(), key=lambda t: t[0]))
    for tag, ys in (("one object at every position", [xs[0]] * 3), ("empty values", [None, 0, ""])):
        for k in range(3):
            got = wrap(f, input_fn=i, output_fn=o, argnums=k)(*ys, **odd)
            v.true(f"{tag}, k={k}", got == ("o", ("f", tuple(("i", y) if j == k else y for j, y in enumerate(ys)), odds)), f"got {got}")
    g = wrap(f, i, o)
    v.true("positional order (fn, input_fn, output_fn)", g(xs[0]) == ("o", ("f", (("i", xs[0]),), ())))
    fac = v["util.flatten.wrap_factory"]
    made = []

    def factory(*a, **k):
        made.append((a, k))
        return f
    h = fac(factory, input_fn=i, output_fn=o)
    fn = h(xs[0], z=xs[1])
    v.true("factory receives its arguments", made == [((xs[0],), {"z": xs[1]})])
    v.true("factory result is wrapped", fn(xs[2], p=kw["p"]) == ("o", ("f", (("i", xs[2]),), (("p", kw["p"]),))))


@spec("C01", [F + "flatten_function"], "flatten_function(f, layout) maps vectors to vectors through f on trees")
def flatten_fn(v):
    td = v.treedef()
    t = v.tree("t", td)
    got = {}

    def f(tree):
        got["x"] = tree
        return v.tree("out", td)
    g = v["util.flatten.flatten_function"](f, layout=t)
    vec = v.arr("vec", (v.treesize(td),))
    y = g(vec)
    L = T.lam([td.n], lambda l: v.leafsize(td, l))
    v.eq("f receives the unflattened vector", got["x"], SymTree.make(td, lambda l: SymArray.make(
        (v.leafblock(td, l),), lambda i: vec.el(C.offset(L, l) + i))))
    v.eq("its result is flattened", y, v.flat(td, v.tree("out", td)))
