"""C08: the Hessian product is the scaled second derivative of the summed loss."""
from vf.driver import spec
from vf import term as T, core as C
from vf.core import SymArray, SymTree, SymNum

HE, CU = "laplax.curv.hessian.", "laplax.curv.utils."
FNS = [HE + "create_hessian_mv", HE + "create_hessian_mv_without_data", HE + "hvp", CU + "concatenate_model_and_loss_fn", "laplax.util.tree.mul"]


def second_tree(v, td, obj, p, x):
    """d/da d/db obj(p + a e_(l,i) + b x) at 0."""
    a, b = T.fresh_var("r", "a"), T.fresh_var("r", "b")

    def leaf(l):
        def el(i):
            pt = SymTree.make(td, lambda k: SymArray.make((v.leafblock(td, k),), lambda j: p.at(k).el(j)
                              + T.pvar(a) * T.iv(T.eq(l, k)) * T.iv(T.eq(i, j)) + T.pvar(b) * x.at(k).el(j)))
            q = T.diff(obj(pt), b.name).subst({b.name: T.ZERO})
            return T.diff(q, a.name).subst({a.name: T.ZERO})
        return SymArray.make((v.leafblock(td, l),), el)
    return SymTree.make(td, leaf)


def problem(v):
    td = v.treedef()
    p, x = v.tree("p", td), v.tree("v", td)
    n, d, k = v.size("N"), v.size("d"), v.size("K")
    X, Y = v.arr("x", (n, d)), v.arr("y", (n, k))
    F = v.fn("F", (k,))
    return td, p, x, n, d, k, X, Y, F


def rows(a, s):
    return SymArray.make(a.dims[1:], lambda *i: a.el(s, *i))


@spec("C08", FNS, "summed squared error, mapped: factor * Hessian of SUM_n |F(x_n, p) - y_n|^2, for all factors and sample counts")
def squared_error(v):
    td, p, x, n, d, k, X, Y, F = problem(v)
    mod = v.mod("curv.hessian")
    L = v.mod("enums").LossFn
    data = {"input": X, "target": Y}
    model = lambda input, params: F(input, params)

    def obj(q):
        return T.bigsum(n, lambda s: T.bigsum(k, lambda o: (F(rows(X, s), q).el(o) - Y.el(s, o)) * (F(rows(X, s), q).el(o) - Y.el(s, o))))
    H = second_tree(v, td, obj, p, x)
    sc = lambda c: SymTree.make(td, lambda l: SymArray.make(H.at(l).dims, lambda i: c * H.at(l).el(i)))
    nt, nc, c = v.int("T", 1), v.int("Q", 1), v.real("c")
    v.eq("no counts: factor one", mod.create_hessian_mv(model, p, data, L.MSE)(x), H)
    v.eq("loss by name", mod.create_hessian_mv(model, p, data, "mse")(x), H)
    v.eq("both counts", mod.create_hessian_mv(model, p, data, L.MSE, num_curv_samples=nc, num_total_samples=nt)(x), sc(nt.p / nc.p))
    v.eq("only total", mod.create_hessian_mv(model, p, data, L.MSE, num_total_samples=nt)(x), sc(nt.p / n))
    v.eq("only curvature count", mod.create_hessian_mv(model, p, data, L.MSE, num_curv_samples=nc)(x), H)
    v.eq("given factor, data at call time", mod.create_hessian_mv_without_data(model, p, L.MSE, c)(x, data), sc(c.p))


@spec("C08", FNS, "callable scalar loss of the mapped predictions and all targets")
def callable_loss(v):
    td, p, x, n, d, k, X, Y, F = problem(v)
    mod = v.mod("curv.hessian")
    data = {"input": X, "target": Y}
    ell = v.fn("ell", ())
    pred = lambda q: SymArray.make((n, k), lambda s, o: F(rows(X, s), q).el(o))
    H = second_tree(v, td, lambda q: ell(pred(q), Y).item_poly(), p, x)
    nt, nc, c = v.int("T", 1), v.int("Q", 1), v.real("c")
    f = nt.p / nc.p
    got = mod.create_hessian_mv(lambda input, params: F(input, params), p, data, lambda z, t: ell(z, t), num_curv_samples=nc, num_total_samples=nt)(x)
    v.eq("callable", got, SymTree.make(td, lambda l: SymArray.make(H.at(l).dims, lambda i: f * H.at(l).el(i))))


@spec("C08", FNS, "not mapped: the model is evaluated once on the whole input")
def not_mapped(v):
    td = v.treedef()
    p, x = v.tree("p", td), v.tree("v", td)
    X, Y = v.arr("x", (v.size("d"),)), v.arr("y", (v.size("K"),))
    k = v.size("K")
    F, ell = v.fn("F", (k,)), v.fn("ell", ())
    mod = v.mod("curv.hessian")
    data = {"input": X, "target": Y}
    model = lambda input, params: F(input, params)
    sq = lambda q: T.bigsum(k, lambda o: (F(X, q).el(o) - Y.el(o)) * (F(X, q).el(o) - Y.el(o)))
    nt, nc, c = v.int("T", 1), v.int("Q", 1), v.real("c")
    scale = lambda H, f: SymTree.make(td, lambda l: SymArray.make(H.at(l).dims, lambda i: f * H.at(l).el(i)))
    H = second_tree(v, td, sq, p, x)
    v.eq("squared error", mod.create_hessian_mv(model, p, data, "mse", vmap_over_data=False, num_curv_samples=nc, num_total_samples=nt)(x), scale(H, nt.p / nc.p))
    v.eq("given factor", mod.create_hessian_mv_without_data(model, p, "mse", c, vmap_over_data=False)(x, data), scale(H, c.p))
    H2 = second_tree(v, td, lambda q: ell(F(X, q), Y).item_poly(), p, x)
    v.eq("callable", mod.create_hessian_mv(model, p, data, lambda z, t: ell(z, t), vmap_over_data=False, num_curv_samples=nc)(x), H2)


@spec("C08", FNS, "an unknown loss is rejected")
def rejected(v):
    td, p, x, n, d, k, X, Y, F = problem(v)
    mk = v["curv.hessian.create_hessian_mv"]
    v.raises("unknown loss", ValueError, lambda: mk(lambda input, params: F(input, params), p, {"input": X, "target": Y}, "no such loss"))
