"""C07: the GGN product is the scaled sum of J^T H J over the data."""
from vf.driver import spec
from vf import term as T, core as C
from vf.core import SymArray, SymTree, SymNum

GG = "laplax.curv.ggn."
FNS = [GG + "create_ggn_mv", GG + "create_ggn_mv_without_data", "laplax.util.tree.mul"]


def jac_dir(v, f, p, w):
    """Specification: directional derivative d/de f(p + e w) at 0 (tree p, w)."""
    e = T.fresh_var("r", "e")
    td = p.td
    out = f(SymTree.make(td, lambda l: SymArray.make(p.at(l).dims, lambda *i: p.at(l).el(*i) + T.pvar(e) * w.at(l).el(*i))))
    return SymArray.make(out.dims, lambda *i: T.diff(out.el(*i), e.name).subst({e.name: T.ZERO}))


def jac_col(v, f, p, l, i):
    """d f(p) / d p_l[i]."""
    e = T.fresh_var("r", "e")
    td = p.td
    out = f(SymTree.make(td, lambda k: SymArray.make(p.at(k).dims, lambda *j: p.at(k).el(*j) + T.pvar(e) * T.iv(T.eq(l, k)) * T.iv(T.eq(i, j[0])))))
    return SymArray.make(out.dims, lambda *q: T.diff(out.el(*q), e.name).subst({e.name: T.ZERO}))


def problem(v, n=None, dout=None):
    td = v.treedef()
    params, vec = v.tree("p", td), v.tree("v", td)
    n = v.size("N") if n is None else n
    d = v.size("d")
    k = v.size("K") if dout is None else dout
    x, y = v.arr("x", (n, d)), v.arr("y", (n, k))
    F = v.fn("F", (k,))
    row = lambda a, s: SymArray.make(a.dims[1:], lambda *i: a.el(s, *i))
    return td, params, vec, n, d, k, x, y, F, row


def ggn_spec(v, td, params, vec, n, k, x, y, F, row, factor, H):
    """factor SUM_n J_n^T H(z_n, y_n) J_n v."""
    def leaf(l):
        def el(i):
            def pt(s):
                f = lambda p: F(row(x, s), p)
                z = f(params)
                jv = jac_dir(v, f, params, vec)
                h = H(jv, z, row(y, s))
                col = jac_col(v, f, params, l, i)
                return T.bigsum(k, lambda q: col.el(q) * h.el(q))
            return factor * T.bigsum(n, pt)
        return SymArray.make((v.leafblock(td, l),), el)
    return SymTree.make(td, leaf)


def losses(v):
    jnn = v.jax.nn

    def ce(jv, z, t):
        pi = jnn.softmax(z)
        return pi * jv - pi * v.jnp.sum(pi * jv)
    return {"mse": lambda jv, z, t: 2 * jv, "cross_entropy": ce,
            "binary_cross_entropy": lambda jv, z, t: jnn.sigmoid(z) * (1 - jnn.sigmoid(z)) * jv,
            "none": lambda jv, z, t: jv}


def model(F):
    return lambda input, params: F(input, params)


@spec("C07", FNS, "create_ggn_mv with every named loss = num_total/num_curv SUM_n J_n^T H_n J_n v")
def named_losses(v):
    td, params, vec, n, d, k, x, y, F, row = problem(v)
    mod = v.mod("curv.ggn")
    data = {"input": x, "target": y}
    nt, nc = v.int("T", 1), v.int("Q", 1)
    for name, H in losses(v).items():
        mv = mod.create_ggn_mv(model(F), params, data, name, num_curv_samples=nc, num_total_samples=nt)
        v.eq(name, mv(vec), ggn_spec(v, td, params, vec, n, k, x, y, F, row, nt.p / nc.p, H))


@spec("C07", FNS, "default sample counts; the factor given directly; a mapped operator applied to other data than at construction")
def factors(v):
    td, params, vec, n, d, k, x, y, F, row = problem(v)
    mod = v.mod("curv.ggn")
    data = {"input": x, "target": y}
    H = losses(v)["mse"]
    sp = lambda f: ggn_spec(v, td, params, vec, n, k, x, y, F, row, f, H)
    nt, nc = v.int("T", 1), v.int("Q", 1)
    one = T.PONE
    L = v.mod("enums").LossFn
    v.eq("no counts: factor one", mod.create_ggn_mv(model(F), params, data, L.MSE)(vec), sp(one))
    v.eq("only total: total over number of points", mod.create_ggn_mv(model(F), params, data, L.MSE, num_total_samples=nt)(vec), sp(nt.p / n))
    v.eq("only curvature count: factor one", mod.create_ggn_mv(model(F), params, data, L.MSE, num_curv_samples=nc)(vec), sp(one))
    c = v.real("c")
    mv = mod.create_ggn_mv_without_data(model(F), params, L.MSE, c)
    v.eq("given factor", mv(vec, data), sp(c.p))
    v.eq("given factor, keywords", mod.create_ggn_mv_without_data(model_fn=model(F), params=params, loss_fn="mse", factor=c)(vec, data), sp(c.p))
    v.eq("data as any mapping with these entries", mv(vec, {"target": y, "extra": x, "input": x}), sp(c.p))


@spec("C07", FNS, "callable loss and explicit loss Hessian are mapped over the data points")
def other_losses(v):
    td, params, vec, n, d, k, x, y, F, row = problem(v)
    mod = v.mod("curv.ggn")
    data = {"input": x, "target": y}
    ell = v.fn("ell", ())

    def H(jv, z, t):
        a, b = T.fresh_var("r", "a"), T.fresh_var("r", "b")

        def el(i):
            pt = SymArray.make((k,), lambda q: z.el(q) + T.pvar(a) * T.iv(T.eq(i, q)) + T.pvar(b) * jv.el(q))
            q = T.diff(ell(pt, t).item_poly(), b.name).subst({b.name: T.ZERO})
            return T.diff(q, a.name).subst({a.name: T.ZERO})
        return SymArray.make((k,), el)
    v.eq("callable loss", mod.create_ggn_mv(model(F), params, data, lambda z, t: ell(z, t))(vec),
         ggn_spec(v, td, params, vec, n, k, x, y, F, row, T.PONE, H))
    G = v.fn("G", (k, k))
    Hx = lambda jv, z, t: G(z, t) @ jv
    v.eq("explicit loss Hessian", mod.create_ggn_mv(model(F), params, data, loss_hessian_mv=lambda jv, pred, target, **kw: Hx(jv, pred, target))(vec),
         ggn_spec(v, td, params, vec, n, k, x, y, F, row, T.PONE, Hx))
    c = v.real("c")
    v.eq("explicit loss Hessian, given factor",
         mod.create_ggn_mv_without_data(model(F), params, None, c, loss_hessian_mv=lambda jv, pred, target, **kw: Hx(jv, pred, target))(vec, data),
         ggn_spec(v, td, params, vec, n, k, x, y, F, row, c.p, Hx))


@spec("C07", FNS, "without mapping: one evaluation of the model on the whole input")
def one_evaluation(v):
    td = v.treedef()
    params, vec = v.tree("p", td), v.tree("v", td)
    d, k = v.size("d"), v.size("K")
    x, y = v.arr("x", (d,)), v.arr("y", (k,))
    F = v.fn("F", (k,))
    mod = v.mod("curv.ggn")
    nt, nc = v.int("T", 1), v.int("Q", 1)
    xs = v.arr("x", (1, d))
    ys = v.arr("y", (1, k))

    def sp(factor, H, x=x, y=y):
        f = lambda p: F(x, p)
        jv = jac_dir(v, f, params, vec)
        h = H(jv, f(params), y)
        return SymTree.make(td, lambda l: SymArray.make((v.leafblock(td, l),), lambda i: factor * T.bigsum(
            k, lambda q: jac_col(v, f, params, l, i).el(q) * h.el(q))))
    data = {"input": x, "target": y}
    for name, H in losses(v).items():
        v.eq(name, mod.create_ggn_mv(model(F), params, data, name, vmap_over_data=False, num_curv_samples=nc, num_total_samples=nt)(vec),
             sp(nt.p / nc.p, H))
    G = v.fn("G", (k, k))
    v.eq("explicit loss Hessian", mod.create_ggn_mv(model(F), params, data, vmap_over_data=False, num_curv_samples=nc,
                                                    loss_hessian_mv=lambda jv, pred, target, **kw: G(pred, target) @ jv)(vec),
         sp(T.PONE, lambda jv, z, t: G(z, t) @ jv))
    c = v.real("c")
    v.eq("without data, given factor", mod.create_ggn_mv_without_data(model(F), params, "mse", c, vmap_over_data=False)(vec, data),
         sp(c.p, losses(v)["mse"]))


@spec("C07", FNS, "outputs with any shape: the GGN of the flattened outputs")
def matrix_output(v):
    td = v.treedef()
    params, vec = v.tree("p", td), v.tree("v", td)
    n, d, a, b = v.size("N"), v.size("d"), v.size("A"), v.size("B")
    x, y = v.arr("x", (n, d)), v.arr("y", (n, a, b))
    F = v.fn("F", (a, b))
    row = lambda z, s: SymArray.make(z.dims[1:], lambda *i: z.el(s, *i))
    mv = v["curv.ggn.create_ggn_mv"](model(F), params, {"input": x, "target": y}, "mse")

    def leaf(l):
        def el(i):
            def pt(s):
                f = lambda p: F(row(x, s), p)
                jv, col = jac_dir(v, f, params, vec), jac_col(v, f, params, l, i)
                return T.bigsum(a, lambda q: T.bigsum(b, lambda r: 2 * col.el(q, r) * jv.el(q, r)))
            return T.bigsum(n, pt)
        return SymArray.make((v.leafblock(td, l),), el)
    v.eq("mse", mv(vec), SymTree.make(td, leaf))


@spec("C07", FNS, "exactly one of loss and loss Hessian")
def arguments(v):
    td, params, vec, n, d, k, x, y, F, row = problem(v)
    mk = v["curv.ggn.create_ggn_mv"]
    data = {"input": x, "target": y}
    h = lambda jv, pred, target, **kw: jv
    v.raises("neither", ValueError, lambda: mk(model(F), params, data))
    v.raises("both", ValueError, lambda: mk(model(F), params, data, "mse", loss_hessian_mv=h))
    v.raises("unknown loss", ValueError, lambda: mk(model(F), params, data, "no such loss"))
