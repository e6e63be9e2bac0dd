"""C06: loss-Hessian products equal the second derivative of the loss."""
from vf.driver import spec
from vf import term as T, core as C
from vf.core import SymArray, SymTree, SymNum

GG, HE = "laplax.curv.ggn.", "laplax.curv.hessian."
CREATE = GG + "create_loss_hessian_mv"


def second(v, loss, z, jv):
    """Specification: (d/da d/db loss(z + a e_i + b jv)) at 0, for a scalar loss of one array."""
    a, b = T.fresh_var("r", "a"), T.fresh_var("r", "b")

    def el(*i):
        def pt(*k):
            u = T.PONE
            for x, y in zip(i, k):
                u = u * T.iv(T.eq(x, y))
            return z.el(*k) + T.pvar(a) * u + T.pvar(b) * jv.el(*k)
        q = loss(SymArray.make(z.dims, pt)).item_poly()
        q = T.diff(q, b.name).subst({b.name: T.ZERO})
        return T.diff(q, a.name).subst({a.name: T.ZERO})
    return SymArray.make(z.dims, el)


def shapes(v):
    return [((), "0-d"), ((v.size("C"),), "vector"), ((v.size("A"), v.size("B")), "matrix")]


@spec("C06", [CREATE, GG + "_mse_hessian_mv", GG + "_binary_cross_entropy_hessian_mv"],
      "mse: 2 v; binary cross entropy: sigma(1-sigma) v; none: v; the first two are also the second derivatives of the losses; any shape")
def elementwise_losses(v):
    mod = v.mod("curv.ggn")
    L = v.mod("enums").LossFn
    jnn, jnp = v.jax.nn, v.jnp
    for sh, nm in shapes(v):
        p, t, x = v.arr("p" + nm, sh), v.arr("t" + nm, sh), v.arr("x" + nm, sh)
        for name, form in (("mse", lambda x, p: 2 * x), ("binary_cross_entropy", lambda x, p: jnn.sigmoid(p) * (1 - jnn.sigmoid(p)) * x),
                           ("none", lambda x, p: x)):
            for key, how in ((L(name), "member"), (name, "string")):
                mv = mod.create_loss_hessian_mv(key)
                v.eq(f"{name}, {nm}, by {how}", mv(x, pred=p, target=t), form(x, p))
        v.eq(f"mse, {nm}, is the second derivative", mod.create_loss_hessian_mv("mse")(x, pred=p, target=t),
             second(v, lambda z: jnp.sum((z - t) ** 2), p, x))
        v.eq(f"binary cross entropy, {nm}, is the second derivative", mod.create_loss_hessian_mv("binary_cross_entropy")(x, pred=p, target=t),
             second(v, lambda z: jnp.sum(-t * jnn.log_sigmoid(z) - (1 - t) * jnn.log_sigmoid(-z)), p, x))


@spec("C06", [CREATE, GG + "_cross_entropy_hessian_mv"], "cross entropy: (diag(pi) - pi pi^T) v with pi = softmax(pred) = second derivative of -log softmax(pred)[target]")
def cross_entropy(v):
    mod = v.mod("curv.ggn")
    L = v.mod("enums").LossFn
    jnn = v.jax.nn
    c = v.size("C")
    p, x = v.arr("p", (c,)), v.arr("x", (c,))
    t = v.index("t", c)
    pi = jnn.softmax(p)
    cov = SymArray.make((c, c), lambda i, j: T.iv(T.eq(i, j)) * pi.el(i) - pi.el(i) * pi.el(j))
    for key, how in ((L.CROSS_ENTROPY, "member"), ("cross_entropy", "string")):
        got = mod.create_loss_hessian_mv(key)(x, pred=p, target=v.arr("y", (c,)))
        v.eq(f"softmax covariance, by {how}", got, cov @ x)
    v.eq("is the second derivative", got, second(v, lambda z: v.jax.scipy.special.logsumexp(z) - z[SymNum(t)], p, x))


@spec("C06", [CREATE, HE + "hvp"], "a callable loss is differentiated twice at the prediction, with the target held fixed (also through the prediction's own value)")
def callable_loss(v):
    mod = v.mod("curv.ggn")
    for sh, nm in shapes(v):
        p, t, x = v.arr("p" + nm, sh), v.arr("t" + nm, sh), v.arr("x" + nm, sh)
        F = v.fn("F" + nm, ())
        mv = mod.create_loss_hessian_mv(F)
        v.eq(f"callable, {nm}", mv(x, pred=p, target=t), second(v, lambda z: F(z, t), p, x))


@spec("C06", [CREATE], "a missing or unknown loss is rejected")
def rejected(v):
    mk = v["curv.ggn.create_loss_hessian_mv"]
    v.raises("None", ValueError, lambda: mk(None))
    v.raises("unknown name", ValueError, lambda: mk("no such loss"))
    v.raises("not a loss", ValueError, lambda: mk(3))


@spec("C06", [HE + "hvp"], "hvp of a function of a parameter tree = second derivative along the tangent")
def hvp_tree(v):
    td = v.treedef()
    p, x = v.tree("p", td), v.tree("x", td)
    F = v.fn("F", ())
    a, b = T.fresh_var("r", "a"), T.fresh_var("r", "b")

    def leaf(l):
        def el(i):
            pt = SymTree.make(td, lambda k: SymArray.make((v.leafblock(td, k),), lambda j: p.at(k).el(j)
                              + T.pvar(a) * T.iv(T.eq(l, k)) * T.iv(T.eq(i, j)) + T.pvar(b) * x.at(k).el(j)))
            q = T.diff(F(pt).item_poly(), b.name).subst({b.name: T.ZERO})
            return T.diff(q, a.name).subst({a.name: T.ZERO})
        return SymArray.make((v.leafblock(td, l),), el)
    v.eq("hvp", v["curv.hessian.hvp"](F, p, x), SymTree.make(td, leaf))
