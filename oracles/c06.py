from oracles.common import *
from laplax.curv.ggn import create_loss_hessian_mv
from laplax.curv.hessian import hvp
from laplax.enums import LossFn

KINDS = ["mse", "bce", "ce", "none", "callable", "reject", "tree"]
FIXED = sum([seeds(k, 3) for k in KINDS], [])
random_case = pick(KINDS)


def hess_dir(f, p, x):
    H = jax.hessian(f)(p)
    return jnp.tensordot(H, x, axes=np.ndim(p))


def check(c):
    r, k = rs(c), c["kind"]
    sh = SHAPES[r.randint(len(SHAPES))]
    big = r.randint(3)
    scale = [1.0, 5.0, 30.0][big]
    p, t, x = (jnp.asarray(scale * r.normal(size=sh)), jnp.asarray(r.uniform(size=sh)), jnp.asarray(r.normal(size=sh)))
    if k == "mse":
        for key in ("mse", LossFn.MSE):
            close(create_loss_hessian_mv(key)(x, pred=p, target=t), hess_dir(lambda z: jnp.sum((z - t) ** 2), p, x), "mse")
    elif k == "none":
        close(create_loss_hessian_mv("none")(x, pred=p, target=t), x, "none")
    elif k == "bce":
        f = lambda z: jnp.sum(-t * jax.nn.log_sigmoid(z) - (1 - t) * jax.nn.log_sigmoid(-z))
        close(create_loss_hessian_mv("binary_cross_entropy")(x, pred=p, target=t), hess_dir(f, p, x), "bce")
    elif k == "ce":
        n = r.randint(1, 6)
        p, x, y = jnp.asarray(scale * r.normal(size=n)), jnp.asarray(r.normal(size=n)), r.randint(n)
        f = lambda z: -jax.nn.log_softmax(z)[y]
        for tgt in (jnp.asarray(y), jax.nn.one_hot(y, n)):
            close(create_loss_hessian_mv("cross_entropy")(x, pred=p, target=tgt), hess_dir(f, p, x), "cross entropy")
    elif k == "callable":
        w = jnp.asarray(r.normal(size=sh))
        f = lambda z, tt: jnp.sum(jnp.sin(z * w) * tt) + jnp.sum(z) ** 3 * jnp.sum(tt)
        p = p / scale
        close(create_loss_hessian_mv(f)(x, pred=p, target=t), hess_dir(lambda z: f(z, t), p, x), "callable")
    elif k == "reject":
        for bad in (None, "no such loss", 3, "MSE "):
            raises(ValueError, lambda: create_loss_hessian_mv(bad), f"loss {bad}")
    else:
        t0 = rand_tree(r)
        v = unflat(t0, r.normal(size=size(t0)))
        a = jnp.asarray(r.normal(size=size(t0)))
        fl = lambda q: jnp.concatenate([z.reshape(-1) for z in jax.tree.leaves(q)])
        f = lambda q: jnp.sum(jnp.sin(fl(q) * a)) + jnp.sum(a * fl(q)) ** 3
        H = jax.hessian(lambda z: f(unflat(t0, z)))(jnp.asarray(flat(t0)))
        tree_close(hvp(f, t0, v), unflat(t0, H @ flat(v)), "hvp")
