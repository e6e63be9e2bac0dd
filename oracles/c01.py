from oracles.common import *
from laplax.util import flatten as F

KINDS = ["tree", "partial", "unravel", "wrap"]
FIXED = sum([seeds(k, 3) for k in KINDS], [])
random_case = pick(KINDS)


def check(c):
    r = rs(c)
    t = rand_tree(r, shapes=EMPTY, bare=True)
    fl, un = F.create_pytree_flattener(t)
    P = size(t)
    if c["kind"] == "tree":
        close(fl(t), flat(t), "flatten order")
        close(F.full_flatten(t), flat(t), "full_flatten order")
        tree_close(un(fl(t)), t, "unflatten(flatten(t))")
        v = r.normal(size=P)
        tree_close(un(jnp.asarray(v)), unflat(t, v), "unflatten order")
        close(fl(un(jnp.asarray(v))), v, "flatten(unflatten(v))")
        tree_close(jax.jit(lambda x: un(fl(x)))(t), t, "under jit")
    elif c["kind"] == "partial":
        k = r.randint(1, 4)
        t2 = jax.tree.map(lambda x: jnp.asarray(r.normal(size=np.shape(x) + (k,))), t)
        f2, u2 = F.create_partial_pytree_flattener(t2)
        want = np.concatenate([np.asarray(x).reshape(-1, k) for x in jax.tree.leaves(t2)])
        close(f2(t2), want, "partial flatten")
        tree_close(u2(f2(t2)), t2, "partial round trip")
        m = r.normal(size=want.shape)
        close(f2(u2(jnp.asarray(m))), m, "partial round trip 2")
    elif c["kind"] == "unravel":
        n, m = r.randint(1, 4), r.randint(1, 4)
        offs = np.cumsum([0] + [np.asarray(x).size for x in jax.tree.leaves(t)])
        rank = r.randint(1, 5)
        at = r.randint(rank)
        shape = [int(x) for x in r.randint(1, 4, size=rank)]
        shape[at] = P
        for shape, ax in (((P, m), 0), ((n, P), 1), ((n, P), -1), ((n, P, m), 1), ((n, m, P), -1), ((P, n, m), -3), (tuple(shape), at), (tuple(shape), at - rank)):
            a = r.normal(size=shape)
            got = F.unravel_array_into_pytree(t, ax, jnp.asarray(a))
            axp = ax % len(shape)
            want = [np.take(a, range(offs[i], offs[i + 1]), axis=axp).reshape(shape[:axp] + np.shape(x) + shape[axp + 1:])
                    for i, x in enumerate(jax.tree.leaves(t))]
            tree_close(got, jax.tree.unflatten(jax.tree.structure(t), want), f"unravel axis {ax} of {shape}")
    else:
        def f(*a, **k):
            return ("f", a, tuple(sorted(k.items())))
        i, o = (lambda x: ("i", x)), (lambda x: ("o", x))
        n = r.randint(1, 4)
        k = r.randint(n)
        xs = list(range(n))
        for hi in (0, 1):
            for ho in (0, 1):
                got = F.wrap_function(f, input_fn=i if hi else None, output_fn=o if ho else None, argnums=int(k))(*xs, q=3)
                want = ("f", tuple(("i", x) if hi and j == k else x for j, x in enumerate(xs)), (("q", 3),))
                assert got == (("o", want) if ho else want), f"wrap_function n={n} k={k}: {got}"
        g = F.wrap_factory(lambda z: (lambda x: ("f", z, x)), i, o)(5)
        assert g(7) == ("o", ("f", 5, ("i", 7))), "wrap_factory"
        h = F.flatten_function(lambda tree: jax.tree.map(lambda x: 2 * x, tree), layout=t)
        v = r.normal(size=P)
        close(h(jnp.asarray(v)), 2 * v, "flatten_function")
