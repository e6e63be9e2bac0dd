"""Shared pieces of the concrete oracles."""
import random
import jax
import jax.numpy as jnp
import numpy as np


class Skip(Exception):
    pass


def rs(case, salt=0):
    return np.random.RandomState((case.get("seed", 0) * 1009 + salt) % (2 ** 31))


def mag(r, *ks):
    """A magnitude: mostly 1, else one of 10^ks."""
    ks = ks or (-4, -8, 3)
    return 10.0 ** int(r.choice((0,) * len(ks) + ks))


def near(a, b, what="", tol=1e-7):
    """Equality relative to the magnitude of the expected values, however small."""
    close(a, b, what, tol, 1e-200)


def close(a, b, what="", tol=1e-7, floor=1.0):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}"
    if a.size == 0:
        return
    scale = max(floor, float(np.max(np.abs(b))))
    d = np.abs(a - b)
    bad = not np.all(np.isfinite(a) == np.isfinite(b)) or not np.all(d[np.isfinite(d)] <= tol * scale)
    assert not bad, f"{what}: got {np.round(a.ravel()[:8], 6).tolist()} expected {np.round(b.ravel()[:8], 6).tolist()} (max diff {np.nanmax(d):.3g})"


def tree_close(a, b, what="", tol=1e-7):
    la, da = jax.tree.flatten(a)
    lb, db = jax.tree.flatten(b)
    assert da == db, f"{what}: structure {da} instead of {db}"
    for i, (x, y) in enumerate(zip(la, lb)):
        close(x, y, f"{what} leaf {i}", tol)


def raises(exc, fn, what=""):
    try:
        fn()
    except exc:
        return
    except Exception as e:
        raise AssertionError(f"{what}: raised {type(e).__name__} ({str(e)[:150]}) instead of {exc}")
    raise AssertionError(f"{what}: no exception")


SHAPES = [(), (1,), (2,), (3,), (2, 2), (1, 3), (3, 2), (2, 1, 2)]


EMPTY = [*SHAPES, (0,), (2, 0)]


def rand_tree(r, kinds=3, shapes=SHAPES, bare=False):
    """A random pytree of arrays (dict / list / tuple nesting); sometimes two leaves are one object."""
    made = []

    def leaf():
        if made and r.randint(6) == 0:
            return made[0]
        s = shapes[r.randint(len(shapes))]
        made.append(jnp.asarray(r.normal(size=s)))
        return made[-1]
    k = r.randint(4)
    if bare and r.randint(8) == 0:
        return leaf()
    if k == 0:
        return {"b": leaf(), "a": leaf()}
    if k == 1:
        return [leaf() for _ in range(r.randint(1, 4))]
    if k == 2:
        return {"w": {"kernel": leaf(), "bias": leaf()}, "c": (leaf(), leaf())}
    return (leaf(), {"z": leaf()})


def flat(t):
    return np.concatenate([np.asarray(x).reshape(-1) for x in jax.tree.leaves(t)]) if jax.tree.leaves(t) else np.zeros(0)


def size(t):
    return int(sum(np.asarray(x).size for x in jax.tree.leaves(t)))


def unflat(t, v):
    out, k = [], 0
    for x in jax.tree.leaves(t):
        n = np.asarray(x).size
        out.append(jnp.asarray(v[k:k + n]).reshape(np.shape(x)))
        k += n
    return jax.tree.unflatten(jax.tree.structure(t), out)


def seeds(kind, n, **kw):
    return [{"kind": kind, "seed": k, **kw} for k in range(n)]


def pick(kinds):
    def random_case(rng):
        return {"kind": rng.choice(kinds), "seed": rng.randrange(10 ** 6)}
    return random_case


def spd(r, n, lo=0.2):
    a = r.normal(size=(n, n))
    return a @ a.T + lo * np.eye(n)


def psd(r, n, rank=None):
    rank = n if rank is None else rank
    a = r.normal(size=(n, rank))
    return a @ a.T
