from oracles.common import *
from laplax.curv.cov import Posterior
from laplax.eval.pushforward import get_dist_state, set_get_weight_sample

KINDS = ["noise", "samples", "state", "statistics"]
FIXED = sum([seeds(k, 2) for k in KINDS[:3]], []) + seeds("statistics", 1)
random_case = pick(KINDS[:3])
OPTS = [{}, {"set_get_weight_sample_precompute": True}, {"set_get_weight_sample_precompute": False}, {"precompute": True}, {"precompute": False},
        {"precompute_list_batch_size": 1}, {"precompute_list_batch_size": 2}, {"precompute_list_batch_size": 3, "set_get_weight_sample_precompute": True}]


def check(c):
    r, kind = rs(c), c["kind"]
    mean = rand_tree(r)
    n, P = int(r.randint(1, 6)), size(mean)
    key = jax.random.key(int(r.randint(1000))) if r.randint(4) else None
    zero = jax.tree.map(jnp.zeros_like, mean)
    ident = lambda t: t
    S = jnp.asarray(r.normal(size=(P, P)))

    def scale(t):
        return unflat_j(mean, S @ jnp.concatenate([jnp.reshape(x, -1) for x in jax.tree.leaves(t)]))
    noise = set_get_weight_sample(key, zero, ident, n, set_get_weight_sample_precompute=False)
    Z = np.stack([flat(noise(i)) for i in range(n)])
    if kind == "noise":
        assert all(jax.tree.structure(noise(i)) == jax.tree.structure(mean) for i in range(n)), "structure"
        for i in range(n):
            for a, b in zip(jax.tree.leaves(noise(i)), jax.tree.leaves(mean)):
                assert np.shape(a) == np.shape(b), "shape"
        assert len(np.unique(Z)) == Z.size, "two draws share a value (keys are not independent)"
        Z2 = np.stack([flat(set_get_weight_sample(key, zero, ident, n)(i)) for i in range(n)])
        close(Z2, Z, "repeated call")
        if key is None:
            close(np.stack([flat(set_get_weight_sample(jax.random.key(0), zero, ident, n)(i)) for i in range(n)]), Z, "default key")
    elif kind == "samples":
        for kw in OPTS:
            f = set_get_weight_sample(key, mean, scale, n, **kw)
            for i in range(n):
                tree_close(f(i), unflat(mean, flat(mean) + np.asarray(S) @ Z[i]), f"{kw} sample {i}")
    elif kind == "state":
        post = Posterior(state={"S": S}, cov_mv=None, scale_mv=lambda s: lambda t: unflat_j(mean, s["S"] @ jnp.concatenate([jnp.reshape(x, -1) for x in jax.tree.leaves(t)])))
        for lin in (False, True):
            ds = get_dist_state(mean, lambda input, params: jnp.zeros(1), post, linearized=lin, num_samples=n, key=key, **OPTS[r.randint(len(OPTS))])
            for i in range(n):
                tree_close(ds["get_weight_samples"](i), unflat(mean, (0 if lin else flat(mean)) + np.asarray(S) @ Z[i]), f"linearised {lin} sample {i}")
    else:
        m = 10000
        f = set_get_weight_sample(jax.random.key(3), zero, ident, m)
        t = jax.vmap(lambda i: f(i))(jnp.arange(m))
        Z = np.concatenate([np.asarray(x).reshape(m, -1) for x in jax.tree.leaves(t)], 1)
        assert Z.dtype != np.float64 or len(np.unique(Z[:, 0])) == m, "samples repeat"
        assert np.all(np.abs(Z.mean(0)) < 0.12) and np.all(np.abs(Z.var(0) - 1) < 0.2), f"not standard normal: mean {Z.mean(0)[:3]} var {Z.var(0)[:3]}"
        if Z.shape[1] > 1:
            assert np.max(np.abs(np.corrcoef(Z.T) - np.eye(Z.shape[1]))) < 0.12, "draws are correlated"


def unflat_j(t, v):
    out, k = [], 0
    for x in jax.tree.leaves(t):
        n = np.asarray(x).size
        out.append(v[k:k + n].reshape(np.shape(x)))
        k += n
    return jax.tree.unflatten(jax.tree.structure(t), out)
