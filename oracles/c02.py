from oracles.common import *
from laplax.util import mv as M, tree as TT
from laplax.curv.full import create_full_curvature
from laplax.curv.diagonal import create_diagonal_curvature
from laplax.curv.utils import get_matvec

KINDS = ["flat", "tree", "unit", "matvec"]
FIXED = sum([seeds(k, 3) for k in KINDS], [])
random_case = pick(KINDS)


def check(c):
    r = rs(c)
    t = rand_tree(r, bare=True)
    P = size(t)
    if c["kind"] == "flat":
        n, m = r.randint(1, 7), r.randint(1, 6)
        A, B = r.normal(size=(n, n)), r.normal(size=(m, n))
        mv, mb = (lambda x: A @ x), (lambda x: B @ x)
        for bs in (None, 1, 2, 5):
            close(M.to_dense(mv, n, to_dense_batch_size=bs), A, f"to_dense batch {bs}")
            close(M.to_dense(mb, n, to_dense_batch_size=bs), B, f"to_dense rectangular batch {bs}")
            close(M.diagonal(mv, n, diagonal_batch_size=bs), np.diag(A), f"diagonal batch {bs}")
        close(M.diagonal(mv, n, mv_jittable=False), np.diag(A), "diagonal not jittable")
        close(M.diagonal(jnp.asarray(A)), np.diag(A), "diagonal of array")
        raises(TypeError, lambda: M.diagonal(mv), "diagonal without layout")
    elif c["kind"] == "tree":
        A = r.normal(size=(P, P))
        mv = lambda x: unflat(t, A @ jnp.concatenate([y.reshape(-1) for y in jax.tree.leaves(x)]))
        close(create_full_curvature(mv, t), A, "create_full_curvature")
        close(create_diagonal_curvature(mv, layout=t), np.diag(A), "create_diagonal_curvature")
        close(M.diagonal(mv, t), np.diag(A), "diagonal")
        close(M.diagonal(mv, t, diagonal_batch_size=2), np.diag(A), "diagonal in batches")
        m = r.randint(1, 4)
        B = r.normal(size=(m, P))
        close(M.to_dense(lambda x: B @ jnp.concatenate([y.reshape(-1) for y in jax.tree.leaves(x)]), t), B, "to_dense tree -> vector")
    elif c["kind"] == "unit":
        for p in range(P):
            e = np.zeros(P)
            e[p] = 1
            tree_close(TT.basis_vector_from_index(p, t), unflat(t, e), f"basis vector {p}")
            close(TT.tree_vec_get(t, p), flat(t)[p], f"tree_vec_get {p}")
        for f in (TT.eye_like, TT.eye_like_with_basis_vector):
            got = np.concatenate([np.asarray(x).reshape(P, -1) for x in jax.tree.leaves(f(t))], axis=1)
            close(got, np.eye(P), f.__name__)
    else:
        A = r.normal(size=(P, P))
        x = r.normal(size=P)
        mvt = lambda v: unflat(t, A @ jnp.concatenate([y.reshape(-1) for y in jax.tree.leaves(v)]))
        for a, lay in ((jnp.asarray(A), None), ((lambda v: A @ v), P), (mvt, t)):
            for jit in (True, False):
                f, s = get_matvec(a, layout=lay, jit=jit)
                assert s == P, f"size {s} instead of {P}"
                close(f(jnp.asarray(x)), A @ x, "matvec")
        raises(TypeError, lambda: get_matvec(mvt), "get_matvec without layout")
