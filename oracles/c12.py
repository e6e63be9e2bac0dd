from oracles.common import *
from laplax.curv import lanczos as L

KINDS = ["iterations", "lowrank", "exhausted", "tridiagonal"]
FIXED = sum([seeds(k, 4) for k in KINDS], [])
random_case = pick(KINDS)


def operator(r, n, rank=None):
    """A symmetric matrix with well separated eigenvalues."""
    q = np.linalg.qr(r.normal(size=(n, n)))[0]
    k = n if rank is None else rank
    w = np.zeros(n)
    w[:k] = np.cumsum(r.uniform(0.7, 1.5, size=k)) * r.choice([-1, 1], size=k)
    return (q * w) @ q.T, q, k


def check(c):
    r, kind = rs(c), c["kind"]
    n = r.randint(2, 9)
    jit = bool(r.randint(2))
    if kind == "tridiagonal":
        m = r.randint(1, 6)
        a, b = r.normal(size=m), r.normal(size=m)
        want = np.diag(a) + np.diag(b[:m - 1], 1) + np.diag(b[:m - 1], -1)
        close(L.construct_tridiagonal(jnp.asarray(a), jnp.asarray(b)), want, "T")
        V = np.linalg.qr(r.normal(size=(m + 2, m + 2)))[0][:m + 1]
        w, u = L.compute_eigendecomposition(jnp.asarray(a), jnp.asarray(b), jnp.asarray(V), compute_vectors=True)
        u, w = np.asarray(u), np.asarray(w)
        close(u @ np.diag(w) @ u.T, V[:m].T @ want @ V[:m], "U S U^T")
        close(L.compute_eigendecomposition(jnp.asarray(a), jnp.asarray(b), jnp.asarray(V)), np.linalg.eigvalsh(want), "eigenvalues")
        return
    # the start vector lies in the span of k eigenvectors: the Krylov space has dimension k
    k = r.randint(1, n + 1)
    A, q, _ = operator(r, n)
    b = q[:, :k] @ r.uniform(0.5, 1.5, size=k) * r.uniform(0.3, 3)
    op = (lambda x: jnp.asarray(A) @ x)
    if kind == "iterations":
        m = r.randint(1, n + 4)
        al, be, V = [np.asarray(z) for z in L.lanczos_iterations(op, jnp.asarray(b), maxiter=m, mv_jit=jit)]
        assert V.shape == (m + 1, n) and al.shape == (m,) and be.shape == (m,)
        g = min(m + 1, k)
        close(V[:g] @ V[:g].T, np.eye(g), "orthonormal vectors", 1e-6)
        close(V[g:], np.zeros((m + 1 - g, n)), "zero vectors after the breakdown", 1e-6)
        close(al[k:], np.zeros(max(0, m - k)), "alpha after the breakdown")
        close(be[k - 1:], np.zeros(max(0, m - k + 1)), "beta after the breakdown")
        close(V[0], b / np.linalg.norm(b), "start vector")
        for i in range(min(m, k)):
            want = al[i] * V[i] + (be[i - 1] * V[i - 1] if i else 0) + be[i] * V[i + 1]
            close(A @ V[i], want, f"recurrence {i}", 1e-5)
        return
    m = r.randint(1, n + 4) if kind == "lowrank" else k + r.randint(0, 4)
    t = L.lanczos_lowrank(op if r.randint(2) else jnp.asarray(A), b=jnp.asarray(b), layout=n, rank=m, mv_jit=jit)
    U, S = np.asarray(t.U), np.asarray(t.S)
    assert float(t.scalar) == 0.0 and U.shape == (n, m) and S.shape == (m,)
    K = [b / np.linalg.norm(b)]
    for _ in range(min(m, k) - 1):
        w = A @ K[-1]
        for _ in range(3):
            for x in K:
                w = w - (x @ w) * x
        K.append(w / np.linalg.norm(w))
    P = np.stack(K, 1) @ np.stack(K, 0)
    close(U @ np.diag(S) @ U.T, P @ A @ P, "compression onto the Krylov space", 1e-5)
    if kind == "exhausted":
        close(U @ np.diag(S) @ U.T @ q[:, :k], A @ q[:, :k], "the operator on the exhausted Krylov space", 1e-5)
