"""C12: Lanczos builds an orthonormal basis and compresses the operator onto it."""
from vf.driver import spec
from vf import term as T, core as C, loops
from vf.core import SymArray, SymNum, E
from vf.term import R

LA = "laplax.curv.lanczos."


def vec_dims(x):
    return [C.dim_size(d) for d in x.dims] if isinstance(x, SymArray) else None


def basis(v, n, i, alpha, beta):
    """The vectors generated so far, V_0..V_i (orthonormal), an arbitrary symmetric operator's images A V_0..A V_i, with
    <V_l, A V_q> = T(l,q): for l < i the images A V_l lie in span(V_0..V_{l+1}), so <V_l, A V_i> = beta_l [l+1 == i]."""
    R.pairs[("V", "V")] = (n, lambda a, b: T.iv(T.eq(a[0], b[0])))

    def VA(a, b):
        l, q = a[0], b[0]
        if (q - i).is_zero():
            if (l - i).is_zero():
                return alpha
            if T.decide(T.lt(l, i)) is True:
                return beta(l) * T.iv(T.eq(l + 1, i))
        return None
    R.pairs[("V", "AV")] = (n, VA)
    R.pairs[("AV", "V")] = (n, lambda a, b: VA(b, a))
    return (lambda l, d: T.app("V", l, d)), (lambda l, d: T.app("AV", l, d))


def run(v, jit, state, check, operator, m, n, inner):
    """lanczos_iterations with the invariant (state, check) on its iterations and the closed form `inner` for the
    re-orthogonalisation of a vector."""
    def policy(lp):
        s0 = lp.mapping(lp.read())
        if set(lp.names) == {"carry", "y"}:
            c = s0["carry"]
            if isinstance(c, SymArray) and len(c.dims) == 1:
                return loops.closed_form(lambda k, s: {"carry": inner(k, s["carry"])}, v._add, "re-orthogonalisation")
            return loops.invariant(lambda k, s: {"carry": state(k)}, lambda k, s: check(k, s["carry"]))
        return loops.invariant(lambda k, s: dict(zip(("v", "alpha", "beta", "V"), state(k))),
                               lambda k, s: check(k, tuple(s[x] for x in ("v", "alpha", "beta", "V"))))
    E.loop_policy = policy
    b = v.arr("b", (n,))
    return v[  "curv.lanczos.lanczos_iterations"](operator, b, maxiter=C.mknum(m), tol=v.real("tol", pos=True), mv_jit=jit)


def step(v, jit, broken):
    n, m = v.size("n"), v.size("m")
    al, be = (lambda j: T.app("al", j)), (lambda j: T.app("be", j))
    cur = {}
    Z = T.ZERO
    tol = v.real("tol", pos=True).p

    def entries(k, x):
        Vs, AV = cur["fns"]
        return (SymArray.make((n,), lambda d: (Z if broken else Vs(k, d))),
                SymArray.make((m,), lambda j: T.ite(T.lt(j, k), al(j), Z)),
                SymArray.make((m,), lambda j: T.ite(T.lt(j, k), be(j), Z)),
                SymArray.make((m + 1, n), lambda j, d: T.ite(T.lt(j, k) if broken else T.le(j, k), Vs(j, d), Z)))

    def state(k):
        cur["k"] = k
        cur["fns"] = basis(v, n, k, T.app("Tii", k), be)
        return entries(k, None)

    def operator(x):
        k = cur.get("k")
        if k is None:
            raise AssertionError("no iteration")
        Vs, AV = cur["fns"]
        if broken:
            v.eq("the operator is applied to the zero vector", x, SymArray.make((n,), lambda d: Z))
            return SymArray.make((n,), lambda d: Z)
        v.eq("the operator is applied to the last vector", x, SymArray.make((n,), lambda d: Vs(k, d)))
        return SymArray.make((n,), lambda d: AV(k, d))

    def inner(j, w):
        Vs, _ = cur["fns"]
        return SymArray.make((n,), lambda d: w.el(d) - T.bigsum(j, lambda l: T.bigsum(n, lambda e: Vs(l, e) * w.el(e)) * Vs(l, d)))

    def check(k, s):
        vec, alpha, beta, V = s
        if k.is_zero():
            if broken:
                return
            # start: the normalised start vector, everything else zero
            nb = T.sqrt(T.bigsum(n, lambda d: T.app("b", d) ** 2))
            v.eq("start vector", vec, SymArray.make((n,), lambda d: T.app("b", d) / nb))
            v.eq("initial alpha", alpha, SymArray.make((m,), lambda j: Z))
            v.eq("initial beta", beta, SymArray.make((m,), lambda j: Z))
            v.eq("initial basis", V, SymArray.make((m + 1, n), lambda j, d: T.iv(T.eq(j, Z)) * T.app("b", d) / nb))
            v.assume(T.lt(Z, T.bigsum(n, lambda d: T.app("b", d) ** 2)))
            v.eq("the start vector has norm one", T.bigsum(n, lambda d: V.el(Z, d) ** 2), T.PONE)
            return
        i = cur["k"]
        Vs, AV = cur["fns"]
        v0, al0, be0, V0 = entries(i, None)
        jv = v.index("j", m)
        if broken:
            v.eq("broken: the next vector is zero", vec, SymArray.make((n,), lambda d: Z))
            v.eq("broken: alpha is extended by zero", alpha, al0)
            v.eq("broken: beta is extended by zero", beta, be0)
            v.eq("broken: the basis is extended by zero", V, V0)
            return
        a = T.app("Tii", i)
        prev = lambda d: T.iv(T.le(T.PONE, i)) * be(i - 1) * Vs(i - 1, d)
        w = lambda d: AV(i, d) - a * Vs(i, d) - prev(d)         # A V_i minus its components along V_0..V_i
        b = T.sqrt(T.bigsum(n, lambda d: w(d) ** 2))
        v.eq("alpha: <V_i, A V_i> is stored, the rest is kept", alpha, SymArray.make((m,), lambda j: T.ite(T.eq(j, i), a, al0.el(j))))
        V1 = lambda j, d: T.ite(T.le(j, i), Vs(j, d), T.iv(T.eq(j, i + 1)) * vec.el(d))
        v.eq("the basis is extended by the next vector", V, SymArray.make((m + 1, n), V1))
        for x, y in ((i, "V_i"), (v.index("q", i), "an earlier V_q")):
            v.eq(f"the remainder is orthogonal to {y}", T.bigsum(n, lambda d: w(d) * Vs(x, d)), Z)
            v.eq(f"the next vector is orthogonal to {y}", T.bigsum(n, lambda d: vec.el(d) * Vs(x, d)), Z)
        if E.branch(T.le(tol, b)):
            v.eq("beta: the norm of the remainder is stored, the rest is kept", beta, SymArray.make((m,), lambda j: T.ite(T.eq(j, i), b, be0.el(j))))
            v.eq("three-term recurrence", SymArray.make((n,), lambda d: AV(i, d)),
                 SymArray.make((n,), lambda d: a * Vs(i, d) + prev(d) + beta.el(i) * vec.el(d)))
            v.eq("the next vector has norm one", T.bigsum(n, lambda d: vec.el(d) ** 2), T.PONE)
        else:
            v.eq("breakdown: beta is zero, the rest is kept", beta, be0)
            v.eq("breakdown: the next vector is zero", vec, SymArray.make((n,), lambda d: Z))
    out = run(v, jit, state, check, operator, m, n, inner)
    alpha, beta, V = out
    _, al1, be1, V1 = entries(m, None)
    v.eq("returned alpha", alpha, al1)
    v.eq("returned beta", beta, be1)
    v.eq("returned vectors", V, V1)


@spec("C12", [LA + "lanczos_iterations"], "scan version: the invariant (orthonormal vectors, recurrence, breakdown) holds initially and is kept by every iteration")
def iterations_scan(v):
    step(v, True, False)


@spec("C12", [LA + "lanczos_iterations"], "Python-loop version: the invariant holds initially and is kept by every iteration")
def iterations_loop(v):
    step(v, False, False)


@spec("C12", [LA + "lanczos_iterations"], "scan version: after a breakdown only zero vectors and coefficients")
def breakdown_scan(v):
    step(v, True, True)


@spec("C12", [LA + "lanczos_iterations"], "Python-loop version: after a breakdown only zero vectors and coefficients")
def breakdown_loop(v):
    step(v, False, True)


def tridiagonal(m):
    al, be = (lambda j: T.app("alpha", j)), (lambda j: T.app("beta", j))
    return lambda j, k: T.iv(T.eq(j, k)) * al(j) + T.iv(T.eq(j + 1, k)) * be(j) + T.iv(T.eq(k + 1, j)) * be(k)


@spec("C12", [LA + "construct_tridiagonal", LA + "compute_eigendecomposition"],
      "T is tridiagonal with alpha on and beta next to the diagonal; U diag(S) U^T = V^T T V on the first m vectors; U is orthonormal when they are")
def decomposition(v):
    n, m = v.size("n"), v.size("m")
    v.assume(T.le(m, n))
    LM = v.mod("curv.lanczos")
    alpha, beta = v.arr("alpha", (m,)), v.arr("beta", (m,))
    tri = tridiagonal(m)
    v.eq("construct_tridiagonal", LM.construct_tridiagonal(alpha, beta), SymArray.make((m, m), tri))
    R.pairs[("V", "V")] = (n, lambda a, b: T.iv(T.eq(a[0], b[0])))
    V = v.arr("V", (m + 1, n))
    S, U = LM.compute_eigendecomposition(alpha, beta, V, compute_vectors=True)
    v.eq("U diag(S) U^T", SymArray.make((n, n), lambda c, d: T.bigsum(m, lambda k: U.el(c, k) * S.el(k) * U.el(d, k))),
         SymArray.make((n, n), lambda c, d: T.bigsum(m, lambda j: T.bigsum(m, lambda k: T.app("V", j, c) * tri(j, k) * T.app("V", k, d)))))
    v.eq("U^T U", SymArray.make((m, m), lambda j, k: T.bigsum(n, lambda d: U.el(d, j) * U.el(d, k))),
         SymArray.make((m, m), lambda j, k: T.iv(T.eq(j, k))))
    w = LM.compute_eigendecomposition(alpha, beta, V)
    v.eq("eigenvalues only", w, S)


@spec("C12", [LA + "lanczos_iterations"], "lemmas over the invariant: <V_l, A V_j> is the tridiagonal matrix, and the compression onto the span is the operator when the span is invariant")
def lemmas(v):
    n, m = v.size("n"), v.size("m")
    al, be = (lambda j: T.app("alpha", j)), (lambda j: T.app("beta", j))
    R.pairs[("V", "V")] = (n, lambda a, b: T.iv(T.eq(a[0], b[0])))
    Vs = lambda j, d: T.app("V", j, d)
    i = v.index("i", m)
    img = lambda l: lambda d: al(l) * Vs(l, d) + T.iv(T.le(T.PONE, l)) * be(l - 1) * Vs(l - 1, d) + be(l) * Vs(l + 1, d)
    l = v.index("l", i + 1)
    # recurrence for l <= i and orthonormality up to i+1 give the inner products used at iteration i+1
    v.eq("<A V_l, V_(i+1)> = beta_l [l = i] for l <= i", T.bigsum(n, lambda d: img(l)(d) * Vs(i + 1, d)), be(i) * T.iv(T.eq(l, i)))
    # compression: T_jk = <V_j, A V_k>
    A = v.spd("A", n)
    P = lambda c, d: T.bigsum(m, lambda j: Vs(j, c) * Vs(j, d))
    Tjk = lambda j, k: T.bigsum(n, lambda c: T.bigsum(n, lambda d: Vs(j, c) * A.el(c, d) * Vs(k, d)))
    v.eq("V^T T V is the operator compressed onto the span",
         SymArray.make((n, n), lambda c, d: T.bigsum(m, lambda j: T.bigsum(m, lambda k: Vs(j, c) * Tjk(j, k) * Vs(k, d)))),
         SymArray.make((n, n), lambda c, d: T.bigsum(n, lambda e: T.bigsum(n, lambda f: P(c, e) * A.el(e, f) * P(f, d)))))
    tri = tridiagonal(m)
    k = v.index("k", m)
    last = lambda d: al(k) * Vs(k, d) + T.iv(T.le(T.PONE, k)) * be(k - 1) * Vs(k - 1, d) + T.iv(T.lt(k, m - 1)) * be(k) * Vs(k + 1, d)
    v.eq("exhausted Krylov space: V^T T V reproduces the operator on it",
         SymArray.make((n,), lambda c: T.bigsum(n, lambda d: T.bigsum(m, lambda j: T.bigsum(m, lambda q: Vs(j, c) * tri(j, q) * Vs(q, d))) * Vs(k, d))),
         SymArray.make((n,), last))


@spec("C12", [LA + "lanczos_lowrank", "laplax.curv.utils.get_matvec"],
      "the low-rank terms are the decomposition of the iteration's coefficients for the flattened operator, start vector and options given; zero scalar part")
def low_rank(v):
    LM = v.mod("curv.lanczos")
    v.cfg.update("jax_enable_x64", True)
    td = v.treedef()
    lay = v.tree("lay", td)
    n, m = v.treesize(td), v.size("m")
    calls = []
    tri = tridiagonal(m)

    def stand_in(matvec, b, **kw):
        calls.append((matvec, b, kw))
        return v.arr("alpha", (m,)), v.arr("beta", (m,)), v.arr("V", (m + 1, n))
    LM.lanczos_iterations = stand_in
    from contracts.c02_dense import tree_op, flat_matrix
    mv = tree_op(v, td)
    key, b, x = v.jax.random.key(3), v.arr("b0", (n,)), v.arr("x", (n,))
    M = v.spd("SM", n)
    want = SymArray.make((n, n), lambda c, d: T.bigsum(m, lambda j: T.bigsum(m, lambda k: T.app("V", j, c) * tri(j, k) * T.app("V", k, d))))
    opts = {"rank": C.mknum(m), "tol": v.real("tol", pos=True), "full_reorthogonalize": object(), "mv_jit": False}
    FM = flat_matrix(v, td)
    for nm, A, kw in (("tree operator, start vector", mv, {"layout": lay, "b": b}), ("matrix, random start", M, {"key": key})):
        calls.clear()
        t = LM.lanczos_lowrank(A, **opts, **kw)
        v.true(f"{nm}: one run", len(calls) == 1)
        matvec, b1, given = calls[0]
        mat = FM if A is mv else M
        v.eq(f"{nm}: flat operator", matvec(x), SymArray.make((n,), lambda i: T.bigsum(n, lambda j: mat.el(i, j) * x.el(j))))
        v.eq(f"{nm}: start vector", b1, b if "b" in kw else v.jax.random.normal(key, (n,)))
        v.eq(f"{nm}: number of iterations", given.get("maxiter", 20), opts["rank"])
        v.eq(f"{nm}: tolerance", given.get("tol", 1e-6), opts["tol"])
        v.true(f"{nm}: re-orthogonalisation and jit as requested", given.get("full_reorthogonalize", True) is opts["full_reorthogonalize"] and given.get("mv_jit", True) is False)
        v.eq(f"{nm}: U diag(S) U^T", SymArray.make((n, n), lambda c, d: T.bigsum(m, lambda k: t.U.el(c, k) * t.S.el(k) * t.U.el(d, k))), want)
        v.eq(f"{nm}: scalar part", t.scalar, 0.0)
    v.raises("neither key nor start vector", ValueError, lambda: LM.lanczos_lowrank(M, **opts))
