"""C10: posterior scale times its transpose is the inverse of the precision."""
from vf.driver import spec
from vf import term as T, core as C, shims, prove
from vf.core import SymArray, SymTree, SymNum
from contracts.c09_precision import low_rank_matrix

FU, DI, LR = "laplax.curv.full.", "laplax.curv.diagonal.", "laplax.curv.low_rank."


def matrix_of(mv, n, m=None):
    """The matrix of a linear map given as a function on vectors."""
    def el(i, j):
        unit = SymArray.make((n,), lambda k: T.iv(T.eq(k, j)))
        return mv(unit).el(i)
    return SymArray.make((n, n), el)


def tables(v, kind):
    c = v.mod("curv.cov")
    return c.CURVATURE_TO_POSTERIOR_STATE[kind], c.CURVATURE_STATE_TO_SCALE[kind], c.CURVATURE_STATE_TO_COV[kind]


def eye(n):
    return SymArray.make((n, n), lambda i, j: T.iv(T.eq(i, j)))


def common(v, tag, st, to_scale, to_cov, n):
    """covariance and scale of one state as matrices; linearity; S S^T = cov."""
    x, y, c = v.arr("x", (n,)), v.arr("y", (n,)), v.real("c")
    scale, cov = to_scale(st), to_cov(st)
    S, K = matrix_of(scale, n), matrix_of(cov, n)
    v.eq(f"{tag}: scale is linear", scale(x + c * y), S @ x + c * (S @ y))
    v.eq(f"{tag}: covariance is linear", cov(x + c * y), K @ x + c * (K @ y))
    v.eq(f"{tag}: S S^T = covariance", S @ S.T, K)
    return S, K


@spec("C10", [FU + n for n in ("full_prec_to_scale", "full_prec_to_posterior_state", "full_posterior_state_to_scale", "full_posterior_state_to_cov")],
      "full: S S^T = covariance = precision^-1 for every symmetric positive definite precision")
def full_structure(v):
    n = v.size("P")
    prec = v.spd("A", n)
    to_state, to_scale, to_cov = tables(v, "full")
    S, K = common(v, "full", to_state(prec), to_scale, to_cov, n)
    # the factor of the precision that Cholesky gives: lemma P = U U^T, then K (U U^T) = I
    fl = v.jnp.flip(prec, axis=(-2, -1))
    low = v.jnp.linalg.cholesky(fl)
    U = v.jnp.flip(low, axis=(-2, -1))
    v.eq("lemma: precision = U U^T", U @ U.T, prec)

    def left():
        with shims.uncontracted():
            return prove.prove_eq(K @ (U @ U.T), eye(n))

    def right():
        with shims.uncontracted():
            return prove.prove_eq((U @ U.T) @ K, eye(n))
    v.any_of("covariance precision = identity", lambda: prove.prove_eq(K @ prec, eye(n)), left)
    v.any_of("precision covariance = identity", lambda: prove.prove_eq(prec @ K, eye(n)), right)


@spec("C10", [DI + n for n in ("diagonal_prec_to_posterior_state", "diagonal_posterior_state_to_scale", "diagonal_posterior_state_to_cov")],
      "diagonal: S S^T = covariance = precision^-1 for every positive diagonal")
def diagonal_structure(v):
    n = v.size("P")
    prec = v.arr("d", (n,), pos=True)
    to_state, to_scale, to_cov = tables(v, "diagonal")
    S, K = common(v, "diagonal", to_state(prec), to_scale, to_cov, n)
    P = SymArray.make((n, n), lambda i, j: T.iv(T.eq(i, j)) * prec.el(i))
    v.eq("covariance precision = identity", K @ P, eye(n))


@spec("C10", [LR + n for n in ("low_rank_prec_to_posterior_state", "low_rank_posterior_state_to_scale", "low_rank_posterior_state_to_cov",
                               "create_low_rank_mv", "low_rank_square")],
      "low rank with orthonormal factors: S S^T = covariance = precision^-1 for every positive definite precision")
def low_rank_structure(v):
    n, r = v.size("P"), v.size("R")
    U = v.orthonormal("U", n, r)
    w = v.arr("w", (r,), pos=True)              # the positive eigenvalues S + scalar
    c = v.arr("c", (), pos=True)
    LT = v.mod("curv.utils").LowRankTerms
    for kind in ("lanczos", "lobpcg"):
        to_state, to_scale, to_cov = tables(v, kind)
        prec = LT(U=U, S=w - c, scalar=c)
        S, K = common(v, kind, to_state(prec), to_scale, to_cov, n)
        v.eq(f"{kind}: covariance precision = identity", K @ low_rank_matrix(prec, n), eye(n))
        v.true(f"{kind}: the precision is unchanged", prec.U is U and prec.scalar is c)


@spec("C10", [LR + "create_low_rank_mv", LR + "low_rank_square"], "the low-rank product and its square")
def low_rank_algebra(v):
    n, r = v.size("P"), v.size("R")
    LT = v.mod("curv.utils").LowRankTerms
    U, S, c, x = v.arr("V", (n, r)), v.arr("S", (r,)), v.arr("c", ()), v.arr("x", (n,))
    t = LT(U=U, S=S, scalar=c)
    v.eq("product", v["curv.low_rank.create_low_rank_mv"](t)(x), low_rank_matrix(t, n) @ x)
    Uo = v.orthonormal("U", n, r)
    t = LT(U=Uo, S=S, scalar=c)
    sq = v["curv.low_rank.low_rank_square"](t)
    M = low_rank_matrix(t, n)
    v.eq("square of the represented matrix", low_rank_matrix(sq, n), M @ M)
