"""C09: every curvature structure yields the same posterior precision formula."""
from vf.driver import spec
from vf import term as T, core as C
from vf.core import SymArray, SymTree, SymNum

FU, DI, LR = "laplax.curv.full.", "laplax.curv.diagonal.", "laplax.curv.low_rank."


def arguments(v):
    """(prior arguments, sigma squared, prior precision) with and without sigma_squared; the formula takes any numbers, zero included."""
    d, s = v.real("delta"), v.real("s2")
    return [("sigma squared given", {"prior_prec": d, "sigma_squared": s}, s.p, d.p), ("default sigma squared", {"prior_prec": d}, T.PONE, d.p),
            ("zeros", {"prior_prec": 0.0, "sigma_squared": 0.0}, T.ZERO, T.ZERO), ("zero prior precision", {"prior_prec": 0, "sigma_squared": s}, s.p, T.ZERO)]


def low_rank_matrix(t, n):
    """The matrix represented by low-rank terms: scalar I + U diag(S) U^T."""
    r = t.S.dims[0]
    sc = C.scalar_poly(t.scalar)
    return SymArray.make((n, n), lambda i, j: sc * T.iv(T.eq(i, j)) + T.bigsum(r, lambda k: t.U.el(i, k) * t.S.el(k) * t.U.el(j, k)))


@spec("C09", [FU + "full_curvature_to_precision", DI + "diagonal_curvature_to_precision", LR + "low_rank_curvature_to_precision"],
      "precision = (sigma^2 C + delta I) / loss scaling, as matrices, for every structure; estimate and arguments are not modified")
def precision_formula(v):
    n, r = v.size("P"), v.size("R")
    lsf = v.real("lsf", pos=True)
    M = v.arr("C", (n, n))
    D = v.arr("D", (n,))
    U, S = v.arr("U", (n, r)), v.arr("S", (r,))
    T_ = v.mod("curv.utils").LowRankTerms
    tables = v["curv.cov.CURVATURE_PRECISION_METHODS"]
    eye = lambda i, j: T.iv(T.eq(i, j))
    for nm, args, s, d in arguments(v):
        keep = dict(args)
        for how, kw, l in (("scaled", {"loss_scaling_factor": lsf}, lsf.p), ("default scaling", {}, T.PONE)):
            tag = f"{nm}, {how}"
            full = tables["full"](M, args, **kw)
            v.eq(f"full, {tag}", full, SymArray.make((n, n), lambda i, j: (s * M.el(i, j) + d * eye(i, j)) / l))
            v.eq(f"diagonal, {tag}", tables["diagonal"](D, args, **kw), SymArray.make((n,), lambda i: (s * D.el(i) + d) / l))
            for kind in ("lanczos", "lobpcg"):
                est = T_(U=U, S=S, scalar=v.jnp.asarray(0.0))
                zero = est.scalar
                p = tables[kind](est, args, **kw)
                v.eq(f"{kind}, {tag}", low_rank_matrix(p, n),
                     SymArray.make((n, n), lambda i, j: (s * T.bigsum(r, lambda k: U.el(i, k) * S.el(k) * U.el(j, k)) + d * eye(i, j)) / l))
                v.true(f"{kind}: estimate unchanged, {tag}", est.U is U and est.S is S and est.scalar is zero)
                v.true(f"{kind}: a new object, {tag}", p is not est)
        v.true(f"arguments unchanged, {nm}", args.keys() == keep.keys() and all(args[k] is keep[k] for k in keep))


@spec("C09", [FU + "full_curvature_to_precision", DI + "diagonal_curvature_to_precision", LR + "low_rank_curvature_to_precision"],
      "all structures agree on equal curvatures (keyword calls, array-valued arguments)")
def structures_agree(v):
    n = v.size("P")
    T_ = v.mod("curv.utils").LowRankTerms
    w = v.arr("w", (n,))
    d, s, l = v.arr("delta", ()), v.arr("s2", ()), v.arr("lsf", (), pos=True)
    args = {"prior_prec": d, "sigma_squared": s}
    diag = SymArray.make((n, n), lambda i, j: T.iv(T.eq(i, j)) * w.el(i))
    f = v["curv.full.full_curvature_to_precision"](curv_estimate=diag, prior_arguments=args, loss_scaling_factor=l)
    g = v["curv.diagonal.diagonal_curvature_to_precision"](curv_estimate=w, prior_arguments=args, loss_scaling_factor=l)
    h = v["curv.low_rank.low_rank_curvature_to_precision"](curv_estimate=T_(U=v.jnp.eye(n), S=w, scalar=v.jnp.asarray(0.0)),
                                                         prior_arguments=args, loss_scaling_factor=l)
    v.eq("full = diagonal", f, SymArray.make((n, n), lambda i, j: T.iv(T.eq(i, j)) * g.el(i)))
    v.eq("full = low rank", f, low_rank_matrix(h, n))
