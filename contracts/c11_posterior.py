"""C11: posterior construction ties curvature, precision, state and layout together."""
from vf.driver import spec
from vf import term as T, core as C
from vf.core import E, SymArray, SymTree, SymNum
from contracts.c02_dense import tree_op, flat_matrix, flat_op

CO, LR = "laplax.curv.cov.", "laplax.curv.low_rank."
FNS = [CO + n for n in ("estimate_curvature", "set_posterior_fn", "create_posterior_fn")] + ["laplax.util.flatten.wrap_factory"]
TABLES = ["CURVATURE_METHODS", "CURVATURE_PRECISION_METHODS", "CURVATURE_TO_POSTERIOR_STATE", "CURVATURE_STATE_TO_SCALE", "CURVATURE_STATE_TO_COV"]


def stand_ins(v, n, log):
    """Arbitrary (uninterpreted) functions in the five tables under a fresh name, which record their calls."""
    mod = v.mod("curv.cov")
    fns = {
        "CURVATURE_METHODS": lambda mv, *a, **k: log.append(("estimate", mv, a, k)) or SymArray.make((n,), lambda i: T.app("est", i)),
        "CURVATURE_PRECISION_METHODS": lambda *a, **k: log.append(("precision", a, k)) or SymArray.make((n,), lambda i: T.app("prec", i)),
        "CURVATURE_TO_POSTERIOR_STATE": lambda p: log.append(("state", p)) or {"s": SymArray.make((n,), lambda i: 2 * p.el(i))},
        "CURVATURE_STATE_TO_SCALE": lambda s: lambda x: SymArray.make((n,), lambda i: T.bigsum(n, lambda j: T.app("SC", i, j) * s["s"].el(j) * x.el(j))),
        "CURVATURE_STATE_TO_COV": lambda s: lambda x: SymArray.make((n,), lambda i: T.bigsum(n, lambda j: T.app("CV", i, j) * s["s"].el(j) * x.el(j))),
    }
    for t in TABLES:
        getattr(mod, t)["stand-in"] = fns[t]
        for u in TABLES:     # another entry everywhere, to be left alone
            getattr(mod, t).setdefault("other", lambda *a, **k: (_ for _ in ()).throw(AssertionError("wrong entry used")))
    return fns


@spec("C11", FNS, "for any five functions registered under a type: estimate -> precision(estimate, prior, scaling) -> state(precision) -> scale/cov of that state, in flat layout")
def sequence(v):
    n = v.size("P")
    log = []
    fns = stand_ins(v, n, log)
    mod = v.mod("curv.cov")
    op = lambda x: x
    opt = object()
    args, lsf = {"prior_prec": v.real("delta", pos=True)}, v.real("lsf", pos=True)
    x = v.arr("x", (n,))
    for lay, nm in ((v.int("P", 1), "integer layout"), (None, "no layout")):
        log.clear()
        post_fn = mod.create_posterior_fn("stand-in", op, layout=lay, maxiter=opt)
        v.true(f"{nm}: the type's estimate, with operator, layout and options", [e[0] for e in log] == ["estimate"]
               and log[0][1] is op and not log[0][2] and set(log[0][3]) == {"layout", "maxiter"} and log[0][3]["layout"] is lay and log[0][3]["maxiter"] is opt)
        log.clear()
        post = post_fn(args, lsf)
        v.true(f"{nm}: precision then state, once each", [e[0] for e in log] == ["precision", "state"])
        given = dict(zip(("curv_estimate", "prior_arguments", "loss_scaling_factor"), log[0][1]))
        given.update(log[0][2])
        v.eq(f"{nm}: precision of the type's own estimate", given["curv_estimate"], SymArray.make((n,), lambda i: T.app("est", i)))
        v.true(f"{nm}: the given prior arguments", given["prior_arguments"].keys() == args.keys() and given["prior_arguments"]["prior_prec"] is args["prior_prec"] and set(given) <= {"curv_estimate", "prior_arguments", "loss_scaling_factor"})
        v.eq(f"{nm}: the given loss scaling", given.get("loss_scaling_factor", 1.0), lsf)
        v.eq(f"{nm}: state of that precision", log[1][1], SymArray.make((n,), lambda i: T.app("prec", i)))
        v.eq(f"{nm}: posterior state", post.state, {"s": SymArray.make((n,), lambda i: 2 * T.app("prec", i))})
        v.eq(f"{nm}: scale product", post.scale_mv(post.state)(x), fns["CURVATURE_STATE_TO_SCALE"](post.state)(x))
        # the function keeps no memory of earlier calls
        lsf2, args2 = v.real("lsf2", pos=True), {"prior_prec": v.real("delta2", pos=True), "sigma_squared": 2.0}
        for a, l in ((args, lsf2), (args2, lsf2), ({"prior_prec": 2.0}, 1.0), ({"prior_prec": 2.0}, 3.0), ({"prior_prec": 2.0, "sigma_squared": 4.0}, 3.0)):
            log.clear()
            post_fn(a, l)
            given = dict(zip(("curv_estimate", "prior_arguments", "loss_scaling_factor"), log[0][1])) if log else {}
            given.update(log[0][2] if log else {})
            v.true(f"{nm}: every call computes the posterior of its own arguments", [e[0] for e in log] == ["precision", "state"] and given["prior_arguments"] == a)
            v.eq(f"{nm}: every call uses its own loss scaling", given.get("loss_scaling_factor", 1.0), l)
        v.eq(f"{nm}: covariance product", post.cov_mv(post.state)(x), fns["CURVATURE_STATE_TO_COV"](post.state)(x))
        log.clear()
        post_fn(args)
        given = dict(zip(("curv_estimate", "prior_arguments", "loss_scaling_factor"), log[0][1]))
        given.update(log[0][2])
        v.eq(f"{nm}: default loss scaling", given.get("loss_scaling_factor", 1.0), 1.0)
    est = SymArray.make((n,), lambda i: T.app("mine", i))
    log.clear()
    mod.set_posterior_fn("stand-in", est, layout=None)(args, loss_scaling_factor=lsf)
    given = dict(zip(("curv_estimate", "prior_arguments", "loss_scaling_factor"), log[0][1]))
    given.update(log[0][2])
    v.true("existing estimate: used as it is", [e[0] for e in log] == ["precision", "state"] and given["curv_estimate"] is est)


@spec("C11", FNS, "tree layout: scale and covariance map trees to trees and are the flat products under flattening, for any five functions")
def tree_layout(v):
    td = v.treedef()
    lay, t = v.tree("lay", td), v.tree("t", td)
    n = v.treesize(td)
    log = []
    fns = stand_ins(v, n, log)
    mod = v.mod("curv.cov")
    est = SymArray.make((n,), lambda i: T.app("mine", i))
    post = mod.set_posterior_fn("stand-in", est, layout=lay)({"prior_prec": v.real("delta", pos=True)})
    LL = T.lam([td.n], lambda l: v.leafsize(td, l))
    for name, made, tab in (("scale", post.scale_mv, "CURVATURE_STATE_TO_SCALE"), ("covariance", post.cov_mv, "CURVATURE_STATE_TO_COV")):
        flat = fns[tab](post.state)(v.flat(td, t))
        out = made(post.state)(t)
        v.eq(f"{name} product", out, SymTree.make(td, lambda l: SymArray.make((v.leafblock(td, l),), lambda i: flat.el(C.offset(LL, l) + i))))
        v.eq(f"{name} product, flattened", v["util.flatten.full_flatten"](out), flat)


@spec("C11", FNS + ["laplax.curv.full.create_full_curvature", "laplax.curv.diagonal.create_diagonal_curvature"],
      "integer layout: full estimate = matrix of the flat operator, diagonal estimate = its diagonal")
def flat_estimates(v):
    n = v.size("P")
    mod = v.mod("curv.cov")
    M = lambda i, j: T.app("M", i, j)
    mv = lambda x: SymArray.make((n,), lambda i: T.bigsum(n, lambda j: M(i, j) * x.el(j)))
    v.eq("full estimate", mod.estimate_curvature("full", mv, layout=v.int("P", 1)), SymArray.make((n, n), M))
    v.eq("diagonal estimate", mod.estimate_curvature("diagonal", mv, layout=v.int("P", 1)), SymArray.make((n,), lambda i: M(i, i)))


@spec("C11", FNS + [LR + "create_low_rank_curvature", "laplax.curv.full.create_full_curvature", "laplax.curv.diagonal.create_diagonal_curvature"],
      "built-in types: each table row holds the type's own functions; full = dense matrix, diagonal = its diagonal, low rank = own routine with all options")
def built_in_types(v):
    td = v.treedef()
    lay = v.tree("lay", td)
    mod, fu, di, lr = v.mod("curv.cov"), v.mod("curv.full"), v.mod("curv.diagonal"), v.mod("curv.low_rank")
    mv = tree_op(v, td)
    M = flat_matrix(v, td)
    n = v.treesize(td)
    for key in ("full", v.mod("enums").CurvApprox.FULL):
        v.eq(f"full estimate ({type(key).__name__})", mod.estimate_curvature(key, mv, lay), M)
    v.eq("diagonal estimate", mod.estimate_curvature("diagonal", mv, lay), SymArray.make((n,), lambda i: M.el(i, i)))
    calls = []

    def rec(name):
        def f(*a, **k):
            calls.append((name, a, k))
            return SymArray.make((n,), lambda i: T.app(name, i))
        return f
    real = lr.lanczos_lowrank, lr.lobpcg_lowrank
    lr.lanczos_lowrank, lr.lobpcg_lowrank = rec("lanczos"), rec("lobpcg")
    v.mod("curv.lanczos").lanczos_lowrank, v.mod("curv.lobpcg").lobpcg_lowrank = lr.lanczos_lowrank, lr.lobpcg_lowrank
    opts = {"key": object(), "maxiter": 7, "mv_jittable": False}
    for kind in ("lanczos", "lobpcg"):
        calls.clear()
        out = mod.estimate_curvature(kind, mv, lay, **opts)
        v.true(f"{kind}: its own routine, once", [c[0] for c in calls] == [kind])
        given = dict(zip(("A",), calls[0][1]))
        given.update(calls[0][2])
        v.true(f"{kind}: the operator", given.pop("A", None) is mv)
        v.true(f"{kind}: layout and all options", given.pop("layout", None) is lay and given == opts)
        v.eq(f"{kind}: its result", out, SymArray.make((n,), lambda i: T.app(kind, i)))
    lr.lanczos_lowrank, lr.lobpcg_lowrank = real
    rows = {"full": (fu.full_curvature_to_precision, fu.full_prec_to_posterior_state, fu.full_posterior_state_to_scale, fu.full_posterior_state_to_cov),
            "diagonal": (di.diagonal_curvature_to_precision, di.diagonal_prec_to_posterior_state, di.diagonal_posterior_state_to_scale, di.diagonal_posterior_state_to_cov)}
    for k in ("lanczos", "lobpcg"):
        rows[k] = (lr.low_rank_curvature_to_precision, lr.low_rank_prec_to_posterior_state, lr.low_rank_posterior_state_to_scale, lr.low_rank_posterior_state_to_cov)
    # behaviour of the table rows = behaviour of the type's functions, on arbitrary values
    m, r = v.size("Q"), v.size("R")
    LT = v.mod("curv.utils").LowRankTerms
    x = v.arr("x", (m,))
    vals = {"full": v.spd("A", m), "diagonal": v.arr("D", (m,), pos=True)}
    vals["lanczos"] = vals["lobpcg"] = LT(U=v.arr("U", (m, r)), S=v.arr("S", (r,), pos=True), scalar=v.arr("c", (), pos=True))
    args, lsf = {"prior_prec": v.real("delta", pos=True), "sigma_squared": v.real("s2", pos=True)}, v.real("lsf", pos=True)
    for kind, (f1, f2, f3, f4) in rows.items():
        e = vals[kind]
        v.eq(f"{kind}: precision entry", mod.CURVATURE_PRECISION_METHODS[kind](e, args, lsf), f1(e, args, lsf))
        st = f2(e)
        v.eq(f"{kind}: state entry", mod.CURVATURE_TO_POSTERIOR_STATE[kind](e), st)
        v.eq(f"{kind}: scale entry", mod.CURVATURE_STATE_TO_SCALE[kind](st)(x), f3(st)(x))
        v.eq(f"{kind}: covariance entry", mod.CURVATURE_STATE_TO_COV[kind](st)(x), f4(st)(x))


LO = "laplax.curv.lobpcg.lobpcg_lowrank"


@spec("C11", [LO, "laplax.curv.utils.get_matvec"],
      "the eigensolver gets the flattened operator column by column, a random start block of the requested rank (smaller only where 5 rank < size demands it), "
      "tolerance and jit flag; its eigenpairs are returned with a zero scalar part")
def lobpcg_routine(v):
    LM = v.mod("curv.lobpcg")
    v.cfg.update("jax_enable_x64", True)
    td = v.treedef()
    lay = v.tree("lay", td)
    tree = E.choose(3)
    n = v.treesize(td) if tree == 0 else v.size("n", 6)
    rank = v.size("rank")
    if tree == 0:
        E.assume(T.le(T.const(6), n))
    mv, M = tree_op(v, td), flat_matrix(v, td)
    if tree:
        M = v.spd("SM", n)
    A = mv if tree == 0 else M if tree == 1 else (lambda x: M @ x)
    calls = []

    def solver(A, X, m=100, tol=None, calc_dtype=C.F64, a_dtype=C.F32, *, A_jit=True):
        calls.append((A, X, m, tol, A_jit))
        k = X.dims[1]
        return v.arr("w", (k,)), v.arr("W", (n, k)), 3
    LM.lobpcg_standard = solver
    jit, given = E.choose(2) == 1, E.choose(2) == 1
    key, tol = v.jax.random.key(5), v.real("tol", pos=True)
    what = ("tree operator", "matrix", "flat operator")[tree] + (", jit" if jit else "")
    t = LM.lobpcg_lowrank(A, layout=(lay, None, C.mknum(n))[tree], rank=C.mknum(rank), tol=tol, mv_jit=jit, **({"key": key} if given else {}))
    if not v.true(f"{what}: one run", len(calls) == 1).status == "discharged":
        return
    matmat, X, m, tl, aj = calls[0]
    k = X.dims[1]
    v.eq(f"{what}: start block has one row per parameter", C.mknum(X.dims[0]), C.mknum(n))
    fits = T.lt(rank * 5, n)
    v.true(f"{what}: requested rank where it fits, otherwise fewer or one", T.cor(T.cand(fits, T.eq(k, rank)), T.cand(T.cnot(fits), T.le(T.PONE, k), T.cor(T.lt(k, rank), T.eq(k, T.PONE)))))
    v.true(f"{what}: within the solver's limit", T.lt(k * 5, n))
    if given:
        v.eq(f"{what}: random start block", X, v.jax.random.normal(key, (n, k)))
    v.eq(f"{what}: tolerance", tl, tol)
    v.true(f"{what}: at least one iteration", T.le(T.PONE, C.scalar_poly(m)))
    v.true(f"{what}: jit as requested", aj is jit)
    Y = v.arr("Y", (n, v.size("cols")))
    v.eq(f"{what}: operator on every column", matmat(Y), SymArray.make(Y.dims, lambda i, c: T.bigsum(n, lambda j: M.el(i, j) * Y.el(j, c))))
    v.eq(f"{what}: eigenvectors", t.U, SymArray.make((n, k), lambda i, j: T.app("W", i, j)))
    v.eq(f"{what}: eigenvalues", t.S, SymArray.make((k,), lambda j: T.app("w", j)))
    v.eq(f"{what}: scalar part", t.scalar, 0.0)
