"""C02: dense and diagonal materialisation agree with the linear operator."""
from vf.driver import spec
from vf import term as T, core as C
from vf.core import SymArray, SymTree, SymNum

MV, TR, FU, DI, UT = "laplax.util.mv.", "laplax.util.tree.", "laplax.curv.full.", "laplax.curv.diagonal.", "laplax.curv.utils."


def flat_op(v, n, name="M", m=None):
    """An arbitrary matrix as an operator on vectors."""
    M = v.arr(name, (m if m is not None else n, n))
    return M, lambda x: M @ x


def tree_op(v, td, name="M"):
    """An arbitrary linear operator on trees: (mv t)_l[i] = SUM_{l',j} M(l,i,l',j) t_l'[j]."""
    def mv(t):
        return SymTree.make(td, lambda l: SymArray.make((v.leafblock(td, l),), lambda i: T.bigsum(
            td.n, lambda l2: T.bigsum(v.leafsize(td, l2), lambda j: T.app(name, l, i, l2, j) * t.at(l2).el(j)))))
    return mv


def flat_matrix(v, td, name="M"):
    """Its matrix in flattening order."""
    L = T.lam([td.n], lambda l: v.leafsize(td, l))
    P = v.treesize(td)

    def el(p, q):
        l, k = C.find(L, p), C.find(L, q)
        return T.app(name, l, p - C.offset(L, l), k, q - C.offset(L, k))
    return SymArray.make((P, P), el)


@spec("C02", [MV + "to_dense", MV + "diagonal", TR + "tree_vec_get"],
      "flat layouts: to_dense(mv, n)[i,j] = mv(e_j)[i], diagonal(mv, n)[i] = mv(e_i)[i], for every operator (also rectangular) and batch size")
def flat_layout(v):
    n, m = v.size("n"), v.size("m")
    M, mv = flat_op(v, n)
    dense = v["util.mv.to_dense"](mv, v.int("n", 1))
    v.eq("dense matrix", dense, M)
    bs = v.int("bs", 1)
    v.eq("dense matrix, swept in batches", v["util.mv.to_dense"](mv, v.int("n", 1), to_dense_batch_size=bs), M)
    d = SymArray.make((n,), lambda i: M.el(i, i))
    diag = v["util.mv.diagonal"]
    v.eq("diagonal", diag(mv, v.int("n", 1)), d)
    v.eq("diagonal, swept in batches", diag(mv, v.int("n", 1), diagonal_batch_size=bs), d)
    v.eq("diagonal, operator not jittable", diag(mv, v.int("n", 1), mv_jittable=False), d)
    v.eq("diagonal of an array", diag(M, v.int("n", 1)), d)
    v.eq("diagonal of an array without a layout", diag(M), d)
    R_, rect = flat_op(v, n, "Rect", m)
    v.eq("rectangular operator", v["util.mv.to_dense"](rect, v.int("n", 1)), R_)
    v.raises("operator without a layout", TypeError, lambda: diag(mv))


@spec("C02", [MV + "to_dense", MV + "diagonal", TR + "basis_vector_from_index", TR + "eye_like", TR + "tree_vec_get", TR + "get_size",
              FU + "create_full_curvature", DI + "create_diagonal_curvature"],
      "tree layouts: the materialised matrix and diagonal are those of the operator with components numbered in flattening order")
def tree_layout(v):
    td = v.treedef()
    lay = v.tree("lay", td)
    mv = tree_op(v, td)
    F = flat_matrix(v, td)
    P = v.treesize(td)
    v.eq("create_full_curvature", v["curv.full.create_full_curvature"](mv, lay), F)
    v.eq("create_full_curvature, extra arguments", v["curv.full.create_full_curvature"](mv, layout=lay, maxiter=3), F)
    d = SymArray.make((P,), lambda i: F.el(i, i))
    v.eq("diagonal", v["util.mv.diagonal"](mv, lay), d)
    v.eq("diagonal in batches", v["util.mv.diagonal"](mv, lay, diagonal_batch_size=v.int("bs", 1)), d)
    v.eq("create_diagonal_curvature", v["curv.diagonal.create_diagonal_curvature"](mv, layout=lay), d)


@spec("C02", [MV + "to_dense", TR + "eye_like"], "a tree-valued dense matrix has, in leaf l, the l-components of mv(e_j) along its last axis j")
def dense_tree_output(v):
    td = v.treedef()
    lay = v.tree("lay", td)
    n = v.size("n")
    # an operator from trees to vectors: (n,) = SUM_l A_l t_l
    def mv(t):
        return SymArray.make((n,), lambda i: T.bigsum(td.n, lambda l: T.bigsum(
            v.leafsize(td, l), lambda j: T.app("A", i, l, j) * t.at(l).el(j))))
    L = T.lam([td.n], lambda l: v.leafsize(td, l))
    P = v.treesize(td)

    def el(i, p):
        l = C.find(L, p)
        return T.app("A", i, l, p - C.offset(L, l))
    v.eq("tree-to-vector operator", v["util.mv.to_dense"](mv, lay), SymArray.make((n, P), el))


@spec("C02", [TR + "basis_vector_from_index", TR + "eye_like", TR + "eye_like_with_basis_vector", TR + "tree_vec_get"],
      "unit vector p has 1 at entry p in flattening order and 0 elsewhere; eye_like stacks all of them; tree_vec_get reads entry p")
def unit_vectors(v):
    td = v.treedef()
    t = v.tree("t", td)
    P = v.treesize(td)
    L = T.lam([td.n], lambda l: v.leafsize(td, l))
    p = v.index("p", P)
    e = v["util.tree.basis_vector_from_index"](SymNum(p), t)
    want = SymTree.make(td, lambda l: SymArray.make((v.leafblock(td, l),), lambda i: T.iv(T.eq(p, C.offset(L, l) + i))))
    v.eq("basis_vector_from_index", e, want)
    rows = SymTree.make(td, lambda l: SymArray.make((P, v.leafblock(td, l)), lambda q, i: T.iv(T.eq(q, C.offset(L, l) + i))))
    v.eq("eye_like", v["util.tree.eye_like"](t), rows)
    v.eq("eye_like_with_basis_vector", v["util.tree.eye_like_with_basis_vector"](t), rows)
    f = v.flat(td, t)
    v.eq("tree_vec_get", v["util.tree.tree_vec_get"](t, SymNum(p)), C.mknum(f.el(p)))
    x = v.arr("x", (v.size("n"),))
    i = v.index("i", v.size("n"))
    v.eq("tree_vec_get of a vector", v["util.tree.tree_vec_get"](x, SymNum(i)), C.mknum(x.el(i)))


@spec("C02", [UT + "get_matvec"], "get_matvec normalises arrays, flat and tree operators to flat matvecs of the right size")
def normalise_operator(v):
    n = v.size("n")
    M, mv = flat_op(v, n)
    x = v.arr("x", (n,))
    g = v["curv.utils.get_matvec"]
    Mx = SymArray.make((n,), lambda i: T.bigsum(n, lambda j: M.el(i, j) * x.el(j)))
    for jit in (True, False):
        f, s = g(M, jit=jit)
        v.eq(f"array: size jit={jit}", s, v.int("n", 1))
        v.eq(f"array: product jit={jit}", f(x), Mx)
        f, s = g(mv, layout=v.int("n", 1), jit=jit)
        v.eq(f"operator: size jit={jit}", s, v.int("n", 1))
        v.eq(f"operator: product jit={jit}", f(x), Mx)
    td = v.treedef()
    lay = v.tree("lay", td)
    P = v.treesize(td)
    y = v.arr("y", (P,))
    f, s = g(tree_op(v, td), layout=lay)
    v.eq("tree operator: size", s, SymNum(P))
    F = flat_matrix(v, td)
    v.eq("tree operator: product", f(y), F @ y)
    v.raises("operator without a layout", TypeError, lambda: g(mv))
