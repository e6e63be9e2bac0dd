"""C13: low-rank routines leave the global precision setting as they found it."""
import itertools
from vf.driver import spec
from vf import core as C
from vf.core import SymArray
from vf import term as T

LA, LO = "laplax.curv.lanczos.lanczos_lowrank", "laplax.curv.lobpcg.lobpcg_lowrank"
SWITCH = "jax_enable_x64"


class Boom(Exception):
    pass


class Stop(BaseException):      # like an interrupt
    pass


KIND = [Boom]


def configs():
    F = (C.F32, C.F64)
    return list(itertools.product((False, True), F, (None,) + F, (None,) + F, (False, True)))


def modules(v):
    return (("lanczos", v.mod("curv.lanczos"), "lanczos_lowrank"), ("lobpcg", v.mod("curv.lobpcg"), "lobpcg_lowrank"))


def canon(v, dt):
    return C.F32 if dt is C.F64 and v.cfg.vals.get(SWITCH) is False else dt


def stand_ins(v, mod, n, fail=None):
    """The iterative solvers as arbitrary functions: results in the calculation precision, or an exception."""
    def iterations(matvec, b, *, maxiter=20, dtype=C.F64, **k):
        if fail == "solver":
            raise KIND[0]
        m = 2
        a = lambda f, dims: SymArray.make(dims, lambda *i: T.app(f, *i), canon(v, dtype))
        return a("alpha", (m,)), a("beta", (m,)), a("V", (m + 1, n))

    def standard(A, X, m=100, tol=None, calc_dtype=C.F64, a_dtype=C.F32, *, A_jit=True):
        if fail == "solver":
            raise KIND[0]
        a = lambda f, dims: SymArray.make(dims, lambda *i: T.app(f, *i), canon(v, calc_dtype))
        return a("w", (2,)), a("V", (n, 2)), 2
    if hasattr(mod, "lanczos_iterations"):
        mod.lanczos_iterations = iterations
    if hasattr(mod, "lobpcg_standard"):
        mod.lobpcg_standard = standard


@spec("C13", [LA, LO], "for every combination of original setting and calculation / operator / return precision: setting restored on return, results in the requested precision")
def on_return(v):
    n = v.size("n", 10)
    A = v.spd("A", n)
    key = v.jax.random.key(0)
    for name, mod, fn in modules(v):
        stand_ins(v, mod, n)
        ok_switch, ok_type, bad = True, True, ""
        for orig, calc, mv, ret, jit in configs():
            v.cfg.vals[SWITCH] = orig
            kw = {} if calc is None else {"calc_dtype": calc}
            t = getattr(mod, fn)(A, key=key, rank=2, mv_dtype=mv, return_dtype=ret, mv_jit=jit, **kw)
            want = ret or (C.F64 if orig else C.F32)
            if v.cfg.vals[SWITCH] is not orig:
                ok_switch, bad = False, f"original {orig} calc {calc} mv {mv} return {ret}"
            if any(C.to_arr(x)._dtype != want for x in (t.U, t.S, t.scalar)):
                ok_type, bad = False, f"original {orig} calc {calc} mv {mv} return {ret}: {[C.to_arr(x)._dtype for x in (t.U, t.S, t.scalar)]}"
        v.true(f"{name}: setting restored", ok_switch, bad)
        v.true(f"{name}: requested or original precision returned", ok_type, bad)


@spec("C13", [LA, LO], "setting restored when anything inside raises: invalid layout, missing start vector, the solver, the user's operator at any call")
def on_exception(v):
    n = v.size("n", 10)
    A = v.spd("A", n)
    key = v.jax.random.key(0)

    def attempt(mod, fn, A, what, **kw):
        ok, bad = True, ""
        for KIND[0], (orig, calc, mv, ret, jit) in [(Boom, c) for c in configs()] + [(Stop, c) for c in configs() if c[2] is c[3]]:
            v.cfg.vals[SWITCH] = orig
            try:
                getattr(mod, fn)(A, rank=2, calc_dtype=calc, mv_dtype=mv, return_dtype=ret, mv_jit=jit, **kw)
                return v.true(what + " raises", False, "no exception")
            except (Boom, Stop, TypeError, ValueError):
                pass
            if v.cfg.vals[SWITCH] is not orig:
                ok, bad = False, f"{KIND[0].__name__} original {orig} calc {calc} mv {mv} return {ret}"
        v.true(what, ok, bad)
    boom = lambda x: (_ for _ in ()).throw(KIND[0]())
    for name, mod, fn in modules(v):
        attempt(mod, fn, boom, f"{name}: callable without layout", key=key)
    m = v.mod("curv.lanczos")
    attempt(m, "lanczos_lowrank", A, "lanczos: neither key nor start vector")
    for at in (1, 2):
        def op(x, at=at):
            op.calls += 1
            if op.calls >= at:
                raise KIND[0]
            return A @ x

        class Fresh:        # counts per attempt
            def __call__(self, x):
                return op(x)
        orig_run = m.lanczos_iterations

        def counted(*a, **k):
            op.calls = 0
            return orig_run(*a, **k)
        m.lanczos_iterations = counted
        op.calls = 0
        attempt(m, "lanczos_lowrank", Fresh(), f"lanczos: the operator raises at call {at}", key=key, layout=C.mknum(n))
        m.lanczos_iterations = orig_run
    for name, mod, fn in modules(v):
        stand_ins(v, mod, n, "solver")
        attempt(mod, fn, A, f"{name}: the solver raises", key=key)
        stand_ins(v, mod, n)
        if hasattr(mod, "LowRankTerms"):
            saved = mod.LowRankTerms
            mod.LowRankTerms = lambda *a, **k: (_ for _ in ()).throw(KIND[0]())
            attempt(mod, fn, A, f"{name}: building the result raises", key=key)
            mod.LowRankTerms = saved
