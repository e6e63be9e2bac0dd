from oracles.common import *
import warnings
from laplax.curv.lanczos import lanczos_lowrank
from laplax.curv.lobpcg import lobpcg_lowrank

KINDS = ["return", "operator-raises", "bad-argument"]
FIXED = sum([seeds(k, 5) for k in KINDS], [])
random_case = pick(KINDS)


class Boom(Exception):
    pass


class Stop(BaseException):      # like an interrupt
    pass


def check(c):
    r, kind = rs(c), c["kind"]
    F = [jnp.float32, jnp.float64]
    orig, jit = bool(r.randint(2)), bool(r.randint(2))
    fn = [lanczos_lowrank, lobpcg_lowrank][r.randint(2)]
    kw = {"calc_dtype": F[r.randint(2)], "mv_dtype": [None, *F][r.randint(3)], "return_dtype": [None, *F][r.randint(3)], "mv_jit": jit}
    what = f"{fn.__name__} original {orig} {kw}"
    before = jax.config.read("jax_enable_x64")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            jax.config.update("jax_enable_x64", orig)
            A = jnp.diag(jnp.arange(1, 31.0))
            key = jax.random.key(1)
            if kind == "return":
                t = fn(A, key=key, rank=3, **kw)
                want = kw["return_dtype"] or (jnp.float64 if orig else jnp.float32)
                assert all(x.dtype == want for x in (t.U, t.S, t.scalar)), f"{what}: returned {[str(x.dtype) for x in (t.U, t.S, t.scalar)]}"
            elif kind == "operator-raises":
                at, n = r.randint(1, 4), [0]
                kind_of = [Boom, Stop][r.randint(2)]
                kw["mv_jit"] = False if fn is lanczos_lowrank else jit
                if fn is lobpcg_lowrank:
                    at = 1

                def op(x):
                    n[0] += 1
                    if n[0] >= at:
                        raise kind_of
                    return A.astype(x.dtype) @ x
                try:
                    fn(op, key=key, layout=30, rank=4, **kw)
                    raise AssertionError(f"{what}: no exception")
                except (Boom, Stop):
                    pass
            else:
                try:
                    if fn is lanczos_lowrank and r.randint(2):
                        fn(A, rank=3, **kw)
                    else:
                        fn(lambda x: x, key=key, rank=3, **kw)
                    raise AssertionError(f"{what}: no exception")
                except (TypeError, ValueError):
                    pass
            assert jax.config.read("jax_enable_x64") == orig, f"{what}: setting not restored"
    finally:
        jax.config.update("jax_enable_x64", before)
