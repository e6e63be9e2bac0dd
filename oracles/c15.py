from oracles.common import *
from laplax.eval.calibrate import grid_search, optimize_prior_prec

KINDS = ["search", "search", "ties", "prior", "default"]
FIXED = sum([seeds(k, 12) for k in ("search", "ties", "prior")], []) + seeds("default", 2)
random_case = pick(KINDS)


def reference(vals, patience, maxit):
    """-> (number of evaluations, index of the first smallest)"""
    eff = [np.inf if (v is None or np.isnan(v)) else v for v in vals]
    run = 0
    for k in range(len(eff)):
        run = run + 1 if k and eff[k] > eff[k - 1] else 0
        if (patience is not None and run >= patience) or (maxit is not None and k + 1 >= maxit):
            break
    return k + 1, int(np.argmin(eff[:k + 1]))


def table(r, n, ties):
    vals = [float(x) for x in (r.randint(0, 3, size=n) if ties else r.normal(size=n))]
    if r.randint(3) == 0:
        vals = sorted(vals, reverse=bool(r.randint(2)))
    for k in range(n):
        u = r.randint(8)
        if u == 0 and r.randint(2):
            vals[k] = None
        elif u == 1 and r.randint(2):
            vals[k] = float("nan")
        elif u == 2 and r.randint(4) == 0:
            vals[k] = float("inf")
    return vals


def check(c):
    r, kind = rs(c), c["kind"]
    n = r.randint(1, 12) if kind != "prior" else r.randint(2, 8)
    vals = table(r, n, kind == "ties")
    if not any(v is not None and np.isfinite(v) for v in vals):
        vals[r.randint(n)] = 1.0
    if kind == "search" and not r.randint(4):       # results that differ in the last digits only
        vals = [v if v is None else 1.0 + 1e-11 * v for v in vals]
    pat = None if r.randint(2) else int(r.randint(1, 5))
    mx = None if r.randint(2) else int(r.randint(1, n + 2))
    as_array = bool(r.randint(2))
    seen = []

    def objective(args):
        assert list(args) == ["prior_prec"], f"arguments {args}"
        k = len(seen)
        seen.append(float(args["prior_prec"]))
        v = vals[k % n]
        if v is None:
            raise ValueError("objective")
        return jnp.asarray(v) if as_array else v
    kw = {k: v for k, v in (("patience", pat), ("max_iterations", mx)) if v is not None}
    if kind == "prior":
        lo, hi = float(r.uniform(-3, 0)), float(r.uniform(0, 3))
        grid = np.logspace(lo, hi, n)
        out = optimize_prior_prec(objective, log_prior_prec_min=lo, log_prior_prec_max=hi, grid_size=n, **kw)
    elif kind == "default":
        n, grid = 300, np.logspace(-5, 6, 300)
        vals = [float(x) for x in r.normal(size=300)]
        pat = mx = None
        out = optimize_prior_prec(objective)
    else:
        grid = np.sort(r.uniform(0.1, 5, size=n)) if r.randint(2) else r.uniform(0.1, 5, size=n)
        g = jnp.asarray(grid) if r.randint(2) else [float(x) for x in grid]
        out = grid_search(g, objective, **kw)
    N, best = reference(vals, pat, mx)
    what = f"results {vals[:12]} {kw}"
    assert len(seen) == N, f"{what}: {len(seen)} evaluations instead of {N}"
    close(np.asarray(seen), grid[:N], what)
    close(float(out), grid[best], what)
