"""C15: grid search returns a minimiser over the grid prefix it evaluates.

Objective results are extended reals; only their order matters to grid search, so they are embedded order-preservingly
in the reals with a largest element INF (values at most INF), plus a not-a-number flag."""
from vf.driver import spec
from vf import term as T, core as C
from vf.core import E, PathEnd, SymArray, SymNum, SymBool, SymList, mknum, scalar_poly
from vf.loops import invariant, SymSeq, UNDEF
from vf.term import R, Unsupported

CA = "laplax.eval.calibrate."
INF = "INF"


class Val:
    """A result of the objective: order term p (at most INF), nan: condition for being not-a-number."""

    def __init__(self, p, nan=T.FALSE):
        self.p, self.nan = p, nan

    def order(self):
        """Its place in the order with nan treated as infinitely bad."""
        return T.ite(self.nan, T.app(INF), self.p)

    @staticmethod
    def of(x):
        if isinstance(x, Val):
            return x
        if isinstance(x, float) and x == float("inf"):
            return Val(T.app(INF))
        if isinstance(x, float) and x != x:
            return Val(T.app(INF), T.TRUE)
        raise Unsupported(f"result compared with {x!r}")

    def cmp(self, o, f):
        o = Val.of(o)
        return SymBool(T.cand(T.cnot(self.nan), T.cnot(o.nan), f(self.p, o.p)))

    def __lt__(self, o): return self.cmp(o, T.lt)
    def __le__(self, o): return self.cmp(o, T.le)
    def __gt__(self, o): return self.cmp(o, lambda a, b: T.lt(b, a))
    def __ge__(self, o): return self.cmp(o, lambda a, b: T.le(b, a))
    def __eq__(self, o): return self.cmp(o, T.eq)
    def __ne__(self, o): return ~self.cmp(o, T.eq)
    def __vf_isnan__(self): return SymBool(self.nan)
    def __format__(self, spec): return "value"
    def __float__(self): raise Unsupported("float of a result")
    __hash__ = None


class GList(list):
    """A list with a symbolic number of entries at(0..n-1) followed by appended ones."""

    def __init__(self, n, at, new=()):
        super().__init__()
        self.n, self.at, self.new = n, at, list(new)

    def append(self, x):
        self.new.append(x)

    def size(self):
        return self.n + len(self.new)

    def __getitem__(self, k):
        if isinstance(k, int) and k < 0:
            if -k <= len(self.new):
                return self.new[k]
            return self.at(self.size() + k)
        k = scalar_poly(k)
        for j, x in enumerate(self.new):
            if E.branch(T.eq(k, self.n + j)):
                return x
        return self.at(k)

    def entry(self, j):
        """Order term of entry j."""
        out = T.app(INF) if self.n.is_zero() else Val.of(self.at(j)).order()
        for q, x in enumerate(self.new):
            out = T.ite(T.eq(j, self.n + q), Val.of(x).order(), out)
        return out

    def _bad(self, *a):
        raise Unsupported("this use of a growing list")
    __iter__ = __contains__ = __bool__ = __len__ = pop = insert = remove = _bad

    def __vf_nanargmin__(self):
        """numpy: the first index of a smallest entry, nan counting as infinitely bad."""
        if T.decide(T.eq(self.size(), T.PONE)) is True:
            Search.cur.mins.append((T.ZERO, self))
            return 0
        m = T.ivar(f"argmin{len(Search.cur.mins)}", 0, None)
        E.assume(T.lt(m, self.size()))
        Search.cur.mins.append((m, self))
        return mknum(m)


class Search:
    """One symbolic run of a search over `grid` with the loop cut by the invariant."""
    cur = None

    def __init__(self, v, grid, n, patience, maxit, tag):
        Search.cur = self
        self.v, self.grid, self.n, self.tag = v, grid, n, tag
        self.patience, self.maxit = patience, maxit
        self.calls = T.ZERO        # ghost: number of evaluations so far
        self.mins = []
        E.loop_policy = self.policy
        v.extra["nanargmin"] = lambda xs: GList(T.ZERO, None, xs).__vf_nanargmin__()
        self.run = T.ZERO          # ghost: consecutive increases so far

    # the objective: one evaluation per call
    def value(self, k):
        return T.app("rho", k)

    def eff(self, k):
        """Result k with nan and value errors as infinitely bad."""
        return T.ite(T.cor(T.capp("RAISES", k), T.capp("NAN", k)), T.app(INF), self.value(k))

    def bound(self, k):
        E.assume(T.le(self.value(k), T.app(INF)))

    def objective(self, args):
        k = self.calls
        self.v.true(f"{self.tag}: only the prior precision is passed", isinstance(args, dict) and list(args) == ["prior_prec"])
        self.v.eq(f"{self.tag}: evaluation k is at grid value k", args["prior_prec"], self.grid[mknum(k)])
        self.calls = k + 1
        self.bound(k)
        if E.branch(T.capp("RAISES", k)):
            raise ValueError("objective")
        return Val(self.value(k), T.capp("NAN", k))

    def rising(self, k):
        """Result k increased over result k - 1."""
        return T.cand(T.le(T.PONE, k), T.lt(self.eff(k - 1), self.eff(k)))

    def policy(self, lp):
        """The invariant of the search loop.  The loop's variables are recognised by their kind, not their name: a list of
        results, a list of grid values (either may be missing), the previous result (none at first) and a counter."""
        v, tag = self.v, self.tag
        if not isinstance(lp.it, SymArray) and not isinstance(lp.it, SymSeq):
            return None
        s0 = lp.mapping(lp.read())
        roles = {}
        for x, o in s0.items():
            if o is UNDEF:
                continue
            if isinstance(o, list) and type(o) is list and not o:
                roles[x] = "list"
            elif o is None:
                roles[x] = "previous"
            elif type(o) is int and o == 0:
                roles[x] = "count"
            else:
                raise Unsupported(f"search loop with an unknown variable {x}")
        kinds = list(roles.values())
        if kinds.count("previous") > 1 or kinds.count("count") > 1:
            raise Unsupported("search loop with unknown variables")
        key = (lp.where, tag)
        learned = self.LISTS.setdefault(key, {})

        def state(k, s):
            self.calls = k
            c = T.ZERO
            if self.patience is not None:
                c = T.ivar("run", 0, None)
                if not E.branch(T.lt(c, scalar_poly(self.patience))):
                    raise PathEnd("patience used up")
                if k.is_zero():
                    c = T.ZERO
                elif E.branch(T.eq(k, T.PONE)):
                    E.assume(T.eq(c, T.ZERO))
            if self.maxit is not None:
                if not E.branch(T.lt(k, scalar_poly(self.maxit))):
                    raise PathEnd("beyond the maximum")
            self.run = c
            prev = None
            if not k.is_zero():
                self.bound(k - 1)
                prev = Val(self.eff(k - 1))
            out = {}
            for x, r in roles.items():
                if r == "previous":
                    out[x] = prev
                elif r == "count":
                    out[x] = mknum(c)
                elif k.is_zero():
                    out[x] = s[x]
                elif learned.get(x) == "results":
                    out[x] = GList(k, lambda j: Val(self.eff(j)))
                elif learned.get(x) == "grid":
                    out[x] = GList(k, lambda j: self.grid[mknum(j)])
                else:
                    raise Unsupported(f"search loop with an unknown list {x}")
            return out

        def check(k, s):
            if k.is_zero():
                return
            v.eq(f"{tag}: one evaluation per iteration", mknum(self.calls), mknum(k))
            for x, r in roles.items():
                if r == "list":
                    lst = s[x]
                    if type(lst) is list:
                        if len(lst) != 1:
                            raise Unsupported(f"list {x} has {len(lst)} entries after the first iteration")
                        kind = "results" if isinstance(lst[0], (Val, float)) else "grid"
                        if learned.setdefault(x, kind) != kind:
                            raise Unsupported(f"search loop with an unknown list {x}")
                        lst = GList(T.ZERO, None, lst)
                    kind = learned[x]
                    v.true(f"{tag}: one {'result' if kind == 'results' else 'grid value'} recorded per evaluation", T.eq(lst.size(), k))
                    j = self.below("j", k)
                    if kind == "results":
                        v.true(f"{tag}: recorded results", T.eq(lst.entry(j), self.eff(j)))
                    else:
                        v.eq(f"{tag}: recorded grid values", lst[mknum(j)], self.grid[mknum(j)])
                elif r == "previous":
                    v.true(f"{tag}: the previous result is remembered", s[x] is not None)
                    v.true(f"{tag}: previous result", T.eq(Val.of(s[x]).order(), self.eff(k - 1)))
                elif self.patience is not None:
                    now = T.ite(self.rising(k - 1), self.run + 1, T.ZERO)
                    v.true(f"{tag}: consecutive increases are counted", T.eq(scalar_poly(s[x]), now))
            if self.patience is not None:
                now = T.ite(self.rising(k - 1), self.run + 1, T.ZERO)
                v.true(f"{tag}: continues only before the patience is used up", T.lt(now, scalar_poly(self.patience)))
            if self.maxit is not None:
                v.true(f"{tag}: continues only below the maximum number of evaluations", T.lt(k, scalar_poly(self.maxit)))
        return invariant(state, check, first=True)

    LISTS = {}

    def below(self, name, k):
        """An arbitrary index below k."""
        if T.decide(T.eq(k, T.PONE)) is True:
            return T.ZERO
        j = T.ivar(name, 0, None)
        E.assume(T.lt(j, k))
        return j

    def finish(self, out):
        """After the search returned `out`."""
        v, tag, N = self.v, self.tag, self.calls
        if len(self.mins) != 1:
            raise Unsupported("minimum not taken with nanargmin")
        m, lst = self.mins[0]
        v.true(f"{tag}: every evaluated result is considered", T.eq(lst.size(), N))
        j = self.below("jj", N)
        v.true(f"{tag}: considered results", T.eq(lst.entry(j), self.eff(j)))
        v.eq(f"{tag}: returns the grid value of the first smallest result", out, self.grid[mknum(m)])
        # why it stopped
        reasons = [T.eq(N, self.n)]
        if self.patience is not None:
            reasons.append(T.cand(T.le(T.const(2), N), T.le(scalar_poly(self.patience), T.ite(self.rising(N - 1), self.run + 1, T.ZERO))))
        if self.maxit is not None:
            reasons.append(T.le(scalar_poly(self.maxit), N))
        v.true(f"{tag}: stops early only for the requested reasons", T.cor(*reasons))
        if self.maxit is not None:
            v.true(f"{tag}: never more than the maximum number of evaluations", T.le(N, scalar_poly(self.maxit)))


def options(v):
    which = E.choose(4)
    pat = mknum(T.ivar("patience", 1, None)) if which in (1, 3) else None
    mx = mknum(T.ivar("max_iterations", 1, None)) if which in (2, 3) else None
    kw = {k: x for k, x in (("patience", pat), ("max_iterations", mx)) if x is not None}
    return pat, mx, kw, ["plain", "patience", "maximum", "both"][which]


@spec("C15", [CA + "grid_search"], "evaluates grid values in order, once each; returns the first grid value with the smallest result "
      "(nan / value error = infinitely bad); stops early exactly after `patience` consecutive increases or `max_iterations` evaluations")
def search(v):
    n = T.ivar("N", 1, None)
    grid = v.arr("grid", (n,))
    pat, mx, kw, tag = options(v)
    s = Search(v, grid, n, pat, mx, tag)
    f = v[CA[7:] + "grid_search"]
    s.finish(f(grid, s.objective, **kw))


@spec("C15", [CA + "optimize_prior_prec", CA + "grid_search"], "the same search over 10^(min + i (max - min) / (size - 1)), defaults -5, 6, 300; search options forwarded")
def prior_prec(v):
    default = E.choose(2) == 1
    lo, hi, n = v.real("lo"), v.real("hi"), T.ivar("N", 2, None)
    a = {} if default else {"log_prior_prec_min": lo, "log_prior_prec_max": hi, "grid_size": mknum(n)}
    if default:
        lo, hi, n = SymNum(T.const(-5), True), SymNum(T.const(6), True), T.const(300)
    grid = SymArray.make((n,), lambda i: T.exp((lo.p + i * (hi.p - lo.p) / (n - 1)) * T.log(T.const(10))))
    if default:
        got = []
        mod = v.mod("eval.calibrate")
        mod.grid_search = lambda prior_prec_interval, objective, **kw: got.append((prior_prec_interval, objective, kw)) or "answer"
        obj = lambda args: None
        out = mod.optimize_prior_prec(obj)
        v.true("default grid: one search", len(got) == 1 and got[0][1] is obj and out == "answer")
        v.eq("default grid: ten to the power -5 ... 6 in 300 steps", got[0][0], grid)
        return
    pat, mx, kw, tag = options(v)
    s = Search(v, grid, n, pat, mx, "prior precision, " + tag)
    s.finish(v[CA[7:] + "optimize_prior_prec"](s.objective, **a, **kw))
