"""Cutting loops and comprehensions over sequences of symbolic length.

A `for` over a concrete sequence runs as written.  Over a symbolic one, either the
harness supplies an invariant (E.loop_plans[(function, ordinal)]) or the closed form of
every modified variable is inferred and inductively verified: the first iteration is
peeled, then one iteration is executed from an arbitrary state (fresh placeholders) at
an arbitrary index k; a candidate closed form is accepted only if that iteration maps
cf(k) to cf(k+1) for every k (the placeholders are unconstrained, so this is the
inductive step)."""
from . import term as T
from .term import R, Unsupported, Poly
from .core import (E, PathEnd, SymArray, SymNum, SymList, SymTree, SymBool, generic, osubst, mknum, scalar_poly,
                   children_of, rebuild, tree_map, concatenate, Block, dim_size, is_scalar, slice_bounds, omentions)
import itertools

_ids = itertools.count(1)


class Poison:
    """A variable with unknown value after a cut loop."""

    def __init__(self, name):
        self.__dict__["_n"] = name

    def _bad(self, *a, **k):
        raise Unsupported(f"value of {self._n} after a cut loop is not known")
    __add__ = __radd__ = __sub__ = __mul__ = __rmul__ = __getitem__ = __call__ = __iter__ = __bool__ = __len__ = _bad
    __truediv__ = __rtruediv__ = __rsub__ = __neg__ = __matmul__ = __rmatmul__ = __lt__ = __le__ = __gt__ = __ge__ = _bad
    __eq__ = __ne__ = _bad
    __hash__ = None

    def __getattr__(self, k):
        self._bad()


class SymSeq:
    """A lazily mapped symbolic sequence (zip, enumerate, range, map...)."""

    def __init__(self, n, at):
        self.n, self._at = T.as_poly(n), at

    def at(self, p):
        return self._at(T.as_poly(p))

    def tolist(self):
        return SymList.make(self.n, self.at)

    def __iter__(self):
        c = self.n.const()
        if c is None:
            raise Unsupported("iteration over a symbolic sequence outside a rewritten loop")
        return iter([self.at(T.const(k)) for k in range(int(c))])

    def __next__(self):
        raise Unsupported("next() of a symbolic sequence")

    def __len__(self):
        c = self.n.const()
        if c is None:
            raise Unsupported("len of a symbolic sequence")
        return int(c)

    def __getitem__(self, k):
        return self.tolist()[k]


def sym_seq(it):
    """-> (n Poly, at) if `it` is a sequence of symbolic length, else None."""
    h = getattr(it, "__vf_seq__", None)
    if h is not None:
        return h()
    if isinstance(it, (SymList, SymSeq)):
        if it.n.const() is not None:
            return None
        return it.n, it.at
    if isinstance(it, SymArray) and it.dims and isinstance(it.dims[0], Poly) and it.dims[0].const() is None:
        return it.dims[0], lambda p: it[SymNum(p)]
    return None


def seq_view(it):
    """n, at for anything indexable (used to zip concrete with symbolic)."""
    s = sym_seq(it)
    if s is not None:
        return s
    if isinstance(it, (SymList, SymSeq)):
        return it.n, it.at
    xs = list(it)

    def at(p):
        c = p.const()
        if c is None:
            raise Unsupported("symbolic index into a concrete list")
        return xs[int(c)]
    return T.const(len(xs)), at


# ----------------------------------------------------------------- placeholders
class PhList(list):
    """Placeholder of a list that only grows by append."""

    def __init__(self, name, where=None):
        super().__init__()
        self.name, self.new, self.where = name, [], where

    def append(self, x):
        self.new.append(x)

    def extend(self, xs):
        for x in xs:
            self.new.append(x)

    def _bad(self, *a):
        if self.where is not None:
            hints, key = self.where
            if key not in hints:
                hints[key] = True       # treat it as a container of fixed length instead
                raise Retry()
        raise Unsupported("a growing list is read inside its loop")
    __getitem__ = __iter__ = __len__ = __contains__ = __bool__ = _bad


def has_num(o):
    if isinstance(o, (SymArray, SymTree, SymNum)) or (isinstance(o, (int, float)) and not isinstance(o, bool)):
        return True
    c = children_of(o)
    return c is not None and any(has_num(x) for x in c[2])


class Retry(BaseException):
    """Re-execute this path with the new loop hints."""


class Havoc:
    """Placeholder construction for one variable."""

    def __init__(self, name, s1, hints=None, where=None):
        self.name, self.s1 = name, s1
        self.where, self.nlists = where, 0
        self.hints = hints or {}
        self.id = next(_ids)
        self.cnt = 0
        self.apps = set()
        self.lens = {}
        self.ph = self.build(s1)

    def build(self, o):
        if isinstance(o, list):
            self.nlists += 1
            key = f"list{self.nlists}"
            if not self.hints.get(key):
                return PhList(self.name, (self.where[0], (self.where[1], key)) if self.where else None)
        if isinstance(o, SymTree):
            return SymTree.make(o.td, lambda p: self.leaf(o.at(p), (p,)))
        c = children_of(o)
        if c is not None and c[0] != "none":
            return rebuild(c[0], c[1], [self.build(x) for x in c[2]])
        return self.leaf(o, ())

    def leaf(self, o, pre):
        if isinstance(o, SymArray):
            self.cnt += 1
            nm = f"ph{self.id}.{self.cnt}"
            self.apps.add(nm)
            sort = "r" if o._dtype.kind == "f" else "i"
            dims = list(o.dims)
            ax = self.hints.get(self.cnt)
            if ax is not None:
                ln = f"phlen{self.id}.{self.cnt}"
                self.apps.add(ln)
                R.nonneg.add(ln)
                R.int_lemmas.append(lambda a, ln=ln: [T.le(T.ZERO, T.patom(a))] if a.f == ln else [])
                dims[ax] = T.app(ln, *pre, sort="i")
                self.lens[nm] = (ln, ax)
            return SymArray.make(dims, lambda *i: T.app(nm, *pre, *i, sort=sort), o._dtype)
        if isinstance(o, (SymNum, int, float)) and not isinstance(o, bool):
            self.cnt += 1
            nm = f"ph{self.id}.{self.cnt}"
            self.apps.add(nm)
            isf = isinstance(o, float) or (isinstance(o, SymNum) and o.isfloat)
            return SymNum(T.app(nm, *pre, sort="r" if isf else "i"), isf)
        return o


def obj_terms(o):
    """All polys of an object (for placeholder scans)."""
    if isinstance(o, Poly):
        yield o
    elif isinstance(o, SymNum):
        yield o.p
    elif isinstance(o, SymBool):
        yield T.iv(o.cond)
    elif isinstance(o, SymArray):
        yield o.body
        for d in o.dims:
            yield dim_size(d)
    elif isinstance(o, (SymTree, SymList)):
        yield from obj_terms(o.obj)
    elif isinstance(o, PhList):
        for x in o.new:
            yield from obj_terms(x)
    else:
        c = children_of(o)
        if c is not None:
            for x in c[2]:
                yield from obj_terms(x)


def mentions_apps(o, names):
    for p in obj_terms(o):
        if T.app_names(p) & names:
            return True
    return False


def oreplace(o, rules):
    if isinstance(o, SymNum):
        p = T.replace(o.p, rules)
        return SymNum(p, o.isfloat) if o.isfloat else mknum(p)
    if isinstance(o, SymBool):
        return SymBool(T.replace(o.cond, rules))
    if isinstance(o, SymArray):
        return SymArray.make([d if isinstance(d, Block) else T.replace(d, rules) for d in o.dims],
                             lambda *i: T.replace(o.el(*i), rules), o._dtype)
    if isinstance(o, SymTree):
        return SymTree.make(o.td, lambda p: oreplace(o.at(p), rules))
    if isinstance(o, SymList):
        return SymList.make(T.replace(o.n, rules), lambda p: oreplace(o.at(p), rules))
    c = children_of(o)
    if c is not None and c[0] != "none":
        return rebuild(c[0], c[1], [oreplace(x, rules) for x in c[2]])
    return o


def ofold(o):
    if isinstance(o, SymNum):
        p = T.fold(o.p)
        return SymNum(p, o.isfloat) if o.isfloat else mknum(p)
    if isinstance(o, SymArray):
        return SymArray(o.dims, o.ivs, T.fold(o.body), o._dtype)
    return o


# ----------------------------------------------------------------- the loop object
UNDEF = object()


class Loop:
    def __init__(self, it, where, names, getters):
        self.it, self.where, self.names, self.getters = it, where, names, getters
        self.abstract = False
        self.cut = False
        self.state = self.final = None

    def read(self):
        out = []
        for g in self.getters:
            try:
                out.append(g())
            except NameError:
                out.append(UNDEF)
        return out

    def __iter__(self):
        s = sym_seq(self.it)
        if s is None:
            yield from self.it
            return
        n, at = s
        plan = E.loop_plans.get(self.where) or E.loop_plans.get(self.where.split("#")[0])
        if plan is None and E.loop_policy is not None:
            plan = E.loop_policy(self)
        if plan is not None:
            yield from self.planned(plan, n, at)
            return
        if not E.branch(T.le(T.PONE, n)):
            return
        yield at(T.ZERO)
        s1 = self.read()
        two = T.le(T.const(2), n)
        t2 = T.decide(two)
        if t2 is False:
            return
        kv = T.fresh_var("i", "k")
        R.range[kv.name] = (T.PONE, n)
        k = T.pvar(kv)
        E.loop_count[self.where] = cnt = E.loop_count.get(self.where, 0) + 1
        hints = E.loop_hints.setdefault((self.where, cnt, tuple(sorted(E.pins.items()))), {})
        self.hints, self.newhints = hints, {}
        hv = [None if x is UNDEF else Havoc(nm, x, {c: ax for (i, c), ax in hints.items() if i == j}, (hints, j))
              for j, (nm, x) in enumerate(zip(self.names, s1))]
        self.hv = hv
        self.state = tuple(Poison(nm) if h is None else h.ph for nm, h in zip(self.names, hv))
        # the generic iteration exists only if n >= 2
        saved = list(R.pc)
        if t2 is None:
            E.assume(two)
        self.abstract = True
        with generic(kv):
            yield at(k)
        self.abstract = False
        s2 = self.read()
        self.final = self.infer(n, kv, s1, s2, hv)
        if t2 is None:
            # for n = 1 the closed forms must give the state after the first iteration
            if self.agree(s1):
                R.pc = [c for c in R.pc if c.key != two.key or any(x.key == c.key for x in saved)]
                R.bump()
            else:
                R.pc = [c for c in R.pc if c.key != two.key or any(x.key == c.key for x in saved)]
                R.bump()
                if not E.branch(two):
                    self.final = tuple(s1)
        self.cut = True

    def agree(self, s1):
        from .prove import prove_eq
        for x, h in zip(s1, self.hv):
            if h is None:
                return False
        for i, x in enumerate(s1):
            f = self.done.get(i)
            if f is None:
                return False
            try:
                if f(T.PONE) is x:
                    continue
                if prove_eq(f(T.PONE), x).status != "discharged":
                    return False
            except Unsupported:
                return False
        return True

    def planned(self, plan, n, at):
        """Harness-supplied invariant: plan(loop, n) yields like this generator."""
        yield from plan(self, n, at)

    def mapping(self, values):
        """name -> value of the loop's variables."""
        return dict(zip(self.names, values))

    # -- inference of closed forms
    def infer(self, n, kv, s1, s2, hv):
        k = T.pvar(kv)
        cf = {}           # app name -> fn(k', *idx) -> Poly
        done = {}         # position -> fn(kpoly) -> object at loop head k
        appends = {}
        todo = [i for i, h in enumerate(hv) if h is not None]
        # constants
        for i in list(todo):
            if (s2[i] is hv[i].ph and not (isinstance(s2[i], PhList) and s2[i].new)) or (hv[i].cnt == 0 and s2[i] is s1[i]):
                o = s1[i]
                if hv[i].cnt:
                    for nm in hv[i].apps:
                        cf[nm] = self.const_cf(hv[i], nm)
                done[i] = (lambda o: lambda kk: o)(o)
                todo.remove(i)
        progress = True
        # variables bound to the same object share one closed form
        alias = {}
        for i in list(todo):
            for j in todo:
                if j != i and s2[i] is s2[j] and isinstance(s2[i], (SymArray, SymTree, SymNum, tuple, list, dict)) \
                        and not mentions_apps(s2[i], hv[i].apps) and mentions_apps(s2[j], hv[j].apps):
                    alias[i] = j
        for i in alias:
            todo.remove(i)
        while todo and progress:
            progress = False
            for i in list(todo):
                f = self.try_var(n, kv, s1[i], s2[i], hv[i], cf, hv, todo)
                if f is not None:
                    done[i] = f
                    todo.remove(i)
                    progress = True
        for i, j in alias.items():
            if j in done:
                done[i] = done[j]
        if self.newhints:
            hints = self.hints
            if any(k not in hints for k in self.newhints):
                hints.update(self.newhints)
                raise Retry()
        self.done = done
        out = []
        for i, nm in enumerate(self.names):
            if hv[i] is None:
                # defined only inside the loop: value of the last iteration
                v = s2[i]
                if v is UNDEF:
                    out.append(Poison(nm))
                    continue
                out.append(Poison(nm) if self.bad(v, hv, cf) else self.last(v, kv, n, cf))
            elif i in done:
                out.append(done[i](n))
            else:
                out.append(Poison(nm))
        return tuple(out)

    def bad(self, v, hv, cf):
        names = set().union(*[h.apps for h in hv if h is not None]) - set(cf)
        return callable(v) or mentions_apps(v, names) or isinstance(v, PhList)

    def at_head(self, v, kv, kk, cf):
        """Object v of the generic iteration, at iteration index kk, placeholders closed."""
        rules = {nm: (lambda f: lambda *a: f(T.pvar(kv), *a))(f) for nm, f in cf.items()}
        w = ofold(oreplace(v, rules))
        return osubst(w, {kv.name: kk})

    def last(self, v, kv, n, cf):
        return self.at_head(v, kv, n - 1, cf)

    def const_cf(self, h, nm):
        m = {}

        def rec(ph, o):
            if isinstance(ph, SymTree):
                rec2(ph, o)
                return
            c = children_of(ph)
            if c is not None and c[0] != "none":
                for a, b in zip(c[2], children_of(o)[2]):
                    rec(a, b)
                return
            if isinstance(ph, SymArray):
                a = T.single(ph.body)
                m[a.f] = lambda kk, *i: o.el(*i)
            elif isinstance(ph, SymNum):
                m[T.single(ph.p).f] = lambda kk: scalar_poly(o)

        def rec2(ph, o):
            if isinstance(ph.obj, SymArray):
                a = T.single(ph.obj.body)
                m[a.f] = lambda kk, l, *i: o.at(l).el(*i)
            elif isinstance(ph.obj, SymNum):
                m[T.single(ph.obj.p).f] = lambda kk, l: scalar_poly(o.at(l))
        rec(h.ph, h.s1)
        return m[nm]

    def try_var(self, n, kv, s1, s2, h, cf, hv, todo):
        k = T.pvar(kv)
        open_names = set().union(*[hv[j].apps for j in todo]) - set(cf)
        if isinstance(h.ph, PhList):
            if not isinstance(s2, PhList) or s2 is not h.ph or len(s2.new) != 1:
                return None
            item = s2.new[0]
            if mentions_apps(item, open_names):
                return None
            gen = lambda kk: self.at_head(item, kv, kk, cf)
            from .prove import prove_eq
            if len(s1) == 1 and prove_eq(s1[0], gen(T.ZERO)).status == "discharged":
                return lambda kk: SymList.make(kk, gen)
            if len(s1) == 1:
                return None
            return None
        own = h.apps
        if not mentions_apps(s2, own):
            # value depends on the iteration only (through closed placeholders)
            if mentions_apps(s2, open_names):
                return None
            return lambda kk: self.at_head(s2, kv, kk - 1, cf)
        # leafwise additive / concatenation / weighted
        new_cf = {}
        ok = self.leafwise(n, kv, s1, s2, h.ph, (), new_cf, open_names, cf, h)
        if not ok:
            return None
        cf.update(new_cf)
        ph = h.ph

        def value(kk):
            def rec(p, o):
                if isinstance(p, SymTree):
                    return SymTree.make(p.td, lambda l: leafv(p.at(l), o.at(l), (l,)))
                c = children_of(p)
                if c is not None and c[0] != "none":
                    return rebuild(c[0], c[1], [rec(a, b) for a, b in zip(c[2], children_of(o)[2])])
                return leafv(p, o, ())

            def leafv(p, o, pre):
                if isinstance(p, SymArray) and T.single(p.body).f in h.lens:
                    return concatenate(new_cf["list:" + T.single(p.body).f](kk, *pre), axis=h.lens[T.single(p.body).f][1])
                if isinstance(p, SymArray):
                    f = new_cf[T.single(p.body).f]
                    return SymArray.make(p.dims, lambda *i: f(kk, *pre, *i), p._dtype)
                if isinstance(p, SymNum):
                    f = new_cf[T.single(p.p).f]
                    return SymNum(f(kk, *pre), p.isfloat) if p.isfloat else mknum(f(kk, *pre))
                return o
            return rec(ph, s1)
        return value

    def leafwise(self, n, kv, s1, s2, ph, pre, new_cf, open_names, cf, h):
        k = T.pvar(kv)
        if isinstance(ph, SymTree):
            if not isinstance(s2, SymTree) or s2.td != ph.td:
                return False
            lv = T.fresh_var("i", "l")
            R.range[lv.name] = (T.ZERO, ph.td.n)
            l = T.pvar(lv)
            with generic(lv):
                return self.leafwise(n, kv, (s1, lv), s2.at(l), ph.at(l), (l,), new_cf, open_names, cf, h)
        c = children_of(ph)
        if c is not None and c[0] != "none":
            c2 = children_of(s2)
            if c2 is None or c2[0] != c[0] or c2[1] != c[1] or len(c2[2]) != len(c[2]):
                return False
            return all(self.leafwise(n, kv, x1, x2, p, (), new_cf, open_names, cf, h)
                       for x1, x2, p in zip(children_of(s1)[2], c2[2], c[2]))
        if isinstance(ph, SymArray) and isinstance(s2, SymArray):
            if len(ph.dims) != len(s2.dims):
                return False
            from .prove import prove_zero
            nm = T.single(ph.body).f
            if nm in h.lens:
                return self.concat_leaf(n, kv, s1, s2, ph, pre, new_cf, open_names, cf, h)
            diff = [q for q, (a, b) in enumerate(zip(ph.dims, s2.dims))
                    if isinstance(a, Poly) and isinstance(b, Poly) and prove_zero(a - b).status != "discharged"]
            if len(diff) == 1:
                i = [q for q, x in enumerate(self.hv) if x is h][0]
                self.newhints[(i, int(nm.split(".")[1]))] = diff[0]
                return False
            for a, b in zip(ph.dims, s2.dims):
                if isinstance(a, Block) or isinstance(b, Block):
                    if not (isinstance(a, Block) and isinstance(b, Block) and a.key == b.key):
                        return False
                elif prove_zero(a - b).status != "discharged":
                    return False
            ivs = [T.fresh_var() for _ in ph.dims]
            for v, d in zip(ivs, ph.dims):
                R.range[v.name] = (T.ZERO, dim_size(d))
            idx = [T.pvar(v) for v in ivs]
            d = s2.el(*idx) - ph.el(*idx)
            nm = T.single(ph.body).f
            if isinstance(s1, tuple) and len(s1) == 2 and isinstance(s1[0], SymTree):
                tree, lv = s1
                first = lambda l, *i: tree.at(l).el(*i)
                params = [lv] + ivs
            else:
                first = lambda *i: s1.el(*i)
                params = ivs
        elif isinstance(ph, SymNum) and is_scalar(s2):
            d = scalar_poly(s2) - ph.p
            nm = T.single(ph.p).f
            if isinstance(s1, tuple) and len(s1) == 2 and isinstance(s1[0], SymTree):
                tree, lv = s1
                first = lambda l: scalar_poly(tree.at(l))
                params = [lv]
            else:
                first = lambda: scalar_poly(s1)
                params = []
        else:
            return s2 is ph
        if T.app_names(d) & open_names:
            return False
        rules = {x: (lambda f: lambda *a: f(k, *a))(f) for x, f in cf.items()}
        d = T.replace(d, rules)

        def closed(kk, *args):
            # first + SUM_{1<=j<kk} d(j)
            m = {v.name: a for v, a in zip(params, args)}
            dd = lambda j: d.subst({**m, kv.name: j})
            return first(*args) + T.bigsum(kk, dd) - dd(T.ZERO)
        new_cf[nm] = closed
        return True


    def concat_leaf(self, n, kv, s1, s2, ph, pre, new_cf, open_names, cf, h):
        from .prove import prove_zero, prove_eq
        nm = T.single(ph.body).f
        ln, ax = h.lens[nm]
        k = T.pvar(kv)
        L = ph.dims[ax]
        b = s2.dims[ax] - L
        if T.app_names(b) & (open_names | h.apps):
            return False
        for q, (x, y) in enumerate(zip(ph.dims, s2.dims)):
            if q != ax and (x.key != y.key):
                return False
        vs = [T.fresh_var() for _ in ph.dims]
        for q, (v, d) in enumerate(zip(vs, ph.dims)):
            R.range[v.name] = (T.ZERO, dim_size(d) if q != ax else L)
        idx = [T.pvar(v) for v in vs]
        if prove_zero(s2.el(*idx) - ph.el(*idx)).status != "discharged":
            return False
        R.range[vs[ax].name] = (T.ZERO, b)
        idx2 = list(idx)
        idx2[ax] = idx[ax] + L
        new = T.rebuild(s2.el(*idx2))
        if T.app_names(new) & (open_names | h.apps):
            return False
        if isinstance(s1, tuple) and len(s1) == 2 and isinstance(s1[0], SymTree):
            tree, lv = s1
            first = lambda l: tree.at(l)
            params = [lv]
        else:
            first = lambda: s1
            params = []

        def part(j, *a):
            m = {v.name: x for v, x in zip(params, a)}
            m[kv.name] = j
            dims = [(d if isinstance(d, Block) else d) for d in ph.dims]
            dims = [d.subst(m) for d in dims]
            dims[ax] = b.subst(m)
            return SymArray.make(dims, lambda *i: new.subst({**m, **{v.name: x for v, x in zip(vs, i)}}), ph._dtype)
        chk = []
        for v in params:
            R.range[v.name] = R.range.get(v.name)
        a0 = [T.pvar(v) for v in params]
        if prove_eq(first(*a0), part(T.ZERO, *a0)).status != "discharged":
            return False
        lst = lambda kk, *a: SymList.make(kk, lambda j: part(j, *a))
        new_cf["list:" + nm] = lst
        new_cf[nm] = lambda kk, *a: concatenate(lst(kk, *a[:len(params)]), axis=ax).el(*a[len(params):])
        new_cf[ln] = lambda kk, *a: T.bigsum(kk, lambda j: b.subst({**{v.name: x for v, x in zip(params, a)}, kv.name: j}))
        return True


def closed_form(cf, add, name, step=True):
    """Plan: cf(k, initial) maps variable names to their values at the head of iteration k.
    Obligations: cf(0) is the initial state; one iteration maps cf(k) to cf(k+1) for every k."""
    from .prove import prove_eq

    def tup(lp, d):
        return tuple(d[x] if x in d else (PhList(x) if x == "y" else Poison(x)) for x in lp.names)

    def plan(lp, n, at):
        s0 = lp.mapping(lp.read())
        for x, y in cf(T.ZERO, s0).items():
            add(f"{name}: initially", prove_eq(s0[x], y))
        if T.decide(T.eq(n, T.ZERO)) is not True:
            kv = T.fresh_var("i", "k")
            R.range[kv.name] = (T.ZERO, n)
            k = T.pvar(kv)
            saved = list(R.pc)
            E.assume(T.le(T.PONE, n))
            lp.state = tup(lp, cf(k, s0))
            lp.abstract = True
            with generic(kv):
                yield at(k)
            lp.abstract = False
            s2 = lp.mapping(lp.read())
            with generic(kv):
                for x, y in cf(k + 1, s0).items():
                    add(f"{name}: preserved", prove_eq(s2[x], y))
            R.pc = saved
            R.bump()
        out = cf(n, s0)
        lp.final = tuple(out[x] if x in out else ([None] if x == "y" else Poison(x)) for x in lp.names)
        lp.cut = True
    return plan


def invariant(state, check, first=False):
    """Plan: state(k, initial) gives fresh values (assuming the invariant at k) for the loop's variables, check(k, values)
    the obligations that values satisfy the invariant at k.  Two kinds of paths: one arbitrary iteration
    (ends after re-establishing the invariant, or runs on after a break), and the exit after the last iteration.
    first: iteration 0 and the later ones are separate paths."""
    def tup(lp, d):
        return tuple(d[x] if x in d else (PhList(x) if x == "y" else Poison(x)) for x in lp.names)

    def plan(lp, n, at):
        s0 = lp.mapping(lp.read())
        which = E.choose(2)
        if which == 0:
            check(T.ZERO, s0)
            if not E.branch(T.le(T.PONE, n)):
                raise PathEnd("no iteration")
            if first and E.choose(2) == 0:
                k = T.ZERO
            else:
                kv = T.fresh_var("i", "k")
                R.range[kv.name] = (T.ZERO, n)
                k = T.pvar(kv)
                if first:
                    if not E.branch(T.le(T.const(2), n)):
                        raise PathEnd("no second iteration")
                    R.range[kv.name] = (T.PONE, n)
            lp.state = tup(lp, state(k, s0))
            lp.abstract = True
            yield at(k)
            lp.abstract = False
            check(k + 1, lp.mapping(lp.read()))
            raise PathEnd("inductive step")
        out = state(n, s0)
        lp.final = tuple(out[x] if x in out else ([None] if x == "y" else Poison(x)) for x in lp.names)
        lp.cut = True
    return plan


def comp(kind, it, f, cond=None, unpack=False):
    """A rewritten comprehension / generator expression."""
    s = sym_seq(it)
    if s is None:
        if isinstance(it, (SymList, SymSeq)):
            it = list(iter(it))
        g = (f(x) for x in it if cond is None or cond(x))
        if kind == "gen":
            return g
        if kind == "list":
            return list(g)
        if kind == "set":
            return set(g)
        return dict(g)
    if cond is not None or kind in ("set", "dict"):
        raise Unsupported("filtered comprehension over a symbolic sequence")
    n, at = s
    return SymList.make(n, lambda p: f(at(p)))
