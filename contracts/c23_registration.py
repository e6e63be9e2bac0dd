"""C23: registering a method writes exactly one entry per table, or nothing.

The tables are ghost maps with arbitrary contents (only the presence of the keys at hand is fixed, by cases), so
the postcondition holds in every state and, by induction over the history, for every sequence of registrations."""
import itertools
from vf.driver import spec
from vf.term import Unsupported

REG = "laplax.register."
ARGS = {"create_curvature_fn": ("curv.cov", "CURVATURE_METHODS"),
        "curvature_to_precision_fn": ("curv.cov", "CURVATURE_PRECISION_METHODS"),
        "prec_to_posterior_fn": ("curv.cov", "CURVATURE_TO_POSTERIOR_STATE"),
        "posterior_state_to_scale_fn": ("curv.cov", "CURVATURE_STATE_TO_SCALE"),
        "posterior_state_to_cov_fn": ("curv.cov", "CURVATURE_STATE_TO_COV"),
        "marginal_log_likelihood_fn": ("eval.likelihood", "CURVATURE_MARGINAL_LOG_LIKELIHOOD")}


class Ghost:
    """A dictionary of unknown contents: `here` maps the keys whose presence is known to their value (None: absent)."""

    def __init__(self, here):
        self.prior, self.now, self.touched = dict(here), dict(here), set()

    def _known(self, k):
        for x in self.now:
            if x is k or (type(x) is type(k) and x == k):
                return x
        raise Unsupported("table read at a key whose presence is unknown")

    def __contains__(self, k):
        return self.now[self._known(k)] is not None

    def __getitem__(self, k):
        x = self.now[self._known(k)]
        if x is None:
            raise KeyError(k)
        return x

    def get(self, k, d=None):
        return self[k] if k in self else d

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def __setitem__(self, k, x):
        self.touched.add(k)
        self.now[k] = x

    def __delitem__(self, k):
        self[k]
        self.touched.add(k)
        self.now[k] = None

    def pop(self, k, *d):
        if k not in self and d:
            return d[0]
        x = self[k]
        del self[k]
        return x

    def update(self, *a, **k):
        for key, x in dict(*a, **k).items():
            self[key] = x

    def __ior__(self, o):
        self.update(o)
        return self

    def _no(self, *a, **k):
        raise Unsupported("table of unknown contents iterated")
    __iter__ = __len__ = keys = values = items = copy = __or__ = clear = popitem = _no


class Key(str):
    """A method name; equal only to itself."""
    __hash__ = str.__hash__

    def __eq__(self, o):
        return self is o


def everywhere(v, old, new):
    """Replace a table in every loaded module of laplax."""
    n = 0
    for m in list(v.P.mods.values()):
        for k, x in list(vars(m).items()):
            if x is old:
                setattr(m, k, new)
                n += 1
    return n


def attempt(fn):
    try:
        return fn(), None
    except Exception as e:      # noqa: BLE001
        return None, e


def cases():
    """given / inherited from a known default / unknown default, per table; default given or not; same name as the default or not;
    name already registered or not."""
    for given in itertools.product((True, False), repeat=6):
        for default in ("none", "given", "self"):
            for known in itertools.product((True, False), repeat=6) if default != "none" else [(False,) * 6]:
                if any(g and not k for g, k in zip(given, known)):
                    continue        # presence matters only where a function is missing
                yield given, default, known
        for default in ("given", "self"):
            yield given, default, (False,) * 6


@spec("C23", [REG + "register_curvature_method"], "each table gets the given function or the default's under the name and no other entry changes; on failure no table changes")
def curvature(v):
    reg = v.mod("register")
    tables = {}
    for arg, (mod, t) in ARGS.items():
        tables[arg] = getattr(v.mod(mod), t)
    v.true("six tables", len({id(t) for t in tables.values()}) == 6)
    ok = {k: [] for k in ("given functions and the default's", "no other entry", "missing functions are rejected", "an unknown default is rejected", "nothing is written on failure", "returns nothing")}
    current = tables
    seen = 0
    for given, default, known in cases():
        name = Key("Custom")
        base = None if default == "none" else name if default == "self" else Key("Base")
        prior = {}
        fns, ghosts = {}, {}
        for arg, g, k in zip(ARGS, given, known):
            here = {name: object()} if seen % 2 else {name: None}
            if base is not None:
                here[base] = (lambda *a: None) if k else None
            ghosts[arg] = Ghost(here)
            prior[arg] = dict(here)
            if g:
                fns[arg] = lambda *a: None
            everywhere(v, current[arg], ghosts[arg])
        current = ghosts
        seen += 1
        res, err = attempt(lambda: reg.register_curvature_method(name, default=base, **fns))
        missing = [a for a in ARGS if a not in fns]
        if missing and base is None:
            ok["missing functions are rejected"].append(isinstance(err, ValueError))
            fail = True
        elif any(prior[a][base] is None for a in missing):
            ok["an unknown default is rejected"].append(isinstance(err, (KeyError, ValueError)))
            fail = True
        else:
            fail = False
            if err is not None:
                raise err
            ok["returns nothing"].append(res is None)
            ok["given functions and the default's"].append(all(ghosts[a].now.get(name) is (fns[a] if a in fns else prior[a][base]) for a in ARGS))
            ok["no other entry"].append(all(g.now[k] is prior[a].get(k) for a, g in ghosts.items() for k in g.now if k is not name)
                                        and all(k is name for g in ghosts.values() for k in g.touched if not (k in g.prior and g.now[k] is g.prior[k])))
        if fail:
            ok["nothing is written on failure"].append(err is not None and all(g.now == g.prior and all(g.now[k] is g.prior.get(k) for k in g.now) for g in ghosts.values()))
    for k, xs in ok.items():
        v.true(k, bool(xs) and all(xs), f"{sum(not x for x in xs)} of {len(xs)} cases fail")
    v.true("every combination was met", seen >= 64 * 3)


@spec("C23", [REG + "register_curvature_method"], "the functions of a registered type are used from then on by estimation, posterior construction and evidence")
def used(v):
    reg, cov, lik = v.mod("register"), v.mod("curv.cov"), v.mod("eval.likelihood")
    fns = {a: (lambda *x, a=a, **k: None) for a in ARGS}
    base = v.mod("enums").CurvApprox.DIAGONAL
    reg.register_curvature_method("all", **fns)
    reg.register_curvature_method("some", create_curvature_fn=fns["create_curvature_fn"], default=base)
    reg.register_curvature_method("second", default="some")
    for a, (mod, t) in ARGS.items():
        tab = getattr(v.mod(mod), t)
        own = fns[a] if a == "create_curvature_fn" else tab[base]
        v.true(f"{t}: given", tab["all"] is fns[a])
        v.true(f"{t}: default's", tab["some"] is own)
        v.true(f"{t}: default registered earlier", tab["second"] is own)


@spec("C23", [REG + "register_calibration_method"], "exactly that entry is written")
def calibration(v):
    reg, api = v.mod("register"), v.mod("api")
    for prior in (None, lambda **k: None):
        name = Key("Method")
        g = Ghost({name: prior})
        n = everywhere(v, api.calibration_options, g)
        fn = lambda **k: None
        res = reg.register_calibration_method(name, fn)
        tag = "new name" if prior is None else "name in use"
        v.true(f"{tag}: entry", n >= 1 and g.now.get(name) is fn)
        v.true(f"{tag}: no other entry", all(k is name for k in g.touched))
        v.true(f"{tag}: returns nothing", res is None)
