"""Loading laplax from /repo's current source.

Every module is parsed from the file on disk on every run.  The only rewriting is:
  * `for` loops and single-generator comprehensions go through vf.loops (so that
    sequences of symbolic length can be cut by invariants),
  * calls of the builtins int/float/bool/list/tuple/... go to symbolic-aware versions.
Imports of jax, jax.numpy, ... resolve to vf.shims."""
import ast
import builtins
import os
import sys
import types
from . import loops
from .term import Unsupported

REPO = os.environ.get("VF_REPO", "/repo")
CALLS = {"int", "float", "bool", "list", "tuple", "str", "dict", "set"}
MUT = {"append", "extend", "update", "insert", "setdefault", "add"}


class Tx(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fn = []
        self.cnt = {}
        self.k = 0
        self.local = [set()]

    def fresh(self, hint):
        self.k += 1
        return f"__vf_{hint}{self.k}"

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        n = self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        n = self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in CALLS:
            n.func = ast.copy_location(ast.Name("__vf_" + n.func.id, ast.Load()), n.func)
        return n

    # comprehensions
    def _comp(self, n, kind, elt):
        if len(n.generators) != 1 or n.generators[0].is_async:
            return self.generic_visit(n)
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n)):
            return self.generic_visit(n)
        g = n.generators[0]
        f = self._lam(g.target, self.visit(elt))
        cond = ast.Constant(None)
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = self._lam(g.target, self.visit(c))
        if f is None or cond is None:
            return self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("__vf_comp", ast.Load()),
                                          [ast.Constant(kind), self.visit(g.iter), f, cond], []), n)

    def _lam(self, target, body):
        if isinstance(target, ast.Name):
            return ast.Lambda(ast.arguments([], [ast.arg(target.id)], None, [], [], None, []), body)
        if isinstance(target, (ast.Tuple, ast.List)):
            names, inner = [], body
            for t in reversed(target.elts):
                if isinstance(t, ast.Name):
                    names.insert(0, t.id)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    nm = self.fresh("t")
                    names.insert(0, nm)
                    inner = ast.Call(self._lam(t, inner), [ast.Name(nm, ast.Load())], [])
                else:
                    return None
            f = ast.Lambda(ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), inner)
            nm = self.fresh("t")
            return ast.Lambda(ast.arguments([], [ast.arg(nm)], None, [], [], None, []),
                              ast.Call(f, [ast.Starred(ast.Name(nm, ast.Load()), ast.Load())], []))
        return None

    def visit_ListComp(self, n):
        return self._comp(n, "list", n.elt)

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen", n.elt)

    def visit_SetComp(self, n):
        return self._comp(n, "set", n.elt)

    def visit_DictComp(self, n):
        return self._comp(n, "dict", ast.Tuple([n.key, n.value], ast.Load()))

    # a comprehension with a walrus: hoisted to a loop
    def _hoist(self, st):
        v = getattr(st, "value", None)
        if isinstance(st, (ast.Return, ast.Assign, ast.AnnAssign)) and isinstance(v, ast.ListComp) \
                and len(v.generators) == 1 and any(isinstance(x, ast.NamedExpr) for x in ast.walk(v.elt)) \
                and not v.generators[0].ifs:
            tmp = self.fresh("l")
            a = ast.Assign([ast.Name(tmp, ast.Store())], ast.List([], ast.Load()))
            body = ast.Expr(ast.Call(ast.Attribute(ast.Name(tmp, ast.Load()), "append", ast.Load()), [v.elt], []))
            loop = ast.For(v.generators[0].target, v.generators[0].iter, [body], [])
            st.value = ast.Name(tmp, ast.Load())
            return [ast.copy_location(x, st) for x in (a, loop, st)]
        return None

    def _body(self, stmts):
        out = []
        for s in stmts:
            h = self._hoist(s)
            for x in (h or [s]):
                r = self.visit(x)
                if isinstance(r, list):
                    out += r
                elif r is not None:
                    out.append(r)
        return out

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, ["__vf_done__", b])
        for f, old in ast.iter_fields(n):
            if isinstance(old, list) and len(old) == 2 and old[0] == "__vf_done__":
                setattr(n, f, self._body(old[1]))
            elif isinstance(old, list):
                new = []
                for x in old:
                    if isinstance(x, ast.AST):
                        x = self.visit(x)
                        if x is None:
                            continue
                        if isinstance(x, list):
                            new.extend(x)
                            continue
                    new.append(x)
                old[:] = new
            elif isinstance(old, ast.AST):
                new = self.visit(old)
                if new is None:
                    delattr(n, f)
                else:
                    setattr(n, f, new)
        return n

    def visit_For(self, n):
        if n.orelse:
            return self.generic_visit(n)
        names = []

        def add(x):
            if x not in names:
                names.append(x)
        tgt = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}

        def scan(x):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                add(x.name)
                return
            if isinstance(x, ast.Lambda):
                return
            if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                return
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                add(x.id)
            if isinstance(x, ast.ExceptHandler) and x.name:
                pass
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store):
                b = x
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    add(b.id)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT \
                    and isinstance(x.func.value, ast.Name):
                add(x.func.value.id)
            for c in ast.iter_child_nodes(x):
                scan(c)
        for s in n.body:
            scan(s)
        names = [x for x in names if x not in tgt]
        q = f"{self.mod}:{'.'.join(self.fn)}"
        self.cnt[q] = self.cnt.get(q, 0) + 1
        where = f"{q}#{self.cnt[q]}"
        lp = self.fresh("lp")
        L = lambda: ast.Name(lp, ast.Load())
        getters = [ast.Lambda(ast.arguments([], [], None, [], [], None, []), ast.Name(x, ast.Load())) for x in names]
        mk = ast.Assign([ast.Name(lp, ast.Store())],
                        ast.Call(ast.Name("__vf_loop", ast.Load()),
                                 [self.visit(n.iter), ast.Constant(where),
                                  ast.Tuple([ast.Constant(x) for x in names], ast.Load()),
                                  ast.Tuple(getters, ast.Load())], []))
        tup = lambda: ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())
        enter = ast.If(ast.Attribute(L(), "abstract", ast.Load()),
                       [ast.Assign([tup()], ast.Attribute(L(), "state", ast.Load()))], [])
        leave = ast.If(ast.Attribute(L(), "cut", ast.Load()),
                       [ast.Assign([tup()], ast.Attribute(L(), "final", ast.Load()))], [])
        loop = ast.For(n.target, L(), ([enter] if names else []) + self._body(n.body), [])
        out = [mk, loop] + ([leave] if names else [])
        return [ast.copy_location(x, n) for x in out]


class Program:
    """One fresh load of laplax (module globals are not shared between paths)."""
    code_cache = {}

    def __init__(self, shims, stubs=None):
        self.mods = {}
        self.shims = shims
        self.stubs = stubs or {}
        self.builtins = dict(vars(builtins))
        self.builtins.update(shims["builtins"])
        self.builtins["__import__"] = self.imp
        self.builtins["__vf_loop"] = loops.Loop
        self.builtins["__vf_comp"] = loops.comp
        self.sources = set()

    def path(self, name):
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base):
            return os.path.join(base, "__init__.py"), True
        return base + ".py", False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        p, pkg = self.path(name)
        if not os.path.exists(p):
            raise ModuleNotFoundError(name)
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = p
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [os.path.dirname(p)]
        self.mods[name] = m
        if p not in self.code_cache:
            src = open(p).read()
            t = Tx(name).visit(ast.parse(src))
            ast.fix_missing_locations(t)
            self.code_cache[p] = compile(t, p, "exec")
        sys.modules.setdefault(name, m)      # dataclass / typing lookups
        sys.modules[name] = m
        exec(self.code_cache[p], m.__dict__)
        self.sources.add(p)
        for key, fn in self.stubs.items():
            mod, _, attr = key.rpartition(".")
            if mod == name:
                setattr(m, attr, fn(getattr(m, attr)))
        if parent:
            setattr(self.mods[parent], name.rpartition(".")[2], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals["__package__"].split(".")
            pk = pk[:len(pk) - (level - 1)]
            name = ".".join(pk + ([name] if name else []))
        if name == "laplax" or name.startswith("laplax."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load("laplax")
        top = name.split(".")[0]
        if name in self.shims:
            if fromlist:
                return self.shims[name]
            return self.shims[top]
        if top in self.shims and top not in ("collections",):
            if top in ("jax", "jaxtyping", "tqdm", "loguru", "numpy"):
                if top == "tqdm":
                    return self.shims["tqdm"]
                raise Unsupported(f"import of {name}")
        if top in ("wandb", "matplotlib", "orbax", "sklearn", "torch"):
            raise ImportError(name)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def __getitem__(self, dotted):
        mod, _, attr = dotted.rpartition(".")
        return getattr(self.load(mod), attr)
