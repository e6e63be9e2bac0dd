"""Developer tool: behaviour-preserving rewritings of the whole of laplax; every contract has to stay quiet.

python3-vt tools/refactor.py write NAME DIR      write the rewritten tree to DIR (a copy of /repo/laplax)
python3-vt tools/refactor.py list"""
import ast
import os
import shutil
import sys

SRC = os.environ.get("VF_REPO", "/repo")


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


class Base(ast.NodeTransformer):
    k = 0

    def fresh(self):
        Base.k += 1
        return f"_t{Base.k}"


class RenameLocals(ast.NodeTransformer):
    def visit_FunctionDef(self, fn):
        names, ps = set(), set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                ps |= set(params(n))
                if isinstance(n, ast.FunctionDef) and n is not fn and not n.decorator_list:
                    names.add(n.name)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                ps |= set(n.names)
            if isinstance(n, ast.ExceptHandler) and n.name:
                ps.add(n.name)
        names -= ps
        # names of nested functions may be observable (__name__), keep those
        nested = {n.name for n in ast.walk(fn) if isinstance(n, ast.FunctionDef) and n is not fn}
        names -= nested

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id in names:
                    n.id = n.id + "_renamed"
                return n
        return R().visit(fn)


class Tmp(Base):
    """return e -> t = e; return t, and nested calls pulled into temporaries."""

    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        return fn

    def pull(self, e, out):
        if isinstance(e, ast.Call) and not any(isinstance(a, ast.Starred) for a in e.args) and (isinstance(e.func, ast.Name) or isinstance(e.func, ast.Attribute)):
            for k, a in enumerate(e.args):
                if isinstance(a, (ast.Call, ast.BinOp)) and not (isinstance(e.func, ast.Name) and e.func.id == "cast"):
                    t = self.fresh()
                    out.append(ast.Assign([ast.Name(t, ast.Store())], self.pull(a, out)))
                    e.args[k] = ast.Name(t, ast.Load())
                elif not isinstance(a, (ast.Constant, ast.Name, ast.Attribute)):
                    break
        return e

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        out = []
        v = self.pull(n.value, out)
        t = self.fresh()
        return [*out, ast.Assign([ast.Name(t, ast.Store())], v), ast.Return(ast.Name(t, ast.Load()))]

    def visit_Assign(self, n):
        out = []
        n.value = self.pull(n.value, out)
        return [*out, n]

    def visit_Lambda(self, n):
        return n


class CompLoop(Base):
    """x = [f for v in it] / return [...] -> loop with append; dict comprehensions likewise."""

    def expand(self, e):
        if not isinstance(e, (ast.ListComp, ast.DictComp)) or len(e.generators) != 1:
            return None
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(e)):
            return None
        g, t = e.generators[0], self.fresh()
        if isinstance(e, ast.ListComp):
            init = ast.List([], ast.Load())
            add = ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [e.elt], []))
        else:
            init = ast.Dict([], [])
            add = ast.Assign([ast.Subscript(ast.Name(t, ast.Load()), e.key, ast.Store())], e.value)
        body = [add]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        return t, [ast.Assign([ast.Name(t, ast.Store())], init), ast.For(g.target, g.iter, body, [])]

    def visit_Return(self, n):
        r = self.expand(n.value)
        if r is None:
            return n
        return [*r[1], ast.Return(ast.Name(r[0], ast.Load()))]

    def visit_Assign(self, n):
        r = self.expand(n.value)
        if r is None:
            return n
        n.value = ast.Name(r[0], ast.Load())
        return [*r[1], n]


class Invert(Base):
    """if c: A else: B -> if not c: B else: A; conditional expressions likewise."""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class IfExpStmt(Base):
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp):
            import copy
            v = n.value
            return ast.If(v.test, [ast.Assign(n.targets, v.body)], [ast.Assign(copy.deepcopy(n.targets), v.orelse)])
        return n

    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            return ast.If(n.value.test, [ast.Return(n.value.body)], [ast.Return(n.value.orelse)])
        return n


class LambdaDef(Base):
    def visit_Assign(self, n):
        if isinstance(n.value, ast.Lambda) and isinstance(n.targets[0], ast.Name):
            return ast.FunctionDef(n.targets[0].id, n.value.args, [ast.Return(n.value.body)], [], type_params=[])
        return n

    def hoist(self, n):
        out = []
        if isinstance(n.value, ast.Call):
            c = n.value
            for k, a in enumerate(c.args):
                if isinstance(a, ast.Lambda):
                    t = self.fresh()
                    out.append(ast.FunctionDef(t, a.args, [ast.Return(a.body)], [], type_params=[]))
                    c.args[k] = ast.Name(t, ast.Load())
            for kw in c.keywords:
                if isinstance(kw.value, ast.Lambda):
                    t = self.fresh()
                    out.append(ast.FunctionDef(t, kw.value.args, [ast.Return(kw.value.body)], [], type_params=[]))
                    kw.value = ast.Name(t, ast.Load())
        return [*out, n]

    def visit_Return(self, n):
        if isinstance(n.value, ast.Lambda):
            t = self.fresh()
            return [ast.FunctionDef(t, n.value.args, [ast.Return(n.value.body)], [], type_params=[]), ast.Return(ast.Name(t, ast.Load()))]
        return self.hoist(n)


class Inner(Base):
    """body of every function moved to a helper taking the same parameters."""

    def visit_FunctionDef(self, fn):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)) or fn.name.startswith("__"):
            return fn
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals") for x in ast.walk(fn)):
            return fn
        doc = fn.body[:1] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else []
        body = fn.body[len(doc):]
        if not body:
            return fn
        t = self.fresh() + "_helper"
        ps = params(fn)
        helper = ast.FunctionDef(t, ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), body, [], type_params=[])
        fn.body = [*doc, helper, ast.Return(ast.Call(ast.Name(t, ast.Load()), [ast.Name(p, ast.Load()) for p in ps], []))]
        return fn


class ModHelper(Base):
    """body of every module-level function moved to a module-level helper."""

    def visit_Module(self, m):
        out = []
        for s in m.body:
            if isinstance(s, ast.FunctionDef) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)):
                doc = s.body[:1] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
                body = s.body[len(doc):]
                if body:
                    t = "_helper_" + s.name + self.fresh()
                    ps = params(s)
                    out.append(ast.FunctionDef(t, ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), body, [], type_params=[]))
                    s.body = [*doc, ast.Return(ast.Call(ast.Name(t, ast.Load()), [ast.Name(p, ast.Load()) for p in ps], []))]
            out.append(s)
        m.body = out
        return m


class Algebra(Base):
    """x ** 2 -> x * x, jnp.square(x) -> x ** 2, a @ b -> jnp.matmul(a, b), x.T -> x.transpose(), a * b -> b * a, a < b -> b > a"""
    FL = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, ast.Name):
            return ast.BinOp(n.left, ast.Mult(), n.left)
        if isinstance(n.op, ast.Mult):
            n.left, n.right = n.right, n.left
        if isinstance(n.op, ast.MatMult):
            return ast.Call(ast.parse("jnp.matmul", mode="eval").body, [n.left, n.right], [])
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = ast.unparse(n.func)
        if f == "jnp.square" and len(n.args) == 1:
            return ast.BinOp(n.args[0], ast.Pow(), ast.Constant(2))
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.FL:
            return ast.Compare(n.comparators[0], [self.FL[type(n.ops[0])]()], [n.left])
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == "T" and isinstance(n.ctx, ast.Load):
            return ast.Call(ast.parse("jnp.transpose", mode="eval").body, [n.value], [])
        return n


class Enumerated(Base):
    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = ast.Call(ast.Name("enumerate", ast.Load()), [n.iter], [])
        n.target = ast.Tuple([ast.Name(self.fresh(), ast.Store()), n.target], ast.Store())
        return n


class DictCall(Base):
    """{..literal..} -> built step by step at statement level; **-merging via dict(); f-string keys untouched."""

    def build(self, e):
        t = self.fresh()
        out = [ast.Assign([ast.Name(t, ast.Store())], ast.Dict([], []))]
        for k, v in zip(e.keys, e.values):
            if k is None:
                out.append(ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "update", ast.Load()), [v], [])))
            else:
                out.append(ast.Assign([ast.Subscript(ast.Name(t, ast.Load()), k, ast.Store())], v))
        return t, out

    def visit_Return(self, n):
        if isinstance(n.value, ast.Dict) and n.value.keys:
            t, out = self.build(n.value)
            return [*out, ast.Return(ast.Name(t, ast.Load()))]
        return n

    def visit_Assign(self, n):
        if isinstance(n.value, ast.Dict) and n.value.keys and isinstance(n.targets[0], ast.Name):
            t, out = self.build(n.value)
            n.value = ast.Name(t, ast.Load())
            return [*out, n]
        return n


class SingleReturn(Base):
    """trailing `if c: return A` ... `return B` -> one return of a result variable (only when the ifs are directly in the body)."""

    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        b = fn.body
        if len(b) >= 2 and isinstance(b[-1], ast.Return) and b[-1].value is not None and isinstance(b[-2], ast.If) and not b[-2].orelse \
                and isinstance(b[-2].body[-1], ast.Return) and b[-2].body[-1].value is not None \
                and not any(isinstance(x, ast.Return) for s in b[-2].body[:-1] for x in ast.walk(s)):
            t = self.fresh()
            a = lambda v: ast.Assign([ast.Name(t, ast.Store())], v)
            fn.body = [*b[:-2], ast.If(b[-2].test, [*b[-2].body[:-1], a(b[-2].body[-1].value)], [a(b[-1].value)]), ast.Return(ast.Name(t, ast.Load()))]
        return fn


class GuardElse(Base):
    """if c: raise/return ...; rest -> if c: ... else: rest"""

    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        fn.body = self.block(fn.body)
        return fn

    def block(self, b):
        for k, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and k + 1 < len(b):
                rest = b[k + 1:]
                if any(isinstance(x, ast.FunctionDef) for x in rest):
                    pass
                s.orelse = self.block(rest)
                return b[:k + 1]
        return b


class Unpack(Base):
    """a, b = e -> t = e; a = t[0]; b = t[1] (tuples and lists only: right-hand sides that are calls of known tuple functions are left)."""

    def visit_Assign(self, n):
        t = n.targets[0]
        if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Call) and all(isinstance(x, ast.Name) for x in t.elts) \
                and ast.unparse(n.value.func).split(".")[-1] in ("vjp", "jvp", "func", "get_matvec", "create_pytree_flattener", "tree_flatten", "_setup_pushforward", "lin_pred_mean",
                                                             "lin_pred_var", "lin_pred_cov", "nonlin_samples", "initialize_fn", "iteration_step"):
            v = self.fresh()
            return [ast.Assign([ast.Name(v, ast.Store())], n.value)] + [
                ast.Assign([x], ast.Subscript(ast.Name(v, ast.Load()), ast.Constant(k), ast.Load())) for k, x in enumerate(t.elts)]
        return n


class AugOut(Base):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n


class PartialLambda(Base):
    """partial(f, k=v) -> lambda *a, **kw: f(*a, **{k: v, **kw})"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if ast.unparse(n.func) in ("partial", "functools.partial") and len(n.args) == 1:
            kws = ast.Dict([ast.Constant(k.arg) for k in n.keywords] + [None], [k.value for k in n.keywords] + [ast.Name("kw_", ast.Load())])
            return ast.Lambda(ast.arguments([], [], ast.arg("a_"), [], [], ast.arg("kw_"), []),
                              ast.Call(n.args[0], [ast.Starred(ast.Name("a_", ast.Load()), ast.Load())], [ast.keyword(None, kws)]))
        return n


ALL = {"rename": RenameLocals, "tmp": Tmp, "comploop": CompLoop, "invert": Invert, "ifexp": IfExpStmt, "lambdadef": LambdaDef, "inner": Inner,
       "modhelper": ModHelper, "algebra": Algebra, "enumerate": Enumerated, "dict": DictCall, "singlereturn": SingleReturn, "guardelse": GuardElse,
       "unpack": Unpack, "aug": AugOut, "partial": PartialLambda}


def main():
    if sys.argv[1] == "list":
        print(" ".join(ALL))
        return
    names, dst = sys.argv[2].split("+"), sys.argv[3]
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    for f in os.listdir(SRC):
        if f not in ("laplax", ".git"):
            s = os.path.join(SRC, f)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(dst, f))
    shutil.copytree(os.path.join(SRC, "laplax"), os.path.join(dst, "laplax"))
    n = 0
    for d, _, fs in os.walk(os.path.join(dst, "laplax")):
        for f in fs:
            if f.endswith(".py") and f not in ("lobpcg.py", "types.py"):
                p = os.path.join(d, f)
                src = open(p).read()
                t = ast.parse(src)
                for name in names:
                    t = ALL[name]().visit(t)
                    ast.fix_missing_locations(t)
                new = ast.unparse(t)
                n += new != ast.unparse(ast.parse(src))
                open(p, "w").write(new + "\n")
    print(sys.argv[2], n, "files changed")


if __name__ == "__main__":
    main()
