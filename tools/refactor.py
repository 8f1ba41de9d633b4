"""Behaviour-preserving rewrites of the whole package, to see that the checks stay quiet.

use: refactor.py KIND DIR    rewrites DIR/ruleskit in place. KIND: unparse, rename, invert, temps, loops, helpers, kwargs, all
(only for scratch copies; tools/quiet.sh runs the checks on them)
"""
import ast, builtins, os, sys


class Locals(ast.NodeVisitor):
    """Names assigned in a function, except parameters, globals, nonlocals and those used in nested functions."""

    def __init__(self, fn):
        self.names, self.bad = set(), {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
        for a in (fn.args.vararg, fn.args.kwarg):
            if a:
                self.bad.add(a.arg)
        self.fn = fn
        for s in fn.body:
            self.visit(s)
        self.names -= self.bad

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store):
            self.names.add(n.id)

    def visit_Global(self, n):
        self.bad.update(n.names)
    visit_Nonlocal = visit_Global

    def nested(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                self.bad.add(x.id)
            elif isinstance(x, ast.arg):
                self.bad.add(x.arg)
        if hasattr(n, "name"):
            self.bad.add(n.name)
    visit_FunctionDef = visit_Lambda = visit_ClassDef = nested

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "eval", "exec"):
            self.all_bad = True
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.bad.add((a.asname or a.name).split(".")[0])
    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.bad.add(n.name)
        self.generic_visit(n)


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        loc = Locals(fn)
        if getattr(loc, "all_bad", False):
            return fn
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in loc.names:
                x.id = "the_" + x.id
        return fn


class Invert(ast.NodeTransformer):
    """if a: X else: Y  ->  if not a: Y else: X;   a if c else b likewise; a == b -> b == a; early returns get an else"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)


class Temps(ast.NodeTransformer):
    """Return values, tests and first arguments go through a variable."""
    k = 0

    def name(self):
        Temps.k += 1
        return f"_value_{Temps.k}"

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        v = self.name()
        return [ast.Assign(targets=[ast.Name(v, ast.Store())], value=n.value), ast.Return(ast.Name(v, ast.Load()))]

    def visit_If(self, n):
        self.generic_visit(n)
        v = self.name()
        return [ast.Assign(targets=[ast.Name(v, ast.Store())], value=n.test), ast.If(test=ast.Name(v, ast.Load()), body=n.body, orelse=n.orelse)]

    def visit_Lambda(self, n):
        return n


class Loops(ast.NodeTransformer):
    """x = [f for a in b if c]  ->  explicit loop (in functions, when the names are free)"""

    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        self.used = [x.id for x in ast.walk(fn) if isinstance(x, ast.Name)]
        fn.body = self.block(fn.body)
        return fn

    def block(self, body):
        out = []
        for s in body:
            for f in ("body", "orelse", "finalbody"):
                if getattr(s, f, None) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, self.block(getattr(s, f)))
            for h in getattr(s, "handlers", []):
                h.body = self.block(h.body)
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and len(s.targets) == 1:
                g = s.value.generators[0]
                acc = f"_acc_{s.lineno}_{s.col_offset}"
                new = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                m = {x: f"_it_{x}_{s.lineno}" for x in new}
                inner = [s.value.elt, *g.ifs, g.target]
                if any(isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Lambda)) for y in inner for x in ast.walk(y)):
                    out.append(s)
                    continue
                for y in inner:
                    for x in ast.walk(y):
                        if isinstance(x, ast.Name) and x.id in m:
                            x.id = m[x.id]
                app = ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [s.value.elt], []))
                for t in reversed(g.ifs):
                    app = ast.If(test=t, body=[app], orelse=[])
                out += [ast.Assign([ast.Name(acc, ast.Store())], ast.List([], ast.Load())),
                        ast.For(target=g.target, iter=g.iter, body=[app], orelse=[]),
                        ast.Assign(s.targets, ast.Name(acc, ast.Load()))]
            else:
                out.append(s)
        return out


class Helpers(ast.NodeTransformer):
    """Bodies of plain methods move to a private function of the module, called by the method."""

    def __init__(self):
        self.new = []

    def visit_ClassDef(self, c):
        for i, f in enumerate(c.body):
            if not isinstance(f, ast.FunctionDef) or f.name in ("__init__", "__new__", "__init_subclass__", "__getattr__", "__setattr__"):
                continue
            names = {x.id for x in ast.walk(f) if isinstance(x, ast.Name)}
            if "super" in names or "__class__" in names or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal)) for x in ast.walk(f)):
                continue
            if any(isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for x in ast.walk(f)):
                continue
            if any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "abstractmethod") for d in f.decorator_list) or f.args.posonlyargs:
                continue
            if any(isinstance(d, ast.Attribute) and d.attr in ("abstractmethod",) for d in f.decorator_list) or not f.args.args:
                continue
            kind = "" if not f.decorator_list else ("_" + "_".join(ast.unparse(d).replace(".", "_").replace("(", "").replace(")", "").replace("'", "").replace('"', "") for d in f.decorator_list))
            h = f"_{c.name}_{f.name}{kind}"
            if not h.isidentifier():
                continue
            doc = ast.get_docstring(f, clean=False)
            body = f.body[1:] if doc is not None else f.body
            if not body:
                continue
            a = f.args
            b = ast.arguments(posonlyargs=[], args=[ast.arg(x.arg) for x in a.args], vararg=a.vararg and ast.arg(a.vararg.arg),
                              kwonlyargs=[ast.arg(x.arg) for x in a.kwonlyargs], kw_defaults=[None] * len(a.kwonlyargs), kwarg=a.kwarg and ast.arg(a.kwarg.arg), defaults=[])
            self.new.append(ast.FunctionDef(name=h, args=b, body=body, decorator_list=[], returns=None, type_params=[]))
            call = ast.Call(ast.Name(h, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.args] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []),
                            [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
            f.body = f.body[:1 if doc is not None else 0] + [ast.Return(call)]
        return c


def rewrite(src, kind):
    t = ast.parse(src)
    kinds = ["rename", "invert", "temps", "loops", "helpers"] if kind == "all" else [kind]
    for k in kinds:
        if k == "rename":
            t = Rename().visit(t)
        elif k == "invert":
            t = Invert().visit(t)
        elif k == "temps":
            t = Temps().visit(t)
        elif k == "loops":
            t = Loops().visit(t)
        elif k == "helpers":
            h = Helpers()
            t = h.visit(t)
            t.body += h.new
        t = ast.parse(ast.unparse(ast.fix_missing_locations(t)))
    return ast.unparse(t) + "\n"


if __name__ == "__main__":
    kind, root = sys.argv[1:]
    assert not os.path.abspath(root).startswith(("/repo", "/verif"))
    for d, _, fs in os.walk(os.path.join(root, "ruleskit")):
        for f in fs:
            if f.endswith(".py") and "_version" not in f:
                p = os.path.join(d, f)
                s = open(p).read()
                open(p, "w").write(rewrite(s, kind))
