"""Loads modules of /repo's tn and itn packages with rewritten ASTs.

Each module is parsed from its current file; nothing is cached between runs.
"""
import ast
import builtins as _bi
import os
import sys
import types

from . import sx

H = "__sx__"


class _Support(types.SimpleNamespace):
    pass


def _call(fn, *args):
    return ast.Call(func=ast.Attribute(value=ast.Name(id=H, ctx=ast.Load()), attr=fn, ctx=ast.Load()),
                    args=list(args), keywords=[])


class Rewriter(ast.NodeTransformer):

    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, node):
        self.depth += 1
        node = self.generic_visit(node)
        self.depth -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if not any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            return node
        if len(node.ops) == 1:
            r = _call("contains", node.comparators[0], node.left)
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return r
        # a chain: evaluate operands once through walrus-free helper
        ops = [ast.Constant(value=type(o).__name__) for o in node.ops]
        return _call("chain", ast.Tuple(elts=ops, ctx=ast.Load()), node.left,
                     *[ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                  body=c) for c in node.comparators])

    def visit_Call(self, node):
        node = self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and not (isinstance(f.value, ast.Name) and f.value.id == H):
            return ast.Call(
                func=ast.Attribute(value=ast.Name(id=H, ctx=ast.Load()), attr="callm", ctx=ast.Load()),
                args=[f.value, ast.Constant(value=f.attr)] + node.args,
                keywords=node.keywords)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                conv = {-1: None, 115: "s", 114: "r", 97: "a"}[v.conversion]
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value="")
                parts.append(_call("fmtval", val, spec, ast.Constant(value=conv)))
        return _call("fstring", *parts)

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _call("mod", node.left, node.right)
        return node

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.depth and not isinstance(node.slice, (ast.Slice, ast.Constant, ast.Tuple)):
            return _call("getitem", node.value, node.slice)
        return node

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        elts = []
        for k, v in zip(node.keys, node.values):
            key = k if k is not None else ast.Attribute(value=ast.Name(id=H, ctx=ast.Load()), attr="STAR", ctx=ast.Load())
            elts.append(ast.Tuple(elts=[key, v], ctx=ast.Load()))
        return _call("dict", ast.List(elts=elts, ctx=ast.Load()))

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return _call("set", ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        return _call("dict", ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators))

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        return _call("set", ast.ListComp(elt=node.elt, generators=node.generators))

    def _loop(self, node):
        node = self.generic_visit(node)
        node.body.insert(0, ast.Expr(value=_call("tick")))
        return node

    visit_While = _loop
    visit_For = _loop

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_MatchValue(self, node):
        return node


def _chain(ops, left, *rights):
    for op, r in zip(ops, rights):
        r = r()
        if op == "In":
            v = sx.rt_contains(r, left)
        elif op == "NotIn":
            v = not sx.rt_contains(r, left)
        elif op == "Lt":
            v = left < r
        elif op == "LtE":
            v = left <= r
        elif op == "Gt":
            v = left > r
        elif op == "GtE":
            v = left >= r
        elif op == "Eq":
            v = left == r
        elif op == "NotEq":
            v = left != r
        elif op == "Is":
            v = left is r
        else:
            v = left is not r
        if not v:
            return False
        left = r
    return True


SUPPORT = _Support(
    contains=sx.rt_contains,
    callm=lambda obj, name, /, *a, **k: sx.rt_callm(obj, name, a, k),
    fstring=sx.rt_fstring,
    fmtval=sx.sx_format_value,
    mod=sx.rt_mod,
    getitem=sx.rt_getitem,
    dict=sx.rt_dict,
    set=sx.rt_set,
    tick=sx.tick,
    chain=_chain,
    STAR=sx._STAR,
)


class World:
    """One instrumented copy of the repository's packages.

    ``stubs`` maps a module name to the object used in its place.
    """

    def __init__(self, stubs=None, repo=None, builtins=None, instrument=True, stdlib=()):
        self.instrument = instrument
        self.stdlib = set(stdlib)  # standard library modules loaded like the code under test
        self.repo = repo or sx.REPO
        self.stubs = dict(stubs or {})
        self.modules = {}
        self.functions = set()
        b = dict(sx.BUILTINS) if instrument else dict(vars(_bi))
        b["__import__"] = self._import
        if builtins:
            b.update(builtins)
        self.builtins = b

    def _path(self, name):
        if name in self.stdlib:
            import sysconfig
            return os.path.join(sysconfig.get_path("stdlib"), *name.split(".")) + ".py", False
        base = os.path.join(self.repo, *name.split("."))
        if os.path.isfile(base + ".py"):
            return base + ".py", False
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.isdir(base):
            return None, True
        return None, False

    def load(self, name):
        if name in self.stubs:
            return self.stubs[name]
        if name in self.modules:
            return self.modules[name]
        path, is_pkg = self._path(name)
        if path is None and not is_pkg:
            raise ImportError(name)
        mod = types.ModuleType(name)
        mod.__file__ = path
        mod.__package__ = name if is_pkg else name.rpartition(".")[0]
        if is_pkg:
            mod.__path__ = [os.path.join(self.repo, *name.split("."))]
        mod.__dict__["__builtins__"] = self.builtins
        mod.__dict__[H] = SUPPORT
        self.modules[name] = mod
        # dataclasses look the module up in sys.modules only for string annotations
        if path is not None:
            with open(path, encoding="utf-8") as f:
                src = f.read()
            tree = ast.parse(src, path)
            for n in ast.walk(tree) if name not in self.stdlib else ():
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.functions.add("{}:{}".format(name, n.name))
            if self.instrument:
                tree = ast.fix_missing_locations(Rewriter().visit(tree))
            try:
                exec(compile(tree, path, "exec"), mod.__dict__)
            except BaseException:
                self.modules.pop(name, None)
                raise
        parent, _, leaf = name.rpartition(".")
        if parent:
            setattr(self.load(parent), leaf, mod)
        return mod

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            parts = pkg.split(".")
            pkg = ".".join(parts[:len(parts) - (level - 1)])
            name = pkg + ("." + name if name else "")
        root = name.split(".")[0]
        if name in self.stubs:
            if fromlist or "." not in name:
                return self.stubs[name]
        if name in self.stdlib and name not in self.stubs:
            return self.load(name)
        if root in ("tn", "itn"):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and getattr(m, "__path__", None) is not None:
                        try:
                            setattr(m, f, self.load(name + "." + f))
                        except ImportError:
                            pass
                return m
            return self.load(root)
        if root == "checks":
            here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
            m = self.load_file(name, os.path.join(here, *name.split(".")) + ".py")
            if not fromlist:
                raise ImportError("use from-imports for " + name)
            return m
        if name in self.stubs:
            return self.stubs[name]
        if root == "pynini" and "pynini" in self.stubs:
            from .stubs import AnyModule
            self.stubs[name] = AnyModule(name)
            return self.stubs[name] if fromlist else self.stubs[root]
        return _bi.__import__(name, globals, locals, fromlist, 0)

    def load_file(self, name, path):
        """A harness module, rewritten like the code under test."""
        if name in self.modules:
            return self.modules[name]
        mod = types.ModuleType(name)
        mod.__file__ = path
        mod.__package__ = name.rpartition(".")[0]
        mod.__dict__["__builtins__"] = self.builtins
        mod.__dict__[H] = SUPPORT
        self.modules[name] = mod
        with open(path, encoding="utf-8") as f:
            tree = ast.parse(f.read(), path)
        if self.instrument:
            tree = ast.fix_missing_locations(Rewriter().visit(tree))
        exec(compile(tree, path, "exec"), mod.__dict__)
        return mod
