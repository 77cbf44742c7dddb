"""Instrumented import of the code under test.

The current source under a root directory is parsed, the places where native str code
would meet a symbolic value are rewritten to calls of values.py, and the result is
executed as package `sx_<name>` next to the unmodified package.  Nothing is cached: the
encoding is regenerated from the source on every run.
"""
import ast
import builtins
import collections
import importlib
import importlib.abc
import importlib.util
import os
import sys
import types

from . import symre, values
from .engine import E

ROOTS = {}  # instrumented top-level name -> directory or file
RENAME = {}  # original top-level name -> instrumented one
SOURCES = {}  # file -> source text that was instrumented

SHIMMED = {  # library modules whose place another module takes
    "re": "symex.symre",
    "functools": "symex.shim_functools",
    "collections": "symex.shim_collections",
    "io": "symex.shim_io",
}
SHIMS = {"str": str, "int": int, "set": set, "frozenset": frozenset, "dict": dict}

METHODS = {n for n in dir(str) if not n.startswith("_")} | {
    "get", "pop", "setdefault", "open", "read_text", "write_text",
    "__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__contains__",
    "__add__", "__getitem__",
}


def _n(name):
    return ast.Name(id=name, ctx=ast.Load())


class Transform(ast.NodeTransformer):
    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in METHODS:
            # a bound method that is passed on
            return ast.copy_location(
                ast.Call(
                    func=_n("__vs_attr__"), args=[node.value, ast.Constant(node.attr)],
                    keywords=[],
                ),
                node,
            )
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute):
            f.value = self.visit(f.value)
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(k) for k in node.keywords]
        else:
            self.generic_visit(node)
        if (
            isinstance(f, ast.Attribute)
            and f.attr in METHODS
            and not (isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name)
                     and f.value.func.id == "super")
        ):
            return ast.copy_location(
                ast.Call(
                    func=_n("__vs_mcall__"),
                    args=[f.value, ast.Constant(f.attr)] + node.args,
                    keywords=node.keywords,
                ),
                node,
            )
        return node

    def visit_JoinedStr(self, node):
        args = []
        for p in node.values:
            if isinstance(p, ast.Constant):
                args.append(p)
            else:
                conv = {-1: None, 115: "s", 114: "r", 97: "a"}[p.conversion]
                spec = (
                    self.visit(p.format_spec)
                    if p.format_spec is not None
                    else ast.Constant("")
                )
                args.append(
                    ast.Tuple(
                        elts=[self.visit(p.value), ast.Constant(conv), spec],
                        ctx=ast.Load(),
                    )
                )
        return ast.copy_location(
            ast.Call(func=_n("__vs_fstr__"), args=args, keywords=[]), node
        )

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = ast.Call(
                func=_n("__vs_in__"), args=[node.left, node.comparators[0]], keywords=[]
            )
            if isinstance(node.ops[0], ast.NotIn):
                call = ast.UnaryOp(op=ast.Not(), operand=call)
            return ast.copy_location(call, node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(
                ast.Call(
                    func=_n("__vs_mod__"), args=[node.left, node.right], keywords=[]
                ),
                node,
            )
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(
            node.slice, (ast.Slice, ast.Constant)
        ) and not (isinstance(node.slice, ast.UnaryOp)):
            return ast.copy_location(
                ast.Call(
                    func=_n("__vs_getitem__"),
                    args=[node.value, node.slice],
                    keywords=[],
                ),
                node,
            )
        return node

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(
                func=_n("__vs_set__"),
                args=[ast.ListComp(elt=node.elt, generators=node.generators)],
                keywords=[],
            ),
            node,
        )

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(
                func=_n("__vs_set__"),
                args=[ast.List(elts=node.elts, ctx=ast.Load())],
                keywords=[],
            ),
            node,
        )

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            return node
        if not self.infn and node.keys:
            return node  # a constant table
        pairs = [
            ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)
        ]
        return ast.copy_location(
            ast.Call(func=_n("__vs_dict__"),
                     args=[ast.List(elts=pairs, ctx=ast.Load())], keywords=[]),
            node,
        )

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if not self.infn:
            return node
        return ast.copy_location(
            ast.Call(
                func=_n("__vs_dict__"),
                args=[ast.ListComp(
                    elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                    generators=node.generators)],
                keywords=[],
            ),
            node,
        )

    # Annotations stay as they are: they are never text under test.
    def visit_arg(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if not isinstance(node.target, ast.Name):
            node.target = self.visit(node.target)
        return node

    infn = 0  # dict displays outside of functions stay dicts

    def _fn(self, node):
        returns, node.returns = node.returns, None
        self.infn += 1
        self.generic_visit(node)
        self.infn -= 1
        node.returns = returns
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        for b in node.bases:
            if isinstance(b, ast.Name) and b.id in SHIMS:
                b.id = "__vs_real_%s__" % b.id  # a subclass of the real type
        return node

    def visit_Import(self, node):
        out = []
        for a in node.names:
            top = a.name.split(".")[0]
            if a.name in SHIMMED:
                a = ast.alias(name=SHIMMED[a.name], asname=a.asname or a.name)
                out.append(ast.Import(names=[a]))
            elif top in RENAME:
                new = RENAME[top] + a.name[len(top):]
                if a.asname:
                    out.append(ast.Import(names=[ast.alias(name=new, asname=a.asname)]))
                else:
                    out.append(ast.Import(names=[ast.alias(name=new, asname=None)]))
                    out.append(
                        ast.Assign(
                            targets=[ast.Name(id=top, ctx=ast.Store())],
                            value=_n(RENAME[top]),
                        )
                    )
            else:
                out.append(ast.Import(names=[a]))
        for o in out:
            ast.copy_location(o, node)
        return out

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module:
            top = node.module.split(".")[0]
            if node.module in SHIMMED:
                node.module = SHIMMED[node.module]
            elif top in RENAME:
                node.module = RENAME[top] + node.module[len(top):]
        return node


def _builtins():
    d = dict(vars(builtins))
    d.update(
        str=values.StrShim, int=values.IntShim, repr=values.vs_repr,
        ord=values.vs_ord, len=values.vs_len, set=values.SetShim, frozenset=values.FrozenSetShim,
        print=values.vs_print, open=values.vs_open, type=values.vs_type,
        __vs_mcall__=values.vs_mcall, __vs_attr__=values.vs_attr, __vs_fstr__=values.vs_fstr,
        __vs_in__=values.vs_in, __vs_mod__=values.vs_mod,
        __vs_getitem__=values.vs_getitem, __vs_set__=values.vs_set,
        __vs_dict__=values.SymDict, dict=values.DictShim,
    )
    d.update({"__vs_real_%s__" % n: t for n, t in SHIMS.items()})
    return d


BUILTINS = _builtins()


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        SOURCES[self.path] = src
        tree = ast.parse(src, self.path)
        tree = ast.fix_missing_locations(Transform().visit(tree))
        code = compile(tree, self.path, "exec", dont_inherit=True)
        module.__dict__["__builtins__"] = BUILTINS
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        parts = name.split(".")
        root = ROOTS.get(parts[0])
        if root is None:
            return None
        p = os.path.join(root, *parts[1:])
        if os.path.isdir(p) and os.path.isfile(os.path.join(p, "__init__.py")):
            f = os.path.join(p, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, f, loader=_Loader(f), submodule_search_locations=[p]
            )
        f = p + ".py"
        if os.path.isfile(f):
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(f))
        return None


_finder = _Finder()


def register(name, directory):
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)
    ROOTS["sx_" + name] = directory
    RENAME[name] = "sx_" + name


def load(name):
    return importlib.import_module(name)


def literal_chars(directories):
    """Non-ASCII characters of string literals in the sources."""
    out = set()
    for d in directories:
        for base, _, files in os.walk(d):
            for fn in files:
                if not fn.endswith(".py"):
                    continue
                with open(os.path.join(base, fn), encoding="utf-8") as f:
                    tree = ast.parse(f.read())
                docs = set()
                for n in ast.walk(tree):
                    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                        docs.add(id(n.value))
                for n in ast.walk(tree):
                    if (
                        isinstance(n, ast.Constant)
                        and isinstance(n.value, str)
                        and id(n) not in docs
                    ):
                        out |= {c for c in n.value if ord(c) >= 128}
    return out


# -- module state between paths ------------------------------------------------------


class Snapshot:
    """Mutable state of modules, restored before every path."""

    def __init__(self, prefixes):
        self.saved = []
        self.prefixes = prefixes
        mods = [
            m for n, m in sorted(sys.modules.items()) if m is not None and self._own(n)
        ]
        seen = {id(BUILTINS)}
        for m in mods:
            self.saved.append((m.__dict__, dict(m.__dict__), "module"))
            for v in list(m.__dict__.values()):
                self._visit(v, seen)

    def _own(self, n):
        return isinstance(n, str) and any(
            n == p or n.startswith(p + ".") for p in self.prefixes
        )

    def _visit(self, v, seen):
        t = type(v)
        if id(v) in seen or t in (str, int, float, bool, type(None), types.ModuleType):
            return
        seen.add(id(v))
        items = ()
        if t in (list, dict, set):
            self.saved.append((v, v.copy(), t))
            items = v.values() if t is dict else v
        elif t in (values.SymDict, values.SymDefaultDict):
            self.saved.append((v, [tuple(e) for e in v._pairs()], values.SymDict))
            items = v.values()
        elif t is values.SymSet:
            self.saved.append((v, list(v.raw), values.SymSet))
        elif t in (collections.deque, collections.OrderedDict, collections.defaultdict,
                   collections.Counter):
            self.saved.append((v, list(v.items() if hasattr(v, "items") else v), t))
        elif t is tuple:
            items = v
        elif isinstance(v, type):
            if self._own(getattr(v, "__module__", "")):
                d = {
                    k: x for k, x in v.__dict__.items()
                    if not (k.startswith("__") and k.endswith("__"))
                }
                self.saved.append((v, d, "class"))
                items = d.values()
        elif t is types.FunctionType:
            if self._own(getattr(v, "__module__", "")):
                self._fn(v, seen)
        elif isinstance(v, (staticmethod, classmethod)):
            items = [v.__func__]
        elif isinstance(v, property):
            items = [x for x in (v.fget, v.fset) if x is not None]
        elif self._own(getattr(t, "__module__", "")) and hasattr(v, "__dict__"):
            self.saved.append((v.__dict__, dict(v.__dict__), "instance"))
            items = v.__dict__.values()
        if hasattr(v, "cache_clear"):
            self.saved.append((v, None, "lru"))
            if hasattr(v, "__wrapped__"):
                items = [v.__wrapped__]
        for x in list(items):
            self._visit(x, seen)

    def _fn(self, v, seen):
        for x in v.__defaults__ or ():
            self._visit(x, seen)
        for x in (v.__kwdefaults__ or {}).values():
            self._visit(x, seen)
        self.saved.append((v.__dict__, dict(v.__dict__), "instance"))
        for x in list(v.__dict__.values()):
            self._visit(x, seen)
        for c in v.__closure__ or ():
            try:
                x = c.cell_contents
            except ValueError:
                continue
            self.saved.append((c, x, "cell"))
            self._visit(x, seen)

    def restore(self):
        for obj, copy, how in self.saved:
            if how in ("module", "instance"):
                if len(obj) != len(copy) or any(
                    obj.get(k, obj) is not x for k, x in copy.items()
                ):
                    for k in list(obj):
                        if k not in copy:
                            del obj[k]
                    obj.update(copy)
            elif how == "class":
                for k in list(obj.__dict__):
                    if k not in copy and not (k.startswith("__") and k.endswith("__")):
                        delattr(obj, k)
                for k, x in copy.items():
                    if obj.__dict__.get(k) is not x:
                        try:
                            setattr(obj, k, x)
                        except (AttributeError, TypeError):
                            pass
            elif how == "lru":
                obj.cache_clear()
            elif how == "cell":
                if obj.cell_contents is not copy:
                    obj.cell_contents = copy
            elif how is list:
                obj[:] = copy
            elif how is values.SymDict:
                obj.clear()
                for k, x in copy:
                    obj[k] = x
                if obj._late is not None:
                    obj._late, obj._ix = [], {}
            elif how is values.SymSet:
                obj.items = list(copy)
            elif how is collections.deque:
                obj.clear()
                obj.extend(copy)
            else:
                obj.clear()
                obj.update(copy)
