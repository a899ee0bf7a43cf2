"""Load /repo/diff_diff for symbolic execution: the current source, executed with
a facade for numpy / scipy / math and Sym-aware builtins.  Nothing else changes."""
import ast
import builtins
import importlib.abc
import importlib.util
import math as rmath
import os
import sys
import types
import numpy as rnp
from . import sym, nd, stubs
from .sym import Sym, SymBool, Unsupported
from .nd import is_sym, SymNd

REPO = os.environ.get("SYMX_REPO", "/repo")


# ---- builtins ---------------------------------------------------------------
def b_float(*a):
    if a and is_sym(a[0]):
        if isinstance(a[0], SymBool):
            return 1.0 if bool(a[0]) else 0.0
        return a[0]
    if a and isinstance(a[0], rnp.ndarray) and a[0].dtype == nd.OBJ and a[0].size == 1:
        x = a[0].ravel()[0]
        return x if is_sym(x) else float(x)
    if a and type(a[0]).__name__ == "Series" and len(a[0]) == 1:
        x = a[0].iloc[0]
        return x if is_sym(x) else float(x)
    return float(*a)


def b_int(*a):
    if a and isinstance(a[0], Sym):
        return stubs.sym_int(a[0])
    if a and isinstance(a[0], SymBool):
        return int(bool(a[0]))
    return int(*a)


def b_bool(*a):
    return bool(*a)


def b_str(*a, **k):
    if a and is_sym(a[0]):
        return "<sym>"
    return str(*a, **k)


_FLOATISH = (float, rnp.floating, rnp.float64)


def b_isinstance(o, c):
    if isinstance(o, Sym):
        cs = c if isinstance(c, tuple) else (c,)
        flat = []
        for x in cs:
            flat.extend(x if isinstance(x, tuple) else [x])
        import numbers
        return any(x in (float, rnp.floating, rnp.float64, rnp.number, object, Sym, numbers.Number, numbers.Real) for x in flat)
    if isinstance(o, SymBool):
        cs = c if isinstance(c, tuple) else (c,)
        return any(x in (bool, rnp.bool_, int) for x in cs)
    if c is rnp.floating and isinstance(o, float):
        return isinstance(o, c)
    return isinstance(o, c)


def _ext(which):
    real = getattr(builtins, which)

    def f(*a, **k):
        if len(a) == 1:
            xs = list(a[0])
            if any(is_sym(x) for x in xs) and not k.get("key"):
                if any(isinstance(x, float) and rmath.isnan(x) for x in xs) and len(xs) > 1:
                    return f(*xs)
                return sym.mk_ext(xs, which) if len(xs) > 1 else xs[0]
            if not xs and "default" in k:
                return k["default"]
            return real(xs, **k)
        if any(is_sym(x) for x in a) and not k:
            # python's max(x, nan) keeps the first argument unless strictly greater
            if any(isinstance(x, float) and rmath.isnan(x) for x in a):
                r = a[0]
                for x in a[1:]:
                    if (bool(x > r) if which == "max" else bool(x < r)):
                        r = x
                return r
            return sym.mk_ext(list(a), which)
        return real(*a, **k)
    return f


def b_round(x, *a):
    if is_sym(x):
        return x
    return round(x, *a)


def b_sum(xs, start=0):
    xs = list(xs)
    if any(isinstance(x, Sym) for x in xs) and not any(isinstance(x, rnp.ndarray) for x in xs):
        r = nd._sum_list([float(x) if isinstance(x, bool) else x for x in xs])
        return r + start if start != 0 or not isinstance(start, int) else r
    return sum(xs, start)


def b_abs(x):
    return abs(x)


class _BoolExprs(ast.NodeTransformer):
    CALLS = {"float": "__symx_float__", "int": "__symx_int__", "str": "__symx_str__"}

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in self.CALLS:
            node.func = ast.copy_location(ast.Name(self.CALLS[node.func.id], ast.Load()), node.func)
        return node


class MathFacade(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, n):
        real = getattr(rmath, n)
        if n in ("isnan", "isfinite", "isinf"):
            return getattr(nd, "_s_" + n)
        if n in ("sqrt", "exp", "log", "fabs"):
            f = nd.ELEM[n]
            return lambda x, *a: f(x) if is_sym(x) else real(x, *a)
        if n in ("ceil", "floor", "trunc"):
            return lambda x: nd.ELEM[n](x) if is_sym(x) else real(x)
        if callable(real):
            def f(*a):
                if any(is_sym(x) for x in a):
                    raise Unsupported("math." + n)
                return real(*a)
            return f
        return real


MATH = MathFacade()
_FACADES = {"numpy": nd.NP, "math": MATH, "scipy": stubs.SCIPY, "scipy.stats": stubs.STATS,
            "scipy.optimize": stubs.OPTIMIZE, "scipy.linalg": stubs.SLINALG, "numpy.linalg": nd.LINALG,
            "scipy.special": stubs.SPECIAL, "numpy.random": nd.NP.random}


def facade_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if fromlist:
            if name in _FACADES:
                return _FACADES[name]
        else:
            top = name.split(".")[0]
            if top in _FACADES and top in ("numpy", "math", "scipy"):
                __import__(name)
                return _FACADES[top]
    return __import__(name, globals, locals, fromlist, level)


def make_builtins():
    d = dict(vars(builtins))
    d["__import__"] = facade_import
    d["isinstance"] = b_isinstance
    d["max"] = _ext("max")
    d["min"] = _ext("min")
    d["round"] = b_round
    d["sum"] = b_sum
    d["__symx_float__"] = b_float
    d["__symx_int__"] = b_int
    d["__symx_str__"] = b_str
    return d


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        src = open(self.path, encoding="utf-8").read()
        tree = ast.parse(src, self.path)
        tree = _BoolExprs().visit(tree)
        ast.fix_missing_locations(tree)
        module.__dict__["__builtins__"] = make_builtins()
        exec(compile(tree, self.path, "exec"), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name == "diff_diff" or name.startswith("diff_diff."):
            parts = name.split(".")
            base = os.path.join(REPO, *parts)
            if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
                f = os.path.join(base, "__init__.py")
                return importlib.util.spec_from_file_location(name, f, loader=Loader(f), submodule_search_locations=[base])
            if os.path.exists(base + ".py"):
                return importlib.util.spec_from_file_location(name, base + ".py", loader=Loader(base + ".py"))
        return None


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
