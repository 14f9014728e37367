"""Loads copt twice: the real package (for replay) and a symbolic twin.

The twin executes the unmodified source files of /repo/copt with a private builtins namespace whose `__import__`
hands out the symbolic numpy/scipy layer, so the code under test is always the current working tree.
"""
import builtins
import importlib
import os
import sys
import types
import warnings as real_warnings

import numpy as np

from . import engine as E
from . import symnp

REPO = os.environ.get("COPT_REPO", "/repo")


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float) or isinstance(o, E.SymReal)

    def __subclasscheck__(cls, o):
        return issubclass(o, float)

    def __call__(cls, *a):
        if a and (E.is_sym(a[0]) or isinstance(a[0], symnp.SymArray)):
            v = a[0]
            if isinstance(v, symnp.SymArray):
                v = v.item()
            if isinstance(v, E.SymBool):
                return E.SymReal(E.term(v))
            return v if E.is_sym(v) else float(v)
        return float(*a)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)

    def __getattr__(cls, k):
        return getattr(float, k)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)

    def __subclasscheck__(cls, o):
        return issubclass(o, int)

    def __call__(cls, *a):
        if a and isinstance(a[0], symnp.SymArray):
            a = (a[0].item(),)
        if a and isinstance(a[0], E.SymReal):
            v = a[0]
            return v if v.t.is_int() else symnp.trunc(v)
        if a and isinstance(a[0], E.SymBool):
            return E.SymReal(E.term(a[0]))
        return int(*a)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)

    def __getattr__(cls, k):
        return getattr(int, k)


SFloat = _FloatMeta("float", (), {})
SInt = _IntMeta("int", (), {})


class WarnLog:
    def __init__(self):
        self.items = []


WARN = WarnLog()


def _warn(message, category=None, *a, **k):
    WARN.items.append((str(category.__name__ if isinstance(category, type) else "UserWarning"), str(message)))


class _WarnProxy(types.ModuleType):
    def __init__(self):
        super().__init__("warnings")
        self.warn = _warn

    def __getattr__(self, k):
        return getattr(real_warnings, k)


class SymPackage:
    """registry of symbolic twin modules"""

    def __init__(self, overrides=None, repo=REPO):
        self.repo = repo
        self.mods = {}
        self.proxies = dict(symnp.build_proxies())
        self.proxies["warnings"] = _WarnProxy()
        ext = types.ModuleType("sklearn.utils.extmath")
        ext.safe_sparse_dot = symnp.safe_sparse_dot
        ext.row_norms = symnp.row_norms
        self.proxies["sklearn.utils.extmath"] = ext
        self.overrides = dict(overrides or {})
        self.proxies.update(self.overrides)
        b = dict(vars(builtins))
        b["__import__"] = self.importer
        b["float"] = SFloat
        b["int"] = SInt
        b["print"] = lambda *a, **k: None
        self.builtins = b
        self.executed = set()

    def importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            parts = pkg.split(".")
            if level > 1:
                parts = parts[: -(level - 1)]
            name = ".".join(parts + ([name] if name else []))
        root = name.split(".")[0]
        if root == "numba":
            raise ImportError("numba is not used in the symbolic twin")
        if root == "copt":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name + "." + f))
                        except FileNotFoundError:
                            pass
                return m
            return self.load("copt")
        if name in self.proxies:
            if fromlist and isinstance(self.proxies[name], symnp.Proxy):
                builtins.__import__(name, None, None, fromlist, 0)   # makes submodules importable as attributes
            if fromlist or "." not in name:
                return self.proxies[name]
            if root in self.proxies:
                return self.proxies[root]
        if fromlist and name in ("sklearn.utils",) and "extmath" in fromlist:
            m = types.ModuleType("sklearn.utils")
            m.extmath = self.proxies["sklearn.utils.extmath"]
            return m
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        rel = name.split(".")[1:]
        base = os.path.join(self.repo, "copt", *rel)
        if not rel or os.path.isdir(base):
            path = os.path.join(base, "__init__.py")
        else:
            path = base + ".py"
        if not os.path.exists(path):
            raise FileNotFoundError(path)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if path.endswith("__init__.py") else name.rpartition(".")[0]
        if path.endswith("__init__.py"):
            m.__path__ = [os.path.dirname(path)]
        m.__builtins__ = self.builtins
        self.mods[name] = m
        with open(path) as f:
            src = f.read()
        with real_warnings.catch_warnings():
            real_warnings.simplefilter("ignore")
            code = compile(src, path, "exec")
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        parent, _, leaf = name.rpartition(".")
        if parent and parent in self.mods:
            setattr(self.mods[parent], leaf, m)
        return m

    @property
    def copt(self):
        return self.load("copt")


_REAL = None


def real_copt():
    """the real package from REPO (never the twin)"""
    global _REAL
    if _REAL is None:
        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        sys.dont_write_bytecode = True
        for k in [k for k in sys.modules if k == "copt" or k.startswith("copt.")]:
            del sys.modules[k]
        with real_warnings.catch_warnings():
            real_warnings.simplefilter("ignore")
            _REAL = importlib.import_module("copt")
        f = os.path.realpath(_REAL.__file__)
        if not f.startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError("copt imported from %s, not from %s" % (f, REPO))
    return _REAL
