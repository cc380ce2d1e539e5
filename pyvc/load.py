"""Loading /repo/src/pygmm for verification.

`symbolic()` executes the unmodified source text of every module of the package, as a package named `pygmm_sym`, with the
names `numpy`, `math`, `scipy.interpolate`, `pandas`, `warnings` and a few builtins bound to the modelled ones.
`concrete()` imports the same tree as the ordinary package `pygmm`.  Both return a World, the handle contract bodies use.
"""
import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import math
import os
import sys
import types
import logging as rlogging
import warnings as rwarnings

import numpy as rnp

from . import symnp, terms as T
from .terms import Unsupported

SRC = os.environ.get("PYGMM_SRC", "/repo/src")
SYM = "pygmm_sym"


class WarnLog:
    def __init__(self):
        self.items = []


class FakeWarnings(types.ModuleType):
    def __init__(self, log):
        super().__init__("warnings")
        self.__dict__["_log"] = log

    def __getattr__(self, k):
        return getattr(rwarnings, k)

    def warn(self, message, category=None, stacklevel=1, source=None, **kw):
        if category is None:
            category = type(message) if isinstance(message, Warning) else UserWarning
        self._log.items.append((category, message))


class FakeLogger:
    """Stands in for the logging module and its loggers: calls are recorded, never formatted."""
    LEVELS = ("debug", "info", "warning", "warn", "error", "critical", "exception")

    def __init__(self, log, real):
        self.__dict__.update(_log=log, _real=real)

    def __getattr__(self, k):
        if k in FakeLogger.LEVELS:
            return lambda msg="", *a, **kw: self._log.items.append((k.upper().replace("WARN", "WARNING").replace("INGING", "ING"), msg))
        if k == "log":
            return lambda level, msg="", *a, **kw: self._log.items.append((rlogging.getLevelName(level), msg))
        if k == "getLogger":
            return lambda *a: FakeLogger(self._log, rlogging.getLogger(*a))
        return getattr(self._real, k)

    def addHandler(self, h):
        pass


class ListHandler(rlogging.Handler):
    def __init__(self, log):
        super().__init__(0)
        self.wlog = log

    def emit(self, rec):
        self.wlog.items.append((rec.levelname, rec.msg))


class FakeSeries(symnp.PSeries):
    pass


def fake_pandas():
    import pandas as rpd
    m = types.ModuleType("pandas")

    def series(data=None, *a, **k):
        if isinstance(data, dict) and not a and not k:
            return symnp.PSeries(data)
        raise Unsupported("pandas.Series of this form")
    m.Series = series

    def ga(k):
        raise Unsupported("pandas." + k)
    m.__getattr__ = ga
    return m


def fake_interp():
    import scipy.interpolate as si
    m = types.ModuleType("scipy.interpolate")
    m.interp1d = symnp.interp1d
    m.__getattr__ = lambda k: getattr(si, k)
    return m


class SymMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) and not (cls is None)


def sym_isinstance(x, c):
    if isinstance(x, T.Term):
        cs = c if isinstance(c, tuple) else (c,)
        import numbers
        for k in cs:
            if k is symnp.SymFloat or k in (float, rnp.floating, rnp.float64, numbers.Number, numbers.Real) and x.sort == "r":
                return True
            if k is bool and x.sort == "b":
                return True
    return isinstance(x, c)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, src):
        self.src = src
        self.log = WarnLog()
        self.np = symnp.make_numpy()
        self.math = symnp.make_math()
        self.pd = fake_pandas()
        self.interp = fake_interp()
        self.warnings = FakeWarnings(self.log)
        self.logging = FakeLogger(self.log, rlogging)
        b = dict(builtins.__dict__)
        b.update(min=symnp.s_min, max=symnp.s_max, sum=symnp.s_sum, float=symnp.SymFloat, __import__=self.imp,
                 isinstance=sym_isinstance, open=_ro_open)
        self.builtins = b

    # -- finder/loader
    def find_spec(self, name, path=None, target=None):
        if name != SYM and not name.startswith(SYM + "."):
            return None
        rel = name.split(".")[1:]
        base = os.path.join(self.src, "pygmm", *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            fn, pkg = os.path.join(base, "__init__.py"), True
        elif os.path.exists(base + ".py"):
            fn, pkg = base + ".py", False
        else:
            return None
        spec = importlib.machinery.ModuleSpec(name, self, origin=fn, is_package=pkg)
        if pkg:
            spec.submodule_search_locations = [base]
        spec.has_location = False
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        with open(fn, encoding="utf-8") as f:
            text = f.read()
        module.__file__ = fn
        module.__dict__["__builtins__"] = self.builtins
        code = compile(text, fn, "exec", dont_inherit=True)
        exec(code, module.__dict__)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            head = name.split(".")[0]
            if name == "numpy":
                return self.np
            if name.startswith("numpy."):
                if not fromlist:
                    return self.np
                m = importlib.import_module(name)
                sub = name[6:]
                if sub in self.np._table:
                    return self.np._table[sub]
                if sub == "typing":
                    return m
                if sub == "ma":
                    return self.np.ma
                return symnp.ShimModule(name, m, {})
            if head == "math":
                return self.math
            if head == "pandas":
                return self.pd
            if head == "warnings":
                return self.warnings
            if name == "logging":
                return self.logging
            if name == "scipy.interpolate":
                if fromlist:
                    return self.interp
                s = types.ModuleType("scipy")
                s.interpolate = self.interp
                return s
            if name == "scipy":
                s = types.ModuleType("scipy")
                s.interpolate = self.interp
                s.__getattr__ = lambda k: _unsup("scipy." + k)
                return s
            if head == "pygmm":
                name = SYM + name[len("pygmm"):]
                if not fromlist:
                    importlib.import_module(name)
                    return sys.modules[SYM]
                m = importlib.import_module(name)
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            importlib.import_module(name + "." + f)
                        except ModuleNotFoundError:
                            pass
                return m
        return builtins.__import__(name, globals, locals, fromlist, level)


def _unsup(k):
    raise Unsupported(k)


def _ro_open(f, mode="r", *a, **k):
    if any(c in mode for c in "wax+"):
        raise Unsupported("opening a file for writing")
    return open(f, mode, *a, **k)


class World:
    """What a contract body sees: the package, numpy, the warning log."""

    def __init__(self, kind, pkg, np, log):
        self.kind = kind
        self.symbolic = kind == "sym"
        self.pkg = pkg
        self.np = np
        self.log = log
        self.prefix = pkg.__name__

    def mod(self, name):
        return importlib.import_module(self.prefix + "." + name)

    def Scenario(self, **kw):
        return self.mod("model").Scenario(**{k: v for k, v in kw.items() if v is not None})

    def modules(self):
        return {n: m for n, m in sys.modules.items() if n == self.prefix or n.startswith(self.prefix + ".")}

    # scalar helpers usable in both worlds
    def ite(self, c, a, b):
        if isinstance(c, T.Term):
            return symnp.unwrap(T.ite(c, T.L(a), T.L(b)))
        return a if c else b

    def where(self, c, a, b):
        return self.np.where(c, a, b)

    def deriv(self, f, x, lo, hi):
        """Derivative of the scalar or array function f at x (a case input): exact in the symbolic world, a difference quotient inside
        [lo, hi] in the concrete one."""
        if not self.symbolic:
            h = 1e-5 * max(1.0, abs(x))
            a, b = max(lo, x - h), min(hi, x + h)
            if b - a < 1.9 * h:                 # at an end: three points inside
                s = h if x - lo < hi - x else -h
                f0, f1, f2 = (rnp.asarray(f(x + k * s), float) for k in (0, 1, 2))
                return (4 * f1 - 3 * f0 - f2) / (2 * s)
            return (rnp.asarray(f(b), float) - rnp.asarray(f(a), float)) / (b - a)
        v = f(x)
        if isinstance(v, T.Term):
            return symnp.unwrap(T.diff(v, x.val)) if hasattr(symnp, "unwrap") else T.diff(v, x.val)
        v = symnp.as_obj(v)
        memo = {}
        out = rnp.empty(v.shape, object)
        for i in rnp.ndindex(*v.shape):
            out[i] = T.diff(T.L(v[i]), x.val, memo)
        return out


_sym = [None]
_con = [None]

SKIP = {"hermkes_kuehn_riggelsen_2014"}       # needs an LFS data file that is not in the checkout


def symbolic():
    if _sym[0] is None:
        f = Finder(SRC)
        sys.meta_path.insert(0, f)
        pkg = importlib.import_module(SYM)
        for fn in sorted(os.listdir(os.path.join(SRC, "pygmm"))):
            n = fn[:-3]
            if fn.endswith(".py") and not n.startswith("_") and n not in SKIP:
                importlib.import_module(SYM + "." + n)
        _sym[0] = World("sym", pkg, f.np, f.log)
    _sym[0].log.items.clear()
    return _sym[0]


class ConLog(WarnLog):
    pass


def concrete():
    if _con[0] is None:
        if SRC not in sys.path:
            sys.path.insert(0, SRC)
        for n in list(sys.modules):
            if n == "pygmm" or n.startswith("pygmm."):
                del sys.modules[n]
        sys.dont_write_bytecode = True
        pkg = importlib.import_module("pygmm")
        assert os.path.realpath(pkg.__file__).startswith(os.path.realpath(SRC)), pkg.__file__
        for fn in sorted(os.listdir(os.path.join(SRC, "pygmm"))):
            n = fn[:-3]
            if fn.endswith(".py") and not n.startswith("_") and n not in SKIP:
                importlib.import_module("pygmm." + n)
        log = WarnLog()
        _con[0] = World("con", pkg, rnp, log)

        def showwarning(message, category, filename, lineno, file=None, line=None):
            log.items.append((category, message))
        rlogging.root.handlers = [ListHandler(log)]
        rwarnings.simplefilter("always")
        rwarnings.showwarning = showwarning
    _con[0].log.items.clear()
    return _con[0]
