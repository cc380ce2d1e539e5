"""Frame conditions: what an evaluation may change.

`of(world)` describes, once, everything reachable from the modules of the package when they have just been loaded: module globals,
attributes of classes and of functions (defaults, closures), the entries of arrays and containers.  `changed()` lists the places
that no longer hold what they held then.  Entries added to dictionaries, and attributes that were None, are not changes: they
are tables filled as the program runs, listed by `grown()`; `reset()` takes them out again."""
import functools
import types

import numpy as np

from . import terms as T

_frames = {}


def of(w):
    if w.prefix not in _frames:
        _frames[w.prefix] = Frame(w)
    return _frames[w.prefix]


def token(v):
    """A value that is equal for equal data; terms by identity, arrays by content"""
    if isinstance(v, T.Term):
        return "term", v.id
    if isinstance(v, np.ma.MaskedArray):
        return "masked", token(np.asarray(v.data)), token(np.ma.getmaskarray(v))
    if isinstance(v, np.ndarray):
        if v.dtype.hasobject:
            return "array", v.shape, tuple(token(e) for e in v.ravel())
        return "array", v.shape, v.dtype.str, v.tobytes()
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(token(e) for e in v)
    if isinstance(v, dict):
        return ("dict",) + tuple((token(k), token(e)) for k, e in v.items())
    if isinstance(v, (set, frozenset)):
        return "set", tuple(sorted(map(repr, v)))
    if isinstance(v, (int, float, complex, str, bytes, bool, type(None), np.generic)):
        return type(v).__name__, repr(v)
    if type(v).__module__.startswith("pyvc"):
        return type(v).__name__, token({k: e for k, e in list(v.__dict__.items()) + [(k, getattr(v, k, None)) for k in getattr(type(v), "__slots__", ())]})
    return "object", id(v)


class Frame:
    def __init__(self, w):
        self.w = w
        self.base = {}
        self.keep = []
        self.base = self.walk()

    def walk(self):
        """path -> (token, owner, key, how)"""
        out, seen = {}, set()
        prefix = self.w.prefix
        for name, m in sorted(self.w.modules().items()):
            self.visit(name, m, out, seen, prefix)
        return out

    def ours(self, module, prefix):
        return isinstance(module, str) and (module == prefix or module.startswith(prefix + "."))

    def visit(self, path, v, out, seen, prefix, owner=None, key=None, how=None):
        put = lambda tok: out.__setitem__(path, (tok, owner, key, how))
        if isinstance(v, (types.ModuleType,)):
            if not self.ours(v.__name__, prefix) or id(v) in seen:
                return
            seen.add(id(v))
            for k, e in list(v.__dict__.items()):
                if not (k.startswith("__") and k.endswith("__")):
                    self.visit(path + "." + k, e, out, seen, prefix, v, k, "attr")
            return
        if isinstance(v, T.Term) or isinstance(v, (int, float, complex, str, bytes, bool, type(None), np.generic)):
            put(token(v))
            return
        if id(v) in seen:
            put(("ref", id(v)))
            return
        seen.add(id(v))
        self.keep.append(v)
        if isinstance(v, functools._lru_cache_wrapper):
            out[path + ".cache"] = (None, v, None, "cache")
            self.visit(path + ".__wrapped__", getattr(v, "__wrapped__", None), out, seen, prefix)
            return
        if isinstance(v, (np.ndarray,)):
            put(token(v))
            self.visit_dict(path, getattr(v, "__dict__", {}), out, seen, prefix, v)
            return
        if isinstance(v, dict):
            put(("dict", id(v)))
            for k, e in list(v.items()):
                self.visit("%s[%r]" % (path, k if not isinstance(k, T.Term) else ("term", k.id)), e, out, seen, prefix, v, k, "item")
            return
        if isinstance(v, (list, tuple)):
            put((type(v).__name__, id(v), len(v)))
            for i, e in enumerate(v):
                self.visit("%s[%d]" % (path, i), e, out, seen, prefix, v, i, "elem")
            return
        if isinstance(v, (set, frozenset)):
            put(token(v))
            return
        if isinstance(v, (staticmethod, classmethod)):
            self.visit(path, v.__func__, out, seen, prefix)
            return
        if isinstance(v, property):
            for k in ("fget", "fset", "fdel"):
                self.visit(path + "." + k, getattr(v, k), out, seen, prefix)
            return
        if isinstance(v, types.FunctionType):
            if not self.ours(v.__module__, prefix):
                return
            put(("function", id(v.__code__)))
            self.visit(path + ".__defaults__", v.__defaults__, out, seen, prefix)
            self.visit(path + ".__kwdefaults__", v.__kwdefaults__, out, seen, prefix)
            self.visit_dict(path, v.__dict__, out, seen, prefix, v)
            for i, c in enumerate(v.__closure__ or ()):
                try:
                    self.visit("%s.closure[%d]" % (path, i), c.cell_contents, out, seen, prefix)
                except ValueError:
                    pass
            return
        if isinstance(v, type):
            if not self.ours(v.__module__, prefix):
                return
            put(("class", id(v)))
            for k, e in list(v.__dict__.items()):
                if not (k.startswith("__") and k.endswith("__") and k not in ("__init__", "__call__")) and not k.startswith("_abc_"):
                    self.visit(path + "." + k, e, out, seen, prefix, v, k, "attr")
            return
        mod = type(v).__module__
        if self.ours(mod, prefix) or str(mod).startswith(("pyvc.symnp", "scipy.interpolate", "collections", "pandas")):
            put(("object", id(v)))
            self.visit_dict(path, getattr(v, "__dict__", {}), out, seen, prefix, v)
            for k in getattr(type(v), "__slots__", ()):
                if isinstance(k, str) and k in type(v).__dict__ and not k.startswith("__"):
                    self.visit(path + "." + k, getattr(v, k, None), out, seen, prefix, v, k, "attr")
            return
        put(("opaque", id(v)))

    def visit_dict(self, path, d, out, seen, prefix, v):
        for k, e in list(d.items()):
            self.visit("%s.%s" % (path, k), e, out, seen, prefix, v, k, "attr")

    def compare(self):
        now = self.walk()
        changed, grown = [], []
        for p, (tok, owner, key, how) in self.base.items():
            if how == "cache":
                if owner.cache_info().currsize:
                    grown.append((p, owner, key, how))
                continue
            if p not in now:
                changed.append(p)
            elif now[p][0] != tok:
                if tok == token(None) and how in ("attr", "item"):
                    grown.append((p, owner, key, "none"))
                else:
                    changed.append(p)
        for p, (tok, owner, key, how) in now.items():
            if p not in self.base and how in ("attr", "item"):
                grown.append((p, owner, key, how))
        return changed, grown

    def changed(self):
        """Where data of the package differ from what was loaded (at most five places, without the package's name)"""
        return [p.split(".", 1)[1] if "." in p else p for p in self.compare()[0][:5]]

    def grown(self):
        return bool(self.compare()[1])

    def reset(self):
        for p, owner, key, how in self.compare()[1]:
            try:
                if how == "cache":
                    owner.cache_clear()
                elif how == "attr":
                    delattr(owner, key)
                elif how == "item":
                    owner.pop(key, None)
                elif how == "none":
                    setattr(owner, key, None) if not isinstance(owner, dict) else owner.__setitem__(key, None)
            except (AttributeError, TypeError):
                pass
