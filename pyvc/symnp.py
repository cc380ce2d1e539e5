"""The numpy/scipy/pandas/... surface that the code under verification sees.

Arrays are `SymArr`, a numpy object-array subclass whose elements are Python floats or Terms; indexing, slicing, views and
broadcasting are numpy's own.  Only element arithmetic and the functions listed here are given symbolic meaning; anything
else that receives a symbolic value raises Unsupported.
"""
import builtins
import math
import types
import numpy as rnp
from . import terms as T
from .terms import Term, Unsupported

F = float


def is_sym(x):
    return isinstance(x, (Term, SymArr, SymRec))


def has_sym(args, kwargs=None):
    st = list(args) + list((kwargs or {}).values())
    while st:
        x = st.pop()
        if is_sym(x):
            return True
        if isinstance(x, (list, tuple)):
            st.extend(x)
        elif isinstance(x, dict):
            st.extend(x.values())
    return False


def unwrap(x):
    """Constant terms become floats (real) or bools."""
    if isinstance(x, Term):
        if x.op == "const":
            return x.val
        if x.op == "true":
            return True
        if x.op == "false":
            return False
    return x


def elem(f):
    def g(*a):
        if all(not isinstance(x, Term) for x in a):
            return unwrap(f(*[T.L(_py(x)) for x in a]))
        return unwrap(f(*[T.L(_py(x)) for x in a]))
    return g


def _py(x):
    if isinstance(x, rnp.ndarray) and x.ndim == 0:
        return x.item()
    return x


def _sign(a):
    return T.ite(T.lt(a, T.ZERO), T.const(-1), T.ite(T.eq(a, T.ZERO), T.ZERO, T.ONE))


def _isnan(a):
    if a.op == "const":
        return T.TRUE if a.val != a.val else T.FALSE
    # other terms are real numbers (definedness is a separate obligation) unless a literal NaN is selected
    memo = {}
    for t in T.topo([a]):
        if t.op == "const":
            memo[t.id] = T.TRUE if t.val != t.val else T.FALSE
        elif t.op == "ite":
            c, x, y = t.args
            memo[t.id] = T.or_(T.and_(c, memo[x.id]), T.and_(T.not_(c), memo[y.id])) if not (memo[x.id] is T.FALSE and memo[y.id] is T.FALSE) else T.FALSE
        elif t.sort == "b":
            memo[t.id] = T.FALSE
        else:
            r = T.FALSE
            for x in t.args:
                r = T.or_(r, memo[x.id])
            memo[t.id] = r
    return memo[a.id]


def _isfinite(a):
    if a.op == "const":
        return T.TRUE if math.isfinite(a.val) else T.FALSE
    return T.TRUE


def _isinf(a):
    if a.op == "const":
        return T.TRUE if math.isinf(a.val) else T.FALSE
    return T.FALSE


UF = {
    "add": T.add, "subtract": T.sub, "multiply": T.mul, "divide": T.div, "true_divide": T.div, "power": T.power,
    "float_power": T.power, "negative": T.neg, "positive": lambda a: a, "absolute": T.absolute, "fabs": T.absolute,
    "exp": T.exp, "log": T.log, "log10": T.log10, "log2": T.log2, "log1p": T.log1p, "expm1": T.expm1,
    "sqrt": T.sqrt, "square": T.square, "sin": T.sin, "cos": T.cos, "tan": T.tan, "tanh": T.tanh, "cosh": T.cosh,
    "sinh": T.sinh, "arctan": T.arctan, "radians": T.radians, "deg2rad": T.radians, "degrees": T.degrees,
    "rad2deg": T.degrees, "maximum": T.maximum, "minimum": T.minimum, "fmax": T.maximum, "fmin": T.minimum,
    "less": T.lt, "less_equal": T.le, "greater": lambda a, b: T.lt(b, a), "greater_equal": lambda a, b: T.le(b, a),
    "equal": T.eq, "not_equal": lambda a, b: T.not_(T.eq(a, b)), "logical_and": T.and_, "logical_or": T.or_,
    "logical_not": T.not_, "bitwise_and": T.and_, "bitwise_or": T.or_, "invert": T.not_, "isnan": _isnan,
    "isfinite": _isfinite, "isinf": _isinf, "reciprocal": lambda a: T.div(T.ONE, a), "sign": _sign,
    "floor": T.floor, "exp2": lambda a: T.exp(T.mul(T.const(math.log(2)), a)),
    "floor_divide": lambda a, b: T.floor(T.div(a, b)),
    "logical_xor": lambda a, b: T.or_(T.and_(a, T.not_(b)), T.and_(T.not_(a), b)),
    "cbrt": lambda a: T.power(a, T.const(1 / 3.0)),
    "heaviside": lambda a, b: T.ite(T.lt(a, T.ZERO), T.ZERO, T.ite(T.eq(a, T.ZERO), b, T.ONE)),
    "hypot": lambda a, b: T.sqrt(T.add(T.mul(a, a), T.mul(b, b))),
    "conjugate": lambda a: a,
}
BOOLUF = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or",
          "logical_not", "bitwise_and", "bitwise_or", "invert", "isnan", "isfinite", "isinf", "logical_xor"}
CMP = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal"}


def resolve(c):
    """Ask the path context whether a condition is already decided (no fork)."""
    if isinstance(c, Term) and c.sort == "b":
        ctx = T.get_ctx()
        if ctx is not None:
            d = ctx.quick(c)
            if d is not None:
                return d
    return c


def apply_uf(name, *args):
    f = UF.get(name)
    if f is None:
        raise Unsupported("numpy.%s on symbolic values" % name)
    if not any(isinstance(a, (rnp.ndarray, list, tuple)) for a in args):
        return unwrap_np(name, f(*[T.L(a) for a in args]))
    mk = None
    arrs = []
    for a in args:
        if isinstance(a, SymArr) and a._mask is not None:
            if mk is not None and not same_mask(mk, a._mask):
                raise Unsupported("arithmetic between differently masked selections")
            mk = a._mask
        arrs.append(a if isinstance(a, rnp.ndarray) else as_obj(a))
    b = rnp.broadcast(*[rnp.asarray(x) if not isinstance(x, rnp.ndarray) else x for x in arrs])
    out = rnp.empty(b.shape, dtype=object)
    flat = out.reshape(-1)
    allbool = name in BOOLUF
    i = 0
    for vals in b:
        r = unwrap_np(name, f(*[T.L(_py(v)) for v in vals]))
        if allbool and isinstance(r, Term):
            r = resolve(r)
        flat[i] = r
        i += 1
    if allbool and all(isinstance(v, bool) for v in flat):
        return rnp.array(out, dtype=bool) if out.ndim else rnp.bool_(flat[0])
    if out.ndim == 0:
        return flat[0]
    r = out.view(SymArr)
    if mk is not None:
        r._mask = mk
    return r


def unwrap_np(name, r):
    if r.op == "const":
        return r.val
    if r.op == "true":
        return True
    if r.op == "false":
        return False
    return r


def as_obj(a):
    """Any array-like -> object ndarray view/array with float/bool/Term elements."""
    if isinstance(a, rnp.ndarray):
        return a
    if isinstance(a, (list, tuple)):
        if any(isinstance(x, (list, tuple, rnp.ndarray)) for x in a):
            return rnp.stack([rnp.asarray(as_obj(x), dtype=object) for x in a])
        o = rnp.empty(len(a), dtype=object)
        for i, x in enumerate(a):
            o[i] = x
        return o
    o = rnp.empty((), dtype=object)
    o[()] = a
    return o


def sym(a):
    """ndarray -> SymArr with python scalars"""
    if isinstance(a, SymArr):
        return a
    a = rnp.asarray(a)
    if a.dtype == object:
        return a.view(SymArr)
    return a.astype(object).view(SymArr)


class SymArr(rnp.ndarray):
    _mask = None

    def __array_finalize__(self, obj):
        self._mask = None

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return ufunc_dispatch(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return func_dispatch(func, args, kwargs)

    def _chk(self):
        if self._mask is not None:
            raise Unsupported("structure of a masked selection")

    def __getitem__(self, k):
        if isinstance(k, SymIndex) and self.ndim == 1:
            self._chk()
            return k.value(self)
        k = fixindex(k)
        if is_symmask(k):
            if self._mask is not None:
                raise Unsupported("nested masked selection")
            if k.shape != self.shape:
                raise Unsupported("mask of another shape")
            r = self.copy()
            r._mask = k
            return r
        self._chk()
        r = rnp.ndarray.__getitem__(self, k)
        return r

    def __setitem__(self, k, v):
        if self.ndim == 1 and self._mask is None and self.flags.writeable:
            if isinstance(k, SymIndex):
                k = k == rnp.arange(len(self))
            elif isinstance(k, slice) and k.step is None and (isinstance(k.start, SymIndex) or isinstance(k.stop, SymIndex)) \
                    and not rnp.ndim(as_obj(_py(v))) and (k.start is None or isinstance(k.start, SymIndex)) and (k.stop is None or isinstance(k.stop, SymIndex)):
                c = [T.TRUE] * len(self)
                if k.start is not None:
                    c = [T.and_(t, k.start.at_most(j)) for j, t in enumerate(c)]
                if k.stop is not None:
                    c = [T.and_(t, T.not_(k.stop.at_most(j))) for j, t in enumerate(c)]
                k = as_obj([unwrap(t) for t in c]).view(SymArr)
        k = fixindex(k)
        if is_symmask(k):
            if not self.flags.writeable:
                raise ValueError("assignment destination is read-only")
            if k.shape != self.shape:
                raise Unsupported("mask of another shape")
            if isinstance(v, SymArr) and v._mask is not None:
                if v._mask is not k and not same_mask(v._mask, k):
                    raise Unsupported("assignment from a differently masked selection")
                vv = rnp.asarray(v)
            elif isinstance(v, rnp.ndarray) and v.ndim > 0:
                raise Unsupported("data-dependent shape")
            else:
                vv = rnp.broadcast_to(as_obj(_py(v)), self.shape)
            base = rnp.asarray(self)
            for idx in rnp.ndindex(*self.shape):
                c = k[idx]
                if isinstance(c, Term):
                    base[idx] = unwrap(T.ite(c, T.L(_py(vv[idx])), T.L(base[idx])))
                elif c:
                    base[idx] = _py(vv[idx])
            return
        if isinstance(v, SymArr) and v._mask is not None:
            raise Unsupported("masked selection stored without mask")
        if isinstance(v, rnp.ndarray) and v.dtype != object:
            v = v.astype(object)
        elif isinstance(v, (list, tuple)) or (isinstance(v, Term) and isinstance(k, (slice, rnp.ndarray, list)) or k is Ellipsis):
            v = as_obj(v)
        rnp.ndarray.__setitem__(self, k, v)

    def __iter__(self):
        self._chk()
        return iter([rnp.ndarray.__getitem__(self, i) for i in range(self.shape[0])])

    def __len__(self):
        self._chk()
        return rnp.ndarray.__len__(self)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(rnp.asarray(self).reshape(-1)[0])

    def __float__(self):
        return float(self.item())

    def __reduce__(self):
        raise Unsupported("pickling symbolic arrays")

    def astype(self, dtype, *a, **k):
        if dtype in (float, "float", "f8", rnp.float64, object) or dtype is SymFloat:
            return self.copy()
        if dtype in (bool,):
            return apply_uf("not_equal", self, 0.0)
        try:
            return rnp.asarray(self).astype(dtype)
        except (TypeError, Unsupported):
            raise Unsupported("astype(%s)" % (dtype,))

    def copy(self, *a, **k):
        self._chk()
        r = rnp.array(rnp.asarray(self), dtype=object, copy=True).view(SymArr)
        return r

    def sum(self, axis=None, **k):
        return red("add", self, axis, k.get("keepdims", False))

    def prod(self, axis=None, **k):
        return red("multiply", self, axis, k.get("keepdims", False))

    def max(self, axis=None, **k):
        return red("maximum", self, axis, k.get("keepdims", False))

    def min(self, axis=None, **k):
        return red("minimum", self, axis, k.get("keepdims", False))

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return red("add", self, axis) / float(n)

    def all(self, axis=None, **k):
        return red("logical_and", self, axis)

    def any(self, axis=None, **k):
        return red("logical_or", self, axis)

    def clip(self, lo=None, hi=None, **k):
        return np_clip(self, lo, hi)

    def dot(self, o):
        return matmul(self, o)

    def argmin(self, axis=None):
        return argminmax(self, True)

    def argmax(self, axis=None):
        return argminmax(self, False)

    def argsort(self, *a, **k):
        return np_argsort(self)

    def cumsum(self, axis=None, **k):
        return np_cumsum(self)

    def tolist(self):
        return rnp.asarray(self).tolist()

    def round(self, decimals=0):
        return np_round(self, decimals)

    def fill(self, v):
        self[...] = v


def fixindex(k):
    """object arrays of ints / python bools used as an index"""
    if isinstance(k, SymArr) and k.dtype == object:
        flat = rnp.asarray(k).reshape(-1)
        if len(flat) and all(isinstance(x, (bool, rnp.bool_)) for x in flat):
            return rnp.asarray(k).astype(bool)
        if len(flat) and all(isinstance(x, (int, rnp.integer)) and not isinstance(x, bool) for x in flat):
            return rnp.asarray(k).astype(int)
    if isinstance(k, tuple):
        return tuple(fixindex(x) for x in k)
    return k


def is_symmask(k):
    if isinstance(k, SymArr):
        fl = rnp.asarray(k).reshape(-1)
        if any(isinstance(x, Term) for x in fl):
            if all(isinstance(x, (bool, rnp.bool_)) or (isinstance(x, Term) and x.sort == "b") for x in fl):
                return True
            raise Unsupported("symbolic index")
    if isinstance(k, Term):
        raise Unsupported("symbolic index")
    return False


def same_mask(a, b):
    if a is b:
        return True
    return a.shape == b.shape and all(x is y or (isinstance(x, bool) and isinstance(y, bool) and x == y)
                                      for x, y in zip(rnp.asarray(a).reshape(-1), rnp.asarray(b).reshape(-1)))


def ufunc_dispatch(ufunc, method, inputs, out, kw):
    name = ufunc.__name__
    if method == "__call__":
        if kw.get("where") is not None and kw.get("where") is not True:
            raise Unsupported("ufunc where=")
        if name == "matmul":
            return matmul(*inputs)
        r = apply_uf(name, *inputs)
        if out is not None:
            o = out[0]
            if not isinstance(o, SymArr):
                raise Unsupported("in-place update of a plain array with symbolic values")
            if not o.flags.writeable:
                raise ValueError("output array is read-only")
            mk = o._mask
            if mk is not None:
                if not (isinstance(r, SymArr) and r._mask is not None and same_mask(r._mask, mk)):
                    raise Unsupported("masked in-place update")
                rnp.asarray(o)[...] = rnp.asarray(r)
                return o
            base = rnp.asarray(o)
            if rnp.shape(rnp.asarray(as_obj(r))) != base.shape and rnp.ndim(rnp.asarray(as_obj(r))) > base.ndim:
                raise ValueError("non-broadcastable output operand")
            base[...] = rnp.asarray(as_obj(r))
            return o
        return r
    if method == "reduce":
        return red(name, inputs[0], kw.get("axis", 0), kw.get("keepdims", False))
    if method == "outer":
        a, b = rnp.asarray(as_obj(inputs[0])), rnp.asarray(as_obj(inputs[1]))
        return apply_uf(name, a.reshape(a.shape + (1,) * b.ndim).view(SymArr) if a.dtype == object else a.reshape(a.shape + (1,) * b.ndim), b)
    if method == "accumulate":
        a = rnp.asarray(as_obj(inputs[0]))
        r = []
        for x in a:
            r.append(x if not r else apply_uf(name, r[-1], x))
        return sym(as_obj(r))
    raise Unsupported("ufunc.%s" % method)


def red(name, a, axis=None, keepdims=False):
    if isinstance(a, SymArr):
        a._chk()
    a = rnp.asarray(as_obj(a))
    if isinstance(axis, tuple):
        raise Unsupported("reduction over several axes")
    if axis is None:
        vals = list(a.reshape(-1))
        r = redlist(name, vals)
        return r
    a = rnp.moveaxis(a, axis, 0)
    out = rnp.empty(a.shape[1:], dtype=object)
    for idx in rnp.ndindex(*out.shape):
        out[idx] = redlist(name, [a[(i,) + idx] for i in range(a.shape[0])])
    if out.ndim == 0:
        return out.item()
    if keepdims:
        out = rnp.expand_dims(out, axis)
    if name.startswith("logical") and all(isinstance(x, (bool, rnp.bool_)) for x in out.reshape(-1)):
        return out.astype(bool)
    return out.view(SymArr)


def redlist(name, vals):
    if name in ("logical_and", "logical_or"):
        r = T.TRUE if name == "logical_and" else T.FALSE
        for v in vals:
            t = T.tobool(T.L(_py(v)))
            r = T.and_(r, t) if name == "logical_and" else T.or_(r, t)
        return unwrap(r)
    if not vals:
        return 0.0 if name == "add" else 1.0
    r = T.L(_py(vals[0]))
    for v in vals[1:]:
        r = UF[name](r, T.L(_py(v)))
    return unwrap(r)


def matmul(a, b):
    a, b = rnp.asarray(as_obj(a)), rnp.asarray(as_obj(b))
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a.reshape(1, -1)
    if b1:
        b = b.reshape(-1, 1)
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("matmul of >2-d arrays")
    if a.shape[1] != b.shape[0]:
        raise ValueError("matmul: mismatch in core dimension")
    out = rnp.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            s = T.ZERO
            for k in range(a.shape[1]):
                s = T.add(s, T.mul(T.L(_py(a[i, k])), T.L(_py(b[k, j]))))
            out[i, j] = unwrap(s)
    if a1:
        out = out[0]
    if b1:
        out = out[..., 0]
    if out.ndim == 0:
        return out.item()
    return out.view(SymArr)


# --- functions -------------------------------------------------------------------------------------

def np_where(c, a=None, b=None):
    if a is None and b is None:
        c = rnp.asarray(as_obj(c))
        vals = [bool(x) for x in c.reshape(-1)]       # forks
        return rnp.nonzero(rnp.array(vals).reshape(c.shape))
    if isinstance(c, Term) and not any(isinstance(x, (rnp.ndarray, list)) for x in (a, b)):
        return unwrap(T.ite(T.tobool(c), T.L(_py(a)), T.L(_py(b))))
    c, a, b = (rnp.asarray(as_obj(x)) for x in (c, a, b))
    bc = rnp.broadcast(c, a, b)
    out = rnp.empty(bc.shape, dtype=object)
    fl = out.reshape(-1)
    for i, (x, y, z) in enumerate(bc):
        fl[i] = unwrap(T.ite(T.tobool(T.L(_py(x))), T.L(_py(y)), T.L(_py(z))))
    if out.ndim == 0:
        return out.item()
    return out.view(SymArr)


def np_select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = np_where(c, v, r)
    if not isinstance(r, rnp.ndarray):
        o = rnp.empty((), dtype=object)
        o[()] = r
        return o.view(SymArr)
    return r


def np_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = apply_uf("maximum", r, lo)
    if hi is not None:
        r = apply_uf("minimum", r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp period")
    xp = [unwrap(_py(v)) for v in rnp.asarray(as_obj(xp)).reshape(-1)]
    fp = [unwrap(_py(v)) for v in rnp.asarray(as_obj(fp)).reshape(-1)]
    lf = fp[0] if left is None else unwrap(_py(left))
    rt = fp[-1] if right is None else unwrap(_py(right))
    if len(xp) != len(fp):
        raise ValueError("fp and xp are not of the same length.")

    def one(v):
        return interp_scalar(unwrap(_py(v)), xp, fp, lf, rt)
    if isinstance(x, (rnp.ndarray, list, tuple)) and rnp.ndim(as_obj(x)) > 0:
        xa = rnp.asarray(as_obj(x))
        out = rnp.empty(xa.shape, dtype=object)
        fl, xf = out.reshape(-1), xa.reshape(-1)
        for i in range(len(fl)):
            fl[i] = one(xf[i])
        return out.view(SymArr)
    return one(x)


def same(a, b):
    if isinstance(a, Term) or isinstance(b, Term):
        return a is b
    return a == b or (a != a and b != b)


def interp_scalar(x, xp, fp, lf, rt):
    symk = any(isinstance(v, Term) for v in xp)
    if not isinstance(x, Term) and not symk:
        # concrete abscissa: numpy's own convention
        if x != x:
            return F("nan")
        if x < xp[0]:
            return lf
        if x > xp[-1]:
            return rt
        j = int(rnp.searchsorted(rnp.array(xp, float), x, side="right")) - 1
        if j >= len(xp) - 1:
            return fp[-1]
        return seg(x, xp, fp, j)
    if not symk and not any(isinstance(v, Term) for v in fp) and same(lf, fp[0]) and same(rt, fp[-1]) \
            and all(b > a for a, b in zip(xp, xp[1:])) and all(v == v for v in fp):
        return unwrap(T.pwl(T.L(x), xp, fp))
    r = T.ite(T.lt(T.L(xp[-1]), T.L(x)), T.L(rt), T.L(fp[-1]))
    for j in range(len(xp) - 2, -1, -1):
        r = T.ite(T.lt(T.L(x), T.L(xp[j + 1])), T.L(seg(x, xp, fp, j)), r)
    r = T.ite(T.lt(T.L(x), T.L(xp[0])), T.L(lf), r)
    return unwrap(r)


def seg(x, xp, fp, j):
    x0, x1, y0, y1 = (T.L(v) for v in (xp[j], xp[j + 1], fp[j], fp[j + 1]))
    x = T.L(x)
    return unwrap(T.add(y0, T.mul(T.div(T.sub(y1, y0), T.sub(x1, x0)), T.sub(x, x0))))


class SymIndex:
    """The position of the first minimum (maximum) of many symbolic values, plus an offset, without a case split.
    Used where it can be: `a[i]` for the same values, `a[i+k:] = v`, comparisons; anywhere else __index__ splits cases."""
    __array_ufunc__ = None

    def __init__(self, vals, is_min, off=0):
        self.vals, self.is_min, self.off = vals, is_min, off
        f = T.minimum if is_min else T.maximum
        n = len(vals)
        self.pre, self.suf = [vals[0]], [vals[-1]]
        for k in range(1, n):
            self.pre.append(f(self.pre[-1], vals[k]))
            self.suf.append(f(self.suf[-1], vals[n - 1 - k]))
        self.suf.reverse()

    def at_most(self, j):
        """condition: index <= j"""
        j = j - self.off
        if j < 0:
            return T.FALSE
        if j >= len(self.vals) - 1:
            return T.TRUE
        return T.le(self.pre[j], self.suf[j + 1]) if self.is_min else T.le(self.suf[j + 1], self.pre[j])

    def value(self, arr):
        """arr[index]"""
        vals = [T.L(_py(v)) for v in rnp.asarray(arr)]
        if self.off == 0 and len(vals) == len(self.vals) and all(a is b for a, b in zip(vals, self.vals)):
            return unwrap(self.pre[-1])
        r = vals[-1]
        for j in range(len(vals) - 2, -1, -1):
            r = T.ite(self.at_most(j), vals[j], r)
        return unwrap(r)

    def __add__(self, k):
        if isinstance(k, (int, rnp.integer)) and not isinstance(k, bool):
            r = SymIndex.__new__(SymIndex)
            r.__dict__.update(self.__dict__)
            r.off = self.off + int(k)
            return r
        return self.__index__() + k
    __radd__ = __add__

    def __sub__(self, k):
        return self + (-k) if isinstance(k, (int, rnp.integer)) else self.__index__() - k

    def _each(self, o, f):
        if isinstance(o, rnp.ndarray):
            r = as_obj([unwrap(f(int(v))) for v in rnp.asarray(o).reshape(-1)]).reshape(o.shape)
            return r.view(SymArr)
        if isinstance(o, (int, rnp.integer)):
            return unwrap(f(int(o)))
        return NotImplemented

    def __le__(self, o):
        return self._each(o, self.at_most)

    def __lt__(self, o):
        return self._each(o, lambda j: self.at_most(j - 1))

    def __ge__(self, o):
        return self._each(o, lambda j: T.not_(self.at_most(j - 1)))

    def __gt__(self, o):
        return self._each(o, lambda j: T.not_(self.at_most(j)))

    def __eq__(self, o):
        return self._each(o, lambda j: T.and_(self.at_most(j), T.not_(self.at_most(j - 1))))

    def __ne__(self, o):
        return self._each(o, lambda j: T.not_(T.and_(self.at_most(j), T.not_(self.at_most(j - 1)))))
    __hash__ = None

    def __index__(self):
        return argminmax_fork(self.vals, self.is_min) + self.off
    __int__ = __index__


def argminmax(a, is_min):
    if isinstance(a, SymArr):
        a._chk()
    vals = [T.L(_py(v)) for v in rnp.asarray(as_obj(a)).reshape(-1)]
    if len(vals) > 8 and any(v.op != "const" for v in vals):
        return SymIndex(vals, is_min)
    return argminmax_fork(vals, is_min)


def argminmax_fork(vals, is_min):
    best = 0
    for i in range(1, len(vals)):
        c = T.lt(vals[i], vals[best]) if is_min else T.lt(vals[best], vals[i])
        if bool(c):
            best = i
    return best


def np_argsort(a, *args, **kw):
    vals = [T.L(_py(v)) for v in rnp.asarray(as_obj(a)).reshape(-1)]
    order = []
    for i, v in enumerate(vals):           # stable insertion sort, forks on comparisons
        j = len(order)
        while j > 0 and bool(T.lt(v, vals[order[j - 1]])):
            j -= 1
        order.insert(j, i)
    return rnp.array(order, dtype=int)


def np_nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    """constants as numpy does; a non-constant term is a real number"""
    one = lambda v: v if isinstance(v, Term) else float(rnp.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf))
    if not isinstance(a, (rnp.ndarray, list, tuple)):
        return one(a)
    b = rnp.asarray(as_obj(a))
    r = rnp.empty(b.shape, dtype=object)
    for i in rnp.ndindex(*b.shape):
        r[i] = one(b[i])
    if not copy and isinstance(a, rnp.ndarray):
        rnp.asarray(a)[...] = r
        return a
    return r.view(SymArr)


def np_cumsum(a, axis=None, **k):
    a = rnp.asarray(as_obj(a))
    if a.ndim != 1:
        raise Unsupported("cumsum of 2-d")
    out = []
    s = T.ZERO
    for v in a:
        s = T.add(s, T.L(_py(v)))
        out.append(unwrap(s))
    return sym(as_obj(out))


def np_round(a, decimals=0, **k):
    f = lambda v: unwrap(T.fn("round%d" % decimals, (T.L(v),))) if isinstance(v, Term) else round(v, decimals)
    if isinstance(a, rnp.ndarray):
        o = rnp.asarray(a)
        r = rnp.empty(o.shape, dtype=object)
        for i in rnp.ndindex(*o.shape):
            r[i] = f(o[i])
        return r.view(SymArr)
    return f(a)


def isclose1(a, b, rtol, atol):
    a, b = T.L(_py(a)), T.L(_py(b))
    if a.op == "const" and b.op == "const":
        return bool(rnp.isclose(a.val, b.val, rtol, atol))
    return unwrap(T.le(T.absolute(T.sub(a, b)), T.add(T.const(atol), T.mul(T.const(rtol), T.absolute(b)))))


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not any(isinstance(x, (rnp.ndarray, list, tuple)) for x in (a, b)):
        return isclose1(a, b, rtol, atol)
    bc = rnp.broadcast(rnp.asarray(as_obj(a)), rnp.asarray(as_obj(b)))
    out = rnp.empty(bc.shape, dtype=object)
    fl = out.reshape(-1)
    for i, (x, y) in enumerate(bc):
        fl[i] = isclose1(x, y, rtol, atol)
    if out.ndim == 0:
        return out.item()
    if all(isinstance(v, (bool, rnp.bool_)) for v in fl):
        return out.astype(bool)
    return out.view(SymArr)


def np_diag(a, k=0):
    a = rnp.asarray(as_obj(a))
    if k != 0:
        raise Unsupported("diag with an offset")
    if a.ndim == 1:
        n = len(a)
        o = rnp.empty((n, n), dtype=object)
        o[...] = 0.0
        for i in range(n):
            o[i, i] = a[i]
        return o.view(SymArr)
    return sym(as_obj([a[i, i] for i in range(builtins.min(a.shape))]))


def np_fill_diagonal(a, v, wrap=False):
    if not isinstance(a, SymArr):
        raise Unsupported("fill_diagonal")
    for i in range(builtins.min(a.shape)):
        rnp.asarray(a)[i, i] = _py(v) if not isinstance(v, rnp.ndarray) else v[i]


def np_convolve(a, v, mode="full"):
    a = [T.L(_py(x)) for x in rnp.asarray(as_obj(a))]
    v = [T.L(_py(x)) for x in rnp.asarray(as_obj(v))]
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    full = []
    for k in range(n + m - 1):
        s = T.ZERO
        for j in range(builtins.max(0, k - n + 1), builtins.min(m, k + 1)):
            s = T.add(s, T.mul(v[j], a[k - j]))
        full.append(unwrap(s))
    if mode == "full":
        r = full
    elif mode == "same":
        st = (m - 1) // 2
        r = full[st:st + n]
    elif mode == "valid":
        r = full[m - 1:n]
    else:
        raise Unsupported("convolve mode")
    return sym(as_obj(r))


def np_inv(a):
    """Inverse by adjugate for n <= 3; larger by symbolic Gauss elimination without pivoting is not done."""
    a = rnp.asarray(as_obj(a))
    n = a.shape[0]

    def det(m):
        if len(m) == 1:
            return m[0][0]
        s = T.ZERO
        for j in range(len(m)):
            t = T.mul(m[0][j], det([r[:j] + r[j + 1:] for r in m[1:]]))
            s = T.add(s, t) if j % 2 == 0 else T.sub(s, t)
        return s
    m = [[T.L(_py(a[i, j])) for j in range(n)] for i in range(n)]
    if n > 3:
        raise Unsupported("inverse of a %dx%d symbolic matrix" % (n, n))
    d = det(m)
    o = rnp.empty((n, n), dtype=object)
    if n == 1:
        o[0, 0] = unwrap(T.div(T.ONE, m[0][0]))
        return o.view(SymArr)
    for i in range(n):
        for j in range(n):
            sub = [r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j]
            c = det(sub)
            if (i + j) % 2:
                c = T.neg(c)
            o[i, j] = unwrap(T.div(c, d))
    return o.view(SymArr)


def np_solve(a, b):
    return matmul(np_inv(a), b)


def np_outer(a, b):
    a, b = rnp.asarray(as_obj(a)).reshape(-1), rnp.asarray(as_obj(b)).reshape(-1)
    return apply_uf("multiply", a.reshape(-1, 1).view(SymArr) if a.dtype == object else sym(a.reshape(-1, 1)), b)


def np_diff(a, n=1, axis=-1):
    a = sym(rnp.asarray(as_obj(a)))
    if a.ndim != 1 or n != 1:
        raise Unsupported("diff")
    return a[1:] - a[:-1]


def np_cross_shape(fname):
    real = getattr(rnp, fname)

    def f(*args, **kw):
        def conv(x):
            if isinstance(x, Term):
                return as_obj(x)
            if isinstance(x, SymArr):
                x._chk()
                return rnp.asarray(x)
            if isinstance(x, (list, tuple)):
                if has_sym(x) or any(isinstance(y, rnp.ndarray) for y in x):
                    return type(x)(conv(y) for y in x)
            return x
        r = real(*[conv(a) for a in args], **{k: conv(v) for k, v in kw.items()})
        return symres(r)
    return f


def symres(r):
    if isinstance(r, rnp.ndarray) and r.dtype == object:
        return r.view(SymArr)
    if isinstance(r, (list, tuple)):
        return type(r)(symres(x) for x in r) if type(r) in (list, tuple) else r
    return r


SHAPE_FUNCS = ["reshape", "ravel", "transpose", "concatenate", "stack", "vstack", "hstack", "column_stack",
               "broadcast_to", "broadcast_arrays", "atleast_1d", "atleast_2d", "squeeze", "expand_dims", "tile", "repeat",
               "flip", "roll", "moveaxis", "swapaxes", "split", "append", "take", "shape", "ndim", "size", "copy",
               "diagonal", "triu", "tril", "meshgrid", "insert", "delete"]

AF = {}
for _n in SHAPE_FUNCS:
    AF[_n] = np_cross_shape(_n)


def np_all(a, axis=None, **k):
    return red("logical_and", a, axis)


def np_any(a, axis=None, **k):
    return red("logical_or", a, axis)


def np_minmax(name):
    return lambda a, axis=None, **k: red(name, a, axis, k.get("keepdims", False))


def np_full_like(a, v, dtype=None, **k):
    return full(rnp.shape(as_obj(a)), v)


def np_std(*a, **k):
    raise Unsupported("std")


AF.update(where=np_where, select=np_select, clip=np_clip, interp=np_interp, argmin=lambda a, axis=None: argminmax(a, True),
          argmax=lambda a, axis=None: argminmax(a, False), argsort=np_argsort, cumsum=np_cumsum, round=np_round,
          around=np_round, isclose=np_isclose, allclose=lambda a, b, **k: red("logical_and", np_isclose(a, b, **k)),
          diag=np_diag, fill_diagonal=np_fill_diagonal, convolve=np_convolve, outer=np_outer, diff=np_diff,
          dot=matmul, sum=np_minmax("add"), prod=np_minmax("multiply"), amax=np_minmax("maximum"), max=np_minmax("maximum"),
          amin=np_minmax("minimum"), min=np_minmax("minimum"), all=np_all, any=np_any,
          mean=lambda a, axis=None, **k: sym(rnp.asarray(as_obj(a))).mean(axis),
          inv=np_inv, solve=np_solve,
          zeros_like=lambda a, *b, **k: full(rnp.shape(as_obj(a)), 0.0),
          ones_like=lambda a, *b, **k: full(rnp.shape(as_obj(a)), 1.0),
          empty_like=lambda a, *b, **k: full(rnp.shape(as_obj(a)), F("nan")),
          full_like=np_full_like, nan_to_num=np_nan_to_num, real=lambda a: a,
          array_equal=lambda a, b, **k: red("logical_and", apply_uf("equal", a, b)) if rnp.shape(as_obj(a)) == rnp.shape(as_obj(b)) else False,
          copyto=lambda dst, src, **k: dst.__setitem__(Ellipsis, src),
          nonzero=np_where, searchsorted=None, flatnonzero=lambda a: np_where(a)[0], count_nonzero=lambda a, **k: sum(bool(x) for x in rnp.asarray(as_obj(a)).reshape(-1)),
          unique=None, sort=lambda a, **k: sym(rnp.asarray(as_obj(a)))[np_argsort(a)])


def np_searchsorted(a, v, side="left", sorter=None):
    vals = [T.L(_py(x)) for x in rnp.asarray(as_obj(a)).reshape(-1)]
    if isinstance(v, (rnp.ndarray, list, tuple)) and rnp.ndim(as_obj(v)) > 0:
        return rnp.array([np_searchsorted(a, x, side) for x in rnp.asarray(as_obj(v))], dtype=int)
    v = T.L(_py(v))
    n = 0
    for x in vals:
        c = T.lt(x, v) if side == "left" else T.le(x, v)
        if bool(c):
            n += 1
        else:
            break
    return n


AF["searchsorted"] = np_searchsorted
AF["digitize"] = lambda x, bins, right=False: np_searchsorted(bins, x, "left" if right else "right")


def func_dispatch(func, args, kwargs):
    f = AF.get(func.__name__)
    if f is None:
        raise Unsupported("numpy.%s on symbolic values" % func.__name__)
    return f(*args, **kwargs)


def _t_ufunc(self, ufunc, method, *inputs, out=None, **kw):
    return ufunc_dispatch(ufunc, method, inputs, out, kw)


def _t_func(self, func, types_, args, kwargs):
    return func_dispatch(func, args, kwargs)


Term.__array_ufunc__ = _t_ufunc
Term.__array_function__ = _t_func


def _t_array(self, *a, **k):
    raise Unsupported("conversion of a symbolic value to a plain array")


Term.__array__ = _t_array


def _mk_reflect(name, uf, swap):
    base = getattr(Term, name)

    def m(self, o):
        if isinstance(o, rnp.ndarray):
            return apply_uf(uf, o, self) if swap else apply_uf(uf, self, o)
        return unwrapped(base(self, o))
    return m


def unwrapped(x):
    return unwrap(x) if isinstance(x, Term) else x


for _nm, _uf, _sw in [("__add__", "add", 0), ("__radd__", "add", 1), ("__sub__", "subtract", 0), ("__rsub__", "subtract", 1),
                      ("__mul__", "multiply", 0), ("__rmul__", "multiply", 1), ("__truediv__", "divide", 0),
                      ("__rtruediv__", "divide", 1), ("__pow__", "power", 0), ("__rpow__", "power", 1),
                      ("__lt__", "less", 0), ("__le__", "less_equal", 0), ("__gt__", "greater", 0),
                      ("__ge__", "greater_equal", 0), ("__eq__", "equal", 0), ("__ne__", "not_equal", 0),
                      ("__and__", "logical_and", 0), ("__or__", "logical_or", 0)]:
    setattr(Term, _nm, _mk_reflect(_nm, _uf, _sw))
Term.__hash__ = lambda self: 0


# --- array creation ---------------------------------------------------------------------------------

def _floaty(dtype):
    return dtype is None or dtype is float or dtype is SymFloat or dtype in ("float", "f8", "d", "float64", rnp.float64, object)


def full(shape, v, dtype=None):
    if isinstance(shape, (int, rnp.integer)):
        shape = (int(shape),)
    o = rnp.empty(tuple(int(x) for x in shape), dtype=object)
    o[...] = rnp.asarray(as_obj(v)) if isinstance(v, (rnp.ndarray, list, tuple)) else v
    if not isinstance(v, (rnp.ndarray, list, tuple)) and isinstance(v, (int, float)) and not isinstance(v, bool):
        o[...] = float(v)
    return o.view(SymArr)


def c_zeros(shape, dtype=None, **k):
    if not _floaty(dtype):
        return rnp.zeros(shape, dtype, **k)
    return full(shape, 0.0)


def c_ones(shape, dtype=None, **k):
    if not _floaty(dtype):
        return rnp.ones(shape, dtype, **k)
    return full(shape, 1.0)


def c_empty(shape, dtype=None, **k):
    if not _floaty(dtype):
        return rnp.empty(shape, dtype, **k)
    return full(shape, F("nan"))


def c_full(shape, fill_value, dtype=None, **k):
    if not _floaty(dtype) or isinstance(fill_value, (bool, str)):
        return rnp.full(shape, fill_value, dtype)
    return full(shape, fill_value)


def c_array(obj, dtype=None, copy=True, **k):
    if isinstance(obj, SymArr):
        if dtype is not None and not _floaty(dtype):
            return obj.astype(dtype)
        return obj.copy() if copy else obj
    if isinstance(obj, SymMA):
        return obj.data
    if isinstance(obj, rnp.ndarray):
        if obj.dtype.kind == "f" or (obj.dtype.kind in "iu" and dtype is not None and _floaty(dtype)):
            return obj.astype(float).astype(object).view(SymArr)
        return rnp.array(obj, dtype=dtype, copy=copy)
    if isinstance(obj, Term):
        return as_obj(obj).view(SymArr)
    if has_sym([obj]):
        return sym(rnp.asarray(as_obj(obj)).copy())
    a = rnp.array(obj, dtype=None if dtype is SymFloat else dtype, **k)
    if a.dtype.kind == "f":
        return a.astype(object).view(SymArr)
    return a


def c_asarray(obj, dtype=None, **k):
    if isinstance(obj, SymArr) and (dtype is None or _floaty(dtype)):
        return obj
    if isinstance(obj, rnp.ndarray) and dtype is None:
        return obj
    if isinstance(obj, SymMA):
        return obj.data
    return c_array(obj, dtype, copy=False)


class _R:
    def __getitem__(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        if not has_sym(k):
            r = rnp.r_[k]
            return r.astype(object).view(SymArr) if r.dtype.kind == "f" else r
        parts = []
        for x in k:
            if isinstance(x, slice) or isinstance(x, str):
                parts.append(rnp.r_[x])
            else:
                parts.append(rnp.atleast_1d(rnp.asarray(as_obj(x))))
        return rnp.concatenate([rnp.asarray(p, dtype=object) for p in parts]).view(SymArr)


class _C:
    def __getitem__(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        if not has_sym(k):
            return rnp.c_[k]
        cols = []
        for x in k:
            a = rnp.asarray(as_obj(x), dtype=object)
            cols.append(a.reshape(-1, 1) if a.ndim <= 1 else a)
        return rnp.concatenate(cols, axis=1).view(SymArr)


class SymRec:
    """Record array with named fields (np.rec.fromarrays / genfromtxt tables)."""

    def __init__(self, names, cols):
        self.__dict__["_names"] = tuple(names)
        self.__dict__["_cols"] = dict(zip(names, cols))

    @property
    def dtype(self):
        return types.SimpleNamespace(names=self._names, fields={n: None for n in self._names})

    def __getattr__(self, k):
        try:
            return self.__dict__["_cols"][k]
        except KeyError:
            raise AttributeError(k)

    def __setattr__(self, k, v):
        self[k] = v

    def __getitem__(self, k):
        if isinstance(k, str):
            try:
                return self._cols[k]
            except KeyError:
                raise ValueError("no field of name %s" % k)
        if isinstance(k, list) and k and all(isinstance(x, str) for x in k):
            return SymRec(k, [self._cols[x] for x in k])
        if isinstance(k, (int, rnp.integer)):
            return SymRec(self._names, [_sc(self._cols[n][k]) for n in self._names])
        return SymRec(self._names, [self._cols[n][k] for n in self._names])

    def __setitem__(self, k, v):
        if isinstance(k, str):
            c = self._cols[k]
            c[...] = v
            return
        raise Unsupported("record assignment")

    def __len__(self):
        return len(self._cols[self._names[0]])

    def __iter__(self):
        if rnp.ndim(self._cols[self._names[0]]) == 0:
            return iter([self._cols[n] for n in self._names])
        return iter([self[i] for i in range(len(self))])

    @property
    def size(self):
        return rnp.size(self._cols[self._names[0]])

    @property
    def shape(self):
        return rnp.shape(self._cols[self._names[0]])

    def view(self, *a):
        return self

    def copy(self):
        return SymRec(self._names, [c.copy() for c in self._cols.values()])

    def __deepcopy__(self, memo):
        return self.copy()


def _sc(x):
    return x


def rec_fromarrays(arrays, names=None, **k):
    if isinstance(names, str):
        names = [n.strip() for n in names.split(",")]
    if not isinstance(arrays, (list, tuple)) and isinstance(arrays, rnp.ndarray):
        arrays = [arrays[i] for i in range(arrays.shape[0])]
    return SymRec(names, list(arrays))


def rec_array(obj, names=None, **k):
    if isinstance(names, str):
        names = [n.strip() for n in names.split(",")]
    rows = [list(r) if isinstance(r, (list, tuple, rnp.ndarray)) else r for r in obj]
    if rows and isinstance(rows[0], list):
        cols = [sym(as_obj([r[i] for r in rows])) for i in range(len(names))]
        return SymRec(names, cols)
    return SymRec(names, list(rows))


def genfromtxt(*args, **kw):
    r = rnp.genfromtxt(*args, **kw)
    if r.dtype.names:
        return SymRec(r.dtype.names, [sym(r[n].astype(float).astype(object)) for n in r.dtype.names])
    return r.astype(object).view(SymArr)


class SymMA:
    """Minimal masked array (concrete mask)."""

    def __init__(self, data, mask):
        self.data = sym(rnp.asarray(as_obj(data)))
        m = rnp.asarray(mask)
        self.mask = rnp.broadcast_to(m, self.data.shape).copy().astype(bool)

    def __getitem__(self, k):
        return SymMA(self.data[k], self.mask[k])

    def count(self):
        return int((~self.mask).sum())

    def __len__(self):
        return len(self.data)

    @property
    def shape(self):
        return self.data.shape

    @property
    def size(self):
        return self.data.size

    @property
    def T(self):
        return self

    def compressed(self):
        return self.data[~self.mask]

    def filled(self, v=None):
        raise Unsupported("filled")

    def __sub__(self, o):
        if isinstance(o, SymMA):
            return SymMA(self.data - o.data, self.mask | o.mask)
        return SymMA(self.data - o, self.mask)

    def __rsub__(self, o):
        return SymMA(o - self.data, self.mask)

    def __rmatmul__(self, o):
        if self.mask.any():
            raise Unsupported("matmul with masked entries")
        return matmul(o, self.data)

    __array_ufunc__ = None

    def copy(self):
        return SymMA(self.data.copy(), self.mask.copy())


def ma_array(data, mask=False, **k):
    return SymMA(data, mask)


class interp1d:
    """scipy.interpolate.interp1d along the last axis; linear is modelled exactly, other kinds are uninterpreted."""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=float("nan"), assume_sorted=False):
        if axis not in (-1,):
            raise Unsupported("interp1d axis")
        self.x = [unwrap(_py(v)) for v in rnp.asarray(as_obj(x)).reshape(-1)]
        self.y = rnp.asarray(as_obj(y))
        self.kind = kind
        if fill_value is rnp.nan or (isinstance(fill_value, float) and fill_value != fill_value):
            self.fill = (F("nan"), F("nan"))
        elif isinstance(fill_value, str):
            raise Unsupported("interp1d extrapolate")
        elif isinstance(fill_value, tuple):
            self.fill = fill_value
        else:
            self.fill = (fill_value, fill_value)
        self.bounds_error = bounds_error
        if bounds_error is None and isinstance(fill_value, float) and fill_value != fill_value:
            self.bounds_error = True
        if self.y.shape[-1] != len(self.x):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")

    def __call__(self, xq):
        if self.bounds_error:
            raise Unsupported("interp1d bounds_error")
        scalar = not isinstance(xq, (rnp.ndarray, list, tuple))
        q = rnp.asarray(as_obj(xq))
        lead = self.y.shape[:-1]
        out = rnp.empty(lead + q.shape, dtype=object)
        for li in rnp.ndindex(*lead):
            fp = [unwrap(_py(v)) for v in self.y[li]]
            lf, rt = (f[li] if isinstance(f, rnp.ndarray) and f.ndim else f for f in self.fill)
            lf, rt = unwrap(_py(lf)), unwrap(_py(rt))
            for qi in rnp.ndindex(*q.shape):
                x = unwrap(_py(q[qi]))
                if self.kind in ("linear", "slinear", 1):
                    v = interp_scalar(x, self.x, fp, lf, rt)
                else:
                    v = self.other(x, fp, lf, rt)
                out[li + qi] = v
        if scalar and not lead:
            o = rnp.empty((), dtype=object)
            o[()] = out.item()
            return o.view(SymArr)
        return out.view(SymArr)

    def other(self, x, fp, lf, rt):
        t = T.fn("interp1d:" + str(self.kind), tuple([T.L(x)] + [T.L(v) for v in self.x] + [T.L(v) for v in fp]))
        xt = T.L(x)
        return unwrap(T.ite(T.lt(xt, T.L(self.x[0])), T.L(lf), T.ite(T.lt(T.L(self.x[-1]), xt), T.L(rt), t)))


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._types) or (cls._symok and isinstance(x, Term) and x.sort == "r")


class SymFloat(float, metaclass=_Meta):
    _types = (float,)
    _symok = True

    def __new__(cls, x=0.0):
        if isinstance(x, Term):
            return T.real(x)
        if isinstance(x, rnp.ndarray) and x.size == 1 and isinstance(x.reshape(-1)[0], Term):
            return T.real(x.reshape(-1)[0])
        return float(x)


def s_min(*args, **kw):
    if kw or not has_sym(args):
        return builtins.min(*args, **kw)
    if len(args) == 1:
        args = tuple(args[0])
    if any(isinstance(a, rnp.ndarray) and a.ndim > 0 for a in args):
        raise Unsupported("min of arrays")
    r = args[0]
    for a in args[1:]:
        r = T.minimum(T.L(_py(r)), T.L(_py(a)))
    return unwrapped(r)


def s_max(*args, **kw):
    if kw or not has_sym(args):
        return builtins.max(*args, **kw)
    if len(args) == 1:
        args = tuple(args[0])
    if any(isinstance(a, rnp.ndarray) and a.ndim > 0 for a in args):
        raise Unsupported("max of arrays")
    r = args[0]
    for a in args[1:]:
        r = T.maximum(T.L(_py(r)), T.L(_py(a)))
    return unwrapped(r)


def s_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def s_sorted(it, key=None, reverse=False):
    return builtins.sorted(it, key=key, reverse=reverse)


class _Ufunc:
    """A numpy ufunc which also takes lists with symbolic elements."""

    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *a, **kw):
        return self._uf(*[c_array(x) if isinstance(x, (list, tuple)) and has_sym([x]) else x for x in a], **kw)

    def __getattr__(self, k):
        f = getattr(self._uf, k)
        if not callable(f):
            return f
        return lambda *a, **kw: f(*[c_array(x) if isinstance(x, (list, tuple)) and has_sym([x]) else x for x in a], **kw)


class ShimModule(types.ModuleType):
    """numpy as seen by the code: modelled names first, the real ones for concrete arguments."""

    def __init__(self, name, real, table):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["_table"] = table

    def __getattr__(self, k):
        if k in self._table:
            return self._table[k]
        if k.startswith("__"):
            raise AttributeError(k)
        r = getattr(self._real, k)
        if isinstance(r, rnp.ufunc):
            self._table[k] = u = _Ufunc(r)
            return u
        if isinstance(r, type) or not callable(r):
            if isinstance(r, types.ModuleType):
                return ShimModule(self.__name__ + "." + k, r, {})
            return r

        def wrapper(*a, **kw):
            if has_sym(a, kw):
                f = AF.get(k)
                if f is None:
                    raise Unsupported("numpy.%s on symbolic values" % k)
                return f(*a, **kw)
            res = r(*a, **kw)
            if isinstance(res, rnp.ndarray) and res.dtype.kind == "f" and res.ndim > 0:
                return res.astype(object).view(SymArr)
            return res
        wrapper.__name__ = k
        return wrapper


def make_numpy():
    rec = ShimModule("numpy.rec", rnp.rec, {"fromarrays": rec_fromarrays, "array": rec_array})
    lin = ShimModule("numpy.linalg", rnp.linalg, {"inv": lambda a: np_inv(a) if has_sym([a]) else sym(rnp.linalg.inv(a)),
                                                  "solve": np_solve})
    ma = types.SimpleNamespace(array=ma_array, masked_array=ma_array, MaskedArray=SymMA,
                               count_masked=lambda a: int(a.mask.sum()),
                               masked_invalid=lambda a: SymMA(a, rnp.array([_isnan_b(x) for x in rnp.asarray(as_obj(a)).reshape(-1)])),
                               getmaskarray=lambda a: a.mask)
    table = dict(zeros=c_zeros, ones=c_ones, empty=c_empty, full=c_full, array=c_array, asarray=c_asarray,
                 asanyarray=c_asarray, ascontiguousarray=c_asarray, asfarray=c_asarray, zeros_like=lambda a, dtype=None, **k: c_zeros(rnp.shape(as_obj(a)), dtype),
                 ones_like=lambda a, dtype=None, **k: c_ones(rnp.shape(as_obj(a)), dtype),
                 empty_like=lambda a, dtype=None, **k: c_empty(rnp.shape(as_obj(a)), dtype),
                 full_like=lambda a, v, dtype=None, **k: c_full(rnp.shape(as_obj(a)), v, dtype),
                 r_=_R(), c_=_C(), genfromtxt=genfromtxt, rec=rec, linalg=lin, ma=ma, select=np_select, eye=lambda *a, **k: sym(rnp.eye(*a, **k)),
                 identity=lambda n: sym(rnp.eye(n)), load=None, arange=rnp.arange, save=None, loadtxt=None,
                 newaxis=None, ndarray=rnp.ndarray, recarray=SymRec, errstate=rnp.errstate,
                 vectorize=_vectorize, float64=SymFloat, ndindex=rnp.ndindex, bool_=rnp.bool_)
    for k in ("linspace", "logspace", "geomspace"):
        table[k] = (lambda f: lambda *a, **kw: sym(f(*a, **kw)))(getattr(rnp, k))
    for k in list(table):
        if table[k] is None and k != "newaxis":
            del table[k]
    return ShimModule("numpy", rnp, table)


def _isnan_b(x):
    return (not isinstance(x, Term)) and x != x


class _vectorize:
    def __init__(self, f, **k):
        self.f = f

    def __call__(self, *args):
        arrs = [rnp.asarray(as_obj(a)) for a in args]
        b = rnp.broadcast(*arrs)
        out = rnp.empty(b.shape, dtype=object)
        fl = out.reshape(-1)
        for i, v in enumerate(b):
            fl[i] = self.f(*v)
        return out.view(SymArr) if out.ndim else out.item()


class PSeries:
    """pandas.Series of scalars: attribute and item access."""

    def __init__(self, data):
        self.__dict__["_d"] = dict(data)

    def __getattr__(self, k):
        try:
            return self._d[k]
        except KeyError:
            raise AttributeError(k)

    def __getitem__(self, k):
        return self._d[k]

    def __contains__(self, k):
        return k in self._d

    def keys(self):
        return self._d.keys()

    def __deepcopy__(self, memo):
        return PSeries(self._d)


def make_math():
    tab = {}
    for k, uf in [("exp", "exp"), ("log10", "log10"), ("sqrt", "sqrt"), ("sin", "sin"), ("cos", "cos"),
                  ("tan", "tan"), ("tanh", "tanh"), ("cosh", "cosh"), ("sinh", "sinh"), ("atan", "arctan"), ("radians", "radians"),
                  ("degrees", "degrees"), ("fabs", "absolute"), ("pow", "power"), ("isnan", "isnan"), ("isfinite", "isfinite"),
                  ("isinf", "isinf"), ("floor", "floor"), ("log1p", "log1p"), ("expm1", "expm1"), ("log2", "log2"), ("hypot", "hypot")]:
        tab[k] = (lambda k, uf: lambda *a: apply_uf(uf, *a) if has_sym(a) else getattr(math, k)(*a))(k, uf)
    tab["log"] = lambda x, base=None: (apply_uf("log", x) if base is None else apply_uf("divide", apply_uf("log", x), math.log(base))) \
        if has_sym([x]) else (math.log(x) if base is None else math.log(x, base))
    tab["isclose"] = lambda a, b, rel_tol=1e-9, abs_tol=0.0: (unwrap(T.le(T.absolute(T.sub(T.L(a), T.L(b))), T.maximum(
        T.mul(T.const(rel_tol), T.maximum(T.absolute(T.L(a)), T.absolute(T.L(b)))), T.const(abs_tol))))
        if has_sym([a, b]) else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol))
    return ShimModule("math", math, tab)
