"""Hash-consed terms over the reals: the values the verified code computes with.

A term is either of real sort ('r') or of boolean sort ('b').  All Python operators are overloaded, so that the
unmodified code of /repo builds terms while CPython executes it.  `bool(term)` asks the active path context (see
explore.py) which way the branch goes.
"""
import math

NAN = float("nan")
INF = float("inf")


class Unsupported(Exception):
    """The executed code left the subset of Python/numpy that the verifier models."""


_table = {}
_nodes = []
_ctx = [None]          # active path context


def set_ctx(c):
    old = _ctx[0]
    _ctx[0] = c
    return old


def get_ctx():
    return _ctx[0]


class Term:
    __slots__ = ("op", "args", "val", "id", "sort", "__weakref__")
    # numpy scalars that meet a Term defer to __array_ufunc__/__array_function__ (installed by symnp)

    def __new__(cls, op, args=(), val=None):
        key = (op, tuple(a.id for a in args), val if val == val else "nan",
               math.copysign(1.0, val) if isinstance(val, float) and val == 0 else 0)
        t = _table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t.val = val
            t.id = len(_nodes)
            t.sort = "b" if op in BOOL_OPS else "r"
            _nodes.append(t)
            _table[key] = t
        return t

    # -- identity-like services --------------------------------------------------------------
    def __hash__(self):
        return 0            # equal values must collide: == is decided by the path context

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __repr__(self):
        return show(self)

    def __str__(self):
        return show(self)

    def __format__(self, spec):
        return "<sym>"

    # -- scalar look-alike --------------------------------------------------------------------
    shape = ()
    ndim = 0
    size = 1

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, *a, **k):
        return self

    def conjugate(self):
        return self

    def squeeze(self, *a):
        return self

    # -- arithmetic ---------------------------------------------------------------------------
    def __add__(self, o):
        return _bin(add, self, o)

    def __radd__(self, o):
        return _bin(add, o, self)

    def __sub__(self, o):
        return _bin(sub, self, o)

    def __rsub__(self, o):
        return _bin(sub, o, self)

    def __mul__(self, o):
        return _bin(mul, self, o)

    def __rmul__(self, o):
        return _bin(mul, o, self)

    def __truediv__(self, o):
        return _bin(div, self, o)

    def __rtruediv__(self, o):
        return _bin(div, o, self)

    def __pow__(self, o):
        return _bin(power, self, o)

    def __rpow__(self, o):
        return _bin(power, o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __floordiv__(self, o):
        return _bin(lambda a, b: floor(div(a, b)), self, o)

    def __mod__(self, o):
        return _bin(lambda a, b: sub(a, mul(b, floor(div(a, b)))), self, o)

    # -- comparison ---------------------------------------------------------------------------
    def __lt__(self, o):
        return _bin(lt, self, o)

    def __le__(self, o):
        return _bin(le, self, o)

    def __gt__(self, o):
        return _bin(lambda a, b: lt(b, a), self, o)

    def __ge__(self, o):
        return _bin(lambda a, b: le(b, a), self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple, list, dict)):
            return False
        return _bin(eq, self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple, list, dict)):
            return True
        return _bin(lambda a, b: not_(eq(a, b)), self, o)

    # -- boolean ------------------------------------------------------------------------------
    def __and__(self, o):
        return _bin(and_, self, o)

    def __rand__(self, o):
        return _bin(and_, o, self)

    def __or__(self, o):
        return _bin(or_, self, o)

    def __ror__(self, o):
        return _bin(or_, o, self)

    def __xor__(self, o):
        return _bin(lambda a, b: or_(and_(a, not_(b)), and_(not_(a), b)), self, o)

    def __invert__(self):
        return not_(self)

    def __bool__(self):
        if self.sort == "b":
            if self.op == "true":
                return True
            if self.op == "false":
                return False
            c = _ctx[0]
            if c is None:
                raise Unsupported("branch on a symbolic value outside a path context")
            return c.decide(self)
        if self.op == "const":
            return bool(self.val)
        return bool(not_(eq(self, const(0.0))))

    def __float__(self):
        if self.op == "const":
            return self.val
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        raise Unsupported("symbolic value used as an index")

    def __round__(self, n=None):
        return fn("round%s" % (n or 0), (self,))

    # object-array ufunc fallbacks
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)


BOOL_OPS = {"true", "false", "lt", "le", "eq", "and", "or", "not", "bvar"}


def _bin(f, a, b):
    a2 = lift(a)
    b2 = lift(b)
    if a2 is NotImplemented or b2 is NotImplemented:
        return NotImplemented
    return f(a2, b2)


def lift(x):
    if isinstance(x, Term):
        return x
    t = type(x)
    if t is float or t is int:
        return const(float(x))
    if t is bool:
        return TRUE if x else FALSE
    try:
        import numpy as np
        if isinstance(x, np.bool_):
            return TRUE if x else FALSE
        if isinstance(x, (np.floating, np.integer)):
            return const(float(x))
    except ImportError:
        pass
    if isinstance(x, (float, int)):
        return const(float(x))
    return NotImplemented


def L(x):
    r = lift(x)
    if r is NotImplemented:
        raise Unsupported("not a scalar: %r" % (type(x),))
    return r


def const(v):
    return Term("const", (), float(v))


def var(name):
    return Term("var", (), name)


def bvar(name):
    return Term("bvar", (), name)


TRUE = Term("true")
FALSE = Term("false")
ZERO = const(0.0)
ONE = const(1.0)
NANT = const(NAN)


def is_const(t):
    return t.op == "const"


def real(t):
    """Coerce a boolean term used as a number."""
    if t.sort == "b":
        return ite(t, ONE, ZERO)
    return t


def _nanlike(t):
    return t.op == "const" and t.val != t.val


def _fold(f, *vals):
    try:
        return const(f(*vals))
    except ZeroDivisionError:
        return None
    except (ValueError, OverflowError):
        return NANT


def add(a, b):
    a, b = real(a), real(b)
    if a.op == "const":
        if b.op == "const":
            return const(a.val + b.val)
        if a.val == 0:
            return b
        if a.val != a.val:
            return a
    elif b.op == "const":
        if b.val == 0:
            return a
        if b.val != b.val:
            return b
    return Term("add", (a, b))


def neg(a):
    return mul(const(-1.0), a)


def sub(a, b):
    a, b = real(a), real(b)
    if a is b and not _nanlike(a):
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    a, b = real(a), real(b)
    if b.op == "const" and a.op != "const":
        a, b = b, a
    if a.op == "const":
        if b.op == "const":
            return const(a.val * b.val)
        if a.val != a.val:
            return a
        if a.val == 1:
            return b
        if a.val == 0:
            return ZERO      # 0*t = 0 over the reals; definedness of t is a separate obligation
        if b.op == "mul" and b.args[0].op == "const":
            return mul(const(a.val * b.args[0].val), b.args[1])
    return Term("mul", (a, b))


def div(a, b):
    a, b = real(a), real(b)
    if b.op == "const":
        if a.op == "const":
            if b.val == 0:
                if a.val == 0 or a.val != a.val:
                    return NANT
                return const(math.copysign(INF, a.val) * math.copysign(1.0, b.val))
            return const(a.val / b.val)
        if b.val != b.val:
            return b
        if b.val == 1:
            return a
        if b.val == 0:
            return Term("div", (a, b))
    if _nanlike(a):
        return a
    return Term("div", (a, b))


def power(a, b):
    a, b = real(a), real(b)
    if b.op == "const":
        if b.val == 1:
            return a
        if b.val == 0:
            return ONE
        if a.op == "const":
            r = _fold(lambda x, y: _cpow(x, y), a.val, b.val)
            return const(INF) if r is None else r
        if b.val != b.val:
            return b
    if _nanlike(a):
        return a
    return Term("pow", (a, b))


def _cpow(x, y):
    if x != x or y != y:
        return NAN
    try:
        r = x ** y
    except OverflowError:
        return INF
    return NAN if isinstance(r, complex) else r


def sqrt(a):
    return power(a, const(0.5)) if not (a.op == "const" and a.val < 0) else NANT


def _un(name, f):
    def g(a):
        a = real(L(a))
        if a.op == "const":
            if a.val != a.val:
                return a
            r = _fold(f, a.val)
            return r
        return Term(name, (a,))
    g.__name__ = name
    return g


def _cexp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def _clog(x):
    if x == 0:
        return -INF
    return math.log(x)


exp = _un("exp", _cexp)
log = _un("log", _clog)
sin = _un("sin", math.sin)
cos = _un("cos", math.cos)
tan = _un("tan", math.tan)
tanh = _un("tanh", math.tanh)
arctan = _un("arctan", math.atan)
floor = _un("floor", math.floor)


def cosh(a):
    a = real(L(a))
    if a.op == "const":
        return _fold(math.cosh, a.val)
    return mul(const(0.5), add(exp(a), exp(neg(a))))


def sinh(a):
    a = real(L(a))
    if a.op == "const":
        return _fold(math.sinh, a.val)
    return mul(const(0.5), sub(exp(a), exp(neg(a))))


LN10 = math.log(10.0)


def log10(a):
    a = real(L(a))
    if a.op == "const":
        return _fold(lambda x: -INF if x == 0 else math.log10(x), a.val)
    return mul(const(1 / LN10), log(a))


def log2(a):
    a = real(L(a))
    return mul(const(1 / math.log(2.0)), log(a))


def log1p(a):
    return log(add(ONE, L(a)))


def expm1(a):
    return sub(exp(a), ONE)


def square(a):
    a = L(a)
    return mul(a, a)


def radians(a):
    return mul(const(math.pi / 180.0), L(a))


def degrees(a):
    return mul(const(180.0 / math.pi), L(a))


def absolute(a):
    a = real(L(a))
    if a.op == "const":
        return const(abs(a.val))
    return maximum(a, neg(a))


def maximum(a, b):
    a, b = real(L(a)), real(L(b))
    if a is b:
        return a
    for x, y in ((a, b), (b, a)):
        if x.op == "const":
            if x.val != x.val:
                return x
            if y.op == "const" and y.val == y.val:
                return x if x.val >= y.val else y
            if x.val == -INF:
                return y
            if x.val == INF:
                return x
    if a.id > b.id:
        a, b = b, a
    return Term("max", (a, b))


def minimum(a, b):
    a, b = real(L(a)), real(L(b))
    if a is b:
        return a
    for x, y in ((a, b), (b, a)):
        if x.op == "const":
            if x.val != x.val:
                return x
            if y.op == "const" and y.val == y.val:
                return x if x.val <= y.val else y
            if x.val == INF:
                return y
            if x.val == -INF:
                return x
    if a.id > b.id:
        a, b = b, a
    return Term("min", (a, b))


def ite(c, a, b):
    c, a, b = L(c), L(a), L(b)
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    if a is b:
        return a
    if a.sort == "b" or b.sort == "b":
        if a.sort == "b" and b.sort == "b":
            return or_(and_(c, a), and_(not_(c), b))
        a, b = real(a), real(b)
    if c.op == "not":
        return ite(c.args[0], b, a)
    return Term("ite", (c, a, b))


def pwl(x, xp, fp):
    """Piecewise linear interpolation with constant knots, constant outside (np.interp)."""
    x = real(L(x))
    if x.op == "const":
        import numpy as np
        return const(float(np.interp(x.val, xp, fp)))
    return Term("pwl", (x,), (tuple(float(v) for v in xp), tuple(float(v) for v in fp)))


def fn(name, args):
    return Term("fn", tuple(real(L(a)) for a in args), name)


# -- booleans ----------------------------------------------------------------------------------

def _cmpconst(a, b, f):
    if a.op == "const" and b.op == "const":
        return TRUE if f(a.val, b.val) else FALSE
    if _nanlike(a) or _nanlike(b):
        return FALSE
    return None


def lt(a, b):
    a, b = real(a), real(b)
    r = _cmpconst(a, b, lambda x, y: x < y)
    if r is not None:
        return r
    if a is b:
        return FALSE
    return Term("lt", (a, b))


def le(a, b):
    a, b = real(a), real(b)
    r = _cmpconst(a, b, lambda x, y: x <= y)
    if r is not None:
        return r
    if a is b:
        return TRUE
    return Term("le", (a, b))


def eq(a, b):
    if a.sort == "b" and b.sort == "b":
        if a is b:
            return TRUE
        return or_(and_(a, b), and_(not_(a), not_(b)))
    a, b = real(a), real(b)
    r = _cmpconst(a, b, lambda x, y: x == y)
    if r is not None:
        return r
    if a is b:
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return Term("eq", (a, b))


def tobool(a):
    if a.sort == "b":
        return a
    return not_(eq(a, ZERO))


def not_(a):
    a = tobool(L(a))
    if a.op == "true":
        return FALSE
    if a.op == "false":
        return TRUE
    if a.op == "not":
        return a.args[0]
    return Term("not", (a,))


def and_(a, b):
    a, b = tobool(L(a)), tobool(L(b))
    if a.op == "false" or b.op == "false":
        return FALSE
    if a.op == "true":
        return b
    if b.op == "true" or a is b:
        return a
    return Term("and", (a, b))


def or_(a, b):
    a, b = tobool(L(a)), tobool(L(b))
    if a.op == "true" or b.op == "true":
        return TRUE
    if a.op == "false":
        return b
    if b.op == "false" or a is b:
        return a
    return Term("or", (a, b))


def conj(ts):
    r = TRUE
    for t in ts:
        r = and_(r, t)
    return r


# -- traversal -----------------------------------------------------------------------------------

def topo(roots):
    """Nodes reachable from roots, children first."""
    seen = set()
    out = []
    stack = [(r, False) for r in reversed(list(roots))]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if a.id not in seen:
                stack.append((a, False))
    return out


def free_vars(roots):
    return {t.val for t in topo(roots) if t.op in ("var", "bvar")}


def conditions(roots):
    """Atomic conditions occurring in the terms (ite guards, min/max comparisons, knots)."""
    out = []
    for t in topo(roots):
        if t.op in ("lt", "le", "eq"):
            out.append((t.args[0], t.args[1]))
        elif t.op in ("min", "max"):
            out.append(t.args)
        elif t.op == "pwl":
            for k in t.val[0]:
                out.append((t.args[0], const(k)))
    return out


def show(t, depth=6):
    if t.op == "const":
        return "%.6g" % t.val
    if t.op in ("var", "bvar"):
        return t.val
    if depth == 0:
        return "..."
    s = [show(a, depth - 1) for a in t.args]
    inf = {"add": "+", "mul": "*", "div": "/", "pow": "**", "lt": "<", "le": "<=", "eq": "==", "and": "&", "or": "|"}
    if t.op in inf:
        return "(" + (" %s " % inf[t.op]).join(s) + ")"
    name = t.val if t.op == "fn" else t.op
    return "%s(%s)" % (name, ", ".join(s))


def substitute(roots, mapping):
    """Replace variables (by name) or terms (by id) with terms; rebuilds with folding."""
    memo = {}
    for t in topo(roots):
        if t.id in mapping:
            memo[t.id] = mapping[t.id]
        elif t.op == "var" and t.val in mapping:
            memo[t.id] = L(mapping[t.val])
        elif not t.args:
            memo[t.id] = t
        else:
            memo[t.id] = rebuild(t, [memo[a.id] for a in t.args])
    return [memo[r.id] for r in roots]


_BUILD = {}


def rebuild(t, args):
    if t.op == "pwl":
        return pwl(args[0], *t.val)
    if t.op == "fn":
        return Term("fn", tuple(args), t.val)
    return _BUILD[t.op](*args)


_BUILD.update(add=add, mul=mul, div=div, pow=power, exp=exp, log=log, sin=sin, cos=cos, tan=tan, tanh=tanh,
              arctan=arctan, floor=floor, max=maximum, min=minimum, ite=ite, lt=lt, le=le, eq=eq, not_=not_,
              **{"and": and_, "or": or_, "not": not_})


def rewrite(roots, decide):
    """Resolve conditions: decide(cond) -> True/False/None for each atomic condition."""
    memo = {}
    for t in topo(roots):
        args = [memo[a.id] for a in t.args]
        if t.op in ("lt", "le", "eq"):
            n = rebuild(t, args)
            if n.op in ("lt", "le", "eq"):
                d = decide(n)
                if d is not None:
                    n = TRUE if d else FALSE
            memo[t.id] = n
        elif args:
            memo[t.id] = rebuild(t, args)
        else:
            memo[t.id] = t
    return [memo[r.id] for r in roots]


def diff(t, name, memo=None):
    """Derivative of a real term with respect to a variable (almost everywhere)."""
    memo = {} if memo is None else memo
    for n in topo([t]):
        if n.id in memo or n.sort == "b":
            continue
        a = n.args
        d = [memo.get(x.id, ZERO) for x in a]
        op = n.op
        if op == "const":
            r = ZERO
        elif op == "var":
            r = ONE if n.val == name else ZERO
        elif all(x is ZERO for x in d):
            r = ZERO
        elif op == "add":
            r = add(d[0], d[1])
        elif op == "mul":
            r = add(mul(d[0], a[1]), mul(a[0], d[1]))
        elif op == "div":
            r = sub(div(d[0], a[1]), div(mul(a[0], d[1]), mul(a[1], a[1])))
        elif op == "pow":
            if a[1].op == "const":
                r = mul(mul(a[1], power(a[0], const(a[1].val - 1))), d[0])
            else:
                r = mul(n, add(mul(d[1], log(a[0])), div(mul(a[1], d[0]), a[0])))
        elif op == "exp":
            r = mul(n, d[0])
        elif op == "log":
            r = div(d[0], a[0])
        elif op == "sin":
            r = mul(cos(a[0]), d[0])
        elif op == "cos":
            r = neg(mul(sin(a[0]), d[0]))
        elif op == "tan":
            r = mul(add(ONE, mul(n, n)), d[0])
        elif op == "tanh":
            r = mul(sub(ONE, mul(n, n)), d[0])
        elif op == "arctan":
            r = div(d[0], add(ONE, mul(a[0], a[0])))
        elif op == "floor":
            r = ZERO
        elif op == "max":
            r = ite(le(a[1], a[0]), d[0], d[1])
        elif op == "min":
            r = ite(le(a[0], a[1]), d[0], d[1])
        elif op == "ite":
            r = ite(a[0], d[1], d[2])
        elif op == "pwl":
            xp, fp = n.val
            r = ZERO
            if d[0] is not ZERO:
                s = ZERO
                for i in range(len(xp) - 1):
                    sl = (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i])
                    s = ite(and_(le(const(xp[i]), a[0]), lt(a[0], const(xp[i + 1]))), const(sl), s)
                r = mul(s, d[0])
        else:
            if all(x is ZERO for x in d):
                r = ZERO
            else:
                raise Unsupported("derivative of %s" % op)
        memo[n.id] = r
    return memo[t.id]
