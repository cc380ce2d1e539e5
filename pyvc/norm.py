"""Normal-form prover for elementary-function terms.

A real term is rewritten into a polynomial over atoms
    variables, log(poly), poly**e, exp(poly) (one merged exponential per monomial), sin/cos/... (poly),
    N(p) = [p < 0] and Z(p) = [p = 0] indicators for canonical p
with double coefficients.  if-then-else, min, max, abs and piecewise-linear interpolation become polynomials in the
indicators.  Equality of two terms is proved when the difference is bounded by the tolerance over the box; remaining
indicators are case-split.
"""
import math
from . import terms as T

INF = float("inf")


class TooBig(Exception):
    pass


class Infeasible(Exception):
    pass


ATOMS = []            # (kind, data)
_atom_ix = {}
POLYS = []            # interned polys
_poly_ix = {}
CONST = (0, ())       # the monomial 1


def atom(kind, data):
    k = (kind, data)
    i = _atom_ix.get(k)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(k)
        _atom_ix[k] = i
    return i


def intern_poly(p):
    b = _poly_ix.setdefault(frozenset(p), {})
    S = 0.0
    for c in p.values():
        S += abs(c)
    h = int(math.log(S) * 1e6) if 0 < S < INF else 0
    for k in (h, h - 1, h + 1):
        for pid in b.get(k, ()):
            q = POLYS[pid]
            for m, c in p.items():
                d = q[m]
                if abs(c - d) > 1e-9 * max(abs(c), abs(d)):
                    break
            else:
                return pid
    pid = len(POLYS)
    POLYS.append(dict(p))
    b.setdefault(h, []).append(pid)
    return pid


intern_poly({})       # pid 0


def padd(p, q, s=1.0):
    if not q:
        return dict(p)
    r = dict(p)
    for k, c in q.items():
        c = c * s
        o = r.get(k)
        if o is None:
            r[k] = c
        else:
            n = o + c
            if abs(n) <= 1e-12 * max(abs(o), abs(c)):
                del r[k]
            else:
                r[k] = n
    return r


def pscale(p, s):
    if s == 0:
        return {}
    return {k: c * s for k, c in p.items()}


def pconst(v):
    return {CONST: v} if v != 0 else {}


def is_pconst(p):
    return not p or (len(p) == 1 and CONST in p)


def constval(p):
    return p.get(CONST, 0.0)


def lead(p):
    return max(p)


def _r(e):
    n = round(e)
    if abs(e - n) < 1e-12:
        return n
    return float("%.12g" % e)


def single_var_linear(p):
    """p = x - c  (canonical) -> (name, c) or None"""
    if len(p) > 2:
        return None
    name = None
    c = 0.0
    a = None
    for k, v in p.items():
        if k == CONST:
            c = v
        elif k[0] == 0 and len(k[1]) == 1 and k[1][0][1] == 1 and ATOMS[k[1][0][0]][0] == "var" and name is None:
            name = ATOMS[k[1][0][0]][1]
            a = v
        else:
            return None
    if name is None:
        return None
    return name, -c / a


_dirs = {}


def direction(pid):
    """POLYS[pid] = k (D - c) with k > 0, D without constant and with leading coefficient 1: (id of D, c)."""
    r = _dirs.get(pid, 0)
    if r == 0:
        p = POLYS[pid]
        r = None
        if p and not is_pconst(p):
            a = p[lead(p)]
            if a > 0:
                r = intern_poly({k: v / a for k, v in p.items() if k != CONST}), -p.get(CONST, 0.0) / a
        _dirs[pid] = r
    return r


class Env:
    """Box + sign facts; immutable once normalisation started (assume() makes a new one)."""

    def __init__(self, box, conds=()):
        self.box = dict(box)
        self.facts = {}          # pid -> frozenset of allowed signs
        self.dirs = {}           # id of a direction -> (lo, attained, hi, attained)
        self.conds = list(conds)  # (term, truth)
        self.lemmas = {}          # term id -> (proved lower bound, term)
        self.nz = Norm(self)

    def child(self):
        e = Env.__new__(Env)
        e.box = dict(self.box)
        e.facts = dict(self.facts)
        e.dirs = dict(self.dirs)
        e.conds = list(self.conds)
        e.lemmas = self.lemmas
        e.nz = Norm(e)
        return e

    def lemma(self, term, lo):
        """Record a proved fact: term >= lo."""
        self.lemmas = dict(self.lemmas)
        self.lemmas[term.id] = (max(lo, self.lemmas.get(term.id, (-INF,))[0]), term)
        self.nz = Norm(self)

    def assume_pid(self, pid, signs):
        """New environment with sign(p) in signs. Raises Infeasible."""
        e = self.child()
        e._fact(pid, frozenset(signs))
        e.refresh()
        return e

    def assume(self, cond, truth=True):
        e = self.child()
        e.conds.append((cond, truth))
        e._cond(cond, truth)
        e.refresh()
        return e

    def _fact(self, pid, signs):
        old = self.facts.get(pid)
        new = signs if old is None else (old & signs)
        if not new:
            raise Infeasible()
        if new == old:
            return False
        self.facts[pid] = new
        sv = single_var_linear(POLYS[pid])
        ch = True
        if sv:
            n, c = sv
            if n in self.box:
                lo, hi = self.box[n]
                if "+" not in new:
                    hi = min(hi, c)
                if "-" not in new:
                    lo = max(lo, c)
                if lo > hi:
                    raise Infeasible()
                if lo == hi and ((lo == c and "0" not in new)):
                    raise Infeasible()
                self.box[n] = (lo, hi)
        else:
            dc = direction(pid)
            if dc:
                d, c = dc
                lo, la, hi, ha = self.dirs.get(d, (-INF, False, INF, False))
                if "+" not in new and (c, "0" in new) < (hi, ha):
                    hi, ha = c, "0" in new
                if "-" not in new and (-c, "0" in new) < (-lo, la):
                    lo, la = c, "0" in new
                if lo > hi or (lo == hi and not (la and ha)):
                    raise Infeasible()
                self.dirs[d] = (lo, la, hi, ha)
        return ch

    def _cond(self, c, truth):
        """Assert a boolean term; returns True if something new was learned."""
        if c.op == "not":
            return self._cond(c.args[0], not truth)
        if c.op == "true" or c.op == "false":
            if (c.op == "true") != truth:
                raise Infeasible()
            return False
        if (c.op == "and" and truth) or (c.op == "or" and not truth):
            a = self._cond(c.args[0], truth)
            b = self._cond(c.args[1], truth)
            return a or b
        if c.op in ("and", "or"):
            # truth of a disjunction: unit propagation
            vals = [self.nz.decide(x) for x in c.args]
            want = truth    # or-true / and-false
            if c.op == "or":
                if vals[0] is False:
                    return self._cond(c.args[1], True)
                if vals[1] is False:
                    return self._cond(c.args[0], True)
            else:
                if vals[0] is True:
                    return self._cond(c.args[1], False)
                if vals[1] is True:
                    return self._cond(c.args[0], False)
            return False
        if c.op == "bvar":
            v = self.facts.get(c.val)
            if v is not None and v != truth:
                raise Infeasible()
            self.facts[c.val] = truth
            return v is None
        new = False
        if c.op in ("lt", "le") and c.args[0].sort != "b":
            # max(p, q) <= r is p <= r and q <= r; min(p, q) <= r is p <= r or q <= r; likewise on the right
            for k in (0, 1):
                m = c.args[k]
                if m.op in ("max", "min"):
                    mk = T.lt if c.op == "lt" else T.le
                    p, q = [mk(x, c.args[1]) if k == 0 else mk(c.args[0], x) for x in m.args]
                    new = self._cond((T.and_ if (m.op == "max") == (k == 0) else T.or_)(p, q), truth) or new
        s = self.nz.literal(c)
        if s is True or s is False:
            if s != truth:
                raise Infeasible()
            return new
        pid, signs = s
        if not truth:
            signs = frozenset("-0+") - signs
        return self._fact(pid, signs) or new

    def refresh(self):
        for _ in range(3):
            self.nz = Norm(self)
            ch = False
            for c, t in self.conds:
                if self._cond(c, t):
                    ch = True
            if not ch:
                break
        self.nz = Norm(self)


def cos2(pid):
    """1 - cos(p)^2"""
    return intern_poly({CONST: 1.0, (0, ((atom("fn", ("cos", pid)), 2),)): -1.0})


class Norm:
    def __init__(self, env):
        self.env = env
        self.memo = {}
        self.iv = {}
        self.piv = {}
        self.aiv = {}
        self.kinks = {}
        self.limit = 6000

    # ---------------- intervals -----------------------------------------------------------
    def ival(self, t):
        r = self.iv.get(t.id)
        if r is not None:
            return r
        for n in T.topo([t]):
            if n.id not in self.iv:
                v = self._ival(n)
                lo = self.env.lemmas.get(n.id)
                if lo is not None and lo[0] > v[0]:
                    v = (lo[0], max(lo[0], v[1]))
                self.iv[n.id] = v
        return self.iv[t.id]

    def _ival(self, t):
        op = t.op
        a = [self.iv[x.id] for x in t.args]
        if op == "const":
            return (t.val, t.val) if t.val == t.val else (-INF, INF)
        if op == "var":
            return self.env.box.get(t.val, (-INF, INF))
        if op == "add":
            return _w(a[0][0] + a[1][0], a[0][1] + a[1][1])
        if op == "mul":
            if t.args[0] is t.args[1]:
                return _ipow(a[0], 2)
            return _imul(a[0], a[1])
        if op == "div":
            return _imul(a[0], _iinv(a[1]))
        if op == "pow":
            if t.args[1].op == "const":
                return _ipow(a[0], t.args[1].val)
            return _iexp(_imul(a[1], _ilog(a[0])))
        if op == "exp":
            return _iexp(a[0])
        if op == "log":
            return _ilog(a[0])
        if op in ("sin", "cos"):
            return _icos(a[0] if op == "cos" else (a[0][0] - math.pi / 2, a[0][1] - math.pi / 2))
        if op == "tanh":
            return (-1.0, 1.0) if a[0][0] < 0 < a[0][1] else ((0.0, 1.0) if a[0][0] >= 0 else (-1.0, 0.0))
        if op == "max":
            return (max(a[0][0], a[1][0]), max(a[0][1], a[1][1]))
        if op == "min":
            return (min(a[0][0], a[1][0]), min(a[0][1], a[1][1]))
        if op == "ite":
            c = self.decide(t.args[0])
            if c is True:
                return a[1]
            if c is False:
                return a[2]
            return (min(a[1][0], a[2][0]), max(a[1][1], a[2][1]))
        if op == "pwl":
            fp = t.val[1]
            return (min(fp), max(fp))
        return (-INF, INF)

    def decide(self, c):
        """True/False/None for a boolean term."""
        op = c.op
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "not":
            v = self.decide(c.args[0])
            return None if v is None else not v
        if op in ("and", "or"):
            a, b = self.decide(c.args[0]), self.decide(c.args[1])
            if op == "and":
                if a is False or b is False:
                    return False
                return True if (a and b) else None
            if a or b:
                return True
            return False if (a is False and b is False) else None
        if op == "bvar":
            return self.env.facts.get(c.val)
        n = self.kinks.get(c.id)
        if n is None:
            n = self.kinks[c.id] = sum(1 for t in T.topo([c]) if t.op in ("min", "max", "ite"))
        if n > 40:          # too many cases for a quick decision
            ia, ib = self.ival(c.args[0]), self.ival(c.args[1])
            if c.op == "lt":
                return True if ia[1] < ib[0] else False if ia[0] >= ib[1] else None
            if c.op == "le":
                return True if ia[1] <= ib[0] else False if ia[0] > ib[1] else None
            return False if ia[0] > ib[1] or ib[0] > ia[1] else None
        try:
            s = self.literal(c)
        except TooBig:
            return None
        if s is True or s is False:
            return s
        return None

    def aival(self, i):
        r = self.aiv.get(i)
        if r is None:
            r = self._aival(i)
            self.aiv[i] = r
        return r

    def _aival(self, i):
        kind, d = ATOMS[i]
        if kind == "var":
            return self.env.box.get(d, (-INF, INF))
        if kind == "log":
            return _ilog(self.pival(d))
        if kind == "base":
            return self.pival(d)
        if kind in ("N", "Z"):
            return (0.0, 1.0)
        if kind == "fn":
            name = d[0]
            if name in ("sin", "cos"):
                b = self.pival(d[1])
                return _icos(b if name == "cos" else (b[0] - math.pi / 2, b[1] - math.pi / 2))
            if name == "tanh":
                return (-1.0, 1.0)
        return (-INF, INF)

    def mival(self, m):
        r = (1.0, 1.0)
        if m[0]:
            r = _iexp(self.pival(m[0]))
        for i, e in m[1]:
            r = _imul(r, _ipow(self.aival(i), e))
        return r

    def pival(self, pid):
        r = self.piv.get(pid)
        if r is None:
            r = self.polyival(POLYS[pid])
            self.piv[pid] = r
        return r

    def polyival(self, p):
        lo = hi = 0.0
        quad = {}
        for m, c in p.items():
            if m[0] == 0 and len(m[1]) == 1 and m[1][0][1] == 2:
                i = m[1][0][0]
                lin = (0, ((i, 1),))
                if lin in p:
                    quad[m] = quad[lin] = None
                    a, b = _quad(c, p[lin], self.aival(i))
                    lo += a
                    hi += b
        for m, c in p.items():
            if m in quad:
                continue
            a, b = self.mival(m)
            if c >= 0:
                lo += _z(c, a)
                hi += _z(c, b)
            else:
                lo += _z(c, b)
                hi += _z(c, a)
        return _w(lo, hi)

    def psign(self, p):
        """'+', '-', '0', '>=0', '<=0' or None"""
        if not p:
            return "0"
        lo, hi = self.polyival(p)
        if lo > 0:
            return "+"
        if hi < 0:
            return "-"
        if lo >= 0:
            return ">=0"
        if hi <= 0:
            return "<=0"
        return None

    def clean(self, p):
        """Drop rounding noise: terms which over the whole box stay below 1e-16 of the largest term."""
        if len(p) < 2:
            return {k: c for k, c in p.items() if c}
        th = 1e-16 * max(abs(c) for c in p.values())
        small = [k for k, c in p.items() if abs(c) <= th]
        if not small:
            return p
        top = max(self._mag(k, c) for k, c in p.items())
        if not top < INF:
            return p
        drop = {k for k in small if p[k] == 0 or self._mag(k, p[k]) <= 1e-16 * top}
        return {k: c for k, c in p.items() if k not in drop} if drop else p

    def _mag(self, k, c):
        lo, hi = self.mival(k)
        r = abs(c) * max(abs(lo), abs(hi))
        return r if r == r else INF

    # ---------------- polynomial operations -----------------------------------------------
    def mono_mul(self, m1, m2):
        """Product of monomials as a poly."""
        if m1 == CONST:
            return {m2: 1.0}
        if m2 == CONST:
            return {m1: 1.0}
        coef = 1.0
        E = 0
        if m1[0] and m2[0]:
            E = intern_poly(self.clean(padd(POLYS[m1[0]], POLYS[m2[0]])))
        else:
            E = m1[0] or m2[0]
        d = dict(m1[1])
        expand = []
        for i, e in m2[1]:
            d[i] = d.get(i, 0) + e
        inds = []
        out = {}
        for i, e in d.items():
            e = _r(e)
            if e == 0:
                continue
            kind, data = ATOMS[i]
            if kind in ("N", "Z"):
                inds.append(i)
                continue
            if kind == "base" and isinstance(e, int) and e > 0:
                expand.append((data, e))
                continue
            if kind == "fn" and data[0] == "sin" and isinstance(e, int) and e > 1:       # sin^2 = 1 - cos^2
                expand.append((cos2(data[1]), e // 2))
                e %= 2
                if not e:
                    continue
            out[i] = e
        if len(inds) > 1:
            inds = simplify_inds(inds)
            if inds is None:
                return {}
        zsub = None
        for i in inds:
            out[i] = 1
            if ATOMS[i][0] == "Z":
                sv = single_var_linear(POLYS[ATOMS[i][1]])
                if sv:
                    zsub = sv
        if zsub:
            va = _atom_ix.get(("var", zsub[0]))
            if va in out:
                if zsub[1] == 0:
                    if out[va] > 0:
                        return {}
                else:
                    try:
                        coef *= zsub[1] ** out.pop(va)
                    except (ZeroDivisionError, TypeError):
                        pass
        r = {(E, tuple(sorted(out.items()))): coef}
        for pid, e in expand:
            for _ in range(e):
                r = self.pmul(r, POLYS[pid])
        return r

    def pmul(self, p, q):
        if not p or not q:
            return {}
        if is_pconst(p):
            return pscale(q, constval(p))
        if is_pconst(q):
            return pscale(p, constval(q))
        if len(p) * len(q) > self.limit:
            raise TooBig()
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                pr = self.mono_mul(m1, m2)
                c = c1 * c2
                for k, v in pr.items():
                    v = v * c
                    o = r.get(k)
                    if o is None:
                        r[k] = v
                    else:
                        n = o + v
                        if abs(n) <= 1e-12 * max(abs(o), abs(v)):
                            del r[k]
                        else:
                            r[k] = n
        return self.clean(r)

    def content(self, p):
        """p = coef>0 * mono * rest, mono made of factors common to all terms which are known positive
        (exponentials and positive atoms)."""
        ms = list(p)
        ds = [dict(m[1]) for m in ms]
        atoms = set()
        for d in ds:
            atoms.update(d)
        common = {}
        for i in sorted(atoms):
            e = min(d.get(i, 0) for d in ds)
            if e and (self.positive(i) or any(isinstance(d.get(i, 0), float) for d in ds)):
                common[i] = e       # (a base under a non-integer power is >= 0 wherever the value is defined)
        E = 0
        if any(m[0] for m in ms):
            if len({m[0] for m in ms}) == 1:
                E = ms[0][0]
            else:
                keys = set()
                for m in ms:
                    keys.update(POLYS[m[0]])
                low = {}
                for k in keys:
                    c = min(POLYS[m[0]].get(k, 0.0) for m in ms)
                    if c:
                        low[k] = c
                if low:
                    E = intern_poly(low)
        rest = {}
        for m, d, c in zip(ms, ds, p.values()):
            d = dict(d)
            for i, e in common.items():
                d[i] = _r(d.get(i, 0) - e)
                if d[i] == 0:
                    del d[i]
            if E == 0:
                ne = m[0]
            elif E == m[0]:
                ne = 0
            else:
                q = self.clean(padd(POLYS[m[0]], POLYS[E], -1.0))
                ne = intern_poly(q) if q else 0
            key = (ne, tuple(sorted(d.items())))
            rest[key] = rest.get(key, 0.0) + c
        k = abs(rest[lead(rest)])
        rest = {m: c / k for m, c in rest.items()}
        return k, (E, tuple(sorted(common.items()))), rest

    def positive(self, i, strict=True):
        kind, d = ATOMS[i]
        if kind in ("N", "Z", "nan"):
            return False
        lo = self.aival(i)[0]
        return lo > 0 or (lo >= 0 and kind in ("var", "base"))
        # a factor that is only known >= 0: where it is 0 the log/negative power is undefined on both sides

    def ppow(self, p, e, hint=None):
        """p ** e, e a float constant"""
        e = _r(e)
        if e == 0:
            return pconst(1.0)
        if e == 1:
            return p
        if not p:
            return {} if e > 0 else {(0, ((atom("nan", "1/0"), 1),)): 1.0}
        if isinstance(e, int) and e > 0:
            if len(p) == 1:
                (m, c), = p.items()
                r = {CONST: c ** e}
                q = {(m[0] if e == 1 else self._escale(m[0], e), tuple((i, _r(x * e)) for i, x in m[1])): c ** e}
                return self._fix(q)
            if len(p) ** min(e, 4) <= 600 and e <= 6:
                r = p
                for _ in range(e - 1):
                    r = self.pmul(r, p)
                return r
        if is_pconst(p):
            c = constval(p)
            try:
                v = c ** e
            except ZeroDivisionError:
                v = None
            if v is None or isinstance(v, complex):
                return {(0, ((atom("nan", "pow"), 1),)): 1.0}
            return pconst(v)
        isint = isinstance(e, int)
        if len(p) == 1:
            (m, c), = p.items()
            if isint:
                return self._fix({(self._escale(m[0], e), tuple((i, _r(x * e)) for i, x in m[1])): c ** e})
            # non-integer power: pull out what is known to be positive
            pos, rest = [], []
            for i, x in m[1]:
                (pos if self.positive(i) else rest).append((i, x))
            if (c > 0 and not rest):
                return self._fix({(self._escale(m[0], e), tuple((i, _r(x * e)) for i, x in pos)): c ** e})
            if c > 0 and len(rest) == 1 and not any(self.aival(i)[0] >= 0 for i, _ in rest):
                i, x = rest[0]
                # (y**x)**e for even x: |y|**(x*e)
                if isinstance(x, int) and x % 2 == 0:
                    ab = self.relu_abs({(0, ((i, 1),)): 1.0})
                    q = self._fix({(self._escale(m[0], e), tuple((j, _r(w * e)) for j, w in pos)): c ** e})
                    return self.pmul(q, self.ppow(ab, x * e))
            head = {(self._escale(m[0], e), tuple((i, _r(x * e)) for i, x in pos)): abs(c) ** e}
            b = intern_poly({(0, tuple(rest)): 1.0 if c > 0 else -1.0})
            return self.pmul(self._fix(head), {(0, ((atom("base", b), e),)): 1.0})
        k, m, rest = self.content(p)
        if len(rest) > 1 and not isint:
            # perfect squares sqrt(q^2) are rare; keep opaque
            pass
        neg = False
        if isint and rest[lead(rest)] < 0:
            rest = pscale(rest, -1.0)
            neg = e % 2 == 1
        b = intern_poly(self.clean(rest))
        head = {(self._escale(m[0], e), tuple((i, _r(x * e)) for i, x in m[1])): k ** e * (-1.0 if neg else 1.0)}
        if len(rest) == 1 and CONST in rest:
            return self._fix(head)
        return self.pmul(self._fix(head), {(0, ((atom("base", b), e),)): 1.0})

    def _escale(self, E, e):
        if not E or e == 1:
            return E
        return intern_poly(pscale(POLYS[E], e))

    def _fix(self, p):
        """Re-run expansion rules on monomials whose exponents were changed directly."""
        r = {}
        for m, c in p.items():
            q = {(m[0], ()): c}
            for i, e in m[1]:
                kind, d = ATOMS[i]
                if kind in ("N", "Z"):
                    e = 1
                e = _r(e)
                if e == 0:
                    continue
                if kind == "base" and isinstance(e, int) and e > 0:
                    for _ in range(e):
                        q = self.pmul(q, POLYS[d])
                    continue
                if kind == "fn" and d[0] == "sin" and isinstance(e, int) and e > 1:
                    for _ in range(e // 2):
                        q = self.pmul(q, POLYS[cos2(d[1])])
                    e %= 2
                if e:
                    q = self.pmul(q, {(0, ((i, e),)): 1.0})
            r = padd(r, q)
        return r

    def pexp(self, p):
        c = constval(p)
        rest = {m: v for m, v in p.items() if m != CONST}
        r = pconst(math.exp(c)) if c < 700 else {(0, ((atom("nan", "exp"), 1),)): 1.0}
        e = {}
        for m, v in rest.items():
            if m[0] == 0 and len(m[1]) == 1 and m[1][0][1] == 1 and ATOMS[m[1][0][0]][0] == "log":
                b = POLYS[ATOMS[m[1][0][0]][1]]
                r = self.pmul(r, self.ppow(b, v))
            else:
                e[m] = v
        if e:
            r = self.pmul(r, {(intern_poly(self.clean(e)), ()): 1.0})
        return r

    def plog(self, p):
        if not p:
            return {(0, ((atom("nan", "log0"), 1),)): 1.0}
        if is_pconst(p):
            c = constval(p)
            if c > 0:
                return pconst(math.log(c))
            return {(0, ((atom("nan", "log"), 1),)): 1.0}
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0 and all(self.positive(i) for i, _ in m[1]):
                r = pconst(math.log(c))
                if m[0]:
                    r = padd(r, POLYS[m[0]])
                for i, e in m[1]:
                    kind, d = ATOMS[i]
                    if kind == "base":
                        r = padd(r, pscale(self._logatom(POLYS[d]), e))
                    else:
                        r = padd(r, pscale(self._logatom({(0, ((i, 1),)): 1.0}), e))
                return r
        k, m, rest = self.content(p)
        r = pconst(math.log(k))
        if m[0]:
            r = padd(r, POLYS[m[0]])
        for i, e in m[1]:
            kind, d = ATOMS[i]
            b = POLYS[d] if kind == "base" else {(0, ((i, 1),)): 1.0}
            r = padd(r, pscale(self._logatom(b), e))
        if len(rest) == 1 and CONST in rest and rest[CONST] > 0:
            return r
        return padd(r, self._logatom(rest))

    def _logatom(self, b):
        if len(b) == 1:
            (m, c), = b.items()
            if c == 1.0 and m[0] == 0 and len(m[1]) == 1 and ATOMS[m[1][0][0]][0] == "base":
                i, e = m[1][0]
                return pscale(self._logatom(POLYS[ATOMS[i][1]]), e)
        # scale so that the leading coefficient is +-1
        k = abs(b[lead(b)])
        if k != 1.0:
            b2 = pscale(b, 1 / k)
        else:
            b2 = b
        r = {(0, ((atom("log", intern_poly(self.clean(b2))), 1),)): 1.0}
        if k != 1.0:
            r = padd(r, pconst(math.log(k)))
        return r

    # ---------------- conditions ----------------------------------------------------------
    def canon_sign(self, p):
        """sign(p): returns ('c', s) for a decided sign set (one of '-', '0', '+') or (pid, flip)."""
        s = self.psign(p)
        if s in ("+", "-", "0"):
            return "c", s
        p = self.clean(p)
        # drop positive common factors
        k, m, rest = self.content(p)
        # content may have used >=0 atoms: only drop strictly positive ones
        if any(not self.aival(i)[0] > 0 for i, _ in m[1]):
            rest = pscale(p, 1 / abs(p[lead(p)]))
        p = rest
        if len(p) == 2 and CONST in p:
            (mm,) = [q for q in p if q != CONST]
            c0, c1 = p[CONST], p[mm]
            v = -c0 / c1            # sign(p) = sign(c1) * sign(mono - v)
            q = None
            if mm[0] and not mm[1]:
                if v > 0:
                    q = padd(POLYS[mm[0]], pconst(-math.log(v)))
                else:
                    return "c", "+" if c1 > 0 else "-"
            elif not mm[0] and len(mm[1]) == 1:
                i, e = mm[1][0]
                kind, d = ATOMS[i]
                if e == 1 and kind == "log":
                    if v < 700:
                        q = padd(POLYS[d], pconst(-math.exp(v)))
                elif e != 1 and self.aival(i)[0] >= 0:
                    if v > 0:
                        b = POLYS[d] if kind == "base" else {(0, ((i, 1),)): 1.0}
                        q = padd(b, pconst(-(v ** (1.0 / e))))
                        if e < 0:
                            q = pscale(q, -1.0)
                    elif v < 0:
                        return "c", "+" if c1 > 0 else "-"
            if q is not None:
                if c1 < 0:
                    q = pscale(q, -1.0)
                return self.canon_sign(q)
        elif all(self._is_log(m) for m in p if m != CONST) and len(p) == 3 and CONST in p or \
                (len(p) == 2 and all(self._is_log(m) for m in p)):
            ls = [m for m in p if m != CONST]
            c1, c2 = p[ls[0]], p[ls[1]]
            if abs(c1 + c2) < 1e-9 * abs(c1):
                if c1 < 0:
                    ls = ls[::-1]
                    c1, c2 = c2, c1
                A = POLYS[ATOMS[ls[0][1][0][0]][1]]
                B = POLYS[ATOMS[ls[1][1][0][0]][1]]
                q = padd(A, pscale(B, math.exp(-p.get(CONST, 0.0) / c1)), -1.0)
                return self.canon_sign(q) if q else ("c", "0")
        flip = p[lead(p)] < 0
        if flip:
            p = pscale(p, -1.0)
        return intern_poly(p), flip

    def _is_log(self, m):
        return m[0] == 0 and len(m[1]) == 1 and m[1][0][1] == 1 and ATOMS[m[1][0][0]][0] == "log"

    def literal(self, c):
        """Atomic comparison -> True/False or (pid, frozenset of signs for which it holds)."""
        a, b = c.args
        ia, ib = self.ival(a), self.ival(b)
        if c.op == "lt":
            if ia[1] < ib[0]:
                return True
            if ia[0] >= ib[1]:
                return False
            want = {"-"}
        elif c.op == "le":
            if ia[1] <= ib[0]:
                return True
            if ia[0] > ib[1]:
                return False
            want = {"-", "0"}
        else:
            if ia[0] > ib[1] or ib[0] > ia[1]:
                return False
            want = {"0"}
        p = padd(self.nf(a), self.nf(b), -1.0)
        r = self.canon_sign(p)
        if r[0] == "c":
            return r[1] in want
        pid, flip = r
        if flip:
            want = {{"-": "+", "+": "-", "0": "0"}[s] for s in want}
        allowed = self.allowed(pid)
        if allowed <= want:
            return True
        if not (allowed & want):
            return False
        return pid, frozenset(want)

    def allowed(self, pid):
        al = self.env.facts.get(pid, frozenset("-0+"))
        if self.env.dirs:
            dc = direction(pid)
            b = self.env.dirs.get(dc[0]) if dc else None
            if b:
                lo, la, hi, ha = b
                c = dc[1]
                if c > hi or (c == hi and not ha):
                    al = al & {"-"}
                elif c == hi:
                    al = al & {"-", "0"}
                if c < lo or (c == lo and not la):
                    al = al & {"+"}
                elif c == lo:
                    al = al & {"+", "0"}
        lo, hi = self.pival(pid)
        if lo > 0:
            al = al & {"+"}
        elif lo >= 0:
            al = al & {"0", "+"}
        if hi < 0:
            al = al & {"-"}
        elif hi <= 0:
            al = al & {"0", "-"}
        if not al:
            raise Infeasible()
        return al

    def indicator(self, pid, signs):
        """Polynomial that is 1 iff sign(p) in signs."""
        al = self.allowed(pid)
        signs = frozenset(signs) & al
        if signs == al:
            return pconst(1.0)
        if not signs:
            return {}
        if al == {"-", "+"}:
            zpoly = {}
        else:
            zpoly = {(0, ((atom("Z", pid), 1),)): 1.0}
        if al == {"-", "0"}:
            npoly = padd(pconst(1.0), zpoly, -1.0)
        elif al == {"0", "+"}:
            npoly = {}
        else:
            npoly = {(0, ((atom("N", pid), 1),)): 1.0}
        r = {}
        if "-" in signs:
            r = padd(r, npoly)
        if "0" in signs:
            r = padd(r, zpoly)
        if "+" in signs:
            pp = padd(padd(pconst(1.0), npoly, -1.0), zpoly, -1.0)
            r = padd(r, pp)
        return r

    def relu(self, p):
        """max(p, 0)"""
        r = self.canon_sign(p) if p else ("c", "0")
        if r[0] == "c":
            return p if r[1] == "+" else {}
        lo, hi = self.polyival(p)
        if lo >= -1e-12:      # max(p, 0) = p up to 1e-12
            return p
        if hi <= 1e-12:
            return {}
        pid, flip = r
        al = self.allowed(pid)
        if flip:
            al = frozenset({"-": "+", "+": "-", "0": "0"}[x] for x in al)
        if "-" not in al:
            return p
        if "+" not in al:
            return {}
        n = {(0, ((atom("N", pid), 1),)): 1.0}
        if flip:
            return self.pmul(p, n)
        return padd(p, self.pmul(p, n), -1.0)

    def relu_abs(self, p):
        return padd(pscale(self.relu(p), 2.0), p, -1.0)

    def bpoly(self, c):
        """Boolean term -> 0/1 polynomial"""
        r = self.memo.get(c.id)
        if r is not None:
            return r
        op = c.op
        if op == "true":
            r = pconst(1.0)
        elif op == "false":
            r = {}
        elif op == "not":
            r = padd(pconst(1.0), self.bpoly(c.args[0]), -1.0)
        elif op == "and":
            r = self.pmul(self.bpoly(c.args[0]), self.bpoly(c.args[1]))
        elif op == "or":
            a, b = self.bpoly(c.args[0]), self.bpoly(c.args[1])
            r = padd(padd(a, b), self.pmul(a, b), -1.0)
        elif op == "bvar":
            v = self.env.facts.get(c.val)
            if v is None:
                r = {(0, ((atom("N", intern_poly({(0, ((atom("var", c.val), 1),)): 1.0})), 1),)): 1.0}
            else:
                r = pconst(1.0 if v else 0.0)
        else:
            s = self.literal(c)
            if s is True:
                r = pconst(1.0)
            elif s is False:
                r = {}
            else:
                r = self.indicator(*s)
        self.memo[c.id] = r
        return r

    # ---------------- main ------------------------------------------------------------------
    def nf(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        for n in T.topo([t]):
            if n.id not in self.memo and n.sort == "r":
                self.memo[n.id] = self._nf(n)
        return self.memo[t.id]

    def _nf(self, t):
        op, a = t.op, t.args
        m = self.memo
        if op == "const":
            if t.val != t.val:
                return {(0, ((atom("nan", "nan"), 1),)): 1.0}
            if math.isinf(t.val):
                return {(0, ((atom("nan", "inf"), 1),)): 1.0 if t.val > 0 else -1.0}
            return pconst(t.val)
        if op == "var":
            b = self.env.box.get(t.val)
            if b and b[0] == b[1]:
                return pconst(b[0])
            return {(0, ((atom("var", t.val), 1),)): 1.0}
        if op == "add":
            return padd(m[a[0].id], m[a[1].id])
        if op == "mul":
            return self.pmul(m[a[0].id], m[a[1].id])
        if op == "div":
            return self.pmul(m[a[0].id], self.ppow(m[a[1].id], -1))
        if op == "pow":
            if a[1].op == "const":
                return self.ppow(m[a[0].id], a[1].val)
            e = m[a[1].id]
            if is_pconst(e):
                return self.ppow(m[a[0].id], constval(e))
            return self.pexp(self.pmul(e, self.plog(m[a[0].id])))
        if op == "exp":
            return self.pexp(m[a[0].id])
        if op == "log":
            return self.plog(m[a[0].id])
        if op in ("sin", "cos", "tan", "tanh", "arctan", "floor"):
            p = m[a[0].id]
            if is_pconst(p):
                return pconst({"sin": math.sin, "cos": math.cos, "tan": math.tan, "tanh": math.tanh,
                               "arctan": math.atan, "floor": math.floor}[op](constval(p)))
            s = 1.0
            if op in ("sin", "cos") and CONST in p:          # multiples of a right angle
                k = round(p[CONST] / (math.pi / 2))
                if k and abs(p[CONST] - k * (math.pi / 2)) < 1e-13 * abs(k):
                    p = {x: c for x, c in p.items() if x != CONST}
                    if op == "sin":
                        k -= 1                               # sin(x) = cos(x - pi/2)
                    op, s = [("cos", 1.0), ("sin", -1.0), ("cos", -1.0), ("sin", 1.0)][k % 4]
            if op != "floor" and p[lead(p)] < 0:
                p = pscale(p, -1.0)
                if op != "cos":
                    s = -s
            return {(0, ((atom("fn", (op, intern_poly(self.clean(p)))), 1),)): s}
        if op == "max":
            p, q = m[a[0].id], m[a[1].id]
            return padd(q, self.relu(self.clean(padd(p, q, -1.0))))
        if op == "min":
            p, q = m[a[0].id], m[a[1].id]
            return padd(p, self.relu(self.clean(padd(p, q, -1.0))), -1.0)
        if op == "ite":
            c = self.bpoly(a[0])
            if is_pconst(c):
                return m[a[1].id] if constval(c) > 0.5 else m[a[2].id]
            p, q = m[a[1].id], m[a[2].id]
            return padd(q, self.pmul(c, padd(p, q, -1.0)))
        if op == "pwl":
            xp, fp = t.val
            x = m[a[0].id]
            r = pconst(fp[0])
            prev = 0.0
            for i in range(len(xp)):
                s = (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i]) if i + 1 < len(xp) else 0.0
                if s != prev:
                    r = padd(r, pscale(self.relu(padd(x, pconst(xp[i]), -1.0)), s - prev))
                prev = s
            return r
        if op == "fn":
            return {(0, ((atom("fn", (t.val,) + tuple(intern_poly(self.clean(m[x.id])) for x in a)), 1),)): 1.0}
        raise T.Unsupported("normal form of " + op)

    # ---------------- zero test ---------------------------------------------------------------
    def bound(self, p):
        b = 0.0
        for m, c in p.items():
            lo, hi = self.mival(m)
            b += abs(c) * max(abs(lo), abs(hi)) if c else 0.0
            if b != b:
                return INF
        return b

    def is_small(self, p, tol):
        if not p:
            return True
        if any(ATOMS[i][0] == "nan" for m in p for i, _ in m[1]):
            return False
        return self.bound(p) <= tol

    def reduce_zero(self, d):
        """d modulo the linear polynomials this path says are zero."""
        for pid, signs in self.env.facts.items():
            if signs != {"0"} or len(POLYS[pid]) < 2:
                continue
            q = POLYS[pid]
            if any(m != CONST and (m[0] or len(m[1]) != 1 or m[1][0][1] != 1) for m in q):
                continue
            xm = lead(q)
            x = xm[1][0][0]
            hit = [m for m in d if any(i == x and isinstance(e, int) and 0 < e < 9 for i, e in m[1])]
            if not hit:
                continue
            val = pscale({m: c for m, c in q.items() if m != xm}, -1.0 / q[xm])
            r = {m: c for m, c in d.items() if m not in hit}
            for m in hit:
                e = dict(m[1])[x]
                t = {(m[0], tuple(z for z in m[1] if z[0] != x)): d[m]}
                for _ in range(e):
                    t = self.pmul(t, val)
                r = padd(r, t)
            d = r
        return d

    def clear_denominators(self, p):
        """Multiply by positive powers so that no negative powers of base atoms remain (zero test only)."""
        mult = []
        for _ in range(6):
            neg = {}
            for m in p:
                for i, e in m[1]:
                    if e < 0 and ATOMS[i][0] in ("base", "var", "fn"):
                        neg[i] = min(neg.get(i, 0), e)
            if not neg:
                return p, mult
            i, e = min(neg.items())
            mult.append((i, e))
            q = {}
            for m, c in p.items():
                d = dict(m[1])
                ne = _r(d.get(i, 0) - e)
                d.pop(i, None)
                if ne:
                    d[i] = ne
                q[(m[0], tuple(sorted(d.items())))] = q.get((m[0], tuple(sorted(d.items()))), 0.0) + c
            p = self.clean(self._fix(q))
            if not p:
                return p, mult
        return p, mult


def simplify_inds(inds):
    """Product of indicator atoms: idempotence and single-variable implications; None if the product is 0."""
    res = list(dict.fromkeys(inds))
    byp = {}
    for i in res:
        byp.setdefault(ATOMS[i][1], set()).add(ATOMS[i][0])
    for s in byp.values():
        if len(s) == 2:
            return None
    lin = []
    for i in res:
        lin.append((i, ATOMS[i][0], direction(ATOMS[i][1])))
    drop = set()
    for x in range(len(lin)):
        for y in range(len(lin)):
            if x == y or lin[x][2] is None or lin[y][2] is None or lin[x][2][0] != lin[y][2][0]:
                continue
            (i, kx, (n, cx)), (j, ky, (_, cy)) = lin[x], lin[y]
            if kx == "N" and ky == "N" and cx < cy:
                drop.add(j)            # v<cx implies v<cy
            elif kx == "Z" and ky == "N":
                if cx < cy:
                    drop.add(j)
                else:
                    return None
            elif kx == "Z" and ky == "Z" and cx != cy:
                return None
    return [i for i in res if i not in drop]


def indicator_pids(p, seen=None, acc=None, depth=0):
    """pids of indicators occurring (deeply) in a poly, with the nesting depth."""
    seen = set() if seen is None else seen
    acc = {} if acc is None else acc
    for m in p:
        if m[0] and m[0] not in seen:
            seen.add(m[0])
            indicator_pids(POLYS[m[0]], seen, acc, depth + 1)
        for i, _ in m[1]:
            kind, d = ATOMS[i]
            if kind in ("N", "Z"):
                acc[d] = max(acc.get(d, 0), depth)
                if d not in seen:
                    seen.add(d)
                    indicator_pids(POLYS[d], seen, acc, depth + 1)
            elif kind in ("log", "base"):
                if d not in seen:
                    seen.add(d)
                    indicator_pids(POLYS[d], seen, acc, depth + 1)
            elif kind == "fn":
                for q in d[1:]:
                    if q not in seen:
                        seen.add(q)
                        indicator_pids(POLYS[q], seen, acc, depth + 1)
    return acc


class Budget:
    def __init__(self, n):
        self.n = n


def _group(m):
    return m[0], tuple(x for x in m[1] if ATOMS[x[0]][0] != "var")


def denoise(d, pa, pb, nz, tol):
    """Drop monomials whose coefficient is floating-point noise (1e-13) next to the coefficients of the
    same exponential/power factor in either side, provided that what is dropped stays below the tolerance."""
    if not d:
        return d
    big = {}
    for p in (pa, pb):
        for m, c in p.items():
            g = _group(m)
            if abs(c) > big.get(g, 0.0):
                big[g] = abs(c)
    drop = {m for m, c in d.items() if abs(c) <= 1e-13 * big.get(_group(m), 0.0)}
    if not drop or not sum(nz._mag(m, d[m]) for m in drop) <= tol:
        return d
    return {m: c for m, c in d.items() if m not in drop}


class Why(str):
    """Text of a residual that could not be shown to vanish; .poly is the residual itself."""
    def __new__(cls, d):
        o = str.__new__(cls, "residual: " + (show_poly(d) if d is not None else "too big"))
        o.poly = d
        return o


def poly_vars(p, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    for m in p:
        if m[0] and m[0] not in seen:
            seen.add(m[0])
            poly_vars(POLYS[m[0]], acc, seen)
        for i, _ in m[1]:
            kind, d = ATOMS[i]
            if kind == "var":
                acc.add(d)
            elif kind in ("log", "base", "N", "Z"):
                if d not in seen:
                    seen.add(d)
                    poly_vars(POLYS[d], acc, seen)
            elif kind == "fn":
                for q in d[1:]:
                    if isinstance(q, int) and q not in seen:
                        seen.add(q)
                        poly_vars(POLYS[q], acc, seen)
    return acc


def prove_equal(a, b, env, tol=1e-7, budget=None, stats=None, denom=True):
    """Prove |a - b| <= tol over env.  Returns (True, None) or (False, reason)."""
    budget = budget or Budget(400)
    if budget.n <= 0:
        return False, "case-split budget exhausted"
    budget.n -= 1
    if stats is not None:
        stats["cases"] = stats.get("cases", 0) + 1
    nz = env.nz
    try:
        pa, pb = nz.nf(a), nz.nf(b)
        d = denoise(nz.clean(padd(pa, pb, -1.0)), pa, pb, nz, tol)
    except TooBig:
        d = None
    if d is not None:
        d = nz.reduce_zero(d)
        if nz.is_small(d, tol):
            return True, None
        try:
            d2, mult = nz.clear_denominators(d) if denom else (None, None)
            if mult:
                bd = nz.bound(d2) if d2 else 0.0
                for i, e in mult:
                    lo, hi = _ipow(nz.aival(i), e)
                    bd *= max(abs(lo), abs(hi))
                if not d2 or bd <= tol:
                    return True, None
        except TooBig:
            pass
        pids = indicator_pids(d)
    else:
        pids = {}
        for t in T.topo([a, b]):
            if t.op in ("lt", "le", "eq"):
                try:
                    s = nz.literal(t)
                except TooBig:
                    continue
                if not isinstance(s, bool):
                    pids[s[0]] = 0
    if not pids:
        return False, Why(d)

    def rank(x):
        return (0 if single_var_linear(POLYS[x]) else 1, len(indicator_pids(POLYS[x])), len(POLYS[x]), x)
    for pid in sorted(pids, key=rank):
        al = nz.allowed(pid)
        if len(al) > 1:
            break
    else:
        return False, Why(d)
    for s in sorted(al):
        try:
            e2 = env.assume_pid(pid, s)
        except Infeasible:
            continue
        ok, why = prove_equal(a, b, e2, tol, budget, stats, denom)
        if not ok:
            return False, why
    return True, None


def common_denominator(nz, p, tol):
    """p >= -tol from its numerator: p = scale * q with a positive scale"""
    q, mult = nz.clear_denominators(p)
    hi = 1.0

    def factor(a, e):
        nonlocal hi
        lo, up = _ipow(a, e)
        hi *= up
        return a[0] > 0
    if not all(factor(nz.aival(i), e) for i, e in mult) or not q:
        return not q
    for i in sorted({i for m in q for i, _ in m[1]}):
        if ATOMS[i][0] in ("var", "base", "fn") and nz.aival(i)[0] > 0:
            e = min(dict(m[1]).get(i, 0) for m in q)
            if e > 0:
                factor(nz.aival(i), e)
                q = nz.pmul(q, {(0, ((i, -e),)): 1.0})
    m0 = max(q, key=lambda m: len(POLYS[m[0]]) if m[0] else 0)[0]
    if m0:
        hi *= _iexp(nz.pival(m0))[1]
        q = nz.pmul(q, {(intern_poly(pscale(POLYS[m0], -1.0)), ()): 1.0})
    lo = nz.polyival(q)[0]
    return lo >= 0 or (lo == lo and lo * hi >= -tol)


def prove_ge(g, env, tol, budget):
    """g >= -tol over env: the normal form's range, with case splits on its indicators."""
    if budget.n <= 0:
        return False
    budget.n -= 1
    nz = env.nz
    try:
        p = nz.reduce_zero(nz.nf(g))
        lo, hi = nz.polyival(p)
        if lo >= -tol:
            return True
        if hi < -tol:
            return False
        r = nz.canon_sign(p)
        if r[0] == "c":
            if r[1] in "0+":
                return True
        elif nz.allowed(r[0]) <= ({"0", "-"} if r[1] else {"0", "+"}):
            return True
        pids = indicator_pids(p)
        for pid in sorted(pids, key=lambda x: (0 if single_var_linear(POLYS[x]) else 1, len(POLYS[x]), x)):
            al = nz.allowed(pid)
            if len(al) > 1:
                break
        else:
            return common_denominator(nz, p, tol)
    except (TooBig, RecursionError):
        return False
    for s in sorted(al):
        try:
            e2 = env.assume_pid(pid, s)
        except Infeasible:
            continue
        if not prove_ge(g, e2, tol, budget):
            return False
    return True


def show_mono(m, depth=2):
    parts = []
    for i, e in m[1]:
        kind, d = ATOMS[i]
        if kind == "var":
            s = str(d)
        elif kind in ("log", "base", "N", "Z"):
            s = "%s(%s)" % ({"base": ""}.get(kind, kind), show_poly(POLYS[d], depth - 1) if depth else "..")
        elif kind == "fn":
            s = "%s(%s)" % (d[0], ",".join(show_poly(POLYS[q], depth - 1) if depth else ".." for q in d[1:]))
        else:
            s = str(d)
        parts.append(s if e == 1 else "%s^%g" % (s, e))
    if m[0]:
        parts.append("exp(%s)" % (show_poly(POLYS[m[0]], depth - 1) if depth else ".."))
    return "*".join(parts) or "1"


def show_poly(p, depth=2, limit=6):
    if not p:
        return "0"
    it = sorted(p.items(), key=lambda kv: -abs(kv[1]))
    s = " + ".join("%.6g*%s" % (c, show_mono(m, depth)) for m, c in it[:limit])
    if len(it) > limit:
        s += " + ... (%d terms)" % len(it)
    return s


def _quad(c, d, iv):
    """range of c x^2 + d x over iv (outward by a relative 1e-12)"""
    lo, hi = iv
    f = lambda x: (c * x * x + d * x) if abs(x) != INF else INF * (1 if c > 0 else -1)
    v = [f(lo), f(hi)]
    k = -d / (2 * c)
    if lo < k < hi:
        v.append(f(k))
    e = 1e-12 * max([abs(t) for t in v if abs(t) != INF] or [0]) + 1e-12 * abs(d * d / c)
    return min(v) - e, max(v) + e


# scalar interval helpers ---------------------------------------------------------------------

def _w(lo, hi):
    if lo != lo:
        lo = -INF
    if hi != hi:
        hi = INF
    return lo - abs(lo) * 4e-16 if abs(lo) != INF else lo, hi + abs(hi) * 4e-16 if abs(hi) != INF else hi


def _z(a, b):
    return 0.0 if a == 0 or b == 0 else a * b


def _imul(a, b):
    p = (_z(a[0], b[0]), _z(a[0], b[1]), _z(a[1], b[0]), _z(a[1], b[1]))
    return _w(min(p), max(p))


def _iinv(a):
    lo, hi = a
    if lo > 0 or hi < 0:
        return _w(1 / hi if hi else INF, 1 / lo if lo else INF) if abs(lo) != INF and abs(hi) != INF else \
            (min(_inv1(lo), _inv1(hi)), max(_inv1(lo), _inv1(hi)))
    if lo == 0 and hi > 0:
        return (_inv1(hi), INF)
    if hi == 0 and lo < 0:
        return (-INF, _inv1(lo))
    return (-INF, INF)


def _inv1(x):
    return 0.0 if abs(x) == INF else 1.0 / x


def _p(x, e):
    if x == INF:
        return INF if e > 0 else 0.0
    try:
        return x ** e
    except OverflowError:
        return INF
    except ZeroDivisionError:
        return INF


def _ipow(a, e):
    lo, hi = a
    if e == 1:
        return a
    if e == int(e):
        n = int(e)
        if n < 0:
            return _iinv(_ipow(a, -n))
        if n % 2:
            return _w(_p(lo, n) if lo != -INF else -INF, _p(hi, n))
        m = max(_p(abs(lo), n), _p(abs(hi), n))
        l = 0.0 if lo <= 0 <= hi else min(_p(abs(lo), n), _p(abs(hi), n))
        return _w(l, m)
    l, h = max(lo, 0.0), max(hi, 0.0)
    if e > 0:
        return _w(_p(l, e), _p(h, e))
    return _w(_p(h, e), _p(l, e))


def _iexp(a):
    def f(x):
        if x == -INF:
            return 0.0
        try:
            return math.exp(x)
        except OverflowError:
            return INF
    l, h = f(a[0]), f(a[1])
    return l * (1 - 4e-15), h * (1 + 4e-15)


def _ilog(a):
    lo = math.log(a[0]) if a[0] > 0 and a[0] != INF else (-INF if a[0] <= 0 else INF)
    hi = INF if a[1] == INF else (math.log(a[1]) if a[1] > 0 else -INF)
    return _w(lo, hi)


def _icos(a):
    lo, hi = a
    if not (math.isfinite(lo) and math.isfinite(hi)) or hi - lo >= 2 * math.pi:
        return (-1.0, 1.0)
    c0, c1 = math.cos(lo), math.cos(hi)
    l, h = min(c0, c1) - 1e-15, max(c0, c1) + 1e-15
    if math.floor(hi / (2 * math.pi)) >= math.ceil(lo / (2 * math.pi)):
        h = 1.0
    if math.floor((hi - math.pi) / (2 * math.pi)) >= math.ceil((lo - math.pi) / (2 * math.pi)):
        l = -1.0
    return (max(l, -1.0), min(h, 1.0))
