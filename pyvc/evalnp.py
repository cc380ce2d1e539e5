"""Numeric and interval evaluation of term DAGs, vectorised over sample points / boxes."""
import math

import numpy as np
from . import terms as T

UN = {"exp": np.exp, "log": np.log, "sin": np.sin, "cos": np.cos, "tan": np.tan, "tanh": np.tanh,
      "arctan": np.arctan, "floor": np.floor}


def evaluate(roots, env, n):
    """Evaluate terms at n points; env: name -> array of n values. Returns list of arrays."""
    memo = evaluate_all(roots, env, n, {})
    return [np.broadcast_to(np.asarray(memo[r.id]), (n,)) for r in roots]


def evaluate_all(roots, env, n, memo):
    """id -> values, for every subterm (memo is extended in place)"""
    with np.errstate(all="ignore"):
        for t in T.topo(roots):
            if t.id in memo:
                continue
            op, a = t.op, t.args
            if op == "const":
                r = t.val
            elif op in ("var", "bvar"):
                r = env[t.val]
            elif op == "true":
                r = np.bool_(True)
            elif op == "false":
                r = np.bool_(False)
            elif op == "fn":
                f = FN.get(t.val)
                if f is None:
                    raise T.Unsupported("evaluation of " + t.val)
                r = f(*[memo[x.id] for x in a])
            else:
                v = [memo[x.id] for x in a]
                if op == "add":
                    r = v[0] + v[1]
                elif op == "mul":
                    r = v[0] * v[1]
                elif op == "div":
                    r = np.divide(v[0], v[1])
                elif op == "pow":
                    r = np.power(np.asarray(v[0], float), v[1])
                elif op in UN:
                    r = UN[op](v[0])
                elif op == "max":
                    r = np.maximum(v[0], v[1])
                elif op == "min":
                    r = np.minimum(v[0], v[1])
                elif op == "ite":
                    r = np.where(v[0], v[1], v[2])
                elif op == "pwl":
                    r = np.interp(v[0], *t.val)
                elif op == "lt":
                    r = np.less(v[0], v[1])
                elif op == "le":
                    r = np.less_equal(v[0], v[1])
                elif op == "eq":
                    r = np.equal(v[0], v[1])
                elif op == "and":
                    r = np.logical_and(v[0], v[1])
                elif op == "or":
                    r = np.logical_or(v[0], v[1])
                elif op == "not":
                    r = np.logical_not(v[0])
                else:
                    raise T.Unsupported("evaluation of " + op)
            memo[t.id] = r
    return memo


FN = {}
for _k in range(0, 13):
    FN["round%d" % _k] = (lambda k: (lambda x: np.round(x, k)))(_k)

# ---------------------------------------------------------------------------------------------------
# intervals
# ---------------------------------------------------------------------------------------------------
EPS = 4e-16


def _out(lo, hi):
    lo = lo - np.abs(lo) * EPS
    hi = hi + np.abs(hi) * EPS
    return lo, hi


def _mulz(a, b):
    r = a * b
    return np.where((a == 0) | (b == 0), 0.0, r)


def imul(a, b):
    p = [_mulz(x, y) for x in a for y in b]
    lo = np.minimum(np.minimum(p[0], p[1]), np.minimum(p[2], p[3]))
    hi = np.maximum(np.maximum(p[0], p[1]), np.maximum(p[2], p[3]))
    bad = np.isnan(lo) | np.isnan(hi)
    if np.any(bad):
        lo = np.where(bad, -np.inf, lo)
        hi = np.where(bad, np.inf, hi)
    return _out(lo, hi)


def iinv(a):
    lo, hi = a
    with np.errstate(all="ignore"):
        pos = lo > 0
        neg = hi < 0
        rl = np.where(pos | neg, 1.0 / np.where(hi == 0, 1, hi), -np.inf)
        rh = np.where(pos | neg, 1.0 / np.where(lo == 0, 1, lo), np.inf)
        # one-sided zero
        zl = (lo == 0) & (hi > 0)
        rl = np.where(zl, 1.0 / np.where(hi == 0, 1, hi), rl)
        zh = (hi == 0) & (lo < 0)
        rh = np.where(zh, 1.0 / np.where(lo == 0, 1, lo), rh)
    return _out(rl, rh)


def ipow_const(a, e):
    lo, hi = a
    with np.errstate(all="ignore"):
        if e == int(e):
            n = int(e)
            if n < 0:
                return iinv(ipow_const(a, -n))
            if n % 2 == 1:
                return _out(lo ** n, hi ** n)
            m = np.maximum(np.abs(lo), np.abs(hi)) ** n
            l = np.where((lo <= 0) & (hi >= 0), 0.0, np.minimum(np.abs(lo), np.abs(hi)) ** n)
            return _out(l, m)
        l0 = np.maximum(lo, 0.0)
        h0 = np.maximum(hi, 0.0)
        if e > 0:
            return _out(np.power(l0, e), np.power(h0, e))
        return _out(np.where(h0 > 0, np.power(h0, e), np.inf), np.where(l0 > 0, np.power(l0, e), np.inf))


def iexp(a):
    with np.errstate(all="ignore"):
        lo, hi = np.exp(a[0]), np.exp(a[1])
    return np.maximum(lo * (1 - 1e-15 * (1 + np.minimum(np.abs(a[0]), 1e3))), 0), hi * (1 + 1e-15 * (1 + np.minimum(np.abs(a[1]), 1e3)))


def ilog(a):
    with np.errstate(all="ignore"):
        lo = np.where(a[0] > 0, np.log(np.where(a[0] > 0, a[0], 1)), -np.inf)
        hi = np.where(a[1] > 0, np.log(np.where(a[1] > 0, a[1], 1)), -np.inf)
    return lo - 1e-15 - np.abs(lo) * EPS, hi + 1e-15 + np.abs(hi) * EPS


def icos(a):
    lo, hi = a
    with np.errstate(all="ignore"):
        c0, c1 = np.cos(lo), np.cos(hi)
        l, h = np.minimum(c0, c1), np.maximum(c0, c1)
        w = hi - lo
        # contains k*2pi -> max 1 ; contains pi + k*2pi -> min -1
        hasmax = np.floor(hi / (2 * np.pi)) >= np.ceil(lo / (2 * np.pi))
        hasmin = np.floor((hi - np.pi) / (2 * np.pi)) >= np.ceil((lo - np.pi) / (2 * np.pi))
        h = np.where(hasmax | (w >= 2 * np.pi) | ~np.isfinite(w), 1.0, h + 1e-15)
        l = np.where(hasmin | (w >= 2 * np.pi) | ~np.isfinite(w), -1.0, l - 1e-15)
    return np.maximum(l, -1.0), np.minimum(h, 1.0)


def ieval(roots, box, n, undefined=None):
    """Interval evaluation: box name -> (lo array, hi array). Booleans are (may_be_false, may_be_true)-style
    pairs (lo, hi) in {0,1}: lo=1 surely true, hi=0 surely false.  `undefined`, if a list, collects
    (term id, mask) where a partial operation may be applied outside its domain."""
    memo = {}
    one = np.ones(n)

    def K(v):
        return (one * v, one * v)

    with np.errstate(all="ignore"):
        for t in T.topo(roots):
            op, a = t.op, t.args
            if op == "const":
                if t.val != t.val:
                    r = (-np.inf * one, np.inf * one)
                else:
                    r = K(t.val)
            elif op == "var":
                r = box[t.val]
            elif op == "bvar":
                r = (0 * one, one)
            elif op == "true":
                r = K(1.0)
            elif op == "false":
                r = K(0.0)
            else:
                v = [memo[x.id] for x in a]
                if op == "add":
                    r = _out(v[0][0] + v[1][0], v[0][1] + v[1][1])
                    r = (np.where(np.isnan(r[0]), -np.inf, r[0]), np.where(np.isnan(r[1]), np.inf, r[1]))
                elif op == "mul":
                    if a[0] is a[1]:
                        r = ipow_const(v[0], 2.0)
                    elif a[0].op == "const":
                        c = a[0].val
                        r = _out(_mulz(c, v[1][0]), _mulz(c, v[1][1])) if c >= 0 else _out(_mulz(c, v[1][1]), _mulz(c, v[1][0]))
                    else:
                        r = imul(v[0], v[1])
                elif op == "div":
                    if a[1].op == "const" and a[1].val != 0:
                        c = a[1].val
                        r = _out(v[0][0] / c, v[0][1] / c) if c > 0 else _out(v[0][1] / c, v[0][0] / c)
                    else:
                        r = imul(v[0], iinv(v[1]))
                elif op == "pow":
                    if a[1].op == "const":
                        r = ipow_const(v[0], a[1].val)
                    else:
                        r = iexp(imul(v[1], ilog(v[0])))
                elif op == "exp":
                    r = iexp(v[0])
                elif op == "log":
                    r = ilog(v[0])
                elif op == "cos":
                    r = icos(v[0])
                elif op == "sin":
                    r = icos((v[0][0] - np.pi / 2, v[0][1] - np.pi / 2))
                    r = (r[0] - 1e-15, r[1] + 1e-15)
                elif op == "tan":
                    ok = (v[0][0] > -np.pi / 2) & (v[0][1] < np.pi / 2)
                    r = (np.where(ok, np.tan(v[0][0]) - 1e-15, -np.inf), np.where(ok, np.tan(v[0][1]) + 1e-15, np.inf))
                elif op in ("tanh", "arctan"):
                    r = _out(UN[op](v[0][0]), UN[op](v[0][1]))
                elif op == "floor":
                    r = (np.floor(v[0][0]), np.floor(v[0][1]))
                elif op == "max":
                    r = (np.maximum(v[0][0], v[1][0]), np.maximum(v[0][1], v[1][1]))
                elif op == "min":
                    r = (np.minimum(v[0][0], v[1][0]), np.minimum(v[0][1], v[1][1]))
                elif op == "ite":
                    c = v[0]
                    st, sf = c[0] == 1, c[1] == 0
                    lo = np.where(st, v[1][0], np.where(sf, v[2][0], np.minimum(v[1][0], v[2][0])))
                    hi = np.where(st, v[1][1], np.where(sf, v[2][1], np.maximum(v[1][1], v[2][1])))
                    r = (lo, hi)
                elif op == "pwl":
                    xp, fp = (np.array(q) for q in t.val)
                    f0, f1 = np.interp(v[0][0], xp, fp), np.interp(v[0][1], xp, fp)
                    lo, hi = np.minimum(f0, f1), np.maximum(f0, f1)
                    for x, f in zip(xp, fp):
                        ins = (v[0][0] <= x) & (x <= v[0][1])
                        lo = np.where(ins, np.minimum(lo, f), lo)
                        hi = np.where(ins, np.maximum(hi, f), hi)
                    r = _out(lo, hi)
                elif op == "lt":
                    r = ((v[0][1] < v[1][0]) * 1.0, (v[0][0] < v[1][1]) * 1.0)
                elif op == "le":
                    r = ((v[0][1] <= v[1][0]) * 1.0, (v[0][0] <= v[1][1]) * 1.0)
                elif op == "eq":
                    same = (v[0][0] == v[0][1]) & (v[1][0] == v[1][1]) & (v[0][0] == v[1][0])
                    r = (same * 1.0, ((v[0][0] <= v[1][1]) & (v[1][0] <= v[0][1])) * 1.0)
                elif op == "and":
                    r = (np.minimum(v[0][0], v[1][0]), np.minimum(v[0][1], v[1][1]))
                elif op == "or":
                    r = (np.maximum(v[0][0], v[1][0]), np.maximum(v[0][1], v[1][1]))
                elif op == "not":
                    r = (1 - v[0][1], 1 - v[0][0])
                elif op == "fn":
                    if t.val.startswith("round"):
                        k = 0.5 * 10.0 ** -int(t.val[5:])
                        r = (v[0][0] - k, v[0][1] + k)
                    else:
                        r = (-np.inf * one, np.inf * one)
                else:
                    raise T.Unsupported("interval " + op)
            memo[t.id] = r
    return [memo[r.id] for r in roots], memo


def prove_nonneg(goals, box, maxboxes=200000, maxdepth=40, batch=4096, tol=0.0, assume=()):
    """Prove every goal term >= -tol (all of `assume` holding) over the box by branch and prune.
    Returns (True, nboxes) or (False, dict var->value candidate region centre, nboxes)."""
    near = T.free_vars(list(goals))
    if near:                                # conditions on other variables do not matter here
        rest, grew = [(c, T.free_vars([c])) for c in assume], True
        while grew:
            more = {v for _, fv in rest if fv & near for v in fv} - near
            near, grew = near | more, bool(more)
        assume = [c for c, fv in rest if not fv or fv & near]
    names = sorted(T.free_vars(list(goals) + list(assume)))
    lo = np.array([[box[k][0] for k in names]], float)
    hi = np.array([[box[k][1] for k in names]], float)
    total = 0
    roots = list(goals) + list(assume)
    pend = [(lo, hi, 0)]
    ng = len(goals)
    if not names:
        (vals), _ = ieval(roots, {}, 1)
        ok = all(v[0][0] >= -tol for v in vals[:ng]) or any(v[1][0] == 0 for v in vals[ng:])
        return (True, {}, 1) if ok else (False, {}, 1)
    scale = np.where(hi[0] > lo[0], hi[0] - lo[0], 1.0)
    while pend:
        lo, hi, depth = pend.pop()
        if len(lo) > batch:
            pend.append((lo[batch:], hi[batch:], depth))
            lo, hi = lo[:batch], hi[:batch]
        n = len(lo)
        total += n
        vals, memo = ieval(roots, {k: (lo[:, i], hi[:, i]) for i, k in enumerate(names)}, n)
        ok = np.ones(n, bool)
        for v in vals[:ng]:
            ok &= v[0] >= -tol
        for v in vals[ng:]:
            ok |= v[1] == 0
        if ok.all():
            continue
        lo, hi = lo[~ok], hi[~ok]
        if total > maxboxes or depth > maxdepth:
            return False, dict(zip(names, (0.5 * (lo[0] + hi[0])).tolist())), total
        w = (hi - lo) / scale
        k = np.argmax(w, axis=1)
        mid = 0.5 * (lo + hi)
        r = np.arange(len(lo))
        l1, h1 = lo.copy(), hi.copy()
        l2, h2 = lo.copy(), hi.copy()
        h1[r, k] = mid[r, k]
        l2[r, k] = mid[r, k]
        pend.append((np.concatenate([l1, l2]), np.concatenate([h1, h2]), depth + 1))
    return True, {}, total


def _exp_cuts(roots, level):
    """exp subterms of two or more variables met first from the roots, or below `level` such terms"""
    fv = {}
    for t in T.topo(roots):
        fv[t.id] = frozenset([t.val]) if t.op in ("var", "bvar") else frozenset().union(*[fv[a.id] for a in t.args]) if t.args else frozenset()
    cuts, seen, stack = {}, set(), [(r, level) for r in roots]
    while stack:
        t, k = stack.pop()
        if (t.id, k) in seen or len(fv[t.id]) < 2:
            continue
        seen.add((t.id, k))
        if t.op == "exp":
            if k == 0:
                cuts[t.id] = t
                continue
            k -= 1
        stack.extend((a, k) for a in t.args)
    return cuts


def _factors(t):
    """t as (rest, exp node) when it is a product with an exp factor"""
    if t.op == "exp":
        return T.ONE, t
    if t.op == "mul":
        for a, b in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
            r, e = _factors(b)
            if e is not None:
                return T.mul(a, r), e
    return t, None


def _overexp(c, den, e):
    """c*e/den as c/(1+K*exp(-L)) when den = e+K"""
    if den.op == "add":
        for p, q in (den.args, den.args[::-1]):
            if p is e:
                return T.div(c, T.add(T.ONE, T.mul(q, T.exp(T.neg(e.args[0])))))
    return None


def _timesexp(t, e, depth=4):
    """e*t with e = exp(L) distributed to where it meets a reciprocal of e+K; None if it meets none"""
    if depth == 0:
        return None
    if t.op == "pow" and t.args[1].op == "const" and t.args[1].val == -1:
        return _overexp(T.ONE, t.args[0], e)
    if t.op == "div":
        return _overexp(t.args[0], t.args[1], e)
    if t.op == "mul":
        for a, b in (t.args, t.args[::-1]):
            r = _timesexp(b, e, depth - 1)
            if r is not None:
                return T.mul(a, r)
    if t.op == "add":
        r = [_timesexp(a, e, depth - 1) for a in t.args]
        if all(x is not None for x in r):
            return T.add(*r)
    return None


def tighten(roots):
    """c*E/(E+K) with E = exp(L) rewritten as c/(1+K*exp(-L)): equal, with one occurrence of E less"""
    memo = {}
    for t in T.topo(roots):
        if not t.args:
            memo[t.id] = t
            continue
        args = [memo[a.id] for a in t.args]
        r = None
        if t.op == "div":
            c, e = _factors(args[0])
            if e is not None:
                r = _overexp(c, args[1], e)
        elif t.op == "mul":
            for a, b in (args, args[::-1]):
                c, e = _factors(a)
                if e is not None:
                    r = _timesexp(b, e)
                    if r is not None:
                        r = T.mul(c, r)
                        break
        memo[t.id] = r if r is not None else T.rebuild(t, args)
    return [memo[r.id] for r in roots]


def _range(t, box, cells=150000):
    """Enclosure of a term over a box, from a grid of intervals"""
    names = sorted(T.free_vars([t]))
    n = max(2, int(cells ** (1.0 / len(names))))
    ed = [np.linspace(box[k][0], box[k][1], n + 1) for k in names]
    gl = np.meshgrid(*[e[:-1] for e in ed], indexing="ij")
    gh = np.meshgrid(*[e[1:] for e in ed], indexing="ij")
    (r,), _ = ieval([t], {k: (a.ravel(), b.ravel()) for k, a, b in zip(names, gl, gh)}, gl[0].size)
    return float(np.min(r[0])), float(np.max(r[1]))


def abstract_shared(roots, box, low):
    """Replace subterms of exactly two variables that occur more than once by fresh variables over their range"""
    fv, par = {}, {}
    order = T.topo(roots)
    for t in order:
        fv[t.id] = frozenset([t.val]) if t.op in ("var", "bvar") else frozenset().union(*[fv[a.id] for a in t.args]) if t.args else frozenset()
        for a in t.args:
            par.setdefault(a.id, []).append(t)
    mm, nb, below = {}, dict(box), set()
    for t in order:
        if any(a.id in below for a in t.args):
            below.add(t.id)
        elif len(fv[t.id]) == 2 and t.args and t.op not in ("lt", "le", "eq", "and", "or", "not"):
            ps = par.get(t.id, ())
            if len(ps) >= 2 and (low or any(len(fv[p.id]) > 2 for p in ps)) and not any(t is r for r in roots):
                lo, hi = _range(t, box)
                if np.isfinite(lo) and np.isfinite(hi):
                    v = "$s%d" % len(mm)
                    mm[t.id] = T.var(v)
                    nb[v] = (lo, hi)
                    below.add(t.id)
    if not mm:
        return None
    for t in order:
        if t.id not in mm:
            mm[t.id] = t if not t.args else T.rebuild(t, [mm[a.id] for a in t.args])
    return [mm[r.id] for r in roots], nb


_proved = {}


def _prove_memo(goals, box, maxboxes, tol, asm):
    """prove_nonneg with its successes remembered (paths differing in inputs the goal lacks ask the same question)"""
    key = (tuple(g.id for g in goals), tuple(sorted(box.items())), tol, tuple(sorted(c.id for c in asm)))
    if key in _proved:
        return True, 0
    r, _, n = prove_nonneg(goals, box, maxboxes, 60, tol=tol, assume=asm)
    if r:
        if len(_proved) > 200000:
            _proved.clear()
        _proved[key] = goals
    return r, n


def prove_abstract(goals, box, maxboxes=400000, tol=0.0, assume=(), levels=3, maxvars=4):
    """prove_nonneg with subterms exp(A) of several variables replaced by exp(L), L a fresh variable ranging over an
    interval that contains A: sound (it only adds behaviours), and leaves far fewer variables."""
    roots = list(goals)
    total = 0
    for level in range(levels):
        cuts = _exp_cuts(roots, level)
        if not cuts or len(cuts) > 4:
            continue
        rg, _ = ieval([t.args[0] for t in cuts.values()], {k: (np.array([v[0]]), np.array([v[1]])) for k, v in box.items()}, 1)
        mm, pieces = {}, [dict(box)]
        for j, (t, r) in enumerate(zip(cuts.values(), rg)):
            lo, hi = max(float(r[0][0]), -1e300), min(float(r[1][0]), 1e300)
            mm[t.id] = T.exp(T.var("$l%d" % j))
            k = [lo] + [v for v in (-60.0, 60.0) if lo < v < hi] + [hi]
            pieces = [dict(b, **{"$l%d" % j: (p, q)}) for b in pieces for p, q in zip(k, k[1:])]
        for t in T.topo(roots):
            if t.id not in mm:
                mm[t.id] = t if not t.args else T.rebuild(t, [mm[a.id] for a in t.args])
        new = tighten([mm[r.id] for r in roots])
        left = T.free_vars(new)
        if len(left) > maxvars:
            continue
        asm = [c for c in assume if T.free_vars([c]) <= left]
        done = True
        for b in pieces:
            r, n = _prove_memo(new, {k: b[k] for k in left | T.free_vars(asm)}, maxboxes // 8, tol, asm)
            total += n
            if not r:
                for low in (True, False):
                    sh = abstract_shared(new, b, low)
                    if not sh:
                        continue
                    left2 = T.free_vars(sh[0])
                    asm2 = [c for c in assume if T.free_vars([c]) <= left2]
                    r, n = _prove_memo(sh[0], {k: sh[1][k] for k in left2}, maxboxes // 8, tol, asm2)
                    total += n
                    if r:
                        break
            if not r:
                r, n = _prove_memo(new, {k: b[k] for k in left | T.free_vars(asm)}, maxboxes, tol, asm)
                total += n
            if not r:
                done = False
                break
        if done:
            return True, total
    return False, total


_caps = {}
FAR = 1e18      # largest magnitude of a quotient of two doubles of ordinary size whose denominator is not zero


def within(t, box, bound, assume=(), cap=50.0, maxboxes=20000, prove=None):
    """|t| <= bound over the box, by one interval evaluation in which conditional subterms that are too wide for it are
    replaced by their own bounds (each shown by branch and prune)"""
    nb, mm, total = dict(box), {}, 0
    rng = {}
    for s in T.topo([t]):
        if s.op in ("var", "bvar"):
            mm[s.id] = s
        elif not s.args:
            mm[s.id] = s
        else:
            mm[s.id] = T.rebuild(s, [mm[a.id] for a in s.args])
        if s.op not in ("ite", "min", "max", "log") and not (s.op == "div" and s.args[1].op != "const"):
            continue
        r = mm[s.id]
        v, _ = ieval([r], {k: (np.array([nb[k][0]]), np.array([nb[k][1]])) for k in T.free_vars([r])}, 1)
        lo, hi = float(v[0][0][0]), float(v[0][1][0])
        if -cap <= lo and hi <= cap:
            continue
        if s.op == "log":
            if prove and np.isfinite(hi):
                for c in (1e-6, 1e-12):
                    if prove(T.sub(s.args[0], T.const(c))):
                        nb["$c%d" % s.id] = (math.log(c) - 1e-9, max(hi, math.log(c)))
                        mm[s.id] = T.var("$c%d" % s.id)
                        break
            continue
        b = {k: nb[k] for k in T.free_vars([r])}
        if len(b) > 4:
            continue
        asm = [c for c in assume if T.free_vars([c]) <= set(b)]
        key = (r.id, tuple(sorted(b.items())), tuple(c.id for c in asm))
        if key not in _caps:
            l, h = lo, hi
            if s.op == "div":
                p, q = s.args
                if prove and (prove_nonneg([T.sub(q, T.const(1e-12))], {k: box[k] for k in T.free_vars([q])}, 2000, 30)[0]
                              or prove(T.sub(q, T.const(1e-12)))):
                    if h > cap:
                        h = next((c for c in (1.0, 2.0, cap) if prove(T.sub(T.mul(T.const(c), q), p))), h)
                    if l < -cap:
                        l = next((-c for c in (0.0, 1.0, 2.0, cap) if prove(T.add(T.mul(T.const(c), q), p))), l)
            if l < -cap or h > cap:
                for c in (1.0, 2.0, cap):
                    ok, _, n = prove_nonneg([T.sub(T.const(c), r), T.add(T.const(c), r)], b, maxboxes, 140, assume=asm)
                    total += n
                    if ok:
                        l, h = max(l, -c), min(h, c)
                        break
            if s.op == "div":
                l, h = max(l, -FAR), min(h, FAR)
            _caps[key] = ((l, h), r)
        l, h = _caps[key][0]
        if l > lo or h < hi:
            nb["$c%d" % s.id] = (max(l, lo), min(h, hi))
            mm[s.id] = T.var("$c%d" % s.id)
    r = mm[t.id]
    fv = T.free_vars([r])
    ok, _, n = prove_nonneg([T.sub(T.const(bound), r), T.add(T.const(bound), r)], {k: nb[k] for k in fv}, 2000, 30)
    return ok, total + n
