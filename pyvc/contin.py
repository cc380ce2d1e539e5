"""Continuity of a value that a body computes by cases.

The values of all paths are merged into one term (a tree of the branch conditions); every condition in it, on the way or inside
the value, has a boundary.  At each boundary the value with the condition decided as below, at and above the boundary is
shown to be the same up to the tolerance, for all inputs on the boundary.  Pieces are made of continuous operations, so this is
continuity everywhere."""
import math
import types

import numpy as np

from . import terms as T, evalnp, norm
from .norm import Env, Infeasible, TooBig, Budget


def merge(leaves):
    """leaves: [(decisions, term)] with decisions [(cond, bool)...] of one exploration -> one term"""
    def build(ls):
        if len(ls) == 1:
            return ls[0][1]
        q = next((l[0][0][0] for l in ls if l[0]), None)
        if q is None:
            return max(ls, key=lambda l: l[2])[1]           # the same inputs: the one that spelled out the most conditions
        cut = lambda v: [([d for d in l[0] if d[0] is not q], l[1], l[2]) for l in ls if all(d[0] is not q or d[1] == v for d in l[0])]
        yes, no = cut(True), cut(False)
        if not yes or not no:
            return build(yes or no)
        return T.ite(q, build(yes), build(no))
    return build([(ds, t, len(ds)) for ds, t in leaves])


class Boundary:
    __slots__ = ("d", "atoms", "var", "sol", "key")

    def __init__(self, key, d):
        self.key, self.d, self.atoms, self.var, self.sol = key, d, [], None, None


def solve(d, box):
    """d == 0 as var := term, for a variable that d is linear in"""
    fv = sorted(T.free_vars([d]))
    for v in fv:
        c = T.diff(d, v)
        if c.op == "const" and c.val != 0:
            d0, = T.substitute([d], {v: T.ZERO})
            sol = T.div(T.neg(d0), c)
            return v, sol
    return None, None


def resolutions(d, env, left=4):
    """The ways the minima, maxima and cases inside d can go: [(d without them, conditions)]"""
    for t in T.topo([d]):
        if t.op in ("min", "max", "ite") and not any(u.op in ("min", "max", "ite") for a in t.args for u in T.topo([a])):
            if not left:
                return None
            if t.op == "ite":
                q, p, n = t.args
            else:
                q = T.le(t.args[0], t.args[1])
                p, n = t.args if t.op == "min" else t.args[::-1]
            out = []
            for v in (True, False):
                try:
                    e = env.assume(q, v)
                except Infeasible:
                    continue
                r = resolutions(T.substitute([d], {t.id: p if v else n})[0], e, left - 1)
                if r is None:
                    return None
                out += [(x, [q if v else T.not_(q)] + c) for x, c in r]
            return out
    return [(d, [])]


def located(b, env, box):
    """The boundary, solved: [(variable or None, its value there, conditions)]"""
    if b.var is not None:
        return [(b.var, b.sol, [])]
    rs = resolutions(b.d, env)
    out = []
    for d, conds in rs or []:
        if d.op == "const" and d.val != 0:
            continue
        var, sol = solve(d, box)
        if var is None:
            return [(None, None, [T.eq(b.d, T.ZERO)])]
        if sol.op == "const" and not box[var][0] <= sol.val <= box[var][1]:
            continue
        out.append((var, sol, conds))
    return out if rs is not None else [(None, None, [T.eq(b.d, T.ZERO)])]


def boundaries(roots, env):
    """boundaries of the conditions in the terms; each atom with the sign that orients it"""
    out = {}
    for t in T.topo(roots):
        if t.op not in ("lt", "le", "eq"):
            continue
        d = T.sub(t.args[0], t.args[1])
        if d.op == "const":
            continue
        try:
            p = {k: v for k, v in env.nz.nf(d).items() if v}
            l = p[norm.lead(p)]
            key = norm.intern_poly({k: float("%.12g" % (v / l)) for k, v in p.items()})
            s = 1 if l > 0 else -1
        except (TooBig, ValueError, KeyError):
            key, s = ("atom", t.id), 1
        var, sol = solve(d, env.box)
        if var is not None and sol.op == "const":
            c = T.diff(d, var).val
            key, s = ("at", var, "%.12g" % sol.val), 1 if c > 0 else -1
        b = out.get(key)
        if b is None:
            b = out[key] = Boundary(key, d if s > 0 else T.neg(d))
            b.var, b.sol = var, sol
        b.atoms.append((t, s))
    return list(out.values())


def sides(b, roots, box):
    """values of the roots below, at and above the boundary, on the boundary"""
    out = {}
    for name, sg in (("below", -1), ("at", 0), ("above", 1)):
        if b.sol is not None and b.sol.op == "const":
            lo, hi = box[b.var]
            c = T.diff(b.d, b.var)
            if c.op == "const" and (b.sol.val <= lo and sg * c.val < 0 or b.sol.val >= hi and sg * c.val > 0):
                continue            # no inputs there
        mp = {}
        for t, s in b.atoms:
            x = sg * s
            v = x < 0 if t.op == "lt" else x <= 0 if t.op == "le" else x == 0
            mp[t.id] = T.TRUE if v else T.FALSE
        r = T.substitute(roots, mp)
        if b.var is not None:
            r = T.substitute(r, {b.var: b.sol})
        out[name] = r
    return out


def decide(q, side, env, colo):
    """Truth of a branch condition next to the boundary: conditions that coincide with it there go by the side"""
    if q.op in ("true", "false"):
        return q.op == "true"
    if q.op == "not":
        v = decide(q.args[0], side, env, colo)
        return None if v is None else not v
    if q.op in ("and", "or"):
        u, v = decide(q.args[0], side, env, colo), decide(q.args[1], side, env, colo)
        if q.op == "and":
            return False if u is False or v is False else True if u and v else None
        return True if u or v else False if u is False and v is False else None
    if q.id in colo and side != 0:
        try:
            z = env.nz.reduce_zero(env.nz.nf(T.sub(q.args[0], q.args[1])))
            if env.nz.is_small(z, 1e-9):
                x = side * colo[q.id]
                return x < 0 if q.op == "lt" else x <= 0 if q.op == "le" else False
        except TooBig:
            pass
    try:
        return env.nz.decide(q)
    except TooBig:
        return None


def pieces(la, lc, env, sa, sc, colo):
    """(leaves of la, leaves of lc, env) for every way the branch conditions of both (lists of values of one exploration) can go"""
    for k, l in enumerate((la, lc)):
        t = next((t for t in l if t.op == "ite"), None)
        if t is not None:
            q = t.args[0]
            d = decide(q, sc if k else sa, env, colo)
            for v in ((True, False) if d is None else (d,)):
                try:
                    e = env if d is not None else env.assume(q, v)
                except Infeasible:
                    continue
                u = [x.args[1 if v else 2] if x.op == "ite" and x.args[0] is q else x for x in l]
                yield from pieces(u if k == 0 else la, u if k == 1 else lc, e, sa, sc, colo)
            return
    out = []
    for l, s in ((la, sa), (lc, sc)):
        mp = {}
        for q in T.topo(l):
            if q.op in ("lt", "le", "eq") and q.id in colo:
                d = decide(q, s, env, colo)
                if d is not None:
                    mp[q.id] = T.TRUE if d else T.FALSE
        out.append(T.substitute(l, mp) if mp else l)
    yield out[0], out[1], env


def drop(l, t):
    for i, u in enumerate(l):
        if u is t:
            del l[i]
            return True
    return False


def addends(t):
    out, st = [], [t]
    while st:
        u = st.pop()
        if u.op == "add":
            st.extend(u.args)
        else:
            out.append(u)
    return out


def total(ts):
    r = T.ZERO
    for t in ts:
        r = T.add(r, t)
    return r


def antiunify(p, q, holes, memo, weight):
    """One term with fresh variables in place of the parts in which p and q differ; holes: (p's part, q's part) -> variable"""
    if p is q:
        return p
    k = (p.id, q.id)
    if k in memo:
        return memo[k]
    hole = lambda a, b: holes.setdefault((a.id, b.id), (T.var("$h%d" % len(holes)), (a, b)))[0]
    if p.sort != "r" or q.sort != "r":
        return None
    if p.op == "add" or q.op == "add":
        lp, lq = addends(p), addends(q)
        common = []
        for t in list(lp):
            if drop(lq, t):
                drop(lp, t)
                common.append(t)
        parts, left = list(common), []
        for t in sorted(lp, key=weight, reverse=True):
            m = [u for u in lq if u.op == t.op and t.args and len(u.args) == len(t.args)]
            m = [u for u in m if 0.8 < weight(u) / weight(t) < 1.25] or (m if len(m) == 1 else [])
            if m:
                u = min(m, key=lambda u: abs(weight(u) - weight(t)))
                drop(lq, u)
                parts.append(antiunify(t, u, holes, memo, weight))
            elif t.op == "const" and any(u.op == "const" for u in lq):
                u = next(u for u in lq if u.op == "const")
                drop(lq, u)
                parts.append(hole(t, u))
            else:
                left.append(t)
        if left or lq:
            parts.append(hole(total(left), total(lq)))
        if any(x is None for x in parts):
            return None
        r = parts[0] if parts else T.ZERO
        for t in parts[1:]:
            r = T.add(r, t)
    elif p.op == q.op and len(p.args) == len(q.args) and p.args and p.val == q.val:
        n, m = dict(holes), dict(memo)
        r = [antiunify(a, b, n, m, weight) for a, b in zip(p.args, q.args)]
        if any(x is None for x in r):
            r = hole(p, q)
        else:
            holes.update(n)
            memo.update(m)
            r = T.rebuild(p, r)
    else:
        r = hole(p, q)
    memo[k] = r
    return r


def factors(t):
    return factors(t.args[0]) + factors(t.args[1]) if t.op == "mul" else [t]


class Ranges:
    """Enclosures of terms over an environment: intervals, with quotients bounded by comparing numerator and denominator"""
    def __init__(self, env):
        self.env, self.box, self.memo, self.ab = env, dict(env.box), {}, {}

    def nonneg(self, t):
        return norm.prove_ge(t, self.env, 0.0, Budget(20))

    def abstract(self, t):
        """t with the quotients that can be bounded replaced by variables"""
        for u in T.topo([t]):
            if u.id in self.ab:
                continue
            r = u if not u.args else T.rebuild(u, [self.ab[a.id] for a in u.args])
            if u.op == "div" and u.args[1].op != "const" and T.free_vars([u.args[0]]):
                n, d = u.args
                if self.nonneg(d):
                    fs = factors(n)
                    if len(fs) > 1:
                        for k, f in enumerate(fs):
                            if f.op != "const" and self.nonneg(f) and self.nonneg(T.sub(d, f)):
                                v = "$q%d" % u.id
                                self.box[v] = (0.0, 1.0)
                                r = T.var(v)
                                for j, x in enumerate(fs):
                                    if j != k:
                                        r = T.mul(r, self.abstract(x))
                                break
                        else:
                            fs = fs[:1]
                        if len(fs) > 1:
                            self.ab[u.id] = r
                            continue
                    lo = 0.0 if self.nonneg(n) else -math.inf
                    hi = 1.0 if self.nonneg(T.sub(d, n)) else math.inf
                    a, b = self.raw(r)
                    if lo == 0.0 or hi == 1.0 or not (math.isfinite(a) and math.isfinite(b)):
                        lo, hi = max(lo, a), min(hi, b)
                        v = "$q%d" % u.id
                        self.box[v] = (lo, hi)
                        r = T.var(v)
                elif not all(map(math.isfinite, self.raw(r))):
                    v = "$q%d" % u.id
                    self.box[v] = self.raw(r)
                    r = T.var(v)
            self.ab[u.id] = r
        return self.ab[t.id]

    def raw(self, t):
        with np.errstate(all="ignore"):
            (r,), _ = evalnp.ieval([t], {k: (np.array([v[0]]), np.array([v[1]])) for k, v in self.box.items()}, 1)
        lo, hi = float(np.min(r[0])), float(np.max(r[1]))
        return (-math.inf if lo != lo else lo), (math.inf if hi != hi else hi)

    def of(self, t):
        return self.iv(self.abstract(t))

    def quadratic(self, t, lo, hi):
        """a polynomial of degree two in one variable without bounds"""
        fv = T.free_vars([t])
        if len(fv) == 1 and (lo == -math.inf or hi == math.inf):
            v, = fv
            c1 = T.diff(t, v)
            c2 = T.diff(c1, v)
            if c2.op == "const" and c2.val != 0:
                (f0,), (s0,) = (self.at(u, v, 0.0) for u in (t, c1))
                top = f0 - s0 * s0 / (2 * c2.val)
                if c2.val < 0:
                    hi = min(hi, top + 1e-9 * (1 + abs(top)))
                else:
                    lo = max(lo, top - 1e-9 * (1 + abs(top)))
        return lo, hi

    def at(self, u, v, x):
        r, = T.substitute([u], {v: T.const(x)})
        return (r.val,) if r.op == "const" else (float(evalnp.evaluate([r], {}, 1)[0]),)

    def iv(self, t):
        if t.id in self.memo:
            return self.memo[t.id]
        if t.op == "const":
            return t.val, t.val
        if t.op in ("var",):
            return self.box[t.val]
        lo, hi = self.raw(t)
        fv = T.free_vars([t])
        if len(fv) <= 3 and all(math.isfinite(self.box[k][0]) and math.isfinite(self.box[k][1]) for k in fv):
            with np.errstate(all="ignore"):
                a, b = evalnp._range(t, self.box, 20000)
            if a == a and b == b:
                lo, hi = max(lo, a), min(hi, b)
        if t.op == "max":
            (a, b), (c, d) = map(self.iv, t.args)
            lo, hi = max(lo, a, c), min(hi, max(b, d))
        if t.op == "add":
            lo, hi = self.quadratic(t, lo, hi)
            (a, b), (c, d) = map(self.iv, t.args)
            lo, hi = max(lo, a + c), min(hi, b + d)
        elif t.op == "mul":
            (a, b), (c, d) = map(self.iv, t.args)
            ps = [0.0 if x == 0 or y == 0 else x * y for x in (a, b) for y in (c, d)]
            lo, hi = max(lo, min(ps)), min(hi, max(ps))
        self.memo[t.id] = lo, hi
        return lo, hi


def tidy(ts, env):
    """The terms with sums that cancel replaced by their value and quotients of equals by 1"""
    out = {}
    for t in T.topo(ts):
        r = t if not t.args else T.rebuild(t, [out[a.id] for a in t.args])
        try:
            if r.op == "add":
                p = {k: v for k, v in env.nz.nf(r).items() if v}
                if not p:
                    r = T.ZERO
                elif len(p) == 1 and () in p:
                    r = T.const(p[()])
            elif r.op == "div" and r.args[0] is T.ZERO:
                r = T.ZERO
            elif r.op == "div" and r.args[1].op != "const" and (r.args[0] is r.args[1] or env.nz.nf(r.args[0]) == env.nz.nf(r.args[1])):
                r = T.ONE
        except (TooBig, ValueError):
            pass
        out[t.id] = r
    return [out[t.id] for t in ts]


def mean_value(p, q, env, tol):
    """|p - q| <= tol: p and q are one function of the parts in which they differ; its slopes times the differences"""
    while p.op == q.op and p.op in ("log", "exp") and p.args[0].op == {"log": "exp", "exp": "log"}[p.op] == q.args[0].op:
        p, q = p.args[0].args[0], q.args[0].args[0]
    wm = {}

    def weight(t):
        if t.id not in wm:
            wm[t.id] = len(T.topo([t]))
        return wm[t.id]
    holes = {}
    p, q = tidy([p, q], env)
    g = antiunify(p, q, holes, {}, weight)
    if g is None or len(holes) > 6:
        return False
    rg = Ranges(env)
    diffs, hull = [], {}
    for v, (a, b) in holes.values():
        if not T.free_vars([g]) & {v.val}:
            continue
        lo, hi = rg.of(T.sub(a, b))
        la, ha = rg.of(a)
        lb, hb = rg.of(b)
        diffs.append((v, max(abs(lo), abs(hi))))
        hull[v.val] = (min(la, lb), max(ha, hb))
    env = env.child()
    env.box.update(hull)
    r2 = Ranges(env)
    total = 0.0
    for v, m in diffs:
        lo, hi = r2.of(T.diff(g, v.val))
        total += m * max(abs(lo), abs(hi)) if m else 0.0
    return total <= tol


SIDE = dict(below=-1, at=0, above=1)


def discharge_all(case, box, asm, roots, tol, res, discharge, make_ob, deadline):
    """roots: {label: term}.  Yields (label, ok, why, boundary, pair of terms, env)"""
    import time
    env0 = Env(box)
    for c in asm:
        env0 = env0.assume(c, True)
    labels = sorted(roots)
    terms = [roots[l] for l in labels]
    for t in T.topo(terms):
        if t.op == "floor" or t.op == "fn":
            raise T.Unsupported("continuity of " + t.op)
    every = [t for t in T.topo(terms) if t.op in ("lt", "le", "eq")]
    if not every:
        for l in labels:
            res.ok("no condition")
    for b0 in boundaries(terms, env0):
      for var, sol, more in located(b0, env0, box):
        b = Boundary(b0.key, b0.d)
        b.atoms, b.var, b.sol = b0.atoms, var, sol
        if b.sol is not None and b.sol.op == "const" and not box[b.var][0] <= b.sol.val <= box[b.var][1]:
            continue
        bx = {k: v for k, v in box.items() if k != b.var}
        conds = list(asm) + more
        if b.var is not None:
            conds = T.substitute(conds, {b.var: b.sol})
            if b.sol.op != "const":
                lo, hi = box[b.var]
                conds += [T.le(T.const(lo), b.sol), T.le(b.sol, T.const(hi))]
        try:
            env = Env(bx)
            for c in conds:
                env = env.assume(c, True)
        except Infeasible:
            continue
        sd = sides(b, terms, box)
        colo = {}
        if b.var is not None:
            mine = {t.id for t, _ in b.atoms}
            others = [t for t in every if t.id not in mine]
            c0 = T.diff(b.d, b.var)
            for t, u in zip(others, T.substitute(others, {b.var: b.sol})):
                c = T.diff(T.sub(t.args[0], t.args[1]), b.var)
                if c0.op == "const" and u.op in ("lt", "le", "eq") and c.op == "const" and c.val != 0:
                    colo[u.id] = 1 if (c.val > 0) == (c0.val > 0) else -1
        for n1, n2 in [("below", "above"), ("at", "above"), ("at", "below")]:
            if n1 not in sd or n2 not in sd:
                continue
            todo = [i for i in range(len(labels)) if sd[n1][i] is not sd[n2][i]]
            for _ in range(len(labels) - len(todo)):
                res.ok("identical terms")
            if not todo:
                continue
            bad = None
            for la, lc, e in pieces([sd[n1][i] for i in todo], [sd[n2][i] for i in todo], env, SIDE[n1], SIDE[n2], colo):
                if any(p is not q for p, q in zip(la, lc)) and absurd(e):
                    continue
                path = types.SimpleNamespace(env=e, conds=e.conds, sweep=None)
                asm1 = [k if v else T.not_(k) for k, v in e.conds]
                if asm1 and any(p is not q for p, q in zip(la, lc)) and evalnp.prove_nonneg([T.const(-1.0)], e.box, assume=asm1, maxboxes=3000, maxdepth=30)[0]:
                    continue            # no inputs there
                for i, p, q in zip(todo, la, lc):
                    if p is q:
                        continue
                    if time.time() > deadline:
                        raise T.Unsupported("time budget")
                    ok, why, _ = discharge(make_ob("eq", labels[i], p, q, 1e-7), p, q, path, res)
                    if not ok:
                        d = T.sub(p, q)
                        try:
                            ok = mean_value(p, q, e, tol)
                        except (TooBig, T.Unsupported, KeyError):
                            ok = False
                        ok = ok or all(norm.prove_ge(g, e, 0.0, Budget(60)) or evalnp.prove_abstract([g], e.box, assume=asm1)[0] or evalnp.prove_nonneg([g], e.box, assume=asm1, maxboxes=100000)[0]
                                 for g in (T.sub(T.const(tol), d), T.add(T.const(tol), d)))
                    if not ok:
                        bad = (labels[i], why, p, q, e)
                        break
                if bad:
                    break
            if bad is None:
                for _ in todo:
                    res.ok("normal form")
                continue
            yield bad[0], "%s and %s %s = 0: %s" % (n1, n2, T.show(b.d, 5)[:300], bad[1]), b, bad[2], bad[3], bad[4]


def absurd(e):
    """The conditions of the environment contradict an equality among them"""
    for c, v in e.conds:
        if c.op != "eq" or not v:
            continue
        try:
            z = {k: w for k, w in e.nz.nf(T.sub(*c.args)).items() if w}
            zs = (z, {k: -w for k, w in z.items()})
            mp = {}
            for t in T.topo([d for d, _ in e.conds if d is not c]):
                if t.op in ("add", "mul") and T.free_vars([t]):
                    p = {k: w for k, w in e.nz.nf(t).items() if w}
                    if p in zs:
                        mp[t.id] = T.ZERO
        except (TooBig, ValueError):
            continue
        for d, w in e.conds:
            if d is not c and mp:
                r, = T.substitute([d], mp)
                if r.op in ("true", "false") and (r.op == "true") != w:
                    return True
    return False


def points(b, p, q, env, box, rng, tol, sample_points, special_values):
    """inputs on the boundary where the two sides differ by more than the tolerance"""
    conds = [c if v else T.not_(c) for c, v in env.conds]
    n = 4000
    pts = sample_points({k: env.box.get(k, box[k]) for k in box if k != b.var}, rng, n, special_values(conds + [p, q]))
    if b.var is None:
        conds = [c for c in conds if c.op != "eq"]
    vals = evalnp.evaluate(conds + [p, q] + ([b.sol] if b.var is not None else []), pts, n)
    ok = np.ones(n, bool)
    for v in vals[:len(conds)]:
        ok &= np.broadcast_to(v, n).astype(bool)
    with np.errstate(all="ignore"):
        d = np.abs(np.asarray(vals[len(conds)], float) - np.asarray(vals[len(conds) + 1], float)) * np.ones(n)
    ok &= d > tol
    out = []
    for i in np.nonzero(ok)[0][:10]:
        x = {k: float(pts[k][i]) for k in pts}
        if b.var is not None:
            x[b.var] = float(np.broadcast_to(vals[-1], n)[i])
        out.append(x)
    return out, int(ok.sum())
