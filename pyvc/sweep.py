"""Equivalence sweeping: find corresponding subterms of two terms, prove them equal, cut there.

The pairs are only *guessed* by evaluation at sample points; each is then proved by the normal form
before it is replaced by a fresh variable (whose range is the interval of the term it stands for)."""
import numpy as np
from . import terms as T, evalnp
from .norm import prove_equal, Budget, Why, poly_vars, is_pconst, constval, TooBig, Infeasible

SUBTOL = 1e-11
_state = {}       # (id(env)) -> _State


class _State:
    def __init__(self, env, conds):
        self.base = env
        self.env = env.child()
        self.pts = None
        self.n = 0
        self.val = {}
        self.pairs = {}
        self.names = {}
        self.conds = conds
        self.given = None
        self.size = {}
        self.dec = {}
        self.lemmas = None
        self.cut = {}       # term id -> name of its cut variable


def values(st, roots):
    """value vectors of all subterms, cached for the path"""
    todo = [t for t in T.topo(roots) if t.id not in st.val]
    if todo:
        evalnp.evaluate_all(roots, st.pts, st.n, st.val)
    return st.val


def setup(env, conds, rng, sample_points, special_values, extra):
    st = _State(env, conds)
    sp = special_values(conds + extra)
    keep = []
    have = 0
    for rd in range(12):
        N = 2000
        pts = sample_points(env.box, rng, N, sp if rd % 2 else {})
        ok = np.ones(N, bool)
        for v in (evalnp.evaluate(conds, pts, N) if conds else []):
            ok &= v.astype(bool)
        idx = np.nonzero(ok)[0][:128]
        keep.append({k: v[idx] for k, v in pts.items()})
        have += len(idx)
        if have >= 192:
            break
    if have < 4 and any(c.op == "eq" for c in conds):        # no sample meets an equality: the guesses come from beside it
        st = setup(env, [c for c in conds if c.op != "eq"], rng, sample_points, special_values, extra)
        st.conds = conds
        st.given = {c.id: T.TRUE for c in conds if c.op == "eq"}
        return st
    st.n = have
    st.pts = {k: np.concatenate([q[k] for q in keep]) for k in keep[0]}
    return st


def weight(t, memo):
    if t.id in memo:
        return memo[t.id]
    for n in T.topo([t]):
        if n.id not in memo:
            memo[n.id] = 1 + sum(memo[a.id] for a in n.args) if n.op != "const" else 0
            if n.op == "pwl":
                memo[n.id] += len(n.val[0])
            memo[n.id] = min(memo[n.id], 10 ** 9)
    return memo[t.id]


def prove(a, b, st, tol, budget, stats):
    """(True, None) | (False, why) | None when the sampled values already differ."""
    r = prove1(a, b, st, tol, budget, stats, True)
    if r is not None and not r[0]:
        r = prove1(a, b, st, tol, budget, stats, False)
    return r


def prove1(a, b, st, tol, budget, stats, reuse):
    if st.n < 4:
        return prove_equal(a, b, st.base, tol, Budget(budget), stats)
    if st.lemmas is None:
        st.lemmas = dict(st.base.lemmas)
        for lo, t in list(st.base.lemmas.values()):
            r, = resolve([t], st)
            st.env.lemma(r, lo)
    if st.given:
        a, b = T.substitute([a, b], st.given)
    a, b = resolve([a, b], st)
    if a is b:
        return True, None
    val = values(st, [a, b])
    va, vb = val[a.id], val[b.id]
    with np.errstate(all="ignore"):
        dv = np.abs(np.asarray(va, float) - np.asarray(vb, float))
    if np.any(dv > tol * 3 + 1e-10 * np.abs(np.asarray(vb, float))):
        return None
    na = [t for t in T.topo([a]) if t.sort == "r" and t.op not in ("const", "var")]
    ida = {t.id for t in na}
    nb = [t for t in T.topo([b]) if t.sort == "r" and t.op not in ("const", "var")]
    buckets = {}

    proj = np.random.default_rng(5).uniform(0.5, 1.5, st.n) * np.random.default_rng(6).choice([-1.0, 1.0], st.n)

    def key(v):
        v = np.broadcast_to(np.asarray(v, float), (st.n,))
        return float(v @ proj), v
    ka = sorted(((key(val[t.id])[0], t) for t in na), key=lambda p: (p[0] if p[0] == p[0] else 0, p[1].id))
    xs = np.array([k for k, _ in ka])
    # cuts proved before, where they occur on both sides
    idb = {t.id for t in nb}
    both = {st.cut[i] for i in ida if i in st.cut} & {st.cut[i] for i in idb if i in st.cut}
    mp = {i: T.var(st.cut[i]) for i in ida | idb if reuse and st.cut.get(i) in both and i not in (a.id, b.id)}
    for t in nb:
        if t.id in mp:
            continue
        w = weight(t, st.size)
        if w < 4:
            continue
        x, v = key(val[t.id])
        if x != x or abs(x) == np.inf or np.ptp(v) == 0:
            continue
        pk = t.id if t.id in ida else None
        cand = [t] if pk else []
        if True:
            tiny = 1e-13 * np.max(np.abs(v))
            e = 1e-10 * np.sum(np.abs(v)) * 3 + 3 * tiny * st.n
            i, j = np.searchsorted(xs, x - e), np.searchsorted(xs, x + e)
            for _, s in ka[i:j]:
                if s is t:
                    continue
                sv = np.broadcast_to(np.asarray(val[s.id], float), (st.n,))
                if np.all(np.abs(sv - v) <= 1e-10 * (np.abs(v) + np.abs(sv)) + tiny):
                    cand.append(s)
        if not cand:
            continue
        if t is b:
            continue
        # only cut at nodes that hide something: a condition, or a transcendental function
        if not hides(t, st):
            continue
        if len(cand) > 1 and pk is None:
            # prefer the candidate that has become the same term under the cuts made so far
            m1 = {}
            t1 = capped(t, mp, m1)
            for s in cand:
                if capped(s, mp, m1) is t1:
                    st.pairs[(s.id, t.id)] = True
                    cand = [s]
                    break
        # nodes of very different size are unlikely to correspond, and expensive to compare
        cand = [s for s in cand if s is t or max(w, weight(s, st.size)) < 3000 or 0.1 < (1 + w) / (1 + weight(s, st.size)) < 10]
        cand.sort(key=lambda s: abs(np.log((1 + w) / (1 + weight(s, st.size)))))
        found = False
        for s in cand[:5]:
            if found and not 0.5 < (1 + w) / (1 + weight(s, st.size)) < 2:
                continue
            r = st.pairs.get((s.id, t.id))
            if r is None:
                if s is t:
                    r = True
                else:
                    r = prove_cut(s, t, st, mp, SUBTOL, 40, stats, 4)[0]
                st.pairs[(s.id, t.id)] = r
            if r:
                found = True
                nm = st.names.get(s.id) or st.names.get(t.id)
                if nm is None:
                    nm = "$%d" % s.id
                    iv = st.env.nz.ival(s)
                    iu = st.env.nz.ival(t)
                    st.env.box[nm] = (max(iv[0], iu[0]), min(iv[1], iu[1])) if max(iv[0], iu[0]) <= min(iv[1], iu[1]) else iv
                st.names[s.id] = st.names[t.id] = nm
                mp[s.id] = mp[t.id] = T.var(nm)
                st.cut[s.id] = st.cut[t.id] = nm
    if not mp:
        return prove_equal(a, b, st.base, tol, Budget(budget), stats)
    return prove_cut(a, b, st, mp, tol, budget, stats, 10)


def prove_cut(a, b, st, mp, tol, budget, stats, rounds):
    """a == b with the cuts mp; a cut that hides something needed is undone and the proof repeated."""
    r = prove_cut1(a, b, st, mp, tol, budget, stats, rounds, False)
    if not r[0] and isinstance(r[1], Why):
        q = prove_cut1(a, b, st, mp, tol, budget, stats, rounds, True)
        if q[0]:
            return q
    return r


def related(v, live, mp, st, a, b):
    """size of what the cut v stands for, one level down, if that mentions a variable in use (else None)"""
    mp1 = {i: t for i, t in mp.items() if t.val != v}
    best = None
    for n in T.topo([a, b]):
        if n.id in mp and mp[n.id].val == v:
            e = capped(n, mp1, {})
            if T.free_vars([e]) & live:
                k = len(T.topo([e]))
                best = k if best is None else min(best, k)
    return best


def prove_cut1(a, b, st, mp, tol, budget, stats, rounds, near):
    for rd in range(rounds):
        a2, b2 = subst([a, b], mp)
        if a2 is b2:
            return True, None
        try:
            r = prove_equal(a2, b2, st.env, tol, Budget(budget), stats, False)
            if not r[0]:
                r = prove_equal(a2, b2, st.env, tol, Budget(budget), stats)
        except (TooBig, RecursionError):
            return False, "too big"
        if r[0] or not isinstance(r[1], Why) or r[1].poly is None:
            return r
        vs = [v for v in poly_vars(r[1].poly) if v.startswith("$")]
        if not vs:
            return r
        odd = [v for v in T.free_vars([a2]) ^ T.free_vars([b2]) if v.startswith("$")]
        if near:
            live = T.free_vars([a2, b2])
            rel = [(related(v, live - {v}, mp, st, a, b), v) for v in set(vs) | set(odd)]
            rel = [x for x in rel if x[0] is not None]
            if rel:
                big = min(rel)[1]
                mp = {i: t for i, t in mp.items() if t.val != big}
                continue
        big = max(odd or vs, key=lambda v: (max([st.size.get(i, 0) for i, t in mp.items() if t.val == v] or [0]), v))
        mp = {i: t for i, t in mp.items() if t.val != big}
        if not mp:
            return r
    return r


def resolve(roots, st):
    """Replace every condition the path already decides (a cut would hide what it is about)."""
    nz = st.base.nz

    def dec(c):
        r = st.dec.get(c.id, 0)
        if r == 0:
            if sum(1 for t in T.topo([c]) if t.op in ("min", "max", "ite")) > 40:
                r = nz.decide(c)
            else:
                try:
                    p = nz.bpoly(c)
                    r = (constval(p) > 0.5) if is_pconst(p) else None
                except TooBig:
                    r = None
            st.dec[c.id] = r
        return r
    return T.rewrite(roots, dec)


_HID = {"ite", "max", "min", "pwl", "exp", "log", "pow", "fn", "sin", "cos", "tan", "tanh", "arctan"}


def hides(t, st):
    """a condition or a transcendental function somewhere below"""
    if ("h", t.id) not in st.size:
        for n in T.topo([t]):
            k = ("h", n.id)
            if k not in st.size:
                st.size[k] = n.op in _HID or any(st.size[("h", x.id)] for x in n.args)
    return st.size[("h", t.id)]


def capped(t, mp, memo):
    """t with the cuts applied, visiting only the part above them"""
    st = [t]
    while st:
        n = st[-1]
        if n.id in memo:
            st.pop()
            continue
        v = mp.get(n.id)
        if v is not None or not n.args:
            memo[n.id] = n if v is None else v
            st.pop()
            continue
        miss = [x for x in n.args if x.id not in memo]
        if miss:
            st.extend(miss)
            continue
        args = [memo[x.id] for x in n.args]
        memo[n.id] = n if all(x is y for x, y in zip(args, n.args)) else T.rebuild(n, args)
        st.pop()
    return memo[t.id]


def subst(roots, mp):
    memo = {}
    for t in T.topo(roots):
        v = mp.get(t.id)
        if v is not None:
            memo[t.id] = v
        elif t.args:
            args = [memo[x.id] for x in t.args]
            memo[t.id] = t if all(x is y for x, y in zip(args, t.args)) else T.rebuild(t, args)
        else:
            memo[t.id] = t
    return [memo[r.id] for r in roots]
