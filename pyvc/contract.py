"""Contracts, verification-condition discharge, falsification and replay.

A contract case is a body `body(w, x)` that calls the code under contract through the world `w` with the inputs `x` and
yields its obligations.  Run in the symbolic world the inputs are terms ranging over the whole input box and every
obligation is discharged for all of them; run in the concrete world (`pygmm` itself under CPython) with numbers it
is the executable form of the same contract, used for replay and for the engine cross-check.
"""
import math
import time
import traceback
import zlib

import numpy as np

from . import terms as T, symnp, evalnp, norm, load, sweep, contin
from .explore import explore, PathLimit
from .norm import Env, prove_equal, Infeasible, TooBig, Budget

TOL = 1e-7          # proof tolerance (absolute; the compared quantities are logarithms or O(1))
CTOL = 2e-6         # concrete replay tolerance (relative to 1+|value|)


class Ob:
    __slots__ = ("kind", "label", "a", "b", "tol", "opt")

    def __init__(self, kind, label, a, b=None, tol=None, **opt):
        self.kind, self.label, self.a, self.b, self.tol, self.opt = kind, label, a, b, tol, opt


def eq(label, a, b, tol=None, **opt):
    """a == b up to tol (arrays elementwise)."""
    return Ob("eq", label, a, b, tol, **opt)


def true(label, cond):
    """cond holds."""
    return Ob("true", label, cond)


def ge(label, a, b=0.0, tol=0.0, **opt):
    """a >= b - tol, by interval branch and prune."""
    return Ob("ge", label, a, b, tol, **opt)


def defined(label, a):
    """a is a number: every division, logarithm and power it is made of is applied within its domain."""
    return Ob("def", label, a)


def cont(label, a, tol=0.02):
    """a is a continuous function of the case inputs: it jumps by no more than tol anywhere."""
    return Ob("cont", label, a, None, tol)


def same(label, a, b):
    """Python-level equality of data without real-valued content (strings, None, lengths, identity flags)."""
    return Ob("same", label, a, b)


class X(dict):
    """Case inputs."""
    __getattr__ = dict.__getitem__


class Case:
    def __init__(self, name, box, body, assume=None, fns=(), fixed=None, modes=None, samples=None, bounded=False, splits=None, reals=()):
        self.name = name
        self.box = {k: (float(v[0]), float(v[1])) for k, v in box.items()}
        self.body = body
        self.assume = assume
        self.fns = tuple(fns)
        self.fixed = dict(fixed or {})
        self.samples = samples
        self.bounded = bounded        # by design: sampled, never counted as proved
        self.splits = splits or {}
        self.reals = tuple(reals)     # inputs documented as real numbers only: never given as integers


def elements(o):
    """Elementwise (index, a, b) pairs of an obligation in either world; raises ValueError on shape mismatch."""
    a, b = o.a, o.b
    if o.kind == "same":
        return [((), a, b)]
    if o.kind in ("true", "def", "cont"):
        if isinstance(a, symnp.SymMA):
            a = a.data
        if isinstance(a, (np.ndarray, list, tuple)):
            aa = np.asarray(symnp.as_obj(a))
            return [(i, aa[i], None) for i in np.ndindex(*aa.shape)]
        return [((), a, None)]
    if isinstance(a, symnp.SymMA):
        a = a.data
    if a is None or b is None:
        if a is None and b is None:
            return []
        raise ValueError("value is %s, contract says %s" % (show(a), show(b)))
    arr = lambda v: np.asarray(symnp.as_obj(v)) if isinstance(v, (np.ndarray, list, tuple)) else v
    a, b = arr(a), arr(b)
    sa, sb = np.shape(a) if not isinstance(a, T.Term) else (), np.shape(b) if not isinstance(b, T.Term) else ()
    if sa == () and sb == ():
        return [((), symnp._py(a), symnp._py(b))]
    if sa != sb and sa != () and sb != ():
        raise ValueError("shape %s, contract says %s" % (sa, sb))
    if sa == () and not o.opt.get("broadcast"):
        raise ValueError("shape %s, contract says %s" % (sa, sb))
    sh = sa or sb
    return [(i, symnp._py(a[i]) if sa else a, symnp._py(b[i]) if sb else b) for i in np.ndindex(*sh)]


def show(v):
    s = repr(v)
    return s if len(s) < 80 else s[:77] + "..."


def lab(o, i):
    return o.label + ("[%s]" % ",".join(map(str, i)) if i else "")


# -- concrete ------------------------------------------------------------------------------------------

def concrete_elem(o, a, b):
    """(holds, message)"""
    if o.kind == "same":
        return (bool(a == b), "got %s, contract says %s" % (show(a), show(b)))
    if o.kind == "true":
        return (bool(a), "condition is false")
    if o.kind == "cont":
        return True, ""
    if o.kind == "def":
        try:
            return math.isfinite(float(a)), "got %s, contract says a finite number" % show(a)
        except (TypeError, ValueError) as e:
            return False, "not a number: %s" % (e,)
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError) as e:
        return False, "not a number: %s" % (e,)
    if o.kind == "ge":
        ok = a >= b - (o.tol or 0.0) - 1e-9 * (1 + abs(b))
        return ok, "got %.10g, contract says at least %.10g" % (a, b)
    if a != a and b != b:
        return True, ""
    if math.isinf(a) and a == b:
        return True, ""
    tol = o.opt.get("ctol") or max(o.tol or 0.0, CTOL)
    ok = abs(a - b) <= tol * (1 + abs(b))
    return ok, "got %.10g, contract says %.10g" % (a, b)


def run_concrete(case, x, collect=False, near=True):
    """Run the body on the real package; returns (list of failures, dict label->value)."""
    w = load.concrete()
    fails, vals, jump = [], {}, {}
    cx = X(case.fixed)
    cx.update(x)
    with np.errstate(all="ignore"):
        if case.assume:
            try:
                if not all(bool(c) for c in case.assume(w, cx)):
                    return None, {}
            except Exception:
                return None, {}
        try:
            for o in case.body(w, cx):
                try:
                    els = elements(o)
                except ValueError as e:
                    fails.append((o.label, str(e)))
                    continue
                for i, a, b in els:
                    ok, msg = concrete_elem(o, a, b)
                    if collect and o.kind in ("eq", "ge", "def") or o.kind == "cont":
                        try:
                            vals[lab(o, i)] = float(a)
                        except (TypeError, ValueError):
                            pass
                    if o.kind == "cont":
                        jump[lab(o, i)] = o.tol
                    if not ok:
                        fails.append((lab(o, i), msg))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = next(("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in reversed(tb) if "pygmm" in f.filename), "contract body")
            fails.append(("completes without exception", "%s: %s (%s)" % (type(e).__name__, str(e)[:200], where)))
    if jump and near:                 # continuity: the value beside x, along every input
        for k, (lo, hi) in sorted(case.box.items()):
            for h in (-1e-9, 1e-9):
                y = dict(x)
                y[k] = min(max(x[k] + h * max(1.0, abs(x[k])), lo), hi)
                if y[k] == x[k]:
                    continue
                f, v = run_concrete(case, y, True, near=False)
                for l, tol in jump.items() if f is not None else ():
                    if l in v and l in vals and not abs(v[l] - vals[l]) <= tol + 1e-6:
                        fails.append((l, "%.8g, but %.8g when %s goes from %r to %r" % (vals[l], v[l], k, x[k], y[k])))
    return fails, vals


# -- sampling -------------------------------------------------------------------------------------------

def sample_points(box, rng, n, special=()):
    """Uniform, log-uniform and boundary-biased points. special: var -> list of interesting values."""
    names = sorted(box)
    pts = {}
    for k in names:
        lo, hi = box[k]
        u = rng.uniform(lo, hi, n)
        if lo > 0 and hi / lo > 20:
            m = rng.random(n) < 0.5
            u = np.where(m, np.exp(rng.uniform(math.log(lo), math.log(hi), n)), u)
        sp = [lo, hi] + [v for v in dict(special).get(k, []) if lo <= v <= hi]
        sp = np.array(sp)
        m = rng.random(n) < (0.25 if len(sp) > 2 else 0.08)
        pick = sp[rng.integers(0, len(sp), n)]
        jit = rng.choice([0.0, 0.0, 1e-9, -1e-9, 1e-3, -1e-3], n) * np.maximum(1.0, np.abs(pick))
        u = np.where(m, np.clip(pick + jit, lo, hi), u)
        pts[k] = u
    return pts


def special_values(roots):
    """Constants a variable is compared with."""
    sp = {}
    for a, b in T.conditions(roots):
        for p, q in ((a, b), (b, a)):
            if p.op == "var" and q.op == "const" and math.isfinite(q.val):
                sp.setdefault(p.val, set()).add(q.val)
    return {k: sorted(v)[:60] for k, v in sp.items()}


# -- symbolic -------------------------------------------------------------------------------------------

class Result:
    def __init__(self, case):
        self.case = case.name
        self.fns = case.fns
        self.obligations = 0
        self.discharged = 0
        self.backend = {}
        self.paths = 0
        self.unreached = 0
        self.bounded = 0
        self.bounded_points = 0
        self.bounded_reason = ""
        self.cross = 0
        self.violations = []      # dicts
        self.time = 0.0
        self.solver_time = 0.0
        self.splits = 0
        self.sample = None
        self.covered = 0
        self.coverage = None

    def ok(self, backend):
        self.obligations += 1
        self.discharged += 1
        self.backend[backend] = self.backend.get(backend, 0) + 1


def as_term(v):
    return T.L(v)


def conds_term(path):
    return [c if v else T.not_(c) for c, v in path.conds]


def equalities(path):
    """Replacements that the path's conditions justify: one side of an assumed equality by the other"""
    out = path.__dict__.get("equal")
    if out is None or out[0] != len(path.conds):
        out = path.equal = (len(path.conds), [])
        todo = list(path.conds)
        while todo:
            c, v = todo.pop(0)
            if c.op == "not":
                todo.insert(0, (c.args[0], not v))
            elif (c.op == "and" and v) or (c.op == "or" and not v):
                todo[:0] = [(x, v) for x in c.args]
            elif c.op == "eq" and v and c.args[0].sort != "b" and c.args[1].sort != "b":
                p, q = c.args                       # p is replaced by q
                free = lambda v, t: v.op == "var" and v.val not in T.free_vars([t])
                if T.is_const(p) or (not T.is_const(q) and not free(p, q) and (free(q, p) or p.id < q.id)):
                    p, q = q, p                     # a term cannot occur in one built before it
                if not T.is_const(p):
                    out[1].append({p.val: q} if p.op == "var" else {p.id: q})
    return out[1]


def fact_key(env):
    return (tuple(sorted(env.box.items())), tuple(sorted((k, v[0]) for k, v in env.lemmas.items())), tuple(sorted((k, tuple(sorted(v)) if not isinstance(v, bool) else v)
                                                         for k, v in env.facts.items())))


_memo = {}


def discharge(o, a, b, path, res):
    """Returns (ok, reason)."""
    t0 = time.time()
    try:
        if o.kind == "same":
            r = bool(a == b) if not isinstance(a, T.Term) else a is b
            return r, "got %s, contract says %s" % (show(a), show(b)), "evaluation"
        if o.kind == "true":
            if not isinstance(a, T.Term):
                return bool(a), "condition is false", "evaluation"
            d = path.env.nz.decide(T.tobool(a))
            if d is not None:
                return d, "condition is false on the path", "normal form"
            ok, why = prove_equal(T.ite(T.tobool(a), T.ONE, T.ZERO), T.ONE, path.env, 0.5, Budget(200))
            if ok:
                return True, None, "normal form"
            return interval_true(T.tobool(a), path)
        if o.kind == "def":
            if not isinstance(a, T.Term):
                return a is not None and math.isfinite(float(a)), "got %s" % show(a), "evaluation"
            return discharge_defined(a, path, res)
        if o.kind == "ge":
            if not isinstance(a, T.Term) and not isinstance(b, T.Term):
                return a >= b - o.tol, "got %s, contract says at least %s" % (show(a), show(b)), "evaluation"
            g = T.sub(as_term(a), as_term(b))
            if o.opt.get("abstract"):          # bounds on one output: leave the other inputs out first; not used as a lemma
                ok, n = evalnp.prove_abstract([g], path.env.box, tol=o.tol, assume=conds_term(path))
                res.splits += n
                if ok:
                    return True, None, "interval branch-and-prune"
            if norm.prove_ge(g, path.env, o.tol, Budget(o.opt.get("budget", 60))):
                if isinstance(a, T.Term) and not isinstance(b, T.Term):
                    path.env.lemma(a, float(b) - o.tol)
                    path.sweep = None
                return True, None, "normal form"
            asm = conds_term(path) + list(o.opt.get("assume", ()))
            ok, n = evalnp.prove_abstract([g], path.env.box, tol=o.tol, assume=asm)
            res.splits += n
            if not ok:
                ok, cand, n = evalnp.prove_nonneg([g], path.env.box, tol=o.tol, assume=asm, maxboxes=o.opt.get("maxboxes", 400000))
                res.splits += n
            if ok and isinstance(a, T.Term) and not isinstance(b, T.Term) and not o.opt.get("assume"):
                path.env.lemma(a, float(b) - o.tol)
                path.sweep = None
            return ok, None if ok else "not proved non-negative near %s" % (cand,), "interval branch-and-prune"
        if not isinstance(a, T.Term) and not isinstance(b, T.Term):
            a, b = float(a), float(b)
            tol = o.tol or TOL
            ok = (a != a and b != b) or a == b or abs(a - b) <= tol
            return ok, "got %.10g, contract says %.10g" % (a, b), "evaluation"
        a, b = as_term(a), as_term(b)
        if a.sort == "b" or b.sort == "b":
            a, b = T.real(a), T.real(b)
        if a is b:
            return True, None, "identical terms"
        tol = o.tol or TOL
        u, v = a, b
        for m in equalities(path):
            if u is not v:
                u, v = T.substitute([u, v], m)
        if u is v:
            return True, None, "identical terms"
        ok, why = False, None
        for a, b in [(a, b)] + ([] if u is a and v is b else [(u, v)]):
            ok, why = equal(a, b, tol, o, path, res)
            if ok:
                break
        return ok, why, "normal form"
    finally:
        res.solver_time += time.time() - t0


def equal(a, b, tol, o, path, res):
    """a = b on the path: normal forms, with the case splits they need; common subterms first"""
    key = (a.id, b.id, tol, fact_key(path.env))
    m = _memo.get(key)
    if m is None:
        st = {}
        m = (False, None)
        if len(T.topo([a, b])) < 60:
            m = prove_equal(a, b, path.env, tol, Budget(12), st, False)
        if not m[0]:
            sw = getattr(path, "sweep", None)
            if sw is None:
                sw = path.sweep = sweep.setup(path.env, conds_term(path), np.random.default_rng(11), sample_points, special_values, [a, b])
            m2 = sweep.prove(a, b, sw, tol, o.opt.get("budget", 600), st)
            if m2 is None:
                m = (False, m[1])
            elif m2[0]:
                m = m2
            else:
                m = prove_equal(a, b, path.env, tol, Budget(o.opt.get("budget", 600)), st)
        res.splits += st.get("cases", 0)
        _memo[key] = m
        if len(_memo) > 200000:
            _memo.clear()
    return m


def partial_ops(root):
    """(node, condition, operand, guards): the partial operations of a term, with the condition on the operand and the
    sets of conditions under which the node is reached; exponents must stay where neither overflow nor underflow occurs"""
    guards = {root.id: {frozenset()}}
    order = T.topo([root])[::-1]
    keep = {t.id: t for t in order}

    def push(t, gs):
        cur = guards.setdefault(t.id, set())
        if None in cur:
            return
        if frozenset() in gs:
            cur.clear()
            cur.add(frozenset())
        elif frozenset() not in cur:
            cur |= gs
            if len(cur) > 24:
                cur.clear()
                cur.add(frozenset())
    # parents before children: reverse post-order of a DAG is a topological order
    for t in order:
        gs = set(guards.get(t.id, ()))
        if t.op == "ite":
            c, p, q = t.args
            push(c, gs)
            n = T.not_(c)
            keep[c.id], keep[n.id] = c, n
            push(p, {g | {c.id} for g in gs})
            push(q, {g | {n.id} for g in gs})
        else:
            for a in t.args:
                push(a, gs)
    out = []
    for t in order:
        if t.op == "const" and not math.isfinite(t.val):
            out.append((t, "never", None, guards[t.id]))
        elif t.op == "div":
            out.append((t, "nonzero", t.args[1], guards[t.id]))
        elif t.op == "log":
            out.append((t, "positive", t.args[0], guards[t.id]))
        elif t.op == "exp":
            out.append((t, "small", t.args[0], guards[t.id]))
        elif t.op == "pow":
            b, e = t.args
            if b.op == "const" and b.val > 0:
                out.append((t, "small", T.mul(T.const(math.log(b.val)), e), guards[t.id]))
            elif e.op != "const":
                out.append((t, "positive", b, guards[t.id]))
            elif e.val < 0:
                out.append((t, "nonzero" if e.val == int(e.val) else "positive", b, guards[t.id]))
            elif e.val != int(e.val):
                out.append((t, "nonnegative", b, guards[t.id]))
        elif t.op == "fn" and not t.val.startswith("round"):
            out.append((t, "never", None, guards[t.id]))
    return [(t, kind, arg, [[keep[i] for i in sorted(g)] for g in gs]) for t, kind, arg, gs in out]


_def_memo = {}
BASE = [None]
TINY = 1e-12


def sign_goals(kind, t):
    """Operand conditions that together imply `t is positive` (or non-zero): exponentials are positive, and products,
    quotients and powers are when their operands are"""
    if t.op == "exp":
        return []
    if t.op == "const":
        return [] if t.val > 0 or kind == "nonzero" and t.val < 0 else [(kind, t)]
    if t.op in ("mul", "div"):
        return sign_goals(kind, t.args[0]) + sign_goals(kind, t.args[1])
    if t.op == "pow" and (t.args[0].op == "const" or kind == "positive" and t.args[1].op == "const"):
        return sign_goals("positive" if t.args[1].val != 2 else "nonzero", t.args[0]) if t.args[1].op == "const" else sign_goals("positive", t.args[0])
    return [(kind, t)]


def sign_ok(kind, arg, path, extra, res):
    if kind in ("positive", "nonzero"):
        return all(sign_ok1(k, t, path, extra, res) for k, t in sign_goals(kind, arg))
    return sign_ok1(kind, arg, path, extra, res)


def sign_ok1(kind, arg, path, extra, res):
    """The operand condition holds on the path under the extra conditions"""
    asm = conds_term(path) + list(extra)
    box = path.env.box
    for t in T.topo([arg]):                # x / x, whose own condition is a separate obligation
        if t.op == "div" and t.args[0] is t.args[1]:
            arg, = T.substitute([arg], {t.id: T.ONE})
    if kind == "never":
        return evalnp.prove_nonneg([T.const(-1.0)], box, assume=asm, maxboxes=20000, maxdepth=40)[0]
    if kind != "small" and arg.op == "const":
        return arg.val > 0 or (kind == "nonnegative" and arg.val == 0) or (kind == "nonzero" and arg.val < 0)
    if kind == "small":
        goals = [[T.add(T.const(700.0), arg), T.sub(T.const(700.0), arg)]]
    elif kind == "nonnegative":
        goals = [[arg]]
    elif kind == "positive":
        goals = [[T.sub(arg, T.const(TINY))]]
    else:
        goals = [[T.sub(arg, T.const(TINY))], [T.sub(T.neg(arg), T.const(TINY))]]
    fv = T.free_vars([arg])
    for bx in (BASE[0] or box, box):                     # over the case's whole box, over the path's, then with its conditions
        bx = {k: bx[k] for k in fv if k in bx}
        if len(bx) < len(fv):
            continue
        key = (kind, arg.id, tuple(sorted(bx.items())))
        if key not in _def_memo:
            ok = False
            for g in goals:
                if not ok and kind == "nonnegative":
                    ok, k = evalnp.prove_abstract(g, bx)
                    res.splits += k
                if not ok:
                    ok, _, k = evalnp.prove_nonneg(g, bx, maxboxes=2000, maxdepth=30)
                    res.splits += k
            _def_memo[key] = ok, arg
        if _def_memo[key][0]:
            return True
    if kind == "small":
        ok, k = evalnp.within(arg, box, 700.0, asm, prove=lambda g: norm.prove_ge(g, path.env if not extra else env_with(path, extra), 0.0, Budget(40)))
        res.splits += k
        if ok:
            return True
    for g in goals:
        if len(g) == 1 and norm.prove_ge(g[0], path.env if not extra else env_with(path, extra), 0.0, Budget(40)):
            return True
    if kind == "nonzero":
        try:
            (path.env if not extra else env_with(path, extra)).assume(T.eq(arg, T.ZERO), True)
        except Infeasible:
            return True
    for g in goals:
        ok, k = evalnp.prove_abstract(g, box, assume=asm)
        res.splits += k
        if ok:
            return True
        ok, _, k = evalnp.prove_nonneg(g, box, assume=asm, maxboxes=60000, maxdepth=50)
        res.splits += k
        if ok:
            return True
    env = path.env if not extra else env_with(path, extra)
    return any(split_prove(g, env, res) for g in goals)


def split_prove(goals, env, res, left=12):
    """Every goal non-negative over the environment, by cases of the conditions in it"""
    conds = [t.args[0] for t in T.topo(goals) if t.op == "ite"]
    if not conds or left <= 0:
        ok, _, k = evalnp.prove_nonneg(goals, env.box, assume=[c if v else T.not_(c) for c, v in env.conds], maxboxes=20000, maxdepth=40)
        res.splits += k
        return ok
    c = conds[0]
    es = []
    for v in (True, False):
        try:
            es.append((v, env.assume(c, v)))
        except Infeasible:
            pass
    return all(split_prove(T.substitute(goals, {c.id: T.TRUE if v else T.FALSE}), e, res, left - (len(es) > 1)) for v, e in es)


def env_with(path, extra):
    """The path's environment with further conditions assumed"""
    env = path.env
    for c in extra:
        env = env.assume(c, True)
    return env


def discharge_defined(a, path, res):
    done = path.__dict__.setdefault("defined_nodes", set()) if hasattr(path, "__dict__") else set()
    for t, kind, arg, gs in partial_ops(a):
        for g in gs:
            k = (t.id,) + tuple(c.id for c in g)
            if k in done or (t.id,) in done:
                continue
            try:
                ok = sign_ok(kind, arg, path, g, res)
            except Infeasible:
                ok = True
            if not ok:
                return False, "%s: operand %s not shown %s" % (t.op, T.show(arg, 6)[:600] if arg is not None else t.val, kind), "interval branch-and-prune"
            done.add(k)
    return True, None, "interval branch-and-prune"


def interval_true(c, path):
    """Prove a boolean term true over the path by intervals: ite(c,1,0) - 0.5 >= 0."""
    ok, cand, n = evalnp.prove_nonneg([T.ite(c, T.const(1.0), T.const(-1.0))], path.env.box, assume=conds_term(path), maxboxes=60000, maxdepth=60)
    return ok, "condition not proved near %s" % (cand,), "interval branch-and-prune"


def falsify(case, path, o, a, b, rng, n=6000, rounds=3):
    """Points on the path at which the obligation's terms disagree, then replay on the real code.
    Returns ('violation', x, fails) | ('mismatch', x) | ('none', npoints) | ('unreachable',)"""
    conds = conds_term(path)
    roots = [T.L(t) for t in conds]
    if o.kind in ("eq", "ge"):
        ta, tb = T.real(as_term(a)), T.real(as_term(b))
    elif o.kind == "true":
        ta, tb = T.ite(T.tobool(T.L(a)), T.ONE, T.ZERO), T.ONE
    elif o.kind == "def":
        ta = tb = T.real(as_term(a)) if isinstance(a, T.Term) else T.const(float("nan"))
    else:
        ta = tb = None
    ev = roots + ([ta, tb] if ta is not None else [])
    sp = special_values(ev)
    hits = 0
    mismatch = None
    names = sorted(case.box)
    box = {k: path.env.box.get(k, case.box[k]) for k in names}
    for rd in range(rounds):
        pts = sample_points(box, rng, n, sp)
        try:
            vals = evalnp.evaluate(ev, pts, n)
        except T.Unsupported:
            vals = None
        if vals is None:
            idx = np.arange(min(n, 40))
        else:
            ok = np.ones(n, bool)
            for v in vals[:len(conds)]:
                ok &= v.astype(bool)
            hits += int(ok.sum())
            if ta is None:
                idx = np.nonzero(ok)[0][:12]
            else:
                va, vb = vals[-2].astype(float), vals[-1].astype(float)
                with np.errstate(all="ignore"):
                    if o.kind == "ge":
                        d = vb - (o.tol or 0) - va
                    else:
                        d = np.abs(va - vb) / (1 + np.abs(vb))
                    if o.kind == "def":
                        d = np.where(np.isfinite(va), 0.0, 9.0)
                        vb = np.zeros_like(va)
                    bad = ok & (~(d <= (0 if o.kind == "ge" else (o.opt.get("ctol") or max(o.tol or 0, CTOL)))) & ~(np.isnan(va) & np.isnan(vb)))
                idx = np.nonzero(bad)[0]
                if len(idx):
                    idx = idx[np.argsort(-np.nan_to_num(d[idx], nan=np.inf))][:12]
        for i in idx:
            x = {k: float(pts[k][i]) for k in names}
            fails, _ = run_concrete(case, x)
            if fails is None:
                continue
            if fails:
                return "violation", x, fails
            mismatch = x
        if mismatch is not None and ta is not None and vals is not None:
            return ("mismatch", mismatch)
    if hits == 0 and conds:
        ok, _, _ = evalnp.prove_nonneg([T.const(-1.0)], box, assume=conds, maxboxes=40000, maxdepth=50)
        if ok:
            return ("unreachable",)
    return ("none", hits)


class CaseTimeout(BaseException):
    pass


def verify_case(case, seed, deadline, cross=3, budget=None):
    res = Result(case)
    t0 = time.time()
    rng = np.random.default_rng((seed, zlib.crc32(case.name.encode())))
    if case.bounded or time.time() > deadline:
        bounded(case, res, rng, "by design" if case.bounded else "time budget", deadline)
        res.time = time.time() - t0
        return res
    w = load.symbolic()
    labels = {}
    spath = []          # (conds, [(label, a term)]) for the cross-check

    def body(p):
        w.log.items.clear()
        x = X(case.fixed)
        for k in case.box:
            x[k] = T.var(k)
        obs = []
        for o in case.body(w, x):
            obs.append((o, elements(o) if not isinstance(_try_elements(o), ValueError) else _try_elements(o)))
        return obs

    boxes = subboxes(case)
    why_unsup = None
    try:
        for box in boxes:
            leaves = {}
            BASE[0] = box
            ass = []
            if case.assume:
                x = X(case.fixed)
                x.update({k: T.var(k) for k in case.box})
                ass = [T.L(c) for c in case.assume(w, x)]
            for path, (st, val) in explore(body, box, ass):
                path.conds = [(c, True) for c in ass if c.op != "true"] + path.conds
                res.paths += 1
                if enough(res):
                    break
                if time.time() > deadline:
                    raise T.Unsupported("time budget")
                if st == "unsupported":
                    raise val
                if st == "exc":
                    o = same("completes without exception", type(val).__name__, "no exception")
                    f = falsify(case, path, o, None, None, rng)
                    if f[0] == "violation":
                        add_violation(res, case, "completes without exception", f[1], f[2], None)
                        continue
                    if f[0] == "unreachable":
                        res.unreached += 1
                        spath.append((conds_term(path), [], box))
                        continue
                    raise T.Unsupported("exception only under the engine: %s: %s" % (type(val).__name__, str(val)[:200]))
                sp = []
                blind = 0       # proofs failed on this path without a failing input
                for o, els in val:
                    if isinstance(els, ValueError):
                        els = [((), o.a, o.b)]
                        r = (False, "shape or type differs", "evaluation")
                        o = same(o.label, "shape", "as in the contract")
                    else:
                        r = None
                    for i, a, b in els:
                        if enough(res) or blind >= 2:
                            break
                        if o.kind == "cont" and r is None:
                            leaves.setdefault(lab(o, i), (o.tol, []))[1].append((list(zip(path.decisions, path.taken)), T.real(as_term(a))))
                            if isinstance(a, T.Term):
                                sp.append((lab(o, i), T.real(a)))
                            continue
                        rr = r or discharge(o, a, b, path, res)
                        if o.kind in ("eq", "ge", "def", "cont") and isinstance(a, T.Term):
                            sp.append((lab(o, i), T.real(a)))
                        labels[o.label] = labels.get(o.label, 0) + 1
                        if rr[0]:
                            res.ok(rr[2])
                            continue
                        f = falsify(case, path, o, a, b, rng)
                        if f[0] == "unreachable":
                            res.ok("unreachable path")
                            continue
                        if f[0] == "mismatch":
                            raise T.Unsupported("the engine's value differs from CPython's at %s" % (f[1],))
                        res.obligations += 1
                        if f[0] == "violation":
                            add_violation(res, case, lab(o, i), f[1], f[2], rr[1])
                        else:
                            res.violations.append(dict(case=case.name, obligation=lab(o, i), input=None, fails=[],
                                                       verifier=str(rr[1])[:2000], path=[T.show(c, 4) + (" is true" if v else " is false") for c, v in path.conds][:40],
                                                       hits=f[1]))
                            blind += 1
                if len(spath) < 400:
                    spath.append((conds_term(path), sp, box))
            if leaves and not res.violations:
                continuous(case, box, ass, leaves, res, rng, deadline)
        if not res.violations:
            err = crosscheck(case, spath, rng, res, cross) or integers(case, rng, res)
            if err:
                if err[0] == "violation":
                    add_violation(res, case, err[2][0][0], err[1], err[2], "found by the CPython cross-check")
                else:
                    raise T.Unsupported("cross-check: " + err[1])
    except (T.Unsupported, PathLimit, TooBig, RecursionError) as e:
        res.obligations -= res.discharged
        res.discharged = 0
        res.backend = {}
        why_unsup = "%s" % (e,)
        bounded(case, res, rng, why_unsup, deadline)
    except CaseTimeout:
        res.obligations -= res.discharged
        res.discharged = 0
        res.backend = {}
        bounded(case, res, rng, "time limit for one case", deadline)
    except Exception as e:          # a defect of the engine: same fall-back, recorded
        res.obligations -= res.discharged
        res.discharged = 0
        res.backend = {}
        why_unsup = "engine: %s: %s" % (type(e).__name__, str(e)[:300]) + traceback.format_exc()[-600:]
        bounded(case, res, rng, why_unsup, deadline)
    res.time = time.time() - t0
    return res


def continuous(case, box, ass, leaves, res, rng, deadline):
    roots = {l: contin.merge(ls) for l, (_, ls) in leaves.items()}
    tol = max(t for t, _ in leaves.values())
    for label, why, b, p, q, env in contin.discharge_all(case, box, ass, roots, tol, res, discharge, Ob, deadline):
        res.obligations += 1
        xs, hits = contin.points(b, p, q, env, box, rng, tol, sample_points, special_values)
        for x in xs:
            fails, _ = run_concrete(case, x)
            if fails:
                add_violation(res, case, label, x, fails, why)
                break
        else:
            if xs:
                raise T.Unsupported("the engine finds a jump that CPython does not show: %s near %s" % (why[:200], xs[0]))
            res.violations.append(dict(case=case.name, obligation=label, input=None, fails=[], verifier=str(why)[:2000],
                                       path=[T.show(c, 4) + (" is true" if v else " is false") for c, v in env.conds][:40], hits=hits))
        if enough(res):
            return


def enough(res):
    return sum(v.get("input") is not None for v in res.violations) >= 3 or len(res.violations) >= 12


def _try_elements(o):
    try:
        return elements(o)
    except ValueError as e:
        return e


def subboxes(case):
    """Optional splitting of the input box at given knots (keeps each query small)."""
    boxes = [dict(case.box)]
    for k, knots in case.splits.items():
        out = []
        for b in boxes:
            lo, hi = b[k]
            pts = [lo] + [v for v in sorted(knots) if lo < v < hi] + [hi]
            for p, q in zip(pts, pts[1:]):
                c = dict(b)
                c[k] = (p, q)
                out.append(c)
        boxes = out
    return boxes


def add_violation(res, case, label, x, fails, verifier):
    lb, msg = fails[0]
    for f in fails:
        if f[0] == label:
            lb, msg = f
    res.violations.append(dict(case=case.name, obligation=lb, failed_proof=label, input=x, fails=[list(f) for f in fails[:20]], message=msg,
                               verifier=str(verifier)[:2000] if verifier else None))


def bounded(case, res, rng, why, deadline):
    n = case.samples or 60
    res.bounded_reason = why
    pts = sample_points(case.box, rng, n) if case.box else {}
    names = sorted(case.box)
    done = 0
    for i in range(n if case.box else 1):
        x = {k: float(pts[k][i]) for k in names}
        try:
            fails, vals = run_concrete(case, x, True)
        except CaseTimeout:
            break
        if fails is None:
            continue
        done += 1
        res.bounded = max(res.bounded, len(vals), 1)
        if fails:
            add_violation(res, case, fails[0][0], x, fails, "bounded check: " + why)
            break
        if time.time() > deadline + 60:
            break
    res.bounded_points += done


def coverage(case, spath, rng, res):
    """Sampled points of the input space must lie on an explored path: guards against a wrongly discarded one."""
    if len(spath) >= 400:
        return None
    w = load.symbolic()
    x = X(case.fixed)
    x.update({k: T.var(k) for k in case.box})
    ass = [T.L(c) for c in case.assume(w, x)] if case.assume else []
    N = 1500
    allc = ass + [c for conds, _, _ in spath for c in conds]
    pts = sample_points(case.box, rng, N, special_values(allc))
    ok = np.ones(N, bool)
    for v in (evalnp.evaluate(ass, pts, N) if ass else []):
        ok &= v.astype(bool)
    hit = np.zeros(N, bool)
    for conds, _, box in spath:
        h = np.ones(N, bool)
        for k, (lo, hi) in box.items():
            if k in pts:
                h &= (pts[k] >= lo) & (pts[k] <= hi)
        for v in (evalnp.evaluate(conds, pts, N) if conds else []):
            h &= v.astype(bool)
        hit |= h
    res.coverage = (int((ok & hit).sum()), int(ok.sum()))
    lost = ok & ~hit
    if lost.sum() > 0.002 * max(ok.sum(), 1) and lost.sum() > 3 or not spath:
        i = int(np.nonzero(lost)[0][0]) if lost.any() else None
        return ("mismatch", "%d of %d sampled inputs lie on no explored path%s" % (lost.sum(), ok.sum(), "" if i is None else ", e.g. %s" % {k: float(pts[k][i]) for k in case.box}))
    return None


def integers(case, rng, res, n=2):
    """The real package with inputs of Python's integer type: same obligations (bounded: n points)"""
    box = {k: b for k, b in case.box.items() if math.ceil(b[0]) <= math.floor(b[1]) and k not in case.reals}
    if not box or not INTEGERS[0]:
        return None
    pts = sample_points(case.box, rng, 40, {})
    for i in range(40):
        x = {k: int(min(max(round(pts[k][i]), math.ceil(box[k][0])), math.floor(box[k][1]))) if k in box else float(pts[k][i]) for k in sorted(case.box)}
        fails, vals = run_concrete(case, x, True, near=False)
        if fails is None:
            continue
        if fails and not run_concrete(case, {k: float(v) for k, v in x.items()}, True, near=False)[0]:
            return ("violation", x, fails)
        res.cross += len(vals)
        n -= 1
        if not n:
            break
    return None


INTEGERS = [True]


def crosscheck(case, spath, rng, res, n):
    """Real package under CPython against the engine's terms at random points."""
    if not case.box:
        fails, vals = run_concrete(case, {}, True)
        if fails:
            return ("violation", {}, fails)
        res.cross += len(vals)
        return None
    names = sorted(case.box)
    err = coverage(case, spath, rng, res)
    if err:
        return err
    for conds, sp, box in spath[:40]:
        if not n:
            break
        N = 400
        s = special_values(conds)
        pts = sample_points(box, rng, N, s)
        ok = np.ones(N, bool)
        for v in (evalnp.evaluate(conds, pts, N) if conds else []):
            ok &= v.astype(bool)
        idx = np.nonzero(ok)[0]
        if not len(idx):
            continue
        res.covered += 1
        k = n if len(spath) < 4 else 1
        for i in idx[:k]:
            x = {q: float(pts[q][i]) for q in names}
            fails, vals = run_concrete(case, x, True)
            if fails is None:
                continue
            if fails:
                return ("violation", x, fails)
            if res.sample is None:
                res.sample = {"case": case.name, "input": x, "values": dict(list(vals.items())[:3])}
            pv = {q: np.array([x[q]]) for q in names}
            try:
                tv = evalnp.evaluate([t for _, t in sp], pv, 1)
            except T.Unsupported:
                continue
            for (l, _), v in zip(sp, tv):
                if l in vals:
                    a, b = float(v[0]), vals[l]
                    res.cross += 1
                    if not (abs(a - b) <= 1e-8 * (1 + abs(b)) or (a != a and b != b) or a == b):
                        return ("mismatch", "%s: term %.12g, CPython %.12g at %s" % (l, a, b, x))
    return None
