"""The Scenario record, and the scenario a model exposes.

The record's code never looks at the values it stores, nor at a name except to compare it: the contracts run it with opaque values
(objects without any operation) and with an opaque name (a string that answers nothing but equality), which stand for all values
and all undocumented names.  Values with an identity of their own (None, False, zero, empty) are covered one by one."""
from pyvc import frame
from pyvc.contract import Case, eq, same
from . import scen
from .common import tag

ID = "C02"
FNS = ["Scenario.__init__", "Scenario.__getattr__", "Scenario.copy_with", "Scenario._check_keys"]
NAMES = scen.KNOWN


class Opaque:
    """A value with no operation but identity"""
    def __init__(self, n):
        object.__setattr__(self, "n", n)

    def _no(self, *a, **k):
        raise TypeError("the value of a scenario parameter was inspected")
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __len__ = __float__ = __int__ = __iter__ = __getitem__ = __add__ = __radd__ = __mul__ = _no
    __contains__ = __call__ = __setattr__ = __index__ = __abs__ = __neg__ = __sub__ = __array__ = __str__ = _no
    __hash__ = object.__hash__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class Unknown(str):
    """A name of which only equality can be asked: it equals no documented name"""
    def __eq__(self, o):
        return o is self

    def __ne__(self, o):
        return o is not self

    def __hash__(self):
        return str.__hash__("\0")

    def _no(self, *a, **k):
        raise RuntimeError("the characters of a name were inspected")
    __contains__ = __getitem__ = __len__ = __iter__ = __lt__ = __gt__ = lower = upper = strip = startswith = endswith = replace = split = casefold = find = _no


def special(w):
    return [None, False, True, 0, 0.0, -0.0, 1, "", "U", float("nan"), float("inf"), (), [], {}, w.np.array([1.0, 2.0]), w.np.float64(3.5), b""]


def near_misses():
    out = ["", " ", "x", "data", "copy", "get", "keys", "items", "update", "pop", "self", "KNOWN_KEYS", "__init__", "__dict__", "_check_keys", "vs30", "Vs30", "magnitude",
           "m", "dist", "depth", "distance", "rake", "scenario", "event", "type", "ref", "pga", "v_s_30", "dist_rupture", "z1.0", "depth_1_0_m", "mechanisms"]
    for n in NAMES:
        out += [n.upper(), n.capitalize(), n + " ", " " + n, n + "_", "_" + n, n[:-1], n[1:], n + "s", n.replace("_", ""), n.replace("_", "-"), n + "\n", n * 2, "model." + n]
    return sorted({n for n in out if n not in NAMES})


def raises(f):
    try:
        f()
    except Exception:
        return True
    return False


def view(s):
    return [(k, id(v)) for k, v in sorted(s.data.items())]


def record_name(name):
    def body(w, x):
        S = w.mod("model").Scenario
        for tagv, v in [("any value", Opaque(0))] + [("%r" % (v,), v) for v in special(w)]:
            s = S(**{name: v})
            yield same("%s: item" % tagv, s[name] is v, True)
            yield same("%s: attribute" % tagv, getattr(s, name) is v, True)
            yield same("%s: get, in, keys" % tagv, (s.get(name) is v, name in s, list(s), len(s)), (True, True, [name], 1))
            other = Opaque(1)
            c = s.copy_with(**{name: other})
            yield same("%s: replaced in the copy only" % tagv, (type(c) is S, c is not s, c[name] is other, getattr(c, name) is other, s[name] is v, getattr(s, name) is v), (True,) * 6)
            c = s.copy_with()
            yield same("%s: copied" % tagv, (type(c) is S, c is not s, view(c) == view(s), getattr(c, name) is v), (True,) * 4)
            e = S()
            c = e.copy_with(**{name: v})
            yield same("%s: added in the copy only" % tagv, (type(c) is S, view(c) == view(s), getattr(c, name) is v, len(e), raises(lambda: e[name])), (True, True, True, 0, True))
            c[name] = other
            yield same("%s: later changes of the copy" % tagv, (len(e), c[name] is other, getattr(c, name) is other), (0, True, True))
        for j in NAMES:                 # next to every other parameter
            if j == name:
                continue
            a, b, n = Opaque(2), Opaque(3), Opaque(4)
            for s in (S(**{j: a, name: b}), S(**{name: b, j: a})):
                yield same("next to " + j, (s[name] is b, s[j] is a, getattr(s, name) is b, getattr(s, j) is a, sorted(s)), (True,) * 4 + (sorted([name, j]),))
                c = s.copy_with(**{name: n})
                yield same("replaced next to " + j, (c[name] is n, c[j] is a, getattr(c, j) is a, s[name] is b, s[j] is a, sorted(c)), (True,) * 5 + (sorted([name, j]),))
                s[j] = n
                yield same("the copy does not follow the original, " + j, c[j] is a, True)
    return Case("record: " + name, {}, body, fns=FNS)


def record_all():
    def body(w, x):
        S = w.mod("model").Scenario
        v = {n: Opaque(i) for i, n in enumerate(NAMES)}
        for order in (NAMES, NAMES[::-1]):
            s = S(**{n: v[n] for n in order})
            yield same("items", (len(s), sorted(s)), (len(NAMES), sorted(NAMES)))
            for n in NAMES:
                yield same("item and attribute " + n, (s[n] is v[n], getattr(s, n) is v[n]), (True, True))
            for n in NAMES:
                o = Opaque(-1)
                c = s.copy_with(**{n: o})
                yield same("copy with " + n, ([k for k in NAMES if c[k] is not (o if k == n else v[k])], [k for k in NAMES if getattr(c, k) is not (o if k == n else v[k])],
                                              [k for k in NAMES if s[k] is not v[k]]), ([], [], []))
            new = {n: Opaque(i + 100) for i, n in enumerate(NAMES)}
            c = s.copy_with(**new)
            yield same("copy with all", ([k for k in NAMES if c[k] is not new[k]], [k for k in NAMES if s[k] is not v[k]]), ([], []))
    return Case("record: all parameters", {}, body, fns=FNS)


def unknown():
    def body(w, x):
        S = w.mod("model").Scenario
        names = [Unknown("\1any")] + near_misses()
        v = {n: Opaque(i) for i, n in enumerate(NAMES)}
        s = S(**v)
        before = view(s)
        for n in names:
            lab = "any other name" if type(n) is Unknown else repr(str(n))
            o = Opaque(5)
            yield same("%s rejected alone" % lab, raises(lambda: S(**{n: o})) or "accepted", True)
            yield same("%s rejected without a value" % lab, raises(lambda: S(**{n: None})) or "accepted", True)
            if n != "":
                yield same("%s rejected after the others" % lab, raises(lambda: S(**dict(v, **{n: o}))) or "accepted", True)
            yield same("%s rejected before the others" % lab, raises(lambda: S(**dict({n: o}, **v))) or "accepted", True)
            yield same("%s rejected by copy_with" % lab, raises(lambda: s.copy_with(**{n: o})) or "accepted", True)
            yield same("%s rejected by copy_with next to a known one" % lab, raises(lambda: s.copy_with(**{"mag": o, n: o})) or "accepted", True)
            yield same("%s leaves the original untouched" % lab, view(s) == before, True)
            if type(n) is not Unknown:
                yield same("%s is no item" % lab, raises(lambda: s[n]), True)
    return Case("record: other names", {}, body, fns=FNS)


def exposed(name, cat, given, ctor=None, label=""):
    rg = scen.ranges(name)
    b = {k: rg[k] for k in given}
    if ctor:
        b["ln_gm"] = (-7, 1)

    def body(w, x):
        k = scen.cls(w, name)
        kw = {n: x[n] for n in given}
        kw.update(cat)
        extra = {ctor: w.np.exp(x.ln_gm)} if ctor else {}
        m = k(w.Scenario(**{n: v for n, v in kw.items() if v is not None}), **extra)
        first = list(scen.results(w, name, m))
        s = m.scenario
        yield same("type", type(s) is w.mod("model").Scenario, True)
        yield same("every parameter of the model is there", [p.name for p in k.PARAMS if p.name not in s], [])
        for n in sorted(s):
            yield same("item and attribute agree: " + n, frame.token(s[n]), frame.token(getattr(s, n)))
        yield same("no attribute hides an item", sorted(set(vars(s)) - {"data"}), [])
        for n in given:
            yield eq("the value supplied: " + n, s[n], x[n], tol=1e-12)
        for n, v in cat.items():
            if v is not None:
                yield same("the value supplied: " + n, s[n], v)
        for n in scen.estimated(name):
            yield same("the estimate used is shown: " + n, s[n] is not None, True)
        again = list(scen.results(w, name, k(s, **extra)))
        for (l, a), (_, c) in zip(again, first):
            yield eq("evaluated from the exposed scenario: " + l, a, c)
    return Case("%s %s%s%s" % (name, tag(cat), " from " + ctor if ctor else "", label), b, body, assume=scen.assume(name),
                fns=[name + "." + f for f in ("__init__", "_check_inputs", "scenario")] + FNS)


def cases(tier):
    for n in NAMES:
        yield record_name(n)
    yield record_all()
    yield unknown()
    for name in scen.D:
        opt = scen.OPTIONAL.get(name, [])
        for cat, given in scen.spaces(name):
            for ctor in ["pga", "psa_1s"] if name == "AbrahamsonBhasin2020" else [None]:
                yield exposed(name, cat, given, ctor)
                o = [k for k in opt if k not in given]
                if o and (tier == "thorough" or all(cat.get(k) in (None, v[0]) for k, v in scen.options(name).items() if k in ("mechanism", "vs_source"))):
                    yield exposed(name, cat, given + o, ctor, label=" with " + ",".join(o))
