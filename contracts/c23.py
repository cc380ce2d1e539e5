"""Every scenario within the declared limits is evaluated without an exception and yields numbers; medians are positive.

Construction of the model without an exception is an obligation of every path of every case (the engine reports any
exception as a violation); `defined` obliges every division, logarithm, root and power of the value to be applied
inside its domain, on the closed ranges.  Medians are exponentials or sums shown positive."""
from pyvc.contract import Case, defined, ge
from . import scen
from .common import tag

ID = "C23"


def fns(name):
    return [name + "." + f for f in ("__init__", "_calc_ln_resp", "_calc_ln_std", "_check_inputs")]


def case(name, cat, given, ctor=None, box=None, label=""):
    rg = scen.ranges(name)
    b = {k: rg[k] for k in given}
    if name == "AbrahamsonBhasin2020":
        b["ln_gm"] = (-14, 3)
    b.update(box or {})
    if box:
        del b["dist_jb"]

    def body(w, x):
        kw = {k: x[k] for k in given if k in b}
        kw.update(cat)
        if box:
            kw["dist_jb"] = 0.0
        extra = {ctor: w.np.exp(x.ln_gm)} if ctor else {}
        m = scen.make(w, name, kw, **extra)
        for n, v in scen.results(w, name, m):
            yield defined(n, v)
    return Case("%s %s%s%s" % (name, tag(cat), " from " + ctor if ctor else "", label), b, body, fns=fns(name), assume=None if box else scen.assume(name))


def ks06(label, **box):
    """The published D5-75v relation is negative (no median) for small near events on rock (recorded in known-findings.json):
    split there, so that the rest of the range stays decided"""
    def body(w, x):
        m = scen.make(w, "KemptonStewart2006", dict(x))
        for n, v in scen.results(w, "KemptonStewart2006", m):
            yield defined(n, v)
    b = dict(scen.ranges("KemptonStewart2006"), **box)
    return Case("KemptonStewart2006 " + label, b, body, fns=fns("KemptonStewart2006"))


def cases(tier):
    yield ks06("small near events on rock", mag=(5, 5.1), dist_rup=(0, 0.7), v_s30=(968, 1000))
    yield ks06("larger events", mag=(5.1, 7.6))
    yield ks06("farther", dist_rup=(0.7, 200))
    yield ks06("softer", v_s30=(200, 968))
    for name in scen.D:
        if name == "KemptonStewart2006":
            continue
        opt = [k for k in scen.OPTIONAL.get(name, [])]
        for cat, given in scen.spaces(name):
            for ctor in ["pga", "psa_1s"] if name == "AbrahamsonBhasin2020" else [None]:
                yield case(name, cat, given, ctor)
                if name == "CampbellBozorgnia2014":
                    yield case(name, cat, given, ctor, dict(dist_rup=(0, 0.1)), " above the rupture")
                o = [k for k in opt if k not in given]
                # quick: the optional inputs given, for one mechanism and Vs30 source (they do not meet these terms); thorough: for all
                if o and (tier == "thorough" or all(cat.get(k) in (None, v[0]) for k, v in scen.options(name).items() if k in ("mechanism", "vs_source"))):
                    yield case(name, cat, given + o, ctor, label=" with " + ",".join(o))
