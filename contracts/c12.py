"""Standard deviations lie between 0.2 and 1.6 natural-log units; the total is the root sum of squares of its parts."""
from pyvc.contract import Case, eq, ge
from . import scen
from .common import product, tag

ID = "C12"
LOW, HIGH = 0.2, 1.6
NAMES = [n for n in scen.D if not n.startswith("PinillaRamos")]       # those report durations one standard deviation apart instead (C14)
# inputs the standard deviations can depend on; the remaining categories change medians only, which C05-C11, C13 and C15 cover
CATS = dict(AbrahamsonSilvaKamai2014=dict(on_hanging_wall=[False, True], is_aftershock=[False], mechanism=["SS", "RS"]),
            CampbellBozorgnia2014=dict(mechanism=["SS", "RS"]), ChiouYoungs2014=dict(mechanism=["SS", "RS"]))


def parts(m):
    """Between- and within-event standard deviations, of the models that keep them apart"""
    tau, phi = getattr(m, "_tau", None), getattr(m, "_phi", None)
    return None if tau is None or phi is None else (tau, phi)


def fns(name):
    return [name + "." + f for f in ("__init__", "_calc_ln_std", "ln_stds", "ln_std")]


def case(name, cat, given, ctor=None):
    rg = scen.ranges(name)
    box = {k: rg[k] for k in given}
    if name == "AbrahamsonBhasin2020":
        box["ln_gm"] = (-14, 3)

    def body(w, x):
        kw = {k: x[k] for k in given}
        kw.update(cat)
        extra = {ctor: w.np.exp(x.ln_gm)} if ctor else {}
        m = scen.make(w, name, kw, **extra)
        for n, v in scen.stds(w, name, m):
            if name == "TavakoliPezeshk05" and n == "ln_stds":
                v = w.np.concatenate([v[:6], v[7:]])
            yield ge(n + " at least 0.2", v, LOW, abstract=True)
            yield ge(n + " at most 1.6", -v, -HIGH, abstract=True)
        p = parts(m)
        if p:
            yield eq("total variance is the sum of the parts", m._ln_std ** 2, p[0] ** 2 + p[1] ** 2)
    return Case("%s %s%s" % (name, tag(cat), " from " + ctor if ctor else ""), box, body, fns=fns(name), assume=scen.assume(name))


def tp05(lo, hi, known=False):
    """The tabulated standard deviation at 0.5 s leaves the range between M 6.24 and 7.2 (recorded in known-findings.json): split there,
    so that everything else about that period stays decided."""
    def body(w, x):
        m = scen.make(w, "TavakoliPezeshk05", dict(mag=x.mag, dist_rup=x.dist_rup))
        yield ge("ln_stds[0.5 s] at least 0.03", m.ln_stds[6], 0.03)
        yield ge("ln_stds[0.5 s] at most 1.6", -m.ln_stds[6], -HIGH)
        yield ge("ln_stds[0.5 s] at least 0.2", m.ln_stds[6], LOW)
    return Case("TavakoliPezeshk05 0.5 s M %g-%g" % (lo, hi), dict(mag=(lo, hi), dist_rup=(0, 1000)), body, fns=fns("TavakoliPezeshk05"))


def cases(tier):
    yield tp05(5, 6.24)
    yield tp05(6.24, 7.2)
    yield tp05(7.2, 8.2)
    for name in NAMES:
        for cat, given in scen.spaces(name, CATS.get(name)):
            for ctor in ["pga", "psa_1s"] if name == "AbrahamsonBhasin2020" else [None]:
                yield case(name, cat, given + [k for k in scen.OPTIONAL.get(name, []) if k in ("depth_1_0", "depth_2_5", "depth_tor", "width", "depth_hyp") and not
                                               (k == "depth_1_0" and name == "CampbellBozorgnia2014")], ctor)
