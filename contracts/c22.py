"""Continuity of the medians across internal thresholds."""
import math

from pyvc.contract import Case, cont
from . import cb14, scen
from .common import tag

ID = "C22"


def fns(name):
    return [name + "." + f for f in ("__init__", "_calc_ln_resp")]


def taper(given):
    """CB14's hanging-wall taper at least 1 km wide, between the surface projection R1 and R2 (below that it is a step)"""
    def assume(w, x):
        wid = x.width if "width" in given else cb14.width(w, x.mag, x.dip, x.depth_tor, x.depth_bot if "depth_bot" in given else 15.0)
        r = 62 * x.mag - 350 - wid * w.np.cos(x.dip * (math.pi / 180))
        return [x.dist_jb <= x.dist_rup, abs(r) >= 1]
    return assume


def case(name, cat, given, ctor=None, label="", box=None, assume=None):
    rg = scen.ranges(name)
    b = {k: rg[k] for k in given}
    if ctor:
        b["ln_gm"] = (-7, 1)
    b.update(box or {})

    def body(w, x):
        kw = {k: x[k] for k in given}
        kw.update(cat)
        extra = {ctor: w.np.exp(x.ln_gm)} if ctor else {}
        m = scen.make(w, name, kw, **extra)
        for n, v in scen.medians(w, name, m):
            yield cont(n, v)
    return Case("%s %s%s%s" % (name, tag(cat), " from " + ctor if ctor else "", label), b, body, fns=fns(name), assume=assume or scen.assume(name))


# inputs at which the published model itself jumps, left out
NARROW = {
    "AbrahamsonGregorAddo2016": dict(v_s30=(150, 1000)),     # the linear velocity of two periods is above the 1000 m/s at which Vs30 is capped
    "CoppersmithBommer2014": dict(v_s30=(120, 1000)),
}
SKIP = {"BaylessAbrahamson2019"}


def cases(tier):
    for name in scen.D:
        if name in SKIP:
            continue
        opt = [k for k in scen.OPTIONAL.get(name, [])]
        for cat, given in scen.spaces(name):
            if name == "CampbellBozorgnia2014":
                for more in ([], [k for k in opt if k not in given]) if tier == "thorough" or cat["mechanism"] == "SS" else ([],):
                    g = given + more
                    lab = " with " + ",".join(more) if more else ""
                    yield case(name, cat, g, label=lab + " footwall", box=dict(dist_x=(-300, -1e-6)))
                    yield case(name, cat, g + ([] if "depth_tor" in g else ["depth_tor"]), label=lab + " hanging wall", assume=taper(g),
                               box=dict(dist_x=(0, 300), **({} if "width" in g else dict(depth_tor=(0, 14.9)))))   # a rupture above the seismogenic base
                continue
            if name == "ChiouYoungs2014" and cat["region"] in ("italy", "japan"):
                continue                                     # anelastic attenuation is scaled for 6 < M < 6.9 only
            for ctor in ["pga", "psa_1s"] if name == "AbrahamsonBhasin2020" else [None]:
                yield case(name, cat, given, ctor, box=NARROW.get(name))
                o = [k for k in opt if k not in given]
                if o and (tier == "thorough" or all(cat.get(k) in (None, v[0]) for k, v in scen.options(name).items() if k in ("mechanism", "vs_source"))):
                    yield case(name, cat, given + o, ctor, label=" with " + ",".join(o), box=NARROW.get(name))
