"""Estimators of depths, width and geometry."""
import math

from pyvc.contract import Case, eq, ge
from . import ask14, cb14, cy14, ba19

ID = "C19"
V = (100, 3000)


def down(w, x, name, f, lo, hi):
    """f is positive and strictly decreasing in the input `name`"""
    yield ge("positive", f(x), 1e-12)
    yield ge("decreasing", -w.deriv(lambda v: f(dict(x, **{name: v})), x[name], lo, hi), 0.0)


def z1(mod, cls, spec, region):
    def get(w, v):
        m = getattr(w.mod(mod), cls)
        return m.calc_depth_1_0(v) if region == "-" else m.calc_depth_1_0(v, region)

    def body(w, x):
        yield eq("depth_1_0 (km)", get(w, x.v_s30), spec(w, x.v_s30, region), tol=1e-9)
        yield eq("ln depth_1_0", w.np.log(get(w, x.v_s30)), w.np.log(spec(w, x.v_s30, region)))
        yield from down(w, x, "v_s30", lambda q: get(w, q["v_s30"]), *V)
    return Case("%s.calc_depth_1_0 region=%s" % (cls, region), dict(v_s30=V), body, fns=[cls + ".calc_depth_1_0"])


def default_region(mod, cls):
    def body(w, x):
        m = getattr(w.mod(mod), cls)
        yield eq("the default region is the global relation", m.calc_depth_1_0(x.v_s30), m.calc_depth_1_0(x.v_s30, "california"), tol=1e-12)
    return Case(cls + ".calc_depth_1_0 default region", dict(v_s30=V), body, fns=[cls + ".calc_depth_1_0"])


def z25(region, given):
    def body(w, x):
        m = w.mod("campbell_bozorgnia_2014").CampbellBozorgnia2014
        np = w.np
        if given == "v_s30":
            get = lambda q: m.calc_depth_2_5(q["v_s30"], region)
            b = cb14.depth_2_5(w, x.v_s30, region)
        else:
            get = lambda q: m.calc_depth_2_5(None, region, q["depth_1_0"])
            # eqs. 6.12, 6.13 of PEER 2013/05
            b = np.exp(0.408 - 1.745 * np.log(x.depth_1_0)) if region == "japan" else np.exp(1.392 - 1.798 * np.log(x.depth_1_0))
        yield eq("ln depth_2_5 (km)", np.log(get(x)), np.log(b))
        if given == "v_s30":
            yield from down(w, x, "v_s30", get, *V)
        else:
            yield ge("positive", get(x), 1e-12)
    return Case("CampbellBozorgnia2014.calc_depth_2_5 region=%s from %s" % (region, given), {given: V if given == "v_s30" else (0.001, 8)}, body,
                fns=["CampbellBozorgnia2014.calc_depth_2_5"])


def tor_ask14():
    def body(w, x):
        m = w.mod("abrahamson_silva_kamai_2014").AbrahamsonSilvaKamai2014
        f = m.calc_depth_tor
        yield eq("depth_tor (km)", f(x.mag), ask14.depth_tor(w, x.mag))
        yield ge("non-negative", f(x.mag), 0.0, tol=1e-12)
        yield ge("does not increase with magnitude", -w.deriv(f, x.mag, 3.0, 8.5), 0.0)
    return Case("AbrahamsonSilvaKamai2014.calc_depth_tor", dict(mag=(3, 8.5)), body, fns=["AbrahamsonSilvaKamai2014.calc_depth_tor"])


def tor_cy14(mech):
    def body(w, x):
        m = w.mod("chiou_youngs_2014").ChiouYoungs2014
        f = lambda q: m.calc_depth_tor(q, mech)
        yield eq("depth_tor (km)", f(x.mag), cy14.depth_tor(w, x.mag, mech))
        yield ge("non-negative", f(x.mag), 0.0, tol=1e-12)
        yield ge("does not increase with magnitude", -w.deriv(f, x.mag, 3.0, 8.5), 0.0)
    return Case("ChiouYoungs2014.calc_depth_tor mechanism=%s" % mech, dict(mag=(3, 8.5)), body, fns=["ChiouYoungs2014.calc_depth_tor"])


def width_ask14():
    def body(w, x):
        m = w.mod("abrahamson_silva_kamai_2014").AbrahamsonSilvaKamai2014
        yield eq("width (km)", m.calc_width(x.mag, x.dip), ask14.width(w, x.mag, x.dip))
        yield ge("positive", m.calc_width(x.mag, x.dip), 0.01)
    return Case("AbrahamsonSilvaKamai2014.calc_width", dict(mag=(3, 8.5), dip=(5, 90)), body, fns=["AbrahamsonSilvaKamai2014.calc_width"])


def geometry_cb14(bot):
    """The rupture lies between its top and the bottom of the crust; the hypocentre between top and bottom of the rupture."""
    def body(w, x):
        m = w.mod("campbell_bozorgnia_2014").CampbellBozorgnia2014
        kw = {} if bot is None else dict(depth_bot=x.depth_bot)
        b = 15.0 if bot is None else x.depth_bot
        wd = m.calc_width(x.mag, x.dip, x.depth_tor, **kw)
        yield eq("width (km)", wd, cb14.width(w, x.mag, x.dip, x.depth_tor, b))
        yield ge("width positive", wd, 0.01)
    box = dict(mag=(3, 8.5), dip=(15, 90), depth_tor=(0, 14))
    if bot:
        box["depth_bot"] = (15, 60)
    return Case("CampbellBozorgnia2014.calc_width depth_bot=%s" % ("default" if bot is None else "given"), box, body, fns=["CampbellBozorgnia2014.calc_width"])


def bor_cb14():
    def body(w, x):
        m = w.mod("campbell_bozorgnia_2014").CampbellBozorgnia2014
        bor = m.calc_depth_bor(x.depth_tor, x.dip, x.width)
        yield eq("depth_bor (km)", bor, x.depth_tor + x.width * w.np.sin(x.dip * (math.pi / 180)), tol=1e-9)
        yield ge("below the top", bor - x.depth_tor, 1e-4)
    return Case("CampbellBozorgnia2014.calc_depth_bor", dict(depth_tor=(0, 50), dip=(5, 90), width=(0.01, 300)), body, fns=["CampbellBozorgnia2014.calc_depth_bor"])


def hyp_cb14():
    def body(w, x):
        m = w.mod("campbell_bozorgnia_2014").CampbellBozorgnia2014
        bor = x.depth_tor + x.height
        h = m.calc_depth_hyp(x.mag, x.dip, x.depth_tor, bor)
        yield eq("depth_hyp (km)", h, cb14.depth_hyp(w, x.mag, x.dip, x.depth_tor, bor))
        yield ge("hypocentre below the top", h - x.depth_tor, 0.0)
        yield ge("hypocentre above the bottom: at most 0.9 of the way down", w.np.log(0.9 * x.height) - w.np.log(h - x.depth_tor), 0.0, tol=1e-9)
    return Case("CampbellBozorgnia2014.calc_depth_hyp", dict(mag=(3, 8.5), dip=(5, 90), depth_tor=(0, 50), height=(0.01, 300)), body,
                fns=["CampbellBozorgnia2014.calc_depth_hyp"])


def cases(tier):
    for r in ("california", "japan", "taiwan", "global"):
        yield z1("abrahamson_silva_kamai_2014", "AbrahamsonSilvaKamai2014", ask14.depth_1_0, r)
        yield z1("chiou_youngs_2014", "ChiouYoungs2014", cy14.depth_1_0, r)
        yield z1("afshari_stewart_2016", "AfshariStewart2016", cy14.depth_1_0, r)
    yield z1("bayless_abrahamson_2019", "BaylessAbrahamson2019", lambda w, v, r: ba19.depth_1_0(w, v), "-")
    yield default_region("abrahamson_silva_kamai_2014", "AbrahamsonSilvaKamai2014")
    yield default_region("afshari_stewart_2016", "AfshariStewart2016")
    for r in ("global", "california", "japan"):
        yield z25(r, "v_s30")
        yield z25(r, "depth_1_0")
    yield tor_ask14()
    for m in ("SS", "NS", "RS", "U"):
        yield tor_cy14(m)
    yield width_ask14()
    yield geometry_cb14(None)
    yield geometry_cb14(True)
    yield bor_cb14()
    yield hyp_cb14()
