"""Nonlinear site response: the site term falls, and the site motion rises, as the reference motion rises."""
import math
from pyvc.contract import Case, cont, eq, ge
from . import ask14, bssa14, cb14, cy14
from .common import table, tag
from .scen import options, ranges, cls

ID = "C18"
LO, HI = math.log(1e-4), math.log(3.0)
A, B, C, Y = "AbrahamsonSilvaKamai2014", "BooreStewartSeyhanAtkinson2014", "CampbellBozorgnia2014", "ChiouYoungs2014"
# model -> velocity from which the response is linear at every period; reference velocity; slope allowed
MODELS = {A: dict(linear=960.0, ref=None, tol=0.0, depth=(0, 10)),
          B: dict(linear=760.0, ref=760.0, tol=2e-4, depth=(0, 5)),         # the tabulated f_4 is +0.0002 at 5.5 to 7 s
          C: dict(linear=1090.0, ref=None, tol=0.0, depth=(0, 10)),
          Y: dict(linear=1130.0, ref=1130.0, tol=0.0, depth=(0, 5))}


def site(w, name, ln_ref, v, depth, region):
    k = cls(w, name)
    ref = w.np.exp(ln_ref)
    if name in (A, Y):
        ref = ref * w.np.ones(len(k.PERIODS))
    return k.calc_site_term(ref, v, depth, region)


def fns(name):
    return [name + ".calc_site_term", name + (".calc_depth_1_0" if name != C else ".calc_depth_2_5")]


def mono(name, region):
    m = MODELS[name]
    v = ranges(name)["v_s30"]

    def body(w, x):
        d = w.deriv(lambda u: site(w, name, u, x.v_s30, x.depth, region), x.ln_ref, LO, HI)
        yield ge("the site term does not rise with the reference motion", -d, 0.0, tol=m["tol"] + 1e-9)
        yield ge("the site motion does not fall as the reference motion rises", 1 + d, 0.0, tol=1e-9)
    return Case("%s region=%s" % (name, region), dict(ln_ref=(LO, HI), v_s30=v, depth=m["depth"]), body, fns=fns(name))


def steady(name, region):
    """the site term has no steps, so that its slopes decide"""
    def body(w, x):
        yield cont("site term", site(w, name, x.ln_ref, x.v_s30, x.depth, region), tol=1e-3)
    return Case("%s steps region=%s" % (name, region), dict(ln_ref=(LO, HI), v_s30=ranges(name)["v_s30"], depth=MODELS[name]["depth"]), body, fns=fns(name))


def linear(name, region):
    m = MODELS[name]

    def body(w, x):
        a = site(w, name, x.ln_ref, x.v_s30, x.depth, region)
        b = site(w, name, x.ln_ref_2, x.v_s30, x.depth, region)
        yield eq("no influence of the reference motion", a, b, tol=1e-9)
    return Case("%s linear region=%s" % (name, region), dict(ln_ref=(LO, HI), ln_ref_2=(LO, HI), v_s30=(m["linear"], ranges(name)["v_s30"][1]), depth=m["depth"]), body, fns=fns(name))


def neutral(name, region):
    """No site term at the velocity for which the reference motion is defined"""
    def body(w, x):
        k = cls(w, name)
        if name == B:
            yield eq("site term at the reference velocity", site(w, name, x.ln_ref, 760.0, None, region), 0.0, tol=1e-9)
        elif name == Y:
            yield eq("site term at the reference velocity", site(w, name, x.ln_ref, 1130.0, k.calc_depth_1_0(1130.0, region), region), 0.0, tol=1e-9)
    return Case("%s neutral region=%s" % (name, region), dict(ln_ref=(LO, HI)), body, fns=fns(name))


def cases(tier):
    for name in MODELS:
        for region in options(name)["region"]:
            yield mono(name, region)
            yield steady(name, region)
            yield linear(name, region)
            if name in (B, Y):
                yield neutral(name, region)
