"""Crustal duration models."""
import numpy as rnp
from pyvc.contract import Case, eq, ge, same, true
from . import dur
from .common import product, tag

ID = "C13"
AS96_FNS = ["AbrahamsonSilva1996." + f for f in ["__init__", "duration", "std_err", "calc_ln_dur_incr", "interp"]]
KS_FNS = ["KemptonStewart2006." + f for f in ["__init__", "duration", "std_err", "_as_recarray", "_source_dur"]]
AS16_FNS = ["AfshariStewart2016." + f for f in ["__init__", "duration", "std_err", "_as_recarray", "_corner_freq", "calc_depth_1_0"]]
AS96_BOX = dict(mag=(4, 7.5), dist_rup=(0, 250))


def as96(site):
    def body(w, x):
        log = w.np.log
        kw = dict(x, site_cond=site)
        m = w.mod("abrahamson_silva_1996").AbrahamsonSilva1996(w.Scenario(**kw))
        base = log(dur.as96_base(w, kw))
        yield eq("ln duration", log(m.duration), base + dur.as96_incr(w, 0.75))
        yield eq("std_err", m.std_err, 0.55)
        yield eq("interp(0.75) is duration", log(m.interp(rnp.array([0.75]))), log(m.duration) + rnp.zeros(1))
        n = rnp.array([0.1, 0.37, 0.6, 0.95])
        yield eq("ln interp at fixed intensities", log(m.interp(n)), base + dur.as96_incr(w, n))
        st = m.interp(rnp.array(dur.AS96_NIAS), [-1.0, 0.0, 2.0])
        yield eq("ln interp with standard deviations", log(st),
                 base + dur.as96_incr(w, rnp.array(dur.AS96_NIAS)) + rnp.array([-1.0, 0.0, 2.0])[:, None] * rnp.array(dur.AS96_STD))
        out = m.interp(rnp.array([0.0999, 0.9501, 0.02, 1.0, -1.0]))
        yield same("interp is NaN outside [0.10, 0.95]", [bool(v) for v in w.np.isnan(out)], [True] * 5)
        out = m.interp(rnp.array([0.1, 0.95]), [1.0])
        yield same("interp is a number on [0.10, 0.95]", [bool(v) for v in w.np.isnan(out).ravel()], [False] * 2)
        lst = [0.05, 0.5]
        yield eq("interp accepts a list", log(m.interp(lst)[1:]), base + dur.as96_incr(w, rnp.array([0.5])))
    return Case("AS96 " + site, AS96_BOX, body, fns=AS96_FNS)


def as96_interp(site):
    def body(w, x):
        log = w.np.log
        kw = dict(mag=x.mag, dist_rup=x.dist_rup, site_cond=site)
        m = w.mod("abrahamson_silva_1996").AbrahamsonSilva1996(w.Scenario(**kw))
        f = lambda n: log(m.interp(w.np.array([n])))[0]
        yield eq("ln interp", f(x.nias), log(dur.as96_base(w, kw)) + dur.as96_incr(w, x.nias))
        yield ge("interp increases with the intensity", w.deriv(f, x.nias, 0.1, 0.95), 0.0, tol=1e-6)
        g = lambda n: log(m.interp(w.np.array([n]), [x.eps]))[0, 0]
        j = w.np.interp(x.nias, dur.AS96_NIAS, dur.AS96_STD)
        yield eq("ln interp with standard deviations", g(x.nias), f(x.nias) + x.eps * j)
    return Case("AS96 interp " + site, dict(AS96_BOX, nias=(0.1, 0.95), eps=(-3, 3)), body, fns=AS96_FNS)


def as96_out(lo, hi):
    def body(w, x):
        m = w.mod("abrahamson_silva_1996").AbrahamsonSilva1996(w.Scenario(mag=6.0, dist_rup=20.0, site_cond="rock"))
        yield same("NaN out of range", bool(w.np.isnan(m.interp(w.np.array([x.nias])))[0]), True)
    return Case("AS96 interp outside %g-%g" % (lo, hi), dict(nias=(lo, hi)), body, fns=AS96_FNS)


def ks06():
    def body(w, x):
        m = w.mod("kempton_stewart_2006").KemptonStewart2006(w.Scenario(**x))
        d, s = m.duration, m.std_err
        spec = dur.ks06(w, x)
        yield same("field names", (list(d.dtype.names), list(s.dtype.names)), ([n for n, _, _ in spec],) * 2)
        for n, v, sd in spec:
            yield eq("ln duration " + n, w.np.log(d[n]), w.np.log(v))
            yield eq("std_err " + n, s[n], sd)
    return Case("KS06", dict(mag=(5, 7.6), dist_rup=(0, 200), v_s30=(200, 1000)), body, fns=KS_FNS)


def as16(mech, depth):
    box = dict(mag=(3, 7.9), dist_rup=(0, 200), v_s30=(200, 1000))
    if depth:
        box["depth_1_0"] = (0, 3)

    def body(w, x):
        kw = dict(x, mechanism=mech)
        m = w.mod("afshari_stewart_2016").AfshariStewart2016(w.Scenario(**kw))
        d, s = m.duration, m.std_err
        spec = dur.as16(w, kw)
        yield same("field names", (list(d.dtype.names), list(s.dtype.names)), ([n for n, _, _ in spec],) * 2)
        for n, v, var in spec:
            yield eq("ln duration " + n, w.np.log(d[n]), v)
            yield eq("std_err^2 " + n, s[n] ** 2, var)
    return Case("AS16 %s%s" % (mech, " depth_1_0" if depth else ""), box, body, fns=AS16_FNS)


def cases(tier):
    for site in ["soil", "rock"]:
        yield as96(site)
        yield as96_interp(site)
    yield as96_out(-2, 0.0999999)
    yield as96_out(0.9500001, 3)
    yield ks06()
    for mech in ["SS", "NS", "RS"]:
        yield as16(mech, False)
        yield as16(mech, True)
