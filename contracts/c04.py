"""Result accessors and interpolation in log period."""
import math

import numpy as rnp

from pyvc.contract import Case, eq, true, same
from .common import jtable
from . import c03

ID = "C04"


def raises(f):
    try:
        f()
    except NotImplementedError:
        return True
    return False


def mag_box(d):
    p = next(p for p in d["params"] if p[0] == "mag")
    return (p[3] if p[3] is not None else 4.0), (p[4] if p[4] is not None else 8.0)


def make(w, name, d, **kw):
    return getattr(w.mod(d["module"]), name)(w.Scenario(**c03.nominal(d, **kw)))


def accessors(name, d, P):
    has = P["has"]

    def body(w, x):
        m = make(w, name, d, mag=x.mag)
        np = w.np
        t = rnp.array(P["periods"])
        yield eq("periods", m.periods, t)
        yield same("periods are positive and strictly increase", bool(rnp.all(t > 0) and rnp.all(rnp.diff(t) > 0)), True)
        yield same("lengths", (np.shape(m.spec_accels), np.shape(m.ln_stds)), ((len(t),),) * 2)
        ln = np.log(m.spec_accels)
        yield eq("interpolation at all periods", m.interp_ln_spec_accels(m.periods), ln)
        yield eq("ln interp_spec_accels at all periods", np.log(m.interp_spec_accels(m.periods)), ln)
        yield eq("standard deviation at all periods", m.interp_ln_stds(m.periods), m.ln_stds)
        rev = list(t[::-1])
        yield eq("order and type of the periods", m.interp_ln_spec_accels(rev), ln[::-1])
        yield eq("standard deviation, order and type of the periods", m.interp_ln_stds(rev), m.ln_stds[::-1])
        yield eq("reading again", np.log(m.spec_accels), ln)
        yield eq("reading the standard deviation again", m.interp_ln_stds(m.periods), m.ln_stds)
        for q in ("pga", "pgv", "pgd"):
            a = raises(lambda: getattr(m, q))
            b = raises(lambda: getattr(m, "ln_std_" + q))
            yield same("%s is defined" % q, (not a, not b), (q in has, q in has))
            if q in has:
                yield same("%s is a scalar" % q, (np.ndim(getattr(m, q)), np.ndim(getattr(m, "ln_std_" + q))), (0, 0))
    return Case("%s accessors" % name, dict(mag=mag_box(d)), body, fns=FNS)


FNS = ["GroundMotionModel." + f for f in ["interp_ln_spec_accels", "interp_spec_accels", "interp_ln_stds", "periods", "spec_accels", "ln_stds", "pga", "pgv",
                                          "pgd", "ln_std_pga", "ln_std_pgv", "ln_std_pgd", "_resp"]]


def between(name, d, P, k0, k1):
    t = P["periods"]

    def body(w, x):
        m = make(w, name, d, mag=x.mag)
        np = w.np
        ln, sd = np.log(m.spec_accels), m.ln_stds
        for k in range(k0, k1):
            T = np.exp(math.log(t[k]) + x.u * (math.log(t[k + 1]) - math.log(t[k])))
            want = (1 - x.u) * ln[k] + x.u * ln[k + 1]
            yield eq("ln spec_accels between %g and %g s" % (t[k], t[k + 1]), m.interp_ln_spec_accels(np.array([T]))[0], want)
            yield eq("spec_accels between %g and %g s" % (t[k], t[k + 1]), np.log(m.interp_spec_accels(np.array([T])))[0], want)
            yield eq("ln_stds between %g and %g s" % (t[k], t[k + 1]), m.interp_ln_stds(np.array([T]))[0], (1 - x.u) * sd[k] + x.u * sd[k + 1])
    return Case("%s between periods %d-%d" % (name, k0, k1), dict(mag=mag_box(d), u=(0.0001, 0.9999)), body, fns=FNS)


def outside(name, d, P):
    t = P["periods"]

    def body(w, x):
        m = make(w, name, d, mag=x.mag)
        np = w.np
        for n, T in (("below", t[0] * np.exp(-x.u)), ("above", t[-1] * np.exp(x.u))):
            for f in ("interp_ln_spec_accels", "interp_spec_accels", "interp_ln_stds"):
                yield true("%s is NaN %s the periods" % (f, n), np.isnan(getattr(m, f)(np.array([T]))[0]))
    return Case("%s outside the periods" % name, dict(mag=mag_box(d), u=(1e-6, 6)), body, fns=FNS)


def ga11(mech):
    name, d, P = "GulerceAbrahamson2011", jtable("params.json")["GulerceAbrahamson2011"], jtable("periods.json")["GulerceAbrahamson2011"]
    t = P["periods"]

    def body(w, x):
        np = w.np
        m = make(w, name, d, mag=x.mag, mechanism=mech)
        i = slice(2, 24)
        ln, sd = np.log(m.ratio)[i], m.ln_std[i]
        yield eq("periods", m.PERIODS[m.INDICES_PSA], rnp.array(t))
        yield eq("at the periods", np.log(m.interp_ratio(t)), ln)
        yield eq("standard deviation at the periods", m.interp_ln_std(t), sd)
        for k in range(len(t) - 1):
            T = np.array([np.exp(math.log(t[k]) + x.u * (math.log(t[k + 1]) - math.log(t[k])))])
            yield eq("ln ratio between %g and %g s" % (t[k], t[k + 1]), np.log(m.interp_ratio(T))[0], (1 - x.u) * ln[k] + x.u * ln[k + 1])
            yield eq("ln_std between %g and %g s" % (t[k], t[k + 1]), m.interp_ln_std(T)[0], (1 - x.u) * sd[k] + x.u * sd[k + 1])
        for n, T, k in (("below", t[0] * np.exp(-5 * x.u), 0), ("above", t[-1] * np.exp(5 * x.u), -1)):
            yield eq("ln ratio %s the periods" % n, np.log(m.interp_ratio(np.array([T])))[0], ln[k])
            yield eq("ln_std %s the periods" % n, m.interp_ln_std(np.array([T]))[0], sd[k])
    return Case("GulerceAbrahamson2011 interpolation %s" % mech, dict(mag=(5, 8.5), u=(0.0001, 0.9999)), body,
                fns=["GulerceAbrahamson2011." + f for f in ["interp_ratio", "interp_ln_std", "ratio", "ln_std"]])


def cases(tier):
    D, PP = jtable("params.json"), jtable("periods.json")
    for name, P in PP.items():
        if name == "GulerceAbrahamson2011":
            continue
        d = D[name]
        yield accessors(name, d, P)
        yield outside(name, d, P)
        n = len(P["periods"]) - 1
        for k in range(0, n, 21):
            yield between(name, d, P, k, min(n, k + 21))
    for mech in ("SS", "NS", "RS"):
        yield ga11(mech)
