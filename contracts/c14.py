"""Pinilla-Ramos duration models."""
from pyvc.contract import Case, eq, ge, same, true
from . import pinilla as P
from .common import product, tag

ID = "C14"
PR23_BOX = dict(mag=(4, 8), dist_rup=(0, 300), v_s30=(150, 2000))
PR24_BOX = dict(mag=(4.5, 8.5), dist_rup=(0, 300), v_s30=(150, 2000))
F23 = ["PinillaRamosEtAl2023." + f for f in ["__init__", "_calc_duration", "duration", "duration_plus_sigma", "duration_minus_sigma", "duration_for_energy"]]
F24 = ["PinillaRamosEtAl2024." + f for f in ["__init__", "_validate_region_event_type", "_calc_d575_median", "_calc_d575_sigma", "_get_energy_coefficients",
                                             "_calc_duration", "duration", "duration_plus_sigma", "duration_minus_sigma", "duration_for_energy"]]
REGIONS = ["Japan", "New Zealand", "South America", "Taiwan"]


def obligations(w, res, spec, n, clamp=False, pre=""):
    med, plus, minus = res
    d, sd = spec
    ln = w.np.log
    yield ge(pre + "median is positive", d, 1e-4)
    yield ge(pre + "standard deviation is positive", sd, 1e-3)
    yield eq(pre + "ln median", ln(med), ln(d))
    dn = w.np.exp(n * ln(d))
    yield eq(pre + "ln plus", ln(plus), ln(dn + sd) / n)
    low = dn - sd
    if clamp:
        yield eq(pre + "minus", minus, w.np.where(low > 0, low, 0.0) ** (1 / n))
    else:
        yield ge(pre + "median power exceeds its standard deviation", low, 1e-4)
        yield eq(pre + "ln minus", ln(minus), ln(low) / n)


def rng(thr):
    return max(0.10, thr - 0.025 + 1e-9), min(0.95, thr + 0.025 - 1e-9)


def pr23(thr):
    def body(w, x):
        s = dict(mag=x.mag, dist_rup=x.dist_rup, v_s30=x.v_s30)
        m = w.mod("pinilla_ramos_et_al_2023").PinillaRamosEtAl2023(w.Scenario(**s))
        if thr is None:
            yield from obligations(w, (m.duration, m.duration_plus_sigma, m.duration_minus_sigma), P.pr23_base(w, s), P.N23)
        else:
            yield from obligations(w, m.duration_for_energy(x.energy), P.duration(w, P.pr23_base(w, s), P.pr23_ratio(w, s, thr), P.N23, thr), P.N23, clamp=thr < 0.5)
    return Case("PR23 " + ("default" if thr is None else "energy %g" % thr), dict(PR23_BOX, **({} if thr is None else dict(energy=rng(thr)))), body, fns=F23)


def pr24(cat, thr):
    def body(w, x):
        s = dict(mag=x.mag, dist_rup=x.dist_rup, v_s30=x.v_s30, **cat)
        m = w.mod("pinilla_ramos_et_al_2024").PinillaRamosEtAl2024(w.Scenario(**s))
        n = P.N24[cat["event_type"]]
        if thr is None:
            yield from obligations(w, (m.duration, m.duration_plus_sigma, m.duration_minus_sigma), P.pr24_base(w, s), n)
        else:
            yield from obligations(w, m.duration_for_energy(x.energy), P.duration(w, P.pr24_base(w, s), P.pr24_ratio(w, s, thr), n, thr), n)
    return Case("PR24 %s %s" % (tag(cat), "default" if thr is None else "energy %g" % thr), dict(PR24_BOX, **({} if thr is None else dict(energy=rng(thr)))), body, fns=F24)


def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False


def outside(lo, hi):
    def body(w, x):
        s = dict(mag=6.5, dist_rup=50.0, v_s30=400.0)
        m = w.mod("pinilla_ramos_et_al_2023").PinillaRamosEtAl2023(w.Scenario(**s))
        yield same("PR23 raises", raises(lambda: m.duration_for_energy(x.energy)), True)
        m = w.mod("pinilla_ramos_et_al_2024").PinillaRamosEtAl2024(w.Scenario(event_type="slab", region="Japan", **s))
        yield same("PR24 raises", raises(lambda: m.duration_for_energy(x.energy)), True)
    return Case("energy outside %g-%g" % (lo, hi), dict(energy=(lo, hi)), body, fns=F23[-1:] + F24[-1:])


def combos():
    def body(w, x):
        M = w.mod("pinilla_ramos_et_al_2024").PinillaRamosEtAl2024
        for c in list(product(event_type=["interface", "slab", "shallow", None], region=REGIONS + ["California", None])):
            ok = c["event_type"] in ("interface", "slab") and c["region"] in REGIONS and c != dict(event_type="interface", region="Taiwan")
            yield same("raises for " + tag(c), raises(lambda: M(w.Scenario(mag=x.mag, dist_rup=x.dist_rup, v_s30=x.v_s30, **c))), not ok)
    return Case("PR24 unsupported combinations", PR24_BOX, body, fns=F24[:2])


def legacy():
    def body(w, x):
        f = w.mod("pinilla_ramos_et_al_2024").duration_model
        cat = dict(event_type="slab", region="Japan")
        mags = [x.mag, 6.5]
        for thr in (0.75, 0.5):
            out = f(w.np.array(mags), w.np.array([x.dist_rup, 70.0]), x.v_s30, "Japan", "slab", thr)
            for i, (mag, r) in enumerate([(x.mag, x.dist_rup), (6.5, 70.0)]):
                s = dict(mag=mag, dist_rup=r, v_s30=x.v_s30, **cat)
                yield from obligations(w, [o[i] for o in out], P.duration(w, P.pr24_base(w, s), P.pr24_ratio(w, s, thr), 0.25, thr), 0.25, pre="%g[%d] " % (thr, i))
    return Case("PR24 duration_model", PR24_BOX, body, fns=["duration_model"])


def cases(tier):
    for thr in [None] + P.THRESHOLDS:
        yield pr23(thr)
    for cat in product(event_type=["interface", "slab"], region=REGIONS):
        if cat != dict(event_type="interface", region="Taiwan"):
            for thr in [None] + P.THRESHOLDS:
                yield pr24(cat, thr)
    yield outside(-1, 0.0999999)
    yield outside(0.9500001, 2)
    yield combos()
    yield legacy()
