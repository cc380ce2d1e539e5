"""Subduction, V/H and conditional PGV models."""
import numpy as rnp
from pyvc.contract import Case, eq
from . import subd
from .common import product, tag, table

ID = "C11"
AGA_FNS = ["AbrahamsonGregorAddo2016." + f for f in ["__init__", "_calc_ln_resp", "_calc_f_mag", "_calc_f_depth", "_calc_f_faba", "_calc_f_site", "_calc_ln_std",
                                                     "adjust_c1", "adjust_c4", "scale_atten"]]
CB_FNS = ["CoppersmithBommer2014." + f for f in ["__init__", "_calc_ln_resp", "_calc_f_faba"]]
GA_FNS = ["GulerceAbrahamson2011." + f for f in ["__init__", "ratio", "ln_std", "_calc_ln_ratio", "_calc_ln_std_within", "_calc_ln_std_between", "_calc_ln_std"]]
AB_FNS = ["AbrahamsonBhasin2020." + f for f in ["__init__", "pgv", "ln_std_pgv", "ln_period_pgv"]]


def gmm(w, m, y, var, per, psa, pga):
    log = w.np.log
    yield eq("periods", m.periods, per[psa])
    yield eq("ln spec_accels", log(m.spec_accels), y[psa])
    yield eq("ln pga", log(m.pga), y[pga])
    yield eq("ln_stds^2", m.ln_stds ** 2, var[psa])
    yield eq("ln_std_pga^2", m.ln_std_pga ** 2, var[pga])


def aga(cat, adj=False):
    box = dict(mag=(3, 8.5), v_s30=(150, 1500))
    box.update(dict(dist_hyp=(0.1, 500), depth_hyp=(0, 200)) if cat["event_type"] == "intraslab" else dict(dist_rup=(0, 500)))
    if adj:
        box.update(adjust_c4=(-5, 20), scale_atten=(0, 3))
    if adj == "c1":
        box.update(adjust_c1=(-1, 1))

    def body(w, x):
        kw = {k: v for k, v in x.items() if "a" + k[1:] != "adjust" and not k.startswith(("adjust", "scale"))}
        kw.update(cat)
        a, sp = {}, {}
        if adj:
            a = dict(adjust_c4=x.adjust_c4, scale_atten=x.scale_atten)
            sp = dict(dc4=x.adjust_c4, atten=x.scale_atten)
        if adj == "c1":
            a["adjust_c1"] = x.adjust_c1
            sp["dc1"] = x.adjust_c1 * rnp.ones(23)
        if adj == "c1 vector":
            a["adjust_c1"] = sp["dc1"] = rnp.linspace(-0.4, 0.7, 23)
        m = w.mod("abrahamson_gregor_addo_2016").AbrahamsonGregorAddo2016(w.Scenario(**kw), **a)
        y, var = subd.aga16(w, kw, **sp)
        yield from gmm(w, m, y, var, table(subd.AGA, 1)["period"], rnp.arange(1, 23), 0)
        yield eq("adjust_c1", m.adjust_c1, sp["dc1"] if "dc1" in sp else subd.delta_c1(table(subd.AGA, 1)["period"], cat["event_type"]))
        yield eq("adjust_c4", m.adjust_c4, sp.get("dc4", 0.0))
        yield eq("scale_atten", m.scale_atten, sp.get("atten", 1.0))
    return Case("AGA16 %s%s" % (tag(cat), " adjusted %s" % adj if adj else ""), box, body, fns=AGA_FNS, reals=("adjust_c1",))


def cb(cat, adj):
    box = dict(mag=(3, 8.5), dist_rup=(0, 500), v_s30=(150, 1500))
    if adj:
        box["scale_atten"] = (0, 3)

    def body(w, x):
        kw = dict(mag=x.mag, dist_rup=x.dist_rup, v_s30=x.v_s30, **cat)
        a = dict(scale_atten=x.scale_atten) if adj else {}
        m = w.mod("coppersmith_bommer_2014").CoppersmithBommer2014(w.Scenario(**kw), **a)
        y, var = subd.cb14(w, kw, a.get("scale_atten", 1.0))
        # the table starts at PGA, tabulated as 0.01 s
        yield from gmm(w, m, y, var, table(subd.CB, 1)["period"], rnp.arange(14), 0)
    return Case("CoppersmithBommer2014 %s%s" % (tag(cat), " adjusted" if adj else ""), box, body, fns=CB_FNS + AGA_FNS)


def ga(mech):
    def body(w, x):
        kw = dict(x, mechanism=mech)
        m = w.mod("gulerce_abrahamson_2011").GulerceAbrahamson2011(w.Scenario(**kw))
        y, var = subd.ga11(w, kw)
        yield eq("PERIODS", m.PERIODS, table(subd.GA)["period"])
        yield eq("ln ratio", w.np.log(m.ratio), y)
        yield eq("ln_std^2", m.ln_std ** 2, var)
    return Case("GA11 " + mech, dict(dist_rup=(0, 200), mag=(5, 8.5), v_s30=(450, 1200), pga_ref=(0.001, 10)), body, fns=GA_FNS)


def ab(which):
    def body(w, x):
        M = w.mod("abrahamson_bhasin_2020").AbrahamsonBhasin2020
        kw = dict(dist_rup=x.dist_rup, mag=x.mag, v_s30=x.v_s30)
        gm = w.np.exp(x.ln_gm)
        m = M(w.Scenario(**kw), **{which: gm})
        y, var = subd.ab20(w, kw, which, gm)
        yield eq("ln pgv", w.np.log(m.pgv), y)
        yield eq("ln_std_pgv^2", m.ln_std_pgv ** 2, var)
        yield eq("ln_period_pgv", M.ln_period_pgv(x.mag), -4.09 + 0.66 * x.mag)
    return Case("AB20 from " + which, dict(dist_rup=(0, 300), mag=(3, 8), v_s30=(180, 1500), ln_gm=(-14, 3)), body, fns=AB_FNS)


def cases(tier):
    for ev in ["interface", "intraslab"]:
        for tr in [None, "forearc", "backarc", "unknown"]:
            cat = dict(event_type=ev)
            if tr:
                cat["tectonic_region"] = tr
            yield aga(cat)
            if tr in ("forearc", "backarc"):
                yield aga(cat, True)
                yield aga(cat, "c1")
                yield aga(cat, "c1 vector")
        yield cb(dict(event_type=ev), False)
        yield cb(dict(event_type=ev), True)
    for mech in ["SS", "NS", "RS"]:
        yield ga(mech)
    for which in ["pga", "psa_1s"]:
        yield ab(which)
