"""BSSA14: median and sigma are the published model."""
from pyvc.contract import Case, eq
from . import bssa14
from .common import product, tag, table

ID = "C06"
BOX = dict(dist_jb=(0, 300), mag=(3, 8.5), v_s30=(150, 1500))
FNS = ["BooreStewartSeyhanAtkinson2014." + f for f in ["__init__", "_check_inputs", "_calc_ln_resp", "calc_site_term", "_calc_ln_std"]] \
    + ["ChiouYoungs2014.calc_depth_1_0"]


def case(cat, basin):
    box = dict(BOX)
    if basin:
        box["depth_1_0"] = (0, 5)

    def body(w, x):
        kw = dict(x)
        kw.update(cat)
        m = w.mod("boore_stewart_seyhan_atkinson_2014").BooreStewartSeyhanAtkinson2014(w.Scenario(**kw))
        ln_y, tau, phi = bssa14.model(w, kw)
        c = table(bssa14.FILE)
        log = w.np.log
        var = tau ** 2 + phi ** 2
        yield eq("periods", m.periods, c["period"][bssa14.I_PSA])
        yield eq("ln spec_accels", log(m.spec_accels), ln_y[bssa14.I_PSA])
        yield eq("ln pga", log(m.pga), ln_y[bssa14.I_PGA])
        yield eq("ln pgv", log(m.pgv), ln_y[bssa14.I_PGV])
        yield eq("ln_stds^2", m.ln_stds ** 2, var[bssa14.I_PSA])
        yield eq("ln_std_pga^2", m.ln_std_pga ** 2, var[bssa14.I_PGA])
        yield eq("ln_std_pgv^2", m.ln_std_pgv ** 2, var[bssa14.I_PGV])
    return Case("BSSA14 %s%s" % (tag(cat), " depth_1_0" if basin else ""), box, body, fns=FNS)


def site_case(region):
    """calc_site_term as a public function of its own arguments"""
    def body(w, x):
        M = w.mod("boore_stewart_seyhan_atkinson_2014").BooreStewartSeyhanAtkinson2014
        pga = w.np.exp(x.ln_pga)
        yield eq("calc_site_term", M.calc_site_term(pga, x.v_s30, x.depth_1_0, region), bssa14.site(w, pga, x.v_s30, x.depth_1_0, region))
        yield eq("calc_site_term without depth", M.calc_site_term(pga, x.v_s30, None, region), bssa14.site(w, pga, x.v_s30, None, region))
    return Case("BSSA14 site term region=%s" % region, dict(ln_pga=(-10, 2), v_s30=(150, 1500), depth_1_0=(0, 5)), body, fns=FNS)


def cases(tier):
    for cat in product(mechanism=["U", "SS", "NS", "RS"], region=bssa14.REGIONS):
        yield case(cat, True)
    for region in bssa14.REGIONS:
        yield case(dict(region=region, mechanism="SS"), False)
    yield case({}, False)
    yield case({}, True)
    for region in ["california", "japan"]:
        yield site_case(region)
