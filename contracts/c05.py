"""ASK14: median and sigma are the published model."""
from pyvc.contract import Case, eq
from . import ask14
from .common import product, tag, table

ID = "C05"
BOX = dict(dist_rup=(0, 300), dist_jb=(0, 300), mag=(3, 8.5), v_s30=(180, 1000), dip=(10, 89))
OPT = dict(depth_1_0=(0, 10), depth_tor=(0, 50), width=(0.1, 200), dist_crjb=(0, 300))
HW = dict(dist_x=(0, 500), dist_y0=(0, 500))
FNS = ["AbrahamsonSilvaKamai2014." + f for f in
       ["__init__", "_check_inputs", "_calc_ln_resp", "calc_site_term", "_calc_ln_std", "calc_width", "calc_depth_tor",
        "calc_depth_1_0", "_calc_f1", "_calc_f4"]]


def case(cat, given):
    box = dict(BOX)
    box.update({k: OPT[k] if k in OPT else HW[k] for k in given})

    def body(w, x):
        kw = dict(x)
        kw.update(cat)
        m = w.mod("abrahamson_silva_kamai_2014").AbrahamsonSilvaKamai2014(w.Scenario(**kw))
        s = dict(kw)
        if "width" not in given:
            s["width"] = ask14.width(w, x.mag, x.dip)
        if "depth_tor" not in given:
            s["depth_tor"] = ask14.depth_tor(w, x.mag)
        ln_psa, tau, phi, ln_ref = ask14.model(w, s)
        c = table(ask14.FILE)
        log = w.np.log
        yield eq("periods", m.periods, c["period"][:22])
        yield eq("ln spec_accels", log(m.spec_accels), ln_psa[:22])
        yield eq("ln pga", log(m.pga), ln_psa[22])
        yield eq("ln pgv", log(m.pgv), ln_psa[23])
        var = tau ** 2 + phi ** 2
        yield eq("ln_stds^2", m.ln_stds ** 2, var[:22])
        yield eq("ln_std_pga^2", m.ln_std_pga ** 2, var[22])
        yield eq("ln_std_pgv^2", m.ln_std_pgv ** 2, var[23])
    return Case("ASK14 %s given=%s" % (tag(cat), "+".join(given) or "none"), box, body, fns=FNS)


def cases(tier):
    for cat in product(mechanism=["SS", "NS", "RS"], region=ask14.REGIONS, vs_source=["measured", "inferred"]):
        yield case(cat, ["depth_1_0", "depth_tor", "width"])
    for cat in product(mechanism=["SS", "NS", "RS"], region=["global", "japan", "taiwan"], on_hanging_wall=[True]):
        yield case(cat, ["depth_1_0", "depth_tor", "width", "dist_x", "dist_y0"])
        yield case(cat, ["depth_tor", "dist_x"])
        yield case(cat, ["dist_x", "dist_y0"])
    for region in ask14.REGIONS:
        yield case(dict(mechanism="RS", region=region), [])
        yield case(dict(mechanism="NS", region=region, is_aftershock=True), ["dist_crjb", "depth_tor"])
        yield case(dict(mechanism="SS", region=region, is_aftershock=True, on_hanging_wall=True), ["dist_x"])
    yield case(dict(mechanism="SS"), [])
    yield case(dict(mechanism="RS", on_hanging_wall=False), ["dist_x", "dist_y0", "dist_crjb"])
