"""CY14: median and sigma are the published model."""
from pyvc.contract import Case, eq
from . import cy14
from .common import product, tag, table

ID = "C08"
BOX = dict(dist_rup=(0, 300), dist_jb=(0, 300), dist_x=(-300, 300), mag=(3.5, 8.5), v_s30=(180, 1500), dip=(0, 90))
OPT = dict(depth_tor=(0, 20), depth_1_0=(0, 5), dpp_centered=(-2, 2))
FNS = ["ChiouYoungs2014." + f for f in ["__init__", "_check_inputs", "_calc_ln_resp_ref", "_calc_ln_resp_site", "calc_site_term", "_calc_ln_std",
                                        "calc_depth_1_0", "calc_depth_tor"]]


def case(cat, given):
    box = dict(BOX)
    box.update({k: OPT[k] for k in given})

    def body(w, x):
        kw = dict(x)
        kw.update(cat)
        m = w.mod("chiou_youngs_2014").ChiouYoungs2014(w.Scenario(**kw))
        ln_y, tau2, phi2 = cy14.model(w, kw)
        c = table(cy14.FILE)
        log = w.np.log
        var = tau2 + phi2
        yield eq("periods", m.periods, c["period"][cy14.I_PSA])
        yield eq("ln spec_accels", log(m.spec_accels), ln_y[cy14.I_PSA])
        yield eq("ln pga", log(m.pga), ln_y[cy14.I_PGA])
        yield eq("ln pgv", log(m.pgv), ln_y[cy14.I_PGV])
        yield eq("ln_stds^2", m.ln_stds ** 2, var[cy14.I_PSA])
        yield eq("ln_std_pga^2", m.ln_std_pga ** 2, var[cy14.I_PGA])
        yield eq("ln_std_pgv^2", m.ln_std_pgv ** 2, var[cy14.I_PGV])
    return Case("CY14 %s given=%s" % (tag(cat), "+".join(given) or "none"), box, body, fns=FNS)


ALL = ["depth_tor", "depth_1_0", "dpp_centered"]


def cases(tier):
    for cat in product(mechanism=["U", "SS", "NS", "RS"], region=cy14.REGIONS):
        yield case(dict(cat, vs_source="inferred", on_hanging_wall=True), ALL)
    for region in cy14.REGIONS:
        yield case(dict(mechanism="RS", region=region, vs_source="measured", on_hanging_wall=False), ["depth_1_0", "dpp_centered"])
        yield case(dict(mechanism="NS", region=region, vs_source="measured", on_hanging_wall=True), [])
        yield case(dict(mechanism="SS", region=region), ["depth_tor"])
    yield case({}, [])
    yield case(dict(on_hanging_wall=True, mechanism="RS"), ["dpp_centered"])
