"""Bayless and Abrahamson (2019) Fourier amplitude model."""
from pyvc.contract import Case, eq, ge
from . import ba19 as B
from .common import product, tag

ID = "C15"
BOX = dict(mag=(3, 8), dist_rup=(0, 300), v_s30=(180, 1500), depth_tor=(0, 20))
FNS = ["BaylessAbrahamson2019." + f for f in ["__init__", "_check_inputs", "_calc_ln_eas", "_calc_site_response", "_calc_ln_std", "calc_depth_1_0",
                                              "freqs", "ln_eas", "eas", "ln_std"]]


def case(mech, z1):
    def body(w, x):
        s = dict(mag=x.mag, dist_rup=x.dist_rup, v_s30=x.v_s30, depth_tor=x.depth_tor, mechanism=mech)
        given = {k: v for k, v in s.items() if v is not None}
        if z1:
            given["depth_1_0"] = x.depth_1_0
        m = w.mod("bayless_abrahamson_2019").BaylessAbrahamson2019(w.Scenario(**given))
        s = dict(s, mechanism=mech or "SS", depth_1_0=x.depth_1_0 if z1 else None)
        f, ln = B.ln_eas(w, s)
        yield eq("freqs", m.freqs, f)
        yield eq("ln_eas", m.ln_eas, ln)
        yield eq("ln of eas", w.np.log(m.eas), ln)
        var = B.variance(w, s)
        yield ge("variance is positive", var, 0.01)
        yield eq("ln_std squared", m.ln_std ** 2, var)
        yield ge("ln_std", m.ln_std, 0.1)
    return Case("BA19 mechanism=%s depth_1_0=%s" % (mech, "given" if z1 else "estimated"), dict(BOX, **(dict(depth_1_0=(0, 5)) if z1 else {})), body, fns=FNS)


def cases(tier):
    for mech in ["SS", "NS", "RS", None]:
        for z1 in (False, True):
            yield case(mech, z1)
