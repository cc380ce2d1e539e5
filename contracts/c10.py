"""Idriss (2014), Akkar, Sandikkaya & Bommer (2014), Derras, Bard & Cotton (2014)."""
import math
import numpy as rnp
from pyvc.contract import Case, eq, same
from .common import table, jtable, product, tag

ID = "C10"


# --- Idriss (2014), Earthquake Spectra 30(3): eqs. 1-3, tables 1-3 ------------------------------------
def i14(w, mag, dist_rup, v_s30, mechanism):
    np = w.np
    small, large = table("idriss_2014-small.csv"), table("idriss_2014-large.csv")
    low = mag <= 6.75
    c = {k: np.where(low, small[k], large[k]) for k in small}
    f = 1.0 if mechanism == "RS" else 0.0
    ln_y = (c["alpha_1"] + c["alpha_2"] * mag + c["alpha_3"] * (8.5 - mag) ** 2
            - (c["beta_1"] + c["beta_2"] * mag) * np.log(dist_rup + 10) + c["gamma"] * dist_rup
            + c["epsilon"] * np.log(v_s30) + c["phi"] * f)
    t = small["period"]
    se = 1.18 + 0.035 * rnp.log(rnp.clip(t, 0.05, 3.0)) - 0.06 * np.clip(mag, 5.0, 7.5)
    return t, ln_y, se


def case_i14(mech):
    def body(w, x):
        m = w.mod("idriss_2014").Idriss2014(w.Scenario(mag=x.mag, dist_rup=x.dist_rup, v_s30=x.v_s30, mechanism=mech))
        t, ln_y, se = i14(w, x.mag, x.dist_rup, x.v_s30, mech)
        log = w.np.log
        yield eq("periods", m.periods, t)
        yield eq("ln spec_accels", log(m.spec_accels), ln_y)
        yield eq("ln pga", log(m.pga), ln_y[0])
        yield eq("ln_stds", m.ln_stds, se)
        yield eq("ln_std_pga", m.ln_std_pga, se[0])
    return Case("Idriss2014 mechanism=%s" % mech, dict(mag=(5, 8.5), dist_rup=(0, 150), v_s30=(450, 1200)), body,
                fns=["Idriss2014.__init__", "Idriss2014._calc_ln_resp", "Idriss2014._calc_ln_std"])


# --- Akkar, Sandikkaya & Bommer (2014), Bull. Earthq. Eng. 12: eqs. 1-4, 6 (table columns per distance metric) ---
METRICS = ["dist_jb", "dist_hyp", "dist_epi"]      # documented order of preference


def asb14(w, metric, dist, mag, v_s30, mechanism):
    np = w.np
    c = table("akkar-sandikkaya-bommer-2014-%s.csv" % metric)
    mech = {"SS": 0.0, "NS": c["a_8"], "RS": c["a_9"]}[mechanism]
    slope = np.where(mag <= c["c_1"], c["a_2"], c["a_7"])
    ln_ref = (c["a_1"] + slope * (mag - c["c_1"]) + c["a_3"] * (8.5 - mag) ** 2
              + (c["a_4"] + c["a_5"] * (mag - c["c_1"])) * 0.5 * np.log(dist ** 2 + c["a_6"] ** 2) + mech)
    pga_ref = np.exp(ln_ref[0])
    vr = v_s30 / 750.0
    soft = c["b_1"] * np.log(vr) + c["b_2"] * (np.log(pga_ref + c["c"] * vr ** c["n"]) - np.log(pga_ref + c["c"]) - c["n"] * np.log(vr))
    stiff = c["b_1"] * np.log(np.minimum(v_s30, c["v_con"]) / 750.0)
    return c, ln_ref + np.where(v_s30 <= 750.0, soft, stiff)


def case_asb14(given, mech):
    def body(w, x):
        cls = w.mod("akkar_sandikkaya_bommer_2014").AkkarSandikkayaBommer2014
        m = cls(w.Scenario(mag=x.mag, v_s30=x.v_s30, mechanism=mech, **{k: x[k] for k in given}))
        metric = next(k for k in METRICS if k in given)
        c, ln_y = asb14(w, metric, x[metric], x.mag, x.v_s30, mech)
        log = w.np.log
        yield eq("periods", m.periods, c["period"][2:])
        yield eq("ln spec_accels", log(m.spec_accels), ln_y[2:])
        yield eq("ln pga", log(m.pga), ln_y[0])
        yield eq("ln pgv", log(m.pgv), ln_y[1])
        yield eq("ln_stds", m.ln_stds, c["sd_total"][2:])
        yield eq("ln_std_pga", m.ln_std_pga, c["sd_total"][0])
        yield eq("ln_std_pgv", m.ln_std_pgv, c["sd_total"][1])
    box = dict(mag=(4, 8), v_s30=(150, 1200), **{k: (0, 200) for k in given})
    return Case("AkkarSandikkayaBommer2014 given=%s mechanism=%s" % ("+".join(given), mech), box, body,
                fns=["AkkarSandikkayaBommer2014.__init__"])


def case_asb14_none():
    def body(w, x):
        cls = w.mod("akkar_sandikkaya_bommer_2014").AkkarSandikkayaBommer2014
        try:
            cls(w.Scenario(mag=x.mag, v_s30=x.v_s30, mechanism="SS"))
            refused = False
        except (NotImplementedError, ValueError):
            refused = True
        yield same("refuses a scenario without a distance", refused, True)
    return Case("AkkarSandikkayaBommer2014 no distance", dict(mag=(4, 8), v_s30=(150, 1200)), body,
                fns=["AkkarSandikkayaBommer2014.__init__"])


# --- Derras, Bard & Cotton (2014): feed-forward network, one hidden layer -------------------------------
def dbc14(w, mag, dist_jb, v_s30, depth_hyp, mechanism):
    np = w.np
    c = jtable("derras_bard_cotton_2014.json")
    inp = [("log10_dist_jb", np.log(dist_jb) / math.log(10)), ("mag", mag), ("log10_v_s30", np.log(v_s30) / math.log(10)),
           ("depth_hyp", depth_hyp), ("mechanism", {"NS": 1.0, "RS": 3.0, "SS": 4.0}[mechanism])]
    p = [2 * (v - c["min_max"][k][0]) / (c["min_max"][k][1] - c["min_max"][k][0]) - 1 for k, v in inp]
    w1, b1 = rnp.array(c["w_1"]), rnp.array(c["b_1"]).reshape(-1)
    hidden = [np.tanh(sum((w1[i, j] * p[j] for j in range(5)), b1[i])) for i in range(len(b1))]
    w2, b2 = rnp.array(c["w_2"]), rnp.array(c["b_2"]).reshape(-1)
    lim = rnp.array(c["min_max"]["log10_resp"])
    ln_y = []
    for k in range(len(b2)):
        o = sum((w2[k, i] * hidden[i] for i in range(len(b1))), b2[k])
        log10_si = 0.5 * (o + 1) * (lim[k, 1] - lim[k, 0]) + lim[k, 0]
        ln_y.append(log10_si * math.log(10) - math.log(0.01 if k == 0 else 9.80665))
    return rnp.array(c["period"]), ln_y, rnp.array(c["log10_std"]["total"]) * math.log(10)


def case_dbc14(mech):
    def body(w, x):
        m = w.mod("derras_bard_cotton_2014").DerrasBardCotton2014(w.Scenario(
            mag=x.mag, dist_jb=x.dist_jb, v_s30=x.v_s30, depth_hyp=x.depth_hyp, mechanism=mech))
        t, ln_y, se = dbc14(w, x.mag, x.dist_jb, x.v_s30, x.depth_hyp, mech)
        log = w.np.log
        yield eq("periods", m.periods, t[2:])
        yield eq("ln spec_accels", log(m.spec_accels), ln_y[2:])
        yield eq("ln pga", log(m.pga), ln_y[1])
        yield eq("ln pgv", log(m.pgv), ln_y[0])
        yield eq("ln_stds", m.ln_stds, se[2:])
        yield eq("ln_std_pga", m.ln_std_pga, se[1])
        yield eq("ln_std_pgv", m.ln_std_pgv, se[0])
    return Case("DerrasBardCotton2014 mechanism=%s" % mech, dict(mag=(4, 7), dist_jb=(5, 200), v_s30=(200, 800), depth_hyp=(0, 25)),
                body, fns=["DerrasBardCotton2014.__init__"])


def cases(tier):
    for mech in ["SS", "RS"]:
        yield case_i14(mech)
    for mech in ["SS", "NS", "RS"]:
        for given in [["dist_jb"], ["dist_hyp"], ["dist_epi"], ["dist_jb", "dist_hyp", "dist_epi"], ["dist_hyp", "dist_epi"],
                      ["dist_jb", "dist_epi"], ["dist_jb", "dist_hyp"]]:
            yield case_asb14(given, mech)
        yield case_dbc14(mech)
    yield case_asb14_none()
