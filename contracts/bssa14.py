"""Specification of Boore, Stewart, Seyhan & Atkinson (2014), Earthquake Spectra 30(3)."""
import numpy as rnp
from .common import table, is_set
from . import cy14

FILE = "boore_stewart_seyhan_atkinson-2014.csv"
I_PGV, I_PGA, I_PSA = 0, 1, rnp.arange(2, 107)
REGIONS = ["global", "california", "china", "italy", "japan", "new_zealand", "taiwan", "turkey"]


def rock(w, s):
    """eqs. 2-4: event and path terms (760 m/s)"""
    np = w.np
    c = table(FILE)
    mag = s["mag"]
    e = c[{"SS": "e_1", "NS": "e_2", "RS": "e_3"}.get(s.get("mechanism"), "e_0")]
    d = mag - c["M_h"]
    f_e = e + np.where(mag <= c["M_h"], c["e_4"] * d + c["e_5"] * d ** 2, c["e_6"] * d)
    region = s.get("region")
    dc = {"china": "dc_3ct", "turkey": "dc_3ct", "italy": "dc_3ij", "japan": "dc_3ij"}.get(region, "dc_3global")
    r = np.sqrt(s["dist_jb"] ** 2 + c["h"] ** 2)
    return f_e + (c["c_1"] + c["c_2"] * (mag - c["M_ref"])) * np.log(r / c["R_ref"]) + (c["c_3"] + c[dc]) * (r - c["R_ref"])


def site(w, pga_r, v, z1, region):
    """eqs. 5-11"""
    np = w.np
    c = table(FILE)
    lin = c["c"] * np.where(v <= c["V_c"], np.log(v / c["V_ref"]), np.log(c["V_c"] / c["V_ref"]))
    f2 = c["f_4"] * (np.exp(c["f_5"] * (np.minimum(v, 760.0) - 360)) - rnp.exp(c["f_5"] * 400))
    nl = c["f_1"] + f2 * np.log((pga_r + c["f_3"]) / c["f_3"])
    f = lin + nl
    if is_set(z1):
        dz = z1 - cy14.depth_1_0(w, v, region)
        on = c["period"] >= 0.65
        f = f + on * np.minimum(c["f_6"] * dz, c["f_7"])
    return f


def model(w, s):
    """(ln_y, tau, phi)"""
    np = w.np
    c = table(FILE)
    r = rock(w, s)
    region = s.get("region")
    v, mag, rjb = s["v_s30"], s["mag"], s["dist_jb"]
    # reference PGA: event and path terms alone
    ln_y = r + site(w, np.exp(r[I_PGA]), v, s.get("depth_1_0"), region)
    ramp = np.where(mag <= 4.5, 0.0, np.where(mag < 5.5, mag - 4.5, 1.0))
    tau = c["tau_1"] + (c["tau_2"] - c["tau_1"]) * ramp
    phi = c["phi_1"] + (c["phi_2"] - c["phi_1"]) * ramp
    phi = phi + c["dphi_R"] * np.where(rjb <= c["R_1"], 0.0, np.where(rjb <= c["R_2"], np.log(np.maximum(rjb, 1.0) / c["R_1"]) / rnp.log(c["R_2"] / c["R_1"]), 1.0))
    phi = phi - c["dphi_V"] * np.where(v >= c["V_2"], 0.0, np.where(v >= c["V_1"], np.log(c["V_2"] / v) / rnp.log(c["V_2"] / c["V_1"]), 1.0))
    return ln_y, tau, phi
