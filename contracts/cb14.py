"""Specification functions for Campbell & Bozorgnia (2014), Earthquake Spectra 30(3)."""
import math
import numpy as rnp
from .common import table, is_set
from . import cy14

FILE = "campbell_bozorgnia_2014.csv"
C, N = 1.88, 1.18
V_ROCK = 1100.0
REGIONS = ["global", "california", "china", "italy", "japan"]
I_PSA, I_PGA, I_PGV = slice(0, 21), -2, -1


def depth_2_5(w, v_s30, region):
    """eqs. 33, 34 (km)"""
    np = w.np
    if region == "japan":
        return np.exp(5.359 - 1.102 * np.log(v_s30))
    return np.exp(7.089 - 1.144 * np.log(v_s30))


def width(w, mag, dip, depth_tor, depth_bot=15.0):
    """eq. 39 (km)"""
    np = w.np
    return np.minimum(np.sqrt(10 ** ((mag - 4.07) / 0.98)), (depth_bot - depth_tor) / np.sin(dip * (math.pi / 180)))


def depth_bor(w, depth_tor, dip, width):
    return depth_tor + width * w.np.sin(dip * (math.pi / 180))


def depth_hyp(w, mag, dip, depth_tor, depth_bor):
    """eqs. 35-37 (km)"""
    np = w.np
    f_m = np.where(mag < 6.75, -4.317 + 0.984 * mag, 2.325)
    f_d = np.where(dip <= 40, 0.0445 * (dip - 40), 0.0)
    return depth_tor + np.exp(np.minimum(f_m + f_d, np.log(0.9 * (depth_bor - depth_tor))))


def shallow(w, v_s30, a1100, region):
    """eqs. 17-19"""
    np = w.np
    c = table(FILE)
    lr = np.log(v_s30 / c["k_1"])
    soft = c["c_11"] * lr + c["k_2"] * (np.log(a1100 + C * (v_s30 / c["k_1"]) ** N) - np.log(a1100 + C)) if a1100 is not None else 0 * lr
    f = np.where(v_s30 <= c["k_1"], soft, (c["c_11"] + c["k_2"] * N) * lr)
    if region == "japan":
        f = f + (c["c_13"] + c["k_2"] * N) * lr + np.where(v_s30 <= 200, (c["c_12"] + c["k_2"] * N) * np.log(v_s30 / 200), 0.0)
    return f


def basin(w, z, region):
    """eq. 20"""
    np = w.np
    c = table(FILE)
    lo = (c["c_14"] + (c["c_15"] if region == "japan" else 0)) * (z - 1)
    hi = c["c_16"] * c["k_3"] * math.exp(-0.75) * (1 - np.exp(-0.25 * (z - 3)))
    return np.where(z <= 1, lo, np.where(z <= 3, 0.0, hi))


def hanging_wall(w, s):
    """eqs. 7-16"""
    np = w.np
    c = table(FILE)
    mag, rx = s["mag"], s["dist_x"]
    r1 = s["width"] * np.cos(s["dip"] * (math.pi / 180))
    r2 = 62 * mag - 350
    q1 = rx / r1
    q2 = (rx - r1) / (r2 - r1)
    f_rx = np.where(rx < 0, 0.0, np.where(rx <= r1, c["h_1"] + c["h_2"] * q1 + c["h_3"] * q1 ** 2,
                                         np.where(r1 == r2, 0.0, np.maximum(c["h_4"] + c["h_5"] * q2 + c["h_6"] * q2 ** 2, 0.0))))
    f_rup = (s["dist_rup"] - s["dist_jb"]) / s["dist_rup"]
    f_m = np.where(mag <= 5.5, 0.0, np.where(mag <= 6.5, (mag - 5.5) * (1 + c["a_2"] * (mag - 6.5)), 1 + c["a_2"] * (mag - 6.5)))
    f_z = np.where(s["depth_tor"] <= 16.66, 1 - 0.06 * s["depth_tor"], 0.0)
    return c["c_10"] * f_rx * f_rup * f_m * f_z * (90 - s["dip"]) / 45


def rock(w, s, hw=True):
    """Everything but the site and basin terms: eqs. 2-16, 21-24"""
    np = w.np
    c = table(FILE)
    mag = s["mag"]
    f = c["c_0"] + c["c_1"] * mag + c["c_2"] * np.maximum(mag - 4.5, 0.0) + c["c_3"] * np.maximum(mag - 5.5, 0.0) + c["c_4"] * np.maximum(mag - 6.5, 0.0)
    f = f + (c["c_5"] + c["c_6"] * mag) * np.log(np.sqrt(s["dist_rup"] ** 2 + c["c_7"] ** 2))
    ramp = np.where(mag <= 4.5, 0.0, np.where(mag <= 5.5, mag - 4.5, 1.0))
    if s["mechanism"] == "RS":
        f = f + c["c_8"] * ramp
    if s["mechanism"] == "NS":
        f = f + c["c_9"] * ramp
    if hw:
        f = f + hanging_wall(w, s)
    h = np.where(s["depth_hyp"] <= 7, 0.0, np.where(s["depth_hyp"] <= 20, s["depth_hyp"] - 7, 13.0))
    f = f + h * np.where(mag <= 5.5, c["c_17"], np.where(mag <= 6.5, c["c_17"] + (c["c_18"] - c["c_17"]) * (mag - 5.5), c["c_18"]))
    f = f + c["c_19"] * s["dip"] * np.where(mag <= 4.5, 1.0, np.where(mag <= 5.5, 5.5 - mag, 0.0))
    region = s.get("region") or "global"
    dc = {"japan": "dc_20jp", "italy": "dc_20jp", "china": "dc_20ch"}.get(region, "dc_20ca")
    return f + (c["c_20"] + c[dc]) * np.where(s["dist_rup"] > 80, s["dist_rup"] - 80, 0.0)


def complete(w, s):
    """Documented estimates of what the scenario leaves out"""
    region = s.get("region") or "global"
    s = dict(s)
    if not is_set(s.get("depth_2_5")):
        s["depth_2_5"] = depth_2_5(w, s["v_s30"], region)
    if not is_set(s.get("depth_tor")):
        s["depth_tor"] = cy14.depth_tor(w, s["mag"], s["mechanism"])
    if not is_set(s.get("width")):
        s["width"] = width(w, s["mag"], s["dip"], s["depth_tor"], s["depth_bot"] if is_set(s.get("depth_bot")) else 15.0)
    if not is_set(s.get("depth_bor")):
        s["depth_bor"] = depth_bor(w, s["depth_tor"], s["dip"], s["width"])
    if not is_set(s.get("depth_hyp")):
        s["depth_hyp"] = depth_hyp(w, s["mag"], s["dip"], s["depth_tor"], s["depth_bor"])
    return s


def model(w, s, hw=True):
    """Returns (ln_y, tau^2, phi^2)"""
    np = w.np
    c = table(FILE)
    s = complete(w, s)
    region = s.get("region") or "global"
    r = rock(w, s, hw)
    i = len(c["k_1"]) + I_PGA
    ln_ref = r + shallow(w, V_ROCK, None, region) + basin(w, depth_2_5(w, V_ROCK, region), region)
    a = np.exp(ln_ref[i])
    ln_y = r + shallow(w, s["v_s30"], a, region) + basin(w, s["depth_2_5"], region)
    mag = s["mag"]

    def mdep(lo, hi):
        return np.where(mag <= 4.5, lo, np.where(mag < 5.5, hi + (lo - hi) * (5.5 - mag), hi))
    tau_y, phi_y = mdep(c["tau_1"], c["tau_2"]), mdep(c["phi_1"], c["phi_2"])
    v = s["v_s30"]
    al = np.where(v < c["k_1"], c["k_2"] * a * (1 / (a + C * (v / c["k_1"]) ** N) - 1 / (a + C)), 0.0)
    rho = c["rho_lnPGAlnY"]
    af = c["phi_lnAF"]
    tau2 = tau_y ** 2 + al ** 2 * tau_y[i] ** 2 + 2 * al * rho * tau_y * tau_y[i]
    b = np.sqrt(phi_y ** 2 - af ** 2)
    phi2 = b ** 2 + af ** 2 + al ** 2 * b[i] ** 2 + 2 * al * rho * b * b[i]
    return ln_y, tau2, phi2
