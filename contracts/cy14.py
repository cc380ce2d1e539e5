"""Specification functions for Chiou & Youngs (2014), Earthquake Spectra 30(3)."""
import math
import numpy as rnp
from .common import table, is_set


def depth_tor(w, mag, mechanism):
    """eqs. 4, 5 (km)"""
    np = w.np
    if mechanism == "RS":
        return np.maximum(2.704 - 1.226 * np.maximum(mag - 5.849, 0.0), 0.0) ** 2
    return np.maximum(2.673 - 1.136 * np.maximum(mag - 4.970, 0.0), 0.0) ** 2


FILE = "chiou_youngs_2014.csv"
I_PSA, I_PGA, I_PGV = rnp.arange(24), 24, 25
REGIONS = ["california", "china", "italy", "japan"]


def depth_1_0(w, v, region):
    """eqs. 1, 2 of CY14, here in km"""
    np = w.np
    if region == "japan":
        return np.exp(-5.23 / 2 * np.log((v ** 2 + 412.39 ** 2) / (1360.0 ** 2 + 412.39 ** 2))) / 1000
    return np.exp(-7.15 / 4 * np.log((v ** 4 + 570.94 ** 4) / (1360.0 ** 4 + 570.94 ** 4))) / 1000


def rock(w, s):
    """eq. 11: the 1130 m/s motion"""
    np = w.np
    c = table(FILE)
    mag, rrup, mech, region = s["mag"], s["dist_rup"], s.get("mechanism"), s.get("region")
    dip = s["dip"] * (math.pi / 180)
    ztor = s["depth_tor"] if is_set(s.get("depth_tor")) else depth_tor(w, mag, mech)
    k = 1 / np.cosh(2 * np.maximum(mag - 4.5, 0.0))
    f = c["c_1"] + c["c_2"] * (mag - 6) + (c["c_2"] - c["c_3"]) / c["c_n"] * np.log(1 + np.exp(c["c_n"] * (c["c_m"] - mag)))
    if mech == "RS":
        f = f + c["c_1a"] + c["c_1c"] * k
    if mech == "NS":
        f = f + c["c_1b"] + c["c_1d"] * k
    f = f + (c["c_7"] + c["c_7b"] * k) * (ztor - depth_tor(w, mag, mech))
    f = f + (c["c_11"] + c["c_11b"] * k) * np.cos(dip) ** 2
    f = f + c["c_4"] * np.log(rrup + c["c_5"] * np.cosh(c["c_6"] * np.maximum(mag - c["c_hm"], 0.0)))
    f = f + 0.5 * (c["c_4a"] - c["c_4"]) * np.log(rrup ** 2 + c["c_rb"] ** 2)
    g = c["c_gamma1"] + c["c_gamma2"] / np.cosh(np.maximum(mag - c["c_gamma3"], 0.0))
    if region in ("japan", "italy"):
        g = g * np.where((mag > 6) & (mag < 6.9), c["gamma_ji"], 1.0)
    if region == "china":
        g = g * c["gamma_c"]
    f = f + g * rrup
    if is_set(s.get("dpp_centered")):
        f = f + c["c_8"] * np.where(rrup <= 40, 1.0, np.where(rrup <= 70, (70 - rrup) / 30, 0.0)) \
            * np.where(mag <= 5.5, 0.0, np.where(mag <= 6.3, (mag - 5.5) / 0.8, 1.0)) \
            * np.exp(-c["c_8a"] * (mag - c["c_8b"]) ** 2) * s["dpp_centered"]
    if s.get("on_hanging_wall"):
        f = f + c["c_9"] * np.cos(dip) * (c["c_9a"] + (1 - c["c_9a"]) * np.tanh(s["dist_x"] / c["c_9b"])) \
            * (1 - np.sqrt(s["dist_jb"] ** 2 + ztor ** 2) / (rrup + 1))
    return f


def _nl(w, v):
    np = w.np
    c = table(FILE)
    return c["phi_2"] * (np.exp(c["phi_3"] * (np.minimum(v, 1130.0) - 360)) - rnp.exp(c["phi_3"] * 770.0))


def site(w, y_ref, v, z1, region):
    """eq. 12"""
    np = w.np
    c = table(FILE)
    j = "jp" if region == "japan" else ""
    f = c["phi_1" + j] * np.where(v <= 1130, np.log(v / 1130.0), 0.0) + _nl(w, v) * np.log((y_ref + c["phi_4"]) / c["phi_4"])
    if is_set(z1):
        f = f + c["phi_5" + j] * (1 - np.exp(-1000 * (z1 - depth_1_0(w, v, region)) / c["phi_6" + j]))
    return f


def model(w, s):
    """(ln_y, tau, phi), tau including the nonlinear factor"""
    np = w.np
    c = table(FILE)
    r = rock(w, s)
    y = np.exp(r)
    v, mag, region = s["v_s30"], s["mag"], s.get("region")
    ln_y = r + site(w, y, v, s.get("depth_1_0"), region)
    ramp = np.where(mag <= 5, 0.0, np.where(mag < 6.5, mag - 5, 1.5)) / 1.5
    nl0 = _nl(w, v) * (y / (y + c["phi_4"]))
    tau = (1 + nl0) * (c["tau_1"] + (c["tau_2"] - c["tau_1"]) * ramp)
    s2 = c["sigma_2jp" if region == "japan" else "sigma_2"]
    vs = c["sigma_3"] if s.get("vs_source") == "inferred" else 0.7
    phi2 = (c["sigma_1"] + (s2 - c["sigma_1"]) * ramp) ** 2 * (vs + (1 + nl0) ** 2)
    return ln_y, tau ** 2, phi2
