"""Specification functions for Abrahamson, Silva & Kamai (2014), Earthquake Spectra 30(3)."""
import math
import numpy as rnp
from .common import table, is_set

FILE = "abrahamson_silva_kamai_2014.csv"
V_REF = 1180.0
REGIONS = ["global", "california", "china", "italy", "japan", "taiwan"]


def pl(w, x, xs, cols):
    """Linear interpolation between columns at the knots xs, held constant outside."""
    np = w.np
    r = cols[0] + 0 * x
    for i in range(len(xs) - 1):
        s = (cols[i + 1] - cols[i]) / (xs[i + 1] - xs[i])
        r = r + s * (np.clip(x, xs[i], xs[i + 1]) - xs[i])
    return r


def depth_1_0(w, v_s30, region):
    """eqs. 18, 19 (km)"""
    np = w.np
    if region == "japan":
        return np.exp(-5.23 / 2 * np.log((v_s30 ** 2 + 412.0 ** 2) / (1360.0 ** 2 + 412.0 ** 2))) / 1000
    return np.exp(-7.67 / 4 * np.log((v_s30 ** 4 + 610.0 ** 4) / (1360.0 ** 4 + 610.0 ** 4))) / 1000


def width(w, mag, dip):
    """NGA-West2 spreadsheet estimate (km)"""
    np = w.np
    return np.minimum(18 / np.sin(dip * (math.pi / 180)), 10 ** (-1.75 + 0.45 * mag))


def depth_tor(w, mag):
    np = w.np
    return 7.8 * (1 - (np.clip(mag, 5.0, 7.2) - 5.0) / 2.2)


def f1(w, mag, dist_rup):
    """eqs. 2-4"""
    np = w.np
    c = table(FILE)
    c4m = np.where(mag > 5, c["c4"], np.where(mag > 4, c["c4"] - (c["c4"] - 1) * (5 - mag), 1.0))
    ln_r = np.log(np.sqrt(dist_rup ** 2 + c4m ** 2))
    far = c["a17"] * dist_rup
    big = c["a1"] + c["a5"] * (mag - c["m1"]) + c["a8"] * (8.5 - mag) ** 2 + (c["a2"] + c["a3"] * (mag - c["m1"])) * ln_r + far
    mid = c["a1"] + c["a4"] * (mag - c["m1"]) + c["a8"] * (8.5 - mag) ** 2 + (c["a2"] + c["a3"] * (mag - c["m1"])) * ln_r + far
    low = (c["a1"] + c["a4"] * (c["m2"] - c["m1"]) + c["a8"] * (8.5 - c["m2"]) ** 2 + c["a6"] * (mag - c["m2"])
           + c["a7"] * (mag - c["m2"]) ** 2 + (c["a2"] + c["a3"] * (c["m2"] - c["m1"])) * ln_r + far)
    return np.where(mag > c["m1"], big, np.where(mag > c["m2"], mid, low))


def f4(w, s):
    """Hanging-wall term, eqs. 10-15"""
    np = w.np
    c = table(FILE)
    t1 = np.where(s["dip"] > 30, (90 - s["dip"]) / 45, 60 / 45)
    dm = s["mag"] - 6.5
    t2 = np.where(s["mag"] >= 6.5, 1 + 0.2 * dm, np.where(s["mag"] > 5.5, 1 + 0.2 * dm - 0.8 * dm ** 2, 0.0))
    r1 = s["width"] * np.cos(s["dip"] * (math.pi / 180))
    r2 = 3 * r1
    rx = s["dist_x"]
    t3 = np.where(rx < r1, 0.25 + 1.5 * (rx / r1) - 0.75 * (rx / r1) ** 2, np.where(rx < r2, 1 - (rx - r1) / (r2 - r1), 0.0))
    t4 = np.where(s["depth_tor"] <= 10, 1 - s["depth_tor"] ** 2 / 100, 0.0)
    if is_set(s.get("dist_y0")):
        d = s["dist_y0"] - rx * math.tan(math.radians(20))
        t5 = np.where(d <= 0, 1.0, np.where(d < 5, 1 - d / 5, 0.0))
    else:
        t5 = np.where(s["dist_jb"] < 30, 1 - s["dist_jb"] / 30, 0.0)
    return c["a13"] * t1 * t2 * t3 * t4 * t5


def site(w, v_s30, psa_ref):
    """Site response without basin effect, eqs. 7-9 (V1 from its formula up to the 3 s corner, 801 m/s)."""
    np = w.np
    c = table(FILE)
    v1 = 1500 * rnp.exp(-0.35 * rnp.log(rnp.clip(c["period"], 0.5, 3.0) / 0.5))
    r = np.minimum(v_s30, v1) / c["v_lin"]
    lin = (c["a10"] + c["b"] * c["n"]) * np.log(r)
    if psa_ref is None:
        return lin
    non = c["a10"] * np.log(r) - c["b"] * np.log(psa_ref + c["c"]) + c["b"] * np.log(psa_ref + c["c"] * r ** c["n"])
    return np.where(v_s30 < c["v_lin"], non, lin)


def basin(w, v_s30, z1, region):
    """eqs. 17-19"""
    np = w.np
    c = table(FILE)
    slope = pl(w, v_s30, [150, 250, 400, 700], [c["a43"], c["a44"], c["a45"], c["a46"]])
    return slope * np.log((z1 + 0.01) / (depth_1_0(w, v_s30, region) + 0.01))


def regional(w, v_s30, dist_rup, region):
    """eqs. 20-22"""
    np = w.np
    c = table(FILE)
    if region == "taiwan":
        v1 = 1500 * rnp.exp(-0.35 * rnp.log(rnp.clip(c["period"], 0.5, 3.0) / 0.5))
        return c["a31"] * np.log(np.minimum(v_s30, v1) / c["v_lin"]) + c["a25"] * dist_rup
    if region == "china":
        return c["a28"] * dist_rup
    if region == "japan":
        return pl(w, v_s30, [150, 250, 350, 450, 600, 850, 1150],
                  [c["a%d" % i] for i in range(36, 43)]) + c["a29"] * dist_rup
    return 0.0


def model(w, s):
    """s: fully specified scenario (width, depth_tor given). Returns (ln_psa, tau, phi, ln_psa_ref)."""
    np = w.np
    c = table(FILE)
    base = f1(w, s["mag"], s["dist_rup"])
    if s.get("on_hanging_wall"):
        base = base + f4(w, s)
    base = base + c["a15"] * np.minimum(s["depth_tor"] / 20, 1.0)
    ramp = np.clip(s["mag"] - 4, 0.0, 1.0)
    if s["mechanism"] == "RS":
        base = base + c["a11"] * ramp
    elif s["mechanism"] == "NS":
        base = base + c["a12"] * ramp
    if s.get("is_aftershock"):
        crjb = s["dist_crjb"] if is_set(s.get("dist_crjb")) else 15.0
        base = base + c["a14"] * np.where(crjb <= 5, 1.0, np.where(crjb < 15, 1 - (crjb - 5) / 10, 0.0))
    region = s.get("region") or "global"
    ln_ref = base + site(w, V_REF, None) + regional(w, V_REF, s["dist_rup"], region)
    psa_ref = np.exp(ln_ref)
    v = s["v_s30"]
    ln_psa = base + site(w, v, psa_ref) + regional(w, v, s["dist_rup"], region)
    if is_set(s.get("depth_1_0")):
        ln_psa = ln_psa + basin(w, v, s["depth_1_0"], region)
    # aleatory model, eqs. 24-30
    if region == "japan":
        r = s["dist_rup"]
        phi_al = np.where(r < 30, c["s5"], np.where(r <= 80, c["s5"] + (c["s6"] - c["s5"]) / 50 * (r - 30), c["s6"]))
    else:
        a, b = ("s1e", "s2e") if s.get("vs_source") == "inferred" else ("s1m", "s2m")
        phi_al = np.where(s["mag"] < 4, c[a], np.where(s["mag"] <= 6, c[a] + (c[b] - c[a]) / 2 * (s["mag"] - 4), c[b]))
    tau_al = np.where(s["mag"] < 5, c["s3"], np.where(s["mag"] <= 7, c["s3"] + (c["s4"] - c["s3"]) / 2 * (s["mag"] - 5), c["s4"]))
    d = np.where(v < c["v_lin"], -c["b"] * psa_ref / (psa_ref + c["c"]) + c["b"] * psa_ref / (psa_ref + c["c"] * (v / c["v_lin"]) ** c["n"]), 0.0)
    phi_b2 = np.maximum(phi_al ** 2 - 0.4 ** 2, 0.0)  # the record-to-record part cannot be negative
    tau = tau_al * (1 + d)
    phi = np.sqrt(phi_b2 * (1 + d) ** 2 + 0.4 ** 2)
    return ln_psa, tau, phi, ln_ref
