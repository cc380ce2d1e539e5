"""Specifications: Abrahamson, Gregor & Addo (2016), Coppersmith & Bommer (2014), Gülerce & Abrahamson (2011), Abrahamson & Bhasin (2020)."""
import math
import numpy as rnp
from .common import table

AGA, CB, GA = "abrahamson_gregor_addo_2016.csv", "coppersmith_bommer_2014.csv", "gulerce_abrahamson_2011-coefficients.csv"


def delta_c1(per, event):
    """Central estimates of the magnitude-scaling break adjustment"""
    if event == "intraslab":
        return rnp.full(len(per), -0.3)
    knots = {0.3: 0.2, 0.5: 0.1, 1.0: 0.0, 2.0: -0.1, 3.0: -0.2}
    t = sorted(knots)
    out = []
    for p in per:
        p = min(max(p, t[0]), t[-1])
        j = max(i for i in range(len(t)) if t[i] <= p)
        if j == len(t) - 1:
            out.append(knots[t[-1]])
        else:
            f = math.log(p / t[j]) / math.log(t[j + 1] / t[j])
            out.append(knots[t[j]] + f * (knots[t[j + 1]] - knots[t[j]]))
    return rnp.array(out)


def _site(w, c, v, pga1000):
    np = w.np
    r = np.minimum(v, 1000.0) / c["v_lin"]
    lin = (c["t_12"] + c["b"] * c["n"]) * np.log(r)
    nl = c["t_12"] * np.log(r) - c["b"] * np.log(pga1000 + c["c"]) + c["b"] * np.log(pga1000 + c["c"] * r ** c["n"])
    return np.where(v < c["v_lin"], nl, lin)


def _mag(w, c, mag, dc1):
    np = w.np
    d = mag - (7.8 + dc1)
    return np.where(d <= 0, c["t_4"] * d, c["t_5"] * d) + c["t_13"] * (10 - mag) ** 2


def aga16(w, s, dc1=None, dc4=0.0, atten=1.0):
    np = w.np
    c = table(AGA, 1)
    slab = s["event_type"] == "intraslab"
    if dc1 is None:
        dc1 = delta_c1(c["period"], s["event_type"])
    mag = s["mag"]
    r = s["dist_hyp"] if slab else s["dist_rup"]
    f = 1.0 if slab else 0.0
    y = c["t_1"] + c["t_4"] * dc1 + (c["t_2"] + c["t_14"] * f + c["t_3"] * (mag - 7.8)) * np.log(r + (c["c_4"] + dc4) * np.exp(c["t_9"] * (mag - 6))) \
        + atten * c["t_6"] * r + c["t_10"] * f + _mag(w, c, mag, dc1)
    if slab:
        y = y + c["t_11"] * (np.where(s["depth_hyp"] <= 120, s["depth_hyp"], 120.0) - 60)
    if s.get("tectonic_region") == "backarc":
        y = y + (c["t_7"] + c["t_8"] * np.log(np.maximum(r, 85.0) / 40) if slab else c["t_15"] + c["t_16"] * np.log(np.maximum(r, 100.0) / 40))
    pga = np.exp((y + _site(w, c, 1000.0, 1.0))[0])       # 1000 m/s is above every linear velocity limit
    return y + _site(w, c, s["v_s30"], pga), c["phi"] ** 2 + c["tau"] ** 2


def cb14(w, s, atten=1.0):
    np = w.np
    c = table(CB, 1)
    dc1 = delta_c1(c["period"], s["event_type"])
    mag, r = s["mag"], s["dist_rup"]
    y = c["t_1"] + c["t_4"] * dc1 + (c["t_2"] + c["t_3"] * (mag - 7.8)) * np.log(r + c["c_4"] * np.exp(c["t_9"] * (mag - 6))) \
        + atten * c["t_6"] * r + _mag(w, c, mag, dc1) + c["t_16"] * np.log(np.maximum(r, 40.0) / 40)
    pga = np.exp((y + _site(w, c, 1000.0, 1.0))[0])
    return y + _site(w, c, s["v_s30"], pga), c["phi"] ** 2 + c["tau"] ** 2


def ga11(w, s):
    """(ln V/H, sigma^2)"""
    np = w.np
    c = table(GA)
    mag = s["mag"]
    d = mag - c["c1"]
    f1 = c["a1"] + np.where(mag < c["c1"], c["a4"] * d, c["a5"] * d) + c["a8"] * (8.5 - mag) ** 2 \
        + 0.5 * (c["a2"] + c["a3"] * d) * np.log(s["dist_rup"] ** 2 + c["c4"] ** 2)
    v1 = []
    for t in c["period"]:
        v1.append(862.0 if t < 0 else 1500.0 if t <= 0.5 else math.exp(8 - 0.795 * math.log(t / 0.21)) if t <= 1 else
                  math.exp(6.76 - 0.297 * math.log(t)) if t <= 2 else 700.0)
    v1 = rnp.array(v1)
    v = np.minimum(s["v_s30"], v1)
    r = v / c["v_lin"]
    p = s["pga_ref"]
    f5 = np.where(v < c["v_lin"], c["a10"] * np.log(r) + c["b"] * (np.log(p + c["c"]) - np.log(p + c["c"] * r ** c["n"])),
                  (c["a10"] - c["b"] * c["n"]) * np.log(r))
    y = f1 + f5 + {"SS": 0.0, "RS": c["a6"], "NS": c["a7"]}[s["mechanism"]]
    u = np.where(mag < 5, 0.0, np.where(mag <= 7, (mag - 5) / 2, 1.0))
    return y, (c["s1"] + (c["s2"] - c["s1"]) * u) ** 2 + (c["s3"] + (c["s4"] - c["s3"]) * u) ** 2


AB = {"pga": (4.77, 0.738, 0.484, 0.275, -0.036, -0.332, -0.44, 0.0, 0.32, 0.42, 0.12, 0.26),
      "psa_1s": (4.80, 0.82, 0.55, 0.27, 0.054, -0.382, -0.21, 0.0, 0.28, 0.38, 0.12, 0.17)}


def ab20(w, s, which, gm):
    """(ln PGV, sigma^2)"""
    np = w.np
    a1, a2, a3, a4, a5, a6, a7, a8, p1, p2, t1, t2 = AB[which]
    mag = s["mag"]
    f1 = np.where(mag < 5, a2, np.where(mag > 7.5, a3, a2 + (a3 - a2) * (mag - 5) / 2.5))
    y = a1 + f1 * np.log(gm) + a4 * (mag - 6) + a5 * (8.5 - mag) ** 2 + a6 * np.log(s["dist_rup"] + 5 * np.exp(0.4 * (mag - 6))) \
        + (a7 + a8 * (mag - 5)) * np.log(s["v_s30"] / 425)
    u = np.where(mag < 5, 0.0, np.where(mag > 7, 1.0, (mag - 5) / 2))
    return y, (p1 + (p2 - p1) * u) ** 2 + (t1 + (t2 - t1) * u) ** 2
