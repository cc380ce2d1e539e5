"""Specifications of the eastern North America models: Campbell (2003), Tavakoli & Pezeshk (2005), Pezeshk et al. (2011), Atkinson & Boore (2006, with the 2011 stress revision)."""
import math
import numpy as rnp
from .common import table

LN10 = math.log(10)


def c03(w, mag, r):
    np = w.np
    c = table("campbell_2003.csv", 1)
    big_r = np.sqrt(r ** 2 + (c["c_7"] * np.exp(c["c_8"] * mag)) ** 2)
    f3 = np.where(r <= 70, 0.0, c["c_9"] * np.log(np.maximum(r, 1.0) / 70)) + np.where(r <= 130, 0.0, c["c_10"] * np.log(np.maximum(r, 1.0) / 130))
    ln_y = c["c_1"] + c["c_2"] * mag + c["c_3"] * (8.5 - mag) ** 2 + c["c_4"] * np.log(big_r) + (c["c_5"] + c["c_6"] * mag) * r + f3
    sd = np.where(mag < 7.16, c["c_11"] + c["c_12"] * mag, c["c_13"])
    return ln_y, sd


def tp05(w, mag, r):
    np = w.np
    c = table("tavakoli_pezeshk_2005.csv", 1)
    q = (8.5 - mag) ** 2.5
    big_r = np.sqrt(r ** 2 + (c["c_5"] * np.exp(c["c_6"] * mag + c["c_7"] * q)) ** 2)
    f1 = c["c_1"] + c["c_2"] * mag + c["c_3"] * q
    f2 = c["c_9"] * np.log(r + 4.5) + np.where(r > 70, c["c_10"] * np.log(np.maximum(r, 1.0) / 70), 0.0) \
        + np.where(r > 130, c["c_11"] * np.log(np.maximum(r, 1.0) / 130), 0.0)
    f3 = (c["c_4"] + c["c_13"] * mag) * np.log(big_r) + (c["c_8"] + c["c_12"] * mag) * big_r
    sd = np.where(mag < 7.2, c["c_14"] + c["c_15"] * mag, c["c_16"])
    return f1 + f2 + f3, sd


def pea11(w, mag, r):
    np = w.np
    c = table("pezeshk_zandieh_tavakoli_2011.csv", 1)
    big_r = np.sqrt(r ** 2 + c["c_11"] ** 2)
    lr = np.log(big_r)
    near = np.where(big_r <= 70, lr, math.log(70))
    mid = np.where(big_r <= 70, 0.0, np.where(big_r <= 140, lr - math.log(70), math.log(2)))
    far = np.where(big_r <= 140, 0.0, lr - math.log(140))
    ln_y = LN10 * (c["c_1"] + c["c_2"] * mag + c["c_3"] * mag ** 2 + c["c_10"] * big_r) \
        + (c["c_4"] + c["c_5"] * mag) * near + (c["c_6"] + c["c_7"] * mag) * mid + (c["c_8"] + c["c_9"] * mag) * far
    mean = np.where(mag <= 7, c["c_12"] * mag + c["c_13"], -6.95e-3 * mag + c["c_14"])
    return ln_y, LN10 ** 2 * (mean ** 2 + c["sigma_reg"] ** 2)


def lerp(x, xp, fp):
    """Piecewise-linear interpolation at fixed abscissae, constant beyond the ends; fp may be symbolic"""
    out = []
    for v in x:
        if v <= xp[0]:
            out.append(fp[0])
        elif v >= xp[-1]:
            out.append(fp[len(xp) - 1])
        else:
            j = int(rnp.searchsorted(xp, v, side="right"))
            t = (v - xp[j - 1]) / (xp[j] - xp[j - 1])
            out.append(fp[j - 1] if t == 0 else (1 - t) * fp[j - 1] + t * fp[j])
    return out


I_PGD, I_PGV, I_PGA, I_PSA = 0, 1, 2, rnp.arange(3, 27)


def ab06(w, mag, r, v):
    """natural log of PGD (cm), PGV (cm/s), PGA (g), PSA (g)"""
    np = w.np
    c = table("atkinson_boore_2006-bc.csv")
    lr = np.log(r) / LN10
    f0 = np.where(r < 10, 1 - lr, 0.0)
    f1 = np.where(r <= 70, lr, math.log10(70))
    f2 = np.where(r <= 140, 0.0, lr - math.log10(140))
    lg = c["c_1"] + c["c_2"] * mag + c["c_3"] * mag ** 2 + (c["c_4"] + c["c_5"] * mag) * f1 + (c["c_6"] + c["c_7"] * mag) * f2 \
        + (c["c_8"] + c["c_9"] * mag) * f0 + c["c_10"] * r
    # stress adjustment (2011)
    k = table("atkinson_boore_2006-sf.csv")
    drop = np.exp(LN10 * (3.45 - 0.2 * mag))
    x = np.where(mag <= k["m_1"], 0.0, (mag - k["m_1"]) / (k["m_h"] - k["m_1"]))
    sf = np.minimum(2.0, drop / 140) * (0.05 + k["delta"] * np.where(x <= 1, x, 1.0))
    per = c["period"]
    lg = lg + np.array(lerp(per, k["period"], sf))
    # site (eqs. 7, 8)
    t = table("atkinson_boore_2006-site.csv")
    pga = np.maximum(np.exp(LN10 * lg[I_PGA]), 60.0)
    lv = np.log(v)
    u = np.where(v <= 180, 1.0, np.where(v <= 300, (lv - math.log(300)) / math.log(180 / 300), 0.0))
    z = np.where(v <= 300, 1.0, np.where(v <= 760, (lv - math.log(760)) / math.log(300 / 760), 0.0))
    b_nl = (t["b_1"] - t["b_2"]) * u + t["b_2"] * z
    amp = t["b_lin"] * (lv - math.log(760)) + b_nl * np.log(pga / 100)
    ln_y = LN10 * lg + np.array(lerp(per, t["period"], amp))
    acc = rnp.ones(len(per))
    acc[I_PGD] = acc[I_PGV] = 0.0
    return ln_y - acc * math.log(980.665)
