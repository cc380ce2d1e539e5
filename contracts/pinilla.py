"""Specifications of the duration models of Pinilla-Ramos et al. (2023, crustal) and (2024, subduction)."""
import math
from .common import jtable

THRESHOLDS = [round(0.10 + 0.05 * i, 2) for i in range(18)]
N23 = 0.3
N24 = dict(interface=0.15, slab=0.25)


def lin(np, x, *pts):
    """piecewise linear through pts = (x0, y0), ..., continued with the last slope"""
    (x0, y0), (x1, y1) = pts[-2], pts[-1]
    out = y0 + (y1 - y0) * (x - x0) / (x1 - x0)
    for (x0, y0), (x1, y1) in reversed(list(zip(pts[:-2], pts[1:-1]))):
        out = np.where(x <= x1, y0 + (y1 - y0) * (x - x0) / (x1 - x0), out)
    return out


def pr23_base(w, s):
    """(median D5-75, standard deviation of its power 0.3)"""
    np = w.np
    m, r, v = s["mag"], s["dist_rup"], s["v_s30"]
    ln = math.log
    c2 = np.where(m < 6.75, 0.515, lin(np, r, (0, 0.41), (10, 0.455), (42, 0.54), (200, 0.575)))
    source = 3.655 * np.exp(ln(10) * c2 * (m - 6.75))
    path = 0.041 * r + np.where(r < 44, 0.063 * r, np.where(r < 130, 44 * 0.063 + 0.034 * (r - 44), 44 * 0.063 + 86 * 0.034 + 0.083 * (r - 130)))
    lv = np.log(v)
    sv = np.where(v < 200, 1.11, np.where(v < 275, 0.565 + (1.11 - 0.565) * (ln(275) - lv) / ln(275 / 200),
                                          np.where(v < 1900, 0.565, 0.565 * (ln(2000) - lv) / ln(2000 / 1900))))
    site = -0.619 * (lv - ln(2000)) * np.exp(0.278 * sv)
    x = np.exp(2.401 * (ln(200) - lv)) * 0.0206
    sd = 0.537 - 0.093 * r / 100 + 0.0278 * (r / 100) ** 2 - 0.0372 * m + 0.00179 * m ** 2 + np.where(x < 0.0419, x, 0.0419)
    return source + path + site, sd


def pr23_ratio(w, s, thr):
    """(ratio of D5-X to D5-75, its standard deviation, correlation)"""
    k = {n: v[THRESHOLDS.index(thr) + 1] for n, v in jtable("pinilla_ramos_et_al_2023.json").items()}
    return k["cmed"] + k["a0"] + k["r1x"] * s["dist_rup"] + k["v1x"] * (w.np.log(s["v_s30"]) - math.log(2000)), k["std_c"], k["r"]


def pr24_base(w, s):
    np = w.np
    m, r, lv = s["mag"], s["dist_rup"], w.np.log(s["v_s30"])
    if s["event_type"] == "interface":
        c3, c4 = {"Japan": (0.03, -2.485), "New Zealand": (0.024, -2.420), "South America": (0.024, -2.248)}[s["region"]]
        source = 5.268 * np.exp(math.log(10) * 0.275 * (m - 7))
        path = np.where(r < 250, 0.031 * r, 0.031 * 250 + 0.029 * (r - 250))
        sd = 0.3107 - 0.0393 * r / 100 + 0.0062 * (r / 100) ** 2 - 0.0519 * m + 0.0041 * m ** 2 + 0.0028 * lv
    else:
        c3, c4 = {"Japan": (0.046, -1.480), "New Zealand": (0.032, -1.252), "South America": (0.042, -1.510), "Taiwan": (0.038, -1.151)}[s["region"]]
        source = 0.340 * np.where(m < 6, np.exp(math.log(10) * 0.5 * (m - 4.25)), 10 ** 0.875) + np.where(m < 6, 0.0, 2.770 * (m - 6) / 2.5)
        path = np.where(r < 250, 0.013 * r, 0.013 * 250 + 0.020 * (r - 250))
        sd = 0.3035 - 0.0188 * r / 100 + 0.004 * (r / 100) ** 2 - 0.0288 * m + 0.0019 * m ** 2 + 0.0038 * lv
    return source + path + c3 * r + c4 * (lv - math.log(3100)), sd


def pr24_ratio(w, s, thr):
    t = jtable("pinilla_ramos_et_al_2024.json")[s["event_type"]]
    i = THRESHOLDS.index(thr)
    g = lambda n: t[n][i]
    return (g("c_median") + g("a0") + g("m1") * s["mag"] + g("r1") * s["dist_rup"] / 100 + g("v1") * (w.np.log(s["v_s30"]) - math.log(3100)),
            g("sigma_c"), g("rho_c_d575"))


def duration(w, base, ratio, n, thr):
    """(median, standard deviation of its power n) by error propagation through (c D)^n"""
    d, sd = base
    if thr == 0.75:
        return d, sd
    c, sc, rho = ratio
    cn = w.np.exp(n * w.np.log(c))
    dn = w.np.exp(n * w.np.log(d))
    a, b = cn * sd, dn * n * w.np.exp((n - 1) * w.np.log(c)) * sc
    return c * d, w.np.sqrt(a ** 2 + b ** 2 + 2 * rho * a * b)
