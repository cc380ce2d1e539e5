"""Specifications of the duration models Abrahamson & Silva (1996), Kempton & Stewart (2006), Afshari & Stewart (2016)."""
import math
import numpy as rnp

LN10 = math.log(10)


def source(w, ln_drop, mag):
    """1/f0 of a Brune source, beta = 3.2 km/s: (drop/M0)^(-1/3) / (4.9e6 beta)"""
    return w.np.exp((LN10 * (1.5 * mag + 16.05) - ln_drop) / 3) / (4.9e6 * 3.2)


def as96_base(w, s):
    return source(w, 5.204 + 0.851 * (s["mag"] - 6), s["mag"]) + (0.805 if s["site_cond"] == "soil" else 0.0) \
        + 0.063 * w.np.where(s["dist_rup"] > 10, s["dist_rup"] - 10, 0.0)


def as96_incr(w, n):
    x = w.np.log((n - 0.05) / (1 - n))
    return -0.532 + 0.552 * x - 0.0262 * x ** 2


AS96_NIAS = [0.10, 0.15, 0.20, 0.25, 0.30, 0.35, 0.40, 0.45, 0.50, 0.55, 0.60, 0.65, 0.70, 0.75, 0.80, 0.85, 0.90, 0.95]
AS96_STD = [0.843, 0.759, 0.713, 0.691, 0.674, 0.660, 0.646, 0.636, 0.628, 0.616, 0.605, 0.594, 0.582, 0.565, 0.545, 0.528, 0.510, 0.493]

KS06 = [("D_5t75a", 6.02, 0.0, 0.07, 0.82, -0.0013, 0.57), ("D_5t95a", 2.79, 0.82, 0.15, 3.00, -0.0041, 0.47),
        ("D_5t75v", 5.46, 0.0, 0.10, 1.40, -0.0022, 0.66), ("D_5t95v", 1.53, 1.34, 0.15, 3.99, -0.0062, 0.52)]


def ks06(w, s):
    """(name, duration, standard error)"""
    return [(n, source(w, b1 + b2 * (s["mag"] - 6), s["mag"]) + c2 * s["dist_rup"] + c1 + c3 * s["v_s30"], sd) for n, b1, b2, c2, c1, c3, sd in KS06]


AS16 = dict(
    D_5t75=dict(m1=5.35, m2=7.15, b0=dict(NS=1.555, RS=0.7806, SS=1.279), b1=dict(NS=4.992, RS=7.061, SS=5.578), b2=0.9011, b3=-1.684,
                c=(0.1159, 0.1065, 0.0682), c4=-0.2246, vref=368.2, c5=0.0006, tau=(0.28, 0.25), phi=(0.54, 0.41)),
    D_5t95=dict(m1=5.2, m2=7.4, b0=dict(NS=2.541, RS=1.612, SS=2.302), b1=dict(NS=3.170, RS=4.536, SS=3.467), b2=0.9443, b3=-3.911,
                c=(0.3165, 0.2539, 0.0932), c4=-0.3183, vref=369.9, c5=0.0006, tau=(0.25, 0.19), phi=(0.43, 0.35)),
    D_20t80=dict(m1=5.2, m2=7.4, b0=dict(NS=1.409, RS=0.7729, SS=0.8804), b1=dict(NS=4.778, RS=6.579, SS=6.188), b2=0.7414, b3=-3.164,
                 c=(0.0646, 0.0865, 0.0373), c4=-0.4237, vref=369.6, c5=0.0005, tau=(0.30, 0.19), phi=(0.56, 0.45)))


def as16_depth(w, v):
    """average depth to 1 km/s (m)"""
    return w.np.exp(-7.15 / 4 * w.np.log((v ** 4 + 570.94 ** 4) / (1360.0 ** 4 + 570.94 ** 4)))


def as16(w, s):
    np = w.np
    mag, r, v, mech = s["mag"], s["dist_rup"], s["v_s30"], s["mechanism"]
    out = []
    for name, k in AS16.items():
        ln_drop = k["b1"][mech] + np.where(mag <= k["m2"], k["b2"] * (mag - 6), k["b2"] * (k["m2"] - 6) + k["b3"] * (mag - k["m2"]))
        fe = np.where(mag <= k["m1"], k["b0"][mech], source(w, ln_drop, mag))
        c1, c2, c3 = k["c"]
        fp = np.where(r <= 10, c1 * r, np.where(r <= 50, 10 * c1 + c2 * (r - 10), 10 * c1 + 40 * c2 + c3 * (r - 50)))
        fs = k["c4"] * np.log(np.where(v <= 600, v, 600.0) / k["vref"])
        if s.get("depth_1_0") is not None:
            dz = 1000 * s["depth_1_0"] - as16_depth(w, v)
            fs = fs + k["c5"] * np.where(dz <= 200, dz, 200.0)
        tau = k["tau"][0] + (k["tau"][1] - k["tau"][0]) * np.where(mag <= 6.5, 0.0, np.where(mag < 7, 2 * (mag - 6.5), 1.0))
        phi = k["phi"][0] + (k["phi"][1] - k["phi"][0]) * np.where(mag <= 5.5, 0.0, np.where(mag < 5.75, 4 * (mag - 5.5), 1.0))
        out.append((name, np.log(fe + fp) + fs, tau ** 2 + phi ** 2))
    return out
