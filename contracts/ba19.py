"""Bayless and Abrahamson (2019), BSSA 109(5), eqs. 1-12: effective Fourier amplitude at 1200 x 10^k Hz, published table of coefficients."""
import math
import numpy as rnp
from .common import table

REF_5HZ, MAX = 170, 238          # 5.011872 Hz, and the last frequency with median coefficients (23.988321 Hz)


def depth_1_0(w, v):
    return w.np.exp(-7.67 / 4 * w.np.log((v ** 4 + 610.0 ** 4) / (1360.0 ** 4 + 610.0 ** 4))) / 1000


def source_path(w, c, s, v_s30, z1):
    np = w.np
    f_m = c["c1"] + c["c2"] * (s["mag"] - 6) + (c["c2"] - c["c3"]) / c["cn"] * np.log(1 + np.exp(c["cn"] * (c["cM"] - s["mag"])))
    f_p = (c["c4"] * np.log(s["dist_rup"] + c["c5"] * np.cosh(c["c6"] * np.maximum(s["mag"] - c["chm"], 0)))
           + (-0.5 - c["c4"]) * np.log(np.sqrt(s["dist_rup"] ** 2 + 50 ** 2)) + c["c7"] * s["dist_rup"])
    f_ztor = c["c9"] * np.minimum(s["depth_tor"], 20.0)
    f_nm = c["c10"] * (1.0 if s["mechanism"] == "NS" else 0.0)
    c11 = np.where(v_s30 <= 200, c["c11a"], np.where(v_s30 <= 300, c["c11b"], np.where(v_s30 <= 500, c["c11c"], c["c11d"])))
    f_z1 = c11 * np.log((np.minimum(z1, 2.0) + 0.01) / (depth_1_0(w, v_s30) + 0.01))
    return f_m + f_p + f_ztor + f_nm + f_z1


def ln_eas(w, s):
    """-> (published frequencies, ln EAS)"""
    np = w.np
    t = table("bayless_abrahamson_2019.csv")
    ref = {k: float(v[REF_5HZ]) for k, v in t.items()}
    c = {k: v[:MAX + 1] for k, v in t.items()}
    v = s["v_s30"]
    z1 = s["depth_1_0"] if s["depth_1_0"] is not None else depth_1_0(w, v)
    ln_ref = source_path(w, ref, s, 760.0, depth_1_0(w, 760.0))
    base = source_path(w, c, s, v, z1)
    i_r = np.exp(1.238 + 0.846 * ln_ref)
    f_sl = c["c8"] * np.log(np.minimum(v, 1000.0) / 1000.0)
    f2 = c["f4"] * (np.exp(c["f5"] * (np.minimum(v, 760.0) - 360)) - rnp.exp(c["f5"] * (760.0 - 360)))
    raw = f2 * np.log((i_r + c["f3"]) / c["f3"])
    # held at its minimum above the frequency of the minimum (Bayless & Abrahamson 2018b), then smoothed over 7 frequencies
    n = MAX + 1
    raw = [raw[k] for k in range(n)]
    pre, suf = [raw[0]], [raw[-1]]
    for k in range(1, n):
        pre.append(np.minimum(pre[-1], raw[k]))
        suf.append(np.minimum(suf[-1], raw[n - 1 - k]))
    suf.reverse()
    low = pre[-1]
    held = [raw[0]] + [np.where(pre[k - 1] <= suf[k], low, raw[k]) for k in range(1, n)]
    smooth = [sum(held[k] for k in range(max(0, j - 3), min(n, j + 4))) / 7 for j in range(n)]
    end = smooth[-1]                        # the smoothed value at the frequency of the (first) minimum
    for j in range(n - 2, -1, -1):
        end = np.where(pre[j] <= suf[j + 1], smooth[j], end)
    smooth[-7:] = [end] * 7
    ln = [base[k] + f_sl[k] + smooth[k] for k in range(n)]
    f = t["freq_hz"]
    kappa = np.exp(-0.4 * np.log(v / 760) - 3.5)
    ln += [ln[MAX] - math.pi * kappa * (f[k] - f[MAX]) for k in range(n, len(f))]
    return f, ln


def variance(w, s):
    t = table("bayless_abrahamson_2019.csv")
    m = (w.np.clip(s["mag"], 4.0, 6.0) - 4) / 2
    mix = lambda a, b: t[a] * (1 - m) + t[b] * m
    return mix("s1", "s2") ** 2 + mix("s3", "s4") ** 2 + mix("s5", "s6") ** 2 + rnp.nan_to_num(t["c1a"]) ** 2
