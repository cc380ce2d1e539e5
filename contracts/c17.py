"""Baker & Jayaram (2008) correlation, conditional mean spectrum, and Kishida (2017) multi-period conditional spectrum.

The spectra are checked against the contract of calc_correls (symmetric, 1 at equal periods, between 0 and 1): in place of its body they get
an arbitrary correlation of the periods.  The period vectors have two to four entries (bounded in the length, unbounded in the values)."""
import itertools
import math
import numbers
import sys
import numpy as rnp
from pyvc.contract import Case, eq, ge, same, true
from pyvc import symnp

ID = "C17"
ASSUME = ["period vectors have two to four entries, one or two of them conditioned (and all, for two): bounded in the length, unbounded in the values"]
PER = (0.01, 10.0)
F1 = ["calc_correls"]
F2 = ["calc_cond_mean_spectrum"]
F3 = ["calc_cond_mean_spectrum_vector"]


def bj08(w, ti, tj):
    """Baker & Jayaram (2008), Earthquake Spectra 24(1), eqs. 4-9."""
    np = w.np
    lo, hi = np.minimum(ti, tj), np.maximum(ti, tj)
    c1 = 1 - np.cos(math.pi / 2 - 0.366 * np.log(hi / np.maximum(lo, 0.109)))
    c2 = np.where(hi < 0.2, 1 - 0.105 * (1 - 1 / (1 + np.exp(100 * np.minimum(hi, 0.2) - 5))) * ((hi - lo) / (hi - 0.0099)), 0.0)
    c3 = np.where(hi < 0.109, c2, c1)
    c4 = c1 + 0.5 * (np.sqrt(c3) - c3) * (1 + np.cos(math.pi * lo / 0.109))
    return np.where(hi <= 0.109, c2, np.where(lo > 0.109, c1, np.where(hi < 0.2, np.minimum(c2, c4), c4)))


def correl(w):
    return w.mod("baker_jayaram_2008").calc_correls


def case_corr(lo, hi, name):
    """ti in lo, tj in hi"""
    def body(w, x):
        f = correl(w)
        a, b = f(w.np.array([x.ti, 0.05]), x.tj), f(w.np.array([x.tj]), x.ti)
        yield same("shape", (tuple(a.shape), tuple(b.shape)), ((2,), (1,)))
        yield eq("correlation", a[0], bj08(w, x.ti, x.tj))
        yield eq("other period", a[1], bj08(w, 0.05, x.tj))
        yield eq("symmetric", b[0], a[0])
    return Case("correlation %s" % name, dict(ti=lo, tj=hi), body, fns=F1)


def case_range(name, box, periods, drop, rest=lambda w, x, lo, hi, d: 1 - d):
    """0 <= correlation <= 1; drop is 1 - correlation and rest the correlation, written so that they show their signs"""
    def body(w, x):
        lo, hi = periods(w, x)
        r = correl(w)(w.np.array([lo]), hi)[0]
        d = drop(w, x, lo, hi)
        u = rest(w, x, lo, hi, d)
        yield eq("one less correlation", 1 - r, d)
        yield eq("correlation", r, u)
        yield ge("at most one", d, 0.0, tol=1e-9)
        yield ge("not negative", u, 0.0, tol=1e-9)
    return Case("correlation within 0 and 1, " + name, box, body, fns=F1)


def ranges():
    def short(w, lo, hi, gap):
        return 0.105 * (1 - 1 / (1 + w.np.exp(100 * hi - 5))) * gap / (hi - 0.0099)

    def long(w, u):
        return w.np.cos(math.pi / 2 - 0.366 * u)

    def sk(w, x, lo):
        return w.np.sqrt(1 - long(w, x.u)), 0.5 * (1 + w.np.cos(math.pi * lo / 0.109))

    def across(w, x, lo, hi):
        s, k = sk(w, x, lo)
        return (1 - s) * (1 + s - s * k)

    def across_rest(w, x, lo, hi, d):
        s, k = sk(w, x, lo)
        return s * (s + k * (1 - s))
    top = math.log(10 / 0.109)
    yield case_range("both below 0.109 s", dict(lo=(0.01, 0.1089), d=(0, 0.0989)), lambda w, x: (x.lo, w.np.minimum(x.lo + x.d, 0.1089)),
                     lambda w, x, lo, hi: short(w, lo, hi, w.np.minimum(x.d, 0.1089 - x.lo)))
    yield case_range("both above 0.109 s", dict(lo=(0.1091, 10), u=(0, math.log(10 / 0.1091))), lambda w, x: (x.lo, x.lo * w.np.exp(x.u)), lambda w, x, lo, hi: long(w, x.u))
    yield case_range("one on each side, above 0.2 s", dict(lo=(0.01, 0.1089), u=(math.log(0.2001 / 0.109), top)), lambda w, x: (x.lo, 0.109 * w.np.exp(x.u)), across, across_rest)
    yield case_range("one on each side, below 0.2 s", dict(lo=(0.01, 0.1089), u=(1e-4, math.log(0.1999 / 0.109))), lambda w, x: (x.lo, 0.109 * w.np.exp(x.u)),
                     lambda w, x, lo, hi: w.np.maximum(across(w, x, lo, hi), short(w, lo, hi, hi - lo)))


def case_corr_equal():
    def body(w, x):
        f = correl(w)
        yield eq("equal periods", f(w.np.array([x.t]), x.t)[0], 1.0)
        yield eq("scalar", f(x.t, x.t), 1.0)
    return Case("correlation equal periods", dict(t=PER), body, fns=F1)


def with_correlation(w, rho, run):
    """run() with calc_correls replaced, wherever the package refers to it, by one that gives rho(i, j) for the periods given"""
    orig = correl(w)
    name = w.mod("baker_jayaram_2008").__name__.rsplit(".", 1)[0]
    mods = [m for k, m in list(sys.modules.items()) if (k == name or k.startswith(name + ".")) and m is not None and getattr(m, "calc_correls", None) is orig]

    def stub(periods, cond):
        p, c = rnp.broadcast_arrays(symnp.as_obj(periods), symnp.as_obj(cond))
        if not p.ndim:
            return rho(p.item(), c.item())
        out = w.np.array([rho(a, b) for a, b in zip(p.ravel(), c.ravel())])
        return out.reshape(p.shape) if p.ndim > 1 else out
    try:
        for m in mods:
            m.calc_correls = stub
        return run()
    finally:
        for m in mods:
            m.calc_correls = orig


def index(ts, p):
    for i, t in enumerate(ts):
        if p is t or isinstance(p, numbers.Real) and isinstance(t, numbers.Real) and p == t or repr(p) == repr(t):
            return i
    raise AssertionError("a correlation of something else than the periods")


def table(w, x, ts):
    """an arbitrary correlation of the periods"""
    def rho(a, b):
        i, j = sorted((index(ts, a), index(ts, b)))
        return 1.0 if i == j else x["r%d%d" % (i, j)]
    return rho


def spectrum(w, x, n):
    t = [x.t0]
    for i in range(1, n):
        t.append(t[-1] + x["d%d" % i])
    return t, [x["y%d" % i] for i in range(n)], [x["s%d" % i] for i in range(n)]


def box(n, m=None, **kw):
    b = dict(t0=(0.01, 3))
    for i in range(n):
        b.update({"y%d" % i: (-10, 3), "s%d" % i: (0.1, 1.6)})
        if i:
            b["d%d" % i] = (1e-3, 3)
    for i, j in itertools.combinations(range(m or n), 2):
        b["r%d%d" % (i, j)] = (0, 0.99)
    b.update(kw)
    return b


def case_cms(n, seg):
    """seg: the interval of the period vector that holds the conditioning period (-1 below, n-1 above)"""
    def body(w, x):
        np = w.np
        t, y, s = spectrum(w, x, n)
        if seg < 0:
            tc = t[0] * x.u
            y0, s0 = y[0], s[0]
        elif seg == n - 1:
            tc = t[-1] + x.u
            y0, s0 = y[-1], s[-1]
        else:
            tc = t[seg] + x.u * (t[seg + 1] - t[seg])
            y0, s0 = y[seg] + x.u * (y[seg + 1] - y[seg]), s[seg] + x.u * (s[seg + 1] - s[seg])
        rho = table(w, x, t + [tc])
        mean, std = with_correlation(w, rho, lambda: w.mod("baker_jayaram_2008").calc_cond_mean_spectrum(np.array(t), np.array(y), list(s), tc, x.yc))
        yield same("shape", (tuple(mean.shape), tuple(std.shape)), ((n,), (n,)))
        for i in range(n):
            r = x["r%d%d" % (i, n)]
            yield eq("mean %d" % i, mean[i], y[i] + r * (x.yc - y0) / s0 * s[i])
            yield eq("variance %d" % i, std[i] ** 2, s[i] ** 2 * (1 - r ** 2))
            yield ge("no larger variance %d" % i, s[i] ** 2 - std[i] ** 2, 0.0, tol=1e-9)
    return Case("CMS n=%d conditioned in interval %d" % (n, seg), box(n, n + 1, u=(1e-3, 0.999), yc=(-10, 3)), body, fns=F2)


def case_cms_at(n, k):
    """conditioned at one of the periods"""
    def body(w, x):
        np = w.np
        t, y, s = spectrum(w, x, n)
        mean, std = with_correlation(w, table(w, x, t), lambda: w.mod("baker_jayaram_2008").calc_cond_mean_spectrum(t, y, np.array(s), t[k], x.yc))
        for i in range(n):
            r = 1.0 if i == k else x["r%d%d" % tuple(sorted((i, k)))]
            yield eq("mean %d" % i, mean[i], y[i] + r * (x.yc - y[k]) / s[k] * s[i])
            yield eq("variance %d" % i, std[i] ** 2, s[i] ** 2 * (1 - r ** 2))
        yield eq("hits the conditioning value", mean[k], x.yc)
        yield eq("no deviation at the conditioning period", std[k], 0.0)
    return Case("CMS n=%d conditioned at period %d" % (n, k), box(n, yc=(-10, 3)), body, fns=F2)


def case_kishida(n, cond):
    """conditioned at the periods cond"""
    free = [i for i in range(n) if i not in cond]

    def parts(x, i):
        r = lambda p, q: 1.0 if p == q else x["r%d%d" % tuple(sorted((p, q)))]
        a, b, c = r(i, cond[0]), r(i, cond[-1]), r(cond[0], cond[-1])
        return (a, b, c, 1 - c ** 2) if len(cond) == 2 else (a, a, 0.0, 1.0)

    def body(w, x):
        np = w.np
        t, y, s = spectrum(w, x, n)
        yc = np.ma.array([x["c%d" % i] if i in cond else 0.0 for i in range(n)], mask=[i not in cond for i in range(n)])
        mean, std = with_correlation(w, table(w, x, t), lambda: w.mod("kishida_2017").calc_cond_mean_spectrum_vector(np.array(t), y, s, yc))
        yield same("shape", (tuple(mean.shape), tuple(std.shape)), ((n,), (n,)))
        for k in cond:
            yield eq("hits the conditioning value %d" % k, mean[k], x["c%d" % k])
            yield eq("no deviation at conditioning period %d" % k, std[k], 0.0)
        res = [(x["c%d" % k] - y[k]) / s[k] for k in cond]
        for i in free:
            a, b, c, d = parts(x, i)
            if len(cond) == 1:
                yield eq("mean %d" % i, mean[i], y[i] + s[i] * a * res[0])
                yield eq("variance %d" % i, std[i] ** 2, s[i] ** 2 * (1 - a ** 2))
                yield ge("no larger variance %d" % i, s[i] ** 2 - std[i] ** 2, 0.0, tol=1e-9)
            else:
                yield eq("mean %d" % i, mean[i], y[i] + s[i] * ((a - b * c) * res[0] + (b - a * c) * res[1]) / d)
                # what the two periods explain, as a sum of squares over 1 - c^2 > 0: never negative
                yield eq("variance %d" % i, std[i] ** 2, s[i] ** 2 * (1 - (b ** 2 + (a - b * c) ** 2 / d)))

    def valid(w, x):
        """the correlations are those of some random numbers"""
        if len(cond) < 2:
            return []
        return [b ** 2 * d + (a - b * c) ** 2 <= 0.99 * d for a, b, c, d in (parts(x, i) for i in free)]
    return Case("Kishida n=%d conditioned at %s" % (n, ",".join(map(str, cond))), box(n, **{"c%d" % k: (-10, 3) for k in cond}), body, assume=valid, fns=F3)


def case_agree(n, k):
    """one conditioning period: the same as the single-period version, with the real correlation"""
    def body(w, x):
        np = w.np
        t, y, s = spectrum(w, x, n)
        yc = np.ma.array([x.yc if i == k else 0.0 for i in range(n)], mask=[i != k for i in range(n)])
        run = lambda f: with_correlation(w, table(w, x, t), f)
        mean, std = run(lambda: w.mod("kishida_2017").calc_cond_mean_spectrum_vector(t, y, s, yc))
        mean1, std1 = run(lambda: w.mod("baker_jayaram_2008").calc_cond_mean_spectrum(t, y, s, t[k], x.yc))
        for i in range(n):
            yield eq("mean %d" % i, mean[i], mean1[i])
            yield eq("variance %d" % i, std[i] ** 2, std1[i] ** 2)
    return Case("Kishida n=%d equals CMS at %d" % (n, k), box(n, yc=(-10, 3)), body, fns=F3 + F2)


def case_unordered():
    def body(w, x):
        f = w.mod("kishida_2017").calc_cond_mean_spectrum_vector
        yc = w.np.ma.array([0.1, 0.0], mask=[False, True])
        try:
            f([x.t0, x.t0 - x.d], [x.y, 0.2], [0.5, 0.6], yc)
            bad = False
        except ValueError:
            bad = True
        yield same("raises", bad, True)
    return Case("Kishida periods not increasing", dict(t0=(3, 10), d=(0, 2.9), y=(-5, 1)), body, fns=F3)


def case_all(n):
    def body(w, x):
        f = w.mod("kishida_2017").calc_cond_mean_spectrum_vector
        t, y, s = spectrum(w, x, n)
        c = [x["c%d" % i] for i in range(n)]
        mean, std = with_correlation(w, table(w, x, t), lambda: f(t, y, s, w.np.ma.array(c)))
        for i in range(n):
            yield eq("mean %d" % i, mean[i], c[i])
            yield eq("std %d" % i, std[i], 0.0)
    return Case("Kishida n=%d conditioned everywhere" % n, box(n, **{"c%d" % i: (-10, 3) for i in range(n)}), body, fns=F3)


def cases(tier):
    cells = [(0.01, 0.109), (0.109, 0.2), (0.2, 10.0)]
    for a, b in itertools.product(cells, cells):
        yield case_corr(a, b, "%g-%g, %g-%g s" % (a + b))
    yield case_corr(PER, PER, "all")
    yield case_corr_equal()
    yield from ranges()
    for n in (2, 3, 4):
        for seg in range(-1, n):
            yield case_cms(n, seg)
        for k in range(n):
            yield case_cms_at(n, k)
            yield case_agree(n, k)
        for m in (1, 2):
            for cond in itertools.combinations(range(n), m):
                if m < n:
                    yield case_kishida(n, cond)
    yield case_all(2)
    yield case_unordered()
