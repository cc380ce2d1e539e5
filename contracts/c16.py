"""Bayless & Abrahamson (2018) and Stafford (2017) inter-frequency correlation and covariance.

The matrices are built for vectors of one to four arbitrary frequencies; every entry is shown to be the published function of its pair."""
import math
from pyvc.contract import Case, eq, ge, same
from .common import table, jtable, product, tag

ID = "C16"
ASSUME = ["matrices are built for vectors of one to four frequencies: bounded in the length, unbounded in the values"]
FB = ["BaylessAbrahamson2018.corr", "BaylessAbrahamson2018.cov"]
FS = ["Stafford2017." + f for f in ["_sigmoid", "compute_corner_frequency", "compute_gamma_E", "compute_eta_A", "compute_gamma_A", "compute_eta_S", "compute_gamma_S",
                                    "between_event_correlation", "within_event_correlation", "between_site_correlation", "compute_variances", "cov", "cor"]]


# --- Bayless & Abrahamson (2018), eqs. 10-11, electronic supplement S1 ------------------------------
def ba18(w, fi, fj):
    np = w.np
    c = table("bayless_abrahamson_2018.csv", 3)
    fm = np.minimum(fi, fj)
    a, b, cc, d = (np.interp(fm, c["freq_hz"], c[k]) for k in "ABCD")
    fr = abs(np.log(fi / fj))
    return np.tanh(a * np.exp(b * fr) + cc * np.exp(d * fr))


def freqs_of(x):
    return [x["f%d" % i] for i in range(sum(1 for k in x if k[0] == "f"))]


def case_ba18(n, aslist=False):
    def body(w, x):
        f = freqs_of(x)
        m = w.mod("bayless_abrahamson_2018").BaylessAbrahamson2018
        r = m.corr(f if aslist else w.np.array(f))
        yield same("shape", tuple(r.shape), (n, n))
        for i, j in product_ij(n):
            if i == j:
                yield eq("diagonal %d" % i, r[i, i], 1.0, tol=1e-15)
            else:
                yield eq("corr %d,%d" % (i, j), r[i, j], ba18(w, f[i], f[j]))
                if i < j:
                    yield eq("symmetry %d,%d" % (i, j), r[i, j] - r[j, i], 0.0, tol=1e-12)
                yield ge("upper bound %d,%d" % (i, j), 1 - r[i, j], 0.0, tol=1e-12)
                yield ge("lower bound %d,%d" % (i, j), 1 + r[i, j], 0.0, tol=1e-12)
    return Case("BA18 correlation n=%d%s" % (n, " list" if aslist else ""), {"f%d" % i: (0.01, 100) for i in range(n)}, body, fns=FB[:1])


def product_ij(n):
    return [(i, j) for i in range(n) for j in range(n)]


def case_ba18_cov(comp, n=2):
    def body(w, x):
        f = freqs_of(x)
        np = w.np
        m = w.mod("bayless_abrahamson_2018").BaylessAbrahamson2018
        c = table("bayless_abrahamson_2018.csv", 3)
        if comp in ("given", "given and named"):
            s = [x["s%d" % i] for i in range(n)]
            k = m.cov(np.array(f), std=np.array(s), **({} if comp == "given" else dict(component="tau")))
        else:
            s = [np.interp(v, c["freq_hz"], c[comp]) for v in f]
            k = m.cov(np.array(f), component=comp)
        yield same("shape", tuple(k.shape), (n, n))
        for i, j in product_ij(n):
            yield eq("cov %d,%d" % (i, j), k[i, j], (ba18(w, f[i], f[j]) if i != j else 1.0) * s[i] * s[j])
    box = {"f%d" % i: (0.01, 100) for i in range(n)}
    if comp.startswith("given"):
        box.update({"s%d" % i: (0, 3) for i in range(n)})
    return Case("BA18 covariance std=%s" % comp, box, body, fns=FB)


# --- Stafford (2017), BSSA 107(6), eqs. 4, 7-19 -----------------------------------------------------
def sig(w, f, a0, a1, a2):
    return a0 / (1 + w.np.exp(-a2 * w.np.log(f / a1)))


def C():
    return jtable("stafford_2017.json")


def gamma_e(w, f, mag):
    c = C()
    fn = f / w.np.exp(math.log(10) * (c["CF_C1"] - c["CF_C2"] * mag))
    return c["gamma_E0"] + sig(w, fn, c["gamma_E1"], c["gamma_E2"], c["gamma_E3"]) + c["gamma_E4"] * w.np.log(fn / c["gamma_E2"])


def eta_a(w, f):
    c = C()
    return sig(w, f, c["eta_A0"], c["eta_A1"], c["eta_A2"]) * (1 + sig(w, f, c["eta_A3"], c["eta_A4"], c["eta_A5"]))


def gamma_a(w, f):
    c = C()
    np = w.np
    g = np.minimum(f, c["gamma_A_FREF"])
    s = g / (g + c["gamma_A2"] * (1 - g / c["gamma_A_FREF"]))
    return c["gamma_A0"] + s * c["gamma_A1"] + c["gamma_A3"] * np.log(np.maximum(f, c["gamma_A_FREF"]) / c["gamma_A_FREF"]) ** 2


def eta_s(w, f):
    c = C()
    np = w.np
    return c["eta_S0"] * np.log(np.clip(f, 0.25, 4.0) / 0.25) + c["eta_S1"] * np.log(np.maximum(f, 4.0) / 4.0)


def gamma_s(w, f):
    c = C()
    return c["gamma_S0"] + sig(w, f, c["gamma_S1"], c["gamma_S2"], c["gamma_S3"]) + sig(w, f, c["gamma_S4"], c["gamma_S5"], c["gamma_S6"])


def rhos(w, f, u, mag):
    """Correlations of the frequencies f and f*exp(u), u >= 0: between events, between sites, within events."""
    np = w.np
    nug = np.exp(-50.0 * u)
    r_s = (1 - eta_s(w, f)) * np.exp(gamma_s(w, f) * u)
    r_a = (1 - eta_a(w, f)) * np.exp(gamma_a(w, f) * u)
    return np.exp(gamma_e(w, f, mag) * u), r_s * (1 - nug) + nug, r_a * (1 - nug) + nug


def sigmas(w, f):
    c = C()
    np = w.np
    e = c["sigma_E0"] + sig(w, f, c["sigma_E1"], c["sigma_E2"], c["sigma_E3"]) + sig(w, f, c["sigma_E4"], c["sigma_E5"], c["sigma_E6"])
    s = c["sigma_S0"] + sig(w, f, c["sigma_S1"], c["sigma_S2"], c["sigma_S3"]) + sig(w, f, c["sigma_S4"], c["sigma_S5"], c["sigma_S6"])
    a = c["sigma_A0"] + c["sigma_A1"] * np.log(np.maximum(f, c["sigma_A_FREF"]) / c["sigma_A_FREF"]) ** 2
    return e, s, a


SF = (0.01, 50.0)
UMAX = math.log(5000.0)


def case_params():
    def body(w, x):
        S = w.mod("stafford_2017").Stafford2017
        f = x.f
        yield eq("gamma_E", S.compute_gamma_E(f, x.mag), gamma_e(w, f, x.mag))
        yield eq("eta_A", S.compute_eta_A(f), eta_a(w, f))
        yield eq("gamma_A", S.compute_gamma_A(f), gamma_a(w, f))
        yield eq("eta_S", S.compute_eta_S(f), eta_s(w, f))
        yield eq("gamma_S", S.compute_gamma_S(f), gamma_s(w, f))
        for n, g in [("E", gamma_e(w, f, x.mag)), ("A", gamma_a(w, f)), ("S", gamma_s(w, f))]:
            yield ge("correlation decays %s" % n, -g, 0.0)
        for n, h in [("A", eta_a(w, f)), ("S", eta_s(w, f))]:
            yield ge("nugget %s is not negative" % n, h, 0.0, tol=1e-12)
            yield ge("nugget %s is below one" % n, 1 - h, 0.0)
        for n, a, b in zip("ESA", S.compute_variances([f]), sigmas(w, f)):
            yield eq("sigma %s" % n, a[0], b)
            yield ge("sigma %s is positive" % n, b, 0.01)
    return Case("Stafford parameters", dict(f=SF, mag=(3, 8)), body, fns=FS[:6] + FS[10:11])


def case_pair():
    def body(w, x):
        S = w.mod("stafford_2017").Stafford2017
        np = w.np
        f, g = x.f, x.f * np.exp(x.u)
        re, rs, ra = rhos(w, f, x.u, x.mag)
        for n, a, b in [("up", f, g), ("down", g, f)]:
            yield eq("between events " + n, S.between_event_correlation(a, b, x.mag), re)
            yield eq("between sites " + n, S.between_site_correlation(a, b), rs)
            yield eq("within events " + n, S.within_event_correlation(a, b), ra)
        for n, r in [("E", re), ("S", rs), ("A", ra)]:
            yield ge("non-negative " + n, r, 0.0)
        # 1 - rho = (1 - rho_0)(1 - nugget) and 0 <= rho_0, nugget <= 1
        nug = np.exp(-50.0 * x.u)
        yield eq("complement S", 1 - rs, (1 - (1 - eta_s(w, f)) * np.exp(gamma_s(w, f) * x.u)) * (1 - nug))
        yield eq("complement A", 1 - ra, (1 - (1 - eta_a(w, f)) * np.exp(gamma_a(w, f) * x.u)) * (1 - nug))
        yield ge("at most one E", 1 - re, 0.0, tol=1e-12)
        yield ge("at most one S", (1 - (1 - eta_s(w, f)) * np.exp(gamma_s(w, f) * x.u)) * (1 - nug), 0.0, tol=1e-12)
        yield ge("at most one A", (1 - (1 - eta_a(w, f)) * np.exp(gamma_a(w, f) * x.u)) * (1 - nug), 0.0, tol=1e-12)
    return Case("Stafford pair", dict(f=SF, u=(0, UMAX), mag=(3, 8)), body, fns=FS[:10])


def case_equal():
    def body(w, x):
        S = w.mod("stafford_2017").Stafford2017
        yield eq("between events", S.between_event_correlation(x.f, x.f, x.mag), 1.0)
        yield eq("between sites", S.between_site_correlation(x.f, x.f), 1.0)
        yield eq("within events", S.within_event_correlation(x.f, x.f), 1.0)
    return Case("Stafford equal frequencies", dict(f=SF, mag=(3, 8)), body, fns=FS[7:10])


def case_matrix(n, given, mag, aslist=False):
    """Frequencies f0, f0*exp(u1), ... in an order that is not monotone."""
    def body(w, x):
        S = w.mod("stafford_2017").Stafford2017
        np = w.np
        us = [x["u%d" % i] for i in range(1, n)]
        fs = [x.f]
        for u in us:
            fs.append(fs[-1] * np.exp(u))
        perm = [(i * 2 + 1) % n if n == 3 else n - 1 - i for i in range(n)]
        f = [fs[p] for p in perm]
        kw = {}
        sg = [list(sigmas(w, v)) for v in f]
        for k in given:
            v = [x["s%s%d" % (k, i)] for i in range(n)]
            kw["sigma_" + k] = v if aslist else np.array(v)
            for i in range(n):
                sg[i]["ESA".index(k)] = v[i]
        mg = 6.0
        if mag:
            kw["mag"] = mg = x.mag
        arg = f if aslist else np.array(f)
        cov = S.cov(arg, **kw)
        cor = S.cor(arg, **kw)
        yield same("shape", (tuple(cov.shape), tuple(cor.shape)), ((n, n), (n, n)))
        var = []
        for i in range(n):
            v = sum(s * s for s in sg[i])
            var.append(v)
            yield ge("variance %d is positive" % i, v, 1e-4)
            yield eq("variance %d" % i, cov[i, i], v)
            yield eq("correlation %d,%d" % (i, i), cor[i, i] * (var[i] ** 0.5) * (var[i] ** 0.5), v)
        for i, j in product_ij(n):
            if i == j:
                continue
            lo, hi = sorted((perm[i], perm[j]))
            r = rhos(w, fs[lo], sum(us[lo:hi]), mg)
            c = sum(r[k] * sg[i][k] * sg[j][k] for k in range(3))
            yield eq("cov %d,%d" % (i, j), cov[i, j], c)
            yield eq("correlation %d,%d" % (i, j), cor[i, j], c / ((var[i] ** 0.5) * (var[j] ** 0.5)))
    box = dict(f=(0.01, 5.0))
    box.update({"u%d" % i: (0, math.log(10.0) / (n - 1)) for i in range(1, n)})
    for k in given:
        box.update({"s%s%d" % (k, i): (0.01, 2) for i in range(n)})
    if mag:
        box["mag"] = (3, 8)
    return Case("Stafford matrix n=%d given=%s mag=%s%s" % (n, given or "none", "given" if mag else "default", " list" if aslist else ""), box, body, fns=FS)


def case_lemma():
    """Cauchy-Schwarz for the three components: with 0 <= r <= 1 and positive deviations the total correlation is within one."""
    def body(w, x):
        r, a, b = ([x["%s%d" % (n, k)] for k in range(3)] for n in "rab")
        cov = sum(r[k] * a[k] * b[k] for k in range(3))
        sos = sum((1 - r[k] ** 2) * a[k] ** 2 * b[k] ** 2 for k in range(3))
        for k in range(3):
            for m in range(k):
                sos = sos + (a[k] * b[m] - a[m] * b[k]) ** 2 + 2 * a[k] * b[k] * a[m] * b[m] * (1 - r[k] * r[m])
        yield eq("identity", sum(v * v for v in a) * sum(v * v for v in b) - cov * cov, sos)
        yield ge("is not negative", sos, 0.0, tol=1e-9)
    box = {n + str(k): (0, 1) if n == "r" else (0, 3) for n in "rab" for k in range(3)}
    return Case("lemma: components within one give a total within one", box, body)


def case_bad():
    def body(w, x):
        S = w.mod("stafford_2017").Stafford2017
        m = w.mod("bayless_abrahamson_2018").BaylessAbrahamson2018
        for k in ("sigma_E", "sigma_S", "sigma_A"):
            yield same("length mismatch of " + k, raises(lambda: S.cov([x.f, 2.0], **{k: [0.5]}), ValueError), True)
        yield same("no standard deviation", raises(lambda: m.cov(w.np.array([x.f, 2.0])), NotImplementedError), True)
    return Case("errors", dict(f=(0.1, 20)), body, fns=FB[1:] + FS[11:12])


def raises(f, exc):
    try:
        f()
    except exc:
        return True
    return False


def cases(tier):
    for n in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        yield case_ba18(n)
    yield case_ba18(2, True)
    for comp in ["tau", "phi_s2s", "phi_s", "sigma", "given", "given and named"]:
        yield case_ba18_cov(comp)
    yield case_params()
    yield case_pair()
    yield case_equal()
    for given in ["", "E", "S", "A", "ES", "EA", "SA", "ESA"]:
        yield case_matrix(2, given, True)
    yield case_matrix(1, "", True)
    yield case_matrix(2, "", False)
    yield case_matrix(2, "E", True, True)
    yield case_matrix(3, "", True)
    yield case_lemma()
    yield case_bad()
