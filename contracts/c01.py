"""Evaluations change nothing but the model evaluated (frame conditions).

On every path of every model: what can be reached from the package's modules (coefficient tables, class attributes, function
defaults) is, after the evaluation, what was loaded; so is the caller's scenario, and every array argument.  State that no
evaluation changes makes the result a function of the inputs after any history.  Where an evaluation fills a table that
was empty (a memo), that argument is not available; then results are compared with those of a package whose tables are empty, after
evaluations that share all inputs but one (any two values of that one)."""
import warnings

from pyvc import frame, load
from pyvc.contract import Case, eq, same
from . import scen
from .common import tag

ID = "C01"
PERIODS = [0.11, 2.3, 0.7]
PER_MODEL = set()           # models with separate cases for the tables they fill


def fns(name):
    return [name + "." + f for f in ("__init__", "_calc_ln_resp", "_calc_ln_std", "_check_inputs", "scenario")]


def extra(w, x, ctor):
    return {ctor: w.np.exp(x.ln_gm)} if ctor else {}


def read(w, name, m, arg=None):
    r = list(scen.results(w, name, m))
    if name in scen.GMM:
        r.append(("interpolated ln spec_accels", m.interp_ln_spec_accels(arg)))
        r.append(("interpolated ln_stds", m.interp_ln_stds(arg)))
    elif name == "GulerceAbrahamson2011":
        r.append(("interpolated ratio", m.interp_ratio(arg)))
        r.append(("interpolated ln_std", m.interp_ln_std(arg)))
    return r


def case(name, cat, given, ctor=None, label=""):
    rg = scen.ranges(name)
    b = {k: rg[k] for k in given}
    if ctor:
        b["ln_gm"] = (-7, 1)

    def body(w, x):
        f = frame.of(w)
        f.reset()
        np, k = w.np, scen.cls(w, name)
        kw = {n: x[n] for n in given}
        kw.update(cat)
        scenario = lambda d: w.Scenario(**{n: v for n, v in d.items() if v is not None})
        s = scenario(kw)
        before = frame.token(dict(s)), sorted(s.__dict__)
        arg = np.array(PERIODS)
        arg0 = frame.token(arg)
        m = k(s, **extra(w, x, ctor))
        first = read(w, name, m, arg)
        yield same("the caller's scenario is unchanged", (frame.token(dict(s)), sorted(s.__dict__)) == before, True)
        yield same("the array argument is unchanged", frame.token(arg) == arg0, True)
        yield same("data of the package that an evaluation changed", f.changed(), [])
        # another instance, elsewhere in the ranges
        other = dict(cat, **{n: rg[n][0] + 0.375 * (rg[n][1] - rg[n][0]) for n in given})
        if name == "CampbellBozorgnia2014":
            other["dist_jb"] = 0.9 * other["dist_rup"]
        m2 = k(scenario(other), **({ctor: 0.37} if ctor else {}))
        read(w, name, m2, np.array(PERIODS))
        for (n, a), (_, c) in zip(read(w, name, m, np.array(PERIODS)), first):
            yield eq("unchanged by the evaluation of another instance: " + n, a, c)
        again = read(w, name, k(scenario(kw), **extra(w, x, ctor)), np.array(PERIODS))
        for (n, a), (_, c) in zip(again, first):
            yield eq("the same inputs again: " + n, a, c)
        yield same("data of the package that the evaluations changed", f.changed(), [])
        if name not in PER_MODEL and f.grown():                    # tables filled on the way: results must not depend on what is in them
            for n in given:
                d = dict(kw)
                d[n] = rg[n][0] + 0.625 * (rg[n][1] - rg[n][0])
                f.reset()
                fresh = read(w, name, k(scenario(d), **extra(w, x, ctor)), np.array(PERIODS))
                f.reset()
                read(w, name, k(scenario(kw), **extra(w, x, ctor)), np.array(PERIODS))
                for (l, a), (_, c) in zip(read(w, name, k(scenario(d), **extra(w, x, ctor)), np.array(PERIODS)), fresh):
                    yield eq("after an evaluation that differs in %s: %s" % (n, l), a, c)
            for o, vals in scen.options(name).items():
                for v in vals:
                    if v == cat.get(o) or not scen.supported(name, dict(cat, **{o: v})) or set(scen.needed(name, dict(cat, **{o: v}))) - set(given):
                        continue
                    d = dict(kw, **{o: v})
                    f.reset()
                    fresh = read(w, name, k(scenario(d), **extra(w, x, ctor)), np.array(PERIODS))
                    f.reset()
                    read(w, name, k(scenario(kw), **extra(w, x, ctor)), np.array(PERIODS))
                    for (l, a), (_, c) in zip(read(w, name, k(scenario(d), **extra(w, x, ctor)), np.array(PERIODS)), fresh):
                        yield eq("after an evaluation that differs in %s=%s: %s" % (o, v, l), a, c)
            f.reset()
    return Case("%s %s%s%s" % (name, tag(cat), " from " + ctor if ctor else "", label), b, body, fns=fns(name), assume=scen.assume(name))


# -- functions that take arrays ---------------------------------------------------------------------------
def arrays(name, box, build, call, fns):
    """Every array argument holds afterwards what it held before, and the same call gives the same result"""
    def body(w, x):
        f = frame.of(w)
        f.reset()
        args = build(w, x)
        t = frame.token(args)
        r = call(w, *args)
        yield same("array arguments are unchanged", frame.token(args) == t, True)
        yield same("data of the package that the call changed", f.changed(), [])
        for n, (a, b) in enumerate(zip(flat(call(w, *build(w, x))), flat(r))):
            yield eq("the same call again %d" % n, a, b)
    return Case(name, box, body, fns=fns)


def flat(r):
    return list(r) if isinstance(r, tuple) else [r]


def functions():
    P4 = {"t%d" % i: (0.01 * 2 ** i, 0.0199 * 2 ** i) for i in range(3)}
    Y3 = {"y%d" % i: (-9, 2) for i in range(3)}
    S3 = {"s%d" % i: (0.2, 1) for i in range(3)}
    vec = lambda w, x, c: w.np.array([x["%s%d" % (c, i)] for i in range(3)])
    bj = lambda w: w.mod("baker_jayaram_2008")
    yield arrays("BakerJayaram2008 correlations", dict(P4, tc=(0.01, 10)), lambda w, x: [vec(w, x, "t"), x.tc], lambda w, t, c: bj(w).calc_correls(t, c), ["calc_correls"])
    yield arrays("BakerJayaram2008 conditional mean spectrum", dict(P4, tc=(0.01, 0.05), yc=(-9, 2), **Y3, **S3),
                 lambda w, x: [vec(w, x, "t"), vec(w, x, "y"), vec(w, x, "s"), x.tc, x.yc],
                 lambda w, *a: bj(w).calc_cond_mean_spectrum(*a), ["calc_cond_mean_spectrum", "calc_correls"])

    def masked(w, x, which):
        np = w.np
        return [vec(w, x, "t"), vec(w, x, "y"), vec(w, x, "s"), np.ma.masked_array(vec(w, x, "c"), mask=[i not in which for i in range(3)])]
    for which in [(1,), (0, 2)]:
        yield arrays("Kishida2017 conditioned at %s" % (which,), dict(P4, c0=(-9, 2), c1=(-9, 2), c2=(-9, 2), **Y3, **S3), lambda w, x, which=which: masked(w, x, which),
                     lambda w, *a: w.mod("kishida_2017").calc_cond_mean_spectrum_vector(*a), ["calc_cond_mean_spectrum_vector"])
    fr = {"f%d" % i: (0.1, 50) for i in range(3)}
    ba = lambda w: w.mod("bayless_abrahamson_2018").BaylessAbrahamson2018
    yield arrays("BaylessAbrahamson2018 corr", fr, lambda w, x: [vec(w, x, "f")], lambda w, f: ba(w).corr(f), ["BaylessAbrahamson2018.corr"])
    yield arrays("BaylessAbrahamson2018 cov", dict(fr, **S3), lambda w, x: [vec(w, x, "f"), vec(w, x, "s")], lambda w, f, s: ba(w).cov(f, std=s), ["BaylessAbrahamson2018.cov"])
    st = lambda w: w.mod("stafford_2017").Stafford2017
    yield arrays("Stafford2017", dict(fr, mag=(3, 8)), lambda w, x: [vec(w, x, "f"), x.mag], lambda w, f, m: (st(w).cor(f, mag=m), st(w).cov(f, mag=m)),
                 ["Stafford2017.cor", "Stafford2017.cov"])
    yield arrays("Stafford2017 with standard deviations", dict(fr, mag=(3, 8), **S3), lambda w, x: [vec(w, x, "f"), vec(w, x, "s"), 2 * vec(w, x, "s"), 3 * vec(w, x, "s"), x.mag],
                 lambda w, f, a, b, c, m: (st(w).cor(f, a, b, c, m), st(w).cov(f, a, b, c, m)), ["Stafford2017.cor", "Stafford2017.cov"])
    for name, mod, n in [("AbrahamsonSilvaKamai2014", "abrahamson_silva_kamai_2014", None), ("ChiouYoungs2014", "chiou_youngs_2014", None)]:
        def build(w, x, name=name):
            n = len(scen.cls(w, name).PERIODS)
            return [w.np.exp(x.ln_ref) * w.np.ones(n), x.v_s30, x.depth, "california"]
        yield arrays(name + " site term", dict(ln_ref=(-7, 1), v_s30=(200, 1200), depth=(0.01, 1)), build, lambda w, *a, name=name: scen.cls(w, name).calc_site_term(*a),
                     [name + ".calc_site_term"])


# -- tables that the package fills as it runs (memos) -----------------------------------------------------
def generic(name, cat, given):
    rg = scen.ranges(name)
    d = dict(cat, **{n: rg[n][0] + 0.4375 * (rg[n][1] - rg[n][0]) for n in given})
    if name == "CampbellBozorgnia2014":
        d["dist_rup"], d["dist_jb"] = 120.0, 100.0
    return d


def memo(name, cat, given, n, ctor, option=None):
    """The result for one input after the evaluation of any other that differs from it in one place, against a package whose
    tables are empty; the remaining inputs are held"""
    lo, hi = scen.ranges(name)[n]
    if name == "CampbellBozorgnia2014":
        lo, hi = dict(dist_rup=(100, hi), dist_jb=(lo, 120)).get(n, (lo, hi))
    hold = generic(name, cat, given)
    first = (lambda x: dict(hold, **{n: x.a})) if option is None else (lambda x: dict(hold, **{n: x.b}))
    second = (lambda x: dict(hold, **{n: x.b})) if option is None else (lambda x: dict(hold, **{n: x.b, option[0]: option[1]}))

    def body(w, x):
        f = frame.of(w)
        f.reset()
        k = scen.cls(w, name)
        run = lambda d: read(w, name, k(w.Scenario(**{i: v for i, v in d.items() if v is not None}), **({ctor: 0.37} if ctor else {})), w.np.array(PERIODS))
        fresh = run(second(x))
        f.reset()
        run(first(x))
        for (l, a), (_, c) in zip(run(second(x)), fresh):
            yield eq("after an evaluation that differs in %s: %s" % (n if option is None else "%s=%s" % option, l), a, c)
        f.reset()
    return Case("%s %s%s, a second evaluation that differs in %s" % (name, tag(cat), " from " + ctor if ctor else "", n if option is None else "%s=%s" % option),
                dict(b=(lo, hi), **({} if option else {"a": (lo, hi)})), body, fns=fns(name))


def remembers():
    """Models whose evaluation fills a table of the package"""
    try:
        w = load.concrete()
        f = frame.of(w)
    except Exception:
        return []
    out = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for name in scen.D:
            grown = False
            for cat, given in scen.spaces(name):
                try:
                    m = scen.cls(w, name)(w.Scenario(**{i: v for i, v in generic(name, cat, given).items() if v is not None}),
                                          **({"psa_1s": 0.37} if name == "AbrahamsonBhasin2020" else {}))
                    read(w, name, m, w.np.array(PERIODS))
                except Exception:
                    pass
                if f.grown():
                    grown = True
                    break
            f.reset()
            if grown:
                out.append(name)
    return out


def memos():
    for name in remembers():
        for cat, given in scen.spaces(name):
            ctor = "psa_1s" if name == "AbrahamsonBhasin2020" else None
            for n in given:
                yield memo(name, cat, given, n, ctor)
            for o, vals in scen.options(name).items():
                for v in vals:
                    if v != cat.get(o) and scen.supported(name, dict(cat, **{o: v})) and not set(scen.needed(name, dict(cat, **{o: v}))) - set(given):
                        yield memo(name, cat, given, given[0], ctor, (o, v))


def cases(tier):
    m = list(memos())
    yield from m
    PER_MODEL.update(c.fns[0].split(".")[0] for c in m)
    yield from functions()
    for name in scen.D:
        opt = scen.OPTIONAL.get(name, [])
        for cat, given in scen.spaces(name):
            for ctor in ["pga", "psa_1s"] if name == "AbrahamsonBhasin2020" else [None]:
                yield case(name, cat, given, ctor)
                o = [k for k in opt if k not in given]
                if o and (tier == "thorough" or all(cat.get(k) in (None, v[0]) for k, v in scen.options(name).items() if k in ("mechanism", "vs_source"))):
                    yield case(name, cat, given + o, ctor, label=" with " + ",".join(o))
