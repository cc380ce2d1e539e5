"""Screening of the inputs against the declared limits."""
from pyvc.contract import Case, eq, true, same
from .common import jtable

ID = "C03"

# what a model is evaluated with while one input varies
NOMINAL = dict(mag=6.1, dist_rup=30.0, dist_jb=25.0, dist_epi=35.0, dist_hyp=36.0, dist_x=12.0, dist_y0=4.0, dist_crjb=8.0, v_s30=600.0, depth_1_0=0.1,
               depth_2_5=1.5, depth_tor=3.0, depth_bor=13.0, depth_bot=15.0, depth_hyp=8.0, dip=50.0, width=11.0, dpp_centered=0.1, pga_ref=0.1)
WIDE = dict(mag=(0.5, 10), dist_x=(-600, 600), v_s30=(20, 5000), dip=(2, 120), dpp_centered=(-30, 30), pga_ref=(1e-5, 50), width=(0.5, 300))


# missing optional inputs with an estimate of their own (C19, C21), or of which one is needed
ESTIMATED = dict(AkkarSandikkayaBommer2014=["dist_jb", "dist_epi", "dist_hyp"], AbrahamsonGregorAddo2016=["dist_rup", "dist_hyp", "depth_hyp"],
                 CoppersmithBommer2014=["dist_rup"], AbrahamsonSilvaKamai2014=["width", "depth_tor"], ChiouYoungs2014=["depth_tor", "depth_1_0"],
                 CampbellBozorgnia2014=["depth_2_5", "depth_tor", "width", "depth_bor", "depth_hyp"], BaylessAbrahamson2019=["depth_1_0"])
# interface events in Taiwan have no published coefficients
UNDEFINED = {("PinillaRamosEtAl2024", "interface", "Taiwan")}


def wide(name):
    return WIDE.get(name) or ((-20, 2000) if name.startswith("dist") else (-20, 80))


def warned(w):
    """(UserWarnings, log records of level WARNING or above) since the log was cleared"""
    u = [m for c, m in w.log.items if isinstance(c, type) and issubclass(c, Warning)]
    g = [m for c, m in w.log.items if isinstance(c, str) and c in ("WARNING", "ERROR", "CRITICAL", "EXCEPTION")]
    return len(u), len(g)


def categories(w):
    return [c.__name__ for c, m in w.log.items if isinstance(c, type)]


def raises(f, exc):
    try:
        f()
    except exc as e:
        return type(e).__name__ == exc.__name__
    return False


# -- the parameter classes -------------------------------------------------------------------------

def numeric(has_min, has_max, required, has_default):
    def body(w, x):
        P = w.mod("model").NumericParameter
        lo, hi = (x.lo if has_min else None), (x.lo + x.span if has_max else None)
        d = x.default if has_default else None
        p = P("mag", required, lo, hi, d)
        w.log.items.clear()
        r = p.check(x.value)
        n = warned(w)[0]
        yield eq("the supplied value is used unchanged", r, x.value, tol=1e-15)
        exp = w.ite(x.value > hi, 1.0, 0.0) if has_max else 0.0
        if has_min:
            exp = w.ite(x.value < lo, 1.0, exp)
        yield eq("one warning strictly outside the limits, none inside", exp, float(n), tol=1e-15)
        yield same("warnings are UserWarnings", set(categories(w)) <= {"UserWarning"}, True)
        w.log.items.clear()
        if required:
            yield same("a missing required value raises ValueError", raises(lambda: p.check(None), ValueError), True)
        else:
            r = p.check(None)
            if has_default:
                yield eq("a missing optional value takes the default", r, d, tol=1e-15)
            else:
                yield same("a missing optional value stays missing", r is None, True)
                yield same("a missing optional value does not warn", warned(w)[0], 0)
        yield same("declared as given", (p.name, p.required), ("mag", required))
        for n, a, b in (("min", p.min, lo), ("max", p.max, hi), ("default", p.default, d)):
            yield eq("declared " + n, a, b, tol=1e-15)
    box = dict(value=(-1000, 1000), lo=(-900, 900), span=(0, 900), default=(-1000, 1000))
    return Case("NumericParameter min=%d max=%d required=%d default=%d" % (has_min, has_max, required, has_default), box, body,
                fns=["NumericParameter.check", "Parameter.check"])


CATS = [(["SS", "NS", "RS"], "SS"), (["SS", "NS", "RS"], None), ([True, False], False), (["interface", "intraslab"], "interface"), (["only"], "only")]
PROBES = ["SS", "NS", "RS", "U", "ss", "SSX", "S", "", "interface", "only", True, False, 7.5]


def categorical(i, required):
    opts, default = CATS[i]

    def body(w, x):
        p = w.mod("model").CategoricalParameter("mechanism", required, list(opts), default)
        for v in PROBES:
            w.log.items.clear()
            r = p.check(v)
            n = warned(w)[0]
            ok = any(type(v) is type(o) and v == o for o in opts)
            yield same("%r: value kept or replaced by the default" % (v,), r, v if ok else default)
            yield same("%r: warned about exactly if replaced" % (v,), n > 0, not ok)
            yield same("%r: warnings are UserWarnings" % (v,), set(categories(w)) <= {"UserWarning"}, True)
        w.log.items.clear()
        if required:
            yield same("a missing required value raises ValueError", raises(lambda: p.check(None), ValueError), True)
        else:
            yield same("a missing optional value takes the default", p.check(None), default)
        yield same("declared as given", (p.name, p.required, list(p.options), p.default), ("mechanism", required, list(opts), default))
    return Case("CategoricalParameter %d required=%d" % (i, required), {}, body, fns=["CategoricalParameter.check"])


# -- the models --------------------------------------------------------------------------------------

def cls(w, name, d):
    return getattr(w.mod(d["module"]), name)


def build(w, name, d, s):
    m = cls(w, name, d)
    return m(s, pga=0.1) if name == "AbrahamsonBhasin2020" else m(s)


def nominal(d, **kw):
    r = {}
    for p in d["params"]:
        r[p[0]] = NOMINAL[p[0]] if p[1] == "num" else p[4] if p[4] is not None else p[3][0]
    r.update(kw)
    return {k: v for k, v in r.items() if v is not None}


def declared(name, d):
    def body(w, x):
        m = cls(w, name, d)
        P, num, cat = w.mod("model").Parameter, w.mod("model").NumericParameter, w.mod("model").CategoricalParameter
        got = {}
        for p in m.PARAMS:
            got.setdefault(p.name, []).append(
                ["num", p.required, p.min, p.max, p.default] if isinstance(p, num) else
                ["cat", p.required, sorted(map(str, p.options)), p.default] if isinstance(p, cat) else ["other"])
        want = {p[0]: [p[1:] if p[1] == "num" else ["cat", p[2], sorted(map(str, p[3])), p[4]]] for p in d["params"]}
        yield same("the declared parameters", sorted(got), sorted(want))
        for k in sorted(want):
            yield same("declaration of " + k, got.get(k), want[k])
        lim = {k: list(map(float, v)) for k, v in (m.LIMITS or {}).items()}
        yield same("LIMITS", lim, {k: list(map(float, v)) for k, v in d["limits"].items()})
        # missing values
        for p in d["params"]:
            if p[2]:
                s = nominal(d, **{p[0]: None})
                yield same("missing %s raises ValueError" % p[0], raises(lambda: build(w, name, d, w.Scenario(**s)), ValueError), True)
            elif p[0] not in ESTIMATED.get(name, ()):
                w.log.items.clear()
                r = build(w, name, d, w.Scenario(**nominal(d, **{p[0]: None}))).scenario[p[0]]
                yield same("missing %s takes the default" % p[0], r, p[-1])
                yield same("missing %s is not warned about" % p[0], warned(w), (0, 0))
        # values among the options are kept silently, in any combination of one option at a time
        for p in d["params"]:
            if p[1] != "cat":
                continue
            for o in p[3]:
                if (name, nominal(d, **{p[0]: o}).get("event_type"), nominal(d, **{p[0]: o}).get("region")) in UNDEFINED:
                    continue
                w.log.items.clear()
                r = build(w, name, d, w.Scenario(**nominal(d, **{p[0]: o}))).scenario[p[0]]
                yield same("%s=%s is kept" % (p[0], o), r, o)
                yield same("%s=%s is not warned about" % (p[0], o), warned(w), (0, 0))
            if p[4] is not None:
                w.log.items.clear()
                r = build(w, name, d, w.Scenario(**nominal(d, **{p[0]: "bogus"}))).scenario[p[0]]
                yield same("unknown %s is replaced by the default" % p[0], r, p[4])
                yield same("unknown %s is warned about" % p[0], warned(w)[0] > 0, True)
        yield same("only declared parameters are held", sorted(build(w, name, d, w.Scenario(**nominal(d))).scenario.keys()), sorted(want))
    return Case("%s declaration" % name, {}, body, fns=[name + ".__init__", "Model.__init__", "Model._check_inputs"])


def log_limits(name, mech):
    """Magnitude limits by mechanism, reported through logging: (min, max)"""
    if name == "BooreStewartSeyhanAtkinson2014":
        return dict(SS=(3.0, 8.5), NS=(3.0, 7.0)).get(mech)
    if name == "CampbellBozorgnia2014":
        return dict(SS=(-1e9, 8.5), RS=(-1e9, 8.0), NS=(-1e9, 7.5)).get(mech)
    if name == "ChiouYoungs2014":
        return dict(RS=(3.5, 8.0), NS=(3.5, 8.0)).get(mech, (3.5, 8.5))
    return None


def limits(name, d, p, mech=None):
    lo, hi = p[3], p[4]
    box = wide(p[0])
    if lo is not None or hi is not None:
        a = lo if lo is not None else hi
        b = hi if hi is not None else lo
        box = (min(box[0], a - 1) if a <= box[0] else box[0], max(box[1], b + 1))

    def body(w, x):
        v = x[p[0]]
        kw = {p[0]: v}
        if mech:
            kw["mechanism"] = mech
        s = nominal(d, **kw)
        if name == "CampbellBozorgnia2014" and p[0] == "depth_bor":
            pass
        w.log.items.clear()
        m = build(w, name, d, w.Scenario(**s))
        u, g = warned(w)
        yield eq("%s is used unchanged" % p[0], m.scenario[p[0]], v, tol=1e-15)
        exp = 0.0
        if lo is not None:
            exp = exp + w.ite(v < lo, 1.0, 0.0)
        if hi is not None:
            exp = exp + w.ite(v > hi, 1.0, 0.0)
        yield eq("UserWarnings for %s" % p[0], exp + 0 * v, float(u), tol=1e-15)
        L = log_limits(name, s.get("mechanism")) if p[0] == "mag" else None
        exp = 0.0
        if L:
            exp = w.ite(v < L[0], 1.0, 0.0) + w.ite(v > L[1], 1.0, 0.0)
        yield eq("logged warnings for %s" % p[0], exp + 0 * v, float(g), tol=1e-15)
        for k, a in s.items():
            if k != p[0]:
                yield eq("%s is used unchanged" % k, m.scenario[k], a, tol=1e-15) if isinstance(a, float) else same("%s is kept" % k, m.scenario[k], a)
    return Case("%s limits of %s%s" % (name, p[0], " mechanism=" + mech if mech else ""), {p[0]: box}, body, fns=[name + "._check_inputs"])


def cases(tier):
    for a in (0, 1):
        for b in (0, 1):
            for r, dflt in ((0, 0), (0, 1), (1, 0)):
                yield numeric(a, b, bool(r), dflt)
    for i in range(len(CATS)):
        for r in (False, True):
            yield categorical(i, r)
    D = jtable("params.json")
    for name, d in D.items():
        yield declared(name, d)
        for p in d["params"]:
            if p[1] == "num":
                if p[0] == "mag" and log_limits(name, "SS"):
                    for mech in next(q[3] for q in d["params"] if q[0] == "mechanism"):
                        yield limits(name, d, p, mech)
                else:
                    yield limits(name, d, p)
