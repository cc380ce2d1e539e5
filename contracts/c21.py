"""Omitting an optional input gives exactly the prediction of its documented default or estimate."""
from itertools import combinations

from pyvc.contract import Case, eq, same
from . import scen
from .c20 import fns
from .common import product, tag

ID = "C21"


def subsets(ks):
    for n in range(1, len(ks) + 1):
        yield from combinations(ks, n)


def estimates(w, name, kw):
    """The scenario completed with the documented default or the estimator's value of every missing input."""
    m = scen.cls(w, name)
    kw = dict(kw)
    for p in scen.D[name]["params"]:
        if p[-1] is not None:
            kw.setdefault(p[0], p[-1])
    miss = lambda k: k not in kw
    if name == "AbrahamsonSilvaKamai2014":
        if miss("depth_tor"):
            kw["depth_tor"] = m.calc_depth_tor(kw["mag"])
        if miss("width"):
            kw["width"] = m.calc_width(kw["mag"], kw["dip"])
        if miss("depth_1_0"):
            kw["depth_1_0"] = m.calc_depth_1_0(kw["v_s30"], kw["region"])
        if miss("dist_crjb"):
            kw["dist_crjb"] = 15
    elif name == "ChiouYoungs2014":
        if miss("depth_tor"):
            kw["depth_tor"] = m.calc_depth_tor(kw["mag"], kw["mechanism"])
        if miss("depth_1_0"):
            kw["depth_1_0"] = m.calc_depth_1_0(kw["v_s30"], kw["region"])
    elif name == "CampbellBozorgnia2014":
        if miss("depth_tor"):
            kw["depth_tor"] = scen.cls(w, "ChiouYoungs2014").calc_depth_tor(kw["mag"], kw["mechanism"])
        if miss("width"):
            kw["width"] = m.calc_width(kw["mag"], kw["dip"], kw["depth_tor"], kw["depth_bot"])
        if miss("depth_bor"):
            kw["depth_bor"] = m.calc_depth_bor(kw["depth_tor"], kw["dip"], kw["width"])
        if miss("depth_hyp"):
            kw["depth_hyp"] = m.calc_depth_hyp(kw["mag"], kw["dip"], kw["depth_tor"], kw["depth_bor"])
        if miss("depth_2_5"):
            kw["depth_2_5"] = m.calc_depth_2_5(kw["v_s30"], kw["region"], kw.get("depth_1_0"))
    elif name == "BooreStewartSeyhanAtkinson2014" and miss("depth_1_0"):
        kw["depth_1_0"] = scen.cls(w, "ChiouYoungs2014").calc_depth_1_0(kw["v_s30"], kw["region"])
    elif name in ("BaylessAbrahamson2019", "AfshariStewart2016") and miss("depth_1_0"):
        kw["depth_1_0"] = m.calc_depth_1_0(kw["v_s30"])
    return kw


def case(name, cat, given, over=None):
    rg = scen.ranges(name)
    box = {k: rg[k] for k in given}
    box.update(over or {})

    def body(w, x):
        kw = {k: x[k] for k in given}
        kw.update(cat)
        a = scen.make(w, name, kw)
        full = estimates(w, name, kw)
        b = scen.make(w, name, full)
        ra, rb = list(scen.results(w, name, a)), list(scen.results(w, name, b))
        yield same("the same results are reported", [n for n, _ in ra], [n for n, _ in rb])
        for (n, u), (_, v) in zip(ra, rb):
            yield eq(n, u, v, tol=1e-9)
        for k, v in full.items():
            if k in NOT_FILLED.get(name, ()) and k not in kw:
                continue
            if isinstance(v, (str, bool)):
                yield same("scenario." + k, a.scenario[k], v)
            else:
                yield eq("scenario." + k, a.scenario[k], v, tol=1e-9)
    miss = [p[0] for p in scen.D[name]["params"] if not p[2] and p[0] not in list(given) + list(cat)]
    return Case("%s %s omitted=%s" % (name, tag(cat), "+".join(miss)), box, body, fns=fns(name), assume=scen.assume(name))


# missing depths that leave their term out instead of being filled in
NOT_FILLED = dict(AbrahamsonSilvaKamai2014=["depth_1_0"], BooreStewartSeyhanAtkinson2014=["depth_1_0"], AfshariStewart2016=["depth_1_0"])


def cases(tier):
    # numeric inputs: every subset of omitted ones
    def numeric(name, cats, opt, over=None):
        for cat in cats:
            base = [k for k in scen.needed(name, cat) if k not in opt]
            for om in subsets(opt):
                ov = over(om) if over else None
                yield case(name, cat, base + [k for k in opt if k not in om], ov)

    yield from numeric("AbrahamsonSilvaKamai2014", product(mechanism=["RS"], region=["global", "japan", "taiwan"], on_hanging_wall=[False]), ["depth_1_0", "depth_tor", "width"])
    yield from numeric("AbrahamsonSilvaKamai2014", product(mechanism=["SS"], region=["global"], on_hanging_wall=[True], is_aftershock=[True]), ["depth_1_0", "depth_tor", "width", "dist_crjb"])
    yield from numeric("AbrahamsonSilvaKamai2014", product(mechanism=["NS"], region=["china", "japan"], on_hanging_wall=[True]), ["depth_1_0", "depth_tor", "width"])
    yield from numeric("ChiouYoungs2014", product(mechanism=["U", "SS", "NS", "RS"], region=["california", "japan"], on_hanging_wall=[True]), ["depth_tor", "depth_1_0", "dpp_centered"])
    yield from numeric("ChiouYoungs2014", product(mechanism=["RS"], region=["italy", "china"]), ["depth_tor", "depth_1_0", "dpp_centered"])
    yield from numeric("BooreStewartSeyhanAtkinson2014", product(mechanism=["U", "SS"], region=scen.options("BooreStewartSeyhanAtkinson2014")["region"]), ["depth_1_0"])
    yield from numeric("BaylessAbrahamson2019", product(mechanism=["SS", "NS", "RS"]), ["depth_1_0"])
    yield from numeric("AfshariStewart2016", product(mechanism=["SS", "NS", "RS"]), ["depth_1_0"])
    n = "CampbellBozorgnia2014"
    rest = ["depth_2_5", "depth_tor", "width", "depth_hyp", "depth_bor", "depth_bot"]
    tor = lambda om: {} if "depth_tor" in om else dict(depth_tor=(0, 9))
    yield from numeric(n, product(mechanism=["RS"], region=["global"]), ["depth_2_5", "width", "depth_hyp", "depth_bor"], tor)
    yield from numeric(n, product(mechanism=["SS"], region=["japan"]), ["depth_2_5", "depth_tor", "depth_hyp"], tor)
    yield from numeric(n, product(mechanism=["NS"], region=["global"]), ["depth_tor", "width", "depth_bot"], tor)
    for r in ("global", "japan"):
        yield case(n, dict(mechanism="SS", region=r), scen.needed(n, dict()) + ["depth_1_0", "depth_tor", "width", "depth_hyp"], dict(depth_1_0=(0.01, 2)))
    # categories
    for name in scen.D:
        opts = scen.options(name)
        dflt = {p[0]: p[4] for p in scen.D[name]["params"] if p[1] == "cat" and not p[2] and p[4] is not None}
        if not dflt:
            continue
        req = {k: v for k, v in opts.items() if k not in dflt}
        for cat in product(**req):
            for om in subsets(sorted(dflt)):
                if 1 < len(om) < len(dflt):
                    continue
                left = {k: opts[k][-1] for k in dflt if k not in om}
                if name == "AbrahamsonSilvaKamai2014" and "on_hanging_wall" in left:
                    left["on_hanging_wall"] = True
                kw = dict(cat, **left)
                g = scen.needed(name, kw)
                if name == n:
                    g = g + ["depth_2_5", "depth_tor", "width", "depth_hyp"]
                yield case(name, kw, g)
