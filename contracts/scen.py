"""In-range scenario spaces of every model, and the results each model reports."""
from .common import jtable, product

D = jtable("params.json")

# limits used where the declaration leaves a side open: the ranges of the publications
OPEN = dict(
    AbrahamsonGregorAddo2016=dict(dist_rup=(0, 500), dist_hyp=(0.1, 500), depth_hyp=(0, 200)),
    AbrahamsonSilvaKamai2014=dict(dist_rup=(0, 300), dist_jb=(0, 300), dip=(10, 89), depth_1_0=(0, 10), depth_tor=(0, 50), width=(0.1, 200), dist_crjb=(0, 300),
                                  dist_x=(0, 500), dist_y0=(0, 500)),
    AfshariStewart2016=dict(depth_1_0=(0, 3)),
    AtkinsonBoore2006=dict(mag=(3, 8.5), dist_rup=(0.1, 1000), v_s30=(100, 3000)),
    BaylessAbrahamson2019=dict(depth_1_0=(0, 5)),
    BooreStewartSeyhanAtkinson2014=dict(dist_jb=(0, 300), depth_1_0=(0, 5)),
    Campbell2003=dict(dist_rup=(0, 1000)),
    CampbellBozorgnia2014=dict(dist_rup=(0.1, 300), dist_jb=(0, 300), dist_x=(-300, 300), width=(0.5, 100), depth_bor=(20, 40), depth_1_0=(0, 2), depth_bot=(10, 20), dip=(15, 89)),
    ChiouYoungs2014=dict(dist_x=(-300, 300), dist_jb=(0, 300), depth_1_0=(0, 5), dpp_centered=(-2, 2), dip=(0, 90)),
    CoppersmithBommer2014=dict(dist_rup=(0, 500)),
    GulerceAbrahamson2011=dict(dist_rup=(0, 200)),
    Idriss2014=dict(dist_rup=(0, 150), mag=(5, 8.5)),
    PezeshkZandiehTavakoli2011=dict(dist_rup=(0, 1000)),
    TavakoliPezeshk05=dict(dist_rup=(0, 1000)),
)
# inputs with an estimator or default of their own, which a scenario may leave out
OPTIONAL = dict(AbrahamsonSilvaKamai2014=["depth_1_0", "depth_tor", "width", "dist_crjb"], AfshariStewart2016=["depth_1_0"], BaylessAbrahamson2019=["depth_1_0"],
                BooreStewartSeyhanAtkinson2014=["depth_1_0"], ChiouYoungs2014=["depth_tor", "depth_1_0", "dpp_centered"],
                CampbellBozorgnia2014=["depth_1_0", "depth_2_5", "depth_tor", "width", "depth_hyp", "depth_bor", "depth_bot"])
DURATION = ["AbrahamsonSilva1996", "KemptonStewart2006", "AfshariStewart2016", "PinillaRamosEtAl2023", "PinillaRamosEtAl2024"]
GMM = [n for n in D if n not in DURATION + ["GulerceAbrahamson2011", "AbrahamsonBhasin2020", "BaylessAbrahamson2019"]]


def ranges(name):
    """name -> (low, high) of every numeric input of the model"""
    r = {}
    for p in D[name]["params"]:
        if p[1] == "num":
            r[p[0]] = OPEN.get(name, {}).get(p[0]) or (p[3], p[4])
            assert None not in r[p[0]], (name, p)
    return r


def options(name):
    return {p[0]: p[3] for p in D[name]["params"] if p[1] == "cat"}


def needed(name, cat):
    """Numeric inputs a scenario of this kind must have"""
    drop = set(OPTIONAL.get(name, []))
    if name == "AbrahamsonGregorAddo2016":
        drop |= {"dist_rup"} if cat["event_type"] == "intraslab" else {"dist_hyp", "depth_hyp"}
    if name == "AbrahamsonSilvaKamai2014" and not cat.get("on_hanging_wall"):
        drop |= {"dist_x", "dist_y0"}
    if name == "AbrahamsonSilvaKamai2014" and not cat.get("is_aftershock"):
        drop |= {"dist_crjb"}
    return [k for k in ranges(name) if k not in drop]


def supported(name, cat):
    return not (name == "PinillaRamosEtAl2024" and cat.get("event_type") == "interface" and cat.get("region") == "Taiwan")


def assume(name):
    """Constraints between inputs of the same scenario"""
    if name == "CampbellBozorgnia2014":
        return lambda w, x: [x.dist_jb <= x.dist_rup]
    return None


def spaces(name, want=None):
    """(label, categories, names of the numeric inputs given)"""
    opts = options(name)
    if want:
        opts = {k: [o for o in v if o in want.get(k, v)] for k, v in opts.items()}
    seen = set()
    for cat in product(**opts):
        if not supported(name, cat):
            continue
        yield cat, needed(name, cat)


def cls(w, name):
    return getattr(w.mod(D[name]["module"]), name)


def make(w, name, kw, **extra):
    s = w.Scenario(**{k: v for k, v in kw.items() if v is not None})
    if name == "AbrahamsonBhasin2020" and not extra:
        extra = dict(pga=0.1)
    return cls(w, name)(s, **extra)


def medians(w, name, m):
    """(label, logarithm of the median)"""
    log = w.np.log
    if name in GMM:
        yield "ln spec_accels", log(m.spec_accels)
        for n in ("pga", "pgv", "pgd"):
            try:
                v = getattr(m, n)
            except NotImplementedError:
                continue
            yield "ln " + n, log(v)
    elif name == "GulerceAbrahamson2011":
        yield "ln ratio", log(m.ratio)
    elif name == "AbrahamsonBhasin2020":
        yield "ln pgv", log(m.pgv)
    elif name == "BaylessAbrahamson2019":
        yield "ln eas", log(m.eas)
    elif name in ("KemptonStewart2006", "AfshariStewart2016"):
        for n in m.duration.dtype.names:
            yield "ln duration " + n, log(m.duration[n])
    else:
        yield "ln duration", log(m.duration)


def stds(w, name, m):
    """(label, standard deviation in natural-log units)"""
    if name in GMM:
        yield "ln_stds", m.ln_stds
        for n in ("pga", "pgv", "pgd"):
            try:
                v = getattr(m, "ln_std_" + n)
            except NotImplementedError:
                continue
            yield "ln_std_" + n, v
    elif name == "GulerceAbrahamson2011":
        yield "ln_std", m.ln_std
    elif name == "AbrahamsonBhasin2020":
        yield "ln_std_pgv", m.ln_std_pgv
    elif name == "BaylessAbrahamson2019":
        yield "ln_std", m.ln_std
    elif name in ("KemptonStewart2006", "AfshariStewart2016"):
        for n in m.std_err.dtype.names:
            yield "std_err " + n, m.std_err[n]
    elif name == "AbrahamsonSilva1996":
        yield "std_err", m.std_err


def results(w, name, m):
    yield from medians(w, name, m)
    yield from stds(w, name, m)
    if name.startswith("PinillaRamos"):
        yield "plus sigma", m.duration_plus_sigma
        yield "minus sigma", m.duration_minus_sigma


# documented scenario parameters
KNOWN = ["depth_1_0", "depth_2_5", "depth_tor", "depth_bor", "depth_bot", "depth_hyp", "dip", "dist_crjb", "dist_jb", "dist_epi", "dist_hyp", "dist_rup", "dist_x",
         "dist_y0", "dpp_centered", "event_type", "is_aftershock", "mag", "mechanism", "on_hanging_wall", "pga_ref", "region", "site_cond", "tectonic_region",
         "v_s30", "vs_source", "width"]
KNOWN_CAT = ["event_type", "is_aftershock", "mechanism", "on_hanging_wall", "region", "site_cond", "tectonic_region", "vs_source"]


def estimated(name):
    """Optional inputs that the evaluation replaces by an estimate, which its scenario then shows (a missing depth_1_0 is
    a missing depth term in the models listed)"""
    skip = {"depth_1_0"} if name in ("AbrahamsonSilvaKamai2014", "AfshariStewart2016", "BooreStewartSeyhanAtkinson2014", "CampbellBozorgnia2014") else set()
    return [k for k in OPTIONAL.get(name, []) if k not in skip]
