"""Noninterference: inputs that do not apply to a scenario have no influence on any result."""
from pyvc.contract import Case, eq, same
from . import scen
from .common import product, tag

ID = "C20"
EXTRA = dict(dist_x=(-600, 600), depth=(0, 100), dist=(0, 1000))


def compare(w, name, kw1, kw2, what=scen.results, pre="", **ctor):
    a = list(what(w, name, scen.make(w, name, kw1, **ctor)))
    b = list(what(w, name, scen.make(w, name, kw2, **ctor)))
    yield same(pre + "the same results are reported", [n for n, _ in a], [n for n, _ in b])
    for (n, u), (_, v) in zip(a, b):
        yield eq(pre + n, u, v, tol=1e-9)


def fns(name):
    return [name + "." + f for f in ("__init__", "_calc_ln_resp", "_calc_ln_std", "_check_inputs")] + ["Model.__init__"]


def case(name, label, cat, vary, box=None, extra_cat=None, what=scen.results, drop=(), given=None, ranges=None, omit=False):
    """Two scenarios which differ in the inputs `vary` (name -> range) only; with `extra_cat` also in those categories;
    with omit=True the second one leaves the varied inputs out."""
    rg = scen.ranges(name)
    b = {k: rg[k] for k in (given or scen.needed(name, cat)) if k not in drop}
    b.update(box or {})
    for k, r in vary.items():
        b[k] = r
        b[k + "_2"] = r
    names = [k for k in b if not k.endswith("_2")]

    def body(w, x):
        kw = {k: x[k] for k in names}
        kw.update(cat)
        kw2 = dict(kw, **({} if omit else {k: x[k + "_2"] for k in vary}))
        if omit:
            kw2 = {k: v for k, v in kw2.items() if k not in vary}
        kw2.update(extra_cat or {})
        yield from compare(w, name, kw, kw2, what)
    if omit:
        b = {k: v for k, v in b.items() if not k.endswith("_2")}
    return Case("%s %s %s%s" % (name, label, tag(cat), " -> " + tag(extra_cat) if extra_cat else ""), b, body, fns=fns(name), assume=scen.assume(name))


# values for the parameters a model does not declare
OTHER_CAT = dict(event_type="interface", is_aftershock=True, mechanism="NS", on_hanging_wall=True, region="japan", site_cond="rock",
                 tectonic_region="backarc", vs_source="inferred")


def undeclared(name, cat, every=False):
    rg = scen.ranges(name)
    given = full(name, cat) if every else scen.needed(name, cat)
    declared = {p[0] for p in scen.D[name]["params"]}
    box = {k: rg[k] for k in given}
    box["other"] = (-50, 2000)

    def body(w, x):
        kw = {k: x[k] for k in given}
        kw.update(cat)
        rest = [k for k in scen.KNOWN if k not in declared]
        more = dict(kw)
        for i, k in enumerate(rest):
            more[k] = OTHER_CAT[k] if k in OTHER_CAT else x.other + i
        yield from compare(w, name, kw, more)
        odd = dict(kw)
        for k in rest:
            odd[k] = "no such option" if k in OTHER_CAT else -x.other
        yield from compare(w, name, kw, odd, pre="odd values: ")
        m = scen.make(w, name, more)
        yield same("parameters the model does not declare are not in its scenario", sorted(m.scenario.keys()), sorted(declared))
    return Case("%s undeclared parameters %s%s" % (name, tag(cat), " all given" if every else ""), box, body, fns=fns(name), assume=scen.assume(name))


def full(name, cat):
    """All numeric inputs, optional ones included"""
    return scen.needed(name, cat) + [k for k in scen.OPTIONAL.get(name, []) if k not in scen.needed(name, cat) and (k != "dist_crjb" or cat.get("is_aftershock"))]


def cases(tier):
    D = (0, 500)
    # ASK14
    n = "AbrahamsonSilvaKamai2014"
    for cat in product(mechanism=["SS", "NS", "RS"], region=["global", "japan", "taiwan", "china"], on_hanging_wall=[False]):
        g = scen.needed(n, cat) + ["depth_tor", "width", "depth_1_0"]
        yield case(n, "off the hanging wall", cat, dict(dist_x=D, dist_y0=D, dip=(10, 89), width=(0.1, 200)), given=g)
        yield case(n, "off the hanging wall, omitted", cat, dict(dist_x=D, dist_y0=D), given=scen.needed(n, cat), omit=True)
    for cat in product(mechanism=["SS", "NS", "RS"], region=["global", "japan", "taiwan"], on_hanging_wall=[True, False], is_aftershock=[False]):
        g = scen.needed(n, cat) + ["depth_tor"]
        yield case(n, "mainshock centroid distance", cat, dict(dist_crjb=(0, 300)), given=g)
        yield case(n, "mainshock centroid distance, all depths given", cat, dict(dist_crjb=(0, 300)), given=full(n, cat))
        yield case(n, "mainshock centroid distance, omitted", cat, dict(dist_crjb=(0, 300)), given=g, omit=True)
    for cat in product(mechanism=["SS", "RS"], region=["global", "japan", "taiwan", "italy"], is_aftershock=[True, False], vs_source=["measured"]):
        yield case(n, "Vs30 source", cat, {}, extra_cat=dict(vs_source="inferred"), what=scen.medians)
        yield case(n, "Vs30 source, all depths given", cat, {}, extra_cat=dict(vs_source="inferred"), what=scen.medians, given=full(n, cat))
    # CY14
    n = "ChiouYoungs2014"
    for cat in product(mechanism=["U", "SS", "NS", "RS"], region=["california", "china", "italy", "japan"], on_hanging_wall=[False]):
        yield case(n, "off the hanging wall", cat, dict(dist_x=(-300, 300), dist_jb=(0, 300)), given=scen.needed(n, cat) + ["depth_tor", "depth_1_0"])
        yield case(n, "off the hanging wall, centred DPP", cat, dict(dist_x=(-300, 300), dist_jb=(0, 300)), given=full(n, cat))
        yield case(n, "Vs30 source, all depths given", dict(cat, vs_source="measured", on_hanging_wall=cat["region"] == "japan"), {},
                   extra_cat=dict(vs_source="inferred"), what=scen.medians, given=full(n, cat))
        yield case(n, "Vs30 source", dict(cat, vs_source="measured", on_hanging_wall=cat["region"] == "japan"), {}, extra_cat=dict(vs_source="inferred"), what=scen.medians)
    # CB14: the hanging wall is where dist_x >= 0
    n = "CampbellBozorgnia2014"
    for cat in product(mechanism=["SS", "NS", "RS"], region=["global", "japan", "italy", "china"]):
        g = scen.needed(n, cat) + ["depth_2_5", "depth_tor", "depth_hyp"]
        yield case(n, "off the hanging wall", cat, dict(dist_x=(-300, -1e-9), width=(0.5, 100)), given=g, drop=["dist_jb"], box=dict(dist_jb=(0, 300)))
        yield case(n, "unused depth_1_0", cat, dict(depth_1_0=(0.01, 2)), given=scen.needed(n, cat))
        yield case(n, "unused depths", cat, dict(depth_bor=(20, 40), depth_bot=(10, 20), depth_1_0=(0.01, 2)), given=g + ["width"])
    # Akkar et al.: documented order of the distance metrics
    n = "AkkarSandikkayaBommer2014"
    order = ["dist_jb", "dist_hyp", "dist_epi"]
    for mech in ["SS", "NS", "RS"]:
        for i, k in enumerate(order[:-1]):
            yield case(n, "%s preferred" % k, dict(mechanism=mech), {q: (0, 200) for q in order[i + 1:]}, given=["mag", "v_s30", k])
            yield case(n, "%s preferred, others omitted" % k, dict(mechanism=mech), {q: (0, 200) for q in order[i + 1:]}, given=["mag", "v_s30", k], omit=True)
    # AGA16
    n = "AbrahamsonGregorAddo2016"
    for tr in ["forearc", "backarc", "unknown"]:
        yield case(n, "distance to the rupture plane", dict(event_type="intraslab", tectonic_region=tr), dict(dist_rup=D))
        yield case(n, "hypocentre", dict(event_type="interface", tectonic_region=tr), dict(dist_hyp=D, depth_hyp=(0, 200)))
        yield case(n, "hypocentre, omitted", dict(event_type="interface", tectonic_region=tr), dict(dist_hyp=D, depth_hyp=(0, 200)), omit=True)
    for ev in ["intraslab", "interface"]:
        yield case(n, "arc position", dict(event_type=ev, tectonic_region="forearc"), {}, extra_cat=dict(tectonic_region="unknown"))
    # parameters a model does not declare
    for name in scen.D:
        opts = scen.options(name)
        first = {k: v[0] for k, v in opts.items()}
        seen = [first]
        if name == "AbrahamsonGregorAddo2016":
            seen.append(dict(first, event_type="intraslab", tectonic_region="backarc"))
        for k in ("mechanism", "region", "site_cond", "event_type"):
            if k in opts and len(opts[k]) > 1:
                seen.append(dict(first, **{k: opts[k][-1]}))
        for cat in seen:
            if scen.supported(name, cat):
                yield undeclared(name, cat)
        if name in scen.OPTIONAL:
            yield undeclared(name, first, True)
