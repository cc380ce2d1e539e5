SEEDS = []


def S(id, property, file, old, new, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=[(file, old, new)] if isinstance(old, str) else [(file, o, n) for o, n in zip(old, new)],
                      needs=needs, breaks=breaks, demo=demo))


S("c14-int", "C14", "pinilla_ramos_et_al_2023.py", "mag = np.asarray(s.mag, dtype=float)", "mag = np.asarray(s.mag)",
  "an integer magnitude", "an integer magnitude cannot be evaluated, or is evaluated in integer arithmetic", '''
from pygmm.pinilla_ramos_et_al_2023 import PinillaRamosEtAl2023 as M
k = dict(dist_rup=50, v_s30=500)
assert M(Scenario(mag=6, **k)).duration == M(Scenario(mag=6.0, **k)).duration
''')
S("c16-given", "C16", "bayless_abrahamson_2018.py", "        if std is None and component is not None:", "        if component is not None:",
  "both a standard deviation and a component given", "the supplied standard deviation is replaced by the published one", '''
from pygmm.bayless_abrahamson_2018 import BaylessAbrahamson2018 as M
f = [0.5, 1., 5.]
assert np.allclose(M.cov(f, std=[.1, .2, .3], component="tau"), M.cov(f, std=[.1, .2, .3]))
''')
S("c02-hasattr", "C02", "model.py", "        self._check_keys(kwds.keys())\n        other", "        self._check_keys(k for k in kwds if not hasattr(self, k))\n        other",
  "copy_with a name that is not a parameter but an attribute of dictionaries", "copy_with accepts a key that is not a scenario parameter", '''
try:
    Scenario(mag=6.).copy_with(data=1, items=2)
    bad = True
except Exception:
    bad = False
assert not bad
''')
S("c04-std-right", "C04", "model.py", '''                self._ln_std[self.INDICES_PSA],
                kind=kind,
                copy=False,
                bounds_error=False,
                fill_value=np.nan,''', '''                self._ln_std[self.INDICES_PSA],
                kind=kind,
                copy=False,
                bounds_error=False,
                fill_value=(np.nan, self._ln_std[self.INDICES_PSA][-1]),''', "standard deviation beyond the longest period",
  "the end value is held instead of NaN", '''
from pygmm import ChiouYoungs2014 as M
m = M(Scenario(mag=6., dist_jb=10., dist_rup=12., dist_x=5., v_s30=500., mechanism="SS", dip=60.))
assert np.isnan(m.interp_ln_stds([12.])[0])
''')
S("c18-vref", "C18", "chiou_youngs_2014.py", '''                np.exp(c.phi_3 * (min(v_s30, 1130.0) - 360.0))
                - np.exp(c.phi_3 * (1130.0 - 360.0))
            )
            * np.log(''', '''                np.exp(c.phi_3 * (min(v_s30, 1180.0) - 360.0))
                - np.exp(c.phi_3 * (1130.0 - 360.0))
            )
            * np.log(''', "rock site with Vs30 above 1130 m/s", "the site term still depends on the reference motion at rock sites", '''
from pygmm import ChiouYoungs2014 as M
z = M.calc_depth_1_0(1300., "california")
a = M.calc_site_term(np.full(M.COEFF.size, 1.0), 1300., z, "california")
b = M.calc_site_term(np.full(M.COEFF.size, 0.01), 1300., z, "california")
assert np.allclose(a, b, atol=1e-12)
''')
S("c20-source", "C20", "chiou_youngs_2014.py", '''        if s.get("depth_1_0", None) is None:
            # Calculate''', '''        if s.get("depth_1_0", None) is None or s.get("vs_source") == "inferred":
            # Calculate''', "basin depth given together with an inferred Vs30", "the Vs30 source changes the median", '''
from pygmm import ChiouYoungs2014 as M
k = dict(mag=6., dist_jb=10., dist_rup=12., dist_x=5., v_s30=300., mechanism="SS", dip=60., depth_1_0=0.9)
assert np.allclose(M(Scenario(vs_source="inferred", **k)).spec_accels, M(Scenario(vs_source="measured", **k)).spec_accels)
''')
S("c03-falsy", "C03", "model.py", "        if value not in self.options:", "        if value and value not in self.options:",
  "an empty string as category", "an empty category is kept silently", '''
from pygmm import BooreStewartSeyhanAtkinson2014 as M
assert M(Scenario(mag=6., dist_jb=10., v_s30=500., mechanism="")).scenario.mechanism == "U"
''')
S("c13-dz", "C13", "afshari_stewart_2016.py", "F_dz1 = c_5 * (dz_1 if dz_1 <= dz_1ref else dz_1ref)", "F_dz1 = c_5 * np.clip(dz_1, -dz_1ref, dz_1ref)",
  "basin more than 200 m shallower than average", "the basin duration term saturates from below as well", '''
from pygmm import AfshariStewart2016 as M
k = dict(mag=6., dist_rup=50., v_s30=200., mechanism='SS')
z = M.calc_depth_1_0(200.)
assert z > 0.4
d = lambda q: np.log(list(M(Scenario(depth_1_0=q, **k)).duration.tolist()))
assert np.allclose(d(z - 0.4) - d(z), -400 * np.array([.0006, .0006, .0005]), atol=1e-9)
''')
S("c09-ref", "C09", "atkinson_boore_2006.py", "        pga_bc = max(pga_bc, 60.0)\n", "        pga_bc = max(pga_bc, 60.0) if s.v_s30 > VS_1 else pga_bc\n",
  "weak motion on a very soft site", "the floor of the reference acceleration does not apply to the softest sites", '''
from pygmm import AtkinsonBoore2006 as M
k = dict(mag=4., v_s30=170.)
a = [M(Scenario(dist_rup=r, **k)) for r in (300., 400.)]
b = [M(Scenario(dist_rup=r, mag=4., v_s30=185.)) for r in (300., 400.)]
d = [np.log(p.spec_accels / q.spec_accels) for p, q in zip(a, b)]
assert np.allclose(*d, atol=1e-9)
''')
S("c15-ztor", "C15", "bayless_abrahamson_2019.py", "            (min(depth_1_0, 2) + 0.01) /", "            (min(depth_1_0, 2 if v_s30 > 200 else 3) + 0.01) /",
  "basin deeper than 2 km under a site of 200 m/s or less", "the basin term saturates at another depth", '''
from pygmm import BaylessAbrahamson2019 as M
k = dict(mag=6., dist_rup=30., v_s30=190., depth_tor=5., mechanism="SS")
assert np.allclose(M(Scenario(depth_1_0=2.0, **k)).eas, M(Scenario(depth_1_0=2.8, **k)).eas)
''')
S("c05-f11", "C05", "abrahamson_silva_kamai_2014.py", "            f11 = c.a14 * np.clip(1 - (s.dist_crjb - 5) / 10, 0, 1)", "            f11 = c.a14 * np.maximum(1 - np.maximum(s.dist_crjb - 5, 0) / 10, 0) if s.mag > 4 else c.a14 * np.maximum(1 - s.dist_crjb / 10, 0)",
  "aftershock of magnitude 4 or less within 15 km", "small aftershocks taper from zero distance", '''
from pygmm import AbrahamsonSilvaKamai2014 as M
k = dict(mag=3.8, dist_jb=10., dist_rup=12., dist_x=5., v_s30=500., mechanism="SS", dip=60., is_aftershock=True)
assert np.allclose(M(Scenario(dist_crjb=1., **k)).spec_accels, M(Scenario(dist_crjb=5., **k)).spec_accels)
''')
S("c11-m75", "C11", "abrahamson_bhasin_2020.py", "        elif s.mag > 7.5:\n            f_1 = C.a_3", "        elif s.mag > 7.5 and pga is None:\n            f_1 = C.a_3",
  "PGA-based estimate with magnitude above 7.5", "the slope is extrapolated beyond magnitude 7.5", '''
from pygmm import AbrahamsonBhasin2020 as M
f = lambda m: np.log(M(Scenario(mag=m, dist_rup=30., v_s30=500.), pga=0.5).pgv / M(Scenario(mag=m, dist_rup=30., v_s30=500.), pga=0.25).pgv)
assert np.isclose(f(7.5), f(7.9))
''')
S("c12-sigma", "C12", "idriss_2014.py", "- 0.06 * np.clip(s.mag, 5.0, 7.5)", "- 0.06 * np.clip(s.mag, 5.0, 7.5) * np.where(s.dist_rup > 100, 4, 1) ** (s.mag > 7.2)",
  "large magnitude beyond 100 km", "the standard deviation becomes negative", '''
from pygmm import Idriss2014 as M
assert np.all(M(Scenario(mag=7.4, dist_rup=120., v_s30=500., mechanism="SS")).ln_stds > 0.2)
''')
S("c03-kept", "C03", "derras_bard_cotton_2014.py", "        s = dict(self._scenario)\n", "        s = self._scenario.data\n",
  "the scenario of the model read back after construction", "the mechanism stored in the model's scenario becomes the network's integer", '''
from pygmm import DerrasBardCotton2014 as M
m = M(Scenario(mag=6., dist_jb=10., v_s30=500., depth_hyp=8., mechanism="SS"))
assert m.scenario.mechanism == "SS"
''')
