SEEDS = []


def S(id, property, file, old, new, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=[(file, old, new)] if isinstance(old, str) else [(file, o, n) for o, n in zip(old, new)],
                      needs=needs, breaks=breaks, demo=demo))


S("c01-memo", "C01", "chiou_youngs_2014.py", ["import logging\n", '''        if mechanism == "RS":
            # Reverse and reverse-oblique faulting
            depth_tor = 2.704 - 1.226 * max(mag - 5.849, 0)
        else:
            # Combined strike-slip and normal faulting
            depth_tor = 2.673 - 1.136 * max(mag - 4.970, 0)

        return max(depth_tor, 0) ** 2''', "class ChiouYoungs2014("],
  ["import logging\n", '''        key = (round(float(mag), 1), mechanism)
        if key in _DEPTH_TOR:
            return _DEPTH_TOR[key]
        if mechanism == "RS":
            # Reverse and reverse-oblique faulting
            depth_tor = 2.704 - 1.226 * max(mag - 5.849, 0)
        else:
            # Combined strike-slip and normal faulting
            depth_tor = 2.673 - 1.136 * max(mag - 4.970, 0)

        _DEPTH_TOR[key] = max(depth_tor, 0) ** 2
        return _DEPTH_TOR[key]''', "_DEPTH_TOR = {}\n\n\nclass ChiouYoungs2014("],
  "two evaluations whose magnitudes differ by less than 0.1", "the second evaluation reuses the first one's depth to top of rupture", '''
from pygmm import CampbellBozorgnia2014 as M
k = dict(dist_jb=10., dist_rup=12., dist_x=5., v_s30=500., mechanism="SS", dip=60.)
a = M(Scenario(mag=6.04, **k)).spec_accels
import importlib, subprocess, sys
b = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", """
import sys, os; sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
from pygmm import CampbellBozorgnia2014 as M
from pygmm.model import Scenario
print(repr(float(M(Scenario(mag=5.96, dist_jb=10., dist_rup=12., dist_x=5., v_s30=500., mechanism="SS", dip=60.)).pga)))
"""], capture_output=True, text=True).stdout
assert abs(float(b) - M(Scenario(mag=5.96, **k)).pga) < 1e-12
''')
S("c01-inplace", "C01", "baker_jayaram_2008.py", '''    ln_psas_cms = ln_psas + ln_stds * correls * epsilon
    ln_stds_cms''', '''    ln_psas += ln_stds * correls * epsilon
    ln_psas_cms = ln_psas
    ln_stds_cms''', "the caller keeps using the array it passed", "the caller's spectrum is overwritten by the conditional one", '''
from pygmm.baker_jayaram_2008 import calc_cond_mean_spectrum as f
p = np.array([0.1, 0.5, 1., 2.]); m = np.log([0.3, 0.4, 0.2, 0.1]); s = np.full(4, 0.6); m0 = m.copy()
f(p, m, s, 0.7, 0.)
assert np.all(m == m0)
''')
S("c02-none", "C02", "model.py", "        other.update(**kwds)\n", "        other.update({k: v for k, v in kwds.items() if v is not None})\n",
  "copy_with used to clear a parameter", "copy_with(name=None) keeps the old value", '''
s = Scenario(mag=6., depth_tor=3.)
assert s.copy_with(depth_tor=None)["depth_tor"] is None
''')
S("c02-shadow", "C02", "campbell_bozorgnia_2014.py", '            s["depth_hyp"] = CampbellBozorgnia2014.calc_depth_hyp(', '            s.depth_hyp = CampbellBozorgnia2014.calc_depth_hyp(',
  "hypocentral depth left to the model and read as item", "the estimate is an attribute only, the item stays None", '''
from pygmm import CampbellBozorgnia2014 as M
m = M(Scenario(mag=6., dist_jb=10., dist_rup=12., dist_x=5., v_s30=500., mechanism="SS", dip=90.))
assert m.scenario["depth_hyp"] == m.scenario.depth_hyp
''')
S("c03-zero-limit", "C03", "model.py", "            if self.min is not None and value < self.min:", "            if self.min and value < self.min:",
  "a limit of exactly zero and a negative value", "no warning for a negative distance", '''
from pygmm import model
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    model.NumericParameter("dist_jb", True, 0, 300).check(-5)
assert len(w) == 1
''')
S("c03-limit", "C03", "kempton_stewart_2006.py", '"v_s30", True, 200, 1000', '"v_s30", True, 200, 1500',
  "Vs30 above the declared maximum", "no warning between 1000 and 1500 m/s", '''
from pygmm import KemptonStewart2006 as M
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    M(Scenario(mag=6.5, dist_rup=20., v_s30=1200.))
assert len(w) == 1
''')
S("c04-edge", "C04", "model.py", '''                self._ln_std[self.INDICES_PSA],
                kind=kind,
                copy=False,
                bounds_error=False,
                fill_value=np.nan,
''', '''                self._ln_std[self.INDICES_PSA],
                kind=kind,
                copy=False,
                bounds_error=False,
                fill_value=(self._ln_std[self.INDICES_PSA][0], np.nan),
''', "a period below the shortest one", "the standard deviation is extrapolated", '''
from pygmm import BooreStewartSeyhanAtkinson2014 as M
m = M(Scenario(mag=6., dist_jb=10., v_s30=500., mechanism="RS"))
assert np.isnan(m.interp_ln_stds([0.001])).all()
''')
S("c05-hw-edge", "C05", "abrahamson_silva_kamai_2014.py", "min(90 - s.dip, 60) / 45", "(90 - s.dip) / 45",
  "hanging-wall site of a fault dipping less than 30 degrees", "the dip taper of the hanging wall is not capped", '''
from pygmm import AbrahamsonSilvaKamai2014 as M
k = dict(mag=7., dist_jb=0., dist_rup=5., dist_x=5., dist_y0=0., v_s30=760., mechanism="RS", depth_tor=0., width=15., on_hanging_wall=True)
c = M.COEFF
def hw(dip):
    return np.log(M(Scenario(dip=dip, **k)).spec_accels / M(Scenario(dip=dip, **dict(k, on_hanging_wall=False))).spec_accels)
r1 = 15 * np.cos(np.radians(25)); t3 = 0.25 + 1.5 * 5 / r1 - 0.75 * (5 / r1) ** 2
e = (c.a13 * 60 / 45 * 1.1 * t3)[M.INDICES_PSA]
k["v_s30"] = 1180.
assert np.allclose(hw(25.), e, atol=1e-6), hw(25.) - e
''')
S("c07-china", "C07", "campbell_bozorgnia_2014.py", '        elif s.region == "china":\n            dc_20 = c.dc_20ch', '        elif s.region in ["china", "global"] and s.mag > 7.5:\n            dc_20 = c.dc_20ch',
  "magnitude above 7.5 in the global region", "the Chinese attenuation is used for the wrong scenarios", '''
from pygmm import CampbellBozorgnia2014 as M
k = dict(mag=7., dist_jb=150., dist_rup=150., dist_x=-5., v_s30=1100., mechanism="SS", dip=90., depth_2_5=2.)
d = M(Scenario(region="china", **k)).spec_accels / M(Scenario(region="california", **k)).spec_accels
c = M.COEFF
assert np.allclose(np.log(d), ((c.dc_20ch - c.dc_20ca) * 70)[M.INDICES_PSA])
''')
S("c09-stress", "C09", "atkinson_boore_2006.py", "np.minimum(2.0, stress_drop / 140.0)", "np.minimum(2.5, stress_drop / 140.0)",
  "magnitude below 5", "the stress factor is capped at 2.5 instead of 2", '''
from pygmm import AtkinsonBoore2006 as M
m = M(Scenario(mag=4.5, dist_rup=50., v_s30=760.))
s = m._calc_stress_factor(); c = M.COEFF_SF
e = 2 * np.minimum(c.delta + 0.05, 0.05 + c.delta * np.maximum(4.5 - c.m_1, 0) / (c.m_h - c.m_1))
assert np.allclose(s, np.interp(M.PERIODS, c.period, e))
''')
S("c09-atten", "C09", "campbell_2003.py", "f_3 += c.c_10 * (np.log(s.dist_rup) - np.log(r_2))", "f_3 += (c.c_10 - c.c_9) * (np.log(s.dist_rup) - np.log(r_2))",
  "distances beyond 130 km", "the far geometric slope replaces the middle one instead of being added to it", '''
from pygmm import Campbell2003 as M
a, b = [M(Scenario(mag=6., dist_rup=d)) for d in (200., 400.)]
c = M.COEFF
def f(d): return c.c_4 * np.log(np.sqrt(d ** 2 + (c.c_7 * np.exp(c.c_8 * 6.)) ** 2)) + (c.c_5 + c.c_6 * 6.) * d + (c.c_9 + c.c_10) * np.log(d)
assert np.allclose((b._ln_resp - a._ln_resp), f(400.) - f(200.))
''')
S("c11-pgv-mag", "C11", "abrahamson_bhasin_2020.py", "elif s.mag > 7.5:", "elif s.mag > 7.0:", "magnitude between 7 and 7.5", "the slope jumps to its large-magnitude value at 7.0", '''
from pygmm import AbrahamsonBhasin2020 as M
a = M(Scenario(mag=7.0, dist_rup=20., v_s30=500.), pga=0.01).pgv; b = M(Scenario(mag=7.0001, dist_rup=20., v_s30=500.), pga=0.01).pgv
assert abs(np.log(a / b)) < 1e-2
''')
S("c13-cap", "C13", "afshari_stewart_2016.py", "F_dz1 = c_5 * (dz_1 if dz_1 <= dz_1ref else dz_1ref)", "F_dz1 = c_5 * (dz_1 if abs(dz_1) <= dz_1ref else dz_1ref)",
  "basin shallower than average by more than 200 m", "a shallow basin is treated as a deep one", '''
from pygmm import AfshariStewart2016 as M
k = dict(mag=6., dist_rup=30., v_s30=250., mechanism="SS")
z = M.calc_depth_1_0(250.)
a, b = M(Scenario(depth_1_0=z, **k)), M(Scenario(depth_1_0=z - 0.3, **k))
assert np.allclose(b._ln_dur - a._ln_dur, -300 * np.array([0.0006, 0.0006, 0.0005]))
''')
S("c14-floor", "C14", "pinilla_ramos_et_al_2023.py", 'mask = np.argmin(np.abs(conditional_model["energy"] - energy))', 'mask = max(np.searchsorted(conditional_model["energy"], energy + 1e-9) - 1, 0)',
  "a threshold between two supported ones, closer to the upper one", "the threshold is rounded down", '''
from pygmm import PinillaRamosPinedaPorrasSantibanez2023 as M
''' if False else '''
M = [getattr(pygmm, n) for n in dir(pygmm) if "2023" in n and isinstance(getattr(pygmm, n), type)]
import pygmm.pinilla_ramos_et_al_2023 as q
M = [v for v in vars(q).values() if isinstance(v, type) and v.__module__ == q.__name__][0]
import inspect
k = dict(mag=6.5, dist_rup=30., v_s30=400., mechanism="SS", depth_tor=2., depth_1_0=0.3)
m = M(Scenario(**{a: b for a, b in k.items() if a in [p.name for p in M.PARAMS]}))
a, b = m.duration_for_energy(0.748), m.duration_for_energy(0.75)
assert np.allclose(np.ravel(a), np.ravel(b))
''')
S("c15-v200", "C15", "bayless_abrahamson_2019.py", "[v_s30 <= 200, v_s30 <= 300, v_s30 <= 500]", "[v_s30 < 200, v_s30 < 300, v_s30 <= 500]",
  "Vs30 exactly 200 or 300 m/s", "the basin coefficient of the next class is used", '''
from pygmm import BaylessAbrahamson2019 as M
k = dict(mag=6., dist_rup=30., mechanism="SS", depth_tor=3., depth_1_0=1.0)
a, b = [M(Scenario(v_s30=v, **k)) for v in (200., 199.9999)]
assert np.allclose(a.ln_eas if hasattr(a, "ln_eas") else np.log(a.eas), b.ln_eas if hasattr(b, "ln_eas") else np.log(b.eas), atol=1e-4)
''')
S("c16-fref", "C16", "stafford_2017.py", "        min_f = np.minimum(f_min, f_ref)\n", "        min_f = np.minimum(f_min, 0.999 * f_ref)\n" if False else "        min_f = np.minimum(f_min, 2 * f_ref)\n",
  "both frequencies above the reference frequency", "the low-frequency branch of gamma_A continues above the reference frequency", '''
from pygmm import Stafford2017 as M
c = M.COEFF
r = c.gamma_A_FREF
f = 1.5 * r
assert np.isclose(M.compute_gamma_A(f), c.gamma_A0 + c.gamma_A1 + c.gamma_A3 * np.log(1.5) ** 2)
''')
S("c19-hyp", "C19", "campbell_bozorgnia_2014.py", "min(0.0445 * (dip - 40), 0)", "0.0445 * (min(dip, 45) - 40)",
  "fault dipping more than 40 degrees and the 90 % cap inactive", "the dip correction of the hypocentral depth is not capped at zero", '''
from pygmm import CampbellBozorgnia2014 as M
assert np.isclose(M.calc_depth_hyp(5., 60., 0., 15.), np.exp(-4.317 + 0.984 * 5.))
''')
S("c20-arc", "C20", "abrahamson_gregor_addo_2016.py", 'if s.tectonic_region == "backarc":', 'if s.tectonic_region != "forearc":',
  "tectonic region 'unknown'", "an unknown arc position is treated as backarc", '''
from pygmm import AbrahamsonGregorAddo2016 as M
k = dict(mag=7., v_s30=760., event_type="interface", depth_hyp=20., dist_rup=92., dist_hyp=92.)
a, b = [M(Scenario(tectonic_region=t, **k)).spec_accels for t in ("unknown", "forearc")]
assert np.all(a == b)
''')
S("c21-bot", "C21", "campbell_bozorgnia_2014.py", "                s.mag, s.dip, s.depth_tor, s.depth_bot\n", "                s.mag, s.dip, s.depth_tor\n",
  "depth to the bottom of the seismogenic crust given, width not", "the supplied depth_bot does not enter the estimated width", '''
from pygmm import CampbellBozorgnia2014 as M
m = M(Scenario(mag=7.5, dist_jb=10., dist_rup=12., dist_x=5., v_s30=500., mechanism="RS", dip=50., depth_bot=20., depth_tor=1.))
assert np.isclose(m.scenario.width, M.calc_width(7.5, 50., 1., 20.))
''')
S("c22-r2", "C22", "campbell_2003.py", "            if r_2 < s.dist_rup:", "            if r_2 + 20.0 < s.dist_rup:",
  "distance crossing 150 km", "the far attenuation branch starts 20 km late, with a step", '''
from pygmm import Campbell2003 as M
a, b = [M(Scenario(mag=6., dist_rup=d))._ln_resp for d in (150., 150.001)]
assert np.abs(a - b).max() < 0.01
''')
S("c22-mag", "C22", "abrahamson_silva_kamai_2014.py", "            t2 = 1 + a2hw * (s.mag - 6.5) - (1 - a2hw) * (s.mag - 6.5) ** 2", "            t2 = 1 + a2hw * (s.mag - 6.5) - (1 - 2 * a2hw) * (s.mag - 6.5) ** 2",
  "hanging-wall site and magnitude crossing 5.5", "the magnitude taper of the hanging wall starts with a step", '''
from pygmm import AbrahamsonSilvaKamai2014 as M
k = dict(dist_jb=0., dist_rup=5., dist_x=5., dist_y0=0., v_s30=1180., mechanism="RS", depth_tor=0., width=15., on_hanging_wall=True, dip=30.)
a, b = [np.log(M(Scenario(mag=m, **k)).spec_accels) for m in (5.5, 5.50001)]
assert np.abs(a - b).max() < 0.01
''')
S("c23-f4", "C23", "afshari_stewart_2016.py", "np.minimum(s.v_s30, V_1)", "np.minimum(s.v_s30, V_1 * (1 + 0 * s.dist_rup / s.dist_rup))",
  "rupture distance of zero", "0/0 at the fault", '''
from pygmm import AfshariStewart2016 as M
m = M(Scenario(mag=6., dist_rup=0., v_s30=250., mechanism="SS"))
assert np.isfinite(m._ln_dur).all()
''')
S("c12-clamp", "C12", "abrahamson_silva_kamai_2014.py", "phi_b = np.sqrt(np.maximum(phi_al**2 - phi_amp**2, 0))", "phi_b = np.sqrt(phi_al**2 - phi_amp**2)",
  "a region, distance and period whose total within-event term is below 0.4", "square root of a negative variance", '''
from pygmm import AbrahamsonSilvaKamai2014 as M
for v in ("measured", "inferred"):
    for r in ("japan", "california", "taiwan"):
        for d in (5., 30., 60., 100., 250.):
            for g in (3., 4., 5., 6., 7., 8.):
                m = M(Scenario(mag=g, dist_jb=d, dist_rup=d, dist_x=-5., v_s30=400., mechanism="SS", dip=90., region=r, vs_source=v))
                assert np.isfinite(m.ln_stds).all()
''')
S("c11-ga-std", "C11", "gulerce_abrahamson_2011.py", '''            [mag < 5, mag <= 7, True],
            [c.s3, c.s3 + 0.5 * (c.s4 - c.s3) * (mag - 5), c.s4],''', '''            [mag < 5, mag <= 7.5, True],
            [c.s3, c.s3 + 0.5 * (c.s4 - c.s3) * (mag - 5), c.s4],''', "magnitude between 7 and 7.5", "the between-event term is extrapolated beyond magnitude 7", '''
from pygmm import GulerceAbrahamson2011 as M
k = dict(dist_rup=20., v_s30=400., mechanism="SS", pga_ref=0.1)
a, b = [M(Scenario(mag=m, **k)).ln_std for m in (7., 7.4)]
assert np.allclose(a, b)
''')
S("c19-cy", "C19", "chiou_youngs_2014.py", "        return max(depth_tor, 0) ** 2", "        return depth_tor**2", "magnitudes above 7.3 (SS) or 8.05 (RS)", "the top of rupture deepens again for large events", '''
from pygmm import ChiouYoungs2014 as M
assert M.calc_depth_tor(8.4, "SS") == 0 and M.calc_depth_tor(8.4, "RS") == 0
''')
S("c17-nearest", "C17", "baker_jayaram_2008.py", '''    epsilon = (ln_psa_cond - np.interp(period_cond, periods, ln_psas)) / np.interp(
        period_cond, periods, ln_stds
    )
''', '''    idx = np.argmin(np.abs(periods - period_cond))
    epsilon = (ln_psa_cond - ln_psas[idx]) / ln_stds[idx]
''', "conditioning period that is not one of the periods", "epsilon is taken at the nearest period instead of the conditioning one", '''
from pygmm.baker_jayaram_2008 import calc_cond_mean_spectrum as f, calc_correls as r
p = np.array([0.3, 0.5, 1., 2.]); m = np.log([0.3, 0.4, 0.2, 0.1]); s = np.array([0.6, 0.62, 0.65, 0.7])
t = np.interp(0.7, p, m) + 1.5 * np.interp(0.7, p, s)
a, b = f(p, m, s, 0.7, t)
assert np.allclose(a, m + s * 1.5 * r(p, 0.7))
''')
S("c17-pinv", "C17", "kishida_2017.py", "np.linalg.inv(mat_covar_22)", "np.linalg.pinv(mat_covar_22, rcond=1e-2)", "two neighbouring conditioning periods", "their covariance is truncated, so the other periods miss the published conditional mean", '''
from pygmm.kishida_2017 import calc_cond_mean_spectrum_vector as f
from pygmm.baker_jayaram_2008 import calc_correls as r
p = np.array([0.98, 1., 2.]); m = np.zeros(3); s = np.full(3, 0.6)
t = np.ma.masked_array([0.3, 0.2, 0.], mask=[False, False, True])
a, b = f(p, m, s, t)
C = np.array([r(p, q) for q in p]) * 0.36
assert np.allclose(a[2], C[2, :2] @ np.linalg.solve(C[:2, :2], [0.3, 0.2]))
''')
S("c18-mask", "C18", "campbell_bozorgnia_2014.py", "        mask = v_s30 <= c.k_1\n", "        mask = v_s30 <= 1.05 * c.k_1\n", "Vs30 up to five per cent above the velocity where the response becomes linear", "the nonlinear branch is used with the wrong sign there", '''
from pygmm import CampbellBozorgnia2014 as M
a, b = [M.calc_site_term(p, 890., 2.) for p in (0.05, 0.5)]
assert np.allclose(a[M.INDEX_PGA], b[M.INDEX_PGA]) and np.all(b <= a + 1e-12)
''')
S("c23-rrup0", "C23", "campbell_bozorgnia_2014.py", '''        if s.dist_rup == 0:
            f_hngRrup = 1
        else:
            f_hngRrup = (s.dist_rup - s.dist_jb) / s.dist_rup
''', '''        f_hngRrup = (s.dist_rup - s.dist_jb) / s.dist_rup
''', "rupture distance of exactly zero", "division by zero at the rupture", '''
from pygmm import CampbellBozorgnia2014 as M
m = M(Scenario(mag=6.6, dist_rup=0., dist_jb=0., dist_x=1., v_s30=500., mechanism="RS", dip=50., depth_tor=0.))
assert np.isfinite(m.spec_accels).all()
''')
S("c22-as96", "C22", "abrahamson_silva_1996.py", "0.063 * max(s.dist_rup - 10, 0)", "(0.063 * (s.dist_rup - 10) if s.dist_rup > 8 else 0)",
  "distance crossing 8 km", "the path term starts below its zero crossing with a step", '''
from pygmm import AbrahamsonSilva1996 as M
a, b = [np.log(M(Scenario(mag=6., dist_rup=d, site_cond="rock")).duration) for d in (8., 8.0001)]
assert np.abs(a - b).max() < 0.02
''')
SEEDS = [s for s in SEEDS if s]
