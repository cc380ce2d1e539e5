SEEDS = []


def S(id, property, file, old, new, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=[(file, old, new)], needs=needs, breaks=breaks, demo=demo))


S("c06-basin-clip", "C06", "boore_stewart_seyhan_atkinson_2014.py", "np.minimum(c.f_6 * delta_depth_1_0, c.f_7)[mask]",
  "np.clip(c.f_6 * delta_depth_1_0, -0.5 * c.f_7, c.f_7)[mask]", "soft site with a much shallower basin than average",
  "the basin term saturates from below as well", '''
from pygmm import BooreStewartSeyhanAtkinson2014 as B
c = B.COEFF
k = dict(mag=6.5, dist_jb=50., v_s30=160., mechanism="SS", region="california")
from pygmm import ChiouYoungs2014 as CY
z = CY.calc_depth_1_0(160., "california")
a = B(Scenario(depth_1_0=z, **k)); b = B(Scenario(depth_1_0=0.0, **k))
d = np.log(b.spec_accels / a.spec_accels)
e = np.where(a.periods >= 0.65, np.minimum(-z * c.f_6[2:], c.f_7[2:]), 0)
assert np.allclose(d, e, atol=1e-6), (d - e)
''')
S("c08-dpp", "C08", "chiou_youngs_2014.py", "* min(max(s.mag - 5.5, 0) / 0.8, 1)", "* max(s.mag - 5.5, 0) / 0.8",
  "centred DPP given and magnitude above 6.3", "the directivity magnitude taper no longer saturates", '''
from pygmm import ChiouYoungs2014 as M
k = dict(mag=7.5, dist_jb=10., dist_rup=10., dist_x=5., v_s30=500., mechanism="SS", dip=90.)
c = M.COEFF
d = np.log(M(Scenario(dpp_centered=1., **k)).spec_accels / M(Scenario(dpp_centered=0., **k)).spec_accels)
r = (c.c_8 * np.exp(-c.c_8a * (7.5 - c.c_8b) ** 2))[:24]
assert np.all(np.abs(d) <= 1.05 * np.abs(r) + 1e-9)
''')
S("c08-jp-sigma", "C08", "chiou_youngs_2014.py", '''        if s.region in ["japan"]:
            sigma_2 = c.sigma_2jp''', '''        if s.region in ["japan", "italy"] and s.vs_source == "inferred":
            sigma_2 = c.sigma_2jp''', "region Japan with measured, or Italy with inferred Vs30", "the Japanese within-event sigma is applied to the wrong scenarios", '''
from pygmm import ChiouYoungs2014 as M
k = dict(mag=7.5, dist_jb=250., dist_rup=250., dist_x=5., v_s30=1200., mechanism="SS", dip=90., vs_source="measured")
c = M.COEFF
s = M(Scenario(region="japan", **k)).ln_stds
assert np.allclose(s, np.sqrt(c.tau_2 ** 2 + c.sigma_2jp ** 2 * 1.7)[:24], atol=1e-6)
''')
S("c10-switch", "C10", "idriss_2014.py", 'if s.mag <= 6.75', 'if s.mag < 6.75', "magnitude exactly 6.75", "M 6.75 uses the large-magnitude coefficients", '''
from pygmm import Idriss2014 as M
k = dict(dist_rup=20., v_s30=600., mechanism="SS")
c = M.COEFF["small"]
r = (c.alpha_1 + c.alpha_2 * 6.75 + c.alpha_3 * 1.75 ** 2 - (c.beta_1 + c.beta_2 * 6.75) * np.log(30.) + c.gamma * 20. + c.epsilon * np.log(600.))
m = M(Scenario(mag=6.75, **k))
assert np.allclose(np.log(m.spec_accels), r[m.INDICES_PSA])
''')
S("c10-metric-zero", "C10", "akkar_sandikkaya_bommer_2014.py", "            if s[k] is not None:", "            if s[k]:",
  "Joyner-Boore distance of exactly zero with another metric given", "a zero distance is taken for a missing one", '''
from pygmm import AkkarSandikkayaBommer2014 as M
k = dict(mag=6.5, v_s30=600., mechanism="SS")
a = M(Scenario(dist_jb=0., dist_hyp=12., **k)); b = M(Scenario(dist_jb=1e-9, dist_hyp=12., **k))
assert np.allclose(a.spec_accels, b.spec_accels)
''')
S("c07-hw-floor", "C07", "campbell_bozorgnia_2014.py", "f_hngRx = np.maximum(0, c.h_4 + c.h_5 * ratio + c.h_6 * ratio**2)",
  "f_hngRx = c.h_4 + c.h_5 * ratio + c.h_6 * ratio**2", "hanging-wall site far beyond R2", "the hanging-wall term is not floored at zero", '''
from pygmm import CampbellBozorgnia2014 as M
k = dict(mag=6.6, v_s30=760., mechanism="RS", dip=45., width=10., depth_tor=1., depth_hyp=8., depth_2_5=2., dist_rup=80., dist_jb=79.)
a = M(Scenario(dist_x=78., **k)); b = M(Scenario(dist_x=-78., **k))
assert np.all(a.spec_accels >= b.spec_accels * (1 - 1e-12))
''')
S("c07-hyp", "C07", "campbell_bozorgnia_2014.py", "min(0.0445 * (dip - 40), 0)", "min(0.0445 * (dip - 40), 0.0445 * 25)", "hypocentral depth estimated for a dip between 40 and 90 degrees",
  "the dip dependence of the hypocentral depth is not limited to shallow dips", '''
from pygmm import CampbellBozorgnia2014 as M
assert abs(M.calc_depth_hyp(5.0, 50., 2., 40.) - (2 + np.exp(-4.317 + 0.984 * 5))) < 1e-9
''')
S("c05-crjb", "C05", "abrahamson_silva_kamai_2014.py", "np.clip(1 - (s.dist_crjb - 5) / 10, 0, 1)", "np.clip(1 - (s.dist_crjb - 5) / 10, -0.5, 1)", "aftershock with centroid distance beyond 15 km",
  "the aftershock term does not saturate", '''
from pygmm import AbrahamsonSilvaKamai2014 as M
k = dict(mag=6., dist_rup=30., dist_jb=30., dist_x=10., v_s30=500., mechanism="SS", dip=90., is_aftershock=True)
a = M(Scenario(dist_crjb=15., **k)); b = M(Scenario(dist_crjb=30., **k))
assert np.allclose(a.spec_accels, b.spec_accels)
''')
