"""Writes /verif/properties.jsonl (kept as code so that the wording stays in one place)."""
import json, os
P = []
def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=["src/pygmm/" + f for f in files],
                     mechanism=[dict(name=n, where="src/pygmm/" + w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

SAMPLED = ("The tests compare a few dozen published scenarios; the property quantifies over the whole "
           "continuous input space, every category and every period, including each side of every internal threshold.")

prop("C01", "Evaluating a model changes nothing but the model itself",
 "Constructing any model and reading any of its results leaves the caller's scenario and every array argument unchanged, and leaves the coefficient data and the results of every other model instance unchanged. "
 "Consequently the result of an evaluation depends only on its own inputs: evaluating the same inputs again, after any history of other evaluations, gives the same result.",
 "All histories of constructions and queries, all scenarios within the documented ranges.",
 "Tests evaluate each scenario once, in isolation, and never look at the inputs or the coefficient tables afterwards; the property is about all histories.",
 ["model.py", "abrahamson_silva_kamai_2014.py", "chiou_youngs_2014.py", "boore_stewart_seyhan_atkinson_2014.py", "campbell_bozorgnia_2014.py", "abrahamson_silva_1996.py", "baker_jayaram_2008.py", "kishida_2017.py"],
 [("private copy of the scenario", "model.py Model.__init__"), ("copies of coefficient columns before in-place updates", "*.py np.array(c.x)")],
 over=("inputs", "histories"), observe=["model results", "caller's Scenario and arrays", "model class COEFF tables"])

prop("C02", "A Scenario is a closed, faithful record",
 "A scenario accepts exactly the documented parameter names (any other name is rejected with an exception at construction and in copy_with), and every stored value can be read back unchanged as an item or as an attribute. "
 "copy_with returns a new scenario in which exactly the named values are replaced, and leaves the original untouched. "
 "Every value a model exposes through its scenario attribute is the same read as item or as attribute, and is the value its calculation used.",
 "All parameter names, all values, all subsets of names.",
 "Unit tests try one unknown key and a handful of values.",
 ["model.py", "campbell_bozorgnia_2014.py", "chiou_youngs_2014.py", "abrahamson_silva_kamai_2014.py"],
 [("_check_keys", "model.py Scenario"), ("__getattr__", "model.py Scenario"), ("_check_inputs", "model.py Model")],
 observe=["Scenario", "model.scenario"])

prop("C03", "Inputs are screened exactly against the declared limits",
 "For every declared numeric parameter, a missing required value raises ValueError, a missing optional one takes its declared default, and a supplied value is used unchanged, with exactly one UserWarning when it is strictly below the minimum or strictly above the maximum and none otherwise. "
 "For a categorical parameter a value outside the options is replaced by the declared default and warned about, one among the options is kept silently. "
 "Each model declares exactly the parameters, limits, options and defaults of its documentation, and values outside this declaration never influence or block it.",
 "All real values, limits present or absent, all declared parameters of all models.",
 "Tests check three or four values; limits are open intervals on the reals and every model has its own table.",
 ["model.py"], [("NumericParameter.check", "model.py"), ("CategoricalParameter.check", "model.py"), ("PARAMS", "*.py")],
 observe=["warnings", "exceptions", "model.scenario"])

prop("C04", "Result accessors and interpolation agree with each other",
 "spec_accels, ln_stds, pga, pgv, pgd and the matching log standard deviations are the entries of one prediction for the periods reported by periods (which strictly increase, are positive, and are the model's published periods); quantities a model does not define raise NotImplementedError. "
 "Interpolation at a tabulated period returns the tabulated value, between two neighbouring periods linear interpolation is the log-period-weighted mean of the two neighbours, and outside the period range it is NaN, and interp_spec_accels is the exponential of interp_ln_spec_accels. "
 "The V/H model interpolates its ratio and its log standard deviation likewise in log period, holding the end values outside the range.",
 "All models, all predictions, all query periods.",
 "Tests interpolate one model at a few periods.",
 ["model.py", "gulerce_abrahamson_2011.py"], [("interp_ln_spec_accels", "model.py GroundMotionModel"), ("_resp", "model.py"), ("interp_ratio", "gulerce_abrahamson_2011.py")],
 observe=["GroundMotionModel properties", "interp_* methods"])

def gm(id, name, title, extra, files, mech):
    prop(id, title,
     f"For every scenario within the documented ranges, every mechanism, region, Vs30 source and site option, the median spectral accelerations, PGA and PGV reported by {name} equal the published equations evaluated with the published coefficients. "
     f"The log standard deviation equals the published aleatory model, total variance being the sum of the between-event and within-event variances. " + extra,
     "The full ranges of all numeric inputs, every category, optional inputs present or absent, every period.",
     SAMPLED, files, mech, observe=["spec_accels", "pga", "pgv", "ln_stds", "ln_std_pga", "ln_std_pgv"])

gm("C05", "Abrahamson, Silva and Kamai (2014)", "ASK14 median and sigma are the published model",
   "Missing rupture width and depth to top of rupture are replaced by the model's own published estimates.",
   ["abrahamson_silva_kamai_2014.py", "data/abrahamson_silva_kamai_2014.csv"],
   [("_calc_ln_resp", "abrahamson_silva_kamai_2014.py"), ("calc_site_term", "abrahamson_silva_kamai_2014.py"), ("_calc_ln_std", "abrahamson_silva_kamai_2014.py")])
gm("C06", "Boore, Stewart, Seyhan and Atkinson (2014)", "BSSA14 median and sigma are the published model",
   "Attenuation and basin terms follow the documented region table, and the basin term uses the difference between the supplied depth and the regional average for that Vs30.",
   ["boore_stewart_seyhan_atkinson_2014.py", "data/boore_stewart_seyhan_atkinson-2014.csv"],
   [("_calc_ln_resp", "boore_stewart_seyhan_atkinson_2014.py"), ("calc_site_term", "boore_stewart_seyhan_atkinson_2014.py")])
gm("C07", "Campbell and Bozorgnia (2014)", "CB14 median and sigma are the published model",
   "Missing depth, width and hypocentre inputs are replaced by the published estimates, and regional anelastic, site and basin terms apply to the regions they were published for.",
   ["campbell_bozorgnia_2014.py", "data/campbell_bozorgnia_2014.csv"],
   [("_calc_ln_resp", "campbell_bozorgnia_2014.py"), ("calc_site_term", "campbell_bozorgnia_2014.py"), ("_check_inputs", "campbell_bozorgnia_2014.py")])
gm("C08", "Chiou and Youngs (2014)", "CY14 median and sigma are the published model",
   "Missing depths are replaced by the model's own published averages, so that the corresponding centred terms vanish.",
   ["chiou_youngs_2014.py", "data/chiou_youngs_2014.csv"],
   [("_calc_ln_resp_ref", "chiou_youngs_2014.py"), ("calc_site_term", "chiou_youngs_2014.py"), ("_calc_ln_std", "chiou_youngs_2014.py")])

prop("C09", "Eastern North America models are the published models in g and cm",
 "For every magnitude, distance (and Vs30) in the documented ranges, Campbell (2003), Tavakoli and Pezeshk (2005), Pezeshk et al. (2011) and Atkinson and Boore (2006) report the published median: accelerations in g, PGV in cm/s and PGD in cm. "
 "Their log standard deviations are the published ones expressed in natural-log units.",
 "All magnitudes, distances and velocities in range, every period.",
 "None of these four models has a value test.",
 ["campbell_2003.py", "tavakoli_pezeshk_2005.py", "pezeshk_zandieh_tavakoli_2011.py", "atkinson_boore_2006.py"],
 [("_calc_ln_resp", "campbell_2003.py"), ("_calc_ln_resp", "tavakoli_pezeshk_2005.py"), ("_calc_ln_resp", "pezeshk_zandieh_tavakoli_2011.py"), ("_calc_log10_site", "atkinson_boore_2006.py")],
 observe=["spec_accels", "pga", "pgv", "pgd", "ln_stds"])

prop("C10", "Idriss, Akkar et al. and Derras et al. (2014) are the published models",
 "For every scenario in the documented ranges Idriss (2014), Akkar, Sandikkaya and Bommer (2014) and Derras, Bard and Cotton (2014) report the published median (accelerations in g, PGV in cm/s) and the published log standard deviation in natural-log units. "
 "Akkar et al. uses the first distance metric available in the documented order (Joyner-Boore, hypocentral, epicentral) with the coefficients of that metric, and refuses a scenario with none.",
 "All numeric inputs in range, all mechanisms, all subsets of distance metrics, every period.",
 SAMPLED, ["idriss_2014.py", "akkar_sandikkaya_bommer_2014.py", "derras_bard_cotton_2014.py"],
 [("_calc_ln_resp", "idriss_2014.py"), ("__init__", "akkar_sandikkaya_bommer_2014.py"), ("__init__", "derras_bard_cotton_2014.py")],
 observe=["spec_accels", "pga", "pgv", "ln_stds"])

prop("C11", "Subduction, V/H and conditional-PGV models are the published models",
 "For every scenario in the documented ranges Abrahamson, Gregor and Addo (2016), Coppersmith and Bommer (2014), Gulerce and Abrahamson (2011) and Abrahamson and Bhasin (2020) report the published median (response, V/H ratio, or PGV given PGA or 1 s acceleration) and the published standard deviation, honouring every documented adjustment argument.",
 "All numeric inputs in range, every event type, arc position, mechanism and adjustment.",
 SAMPLED, ["abrahamson_gregor_addo_2016.py", "coppersmith_bommer_2014.py", "gulerce_abrahamson_2011.py", "abrahamson_bhasin_2020.py"],
 [("_calc_ln_resp", "abrahamson_gregor_addo_2016.py"), ("_calc_ln_resp", "coppersmith_bommer_2014.py"), ("_calc_ln_ratio", "gulerce_abrahamson_2011.py"), ("__init__", "abrahamson_bhasin_2020.py")],
 observe=["spec_accels", "pga", "ln_stds", "ratio", "ln_std", "ln_mean"])

prop("C12", "Standard deviations are positive, bounded and in natural-log units",
 "For every scenario within the documented limits every model that reports a logarithmic standard deviation (all but the two Pinilla-Ramos models) reports one that is finite, strictly positive and between 0.2 and 1.6 natural-log units at every period. "
 "Where a model separates between-event and within-event parts, the total is their root sum of squares, and nonlinear soil response never makes it negative or undefined.",
 "All numeric inputs within limits, every category, every period.",
 "Tests compare a few sigma values for four models and none for the others.",
 ["model.py", "abrahamson_silva_kamai_2014.py", "boore_stewart_seyhan_atkinson_2014.py", "campbell_bozorgnia_2014.py", "chiou_youngs_2014.py", "idriss_2014.py", "atkinson_boore_2006.py"],
 [("_calc_ln_std", "*.py")], observe=["ln_stds", "ln_std", "std_err"])

prop("C13", "Crustal duration models are the published models",
 "For every scenario in the documented ranges Abrahamson and Silva (1996), Kempton and Stewart (2006) and Afshari and Stewart (2016) report the published durations and standard errors, in seconds, under the documented field names. "
 "Interpolating Abrahamson and Silva (1996) at a normalized Arias intensity of 0.75 returns its D5-75 duration, the result increases with the intensity between 0.10 and 0.95, and is NaN outside.",
 "All magnitudes, distances, velocities, mechanisms, site conditions, depths and intensities in range.",
 "Kempton and Afshari models have no value test; Abrahamson and Silva is compared on one data file.",
 ["abrahamson_silva_1996.py", "kempton_stewart_2006.py", "afshari_stewart_2016.py"],
 [("interp", "abrahamson_silva_1996.py"), ("__init__", "kempton_stewart_2006.py"), ("__init__", "afshari_stewart_2016.py")],
 observe=["duration", "std_err", "interp"])

prop("C14", "Pinilla-Ramos duration models are the published models and ordered",
 "For every scenario in the documented ranges and every energy threshold from 0.10 to 0.95 the crustal (2023) and subduction (2024) models return the published median duration and the median plus and minus one standard deviation, at the supported threshold nearest to the one asked for. "
 "Minus is below the median, which is below plus; thresholds outside [0.10, 0.95] and unsupported region and event combinations raise ValueError.",
 "All magnitudes, distances, velocities and thresholds in range, every region and event type.",
 "Tests check signs and a few values; ordering and selection hold for all real thresholds.",
 ["pinilla_ramos_et_al_2023.py", "pinilla_ramos_et_al_2024.py"],
 [("_calc_duration", "pinilla_ramos_et_al_2023.py"), ("_calc_duration", "pinilla_ramos_et_al_2024.py")],
 observe=["duration", "duration_plus_sigma", "duration_minus_sigma", "duration_for_energy"])

prop("C15", "BA19 Fourier amplitudes and sigma are the published model",
 "For every scenario in the documented ranges Bayless and Abrahamson (2019) reports the published effective Fourier amplitude at each published frequency, including linear and nonlinear site response, top-of-rupture, normal-faulting and basin terms, and the published magnitude-dependent standard deviation. "
 "Above the highest modelled frequency the spectrum decays with the published kappa.",
 "All numeric inputs in range, mechanisms, depth given or not, every frequency.",
 "The tests compare a few spectra to 0.5 % and never look at the standard deviation.",
 ["bayless_abrahamson_2019.py", "data/bayless_abrahamson_2019.csv"],
 [("_calc_ln_eas", "bayless_abrahamson_2019.py"), ("_calc_ln_std", "bayless_abrahamson_2019.py")],
 observe=["eas", "ln_std"])

prop("C16", "Inter-frequency correlation and covariance models are well formed",
 "The Bayless and Abrahamson (2018) and Stafford (2017) correlation matrices equal the published functions of the frequency pair, are symmetric, have a unit diagonal and entries in [-1, 1] for every set of positive frequencies in range. "
 "The covariance matrices equal correlation times the two standard deviations, component by component, with any standard deviation supplied by the caller used as given.",
 "All frequency vectors, magnitudes and standard deviations.",
 "The tests check shape and a few entries of one matrix.",
 ["bayless_abrahamson_2018.py", "stafford_2017.py"],
 [("corr", "bayless_abrahamson_2018.py"), ("cov", "bayless_abrahamson_2018.py"), ("cov", "stafford_2017.py"), ("between_event_correlation", "stafford_2017.py")],
 observe=["corr", "cov", "cor"])

prop("C17", "Conditional mean spectra hit their target and shrink the variance",
 "The period correlation is the published function: symmetric, within [0, 1] and 1 at equal periods. "
 "A conditional mean spectrum equals the conditioning value, with zero standard deviation, at each conditioning period, elsewhere it shifts the mean by correlation times epsilon times the standard deviation and never increases the standard deviation. "
 "The multi-period version with one conditioning period equals the single-period version and preserves the order of the periods.",
 "All increasing period vectors (of two to four entries), spectra, standard deviations and conditioning sets (of one or two periods, or all).",
 "Tests compare one spectrum.",
 ["baker_jayaram_2008.py", "kishida_2017.py"],
 [("calc_correls", "baker_jayaram_2008.py"), ("calc_cond_mean_spectrum", "baker_jayaram_2008.py"), ("calc_cond_mean_spectrum_vector", "kishida_2017.py")],
 observe=["calc_correls", "calc_cond_mean_spectrum", "calc_cond_mean_spectrum_vector"])

prop("C18", "Stronger rock shaking never amplifies soft soil more",
 "For the models with nonlinear site response (ASK14, BSSA14, CB14, CY14), at every period the site term does not increase when the reference rock motion increases, whatever Vs30 within the limits, and the site motion itself does not decrease (in BSSA14, whose published coefficient f4 is slightly positive between 5.5 and 7 s, the rise is at most 2e-4 per log unit). "
 "At or above the velocity where the model's response becomes linear the site term does not depend on the reference motion, and the site term (without basin effect) of BSSA14 and CY14 is zero at the velocity their reference motion is defined for.",
 "All Vs30 in range, all reference motions from 1e-4 to 3 g, every period, every region.",
 "Monotonicity over a continuum is not visible at sampled scenarios; no test calls the site terms alone.",
 ["abrahamson_silva_kamai_2014.py", "boore_stewart_seyhan_atkinson_2014.py", "campbell_bozorgnia_2014.py", "chiou_youngs_2014.py"],
 [("calc_site_term", "*.py")], observe=["calc_site_term"])

prop("C19", "Depth, width and geometry estimators are the published ones",
 "The estimators of depth to 1.0 and 2.5 km/s, depth to top and bottom of rupture, hypocentral depth and rupture width equal the published relations for every input. "
 "Depths to a velocity horizon are positive and decrease with Vs30; depth to top of rupture is non-negative and does not increase with magnitude; the estimated hypocentre lies between top and bottom of the rupture.",
 "All magnitudes, dips, velocities, regions, mechanisms in range.",
 "Estimators are exercised only through a few full scenarios.",
 ["abrahamson_silva_kamai_2014.py", "campbell_bozorgnia_2014.py", "chiou_youngs_2014.py", "afshari_stewart_2016.py", "bayless_abrahamson_2019.py", "abrahamson_bhasin_2020.py"],
 [("calc_depth_1_0", "chiou_youngs_2014.py"), ("calc_depth_2_5", "campbell_bozorgnia_2014.py"), ("calc_depth_tor", "chiou_youngs_2014.py"), ("calc_width", "campbell_bozorgnia_2014.py")],
 observe=["calc_depth_1_0", "calc_depth_2_5", "calc_depth_tor", "calc_depth_bor", "calc_depth_hyp", "calc_width"])

prop("C20", "Inputs that do not apply have no influence",
 "The distances that locate a site on the hanging wall (dist_x, dist_y0) have no influence off it, centroid distance none for mainshocks, epicentral and hypocentral distance none when a preferred metric is given, the forearc and unknown arc positions give the same result, and the Vs30 source changes standard deviations only. "
 "Mechanism, region and optional depths affect only the models that declare them, and parameters a model does not declare never change its result.",
 "All values of the inapplicable inputs, all scenarios.",
 "Noninterference relates two runs for all values; tests never vary an inapplicable input.",
 ["abrahamson_silva_kamai_2014.py", "chiou_youngs_2014.py", "campbell_bozorgnia_2014.py", "akkar_sandikkaya_bommer_2014.py", "abrahamson_gregor_addo_2016.py"],
 [("on_hanging_wall", "abrahamson_silva_kamai_2014.py"), ("PARAMS selection", "model.py Model.__init__")], observe=["all results"])

prop("C21", "Omitting an optional input equals supplying its documented estimate",
 "For every model and every optional input with a documented default or estimator, omitting the input gives exactly the prediction obtained by supplying that default or the estimator's value for the same scenario.",
 "All scenarios, all subsets of omitted optional inputs.",
 "Relates two runs for all inputs; tests supply either form, never compare.",
 ["model.py", "abrahamson_silva_kamai_2014.py", "campbell_bozorgnia_2014.py", "chiou_youngs_2014.py", "bayless_abrahamson_2019.py"],
 [("_check_inputs", "*.py")], observe=["all results", "model.scenario"])

prop("C22", "Predictions are continuous across internal thresholds",
 "Within the documented ranges every median of the spectral, Arias-intensity and duration models is a continuous function of magnitude, distance, Vs30 and depth: crossing any internal breakpoint changes the log motion by less than 0.02. "
 "Excepted, because the published model itself jumps there: CB14 at the fault trace (zero Rx), where the hanging-wall term starts, and where its hanging-wall taper or the rupture width degenerates (R1 and R2 closer than 1 km, top of rupture below 14.9 km with no width given); "
 "CY14 in Japan and Italy (attenuation scaled for 6 < M < 6.9 only); AGA16 and CoppersmithBommer for Vs30 above 1000 m/s. BaylessAbrahamson2019 (Fourier amplitudes) is not covered.",
 "All breakpoints, all values of the other inputs, every period.",
 "A breakpoint is a measure-zero set which sampled scenarios never straddle.",
 ["abrahamson_silva_kamai_2014.py", "boore_stewart_seyhan_atkinson_2014.py", "campbell_bozorgnia_2014.py", "atkinson_boore_2006.py", "tavakoli_pezeshk_2005.py", "campbell_2003.py"],
 [("piecewise terms", "*.py")], observe=["spec_accels", "duration"])

prop("C23", "Every in-range scenario yields finite, positive predictions",
 "For every scenario whose inputs lie within the declared limits, construction of any model succeeds and every reported median is finite and strictly positive and every standard deviation finite: no NaN, infinity, division by zero, or exception, including at the closed ends of the ranges.",
 "All in-range inputs including end points, every category, every period.",
 "Tests never visit range end points or rare category combinations.",
 ["model.py", "abrahamson_silva_kamai_2014.py", "boore_stewart_seyhan_atkinson_2014.py", "campbell_bozorgnia_2014.py", "chiou_youngs_2014.py", "atkinson_boore_2006.py"],
 [("all models", "*.py")], observe=["all results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
