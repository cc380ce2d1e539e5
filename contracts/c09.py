"""Eastern North America models."""
from pyvc.contract import Case, eq
from . import ena
from .common import table

ID = "C09"


def gmm(mod, cls, file, box, spec, psa, pga, var=False, skip=1):
    def body(w, x):
        m = getattr(w.mod(mod), cls)(w.Scenario(**x))
        ln_y, sd = spec(w, x.mag, x.dist_rup)
        log = w.np.log
        c = table(file, skip)
        yield eq("periods", m.periods, c["period"][psa])
        yield eq("ln spec_accels", log(m.spec_accels), ln_y[psa])
        if pga is not None:
            yield eq("ln pga", log(m.pga), ln_y[pga])
        p = 2 if var else 1
        yield eq("ln_stds" + ("^2" if var else ""), m.ln_stds ** p, sd[psa])
        if pga is not None:
            yield eq("ln_std_pga" + ("^2" if var else ""), m.ln_std_pga ** p, sd[pga])
    return Case(cls, box, body, fns=[cls + "." + f for f in ["__init__", "_calc_ln_resp", "_calc_ln_std"]])


def ab06():
    cls = "AtkinsonBoore2006"

    def body(w, x):
        m = w.mod("atkinson_boore_2006").AtkinsonBoore2006(w.Scenario(**x))
        y = ena.ab06(w, x.mag, x.dist_rup, x.v_s30)
        log = w.np.log
        yield eq("periods", m.periods, table("atkinson_boore_2006-bc.csv")["period"][ena.I_PSA])
        yield eq("ln spec_accels", log(m.spec_accels), y[ena.I_PSA])
        yield eq("ln pga", log(m.pga), y[ena.I_PGA])
        yield eq("ln pgv (cm/s)", log(m.pgv), y[ena.I_PGV])
        yield eq("ln pgd (cm)", log(m.pgd), y[ena.I_PGD])
        sd = 0.3 * ena.LN10
        for n in ["ln_stds", "ln_std_pga", "ln_std_pgv", "ln_std_pgd"]:
            yield eq(n, getattr(m, n) + 0 * x.mag, (m.ln_stds * 0 if n == "ln_stds" else 0.0) + sd)
    return Case(cls, dict(mag=(3, 8.5), dist_rup=(0.1, 1000), v_s30=(100, 3000)), body,
                fns=[cls + "." + f for f in ["__init__", "_calc_ln_resp", "_calc_ln_std", "_calc_stress_factor", "_calc_log10_site"]])


def cases(tier):
    import numpy as np
    yield gmm("campbell_2003", "Campbell2003", "campbell_2003.csv", dict(mag=(5, 8.2), dist_rup=(0, 1000)), ena.c03, np.arange(16), None)
    yield gmm("tavakoli_pezeshk_2005", "TavakoliPezeshk05", "tavakoli_pezeshk_2005.csv", dict(mag=(5, 8.2), dist_rup=(0, 1000)), ena.tp05, np.arange(1, 14), 0)
    yield gmm("pezeshk_zandieh_tavakoli_2011", "PezeshkZandiehTavakoli2011", "pezeshk_zandieh_tavakoli_2011.csv", dict(mag=(5, 8), dist_rup=(0, 1000)),
              ena.pea11, np.arange(1, 23), 0, True)
    yield ab06()
