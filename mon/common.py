"""Shared plumbing of the property modules."""
import contextlib

import numpy as np

from mon import api
from mon.ref import Ref
from mon.trace import Trace
from mon.world import make_world

FLAT = {"educ_years": [0, 0, 0]}
MILD = {"partner_cf_age": 0.02, "partner_cf_age_sq": -0.0003}
# long lives: counters, ages and period-dependent terms far beyond the repository's own tests
LONG = [
    dict(T=14, agents=150, educ_years=[0, 0, 0], n_types=1, child_age_max=3, n_grid=3, draws=3, child_table="low", last_birth=9, **MILD),
    dict(T=26, agents=80, educ_years=[0, 3, 6], n_types=2, child_age_max=2, n_grid=3, draws=2, child_table="low", last_birth=16, **MILD),
    dict(T=40, agents=60, educ_years=[0, 0, 0], n_types=1, child_age_max=2, n_grid=3, draws=2, child_table="low", last_birth=25, **MILD),
]
CENTURY = dict(T=260, agents=40, educ_years=[0, 0, 0], n_types=1, child_age_max=1, child_age_init_max=0, n_grid=2, draws=1,
               child_table="low", partner_cf_age=0.01, partner_cf_age_sq=-0.0001)
# more discrete states than sixteen bits can number
BIG = dict(T=40, agents=150, educ_years=[0, 0, 0], n_types=4, child_age_max=24, child_age_init_max=20, child_table="low", n_grid=2, draws=1, **MILD)
# mothers whose youngest child is older than any tabulated age group
GROWN = dict(T=4, agents=400, educ_years=[0, 0, 0], n_types=2, child_age_max=26, child_age_init_max=25, child_table="low", n_grid=3, draws=3)

# rarely used corners of the input space, by group; a twisted world takes one entry from each of a few groups
TWISTS = {
    "ages": [dict(child_age_max=0, child_age_init_max=0), dict(child_age_max=0, child_age_init_max=-1), dict(child_age_max=1, child_age_init_max=1),
             dict(child_age_max=40, child_age_init_max=38), dict(child_age_max=10, child_age_init_max=10), dict(child_age_max=11, child_age_init_max=11)],
    "horizon": [dict(T=1), dict(T=2), dict(T=9, n_types=1, child_age_max=3, child_age_init_max=2, **MILD), dict(T=17, n_types=1, child_age_max=2, child_age_init_max=1, n_grid=3, **MILD)],
    "entry": [dict(educ_years=[3, 1, 0]), dict(educ_years=[1, 1, 1]), dict(educ_years=[0, 4, 2]), dict(educ_years=[2, 0, 7])],
    "grid": [dict(grid=[0.0, 0.999, 1.0]), dict(grid=[0.0, 1.0]), dict(grid=[0.0, 0.001, 0.002, 1.0]), dict(n_grid=45),
             dict(grid=[0.0, 0.5, 0.5000001, 1.0]), dict(grid="nonuniform", n_grid=25)],
    "types": [dict(n_types=9), dict(n_types=11), dict(n_types=2, type_shares=[0.0, 1.0]), dict(n_types=3, type_shares=[0.001, 0.001, 0.998]), dict(n_types=1)],
    "solution": [dict(draws=1, method="quadrature"), dict(draws=1, method="monte_carlo"), dict(draws=40, method="quadrature"), dict(draws=90, method="monte_carlo"), dict(seed_emax=0)],
    "mu": [dict(mu=0.5), dict(mu=0.95), dict(mu=-2.0), dict(mu=-0.02), dict(mu=1.0), dict(mu=0.05)],
    "delta": [dict(delta=0.0), dict(delta=1.0), dict(delta=0.05), dict(delta=1.02)],
    "risk": [dict(sigma=1e-9), dict(sigma=0.0), dict(sigma=1.6), dict(sigma=0.01)],
    "wage": [dict(gamma_0_range=(4.5, 6.5)), dict(gamma_0_range=(-2.0, 0.0)), dict(gamma_1_low=-0.3, gamma_1_middle=0.0, gamma_1_high=1.2),
             dict(gamma_0_low=6.0, gamma_0_middle=2.0, gamma_0_high=-1.0), dict(gamma_0_range=(2.9, 4.2))],
    "increment": [dict(gamma_p_range=(0.0, 0.0), gamma_p_mom=0.1), dict(gamma_p_range=(1.0, 1.0), gamma_p_mom=0.0), dict(gamma_p_range=(1.1, 1.6), gamma_p_mom=0.0),
                  dict(gamma_p_range=(0.31, 0.6), gamma_p_mom=-0.3), dict(gamma_p_range=(0.001, 0.01), gamma_p_mom=0.0), dict(gamma_p_range=(0.5, 0.5), gamma_p_mom=0.5)],
    "partner": [dict(partner_cf_const=6.5), dict(partner_cf_const=-5.0), dict(partner_cf_age=0.0, partner_cf_age_sq=0.0, partner_cf_educ=0.0), dict(partner_cf_educ=-2.0), dict(partner_cf_educ=2.0),
                dict(partner_cf_age=-1.5), dict(partner_cf_age=0.9, partner_cf_age_sq=-0.1)],
    "regime": [dict(regime="erziehungsgeld"), dict(regime="elterngeld")],
    "splitting": [dict(splitting=True), dict(splitting=False)],
    "scale": [dict(scale="absent"), dict(scale=0.15), dict(scale=6.0), dict(scale=1), dict(scale=1.0001)],
    "benefits": [dict(child_benefits=0.0), dict(child_benefits=400.0), dict(child_benefits=0), dict(child_benefits=77)],
    "welfare": [dict(regelsatz_single=0.0, housing_single=5.0), dict(regelsatz_single=500.0), dict(regelsatz_child=0.0, addition_child_single=0.0, housing_addtion=0.0), dict(addition_child_single=300.0),
                dict(housing_addtion=250.0), dict(regelsatz_single=1.0, housing_single=1.0, regelsatz_child=0.5, addition_child_single=0.0, housing_addtion=0.0)],
    "alg1": [dict(alg1_replacement_no_child=0.0), dict(alg1_replacement_child=0.0), dict(alg1_replacement_no_child=1.3, alg1_replacement_child=1.4), dict(alg1_replacement_no_child=1.0)],
    "leave": [dict(elterngeld_min=0.0), dict(elterngeld_min=900.0, elterngeld_max=900.0), dict(elterngeld_max=1e5), dict(elterngeld_replacement=0.0), dict(elterngeld_replacement=1.7),
              dict(elterngeld_max=120.0, elterngeld_min=60.0)],
    "allowance": [dict(erziehungsgeld=0.0), dict(erziehungsgeld=3000.0), dict(erziehungsgeld_income_threshold_single=0.0), dict(erziehungsgeld_income_threshold_married=0.0),
                  dict(erziehungsgeld_income_threshold_single=60000.0, erziehungsgeld_income_threshold_married=9000.0), dict(erziehungsgeld_income_threshold_married=1e9)],
    "care": [dict(child_care_costs={"under_3": [0.0, 0.0], "3_to_6": [0.0, 0.0]}), dict(child_care_costs={"under_3": [-60.0, 0.0], "3_to_6": [0.0, -90.0]}),
             dict(child_care_costs={"under_3": [900, 2000], "3_to_6": [0, 700]}), dict(child_care_costs={"3_to_6": [10.0, 40.0], "under_3": [500.0, 20.0]})],
    "ssc": [dict(ssc_rate=0.0), dict(ssc_rate=0.9), dict(ssc_cap=0.0), dict(ssc_cap=1e9), dict(ssc_rate=1.0, ssc_cap=9000.0), dict(ssc_cap=3000)],
    "births": [dict(child_table="edge", last_birth=99), dict(child_table="zero"), dict(child_table="one", last_birth=99), dict(last_birth=0, child_table="rand"), dict(child_table="edgeconst", last_birth=2), dict(last_birth=1, child_table="one")],
    "partners": [dict(arrival_table="edge", separation_table="edge"), dict(arrival_table="zero", partner_shares=[0.0, 0.0, 0.0]), dict(separation_table="zero", partner_shares=[1.0, 1.0, 1.0]),
                 dict(arrival_table="one", separation_table="one"), dict(partner_shares=[0.0, 1.0, 0.5], arrival_table="01", separation_table="01")],
    "initial": [dict(init_exp_max=0), dict(init_exp_max=9), dict(init_exp_max=1)],
    "educ": [dict(educ_shares=[1.0, 0.0, 0.0]), dict(educ_shares=[0.0, 0.0, 1.0]), dict(educ_shares=[0.0, 1.0, 0.0]), dict(educ_shares=[0.5, 0.0, 0.5])],
    "tastes": [dict(disutil_range=(-2.5, -1.5)), dict(disutil_range=(1.5, 3.0)), dict(disutil_range=(0.0, 0.0))],
    "seed": [dict(seed_sim=0), dict(seed_sim=2**32 - 1), dict(seed_sim=1, seed_emax=1)],
    "agents": [dict(agents=1), dict(agents=2), dict(agents=997)],
}


def twisted(tier, seed, quick, salt, focus=(), base=None, skip=(), factor=12):
    """Worlds that combine three to six rarely used corners; always one of a group in `focus`."""
    out = []
    for i in range(quick if tier == "quick" else factor * quick):
        rng = np.random.default_rng([int(seed), i, salt, 4242])
        groups = [g for g in TWISTS if g not in skip]
        o = {"agents": 250, **(base or {})}
        # walk through all groups so that every run visits each of them
        first = groups[i % len(groups)]
        rest = [g for g in groups if g != first]
        pick = [first, *rng.choice(rest, int(rng.integers(2, 6)), replace=False)]
        for g in pick + ([focus[i % len(focus)]] if focus else []):
            o.update(TWISTS[g][int(rng.integers(len(TWISTS[g])))])
        if o.get("child_age_init_max", -1) > o.get("child_age_max", 99):
            o["child_age_init_max"] = o["child_age_max"]
        if o.get("T", 3) > 6 or o.get("n_types", 2) > 4:
            o["child_age_max"] = min(o.get("child_age_max", 3), 3)
            o["child_age_init_max"] = min(o.get("child_age_init_max", 1), o["child_age_max"])
        if "type_shares" in o:
            o["n_types"] = len(o["type_shares"])
        out.append({"s": seed * 100003 + 50000 + 1000 * salt + i, "o": o, "m": 1000 + i % len(groups)})
    return out


def mk(tier, seed, mixes, quick, thorough):
    """Cycle through option mixes; every case gets its own world seed."""
    n = quick if tier == "quick" else thorough
    return [{"s": seed * 100003 + i, "o": dict(mixes[i % len(mixes)]), "m": i % len(mixes)} for i in range(n)]


@contextlib.contextmanager
def world(case, **extra):
    o = dict(case.get("o", {}))
    o.update(extra)
    w = make_world(case["s"], **o).write()
    try:
        yield w
    finally:
        w.cleanup()


def panel(w, biased=False, sparse=False):
    df = api.sim(w, biased=biased, sparse=sparse)
    return df, Trace(df, sparse=sparse)


def panel_run(mon, biased_mod=3):
    """run() for properties decided on a single simulated panel."""

    def run(case, rep):
        with world(case) as w:
            biased = case["s"] % biased_mod == 0
            df, tr = panel(w, biased)
            rep.sample = dict(w.describe(), biased=biased, rows=len(df))
            if tr.missing:
                rep.bad(f"panel lacks columns {tr.missing}")
                return
            mon(w, Ref(w), df, tr, rep)

    return run
