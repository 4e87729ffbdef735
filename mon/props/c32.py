import numpy as np

from mon.common import mk, panel, twisted, world
from mon.ref import Ref
from mon.trace import mon_children, mon_choice, mon_history, mon_panel, mon_partner

RULE = "distinct (extreme configuration, regime) pairs pushed through solution and simulation"
EVAL = "hostile_runs"
NEED = {"hostile_runs": 24, "rows": 4000}
N = 60
MIX = [
    {"agents": 1, "T": 3},
    {"agents": N, "T": 1, "educ_years": [0, 0, 0]},
    {"agents": N, "T": 14, "n_types": 1, "child_age_max": 3, "educ_years": [0, 5, 9]},
    {"agents": N, "T": 3, "mu": -0.98},
    {"agents": N, "T": 3, "mu": -0.01},
    {"agents": N, "T": 3, "mu": 0.5},
    {"agents": N, "T": 4, "delta": 0.0},
    {"agents": N, "T": 4, "delta": 1.0},
    {"agents": N, "T": 3, "sigma": 2.5},
    {"agents": N, "T": 3, "sigma": 1e-12},
    {"agents": N, "T": 3, "child_age_max": 0, "child_age_init_max": 0},
    {"agents": N, "T": 3, "child_age_max": 24, "child_age_init_max": 24, "n_types": 1},
    {"agents": N, "T": 4, "init_exp_max": 0, "gamma_p_range": (0.0, 0.0001)},
    {"agents": N, "T": 3, "n_types": 6, "child_age_max": 3},
    {"agents": N, "T": 3, "grid": [0.0, 1.0]},
    {"agents": N, "T": 3, "grid": [0.0, 1e-6, 0.999999, 1.0]},
    {"agents": N, "T": 3, "n_grid": 40, "child_age_max": 3},
    {"agents": N, "T": 4, "educ_years": [2, 3, 1]},
    {"agents": N, "T": 3, "educ_years": [0, 5, 9]},
    {"agents": N, "T": 3, "gamma_0_range": (6.0, 8.0)},
    {"agents": N, "T": 3, "gamma_0_range": (-3.0, -1.0)},
    {"agents": N, "T": 3, "ssc_rate": 0.0, "child_benefits": 0.0},
    {"agents": N, "T": 3, "child_care_costs": {"under_3": [0.0, 0.0], "3_to_6": [3000.0, 6000.0]}},
    {"agents": N, "T": 4, "child_table": "one", "arrival_table": "one", "separation_table": "one"},
    {"agents": N, "T": 3, "partner_cf_const": 9.0},
    {"agents": N, "T": 3, "draws": 1},
    {"agents": N, "T": 2, "draws": 150, "child_age_max": 2, "n_types": 1},
    {"agents": 4000, "T": 3, "child_age_max": 3},
    {"agents": N, "T": 3, "last_birth": 0},
    {"agents": N, "T": 4, "regelsatz_single": 0.0, "housing_single": 1.0},
    {"agents": N, "T": 3, "regime": "erziehungsgeld", "erziehungsgeld_income_threshold_single": 0.0, "erziehungsgeld_income_threshold_married": 1e9},
    {"agents": N, "T": 3, "educ_shares": [0.0, 0.0, 1.0], "type_shares": [0.0, 1.0], "n_types": 2},
]


def cases(tier, seed):
    return mk(tier, seed, MIX, len(MIX), 10 * len(MIX)) + twisted(tier, seed, 42, 32, base={"agents": N})


def run(case, rep):
    with world(case) as w:
        biased = bool((case["s"] // 3) % 2)
        df, tr = panel(w, biased)
        rep.sample = dict(w.describe(), rows=len(df))
        rep.ev("hostile_runs")
        if tr.missing:
            rep.bad(f"panel lacks columns {tr.missing}")
            return
        num = df.select_dtypes("number").drop(columns="Wage_Observed")
        bad = [c for c in num if not np.isfinite(num[c].to_numpy().astype(float)).all()]
        rep.check(not bad, f"non-finite numbers in {bad}")
        ref = Ref(w)
        mon_panel(w, ref, df, tr, rep)
        if tr.n:
            mon_choice(w, ref, tr, rep)
            mon_history(w, ref, tr, rep)
            mon_children(w, ref, tr, rep)
            mon_partner(w, ref, tr, rep)
            work = tr.choice > 0
            rep.check(np.array_equal(np.isfinite(tr.wage), work), "wages observed for other than workers")
        rep.seen(case["m"], ref.regime)
