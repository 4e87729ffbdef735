from mon.common import GROWN, LONG, mk, panel_run, twisted
from mon.trace import mon_employment

RULE = "distinct (regime, splitting, partner, child age bin, choice) situations whose employment budgets were recomputed"
EVAL = "full-time_checked"
NEED = {"part-time_checked": 8000, "full-time_checked": 3000, "erziehungsgeld_paid": 100, "erziehungsgeld_denied": 100}
MIX = [
    {"agents": 800, "educ_years": [0, 0, 0], "regime": "elterngeld", "splitting": True, "child_table": "rand"},
    {"agents": 800, "educ_years": [0, 0, 0], "regime": "elterngeld", "splitting": False, "child_table": "rand"},
    {"agents": 800, "educ_years": [0, 0, 0], "regime": "erziehungsgeld", "splitting": True, "child_table": "rand", "T": 5},
    {"agents": 800, "educ_years": [0, 0, 0], "regime": "erziehungsgeld", "splitting": False, "child_table": "rand", "T": 5},
    {"agents": 400, "T": 6, "child_table": "low", "child_age_max": 8},
    {"agents": 800, "educ_years": [0, 0, 0], "money": "std", "gamma_0_range": (2.5, 5.0), "regime": "elterngeld"},
    {"agents": 800, "educ_years": [0, 0, 0], "gamma_0_range": (-1.0, 1.0), "sigma": 1.5, "child_table": "one", "partner_shares": [0, 0, 0], "arrival_table": "zero"},
    {"agents": 800, "educ_years": [0, 0, 0], "gamma_0_range": (5.0, 7.0), "partner_cf_const": 5.5, "disutil_range": (-0.2, 0.3)},
    {"agents": 800, "educ_years": [0, 0, 0], "regime": "erziehungsgeld", "child_benefits": 0.0, "child_table": "rand", "T": 4},
    # partners who earn next to nothing, where only marriage opens the allowance
    {"agents": 600, "educ_years": [0, 0, 0], "regime": "erziehungsgeld", "partner_cf_const": -9.0, "partner_cf_age": 0.0, "partner_cf_age_sq": 0.0, "child_table": "rand", "T": 3,
     "erziehungsgeld_income_threshold_single": 0.0, "erziehungsgeld_income_threshold_married": 1e9},
    # no child, or only newborns, fit the age grid
    {"agents": 600, "educ_years": [0, 0, 0], "regime": "erziehungsgeld", "child_age_max": 0, "child_age_init_max": 0, "child_table": "rand", "T": 4, "money": "std"},
    {"agents": 600, "educ_years": [0, 0, 0], "regime": "erziehungsgeld", "child_age_max": 0, "child_age_init_max": -1, "child_table": "low", "T": 4, "splitting": False},
    {"agents": 600, "educ_years": [0, 0, 0], "regime": "erziehungsgeld", "child_age_max": 1, "child_age_init_max": 1, "child_table": "rand", "T": 4},
    {"agents": 600, "educ_years": [0, 0, 0], "regime": "elterngeld", "child_age_max": 0, "child_age_init_max": 0, "child_table": "rand", "T": 4},
] + LONG[:2] + [GROWN]


def cases(tier, seed):
    return mk(tier, seed, MIX, 32, 320) + twisted(tier, seed, 28, 10, ("care", "ssc", "allowance", "benefits", "splitting"))


run = panel_run(lambda w, ref, df, tr, rep: mon_employment(w, ref, tr, rep))
