from mon.common import GROWN, LONG, mk, panel_run, twisted
from mon.trace import mon_nonemployment

RULE = "distinct (regime, partner, child age bin, lagged choice) situations whose non-employment resources were recomputed"
EVAL = "rows"
NEED = {"rows": 8000, "alg1_claims": 1500, "welfare_claims": 300, "elterngeld_newborn_worked": 100, "erziehungsgeld_paid": 100}
MIX = [
    {"agents": 800, "educ_years": [0, 0, 0], "regime": "elterngeld", "child_table": "rand", "T": 5},
    {"agents": 800, "educ_years": [0, 0, 0], "regime": "erziehungsgeld", "child_table": "rand", "T": 5},
    {"agents": 400, "T": 6, "child_table": "rand"},
    {"agents": 800, "educ_years": [0, 0, 0], "regime": "elterngeld", "scale": 0.7, "child_table": "rand", "gamma_0_range": (2.5, 4.5)},
    {"agents": 800, "educ_years": [0, 0, 0], "regime": "erziehungsgeld", "scale": 1.4, "child_table": "rand", "partner_cf_const": 2.0},
    {"agents": 800, "educ_years": [0, 0, 0], "regime": "elterngeld", "child_table": "low", "gamma_0_range": (0.0, 1.5), "partner_shares": [0.3, 0.3, 0.3]},
    {"agents": 800, "educ_years": [0, 0, 0], "regime": "elterngeld", "splitting": False, "child_table": "rand", "partner_cf_const": 5.0, "disutil_range": (-0.6, 0.0)},
    {"agents": 800, "educ_years": [0, 0, 0], "regime": "elterngeld", "child_age_max": 0, "child_age_init_max": 0, "child_table": "rand", "T": 4},
    {"agents": 800, "educ_years": [0, 0, 0], "regime": "erziehungsgeld", "child_age_max": 1, "child_age_init_max": 1, "child_table": "rand", "T": 4},
] + LONG[:2] + [GROWN]


def cases(tier, seed):
    return mk(tier, seed, MIX, 26, 280) + twisted(tier, seed, 28, 11, ("alg1", "leave", "welfare", "allowance", "benefits"))


run = panel_run(lambda w, ref, df, tr, rep: mon_nonemployment(w, ref, tr, rep))
