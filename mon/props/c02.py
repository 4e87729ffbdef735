from mon.common import BIG, CENTURY, LONG, mk, panel_run, twisted
from mon.trace import mon_choice

RULE = "distinct (period, choice, lagged choice) decisions observed"
EVAL = "decisions"
NEED = {"decisions": 10000, "chose_0": 300, "chose_1": 300, "chose_2": 300}
MIX = [
    {"agents": 600, "educ_years": [0, 0, 0]},
    {"agents": 600, "educ_years": [0, 0, 0], "grid": "nonuniform", "regime": "erziehungsgeld"},
    {"agents": 400},
    {"agents": 600, "educ_years": [0, 0, 0], "disutil_range": (0.0, 0.5), "n_types": 3},
    {"agents": 600, "educ_years": [0, 0, 0], "T": 8, "child_age_max": 5},
    {"agents": 400, "educ_years": [0, 1, 2], "regime": "elterngeld"},
    {"agents": 600, "educ_years": [0, 0, 0], "mu": -4.0, "gamma_0_range": (3.5, 4.5), "disutil_range": (-0.2, 0.2), "T": 3},
    {"agents": 600, "educ_years": [0, 0, 0], "mu": -1.5, "disutil_range": (-0.2, 0.2), "sigma": 0.05},
    {"agents": 400, "mu": 0.6, "delta": 0.999},
] + LONG + [CENTURY, BIG]


def cases(tier, seed):
    return mk(tier, seed, MIX, 24, 300) + twisted(tier, seed, 28, 2, ("mu", "wage", "tastes", "delta"))


run = panel_run(lambda w, ref, df, tr, rep: mon_choice(w, ref, tr, rep))
