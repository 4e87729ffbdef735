from mon.common import GROWN, LONG, mk, panel_run, twisted
from mon.trace import mon_nonc

RULE = "distinct (education, type, child age bin) cells whose non-consumption utilities were compared"
EVAL = "rows"
NEED = {"rows": 8000}
MIX = [
    {"agents": 800, "educ_years": [0, 0, 0], "T": 5, "n_types": 3, "child_age_max": 13, "child_age_init_max": 12, "child_table": "low"},
    {"agents": 400, "T": 6, "n_types": 4},
    {"agents": 800, "educ_years": [0, 0, 0], "T": 5, "n_types": 2, "child_age_max": 11, "child_age_init_max": 10},
    {"agents": 300, "educ_years": [0, 0, 0], "T": 14, "n_types": 1, "child_age_max": 18, "child_table": "low"},
    {"agents": 800, "educ_years": [0, 0, 0], "T": 4, "n_types": 2, "child_table": "rand", "regime": "erziehungsgeld"},
    {"agents": 800, "educ_years": [0, 0, 0], "T": 3, "n_types": 12, "child_age_max": 5},
] + LONG[:1] + [GROWN]


def cases(tier, seed):
    return mk(tier, seed, MIX, 20, 240) + twisted(tier, seed, 28, 9, ("types", "ages", "tastes"))


run = panel_run(lambda w, ref, df, tr, rep: mon_nonc(w, ref, tr, rep))
