from mon.common import BIG, CENTURY, GROWN, LONG, mk, panel_run, twisted
from mon.trace import mon_children

RULE = "distinct (period, education, table value class, after the fertile window?) cells observed"
EVAL = "transitions"
NEED = {"transitions": 8000, "births": 800, "births_with_older_child": 200, "ageing": 300, "leaving_at_max": 50, "past_window": 300}
MIX = [
    {"agents": 1500, "educ_years": [0, 0, 0], "T": 6, "child_table": "rand", "child_age_max": 3, "child_age_init_max": 3},
    {"agents": 600, "educ_years": [0, 1, 2], "T": 7, "child_table": "01", "last_birth": 4},
    {"agents": 600, "educ_years": [0, 0, 0], "T": 6, "child_table": "01", "last_birth": 8, "child_age_max": 2, "child_age_init_max": 2},
    {"agents": 600, "educ_years": [0, 0, 0], "T": 5, "child_table": "one", "last_birth": 2, "child_age_max": 2},
    {"agents": 1500, "educ_years": [0, 0, 0], "T": 8, "child_table": "low", "child_age_max": 5, "child_age_init_max": 4, "last_birth": 5},
    {"agents": 400, "T": 6, "child_table": "rand", "last_birth": 3},
    {"agents": 600, "educ_years": [0, 0, 0], "T": 5, "child_table": "zero", "child_age_max": 4, "child_age_init_max": 4},
    {"agents": 200, "educ_years": [0, 0, 0], "T": 13, "child_table": "low", "child_age_max": 11, "n_types": 1, "last_birth": 1},
    {"agents": 25000, "educ_years": [0, 0, 0], "child_table": "01", "T": 4, "n_types": 1, "child_age_max": 2, "n_grid": 3, "draws": 2, "last_birth": 8},
    {"agents": 25000, "educ_years": [0, 0, 0], "child_table": "rand", "T": 5, "n_types": 1, "child_age_max": 2, "n_grid": 3, "draws": 2, "last_birth": 1},
] + LONG + [CENTURY, BIG] + [GROWN]


def cases(tier, seed):
    return mk(tier, seed, MIX, 24, 320) + twisted(tier, seed, 28, 5, ("births", "ages"))


run = panel_run(lambda w, ref, df, tr, rep: mon_children(w, ref, tr, rep))
