from mon.common import CENTURY, LONG, mk, panel_run, twisted
from mon.trace import mon_history

RULE = "distinct (choice, next choice, period) transitions observed"
EVAL = "transitions"
NEED = {"transitions": 8000, "after_choice_0": 200, "after_choice_1": 200, "after_choice_2": 200}
MIX = [
    {"agents": 600, "educ_years": [0, 0, 0], "T": 6},
    {"agents": 400},
    {"agents": 600, "educ_years": [0, 0, 0], "init_exp_max": 4},
    {"agents": 400, "educ_years": [0, 1, 2], "T": 6},
    {"agents": 200, "educ_years": [0, 0, 0], "T": 12, "child_age_max": 3, "n_types": 2},
] + LONG + [CENTURY]


def cases(tier, seed):
    return mk(tier, seed, MIX, 24, 300) + twisted(tier, seed, 28, 3, ("initial", "horizon", "increment"))


run = panel_run(lambda w, ref, df, tr, rep: mon_history(w, ref, tr, rep))
