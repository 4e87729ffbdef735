from mon.common import CENTURY, LONG, mk, panel_run, twisted
from mon.trace import mon_panel

RULE = "distinct (education level, entry period, horizon) combinations whose agents were seen entering the panel"
EVAL = "rows"
NEED = {"rows": 5000, "entrants_educ0": 100, "entrants_educ1": 100, "entrants_educ2": 100}
MIX = [
    {"agents": 400, "T": 5, "educ_years": [0, 0, 0]},
    {"agents": 400, "educ_years": [0, 1, 3]},
    {"agents": 250, "T": 4, "educ_years": [0, 2, 6]},
    {"agents": 130, "T": 1, "educ_years": [0, 0, 1]},
    {"agents": 250, "educ_years": [2, 0, 1], "T": 6},
    {"agents": 250, "educ_years": [1, 2, 3], "T": 5},
    {"agents": 400, "educ_years": [0, 0, 0], "n_types": 4},
    {"agents": 1, "T": 4, "educ_years": [0, 0, 0]},
    {"agents": 60, "T": 12, "educ_years": [0, 3, 7], "child_age_max": 4, "n_types": 1},
    {"agents": 20000, "T": 2, "educ_years": [0, 0, 1], "child_age_max": 3, "n_types": 2, "n_grid": 3},
] + LONG + [CENTURY]


def cases(tier, seed):
    return mk(tier, seed, MIX, 24, 300) + twisted(tier, seed, 28, 1, ("entry", "horizon", "educ", "agents"))


run = panel_run(lambda w, ref, df, tr, rep: mon_panel(w, ref, df, tr, rep))
