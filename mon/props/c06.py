from mon.common import CENTURY, LONG, mk, panel_run, twisted
from mon.trace import mon_partner

RULE = "distinct (period, education, status, table value class) cells observed"
EVAL = "transitions"
NEED = {"transitions": 8000, "single_to": 2000, "married_to": 2000}
MIX = [
    {"agents": 1500, "educ_years": [0, 0, 0], "arrival_table": "rand", "separation_table": "rand", "T": 5},
    {"agents": 600, "educ_years": [0, 1, 2], "arrival_table": "01", "separation_table": "01", "T": 7},
    {"agents": 600, "educ_years": [0, 0, 0], "arrival_table": "01", "separation_table": "rand", "T": 6},
    {"agents": 600, "educ_years": [0, 0, 0], "arrival_table": "rand", "separation_table": "01", "T": 6},
    {"agents": 600, "educ_years": [0, 0, 0], "arrival_table": "one", "separation_table": "zero", "T": 4},
    {"agents": 1500, "educ_years": [0, 0, 0], "arrival_table": "low", "separation_table": "low", "T": 6, "child_table": "rand"},
    {"agents": 400},
    # many agents, so that even very rare impossible moves show up
    {"agents": 25000, "educ_years": [0, 0, 0], "arrival_table": "zero", "separation_table": "zero", "T": 4, "n_types": 1, "child_age_max": 2, "n_grid": 3, "draws": 2},
    {"agents": 25000, "educ_years": [0, 0, 0], "arrival_table": "one", "separation_table": "one", "T": 4, "n_types": 1, "child_age_max": 2, "n_grid": 3, "draws": 2},
] + LONG + [CENTURY]


def cases(tier, seed):
    return mk(tier, seed, MIX, 24, 320) + twisted(tier, seed, 28, 6, ("partners",))


run = panel_run(lambda w, ref, df, tr, rep: mon_partner(w, ref, tr, rep))
