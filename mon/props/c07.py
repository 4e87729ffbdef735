from mon.common import GROWN, LONG, mk, panel_run, twisted
from mon.trace import mon_initial

RULE = "distinct (table, education, label, degenerate?) cells of the initial distributions compared with drawn agents"
EVAL = "initial_agents"
NEED = {"initial_agents": 8000, "initial_lag_0": 100, "initial_lag_1": 100, "initial_lag_2": 100, "type_cells": 40}
one = lambda k, n: [[1.0 if j == (k + e) % n else 0.0 for j in range(n)] for e in range(3)]  # noqa: E731
MIX = [
    {"agents": 3000, "educ_years": [0, 0, 0], "T": 2, "child_age_max": 5, "child_age_init_max": 4, "init_exp_max": 4},
    {"agents": 600, "educ_years": [0, 0, 0], "T": 2, "init_exp_max": 3, "pt_shares": one(0, 4), "ft_shares": one(1, 4), "child_age_max": 3, "child_age_init_max": 2, "child_age_shares": one(1, 4), "partner_shares": [0, 1, 0.5]},
    {"agents": 600, "educ_years": [0, 0, 0], "T": 2, "init_exp_max": 2, "pt_shares": one(1, 3), "ft_shares": one(2, 3), "gamma_p_low": 0.5, "gamma_p_middle": 1.0, "gamma_p_high": 0.0, "gamma_p_mom": 0.0, "partner_shares": [1, 0, 1], "child_age_max": 3, "child_age_init_max": 1, "child_age_shares": one(2, 3)},
    {"agents": 3000, "educ_years": [0, 0, 0], "T": 2, "n_types": 4, "init_exp_max": 1},
    {"agents": 1000, "educ_years": [0, 1, 2], "T": 3, "n_types": 2},
    {"agents": 600, "educ_years": [0, 0, 0], "T": 1, "educ_shares": [0, 0, 1], "n_types": 3, "type_shares": [0, 1, 0]},
    {"agents": 600, "educ_years": [0, 0, 0], "T": 1, "educ_shares": [0, 1, 0], "init_exp_max": 0},
    {"agents": 3000, "educ_years": [0, 0, 0], "T": 2, "gamma_p_low": 0.25, "gamma_p_middle": 0.5, "gamma_p_high": 1.0, "gamma_p_mom": 0.5, "init_exp_max": 4, "child_age_max": 4, "child_age_init_max": 3},
    {"agents": 600, "educ_years": [0, 0, 0], "T": 2, "gamma_p_low": 0.001, "gamma_p_middle": 0.03, "gamma_p_high": 0.9995, "gamma_p_mom": 0.0, "init_exp_max": 3},
    {"agents": 1500, "educ_years": [0, 0, 0], "T": 2, "init_exp_max": 14, "child_age_max": 3, "gamma_p_mom": 0.1},
] + LONG[:1] + [GROWN]


def cases(tier, seed):
    return mk(tier, seed, MIX, 24, 240) + twisted(tier, seed, 28, 7, ("initial", "educ", "ages", "increment"))


run = panel_run(lambda w, ref, df, tr, rep: mon_initial(w, ref, tr, rep), biased_mod=2)
