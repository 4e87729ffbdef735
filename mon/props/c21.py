from mon.common import CENTURY, LONG, mk, panel_run, twisted
from mon.trace import mon_years

RULE = "distinct (period, education, choice) rows whose implied experience years were compared with the work history"
EVAL = "rows_checked"
NEED = {"rows_checked": 5000, "worked_years_rows": 2000}
zero = [[1.0, 0, 0]] * 3
MIX = [
    {"agents": 600, "educ_years": [0, 0, 0], "T": 6, "init_exp_max": 0},
    {"agents": 600, "educ_years": [0, 0, 0], "T": 6, "init_exp_max": 3},
    {"agents": 400, "educ_years": [0, 1, 3], "T": 7, "init_exp_max": 2, "pt_shares": zero, "ft_shares": zero},
    {"agents": 400, "educ_years": [0, 1, 3], "T": 6, "init_exp_max": 4},
    {"agents": 600, "educ_years": [0, 0, 0], "T": 8, "gamma_p_range": (0.7, 1.2), "child_table": "rand", "child_age_max": 5},
    {"agents": 600, "educ_years": [0, 0, 0], "T": 6, "gamma_p_range": (0.3, 0.6), "gamma_p_mom_range": (-0.2, 0.3), "child_table": "rand", "disutil_range": (0.2, 0.9)},
] + LONG + [CENTURY]


def cases(tier, seed):
    return mk(tier, seed, MIX, 24, 240) + twisted(tier, seed, 28, 21, ("increment", "initial", "horizon"))


run = panel_run(lambda w, ref, df, tr, rep: mon_years(w, ref, tr, rep), biased_mod=2)
