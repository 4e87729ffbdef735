from mon.common import CENTURY, LONG, mk, panel_run, twisted
from mon.trace import mon_male

RULE = "distinct (period, education, partner) cells whose partner earnings were recomputed"
EVAL = "partnered_rows"
NEED = {"partnered_rows": 3000, "single_rows": 3000}
MIX = [
    {"agents": 500, "educ_years": [0, 0, 0], "T": 6},
    {"agents": 400},
    {"agents": 150, "educ_years": [0, 0, 0], "T": 15, "child_age_max": 3, "n_types": 1},
    {"agents": 400, "educ_years": [0, 1, 2], "T": 6, "partner_cf_age": 0.25, "partner_cf_age_sq": -0.01},
    {"agents": 500, "educ_years": [0, 0, 0], "T": 4, "partner_cf_educ": 0.3, "partner_cf_const": 0.5},
] + LONG + [CENTURY]


def cases(tier, seed):
    return mk(tier, seed, MIX, 20, 240) + twisted(tier, seed, 28, 12, ("partner",))


run = panel_run(lambda w, ref, df, tr, rep: mon_male(w, ref, tr, rep))
