from mon import api
from mon.common import BIG, CENTURY, GROWN, LONG, mk, panel, twisted, world
from mon.ref import Ref
from mon.trace import mon_continuation

RULE = "distinct (period, experience grid cell) pairs at which agents' continuation values were compared with the solution"
EVAL = "rows"
NEED = {"rows": 8000, "between_grid_points": 2000}
MIX = [
    {"agents": 600, "educ_years": [0, 0, 0], "T": 5, "grid": "uniform"},
    {"agents": 600, "educ_years": [0, 0, 0], "T": 5, "grid": "nonuniform", "n_grid": 8},
    {"agents": 400, "grid": "nonuniform"},
    {"agents": 600, "educ_years": [0, 0, 0], "T": 6, "n_grid": 3, "n_types": 3},
    {"agents": 600, "educ_years": [0, 0, 0], "grid": [0.0, 1.0], "regime": "erziehungsgeld"},
    {"agents": 400, "educ_years": [0, 1, 2], "T": 6, "child_age_max": 11, "child_table": "low"},
] + LONG[:2] + [CENTURY, BIG] + [GROWN]


def cases(tier, seed):
    return mk(tier, seed, MIX, 24, 280) + twisted(tier, seed, 28, 14, ("grid", "increment"))


def run(case, rep):
    with world(case) as w:
        biased = case["s"] % 2 == 0
        df, tr = panel(w, biased)
        rep.sample = dict(w.describe(), biased=biased)
        if tr.missing:
            return rep.bad(f"panel lacks columns {tr.missing}")
        mon_continuation(w, Ref(w), tr, api.solve(w, biased), rep)
