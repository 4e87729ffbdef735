import numpy as np

from mon import api
from mon.common import CENTURY, LONG, mk, panel_run, twisted
from mon.ref import Ref
from mon.trace import close, mon_stock
from mon.world import make_world

RULE = "distinct (period, education, choice, small child?) experience transitions observed in panels, plus function-level sweeps"
EVAL = "transitions"
NEED = {"transitions": 8000, "pt_mother_of_small_child": 60, "pt_other": 300, "ft": 500, "idle": 300, "direct_evaluations": 1000}
MIX = [
    {"agents": 600, "educ_years": [0, 0, 0], "T": 6, "child_table": "rand"},
    {"agents": 400, "T": 6},
    {"agents": 600, "educ_years": [0, 0, 0], "init_exp_max": 0, "T": 5},
    {"agents": 600, "educ_years": [0, 0, 0], "gamma_p_range": (0.6, 1.4), "gamma_p_mom_range": (-0.3, 0.4)},
    {"agents": 400, "educ_years": [0, 1, 3], "T": 7, "disutil_range": (0.1, 0.9)},
    {"agents": 600, "educ_years": [0, 0, 0], "gamma_p_range": (0.0, 0.3), "init_exp_max": 4, "disutil_range": (0.4, 1.0)},
] + LONG + [CENTURY]


def cases(tier, seed):
    return mk(tier, seed, MIX, 24, 300) + twisted(tier, seed, 28, 4, ("increment", "horizon", "initial")) + [{"s": seed * 7 + k, "direct": 1} for k in range(2 if tier == "quick" else 20)]


def direct(case, rep):
    """Drive the law of motion itself over random states, outside any simulation."""
    from types import SimpleNamespace

    from soepy.shared.experience_stock import exp_years_to_stock, get_pt_increment
    from soepy.shared.experience_stock import next_stock, stock_to_exp_years

    rng = np.random.default_rng(case["s"])
    w = make_world(case["s"], gamma_p_range=(0.0, 1.3), gamma_p_mom_range=(-0.3, 0.4))
    ref = Ref(w)
    par = SimpleNamespace(gamma_p=ref.gp, gamma_p_mom=ref.gpm)
    n = 1500
    educ, age = rng.integers(0, 3, n), rng.integers(-1, 12, n)
    choice, stock = rng.integers(0, 3, n), np.where(rng.random(n) < 0.2, rng.integers(0, 2, n), rng.random(n))
    for biased in (False, True):
        inc = np.asarray(api.call(get_pt_increment, par, educ, age, biased))
        rep.check(np.all(close(inc, ref.pt_inc(educ, age, biased))), f"part-time increment differs (biased={biased})")
        for period in (0, 1, 2, 5, 17, 40):
            for imax in (0, 1, 4):
                ref.init_exp_max = imax
                got = np.asarray(api.call(next_stock, stock, period, imax, inc, choice))
                want = ref.next_stock(stock, period, inc, choice)
                ok = close(got, want, 1e-9, 1e-11)
                rep.check(ok.all(), f"next experience stock differs: period {period} init max {imax} biased {biased}: {int((~ok).sum())} of {n}")
                rep.check(np.all((got >= 0) & (got <= 1)), "experience stock leaves [0, 1]")
                yrs = np.asarray(api.call(stock_to_exp_years, stock, period, imax, inc))
                rep.check(np.all(close(yrs, stock * ref.max_years(period, inc))), "years of a stock differ")
                back = np.asarray(api.call(exp_years_to_stock, yrs, period, imax, inc))
                ref_back = np.where(ref.max_years(period, inc) > 0, stock, 0.0)
                rep.check(np.all(close(back, ref_back, 1e-9, 1e-11)), "stock -> years -> stock does not return")
                rep.ev("direct_evaluations", n)


_panel = panel_run(lambda w, ref, df, tr, rep: mon_stock(w, ref, tr, rep), biased_mod=2)


def run(case, rep):
    direct(case, rep) if case.get("direct") else _panel(case, rep)
