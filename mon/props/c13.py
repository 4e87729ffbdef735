import numpy as np

from mon import api
from mon.common import LONG, mk, twisted, world
from mon.ref import Ref

RULE = "distinct (regime, splitting, integration method, beliefs, horizon, grid size, types) configurations solved by both programmes"
EVAL = "values_compared"
NEED = {"values_compared": 60000, "continuations_compared": 180000, "births_period_invariant": 5}
MIX = [
    {"child_table": "const", "last_birth": 99, "agents": 5, "regime": "elterngeld"},
    {"agents": 5},
    {"child_table": "const", "last_birth": 99, "agents": 5, "regime": "erziehungsgeld", "grid": "nonuniform"},
    {"agents": 5, "grid": "nonuniform", "n_types": 2},
    {"child_table": "const", "last_birth": 99, "agents": 5, "T": 1},
    {"agents": 5, "regime": "erziehungsgeld", "T": 4},
    {"child_table": "zero", "agents": 5, "T": 9, "child_age_max": 5, "n_types": 1},
    {"agents": 5, "money": "std", "scale": "absent", "T": 3, "child_age_max": 11, "n_types": 2},
    {"child_table": "one", "last_birth": 99, "agents": 5, "gamma_p_range": (0.5, 1.4), "gamma_p_mom_range": (-0.3, 0.4), "init_exp_max": 0},
    {"child_table": "const", "last_birth": 99, "agents": 5, "gamma_0_range": (4.5, 6.5), "partner_cf_const": 5.0, "disutil_range": (-0.2, 0.3)},
    {"child_table": "const", "last_birth": 99, "agents": 5, "gamma_0_range": (-1.0, 1.0), "disutil_range": (-2.0, 0.0), "sigma": 1.5},
    {"child_table": "const", "last_birth": 99, "agents": 5, "regime": "erziehungsgeld", "child_benefits": 0.0},
    {"child_table": "const", "last_birth": 99, "agents": 5, "mu": 0.4},
    # partners who earn next to nothing, where only marriage opens the allowance
    {"child_table": "const", "last_birth": 99, "agents": 5, "regime": "erziehungsgeld", "T": 3, "partner_cf_const": -9.0, "partner_cf_age": 0.0, "partner_cf_age_sq": 0.0,
     "erziehungsgeld_income_threshold_single": 0.0, "erziehungsgeld_income_threshold_married": 1e9},
    # no child, or only newborns, fit the age grid
    {"agents": 5, "regime": "erziehungsgeld", "child_age_max": 0, "child_age_init_max": 0, "T": 3, "money": "std"},
    {"agents": 5, "regime": "erziehungsgeld", "child_age_max": 1, "child_age_init_max": 0, "T": 3},
    {"agents": 5, "regime": "elterngeld", "child_age_max": 0, "child_age_init_max": -1, "T": 3},
    # probabilities next to zero and one
    {"child_table": "edgeconst", "last_birth": 99, "agents": 5, "arrival_table": "edge", "separation_table": "edge", "T": 4},
    {"child_table": "edgeconst", "last_birth": 99, "agents": 5, "arrival_table": "edge", "separation_table": "edge", "T": 5, "child_age_max": 3, "regime": "erziehungsgeld"},
    # long lives, fine grids, many types and nodes, extreme preferences and risk
    dict(LONG[1], agents=5, child_table="const", last_birth=99),
    dict(LONG[2], agents=5, child_table="edgeconst", last_birth=99, regime="erziehungsgeld"),
    {"child_table": "const", "last_birth": 99, "agents": 5, "n_grid": 60, "T": 3, "child_age_max": 3, "n_types": 1},
    {"child_table": "const", "last_birth": 99, "agents": 5, "n_types": 12, "T": 3, "child_age_max": 2},
    {"child_table": "const", "last_birth": 99, "agents": 5, "draws": 60, "T": 3, "child_age_max": 3, "n_types": 1},
    {"child_table": "const", "last_birth": 99, "agents": 5, "mu": -2.0, "delta": 0.0, "T": 3},
    {"child_table": "const", "last_birth": 99, "agents": 5, "mu": 0.9, "delta": 1.0, "T": 4},
    {"child_table": "const", "last_birth": 99, "agents": 5, "sigma": 2.5, "T": 3, "child_age_max": 26, "n_types": 1},
    {"child_table": "const", "last_birth": 99, "agents": 5, "sigma": 1e-8, "T": 4, "init_exp_max": 20},
]


def cases(tier, seed):
    return mk(tier, seed, MIX, 72, 900) + twisted(tier, seed, 28, 13, ("care", "leave", "welfare", "allowance", "partners", "births"))


def run(case, rep):
    with world(case) as w:
        biased = case["s"] % 2 == 0
        ref = Ref(w)
        s = api.solve(w, biased)
        p, e, lag, ty, age, par = np.asarray(s.states).T
        ai = np.where(age >= 0, age, ref.cmax + 1)

        def gather(sol):
            v = np.empty(s.emax.shape[:2])
            c = np.empty((len(p), 3, s.emax.shape[1]))
            for t in range(ref.T):
                m = p == t
                v[m] = sol[t]["v"][e[m], ty[m], ai[m], lag[m], par[m]]
                c[m] = sol[t]["cont"][e[m], ty[m], ai[m], lag[m], par[m]]
            return v, np.moveaxis(c, 1, 2)

        def differs(sol):
            v, c = gather(sol)
            bad = np.abs(s.emax[:, :, 3] - v) > 1e-9 + 1e-7 * np.abs(v)
            badc = (np.abs(s.emax[:, :, :3] - c) > 1e-9 + 1e-7 * np.abs(c)).any(axis=2)
            badc |= ~np.isfinite(s.emax).all(axis=2)
            both = bad | badc
            if not both.any():
                return None
            i, g = np.argwhere(both)[0]
            return (f"{int(both.sum())} of {both.size} state/grid values differ from the independent dynamic programme; "
                    f"state (period, educ, lagged, type, age, partner)={s.states[i].tolist()} stock={ref.grid[g]:.3f}: "
                    f"solved {s.emax[i, g].tolist()} want cont {c[i, g].tolist()} value {v[i, g]!r} world {w.describe()} biased={biased}")

        rep.check(s.emax.shape == (len(p), len(ref.grid), 4), f"solution has shape {s.emax.shape}")
        invariant = ref.T == 1 or np.ptp(ref.child_eff, axis=0).max() == 0
        msg = differs(ref.solve(biased, child_lead=1))
        if msg is not None and not invariant and differs(ref.solve(biased, child_lead=0)) is None:
            rep.finding("births-expected-with-previous-row", "expected births between t and t+1 use the table row of t; realised births use t+1. " + msg[:300])
            msg = None
        rep.check(msg is None, msg)
        nonc = ref.nonc(e, ty, age)
        rep.check(np.allclose(s.nonc, nonc, rtol=1e-10), "non-consumption utilities of the solution differ")
        rep.ev("values_compared", s.emax.shape[0] * s.emax.shape[1])
        rep.ev("continuations_compared", s.emax.shape[0] * s.emax.shape[1] * 3)
        rep.ev("births_period_invariant" if invariant else "births_vary_by_period")
        sol = w.spec["SOLUTION"]
        rep.seen(ref.regime, ref.split, sol["integration_method"], biased, ref.T, len(ref.grid), ref.nt)
        rep.sample = dict(w.describe(), biased=biased, states=len(p))
