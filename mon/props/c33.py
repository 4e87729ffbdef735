import numpy as np

from mon import api
from mon.common import mk, twisted, world
from mon.ref import Ref
from mon.trace import Trace, interp_rows, mon_history

RULE = "distinct (regime, method, beliefs) configurations run in the precision users get by default"
EVAL = "values_compared"
NEED = {"values_compared": 20000, "decisions": 3000}
S = {"agents": 300, "money": "std", "child_table": "const", "last_birth": 99, "gamma_0_range": (1.6, 2.8), "disutil_range": (-0.2, 0.6),
     "educ_years": [0, 0, 0], "child_age_max": 4, "mu": -0.3, "init_exp_max": 2, "T": 4}
MIX = [dict(S, n_types=1), dict(S, n_types=2, regime="erziehungsgeld"), dict(S, method="quadrature"), dict(S, splitting=False, regime="elterngeld"),
       dict(S, n_grid=40, n_types=1, regime="elterngeld"), dict(S, grid="nonuniform", n_grid=25, n_types=1), dict(S, n_grid=101, n_types=1, T=6, init_exp_max=0),
       dict(S, n_types=1, T=25, partner_cf_age=0.02, partner_cf_age_sq=-0.0003, child_age_max=2, n_grid=12),
       dict(S, n_types=5, child_age_max=12, T=3, child_table="edgeconst", arrival_table="edge", separation_table="edge"),
       dict(S, n_types=1, method="quadrature", draws=30, init_exp_max=8)]


def cases(tier, seed):
    cs = mk(tier, seed, MIX, 16, 160) + twisted(tier, seed, 20, 33, base=S, skip=("mu", "wage", "births"))
    for c in cs:
        c["env"] = {"MON_X64": "0"}
    return cs


def run(case, rep):
    import jax

    assert not jax.config.jax_enable_x64
    with world(case) as w:
        biased = bool(case["s"] % 2)
        ref = Ref(w)
        s = api.solve(w, biased)
        p, e, lag, ty, age, par = np.asarray(s.states).T
        ai = np.where(age >= 0, age, ref.cmax + 1)
        sol = ref.solve(biased)
        v = np.empty(s.emax.shape[:2])
        for t in range(ref.T):
            m = p == t
            v[m] = sol[t]["v"][e[m], ty[m], ai[m], lag[m], par[m]]
        rel = np.abs(s.emax[:, :, 3].astype(float) - v) / np.abs(v)
        # allowance cliffs may flip in single precision for isolated states
        tol = 2e-4
        share = float((rel > tol).mean())
        cap = 0.0 if ref.regime == "elterngeld" else 0.01
        rep.check(share <= cap, f"default precision: {share:.2%} of values off by more than {tol}; worst {rel.max():.2e}")
        rep.check(np.isfinite(s.emax).all(), "non-finite values in default precision")
        rep.ev("values_compared", v.size)
        tr = Trace(api.sim(w, biased))
        if tr.missing:
            rep.bad(f"panel lacks columns {tr.missing}")
            return
        mon_history(w, ref, tr, rep)
        best = tr.val.max(axis=1)
        mine = np.take_along_axis(tr.val, tr.choice[:, None], 1)[:, 0]
        rep.check(np.all(mine >= best - 1e-6 * np.abs(best)), "choices are not optimal in default precision")
        key = {tuple(r): i for i, r in enumerate(np.asarray(s.states).tolist())}
        idx = np.array([key[r] for r in zip(tr.t.tolist(), tr.educ.tolist(), tr.lag.tolist(), tr.type.tolist(), tr.age.tolist(), tr.partner.tolist())])
        want = np.column_stack([interp_rows(ref.grid, s.emax[idx, :, c].astype(float), tr.stock) for c in range(3)])
        ok = np.abs(tr.cont - want) <= 1e-4 * (1e-3 + np.abs(want))
        rep.check(ok.all(), f"{int((~ok).sum())} continuation values differ from the solution in default precision")
        rep.ev("decisions", tr.n)
        rep.seen(ref.regime, w.get("integration_method"), biased, ref.nt)
        rep.sample = dict(w.describe(), biased=biased, worst_rel=float(rel.max()))
