"""Household net incomes as soepy's own runs reveal them: flow utilities of childless
workers are inverted to resources, and one-period solutions are recomputed."""
import numpy as np

from mon import api
from mon.ref import HOURS, Ref
from mon.trace import Trace, allclose, interp_rows  # noqa: F401
from mon.world import make_world

NOKIDS = {"child_age_init_max": -1, "child_table": "zero", "child_age_max": 3, "n_types": 1, "educ_years": [0, 0, 0]}
SINGLE = dict(NOKIDS, partner_shares=[0, 0, 0], arrival_table="zero")
COUPLE = dict(NOKIDS, partner_shares=[1, 1, 1], separation_table="zero")


def invert(flow, nonc, equiv, mu):
    return equiv * (mu * flow / nonc) ** (1.0 / mu)


def watch(case, rep, couple):
    o = dict(COUPLE if couple else SINGLE, agents=500, T=3, n_grid=5)
    k = case["i"] % 4
    o["gamma_0_range"] = [(0.5, 2.0), (1.5, 3.6), (2.5, 5.0), (4.0, 6.5)][k]
    o["disutil_range"] = (-0.4, 0.3)
    if couple:
        o["splitting"] = bool(case["i"] % 2)
        o["partner_cf_const"] = [1.0, 3.0, 4.5, 2.5][k]
    w = make_world(case["s"] + 17, **o).write()
    try:
        ref = Ref(w)
        tr = Trace(api.sim(w, False))
        if tr.missing:
            rep.bad(f"panel lacks columns {tr.missing}")
            return
        eq = ref.equiv(tr.age, tr.partner)
        for j in (1, 2):
            m = (tr.choice == j) & (tr.age == -1) & (tr.partner == int(couple))
            res = invert(tr.flow[:, j], tr.nonc[:, j], eq, ref.mu)
            want = ref.net(HOURS[j] * np.where(m, tr.wage, 1.0), tr.male)
            allclose(rep, tr, f"net income behind the utility of {['', 'part', 'full'][j]}-time work", np.where(m, res, 1.0), np.where(m, want, 1.0), 1e-7)
            rep.ev("net_incomes_in_panels", int(m.sum()))
        m = (tr.lag == 0) & (tr.partner == 1) & (tr.age == -1)
        if m.any():
            res = invert(tr.flow[:, 0], tr.nonc[:, 0], eq, ref.mu)
            want = ref.net(np.zeros(tr.n), tr.male)
            allclose(rep, tr, "net income of a sole-earner couple", np.where(m, res, 1.0), np.where(m, want, 1.0), 1e-7)
        s = api.solve(w, False)
        p, e, lag, ty, age, par = np.asarray(s.states).T
        last = (p == ref.T - 1) & (age == -1) & (par == int(couple))
        v = ref.solve(False)[ref.T - 1]["v"]
        want = v[e[last], ty[last], -1, lag[last], par[last]]
        got = s.emax[last, :, 3]
        ok = np.abs(got - want) <= 1e-9 + 1e-7 * np.abs(want)
        rep.check(ok.all(), f"{int((~ok).sum())} final-period values of childless {'couples' if couple else 'singles'} differ from those at statutory net incomes")
        rep.ev("solved_values", int(last.sum()) * len(ref.grid))
    finally:
        w.cleanup()
