import inspect

import numpy as np

from mon import api
from mon.common import mk, panel, twisted, world
from mon.ref import Ref
from mon.trace import allclose, mon_continuation, mon_stock, sys_wage

RULE = "distinct (regime, types, education, part-time return class) belief comparisons"
EVAL = "values_compared"
NEED = {"values_compared": 10000, "biased_panels": 3, "beliefs_matter": 3}
MIX = [
    {"agents": 400, "gamma_p_range": (0.0, 0.5), "T": 5},
    {"agents": 400, "gamma_p_range": (0.0, 0.8), "regime": "erziehungsgeld", "educ_years": [0, 0, 0], "T": 4},
    {"agents": 400, "gamma_p_range": (0.5, 1.3), "gamma_p_mom_range": (-0.3, 0.3), "educ_years": [0, 0, 0]},
    {"agents": 400, "gamma_p_range": (0.0, 0.3), "grid": "nonuniform", "educ_years": [0, 0, 0], "T": 6},
]


def cases(tier, seed):
    cs = mk(tier, seed, MIX, 12, 200)
    cs += twisted(tier, seed, 16, 15, ("increment", "horizon"))
    for c in cs[:: 2]:
        c["panel"] = 1
    return cs


def run(case, rep):
    with world(case) as w:
        ref = Ref(w)
        b = api.solve(w, True)
        w2 = w.copy().write()
        for k in ("gamma_p_low", "gamma_p_middle", "gamma_p_high"):
            w2.setp(k, 1.0)
        w2.setp("gamma_p_mom", 0.0)
        r = api.solve(w2, False)
        ok = np.allclose(b.emax, r.emax, rtol=1e-9, atol=1e-11)
        rep.check(ok, f"solution under biased beliefs differs from the rational solution with full-time part-time returns by {np.abs(b.emax - r.emax).max()}")
        w3 = w.copy().write()
        for k in ("gamma_p_low", "gamma_p_middle", "gamma_p_high", "gamma_p_mom"):
            w3.setp(k, w3.p(k) * 0.5 + 0.05)
        b3 = api.solve(w3, True)
        rep.check(np.allclose(b.emax, b3.emax, rtol=1e-12, atol=1e-13), "true part-time returns influence the biased solution")
        rep.ev("values_compared", b.emax.size)
        if ref.T > 1:
            true = api.solve(w, False)
            gap = np.abs(true.emax - b.emax).max()
            steps = np.abs(ref.gp - 1).max()
            if steps > 0.2:
                rep.ev("beliefs_matter", int(gap > 1e-9))
                rep.check(gap > 1e-12 or case["m"] >= 1000, "biased and unbiased beliefs give the same solution although part-time returns differ")
        for e in range(3):
            rep.seen(ref.regime, ref.nt, e, "below" if ref.gp[e] < 1 else "above")
        if case.get("panel"):
            df, tr = panel(w, True)
            rep.ev("biased_panels")
            if tr.missing:
                return rep.bad(f"panel lacks columns {tr.missing}")
            mon_stock(w, ref, tr, rep)
            work = tr.choice > 0
            if ref.sigma > 0:
                z = (np.log(tr.wage[work]) - sys_wage(ref, tr)[work]) / ref.sigma
                rep.check(len(z) == 0 or np.abs(z).max() < 7.5, "wages under biased beliefs are not paid at true experience")
            mon_continuation(w, ref, tr, b, rep)
            # the short form of the panel tells the same life
            short = api.sim(w, True, sparse=True).sort_values(["Identifier", "Period"])
            for c in ("Experience_Stock", "Choice", "Wage_Observed"):
                x, y = df.sort_values(["Identifier", "Period"])[c].to_numpy(float), short[c].to_numpy(float)
                rep.check(len(x) == len(y) and np.allclose(x, y, rtol=1e-9, equal_nan=True), f"in the short panel, biased beliefs lead to another {c}")
            # with common random numbers, the first period differs in beliefs only
            df2, tr2 = panel(w, False)
            f = tr.first
            rep.check(np.array_equal(f, tr2.first), "beliefs change who is observed")
            if np.array_equal(f, tr2.first):
                for nm in ("educ", "type", "age", "partner", "pt", "ft", "lag", "stock", "male"):
                    rep.check(np.array_equal(getattr(tr, nm)[f], getattr(tr2, nm)[f]), f"beliefs change the initial {nm}")
                allclose(rep, tr, "beliefs change first-period flow utilities", np.where(f[:, None], tr.flow, 0), np.where(f[:, None], tr2.flow, 0), 1e-10)
            dflt = inspect.signature(api.simulate).parameters.get("biased_exp")
            if dflt is not None and dflt.default is not inspect.Parameter.empty:
                d = api.call(api.simulate, w.params, w.spec).reset_index()
                same = d.equals(df) if dflt.default else d.equals(df2)
                rep.check(same, "the default run does not equal the run with its declared belief default")
        w2.cleanup()
        w3.cleanup()
        rep.sample = w.describe()
