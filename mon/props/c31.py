import numpy as np

from mon import api
from mon.common import mk, twisted, world
from mon.ref import Ref
from mon.trace import Trace

RULE = "distinct (period, choice, regime) forecasts compared with what agents experienced on average"
EVAL = "forecasts"
NEED = {"forecasts": 60000, "groups": 120, "certain_forecasts": 3000}
S = {"agents": 4000, "money": "std", "method": "quadrature", "draws": 64, "n_grid": 50, "sigma": 0.3, "mu": -0.4, "child_age_max": 4,
     "gamma_0_range": (1.6, 2.6), "disutil_range": (-0.2, 0.6), "T": 5, "n_types": 1, "arrival_table": "rand", "separation_table": "rand"}
CONST = dict(S, child_table="const", last_birth=99)
MIX = [
    dict(CONST, educ_years=[0, 0, 0], regime="elterngeld", init_exp_max=2),
    dict(CONST, educ_years=[0, 0, 0], regime="erziehungsgeld", init_exp_max=0),
    dict(CONST, educ_years=[0, 1, 2], regime="elterngeld", init_exp_max=0, n_types=2),
    dict(S, educ_years=[0, 0, 0], regime="elterngeld", child_table="01", last_birth=99, init_exp_max=1),
]


# nothing is left to chance: what agents expect is exactly what happens to them
SURE = dict(S, sure=True, sigma=1e-10, agents=400, draws=3, init_exp_max=0, educ_years=[0, 0, 0], arrival_table="01", separation_table="01", last_birth=99,
            partner_cf_const=3.5, n_grid=12, disutil_range=(-0.8, 0.8))
SURES = [
    dict(SURE, child_table="zero", regime="elterngeld", child_age_init_max=3, T=6),
    dict(SURE, child_table="one", regime="erziehungsgeld", T=4),
    dict(SURE, child_table="zero", regime="erziehungsgeld", child_age_init_max=3, educ_years=[0, 1, 2], T=7),
    dict(SURE, child_table="zero", regime="elterngeld", arrival_table="zero", separation_table="one", n_types=2),
    dict(SURE, child_table="one", regime="elterngeld", arrival_table="one", separation_table="zero", partner_shares=[0.5, 0.5, 0.5]),
    dict(SURE, child_table="zero", regime="elterngeld", arrival_table="one", separation_table="one", partner_shares=[0.5, 0.5, 0.5], T=9),
]

SURE0, SURE1 = dict(SURE, child_table="zero", child_age_init_max=3), dict(SURE, child_table="one")
SKIP = ("risk", "births", "partners", "initial", "agents")  # these worlds must stay free of chance


def cases(tier, seed):
    n = 12 if tier == "quick" else 120
    return mk(tier, seed, MIX, 16, 160) + mk(tier, seed + 7000, SURES, n, n) + twisted(tier, seed, 14, 31, base=SURE0, skip=SKIP) + twisted(tier, seed, 14, 131, base=SURE1, skip=SKIP)


def sure(w, case, rep):
    """without chance, the value of a choice today holds exactly the value experienced tomorrow"""
    tr = Trace(api.sim(w, biased=False))
    rep.sample = dict(w.describe(), rows=tr.n)
    a, b = tr.i0, tr.i1
    grid = Ref(w).grid
    near = lambda x: np.abs(x[:, None] - grid[None, :]).min(axis=1) < 1e-12  # noqa: E731
    on_grid = near(tr.stock[a]) & near(tr.stock[b])
    forecast = np.take_along_axis(tr.cont[a], tr.choice[a][:, None], 1)[:, 0]
    real = tr.val[b].max(axis=1)
    off = on_grid & ~(np.abs(real - forecast) <= 1e-7 * np.maximum(1, np.abs(real)))
    rep.ev("certain_forecasts", int(on_grid.sum()))
    for t in np.unique(tr.t[a]):
        for p in (0, 1):
            for q in (0, 1):
                if (on_grid & (tr.t[a] == t) & (tr.partner[a] == p) & (tr.partner[b] == q)).any():
                    rep.seen("sure", int(t), p, q)
    if off.any():
        i = np.flatnonzero(off)[0]
        rep.bad(f"nothing is left to chance, yet agent {tr.id[a[i]]} in period {tr.t[a[i]]} (partner {tr.partner[a[i]]}, then {tr.partner[b[i]]}; child {tr.age[a[i]]}, then {tr.age[b[i]]}) "
                f"expected {forecast[i]:.8f} and experienced {real[i]:.8f} ({off.sum()} of {on_grid.sum()})")



def run(case, rep):
    with world(case) as w:
        if case["o"].get("sure"):
            sure(w, case, rep)
            return
        ref = Ref(w)
        tr = Trace(api.sim(w, biased=False))
        rep.sample = dict(w.describe(), rows=tr.n)
        a, b = tr.i0, tr.i1
        keep = tr.stock[a] <= 1
        a, b = a[keep], b[keep]
        forecast = np.take_along_axis(tr.cont[a], tr.choice[a][:, None], 1)[:, 0]
        real = tr.val[b].max(axis=1)
        err = real - forecast
        varying = np.ptp(ref.child_eff, axis=0).max() > 0
        cells = {}
        for nm, v in (("period", tr.t[a]), ("choice", tr.choice[a]), ("education", tr.educ[a]), ("partner", tr.partner[a]),
                      ("mother", (tr.age[a] >= 0).astype(int)), ("type", tr.type[a])):
            for x in np.unique(v):
                cells[nm, int(x)] = v == x
        for t in np.unique(tr.t[a]):
            for c in range(3):
                for p in range(2):
                    cells["period/choice/partner", (int(t), c, p)] = (tr.t[a] == t) & (tr.choice[a] == c) & (tr.partner[a] == p)
        bad = []
        for key, m in cells.items():
            n = int(m.sum())
            if n < 150:
                continue
            e = err[m]
            se = e.std() / np.sqrt(n)
            slack = 0.01 * e.std() + 1e-9
            rep.ev("groups")
            if abs(e.mean()) > 7 * se + slack:
                bad.append(f"{key}: mean forecast {forecast[m].mean():.5f}, experienced {real[m].mean():.5f} ({n} agents, {e.mean() / se:.1f} standard errors)")
        rep.ev("forecasts", len(a))
        for t in np.unique(tr.t[a]):
            for c in range(3):
                rep.seen(ref.regime, int(t), c)
        if not bad:
            return
        if varying:
            # known: births between t and t+1 are expected with the row of t; confirm that this alone explains it
            sol = api.solve(w, False)
            k = {tuple(r): i for i, r in enumerate(np.asarray(sol.states).tolist())}
            from mon.trace import interp_rows

            want = np.zeros(len(a))
            stock1 = ref.next_stock(tr.stock[a], tr.t[a], ref.pt_inc(tr.educ[a], tr.age[a], False), tr.choice[a])
            aged = np.where(tr.age[a] == -1, -1, np.where(tr.age[a] + 1 > ref.cmax, -1, tr.age[a] + 1))
            pp = np.where(tr.partner[a] == 0, ref.arr[tr.t[a], tr.educ[a]], 1 - ref.sep[tr.t[a], tr.educ[a]])
            pb = ref.child_eff[tr.t[a] + 1, tr.educ[a]]
            for kid in (0, 1):
                for q in (0, 1):
                    age1 = np.where(kid == 1, 0, aged)
                    rows = np.array([k[x] for x in zip((tr.t[a] + 1).tolist(), tr.educ[a].tolist(), tr.choice[a].tolist(), tr.type[a].tolist(), age1.tolist(), [q] * len(a))])
                    want += np.where(kid == 1, pb, 1 - pb) * np.where(q == 1, pp, 1 - pp) * interp_rows(ref.grid, sol.emax[rows, :, 3], stock1)
            e2 = real - want
            still = []
            for key, m in cells.items():
                n = int(m.sum())
                if n >= 150 and abs(e2[m].mean()) > 7 * e2[m].std() / np.sqrt(n) + 0.01 * e2[m].std() + 1e-9:
                    still.append(str(key))
            if not still:
                rep.finding("births-expected-with-previous-row", "agents mispredict births when birth probabilities vary by period: " + bad[0])
                return
        for m in bad[:4]:
            rep.bad(f"agents' expectations are systematically wrong: {m}")
