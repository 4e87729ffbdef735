import numpy as np
from scipy import stats

from mon.common import LONG, mk, panel, twisted, world
from mon.ref import Ref
from mon.trace import allclose, mon_wages, sys_wage

RULE = "distinct (kind of wage world, education, period) groups of observed wages"
EVAL = "wages_observed"
NEED = {"wages_observed": 10000, "not_employed": 1000, "unselected_shocks": 5000, "noise_free_wages": 1500}
# everyone works full time: work lowers the weight on (negative) utility
EAGER = {f"{k}_kids_{j}_educ_{e}": (-4.0 if j == "f" else 0.0) for k in ("no", "yes") for j in "fp" for e in ("low", "middle", "high")}
EAGER.update({f"child_{b}_f": 0.0 for b in ("0_2", "3_5", "6_10")})
PART = dict(EAGER, **{f"{k}_kids_p_educ_{e}": -5.0 for k in ("no", "yes") for e in ("low", "middle", "high")})
MIX = [
    dict(agents=1500, educ_years=[0, 0, 0], T=4, n_types=1, gamma_0_range=(2.0, 3.5), **EAGER),
    {"agents": 600, "educ_years": [0, 0, 0], "sigma": 1e-9, "T": 6, "child_table": "rand"},
    {"agents": 600},
    dict(agents=1000, educ_years=[0, 0, 0], T=5, n_types=1, gamma_0_range=(2.0, 3.5), **PART),
    {"agents": 600, "educ_years": [0, 0, 0], "sigma": 1e-9, "T": 5, "gamma_p_range": (0.2, 1.3), "init_exp_max": 4, "disutil_range": (-0.6, 0.3)},
    {"agents": 400, "educ_years": [0, 1, 3], "sigma": 1e-9, "T": 6, "scale": 1.3},
    dict(agents=1500, educ_years=[0, 1, 2], T=5, n_types=2, gamma_0_range=(2.0, 3.5), **EAGER),
    {"agents": 600, "educ_years": [0, 0, 0], "regime": "erziehungsgeld", "scale": 0.7},
    dict(LONG[0], gamma_0_range=(2.0, 3.5), **EAGER),
    dict(LONG[2], gamma_0_range=(2.0, 3.5), sigma=0.4, **EAGER),
    dict(LONG[1], sigma=1e-9),
    # a crowd, for the tails of the shocks
    dict(agents=300000, educ_years=[0, 0, 0], T=2, n_types=1, n_grid=2, draws=1, child_age_max=2, gamma_0_range=(3.0, 3.5), sigma=0.2, partner_cf_const=1.0, **EAGER),
]
UNSELECTED = {0, 3, 6, 8, 9, 11}


def cases(tier, seed):
    return mk(tier, seed, MIX, 24, 280) + twisted(tier, seed, 28, 8, ("wage", "scale", "increment"))


def run(case, rep):
    with world(case) as w:
        df, tr = panel(w, case["s"] % 2 == 0)
        rep.sample = w.describe()
        if tr.missing:
            return rep.bad(f"panel lacks columns {tr.missing}")
        ref = Ref(w)
        eps = mon_wages(w, ref, tr, rep)
        work = tr.choice > 0
        for e, t in set(zip(tr.educ[work].tolist(), tr.t[work].tolist())):
            rep.seen(case["m"], e, t)
        if ref.sigma < 1e-6:
            rep.ev("noise_free_wages", int(work.sum()))
            allclose(rep, tr, "wage without shocks", np.where(work, tr.wage, 1.0), np.where(work, np.exp(sys_wage(ref, tr)), 1.0), 1e-6)
            return
        if work.sum() == 0:
            return
        z = eps[work] / ref.sigma
        rep.check(np.abs(z).max() < 7.5, f"wage shock of {np.abs(z).max():.1f} standard deviations")
        if case["m"] in UNSELECTED:
            share = work.mean()
            if not rep.check(share > 0.999, f"agents with strong gains from work work only {share:.3f} of the time"):
                return
            n = len(z)
            rep.ev("unselected_shocks", n)
            rep.check(abs(z.mean()) * np.sqrt(n) < 6, f"wage shocks have mean {z.mean():.4f} sd")
            rep.check(abs(z.var() - 1) * np.sqrt(n / 2) < 6.5, f"wage shocks have variance {z.var():.4f} instead of 1")
            rep.check(stats.kstest(z, "norm").pvalue > 1e-9, "wage shocks are not normal")
            tail = np.abs(z) > (3.0 if n > 50000 else 0.0)
            rep.check(len(np.unique(np.round(np.abs(z[tail]), 9))) >= tail.sum() - 2, "wage shocks repeat across agents or periods")
            for k in (1.0, 2.0, 2.5, 3.0, 3.5, 4.0):
                for side, got in (("above", int((z > k).sum())), ("below", int((z < -k).sum()))):
                    p = stats.binomtest(got, n, stats.norm.sf(k)).pvalue
                    rep.check(p > 1e-10, f"{got} of {n} wage shocks lie {k} standard deviations {side} the mean instead of about {n * stats.norm.sf(k):.1f}")
            for nm in ("educ", "type", "partner", "age", "stock", "t"):
                v = getattr(tr, nm)[work].astype(float)
                if v.std() > 0:
                    r = np.corrcoef(z, v)[0, 1]
                    rep.check(abs(r) * np.sqrt(n) < 6, f"wage shocks correlate with {nm}: {r:.3f}")
            for t in np.unique(tr.t):
                m = tr.t[work] == t
                k = int(m.sum())
                if k > 100:
                    rep.check(abs(z[m].mean()) * np.sqrt(k) < 6.5, f"mean wage shock in period {t} is {z[m].mean():.3f}")
                    rep.check(abs(z[m].var() - 1) * np.sqrt(k / 2) < 7.5, f"variance of wage shocks in period {t} is {z[m].var():.3f}")
            full = np.full(tr.n, np.nan)
            full[work] = z
            a, b = tr.i0, tr.i1
            ok = np.isfinite(full[a]) & np.isfinite(full[b])
            if ok.sum() > 100:
                r = np.corrcoef(full[a][ok], full[b][ok])[0, 1]
                rep.check(abs(r) * np.sqrt(ok.sum()) < 6, f"wage shocks are serially correlated: {r:.3f}")
