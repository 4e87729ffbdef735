import numpy as np

from mon import api
from mon.common import mk, world
from mon.ref import Ref

RULE = "distinct (integration method, draws class, regime) integrals compared with dense numerical integration"
EVAL = "integrals"
NEED = {"integrals": 600, "noise_free_values": 2000, "seed_checks": 4}
MIX = [
    {"agents": 3, "T": 1, "child_age_max": 3, "kind": "integral"},
    {"agents": 3, "T": 3, "child_age_max": 2, "kind": "noisefree", "n_types": 1},
    {"agents": 3, "T": 2, "child_age_max": 3, "kind": "seeds", "n_types": 1},
]
# enough draws that a sequence that repeats or is shortened cannot hide
MANY = {"agents": 3, "T": 1, "child_age_max": 0, "child_age_init_max": -1, "kind": "many", "n_types": 1, "n_grid": 2, "educ_years": [0, 0, 0]}


def cases(tier, seed):
    n = 5 if tier == "quick" else 40
    return mk(tier, seed, [MANY], n, n) + mk(tier, seed, MIX, 18, 240)


def solve_with(w, **kw):
    w2 = w.copy().write()
    for k, v in kw.items():
        if k == "sigma":
            w2.setp(k, v)
        else:
            w2.set(k, v)
    s = api.solve(w2, False)
    w2.cleanup()
    return s.emax[:, :, 3], np.asarray(s.states)


def run(case, rep):
    kind = case["o"]["kind"]
    with world(case) as w:
        ref = Ref(w)
        rep.sample = dict(w.describe(), kind=kind)
        if kind in ("integral", "many"):
            # dense integration of the one-period problem
            x = np.linspace(-8, 8, 6401)
            pdf = np.exp(-x**2 / 2)
            pdf /= pdf.sum()
            n_mc = 4000 if kind == "integral" else 300000
            vq, states = solve_with(w, integration_method="quadrature", num_draws_emax=120)
            vm, _ = solve_with(w, integration_method="monte_carlo", num_draws_emax=n_mc)
            p, e, lag, ty, age, par = states.T
            pick = np.random.default_rng(case["s"]).permutation(len(p))[:60]
            for i in pick:
                for g in (0, len(ref.grid) - 1):
                    inc = float(ref.pt_inc(np.array(e[i]), np.array(age[i]), False))
                    lw = float(ref.sys_log_wage(e[i], ref.grid[g], p[i], inc))
                    mw = ref.male(p[i], e[i], par[i])
                    eq, nc = ref.equiv(age[i], par[i]), ref.nonc(e[i], ty[i], age[i])
                    wage = np.exp(lw + ref.sigma * x)
                    u = [ref.utility(np.maximum(ref.res_emp(j, age[i], par[i], wage, mw), 1e-14), eq, nc[j]) for j in (1, 2)]
                    u0 = ref.utility(ref.res_nonemp(lag[i], age[i], par[i], np.array(lw), np.array(float(mw))), eq, nc[0])
                    best = np.maximum(np.maximum(*u), u0)
                    m = float(best @ pdf)
                    sd = float(np.sqrt(max(best**2 @ pdf - m * m, 0)))
                    # a mean over draws of a skewed, bounded-above payoff: allow the worst tail
                    tol = 7 * sd / np.sqrt(n_mc) + 1e-6 * abs(m) + 1e-9 + (4e-3 * np.ptp(best[(x > -4) & (x < 4)]) * (4000 / n_mc) ** 0.75)
                    rep.check(abs(vm[i, g] - m) < tol, f"Monte Carlo value {vm[i, g]} but expectation {m} (sd {sd}, state {states[i].tolist()})")
                    # a jump in the payoff (a tax threshold) may fall anywhere between two nodes
                    jump = np.abs(np.diff(best)).max()
                    rep.check(abs(vq[i, g] - m) < 1e-6 + 0.03 * sd + 0.1 * jump, f"quadrature value {vq[i, g]} but expectation {m} (sd {sd}, state {states[i].tolist()})")
                    rep.ev("integrals", 2)
            rep.seen(kind, ref.regime)
        elif kind == "noisefree":
            base, _ = solve_with(w, sigma=1e-12, integration_method="quadrature", num_draws_emax=5)
            for method, n, sd in (("quadrature", 1, 3), ("quadrature", 12, 3), ("monte_carlo", 7, 5), ("monte_carlo", 40, 99)):
                v, _ = solve_with(w, sigma=1e-12, integration_method=method, num_draws_emax=n, seed_emax=sd)
                ok = np.allclose(v, base, rtol=1e-8, atol=1e-10)
                rep.check(ok, f"without wage risk {method} with {n} draws changes values by {np.abs(v - base).max()}")
                rep.ev("noise_free_values", v.size)
                rep.seen(method, n, ref.regime)
            one, _ = solve_with(w, integration_method="quadrature", num_draws_emax=1)
            rep.check(np.allclose(one, base, rtol=1e-8, atol=1e-10), "one quadrature node is not the mean shock")
        else:
            a, _ = solve_with(w, integration_method="monte_carlo", num_draws_emax=9, seed_emax=11, sigma=0.5)
            np.random.seed(5)
            b, _ = solve_with(w, integration_method="monte_carlo", num_draws_emax=9, seed_emax=11, sigma=0.5, seed_sim=4711)
            c, _ = solve_with(w, integration_method="monte_carlo", num_draws_emax=9, seed_emax=12, sigma=0.5)
            rep.check(np.array_equal(a, b), "same solution seed, different solution")
            rep.check(not np.allclose(a, c, rtol=1e-12), "the solution seed has no effect")
            q1, _ = solve_with(w, integration_method="quadrature", num_draws_emax=9, seed_emax=11, sigma=0.5)
            q2, _ = solve_with(w, integration_method="quadrature", num_draws_emax=9, seed_emax=12, sigma=0.5)
            rep.check(np.array_equal(q1, q2), "quadrature depends on a seed")
            rep.ev("seed_checks", 4)
            rep.seen("seeds", ref.regime)
