import numpy as np

from mon import api
from mon.common import mk, twisted, world
from mon.ref import Ref

RULE = "distinct (regime, reform) pairs whose effect on every state's value was signed"
EVAL = "ordered_pairs"
NEED = {"ordered_pairs": 100000, "reform_moved_values": 35}
MIX = [
    {"agents": 3, "regime": "elterngeld", "T": 4, "child_age_max": 6, "n_types": 2},
    {"agents": 3, "regime": "erziehungsgeld", "T": 4, "child_age_max": 5, "n_types": 1},
    {"agents": 3, "regime": "elterngeld", "T": 3, "n_types": 2, "splitting": False},
    # wages so high or low that every bound and threshold is passed by someone
    {"agents": 3, "regime": "elterngeld", "T": 3, "gamma_0_range": (3.2, 5.6), "child_age_max": 4, "n_types": 1},
    {"agents": 3, "regime": "erziehungsgeld", "T": 3, "gamma_0_range": (2.6, 5.0), "child_age_max": 4, "n_types": 1, "partner_cf_const": 4.2},
    {"agents": 3, "regime": "elterngeld", "T": 3, "gamma_0_range": (-0.5, 1.2), "child_age_max": 4, "n_types": 1},
]


def cases(tier, seed):
    cs = mk(tier, seed, MIX, 24, 240) + twisted(tier, seed, 24, 17, ("leave", "alg1", "welfare", "allowance", "care", "ssc"), base={"agents": 3, "T": 3, "child_age_max": 4, "n_types": 1}, skip=("mu", "delta", "wage", "increment"))
    for i, c in enumerate(cs):
        c["r"] = i
    return cs


def add(key, d):
    return lambda w: w.set(key, w.get(key) + d)


def par(names, d):
    def f(w):
        for n in names:
            w.setp(n, w.p(n) + d)
    return f


def costs(which, d):
    def f(w):
        c = {k: list(v) for k, v in w.get("child_care_costs").items()}
        c[which] = [x + d for x in c[which]]
        w.set("child_care_costs", c)
    return f


E3 = ("low", "middle", "high")
BOTH, ELT, ERZ = ("elterngeld", "erziehungsgeld"), ("elterngeld",), ("erziehungsgeld",)
# name, sign of the effect on values, regimes in which the sign is certain, change
REFORMS = [
    ("wage constant", 1, ELT, par([f"gamma_0_{e}" for e in E3], 0.2)),
    ("experience return", 1, ELT, par([f"gamma_1_{e}" for e in E3], 0.1)),
    ("wage scale", 1, ELT, lambda w: w.set("elasticity_scale", 1.6 * w.spec["SIMULATION"].get("elasticity_scale", 1))),
    ("contribution rate", -1, BOTH, add("ssc_rate", 0.05)),
    ("contribution cap", -1, BOTH, add("ssc_cap", 20000.0)),
    ("child care under 3", -1, BOTH, costs("under_3", 60.0)),
    ("child care 3 to 6", -1, BOTH, costs("3_to_6", 60.0)),
    ("child benefits", 1, ELT, add("child_benefits", 25.0)),
    ("welfare rate", 1, ELT, add("regelsatz_single", 30.0)),
    ("welfare child", 1, ELT, add("regelsatz_child", 30.0)),
    ("welfare housing", 1, ELT, add("housing_single", 30.0)),
    ("welfare housing addition", 1, ELT, add("housing_addtion", 30.0)),
    ("welfare single mother", 1, ELT, add("addition_child_single", 30.0)),
    ("unemployment benefit childless", 1, ELT, add("alg1_replacement_no_child", 0.2)),
    ("unemployment benefit mothers", 1, ELT, add("alg1_replacement_child", 0.2)),
    ("parental benefit rate", 1, ELT, add("elterngeld_replacement", 0.2)),
    ("parental benefit minimum", 1, ELT, add("elterngeld_min", 300.0)),
    ("parental benefit maximum", 1, ELT, add("elterngeld_max", 800.0)),
    ("child-raising allowance", 1, ERZ, add("erziehungsgeld", 200.0)),
    ("allowance threshold single", 1, ERZ, add("erziehungsgeld_income_threshold_single", 15000.0)),
    ("allowance threshold married", 1, ERZ, add("erziehungsgeld_income_threshold_married", 25000.0)),
    ("partner earnings", 1, ELT, add("partner_cf_const", 0.2)),
    ("disutility of work", -1, BOTH, par([f"{k}_kids_f_educ_{e}" for k in ("no", "yes") for e in E3], 0.2)),
    ("disutility of small children", -1, BOTH, par(["child_0_2_f", "child_3_5_f", "child_6_10_f"], 0.2)),
    ("discount factor", -1, BOTH, lambda w: w.setp("delta", min(w.p("delta") + 0.05, 0.999))),
]


def run(case, rep):
    with world(case) as w:
        ref = Ref(w)
        biased = case["s"] % 2 == 0
        s = api.solve(w, biased)
        v = s.emax[:, :, 3]
        tol = 1e-9 + 1e-9 * np.abs(v)
        rep.check(np.isfinite(s.emax).all(), "non-finite values")
        rep.check(np.all(v < 0), "values are not negative although every period's utility is")
        p, e, lag, ty, age, par_ = np.asarray(s.states).T
        # never worse than not working this period
        inc = ref.pt_inc(e, age, biased)
        lw = ref.g0[e][:, None] + ref.g1[e][:, None] * np.log(ref.grid[None] * ref.max_years(p, inc)[:, None] + 1) + np.log(ref.scale)
        mw = ref.male(p, e, par_)[:, None] * np.ones_like(lw)
        col = lambda x: np.repeat(x[:, None], len(ref.grid), 1)  # noqa: E731
        r0 = ref.res_nonemp(col(lag), col(age), col(par_), lw, mw)
        lower = ref.utility(r0, ref.equiv(age, par_)[:, None], 1.0) + ref.delta * s.emax[:, :, 0]
        rep.check(np.all(v >= lower - tol), f"value below the value of not working in {int((v < lower - tol).sum())} cases")
        rep.ev("ordered_pairs", v.size)
        # the final period has no future
        rep.check(np.all(s.emax[p == ref.T - 1, :, :3] == 0), "final-period states have continuation values")
        if ref.regime == "elterngeld":
            d = np.diff(v, axis=1)
            bad = d < -1e-9 - 1e-9 * np.abs(v[:, 1:])
            rep.check(not bad.any(), f"value falls with experience at {int(bad.sum())} points, e.g. state {s.states[np.argwhere(bad)[0][0]].tolist() if bad.any() else ''}")
            rep.ev("ordered_pairs", d.size)
            rep.seen(ref.regime, "experience")
        todo = [r for r in REFORMS if ref.regime in r[2]]
        k = case["r"] // len(MIX)
        if w.spec["TAXES_TRANSFERS"]["tax_splitting"] is False:
            todo = todo + [("income splitting", 1, BOTH if ref.regime == "elterngeld" else (), lambda x: x.set("tax_splitting", True))]
        picks = [todo[(k * 5 + 7 * case["m"] + j) % len(todo)] for j in range(5)]
        for name, sign, _, change in picks:
            w2 = w.copy().write()
            change(w2)
            s2 = api.solve(w2, biased)
            diff = sign * (s2.emax[:, :, 3] - v)
            bad = diff < -tol
            i = np.argwhere(bad)
            rep.check(not bad.any(), f"reform '{name}' moves {int(bad.sum())} values the wrong way (regime {ref.regime}); e.g. state {s.states[i[0][0]].tolist() if len(i) else ''} stock {ref.grid[i[0][1]] if len(i) else ''}: {v[tuple(i[0])] if len(i) else ''} -> {s2.emax[:, :, 3][tuple(i[0])] if len(i) else ''}")
            rep.ev("ordered_pairs", v.size)
            rep.ev("reform_moved_values", int((diff > tol).any()))
            rep.seen(ref.regime, name)
            w2.cleanup()
        rep.sample = dict(w.describe(), reforms=[r[0] for r in picks])
