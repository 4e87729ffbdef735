import numpy as np

from mon import api
from mon.insitu import watch
from mon.ref import Ref, Y
from mon.world import make_world

RULE = "distinct (schedule, implementation, income region) cells evaluated"
EVAL = "evaluations"
NEED = {"evaluations": 20000, "net_incomes_in_panels": 3000, "solved_values": 200}


def cases(tier, seed):
    return [{"s": seed * 1009 + i} for i in range(16 if tier == "quick" else 240)]


def run(case, rep):
    import jax
    from soepy.pre_processing.tax_and_transfers_params import create_tax_parameters
    from soepy.shared import tax_and_transfers as tnp
    from soepy.shared import tax_and_transfers_jax as tjx

    rng = np.random.default_rng(case["s"])
    ref = Ref(make_world(case["s"], agents=3))
    par = np.asarray(api.call(create_tax_parameters))
    kinks = np.array([7664.0, 12739.0, 52151.0, 250000.0]) / Y
    y = np.concatenate([
        rng.uniform(0, 2000, 700), rng.uniform(0, 12000, 200), kinks, kinks * (1 - 1e-9), kinks * (1 + 1e-9),
        np.nextafter(kinks, 0), np.nextafter(kinks, 1e9), [0.0, 1e-12, 1.0, 1e5, 1e6],
        rng.uniform(-500, 0, 30),
    ])
    y = np.unique(y)
    want = ref.tax(y)
    impl = {
        "plain": np.array([float(api.call(tnp.calculate_inc_tax, par, float(v))) for v in y]),
        "vectorised": np.asarray(api.call(jax.vmap(lambda v: tjx.calculate_inc_tax(jax.numpy.asarray(par), v)), y)),
    }
    for nm, t in impl.items():
        bad = np.where(np.abs(t - want) > 1e-8 + 1e-9 * np.abs(want))[0]
        rep.check(len(bad) == 0, f"{nm} income tax differs at weekly income {y[bad[0]] if len(bad) else ''}: {t[bad[0]] if len(bad) else ''} want {want[bad[0]] if len(bad) else ''}")
        rep.check(np.all(t[y <= kinks[0]] == 0), f"{nm}: tax below the allowance")
        rep.check(np.all(t >= 0), f"{nm}: negative tax")
        dy, dt = np.diff(y), np.diff(t)
        slope = dt / dy
        ok = dy > 1e-6
        rep.check(np.all(dt >= -1e-9), f"{nm}: tax falls with income")
        rep.check(np.all(slope[ok] <= 0.45 + 1e-6), f"{nm}: marginal rate {slope[ok].max()} above the top rate")
        s = slope[ok & (dy > 1e-3)]
        rep.check(np.all(np.diff(s) >= -1e-5), f"{nm}: marginal rate falls with income")
        rep.check(np.all(np.abs(dt[dy < 1e-6]) < 1e-5), f"{nm}: tax jumps at a bracket")
        rep.ev("evaluations", len(y))
        for k in np.unique(np.searchsorted(kinks, y)):
            rep.seen("tax", nm, int(k))
    # contributions: proportional up to the cap
    rate, cap = ref.ssc_rate, ref.ssc_cap
    ded = np.array([rate, cap])
    g = np.unique(np.concatenate([rng.uniform(0, 3 * cap, 300), [0, cap, cap * (1 - 1e-9), cap * (1 + 1e-9), 1e6]]))
    want = ref.ssc(g)
    for nm, got in (
        ("plain", np.array([float(api.call(tnp.calculate_ssc_deductions, ded, float(v))) for v in g])),
        ("vectorised", np.asarray(api.call(tjx.calculate_ssc_deductions, ded, g))),
    ):
        rep.check(np.allclose(got, want, rtol=1e-10, atol=1e-10), f"{nm} social security contributions differ")
        rep.check(np.all(np.diff(got) >= -1e-12) and np.all(got <= rate * cap + 1e-9), f"{nm}: contributions fall with income or exceed their cap")
        rep.ev("evaluations", len(g))
        rep.seen("ssc", nm)
    # net income of a single earner
    want = ref.net(g, np.zeros_like(g))
    for nm, got in (
        ("plain", np.array([float(api.call(tnp.calculate_net_income, par, ded, float(v), 0.0)) for v in g])),
        ("vectorised", np.asarray(api.call(tjx.calculate_net_income, jax.numpy.asarray(par), ded, g, np.zeros_like(g)))),
    ):
        rep.check(np.allclose(got, want, rtol=1e-9, atol=1e-8), f"{nm} net income of singles differs")
        rep.check(np.all(np.diff(got) >= -1e-9), f"{nm}: net income of a single falls with gross income")
        rep.check(np.all(got <= g + 1e-9) and np.all(got >= 0), f"{nm}: net income above gross or negative")
        rep.ev("evaluations", len(g))
        rep.seen("net", nm)
    # the model uses the same schedule: parameters survive specification reading
    w = make_world(case["s"], agents=3).write()
    df, _ = api.call(api.read_model_params_init, w.params)
    spec = api.call(api.read_model_spec_init, w.spec, df)
    rep.check(np.allclose(np.asarray(spec.tax_params), par), "the model's tax parameters are not the statutory ones")
    rep.check(np.allclose(np.asarray(spec.ssc_deductions), ded), "the model's contribution rate or cap differ from the specification")
    w.cleanup()
    rep.sample = {"incomes": len(y), "ssc_rate": rate, "ssc_cap_weekly": cap}
    if case["i"] % 2 == 0 or rep.viol:
        watch(dict(case, i=case["i"] // 2), rep, False)
