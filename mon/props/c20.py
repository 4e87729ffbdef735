import numpy as np

from mon import api
from mon.insitu import watch
from mon.ref import Ref
from mon.world import make_world

RULE = "distinct (implementation, splitting, her bracket, his bracket) couples evaluated"
EVAL = "evaluations"
NEED = {"evaluations": 20000, "net_incomes_in_panels": 3000, "solved_values": 200}


def cases(tier, seed):
    return [{"s": seed * 2003 + i} for i in range(16 if tier == "quick" else 240)]


def run(case, rep):
    import jax
    import jax.numpy as jnp
    from soepy.pre_processing.tax_and_transfers_params import create_tax_parameters
    from soepy.shared import tax_and_transfers as tnp
    from soepy.shared import tax_and_transfers_jax as tjx

    rng = np.random.default_rng(case["s"])
    ref = Ref(make_world(case["s"], agents=3))
    par = np.asarray(api.call(create_tax_parameters))
    ded = np.array([ref.ssc_rate, ref.ssc_cap])
    n = 900
    f = np.where(rng.random(n) < 0.15, 0.0, rng.uniform(0, 1, n) ** 2 * 6000)
    m = np.where(rng.random(n) < 0.2, 0.0, rng.uniform(0, 1, n) ** 2 * 6000)
    eqi = rng.random(n) < 0.1
    m[eqi] = f[eqi]
    out = {}
    for split in (True, False):
        ref.split = split
        want = ref.net(f, m)
        got = {
            "plain": np.array([float(api.call(tnp.calculate_net_income, par, ded, float(a), float(b), split)) for a, b in zip(f, m)]),
            "vectorised": np.asarray(api.call(tjx.calculate_net_income, jnp.asarray(par), jnp.asarray(ded), jnp.asarray(f), jnp.asarray(m), split)),
            "mapped": np.asarray(api.call(jax.vmap(lambda a, b: tjx.calculate_net_income(jnp.asarray(par), jnp.asarray(ded), a, b, split)), f, m)),
        }
        for nm, v in got.items():
            bad = np.where(np.abs(v - want) > 1e-7 + 1e-9 * np.abs(want))[0]
            rep.check(len(bad) == 0, f"{nm} household net income (splitting={split}) differs for her {f[bad[0]] if len(bad) else ''}, him {m[bad[0]] if len(bad) else ''}: {v[bad[0]] if len(bad) else ''} want {want[bad[0]] if len(bad) else ''}")
            out[nm, split] = v
            rep.ev("evaluations", n)
        both = (f > 0) & (m > 0)
        swap = np.asarray(api.call(tjx.calculate_net_income, jnp.asarray(par), jnp.asarray(ded), jnp.asarray(m), jnp.asarray(f), split))
        rep.check(np.allclose(swap[both], got["vectorised"][both], rtol=1e-9), f"net income of a couple depends on who earns what (splitting={split})")
        up = np.asarray(api.call(tjx.calculate_net_income, jnp.asarray(par), jnp.asarray(ded), jnp.asarray(f + 1.0), jnp.asarray(m), split))
        d = up - got["vectorised"]
        rep.check(np.all(d > 0) and np.all(d <= 1 + 1e-9), f"an extra euro of hers changes net income by {d.min()}..{d.max()}")
        up = np.asarray(api.call(tjx.calculate_net_income, jnp.asarray(par), jnp.asarray(ded), jnp.asarray(f), jnp.asarray(m + 1.0), split))
        d = (up - got["vectorised"])[m > 0]
        rep.check(np.all(d > 0) and np.all(d <= 1 + 1e-9), f"an extra euro of his changes net income by {d.min()}..{d.max()}")
        k = np.array([7664.0, 12739.0, 52151.0, 250000.0]) / (12 * 4.3)
        for a, b in set(zip(np.searchsorted(k, f).tolist(), np.searchsorted(k, m).tolist())):
            rep.seen(split, a, b)
    for nm in ("plain", "vectorised", "mapped"):
        s, i = out[nm, True], out[nm, False]
        rep.check(np.all(s >= i - 1e-8), f"{nm}: income splitting raises a couple's tax")
        same = (m == 0) | (f == m)
        rep.check(np.allclose(s[same], i[same], rtol=1e-10), f"{nm}: splitting matters for singles or equal earners")
    rep.sample = {"couples": n, "ssc": ded.tolist()}
    if case["i"] % 2 == 0 or rep.viol:
        watch(dict(case, i=case["i"] // 2), rep, True)
