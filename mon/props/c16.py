import itertools

import numpy as np

from mon import api
from mon.common import BIG, mk, twisted, world
from mon.ref import Ref

RULE = "distinct (horizon, types, maximum child age) state spaces fully enumerated"
EVAL = "states"
NEED = {"states": 50000, "transitions": 300000}
MIX = [{"agents": 3}, {"agents": 3, "T": 1}, {"agents": 3, "child_age_max": 0, "child_age_init_max": -1}, {"agents": 3, "child_age_max": 18, "T": 3}, {"agents": 3, "T": 10, "n_types": 1}, {"agents": 3, "n_types": 5, "T": 3}, {"agents": 3, "child_age_max": 1, "child_age_init_max": 0}]


def cases(tier, seed):
    n = 2 if tier == "quick" else 8
    return mk(tier, seed, [dict(BIG, agents=3), dict(BIG, agents=3, T=24, n_types=5, child_age_max=31)], n, n) + mk(tier, seed, MIX, 63, 500) + twisted(tier, seed, 28, 16, ("ages", "horizon", "types"), base={"agents": 3})


def run(case, rep):
    with world(case) as w:
        ref = Ref(w)

        def build():
            df, _ = api.read_model_params_init(w.params)
            return api.create_state_space_objects(api.read_model_spec_init(w.spec, df))

        states, indexer, cov, rule, kids = (np.asarray(x) for x in api.call(build))
        n = len(states)
        want = ref.T * 3 * 3 * ref.nt * (ref.cmax + 2) * 2
        rep.check(states.shape == (want, 6), f"state space has shape {states.shape}, expected {want} states")
        rows = [tuple(r) for r in states.tolist()]
        full = set(itertools.product(range(ref.T), range(3), range(3), range(ref.nt), range(-1, ref.cmax + 1), range(2)))
        rep.check(set(rows) == full and len(set(rows)) == n, "states are not the full product of their components, each exactly once")
        row_of = {r: i for i, r in enumerate(rows)}
        na = ref.cmax + 2
        p, e, lag, ty, age, par = states.T
        rep.check(np.all(np.diff(p) >= 0), "states are not ordered by period")
        ix = indexer[p, e, lag, ty, np.where(age == -1, na - 1, age), par]
        rep.check(np.array_equal(ix, np.arange(n)), "index does not return a state's own row")
        rep.check(indexer.size == n and len(np.unique(indexer)) == n, "index is not one-to-one")
        aged = np.where(age == -1, -1, np.where(age + 1 > ref.cmax, -1, age + 1))
        rep.check(np.array_equal(rule, aged), "child age update rule")
        term = p == ref.T - 1
        rep.check(kids.shape == (n, 3, 2, 2), f"transition array shape {kids.shape}")
        if kids.shape == (n, 3, 2, 2):
            rep.check(np.all((kids[term] < 0) | (kids[term] >= n)), "final-period states have successors")
            live = np.where(~term)[0]
            for c in range(3):
                for k in range(2):
                    for q in range(2):
                        nxt = kids[live, c, k, q]
                        if not rep.check(np.all((nxt >= 0) & (nxt < n)), f"missing successors for choice {c}, birth {k}, partner {q}"):
                            continue
                        got = states[nxt]
                        exp = np.column_stack([p[live] + 1, e[live], np.full(len(live), c), ty[live], np.zeros(len(live), int) if k else aged[live], np.full(len(live), q)])
                        bad = np.where((got != exp).any(axis=1))[0]
                        rep.check(len(bad) == 0, f"{len(bad)} wrong successors for choice {c}, birth {k}, partner {q}; e.g. {rows[live[bad[0]]] if len(bad) else ''} -> {got[bad[0]].tolist() if len(bad) else ''}")
                        rep.ev("transitions", len(live))
        rep.check(np.allclose(cov[:, 1], ref.male(p, e, par), rtol=1e-10), "partner earnings attached to states")
        rep.check(np.allclose(cov[:, 2], ref.equiv(age, par)), "equivalence scale attached to states")
        rep.check(np.allclose(cov[:, 3], ref.child_ben(age)), "child benefits attached to states")
        bins = np.digitize(age, [0, 3, 6, 11])
        pairs = set(zip(bins.tolist(), cov[:, 0].astype(int).tolist()))
        rep.check(all(len({y for x, y in pairs if x == b}) == 1 for b in {x for x, _ in pairs}), "one child age bin maps to several codes")
        mid = {x: y for x, y in pairs}
        kidbins = [mid[b] for b in (1, 2, 3) if b in mid]
        rep.check(len(set(kidbins)) == len(kidbins) and not set(kidbins) & {mid[b] for b in (0, 4) if b in mid}, "child age bins 0-2, 3-5, 6-10 are not told apart")
        rep.ev("states", n)
        rep.seen(ref.T, ref.nt, ref.cmax)
        rep.sample = dict(w.describe(), states=n)
