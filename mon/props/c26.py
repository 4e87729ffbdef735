import numpy as np

from mon import api
from mon.common import mk, world
from mon.props.c22 import frames_equal

RULE = "distinct (what changed since the previous call, position in the call history) steps of a reused simulation function"
EVAL = "calls_compared"
NEED = {"calls_compared": 30, "parameter_steps": 70, "steps_that_changed_the_panel": 40}
MIX = [
    {"agents": 200, "T": 4, "n_types": 2, "child_age_max": 5},
    {"agents": 200, "T": 3, "n_types": 1, "regime": "erziehungsgeld"},
    {"agents": 150, "T": 4, "n_types": 3, "child_age_max": 4, "method": "monte_carlo"},
]
SINGLE = [
    {"single": True, "agents": 150, "T": 3, "n_types": 2, "child_age_max": 4, "educ_years": [0, 0, 0], "n_grid": 4},
    {"single": True, "agents": 150, "T": 3, "n_types": 1, "child_age_max": 6, "regime": "erziehungsgeld", "educ_years": [0, 0, 1], "n_grid": 4},
]


def cases(tier, seed):
    n = 8 if tier == "quick" else 80
    return mk(tier, seed, MIX, 8, 120) + mk(tier, seed + 400, SINGLE, n, n)


def step(w, rng, what):
    if what == "seed":
        w.set("seed_sim", int(rng.integers(1, 10**6)))
    elif what == "agents":
        w.set("num_agents_sim", int(rng.integers(20, 400)))
    elif what == "tastes":
        for nm in ("no_kids_f_educ_low", "yes_kids_p_educ_middle", "child_0_2_f"):
            w.setp(nm, w.p(nm) + float(rng.uniform(-0.3, 0.3)))
    elif what == "wages":
        for e in ("low", "middle", "high"):
            w.setp(f"gamma_0_{e}", w.p(f"gamma_0_{e}") + float(rng.uniform(-0.3, 0.3)))
            w.setp(f"gamma_1_{e}", abs(w.p(f"gamma_1_{e}") + float(rng.uniform(-0.1, 0.1))))
        w.setp("sigma", float(rng.uniform(0.05, 0.9)))
    elif what == "experience":
        for e in ("low", "middle", "high"):
            w.setp(f"gamma_p_{e}", float(rng.uniform(0, 0.8)))
    elif what == "preferences":
        w.setp("mu", float(rng.uniform(-0.8, -0.2)))
        w.setp("delta", float(rng.uniform(0.7, 0.98)))
    elif what == "shares":
        nt = w.n_types()
        if nt > 1:
            p = rng.dirichlet(np.ones(nt))
            for i in range(1, nt):
                w.setp(f"share_{i}", float(p[i]))
    elif what == "types":
        for i in range(1, w.n_types()):
            w.setp(f"theta_f{i}", float(rng.uniform(-0.8, 0.5)))
            w.setp(f"theta_p{i}", float(rng.uniform(-0.8, 0.5)))


def one(w, nm, by):
    """One parameter moves, everything else stays."""
    v = w.p(nm)
    w.setp(nm, v * (1 - by) if v else by)


def reused(w, case, rep, rng):
    """Parameters one at a time, by steps as small as those of numerical derivatives, then back."""
    sparse = False
    f = api.call(api.get_simulate_func, w.params.copy(), w.copy().spec, biased_exp=bool(case["i"] % 2), data_sparse=sparse)
    start = w.params.copy()
    names = [str(n) for n in w.params.index.get_level_values(-1)]
    rep.sample = dict(w.describe(), parameters=len(names))
    last = api.call(f, w.params, w.spec).reset_index()
    pick = list(rng.permutation(names)[:9]) + ["*"]
    for k, nm in enumerate(pick):
        by = [1e-2, 1e-5, 3e-9][(k + case["i"]) % 3] if nm != "*" else 2e-9
        w.params = start.copy() if k % 2 else w.params.copy()
        for x in names if nm == "*" else [nm]:
            one(w, x, by)
        got = api.call(f, w.params, w.spec).reset_index()
        want = api.sim(w, biased=bool(case["i"] % 2), sparse=sparse, raw=True).reset_index()
        msg = frames_equal(want, got, 1e-12)
        rep.check(msg is None, f"after {nm if nm != '*' else 'every parameter'} moved by a factor of {by}, a reused simulation function (call {k + 2}) differs from a fresh simulation: {msg}")
        rep.ev("calls_compared")
        rep.ev("parameter_steps")
        rep.ev("steps_that_changed_the_panel", int(frames_equal(last, want, 1e-13) is not None))
        rep.seen("parameter", nm)
        last = want


STEPS = ["seed", "agents", "tastes", "wages", "experience", "preferences", "shares", "types", "nothing", "back"]


def run(case, rep):
    rng = np.random.default_rng(case["s"])
    with world(case) as w:
        if case["o"].get("single"):
            reused(w, case, rep, rng)
            return
        biased, sparse = bool(rng.integers(2)), bool(rng.integers(2))
        rep.sample = dict(w.describe(), biased=biased, sparse=sparse)
        start = w.copy()
        f = api.call(api.get_simulate_func, w.params.copy(), w.copy().spec, biased_exp=biased, data_sparse=sparse)
        hist = ["nothing"] + list(rng.permutation(STEPS)[:4]) + ["back"]
        rep.sample["history"] = [str(h) for h in hist]
        for k, what in enumerate(hist):
            if what == "back":
                w.params = start.params.copy()
                for key in ("seed_sim", "num_agents_sim"):
                    w.set(key, start.get(key))
            else:
                step(w, rng, what)
            got = api.call(f, w.params, w.spec)
            keep = got.copy(deep=True)
            want = api.sim(w, biased=biased, sparse=sparse, raw=True)
            msg = frames_equal(want.reset_index(), got.reset_index(), 1e-9)
            rep.check(msg is None, f"call {k} of a reused simulation function (history {hist[:k + 1]}) differs from a fresh simulation: {msg}")
            rep.ev("calls_compared")
            rep.seen(what, k, biased, sparse)
            # results already handed out stay as they were, whatever the caller does to new ones
            for c in got.columns:
                got[c] = got[c] * 0 - 7
            if (k + case["i"]) % 3:
                continue
            again = api.call(f, w.params, w.spec)
            msg = frames_equal(keep.reset_index(), again.reset_index(), 0.0)
            rep.check(msg is None, f"repeating a call after the caller changed its panel gives another result: {msg}")
