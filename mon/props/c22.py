import numpy as np
import pandas as pd

from mon import api
from mon.common import mk, world
from mon.ref import Ref

RULE = "distinct (relabelling, regime, types) transformations whose results were compared"
EVAL = "comparisons"
NEED = {"comparisons": 20, "rows_compared": 4000}
KINDS = ["shuffle", "types", "single_type", "education", "shuffle"]
MIX = [
    {"agents": 400, "n_types": 3, "educ_years": [0, 0, 0], "T": 4, "init_exp_max": 3, "child_age_max": 5, "child_age_init_max": 3},
    {"agents": 400, "n_types": 4, "T": 4, "educ_years": [0, 0, 0]},
    {"agents": 400, "n_types": 3, "educ_years": [0, 0, 0], "T": 5},
    {"agents": 5, "n_types": 2, "partner_cf_educ": 0.0, "T": 4},
    {"agents": 300, "n_types": 12, "T": 3, "educ_years": [0, 1, 0], "child_age_max": 4},
]


def cases(tier, seed):
    return mk(tier, seed, MIX, 20, 240)


def frames_equal(a, b, tol=1e-9):
    if list(a.columns) != list(b.columns) or len(a) != len(b):
        return f"shape or columns differ: {a.shape} {b.shape}"
    for c in a.columns:
        x, y = a[c].to_numpy().astype(float), b[c].to_numpy().astype(float)
        ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= tol * (1 + np.abs(x)))
        if not ok.all():
            i = int(np.where(~ok)[0][0])
            return f"column {c}: {int((~ok).sum())} rows differ, row {i}: {x[i]} vs {y[i]}"
    return None


def shuffled(d, rng):
    keys = list(d)
    rng.shuffle(keys)
    return {k: shuffled(d[k], rng) if isinstance(d[k], dict) else d[k] for k in keys}


def run(case, rep):
    kind = KINDS[case["m"]]
    rng = np.random.default_rng(case["s"])
    with world(case) as w:
        ref = Ref(w)
        rep.sample = dict(w.describe(), kind=kind)
        rep.ev("comparisons")
        rep.seen(kind, ref.regime, ref.nt)
        if kind == "shuffle":
            base = api.sim(w)
            w2 = w.copy()
            w2.params = w2.params.iloc[rng.permutation(len(w2.params))]
            for k in w2.tables:
                w2.tables[k] = w2.tables[k].iloc[rng.permutation(len(w2.tables[k]))]
            w2.spec = shuffled(w2.spec, rng)
            w2.write()
            msg = frames_equal(base, api.sim(w2))
            rep.check(msg is None, f"reordering rows of the inputs changes the panel: {msg}")
            rep.ev("rows_compared", len(base))
            w2.cleanup()
            # thetas really belong to the agents labelled with their type
            from mon.trace import Trace, mon_nonc

            tr = Trace(base)
            if not tr.missing:
                mon_nonc(w, ref, tr, rep)
        elif kind == "types":
            a = api.solve(w)
            perm = np.concatenate([[0], 1 + rng.permutation(ref.nt - 1)])
            w2 = w.copy()
            for new in range(1, ref.nt):
                old = int(perm[new])
                for nm in ("theta_p", "theta_f", "share_"):
                    w2.setp(f"{nm}{new}", w.p(f"{nm}{old}"))
            w2.write()
            b = api.solve(w2)
            key = {tuple(r): i for i, r in enumerate(np.asarray(a.states).tolist())}
            st = np.asarray(b.states).copy()
            st[:, 3] = perm[st[:, 3]]
            idx = np.array([key[tuple(r)] for r in st.tolist()])
            rep.check(np.allclose(b.emax, a.emax[idx], rtol=1e-10, atol=1e-12), "renumbering types changes the solution beyond renumbering")
            df = api.sim(w2)
            f = df.groupby("Identifier").first()
            from mon.trace import binom_bad

            r2 = Ref(w2)
            for ty in range(ref.nt):
                k = int((f["Type"] == ty).sum())
                rep.check(not binom_bad(k, len(f), float(r2.type_shares[ty])), f"type {ty}: {k} of {len(f)} agents, share {r2.type_shares[ty]}")
            rep.ev("rows_compared", len(df))
            w2.cleanup()
        elif kind == "single_type":
            ty = int(rng.integers(1, ref.nt))
            w1 = w.copy()
            for i in range(1, ref.nt):
                w1.setp(f"share_{i}", 1.0 if i == ty else 0.0)
            w1.write()
            a = api.sim(w1)
            rep.check((a["Type"] == ty).all(), "agents of a type with share zero appear")
            w2 = w.copy()
            keep = ~w2.params.index.get_level_values(0).isin(["shares", "hetrg_unobs"])
            w2.params = w2.params[keep]
            tp, tf = w.p(f"theta_p{ty}"), w.p(f"theta_f{ty}")
            for k in ("no", "yes"):
                for e in ("low", "middle", "high"):
                    w2.setp(f"{k}_kids_f_educ_{e}", w.p(f"{k}_kids_f_educ_{e}") + tf)
                    w2.setp(f"{k}_kids_p_educ_{e}", w.p(f"{k}_kids_p_educ_{e}") + tp - tf)
            w2.write()
            b = api.sim(w2)
            msg = frames_equal(a.drop(columns="Type"), b.drop(columns="Type"), 1e-8)
            rep.check(msg is None, f"a population of one type differs from a one-type model with that type's tastes: {msg}")
            rep.ev("rows_compared", len(a))
            w1.cleanup()
            w2.cleanup()
        else:
            a = api.solve(w)
            perm = rng.permutation(3)
            names = ["low", "middle", "high"]
            w2 = w.copy()
            for new in range(3):
                for stem in ("gamma_0_", "gamma_1_", "gamma_p_", "no_kids_f_educ_", "no_kids_p_educ_", "yes_kids_f_educ_", "yes_kids_p_educ_"):
                    w2.setp(stem + names[new], w.p(stem + names[perm[new]]))
            for t in ("child", "arrival", "separation"):
                df = w2.tables[t]
                v = w.tables[t].iloc[:, 0].to_numpy().reshape(ref.T, 3)
                w2.tables[t] = pd.DataFrame(v[:, perm].ravel(), index=df.index, columns=df.columns)
            w2.write()
            b = api.solve(w2)
            key = {tuple(r): i for i, r in enumerate(np.asarray(a.states).tolist())}
            st = np.asarray(b.states).copy()
            st[:, 1] = perm[st[:, 1]]
            idx = np.array([key[tuple(r)] for r in st.tolist()])
            rep.check(np.allclose(b.emax, a.emax[idx], rtol=1e-10, atol=1e-12), "renumbering education levels changes the solution beyond renumbering")
            w2.cleanup()
