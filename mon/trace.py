"""Online/offline monitors over simulated panels.

`Trace` turns a panel into arrays and adjacent-row transitions.  Each `mon_*` function
is the specification of one property over such a trace; it reports to a Report.
Known defects that cannot be repaired without changing the regression vault are
reported through rep.finding(key, ...), everything else through rep.bad(...).
"""
import numpy as np
from scipy import stats

EPS = np.finfo(float).eps
FULL_COLS = [
    "Identifier", "Period", "Education_Level", "Lagged_Choice", "Experience_Part_Time",
    "Experience_Full_Time", "Experience_Stock", "Type", "Age_Youngest_Child",
    "Partner_Indicator", "Choice", "Wage_Observed",
]
VALUE_COLS = ["Male_Wages"] + [
    f"{k}_{c}"
    for c in "NPF"
    for k in ("Non_Consumption_Utility", "Flow_Utility", "Continuation_Value", "Value_Function")
]


class Trace:
    def __init__(self, df, sparse=False):
        need = FULL_COLS + ([] if sparse else VALUE_COLS)
        missing = [c for c in need if c not in df.columns]
        self.missing = missing
        if missing:
            return
        df = df.sort_values(["Identifier", "Period"], kind="stable").reset_index(drop=True)
        self.df = df
        self.n = len(df)
        g = lambda c: df[c].to_numpy()  # noqa: E731
        self.id, self.t = g("Identifier").astype(int), g("Period").astype(int)
        self.educ, self.lag = g("Education_Level").astype(int), g("Lagged_Choice").astype(int)
        self.pt, self.ft = g("Experience_Part_Time").astype(int), g("Experience_Full_Time").astype(int)
        self.stock = g("Experience_Stock").astype(float)
        self.type, self.age = g("Type").astype(int), g("Age_Youngest_Child").astype(int)
        self.partner, self.choice = g("Partner_Indicator").astype(int), g("Choice").astype(int)
        self.wage = g("Wage_Observed").astype(float)
        if not sparse:
            self.male = g("Male_Wages").astype(float)
            st = lambda k: np.column_stack([g(f"{k}_{c}").astype(float) for c in "NPF"])  # noqa: E731
            self.nonc, self.flow = st("Non_Consumption_Utility"), st("Flow_Utility")
            self.cont, self.val = st("Continuation_Value"), st("Value_Function")
        same = (self.id[1:] == self.id[:-1]) & (self.t[1:] == self.t[:-1] + 1)
        self.i0 = np.where(same)[0]
        self.i1 = self.i0 + 1
        self.first = np.concatenate([[True], self.id[1:] != self.id[:-1]]) if self.n else np.zeros(0, bool)

    def row(self, i):
        r = self.df.iloc[int(i)]
        return {k: (float(v) if isinstance(v, (float, np.floating)) else int(v)) for k, v in r.items()}


def close(a, b, rtol=1e-8, atol=1e-10):
    return np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))


def allclose(rep, tr, name, got, want, rtol=1e-8, atol=1e-10, mask=None):
    """Compare row-wise; report the first offending row with its state."""
    ok = close(got, want, rtol, atol)
    ok |= (got == want)
    if ok.ndim > 1:
        ok = ok.all(axis=1)
    if mask is not None:
        ok = ok | ~mask
    if not ok.all():
        i = int(np.where(~ok)[0][0])
        rep.bad(f"{name}: {int((~ok).sum())} of {len(ok)} rows differ; first: got {got[i]!r} want {want[i]!r} at {tr.row(i)}")
        return False
    return True


def binom_bad(k, n, p):
    """True if k successes out of n at probability p is practically impossible."""
    if p <= 0:
        return k > 0
    if p >= 1:
        return k < n
    lo, hi = stats.binom.cdf(k, n, p), stats.binom.sf(k - 1, n, p)
    return min(lo, hi) < 1e-9


def z_bad(hits, probs):
    """Hits against heterogeneous Bernoulli probabilities (large samples only)."""
    v = float(np.sum(probs * (1 - probs)))
    if v < 25:
        return False
    z = (float(np.sum(hits)) - float(np.sum(probs))) / np.sqrt(v)
    return abs(z) > 7


# ---- C01 ------------------------------------------------------------------------
def mon_panel(w, ref, df, tr, rep, sparse=False):
    if tr.missing:
        rep.bad(f"panel lacks columns {tr.missing}")
        return
    rep.ev("rows", tr.n)
    T, N = ref.T, ref.N
    if tr.n:
        rep.check(not df[FULL_COLS].drop(columns=["Wage_Observed"]).isna().any().any(), "missing values in state columns")
        for c in ["Education_Level", "Lagged_Choice", "Experience_Part_Time", "Experience_Full_Time", "Type", "Age_Youngest_Child", "Partner_Indicator", "Choice", "Identifier", "Period"]:
            v = df[c].to_numpy().astype(float)
            rep.check(np.all(v == np.round(v)), f"{c} is not integer valued")
    rep.check(tr.n == 0 or (tr.id.min() >= 0 and tr.id.max() < N), "identifier outside 0..N-1")
    rep.check(len(set(zip(tr.id.tolist(), tr.t.tolist()))) == tr.n, "duplicate (agent, period) rows")
    entry = ref.educ_years[tr.educ] if tr.n else np.zeros(0, int)
    f = np.where(tr.first)[0]
    bad = f[tr.t[f] != entry[f]]
    rep.check(len(bad) == 0, f"{len(bad)} agents enter in the wrong period; e.g. {tr.row(bad[0]) if len(bad) else ''}")
    last = np.concatenate([tr.first[1:], [True]]) if tr.n else np.zeros(0, bool)
    bad = np.where(last & (tr.t != T - 1))[0]
    rep.check(len(bad) == 0, f"{len(bad)} agents leave before the final period; e.g. {tr.row(bad[0]) if len(bad) else ''}")
    rep.check(len(tr.i0) == tr.n - len(f), "gaps between an agent's periods")
    for nm in ("educ", "type"):
        v = getattr(tr, nm)
        rep.check(np.all(v[tr.i0] == v[tr.i1]), f"{nm} changes over an agent's life")
    never = [e for e in range(3) if ref.educ_years[e] >= T]
    if tr.n:
        rep.check(not np.isin(tr.educ, never).any(), "agents observed before they can have left education")
    if not never:
        rep.check(len(f) == N, f"{N - len(f)} of {N} agents never appear")
    else:
        pe = np.array([w.tables["educ"].loc[e].iloc[0] for e in range(3)])
        p = float(sum(pe[e] for e in range(3) if e not in never))
        rep.check(not binom_bad(len(f), N, min(max(p, 0.0), 1.0)), f"{len(f)} of {N} agents appear, expected share {p}")
    for t in range(T):
        rep.ev("agent_periods_checked", int((tr.t == t).sum()))
    for e in range(3):
        k = int((tr.educ[f] == e).sum())
        rep.ev(f"entrants_educ{e}", k)
        if k:
            rep.seen("entry", e, int(ref.educ_years[e]), T)
    if tr.n:
        rep.check(tr.educ.min() >= 0 and tr.educ.max() <= 2, "education level outside 0..2")
        rep.check(tr.type.min() >= 0 and tr.type.max() < ref.nt, "type outside range")
        rep.check(tr.age.min() >= -1 and tr.age.max() <= ref.cmax, f"child age outside -1..{ref.cmax}")
        rep.check(np.isin(tr.partner, [0, 1]).all(), "partner indicator not 0/1")
        rep.check(np.isin(tr.lag, [0, 1, 2]).all() and np.isin(tr.choice, [0, 1, 2]).all(), "choice outside 0..2")
        rep.check(tr.pt.min() >= 0 and tr.ft.min() >= 0, "negative experience counters")
        ok = (tr.stock >= 0) & ((tr.stock <= 1 + 1e-12) | tr.first)
        rep.check(ok.all(), "experience stock outside [0, 1]")


# ---- C02 ------------------------------------------------------------------------
def mon_choice(w, ref, tr, rep):
    fin = np.isfinite(tr.val).all() and np.isfinite(tr.flow).all() and np.isfinite(tr.cont).all()
    rep.check(fin, "non-finite flow utility, continuation or value")
    allclose(rep, tr, "value function is not flow utility + delta * continuation", tr.val, tr.flow + ref.delta * tr.cont, atol=0.0)
    best = tr.val.max(axis=1)
    mine = np.take_along_axis(tr.val, np.clip(tr.choice, 0, 2)[:, None], 1)[:, 0]
    ok = mine >= best - 1e-12 * np.abs(best)
    if not ok.all():
        i = int(np.where(~ok)[0][0])
        rep.bad(f"{int((~ok).sum())} choices are not optimal; first at {tr.row(i)}")
    term = tr.t == ref.T - 1
    rep.check(np.all(tr.cont[term] == 0), "non-zero continuation value in the final period")
    rep.ev("decisions", tr.n)
    for c in range(3):
        rep.ev(f"chose_{c}", int((tr.choice == c).sum()))
    srt = np.sort(tr.val, axis=1)
    rep.ev("close_calls", int(((srt[:, 2] - srt[:, 1]) < 1e-3 * np.abs(srt[:, 2])).sum()))
    for t, c, l in set(zip(tr.t.tolist(), tr.choice.tolist(), tr.lag.tolist())):
        rep.seen(t, c, l)


# ---- C03 ------------------------------------------------------------------------
def mon_history(w, ref, tr, rep):
    a, b = tr.i0, tr.i1
    for name, got, want in (
        ("lagged choice is not last period's choice", tr.lag[b], tr.choice[a]),
        ("part-time counter", tr.pt[b], tr.pt[a] + (tr.choice[a] == 1)),
        ("full-time counter", tr.ft[b], tr.ft[a] + (tr.choice[a] == 2)),
    ):
        bad = np.where(got != want)[0]
        rep.check(len(bad) == 0, f"{name}: {len(bad)} transitions wrong; e.g. {tr.row(a[bad[0]]) if len(bad) else ''} -> {tr.row(b[bad[0]]) if len(bad) else ''}")
    rep.ev("transitions", len(a))
    for c in range(3):
        rep.ev(f"after_choice_{c}", int((tr.choice[a] == c).sum()))
    for k in set(zip(tr.choice[a].tolist(), tr.choice[b].tolist(), tr.t[a].tolist())):
        rep.seen(*k)


# ---- C04 ------------------------------------------------------------------------
def mon_stock(w, ref, tr, rep):
    a, b = tr.i0, tr.i1
    inc = ref.pt_inc(tr.educ, tr.age, False)
    want = ref.next_stock(tr.stock[a], tr.t[a], inc[a], tr.choice[a])
    bad = np.where(~close(tr.stock[b], want, 1e-9, 1e-10))[0]
    rep.check(len(bad) == 0, f"{len(bad)} experience transitions wrong; e.g. {tr.row(a[bad[0]]) if len(bad) else ''} -> stock {tr.stock[b[bad[0]]] if len(bad) else ''}, want {want[bad[0]] if len(bad) else ''}")
    rep.ev("transitions", len(a))
    small = (tr.age[a] >= 0) & (tr.age[a] <= 2)
    rep.ev("pt_mother_of_small_child", int((small & (tr.choice[a] == 1)).sum()))
    rep.ev("pt_other", int((~small & (tr.choice[a] == 1)).sum()))
    rep.ev("ft", int((tr.choice[a] == 2).sum()))
    rep.ev("idle", int((tr.choice[a] == 0).sum()))
    for k in set(zip(tr.t[a].tolist(), tr.educ[a].tolist(), tr.choice[a].tolist(), small.tolist())):
        rep.seen(*k)


# ---- C05 ------------------------------------------------------------------------
def mon_children(w, ref, tr, rep):
    a, b = tr.i0, tr.i1
    born = tr.age[b] == 0
    aged = np.where(tr.age[a] == -1, -1, tr.age[a] + 1)
    aged = np.where(aged > ref.cmax, -1, aged)
    bad = np.where(~born & (tr.age[b] != aged))[0]
    rep.check(len(bad) == 0, f"{len(bad)} child ages do not advance by one; e.g. {tr.row(a[bad[0]]) if len(bad) else ''} -> {tr.age[b[bad[0]]] if len(bad) else ''}")
    p = ref.child_eff[tr.t[b], tr.educ[b]]
    bad = np.where(born & (p <= 0))[0]
    rep.check(len(bad) == 0, f"{len(bad)} births where the table rules them out; e.g. {tr.row(b[bad[0]]) if len(bad) else ''}")
    bad = np.where(~born & (p >= 1))[0]
    rep.check(len(bad) == 0, f"{len(bad)} certain births do not happen; e.g. {tr.row(b[bad[0]]) if len(bad) else ''}")
    for t in range(1, ref.T):
        for e in range(3):
            m = (tr.t[b] == t) & (tr.educ[b] == e)
            if m.any():
                pe = float(ref.child_eff[t, e])
                k, n = int(born[m].sum()), int(m.sum())
                rep.check(not binom_bad(k, n, pe), f"births in period {t}, education {e}: {k} of {n}, table says {pe}")
                rep.seen(t, e, "zero" if pe == 0 else "one" if pe == 1 else "p", t > ref.last_birth)
    for nm, v in (("choice", tr.choice[a]), ("partner", tr.partner[a]), ("type", tr.type[a]), ("child age", np.minimum(tr.age[a], 4))):
        for x in np.unique(v):
            m = v == x
            rep.check(not z_bad(born[m], p[m]), f"births depend on {nm}={x}: {int(born[m].sum())} of {int(m.sum())}, expected {p[m].sum():.1f}")
    rep.ev("transitions", len(a))
    rep.ev("births", int(born.sum()))
    rep.ev("births_with_older_child", int((born & (tr.age[a] >= 0)).sum()))
    rep.ev("ageing", int((~born & (tr.age[a] >= 0) & (tr.age[b] > 0)).sum()))
    rep.ev("leaving_at_max", int((tr.age[a] == ref.cmax).sum()))
    rep.ev("past_window", int((tr.t[b] > ref.last_birth).sum()))


# ---- C06 ------------------------------------------------------------------------
def mon_partner(w, ref, tr, rep):
    a, b = tr.i0, tr.i1
    p1 = np.where(tr.partner[a] == 0, ref.arr[tr.t[a], tr.educ[a]], 1 - ref.sep[tr.t[a], tr.educ[a]])
    now = tr.partner[b]
    rep.check(np.isin(now, [0, 1]).all(), "partner indicator not 0/1")
    bad = np.where((now == 1) & (p1 <= 0) | (now == 0) & (p1 >= 1))[0]
    rep.check(len(bad) == 0, f"{len(bad)} impossible partner transitions; e.g. {tr.row(a[bad[0]]) if len(bad) else ''}")
    for t in range(ref.T - 1):
        for e in range(3):
            for s in (0, 1):
                m = (tr.t[a] == t) & (tr.educ[a] == e) & (tr.partner[a] == s)
                if m.any():
                    pe = float(ref.arr[t, e] if s == 0 else 1 - ref.sep[t, e])
                    k, n = int(now[m].sum()), int(m.sum())
                    rep.check(not binom_bad(k, n, pe), f"partner next period after status {s}, period {t}, education {e}: {k} of {n}, table says {pe}")
                    rep.seen(t, e, s, "0" if pe == 0 else "1" if pe == 1 else "p")
                    rep.ev("single_to" if s == 0 else "married_to", n)
    for nm, v in (("choice", tr.choice[a]), ("mother", (tr.age[a] >= 0).astype(int)), ("type", tr.type[a])):
        for x in np.unique(v):
            m = v == x
            rep.check(not z_bad(now[m], p1[m]), f"partner transitions depend on {nm}={x}")
    born = tr.age[b] == 0
    pb = ref.child_eff[tr.t[b], tr.educ[b]]
    # joint independence of birth and partner shocks given the state
    m = (p1 > 0) & (p1 < 1) & (pb > 0) & (pb < 1)
    if m.sum() > 200:
        x = (now[m] - p1[m]) * (born[m] - pb[m])
        v = np.sum(p1[m] * (1 - p1[m]) * pb[m] * (1 - pb[m]))
        rep.check(abs(x.sum()) < 7 * np.sqrt(v), f"partner and birth shocks are correlated: z={x.sum() / np.sqrt(v):.1f}")
    rep.ev("transitions", len(a))


# ---- C07 ------------------------------------------------------------------------
def share_table(w, name, e):
    t = w.tables[name]
    sub = t[t.index.get_level_values("educ_level") == e]
    lab = sub.index.get_level_values(1).to_numpy().astype(int)
    return dict(zip(lab.tolist(), sub.iloc[:, 0].to_numpy().tolist()))


def mon_initial(w, ref, tr, rep):
    f = np.where(tr.first)[0]
    educ = tr.educ[f]
    n = len(f)
    rep.ev("initial_agents", n)
    if n == 0:
        return
    pe = {e: float(w.tables["educ"].loc[e].iloc[0]) for e in range(3)}
    inpanel = sum(pe[e] for e in range(3) if ref.educ_years[e] < ref.T)
    for e in range(3):
        k = int((educ == e).sum())
        exp = pe[e] / inpanel if ref.educ_years[e] < ref.T and inpanel > 0 else 0.0
        rep.check(not binom_bad(k, n, min(exp, 1.0)), f"education {e}: {k} of {n}, share {exp}")
        m = educ == e
        if not m.any():
            continue
        nm = int(m.sum())
        for name, v in (("child_age", tr.age[f][m]), ("pt", tr.pt[f][m]), ("ft", tr.ft[f][m])):
            tab = share_table(w, name, e)
            first = min(tab)
            tab[first] = 1 - sum(x for y, x in tab.items() if y != first)
            extra = set(np.unique(v).tolist()) - set(tab)
            rep.check(not extra, f"initial {name} values {extra} outside the table")
            for lab, pr in tab.items():
                k = int((v == lab).sum())
                pr = min(max(pr, 0.0), 1.0)
                if pr > 1 - 1e-12:
                    pr = 1.0
                if pr < 1e-12:
                    pr = 0.0
                rep.check(not binom_bad(k, nm, pr), f"initial {name}={lab} for education {e}: {k} of {nm}, table says {pr}")
                rep.seen(name, e, lab, pr in (0.0, 1.0))
        pp = float(w.tables["partner_init"].loc[e].iloc[0])
        k = int(tr.partner[f][m].sum())
        rep.check(not binom_bad(k, nm, pp), f"initial partners for education {e}: {k} of {nm}, table says {pp}")
        for ty in range(ref.nt):
            k = int((tr.type[f][m] == ty).sum())
            pr = float(ref.type_shares[ty])
            rep.check(not binom_bad(k, nm, min(max(pr, 0.0), 1.0)), f"type {ty} for education {e}: {k} of {nm}, share {pr}")
            rep.ev("type_cells")
    inc = ref.pt_inc(educ, tr.age[f], False)
    yrs = tr.pt[f] * inc + tr.ft[f]
    frac = np.abs(yrs - np.trunc(yrs)) > 1e-8
    edge = np.abs(yrs - np.trunc(yrs)) - 1e-8
    want = np.where(frac, 1, np.where(yrs > 1, 2, 0))
    near1 = np.abs(yrs - 1) < 1e-7
    ok = (tr.lag[f] == want) | (np.abs(edge) < 1e-9) | near1 & ~frac
    bad = f[~ok]
    rep.check(len(bad) == 0, f"{len(bad)} initial lagged choices wrong; e.g. {tr.row(bad[0]) if len(bad) else ''}")
    for l in range(3):
        rep.ev(f"initial_lag_{l}", int((tr.lag[f] == l).sum()))
    # stock encodes the initial years
    den0 = float(ref.init_exp_max)
    right_den = ref.max_years(tr.t[f], inc)
    right = np.where(right_den > 0, np.clip(yrs / np.where(right_den > 0, right_den, 1), 0, 1), 0.0)
    as_is = yrs / den0 if den0 > 0 else yrs * 1.0
    s = tr.stock[f]
    okr, oka = close(s, right, 1e-9), close(s, as_is, 1e-9)
    bad = f[~okr & ~oka]
    rep.check(len(bad) == 0, f"{len(bad)} initial stocks wrong; e.g. {tr.row(bad[0]) if len(bad) else ''}")
    late = ~okr & oka & (tr.t[f] > 0)
    if late.any():
        i = f[np.where(late)[0][0]]
        rep.finding("late-entrant-stock", f"initial stock of an agent entering in period {tr.t[i]} is scaled as in period 0: {tr.row(i)}")
    over = ~okr & oka & (tr.t[f] == 0)
    if over.any():
        i = f[np.where(over)[0][0]]
        if as_is[np.where(over)[0][0]] > 1:
            rep.finding("initial-stock-above-one", f"initial stock exceeds one: {tr.row(i)}")
        else:
            rep.bad(f"initial stock wrong: {tr.row(i)}")
    rep.ev("initial_stock_checked", n)


# ---- wage recovery ----------------------------------------------------------------
def sys_wage(ref, tr):
    inc = ref.pt_inc(tr.educ, tr.age, False)
    return ref.sys_log_wage(tr.educ, tr.stock, tr.t, inc)


def offered_wage(ref, tr):
    """Wage offers: observed for workers, inverted from the full-time flow utility for
    those not employed (net income is strictly increasing in the wage)."""
    w = tr.wage.copy()
    m = ~np.isfinite(w)
    if m.any():
        sub = np.where(m)[0]
        eq = ref.equiv(tr.age[sub], tr.partner[sub])
        nc = tr.nonc[sub, 2]
        c = (tr.flow[sub, 2] / nc * ref.mu) ** (1 / ref.mu) * eq
        target = c
        mw = tr.male[sub]
        fixed = ref.child_ben(tr.age[sub]) - ref.ccc(tr.age[sub], 2)
        lo, hi = np.zeros(len(sub)), np.full(len(sub), 1e5)
        for _ in range(80):
            mid = (lo + hi) / 2
            v = ref.net(38.0 * mid, mw) + fixed
            lo, hi = np.where(v < target, mid, lo), np.where(v < target, hi, mid)
        w[sub] = (lo + hi) / 2
        w[sub[c < 1e-6]] = np.nan  # resources at the floor: wage not identified
    return w


# ---- C08 ------------------------------------------------------------------------
def mon_wages(w, ref, tr, rep):
    work = tr.choice > 0
    bad = np.where(work != np.isfinite(tr.wage))[0]
    rep.check(len(bad) == 0, f"{len(bad)} rows where a wage is observed without work or missing with work; e.g. {tr.row(bad[0]) if len(bad) else ''}")
    rep.check(np.all(tr.wage[np.isfinite(tr.wage)] > 0), "non-positive wage")
    rep.ev("wages_observed", int(np.isfinite(tr.wage).sum()))
    rep.ev("not_employed", int((~work).sum()))
    return np.log(tr.wage) - sys_wage(ref, tr)


# ---- C09 ------------------------------------------------------------------------
def mon_nonc(w, ref, tr, rep):
    allclose(rep, tr, "non-consumption utility", tr.nonc, ref.nonc(tr.educ, tr.type, tr.age))
    rep.ev("rows", tr.n)
    agebin = np.digitize(tr.age, [0, 3, 6, 11])
    for k in set(zip(tr.educ.tolist(), tr.type.tolist(), agebin.tolist())):
        rep.seen(*k)


# ---- C10 ------------------------------------------------------------------------
def mon_employment(w, ref, tr, rep):
    wage = offered_wage(ref, tr)
    ok = np.isfinite(wage)
    eq = ref.equiv(tr.age, tr.partner)
    for j, nm in ((1, "part-time"), (2, "full-time")):
        res = ref.res_emp(j, tr.age, tr.partner, np.where(ok, wage, 1.0), tr.male)
        good = ok & (res > 1e-6)
        inc = HRS[j] * np.where(ok, wage, 1.0)
        thr = np.where(tr.partner == 1, ref.ez_married, ref.ez_single)
        cliff = (ref.regime == "erziehungsgeld") & (j == 1) & (np.abs(tr.male + inc - thr) < 1e-6 * thr)
        want = ref.utility(np.where(good, res, 1.0), eq, tr.nonc[:, j])
        if j == 2:
            good &= tr.choice > 0
        allclose(rep, tr, f"flow utility of {nm} work", tr.flow[:, j], want, 1e-7, 1e-10, good & ~cliff)
        rep.ev(f"{nm}_checked", int(good.sum()))
        floor = ok & (res < -1e-6)
        rep.ev("resources_exhausted", int(floor.sum()))
        if floor.any():
            lim = ref.utility(np.full(tr.n, 1e-9), eq, tr.nonc[:, j])
            sgn = (tr.flow[:, j] < lim) if ref.mu < 0 else np.ones(tr.n, bool)
            rep.check(np.all(sgn[floor]), f"{nm}: consumption not floored at (almost) zero when resources are exhausted")
        if ref.regime == "erziehungsgeld" and j == 1:
            got = ref.erz(tr.male, inc, tr.partner, tr.age) > 0
            baby = (tr.age == 0) | (tr.age == 1)
            rep.ev("erziehungsgeld_paid", int((got & good).sum()))
            rep.ev("erziehungsgeld_denied", int((~got & baby & good).sum()))
    agebin = np.digitize(tr.age, [0, 1, 2, 3, 6, 11])
    for k in set(zip(tr.partner.tolist(), agebin.tolist(), tr.choice.tolist())):
        rep.seen(ref.regime, ref.split, *k)


HRS = np.array([0.0, 18.0, 38.0])


# ---- C11 ------------------------------------------------------------------------
def mon_nonemployment(w, ref, tr, rep):
    lw = sys_wage(ref, tr)
    res = ref.res_nonemp(tr.lag, tr.age, tr.partner, lw, tr.male)
    eq = ref.equiv(tr.age, tr.partner)
    good = res > 1e-6
    cliff = np.zeros(tr.n, bool)
    if ref.regime == "erziehungsgeld":
        kid, single, worked = tr.age >= 0, tr.partner != 1, tr.lag > 0
        last = 0.65 * np.exp(lw) * HRS[tr.lag]
        floor = np.where(single, np.where(kid, ref.alg2_mother, ref.alg2_alone), 0.0)
        alg1 = np.where(worked, np.where(kid, ref.alg1_c * last + ref.cb, ref.alg1_nc * last), 0.0)
        own = np.maximum(alg1, floor)
        thr = np.where(tr.partner == 1, ref.ez_married, ref.ez_single)
        cliff = np.abs(tr.male + own - thr) < 1e-6 * thr
        rep.ev("erziehungsgeld_paid", int((ref.erz(tr.male, own, tr.partner, tr.age) > 0).sum()))
    else:
        rep.ev("elterngeld_newborn_worked", int(((tr.age == 0) & (tr.lag > 0)).sum()))
    want = ref.utility(np.where(good, res, 1.0), eq, tr.nonc[:, 0])
    allclose(rep, tr, "flow utility of non-employment", tr.flow[:, 0], want, 1e-7, 1e-10, good & ~cliff)
    rep.ev("rows", int(good.sum()))
    rep.ev("alg1_claims", int((tr.lag > 0).sum()))
    rep.ev("welfare_claims", int(((tr.lag == 0) & (tr.partner == 0)).sum()))
    agebin = np.digitize(tr.age, [0, 1, 2, 3])
    for k in set(zip(tr.partner.tolist(), agebin.tolist(), tr.lag.tolist())):
        rep.seen(ref.regime, *k)


# ---- C12 ------------------------------------------------------------------------
def mon_male(w, ref, tr, rep):
    allclose(rep, tr, "partner earnings", tr.male, ref.male(tr.t, tr.educ, tr.partner))
    rep.check(np.all((tr.male > 0) == (tr.partner == 1)), "partner earnings without partner or vice versa")
    rep.ev("partnered_rows", int((tr.partner == 1).sum()))
    rep.ev("single_rows", int((tr.partner == 0).sum()))
    for k in set(zip(tr.t.tolist(), tr.educ.tolist(), tr.partner.tolist())):
        rep.seen(*k)


# ---- C21 ------------------------------------------------------------------------
def mon_years(w, ref, tr, rep):
    """Experience years implied by the stock = initial years + years worked."""
    inc = ref.pt_inc(tr.educ, tr.age, False)
    years = tr.stock * ref.max_years(tr.t, inc)
    f = np.where(tr.first)[0]
    if len(f) == 0:
        return
    start = np.repeat(f, np.diff(np.append(f, tr.n)))
    init = tr.pt[start] * inc[start] + tr.ft[start]
    add = np.zeros(tr.n)
    gain = np.where(tr.choice == 1, inc, np.where(tr.choice == 2, 1.0, 0.0))
    cs = np.concatenate([[0.0], np.cumsum(gain)])
    add = cs[np.arange(tr.n)] - cs[start]
    want = init + add
    ok = close(years, want, 1e-8, 1e-8)
    incs = np.array([[ref.pt_inc(np.array(e), np.array(a), False) for a in (-1, 0)] for e in range(3)], float)
    steep = (incs[tr.educ] > 1 + 1e-12).any(axis=1)
    late = (ref.educ_years[tr.educ] > 0) & (init > 1e-9)
    over = init > ref.init_exp_max + 1e-9
    clean = ~steep & ~late & ~over
    bad = np.where(clean & ~ok)[0]
    rep.check(len(bad) == 0, f"{len(bad)} rows whose stock does not equal years worked; e.g. {tr.row(bad[0]) if len(bad) else ''}: years {years[bad[0]] if len(bad) else ''}, worked {want[bad[0]] if len(bad) else ''}")
    rep.ev("rows_checked", int(clean.sum()))
    rep.ev("worked_years_rows", int((clean & (add > 0)).sum()))
    for key, m in (("late-entrant-experience", late & ~steep & ~over), ("initial-experience-above-max", over & ~late & ~steep), ("steep-part-time-increment", steep & ~late & ~over)):
        rep.ev(key.replace("-", "_") + "_rows", int(m.sum()))
        bad = np.where(m & ~ok)[0]
        if len(bad):
            rep.finding(key, f"stock implies {years[bad[0]]:.4f} years, worked {want[bad[0]]:.4f}: {tr.row(bad[0])}")
    # one finding cannot excuse another: on a late or above-max start, changes in years
    # must still equal the work done unless the stock hits its cap
    a, b = tr.i0, tr.i1
    m = ~steep[a] & (tr.stock[b] < 1 - 1e-9) & (tr.stock[a] <= 1)
    dy = years[b] - years[a]
    bad = np.where(m & ~close(dy, gain[a], 1e-7, 1e-7))[0]
    rep.check(len(bad) == 0, f"{len(bad)} transitions gain the wrong number of years; e.g. {tr.row(a[bad[0]]) if len(bad) else ''}: gained {dy[bad[0]] if len(bad) else ''}")
    for k in set(zip(tr.t.tolist(), tr.educ.tolist(), tr.choice.tolist())):
        rep.seen(*k)


# ---- C14 ------------------------------------------------------------------------
def solution_lookup(sol, tr):
    """Rows of the solution matching each panel row, by state label."""
    st = np.asarray(sol.states)
    key = {tuple(r): i for i, r in enumerate(st.tolist())}
    rows = list(zip(tr.t.tolist(), tr.educ.tolist(), tr.lag.tolist(), tr.type.tolist(), tr.age.tolist(), tr.partner.tolist()))
    return np.array([key[r] for r in rows], int)


def interp_rows(grid, values, x):
    """values (n, G), x (n,) -> linear interpolation per row, clamped to the grid."""
    x = np.clip(x, grid[0], grid[-1])
    hi = np.clip(np.searchsorted(grid, x, side="right"), 1, len(grid) - 1)
    lo = hi - 1
    wt = (x - grid[lo]) / (grid[hi] - grid[lo])
    r = np.arange(len(x))
    return values[r, lo] * (1 - wt) + values[r, hi] * wt


def mon_continuation(w, ref, tr, sol, rep):
    idx = solution_lookup(sol, tr)
    want = np.column_stack([interp_rows(ref.grid, sol.emax[idx, :, c], tr.stock) for c in range(3)])
    allclose(rep, tr, "continuation value is not the solution at the agent's experience", tr.cont, want, 1e-7, 1e-9)
    allclose(rep, tr, "non-consumption utility differs from the solution's", tr.nonc, sol.nonc[idx], 1e-9)
    rep.ev("rows", tr.n)
    ongrid = (np.abs(tr.stock[:, None] - ref.grid[None]) < 1e-9).any(axis=1)
    rep.ev("between_grid_points", int((~ongrid).sum()))
    for k in set(zip(tr.t.tolist(), np.searchsorted(ref.grid, tr.stock).tolist())):
        rep.seen(*k)
