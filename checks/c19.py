"""C19: correlation tables."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks import c03
from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import close
from vlib.core import fail
from vlib.core import info

RULE = (
    "Random model (measurements of several factors, periods without measurements, "
    "odd names), panel (missings, removed rows, any identifiers and period values, "
    "shuffled rows, columns called period or id) and parameters; random selections of "
    "factors (None, one, list in any order, latent and observed) and periods (None, "
    "int, float, list in any order). Each cell of the three tables is compared with a "
    "per-individual reference. Non-trivial: a table with at least one defined "
    "off-diagonal cell."
)
ASSUMPTIONS = ["relative tolerance 1e-7"]


@st.composite
def cases(draw, big=2):
    case = draw(lk.cases(
        dict(max_factors=4, min_periods=1, max_periods=4, custom=10, max_meas=3,
             tfs=("linear", "log_ces", "translog"), mixtures=(1, 1, 2), big=big),
        dict(n_min=3, n_max=14, miss_ctrl=True), n_params=1))
    lab = gen.labels_of(case["model"])
    case["factors"] = draw(st.one_of(
        st.none(), st.sampled_from(lab["all"]),
        st.lists(st.sampled_from(lab["all"]), unique=True, max_size=len(lab["all"]))))
    pers = list(range(lab["n_periods"]))
    case["periods"] = draw(st.one_of(
        st.none(), st.sampled_from(pers), st.sampled_from([float(p) for p in pers]),
        st.lists(st.sampled_from(pers), unique=True, min_size=1, max_size=len(pers))))
    case["layout"] = draw(gen.SEED)
    case["drop"] = draw(st.sampled_from([0.0, 0.0, 0.15]))
    case["zero"] = draw(st.sampled_from([False, False, True]))
    return case


def layout(case, df):
    """(frame passed to the code, frame with ids and periods from 0)."""
    rng = np.random.default_rng(case["layout"])
    n_per = gen.labels_of(case["model"])["n_periods"]
    keep = rng.uniform(size=len(df)) >= case["drop"]
    # every individual and period keeps at least one row
    for level in [0, 1]:
        codes = df.index.get_level_values(level)
        for c in codes.unique():
            if not keep[codes == c].any():
                keep[np.flatnonzero(codes == c)[0]] = True
    base = df.copy()
    base.loc[~keep] = np.nan
    out = df[keep]
    if rng.uniform() < 0.5:
        out = out.copy()
        out["period"] = rng.integers(0, 3, len(out))
        out["id"] = "x"
    n = df.index.get_level_values(0).nunique()
    if rng.uniform() < 0.7:
        out = c03.relevel(out, 0, dict(zip(range(n), sorted(c03.id_labels(n, rng)))))
        out = c03.relevel(out, 1, dict(zip(range(n_per), c03.period_labels(n_per, rng))))
    if rng.uniform() < 0.5:
        out.index = out.index.set_names([["caseid", "t"], ["i", "j"]][rng.integers(2)])
    return out.iloc[rng.permutation(len(out))], base


def cells(case, vals, base, kind):
    """{(period, label): array over individuals} by the documented definitions."""
    model = case["model"]
    lab = gen.labels_of(model)
    sel = case["factors"] or lab["all"]
    sel = [sel] if isinstance(sel, str) else sel
    pers = case["periods"]
    pers = list(range(lab["n_periods"])) if pers is None else pers
    pers = pers if isinstance(pers, list) else [pers]
    n = base.index.get_level_values(0).nunique()
    out = {}
    for p in pers:
        here = base[base.index.get_level_values(1) == p]
        tag = (lambda name, p=p: name if len(pers) == 1 else f"{name}, {p}")
        ups = [u for u in gen.updates_of(model) if u[0] == p and u[3] == "measurement"]
        for f in sel:
            if f in lab["observed"]:
                out[tag(f)] = here[f].to_numpy(float)
                continue
            mine = [u[1] for u in ups if f in u[2]]
            if kind == "measurements":
                for m in mine:
                    out[tag(m)] = here[m].to_numpy(float)
                continue
            parts = []
            for m in mine:
                x = here[m].to_numpy(float)
                if kind == "quasi":
                    ok = x[~np.isnan(x)]
                    sd = ok.std(ddof=1) if len(ok) > 1 else np.nan
                    if not sd > 0:
                        continue
                    parts.append((x - ok.mean()) / sd)
                else:
                    load = {g: vals[("loadings", p, m, g)]
                            for u in ups if u[1] == m for g in u[2]}
                    nonzero = [g for g, v in load.items() if v != 0]
                    if nonzero != [f]:
                        continue
                    parts.append((x - vals[("controls", p, m, "constant")]) / load[f])
            score = np.full(n, np.nan)
            for i in range(n):
                have = [s[i] for s in parts if not np.isnan(s[i])]
                if have:
                    score[i] = sum(have) / len(have)
            out[tag(f)] = score
    return out


def run(case):
    from skillmodels.correlation_heatmap import get_measurements_corr
    from skillmodels.correlation_heatmap import get_quasi_scores_corr
    from skillmodels.correlation_heatmap import get_scores_corr

    model = case["model"]
    df = lk.data_of(case)
    vals = gen.make_params(model, case["params"][0])
    if case["zero"]:
        loads = [k for k in vals if k[0] == "loadings"]
        multi = [k for k in loads
                 if sum(o[1:3] == k[1:3] for o in loads) > 1]
        if multi:
            vals[multi[case["layout"] % len(multi)]] = 0.0
    params = lk.shuffled(vals, case["layout"])
    data, base = layout(case, df)
    spec = gen.build_model(model)
    sel = (case["factors"], case["periods"])
    tables = {
        "measurements": call("get_measurements_corr", get_measurements_corr, data, spec,
                             *sel),
        "quasi": call("get_quasi_scores_corr", get_quasi_scores_corr, data, spec, *sel),
        "scores": call("get_scores_corr", get_scores_corr, data, params, spec, *sel),
    }
    defined = 0
    for kind, got in tables.items():
        want = cells(case, vals, base, kind)
        names = list(want)
        check(isinstance(got, pd.DataFrame), f"{kind}: not a table")
        check(list(got.index) == list(got.columns), f"{kind}: rows differ from columns",
              rows=list(got.index), cols=list(got.columns))
        check(sorted(got.columns) == sorted(names), f"{kind}: labels", got=list(got.columns),
              want=names)
        arr = got.loc[names, names].to_numpy(float) if names else np.zeros((0, 0))
        sym = np.isclose(arr, arr.T, rtol=1e-12, atol=1e-12, equal_nan=True)
        check(sym.all(), f"{kind}: not symmetric", got=got)
        d = np.diag(arr)
        check(np.isclose(d[~np.isnan(d)], 1).all(), f"{kind}: diagonal", got=got)
        for i, a in enumerate(names):
            for j, b in enumerate(names):
                x, y = want[a], want[b]
                both = ~np.isnan(x) & ~np.isnan(y)
                u, v = x[both], y[both]
                if len(u) < 2:
                    check(np.isnan(arr[i, j]), f"{kind}: undefined cell has a value",
                          cell=(a, b), got=arr[i, j])
                    continue
                if min(np.ptp(u) / (1 + abs(u).max()), np.ptp(v) / (1 + abs(v).max())) < 1e-6:
                    continue
                u, v = u - u.mean(), v - v.mean()
                r = (u @ v) / np.sqrt((u @ u) * (v @ v))
                if not np.isclose(arr[i, j], r, rtol=1e-7, atol=1e-7):
                    fail(f"{kind}: wrong correlation", cell=(a, b), got=arr[i, j], want=r)
                defined += i != j
    lab = gen.labels_of(model)
    return info(defined > 0, lk.features(model, df) + [
        f"factors:{type(case['factors']).__name__}",
        f"periods:{type(case['periods']).__name__}",
        f"dropped:{len(data) < len(df)}",
        f"selected-observed:{bool(set(lab['observed']) & set(np.atleast_1d(case['factors'] or [])))}",
    ])


PROPS = [
    Prop("tables", cases, run, quick=1300, thorough=20000),
    Prop("large_models", lambda: cases(big=100), run, quick=80, thorough=1500),
]
