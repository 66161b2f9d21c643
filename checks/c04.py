"""C04: missing measurements and controls drop exactly the affected terms."""
import copy
import re

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.c03 import is_valid
from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import call_warn
from vlib.core import check
from vlib.core import close
from vlib.core import info

RULE = (
    "Random model, parameters and panel. missing_cells: random additional cells are "
    "set to missing; individuals without new missings keep their contribution, the "
    "per-update contribution of every missing cell is exactly zero, everything is "
    "finite and equals the reference filter. absent_measurement: a measurement that "
    "is missing for everybody in a period equals the model without it. "
    "missing_controls: contributions equal those after applying the documented rule, "
    "and the warning lists exactly the affected (individual, period) pairs. "
    "Non-trivial: at least one non-missing cell became missing."
)
ASSUMPTIONS = ["relative tolerance 1e-9 (2e-6 against the reference filter)"]


@st.composite
def base_cases(draw, **kw):
    case = draw(
        lk.cases(
            dict(max_factors=3, max_periods=3, custom=5, max_meas=3, **kw),
            dict(n_min=3, n_max=7),
            n_params=1,
        )
    )
    case["share"] = draw(st.sampled_from([0.05, 0.3, 0.7]))
    case["mask_seed"] = draw(gen.SEED)
    return case


def punch(model, df, share, seed):
    """Set cells to missing one by one as long as the data stay valid."""
    rng = np.random.default_rng(seed)
    cols = gen.meas_columns(model)
    df = df.copy()
    touched = []
    for i, t in df.index:
        for c in cols[t]:
            if rng.uniform() < share and pd.notna(df.loc[(i, t), c]):
                old = df.loc[(i, t), c]
                df.loc[(i, t), c] = np.nan
                vals = df.loc[df.index.get_level_values(1) == t, c].dropna()
                if vals.nunique() == 1:
                    df.loc[(i, t), c] = old
                else:
                    touched.append((i, t, c))
    return df, touched


def run_cells(case):
    model = case["model"]
    df = lk.data_of(case)
    new, touched = punch(model, df, case["share"], case["mask_seed"])
    vals = gen.make_params(model, case["params"][0])
    params = gen.params_df(vals)
    want, _ = lk.ref_contribs(model, vals, new)
    if not lk.finite(want) or np.abs(want).max() > 1e6:
        return info(False, ["not-finite"])
    base = call("loglike", lk.max_inputs(model, df)["loglike"], params)
    mi = lk.max_inputs(model, new)
    got = call("debug_loglike", mi["debug_loglike"], params)
    check(lk.finite(got["contributions"]), "non-finite contribution with missing data",
          contributions=got["contributions"])
    close("contributions vs reference", got["contributions"], want.sum(axis=0),
          rtol=2e-6, atol=1e-6)
    hit = {i for i, _, _ in touched}
    keep = [i for i in range(case["data"]["n_obs"]) if i not in hit]
    close("contributions of individuals without new missings",
          got["contributions"][keep], base["contributions"][keep], rtol=1e-9, atol=1e-9)
    contribs = got["all_contributions"].set_index(["id", "period", "measurement"])
    contribs = contribs["contribution"]
    check(contribs.index.is_unique, "duplicated labels in all_contributions")
    outcomes = model.get("anchoring", {}).get("outcomes", {})
    inv = {f"{o}_{f}": o for f, o in outcomes.items()}
    n_zero = 0
    for t, m, _, purpose in gen.updates_of(model):
        col = inv[m] if purpose == "anchoring" else m
        for i in range(case["data"]["n_obs"]):
            if np.isnan(new.loc[(i, t), col]):
                n_zero += 1
                check(contribs.loc[(i, t, m)] == 0,
                      "missing measurement has a non-zero contribution",
                      where=(i, t, m), value=contribs.loc[(i, t, m)])
    return info(bool(touched), [f"zeros={min(n_zero, 9)}"] + lk.features(model, new))


def run_absent(case):
    model = case["model"]
    df = lk.data_of(case)
    rng = np.random.default_rng(case["mask_seed"])
    ups = [u for u in gen.updates_of(model) if u[3] == "measurement"]
    per = {}
    for t, m, _, _ in ups:
        per.setdefault(t, []).append(m)
    cand = [(t, m) for t in per for m in per[t] if len(per[t]) > 1]
    if not cand:
        return info(False, ["no-candidate"])
    t, m = cand[rng.integers(len(cand))]
    small = copy.deepcopy(model)
    for f in small["factors"].values():
        if t < len(f["measurements"]) and m in f["measurements"][t]:
            f["measurements"][t].remove(m)
        for lst in f.get("normalizations", {}).values():
            if t < len(lst):
                lst[t].pop(m, None)
    new = df.copy()
    new.loc[new.index.get_level_values(1) == t, m] = np.nan
    vals = gen.make_params(model, case["params"][0])
    need = set(gen.index_tuples(small))
    small_vals = {k: v for k, v in vals.items() if k in need}
    a = call("loglike", lk.max_inputs(model, new)["loglike"], gen.params_df(vals))
    b = call("loglike", lk.max_inputs(small, df)["loglike"], gen.params_df(small_vals))
    if not lk.finite(b["contributions"]):
        return info(False, ["not-finite"])
    close("all missing vs model without the measurement", a["contributions"],
          b["contributions"], rtol=1e-9, atol=1e-9, measurement=(t, m))
    return info(True, lk.features(model, new))


def relabel(df, seed):
    rng = np.random.default_rng(seed)
    ids = df.index.get_level_values(0)
    n = ids.nunique()
    raw = sorted(rng.choice(np.arange(10, 900), size=n, replace=False))
    new_ids = [f"p{x:03d}" for x in raw] if rng.uniform() < 0.5 else [int(x) for x in raw]
    start = int(rng.integers(1, 2000))
    df = df.copy()
    df.index = pd.MultiIndex.from_arrays(
        [[new_ids[i] for i in ids], [start + t for t in df.index.get_level_values(1)]],
        names=["id", "period"],
    )
    return df, new_ids, start


def parse_pairs(msg):
    out = set()
    for grp in re.findall(r"\(([^()]*)\)", msg):
        parts = [p.strip().strip("'\"") for p in grp.split(",")]
        if len(parts) == 2:
            try:
                second = float(parts[1])
            except ValueError:
                continue
            try:
                first = float(parts[0])
            except ValueError:
                first = parts[0]
            out.add((first, second))
    return out


def run_controls(case):
    model = case["model"]
    lab = gen.labels_of(model)
    ctrls = [c for c in lab["controls"] if c != "constant"]
    if not ctrls:
        return info(False, ["no-controls"])
    df = lk.data_of(case)
    rng = np.random.default_rng(case["mask_seed"])
    u = rng.uniform(size=(len(df), len(ctrls)))
    fill = float(rng.normal())
    share = case["share"]
    for _ in range(8):
        mask = pd.DataFrame(u < share, index=df.index, columns=ctrls)
        holes = df.copy()
        holes[ctrls] = holes[ctrls].mask(mask)
        filled = gen.after_control_rule(model, holes)
        filled[ctrls] = filled[ctrls].fillna(fill)
        # the rule itself must leave valid data for the comparison run
        if is_valid(model, filled) and is_valid(model, holes):
            break
        share = share * 0.6
    else:
        return info(False, ["invalid-after-rule"])
    # expected pairs
    cols = gen.meas_columns(model)
    expected = set()
    shown, new_ids, start = relabel(holes, case["mask_seed"] + 1)
    for i, t in holes.index:
        row = holes.loc[(i, t)]
        if row[ctrls].isna().any() and row[cols[t]].notna().any():
            who = new_ids[i]
            expected.add((who if isinstance(who, str) else float(who), float(start + t)))
    lf = lk.repo()
    mi, msgs = call_warn(
        "get_maximization_inputs", lf.get_maximization_inputs, gen.build_model(model),
        shown,
    )
    relevant = [m for m in msgs if "NaN" in m and "controls" in m]
    got_pairs = set().union(*[parse_pairs(m) for m in relevant]) if relevant else set()
    check(got_pairs == expected, "warning about missing controls names wrong rows",
          missing=sorted(expected - got_pairs, key=str),
          additional=sorted(got_pairs - expected, key=str))
    vals = gen.make_params(model, case["params"][0])
    params = gen.params_df(vals)
    want = call("loglike", lk.max_inputs(model, filled)["loglike"], params)
    if not lk.finite(want["contributions"]):
        return info(False, ["not-finite"])
    got = call("loglike", mi["loglike"], params)
    close("contributions with missing controls", got["contributions"],
          want["contributions"], rtol=1e-9, atol=1e-9)
    return info(bool(expected), [f"pairs={min(len(expected), 6)}"]
                + lk.features(model, holes))


@st.composite
def control_cases(draw):
    case = draw(base_cases())
    if not case["model"].get("controls"):
        k = draw(st.integers(1, 2))
        case["model"]["controls"] = ["x1", "age"][:k]
    return case


PROPS = [
    Prop("missing_cells", base_cases, run_cells, quick=64, thorough=4000),
    Prop("absent_measurement", base_cases, run_absent, quick=48, thorough=3000),
    Prop("missing_controls", control_cases, run_controls, quick=56, thorough=3000),
]
