"""C14: datasets are validated with a complete and exact report."""
import re

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.c03 import period_labels
from checks.c03 import relevel
from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import fail
from vlib.core import info
from vlib.core import quiet

RULE = (
    "A valid generated dataset receives 0-4 faults (dropped columns, variables missing "
    "or constant in a period, holes in observed factors, dropped rows and periods) and "
    "harmless near-faults (constant or missing values where they are not used, surplus "
    "periods and columns, missing controls of single individuals, all-missing "
    "measurements), is relabelled and shuffled and passed to get_maximization_inputs "
    "or simulate_dataset. An oracle that reads the rules lists the offending (period, "
    "variable) pairs; the error must list exactly these, or the dataset be accepted. "
    "Non-trivial: at least one fault or near-fault that applies."
)
ASSUMPTIONS = [
    "the report is a table with one line per offending period and variable; anchoring "
    "outcomes are listed as outcome_factor",
]
FAULTS = ["drop_col", "all_nan", "constant", "single", "hole", "drop_row",
          "drop_period", "ctrl_hole", "surplus", "extra_col", "const_unused", "inf"]


@st.composite
def cases(draw):
    est = draw(st.booleans())
    model = draw(gen.models(max_factors=3, min_periods=1 if est else 2, max_periods=4,
                            max_meas=2, tfs=["linear", "constant"]))
    n = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4, 5]))
    return {
        "model": model,
        "data": draw(lk.data_specs(n_min=3, n_max=6, miss_ctrl=True)),
        "faults": [[draw(st.sampled_from(FAULTS)), draw(gen.SEED)] for _ in range(n)],
        "estimation": est,
        "layout": draw(gen.SEED),
    }


def inject(model, df, kind, seed):
    rng = np.random.default_rng(seed)
    lab = gen.labels_of(model)
    T = lab["n_periods"]
    ctrls = [c for c in lab["controls"] if c != "constant"]
    cols = gen.meas_columns(model)
    t = int(rng.integers(T))
    per = df.index.get_level_values(1)
    meas = [c for c in cols[t] if c in df]
    used = meas + [c for c in ctrls + lab["observed"] if c in df]
    df = df.copy()
    if kind == "drop_col" and len(df.columns) > 1:
        df = df.drop(columns=[df.columns[rng.integers(len(df.columns))]])
    elif kind == "all_nan" and used:
        df.loc[per == t, used[rng.integers(len(used))]] = np.nan
    elif kind == "constant" and used:
        c = used[rng.integers(len(used))]
        df.loc[(per == t) & df[c].notna(), c] = 1.5
    elif kind == "single" and meas:
        c = meas[rng.integers(len(meas))]
        rows = np.flatnonzero(per == t)
        if len(rows):
            keep = rows[rng.integers(len(rows))]
            df.loc[per == t, c] = np.nan
            df.iloc[keep, df.columns.get_loc(c)] = 0.25
    elif kind == "hole" and [o for o in lab["observed"] if o in df]:
        have = [o for o in lab["observed"] if o in df]
        df.iloc[rng.integers(len(df)),
                df.columns.get_loc(have[rng.integers(len(have))])] = np.nan
    elif kind == "drop_row" and len(df) > 2:
        df = df.drop(index=[df.index[rng.integers(len(df))]])
    elif kind == "drop_period" and len(set(per)) > 1:
        gone = sorted(set(per))[int(rng.integers(len(set(per))))]
        df = df[per != gone]
    elif kind == "ctrl_hole" and [c for c in ctrls if c in df]:
        have = [c for c in ctrls if c in df]
        df.iloc[rng.integers(len(df)),
                df.columns.get_loc(have[rng.integers(len(have))])] = np.nan
    elif kind == "surplus":
        last = max(per) + 1
        ids = sorted(set(df.index.get_level_values(0)))
        rows = pd.DataFrame(
            {c: [3.0 if rng.uniform() < 0.5 else np.nan] * len(ids) for c in df},
            index=pd.MultiIndex.from_product([ids, [last]], names=df.index.names))
        df = pd.concat([df, rows])
    elif kind == "extra_col":
        df["unrelated"] = np.nan
        df["unrelated2"] = "text"
    elif kind == "const_unused":
        # a measurement that is not used in this period may be constant
        other = [c for c in df.columns if c not in used and c not in ctrls
                 and c not in lab["observed"] and df[c].dtype != object]
        if other:
            df.loc[per == t, other[rng.integers(len(other))]] = 7.0
    elif kind == "inf" and meas:
        c = meas[rng.integers(len(meas))]
        df.loc[per == t, c] = df.loc[per == t, c].where(
            rng.uniform(size=(per == t).sum()) < 0.5, 2.0)
    return df


def offending(model, df, estimation):
    """Oracle on the frame with consecutive periods counted from zero."""
    lab = gen.labels_of(model)
    ids = sorted(set(df.index.get_level_values(0)))
    codes = {p: k for k, p in enumerate(sorted(set(df.index.get_level_values(1))))}
    rows = {(i, codes[p]): k for k, (i, p) in enumerate(df.index)}
    out = set()

    def values(col, t):
        arr = df[col].to_numpy()
        return [arr[rows[(i, t)]] if (i, t) in rows else None for i in ids]

    def notna(v):
        return [x for x in v if x is not None and not (isinstance(x, float)
                                                       and np.isnan(x))]

    anch = model.get("anchoring", {"outcomes": {}})["outcomes"]
    for t in range(lab["n_periods"]):
        for c in lab["controls"][1:]:
            if c not in df or not notna(values(c, t)):
                out.add((t, c))
        if estimation:
            for tt, m, facs, purpose in gen.updates_of(model):
                if tt != t:
                    continue
                col = m if purpose == "measurement" else anch[facs[0]]
                if col not in df or len(set(notna(values(col, t)))) == 1:
                    out.add((t, m))
        for o in lab["observed"]:
            if o not in df or len(notna(values(o, t))) < len(ids):
                out.add((t, o))
    return out


def parse(report, names):
    """(period, variable) pairs of the table in the error message."""
    pat = "|".join(re.escape(n) for n in sorted(names, key=len, reverse=True))
    out, period = [], None
    for line in report.splitlines():
        m = re.match(rf"^\s*(?:(\d+)\s+)?({pat})\s+(Variable.*)$", line)
        if m:
            if m.group(1) is not None:
                period = int(m.group(1))
            out.append((period, m.group(2)))
    return out


def run(case):
    model = case["model"]
    df = lk.data_of(case)
    for kind, seed in case["faults"]:
        df = inject(model, df, kind, seed)
    want = offending(model, df, case["estimation"])
    rng = np.random.default_rng(case["layout"])
    periods = sorted(set(df.index.get_level_values(1)))
    if rng.uniform() < 0.5:
        df = relevel(df, 1, dict(zip(periods, period_labels(len(periods), rng))))
    if rng.uniform() < 0.7:
        df = df.iloc[rng.permutation(len(df))]
    before = df.copy(deep=True)
    built = gen.build_model(model)
    if case["estimation"]:
        what = "get_maximization_inputs"

        def func():
            return lk.repo().get_maximization_inputs(built, df)

    else:
        what = "simulate_dataset"
        params = gen.params_df(gen.make_params(model, 1, tame=0.3))

        def func():
            from skillmodels.simulate_data import simulate_dataset

            return simulate_dataset(built, params, data=df)

    labels = [what, f"problems={min(len(want), 6)}"] + [k for k, _ in case["faults"]]
    if not want:
        with quiet():
            call(what, func)
    else:
        try:
            with quiet():
                func()
        except ValueError as e:
            msg = str(e)
        except Exception as e:  # noqa: BLE001
            fail(f"{what}: no report but {type(e).__name__}: {e}", want=sorted(want))
        else:
            fail(f"{what} accepted an unusable dataset", want=sorted(want))
        lab = gen.labels_of(model)
        names = {m for _, m, _, _ in gen.updates_of(model)}
        names |= set(lab["controls"]) | set(lab["observed"])
        got = parse(msg, names)
        check(set(got) == want, f"{what}: reported problems",
              missing=sorted(want - set(got)), additional=sorted(set(got) - want),
              report=msg)
        check(len(got) == len(set(got)), "problem reported twice", report=msg)
    pd.testing.assert_frame_equal(df, before)
    return info(len(case["faults"]) > 0, labels)


PROPS = [Prop("datasets", cases, run, quick=400, thorough=20000)]
