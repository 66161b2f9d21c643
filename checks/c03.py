"""C03: likelihood does not depend on the layout of the panel."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import close
from vlib.core import info

RULE = (
    "Random model, parameters and panel; a random non-empty sequence of layout "
    "transformations (row shuffles, identifier and period relabelling of several "
    "types, unrelated columns, column order, index level names, surplus trailing "
    "periods, unused index levels, removal of rows without any data) is applied and "
    "the contributions compared with those of the original frame after tracking the "
    "permutation of individuals; for a random subset of individuals they are compared "
    "with the rows of the full dataset. Non-trivial: at least two transformations "
    "that change the frame."
)
ASSUMPTIONS = ["relative tolerance 1e-9"]
OPS = ["shuffle", "ids", "periods", "columns", "names", "surplus", "unused", "drop",
       "levels"]


@st.composite
def cases(draw):
    case = draw(
        lk.cases(
            dict(max_factors=2, max_periods=3, custom=5, max_meas=2),
            dict(n_min=3, n_max=8, miss_ctrl=True),
            n_params=1,
        )
    )
    # a random selection in random order, some of them twice
    ops = list(draw(st.permutations(OPS)))[: draw(st.integers(1, 6))]
    if draw(st.integers(0, 3)) == 0:
        ops.append(draw(st.sampled_from(OPS)))
    case["ops"] = [[op, draw(gen.SEED)] for op in ops]
    case["empty"] = draw(st.sampled_from([0.0, 0.3, 0.6]))
    case["subset"] = draw(st.one_of(st.none(), gen.SEED))
    return case


def is_valid(model, df):
    """Documented requirements of a dataset with (id, period) rows from 0."""
    lab = gen.labels_of(model)
    cols = gen.meas_columns(model)
    if df.index.get_level_values(0).nunique() < 1:
        return False
    for t in range(lab["n_periods"]):
        d = df[df.index.get_level_values(1) == t]
        if any(d[c].dropna().nunique() == 1 for c in cols[t]):
            return False
        if any(d[c].isna().all() for c in lab["controls"] if c != "constant"):
            return False
        if any(d[c].isna().any() for c in lab["observed"]):
            return False
    return True


def make_empty_rows(model, df, share, seed):
    """Rows of which all values are missing, without invalidating the data."""
    lab = gen.labels_of(model)
    if lab["observed"] or share == 0:
        return df
    rng = np.random.default_rng(seed)
    for key in df.index:
        if rng.uniform() < share:
            cand = df.copy()
            cand.loc[key] = np.nan
            if is_valid(model, cand):
                df = cand
    return df


def id_labels(n, rng):
    kind = rng.integers(5)
    raw = rng.choice(np.arange(-50, 5000), size=n, replace=False)
    if kind == 0:
        return [int(x) for x in raw]
    if kind == 1:
        return [f"p{x}" for x in raw]
    if kind == 2:
        return [float(x) / 4 for x in raw]
    if kind == 3:
        return [pd.Timestamp("2000-01-01") + pd.Timedelta(days=int(x)) for x in raw]
    return sorted(int(x) for x in raw)


def period_labels(n, rng):
    kind = rng.integers(4)
    raw = sorted(rng.choice(np.arange(-5, 3000), size=n, replace=False))
    if kind == 0:
        return [int(x) for x in raw]
    if kind == 1:
        return [f"{x + 10:06d}" for x in raw]
    if kind == 2:
        return [pd.Timestamp("1990-01-01") + pd.Timedelta(days=int(x)) for x in raw]
    return [float(x) / 8 for x in raw]


def drop_empty(df, rng, back, periods, n_surplus, base_empty):
    """Remove rows of the base without data; never the last row of a period or id."""
    changed = 0
    for pos in rng.permutation(len(df)):
        pos = min(pos, len(df) - 1)
        i, p = df.index[pos]
        if periods.index(p) >= len(periods) - n_surplus:
            continue
        key = (back[i], periods.index(p))
        if key not in base_empty or rng.uniform() < 0.2:
            continue
        if (df.index.get_level_values(0) == i).sum() < 2:
            continue
        if (df.index.get_level_values(1) == p).sum() < 2:
            continue
        df = df.drop(index=[(i, p)])
        changed += 1
    return df, changed


def transform(df, ops, base_empty):
    """df has MultiIndex (id, period). Returns df, {new id: original position}."""
    ids = sorted(df.index.get_level_values(0).unique())
    back = {i: k for k, i in enumerate(ids)}
    periods = sorted(df.index.get_level_values(1).unique())
    n_surplus = 0
    changed = 0
    extra_made = set()
    for op, seed in ops:
        rng = np.random.default_rng(seed)
        if op == "shuffle":
            df = df.iloc[rng.permutation(len(df))]
            changed += 1
        elif op == "ids":
            old = list(back)
            new = dict(zip(old, id_labels(len(old), rng)))
            df = relevel(df, 0, new)
            back = {new[i]: back[i] for i in old}
            changed += 1
        elif op == "periods":
            new = dict(zip(periods, period_labels(len(periods), rng)))
            df = relevel(df, 1, new)
            periods = [new[p] for p in periods]
            changed += 1
        elif op == "columns":
            df = df.copy()
            for name in ["zzz", "id_", "extra obs", "id", "period"]:
                if rng.uniform() < 0.6:
                    df[name] = rng.choice(
                        np.array(["a", None, 1.5, np.nan], dtype=object), len(df)
                    )
            df = df[list(rng.permutation(df.columns))]
            changed += 1
        elif op == "names":
            cand = [["caseid", "t"], [None, None], ["person", "period"], ["period", "x"]]
            names = cand[rng.integers(len(cand))]
            df = df.copy()
            df.index = df.index.set_names(names)
            changed += 1
        elif op == "surplus":
            if n_surplus:
                continue
            last = periods[-1]
            if isinstance(last, str):
                new_p = last + "z"
            elif isinstance(last, pd.Timestamp):
                new_p = last + pd.Timedelta(days=3)
            else:
                new_p = last + 2
            who = [i for i in back if rng.uniform() < 0.7]
            if not who:
                continue
            rows = pd.DataFrame(
                {
                    c: rng.choice([np.nan, 1.0, -2.0], len(who))
                    for c in df.columns
                },
                index=pd.MultiIndex.from_product([who, [new_p]]),
            )
            names = list(df.index.names)
            df = pd.concat([df, rows])
            df.index = df.index.set_names(names)
            periods = periods + [new_p]
            n_surplus += 1
            changed += 1
        elif op == "unused":
            df, k = drop_empty(df, rng, back, periods, n_surplus, base_empty)
            changed += k
            # filter a larger frame: pandas keeps the unused values of the levels
            names = list(df.index.names)
            if isinstance(next(iter(back)), int):
                new_id = min(back) - 1
            elif isinstance(next(iter(back)), float):
                new_id = min(back) - 0.5
            else:
                continue
            rows = pd.DataFrame(
                1.0, index=pd.MultiIndex.from_product([[new_id], periods]),
                columns=df.columns,
            )
            big = pd.concat([rows, df])
            big.index = big.index.set_names(names)
            keep = big.index.get_level_values(0) != new_id
            df = big[keep]
            first = periods[0]
            if isinstance(first, (int, float)) and rng.uniform() < 0.6:
                # also an unused period in the middle or in front
                other = first - 1 if rng.uniform() < 0.5 else first + 0.25
                if other not in periods:
                    rows = pd.DataFrame(
                        1.0, index=pd.MultiIndex.from_product([list(back)[:1], [other]]),
                        columns=df.columns)
                    big = pd.concat([df, rows]).sort_index()
                    big.index = big.index.set_names(names)
                    df = big[big.index.get_level_values(1) != other]
            changed += 1
        elif op == "levels":
            # same entries, other order of the levels and unused values in them
            names = list(df.index.names)
            levels, codes = [], []
            for lev in [0, 1]:
                vals = list(df.index.get_level_values(lev))
                level = list(dict.fromkeys(vals))
                if isinstance(level[0], (int, float)):
                    level += [x for x in (min(level) - 2, max(level) + 1,
                                          min(level) + 0.375)
                              if rng.uniform() < 0.5 and x not in level]
                level = [level[i] for i in rng.permutation(len(level))]
                pos = {x: i for i, x in enumerate(level)}
                levels.append(level)
                codes.append([pos[x] for x in vals])
            df = df.copy()
            df.index = pd.MultiIndex(levels=levels, codes=codes, names=names)
            changed += 1
        elif op == "drop":
            df, k = drop_empty(df, rng, back, periods, n_surplus, base_empty)
            changed += k
    _ = extra_made
    return df, back, changed


def relevel(df, level, mapping):
    names = list(df.index.names)
    arrs = [list(df.index.get_level_values(k)) for k in [0, 1]]
    arrs[level] = [mapping[x] for x in arrs[level]]
    df = df.copy()
    df.index = pd.MultiIndex.from_arrays(arrs, names=names)
    return df


def run(case):
    model = case["model"]
    df = lk.data_of(case)
    df = make_empty_rows(model, df, case["empty"], case["data"]["seed"] + 1)
    vals = gen.make_params(model, case["params"][0])
    params = gen.params_df(vals)
    base = call("loglike", lk.max_inputs(model, df)["loglike"], params)
    if not lk.finite(base["contributions"]):
        return info(False, ["not-finite"])
    empty = {key for key in df.index if df.loc[key].isna().all()}
    new, back, changed = transform(df, case["ops"], empty)
    got = call("loglike", lk.max_inputs(model, new)["loglike"], params)
    order = [back[i] for i in sorted(back)]
    want = base["contributions"][order]
    tol = dict(rtol=1e-9, atol=1e-9)
    close("contributions after layout change", got["contributions"], want,
          ops=case["ops"], **tol)
    close("value after layout change", got["value"], base["value"],
          rtol=1e-9, atol=1e-8)
    labels = [op for op, _ in case["ops"]]
    if case["subset"] is not None:
        rng = np.random.default_rng(case["subset"])
        n = case["data"]["n_obs"]
        keep = np.sort(rng.choice(n, size=rng.integers(1, n + 1), replace=False))
        sub = df[df.index.get_level_values(0).isin(keep)]
        if is_valid(model, sub):
            labels.append("subset")
            part = call("loglike", lk.max_inputs(model, sub)["loglike"], params)
            close("contributions of a subset of individuals", part["contributions"],
                  base["contributions"][keep], **tol)
            changed += 1
    return info(changed >= 2, labels + lk.features(model, df))


PROPS = [Prop("layout", cases, run, quick=104, thorough=5000)]
