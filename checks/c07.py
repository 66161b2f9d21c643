"""C07: filtered states and their anchoring follow the measurement system."""
import numpy as np
import pandas as pd

from checks.c06 import aggregated
from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import close
from vlib.core import info
from vlib.ref import Ref

RULE = (
    "Random model with any subset and order of anchored factors, parameters in random "
    "row order, panel with missings. filtered: unanchored states equal the reference "
    "filter's mixture-weighted states, anchored ones the affine map with each factor's "
    "own intercept and loading of the period. simulated: the same relation between "
    "the two state frames returned by simulate_dataset. Non-trivial: at least one "
    "anchored factor."
)
ASSUMPTIONS = ["relative tolerance 1e-5 (reference filter), 1e-9 (affine map)"]


def check_anchoring(model, vals, out, what):
    lab = gen.labels_of(model)
    ref = Ref(model, vals)
    un, an = out["unanchored_states"]["states"], out["anchored_states"]["states"]
    check(list(un.columns) == list(an.columns), f"{what}: columns differ",
          unanchored=list(un.columns), anchored=list(an.columns))
    check(len(un) == len(an), f"{what}: different lengths")
    for c in ["id", "period"]:
        check((un[c].to_numpy() == an[c].to_numpy()).all(), f"{what}: {c} changed")
    check(an.index.equals(un.index), f"{what}: index changed")
    periods = un["period"].to_numpy()
    for f in lab["latent"]:
        sc = np.array([ref.scale_const(t, f) for t in periods])
        close(f"{what}: anchored {f}", an[f].to_numpy(),
              un[f].to_numpy() * sc[:, 0] + sc[:, 1], rtol=1e-9, atol=1e-9)
    for kind, frame in [("unanchored_states", un), ("anchored_states", an)]:
        ranges = out[kind]["state_ranges"]
        check(set(ranges) == set(lab["latent"]), f"{what}: keys of ranges")
        for f in lab["latent"]:
            check(list(ranges[f].index) == sorted(set(periods.tolist())),
                  f"{what}: periods of ranges")
            grp = pd.Series(frame[f].to_numpy()).groupby(periods)
            close(f"{what}: minimum of {f}", ranges[f]["minimum"], grp.min(),
                  rtol=1e-12, atol=1e-12)
            close(f"{what}: maximum of {f}", ranges[f]["maximum"], grp.max(),
                  rtol=1e-12, atol=1e-12)


def run_filtered(case):
    from skillmodels.filtered_states import get_filtered_states

    model = case["model"]
    lab = gen.labels_of(model)
    df = lk.data_of(case)
    n, T = case["data"]["n_obs"], lab["n_periods"]
    vals = gen.make_params(model, case["params"][0])
    want, raw = lk.ref_contribs(model, vals, df)
    if not lk.finite(want) or np.abs(want).max() > 1e6:
        return info(False, ["not-finite"])
    out = call("get_filtered_states", get_filtered_states,
               model_dict=gen.build_model(model), data=df,
               params=lk.shuffled(vals, case["params"][0]))
    un = out["unanchored_states"]["states"]
    agg = aggregated(raw, gen.updates_of(model), T)
    keys = [(i, t) for t in sorted(agg) for i in range(n)]
    got = un.set_index(["id", "period"])
    check(sorted(got.index.tolist()) == sorted(keys), "filtered states: labels",
          got=sorted(got.index.tolist())[:10])
    close("unanchored filtered states", got.loc[keys, lab["latent"]],
          np.concatenate([agg[t] for t in sorted(agg)]), rtol=1e-5, atol=1e-6)
    check_anchoring(model, vals, out, "filtered states")
    anchored = bool(model.get("anchoring", {}).get("outcomes"))
    return info(anchored, lk.features(model, df))


def run_simulated(case):
    from skillmodels.simulate_data import simulate_dataset

    model = case["model"]
    df = lk.data_of(case)
    vals = gen.make_params(model, case["params"][0], tame=0.3)
    np.random.seed(case["params"][0] % 2**31)
    out = call("simulate_dataset", simulate_dataset, model_dict=gen.build_model(model),
               params=lk.shuffled(vals, case["params"][0]), data=df)
    states = out["unanchored_states"]["states"]
    if not lk.finite(states[gen.labels_of(model)["latent"]]):
        return info(False, ["not-finite"])
    check_anchoring(model, vals, out, "simulated states")
    # the public helper itself: any row order, other columns and labels stay
    from skillmodels.filtered_states import anchor_states_df

    raw = states.reset_index(drop=True).sample(frac=1.0, random_state=case["params"][0] % 1000)
    raw.insert(0, "note", "x")
    direct = call("anchor_states_df", anchor_states_df, raw, gen.build_model(model),
                  lk.shuffled(vals, case["params"][0] + 1))
    check(list(direct.columns) == list(raw.columns) and direct.index.equals(raw.index)
          and (direct["note"] == "x").all(), "anchor_states_df: labels")
    same = out["anchored_states"]["states"].reset_index(drop=True).loc[raw.index]
    close("anchor_states_df", direct[gen.labels_of(model)["latent"]],
          same[gen.labels_of(model)["latent"]], rtol=1e-10, atol=1e-12)
    anchored = bool(model.get("anchoring", {}).get("outcomes"))
    return info(anchored, lk.features(model, df))


PROPS = [
    Prop(
        "filtered",
        lambda: lk.cases(dict(custom=5, anchoring=90, max_factors=3, max_meas=2),
                         dict(miss_ctrl=True), n_params=1),
        run_filtered,
        quick=96,
        thorough=5000,
    ),
    Prop(
        "large_models",
        lambda: lk.cases(dict(custom=5, anchoring=90, max_factors=3, max_meas=2, big=100),
                         dict(miss_ctrl=True), n_params=1),
        run_filtered,
        quick=16,
        thorough=500,
    ),
    Prop(
        "simulated",
        lambda: lk.cases(dict(custom=5, anchoring=90, max_factors=4, max_meas=2, big=3), dict(), n_params=1),
        run_simulated,
        quick=128,
        thorough=5000,
    ),
]
