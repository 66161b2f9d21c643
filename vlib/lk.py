"""Helpers shared by likelihood checks."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import gen
from vlib.core import call
from vlib.ref import Ref
from vlib.ref import clip_opts
from vlib.ref import soft_clip


def repo():
    import skillmodels.likelihood_function as lf

    return lf


def max_inputs(model, data, **kw):
    lf = repo()
    return call(
        "get_maximization_inputs",
        lf.get_maximization_inputs,
        gen.build_model(model),
        data,
        **kw,
    )


@st.composite
def data_specs(draw, n_min=2, n_max=8, miss=True, miss_ctrl=False, crowd=35, mass=False):
    n_obs = draw(st.integers(n_min, n_max))
    if crowd and n_max > 4:
        size = draw(st.integers(0, 39))
        if size >= 38:
            n_obs = draw(st.integers(11, crowd))
        elif mass and size >= 36:
            n_obs = draw(st.integers(120, 300))
    return {
        "n_obs": n_obs,
        "seed": draw(gen.SEED),
        "miss": draw(st.sampled_from([0.0, 0.1, 0.4, 0.8])) if miss else 0.0,
        "miss_ctrl": draw(st.sampled_from([0.0, 0.1, 0.3])) if miss_ctrl else 0.0,
        "rounded": draw(st.integers(0, 5)) == 0,
        "codes": draw(st.integers(0, 7)) == 7,
    }


@st.composite
def cases(draw, model_kwargs=None, data_kwargs=None, n_params=2):
    model = draw(gen.models(**{"big": 2, **(model_kwargs or {})}))
    data = draw(data_specs(**(data_kwargs or {})))
    seeds = draw(st.lists(gen.SEED, min_size=1, max_size=n_params))
    return {"model": model, "data": data, "params": seeds}


def data_of(case, key="data"):
    return gen.make_data(case["model"], **case[key])


def shuffled(vals, seed):
    order = np.random.default_rng(seed).permutation(len(vals))
    return gen.params_df(vals, order)


def ref_contribs(model, vals, df):
    ref = Ref(model, vals)
    out = ref.filter(gen.after_control_rule(model, df))
    clipped = soft_clip(out["contributions"], **clip_opts(model))
    return clipped, out


def features(model, df=None):
    lab = gen.labels_of(model)
    labels = [
        f"factors={len(lab['latent'])}",
        f"periods={lab['n_periods']}",
        f"mixtures={lab['n_mixtures']}",
        f"observed={len(lab['observed'])}",
        f"controls={len(lab['controls']) - 1}",
    ]
    anch = model.get("anchoring")
    n_anch = len(anch["outcomes"]) if anch else 0
    labels.append(f"anchored={n_anch}")
    for f in model["factors"].values():
        tf = f["transition_function"]
        labels.append("tf=" + ("custom" if isinstance(tf, dict) else tf))
    if any(len(u[2]) > 1 for u in gen.updates_of(model)):
        labels.append("multi-loading")
    if df is not None:
        cols = [c for c in df.columns if c not in lab["controls"] + lab["observed"]]
        if df[cols].isna().any().any():
            labels.append("missings")
    return labels


def finite(x):
    return bool(np.isfinite(np.asarray(x, dtype=float)).all())


def as_frame(d):
    return pd.DataFrame(d)
