"""C18: parameter frames follow specification edits."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import editor
from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import close
from vlib.core import info

RULE = (
    "edits: sequences of 1-6 edits of a random specification together with a shuffled "
    "parameter frame (unique values, random bounds, extra column); after each step the "
    "returned frame must have the enumerated index of the edited model in template "
    "order, surviving entries keep value and bounds, new ones are 0.05 and unbounded, "
    "the input frame is untouched. likelihood: the final pair is passed to the "
    "likelihood and compared with the reference filter. update: update_parameter_values "
    "on random overlapping frames against a dictionary model. Non-trivial: at least one "
    "step that changes the parameters."
)
ASSUMPTIONS = ["parameter values that are not NaN"]


def start_frame(model, seed):
    rng = np.random.default_rng(seed)
    vals = gen.make_params(model, seed, tame=0.5)
    df = gen.params_df(vals)
    df["lower_bound"] = np.where(rng.uniform(size=len(df)) < 0.4,
                                 df["value"] - rng.uniform(size=len(df)), -np.inf)
    df["upper_bound"] = np.where(rng.uniform(size=len(df)) < 0.4,
                                 df["value"] + rng.uniform(size=len(df)), np.inf)
    if seed % 3 == 0:
        df["note"] = [f"n{i}" for i in range(len(df))]
    if seed % 5 == 0:
        df = df.drop(columns="upper_bound")
    return df.iloc[rng.permutation(len(df))]


def step(model, json_model, params, op):
    """Apply one operation to code and reference; returns None if not applicable."""
    res = editor.resolve(model, op)
    if res is None:
        return None
    name, arg = res
    before = params.copy(deep=True)
    out = call(name, editor.call_edit, name, arg, model, params)
    check(isinstance(out, tuple) and len(out) == 2, f"{name} returns no pair")
    got_model, got = out
    pd.testing.assert_frame_equal(params, before)
    want_model = editor.edit(model, name, arg)
    check(editor.canonical(got_model) == editor.canonical(want_model),
          f"{name}: specification differs if params are given")
    new_json = editor.edit(json_model, name, arg)
    idx = gen.index_tuples(new_json)
    have = [tuple(t) for t in got.index]
    check(set(have) == set(idx) and len(have) == len(idx), f"{name}: wrong entries",
          missing=sorted(set(idx) - set(have), key=str)[:4],
          additional=sorted(set(have) - set(idx), key=str)[:4])
    order = [tuple(t) for t in template_index(got_model)]
    check(have == order, f"{name}: not in the order of the template")
    check(list(got.columns) == list(params.columns), f"{name}: columns",
          got=list(got.columns))
    old = {tuple(t): row for t, row in zip(params.index, params.to_dict("records"))}
    new = dict(zip(have, got.to_dict("records")))
    fresh = {"value": 0.05, "lower_bound": -np.inf, "upper_bound": np.inf}
    n_new = 0
    for key in idx:
        if key in old:
            check(new[key] == old[key], f"{name}: surviving parameter changed", key=key,
                  got=new[key], want=old[key])
        else:
            n_new += 1
            for c in fresh:
                if c in new[key]:
                    check(new[key][c] == fresh[c], f"{name}: {c} of new parameter",
                          key=key, got=new[key][c])
    changed = n_new > 0 or len(old) != len(new)
    return name, got_model, new_json, got, changed


def template_index(model):
    from skillmodels.params_index import get_params_index
    from skillmodels.process_model import process_model

    mod = call("process_model", process_model, model)
    return get_params_index(
        update_info=mod["update_info"], labels=mod["labels"],
        dimensions=mod["dimensions"], transition_info=mod["transition_info"])


@st.composite
def cases(draw):
    case = draw(editor.spec_cases(max_factors=3, max_periods=4))
    case["seed"] = draw(gen.SEED)
    return case


def walk(case):
    json_model = case["model"]
    model = gen.build_model(json_model)
    params = start_frame(json_model, case["seed"])
    steps, n_applied = [], 0
    for op in case["ops"]:
        res = step(model, json_model, params, op)
        if res is None:
            continue
        name, model, json_model, params, changed = res
        if changed:
            steps.append(name)
        n_applied += 1
    return json_model, model, params, steps, n_applied


def run(case):
    *_, steps, _ = walk(case)
    return info(len(steps) > 0, steps)


@st.composite
def like_cases(draw):
    case = draw(editor.spec_cases(max_factors=3, max_periods=3, max_meas=2))
    case["seed"] = draw(gen.SEED)
    case["ops"] = case["ops"][:4]
    case["n_obs"] = draw(st.integers(2, 5))
    return case


def run_like(case):
    json_model, model, params, steps, n_applied = walk(case)
    if not gen.updates_of(json_model):
        # a model without any measurement cannot be estimated
        return info(False, ["no-measurements"])
    df = gen.make_data(json_model, case["n_obs"], case["seed"], miss=0.2)
    vals = {tuple(k): v for k, v in params["value"].items()}
    mi = call("get_maximization_inputs", lk.repo().get_maximization_inputs, model, df)
    check(not n_applied or params.index.equals(mi["params_template"].index),
          "index of edited frame is not the one of the template")
    want, _ = lk.ref_contribs(json_model, vals, df)
    if not lk.finite(want) or np.abs(want).max() > 1e6:
        return info(False, ["not-finite"])
    got = call("loglike", mi["loglike"], params)
    close("likelihood of the edited pair", got["contributions"],
          want.sum(axis=0), rtol=1e-6, atol=1e-6)
    return info(len(steps) > 0, steps + lk.features(json_model, df))


# ---------------------------------------------------------------- update
@st.composite
def update_cases(draw):
    n = draw(st.integers(1, 12))
    return {
        "n": n,
        "dtype": draw(st.sampled_from(["float", "float", "int", "object"])),
        "others": [
            {
                "keys": draw(st.lists(st.integers(0, n + 4), max_size=10, unique=True)),
                "seed": draw(gen.SEED),
                "dtype": draw(st.sampled_from(["float", "float", "int"])),
                "bounds": draw(st.booleans()),
            }
            for _ in range(draw(st.integers(0, 4)))
        ],
        "single": draw(st.booleans()),
        "container": draw(st.sampled_from(["list", "tuple"])),
        "seed": draw(gen.SEED),
    }


def run_update(case):
    from skillmodels.utilities import update_parameter_values

    rng = np.random.default_rng(case["seed"])
    keys = [("controls" if i % 2 else "loadings", i % 3, f"m{i}", "fac")
            for i in range(case["n"] + 5)]
    idx = pd.MultiIndex.from_tuples(
        [keys[i] for i in rng.permutation(case["n"])],
        names=["category", "period", "name1", "name2"])
    value = rng.integers(-5, 5, case["n"]) + (0.5 if case["dtype"] != "int" else 0)
    params = pd.DataFrame({"value": value}, index=idx)
    if case["dtype"] == "object":
        params["value"] = params["value"].astype(object)
    params["lower_bound"] = -np.inf
    params["note"] = "x"
    want = dict(zip(params.index.tolist(), params["value"].tolist()))
    others = []
    for o in case["others"]:
        orng = np.random.default_rng(o["seed"])
        v = orng.integers(-50, 50, len(o["keys"])) + (0.25 if o["dtype"] == "float" else 0)
        d = pd.DataFrame(
            {"value": v},
            index=pd.MultiIndex.from_tuples(
                [keys[i] for i in o["keys"]] or [("a", 0, "b", "c")][:0],
                names=["category", "period", "name1", "name2"])
            if o["keys"] else idx[:0],
        )
        if o["bounds"]:
            d["lower_bound"] = 3.0
            d["note"] = "other"
        others.append(d)
    single = case["single"] and len(others) == 1
    for d in others:
        for k, v in zip(d.index.tolist(), d["value"].tolist()):
            if k in want:
                want[k] = v
    before = params.copy(deep=True)
    others_before = [d.copy(deep=True) for d in others]
    arg = others[0] if single else (
        others if case["container"] == "list" else tuple(others))
    got = call("update_parameter_values", update_parameter_values, params, arg)
    pd.testing.assert_frame_equal(params, before)
    for a, b in zip(others, others_before):
        pd.testing.assert_frame_equal(a, b)
    check(got.index.equals(params.index), "update changes index or order")
    check(list(got.columns) == list(params.columns), "update changes columns")
    for k, v in zip(got.index.tolist(), got["value"].tolist()):
        check(float(v) == float(want[k]), "updated value", key=k, got=v, want=want[k])
    for c in ["lower_bound", "note"]:
        check(got[c].equals(params[c]), f"update changes column {c}")
    got["value"] = -99.0
    pd.testing.assert_frame_equal(params, before)
    shared = any(k in before.index for d in others for k in d.index)
    return info(shared, [f"others={len(others)}", case["dtype"]])


PROPS = [
    Prop("edits", cases, run, quick=800, thorough=30000),
    Prop("likelihood", like_cases, run_like, quick=64, thorough=3000),
    Prop("update", update_cases, run_update, quick=400, thorough=10000,
         rule="at least one shared entry"),
]
