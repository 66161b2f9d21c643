"""C24: calls neither influence each other nor modify their inputs."""
import copy
import sys

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import editor
from vlib import gen
from vlib import lk
from vlib.core import HarnessError
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import fail
from vlib.core import info

RULE = (
    "Histories of calls on one or two models that share their input objects: "
    "estimation functions (repeated construction, loglike, gradient, both, debug), "
    "filtering, simulation with a fixed seed, correlations, heatmaps, transition and "
    "density plots, specification edits. After every call all inputs are compared with "
    "snapshots; inputs are partly objects that were passed to earlier calls and "
    "overwritten in place since; every result is compared with the same call made first on fresh copies "
    "of the inputs and a freshly imported package; returned objects are overwritten in "
    "between. Non-trivial: at least three calls with at least two different functions "
    "(edits: two different edits)."
)
ASSUMPTIONS = ["relative tolerance 1e-9", "random functions are called with a fixed seed",
               "jax itself is not imported anew between calls"]
EST = ["loglike", "gradient", "loglike_and_gradient", "debug_loglike"]
LIGHT = ["corr_measurements", "corr_quasi", "corr_scores", "heatmap", "edit", "simulate",
         "densities", "contours", "process_model", "combine", "corr_quasi", "edit", "edit",
         "corr_scores", "corr_measurements", "heatmap"]
HEAVY = ["filtered", "transitions", "inputs"]


# ------------------------------------------------------------ cases
@st.composite
def ctx_specs(draw, twin_of=None, light=1):
    """Either an unrelated model or one of the same shape as the first."""
    if twin_of is not None and draw(st.booleans()):
        out = copy.deepcopy(twin_of)
        out["data"]["seed"] += 1
        out["params"] = [s + 7 for s in out["params"]]
        for f in out["model"]["factors"].values():
            if f["transition_function"] in ("linear", "linear_and_squares"):
                f["transition_function"] = {
                    "linear": "linear_and_squares", "linear_and_squares": "linear"
                }[f["transition_function"]]
        return out
    model = draw(gen.models(
        max_factors=2, max_periods=2 + light, max_meas=2, custom=10, mixtures=(1, 1, 2),
        tfs=("linear", "translog", "log_ces", "linear_and_squares"), gaps=0))
    return {"model": model,
            "data": {"n_obs": draw(st.integers(4, 7)), "seed": draw(gen.SEED),
                     "miss": draw(st.sampled_from([0.0, 0.2])),
                     "miss_ctrl": draw(st.sampled_from([0.0, 0.0, 0.1]))},
            "params": [draw(gen.SEED), draw(gen.SEED)],
            "layout": draw(gen.SEED)}


@st.composite
def light_cases(draw):
    ctxs = [draw(ctx_specs())]
    if draw(st.booleans()):
        ctxs.append(draw(ctx_specs(ctxs[0])))
    ops = draw(st.lists(op_specs(LIGHT, ctxs), min_size=2, max_size=8))
    # repeat some of the calls later
    ops += [copy.deepcopy(o) for o in ops if draw(st.booleans())]
    return {"ctxs": ctxs, "ops": ops}


@st.composite
def heavy_cases(draw):
    ctxs = [draw(ctx_specs(light=0))]
    if draw(st.integers(0, 2)) == 0:
        ctxs.append(draw(ctx_specs(ctxs[0], light=0)))
    ops = draw(st.lists(op_specs(HEAVY[2:] + LIGHT[:7], ctxs), min_size=1, max_size=5))
    # functions for estimation are called repeatedly with changing parameters
    for func in draw(st.lists(st.sampled_from(EST), min_size=1, max_size=2, unique=True)):
        first = draw(op_specs([func], ctxs))
        for i in range(draw(st.integers(2, 4))):
            ops.insert(draw(st.integers(0, len(ops))),
                       dict(first, p=(first["p"] + i) % 2, spoil=draw(st.booleans()),
                            buffer=first["buffer"] or draw(st.booleans())))
    if draw(st.booleans()):
        ops.append(draw(op_specs(HEAVY[:2], ctxs)))
    ops += [copy.deepcopy(o) for o in ops if o["op"] == "inputs" and draw(st.booleans())]
    return {"ctxs": ctxs, "ops": ops}


@st.composite
def edit_cases(draw):
    """Edits whose results are overwritten afterwards."""
    ctxs = [draw(ctx_specs())]
    ops = draw(st.lists(op_specs(["edit"], ctxs), min_size=1, max_size=4))
    ops += ops[:1] if draw(st.booleans()) else []
    return {"ctxs": ctxs, "ops": [dict(o, spoil=True) for o in ops]}


@st.composite
def op_specs(draw, names, ctxs):
    name = draw(st.sampled_from(names))
    c = draw(st.integers(0, len(ctxs) - 1))
    out = {"op": name, "ctx": c, "p": draw(st.integers(0, 1)),
           "spoil": draw(st.booleans()), "seed": draw(st.integers(0, 1)),
           # pass objects that the caller has overwritten in place since the last call
           "buffer": draw(st.booleans()),
           "d": 0 if name in EST + HEAVY else draw(st.integers(0, 1))}
    if name == "edit":
        model = ctxs[c]["model"]
        edit = editor.resolve(model, draw(editor.ops(max_size=1))[0])
        custom = any(isinstance(f["transition_function"], dict)
                     for f in model["factors"].values())
        if edit is None or custom or (
                edit[0] == "remove_measurements" and editor.removes_normalized(model, edit[1])):
            edit = ("switch_translog_to_linear", None)
        out["edit"] = list(edit)
        out["with_params"] = draw(st.booleans())
    return out


# ------------------------------------------------------------ contexts
def build(spec):
    model = spec["model"]
    rng = np.random.default_rng(spec["layout"])
    datas = [gen.make_data(model, **spec["data"]),
             gen.make_data(model, **dict(spec["data"], seed=spec["data"]["seed"] + 1))]
    if rng.uniform() < 0.5:
        order = rng.permutation(len(datas[0]))
        datas = [df.iloc[order] for df in datas]
    names = ["caseid", "wave"] if rng.uniform() < 0.5 else ["id", "period"]
    unrelated = rng.uniform() < 0.3
    for df in datas:
        df.index = df.index.set_names(names)
        if unrelated:
            df["unrelated"] = "x"
    lab = gen.labels_of(model)
    n = spec["data"]["n_obs"]
    idx = pd.MultiIndex.from_product([range(n), range(lab["n_periods"])],
                                     names=["id", "period"])
    states = pd.DataFrame(rng.normal(size=(len(idx), len(lab["latent"]))),
                          columns=lab["latent"], index=idx).reset_index()
    corr = pd.DataFrame(np.corrcoef(rng.normal(size=(3, 6))), index=list("abc"),
                        columns=list("abc"))
    return {
        "model": gen.build_model(model),
        "datas": datas,
        "params": [lk.shuffled(gen.make_params(model, s, tame=0.5), s)
                   for s in spec["params"]],
        "states": states,
        "corr": corr,
        "heatmap_kwargs": {"opacity": 0.5},
        "layout_kwargs": {"width": 400, "legend": {"orientation": "h"}},
        "state_dict": {"a": states.copy(), "b": states.iloc[::-1].copy()},
        "mapping": {lab["latent"][0]: "first"},
        "quantiles": [0.3, 0.6],
        "policies": [{"factor": lab["latent"][0], "period": 0, "effect_size": 0.5,
                      "standard_deviation": 0.2}],
    }


def import_package():
    """Import the package anew, so that no state of its modules is left."""
    for name in [m for m in sys.modules if m.split(".")[0] == "skillmodels"]:
        del sys.modules[name]
    import skillmodels  # noqa: F401


def select(op, ctx):
    return {"model": ctx["model"], "data": ctx["datas"][op["d"]],
            "params": ctx["params"][op["p"]]}


def overwrite(buffer, c, op, ctx):
    """Write the inputs of a call into objects that were passed to earlier calls."""
    new = select(op, ctx)
    if c not in buffer:
        buffer[c] = {"data": ctx["datas"][0].copy(), "params": ctx["params"][0].copy()}
    model, data, params = buffer["model"], buffer[c]["data"], buffer[c]["params"]
    model.clear()
    model.update(copy.deepcopy(new["model"]))
    for col in data.columns:
        data[col] = new["data"][col].to_numpy()
    params["value"] = new["params"].reindex(params.index)["value"].to_numpy()
    return {"model": model, "data": data, "params": params}


def perform(op, ctx, passed, mi):
    """Return (result, objects that the caller may overwrite)."""
    name = op["op"]
    params = passed["params"]
    ctx = {**ctx, **passed}
    if name in EST:
        return call(name, mi[name], params)
    if name == "inputs":
        out = mi
        return {k: out[k] for k in ["constraints", "params_template"]}
    if name == "process_model":
        from skillmodels.process_model import process_model

        out = call(name, process_model, ctx["model"])
        return {k: out[k] for k in ["dimensions", "labels", "anchoring", "update_info",
                                    "normalizations", "estimation_options"]}
    if name == "filtered":
        from skillmodels.filtered_states import get_filtered_states

        return call(name, get_filtered_states, model_dict=ctx["model"], data=ctx["data"],
                    params=params)
    if name == "simulate":
        from skillmodels.simulate_data import simulate_dataset

        np.random.seed(op["seed"])
        return call(name, simulate_dataset, model_dict=ctx["model"], params=params,
                    data=ctx["data"], policies=ctx["policies"] if op["seed"] else None)
    if name.startswith("corr"):
        from skillmodels import correlation_heatmap as ch

        sel = (None, [0]) if op["seed"] else (list(ctx["model"]["factors"]), None)
        if name == "corr_scores":
            return call(name, ch.get_scores_corr, ctx["data"], params, ctx["model"], *sel)
        func = {"corr_measurements": ch.get_measurements_corr,
                "corr_quasi": ch.get_quasi_scores_corr}[name]
        return call(name, func, ctx["data"], ctx["model"], *sel)
    if name == "heatmap":
        from skillmodels.correlation_heatmap import plot_correlation_heatmap

        return call(name, plot_correlation_heatmap, ctx["corr"],
                    heatmap_kwargs=ctx["heatmap_kwargs"],
                    layout_kwargs=ctx["layout_kwargs"],
                    show_upper_triangle=bool(op["seed"]))
    if name == "edit":
        edit_name, arg = op["edit"]
        return call(name, editor.call_edit, edit_name, copy.deepcopy(arg), ctx["model"],
                    params if op["with_params"] else None)
    if name == "transitions":
        from skillmodels.visualize_transition_equations import get_transition_plots

        return call(name, get_transition_plots, model_dict=ctx["model"], params=params,
                    data=ctx["data"], period=0, n_points=3,
                    quantiles_of_other_factors=ctx["quantiles"],
                    layout_kwargs=ctx["layout_kwargs"])
    from skillmodels import visualize_factor_distributions as vis

    args = dict(data=ctx["data"], model_dict=ctx["model"], params=params, period=0,
                states=ctx["state_dict"] if op["seed"] else ctx["states"],
                layout_kwargs=ctx["layout_kwargs"])
    if name == "densities":
        return call(name, vis.univariate_densities, observed_factors=True, **args)
    if name == "contours":
        return call(name, vis.bivariate_density_contours, n_points=3, **args)
    if name == "combine":
        uni = call(name, vis.univariate_densities, **args)
        cont = call(name, vis.bivariate_density_contours, n_points=3, **args)
        return call(name, vis.combine_distribution_plots, uni, cont,
                    factor_mapping=ctx["mapping"], layout_kwargs=ctx["layout_kwargs"])
    raise HarnessError(name)


# ------------------------------------------------------------ comparisons
def same(a, b, path="result"):
    """None or a description of the first difference."""
    import plotly.graph_objects as go

    if isinstance(a, go.Figure) and isinstance(b, go.Figure):
        return same(a.to_dict(), b.to_dict(), path)
    if type(a) is not type(b) and not (np.isscalar(a) and np.isscalar(b)):
        return f"{path}: {type(a).__name__} and {type(b).__name__}"
    if isinstance(a, (pd.DataFrame, pd.Series)):
        if list(a.index.names) != list(b.index.names) or len(a) != len(b):
            return f"{path}: index differs"
        if list(a.index) != list(b.index):
            return f"{path}: index differs"
        if isinstance(a, pd.DataFrame):
            if list(a.columns) != list(b.columns):
                return f"{path}: columns {list(a.columns)} and {list(b.columns)}"
            if list(a.dtypes) != list(b.dtypes):
                return f"{path}: dtypes"
            for i, c in enumerate(a.columns):
                d = same(a.iloc[:, i].to_numpy(), b.iloc[:, i].to_numpy(), f"{path}[{c!r}]")
                if d:
                    return d
            return None
        return same(a.to_numpy(), b.to_numpy(), path)
    if isinstance(a, dict):
        if set(a) != set(b):
            return f"{path}: keys {sorted(map(str, a))} and {sorted(map(str, b))}"
        for k in a:
            d = same(a[k], b[k], f"{path}[{k!r}]")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: lengths {len(a)} and {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return f"{path}: shapes {a.shape} and {b.shape}"
        if a.dtype.kind in "fc" and b.dtype.kind in "fc":
            ok = np.isclose(a, b, rtol=1e-9, atol=1e-10, equal_nan=True)
            return None if ok.all() else f"{path}: {a[~ok][:3]} and {b[~ok][:3]}"
        for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
            d = same(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, pd.Index):
        return None if list(a) == list(b) else f"{path}: index differs"
    if callable(a):
        return None if a is b or a.__name__ == b.__name__ else f"{path}: function"
    if isinstance(a, float) and isinstance(b, (float, int, np.floating)):
        ok = np.isclose(a, b, rtol=1e-9, atol=1e-10, equal_nan=True)
        return None if ok else f"{path}: {a} and {b}"
    if pd.api.types.is_scalar(a) and pd.isna(a) and pd.isna(b):
        return None
    return None if a == b else f"{path}: {a!r} and {b!r}"


def freeze(x):
    """Copy that shares nothing that could be overwritten."""
    import plotly.graph_objects as go

    if isinstance(x, go.Figure):
        return go.Figure(x)
    if isinstance(x, (pd.DataFrame, pd.Series)):
        out = x.copy(deep=True)
        out.index = x.index.copy()
        return out
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    if isinstance(x, list):
        return [freeze(v) for v in x]
    if isinstance(x, tuple):
        return tuple(freeze(v) for v in x)
    if callable(x):
        return x
    return copy.deepcopy(x)


def spoil(x):
    """Overwrite a returned object in place."""
    import plotly.graph_objects as go

    if isinstance(x, go.Figure):
        x.update_layout(title_text="spoiled", width=11)
        x.data = []
    elif isinstance(x, pd.DataFrame):
        if len(x.columns):
            for c in list(x.columns):
                if x[c].dtype.kind in "fiO":
                    try:
                        x.iloc[:, list(x.columns).index(c)] = -1
                    except (ValueError, TypeError):
                        pass
            x["spoiled"] = 1
            x.drop(index=x.index[:1], inplace=True)
    elif isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x.clear()
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v)
        if isinstance(x, list):
            x.clear()
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "fi":
        x[...] = -7


def key_of(op):
    return str({k: v for k, v in sorted(op.items()) if k not in ("spoil", "buffer")})


def get_inputs(ctx):
    from skillmodels import get_maximization_inputs

    return call("get_maximization_inputs", get_maximization_inputs, ctx["model"],
                ctx["datas"][0])


def run(case):
    ops = [{"d": 0, "buffer": False, **op} for op in case["ops"]]
    needs = set(EST + ["inputs"])
    # every distinct call in isolation
    alone = {}
    for op in ops:
        if key_of(op) in alone:
            continue
        import_package()
        ctx = build(case["ctxs"][op["ctx"]])
        mi = get_inputs(ctx) if op["op"] in needs else None
        alone[key_of(op)] = freeze(perform(op, ctx, select(op, ctx), mi))
    # the history with shared objects
    import_package()
    ctxs = [build(c) for c in case["ctxs"]]
    frozen = [freeze(c) for c in ctxs]
    inputs, buffer = {}, {"model": {}}
    for pos, op in enumerate(ops):
        c = op["ctx"]
        if op["op"] == "inputs" or (op["op"] in needs and c not in inputs):
            inputs[c] = get_inputs(ctxs[c])
        passed = select(op, ctxs[c])
        if op["buffer"]:
            passed = overwrite(buffer, c, op, ctxs[c])
        before = freeze(passed)
        res = perform(op, ctxs[c], passed, inputs.get(c))
        diff = same(res, alone[key_of(op)])
        if diff:
            fail("result differs from the same call in isolation", call=pos, op=op,
                 difference=diff, history=[o["op"] for o in ops[: pos + 1]])
        if op["spoil"] and op["op"] != "process_model":
            # the processed model is internal and may refer to the specification
            spoil(res)
        diff = same(passed, before, "input")
        if diff:
            fail("an input was modified by the call or through its result", call=pos,
                 op=op, difference=diff)
        for i, (ctx, froz) in enumerate(zip(ctxs, frozen)):
            diff = same(ctx, froz, "input")
            if diff:
                fail("an input was modified by the call or through its result",
                     call=pos, op=op, ctx=i, difference=diff)
    names = {o["op"] for o in ops}
    done = {str(o.get("edit")) for o in ops}
    return info(len(ops) >= 3 and len(names) > 1 or len(done) > 1,
                [f"op:{n}" for n in sorted(names)] + [f"contexts={len(ctxs)}"])


PROPS = [
    Prop("light", light_cases, run, quick=80, thorough=5000),
    Prop("edits", edit_cases, run, quick=120, thorough=4000),
    Prop("heavy", heavy_cases, run, quick=20, thorough=1000),
]
