"""Reference model of the specification editor."""
import copy

from hypothesis import strategies as st

from vlib import gen

OPS = [
    "remove_factors",
    "extract_factors",
    "remove_measurements",
    "remove_measurements",
    "remove_controls",
    "reduce_n_periods",
    "switch_translog_to_linear",
    "switch_linear_to_translog",
]


@st.composite
def ops(draw, max_size=6):
    n = draw(st.integers(1, max_size))
    return [
        {
            "op": draw(st.sampled_from(OPS)),
            "picks": draw(st.lists(st.integers(0, 30), min_size=1, max_size=3)),
            "as_str": draw(st.booleans()),
            "unknown": draw(st.integers(0, 4)) == 0,
            "container": draw(st.sampled_from(["list", "tuple"])),
        }
        for _ in range(n)
    ]


@st.composite
def spec_cases(draw, **kwargs):
    opts = dict(max_factors=4, max_periods=5, min_periods=1, gaps=15,
                big=6, tfs=["linear", "translog", "translog", "constant", "robust_translog",
                     "log_ces", "linear_and_squares"])
    opts.update(kwargs)
    model = draw(gen.models(**opts))
    for f, spec in model["factors"].items():
        if f.isidentifier() and draw(st.integers(0, 9)) == 0:
            # a custom function that only depends on the own factor
            spec["transition_function"] = {
                "custom": {"name": "own", "terms": [["lin", "p0", f, None, "arg"],
                                                    ["const", "const", None, None, None]],
                           "params": ["p0", "const"], "args_reversed": False,
                           "use_states": False}}
    return {"model": model, "ops": draw(ops())}


def resolve(model, op):
    """Turn an abstract operation into (name, argument) valid for the model.

    None if it does not apply, i.e. if nothing would be left.
    """
    name, picks = op["op"], op["picks"]
    lab = gen.labels_of(model)
    if name in ("remove_factors", "extract_factors"):
        facs = lab["latent"]
        chosen = []
        for p in picks:
            f = facs[p % len(facs)]
            if f not in chosen:
                chosen.append(f)
        left = [f for f in facs if f not in chosen]
        if name == "extract_factors":
            left = chosen
        if not left or not any(any(model["factors"][f]["measurements"]) for f in left):
            return None
        arg = chosen
    elif name == "remove_measurements":
        names = []
        for f in model["factors"].values():
            for ms in f["measurements"]:
                names += [m for m in ms if m not in names]
        if not names:
            return None
        arg = []
        for p in picks:
            m = names[p % len(names)]
            if m not in arg:
                arg.append(m)
        if set(arg) == set(names):
            return None
        if op["unknown"]:
            arg.append("never_heard")
    elif name == "remove_controls":
        ctrls = lab["controls"][1:]
        arg = list(dict.fromkeys(ctrls[p % len(ctrls)] for p in picks)) if ctrls else []
        if op["unknown"] or not arg:
            arg.append("never_heard")
    elif name == "reduce_n_periods":
        return name, 1 + picks[0] % (lab["n_periods"] + 1)
    else:
        return name, None
    if op["as_str"] and len(arg) == 1:
        return name, arg[0]
    return name, (tuple(arg) if op["container"] == "tuple" else arg)


def shorten(model, n):
    for spec in model["factors"].values():
        spec["measurements"] = spec["measurements"][:n]
        for kind in spec.get("normalizations", {}):
            spec["normalizations"][kind] = spec["normalizations"][kind][:n]
    if "stagemap" in model:
        model["stagemap"] = model["stagemap"][: max(n - 1, 0)]


def edit(model, name, arg):
    """Intended effect of an operation, on a plain dictionary."""
    model = copy.deepcopy(model)
    names = [arg] if isinstance(arg, str) else arg
    if name in ("remove_factors", "extract_factors"):
        drop = (set(names) if name == "remove_factors"
                else set(model["factors"]) - set(names))
        model["factors"] = {k: v for k, v in model["factors"].items() if k not in drop}
        if "anchoring" in model:
            out = {k: v for k, v in model["anchoring"]["outcomes"].items()
                   if k not in drop}
            if out:
                model["anchoring"]["outcomes"] = out
            else:
                del model["anchoring"]
        last = max(t for spec in model["factors"].values()
                   for t, ms in enumerate(spec["measurements"]) if ms)
        shorten(model, last + 1)
    elif name == "remove_measurements":
        for spec in model["factors"].values():
            spec["measurements"] = [[m for m in ms if m not in names]
                                    for ms in spec["measurements"]]
            for kind, lst in spec.get("normalizations", {}).items():
                spec["normalizations"][kind] = [
                    {m: v for m, v in d.items() if m not in names} for d in lst]
    elif name == "remove_controls":
        left = [c for c in model.get("controls", []) if c not in names]
        model.pop("controls", None)
        if left:
            model["controls"] = left
    elif name == "reduce_n_periods":
        shorten(model, arg)
    else:
        a, b = {"switch_translog_to_linear": ("translog", "linear"),
                "switch_linear_to_translog": ("linear", "translog")}[name]
        for spec in model["factors"].values():
            if isinstance(spec["transition_function"], str) \
                    and spec["transition_function"] == a:
                spec["transition_function"] = b
    return model


def removes_normalized(model, arg):
    names = [arg] if isinstance(arg, str) else arg
    return any(
        m in d
        for spec in model["factors"].values()
        for lst in spec.get("normalizations", {}).values()
        for d in lst
        for m in names
    )


def canonical(model):
    """Specification with defaults spelled out; equivalent ones are equal."""
    T = max(len(f["measurements"]) for f in model["factors"].values())
    facs = {}
    for f, spec in model["factors"].items():
        norm = spec.get("normalizations", {})
        ms = spec["measurements"]
        facs[f] = {
            "measurements": [list(m) for m in ms] + [[]] * (T - len(ms)),
            "transition_function": spec["transition_function"],
            **{k: list(norm.get(k, [])) + [{}] * (T - len(norm.get(k, [])))
               for k in ["loadings", "intercepts"]},
        }
    rest = {k: v for k, v in model.items()
            if k not in ("factors", "controls", "stagemap", "observed_factors")}
    return {
        "order": list(facs),
        "factors": facs,
        "n_periods": T,
        "controls": list(model.get("controls", [])),
        "observed_factors": list(model.get("observed_factors", [])),
        "stagemap": list(model.get("stagemap", range(T - 1))),
        "rest": rest,
    }


def call_edit(name, arg, model, params=None):
    from skillmodels import utilities

    func = getattr(utilities, name)
    args = () if arg is None else (arg,)
    kwargs = {} if params is None else {"params": params}
    if name == "reduce_n_periods":
        return func(model, arg, **kwargs)
    return func(*args, model, **kwargs)
