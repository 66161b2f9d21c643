"""C08: the parameter template is complete, unique and strictly enforced."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from skillmodels.utilities import update_parameter_values
from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import close
from vlib.core import info
from vlib.core import rejects

RULE = (
    "template: the index of the template equals an independent enumeration of all "
    "model quantities. use: parameters in random row orders give equal results, and "
    "after changing randomly chosen named entries the contributions still equal the "
    "reference filter that reads parameters by name. faults: frames with deleted, "
    "added, renamed or duplicated entries are rejected with a ValueError that names "
    "exactly the affected entries, by all functions returned for estimation. "
    "Non-trivial: more than eight parameters."
)
ASSUMPTIONS = ["reference filter with relative tolerance 2e-6"]
TINY = dict(n_min=2, n_max=4)


def run_template(case):
    model = case["model"]
    mi = lk.max_inputs(model, lk.data_of(case))
    tmpl = mi["params_template"]
    idx = tmpl.index
    check(list(idx.names) == ["category", "period", "name1", "name2"], "index names",
          got=list(idx.names))
    want = gen.index_tuples(model)
    got = list(map(tuple, idx.tolist()))
    check(len(set(got)) == len(got), "template has duplicates",
          dup=[t for t in got if got.count(t) > 1][:4])
    check(set(got) == set(want), "template differs from enumeration",
          missing=sorted(set(want) - set(got), key=str)[:6],
          additional=sorted(set(got) - set(want), key=str)[:6])
    check("value" in tmpl.columns and tmpl["value"].isna().all(),
          "values of the template are not empty")
    check(tmpl["value"].dtype == float, "values of the template are not numeric",
          got=str(tmpl["value"].dtype))
    check("lower_bound" in tmpl.columns, "no lower bounds in template")
    return info(len(want) > 8, lk.features(model))


@st.composite
def use_cases(draw):
    case = draw(lk.cases(dict(max_factors=3, max_periods=3, custom=10, max_meas=2),
                         TINY, n_params=1))
    case["orders"] = draw(st.lists(gen.SEED, min_size=2, max_size=2))
    case["fill"] = draw(st.lists(st.sampled_from(FILL), min_size=1, max_size=2))
    case["perturb"] = draw(st.lists(gen.SEED, min_size=1, max_size=4))
    return case


FILL = ["entry", "category", "update", "column", "list"]


def filled(template, vals, style):
    """The template with values that were set in one of the ways pandas offers."""
    params = template.copy()
    values = gen.params_df(vals)["value"]
    if style == "entry":
        for tup, v in vals.items():
            params.loc[tup, "value"] = v
    elif style == "category":
        for cat in dict.fromkeys(t[0] for t in vals):
            rows = params.index.get_level_values(0) == cat
            params.loc[rows, "value"] = values.loc[params.index[rows]].to_numpy()
    elif style == "update":
        tups = list(vals)
        parts = [gen.params_df({t: vals[t] for t in tups[i::2]}) for i in range(2)]
        params = update_parameter_values(params, [p for p in parts if len(p)])
    elif style == "column":
        params["value"] = values
    else:
        params["value"] = [vals[tuple(t)] for t in params.index]
    return params


def perturbable(model, tup):
    cat, _, n1, n2 = tup
    if cat == "mixture_weights":
        return False
    if cat == "transition":
        tf = model["factors"][n1]["transition_function"]
        return tf not in ("log_ces", "log_ces_general")
    if cat == "shock_sds":
        return model["factors"][n1]["transition_function"] != "constant"
    return True


def run_use(case):
    model = case["model"]
    df = lk.data_of(case)
    mi = lk.max_inputs(model, df)
    vals = gen.make_params(model, case["params"][0])
    want, _ = lk.ref_contribs(model, vals, df)
    if not lk.finite(want) or np.abs(want).max() > 1e5:
        return info(False, ["not-finite"])
    base = None
    for style in case["fill"]:
        params = filled(mi["params_template"], vals, style)
        check(list(map(tuple, params.index)) == list(map(tuple, mi["params_template"].index)),
              "index of the filled template", style=style)
        out = call(f"loglike with template filled by {style}", mi["loglike"], params)
        close(f"contributions with template filled by {style}", out["contributions"],
              want.sum(axis=0), rtol=2e-6, atol=1e-6)
    for order in case["orders"]:
        params = lk.shuffled(vals, order)
        if order % 2:
            params["lower_bound"] = 0.0
            params.insert(0, "zzz", "text")
        out = call("loglike", mi["loglike"], params)
        close("contributions", out["contributions"], want.sum(axis=0), rtol=2e-6,
              atol=1e-6)
        if base is not None:
            close("row order of params matters", out["contributions"], base, rtol=0,
                  atol=0)
        base = out["contributions"]
    names = [t for t in vals if perturbable(model, t)]
    new = dict(vals)
    for seed in case["perturb"]:
        rng = np.random.default_rng(seed)
        pick = names[rng.integers(len(names))]
        factor = rng.uniform(1.05, 1.3)
        new[pick] = new[pick] * factor + (0.05 if new[pick] >= 0 else -0.05)
        want, _ = lk.ref_contribs(model, new, df)
        if not lk.finite(want) or np.abs(want).max() > 1e5:
            break
        out = call("loglike", mi["loglike"], lk.shuffled(new, seed))
        close("contributions after changing one entry", out["contributions"],
              want.sum(axis=0), rtol=2e-6, atol=1e-6, changed=pick)
    return info(len(vals) > 8, lk.features(model, df))


@st.composite
def fault_cases(draw):
    case = draw(lk.cases(dict(max_factors=2, max_periods=3, custom=5, max_meas=2),
                         TINY, n_params=1))
    case["faults"] = draw(
        st.lists(
            st.tuples(st.sampled_from(["delete", "add", "rename", "duplicate"]),
                      gen.SEED, st.integers(1, 3)),
            min_size=1, max_size=4,
        )
    )
    return case


def run_faults(case):
    model = case["model"]
    df = lk.data_of(case)
    mi = lk.max_inputs(model, df)
    vals = gen.make_params(model, case["params"][0])
    params = gen.params_df(vals)
    funcs = ["loglike", "debug_loglike", "gradient", "jacobian", "loglike_and_gradient"]
    for kind, seed, k in case["faults"]:
        rng = np.random.default_rng(seed)
        tups = list(params.index)
        pos = rng.choice(len(tups), size=min(k, len(tups)), replace=False)
        picked = [tups[i] for i in pos]
        missing, added = set(), set()
        if kind == "delete":
            bad = params.drop(index=picked)
            missing = set(picked)
        elif kind in ("add", "rename"):
            new = []
            for c, t, a, b in picked:
                new.append([(c, t + 7, a, b), (c, t, f"{a}_new", b), (c, t, a, "zz9"),
                            ("other", t, a, b)][rng.integers(4)])
            new = list(dict.fromkeys(new))
            extra = pd.DataFrame(
                {"value": 1.0},
                index=pd.MultiIndex.from_tuples(new, names=params.index.names),
            )
            added = set(new)
            keep = params
            if kind == "rename":
                keep = params.drop(index=picked)
                missing = set(picked)
            bad = pd.concat([keep, extra])
        else:
            bad = pd.concat([params, params.loc[picked]])
        bad = bad.iloc[rng.permutation(len(bad))]
        for name in funcs:
            err = rejects(f"{name} with {kind} entries {picked}", (ValueError,),
                          mi[name], bad)
            msg = str(err)
            for t in missing | added:
                check(str(t) in msg, f"{name}: error does not name {t}", message=msg)
            if kind != "duplicate":
                for t in tups:
                    if t not in missing:
                        check(str(t) not in msg, f"{name}: error names valid entry {t}",
                              message=msg)
    return info(len(vals) > 8, [k for k, _, _ in case["faults"]])


PROPS = [
    Prop(
        "template",
        lambda: lk.cases(dict(custom=20, max_factors=4, min_periods=1, big=8), TINY, n_params=1),
        run_template, quick=240, thorough=8000,
    ),
    Prop("use", use_cases, run_use, quick=96, thorough=4000),
    Prop("faults", fault_cases, run_faults, quick=64, thorough=3000),
]
