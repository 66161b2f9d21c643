"""C12: custom transition functions are equivalent to built-in ones."""
import functools
from itertools import combinations

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import close
from vlib.core import info
from vlib.core import rejects

RULE = (
    "equivalence: a random non-empty subset of the built-in transition functions of a "
    "random model is rewritten as generated Python source (factors as arguments, via "
    "the states vector or mixed; random argument order, order and names of registered "
    "parameters, decorator styles); contributions, gradient by parameter name and "
    "simulated data under the same seed must be equal. rejected: functions without "
    "registration or name. Non-trivial: at least one rewritten function that uses two "
    "factors or two parameters."
)
ASSUMPTIONS = ["relative tolerance 1e-8"]


@st.composite
def cases(draw):
    case = draw(
        lk.cases(
            dict(max_factors=3, max_periods=3, max_meas=2, min_factors=1),
            dict(n_min=2, n_max=5), n_params=1,
        )
    )
    facs = list(case["model"]["factors"])
    k = draw(st.integers(1, len(facs)))
    case["rewrite"] = {
        f: {
            "via": draw(st.sampled_from(["arg", "states", "mixed"])),
            "seed": draw(gen.SEED),
            "rename": draw(st.booleans()),
            "style": draw(st.sampled_from(["call", "decorator", "attribute"])),
            "extra_arg": draw(st.booleans()),
        }
        for f in draw(st.permutations(facs))[:k]
    }
    case["share"] = draw(st.booleans())
    case["what"] = draw(st.sampled_from(["loglike", "gradient", "simulate"]))
    return case


def rewrite(tf, fac, all_facs, spec):
    """Source of an equivalent custom function; returns (callable, name map)."""
    import jax.numpy as jnp
    from skillmodels.decorators import register_params

    rng = np.random.default_rng(spec["seed"])
    names = gen.tf_param_names(tf, all_facs)
    mapping = {n: (f"q{i}" if spec["rename"] else n) for i, n in enumerate(names)}
    args = set()

    def var(f):
        how = spec["via"]
        if how == "mixed":
            how = rng.choice(["arg", "states"])
        if how == "arg" and f.isidentifier():
            args.add(f)
            return f
        args.add("states")
        return f"states[{all_facs.index(f)}]"

    def par(n):
        return f"params[{mapping[n]!r}]"

    terms = []
    if tf == "constant":
        terms = [var(fac)]
    elif tf in ("linear", "translog", "robust_translog", "linear_and_squares"):
        terms = [f"{par(f)} * {var(f)}" for f in all_facs]
        if tf != "linear":
            terms += [f"{par(f'{f} ** 2')} * {var(f)} ** 2" for f in all_facs]
        if "translog" in tf:
            terms += [f"{par(f'{a} * {b}')} * {var(a)} * {var(b)}"
                      for a, b in combinations(all_facs, 2)]
        terms.append(par("constant"))
    elif tf == "log_ces":
        inner = " + ".join(
            f"{par(f)} * jnp.exp({par('phi')} * {var(f)})" for f in all_facs)
        terms = [f"jnp.log({inner}) / {par('phi')}"]
    elif tf == "log_ces_general":
        inner = " + ".join(
            f"{par(f)} * jnp.exp({par(f'sigma_{f}')} * {var(f)})" for f in all_facs)
        terms = [f"{par('tfp')} * jnp.log({inner})"]
    terms = [terms[i] for i in rng.permutation(len(terms))]
    if spec["extra_arg"]:
        # arguments that are not used are allowed
        cand = [f for f in all_facs if f.isidentifier()]
        if cand:
            args.add(cand[rng.integers(len(cand))])
    arglist = sorted(args) + ["params"]
    arglist = [arglist[i] for i in rng.permutation(len(arglist))]
    src = f"def production({', '.join(arglist)}):\n    return {' + '.join(terms)}\n"
    ns = {"jnp": jnp}
    exec(src, ns)  # noqa: S102
    func = ns["production"]
    reg = [mapping[n] for n in names]
    reg = [reg[i] for i in rng.permutation(len(reg))]
    if spec["style"] == "call":
        func = register_params(func, params=reg)
    elif spec["style"] == "decorator":
        func = register_params(params=reg)(func)
    else:
        func.__registered_params__ = reg
    return func, mapping


def run(case):
    model = case["model"]
    lab = gen.labels_of(model)
    df = lk.data_of(case)
    vals = gen.make_params(model, case["params"][0], tame=0.5)
    built = gen.build_model(model)
    custom = gen.build_model(model)
    maps = {}
    shared = {}
    for f, spec in case["rewrite"].items():
        tf = model["factors"][f]["transition_function"]
        if case.get("share") and tf in shared and tf != "constant":
            # one function for several factors
            func, maps[f] = shared[tf]
        else:
            func, maps[f] = shared[tf] = rewrite(tf, f, lab["all"], spec)
        custom["factors"][f]["transition_function"] = func

    def new_name(tup):
        if tup[0] == "transition" and tup[2] in maps:
            return (*tup[:3], maps[tup[2]][tup[3]])
        return tup

    new_vals = {new_name(t): v for t, v in vals.items()}
    want, _ = lk.ref_contribs(model, vals, df)
    if not lk.finite(want) or np.abs(want).max() > 1e4:
        return info(False, ["not-finite"])
    labels = [case["what"]] + lk.features(model)
    p1, p2 = lk.shuffled(vals, case["params"][0]), lk.shuffled(new_vals, 1)
    if case["what"] == "simulate":
        from skillmodels.simulate_data import simulate_dataset

        outs = []
        for m, p in [(built, p1), (custom, p2)]:
            np.random.seed(case["params"][0])
            outs.append(call("simulate_dataset", simulate_dataset, m, p, data=df))
        for key in ["unanchored_states", "anchored_states"]:
            a, b = (o[key]["states"][lab["latent"]] for o in outs)
            if not lk.finite(a):
                return info(False, ["not-finite"])
            close(f"simulated {key}", b, a, rtol=1e-8, atol=1e-8)
        cols = [c for c in outs[0]["measurements"] if c not in ("id", "period")]
        close("simulated measurements", outs[1]["measurements"][cols],
              outs[0]["measurements"][cols], rtol=1e-7, atol=1e-7, equal_nan=True)
    else:
        lf = lk.repo()
        m1 = call("get_maximization_inputs", lf.get_maximization_inputs, built, df)
        m2 = call("get_maximization_inputs", lf.get_maximization_inputs, custom, df)
        i1 = [tuple(t) for t in m1["params_template"].index]
        i2 = [tuple(t) for t in m2["params_template"].index]
        check(set(i2) == {new_name(t) for t in i1}, "parameters of custom functions",
              missing=[t for t in map(new_name, i1) if t not in i2][:4],
              additional=sorted(set(i2) - {new_name(t) for t in i1}, key=str)[:4])
        check(set(i1) == set(vals), "template of built-in model")
        if case["what"] == "loglike":
            a = call("loglike", m1["loglike"], p1)["contributions"]
            b = call("loglike", m2["loglike"], p2)["contributions"]
            close("contributions of custom model", b, a, rtol=1e-8, atol=1e-8)
        else:
            c1, g1 = call("loglike_and_gradient", m1["loglike_and_gradient"], p1)
            c2, g2 = call("loglike_and_gradient", m2["loglike_and_gradient"], p2)
            close("contributions of custom model", c2["contributions"],
                  c1["contributions"], rtol=1e-8, atol=1e-8)
            d1 = {new_name(t): g for t, g in zip(i1, g1)}
            g1 = np.array([d1[t] for t in i2])
            close("gradient of custom model", g2, g1, rtol=1e-6,
                  atol=1e-7 * max(1.0, np.abs(g1).max()))
    rich = any(
        model["factors"][f]["transition_function"] != "constant"
        and (len(lab["all"]) > 1 or len(maps[f]) > 1) for f in maps
    )
    return info(rich, labels + [f"via={s['via']}" for s in case["rewrite"].values()])


@st.composite
def bad_cases(draw):
    model = draw(gen.models(max_factors=3, max_periods=3, max_meas=2))
    return {
        "model": model,
        "factor": draw(st.sampled_from(list(model["factors"]))),
        "kind": draw(st.sampled_from(["unregistered", "lambda", "nameless"])),
        "registered": draw(st.booleans()),
    }


def run_bad(case):
    from skillmodels.process_model import process_model

    built = gen.build_model(case["model"])

    def func(states, params):
        return states[0]

    if case["kind"] == "lambda":
        func = lambda states, params: states[0]  # noqa: E731
    elif case["kind"] == "nameless":
        func = functools.partial(func)
        if case["registered"]:
            func.__registered_params__ = []
    built["factors"][case["factor"]]["transition_function"] = func
    data = gen.make_data(case["model"], 3, 1)
    for name, f in [("process_model", lambda: process_model(built)),
                    ("get_maximization_inputs",
                     lambda: lk.repo().get_maximization_inputs(built, data))]:
        err = rejects(f"{name} with {case['kind']} function",
                      (AttributeError, ValueError, TypeError), f)
        word = "__name__" if case["kind"] == "nameless" else "register"
        check(word in str(err), "error does not explain what is missing", got=str(err))
    return info(True, [case["kind"]])


PROPS = [
    Prop("equivalence", cases, run, quick=80, thorough=6000),
    Prop("rejected", bad_cases, run_bad, quick=80, thorough=2000),
]
