"""Hypothesis strategies for model specifications, parameters and datasets.

Cases are JSON: structure is drawn by Hypothesis, numeric arrays are a pure
function of drawn integer seeds (numpy default_rng), so that cases stay small,
replayable and shrinkable.
"""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

AFFINE = ["linear", "constant"]
BUILTIN = [
    "linear",
    "constant",
    "translog",
    "robust_translog",
    "linear_and_squares",
    "log_ces",
    "log_ces_general",
]
NAME_POOLS = [
    ["fac1", "fac2", "fac3", "fac4", "fac10", "fac11"],
    ["b", "a", "ab", "aa", "B", "ba"],
    ["skill", "inv", "parents", "health", "cog", "home"],
    ["z_9", "Z", "cog", "f", "z", "_y"],
    # "Any python string is possible as factor name."
    ["non-cog", "it's", "health (self)", 'a "b" & c', "x/y", "ü"],
]
SEED = st.integers(0, 2**20)


def _w(*pairs):
    """Weighted choice: pairs of (value, weight)."""
    flat = [v for v, k in pairs for _ in range(k)]
    return st.sampled_from(flat)


@st.composite
def models(
    draw,
    tfs=tuple(BUILTIN),
    max_factors=3,
    min_periods=2,
    max_periods=4,
    min_factors=1,
    anchoring=True,
    observed=True,
    controls=True,
    mixtures=(1, 1, 2, 3),
    stages=True,
    normalizations=True,
    custom=0,
    multi_loading=True,
    options=True,
    max_meas=3,
    clipping=False,
    names=None,
    max_updates=26,
    gaps=10,
    big=0,
):
    n_fac = draw(st.integers(min_factors, max_factors))
    n_per = draw(st.integers(min_periods, max_periods))
    # models that are large in one respect (two digits), in percent of the models
    large = None
    if big and draw(st.integers(0, 99)) >= 100 - big:
        large = draw(st.sampled_from(
            ["periods", "mixtures", "measurements", "wide"]
            + ["factors"] * (max_factors > 2)
        ))
        n_fac = draw(st.integers(min_factors, max(min_factors, min(2, max_factors))))
        if large == "periods":
            n_per = draw(st.sampled_from([11, 12]))
            max_meas = min(max_meas, 2)
        elif large == "mixtures":
            n_per = max(min_periods, min(2, max_periods))
            mixtures = (11, 12)
        elif large == "factors":
            n_fac = draw(st.integers(5, 6))
            max_meas = min(max_meas, 2)
            n_per = max(min_periods, min(3, max_periods))
            mixtures = (1,)
    pool = draw(st.sampled_from(names or NAME_POOLS))
    facs = draw(st.permutations(pool))[:n_fac]
    n_obs_fac = draw(_w((0, 3), (1, 2), (2, 1))) if observed else 0
    if large == "wide" and observed:
        n_obs_fac = 3
    obs_pool = draw(_w((["income", "o2", "treat"], 4), (["log income", "o-2", "é"], 1)))
    obs_facs = draw(st.permutations(obs_pool))[:n_obs_fac]
    all_facs = list(facs) + list(obs_facs)
    n_ctr = draw(_w((0, 2), (1, 2), (2, 1))) if controls else 0
    ctr_pool = ["x1", "age", "c"]
    if large == "wide" and controls:
        n_ctr, ctr_pool = 4, [*ctr_pool, "x10", "X"]
    ctrs = draw(st.permutations(ctr_pool))[:n_ctr]

    style = draw(st.sampled_from(["panel", "panel", "distinct", "shared"]))
    factors = {}
    for i, fac in enumerate(facs):
        # a factor has measurements in a prefix or subset of periods; the first
        # factor has at least one in each period (see DESIGN: empty periods)
        per_period = []
        pattern = draw(
            st.sampled_from(["all", "all", "all", "first", "some", "varying"])
        )
        if i == 0 and pattern in ("first", "some"):
            pattern = "varying"
        for t in range(n_per):
            if pattern == "all":
                k = draw(st.integers(1, max_meas)) if t == 0 else len(per_period[0])
            elif pattern == "first":
                k = draw(st.integers(1, max_meas)) if t == 0 else 0
            elif pattern == "some":
                k = draw(st.integers(0, max_meas - 1))
            else:
                k = draw(st.integers(1, max_meas))
            if large == "measurements" and i == 0 and k:
                k = 11
            if style == "distinct":
                ms = [f"{fac}_p{t}_m{j}" for j in range(k)]
            else:
                ms = [f"{fac}_m{j}" for j in range(k)]
            per_period.append(ms)
        if pattern == "first" and draw(st.booleans()):
            per_period = per_period[:1]
        elif i > 0:
            while len(per_period) > 1 and not per_period[-1]:
                per_period.pop()
        factors[fac] = {"measurements": per_period}

    if gaps and n_per > 1 and draw(st.integers(0, 99)) >= 100 - gaps:
        # no measurement of any factor in some periods, at least one stays
        blank = draw(st.lists(st.integers(0, n_per - 1), min_size=1,
                              max_size=n_per - 1, unique=True))
        if draw(st.booleans()) and n_per - 1 in blank:
            blank = blank[:1]
        used = {
            t for t in range(n_per) if t not in blank
            and any(t < len(f["measurements"]) and f["measurements"][t]
                    for f in factors.values())
        }
        if used:
            for f in factors.values():
                for t in blank:
                    if t < len(f["measurements"]):
                        f["measurements"][t] = []

    if multi_loading and n_fac > 1 and (style == "shared" or draw(st.booleans())):
        # let some measurements load on a second factor
        for _ in range(draw(st.integers(1, 3))):
            src = draw(st.sampled_from(facs))
            dst = draw(st.sampled_from(facs))
            t = draw(st.integers(0, n_per - 1))
            sm, dm = factors[src]["measurements"], factors[dst]["measurements"]
            if src != dst and t < len(sm) and sm[t] and t < len(dm):
                m = draw(st.sampled_from(sm[t]))
                if m not in dm[t]:
                    dm[t].append(m)

    for fac in facs:
        if custom and draw(st.integers(0, 99)) < custom:
            earlier = [
                factors[f]["transition_function"] for f in facs
                if isinstance(factors[f].get("transition_function"), dict)
            ]
            if earlier and draw(st.booleans()):
                # one function for several factors
                factors[fac]["transition_function"] = draw(st.sampled_from(earlier))
                continue
            factors[fac]["transition_function"] = draw(
                custom_functions(fac, list(facs), all_facs)
            )
        else:
            factors[fac]["transition_function"] = draw(st.sampled_from(list(tfs)))

    if normalizations and draw(st.booleans()):
        for fac in facs:
            if draw(st.booleans()):
                norm = {}
                for kind in ["loadings", "intercepts"]:
                    if draw(st.booleans()):
                        lst = []
                        for t, ms in enumerate(factors[fac]["measurements"]):
                            if ms and draw(st.booleans()):
                                m = draw(st.sampled_from(ms))
                                lo = [1, -1, 2.5, 0.5]
                                hi = lo + [0]
                                val = draw(
                                    st.sampled_from(lo if kind == "loadings" else hi)
                                )
                                lst.append({m: val})
                            else:
                                lst.append({})
                        if draw(st.booleans()):
                            while lst and not lst[-1]:
                                lst.pop()
                        elif draw(st.booleans()):
                            # "one dictionary per period of the model"
                            lst += [{}] * (n_per - len(lst))
                        norm[kind] = lst
                factors[fac]["normalizations"] = norm

    model = {"factors": factors}
    if anchoring and draw(st.integers(0, 99)) < (50 if anchoring is True else anchoring):
        k = draw(st.integers(1, n_fac))
        anchored = draw(st.permutations(list(facs)))[:k]
        outcomes = {}
        for f in anchored:
            outcomes[f] = draw(st.sampled_from(["Q1", "Q2"]))
        anch = {"outcomes": outcomes}
        for opt in [
            "free_controls",
            "free_constant",
            "free_loadings",
            "ignore_constant_when_anchoring",
        ]:
            if draw(st.booleans()):
                anch[opt] = draw(st.booleans())
        model["anchoring"] = anch
    if n_ctr or (controls and draw(st.integers(0, 9)) == 0):
        model["controls"] = list(ctrs)
    if n_obs_fac:
        model["observed_factors"] = list(obs_facs)
    if stages and draw(st.booleans()):
        sm = [0]
        for _ in range(n_per - 2):
            sm.append(sm[-1] + draw(st.integers(0, 1)))
        model["stagemap"] = sm[: n_per - 1]
    opts = {}
    n_mix = draw(st.sampled_from(list(mixtures)))
    if n_mix > 1 or draw(st.booleans()):
        opts["n_mixtures"] = n_mix
    if options:
        if draw(st.integers(0, 2)) == 0:
            opts["sigma_points_scale"] = draw(st.sampled_from([0.5, 1, 2, 3.7]))
        if draw(st.integers(0, 3)) == 0:
            opts["robust_bounds"] = draw(st.booleans())
        if draw(st.integers(0, 3)) == 0:
            opts["bounds_distance"] = draw(st.sampled_from([1e-6, 1e-3, 0.1]))
    if clipping:
        if draw(st.booleans()):
            opts["clipping_lower_bound"] = draw(
                st.sampled_from([None, -1e250, -30.0, -5.0, -2.0])
            )
        if draw(st.booleans()):
            opts["clipping_upper_bound"] = draw(st.sampled_from([None, 0.0, -0.5, 5.0]))
        if draw(st.booleans()):
            opts["clipping_lower_hardness"] = draw(st.sampled_from([0.3, 1, 2.5, 10]))
        if draw(st.booleans()):
            opts["clipping_upper_hardness"] = draw(st.sampled_from([0.3, 1, 2.5, 10]))
    # all sections but the factors are optional
    if opts or draw(st.booleans()):
        model["estimation_options"] = opts
    return model


@st.composite
def custom_functions(draw, fac, latent, all_facs):
    """A custom transition function as a list of terms (see build_custom)."""
    n = draw(st.integers(0, 4))
    terms = []
    pnames = []
    for i in range(n):
        kind = draw(st.sampled_from(["lin", "lin", "sq", "inter", "tanh", "exp"]))
        via = draw(st.sampled_from(["arg", "arg", "states"]))
        a = draw(st.sampled_from(all_facs))
        b = draw(st.sampled_from(all_facs))
        pn = draw(st.sampled_from([f"p{i}", f"beta_{i}", f"{a}_{i}"]))
        pnames.append(pn)
        terms.append([kind, pn, a, b, via])
    if draw(st.booleans()):
        pnames.append("const")
        terms.append(["const", "const", None, None, None])
    if draw(st.booleans()) or not terms:
        terms.append(["self", None, fac, None, draw(st.sampled_from(["arg", "states"]))])
    order = draw(st.permutations(pnames))
    return {
        "custom": {
            "name": draw(st.sampled_from(
                ["my_func", "g", "linear2", "constant", "log_ces", "translog"])),
            "terms": terms,
            "params": list(order),
            "args_reversed": draw(st.booleans()),
            "use_states": draw(st.booleans()),
        }
    }


def build_custom(spec, all_facs):
    """Source -> callable with register_params, in the style of the docs."""
    import jax.numpy as jnp
    from skillmodels.decorators import register_params

    c = spec["custom"]
    args, exprs = [], []
    need_states = c["use_states"]

    def var(f, via):
        nonlocal need_states
        if via == "states" or not f.isidentifier():
            need_states = True
            return f"states[{all_facs.index(f)}]"
        if f not in args:
            args.append(f)
        return f

    for kind, pn, a, b, via in c["terms"]:
        if kind == "const":
            exprs.append(f"params[{pn!r}]")
        elif kind == "lin":
            exprs.append(f"params[{pn!r}] * {var(a, via)}")
        elif kind == "sq":
            exprs.append(f"params[{pn!r}] * {var(a, via)} ** 2")
        elif kind == "inter":
            exprs.append(f"params[{pn!r}] * {var(a, via)} * {var(b, 'arg')}")
        elif kind == "tanh":
            exprs.append(f"jnp.tanh(params[{pn!r}] * {var(a, via)})")
        elif kind == "exp":
            exprs.append(f"params[{pn!r}] * jnp.exp(-({var(a, via)}) ** 2)")
        elif kind == "self":
            exprs.append(f"{var(a, via)}")
        else:
            raise ValueError(kind)
    allargs = args + (["states"] if need_states else []) + ["params"]
    if c["args_reversed"]:
        allargs = allargs[::-1]
    src = f"def {c['name']}({', '.join(allargs)}):\n    return {' + '.join(exprs)}\n"
    ns = {"jnp": jnp}
    exec(src, ns)  # noqa: S102
    return register_params(ns[c["name"]], params=list(c["params"]))


def labels_of(model):
    """latent, observed, all factors, controls, n_periods, n_mixtures."""
    latent = list(model["factors"])
    obs = list(model.get("observed_factors", []))
    n_per = max(len(f["measurements"]) for f in model["factors"].values())
    return {
        "latent": latent,
        "observed": obs,
        "all": latent + obs,
        "controls": ["constant"] + list(model.get("controls", [])),
        "n_periods": n_per,
        "n_mixtures": model.get("estimation_options", {}).get("n_mixtures", 1),
    }


def build_model(model):
    """JSON spec -> model_dict with callables for custom functions."""
    import copy
    import json

    out = copy.deepcopy(model)
    all_facs = labels_of(model)["all"]
    built = {}
    for f in out["factors"].values():
        tf = f["transition_function"]
        if isinstance(tf, dict):
            # factors with the same specification share the function
            key = json.dumps(tf, sort_keys=True)
            if key not in built:
                built[key] = build_custom(tf, all_facs)
            f["transition_function"] = built[key]
    return out


# ------------------------------------------------------------------- data
def updates_of(model):
    """[(period, name, [factors], purpose)] in the order of the documentation."""
    lab = labels_of(model)
    out = []
    anch = model.get("anchoring", {"outcomes": {}})["outcomes"]
    for t in range(lab["n_periods"]):
        here = {}
        for fac in lab["latent"]:
            ms = model["factors"][fac]["measurements"]
            for m in ms[t] if t < len(ms) else []:
                here.setdefault(m, []).append(fac)
        for m, facs in here.items():
            out.append((t, m, facs, "measurement"))
        for fac in lab["latent"]:
            if fac in anch:
                out.append((t, f"{anch[fac]}_{fac}", [fac], "anchoring"))
    return out


def meas_columns(model):
    """Data columns needed per period (anchoring outcomes included)."""
    lab = labels_of(model)
    cols = {t: [] for t in range(lab["n_periods"])}
    for t, m, _, purpose in updates_of(model):
        if purpose == "measurement" and m not in cols[t]:
            cols[t].append(m)
    for out in model.get("anchoring", {"outcomes": {}})["outcomes"].values():
        for t in cols:
            if out not in cols[t]:
                cols[t].append(out)
    return cols


def make_data(
    model,
    n_obs,
    seed,
    miss=0.0,
    miss_ctrl=0.0,
    scale=1.0,
    absent_cols=False,
    rounded=False,
    codes=False,
):
    """Balanced long frame with MultiIndex (id, period), ids 0.., periods 0..

    Constructed to satisfy the documented requirements: no measurement with a
    single distinct value in a period, no control missing for everybody, no
    missing observed factor.
    """
    rng = np.random.default_rng(seed)
    lab = labels_of(model)
    n_per = lab["n_periods"]
    idx = pd.MultiIndex.from_product([range(n_obs), range(n_per)], names=["id", "period"])
    cols = meas_columns(model)
    allcols = []
    for t in range(n_per):
        allcols += [c for c in cols[t] if c not in allcols]
    ctrls = [c for c in lab["controls"] if c != "constant"]
    arrs = {}
    common = rng.normal(size=(n_obs, 1))
    for c in allcols:
        x = scale * (0.6 * common + 0.8 * rng.normal(size=(n_obs, n_per)))
        m = rng.uniform(size=(n_obs, n_per)) < miss
        for t in range(n_per):
            if c not in cols[t]:
                # columns exist for all periods in long format; unused cells are
                # sometimes filled with irrelevant values
                m[:, t] = rng.uniform() < 0.5
                continue
            left = np.flatnonzero(~m[:, t])
            if len(left) == 1:
                if rng.uniform() < 0.3:
                    m[:, t] = True
                else:
                    other = (left[0] + 1) % n_obs
                    m[other, t] = False
        x[m] = np.nan
        if rounded:
            # discrete measurements (zero is a frequent value) that still vary
            r = np.round(x / scale) * scale
            if all(np.ptp(r[:, t][~m[:, t]]) > 0 for t in range(n_per)
                   if (~m[:, t]).sum() > 1):
                x = r
        if codes:
            # values that are sometimes used as codes, but are measurements here
            crng = np.random.default_rng([seed, len(arrs)])
            r = np.where((crng.uniform(size=x.shape) < 0.04) & ~m,
                         crng.choice([-99.0, -9.0, -1.0, 0.0, 9.0, 99.0], x.shape), x)
            if all(np.ptp(r[:, t][~m[:, t]]) > 0 for t in range(n_per)
                   if (~m[:, t]).sum() > 1):
                x = r
        arrs[c] = x
    for c in ctrls:
        x = rng.normal(size=(n_obs, n_per))
        m = rng.uniform(size=(n_obs, n_per)) < miss_ctrl
        for t in range(n_per):
            if m[:, t].all():
                m[rng.integers(n_obs), t] = False
        x[m] = np.nan
        arrs[c] = x
    for c in lab["observed"]:
        arrs[c] = rng.normal(size=(n_obs, n_per))
    df = pd.DataFrame({k: v.reshape(-1) for k, v in arrs.items()}, index=idx)
    return df


def after_control_rule(model, df):
    """Independent statement of the rule for missing controls: all measurements of
    an individual and period with a missing control count as missing."""
    lab = labels_of(model)
    out = df.copy()
    ctrls = [c for c in lab["controls"] if c != "constant"]
    if ctrls:
        rows = df[ctrls].isna().any(axis=1)
        meas = [c for c in df.columns if c not in ctrls and c not in lab["observed"]]
        out.loc[rows, meas] = np.nan
    return out


# ------------------------------------------------------------------- params
def tf_param_names(tf, all_facs):
    from itertools import combinations

    if isinstance(tf, dict):
        return list(tf["custom"]["params"])
    sq = [f"{f} ** 2" for f in all_facs]
    if tf == "linear":
        return all_facs + ["constant"]
    if tf == "constant":
        return []
    if tf in ("translog", "robust_translog"):
        inter = [f"{a} * {b}" for a, b in combinations(all_facs, 2)]
        return all_facs + sq + inter + ["constant"]
    if tf == "linear_and_squares":
        return all_facs + sq + ["constant"]
    if tf == "log_ces":
        return all_facs + ["phi"]
    if tf == "log_ces_general":
        return all_facs + [f"sigma_{f}" for f in all_facs] + ["tfp"]
    raise ValueError(tf)


def index_tuples(model):
    """Independent enumeration of all parameters, by documented naming scheme."""
    lab = labels_of(model)
    T, K = lab["n_periods"], lab["n_mixtures"]
    ups = updates_of(model)
    out = []
    for t, m, _, _ in ups:
        out += [("controls", t, m, c) for c in lab["controls"]]
    for t, m, facs, _ in ups:
        out += [("loadings", t, m, f) for f in lab["latent"] if f in facs]
    out += [("meas_sds", t, m, "-") for t, m, _, _ in ups]
    out += [("shock_sds", t, f, "-") for t in range(T - 1) for f in lab["latent"]]
    for k in range(K):
        out += [("initial_states", 0, f"mixture_{k}", f) for f in lab["latent"]]
    out += [("mixture_weights", 0, f"mixture_{k}", "-") for k in range(K)]
    for k in range(K):
        for i, f in enumerate(lab["latent"]):
            for j in range(i + 1):
                name = f"{f}-{lab['latent'][j]}"
                out.append(("initial_cholcovs", 0, f"mixture_{k}", name))
    for f in lab["latent"]:
        names = tf_param_names(model["factors"][f]["transition_function"], lab["all"])
        for t in range(T - 1):
            out += [("transition", t, f, n) for n in names]
    return out


def make_params(model, seed, signs=True, degenerate=False, tame=1.0, special=True,
                scales=True):
    """Admissible parameter values as an ordered dict {index tuple: value}."""
    vals = _random_params(model, seed, signs, degenerate, tame)
    return specialize(model, vals, seed, scales and tame == 1.0) if special else vals


def specialize(model, vals, seed, scales=False):
    """Sometimes impose equalities and round values, as estimates satisfy them.

    Values at random never satisfy the constraints of the model: equal parameters
    within a stage, normalized values, ordered means, measurement systems that do not
    change over time, coefficients of exactly zero.
    """
    rng = np.random.default_rng([seed, 77])
    modes = [m for m in ["stages", "fixed", "invariant", "zeros"] if rng.uniform() < 0.2]
    out = dict(vals)
    lab = labels_of(model)
    if scales and rng.uniform() < 0.15:
        out = _spread_scales(model, out, rng)
    anch = model.get("anchoring", {})
    updates = {f"{v}_{f}" for f, v in anch.get("outcomes", {}).items()}
    if "invariant" in modes:
        first = {}
        for tup in out:
            if tup[0] in ("controls", "loadings", "meas_sds"):
                out[tup] = out[first.setdefault((tup[0], *tup[2:]), tup)]
    if "stages" in modes:
        stagemap = model.get("stagemap") or [0] * (lab["n_periods"] - 1)
        for tup in out:
            if tup[0] in ("transition", "shock_sds"):
                start = stagemap.index(stagemap[tup[1]])
                out[tup] = out[(tup[0], start, *tup[2:])]
    if "fixed" in modes:
        for fac, spec in model["factors"].items():
            for kind, lst in spec.get("normalizations", {}).items():
                for t, norms in enumerate(lst):
                    for m, val in norms.items():
                        cat, last = ("loadings", fac) if kind == "loadings" else (
                            "controls", "constant")
                        if (cat, t, m, last) in out:
                            out[(cat, t, m, last)] = float(val)
        for tup in out:
            if tup[2] in updates:
                opt = {"loadings": "free_loadings"}.get(
                    tup[0], "free_constant" if tup[3] == "constant" else "free_controls")
                if tup[0] in ("loadings", "controls") and not anch.get(opt, False):
                    out[tup] = float(tup[0] == "loadings")
        keys = [t for t in out if t[0] == "initial_states" and t[3] == lab["latent"][0]]
        for key, val in zip(keys, sorted(out[k] for k in keys)):
            out[key] = val
    if "zeros" in modes:
        for tup in out:
            cat, _, n1, n2 = tup
            zero = cat in ("controls", "initial_states") or (
                cat == "loadings" and n1 not in updates)
            if cat == "initial_cholcovs":
                zero = all(n2 != f"{f}-{f}" for f in lab["latent"])
            if cat == "transition":
                tf = model["factors"][n1]["transition_function"]
                zero = isinstance(tf, dict) or tf not in ("log_ces", "log_ces_general")
            if zero and rng.uniform() < 0.2:
                out[tup] = 0.0
    return out


def _spread_scales(model, vals, rng):
    """Spread standard deviations, loadings etc. over several orders of magnitude."""
    out = dict(vals)
    K = labels_of(model)["n_mixtures"]
    if rng.uniform() < 0.5:
        weights = 0.98 * rng.dirichlet(np.full(K, 0.15)) + 0.02 / K
    else:
        weights = None
    for tup, v in vals.items():
        cat, _, n1, n2 = tup
        if cat in ("meas_sds", "shock_sds"):
            v = v * 10 ** rng.uniform(-2, 1)
        elif cat == "loadings":
            v = v * 10 ** rng.uniform(-1, 0.5)
        elif cat == "controls":
            v = v * 10 ** rng.uniform(-1, 1.5)
        elif cat == "mixture_weights" and weights is not None:
            v = weights[int(n1.split("_")[1])]
        elif cat == "transition" and n2 == "phi":
            if model["factors"][n1]["transition_function"] == "log_ces":
                v = v * 10 ** rng.uniform(-2.5, 0.7)
        out[tup] = float(v)
    return out


def _random_params(model, seed, signs, degenerate, tame):
    rng = np.random.default_rng(seed)
    lab = labels_of(model)
    weights = rng.dirichlet(np.full(lab["n_mixtures"], 2.0))
    ces = {}
    vals = {}
    for tup in index_tuples(model):
        cat, t, n1, n2 = tup
        if cat == "controls":
            v = rng.normal() * 0.5
        elif cat == "loadings":
            v = rng.uniform(0.4, 1.6) * (rng.choice([-1, 1, 1]) if signs else 1)
        elif cat == "meas_sds":
            v = rng.uniform(0.3, 1.3)
        elif cat == "shock_sds":
            v = rng.uniform(0.2, 0.9)
            if model["factors"][n1]["transition_function"] == "constant":
                v = v if rng.uniform() < 0.4 else 0.0
            elif degenerate and rng.uniform() < 0.3:
                v = 0.0
        elif cat == "initial_states":
            v = rng.normal() * 0.7
        elif cat == "mixture_weights":
            v = weights[int(n1.split("_")[1])]
        elif cat == "initial_cholcovs":
            row, col = None, None
            for a in lab["latent"]:
                for b in lab["latent"]:
                    if n2 == f"{a}-{b}":
                        row, col = a, b
            if row == col:
                v = rng.uniform(0.3, 1.2)
                if signs and rng.uniform() < 0.15:
                    v = -v
            else:
                v = rng.normal() * 0.4
        else:
            tf = model["factors"][n1]["transition_function"]
            nal = len(lab["all"])
            if isinstance(tf, dict):
                v = rng.normal() * 0.4 * tame
            elif tf in ("log_ces", "log_ces_general") and n2 in lab["all"]:
                if (n1, t) not in ces:
                    g = rng.dirichlet(np.full(nal, 1.5))
                    if tf == "log_ces_general":
                        g = g * rng.uniform(0.5, 2.0)
                    elif nal > 1 and rng.uniform() < 0.1:
                        # weights of exactly zero are admissible
                        g[rng.integers(nal)] = 0.0
                        g = g / g.sum()
                    ces[(n1, t)] = g
                v = ces[(n1, t)][lab["all"].index(n2)]
            elif n2 == "phi":
                v = rng.uniform(0.2, 1.0) * rng.choice([-1, 1])
            elif n2 == "tfp":
                v = rng.uniform(0.3, 1.2)
            elif n2.startswith("sigma_") and tf == "log_ces_general":
                v = rng.uniform(0.2, 1.0) * rng.choice([-1, 1, 1])
            elif n2 in lab["all"]:
                v = rng.normal() * 0.35 + (0.4 if n2 == n1 else 0.0)
            elif n2 == "constant":
                v = rng.normal() * 0.3
            else:
                v = rng.normal() * 0.06 * tame
        vals[tup] = float(v)
    return vals


def params_df(vals, order=None):
    idx = pd.MultiIndex.from_tuples(
        list(vals), names=["category", "period", "name1", "name2"]
    )
    df = pd.DataFrame({"value": np.array(list(vals.values()), dtype=float)}, index=idx)
    if order is not None:
        df = df.iloc[order]
    return df
