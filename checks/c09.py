"""C09: constraints encode the specification and always resolve."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import check
from vlib.core import fail
from vlib.core import info

RULE = (
    "Random specification (normalizations, stages, constant and CES factors, mixtures, "
    "anchoring options). An interpreter of estimagic constraint dictionaries decides "
    "whether a parameter vector satisfies the returned list. Vectors built to satisfy "
    "the specification must satisfy every constraint; for every single requirement of "
    "the specification (each normalized entry, each fixed anchoring entry, each stage "
    "equality, ...) a vector that breaks only that requirement must violate at least "
    "one constraint; every location must select existing parameters. Non-trivial: at "
    "least three requirements beyond the mixture weights."
)
ASSUMPTIONS = [
    "semantics of estimagic constraints of types fixed, probability, increasing, "
    "pairwise_equality and equality as documented there",
]


# ------------------------------------------------------------- interpreter
def select(index, loc):
    """Positions of parameters selected by an estimagic location."""
    tups = list(index)
    if isinstance(loc, str):
        pos = [i for i, t in enumerate(tups) if t[0] == loc]
    elif isinstance(loc, tuple):
        pos = [i for i, t in enumerate(tups) if t[: len(loc)] == loc]
    elif isinstance(loc, list):
        pos = []
        for entry in loc:
            new = select(index, entry)
            pos += new
    else:
        fail("unknown kind of location", loc=loc)
    if not pos:
        fail("location selects no parameter", loc=loc)
    return pos


def satisfied(constr, index, x, tol=1e-9):
    kind = constr["type"]
    if kind == "pairwise_equality":
        groups = [x[select(index, loc)] for loc in constr["locs"]]
        names = [[(index[i][0], *index[i][2:]) for i in select(index, loc)]
                 for loc in constr["locs"]]
        check(all(n == names[0] for n in names),
              "pairwise equality pairs different parameters", locs=constr["locs"])
        return all(np.abs(g - groups[0]).max() <= tol for g in groups)
    sel = x[select(index, constr["loc"])]
    if kind == "fixed":
        val = np.asarray(constr["value"], dtype=float)
        check(val.ndim == 0 or len(val) == len(sel), "length of fixed values",
              constr=constr)
        return bool(np.abs(sel - val).max() <= tol)
    if kind == "probability":
        return bool((sel >= -tol).all() and abs(sel.sum() - 1) <= 1e-7)
    if kind == "increasing":
        return bool((np.diff(sel) >= -tol).all())
    if kind == "decreasing":
        return bool((np.diff(sel) <= tol).all())
    if kind == "equality":
        return bool(np.ptp(sel) <= tol)
    fail("unknown constraint type", constr=constr)


def violated(constraints, index, x):
    return [c for c in constraints if not satisfied(c, index, x)]


# ------------------------------------------------------------ specification
def requirements(model):
    """(normalized: {tuple: value}, stages: [[periods]]) or None if contradictory."""
    lab = gen.labels_of(model)
    fixed = {}
    for fac in lab["latent"]:
        norm = model["factors"][fac].get("normalizations", {})
        for kind, cat in [("loadings", "loadings"), ("intercepts", "controls")]:
            for t, d in enumerate(norm.get(kind, [])):
                for m, v in d.items():
                    key = (cat, t, m, fac if cat == "loadings" else "constant")
                    if fixed.get(key, v) != v:
                        return None
                    fixed[key] = v
    anch = model.get("anchoring", {})
    for t, m, facs, purpose in gen.updates_of(model):
        if purpose != "anchoring":
            continue
        if not anch.get("free_constant", False):
            fixed[("controls", t, m, "constant")] = 0
        if not anch.get("free_controls", False):
            for c in lab["controls"][1:]:
                fixed[("controls", t, m, c)] = 0
        if not anch.get("free_loadings", False):
            fixed[("loadings", t, m, facs[0])] = 1
    for fac in lab["latent"]:
        if model["factors"][fac]["transition_function"] == "constant":
            for t in range(lab["n_periods"] - 1):
                fixed[("shock_sds", t, fac, "-")] = 0
    if lab["n_mixtures"] == 1:
        fixed[("mixture_weights", 0, "mixture_0", "-")] = 1
    sm = model.get("stagemap", list(range(lab["n_periods"] - 1)))
    stages = {}
    for t, s in enumerate(sm):
        stages.setdefault(s, []).append(t)
    return fixed, [ps for ps in stages.values() if len(ps) > 1]


def satisfying(model, seed):
    fixed, stages = requirements(model)
    lab = gen.labels_of(model)
    vals = gen.make_params(model, seed)
    for key in vals:
        if key[0] == "shock_sds" and key not in fixed:
            vals[key] = abs(vals[key]) + 0.1
    for ps in stages:
        for key in list(vals):
            if key[0] in ("transition", "shock_sds") and key[1] in ps:
                vals[key] = vals[(key[0], ps[0], *key[2:])]
    first = lab["latent"][0]
    keys = [("initial_states", 0, f"mixture_{k}", first) for k in range(lab["n_mixtures"])]
    for key, v in zip(keys, sorted(vals[k] for k in keys)):
        vals[key] = v
    vals.update({k: float(v) for k, v in fixed.items()})
    return vals


def breaches(model, vals, rng):
    """Yield (description, vector) that break exactly one requirement."""
    fixed, stages = requirements(model)
    lab = gen.labels_of(model)
    in_stage = {p: ps for ps in stages for p in ps}

    def change(keys_vals):
        new = dict(vals)
        for key, v in keys_vals:
            if key[0] in ("transition", "shock_sds"):
                # keep the equality within stages intact
                for p in in_stage.get(key[1], [key[1]]):
                    new[(key[0], p, *key[2:])] = v
            else:
                new[key] = v
        return new

    for key, v in fixed.items():
        delta = rng.choice([0.5, -0.25, 1.0, 1e-3])
        if key[0] == "shock_sds":
            delta = abs(delta)
        yield f"fixed {key}", change([(key, v + delta)])
    K = lab["n_mixtures"]
    w = [("mixture_weights", 0, f"mixture_{k}", "-") for k in range(K)]
    if K > 1:
        yield "sum of weights", change([(w[rng.integers(K)], 0.97)])
        a, b = rng.permutation(K)[:2]
        tot = vals[w[a]] + vals[w[b]]
        yield "negative weight", change([(w[a], -0.1), (w[b], tot + 0.1)])
        means = [("initial_states", 0, f"mixture_{k}", lab["latent"][0])
                 for k in range(K)]
        i = rng.integers(K - 1)
        lo, hi = vals[means[i]], vals[means[i + 1]]
        yield "order of means", change([(means[i], hi + 0.1), (means[i + 1], lo - 0.1)])
    for fac in lab["latent"]:
        if model["factors"][fac]["transition_function"] == "log_ces":
            for t in range(lab["n_periods"] - 1):
                names = lab["all"]
                g = [("transition", t, fac, n) for n in names]
                j = rng.integers(len(g))
                yield f"sum of CES weights {fac} {t}", change([(g[j], vals[g[j]] + 0.2)])
                if len(g) > 1:
                    a, b = rng.permutation(len(g))[:2]
                    tot = vals[g[a]] + vals[g[b]]
                    yield "negative CES weight", change([(g[a], -0.1), (g[b], tot + 0.1)])
    for ps in stages:
        cand = [k for k in vals if k[0] in ("transition", "shock_sds") and k[1] in ps]
        free = [k for k in cand if k not in fixed and not (
            k[0] == "transition"
            and model["factors"][k[2]]["transition_function"] == "log_ces"
            and k[3] != "phi")]
        picks = [free[i] for i in rng.permutation(len(free))[:6]]
        for key in picks:
            new = dict(vals)
            new[key] = new[key] + 0.125
            yield f"stage equality of {key}", new


def run(case):
    model = case["model"]
    req = requirements(model)
    if req is None:
        return info(False, ["contradictory"])
    mi = lk.max_inputs(model, lk.data_of(case))
    index = [tuple(t) for t in mi["params_template"].index]
    constraints = mi["constraints"]
    check(isinstance(constraints, list), "constraints is not a list")
    ids = [c["id"] for c in constraints if "id" in c]
    check(len(set(ids)) == len(ids), "duplicated constraint ids")
    allowed = {"loc", "locs", "type", "value", "description", "id", "weights"}
    for c in constraints:
        check(set(c) <= allowed, "unknown fields in constraint", constr=c)
    before = copy.deepcopy(constraints)
    n_req = 0
    for seed in case["params"]:
        vals = satisfying(model, seed)
        x = np.array([vals[t] for t in index])
        bad = violated(constraints, index, x)
        check(not bad, "a vector that satisfies the specification violates a constraint",
              constraint=bad[:1])
        rng = np.random.default_rng(seed)
        for what, new in breaches(model, vals, rng):
            n_req += 1
            x = np.array([new[t] for t in index])
            check(violated(constraints, index, x),
                  "a requirement of the specification is not enforced", requirement=what)
    check(before == constraints, "constraints changed")
    types = sorted({c["type"] for c in constraints})
    return info(n_req > 3, types + lk.features(model))


@st.composite
def cases(draw):
    return draw(
        lk.cases(
            dict(max_factors=4, max_periods=5, min_periods=1, custom=10, max_meas=3,
                 mixtures=(1, 2, 3, 4), anchoring=60, big=10),
            dict(n_min=2, n_max=3),
            n_params=2,
        )
    )


PROPS = [Prop("constraints", cases, run, quick=640, thorough=30000)]
