"""C10: bounds keep exactly the standard deviations and variances positive."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import info

RULE = (
    "template: random models with adversarial factor names (hyphens, repetitions, "
    "spaces, quotes, digits) and bound options; the set of entries with a finite lower "
    "bound must be the independently enumerated set of measurement and shock standard "
    "deviations and diagonal covariance entries, with the configured value. frame: "
    "add_bounds on frames with shuffled rows and additional columns returns a copy "
    "with the same rows in the same order and only the lower bound changed. "
    "Non-trivial: at least two factors."
)
ASSUMPTIONS = [
    "factor names for which an off-diagonal entry is spelled like a diagonal one "
    "(e.g. 'a' together with 'a-a-a') are excluded as ambiguous"
]
NAME_CHARS = st.text("ab-_ .1'", min_size=1, max_size=5)
RESERVED = {"params", "states", "constant", "phi", "tfp", "id", "period", "mixture",
            "purpose", "variable", "measurement", "contribution"}


def ambiguous(names):
    entries = {}
    for i, a in enumerate(names):
        for b in names[: i + 1]:
            entries.setdefault(f"{a}-{b}", []).append((a, b))
    if any(len(v) > 1 for v in entries.values()):
        return True
    for key, ((a, b),) in ((k, v) for k, v in entries.items()):
        half = len(key) // 2
        looks = len(key) % 2 == 1 and key[half] == "-" and key[:half] == key[half + 1:]
        if looks and a != b:
            return True
    return False


@st.composite
def cases(draw):
    pools = []
    if draw(st.booleans()):
        names = draw(st.lists(NAME_CHARS, min_size=4, max_size=4, unique=True))
        if not ambiguous(sorted(names)) and not ambiguous(sorted(names)[::-1]) \
                and not set(names) & RESERVED:
            pools = [names]
    case = draw(
        lk.cases(
            dict(max_factors=4, max_periods=3, min_periods=1, max_meas=2, big=8,
                 names=pools or None),
            dict(n_min=2, n_max=3), n_params=1,
        )
    )
    opts = case["model"].setdefault("estimation_options", {})
    if draw(st.booleans()):
        opts["bounds_distance"] = draw(st.sampled_from([1e-12, 1e-6, 1e-3, 0.01, 0.3]))
    if draw(st.integers(0, 2)) == 0:
        opts["robust_bounds"] = draw(st.booleans())
    case["frame_seed"] = draw(gen.SEED)
    return case


def bounded(model):
    out = set()
    for cat, t, a, b in gen.index_tuples(model):
        if cat in ("meas_sds", "shock_sds"):
            out.add((cat, t, a, b))
    lab = gen.labels_of(model)
    for k in range(lab["n_mixtures"]):
        for f in lab["latent"]:
            out.add(("initial_cholcovs", 0, f"mixture_{k}", f"{f}-{f}"))
    return out


def latent_ambiguous(model):
    return ambiguous(gen.labels_of(model)["latent"])


def verify(lower, index, want, distance, what):
    for t, v in zip(index, lower):
        if tuple(t) in want:
            check(v == distance, f"{what}: wrong lower bound", where=t, got=v,
                  want=distance)
        else:
            check(v == -np.inf, f"{what}: bound on unbounded parameter", where=t, got=v)


def run(case):
    from skillmodels.constraints import add_bounds

    model = case["model"]
    if latent_ambiguous(model):
        return info(False, ["ambiguous"])
    mi = lk.max_inputs(model, lk.data_of(case))
    tmpl = mi["params_template"]
    opts = model.get("estimation_options", {})
    distance = opts.get("bounds_distance", 1e-3)
    if not opts.get("robust_bounds", True):
        distance = 0
    want = bounded(model)
    check(set(map(tuple, tmpl.index)) == set(gen.index_tuples(model)),
          "template has wrong index")
    verify(tmpl["lower_bound"], tmpl.index, want, distance, "template")
    if "upper_bound" in tmpl:
        up = tmpl["upper_bound"].to_numpy(dtype=float)
        check((np.isposinf(up) | np.isnan(up)).all(), "finite upper bound in template")
    # frames
    rng = np.random.default_rng(case["frame_seed"])
    df = gen.params_df(gen.make_params(model, case["params"][0]),
                       rng.permutation(len(tmpl)))
    df["info"] = "x"
    if rng.uniform() < 0.5:
        df["upper_bound"] = np.inf
    before = df.copy(deep=True)
    d = float(rng.choice([0.0, 0.02, 1e-4]))
    got = call("add_bounds", add_bounds, df, d)
    pd.testing.assert_frame_equal(df, before)
    check(got.index.equals(before.index), "add_bounds changed rows",
          n_before=len(before), n_after=len(got))
    pd.testing.assert_frame_equal(got[list(before.columns)], before)
    verify(got["lower_bound"], got.index, want, d, "frame")
    # existing bounds of other parameters survive
    with_lower = before.assign(lower_bound=rng.normal(size=len(before)))
    got = call("add_bounds", add_bounds, with_lower, d)
    for t, v, old in zip(got.index, got["lower_bound"], with_lower["lower_bound"]):
        check(v == (d if tuple(t) in want else old), "existing lower bounds", where=t)
    n_fac = len(model["factors"])
    return info(n_fac > 1, [f"robust={opts.get('robust_bounds', 'default')}",
                            f"distance={distance}", f"factors={n_fac}"])


PROPS = [Prop("bounds", cases, run, quick=480, thorough=20000)]
