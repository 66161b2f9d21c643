"""C02: likelihood of any model = documented sigma-point filter."""
import numpy as np

from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import close
from vlib.core import info
from vlib.ref import clip_opts

RULE = (
    "Random model over all features (built-in and custom transitions, anchoring of "
    "any subset/order of factors, observed factors, controls, mixtures, stages, "
    "clipping, sigma point scale), random admissible parameters by name, random "
    "panel data with missings; oracle: covariance-form unscented filter in numpy. "
    "Non-trivial: at least one nonlinear or custom transition, anchoring, observed "
    "factor or mixture is present and all reference contributions are finite."
)
ASSUMPTIONS = ["relative tolerance 1e-6", "cases whose reference is not finite or "
               "whose contributions exceed 1e6 in absolute value are not compared"]


def run(case):
    model = case["model"]
    df = lk.data_of(case)
    mi = lk.max_inputs(model, df)
    labels = lk.features(model, df)
    compared = False
    for seed in case["params"]:
        vals = gen.make_params(model, seed)
        want, raw = lk.ref_contribs(model, vals, df)
        if not lk.finite(want) or np.abs(want).max() > 1e6:
            labels.append("skipped-not-finite")
            continue
        compared = True
        got = call("loglike", mi["loglike"], gen.params_df(vals))
        close("contributions vs reference filter", got["contributions"],
              want.sum(axis=0), rtol=2e-6, atol=1e-6, opts=clip_opts(model))
        close("value vs reference filter", got["value"], want.sum(), rtol=2e-6,
              atol=1e-5)
    lab = gen.labels_of(model)
    interesting = (
        any(f["transition_function"] not in gen.AFFINE
            for f in model["factors"].values())
        or "anchoring" in model or lab["observed"] or lab["n_mixtures"] > 1
    )
    return info(compared and interesting, labels)


PROPS = [
    Prop(
        "reference_filter",
        lambda: lk.cases(dict(custom=20, clipping=True, big=3),
                         dict(miss_ctrl=True, mass=True)),
        run,
        quick=320,
        thorough=12000,
    ),
    Prop(
        "large_models",
        lambda: lk.cases(dict(custom=5, clipping=True, big=100), dict(miss_ctrl=True),
                         n_params=1),
        run,
        quick=24,
        thorough=600,
    ),
    Prop(
        "single_period",
        lambda: lk.cases(dict(min_periods=1, max_periods=1, custom=20), dict()),
        run,
        quick=24,
        thorough=600,
        rule="as above, models with a single period (no transitions)",
    ),
]
