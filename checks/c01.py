"""C01: likelihood of affine models = exact joint (mixture of) normal density."""
from hypothesis import strategies as st

from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import close
from vlib.core import info
from vlib.ref import Ref

RULE = (
    "Random affine model (linear/constant transitions, no anchoring), random "
    "admissible parameters and panel data with missings; oracle: dense joint normal "
    "density of the stacked non-missing measurements (no filtering). Non-trivial: at "
    "least two periods or two measurements of one individual are observed, so that "
    "the joint density differs from the product of marginals."
)
ASSUMPTIONS = ["numpy slogdet/solve", "relative tolerance 1e-6 in double precision"]


def run(case):
    model = case["model"]
    # measurements and intercepts that are large compared to the residuals
    offset = case.get("offset", 0)
    df = lk.data_of(case)
    meas = sorted({m for _, m, _, _ in gen.updates_of(model)} & set(df.columns))
    df[meas] += offset
    mi = lk.max_inputs(model, df)
    for seed in case["params"]:
        vals = gen.make_params(model, seed, degenerate=True)
        for loc in vals:
            if loc[0] == "controls" and loc[3] == "constant":
                vals[loc] += offset
        ref = Ref(model, vals)
        want = ref.joint_loglike(gen.after_control_rule(model, df))
        got = call("loglike", mi["loglike"], gen.params_df(vals))
        close("log likelihood contributions vs joint density", got["contributions"],
              want, rtol=1e-6, atol=1e-7)
        close("log likelihood value", got["value"], want.sum(), rtol=1e-6, atol=1e-6)
        check(isinstance(got["value"], float), "value is not a float")
    n_meas = len(gen.updates_of(model))
    return info(n_meas >= 2, lk.features(model, df))


@st.composite
def cases(draw):
    out = draw(lk.cases(
        dict(tfs=gen.AFFINE, anchoring=False, max_factors=4, mixtures=(1, 1, 2, 3)),
        dict(miss_ctrl=True),
        n_params=3,
    ))
    out["offset"] = draw(st.sampled_from([0, 0, 0, 100, -3000, 50000]))
    return out


PROPS = [
    Prop(
        "joint_density",
        cases,
        run,
        quick=320,
        thorough=12000,
    ),
]
