"""C05: derivatives are the derivatives of the reported values."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import close
from vlib.core import fail
from vlib.core import info

RULE = (
    "Random model, data with missings and missing controls, interior admissible "
    "parameters. Oracles: Richardson-extrapolated central differences of the jitted "
    "log likelihood for every parameter, for the gradient and the jacobian function "
    "in a drawn mode (jacrev/jacfwd), and agreement "
    ""
    "of loglike_and_gradient with the separate functions; finiteness. Non-trivial: at "
    "least two periods with data and all reference values finite."
)
ASSUMPTIONS = [
    "step sizes 1e-4 and 5e-5, tolerance 2e-4 relative to the largest derivative",
    "reference values below 1e4 in absolute value",
]


@st.composite
def cases(draw, with_jac=True):
    case = draw(
        lk.cases(
            dict(max_factors=2, max_periods=3, custom=10, max_meas=2, clipping=True),
            dict(n_min=2, n_max=5, miss_ctrl=True, mass=True),
            n_params=1,
        )
    )
    case["order"] = draw(st.one_of(st.none(), gen.SEED))
    case["jac"] = draw(st.sampled_from(["jacrev", "jacfwd"])) if with_jac else None
    return case


def finite_differences(func, x):
    """Richardson extrapolation of central differences of a vector function."""
    cols = []
    for k in range(len(x)):
        est = []
        for h in (1e-4, 5e-5):
            e = np.zeros(len(x))
            e[k] = h
            est.append((func(x + e) - func(x - e)) / (2 * h))
        cols.append((4 * est[1] - est[0]) / 3)
    return np.array(cols).T


def run(case):
    model = case["model"]
    df = lk.data_of(case)
    vals = gen.make_params(model, case["params"][0])
    want, _ = lk.ref_contribs(model, vals, df)
    if not lk.finite(want) or np.abs(want).max() > 1e4:
        return info(False, ["not-finite"])
    kw = {"jacobian_type": case["jac"]} if case["jac"] else {}
    mi = lk.max_inputs(model, df, **kw)
    index = mi["params_template"].index
    params = gen.params_df(vals).loc[index]
    given = params
    if case["order"] is not None:
        rng = np.random.default_rng(case["order"])
        given = params.iloc[rng.permutation(len(params))]
    k = len(params)
    out = call("loglike", mi["loglike"], given)
    close("contributions", out["contributions"], want.sum(axis=0), rtol=2e-6, atol=1e-6)

    def contribs(x):
        return mi["loglike"](params.assign(value=x))["contributions"]

    fd = finite_differences(contribs, params["value"].to_numpy())
    if not lk.finite(fd):
        return info(False, ["fd-not-finite"])
    compare = []
    if case["jac"]:
        jac = call("jacobian", mi["jacobian"], given)
        compare.append(("jacobian", jac, fd.sum(axis=0)))
        value = call("gradient", mi["gradient"], given)
    else:
        both = call("loglike_and_gradient", mi["loglike_and_gradient"], given)
        check(isinstance(both, tuple) and len(both) == 2, "loglike_and_gradient output")
        close("value of loglike_and_gradient", both[0]["value"], out["value"],
              rtol=1e-9, atol=1e-9)
        close("contributions of loglike_and_gradient", both[0]["contributions"],
              out["contributions"], rtol=1e-9, atol=1e-9)
        value = both[1]
        grad = call("gradient", mi["gradient"], given)
        close("gradient vs loglike_and_gradient", grad, value, rtol=1e-9, atol=1e-9)
    compare.append(("gradient", value, fd.sum(axis=0)))
    for name, got, ref in compare:
        check(got.shape == (k,), f"shape of {name}", got=got.shape, want=(k,))
        check(lk.finite(got), f"{name} is not finite",
              where=[tuple(index[j]) for j in
                     np.unique(np.argwhere(~np.isfinite(got))[:, -1])[:5]])
        scale = max(1.0, np.abs(ref).max())
        err = np.abs(got - ref)
        if err.max() > 2e-4 * scale:
            pos = np.unravel_index(err.argmax(), err.shape)
            fail(f"{name} differs from finite differences", param=index[pos[-1]],
                 where=pos, got=got[pos], want=ref[pos])
    return info(True, [f"jac={case['jac']}"] + lk.features(model, df))


PROPS = [
    Prop("jacobian_and_gradient", cases, run, quick=32, thorough=2500),
    Prop("combined", lambda: cases(with_jac=False), run, quick=32, thorough=1500),
]
