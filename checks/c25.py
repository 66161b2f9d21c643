"""C25: soft clipping."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import close
from vlib.core import info
from vlib.ref import clip_opts
from vlib.ref import soft_clip

RULE = (
    "function: arrays of 0-3 dimensions with magnitudes from 1e-300 to 1e250 and minus "
    "infinity, any combination of bounds and hardnesses (also bounds that cross or "
    "coincide), against a reference and the stated inequalities; derivatives by jax. "
    "model: random models with random clipping options and outliers in the data, "
    "contributions against the clipped contributions of a reference filter. "
    "Non-trivial: at least one bound that changes the result."
)
ASSUMPTIONS = ["relative tolerance 1e-9 (function), 1e-5 (model)"]

VALUES = st.one_of(
    st.floats(-20, 20), st.floats(-1e3, 1e3), st.floats(-1e6, 1e6),
    st.sampled_from([0.0, -0.0, 1e-300, -1e250, -1e200, 1e200, -745.5, 709.9, "-inf"]))
BOUND = st.one_of(st.none(), st.floats(-30, 30), st.sampled_from([-1e250, -1e3, 0, 5]))
HARD = st.sampled_from([0.1, 0.5, 1, 1, 2.5, 10, 100.0])


@st.composite
def func_cases(draw):
    shape = draw(st.sampled_from([[6], [6], [2, 3], [3, 2, 1], [1], [], [0], [0, 3]]))
    size = int(np.prod(shape)) if shape else 1
    return {
        "shape": shape,
        "values": [draw(VALUES) for _ in range(size)],
        "lower": draw(BOUND), "upper": draw(BOUND),
        "options": draw(st.fixed_dictionaries({}, optional={
            "lower_hardness": HARD, "upper_hardness": HARD})),
    }


def run_func(case):
    import jax
    import jax.numpy as jnp

    jax.config.update("jax_enable_x64", True)
    from skillmodels.clipping import soft_clipping

    arr = np.array([float(v) for v in case["values"]]).reshape(case["shape"])
    lower, upper = case["lower"], case["upper"]
    opt = case["options"]
    lh, uh = opt.get("lower_hardness", 1), opt.get("upper_hardness", 1)
    kw = dict(opt)
    if lower is not None:
        kw["lower"] = lower
    if upper is not None:
        kw["upper"] = upper
    out = np.asarray(call("soft_clipping", soft_clipping, jnp.array(arr), **kw))
    check(out.shape == arr.shape, "shape changed", got=out.shape, want=arr.shape)
    if arr.size == 0:
        return info(False, ["empty"])
    if lower is None and upper is None:
        check(np.array_equal(out, arr), "not the identity without bounds", got=out, arr=arr)
    ctx = dict(arr=arr.tolist(), out=out.tolist(), lower=lower, upper=upper, lh=lh, uh=uh)
    tol = 1e-9 * np.maximum(1, np.abs(np.where(np.isfinite(arr), arr, 0)))
    for b in [lower, upper]:
        if b is not None and abs(b) < 1e200:
            tol = tol + 1e-9 * abs(b)
    with np.errstate(over="ignore"):
        want = soft_clip(arr, lower, upper, lh, uh)
    check((np.isclose(out, want, rtol=1e-9, atol=1e-9) | (out == want)
           | (np.abs(out - want) <= tol)).all(), "differs from reference",
          want=want.tolist(), **ctx)
    if lower is not None:
        check(np.isfinite(out).all(), "not finite although there is a lower bound", **ctx)
    exact = arr if lower is None else np.maximum(arr, lower)
    slack_up = 0 if lower is None else np.log(2) / lh
    exact = exact if upper is None else np.minimum(exact, upper)
    slack_down = 0 if upper is None else np.log(2) / uh
    fin = np.isfinite(exact)
    check((out[fin] <= exact[fin] + slack_up + tol[fin]).all(), "too large", **ctx)
    check((out[fin] >= exact[fin] - slack_down - tol[fin]).all(), "too small", **ctx)
    if upper is not None:
        check((out <= upper + tol).all(), "exceeds the upper bound", **ctx)
    if lower is not None and upper is None:
        check((out >= lower - tol).all(), "below the lower bound", **ctx)
    order = np.argsort(arr.ravel(), kind="stable")
    srt = out.ravel()[order]
    slack = (tol.ravel()[order])[1:] + (tol.ravel()[order])[:-1]
    same_inf = np.isinf(srt[1:]) & (srt[1:] == srt[:-1])
    with np.errstate(invalid="ignore"):
        check(((np.diff(srt) >= -slack) | same_inf).all(), "not monotone", **ctx)
    # derivatives
    flat = arr.ravel()
    ok = np.abs(flat) < 1e100
    if ok.any():
        pts = jnp.array(flat[ok])
        grad = np.asarray(call("gradient of soft_clipping",
                               jax.grad(lambda x: soft_clipping(x, **kw).sum()), pts))
        check(np.isfinite(grad).all() and (grad >= 0).all() and (grad <= 1 + 1e-12).all(),
              "derivative outside of [0, 1]", grad=grad.tolist(), **ctx)
        wg = np.ones(len(grad))
        x = flat[ok]
        if lower is not None:
            with np.errstate(over="ignore"):
                wg = wg / (1 + np.exp(np.clip(lh * (lower - x), -1e4, 700)))
            x = soft_clip(x, lower, None, lh, uh)
        if upper is not None:
            with np.errstate(over="ignore"):
                wg = wg / (1 + np.exp(np.clip(uh * (x - upper), -1e4, 700)))
        close("derivative", grad, wg, rtol=1e-6, atol=1e-6)
    changed = not np.array_equal(out, arr)
    return info(changed, [f"lower={lower is not None}", f"upper={upper is not None}",
                          f"dim={arr.ndim}", f"inf={bool(np.isinf(arr).any())}"])


@st.composite
def model_cases(draw):
    case = draw(lk.cases(
        dict(max_factors=2, max_periods=2, max_meas=2, tfs=("linear", "log_ces"),
             mixtures=(1, 1, 2), clipping=True, gaps=0), dict(n_min=3, n_max=6),
        n_params=2))
    opts = case["model"].setdefault("estimation_options", {})
    if not any(k.startswith("clipping") and k.endswith("bound") for k in opts):
        opts["clipping_lower_bound"] = draw(st.sampled_from([-30.0, -3.0, -1.5]))
    case["outliers"] = draw(st.sampled_from([0, 0, 30, 1e4]))
    return case


def run_model(case):
    model = case["model"]
    df = lk.data_of(case)
    if case["outliers"]:
        rng = np.random.default_rng(case["data"]["seed"])
        lab = gen.labels_of(model)
        for c in df.columns:
            if c not in lab["controls"] + lab["observed"] and rng.uniform() < 0.6:
                df.iloc[rng.integers(len(df)), list(df.columns).index(c)] = case["outliers"]
    from checks.c03 import is_valid

    if not is_valid(model, df):
        return info(False, ["invalid data"])
    mi = lk.max_inputs(model, df)
    effect = False
    for seed in case["params"]:
        vals = gen.make_params(model, seed)
        want, ref = lk.ref_contribs(model, vals, df)
        if not lk.finite(want):
            continue
        got = call("loglike", mi["loglike"], lk.shuffled(vals, seed))
        per = want.sum(axis=0)
        tol = 1e-5 * (1 + np.abs(want).max() + (0 if case["outliers"] < 100 else 1e-3 * np.abs(
            ref["contributions"]).max() * (np.abs(want).max() > 1e4)))
        close("contributions", got["contributions"], per, rtol=1e-5, atol=tol,
              options=clip_opts(model))
        close("value", got["value"], got["contributions"].sum(), rtol=1e-9, atol=1e-9)
        effect |= not np.allclose(want, ref["contributions"], atol=1e-3)
    return info(effect, [f"{k}={v}" for k, v in clip_opts(model).items()]
                + [f"outliers={case['outliers']}"])


PROPS = [
    Prop("function", func_cases, run_func, quick=1200, thorough=40000),
    Prop("model", model_cases, run_model, quick=32, thorough=2500),
]
