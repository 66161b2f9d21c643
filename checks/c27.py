"""C27: prediction steps propagate moments by the unscented transform."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import close
from vlib.core import info
from vlib.ref import Ref

RULE = (
    "weights: number of states and spread, defining identities of the sigma points. "
    "predict: own transition functions (identity, affine, nonlinear) of random states, "
    "triangular factors of any sign, singular ones, mixtures, observed factors, "
    "anchoring of both periods, shock sds with zeros; oracle: loop over individuals, "
    "components and points; for affine functions exact propagation. model: transition "
    "function of a random processed model against the reference. Non-trivial: two or "
    "more states, individuals or components and a function that is not the identity."
)
ASSUMPTIONS = ["relative tolerance 1e-8"]


def setup():
    import jax

    jax.config.update("jax_enable_x64", True)


# ------------------------------------------------------------------ weights
def run_weights(case):
    setup()
    from skillmodels.kalman_filters import calculate_sigma_scaling_factor_and_weights as f

    n, kappa = case["n_states"], case["kappa"]
    if case["default"]:
        kappa = 2
        scale, weights = call("sigma weights", f, n)
    else:
        scale, weights = call("sigma weights", f, n, kappa)
    weights = np.asarray(weights)
    scale = float(scale)
    check(weights.shape == (2 * n + 1,), "number of weights", got=weights.shape)
    check((weights >= 0).all(), "negative weights", got=weights)
    close("sum of weights", weights.sum(), 1.0, rtol=1e-12)
    close("second moment", 2 * scale**2 * weights[1:], np.ones(2 * n), rtol=1e-12)
    close("scale", scale**2, n + kappa, rtol=1e-12)
    close("central weight", weights[0], kappa / (n + kappa), rtol=1e-12, atol=1e-15)
    return info(n > 1, [f"n={n}"])


@st.composite
def weight_cases(draw):
    return {
        "n_states": draw(st.integers(1, 12)),
        "kappa": draw(st.one_of(st.floats(0, 10), st.sampled_from([0, 1, 2, 100, 0.5]))),
        "default": draw(st.integers(0, 5)) == 0,
    }


# ------------------------------------------------------------------ predict
@st.composite
def cases(draw):
    return {
        "n_obs": draw(st.integers(1, 4)),
        "n_mix": draw(st.integers(1, 3)),
        "n_states": draw(st.integers(1, 4)),
        "n_observed": draw(st.integers(0, 2)),
        "kind": draw(st.sampled_from(["identity", "affine", "affine", "nonlinear"])),
        "anchored": draw(st.sampled_from(["no", "same", "different"])),
        "kappa": draw(st.sampled_from([2, 2, 0, 0.5, 1, 3.7, 50])),
        "shock": draw(st.sampled_from(["zero", "some", "all"])),
        "singular": draw(st.integers(0, 3)) == 0,
        "seed": draw(gen.SEED),
    }


def make(case):
    rng = np.random.default_rng(case["seed"])
    n, k, d, o = (case[x] for x in ["n_obs", "n_mix", "n_states", "n_observed"])
    states = rng.normal(size=(n, k, d))
    chols = np.triu(rng.normal(size=(n, k, d, d)))
    for i in range(d):
        big = np.abs(chols[..., i, i]) + 0.2
        chols[..., i, i] = np.where(rng.uniform(size=(n, k)) < 0.3, -big, big)
    if case["singular"]:
        chols[..., rng.integers(d), :] = 0.0
    sds = rng.uniform(0.1, 1.5, size=d)
    if case["shock"] == "zero":
        sds[:] = 0
    elif case["shock"] == "some":
        sds[rng.integers(d)] = 0
    scal, const = np.ones((2, d + o)), np.zeros((2, d + o))
    if case["anchored"] != "no":
        # the columns of observed factors are never rescaled
        which = rng.uniform(size=d) < 0.7
        scal[:, :d] = np.where(which, rng.uniform(0.4, 2, size=(2, d))
                               * rng.choice([-1, 1], size=(2, d)), 1.0)
        const[:, :d] = np.where(which, rng.normal(size=(2, d)), 0.0)
        if case["anchored"] == "same":
            scal[1], const[1] = scal[0], const[0]
    obs = rng.normal(size=(n, o))
    A, b = rng.normal(size=(d, d + o)) * 0.7, rng.normal(size=d)
    if case["kind"] == "identity":
        A, b = np.eye(d, d + o), np.zeros(d)
        scal[1], const[1] = scal[0], const[0]
    return states, chols, sds, scal, const, obs, A, b


def run_predict(case):
    setup()
    import jax.numpy as jnp
    from skillmodels.kalman_filters import calculate_sigma_scaling_factor_and_weights
    from skillmodels.kalman_filters import kalman_predict

    states, chols, sds, scal, const, obs, A, b = make(case)
    n, k, d = states.shape
    nonlin = case["kind"] == "nonlinear"

    def func(coeffs, x):
        out = x @ coeffs["A"].T + coeffs["b"]
        if nonlin:
            out = out + jnp.tanh(x[:, :1] * x[:, :d]) - 0.2 * x[:, -1:] ** 2
        return out

    def plain(x):
        out = x @ A.T + b
        if nonlin:
            out = out + np.tanh(x[:, :1] * x[:, :d]) - 0.2 * x[:, -1:] ** 2
        return out

    s, w = call("weights", calculate_sigma_scaling_factor_and_weights, d, case["kappa"])
    got, got_chol = call(
        "kalman_predict", kalman_predict, jnp.array(states), jnp.array(chols), s, w,
        {"func": func}, {"A": jnp.array(A), "b": jnp.array(b)}, jnp.array(sds),
        jnp.array(scal), jnp.array(const), jnp.array(obs))
    got, got_chol = np.asarray(got), np.asarray(got_chol)
    check(got.shape == states.shape and got_chol.shape == chols.shape, "shapes",
          got=(got.shape, got_chol.shape))
    check(np.abs(np.tril(got_chol, -1)).max(initial=0) < 1e-9, "not upper triangular")
    mean, cov = np.zeros_like(states), np.zeros_like(chols)
    for i in range(n):
        for c in range(k):
            U = chols[i, c]
            if nonlin:
                r = np.sqrt(d + case["kappa"])
                pts = np.vstack([states[i, c], states[i, c] + r * U, states[i, c] - r * U])
                wt = np.full(2 * d + 1, 0.5 / (d + case["kappa"]))
                wt[0] = case["kappa"] / (d + case["kappa"])
                full = np.hstack([pts, np.tile(obs[i], (2 * d + 1, 1))])
                y = plain(full * scal[0] + const[0])
                y = (y - const[1, :d]) / scal[1, :d]
                mean[i, c] = wt @ y
                dev = y - mean[i, c]
                cov[i, c] = dev.T @ np.diag(wt) @ dev
            else:
                x = np.concatenate([states[i, c], obs[i]]) * scal[0] + const[0]
                mean[i, c] = (A @ x + b - const[1, :d]) / scal[1, :d]
                J = A[:, :d] * scal[0, :d] / scal[1, :d][:, None]
                cov[i, c] = J @ U.T @ U @ J.T
            cov[i, c] += np.diag(sds**2)
    close("predicted states", got, mean, rtol=1e-8, atol=1e-9)
    size = 1 + np.abs(cov).max()
    close("predicted covariances", np.einsum("nkji,nkjl->nkil", got_chol, got_chol), cov,
          rtol=1e-8, atol=1e-9 * size)
    if case["kind"] == "identity" and case["shock"] == "zero":
        close("identity keeps states", got, states, rtol=1e-9, atol=1e-9)
    big = n > 1 or k > 1 or d > 1
    return info(big and case["kind"] != "identity", [
        f"kind={case['kind']}", f"states={d}", f"mixtures={k}", f"observed={obs.shape[1]}",
        f"anchored={case['anchored']}", f"kappa={case['kappa']}", f"shock={case['shock']}",
        f"singular={case['singular']}"])


# ------------------------------------------------------------------ model
@st.composite
def model_cases(draw):
    return {
        "model": draw(gen.models(min_periods=2, max_periods=3, max_meas=1, custom=25)),
        "n_obs": draw(st.integers(1, 3)),
        "seed": draw(gen.SEED),
        "params": draw(gen.SEED),
    }


def run_model(case):
    setup()
    import jax.numpy as jnp
    from skillmodels.kalman_filters import calculate_sigma_scaling_factor_and_weights
    from skillmodels.kalman_filters import kalman_predict
    from skillmodels.process_model import process_model

    model = case["model"]
    vals = gen.make_params(model, case["params"])
    ref = Ref(model, vals)
    lab = gen.labels_of(model)
    rng = np.random.default_rng(case["seed"])
    n, k, d, o = case["n_obs"], ref.K, ref.n, len(lab["observed"])
    t = int(rng.integers(lab["n_periods"] - 1))
    states = rng.normal(size=(n, k, d))
    lower = np.tril(rng.normal(size=(n, k, d, d)) * 0.5)
    lower[..., range(d), range(d)] = rng.uniform(0.2, 1.0, size=(n, k, d))
    obs = rng.normal(size=(n, o))
    want_mean, want_cov = np.zeros_like(states), np.zeros_like(lower)
    for i in range(n):
        for c in range(k):
            L = lower[i, c]
            want_mean[i, c], want_cov[i, c] = ref.predict(t, states[i, c], L @ L.T, obs[i])
    if not np.isfinite(want_cov).all() or np.abs(want_cov).max() > 1e8:
        return info(False, ["skipped-not-finite"])
    pairs = [[ref.scale_const(s, f) for f in lab["latent"]] + [(1.0, 0.0)] * o
             for s in (t, t + 1)]
    scal = np.array([[p[0] for p in row] for row in pairs])
    const = np.array([[p[1] for p in row] for row in pairs])
    pm = call("process_model", process_model, gen.build_model(model))
    coeffs = {
        f: jnp.array([vals["transition", t, f, p] for p in gen.tf_param_names(
            model["factors"][f]["transition_function"], lab["all"])])
        for f in lab["latent"]}
    kappa = model.get("estimation_options", {}).get("sigma_points_scale", 2)
    s, w = call("weights", calculate_sigma_scaling_factor_and_weights, d, kappa)
    sds = np.array([vals["shock_sds", t, f, "-"] for f in lab["latent"]])
    got, chol = call(
        "kalman_predict", kalman_predict, jnp.array(states),
        jnp.array(np.swapaxes(lower, -1, -2)), s, w, pm["transition_info"], coeffs,
        jnp.array(sds), jnp.array(scal), jnp.array(const), jnp.array(obs))
    chol = np.asarray(chol)
    size = 1 + np.abs(want_cov).max()
    close("predicted states", got, want_mean, rtol=1e-7, atol=1e-8 * size**0.5)
    close("predicted covariances", np.einsum("nkji,nkjl->nkil", chol, chol), want_cov,
          rtol=1e-7, atol=1e-8 * size)
    tfs = [f["transition_function"] for f in model["factors"].values()]
    return info(d > 1 or n > 1 or k > 1, [
        f"states={d}", f"observed={o}", f"mixtures={k}",
        f"anchored={len(ref.outcomes)}"] + [
            "tf=" + ("custom" if isinstance(x, dict) else x) for x in tfs])


PROPS = [
    Prop("weights", weight_cases, run_weights, quick=160, thorough=4000),
    Prop("predict", cases, run_predict, quick=400, thorough=15000),
    Prop("model", model_cases, run_model, quick=120, thorough=6000),
]
