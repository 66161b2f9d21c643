"""C26: measurement updates are exact Bayesian updates."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import logsumexp

from vlib import gen
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import close
from vlib.core import info

RULE = (
    "update: random means, triangular factors (any signs, singular ones, widely "
    "different scales), loadings with zeros, controls, measurements with missing values "
    "and missing controls of missing measurements, mixture weights down to 1e-30, "
    "against conditioning of the joint normal by hand for each individual and component. "
    "sequence: 2-5 updates with own missing patterns in two orders and against one "
    "joint conditioning step. Non-trivial: some observed and two or more states, "
    "components or individuals."
)
ASSUMPTIONS = ["tolerance 1e-8 relative to the size of the prior moments"]


@st.composite
def cases(draw, n_updates=None):
    n_states = draw(st.integers(1, 4))
    k = n_updates if n_updates else 1
    if n_updates == "several":
        k = draw(st.integers(2, 5))
    return {
        "n_obs": draw(st.sampled_from([1, 3])),
        "n_mix": draw(st.integers(1, 3)),
        "n_states": n_states,
        "n_controls": draw(st.integers(1, 2)),
        "seed": draw(gen.SEED),
        "scale": draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3])),
        "singular": draw(st.integers(0, 3)) == 0,
        "miss": draw(st.sampled_from([0.0, 0.3, 0.7])),
        "updates": [
            {"zero": [draw(st.booleans()) for _ in range(n_states)],
             "sd": draw(st.sampled_from([1.0, 0.3, 20.0] + ([1e-3] if k == 1 else [0.1]))),
             "neg_weights": draw(st.booleans())}
            for _ in range(k)],
        "weights": draw(st.sampled_from(["even", "random", "extreme"])),
        "perm": draw(gen.SEED),
        "debug": draw(st.booleans()),
    }


def make(case):
    rng = np.random.default_rng(case["seed"])
    n, k, d = case["n_obs"], case["n_mix"], case["n_states"]
    states = rng.normal(size=(n, k, d)) * case["scale"]
    chols = np.triu(rng.normal(size=(n, k, d, d))) * case["scale"]
    for i in range(d):
        big = np.abs(chols[..., i, i]) + 0.2 * case["scale"]
        chols[..., i, i] = np.where(rng.uniform(size=(n, k)) < 0.3, -big, big)
    if case["singular"]:
        # one state is known or a linear combination of the others
        chols[..., rng.integers(d), :] = 0.0
    if case["weights"] == "even":
        w = np.full((n, k), 1 / k)
    else:
        w = rng.dirichlet(np.ones(k), size=n)
        if case["weights"] == "extreme" and k > 1:
            w[:, 0] = 1e-30
            w = w / w.sum(axis=1, keepdims=True)
    ups = []
    for u in case["updates"]:
        load = rng.normal(size=d)
        load[np.array(u["zero"])] = 0.0
        ctrl = rng.normal(size=(n, case["n_controls"]))
        cpar = rng.normal(size=case["n_controls"]) * case["scale"]
        meas = rng.normal(size=n) * case["scale"] * 2
        gone = rng.uniform(size=n) < case["miss"]
        meas[gone] = np.nan
        ctrl_nan = gone & (rng.uniform(size=n) < 0.5)
        ctrl[ctrl_nan, -1] = np.nan
        ups.append(dict(loadings=load, control_params=cpar, meas_sd=u["sd"] * case["scale"],
                        measurements=meas, controls=ctrl))
    return states, chols, np.log(w), ups


def condition(mean, cov, h, sd, res):
    """Condition on a set of measurements at once. h (m, d), sd (m,), res (m,)."""
    S = h @ cov @ h.T + np.diag(sd ** 2)
    gain = np.linalg.solve(S, h @ cov).T
    new_mean = mean + gain @ res
    # Joseph form
    ident = np.eye(len(mean)) - gain @ h
    new_cov = ident @ cov @ ident.T + gain @ np.diag(sd ** 2) @ gain.T
    sign, logdet = np.linalg.slogdet(S)
    ll = -0.5 * (res @ np.linalg.solve(S, res) + logdet + len(res) * np.log(2 * np.pi))
    return new_mean, new_cov, ll


def reference(states, chols, logw, ups):
    n, k, d = states.shape
    means, covs = states.copy(), np.einsum("nkji,nkjl->nkil", chols, chols)
    new_w = logw.copy()
    total = np.zeros(n)
    for i in range(n):
        seen = [u for u in ups if not np.isnan(u["measurements"][i])]
        if not seen:
            continue
        h = np.array([u["loadings"] for u in seen])
        sd = np.array([u["meas_sd"] for u in seen])
        lls = []
        for c in range(k):
            res = np.array([u["measurements"][i] - u["controls"][i] @ u["control_params"]
                            for u in seen]) - h @ states[i, c]
            means[i, c], covs[i, c], ll = condition(states[i, c], covs[i, c], h, sd, res)
            lls.append(ll)
        lls = np.array(lls)
        if k > 1:
            joint = lls + logw[i]
            total[i] = logsumexp(joint)
            new_w[i] = joint - total[i]
        else:
            total[i] = lls[0]
    return means, covs, new_w, total


def update(u, states, chols, logw, debug):
    import jax.numpy as jnp
    from skillmodels.kalman_filters import kalman_update

    out = call("kalman_update", kalman_update, states=jnp.array(states),
               upper_chols=jnp.array(chols), log_mixture_weights=jnp.array(logw),
               loadings=jnp.array(u["loadings"]),
               control_params=jnp.array(u["control_params"]), meas_sd=u["meas_sd"],
               measurements=jnp.array(u["measurements"]), controls=jnp.array(u["controls"]),
               debug=debug)
    return [np.asarray(x) for x in out[:4]] + [out[4]]


def compare(what, case, got, want):
    states, chols, logw, total = got
    means, covs, new_w, ll = want
    sc = case["scale"]
    close(f"{what}: states", states / sc, means / sc, rtol=1e-7, atol=1e-7)
    got_cov = np.einsum("nkji,nkjl->nkil", chols, chols)
    close(f"{what}: covariances", got_cov / sc**2, covs / sc**2, rtol=1e-7, atol=1e-7)
    # differences of large numbers: precision relative to the log likelihoods
    atol = 1e-7 + 1e-11 * np.abs(new_w).max() + 1e-11 * np.abs(ll).max()
    close(f"{what}: log likelihood", total, ll, rtol=1e-7, atol=atol)
    close(f"{what}: log mixture weights", logw, new_w, rtol=1e-7, atol=atol)
    if case["n_mix"] > 1:
        close(f"{what}: weights sum to one", np.exp(logw).sum(axis=1),
              np.ones(case["n_obs"]), rtol=1e-8 + atol)


def setup():
    import jax

    jax.config.update("jax_enable_x64", True)


def run_update(case):
    setup()
    states, chols, logw, ups = make(case)
    u = ups[0]
    s, c, w, ll, debug = update(u, states, chols, logw, case["debug"])
    check(s.shape == states.shape and c.shape == chols.shape and w.shape == logw.shape
          and ll.shape == (case["n_obs"],), "shapes")
    want = reference(states, chols, logw, ups)
    compare("update", case, (s, c, w, ll), want)
    low = np.abs(np.tril(c, -1)).max(initial=0)
    check(low <= 1e-9 * case["scale"], "factor is not upper triangular", got=low)
    gone = np.isnan(u["measurements"])
    check(np.array_equal(s[gone], states[gone]), "state changed without measurement")
    check(np.array_equal(c[gone], chols[gone]), "factor changed without measurement")
    check(np.array_equal(w[gone], logw[gone]), "weights changed without measurement")
    check((ll[gone] == 0).all(), "contribution without measurement", got=ll[gone])
    if case["debug"]:
        covs = np.einsum("nkji,nkjl->nkil", chols, chols)
        res = (u["measurements"] - u["controls"] @ u["control_params"])[:, None] \
            - states @ u["loadings"]
        close("residuals", debug["residuals"], np.where(gone[:, None], np.nan, res),
              equal_nan=True, rtol=1e-8, atol=1e-8 * case["scale"])
        sds = np.sqrt(np.einsum("i,nkij,j->nk", u["loadings"], covs, u["loadings"])
                      + u["meas_sd"] ** 2)
        close("residual_sds", debug["residual_sds"],
              np.where(gone[:, None], np.nan, sds), equal_nan=True, rtol=1e-7)
    size = case["n_obs"] > 1 or case["n_mix"] > 1 or case["n_states"] > 1
    return info(size and not gone.all(), [
        f"states={case['n_states']}", f"mixtures={case['n_mix']}", f"scale={case['scale']}",
        f"singular={case['singular']}", f"missing={bool(gone.any())}",
        f"sd={case['updates'][0]['sd']}", f"weights={case['weights']}"])


def run_sequence(case):
    setup()
    states, chols, logw, ups = make(case)
    order = np.random.default_rng(case["perm"]).permutation(len(ups))
    results = []
    for seq in [range(len(ups)), order]:
        s, c, w = states, chols, logw
        total = np.zeros(case["n_obs"])
        for j in seq:
            s, c, w, ll, _ = update(ups[j], s, c, w, False)
            total = total + ll
        results.append((s, c, w, total))
    want = reference(states, chols, logw, ups)
    for what, res in zip(["sequence", "permuted sequence"], results):
        compare(what, case, res, want)
    return info(True, [f"updates={len(ups)}", f"states={case['n_states']}",
                       f"mixtures={case['n_mix']}"])


PROPS = [
    Prop("update", lambda: cases(), run_update, quick=500, thorough=15000),
    Prop("sequence", lambda: cases("several"), run_sequence, quick=160, thorough=6000),
]
