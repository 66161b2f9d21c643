"""C16: simulated data have the distribution implied by the model."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import stats

from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import info
from vlib.ref import Ref

RULE = (
    "decomposition: large samples from random models of all kinds are split, with the "
    "reference equations evaluated at the simulated states, into initial states, "
    "shocks (plus stochastic policies) and measurement errors; each series must pass "
    "Kolmogorov-Smirnov, mean and variance tests against its specified normal (or "
    "mixture) and all pairs must be uncorrelated. likelihood: for affine models the "
    "standardized residuals of the debug likelihood on simulated data are independent "
    "standard normals and the score in random directions of each parameter category "
    "has mean zero. seeds: the same seed gives identical output, another one does not. "
    "Non-trivial: positive noise in shocks or measurements."
)
ASSUMPTIONS = [
    "every single test rejects a correct sample with probability below 1e-10",
    "deviations of standard deviations below about 10 percent are not detected",
    "randomness comes from numpy's global generator",
]
Z = 7.0
PMIN = 1e-11


def normal_test(what, x, mean, sd, **ctx):
    x = np.asarray(x, dtype=float)
    n = len(x)
    if sd == 0:
        check(np.abs(x - mean).max() < 1e-7, f"{what}: noise although sd is zero",
              got=np.abs(x - mean).max(), **ctx)
        return
    u = (x - mean) / sd
    z = np.mean(u) * np.sqrt(n)
    check(abs(z) < Z, f"{what}: wrong mean", z=z, got=x.mean(), want=mean, **ctx)
    z = (np.mean(u**2) - 1) * np.sqrt(n / 2)
    check(abs(z) < Z + 1, f"{what}: wrong variance", z=z, got=x.std(), want=sd, **ctx)
    p = stats.kstest(u, "norm").pvalue
    check(p > PMIN, f"{what}: not normal", p=p, got_sd=x.std(), want_sd=sd, **ctx)


def independent(what, series):
    """All pairs of series uncorrelated, also in absolute values."""
    keys = [k for k, v in series.items() if np.std(v) > 1e-9 * (1 + np.abs(v).max())]
    if len(keys) < 2:
        return
    arr = np.stack([series[k] for k in keys])
    n = arr.shape[1]
    arr = (arr - arr.mean(axis=1, keepdims=True)) / arr.std(axis=1, keepdims=True)
    corr = arr @ arr.T / n
    np.fill_diagonal(corr, 0)
    i, j = np.unravel_index(np.abs(corr).argmax(), corr.shape)
    check(abs(corr[i, j]) * np.sqrt(n) < Z + 1, f"{what}: series are correlated",
          pair=(keys[i], keys[j]), corr=corr[i, j])
    for k in keys:
        exchangeable(what, k, series[k])


def exchangeable(what, name, x):
    """No trend over individuals and no dependence between them."""
    n = len(x)
    if np.std(x) <= 1e-9 * (1 + np.abs(x).max()):
        return
    u = stats.rankdata(x)
    u = (u - u.mean()) / u.std()
    for lag in [1, 2, 3, n // 2]:
        z = (u[lag:] * u[:-lag]).mean() * np.sqrt(n - lag)
        check(abs(z) < Z + 1, f"{what}: dependence between individuals", series=name,
              lag=lag, z=z)
    pos = np.arange(n) - (n - 1) / 2
    for kind, w in [("position", pos), ("middle", np.abs(pos)), ("parity", pos * 0 + (
            np.arange(n) % 2) - 0.5)]:
        w = (w - w.mean()) / w.std()
        z = (u * w).mean() * np.sqrt(n)
        check(abs(z) < Z + 1, f"{what}: depends on the position of the individual",
              series=name, kind=kind, z=z)


@st.composite
def cases(draw):
    model = draw(gen.models(max_factors=3, min_periods=1, max_periods=3, custom=15,
                            max_meas=2))
    lab = gen.labels_of(model)
    pol = []
    if lab["n_periods"] > 1:
        for _ in range(draw(st.sampled_from([0, 0, 1, 2, 3]))):
            pol.append({
                "period": draw(st.integers(0, lab["n_periods"] - 2)),
                "factor": draw(st.sampled_from(lab["latent"])),
                "effect_size": draw(st.sampled_from([0.0, 0.5, -1.5])),
                "standard_deviation": draw(st.sampled_from([0.0, 0.4, 1.3])),
            })
    return {"model": model, "params": draw(gen.SEED), "policies": pol,
            "seed": draw(gen.SEED), "deg": draw(st.sampled_from([0, 0, 1, 2])),
            "data_seed": draw(gen.SEED)}


def mixture_cdf(ref, direction):
    mus, sds, ws = [], [], []
    for k in range(ref.K):
        m, cov = ref.init(k)
        mus.append(direction @ m)
        sds.append(np.sqrt(direction @ cov @ direction))
        ws.append(ref.weight(k) if ref.K > 1 else 1.0)
    return mus, sds, ws


def run(case):
    from skillmodels.simulate_data import simulate_dataset

    model = case["model"]
    lab = gen.labels_of(model)
    T = lab["n_periods"]
    n = 3000 if lab["n_mixtures"] == 1 else 1500
    vals = gen.make_params(model, case["params"], degenerate=case["deg"] == 2,
                           tame=0.3)
    if case["deg"] == 1:
        for k in vals:
            if k[0] == "initial_cholcovs":
                vals[k] = 0.0
    need_data = bool(lab["observed"]) or len(lab["controls"]) > 1
    df = gen.make_data(model, n, case["data_seed"])
    kwargs = {"data": df} if need_data else {"n_obs": n}
    np.random.seed(case["seed"])
    out = call("simulate_dataset", simulate_dataset, gen.build_model(model),
               lk.shuffled(vals, case["seed"]), policies=case["policies"], **kwargs)
    ref = Ref(model, vals)
    states = out["unanchored_states"]["states"].sort_values(["id", "period"])
    states = states[lab["latent"]].to_numpy().reshape(n, T, ref.n)
    cols = {c: df[c].to_numpy(dtype=float).reshape(n, T) for c in df}
    cols["constant"] = np.ones((n, T))
    if not np.isfinite(states).all() or np.abs(states).max() > 1e6:
        return info(False, ["explosive"])
    pols = {}
    for p in case["policies"]:
        m, v = pols.get((p["period"], p["factor"]), (0.0, 0.0))
        pols[(p["period"], p["factor"])] = (
            m + p["effect_size"], v + p["standard_deviation"] ** 2)
    series = {}

    # initial states; policies of period 0 add an independent normal
    rng = np.random.default_rng(case["seed"])
    pm = np.array([pols.get((0, f), (0, 0))[0] for f in lab["latent"]])
    pv = np.array([pols.get((0, f), (0, 0))[1] for f in lab["latent"]])
    dirs = list(np.eye(ref.n)) + [rng.normal(size=ref.n) for _ in range(3)]
    for d in dirs:
        x = (states[:, 0] - pm) @ d
        mus, sds, ws = mixture_cdf(ref, d)
        sds = [np.sqrt(s**2 + (d**2) @ pv) for s in sds]
        if ref.K == 1:
            normal_test("initial states", x, mus[0], sds[0], direction=d)
        elif min(sds) > 1e-8:
            p = stats.kstest(
                x, lambda q: sum(w * stats.norm.cdf(q, m, s)
                                 for w, m, s in zip(ws, mus, sds))).pvalue
            check(p > PMIN, "initial states do not follow the mixture", p=p,
                  direction=d, weights=ws, means=mus, sds=sds)
        else:
            # degenerate components: shares of the means
            for m, w in zip(mus, ws):
                share = np.mean(np.abs(x - m) < 1e-7)
                want = sum(v for mm, v in zip(mus, ws) if abs(mm - m) < 1e-7)
                z = (share - want) / np.sqrt(want * (1 - want) / n + 1e-12)
                check(abs(z) < Z, "share of mixture component", got=share, want=want)
    for i, f in enumerate(lab["latent"]):
        exchangeable("initial states", f, states[:, 0, i])
    noisy = False
    for t in range(T - 1):
        obs = np.stack([cols[o][:, t] for o in lab["observed"]], axis=1) \
            if lab["observed"] else np.zeros((n, 0))
        nxt = ref.next_states(t, states[:, t], obs)
        if np.abs(nxt).max() > 1e4:
            return info(False, ["explosive"])
        for i, f in enumerate(lab["latent"]):
            m, v = pols.get((t + 1, f), (0.0, 0.0))
            sd = np.sqrt(vals[("shock_sds", t, f, "-")] ** 2 + v)
            e = states[:, t + 1, i] - nxt[:, i]
            normal_test("shock", e, m, sd, factor=f, period=t)
            series[f"shock {f} {t}"] = e
            noisy = noisy or sd > 0
    meas = out["measurements"].sort_values(["id", "period"])
    for t, m, _, _ in ref.ups:
        y = meas[m].to_numpy().reshape(n, T)[:, t]
        eff = sum(ref.v[("controls", t, m, c)] * cols[c][:, t] for c in lab["controls"])
        e = y - states[:, t] @ ref.loading(t, m) - eff
        normal_test("measurement error", e, 0.0, ref.meas_sd(t, m), variable=m, period=t)
        series[f"meas {m} {t}"] = e
        noisy = True
    independent("simulation", series)
    # initial states of several factors are correlated by design; one after another
    for i, f in enumerate(lab["latent"]):
        independent("initial state and noise", {**series, f"state {f} 0": states[:, 0, i]})
    labels = lk.features(model)
    if case["policies"]:
        labels.append("policies")
    return info(noisy, labels)


# ------------------------------------------------------------- likelihood
@st.composite
def like_cases(draw):
    model = draw(gen.models(tfs=gen.AFFINE, max_factors=2, max_periods=3, max_meas=2,
                            anchoring=False, controls=draw(st.booleans())))
    return {"model": model, "params": draw(gen.SEED), "seed": draw(gen.SEED)}


def run_like(case):
    from skillmodels.simulate_data import simulate_dataset

    model = case["model"]
    lab = gen.labels_of(model)
    T = lab["n_periods"]
    n = 1500
    vals = gen.make_params(model, case["params"])
    base = gen.make_data(model, n, case["seed"])
    np.random.seed(case["seed"])
    built = gen.build_model(model)
    params = gen.params_df(vals)
    out = call("simulate_dataset", simulate_dataset, built, params, data=base)
    df = out["measurements"].set_index(["id", "period"]).sort_index()
    extra = [c for c in lab["controls"][1:] + lab["observed"]]
    df = pd.concat([df, base[extra]], axis=1)
    mi = lk.max_inputs(model, df)
    labels = lk.features(model)
    if lab["n_mixtures"] == 1:
        debug = call("debug_loglike", mi["debug_loglike"], params)
        res = debug["residuals"].merge(
            debug["residual_sds"], on=["id", "period", "measurement", "mixture"],
            suffixes=("", "_sd"))
        check(len(res) == n * len(gen.updates_of(model)), "rows of residuals")
        series = {}
        for (t, m), d in res.groupby(["period", "measurement"]):
            d = d.sort_values("id")
            u = d["residual"].to_numpy() / d["residual_sd"].to_numpy()
            normal_test("standardized residuals", u, 0.0, 1.0, period=t, measurement=m)
            series[f"{m} {t}"] = u
        independent("standardized residuals", series)
        labels.append("residuals")
    idx = list(vals)
    rng = np.random.default_rng(case["seed"])
    theta = np.array([vals[k] for k in idx])
    func = mi["loglike"]
    for cat in sorted({k[0] for k in idx}):
        if cat == "mixture_weights" and lab["n_mixtures"] == 1:
            continue
        where = np.array([k[0] == cat for k in idx])
        d = np.where(where, rng.normal(size=len(idx)), 0.0)
        if cat == "mixture_weights":
            d = np.where(where, d - d[where].mean(), 0.0)
        if cat == "shock_sds":
            # the derivative with respect to a zero standard deviation is zero
            d = np.where(theta > 1e-6, d, 0.0)
        if not d.any():
            continue
        h = 1e-5
        cs = []
        for s in [h, -h]:
            p = pd.DataFrame({"value": theta + s * d}, index=params.index)
            cs.append(call("loglike", func, p)["contributions"])
        score = (cs[0] - cs[1]) / (2 * h)
        if score.std() < 1e-8:
            continue
        z = score.mean() / (score.std(ddof=1) / np.sqrt(n))
        check(abs(z) < Z + 1, f"mean score is not zero at the true parameters ({cat})",
              z=z, mean=score.mean())
    return info(True, labels)


# ------------------------------------------------------------------ seeds
@st.composite
def seed_cases(draw):
    model = draw(gen.models(max_factors=3, min_periods=1, max_periods=3, max_meas=2))
    return {"model": model, "params": draw(gen.SEED), "seed": draw(gen.SEED),
            "n": draw(st.integers(2, 20))}


def run_seeds(case):
    from skillmodels.simulate_data import simulate_dataset

    model = case["model"]
    df = gen.make_data(model, case["n"], case["seed"])
    params = gen.params_df(gen.make_params(model, case["params"], tame=0.3))
    built = gen.build_model(model)
    outs = []
    for s in [case["seed"], case["seed"], case["seed"] + 1]:
        np.random.seed(s)
        outs.append(call("simulate_dataset", simulate_dataset, built, params, data=df))
    for key in ["unanchored_states", "anchored_states"]:
        pd.testing.assert_frame_equal(outs[0][key]["states"], outs[1][key]["states"])
    pd.testing.assert_frame_equal(outs[0]["measurements"], outs[1]["measurements"])
    check(not outs[0]["measurements"].equals(outs[2]["measurements"]),
          "different seeds give the same sample")
    return info(True, lk.features(model))


PROPS = [
    Prop("decomposition", cases, run, quick=144, thorough=8000,
         rule="sample with noise"),
    Prop("likelihood", like_cases, run_like, quick=32, thorough=1600),
    Prop("seeds", seed_cases, run_seeds, quick=24, thorough=1000),
]
