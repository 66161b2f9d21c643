"""C15: noise-free simulation follows the model equations exactly."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.c03 import id_labels
from checks.c03 import period_labels
from checks.c03 import relevel
from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import call_warn
from vlib.core import check
from vlib.core import close
from vlib.core import info
from vlib.ref import Ref

RULE = (
    "Random models of all kinds (custom functions, anchoring, observed factors, "
    "controls with missings, mixtures, 1-5 periods), all standard deviations and "
    "covariance factors zero, 0-4 deterministic policies, data in random layout with "
    "or without measurement columns (or only n_obs). Period-0 states must be component "
    "means plus policies; every later state and every measurement must equal the "
    "reference equations evaluated at the individual's own states, controls and "
    "observed factors. Non-trivial: at least two periods and finite states."
)
ASSUMPTIONS = [
    "policies are applied in periods before the last one",
    "states up to 1e8 in absolute value are compared, relative tolerance 1e-9",
]


@st.composite
def cases(draw, big=3):
    model = draw(gen.models(max_factors=4, min_periods=1, max_periods=5, custom=20,
                            big=big))
    lab = gen.labels_of(model)
    pol = []
    if lab["n_periods"] > 1:
        for _ in range(draw(st.sampled_from([0, 0, 1, 2, 3, 4]))):
            pol.append({
                "period": draw(st.integers(0, lab["n_periods"] - 2)),
                "factor": draw(st.sampled_from(lab["latent"])),
                "effect_size": draw(st.sampled_from([0.0, 0.3, -0.8, 1.7, 2])),
                "standard_deviation": 0.0,
            })
    return {
        "model": model,
        "data": draw(lk.data_specs(n_min=1, n_max=7, miss=True, miss_ctrl=True, mass=True)),
        "params": draw(gen.SEED),
        "policies": pol,
        "layout": draw(gen.SEED),
        "drop_meas": draw(st.booleans()),
        "n_obs": draw(st.sampled_from([None, "same", "other"])),
        "no_data": draw(st.booleans()),
        "zero_weight": draw(st.booleans()),
    }


def noise_free(vals, zero_weight):
    out = {}
    for k, v in vals.items():
        if k[0] in ("meas_sds", "shock_sds", "initial_cholcovs"):
            v = 0.0
        out[k] = v
    w = [k for k in out if k[0] == "mixture_weights"]
    if zero_weight and len(w) > 1:
        rest = 1 - out[w[1]]
        for k in w:
            out[k] = 0.0 if k == w[1] else out[k] / rest
    return out


def frame(states, cols, n, T, what):
    check(isinstance(states, pd.DataFrame), f"{what}: no frame")
    missing = [c for c in ["id", "period", *cols] if c not in states]
    check(not missing, f"{what}: columns missing", missing=missing)
    keys = list(zip(states["id"].tolist(), states["period"].tolist()))
    want = [(i, t) for i in range(n) for t in range(T)]
    check(keys == want, f"{what}: identifiers and periods", got=keys[:6], n=len(keys))
    extra = set(states.columns) - set(cols) - {"id", "period"}
    check(not extra, f"{what}: additional columns", got=extra)
    return states[list(cols)].to_numpy(dtype=float).reshape(n, T, len(cols))


def check_ranges(ranges, arr, lab, what):
    check(set(ranges) == set(lab["latent"]), f"{what} ranges: factors",
          got=sorted(ranges))
    for i, f in enumerate(lab["latent"]):
        r = ranges[f]
        check(list(r.index) == list(range(lab["n_periods"])), f"{what} ranges: periods")
        close(f"{what} minimum of {f}", r["minimum"], arr[:, :, i].min(axis=0))
        close(f"{what} maximum of {f}", r["maximum"], arr[:, :, i].max(axis=0))


def run(case):
    from skillmodels.simulate_data import simulate_dataset

    model = case["model"]
    lab = gen.labels_of(model)
    T, n = lab["n_periods"], case["data"]["n_obs"]
    df = lk.data_of(case)
    vals = noise_free(gen.make_params(model, case["params"], tame=0.5),
                      case["zero_weight"])
    rng = np.random.default_rng(case["layout"])
    need_data = bool(lab["observed"]) or len(lab["controls"]) > 1
    kwargs = {}
    labels = lk.features(model)
    if need_data or not case["no_data"]:
        data = df
        if case["drop_meas"]:
            data = data[[c for c in df if c in lab["controls"] + lab["observed"]]]
            labels.append("no-measurement-columns")
        perm = np.argsort(rng.uniform(size=n))
        new_ids = sorted(id_labels(n, rng))
        # original individual i becomes new_ids[perm[i]]
        data = relevel(data, 0, {i: new_ids[perm[i]] for i in range(n)})
        data = relevel(data, 1, dict(zip(range(T), period_labels(T, rng))))
        data = data.iloc[rng.permutation(len(data))]
        kwargs["data"] = data
        if case["n_obs"] is not None:
            kwargs["n_obs"] = n if case["n_obs"] == "same" else n + 3
        back = np.argsort(perm)
    else:
        kwargs["n_obs"] = n
        back = np.arange(n)
        labels.append("no-data")
    if case["policies"]:
        kwargs["policies"] = [dict(p) for p in case["policies"]]
    np.random.seed(case["layout"])
    out, warns = call_warn("simulate_dataset", simulate_dataset,
                           gen.build_model(model), lk.shuffled(vals, case["layout"]),
                           **kwargs)
    if "data" in kwargs and kwargs.get("n_obs", n) != n:
        check(any(str(n + 3) in w and str(n) in w for w in warns),
              "no warning about n_obs that differs from the data", got=warns)
        labels.append("n_obs-warning")

    cols = {c: df[c].to_numpy(dtype=float).reshape(n, T)[back] for c in df}
    cols["constant"] = np.ones((n, T))
    ref = Ref(model, vals)
    states = frame(out["unanchored_states"]["states"], lab["latent"], n, T, "states")
    shift = np.zeros((T, ref.n))
    for p in case["policies"]:
        shift[p["period"], lab["latent"].index(p["factor"])] += p["effect_size"]
    means = [ref.init(k)[0] for k in range(ref.K)
             if ref.K == 1 or ref.weight(k) > 0]
    for i in range(n):
        dist = [np.abs(states[i, 0] - shift[0] - m).max() for m in means]
        check(min(dist) < 1e-9, "initial state is no mean of a mixture component",
              individual=i, got=states[i, 0], means=means, policy=shift[0])
    ok = np.ones(n, dtype=bool)
    for t in range(T - 1):
        obs = np.stack([cols[o][:, t] for o in lab["observed"]], axis=1) \
            if lab["observed"] else np.zeros((n, 0))
        with np.errstate(all="ignore"):
            want = ref.next_states(t, states[:, t], obs) + shift[t + 1]
        ok &= np.isfinite(want).all(axis=1) & (np.abs(want).max(axis=1) < 1e8)
        close(f"states of period {t + 1}", states[ok, t + 1], want[ok], rtol=1e-9,
              atol=1e-9)
    if not ok.all():
        labels.append("explosive")

    names = []
    for _, m, _, _ in ref.ups:
        if m not in names:
            names.append(m)
    meas = frame(out["measurements"], names, n, T, "measurements")
    done = np.zeros((T, len(names)), dtype=bool)
    for t, m, _, _ in ref.ups:
        j = names.index(m)
        done[t, j] = True
        eff = sum(ref.v[("controls", t, m, c)] * cols[c][:, t] for c in lab["controls"])
        want = states[:, t] @ ref.loading(t, m) + eff
        good = ok & (np.abs(states).max(axis=(1, 2)) < 1e8)
        close(f"measurement {m} of period {t}", meas[good, t, j], want[good],
              rtol=1e-9, atol=1e-8, equal_nan=True)
    check(np.isnan(meas[:, ~done]).all(), "values for measurements that do not exist")

    anchored = frame(out["anchored_states"]["states"], lab["latent"], n, T, "anchored")
    want = np.empty_like(states)
    for t in range(T):
        for i, f in enumerate(lab["latent"]):
            s, c = ref.scale_const(t, f)
            want[:, t, i] = states[:, t, i] * s + c
    if np.isfinite(states).all():
        close("anchored states", anchored, want, rtol=1e-9, atol=1e-9)
        check_ranges(out["unanchored_states"]["state_ranges"], states, lab, "unanchored")
        check_ranges(out["anchored_states"]["state_ranges"], anchored, lab, "anchored")
    if case["policies"]:
        labels.append("policies")
    return info(T > 1 and ok.any(), labels)


PROPS = [
    Prop("noise_free", cases, run, quick=280, thorough=12000),
    Prop("large_models", lambda: cases(big=100), run, quick=24, thorough=1000),
]
