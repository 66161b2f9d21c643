"""C06: debug output agrees with the likelihood and is labelled correctly."""
import numpy as np
from scipy.special import softmax

from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import close
from vlib.core import info
from vlib.ref import clip_opts
from vlib.ref import soft_clip

RULE = (
    "Random model, parameters and panel with missings. The debug output must equal "
    "the plain one, and every row of every debug table is looked up by its labels "
    "(individual, mixture, period, measurement) in the arrays of the reference "
    "filter; the label sets must be exactly the expected ones. Non-trivial: at least "
    "two individuals and two mixture components or two updates in a period."
)
ASSUMPTIONS = ["relative tolerance 1e-5 against the reference filter"]


def table(what, df, keys, value_cols, expected_keys):
    missing = [c for c in keys + value_cols if c not in df.columns]
    check(not missing, f"{what}: columns missing", missing=missing)
    sr = df.set_index(keys)[value_cols]
    check(sr.index.is_unique, f"{what}: labels are not unique",
          example=sr.index[sr.index.duplicated()][:3].tolist())
    got, want = set(sr.index.tolist()), set(expected_keys)
    check(got == want, f"{what}: wrong labels", missing=sorted(want - got)[:5],
          additional=sorted(got - want)[:5])
    return sr.loc[list(expected_keys)].to_numpy()


def aggregated(ref_out, ups, T):
    """Reference filtered states: {period: (n_obs, n)} after last measurement."""
    out = {}
    for u, (t, _, _, purpose) in enumerate(ups):
        if purpose == "measurement":
            w = softmax(ref_out["logw"][u], axis=-1)
            out[t] = (ref_out["states"][u] * w[..., None]).sum(axis=1)
    return out


def run(case):
    model = case["model"]
    lab = gen.labels_of(model)
    df = lk.data_of(case)
    n, K, T = case["data"]["n_obs"], lab["n_mixtures"], lab["n_periods"]
    ups = gen.updates_of(model)
    vals = gen.make_params(model, case["params"][0])
    want, ref = lk.ref_contribs(model, vals, df)
    if not lk.finite(want) or np.abs(want).max() > 1e6:
        return info(False, ["not-finite"])
    mi = lk.max_inputs(model, df)
    params = lk.shuffled(vals, case["params"][0])
    plain = call("loglike", mi["loglike"], params)
    deb = call("debug_loglike", mi["debug_loglike"], params)
    close("debug value", deb["value"], plain["value"], rtol=1e-9, atol=1e-9)
    close("debug contributions", deb["contributions"], plain["contributions"],
          rtol=1e-9, atol=1e-9)
    tol = dict(rtol=1e-5, atol=1e-6)

    keys = [(i, t, m) for t, m, _, _ in ups for i in range(n)]
    contrib = table("all_contributions", deb["all_contributions"],
                    ["id", "period", "measurement"], ["contribution"], keys)
    contrib = contrib.reshape(len(ups), n)
    close("all_contributions", contrib, ref["contributions"], **tol)
    close("sum of clipped all_contributions",
          soft_clip(contrib, **clip_opts(model)).sum(axis=0), deb["contributions"],
          rtol=1e-8, atol=1e-8)

    keys = [(i, k, t, m) for t, m, _, _ in ups for i in range(n) for k in range(K)]
    names = ["id", "mixture", "period", "measurement"]
    shape = (len(ups), n, K)
    res = table("residuals", deb["residuals"], names, ["residual"], keys)
    close("residuals", res.reshape(shape), ref["residuals"], equal_nan=True, **tol)
    sds = table("residual_sds", deb["residual_sds"], names, ["residual"], keys)
    close("residual_sds", sds.reshape(shape), ref["residual_sds"], equal_nan=True, **tol)
    post = table("post_update_states", deb["post_update_states"], names, lab["latent"],
                 keys)
    close("post_update_states", post.reshape(*shape, -1), ref["states"], **tol)

    agg = aggregated(ref, ups, T)
    # there are no filtered states of periods without measurements
    periods = sorted(agg)
    keys = [(i, t) for t in periods for i in range(n)]
    filt = table("filtered_states", deb["filtered_states"], ["id", "period"],
                 lab["latent"], keys)
    wanted = np.concatenate([agg[t] for t in periods])
    close("filtered_states", filt, wanted, **tol)

    check(set(deb["state_ranges"]) == set(lab["latent"]), "keys of state_ranges")
    tab = deb["filtered_states"]
    for f in lab["latent"]:
        r = deb["state_ranges"][f]
        check(list(r.index) == periods, "periods of state ranges")
        for t in periods:
            x = tab.loc[tab["period"] == t, f]
            close("minimum", r.loc[t, "minimum"], x.min(), rtol=1e-12, atol=1e-12)
            close("maximum", r.loc[t, "maximum"], x.max(), rtol=1e-12, atol=1e-12)
    return info(n > 1 and (K > 1 or len(ups) > T), lk.features(model, df))


PROPS = [
    Prop(
        "debug_tables",
        lambda: lk.cases(
            dict(custom=5, clipping=True, max_factors=3), dict(miss_ctrl=True), n_params=1
        ),
        run,
        quick=112,
        thorough=6000,
    ),
    Prop(
        "large_models",
        lambda: lk.cases(dict(custom=5, max_factors=3, big=100), dict(miss_ctrl=True),
                         n_params=1),
        run,
        quick=16,
        thorough=400,
    ),
    Prop(
        "large_samples",
        lambda: lk.cases(
            dict(custom=5, max_factors=2, max_periods=3, max_meas=2, big=0),
            dict(n_min=120, n_max=300, crowd=0),
            n_params=1,
        ),
        run,
        quick=16,
        thorough=400,
    ),
]
