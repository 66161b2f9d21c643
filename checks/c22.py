"""C22: density plots show the distribution of the selected factors."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks import c03
from checks.c06 import aggregated
from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call_warn
from vlib.core import check
from vlib.core import close
from vlib.core import info
from vlib.core import rejects
from vlib.ref import Ref

RULE = (
    "given: random states (one frame, list or dict of scenarios with different "
    "individuals, shuffled rows) together with a panel in any layout that has the "
    "observed factors. filtered: random model, parameters and panel, states from the "
    "filter. Random period, selection and order of latent and observed factors, grid "
    "size and options. The values of every curve, contour and surface are compared with "
    "a kernel density written out by hand, evaluated at the coordinates shown. "
    "Non-trivial: at least two factors or two scenarios."
)
ASSUMPTIONS = ["Gaussian kernels with Scott's bandwidth (the scipy default)",
               "relative tolerance 1e-6 (given), 1e-3 of the maximum (filtered)"]


def kde(values, points):
    """values (n, d), points (m, d) -> density."""
    n, d = values.shape
    cov = np.atleast_2d(np.cov(values.T, ddof=1)) * n ** (-2 / (d + 4))
    inv = np.linalg.inv(cov)
    diff = points[:, None, :] - values[None, :, :]
    expo = np.einsum("mni,ij,mnj->mn", diff, inv, diff)
    return np.exp(-0.5 * expo).mean(axis=1) / np.sqrt(np.linalg.det(2 * np.pi * cov))


@st.composite
def selections(draw, lab):
    sel = {"factors": None, "observed_factors": draw(st.booleans())}
    if draw(st.booleans()):
        sel["factors"] = draw(st.permutations(lab["all"]))[
            : draw(st.integers(1, len(lab["all"])))]
    return sel


@st.composite
def given_cases(draw):
    model = draw(gen.models(max_factors=3, min_periods=1, max_periods=3, tfs=("linear",),
                            mixtures=(1,), max_meas=2, options=False, anchoring=20))
    lab = gen.labels_of(model)
    kind = draw(st.sampled_from(["frame", "frame", "list", "dict"]))
    k = 1 if kind == "frame" else draw(st.integers(1, 3))
    return {
        "model": model,
        "data": {"n_obs": draw(st.integers(5, 12)), "seed": draw(gen.SEED)},
        "sel": draw(selections(lab)),
        "period": draw(st.integers(0, lab["n_periods"] - 1)),
        "kind": kind,
        "scenarios": [
            {"seed": draw(gen.SEED), "subset": draw(st.booleans()),
             "shuffle": draw(st.booleans())} for _ in range(k)],
        "names": draw(st.permutations(["base line", "policy", "A", "z_1"]))[:k],
        "layout": draw(gen.SEED),
        "n_points": draw(st.sampled_from([3, 5, 9])),
        "curve": draw(st.sampled_from(["kde", "kde", "normal"])),
        "hist": draw(st.booleans()), "rug": draw(st.booleans()),
        "title": draw(st.booleans()),
        "clash": draw(st.integers(0, 4)) == 0,
    }


def grids(trace):
    x = np.asarray(trace.x, dtype=float)
    y = np.asarray(trace.y, dtype=float)
    z = np.asarray(trace.z, dtype=float)
    check(z.ndim == 2, "z is not a matrix")
    if x.ndim == 1:
        check(len(x) == z.shape[1], "x does not fit z")
        x = np.tile(x, (z.shape[0], 1))
    if y.ndim == 1:
        check(len(y) == z.shape[0], "y does not fit z")
        y = np.tile(y[:, None], (1, z.shape[1]))
    check(x.shape == y.shape == z.shape, "shapes of coordinates")
    return x, y, z


def check_span(what, got, values):
    lo, up = values.min(), values.max()
    slack = 0.01 * (up - lo) + 1e-9
    check(abs(got.min() - lo) < slack and abs(got.max() - up) < slack,
          f"{what}: axis does not span the values of its factor",
          got=(got.min(), got.max()), want=(lo, up))


def check_plots(uni, cont, surf, facs, values, case, tol):
    """values: [{factor: array}] per scenario."""
    check(set(uni) == set(facs), "factors of univariate plots", got=list(uni), want=facs)
    pairs = {(a, b) for a in facs for b in facs if a != b}
    check(set(cont) == pairs, "pairs of contour plots", got=list(cont), want=sorted(pairs))
    for f, fig in uni.items():
        what = f"univariate density of {f}"
        if not case.get("title"):
            check(fig.layout.xaxis.title.text == f, f"{what}: title of x",
                  got=fig.layout.xaxis.title.text)
        else:
            check(fig.layout.xaxis.title.text == "mine", f"{what}: layout_kwargs")
        lines = [t for t in fig.data if t.type == "scatter" and t.mode == "lines"]
        check(len(lines) == len(values), f"{what}: number of curves", got=len(lines),
              warned=case.get("_warn"))
        if case.get("names") and case["kind"] == "dict":
            # curves are identified by the name of their scenario
            check(sorted(t.name for t in lines) == sorted(case["names"]),
                  f"{what}: labels", got=[t.name for t in lines], want=case["names"])
            lines = sorted(lines, key=lambda t: case["names"].index(t.name))
        for s, (t, val) in enumerate(zip(lines, values)):
            x = np.asarray(t.x, dtype=float)
            check_span(f"{what}, scenario {s}", x, val[f])
            if case.get("curve", "kde") == "kde":
                y = kde(val[f][:, None], x[:, None])
            else:
                y = np.exp(-0.5 * ((x - val[f].mean()) / val[f].std()) ** 2)
                y = y / val[f].std() / np.sqrt(2 * np.pi)
            close(f"{what}, scenario {s}", t.y, y, rtol=tol, atol=tol * y.max())
        hists = [t for t in fig.data if t.type == "histogram"]
        check(len(hists) == len(values) * bool(case.get("hist")), f"{what}: histograms")
        if hists and case.get("names") and case["kind"] == "dict":
            check(sorted(t.name for t in hists) == sorted(case["names"]),
                  f"{what}: labels of histograms", got=[t.name for t in hists])
            hists = sorted(hists, key=lambda t: case["names"].index(t.name))
        for t, val in zip(hists, values):
            close(f"{what}: histogram", np.sort(np.asarray(t.x, dtype=float)),
                  np.sort(val[f]), rtol=1e-9)
        rugs = [t for t in fig.data if t.type == "scatter" and t.mode == "markers"]
        check(len(rugs) == len(values) * bool(case.get("rug")), f"{what}: rugs")
    for kind, figs in [("contours", cont), ("surface", surf)]:
        if figs is None:
            continue
        check(set(figs) == pairs, f"pairs of {kind}", got=list(figs))
        for (a, b), fig in figs.items():
            what = f"{kind} of {a} and {b}"
            lay = fig.layout if kind == "contours" else fig.layout.scene
            check(lay.xaxis.title.text == a, f"{what}: x title", got=lay.xaxis.title.text)
            check(lay.yaxis.title.text == b, f"{what}: y title", got=lay.yaxis.title.text)
            check(len(fig.data) == len(values), f"{what}: number of traces",
                  got=len(fig.data), want=len(values))
            for s, (t, val) in enumerate(zip(fig.data, values)):
                x, y, z = grids(t)
                check(z.size == case["n_points"] ** 2, f"{what}: grid", got=z.shape)
                check_span(f"{what}, x", x, val[a])
                check_span(f"{what}, y", y, val[b])
                want = kde(np.column_stack([val[a], val[b]]),
                           np.column_stack([x.ravel(), y.ravel()]))
                close(f"{what}, scenario {s}", z.ravel(), want, rtol=tol,
                      atol=tol * want.max())


def relayout(df, n_per, rng):
    n = df.index.get_level_values(0).nunique()
    out = df
    if rng.uniform() < 0.7:
        out = c03.relevel(out, 0, dict(zip(range(n), sorted(c03.id_labels(n, rng)))))
        out = c03.relevel(out, 1, dict(zip(range(n_per), c03.period_labels(n_per, rng))))
    if rng.uniform() < 0.7:
        out = out.iloc[rng.permutation(len(out))]
    if rng.uniform() < 0.3:
        out = out.assign(period=7, id="a")
    if rng.uniform() < 0.3:
        out.index = out.index.set_names(["person", "wave"])
    return out


def selected(case, lab):
    sel = case["sel"]
    if sel["factors"] is not None:
        return sel["factors"]
    return lab["all"] if sel["observed_factors"] else lab["latent"]


def run_given(case):
    from skillmodels import visualize_factor_distributions as vis

    model, period = case["model"], case["period"]
    lab = gen.labels_of(model)
    df = gen.make_data(model, **case["data"])
    n = case["data"]["n_obs"]
    facs = selected(case, lab)
    frames, values = [], []
    for sc in case["scenarios"]:
        rng = np.random.default_rng(sc["seed"])
        ids = np.arange(n)
        if sc["subset"]:
            ids = np.sort(rng.choice(n, size=n - 1, replace=False))
        idx = pd.MultiIndex.from_product([range(lab["n_periods"]), ids],
                                         names=["period", "id"])
        vals = rng.normal(size=(len(idx), len(lab["latent"])))
        if len(lab["latent"]) > 1:
            vals[:, 1] += 0.8 * vals[:, 0]
        fr = pd.DataFrame(vals * [2.0, 0.5, 1.0][: vals.shape[1]], columns=lab["latent"],
                          index=idx)
        val = {f: fr[f].loc[period].to_numpy() for f in lab["latent"]}
        for f in lab["observed"]:
            obs = df[df.index.get_level_values(1) == period][f].droplevel(1)
            val[f] = obs.loc[ids].to_numpy()
        fr = fr.reset_index()
        if sc["shuffle"]:
            fr = fr.iloc[rng.permutation(len(fr))]
        frames.append(fr)
        values.append(val)
    if case["kind"] == "frame":
        states = frames[0]
    elif case["kind"] == "list":
        states = frames
    else:
        names = case.get("names", [f"sc {i}" for i in range(len(frames))])
        states = dict(zip(names, frames))
    data = relayout(df, lab["n_periods"], np.random.default_rng(case["layout"]))
    if case["clash"]:
        # an unrelated column that is called like a latent factor
        data = data.assign(**{lab["latent"][0]: 99.0})
    spec = gen.build_model(model)
    args = dict(data=data, model_dict=spec, params=None, period=period, states=states,
                **case["sel"])
    lay = {"layout_kwargs": {"xaxis_title": "mine"}} if case["title"] else {}
    uni, w0 = call_warn("univariate_densities", vis.univariate_densities,
                       show_hist=case["hist"], show_rug=case["rug"],
                       curve_type=case["curve"], **args, **lay)
    cont, w = call_warn("bivariate_density_contours", vis.bivariate_density_contours,
                        n_points=case["n_points"], **args)
    surf = None
    if case["kind"] == "frame":
        surf, w = call_warn("bivariate_density_surfaces", vis.bivariate_density_surfaces,
                            n_points=case["n_points"], **args)
    else:
        rejects("surfaces of several scenarios", ValueError,
                vis.bivariate_density_surfaces, **args)
    check_plots(uni, cont, surf, facs, values, dict(case, _warn=w0 + w), 1e-6)
    return info(len(facs) > 1 or len(values) > 1, [
        f"factors={len(facs)}", f"observed={len(set(facs) & set(lab['observed']))}",
        f"kind={case['kind']}", f"scenarios={len(values)}", f"curve={case['curve']}",
        f"mixed={bool(set(facs) & set(lab['observed'])) and bool(set(facs) & set(lab['latent']))}"])


@st.composite
def filtered_cases(draw):
    case = draw(lk.cases(
        dict(max_factors=3, min_periods=1, max_periods=2, tfs=("linear", "log_ces"),
             max_meas=2, mixtures=(1, 1, 2), gaps=0),
        dict(n_min=5, n_max=9), n_params=1))
    lab = gen.labels_of(case["model"])
    case["data"]["miss"] = draw(st.sampled_from([0.0, 0.2]))
    case["sel"] = draw(selections(lab))
    case["period"] = draw(st.integers(0, lab["n_periods"] - 1))
    case["layout"] = draw(gen.SEED)
    case["n_points"] = 4
    case["which"] = draw(st.sampled_from(["all", "contours", "surface"]))
    return case


def run_filtered(case):
    from skillmodels import visualize_factor_distributions as vis

    model, period = case["model"], case["period"]
    lab = gen.labels_of(model)
    df = lk.data_of(case)
    vals = gen.make_params(model, case["params"][0])
    want, raw = lk.ref_contribs(model, vals, df)
    if not lk.finite(want) or np.abs(want).max() > 1e6:
        return info(False, ["not-finite"])
    agg = aggregated(raw, gen.updates_of(model), lab["n_periods"])
    if period not in agg:
        return info(False, ["period without measurements"])
    ref = Ref(model, vals)
    value = {}
    for j, f in enumerate(lab["latent"]):
        sc, const = ref.scale_const(period, f)
        value[f] = agg[period][:, j] * sc + const
    for f in lab["observed"]:
        value[f] = df[df.index.get_level_values(1) == period][f].to_numpy()
    facs = selected(case, lab)
    for a in facs:
        if np.ptp(value[a]) < 1e-3:
            return info(False, ["degenerate"])
        for b in facs:
            if a != b and abs(np.corrcoef(value[a], value[b])[0, 1]) > 0.99:
                return info(False, ["degenerate"])
    data = relayout(df, lab["n_periods"], np.random.default_rng(case["layout"]))
    args = dict(data=data, model_dict=gen.build_model(model),
                params=lk.shuffled(vals, case["layout"]), period=period, **case["sel"])
    uni, _ = call_warn("univariate_densities", vis.univariate_densities, **args)
    cont, _ = call_warn("bivariate_density_contours", vis.bivariate_density_contours,
                        n_points=4, **args)
    surf, _ = call_warn("bivariate_density_surfaces", vis.bivariate_density_surfaces,
                        n_points=4, **args)
    check_plots(uni, cont, surf, facs, [value], case, 1e-3)
    return info(len(facs) > 1, [f"factors={len(facs)}"] + lk.features(model, df))


PROPS = [
    Prop("given", given_cases, run_given, quick=300, thorough=10000),
    Prop("filtered", filtered_cases, run_filtered, quick=32, thorough=1500),
]
