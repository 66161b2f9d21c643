"""C21: transition plots show the model's transition function."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.c06 import aggregated
from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import close
from vlib.core import fail
from vlib.core import info
from vlib.core import rejects
from vlib.ref import Ref
from vlib.ref import transition

RULE = (
    "Random model (all transition functions, custom ones, anchoring, observed factors), "
    "parameters and panel; random period, grid size, quantiles (one, several in any "
    "order, None = average over draws) and axis ranges (default or given, also for a "
    "subset of factors). Every line of every figure is compared point by point with "
    "the reference transition function evaluated at the reference filter's anchored "
    "states and the data. Non-trivial: at least two factors and a non-constant line."
)
ASSUMPTIONS = [
    "relative tolerance 1e-5 (states come from the reference filter)",
    "averages over draws: all individuals drawn (exact mean), one draw (one of the "
    "individuals' curves), other numbers (within the range of the individuals' curves)",
]


@st.composite
def cases(draw):
    case = draw(lk.cases(
        dict(max_factors=3, max_periods=3, custom=10, max_meas=2, mixtures=(1, 1, 2)),
        dict(n_min=3, n_max=7, mass=True), n_params=1))
    lab = gen.labels_of(case["model"])
    T = lab["n_periods"]
    case["period"] = draw(st.sampled_from(list(range(T - 1)) * 4 + [T - 1, T]))
    case["n_points"] = draw(st.sampled_from([2, 3, 5, 8]))
    case["quantiles"] = draw(st.one_of(
        st.just("default"), st.sampled_from([0.5, 0.1, 0, 1, 0.75]),
        st.lists(st.sampled_from([0.5, 0.1, 0.9, 0.25, 0.33]), min_size=1, max_size=3,
                 unique=True), st.none()))
    case["tuple"] = draw(st.booleans())
    case["draws"] = draw(st.sampled_from(["all", "all", "one", "few", "default"]))
    case["ranges"] = draw(st.sampled_from(["default", "default", "latent", "given"]))
    case["layout"] = draw(st.sampled_from([None, None, {"width": 444},
                                           {"title": {"text": "T"}, "showlegend": False}]))
    return case


def expected_line(model, vals, period, out_fac, x):
    """x: (n, n_all) anchored inputs -> anchored output."""
    lab = gen.labels_of(model)
    ref = Ref(model, vals)
    p = ref.trans_params(period, out_fac)
    tf = model["factors"][out_fac]["transition_function"]
    cols = {f: x[:, j] for j, f in enumerate(lab["all"])}
    out = np.asarray(transition(tf, out_fac, p, cols, lab["all"]), dtype=float)
    return np.broadcast_to(out, len(x))


def run(case):
    from skillmodels.visualize_transition_equations import get_transition_plots

    model, period = case["model"], case["period"]
    lab = gen.labels_of(model)
    df = lk.data_of(case)
    n, T = case["data"]["n_obs"], lab["n_periods"]
    vals = gen.make_params(model, case["params"][0], tame=0.5)
    params = lk.shuffled(vals, case["params"][0])
    kwargs = dict(model_dict=gen.build_model(model), params=params, data=df,
                  period=period, n_points=case["n_points"])
    if period >= T - 1:
        rejects("period without transition", ValueError, get_transition_plots, **kwargs)
        return info(False, ["rejected"])
    want, raw = lk.ref_contribs(model, vals, df)
    if not lk.finite(want) or np.abs(want).max() > 1e6:
        return info(False, ["not-finite"])
    agg = aggregated(raw, gen.updates_of(model), T)
    if period not in agg:
        return info(False, ["period without measurements"])
    ref = Ref(model, vals)
    inputs = np.zeros((n, len(lab["all"])))
    for j, f in enumerate(lab["latent"]):
        sc, const = ref.scale_const(period, f)
        inputs[:, j] = agg[period][:, j] * sc + const
    for j, f in enumerate(lab["observed"]):
        rows = df[df.index.get_level_values(1) == period]
        inputs[:, len(lab["latent"]) + j] = rows[f].to_numpy()
    lower = {f: inputs[:, j].min() for j, f in enumerate(lab["all"])}
    upper = {f: inputs[:, j].max() for j, f in enumerate(lab["all"])}
    if case["ranges"] != "default":
        rng = np.random.default_rng(case["params"][0])
        ranges = {}
        which = lab["latent"] if case["ranges"] == "latent" else lab["all"]
        for f in which:
            lo = rng.uniform(-2, 0, size=T)
            up = lo + rng.uniform(0.1, 3, size=T)
            ranges[f] = pd.DataFrame({"minimum": lo, "maximum": up},
                                     index=pd.Index(range(T), name="period"))
            lower[f], upper[f] = lo[period], up[period]
        kwargs["state_ranges"] = ranges
    quant = case["quantiles"]
    if quant != "default":
        kwargs["quantiles_of_other_factors"] = (
            tuple(quant) if isinstance(quant, list) and case["tuple"] else quant)
    else:
        quant = [0.25, 0.5, 0.75]
    if not isinstance(quant, list) and quant is not None:
        quant = [quant]
    n_draws = None
    if quant is None and case["draws"] != "default":
        n_draws = {"all": n, "one": 1, "few": 2}[case["draws"]]
        kwargs["n_draws"] = n_draws
    if case["layout"]:
        kwargs["layout_kwargs"] = dict(case["layout"])
    plots = call("get_transition_plots", get_transition_plots, **kwargs)

    pairs = {(i, o) for i in lab["all"] for o in lab["latent"]}
    check(set(plots) == pairs, "pairs of factors", got=sorted(plots), want=sorted(pairs))
    tol = dict(rtol=1e-5, atol=1e-5)
    varying = False
    for (fin, fout), fig in plots.items():
        j = lab["all"].index(fin)
        what = f"line of input {fin}, output {fout}, period {period}"
        check(fig.layout.xaxis.title.text == fin, "x title", pair=(fin, fout),
              got=fig.layout.xaxis.title.text)
        check(fig.layout.yaxis.title.text == fout, "y title", pair=(fin, fout),
              got=fig.layout.yaxis.title.text)
        if case["layout"]:
            if "width" in case["layout"]:
                check(fig.layout.width == 444, "layout_kwargs ignored")
            else:
                check(fig.layout.title.text == "T" and fig.layout.showlegend is False,
                      "layout_kwargs ignored")
        grid = np.linspace(lower[fin], upper[fin], case["n_points"])
        if quant is not None:
            check(len(fig.data) == len(quant), f"{what}: number of lines",
                  got=len(fig.data))
            for pos, q in enumerate(quant):
                tr = fig.data[pos]
                if len(quant) > 1:
                    named = [t for t in fig.data if float(t.name) == q]
                    check(len(named) == 1, f"{what}: no line for quantile {q}",
                          names=[t.name for t in fig.data])
                    tr = named[0]
                x = np.tile(np.quantile(inputs, q, axis=0), (len(grid), 1))
                x[:, j] = grid
                close(f"{what}: grid", tr.x, grid, **tol)
                y = expected_line(model, vals, period, fout, x)
                close(f"{what}: values at quantile {q}", tr.y, y, **tol)
                varying |= bool(np.ptp(y) > 1e-3)
            continue
        check(len(fig.data) == 1, f"{what}: number of lines", got=len(fig.data))
        tr = fig.data[0]
        if np.ptp(grid) < 1e-7 * (1 + np.abs(grid).max()) and len(tr.x):
            # all points of the grid are the same: they may be shown once
            grid = grid[:1].repeat(len(tr.x))
        close(f"{what}: grid", tr.x, grid, **tol)
        curves = []
        for i in range(n):
            x = np.tile(inputs[i], (len(grid), 1))
            x[:, j] = grid
            curves.append(expected_line(model, vals, period, fout, x))
        curves = np.array(curves)
        got = np.asarray(tr.y, dtype=float)
        if n_draws == n:
            close(f"{what}: average", got, curves.mean(axis=0), **tol)
        elif n_draws == 1:
            if not any(np.allclose(got, c, **tol) for c in curves):
                fail(f"{what}: not the curve of an individual", got=got, curves=curves)
        else:
            slack = 1e-5 * (1 + np.abs(curves).max())
            ok = (got >= curves.min(axis=0) - slack) & (got <= curves.max(axis=0) + slack)
            check(got.shape == grid.shape and ok.all(), f"{what}: outside of the curves",
                  got=got, lower=curves.min(axis=0), upper=curves.max(axis=0))
        varying |= bool(np.ptp(got) > 1e-3)
    return info(len(lab["all"]) > 1 and varying, lk.features(model, df) + [
        f"quantiles:{'average' if quant is None else len(quant)}",
        f"ranges:{case['ranges']}", f"period:{period}"])


PROPS = [Prop("lines", cases, run, quick=88, thorough=5000)]
