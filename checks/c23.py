"""C23: combined figures place every plot in its own cell."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import info

RULE = (
    "Dictionaries of figures (1-4 factors, 0-3 lines each, missing pairs for "
    "transitions, with or without surfaces for distributions), random row, column and "
    "factor orders (None, one name, permuted subsets), factor mappings for all, some or "
    "no factors, subplot, layout, legend and title options. The traces found in each "
    "cell by row and column must be those of the figure of the pair; figures and option "
    "dictionaries stay as they were and a second call gives an equal figure. "
    "Non-trivial: at least two cells with traces."
)
ASSUMPTIONS = ["columns are input factors and rows output factors, as in the axis titles"]
NAMES = ["fac1", "fac2", "skill", "non-cog", "it's"]


def common_options():
    return st.fixed_dictionaries({}, optional={
        "sharex": st.booleans(),
        "sharey": st.booleans(),
        "showlegend": st.booleans(),
        "layout_kwargs": st.sampled_from([{"width": 777}, {"title": {"text": "L"}}, {}]),
        "legend_kwargs": st.sampled_from([{"orientation": "h"}, {"title": {"text": "leg"}}]),
        "title_kwargs": st.sampled_from([{"text": "T"}]),
        "make_subplot_kwargs": st.sampled_from([{"horizontal_spacing": 0.05}, {}]),
    })


@st.composite
def orders(draw, names):
    if draw(st.booleans()):
        return None
    if draw(st.integers(0, 4)) == 0:
        return draw(st.sampled_from(names))
    return draw(st.permutations(names))[: draw(st.integers(1, len(names)))]


@st.composite
def mappings(draw, names):
    if draw(st.booleans()):
        return None
    return {n: f"<{n}> long" for n in names if draw(st.booleans())}


@st.composite
def trans_cases(draw):
    inputs = draw(st.permutations(NAMES))[: draw(st.sampled_from([2, 3, 4, 1]))]
    outputs = draw(st.permutations(inputs))[: draw(st.integers(1, len(inputs)))]
    missing = []
    if draw(st.booleans()):
        missing = [[i, o] for i in inputs for o in outputs if draw(st.integers(0, 3)) == 0]
    return {
        "inputs": inputs, "outputs": outputs, "missing": missing,
        "n_lines": draw(st.integers(1, 3)), "seed": draw(gen.SEED),
        "column_order": draw(orders(inputs)), "row_order": draw(orders(outputs)),
        "mapping": draw(mappings(inputs)), "options": draw(common_options()),
    }


def same(a, b):
    return a.to_plotly_json() == b.to_plotly_json() if a is not b else True


def jsonable(fig):
    return fig.to_json()


def trace_key(t):
    out = [t.type, t.name]
    for k in ["x", "y", "z"]:
        v = t[k] if k in t else None
        out.append(None if v is None else np.asarray(v, dtype=float).tolist())
    return out


def check_cell(fig, row, col, wanted, what):
    got = [trace_key(t) for t in fig.select_traces(row=row + 1, col=col + 1)]
    want = [trace_key(t) for t in wanted]
    check(got == want, f"{what}: wrong traces in row {row}, column {col}",
          n_got=len(got), n_want=len(want))


def check_options(fig, opt):
    lay = opt.get("layout_kwargs", {})
    if "width" in lay:
        check(fig.layout.width == 777, "layout_kwargs ignored")
    title = lay.get("title", opt.get("title_kwargs"))
    if title:
        check(fig.layout.title.text == title["text"], "title", got=fig.layout.title.text)
    leg = opt.get("legend_kwargs", {})
    if "orientation" in leg:
        check(fig.layout.legend.orientation == "h", "legend_kwargs ignored")
    if "title" in leg:
        check(fig.layout.legend.title.text == "leg", "legend_kwargs ignored")
    if "showlegend" in opt:
        check(fig.layout.showlegend == opt["showlegend"], "showlegend ignored")


def twice(what, func, plots, kwargs):
    """Call twice; inputs must stay equal and results must be equal."""
    before = [{k: jsonable(v) for k, v in p.items()} if p is not None else None
              for p in plots.values()]
    kw_before = copy.deepcopy(kwargs)
    first = call(what, func, **plots, **kwargs)
    check(kwargs == kw_before, f"{what}: options were modified", got=kwargs, want=kw_before)
    second = call(what, func, **plots, **kwargs)
    after = [{k: jsonable(v) for k, v in p.items()} if p is not None else None
             for p in plots.values()]
    check(before == after, f"{what}: individual plots were modified")
    check(jsonable(first) == jsonable(second), f"{what}: second call differs from first")
    return first


def run_trans(case):
    import plotly.graph_objects as go
    from skillmodels.visualize_transition_equations import combine_transition_plots

    rng = np.random.default_rng(case["seed"])
    plots = {}
    for o in case["outputs"]:
        for i in case["inputs"]:
            if [i, o] in case["missing"]:
                continue
            fig = go.Figure([go.Scatter(x=rng.normal(size=3), y=rng.normal(size=3),
                                        name=str(q)) for q in range(case["n_lines"])])
            fig.update_xaxes(title={"text": i})
            fig.update_yaxes(title={"text": o})
            plots[(i, o)] = fig
    cols, rows = case["column_order"], case["row_order"]
    seen_i = [i for i in dict.fromkeys(k[0] for k in plots)]
    seen_o = [o for o in dict.fromkeys(k[1] for k in plots)]
    if not plots and (cols is None or rows is None):
        return info(False, ["empty"])
    kwargs = dict(column_order=copy.copy(cols), row_order=copy.copy(rows),
                  factor_mapping=copy.copy(case["mapping"]), **copy.deepcopy(case["options"]))
    fig = twice("combine_transition_plots", combine_transition_plots,
                {"plots_dict": plots}, kwargs)
    cols = seen_i if cols is None else [cols] if isinstance(cols, str) else cols
    rows = seen_o if rows is None else [rows] if isinstance(rows, str) else rows
    names = {**{n: n for n in NAMES}, **(case["mapping"] or {})}
    total = 0
    filled = 0
    for r, o in enumerate(rows):
        for c, i in enumerate(cols):
            want = plots[(i, o)].data if (i, o) in plots else []
            check_cell(fig, r, c, want, "combined transition plots")
            total += len(want)
            filled += len(want) > 0
            sub = fig.get_subplot(r + 1, c + 1)
            check(sub.xaxis.title.text == names[i], "x title", got=sub.xaxis.title.text,
                  want=names[i])
            if c == 0:
                check(sub.yaxis.title.text == names[o], "y title",
                      got=sub.yaxis.title.text, want=names[o])
    check(len(fig.data) == total, "additional traces", got=len(fig.data), want=total)
    check_options(fig, case["options"])
    return info(filled > 1, [f"rows={len(rows)}", f"cols={len(cols)}",
                             f"missing={bool(case['missing'])}"])


@st.composite
def dist_cases(draw):
    facs = draw(st.permutations(NAMES))[: draw(st.sampled_from([2, 3, 4, 1]))]
    return {
        "factors": facs, "seed": draw(gen.SEED), "scenarios": draw(st.integers(1, 3)),
        "surfaces": draw(st.booleans()), "empty": draw(st.sampled_from([0, 0, 0.3, 1])),
        "order": draw(orders(facs)), "mapping": draw(mappings(facs)),
        "line_width": draw(st.sampled_from([None, 3.5])),
        "titles": draw(st.integers(0, 4)) == 0,
        "options": draw(common_options()),
    }


def run_dist(case):
    import plotly.graph_objects as go
    from skillmodels.visualize_factor_distributions import combine_distribution_plots

    rng = np.random.default_rng(case["seed"])
    facs = case["factors"]
    kde, cont, surf = {}, {}, {}
    for f in facs:
        kde[f] = go.Figure([go.Scatter(x=rng.normal(size=3), y=rng.normal(size=3),
                                       name=f"sc{s}", mode="lines")
                            for s in range(case["scenarios"])])
        kde[f].update_layout(xaxis_title=f, yaxis_title="Density")
    pairs = [(a, b) for a in facs for b in facs if a != b]
    for k in rng.permutation(len(pairs)):
        a, b = pairs[k]
        cont[a, b] = go.Figure([go.Contour(x=rng.normal(size=2), y=rng.normal(size=2),
                                           z=rng.normal(size=(2, 2)))
                                for s in range(case["scenarios"])])
        cont[a, b].update_xaxes(title={"text": "my x" if case["titles"] else a})
        cont[a, b].update_yaxes(title={"text": "my y" if case["titles"] else b})
        surf[a, b] = go.Figure(go.Surface(x=rng.normal(size=(2, 2)),
                                          y=rng.normal(size=(2, 2)),
                                          z=rng.normal(size=(2, 2))))
    for pair in pairs:
        if rng.uniform() < case["empty"]:
            surf[pair] = go.Figure()
    order = case["order"]
    kwargs = dict(factor_order=copy.copy(order), factor_mapping=copy.copy(case["mapping"]),
                  **copy.deepcopy(case["options"]))
    if case["line_width"]:
        kwargs["line_width"] = case["line_width"]
    plots = {"kde_plots": kde, "contour_plots": cont,
             "surface_plots": surf if case["surfaces"] else None}
    fig = twice("combine_distribution_plots", combine_distribution_plots, plots, kwargs)
    order = facs if order is None else [order] if isinstance(order, str) else order
    names = {**{n: n for n in facs}, **(case["mapping"] or {})}
    total = 0
    for r, row_fac in enumerate(order):
        for c, col_fac in enumerate(order):
            if r == c:
                want = kde[row_fac].data
            elif r > c:
                want = cont[col_fac, row_fac].data
            else:
                want = surf[col_fac, row_fac].data if case["surfaces"] else []
            check_cell(fig, r, c, want, "combined distribution plots")
            total += len(want)
            if r >= c and len(want):
                sub = fig.get_subplot(r + 1, c + 1)
                check(sub.xaxis.title.text == names[col_fac], "x title",
                      got=sub.xaxis.title.text, want=names[col_fac])
                y = "Density" if r == c else names[row_fac]
                check(sub.yaxis.title.text == y, "y title", got=sub.yaxis.title.text, want=y)
                width = case["line_width"] or 1.5
                for t in fig.select_traces(row=r + 1, col=c + 1):
                    check(t.line.width == width, "line width", got=t.line.width)
    check(len(fig.data) == total, "additional traces", got=len(fig.data), want=total)
    check_options(fig, case["options"])
    return info(len(order) > 1, [f"factors={len(order)}", f"surfaces={case['surfaces']}",
                                 f"scenarios={case['scenarios']}"])


PROPS = [
    Prop("transitions", trans_cases, run_trans, quick=500, thorough=10000),
    Prop("distributions", dist_cases, run_dist, quick=250, thorough=6000),
]
