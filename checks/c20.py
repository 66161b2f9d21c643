"""C20: heatmaps display the table they were given."""
import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import close
from vlib.core import info

RULE = (
    "Random symmetric tables of correlations (1-7 rows, undefined cells, rounding to "
    "0-4 digits, labels of measurements with period suffixes) with random options "
    "(triangle, diagonal, trimming, color limits, heatmap and layout dictionaries, "
    "axis tick options as tuple, list or dict). Values, labels and annotations of the "
    "figure are compared with a cell by cell reference. Non-trivial: at least two rows."
)
ASSUMPTIONS = ["annotations are compared as numbers, not as formatted text"]
LABELS = ["m1, 0", "m1, 1", "fac1", "a b", "é", "zz", "Q_1, 2"]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 7))
    opt = {}
    for key in ["show_diagonal", "show_upper_triangle", "trim_heatmap", "annotate",
                "show_color_bar"]:
        if draw(st.booleans()):
            opt[key] = draw(st.booleans())
    if draw(st.booleans()):
        opt["rounding"] = draw(st.integers(0, 4))
    for key, cand in [("zmax", [0.5, 1]), ("zmin", [-1, 0.0]), ("zmid", [0.1, 0.25])]:
        if draw(st.integers(0, 2)) == 0:
            opt[key] = draw(st.sampled_from(cand))
    if draw(st.integers(0, 2)) == 0:
        opt["colorscale"] = draw(st.sampled_from(["Viridis", "RdBu"]))
    if draw(st.integers(0, 2)) == 0:
        hk = {}
        for key, cand in [("zmax", [0.9]), ("zmin", [-0.7]), ("showscale", [False, True]),
                          ("colorscale", ["Cividis"]), ("opacity", [0.5])]:
            if draw(st.booleans()):
                hk[key] = draw(st.sampled_from(cand))
        opt["heatmap_kwargs"] = hk
    if draw(st.integers(0, 2)) == 0:
        lay = {}
        for key, cand in [("title", [{"text": "T"}]), ("width", [321]),
                          ("xaxis_tickangle", [33]), ("yaxis", [{"tickangle": 17}]),
                          ("xaxis_showgrid", [True]), ("annotations", [[]])]:
            if draw(st.booleans()):
                lay[key] = draw(st.sampled_from(cand))
        opt["layout_kwargs"] = lay
    for key, cand in [("axes_tick_fontsize", [9, 15]), ("axes_tick_label_angle", [30, 60]),
                      ("axes_tick_label_color", ["red", "blue"])]:
        form = draw(st.sampled_from(["default", "tuple", "list", "dict"]))
        x, y = draw(st.permutations(cand))
        if form == "dict":
            opt[key] = {"x": x, "y": y}
        elif form != "default":
            opt[key] = [x, y] if form == "list" else {"tuple": [x, y]}
    if draw(st.integers(0, 2)) == 0:
        opt["annotation_fontsize"] = 7
        opt["annotation_text_color"] = "green"
    return {"n": n, "seed": draw(gen.SEED), "undefined": draw(st.sampled_from([0, 0, 0.2, 0.9])),
            "labels": draw(st.permutations(LABELS))[:n], "options": opt,
            "exact": draw(st.booleans())}


def make_table(case):
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    arr = np.corrcoef(rng.normal(size=(n, 5))).reshape(n, n)
    arr = (arr + arr.T) / 2
    if case["exact"]:
        arr = arr.round(2)
    np.fill_diagonal(arr, 1.0)
    und = np.triu(rng.uniform(size=(n, n)) < case["undefined"])
    arr[und | und.T] = np.nan
    return pd.DataFrame(arr, index=case["labels"], columns=case["labels"])


def eq(a, b):
    return (np.isnan(a) and np.isnan(b)) or np.isclose(a, b, rtol=1e-12, atol=1e-12)


def run(case):
    from skillmodels.correlation_heatmap import plot_correlation_heatmap

    corr = make_table(case)
    opt = copy.deepcopy(case["options"])
    for key, v in opt.items():
        if isinstance(v, dict) and set(v) == {"tuple"}:
            opt[key] = tuple(v["tuple"])
    given = corr.copy(deep=True)
    given_opt = copy.deepcopy(opt)
    fig = call("plot_correlation_heatmap", plot_correlation_heatmap, given, **given_opt)
    check(given.equals(corr) and list(given.columns) == list(corr.columns),
          "the table was modified")
    check(given_opt == opt, "an option was modified", got=given_opt, want=opt)

    # reference of the shown cells
    n = case["n"]
    rounding = opt.get("rounding", 2)
    upper = opt.get("show_upper_triangle", True)
    diag = opt.get("show_diagonal", True)
    cells = {}
    for i in range(n):
        for j in range(n):
            show = i > j or (i == j and diag) or (i < j and upper)
            v = float(corr.iloc[i, j])
            cells[i, j] = np.round(v, rounding) if show else np.nan
    rows, cols = list(range(n)), list(range(n))
    if opt.get("trim_heatmap", False):
        rows = [i for i in rows if any(not np.isnan(cells[i, j]) for j in cols)]
        cols = [j for j in cols if any(not np.isnan(cells[i, j]) for i in rows)]
    check(len(fig.data) == 1 and fig.data[0].type == "heatmap", "not one heatmap")
    hm = fig.data[0]
    lab = case["labels"]
    check([str(x) for x in (hm.x if hm.x is not None else [])] == [lab[j] for j in cols],
          "column labels", got=hm.x, want=[lab[j] for j in cols])
    check([str(x) for x in (hm.y if hm.y is not None else [])] == [lab[i] for i in rows],
          "row labels", got=hm.y, want=[lab[i] for i in rows])
    z = np.array(hm.z, dtype=float).reshape(len(rows), len(cols))
    want = np.array([[cells[i, j] for j in cols] for i in rows]).reshape(len(rows), len(cols))
    close("cells", z, want, rtol=1e-9, atol=1e-9, equal_nan=True)

    # annotations
    hk = opt.get("heatmap_kwargs", {})
    lay = opt.get("layout_kwargs", {})
    notes = {}
    for a in fig.layout.annotations:
        if a.text:
            check((a.x, a.y) not in notes, "cell annotated twice", cell=(a.x, a.y))
            notes[a.x, a.y] = a.text
            if "annotation_fontsize" in opt:
                check(a.font.size == 7 and a.font.color == "green", "annotation font")
    shown = {(lab[j], lab[i]): cells[i, j] for i in rows for j in cols
             if not np.isnan(cells[i, j])}
    if "annotations" in lay or not opt.get("annotate", True):
        check(not notes, "annotations although they are switched off")
    else:
        check(set(notes) == set(shown), "annotated cells",
              got=sorted(notes), want=sorted(shown))
        for k, t in notes.items():
            check(abs(float(t) - shown[k]) < 1e-9, "annotation differs from cell", cell=k,
                  got=t, want=shown[k])

    # color limits: user dictionary, then argument, then default
    off = [abs(cells[i, j]) for i in rows for j in cols
           if i != j and not np.isnan(cells[i, j])]
    zmax = opt.get("zmax")
    zmax_known = zmax is not None or len(off) > 0
    if zmax is None and off:
        zmax = max(off)
    if "zmax" in hk or zmax_known:
        check(eq(hm.zmax, hk.get("zmax", zmax)), "zmax", got=hm.zmax, want=zmax)
    if "zmin" in hk:
        check(eq(hm.zmin, hk["zmin"]), "zmin", got=hm.zmin)
    elif opt.get("zmin") is not None:
        check(eq(hm.zmin, opt["zmin"]), "zmin", got=hm.zmin)
    elif zmax_known:
        check(eq(hm.zmin, -zmax), "zmin", got=hm.zmin, want=-zmax)
    check(eq(hm.zmid, opt.get("zmid", 0)), "zmid", got=hm.zmid)
    check(hm.showscale == hk.get("showscale", opt.get("show_color_bar", True)), "color bar")
    if "opacity" in hk:
        check(hm.opacity == 0.5, "heatmap_kwargs ignored")
    scale = hk.get("colorscale", opt.get("colorscale"))
    if scale:
        import plotly.graph_objects as go

        check(hm.colorscale == go.Heatmap(colorscale=scale).colorscale, "colorscale")

    # layout: user dictionary takes precedence over the arguments
    if "title" in lay:
        check(fig.layout.title.text == "T", "title")
    if "width" in lay:
        check(fig.layout.width == 321, "width")
    check(bool(fig.layout.xaxis.showgrid) == ("xaxis_showgrid" in lay), "showgrid")
    for k, ax in enumerate("xy"):
        axis = fig.layout[f"{ax}axis"]

        def wanted(name, default, k=k, ax=ax):
            v = opt.get(name, default)
            return v[ax] if isinstance(v, dict) else v[k]

        if ax == "y" and "yaxis" in lay:
            check(axis.tickangle == 17, "layout_kwargs ignored", got=axis.tickangle)
            continue
        angle = wanted("axes_tick_label_angle", (90, 0))
        if ax == "x" and "xaxis_tickangle" in lay:
            angle = 33
        check(axis.tickangle == angle, "tick angle", axis=ax, got=axis.tickangle, want=angle)
        check(axis.tickfont.size == wanted("axes_tick_fontsize", (12, 12)), "tick size")
        check(axis.tickfont.color == wanted("axes_tick_label_color", ("black", "black")),
              "tick color")
    return info(n > 1, [f"n={n}", f"upper={upper}", f"diag={diag}",
                        f"trim={opt.get('trim_heatmap', False)}",
                        f"undefined={bool(corr.isna().any().any())}"]
                + sorted(opt))


PROPS = [Prop("figure", cases, run, quick=3000, thorough=60000)]
