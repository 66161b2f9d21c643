"""C13: model specifications are validated."""
import copy

from hypothesis import strategies as st

from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import fail
from vlib.core import info
from vlib.core import quiet

RULE = (
    "valid: generated specifications (defaults left out or spelled out, names of all "
    "kinds, 1-5 periods) must be processed into the dimensions, labels, update table, "
    "anchoring, normalizations, options and parameter names that an independent reading "
    "of the documentation gives, the same when called twice, input untouched. faults: "
    "1-3 faults from 24 kinds (and harmless near-faults) are injected; a rule oracle "
    "decides on the final specification whether it is invalid and which variables must "
    "be named. Non-trivial: valid with more than one section, or at least one fault."
)
ASSUMPTIONS = [
    "a message counts as naming a variable if it contains its name",
    "compound faults may be rejected with any exception, single ones with ValueError",
]


# ---------------------------------------------------------------- valid
@st.composite
def valid_cases(draw):
    model = draw(gen.models(max_factors=4, min_periods=1, max_periods=5, custom=20, big=8,
                            clipping=True))
    return {"model": model, "int_names": draw(st.integers(0, 9)) == 0}


def int_names(model):
    """Use integers as names of measurements."""
    model = copy.deepcopy(model)
    names = []
    for f in model["factors"].values():
        for ms in f["measurements"]:
            names += [m for m in ms if m not in names]
    new = {m: 100 + i for i, m in enumerate(names)}
    for f in model["factors"].values():
        f["measurements"] = [[new[m] for m in ms] for ms in f["measurements"]]
        for kind, lst in f.get("normalizations", {}).items():
            f["normalizations"][kind] = [
                {new[m]: v for m, v in d.items()} for d in lst]
    return model


def expected(model):
    lab = gen.labels_of(model)
    T = lab["n_periods"]
    anch = {
        "anchoring": "anchoring" in model,
        "outcomes": {},
        "free_controls": False,
        "free_constant": False,
        "free_loadings": False,
        "ignore_constant_when_anchoring": False,
        **model.get("anchoring", {}),
    }
    opts = {
        "sigma_points_scale": 2,
        "robust_bounds": True,
        "bounds_distance": 1e-3,
        "clipping_lower_bound": -1e250,
        "clipping_upper_bound": None,
        "clipping_lower_hardness": 1,
        "clipping_upper_hardness": 1,
        **model.get("estimation_options", {}),
    }
    if not opts["robust_bounds"]:
        opts["bounds_distance"] = 0
    norms = {}
    for f, d in model["factors"].items():
        norms[f] = {}
        for kind in ["loadings", "intercepts"]:
            lst = list(d.get("normalizations", {}).get(kind, []))
            norms[f][kind] = lst + [{}] * (T - len(lst))
    stagemap = model.get("stagemap", list(range(T - 1)))
    return {
        "dimensions": {
            "n_latent_factors": len(lab["latent"]),
            "n_observed_factors": len(lab["observed"]),
            "n_all_factors": len(lab["all"]),
            "n_periods": T,
            "n_controls": len(lab["controls"]),
            "n_mixtures": lab["n_mixtures"],
        },
        "labels": {
            "latent_factors": lab["latent"],
            "observed_factors": lab["observed"],
            "all_factors": lab["all"],
            "controls": lab["controls"],
            "periods": list(range(T)),
            "stagemap": stagemap,
            "stages": sorted(set(stagemap)),
            "transition_names": [
                f["transition_function"]["custom"]["name"]
                if isinstance(f["transition_function"], dict)
                else f["transition_function"]
                for f in model["factors"].values()
            ],
        },
        "anchoring": anch,
        "anchored": [f for f in lab["latent"] if f in anch["outcomes"]],
        "estimation_options": opts,
        "normalizations": norms,
        "param_names": {
            f: gen.tf_param_names(d["transition_function"], lab["all"])
            for f, d in model["factors"].items()
        },
        "updates": gen.updates_of(model),
    }


def same_function_name(model, fac, have, want):
    """The name itself; names of built-in functions may be marked in custom ones."""
    custom = isinstance(model["factors"][fac]["transition_function"], dict)
    return have == want or (custom and want in gen.BUILTIN and want in have)


def run_valid(case):
    from skillmodels.process_model import get_dimensions
    from skillmodels.process_model import process_model

    model = int_names(case["model"]) if case["int_names"] else case["model"]
    built = gen.build_model(model)
    before = copy.deepcopy(built)
    want = expected(model)
    check(call("get_dimensions", get_dimensions, built) == want["dimensions"],
          "get_dimensions")
    for rep in range(2):
        got = call("process_model", process_model, built)
        check(built == before, "process_model modified the specification")
        for part in ["dimensions", "labels", "anchoring", "estimation_options"]:
            for key, val in want[part].items():
                if key not in got[part]:
                    fail(f"{part}: no entry {key}")
                have = got[part][key]
                if isinstance(val, list):
                    have = list(have)
                if key == "transition_names" and len(have) == len(val):
                    have = [
                        v if same_function_name(model, f, h, v) else h
                        for f, h, v in zip(want["labels"]["latent_factors"], have, val)
                    ]
                check(have == val and (isinstance(have, bool) == isinstance(val, bool)),
                      f"{part}[{key!r}]", got=have, want=val, rep=rep)
        check(sorted(got["anchoring"]["factors"]) == sorted(want["anchored"]),
              "anchored factors", got=got["anchoring"]["factors"],
              want=want["anchored"])
        norms = {f: {k: list(v) for k, v in d.items()}
                 for f, d in got["normalizations"].items()}
        check(norms == want["normalizations"], "normalizations", got=norms,
              want=want["normalizations"])
        names = {f: list(v) for f, v in got["transition_info"]["param_names"].items()}
        check(names == want["param_names"], "names of transition parameters",
              got=names, want=want["param_names"])
        fnames = dict(got["transition_info"]["function_names"])
        check(list(fnames) == want["labels"]["latent_factors"], "function names",
              got=fnames)
        for f, name in zip(fnames, want["labels"]["transition_names"]):
            check(same_function_name(model, f, fnames[f], name), "function names",
                  got=fnames)
        ui = got["update_info"]
        have = []
        for (t, m), row in zip(ui.index, ui.to_dict("records")):
            facs = [f for f in want["labels"]["latent_factors"] if row[f]]
            have.append((t, m, facs, row["purpose"]))
        exp = [(t, m, [f for f in want["labels"]["latent_factors"] if f in facs], p)
               for t, m, facs, p in want["updates"]]
        check(have == exp, "update_info", got=have, want=exp)
        check(list(ui.columns)
              == want["labels"]["latent_factors"] + ["purpose"], "columns of update_info",
              got=list(ui.columns))
    return info(len(model) > 1, lk.features(model) + (["int"] * case["int_names"]))


# ---------------------------------------------------------------- faults
BOOLS = ["free_controls", "free_constant", "free_loadings",
         "ignore_constant_when_anchoring"]
NONBOOL = [1, 0, "True", None, [], {}]
BADNAME = [1.5, None, ["x"], {"a": 1}]


@st.composite
def fault_cases(draw):
    model = draw(gen.models(max_factors=3, min_periods=1,
                            max_periods=draw(st.sampled_from([5, 5, 5, 8])), custom=10,
                            stages=draw(st.booleans())))
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    faults = []
    facs = list(model["factors"])
    for _ in range(n):
        kind = draw(st.sampled_from([
            "sm_length", "sm_length", "sm_set", "sm_set", "sm_one", "sm_one",
            "norm_absent", "norm_absent",
            "norm_absent", "norm_zero", "norm_zero", "norm_shape", "norm_shape",
            "meas_shape", "meas_name", "anch_bool", "anch_bool", "anch_outcomes",
            "anch_var", "anch_unknown", "tf_unknown", "tf_missing", "tf_type",
            "dup_label", "anch_clash", "anch_clash", "harmless"]))
        faults.append({
            "kind": kind,
            "factor": draw(st.sampled_from(facs)),
            "period": draw(st.integers(0, 4)),
            "type": draw(st.sampled_from(["loadings", "intercepts"])),
            "num": draw(st.integers(-2, 2)),
            "list": draw(st.lists(st.integers(-1, 3), max_size=5)),
            "option": draw(st.sampled_from(BOOLS)),
            "bad": draw(st.sampled_from(NONBOOL)),
            "badname": draw(st.sampled_from(BADNAME)),
            "shape": draw(st.integers(0, 3)),
        })
    return {"model": model, "faults": faults}


def norm_dict(model, fac, kind, t):
    lst = model["factors"][fac].setdefault("normalizations", {}).setdefault(kind, [])
    if not isinstance(lst, list):
        return {}
    while len(lst) <= t:
        lst.append({})
    return lst[t] if isinstance(lst[t], dict) else {}


def own_measurements(model, fac, t):
    ms = model["factors"][fac]["measurements"]
    if not isinstance(ms, list) or t >= len(ms) or not isinstance(ms[t], list):
        return []
    return [m for m in ms[t] if isinstance(m, str)]


def all_names(model):
    out = []
    for f in model["factors"]:
        for t in range(6):
            out += own_measurements(model, f, t)
    return sorted(set(out))


def inject(model, fault):
    """Apply one fault; returns False if it does not apply to this model."""
    kind, fac = fault["kind"], fault["factor"]
    T = gen.labels_of(model)["n_periods"]
    spec = model["factors"][fac]
    t = fault["period"] % T
    if isinstance(spec.get("measurements"), list):
        t = fault["period"] % max(1, len(spec["measurements"]))
    if kind == "sm_length":
        base = model.get("stagemap", list(range(T - 1)))
        if fault["num"] < 0:
            model["stagemap"] = base[: fault["num"]]
        else:
            last = base[-1] if base else 0
            model["stagemap"] = base + [last] * fault["num"]
    elif kind == "sm_set":
        lst = (fault["list"] + list(range(T)))[: T - 1]
        model["stagemap"] = lst
    elif kind == "sm_one":
        # one entry of an otherwise valid stagemap is replaced by another stage, which
        # might be an entry of the last periods
        base = list(model.get("stagemap", range(T - 1)))
        if base:
            pos = -1 - fault["period"] % min(2, len(base))
            base[pos] = sorted(set(base))[fault["num"] % len(set(base))]
            model["stagemap"] = base
    elif kind == "norm_absent":
        # a measurement of another factor or period, or a name that does not exist
        pool = all_names(model) + ["absent", f"{fac}_zz"]
        var = pool[(fault["num"] + fault["shape"] * 7) % len(pool)]
        norm_dict(model, fac, fault["type"], t)[var] = 1
    elif kind == "norm_zero":
        own = own_measurements(model, fac, t)
        if not own:
            return
        norm_dict(model, fac, "loadings", t)[own[fault["num"] % len(own)]] = (
            0 if fault["shape"] % 2 else 0.0)
    elif kind == "norm_shape":
        norm_dict(model, fac, fault["type"], t)
        lst = spec["normalizations"][fault["type"]]
        if not isinstance(lst, list):
            return
        spec["normalizations"][fault["type"]] = [
            {i: d for i, d in enumerate(lst)}, [list(d or []) for d in lst], {},
            lst[:-1] + [None]][fault["shape"]]
    elif kind == "meas_shape":
        ms = spec["measurements"]
        if not isinstance(ms, list):
            return
        spec["measurements"] = [
            {i: m for i, m in enumerate(ms)},
            ["".join(map(str, m or [])) for m in ms],
            [{str(x): 1 for x in m or []} for m in ms],
            ms[:-1] + [None]][fault["shape"]]
    elif kind == "meas_name":
        ms = spec["measurements"]
        if not isinstance(ms, list) or not isinstance(ms[t], list):
            return
        ms[t].append(fault["badname"])
    elif kind == "anch_bool":
        model.setdefault("anchoring", {"outcomes": {fac: "Q1"}})
        model["anchoring"][fault["option"]] = fault["bad"]
    elif kind == "anch_outcomes":
        model.setdefault("anchoring", {})["outcomes"] = [[fac], "Q1", [], ""][
            fault["shape"]]
    elif kind == "anch_var":
        outc = model.setdefault("anchoring", {"outcomes": {}})["outcomes"]
        if isinstance(outc, dict):
            outc[fac] = fault["badname"]
    elif kind == "anch_unknown":
        outc = model.setdefault("anchoring", {"outcomes": {}})["outcomes"]
        if isinstance(outc, dict):
            obs = model.get("observed_factors", [])
            name = (obs + ["unknown", fac + "_x"])[fault["shape"] % (len(obs) + 2)]
            outc[name] = "Q1"
    elif kind == "tf_unknown":
        spec["transition_function"] = ["lin", "Linear", "", "cobb_douglas"][
            fault["shape"]]
    elif kind == "tf_missing":
        spec.pop("transition_function", None)
    elif kind == "tf_type":
        spec["transition_function"] = [None, 3, ["linear"], {}][fault["shape"]]
    elif kind == "dup_label":
        # the same name twice, or one name for a latent and an observed factor; it is
        # harmless to use a name for a factor and a control
        key = ["controls", "observed_factors"][fault["shape"] % 2]
        lst = model.setdefault(key, [])
        new = [lst[0] if lst else "x", fac, "constant", "x"][fault["num"] % 4]
        lst.insert(fault["period"] % (len(lst) + 1), new)
    elif kind == "anch_clash":
        outc = model.setdefault("anchoring", {"outcomes": {}}).setdefault("outcomes", {})
        if not isinstance(outc, dict):
            return
        own = own_measurements(model, fac, t)
        others = [f for f in model["factors"] if f.endswith(f"_{fac}")]
        if fault["num"] in (1, 2):
            # the name of a control, of an observed factor or of another outcome
            outc[fac] = "Q1"
            where = fault["shape"] + 4 * (fault["num"] - 1)
            if where < 3:
                key = ["controls", "observed_factors", "controls"][where]
                model.setdefault(key, []).append(f"Q1_{fac}")
            elif where < 6:
                for f in list(model["factors"])[:2]:
                    if f != fac:
                        outc[f] = f"Q1_{fac}"
            else:
                # no clash: not the name of the equation of this factor
                model.setdefault("controls", []).append(f"Q1_{fac}_")
        elif fault["shape"] == 3 and others:
            # two anchoring equations of the same name
            outc[others[0]] = "Q"
            outc[fac] = "Q_" + others[0][: -len(fac) - 1]
        elif own:
            outc[fac] = "Q1"
            ms = model["factors"][fac]["measurements"]
            # Q1 itself may be a measurement
            ms[t][ms[t].index(own[0])] = ["Q1", f"Q1_{fac}"][fault["shape"] > 0]
            if fault["shape"] > 1:
                ms[t].append(own[0])
    elif kind == "harmless":
        own = own_measurements(model, fac, t)
        if own:
            norm_dict(model, fac, "intercepts", t)[own[0]] = 0


def problems(model):
    """Rule oracle: [(rule, names that must be mentioned)]."""
    out = []
    T = max(len(f["measurements"]) for f in model["factors"].values())
    sm = model.get("stagemap", list(range(T - 1)))
    if len(sm) != T - 1:
        out.append(("sm_length", []))
    if sm and (sorted(set(sm)) != list(range(len(set(sm))))):
        out.append(("sm_values", []))
    if any(b - a not in (0, 1) for a, b in zip(sm, sm[1:])):
        out.append(("sm_steps", []))
    anch = model.get("anchoring", {})
    for o in BOOLS:
        if not isinstance(anch.get(o, False), bool):
            out.append(("anch_bool", []))
    outcomes = anch.get("outcomes", {})
    if not isinstance(outcomes, dict):
        out.append(("anch_outcomes", []))
    else:
        for f, v in outcomes.items():
            if not isinstance(v, (str, int)):
                out.append(("anch_var", []))
            if f not in model["factors"]:
                out.append(("anch_unknown", [f]))
    for names in [list(model["factors"]) + list(model.get("observed_factors", [])),
                  ["constant"] + list(model.get("controls", []))]:
        for x in sorted(set(names)):
            if names.count(x) > 1:
                out.append(("dup_label", [x]))
    if isinstance(outcomes, dict):
        taken = [*model.get("controls", []), *model.get("observed_factors", []),
                 *outcomes.values()]
        taken += [x for spec in model["factors"].values()
                 if isinstance(spec["measurements"], list)
                 for ms in spec["measurements"] if isinstance(ms, list) for x in ms]
        for f, v in outcomes.items():
            if f"{v}_{f}" in taken:
                out.append(("anch_clash", [f"{v}_{f}"]))
            taken.append(f"{v}_{f}")
    for f, spec in model["factors"].items():
        ms = spec["measurements"]
        ok = isinstance(ms, list) and all(isinstance(m, list) for m in ms)
        if not ok:
            out.append(("meas_shape", [f]))
        else:
            for m in ms:
                for x in m:
                    if not isinstance(x, (str, int)):
                        out.append(("meas_name", [f, str(x)]))
        for kind, lst in spec.get("normalizations", {}).items():
            if not isinstance(lst, list) or not all(isinstance(d, dict) for d in lst):
                out.append(("norm_shape", [f, kind]))
                continue
            for t, d in enumerate(lst):
                for var, val in d.items():
                    have = ms[t] if ok and t < len(ms) else []
                    if var not in have:
                        out.append(("norm_absent", [f, str(var)]))
                    if kind == "loadings" and val == 0:
                        out.append(("norm_zero", [f, str(var)]))
        tf = spec.get("transition_function")
        if not (isinstance(tf, str) and tf in gen.BUILTIN) and not (
                isinstance(tf, dict) and "custom" in tf):
            out.append(("tf", []))
    return out


def run_faults(case):
    from skillmodels.process_model import process_model

    valid = case["model"]
    model = copy.deepcopy(valid)
    for fault in case["faults"]:
        inject(model, fault)
    probs = problems(model)
    built = copy.deepcopy(model)
    facs = gen.labels_of(valid)["all"]
    for f in built["factors"].values():
        tf = f.get("transition_function")
        if isinstance(tf, dict) and "custom" in tf:
            f["transition_function"] = gen.build_custom(tf, facs)
    before = copy.deepcopy(built)
    rules = sorted({r for r, _ in probs})
    if not probs:
        with quiet():
            call("process_model", process_model, built)
        check(built == before, "process_model modified the specification")
        return info(False, ["accepted"])
    data = gen.make_data(valid, 4, 3)
    single = len(rules) == 1 and rules[0] != "tf"
    for what, func in [
        ("process_model", lambda: process_model(built)),
        ("get_maximization_inputs",
         lambda: lk.repo().get_maximization_inputs(built, data)),
    ]:
        try:
            with quiet():
                func()
        except Exception as e:  # noqa: BLE001
            err = e
        else:
            fail(f"{what} accepted an invalid specification", rules=probs)
        check(built == before, f"{what} modified the specification")
        if single and not index_error_allowed(model, rules[0]):
            check(isinstance(err, ValueError), f"{what}: not reported as ValueError",
                  rules=probs, got=repr(err))
            for rule, names in probs:
                for n in names:
                    check(n in str(err), f"{what}: report does not name {n!r}",
                          rule=rule, got=str(err))
    return info(True, rules + ([] if single else ["compound"]))


def index_error_allowed(model, rule):
    """Faults that are noticed while dimensions and labels are built, or where a
    normalization lies beyond the list of measurements."""
    if rule in ("meas_shape", "anch_unknown", "anch_outcomes"):
        return rule != "anch_unknown"
    if rule == "norm_absent":
        for spec in model["factors"].values():
            for lst in spec.get("normalizations", {}).values():
                if len(lst) > len(spec["measurements"]) and any(
                        lst[len(spec["measurements"]):]):
                    return True
    return False


PROPS = [
    Prop("valid", valid_cases, run_valid, quick=640, thorough=20000,
         rule="more than one section"),
    Prop("faults", fault_cases, run_faults, quick=1200, thorough=40000,
         rule="at least one rule broken"),
]
