"""C28: the likelihood respects the symmetries of the model."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib import lk
from vlib.core import HarnessError
from vlib.core import Prop
from vlib.core import call
from vlib.core import close
from vlib.core import info

RULE = (
    "parameters: random model and data; relabelled mixture components and sign changes "
    "of the columns of covariance factors. reformulation: sequence of 1-6 random "
    "transformations of model, parameters and data (split components, reordered or "
    "renamed factors, measurements, controls, anchoring entries, observed factors, "
    "spelled out defaults, rescaled or shifted factors, measurements and controls, "
    "irrelevant controls and observed factors); contributions of each individual must "
    "agree up to the log Jacobian. Non-trivial: at least one applicable transformation "
    "that changes the formulation and finite contributions."
)
ASSUMPTIONS = ["relative tolerance 1e-6", "cases with non-finite or huge contributions "
               "of the original formulation are not compared"]

NEW_LATENT = ["alpha", "B2", "the skill", "x9", "sigma", "a_b"]
NEW_OBSERVED = ["w1", "W", "home env"]


class State:
    def __init__(self, model, vals, df):
        self.model = copy.deepcopy(model)
        self.vals = dict(vals)
        self.df = df.copy()
        self.shift = {i: 0.0 for i in df.index.get_level_values(0).unique()}

    @property
    def lab(self):
        return gen.labels_of(self.model)

    def tfs(self):
        return {f: v["transition_function"] for f, v in self.model["factors"].items()}

    def anchored(self):
        return self.model.get("anchoring", {}).get("outcomes", {})

    def all_affine(self):
        return all(tf in ("linear", "constant") for tf in self.tfs().values()
                   if not isinstance(tf, dict)) and not any(
                       isinstance(tf, dict) for tf in self.tfs().values())

    def finish(self):
        want = gen.index_tuples(self.model)
        if set(want) != set(self.vals) or len(want) != len(self.vals):
            raise HarnessError(
                f"parameters do not fit: {sorted(set(want) ^ set(self.vals))[:5]}")
        return {k: self.vals[k] for k in want}


def set_option(model, key, value):
    model.setdefault("estimation_options", {})[key] = value


# each transformation returns True if it was applicable
def permute_mixtures(s, rng):
    K = s.lab["n_mixtures"]
    if K == 1:
        return False
    perm = rng.permutation(K)
    out = {}
    for (cat, t, a, b), v in s.vals.items():
        if cat in ("initial_states", "mixture_weights", "initial_cholcovs"):
            a = f"mixture_{perm[int(a.split('_')[1])]}"
        out[cat, t, a, b] = v
    s.vals = out
    return bool((perm != np.arange(K)).any())


def flip_signs(s, rng):
    lat = s.lab["latent"]
    for k in range(s.lab["n_mixtures"]):
        sign = rng.choice([-1.0, 1.0], size=len(lat))
        for i, a in enumerate(lat):
            for j, b in enumerate(lat[: i + 1]):
                s.vals["initial_cholcovs", 0, f"mixture_{k}", f"{a}-{b}"] *= sign[j]
    return True


def split_component(s, rng):
    K = s.lab["n_mixtures"]
    if K > 3:
        return False
    k = int(rng.integers(K))
    share = rng.uniform(0.1, 0.9)
    old, new = f"mixture_{k}", f"mixture_{K}"
    for (cat, t, a, b), v in list(s.vals.items()):
        if cat in ("initial_states", "initial_cholcovs") and a == old:
            s.vals[cat, t, new, b] = v
        if cat == "mixture_weights" and a == old:
            # the weight of a single component is not used
            total = 1.0 if K == 1 else v
            s.vals[cat, t, old, b] = share * total
            s.vals[cat, t, new, b] = (1 - share) * total
    set_option(s.model, "n_mixtures", K + 1)
    return True


def reorder_measurements(s, rng):
    done = False
    for f in s.model["factors"].values():
        for ms in f["measurements"]:
            perm = rng.permutation(len(ms))
            done |= bool((perm != np.arange(len(ms))).any())
            ms[:] = [ms[i] for i in perm]
    return done


def reorder_controls(s, rng):
    ctrls = s.model.get("controls", [])
    if len(ctrls) < 2:
        return False
    s.model["controls"] = ctrls[::-1] if len(ctrls) == 2 else \
        [ctrls[i] for i in rng.permutation(len(ctrls))]
    return True


def reorder_anchoring(s, rng):
    outs = s.anchored()
    if len(outs) < 2:
        return False
    keys = list(outs)[::-1] if len(outs) == 2 else \
        [list(outs)[i] for i in rng.permutation(len(outs))]
    s.model["anchoring"]["outcomes"] = {k: outs[k] for k in keys}
    return True


def fix_interactions(s, order):
    """Names of interactions follow the order of the factors."""
    out = {}
    for (cat, t, a, b), v in s.vals.items():
        if cat == "transition" and " * " in b and not isinstance(s.tfs()[a], dict):
            x, y = b.split(" * ")
            if order.index(x) > order.index(y):
                b = f"{y} * {x}"
        out[cat, t, a, b] = v
    s.vals = out


def reorder_observed(s, rng):
    obs = s.model.get("observed_factors", [])
    if len(obs) < 2:
        return False
    s.model["observed_factors"] = obs[::-1] if len(obs) == 2 else \
        [obs[i] for i in rng.permutation(len(obs))]
    fix_interactions(s, s.lab["all"])
    return True


def reorder_factors(s, rng):
    lat = s.lab["latent"]
    if len(lat) < 2 or not s.all_affine():
        return False
    perm = rng.permutation(len(lat))
    if (perm == np.arange(len(lat))).all():
        perm = perm[::-1]
    new = [lat[i] for i in perm]
    s.model["factors"] = {f: s.model["factors"][f] for f in new}
    for k in range(s.lab["n_mixtures"]):
        L = np.zeros((len(lat), len(lat)))
        key = ("initial_cholcovs", 0, f"mixture_{k}")
        for i, a in enumerate(lat):
            for j, b in enumerate(lat[: i + 1]):
                L[i, j] = s.vals.pop((*key, f"{a}-{b}"))
        M = L[perm]
        # triangular factor of M M' by QR, keeps the precision
        R = np.linalg.qr(M.T)[1].T
        for i, a in enumerate(new):
            for j, b in enumerate(new[: i + 1]):
                s.vals[*key, f"{a}-{b}"] = float(R[i, j])
    return True


def rename_factors(s, rng):
    lab = s.lab
    free = [n for n in NEW_LATENT if n not in lab["all"]]
    freeo = [n for n in NEW_OBSERVED if n not in lab["all"]]
    mapping = {f: f for f in lab["all"]}
    for f, n in zip(lab["latent"], rng.permutation(free)):
        if rng.uniform() < 0.7:
            mapping[f] = str(n)
    for f, n in zip(lab["observed"], rng.permutation(freeo)):
        if rng.uniform() < 0.7:
            mapping[f] = str(n)
    if all(k == v for k, v in mapping.items()):
        return False
    outs = s.anchored()
    updates = {f"{o}_{f}": f"{o}_{mapping[f]}" for f, o in outs.items()}
    tfs = s.tfs()
    pnames = {}
    for f, tf in tfs.items():
        if isinstance(tf, dict):
            continue
        old = gen.tf_param_names(tf, lab["all"])
        new = gen.tf_param_names(tf, [mapping[x] for x in lab["all"]])
        pnames[f] = dict(zip(old, new))
    out = {}
    chol = {f"{a}-{b}": f"{mapping[a]}-{mapping[b]}"
            for a in lab["latent"] for b in lab["latent"]}
    for (cat, t, a, b), v in s.vals.items():
        if cat in ("controls", "meas_sds"):
            a = updates.get(a, a)
        elif cat == "loadings":
            a, b = updates.get(a, a), mapping[b]
        elif cat == "shock_sds":
            a = mapping[a]
        elif cat == "initial_states":
            b = mapping[b]
        elif cat == "initial_cholcovs":
            b = chol[b]
        elif cat == "transition":
            b = pnames[a][b] if a in pnames else b
            a = mapping[a]
        out[cat, t, a, b] = v
    s.vals = out
    new_factors = {}
    for f, spec in s.model["factors"].items():
        tf = spec["transition_function"]
        if isinstance(tf, dict):
            for term in tf["custom"]["terms"]:
                term[2], term[3] = (mapping.get(x, x) for x in term[2:4])
        new_factors[mapping[f]] = spec
    s.model["factors"] = new_factors
    if "observed_factors" in s.model:
        s.model["observed_factors"] = [mapping[f] for f in lab["observed"]]
        s.df = s.df.rename(columns={f: mapping[f] for f in lab["observed"]})
    if outs:
        s.model["anchoring"]["outcomes"] = {mapping[f]: o for f, o in outs.items()}
    return True


def rename_columns(s, rng):
    """Measurements, controls and anchoring outcomes."""
    lab = s.lab
    mapping = {}
    for i, m in enumerate(sorted({m for _, m, _, p in gen.updates_of(s.model)
                                  if p == "measurement"})):
        mapping[m] = f"n{int(rng.integers(10))}_{i}"
    ctr = {}
    for i, c in enumerate(lab["controls"]):
        ctr[c] = c if c == "constant" else f"k{int(rng.integers(10))}_{i}"
    outs = s.anchored()
    omap = {o: f"O{i}{int(rng.integers(10))}" for i, o in enumerate(set(sorted(
        outs.values())))}
    updates = {f"{o}_{f}": f"{omap[o]}_{f}" for f, o in outs.items()}
    if set(mapping.values()) & set(s.df.columns) or set(ctr.values()) & (
            set(s.df.columns) - set(ctr)) or set(omap.values()) & set(s.df.columns):
        return False
    names = {**mapping, **updates}
    out = {}
    for (cat, t, a, b), v in s.vals.items():
        if cat in ("controls", "meas_sds", "loadings"):
            a = names[a]
            if cat == "controls":
                b = ctr[b]
        out[cat, t, a, b] = v
    s.vals = out
    for spec in s.model["factors"].values():
        spec["measurements"] = [[mapping[m] for m in ms] for ms in spec["measurements"]]
        for kind, lst in spec.get("normalizations", {}).items():
            spec["normalizations"][kind] = [
                {mapping[m]: v for m, v in d.items()} for d in lst]
    if "controls" in s.model:
        s.model["controls"] = [ctr[c] for c in s.model["controls"]]
    if outs:
        s.model["anchoring"]["outcomes"] = {f: omap[o] for f, o in outs.items()}
    s.df = s.df.rename(columns={**mapping, **ctr, **omap})
    return True


def spell_out(s, rng):
    m = s.model
    n_per = s.lab["n_periods"]
    for f in m["factors"].values():
        if rng.uniform() < 0.7:
            f["measurements"] += [[] for _ in range(n_per - len(f["measurements"]))]
        if "normalizations" not in f and rng.uniform() < 0.5:
            f["normalizations"] = {"loadings": [{}] * n_per, "intercepts": [{}] * n_per}
    if "anchoring" in m:
        for key in ["free_controls", "free_constant", "free_loadings",
                    "ignore_constant_when_anchoring"]:
            m["anchoring"].setdefault(key, False)
    m.setdefault("controls", [])
    m.setdefault("observed_factors", [])
    if "stagemap" not in m and n_per > 1:
        m["stagemap"] = list(range(n_per - 1))
    o = m.setdefault("estimation_options", {})
    for key, v in {"n_mixtures": 1, "sigma_points_scale": 2, "robust_bounds": True,
                   "bounds_distance": 1e-6, "clipping_lower_bound": -1e250,
                   "clipping_upper_bound": None, "clipping_lower_hardness": 1,
                   "clipping_upper_hardness": 1}.items():
        o.setdefault(key, v)
    return True


def leave_out(s, rng):
    """Inverse of the above and removal of what never matters for the likelihood."""
    m = s.model
    done = False
    for f in m["factors"].values():
        done |= f.pop("normalizations", None) is not None
    done |= m.pop("stagemap", None) is not None
    if not m.get("controls", [0]):
        del m["controls"]
        done = True
    if not m.get("observed_factors", [0]):
        del m["observed_factors"]
        done = True
    for key in ["robust_bounds", "bounds_distance"]:
        if key in m.get("estimation_options", {}):
            del m["estimation_options"][key]
            done = True
    for key in ["free_controls", "free_constant", "free_loadings"]:
        if key in m.get("anchoring", {}):
            # these determine what is estimated, not the likelihood
            m["anchoring"][key] = not m["anchoring"][key]
            done = True
    return done


def rescale_factor(s, rng):
    lab = s.lab
    options = list(lab["latent"]) if s.all_affine() else list(s.anchored())
    if not options:
        return False
    f = options[int(rng.integers(len(options)))]
    a = float(rng.choice([-1, 1]) * rng.uniform(0.3, 3))
    anchored = f in s.anchored()
    for (cat, t, n1, n2), v in list(s.vals.items()):
        key = (cat, t, n1, n2)
        if cat == "initial_states" and n2 == f:
            s.vals[key] = v * a
        elif cat == "loadings" and n2 == f:
            s.vals[key] = v / a
        elif cat == "shock_sds" and n1 == f:
            s.vals[key] = v * abs(a)
        elif cat == "transition" and not anchored:
            if n1 == f:
                v = v * a
            if n2 == f:
                v = v / a
            s.vals[key] = v
    for k in range(lab["n_mixtures"]):
        for b in lab["latent"][: lab["latent"].index(f) + 1]:
            s.vals["initial_cholcovs", 0, f"mixture_{k}", f"{f}-{b}"] *= a
    return True


def shift_factor(s, rng):
    lab = s.lab
    keep = s.model.get("anchoring", {}).get("ignore_constant_when_anchoring", False)
    good = [] if keep else list(s.anchored())
    if s.all_affine():
        good += [f for f in lab["latent"] if f not in s.anchored()]
    if not good:
        return False
    f = good[int(rng.integers(len(good)))]
    b = float(rng.normal())
    for t, m, facs, _ in gen.updates_of(s.model):
        if f in facs:
            s.vals["controls", t, m, "constant"] -= s.vals["loadings", t, m, f] * b
    for k in range(lab["n_mixtures"]):
        s.vals["initial_states", 0, f"mixture_{k}", f] += b
    if f not in s.anchored():
        tfs = s.tfs()
        for t in range(lab["n_periods"] - 1):
            for g in lab["latent"]:
                if tfs[g] == "linear":
                    # the anchored value of g is shifted, never that of others
                    s.vals["transition", t, g, "constant"] -= b * s.vals[
                        "transition", t, g, f]
                    if g == f:
                        s.vals["transition", t, g, "constant"] += b
    return True


def pick_measurement(s, rng):
    ups = [(t, m) for t, m, _, p in gen.updates_of(s.model) if p == "measurement"]
    return ups[int(rng.integers(len(ups)))]


def cells(s, t):
    return s.df.index.get_level_values(1) == t


def rescale_measurement(s, rng):
    t, m = pick_measurement(s, rng)
    c = float(rng.choice([-1, 1]) * rng.choice([0.1, 0.5, 3.0, 20.0]))
    rows = cells(s, t)
    used = gen.after_control_rule(s.model, s.df).loc[rows, m].notna()
    for i in used[used].index.get_level_values(0):
        s.shift[i] -= np.log(abs(c))
    s.df.loc[rows, m] *= c
    for (cat, tt, a, b), v in list(s.vals.items()):
        if tt == t and a == m:
            if cat in ("controls", "loadings"):
                s.vals[cat, tt, a, b] = v * c
            elif cat == "meas_sds":
                s.vals[cat, tt, a, b] = v * abs(c)
    return True


def shift_measurement(s, rng):
    t, m = pick_measurement(s, rng)
    c = float(rng.normal() * 3)
    s.df.loc[cells(s, t), m] += c
    s.vals["controls", t, m, "constant"] += c
    return True


def rescale_control(s, rng):
    ctrls = s.model.get("controls", [])
    if not ctrls:
        return False
    x = ctrls[int(rng.integers(len(ctrls)))]
    t = int(rng.integers(s.lab["n_periods"]))
    c = float(rng.choice([-1, 1]) * rng.choice([0.1, 0.5, 3.0, 20.0]))
    s.df.loc[cells(s, t), x] *= c
    for (cat, tt, a, b), v in list(s.vals.items()):
        if cat == "controls" and tt == t and b == x:
            s.vals[cat, tt, a, b] = v / c
    return True


def shift_control(s, rng):
    ctrls = s.model.get("controls", [])
    keep = s.model.get("anchoring", {}).get("ignore_constant_when_anchoring", False)
    if not ctrls or (s.anchored() and not keep):
        return False
    x = ctrls[int(rng.integers(len(ctrls)))]
    t = int(rng.integers(s.lab["n_periods"]))
    c = float(rng.normal())
    s.df.loc[cells(s, t), x] += c
    for tt, m, _, _ in gen.updates_of(s.model):
        if tt == t:
            s.vals["controls", t, m, "constant"] -= c * s.vals["controls", t, m, x]
    return True


def irrelevant_control(s, rng):
    name = "irrelevant_c"
    if name in s.df.columns:
        return False
    ctrls = list(s.model.get("controls", []))
    ctrls.insert(int(rng.integers(len(ctrls) + 1)), name)
    s.model["controls"] = ctrls
    s.df[name] = rng.normal(size=len(s.df))
    for t, m, _, _ in gen.updates_of(s.model):
        s.vals["controls", t, m, name] = 0.0
    return True


def irrelevant_observed(s, rng):
    name = "irrelevant_o"
    if name in s.df.columns or len(s.model.get("observed_factors", [])) > 2:
        return False
    obs = list(s.model.get("observed_factors", []))
    obs.insert(int(rng.integers(len(obs) + 1)), name)
    s.model["observed_factors"] = obs
    s.df[name] = rng.normal(size=len(s.df))
    lab = s.lab
    for f, tf in s.tfs().items():
        for p in gen.tf_param_names(tf, lab["all"]):
            for t in range(lab["n_periods"] - 1):
                # no effect, also for exponents in ces functions
                s.vals.setdefault(("transition", t, f, p), 0.0)
    return True


PARAMS_ONLY = [permute_mixtures, flip_signs, rescale_factor, shift_factor]
ALL = [permute_mixtures, flip_signs, split_component, reorder_measurements,
       reorder_controls, reorder_anchoring, reorder_observed, reorder_factors,
       reorder_factors, rename_factors, rename_columns, spell_out, leave_out,
       rescale_factor, rescale_factor, shift_factor, rescale_measurement,
       shift_measurement, rescale_control, shift_control, irrelevant_control,
       irrelevant_observed]
BY_NAME = {f.__name__: f for f in ALL}


@st.composite
def cases(draw, funcs, n_max):
    if draw(st.booleans()):
        kw = dict(tfs=("linear", "linear", "constant"), max_periods=3)
    else:
        kw = dict(custom=20, max_periods=3)
    case = draw(lk.cases(kw, dict(n_max=5, miss_ctrl=True), n_params=1))
    names = list(dict.fromkeys(f.__name__ for f in funcs))
    # the first applicable ones of a random order are used
    order = list(draw(st.permutations(names)))
    if n_max > 4 and draw(st.booleans()):
        order += [draw(st.sampled_from(names))]
    case["order"] = order
    case["n_transforms"] = draw(st.integers(1, n_max))
    case["transform_seed"] = draw(gen.SEED)
    return case


def steps(case, s):
    rng = np.random.default_rng(case["transform_seed"])
    n = 0
    for name in case["order"]:
        seed = int(rng.integers(2**30))
        if n < case["n_transforms"] and BY_NAME[name](s, np.random.default_rng(seed)):
            n += 1
            yield name


def start(case):
    model = case["model"]
    df = lk.data_of(case)
    vals = gen.make_params(model, case["params"][0])
    mi = lk.max_inputs(model, df)
    got = call("loglike", mi["loglike"], gen.params_df(vals))
    base = np.asarray(got["contributions"], dtype=float)
    return model, df, vals, mi, base


def compare(base, s, got, done):
    shift = np.array(list(s.shift.values()))
    close(f"contributions after {done}", got["contributions"], base + shift, rtol=1e-6,
          atol=1e-6)
    close(f"value after {done}", got["value"], (base + shift).sum(), rtol=1e-6, atol=1e-5)


def run_parameters(case):
    model, df, vals, mi, base = start(case)
    labels = lk.features(model, df)
    if not lk.finite(base) or np.abs(base).max() > 1e5:
        return info(False, labels + ["skipped-not-finite"])
    s = State(model, vals, df)
    done = []
    for name in steps(case, s):
        done.append(name)
        got = call("loglike", mi["loglike"], gen.params_df(s.finish()))
        compare(base, s, got, done)
    return info(bool(done), labels + done)


def run_reformulation(case):
    model, df, vals, mi, base = start(case)
    labels = lk.features(model, df)
    if not lk.finite(base) or np.abs(base).max() > 1e5:
        return info(False, labels + ["skipped-not-finite"])
    s = State(model, vals, df)
    done = list(steps(case, s))
    if done:
        new = s.finish()
        mi = lk.max_inputs(s.model, s.df)
        got = call("loglike", mi["loglike"], gen.params_df(new))
        compare(base, s, got, done)
    return info(bool(done), labels + done)


PROPS = [
    Prop("parameters", lambda: cases(PARAMS_ONLY, 4), run_parameters, quick=64,
         thorough=3000),
    Prop("reformulation", lambda: cases(ALL, 6), run_reformulation, quick=112,
         thorough=5000),
]
