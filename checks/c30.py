"""C30: filtered states are the conditional expectations of the latent factors."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import close
from vlib.core import info
from vlib.ref import Ref

RULE = (
    "Random affine models (linear/constant transitions; anchoring with one mixture "
    "component or mixtures without anchoring), parameters and panels. expectation: "
    "post-update states of each component and filtered states equal the conditional "
    "expectation given all non-missing measurements up to that update, computed by one "
    "conditioning of the joint normal of all periods (no recursion). calibration: for "
    "data simulated by simulate_dataset (with cells removed at random), the difference "
    "between true and filtered states, anchored and unanchored, has mean zero and is "
    "uncorrelated with every measurement up to the period and with the filtered states. "
    "Non-trivial: at least two updates."
)
ASSUMPTIONS = [
    "relative tolerance 1e-6 in double precision",
    "calibration: a correct sample is rejected with probability below 1e-10 per test",
]
Z = 7.5


class Joint:
    """Joint normal of the states of all periods for one individual and component."""

    def __init__(self, model, vals):
        self.ref = Ref(model, vals)
        self.ups = gen.updates_of(model)
        r = self.ref
        self.H = np.array([r.loading(t, m) for t, m, *_ in self.ups])
        self.sd = np.array([r.meas_sd(t, m) for t, m, *_ in self.ups])

    def steps(self, obs):
        """Affine transitions of the (unanchored) states; obs: (T, n_observed)."""
        r, out = self.ref, []
        for t in range(r.T - 1):
            pts = np.vstack([np.zeros(r.n), np.eye(r.n)])
            y = r.next_states(t, pts, obs[t])
            out.append(((y[1:] - y[0]).T, y[0]))
        return out

    def moments(self, k, steps):
        r = self.ref
        m, P = r.init(k)
        n, T = r.n, r.T
        mean = [m]
        cov = np.zeros((T, T, n, n))
        cov[0, 0] = P
        for t, (A, b) in enumerate(steps):
            mean.append(A @ mean[t] + b)
            for s in range(t + 1):
                cov[t + 1, s] = A @ cov[t, s]
                cov[s, t + 1] = cov[t + 1, s].T
            cov[t + 1, t + 1] = A @ cov[t, t] @ A.T + r.shock_cov(t)
        return np.array(mean), cov

    def condition(self, mean, cov, y, upto, t, use):
        """Mean of the states in t and log density given updates `use` up to `upto`."""
        rows = [u for u in use if u <= upto and np.isfinite(y[u])]
        if not rows:
            return mean[t], 0.0
        per = [self.ups[u][0] for u in rows]
        H = self.H[rows]
        S = np.array([[H[a] @ cov[per[a], per[b]] @ H[b] for b in range(len(rows))]
                      for a in range(len(rows))]) + np.diag(self.sd[rows] ** 2)
        r = np.array([y[u] - self.H[u] @ mean[self.ups[u][0]] for u in rows])
        G = np.array([cov[t, per[a]] @ H[a] for a in range(len(rows))]).T
        sol = np.linalg.solve(S, r)
        ld = np.linalg.slogdet(S)[1]
        return mean[t] + G @ sol, -0.5 * (ld + r @ sol + len(r) * np.log(2 * np.pi))


def run_expectation(case):
    model = case["model"]
    lab = gen.labels_of(model)
    df = lk.data_of(case)
    n, T, K = case["data"]["n_obs"], lab["n_periods"], lab["n_mixtures"]
    mi = lk.max_inputs(model, df)
    clean = gen.after_control_rule(model, df)
    cols = {c: clean[c].to_numpy(dtype=float).reshape(n, T) for c in clean}
    cols["constant"] = np.ones((n, T))
    inv = {f"{o}_{f}": o for f, o in model.get("anchoring", {}).get("outcomes", {}).items()}
    ups = gen.updates_of(model)
    use = [u for u, x in enumerate(ups) if x[3] == "measurement"]
    for seed in case["params"]:
        vals = gen.make_params(model, seed)
        J = Joint(model, vals)
        debug = call("debug_loglike", mi["debug_loglike"], gen.params_df(vals))
        post = debug["post_update_states"].set_index(
            ["period", "measurement", "id", "mixture"])
        check(post.index.is_unique, "duplicated labels in post_update_states")
        filt = debug["filtered_states"].set_index(["period", "id"])
        last = {ups[u][0]: u for u in use}
        check(set(filt.index) == {(t, i) for t in last for i in range(n)},
              "rows of the filtered states", got=sorted(filt.index))
        for i in range(n):
            obs = np.array([[cols[o][i, t] for o in lab["observed"]] for t in range(T)])
            y = []
            for t, m, _, purpose in ups:
                raw = cols[inv[m] if purpose == "anchoring" else m][i, t]
                ctrl = {c: cols[c][i, t] for c in lab["controls"]}
                y.append(raw - J.ref.control_effect(t, m, ctrl) if np.isfinite(raw)
                         else np.nan)
            steps = J.steps(obs)
            mom = [J.moments(k, steps) for k in range(K)]
            for u, (t, m, _, purpose) in enumerate(ups):
                per_comp, logs = [], []
                for k in range(K):
                    x, ll = J.condition(*mom[k], y, u, t, use)
                    per_comp.append(x)
                    logs.append(ll + (np.log(J.ref.weight(k)) if K > 1 else 0.0))
                    got = post.loc[(t, m, i, k), lab["latent"]].to_numpy(dtype=float)
                    close(f"state after update {m} in period {t}", got, x,
                          rtol=1e-6, atol=1e-6)
                if last.get(t) == u:
                    w = np.exp(np.array(logs) - np.logaddexp.reduce(logs))
                    want = w @ np.array(per_comp)
                    got = filt.loc[(t, i), lab["latent"]].to_numpy(dtype=float)
                    close(f"filtered state of period {t}", got, want,
                          rtol=1e-6, atol=1e-6)
    return info(len(ups) >= 2, lk.features(model, df))


def run_calibration(case):
    from skillmodels.filtered_states import get_filtered_states
    from skillmodels.simulate_data import simulate_dataset

    model = case["model"]
    lab = gen.labels_of(model)
    n, T = 1500, lab["n_periods"]
    vals = gen.make_params(model, case["params"])
    base = gen.make_data(model, n, case["seed"])
    built = gen.build_model(model)
    params = gen.params_df(vals)
    np.random.seed(case["seed"])
    sim = call("simulate_dataset", simulate_dataset, built, params, data=base)
    meas = sim["measurements"].set_index(["id", "period"]).sort_index()
    extra = [c for c in lab["controls"][1:] + lab["observed"]]
    rng = np.random.default_rng(case["seed"])
    df = meas.drop(columns=[c for c in extra if c in meas])
    # each measurement is observed by most of the individuals
    df = df.where(rng.uniform(size=df.shape) >= case["miss"])
    df = pd.concat([df, base[extra]], axis=1)
    outcomes = model.get("anchoring", {}).get("outcomes", {})
    out = call("get_filtered_states", get_filtered_states, built, df, params)
    labels = lk.features(model, df)
    cols = gen.meas_columns(model)
    n_tests = 0
    for kind in ["unanchored_states", "anchored_states"]:
        true = sim[kind]["states"].set_index(["period", "id"])[lab["latent"]]
        filt = out[kind]["states"].set_index(["period", "id"])[lab["latent"]]
        for t in sorted(set(filt.index.get_level_values(0))):
            x = true.loc[t].sort_index()
            f = filt.loc[t].sort_index()
            check(list(x.index) == list(f.index), "individuals differ")
            funcs = {"one": np.ones(n)}
            for s in range(t + 1):
                for c in cols[s]:
                    if c not in outcomes.values():
                        v = df.xs(s, level="period")[c].to_numpy(dtype=float)
                        if np.isfinite(v).sum() > 100:
                            funcs[f"{c} {s}"] = np.where(np.isfinite(v), v - np.nanmean(v), 0)
            for c in lab["controls"][1:] + lab["observed"]:
                v = base.xs(t, level="period")[c].to_numpy(dtype=float)
                funcs[c] = np.where(np.isfinite(v), v, 0.0)
            for g in lab["latent"]:
                funcs[f"filtered {g}"] = f[g].to_numpy()
            for fac in lab["latent"]:
                e = x[fac].to_numpy() - f[fac].to_numpy()
                for name, v in funcs.items():
                    p = e * v
                    sd = p.std()
                    if sd < 1e-6 * (1 + np.abs(x[fac]).max()):
                        continue
                    n_tests += 1
                    z = p.mean() / sd * np.sqrt(n)
                    check(abs(z) < Z, "error of the filtered states is predictable",
                          factor=fac, period=t, by=name, z=z, kind=kind)
    return info(n_tests > 0, labels)


@st.composite
def models(draw, **kw):
    anch = draw(st.booleans())
    return draw(gen.models(
        tfs=gen.AFFINE, anchoring=100 if anch else False,
        mixtures=(1,) if anch else (1, 2, 3), **kw,
    ))


@st.composite
def cases(draw):
    return {
        "model": draw(models(max_factors=3, min_periods=1, max_periods=4)),
        "data": draw(lk.data_specs(n_min=2, n_max=4, miss_ctrl=True)),
        "params": draw(st.lists(gen.SEED, min_size=1, max_size=2)),
    }


@st.composite
def sim_cases(draw):
    return {
        "model": draw(models(max_factors=2, min_periods=1, max_periods=3, max_meas=2)),
        "params": draw(gen.SEED),
        "seed": draw(gen.SEED),
        "miss": draw(st.sampled_from([0.0, 0.1, 0.4])),
    }


PROPS = [
    Prop("expectation", cases, run_expectation, quick=120, thorough=6000),
    Prop("calibration", sim_cases, run_calibration, quick=48, thorough=2400),
]
