"""C29: accuracy of the filter when scales differ by many orders of magnitude."""
import decimal
from decimal import Decimal as D

import numpy as np
from hypothesis import strategies as st
from scipy.special import logsumexp

from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import info

RULE = (
    "Affine models (linear/constant transitions, observed factors, controls, "
    "mixtures, missings) with measurement sds down to 1e-7 and up to 1e4, nearly "
    "deterministic transitions, nearly collinear initial distributions and outliers "
    "of up to 1000 sds; oracle: joint normal density in 70-digit decimal arithmetic. "
    "Non-trivial: the condition of the joint square root is at least 1e3, so that an "
    "error of order condition**2 exceeds the tolerance."
)
ASSUMPTIONS = [
    "decimal module",
    "a square-root filter loses accuracy in proportion to the condition number of the "
    "root (not of the covariance); constant 50 (observed: below 1)",
]
EPS = 2.0**-52
C = 50


def dec(x):
    return np.array([D(float(v)) for v in np.ravel(x)], dtype=object).reshape(
        np.shape(x)
    )


def extreme_params(model, seed, case):
    """Admissible parameters whose magnitudes differ widely."""
    vals = gen.make_params(model, seed, degenerate=True)
    rng = np.random.default_rng(seed + 1)
    for loc in vals:
        cat, _, n1, n2 = loc
        if cat == "meas_sds" and rng.uniform() < case["p_precise"]:
            vals[loc] *= 10.0 ** -rng.uniform(2.5, case["digits"])
        elif cat == "meas_sds" and rng.uniform() < 0.2:
            vals[loc] *= 10.0 ** rng.uniform(0, 4)
        elif cat == "shock_sds" and rng.uniform() < 0.4:
            vals[loc] *= 10.0 ** -rng.uniform(2, 8)
        elif cat == "initial_cholcovs" and rng.uniform() < 0.25:
            a_b = {f"{f}-{f}" for f in model["factors"]}
            if n2 in a_b:
                vals[loc] *= 10.0 ** -rng.uniform(2, 6)
        elif cat == "loadings" and rng.uniform() < 0.1:
            vals[loc] *= 10.0 ** rng.uniform(-3, 3)
    return vals


class Exact:
    """Joint distribution of all measurements in decimal arithmetic."""

    def __init__(self, model, vals):
        self.model, self.v = model, vals
        self.lab = gen.labels_of(model)
        self.ups = gen.updates_of(model)
        self.lat = self.lab["latent"]
        self.n, self.T, self.K = len(self.lat), self.lab["n_periods"], self.lab["n_mixtures"]

    def init(self, k):
        mean = [self.v[("initial_states", 0, f"mixture_{k}", f)] for f in self.lat]
        L = np.zeros((self.n, self.n))
        for i, a in enumerate(self.lat):
            for j, b in enumerate(self.lat[: i + 1]):
                L[i, j] = self.v[("initial_cholcovs", 0, f"mixture_{k}", f"{a}-{b}")]
        return np.array(mean), L

    def step(self, t):
        """A, B (observed factors), c, shock sds of the transition from t to t + 1."""
        A = np.zeros((self.n, self.n))
        B = np.zeros((self.n, len(self.lab["observed"])))
        c = np.zeros(self.n)
        for r, f in enumerate(self.lat):
            if self.model["factors"][f]["transition_function"] == "constant":
                A[r, r] = 1
                continue
            A[r] = [self.v[("transition", t, f, g)] for g in self.lat]
            B[r] = [self.v[("transition", t, f, g)] for g in self.lab["observed"]]
            c[r] = self.v[("transition", t, f, "constant")]
        q = np.array([self.v[("shock_sds", t, f, "-")] for f in self.lat])
        return A, B, c, q

    def rows(self):
        H = np.array([
            [self.v.get(("loadings", t, m, f), 0.0) for f in self.lat]
            for t, m, _, _ in self.ups
        ])
        sd = np.array([self.v[("meas_sds", t, m, "-")] for t, m, _, _ in self.ups])
        per = np.array([t for t, *_ in self.ups])
        eff = np.array([
            [self.v[("controls", t, m, c)] for c in self.lab["controls"]]
            for t, m, _, _ in self.ups
        ])
        return H, sd, per, eff

    def simulate(self, df, seed, outlier):
        """Replace the observed cells by draws from the model."""
        rng = np.random.default_rng(seed)
        lab, H, sd, per, eff = self.lab, *self.rows()
        df = df.copy()
        n_obs = df.index.get_level_values(0).nunique()
        cols = {c: df[c].to_numpy(dtype=float).reshape(n_obs, self.T) for c in df}
        cols["constant"] = np.ones((n_obs, self.T))
        new = {c: v.copy() for c, v in cols.items()}
        for i in range(n_obs):
            m, L = self.init(int(rng.integers(self.K)))
            x = [m + L @ rng.normal(size=self.n)]
            for t in range(self.T - 1):
                A, B, c, q = self.step(t)
                obs = np.array([cols[o][i, t] for o in lab["observed"]])
                x.append(A @ x[t] + B @ obs + c + q * rng.normal(size=self.n))
            for u, (t, meas, _, _) in enumerate(self.ups):
                ctrl = np.nan_to_num([cols[c][i, t] for c in lab["controls"]])
                y = H[u] @ x[t] + eff[u] @ ctrl + sd[u] * rng.normal()
                if outlier and rng.uniform() < 0.15:
                    y += outlier * sd[u] * rng.choice([-1, 1])
                if np.isfinite(cols[meas][i, t]):
                    new[meas][i, t] = y
        for meas in {m for _, m, _, _ in self.ups}:
            df[meas] = new[meas].reshape(-1)
        return df

    def loglikes(self, df):
        """Exact values, tolerances and condition numbers per individual."""
        lab, H, sd, per, eff = self.lab, *self.rows()
        n_obs = df.index.get_level_values(0).nunique()
        cols = {c: df[c].to_numpy(dtype=float).reshape(n_obs, self.T) for c in df}
        cols["constant"] = np.ones((n_obs, self.T))
        steps = [self.step(t) for t in range(self.T - 1)]
        dsteps = [tuple(dec(a) for a in s) for s in steps]
        dH, dsd, deff = dec(H), dec(sd), dec(eff)
        joint = []
        for k in range(self.K):
            m, L = self.init(k)
            dL = dec(L)
            covs = {(0, 0): dL.dot(dL.T)}
            for t in range(self.T - 1):
                A, _, _, q = dsteps[t]
                for s in range(t + 1):
                    covs[(t + 1, s)] = A.dot(covs[(t, s)])
                    covs[(s, t + 1)] = covs[(t + 1, s)].T
                new = A.dot(covs[(t, t)]).dot(A.T)
                for j in range(self.n):
                    new[j, j] += q[j] * q[j]
                covs[(t + 1, t + 1)] = new
            U = len(self.ups)
            S = np.empty((U, U), dtype=object)
            for a in range(U):
                for b in range(U):
                    S[a, b] = dH[a].dot(covs[(per[a], per[b])]).dot(dH[b])
                S[a, a] += dsd[a] * dsd[a]
            joint.append((dec(m), S, m))
        vals, tols, conds = np.zeros(n_obs), np.zeros(n_obs), np.ones(n_obs)
        for i in range(n_obs):
            seen = [u for u, (t, m, _, _) in enumerate(self.ups)
                    if np.isfinite(cols[m][i, t])]
            lls, tks = [], []
            for k in range(self.K):
                if not seen:
                    lls.append(0.0)
                    tks.append(0.0)
                    continue
                mean, S, fmean = joint[k]
                means, mags = [mean], [np.abs(fmean)]
                for t in range(self.T - 1):
                    A, B, c, _ = dsteps[t]
                    obs = np.array([cols[o][i, t] for o in lab["observed"]])
                    nxt = A.dot(means[t]) + c
                    if len(obs):
                        nxt = nxt + B.dot(dec(obs))
                    means.append(nxt)
                    fa, fb, fc, _ = steps[t]
                    mags.append(np.abs(fa) @ mags[t] + np.abs(fb) @ np.abs(obs) + np.abs(fc))
                r, mag = [], []
                for u in seen:
                    t, meas, _, _ = self.ups[u]
                    y = cols[meas][i, t]
                    ctrl = np.array([cols[c][i, t] for c in lab["controls"]])
                    r.append(D(float(y)) - dH[u].dot(means[t]) - deff[u].dot(dec(ctrl)))
                    mag.append(abs(y) + np.abs(H[u]) @ mags[t] + np.abs(eff[u]) @ np.abs(ctrl)
                               + float(S[u, u].sqrt()))
                L = cholesky(S[np.ix_(seen, seen)])
                z = forward(L, np.array(r, dtype=object)[:, None])[:, 0]
                eye = dec(np.eye(len(seen)))
                inv = np.abs(forward(L, eye).astype(float))
                cond = float(max(inv @ np.array(mag)))
                q = float(z.dot(z))
                ld = float(sum((2 * L[a, a].ln() for a in range(len(seen))), D(0)))
                lls.append(-0.5 * (len(seen) * np.log(2 * np.pi) + ld + q))
                tks.append(C * EPS * cond * (1 + len(seen) + q))
                conds[i] = max(conds[i], cond)
            lls, tks = np.array(lls), np.array(tks)
            if self.K > 1:
                lls = lls + np.log([self.v[("mixture_weights", 0, f"mixture_{k}", "-")]
                                    for k in range(self.K)])
            vals[i] = logsumexp(lls)
            tols[i] = 1e-12 + max(logsumexp(lls + tks) - vals[i],
                                  vals[i] - logsumexp(lls - tks))
            tols[i] += 1e-13 * abs(vals[i])
        return vals, tols, conds


def cholesky(S):
    n = len(S)
    L = np.full((n, n), D(0), dtype=object)
    for j in range(n):
        d = S[j, j] - L[j, :j].dot(L[j, :j]) if j else S[j, j]
        L[j, j] = d.sqrt()
        for i in range(j + 1, n):
            s = S[i, j] - L[i, :j].dot(L[j, :j]) if j else S[i, j]
            L[i, j] = s / L[j, j]
    return L


def forward(L, B):
    X = B.copy()
    for i in range(len(L)):
        if i:
            X[i] = X[i] - L[i, :i].dot(X[:i])
        X[i] = X[i] / L[i, i]
    return X


def run(case):
    model = case["model"]
    base = lk.data_of(case)
    worst = 0.0
    with decimal.localcontext() as ctx:
        ctx.prec = 70
        vals = extreme_params(model, case["params"], case)
        exact = Exact(model, vals)
        df = exact.simulate(base, case["params"], case["outlier"])
        want, tol, cond = exact.loglikes(gen.after_control_rule(model, df))
    mi = lk.max_inputs(model, df)
    got = call("loglike", mi["loglike"], gen.params_df(vals))
    contr = np.asarray(got["contributions"], dtype=float)
    check(np.isfinite(contr).all(), "log likelihood contributions are not finite",
          contributions=contr, exact=want)
    err = np.abs(contr - want)
    worst = float((err / tol).max())
    check((err <= tol).all(), "log likelihood contributions are inaccurate",
          contributions=contr, exact=want, error=err, tolerance=tol, condition=cond)
    labels = [f"condition=1e{int(np.log10(cond.max()))}", f"outlier={case['outlier']}"]
    if case.get("report"):
        print(worst, cond.max())
    useful = ((cond >= 1e3) & (tol < 0.1)).any()
    return info(useful, labels)


@st.composite
def cases(draw):
    model = draw(gen.models(
        tfs=gen.AFFINE, anchoring=False, max_factors=3, max_periods=3,
        mixtures=(1, 1, 2, 3), max_updates=14,
    ))
    return {
        "model": model,
        "data": draw(lk.data_specs(n_min=2, n_max=5, miss_ctrl=True)),
        "params": draw(gen.SEED),
        "p_precise": draw(st.sampled_from([0.4, 0.8, 1.0])),
        "digits": draw(st.sampled_from([3, 5, 6, 7, 7])),
        "outlier": draw(st.sampled_from([0, 0, 5, 60, 1000])),
    }


PROPS = [Prop("extreme_scales", cases, run, quick=320, thorough=12000)]
