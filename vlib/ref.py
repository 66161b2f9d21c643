"""Reference implementation: plain numpy, covariance form, parameters by name."""
import numpy as np
from scipy.special import logsumexp

from vlib.gen import labels_of
from vlib.gen import updates_of


# --------------------------------------------------------------- transitions
def transition(tf, fac, p, x, all_facs):
    """One transition function; p: name -> value, x: name -> array."""
    if isinstance(tf, dict):
        return custom_transition(tf, p, x, all_facs)
    if tf == "constant":
        return x[fac] + 0.0
    if tf == "linear":
        return sum(p[f] * x[f] for f in all_facs) + p["constant"]
    if tf in ("translog", "robust_translog", "linear_and_squares"):
        if tf == "robust_translog":
            x = {k: np.clip(v, -1e12, 1e12) for k, v in x.items()}
        out = p["constant"] + 0.0 * x[fac]
        for f in all_facs:
            out = out + p[f] * x[f] + p[f"{f} ** 2"] * x[f] ** 2
        if tf != "linear_and_squares":
            for i, a in enumerate(all_facs):
                for b in all_facs[i + 1 :]:
                    out = out + p[f"{a} * {b}"] * x[a] * x[b]
        return out
    if tf == "log_ces":
        arr = np.stack([p["phi"] * x[f] for f in all_facs])
        g = np.array([p[f] for f in all_facs]).reshape(-1, *[1] * (arr.ndim - 1))
        return logsumexp(arr, b=np.broadcast_to(g, arr.shape), axis=0) / p["phi"]
    if tf == "log_ces_general":
        arr = np.stack([p[f"sigma_{f}"] * x[f] for f in all_facs])
        g = np.array([p[f] for f in all_facs]).reshape(-1, *[1] * (arr.ndim - 1))
        return p["tfp"] * logsumexp(arr, b=np.broadcast_to(g, arr.shape), axis=0)
    raise ValueError(tf)


def custom_transition(tf, p, x, all_facs):
    out = 0.0
    for kind, pn, a, b, _ in tf["custom"]["terms"]:
        if kind == "const":
            out = out + p[pn] + 0.0 * x[all_facs[0]]
        elif kind == "lin":
            out = out + p[pn] * x[a]
        elif kind == "sq":
            out = out + p[pn] * x[a] ** 2
        elif kind == "inter":
            out = out + p[pn] * x[a] * x[b]
        elif kind == "tanh":
            out = out + np.tanh(p[pn] * x[a])
        elif kind == "exp":
            out = out + p[pn] * np.exp(-(x[a] ** 2))
        elif kind == "self":
            out = out + x[a]
    return out


class Ref:
    def __init__(self, model, vals):
        self.model = model
        self.lab = labels_of(model)
        self.ups = updates_of(model)
        self.v = vals
        self.n = len(self.lab["latent"])
        self.T = self.lab["n_periods"]
        self.K = self.lab["n_mixtures"]
        anch = model.get("anchoring", {})
        self.outcomes = anch.get("outcomes", {})
        self.ignore_const = anch.get("ignore_constant_when_anchoring", False)

    # ---------------------------------------------------------- parameters
    def loading(self, t, m):
        return np.array(
            [self.v.get(("loadings", t, m, f), 0.0) for f in self.lab["latent"]]
        )

    def control_effect(self, t, m, ctrl):
        """ctrl: dict name -> value for one individual (constant included)"""
        return sum(self.v[("controls", t, m, c)] * ctrl[c] for c in self.lab["controls"])

    def meas_sd(self, t, m):
        return self.v[("meas_sds", t, m, "-")]

    def scale_const(self, t, f):
        if f in self.outcomes:
            m = f"{self.outcomes[f]}_{f}"
            s = self.v[("loadings", t, m, f)]
            c = 0.0 if self.ignore_const else self.v[("controls", t, m, "constant")]
            return s, c
        return 1.0, 0.0

    def init(self, k):
        mean = np.array(
            [
                self.v[("initial_states", 0, f"mixture_{k}", f)]
                for f in self.lab["latent"]
            ]
        )
        L = np.zeros((self.n, self.n))
        for i, a in enumerate(self.lab["latent"]):
            for j, b in enumerate(self.lab["latent"][: i + 1]):
                L[i, j] = self.v[("initial_cholcovs", 0, f"mixture_{k}", f"{a}-{b}")]
        return mean, L @ L.T

    def weight(self, k):
        return self.v[("mixture_weights", 0, f"mixture_{k}", "-")]

    def shock_cov(self, t):
        return np.diag(
            [self.v[("shock_sds", t, f, "-")] ** 2 for f in self.lab["latent"]]
        )

    def trans_params(self, t, fac):
        return {
            k[3]: val
            for k, val in self.v.items()
            if k[0] == "transition" and k[1] == t and k[2] == fac
        }

    def next_states(self, t, pts, obs):
        """pts: (npts, n) latent; obs: (n_observed,) or (npts, n_observed)."""
        pts = np.asarray(pts, dtype=float)
        x = {}
        for i, f in enumerate(self.lab["latent"]):
            s, c = self.scale_const(t, f)
            x[f] = pts[:, i] * s + c
        obs = np.broadcast_to(obs, (len(pts), len(self.lab["observed"])))
        for i, f in enumerate(self.lab["observed"]):
            x[f] = obs[:, i].astype(float)
        out = np.zeros_like(pts)
        for i, f in enumerate(self.lab["latent"]):
            tf = self.model["factors"][f]["transition_function"]
            y = transition(tf, f, self.trans_params(t, f), x, self.lab["all"])
            s, c = self.scale_const(t + 1, f)
            out[:, i] = (y - c) / s
        return out

    # -------------------------------------------------------------- filter
    def predict(self, t, mean, cov, obs):
        kappa = self.model.get("estimation_options", {}).get("sigma_points_scale", 2)
        n = self.n
        # square root by Cholesky with column-sign freedom irrelevant: the set of
        # points {m +- s L_j} is the same for sign changes only, not for other
        # roots, hence the filter's own convention (lower triangular) is used.
        L = psd_chol(cov)
        s = np.sqrt(kappa + n)
        pts = [mean] + [mean + s * L[:, j] for j in range(n)]
        pts += [mean - s * L[:, j] for j in range(n)]
        w = np.full(2 * n + 1, 0.5 / (n + kappa))
        w[0] = kappa / (n + kappa)
        y = self.next_states(t, np.array(pts), obs)
        m = w @ y
        d = y - m
        return m, (d * w[:, None]).T @ d + self.shock_cov(t)

    def filter(self, df):
        """df: balanced frame by (id, period) after the rule for missing controls.

        Returns dict of arrays: contributions (n_updates, n_obs), residuals, sds
        (n_updates, n_obs, K), states (n_updates, n_obs, K, n), logw.
        """
        lab = self.lab
        ids = list(df.index.get_level_values(0).unique())
        n_obs, U = len(ids), len(self.ups)
        cols = {c: df[c].to_numpy(dtype=float).reshape(n_obs, self.T) for c in df}
        cols["constant"] = np.ones((n_obs, self.T))
        out = {
            "contributions": np.zeros((U, n_obs)),
            "residuals": np.full((U, n_obs, self.K), np.nan),
            "residual_sds": np.full((U, n_obs, self.K), np.nan),
            "states": np.zeros((U, n_obs, self.K, self.n)),
            "covs": np.zeros((U, n_obs, self.K, self.n, self.n)),
            "logw": np.zeros((U, n_obs, self.K)),
        }
        inv = {f"{o}_{f}": o for f, o in self.outcomes.items()}
        H = [self.loading(t, m) for t, m, _, _ in self.ups]
        for i in range(n_obs):
            comp = [self.init(k) for k in range(self.K)]
            if self.K == 1:
                logw = np.zeros(1)
            else:
                with np.errstate(divide="ignore"):
                    logw = np.log([self.weight(k) for k in range(self.K)])
            prev_t = 0
            for u, (t, m, _, purpose) in enumerate(self.ups):
                if t != prev_t:
                    for s in range(prev_t, t):
                        obs = np.array([cols[o][i, s] for o in lab["observed"]])
                        comp = [self.predict(s, mu, P, obs) for mu, P in comp]
                    prev_t = t
                col = inv[m] if purpose == "anchoring" else m
                y = cols[col][i, t]
                if np.isfinite(y):
                    ctrl = {c: cols[c][i, t] for c in lab["controls"]}
                    eff = self.control_effect(t, m, ctrl)
                    h, sd = H[u], self.meas_sd(t, m)
                    logs = np.zeros(self.K)
                    new = []
                    for k, (mu, P) in enumerate(comp):
                        v = y - h @ mu - eff
                        s2 = h @ P @ h + sd**2
                        gain = P @ h / s2
                        A = np.eye(self.n) - np.outer(gain, h)
                        newP = A @ P @ A.T + np.outer(gain, gain) * sd**2
                        new.append((mu + gain * v, newP))
                        logs[k] = -0.5 * (np.log(2 * np.pi * s2) + v * v / s2)
                        out["residuals"][u, i, k] = v
                        out["residual_sds"][u, i, k] = np.sqrt(s2)
                    tot = logsumexp(logs + logw)
                    out["contributions"][u, i] = tot
                    logw = logs + logw - tot
                    if self.K == 1:
                        logw = np.zeros(1)
                    if purpose == "measurement":
                        comp = new
                for k in range(self.K):
                    out["states"][u, i, k] = comp[k][0]
                    out["covs"][u, i, k] = comp[k][1]
                out["logw"][u, i] = logw
        return out

    # ----------------------------------------------- exact joint density
    def joint_loglike(self, df):
        """Exact log density per individual for affine models without anchoring."""
        lab = self.lab
        ids = list(df.index.get_level_values(0).unique())
        n_obs = len(ids)
        cols = {c: df[c].to_numpy(dtype=float).reshape(n_obs, self.T) for c in df}
        cols["constant"] = np.ones((n_obs, self.T))
        res = np.zeros(n_obs)
        for i in range(n_obs):
            logs = []
            for k in range(self.K):
                m0, P0 = self.init(k)
                means, covs = [m0], {(0, 0): P0}
                for t in range(self.T - 1):
                    A = np.zeros((self.n, self.n))
                    b = np.zeros(self.n)
                    for r, f in enumerate(lab["latent"]):
                        tf = self.model["factors"][f]["transition_function"]
                        if tf == "constant":
                            A[r, r] = 1
                        else:
                            p = self.trans_params(t, f)
                            A[r] = [p[g] for g in lab["latent"]]
                            b[r] = p["constant"] + sum(
                                p[o] * cols[o][i, t] for o in lab["observed"]
                            )
                    means.append(A @ means[t] + b)
                    for s in range(t + 1):
                        covs[(t + 1, s)] = A @ covs[(t, s)]
                        covs[(s, t + 1)] = covs[(t + 1, s)].T
                    covs[(t + 1, t + 1)] = A @ covs[(t, t)] @ A.T + self.shock_cov(t)
                rows = []
                for t, m, _, _ in self.ups:
                    y = cols[m][i, t]
                    if np.isfinite(y):
                        ctrl = {c: cols[c][i, t] for c in lab["controls"]}
                        rows.append(
                            (t, self.loading(t, m), y - self.control_effect(t, m, ctrl),
                             self.meas_sd(t, m))
                        )
                if rows:
                    r = np.array([y - h @ means[t] for t, h, y, _ in rows])
                    S = np.array(
                        [[h1 @ covs[(t1, t2)] @ h2 for t2, h2, _, _ in rows]
                         for t1, h1, _, _ in rows]
                    )
                    S = S + np.diag([sd**2 for *_, sd in rows])
                    _, ld = np.linalg.slogdet(S)
                    q = r @ np.linalg.solve(S, r)
                    ll = -0.5 * (len(r) * np.log(2 * np.pi) + ld + q)
                else:
                    ll = 0.0
                logs.append(ll + (np.log(self.weight(k)) if self.K > 1 else 0.0))
            res[i] = logsumexp(logs)
        return res


def psd_chol(cov):
    """Lower triangular root of a positive semi-definite matrix."""
    n = len(cov)
    L = np.zeros((n, n))
    A = np.array(cov, dtype=float)
    scale = max(np.abs(np.diag(A)).max(), 1e-300)
    for j in range(n):
        d = A[j, j] - L[j, :j] @ L[j, :j]
        if d <= 1e-13 * scale:
            L[j, j] = 0.0
            continue
        L[j, j] = np.sqrt(d)
        for r in range(j + 1, n):
            L[r, j] = (A[r, j] - L[r, :j] @ L[j, :j]) / L[j, j]
    return L


def soft_clip(x, lower=-1e250, upper=None, lh=1, uh=1):
    x = np.asarray(x, dtype=float)
    if lower is not None:
        x = np.logaddexp(lh * x, lh * lower) / lh
    if upper is not None:
        x = -np.logaddexp(-uh * x, -uh * upper) / uh
    return x


def clip_opts(model):
    o = model.get("estimation_options", {})
    return dict(
        lower=o.get("clipping_lower_bound", -1e250),
        upper=o.get("clipping_upper_bound"),
        lh=o.get("clipping_lower_hardness", 1),
        uh=o.get("clipping_upper_hardness", 1),
    )
