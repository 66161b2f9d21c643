"""C11: built-in transition functions compute their documented formulas."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Prop
from vlib.core import call
from vlib.core import check
from vlib.core import close
from vlib.core import info
from scipy.special import logsumexp

from vlib.ref import transition

RULE = (
    "Random number and names of factors, states and coefficients for each built-in "
    "function; coefficients are matched to factors by the published parameter names "
    "and compared with an independent numpy formula, alone and vectorized, together "
    "with gradients with respect to states and coefficients (analytic for CES, central "
    "differences otherwise) and their finiteness at extreme points "
    "(zero CES weights, exponents up to 1e5 in absolute value). CES also: translation "
    "equivariance, bounds by smallest and largest relevant state. Non-trivial: at "
    "least two factors."
)
ASSUMPTIONS = ["relative tolerance 1e-9 for values, 1e-5 for derivatives"]
POOL = ["f1", "f2", "a", "b", "long name", "o-1", "zz", "c"]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 6))
    return {
        "func": draw(st.sampled_from([t for t in gen.BUILTIN])),
        "factors": draw(st.permutations(POOL))[:n],
        "seed": draw(gen.SEED),
        "scale": draw(st.sampled_from([0.1, 1.0, 5.0])),
        "zeros": draw(st.integers(0, n - 1)),
        "n_points": draw(st.integers(1, 4)),
    }


def draw_params(case, rng):
    facs, func, n = case["factors"], case["func"], len(case["factors"])
    names = gen.tf_param_names(func, facs)
    p = {k: float(rng.normal()) for k in names}
    if func in ("log_ces", "log_ces_general"):
        g = rng.dirichlet(np.ones(n))
        if case["zeros"]:
            g[rng.permutation(n)[: case["zeros"]]] = 0.0
        if g.sum() == 0:
            g[0] = 1.0
        g = g / g.sum()
        if func == "log_ces_general":
            g = g * rng.uniform(0.2, 4)
        p.update(dict(zip(facs, map(float, g))))
    if func == "log_ces":
        # down to almost Cobb-Douglas and up to almost Leontief
        size = rng.choice([0.05, 0.5, 1.0, 3.0, 10 ** rng.uniform(-4, 1.5)])
        p["phi"] = float(rng.choice([-1, 1]) * size)
    return names, p


def functions(case):
    import skillmodels.transition_functions as tf

    func = getattr(tf, case["func"])
    names = call("params_" + case["func"], getattr(tf, "params_" + case["func"]),
                 list(case["factors"]))
    return tf, func, names


def as_scalar_func(case, func):
    """f(states vector, coefficient vector), also for the constant function."""
    if case["func"] == "constant":
        return lambda s, p: func(s[0], p)
    return func


def derivatives(func, ref, s, coeffs, p, facs, names):
    """Analytic derivatives for CES functions, central differences for polynomials."""
    if "ces" not in func:
        def fd(func1, x):
            out = []
            for k in range(len(x)):
                e = np.zeros(len(x))
                e[k] = 1e-5 * max(1, abs(x[k]))
                out.append((func1(x + e) - func1(x - e)) / (2 * e[k]))
            return np.array(out)

        return fd(lambda x: ref(x, coeffs), s), fd(lambda c: ref(s, c), coeffs)
    g = np.array([p[f] for f in facs])
    general = func == "log_ces_general"
    expo = s * (np.array([p[f"sigma_{f}"] for f in facs]) if general else p["phi"])
    lse = logsumexp(expo, b=g)
    unweighted = np.exp(expo - lse)
    share = g * unweighted
    out = {}
    if general:
        ds = p["tfp"] * share * np.array([p[f"sigma_{f}"] for f in facs])
        out["tfp"] = lse
        for k, f in enumerate(facs):
            out[f] = p["tfp"] * unweighted[k]
            out[f"sigma_{f}"] = p["tfp"] * share[k] * s[k]
    else:
        ds = share
        out["phi"] = -lse / p["phi"] ** 2 + share @ s / p["phi"]
        for k, f in enumerate(facs):
            out[f] = unweighted[k] / p["phi"]
    return ds, np.array([out[k] for k in names])


def run_formula(case):
    import jax
    import jax.numpy as jnp

    jax.config.update("jax_enable_x64", True)
    tf, func, names = functions(case)
    facs = case["factors"]
    rng = np.random.default_rng(case["seed"])
    want_names, p = draw_params(case, rng)
    check(len(set(names)) == len(names), "duplicated parameter names", names=names)
    check(sorted(names) == sorted(want_names), "names of parameters", got=names,
          want=want_names)
    coeffs = np.array([p[k] for k in names], dtype=float)
    pts = case["scale"] * rng.normal(size=(case["n_points"], len(facs)))
    f = as_scalar_func(case, func)

    def ref(s, c):
        return float(transition(case["func"], facs[0], dict(zip(names, c)),
                                {k: np.float64(v) for k, v in zip(facs, s)}, facs))

    want = np.array([ref(s, coeffs) for s in pts])
    got = [call(case["func"], f, jnp.array(s), jnp.array(coeffs)) for s in pts]
    for g in got:
        check(np.ndim(g) == 0, "output is not scalar", shape=np.shape(g))
    close("transition function", np.array(got, dtype=float), want, rtol=1e-9, atol=1e-9,
          names=names, coeffs=coeffs.tolist())
    vec = call("vectorized", jax.jit(jax.vmap(f, in_axes=(0, None))), jnp.array(pts),
               jnp.array(coeffs))
    close("vectorized transition function", vec, want, rtol=1e-9, atol=1e-9)
    # derivatives
    s = pts[0]
    gs, gc = call("gradient", jax.grad(lambda a, b: f(a, b) * 1.0, argnums=(0, 1)),
                  jnp.array(s), jnp.array(coeffs))
    check(np.isfinite(gs).all() and np.isfinite(gc).all(), "derivatives are not finite",
          states=gs, coeffs=gc)

    ds, dc = derivatives(case["func"], ref, s, coeffs, dict(zip(names, coeffs)), facs,
                         names)
    tol = 1e-6 if "ces" in case["func"] else 1e-4
    close("derivative w.r.t. states", gs, ds, rtol=tol,
          atol=tol * max(1.0, np.abs(ds).max()))
    if len(coeffs):
        close("derivative w.r.t. coefficients", gc, dc, rtol=tol,
              atol=tol * max(1.0, np.abs(dc).max()), names=names)
    return info(len(facs) > 1, [case["func"], f"factors={len(facs)}"])


@st.composite
def extreme_cases(draw):
    case = draw(cases())
    case["func"] = draw(
        st.sampled_from(["log_ces", "log_ces", "log_ces_general", "robust_translog"])
    )
    case["scale"] = draw(st.sampled_from([50.0, 1e3, 1e5]))
    case["shift"] = draw(st.sampled_from([0.0, -700.0, 3.0, 1e4]))
    return case


def run_extreme(case):
    import jax
    import jax.numpy as jnp

    jax.config.update("jax_enable_x64", True)
    tf, func, names = functions(case)
    facs, n = case["factors"], len(case["factors"])
    rng = np.random.default_rng(case["seed"])
    _, p = draw_params(case, rng)
    coeffs = np.array([p[k] for k in names], dtype=float)
    s = case["scale"] * rng.normal(size=n)
    if case["func"] == "robust_translog":
        s = s * rng.choice([1.0, 1e9, 1e300], size=n)
    want = float(transition(case["func"], facs[0], p,
                            {k: np.float64(v) for k, v in zip(facs, s)}, facs))
    got = float(call(case["func"], func, jnp.array(s), jnp.array(coeffs)))
    check(np.isfinite(got), "value is not finite", states=s.tolist(), params=p)
    close("value at extreme states", got, want, rtol=1e-9, atol=1e-7, states=s.tolist())
    gs, gc = call("gradient", jax.grad(func, argnums=(0, 1)), jnp.array(s),
                  jnp.array(coeffs))
    check(np.isfinite(gs).all(), "derivatives w.r.t. states not finite", got=gs)
    check(np.isfinite(gc).all(), "derivatives w.r.t. coefficients not finite", got=gc)
    if case["func"] == "log_ces":
        g = np.array([p[f] for f in facs])
        rel = s[g > 0]
        slack = 1e-9 * (1 + np.abs(s).max())
        check(rel.min() - slack <= got <= rel.max() + slack,
              "CES is not between smallest and largest state", got=got, states=rel)
        c = case["shift"]
        moved = float(func(jnp.array(s + c), jnp.array(coeffs)))
        close("CES is not translation equivariant", moved, got + c, rtol=1e-9, atol=1e-7)
        same = np.full(n, c)
        close("CES of equal states", float(func(jnp.array(same), jnp.array(coeffs))), c,
              rtol=1e-9, atol=1e-7)
        close("derivatives w.r.t. states are shares", float(np.sum(gs)), 1.0, rtol=1e-8)
    return info(n > 1, [case["func"], f"zeros={case['zeros']}"])


PROPS = [
    Prop("formula", cases, run_formula, quick=480, thorough=40000),
    Prop("extreme", extreme_cases, run_extreme, quick=320, thorough=30000),
]
