"""Shared vocabulary of the checks: Prop, Violation, guarded calls."""
import contextlib
import traceback
import warnings
from dataclasses import dataclass, field
from typing import Any, Callable


class Violation(AssertionError):
    """The code under test broke the property for the current case."""


class HarnessError(Exception):
    """The machinery itself is wrong; never reported as a violation."""


@dataclass
class Prop:
    """One executable statement.

    strategy() returns a Hypothesis strategy for JSON-serialisable cases.
    run(case) raises Violation or returns {"nontrivial": bool, "labels": [...]}.
    """

    name: str
    strategy: Callable[[], Any]
    run: Callable[[Any], dict]
    quick: int
    thorough: int
    rule: str = ""
    tags: list = field(default_factory=list)


def info(nontrivial=True, labels=()):
    return {"nontrivial": bool(nontrivial), "labels": [str(x) for x in labels]}


def fail(msg, **ctx):
    extra = "".join(f"\n  {k} = {v}" for k, v in ctx.items())
    raise Violation(f"{msg}{extra}")


def check(cond, msg, **ctx):
    if not cond:
        fail(msg, **ctx)


def call(what, func, *args, **kwargs):
    """Call the code under test on valid input; any exception is a violation."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return func(*args, **kwargs)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:  # noqa: BLE001
        tb = traceback.format_exc(limit=-6)
        raise Violation(f"{what} raised on valid input: {type(e).__name__}: {e}\n{tb}")


def call_warn(what, func, *args, **kwargs):
    """Like call, but also return the list of warning messages."""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            out = func(*args, **kwargs)
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:  # noqa: BLE001
            tb = traceback.format_exc(limit=-6)
            raise Violation(
                f"{what} raised on valid input: {type(e).__name__}: {e}\n{tb}"
            )
    return out, [str(w.message) for w in rec]


def rejects(what, types, func, *args, **kwargs):
    """Require that the call raises one of types; return the exception."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            func(*args, **kwargs)
    except types as e:
        return e
    except Exception as e:  # noqa: BLE001
        raise Violation(
            f"{what}: expected {types}, got {type(e).__name__}: {e}\n"
            + traceback.format_exc(limit=-4)
        )
    raise Violation(f"{what}: invalid input was accepted silently")


def close(what, got, want, rtol=1e-7, atol=1e-9, equal_nan=False, **ctx):
    import numpy as np

    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        fail(f"{what}: shape differs", got=got.shape, want=want.shape, **ctx)
    ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=equal_nan)
    if not ok.all():
        bad = np.argwhere(~ok)[:5].tolist()
        pairs = [
            (tuple(b), float(got[tuple(b)]), float(want[tuple(b)])) for b in bad
        ]
        fail(f"{what}: values differ at (index, got, want)", where=pairs, **ctx)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield
