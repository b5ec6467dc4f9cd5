"""Laws, oracles' helpers and outcome classification."""

import json
import math
import traceback
from collections import Counter
from dataclasses import dataclass, field

import numpy as np

REPO_SRC = "/repo/src/skfolio"


class Violation(AssertionError):
    """An oracle rejected what the code under test did."""


class HarnessError(Exception):
    """The check itself is broken (never reported as a violation)."""


@dataclass
class Law:
    name: str
    strategy: object
    fn: object
    quick: int
    thorough: int
    rule: str
    shards: int | None = None


@dataclass
class Stats:
    evaluations: int = 0
    rejected: int = 0
    skipped: int = 0
    trivial: int = 0
    distinct: set = field(default_factory=set)
    notes: Counter = field(default_factory=Counter)
    samples: list = field(default_factory=list)


CURRENT = Stats()
LAWS: dict[str, Law] = {}


def law(strategy, *, quick, thorough=None, rule, shards=None):
    """Register a law. ``fn(case)`` returns False when the case was trivial."""

    def deco(fn):
        LAWS[fn.__name__] = Law(
            fn.__name__,
            strategy,
            fn,
            quick,
            thorough if thorough is not None else quick * 8,
            rule,
            shards,
        )
        return fn

    return deco


def note(*labels):
    for label in labels:
        CURRENT.notes[str(label)] += 1


def check(cond, msg="oracle failed", **kw):
    if not bool(cond):
        if kw:
            msg = msg + " | " + ", ".join(f"{k}={_short(v)}" for k, v in kw.items())
        raise Violation(msg)


def _short(v, n=400):
    try:
        if isinstance(v, np.ndarray):
            with np.printoptions(precision=12, threshold=40):
                v = repr(v)
    except Exception:
        pass
    s = str(v)
    return s if len(s) <= n else s[:n] + "..."


def close(a, b, msg="values differ", rtol=1e-9, atol=1e-12, **kw):
    """Numerical equality, NaN equals NaN and infinities must match."""
    a_, b_ = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a_.shape != b_.shape:
        raise Violation(f"{msg} | shapes {a_.shape} vs {b_.shape}")
    ok = np.isclose(a_, b_, rtol=rtol, atol=atol, equal_nan=True)
    if not np.all(ok):
        raise Violation(
            f"{msg} | got={_short(a_)} expected={_short(b_)} rtol={rtol} atol={atol}"
            + "".join(f" {k}={_short(v)}" for k, v in kw.items())
        )


def leq(a, b, tol, msg):
    if not (np.all(np.asarray(a) <= np.asarray(b) + tol)):
        raise Violation(f"{msg} | {_short(a)} <= {_short(b)} (tol {tol}) is false")


def must_raise(fn, exc=Exception, msg="an error was expected"):
    try:
        out = fn()
    except exc as e:
        return e
    raise Violation(f"{msg} | no {exc} raised, returned {_short(out)}")


def in_library(exc):
    for fr in traceback.extract_tb(exc.__traceback__):
        if fr.filename.startswith(REPO_SRC):
            return True
    return False


def classify(exc):
    """'violation' or 'error' for an exception escaping from a law."""
    if isinstance(exc, Violation):
        return "violation"
    if isinstance(exc, HarnessError | ImportError | MemoryError):
        return "error"
    if in_library(exc):
        return "violation"
    if isinstance(exc, NameError):
        return "error"
    if isinstance(
        exc,
        ValueError
        | TypeError
        | KeyError
        | IndexError
        | ArithmeticError
        | np.linalg.LinAlgError
        | AttributeError,
    ):
        # the oracle could not even read the result: every case of the same form is
        # readable when the property holds
        return "violation"
    return "error"


def canonical(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, tuple):
        return list(o)
    raise TypeError(f"case is not JSON-able: {type(o)}")


def roundtrip(case):
    """The law always sees the JSON form of the case, so replays are faithful."""
    return json.loads(canonical(case))


def isfinite(x):
    return isinstance(x, float | int | np.generic) and math.isfinite(x)
