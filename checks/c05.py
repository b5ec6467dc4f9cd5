"""C05 Portfolio reads never go stale, whatever the history."""

import copy
import pickle

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import gen, pf
from harness.core import Violation, check, law, must_raise, note

ASSUMPTIONS = ["at most 14 operations per history, at most 3 live copies"]

READS = pf.NAMES + [
    "fitness", "cumulative_returns", "drawdowns", "returns", "returns_df", "cumulative_returns_df",
    "composition", "summary", "rolling_measure", "measures_df", "name", "tag",
]  # fmt: skip
LOCKED = ["returns", "observations", "X", "weights", "previous_weights", "transaction_costs",
          "management_fees", "assets", "n_assets", "total_cost", "total_fee"]  # fmt: skip


@st.composite
def _ops(draw):
    vals = pf.param_values()
    ops = []
    for _ in range(draw(st.integers(3, 14))):
        kind = draw(gen.choice(["read", "read", "all", "set", "set", "copy", "pickle", "forbid", "fitness", "meta", "deep"]))
        who = draw(st.integers(0, 2))
        if kind == "read":
            ops.append([kind, who, draw(gen.choice(READS))])
        elif kind == "set":
            k = draw(gen.choice(sorted(vals)))
            ops.append([kind, who, k, draw(vals[k])])
        elif kind == "forbid":
            ops.append([kind, who, draw(gen.choice(LOCKED))])
        elif kind == "fitness":
            ops.append([kind, who, draw(st.lists(gen.choice(pf.NAMES), min_size=1, max_size=4, unique=True))])
        elif kind == "meta":
            ops.append([kind, who, draw(gen.choice(["name", "tag"])), draw(gen.choice(["a", "b c"]))])
        else:
            ops.append([kind, who])
    return ops


@st.composite
def _case(draw):
    return {
        "p": draw(pf.portfolio(min_n=6, max_n=20, min_k=1, max_k=4)),
        "multi": draw(st.booleans()),
        "cut": draw(st.integers(1, 5)),
        "ops": draw(_ops()),
    }


def _make(case, X, params):
    from skfolio import MultiPeriodPortfolio

    params = dict(params)
    if "fitness_measures" in params:
        params["fitness_measures"] = [pf.by_value()[n] for n in params["fitness_measures"]]
    base = {**case["p"], "params": {}}
    if not case["multi"]:
        return pf.build(base, X, **params)
    cut = min(case["cut"], len(X) - 1)
    parts = [X.iloc[:cut], X.iloc[cut:]]
    return MultiPeriodPortfolio(
        portfolios=[pf.build(base, q, name=f"part{i}") for i, q in enumerate(parts)], **params
    )


def _read(p, what):
    if what == "summary":
        return p.summary(formatted=False)
    if what == "rolling_measure":
        return p.rolling_measure(window=3)
    return getattr(p, what)


def _equal(a, b):
    if isinstance(a, pd.DataFrame | pd.Series):
        if not (type(a) is type(b) and a.index.equals(b.index) and a.shape == b.shape):
            return False
        return bool(np.array_equal(a.to_numpy(dtype=float), b.to_numpy(dtype=float), equal_nan=True))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    if isinstance(a, str) or a is None:
        return a == b
    return bool(a == b or (np.isnan(a) and np.isnan(b)))


@law(_case(), quick=2000, rule="a value was read, a parameter changed afterwards, and a value read again")
def history(case):
    X = gen.frame(case["p"]["m"])
    params0 = {**case["p"]["params"], "name": "p", "tag": "t"}
    live = [(_make(case, X, params0), dict(params0))]
    seen_read = changed = reread = False
    for op in case["ops"]:
        i = op[1] % len(live)
        p, par = live[i]
        match op[0]:
            case "read":
                fresh = _make(case, X, par)
                got, exp = _read(p, op[2]), _read(fresh, op[2])
                if not _equal(got, exp):
                    raise Violation(f"stale or wrong {op[2]}: read {got!r}, a fresh portfolio gives {exp!r}")
                reread = reread or (seen_read and changed)
                seen_read = True
            case "all":
                # fill every cache
                for what in READS:
                    _read(p, what)
                seen_read = True
            case "set":
                setattr(p, op[2], op[3])
                par[op[2]] = op[3]
                changed = True
            case "meta":
                setattr(p, op[2], op[3])
                par[op[2]] = op[3]
            case "fitness":
                p.fitness_measures = [pf.by_value()[n] for n in op[2]]
                par["fitness_measures"] = op[2]
                changed = True
                for bad in ([], "mean", ["mean"]):
                    must_raise(lambda b=bad: setattr(p, "fitness_measures", b), TypeError, "invalid fitness measures")
            case "copy" | "pickle" | "deep":
                q = {
                    "copy": lambda: p.copy(),
                    "pickle": lambda: pickle.loads(pickle.dumps(p)),
                    "deep": lambda: copy.copy(p),
                }[op[0]]()
                if len(live) < 3:
                    live.append((q, dict(par)))
                else:
                    live[i] = (q, dict(par))
            case "forbid":
                if op[2] not in ("returns", "observations") and case["multi"]:
                    continue
                before = _read(p, op[2])
                must_raise(lambda: setattr(p, op[2], np.zeros(3)), AttributeError, f"{op[2]} is read-only")
                check(getattr(p, op[2]) is before, "a refused write changed the portfolio")
        note(op[0])
    # every live object ends consistent
    for p, par in live:
        fresh = _make(case, X, par)
        for what in READS:
            if not _equal(_read(p, what), _read(fresh, what)):
                raise Violation(f"stale {what} after the history: {_read(p, what)!r} vs fresh {_read(fresh, what)!r}")
        for k, v in par.items():
            if k != "fitness_measures":
                check(getattr(p, k) == v, f"parameter {k}")
    note("multi" if case["multi"] else "single")
    return bool(seen_read and changed)
