"""C03 Portfolio returns and measures come from weights, costs and fees."""

import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import gen, pf, ref
from harness.core import Violation, check, close, law, note

ASSUMPTIONS = [
    "VaR/DaR levels whose tail size is a whole number only up to rounding accept both neighbours",
    "ratios of a vanishing risk (below 1e-7 of the return scale) are not compared",
]


@law(pf.portfolio(), quick=1000, rule="some weight and some cost or fee non-zero, or a parameter set")
def returns(case):
    X = pf.data(case)
    snap = X.copy()
    p = pf.build(case, X)
    exp = pf.expected_returns(case)
    close(p.returns, exp, "returns", 1e-9, 1e-14)
    k = case["m"]["k"]
    w = pf.dense(case["w"], k)
    close(p.weights, w, "weights", 0, 0)
    close(p.previous_weights, pf.dense(case["pw"], k), "previous weights", 0, 0)
    cost = float(np.sum(pf.dense(case["tc"], k) * np.abs(w - pf.dense(case["pw"], k))))
    fee = float(np.sum(pf.dense(case["mf"], k) * w))
    close(p.total_cost, cost, "total cost", 1e-10, 1e-15)
    close(p.total_fee, fee, "total fee", 1e-10, 1e-15)
    if isinstance(X, pd.DataFrame):
        check(list(p.assets) == list(X.columns), "asset names")
        check(np.array_equal(p.observations, X.index.to_numpy()), "observations")
        check(X.equals(snap), "the portfolio modified X")
        for i, c in enumerate(X.columns):
            check(p.get_weight(c) == w[i], "get_weight")
    else:
        check(np.array_equal(p.observations, np.arange(len(X))), "observations")
    check(p.n_assets == k and p.n_observations == case["m"]["n"], "sizes")
    s = p.returns_df
    check(np.array_equal(s.to_numpy(), p.returns) and np.array_equal(s.index.to_numpy(), p.observations), "returns_df")
    comp = case["params"].get("compounded", False)
    close(p.cumulative_returns, ref.cumulative(exp, comp), "cumulative returns", 1e-9, 1e-12)
    close(p.drawdowns, ref.drawdowns(exp, comp), "drawdowns", 1e-7, 1e-12)
    check(np.array_equal(p.cumulative_returns_df.to_numpy(), p.cumulative_returns), "cumulative df")
    close(np.asarray(p), p.returns, "array view", 0, 0)
    for f in ("w", "pw", "tc", "mf"):
        note(f"{f} {case[f]['form']}")
    return bool(np.any(w)) and (cost != 0 or fee != 0 or bool(case["params"]))


@law(pf.portfolio(), quick=700, rule="returns are not constant")
def measures(case):
    p = pf.build(case)
    r = pf.expected_returns(case)
    bad = 0
    order = list(pf.NAMES)
    gen.rng_of(case["m"]["seed"]).shuffle(order)
    for name in order:
        ok = pf.measure_ok(name, getattr(p, name), r, case["params"])
        if ok is None:
            bad += 1
        elif not ok:
            raise Violation(
                f"{name} of the portfolio is {getattr(p, name)}, expected one of "
                f"{ref.measure(name, r, **case['params'])} with {case['params']}"
            )
    enums = pf.by_value()
    for name in order[:8]:
        a, b = p.get_measure(enums[name]), getattr(p, name)
        close(a, b, f"get_measure({name})", 1e-12, 0)
    for name, risk in ref.RATIOS.items():
        v = getattr(p, risk)
        if v != 0 and math.isfinite(v):
            close(
                getattr(p, name), (p.mean - p.risk_free_rate) / v,
                f"{name} is not the excess mean over {risk}", 1e-10,
            )
    note(f"params set: {len(case['params'])}")
    return bool(np.ptp(r) > 1e-12)


@law(
    st.fixed_dictionaries(
        {
            "p": pf.portfolio(min_n=8, max_n=30),
            "measure": gen.choice(pf.NAMES),
            "window": st.integers(3, 8),
        }
    ),
    quick=700,
    rule="returns are not constant",
)
def rolling(case):
    p = pf.build(case["p"])
    r = p.returns
    w = case["window"]
    s = p.rolling_measure(measure=pf.by_value()[case["measure"]], window=w)
    check(len(s) == len(r) and np.array_equal(s.index.to_numpy(), p.observations), "rolling index")
    check(np.all(np.isnan(s.to_numpy()[: w - 1])), "rolling warm-up must be missing")
    for i in {w - 1, len(r) - 1, (w - 1 + len(r) - 1) // 2}:
        ok = pf.measure_ok(case["measure"], s.iloc[i], r[i - w + 1 : i + 1], case["p"]["params"])
        if ok is False:
            raise Violation(
                f"rolling {case['measure']} at {i} is {s.iloc[i]}, the measure of the window is "
                f"{ref.measure(case['measure'], r[i - w + 1 : i + 1], **case['p']['params'])}"
            )
    note(case["measure"])
    return bool(np.ptp(r) > 1e-12)


@law(pf.portfolio(min_k=2), quick=300, rule="returns are not constant")
def summary(case):
    if not any(case["w"]["v"]):
        case["w"]["v"][0] = 0.5
    p = pf.build(case)
    raw, txt = p.summary(formatted=False), p.summary(formatted=True)
    check(list(raw.index) == list(txt.index), "summary keys depend on formatting")
    for m in pf.measures():
        keys = [k for k in raw.index if k == str(m) or k.startswith(f"{m!s} at ")]
        check(len(keys) == 1, f"summary has {len(keys)} entries for {m}")
        base = m.linked_risk_measure if m.is_ratio else m
        beta = getattr(p, f"{base.value}_beta", None)
        if beta is not None:
            check(keys[0] == f"{m!s} at {beta:.0%}", "summary key must show the level", key=keys[0])
        close(raw[keys[0]], getattr(p, m.value), f"summary of {m}", 1e-12, 0)
        v = getattr(p, m.value)
        t = txt[keys[0]]
        check(isinstance(t, str), "formatted summary must be text")
        if np.isfinite(v) and abs(v) < 1e9:
            num = float(t.rstrip("%")) / (100 if t.endswith("%") else 1)
            dec = len(t.rstrip("%").split(".")[1]) if "." in t else 0
            unit = 10.0**-dec / (100 if t.endswith("%") else 1)
            check(abs(num - v) <= 0.51 * unit, f"formatted {m}", text=t, value=v)
    close(raw["Effective Number of Assets"], p.effective_number_assets, "effective number", 1e-12)
    check(raw["Assets Number"] == p.n_assets, "assets number")
    df = p.measures_df
    check(len(set(df.index)) == len(df), "measures_df lists a measure once")
    from skfolio import PerfMeasure, RatioMeasure, RiskMeasure

    for kind in (PerfMeasure, RiskMeasure, RatioMeasure):
        check({e.value for e in kind} <= set(df.index), "measures_df lists every measure")
    for name in df.index:
        close(df.loc[name, "measures"], getattr(p, name), f"measures_df {name}", 1e-12, 0)
    return bool(np.ptp(p.returns) > 1e-12)
