"""C02 Risk measures obey the order, scale and shift laws users rely on."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import check, close, law, leq, note
import skfolio.measures as mt

ASSUMPTIONS = ["orderings are checked up to 1e-7 of the range of the series"]

betas = st.one_of(gen.dyadic(0.0, 1 - 2**-7, 7), gen.grid(0.01, 0.99, 0.01))

DISPERSION = {
    "variance": 2, "semi_variance": 2, "standard_deviation": 1, "semi_deviation": 1,
    "mean_absolute_deviation": 1, "first_lower_partial_moment": 1,
    "fourth_central_moment": 4, "fourth_lower_partial_moment": 4,
    "third_central_moment": 3, "gini_mean_difference": 1,
}  # fmt: skip


def _tail(r, b):
    return {
        "value_at_risk": mt.value_at_risk(r, b),
        "cvar": mt.cvar(r, b),
        "evar": mt.evar(r, b),
        "worst_realization": mt.worst_realization(r),
    }


def _dd(r, b):
    d = mt.get_drawdowns(r)
    return {
        "drawdown_at_risk": mt.drawdown_at_risk(d, b),
        "cdar": mt.cdar(d, b),
        "edar": mt.edar(d, b),
        "max_drawdown": mt.max_drawdown(d),
        "average_drawdown": mt.average_drawdown(d),
        "ulcer_index": mt.ulcer_index(d),
    }


@law(
    st.fixed_dictionaries({"r": gen.series(3, 50), "beta": betas, "seed": gen.seeds}),
    quick=800,
    rule="the permutation changes the series",
)
def order(case):
    r = gen.build_series(case["r"])
    q = gen.rng_of(case["seed"]).permutation(r)
    s = max(float(np.max(np.abs(r))), 1e-30)
    for f, p in DISPERSION.items():
        close(getattr(mt, f)(q), getattr(mt, f)(r), f"{f} depends on order", 1e-9, 1e-12 * s**p)
    a, b = _tail(r, case["beta"]), _tail(q, case["beta"])
    for k in a:
        close(b[k], a[k], f"{k} depends on order", 1e-9, 1e-9 * s)
    close(mt.mean(q), mt.mean(r), "mean depends on order", 1e-9, 1e-13 * s)
    th = max(s, 0.01)
    close(
        mt.entropic_risk_measure(q, th, case["beta"]),
        mt.entropic_risk_measure(r, th, case["beta"]),
        "entropic risk depends on order", 1e-9, 1e-12,
    )
    return not np.array_equal(r, q)


@law(
    st.fixed_dictionaries(
        {"r": gen.series(3, 50), "beta": betas, "c": gen.choice([0.001, 0.25, 0.5, 2.0, 3.7, 64.0])}
    ),
    quick=800,
    rule="series is not constant",
)
def scale(case):
    r = gen.build_series(case["r"])
    c, b = case["c"], case["beta"]
    s = max(float(np.max(np.abs(r))), 1e-30)
    for f, p in DISPERSION.items():
        close(
            getattr(mt, f)(c * r), c**p * getattr(mt, f)(r),
            f"{f} is not homogeneous of degree {p}", 1e-8, 1e-12 * (c * s) ** p,
        )
    one, two = {**_tail(r, b), **_dd(r, b)}, {**_tail(c * r, b), **_dd(c * r, b)}
    s = s * len(r)
    for k in one:
        tol = 1e-6 if k in ("evar", "edar") else 1e-10
        close(two[k], c * one[k], f"{k} is not positively homogeneous", 1e-8, tol * c * s)
    close(mt.mean(c * r), c * mt.mean(r), "mean", 1e-9, 1e-13 * c * s)
    sd = mt.standard_deviation(r)
    if sd > 1e-6 * s:
        close(mt.skew(c * r), mt.skew(r), "skew changes with units", 1e-6, 1e-8)
        close(mt.kurtosis(c * r), mt.kurtosis(r), "kurtosis changes with units", 1e-6, 1e-8)
    return bool(np.ptp(r) > 0)


@law(
    st.fixed_dictionaries({"r": gen.series(3, 50), "beta": betas, "a": gen.grid(-0.2, 0.2, 0.01)}),
    quick=800,
    rule="shift is non-zero and series not constant",
)
def shift(case):
    r = gen.build_series(case["r"])
    a, b = case["a"], case["beta"]
    s = float(np.max(np.abs(r))) + abs(a)
    s = max(s, 1e-30)
    for f, p in DISPERSION.items():
        if f in ("standard_deviation", "semi_deviation"):
            tol = 1e-9 * s
        else:
            tol = 1e-11 * s**p
        close(getattr(mt, f)(r + a), getattr(mt, f)(r), f"{f} is not shift invariant", 1e-7, tol)
    one, two = _tail(r, b), _tail(r + a, b)
    for k in one:
        close(two[k], one[k] - a, f"{k} is not translation equivariant", 1e-8,
              1e-6 * s if k == "evar" else 1e-11 * s)  # fmt: skip
    close(mt.mean(r + a), mt.mean(r) + a, "mean", 1e-9, 1e-12 * s)
    th = max(s, 0.01)
    close(
        mt.entropic_risk_measure(r + a, th, b), mt.entropic_risk_measure(r, th, b) - a,
        "entropic risk is not translation equivariant", 1e-9, 1e-11,
    )
    return bool(a != 0 and np.ptp(r) > 0)


@law(
    st.fixed_dictionaries(
        {"r": gen.series(2, 60), "b1": betas, "b2": betas, "comp": st.booleans()}
    ),
    quick=1500,
    rule="two different levels and a non-constant series",
)
def ladder(case):
    r = gen.build_series(case["r"])
    lo, hi = sorted([case["b1"], case["b2"]])
    d = mt.get_drawdowns(r, compounded=case["comp"])
    tol = 1e-7 * max(float(np.ptp(r)), 1e-30) + 1e-14
    told = 1e-7 * max(float(np.ptp(d)), 1e-30) + 1e-14
    prev = {}
    for b in (lo, hi):
        t = _tail(r, b)
        leq(t["value_at_risk"], t["cvar"], tol, "VaR <= CVaR")
        leq(t["cvar"], t["evar"], tol, "CVaR <= EVaR")
        leq(t["evar"], t["worst_realization"], tol, "EVaR <= worst realization")
        leq(-mt.mean(r), t["cvar"], tol, "expected loss <= CVaR")
        dar, cdar, edar = mt.drawdown_at_risk(d, b), mt.cdar(d, b), mt.edar(d, b)
        mdd, add, ui = mt.max_drawdown(d), mt.average_drawdown(d), mt.ulcer_index(d)
        leq(dar, cdar, told, "DaR <= CDaR")
        leq(cdar, edar, told, "CDaR <= EDaR")
        leq(edar, mdd, told, "EDaR <= max drawdown")
        leq(add, cdar, told, "average drawdown <= CDaR")
        leq(add, ui, told, "average drawdown <= ulcer index")
        leq(ui, mdd, told, "ulcer index <= max drawdown")
        leq(0.0, add, told, "drawdowns are losses")
        cur = {**t, "dar": dar, "cdar": cdar, "edar": edar}
        for k, v in prev.items():
            leq(v, cur[k], tol + told, f"{k} is not monotone in the confidence level")
        prev = cur
    leq(mt.semi_variance(r), mt.variance(r), tol * tol + 1e-18, "semi variance <= variance")
    # mean absolute deviation is twice the first lower partial moment around the mean
    close(
        mt.mean_absolute_deviation(r), 2 * mt.first_lower_partial_moment(r),
        "MAD = 2 FLPM", 1e-8, 1e-13 * max(1e-30, float(np.max(np.abs(r)))),
    )
    note("compounded" if case["comp"] else "simple")
    return bool(lo != hi and np.ptp(r) > 0)


@law(
    st.fixed_dictionaries(
        {
            "m": gen.mat(3, 50, 2, 2, scales=(1e-4, 0.01, 0.1)),
            "beta": betas,
            "w": gen.grid(-1, 2, 0.05),
        }
    ),
    quick=800,
    rule="both series non-constant",
)
def subadditive(case):
    x = gen.build(case["m"])
    a, b = np.ascontiguousarray(x[:, 0]), np.ascontiguousarray(x[:, 1]) * case["w"]
    t = a + b
    s = float(np.max(np.abs(x))) * 2 + 1e-30
    for k in ("standard_deviation", "semi_deviation", "mean_absolute_deviation",
              "first_lower_partial_moment", "gini_mean_difference", "worst_realization"):  # fmt: skip
        f = getattr(mt, k)
        leq(f(t), f(a) + f(b), 1e-10 * s, f"{k} is not subadditive")
    be = case["beta"]
    leq(mt.cvar(t, be), mt.cvar(a, be) + mt.cvar(b, be), 1e-10 * s * 128, "CVaR is not subadditive")
    leq(mt.evar(t, be), mt.evar(a, be) + mt.evar(b, be), 1e-6 * s, "EVaR is not subadditive")
    da, db, dt = mt.get_drawdowns(a), mt.get_drawdowns(b), mt.get_drawdowns(t)
    s *= len(a)
    for name in ("max_drawdown", "average_drawdown", "ulcer_index"):
        f = getattr(mt, name)
        leq(f(dt), f(da) + f(db), 1e-10 * s, f"{name} is not subadditive")
    leq(mt.cdar(dt, be), mt.cdar(da, be) + mt.cdar(db, be), 1e-8 * s, "CDaR is not subadditive")
    leq(mt.edar(dt, be), mt.edar(da, be) + mt.edar(db, be), 1e-6 * s, "EDaR is not subadditive")
    check(True)
    return bool(np.ptp(a) > 0 and np.ptp(b) > 0)
