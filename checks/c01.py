"""C01 Every measure equals its mathematical definition."""

import math

import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import check, close, law, note
import skfolio.measures as mt

ASSUMPTIONS = [
    "returns above -90%, at most 80 observations, |r| <= 2",
    "VaR/DaR: when (1-beta)*n is a whole number only up to rounding, both neighbouring order statistics are accepted; with exactly representable levels the value is unique",
    "EVaR/EDaR are compared to 1e-6 of the range of the series (1-D minimisation)",
]

POW = {
    "variance": 2, "semi_variance": 2, "fourth_central_moment": 4,
    "fourth_lower_partial_moment": 4, "third_central_moment": 3,
}  # fmt: skip


def _cmp(name, got, cands, scale, rtol=1e-9):
    p = POW.get(name, 1)
    atol = 2e-13 * scale**p
    check(
        any(np.isclose(got, c, rtol=rtol, atol=atol) for c in cands),
        f"{name} differs from its definition", got=got, expected=cands,
    )


mar_s = st.one_of(st.none(), gen.grid(-0.05, 0.05, 0.005))


@law(
    st.fixed_dictionaries({"r": gen.series(2, 60), "mar": mar_s}),
    quick=1200,
    rule="series is not constant",
)
def moments(case):
    r = gen.build_series(case["r"])
    s = max(float(np.max(np.abs(r))), abs(case["mar"] or 0), 1e-30)
    orig = r.copy()
    for name in ["mean", "variance", "standard_deviation", "third_central_moment",
                 "fourth_central_moment", "worst_realization", "gini_mean_difference"]:  # fmt: skip
        rt = 1e-9
        if name == "standard_deviation":
            v = ref.standard_deviation(r)
            close(mt.standard_deviation(r), v, "standard_deviation", 1e-9, 1e-13 * s + 1e-7 * 0)
            continue
        _cmp(name, getattr(mt, name)(r), [getattr(ref, name)(r)], s, rt)
    for name in ["mean_absolute_deviation", "first_lower_partial_moment", "semi_variance",
                 "fourth_lower_partial_moment"]:  # fmt: skip
        _cmp(name, getattr(mt, name)(r), [getattr(ref, name)(r)], s)
        if case["mar"] is not None:
            got = getattr(mt, name)(r, min_acceptable_return=case["mar"])
            _cmp(name, got, [getattr(ref, name)(r, case["mar"])], s)
    for kw in [{}] + ([{"min_acceptable_return": case["mar"]}] if case["mar"] is not None else []):
        close(
            mt.semi_deviation(r, **kw),
            ref.semi_deviation(r, *kw.values()),
            "semi_deviation", 1e-9, 1e-13 * s,
        )
    sd = ref.standard_deviation(r)
    if sd > 1e-6 * s:
        close(mt.skew(r), ref.skew(r), "skew", 1e-6, 1e-8)
        close(mt.kurtosis(r), ref.kurtosis(r), "kurtosis", 1e-6, 1e-8)
        note("skewed")
    check(np.array_equal(orig, r), "a measure modified its input")
    if case["mar"] is not None:
        note("mar")
    return bool(np.ptp(r) > 0)


betas = st.one_of(
    gen.dyadic(0.0, 1 - 2**-6, 6),
    gen.dyadic(0.0, 1 - 2**-10, 10),
    gen.grid(0.01, 0.99, 0.01),
    gen.choice([0.9, 0.95, 0.975, 0.99, 0.999]),
)


@law(
    st.fixed_dictionaries(
        {"r": gen.series(2, 70), "beta": betas, "theta": gen.choice([0.003, 0.01, 0.1, 1, 1.0, 10.0])}
    ),
    quick=1200,
    rule="at least two distinct values in the tail",
)
def tails(case):
    r = gen.build_series(case["r"])
    b = case["beta"]
    s = max(float(np.max(np.abs(r))), 1e-30)
    orig = r.copy()
    _cmp("value_at_risk", mt.value_at_risk(r, b), ref.var_candidates(r, b), s)
    _cmp("cvar", mt.cvar(r, b), [ref.cvar(r, b)], s * 20)
    th = max(case["theta"], s / 300)
    got = mt.entropic_risk_measure(r, theta=th, beta=b)
    close(got, ref.entropic_risk_measure(r, th, b), "entropic_risk_measure", 1e-9, 1e-12 * th)
    rg = float(np.ptp(r))
    close(mt.evar(r, b), ref.evar(r, b), "evar", 1e-9, 1e-6 * rg + 1e-12 * s)
    check(np.array_equal(orig, r), "a measure modified its input")
    n = len(r)
    k = (1 - b) * n
    if k == int(k) and ref.var_candidates(r, b) and len(ref.var_candidates(r, b)) == 1:
        note("whole tail")
    elif k < 1:
        note("tail below one observation")
    else:
        note("fractional tail")
    tail = np.sort(r)[: max(2, math.ceil(k))]
    return bool(np.ptp(tail) > 0)


@law(
    st.fixed_dictionaries({"r": gen.series(2, 60), "beta": betas, "comp": st.booleans()}),
    quick=1000,
    rule="some drawdown is non-zero",
)
def drawdowns(case):
    r = gen.build_series(case["r"])
    comp, b = case["comp"], case["beta"]
    s = max(float(np.max(np.abs(r))), 1e-30) * len(r)
    cum = mt.get_cumulative_returns(r, compounded=comp)
    close(cum, ref.cumulative(r, comp), "cumulative returns", 1e-9, 1e-13 * s)
    dd = mt.get_drawdowns(r, compounded=comp)
    rd = ref.drawdowns(r, comp)
    s = s if not comp else 1.0
    close(dd, rd, "drawdowns", 1e-9, 1e-12 * s)
    d = np.asarray(rd)
    _cmp("max_drawdown", mt.max_drawdown(d), [ref.max_drawdown(rd)], s)
    _cmp("average_drawdown", mt.average_drawdown(d), [ref.average_drawdown(rd)], s)
    _cmp("ulcer_index", mt.ulcer_index(d), [ref.ulcer_index(rd)], s)
    _cmp("drawdown_at_risk", mt.drawdown_at_risk(d, b), ref.var_candidates(rd, b), s)
    _cmp("cdar", mt.cdar(d, b), [ref.cvar(rd, b)], s * 20)
    close(mt.edar(d, b), ref.evar(rd, b), "edar", 1e-9, 1e-6 * float(np.ptp(d)) + 1e-12 * s)
    note("compounded" if comp else "simple")
    return min(rd) < 0


@law(
    st.fixed_dictionaries(
        {"n": st.integers(2, 80), "w": st.lists(st.integers(-20, 20), min_size=1, max_size=12)}
    ),
    quick=300,
    rule="some weight is non-zero",
)
def weights_helpers(case):
    n = case["n"]
    w = mt.owa_gmd_weights(n)
    # GMD of any sorted series = w . sorted, so w must be the pairwise coefficients
    exp = [2 * (2 * i - n - 1) / (n * (n - 1)) for i in range(1, n + 1)]
    close(w, exp, "owa gmd weights", 1e-12, 1e-15)
    v = np.array(case["w"], dtype=float) / 10
    if not np.any(v):
        return False
    close(
        mt.effective_number_assets(v),
        1 / math.fsum(x * x for x in v),
        "effective number of assets", 1e-12,
    )


@law(
    st.fixed_dictionaries({"m": gen.mat(2, 30, 1, 5), "comp": st.booleans()}),
    quick=300,
    rule="more than one column",
)
def columns(case):
    """Measures that accept a 2-D array act column by column."""
    x = gen.build(case["m"])
    if case["m"]["k"] == 1:
        return False
    cols = [np.ascontiguousarray(x[:, j]) for j in range(x.shape[1])]
    close(
        mt.owa_gmd_weights(len(x)) @ np.sort(x, axis=0),
        [ref.gini_mean_difference(c) for c in cols],
        "gini per column", 1e-9, 1e-14,
    )
    for name in ["mean", "variance", "semi_variance", "third_central_moment", "fourth_central_moment"]:
        for c in cols:
            close(getattr(mt, name)(c), getattr(ref, name)(c), name, 1e-9, 1e-16)
