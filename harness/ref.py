"""Reference implementations written from the definitions, not from the library."""

import math

import numpy as np
import scipy.optimize as sco


def mean(r):
    return math.fsum(r) / len(r)


def _dev(r, mar=None):
    m = mean(r) if mar is None else mar
    return [x - m for x in r]


def mean_absolute_deviation(r, mar=None):
    return math.fsum(abs(d) for d in _dev(r, mar)) / len(r)


def first_lower_partial_moment(r, mar=None):
    return math.fsum(max(-d, 0.0) for d in _dev(r, mar)) / len(r)


def variance(r):
    return math.fsum(d * d for d in _dev(r)) / (len(r) - 1)


def semi_variance(r, mar=None):
    return math.fsum(d * d for d in _dev(r, mar) if d < 0) / (len(r) - 1)


def standard_deviation(r):
    return math.sqrt(variance(r))


def semi_deviation(r, mar=None):
    return math.sqrt(semi_variance(r, mar))


def third_central_moment(r):
    return math.fsum(d**3 for d in _dev(r)) / len(r)


def fourth_central_moment(r):
    return math.fsum(d**4 for d in _dev(r)) / len(r)


def skew(r):
    return third_central_moment(r) / standard_deviation(r) ** 3


def kurtosis(r):
    return fourth_central_moment(r) / standard_deviation(r) ** 4


def fourth_lower_partial_moment(r, mar=None):
    return math.fsum(d**4 for d in _dev(r, mar) if d < 0) / len(r)


def worst_realization(r):
    return max(-x for x in r)


def var_candidates(r, beta):
    """Admissible values of the VaR: several only if k is not exactly an integer.

    The VaR is the loss at the smallest j such that j/n >= 1-beta (at least the
    worst one). When (1-beta)*n is within rounding of an integer without being it,
    both neighbours are the definition at an indistinguishable confidence level.
    """
    losses = sorted((-x for x in r), reverse=True)
    n = len(r)
    k = (1 - beta) * n
    idx = {min(n - 1, max(0, math.ceil(k) - 1))}
    near = round(k)
    exact = float(1 - beta) * 2**20 == int(float(1 - beta) * 2**20)
    if not exact and abs(k - near) < 1e-9 * max(1, n):
        idx |= {min(n - 1, max(0, near - 1)), min(n - 1, max(0, near))}
    return [losses[i] for i in sorted(idx)]


def cvar(r, beta):
    """min_v v + 1/((1-beta) n) sum max(loss - v, 0), solved at its kinks."""
    losses = np.array([-x for x in r], dtype=float)
    v = np.unique(losses)
    vals = v + np.maximum(losses[None, :] - v[:, None], 0).sum(axis=1) / (
        (1 - beta) * len(losses)
    )
    return float(vals.min())


def entropic_risk_measure(r, theta, beta):
    z = [-x / theta for x in r]
    m = max(z)
    return theta * (m + math.log(math.fsum(math.exp(x - m) for x in z) / len(r) / (1 - beta)))


def evar(r, beta):
    """inf over theta of the entropic risk measure (dense scan + bounded search)."""
    r = np.asarray(r, dtype=float)
    worst = float(np.max(-r))
    rg = float(np.ptp(r))
    if rg == 0:
        return worst

    def f(lt):
        th = math.exp(lt) * rg
        return worst + th * (
            math.log(float(np.mean(np.exp((-r - worst) / th)))) - math.log(1 - beta)
        )

    g = np.linspace(-14, 14, 113)
    v = np.array([f(x) for x in g])
    i = int(np.argmin(v))
    lo, hi = g[max(i - 1, 0)], g[min(i + 1, len(g) - 1)]
    # golden section: independent of the library's optimizer
    phi = (math.sqrt(5) - 1) / 2
    a, b = hi - phi * (hi - lo), lo + phi * (hi - lo)
    fa, fb = f(a), f(b)
    best = min(v[i], worst, fa, fb)
    for _ in range(70):
        if fa < fb:
            hi, b, fb = b, a, fa
            a = hi - phi * (hi - lo)
            fa = f(a)
        else:
            lo, a, fa = a, b, fb
            b = lo + phi * (hi - lo)
            fb = f(b)
        best = min(best, fa, fb)
    return best


def cumulative(r, compounded=False):
    out, acc = [], 1000.0 if compounded else 0.0
    for x in r:
        acc = acc * (1 + x) if compounded else acc + x
        out.append(acc)
    return out


def drawdowns(r, compounded=False):
    out, peak = [], -math.inf
    for c in cumulative(r, compounded):
        peak = max(peak, c)
        out.append(c / peak - 1 if compounded else c - peak)
    return out


def max_drawdown(d):
    return max(-x for x in d)


def average_drawdown(d):
    return math.fsum(-x for x in d) / len(d)


def ulcer_index(d):
    return math.sqrt(math.fsum(x * x for x in d) / len(d))


def gini_mean_difference(r):
    n = len(r)
    a = np.asarray(r, dtype=float)
    return float(np.abs(a[:, None] - a[None, :]).sum() / (n * (n - 1)))


# ---------------------------------------------------------------- by name, for portfolios
LOCAL_BETA = {
    "value_at_risk": "value_at_risk_beta",
    "cvar": "cvar_beta",
    "evar": "evar_beta",
    "drawdown_at_risk": "drawdown_at_risk_beta",
    "cdar": "cdar_beta",
    "edar": "edar_beta",
}
MAR = {
    "mean_absolute_deviation",
    "first_lower_partial_moment",
    "semi_variance",
    "semi_deviation",
    "fourth_lower_partial_moment",
}
DD = {"max_drawdown", "average_drawdown", "cdar", "edar", "ulcer_index", "drawdown_at_risk"}
ANNUAL = {
    "annualized_mean": ("mean", 1.0),
    "annualized_variance": ("variance", 1.0),
    "annualized_semi_variance": ("semi_variance", 1.0),
    "annualized_standard_deviation": ("standard_deviation", 0.5),
    "annualized_semi_deviation": ("semi_deviation", 0.5),
}
RISKS = [
    "mean_absolute_deviation",
    "first_lower_partial_moment",
    "variance",
    "standard_deviation",
    "semi_variance",
    "semi_deviation",
    "fourth_central_moment",
    "fourth_lower_partial_moment",
    "worst_realization",
    "value_at_risk",
    "cvar",
    "entropic_risk_measure",
    "evar",
    "max_drawdown",
    "average_drawdown",
    "drawdown_at_risk",
    "cdar",
    "edar",
    "ulcer_index",
    "gini_mean_difference",
]
RATIOS = {
    "sharpe_ratio": "standard_deviation",
    "sortino_ratio": "semi_deviation",
    "mean_absolute_deviation_ratio": "mean_absolute_deviation",
    "first_lower_partial_moment_ratio": "first_lower_partial_moment",
    "value_at_risk_ratio": "value_at_risk",
    "cvar_ratio": "cvar",
    "entropic_risk_measure_ratio": "entropic_risk_measure",
    "evar_ratio": "evar",
    "worst_realization_ratio": "worst_realization",
    "drawdown_at_risk_ratio": "drawdown_at_risk",
    "cdar_ratio": "cdar",
    "calmar_ratio": "max_drawdown",
    "average_drawdown_ratio": "average_drawdown",
    "edar_ratio": "edar",
    "ulcer_index_ratio": "ulcer_index",
    "gini_mean_difference_ratio": "gini_mean_difference",
}
DEFAULTS = dict(
    risk_free_rate=0.0,
    annualized_factor=252.0,
    compounded=False,
    min_acceptable_return=None,
    value_at_risk_beta=0.95,
    cvar_beta=0.95,
    evar_beta=0.95,
    drawdown_at_risk_beta=0.95,
    cdar_beta=0.95,
    edar_beta=0.95,
    entropic_risk_measure_theta=1.0,
    entropic_risk_measure_beta=0.95,
)


def measure(name, r, **params):
    """List of admissible values of a measure of the return series ``r``."""
    p = {**DEFAULTS, **params}
    r = [float(x) for x in r]
    if name in ANNUAL:
        base, power = ANNUAL[name]
        return [v * p["annualized_factor"] ** power for v in measure(base, r, **p)]
    if name in ("annualized_sharpe_ratio", "annualized_sortino_ratio"):
        (v,) = measure(name[len("annualized_") :], r, **p)
        return [v * math.sqrt(p["annualized_factor"])]
    if name in RATIOS:
        ex = mean(r) - p["risk_free_rate"]
        out = []
        for v in measure(RATIOS[name], r, **p):
            out.append(ex / v if v != 0 else (math.copysign(math.inf, ex) if ex else math.nan))
        return out
    x = drawdowns(r, p["compounded"]) if name in DD else r
    if name in ("value_at_risk", "drawdown_at_risk"):
        return var_candidates(x, p[LOCAL_BETA[name]])
    if name in ("cvar", "cdar"):
        return [cvar(x, p[LOCAL_BETA[name]])]
    if name in ("evar", "edar"):
        return [evar(x, p[LOCAL_BETA[name]])]
    if name == "entropic_risk_measure":
        return [
            entropic_risk_measure(
                x, p["entropic_risk_measure_theta"], p["entropic_risk_measure_beta"]
            )
        ]
    fn = globals()[name]
    if name in MAR:
        return [fn(x, p["min_acceptable_return"])]
    return [fn(x)]


def scalar(name, r, **params):
    return measure(name, r, **params)[0]


def minimize(f, x0, **kw):
    return sco.minimize(f, x0, **kw)
