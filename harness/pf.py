"""Shared portfolio recipes (JSON cases -> portfolios)."""

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import gen, ref

BETAS = st.one_of(gen.dyadic(0.0, 1 - 2**-5, 5), gen.choice([0.5, 0.8, 0.9, 0.95, 0.99]))


def param_values():
    return {
        "risk_free_rate": gen.choice([0.0, 0.0001, 0.001, -0.0005, 0.01]),
        "annualized_factor": gen.choice([252.0, 252, 12.0, 52, 1.0, 365]),
        "compounded": st.booleans(),
        "min_acceptable_return": gen.choice([None, 0.0, 0.001, -0.002, 0.01]),
        "value_at_risk_beta": BETAS,
        "cvar_beta": BETAS,
        "evar_beta": BETAS,
        "drawdown_at_risk_beta": BETAS,
        "cdar_beta": BETAS,
        "edar_beta": BETAS,
        "entropic_risk_measure_theta": gen.choice([1.0, 0.01, 0.1, 3.0]),
        "entropic_risk_measure_beta": BETAS,
    }


def params():
    """A dictionary with some of the measure parameters set."""
    vals = param_values()
    return gen.subset(sorted(vals), 0.4).flatmap(
        lambda ks: st.fixed_dictionaries({k: vals[k] for k in ks})
    )


def assetwise(k, lo, hi, step=0.0005, none=True):
    """An asset-wise input in one of the accepted spellings (tagged)."""
    num = gen.grid(lo, hi, step)
    forms = [
        st.lists(num, min_size=k, max_size=k).map(lambda v: {"form": "array", "v": v}),
        st.lists(num, min_size=k, max_size=k).map(lambda v: {"form": "dict", "v": v}),
        st.lists(st.one_of(st.none(), num), min_size=k, max_size=k).map(
            lambda v: {"form": "partial", "v": v}
        ),
        num.map(lambda v: {"form": "scalar", "v": v}),
    ]
    if none:
        forms.append(st.just({"form": "none"}))
    return st.one_of(forms)


def dense(a, k, fill=0.0):
    """The asset-wise vector meant by the spelling."""
    if a["form"] == "none":
        return np.full(k, fill)
    if a["form"] == "scalar":
        return np.full(k, a["v"])
    return np.array([fill if v is None else v for v in a["v"]], dtype=float)


def spell(a, cols):
    match a["form"]:
        case "none":
            return None
        case "scalar":
            return a["v"]
        case "array":
            return np.array(a["v"], dtype=float)
        case "list":
            return list(a["v"])
        case "dict":
            return dict(zip(cols, a["v"], strict=True))
        case "partial":
            return {c: v for c, v in zip(cols, a["v"], strict=True) if v is not None}


def weights(k, lo=-1.0, hi=1.0):
    """Weights summing to anything, zeros included."""
    return st.lists(
        st.one_of(gen.grid(lo, hi, 0.05), gen.grid(lo, hi, 0.05), gen.grid(lo, hi, 0.05), st.just(0.0)), min_size=k, max_size=k
    )


@st.composite
def portfolio(draw, min_n=5, max_n=40, min_k=1, max_k=5, kinds=None, costs=True, lo=-1.0, hi=1.0):
    m = draw(gen.mat(min_n, max_n, min_k, max_k, kinds=kinds))
    k = m["k"]
    w = draw(weights(k, lo, hi))
    return {
        "m": m,
        "w": {"form": draw(gen.choice(["array", "dict", "partial", "list"])), "v": w},
        # a scalar is not an accepted spelling of the previous weights
        "pw": draw(assetwise(k, -1, 1, 0.1).filter(lambda a: a["form"] != "scalar"))
        if costs
        else {"form": "none"},
        "tc": draw(assetwise(k, 0, 0.01)) if costs else {"form": "none"},
        "mf": draw(assetwise(k, 0, 0.001, 0.0001)) if costs else {"form": "none"},
        "params": draw(params()),
        "df": draw(st.booleans()),
    }


def data(case):
    """X as DataFrame or array; dictionaries need the DataFrame."""
    needs = any(case[a]["form"] in ("dict", "partial") for a in ("w", "pw", "tc", "mf"))
    x = gen.frame(case["m"])
    return x if (case["df"] or needs) else x.to_numpy()


def build(case, X=None, **extra):
    import skfolio

    X = data(case) if X is None else X
    cols = gen.names(case["m"]["k"])
    kw = {**case["params"], **extra}
    return skfolio.Portfolio(
        X=X,
        weights=spell(case["w"], cols),
        previous_weights=spell(case["pw"], cols),
        transaction_costs=spell(case["tc"], cols),
        management_fees=spell(case["mf"], cols),
        **kw,
    )


def expected_returns(case):
    x = gen.build(case["m"])
    k = case["m"]["k"]
    w, pw = dense(case["w"], k), dense(case["pw"], k)
    cost = float(np.sum(dense(case["tc"], k) * np.abs(w - pw)))
    fee = float(np.sum(dense(case["mf"], k) * w))
    return np.array([sum(w[j] * row[j] for j in range(k)) for row in x]) - cost - fee


def measures():
    from skfolio import ExtraRiskMeasure, PerfMeasure, RatioMeasure, RiskMeasure

    return [m for e in (PerfMeasure, RiskMeasure, ExtraRiskMeasure, RatioMeasure) for m in e]


def by_value():
    return {m.value: m for m in measures()}


NAMES = (
    ["mean", *ref.ANNUAL, *ref.RISKS, "skew", "kurtosis"]
    + list(ref.RATIOS)
    + ["annualized_sharpe_ratio", "annualized_sortino_ratio"]
)

POWER = {
    "variance": 2, "semi_variance": 2, "annualized_variance": 2, "annualized_semi_variance": 2,
    "fourth_central_moment": 4, "fourth_lower_partial_moment": 4,
}  # fmt: skip


def measure_ok(name, got, r, params, tol=1e-8):
    """Is ``got`` the value of the measure on the returns?  None when undefined."""
    s = float(np.max(np.abs(r))) if len(r) else 0.0
    s = max(s, abs(params.get("min_acceptable_return") or 0.0), 1e-12)
    if name in ref.DD:
        s *= len(r)
    if name in ("skew", "kurtosis"):
        if ref.standard_deviation(r) < 1e-6 * s:
            return None
        return bool(np.isclose(got, getattr(ref, name)(r), rtol=1e-6, atol=1e-8))
    if name in ref.RATIOS or name.startswith("annualized_s") and name.endswith("ratio"):
        base = ref.RATIOS[name.replace("annualized_", "")]
        sc = s * (len(r) if base in ref.DD else 1)
        ok = False
        for v, c in zip(ref.measure(base, r, **params), ref.measure(name, r, **params), strict=True):
            if abs(v) < 1e-7 * sc:
                return None
            rel = 1e-6 * sc / abs(v) + tol
            ok = ok or bool(np.isclose(got, c, rtol=rel, atol=1e-9 * sc / abs(v)))
        return ok
    p = POWER.get(name, 1)
    f = max(1.0, float(params.get("annualized_factor", 252.0))) if name.startswith("annual") else 1
    atol = 1e-11 * f * s**p
    if name in ("standard_deviation", "semi_deviation") or name.startswith("annualized_st"):
        atol = 1e-9 * f * s
    if name in ("evar", "edar"):
        atol = 2e-6 * s
    if name == "entropic_risk_measure":
        atol = 1e-9
    if name in ("cvar", "cdar"):
        atol *= 64
    return any(bool(np.isclose(got, c, rtol=tol, atol=atol)) for c in ref.measure(name, r, **params))


def same(a, b):
    if isinstance(a, pd.DataFrame | pd.Series):
        return a.equals(b)
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=False)
