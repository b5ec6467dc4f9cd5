"""C21 Fitting never mutates inputs and never depends on past fits."""

import copy
import dataclasses
import enum
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import gen, zoo
from harness.core import check, law, note

ASSUMPTIONS = [
    "fitted state is what a fresh clone has after the fit (attributes ending in an underscore); left-over attributes of an earlier, different configuration are not judged",
    "refits are compared to 1e-9 relative (same computation); nothing is run in parallel",
    "estimators that draw at random are given a seed; the global state is not judged where a lasso of scikit-learn draws from it",
]


def alike(a, b, path="", tol=1e-9):
    """None when equal, otherwise the path of the first difference."""
    import sklearn.base as skb

    if a is b:
        return None
    if isinstance(a, skb.BaseEstimator) and isinstance(b, skb.BaseEstimator):
        if type(a) is not type(b):
            return path + ":type"
        va, vb = vars(a), vars(b)
        for q in sorted(set(va) & set(vb) | {z for z in vb if z.endswith("_")}):
            if q.startswith("_") or q.startswith("plot"):
                continue
            if q not in va:
                return f"{path}.{q}:missing"
            d = alike(va[q], vb[q], f"{path}.{q}", tol)
            if d:
                return d
        return None
    if dataclasses.is_dataclass(a) and type(a) is type(b):
        for f in dataclasses.fields(a):
            d = alike(getattr(a, f.name), getattr(b, f.name), f"{path}.{f.name}", tol)
            if d:
                return d
        return None
    if isinstance(a, pd.DataFrame | pd.Series):
        ok = type(a) is type(b) and a.shape == b.shape and list(a.index) == list(b.index)
        if isinstance(a, pd.DataFrame):
            ok = ok and list(a.columns) == list(b.columns)
        return None if ok and alike(a.to_numpy(), b.to_numpy(), path, tol) is None else path
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape:
            return path + ":shape"
        if a.dtype.kind in "fc":
            s = np.nanmax(np.abs(a)) if a.size else 0
            return None if np.allclose(a, b, rtol=tol, atol=tol * s, equal_nan=True) else path
        return None if np.array_equal(a, b) else path
    if isinstance(a, float | np.floating) and isinstance(b, float | np.floating | int):
        return None if np.isclose(a, b, rtol=tol, atol=tol * abs(a), equal_nan=True) else path
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(a) != list(b):
            return path + ":keys"
        for q in a:
            d = alike(a[q], b[q], f"{path}[{q!r}]", tol)
            if d:
                return d
        return None
    if isinstance(a, list | tuple):
        if type(a) is not type(b) or len(a) != len(b):
            return path + ":len"
        for i, (u, v) in enumerate(zip(a, b, strict=True)):
            d = alike(u, v, f"{path}[{i}]", tol)
            if d:
                return d
        return None
    if isinstance(a, str | int | bool | enum.Enum | type(None) | set | frozenset | np.generic):
        return None if a == b else path
    return None if type(a) is type(b) else path + ":type"


def frozen(est):
    """Deep copies of every constructor parameter, plus the attribute names of sub-estimators."""
    import sklearn.base as skb

    p = est.get_params(deep=True)
    return {k: (("estimator", sorted(vars(v)), id(v)) if isinstance(v, skb.BaseEstimator) else ("value", copy.deepcopy(v), id(v))) for k, v in p.items()}


def params_same(before, est):
    now = est.get_params(deep=True)
    if set(now) != set(before):
        return "keys"
    for k, (kind, v, i) in before.items():
        if id(now[k]) != i and not isinstance(v, int | float | bool | str | type(None)):
            return k + ":other object"
        if kind == "estimator":
            if sorted(vars(now[k])) != v:
                return k + ":sub-estimator was fitted in place"
        elif alike(v, now[k], k, 0.0):
            return k
    return None


case_s = st.fixed_dictionaries(
    {
        "m": gen.mat(26, 45, 3, 5, kinds=gen.SMOOTH),
        "which": gen.choice([*(("opt", z) for z in zoo.OPT), *(("other", z) for z in zoo.OTHER)]),
        "history": st.lists(gen.choice(["same", "data2", "fewer", "array", "nan", "bad shape", "param fail", "other risk", "flip", "overwrite"]), min_size=1, max_size=3),
        "seed": gen.seeds,
    }
)


def prepare(name, X, g):
    """(X, fit kwargs) in the form the estimator takes."""
    from skfolio.distribution import compute_pseudo_observations

    if name in ("Gaussian", "StudentT", "JohnsonSU"):
        return X.iloc[:, :1], {}
    if name.endswith("Copula") and name != "VineCopula":
        return pd.DataFrame(compute_pseudo_observations(X.iloc[:, :2]), columns=X.columns[:2]), {}
    if name == "HierarchicalClustering":
        d = np.sqrt(np.clip((1 - np.corrcoef(X.to_numpy().T)) / 2, 0, None))
        np.fill_diagonal(d, 0)
        return pd.DataFrame((d + d.T) / 2, columns=X.columns), {}
    if name == "ImpliedCovariance":
        iv = pd.DataFrame(0.2 + 0.05 * g.random(X.shape), columns=X.columns, index=X.index)
        return X, {"implied_vol": iv}
    if name in ("FactorModel", "LoadingMatrixRegression"):
        f = X.to_numpy() @ g.normal(size=(X.shape[1], 2)) + g.normal(size=(len(X), 2)) * 0.002
        return X, {"y": pd.DataFrame(f, columns=["f1", "f2"], index=X.index)}
    return X, {}


def quiet_fit(est, X, kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return est.fit(X, **kw)


@law(case_s, quick=1500, thorough=12000, rule="the final fit succeeded and was compared with that of a fresh clone")
def purity(case):
    import cvxpy as cp
    import sklearn as sk

    X = gen.frame(case["m"])
    cols = list(X.columns)
    kind, name = case["which"]
    g = gen.rng_of(case["seed"])
    z = (zoo.opt_zoo if kind == "opt" else zoo.other_zoo)(cols, g)
    est = z[name]()
    A, kw = prepare(name, X, gen.rng_of(case["seed"] + 1))
    X2 = pd.DataFrame(gen.build({**case["m"], "seed": case["m"]["seed"] + 1, "n": case["m"]["n"] + 3}) * 1.3, columns=cols)
    B, kwb = prepare(name, X2, gen.rng_of(case["seed"] + 2))
    note(name)
    before = frozen(est)
    A0, kw0 = A.copy(), copy.deepcopy(kw)
    fresh = sk.clone(est)
    check(alike(est.get_params(deep=False), fresh.get_params(deep=False), "", 0.0) is None, "a clone has other parameters", est=name)
    try:
        quiet_fit(fresh, A, kw)
    except cp.SolverError:
        note("solver failure")
        return False
    for step in case["history"]:
        try:
            match step:
                case "same":
                    quiet_fit(est, A, kw)
                case "data2":
                    quiet_fit(est, B, kwb)
                case "fewer":
                    quiet_fit(est, A.iloc[:-3], {q: v.iloc[:-3] for q, v in kw.items()})
                case "array":
                    quiet_fit(est, A.to_numpy(), {q: v.to_numpy() for q, v in kw.items()})
                case "nan":
                    N = A.copy()
                    N.iloc[3, 0] = np.nan
                    quiet_fit(est, N, kw)
                case "bad shape":
                    quiet_fit(est, A.iloc[:, 0].to_numpy(), kw)
                case "other risk" if hasattr(est, "risk_measure"):
                    from skfolio import RiskMeasure

                    old = est.risk_measure
                    est.set_params(risk_measure=RiskMeasure.MEAN_ABSOLUTE_DEVIATION)
                    try:
                        quiet_fit(est, A, kw)
                    finally:
                        est.set_params(risk_measure=old)
                case "flip":
                    flags = {q: v for q, v in est.get_params(deep=True).items() if isinstance(v, bool) and q not in ("verbose", "raise_on_failure")}
                    if flags:
                        q = sorted(flags)[case["seed"] % len(flags)]
                        est.set_params(**{q: not flags[q]})
                        try:
                            quiet_fit(est, A, kw)
                        finally:
                            est.set_params(**{q: flags[q]})
                case "overwrite":
                    # the caller reuses the same buffer for other data and then restores it
                    saved = A.copy()
                    A.iloc[:, :] = saved.to_numpy()[::-1].copy()
                    try:
                        quiet_fit(est, A, kw)
                    finally:
                        A.iloc[:, :] = saved.to_numpy()
                case "param fail":
                    if hasattr(est, "min_return") and name.startswith("MeanRisk"):
                        old = est.min_return
                        est.set_params(min_return=9.0)
                        try:
                            quiet_fit(est, A, kw)
                        finally:
                            est.set_params(min_return=old)
        except Exception as e:  # noqa: BLE001  (a failed fit is part of the history)
            note("failed fit: " + type(e).__name__)
    np.random.seed(case["seed"] % 2**31)
    before_state = np.random.get_state()[1].copy(), np.random.get_state()[2]
    out = quiet_fit(est, A, kw)
    after_state = np.random.get_state()
    same_state = np.array_equal(after_state[1], before_state[0]) and after_state[2] == before_state[1]
    check(same_state or name in ("GraphicalLassoCV", "FactorModel", "LoadingMatrixRegression"), "a seeded fit changed the global random state", est=name)
    check(out is est, "fit does not return the estimator")
    check(alike(A0, A, "X", 0.0) is None and alike(kw0, kw, "y", 0.0) is None, "fitting changed the data", est=name)
    bad = params_same(before, est)
    check(bad is None, "fitting changed a constructor parameter", est=name, which=bad)
    d = alike(est, fresh)
    check(d is None, "a used estimator fits differently from a fresh clone", est=name, where=d, history=case["history"])
    check(alike(est.get_params(deep=False), z_params(fresh)) is None, "parameters differ from those of the clone", est=name)
    # parameters set one by one on another instance give the same fit
    other = sk.clone(est)
    p = est.get_params(deep=False)
    for q in sorted(p):
        other.set_params(**{q: p[q]})
        check(other.get_params(deep=False)[q] is p[q] or alike(other.get_params(deep=False)[q], p[q], "", 0.0) is None, "set/get round trip", est=name, param=q)
    quiet_fit(other, A, kw)
    d = alike(other, fresh)
    check(d is None, "the same parameters and data fit differently", est=name, where=d)


def z_params(e):
    return e.get_params(deep=False)


LAWS = [purity]
