"""C26 Scores and searches rank models in the right direction."""

import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import gen, pf
from harness.core import check, close, law, must_raise, note

ASSUMPTIONS = [
    "measure values come from the reference formulas of C01, evaluated on X @ weights",
    "a search may select any parameter set whose mean score is within 1e-7 relative of the best",
]

PERF = ("mean", "annualized_mean")


def good_direction(name):
    return name in PERF or name.endswith("ratio")


score_s = st.fixed_dictionaries(
    {
        "m": gen.mat(12, 40, 2, 5, kinds=gen.SMOOTH),
        "name": gen.choice(pf.NAMES),
        "better": gen.choice([None, None, True, False]),
        "w": gen.seeds,
        "split": st.integers(5, 8),
        "params": gen.choice(["none", "rf"]),
        "pipeline": st.booleans(),
    }
)


@law(score_s, quick=1500, thorough=20000, rule="the measure is defined on the predicted returns")
def scorer(case):
    from sklearn.pipeline import Pipeline

    from skfolio.metrics import make_scorer
    from skfolio.optimization import InverseVolatility
    from skfolio.pre_selection import SelectKExtremes

    X = gen.frame(case["m"])
    n = len(X) * case["split"] // 10
    n = max(4, min(n, len(X) - 4))
    params = {"risk_free_rate": 0.0003} if case["params"] == "rf" else {}
    est = InverseVolatility(portfolio_params=dict(params))
    cols = list(X.columns)
    if case["pipeline"]:
        model = Pipeline([("k", SelectKExtremes(k=1)), ("o", est)]).set_output(transform="pandas").fit(X.iloc[:n])
        keep = [c for c, b in zip(cols, model[0].get_support(), strict=True) if b]
        w = pd.Series(model[-1].weights_, index=keep).reindex(cols).fillna(0.0).to_numpy()
    else:
        model = est.fit(X.iloc[:n])
        w = model.weights_
    test = X.iloc[n:]
    r = test.to_numpy() @ w
    m = pf.by_value()[case["name"]]
    kw = {} if case["better"] is None else {"greater_is_better": case["better"]}
    got = make_scorer(m, **kw)(model, test)
    sign = 1 if (good_direction(case["name"]) if case["better"] is None else case["better"]) else -1
    ok = pf.measure_ok(case["name"], sign * got, r, params)
    check(ok is None or ok, "score of a measure", measure=case["name"], better=case["better"], got=got)
    note("performance" if good_direction(case["name"]) else "risk")
    return ok is not None


fn_s = st.fixed_dictionaries({"m": gen.mat(12, 30, 2, 4, kinds=gen.SMOOTH), "fn": gen.choice(["mean", "quantile", "attr"]), "q": gen.choice([0.1, 0.5, 0.9]), "better": gen.choice([None, True, False])})


@law(fn_s, quick=150, thorough=2000, rule="always")
def functions(case):
    from skfolio.metrics import make_scorer
    from skfolio.optimization import EqualWeighted

    X = gen.frame(case["m"])
    model = EqualWeighted().fit(X)
    r = X.to_numpy().mean(axis=1)
    seen = []

    def mean(pred):
        seen.append(pred)
        return float(np.mean(np.asarray(pred)))

    def quantile(pred, q):
        return float(np.quantile(np.asarray(pred), q))

    def attr(pred):
        return pred.cvar - pred.mean

    f, kw, want = {
        "mean": (mean, {}, np.mean(r)),
        "quantile": (quantile, {"q": case["q"]}, np.quantile(r, case["q"])),
        "attr": (attr, {}, None),
    }[case["fn"]]
    if want is None:
        p = model.predict(X)
        want = p.cvar - p.mean
    if case["better"] is not None:
        kw = {**kw, "greater_is_better": case["better"]}
    got = make_scorer(f, **kw)(model, X)
    sign = -1 if case["better"] is False else 1
    close(got, sign * want, "score of a user function", rtol=1e-9, atol=1e-12, fn=case["fn"], better=case["better"])
    must_raise(lambda: make_scorer("sharpe_ratio"), TypeError, "a string is not a measure")


default_s = st.fixed_dictionaries({"m": gen.mat(15, 40, 2, 4, kinds=gen.SMOOTH), "kind": gen.choice(["single", "sweep", "rf"])})


@law(default_s, quick=120, thorough=1500, rule="the Sharpe ratio is defined")
def default_score(case):
    from skfolio.optimization import InverseVolatility, MeanRisk

    X = gen.frame(case["m"])
    n = len(X) // 2
    a, b = X.iloc[:n], X.iloc[n:]
    if case["kind"] == "sweep":
        model = MeanRisk(max_cvar=[0.5, 0.7, 0.9], l2_coef=0.01)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            model.fit(a)
        W = np.asarray(model.weights_)
        W = W[~np.isnan(W).any(axis=1)] if W.ndim == 2 else W[None]
        if len(W) < 3:
            return False
        rf = 0.0
    else:
        rf = 0.0004 if case["kind"] == "rf" else 0.0
        model = InverseVolatility(portfolio_params={"risk_free_rate": rf}).fit(a)
        W = model.weights_[None]
    sh = []
    for w in W:
        r = b.to_numpy() @ w
        if r.std(ddof=1) < 1e-9:
            return False
        sh.append((r.mean() - rf) / r.std(ddof=1))
    close(model.score(b), np.mean(sh), "default score is not the Sharpe ratio", rtol=1e-7, atol=1e-9, kind=case["kind"])


search_s = st.fixed_dictionaries(
    {
        "m": gen.mat(40, 70, 3, 5, kinds=gen.SMOOTH),
        "search": gen.choice(["grid", "grid", "random", "cross_val_score"]),
        "grid": gen.choice(["power", "l2", "nested", "budget", "hrp", "factor"]),
        "measure": gen.choice([None, "mean", "variance", "cvar", "cdar", "sharpe_ratio", "cdar_ratio", "max_drawdown", "worst_realization", "skew", "kurtosis", "value_at_risk", "ulcer_index", "annualized_mean", "function", "loss"]),
        "cv": gen.choice(["walk", "kfold", "series"]),
        "seed": gen.seeds,
    }
)


@law(search_s, quick=160, thorough=2500, rule="at least two parameter sets have different scores")
def search(case):
    import cvxpy as cp
    import sklearn as sk
    from sklearn.linear_model import LinearRegression
    from sklearn.model_selection import GridSearchCV, KFold, RandomizedSearchCV, TimeSeriesSplit, cross_val_score

    from skfolio import RiskMeasure
    from skfolio import optimization as so
    from skfolio import prior as pr
    from skfolio.metrics import make_scorer
    from skfolio.model_selection import WalkForward
    from skfolio.moments import EWMu, ShrunkCovariance

    X = gen.frame(case["m"])
    y = None
    if case["grid"] == "factor":
        g = gen.rng_of(case["seed"])
        noise = g.normal(size=(len(X), 2)) * X.to_numpy().std()
        y = X.iloc[:, :2].set_axis(["F0", "F1"], axis=1) + noise
    est, grid = {
        "power": (so.MeanRisk(prior_estimator=pr.EmpiricalPrior(mu_estimator=EWMu()), objective_function=so.ObjectiveFunction.MAXIMIZE_UTILITY), {"prior_estimator__mu_estimator__alpha": [0.05, 0.3, 0.8], "risk_aversion": [1.0, 10.0]}),
        "l2": (so.MeanRisk(), {"l2_coef": [0.0, 0.001, 1.0], "max_weights": [1.0, 0.5]}),
        "nested": (so.MeanRisk(prior_estimator=pr.EmpiricalPrior(covariance_estimator=ShrunkCovariance())), {"prior_estimator__covariance_estimator__shrinkage": [0.0, 0.5, 1.0]}),
        "budget": (so.RiskBudgeting(), {"risk_measure": [RiskMeasure.VARIANCE, RiskMeasure.CVAR, RiskMeasure.MEAN_ABSOLUTE_DEVIATION]}),
        "factor": (so.MeanRisk(prior_estimator=pr.FactorModel(loading_matrix_estimator=pr.LoadingMatrixRegression(linear_regressor=LinearRegression()))), {"prior_estimator__residual_variance": [True, False], "l2_coef": [0.0, 0.01]}),
        "hrp": (so.HierarchicalRiskParity(), {"risk_measure": [RiskMeasure.VARIANCE, RiskMeasure.CVAR, RiskMeasure.MAX_DRAWDOWN]}),
    }[case["grid"]]  # fmt: skip
    cv = {"walk": WalkForward(train_size=20, test_size=8), "kfold": KFold(3), "series": TimeSeriesSplit(2)}[case["cv"]]
    name = case["measure"]
    if name is None:
        scoring, value = None, lambda p: p.sharpe_ratio
    elif name == "function":
        scoring, value = make_scorer(lambda p: p.mean - p.variance), lambda p: p.mean - p.variance
    elif name == "loss":
        scoring, value = make_scorer(lambda p: p.variance - p.mean, greater_is_better=False), lambda p: p.mean - p.variance
    else:
        sign = 1 if good_direction(name) else -1
        scoring, value = make_scorer(pf.by_value()[name]), lambda p: sign * getattr(p, name)
    splits = list(cv.split(X))

    def score(params):
        out = []
        for tr, te in splits:
            m = sk.clone(est).set_params(**params).fit(X.iloc[tr], None if y is None else y.iloc[tr])
            out.append(value(m.predict(X.iloc[te])))
        return out

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if case["search"] == "cross_val_score":
                want = score({})
                got = cross_val_score(est, X, y, cv=cv, scoring=scoring)
                close(got, want, "cross_val_score", rtol=1e-6, atol=1e-7, measure=name)
                return True
            if case["search"] == "random":
                s = RandomizedSearchCV(est, grid, n_iter=2, cv=cv, scoring=scoring, random_state=case["seed"] % 1000, error_score="raise")
            else:
                s = GridSearchCV(est, grid, cv=cv, scoring=scoring, error_score="raise")
            s.fit(X, y)
            sets = s.cv_results_["params"]
            means = np.array([np.mean(score(p)) for p in sets])
        except cp.SolverError:
            note("solver failure")
            return False
    scale = max(np.max(np.abs(means)), 1e-9)
    close(s.cv_results_["mean_test_score"], means, "cross-validated scores", rtol=1e-5, atol=1e-6 * scale, measure=name)
    best = next(i for i, p in enumerate(sets) if p == s.best_params_)
    check(means[best] >= means.max() - 1e-5 * scale, "the search selected a worse parameter set", measure=name, scores=means, best=best)
    full = sk.clone(est).set_params(**s.best_params_).fit(X, y)
    close(s.best_estimator_.weights_, full.weights_, "the refitted estimator", rtol=0, atol=1e-5)
    note(name, case["search"])
    return float(np.ptp(means)) > 1e-6 * scale


LAWS = [scorer, functions, default_score, search]
