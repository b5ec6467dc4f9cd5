"""C38 Extra fit data reaches exactly the estimator that requested it."""

import warnings

import numpy as np
import pandas as pd
import sklearn
import sklearn.model_selection as sms
from hypothesis import strategies as st
from skfolio.cluster import HierarchicalClustering
from skfolio.distance import CovarianceDistance
from skfolio import RatioMeasure
from skfolio.metrics import make_scorer
from skfolio.model_selection import CombinatorialPurgedCV, WalkForward, cross_val_predict
from skfolio.moments import (
    DenoiseCovariance,
    DetoneCovariance,
    EmpiricalCovariance,
    EquilibriumMu,
    ImpliedCovariance,
    LedoitWolf,
    ShrunkMu,
)
from skfolio.moments import BaseCovariance, BaseMu
from skfolio.optimization import (
    EqualWeighted,
    HierarchicalEqualRiskContribution,
    HierarchicalRiskParity,
    InverseVolatility,
    MaximumDiversification,
    MeanRisk,
    NestedClustersOptimization,
    ObjectiveFunction,
    RiskBudgeting,
    StackingOptimization,
)
from skfolio.pre_selection import DropZeroVariance
from skfolio.prior import BlackLitterman, EmpiricalPrior, FactorModel, LoadingMatrixRegression
from skfolio.uncertainty_set import (
    EmpiricalCovarianceUncertaintySet,
    EmpiricalMuUncertaintySet,
)
from sklearn.linear_model import LinearRegression, Ridge
from sklearn.pipeline import Pipeline

from harness import gen
from harness.core import HarnessError, check, close, law, must_raise, note

ASSUMPTIONS = [
    "metadata routing is enabled; the extra data are tables indexed like the returns, seen through probe moments whose value depends on every row received",
    "nested clusters take extra data as a table with the columns of the returns (they select the columns of each cluster); elsewhere tables, arrays and series of any width are used",
    "the reference is the same composite estimator whose probe looks the rows up by date or value in the full table",
    "solver-based weights are compared within 1e-4, everything else within 1e-9",
]


class ProbeCov(BaseCovariance):
    """Covariance weighted by the extra data, received or looked up by date."""

    def __init__(self, table=None, log=None):
        super().__init__(nearest=False)
        self.table = table
        self.log = log

    def fit(self, X, y=None, marker=None):
        if self.table is not None:
            marker = lookup(self.table, X)
        w = weights(marker, X)
        x = np.asarray(X, float)
        d = x - w @ x
        self._set_covariance((d * w[:, None]).T @ d + 1e-9 * np.eye(x.shape[1]))
        self.marker_ = marker
        return self


class ProbeMu(BaseMu):
    def __init__(self, table=None):
        self.table = table

    def fit(self, X, y=None, marker=None):
        if self.table is not None:
            marker = lookup(self.table, X)
        self.mu_ = weights(marker, X) @ np.asarray(X, float)
        self.marker_ = marker
        return self


def lookup(table, X):
    """Rows of the extra data for the given observations, by date or by value."""
    full, m = table
    if not isinstance(X, pd.DataFrame):
        raise HarnessError(f"the probe received {type(X)}")
    if isinstance(X.index, pd.DatetimeIndex):
        return m.loc[X.index]
    col = X.columns[0]
    pos = {v: i for i, v in enumerate(full[col])}
    return m.iloc[[pos[v] for v in X[col]]]


def weights(marker, X):
    """Row weights; a table with a column per asset counts its assets' columns."""
    n = len(X)
    if marker is None:
        return np.full(n, 1 / n)
    if isinstance(marker, pd.DataFrame) and isinstance(X, pd.DataFrame) and set(X.columns) <= set(marker.columns):
        marker = marker[list(X.columns)]
    w = np.asarray(marker, float).reshape(len(marker), -1).mean(axis=1)
    check(len(w) == n, "rows of the extra data do not match the training data", rows=len(w), n=n)
    return w / w.sum()


def quiet(f):
    with warnings.catch_warnings(), sklearn.config_context(enable_metadata_routing=True, transform_output="pandas"):
        warnings.simplefilter("ignore")
        return f()


# ---------------------------------------------------------------- composites
def prior(cov):
    return EmpiricalPrior(covariance_estimator=cov)


SLOTS = {
    # name: (builder, needs factors, attribute)
    "prior": (lambda p, g: prior(p), False, "prior"),
    "shrunk mu": (lambda p, g: EmpiricalPrior(mu_estimator=ShrunkMu(covariance_estimator=p)), False, "prior"),
    "equilibrium mu": (lambda p, g: EmpiricalPrior(mu_estimator=EquilibriumMu(covariance_estimator=p)), False, "prior"),
    "denoise": (lambda p, g: DenoiseCovariance(covariance_estimator=p), False, "cov"),
    "detone": (lambda p, g: DetoneCovariance(covariance_estimator=p), False, "cov"),
    "denoise in prior": (lambda p, g: prior(DenoiseCovariance(covariance_estimator=p)), False, "prior"),
    "distance": (lambda p, g: CovarianceDistance(covariance_estimator=p), False, "distance"),
    "black litterman": (lambda p, g: BlackLitterman(views=["A0 == 0.001", "A1 - A2 == 0.0005"], prior_estimator=prior(p)), False, "prior"),
    "factor model": (lambda p, g: FactorModel(factor_prior_estimator=prior(p)), True, "prior"),
    "factor model in optimizer": (lambda p, g: MeanRisk(prior_estimator=FactorModel(factor_prior_estimator=prior(p))), True, "w"),
    "black litterman factor model": (
        lambda p, g: MeanRisk(prior_estimator=FactorModel(factor_prior_estimator=BlackLitterman(views=["F0 == 0.001"], prior_estimator=prior(p)))),
        True,
        "w",
    ),
    "mean risk": (lambda p, g: MeanRisk(prior_estimator=prior(p)), False, "w"),
    "mean risk ratio": (lambda p, g: MeanRisk(objective_function=ObjectiveFunction.MAXIMIZE_UTILITY, prior_estimator=prior(p), risk_aversion=5), False, "w"),
    "mu set": (
        lambda p, g: MeanRisk(objective_function=ObjectiveFunction.MAXIMIZE_UTILITY, risk_aversion=20, mu_uncertainty_set_estimator=EmpiricalMuUncertaintySet(prior_estimator=prior(p))),
        False,
        "w",
    ),
    "covariance set": (lambda p, g: MeanRisk(covariance_uncertainty_set_estimator=EmpiricalCovarianceUncertaintySet(prior_estimator=prior(p))), False, "w"),
    "risk budgeting": (lambda p, g: RiskBudgeting(prior_estimator=prior(p)), False, "w"),
    "diversification": (lambda p, g: MaximumDiversification(prior_estimator=prior(p)), False, "w"),
    "inverse volatility": (lambda p, g: InverseVolatility(prior_estimator=prior(p)), False, "w"),
    "hrp": (lambda p, g: HierarchicalRiskParity(prior_estimator=prior(p)), False, "w"),
    "hrp distance": (lambda p, g: HierarchicalRiskParity(distance_estimator=CovarianceDistance(covariance_estimator=p)), False, "w"),
    "herc": (lambda p, g: HierarchicalEqualRiskContribution(prior_estimator=prior(p)), False, "w"),
    "herc distance": (lambda p, g: HierarchicalEqualRiskContribution(distance_estimator=CovarianceDistance(covariance_estimator=p)), False, "w"),
    "nco inner": (lambda p, g: NestedClustersOptimization(inner_estimator=InverseVolatility(prior_estimator=prior(p)), outer_estimator=InverseVolatility()), False, "w"),
    "nco inner cv": (
        lambda p, g: NestedClustersOptimization(inner_estimator=InverseVolatility(prior_estimator=prior(p)), outer_estimator=InverseVolatility(), cv=sms.KFold(3), clustering_estimator=HierarchicalClustering(max_clusters=2)),
        False,
        "w",
    ),
    "nco distance": (lambda p, g: NestedClustersOptimization(distance_estimator=CovarianceDistance(covariance_estimator=p), inner_estimator=EqualWeighted(), outer_estimator=InverseVolatility()), False, "w"),
    "stacking": (lambda p, g: StackingOptimization([("a", InverseVolatility(prior_estimator=prior(p))), ("b", EqualWeighted())], final_estimator=InverseVolatility()), False, "w"),
    "stacking cv": (
        lambda p, g: StackingOptimization([("a", MeanRisk(prior_estimator=prior(p))), ("b", EqualWeighted())], final_estimator=InverseVolatility(), cv=sms.KFold(3)),
        False,
        "w",
    ),
    "stacking of nco": (
        lambda p, g: StackingOptimization([("a", NestedClustersOptimization(inner_estimator=InverseVolatility(prior_estimator=prior(p)), outer_estimator=InverseVolatility())), ("b", EqualWeighted())], final_estimator=InverseVolatility()),
        False,
        "w",
    ),
}
OPT = [n for n, (_, fac, what) in SLOTS.items() if what == "w"]
NAIVE = [n for n in OPT if n not in ("mu set", "covariance set")]


@st.composite
def cases(draw, names=None):
    return {
        "slot": draw(gen.choice(names or list(SLOTS))),
        "k": draw(st.integers(4, 6)),
        "n": draw(gen.choice([40, 60, 90])),
        "alias": draw(gen.choice([None, None, "vols", "extra_data"])),
        "kind": draw(gen.choice(["frame", "array", "series", "assets"])),
        "seed": draw(gen.seeds),
    }


def data(c):
    g = gen.rng_of(c["seed"])
    n, k = c["n"], c["k"]
    idx = pd.date_range("2020-01-01", periods=n, freq="B")
    f = g.normal(size=(n, 2))
    x = 0.01 * (f @ g.normal(size=(2, k)) * 0.7 + g.normal(size=(n, k)) * g.uniform(0.6, 1.8, k)) + 0.0004
    # weights concentrated on a few days, so rows matter
    m = pd.DataFrame(g.gamma(0.6, size=(n, k)) * g.gamma(0.6, size=(n, 1)) + 0.02, index=idx, columns=gen.names(k))
    if c["kind"] != "assets" and "nco" not in c["slot"]:
        m = pd.DataFrame({"m": m["A0"]})
    X = pd.DataFrame(x, index=idx, columns=gen.names(k))
    Y = pd.DataFrame(0.01 * f + 0.0002, index=idx, columns=["F0", "F1"])
    return X, Y, m


def as_kind(m, kind):
    if kind == "array" and m.shape[1] == 1:
        return m.to_numpy()
    if kind == "series" and m.shape[1] == 1:
        return m["m"]
    return m


def result(est, what):
    if what == "prior":
        p = est.prior_model_
        return np.concatenate([p.mu.ravel(), p.covariance.ravel() * 10])
    if what == "cov":
        return est.covariance_.ravel()
    if what == "distance":
        return est.distance_.ravel()
    if what == "path":
        return np.asarray(est.returns)
    return np.asarray(est.weights_)


def probe(c, table=None, cls=ProbeCov, request=True):
    p = cls(table=table)
    if table is None and request is not None:
        p = quiet(lambda: p.set_fit_request(marker=c["alias"] if (request is True and c["alias"]) else request))
    return p


def tol(c):
    return {"rtol": 0, "atol": 2e-4} if any(s in c["slot"] for s in ("mean risk", "set", "budget", "divers", "stacking cv", "optimizer", "black litterman factor")) else {"rtol": 1e-8, "atol": 1e-10}


@law(cases(), quick=220, thorough=2000, rule="the extra data changes the result")
def reaches_the_nested_estimator(c):
    build, fac, what = SLOTS[c["slot"]]
    X, Y, m = data(c)
    y = Y if fac else None
    key = c["alias"] or "marker"
    kw = {key: as_kind(m, c["kind"])}
    a = quiet(lambda: build(probe(c), 0).fit(X, y, **kw))
    b = quiet(lambda: build(probe(c, (pd.concat([X, Y], axis=1), m)), 0).fit(X, y))
    close(result(a, what), result(b, what), "extra data did not reach the nested estimator as given", case=c, **tol(c))
    plain = quiet(lambda: build(ProbeCov(), 0).fit(X, y))
    # nobody asked for it, or it was declined
    for req in (None, False):
        must_raise(lambda r=req: quiet(lambda: build(probe(c, request=r), 0).fit(X, y, **kw)), (TypeError, ValueError), f"extra data nobody requested was accepted ({c['slot']}, request {req})")
    must_raise(lambda: quiet(lambda: build(probe(c), 0).fit(X, y, unknown_argument=1)), (TypeError, ValueError), "unknown argument accepted")
    declined = quiet(lambda: build(probe(c, request=False), 0).fit(X, y))
    close(result(declined, what), result(plain, what), "declining the extra data changes the result", case=c, **tol(c))
    note(c["slot"])
    return not np.allclose(result(a, what), result(plain, what), rtol=1e-6, atol=1e-9)


@st.composite
def outer_cases(draw):
    c = draw(cases(names=NAIVE))
    c["outer"] = draw(gen.choice(["pipeline", "kfold", "walk", "combinatorial", "grid", "pipeline kfold", "grid pipeline", "columns"]))
    c["jobs"] = None
    return c


@law(outer_cases(), quick=110, thorough=1000, rule="the extra data changes the result")
def rows_follow_the_splits(c):
    build, fac, _ = SLOTS[c["slot"]]
    X, Y, m = data(c)
    y = Y if fac else None
    key = c["alias"] or "marker"
    kw = {key: as_kind(m, c["kind"])}
    o = c["outer"]

    def run(p, params):
        est = build(p, 0)
        if "pipeline" in o:
            est = Pipeline([("pre", DropZeroVariance()), ("opt", est)])
        if o == "pipeline":
            e = est.fit(X, y, **params)
            return result(e[-1], "w")
        if "grid" in o:
            grid = {("opt__" if "pipeline" in o else "") + "portfolio_params": [{"name": "a"}, {"name": "b", "risk_free_rate": 0.0001}]}
            gs = sms.GridSearchCV(est, grid, cv=sms.KFold(2), scoring=make_scorer(RatioMeasure.SHARPE_RATIO))
            gs.fit(X, y, **params)
            check(np.all(np.isfinite(gs.cv_results_["mean_test_score"])), "a fold of the search failed", case=c)
            e = gs.best_estimator_
            w = result(e[-1] if "pipeline" in o else e, "w")
            return np.concatenate([w, gs.cv_results_["mean_test_score"]])
        cv = {
            "kfold": sms.KFold(3),
            "pipeline kfold": sms.KFold(2),
            "columns": sms.KFold(2),
            "walk": WalkForward(train_size=20, test_size=10),
            "combinatorial": CombinatorialPurgedCV(n_folds=3, n_test_folds=2),
        }[o]
        extra = {"column_indices": np.arange(X.shape[1])[::-1][:-1]} if o == "columns" else {}
        if o == "columns" and c["slot"] == "black litterman":
            extra = {}
        pred = cross_val_predict(est, X, y, cv=cv, params=params, n_jobs=c["jobs"], **extra)
        if o == "combinatorial":
            return np.concatenate([np.asarray(q.returns) for q in pred])
        return np.concatenate([np.asarray(q.weights) for q in pred.portfolios])

    if o == "columns" and (fac or "nco" in c["slot"]):
        return False  # the columns of the factors are selected as well; nested clusters count columns by position
    a = quiet(lambda: run(probe(c), kw))
    b = quiet(lambda: run(probe(c, (pd.concat([X, Y], axis=1), m)), {}))
    t = tol(c)
    if o == "combinatorial" and t["atol"] > 1e-6:
        t = {"rtol": 0, "atol": 1e-4}
    if "grid" in o:
        t = {"rtol": 2e-3 if t["atol"] > 1e-6 else 1e-7, "atol": max(t["atol"], 1e-9)}
    close(a, b, "extra data rows do not follow the splits", case=c, **t)
    must_raise(lambda: quiet(lambda: run(probe(c, request=None), kw)), (TypeError, ValueError), f"extra data nobody requested was accepted ({o})")
    plain = quiet(lambda: run(ProbeCov(), {}))
    note(o, c["slot"])
    return not np.allclose(a, plain, rtol=1e-6, atol=1e-9)


# ---------------------------------------------------------------- two requests
PAIRS = {
    "prior": lambda mu, cov: EmpiricalPrior(mu_estimator=mu, covariance_estimator=cov),
    "mean risk": lambda mu, cov: MeanRisk(objective_function=ObjectiveFunction.MAXIMIZE_UTILITY, risk_aversion=5, prior_estimator=EmpiricalPrior(mu_estimator=mu, covariance_estimator=cov)),
    "black litterman": lambda mu, cov: BlackLitterman(views=["A0 == 0.001"], prior_estimator=EmpiricalPrior(mu_estimator=mu, covariance_estimator=cov)),
}
TWO = {
    "prior and set": lambda p, q: MeanRisk(
        objective_function=ObjectiveFunction.MAXIMIZE_UTILITY, risk_aversion=20, prior_estimator=prior(p), mu_uncertainty_set_estimator=EmpiricalMuUncertaintySet(prior_estimator=prior(q))
    ),
    "two sets": lambda p, q: MeanRisk(
        objective_function=ObjectiveFunction.MAXIMIZE_UTILITY,
        risk_aversion=20,
        mu_uncertainty_set_estimator=EmpiricalMuUncertaintySet(prior_estimator=prior(p)),
        covariance_uncertainty_set_estimator=EmpiricalCovarianceUncertaintySet(prior_estimator=prior(q)),
    ),
    "hrp": lambda p, q: HierarchicalRiskParity(prior_estimator=prior(p), distance_estimator=CovarianceDistance(covariance_estimator=q)),
    "herc": lambda p, q: HierarchicalEqualRiskContribution(prior_estimator=prior(p), distance_estimator=CovarianceDistance(covariance_estimator=q)),
    "nco": lambda p, q: NestedClustersOptimization(distance_estimator=CovarianceDistance(covariance_estimator=p), inner_estimator=InverseVolatility(prior_estimator=prior(q)), outer_estimator=EqualWeighted()),
    "stacking": lambda p, q: StackingOptimization([("a", InverseVolatility(prior_estimator=prior(p))), ("b", HierarchicalRiskParity(prior_estimator=prior(q)))], final_estimator=InverseVolatility()),
    "moments": lambda p, q: EmpiricalPrior(mu_estimator=ShrunkMu(covariance_estimator=p), covariance_estimator=DetoneCovariance(covariance_estimator=q)),
}


@st.composite
def two_cases(draw):
    c = draw(cases(names=["prior"]))
    c["slot"] = draw(gen.choice(list(TWO) + list(PAIRS)))
    c["same"] = draw(st.booleans())
    return c


@law(two_cases(), quick=90, thorough=800, rule="both extra tables change the result")
def each_request_gets_its_own(c):
    X, _, m = data(c)
    g = gen.rng_of(c["seed"] + 1)
    m2 = pd.DataFrame(g.gamma(0.6, size=m.shape) + 0.02, index=X.index, columns=m.columns)
    build = TWO.get(c["slot"]) or PAIRS[c["slot"]]
    first = ProbeCov if c["slot"] in TWO else ProbeMu
    same = c["same"]

    def probes(kind):
        if kind == "routed":
            a = quiet(lambda: first().set_fit_request(marker=True if same else "one"))
            b = quiet(lambda: ProbeCov().set_fit_request(marker=True if same else "two"))
        else:
            a = first(table=(X, m) if kind != "second only" else None)
            b = ProbeCov(table=(X, m if same else m2) if kind != "first only" else None)
        return a, b

    params = {"marker": as_kind(m, c["kind"])} if same else {"one": as_kind(m, c["kind"]), "two": as_kind(m2, c["kind"])}
    what = "prior" if c["slot"] in ("prior", "black litterman", "moments") else "w"
    a = quiet(lambda: build(*probes("routed")).fit(X, **params))
    b = quiet(lambda: build(*probes("table")).fit(X))
    t = {"rtol": 0, "atol": 2e-4} if c["slot"] in ("prior and set", "two sets", "mean risk") else {"rtol": 1e-8, "atol": 1e-10}
    close(result(a, what), result(b, what), "requests were mixed up", case=c, **t)
    # one requests, the other declines
    p, q = first(), ProbeCov()
    p = quiet(lambda: p.set_fit_request(marker=True))
    q = quiet(lambda: q.set_fit_request(marker=False))
    only = quiet(lambda: build(p, q).fit(X, marker=as_kind(m, c["kind"])))
    ref = quiet(lambda: build(first(table=(X, m)), ProbeCov()).fit(X))
    close(result(only, what), result(ref, what), "the extra data reached an estimator that declined it", case=c, **t)
    f1 = quiet(lambda: build(*probes("first only")).fit(X))
    f2 = quiet(lambda: build(*probes("second only")).fit(X))
    note(c["slot"])
    return not np.allclose(result(f1, what), result(b, what), atol=1e-9) and not np.allclose(result(f2, what), result(b, what), atol=1e-9)


# ---------------------------------------------------------------- implied volatility
@st.composite
def implied_cases(draw):
    return {
        "k": draw(st.integers(2, 6)),
        "n": draw(gen.choice([63, 80, 101, 150])),
        "win": draw(gen.choice([20, 20, 5, 12, 21])),
        "ann": draw(gen.choice([252.0, 252.0, 365.0, 1.0])),
        "adj": draw(gen.choice([None, None, 1.2, "list", "dict"])),
        "cov": draw(gen.choice(["default", "empirical", "ledoit", "biased"])),
        "reg": draw(gen.choice([None, None, "ridge", "no intercept"])),
        "perm": draw(gen.choice(["same", "shuffled", "more", "array"])),
        "via": draw(gen.choice(["direct", "direct", "prior", "optimizer", "pipeline"])),
        "seed": draw(gen.seeds),
    }


def implied_data(c):
    g = gen.rng_of(c["seed"])
    n, k = c["n"], c["k"]
    idx = pd.date_range("2019-01-01", periods=n, freq="B")
    vol = 0.01 * np.exp(0.3 * np.cumsum(g.normal(size=(n, k)), axis=0) / np.sqrt(20)) * g.uniform(0.5, 2, k)
    z = g.normal(size=(n, k)) + 0.6 * g.normal(size=(n, 1))
    X = pd.DataFrame(vol * z, index=idx, columns=gen.names(k))
    iv = pd.DataFrame(vol * np.exp(0.1 * g.normal(size=(n, k))) * np.sqrt(252) * 1.1, index=idx, columns=gen.names(k))
    return X, iv


@law(implied_cases(), quick=120, thorough=1200, rule="the volatility regression or an adjustment was used")
def implied_covariance(c):
    X, iv = implied_data(c)
    g = gen.rng_of(c["seed"] + 9)
    k = c["k"]
    names = list(X.columns)
    cov = {"default": None, "empirical": EmpiricalCovariance(), "ledoit": LedoitWolf(), "biased": EmpiricalCovariance(ddof=0, window_size=40)}[c["cov"]]
    reg = {None: None, "ridge": Ridge(alpha=0.5), "no intercept": LinearRegression(fit_intercept=False)}[c["reg"]]
    ratio = g.uniform(0.8, 1.6, k)
    adj = {"list": list(ratio), "dict": dict(zip(names, ratio, strict=True))}.get(c["adj"], c["adj"])
    est = ImpliedCovariance(prior_covariance_estimator=cov, annualized_factor=c["ann"], window_size=c["win"], linear_regressor=reg, volatility_risk_premium_adj=adj)
    given = iv
    if c["perm"] == "shuffled":
        given = iv[[names[i] for i in g.permutation(k)]]
    elif c["perm"] == "more":
        given = iv.assign(ZZ=0.5, A99=0.1)
        given = given[list(given.columns[g.permutation(k + 2)])]
    elif c["perm"] == "array":
        given = iv.to_numpy()
    keep = np.array(given, copy=True)
    if c["via"] == "direct":
        m = quiet(lambda: est.fit(X, implied_vol=given))
    else:
        est = quiet(lambda: est.set_fit_request(implied_vol=True))
        p = EmpiricalPrior(covariance_estimator=est)
        if c["via"] == "prior":
            m = quiet(lambda: p.fit(X, implied_vol=given)).covariance_estimator_
        elif c["via"] == "optimizer":
            m = quiet(lambda: InverseVolatility(prior_estimator=p).fit(X, implied_vol=given)).prior_estimator_.covariance_estimator_
        else:
            X = X.copy()
            if c["perm"] != "array" and k > 2:
                X.iloc[:, 1] = 0.0  # dropped by the pre-selection
            pipe = Pipeline([("pre", DropZeroVariance()), ("opt", InverseVolatility(prior_estimator=p))])
            if c["adj"] in ("list", "dict") and k > 2 and c["perm"] != "array":
                return False
            m = quiet(lambda: pipe.fit(X, implied_vol=given))[-1].prior_estimator_.covariance_estimator_
            cols = [n for n in names if X[n].std() > 0]
            X, iv = X[cols], iv[cols]
            k = len(cols)
            if list(cols) != names:
                ratio = ratio[[names.index(n) for n in cols]]
    check(np.array_equal(np.asarray(given), keep), "the volatilities were modified")
    S = quiet(lambda: ({"default": EmpiricalCovariance(), "empirical": EmpiricalCovariance(), "ledoit": LedoitWolf(), "biased": EmpiricalCovariance(ddof=0, window_size=40)}[c["cov"]]).fit(X)).covariance_
    sd = np.sqrt(np.diag(S))
    corr = S / np.outer(sd, sd)
    x, v = X.to_numpy(), iv.to_numpy() / np.sqrt(c["ann"])
    if c["adj"] is not None:
        want = v[-1] / (ratio if c["adj"] in ("list", "dict") else c["adj"])
    else:
        w = c["win"]
        folds = len(x) // w
        ends = [len(x) - w * (folds - 1 - i) for i in range(folds)]
        rv = np.log([x[e - w : e].std(axis=0, ddof=1) for e in ends])
        lv = np.log([v[e - 1] for e in ends])
        want = np.zeros(k)
        for i in range(k):
            A = np.column_stack([lv[:-1, i], rv[:-1, i]])
            model = {None: LinearRegression(), "ridge": Ridge(alpha=0.5), "no intercept": LinearRegression(fit_intercept=False)}[c["reg"]].fit(A, rv[1:, i])
            want[i] = np.exp(model.predict(np.array([[lv[-1, i], rv[-1, i]]]))[0])
            close(m.coefs_[i], model.coef_, "regression coefficients", rtol=1e-6, atol=1e-8)
            close(m.intercepts_[i], model.intercept_, "regression intercept", rtol=1e-6, atol=1e-8)
            close(m.r2_scores_[i], model.score(A, rv[1:, i]), "regression score", rtol=1e-6, atol=1e-8)
    close(m.pred_realised_vols_, want, "predicted volatilities", rtol=1e-6, atol=0, case=c)
    close(m.covariance_, corr * np.outer(want, want), "implied covariance", rtol=1e-6, atol=1e-14, case=c)
    note(c["via"], str(c["adj"]), c["perm"])
    return True


@law(st.tuples(implied_cases(), gen.choice(["none", "missing", "shape", "negative", "window", "folds", "adj", "short adj"])), quick=40, thorough=200, rule="every malformed request")
def implied_refusals(case):
    c, bad = case
    X, iv = implied_data(c)
    e = ImpliedCovariance(window_size=20)
    call = lambda: e.fit(X, implied_vol=iv)  # noqa: E731
    if bad == "none":
        call = lambda: e.fit(X)  # noqa: E731
    elif bad == "missing":
        iv = iv.iloc[:, 1:]
    elif bad == "shape":
        iv = iv.iloc[1:]
    elif bad == "negative":
        iv = iv.copy()
        iv.iloc[3, 0] = -0.1
    elif bad == "window":
        e = ImpliedCovariance(window_size=2)
    elif bad == "folds":
        e = ImpliedCovariance(window_size=c["n"] // 3 + 1)
    elif bad == "adj":
        e = ImpliedCovariance(volatility_risk_premium_adj=-1.0 if c["k"] % 2 else 0.0)
    else:
        e = ImpliedCovariance(volatility_risk_premium_adj={"A0": 1.1})
    must_raise(lambda: quiet(call), ValueError, f"malformed implied volatility accepted ({bad})")
    return True


@law(cases(names=["prior"]), quick=30, thorough=200, rule="weights are not constant")
def regression_weights(c):
    X, Y, m = data(c)
    w = m.iloc[:, 0].to_numpy()
    reg = quiet(lambda: Ridge(alpha=0.0).set_fit_request(sample_weight=True))
    e = quiet(lambda: LoadingMatrixRegression(linear_regressor=reg).fit(X, Y, sample_weight=w))
    A = np.column_stack([np.ones(len(X)), Y])
    s = np.sqrt(w)[:, None]
    coef = np.linalg.lstsq(A * s, X.to_numpy() * s, rcond=None)[0]
    close(e.loading_matrix_, coef[1:].T, "weighted loadings", rtol=1e-6, atol=1e-8, case=c)
    close(e.intercepts_, coef[0], "weighted intercepts", rtol=1e-6, atol=1e-9, case=c)
    must_raise(lambda: quiet(lambda: LoadingMatrixRegression(linear_regressor=Ridge()).fit(X, Y, sample_weight=w)), (TypeError, ValueError), "weights nobody requested were accepted")
    return True
