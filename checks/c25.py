"""C25 Cross-validated prediction is exactly fit-on-train, predict-on-test."""

import copy
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import gen, zoo
from harness.core import check, close, law, must_raise, note

ASSUMPTIONS = [
    "the same computation is repeated on both sides, so weights and returns are compared to 1e-5 (solvers amplify the rounding of another memory layout)",
    "job counts above one use threads, and worker processes in the law named processes",
    "pipelines of data frames use set_output(transform=\"pandas\"), as the documentation asks",
    "column subsets are not combined with a target y (the subset is applied to y as well)",
]

SPLITTERS = ["walk", "walk reduce", "walk calendar", "kfold", "series", "int", "combinatorial", "explicit", "explicit reversed"]
ESTIMATORS = ["InverseVolatility", "EqualWeighted", "MeanRisk", "MeanRiskDict", "HRP", "HERC", "RiskBudgetingDict", "Stacking", "BlackLitterman", "MeanRiskRobust", "pipeline", "pipeline2", "factor", "costs"]


def estimator_of(name, cols, g):
    from sklearn.pipeline import Pipeline

    from skfolio import optimization as so
    from skfolio import prior as pr
    from skfolio.pre_selection import DropCorrelated, SelectKExtremes

    if name == "pipeline":
        return Pipeline([("s", SelectKExtremes(k=2)), ("o", so.InverseVolatility())]).set_output(transform="pandas")
    if name == "pipeline2":
        return Pipeline([("s", DropCorrelated(threshold=0.3)), ("o", so.MeanRisk(max_weights=0.9))]).set_output(transform="pandas")
    if name == "factor":
        return so.MeanRisk(prior_estimator=pr.FactorModel(), min_weights=0.02)
    if name == "costs":
        return so.MeanRisk(transaction_costs=0.001, management_fees={cols[0]: 0.0005}, previous_weights={cols[-1]: 1.0}, portfolio_params={"tag": "q", "risk_free_rate": 0.0001})
    return zoo.opt_zoo(cols, g)[name]()


def splitter_of(case, n):
    """(cv argument, list of (train, [tests]) worked out by hand)."""
    from sklearn.model_selection import KFold, TimeSeriesSplit

    from skfolio.model_selection import CombinatorialPurgedCV, WalkForward

    a, b = case["a"], case["b"]
    idx = np.arange(n)
    kind = case["cv"]
    if kind in ("walk", "walk reduce"):
        train, test, purge = 12 + a, 3 + b, a % 3
        red = kind == "walk reduce"
        cv = WalkForward(train_size=train, test_size=test, purged_size=purge, reduce_test=red)
        out = []
        for s in range(train + purge, n, test):
            if s + test > n and not red:
                break
            out.append((idx[s - purge - train : s - purge], idx[s : s + test]))
        return cv, out
    if kind == "walk calendar":
        cv = WalkForward(train_size=3, test_size=1, freq="W-FRI")
        return cv, None
    if kind in ("kfold", "int"):
        k = 3 + a % 3
        sizes = [n // k + (i < n % k) for i in range(k)]
        ends = np.cumsum(sizes)
        out = [(np.setdiff1d(idx, idx[e - s : e]), idx[e - s : e]) for e, s in zip(ends, sizes, strict=True)]
        return (KFold(k) if kind == "kfold" else k), out
    if kind == "series":
        return TimeSeriesSplit(2), None
    if kind == "combinatorial":
        f = 3 + a % 3
        cv = CombinatorialPurgedCV(n_folds=f, n_test_folds=2 + b % (f - 2), purged_size=min(a % 2, 1), embargo_size=b % 2)
        return cv, None
    # an explicit iterable: any training rows, disjoint increasing test blocks
    g = gen.rng_of(case["seed"] + 9)
    cuts = sorted(g.choice(np.arange(12, n - 4), 2, replace=False).tolist())
    tests = [idx[cuts[0] : cuts[1]], idx[cuts[1] : n - 2]]
    out = []
    for t in tests:
        if len(t) == 0:
            continue
        rest = np.setdiff1d(idx, t)
        out.append((np.sort(g.choice(rest, size=min(len(rest), 20), replace=False)), t))
    if kind == "explicit reversed":
        out = out[::-1]
    return out, out


case_s = st.fixed_dictionaries(
    {
        "m": gen.mat(36, 60, 3, 5, kinds=gen.SMOOTH),
        "est": gen.choice(ESTIMATORS),
        "cv": gen.choice(SPLITTERS),
        "a": st.integers(0, 5),
        "b": st.integers(0, 5),
        "seed": gen.seeds,
        "form": gen.choice(["frame", "frame", "array"]),
        "columns": gen.choice([None, None, "subset", "reversed"]),
        "jobs": gen.choice([None, None, 1, 2, 3]),
        "params": gen.choice([None, "name", "tag"]),
    }
)


def fit_predict(est, X, y, train, test):
    import sklearn as sk

    take = (lambda A, r: A.iloc[r]) if isinstance(X, pd.DataFrame) else (lambda A, r: A[r])
    m = sk.clone(est).fit(take(X, train), None if y is None else y.iloc[train])
    tests = test if isinstance(test, list) else [test]
    return [m.predict(take(X, t)) for t in tests]


def same_portfolio(p, q, what):
    close(p.weights, q.weights, what + ": weights", rtol=0, atol=1e-5)
    close(p.returns, q.returns, what + ": returns", rtol=0, atol=1e-5 * max(np.max(np.abs(p.returns)), 1e-3))
    check(list(p.observations) == list(q.observations), what + ": observations")
    check(list(p.assets) == list(q.assets), what + ": assets")
    check(p.name == q.name and p.tag == q.tag, what + ": name or tag", got=(p.name, p.tag), want=(q.name, q.tag))
    check(p.risk_free_rate == q.risk_free_rate, what + ": risk-free rate")


def setup(case):
    X = gen.frame(case["m"])
    X.index = pd.bdate_range("2021-03-01", periods=len(X))
    cols = list(X.columns)
    g = gen.rng_of(case["seed"])
    est = estimator_of(case["est"], cols, g)
    y = None
    if case["est"] == "factor":
        y = pd.DataFrame(X.to_numpy() @ g.normal(size=(len(cols), 2)) + 0.002 * g.normal(size=(len(X), 2)), columns=["f1", "f2"], index=X.index)
    return X, y, est


def splits_of(cv, hand, X):
    s = [(tr, te) for tr, te in cv.split(X)] if hasattr(cv, "split") else [tuple(q) for q in hand]
    if hand is not None:
        check(len(s) == len(hand), "number of splits")
        for (a, b), (c, d) in zip(s, hand, strict=True):
            check(np.array_equal(a, c) and np.array_equal(b, d), "splits", got=(a, b), want=(c, d))
    return s


def expected(est, X, y, splits, combinatorial, cv):
    preds = [fit_predict(est, X, y, tr, te) for tr, te in splits]
    if not combinatorial:
        order = sorted(range(len(splits)), key=lambda i: splits[i][1][0])
        return [[preds[i][0] for i in order]]
    ids = cv.get_path_ids()
    paths = [[] for _ in range(ids.max() + 1)]
    for i, ps in enumerate(preds):
        for j, p in enumerate(ps):
            paths[ids[i, j]].append((splits[i][1][j][0], p))
    return [[p for _, p in sorted(q, key=lambda z: z[0])] for q in paths]


@law(case_s, quick=330, thorough=6000, rule="at least two splits were compared")
def by_hand(case):
    import cvxpy as cp
    import joblib

    from skfolio import MultiPeriodPortfolio, Population
    from skfolio.model_selection import CombinatorialPurgedCV, cross_val_predict

    X, y, est = setup(case)
    kw, Z = {}, X
    if case["form"] == "array" and case["est"] in ("InverseVolatility", "EqualWeighted", "HERC", "MeanRiskRobust") and case["cv"] != "walk calendar":
        X = Z = X.to_numpy()
    if case["columns"] and case["est"] in ("InverseVolatility", "EqualWeighted", "MeanRiskRobust", "pipeline"):
        ci = np.arange(1, X.shape[1]) if case["columns"] == "subset" else np.arange(X.shape[1])[::-1]
        kw["column_indices"] = ci
        Z = X[:, ci] if isinstance(X, np.ndarray) else X.iloc[:, ci]
        note("columns")
    cv, hand = splitter_of(case, len(X))
    if case["params"]:
        kw["portfolio_params"] = {"name": "cv run"} if case["params"] == "name" else {"tag": "cv tag", "annualized_factor": 100}
    pp0 = copy.deepcopy(kw.get("portfolio_params"))
    X0, v0 = X.copy(), set(vars(est))
    splits = splits_of(cv if case["cv"] != "int" else _kfold(cv), hand, X)
    comb = isinstance(cv, CombinatorialPurgedCV)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            want = expected(est, Z, y, splits, comb, cv)
            with joblib.parallel_config(backend="threading"):
                got = cross_val_predict(est, X, y=y, cv=cv, n_jobs=case["jobs"], **kw)
        except cp.SolverError:
            note("solver failure")
            return False
    check(kw.get("portfolio_params") == pp0, "portfolio_params was changed")
    check(np.array_equal(np.asarray(X), np.asarray(X0)), "the data was changed")
    check(set(vars(est)) == v0, "the estimator passed in was fitted", new=set(vars(est)) - v0)
    if comb:
        check(isinstance(got, Population), "a combinatorial prediction is not a population")
        runs = list(got)
        base = (pp0 or {}).get("name", "path")
        check([r.name for r in runs] == [f"{base}_{i}" for i in range(len(runs))], "path names", got=[r.name for r in runs])
    else:
        check(isinstance(got, MultiPeriodPortfolio), "the prediction is not a multi-period portfolio")
        runs = [got]
        if pp0 and "name" in pp0:
            check(got.name == "cv run", "name", got=got.name)
    check(len(runs) == len(want), "number of paths", got=len(runs), want=len(want))
    for run, ref in zip(runs, want, strict=True):
        check(len(run) == len(ref), "number of test portfolios", got=len(run), want=len(ref))
        for i, (p, q) in enumerate(zip(run.portfolios, ref, strict=True)):
            same_portfolio(p, q, f"test {i}")
        close(run.returns, np.concatenate([q.returns for q in ref]), "concatenated returns", rtol=0, atol=1e-5 * max(np.max(np.abs(run.returns)), 1e-3))
        obs = list(run.observations) if isinstance(X, pd.DataFrame) else []
        check(all(a < b for a, b in zip(obs, obs[1:], strict=False)), "test observations are not in chronological order")
        if pp0 and "tag" in pp0:
            check(run.tag == "cv tag" and run.annualized_factor == 100, "portfolio_params were not applied", got=(run.tag, run.annualized_factor))
    note(case["cv"], case["est"], "threads" if case["jobs"] and case["jobs"] > 1 else "serial")
    return len(splits) > 1


def _kfold(k):
    from sklearn.model_selection import KFold

    return KFold(k)


@law(case_s, quick=220, thorough=3000, rule="rows outside a split were changed and the prediction of that split was compared")
def no_lookahead(case):
    import cvxpy as cp

    from skfolio.model_selection import CombinatorialPurgedCV, cross_val_predict

    X, y, est = setup(case)
    cv, hand = splitter_of(case, len(X))
    splits = splits_of(cv if case["cv"] != "int" else _kfold(cv), hand, X)
    if not splits:
        return False
    g = gen.rng_of(case["seed"] + 5)
    i = int(g.integers(len(splits)))
    train, test = splits[i]
    comb = isinstance(cv, CombinatorialPurgedCV)
    tests = list(test) if comb else [test]
    j = int(g.integers(len(tests)))
    # the prediction on a test fold depends on the training rows and on that fold only
    used = set(train.tolist()) | set(tests[j].tolist())
    outside = [q for q in range(len(X)) if q not in used]
    A = X.to_numpy().copy(order="C")
    B = A.copy()
    B[outside] = A[outside][:, ::-1] * 1.7 + 0.003
    X, X2 = (pd.DataFrame(q, index=X.index, columns=X.columns) for q in (A, B))
    y2 = y
    if y is not None:
        y2 = y.copy()
        y2.iloc[outside] = y.to_numpy()[outside] * -0.6
        # the factors of the test rows are not used for a prediction either
        y2.iloc[tests[j]] = y.to_numpy()[tests[j]] * 3.0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            a = cross_val_predict(est, X, y=y, cv=cv)
            b = cross_val_predict(est, X2, y=y2, cv=cv)
        except cp.SolverError:
            note("solver failure")
            return False
    if comb:
        path = cv.get_path_ids()[i, j]
        a, b = a[path], b[path]
    first = X.index[tests[j][0]]
    pa, pb = ([p for p in m.portfolios if p.observations[0] == first][0] for m in (a, b))
    same_portfolio(pb, pa, "after changing unrelated rows")
    note(case["cv"])
    return bool(outside)


@law(st.fixed_dictionaries({"m": gen.mat(30, 40, 3, 4, kinds=gen.SMOOTH), "est": gen.choice(["InverseVolatility", "MeanRisk", "HRP"]), "cv": gen.choice(["walk", "combinatorial"]), "a": st.integers(0, 5), "b": st.integers(0, 5), "seed": gen.seeds}), quick=3, thorough=20, rule="always")
def processes(case):
    from skfolio import MultiPeriodPortfolio
    from skfolio.model_selection import cross_val_predict

    X, y, est = setup(case)
    cv, _ = splitter_of(case, len(X))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = cross_val_predict(est, X, y=y, cv=cv)
        b = cross_val_predict(est, X, y=y, cv=cv, n_jobs=2)
    if isinstance(a, MultiPeriodPortfolio):
        a, b = [a], [b]
    for r, s in zip(a, b, strict=True):
        for p, q in zip(r.portfolios, s.portfolios, strict=True):
            same_portfolio(p, q, "worker processes")


@law(st.fixed_dictionaries({"m": gen.mat(30, 40, 3, 4, kinds=gen.SMOOTH), "bad": gen.choice(["shuffle", "duplicate", "unordered"])}), quick=12, thorough=60, rule="always")
def refusals(case):
    from sklearn.model_selection import KFold

    from skfolio.model_selection import cross_val_predict
    from skfolio.optimization import EqualWeighted

    X = gen.frame(case["m"])
    n = np.arange(len(X))
    cv = {
        "shuffle": KFold(3, shuffle=True, random_state=0),
        "duplicate": [(n[:10], n[10:15]), (n[:10], n[14:20])],
        "unordered": [(n[:10], n[15:10:-1]), (n[:10], n[20:25])],
    }[case["bad"]]
    must_raise(lambda: cross_val_predict(EqualWeighted(), X, cv=cv), ValueError, "must be refused: " + case["bad"])


LAWS = [by_hand, no_lookahead, processes, refusals]
