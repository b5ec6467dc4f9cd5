"""C20 Nested and stacked optimizers compose inner and outer weights."""

import numpy as np
import sklearn as sk
from hypothesis import strategies as st

from harness import gen
from harness.core import check, close, law, note

ASSUMPTIONS = [
    "the optimum of each inner and outer problem is what fitting that estimator alone gives (C12-C19 judge it); tolerance 1e-6 on weights because the same problem is solved twice",
    "combinatorial splits take the quantile path of each inner estimator as given by the library's cross_val_predict and Population.quantile (C25 and C08)",
    "estimators that read y are a factor model and one defined here (weights from the products of the asset and target returns), so that any misalignment of y shows",
    "process-based parallelism is replaced by joblib's threading backend",
]
INNER = ["named", "equal", "inverse", "min_var", "cvar", "hrp", "budget", "fees", "costs"]


def est(name):
    from skfolio import RiskMeasure
    from skfolio import optimization as so

    return {
        "equal": lambda: so.EqualWeighted(),
        "inverse": lambda: so.InverseVolatility(),
        "min_var": lambda: so.MeanRisk(),
        "cvar": lambda: so.MeanRisk(risk_measure=RiskMeasure.CVAR, cvar_beta=0.8),
        "hrp": lambda: so.HierarchicalRiskParity(),
        "budget": lambda: so.RiskBudgeting(),
        "fees": lambda: so.MeanRisk(management_fees=0.0007),
        "costs": lambda: so.MeanRisk(transaction_costs=0.002, budget=0.9),
        "named": lambda: so.MeanRisk(transaction_costs={"A0": 0.003, "A2": 0.001}, management_fees={"A1": 0.0005}),
        "capped": lambda: so.MeanRisk(max_weights=0.7),
        "utility": lambda: so.MeanRisk(objective_function=so.ObjectiveFunction.MAXIMIZE_UTILITY, risk_aversion=5.0),
        "leveraged": lambda: so.MeanRisk(budget=1.5, max_weights=1.0),
    }[name]()


def follower():
    """Optimizer whose weights are the absolute products of asset and target returns."""
    from skfolio.optimization import BaseOptimization

    class Follow(BaseOptimization):
        def __init__(self, power=1.0, portfolio_params=None):
            super().__init__(portfolio_params=portfolio_params)
            self.power = power

        def fit(self, X, y=None, **fit_params):
            v = np.abs(np.asarray(X).T @ np.asarray(y).reshape(len(X), -1).sum(axis=1)) ** self.power + 1e-9
            self.weights_ = v / v.sum()
            return self

    return Follow()


def reader(name):
    from skfolio.optimization import MeanRisk
    from skfolio.prior import FactorModel

    return {"follow": follower, "factor": lambda: MeanRisk(prior_estimator=FactorModel()), "equal": lambda: est("equal")}[name]()


def make_cv(c):
    from sklearn.model_selection import KFold

    from skfolio.model_selection import CombinatorialPurgedCV, WalkForward

    return {
        "none": None,
        "int": 3,
        "kfold": KFold(4),
        "walk": WalkForward(train_size=15, test_size=5),
        "cpcv": CombinatorialPurgedCV(n_folds=4, n_test_folds=2),
        "ignore": "ignore",
    }[c]


def splits(c, n):
    from sklearn.model_selection import KFold

    if c == "none":
        return list(KFold(5).split(np.zeros(n)))
    if c == "int":
        return list(KFold(3).split(np.zeros(n)))
    if c == "kfold":
        return list(KFold(4).split(np.zeros(n)))
    out, a = [], 15
    while a + 5 <= n:
        out.append((np.arange(a - 15, a), np.arange(a, a + 5)))
        a += 5
    return out


def net(model, x, cols):
    w = model.weights_
    tc, mf = (getattr(model, a, 0.0) or 0.0 for a in ("transaction_costs", "management_fees"))
    if isinstance(tc, dict) or isinstance(mf, dict):
        full = lambda d: np.array([d.get(c, 0.0) if isinstance(d, dict) else d for c in cols])  # noqa: E731
        tc, mf = full(tc), full(mf)
    return x @ w - np.sum(tc * np.abs(w)) - np.sum(mf * w)


def rows(y, i):
    return None if y is None else y.iloc[i] if hasattr(y, "iloc") else y[i]


def out_of_sample(proto, X, ids, c, q, y=None):
    """Returns the outer estimator must see for one inner estimator."""
    from skfolio import RatioMeasure
    from skfolio.model_selection import cross_val_predict

    Z = X.iloc[:, ids] if hasattr(X, "iloc") else X[:, ids]
    x = np.asarray(Z)
    cols = list(Z.columns) if hasattr(Z, "iloc") else None
    if c == "ignore":
        return net(sk.clone(proto).fit(Z, y), x, cols)
    if c == "cpcv":
        pop = cross_val_predict(sk.clone(proto), Z, y, cv=make_cv(c))
        return np.asarray(pop.quantile(measure=RatioMeasure.SHARPE_RATIO, q=q).returns)
    take = (lambda i: Z.iloc[i]) if hasattr(Z, "iloc") else (lambda i: Z[i])
    return np.concatenate([net(sk.clone(proto).fit(take(a), rows(y, a)), x[b], cols) for a, b in splits(c, len(x))])


CVS = ["none", "int", "kfold", "walk", "cpcv", "ignore"]
OUTER = ["equal", "inverse", "min_var", "cvar", "capped", "utility", "leveraged", "default"]
nco_s = st.fixed_dictionaries(
    {
        "m": gen.mat(30, 50, 4, 8, kinds=gen.SMOOTH),
        "inner": gen.choice(INNER),
        "outer": gen.choice(OUTER),
        "cv": gen.choice(CVS),
        "clusters": gen.choice(["hier", "hier2", "kmeans", "fixed", "fixed", "fixed"]),
        "labels": gen.seeds,
        "df": st.booleans(),
        "jobs": gen.choice([None, None, 2]),
        "q": gen.choice([0.5, 0.2, 0.9]),
    }
)


def clustering(case, k):
    import sklearn.base as skb
    from sklearn.cluster import KMeans

    from skfolio.cluster import HierarchicalClustering

    if case["clusters"] == "hier":
        return HierarchicalClustering()
    if case["clusters"] == "hier2":
        return HierarchicalClustering(max_clusters=2)
    if case["clusters"] == "kmeans":
        return KMeans(3, random_state=0, n_init=2)
    g = gen.rng_of(case["labels"])
    n = int(g.integers(2, k))
    lab = np.concatenate([np.arange(n), g.integers(0, n, k - n)])
    g.shuffle(lab)

    class Fixed(skb.ClusterMixin, skb.BaseEstimator):
        def __init__(self, labels=None):
            self.labels = labels

        def fit(self, X, y=None):
            self.labels_ = np.asarray(self.labels)
            return self

    return Fixed(lab.tolist())


def outer_fit(name, z):
    return (est(name) if name != "default" else est("min_var")).fit(z).weights_


@law(nco_s, quick=260, thorough=2600, rule="at least two clusters and one with several assets")
def nested(case):
    import joblib

    from skfolio.optimization import NestedClustersOptimization

    X = gen.frame(case["m"])
    if "named" in case["inner"]:
        case = {**case, "df": True}
    X = X if case["df"] else X.to_numpy()
    x = np.asarray(X)
    k = x.shape[1]
    m = NestedClustersOptimization(
        inner_estimator=est(case["inner"]), outer_estimator=None if case["outer"] == "default" else est(case["outer"]),
        clustering_estimator=clustering(case, k), cv=make_cv(case["cv"]), n_jobs=case["jobs"], quantile=case["q"],
    )  # fmt: skip
    with joblib.parallel_backend("threading", n_jobs=case["jobs"] or 1):
        m.fit(X)
    lab = np.asarray(m.clustering_estimator_.labels_)
    groups = [np.flatnonzero(lab == c) for c in sorted(set(lab.tolist()))]
    check(sorted(np.concatenate(groups).tolist()) == list(range(k)), "an asset is not in exactly one cluster", labels=lab)
    proto = est(case["inner"])
    inner, seen = [], []
    tests = None if case["cv"] in ("ignore", "cpcv") else np.concatenate([b for _, b in splits(case["cv"], len(x))])
    for ids in groups:
        w = np.zeros(k)
        if len(ids) == 1:
            w[ids] = 1
            seen.append(x[:, ids[0]] if tests is None else x[tests, ids[0]])
        else:
            Z = X.iloc[:, ids] if case["df"] else X[:, ids]
            w[ids] = sk.clone(proto).fit(Z).weights_
            seen.append(out_of_sample(proto, X, ids, case["cv"], case["q"]))
        inner.append(w)
    z = np.array(seen).T
    ow = outer_fit(case["outer"], z)
    inner = np.array(inner)
    note(case["cv"])
    check(not hasattr(m.inner_estimator, "weights_") and not hasattr(m.outer_estimator, "weights_"), "a given estimator was fitted instead of a clone")
    several = [ids for ids in groups if len(ids) > 1]
    check(len(m.inner_estimators_) == len(several), "number of fitted inner estimators", got=len(m.inner_estimators_))
    for e, ids in zip(m.inner_estimators_, several, strict=True):
        close(e.weights_, sk.clone(proto).fit(X.iloc[:, ids] if case["df"] else X[:, ids]).weights_, "weights of a fitted inner estimator", rtol=0, atol=1e-6)
    close(m.outer_estimator_.weights_, ow, "the outer estimator did not see the returns of the inner portfolios", rtol=0, atol=2e-5)
    close(m.weights_, ow @ inner, "weights are not outer weights times inner weights", rtol=0, atol=2e-5)
    close(m.weights_, m.outer_estimator_.weights_ @ inner, "weights are not outer weights times inner weights", rtol=0, atol=1e-6)
    close(m.weights_.sum(), float(ow @ inner.sum(axis=1)), "the weights do not sum to the budgets", rtol=0, atol=2e-5)
    return len(groups) > 1 and max(map(len, groups)) > 1


stack_s = st.fixed_dictionaries(
    {
        "m": gen.mat(30, 50, 2, 5, kinds=gen.SMOOTH),
        "inner": st.lists(gen.choice([*INNER, "capped", "utility"]), min_size=1, max_size=3).map(lambda v: v + v[:1] if len(v) == 1 and v[0] != "equal" else v),
        "outer": gen.choice(OUTER),
        "cv": gen.choice([*CVS, "prefit"]),
        "names": gen.choice([["a", "b", "c"], ["zz", "b", "aa"], ["model1", "model0", "m"]]),
        "df": st.booleans(),
        "jobs": gen.choice([None, None, 2]),
        "q": gen.choice([0.5, 0.2, 0.9]),
        "nested": gen.choice([None, None, "param", "replace"]),
    }
)


@law(stack_s, quick=260, thorough=2600, rule="at least two inner estimators")
def stacked(case):
    import joblib

    from skfolio.optimization import EqualWeighted, StackingOptimization

    X = gen.frame(case["m"])
    if "named" in case["inner"]:
        case = {**case, "df": True}
    X = X if case["df"] else X.to_numpy()
    x = np.asarray(X)
    k = x.shape[1]
    if case["outer"] == "leveraged" and len(case["inner"]) < 2:
        case = {**case, "outer": "equal"}
    if case["outer"] == "capped" and len(case["inner"]) < 2:
        case = {**case, "outer": "min_var"}
    protos = [est(n) for n in case["inner"]]
    pairs = list(zip(case["names"], [est(n) for n in case["inner"]], strict=False))
    cv = "prefit" if case["cv"] == "prefit" else make_cv(case["cv"])
    m = StackingOptimization(estimators=pairs, final_estimator=None if case["outer"] == "default" else est(case["outer"]), cv=cv, n_jobs=case["jobs"], quantile=case["q"])
    tag = case["names"][0]
    if case["nested"] == "param" and hasattr(protos[0], "management_fees"):
        m.set_params(**{f"{tag}__management_fees": 0.003})
        protos[0].management_fees = 0.003
        check(m.get_params()[f"{tag}__management_fees"] == 0.003, "nested parameter not readable")
    if case["nested"] == "replace":
        m.set_params(**{tag: EqualWeighted()})
        protos[0] = EqualWeighted()
        check(type(m.get_params()[tag]) is EqualWeighted and type(m.estimators[0][1]) is EqualWeighted, "estimator not replaced by name")
    if case["cv"] == "prefit":
        # fitted beforehand, on other data: the stack must use those weights as they are
        half = X.iloc[: len(x) // 2] if case["df"] else X[: len(x) // 2]
        for _, e in m.estimators:
            e.fit(half)
        inner = np.array([p.fit(half).weights_ for p in protos])
        seen = [net(p, x, list(X.columns) if case["df"] else None) for p in protos]
    else:
        inner = np.array([sk.clone(p).fit(X).weights_ for p in protos])
        seen = [out_of_sample(p, X, np.arange(k), case["cv"], case["q"]) for p in protos]
    with joblib.parallel_backend("threading", n_jobs=case["jobs"] or 1):
        m.fit(X)
    z = np.array(seen).T
    # several estimators that behave alike make the outer problem singular: compare what matters
    ow = outer_fit(case["outer"], z)
    note(case["cv"])
    got_ow = m.final_estimator_.weights_
    if case["outer"] in ("min_var", "default", "capped", "leveraged"):
        z = z - z.mean(axis=0)  # the variance does not see the means
    close(z @ got_ow, z @ ow, "the outer estimator did not see the out-of-sample returns of the inner portfolios", rtol=0, atol=2e-5 * np.abs(z).max() * 50)
    close(m.weights_, got_ow @ inner, "weights are not outer weights times inner weights", rtol=0, atol=1e-6)
    check(list(m.named_estimators_) == [n for n, _ in pairs], "named estimators are not in the given order", got=list(m.named_estimators_))
    for (n, _), w in zip(pairs, inner, strict=True):
        close(m.named_estimators_[n].weights_, w, "a named inner estimator has other weights", rtol=0, atol=1e-6, name=n)
    return len(pairs) > 1


bad_s = st.fixed_dictionaries({"m": gen.mat(30, 40, 2, 4, kinds=gen.SMOOTH), "what": gen.choice(["empty", "duplicate", "dunder", "clash", "unfitted", "shuffled", "none"])})


@law(bad_s, quick=60, thorough=300, rule="always")
def refusals(case):
    from sklearn.model_selection import KFold

    from harness.core import must_raise
    from skfolio.optimization import StackingOptimization

    X = gen.frame(case["m"])
    e = [("a", est("equal")), ("b", est("inverse"))]
    kw = {}
    match case["what"]:
        case "empty":
            e = []
        case "none":
            e = None
        case "duplicate":
            e = [("a", est("equal")), ("a", est("inverse"))]
        case "dunder":
            e = [("a__b", est("equal")), ("c", est("inverse"))]
        case "clash":
            e = [("cv", est("equal")), ("c", est("inverse"))]
        case "unfitted":
            kw["cv"] = "prefit"
        case "shuffled":
            kw["cv"] = KFold(3, shuffle=True, random_state=0)
    must_raise(lambda: StackingOptimization(estimators=e, final_estimator=est("equal"), **kw).fit(X), Exception, f"not refused: {case['what']}")


target_s = st.fixed_dictionaries(
    {
        "m": gen.mat(30, 50, 4, 8, kinds=gen.SMOOTH),
        "f": gen.seeds,
        "cols": st.integers(1, 3),
        "form": gen.choice(["frame", "frame", "array", "series"]),
        "stack": st.booleans(),
        "inner": gen.choice(["follow", "factor", "equal"]),
        "outer": gen.choice(["follow", "factor"]),
        "cv": gen.choice(CVS),
        "clusters": gen.choice(["hier", "fixed", "fixed"]),
        "labels": gen.seeds,
        "df": st.booleans(),
        "q": gen.choice([0.5, 0.2]),
    }
)


@law(target_s, quick=200, thorough=2000, rule="an inner or outer estimator reads the targets of a strict subset of the rows")
def targets(case):
    """Targets reach inner and outer estimators with the rows of the data they belong to, and with all their columns."""
    import pandas as pd

    from skfolio.optimization import NestedClustersOptimization, StackingOptimization

    X = gen.frame(case["m"])
    g = gen.rng_of(case["f"])
    k = X.shape[1]
    y = X.to_numpy() @ g.normal(size=(k, case["cols"])) / k + g.normal(size=(len(X), case["cols"])) * 0.3 * X.to_numpy().std()
    y = pd.DataFrame(y, index=X.index, columns=[f"F{i}" for i in range(case["cols"])])
    inner, outer = case["inner"], case["outer"]
    if case["form"] == "series":
        # a factor model takes a table
        y, inner, outer = y["F0"], inner.replace("factor", "follow"), outer.replace("factor", "follow")
    elif case["form"] == "array":
        y = y.to_numpy()
    X = X if case["df"] else X.to_numpy()
    x = np.asarray(X)
    cv = make_cv(case["cv"])
    if case["stack"]:
        names = [inner, "inverse", "follow"]
        protos = [reader(inner), est("inverse"), follower()]
        m = StackingOptimization(list(zip("abc", [sk.clone(p) for p in protos], strict=True)), final_estimator=reader(outer), cv=cv, quantile=case["q"]).fit(X, y)
        groups, last = [np.arange(k)] * 3, m.final_estimator_
    else:
        m = NestedClustersOptimization(inner_estimator=reader(inner), outer_estimator=reader(outer), clustering_estimator=clustering(case, k), cv=cv, quantile=case["q"]).fit(X, y)
        lab = np.asarray(m.clustering_estimator_.labels_)
        groups, last = [np.flatnonzero(lab == c) for c in sorted(set(lab.tolist()))], m.outer_estimator_
        protos = [reader(inner)] * len(groups)
        names = [inner] * len(groups)
    tests = np.arange(len(x)) if case["cv"] in ("ignore", "cpcv") else np.concatenate([b for _, b in splits(case["cv"], len(x))])
    ws, seen = [], []
    for ids, proto in zip(groups, protos, strict=True):
        w = np.zeros(k)
        if len(ids) == 1:
            w[ids] = 1
            seen.append(x[tests, ids[0]])
        else:
            w[ids] = sk.clone(proto).fit(X.iloc[:, ids] if case["df"] else X[:, ids], y).weights_
            seen.append(out_of_sample(proto, X, ids, case["cv"], case["q"], y))
        ws.append(w)
    z = np.array(seen).T
    ow = reader(outer).fit(z, np.asarray(rows(y, tests))).weights_
    note("stack" if case["stack"] else "nested", case["cv"])
    if outer == "follow" or not case["stack"]:
        # a stack of like estimators leaves the outer factor model without a unique optimum
        close(last.weights_, ow, "the outer estimator saw other returns or targets", rtol=0, atol=5e-5, names=names)
    close(m.weights_, last.weights_ @ np.array(ws), "weights are not outer weights times inner weights", rtol=0, atol=1e-6, names=names)
    return case["cv"] not in ("ignore", "cpcv")


LAWS = [nested, stacked, targets, refusals]
