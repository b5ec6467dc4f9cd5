"""C19 Hierarchical and naive allocators follow their allocation rule."""

import numpy as np
import scipy.cluster.hierarchy as sch
import scipy.spatial.distance as scd
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import check, close, law, must_raise, note

ASSUMPTIONS = [
    "the tree and the cluster labels are read from the fitted clustering estimator (C32 judges those), after checking that its distances are those of the returns",
    "scipy's optimal leaf ordering is the published seriation step",
    "cases where a single asset has a risk that is not clearly positive are skipped (the rule divides by it)",
    "HERC applies its bounds by the smallest relative change of the weights; compared by that deviation to 1e-4 + 1e-3 relative (interior-point solver), HRP to 1e-8",
]
RISKS = [
    "variance", "standard_deviation", "semi_variance", "semi_deviation", "mean_absolute_deviation", "cvar", "evar",
    "worst_realization", "cdar", "max_drawdown", "average_drawdown", "edar", "first_lower_partial_moment", "ulcer_index",
    "gini_mean_difference", "value_at_risk", "drawdown_at_risk", "entropic_risk_measure", "fourth_central_moment",
    "fourth_lower_partial_moment", "annualized_variance", "annualized_semi_deviation",
]  # fmt: skip
case_s = st.fixed_dictionaries(
    {
        "m": gen.mat(20, 60, 2, 9, kinds=gen.SMOOTH),
        "algo": gen.choice(["hrp", "herc"]),
        "risk": gen.choice(RISKS),
        "linkage": gen.choice(["ward", "single", "complete", "average"]),
        "clusters": gen.choice([None, None, 2, 3, 4]),
        "cov": gen.choice(["default", "default", "shrunk", "ew"]),
        "bounds": gen.choice(["none", "none", "max", "min", "both", "exclude"]),
        "form": gen.choice(["array", "dict", "scalar"]),
        "tc": gen.choice([0.0, 0.0, 0.001]),
        "mf": gen.choice([0.0, 0.0, 0.0005]),
        "pw": st.booleans(),
        "seed": gen.seeds,
    }
)


def risk_enum(name):
    from skfolio import ExtraRiskMeasure, RiskMeasure

    try:
        return RiskMeasure(name)
    except ValueError:
        return ExtraRiskMeasure(name)


class Rule:
    """The published recursions, written from the papers."""

    def __init__(self, x, cov, name, tc, mf, pw):
        self.x, self.cov, self.name = x, cov, name
        self.tc, self.mf, self.pw = tc, mf, pw
        k = x.shape[1]
        self.unit = np.array([self.risk(np.eye(k)[i]) for i in range(k)])

    def risk(self, w):
        if self.name == "variance":
            return float(w @ self.cov @ w)
        if self.name == "standard_deviation":
            return float(np.sqrt(w @ self.cov @ w))
        r = self.x @ w - np.sum(self.tc * np.abs(w - self.pw)) - np.sum(self.mf * w)
        if self.name in ("value_at_risk", "drawdown_at_risk") and len(r) % 20 == 0:
            # both neighbours of a whole tail are admissible, C01 judges the choice
            import skfolio.measures as sm

            r = r if self.name == "value_at_risk" else np.array(ref.drawdowns(r))
            return float(sm.value_at_risk(r))
        return ref.scalar(self.name, r)

    def inverse(self, ids):
        w = np.zeros(self.x.shape[1])
        w[ids] = 1 / self.unit[ids]
        return w / w.sum()

    def hrp(self, order, lo, hi):
        w = np.ones(len(order))
        todo = [list(order)]
        while todo:
            ids = todo.pop()
            if len(ids) < 2:
                continue
            h = len(ids) // 2
            left, right = ids[:h], ids[h:]
            a, b = self.risk(self.inverse(left)), self.risk(self.inverse(right))
            share = b / (a + b)
            total = w[ids[0]]
            if total > 0:
                low = max(lo[left].sum(), total - hi[right].sum()) / total
                up = min(hi[left].sum(), total - lo[right].sum()) / total
                share = min(max(share, low), up)
            w[left] *= share
            w[right] *= 1 - share
            todo += [left, right]
        return w

    def herc(self, tree, labels):
        groups = [np.flatnonzero(labels == c) for c in sorted(set(labels.tolist()))]
        inner = [self.inverse(g) for g in groups]
        risks = [self.risk(w) for w in inner]
        top = np.ones(len(groups))

        def go(node):
            leaves = set(node.pre_order())
            mine = [i for i, g in enumerate(groups) if set(g.tolist()) <= leaves]
            if len(mine) < 2:
                return
            sides = []
            for child in (node.get_left(), node.get_right()):
                sub = set(child.pre_order())
                sides.append([i for i in mine if set(groups[i].tolist()) <= sub])
            a, b = (sum(risks[i] for i in s) for s in sides)
            for i in sides[0]:
                top[i] *= b / (a + b)
            for i in sides[1]:
                top[i] *= a / (a + b)
            go(node.get_left())
            go(node.get_right())

        go(tree)
        return sum(t * w for t, w in zip(top, inner, strict=True))


def relative_projection(w0, lo, hi):
    """argmin sum((w/w0 - 1)^2) with sum(w)=1 and lo<=w<=hi, by bisection on the multiplier."""
    a, b = -1e9, 1e9
    for _ in range(300):
        mid = (a + b) / 2
        if np.clip(w0 + mid * w0**2, lo, hi).sum() < 1:
            a = mid
        else:
            b = mid
    return np.clip(w0 + (a + b) / 2 * w0**2, lo, hi)


def bounds(case, k):
    g = gen.rng_of(case["seed"])
    lo, hi = np.zeros(k), np.ones(k)
    kind = case["bounds"]
    anchor = g.dirichlet(np.ones(k))
    if case["form"] == "scalar":
        anchor = np.ones(k) / k
    if kind in ("max", "both"):
        hi = np.minimum(1, anchor * (1 + g.choice([0.02, 0.3, 1.0])) + (0 if case["form"] == "scalar" else 0.01))
    if kind in ("min", "both"):
        lo = anchor * g.choice([0.3, 0.7, 0.97])
    if kind == "exclude" and case["form"] != "scalar":
        hi = np.where(g.random(k) < 0.5, 0.0, 1.0)
        hi[g.integers(k)] = 1.0
    return lo, hi


def spelled(case, v, cols, default):
    if case["form"] == "scalar" and np.all(v == v[0]):
        return float(v[0])
    if case["form"] == "dict":
        return {c: float(a) for c, a in zip(cols, v, strict=True) if a != default}
    return v


def mixed(x, seed):
    """Returns of a prior that are not the returns given to fit."""
    k = x.shape[1]
    return x @ (np.eye(k) + 0.6 * gen.rng_of(seed).normal(size=(k, k)))


def moving_prior(cov, seed):
    from skfolio.prior import BasePrior, EmpiricalPrior

    class Moving(BasePrior):
        def __init__(self, cov=None, seed=0):
            self.cov = cov
            self.seed = seed

        def fit(self, X, y=None, **fit_params):
            self.prior_model_ = EmpiricalPrior(covariance_estimator=self.cov).fit(mixed(np.asarray(X), self.seed)).prior_model_
            return self

    return Moving(cov, seed)


@law(case_s, quick=900, thorough=9000, rule="every asset has a clearly positive risk")
def hierarchical(case):
    import cvxpy as cp

    import skfolio.moments as mo
    from skfolio.cluster import HierarchicalClustering, LinkageMethod
    from skfolio.optimization import HierarchicalEqualRiskContribution, HierarchicalRiskParity
    from skfolio.prior import EmpiricalPrior

    X = gen.frame(case["m"])
    x, cols = X.to_numpy(), list(X.columns)
    k = len(cols)
    moved = case["seed"] % 3 == 0
    if moved:
        x = mixed(x, case["seed"])
    lo, hi = bounds(case, k)
    cov = {
        "default": mo.EmpiricalCovariance(),
        "shrunk": mo.ShrunkCovariance(shrinkage=0.3),
        "ew": mo.EWCovariance(alpha=0.1),
    }[case["cov"]]
    pw = gen.rng_of(case["seed"] + 1).dirichlet(np.ones(k)) if case["pw"] else np.zeros(k)
    n_cl = min(case["clusters"], k) if case["clusters"] else None
    cls = HierarchicalRiskParity if case["algo"] == "hrp" else HierarchicalEqualRiskContribution
    rule = Rule(x, cov.fit(x).covariance_, case["risk"], case["tc"], case["mf"], pw)
    scale = np.max(np.abs(x))
    power = 4 if "fourth" in case["risk"] else 2 if case["risk"].endswith("variance") else 1
    if not np.all(rule.unit > (1e-3 * scale) ** power):
        note("risk not positive")
        return False
    m = cls(
        risk_measure=risk_enum(case["risk"]),
        prior_estimator=moving_prior(cov, case["seed"]) if moved else EmpiricalPrior(covariance_estimator=cov),
        hierarchical_clustering_estimator=HierarchicalClustering(max_clusters=n_cl, linkage_method=LinkageMethod(case["linkage"])),
        min_weights=spelled(case, lo, cols, 0.0),
        max_weights=spelled(case, hi, cols, 1.0),
        transaction_costs=case["tc"],
        management_fees=case["mf"],
        previous_weights=pw if case["pw"] else None,
    )  # fmt: skip
    try:
        m.fit(X)
    except cp.SolverError:
        note("solver failure")
        return False
    w = m.weights_
    hc = m.hierarchical_clustering_estimator_
    corr = np.corrcoef(x.T)
    dist = np.sqrt(np.clip(0.5 * (1 - corr), 0, None))
    np.fill_diagonal(dist, 0)
    close(hc.condensed_distance_, scd.squareform(dist, checks=False), "the tree is built on other distances than those of the returns", rtol=0, atol=1e-6)
    close(w.sum(), 1.0, "weights do not sum to one", rtol=0, atol=1e-8 if case["algo"] == "hrp" else 1e-6)
    tol = 1e-9 if case["algo"] == "hrp" else 1e-5
    check(np.all(w >= lo - tol) and np.all(w <= hi + tol), "a weight bound is not respected", w=w, lo=lo, hi=hi)
    note("other returns in the prior" if moved else "returns as given")
    note(case["algo"] + " " + ("bounded" if case["bounds"] != "none" else "free"))
    if case["algo"] == "hrp":
        z = sch.optimal_leaf_ordering(hc.linkage_matrix_, hc.condensed_distance_)
        want = rule.hrp(sch.leaves_list(z), lo, hi)
        if case["risk"] in ("evar", "edar"):
            tol = 1e-5
        close(w, want, "weights differ from the recursive bisection", rtol=0, atol=max(tol, 1e-8))
        return
    want = rule.herc(sch.to_tree(hc.linkage_matrix_), np.asarray(hc.labels_))
    if np.any(want < 1e-7) or np.any(hi < 1e-7):
        note("weight too small for the projection")
        if np.any(want < 1e-7):
            return False
    proj = relative_projection(want, lo, hi)
    f = lambda v: np.sum((v / want - 1) ** 2)  # noqa: E731
    if f(proj) > 1e3:
        note("bounds far from the natural weights")
        return
    close(f(w), f(proj), "weights are not the closest admissible ones (relative deviation)", rtol=1e-3, atol=1e-4)
    # f is 1-strongly convex in w/want, so this also bounds every relative weight error
    if case["bounds"] == "none":
        close(w, want, "weights differ from the equal-risk-contribution recursion", rtol=1e-3, atol=1e-5)


naive_s = st.fixed_dictionaries(
    {"m": gen.mat(6, 40, 1, 9, kinds=gen.SMOOTH), "cov": gen.choice(["default", "shrunk", "ew", "denoise"]), "df": st.booleans(), "seed": gen.seeds}
)


@law(naive_s, quick=400, thorough=4000, rule="more than one asset")
def naive(case):
    import skfolio.moments as mo
    from skfolio.optimization import EqualWeighted, InverseVolatility, Random
    from skfolio.prior import EmpiricalPrior

    X = gen.frame(case["m"])
    X = X if case["df"] else X.to_numpy()
    k = X.shape[1]
    cov = {
        "default": mo.EmpiricalCovariance(),
        "shrunk": mo.ShrunkCovariance(shrinkage=0.3),
        "ew": mo.EWCovariance(alpha=0.1),
        "denoise": mo.ShrunkCovariance(shrinkage=0.9),
    }[case["cov"]]
    close(EqualWeighted().fit(X).weights_, np.full(k, 1 / k), "equal weighting is not 1/n", rtol=1e-12, atol=1e-15)
    sd = np.sqrt(np.diag(cov.fit(X).covariance_))
    w = InverseVolatility(prior_estimator=EmpiricalPrior(covariance_estimator=cov)).fit(X).weights_
    close(w, (1 / sd) / np.sum(1 / sd), "inverse volatility is not proportional to 1/volatility", rtol=1e-9, atol=0)
    np.random.seed(case["seed"] % 2**32)
    a = Random().fit(X).weights_
    b = Random().fit(X).weights_
    np.random.seed(case["seed"] % 2**32)
    c = Random().fit(X).weights_
    close(a, c, "a seeded random draw is not reproducible", rtol=0, atol=0)
    for v in (a, b):
        check(v.shape == (k,) and np.all(v >= 0) and abs(v.sum() - 1) < 1e-9, "random weights are not a valid draw", w=v)
    if k > 1:
        check(not np.allclose(a, b), "two draws in a row are equal", a=a)
    return k > 1


ref_s = st.fixed_dictionaries(
    {
        "m": gen.mat(20, 40, 2, 6, kinds=gen.SMOOTH),
        "algo": gen.choice(["hrp", "herc"]),
        "what": gen.choice(["skew", "kurtosis", "negative", "above one", "crossing", "max too small", "min too large"]),
        "amount": gen.choice([0.001, 0.05, 0.3]),
        "form": gen.choice(["array", "dict"]),
        "seed": gen.seeds,
    }
)


@law(ref_s, quick=250, thorough=2500, rule="always")
def refusals(case):
    from skfolio import ExtraRiskMeasure
    from skfolio.optimization import HierarchicalEqualRiskContribution, HierarchicalRiskParity

    X = gen.frame(case["m"])
    cols = list(X.columns)
    k = len(cols)
    j = case["seed"] % k
    lo, hi = np.full(k, 0.1 / k), np.ones(k)
    kw = {}
    a = case["amount"]
    if case["what"] in ("skew", "kurtosis"):
        kw["risk_measure"] = ExtraRiskMeasure(case["what"])
    elif case["what"] == "negative":
        lo[j] = -a
    elif case["what"] == "above one":
        hi[j] = 1 + a
    elif case["what"] == "crossing":
        hi[j] = 0.2 / k
        lo[j] = 0.2 / k + a / k
    elif case["what"] == "max too small":
        hi = np.full(k, (1 - a) / k)
    else:
        lo = np.full(k, (1 + a) / k)
    cls = HierarchicalRiskParity if case["algo"] == "hrp" else HierarchicalEqualRiskContribution
    f = (lambda v: v) if case["form"] == "array" else (lambda v: dict(zip(cols, v.tolist(), strict=True)))
    must_raise(
        lambda: cls(min_weights=f(lo), max_weights=f(hi), **kw).fit(X),
        (ValueError, NameError, TypeError),
        f"contradictory setting ({case['what']}) is not refused",
    )


LAWS = [hierarchical, naive, refusals]
