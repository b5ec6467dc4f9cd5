"""C18 Uncertainty sets and robust optimization use the true worst case."""

import warnings

import numpy as np
import scipy.stats as sst
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import check, close, law, note

ASSUMPTIONS = [
    "the Wishart factor of the empirical covariance set may be 1/T (code) or 1/(T-1) (documentation)",
    "the bootstrap resampling itself is judged by C31; here the same seeded samples are summarised independently",
    "maximum ratio is excluded for covariance sets (the library documents a variance homogenisation for it)",
    "worst-case objectives are compared to 2e-3 of the scale of the problem; reported values to 1e-3",
    "the worst-case variance is bracketed: above by the ellipsoid without the semidefinite constraint, below by the best semidefinite matrix on the segment to its maximiser",
]

sets_s = st.fixed_dictionaries(
    {
        "m": st.one_of(gen.mat(20, 60, 2, 4, kinds=gen.SMOOTH), gen.mat(20, 60, 2, 4, kinds=gen.SMOOTH), gen.mat(25, 40, 5, 9, kinds=gen.SMOOTH)),
        "kind": gen.choice(["emp_mu", "emp_cov", "boot_mu", "boot_cov"]),
        "conf": gen.choice([0.05, 0.5, 0.8, 0.9, 0.95, 0.99]),
        "diagonal": st.booleans(),
        "shrunk": st.booleans(),
        "samples": gen.choice([20, 60]),
        "block": gen.choice([None, 3.0, 10.0]),
        "seed": gen.seeds,
    }
)


def make_set(case, conf=None):
    from skfolio import uncertainty_set as us
    from skfolio.moments import EmpiricalCovariance, ShrunkCovariance, ShrunkMu
    from skfolio.prior import EmpiricalPrior

    kw = {"confidence_level": case["conf"] if conf is None else conf, "diagonal": case["diagonal"]}
    if case["shrunk"]:
        kw["prior_estimator"] = EmpiricalPrior(mu_estimator=ShrunkMu(), covariance_estimator=ShrunkCovariance(shrinkage=0.2))
    else:
        kw["prior_estimator"] = EmpiricalPrior(covariance_estimator=EmpiricalCovariance())
    if case["kind"].startswith("boot"):
        kw |= {"n_bootstrap_samples": case["samples"], "block_size": case["block"], "seed": case["seed"] % 2**31}
        return (us.BootstrapMuUncertaintySet if case["kind"] == "boot_mu" else us.BootstrapCovarianceUncertaintySet)(**kw)
    return (us.EmpiricalMuUncertaintySet if case["kind"] == "emp_mu" else us.EmpiricalCovarianceUncertaintySet)(**kw)


def wishart(s):
    """(I + K)(S kron S) entry by entry: Cov(s_ij, s_kl) = s_ik s_jl + s_il s_jk."""
    n = len(s)
    out = np.zeros((n * n, n * n))
    for j in range(n):
        for i in range(n):
            for b in range(n):
                for a in range(n):
                    out[j * n + i, b * n + a] = s[i, a] * s[j, b] + s[i, b] * s[j, a]
    return out


@law(sets_s, quick=500, thorough=4000, rule="always")
def sets(case):
    from skfolio.utils.bootstrap import stationary_bootstrap

    X = gen.frame(case["m"])
    T, n = X.shape
    est = make_set(case).fit(X)
    u = est.uncertainty_set_
    df = n if case["kind"].endswith("mu") else n * n
    close(u.k, np.sqrt(sst.chi2.ppf(case["conf"], df)), "size is not the chi-square quantile", rtol=1e-9, atol=0)
    s = np.asarray(u.sigma)
    check(s.shape == (df, df) and np.all(np.isfinite(s)), "shape matrix has the wrong size", shape=s.shape)
    close(s, s.T, "shape matrix is not symmetric", rtol=1e-9, atol=1e-9 * np.abs(s).max())
    ev = np.linalg.eigvalsh((s + s.T) / 2)
    check(ev[0] >= -1e-9 * ev[-1], "shape matrix is not positive semidefinite", ev=ev[0])
    prior = est.prior_estimator_.prior_model_
    cov = prior.covariance
    if case["diagonal"]:
        check(np.all(s == np.diag(np.diag(s))), "off-diagonal entries are not zero")
    if case["kind"] == "emp_mu":
        want = cov / T
        if case["diagonal"]:
            want = np.diag(np.diag(want))
        close(s, want, "shape is not covariance / T", rtol=1e-9, atol=1e-18)
    elif case["kind"] == "emp_cov":
        c = np.diag(np.diag(cov)) if case["diagonal"] else cov
        d = np.diag(wishart(c))
        r = np.diag(s) / (d / T)
        check(np.all(r >= 1 - 1e-9) and np.all(r <= T / (T - 1) + 1e-9), "variances of the covariance entries are not those of the Wishart law", ratio=r)
    else:
        smp = stationary_bootstrap(returns=prior.returns, block_size=case["block"], n_bootstrap_samples=case["samples"], seed=case["seed"] % 2**31)
        if case["kind"] == "boot_mu":
            z = np.array([q.mean(axis=0) for q in smp])
        else:
            z = np.array([np.cov(q.T).flatten() for q in smp])
        d = z - z.mean(axis=0)
        want = d.T @ d / (len(z) - 1)
        if case["diagonal"]:
            want = np.diag(np.diag(want))
        close(s, want, "shape is not the covariance of the bootstrap estimates", rtol=1e-8, atol=1e-12 * np.abs(want).max())
    other = make_set(case, conf=min(0.999, case["conf"] + 0.0005)).fit(X).uncertainty_set_
    check(other.k > u.k, "a higher confidence level does not give a larger set")


def fixed_sets():
    from skfolio.uncertainty_set import BaseCovarianceUncertaintySet, BaseMuUncertaintySet, UncertaintySet

    def fit(self, X, y=None, **fit_params):
        self.uncertainty_set_ = UncertaintySet(k=self.k, sigma=self.sigma)
        return self

    def init(self, k=1.0, sigma=None):
        self.k = k
        self.sigma = sigma

    mk = lambda b: type("Fixed", (b,), {"__init__": init, "fit": fit})  # noqa: E731
    return mk(BaseMuUncertaintySet), mk(BaseCovarianceUncertaintySet)


def solve(m, X):
    import cvxpy as cp

    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            m.fit(X)
        except cp.SolverError:
            note("solver failure")
            return None
    if any("inaccurate" in str(r.message) for r in rec):
        note("solver reports inaccurate")
        return None
    return m


mu_s = st.fixed_dictionaries(
    {
        "m": gen.mat(20, 50, 2, 5, kinds=gen.SMOOTH),
        "risk": gen.choice(["variance", "standard_deviation", "mean_absolute_deviation", "cvar", "semi_deviation", "worst_realization"]),
        "objective": gen.choice(["risk", "return", "utility", "ratio"]),
        "set": gen.choice(["emp", "boot", "fixed", "fixed", "fixed"]),
        "size": gen.choice([0.05, 0.3, 1.0, 2.0]),
        "short": st.booleans(),
        "mf": gen.choice([0.0, 0.0, 0.0002]),
        "cap": gen.choice([1.0, 1.0, 0.6]),
        "slack": gen.choice([0.1, 0.5, 0.9]),
        "seed": gen.seeds,
    }
)


def competitors(g, k, lo, hi, anchors):
    out = [np.full(k, 1 / k), *anchors]
    for _ in range(60):
        out.append(g.dirichlet(np.full(k, g.choice([0.3, 1.0, 5.0]))))
    if lo < 0:
        for _ in range(40):
            v = g.normal(size=k)
            v = np.full(k, 1 / k) + (v - v.mean()) * g.choice([0.05, 0.2, 0.5])
            out.append(v)
    base = anchors[0]
    for _ in range(80):
        v = g.normal(size=k)
        v -= v.mean()
        out.append(base + v * g.choice([1e-3, 1e-2, 0.1]))
        out.append(base + (out[int(g.integers(len(out)))] - base) * g.choice([0.01, 0.1, 0.5]))
    res = []
    for v in out:
        v = np.asarray(v, float)
        if np.all(v >= lo) and np.all(v <= hi) and abs(v.sum() - 1) < 1e-9:
            res.append(v)
    return res


@law(mu_s, quick=360, thorough=3600, rule="the problem was solved and the worst case differs from the expected case")
def robust_mean(case):
    from skfolio import RiskMeasure
    from skfolio.optimization import MeanRisk, ObjectiveFunction
    from skfolio.uncertainty_set import BootstrapMuUncertaintySet, EmpiricalMuUncertaintySet

    x = gen.build(case["m"])
    g = gen.rng_of(case["seed"])
    x = x + g.choice([0.0, 0.002, 0.005])
    k = x.shape[1]
    mu, cov = x.mean(axis=0), np.cov(x.T)
    sd = np.sqrt(np.mean(np.diag(cov)))
    if case["set"] == "emp":
        u = EmpiricalMuUncertaintySet(confidence_level=min(0.95, case["size"]), diagonal=bool(case["seed"] % 2))
    elif case["set"] == "boot":
        u = BootstrapMuUncertaintySet(confidence_level=0.5, diagonal=bool(case["seed"] % 2), n_bootstrap_samples=50, seed=1)
    else:
        a = g.normal(size=(k, k))
        u = fixed_sets()[0](k=case["size"], sigma=(a @ a.T + 0.1 * np.eye(k)) * (0.3 * sd) ** 2 / k)
    fitted = u.fit(x).uncertainty_set_
    kap, s = float(fitted.k), np.asarray(fitted.sigma)
    lo, hi = (-0.5 if case["short"] else 0.0), max(case["cap"], 1.2 / k)
    worst = lambda w: float(mu @ w - kap * np.sqrt(max(w @ s @ w, 0.0)) - case["mf"] * w.sum())  # noqa: E731
    b = 0.9

    def risk(w):
        if case["risk"] == "variance":
            return float(w @ cov @ w)
        if case["risk"] == "standard_deviation":
            return float(np.sqrt(w @ cov @ w))
        return float(ref.scalar(case["risk"], x @ w - case["mf"] * w.sum(), cvar_beta=b))

    obj = {"risk": "minimize_risk", "return": "maximize_return", "utility": "maximize_utility", "ratio": "maximize_ratio"}[case["objective"]]
    kw = {}
    floor = None
    if case["objective"] == "risk":
        grid = [worst(v) for v in competitors(g, k, lo, hi, [np.full(k, 1 / k)])]
        floor = kw["min_return"] = min(grid) + case["slack"] * (max(grid) - min(grid))
    aversion = 5.0 if case["risk"] == "variance" else 0.5
    mk = lambda est: MeanRisk(  # noqa: E731
        objective_function=ObjectiveFunction(obj), risk_measure=RiskMeasure(case["risk"]), mu_uncertainty_set_estimator=est, min_weights=lo,
        max_weights=hi, cvar_beta=b, management_fees=case["mf"], risk_aversion=aversion, **kw)  # fmt: skip
    if case["objective"] == "ratio" and max(worst(v) for v in competitors(g, k, lo, hi, [np.full(k, 1 / k)])) <= 0.05 * sd:
        note("worst-case return not positive")
        return False
    m = solve(mk(u), x)
    if m is None:
        return False
    w, pv = m.weights_, m.problem_values_
    note(case["objective"])
    close(pv["mu_uncertainty_set"], kap * np.sqrt(w @ s @ w), "reported uncertainty is not the half-width of the set along the weights", rtol=2e-3, atol=1e-4 * sd)
    if case["objective"] != "ratio":
        close(pv["expected_return"], worst(w), "reported return is not the worst case over the set", rtol=1e-3, atol=1e-4 * sd)
    # the closed form of the worst case is the minimum over the ellipsoid
    root = np.linalg.cholesky(s + 1e-15 * np.eye(k) * np.trace(s))
    for _ in range(5):
        z = g.normal(size=k)
        z /= np.linalg.norm(z)
        check((mu + kap * root @ z) @ w - case["mf"] * w.sum() >= worst(w) - 1e-6 * sd, "a mean of the set is worse than the worst case")
    sr = abs(risk(np.full(k, 1 / k))) + 1e-12

    def value(v):
        match case["objective"]:
            case "risk":
                return risk(v) / sr
            case "return":
                return -worst(v) / sd
            case "utility":
                return -(worst(v) - aversion * risk(v)) / sd
            case "ratio":
                # maximum Sharpe for the variance
                d = np.sqrt(risk(v)) if case["risk"] == "variance" else risk(v)
                return -worst(v) / d if d > 0 else np.inf
        return None

    got = value(w)
    if floor is not None:
        check(worst(w) >= floor - 2e-4 * sd, "the worst-case return is below the required return", got=worst(w), floor=floor)
    plain = solve(mk(None), x)
    anchors = [w] + ([plain.weights_] if plain is not None else [])
    tol = 2e-3 * max(1.0, abs(got))
    for v in competitors(g, k, lo, hi, anchors):
        if floor is not None and worst(v) < floor:
            continue
        if case["objective"] == "ratio" and risk(v) <= 0.05 * sr:
            continue
        check(value(v) >= got - tol, "an admissible portfolio has a better worst case", better=value(v), got=got, v=v, w=w)
    if case["set"] == "fixed":
        tiny = solve(mk(fixed_sets()[0](k=1e-9, sigma=s)), x)
        if tiny is not None and plain is not None:
            kap = 0.0
            a, c = value(tiny.weights_), value(plain.weights_)
            close(a, c, "a vanishing set does not give the non-robust solution", rtol=2e-3, atol=2e-3)
    return True


cov_s = st.fixed_dictionaries(
    {
        "m": gen.mat(20, 50, 2, 4, kinds=gen.SMOOTH),
        "objective": gen.choice(["risk", "risk", "utility", "return"]),
        "set": gen.choice(["emp", "boot", "fixed", "fixed", "fixed"]),
        "size": gen.choice([0.05, 0.3, 1.0, 2.0]),
        "short": st.booleans(),
        "slack": gen.choice([None, 0.3, 0.8]),
        "seed": gen.seeds,
    }
)


@law(cov_s, quick=240, thorough=2400, rule="the problem was solved")
def robust_covariance(case):
    from skfolio import RiskMeasure
    from skfolio.optimization import MeanRisk, ObjectiveFunction
    from skfolio.uncertainty_set import BootstrapCovarianceUncertaintySet, EmpiricalCovarianceUncertaintySet

    x = gen.build(case["m"])
    g = gen.rng_of(case["seed"])
    k = x.shape[1]
    mu, cov = x.mean(axis=0), np.cov(x.T)
    var = np.mean(np.diag(cov))
    if case["set"] == "emp":
        u = EmpiricalCovarianceUncertaintySet(confidence_level=min(0.95, case["size"]), diagonal=bool(case["seed"] % 2))
    elif case["set"] == "boot":
        u = BootstrapCovarianceUncertaintySet(confidence_level=0.5, diagonal=bool(case["seed"] % 2), n_bootstrap_samples=50, seed=1)
    else:
        a = g.normal(size=(k * k, k * k))
        s = a @ a.T / k**2 + 0.05 * np.eye(k * k)
        # symmetric directions only: vec(S) of a symmetric matrix
        p = np.zeros((k * k, k * k))
        for i in range(k):
            for j in range(k):
                p[i * k + j, j * k + i] = 1
        s = (s + p @ s @ p + p @ s + s @ p) / 4
        u = fixed_sets()[1](k=case["size"], sigma=(s + s.T) / 2 * (0.3 * var) ** 2)
    fitted = u.fit(x).uncertainty_set_
    kap, s = float(fitted.k), np.asarray(fitted.sigma)
    lo = -0.5 if case["short"] else 0.0

    def bracket(w):
        o = np.outer(w, w).flatten()
        h = np.sqrt(max(o @ s @ o, 0))
        up = float(w @ cov @ w + kap * h)
        if h == 0:
            return up, up
        d = (kap * s @ o / h).reshape(k, k)
        d = (d + d.T) / 2
        t = 1.0
        if np.linalg.eigvalsh(cov + d)[0] < 0:
            a, b = 0.0, 1.0
            for _ in range(40):
                t = (a + b) / 2
                a, b = (t, b) if np.linalg.eigvalsh(cov + t * d)[0] >= 0 else (a, t)
            t = a
        return float(w @ (cov + t * d) @ w), up

    kw = {}
    grid = competitors(g, k, lo, 1.0, [np.full(k, 1 / k)])
    floor = None
    if case["objective"] == "risk" and case["slack"] is not None:
        rs = [mu @ v for v in grid]
        floor = kw["min_return"] = min(rs) + case["slack"] * (max(rs) - min(rs))
    limit = None
    if case["objective"] == "return":
        ups = [bracket(v)[1] for v in grid]
        limit = kw["max_variance"] = min(ups) + 0.5 * (max(ups) - min(ups))
    obj = {"risk": "minimize_risk", "utility": "maximize_utility", "return": "maximize_return"}[case["objective"]]
    mk = lambda est: MeanRisk(  # noqa: E731
        objective_function=ObjectiveFunction(obj), risk_measure=RiskMeasure.VARIANCE, covariance_uncertainty_set_estimator=est, min_weights=lo,
        max_weights=1.0, risk_aversion=3.0, **kw)  # fmt: skip
    m = solve(mk(u), x)
    if m is None:
        return False
    w, pv = m.weights_, m.problem_values_
    note(case["objective"])
    low, up = bracket(w)
    note("exact" if up - low < 1e-6 * var else "bracketed")
    if limit is not None:
        check(low <= limit + 2e-3 * var, "the worst-case variance exceeds its limit", low=low, limit=limit)
        got = -float(mu @ w)
        for v in [q for q in grid if bracket(q)[1] <= limit]:
            check(-mu @ v >= got - 1e-3 * np.sqrt(var), "an admissible portfolio has a larger return", v=v, w=w)
        return True
    check(low - 2e-3 * var <= pv["risk"] <= up + 2e-3 * var, "reported risk is not the worst case over the set", risk=pv["risk"], low=low, up=up)
    f = (lambda v: bracket(v)[1] / var) if case["objective"] == "risk" else (lambda v: (3 * bracket(v)[1] - mu @ v) / var)
    got = pv["risk"] / var if case["objective"] == "risk" else (3 * pv["risk"] - mu @ w) / var
    if floor is not None:
        check(mu @ w >= floor - 1e-3 * np.sqrt(var), "return limit broken")
    plain = solve(mk(None), x)
    for v in competitors(g, k, lo, 1.0, [w] + ([plain.weights_] if plain is not None else [])):
        if floor is not None and mu @ v < floor:
            continue
        check(f(v) >= got - 3e-3 * max(1, abs(got)), "an admissible portfolio has a better worst case", better=f(v), got=got, v=v, w=w)
    if case["set"] == "fixed" and plain is not None:
        tiny = solve(mk(fixed_sets()[1](k=1e-9, sigma=s)), x)
        if tiny is not None:
            q = lambda v: (v @ cov @ v if case["objective"] == "risk" else 3 * v @ cov @ v - mu @ v) / var  # noqa: E731
            close(q(tiny.weights_), q(plain.weights_), "a vanishing set does not give the non-robust solution", rtol=3e-3, atol=3e-3)
    return True


LAWS = [sets, robust_mean, robust_covariance]
