"""C17 Diversification and robust-tail optimizers solve their stated problem."""

import warnings

import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import check, close, law, note

ASSUMPTIONS = [
    "diversification ratio: no admissible competitor is better by more than 1e-4 relative",
    "robust tail: the worst case over the ball (1-norm cost, returns above -100%) is recomputed from its one-dimensional dual; competitors may not be better by more than 1e-4 of the value plus 2e-6",
    "the robust optimizer is evaluated on long-only portfolios",
]


def solve(m, X):
    import cvxpy as cp

    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            m.fit(X)
        except cp.SolverError:
            note("solver failure")
            return None
    if any("inaccurate" in str(r.message) for r in rec):
        note("solver reports inaccurate")
        return None
    return m


class Admissible:
    """Bounds, budget, linear and group constraints around a witness."""

    def __init__(self, case, cols):
        k = self.k = len(cols)
        rng = self.rng = gen.rng_of(case["w0"])
        w0 = self.w0 = np.round(rng.dirichlet(np.ones(k) * 2), 6)
        w0[-1] = 1 - w0[:-1].sum()
        self.kw, self.rows = {}, []  # rows: (a, b) meaning a.w <= b
        lo, hi = np.zeros(k), np.ones(k)
        on = case["cons"]
        if "bounds" in on:
            lo, hi = np.maximum(0, np.round(w0 - 0.15, 3)), np.minimum(1, np.round(w0 + 0.1, 3))
            self.kw |= {"min_weights": lo.copy(), "max_weights": hi.copy()}
        if "short" in on and "bounds" not in on:
            lo = np.full(k, -0.3)
            self.kw |= {"min_weights": -0.3}
        self.lo, self.hi = lo, hi
        if "linear" in on:
            c = rng.integers(-2, 3, k)
            c[0] = 1
            b = round(float(c @ w0) + 0.02, 6)
            text = " + ".join(f"{v} * {n}" if v >= 0 else f"0 * {n} - {-v} * {n}" for v, n in zip(c, cols, strict=True))
            self.kw["linear_constraints"] = [f"{text} <= {b}" if b >= 0 else f"{text} + {-b} <= 0"]
            self.rows.append((c.astype(float), b))
        if "group" in on:
            g = rng.integers(0, 2, k)
            mem = (g == g[0]).astype(float)
            b = round(float(mem @ w0) - 0.02, 6)
            self.kw["groups"] = {n: [f"g{v}"] for n, v in zip(cols, g, strict=True)}
            self.kw.setdefault("linear_constraints", [])
            self.kw["linear_constraints"] = [*self.kw["linear_constraints"], f"g{g[0]} >= {max(b, 0)}"]
            self.rows.append((-mem, -max(b, 0)))

    def gap(self, w):
        g = max(float(np.max(self.lo - w)), float(np.max(w - self.hi)), abs(float(w.sum()) - 1))
        return max([g, *[float(a @ w - b) for a, b in self.rows]])

    def pool(self, w, n=40):
        """Admissible portfolios: mixtures and exchanges, all checked."""
        k = self.k
        out = [self.w0]
        base = [*np.eye(k), np.ones(k) / k, self.w0, *self.rng.dirichlet(np.ones(k), 12)]
        for v in base:
            out += [w + h * (v - w) for h in (1.0, 0.3, 0.03)]
        for i in range(k):
            for j in range(k):
                if i != j:
                    for h in (0.1, 0.01):
                        e = np.zeros(k)
                        e[i], e[j] = h, -h
                        out.append(w + e)
        return [v for v in out if self.gap(v) <= 1e-9]


cons_s = gen.subset(["bounds", "linear", "group", "short"], 0.4)


@law(st.fixed_dictionaries({"m": gen.mat(16, 50, 2, 6, kinds=gen.SMOOTH), "cons": cons_s, "w0": gen.seeds, "shift": st.booleans(),
                            "cov": gen.choice(["empirical", "ew", "gerber", "shrunk"])}),
     quick=500, rule="the optimum differs from equal weights")  # fmt: skip
def diversification(case):
    import cvxpy as cp

    from skfolio.optimization import MaximumDiversification

    X = gen.frame(case["m"])
    x = X.to_numpy()
    from skfolio.moments import EmpiricalCovariance, EWCovariance, GerberCovariance, ShrunkCovariance
    from skfolio.prior import EmpiricalPrior

    est = {"empirical": EmpiricalCovariance(), "ew": EWCovariance(alpha=0.1), "gerber": GerberCovariance(), "shrunk": ShrunkCovariance(shrinkage=0.5)}[case["cov"]]
    note(case["cov"])
    cov = est.fit(x).covariance_
    if np.linalg.cond(cov) > 1e6:
        return False
    prior = None if case["cov"] == "empirical" else EmpiricalPrior(covariance_estimator=est)
    ad = Admissible(case, list(X.columns))
    m = solve(MaximumDiversification(prior_estimator=prior, **ad.kw), X)
    if m is None:
        return False
    w = np.asarray(m.weights_)
    check(ad.gap(w) < 5e-5, "admissible weights", gap=ad.gap(w), w=w, args=ad.kw)
    sd = np.sqrt(np.diag(cov))

    def ratio(v):
        return float(sd @ v / np.sqrt(v @ cov @ v))

    best = ratio(w)
    # independent formulation: least variance at unit weighted volatility
    y, t = cp.Variable(ad.k), cp.Variable(nonneg=True)
    cons = [sd @ y == 0.01, y >= ad.lo * t, y <= ad.hi * t, cp.sum(y) == t, *[a @ y <= b * t for a, b in ad.rows]]
    L = np.linalg.cholesky(cov + 1e-16 * np.eye(ad.k))
    pr = cp.Problem(cp.Minimize(cp.norm2(L.T @ y)), cons)
    try:
        pr.solve(solver="CLARABEL")
        cand = y.value / t.value if y.value is not None and t.value > 1e-9 else None
    except cp.SolverError:
        cand = None
    pool = ad.pool(w)
    if cand is not None and ad.gap(cand) < 1e-6:
        pool.append(cand)
        note("independent optimum")
    for v in pool:
        check(best >= ratio(v) * (1 - 1e-4), "another admissible portfolio is more diversified", got=best, exp=ratio(v), w=w, other=v, args=ad.kw)
    if case["shift"] and case["cov"] != "gerber":  # thresholds on uncentred returns
        m2 = solve(MaximumDiversification(prior_estimator=prior, **ad.kw), X + ad.rng.normal(0, 0.02, ad.k))
        if m2 is not None:
            close(m2.weights_, w, "expected returns do not matter", 2e-3, 2e-3)
            note("shifted")
    for o in case["cons"]:
        note(o)
    return bool(np.abs(w - 1 / ad.k).max() > 1e-3)


def worst_case(w, x, radius, beta, ra):
    """Worst expectation of -r.w + ra * CVaR over the ball, w >= 0."""
    a = np.array([1.0, 1 + ra / (1 - beta)])  # slopes of the loss in -r.w
    b = np.array([ra, ra * (1 - 1 / (1 - beta))])  # coefficients of tau
    loss = -(x @ w)
    room = 1 + x

    def inner(lam):
        # per observation and piece: loss slope plus what moving towards -100% adds
        g = [a[k] * loss + np.maximum(a[k] * w - lam, 0) @ room.T for k in range(2)]
        # minimize over tau the mean of max_k(g_k + b_k tau): kinks where the pieces meet
        taus = (g[1] - g[0]) / (b[0] - b[1])
        v = np.maximum(g[0][None, :] + b[0] * taus[:, None], g[1][None, :] + b[1] * taus[:, None]).mean(axis=1)
        return v.min()

    f = lambda lam: lam * radius + inner(lam)  # noqa: E731
    lo, hi = 0.0, float(a[1] * np.max(w)) + 1e-9
    if radius == 0:
        return inner(hi)
    for _ in range(90):
        p, q = lo + (hi - lo) / 3, hi - (hi - lo) / 3
        if f(p) <= f(q):
            hi = q
        else:
            lo = p
    return min(f(lo), f(hi), f(float(a[1] * np.max(w))))


@law(st.fixed_dictionaries({"m": gen.mat(8, 16, 2, 4, kinds=gen.SMOOTH), "cons": gen.subset(["bounds", "linear", "group"], 0.4), "w0": gen.seeds,
                            "radius": gen.choice([0.0, 0.001, 0.005, 0.02, 0.1]), "beta": gen.choice([0.5, 0.75, 0.9]), "ra": gen.choice([0.5, 1.0, 4.0]),
                            "drift": gen.choice([0.0, 0.01]), "custom": gen.choice([False, False, True])}),
     quick=240, rule="the radius is positive")  # fmt: skip
def robust_tail(case):
    from skfolio.optimization import DistributionallyRobustCVaR

    X = gen.frame(case["m"]) + case["drift"]
    x = X.to_numpy()
    ad = Admissible(case, list(X.columns))
    kw = dict(cvar_beta=case["beta"], risk_aversion=case["ra"], **ad.kw)
    d = np.zeros(ad.k)
    if case["custom"]:
        d = np.round(ad.rng.normal(0, 0.02, ad.k), 4)
        kw["add_objective"] = lambda w: d @ w
        a = np.ones(ad.k)
        a[0] = -1
        b = round(float(a @ ad.w0) + 0.03, 6)
        kw["add_constraints"] = lambda w: [a @ w <= b]
        ad.rows.append((a, b))
        note("custom terms")

    def fit(radius):
        return solve(DistributionallyRobustCVaR(wasserstein_ball_radius=radius, **kw), X)

    m = fit(case["radius"])
    if m is None:
        return False
    w = np.asarray(m.weights_)
    check(ad.gap(w) < 5e-5, "admissible weights", gap=ad.gap(w), w=w, args=ad.kw)
    wc = lambda v, r=case["radius"]: worst_case(np.maximum(v, 0), x, r, case["beta"], case["ra"]) + float(d @ v)  # noqa: E731
    best = wc(w)
    tol = 2e-6 + 1e-4 * abs(best)
    obj = float(m.problem_values_["objective"])
    check(abs(obj - best) <= 10 * tol, "the reported value is the worst case", got=obj, exp=best)
    pool = ad.pool(w)
    for v in pool:
        check(best <= wc(v) + tol, "another admissible portfolio has a better worst case", got=best, exp=wc(v), w=w, other=v, args=kw)
    if case["radius"] == 0:
        # the empirical mean-CVaR trade-off
        emp = float(d @ w - np.mean(x @ w) + case["ra"] * ref.cvar(x @ w, case["beta"]))
        close(obj, emp, "with radius zero, the empirical trade-off", 1e-4, 2e-6)
        note("radius zero")
    else:
        m0 = fit(case["radius"] / 2)
        if m0 is not None:
            check(float(m0.problem_values_["objective"]) <= obj + tol, "the value grows with the radius", small=m0.problem_values_, large=obj)
    for o in case["cons"]:
        note(o)
    return case["radius"] > 0
