"""C30 Priors combine moments according to their published formulas."""

import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import gen
from harness.core import check, close, law, must_raise, note

ASSUMPTIONS = [
    "Black-Litterman: posterior of the 1991 paper with Omega = tau diag(P Sigma P') or Idzorek's confidences in Walters' closed form; a group in a view is the average of its assets",
    "views are linearly independent with at most as many views as assets; comparisons are relative to the standard deviations, tolerance 1e-7",
    "the log-normal projection of the mean is accepted with or without the final subtraction of one (known finding); the covariance is not affected",
    "a factor covariance that is not positive definite may be repaired (judged by C28)",
]

VIEW = ["absolute", "relative", "weighted", "both sides", "group", "group pair"]


def table(x, prefix="A", start="2020-01-01"):
    return pd.DataFrame(x, columns=[f"{prefix}{i}" for i in range(x.shape[1])], index=pd.date_range(start, periods=len(x), freq="B"))


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def mean_cov(x):
    d = x - x.mean(axis=0)
    return x.mean(axis=0), d.T @ d / (len(x) - 1)


def spd(c):
    s = np.sqrt(np.diag(c))
    return bool(s.min() > 1e-9 and s.max() / s.min() < 1e4 and np.linalg.eigvalsh(c / np.outer(s, s))[0] > 1e-8)


# ---------------------------------------------------------------- empirical
@st.composite
def emp_cases(draw):
    return {
        "m": draw(gen.mat(8, 40, 1, 6, kinds=gen.SMOOTH)),
        "log": draw(st.booleans()),
        "h": draw(gen.choice([1.0, 0.5, 5.0, 21.0, 252.0])),
        "mu": draw(gen.choice(["default", "ew", "equilibrium", "target"])),
        "cov": draw(gen.choice(["default", "ew", "biased"])),
        "form": draw(gen.choice(["frame", "frame", "array"])),
    }


def target_mu():
    """Expected returns: the means plus the mean of the targets."""
    from skfolio.moments import BaseMu

    class TargetMu(BaseMu):
        def __init__(self):
            pass

        def fit(self, X, y=None):
            self.mu_ = np.mean(np.asarray(X), axis=0) + np.mean(np.asarray(y))
            return self

    return TargetMu()


def target_of(x, log):
    y = np.abs(x[:, 0]) / 2
    return np.mean(np.log1p(y) if log else y)


@law(emp_cases(), quick=500, thorough=8000, rule="several assets")
def empirical(case):
    from skfolio import moments as mo
    from skfolio.prior import EmpiricalPrior

    x = gen.build(case["m"])
    if case["log"]:
        x = x / max(1.0, np.abs(x).max() / 0.3)
    if not spd(mean_cov(x)[1]):
        return False
    mu_e = {"default": None, "ew": mo.EWMu(alpha=0.1), "equilibrium": mo.EquilibriumMu(), "target": None}[case["mu"]]
    cov_e = {"default": None, "ew": mo.EWCovariance(alpha=0.1), "biased": mo.EmpiricalCovariance(ddof=0)}[case["cov"]]
    X = table(x) if case["form"] == "frame" else x
    y = None
    if case["mu"] == "target":
        y = np.abs(x[:, :1]) / 2
        y = table(y, "F") if case["form"] == "frame" else y
        mu_e = target_mu()
    p = quiet(lambda: EmpiricalPrior(mu_estimator=mu_e, covariance_estimator=cov_e, is_log_normal=case["log"], investment_horizon=case["h"] if case["log"] else None).fit(X, y))
    pm = p.prior_model_
    z = np.log1p(x) if case["log"] else x
    n = len(z)
    w = 0.9 ** np.arange(n - 1, -1, -1.0)
    w /= w.sum()
    m0, c0 = mean_cov(z)
    m = {"default": m0, "ew": w @ z, "equilibrium": c0.sum(axis=1) / z.shape[1], "target": m0 + target_of(x, case["log"])}[case["mu"]]
    d = z - w @ z
    c = {"default": c0, "ew": (d.T * w) @ d / (1 - (w**2).sum()), "biased": c0 * (n - 1) / n}[case["cov"]]
    if not spd(c):
        return False
    if case["log"]:
        m, c = m * case["h"], c * case["h"]
        if np.abs(m).max() > 50 or np.abs(c).max() > 50:
            return False
        e = np.exp(m + np.diag(c) / 2)
        c = np.outer(e, e) * np.expm1(c)
        m = e - 1
        note("log-normal")
        close(pm.covariance, c, "log-normal covariance", rtol=1e-7, atol=1e-9 * np.abs(c).max(), case=case)
        ok = [np.allclose(pm.mu, v, rtol=1e-8, atol=1e-9) for v in (m, m + 1)]
        check(any(ok), "log-normal expected returns", got=pm.mu, want=m, case=case)
    else:
        s = np.sqrt(np.diag(c))
        close(pm.mu / s, m / s, "expected returns of the empirical prior", rtol=1e-9, atol=1e-9)
        close(pm.covariance / np.outer(s, s), c / np.outer(s, s), "covariance of the empirical prior", rtol=1e-9, atol=1e-9)
    check(np.array_equal(pm.returns, x), "returns of the empirical prior")
    check(pm.cholesky is None or np.allclose(pm.cholesky @ pm.cholesky.T, pm.covariance), "square root of the covariance")
    return x.shape[1] > 1


# ---------------------------------------------------------------- Black-Litterman
@st.composite
def bl_cases(draw):
    k = draw(st.integers(2, 6))
    nv = draw(st.integers(1, k))
    return {
        "m": {**draw(gen.mat(14, 40, 2, 6, kinds=gen.SMOOTH)), "k": k},
        "views": [draw(gen.choice(VIEW)) for _ in range(nv)],
        "tau": draw(gen.choice([0.05, 0.05, 0.01, 0.3, 1.0])),
        "conf": draw(gen.choice(["none", "none", "mixed", "full", "zero", "all"])),
        "rf": draw(gen.choice([0.0, 0.0, 0.001])),
        "prior": draw(gen.choice(["default", "empirical", "factor", "nested"])),
        "groups": draw(gen.choice(["dict", "array"])),
        "form": draw(gen.choice(["frame", "frame", "array"])),
        "seed": draw(gen.seeds),
    }


def render(g, terms, const):
    """Terms (coefficient, name) = constant, written in one of the accepted ways."""
    parts = []
    for i, (c, n) in enumerate(terms):
        s = "-" if c < 0 else ("" if i == 0 else "+")
        a = abs(c)
        how = int(g.integers(3))
        body = n if a == 1 and how else (f"{a!r}*{n}" if how != 1 else f"{n} * {a!r}")
        parts.append(f"{s}{' ' if s and g.integers(2) else ''}{body}")
    left = (" " if g.integers(2) else "").join(parts) if len(parts) > 1 else parts[0]
    return f"{left} {g.choice(['=', '=='])} {const:.6f}"


def make_views(case, g, groups, names, sd):
    """Strings, picking matrix and right hand sides."""
    k = len(names)
    strs, P, q = [], [], []
    rows = np.array(groups)
    labels = sorted(set(rows[1:].ravel()))

    def row(n):
        hit = (rows == n).any(axis=0)
        return hit / hit.sum()

    for kind in case["views"]:
        const = round(float(g.normal() * sd), 6)
        i, j = (names[t] for t in g.choice(k, 2, replace=False))
        if kind == "absolute":
            t = [(1.0, i)]
        elif kind == "relative":
            t = [(1.0, i), (-1.0, j)]
        elif kind == "weighted":
            t = [(float(g.choice([2.0, 0.5, 3.0])), i), (float(g.choice([-1.5, 0.25, -1.0])), j)]
        elif kind == "both sides":
            strs.append(f"{i} - 0.5 * {j} + {abs(const):.6f} == 2*{j} {'+' if const >= 0 else '-'} {abs(const):.6f}")
            P.append(row(i) - 2.5 * row(j))
            q.append(const - abs(const))
            continue
        elif kind == "group":
            t = [(1.0, str(g.choice(labels)))]
        else:
            a, b = (str(v) for v in g.choice(labels, 2, replace=False))
            t = [(1.0, a), (-1.0, b)]
        strs.append(render(g, t, const))
        P.append(sum(c * row(n) for c, n in t))
        q.append(const)
    return strs, np.array(P), np.array(q)


@law(bl_cases(), quick=700, thorough=10000, rule="at least one view moves the estimate")
def black_litterman(case):
    from sklearn.linear_model import LinearRegression

    from skfolio import moments as mo
    from skfolio.prior import BlackLitterman, EmpiricalPrior, FactorModel, LoadingMatrixRegression

    g = gen.rng_of(case["seed"])
    x = gen.build(case["m"])
    k = x.shape[1]
    m0, c0 = mean_cov(x)
    if not spd(c0) or len(x) < k + 5:
        return False
    sd = float(np.sqrt(np.diag(c0)).mean())
    names = gen.names(k) if case["form"] == "frame" else [f"N{i}" for i in range(k)]
    sector = [f"S{int(v)}" for v in g.integers(0, 2, k)]
    region = [f"R{int(v)}" for v in g.integers(0, 2, k)]
    sector[:2] = ["S0", "S1"]
    rows = [names, sector, region]
    strs, P, q = make_views(case, g, rows, names, sd)
    sv = np.linalg.svd(P, compute_uv=False)
    if sv[-1] < 0.05:
        return False
    y = None
    if case["prior"] in ("factor", "nested") and case["form"] == "frame":
        f = g.normal(size=(len(x), 2)) * sd
        y = table(f, "F")
        prior = FactorModel(loading_matrix_estimator=LoadingMatrixRegression(linear_regressor=LinearRegression()))
        if case["prior"] == "nested":
            prior = BlackLitterman(["A0 = 0.001"], prior_estimator=EmpiricalPrior(), tau=0.5)
            y = None
    elif case["prior"] == "empirical":
        prior = EmpiricalPrior(mu_estimator=mo.EmpiricalMu(), covariance_estimator=mo.LedoitWolf())
    else:
        prior = None
    X = pd.DataFrame(x, columns=names, index=pd.date_range("2020-01-01", periods=len(x), freq="B")) if case["form"] == "frame" else x
    groups = rows if case["groups"] == "array" or case["form"] == "array" else {n: [s, r] for n, s, r in zip(names, sector, region, strict=True)}
    conf = None
    if case["conf"] != "none":
        conf = np.array([float(g.choice([0.1, 0.5, 0.9, 0.99])) for _ in q])
        if case["conf"] == "full":
            conf[g.integers(len(q))] = 1.0
        elif case["conf"] == "zero":
            conf[g.integers(len(q))] = 0.0
        elif case["conf"] == "all":
            conf[:] = float(g.choice([1.0, 0.0]))
        conf = conf if g.integers(2) else [float(v) for v in conf]
    bl = BlackLitterman(strs, groups=groups, prior_estimator=prior, tau=case["tau"], view_confidences=conf, risk_free_rate=case["rf"])
    quiet(lambda: bl.fit(X, y))
    close(bl.picking_matrix_, P, "picking matrix", rtol=1e-12, atol=1e-12, views=strs, rows=rows)
    close(bl.views_, q, "values of the views", rtol=1e-12, atol=1e-15, views=strs)
    base = EmpiricalPrior(mu_estimator=mo.EquilibriumMu()) if prior is None else prior
    pm0 = quiet(lambda: base.fit(X, y)).prior_model_
    pi, S = pm0.mu, pm0.covariance
    if prior is None:
        close(pi, c0.sum(axis=1) / k, "default prior", rtol=1e-7, atol=1e-12)
    t = case["tau"]
    v = np.array([P[i] @ S @ P[i] for i in range(len(q))])
    cf = None if conf is None else np.asarray(conf, float)
    use = np.ones(len(q), bool) if cf is None else cf > 0
    omega = t * v if cf is None else t * v * np.where(cf > 0, 1 / np.where(cf > 0, cf, 1) - 1, 0)
    Pu, qu, ou = P[use], q[use], omega[use]
    if len(qu):
        M = t * Pu @ S @ Pu.T + np.diag(ou)
        K = t * S @ Pu.T @ np.linalg.inv(M)
        mu = pi + K @ (qu - Pu @ pi) + case["rf"]
        cov = (1 + t) * S - K @ Pu @ S * t
    else:
        mu, cov = pi + case["rf"], (1 + t) * S
    s = np.sqrt(np.diag(S))
    pm = bl.prior_model_
    unit = max(1.0, np.abs(pi / s).max(), np.abs(q).max() / s.min())
    close(pm.mu / s, mu / s, "posterior expected returns", rtol=0, atol=1e-6 * unit, case=case, views=strs)
    close(pm.covariance / np.outer(s, s), cov / np.outer(s, s), "posterior covariance", rtol=0, atol=1e-6, case=case, views=strs)
    check(np.array_equal(pm.returns, pm0.returns), "returns of the posterior")
    if cf is not None:
        for i in np.flatnonzero(cf == 1.0):
            close(P[i] @ (pm.mu - case["rf"]), q[i], "a view held with full confidence is not met", rtol=0, atol=1e-6 * s.max() * unit, views=strs)
        if not use.any():
            close((pm.mu - case["rf"]) / s, pi / s, "views without confidence matter", rtol=0, atol=1e-6 * unit)
    note(case["prior"], case["conf"], *set(case["views"]))
    return bool(np.abs(mu - pi).max() > 1e-9 * s.max())


# ---------------------------------------------------------------- factor model
@st.composite
def fm_cases(draw):
    return {
        "m": draw(gen.mat(16, 40, 1, 6, kinds=gen.SMOOTH)),
        "f": draw(st.integers(1, 4)),
        "reg": draw(gen.choice(["ols", "ols0", "ridge", "given"])),
        "residual": draw(st.booleans()),
        "prior": draw(gen.choice(["default", "views", "cov"])),
        "form": draw(gen.choice(["frame", "frame", "array"])),
        "higham": draw(gen.choice([False, False, True])),
        "seed": draw(gen.seeds),
    }


@law(fm_cases(), quick=500, thorough=8000, rule="the factors explain part of the assets")
def factor_model(case):
    from sklearn.linear_model import LinearRegression, Ridge

    from skfolio import moments as mo
    from skfolio.prior import BaseLoadingMatrix, BlackLitterman, EmpiricalPrior, FactorModel, LoadingMatrixRegression

    g = gen.rng_of(case["seed"])
    x = gen.build(case["m"])
    n, k = x.shape
    sd = x.std(axis=0)
    if sd.min() < 1e-6 or sd.max() / sd.min() > 1e3:
        return False
    f = g.normal(size=(n, case["f"])) * 0.01 + 0.001
    x = x + sd * (f @ g.normal(size=(case["f"], k))) / 0.01
    X, Y = (table(x), table(f, "F")) if case["form"] == "frame" else (x, f)
    given = g.normal(size=(k, case["f"])), g.normal(size=k) * 0.001

    class Given(BaseLoadingMatrix):
        def __init__(self, b=None):
            self.b = b

        def fit(self, X, y):
            self.loading_matrix_, self.intercepts_ = given
            return self

    d = np.column_stack([np.ones(n), f])
    if case["reg"] == "given":
        le, (B, a) = Given(), given
    elif case["reg"] == "ridge":
        le = LoadingMatrixRegression(linear_regressor=Ridge(alpha=0.01, fit_intercept=False))
        B, a = np.linalg.solve(f.T @ f + 0.01 * np.eye(case["f"]), f.T @ x).T, np.zeros(k)
    else:
        ic = case["reg"] == "ols"
        le = LoadingMatrixRegression(linear_regressor=LinearRegression(fit_intercept=ic))
        co = np.linalg.lstsq(d if ic else f, x, rcond=None)[0]
        B, a = (co[1:].T, co[0]) if ic else (co.T, np.zeros(k))
    fp = None
    if case["prior"] == "cov":
        fp = EmpiricalPrior(mu_estimator=mo.EWMu(alpha=0.1), covariance_estimator=mo.EmpiricalCovariance(ddof=0))
    elif case["prior"] == "views":
        fp = BlackLitterman([f"F0 = {0.002 + 0.001 * float(g.random()):.6f}"], groups=[[f"F{i}" for i in range(case["f"])]], tau=0.4)
    low = k > case["f"] and not case["residual"]
    fm = quiet(lambda: FactorModel(loading_matrix_estimator=le, factor_prior_estimator=fp, residual_variance=case["residual"], higham=case["higham"] and not low).fit(X, Y))
    fpm = quiet(lambda: (fp or EmpiricalPrior()).fit(Y)).prior_model_
    if fp is None:
        fm_, fc_ = mean_cov(f)
        close(fpm.mu, fm_, "factor expected returns", rtol=1e-9, atol=1e-12)
        close(fpm.covariance, fc_, "factor covariance", rtol=1e-8, atol=1e-14)
    pm = fm.prior_model_
    s = x.std(axis=0) + np.abs(B) @ f.std(axis=0)
    close(fm.loading_matrix_estimator_.loading_matrix_, B, "loadings", rtol=1e-6, atol=1e-7 * np.abs(B).max())
    close(pm.mu / s, (B @ fpm.mu + a) / s, "expected returns of the factor model", rtol=0, atol=1e-7, case=case)
    cov = B @ fpm.covariance @ B.T
    if case["residual"]:
        e = x - f @ B.T - a
        e = e - e.mean(axis=0)
        cov = cov + np.diag((e**2).sum(axis=0) / (n - 1))
    ss = np.outer(s, s)
    r = cov / np.sqrt(np.outer(np.diag(cov), np.diag(cov)))
    loose = np.linalg.eigvalsh(r)[0] < 1e-9
    close(pm.covariance / ss, cov / ss, "covariance of the factor model", rtol=0, atol=1e-5 if loose else 1e-7, case=case)
    close(pm.returns / s, (fpm.returns @ B.T + a) / s, "returns of the factor model", rtol=0, atol=1e-6)
    ch = pm.cholesky
    check(ch is not None and ch.shape[0] == k, "square root missing")
    close(ch @ ch.T / ss, cov / ss, "square root of the covariance", rtol=0, atol=1e-7)
    note(case["reg"], case["prior"], "residual" if case["residual"] else "no residual")
    if case["form"] == "frame":
        check(list(fm.feature_names_in_) == list(X.columns), "names of the assets")
    return True


# ---------------------------------------------------------------- synthetic data
@law(
    st.fixed_dictionaries({"n": st.integers(3, 60), "k": st.integers(1, 5), "const": st.booleans(), "arg": gen.choice([None, 2.0, 0.5]), "bl": st.booleans(), "seed": gen.seeds}),
    quick=150,
    thorough=2000,
    rule="always",
)
def synthetic(case):
    import sklearn.base as skb

    from skfolio.prior import BlackLitterman, SyntheticData

    g = gen.rng_of(case["seed"])
    x = g.normal(size=(20, case["k"])) * 0.01
    z = g.normal(size=(200, case["k"])) * 0.01
    if case["const"]:
        z[:, -1] = 0.02
    seen = {}

    class Sampler(skb.BaseEstimator):
        def __init__(self, random_state=None):
            self.random_state = random_state

        def fit(self, X, y=None):
            seen["X"] = np.asarray(X).copy()
            return self

        def sample(self, n_samples=1, scale=1.0, conditioning=None):
            seen["n"], seen["conditioning"] = n_samples, conditioning
            return scale * z[:n_samples]

    sd = SyntheticData(distribution_estimator=Sampler(random_state=3), n_samples=case["n"], sample_args=None if case["arg"] is None else {"scale": case["arg"], "conditioning": {"A0": -0.1}})
    p = quiet(lambda: sd.fit(table(x)))
    want = z[: case["n"]] * (case["arg"] or 1.0)
    pm = p.prior_model_
    check(np.array_equal(seen["X"], x), "the distribution is not fitted on the returns")
    check(seen["conditioning"] == (None if case["arg"] is None else {"A0": -0.1}), "arguments of the sampling", got=seen["conditioning"])
    check(pm.returns.shape == want.shape and seen["n"] == case["n"], "number of samples", got=pm.returns.shape)
    close(pm.returns, want, "samples", rtol=0, atol=1e-5 if case["const"] else 0)
    free = slice(0, case["k"] - 1) if case["const"] else slice(None)
    check(np.array_equal(pm.returns[:, free], want[:, free]), "samples were altered")
    if case["const"]:
        check(np.var(pm.returns[:, -1]) > 0, "a constant asset is left without variance")
    m, c = mean_cov(pm.returns)
    close(pm.mu, m, "expected returns of the samples", rtol=1e-9, atol=1e-12)
    if not case["const"] and case["n"] > case["k"] + 1 and spd(c):
        close(pm.covariance, c, "covariance of the samples", rtol=1e-8, atol=1e-13)
        if case["bl"]:
            bl = quiet(lambda: BlackLitterman(["A0 = 0.001"], prior_estimator=sd).fit(table(x)))
            check(np.array_equal(bl.prior_model_.returns, pm.returns), "samples under views")
            note("views on samples")
    check(list(p.feature_names_in_) == gen.names(case["k"]), "names of the assets")


BAD = ["missing asset", "inequality", "text", "confidence", "negative confidence", "2d", "names", "horizon", "no horizon", "no sample", "n_samples", "loading shape", "intercept shape", "prior type"]


@law(st.fixed_dictionaries({"bad": gen.choice(BAD), "m": gen.mat(14, 24, 2, 4, kinds=gen.SMOOTH)}), quick=100, thorough=500, rule="always")
def refusals(case):
    import sklearn.base as skb

    from skfolio.prior import BaseLoadingMatrix, BlackLitterman, EmpiricalPrior, FactorModel, SyntheticData

    x = gen.build(case["m"])
    k = x.shape[1]
    X = table(x)
    f = table(x[:, :1] * 2 + 0.01 * np.arange(len(x))[:, None], "F")

    class L(BaseLoadingMatrix):
        def __init__(self, a=0, b=0):
            self.a, self.b = a, b

        def fit(self, X, y):
            self.loading_matrix_ = np.ones((k + self.a, 1))
            self.intercepts_ = np.ones(k + self.b)
            return self

    class NoSample(skb.BaseEstimator):
        def fit(self, X, y=None):
            return self

    class NoArg(NoSample):
        def sample(self, size=1):
            return x

    acts = {
        "missing asset": lambda: BlackLitterman(["ZZ = 0.01"]).fit(X),
        "inequality": lambda: BlackLitterman(["A0 <= 0.01"]).fit(X),
        "text": lambda: BlackLitterman(["A0 = = 0.01 A1"]).fit(X),
        "confidence": lambda: BlackLitterman(["A0 = 0.01"], view_confidences=[1.2]).fit(X),
        "negative confidence": lambda: BlackLitterman(["A0 = 0.01"], view_confidences=[-0.1]).fit(X),
        "2d": lambda: BlackLitterman([["A0 = 0.01"]]).fit(X),
        "names": lambda: BlackLitterman(["A0 = 0.01"]).fit(x),
        "horizon": lambda: EmpiricalPrior(investment_horizon=252).fit(X),
        "no horizon": lambda: EmpiricalPrior(is_log_normal=True).fit(X),
        "no sample": lambda: SyntheticData(distribution_estimator=NoSample()).fit(X),
        "n_samples": lambda: SyntheticData(distribution_estimator=NoArg()).fit(X),
        "loading shape": lambda: FactorModel(loading_matrix_estimator=L(a=1)).fit(X, f),
        "intercept shape": lambda: FactorModel(loading_matrix_estimator=L(b=1)).fit(X, f),
        "prior type": lambda: BlackLitterman(["A0 = 0.01"], prior_estimator=L()).fit(X),
    }
    from skfolio.exceptions import EquationToMatrixError, GroupNotFoundError

    must_raise(lambda: quiet(acts[case["bad"]]), (ValueError, TypeError, EquationToMatrixError, GroupNotFoundError), f"{case['bad']} is accepted")


LAWS = [empirical, black_litterman, factor_model, synthetic, refusals]
