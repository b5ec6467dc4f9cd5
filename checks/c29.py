"""C29 Expected-return estimates match their definition."""

import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import gen
from harness.core import check, close, law, must_raise, note

ASSUMPTIONS = [
    "published definitions: sample mean, normalised exponential weights, risk aversion x covariance x weights, James-Stein and Bayes-Stein shrinkage (Jorion 1986, Meucci 2005), Bodnar-Okhrin-Parolya (2019)",
    "estimates that invert the covariance are compared where its condition number is below 1e7",
    "Bodnar-Okhrin-Parolya: the weight of the target is accepted with the normalisation of the paper or with the one a stored test value fixes (known finding)",
]

EST = ["empirical", "ew", "equilibrium", "james", "bayes", "bodnar"]
COV = ["default", "biased", "ew", "ledoit", "given"]


@st.composite
def cases(draw):
    name = draw(gen.choice(EST))
    return {
        "est": name,
        "m": draw(gen.mat(12 if name in EST[3:] else 1 if name == "empirical" else 2, 40, 1 if name in EST[:3] else 2, 7, kinds=gen.SMOOTH)),
        "alpha": draw(gen.choice([0.01, 0.05, 0.2, 0.5, 0.9, 1.0])),
        "window": draw(gen.choice([None, None, 1, 2, 5, 10, 30])),
        "aversion": draw(gen.choice([1.0, 1.0, 0.5, 2.5, 10.0])),
        "weights": draw(gen.choice(["none", "simplex", "caps", "list"])),
        "cov": draw(gen.choice(COV)),
        "target": draw(st.booleans()),
        "form": draw(gen.choice(["frame", "array"])),
        "nested": draw(gen.choice([False, False, True])),
        "seed": draw(gen.seeds),
    }


def cov_ref(x, name):
    n = len(x)
    d = x - x.mean(axis=0)
    if name == "ew":
        w = np.array([0.8 ** (n - 1 - i) for i in range(n)])
        w /= w.sum()
        d = x - w @ x
        return (d.T * w) @ d / (1 - (w**2).sum())
    if name == "ledoit":
        from sklearn.covariance import ledoit_wolf

        return ledoit_wolf(x)[0]
    if name == "given":
        return d.T @ d / (n - 1) * 2 + np.diag(x.var(axis=0))
    return d.T @ d / (n if name == "biased" else n - 1)


def cov_est(name):
    from skfolio import moments as mo

    if name == "default":
        return None
    if name == "biased":
        return mo.EmpiricalCovariance(ddof=0)
    if name == "ew":
        return mo.EWCovariance(alpha=0.2)
    if name == "ledoit":
        return mo.LedoitWolf()

    class Given(mo.BaseCovariance):
        def __init__(self, nearest=True, higham=False, higham_max_iteration=100):
            super().__init__(nearest=nearest, higham=higham, higham_max_iteration=higham_max_iteration)

        def fit(self, X, y=None):
            from sklearn.utils.validation import validate_data

            X = validate_data(self, X)
            self.covariance_ = cov_ref(X, "given")
            return self

    return Given()


def weights_of(case, k):
    g = gen.rng_of(case["seed"])
    if case["weights"] == "none":
        return None
    if case["weights"] == "caps":
        return g.uniform(1, 50, k)
    w = g.dirichlet(np.ones(k))
    return [float(v) for v in w] if case["weights"] == "list" else w


def table(x):
    return pd.DataFrame(x, columns=gen.names(x.shape[1]), index=pd.date_range("2020-01-01", periods=len(x), freq="B"))


def make(case, w):
    from skfolio import moments as mo

    n = case["est"]
    if n == "empirical":
        return mo.EmpiricalMu(window_size=case["window"])
    if n == "ew":
        return mo.EWMu(window_size=case["window"], alpha=case["alpha"])
    if n == "equilibrium":
        return mo.EquilibriumMu(risk_aversion=case["aversion"], weights=w, covariance_estimator=cov_est(case["cov"]))
    m = {"james": "JAMES_STEIN", "bayes": "BAYES_STEIN", "bodnar": "BODNAR_OKHRIN"}[n]
    return mo.ShrunkMu(covariance_estimator=cov_est(case["cov"]), vol_weighted_target=case["target"], method=mo.ShrunkMuMethods[m])


def fit(case, x, w, cols=None):
    est = make(case, w)
    X = table(x) if case["form"] == "frame" else x
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["nested"]:
            from skfolio.prior import EmpiricalPrior

            p = EmpiricalPrior(mu_estimator=est).fit(X)
            close(p.prior_model_.mu, p.mu_estimator_.mu_, "the prior changes the estimate", rtol=0, atol=0)
            return p.mu_estimator_
        return est.fit(X)


def usable(case, x):
    if len(x) < 2 and case["nested"]:
        return False
    n = case["est"]
    if n in ("empirical", "ew"):
        return True
    if len(x) < x.shape[1] + 4:
        return False
    c = cov_ref(x, case["cov"])
    s = np.sqrt(np.diag(c))
    if s.min() <= 1e-9:
        return False
    v = np.linalg.eigvalsh(c / np.outer(s, s))
    if v[0] < 1e-6 or s.max() / s.min() > 1e3:
        return False
    if n == "equilibrium":
        return True
    m = x.mean(axis=0)
    return bool(np.ptp(m) > 1e-6 * s.max() and (n != "bodnar" or abs(m.mean()) > 1e-3 * s.max() / np.sqrt(len(x))))


def reference(case, x, w):
    """Mean estimate(s) accepted, target, alpha, beta."""
    n, k = x.shape
    name = case["est"]
    if name in ("empirical", "ew"):
        z = x[-case["window"] :] if case["window"] else x
        if name == "empirical":
            return [(sum(z) / len(z), None, None, None)]
        q = np.array([(1 - case["alpha"]) ** (len(z) - 1 - i) for i in range(len(z))])
        return [(q @ z / q.sum(), None, None, None)]
    c = cov_ref(x, case["cov"])
    if name == "equilibrium":
        ww = np.ones(k) / k if w is None else np.asarray(w)
        return [(case["aversion"] * c @ ww, None, None, None)]
    m = x.mean(axis=0)
    one = np.ones(k)
    si = lambda v: np.linalg.solve(c, v)  # noqa: E731
    t = (one @ si(m)) / (one @ si(one)) if case["target"] else m.mean()
    t = t * one
    d = m - t
    if name == "james":
        v = np.linalg.eigvalsh(c)
        b = (v.sum() - 2 * v[-1]) / (d @ d) / n
        return [((1 - b) * m + b * t, t, 1 - b, b)]
    if name == "bayes":
        b = (k + 2) / (n * d @ si(d) + k + 2)
        return [((1 - b) * m + b * t, t, 1 - b, b)]
    u, v, q = m @ si(m), m @ si(t), t @ si(t)
    a = ((u - k / (n - k)) * q - v**2) / (u * q - v**2)
    out = []
    for den in (u, q):
        b = (1 - a) * v / den
        out.append((a * m + b * t, t, a, b))
    return out


def tol(x):
    return 1e-7 * max(np.abs(x).max(), 1e-12)


@law(cases(), quick=1800, thorough=30000, rule="more than one asset and observation")
def definition(case):
    x = gen.build(case["m"])
    if not usable(case, x):
        return False
    w = weights_of(case, x.shape[1])
    keep = x.copy()
    est = fit(case, x, w)
    check(np.array_equal(x, keep), "the returns were modified")
    got = est.mu_
    check(isinstance(got, np.ndarray) and got.shape == (x.shape[1],), "shape of the estimate", shape=np.shape(got))
    refs = reference(case, x, w)
    scale = tol(x)
    if case["est"] in ("james", "bodnar"):
        scale *= max(1.0, abs(refs[0][2]), abs(refs[0][3]), abs(refs[-1][3]))
    if case["est"] == "equilibrium":
        scale = 1e-9 * np.abs(refs[0][0]).max() + 1e-15
    ok = [np.abs(got - r[0]).max() <= scale for r in refs]
    check(any(ok), f"{case['est']} differs from its definition", got=got, want=refs[0][0], case=case)
    if refs[0][1] is not None:
        r = refs[ok.index(True)]
        close(est.mu_target_, r[1], "target of the shrinkage", rtol=1e-6, atol=tol(x))
        close([est.alpha_, est.beta_], [r[2], r[3]], "intensities", rtol=1e-5, atol=1e-6, case=case)
        m = x.mean(axis=0)
        close(est.alpha_ * m + est.beta_ * est.mu_target_, got, "the estimate is not the stated combination", rtol=0, atol=scale)
        if case["est"] == "bayes":
            check(-1e-9 <= est.beta_ <= 1 + 1e-9 and abs(est.alpha_ + est.beta_ - 1) < 1e-9, "Bayes-Stein leaves the segment between mean and target", a=est.alpha_, b=est.beta_)
        if case["est"] == "james":
            check(abs(est.alpha_ + est.beta_ - 1) < 1e-9 * max(1, abs(est.beta_)), "James-Stein leaves the line between mean and target")
            if len(m) == 2:
                check(est.beta_ <= 1e-9, "two assets leave nothing to shrink")
    note(case["est"], "window" if case["window"] and case["window"] < len(x) else "all")
    if case["form"] == "frame":
        names = getattr(est, "feature_names_in_", None)
        check(names is not None and list(names) == list(table(x).columns), "names of the assets")
    return x.size > 1


inv_s = st.fixed_dictionaries({"c": cases(), "op": gen.choice(["permute", "shift", "scale", "history", "form"]), "seed": gen.seeds})


@law(inv_s, quick=1000, thorough=15000, rule="the transformation changes the input")
def invariance(case):
    c, op = case["c"], case["op"]
    g = gen.rng_of(case["seed"])
    x = gen.build(c["m"])
    if not usable(c, x):
        return False
    w = weights_of(c, x.shape[1])
    a = fit(c, x, w).mu_
    big = max(np.abs(a).max(), np.abs(x).max())
    rt = 1e-6 if c["est"] in EST[3:] else 1e-9
    if op == "permute":
        if x.shape[1] < 2:
            return False
        p = g.permutation(x.shape[1])
        pw = w if w is None else np.asarray(w)[p]
        b = fit(c, np.ascontiguousarray(x[:, p]), pw).mu_
        close(b, a[p], "permuting the assets", rtol=0, atol=rt * big)
    elif op == "shift":
        s = float(g.choice([1, -1])) * 2.0 ** int(g.integers(-3, 2)) * np.abs(x).max()
        if c["est"] == "bodnar" or c["cov"] == "ledoit" and c["est"] != "equilibrium":
            return False
        y = x + s
        if not usable(c, y):
            return False
        b = fit(c, y, w).mu_
        want = a if c["est"] == "equilibrium" else a + s
        close(b, want, "adding a constant to all returns", rtol=0, atol=10 * rt * max(big, np.abs(y).max()), case=case)
    elif op == "scale":
        s = 2.0 ** int(g.integers(-3, 4))
        b = fit(c, x * s, w).mu_
        close(b, a * (s**2 if c["est"] == "equilibrium" else s), "rescaling the returns", rtol=0, atol=rt * big * max(s, s * s))
    elif op == "history":
        if c["est"] not in ("empirical", "ew") or not c["window"] or c["nested"] or len(x) <= c["window"]:
            return False
        y = x.copy()
        y[: len(x) - c["window"]] = g.normal(size=(len(x) - c["window"], x.shape[1])) * np.abs(x).max()
        close(fit(c, y, w).mu_, a, "observations before the window matter", rtol=0, atol=0)
        z = x.copy()
        z[len(x) - c["window"]] += np.abs(x).max() + 0.01
        wt = (1 - c["alpha"]) ** (c["window"] - 1)
        if c["est"] == "empirical" or wt > 1e-4:
            check(np.all(fit(c, z, w).mu_ != a), "the first observation of the window is ignored")
    else:
        b = fit({**c, "form": "array" if c["form"] == "frame" else "frame"}, x, w).mu_
        close(b, a, "arrays and frames differ", rtol=1e-12, atol=1e-15)
    note(op, c["est"])
    return True


@law(st.fixed_dictionaries({"bad": gen.choice(["method", "alpha0", "alpha2", "nan", "weights", "cov"]), "m": gen.mat(12, 20, 2, 4, kinds=gen.SMOOTH)}), quick=60, thorough=300, rule="always")
def refusals(case):
    from skfolio import moments as mo

    x = gen.build(case["m"])
    k = x.shape[1]
    bad = {
        "method": lambda: mo.ShrunkMu(method="JAMES_STEIN").fit(x),
        "alpha0": lambda: mo.EWMu(alpha=0.0).fit(x),
        "alpha2": lambda: mo.EWMu(alpha=1.5).fit(x),
        "nan": lambda: mo.EmpiricalMu().fit(np.where(np.arange(k) == 1, np.nan, x)),
        "weights": lambda: mo.EquilibriumMu(weights=np.ones(k + 1)).fit(x),
        "cov": lambda: mo.EquilibriumMu(covariance_estimator=mo.EmpiricalMu()).fit(x),
    }[case["bad"]]
    must_raise(bad, (ValueError, TypeError), f"{case['bad']} is accepted")


LAWS = [definition, invariance, refusals]
