"""C36 Univariate distributions fit, score, sample consistently; selection picks the best criterion."""

import warnings

import numpy as np
import pandas as pd
import scipy.stats as sst
from hypothesis import strategies as st
from skfolio.distribution import (
    ClaytonCopula,
    Gaussian,
    GaussianCopula,
    GumbelCopula,
    IndependentCopula,
    JoeCopula,
    JohnsonSU,
    NormalInverseGaussian,
    SelectionCriterion,
    StudentT,
    StudentTCopula,
    select_bivariate_copula,
    select_univariate_dist,
)
from sklearn.base import clone

from harness import gen
from harness.core import check, close, law, must_raise, note

ASSUMPTIONS = [
    "fits other than the Gaussian are numerical searches: a neighbouring parameter may be more likely by at most 0.05 + 1e-3 |log-likelihood|",
    "the Student-t search with everything free has absolute step tolerances (scipy), so its optimality is only required for data of scale 0.01 to 0.05, as returns have",
    "data are heavy or light tailed, skewed, shifted and scaled samples of 40 to 400 observations without more than a few repeated values",
    "criteria closer than 1e-6 relative are ties and either candidate is accepted",
]

DISTS = {"gaussian": Gaussian, "student": StudentT, "johnson": JohnsonSU, "nig": NormalInverseGaussian}


def quiet(f):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return f()


@st.composite
def data(draw):
    return {
        "kind": draw(gen.choice(["normal", "t3", "t6", "skew", "mix", "laplace", "rounded"])),
        "n": draw(gen.choice([40, 80, 150, 300])),
        "loc": draw(gen.choice([0.0, 0.0005, -0.01, 2.0])),
        "scale": draw(gen.choice([0.001, 0.01, 0.05, 1.0, 20.0])),
        "seed": draw(gen.seeds),
    }


def make(c):
    g = gen.rng_of(c["seed"])
    n = c["n"]
    z = {
        "normal": lambda: g.normal(size=n),
        "t3": lambda: g.standard_t(3, size=n),
        "t6": lambda: g.standard_t(6, size=n),
        "skew": lambda: np.sinh(0.4 + 0.7 * g.normal(size=n)),
        "mix": lambda: np.where(g.random(n) < 0.2, 3.0, 1.0) * g.normal(size=n),
        "laplace": lambda: g.laplace(size=n),
        "rounded": lambda: np.round(g.normal(size=n), 2),
    }[c["kind"]]()
    return c["loc"] * (c["scale"] if c["loc"] == 2.0 else 1) + c["scale"] * z


def params(m):
    if isinstance(m, Gaussian):
        return {"loc_": m.loc_, "scale_": m.scale_}
    if isinstance(m, StudentT):
        return {"dof_": m.dof_, "loc_": m.loc_, "scale_": m.scale_}
    return {"a_": m.a_, "b_": m.b_, "loc_": m.loc_, "scale_": m.scale_}


def logpdf(m, x):
    """The density written out from the fitted parameters."""
    z = (x - m.loc_) / m.scale_
    if isinstance(m, Gaussian):
        out = -0.5 * z**2 - 0.5 * np.log(2 * np.pi)
    elif isinstance(m, StudentT):
        from scipy.special import gammaln

        v = m.dof_
        ratio = gammaln((v + 1) / 2) - gammaln(v / 2) if v < 1e4 else 0.5 * np.log(v / 2) - 0.25 / v
        out = ratio - 0.5 * np.log(v * np.pi) - (v + 1) / 2 * np.log1p(z**2 / v)
    elif isinstance(m, JohnsonSU):
        out = np.log(m.b_) - 0.5 * np.log1p(z**2) - 0.5 * np.log(2 * np.pi) - 0.5 * (m.a_ + m.b_ * np.arcsinh(z)) ** 2
    else:
        from scipy.special import k1e

        r = np.sqrt(1 + z**2)
        out = np.log(m.a_) + np.log(k1e(m.a_ * r)) - m.a_ * r - np.log(np.pi * r) + np.sqrt(m.a_**2 - m.b_**2) + m.b_ * z
    return out - np.log(m.scale_)


@st.composite
def fit_cases(draw):
    c = draw(data())
    c["dist"] = draw(gen.choice(list(DISTS)))
    c["fixed"] = draw(gen.choice(["none", "none", "loc", "scale"] + (["both"] if c["dist"] == "student" else [])))
    c["frame"] = draw(st.booleans())
    return c


def build(c, x):
    kw = {}
    g = gen.rng_of(c["seed"] + 1)
    if c["fixed"] in ("loc", "both"):
        kw["loc"] = float(gen_round(np.median(x) + 0.3 * x.std() * g.normal())) if g.random() < 0.7 else 0.0
    if c["fixed"] in ("scale", "both"):
        kw["scale"] = float(x.std() * g.uniform(0.6, 1.6))
    s = int(g.integers(2**31))
    return DISTS[c["dist"]](**kw, random_state=s), kw


def gen_round(v):
    return float(f"{v:.4g}")


@law(fit_cases(), quick=130, thorough=1000, rule="parameters other than plain moments were estimated")
def fit_and_score(c):
    x = make(c)
    m, kw = build(c, x)
    X = pd.DataFrame(x[:, None], columns=["A"]) if c["frame"] else x[:, None]
    keep = np.array(X, copy=True)
    check(quiet(lambda: m.fit(X)) is m, "fit does not return the estimator")
    check(np.array_equal(np.asarray(X), keep), "the data was modified")
    for k, v in kw.items():
        close(getattr(m, k + "_"), v, f"fixed {k} not honoured", rtol=1e-12, atol=0, case=c)
    check(m.scale_ > 0 and all(np.isfinite(v) for v in params(m).values()), "parameters", p=params(m), case=c)
    ref = quiet(lambda: logpdf(m, x))
    got = quiet(lambda: m.score_samples(X))
    check(got.shape == (len(x),), "shape of the log-density")
    close(got, ref, "log density", rtol=1e-6, atol=1e-6, case=c)
    L = float(ref.sum())
    close(quiet(lambda: m.score(X)), L, "log-likelihood", rtol=1e-8, atol=1e-6)
    k = len(params(m))
    check(m.n_params == k, "number of parameters", n=m.n_params)
    close(quiet(lambda: m.aic(X)), 2 * k - 2 * L, "aic", rtol=1e-8, atol=1e-5)
    close(quiet(lambda: m.bic(X)), k * np.log(len(x)) - 2 * L, "bic", rtol=1e-8, atol=1e-5)
    if c["dist"] == "gaussian":
        close(m.loc_, kw.get("loc", x.mean()), "gaussian mean", rtol=1e-9, atol=1e-12)
        close(m.scale_, kw.get("scale", np.sqrt(np.mean((x - m.loc_) ** 2))), "gaussian deviation", rtol=1e-9, atol=0)
    # neighbours
    s = x.std()
    slack = 0.05 + 1e-3 * abs(L)
    if c["dist"] == "student" and not kw and c["scale"] not in (0.01, 0.05):
        note("scale of the free Student-t search")
        return True
    p0 = params(m)
    for name, v in p0.items():
        if name[:-1] in kw:
            continue
        steps = [v - 0.05 * s, v + 0.05 * s] if name == "loc_" else [v * 0.93, v * 1.07]
        if name in ("a_", "b_") and abs(v) < 0.1:
            steps = [v - 0.05, v + 0.05]
        for w in steps:
            alt = clone(m)
            for q, u in p0.items():
                setattr(alt, q, u)
            setattr(alt, name, w)
            if isinstance(m, NormalInverseGaussian) and abs(alt.b_) >= alt.a_:
                continue
            if isinstance(m, JohnsonSU) and alt.b_ <= 0:
                continue
            other = quiet(lambda: float(logpdf(alt, x).sum()))
            check(not other > L + slack, "a neighbouring parameter is more likely", name=name, L=L, other=other, p=p0, w=w, case=c)
    note(c["dist"], c["fixed"], c["kind"])
    return c["dist"] != "gaussian" or bool(kw)


@law(fit_cases(), quick=80, thorough=600, rule="a family other than the Gaussian, or a fixed parameter")
def functions_agree(c):
    x = make(c)
    m, kw = build(c, x)
    quiet(lambda: m.fit(x[:, None]))
    s = x.std()
    g = gen.rng_of(c["seed"] + 2)
    lo, hi = x.min() - s, x.max() + s
    grid = np.linspace(lo, hi, 4001)
    pdf = np.exp(quiet(lambda: logpdf(m, grid)))
    F = quiet(lambda: m.cdf(grid[:, None]))
    check(F.shape == (len(grid), 1), "shape of the distribution function", s=F.shape)
    F = F.ravel()
    check(np.all(np.diff(F) >= -1e-12) and F.min() >= 0 and F.max() <= 1, "not a distribution function", case=c)
    d = grid[1] - grid[0]
    area = np.concatenate([[0], np.cumsum((pdf[1:] + pdf[:-1]) / 2 * d)])
    width = np.sqrt(np.mean((pdf[2:] - 2 * pdf[1:-1] + pdf[:-2]) ** 2))
    if c["dist"] == "nig" and m.a_ > 20:
        note("near the normal limit")  # scipy's numerical inversion gives up there
        return False
    sharp = float(pdf.max() * d)  # mass of one step
    if sharp < 0.02:
        close(F - F[0], area, "distribution function is not the integral of the density", rtol=0, atol=2e-3, case=c, width=width)
        note("integrated")
    p = np.sort(g.uniform(0.002, 0.998, 9))
    q = quiet(lambda: m.ppf(p[:, None])).ravel()
    close(quiet(lambda: m.cdf(q[:, None])).ravel(), p, "quantile function", rtol=0, atol=1e-6, case=c)
    check(np.all(np.diff(q) >= 0), "quantiles not increasing", case=c)
    # samples
    n = 800
    y = quiet(lambda: m.sample(n_samples=n))
    check(y.shape == (n, 1) and np.isfinite(y).all(), "shape of the samples", s=y.shape)
    check(np.array_equal(y, quiet(lambda: m.sample(n_samples=n))), "same random state, other samples", case=c)
    u = np.sort(quiet(lambda: m.cdf(y)).ravel())
    ks = max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n)) * np.sqrt(n)
    check(ks < 3.0, "samples do not follow the distribution", ks=ks, case=c)
    m2 = clone(m).set_params(random_state=m.random_state + 1)
    for k_, v in params(m).items():
        setattr(m2, k_, v)
    check(not np.array_equal(y, quiet(lambda: m2.sample(n_samples=n))), "random state ignored")
    one = quiet(lambda: m.sample())
    check(one.shape == (1, 1), "default number of samples")
    check(np.array_equal(one, quiet(lambda: m.sample(n_samples=1))), "same random state, other sample", case=c)
    check(all(f"{k}=" in m.fitted_repr for k in ("loc", "scale")) and type(m).__name__ in m.fitted_repr, "representation")
    note(c["dist"])
    return c["dist"] != "gaussian" or bool(kw)


@law(st.tuples(fit_cases(), gen.choice(["two", "nan", "both fixed", "1d"])), quick=24, thorough=100, rule="every malformed input")
def refusals(case):
    c, bad = case
    x = make(c)
    D = DISTS[c["dist"]]
    if bad == "two":
        must_raise(lambda: quiet(lambda: D().fit(np.column_stack([x, x]))), ValueError, "two columns accepted")
        m = quiet(lambda: D().fit(x[:, None]))
        must_raise(lambda: quiet(lambda: m.score_samples(np.column_stack([x, x]))), ValueError, "two columns scored")
        must_raise(lambda: select_univariate_dist(np.column_stack([x, x])), ValueError, "two columns accepted in the selection")
    elif bad == "nan":
        x = x.copy()
        x[3] = np.nan
        must_raise(lambda: quiet(lambda: D().fit(x[:, None])), ValueError, "missing value accepted")
    elif bad == "1d":
        must_raise(lambda: quiet(lambda: D().fit(x)), ValueError, "one-dimensional data accepted")
        must_raise(lambda: select_univariate_dist(x), ValueError, "one-dimensional data accepted in the selection")
    elif c["dist"] != "student":
        must_raise(lambda: quiet(lambda: D(loc=0.0, scale=1.0).fit(x[:, None])), ValueError, "nothing left to fit accepted")
    return True


# ---------------------------------------------------------------- selection
@st.composite
def select_cases(draw):
    c = draw(data())
    c["cands"] = draw(st.one_of(st.none(), gen.subset(["gaussian", "student", "johnson", "gaussian0", "student0", "nig"]).map(lambda s: s or ["student", "gaussian"])))
    c["bic"] = draw(st.booleans())
    return c


def cand(name):
    return {
        "gaussian": lambda: Gaussian(),
        "student": lambda: StudentT(),
        "johnson": lambda: JohnsonSU(),
        "nig": lambda: NormalInverseGaussian(),
        "gaussian0": lambda: Gaussian(loc=0.0),
        "student0": lambda: StudentT(loc=0.0),
    }[name]()


def crit(m, X, bic):
    L = float(np.sum(quiet(lambda: m.score_samples(X))))
    return (m.n_params * np.log(len(X)) if bic else 2 * m.n_params) - 2 * L


def best(sel, fitted, X, bic, key, c):
    vals = {n: crit(m, X, bic) for n, m in fitted.items()}
    got = crit(sel, X, bic)
    low = min(vals.values())
    check(got <= low + 1e-6 * (1 + abs(low)), "a candidate has a better criterion", got=got, vals=vals, sel=repr(sel), case=c)
    check(any(key(sel, m) for n, m in fitted.items() if abs(vals[n] - low) <= 1e-6 * (1 + abs(low))), "selected model is not a candidate", sel=repr(sel), vals=vals, case=c)
    return vals


@law(select_cases(), quick=60, thorough=500, rule="at least two candidates whose criteria differ")
def univariate_selection(c):
    x = make(c)
    X = x[:, None]
    names = c["cands"] or ["gaussian", "student", "johnson"]
    cands = [cand(n) for n in names]
    before = [repr(d) + str(vars(d)) for d in cands]
    kw = {} if c["cands"] is None else {"distribution_candidates": cands}
    if c["bic"] or c["seed"] % 2:
        kw["selection_criterion"] = SelectionCriterion.BIC if c["bic"] else SelectionCriterion.AIC
    sel = quiet(lambda: select_univariate_dist(X, **kw))
    check([repr(d) + str(vars(d)) for d in cands] == before, "the candidates were modified", case=c)
    fitted = {n: quiet(lambda d=cand(n): d.fit(X)) for n in names}
    vals = best(sel, fitted, X, c["bic"], lambda a, b: type(a) is type(b) and a.loc == b.loc, c)
    note("bic" if c["bic"] else "aic", type(sel).__name__)
    return len(vals) > 1 and max(vals.values()) - min(vals.values()) > 1e-3


COPS = {"gaussian": GaussianCopula, "student": StudentTCopula, "clayton": ClaytonCopula, "gumbel": GumbelCopula, "joe": JoeCopula, "independent": IndependentCopula}


@st.composite
def cop_cases(draw):
    return {
        "src": draw(gen.choice(["gauss", "t", "clayton", "none", "mono"])),
        "rho": draw(gen.choice([-0.8, -0.4, 0.15, 0.3, 0.6, 0.9])),
        "n": draw(gen.choice([40, 100, 250])),
        "cands": draw(st.one_of(st.none(), gen.subset(list(COPS)).map(lambda s: s or ["joe", "clayton"]))),
        "itau": draw(gen.choice([True, True, False])),
        "given": draw(gen.choice([None, None, 0.2, -0.5])),
        "bic": draw(st.booleans()),
        "level": draw(gen.choice([None, 0.05, 0.01, 0.5, 0.0, 1.0])),
        "seed": draw(gen.seeds),
    }


@law(cop_cases(), quick=90, thorough=700, rule="the pair is dependent enough for candidates to be compared")
def copula_selection(c):
    g = gen.rng_of(c["seed"])
    n = c["n"]
    if c["src"] == "none":
        x = g.random((n, 2))
    elif c["src"] == "clayton":
        th = 3 * abs(c["rho"])
        u, p = g.random((2, n))
        x = np.column_stack([u, (u**-th * (p ** (-th / (1 + th)) - 1) + 1) ** (-1 / th)])
        if c["rho"] < 0:
            x[:, 0] = 1 - x[:, 0]
    else:
        z = g.multivariate_normal([0, 0], [[1, c["rho"]], [c["rho"], 1]], size=n)
        if c["src"] == "t":
            z = z / np.sqrt(g.chisquare(3, size=(n, 1)) / 3)
        if c["src"] == "mono":
            z[:, 1] = np.where(g.random(n) < 0.5, z[:, 0], z[:, 1])
        x = (sst.rankdata(z, axis=0) - 0.5) / n
    x = np.clip(x, 1e-3, 1 - 1e-3)
    names = c["cands"] or ["gaussian", "student", "clayton", "gumbel", "joe"]

    def one(name):
        if name == "independent":
            return COPS[name]()
        if c["cands"] is None:
            return COPS[name]()
        return COPS[name](itau=c["itau"], kendall_tau=c["given"] if name in ("gaussian", "clayton", "joe") else None)

    cands = [one(k) for k in names]
    before = [repr(d) + str(vars(d)) for d in cands]
    kw = {} if c["cands"] is None else {"copula_candidates": cands}
    if c["level"] is not None:
        kw["independence_level"] = c["level"]
    if c["bic"]:
        kw["selection_criterion"] = SelectionCriterion.BIC
    sel = quiet(lambda: select_bivariate_copula(x, **kw))
    check([repr(d) + str(vars(d)) for d in cands] == before, "the candidates were modified", case=c)
    p = sst.kendalltau(*x.T).pvalue
    level = 0.05 if c["level"] is None else c["level"]
    if p >= level:
        check(isinstance(sel, IndependentCopula), "independence not recognised", p=p, level=level, sel=repr(sel))
        note("independent")
        return False
    fitted = {k: quiet(lambda d=one(k): d.fit(x)) for k in names}
    best(sel, fitted, x, c["bic"], lambda a, b: type(a) is type(b), c)
    note(type(sel).__name__, "bic" if c["bic"] else "aic")
    return len(names) > 1


@law(st.tuples(gen.seeds, gen.choice(["class", "dist", "shape", "criterion"])), quick=16, thorough=40, rule="every malformed request")
def selection_refusals(case):
    seed, bad = case
    g = gen.rng_of(seed)
    z = g.normal(size=(60, 1))
    x = (sst.rankdata(np.column_stack([z, z + 0.3 * g.normal(size=(60, 1))]), axis=0) - 0.5) / 60
    if bad == "class":
        must_raise(lambda: select_bivariate_copula(x, copula_candidates=[Gaussian()]), ValueError, "a univariate candidate accepted")
    elif bad == "dist":
        must_raise(lambda: select_univariate_dist(z, distribution_candidates=[GaussianCopula()]), ValueError, "a copula candidate accepted")
    elif bad == "shape":
        must_raise(lambda: select_bivariate_copula(np.column_stack([x, x])), ValueError, "four columns accepted")
    else:
        must_raise(lambda: select_univariate_dist(z, selection_criterion="AICC"), (ValueError, AttributeError), "unknown criterion accepted")
    return True
