"""C35 Bivariate copulas are coherent: distribution, derivatives, inverses, density, samples."""

import warnings

import numpy as np
import scipy.special as sp
import scipy.stats as sst
from hypothesis import strategies as st
from skfolio.distribution import (
    ClaytonCopula,
    GaussianCopula,
    GumbelCopula,
    IndependentCopula,
    JoeCopula,
    StudentTCopula,
    compute_pseudo_observations,
    empirical_tail_concentration,
)
from skfolio.distribution.copula import CopulaRotation

from harness import gen
from harness.core import check, close, law, must_raise, note

ASSUMPTIONS = [
    "reference distribution functions come from the Archimedean generators (extended precision) and from quadrature of the conditional laws for the elliptical copulas; points lie in [1e-4, 1 - 1e-4] and Kendall tau in [-0.93, 0.93]",
    "the Student-t distribution function is a randomised integral in the library, compared within 5e-3",
    "statistical comparisons of samples use bounds exceeded with probability below 1e-7 per case",
    "the joint fit of the Student-t copula is judged at a convergence tolerance of 1e-9; at the default of 1e-4 the optimiser may stop early, as documented",
    "the sign of the dependence is required of a fit only when the data's Kendall tau is at least 0.25 with 120 observations or more",
]

ROT = list(CopulaRotation)
ARCH = {"clayton": ClaytonCopula, "gumbel": GumbelCopula, "joe": JoeCopula}
ALL = {**ARCH, "gaussian": GaussianCopula, "student": StudentTCopula, "independent": IndependentCopula}
LD = np.longdouble


# ---------------------------------------------------------------- references
class Generator:
    def __init__(self, name, th):
        self.name, self.th = name, LD(th)

    def f(self, t):
        th = self.th
        if self.name == "clayton":
            return (t**-th - 1) / th
        if self.name == "gumbel":
            return (-np.log(t)) ** th
        return -np.log1p(-((1 - t) ** th))

    def d1(self, t):
        th = self.th
        if self.name == "clayton":
            return -(t ** (-th - 1))
        if self.name == "gumbel":
            return -th * (-np.log(t)) ** (th - 1) / t
        return -th * (1 - t) ** (th - 1) / (1 - (1 - t) ** th)

    def d2(self, t):
        th = self.th
        if self.name == "clayton":
            return (th + 1) * t ** (-th - 2)
        if self.name == "gumbel":
            z = -np.log(t)
            return th * z ** (th - 2) * (th - 1 + z) / t**2
        w = 1 - (1 - t) ** th
        a = th * (1 - t) ** (th - 1)
        return th * (th - 1) * (1 - t) ** (th - 2) / w + (a / w) ** 2

    def inv(self, s):
        th = self.th
        if self.name == "clayton":
            return (1 + th * s) ** (-1 / th)
        if self.name == "gumbel":
            return np.exp(-(s ** (1 / th)))
        return 1 - (-np.expm1(-s)) ** (1 / th)

    def cdf(self, u, v):
        return self.inv(self.f(u) + self.f(v))

    def h(self, u, v):
        """Conditional law of the first coordinate given the second."""
        return self.d1(v) / self.d1(self.cdf(u, v))

    def logpdf(self, u, v):
        c = self.cdf(u, v)
        return np.log(self.d2(c)) + np.log(-self.d1(u)) + np.log(-self.d1(v)) - 3 * np.log(-self.d1(c))

    def tau(self):
        x, w = np.polynomial.legendre.leggauss(300)
        s = (x + 1) / 2
        t = s**3  # denser near zero
        return 1 + 4 * float(np.sum(self.f(t.astype(LD)) / self.d1(t.astype(LD)) * 3 * s**2 * w / 2))


_X, _W = np.polynomial.legendre.leggauss(300)


class Elliptic:
    def __init__(self, rho, dof=None):
        self.rho, self.dof = rho, dof

    def q(self, u):
        return sst.norm.ppf(u) if self.dof is None else sst.t(self.dof).ppf(u)

    def h(self, u, v):
        a, b = self.q(np.asarray(u, float)), self.q(np.asarray(v, float))
        if self.dof is None:
            return sst.norm.cdf((a - self.rho * b) / np.sqrt(1 - self.rho**2))
        s = np.sqrt((1 - self.rho**2) * (self.dof + b**2) / (self.dof + 1))
        return sst.t(self.dof + 1).cdf((a - self.rho * b) / s)

    def cdf(self, u, v):
        s = (_X + 1) / 2
        return np.array([np.sum(self.h(a, b * s**2) * b * 2 * s * _W / 2) for a, b in zip(np.asarray(u, float), np.asarray(v, float), strict=True)])

    def logpdf(self, u, v):
        z = np.column_stack([self.q(np.asarray(u, float)), self.q(np.asarray(v, float))])
        R = np.array([[1, self.rho], [self.rho, 1]])
        if self.dof is None:
            return sst.multivariate_normal(np.zeros(2), R).logpdf(z) - sst.norm.logpdf(z).sum(axis=1)
        return sst.multivariate_t(np.zeros(2), R, df=self.dof).logpdf(z) - sst.t(self.dof).logpdf(z).sum(axis=1)

    def tau(self):
        return 2 / np.pi * np.arcsin(self.rho)


class Product:
    def cdf(self, u, v):
        return u * v

    def h(self, u, v):
        return u + 0 * v

    def logpdf(self, u, v):
        return 0 * u

    def tau(self):
        return 0.0


class Reflected:
    """The law of a reflected pair; the base copulas are exchangeable.

    90: first coordinate reflected, 180: both, 270: second.
    """

    def __init__(self, base, rot):
        self.b, self.r = base, rot

    def cdf(self, u, v):
        b = self.b
        if self.r == CopulaRotation.R90:
            return v - b.cdf(1 - u, v)
        if self.r == CopulaRotation.R270:
            return u - b.cdf(u, 1 - v)
        if self.r == CopulaRotation.R180:
            return u + v - 1 + b.cdf(1 - u, 1 - v)
        return b.cdf(u, v)

    def h(self, u, v):
        b = self.b
        if self.r == CopulaRotation.R90:
            return 1 - b.h(1 - u, v)
        if self.r == CopulaRotation.R270:
            return b.h(u, 1 - v)
        if self.r == CopulaRotation.R180:
            return 1 - b.h(1 - u, 1 - v)
        return b.h(u, v)

    def h1(self, u, v):
        """Conditional law of the second coordinate given the first."""
        b = self.b
        if self.r == CopulaRotation.R90:
            return b.h(v, 1 - u)
        if self.r == CopulaRotation.R270:
            return 1 - b.h(1 - v, u)
        if self.r == CopulaRotation.R180:
            return 1 - b.h(1 - v, 1 - u)
        return b.h(v, u)

    def logpdf(self, u, v):
        uu = 1 - u if self.r in (CopulaRotation.R90, CopulaRotation.R180) else u
        vv = 1 - v if self.r in (CopulaRotation.R270, CopulaRotation.R180) else v
        return self.b.logpdf(uu, vv)

    def tau(self):
        return self.b.tau() * (-1 if self.r in (CopulaRotation.R90, CopulaRotation.R270) else 1)


def joe_theta(tau):
    lo, hi = 1.0, 60.0
    for _ in range(60):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if Generator("joe", m).tau() < tau else (lo, m)
    return (lo + hi) / 2


_JOE = {}


def theta_of(name, tau):
    if name == "clayton":
        return 2 * tau / (1 - tau)
    if name == "gumbel":
        return 1 / (1 - tau)
    if tau not in _JOE:
        _JOE[tau] = joe_theta(tau)
    return _JOE[tau]


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


TAUS = [0.01, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9]


@st.composite
def models(draw, name=None):
    name = name or draw(gen.choice(list(ALL)))
    c = {"name": name, "tau": draw(gen.choice(TAUS))}
    c["rot"] = draw(st.integers(0, 3)) if name in ARCH else 0
    c["neg"] = draw(st.booleans()) if name in ("gaussian", "student") else False
    c["dof"] = draw(gen.choice([2.0, 2.5, 3.0, 5.5, 12.0, 30.0, 50.0])) if name == "student" else None
    return c


def model(c, **kw):
    """Library copula with given parameters, and the reference law."""
    name = c["name"]
    m = ALL[name](**kw)
    quiet(lambda: m.fit(np.random.default_rng(0).random((30, 2))))
    if name in ARCH:
        th = theta_of(name, c["tau"])
        m.theta_, m.rotation_ = th, ROT[c["rot"]]
        return m, Reflected(Generator(name, th), ROT[c["rot"]])
    if name == "independent":
        return m, Reflected(Product(), CopulaRotation.R0)
    rho = float(np.sin(np.pi * c["tau"] / 2)) * (-1 if c["neg"] else 1)
    m.rho_ = rho
    if name == "student":
        m.dof_ = c["dof"]
    return m, Reflected(Elliptic(rho, c["dof"]), CopulaRotation.R0)


def points(seed, n, lo=1e-4):
    g = gen.rng_of(seed)
    e = np.exp(g.uniform(np.log(lo), np.log(0.5), size=(n, 2)))
    e = np.where(g.random((n, 2)) < 0.5, e, 1 - e)
    mid = g.uniform(0.02, 0.98, size=(n, 2))
    return np.where(g.random((n, 1)) < 0.5, e, mid)


# ---------------------------------------------------------------- values
@law(st.tuples(models(), gen.seeds), quick=160, thorough=1500, rule="a dependent copula or a rotated one")
def values_follow_the_law(case):
    c, seed = case
    m, r = model(c)
    X = points(seed, 16)
    keep = X.copy()
    u, v = X.T.astype(LD)
    F = quiet(lambda: m.cdf(X))
    tol = {"student": 5e-3, "gaussian": 1e-5}.get(c["name"], 1e-8)
    close(F, np.asarray(r.cdf(u, v), float), "distribution function", rtol=0, atol=tol, case=c)
    close(quiet(lambda: m.partial_derivative(X, first_margin=False)), np.asarray(r.h(u, v), float), "conditional law of the first given the second", rtol=0, atol=1e-7, case=c)
    close(quiet(lambda: m.partial_derivative(X)), quiet(lambda: m.partial_derivative(X, first_margin=False)), "default margin", rtol=0, atol=0)
    close(quiet(lambda: m.partial_derivative(X, first_margin=True)), np.asarray(r.h1(u, v), float), "conditional law of the second given the first", rtol=0, atol=1e-7, case=c)
    lp = np.asarray(r.logpdf(u, v), float)
    close(quiet(lambda: m.score_samples(X)), lp, "log density", rtol=1e-6, atol=1e-6, case=c)
    close(quiet(lambda: m.score(X)), lp.sum(), "score", rtol=1e-6, atol=1e-5)
    k = m.n_params
    check(k == {"student": 2, "independent": 0}.get(c["name"], 1), "number of parameters", n=k, case=c)
    close(quiet(lambda: m.aic(X)), 2 * k - 2 * lp.sum(), "aic", rtol=1e-6, atol=1e-4)
    close(quiet(lambda: m.bic(X)), k * np.log(len(X)) - 2 * lp.sum(), "bic", rtol=1e-6, atol=1e-4)
    check(np.array_equal(X, keep), "the data was modified")
    note(c["name"], f"rot{c['rot']}")
    return c["name"] != "independent"


@law(st.tuples(models(), gen.seeds), quick=160, thorough=1500, rule="a dependent copula")
def inverses_invert(case):
    c, seed = case
    m, r = model(c)
    X = points(seed, 40, lo=1e-3)
    for first in (False, True):
        z = quiet(lambda: m.inverse_partial_derivative(X, first_margin=first))
        check(np.all(np.isfinite(z)) and np.all((z >= 0) & (z <= 1)), "inverse outside [0, 1]", case=c, z=z)
        # X[:, 0] is the probability when the second margin conditions
        j = 1 if first else 0
        Y = X.copy()
        Y[:, j] = np.clip(z, 0, 1)
        back = r.h1(*Y.T.astype(LD)) if first else r.h(*Y.T.astype(LD))
        safe = (z > 1e-7) & (z < 1 - 1e-7)
        close(np.asarray(back, float)[safe], X[safe, j], "inverse conditional law", rtol=0, atol=1e-6, case=c, first=first)
    # a single point gives the same as the batch
    one = quiet(lambda: m.inverse_partial_derivative(X[:1], first_margin=True))
    close(one, z[:1], "value depends on the other rows", rtol=0, atol=1e-7, case=c)
    note(c["name"])
    return c["name"] != "independent"


@law(st.tuples(models(), gen.seeds), quick=80, thorough=800, rule="a dependent copula")
def valid_distribution(case):
    c, seed = case
    m, _ = model(c)
    tol = 1e-2 if c["name"] == "student" else 1e-8
    g = gen.rng_of(seed)
    q = np.sort(np.concatenate([[0.0, 1.0], g.uniform(0, 1, 4), [10.0 ** -g.uniform(1, 4), 1 - 10.0 ** -g.uniform(1, 4)]]))
    U, V = np.meshgrid(q, q, indexing="ij")
    F = quiet(lambda: m.cdf(np.column_stack([U.ravel(), V.ravel()]))).reshape(U.shape)
    close(F[0], 0 * q, "C(0, v)", rtol=0, atol=tol, case=c)
    close(F[:, 0], 0 * q, "C(u, 0)", rtol=0, atol=tol, case=c)
    close(F[-1], q, "C(1, v)", rtol=0, atol=tol, case=c)
    close(F[:, -1], q, "C(u, 1)", rtol=0, atol=tol, case=c)
    check(np.all(np.diff(F, axis=0) >= -tol) and np.all(np.diff(F, axis=1) >= -tol), "not monotone", case=c)
    vol = F[1:, 1:] - F[:-1, 1:] - F[1:, :-1] + F[:-1, :-1]
    check(np.all(vol >= -tol), "a rectangle has negative probability", case=c, vol=vol.min())
    check(np.all(F <= np.minimum(U, V) + tol) and np.all(F >= np.maximum(U + V - 1, 0) - tol), "outside the Frechet bounds", case=c)
    for first in (False, True):
        D = quiet(lambda: m.partial_derivative(np.column_stack([U.ravel(), V.ravel()]), first_margin=first)).reshape(U.shape)
        check(np.all((D >= -1e-9) & (D <= 1 + 1e-9)), "conditional probability outside [0, 1]", case=c)
        inner = D[:, 1:-1] if not first else D[1:-1]
        check(np.all(np.diff(inner, axis=1 if first else 0) >= -1e-9), "conditional law not monotone", case=c)
    return c["name"] != "independent"


@law(st.tuples(models(), gen.seeds), quick=60, thorough=500, rule="a dependent copula")
def tails(case):
    c, seed = case
    m, r = model(c)
    lo, up = float(m.lower_tail_dependence), float(m.upper_tail_dependence)
    name, th = c["name"], getattr(m, "theta_", None)
    if name in ARCH:
        lam = {"clayton": 2 ** (-1 / th) if th else 0, "gumbel": 2 - 2 ** (1 / th), "joe": 2 - 2 ** (1 / th)}[name]
        own = "lower" if name == "clayton" else "upper"
        flip = {"lower": "upper", "upper": "lower"}
        where = {CopulaRotation.R0: own, CopulaRotation.R180: flip[own]}.get(m.rotation_)
        close(lo, lam if where == "lower" else 0.0, "lower tail dependence", rtol=1e-10, atol=1e-12, case=c)
        close(up, lam if where == "upper" else 0.0, "upper tail dependence", rtol=1e-10, atol=1e-12, case=c)
    elif name == "student":
        lam = 2 * sst.t(m.dof_ + 1).cdf(-np.sqrt((m.dof_ + 1) * (1 - m.rho_) / (1 + m.rho_)))
        close([lo, up], [lam, lam], "tail dependence", rtol=1e-6, atol=1e-10, case=c)
    else:
        check(lo == 0 and up == 0, "tail dependence of a copula without any", case=c)
    # the concentration tends to the coefficients
    q = np.sort(gen.rng_of(seed).uniform(0.02, 0.98, 6))
    q[0], q[-1] = 1e-3, 1 - 1e-3
    if c["tau"] in (0.1, 0.5):
        q[2] = 0.5
    q.sort()
    F = np.asarray(r.cdf(q.astype(LD), q.astype(LD)), float)
    want = np.where(q <= 0.5, F / q, (1 - 2 * q + F) / (1 - q))
    if name != "student":
        close(quiet(lambda: m.tail_concentration(q)), want, "tail concentration", rtol=0, atol=1e-5, case=c)
    else:
        mid = (q > 0.01) & (q < 0.99)
        close(quiet(lambda: m.tail_concentration(q[mid])), want[mid], "tail concentration", rtol=0, atol=0.4 * 5e-3 / np.minimum(q[mid], 1 - q[mid]).min(), case=c)
    must_raise(lambda: m.tail_concentration(np.array([0.2, 1.2])), ValueError, "quantile above 1 accepted")
    must_raise(lambda: m.tail_concentration(np.array([-0.2, 0.2])), ValueError, "negative quantile accepted")
    return name != "independent"


# ---------------------------------------------------------------- samples
def ks(u):
    u = np.sort(u)
    n = len(u)
    return max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n)) * np.sqrt(n)


@law(st.tuples(models(), gen.seeds, st.booleans()), quick=50, thorough=400, rule="a dependent copula")
def samples_follow_the_law(case):
    c, seed, fresh = case
    n = 1500
    s = int(gen.rng_of(seed).integers(2**31))
    m, r = model(c, random_state=s)
    x = quiet(lambda: m.sample(n_samples=n))
    check(x.shape == (n, 2) and np.all((x >= 0) & (x <= 1)), "samples outside the unit square", case=c)
    check(np.array_equal(x, quiet(lambda: m.sample(n_samples=n))), "same random state, other samples", case=c)
    m2, _ = model(c, random_state=s + 1)
    check(not np.array_equal(x, quiet(lambda: m2.sample(n_samples=n))), "random state ignored", case=c)
    lim = 3.0  # 2 exp(-2 * 9) = 3e-8
    check(ks(x[:, 0]) < lim and ks(x[:, 1]) < lim, "margins of the samples not uniform", case=c, a=ks(x[:, 0]), b=ks(x[:, 1]))
    y = np.clip(x, 1e-9, 1 - 1e-9).T.astype(LD)
    for h, other in ((np.asarray(r.h1(*y), float), x[:, 0]), (np.asarray(r.h(*y), float), x[:, 1])):
        check(ks(h) < lim, "conditional law of the samples", case=c, ks=ks(h))
        for cut in (0.2, 0.5, 0.8):
            part = h[other < cut]
            check(len(part) < 50 or ks(part) < lim, "conditional law depends on the condition", case=c)
        corr = np.corrcoef(h, other)[0, 1]
        check(abs(corr) < 5.6 / np.sqrt(n), "conditional probabilities depend on the condition", case=c, corr=corr)
    t = sst.kendalltau(*x.T).statistic
    check(abs(t - r.tau()) < 5.6 * np.sqrt(1.0 / n), "Kendall tau of the samples", case=c, got=t, want=r.tau())
    check(len(quiet(lambda: m.sample())) == 1, "default number of samples")
    note(c["name"])
    return c["name"] != "independent"


# ---------------------------------------------------------------- fit
@st.composite
def fits(draw):
    c = draw(models(name=draw(gen.choice(list(ARCH) + ["gaussian", "student"]))))
    c["tau"] = draw(gen.choice([0.1, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.95]))
    c["model"] = draw(gen.choice([c["name"], c["name"], *ARCH, "gaussian", "student"]))
    c["n"] = draw(gen.choice([30, 120, 300, 600]))
    c["itau"] = draw(st.booleans())
    c["given"] = draw(gen.choice([None, None, None, 0.2, -0.4, 0.6]))
    c["ties"] = draw(gen.choice([False, False, True]))
    c["seed"] = draw(gen.seeds)
    return c


def neg(m):
    return m.rotation_ in (CopulaRotation.R90, CopulaRotation.R270)


@law(fits(), quick=160, thorough=1200, rule="the data carries dependence and a parameter was estimated")
def fit_recovers(c):
    src, r = model(c, random_state=int(gen.rng_of(c["seed"]).integers(2**31)))
    x = quiet(lambda: src.sample(n_samples=c["n"]))
    x = np.clip(x, 1e-3, 1 - 1e-3)
    if c["ties"]:
        x = np.clip(np.round(x, 2), 0.005, 0.995)
    keep = x.copy()
    tight = c["model"] == "student" and not c["itau"]
    m = ALL[c["model"]](itau=c["itau"], kendall_tau=c["given"], **({"tolerance": 1e-9} if tight else {}))
    check(quiet(lambda: m.fit(x)) is m, "fit does not return the estimator")
    check(np.array_equal(x, keep), "the data was modified")
    tau_data = float(sst.kendalltau(*x.T).statistic)
    tau = tau_data if c["given"] is None else c["given"]
    L = quiet(lambda: m.score(x))
    check(np.isfinite(L), "likelihood of the fitted copula", L=L, case=c)

    def at(**kw):
        old = {k: getattr(m, k) for k in kw}
        for k, a in kw.items():
            setattr(m, k, a)
        out = quiet(lambda: m.score(x))
        for k, a in old.items():
            setattr(m, k, a)
        return out

    slack = 1e-3 + 1e-6 * abs(L)
    big = abs(tau_data) >= 0.25 and c["n"] >= 120
    if c["model"] in ARCH:
        others = [at(rotation_=q) for q in ROT]
        check(L >= max(v for v in others if np.isfinite(v)) - slack, "another rotation is more likely", L=L, others=others, case=c)
        lo, hi = {"clayton": (1e-4, 50), "gumbel": (1.0001, 80), "joe": (1.005, 20)}[c["model"]]
        if c["itau"]:
            a = abs(tau)
            want = float(np.clip(theta_of(c["model"], a), lo, hi)) if c["model"] != "joe" else None
            if want is not None:
                close(m.theta_, want, "theta implied by Kendall tau", rtol=1e-8, case=c)
            elif lo + 1e-9 < m.theta_ < hi - 1e-9:
                close(Generator("joe", m.theta_).tau(), a, "theta implied by Kendall tau", rtol=0, atol=1e-6, case=c)
        else:
            check(lo <= m.theta_ <= hi, "theta outside its range", theta=m.theta_, case=c)
            for f in (0.8, 0.95, 0.99, 1.01, 1.05, 1.25):
                base = 0.0 if c["model"] == "clayton" else 1.0
                th = base + (m.theta_ - base) * f
                if lo <= th <= hi:
                    check(L >= at(theta_=th) - slack, "a neighbouring theta is more likely", L=L, other=at(theta_=th), theta=m.theta_, th=th, case=c)
            # and no other parameter of a coarse grid
            for t in (0.05, 0.2, 0.4, 0.6, 0.8):
                th = theta_of(c["model"], t)
                for q in ROT:
                    alt = at(theta_=th, rotation_=q)
                    check(L >= alt - slack, "another parameter is more likely", L=L, alt=alt, theta=m.theta_, th=th, rot=q, case=c)
        if big and (c["given"] is None or not c["itau"]):
            check(neg(m) == (tau_data < 0), "sign of the dependence", tau=tau_data, rot=m.rotation_, case=c)
    else:
        check(-1 < m.rho_ < 1, "rho outside its range")
        if c["itau"]:
            close(m.rho_, np.clip(np.sin(np.pi * tau / 2), -0.999, 0.999), "rho implied by Kendall tau", rtol=1e-8, atol=1e-10, case=c)
        else:
            for d in (-0.1, -0.02, 0.02, 0.1):
                if abs(m.rho_ + d) < 0.999:
                    check(L >= at(rho_=m.rho_ + d) - slack, "a neighbouring rho is more likely", L=L, rho=m.rho_, d=d, case=c)
            if big:
                check((m.rho_ < 0) == (tau_data < 0), "sign of the dependence", tau=tau_data, rho=m.rho_, case=c)
        if c["model"] == "student":
            check(2 <= m.dof_ <= 50, "degrees of freedom outside their range", dof=m.dof_)
            if c["itau"]:
                for d in (2.0, 3.0, 4.0, 6.0, 10.0, 20.0, 40.0, m.dof_ * 0.9, m.dof_ * 1.1):
                    if 2 <= d <= 50:
                        check(L >= at(dof_=d) - 1e-2, "other degrees of freedom are more likely", L=L, dof=m.dof_, d=d, case=c)
            else:
                for d in (m.dof_ * 0.8, m.dof_ * 1.25):
                    if 2 <= d <= 50:
                        check(L >= at(dof_=d) - 1e-2 - 1e-5 * abs(L), "neighbouring degrees of freedom are more likely", L=L, dof=m.dof_, d=d, case=c)
    if big and c["model"] == c["name"] and c["n"] >= 300 and (c["given"] is None or not c["itau"]):
        _, again = model({**c})
        got = float(Reflected(Generator(c["name"], m.theta_), m.rotation_).tau()) if c["name"] in ARCH else Elliptic(float(m.rho_)).tau()
        check(abs(got - r.tau()) < 0.3, "fitted dependence far from the true one", got=got, want=r.tau(), case=c)
        note("recovered")
    note(c["model"], "itau" if c["itau"] else "mle")
    return abs(tau_data) > 0.05


@law(st.tuples(models(), gen.seeds, gen.choice([None, 1, 2])), quick=60, thorough=500, rule="tied observations, or observations on a quantile")
def empirical(case):
    """Pseudo-observations are ranks over n + 1; empirical concentrations are conditional frequencies."""
    c, seed, digits = case
    g = gen.rng_of(seed)
    src, _ = model(c, random_state=int(g.integers(2**31)))
    n = int(g.integers(5, 80))
    x = quiet(lambda: src.sample(n_samples=n))
    raw = x * g.uniform(0.01, 3, 2) - g.normal(size=2)
    if digits:
        raw, x = np.round(raw, digits), np.round(x, digits)
    keep = raw.copy()
    u = compute_pseudo_observations(raw)
    want = np.array([[(np.sum(col < v) + (np.sum(col == v) + 1) / 2) / (n + 1) for v in col] for col in raw.T]).T
    close(u, want, "pseudo-observations", rtol=1e-12, case=c)
    check(np.array_equal(raw, keep), "the data was modified")
    for y in (x, u):
        q = np.unique(np.concatenate([[0.0, 0.5, 1.0], g.random(4), y[g.integers(0, n, 4), 0], y[g.integers(0, n, 4), 1]]))
        want = []
        for a in q:
            one, two = (y[:, 0] <= a, y[:, 1] <= a) if a <= 0.5 else (y[:, 0] >= a, y[:, 1] >= a)
            want.append(np.sum(one & two) / np.sum(one) if one.any() else 0.0)
        close(empirical_tail_concentration(y, q), want, "empirical tail concentration", rtol=1e-12, case=c, q=q)
    must_raise(lambda: empirical_tail_concentration(x[:, :1], q), ValueError, "one column accepted")
    must_raise(lambda: empirical_tail_concentration(x, q + 0.5), ValueError, "quantile above 1 accepted")
    must_raise(lambda: empirical_tail_concentration(x + 1.5, q), ValueError, "data outside the unit square accepted")
    return bool(digits) or n > 10


@law(st.tuples(models(), gen.seeds, gen.choice(["three", "one", "above", "below", "nan"])), quick=40, thorough=200, rule="every malformed table")
def refusals(case):
    c, seed, bad = case
    m, _ = model(c)
    x = gen.rng_of(seed).random((20, 2))
    if bad == "three":
        x = np.column_stack([x, x[:, 0]])
    elif bad == "one":
        x = x[:, :1]
    elif bad == "above":
        x[3, 1] = 1.0001
    elif bad == "below":
        x[5, 0] = -1e-6
    else:
        x[2, 0] = np.nan
    for name, f in (("fit", lambda: ALL[c["name"]]().fit(x)), ("cdf", lambda: m.cdf(x)), ("score", lambda: m.score_samples(x)), ("h", lambda: m.partial_derivative(x)), ("inverse", lambda: m.inverse_partial_derivative(x))):
        must_raise(lambda f=f: quiet(f), ValueError, f"{name} accepted malformed data ({bad})")
    return True
