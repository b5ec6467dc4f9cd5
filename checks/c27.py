"""C27 Covariance estimates are valid and match their definition."""

import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import gen
from harness.core import check, close, law, must_raise, note

ASSUMPTIONS = [
    "published definitions: sample covariance with the chosen degrees of freedom, bias-corrected exponential weights, Ledoit-Wolf (2004), OAS (Chen 2010), "
    "Gerber counts, Marchenko-Pastur denoising and detoning of Lopez de Prado (2020), implied volatility regression of the documentation",
    "where the raw matrix is not comfortably positive definite the estimate may differ from it by the eigenvalue repair (judged by C28)",
    "denoising is compared only where no eigenvalue is within 3% of the noise threshold, detoning only where the removed eigenvalues are separated from the rest",
    "rescaling is by powers of two and shifts keep about twelve digits of the returns",
]

EST = ["empirical", "ew", "gerber", "gerber2019", "ledoit", "oas", "shrunk", "denoise", "detone", "implied", "implied adj", "glasso"]


@st.composite
def cases(draw, which=EST):
    name = draw(gen.choice(which))
    shape = draw(gen.choice(["tall", "tall", "square", "wide"]))
    lo, hi = {"tall": (20, 60), "square": (6, 12), "wide": (5, 7)}[shape]
    kmax = {"tall": 7, "square": 6, "wide": 9}[shape]
    if name in ("implied", "glasso"):
        lo, hi, kmax = 24, 60, 5
    return {
        "est": name,
        "m": draw(gen.mat(lo, hi, 1 if name in ("empirical", "ew", "shrunk") else 2, kmax, kinds=gen.SMOOTH)),
        "ddof": draw(gen.choice([0, 1, 1])),
        "alpha": draw(gen.choice([0.02, 0.1, 0.2, 0.5, 0.9])),
        "window": draw(gen.choice([None, None, 4, 8, 15, 30])),
        "threshold": draw(gen.choice([0.1, 0.3, 0.5, 0.7, 0.95])),
        "shrinkage": draw(gen.choice([0.0, 0.1, 0.5, 0.9, 1.0])),
        "centered": draw(st.booleans()),
        "markets": draw(gen.choice([1, 1, 2])),
        "base": draw(gen.choice(["default", "ew", "ledoit"])),
        "adj": draw(gen.choice(["scalar", "array", "dict"])),
        "regwin": draw(gen.choice([3, 4, 6])),
        "af": draw(gen.choice([252, 12, 1])),
        "form": draw(gen.choice(["frame", "frame", "array"])),
        "nearest": draw(gen.choice([True, True, True, False])),
        "higham": draw(gen.choice([False, False, True])),
        "seed": draw(gen.seeds),
    }


# ---------------------------------------------------------------- reference
def r_cov(x, ddof=1):
    n = len(x)
    d = x - x.sum(axis=0) / n
    return sum(np.outer(v, v) for v in d) / (n - ddof)


def r_ew(x, alpha):
    w = np.array([(1 - alpha) ** (len(x) - 1 - i) for i in range(len(x))])
    w /= w.sum()
    d = x - w @ x
    return sum(a * np.outer(v, v) for a, v in zip(w, d, strict=True)) / (1 - (w**2).sum())


def r_gerber(x, c, psd):
    n, k = x.shape
    s = np.sqrt(np.diag(r_cov(x, 0)))
    out = np.zeros((k, k))
    sign = np.where(x >= c * s, 1, np.where(x <= -c * s, -1, 0))
    for i in range(k):
        for j in range(k):
            conc = sum(1 for a, b in zip(sign[:, i], sign[:, j], strict=True) if a * b == 1)
            disc = sum(1 for a, b in zip(sign[:, i], sign[:, j], strict=True) if a * b == -1)
            if psd:
                neutral = sum(1 for a, b in zip(sign[:, i], sign[:, j], strict=True) if a == 0 and b == 0)
                out[i, j] = (conc - disc) / (n - neutral)
            else:
                ni, nj = np.count_nonzero(sign[:, i]), np.count_nonzero(sign[:, j])
                out[i, j] = (conc - disc) / np.sqrt(ni * nj)
    # an observation sitting on the threshold may be counted either way
    edge = np.min(np.abs(np.abs(x) - c * s) / s)
    return out * np.outer(s, s), edge > 1e-9


def r_mle(x, centered):
    return x.T @ x / len(x) if centered else r_cov(x, 0)


def r_ledoit(x, centered):
    n, p = x.shape
    if p == 1:
        return r_mle(x, centered)
    d = x if centered else x - x.mean(axis=0)
    s = d.T @ d / n
    mu = np.trace(s) / p
    delta = np.sum((s - mu * np.eye(p)) ** 2) / p
    beta = sum(np.sum((np.outer(v, v) - s) ** 2) for v in d) / n**2 / p
    a = 0.0 if beta == 0 else min(beta, delta) / delta
    return (1 - a) * s + a * mu * np.eye(p)


def r_oas(x, centered):
    n, p = x.shape
    s = r_mle(x, centered)
    mu = np.trace(s) / p
    alpha = np.mean(s**2)
    num, den = alpha + mu**2, (n + 1) * (alpha - mu**2 / p)
    a = 1.0 if den == 0 else min(num / den, 1.0)
    return (1 - a) * s + a * mu * np.eye(p)


def corr_of(c):
    s = np.sqrt(np.diag(c))
    return c / np.outer(s, s), s


def r_denoise(c, q):
    """List of candidate matrices, one per number of retained factors, and the published number of factors (None when unclear)."""
    import scipy.optimize as sco

    r, s = corr_of(c)
    val, vec = np.linalg.eigh(r)
    val, vec = val[::-1], vec[:, ::-1]
    k = len(val)
    out = []
    for f in range(k + 1):
        v = val.copy()
        if f < k:
            v[f:] = v[f:].mean()
        m = vec @ np.diag(v) @ vec.T
        out.append(corr_of(m)[0] * np.outer(s, s))

    def loss(var):
        var = float(np.squeeze(var))
        lo, hi = var * (1 - q**-0.5) ** 2, var * (1 + q**-0.5) ** 2
        t = np.linspace(lo, hi, 1000)
        pdf = np.zeros(len(t))
        u = t[1:-1]
        pdf[1:-1] = q / (2 * np.pi * var * u) * np.sqrt((hi - u) * (u - lo))
        kde = np.mean(np.exp(-0.5 * ((t[:, None] - val[None]) / 0.01) ** 2), axis=1) / (0.01 * np.sqrt(2 * np.pi))
        return np.sum((kde - pdf) ** 2)

    x = float(sco.minimize(loss, x0=0.5, bounds=((1e-5, 1 - 1e-5),)).x[0])
    edge = x * (1 + q**-0.5) ** 2
    clear = np.min(np.abs(val - edge)) > 0.03 * edge
    upper = (1 + q**-0.5) ** 2
    return out, (int(np.sum(val > edge)) if clear else None), int(np.sum(val > upper * 1.0001))


def r_detone(c, m):
    r, s = corr_of(c)
    val, vec = np.linalg.eigh(r)
    val, vec = val[::-1], vec[:, ::-1]
    if m >= len(val) or val[m - 1] - val[m] < 1e-6:
        return None
    left = r - vec[:, :m] @ np.diag(val[:m]) @ vec[:, :m].T
    if np.min(np.diag(left)) < 1e-9:
        return None
    return corr_of(left)[0] * np.outer(s, s)


def r_implied(x, iv, win, full=False):
    n, k = x.shape
    folds = n // win
    start = n - folds * win
    vols, fits = np.zeros(k), []
    for j in range(k):
        rv = [np.log(np.std(x[start + f * win : start + (f + 1) * win, j], ddof=1)) for f in range(folds)]
        li = [np.log(iv[start + (f + 1) * win - 1, j]) for f in range(folds)]
        A = np.column_stack([np.ones(folds - 1), li[:-1], rv[:-1]])
        coef, _, rank, sv = np.linalg.lstsq(A, np.array(rv[1:]), rcond=None)
        if rank < 3 or sv[-1] < 1e-6 * sv[0]:
            return None
        vols[j] = np.exp(coef @ [1, li[-1], rv[-1]])
        target = np.array(rv[1:])
        spread = np.sum((target - target.mean()) ** 2)
        fits.append((coef[0], coef[1:], 1 - np.sum((target - A @ coef) ** 2) / spread if spread > 1e-6 else np.nan))
    return (vols, fits) if full else vols


# ---------------------------------------------------------------- laws
def base_of(case):
    from skfolio.moments import EWCovariance, LedoitWolf

    return {"default": None, "ew": EWCovariance(alpha=0.1), "ledoit": LedoitWolf()}[case["base"]]


def base_ref(case, x):
    return {"default": lambda: r_cov(x, 1), "ew": lambda: r_ew(x, 0.1), "ledoit": lambda: r_ledoit(x, False)}[case["base"]]()


def make(case, cols):
    from skfolio import moments as mo

    nr = {"nearest": case["nearest"], "higham": case["higham"]}
    if case["est"] in ("denoise", "detone", "implied", "implied adj", "glasso"):
        nr = {"nearest": case["nearest"]}
    w = case["window"]
    match case["est"]:
        case "empirical":
            return mo.EmpiricalCovariance(ddof=case["ddof"], window_size=w, **nr)
        case "ew":
            return mo.EWCovariance(alpha=case["alpha"], window_size=w, **nr)
        case "gerber":
            return mo.GerberCovariance(threshold=case["threshold"], window_size=w, **nr)
        case "gerber2019":
            return mo.GerberCovariance(threshold=case["threshold"], window_size=w, psd_variant=False, **nr)
        case "ledoit":
            return mo.LedoitWolf(assume_centered=case["centered"], **nr)
        case "oas":
            return mo.OAS(assume_centered=case["centered"], **nr)
        case "shrunk":
            return mo.ShrunkCovariance(shrinkage=case["shrinkage"], assume_centered=case["centered"], **nr)
        case "denoise":
            return mo.DenoiseCovariance(covariance_estimator=base_of(case), **nr)
        case "detone":
            return mo.DetoneCovariance(covariance_estimator=base_of(case), n_markets=min(case["markets"], len(cols) - 1), **nr)
        case "implied":
            return mo.ImpliedCovariance(prior_covariance_estimator=base_of(case), window_size=case["regwin"], annualized_factor=case["af"], **nr)
        case "implied adj":
            adj = adj_of(case, len(cols))
            v = {"scalar": float(adj[0]), "array": adj, "dict": dict(zip(cols, adj.tolist(), strict=True))}[case["adj"] if case["form"] == "frame" or case["adj"] != "dict" else "array"]
            return mo.ImpliedCovariance(prior_covariance_estimator=base_of(case), volatility_risk_premium_adj=v, annualized_factor=case["af"], **nr)
        case "glasso":
            return mo.GraphicalLassoCV(alphas=[0.05, 0.3], cv=2, **nr)


def adj_of(case, k):
    a = np.round(gen.rng_of(case["seed"] + 3).uniform(0.6, 1.6, k), 3)
    return a if case["adj"] != "scalar" else np.full(k, a[0])


def fitted(case, X, iv=None, cols=None):
    est = make(case, cols or [f"A{i}" for i in range(X.shape[1])])
    kw = {} if iv is None else {"implied_vol": iv}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return est.fit(X, **kw)


def data(case):
    x = gen.build(case["m"])
    cols = [f"A{i}" for i in range(x.shape[1])]
    iv = None
    if case["est"].startswith("implied"):
        iv = 0.1 + 0.3 * gen.rng_of(case["seed"]).random(x.shape)
    return x, cols, iv


def wrap(case, a, cols):
    if a is None or case["form"] == "array":
        return a
    return pd.DataFrame(a, columns=cols)


def valid(c, nearest, what):
    check(np.all(np.isfinite(c)), what + ": not finite")
    close(c, c.T, what + ": not symmetric", rtol=1e-9, atol=1e-14 * np.max(np.abs(c)))
    check(np.all(np.diag(c) > 0), what + ": variance is not positive")
    if nearest:
        r = corr_of(c)[0]
        check(np.linalg.eigvalsh((r + r.T) / 2)[0] > -1e-12 * len(c), what + ": not positive semi-definite", low=np.linalg.eigvalsh(r)[0])


def matches(c, want, nearest, what, tol=1e-8):
    """c equals the definition, or its repair when that is not comfortably positive definite."""
    s = np.sqrt(np.diag(want))
    r, raw = c / np.outer(s, s), want / np.outer(s, s)
    low = np.linalg.eigvalsh((raw + raw.T) / 2)[0]
    close(np.diag(r), np.ones(len(r)), what + ": variances", rtol=0, atol=tol)
    if low > 1e-10 or not nearest:
        close(r, raw, what + ": differs from the definition", rtol=0, atol=tol)
        note("definite")
    else:
        # eigenvalue repair moves the correlations by no more than the size of the negative part
        close(r, raw, what + ": differs from the definition by more than a repair", rtol=0, atol=6 * max(-low, 0) + max(tol, 1e-7))
        note("repaired")


def degenerate(case, x, iv):
    """No market mode to remove, or a regression without a unique answer."""
    if case["est"] == "detone":
        return r_detone(base_ref(case, x), min(case["markets"], x.shape[1] - 1)) is None
    if case["est"] == "implied":
        v = r_implied(x, iv / np.sqrt(case["af"]), case["regwin"])
        return v is None or np.min(v) < 1e-6 or np.max(v) > 1e6
    return False


@law(cases(), quick=1300, thorough=20000, rule="the estimate was compared with the independent definition")
def definition(case):
    from skfolio.exceptions import NonPositiveVarianceError

    x, cols, iv = data(case)
    k = x.shape[1]
    if degenerate(case, x, iv):
        return False
    try:
        est = fitted(case, wrap(case, x, cols), wrap(case, iv, cols), cols)
    except NonPositiveVarianceError:
        check(False, "positive variances are refused", case=case)
    c = est.covariance_
    check(c.shape == (k, k), "shape")
    valid(c, case["nearest"], case["est"])
    y = x if case["window"] is None else x[-case["window"] :]
    note(case["est"])
    name = case["est"]
    if name == "empirical":
        matches(c, r_cov(y, case["ddof"]), case["nearest"], name)
    elif name == "ew":
        matches(c, r_ew(y, case["alpha"]), case["nearest"], name)
    elif name in ("gerber", "gerber2019"):
        want, clear = r_gerber(y, case["threshold"], name == "gerber")
        if not clear:
            return False
        matches(c, want, case["nearest"], name)
    elif name == "ledoit":
        matches(c, r_ledoit(x, case["centered"]), case["nearest"], name)
    elif name == "oas":
        matches(c, r_oas(x, case["centered"]), case["nearest"], name)
    elif name == "shrunk":
        s = r_mle(x, case["centered"])
        matches(c, (1 - case["shrinkage"]) * s + case["shrinkage"] * np.trace(s) / k * np.eye(k), case["nearest"], name)
    elif name == "denoise":
        base = base_ref(case, x)
        options, facts, kept = r_denoise(base, len(x) / k)
        s = np.sqrt(np.diag(base))
        fit = [f for f, o in enumerate(options) if np.max(np.abs(c - o) / np.outer(s, s)) < 1e-6]
        check(fit, "denoise: not a spectrum with its small eigenvalues averaged", case=case)
        check(max(fit) >= kept, "denoise: an eigenvalue above the noise band was removed", kept=kept, fit=fit)
        if facts is not None:
            check(facts in fit, "denoise: number of retained factors", got=fit, want=facts)
            note("denoise factors compared")
    elif name == "detone":
        want = r_detone(base_ref(case, x), min(case["markets"], k - 1))
        matches(c, want, case["nearest"], name, 1e-6)
    elif name.startswith("implied"):
        if name == "implied":
            vols = r_implied(x, iv / np.sqrt(case["af"]), case["regwin"])
        else:
            vols = iv[-1] / np.sqrt(case["af"]) / adj_of(case, k)
        if name == "implied":
            fits = r_implied(x, iv / np.sqrt(case["af"]), case["regwin"], True)[1]
            check(len(est.linear_regressors_) == k and est.coefs_.shape == (k, 2), "one regression per asset")
            for j, (a, b, r2) in enumerate(fits):
                close(est.intercepts_[j], a, "intercept of the volatility regression", rtol=1e-4, atol=1e-4, asset=j)
                close(est.coefs_[j], b, "coefficients of the volatility regression", rtol=1e-4, atol=1e-4, asset=j)
                if np.isfinite(r2):
                    close(est.r2_scores_[j], r2, "fit of the volatility regression", rtol=0, atol=1e-4, asset=j)
        close(est.pred_realised_vols_, vols, "predicted volatilities", rtol=1e-6, atol=0)
        matches(c, corr_of(base_ref(case, x))[0] * np.outer(vols, vols), case["nearest"], name, 2e-6)
    elif name == "glasso":
        import sklearn.covariance as skc

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            w = skc.GraphicalLassoCV(alphas=[0.05, 0.3], cv=2).fit(x).covariance_
        matches(c, w, case["nearest"], name)
    return True


CENTRED = {"empirical", "ew", "ledoit", "oas", "shrunk", "detone", "implied"}
EQUIVARIANT = {"empirical", "ew", "gerber", "gerber2019", "ledoit", "oas", "shrunk", "denoise", "detone"}


@law(cases([e for e in EST if e != "glasso"]), quick=900, thorough=15000, rule="the estimate is comfortably positive definite")
def invariance(case):
    x, cols, iv = data(case)
    n, k = x.shape
    name = case["est"]
    case = {**case, "form": "array"}
    if degenerate(case, x, iv):
        return False
    c0 = fitted(case, x, iv).covariance_
    s = np.sqrt(np.diag(c0))
    low = np.linalg.eigvalsh(corr_of(c0)[0])[0]
    tol = 1e-7 if low > 1e-8 else 1e-5
    if name == "denoise":
        # the number of retained factors is the outcome of a numerical minimisation
        base = base_ref(case, x)
        if r_denoise(base, n / k)[1] is None:
            return False
    g = gen.rng_of(case["seed"] + 7)
    # asset permutation, with the columns carrying their names
    p = g.permutation(k)
    adj = dict(zip(cols, adj_of(case, k).tolist(), strict=True))
    est = make({**case, "form": "frame", "adj": "dict"}, cols)
    if name == "implied adj":
        est.set_params(volatility_risk_premium_adj=adj)
    kw = {}
    if iv is not None:
        # the table of volatilities may list the assets in another order
        kw["implied_vol"] = pd.DataFrame(iv, columns=cols)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cp = est.fit(pd.DataFrame(x[:, p], columns=[cols[i] for i in p]), **kw).covariance_
    close(cp / np.outer(s[p], s[p]), c0[np.ix_(p, p)] / np.outer(s[p], s[p]), "does not permute with the assets", rtol=0, atol=tol, est=name)
    if name in CENTRED and not case["centered"]:
        d = np.round(g.uniform(-0.02, 0.02, k), 4)
        close(fitted(case, x + d, iv).covariance_ / np.outer(s, s), c0 / np.outer(s, s), "changed by adding constants", rtol=0, atol=max(tol, 1e-6), est=name)
    if name in EQUIVARIANT:
        f = float(g.choice([0.5, 2.0, 4.0, 0.25]))
        close(fitted(case, x * f, iv).covariance_ / np.outer(s, s) / f**2, c0 / np.outer(s, s), "does not scale with the returns", rtol=0, atol=tol, est=name)
    if name in ("empirical", "ew", "gerber", "gerber2019") and case["window"] and case["window"] < n:
        z = x.copy()
        z[: n - case["window"]] = 3 * z[: n - case["window"]] + 0.01
        close(fitted(case, z, iv).covariance_, c0, "rows before the window matter", rtol=1e-12, atol=0, est=name)
        z = x.copy()
        z[n - case["window"]] += 0.5 * s
        check(np.max(np.abs(fitted(case, z, iv).covariance_ - c0)) > 0 or name.startswith("gerber") or (name == "ew" and case["alpha"] > 0.2), "the first row of the window does not matter", est=name)
        note("window")
    if name == "empirical":
        close(fitted({**case, "seed": 0}, x[::-1].copy() if case["window"] is None else x).covariance_, c0, "depends on the order of observations", rtol=1e-6, atol=1e-9 * np.max(c0))
    note(name)
    return low > 1e-8


@law(st.fixed_dictionaries({"m": gen.mat(10, 20, 2, 5, kinds=gen.SMOOTH), "bad": gen.choice(["constant", "gerber0", "gerber1", "nan", "iv none", "iv shape", "iv missing", "folds", "adj negative", "adj partial"])}), quick=80, thorough=400, rule="always")
def refusals(case):
    from skfolio import moments as mo
    from skfolio.exceptions import NonPositiveVarianceError

    X = gen.frame(case["m"])
    iv = X.abs() + 0.1
    bad = case["bad"]
    if bad == "constant":
        X.iloc[:, 1] = 0.001
        for e in (mo.EmpiricalCovariance(), mo.EWCovariance()):
            must_raise(lambda e=e: e.fit(X), NonPositiveVarianceError, "an asset without variance must be refused")
        return
    if bad == "nan":
        X.iloc[2, 0] = np.nan
        for e in (mo.EmpiricalCovariance(), mo.EWCovariance(), mo.GerberCovariance(), mo.LedoitWolf()):
            must_raise(lambda e=e: e.fit(X), ValueError, "missing values must be refused")
        return
    fn = {
        "gerber0": lambda: mo.GerberCovariance(threshold=0.0).fit(X),
        "gerber1": lambda: mo.GerberCovariance(threshold=1.0).fit(X),
        "iv none": lambda: mo.ImpliedCovariance(window_size=3).fit(X),
        "iv shape": lambda: mo.ImpliedCovariance(window_size=3).fit(X, implied_vol=iv.to_numpy()[1:]),
        "iv missing": lambda: mo.ImpliedCovariance(window_size=3).fit(X, implied_vol=iv.rename(columns={"A1": "ZZ"})),
        "folds": lambda: mo.ImpliedCovariance(window_size=len(X) // 2).fit(X, implied_vol=iv),
        "adj negative": lambda: mo.ImpliedCovariance(volatility_risk_premium_adj=-1.0).fit(X, implied_vol=iv),
        "adj partial": lambda: mo.ImpliedCovariance(volatility_risk_premium_adj={"A0": 1.0}).fit(X, implied_vol=iv),
    }[bad]
    must_raise(fn, ValueError, "must be refused: " + bad)


LAWS = [definition, invariance, refusals]
