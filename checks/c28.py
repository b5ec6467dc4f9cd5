"""C28 Nearest-covariance repair and matrix conversions are sound."""

import warnings

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import check, close, law, must_raise, note

ASSUMPTIONS = [
    "input matrices are symmetric with positive diagonal; entries of the correlation are compared (tolerance 1e-9, 1e-7 for the repaired ones)",
    "the iterative method may report that it did not converge (ValueError); when it answers, its distance to the input may not exceed that of eigenvalue clipping by more than 1e-6",
    "predicates are tried on matrices of order one, away from rounding",
]


@st.composite
def matrices(draw):
    return {
        "k": draw(st.integers(1, 9)),
        "kind": draw(gen.choice(["definite", "random", "rank", "noisy", "equicorr", "duplicate", "near"])),
        "scale": draw(gen.choice(["one", "daily", "mixed", "huge"])),
        "seed": draw(gen.seeds),
        "higham": draw(st.booleans()),
    }


def corr_of(case):
    g = gen.rng_of(case["seed"])
    k, kind = case["k"], case["kind"]
    if kind == "definite":
        b = g.normal(size=(k, k + 3))
        a = b @ b.T
    elif kind == "random":
        a = g.uniform(-1, 1, (k, k))
        a = (a + a.T) / 2
        np.fill_diagonal(a, 1)
    elif kind == "rank":
        b = g.normal(size=(k, max(1, k - 1 - int(g.integers(0, 2)))))
        a = b @ b.T
    elif kind == "noisy":
        b = g.normal(size=(k, max(1, k - 1)))
        e = 0.02 * g.normal(size=(k, k))
        a = b @ b.T + (e + e.T) / 2
        np.fill_diagonal(a, np.maximum(np.diag(b @ b.T), 0.1))
    elif kind == "equicorr":
        a = np.full((k, k), -1.0 / max(k - 1, 1) - float(g.choice([0.0, 0.1, 0.3])))
        np.fill_diagonal(a, 1)
        a = np.clip(a, -1, 1)
    elif kind == "duplicate":
        b = g.normal(size=(k, k + 2))
        if k > 1:
            b[-1] = b[0]
        a = b @ b.T
    else:
        q, _ = np.linalg.qr(g.normal(size=(k, k)))
        v = np.concatenate([[float(g.choice([1e-6, 1e-9, 1e-12, -1e-9, -1e-5]))], g.uniform(0.5, 2, k - 1)])
        a = q @ np.diag(v) @ q.T
        if np.min(np.diag(a)) <= 1e-3:
            a = a + np.diag(np.where(np.diag(a) <= 1e-3, 0.5, 0))
    a = (a + a.T) / 2
    d = np.sqrt(np.diag(a))
    c = a / np.outer(d, d)
    np.fill_diagonal(c, 1.0)
    std = {
        "one": np.ones(k),
        "daily": g.uniform(0.005, 0.03, k),
        "mixed": 10.0 ** g.uniform(-4, 1, k),
        "huge": 10.0 ** g.uniform(2, 4, k),
    }[case["scale"]]
    return (c + c.T) / 2, std


def clip(c):
    v, u = np.linalg.eigh(c)
    x = (u * np.maximum(v, 1e-13)) @ u.T
    d = np.sqrt(np.diag(x))
    return x / np.outer(d, d)


@law(matrices(), quick=1500, thorough=30000, rule="the matrix needed a repair")
def nearest(case):
    from skfolio.utils.stats import cov_nearest

    c, s = corr_of(case)
    cov = c * np.outer(s, s)
    cov = (cov + cov.T) / 2
    keep = cov.copy()
    low = np.linalg.eigvalsh(c)[0]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            out = cov_nearest(cov, higham=case["higham"])
            again = cov_nearest(cov.copy(), higham=case["higham"])
        except ValueError as e:
            check(case["higham"] and "Unable to find" in str(e), "a symmetric matrix with positive variances is refused", err=str(e), case=case)
            check(low < 1e-10, "a valid matrix is refused", low=low)
            note("solver failure")
            return False
    check(np.array_equal(cov, keep), "the input was modified")
    check(np.array_equal(out, again), "not deterministic")
    close(np.diag(out) / s**2, np.ones(len(s)), "the variances changed", rtol=0, atol=1e-9, case=case)
    r = out / np.outer(s, s)
    close(r, r.T, "not symmetric", rtol=0, atol=1e-12)
    check(np.linalg.eigvalsh((r + r.T) / 2)[0] > -1e-12, "not positive semi-definite", low=np.linalg.eigvalsh(r)[0], case=case)
    try:
        np.linalg.cholesky(out)
    except np.linalg.LinAlgError:
        check(False, "the result has no Cholesky factor", case=case, low=np.linalg.eigvalsh(r)[0])
    note(case["kind"], "higham" if case["higham"] else "clipping")
    if low > 1e-9:
        close(r, c, "a valid matrix was changed", rtol=0, atol=1e-12)
        note("already valid")
        return False
    if low > -1e-13:
        close(r, c, "a matrix at the edge was moved", rtol=0, atol=1e-6)
        return True
    ref = clip(c)
    if case["higham"]:
        check(np.linalg.norm(r - c) <= np.linalg.norm(ref - c) + 1e-6, "the projection is farther than clipping", got=np.linalg.norm(r - c), clip=np.linalg.norm(ref - c), case=case)
        # no feasible correlation on the segment towards the clipped one may be much nearer
    else:
        close(r, ref, "differs from eigenvalue clipping", rtol=0, atol=1e-7, case=case)
    return True


@law(matrices(), quick=150, thorough=3000, rule="the matrix is clearly indefinite and the method converged")
def optimal_higham(case):
    """The iterative projection is the nearest correlation matrix (independent long run of alternating projections)."""
    from skfolio.utils.stats import cov_nearest

    c, s = corr_of({**case, "kind": "random" if case["k"] % 2 else "noisy"})
    if np.linalg.eigvalsh(c)[0] > -1e-6:
        return False
    try:
        out = cov_nearest(c * np.outer(s, s), higham=True) / np.outer(s, s)
    except ValueError:
        note("solver failure")
        return False
    y, d = c.copy(), np.zeros_like(c)
    for _ in range(3000):
        r = y - d
        v, u = np.linalg.eigh(r)
        x = (u * np.maximum(v, 0)) @ u.T
        d = x - r
        y = x.copy()
        np.fill_diagonal(y, 1.0)
    best = np.linalg.norm(y - c)
    got = np.linalg.norm(out - c)
    check(got <= best * (1 + 1e-5) + 1e-7, "a nearer correlation matrix exists", got=got, best=best, case=case)
    return True


@law(matrices(), quick=600, thorough=10000, rule="always")
def conversions(case):
    from skfolio.utils.stats import corr_to_cov, cov_to_corr

    c, s = corr_of(case)
    cov = c * np.outer(s, s)
    k0 = cov.copy()
    r, d = cov_to_corr(cov)
    check(np.array_equal(cov, k0), "cov_to_corr modified its input")
    close(d, s, "standard deviations", rtol=1e-12, atol=0)
    close(r, c, "correlation", rtol=0, atol=1e-12)
    k1, d1 = r.copy(), d.copy()
    back = corr_to_cov(r, d)
    check(np.array_equal(r, k1) and np.array_equal(d, d1), "corr_to_cov modified its input")
    close(back / np.outer(s, s), cov / np.outer(s, s), "round trip", rtol=0, atol=1e-12)
    must_raise(lambda: cov_to_corr(cov[0]), ValueError, "a vector is not a covariance")
    must_raise(lambda: corr_to_cov(r[0], d), ValueError, "a vector is not a correlation")
    must_raise(lambda: corr_to_cov(r, np.diag(d)), ValueError, "standard deviations must be a vector")


pred_s = st.fixed_dictionaries({"k": st.integers(2, 7), "seed": gen.seeds, "kind": gen.choice(["definite", "indefinite", "asymmetric", "rectangular", "distance", "bad diagonal", "vector"])})


@law(pred_s, quick=300, thorough=5000, rule="always")
def predicates(case):
    from skfolio.utils import stats as ss

    g = gen.rng_of(case["seed"])
    k = case["k"]
    b = g.normal(size=(k, k + 2))
    a = b @ b.T / k + 0.05 * np.eye(k)
    if case["kind"] == "definite":
        check(ss.is_cholesky_dec(a) and ss.is_positive_definite(a), "a positive definite matrix is not recognised")
        ss.assert_is_square(a)
        ss.assert_is_symmetric(a)
        must_raise(lambda: ss.assert_is_distance(a), ValueError, "a matrix with a positive diagonal is not a distance")
    elif case["kind"] == "indefinite":
        v, u = np.linalg.eigh(a)
        v[0] = -0.05
        m = u @ np.diag(v) @ u.T
        m = (m + m.T) / 2
        check(not ss.is_cholesky_dec(m) and not ss.is_positive_definite(m), "an indefinite matrix passes as positive definite")
    elif case["kind"] == "asymmetric":
        i, j = g.choice(k, 2, replace=False)
        m = a.copy()
        m[i, j] += 0.001
        must_raise(lambda: ss.assert_is_symmetric(m), ValueError, "an asymmetric matrix is accepted")
        must_raise(lambda: ss.cov_nearest(m), ValueError, "an asymmetric covariance is accepted")
        m = np.abs(m)
        np.fill_diagonal(m, 0)
        must_raise(lambda: ss.assert_is_distance(m), ValueError, "an asymmetric distance is accepted")
    elif case["kind"] == "rectangular":
        for f in (ss.assert_is_square, ss.assert_is_symmetric, ss.assert_is_distance, ss.cov_nearest):
            must_raise(lambda f=f: f(b), ValueError, "a rectangular matrix is accepted")
    elif case["kind"] == "vector":
        must_raise(lambda: ss.assert_is_square(b[0]), ValueError, "a vector is accepted")
    else:
        m = np.abs(a - np.diag(np.diag(a)))
        if case["kind"] == "distance":
            ss.assert_is_distance(m)
        else:
            i = int(g.integers(k))
            m[i, i] = 0.01
            must_raise(lambda: ss.assert_is_distance(m), ValueError, "a distance with a non-zero diagonal is accepted")


help_s = st.fixed_dictionaries({"n": st.integers(2, 60), "m": st.integers(1, 5), "p": st.integers(1, 5), "seed": gen.seeds, "ties": st.booleans()})


@law(help_s, quick=400, thorough=6000, rule="always")
def helpers(case):
    from skfolio.utils import stats as ss

    g = gen.rng_of(case["seed"])
    a = g.normal(size=(case["m"], case["p"]))
    k = ss.commutation_matrix(a)
    vec = a.flatten(order="F")
    vect = a.T.flatten(order="F")
    got = k @ vec
    check(np.array_equal(got, vect) or np.array_equal(k.T @ vec, vect), "commutation matrix does not transpose", shape=a.shape)
    if case["m"] == case["p"]:
        check(np.array_equal(got, vect), "commutation matrix of a square matrix")
    x = np.round(g.normal(size=case["n"]), 1 if case["ties"] else 12)
    xs = np.sort(x)
    n = len(x)

    def pct(q):
        h = (n - 1) * q
        i = int(np.floor(h))
        return xs[i] + (h - i) * (xs[min(i + 1, n - 1)] - xs[i])

    d = 2 * (pct(0.75) - pct(0.25)) / n ** (1 / 3)
    b = ss.n_bins_freedman(x)
    if d > 1e-12:
        e = (xs[-1] - xs[0]) / d
        check(b in {max(1, int(np.ceil(e - 1e-9))), max(1, int(np.ceil(e + 1e-9)))}, "Freedman-Diaconis bins", got=b, want=e)
    must_raise(lambda: ss.n_bins_freedman(x[None]), ValueError, "a matrix is not a sample")
    if not case["ties"]:
        nk = ss.n_bins_knuth(x)
        check(isinstance(nk, int) and nk >= 1 and nk == ss.n_bins_knuth(x[::-1].copy()), "Knuth bins depend on the order", got=nk)


LAWS = [nearest, optimal_higham, conversions, predicates, helpers]
