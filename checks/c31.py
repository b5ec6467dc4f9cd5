"""C31 Random weights and bootstrap samples have the promised structure."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import check, close, law, note

ASSUMPTIONS = [
    "statistical statements (share of continued blocks, starting points, zero positions, moments of the weights) use a fixed number of draws and bounds of 6.5 standard deviations",
    "the automatic block size is the stationary-bootstrap rule of Patton, Politis and White (2009) with the usual flat-top lag window; series have at least 20 observations and are not constant",
]


@st.composite
def boot_cases(draw):
    return {
        "n": draw(gen.choice([2, 3, 5, 12, 40, 90])),
        "k": draw(st.integers(1, 4)),
        "b": draw(st.integers(1, 30)),
        "block": draw(gen.choice([1.0, 1.5, 2.0, 5.0, 20.0, 1000.0, 0.5])),
        "seed": draw(st.integers(0, 2**31 - 1)),
        "order": draw(gen.choice(["C", "F"])),
    }


@law(boot_cases(), quick=500, thorough=8000, rule="several observations drawn several times")
def blocks(case):
    from skfolio.utils.bootstrap import stationary_bootstrap

    n, k, b = case["n"], case["k"], case["b"]
    g = gen.rng_of(case["seed"])
    x = np.asarray(g.normal(size=(n, k)), order=case["order"])
    x[:, 0] = np.arange(n)  # identifies the row
    keep = x.copy()
    s = stationary_bootstrap(x, b, block_size=case["block"], seed=case["seed"])
    check(np.array_equal(x, keep), "the returns were modified")
    check(s.shape == (b, n, k), "shape of the samples", got=s.shape)
    i = s[:, :, 0].astype(int)
    check(np.all((i >= 0) & (i < n)) and np.array_equal(s, x[i]), "a sampled row is not an observed row")
    check(np.array_equal(s, stationary_bootstrap(x, b, block_size=case["block"], seed=case["seed"])), "not reproducible")
    other = stationary_bootstrap(x, b, block_size=case["block"], seed=(case["seed"] + 1) % 2**31)
    if n ** min(b, 10) > 10**9:
        check(not np.array_equal(s, other), "the seed has no effect")
    cont = (i[:, 1:] == (i[:, :-1] + 1) % n).sum()
    m = b * (n - 1)
    p = max(0.0, 1 - 1 / case["block"])
    p = p + (1 - p) / n
    check(abs(cont - m * p) <= 6.5 * np.sqrt(m * p * (1 - p)) + 3, "average block length", share=cont / m, want=p, case=case)
    # starting points are uniform
    st_ = i[:, 0]
    check(abs(st_.mean() - (n - 1) / 2) <= 6.5 * np.sqrt((n * n - 1) / 12 / b) + 1e-9, "starting points", got=st_.mean())
    note(f"block {case['block']}")
    return n > 2 and b > 1


@law(st.fixed_dictionaries({"n": gen.choice([7, 25]), "block": gen.choice([2.0, 4.0, 10.0]), "seed": st.integers(0, 2**31 - 1)}), quick=60, thorough=600, rule="always")
def distribution(case):
    """Block lengths, their independence across positions, and uniform restarts."""
    from skfolio.utils.bootstrap import stationary_bootstrap

    n, b = case["n"], 1500
    x = np.arange(float(n))[:, None]
    i = stationary_bootstrap(x, b, block_size=case["block"], seed=case["seed"])[:, :, 0].astype(int)
    p = 1 - 1 / case["block"]
    p = p + (1 - p) / n
    cont = i[:, 1:] == (i[:, :-1] + 1) % n
    sd = np.sqrt(p * (1 - p) / b)
    close(cont.mean(axis=0), np.full(n - 1, p), "continuation depends on the position", rtol=0, atol=6.5 * sd, case=case)
    wrap = i[:, :-1] == n - 1
    if wrap.sum() > 200:
        close(cont[wrap].mean(), p, "blocks do not wrap around", rtol=0, atol=6.5 * np.sqrt(p * (1 - p) / wrap.sum()))
        note("wrapped")
    cnt = np.bincount(i.ravel(), minlength=n) / i.size
    # rows are positively dependent inside a block: effective sample b * n / (2 block)
    close(cnt, np.full(n, 1 / n), "observations are not drawn equally often", rtol=0, atol=6.5 * np.sqrt(1 / n * min(n, 2 * case["block"]) / i.size), case=case)
    new = i[:, 1:][~cont]
    close(new.mean(), (n - 1) / 2, "restarts are not uniform", rtol=0, atol=6.5 * np.sqrt((n * n - 1) / 12 / len(new)) + 0.5 / n * 2)


def ref_block(x):
    n = len(x)
    e = x - x.sum() / n
    kn = max(5, int(np.log10(n)))
    mmax = int(np.ceil(n**0.5)) + kn
    band = 2 * (np.log10(n) / n) ** 0.5
    gam, rho = [], []
    for lag in range(mmax + 1):
        c = sum(e[t] * e[t - lag] for t in range(lag, n))
        gam.append(c / n)
        a = sum(e[t] ** 2 for t in range(lag + 1, n))
        z = sum(e[t] ** 2 for t in range(0, n - lag - 1))
        rho.append(abs(c) / (a * z) ** 0.5)
    first = next((j for j in range(mmax + 1 - kn) if all(r < band for r in rho[j : j + kn])), None)
    m = mmax if first is None else min(mmax, 2 * max(first, 1))
    lam = [min(1.0, 2 * (1 - j / m)) for j in range(m + 1)]
    G = sum(2 * lam[j] * j * gam[j] for j in range(1, m + 1))
    L = gam[0] + sum(2 * lam[j] * gam[j] for j in range(1, m + 1))
    near = min(abs(r - band) for r in rho)
    return min((G * G / (L * L) * n) ** (1 / 3), np.ceil(min(3 * n**0.5, n / 3))), near < 1e-9 or abs(L) < 1e-9 * gam[0]


@law(
    st.fixed_dictionaries({"n": st.integers(20, 150), "k": st.integers(1, 4), "ar": gen.choice([0.0, 0.3, 0.7, 0.95, -0.6]), "seed": gen.seeds, "scale": gen.choice([1.0, 0.01])}),
    quick=150,
    thorough=2500,
    rule="always",
)
def block_size(case):
    from skfolio.utils.bootstrap import optimal_block_size, stationary_bootstrap

    g = gen.rng_of(case["seed"])
    x = g.normal(size=(case["n"], case["k"]))
    for t in range(1, case["n"]):
        x[t] += case["ar"] * x[t - 1]
    x *= case["scale"]
    ref, bad = zip(*(ref_block(x[:, j]) for j in range(case["k"])), strict=True)
    if any(bad):
        return False
    got = [float(optimal_block_size(x[:, j])) for j in range(case["k"])]
    close(got, ref, "automatic block size", rtol=1e-6, atol=1e-9, case=case)
    check(all(0 <= v <= np.ceil(min(3 * np.sqrt(case["n"]), case["n"] / 3)) for v in got), "block size out of bounds", got=got)
    close([float(optimal_block_size(5 * x[:, j] + 1)) for j in range(case["k"])], got, "block size depends on the units", rtol=1e-5, atol=1e-8)
    a = stationary_bootstrap(x, 3, seed=5)
    b = stationary_bootstrap(x, 3, block_size=float(np.median(got)), seed=5)
    check(np.array_equal(a, b), "the automatic block size is not the median over the assets")
    note(f"ar {case['ar']}", "capped" if max(got) >= np.ceil(min(3 * np.sqrt(case["n"]), case["n"] / 3)) else "free")


@law(st.fixed_dictionaries({"n": st.integers(1, 30), "z": st.integers(0, 29), "seed": st.integers(0, 2**31 - 1)}), quick=500, thorough=6000, rule="several weights")
def weights(case):
    from skfolio.utils.stats import rand_weights, rand_weights_dirichlet

    n = case["n"]
    z = min(case["z"], n - 1)

    def draw(f):
        np.random.seed(case["seed"])
        a = f()
        np.random.seed(case["seed"])
        check(np.array_equal(a, f()), "not reproducible from the seed")
        np.random.seed((case["seed"] + 1) % 2**31)
        if len(a) - np.count_nonzero(a == 0) > 1:
            check(not np.array_equal(a, f()), "the seed has no effect")
        return a

    state = np.random.get_state()
    try:
        for zeros, w in ((z, draw(lambda: rand_weights(n, z))), (0, draw(lambda: rand_weights(n))), (0, draw(lambda: rand_weights_dirichlet(n)))):
            check(w.shape == (n,) and np.all(w >= 0), "weights must be non-negative", w=w)
            close(w.sum(), 1.0, "weights must sum to one", rtol=0, atol=1e-12)
            check(np.count_nonzero(w == 0) == zeros, "number of zero weights", got=np.count_nonzero(w == 0), want=zeros)
    finally:
        np.random.set_state(state)
    return n > 1


@law(st.fixed_dictionaries({"n": st.integers(2, 8), "z": st.integers(1, 7), "seed": st.integers(0, 2**31 - 1)}), quick=40, thorough=400, rule="always")
def weight_distribution(case):
    from skfolio.utils.stats import rand_weights, rand_weights_dirichlet

    n, r = case["n"], 1500
    z = min(case["z"], n - 1)
    state = np.random.get_state()
    try:
        np.random.seed(case["seed"])
        d = np.array([rand_weights_dirichlet(n) for _ in range(r)])
        u = np.array([rand_weights(n, z) for _ in range(r)])
    finally:
        np.random.set_state(state)
    p = z / n
    close((u == 0).mean(axis=0), np.full(n, p), "zero positions are not uniform", rtol=0, atol=6.5 * np.sqrt(p * (1 - p) / r))
    close(d.mean(axis=0), np.full(n, 1 / n), "weights are not exchangeable", rtol=0, atol=6.5 * np.sqrt((n - 1) / n**2 / (n + 1) / r))
    m2, m4 = 2 / n / (n + 1), 24 / n / (n + 1) / (n + 2) / (n + 3)
    close((d**2).mean(axis=0), np.full(n, m2), "weights are not uniform on the simplex", rtol=0, atol=6.5 * np.sqrt((m4 - m2**2) / r))


LAWS = [blocks, distribution, block_size, weights, weight_distribution]
