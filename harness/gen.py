"""Generators: small JSON recipes and the builders that turn them into arrays."""

import numpy as np
import pandas as pd
from hypothesis import strategies as st

seeds = st.integers(0, 2**31 - 1)

def choice(opts):
    """Like sampled_from but spread evenly (Hypothesis favours the first elements)."""
    opts = list(opts)
    return st.integers(0, 2**20 - 1).map(
        lambda i: opts[((i * 2654435761) >> 13) % len(opts)] if i else opts[0]
    )


def subset(opts, p=0.5):
    """A sublist, each element kept with probability p."""
    opts = list(opts)

    def pick(seed):
        if seed == 0:
            return []
        r = np.random.default_rng(seed)
        return [o for o in opts if r.random() < p]

    return st.integers(0, 2**20 - 1).map(pick)


KINDS = ["normal", "factor", "fat", "hetero", "corr", "ties", "skew", "blocks"]
SMOOTH = ["normal", "factor", "fat", "hetero", "corr", "skew", "blocks"]


def dyadic(lo=0.0, hi=1.0, bits=10):
    """Floats that are exact multiples of 2**-bits."""
    q = 2**bits
    return st.integers(int(np.ceil(lo * q)), int(np.floor(hi * q))).map(lambda i: i / q)


def grid(lo, hi, step):
    """Decimal-looking floats lo, lo+step, ..., hi."""
    n = round((hi - lo) / step)
    return st.integers(0, n).map(lambda i: round(lo + i * step, 10))


# ------------------------------------------------------------------ 1-D series
def series(min_n=2, max_n=60):
    explicit = st.lists(
        st.integers(-300, 300).map(lambda i: i / 1000), min_size=min_n, max_size=max_n
    ).map(lambda v: {"v": v})
    drawn = st.fixed_dictionaries(
        {
            "kind": choice(["normal", "fat", "ties", "const", "up", "down"]),
            "n": st.integers(min_n, max_n),
            "seed": seeds,
            "scale": choice([1e-6, 1e-4, 0.01, 0.02, 0.1]),
        }
    )
    return st.one_of(explicit, drawn)


def build_series(c):
    if "v" in c:
        return np.array(c["v"], dtype=float)
    rng = np.random.default_rng(c["seed"])
    n, s = c["n"], c["scale"]
    match c["kind"]:
        case "normal":
            r = rng.normal(0.05, 1, n) * s
        case "fat":
            r = np.clip(rng.standard_t(2.5, n), -8, 8) * s
        case "ties":
            r = rng.integers(-2, 3, n) * s
        case "const":
            r = np.full(n, rng.normal()) * s
        case "up":
            r = np.abs(rng.normal(0, 1, n)) * s
        case "down":
            r = -np.abs(rng.normal(0, 1, n)) * s
    return np.clip(r, -0.9, 2.0)


# ------------------------------------------------------------------ matrices
def mat(min_n=20, max_n=60, min_k=2, max_k=6, kinds=None, scales=(0.01,)):
    return st.fixed_dictionaries(
        {
            "kind": choice(list(kinds or KINDS)),
            "n": st.integers(min_n, max_n),
            "k": st.integers(min_k, max_k),
            "seed": seeds,
            "scale": choice(list(scales)),
        }
    )


def build(c):
    """(n_observations, n_assets) array of returns."""
    rng = np.random.default_rng(c["seed"])
    n, k = c["n"], c["k"]
    z = rng.standard_normal((n, k))
    drift = rng.uniform(-0.05, 0.15, k)
    match c["kind"]:
        case "normal":
            x = z
        case "factor":
            f = rng.standard_normal((n, 1))
            x = 0.7 * f * rng.uniform(0.3, 1.5, k) + 0.7 * z
        case "fat":
            x = np.clip(rng.standard_t(3, (n, k)), -8, 8) * 0.7
        case "hetero":
            x = z * np.exp(rng.uniform(-1.2, 1.2, k))
        case "corr":
            x = z.copy()
            for j in range(1, k, 2):
                x[:, j] = 0.97 * x[:, j - 1] + 0.25 * z[:, j]
        case "ties":
            x = np.round(z * 1.5)
            drift = np.zeros(k)
        case "skew":
            x = -(rng.exponential(1, (n, k)) - 1)
        case "blocks":
            m = max(1, k // 2)
            f = rng.standard_normal((n, m))
            x = 0.8 * f[:, np.arange(k) % m] + 0.6 * z
    return (x + drift) * c["scale"]


def names(k, prefix="A"):
    return [f"{prefix}{i}" for i in range(k)]


def frame(c, cols=None, start="2020-01-01", freq="B"):
    x = build(c)
    return pd.DataFrame(
        x,
        columns=cols if cols is not None else names(c["k"]),
        index=pd.date_range(start, periods=c["n"], freq=freq),
    )


def rng_of(seed):
    return np.random.default_rng(seed)


def simplex(seed, k, n=1):
    return np.random.default_rng(seed).dirichlet(np.ones(k), n)
