"""C24 Combinatorial purged splits partition, purge and recombine."""

import itertools
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import gen
from harness.core import check, law, must_raise, note

ASSUMPTIONS = [
    "a purge plus embargo of at least the smallest fold must be refused and one smaller by more than one must be accepted; in between either answer is accepted",
    "the optimal-fold search is compared with an exhaustive search over 3 <= folds <= observations and 2 <= test folds < folds (up to 70 observations), by cost",
]


@st.composite
def cfg(draw):
    folds = draw(st.integers(3, 8))
    test = draw(st.integers(2, folds - 1))
    size = draw(st.integers(2, 9))
    n = folds * size + draw(st.integers(0, folds - 1))
    room = size if draw(st.integers(0, 7)) == 0 else size - 2
    purge = draw(st.integers(0, room))
    emb = draw(st.integers(0, room - purge))
    return {"folds": folds, "test": test, "n": n, "purge": purge, "embargo": emb, "form": draw(gen.choice(["array", "frame", "y"]))}


@law(cfg(), quick=900, thorough=15000, rule="the configuration is accepted")
def splits(case):
    from skfolio.model_selection import CombinatorialPurgedCV

    n, F, T, p, e = case["n"], case["folds"], case["test"], case["purge"], case["embargo"]
    X = np.zeros((n, 2))
    y = None
    if case["form"] == "frame":
        X = pd.DataFrame(X, index=pd.bdate_range("2021-01-01", periods=n))
    if case["form"] == "y":
        y = np.zeros(n)
    cv = CombinatorialPurgedCV(n_folds=F, n_test_folds=T, purged_size=p, embargo_size=e)
    size = n // F
    if p + e >= size:
        must_raise(lambda: list(cv.split(X, y)), ValueError, "a purge and embargo as long as a fold must be refused")
        return False
    try:
        got = list(cv.split(X, y))
    except ValueError:
        check(p + e >= size - 1, "a valid configuration is refused", case=case)
        return False
    blocks = [list(range(i * size, (i + 1) * size if i < F - 1 else n)) for i in range(F)]
    combos = [tuple(c) for c in itertools.combinations(range(F), T)]
    check(len(got) == math.comb(F, T) == cv.n_splits, "number of splits", got=len(got), reported=cv.n_splits)
    seen = []
    table = np.asarray(cv.index_train_test_)
    for i, (train, tests) in enumerate(got):
        ids = []
        for t in tests:
            t = list(t)
            check(t in blocks, "a test set is not one of the folds", test=t, blocks=blocks)
            ids.append(blocks.index(t))
        check(ids == sorted(set(ids)) and len(ids) == T, "test folds of a split", ids=ids)
        seen.append(tuple(ids))
        tested = {q for b in ids for q in blocks[b]}
        out = set(tested)
        for b in ids:
            lo, hi = blocks[b][0], blocks[b][-1]
            out |= set(range(lo - p, lo)) | set(range(hi + 1, hi + 1 + p + e))
        want = [q for q in range(n) if q not in out]
        check(list(train) == want, "training set", split=i, ids=ids, got=list(train), want=want, case=case)
        want_col = [1 if q in tested else (0 if q not in out else -1) for q in range(n)]
        check(list(table[:, i]) == want_col, "train/test/purge table", split=i, got=list(table[:, i]), want=want_col)
    check(sorted(seen) == combos, "some combination of folds is missing or repeated", got=seen)
    # reported tables
    check([tuple(int(v) for v in r) for r in cv.test_set_index] == seen, "test_set_index")
    b = np.asarray(cv.binary_train_test_sets)
    check(b.shape == (F, len(got)) and all(b[f, i] == (f in seen[i]) for f in range(F) for i in range(len(got))), "binary_train_test_sets")
    ids = np.asarray(cv.get_path_ids())
    P = math.comb(F, T) * T // F
    check(cv.n_test_paths == P and ids.shape == (len(got), T), "number of paths")
    rec = np.asarray(cv.recombined_paths)
    check(rec.shape == (F, P), "recombined_paths shape", shape=rec.shape)
    for path in range(P):
        where = np.argwhere(ids == path)
        visited = sorted(int(q) for i, j in where for q in got[i][1][j])
        check(visited == list(range(n)), "a path does not visit every observation exactly once", path=path, visited=visited)
        for i, j in where:
            check(rec[seen[i][j], path] == i, "recombination table and path ids disagree", path=path)
    s = cv.summary(X)
    check(
        [s["Number of Observations"], s["Total Number of Folds"], s["Number of Test Folds"], s["Purge Size"], s["Embargo Size"], s["Number of Test Paths"], s["Number of Training Combinations"]]
        == [n, F, T, p, e, P, len(got)],
        "summary", got=list(s),
    )  # fmt: skip
    check(abs(s["Average Training Size"] - n * (F - T) / F) <= 1, "average training size", got=s["Average Training Size"])
    note("remainder" if n % F else "even", f"purge={p > 0} embargo={e > 0}")
    return True


opt_s = st.fixed_dictionaries(
    {
        "n": st.integers(10, 70),
        "train": st.floats(0.05, 0.95),
        "paths": gen.choice([1, 2, 3, 5, 10, 30, 100, 1000]),
        "wt": gen.choice([1, 1, 0.1, 5.0]),
        "wp": gen.choice([1, 1, 0.01, 3.0]),
    }
)


@law(opt_s, quick=250, thorough=4000, rule="always")
def optimal(case):
    from skfolio.model_selection import CombinatorialPurgedCV, optimal_folds_number

    n, target = case["n"], max(1, int(case["train"] * case["n"]))

    def cost(x, y):
        paths = math.comb(x, y) * y // x
        size = n / x * (x - y)
        return case["wt"] * abs(size - target) / target + case["wp"] * abs(paths - case["paths"]) / case["paths"]

    x, y = optimal_folds_number(n_observations=n, target_train_size=target, target_n_test_paths=case["paths"], weight_train_size=case["wt"], weight_n_test_paths=case["wp"])
    check(3 <= x <= n and 2 <= y < x, "optimal folds out of range", x=x, y=y)
    best = min(cost(a, b) for a in range(3, n + 1) for b in range(2, a))
    check(cost(x, y) <= best * (1 + 1e-12) + 1e-12, "a better number of folds exists", got=(x, y), cost=cost(x, y), best=best, case=case)
    CombinatorialPurgedCV(n_folds=x, n_test_folds=y)


@law(st.fixed_dictionaries({"bad": gen.choice(["folds2", "folds float", "test1", "test too many", "purge", "embargo"]), "k": st.integers(3, 9)}), quick=30, thorough=100, rule="always")
def refusals(case):
    from skfolio.model_selection import CombinatorialPurgedCV

    k = case["k"]
    kw = {
        "folds2": dict(n_folds=2, n_test_folds=2),
        "folds float": dict(n_folds=k + 0.5, n_test_folds=2),
        "test1": dict(n_folds=k, n_test_folds=1),
        "test too many": dict(n_folds=k, n_test_folds=k),
        "purge": dict(n_folds=k, n_test_folds=2, purged_size=-1),
        "embargo": dict(n_folds=k, n_test_folds=2, embargo_size=-1),
    }[case["bad"]]
    must_raise(lambda: CombinatorialPurgedCV(**kw), ValueError, "must be refused: " + case["bad"])


LAWS = [splits, optimal, refusals]
