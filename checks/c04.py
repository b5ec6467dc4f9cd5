"""C04 Contributions and composition decompose the portfolio exactly."""

import numpy as np
from hypothesis import strategies as st

from harness import gen, pf, ref
from harness.core import check, close, law, note

ASSUMPTIONS = [
    "derivatives are central differences with an explicit small spacing, cases where the reference measure has a kink inside the spacing are not judged",
    "diversification is accepted with either population or sample asset volatilities",
]

DEG = {
    "mean": 1, "mean_absolute_deviation": 1, "first_lower_partial_moment": 1, "variance": 2,
    "standard_deviation": 1, "semi_variance": 2, "semi_deviation": 1, "cvar": 1, "evar": 1,
    "worst_realization": 1, "value_at_risk": 1, "max_drawdown": 1, "average_drawdown": 1,
    "cdar": 1, "edar": 1, "ulcer_index": 1, "drawdown_at_risk": 1, "gini_mean_difference": 1,
    "annualized_variance": 2, "annualized_standard_deviation": 1, "annualized_mean": 1,
    "annualized_semi_deviation": 1, "annualized_semi_variance": 2,
    "fourth_central_moment": 4, "fourth_lower_partial_moment": 4,
    "sharpe_ratio": 0, "sortino_ratio": 0, "cvar_ratio": 0, "calmar_ratio": 0,
    "annualized_sharpe_ratio": 0, "ulcer_index_ratio": 0,
}  # fmt: skip


@st.composite
def _case(draw):
    p = draw(pf.portfolio(min_n=15, max_n=40, min_k=2, max_k=5, kinds=gen.SMOOTH, costs=False))
    name = draw(gen.choice(sorted(DEG)))
    pr = {k: v for k, v in p["params"].items() if k.endswith("beta") or k == "annualized_factor"}
    p["params"] = pr
    return {"p": p, "measure": name, "spacing": draw(gen.choice([1e-6, 1e-7, 3e-6, None]))}


def _kink(name, x, w, params, h, tol):
    """Whether the reference measure changes slope within the spacing of the differences."""
    mid = ref.measure(name, x @ w, **params)
    for i in np.flatnonzero(w):
        up, dn = w.copy(), w.copy()
        up[i] += h
        dn[i] -= h
        for a, b, m in zip(ref.measure(name, x @ up, **params), ref.measure(name, x @ dn, **params), mid, strict=True):
            if abs(w[i] * (a - 2 * m + b) / (2 * h)) > tol:
                return True
    return False


@law(_case(), quick=3000, rule="at least two invested assets")
def euler(case):
    c = case["p"]
    x = gen.build(c["m"])
    w = pf.dense(c["w"], c["m"]["k"])
    if np.count_nonzero(w) == 0:
        return False
    p = pf.build(c)
    name, deg = case["measure"], DEG[case["measure"]]
    m = pf.by_value()[name]
    spacing = case["spacing"]
    if spacing is None:
        # the default is coarse for drawdowns, exact enough for everything else
        if "drawdown" in name or name in ("cdar", "edar", "calmar_ratio"):
            spacing = 1e-6
            kw = {"spacing": spacing}
        else:
            spacing, kw = 1e-6, {}
            note("default spacing")
    else:
        kw = {"spacing": spacing}
    con = p.contribution(measure=m, **kw)
    check(con.shape == (c["m"]["k"],), "one contribution per asset")
    total = getattr(p, name)
    # noise of the differences: evaluation error of the measure over the spacing
    size = max(abs(total), float(np.abs(con).sum()))
    eps = {"evar": 3e-9, "edar": 3e-9}.get(name, 1e-14)
    noise = eps * len(w) * max(size, abs(total)) / spacing
    curv = 1e-4 * size
    if _kink(name, x, w, c["params"], 1e-5 if not kw else max(spacing, 1e-6), 1e-5 * size + noise):
        note("kink inside the spacing")
        return False
    close(con.sum(), deg * total, f"contributions to {name} do not add up", 1e-3, curv + noise)
    # marginal meaning, with an independent measure
    h = 1e-6
    for i in range(len(w)):
        if w[i] == 0:
            check(con[i] == 0, "an asset that is not held contributes nothing")
            continue
        up, dn = w.copy(), w.copy()
        up[i] += h
        dn[i] -= h
        ups, dns = (ref.measure(name, x @ v, **c["params"]) for v in (up, dn))
        exp = [w[i] * (a - b) / (2 * h) for a, b in zip(ups, dns, strict=True)]
        tol = curv + noise + eps * 10 * size / h
        check(any(np.isclose(con[i], e, rtol=2e-3, atol=tol) for e in exp),
              f"contribution of asset {i} to {name}", got=con[i], exp=exp, tol=tol)  # fmt: skip
    df = p.contribution(measure=m, to_df=True, **kw)
    exp = {a: v for a, v, ww in zip(p.assets, con, w, strict=True) if ww != 0}
    check(set(df.index) == set(exp) and len(df) == len(exp), "contribution table assets")
    for a, v in exp.items():
        close(df.loc[a].iloc[0], v, "contribution table", 1e-9, 1e-15 + noise)
    check(list(df.columns) == [p.name], "contribution table name")
    check(bool(np.all(np.diff(df.iloc[:, 0].to_numpy()) <= 0)), "contribution table is sorted")
    note(name)
    return bool(np.count_nonzero(w) > 1)


@law(
    st.fixed_dictionaries({"p": pf.portfolio(min_n=5, max_n=20, min_k=1, max_k=6), "seed": gen.seeds,
                           "tiny": st.booleans()}),
    quick=2000,
    rule="some but not all assets invested",
)  # fmt: skip
def composition(case):
    c = case["p"]
    k = c["m"]["k"]
    if case["tiny"]:
        # weights around the documented 0.001% investment threshold
        rng = gen.rng_of(case["seed"])
        c["w"]["v"] = [float(v) if v else float(rng.choice([0, 2e-6, -3e-6, 5e-5, -2e-5])) for v in c["w"]["v"]]
    p = pf.build(c)
    w = pf.dense(c["w"], k)
    names = list(p.assets)
    inv = {a: v for a, v in zip(names, w, strict=True) if abs(v) > 1e-5}
    comp = p.composition
    check(list(comp.columns) == [p.name], "composition name")
    check(set(comp.index) == set(inv) and len(comp) == len(inv), "composition assets",
          got=list(comp.index), exp=list(inv))  # fmt: skip
    for a, v in inv.items():
        check(comp.loc[a, p.name] == v, "composition weight")
    check(bool(np.all(np.diff(comp[p.name].to_numpy()) <= 0)), "composition is sorted")
    for a, v in zip(names, w, strict=True):
        check(p.get_weight(a) == v, "weight of the asset")
    check(list(p.nonzero_assets) == list(inv), "nonzero assets")
    check([names[i] for i in p.nonzero_assets_index] == list(inv), "nonzero assets index")
    wpo = p.weights_per_observation
    check(wpo.shape == (c["m"]["n"], len(inv)) and set(wpo.columns) == set(inv), "weights per observation")
    for a, v in inv.items():
        check(bool(np.all(wpo[a].to_numpy() == v)), "weights per observation")
    check(np.array_equal(wpo.index.to_numpy(), p.observations), "weights per observation index")
    rng = gen.rng_of(case["seed"])
    mu = rng.normal(0, 0.01, k)
    a = rng.normal(0, 0.01, (k, k))
    cov = a @ a.T
    close(
        p.expected_returns_from_assets(assets_expected_returns=mu),
        sum(w * mu) - p.total_cost - p.total_fee, "expected return", 1e-9, 1e-14,
    )
    close(
        p.variance_from_assets(assets_covariance=cov),
        sum(w[i] * w[j] * cov[i, j] for i in range(k) for j in range(k)), "variance", 1e-9, 1e-16,
    )
    if np.any(w):
        close(p.effective_number_assets, 1 / float(np.sum(w * w)), "effective number", 1e-9)
        x = gen.build(c["m"])
        sd = ref.standard_deviation(p.returns)
        if sd > 1e-6 * np.max(np.abs(x)):
            opts = [float(w @ x.std(axis=0, ddof=d)) / sd for d in (0, 1)]
            check(any(np.isclose(p.diversification, o, rtol=1e-6, atol=1e-9) for o in opts),
                  "diversification", got=p.diversification, exp=opts)  # fmt: skip
            s = p.sharpe_ratio
            if abs(s) > 1e-6:
                close(p.sric, s - k / (len(x) * s), "sric", 1e-9)
    if any(0 < abs(v) <= 1e-5 for v in w):
        note("below the investment threshold")
    return 0 < len(inv) < k or any(0 < abs(v) <= 1e-5 for v in w)
