"""C08 Population queries agree with brute-force selection."""

import numpy as np
from hypothesis import strategies as st

from harness import gen, pf
from harness.core import check, close, law, must_raise, note

ASSUMPTIONS = [
    "populations of at most 9 members",
    "the q-quantile of n members is the member of rank max(1, round(n q)) (half to even) in ascending order",
    "among members tied on a measure any of them may be returned",
]


@st.composite
def _member(draw, k):
    return {
        "w": draw(pf.weights(k)),
        "name": draw(gen.choice(["a", "b", "c", "a_1", "a_2", "b_1", None])),
        "tag": draw(gen.choice(["x", "y", None])),
        "multi": draw(gen.choice([False, False, True])),
        "dup": draw(gen.choice([False, False, False, True])),
    }


@st.composite
def _pop(draw, lo=1, hi=9):
    m = draw(gen.mat(6, 12, 1, 4))
    return {"m": m, "members": draw(st.lists(_member(m["k"]), min_size=lo, max_size=hi))}


def _build(case):
    from skfolio import MultiPeriodPortfolio, Population, Portfolio

    X = gen.frame(case["m"])
    cut = len(X) // 2
    out = []
    w = None
    for i, c in enumerate(case["members"]):
        # duplicates give exact ties
        w = c["w"] if w is None or not c["dup"] else w
        kw = {} if c["name"] is None else {"name": c["name"]}
        if c["multi"]:
            parts = [Portfolio(X=q, weights=w, name=f"s{i % 2}") for q in (X.iloc[:cut], X.iloc[cut:])]
            out.append(MultiPeriodPortfolio(portfolios=parts, tag=c["tag"], **kw))
        else:
            out.append(Portfolio(X=X, weights=w, tag=c["tag"], **kw))
    return Population(out), out


def _ids(xs):
    return [id(x) for x in xs]


@law(
    st.fixed_dictionaries({"pop": _pop(), "measure": gen.choice(pf.NAMES), "q": st.one_of(gen.grid(0, 1, 0.05), gen.dyadic(0, 1, 6)),
                           "reverse": st.booleans(), "names": gen.subset(["a", "b", "c", "a_1", "zz"], 0.5),
                           "tags": gen.subset(["x", "y", "zz"], 0.5), "form": gen.choice(["str", "list"])}),
    quick=3000, rule="at least three members",
)  # fmt: skip
def queries(case):
    from skfolio import Population

    pop, ms = _build(case["pop"])
    n = len(ms)
    m = pf.by_value()[case["measure"]]
    vals = np.array([getattr(p, m.value) for p in ms], dtype=float)
    got = pop.measures(measure=m)
    check(np.array_equal(got, vals, equal_nan=True), "measures")
    if np.isfinite(vals).all():
        close(pop.measures_mean(measure=m), sum(vals) / n, "mean", 1e-9, 1e-15)
        mu = sum(vals) / n
        # computing the mean first leaves an error of a few ulp of the values
        close(pop.measures_std(measure=m), float(np.sqrt(np.sum((vals - mu) ** 2) / n)), "std", 1e-7,
              1e-9 * float(np.max(np.abs(vals))) + 1e-300)  # fmt: skip
    if not np.isnan(vals).any():
        lo, hi = pop.min_measure(measure=m), pop.max_measure(measure=m)
        check(id(lo) in _ids(ms) and getattr(lo, m.value) == vals.min(), "minimum")
        check(id(hi) in _ids(ms) and getattr(hi, m.value) == vals.max(), "maximum")
        s = pop.sort_measure(measure=m, reverse=case["reverse"])
        check(isinstance(s, Population) and sorted(_ids(s)) == sorted(_ids(ms)), "sorting permutes")
        exp = sorted(vals.tolist(), reverse=case["reverse"])
        check([getattr(p, m.value) for p in s] == exp, "sorted order")
        r = n * case["q"]
        ranks = {max(1, round(r))}
        if abs(r - np.floor(r) - 0.5) < 1e-9:
            ranks |= {max(1, int(np.floor(r))), max(1, int(np.ceil(r)))}
        ok = {sorted(vals)[k - 1] for k in ranks}
        x = pop.quantile(measure=m, q=case["q"])
        check(id(x) in _ids(ms) and getattr(x, m.value) in ok, "quantile", got=getattr(x, m.value), exp=ok, q=case["q"])
    for q in (-0.1, 1.1):
        must_raise(lambda q=q: pop.quantile(measure=m, q=q), ValueError, "quantile outside [0, 1]")
    check(_ids(pop) == _ids(ms), "queries do not reorder the population")
    # filters
    for names in (None, case["names"] or ["a"]):
        for tags in (None, case["tags"] or ["x"]):
            if case["form"] == "str":
                an, at = (names[0] if names else None), (tags[0] if tags else None)
                sn, stg = ({an} if names else None), ({at} if tags else None)
            else:
                an, at = names, tags
                sn, stg = (set(names) if names else None), (set(tags) if tags else None)
            exp = [p for p in ms if (sn is None or p.name in sn) and (stg is None or p.tag in stg)]
            f = pop.filter(names=an, tags=at)
            check(isinstance(f, Population) and _ids(f) == _ids(exp), "filter", names=an, tags=at)
    if len(set(vals)) < n:
        note("ties")
    if any(c["multi"] for c in case["pop"]["members"]):
        note("multi-period member")
    return n >= 3


@law(st.fixed_dictionaries({"pop": _pop(), "sub": st.booleans(), "window": st.integers(2, 5),
                            "measure": gen.choice(["mean", "variance", "cvar", "sharpe_ratio", "max_drawdown"])}),
     quick=900, rule="duplicate names or a multi-period member")  # fmt: skip
def tables(case):
    pop, ms = _build(case["pop"])
    n = len(ms)
    for formatted in (False, True):
        s = pop.summary(formatted=formatted)
        check(list(s.columns) == [p.name for p in ms], "summary columns")
        for j, p in enumerate(ms):
            own = p.summary(formatted=formatted)
            col = s.iloc[:, j]
            for k in own.index:
                a, b = col[k], own[k]
                check(a == b or (a != a and b != b), f"summary {k} of member {j}", got=a, exp=b)
    # one column per held portfolio, in order
    cols = []
    for p in ms:
        for q in p if hasattr(p, "portfolios") else [p]:
            cols.append((p, q))
    comp = pop.composition(display_sub_ptf_name=case["sub"])
    con = pop.contribution(measure=pf.by_value()["variance"], display_sub_ptf_name=case["sub"])
    for what, df in (("composition", comp), ("contribution", con)):
        check(df.shape[1] == len(cols), f"{what} columns", got=df.shape[1], exp=len(cols))
        check(len(set(df.columns)) == len(cols), f"{what} column names are distinct", got=list(df.columns))
        for j, (p, q) in enumerate(cols):
            exp = (
                {a: w for a, w in zip(q.assets, q.weights, strict=True) if abs(w) > 1e-5}
                if what == "composition"
                else dict(zip(q.assets, q.contribution(measure=pf.by_value()["variance"]), strict=True))
            )
            for a in q.assets:
                got = df.loc[a].iloc[j] if a in df.index else 0.0
                check(np.isclose(got, exp.get(a, 0.0), rtol=1e-9, atol=1e-18), f"{what} of {a} in column {j}",
                      got=got, exp=exp.get(a, 0.0))  # fmt: skip
            check(str(df.columns[j]).startswith(str(p.name)), f"{what} column name")
    m = pf.by_value()[case["measure"]]
    roll = pop.rolling_measure(measure=m, window=case["window"])
    check(roll.shape[1] == n and len(set(roll.columns)) == n, "rolling measure columns")
    check(roll.index.is_monotonic_increasing, "rolling measure index")
    for j, p in enumerate(ms):
        own = p.rolling_measure(measure=m, window=case["window"])
        col = roll.iloc[:, j].reindex(own.index)
        check(np.array_equal(col.to_numpy(float), own.to_numpy(float), equal_nan=True), "rolling measure of the member")
        label = str(p.name) if p.tag is None else f"{p.name}_{p.tag}"
        check(str(roll.columns[j]).startswith(label), "rolling measure column name", got=roll.columns[j], exp=label)
    names = [p.name for p in ms]
    return len(set(names)) < n or any(c["multi"] for c in case["pop"]["members"])


@st.composite
def _ops(draw):
    kinds = ["append", "insert", "extend", "extend_list", "set", "del", "pop", "slice", "add", "reverse", "remove",
             "bad", "params", "iadd", "copy", "index"]  # fmt: skip
    return [[draw(gen.choice(kinds)), draw(st.integers(-4, 4)), draw(st.integers(0, 3))]
            for _ in range(draw(st.integers(2, 10)))]  # fmt: skip


@law(st.fixed_dictionaries({"pop": _pop(1, 6), "ops": _ops()}), quick=2000, rule="at least two modifications")
def list_behaviour(case):
    from skfolio import Population

    pop, ms = _build(case["pop"])
    extra, ex = _build({"m": case["pop"]["m"], "members": case["pop"]["members"][:4]})
    model = list(ms)
    mods = 0
    for kind, at, pick in case["ops"]:
        p = ex[pick % len(ex)]
        match kind:
            case "append":
                pop.append(p)
                model.append(p)
            case "insert":
                pop.insert(at, p)
                model.insert(at, p)
            case "extend":
                pop.extend(Population(ex[:pick]))
                model.extend(ex[:pick])
            case "extend_list":
                pop.extend(ex[:pick])
                model.extend(ex[:pick])
            case "iadd":
                pop += Population(ex[:pick])
                model += ex[:pick]
            case "set":
                if -len(model) <= at < len(model):
                    pop[at] = p
                    model[at] = p
            case "del":
                if -len(model) <= at < len(model):
                    del pop[at]
                    del model[at]
            case "pop":
                if model:
                    a, b = pop.pop(), model.pop()
                    check(a is b, "pop")
            case "remove":
                # removal compares by fitness, as equality of portfolios does
                if model:
                    t = model[at % len(model)]
                    pop.remove(t)
                    model.remove(t)
            case "reverse":
                pop.reverse()
                model.reverse()
            case "slice":
                s = pop[at:]
                check(isinstance(s, Population) and _ids(s) == _ids(model[at:]), "slice")
                s = pop[::-1]
                check(isinstance(s, Population) and _ids(s) == _ids(model[::-1]), "slice")
            case "add":
                s = pop + Population(ex)
                check(isinstance(s, Population) and _ids(s) == _ids(model + ex), "concatenation")
                must_raise(lambda: pop + ex, TypeError, "adding a plain list")
            case "copy":
                s = Population(pop)
                check(_ids(s) == _ids(model), "copy")
            case "index":
                for t in model:
                    check(t in pop and pop.count(t) == model.count(t), "membership")
            case "bad":
                for f in (lambda: pop.append(1), lambda: pop.insert(0, "x"), lambda: pop.extend([p, None]),
                          lambda: Population([p, 2.0])):  # fmt: skip
                    must_raise(f, TypeError, "only portfolios are accepted")
                if model:
                    must_raise(lambda: pop.__setitem__(0, 5), TypeError, "only portfolios are accepted")
                # a refused extension may have added the valid head of the list
                if len(pop) == len(model) + 1:
                    model.append(p)
            case "params":
                if model:
                    par = [{"annualized_factor": 12.0}, {"cvar_beta": 0.75, "compounded": True},
                           {"tag": "new"}, {"risk_free_rate": 0.0002, "name": "same"}][pick]  # fmt: skip
                    others = [q for q in ex if id(q) not in _ids(model)]
                    keep = [(q.annualized_factor, q.cvar_beta, q.compounded, q.tag, q.risk_free_rate, q.name) for q in others]
                    for q in model:
                        _ = q.cvar, q.annualized_mean, q.max_drawdown, q.sharpe_ratio
                    r0 = [q.returns.tobytes() for q in model]
                    pop.set_portfolio_params(**par)
                    for q in model:
                        for k, v in par.items():
                            check(getattr(q, k) == v, f"{k} is set on every member")
                    check([q.returns.tobytes() for q in model] == r0, "returns are unchanged")
                    now = [(q.annualized_factor, q.cvar_beta, q.compounded, q.tag, q.risk_free_rate, q.name) for q in others]
                    check(now == keep, "a portfolio outside the population changed")
                    q = model[0]
                    for nm in ("cvar", "annualized_mean", "max_drawdown", "sharpe_ratio"):
                        ok = pf.measure_ok(nm, getattr(q, nm), q.returns, {
                            "cvar_beta": q.cvar_beta, "annualized_factor": q.annualized_factor,
                            "compounded": q.compounded, "risk_free_rate": q.risk_free_rate})  # fmt: skip
                        check(ok is not False, f"{nm} follows the new parameter")
                    must_raise(lambda: pop.set_portfolio_params(nope=1), ValueError, "unknown parameter")
        check(_ids(pop) == _ids(model), f"order after {kind}")
        check(isinstance(pop, Population), "still a population")
        if kind not in ("slice", "bad", "add", "copy", "index"):
            mods += 1
        note(kind)
    return mods >= 2


@law(st.lists(gen.choice(["a", "b", "a_1", "a_2", "b_1", "c", "a_1_1", "1"]), min_size=1, max_size=10),
     quick=2000, rule="at least one repeated name")  # fmt: skip
def unique_names(case):
    from skfolio.utils.tools import deduplicate_names

    out = deduplicate_names(list(case))
    check(len(out) == len(case) and len(set(out)) == len(case), "names are distinct", got=out)
    for a, b in zip(case, out, strict=True):
        check(b.startswith(a), "a name keeps its stem")
    if len(set(case)) == len(case):
        check(list(out) == list(case), "distinct names are kept")
    return len(set(case)) < len(case)
