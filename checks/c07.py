"""C07 A multi-period portfolio is the concatenation of its parts."""

import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from harness import gen, pf, ref
from harness.core import Violation, check, close, law, must_raise, note

ASSUMPTIONS = ["at most 12 operations over a pool of 8 portfolios of 2-5 observations"]

READ = ["mean", "cvar", "max_drawdown", "sharpe_ratio", "annualized_variance", "worst_realization", "cdar",
        "cumulative_returns", "drawdowns", "fitness", "returns_df", "semi_deviation", "gini_mean_difference"]  # fmt: skip


@st.composite
def _case(draw):
    ops = []
    for _ in range(draw(st.integers(3, 12))):
        k = draw(gen.choice(["append", "append", "set", "del", "assign", "insert", "read", "read", "copy", "pickle",
                             "bad", "extend_assign", "slice", "fitness", "delslice", "caller", "getlist"]))  # fmt: skip
        ops.append([k, draw(st.integers(0, 7)), draw(st.integers(-4, 3)), draw(gen.choice(READ))])
    return {
        "k": draw(st.integers(1, 3)),
        "seed": draw(gen.seeds),
        "order": draw(gen.choice([True, True, False])),
        "start": draw(st.integers(0, 3)),
        "ops": ops,
        "dates": draw(st.booleans()),
        "compounded": draw(st.booleans()),
    }


def _pool(case):
    import pandas as pd
    from skfolio import Portfolio

    rng = gen.rng_of(case["seed"])
    pool = []
    day = 0
    for i in range(8):
        n = int(rng.integers(2, 6))
        idx = pd.bdate_range("2020-01-01", periods=200)[day : day + n] if case["dates"] else np.arange(day, day + n)
        # blocks 3 and 4 share their last and first day
        day += n - (1 if i == 3 else 0)
        X = pd.DataFrame(rng.normal(0, 0.02, (n, case["k"])), index=idx, columns=gen.names(case["k"]))
        w = rng.integers(-4, 8, case["k"]) / 8
        pool.append(Portfolio(X=X, weights=w, transaction_costs=0.001, name=f"q{i % 5}"))
    return pool


def _ordered(parts):
    return all(b.observations[0] > a.observations[-1] for a, b in zip(parts, parts[1:], strict=False))


def _verify(m, parts, case, reads=()):
    check(len(m) == len(parts), "length", got=len(m), exp=len(parts))
    check(all(a is b for a, b in zip(m.portfolios, parts, strict=True)), "held portfolios")
    check([id(p) for p in m] == [id(p) for p in parts], "iteration")
    exp = np.concatenate([p.returns for p in parts]) if parts else np.array([])
    check(np.array_equal(m.returns, exp), "returns are the concatenation", got=m.returns, exp=exp)
    obs = np.concatenate([p.observations for p in parts]) if parts else np.array([])
    check(np.array_equal(m.observations, obs), "observations are the concatenation")
    if not parts:
        return
    check(m.n_observations == len(exp), "number of observations")
    for i, p in enumerate(parts):
        check(m[i] is p and m[i - len(parts)] is p, "indexing")
    for name in reads:
        if name == "cumulative_returns":
            close(m.cumulative_returns, ref.cumulative(exp, case["compounded"]), "cumulative returns", 1e-9, 1e-12)
        elif name == "drawdowns":
            close(m.drawdowns, ref.drawdowns(exp, case["compounded"]), "drawdowns", 1e-9, 1e-12)
        elif name == "fitness":
            exp_f = [getattr(m, f.value) * (1 if f.is_perf or f.is_ratio else -1) for f in m.fitness_measures]
            check(np.array_equal(m.fitness, np.array(exp_f)), "fitness")
        elif name == "returns_df":
            check(np.array_equal(m.returns_df.to_numpy(), exp), "returns_df")
        else:
            ok = pf.measure_ok(name, getattr(m, name), exp, {"compounded": case["compounded"]})
            check(ok is not False, f"{name} of the concatenation", got=getattr(m, name),
                  exp=ref.measure(name, exp, compounded=case["compounded"]))  # fmt: skip


@law(_case(), quick=3000, rule="at least two successful modifications and a read between or after them")
def list_operations(case):
    from skfolio import MultiPeriodPortfolio, PerfMeasure, RiskMeasure

    pool = _pool(case)
    parts = pool[: case["start"]]
    m = MultiPeriodPortfolio(portfolios=list(parts), check_observations_order=case["order"],
                             compounded=case["compounded"], name="m", tag="t")  # fmt: skip
    frozen = []
    mods = reads = 0
    for kind, pi, at, what in case["ops"]:
        p = pool[pi]
        new = None
        op = None
        n = len(parts)
        match kind:
            case "append":
                new, op = [*parts, p], lambda: m.append(p)
            case "set":
                if -n <= at < n:
                    new = list(parts)
                    new[at] = p
                op = lambda: m.__setitem__(at, p)
            case "del":
                if -n <= at < n:
                    new = list(parts)
                    del new[at]
                op = lambda: m.__delitem__(at)
            case "delslice":
                new = list(parts)
                del new[at:]
                op = lambda: m.__delitem__(slice(at, None))
            case "assign":
                new = sorted({pi, (pi + 3) % 8, (pi + at) % 8})
                new = [pool[i] for i in (new if at else reversed(new))]
                given = list(new)
                op = lambda: setattr(m, "portfolios", given)
            case "insert" | "extend_assign":
                new = list(m.portfolios)
                if kind == "insert":
                    new.insert(at, p)
                else:
                    new.extend([p])
                given = list(new)
                op = lambda: setattr(m, "portfolios", given)
            case "bad":
                for f in (lambda: m.append(1), lambda: m.append(None), lambda: setattr(m, "portfolios", [p, "x"])):
                    must_raise(f, TypeError, "something that is not a portfolio")
                if parts:
                    must_raise(lambda: m.__setitem__(0, 3.0), TypeError, "something that is not a portfolio")
                check(3 not in m, "membership")
            case "slice":
                check([id(q) for q in m[at:]] == [id(q) for q in parts[at:]], "slice")
                check([id(q) for q in m[::-1]] == [id(q) for q in parts[::-1]], "slice")
            case "copy" | "pickle":
                q = {"copy": m.copy, "pickle": lambda: copy.copy(m)}[kind]()
                frozen.append((m, list(parts)))
                m = q
                if kind == "pickle" and parts:
                    r = pickle.loads(pickle.dumps(m))
                    check(len(r) == len(parts) and np.array_equal(r.returns, m.returns), "pickled copy")
                    check(all(np.array_equal(a.weights, b.weights) and a.name == b.name
                              for a, b in zip(r, parts, strict=True)), "pickled parts")  # fmt: skip
                    check(r.compounded == case["compounded"] and r.name == "m" and r.tag == "t", "pickled parameters")
            case "caller":
                # the caller's own list is not the portfolio's list
                mine = list(parts)
                try:
                    m.portfolios = mine
                except ValueError:
                    raise Violation("reassigning the held portfolios was refused") from None
                mine.append(p)
            case "getlist":
                check(p in m or all(not np.array_equal(p.fitness, q.fitness) for q in parts), "membership")
            case "fitness":
                m.fitness_measures = [PerfMeasure.MEAN, RiskMeasure.CDAR]
            case "read":
                if parts:
                    _verify(m, parts, case, [what])
                    reads += 1
        if op is not None:
            legal = new is not None and (not case["order"] or _ordered(new))
            if kind in ("del", "delslice") and new is not None:
                legal = True
            try:
                op()
                done = True
            except (ValueError, TypeError, IndexError) as e:
                done, err = False, e
            if legal and not done:
                raise Violation(f"{kind} was refused although legal: {err!r}")
            if done and not legal:
                raise Violation(f"{kind} that breaks the time order or the index range was accepted")
            if done:
                parts = new
                mods += 1
            else:
                note("refused")
        _verify(m, parts, case)
        note(kind)
    for o, held in frozen:
        _verify(o, held, case, ["mean", "cdar", "fitness"] if held else [])
    if parts:
        _verify(m, parts, case, READ)
        comp = m.composition
        check(comp.shape[1] == len(parts), "one composition column per period")
        for j, p in enumerate(parts):
            for a, w in zip(p.assets, p.weights, strict=True):
                got = comp.iloc[comp.index.get_loc(a), j] if a in comp.index else 0.0
                check(got == (w if abs(w) > 1e-5 else 0.0), "composition of the period")
        check(len(set(comp.columns)) == len(parts), "composition column names are distinct")
        check(m.assets == [*[p.assets for p in parts]] or all(
            np.array_equal(a, p.assets) for a, p in zip(m.assets, parts, strict=True)), "assets")  # fmt: skip
        s = m.summary(formatted=False)
        check(s["Portfolios Number"] == len(parts), "portfolios number")
        close(s["Avg nb of Assets per Portfolio"], np.mean([p.n_assets for p in parts]), "average number of assets")
        close(s["Mean"], float(np.mean(m.returns)), "summary mean", 1e-9, 1e-15)
        if case["order"]:
            wpo = m.weights_per_observation
            check(len(wpo) == len(m.observations), "weights per observation")
            row = 0
            for p in parts:
                for _ in range(p.n_observations):
                    for a, w in zip(p.assets, p.weights, strict=True):
                        got = wpo.iloc[row][a] if a in wpo.columns else 0.0
                        check(got == (w if abs(w) > 1e-5 else 0.0), "weights per observation of the period")
                    row += 1
        con = m.contribution(measure=RiskMeasure.STANDARD_DEVIATION, to_df=False)
        check(len(con) == len(parts), "contribution per period")
        for a, p in zip(con, parts, strict=True):
            check(np.array_equal(a, p.contribution(measure=RiskMeasure.STANDARD_DEVIATION), equal_nan=True), "contribution of the period")
        df = m.contribution(measure=RiskMeasure.STANDARD_DEVIATION, to_df=True)
        check(df.shape[1] == len(parts) and len(set(df.columns)) == len(parts), "contribution table columns")
        for j, (v, p) in enumerate(zip(con, parts, strict=True)):
            for a, w, x in zip(p.assets, p.weights, v, strict=True):
                got = df.loc[a].iloc[j] if a in df.index else 0.0
                exp = x if abs(w) > 1e-5 else 0.0
                check(np.isclose(got, exp, rtol=1e-9, atol=1e-18, equal_nan=True), "contribution table of the period")
    return mods >= 2 and (reads > 0 or bool(parts))


@law(
    st.fixed_dictionaries({"m": gen.mat(8, 24, 1, 3), "cuts": st.lists(st.integers(1, 23), min_size=1, max_size=4),
                           "params": pf.params(), "rolling": st.integers(2, 6)}),
    quick=500, rule="at least two periods",
)  # fmt: skip
def same_as_one(case):
    """Splitting one portfolio in periods changes no figure."""
    from skfolio import MultiPeriodPortfolio, Portfolio, RiskMeasure

    X = gen.frame(case["m"])
    k = case["m"]["k"]
    w = np.round(gen.simplex(case["m"]["seed"], k)[0], 4)
    cuts = sorted({c for c in case["cuts"] if c < len(X)})
    bounds = [0, *cuts, len(X)]
    one = Portfolio(X=X, weights=w, **case["params"])
    m = MultiPeriodPortfolio(**case["params"])
    for a, b in zip(bounds, bounds[1:], strict=False):
        m.append(Portfolio(X=X.iloc[a:b], weights=w))
    close(m.returns, one.returns, "returns", 1e-12, 1e-16)
    for n in pf.NAMES:
        a, b = getattr(m, n), getattr(one, n)
        ok = pf.measure_ok(n, a, one.returns, case["params"])
        check(ok is not False, f"{n} of the split portfolio", got=a, exp=b)
    ra = m.rolling_measure(measure=RiskMeasure.STANDARD_DEVIATION, window=case["rolling"])
    rb = one.rolling_measure(measure=RiskMeasure.STANDARD_DEVIATION, window=case["rolling"])
    check(ra.index.equals(rb.index), "rolling index")
    close(ra.to_numpy(), rb.to_numpy(), "rolling measure", 1e-7, 1e-14)
    return len(bounds) > 2
