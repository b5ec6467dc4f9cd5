"""C10 Constraint strings mean what they say."""

import warnings
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Violation, check, close, law, must_raise, note

ASSUMPTIONS = [
    "names contain no operator characters and are not numbers",
    "an unknown name directly after 'number *' may raise even when missing groups only warn",
]

ASSETS = ["SPX", "SX5E", "NKY", "TLT", "Gold", "Oil"]
LEVELS = [["Equity", "Bond", "Cash"], ["US", "Europe", "Japan"], ["high vol", "low_vol", "x2"]]
CMP = ["<=", ">=", "==", "="]
NUMS = ["1", "2", "0.5", ".25", "3.0", "0", "1.5", "1e1", "10", "0.125"]


@st.composite
def _groups(draw):
    k = draw(st.integers(1, 6))
    rows = [ASSETS[:k]]
    for lv in LEVELS[: draw(st.integers(0, 3))]:
        rows.append([draw(gen.choice(lv)) for _ in range(k)])
    if len(rows) > 1 and draw(gen.choice([False, False, True])):
        rows = rows[1:]
    return rows


@st.composite
def _side(draw, names):
    toks = []
    for i in range(draw(st.integers(1, 4))):
        if i or draw(gen.choice([False, False, True])):
            toks.append(draw(gen.choice(["+", "-"])))
        form = draw(gen.choice(["grp", "grp", "num*grp", "grp*num", "num"]))
        n, g = draw(gen.choice(NUMS)), draw(gen.choice(names))
        toks += {"grp": [g], "num": [n], "num*grp": [n, "*", g], "grp*num": [g, "*", n]}[form]
    return toks


@st.composite
def _equation(draw, names):
    a, b = draw(_side(names)), draw(_side(names))
    return {"t": [*a, draw(gen.choice(CMP)), *b], "sp": draw(st.integers(0, 2**16))}


def _text(eq):
    """Tokens to string, with irregular but harmless spacing."""
    ops = {"+", "-", "*", *CMP, "<", ">"}
    out = ""
    sp = eq["sp"]
    for i, t in enumerate(eq["t"]):
        if i:
            prev = eq["t"][i - 1]
            both = (prev in ops) == (t in ops)
            pad = " " * (sp >> (2 * i % 16) & 1) if not both else " "
            out += pad
        out += t
    return out + " " * (sp & 1)


def _parse(toks, names):
    """Own reading of the grammar. Returns (coef per name, constant, op) meaning
    sum coef*name + constant (op) 0, or None when malformed, or 'unknown'."""
    cmps = [i for i, t in enumerate(toks) if t in CMP]
    unknown = False

    def is_num(t):
        return t in NUMS

    def side(ts):
        nonlocal unknown
        coef, const = {}, Fraction(0)
        i = 0
        first = True
        while i < len(ts):
            sign = 1
            if ts[i] in "+-":
                sign = 1 if ts[i] == "+" else -1
                i += 1
            elif not first:
                return None
            first = False
            run = []
            while i < len(ts) and ts[i] not in ("+", "-"):
                run.append(ts[i])
                i += 1
            if len(run) == 1 and run[0] not in ("*", "<", ">"):
                if is_num(run[0]):
                    const += sign * Fraction(float(run[0]))
                elif run[0] in names:
                    coef[run[0]] = coef.get(run[0], 0) + sign
                else:
                    unknown = True
            elif len(run) == 3 and run[1] == "*" and not {run[0], run[2]} & {"*", "<", ">"}:
                if is_num(run[0]) == is_num(run[2]):
                    return None
                n, g = (run[0], run[2]) if is_num(run[0]) else (run[2], run[0])
                if g not in names:
                    unknown = True
                else:
                    coef[g] = coef.get(g, 0) + sign * Fraction(float(n))
            else:
                return None
        if first:
            return None
        return coef, const

    if len(cmps) != 1:
        return None
    left, right = side(toks[: cmps[0]]), side(toks[cmps[0] + 1 :])
    if left is None or right is None:
        return None
    if unknown:
        return "unknown"
    coef = dict(left[0])
    for k, v in right[0].items():
        coef[k] = coef.get(k, 0) - v
    return coef, left[1] - right[1], toks[cmps[0]]


def _meaning(parsed, groups, sum_to_one):
    """Exact asset-wise row: row @ w + const (op) 0."""
    coef, const, op = parsed
    k = len(groups[0])
    row = [Fraction(0)] * k
    for g, c in coef.items():
        member = [any(r[j] == g for r in groups) for j in range(k)]
        size = sum(member) if sum_to_one else 1
        for j in range(k):
            if member[j]:
                row[j] += Fraction(c) / size
    if op == ">=":
        return [-r for r in row], -const, "<="
    return row, const, "<=" if op == "<=" else "=="


def _same(left, right, row, const, op, text):
    """The matrix row accepts exactly the weights the equation accepts."""
    r = np.array([float(v) for v in row])
    b = -float(const)
    full_e = np.append(r, b)
    full_g = np.append(np.asarray(left, float), float(right))
    check(np.all(np.isfinite(full_g)), "finite row")
    ne, ng = np.abs(full_e).max(), np.abs(full_g).max()
    if not np.any(r):
        check(np.allclose(left, 0, atol=1e-12), "no asset is involved", text=text)
        truth = (0 <= b + 1e-12) if op == "<=" else abs(b) < 1e-12
        got = (0 <= right + 1e-12) if op == "<=" else abs(right) < 1e-12
        check(truth == got, "constant equation", text=text)
        return
    check(ng > 0, "the row is empty", text=text)
    i = int(np.argmax(np.abs(full_e)))
    check(full_g[i] != 0, "row", text=text, got=full_g, exp=full_e)
    f = full_g[i] / full_e[i]
    check(f > 0 or op == "==", "direction of the inequality", text=text, got=full_g, exp=full_e)
    if not np.allclose(full_g, f * full_e, rtol=1e-9, atol=1e-12 * abs(f) * ne):
        raise Violation(f"'{text}' became row {full_g.tolist()} but means {full_e.tolist()}")


@st.composite
def _well_formed(draw):
    groups = draw(_groups())
    names = sorted({n for r in groups for n in r})
    return {
        "groups": groups,
        "eqs": draw(st.lists(_equation(names), min_size=1, max_size=4)),
        "one": draw(gen.choice([False, False, True])),
        "raise": draw(st.booleans()),
        "array": draw(st.booleans()),
    }


def _run(groups, texts, one=False, raise_=False, array=True):
    from skfolio.utils.equations import equations_to_matrix

    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        out = equations_to_matrix(
            groups=np.array(groups) if array else groups,
            equations=np.array(texts) if array else texts,
            sum_to_one=one,
            raise_if_group_missing=raise_,
        )
    return out, rec


@law(_well_formed(), quick=4000, rule="an equation with a group of two or more assets or terms on both sides")
def well_formed(case):
    names = {n for r in case["groups"] for n in r}
    texts = [_text(e) for e in case["eqs"]]
    (ae, be, ai, bi), rec = _run(case["groups"], texts, case["one"], case["raise"], case["array"])
    exp_e, exp_i = [], []
    for e, t in zip(case["eqs"], texts, strict=True):
        row, const, op = _meaning(_parse(e["t"], names), case["groups"], case["one"])
        (exp_i if op == "<=" else exp_e).append((row, const, op, t))
    check(len(ae) == len(be) == len(exp_e), "number of equalities", got=len(ae), exp=len(exp_e))
    check(len(ai) == len(bi) == len(exp_i), "number of inequalities", got=len(ai), exp=len(exp_i))
    for a, b, ex in zip(ae, be, exp_e, strict=True):
        _same(a, b, *ex)
    for a, b, ex in zip(ai, bi, exp_i, strict=True):
        _same(a, b, *ex)
    check(not rec, "no warning for a well-formed equation")
    for e in case["eqs"]:
        note(next(t for t in e["t"] if t in CMP))
    if any("high vol" in t for t in texts):
        note("name with a space")
    return any(len(e["t"]) > 3 for e in case["eqs"])


@st.composite
def _mutated(draw):
    groups = draw(_groups())
    names = sorted({n for r in groups for n in r})
    eq = draw(_equation(names))
    t = list(eq["t"])
    for _ in range(draw(st.integers(1, 2))):
        kind = draw(gen.choice(["drop", "dup", "insert", "swap", "replace", "unknown"]))
        if not t:
            break
        i = draw(st.integers(0, len(t) - 1))
        tok = draw(gen.choice(["+", "-", "*", "<=", ">=", "==", "=", "<", ">", "2", names[0], "nope"]))
        if kind == "drop":
            del t[i]
        elif kind == "dup":
            t.insert(i, t[i])
        elif kind == "insert":
            t.insert(i, tok)
        elif kind == "swap" and i + 1 < len(t):
            t[i], t[i + 1] = t[i + 1], t[i]
        elif kind == "replace":
            t[i] = tok
        elif kind == "unknown":
            ix = [j for j, x in enumerate(t) if x in names]
            if ix:
                t[ix[i % len(ix)]] = draw(gen.choice(["nope", "equity", "SPX2", "US Europe"]))
    return {"groups": groups, "eq": {"t": t, "sp": eq["sp"]}, "raise": draw(st.booleans())}


@law(_mutated(), quick=5000, rule="the string is malformed or names something unknown")
def malformed(case):
    from skfolio.exceptions import EquationToMatrixError, GroupNotFoundError

    names = {n for r in case["groups"] for n in r}
    text = _text(case["eq"])
    toks = case["eq"]["t"]
    parsed = _parse(toks, names)
    good = f"{case['groups'][0][0]} <= 1"
    try:
        (ae, be, ai, bi), rec = _run(case["groups"], [text, good], False, case["raise"])
        err = None
    except Exception as e:
        err = e
    if parsed is None or parsed == "unknown":
        note("malformed" if parsed is None else "unknown name")
        if err is not None:
            check(isinstance(err, EquationToMatrixError | GroupNotFoundError), "kind of error", text=text, err=repr(err))
            if parsed == "unknown" and not case["raise"]:
                # documented to warn only, except directly after 'number *'
                after = any(toks[i - 1] == "*" for i in range(1, len(toks)) if toks[i] not in names)
                check(after, "an unknown name should only warn", text=text, err=repr(err))
            return True
        check(not case["raise"] or parsed is None, "an unknown name should raise", text=text)
        # ignored with a warning: no row besides the well-formed equation's
        check(len(ae) == 0 and len(ai) == 1, "a malformed string was silently converted", text=text, ae=ae, ai=ai, bi=bi)
        check(len(rec) >= 1, "ignored without a warning", text=text)
        return True
    if err is not None:
        raise Violation(f"well-formed '{text}' was refused: {err!r}")
    row, const, op = _meaning(parsed, case["groups"], False)
    if op == "<=":
        check(len(ai) == 2 and len(ae) == 0, "one row per equation", text=text)
        _same(ai[0], bi[0], row, const, op, text)
    else:
        check(len(ai) == 1 and len(ae) == 1, "one row per equation", text=text)
        _same(ae[0], be[0], row, const, op, text)
    note("still well-formed")
    return False


@st.composite
def _cards(draw):
    groups = draw(_groups())
    names = sorted({n for r in groups for n in r})
    return {
        "groups": groups,
        "cards": [[draw(gen.choice(names)), draw(st.integers(0, 6))] for _ in range(draw(st.integers(1, 4)))],
        "missing": draw(gen.choice([False, False, True])),
        "dup": draw(gen.choice([False, False, True])),
    }


@law(_cards(), quick=1500, rule="a group of two or more assets")
def cardinalities(case):
    from skfolio.exceptions import DuplicateGroupsError, EquationToMatrixError, GroupNotFoundError
    from skfolio.utils.equations import equations_to_matrix, group_cardinalities_to_matrix

    g = case["groups"]
    cards = dict(case["cards"])
    if case["dup"] and len(g) > 1:
        bad = [list(r) for r in g]
        bad[-1][-1] = bad[0][0]
        for f in (lambda: group_cardinalities_to_matrix(groups=bad, group_cardinalities=cards),
                  lambda: equations_to_matrix(groups=bad, equations=[f"{bad[0][0]} <= 1"])):  # fmt: skip
            must_raise(f, DuplicateGroupsError, "a name at two levels")
        note("duplicate level")
    if case["missing"]:
        more = {"nope": 1, **cards} if len(cards) % 2 else {**cards, "nope": 1}
        must_raise(lambda: group_cardinalities_to_matrix(groups=g, group_cardinalities=more, raise_if_group_missing=True),
                   (GroupNotFoundError, EquationToMatrixError), "missing group")  # fmt: skip
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            a, b = group_cardinalities_to_matrix(groups=g, group_cardinalities=more, raise_if_group_missing=False)
        check(any("nope" in str(r.message) for r in rec), "a missing group is reported by a warning")
        a0, b0 = group_cardinalities_to_matrix(groups=g, group_cardinalities=cards)
        check(np.array_equal(a, a0) and np.array_equal(b, b0), "a missing group is ignored", a=a, b=b)
        note("missing")
    a, b = group_cardinalities_to_matrix(groups=g, group_cardinalities=cards)
    check(len(a) == len(b) == len(cards), "one row per group")
    for row, lim, (name, card) in zip(a, b, cards.items(), strict=True):
        member = [1.0 if any(r[j] == name for r in g) else 0.0 for j in range(len(g[0]))]
        close(row, member, f"membership of {name}")
        check(lim == card, "cardinality limit")
    must_raise(lambda: equations_to_matrix(groups=g[0], equations=["SPX <= 1"]), ValueError, "groups must be 2D")
    return any(sum(any(r[j] == n for r in g) for j in range(len(g[0]))) > 1 for n in cards)
