"""Filters on spectrum rows (pylibamazed/Filter.py, FilterLoader.py, Utils.py)."""
#@ quick: rows=3 filters=1 deadline=40
#@ quick: rows=2 filters=2 deadline=100
#@ thorough: rows=4 filters=1 deadline=120
#@ thorough: rows=3 filters=2 deadline=600
#@ thorough: rows=2 filters=3 lim=5 deadline=600
#@ cover: kept dropped in bitwise no-filter bad-instruction bad-key
#@ bounds: up to 4 rows with a symbolic real and two symbolic 4-bit flag columns; up to 3 filters, every documented instruction, symbolic filter values (lists of two for in / ~in)
#@ assumes: no NaN in the filtered column
import pandas as pd
import pysym
from pylibamazed.Exception import APIException
from pylibamazed.FilterLoader import ParamJsonFilterLoader
from pylibamazed.Filter import FilterList
from pylibamazed.Parameters import Parameters
from pylibamazed.redshift import ErrorCode

NUM = ["<", ">", "<=", ">=", "=", "!=", "in", "~in"]
BIT = ["&", "~&", "0&", "^", "~^"]


def oracle(ins, a, v):
    if ins == "<": return a < v
    if ins == ">": return a > v
    if ins == "<=": return a <= v
    if ins == ">=": return a >= v
    if ins == "=": return a == v
    if ins == "!=": return a != v
    if ins == "in": return bool(a == v[0]) or bool(a == v[1])
    if ins == "~in": return not (bool(a == v[0]) or bool(a == v[1]))
    if ins == "&": return (a & v) != 0
    if ins == "~&": return (a & v) == 0
    if ins == "0&": return bool(a == 0) or bool((a & v) != 0)
    if ins == "^": return (a ^ v) != 0
    if ins == "~^": return (a ^ v) == 0


def harness(S):
    pysym.integer_columns()
    n, nf = int(S.params.get("rows", 3)), int(S.params.get("filters", 1))
    x = [S.real("x%d" % i, -10, 10) for i in range(n)]
    q = [S.bits("q%d" % i, 4) for i in range(n)]
    r = [S.bits("r%d" % i, 4) for i in range(n)]
    rows = list(range(n))
    df = pd.DataFrame({"waves": rows, "x": pysym.column(x), "q": pysym.column(q), "r": pysym.column(r)})
    p = Parameters.__new__(Parameters)
    p.parameters = {}
    if nf == 1 and S.bool("noFilter"):
        kind = S.choice("none", ["absent", "null", "empty"])
        if kind != "absent":
            p.parameters["filters"] = None if kind == "null" else []
        fl = ParamJsonFilterLoader().get_filters(p)
        S.check((fl is None) == (kind != "empty"), "no filter list without filters")
        if fl is not None:
            S.check(list(fl.apply(df)["waves"]) == rows, "an empty filter list keeps all rows")
        S.cover("no-filter")
        return
    js, conds = [], []
    for f in range(nf):
        opts = NUM + BIT if not f or "lim" not in S.params else ["<", "0&", "~in", "~&", "!="][:int(S.params["lim"])]
        ins = S.choice("ins%d" % f, opts)
        if ins in BIT:
            col = S.choice("col%d" % f, ["q", "r"])
            v = S.bits("v%d" % f, 4)
            jv = v
            S.cover("bitwise")
        else:
            col = "x"
            if ins in ("in", "~in"):
                v = [S.real("v%d" % f, -10, 10), S.real("w%d" % f, -10, 10)]
                jv = list(v)
                S.cover("in")
            else:
                v = jv = S.real("v%d" % f, -10, 10)
        js.append({"key": col, "instruction": ins, "value": jv})
        conds.append((ins, {"x": x, "q": q, "r": r}[col], v))
    bad = S.choice("bad", ["", "instruction", "key"]) if nf == 1 else ""
    if bad == "instruction":
        js[-1]["instruction"] = S.choice("badIns", ["", "==", "not in", "<>", "|"])
    if bad == "key":
        js[-1]["key"] = S.choice("badKey", ["y", "X", "Q"])
    p.parameters["filters"] = js
    try:
        fl = ParamJsonFilterLoader().get_filters(p)
        out = fl.apply(df)
    except APIException as e:
        want = {"instruction": ErrorCode.INVALID_FILTER_INSTRUCTION, "key": ErrorCode.INVALID_FILTER_KEY}.get(bad)
        S.check(e.getErrorCode() == want, "filter refused: %s" % e)
        S.cover("bad-" + bad)
        return
    S.check(bad == "", "unknown filter key or instruction accepted")
    kept = list(out["waves"])
    want = [i for i in rows if all(bool(oracle(ins, a[i], v)) for ins, a, v in conds)]
    S.cover("kept" if kept else "dropped")
    S.check(kept == want, "rows kept by filters %s" % [c[0] for c in conds])
    S.check(list(out.columns) == ["waves", "x", "q", "r"], "columns kept")
    for name, vals in (("x", x), ("q", q), ("r", r)):
        for i, w in zip(kept, list(out[name])):
            S.check(w == vals[i], "the rows keep their values")
    S.check(list(df["waves"]) == rows, "input untouched")
    S.check(list(FilterList().items) == [], "a new filter list is empty")
    S.observe("kept", sum(1 << int(i) for i in kept))
