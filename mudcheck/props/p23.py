"""P23: result tables."""
import copy
import re

import numpy as np
from hypothesis import strategies as st
from mud.examples.examples import print_res

from ..core import *  # noqa: F403

SUITE = Suite("P23", quick=2)

NAMES = ("N", "a", "mud_pt", "r", "t_start", "x y", "A", "ab")
text = st.one_of(st.sampled_from(["foo", "bar", "foobar", "Foo", "", "a.b", "a+b", "0", "1e3", "[1 2]", "fo"]),
                 st.text("abfoxyzAB01.*+-_() []", max_size=7).map(str.strip))
value = st.one_of(
    text, st.integers(-10**6, 10**6), st.floats(-1e4, 1e4), st.booleans(), st.none(),
    st.lists(st.integers(0, 9), min_size=1, max_size=3).map(lambda v: {"arr": v}),
)
PATTERNS = (".", "foo", "^foo", "o$", "a", "[ab]", "fo+", "a.b", r"a\.b", "^$", "^b|x$", "zzz", "", r"\d", "(?i)FOO", "a|1")


def real(v):
    return np.array(v["arr"]) if isinstance(v, dict) else v


def rows_of(table):
    out = []
    for line in table.split("\n"):
        if line.startswith("|"):
            out.append([c.strip() for c in line.strip("|").split("|")])
    return out


@SUITE.check(
    st.fixed_dictionaries(dict(
        rows=st.lists(st.tuples(text, st.lists(value, min_size=len(NAMES), max_size=len(NAMES))), max_size=8),
        fields=st.lists(st.sampled_from(NAMES), min_size=1, unique=True),
        search=st.sampled_from([None, "key", "key", "a"]), shown=st.booleans(),
        match=st.one_of(st.just("default"), st.sampled_from(PATTERNS)),
        fun=st.sampled_from(["none", "none", "copy", "upper", "rename", "inplace"]))),
    n=4000, rule="some rows are shown and some not, or a transformation is applied")
def tables(case):
    res = []
    for key, vals in case["rows"]:
        d = {n: real(v) for n, v in zip(NAMES, vals)}
        d["key"] = key
        if case["search"] == "a":
            d["a"] = key
        res.append(d)
    fields = list(case["fields"]) + (["key"] if case["shown"] else [])
    funs = {
        "none": None,
        "copy": lambda r: dict(r),
        "upper": lambda r: {**r, "key": r["key"].upper(), "a": r["a"].upper() if isinstance(r["a"], str) else r["a"]},
        "rename": lambda r: {**{k: r[k] for k in r}, "N": "n" + str(len(r["key"]))},
        "inplace": None,
    }
    fun = funs[case["fun"]]
    if case["fun"] == "inplace":
        def fun(r):
            r["key"] = r["key"] + "foo"
            return r
    kw = {}
    if case["search"] is not None:
        kw["search"] = case["search"]
    if case["match"] != "default":
        kw["match"] = case["match"]
    if fun is not None:
        kw["filter_fun"] = fun
    want, model = [], copy.deepcopy(res)
    pat = kw.get("match", ".")
    for d in model:
        if fun is not None:
            d = fun(d)
        if case["search"] is not None and not re.search(pat, d[case["search"]]):
            continue
        want.append([d[f] for f in fields])
    F = Frozen(fields=fields, res=res if case["fun"] != "inplace" else 0)
    with sut("print_res"):
        out = print_res(res, fields, **kw)
    F.verify("print_res")
    need(isinstance(out, str), f"result of type {type(out)}")
    rows = rows_of(out)
    need(rows and rows[0] == fields, f"columns {rows[:1]}, requested {fields}")
    need(len(rows) - 1 == len(want), f"{len(rows) - 1} rows, expected {len(want)}")
    for i, (got, w) in enumerate(zip(rows[1:], want)):
        need(len(got) == len(w), f"row {i} has {len(got)} cells")
        for c, v, f in zip(got, w, fields):
            if isinstance(v, float):
                try:
                    ok = abs(float(c) - v) <= 0.0051  # rounded to two decimals or not
                except ValueError:
                    ok = False
                need(ok, f"row {i}, {f}: {c!r} for {v!r}")
            else:
                need(c == str(v).strip(), f"row {i}, {f}: {c!r} for {v!r}")
    part = 0 < len(want) < len(res) or (fun is not None and len(want) > 0)
    return part, f"{'search' if case['search'] else 'all'}/{case['fun']}"


@SUITE.check(
    st.fixed_dictionaries(dict(keys=st.lists(text, max_size=8), match=st.sampled_from(PATTERNS), k=st.integers(0, 8))),
    n=600, rule="several results")
def parts(case):
    """The table of a concatenation has the rows of the parts."""
    res = [{"key": k, "i": i, "N": len(k)} for i, k in enumerate(case["keys"])]
    k = min(case["k"], len(res))
    with sut("print_res"):
        t = [rows_of(print_res(x, fields=["i", "key"], search="key", match=case["match"])) for x in (res, res[:k], res[k:])]
    need(t[0][1:] == t[1][1:] + t[2][1:], "rows of the parts")
    return len(res) > 1
