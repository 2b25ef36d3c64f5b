"""P09: weighted mean error in all its forms."""
import numpy as np
from hypothesis import strategies as st
from mud.base import LinearGaussianProblem, LinearWMEProblem
from mud.funs import wme
from mud.util import transform_linear_map, transform_linear_setup

from ..core import *  # noqa: F403
from ..linear import cov

SUITE = Suite("P09", quick=4)


def ref(P, d, sd):
    """Written per sample and datum."""
    P = np.atleast_2d(np.asarray(P, float))
    d = np.ravel(np.asarray(d, float))
    n = len(d)
    s = np.broadcast_to(np.asarray(sd, float), (n,))
    out = np.zeros(len(P))
    for i in range(len(P)):
        t = 0.0
        for j in range(n):
            t += (P[i, j] - d[j]) / s[j]
        out[i] = t / n**0.5
    return out


def mag(P, d, sd):
    d = np.ravel(np.asarray(d, float))
    e = np.abs(np.atleast_2d(P)).max() + np.abs(d).max()
    return e / np.min(np.asarray(sd, float)) * np.sqrt(len(d))


def noise(r, kind, n):
    v = r.uniform(0.05, 3.0, n)
    if kind == "float":
        return float(v[0])
    if kind == "int":
        return int(r.integers(1, 4))
    if kind == "npfloat":
        return np.float64(v[0])
    if kind == "float32":
        return np.float32(0.375)
    if kind == "npint":
        return np.int64(v[0] + 1)
    if kind == "tiny":
        return 1e-6
    if kind == "list":
        return v.tolist()
    if kind in ("tinylist", "tinyarray"):
        v = v * 1e-10
        return v.tolist() if kind == "tinylist" else v
    if kind in ("ints", "intlist"):
        v = r.integers(1, 5, n)
        return v.tolist() if kind == "intlist" else v
    if kind == "tuple":
        return tuple(v.tolist())
    return v


@SUITE.check(
    st.fixed_dictionaries(dict(
        seed=seeds, N=upto(1, 40, 150, 1000, 5000), n=upto(1, 8, 30, 64, 120, 800, 3000), style=styles,
        sd=st.sampled_from(["none", "float", "int", "npfloat", "float32", "npint", "tiny", "array", "tinyarray"]),
        dform=st.sampled_from(["flat", "col", "row", "list", "ints"]), flatp=st.booleans(), lay=layouts,
        num=st.sampled_from(["float", "float", "unit", "signed", "unsigned"]))),
    n=2500, rule="several data")
def samples(case):
    r = rng(case)
    n = case["n"]
    N = case["N"] = min(case["N"], 1 + 300000 // n)
    P = numbers(r, (N, n), case["style"])
    d = numbers(r, n, case["style"])
    k = case["num"]
    if k in ("signed", "unsigned"):
        both = whole(np.vstack([P, d]), k)
        P, d = both[:-1], both[-1]
    if case["dform"] == "ints":
        d = np.rint(d * 3) if np.abs(d).max() < 40 else np.rint(d)
    u = 1.0
    if k == "unit" and case["sd"] in ("none", "float", "npfloat", "array"):
        u = 10.0 ** int(r.integers(-9, 10))
        P, d = P * u, d * u
    if case["sd"] == "none":
        if n < 2:
            return False
        if np.ptp(d) == 0:
            d = d.copy()
            d[0] += u
        sd, s = None, np.sqrt(np.mean((d - d.mean()) ** 2))
    else:
        sd = s = noise(r, case["sd"], n)
        if u != 1.0:
            sd = s = sd * u
    if k in ("signed", "unsigned"):
        P, d = narrow(P), narrow(d)
    elif case["dform"] == "ints" and k == "float":
        d = d.astype(int)
    form = {"flat": d, "ints": d, "col": d.reshape(-1, 1), "row": d.reshape(1, -1), "list": d.tolist()}[case["dform"]]
    Pa = layout(P, case["lay"])
    P, d = P.astype(float), d.astype(float)
    if N == 1 and case["flatp"]:
        Pa = Pa[0]
    with sut("wme"):
        got = wme(Pa, form) if sd is None else wme(Pa, form, sd)
        got2 = wme(Pa, form, sd=sd)
    need(np.shape(got) == (N,), f"wme: shape {np.shape(got)} for {N} samples")
    tol = 1e-5 if isinstance(sd, np.float32) else 1e-9  # single precision noise
    vclose(got, ref(P, d, s), "wme", tol, 0, scale=mag(P, d, s))
    same(got2, got, "wme with keyword")
    return n > 1, case["dform"]


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, N=st.integers(1, 10), n=st.integers(1, 10),
                               delta=st.sampled_from([-2, -1, 1, 2, 10]), form=st.sampled_from(["flat", "col", "list"]),
                               sd=st.booleans(), flatp=st.booleans())),
    n=300, rule="every case")
def length_mismatch(case):
    r = rng(case)
    n = case["n"]
    m = n + case["delta"]
    if m < 1:
        m = n + 1
    P = r.standard_normal((case["N"], n))
    if case["flatp"]:
        P = P[0]
    d = r.standard_normal(m)
    d = {"flat": d, "col": d.reshape(-1, 1), "list": d.tolist()}[case["form"]]
    raises(lambda: wme(P, d, 0.5) if case["sd"] else wme(P, d), (ValueError,), f"wme of {n} predictions and {m} data")
    return True


OUT = dict(n=upto(1, 12, 40, 100, 300), rep=st.booleans(), sd=st.sampled_from(
    ["float", "int", "npfloat", "float32", "npint", "tiny", "list", "tuple", "array", "tinylist", "tinyarray", "ints", "intlist"]), dform=st.sampled_from(["flat", "col", "row", "list"]),
    num=st.sampled_from(["float", "float", "ints", "narrow"]), lay=layouts)


def output(r, o, p, style):
    """Operator, data as passed, noise, and the reference rows and data."""
    n = o["n"]
    M = numbers(r, (1 if o["rep"] else n, p), style)
    d = numbers(r, n, style)
    kind = o["sd"]
    if o["rep"] or n == 1:  # one row stands for repeated measurements
        kind = kind if kind in ("float", "int", "npfloat", "float32", "npint", "tiny") else "float"
    sd = noise(r, kind, n)
    rows = np.repeat(M, n, axis=0) if len(M) == 1 else M
    da = d
    if o["num"] != "float":
        M, d = (np.rint(x * 3) if np.abs(x).max() < 40 else np.rint(x) for x in (M, d))
        rows = np.repeat(M, n, axis=0) if len(M) == 1 else M
        M, da = (narrow(x) if o["num"] == "narrow" else x.astype(int) for x in (M, d))
    M = layout(M, o["lay"])
    form = {"flat": da, "col": da.reshape(-1, 1), "row": da.reshape(1, -1), "list": da.tolist()}[o["dform"]]
    return M, form, sd, rows, d


def check_map(A, b, rows, d, sd, p, r, what):
    A, b = np.asarray(A, float), np.asarray(b, float)
    need(A.size == p and b.size == 1, f"{what}: sizes {A.shape} and {b.shape}")
    X = np.vstack([np.zeros(p), r.standard_normal((6, p)), 100 * r.standard_normal((2, p))])
    got = X @ A.ravel() + float(b.ravel()[0])
    P = X @ rows.T
    tol = 1e-5 if isinstance(sd, np.float32) else 1e-9  # single precision noise, single precision map
    # rounding is relative to the terms of the sums, which may cancel
    vclose(got, ref(P, d, sd), what, tol, 0, scale=mag(np.abs(X) @ np.abs(rows).T, d, sd))


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, p=upto(1, 6, 10, 20), style=styles, **OUT)),
    n=2500, rule="several measurements")
def one_output(case):
    r = rng(case)
    M, form, sd, rows, d = output(r, case, case["p"], case["style"])
    with sut("transform_linear_map"):
        A, b = transform_linear_map(M, form, sd)
    check_map(A, b, rows, d, sd, case["p"], r, "transform_linear_map")
    with sut("LinearWMEProblem"):
        L = LinearWMEProblem([M], [form], [sd])
    need(np.shape(L.A) == (1, case["p"]) and np.shape(L.b) == (1, 1), f"shapes {np.shape(L.A)} {np.shape(L.b)}")
    check_map(L.A, L.b, rows, d, sd, case["p"], r, "LinearWMEProblem")
    if len(M) == 1 and case["n"] > 1:  # repeated measurements: same as listing the row
        with sut("transform_linear_map of listed rows"):
            A2, b2 = transform_linear_map(rows, form, float(sd))
        check_map(A2, b2, rows, d, sd, case["p"], r, "listed rows")
    return case["n"] > 1, ("rep/" if case["rep"] else "rows/") + case["sd"]


@SUITE.check(
    st.fixed_dictionaries(dict(
        seed=seeds, p=upto(1, 6, 10, 20), style=st.sampled_from(["normal", "grid", "uniform", "offset"]),
        outs=st.lists(st.fixed_dictionaries(OUT), min_size=1, max_size=5),
        common=st.sampled_from(["no", "no", "no", "float", "int", "float32", "npint"]), cov=st.sampled_from(["none", "full"]),
        y=st.booleans(), mean=st.booleans(), alpha=st.sampled_from([1.0, 0.1, 5.0]), lists=st.booleans())),
    n=1500, rule="several outputs")
def several_outputs(case):
    r = rng(case)
    p = case["p"]
    outs = [output(r, o, p, case["style"]) for o in case["outs"]]
    q = len(outs)
    ops, data, sds = [o[0] for o in outs], [o[1] for o in outs], [o[2] for o in outs]
    if case["common"] != "no":
        s = {"float": 0.5, "int": 2, "float32": np.float32(0.5), "npint": np.int64(2)}[case["common"]]
        arg, sds = s, [s] * q
    else:
        arg = sds
    with sut("transform_linear_setup"):
        A, b = transform_linear_setup(ops, data, arg)
    need(np.shape(A) == (q, p) and np.shape(b) == (q, 1), f"shapes {np.shape(A)} {np.shape(b)}")
    mean = r.standard_normal(p) if case["mean"] else None
    C = cov(r, p, case["cov"])
    y = r.standard_normal(q) if case["y"] else None
    with sut("LinearWMEProblem"):
        L = LinearWMEProblem(ops, data, arg, y=y, mean_i=mean, cov_i=C, alpha=case["alpha"])
    need(np.shape(L.A) == (q, p) and np.shape(L.b) == (q, 1), f"shapes {np.shape(L.A)} {np.shape(L.b)}")
    for i, (o, s) in enumerate(zip(outs, sds)):
        check_map(A[i], b[i], o[3], o[4], s, p, r, f"transform_linear_setup row {i}")
        check_map(L.A[i], L.b[i], o[3], o[4], s, p, r, f"LinearWMEProblem row {i}")
    # the problem solved is the one with these rows
    sv = np.linalg.svd(L.A, compute_uv=False)
    if q <= p and sv[-1] > 1e-3 * sv[0] and sv[0] > 0:
        with sut("solve"):
            x = L.solve("mud")
            G = LinearGaussianProblem(np.array(L.A), b=np.array(L.b), y=y, mean_i=mean, cov_i=C, alpha=case["alpha"])
            vclose(x, G.solve("mud"), "mud", 1e-9, 1e-12)
            if np.abs(L.A).max() < 1e5:  # precisions have an inverse in doubles
                vclose(L.solve("map"), G.solve("map"), "map", 1e-9, 1e-12)
        x = np.asarray(x).ravel()
        for i, (o, s) in enumerate(zip(outs, sds)):
            P = (o[3] @ x).reshape(1, -1)
            vclose(ref(P, o[4], s), [0.0 if y is None else y[i]], "weighted mean error at the solution",
                   1e-5 if isinstance(s, np.float32) else 1e-6, 1e-6, scale=mag(np.abs(o[3]) @ np.abs(x), o[4], s))
    return q > 1, f"{q} outputs"


@SUITE.check(
    st.fixed_dictionaries(dict(
        seed=seeds, p=st.integers(1, 4), n=upto(2, 8, 30), rep=st.booleans(), listed=st.booleans(),
        bad=st.sampled_from(["zero", "one-zero", "below", "per-measurement", "rows", "std-length", "data-length",
                             "lists"]),
        q=st.integers(1, 3), at=st.integers(0, 2), form=st.sampled_from(["map", "setup", "problem"]))),
    n=800, rule="every case")
def refusals(case):
    r = rng(case)
    n, p, bad = case["n"], case["p"], case["bad"]
    M = r.standard_normal((n, p))
    d, sd = r.standard_normal(n), 0.5
    if bad in ("zero", "below"):
        sd = 0.0 if bad == "zero" else 1e-15
        if case["rep"]:
            M = M[:1]
        elif case["listed"]:
            sd = [sd] * n
    elif bad == "one-zero":
        sd = r.uniform(0.5, 1, n)
        sd[int(r.integers(n))] = 0
        sd = sd.tolist() if case["listed"] else sd
    elif bad == "per-measurement":
        M = M[:1]
        sd = r.uniform(0.5, 1, n)
        sd = sd.tolist() if case["listed"] else sd
    elif bad == "rows":
        M = r.standard_normal((n + 1 + case["at"], p))
    elif bad == "std-length":
        sd = r.uniform(0.5, 1, n + 1 + case["at"] if case["rep"] else n - 1 if n > 2 else n + 1).tolist()
    elif bad == "data-length":
        d = r.standard_normal(n + 1 + case["at"])
    ops = [r.standard_normal((3, p)) for _ in range(case["q"])]
    dat = [r.standard_normal(3) for _ in range(case["q"])]
    sds = [0.7] * case["q"]
    k = min(case["at"], case["q"])
    ops.insert(k, M)
    dat.insert(k, d)
    sds.insert(k, sd)
    exc = (ValueError, AssertionError)
    if bad == "lists":  # one output too many or too few in one of the lists
        which = int(r.integers(5))
        ops[k], dat[k], sds[k] = ops[k - 1], dat[k - 1], sds[k - 1]
        if which < 3:
            del (ops, dat, sds)[which][k]
        else:
            v = (ops, dat)[which - 3]
            v.insert(k, v[0])
        if case["form"] == "map":
            case["form"] = "setup"
    if case["form"] == "map":
        raises(lambda: transform_linear_map(M, d, sd), exc, f"transform_linear_map: {bad}")
    elif case["form"] == "setup":
        raises(lambda: transform_linear_setup(ops, dat, sds), exc, f"transform_linear_setup: {bad}")
    else:
        raises(lambda: LinearWMEProblem(ops, dat, sds), exc, f"LinearWMEProblem: {bad}")
    return True, bad
