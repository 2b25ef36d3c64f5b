"""P17: fitted domains, meshes, equipment tolerances."""
import math

import mud.plot
import mud.util
import numpy as np
from hypothesis import strategies as st
from mud.plot import build_nd_mesh_grid, make_2d_normal_mesh
from mud.util import fit_domain, set_shape, std_from_equipment

from ..core import *  # noqa: F403

SUITE = Suite("P17", quick=4)


@SUITE.check(
    st.fixed_dictionaries(dict(
        seed=seeds, n=upto(1, 40, 200, 3000, 20000), d=upto(1, 5, 10, 20), style=styles, src=st.sampled_from(["x", "x", "bounds", "both"]),
        pad=st.one_of(st.sampled_from(["default", 0.0, 0, 1, 0.1, 0.5, 2.5]), st.floats(0, 5)),
        pos=st.booleans(), form=st.sampled_from(["array", "fortran", "strided"]), repeat=st.integers(1, 3),
        num=st.sampled_from(["float", "float", "int"]), unit=st.sampled_from([0, 0, 0, -12, 12]))),
    n=4000, rule="a range that is not empty is padded")
def domains(case):
    r = rng(case)
    d = case["d"] = min(case["d"], 60000 // case["n"])
    X = np.array(numbers(r, (case["n"], d), case["style"]), float)
    whole = case["num"] == "int"
    X = np.rint(4 * X).astype(int) if whole else X * 10.0 ** case["unit"]
    X = layout(X, case["form"])
    lo, hi = X.min(axis=0), X.max(axis=0)
    B = None
    p0 = 0.1 if case["pad"] == "default" else case["pad"]
    if case["src"] != "x":
        a = numbers(r, (case["d"], 2), case["style"])
        a = np.rint(4 * np.asarray(a)).astype(int if float(p0) == int(p0) else float) if whole else np.asarray(a, float) * 10.0 ** case["unit"]
        B = layout(np.sort(a, axis=1), case["form"])
        lo, hi = B[:, 0].copy(), B[:, 1].copy()
    kw = {}
    p = 0.1 if case["pad"] == "default" else case["pad"]
    if case["pad"] != "default":
        kw["pad_ratio"] = case["pad"]
    if B is not None:
        kw["min_max_bounds"] = B
    F = Frozen(x=X, kw=kw)
    for _ in range(case["repeat"]):
        with sut("fit_domain"):
            if case["src"] == "bounds":
                D = fit_domain(**kw)
            elif case["pos"]:
                D = fit_domain(X, **kw)
            else:
                D = fit_domain(x=X, **kw)
    F.verify("fit_domain")
    need(np.shape(D) == (case["d"], 2), f"domain of shape {np.shape(D)}")
    want = np.array([lo - p * (hi - lo), hi + p * (hi - lo)]).T
    for i in range(case["d"]):
        vclose(D[i], want[i], f"range {i}", 1e-12, 0)
    if case["src"] == "x":
        need(((D[:, 0] <= X) & (X <= D[:, 1])).all(), "a sample lies outside the fitted domain")
    if D is B or (B is not None and np.shares_memory(D, B)):
        raise Violation("the domain is the caller's bounds")
    return p > 0 and (hi > lo).any(), f"{case['src']}"


@SUITE.finding("whole-bounds")
def whole_bounds():
    D = np.asarray(fit_domain(min_max_bounds=np.array([[0, 10], [-3, 4]]), pad_ratio=0.25), float)
    if np.allclose(D, [[-2.5, 12.5], [-4.75, 5.75]]):
        return None
    same(D, [[-2, 12], [-4, 5]], "domain fitted to whole-numbered bounds")
    return "fit_domain(min_max_bounds=<integers>) cuts the padded bounds to whole numbers"


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, n=st.integers(1, 30), d=st.integers(1, 4), pad=st.sampled_from([0, 1, 2]))),
    n=300, rule="several samples")
def integer_samples(case):
    """Whole-numbered samples with whole-numbered ratios, as documented."""
    X = rng(case).integers(-9, 10, (case["n"], case["d"]))
    with sut("fit_domain"):
        D = fit_domain(X, pad_ratio=case["pad"])
    L = X.max(axis=0) - X.min(axis=0)
    same(D, np.array([X.min(axis=0) - case["pad"] * L, X.max(axis=0) + case["pad"] * L]).T, "domain")
    raises(lambda: fit_domain(), (ValueError,), "nothing to fit a domain to")
    return case["n"] > 1


WINDOWS = st.one_of(st.just("default"), st.integers(1, 9), st.floats(0.01, 50))


@SUITE.check(
    st.fixed_dictionaries(dict(N=st.one_of(st.just("default"), upto(1, 40, 60, 150, 300)), w=WINDOWS,
                               which=st.sampled_from(["util", "plot", "normal"]), pos=st.booleans())),
    n=1000, rule="every case")
def meshes_2d(case):
    f = {"util": mud.util.make_2d_unit_mesh, "plot": mud.plot.make_2d_unit_mesh, "normal": make_2d_normal_mesh}[case["which"]]
    N, w = (50 if case["N"] == "default" else case["N"]), (1 if case["w"] == "default" else case["w"])
    kw = {k: v for k, v in (("N", case["N"]), ("window", case["w"])) if v != "default"}
    with sut(f.__name__):
        X, Y, P = f(N, w) if case["pos"] and len(kw) == 2 else f(**kw)
    lo = -w if case["which"] == "normal" else 0.0
    ax = [lo + (w - lo) * i / max(N - 1, 1) for i in range(N)]
    need(np.shape(X) == np.shape(Y) == (N, N) and np.shape(P) == (N * N, 2), f"shapes {np.shape(X)} {np.shape(P)}")
    vclose(X, np.tile(ax, (N, 1)), "first coordinates", 1e-12)
    vclose(Y, np.tile(np.array(ax)[:, None], (1, N)), "second coordinates", 1e-12)
    same(P, np.array([[X[i, j], Y[i, j]] for i in range(N) for j in range(N)]), "flattened points")
    return True, case["which"]


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, d=st.one_of(st.integers(1, 4), st.integers(1, 7)), aff=st.one_of(st.just("default"), st.integers(2, 30)),
                               form=st.sampled_from(["list", "array", "tuples"]), ints=st.booleans())),
    n=1500, rule="several axes")
def meshes_nd(case):
    r = rng(case)
    d = case["d"]
    aff = 100 if case["aff"] == "default" else case["aff"]
    if d > 4 and aff == case["aff"]:
        aff = case["aff"] = min(aff, 4)
    while (aff - 1) ** d > 60000 and d > 1:
        d -= 1
    lo = r.integers(-4, 5, d) if case["ints"] else r.standard_normal(d)
    dom = np.array([lo, lo + (r.integers(1, 5, d) if case["ints"] else r.uniform(0.1, 3, d))]).T
    arg = dom.tolist() if case["form"] == "list" else [tuple(x) for x in dom.tolist()] if case["form"] == "tuples" else dom
    F = Frozen(domain=arg)
    with sut("build_nd_mesh_grid"):
        mesh, pts = build_nd_mesh_grid(arg) if case["aff"] == "default" else build_nd_mesh_grid(arg, aff=aff)
    F.verify("build_nd_mesh_grid")
    n = aff - 1
    need(len(mesh) == d and np.shape(pts) == (d, n**d), f"{len(mesh)} axes, points {np.shape(pts)}, aff {aff}")
    for i in range(d):
        m = np.asarray(mesh[i])
        need(m.shape == (n,) * d, f"axis array {i} has shape {m.shape}")
        axis = np.array([dom[i, 0] + (dom[i, 1] - dom[i, 0]) * j / n for j in range(n)])
        want = np.broadcast_to(axis.reshape([-1 if k == i else 1 for k in range(d)]), (n,) * d)
        vclose(m.ravel(), want.ravel(), f"axis array {i}", 1e-12)
        same(pts[i], m.ravel(), f"coordinate {i} of the points")
    if n**d < 3000:
        need(len({tuple(p) for p in np.asarray(pts).T.tolist()}) == n**d, "a grid point is repeated")
    return d > 1, f"{d}-d"


@SUITE.check(
    st.fixed_dictionaries(dict(tol=st.one_of(st.just("default"), st.floats(1e-6, 1e4)),
                               prob=st.one_of(st.just("default"), st.floats(1e-4, 0.9999999), st.sampled_from([0.5, 0.95, 0.99])),
                               arr=st.booleans())),
    n=1500, rule="every case")
def tolerances(case):
    tol, prob = (0.1 if case["tol"] == "default" else case["tol"]), (0.95 if case["prob"] == "default" else case["prob"])
    kw = {k: v for k, v in (("tolerance", case["tol"]), ("probability", case["prob"])) if v != "default"}
    with sut("std_from_equipment"):
        s = std_from_equipment(tol, prob) if len(kw) == 2 and case["arr"] else std_from_equipment(**kw)
    s = float(s)
    need(s > 0, f"standard deviation {s!r}")
    x = tol / s / math.sqrt(2)
    if prob < 0.9:
        close(math.erf(x), prob, f"probability of an error within {tol}", 1e-9)
    else:
        close(math.erfc(x), 1 - prob, f"probability of an error beyond {tol}", 1e-6)
    return True


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, shape=st.lists(st.integers(1, 6), min_size=1, max_size=3),
                               to=st.sampled_from(["default", "row", "col", "list"]))),
    n=500, rule="a one-dimensional array")
def shapes(case):
    x = rng(case).standard_normal(tuple(case["shape"]))
    n = x.size
    F = Frozen(x=x)
    with sut("set_shape"):
        y = {"default": lambda: set_shape(x), "row": lambda: set_shape(x, (1, -1)), "col": lambda: set_shape(x, (-1, 1)),
             "list": lambda: set_shape(x, [-1, 1])}[case["to"]]()
    F.verify("set_shape")
    want = x
    if x.ndim < 2:
        want = x.reshape((1, n) if case["to"] in ("default", "row") else (n, 1))
    same(y, want, "reshaped")
    return x.ndim == 1, case["to"]
