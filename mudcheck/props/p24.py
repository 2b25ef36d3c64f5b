"""P24: geometric plots."""
import numpy as np
from hypothesis import strategies as st
from matplotlib.markers import MarkerStyle
from matplotlib import pyplot as plt
from mud.base import DensityProblem, IterativeLinearProblem, LinearGaussianProblem, SpatioTemporalProblem
from mud.plot import plot_1D_vecs, plot_contours, plotChain

from ..core import *  # noqa: F403
from ..linear import COVS, cov, full_rank
from .p12 import SEL, selection

SUITE = Suite("P24")


def new_axes(given=True):
    if not given:
        return None, None
    _, ax = plt.subplots()
    _, other = plt.subplots()
    return ax, other


def untouched(other, what):
    if other is not None:
        need(not other.lines and not other.collections and not other.texts, f"{what} drew on the current axes, not on"
             " those passed in")


def offsets(ax):
    """Points of every scatter drawn, with the artist."""
    return [(np.asarray(c.get_offsets(), float), c) for c in ax.collections if len(c.get_offsets())]


def ends(line):
    return np.array([np.ravel(line.get_xdata()), np.ravel(line.get_ydata())], float).T


def line_through(P, ref, row, w, what):
    """P holds the two ends of a segment through ref, along the null direction
    of row, of half-length w."""
    need(P.shape == (2, 2), f"{what}: line with {len(P)} points")
    s = 1 + np.abs(ref).max() + w
    vclose((P[0] + P[1]) / 2, ref, f"{what}: middle of the line", 0, 1e-9 * s)
    d = (P[1] - P[0]) / 2
    close(np.linalg.norm(d), w, f"{what}: half-length", 1e-8, 1e-9 * s)
    a = np.linalg.norm(row)
    if a > 0:
        close(row @ d / a, 0.0, f"{what}: direction mapped to", 0, 1e-8 * s)


class Lin2:
    def __init__(self, case):
        r = rng(case)
        m, n = case["m"], case.get("n", 2)
        k = case["kind"]
        A = r.standard_normal((m, n)) if k == "normal" else r.integers(-3, 4, (m, n)).astype(float)
        if k != "zero":
            A[(A[:, :2] == 0).all(axis=1), 0] = 1.0
        A = A * 10.0 ** case.get("unit", 0)
        self.A, self.m, self.n = A, m, n
        self.b = r.standard_normal(m) if case["b"] else None
        self.y = r.standard_normal(m)
        self.mean = r.standard_normal(n) if case["mean"] else None
        self.r = rng(case, 2)

    def make(self, cls=LinearGaussianProblem, **kw):
        return cls(self.A.copy(), None if self.b is None else self.b.reshape(-1, 1), y=self.y.reshape(-1, 1), **kw)


L2 = dict(seed=seeds, m=st.integers(1, 5), kind=st.sampled_from(["normal", "normal", "ints", "zero"]), b=st.booleans(),
          mean=st.booleans())


@SUITE.check(
    st.fixed_dictionaries(dict(ref=st.sampled_from(["none", "flat", "col", "list"]), subset=st.sampled_from(
        ["none", "list", "array", "one", "repeat", "reverse"]), w=st.sampled_from([None, 1, 0.3, 4.0]),
        ann=st.booleans(), label=st.sampled_from([None, "{i}", "q {i}", "row-{i}!"]), note=st.booleans(), given=st.booleans(),
        opts=st.booleans(), function=st.booleans(), unit=st.sampled_from([0, 0, 0, -12, -9, -6, 3, 9]), **{
            **L2, "m": upto(1, 5, 12, 40)})),
    n=2500, rule="several lines")
def contour_lines(case):
    Q = Lin2(case)
    r, m = Q.r, Q.m
    sub = {"none": None, "list": sorted(int(i) for i in r.permutation(m)[: max(1, m // 2)]), "array": r.permutation(m),
           "one": [int(r.integers(m))], "repeat": [int(i) for i in r.integers(0, m, m + 1)],
           "reverse": list(range(m))[::-1]}[case["subset"]]
    rows = list(range(m)) if sub is None else [int(i) for i in sub]
    kw = {} if sub is None else {"subset": sub}
    w = 1 if case["w"] is None else case["w"]
    if case["w"] is not None:
        kw["w"] = case["w"]
    ref = r.standard_normal(2)
    arg = {"flat": ref.copy(), "col": ref.reshape(-1, 1), "list": ref.tolist(), "none": None}[case["ref"]]
    if case["function"]:
        if arg is None:
            arg = ref.copy()
        if case["opts"]:
            kw.update(color="m", ls="-", lw=2)
        F = Frozen(A=Q.A, ref=arg, kw=kw)
        plt.figure()
        with sut("plot_contours"):
            plot_contours(Q.A, arg, **kw)
        F.verify("plot_contours")
        ax = plt.gca()
        texts = [str(i + 1) for i in rows]
        need([t.get_text() for t in ax.texts] == texts, f"labels {[t.get_text() for t in ax.texts]}, expected {texts}")
        for t, ln in zip(ax.texts, ax.lines):
            vclose(np.ravel(t.xy), ends(ln)[0], "place of the label", 1e-9, 1e-12)
    else:
        L = Q.make(mean_i=Q.mean)
        if arg is None:
            ref = np.linalg.pinv(Q.A, rcond=1e-10) @ (Q.y - (0 if Q.b is None else Q.b))
            sv = np.linalg.svd(Q.A, compute_uv=False)
            if sv[0] == 0 or ((sv > 1e-12 * sv[0]) & (sv < 1e-2 * sv[0])).any():
                return False
        else:
            kw["ref"] = arg
        if case["ann"]:
            kw["annotate"] = True
            if case["label"] is not None:
                kw["label"] = case["label"]
            if case["note"]:
                kw["note_loc"] = (0.25, -0.5)
        if case["opts"]:
            kw["plot_opts"], kw["annotate_opts"] = {"color": "m", "ls": "-"}, {"fontsize": 7}
        ax, other = new_axes(case["given"])
        F = Frozen(kw=kw)
        with sut("plot_contours"):
            L.plot_contours(ax=ax, **kw)
        F.verify("plot_contours")
        untouched(other, "plot_contours")
        ax = plt.gca() if ax is None else ax
        texts = [(case["label"] or "{i}").format(i=i + 1) for i in rows] if case["ann"] else []
        need([t.get_text() for t in ax.texts] == texts, f"labels {[t.get_text() for t in ax.texts]}, expected {texts}")
        for t, ln in zip(ax.texts, ax.lines):
            want = (0.25, -0.5) if case["note"] else ends(ln)[0]
            vclose(np.ravel(t.xy), np.ravel(want), "place of the label", 1e-9, 1e-12)
            if case["opts"]:
                need(t.get_fontsize() == 7, "option of the labels")
    need(len(ax.lines) == len(rows), f"{len(ax.lines)} lines for rows {rows}")
    for ln, i in zip(ax.lines, rows):
        line_through(ends(ln), ref, Q.A[i], w, f"contour of row {i + 1}")
        if case["opts"]:
            need(ln.get_color() == "m" and ln.get_linestyle() == "-", "options of the line")
    return len(rows) > 1, f"{case['subset']}/{case['ref']}"


@SUITE.check(
    st.fixed_dictionaries(dict(
        n=st.integers(2, 4), point=st.sampled_from(["default", "mud", "mud_alt", "map", "ls", "initial"]), ci=st.sampled_from(COVS),
        co=st.sampled_from(COVS), label=st.booleans(), note=st.booleans(), ln=st.sampled_from(["default", "none", "opts"]),
        opts=st.booleans(), given=st.booleans(), again=st.booleans(), **L2)),
    n=1500, rule="a line is drawn")
def solutions(case):
    Q = Lin2(case)
    r = Q.r
    m, n = min(Q.m, Q.n), Q.n
    Q.A, Q.y, Q.b = full_rank(r, m, n, 0.5), Q.y[:m], None if Q.b is None else Q.b[:m]
    C, S = cov(r, n, case["ci"]), cov(r, m, case["co"])
    L = Q.make(mean_i=Q.mean if Q.mean is None else Q.mean.reshape(-1, 1), cov_i=C, cov_o=S)
    mean = np.zeros(n) if Q.mean is None else Q.mean
    z = Q.y - (0 if Q.b is None else Q.b)
    Cc, Sc = np.eye(n) if C is None else C, np.eye(m) if S is None else S
    pt = case["point"]
    kw = {} if pt == "default" else {"point": pt}
    P = Q.A @ Cc @ Q.A.T
    if pt == "initial":
        x = mean
    elif pt == "ls":
        x = np.linalg.pinv(Q.A) @ z
    elif pt == "map":
        x = mean + Cc @ Q.A.T @ np.linalg.solve(P + Sc, z - Q.A @ mean)
    else:
        x = mean + Cc @ Q.A.T @ np.linalg.solve(P, z - Q.A @ mean)
    if case["label"]:
        kw["label"] = "here"
        if case["note"]:
            kw["note_loc"] = (0.125, 0.5)
    if case["ln"] == "none":
        kw["ln_opts"] = None
    elif case["ln"] == "opts":
        kw["ln_opts"] = {"color": "m"}
    if case["opts"]:
        kw["pt_opts"] = {"color": "c", "s": 33}
    ax, other = new_axes(case["given"])
    F = Frozen(kw=kw)
    with sut("plot_sol"):
        for _ in range(2 if case["again"] else 1):
            L.plot_sol(ax=ax, **kw)
    F.verify("plot_sol")
    untouched(other, "plot_sol")
    ax = plt.gca() if ax is None else ax
    k = 2 if case["again"] and case["given"] else 1
    pts = offsets(ax)
    need(len(pts) == k, f"{len(pts)} points")
    tol = 1e-3 if pt == "mud_alt" else 1e-6
    sc = 1 + np.abs(x).max() + np.abs(mean).max()
    for o, c in pts:
        need(len(o) == 1, f"{len(o)} points")
        vclose(o[0], x[:2], f"point {pt}", 0, tol * sc)
        name = "mud" if pt == "default" else pt
        need(c.get_label() == name, f"label {c.get_label()!r} of the point {name}")
        if case["opts"]:
            need(np.allclose(c.get_sizes(), 33), "options of the point")
    lines = case["ln"] != "none" and pt != "initial"
    need(len(ax.lines) == (k if lines else 0), f"{len(ax.lines)} lines")
    for ln in ax.lines:
        e = ends(ln)
        need(len(e) == 2, "line with more than two points")
        vclose(e, [mean[:2], x[:2]], "line from the initial mean to the solution", 0, tol * sc)
        if case["ln"] == "opts":
            need(ln.get_color() == "m", "options of the line")
    need(len(ax.texts) == (k if case["label"] else 0), f"{len(ax.texts)} labels")
    for t in ax.texts:
        need(t.get_text() == "here", "text of the label")
        want = (0.125, 0.5) if case["note"] else (x[0] - 0.02, x[1] + 0.02)
        vclose(np.ravel(t.xy), want, "place of the label", 0, tol * sc)
    return lines, pt


@SUITE.check(
    st.fixed_dictionaries(dict(term=st.sampled_from(["default", "bayes", "dc", "data", "reg"]), N=st.integers(8, 24),
                               mesh=st.sampled_from(["unit", "own", "slow"]), rr=st.sampled_from([None, 1, 2.5]),
                               ci=st.sampled_from(["none", "diag", "full"]), co=st.sampled_from(["none", "diag", "full"]),
                               levels=st.integers(2, 6), given=st.booleans(), **L2)),
    n=600, rule="contours are drawn")
def functional_contours(case):
    Q = Lin2(case)
    r = Q.r
    m = min(Q.m, 2)
    Q.A, Q.y, Q.b = full_rank(r, m, 2, 0.5), Q.y[:m], None if Q.b is None else Q.b[:m]
    C, S = cov(r, 2, case["ci"]), cov(r, m, case["co"])
    L = Q.make(mean_i=None if Q.mean is None else Q.mean.reshape(-1, 1), cov_i=C, cov_o=S)
    mean = np.zeros(2) if Q.mean is None else Q.mean
    b = 0 if Q.b is None else Q.b
    Ci = np.eye(2) if C is None else np.linalg.inv(C)
    Cc, Sc = np.linalg.inv(Ci), np.eye(m) if S is None else S
    Pi = np.linalg.inv(Q.A @ Cc @ Q.A.T)

    def sq(e, M):
        return np.einsum("ki,ij,kj->k", e, M, e)

    def f(X):
        d, g = sq(X @ Q.A.T + b - Q.y, np.linalg.inv(Sc)), sq(X - mean, Ci)
        t = case["term"]
        if t == "data":
            return d
        if t == "reg":
            return g
        return d + g if t == "bayes" else d + g - sq((X - mean) @ Q.A.T, Pi)

    N = case["N"]
    kw = dict(N=N)
    if case["mesh"] in ("own", "slow"):
        ax_ = np.linspace(-1.5, 1.0, N), np.linspace(-0.5, 2, N)
        X, Y = np.meshgrid(*ax_, indexing="xy" if case["mesh"] == "own" else "ij")
        mesh = np.array([X.ravel(), Y.ravel()]).T
        kw["mesh"] = mesh
    else:
        rr = 1 if case["rr"] is None else case["rr"]
        if case["rr"] is not None:
            kw["r"] = case["rr"]
        X, Y = np.meshgrid(np.linspace(0, rr, N), np.linspace(0, rr, N))
        mesh = np.array([X.ravel(), Y.ravel()]).T
    if case["term"] != "default":
        kw["terms"] = case["term"]
    Z = f(mesh).reshape(N, N)
    lo, hi = Z.min(), Z.max()
    if not hi - lo > 1e-6 * (1 + abs(hi)):
        return False
    levels = lo + (hi - lo) * np.sort(r.uniform(0.05, 0.9, case["levels"]))
    if (np.diff(levels) < 1e-9 * (hi - lo)).any():
        return False
    ax, other = new_axes(case["given"])
    with sut("plot_fun_contours"):
        L.plot_fun_contours(ax=ax, levels=levels, colors="k", **kw)
    untouched(other, "plot_fun_contours")
    ax = plt.gca() if ax is None else ax
    sets = [c for c in ax.collections if hasattr(c, "levels")]
    need(len(sets) == 1, f"{len(sets)} contour sets")
    close(sets[0].levels, levels, "levels", 1e-12)
    # a quadratic differs from its linear interpolation along a mesh edge by
    # at most an eighth of its second difference
    err = max(np.abs(np.diff(Z, 2, axis=0)).max(), np.abs(np.diff(Z, 2, axis=1)).max()) / 8
    for lev, path in zip(levels, sets[0].get_paths()):
        v = np.asarray(path.vertices, float)
        need(len(v), f"no contour at {lev!r}")
        gap = np.abs(f(v) - lev)
        need((gap <= 1.01 * err + 1e-7 * (1 + abs(hi))).all(), f"functional {f(v)[np.argmax(gap)]!r} on the contour of {lev!r},"
             f" tolerance {err!r}")
        need((v >= mesh.min(axis=0) - 1e-9).all() and (v <= mesh.max(axis=0) + 1e-9).all(), "contour outside the mesh")
    return True, f"{case['term']}/{case['mesh']}"


def segments(ax):
    out = []
    for ln in ax.lines:
        e = ends(ln)
        out += [(e[i], e[i + 1], ln) for i in range(len(e) - 1)]
    return out


def take_segment(segs, a, b, tol, what):
    for i, (p, q, _) in enumerate(segs):
        if np.abs(p - a).max() <= tol and np.abs(q - b).max() <= tol:
            return segs.pop(i)
    raise Violation(f"{what}: no line from {a} to {b}")


def take_point(pts, a, tol, what):
    for i, p in enumerate(pts):
        if np.abs(p - a).max() <= tol:
            return pts.pop(i)
    raise Violation(f"{what}: no mark at {a}")


@SUITE.check(
    st.fixed_dictionaries(dict(order=st.sampled_from(["none", "perm", "repeat"]), epochs=st.lists(
        upto(1, 2, 8, 40), min_size=1, max_size=2), refcol=st.booleans(), w=st.sampled_from([None, 0.5]), ann=st.booleans(),
        color=st.sampled_from([None, "m"]), given=st.booleans(), **{**L2, "m": upto(1, 5, 9, 20, 120)})),
    n=1000, rule="several epochs")
def chains(case):
    Q = Lin2(case)
    r, m = Q.r, Q.m
    idx = {"none": None, "perm": r.permutation(m), "repeat": [int(i) for i in r.integers(0, m, m + 1)]}[case["order"]]
    rows = list(range(m)) if idx is None else [int(i) for i in idx]
    if sum(case["epochs"]) * m > 250:
        case["epochs"] = [1]
    I = Q.make(IterativeLinearProblem, mu_i=None if Q.mean is None else Q.mean.reshape(-1, 1), idx_order=idx)
    with sut("solve"):
        for k in case["epochs"]:
            I.solve(num_epochs=k)
    ref = r.standard_normal(2)
    arg = ref.reshape(-1, 1) if case["refcol"] else ref.copy()
    kw = {}
    if case["w"]:
        kw["w"] = case["w"]
    if case["ann"]:
        kw["annotate"] = True
    if case["color"]:
        kw["color"] = case["color"]
    ax, other = new_axes(case["given"])
    F = Frozen(ref=arg)
    with sut("plot_chain"):
        I.plot_chain(arg, ax=ax, **kw)
    F.verify("plot_chain")
    untouched(other, "plot_chain")
    ax = plt.gca() if ax is None else ax
    pts_model = [np.array([np.ravel(p) for p in c], float) for c in I.solution_chains]
    tol = 1e-9 * (1 + max(np.abs(c).max() for c in pts_model))
    segs = segments(ax)
    marks = [p for o, _ in offsets(ax) for p in o]
    for c in pts_model:
        for i in range(len(c) - 1):
            s = take_segment(segs, c[i], c[i + 1], tol, "chain")
            need(s[2].get_color() == (case["color"] or "k"), "colour of the chain")
        for p, what in ((c[0], "start"), (c[-1], "end"), (ref, "reference")):
            take_point(marks, p, tol, what)
    need(not marks, f"{len(marks)} marks too many")
    rest = [(p, q) for p, q, _ in segs if np.abs(p - q).max() > tol]
    need(len(rest) >= len(rows), f"{len(rest)} contours for rows {rows}")
    for (p, q), i in zip(rest[len(rest) - len(rows):], rows):
        line_through(np.array([p, q]), ref, Q.A[i], case["w"] or 1, f"contour of row {i + 1}")
    need(len(rest) == len(rows), f"{len(rest)} lines besides the chain, {len(rows)} rows")
    texts = [str(i + 1) for i in rows] if case["ann"] else []
    need([t.get_text() for t in ax.texts] == texts, f"labels {[t.get_text() for t in ax.texts]}, expected {texts}")
    # the stand-alone form, on the current axes
    plt.figure()
    chain = I.solution_chains[0]
    with sut("plotChain"):
        plotChain(chain, arg, color="c")
    ax = plt.gca()
    segs, marks = segments(ax), [p for o, _ in offsets(ax) for p in o]
    for i in range(len(chain) - 1):
        take_segment(segs, pts_model[0][i], pts_model[0][i + 1], tol, "plotChain")
    need(all(np.abs(p - q).max() <= tol for p, q, _ in segs), "plotChain: lines too many")
    for p in (pts_model[0][0], ref):
        take_point(marks, p, tol, "plotChain")
    need(not marks, "plotChain: marks too many")
    return sum(case["epochs"]) > 1, case["order"]


@SUITE.check(
    st.fixed_dictionaries(dict(n=st.integers(1, 4), epochs=upto(1, 3, 30, 150), refs=st.lists(seeds, min_size=1, max_size=3),
                               more=st.booleans(), given=st.booleans(), col=st.booleans(), **L2)),
    n=500, rule="several references")
def chain_errors(case):
    Q = Lin2({**case, "n": max(2, case["n"])})
    I = Q.make(IterativeLinearProblem, mu_i=None if Q.mean is None else Q.mean.reshape(-1, 1))
    I.solve(num_epochs=case["epochs"])
    for j, s in enumerate(case["refs"]):
        if j and case["more"]:
            I.solve(num_epochs=1)
        rr = np.random.default_rng(s)
        ref = rr.standard_normal(Q.n)
        pts = np.array([np.ravel(p) for c in I.solution_chains for p in c[1:]], float)
        if s % 3 == 0:  # a reference which was met exactly
            ref = pts[int(rr.integers(len(pts)))].copy()
        want = np.linalg.norm(pts - ref, axis=1)
        ax, other = new_axes(case["given"])
        with sut("plot_chain_error"):
            I.plot_chain_error(ref.reshape(-1, 1) if case["col"] else ref.copy(), ax=ax, color="m", alpha=0.5, label="E")
        untouched(other, "plot_chain_error")
        ax = plt.gca() if ax is None else ax
        need(len(ax.lines) == 1, f"{len(ax.lines)} curves")
        e = ends(ax.lines[0])
        need(len(e) == len(want), f"{len(e)} errors, expected {len(want)}")
        same(e[:, 0], np.arange(len(want)), "steps")
        vclose(e[:, 1], want, "errors", 1e-9, 1e-15)
        ln = ax.lines[0]
        need(ax.get_yscale() == "log" and ln.get_label() == "E" and ln.get_color() == "m" and ln.get_alpha() == 0.5,
             "scale or options of the curve")
        plt.close("all")
    return len(case["refs"]) > 1


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, n=upto(4, 30, 150, 600, 1200, 6000), p=st.integers(1, 4), q=st.integers(1, 4), i=st.integers(0, 4),
                               j=st.integers(0, 4), k=st.integers(0, 4), contours=st.booleans(), bar=st.booleans(),
                               given=st.booleans(), what=st.sampled_from(["params", "params", "qoi"]))),
    n=600, rule="distinct coordinates")
def sample_scatter(case):
    r = rng(case)
    n, p, q = case["n"], case["p"], case["q"]
    X, y = r.standard_normal((n, p)), r.standard_normal((n, q))
    D = DensityProblem(X, y)
    i, j, k = case["i"], case["j"], case["k"]
    ax, other = new_axes(case["given"])
    if case["what"] == "qoi":
        i, j = i % q, j % q
        with sut("plot_qoi"):
            ret = D.plot_qoi(i, j, ax=ax, color="m", s=4) if (i, j) != (0, 1) else D.plot_qoi(ax=ax, color="m", s=4)
        untouched(other, "plot_qoi")
        need(ax is None or ret is ax, "plot_qoi returned other axes")
        pts = offsets(ret)
        need(len(pts) == 1, f"{len(pts)} scatter plots")
        same(pts[0][0], np.array([y[:, i], y[:, j]]).T, f"outputs {i}, {j}")
        return i != j, "qoi"
    if p < 2 or i >= p or j >= p or k >= q:
        raises(lambda: D.plot_params_2d(i, j, k, ax=ax), (AttributeError, ValueError),
               f"parameters {i}, {j} of {p}, output {k} of {q}")
        return False
    coef = r.standard_normal(3)
    y[:, k] = coef[0] + coef[1] * X[:, i] + coef[2] * X[:, j]
    D = DensityProblem(X, y)
    lines = case["contours"] and i != j
    kw = {a: v for a, v, d in (("x_1", i, 0), ("x_2", j, 1), ("y", k, 0), ("contours", lines, False)) if v != d}
    with sut("plot_params_2d"):
        ret = D.plot_params_2d(colorbar=case["bar"], ax=ax, s=5, **kw)
    need(ax is None or ret is ax, "plot_params_2d returned other axes")
    untouched(other, "plot_params_2d")
    pts = [(o, c) for o, c in offsets(ret) if len(o) == n]
    need(len(pts) == 1, f"{len(pts)} scatter plots")
    same(pts[0][0], np.array([X[:, i], X[:, j]]).T, f"parameters {i}, {j}")
    same(np.asarray(pts[0][1].get_array()), y[:, k], f"output {k}")
    for got, want in ((ret.get_xlabel(), i), (ret.get_ylabel(), j)):
        need(str(want + 1) in got, f"axis label {got!r} for parameter {want + 1}")
    sets = [c for c in ret.collections if hasattr(c, "levels")]
    need(bool(sets) == lines, "contours drawn or missing")
    for c in sets:
        need(len(c.levels) > 2, f"only {len(c.levels)} contour levels")
        for level, path in zip(c.levels, c.get_paths()):
            v = path.vertices
            if len(v):
                close(coef[0] + v @ coef[1:], np.full(len(v), level), f"output {k} along its contour",
                      atol=1e-6 * (1 + np.abs(y[:, k]).max()))
    return i != j, "params"


class Field:
    def __init__(self, case, linear=False, one=True):
        r = rng(case)
        self.n, self.S = n, S = case["n"], case["S"]
        T = self.T = 1 if one else case["T"]
        self.sensors = r.standard_normal((S, 2))
        self.times = np.cumsum(r.uniform(0.1, 1, T))
        self.data = r.standard_normal((n, S * T))
        if linear:
            self.coef = r.standard_normal((n, 3))
            self.data = self.coef[:, :1] + self.coef[:, 1:] @ self.sensors.T
        self.meas = r.standard_normal(S * T)
        self.P = SpatioTemporalProblem(dict(sensors=self.sensors, times=self.times, lam=r.standard_normal((n, 2)),
                                            data=self.data, measurements=self.meas))
        self.r = rng(case, 2)


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, n=st.integers(1, 4), S=upto(5, 20, 60, 300, 1500, 5000), sel=st.sampled_from(SEL), c=st.booleans(),
                               bar=st.booleans(), given=st.booleans())),
    n=500, rule="a selection of the sensors")
def sensor_scatter(case):
    Q = Field(case)
    m, idx = selection(Q.r, case["sel"], Q.S)
    kw = {}
    if m is not None:
        kw["mask"] = m
    if case["c"]:
        kw["c"] = Q.r.standard_normal(len(idx))
        kw["colorbar"] = case["bar"]
    ax, other = new_axes(case["given"])
    F = Frozen(kw=kw)
    with sut("sensor_scatter_plot"):
        ret = Q.P.sensor_scatter_plot(ax=ax, **kw)
    F.verify("sensor_scatter_plot")
    untouched(other, "sensor_scatter_plot")
    need(ax is None or ret is ax, "returned other axes")
    pts = offsets(ret)
    need(len(pts) == 1, f"{len(pts)} scatter plots")
    same(pts[0][0], Q.sensors[idx], "sensors")
    if case["c"]:
        same(np.asarray(pts[0][1].get_array()), kw["c"], "colours")
    return m is not None, case["sel"]


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, n=st.integers(1, 4), S=upto(8, 25, 60, 300), sel=st.sampled_from(
        ["none", "bool", "array", "unordered", "list"]), i=st.integers(0, 3), vals=st.booleans(), fill=st.booleans(),
        bar=st.booleans(), given=st.booleans())),
    n=500, rule="a selection of the sensors")
def sensor_contours(case):
    """Data which depend linearly on the place are interpolated exactly."""
    Q = Field(case, linear=True)
    m, idx = selection(Q.r, case["sel"], Q.S)
    i = case["i"] % Q.n
    coef = Q.coef[i]
    kw = {} if m is None else {"mask": m}
    pts = Q.sensors[idx]
    if len(set(idx)) < 6:
        return False
    if case["vals"]:
        coef = Q.r.standard_normal(3)
        kw["c_vals"] = coef[0] + pts @ coef[1:]
    f = lambda v: coef[0] + v @ coef[1:]  # noqa: E731
    v = f(pts)
    lev = v.min() + (v.max() - v.min()) * np.array([0.2, 0.5, 0.7])
    ax, other = new_axes(case["given"])
    F = Frozen(kw=kw)
    with sut("sensor_contour_plot"):
        ret = Q.P.sensor_contour_plot(idx=i, ax=ax, fill=case["fill"], colorbar=case["bar"], levels=lev, **kw)
    F.verify("sensor_contour_plot")
    untouched(other, "sensor_contour_plot")
    need(ax is None or ret is ax, "returned other axes")
    sets = [c for c in ret.collections if hasattr(c, "levels")]
    need(len(sets) == 1, f"{len(sets)} contour sets")
    C = sets[0]
    need(bool(C.filled) == case["fill"], "filled or not")
    tol = 1e-6 * (1 + np.abs(v).max())
    for k, path in enumerate(C.get_paths()):
        w = np.asarray(path.vertices, float)
        need(len(w), f"no contour at {lev[k]!r}")
        if case["fill"]:
            need((f(w) >= lev[k] - tol).all() and (f(w) <= lev[k + 1] + tol).all(), f"values {f(w).min()}..{f(w).max()} in the"
                 f" region {lev[k]}..{lev[k + 1]}")
        else:
            vclose(f(w), np.full(len(w), lev[k]), "values on the contour", 0, tol)
        need((w >= pts.min(axis=0) - tol).all() and (w <= pts.max(axis=0) + tol).all(), "contour outside the selected sensors")
    return m is not None, f"fill={case['fill']}"


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, n=st.sampled_from([*range(1, 13), 40, 55, 75, 99, 100, 101, 130]), S=st.integers(1, 4),
                               T=upto(2, 8, 40, 300), sensor=st.integers(0, 3),
                               samples=st.sampled_from(SEL), times=st.sampled_from(SEL), most=st.sampled_from(
                                   [None, None, 1, 3, 60, 100, 200]), opts=st.booleans(), given=st.booleans())),
    n=800, rule="a selection of samples or times")
def time_series(case):
    Q = Field(case, one=False)
    s = case["sensor"] % Q.S
    ma, a = selection(Q.r, case["samples"], Q.n)
    mt, t = selection(Q.r, case["times"], Q.T)
    kw = {}
    if ma is not None:
        kw["samples"] = ma
    if mt is not None:
        kw["times"] = mt
    if s:
        kw["sensor_idx"] = s
    if case["most"] is not None:
        kw["max_plot"] = case["most"]
    if case["opts"]:
        kw["meas_kwargs"], kw["samples_kwargs"] = {"color": "m", "s": 9}, {"linewidth": 3}
    ax, other = new_axes(case["given"])
    F = Frozen(kw=kw)
    with sut("plot_ts"):
        ret = Q.P.plot_ts(ax=ax, **kw)
    F.verify("plot_ts")
    untouched(other, "plot_ts")
    need(ax is None or ret is ax, "returned other axes")
    D = Q.data.reshape(Q.n, Q.S, Q.T)
    pts = offsets(ret)
    need(len(pts) == 1, f"{len(pts)} scatter plots")
    same(pts[0][0], np.array([Q.times[t], Q.meas.reshape(Q.S, Q.T)[s][t]]).T, "measurements")
    want = [D[i, s][t] for i in a]
    k = min(len(a), 100 if case["most"] is None else case["most"])
    need(len(ret.lines) == k, f"{len(ret.lines)} series, expected {k} of {len(a)} selected")
    seen = []
    for ln in ret.lines:
        e = ends(ln)
        same(e[:, 0], Q.times[t], "times of a series")
        hit = [i for i, w in enumerate(want) if np.array_equal(e[:, 1], w)]
        need(hit, "a series is not one of the selected samples at this sensor")
        seen += hit
    if k == len(a):
        need(set(seen) == set(range(len(a))), "not all selected samples are drawn")
    return ma is not None or mt is not None, f"{case['samples']}/{case['times']}"


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, k=upto(1, 5, 12, 30), n=upto(1, 12, 100, 600, 2500), markers=st.booleans(), label=st.booleans(),
                               given=st.booleans(), lst=st.booleans())),
    n=400, rule="several vectors")
def vectors(case):
    V = rng(case).standard_normal((case["k"], case["n"]))
    kw = {"markers": [str(m) for m in rng(case, 1).choice(list("osd^vDh*"), case["k"])]} if case["markers"] else {}
    if not case["label"]:
        kw["label"] = False
    ax, other = new_axes(case["given"])
    F = Frozen(V=V, kw=kw)
    with sut("plot_1D_vecs"):
        ret = plot_1D_vecs([v for v in V] if case["lst"] else V, ax=ax, s=12, **kw)
    F.verify("plot_1D_vecs")
    untouched(other, "plot_1D_vecs")
    need(ax is None or ret is ax, "returned other axes")
    pts = offsets(ret)
    need(len(pts) == case["k"], f"{len(pts)} scatter plots")
    for i, ((o, c), v) in enumerate(zip(pts, V)):
        same(o, np.array([np.arange(case["n"]), v]).T, f"vector {i}")
        need(str(i + 1) in c.get_label(), f"label {c.get_label()!r} of vector {i + 1}")
        if case["markers"]:
            style = MarkerStyle(kw["markers"][i])
            want = style.get_path().transformed(style.get_transform()).vertices
            got = c.get_paths()[0].vertices
            need(got.shape == want.shape and np.allclose(got, want), f"marker of vector {i + 1} is not {kw['markers'][i]!r}")
    need((ret.get_legend() is not None) == case["label"], "legend")
    return case["k"] > 1
