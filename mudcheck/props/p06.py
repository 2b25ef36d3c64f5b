"""P06: linear MAP and least-squares points."""
import numpy as np
from hypothesis import strategies as st
from mud.base import LinearGaussianProblem
from mud.funs import lin_prob, map_sol, map_sol_with_cov

from ..core import *  # noqa: F403
from ..linear import EACH, FIELDS, UNITS, Lin, change, each_unit, space, unit_factors
from .p05 import point

SUITE = Suite("P06", quick=4)

alphas = st.sampled_from([1.0, 1.0, 0.1, 1e-3, 7.0, 100.0, 2])


def refs(L, al, rows=None):
    """Posterior mean and covariance from the equivalent whitened least-squares
    problem (not the normal equations), and tolerances."""
    A, z, S = L.A[:rows], (L.y - L.b)[:rows], L.S[:rows, :rows]
    C = al * L.C
    Ls, Lc = np.linalg.cholesky(S), np.linalg.cholesky(C)
    G = np.vstack([np.linalg.solve(Ls, A), np.linalg.inv(Lc)])
    h = np.concatenate([np.linalg.solve(Ls, z), np.linalg.solve(Lc, L.mean)])
    x = np.linalg.lstsq(G, h, rcond=None)[0]
    R = np.linalg.qr(G)[1]
    Ri = np.linalg.inv(R)
    # rounding of the explicit inverse times the right-hand side
    rhs = np.linalg.norm(np.linalg.solve(Ls, A).T @ np.linalg.solve(Ls, z - A @ L.mean))
    cg = np.linalg.cond(G)
    amp = cg**2 * np.linalg.norm(Ri) ** 2 * rhs / L.scale
    tol = 1e-6 + 1e-14 * (amp + cg**2 * np.linalg.cond(S) * np.linalg.cond(C))
    return x, Ri @ Ri.T, tol


def judge_map(L, x, al, what, rows=None):
    want, _, tol = refs(L, al, rows)
    if tol < 1e-3:
        vclose(x, want, what, tol, 0, scale=L.scale)
        return True
    return False


def judge_cov(L, c, al, what, rows=None):
    _, want, tol = refs(L, al, rows)
    need(np.shape(c) == (L.n, L.n), f"{what}: shape {np.shape(c)}")
    if tol < 1e-3:
        vclose(c, want, what, tol, 0)


def judge_ls(L, x, what, rows=None):
    A, z = L.A[:rows], (L.y - L.b)[:rows]
    s = np.linalg.svd(A, compute_uv=False)
    k = int((s > 1e-9 * s[0]).sum())
    if k < len(s) and s[k] > 4e-16 * s[0]:
        return False
    vt = np.linalg.svd(A)[2]
    g = A.T @ (A @ x - z)  # stationary
    vclose(g, np.zeros(L.n), f"{what}: gradient of the misfit", 1e-8, 0,
           scale=s[0] * (np.abs(z).max() + s[0] * np.abs(x).max()))
    vclose(vt[k:] @ x, np.zeros(L.n - k), f"{what}: part in the null space", 1e-7, 1e-12,
           scale=np.abs(x).max())
    return True


@SUITE.check(space(alpha=alphas, route=st.permutations(["map", "ls", "all", "mud", "mud_alt"]),
                   intw=st.booleans()),
             n=2500, rule="non-trivial covariances or map not of full row rank")
def optimal(case):
    L = Lin(case)
    al = case["alpha"]
    with sut("solve"):
        P = L.lgp(alpha=al)
        got = {k: P.solve(method=k) for k in case["route"]}
        Q = L.lgp(alpha=al)
        q = Q.solve(method="map")
        cov_all = np.array(P.cov_p)
        f1 = L.fun(map_sol, w=al)
        f2, c2 = L.fun(map_sol_with_cov, w=al)
        L3 = L.fun(lin_prob, alpha=al)
        f3 = L3.solve(method="map")
        ls2 = L.lgp(alpha=al).solve(method="ls")
    col = case["form"] == "col" and L.y_arg is not None
    for name, x, c in (("solve('map')", got["map"], True), ("solve('all')", got["all"][1], True),
                       ("solve('map') alone", q, True), ("map_sol", f1, col), ("map_sol_with_cov", f2, col),
                       ("lin_prob", f3, True)):
        judge_map(L, point(x, L.n, name, c), al, name)
    for name, c in (("cov_p", cov_all), ("cov_p alone", Q.cov_p), ("map_sol_with_cov", c2), ("lin_prob", L3.cov_p)):
        judge_cov(L, c, al, name + " covariance")
    for name, x in (("solve('ls')", got["ls"]), ("solve('all')", got["all"][2]), ("solve('ls') alone", ls2)):
        judge_ls(L, point(x, L.n, name, True), name)
    nt = not L.full_row or L.ci_arg is not None or L.co_arg is not None
    return nt, case["kind"]


@SUITE.check(space(alpha=alphas), n=700, rule="every case")
def defaults(case):
    """Without a weight the regularisation is the initial covariance itself."""
    L = Lin(case)
    with sut("solve"):
        a, b = L.fun(map_sol), L.lgp().solve("map")
        c, cov = L.fun(map_sol_with_cov)
        d = L.lgp(alpha=None).solve("map")
    for name, x in (("map_sol", a), ("solve('map')", b), ("map_sol_with_cov", c), ("alpha=None", d)):
        judge_map(L, point(x, L.n, name), 1.0, name)
    judge_cov(L, cov, 1.0, "map_sol_with_cov covariance")
    return True


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, m=st.integers(1, 5), d=st.integers(0, 3), tall=st.booleans(),
                               lo=st.integers(-9, 0), hi=st.integers(0, 2), mix=st.booleans(),
                               route=st.sampled_from(["ls", "all"]), b=st.booleans())),
    n=700, rule="condition of the map above 1e4")
def graded_ls(case):
    """Rows or columns of very different magnitude all count."""
    r = rng(case)
    k, n = case["m"], case["m"] + case["d"]
    q = np.linalg.qr(r.standard_normal((n, n)))[0][:k]
    g = 10.0 ** r.uniform(case["lo"], case["hi"], k)
    u = np.linalg.qr(r.standard_normal((k, k)))[0] if case["mix"] else np.eye(k)
    x = r.standard_normal(k)
    if case["tall"]:  # orthonormal columns, scaled and mixed; misfit remains
        A = (q.T * g) @ u.T
        z = q.T @ (g * x)
        e = r.standard_normal(n)
        z = z + (e - q.T @ (q @ e))
        want = u @ x
        # the remaining misfit counts with the square of the condition
        tol = 1e-8 + 1e-14 * n * g.max() / g.min() * (1 + 3 * np.sqrt(n) / g.min())
    else:
        A = u @ (g[:, None] * q)
        z = u @ (g * x)
        want = q.T @ x
        tol = 1e-8 + 1e-14 * n * g.max() / g.min()
    if tol > 1e-2:
        return False
    b = r.standard_normal(len(z)) * np.abs(z) if case["b"] else None
    y = z if b is None else z + b
    if b is not None:
        tol += 1e-15 * np.abs(y).max() / g.min()
    with sut("solve"):
        P = LinearGaussianProblem(A, b=b, y=y)
        got = P.solve("ls") if case["route"] == "ls" else P.solve("all")[2]
    vclose(point(got, A.shape[1], "ls", True), want, "ls", tol, 0, scale=1)
    return g.max() / g.min() > 1e4, "cond 1e%d" % int(np.log10(g.max() / g.min()) // 2 * 2)


@SUITE.check(space(alpha=alphas), n=700, rule="every case")
def no_better_point(case):
    """No competitor has a smaller misfit plus regularisation."""
    L = Lin(case)
    r = rng(case, 4)
    al = case["alpha"]
    with sut("solve"):
        x = point(L.lgp(alpha=al).solve("map"), L.n, "map")
        l = point(L.lgp(alpha=al).solve("ls"), L.n, "ls")
    if refs(L, al)[2] > 1e-6:
        return False
    Si, Ci = np.linalg.inv(L.S), np.linalg.inv(al * L.C)

    def J(v):
        e, d = L.A @ v + L.b - L.y, v - L.mean
        return e @ Si @ e + d @ Ci @ d

    def M(v):
        e = L.A @ v + L.b - L.y
        return e @ e

    lsok = judge_ls(L, l, "ls")
    for k in range(12):
        d = r.standard_normal(L.n) * L.scale * 10.0 ** (-k / 3)
        need(J(x + d) >= J(x) * (1 - 1e-6) - 1e-9, f"map: {J(x + d)!r} below {J(x)!r}")
        if lsok:
            need(M(l + d) >= M(l) * (1 - 1e-6) - 1e-9 * (1 + np.abs(L.A).max() * L.scale) ** 2,
                 f"ls: {M(l + d)!r} below {M(l)!r}")
    return True


@SUITE.check(space(alpha=alphas, od=upto(1, 6, 9, 15)), n=700, rule="fewer outputs are used than there are")
def first_rows(case):
    L = Lin(case)
    al, od = case["alpha"], min(case["od"], L.m)
    with sut("solve"):
        P = L.lgp(alpha=al)
        a = point(P.solve("map", output_dim=od), L.n, "map", True)
        ca = np.array(P.cov_p)
        b = point(P.solve("ls", output_dim=od), L.n, "ls", True)
        _, c, d = (point(v, L.n, "all", True) for v in P.solve("all", output_dim=od))
        e = point(P.solve("map"), L.n, "map", True)
        S = None if L.co_arg is None else L.S[:od, :od]
        sub = LinearGaussianProblem(L.A[:od], b=L.b[:od], y=L.y[:od], mean_i=L.mean, cov_i=L.C, cov_o=S, alpha=al)
        f = point(sub.solve("map"), L.n, "map", True)
    for name, x in (("map of the first outputs", a), ("all with fewer outputs", c), ("first rows", f)):
        judge_map(L, x, al, name, od)
    judge_cov(L, ca, al, "covariance of the first outputs", od)
    for name, x in (("ls of the first outputs", b), ("all with fewer outputs", d)):
        judge_ls(L, x, name, od)
    judge_map(L, e, al, "all outputs again")
    return od < L.m, f"{od < L.m}"


@SUITE.check(space(al2=alphas, alpha=alphas, steps=st.lists(
    st.sampled_from(["alpha", "mean", "y", "cov_o", "map", "ls", "all", "mud"]), min_size=2, max_size=6)),
    n=500, rule="every case")
def changed_settings(case):
    """Solutions follow the attributes in force."""
    L = Lin(case)
    r = rng(case, 5)
    al = case["alpha"]
    with sut("problem"):
        P = L.lgp(alpha=al)
    for s in case["steps"] + ["map", "ls"]:
        with sut(s):
            if s == "alpha":
                al = case["al2"]
                P.alpha = al
            elif s == "mean":
                L.mean = r.standard_normal(L.n)
                P.mean_i = L.mean.reshape(-1, 1)
            elif s == "y":
                L.y = r.standard_normal(L.m)
                P.y = L.y.reshape(-1, 1)
            elif s == "cov_o":
                L.S = 2 * L.S
                P.cov_o = L.S
            elif s == "mud":
                P.solve("mud")
            else:
                v = P.solve(s)
                if s in ("map", "all"):
                    judge_map(L, point(v if s == "map" else v[1], L.n, s), al, s)
                    judge_cov(L, P.cov_p, al, "covariance")
                if s in ("ls", "all"):
                    judge_ls(L, point(v if s == "ls" else v[2], L.n, s), s)
    return True


@SUITE.check(space(alpha=alphas, **UNITS), n=900, rule="units differ by more than a factor 1000")
def units(case):
    """Measuring parameters and outputs in other units changes nothing."""
    L = Lin(case)
    u, v = unit_factors(case)
    K = L.in_units(u, v)
    al = case["alpha"]
    tol = refs(L, al)[2]
    with sut("solve"):
        P, Q = L.lgp(alpha=al), K.lgp(alpha=al)
        a, b = P.solve("map"), Q.solve("map")
        c, d = L.fun(map_sol_with_cov, w=al), K.fun(map_sol_with_cov, w=al)
        e, f = P.solve("ls"), Q.solve("ls")
    if tol < 1e-3:
        vclose(np.ravel(b) / u, np.ravel(a), "MAP point in other units", tol, 0, scale=L.scale)
        vclose(np.ravel(d[0]) / u, np.ravel(c[0]), "map_sol_with_cov in other units", tol, 0, scale=L.scale)
        vclose(Q.cov_p / u**2, P.cov_p, "posterior covariance in other units", tol, 0)
        vclose(d[1] / u**2, c[1], "posterior covariance in other units", tol, 0)
    if L.gap(L.A, L.rank) <= 4e-16:
        vclose(np.ravel(f) / u, np.ravel(e), "least-squares point in other units", 1e-7, 0, scale=L.scale)
    return abs(case["u"]) > 10 or abs(case["v"]) > 10, "units"


@SUITE.check(space(alpha=alphas, **EACH), n=700, rule="units differ by more than a factor 1000")
def every_unit(case):
    """Each parameter and output in a unit of its own changes neither the MAP
    point nor the posterior covariance."""
    L = Lin(case)
    u, v = each_unit(L, case)
    K = L.in_units(u, v)
    al = case["alpha"]
    want, cov_, tol = refs(L, al)
    H = K.A.T @ np.linalg.solve(K.S, K.A) + np.linalg.inv(al * K.C)
    h = np.abs(K.A.T @ np.linalg.solve(K.S, K.y - K.b - K.A @ K.mean)).max()
    k = np.linalg.cond(H) * np.linalg.cond(K.C) * np.linalg.cond(K.S)
    tol = (tol + 1e-15 * k) * u.max() / u.min()
    # rounding of the explicit inverse times the right-hand side
    tolx = tol + 1e-15 * np.linalg.cond(H) * h * np.linalg.norm(np.linalg.inv(H)) / u.min() / L.scale
    if max(tol, tolx) > 1e-2:
        return False, "too far apart"
    with sut("solve"):
        Q = K.lgp(alpha=al)
        x = Q.solve("map")
        y, c = K.fun(map_sol_with_cov, w=al)
    vclose(np.ravel(x) / u, want, "MAP point in other units", tolx, 0, scale=L.scale)
    vclose(np.ravel(y) / u, want, "map_sol_with_cov in other units", tolx, 0, scale=L.scale)
    for name, U in (("cov_p", Q.cov_p), ("map_sol_with_cov", c)):
        vclose((np.asarray(U) / u).T / u, cov_, f"covariance of {name} in other units", tol * u.max() / u.min(), 0)
    return max(case["vs"], case["us"]) > 10, f"{case['us']}/{case['vs']}"


@SUITE.check(space(alpha=alphas, steps=st.lists(st.tuples(
    st.sampled_from(["map", "all", "ls", "map-first"]), st.sampled_from(FIELDS)), min_size=1, max_size=5)),
    n=900, rule="several changes")
def after_changes(case):
    """The points and the covariance are those of the problem as it is now."""
    L = Lin(case)
    r = rng(case, 12)
    al = case["alpha"]
    with sut("problem"):
        P = L.lgp(alpha=al)
    for s, f in list(case["steps"]) + [("all", None)]:
        od = int(r.integers(1, L.m + 1)) if s == "map-first" else None
        with sut(s):
            x = P.solve(method="map" if od else s, output_dim=od)
        if s != "ls":
            judge_map(L, point(x[1] if s == "all" else x, L.n, s), al, s, od)
            judge_cov(L, P.cov_p, al, f"covariance after {s}", od)
        if s in ("ls", "all"):
            judge_ls(L, point(x[2] if s == "all" else x, L.n, s), s)
        if f:
            al = change(L, P, r, f, case)
    return len({f for _, f in case["steps"]}) > 1, f"{len(case['steps'])}"
