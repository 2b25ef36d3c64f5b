"""P05: linear MUD point."""
import numpy as np
from hypothesis import strategies as st
from mud.base import LinearGaussianProblem
from mud.funs import lin_prob, mud_sol, mud_sol_with_cov

from ..core import *  # noqa: F403
from ..linear import COVS, EACH, FIELDS, UNITS, Lin, change, cov, each_unit, space, unit_factors

SUITE = Suite("P05", quick=4)

alphas = st.sampled_from([1.0, 1.0, 0.1, 1e-3, 7.0, 100.0])


def point(x, n, what, column=None):
    x = np.asarray(x, float)
    if column is not None:
        want = (n, 1) if column else (n,)
        need(x.shape == want, f"{what}: shape {x.shape}, expected {want}")
    need(x.size == n, f"{what}: {x.size} coordinates, expected {n}")
    return x.ravel()


def consistent(L, x, what, rows=None, tol=1e-7):
    A, y, b = L.A[:rows], L.y[:rows], L.b[:rows]
    s = np.abs(A).max() * L.scale + np.abs(y).max() + np.abs(b).max()
    vclose(A @ x + b, y, f"{what} maps to the observed value", tol, 0, scale=s)


@SUITE.check(space(wide_only=True, alpha=alphas, route=st.permutations(["mud", "mud_alt", "all"])),
             n=2500, rule="more parameters than outputs (the point is not determined by the data alone)")
def full_row_rank(case):
    L = Lin(case)
    al = case["alpha"]
    want = L.mud_ref()
    with sut("problem"):
        P = L.lgp(alpha=al)
    with sut("solve"):
        got = {k: P.solve(method=k) for k in case["route"]}
        one = P.solve()
        reg = L.lgp().solve(method="mud")
        with_co = L.lgp(cov_o=None).solve("mud")
        f1 = L.fun(mud_sol)
        f2, up = L.fun(mud_sol_with_cov)
        f3 = L.fun(lin_prob).solve(method="mud")
    col = case["form"] == "col" and L.y_arg is not None
    pts = {
        "solve('mud')": point(got["mud"], L.n, "solve('mud')", True),
        "solve()": point(one, L.n, "solve()", True),
        "solve('mud_alt')": point(got["mud_alt"], L.n, "solve('mud_alt')", True),
        "solve('all')": point(got["all"][0], L.n, "solve('all')", True),
        "another initial scale": point(reg, L.n, "alpha", True),
        "another data covariance": point(with_co, L.n, "cov_o", True),
        "mud_sol": point(f1, L.n, "mud_sol", col),
        "mud_sol_with_cov": point(f2, L.n, "mud_sol_with_cov", col),
        "lin_prob": point(f3, L.n, "lin_prob"),
    }
    Ci = np.linalg.inv(L.C)
    N = L.null()
    ta, t1 = L.alt_tol(al), L.alt_tol(1.0)
    for name, x in pts.items():
        tol = ta if name == "solve('mud_alt')" else t1 if name == "mud_sol_with_cov" else 1e-6
        if tol > 1e-3:  # nothing left of the digits on this route
            continue
        consistent(L, x, name, None, tol)
        vclose(x, want, name, tol, 0, scale=L.scale)
        # closest to the initial mean: no descent along the solution set
        d = x - L.mean
        if N.shape[1]:
            g = N.T @ Ci @ d
            need(np.abs(g).max() <= tol * L.scale * np.abs(Ci).max(), f"{name}: not closest to the initial mean")
    return L.n > L.m, f"{case['kind']}"


@SUITE.check(space(wide_only=True, alpha=alphas), n=600, rule="more parameters than outputs")
def no_closer_point(case):
    """Any other exact solution is farther from the initial mean."""
    L = Lin(case)
    r = rng(case, 3)
    with sut("solve"):
        x = point(L.lgp(alpha=case["alpha"]).solve("mud"), L.n, "mud", True)
    consistent(L, x, "mud")
    Ci, N = np.linalg.inv(L.C), L.null()
    if not N.shape[1]:
        return False
    d0 = (x - L.mean) @ Ci @ (x - L.mean)
    for e in (1e-2, 1.0, 10.0):
        z = x + e * L.scale * N @ r.standard_normal(N.shape[1])
        d = (z - L.mean) @ Ci @ (z - L.mean)
        need(d >= d0 * (1 - 1e-7) - 1e-9, f"a closer exact solution exists: {d!r} < {d0!r}")
    return True


@SUITE.check(space(alpha=alphas), n=1200, rule="the map is not of full row rank")
def any_rank(case):
    L = Lin(case)
    gap = L.gap(L.A @ L.C @ L.A.T, L.rank)
    if gap > 4e-16:  # rounding noise near the pseudo-inverse cutoff
        return False, "ambiguous rank"
    with sut("solve"):
        P = L.lgp(alpha=case["alpha"])
        got = {"solve('mud')": P.solve(method="mud"), "mud_sol": L.fun(mud_sol)}
        if case["co"] in ("eye", "none") and case["ci"] in ("eye", "none"):
            got["solve('all')"] = L.lgp(alpha=case["alpha"]).solve(method="all")[0]
    want = L.mud_ref()
    for k, v in got.items():
        vclose(point(v, L.n, k), want, k, 1e-6, 0, scale=L.scale)
    return not L.full_row, case["kind"]


@SUITE.check(space(wide_only=True, alpha=alphas, od=upto(1, 6, 9, 15),
                   methods=st.lists(st.sampled_from(["mud", "all", "mud_alt", "map", "ls"]), max_size=3)),
             n=900, rule="fewer outputs are used than there are")
def first_rows(case):
    L = Lin(case)
    od = min(case["od"], L.m)
    with sut("solve"):
        P = L.lgp(alpha=case["alpha"])
        for k in case["methods"]:  # earlier calls leave no trace
            P.solve(method=k)
        a = point(P.solve(method="mud", output_dim=od), L.n, "mud", True)
        b = point(P.solve(method="all", output_dim=od)[0], L.n, "all", True)
        c = point(P.solve(method="mud_alt", output_dim=od), L.n, "mud_alt", True)
        S = None if L.co_arg is None else L.S[:od, :od]
        sub = LinearGaussianProblem(L.A[:od], b=L.b[:od], y=L.y[:od], mean_i=L.mean, cov_i=L.C, cov_o=S)
        d = point(sub.solve("mud"), L.n, "first rows", True)
        again = point(P.solve(method="mud"), L.n, "mud", True)
    for name, x in (("solve('mud')", a), ("solve('all')", b), ("solve('mud_alt')", c), ("first rows", d)):
        tol = L.alt_tol(case["alpha"], od) if name == "solve('mud_alt')" else 1e-6
        if tol <= 1e-3:
            consistent(L, x, name, od, tol)
            vclose(x, L.mud_ref(od), name, tol, 0, scale=L.scale)
    vclose(again, L.mud_ref(), "all rows again", 1e-6, 0, scale=L.scale)
    return od < L.m, f"{od < L.m}"


@SUITE.check(space(wide_only=True, co2=st.sampled_from(COVS), al=alphas, al2=alphas), n=700, rule="every case")
def changed_settings(case):
    """The point follows the attributes in force, and data covariance or
    regularisation weight have no part in it."""
    L = Lin(case)
    r = rng(case, 9)
    with sut("solve"):
        P = L.lgp(alpha=case["al"])
        x0 = point(P.solve("mud"), L.n, "mud", True)
        P.alpha = case["al2"]
        S = cov(r, L.m, case["co2"])
        P.cov_o = np.eye(L.m) if S is None else S
        x1 = point(P.solve("mud"), L.n, "mud", True)
        x2 = point(P.solve("mud_alt"), L.n, "mud", True)
        y2 = L.y + r.standard_normal(L.m)
        P.y = y2.reshape(-1, 1)
        x3 = point(P.solve("mud"), L.n, "mud", True)
    if S is not None:
        L.S = S
    else:
        L.S = np.eye(L.m)
    tol = L.alt_tol(case["al2"])
    for x, t in ((x0, 1e-6), (x1, 1e-6), (x2, tol)):
        if t <= 1e-3:
            vclose(x, L.mud_ref(), "mud", t, 0, scale=L.scale)
    L.y = y2
    L.scale += 5.0 / 10.0 ** case["ascale"]
    vclose(x3, L.mud_ref(), "mud after the observed value changed", 1e-6, 0, scale=L.scale)
    return True


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, m=st.integers(1, 5), d=st.integers(0, 4), lo=st.integers(-5, 0), hi=st.integers(0, 3),
                               mix=st.booleans(), ci=st.sampled_from(["none", "diag", "scaled"]), mean=st.booleans(),
                               route=st.sampled_from(["mud", "all", "fun", "default"]))),
    n=900, rule="outputs of different magnitude")
def graded(case):
    """Outputs of very different magnitude all count."""
    r = rng(case)
    m, n = case["m"], case["m"] + case["d"]
    q, _ = np.linalg.qr(r.standard_normal((n, n)))
    A = (10.0 ** r.uniform(case["lo"], case["hi"], m))[:, None] * q[:m]
    if case["mix"]:
        u, _ = np.linalg.qr(r.standard_normal((m, m)))
        A = u @ A
    C = np.eye(n) if case["ci"] == "none" else cov(r, n, case["ci"])
    P = A @ C @ A.T
    tol = 1e-7 + 1e-13 * np.linalg.cond(P)
    if tol > 1e-2:
        return False
    mean = r.standard_normal(n) if case["mean"] else np.zeros(n)
    y, b = A @ r.standard_normal(n), A @ r.standard_normal(n)
    L = np.linalg.cholesky(C)
    want = mean + L @ np.linalg.lstsq(A @ L, y - b - A @ mean, rcond=1e-14)[0]
    ci = None if case["ci"] == "none" else C
    col = (lambda x: x.reshape(-1, 1))
    with sut("solve"):
        if case["route"] == "fun":
            x = mud_sol(A, col(b), y=col(y), mean=col(mean), cov=ci)
        else:
            Q = LinearGaussianProblem(A, b=b, y=y, mean_i=mean, cov_i=ci)
            x = Q.solve("all")[0] if case["route"] == "all" else Q.solve() if case["route"] == "default" else Q.solve("mud")
    vclose(point(x, n, "mud"), want, "mud", tol, 0, scale=1)
    return np.linalg.cond(P) > 1e4, "cond 1e%d" % int(np.log10(np.linalg.cond(P)) // 2 * 2)


@SUITE.check(space(wide_only=True, alpha=alphas, **UNITS), n=900, rule="units differ by more than a factor 1000")
def units(case):
    """Measuring parameters and outputs in other units changes nothing."""
    L = Lin(case)
    u, v = unit_factors(case)
    K = L.in_units(u, v)
    al = case["alpha"]
    with sut("solve"):
        for name, f in (("solve('mud')", lambda M: M.lgp(alpha=al).solve("mud")), ("solve('all')", lambda M: M.lgp(alpha=al).solve("all")[0]),
                        ("solve('mud_alt')", lambda M: M.lgp(alpha=al).solve("mud_alt")), ("mud_sol", lambda M: M.fun(mud_sol)),
                        ("mud_sol_with_cov", lambda M: M.fun(mud_sol_with_cov)[0])):
            a, b = np.ravel(f(L)), np.ravel(f(K)) / u
            vclose(b, a, f"{name} in other units", L.alt_tol(al) if "alt" in name else L.alt_tol(1.0) if "cov" in name else 1e-7, 0, scale=L.scale)
    return abs(case["u"]) > 10 or abs(case["v"]) > 10, "units"


@SUITE.check(space(wide_only=True, alpha=alphas, **EACH), n=700, rule="units of outputs differ by more than a factor 1000")
def every_unit(case):
    """Each parameter and output in a unit of its own changes nothing."""
    L = Lin(case)
    u, v = each_unit(L, case)
    K = L.in_units(u, v)
    al = case["alpha"]
    P, Q = L.A @ L.C @ L.A.T, K.A @ K.C @ K.A.T
    tol = (1e-7 + 1e-14 * np.linalg.cond(P) * np.linalg.cond(Q) * np.linalg.cond(L.C)) * u.max() / u.min()

    def alt(a):  # route through the updated covariance
        return tol + max(L.alt_tol(a), K.alt_tol(a)) * u.max() / u.min()

    if tol > 1e-2 or np.linalg.cond(Q) > 1e13:
        return False, "too far apart"
    want = L.mud_ref()
    with sut("solve"):
        for name, f in (("solve('mud')", lambda M: M.lgp(alpha=al).solve("mud")), ("solve('all')", lambda M: M.lgp(alpha=al).solve("all")[0]),
                        ("solve('mud_alt')", lambda M: M.lgp(alpha=al).solve("mud_alt")), ("mud_sol", lambda M: M.fun(mud_sol)),
                        ("mud_sol_with_cov", lambda M: M.fun(mud_sol_with_cov)[0])):
            t = alt(al) if "alt" in name else alt(1.0) if "cov" in name else tol
            x = np.ravel(f(K)) / u
            if t < 1e-2:
                vclose(x, want, f"{name} in other units", t, 0, scale=L.scale)
    return case["vs"] > 10, f"{case['us']}/{case['vs']}"


@SUITE.check(space(wide_only=True, alpha=alphas, steps=st.lists(st.tuples(
    st.sampled_from(["mud", "all", "mud_alt", "mud-first"]), st.sampled_from(FIELDS)), min_size=1, max_size=5)),
    n=900, rule="several changes")
def after_changes(case):
    """The point is that of the problem as it is now."""
    L = Lin(case)
    r = rng(case, 12)
    al = case["alpha"]
    with sut("problem"):
        P = L.lgp(alpha=al)
    for s, f in list(case["steps"]) + [("mud", None)]:
        od = int(r.integers(1, L.m + 1)) if s == "mud-first" else None
        with sut(s):
            x = P.solve(method="mud" if od else s, output_dim=od)
        x = point(x[0] if s == "all" else x, L.n, s, True)
        t = L.alt_tol(al) if s == "mud_alt" else 1e-6
        if t <= 1e-3:
            vclose(x, L.mud_ref(od), s, t, 0, scale=L.scale)
        vclose(P.mud, x.reshape(-1, 1), "stored point", t, 0, scale=L.scale) if s != "mud_alt" else None
        if f:
            al = change(L, P, r, f, case)
    return len({f for _, f in case["steps"]}) > 1, f"{len(case['steps'])}"
