"""P08: functionals and norms."""
import numpy as np
from hypothesis import strategies as st
from mud.base import LinearGaussianProblem
from mud.norm import full_functional, inner_product, norm_data, norm_input, norm_predicted

from ..core import *  # noqa: F403
from ..linear import EACH, UNITS, Lin, cov, each_unit, space, unit_factors
from .p05 import point

SUITE = Suite("P08", quick=4)
alphas = st.sampled_from([1.0, 1.0, 0.1, 1e-2, 7.0, 30.0])
TERMS = ("data", "reg", "dc_term", "reg_m", "bayes", "dc", "all")


def sq(E, M):
    """Squared norm of every row of E in the inverse of M."""
    Lc = np.linalg.cholesky(M)
    return (np.linalg.solve(Lc, E.T) ** 2).sum(axis=0)


def defs(L, X, al, dc=True):
    E = X @ L.A.T + L.b - L.y
    D = X - L.mean
    out = {"data": sq(E, L.S), "reg": sq(D, al * L.C)}
    out["bayes"] = out["data"] + out["reg"]
    if dc:
        out["dc_term"] = sq(D @ L.A.T, al * L.A @ L.C @ L.A.T)
        out["reg_m"] = out["reg"] - out["dc_term"]
        out["dc"] = out["bayes"] - out["dc_term"]
    return out


def tol(L):
    return 1e-7 + 1e-13 * max(np.linalg.cond(L.A @ L.C @ L.A.T) if L.full_row else 1.0,
                              np.linalg.cond(L.C), np.linalg.cond(L.S))


def points(L, case, r):
    N = case["N"]
    X = r.standard_normal((N, L.n)) * (10.0 if case["far"] else 1.0)
    if N > 1:
        X[0] = L.mean
    lay = case.get("lay", "plain")
    if lay in ("int", "narrow"):  # whole numbers, passed as such
        X = np.rint(3 * X)
    return X


LAYS = st.sampled_from(["plain", "plain", "fortran", "spaced", "backwards", "int", "narrow", "locked"])


def laid(X, lay):
    """The same points, held otherwise."""
    if lay == "fortran":
        return np.asfortranarray(X)
    if lay == "spaced":
        return np.repeat(np.repeat(X, 2, axis=0), 3, axis=1)[::2, ::3]
    if lay == "backwards":
        return X[::-1].copy()[::-1]
    if lay == "int":
        return X.astype(np.int64)
    if lay == "narrow":
        return narrow(X)
    X = X.copy()
    if lay == "locked":
        X.setflags(write=False)
    return X


@SUITE.check(space(wide_only=True, alpha=alphas, N=st.sampled_from([1, 2, 3, 7, 40, 300]), far=st.booleans(),
                   lay=LAYS, order=st.permutations(TERMS)), n=2500,
             rule="several outputs, an offset or a weight other than one")
def terms(case):
    L = Lin(case)
    r = rng(case, 2)
    al = case["alpha"]
    X = points(L, case, r)
    want = defs(L, X, al)
    with sut("problem"):
        P = L.lgp(alpha=al)
    scale = max(np.abs(want["bayes"]).max(), np.abs(want["dc_term"]).max())
    Z = laid(X, case["lay"])
    for t in case["order"]:
        with sut(f"compute_functionals({t})"):
            got = P.compute_functionals(Z, terms=t) if t != "all" or case["far"] else P.compute_functionals(Z)
        if t == "all":
            need(len(got) == 5, "all terms: five results expected")
            pairs = list(zip(("data", "reg", "dc_term", "bayes", "dc"), got))
        else:
            pairs = [(t, got)]
        for k, v in pairs:
            need(np.shape(v) == (len(X),), f"{k}: shape {np.shape(v)} for {len(X)} points")
            vclose(v, want[k], k, tol(L), 1e-12, scale=scale if k in ("reg_m", "dc", "bayes") else
                   np.abs(want[k]).max() + np.abs(L.y - L.b).max() ** 2 * 1e-9 / np.abs(L.S).max())
    return case["b"] != "none" or L.m > 1 or al != 1, f"outputs={min(L.m, 3)}"


@SUITE.check(space(alpha=alphas, N=st.sampled_from([1, 3, 7]), far=st.booleans()), n=700,
             rule="the map is not of full row rank")
def any_rank(case):
    L = Lin(case)
    X = points(L, case, rng(case, 2))
    want = defs(L, X, case["alpha"], dc=False)
    with sut("problem"):
        P = L.lgp(alpha=case["alpha"])
        for t in ("data", "reg", "bayes"):
            v = P.compute_functionals(X, terms=t)
            need(np.shape(v) == (len(X),), f"{t}: shape {np.shape(v)}")
            vclose(v, want[t], t, tol(L), 1e-12, scale=np.abs(want["bayes"]).max())
    return not L.full_row


@SUITE.check(space(wide_only=True, alpha=alphas), n=700, rule="every case")
def minimisers(case):
    """Solutions against nearby and far competitors, measured by the code's
    own functionals."""
    L = Lin(case)
    r = rng(case, 6)
    al = case["alpha"]
    with sut("solve"):
        P = L.lgp(alpha=al)
        sol = {"bayes": point(P.solve("map"), L.n, "map"), "dc": point(P.solve("mud"), L.n, "mud")}
    D = r.standard_normal((30, L.n)) * L.scale * 10.0 ** r.uniform(-4, 1, (30, 1))
    N = L.null()
    if N.shape[1]:
        D[:10] = (D[:10] @ N) @ N.T
    for t, x in sol.items():
        with sut("functional"):
            f0 = P.compute_functionals(x.reshape(1, -1), terms=t)[0]
            f = P.compute_functionals(x + D, terms=t)
        ref = defs(L, np.vstack([x, x + D]), al)
        rel = 1e-12 * max(np.abs(ref["reg"]).max(), np.abs(ref["data"]).max(), np.abs(ref["dc_term"]).max())
        rel *= np.linalg.cond(L.A @ L.C @ L.A.T) * np.linalg.cond(L.C)
        if t == "bayes":  # error of the point itself, see P06
            from .p06 import refs

            if refs(L, al)[2] > 1e-6:
                continue
        ok = f >= f0 * (1 - 1e-6) - rel - 1e-9
        need(ok.all(), f"{t} functional: {f.min()!r} at a competitor, {f0!r} at the solution")
    return True


@SUITE.check(space(wide_only=True, alpha=alphas), n=500, rule="every case")
def changed_settings(case):
    """The functionals use the weight and data in force."""
    L = Lin(case)
    r = rng(case, 7)
    X = r.standard_normal((5, L.n))
    with sut("problem"):
        P = L.lgp()
        P.compute_functionals(X)
        P.solve("all")
        P.alpha = case["alpha"]
        L.y = r.standard_normal(L.m)
        P.y = L.y.reshape(-1, 1)
        want = defs(L, X, case["alpha"])
        for t in ("data", "reg", "dc_term", "bayes", "dc"):
            vclose(P.compute_functionals(X, terms=t), want[t], t, tol(L), 1e-12, scale=np.abs(want["bayes"]).max())
    return True


norm_space = space(wide_only=True, N=st.sampled_from([1, 2, 5, 20, 200]), lay=LAYS, meanform=st.sampled_from(["flat", "col"]),
                   scov=st.sampled_from(["no", "int", "float", "npfloat", "float32", "npint"]),
                   sobs=st.sampled_from(["no", "int", "float", "npfloat", "float32", "npint"]),
                   om=st.sampled_from(["scalar", "row", "one", "default"]))


def sc(r, kind, M, n):
    if kind == "no":
        return M, M
    v = {"int": 3, "float": float(r.uniform(0.2, 4)), "npfloat": np.float64(r.uniform(0.2, 4)),
         "float32": np.float32(0.75), "npint": np.int64(2)}[kind]
    return v, float(v) * np.eye(n)


@SUITE.check(norm_space, n=1500, rule="several outputs, points or a scalar covariance")
def norms(case):
    L = Lin(case)
    r = rng(case, 8)
    N, m, n = case["N"], L.m, L.n
    X = r.standard_normal((N, n))
    if case["lay"] in ("int", "narrow"):
        X = np.rint(5 * X)
    Z = laid(X, case["lay"])
    ic, C = sc(r, case["scov"], L.C, n)
    oc, S = sc(r, case["sobs"], L.S, m)
    mean = {"flat": L.mean, "col": L.mean.reshape(-1, 1)}[case["meanform"]]
    om = {"scalar": 0.7, "default": 0, "row": r.standard_normal((1, m)), "one": np.array([0.3])}[case["om"]]
    data = L.b.reshape(-1, 1)
    A = L.A.copy()
    with sut("norms"):
        a = norm_input(Z, mean, ic)
        b = norm_data(A, Z, data, om, oc)
        c = norm_predicted(A, Z, mean, ic)
        if case["om"] == "default":
            d = full_functional(A, Z, data, mean, ic, observed_cov=oc)
            if case["sobs"] == "int":
                d1 = full_functional(A, Z, data, mean, ic)
        else:
            d = full_functional(A, Z, data, mean, ic, om, oc)
        e = inner_product(Z.T, C)
    D = X - L.mean
    E = X @ A.T + L.b - np.broadcast_to(np.ravel(om), (m,))
    want = (sq(D, C), sq(E, S), sq(D @ A.T, A @ C @ A.T))
    t = 1e-7 + 1e-13 * max(np.linalg.cond(A @ C @ A.T), np.linalg.cond(C), np.linalg.cond(S))
    for k, v, w in (("norm_input", a, want[0]), ("norm_data", b, want[1]), ("norm_predicted", c, want[2]),
                    ("inner_product", e, sq(X, C))):
        need(np.shape(v) == (N,), f"{k}: shape {np.shape(v)} for {N} points")
        vclose(v, w, k, t, 1e-12)
    full = want[0] + want[1] - want[2]
    vclose(d, full, "full_functional", t, 1e-12, scale=max(np.abs(w).max() for w in want))
    if case["om"] == "default" and case["sobs"] == "int":
        one = want[0] + sq(E, np.eye(m)) - want[2]
        vclose(d1, one, "full_functional defaults", t, 1e-12, scale=max(np.abs(w).max() for w in want) * 3)
    # the same numbers as the problem class
    if case["scov"] == "no" and case["sobs"] == "no":
        y = np.broadcast_to(np.ravel(om), (m,)).astype(float)
        P = LinearGaussianProblem(A, b=L.b, y=y, mean_i=L.mean, cov_i=C, cov_o=S)
        with sut("compute_functionals"):
            vclose(P.compute_functionals(X, "dc"), full, "class and norm module", t, 1e-12,
                   scale=max(np.abs(w).max() for w in want))
    return N > 1 or m > 1, case["scov"]


@SUITE.check(st.fixed_dictionaries(dict(seed=seeds, n=upto(1, 8, 15, 30), N=upto(1, 50, 200, 1500),
                                        kind=st.sampled_from(["eye", "diag", "full", "large", "small", "graded"]),
                                        flat=st.booleans())), n=700, rule="more than one dimension")
def inner_products(case):
    r = rng(case)
    X = numbers(r, (case["n"], case["N"]), "normal")
    if case["kind"] == "graded":  # very different variances, in units which make all coordinates count
        d = 10.0 ** r.uniform(-14, 14, case["n"])
        M, X = np.diag(d), X * np.sqrt(d)[:, None]
    else:
        M = cov(r, case["n"], case["kind"])
    with sut("inner_product"):
        v = inner_product(X, M)
    vclose(v, sq(X.T, M), "inner product", 1e-8, 0, shape=True)
    with sut("inner_product"):
        vclose(inner_product(2 * X, M), 4 * v, "homogeneity", 1e-9, 0)
        vclose(inner_product(X, 3 * M), np.asarray(v) / 3, "scaling of the operator", 1e-9, 0)
        if case["flat"]:
            vclose(inner_product(X[:, :1], M), v[:1], "single vector", 1e-9, 0)
    v = np.asarray(v)
    need((v >= -1e-9 * np.abs(v).max()).all(), "negative square")
    return case["n"] > 1


@SUITE.check(space(wide_only=True, alpha=alphas, N=st.sampled_from([1, 2, 5]), far=st.booleans(), **UNITS), n=700,
             rule="units differ by more than a factor 1000")
def units(case):
    """Measuring parameters and outputs in other units changes no functional."""
    L = Lin(case)
    u, v = unit_factors(case)
    K = L.in_units(u, v)
    X = points(L, case, rng(case, 2))

    def run(M, Z):
        P = M.lgp(alpha=case["alpha"])
        m, b, y = M.mean.reshape(-1, 1), M.b.reshape(-1, 1), M.y.reshape(-1, 1)
        out = {t: P.compute_functionals(Z, terms=t) for t in TERMS if t != "all"}
        out.update(zip(("data ", "reg ", "dc_term ", "bayes ", "dc "), P.compute_functionals(Z)))
        out["norm_input"] = norm_input(Z, m, M.C)
        out["norm_data"] = norm_data(M.A, Z, b, y.T, M.S)
        out["norm_predicted"] = norm_predicted(M.A, Z, m, M.C)
        out["full_functional"] = full_functional(M.A, Z, b, m, M.C, y.T, M.S)
        return out

    with sut("functionals"):
        a, b = run(L, X), run(K, X * u)
    s = max(np.abs(x).max() for x in a.values())
    for t in a:
        vclose(b[t], a[t], f"{t} in other units", tol(L), 0, scale=s)
    return abs(case["u"]) > 10 or abs(case["v"]) > 10, "units"


@SUITE.check(space(wide_only=True, alpha=alphas, N=st.sampled_from([1, 2, 5]), far=st.booleans(), **EACH), n=600,
             rule="units differ by more than a factor 1000")
def every_unit(case):
    """Each parameter and output in a unit of its own changes no functional."""
    L = Lin(case)
    u, v = each_unit(L, case)
    K = L.in_units(u, v)
    X = points(L, case, rng(case, 2))
    Q = K.A @ K.C @ K.A.T
    t0 = tol(L) + 1e-15 * np.linalg.cond(L.A @ L.C @ L.A.T) * (np.linalg.cond(Q) + np.linalg.cond(K.C) + np.linalg.cond(K.S))
    t0 *= max(u.max() / u.min(), 1)
    if t0 > 1e-2 or np.linalg.cond(Q) > 1e13:
        return False, "too far apart"
    want = defs(L, X, case["alpha"])
    s = max(np.abs(x).max() for x in want.values())
    m, b, y = K.mean.reshape(-1, 1), K.b.reshape(-1, 1), K.y.reshape(-1, 1)
    with sut("functionals"):
        P = K.lgp(alpha=case["alpha"])
        got = {t: P.compute_functionals(X * u, terms=t) for t in TERMS if t != "all"}
        one = defs(L, X, 1.0)
        more = {"norm_input": (norm_input(X * u, m, K.C), one["reg"]), "norm_data": (norm_data(K.A, X * u, b, y.T, K.S), one["data"]),
                "norm_predicted": (norm_predicted(K.A, X * u, m, K.C), one["dc_term"])}
    for t, x in got.items():
        vclose(x, want[t], f"{t} in other units", t0, 0, scale=s)
    s = max(s, *(np.abs(x).max() for x in one.values()))
    for t, (x, w) in more.items():
        vclose(x, w, f"{t} in other units", t0, 0, scale=s)
    return max(case["vs"], case["us"]) > 10, f"{case['us']}/{case['vs']}"
