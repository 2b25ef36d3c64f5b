"""P15: PCA and SVD of standardised data."""
import numpy as np
from hypothesis import strategies as st
from mud.preprocessing import pca, svd

from ..core import *  # noqa: F403

SUITE = Suite("P15", quick=4)

KINDS = ("plain", "corr", "low", "const", "allconst", "decades", "ints", "offset", "dup", "int8", "uint8",
         "int16", "int64")


def matrix(case):
    r = rng(case)
    n, d, k = case["n"], case["d"], case["kind"]
    X = r.standard_normal((n, d))
    if k == "corr":
        X = X @ r.standard_normal((d, d)) * 2
    elif k == "low":
        X = r.standard_normal((n, 1)) @ r.standard_normal((1, d)) + r.standard_normal(d)
    elif k == "const":
        X[:, r.random(d) < 0.5] = 3.25
    elif k == "allconst":
        X = np.ones((n, d)) * r.integers(-3, 4, d)
    elif k == "decades":
        X = X * 10.0 ** r.integers(-14, 13, d)
    elif k == "ints":
        X = r.integers(-4, 5, (n, d))
    elif k in ("int8", "uint8", "int16", "int64"):
        lo, hi = {"int8": (-128, 128), "uint8": (0, 256), "int16": (-2**15, 2**15), "int64": (-10**9, 10**9)}[k]
        X = r.integers(lo, hi, (n, d)).astype(k)
    elif k == "offset":
        X = X + 1000 * r.standard_normal(d)
    elif k == "dup":
        X = X[:, r.integers(0, d, d)]
    return X


def standard(X):
    X = np.asarray(X, float)
    s = X.std(axis=0)
    const = np.ptp(X, axis=0) <= 1e-13 * np.abs(X).max(axis=0, initial=0)
    return np.where(const, 0.0, (X - X.mean(axis=0)) / np.where(const, 1.0, s))


SPACE = dict(seed=seeds, n=st.one_of(st.integers(2, 12), st.integers(2, 80), st.integers(100, 480)), d=st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(20, 60)),
             kind=st.sampled_from(KINDS), form=st.sampled_from(["array", "fortran", "strided", "list"]))


@SUITE.check(
    st.fixed_dictionaries(dict(k=st.integers(1, 12), huge=st.sampled_from([0, 0, 0, 600, 2000]), passed=st.sampled_from(["kw", "pos", "default"]),
                               opt=st.sampled_from(["none", "none", "full", "whiten", "both", "off"]), **SPACE)),
    n=3000, rule="several columns that vary")
def principal_components(case):
    if case["opt"] in ("full", "both") and case["huge"]:
        case["n"] = case["huge"]  # beyond 500 rows only the full solver is exact
    X = matrix(case)
    n, d = X.shape
    k = min(case["k"], n, d)
    if case["passed"] == "default":
        k = 2
        if min(n, d) < 2:
            return False
    Z = standard(X)
    opt = case["opt"]
    if case["kind"] in ("low", "const", "allconst", "dup") and opt in ("whiten", "both"):
        opt = "full"  # whitening needs positive variances
    kw = {}
    if opt in ("full", "both"):
        kw["svd_solver"] = "full"
    if opt in ("whiten", "both"):
        kw["whiten"] = True
        if n <= k:
            return False
    if opt == "off":  # values which are false
        kw = dict(copy=False, whiten=False, random_state=0, iterated_power=0)
    arg = layout(X, case["form"])
    F = Frozen(data=arg, kw=kw)
    with sut("pca"):
        if case["passed"] == "default":
            P, T = pca(arg, **kw)
        elif case["passed"] == "pos":
            P, T = pca(arg, k, **kw)
        else:
            P, T = pca(arg, n_components=k, **kw)
    F.verify("pca")
    V, var = np.asarray(P.components_), np.asarray(P.explained_variance_)
    need(V.shape == (k, d) and np.shape(T) == (n, k), f"shapes {V.shape} {np.shape(T)} for {k} components")
    vclose(V @ V.T, np.eye(k), "orthonormal directions", 1e-8, 1e-8)
    C = Z.T @ Z / n
    need((np.diff(var) <= 1e-8 * max(var[0], 1e-300)).all(), f"variances not decreasing: {var}")
    lam = np.sort(np.linalg.eigvalsh(C))[::-1][:k]
    vclose(var * (n - 1) / n, lam, "variances", 1e-8, 1e-8, scale=d)
    vclose(V @ C, lam[:, None] * V, "eigenvectors of the correlation matrix", 1e-7, 1e-7, scale=d)
    S = Z @ V.T
    if kw.get("whiten"):
        S = S / np.sqrt(var)
        ok = lam > 1e-6 * lam[0]
        S, T = S[:, ok], np.asarray(T)[:, ok]
        need(P.whiten is True, "option whiten")
    vclose(T, S, "scores", 1e-6, 1e-7, scale=None if kw.get("whiten") else np.sqrt(n))
    for o, v in kw.items():
        need(getattr(P, o) == v, f"option {o}: {getattr(P, o)!r}, passed {v!r}")
    live = int((np.ptp(Z, axis=0) > 0).sum())
    return live > 1, f"{case['kind']}/{opt}"


@SUITE.check(
    st.fixed_dictionaries(dict(thin=st.sampled_from(["no", "no", "thin", "full"]), **SPACE)), n=3000,
    rule="several columns that vary")
def singular_values(case):
    X = matrix(case)
    n, d = X.shape
    Z = standard(X)
    kw = {"no": {}, "thin": dict(full_matrices=False), "full": dict(full_matrices=True)}[case["thin"]]
    arg = layout(X, case["form"])
    F = Frozen(data=arg)
    with sut("svd"):
        U, s, Vt = svd(arg, **kw)
    F.verify("svd")
    U, s, Vt = map(np.asarray, (U, s, Vt))
    m = min(n, d)
    big = case["thin"] != "thin"
    need(s.shape == (m,) and U.shape == (n, n if big else m) and Vt.shape == (d if big else m, d),
         f"shapes {U.shape} {s.shape} {Vt.shape} for {X.shape}, {case['thin']}")
    need((s >= 0).all() and (np.diff(s) <= 1e-10 * max(s[0], 1e-300)).all(), f"singular values {s}")
    vclose(U.T @ U, np.eye(U.shape[1]), "left directions", 1e-9, 1e-9)
    vclose(Vt @ Vt.T, np.eye(len(Vt)), "right directions", 1e-9, 1e-9)
    vclose((U[:, :m] * s) @ Vt[:m], Z, "product of the factors", 1e-9, 1e-9, scale=np.sqrt(n))
    lam = np.sort(np.linalg.eigvalsh(Z.T @ Z))[::-1][:m]
    vclose(s**2, lam, "squared singular values", 1e-8, 1e-9, scale=n)
    live = int((np.ptp(Z, axis=0) > 0).sum())
    return live > 1, f"{case['kind']}/{case['thin']}"


@SUITE.check(
    st.fixed_dictionaries(dict(k=st.integers(1, 4), what=st.sampled_from(["shift", "scale", "both", "const", "rows"]), **SPACE)),
    n=1500, rule="several columns that vary")
def relations(case):
    """Shifted and scaled columns, an added constant column and permuted rows."""
    X = np.asarray(matrix(case), float)
    n, d = X.shape
    r = rng(case, 2)
    if case["kind"] in ("const", "allconst") and case["what"] in ("scale", "shift", "both"):
        return False  # rounding decides whether a column is constant
    k = min(case["k"], n, d)
    Y, perm, ins = X.copy(), np.arange(n), None
    w = case["what"]
    sc = np.abs(X).max(axis=0)
    if w in ("shift", "both"):
        Y = Y + sc * r.uniform(-5, 5, d)
    if w in ("scale", "both"):
        Y = Y * 10.0 ** r.uniform(-12, 12, d)
    if w == "rows":
        perm = r.permutation(n)
        Y = X[perm]
    if w == "const":
        ins = int(r.integers(d + 1))
        Y = np.insert(X, ins, 2.0, axis=1)
    with sut("pca and svd"):
        P, T = pca(X, n_components=k)
        Q, T2 = pca(Y, n_components=k)
        U, s, V = svd(X)
        U2, s2, V2 = svd(Y)
    m = min(len(s), len(s2))
    vclose(P.explained_variance_, Q.explained_variance_, "variances", 1e-7, 1e-8, scale=d)
    vclose(s[:m], s2[:m], "singular values", 1e-7, 1e-6, scale=np.sqrt(n))
    Z = standard(X)
    lam = np.append(np.sort(np.linalg.eigvalsh(Z.T @ Z / n))[::-1], 0.0)
    if lam[0] <= 0 or min(lam[i] - lam[i + 1] for i in range(min(k, len(lam) - 1))) < 1e-3 * lam[0]:
        return False
    B = Q.components_ if ins is None else np.delete(Q.components_, ins, axis=1)
    sg = np.sign((P.components_ * B).sum(axis=1))
    vclose(B * sg[:, None], P.components_, "directions", 1e-5, 1e-6)
    vclose(T2 * sg, T[perm], "scores", 1e-5, 1e-6, scale=np.sqrt(n))
    if ins is not None:
        vclose(Q.components_[:, ins], np.zeros(k), "weight of a constant column", 0, 1e-6)
    return d > 1, w


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, shape=st.one_of(st.lists(st.integers(1, 4), min_size=3, max_size=4),
                                                           st.lists(st.integers(1, 5), min_size=0, max_size=1)),
                               lst=st.booleans())),
    n=300, rule="every case")
def not_two_dimensional(case):
    x = rng(case).standard_normal(tuple(case["shape"]))
    x = np.asarray(x).tolist() if case["lst"] else x
    for f in (pca, svd):
        raises(lambda: f(x), (ValueError,), f"{f.__name__} of {len(case['shape'])}-dimensional data")
    return True, f"{len(case['shape'])}-d"
