"""P07: updated covariance."""
import numpy as np
from hypothesis import strategies as st
from mud.base import LinearGaussianProblem
from mud.funs import mud_sol_with_cov, updated_cov

from ..core import *  # noqa: F403
from ..linear import COVS, EACH, FIELDS, UNITS, Lin, change, cov, each_unit, space, unit_factors

SUITE = Suite("P07", quick=4)
alphas = st.sampled_from([1.0, 1.0, 0.1, 7.0])


def ref(A, C, S):
    P = A @ C @ A.T
    K = C @ A.T @ np.linalg.pinv(P, rcond=1e-10)
    return C - K @ (P - S) @ K.T


def identities(A, C, S, U, what, al=1.0):
    """Full row rank: push-forward, uninformed directions, positivity."""
    m, n = A.shape
    need(np.shape(U) == (n, n), f"{what}: shape {np.shape(U)}")
    P = A @ C @ A.T
    k = np.linalg.cond(P)
    sc = max(np.abs(C).max(), np.abs(U).max())
    tol = 1e-7 + 1e-14 * k * np.linalg.cond(C)
    vclose(U, U.T, f"{what}: symmetry", tol, 0, scale=sc)
    s = np.linalg.norm(A) ** 2 * sc
    vclose(A @ U @ A.T, S, f"{what}: push-forward", tol, 0, scale=s)
    N = np.linalg.svd(A)[2][m:].T  # directions the data do not inform
    vclose(U @ np.linalg.solve(C, N), N, f"{what}: uninformed directions", tol, 0,
           scale=np.linalg.cond(C) + sc * np.linalg.norm(np.linalg.inv(C)))
    w = np.linalg.eigvalsh((U + U.T) / 2)
    need(w[0] >= -tol * sc, f"{what}: eigenvalue {w[0]!r}")
    # inverse form
    Si, Pi = np.linalg.inv(S), np.linalg.inv(P)
    H = A.T @ (Si - Pi) @ A + np.linalg.inv(C)
    # U is a difference of matrices of size sc, known to about tol * 1e-7
    err = (tol * 1e-7 + 1e-14 * np.linalg.cond(S)) * sc * (np.linalg.norm(H) + np.linalg.norm(A) ** 2 * np.linalg.norm(Pi))
    if err < 1e-4:
        vclose(U @ H, np.eye(n), f"{what}: inverse form", 1e-6 + 10 * err, 0, scale=1.0)


@SUITE.check(space(wide_only=True, alpha=alphas), n=2500, rule="more parameters than outputs or a given covariance")
def full_row_rank(case):
    L = Lin(case)
    A, al = L.A, case["alpha"]
    arg, ci, co = (L.mat(x, "fortran" if L.form == "fortran" else "col") for x in (A, L.ci_arg, L.co_arg))
    with sut("updated_cov"):
        u1 = updated_cov(arg, ci, co)
        u2 = updated_cov(arg, init_cov=ci, data_cov=co)
        P = L.lgp()
        u3 = P.updated_cov()
        P.solve("mud_alt")
        u4 = P.up_cov
        _, u5 = L.fun(mud_sol_with_cov)
        Q = L.lgp(alpha=al)
        Q.solve("all")
        u6 = Q.up_cov
        u7 = LinearGaussianProblem(np.eye(2)).updated_cov(arg, L.C if ci is None else ci, L.S if co is None else co)
    for name, u, C in (("updated_cov", u1, L.C), ("updated_cov (keywords)", u2, L.C), ("method", u3, L.C),
                       ("up_cov after mud_alt", u4, L.C), ("mud_sol_with_cov", u5, L.C),
                       ("up_cov after all", u6, al * L.C), ("method with arguments", u7, L.C)):
        identities(A, C, L.S, u, name)
        w = ref(A, C, L.S)
        k = np.linalg.cond(A @ C @ A.T)
        vclose(u, w, name, 1e-7 + 1e-14 * k * np.linalg.cond(C), 0, scale=np.abs(C).max())
    return L.n > L.m or L.ci_arg is not None or L.co_arg is not None, case["kind"]


@SUITE.check(space(alpha=alphas), n=1500, rule="the map is not of full row rank")
def any_rank(case):
    L = Lin(case)
    if L.gap(L.A @ L.C @ L.A.T, L.rank) > 4e-16:
        return False, "ambiguous rank"
    with sut("updated_cov"):
        u1 = updated_cov(L.A, L.ci_arg, L.co_arg)
        u2 = L.lgp().updated_cov()
        u3 = LinearGaussianProblem(L.A.tolist()).updated_cov(init_cov=L.C, data_cov=L.S)
    want = ref(L.A, L.C, L.S)
    s = np.linalg.svd(L.A @ L.C @ L.A.T, compute_uv=False)
    tol = 1e-7 + 1e-14 * s[0] / s[L.rank - 1] * np.linalg.cond(L.C)
    for name, u in (("updated_cov", u1), ("method", u2), ("method with covariances", u3)):
        need(np.shape(u) == (L.n, L.n), f"{name}: shape {np.shape(u)}")
        vclose(u, want, name, tol, 0, scale=np.abs(L.C).max())
        vclose(u, np.asarray(u).T, name + ": symmetry", tol, 0, scale=np.abs(L.C).max())
    return not L.full_row, case["kind"]


@SUITE.check(space(), n=700, rule="a covariance is missing")
def missing_are_identities(case):
    L = Lin(case)
    if L.gap(L.A @ L.A.T, L.rank) > 4e-16 or L.gap(L.A @ L.C @ L.A.T, L.rank) > 4e-16:
        return False
    I, J = np.eye(L.n), np.eye(L.m)
    with sut("updated_cov"):
        pairs = [
            (updated_cov(L.A), updated_cov(L.A, I, J), ref(L.A, I, J)),
            (updated_cov(L.A, data_cov=L.S), updated_cov(L.A, I, L.S), ref(L.A, I, L.S)),
            (updated_cov(L.A, init_cov=L.C), updated_cov(L.A, L.C, J), ref(L.A, L.C, J)),
            (LinearGaussianProblem(L.A).updated_cov(), updated_cov(L.A, I, J), ref(L.A, I, J)),
            (LinearGaussianProblem(L.A, cov_o=L.S).updated_cov(), updated_cov(L.A, I, L.S), ref(L.A, I, L.S)),
            (LinearGaussianProblem(L.A, cov_i=L.C).updated_cov(), updated_cov(L.A, L.C, J), ref(L.A, L.C, J)),
            (L.lgp().updated_cov(data_cov=J), updated_cov(L.A, L.C, J), ref(L.A, L.C, J)),
            (L.lgp().updated_cov(init_cov=I), updated_cov(L.A, I, L.S), ref(L.A, I, L.S)),
        ]
    for i, (a, b, w) in enumerate(pairs):
        s = np.linalg.svd(L.A, compute_uv=False)
        tol = 1e-7 + 1e-14 * (s[0] / s[L.rank - 1]) ** 2 * np.linalg.cond(L.C) ** 2
        vclose(a, b, f"pair {i}", tol, 0, scale=max(np.abs(w).max(), 1.0 if i else 0))
        vclose(a, w, f"pair {i} definition", tol, 0, scale=np.abs(w).max() + np.abs(L.C).max() + 1)
    return True, case["kind"]


@SUITE.check(space(wide_only=True, co2=st.sampled_from(COVS), n=st.integers(200, 400)), n=60,
             rule="every case")
def samples_push_forward(case):
    """Gaussian samples with the updated covariance map to samples with the
    data covariance (through the solver's point)."""
    L = Lin(case)
    with sut("solve"):
        x, U = L.fun(mud_sol_with_cov)
    U = np.asarray(U)
    w, V = np.linalg.eigh((U + U.T) / 2)
    R = V * np.sqrt(np.maximum(w, 0))
    k = np.linalg.cond(L.A @ L.C @ L.A.T)
    vclose(L.A @ R @ R.T @ L.A.T, L.S, "covariance of mapped samples", 1e-6 + 1e-14 * k * np.linalg.cond(L.C), 0,
           scale=np.linalg.norm(L.A) ** 2 * max(np.abs(L.C).max(), np.abs(U).max()))
    return True


@SUITE.check(space(wide_only=True, alpha=alphas, **UNITS), n=900, rule="units differ by more than a factor 1000")
def units(case):
    """Measuring parameters and outputs in other units changes nothing."""
    L = Lin(case)
    u, v = unit_factors(case)
    K = L.in_units(u, v)

    def run(M):
        P = M.lgp(alpha=case["alpha"])
        P.solve("mud_alt")
        return {"updated_cov": updated_cov(M.A, M.C, M.S), "method": M.lgp().updated_cov(), "up_cov": P.up_cov,
                "mud_sol_with_cov": M.fun(mud_sol_with_cov)[1]}

    with sut("updated covariance"):
        a, b = run(L), run(K)
    k = np.linalg.cond(L.A @ L.C @ L.A.T)
    for name in a:
        vclose(b[name] / u**2, a[name], f"{name} in other units", 1e-7 + 1e-14 * k * np.linalg.cond(L.C), 0, scale=np.abs(L.C).max())
        identities(L.A, (case["alpha"] if name == "up_cov" else 1) * L.C, L.S, b[name] / u**2, f"{name} in other units")
    return abs(case["u"]) > 10 or abs(case["v"]) > 10, "units"


@SUITE.check(space(wide_only=True, alpha=alphas, **EACH), n=700, rule="units of outputs differ by more than a factor 1000")
def every_unit(case):
    """Each parameter and output in a unit of its own changes nothing."""
    L = Lin(case)
    u, v = each_unit(L, case)
    K = L.in_units(u, v)
    al = case["alpha"]
    P, Q = L.A @ L.C @ L.A.T, K.A @ K.C @ K.A.T
    tol = (1e-7 + 1e-14 * np.linalg.cond(P) * np.linalg.cond(Q) * np.linalg.cond(L.C)) * u.max() / u.min()
    if tol > 1e-2 or np.linalg.cond(Q) > 1e13:
        return False, "too far apart"
    with sut("updated covariance"):
        M = K.lgp(alpha=al)
        M.solve("mud_alt")
        got = {"updated_cov": updated_cov(K.A, K.C, K.S), "method": K.lgp().updated_cov(), "up_cov": M.up_cov,
               "mud_sol_with_cov": K.fun(mud_sol_with_cov)[1]}
    for name, U in got.items():
        C = (al if name == "up_cov" else 1) * L.C
        U = (np.asarray(U) / u).T / u
        vclose(U, ref(L.A, C, L.S), f"{name} in other units", tol, 0, scale=np.abs(C).max())
    return case["vs"] > 10, f"{case['us']}/{case['vs']}"


@SUITE.check(space(wide_only=True, alpha=alphas, steps=st.lists(st.tuples(
    st.sampled_from(["updated_cov", "mud_alt", "all"]), st.sampled_from(FIELDS)), min_size=1, max_size=5)),
    n=900, rule="several changes")
def after_changes(case):
    """The covariance is that of the problem as it is now."""
    L = Lin(case)
    r = rng(case, 12)
    al = case["alpha"]
    with sut("problem"):
        P = L.lgp(alpha=al)
    for s, f in list(case["steps"]) + [("updated_cov", None)]:
        with sut(s):
            U = P.updated_cov() if s == "updated_cov" else (P.solve(s), P.up_cov)[1]
        C = L.C if s == "updated_cov" else al * L.C
        k = np.linalg.cond(L.A @ C @ L.A.T)
        if k * np.linalg.cond(C) < 1e10:
            identities(L.A, C, L.S, U, s)
            vclose(U, ref(L.A, C, L.S), s, 1e-7 + 1e-14 * k * np.linalg.cond(C), 0, scale=np.abs(C).max())
        if f:
            al = change(L, P, r, f, case)
    return len({f for _, f in case["steps"]}) > 1, f"{len(case['steps'])}"
