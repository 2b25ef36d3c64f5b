"""P16: null spaces and rank decompositions."""
import numpy as np
from hypothesis import strategies as st
from mud.util import null_space, rank_decomposition

from ..core import *  # noqa: F403

SUITE = Suite("P16", quick=4)
EPS = np.finfo(float).eps


def unitary(r, n, cplx=False):
    z = r.standard_normal((n, n)) + (1j * r.standard_normal((n, n)) if cplx else 0)
    return np.linalg.qr(z)[0]


def with_values(r, m, n, s, cplx):
    k = min(m, n)
    u, v = unitary(r, m, cplx), unitary(r, n, cplx)
    return (u[:, :k] * s) @ v[:k]


form = st.sampled_from(["array", "array", "list", "fortran", "strided"])
few = st.one_of(st.integers(1, 5), st.integers(1, 14))
size = st.one_of(few, few, few, st.sampled_from([25, 40]))


def check_null(A, Z, dim, tol, what):
    A, Z = np.asarray(A), np.asarray(Z)
    m, n = A.shape
    need(Z.ndim == 2 and Z.shape[0] == n, f"{what}: shape {Z.shape} for a matrix {A.shape}")
    need(Z.shape[1] == dim, f"{what}: dimension {Z.shape[1]}, expected {dim}")
    s0 = np.linalg.norm(A, 2)
    vclose(np.abs(Z.conj().T @ Z - np.eye(dim)), np.zeros((dim, dim)), f"{what}: orthonormal", 0, 1e-11)
    if dim:
        r = np.linalg.norm(A @ Z, axis=0)
        lim = s0 * (1.000001 * tol + 20 * EPS * max(m, n))
        need((r <= lim).all(), f"{what}: mapped to {r.max()!r}, tolerance {lim!r}")


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, m=size, n=size, zeros=st.integers(0, 6), small=st.integers(0, 3),
                               rexp=st.floats(-12, -1), scale=st.sampled_from([-8, -3, 0, 0, 3, 8]), cplx=st.sampled_from(
                                   [False, False, True]), form=form, pos=st.booleans())),
    n=3000, rule="the null space is neither empty nor everything")
def given_tolerance(case):
    """Singular values clearly above and clearly below the tolerance."""
    r = rng(case)
    m, n, k = case["m"], case["n"], min(case["m"], case["n"])
    rcond = 10.0 ** case["rexp"]
    s = rcond ** (0.8 * r.random(k))  # above, up to one
    s = np.maximum(s, 2 * rcond)
    z = min(case["zeros"], k - 1)
    w = min(case["small"], k - 1 - z)
    s[0] = 1.0
    if w:
        s[k - z - w:k - z] = np.minimum(rcond / 2, 1) * r.uniform(0.01, 1, w)
    if z:
        s[k - z:] = 0.0
    A = with_values(r, m, n, s, case["cplx"]) * 10.0 ** case["scale"]
    arg = layout(A, case["form"])
    F = Frozen(A=arg)
    with sut("null_space"):
        Z = null_space(arg, rcond) if case["pos"] else null_space(arg, rcond=rcond)
    F.verify("null_space")
    dim = n - (k - z - w)
    check_null(A, Z, dim, rcond, f"tolerance {rcond:.1e}")
    return 0 < dim < n, f"dim {dim}"


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, m=few, n=few, scale=st.sampled_from([-100, -8, 0, 0, 8, 100]),
                               vals=st.lists(st.sampled_from(["one", "big", "above", "below", "zero", "far"]), min_size=1,
                                             max_size=14), passed=st.sampled_from(["no", "none", "none", "zero", "finer"]), form=form)),
    n=2000, rule="the null space is neither empty nor everything")
def default_tolerance(case):
    """Scaled permutation matrices: the singular values are known exactly."""
    r = rng(case)
    m, n = case["m"], case["n"]
    k = min(m, n)
    tol = EPS * max(m, n)
    val = {"one": 1.0, "big": 1e-3, "above": tol * 1.7, "below": tol * 0.6, "zero": 0.0, "far": 1e-20}
    s = np.array([val[v] for v in (case["vals"] * 14)[:k]])
    if k and max(s) > 0:
        s[int(r.integers(k))] = 1.0
    A = np.zeros((m, n))
    A[r.permutation(m)[:k], r.permutation(n)[:k]] = s * np.where(r.random(k) < 0.5, -1, 1)
    A *= 10.0 ** case["scale"]
    rc = {"zero": 0.0, "finer": 1e-18}.get(case["passed"])
    tol = tol if rc is None else rc
    with sut("null_space"):
        Z = null_space(layout(A, case["form"])) if case["passed"] == "no" else null_space(layout(A, case["form"]), rc)
    dim = n - int((s > tol).sum()) if max(s) == 1.0 else n - int((s > 0).sum())
    if max(s) != 1.0 and max(s) > 0:
        dim = n - int((s > tol * max(s)).sum())
    check_null(A, Z, dim, tol, "default tolerance")
    return 0 < dim < n, f"dim {dim}"


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, m=size, n=size, kind=st.sampled_from(["normal", "ints", "lowint", "dup", "zero"]),
                               rcond=st.sampled_from([None, 1e-9, 1e-9]), form=form, narrow=st.booleans())),
    n=2000, rule="the null space is neither empty nor everything")
def ordinary_matrices(case):
    r = rng(case)
    m, n, kind = case["m"], case["n"], case["kind"]
    if kind == "normal":
        A = r.standard_normal((m, n))
    elif kind == "ints":
        A = r.integers(-3, 4, (m, n))
    elif kind == "lowint":
        k = int(r.integers(1, min(m, n) + 1))
        A = r.integers(-2, 3, (m, k)) @ r.integers(-2, 3, (k, n))
    elif kind == "dup":
        A = r.standard_normal((m, n))[:, r.integers(0, n, n)]
    else:
        A = np.zeros((m, n))
    A = narrow(A) if case["narrow"] and kind in ("ints", "lowint") else A
    s = np.linalg.svd(A, compute_uv=False)
    # exact rank up to rounding: a wide gap is required
    nz = s > 1e-6 * max(s[0], 1e-300)
    if ((s > 1e-12 * s[0]) != nz).any():
        return False
    dim = n - int(nz.sum())
    rc = case["rcond"]
    if rc is None and kind in ("lowint", "dup", "ints") and (~nz).any() and (s[~nz] > 0).any():
        rc = 1e-9  # rounding decides at the default
    with sut("null_space"):
        Z = null_space(layout(A, case["form"])) if rc is None else null_space(layout(A, case["form"]), rcond=rc)
    check_null(A, Z, dim, 1e-12, kind)
    return 0 < dim < n, kind


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, m=size, n=size, kind=st.sampled_from(
        ["normal", "ints", "low", "zero", "equal", "graded", "identity", "cplx"]),
        scale=st.sampled_from([-6, 0, 0, 6]), form=form)),
    n=2500, rule="rank above one")
def rank_approximations(case):
    r = rng(case)
    m, n, kind = case["m"], case["n"], case["kind"]
    k = min(m, n)
    if kind == "normal":
        A = r.standard_normal((m, n))
    elif kind == "cplx":
        A = r.standard_normal((m, n)) + 1j * r.standard_normal((m, n))
    elif kind == "ints":
        A = r.integers(-3, 4, (m, n))
    elif kind == "low":
        A = r.standard_normal((m, 1)) @ r.standard_normal((1, n))
    elif kind == "zero":
        A = np.zeros((m, n))
    elif kind == "equal":
        A = with_values(r, m, n, np.ones(k), False)
    elif kind == "identity":
        A = np.eye(m, n)
    else:
        A = with_values(r, m, n, 10.0 ** -np.arange(k), False)
    if kind != "ints":
        A = A * 10.0 ** case["scale"]
    arg = layout(A, case["form"])
    F = Frozen(A=arg)
    with sut("rank_decomposition"):
        L = rank_decomposition(arg)
    F.verify("rank_decomposition")
    need(len(L) == k, f"{len(L)} approximations of a matrix {A.shape}")
    s = np.linalg.svd(A, compute_uv=False)
    s0 = max(s[0], 1e-300)
    for i, B in enumerate(L, 1):
        B = np.asarray(B)
        need(B.shape == A.shape, f"approximation {i} has shape {B.shape}")
        t = np.linalg.svd(B, compute_uv=False)
        need((t[i:] <= 1e-12 * s0).all(), f"approximation {i} has rank above {i}")
        err = np.linalg.norm(A - B)
        best = np.sqrt((s[i:] ** 2).sum())
        need(err <= best * (1 + 1e-9) + 1e-13 * s0 * k, f"approximation {i}: error {err!r}, best {best!r}")
    vclose(np.abs(L[-1] - A), np.zeros(A.shape), "last approximation", 0, 1e-12 * s0)
    return k > 1 and s[0] > 0, kind
