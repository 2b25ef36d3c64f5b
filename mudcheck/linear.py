"""Generators and references shared by the linear-problem properties."""
import copy

import numpy as np
from hypothesis import strategies as st

from .core import full_rank, narrow, numbers, rng, seeds, spd, upto

COVS = ("none", "eye", "diag", "full", "scaled", "large", "small")


def space(wide_only=False, **extra):
    """wide: full row rank; square; tall: full column rank; low: rank-deficient."""
    kinds = ["wide", "wide", "square", "row"] if wide_only else ["wide", "square", "row", "tall", "low", "zero"]
    d = dict(
        seed=seeds, kind=st.sampled_from(kinds), a=upto(1, 6, 9, 12, 20), d=upto(0, 6, 10, 15, 30),
        acond=st.sampled_from([0.0, 0.5, 1.5]), ascale=st.sampled_from([-2, -1, 0, 0, 0, 1, 2]),
        ints=st.booleans(), ci=st.sampled_from(COVS), co=st.sampled_from(COVS),
        b=st.sampled_from(["none", "zero", "num", "large"]), y=st.sampled_from(["none", "num", "num", "large"]),
        mean=st.sampled_from(["none", "num", "num", "large"]),
        form=st.sampled_from(["col", "flat", "list", "fortran"]),
        num=st.sampled_from(["float", "float", "float", "map", "vecs", "all"]), narrow=st.booleans(),
    )
    d.update(extra)
    return st.fixed_dictionaries(d)


def cov(r, n, kind):
    """None or a symmetric positive definite matrix."""
    if kind == "none":
        return None
    if kind == "eye":
        return np.eye(n)
    if kind == "diag":
        return spd(r, n, 1.0, "diag")
    f = {"scaled": 10.0 ** r.uniform(-1, 1), "large": 1e3, "small": 1e-3}.get(kind, 1.0)
    return f * spd(r, n, 1.0)


def whole_cov(r, n):
    G = r.integers(-2, 3, (n, n))
    return (G @ G.T + np.eye(n, dtype=int)).astype(float)


def vec(r, n, kind):
    if kind == "none":
        return None
    if kind == "zero":
        return np.zeros(n)
    return r.standard_normal(n) * (50.0 if kind == "large" else 1.0)


def int_full_rank(r, m, n):
    for _ in range(200):
        A = r.integers(-3, 4, (m, n)).astype(float)
        s = np.linalg.svd(A, compute_uv=False)
        if s[-1] > 0.2:
            return A
    return np.eye(m, n)


UNITS = dict(u=st.integers(-30, 30), v=st.integers(-30, 30))


def each_unit(L, case):
    """A unit of its own for every parameter and output: their magnitudes
    spread over up to the given numbers of binary orders."""
    r = rng(case, 9)
    return 2.0 ** np.rint(case["us"] * r.uniform(-0.5, 0.5, L.n)), 2.0 ** np.rint(case["vs"] * r.uniform(-0.5, 0.5, L.m))


EACH = dict(us=st.sampled_from([0, 6, 12]), vs=st.sampled_from([0, 8, 16, 22]))


def unit_factors(case):
    return 2.0 ** case["u"], 2.0 ** case["v"]


class Lin:
    """A linear Gaussian problem: the numbers, and how they are passed."""

    def __init__(self, case):
        r = rng(case)
        k, a, d = case["kind"], case["a"], case["d"]
        m, n = {"wide": (a, a + d), "square": (a, a), "row": (1, a + d), "tall": (a + max(d, 1), a),
                "low": (a + 1, a + 1 + d), "zero": (a + 1, a + d)}[k]
        if k in ("low", "zero"):
            A = int_full_rank(r, m - 1, n) if n >= m - 1 else full_rank(r, m - 1, n, 0.5)
            row = A[int(r.integers(m - 1))] if k == "low" else np.zeros(n)
            A = np.insert(A, int(r.integers(m)), row, axis=0)
        elif case["ints"] or case.get("num") in ("map", "all"):
            A = int_full_rank(r, m, n)
        else:
            A = full_rank(r, m, n, case["acond"])
        self.num, self.narrow = case.get("num", "float"), case.get("narrow", False)
        if self.num in ("map", "all") and case["ascale"] < 0:
            self.num = "float"
        A = A * 10.0 ** case["ascale"]
        if self.num in ("map", "all") and not np.array_equal(A, np.round(A)):
            self.num = "float"
        self.A, self.m, self.n = A, m, n
        self.rank = m - 1 if k in ("low", "zero") and n >= m - 1 else min(m, n)
        self.full_row = self.rank == m
        self.ci_arg, self.co_arg = cov(r, n, case["ci"]), cov(r, m, case["co"])
        self.b_arg, self.y_arg, self.mean_arg = vec(r, m, case["b"]), vec(r, m, case["y"]), vec(r, n, case["mean"])
        if self.num in ("vecs", "all"):
            self.b_arg, self.y_arg, self.mean_arg = (None if x is None else np.round(x * 3) for x in
                                                     (self.b_arg, self.y_arg, self.mean_arg))
        if self.num == "all":
            self.ci_arg = self.ci_arg if case["ci"] in ("none", "eye") else whole_cov(r, n)
            self.co_arg = self.co_arg if case["co"] in ("none", "eye") else whole_cov(r, m)
        self.C = np.eye(n) if self.ci_arg is None else self.ci_arg
        self.S = np.eye(m) if self.co_arg is None else self.co_arg
        self.b = np.zeros(m) if self.b_arg is None else self.b_arg
        self.y = np.zeros(m) if self.y_arg is None else self.y_arg
        self.mean = np.zeros(n) if self.mean_arg is None else self.mean_arg
        self.form = case["form"]
        self.scale = 1 + np.abs(self.mean).max() + np.abs(self.y - self.b).max() / 10.0 ** case["ascale"]

    def typed(self, x, what):
        """Whole numbers are passed as integers where the case says so."""
        if x is None or self.num == "float" or self.num not in ("all", what):
            return x
        if not self.narrow:
            return x.astype(np.int64)
        return narrow(x)

    def v(self, x, form=None):
        f = form or self.form
        if x is None:
            return None
        x = self.typed(x, "vecs")
        if f == "col":
            return x.reshape(-1, 1)
        if f == "list":
            return x.tolist()
        return x.copy()

    def mat(self, x, form=None):
        f = form or self.form
        if x is None:
            return None
        x = self.typed(x, "map" if x is self.A else "all")
        if f == "list":
            return x.tolist()
        if f == "fortran":
            return np.asfortranarray(x)
        return x.copy()

    def lgp(self, **over):
        from mud.base import LinearGaussianProblem as L

        kw = dict(b=self.v(self.b_arg), y=self.v(self.y_arg), mean_i=self.v(self.mean_arg),
                  cov_i=self.mat(self.ci_arg), cov_o=self.mat(self.co_arg))
        kw.update(over)
        A = self.mat(self.A)
        A = A.ravel() if self.m == 1 and self.form == "flat" else A
        return L(A, **kw)

    def fun(self, f, **kw):
        """Functional entry points take arrays."""
        A = self.mat(self.A, "fortran" if self.form == "fortran" else "array")
        form = "col" if self.form == "col" else "flat"
        arr = dict(y=self.v(self.y_arg, form), mean=self.v(self.mean_arg, form),
                   cov=self.mat(self.ci_arg, "array"), data_cov=self.mat(self.co_arg, "array"))
        arr.update(kw)
        return f(A, self.v(self.b_arg, form), **arr)

    def in_units(self, u, v):
        """The same problem with parameters and outputs measured in other
        units (factors u, v, all the same or one each; powers of two, so that
        nothing is rounded)."""
        L = copy.copy(self)
        u, v = np.asarray(u, float), np.asarray(v, float)
        L.num = "float"

        def by(x, f):
            return None if x is None else x * f

        L.A = (self.A.T * v).T / u
        L.ci_arg, L.co_arg = (self.C * u).T * u, (self.S * v).T * v
        L.b_arg, L.y_arg, L.mean_arg = by(self.b_arg, v), by(self.y_arg, v), by(self.mean_arg, u)
        L.C, L.S = L.ci_arg, L.co_arg
        L.b, L.y, L.mean = self.b * v, self.y * v, self.mean * u
        return L

    def gap(self, M, k):
        """Largest spurious singular value of M beyond rank k, relative, by
        several algorithms (their rounding differs)."""
        if k >= min(M.shape):
            return 0.0
        out = [0.0]
        turned = np.random.default_rng(0).permutation(len(M))
        for B in (M, M.T, M[turned][:, turned] if M.shape[0] == M.shape[1] else M[turned]):
            for s in (np.linalg.svd(B, compute_uv=False), np.linalg.svd(B)[1],
                      np.linalg.lstsq(B, np.ones(len(B)), rcond=1e-15)[3]):
                if len(s) > k and s[0] > 0:
                    out.append(float(s[k] / s[0]))
        return max(out)

    def mud_ref(self, rows=None, alpha=1.0):
        A, z = self.A[:rows], (self.y - self.b)[:rows]
        P = A @ self.C @ A.T
        return self.mean + self.C @ A.T @ np.linalg.pinv(P, rcond=1e-10) @ (z - A @ self.mean)

    def alt_tol(self, alpha=1.0, rows=None):
        """Rounding of the update through the updated covariance: a difference
        of predicted and data covariance, divided by the latter."""
        A = self.A[:rows]
        P = alpha * A @ self.C @ A.T
        S = self.S[:len(A), :len(A)]
        amp = np.linalg.cond(P) * np.linalg.norm(P) / np.linalg.svd(S, compute_uv=False)[-1]
        amp = max(amp, np.linalg.cond(P) * np.linalg.cond(S))
        return 1e-6 + 1e-13 * amp

    def null(self):
        _, s, vt = np.linalg.svd(self.A)
        return vt[self.rank:].T


FIELDS = ("A", "b", "y", "mean", "ci", "co", "alpha", "in-place", "all")


def change(L, P, r, what, case):
    """Other numbers, on the problem P and in its description L alike; the
    regularisation weight in force is returned."""
    al = float(P.alpha)
    m, n = L.m, L.n
    if what in ("A", "all"):
        L.A = full_rank(r, m, n, 0.5) * 10.0 ** case["ascale"]
        P.A = L.A.copy()
    if what in ("b", "all"):
        L.b = r.standard_normal(m)
        P.b = L.b.reshape(-1, 1)
    if what in ("y", "all"):
        L.y = r.standard_normal(m)
        P.y = L.y.reshape(-1, 1)
    if what in ("mean", "all"):
        L.mean = r.standard_normal(n)
        P.mean_i = L.mean.reshape(-1, 1)
    if what in ("ci", "all"):
        L.C = spd(r, n, 1.0)
        P.cov_i = L.C.copy()
    if what in ("co", "all"):
        L.S = spd(r, m, 1.0)
        P.cov_o = L.S.copy()
    if what in ("alpha", "all"):
        P.alpha = al = 10.0 ** r.uniform(-1, 1)
    if what == "in-place":  # the same arrays with other contents
        L.A, L.C, L.mean = 2.0 * L.A, 0.5 * L.C, L.mean + 1
        P.A *= 2.0
        P.cov_i *= 0.5
        P.mean_i += 1
    L.rank, L.full_row = min(m, n), m <= n
    L.scale = max(L.scale, 1 + np.abs(L.mean).max() + np.abs(L.y - L.b).max() / 10.0 ** case["ascale"])
    return al
