"""Shared parts of all checks: violations, comparisons, generators, registry."""
import contextlib
import copy
import hashlib
import json
import os
import random
import traceback
import warnings

import numpy as np
from hypothesis import strategies as st

REPO = "/repo"


class Violation(Exception):
    """The property does not hold on the case at hand."""


class HarnessError(Exception):
    """Something is wrong with the check itself."""


class Check:
    def __init__(self, name, strategy, fn, n, thorough, rule):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.n, self.thorough, self.rule = n, thorough, rule


class Suite:
    """The checks deciding one property."""

    def __init__(self, pid, quick=1):
        self.pid, self.checks, self.probes, self.quick = pid, [], [], quick

    def finding(self, name):
        """Registers a probe for one recorded defect: returns a text while the
        defect is there in exactly the recorded form, None once it is gone,
        and raises Violation for anything else."""
        def deco(fn):
            self.probes.append((name, fn))
            return fn

        return deco

    def check(self, strategy, n=400, thorough=None, rule="every case"):
        def deco(fn):
            self.checks.append(
                Check(fn.__name__, strategy, fn, n * self.quick, thorough or n * 40, rule)
            )
            return fn

        return deco

    def get(self, name):
        for n, fn in self.probes:
            if name == "finding:" + n:
                return Check(name, None, probe_case(n, fn), 1, 1, "")
        for c in self.checks:
            if c.name == name:
                return c
        raise HarnessError(f"no check {name}")


# --------------------------------------------------------------------------
# recorded defects


def known_findings(pid=None):
    """Names in known_findings.txt: lines `finding: property=<id> <name> <what
    fails>`."""
    res = set()
    try:
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")) as fp:
            for line in fp:
                w = line.split()
                if len(w) > 2 and w[0] == "finding:" and (pid is None or w[1] == f"property={pid}"):
                    res.add(w[2])
    except FileNotFoundError:
        pass
    return res


KNOWN = known_findings()


def known(name):
    """A recorded defect; generated cases accept exactly its result."""
    return name in KNOWN


def probe_case(name, fn):
    """The probe as a check on its own: a defect not recorded is a violation."""
    def run(case):
        text = fn()
        if text and not known(name):
            raise Violation(f"{name}: {text}")
        return bool(text)

    return run


# --------------------------------------------------------------------------
# running one case


def reset_state():
    """Every case starts from the same global state."""
    import matplotlib.pyplot as plt

    plt.close("all")
    np.random.seed(12345)
    random.seed(12345)


def run_case(check, case):
    """Returns (nontrivial, label); raises Violation."""
    reset_state()
    case = copy.deepcopy(case)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                res = check.fn(case)
    except (Violation, HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        # The cases are generated inside the documented domain: an exception
        # on the way, or a result that cannot even be compared, breaks the
        # property.
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{f.filename}:{f.lineno}" for f in reversed(tb[-4:]))
        raise Violation(f"unexpected {type(e).__name__}: {e} at {where}") from None
    if res is None:
        res = True
    if isinstance(res, tuple):
        return bool(res[0]), str(res[1])
    return bool(res), ""


def digest(case):
    return hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


# --------------------------------------------------------------------------
# comparisons


def _short(x):
    s = np.array2string(np.asarray(x), precision=6, threshold=12, edgeitems=3)
    return " ".join(s.split())[:160]


def need(cond, msg):
    if not cond:
        raise Violation(msg)


def close(got, want, what, rtol=1e-6, atol=1e-9, shape=True):
    """got equals want up to rounding; shapes must agree unless shape=False
    (then both are compared as flat sequences)."""
    try:
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
    except Exception:
        raise Violation(f"{what}: not numeric: {got!r:.120}") from None
    if shape and g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}")
    g, w = g.ravel(), w.ravel()
    if g.size != w.size:
        raise Violation(f"{what}: {g.size} values, expected {w.size}")
    ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
    if not ok.all():
        i = int(np.argmin(ok))
        raise Violation(
            f"{what}: entry {i} is {g[i]!r}, expected {w[i]!r};"
            f" got {_short(g)} expected {_short(w)}"
        )


def vclose(got, want, what, rtol=1e-6, atol=1e-9, scale=None, shape=False):
    """Norm-wise comparison of vectors/matrices (rounding is relative to the
    largest entry)."""
    w = np.asarray(want, dtype=float)
    s = float(np.max(np.abs(w))) if w.size else 0.0
    if scale is not None:
        s = max(s, float(scale))
    close(got, want, what, rtol=0, atol=atol + rtol * s, shape=shape)


def same(got, want, what):
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape or not np.array_equal(g, w):
        raise Violation(f"{what}: {_short(g)} expected {_short(w)}")


def raises(fn, exc, what):
    """The call is refused; the kind of error must be one of exc."""
    try:
        r = fn()
    except exc as e:
        return e
    except Exception as e:
        raise Violation(f"{what}: refused with {type(e).__name__}: {e}") from None
    raise Violation(f"{what}: accepted, returned {r!r:.100}")


REFUSALS = (ValueError, AssertionError, TypeError, AttributeError, IndexError, KeyError)


def is_row(X, row, what):
    """row is one of the rows of X; returns the indices it matches."""
    X = np.asarray(X, dtype=float)
    row = np.asarray(row, dtype=float)
    if row.shape != X.shape[1:]:
        raise Violation(f"{what}: shape {row.shape}, expected {X.shape[1:]}")
    idx = np.where((np.abs(X - row) <= 1e-12 * np.abs(X).max(axis=0, initial=0)).all(axis=1))[0]
    if len(idx) == 0:
        raise Violation(f"{what}: {_short(row)} is not one of the samples")
    return idx


def maximises(score, idx, what, rtol=1e-7):
    """One of the candidates idx attains the maximum of score up to rounding."""
    score = np.asarray(score, dtype=float)
    best = np.max(score)
    got = np.max(score[idx])
    tol = rtol * max(abs(best), 1e-300)
    if not got >= best - tol:
        raise Violation(f"{what}: value {got!r} at the returned sample, maximum {best!r}")


class Frozen:
    """Snapshot of arguments; later compared with what became of them."""

    def __init__(self, **objs):
        self.objs = objs
        self.snap = {k: copy.deepcopy(v) for k, v in objs.items()}

    def verify(self, what):
        for k, v in self.objs.items():
            if not deep_equal(v, self.snap[k]):
                raise Violation(
                    f"{what} changed the caller's {k}: {v!r:.120} was {self.snap[k]!r:.120}"
                )


def deep_equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if type(a) is not type(b) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype == object:
            return all(deep_equal(x, y) for x, y in zip(a.ravel(), b.ravel()))
        if a.dtype.kind in "fc":
            return np.array_equal(a, b, equal_nan=True)
        return np.array_equal(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(deep_equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(deep_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float, str, bool, type(None), bytes, np.generic)):
        return a == b or (a != a and b != b)
    return True  # opaque objects


@contextlib.contextmanager
def sut(what):
    """Names the call in a report when it fails in the code under test."""
    try:
        yield
    except (Violation, HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        raise Violation(
            f"{what} failed: {type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].lineno}"
        ) from None


def private(obj, name):
    """Value of an attribute the repository's own tests read; None when a
    rewrite dropped it."""
    return getattr(obj, name, None)


# --------------------------------------------------------------------------
# generators.  Sizes, flags, options and operation lists are drawn directly;
# bulk numbers come from a generator whose seed and style are drawn.

seeds = st.integers(0, 2**32 - 1)
STYLES = ("normal", "grid", "uniform", "offset", "small", "large", "mixed")
styles = st.sampled_from(STYLES)


def upto(lo, hi, *large):
    """lo..hi, and now and then one of the large values."""
    return st.one_of(*[st.integers(lo, hi)] * 5, st.sampled_from(large))



def rng(case, salt=0):
    return np.random.default_rng([int(case["seed"]), salt])


def numbers(r, shape, style="normal"):
    """Random numbers: smooth, on a coarse grid (ties, zeros), shifted, of
    very small or large magnitude, or of different magnitude per column."""
    if style == "grid":
        return r.integers(-4, 5, size=shape) / 2.0
    if style == "uniform":
        return r.uniform(0, 1, size=shape)
    z = r.standard_normal(shape)
    if style == "offset":
        return z + 5.0
    if style == "small":
        return z * 1e-3
    if style == "large":
        return z * 1e3
    if style == "mixed":
        n = np.shape(z)[-1] if np.ndim(z) else 1
        return z * 10.0 ** r.integers(-2, 3, size=n)
    return z


def spd(r, n, cond=1.0, style="full"):
    """Symmetric positive definite, condition number about 10**cond."""
    if style == "eye":
        return np.eye(n)
    d = 10.0 ** (r.uniform(-cond / 2, cond / 2, size=n))
    if style == "diag":
        return np.diag(d)
    q, _ = np.linalg.qr(r.standard_normal((n, n)))
    m = (q * d) @ q.T
    return (m + m.T) / 2


def full_rank(r, m, n, cond=1.0):
    """m x n of full rank with singular values within 10**+-cond/2."""
    k = min(m, n)
    u, _ = np.linalg.qr(r.standard_normal((m, m)))
    v, _ = np.linalg.qr(r.standard_normal((n, n)))
    s = 10.0 ** (r.uniform(-cond / 2, cond / 2, size=k))
    return (u[:, :k] * s) @ v[:, :k].T


def layout(x, how):
    """Same numbers in another container or memory layout."""
    x = np.asarray(x)
    if how == "list":
        return x.tolist()
    if how == "fortran":
        return np.asfortranarray(x)
    if how == "strided":
        big = np.zeros(tuple(2 * s for s in x.shape), dtype=x.dtype)
        view = big[tuple(slice(None, None, 2) for _ in x.shape)]
        view[...] = x
        return view
    return np.array(x)


layouts = st.sampled_from(["array", "fortran", "strided"])


def narrow(x):
    """Whole numbers in the smallest type which holds them."""
    x = np.asarray(x)
    lo, hi = (float(x.min()), float(x.max())) if x.size else (0, 0)
    for t in (np.uint8, np.int8, np.int16, np.int32):
        if np.iinfo(t).min <= lo and hi <= np.iinfo(t).max:
            return x.astype(t)
    return x.astype(np.int64)


def whole(x, how):
    """x scaled and rounded to whole numbers below 100 (how: unsigned, else
    signed), as float64: what the reference computes with."""
    x = np.asarray(x, float)
    if how == "unsigned":
        x = x - x.min()
    m = np.abs(x).max()
    return np.rint(x * (100 / m if m else 1.0))
