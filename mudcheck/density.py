"""Generators shared by the density-problem properties."""
import numpy as np
from hypothesis import strategies as st

from .core import numbers, rng, seeds
from .models import Dist

MAPS = ("linear", "square", "mixed", "noise")
dim = st.integers(1, 3)


def samples(case):
    """X (n, p), y (n, q): outputs are some function of the parameters plus a
    little scatter, so that the predicted covariance is well conditioned."""
    r = rng(case)
    n, p, q = case["n"], case["p"], case["q"]
    X = numbers(r, (n, p), case["style"])
    X[0, np.ptp(X, axis=0) == 0] += 1.0  # a box around the samples exists
    Z = X / (np.std(X, axis=0) + 1e-9)
    M = r.standard_normal((p, q))
    kind = case.get("map", "linear")
    y = Z @ M
    if kind == "square":
        y = y + 0.3 * (Z**2) @ r.standard_normal((p, q))
    elif kind == "mixed":
        y = np.sin(y) * 2
    elif kind == "noise":
        y = r.standard_normal((n, q))
    y = y + 0.3 * r.standard_normal((n, q))
    num = case.get("num", "float")
    if num == "int-X":
        X = np.round(X * 20 / (np.abs(X).max() + 1e-300))
        X[0, np.ptp(X, axis=0) == 0] += 1.0
    if num in ("int-y", "float32"):
        y = np.round(y * 4)
    return X * 10.0 ** case.get("xscale", 0), y * 10.0 ** case.get("yscale", 0)


def typed(case, X, y):
    """The samples in another number type that holds them exactly."""
    num = case.get("num", "float")
    if num == "int-X":
        t = (np.int64, np.int32, np.int8)[case["seed"] % 3]
        X = X.astype(t)
    if num == "int-y":
        y = y.astype((np.int64, np.int32, np.int16)[case["seed"] % 3])
    if num == "float32":
        y = y.astype(np.float32)
    return X, y


def weights(case, kind, n, salt=7):
    r = rng(case, salt)
    if kind == "none":
        return None
    if kind == "ones":
        return np.ones(n)
    if kind == "const":
        return np.full(n, 2.5)
    if kind == "random":
        return r.uniform(0.2, 2.0, n)
    if kind == "ints":
        return r.integers(1, 4, n)
    if kind == "zeros":
        w = r.uniform(0.2, 2.0, n)
        k = max(0, (n - 10) // 2)
        w[r.permutation(n)[:k]] = 0.0
        return w
    if kind == "stack2":
        return r.uniform(0.3, 2.0, (2, n))
    if kind == "stack3":
        return r.uniform(0.5, 2.0, (3, n))
    if kind == "stack8":
        return r.uniform(0.5, 2.0, (int(r.integers(4, 9)), n))
    if kind == "tiny":
        return r.uniform(0.2, 2.0, n) * 1e-9
    if kind == "row":
        return r.uniform(0.2, 2.0, (1, n))
    if kind in ("mean1", "sum1", "norm1", "max1"):
        w = r.uniform(0.2, 2.0, n)
        return w / {"mean1": w.mean(), "sum1": w.sum(), "norm1": np.linalg.norm(w), "max1": w.max()}[kind]
    if kind == "bytes":
        return r.integers(1, 200, n).astype(np.uint8)
    if kind == "byte-stack":
        return r.integers(1, 60, (int(r.integers(2, 4)), n)).astype(r.choice([np.uint8, np.int8, np.int16]))
    if kind == "spread":  # some samples hardly count
        w = r.uniform(0.2, 2.0, n)
        k = max(0, (n - 10) // 2)
        w[r.permutation(n)[:k]] = 10.0 ** r.uniform(-7, -1, k)
        return w
    raise KeyError(kind)


def combined(w, n):
    if w is None:
        return np.ones(n)
    w = np.asarray(w, float)
    return w if w.ndim == 1 else np.prod(w, axis=0)


WKINDS = ("none", "ones", "const", "random", "ints", "zeros", "stack2", "stack3", "stack8", "tiny", "row", "mean1", "sum1",
          "norm1", "max1", "bytes", "byte-stack", "spread")


def box(x, pad):
    lo, hi = x.min(axis=0), x.max(axis=0)
    ln = hi - lo + (hi == lo)
    return np.array([lo - pad * ln, hi + pad * ln]).T


def dist_for(case, kind, x, salt):
    """A distribution positive on all of x (n, d)."""
    r = rng(case, salt)
    d = x.shape[1]
    m, s = x.mean(axis=0), x.std(axis=0)
    s = s + 1e-3 * (s.max() or 1.0)
    if kind == "norm":
        return Dist({"k": "norm", "loc": (m + 0.5 * s * r.standard_normal(d)).tolist(),
                     "scale": (s * r.uniform(0.7, 2.0, d)).tolist()})
    if kind == "laplace":
        return Dist({"k": "laplace", "loc": (m + 0.5 * s * r.standard_normal(d)).tolist(),
                     "scale": (s * r.uniform(0.7, 2.0, d)).tolist()})
    if kind == "std":
        return Dist({"k": "norm", "loc": 0.0, "scale": 1.0})
    if kind == "scalar":
        return Dist({"k": "norm", "loc": float(m.mean()), "scale": float(3 * s.max() + abs(m - m.mean()).max())})
    if kind == "uniform":
        b = box(x, r.uniform(0.05, 0.4))
        return Dist({"k": "uniform", "lo": b[:, 0].tolist(), "width": (b[:, 1] - b[:, 0]).tolist()})
    if kind == "cut":  # zero on some samples
        b = box(x, 0.1)
        w = b[:, 1] - b[:, 0]
        return Dist({"k": "uniform", "lo": (b[:, 0] + 0.05 * w).tolist(), "width": (0.8 * w).tolist()})
    raise KeyError(kind)


def base(**extra):
    """n >= q + enough samples for the density estimate."""
    d = dict(
        seed=seeds,
        n=st.one_of(st.integers(12, 40), st.integers(12, 40), st.integers(12, 120), st.integers(12, 120), st.sampled_from([150, 300, 600])),
        p=dim, q=dim,
        style=st.sampled_from(["normal", "uniform", "offset", "small", "large", "grid", "mixed"]),
        map=st.sampled_from(MAPS),
    )
    d.update(extra)
    return st.fixed_dictionaries(d)
