"""Reference models, written from the definitions, not from the code."""
import itertools

import numpy as np


class KDE:
    """Weighted Gaussian kernel density estimate; data (d, n)."""

    def __init__(self, data, weights=None, bw=None):
        data = np.atleast_2d(np.asarray(data, dtype=float))
        d, n = data.shape
        w = np.ones(n) if weights is None else np.asarray(weights, dtype=float)
        w = w / w.sum()
        s2 = float((w**2).sum())
        neff = 1.0 / s2
        if bw is None or bw == "scott":
            f = neff ** (-1.0 / (d + 4))
        elif bw == "silverman":
            f = (neff * (d + 2) / 4.0) ** (-1.0 / (d + 4))
        else:
            f = float(bw)
        m = data @ w
        c = data - m[:, None]
        self.cov = (c * w) @ c.T / (1.0 - s2) * f**2
        self.data, self.w, self.d, self.neff = data, w, d, neff
        self.inv = np.linalg.inv(self.cov)
        self.norm = 1.0 / np.sqrt((2 * np.pi) ** d * np.linalg.det(self.cov))

    def __call__(self, pts):
        pts = np.atleast_2d(np.asarray(pts, dtype=float))
        out = np.zeros(pts.shape[1])
        for j in range(pts.shape[1]):
            e = self.data - pts[:, j : j + 1]
            q = np.einsum("in,ij,jn->n", e, self.inv, e)
            out[j] = self.norm * np.sum(self.w * np.exp(-0.5 * q))
        return out


def norm_pdf(x, loc=0.0, scale=1.0):
    z = (np.asarray(x, dtype=float) - loc) / scale
    return np.exp(-0.5 * z * z) / (scale * np.sqrt(2 * np.pi))


def uniform_pdf(x, lo, width):
    x = np.asarray(x, dtype=float)
    t = (x - lo) / width
    return np.where((t >= 0) & (t <= 1), 1.0 / width, 0.0)


class Dist:
    """A distribution spec (JSON) as scipy object and as reference pdf.

    {"k": "norm", "loc": [..], "scale": [..]}    one per coordinate (or scalar)
    {"k": "uniform", "lo": [..], "width": [..]}
    {"k": "beta", "a":, "b":, "lo":, "width":}   same in all coordinates
    """

    def __init__(self, spec):
        self.spec = spec

    def scipy(self):
        from scipy.stats import distributions as ds

        s = self.spec
        if s["k"] == "norm":
            return ds.norm(loc=np.array(s["loc"]), scale=np.array(s["scale"]))
        if s["k"] == "uniform":
            return ds.uniform(loc=np.array(s["lo"]), scale=np.array(s["width"]))
        if s["k"] == "laplace":
            return ds.laplace(loc=np.array(s["loc"]), scale=np.array(s["scale"]))
        raise KeyError(s["k"])

    def pdf(self, x):
        """Per-coordinate densities, shape of x."""
        s = self.spec
        if s["k"] == "norm":
            return norm_pdf(x, np.array(s["loc"]), np.array(s["scale"]))
        if s["k"] == "uniform":
            return uniform_pdf(x, np.array(s["lo"]), np.array(s["width"]))
        if s["k"] == "laplace":
            z = np.abs(np.asarray(x) - np.array(s["loc"])) / np.array(s["scale"])
            return np.exp(-z) / (2 * np.array(s["scale"]))
        raise KeyError(s["k"])

    def joint(self, x):
        return self.pdf(x).prod(axis=1)


def density_model(X, y, w, initial, predicted, observed, domain=None):
    """(in, pr, ob, r, up, E(r)) from the definitions.

    initial/observed: Dist or None (defaults); predicted: Dist, KDE bandwidth
    given as ("kde", bw), or array of values."""
    X, y, w = np.asarray(X, float), np.asarray(y, float), np.asarray(w, float)
    if initial is None:
        lo, hi = np.min(domain, axis=1), np.max(domain, axis=1)
        pin = uniform_pdf(X, lo, hi - lo).prod(axis=1)
    else:
        pin = initial.joint(X)
    if observed is None:
        pob = norm_pdf(y).prod(axis=1)
    else:
        pob = observed.joint(y)
    if isinstance(predicted, tuple):
        ppr = KDE(y.T, w, predicted[1])(y.T)
    elif isinstance(predicted, Dist):
        ppr = predicted.joint(y)
    else:
        ppr = np.asarray(predicted, float)
    r = pob / ppr
    up = pin * w * r
    er = float((r * w).sum() / w.sum())
    return pin, ppr, pob, r, up, er


def grid_curve(f, ranges, idx, aff):
    """Sum of f over the grid in all coordinates but idx, on
    linspace(lo, hi, aff) without its last point; f maps (n, d) to (n,)."""
    axes = [np.linspace(lo, hi, aff)[:-1] for lo, hi in np.asarray(ranges, float)]
    mesh = np.meshgrid(*axes, indexing="ij")
    vals = np.asarray(f(np.stack([m.ravel() for m in mesh], axis=1)), float)
    vals = vals.reshape(mesh[0].shape)
    other = tuple(i for i in range(len(axes)) if i != idx)
    return axes[idx], vals.sum(axis=other) if other else vals


def curve_bounds(f, ranges, idx, aff):
    """Least and greatest curve when each coordinate of the grid may be rounded
    either way: they differ where a grid point is on the edge of a density."""
    d = len(ranges)
    eps = 1e-13 * np.abs(np.asarray(ranges, float)).max(axis=1)
    vals = [grid_curve(lambda z, s=s: f(z + eps * s), ranges, idx, aff)[1]
            for s in itertools.product((-1, 1), repeat=d)] + [grid_curve(f, ranges, idx, aff)[1]]
    return np.min(vals, axis=0), np.max(vals, axis=0)


def curve_misfit(y, f, ranges, idx, aff, density=True, tol=1e-6):
    """Why y is not the curve of f on the grid, or None; y and f are scaled to
    unit area (density) or to the greatest value."""
    x, g = grid_curve(f, ranges, idx, aff)
    size = (lambda v: v.sum() * abs(x[1] - x[0])) if density else np.max
    want = g / size(g)
    y = y if density else y / y.max()
    s = np.abs(want).max()
    if (np.abs(y - want) <= tol * s).all():
        return None
    lo, hi = curve_bounds(f, ranges, idx, aff)
    if size(lo) > 0:
        ok = (y >= lo / size(hi) - tol * s) & (y <= hi / size(lo) + tol * s)
    else:
        ok = np.ones(len(y), bool)
    if ok.all():
        return None
    i = int(np.argmax(~ok))
    return f"value {y[i]!r} at {x[i]!r}, expected {want[i]!r}"


def unit_area(x, y):
    return y / (y.sum() * abs(x[1] - x[0]))


def neff(w):
    w = np.asarray(w, float)
    if not np.isfinite(w).all() or w.max() < 1e-150:  # kernels underflow
        return 0.0
    w = w / w.max()
    return float(w.sum() ** 2 / (w * w).sum())
