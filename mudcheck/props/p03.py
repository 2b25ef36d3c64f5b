"""P03: sample weights."""
import numpy as np
from hypothesis import strategies as st
from mud.base import DensityProblem

from ..core import *  # noqa: F403
from ..density import base, box, combined, dist_for, samples, weights
from ..models import KDE, density_model

SUITE = Suite("P03", quick=4)

PRED = ("kde", "kde", "bw", "norm", "laplace")


def prob(case, X, y, dom, w, how="init", normalize=False, seq=None):
    """Problem with weights w passed at construction, later, or with the
    predicted distribution; predicted and observed from the case."""
    wl = np.asarray(w).tolist() if case["wlist"] and w is not None else w
    if how == "init":
        D = DensityProblem(X, y, dom, weights=wl, normalize=normalize)
    else:
        D = DensityProblem(X, y, dom, weights=None if seq is None else seq)
        if how == "set":
            D.set_weights(wl, normalize=normalize)
    pr, Xr, yr = case["pr"], case["_X"], case["_y"]
    if case["inkind"] != "none":
        D.set_initial(dist_for(case, case["inkind"], Xr, 21).scipy())
    elif pr != "kde" or how == "pred":
        D.set_initial()
    kw = {"weights": wl} if how == "pred" and w is not None else {}
    if pr == "bw":
        D.set_predicted(bw_method=0.4, **kw)
    elif pr in ("norm", "laplace"):
        D.set_predicted(dist_for(case, pr, yr, 22).scipy(), **kw)
    elif how == "pred":
        D.set_predicted(**kw)
    if case["ob"] != "none":
        D.set_observed(dist_for(case, case["ob"], yr, 23).scipy())
    return D


def model(case, X, y, dom, w):
    pr, Xr, yr = case["pr"], case["_X"], case["_y"]
    ini = None if case["inkind"] == "none" else dist_for(case, case["inkind"], Xr, 21)
    pred = ("kde", 0.4 if pr == "bw" else None)
    if pr in ("norm", "laplace"):
        pred = dist_for(case, pr, yr, 22)
    obs = None if case["ob"] == "none" else dist_for(case, case["ob"], yr, 23)
    return density_model(X, y, w, ini, pred, obs, dom)


def judge(case, D, X, y, dom, w, what):
    pin, ppr, pob, r, up, er = model(case, X, y, dom, w)
    with sut(what):
        p, e = D.estimate(), D.expected_ratio()
    close(e, er, f"{what}: expected ratio", 1e-6, 1e-300, shape=False)
    if np.max(up) > 0:
        maximises(up, is_row(X, p, f"{what}: estimate"), f"{what}: estimate", 1e-6)
    return er, up, ppr, p


def predicted(D):
    return private(D, "_pr")


relations = base(
    n=upto(16, 60, 150, 400), q=st.integers(1, 2), wlist=st.booleans(),
    style=st.sampled_from(["normal", "uniform", "offset", "small", "large"]),
    w=st.sampled_from(["random", "ints", "stack2", "stack3", "stack8", "tiny", "row", "zeros", "steep", "int-stack", "mean1", "sum1", "norm1",
                       "max1", "bytes", "byte-stack", "spread"]),
    pr=st.sampled_from(PRED), ob=st.sampled_from(["none", "norm", "laplace"]),
    inkind=st.sampled_from(["none", "norm", "uniform"]),
    how=st.sampled_from(["init", "set", "pred"]), logc=st.integers(-6, 6), norm=st.booleans(),
    before=st.sampled_from(["no", "random", "stack2"]),
)


def setup(case):
    X, y = samples(case)
    case["_X"], case["_y"] = X, y
    n = len(X)
    r = rng(case, 31)
    k = case["w"]
    if k == "steep":
        w = np.exp(r.uniform(-4, 0, n))
    elif k == "int-stack":
        w = r.integers(1, 3, (2, n))
    else:
        w = weights(case, k, n, 32)
    return X, y, box(X, 0.1), w, n, r


@SUITE.check(relations, n=1200, rule="every case")
def product_and_scale(case):
    X, y, dom, w, n, r = setup(case)
    wc = combined(w, n)
    seq = None if case["before"] == "no" else weights(case, case["before"], n, 33)
    how = case["how"]
    with sut("problem"):
        D = prob(case, X, y, dom, w, how, seq=seq)
    er, up, ppr, p = judge(case, D, X, y, dom, wc, "given weights")
    if predicted(D) is not None:
        close(predicted(D), ppr, "predicted density", 1e-6, 1e-300)
    c = 10.0 ** (case["logc"] / 2)
    with sut("variants"):
        variants = {
            "product of the stack": prob(case, X, y, dom, wc, how, seq=seq),
            "scaled weights": prob(case, X, y, dom, c * np.asarray(w, float) if np.ndim(w) == 1 else
                                   np.vstack([w, np.full(n, c)]), how, seq=seq),
        }
        if how != "pred":
            variants["normalised weights"] = prob(case, X, y, dom, w, how, True, seq=seq)
            if case["norm"]:
                variants["list"] = prob(case, X.tolist(), y.tolist(), dom.tolist(), np.asarray(w).tolist(), how)
    for name, V in variants.items():
        judge(case, V, X, y, dom, wc, name)
        a, b = predicted(V), predicted(D)
        if a is not None and b is not None:
            close(a, b, f"{name}: predicted density", 1e-6, 1e-300)
    v = private(variants.get("normalised weights"), "_weights") if how != "pred" else None
    if v is not None:
        close(v, wc / np.linalg.norm(wc), "normalised weights", 1e-9)
    return True, case["w"]


@SUITE.check(relations, n=400, rule="every case")
def equal_or_absent(case):
    X, y, dom, w, n, r = setup(case)
    c = 10.0 ** (case["logc"] / 2)
    one = np.ones(n)
    with sut("problem"):
        D0 = prob(case, X, y, dom, None, "init")
        D1 = prob(case, X, y, dom, np.full(n, c), case["how"])
        D2 = prob(case, X, y, dom, None, "set", seq=w if np.ndim(w) == 1 else None)
    for name, D in (("no weights", D0), ("equal weights", D1), ("weights taken back", D2)):
        judge(case, D, X, y, dom, one, name)
    return True, case["how"]


@SUITE.check(relations, n=600, rule="some weight is zero")
def zero_removes(case):
    X, y, dom, w, n, r = setup(case)
    wz = r.uniform(0.3, 2.0, n)
    keep = np.sort(r.permutation(n)[: max(14, int(n * r.uniform(0.3, 0.95)))])
    off = np.setdiff1d(np.arange(n), keep)
    wz[off] = 0
    ww = wz
    if np.ndim(w) == 2 and w.shape[0] > 1 and len(off) > 1:  # zeros spread over the stack
        a, b = r.uniform(0.3, 2.0, n), r.uniform(0.3, 2.0, n)
        a[off[::2]] = 0
        b[off[1::2]] = 0
        ww, wz = np.array([a, b]), a * b
    with sut("problem"):
        D = prob(case, X, y, dom, ww, case["how"])
        E = prob(case, X[keep], y[keep], dom, wz[keep], case["how"])
        er, up, ppr, p = judge(case, D, X, y, dom, wz, "zero weights")
        er2, up2, ppr2, p2 = judge(case, E, X[keep], y[keep], dom, wz[keep], "samples removed")
    close(D.expected_ratio(), E.expected_ratio(), "expected ratio with and without the samples", 1e-8, 1e-300,
          shape=False)
    if predicted(D) is not None and predicted(E) is not None:
        close(predicted(D)[keep], predicted(E), "predicted density with and without the samples", 1e-7, 1e-300)
    if np.max(up2) > 0:
        maximises(up2, is_row(X[keep], p, "estimate"), "estimate among the kept samples", 1e-6)
    return len(off) > 0, f"{len(off) > n // 2}"


@SUITE.check(relations, n=500, rule="some sample is repeated")
def integers_repeat(case):
    X, y, dom, w, n, r = setup(case)
    if case["pr"] in ("kde", "bw"):  # only for a given predicted distribution
        case["pr"] = "norm"
    k = r.integers(0, 4, n)
    k[0] = 2
    rep = np.repeat(np.arange(n), k)
    with sut("problem"):
        D = prob(case, X, y, dom, k, case["how"])
        E = prob(case, X[rep], y[rep], dom, None, "init")
    er, up, *_ = judge(case, D, X, y, dom, k.astype(float), "integer weights")
    close(D.expected_ratio(), E.expected_ratio(), "weighted and repeated expected ratio", 1e-8, 1e-300, shape=False)
    return True


@SUITE.check(relations, n=500, rule="at least 16 samples are permuted")
def permutation(case):
    X, y, dom, w, n, r = setup(case)
    perm = r.permutation(n)
    wp = w[perm] if np.ndim(w) == 1 else w[:, perm]
    with sut("problem"):
        D = prob(case, X, y, dom, w, case["how"])
        E = prob(case, X[perm], y[perm], dom, wp, case["how"])
    wc = combined(w, n)
    er, up, ppr, p = judge(case, D, X, y, dom, wc, "original order")
    judge(case, E, X[perm], y[perm], dom, wc[perm], "permuted")
    for name in ("_up", "_r", "_pr"):
        a, b = private(D, name), private(E, name)
        if a is not None and b is not None:
            close(np.asarray(a)[perm], b, f"permuted {name}", 1e-6, 1e-300)
    return True


@SUITE.check(
    base(n=upto(14, 40, 101, 300), q=st.integers(1, 2), p=st.integers(1, 2), style=st.just("normal"),
         wlist=st.booleans(), pr=st.just("kde"), ob=st.sampled_from(["none", "norm"]), inkind=st.just("norm"),
         delta=st.sampled_from([-3, -1, 1, 2, 30, "twice", "one"]), stack=st.integers(0, 3), normalize=st.booleans(),
         how=st.sampled_from(["init", "set", "pred"]), first=st.booleans(), tall=st.booleans()),
    n=500, rule="every case")
def wrong_length(case):
    """Refused, and the problem goes on with the weights it had."""
    X, y = samples(case)
    case["_X"], case["_y"] = X, y
    n, dom, r = len(X), box(X, 0.1), rng(case, 41)
    d = case["delta"]
    m = 2 * n if d == "twice" else 1 if d == "one" else n + d
    bad = r.uniform(0.5, 1.5, m if case["stack"] == 0 else (case["stack"], m))
    if case["tall"] and case["stack"] not in (0,) and case["stack"] != n:
        bad = r.uniform(0.5, 1.5, (n, case["stack"]))  # samples by vectors
    if case["wlist"]:
        bad = bad.tolist()
    if case["how"] == "init":
        raises(lambda: DensityProblem(X, y, dom, weights=bad, normalize=case["normalize"]), REFUSALS,
               "constructor with a weight vector of the wrong length")
        return True, "init"
    w = r.uniform(0.5, 1.5, n)
    with sut("problem"):
        D = prob(case, X, y, dom, w, "init")
        if case["first"]:
            D.estimate()
    if case["how"] == "set":
        raises(lambda: D.set_weights(bad, normalize=case["normalize"]), REFUSALS,
               "set_weights with the wrong length")
    else:
        raises(lambda: D.set_predicted(weights=bad), REFUSALS, "set_predicted with weights of the wrong length")
    judge(case, D, X, y, dom, w, "after the refusal")
    return True, case["how"]
