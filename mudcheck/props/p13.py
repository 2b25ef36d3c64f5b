"""P13: QoI maps constructed from data."""
import numpy as np
from hypothesis import strategies as st
from mud.base import DensityProblem, SpatioTemporalProblem

from ..core import *  # noqa: F403
from ..density import combined, weights
from .p12 import SEL, selection

SUITE = Suite("P13", quick=3)


def standard(R):
    s = R.std(axis=0)
    const = s <= 1e-12 * (np.abs(R).max() + 1e-300)
    return np.where(const, 0.0, (R - R.mean(axis=0)) / np.where(const, 1.0, s))


class Prob:
    def __init__(self, case):
        r = rng(case)
        n, S, T, p = case["n"], case["S"], case["T"], case["p"]
        self.n, self.S, self.T, self.N = n, S, T, S * T
        self.lam = numbers(r, (n, p), "normal")
        base = self.lam @ r.standard_normal((p, self.N)) + case["rough"] * r.standard_normal((n, self.N))
        self.data = base * 10.0 ** r.uniform(-1, 1, self.N) + r.standard_normal(self.N)
        self.meas = self.data.mean(axis=0) + 0.3 * r.standard_normal(self.N)
        self.sd = 10.0 ** r.uniform(-2, 1)
        k = case["num"]
        if k == "unit":
            u = 10.0 ** r.integers(-10, 11)
            self.data, self.meas, self.sd = self.data * u, self.meas * u, self.sd * u
        elif k != "float":
            top = {"int8": 100, "uint8": 200, "int16": 30000, "int64": 10**6}[k]
            lo = self.data.min() if k == "uint8" else 0
            f = top / np.abs(self.data - lo).max()
            self.data = np.rint((self.data - lo) * f).astype(k)
            self.meas = np.clip(np.rint((self.meas - lo) * f), 0 if k == "uint8" else -top, top).astype(k)
            if r.random() < 0.5:
                self.sd = int(r.integers(1, 9))
        self.dom = np.array([self.lam.min(axis=0) - 0.5, self.lam.max(axis=0) + r.uniform(0.1, 2, p)]).T
        with sut("load"):
            self.P = SpatioTemporalProblem(dict(
                sensors=np.arange(S), times=np.arange(T) * 0.5, lam=self.lam, data=layout(self.data, case["lay"]), std_dev=self.sd,
                measurements=self.meas, domain=self.dom))
        self.data, self.meas = self.data.astype(float), self.meas.astype(float)
        dw = case["dw"]
        self.dw = {"none": None, "ones": np.ones(self.N), "uniform": r.uniform(0.1, 3, self.N),
                   "decades": 10.0 ** r.uniform(-2, 2, self.N), "unit": r.uniform(0.1, 1, self.N),
                   "signed": r.standard_normal(self.N) + 0.01,
                   "whole": r.integers(1, 200, self.N).astype(float), "whole-signed": r.integers(-120, 121, self.N) + 0.0}[dw]
        if dw == "unit":
            self.dw /= np.linalg.norm(self.dw)
        if dw == "whole-signed" and not self.dw.any():
            self.dw[0] = 1.0

    def dw_arg(self, form):
        if self.dw is None:
            return None
        w = self.dw
        if form != "plain" and (w == np.rint(w)).all():
            w = narrow(w) if form != "col" else w.astype(int)
        return {"list": w.tolist(), "col": w.reshape(-1, 1), "row": w.reshape(1, -1)}.get(form, w.copy())


SPACE = dict(
    seed=seeds, n=upto(8, 60, 150, 400), S=upto(1, 5, 9, 14), T=upto(1, 6, 12, 25), p=st.integers(1, 3),
    rough=st.sampled_from([0.05, 0.5, 2.0]), dw=st.sampled_from(["none", "ones", "uniform", "decades", "unit", "signed", "whole", "whole-signed"]),
    dwform=st.sampled_from(["flat", "list", "col", "row", "plain"]), lay=layouts,
    num=st.sampled_from(["float", "float", "unit", "int8", "uint8", "int16", "int64"]),
)
WK = st.sampled_from(["none", "ones", "random", "zeros", "stack2", "row"])


@SUITE.check(
    st.fixed_dictionaries(dict(
        method=st.sampled_from(["wme", "pca", "svd", "default"]), k=st.one_of(st.none(), upto(1, 4, 8, 15, 30)),
        sa=st.sampled_from(SEL), ss=st.sampled_from(SEL), stt=st.sampled_from(SEL), masks=st.booleans(), sw=WK,
        before=st.sampled_from(["", "", "pca", "svd", "wme"]), **SPACE)),
    n=6000, rule="several data")
def qoi_maps(case):
    Q = Prob(case)
    P, r = Q.P, rng(case, 5)
    a, cols = list(range(Q.n)), list(range(Q.N))
    kw = {}
    if case["masks"]:
        m, a = selection(r, case["sa"] if case["sa"] not in ("one",) else "none", Q.n)
        if m is not None:
            kw["samples_mask"] = m
        ms, si = selection(r, case["ss"], Q.S)
        mt, ti = selection(r, case["stt"], Q.T)
        if ms is not None:
            kw["sensors_mask"] = ms
        if mt is not None:
            kw["times_mask"] = mt
        cols = [s * Q.T + t for s in si for t in ti]
    n, N = len(a), len(cols)
    if n < 2:
        return False
    R = (Q.meas[cols] - Q.data[np.ix_(a, cols)]) / Q.sd
    if Q.dw is not None:
        if N != Q.N and r.random() < 0.1:
            raises(lambda: P.mud_problem(data_weights=Q.dw_arg(case["dwform"]), **kw), (ValueError,),
                   f"{Q.N} data weights for {N} selected data")
        Q.dw = Q.dw[cols]  # one weight per selected datum
        R = R * (Q.dw / np.linalg.norm(Q.dw))
        kw["data_weights"] = Q.dw_arg(case["dwform"])
    sw = weights(case, case["sw"], n)
    if sw is not None:
        kw["sample_weights"] = sw
    method = case["method"]
    if method != "default":
        kw["method"] = method
    else:
        method = "pca"
    k = case["k"]
    if k is not None:
        k = min(k, n, N)
        kw["num_components"] = k
    else:
        k = 2
        if method == "pca" and min(n, N) < 2:
            kw["num_components"] = k = 1
    if method == "svd":
        k = min(k, N)
    if case["before"]:  # what another construction left behind does not matter
        with sut("mud_problem"):
            P.mud_problem(method=case["before"], num_components=1)
    F = Frozen(kw=kw)
    with sut(f"mud_problem({sorted(kw)})"):
        d = P.mud_problem(**kw)
    F.verify("mud_problem")
    same(d.X, Q.lam[a], "parameters")
    same(d.domain, Q.dom, "domain")
    y = np.asarray(d.y)
    sc = np.abs(R).max() * np.sqrt(N)
    if method == "wme":
        vclose(y.ravel(), R.sum(axis=1) / np.sqrt(N), "weighted mean error", 1e-10, 0, scale=sc)
        need(y.size == n, f"outputs of shape {y.shape}")
    else:
        Z = standard(R)
        C = Z.T @ Z / n
        need(y.shape == (n, k), f"outputs of shape {y.shape} for {k} components of {n} samples")
        if method == "pca":
            V, var = np.asarray(P.pca["vecs"]), np.asarray(P.pca["var"]) * (n - 1) / n
            need(V.shape == (k, N), f"stored directions of shape {V.shape}")
            vclose(P.pca["X_train"], Z @ V.T, "stored scores", 1e-6, 1e-8, scale=np.sqrt(n))
        else:
            V, var = np.asarray(P.svd["singular_vectors"]), np.asarray(P.svd["singular_values"]) ** 2 / n
            need(V.shape[1] == N and len(V) >= min(n, N), f"stored directions of shape {V.shape}")
            s = np.asarray(P.svd["singular_values"])
            U = np.asarray(P.svd["u"])
            vclose((U[:, : len(s)] * s) @ V[: len(s)], Z, "product of the stored factors", 1e-8, 1e-9)
            V, var = V[:k], np.append(var, np.zeros(k))[:k]
        vclose(V @ V.T, np.eye(k), "directions are orthonormal", 1e-8, 1e-8)
        top = np.sort(np.linalg.eigvalsh(C))[::-1][:k]
        need((np.diff(var[:k]) <= 1e-8 * max(1, var[0])).all(), f"variances not in decreasing order: {var}")
        vclose(var[:k], top, "variances", 1e-7, 1e-8, scale=N)
        vclose(V @ C, var[:k, None] * V, "directions of the standardised residuals", 1e-6, 1e-7, scale=N)
        vclose(y, R @ V.T, "outputs are the residuals on the directions", 1e-9, 0, scale=sc)
    # the problem is the density problem of these numbers
    E = DensityProblem(Q.lam[a].copy(), y.copy(), Q.dom.copy(), weights=sw)
    try:
        want = (E.estimate(), E.expected_ratio())
    except Exception:
        want = None
    if want is not None and np.isfinite(want[1]):
        with sut("estimate"):
            got = (d.estimate(), d.expected_ratio())
        vclose(got[0], want[0], "estimate", 1e-12)
        vclose(got[1], want[1], "expected ratio", 1e-12)
    w = private(d, "_weights")
    if w is not None:
        c = combined(sw, n)
        g = np.broadcast_to(np.asarray(w, float), (n,))
        vclose(g / g.sum(), c / c.sum(), "sample weights", 1e-10)
    return N > 1, f"{method}/{k}"


@SUITE.check(
    st.fixed_dictionaries(dict(method=st.sampled_from(["wme", "pca", "svd"]), k=st.integers(1, 3), f=st.integers(1, 9),
                               **SPACE)),
    n=600, rule="several data")
def weights_are_relative(case):
    """Scaling the data weights, or the noise and the residuals together,
    changes nothing; halving the noise doubles the outputs."""
    if case["dw"] == "none":
        case["dw"] = "uniform"
    Q = Prob(case)
    k = min(case["k"], Q.N, Q.n)
    kw = dict(method=case["method"], num_components=k)
    with sut("mud_problem"):
        y1 = Q.P.mud_problem(data_weights=Q.dw.copy(), **kw).y
        y2 = Q.P.mud_problem(data_weights=case["f"] * Q.dw, **kw).y
        Q.P.std_dev = Q.sd / 2
        y3 = Q.P.mud_problem(data_weights=Q.dw.tolist(), **kw).y
    y1, y2, y3 = (np.asarray(v, float).reshape(Q.n, -1) for v in (y1, y2, y3))
    sc = np.abs(y1).max()
    if case["method"] == "wme":
        vclose(y2, y1, "outputs with scaled weights", 1e-9, 0, scale=sc)
        vclose(y3, 2 * y1, "outputs with half the noise", 1e-9, 0, scale=sc)
    else:
        Z = standard((Q.meas - Q.data) * Q.dw)
        lam = np.sort(np.linalg.eigvalsh(Z.T @ Z / Q.n))[::-1]
        gap = np.append(lam, 0)
        if min(gap[i] - gap[i + 1] for i in range(k)) < 1e-3 * gap[0]:
            return False
        for f, y in ((1, y2), (2, y3)):
            s = np.sign((y * y1).sum(axis=0))
            vclose(y * s, f * y1, "outputs with scaled weights or noise", 1e-6, 0, scale=f * sc)
    return Q.N > 1, case["method"]


@SUITE.check(
    st.fixed_dictionaries(dict(what=st.sampled_from(["method", "short", "long", "nomeas", "sw"]), d=st.integers(1, 4),
                               method=st.sampled_from(["wme", "pca", "svd"]), **SPACE)),
    n=500, rule="every case")
def refusals(case):
    Q = Prob(case)
    P, w, d = Q.P, case["what"], case["d"]
    r = rng(case, 6)
    m = case["method"]
    kw = dict(num_components=1)
    if w == "method":
        bad = ["PCA", "mean", "", "q"][d - 1]
        raises(lambda: P.mud_problem(method=bad), (ValueError,), f"method {bad!r}")
    elif w in ("short", "long"):
        k = Q.N + d if w == "long" or Q.N == 1 else max(1, Q.N - d)
        v = r.uniform(0.5, 1, k)
        v = v.tolist() if d % 2 else v
        raises(lambda: P.mud_problem(method=m, data_weights=v, **kw), (ValueError,), f"{k} data weights for {Q.N} data")
    elif w == "sw":
        raises(lambda: P.mud_problem(method=m, sample_weights=np.ones(Q.n + d), **kw), (ValueError, AssertionError),
               "sample weights of another length")
    else:
        P2 = SpatioTemporalProblem(dict(lam=Q.lam, data=Q.data, std_dev=0.1, sensors=np.arange(Q.S),
                                        times=np.arange(Q.T)))
        raises(lambda: P2.mud_problem(method=m, **kw), REFUSALS, "mud_problem without measurements")
    return True, w


CHANGES = st.sampled_from(["meas", "sd", "data", "lam", "domain", "true", "all"])
QUERIES = st.sampled_from(["wme", "pca", "svd", "closest", "true", "wme-masked"])


def close_to(P, lam, data, ref, what, x):
    i = is_row(lam, np.ravel(x), what)
    maximises(-np.linalg.norm(data - ref, axis=1), i, what, 1e-12)


@SUITE.check(
    st.fixed_dictionaries(dict(steps=st.lists(st.tuples(QUERIES, CHANGES), min_size=1, max_size=6), last=QUERIES, **SPACE)),
    n=1500, rule="several changes")
def after_changes(case):
    """What is built follows the contents as they are now."""
    Q = Prob(case)
    P, r = Q.P, rng(case, 8)
    n, N = Q.n, Q.N
    lam, data, meas, sd, dom = Q.lam, Q.data, Q.meas, Q.sd, Q.dom
    true = data[int(r.integers(n))] + 0.01 * sd * r.standard_normal(N)
    with sut("true_vals"):
        P.true_vals = true
    size = np.abs(data).max() + sd
    for q, ch in list(case["steps"]) + [(case["last"], None)]:
        with sut(q):
            if q == "closest":
                close_to(P, lam, data, meas, q, P.get_closest_to_measurements())
            elif q == "true":
                close_to(P, lam, data, true, q, P.get_closest_to_true_vals())
            elif q == "wme-masked":
                k = [int(i) for i in r.permutation(Q.T)[: int(r.integers(1, Q.T + 1))]]
                cols = [s * Q.T + t for s in range(Q.S) for t in k]
                d = P.mud_problem(method="wme", times_mask=k)
            else:
                cols = list(range(N))
                d = P.mud_problem(method=q, num_components=1)
                if q != "wme":
                    E = SpatioTemporalProblem(dict(sensors=np.arange(Q.S), times=np.arange(Q.T), lam=lam, data=data, std_dev=sd,
                                                   measurements=meas, domain=dom)).mud_problem(method=q, num_components=1)
        if q not in ("closest", "true"):
            same(d.X, lam, f"parameters ({q})")
            same(d.domain, dom, f"domain ({q})")
            y = np.asarray(d.y, float)
            R = (meas[cols] - data[:, cols]) / sd
            sc = (np.abs(R).max() + 1e-12 * size / sd) * np.sqrt(N)
            if q in ("pca", "svd"):
                vclose(y, E.y, f"outputs ({q})", 1e-9, 0, scale=sc)
            else:
                vclose(y.ravel(), R.sum(axis=1) / np.sqrt(len(cols)), f"outputs ({q})", 1e-10, 0, scale=sc)
        with sut(f"new {ch}"):
            if ch in ("meas", "all"):
                meas = meas + sd * r.standard_normal(N)
                P.measurements = meas.copy()
            if ch in ("sd", "all"):
                sd = sd * r.uniform(0.2, 4)
                P.std_dev = sd
            if ch in ("data", "all"):
                data = data + sd * r.standard_normal(data.shape)
                P.data = data.copy()
            if ch == "true":
                true = data[int(r.integers(n))] + 0.01 * sd * r.standard_normal(N)
                P.true_vals = true.copy()
            if ch in ("lam", "all"):
                lam = lam[r.permutation(n)]
                P.lam = lam.copy()
            if ch in ("domain", "all"):
                dom = dom + [-1.0, 1.0]
                P.domain = dom.copy()
    return len({c for _, c in case["steps"]}) > 1, case["last"]
