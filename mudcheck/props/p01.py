"""P01: updated density, MUD point, E(r)."""
import numpy as np
from hypothesis import strategies as st
from mud.base import DensityProblem
from scipy.stats import distributions as ds
from scipy.stats import multivariate_normal

from ..core import *  # noqa: F403
from ..density import WKINDS, base, box, combined, dist_for, samples, typed, weights
from ..models import KDE, Dist, density_model

SUITE = Suite("P01", quick=4)

IN = ("default", "none", "norm", "laplace", "uniform", "cut", "scalar")
OB = ("default", "none", "norm", "laplace", "std", "cut", "scalar")
PR = ("default", "scott", "silverman", "scalar-bw", "callable", "norm", "laplace",
      "uniform", "joint", "kwargs", "fit-kwargs", "fit-weights", "fit-dist")


def build(case, X, y):
    """The problem, set up in the given way, and its reference."""
    n = len(X)
    w = weights(case, case["w"], n)
    dom = None
    if case["domain"] != "none":
        dom = box(X, {"given": 0.15, "inside": -0.12}[case["domain"]])  # inside: samples beyond it have density zero
        if case["flip"]:
            dom = dom[:, ::-1]
    args = dict(weights=w)
    if case["wlist"] and w is not None:
        args["weights"] = w.tolist()
    if dom is not None:
        args["domain"] = dom if case["p"] > 1 or case["dom2d"] else dom.ravel()
        if case["wlist"]:
            args["domain"] = np.asarray(args["domain"]).tolist()
    X, y = Xa, ya = typed(case, X, y)
    if case["flat"]:
        Xa = X.ravel() if X.shape[1] == 1 else X
        ya = y.ravel() if y.shape[1] == 1 else y
    if case["xlist"]:
        Xa, ya = Xa.tolist(), ya.tolist()
    with sut("building the problem"):
        D = DensityProblem(Xa, ya, **args)
    need((D.n_params, D.n_features, D.n_samples) == (X.shape[1], y.shape[1], n),
         f"sizes {(D.n_params, D.n_features, D.n_samples)} for {X.shape} and {y.shape}")
    X, y = X.astype(float), y.astype(float)
    # reference domain: what was passed, else a fitted box with 10% padding
    if dom is None:
        lo, hi = X.min(axis=0), X.max(axis=0)
        dom = np.array([lo - 0.1 * (hi - lo), hi + 0.1 * (hi - lo)]).T
    vclose(D.domain, np.asarray(args.get("domain", dom), float).reshape(-1, 2), "domain", 1e-9, 0)
    wc = combined(w, n)

    init = obs = None
    with sut("setting the initial"):
        # a predicted distribution must be set after the initial (documented)
        if case["in"] == "none" or (case["in"] == "default" and not case["pr"].startswith(("default", "fit-"))):
            D.set_initial()
        elif case["in"] != "default":
            init = dist_for(case, case["in"], X, 11)
            D.set_initial(init.scipy())
    with sut("setting the observed"):
        if case["ob"] == "none":
            D.set_observed()
        elif case["ob"] != "default":
            obs = dist_for(case, case["ob"], y, 13)
            D.set_observed(obs.scipy())
    pr = case["pr"]
    pred = ("kde", None)
    fit_kw = None
    with sut("setting the predicted"):
        if pr in ("scott", "silverman"):
            D.set_predicted(bw_method=pr)
            pred = ("kde", pr)
        elif pr == "scalar-bw":
            D.set_predicted(bw_method=0.45)
            pred = ("kde", 0.45)
        elif pr == "callable":
            D.set_predicted(bw_method=lambda k: 0.3 + 0.01 * k.d)
            pred = ("kde", 0.3 + 0.01 * y.shape[1])
        elif pr in ("norm", "laplace", "uniform"):
            pred = dist_for(case, pr, y, 17)
            D.set_predicted(pred.scipy())
        elif pr == "joint":
            q = y.shape[1]
            mean, cov = y.mean(axis=0), np.cov(y.T).reshape(q, q) + 0.5 * np.eye(q)
            D.set_predicted(multivariate_normal(mean, cov))
            e = y - mean
            pred = np.exp(-0.5 * np.einsum("ni,ij,nj->n", e, np.linalg.inv(cov), e))
            pred = pred / np.sqrt((2 * np.pi) ** q * np.linalg.det(cov))
        elif pr == "kwargs":
            d = dist_for(case, "norm", y, 19)
            D.set_predicted(ds.norm, loc=np.array(d.spec["loc"]), scale=np.array(d.spec["scale"]))
            pred = d
        elif pr == "fit-kwargs":
            fit_kw = {"bw_method": 0.6}
            pred = ("kde", 0.6)
        elif pr == "fit-weights":
            w2 = weights(case, "random", n, salt=8)
            fit_kw = {"weights": w2, "bw_method": 0.5}
            wc = combined(w2, n)
            pred = ("kde", 0.5)
        elif pr == "fit-dist":
            pred = dist_for(case, "norm", y, 17)
            fit_kw = {"distribution": pred.scipy()}
        elif case["w2"] != "no":
            w2 = weights(case, case["w2"], n, salt=8)
            D.set_predicted(weights=w2)
            wc = combined(w2, n)
    ref = density_model(X, y, wc, init, pred, obs, dom)
    return D, wc, ref, fit_kw


space = base(
    w=st.sampled_from(WKINDS), w2=st.sampled_from(["no", "random", "stack2"]),
    domain=st.sampled_from(["given", "none", "inside"]), flip=st.sampled_from([False, False, True]),
    dom2d=st.booleans(), wlist=st.booleans(), flat=st.booleans(), xlist=st.booleans(),
    num=st.sampled_from(["float", "float", "float", "int-X", "int-y", "float32"]),
    ob=st.sampled_from(OB), pr=st.sampled_from(PR), first=st.sampled_from(["mud", "er", "fit"]),
    **{"in": st.sampled_from(IN)},
)


def judge(D, X, wc, ref, fit_kw, first):
    pin, ppr, pob, r, up, er = ref
    if fit_kw:
        with sut("fit"):
            D.fit(**fit_kw)
    calls = {"mud": lambda: D.mud_point(), "er": lambda: D.expected_ratio(), "fit": lambda: D.fit()}
    with sut(first):
        calls[first]()
    with sut("results"):
        mud, est, got_er = D.mud_point(), D.estimate(), D.expected_ratio()
    close(got_er, er, "expected ratio", shape=False)
    if np.max(up) > 0:
        maximises(up, is_row(X, mud, "mud point"), "mud point", 1e-6)
        same(est, mud, "estimate")
    for name, want, what in (("_up", up, "updated density"), ("_r", r, "ratio"),
                             ("_pr", ppr, "predicted density"), ("_weights", wc, "weights")):
        v = private(D, name)
        if v is not None:
            close(v, want, what, rtol=1e-6, atol=1e-300)


def scaled(case):
    if case["num"] != "float":
        case["yscale"] = case["xscale"] = 0
    return case


units = st.sampled_from([0, 0, 0, -10, -5, 5, 10])


@SUITE.check(st.tuples(space, units, units).map(lambda t: scaled(dict(t[0], yscale=t[1], xscale=t[2]))),
             n=1700, rule="several parameters or outputs, or non-uniform weights")
def formula(case):
    X, y = samples(case)
    D, wc, ref, fit_kw = build(case, X, y)
    judge(D, X, wc, ref, fit_kw, case["first"])
    nt = case["p"] > 1 or case["q"] > 1 or np.ptp(wc) > 0
    return nt, f"in={case['in']} pr={case['pr']}"


@SUITE.check(
    base(n=st.integers(150, 3000), p=st.integers(1, 2), q=st.integers(1, 2), w=st.sampled_from(WKINDS),
         pr=st.sampled_from(["default", "default", "silverman", "norm"]), w2=st.just("no"), domain=st.sampled_from(["given", "none"]),
         flip=st.just(False), dom2d=st.booleans(), wlist=st.booleans(), flat=st.booleans(), xlist=st.booleans(),
         ob=st.sampled_from(["default", "norm"]), first=st.sampled_from(["mud", "er", "fit"]),
         **{"in": st.sampled_from(["default", "norm", "cut"])}),
    n=90, rule="several hundred samples")
def many_samples(case):
    X, y = samples(case)
    D, wc, ref, fit_kw = build(case, X, y)
    judge(D, X, wc, ref, fit_kw, case["first"])
    return case["n"] > 400, f"n>{case['n'] // 1000 * 1000}"


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, n=st.integers(2, 30), p=st.integers(1, 6), q=st.integers(1, 6),
                               scale=st.integers(-6, 6), w=st.sampled_from(["none", "random"]),
                               far=st.sampled_from([0, 0, 3, 8, 15, 25]), width=st.sampled_from([2.0, 2.0, 0.5]))),
    n=700, rule="at least two samples compete for the maximum")
def small_and_wide(case):
    """Few samples, many coordinates, extreme scales; predicted given; the
    observed distribution possibly many deviations away from all samples."""
    r = rng(case)
    n, p, q = case["n"], case["p"], case["q"]
    sc = 10.0 ** case["scale"]
    X, y = sc * r.standard_normal((n, p)), sc * r.standard_normal((n, q))
    w = weights(case, case["w"], n)
    dom = np.array([[-10 * sc, 10 * sc]] * p)
    away = r.standard_normal(q)  # its length in deviations, so densities stay above 1e-200
    away *= case["far"] / np.linalg.norm(away)
    obs = Dist({"k": "norm", "loc": (sc * (away + r.standard_normal(q))).tolist(), "scale": [sc] * q})
    pred = Dist({"k": "norm", "loc": [0.0] * q, "scale": [case["width"] * sc] * q})
    with sut("problem"):
        D = DensityProblem(X, y, dom, weights=w)
        D.set_initial()
        D.set_observed(obs.scipy())
        D.set_predicted(pred.scipy())
    wc = combined(w, n)
    judge(D, X, wc, density_model(X, y, wc, None, pred, obs, dom), None, "mud")
    return n > 1, f"scale={case['scale']} far={case['far']}"


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, n=st.integers(60, 1500), p=st.integers(1, 3),
                               bias=st.sampled_from([0.0, 0.5, 3.0, 9.0]))),
    n=60, rule="every case")
def change_of_samples(case):
    """E(r) is near one when the prediction covers the data (large samples of
    an identity-like map) and the mud point maximises over the samples only."""
    r = rng(case)
    n, p = case["n"], case["p"]
    X = r.uniform(0, 1, (n, p))
    y = X[:, :1].copy()
    with sut("problem"):
        D = DensityProblem(X, y, [[0, 1]] * p)
        D.set_initial()
        D.set_observed(ds.norm(0.5, 0.07))
        D.set_predicted(ds.uniform(0, 1))
        er, mud = D.expected_ratio(), D.mud_point()
    ref = float(np.mean(np.exp(-0.5 * ((y - 0.5) / 0.07) ** 2) / (0.07 * np.sqrt(2 * np.pi))))
    close(er, ref, "expected ratio", shape=False)
    i = is_row(X, mud, "mud point")
    d = np.abs(y - 0.5).ravel()
    need(d[i].min() <= d.min() * (1 + 1e-9) + 1e-12, "mud point is not the sample nearest the observed mode")
    return True
