"""P04: posterior and MAP point."""
import numpy as np
from hypothesis import strategies as st
from mud.base import BayesProblem

from ..core import *  # noqa: F403
from ..density import base, box, dist_for, samples, typed
from ..models import Dist, norm_pdf, uniform_pdf

SUITE = Suite("P04", quick=4)


def logp(d, x):
    """Sum of log densities per row, exact where densities underflow."""
    s = d.spec
    if s["k"] == "norm":
        z = (x - np.array(s["loc"])) / np.array(s["scale"])
        v = -0.5 * z * z - np.log(np.array(s["scale"]) * np.sqrt(2 * np.pi)) + 0 * x
    elif s["k"] == "laplace":
        v = -np.abs(x - np.array(s["loc"])) / np.array(s["scale"]) - np.log(2 * np.array(s["scale"])) + 0 * x
    else:
        lo, w = np.array(s["lo"]), np.array(s["width"])
        v = np.where((x >= lo) & (x <= lo + w), -np.log(w) + 0 * x, -np.inf)
    return v.sum(axis=1)


def judge(B, X, lp, what, log, expect_point=True):
    """MAP point maximises lp; posterior proportional to exp(lp)."""
    if not np.isfinite(lp).any():
        if (lp == -np.inf).all():  # no sample is admissible
            raises(B.map_point, (ValueError,), f"{what} without an admissible sample")
            raises(B.estimate, (ValueError,), f"{what} without an admissible sample")
        return False
    with sut(what):
        p, e = B.map_point(), B.estimate()
    i = is_row(X, p, what)
    best = np.max(lp)
    need(np.max(lp[i]) >= best - 1e-7 * (1 + abs(best)), f"{what}: log posterior {lp[i].max()!r}, maximum {best!r}")
    same(e, p, f"{what}: estimate")
    ps = private(B, "_ps")
    if ps is not None and np.shape(ps) == lp.shape:
        ps = np.asarray(ps, float)
        rel = np.exp(ps - ps.max()) if log else ps / ps.max()
        close(rel, np.exp(lp - best), f"{what}: posterior", 1e-6 * max(1.0, abs(best) * 1e-3), 1e-12)
    return True


space = base(
    n=st.one_of(st.integers(2, 60), st.integers(2, 400)), p=st.integers(1, 4), q=st.integers(1, 40),
    domain=st.sampled_from(["given", "none", "inside"]), flip=st.sampled_from([False, False, True]),
    prior=st.sampled_from(["default", "none", "norm", "laplace", "uniform", "cut"]),
    ll=st.sampled_from(["norm", "laplace", "cut", "scalar"]), tight=st.integers(-3, 3),
    xlist=st.booleans(), order=st.sampled_from(["pl", "lp"]), fit=st.booleans(),
    num=st.sampled_from(["float", "float", "float", "int-X", "int-y", "float32"]), lay=layouts,
    units=st.one_of(st.just([0, 0]), st.just([0, 0]), st.lists(st.integers(-12, 12), min_size=2, max_size=2)),
)


def pieces(case):
    X, y = samples(case)
    n = len(X)
    r = rng(case, 5)
    dom = None
    if case["domain"] != "none":
        dom = box(X, 0.1 if case["domain"] == "given" else -0.12)  # inside: some samples beyond the domain
    lo, hi = X.min(axis=0), X.max(axis=0)
    d = dom if dom is not None else np.array([lo - 0.1 * (hi - lo), hi + 0.1 * (hi - lo)]).T
    default = Dist({"k": "uniform", "lo": d[:, 0].tolist(), "width": (d[:, 1] - d[:, 0]).tolist()})
    if dom is not None and case["flip"]:
        dom = dom[:, ::-1]
    prior = default if case["prior"] in ("default", "none") else dist_for(case, case["prior"], X, 6)
    sc = y.std(axis=0) + 1e-3
    q = y.shape[1]
    f = 2.0 ** case["tight"]
    i = int(r.integers(n))
    if case["ll"] == "norm" or case["ll"] == "laplace":
        ll = Dist({"k": case["ll"], "loc": (y[i] + 0.3 * sc * r.standard_normal(q)).tolist(),
                   "scale": (f * sc * r.uniform(0.5, 1.5, q)).tolist()})
    elif case["ll"] == "scalar":
        ll = Dist({"k": "norm", "loc": (y[i] + 0.3 * sc * r.standard_normal(q)).tolist(),
                   "scale": float(f * sc.mean())})
    else:
        ll = dist_for(case, "cut", y, 7)
    if case["num"] == "float":  # parameters and outputs in other units
        u, v = (10.0 ** e for e in case["units"])
        X, y, prior, ll = X * u, y * v, in_units(prior, u), in_units(ll, v)
        dom = None if dom is None else dom * u
    return X, y, dom, prior, ll


def in_units(d, f):
    return Dist({k: v if k == "k" else (np.array(v) * f).tolist() for k, v in d.spec.items()})


def build(case, X, y, dom, prior, ll, log):
    X, y = typed(case, X, y)
    X, y = layout(X, case["lay"]), layout(y, case["lay"])
    if case["xlist"]:
        B = BayesProblem(X.tolist(), y.tolist(), None if dom is None else dom.tolist())
    else:
        B = BayesProblem(X, y, dom)

    def pr():
        if case["prior"] == "none":
            B.set_prior()
        elif case["prior"] != "default":
            B.set_prior(prior.scipy())

    def lk():
        B.set_likelihood(ll.scipy(), log=log) if log else B.set_likelihood(ll.scipy())

    for k in case["order"]:
        pr() if k == "p" else lk()
    return B


@SUITE.check(space, n=2500, rule="several data, or a prior other than the default")
def formula(case):
    X, y, dom, prior, ll = pieces(case)
    lp = logp(prior, X) + logp(ll, y)
    plain = prior.joint(X) * ll.joint(y)
    with sut("problem"):
        P = build(case, X, y, dom, prior, ll, False)
        L = build(case, X, y, dom, prior, ll, True)
    need((P.n_params, P.n_features, P.n_samples) == (X.shape[1], y.shape[1], len(X)), "sizes")
    if case["fit"]:
        with sut("fit"):
            if np.isfinite(lp).any():
                L.fit()
            if plain.max() > 0:
                P.fit()
    judge(L, X, lp, "log form", True)
    if plain.max() == 0:
        raises(P.map_point, (ValueError,), "plain form with vanishing posterior")
        raises(P.estimate, (ValueError,), "plain form with vanishing posterior")
        return True, "underflow"
    if 1e-250 < plain.max() < 1e250:
        judge(P, X, lp, "plain form", False)
        if plain.max() > 1e-200 and np.isfinite(lp).any():
            i, j = is_row(X, P.map_point(), "plain"), is_row(X, L.map_point(), "log")
            b = lp.max()
            need(abs(lp[i].max() - lp[j].max()) <= 1e-7 * (1 + abs(b)), "plain and log forms differ")
    return case["q"] > 1 or case["prior"] != "default", f"{case['prior']}/{case['ll']}"


@SUITE.check(
    st.fixed_dictionaries(dict(
        seed=seeds, n=st.integers(5, 120), p=st.integers(1, 3), q=st.sampled_from([1, 5, 100, 400, 1500]),
        far=st.sampled_from([0, 1, 10, 100]), sd=st.sampled_from([0.01, 0.1, 1.0]),
        prior=st.sampled_from(["default", "norm"]))),
    n=500, rule="the product of the likelihoods underflows for every sample")
def underflow(case):
    """Many data or far-off data."""
    r = rng(case)
    n, p, q, sd = case["n"], case["p"], case["q"], case["sd"]
    X = r.uniform(0, 1, (n, p))
    Q = X @ r.uniform(0.5, 2.0, (p, q))
    data = Q[0] + sd * r.standard_normal(q) + sd * case["far"]
    ll = Dist({"k": "norm", "loc": data.tolist(), "scale": sd})
    dom = np.array([[0, 1]] * p)
    prior = Dist({"k": "uniform", "lo": [0.0] * p, "width": [1.0] * p})
    if case["prior"] == "norm":
        prior = Dist({"k": "norm", "loc": [0.4] * p, "scale": [0.3] * p})
    lp = logp(prior, X) + logp(ll, Q)
    plain = prior.joint(X) * ll.joint(Q)

    def make(log):
        B = BayesProblem(X, Q, dom)
        B.set_likelihood(ll.scipy(), log=log)
        if case["prior"] == "norm":
            B.set_prior(prior.scipy())
        return B

    with sut("problem"):
        L, P = make(True), make(False)
    judge(L, X, lp, "log form", True)
    if plain.max() == 0:
        raises(P.map_point, (ValueError,), "plain form with vanishing posterior")
        raises(P.map_point, (ValueError,), "plain form with vanishing posterior, asked again")
        with sut("switching to logarithms"):
            P.set_likelihood(ll.scipy(), log=True)
        judge(P, X, lp, "log form after the refusal", True)
        return True, "underflow"
    if 1e-250 < plain.max() < np.inf:
        judge(P, X, lp, "plain form", False)
    return False, "no underflow"


@SUITE.check(
    st.fixed_dictionaries(dict(
        seed=seeds, n=st.sampled_from([500, 1000, 1001, 2048, 5000, 10000, 20011]), p=st.integers(1, 5), q=st.integers(1, 4),
        where=st.sampled_from(["first", "last", "any", "twice"]), near=st.sampled_from([0.0, 1e-9, 1e-5, 1e-2]),
        prior=st.sampled_from(["default", "norm"]), f32=st.booleans())),
    n=60, rule="the two best samples are close to each other")
def many(case):
    """Thousands of samples, of which two stand out: one of them by little."""
    r = rng(case)
    n, p, q = case["n"], case["p"], case["q"]
    X = r.standard_normal((n, p))
    Q = r.standard_normal((n, q))
    i = {"first": 0, "last": n - 1}.get(case["where"], int(r.integers(n)))
    j = (i + 1 + int(r.integers(n - 1))) % n
    X[i] *= 0.1
    X[j] = X[i]
    ll = Dist({"k": "norm", "loc": r.standard_normal(q).tolist(), "scale": 0.05})
    loc = np.array(ll.spec["loc"])
    d = r.standard_normal(q)
    Q[i], Q[j] = loc + 1e-3 * d, loc + (1e-3 + case["near"]) * d
    if case["where"] == "twice":
        Q[j] = Q[i]
    if case["f32"]:
        X, Q = X.astype(np.float32), Q.astype(np.float32)
    dom = np.array([[-9.0, 9.0]] * p)
    prior = Dist({"k": "uniform", "lo": [-9.0] * p, "width": [18.0] * p})
    if case["prior"] == "norm":
        prior = Dist({"k": "norm", "loc": [0.2] * p, "scale": [1.5] * p})
    lp = logp(prior, X.astype(float)) + logp(ll, Q.astype(float))
    for log in (False, True):
        with sut("problem"):
            B = BayesProblem(X, Q, dom)
            B.set_likelihood(ll.scipy(), log=log)
            if case["prior"] == "norm":
                B.set_prior(prior.scipy())
        judge(B, X, lp, "log form" if log else "plain form", log)
        need((B.n_samples, B.n_params, B.n_features) == (n, p, q), "sizes")
    return 0 < case["near"] < 1e-3, f"{n}"


@SUITE.check(
    st.fixed_dictionaries(dict(
        seed=seeds, n=st.integers(3, 60), p=st.integers(1, 2), q=st.integers(1, 3),
        part=st.sampled_from(["all", "some"]), wide=st.booleans(), shift=st.sampled_from([0.0, 0.3]))),
    n=300, rule="the posterior is flat")
def flat(case):
    """Uniform prior and likelihood: log densities are zero or minus infinity."""
    r = rng(case)
    n, p, q = case["n"], case["p"], case["q"]
    X = r.uniform(0, 1, (n, p))
    Q = r.uniform(0, 1, (n, q))
    w = 2.0 if case["wide"] else 1.0
    lo = 0.0 if case["part"] == "all" else case["shift"]
    ll = Dist({"k": "uniform", "lo": [lo] * q, "width": [w] * q})
    lp = logp(ll, Q)
    dom = np.array([[0, 1]] * p)

    def make(log):
        B = BayesProblem(X, Q, dom)
        B.set_likelihood(ll.scipy(), log=log)
        return B

    with sut("problem"):
        L, P = make(True), make(False)
    if np.isfinite(lp).any():
        judge(L, X, lp, "log form", True)
        judge(P, X, lp, "plain form", False)
    else:
        raises(P.map_point, (ValueError,), "plain form with vanishing posterior")
        raises(L.map_point, (ValueError,), "log form with vanishing posterior")
    return True, case["part"]


@SUITE.check(
    st.fixed_dictionaries(dict(
        seed=seeds, n=st.integers(2, 60), p=st.integers(1, 2), q=st.sampled_from([1, 3, 20, 100, 400]),
        sd=st.sampled_from([0.01, 0.1, 1.0]), away=st.sampled_from([0.5, 3.0, 30.0]), prior=st.sampled_from(["default", "uniform"]),
        rep=st.booleans(), none=st.sampled_from([False] * 7 + [True]))),
    n=700, rule="the likelihood favours an excluded sample")
def excluded(case):
    """Samples outside of the support of the prior, however likely their
    outputs, have posterior zero."""
    r = rng(case)
    n, p, q, sd = case["n"], case["p"], case["q"], case["sd"]
    X = r.uniform(0, 1, (n, p))
    out = r.random(n) < 0.4
    out[0] = case["none"]
    out[-1] = True
    if case["none"]:
        out[:] = True
    X[out, int(r.integers(p))] += 1.0 + case["away"] * r.uniform(0.5, 1, out.sum())
    Q = X @ r.uniform(0.5, 2.0, (p, q))
    ll = Dist({"k": "norm", "loc": (Q[-1] + 0.1 * sd * r.standard_normal(q)).tolist(), "scale": sd})
    prior = Dist({"k": "uniform", "lo": [0.0] * p, "width": [1.0] * p})
    lp = logp(prior, X) + logp(ll, Q)
    B = BayesProblem(X, Q, np.array([[0.0, 1.0]] * p))
    B.set_likelihood(ll.scipy(), log=True)
    if case["prior"] == "uniform":
        B.set_prior(prior.scipy())
    judge(B, X, lp, "log form", True)
    if case["rep"]:
        plain = prior.joint(X) * ll.joint(Q)
        B.set_likelihood(ll.scipy())
        if plain.max() == 0:
            raises(B.map_point, (ValueError,), "plain form with vanishing posterior")
        elif plain.max() > 1e-250:
            judge(B, X, lp, "plain form", False)
    if case["none"]:
        return True, "no sample left"
    gain = logp(ll, Q)
    return gain.max() > gain[~out].max(), "underflow" if gain.max() - gain[~out].max() > 700 else "moderate"
