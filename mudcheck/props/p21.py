"""P21: generators of the example problems."""
import inspect
import os
import pickle

import numpy as np
from hypothesis import strategies as st
from matplotlib import pyplot as plt
from mud.examples import exp_decay, fenics, linear, poisson, simple
from scipy.stats import distributions as ds

from ..core import *  # noqa: F403

SUITE = Suite("P21", quick=2)


def twice(fn, seed, what):
    """Result of fn with the generator seeded, drawn again and with others."""
    np.random.seed(seed)
    with sut(what):
        one = fn()
    np.random.seed(seed)
    with sut(what):
        two = fn()
    return one, two


def spread(z, what, lo=0.75, hi=1.3):
    """Standardised noise: zero mean, unit deviation."""
    n = z.size
    if n < 200:
        return
    need(abs(z.mean()) < 6 / np.sqrt(n), f"{what}: mean of the noise {z.mean()!r} standard deviations")
    need(lo < z.std() < hi, f"{what}: the noise deviates by {z.std()!r} times the requested standard deviation")


# --------------------------------------------------------------------------
# polynomial and identity problems

INIT = st.sampled_from(["default", "uniform", "norm", "beta"])


def initial(r, kind):
    """Distribution and its support."""
    if kind == "default":
        return None, (0.0, 1.0)
    if kind == "norm":
        return ds.norm(r.uniform(-1, 1), r.uniform(0.3, 2)), (-np.inf, np.inf)
    if kind == "beta":
        return ds.beta(2, 5), (0.0, 1.0)
    a, w = r.uniform(-3, 3), r.uniform(0.2, 4)
    return ds.uniform(a, w), (a, a + w)


@SUITE.finding("polynomial-domain")
def polynomial_domain():
    np.random.seed(1)
    lam = simple.polynomial_1D_data(num_samples=200, domain=[[2, 3]])[0]
    if ((lam >= 2) & (lam <= 3)).all():
        return None
    need(((lam >= 0) & (lam <= 1)).all(), "polynomial_1D_data(domain=[[2, 3]]) has samples outside of [2, 3] and of [0, 1]")
    return "polynomial_1D_data(domain=[[2, 3]]) draws the parameters from [0, 1], the domain is ignored"


@SUITE.finding("polynomial-noise")
def polynomial_noise():
    np.random.seed(1)
    d = simple.polynomial_1D_data(num_samples=5, mu=0.0, sigma=0.1, N=4000)[2]
    if 0.09 < d.std() < 0.11:
        return None
    need(0.009 < d.std() < 0.011, f"polynomial_1D_data(sigma=0.1) scatters by {d.std()!r}")
    return "polynomial_1D_data(sigma=0.1) scatters the data with standard deviation sigma**2 = 0.01"


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, p=st.integers(0, 6), n=st.integers(1, 60), N=st.sampled_from([1, 2, 5, 20, 400, 1000]),
                               mu=st.floats(-3, 3), sigma=st.sampled_from([0.01, 0.1, 0.3, 2.0, 5.0]), init=INIT,
                               dom=st.booleans())),
    n=1500, rule="several data")
def polynomial(case):
    r = rng(case)
    d, (lo, hi) = initial(r, case["init"])
    kw = dict(p=case["p"], num_samples=case["n"], mu=case["mu"], sigma=case["sigma"], N=case["N"])
    if d is not None:
        kw["init_dist"] = d
    if case["dom"] and d is None:
        kw["domain"] = [[0, 1]]
    elif d is None and not known("polynomial-domain"):
        lo, hi = -1.0, 1.0
    one, two = twice(lambda: simple.polynomial_1D_data(**kw), case["seed"], "polynomial_1D_data")
    lam, q, data = one
    need(lam.shape == (case["n"], 1) and q.shape == (case["n"], 1) and data.shape == (case["N"],),
         f"shapes {lam.shape}, {q.shape}, {data.shape} for {case['n']} samples and {case['N']} data")
    need(((lam >= lo) & (lam <= hi)).all(), "samples outside of the initial distribution")
    close(q, lam ** case["p"], "outputs", 1e-12, 0)
    if case["N"] == 1:
        same(data, np.array([case["mu"]]), "single datum")
    else:
        z = (data - case["mu"]) / case["sigma"]
        if known("polynomial-noise") and case["N"] >= 200 and not 0.75 < z.std() < 1.3:
            z = z / case["sigma"]
        spread(z, "polynomial_1D_data")
    for a, b in zip(one, two):
        same(b, a, "result with the same seed")
    np.random.seed((case["seed"] + 1) % 2**32)
    other = simple.polynomial_1D_data(**kw)
    need(case["n"] < 5 or not np.array_equal(other[0], lam), "another seed gives the same samples")
    return case["N"] > 1, f"p={case['p']}"


def problem_state(P):
    return [np.array(P.X), np.array(P.y), np.array(P.domain), np.array(P.estimate())]


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, n=st.integers(20, 80), N=st.integers(1, 30), mu=st.floats(0.2, 0.8),
                               sigma=st.sampled_from([0.05, 0.2, 1.0]), dom=st.booleans(), init=st.sampled_from(["uniform", "given"]),
                               w=st.booleans(), norm=st.booleans(), pred=st.booleans())),
    n=500, rule="sample weights or another domain")
def identity_density(case):
    """The samples are their own predictions; the estimate follows from them."""
    r = rng(case)
    lo, hi = (0, 1) if not case["dom"] else (float(r.uniform(-2, 0)), float(r.uniform(0.5, 3)))
    w = r.uniform(0.1, 2, case["n"]) if case["w"] else None
    kw = dict(num_samples=case["n"], num_obs=case["N"], mu=case["mu"], sigma=case["sigma"], normalize=case["norm"],
              analytical_pred=case["pred"])
    if case["dom"]:
        kw["domain"] = [lo, hi]
    if w is not None:
        kw["weights"] = w
    if case["init"] == "given":
        kw["init_dist"] = ds.uniform(lo, hi - lo)
    one, two = twice(lambda: simple.identity_1D_density_prob(**kw), case["seed"], "identity_1D_density_prob")
    X = one.X
    need(X.shape == (case["n"], 1), f"{X.shape} for {case['n']} samples")
    need(((X >= lo) & (X <= hi)).all(), f"samples outside of the domain {lo}, {hi}")
    close(one.y, X, "outputs of the identity", 1e-12, 0)
    same(np.array(one.domain, float), np.array([[lo, hi]], float), "domain")
    with sut("estimate"):
        est, er = one.estimate(), one.expected_ratio()
    is_row(X, est, "estimate")
    for a, b in zip(problem_state(one), problem_state(two)):
        same(b, a, "problem with the same seed")
    if case["pred"]:
        # predicted = initial: the update is the observed density, a normal of
        # the requested deviation around the mean datum
        ww = np.ones(case["n"]) if w is None else w
        x, p = X.ravel(), private(one, "_up")
        if p is not None and case["N"] == 1:
            want = ww * np.exp(-0.5 * ((x - case["mu"]) / case["sigma"]) ** 2)
            i = is_row(X, est, "estimate")
            maximises(want, i, "estimate", 1e-6)
            ob = want / ww / (case["sigma"] * np.sqrt(2 * np.pi)) * (hi - lo)
            close(er, (ob * ww).sum() / ww.sum(), "expected ratio", 1e-7)
    return case["w"] or case["dom"], f"pred={case['pred']}"


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, n=st.integers(20, 80), N=st.integers(1, 30), mu=st.floats(0.2, 0.8),
                               sigma=st.sampled_from([0.05, 0.2, 1.0]), dom=st.booleans(), init=INIT)),
    n=400, rule="an explicit domain or initial distribution")
def identity_bayes(case):
    r = rng(case)
    d, (lo, hi) = initial(r, case["init"])
    kw = dict(num_samples=case["n"], num_obs=case["N"], mu=case["mu"], sigma=case["sigma"])
    if d is not None:
        kw["init_dist"] = d
    if case["dom"]:
        kw["domain"] = [-9.0, 9.0]
    one, two = twice(lambda: simple.identity_1D_bayes_prob(**kw), case["seed"], "identity_1D_bayes_prob")
    X = one.X
    need(X.shape == (case["n"], 1) and ((X >= lo) & (X <= hi)).all(), "samples")
    close(one.y, X, "outputs of the identity", 1e-12, 0)
    if case["dom"]:
        same(np.array(one.domain, float), np.array([[-9.0, 9.0]]), "domain")
    if case["N"] == 1 and np.exp(-0.5 * ((X - case["mu"]) / case["sigma"]) ** 2).max() > 1e-200 and case["dom"]:
        i = is_row(X, one.estimate(), "estimate")
        maximises(-np.abs(X.ravel() - case["mu"]), i, "estimate: nearness to the datum", 1e-6)
    same(two.X, X, "samples with the same seed")
    return case["dom"] or d is not None


@SUITE.finding("identity-temporal")
def identity_temporal():
    np.random.seed(1)
    try:
        D = simple.identity_1D_temporal_prob(num_samples=30, num_obs=4)
    except (ValueError, TypeError, AttributeError) as e:
        return f"identity_1D_temporal_prob() raises {type(e).__name__}: its own data do not fit the container"
    need(D.X.shape == (30, 1) and D.y.shape == (30, 1), f"identity_1D_temporal_prob: shapes {D.X.shape}, {D.y.shape}")
    return None


# --------------------------------------------------------------------------
# exponential decay


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, n=st.integers(1, 30), u0=st.one_of(st.none(), st.floats(0.1, 3)), t0=st.sampled_from(
        [0.0, 0.5, 1.0]), t1=st.sampled_from([2.0, 3.5, 4.0]), freq=st.sampled_from([1.0, 4.0, 10.0, 7.3]), dom=st.booleans(),
        true=st.floats(0, 2), sd=st.sampled_from([0.05, 0.3, 1.0]), noise=st.booleans())),
    n=800, rule="several samples and times")
def decay(case):
    r = rng(case)
    dom = [float(r.uniform(0, 0.5)), float(r.uniform(0.6, 3))] if case["dom"] else [0, 1]
    kw = dict(num_samples=case["n"], time_range=[0, case["t1"]], t_start=case["t0"], sampling_freq=case["freq"],
              lambda_true=case["true"], std_dev=case["sd"])
    if case["u0"] is not None:
        kw["u_0"] = case["u0"]
    if case["dom"]:
        kw["domain"] = dom
    u0 = 0.75 if case["u0"] is None else case["u0"]
    one, two = twice(lambda: exp_decay.exp_decay_1D(**kw), case["seed"], "exp_decay_1D")
    same(np.array(one.domain, float), np.array([dom], float), "domain")
    lam, t = one.lam, np.asarray(one.times, float)
    need(lam.shape == (case["n"], 1) and ((lam >= dom[0]) & (lam <= dom[1])).all(), f"parameters {_f(lam)} outside of {dom}")
    k = len(t)
    vclose(t, case["t0"] + np.arange(k) / case["freq"], "times", 1e-9)
    need(t[-1] < case["t1"] + 1e-9 and t[-1] + 1 / case["freq"] > case["t1"] - 1e-6, f"last time {t[-1]!r}")
    need(one.data.shape == (case["n"], k), f"data {one.data.shape} for {case['n']} samples and {k} times")
    close(one.data, u0 * np.exp(-lam * t), "data", 1e-10, 1e-12)
    close(np.ravel(one.true_vals), u0 * np.exp(-case["true"] * t), "true values", 1e-10, 1e-12)
    need(one.std_dev == case["sd"], f"noise level {one.std_dev!r}")
    same(two.lam, lam, "parameters with the same seed")
    if case["noise"]:
        one.measurements_from_reference(seed=3)
        z = (np.ravel(one.measurements) - np.ravel(one.true_vals)) / case["sd"]
        spread(z, "exp_decay_1D")
        D = one.mud_problem("wme")
        need(D.n_samples == case["n"], "problem built from it")
    return case["n"] > 1 and k > 1


def _f(x):
    return np.array2string(np.ravel(x)[:4], precision=4)


@SUITE.finding("decay-2d")
def decay_2d():
    np.random.seed(1)
    try:
        P = exp_decay.exp_decay_2D(num_samples=7, N=11, sampling_freq=10.0)
    except TypeError:
        return "exp_decay_2D() raises TypeError: the model at the true parameters is called without the second of them"
    lam, t = P.lam, np.asarray(P.times, float)
    need(lam.shape == (7, 2) and len(t) == 11 and P.data.shape == (7, 11), "exp_decay_2D: shapes")
    close(P.data, lam[:, :1] * np.exp(-lam[:, 1:] * t), "exp_decay_2D: data")
    close(np.ravel(P.true_vals), 0.75 * np.exp(-0.5 * t), "exp_decay_2D: true values")
    return None


# --------------------------------------------------------------------------
# linear problems


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, d=st.integers(1, 5), k=st.integers(1, 4), n=st.sampled_from([1, 2, 10, 50, 400]),
                               dist=st.sampled_from(["normal", "uniform", "norm"]), mode=st.sampled_from(
                                   ["repeated", "repeated", "square", "one"]), sd=st.sampled_from([0, 0.0, 0.1, 2.0]),
                               form=st.sampled_from(["scalar", "list", "array", "each"]), ref=st.sampled_from(
                                   ["flat", "col", "list"]), sizes=st.booleans())),
    n=1500, rule="noisy data")
def wme_data(case):
    """Operators, data and noise levels of a problem of weighted mean errors."""
    r = rng(case)
    d, k, n = case["d"], case["k"], case["n"]
    if case["mode"] == "one" or (case["form"] == "scalar" and known("wme-scalar-noise")):
        k = 1
    rep = case["mode"] == "repeated" or (case["mode"] == "one" and bool(r.integers(2)))
    if case["mode"] == "square":
        n = k  # one row per datum
    ns = [n] * k if not case["sizes"] or case["mode"] == "square" else [int(i) for i in r.integers(1, n + 1, k)]
    ref = r.standard_normal(d)
    arg = {"flat": ref, "col": ref.reshape(-1, 1), "list": ref.tolist()}[case["ref"]]
    arg = list(arg) if case["ref"] == "list" else arg
    sd = float(case["sd"])
    lev = [sd * (j + 1) for j in range(k)]
    std = {"scalar": sd, "list": lev, "array": np.array(lev), "each": [np.full(m, v) for m, v in zip(ns, lev)]}[case["form"]]
    if case["form"] == "scalar":
        lev = [sd] * k
    kw = dict(num_qoi=k, num_observations=ns if case["sizes"] else n, dist=case["dist"], repeated=rep)
    F = Frozen(ref=arg, std=std, kw=kw)
    one, two = twice(lambda: linear.random_linear_wme_problem(arg, std, **kw), case["seed"], "random_linear_wme_problem")
    F.verify("random_linear_wme_problem")
    ops, data, out = one
    need(len(ops) == k and len(data) == k and len(out) == k, f"{len(ops)} operators, {len(data)} data sets for {k}")
    for j in range(k):
        M = ops[j]
        need(M.ndim == 2 and M.shape[1] == d and (M.shape[0] == ns[j] or M.shape[0] == 1), f"operator {M.shape} for {ns[j]} data,"
             f" {d} parameters")
        need(not rep or M.shape[0] == 1, f"operator {M.shape} for repeated measurements")
        need(np.shape(data[j]) == (ns[j],), f"data {np.shape(data[j])}, requested {ns[j]}")
        model = np.broadcast_to((M @ ref.reshape(-1, 1)).ravel(), (ns[j],))
        if sd == 0:
            vclose(data[j], model, "noise-free data", 1e-10)
        else:
            z = (data[j] - model) / lev[j]
            need(np.abs(z).max() < 7, f"noise of {np.abs(z).max()!r} standard deviations")
            spread(z, "random_linear_wme_problem")
            need(len(z) < 3 or np.ptp(z) > 0, "the same noise on all data")
        if case["dist"] == "uniform":
            need(((M >= 0) & (M <= 1)).all(), "uniform operator outside of [0, 1]")
        elif d * k > 12 and case["dist"] == "normal":
            need((np.concatenate([o.ravel() for o in ops]) < 0).any(), "normal operator without negative entries")
    for a, b in zip(ops + data, two[0] + two[1]):
        same(b, a, "problem with the same seed")
    return sd > 0, case["mode"]


@SUITE.finding("wme-scalar-noise")
def wme_scalar_noise():
    np.random.seed(1)
    bad = 0
    for std, k in ((0.5, 3), (2, 1)):
        try:
            ops, data, lev = linear.random_linear_wme_problem([0.3], std, num_qoi=k, num_observations=400, repeated=True)
        except (AssertionError, ValueError):
            bad += 1
            continue
        for M, v in zip(ops, data):
            need(0.8 * std < (v - M[0, 0] * 0.3).std() < 1.25 * std, "random_linear_wme_problem: noise level of a scalar std_dev")
    return "random_linear_wme_problem(std_dev=number) fails for several QoI and for integers: the number is multiplied by num_qoi" \
           " instead of repeated" if bad else None


@SUITE.finding("wme-operator-rows")
def wme_operator_rows():
    np.random.seed(1)
    try:
        ops, data, _ = linear.random_linear_wme_problem(np.array([0.3, 0.4]), [0.0, 0.0, 0.0], num_qoi=3, num_observations=10)
    except ValueError:
        return "random_linear_wme_problem(num_qoi=3, num_observations=10) raises ValueError: its operators have num_qoi rows, not one" \
               " per measurement"
    for M, v in zip(ops, data):
        need(M.shape == (10, 2) and np.shape(v) == (10,), f"random_linear_wme_problem: operator {M.shape}, data {np.shape(v)}")
        vclose(v, M @ [0.3, 0.4], "random_linear_wme_problem: noise-free data")
    return None


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, n=st.integers(1, 8), m=st.integers(1, 8), mean=st.booleans(), cov=st.booleans(),
                               how=st.sampled_from(["seed", "state"]))),
    n=600)
def linear_problem(case):
    r = rng(case)
    n, m = case["n"], case["m"]
    mean = r.standard_normal((n, 1)) if case["mean"] else None
    C = spd(r, n, 1.0) if case["cov"] else None
    s = case["seed"] % 2**32
    kw = dict(dim_input=n, dim_output=m, mean_i=mean, cov_i=C)
    if case["how"] == "seed":
        kw["seed"] = s
    np.random.seed(0 if case["how"] == "seed" else s)
    with sut("random_linear_problem"):
        ref, L = linear.random_linear_problem(**kw)
    np.random.seed(1 if case["how"] == "seed" else s)
    with sut("random_linear_problem"):
        ref2, L2 = linear.random_linear_problem(**kw)
    need(np.shape(ref) == (n, 1) and L.A.shape == (m, n), f"sizes {np.shape(ref)}, {L.A.shape} for {n} parameters, {m} outputs")
    vclose(L.y.ravel(), (L.A @ ref + L.b).ravel(), "observed value at the reference", 1e-10)
    vclose(L.mean_i.ravel(), np.zeros(n) if mean is None else mean.ravel(), "initial mean", 1e-12)
    if C is not None:
        close(L.cov_i, C, "initial covariance", 1e-12)
    else:
        D = np.diag(L.cov_i)
        need(np.allclose(L.cov_i, np.diag(D)) and (D >= 0.5).all() and (D <= 1.5).all() and (np.diff(D) <= 0).all(),
             "default initial covariance is a decreasing diagonal in [0.5, 1.5]")
    for a, b in ((ref2, ref), (L2.A, L.A), (L2.b, L.b), (L2.y, L.y), (L2.cov_i, L.cov_i)):
        same(a, b, "problem with the same seed")
    other = linear.random_linear_problem(**{**kw, "seed": (s + 1) % 2**32})[1]
    need(not np.array_equal(other.A, L.A), "another seed gives the same map")
    if m >= n and n > 1 and np.linalg.cond(L.A) < 50:
        vclose(L.solve("ls").ravel(), ref.ravel(), "least-squares point of noise-free data", 1e-6, scale=1)
    return True


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, d=st.integers(1, 5), n=st.sampled_from([1, 2, 7, 300]), rep=st.booleans(), sd=st.sampled_from(
        ["zero", "int", "float", "each"]), bad=st.sampled_from(["no", "no", "no", "ref", "rows", "std"]), ref=st.booleans())),
    n=800, rule="noisy data")
def noisy_data(case):
    r = rng(case)
    d, n = case["d"], case["n"]
    M = r.standard_normal((1 if case["rep"] else n, d))
    ref = r.standard_normal(d)
    arg = ref.reshape(-1, 1) if case["ref"] else ref
    std = {"zero": 0.0, "int": 2, "float": 0.3, "each": r.uniform(0.1, 2, n)}[case["sd"]]
    kw = {"num_data": n} if case["rep"] else {}
    f = linear.noisy_linear_data
    if case["bad"] != "no":
        if case["bad"] == "ref":
            raises(lambda: f(M, np.append(ref, 1.0), std, **kw), REFUSALS, "reference of another dimension")
        elif case["bad"] == "rows":
            raises(lambda: f(np.vstack([M, M, M[:1]])[: n + 2], ref, 0.3, num_data=n + 5), REFUSALS, "rows neither one nor as many as data")
        else:
            raises(lambda: f(M, ref, np.ones(n + 1), **kw), REFUSALS, "noise levels of another size")
        return False
    F = Frozen(M=M, ref=arg, std=std)
    one, two = twice(lambda: f(M, arg, std, **kw), case["seed"], "noisy_linear_data")
    F.verify("noisy_linear_data")
    need(one.shape == (n,), f"data {one.shape}, requested {n}")
    model = np.broadcast_to(M @ ref, (n,))
    if case["sd"] == "zero":
        vclose(one, model, "noise-free data", 1e-10)
    else:
        z = (one - model) / std
        need(np.abs(z).max() < 7, f"noise of {np.abs(z).max()!r} standard deviations")
        spread(z, "noisy_linear_data")
        need(n < 3 or np.ptp(z) > 0, "the same noise on all data")
    same(two, one, "data with the same seed")
    return case["sd"] != "zero"


@SUITE.finding("rotation-seed")
def rotation_seed():
    outs = []
    for s, pre in ((5, 0), (5, 1), (6, 0)):
        np.random.seed(pre)
        outs.append(linear.rotation_map(seed=s)[3])
    need(np.array_equal(outs[0], outs[1]), "rotation_map with the same seed gives different results")
    if not np.array_equal(outs[0], outs[2]):
        return None
    return "rotation_map gives the same initial mean for every seed (24 is always used)"


@SUITE.finding("rotation-trials")
def rotation_trials():
    try:
        linear.rotation_map_trials(numQoI=4, num_trials=2, model_eval_budget=8, seed=3)
    except TypeError:
        return "rotation_map_trials raises TypeError: it passes an argument IterativeLinearProblem does not have"
    finally:
        plt.close("all")
    return None


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, q=st.integers(1, 12), tol=st.floats(0.01, 2), b=st.booleans(), ref=st.booleans())),
    n=400, rule="offset or reference given")
def rotation(case):
    r = rng(case)
    q = case["q"]
    kw = dict(qnum=q, tol=case["tol"], seed=case["seed"])
    b = r.standard_normal((q, 1)) if case["b"] else None
    ref = r.standard_normal((2, 1)) if case["ref"] else None
    if b is not None:
        kw["b"] = b
    if ref is not None:
        kw["ref_param"] = ref
    np.random.seed(1)
    with sut("rotation_map"):
        one = linear.rotation_map(**kw)
        np.random.seed(2)
        two = linear.rotation_map(**kw)
    for x, y in zip(one, two):
        same(np.asarray(y), np.asarray(x), "map with the same seed")
    A, bb, y, mean, C, rp = one
    need(A.shape == (q, 2), f"{A.shape} rows for {q}")
    vclose(np.linalg.norm(A, axis=1), np.ones(q), "rows are directions", 1e-10)
    ang = np.arctan2(A[:, 0], A[:, 1])
    vclose(ang, np.linspace(0, np.pi, q), "equally spaced angles", 1e-9)
    close(rp, np.array([[0.5], [0.5]]) if ref is None else ref, "reference", 1e-12)
    close(bb, np.zeros((q, 1)) if b is None else b, "offset", 1e-12)
    vclose(y.ravel(), (A @ rp + bb).ravel(), "observed value at the reference", 1e-10)
    need(np.shape(mean) == (2, 1) and np.shape(C) == (2, 2) and (np.linalg.eigvalsh(C) > 0).all(), "initial distribution")
    return case["b"] or case["ref"]


# --------------------------------------------------------------------------
# boundary of the Poisson example


def knots(lam, right):
    n = len(lam)
    return np.arange(n + 2) / (n + 1), np.concatenate([[0.0], lam, [right]])


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, n=st.integers(1, 7), d=st.integers(0, 1), style=styles, lst=st.booleans())),
    n=600, rule="several knots")
def expression(case):
    """The text evaluates to the piecewise linear function through the knots."""
    r = rng(case)
    lam = numbers(r, case["n"], case["style"])
    arg = lam.tolist() if case["lst"] else lam
    with sut("piecewise_eval_from_vector"):
        s = fenics.piecewise_eval_from_vector(arg) if case["d"] == 1 else fenics.piecewise_eval_from_vector(arg, d=0)
    code = compile(s.replace("&&", "and").replace("||", "or"), "expression", "eval")
    kx, ky = knots(lam, 1.0)
    # away from the knots by rounding, where one piece hands over to the next
    pts = np.concatenate([r.uniform(0, 1, 20), kx[:-1] + 1e-9, kx[1:] - 1e-9])
    for v in pts:
        x = [0.123, 0.456]
        x[case["d"]] = float(v)
        close(float(eval(code, {"x": x, "__builtins__": {}})), np.interp(v, kx, ky), f"expression at {v!r}", 1e-6,
              1e-6 * (1 + np.abs(ky).max()))
    return case["n"] > 1


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, n=st.integers(1, 6), true=st.booleans(), aff=st.sampled_from([None, 7, 50]), given=st.booleans(),
                               lst=st.booleans())),
    n=250, rule="several knots")
def spline(case):
    r = rng(case)
    lam = r.uniform(-4, 1, case["n"])
    ax = other = None
    if case["given"]:
        ax = plt.subplots()[1]
        other = plt.subplots()[1]
    kw = {} if case["true"] else {"plot_true": False}
    if case["aff"]:
        kw["aff"] = case["aff"]
    with sut("plot_solution_spline"):
        ret = poisson.plot_solution_spline(lam.tolist() if case["lst"] else lam, ax=ax, color="m", label="S", **kw)
    need(ax is None or (ret is ax and not other.lines), "drawn on other axes")
    S = [ln for ln in ret.lines if ln.get_label() == "S"]
    need(len(S) == 1 and len(ret.lines) == 1 + case["true"], f"{len(ret.lines)} curves")
    kx, ky = knots(lam, 0.0)
    x, y = (np.asarray(v, float) for v in S[0].get_data())
    need(x[0] == 0 and abs(x[-1] - 1) < 1e-12, "ends of the spline")
    for v in np.concatenate([kx, r.uniform(0, 1, 9)]):
        close(np.interp(v, x, y), np.interp(v, kx, ky), f"spline at {v!r}", 1e-9, 1e-9)
    if case["true"]:
        g = [ln for ln in ret.lines if ln.get_label() != "S"][0]
        x, y = (np.asarray(v, float) for v in g.get_data())
        need(len(x) == (case["aff"] or 1000), f"{len(x)} points")
        close(y, 197.65032 * x**2 * (x - 1) ** 5, "true boundary", 1e-9, 1e-9)
    return case["n"] > 1


@SUITE.check(st.fixed_dictionaries(dict(seed=seeds, aff=st.sampled_from([None, 11, 100, 1000]))), n=200)
def objective(case):
    lam = rng(case).uniform(-4, 1, 2)
    n = case["aff"] or 10000
    x = np.linspace(0, 1, n)
    want = np.linalg.norm(197.65032 * x**2 * (x - 1) ** 5 - np.interp(x, *knots(lam, 0.0)))
    with sut("spline_objective_function_2d"):
        got = poisson.spline_objective_function_2d(lam, **({"aff": n} if case["aff"] else {}))
    close(got, want, "distance of the spline", 1e-8)


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, n=st.integers(1, 8), s=st.integers(1, 6), d=st.integers(1, 3), save=st.booleans(),
                               box=st.booleans(), bad=st.sampled_from([False, False, False, True]))),
    n=200, rule="several samples and sensors")
def poisson_data(case):
    """The solver of the equation is not installed; a stand-in solution which
    tells parameter and place shows how the data set is put together."""
    r = rng(case)
    d = case["d"]
    lo = r.uniform(-5, -1, d).tolist()
    hi = (np.array(lo) + r.uniform(0.5, 3, d)).tolist()
    if not hasattr(fenics, "fenics_poisson_solve") or not hasattr(fenics, "fin_flag") or "gamma" not in \
            inspect.signature(fenics.fenics_poisson_solve).parameters:
        return False

    class U:
        def __init__(self, lam, gamma):
            self.c = 1000.0 * gamma if lam is None else float(np.dot(lam, 10.0 ** np.arange(len(lam))))

        def __call__(self, *x):
            x = np.ravel(x[0] if len(x) == 1 else x)
            return self.c + 0.5 * x[0] + 0.25 * x[1]

        def function_space(self):
            return self

        def mesh(self):
            return self

        def coordinates(self):
            return np.array([[0.0, 0.0], [0.5, 1.0], [1.0, 0.25]])

    used = []

    def solve(gamma=-3, lam=None):
        used.append(lam)
        return U(lam, gamma)

    sl, sh = ([0.2, 0.1], [0.6, 0.9]) if case["box"] else ([0, 0], [1, 1])
    kw = dict(mins=lo, maxs=hi, gamma=-2, seed=case["seed"])
    if case["box"]:
        kw.update(sensor_low=sl, sensor_high=sh)
    if case["save"]:
        kw["save_path"] = os.getcwd()
    old = fenics.fin_flag, fenics.fenics_poisson_solve, fenics.tqdm if hasattr(fenics, "tqdm") else None
    try:
        fenics.fin_flag, fenics.fenics_poisson_solve = True, solve
        if old[2]:
            fenics.tqdm = lambda v, *a, **k: v
        if case["bad"]:
            raises(lambda: fenics.run_fenics(3, 2, mins=lo, maxs=hi + [1]), REFUSALS, "ranges of different lengths")
            return False
        with sut("run_fenics"):
            res, p = fenics.run_fenics(case["n"], case["s"], **kw)
            np.random.seed(9)
            res2, _ = fenics.run_fenics(case["n"], case["s"], **kw)
    finally:
        fenics.fin_flag, fenics.fenics_poisson_solve = old[:2]
        if old[2]:
            fenics.tqdm = old[2]
    if not used:
        return False
    lam, S = res["lam"], res["sensors"]
    need(lam.shape == (case["n"], d) and S.shape == (case["s"], 2), f"sizes {lam.shape}, {S.shape}")
    need((lam >= lo).all() and (lam <= hi).all(), "parameters outside of the requested range")
    need((S >= sl).all() and (S <= sh).all(), "sensors outside of the requested range")
    base = 0.5 * S[:, 0] + 0.25 * S[:, 1]
    close(res["data"], (lam @ 10.0 ** np.arange(d))[:, None] + base, "data at the sensors", 1e-9)
    close(np.ravel(res["true_vals"]), -2000.0 + base, "true values at the sensors", 1e-9)
    need([list(map(float, v)) for v in res["domain"]] == [[a, b] for a, b in zip(lo, hi)], f"domain {res['domain']!r}")
    c, v = res["u"]
    close(v, -2000.0 + 0.5 * c[:, 0] + 0.25 * c[:, 1], "true solution on the grid", 1e-9)
    for k in ("lam", "data", "sensors"):
        same(res2[k], res[k], f"{k} with the same seed")
    if case["save"]:
        need(p is not None and os.path.dirname(os.path.abspath(p)) == os.getcwd(), f"saved to {p!r}")
        with open(p, "rb") as fp:
            back = pickle.load(fp)
        os.remove(p)
        for k in ("lam", "data", "true_vals", "sensors"):
            same(back[k], res[k], f"saved {k}")
    else:
        need(p is None, f"saved to {p!r} without being asked")
    return case["n"] > 1 and case["s"] > 1
