"""P14: synthetic measurements and closest samples."""
import numpy as np
from hypothesis import strategies as st
from mud.base import SpatioTemporalProblem
from mud.util import add_noise
from scipy import stats

from ..core import *  # noqa: F403
from .p12 import SEL, selection

SUITE = Suite("P14", quick=4)

shapes = st.one_of(
    st.lists(st.integers(1, 6), min_size=1, max_size=4), st.just([]), st.tuples(upto(1, 60, 500, 2000)).map(list))
nseeds = st.one_of(st.integers(0, 3), st.integers(0, 2**32 - 1))
sds = st.sampled_from(["none", 0.0, 0, 0.05, 1.0, 2, 1e-6, 30.0])


def call(x, sd, seed):
    kw = {}
    if sd != "none":
        kw["sd"] = sd
    if seed is not None:
        kw["seed"] = seed
    return add_noise(x, **kw)


def scramble(r):
    np.random.seed(int(r.integers(2**32 - 1)))


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, shape=shapes, sd=sds, nseed=st.one_of(st.none(), nseeds, nseeds), style=styles,
                               form=st.sampled_from(["array", "list", "ints", "narrow", "fortran", "strided"]))),
    n=3000, rule="noise on several values")
def noise(case):
    r = rng(case)
    shape = tuple(case["shape"])
    x = np.array(numbers(r, shape, case["style"])) if shape else np.array(r.standard_normal())
    if case["form"] == "ints":
        x = r.integers(-5, 6, shape)
    if case["form"] == "narrow":
        x = np.asarray(whole(x, "signed"))
    arg = layout(x, case["form"]) if shape or case["form"] == "list" else x
    if case["form"] == "narrow":
        arg = narrow(x)
    F = Frozen(signal=arg)
    sd, nseed = case["sd"], case["nseed"]
    s = 0.05 if sd == "none" else sd
    scramble(r)
    state = np.random.get_state()
    with sut("add_noise"):
        a = call(arg, sd, nseed)
        if nseed is None:
            np.random.set_state(state)
        else:
            scramble(r)
        b = call(arg, sd, nseed)
        c = call(np.zeros(shape), 1.0, nseed) if nseed is not None else None
        if nseed is None:  # the state moves on
            d = call(arg, sd, None)
        else:
            d = call(arg, sd, (nseed + 1) % 2**32)
            scramble(r)
            e = call(arg, sd, None)
    F.verify("add_noise")
    need(np.shape(a) == shape, f"noisy signal of shape {np.shape(a)}, signal {shape}")
    same(b, a, "repeated call with the same seed or state")
    xs = np.abs(x).max() if x.size else 1
    if c is not None:  # noise is the signal-free noise times sd
        vclose(a - x, c * s, "noise scales with the standard deviation", 1e-9, 1e-12 * (1 + xs), scale=s)
    if s == 0:
        same(np.asarray(a, float), np.asarray(x, float), "noise of standard deviation zero")
    elif s * 1e9 > xs:
        need(not np.array_equal(a, d), "another seed or state gives the same noise")
        if nseed is not None:
            need(not np.array_equal(a, e), "the seed stays in force without being passed")
        z = np.abs(np.asarray(a, float) - x) / s
        need(np.all(z < 8), f"noise of {z.max()!r} standard deviations")
        need(np.all(a != x) or xs > 1e3 * s, "values without noise")
    return int(np.prod(shape)) > 1 and s > 0, f"{len(shape)}-d"


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, shape=st.sampled_from([[6000], [60, 100], [100, 60], [2, 3000], [3000, 2],
                                                                  [10, 20, 30], [6000, 1], [1, 6000]]),
                               sd=st.sampled_from(["none", 1.0, 0.3, 5.0]), nseed=st.one_of(st.none(), nseeds))),
    n=200, rule="every case")
def noise_is_normal(case):
    """Moments, distribution and independence of many draws; the bounds are
    exceeded with probability below 1e-8."""
    r = rng(case)
    shape = tuple(case["shape"])
    n = int(np.prod(shape))
    x = r.standard_normal(shape)
    s = 0.05 if case["sd"] == "none" else case["sd"]
    scramble(r)
    with sut("add_noise"):
        z = (np.asarray(call(x, case["sd"], case["nseed"])) - x) / s
    f = z.ravel()
    need(abs(f.mean()) < 6.5 / np.sqrt(n), f"mean of the noise {f.mean()!r} over {n}")
    need(abs(f.std() - 1) < 6.5 / np.sqrt(2 * n), f"standard deviation of the noise {f.std()!r} over {n}")
    k = stats.kstest(f, "norm").statistic
    need(k < 3.3 / np.sqrt(n), f"distribution of the noise: distance {k!r} from normal over {n}")
    for lag in (1, shape[-1], n // 2):
        if lag < n:
            c = (f[:-lag] * f[lag:]).sum() / np.sqrt(n - lag)
            need(abs(c) < 7, f"noise correlated at lag {lag}: {c!r}")
    c = (f * (x.ravel() - x.mean()) / x.std()).sum() / np.sqrt(n)
    need(abs(c) < 7, "noise correlated with the signal")
    for ax in range(len(shape)):
        m = z.mean(axis=ax) * np.sqrt(shape[ax])
        q = (m**2).sum()
        if m.size:
            lim = stats.chi2.isf(1e-9, m.size), stats.chi2.ppf(1e-9, m.size)
            need(lim[1] <= q <= lim[0], f"noise correlated along axis {ax}")
    return True, str(shape)


class Prob:
    def __init__(self, case, **extra):
        r = rng(case)
        n, S, T, p = case["n"], case["S"], case["T"], case["p"]
        self.n, self.S, self.T, self.N, self.r = n, S, T, S * T, rng(case, 2)
        self.lam = r.standard_normal((n, p))
        self.data = numbers(r, (n, S * T), case["style"])
        self.true = numbers(r, S * T, case["style"])
        self.num, self.u = case["num"], 1.0
        if self.num == "unit":
            self.u = 10.0 ** int(r.integers(-12, 13))
            self.data, self.true = self.data * self.u, self.true * self.u
        elif self.num != "float":
            both = whole(np.vstack([self.data, self.true]), self.num)
            self.data, self.true = both[:-1], both[-1]
        self.sensors, self.times = np.arange(S), np.arange(T)
        self.P = SpatioTemporalProblem(dict(sensors=self.sensors, times=self.times, lam=self.lam, data=self.typed(self.data), **extra))

    def typed(self, x):
        return narrow(x) if self.num in ("signed", "unsigned") and (x == np.rint(x)).all() else x

    def form(self, x, how):
        x = self.typed(x)
        return {"col": x.reshape(-1, 1), "grid": x.reshape(self.S, self.T), "list": x.tolist(),
                "fgrid": np.asfortranarray(x.reshape(self.S, self.T)), "sgrid": layout(x.reshape(self.S, self.T), "strided"),
                "listgrid": x.reshape(self.S, self.T).tolist(), "spaced": layout(x, "strided"), "row": x.reshape(1, -1)}.get(how, x.copy())


SPACE = dict(seed=seeds, n=upto(1, 15, 60, 300), S=upto(1, 4, 9, 15), T=upto(1, 5, 12, 40), p=st.integers(1, 3),
             style=styles, num=st.sampled_from(["float", "float", "unit", "signed", "unsigned"]))
HOW = st.sampled_from(["flat", "col", "grid", "fgrid", "sgrid", "list", "listgrid", "row", "spaced"])


@SUITE.check(
    st.fixed_dictionaries(dict(
        ops=st.lists(st.fixed_dictionaries(dict(
            ref=st.booleans(), sd=st.sampled_from([None, None, 0.0, 0.1, 1, 4.0]), nseed=st.one_of(st.none(), nseeds),
            how=HOW, assign=st.sampled_from(["no", "no", "ref", "sd"]), near=st.booleans())), min_size=1, max_size=5), **SPACE)),
    n=2000, rule="at least two calls")
def synthetic_measurements(case):
    Q = Prob(case)
    P, r = Q.P, Q.r
    true, sd, meas = None, None, None
    for o in case["ops"]:
        def reference(old):  # another one, or one hardly different
            if old is None or not o["near"]:
                return numbers(r, Q.N, case["style"])
            return old * (1 + 1e-6 * r.standard_normal(Q.N)) + 1e-9 * r.standard_normal(Q.N)

        if o["assign"] == "ref":
            true = reference(true)
            P.true_vals = Q.form(true, o["how"])
        elif o["assign"] == "sd":
            sd = P.std_dev = float(r.uniform(0.01, 1))
        kw = {}
        if o["ref"]:
            true = reference(true)
            kw["ref"] = Q.form(true, o["how"])
        if o["sd"] is not None:
            kw["std_dev"] = sd = o["sd"]
        if o["nseed"] is not None:
            kw["seed"] = o["nseed"]
        F = Frozen(**kw)
        scramble(r)
        st0 = np.random.get_state()
        if true is None or sd is None:
            raises(lambda: P.measurements_from_reference(**kw), (AttributeError,),
                   f"measurements without {'reference' if true is None else 'noise level'}")
            need(P.measurements is None, "refused call set measurements")
            continue
        with sut("measurements_from_reference"):
            P.measurements_from_reference(**kw)
        F.verify("measurements_from_reference")
        st1 = np.random.get_state()
        np.random.set_state(st0)
        want = add_noise(true, sd, seed=o["nseed"])
        np.random.set_state(st1)
        meas = np.asarray(P.measurements)
        need(meas.shape == (Q.N, 1), f"measurements of shape {meas.shape}")
        vclose(meas.ravel(), want, "measurements", 1e-12)
        same(np.ravel(P.true_vals), true, "reference values")
        need(np.shape(P.true_vals) == (Q.N, 1), "shape of the reference values")
        need(P.std_dev == sd, f"noise level {P.std_dev}, used {sd}")
        same(P.data, Q.data, "data")
        same(P.lam, Q.lam, "parameters")
    return len(case["ops"]) > 1, ""


@SUITE.check(
    st.fixed_dictionaries(dict(exact=st.booleans(), ties=st.booleans(), how=HOW, lay=layouts, cube=st.booleans(), sd=st.sampled_from([None, 0.5]),
                               offset=st.sampled_from([0.0, 0.0, 100.0]),
                               shift=st.sampled_from([0.0, 0.0, 0.0, 1e5, -1e9]),
                               spread=st.sampled_from(["", "", "all", "columns"]),
                               sels=st.lists(st.tuples(*[st.sampled_from(SEL)] * 3, seeds), max_size=2), **SPACE)),
    n=3000, rule="several samples of several data")
def closest(case):
    Q = Prob(case)
    r = Q.r
    if case["ties"]:
        Q.data = Q.data[r.integers(0, Q.n, Q.n)]
    targets, f = [], 1.0
    if case["spread"] and Q.num in ("float", "unit"):  # data of very different sizes
        f = 10.0 ** r.uniform(-3, 3, Q.N)
        Q.data = Q.data * f
    for _ in range(2):
        big = np.abs(Q.data).max() if case["spread"] != "columns" else np.abs(Q.data).max(axis=0)
        t = r.standard_normal(Q.N) * (Q.u * f + big) * 0.7 + case["offset"] * Q.u
        if Q.num in ("signed", "unsigned"):
            t = np.rint(t)
            t = np.abs(t) if Q.num == "unsigned" else t
        if case["exact"]:
            t = Q.data[int(r.integers(Q.n))].copy()
        targets.append(t + case["shift"] * Q.u)
    Q.data = Q.data + case["shift"] * Q.u
    if case["sd"]:
        Q.P.std_dev = case["sd"]
    P = SpatioTemporalProblem(dict(sensors=Q.sensors, times=Q.times, lam=layout(Q.lam, case["lay"]),
                                   data=layout(Q.typed(Q.data).reshape((Q.n, Q.S, Q.T) if case["cube"] else (Q.n, -1)), case["lay"])))
    raises(P.get_closest_to_true_vals, (AttributeError,), "closest sample without reference values")
    P.measurements, P.true_vals = Q.form(targets[0], case["how"]), Q.form(targets[1], case["how"])
    with sut("get_closest_to_measurements"):
        a = P.get_closest_to_measurements()
    with sut("get_closest_to_true_vals"):
        b = P.get_closest_to_true_vals()
    answers = [(a, targets[0], "measurements", Q.lam, Q.data), (b, targets[1], "reference values", Q.lam, Q.data)]
    for ka, ks, kt, s in case["sels"]:
        rr = np.random.default_rng(s)
        (ma, ai), (ms, si), (mt, ti) = selection(rr, ka, Q.n), selection(rr, ks, Q.S), selection(rr, kt, Q.T)
        with sut("get_closest_to_measurements of a selection"):
            x = P.get_closest_to_measurements(samples_mask=ma, times_mask=mt, sensors_mask=ms)
        cols = [i * Q.T + j for i in si for j in ti]
        answers.append((x, targets[0][cols], "measurements, selected", Q.lam[ai], Q.data[np.ix_(ai, cols)]))
    for x, t, what, lam, data in answers:
        d = np.sqrt(((data - t) ** 2).sum(axis=1))
        need(np.shape(x) == (Q.lam.shape[1],), f"closest sample of shape {np.shape(x)}")
        idx = is_row(lam, x, f"sample closest to the {what}")
        best = d.min()
        need(d[idx].min() <= best + 1e-10 * (1e-3 * Q.u + d.max()), f"{what}: distance {d[idx].min()!r}, minimum {best!r}")
    same(P.data, Q.data, "data")
    same(P.measurements.ravel(), targets[0], "measurements")
    return Q.n > 1 and Q.N > 1, ""
