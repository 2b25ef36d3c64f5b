"""P12: sub-sampling of spatio-temporal problems."""
import numpy as np
from hypothesis import strategies as st
from mud.base import SpatioTemporalProblem

from ..core import *  # noqa: F403

SUITE = Suite("P12", quick=4)

SEL = ("none", "bool", "list", "array", "unordered", "repeat", "slice", "step", "reverse", "one", "bool-list")


def selection(r, kind, n):
    """How it is passed, and the plain list of selected indices."""
    if kind == "none":
        return None, list(range(n))
    if kind in ("bool", "bool-list"):
        m = r.random(n) < 0.6
        m[int(r.integers(n))] = True
        return (m.tolist() if kind == "bool-list" else m), [int(i) for i in np.where(m)[0]]
    if kind in ("list", "array"):
        k = sorted(int(i) for i in r.permutation(n)[: int(r.integers(1, n + 1))])
        return (k if kind == "list" else np.array(k)), k
    if kind == "unordered":
        k = [int(i) for i in r.permutation(n)[: int(r.integers(1, n + 1))]]
        return (k if r.random() < 0.5 else np.array(k)), k
    if kind == "repeat":
        k = [int(i) for i in r.integers(0, n, int(r.integers(1, n + 3)))]
        return k, k
    if kind == "slice":
        a = int(r.integers(0, n))
        b = int(r.integers(a + 1, n + 1))
        return slice(a, b), list(range(a, b))
    if kind == "step":
        return slice(None, None, 2), list(range(0, n, 2))
    if kind == "reverse":
        return slice(None, None, -1), list(range(n - 1, -1, -1))
    if kind == "one":
        k = int(r.integers(n))
        return ([k] if r.random() < 0.5 else [k - n]), [k]
    if kind == "int":
        k = int(r.integers(n))
        return (k if r.random() < 0.6 else k - n), [k]
    raise KeyError(kind)


class Prob:
    """Every number tells which sample, sensor and time it belongs to."""

    def __init__(self, case):
        r = rng(case)
        n, S, T, p = case["n"], case["S"], case["T"], case["p"]
        self.n, self.S, self.T, self.p = n, S, T, p
        self.lam = np.array([[i + 0.001 * j for j in range(p)] for i in range(n)])
        self.D = np.array([[[10000.0 * i + 100.0 * s + t for t in range(T)] for s in range(S)] for i in range(n)])
        self.M = np.array([[-(100.0 * s + t) - 0.5 for t in range(T)] for s in range(S)])
        u = 10.0 ** case["unit"]
        if case["num"] == "int":
            self.D, self.M, u = self.D.astype(int), np.floor(self.M).astype(int), 1
        elif case["num"] == "float32":
            self.D, u = self.D.astype(np.float32), 1
        self.D, self.M, self.sd = self.D * u, self.M * u, 0.5 * u
        lay = case["lay"]
        d = case["coords"]
        self.sensors = np.arange(S) + 50 if d == 0 else r.standard_normal((S, d))
        self.times = np.cumsum(r.uniform(0.1, 1, T)) if case["tk"] == "float" else np.arange(T) * 3 if \
            case["tk"] == "int" else np.array([f"t{i}" for i in range(T)])
        ds = dict(sensors=self.sensors, times=self.times, lam=layout(self.lam, lay),
                  data=layout(self.D if case["grid"] else self.D.reshape(n, -1), lay), std_dev=self.sd,
                  domain=[[-1.0, n + 1.0]] * p)
        self.has_meas = case["meas"]
        if self.has_meas:
            ds["measurements"] = layout(self.M if case["grid"] else self.M.ravel(), lay)
        with sut("load"):
            self.P = SpatioTemporalProblem(ds)


def snapshot(P):
    return {f: None if getattr(P, f) is None else np.array(getattr(P, f), copy=True)
            for f in ("lam", "data", "sensors", "times", "domain", "measurements", "true_vals", "lam_ref")}


SPACE = dict(
    seed=seeds, n=upto(1, 12, 40, 150), S=upto(1, 6, 11, 20), T=upto(1, 7, 13, 60), p=st.integers(1, 3),
    coords=st.integers(0, 3), tk=st.sampled_from(["float", "int", "str"]), grid=st.booleans(),
    meas=st.sampled_from([True, True, True, False]), lay=layouts, num=st.sampled_from(["float", "float", "int", "float32"]),
    unit=st.sampled_from([0, 0, -12, -6, 6, 12]),
)
sel = st.sampled_from(SEL)


def expected(Q, a, s, t):
    data = np.array([[Q.D[i, j, k] for j in s for k in t] for i in a])
    meas = np.array([Q.M[j, k] for j in s for k in t])
    return data, meas


@SUITE.check(
    st.fixed_dictionaries(dict(sels=st.lists(st.tuples(sel, st.one_of(sel, st.just("int")), sel, seeds), min_size=1,
                                             max_size=3), pos=st.booleans(), **SPACE)),
    n=3000, rule="at least two kinds of selection")
def selected(case):
    Q = Prob(case)
    P = Q.P
    before = snapshot(P)
    for ka, ks, kt, s in case["sels"]:
        r = np.random.default_rng(s)
        ma, a = selection(r, ka, Q.n)
        ms, si = selection(r, ks, Q.S)
        mt, ti = selection(r, kt, Q.T)
        F = Frozen(samples=ma, sensors=ms, times=mt)
        with sut("sample_data"):
            if case["pos"]:
                res = P.sample_data(ma, mt, ms)
            else:
                kw = dict(samples_mask=ma, times_mask=mt, sensors_mask=ms)
                res = P.sample_data(**{k: v for k, v in kw.items() if v is not None})
        F.verify("sample_data")
        lam, times, sensors, data, meas = res
        wd, wm = expected(Q, a, si, ti)
        same(lam, Q.lam[a], "parameters")
        need(list(np.ravel(times)) == [Q.times[i] for i in ti], f"times {times!r:.80}")
        close(sensors, Q.sensors[si], "sensors", 0, 0, shape=True)
        same(data, wd, "data")
        if Q.has_meas:
            same(np.ravel(meas), wm, "measurements")
            with sut("get_closest_to_measurements"):
                x = P.get_closest_to_measurements(samples_mask=ma, times_mask=mt, sensors_mask=ms)
            dist = np.linalg.norm(wd - wm, axis=1)
            idx = is_row(Q.lam[a], np.ravel(x), "closest sample")
            maximises(-dist, idx, "closest sample", 1e-12)
        else:
            need(meas is None, "measurements returned without any")
        need(deep_equal(before, snapshot(P)), "sample_data changed the problem")
        if Q.has_meas and len(a) > 1:
            with sut("mud_problem"):
                d = P.mud_problem(method="wme", samples_mask=ma, times_mask=mt, sensors_mask=ms)
            same(d.X, Q.lam[a], "parameters of the density problem")
            vclose(np.asarray(d.y).ravel(), ((wm - wd) / Q.sd).sum(axis=1) / np.sqrt(wd.shape[1]), "wme of the selection",
                   1e-10)
            need(deep_equal(before, snapshot(P)), "mud_problem changed the problem")
    k = case["sels"][0]
    return sum(x != "none" for x in k[:3]) > 1, "/".join("-" if x == "none" else "x" for x in k[:3])


@SUITE.check(
    st.fixed_dictionaries(dict(kinds=st.lists(st.sampled_from(["bool", "array", "list", "none"]), min_size=3, max_size=3),
                               rounds=st.integers(2, 4), **SPACE)),
    n=500, rule="a mask refilled between the selections")
def refilled(case):
    """The same mask objects with other contents select anew."""
    Q = Prob(case)
    r = rng(case, 6)
    objs, size = [], []
    for kind, n in zip(case["kinds"], (Q.n, Q.S, Q.T)):
        k = int(r.integers(1, n + 1))
        size.append((kind, n, k))
        objs.append(None if kind == "none" else np.zeros(n, bool) if kind == "bool" else
                    np.zeros(k, int) if kind == "array" else [0] * k)
    for _ in range(case["rounds"]):
        sels = []
        for o, (kind, n, k) in zip(objs, size):
            if kind == "none":
                sels.append(list(range(n)))
                continue
            i = r.permutation(n)[:k]
            if kind == "bool":
                o[:] = np.isin(np.arange(n), i)
                i = np.sort(i)
            else:
                o[:] = i if kind == "array" else [int(j) for j in i]
            sels.append([int(j) for j in i])
        ma, ms, mt = objs
        a, si, ti = sels
        with sut("sample_data"):
            lam, times, sensors, data, meas = Q.P.sample_data(ma, mt, ms)
        wd, wm = expected(Q, a, si, ti)
        same(lam, Q.lam[a], "parameters")
        need(list(np.ravel(times)) == [Q.times[i] for i in ti], f"times {times!r:.80}")
        close(sensors, Q.sensors[si], "sensors", 0, 0, shape=True)
        same(data, wd, "data")
        if Q.has_meas:
            same(np.ravel(meas), wm, "measurements")
            with sut("get_closest_to_measurements"):
                x = Q.P.get_closest_to_measurements(ma, mt, ms)
            maximises(-np.linalg.norm(wd - wm, axis=1), is_row(Q.lam[a], np.ravel(x), "closest sample"),
                      "closest sample", 1e-12)
            with sut("mud_problem"):
                d = Q.P.mud_problem("wme", samples_mask=ma, times_mask=mt, sensors_mask=ms) if len(a) > 1 else None
            if d is not None:
                vclose(np.asarray(d.y).ravel(), ((wm - wd) / Q.sd).sum(axis=1) / np.sqrt(wd.shape[1]),
                       "wme of the selection", 1e-10)
    return any(o is not None for o in objs), ""


@SUITE.check(
    st.fixed_dictionaries(dict(a=sel, s=sel, t=sel, **SPACE)), n=800, rule="every case")
def steps_commute(case):
    """Selecting at once is selecting samples, sensors and times in turn."""
    Q = Prob(case)
    r = rng(case, 4)
    ma, _ = selection(r, case["a"], Q.n)
    ms, _ = selection(r, case["s"], Q.S)
    mt, _ = selection(r, case["t"], Q.T)
    with sut("sample_data"):
        one = Q.P.sample_data(ma, mt, ms)
        cur = Q.P
        for kw in (dict(times_mask=mt), dict(samples_mask=ma), dict(sensors_mask=ms)):
            lam, times, sensors, data, meas = cur.sample_data(**kw)
            ds = dict(sensors=sensors, times=np.ravel(times), lam=lam, data=data, domain=Q.P.domain)
            if meas is not None:
                ds["measurements"] = meas
            cur = SpatioTemporalProblem(ds)
    same(one[0], cur.lam, "parameters")
    same(np.ravel(one[1]), cur.times, "times")
    same(one[2], cur.sensors, "sensors")
    same(one[3], cur.data, "data")
    if Q.has_meas:
        same(np.ravel(one[4]), cur.measurements.ravel(), "measurements")
    return True, ""


@SUITE.check(st.fixed_dictionaries(dict(a=sel, s=sel, t=sel)), n=50, rule="every case")
def no_data(case):
    P = SpatioTemporalProblem()
    raises(lambda: P.sample_data(), (AttributeError,), "sample_data without data")
    return True, ""
