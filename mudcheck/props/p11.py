"""P11: loading and assigning the fields of a spatio-temporal container."""
import os
import pickle

import numpy as np
from hypothesis import strategies as st
from mud.base import SpatioTemporalProblem

from ..core import *  # noqa: F403

SUITE = Suite("P11", quick=4)

FIELDS = ("sample_dist", "domain", "sensors", "times", "lam", "data", "lam_ref", "std_dev", "true_vals",
          "measurements")


def state(T):
    return {f: None if (v := getattr(T, f)) is None else np.array(v, copy=True) if not isinstance(v, (str, float, int))
            else v for f in FIELDS}


class Content:
    """Consistent contents: what is passed and what must be read back."""

    def __init__(self, case):
        r = rng(case)
        self.n, self.p, self.S, self.T = n, p, S, T = case["n"], case["p"], case["S"], case["T"]
        self.unit, self.dunit, self.lay = 10.0 ** case["unit"][0], 10.0 ** case["unit"][1], case["lay"]
        lam = numbers(r, (n, p), case["style"]) * self.unit
        num = case.get("num", "float")
        if num in ("lam", "all"):
            self.unit = 1.0
            lam = whole(lam, "signed")
        self.lam = lam
        lo, hi = lam.min(axis=0), lam.max(axis=0)
        pad = np.where(r.random(p) < 0.3, 0.0, r.uniform(0, 1, p) * self.unit)
        self.dom = np.array([lo - pad, hi + pad]).T
        if num == "all":
            self.dom = np.array([np.floor(self.dom[:, 0]), np.ceil(self.dom[:, 1])]).T
        self.fit = np.array([lo, hi]).T
        self.data = numbers(r, (n, S * T), case["style"]) * self.dunit
        self.meas, self.true = (numbers(r, S * T, case["style"]) * self.dunit for _ in range(2))
        if num in ("data", "all"):
            self.data = whole(self.data, "signed")
        if num in ("meas", "all"):
            self.meas, self.true = whole(self.meas, "signed"), whole(self.true, "unsigned")
        sd = case["sens"]
        self.sensors = r.standard_normal((S, 2)) if sd == "2d" else r.standard_normal((S, 3)) if sd == "3d" else \
            np.arange(S)
        self.times = {"float": np.sort(r.uniform(0, 9, T)), "int": np.arange(1, T + 1),
                      "str": np.array([f"t{i:03d}" for i in range(T)])}[case["tk"]]
        for f in case["zero"]:  # zero is a value like any other
            if f in ("data", "meas", "true"):
                setattr(self, f, np.zeros_like(getattr(self, f)))
        self.std = float(r.uniform(0.01, 2) * self.dunit) if case["stdk"] else r.uniform(0.01, 2, S * T) * self.dunit
        self.dist = case["dist"]
        u = r.random(p)
        self.ref = np.clip((1 - u) * lo + u * hi, lo, hi)
        if "ref" in case["zero"]:
            self.ref = np.where((lo <= 0) & (hi >= 0), 0.0, self.ref)
        self.ref_out = self.ref.copy()
        k = int(r.integers(p))
        self.ref_out[k] = self.dom[k, 1] + 0.1 * self.unit + abs(self.dom[k, 1]) if r.random() < 0.5 else \
            self.dom[k, 0] - 0.1 * self.unit - abs(self.dom[k, 0])
        self.r = rng(case, 3)

    def vec(self, x, how):
        """Measurements or reference values in one of their layouts."""
        S, T = self.S, self.T
        return {"flat": x, "col": x.reshape(-1, 1), "row": x.reshape(1, -1), "grid": layout(x.reshape(S, T), self.lay),
                "list": x.tolist()}.get(how, layout(x, self.lay))

    def arg(self, f, how):
        x = self.plain(f, how)
        if isinstance(x, np.ndarray) and x.dtype == float and f in ("lam", "data", "domain", "measurements", "true_vals") \
                and (x == np.rint(x)).all() and np.abs(x).max() < 1e9:
            return narrow(x)  # whole numbers in a small type
        return x

    def plain(self, f, how):
        if f == "lam":
            if how == "list":
                return self.lam.tolist()
            return self.lam.ravel() if self.p == 1 and how == "flat" else layout(self.lam, self.lay)
        if f == "data":
            if how in ("grid", "list"):
                return layout(self.data.reshape(self.n, self.S, self.T), self.lay)
            return self.data.ravel() if self.S * self.T == 1 and how == "flat" else layout(self.data, self.lay)
        if f == "domain":
            return self.dom.tolist() if how == "list" else self.dom.ravel() if how == "flat" else layout(self.dom, self.lay)
        if f == "lam_ref":
            return {"list": self.ref.tolist(), "col": self.ref.reshape(-1, 1), "row": self.ref.reshape(1, -1)}.get(
                how, layout(self.ref, self.lay))
        if f in ("measurements", "true_vals"):
            return self.vec(self.meas if f == "measurements" else self.true, how)
        return {"sensors": self.sensors, "times": self.times, "std_dev": self.std, "sample_dist": self.dist}[f]

    def want(self, given):
        """Contents after loading the fields given."""
        w = dict.fromkeys(FIELDS)
        for f in given:
            w[f] = {"lam": self.lam, "data": self.data, "domain": self.dom, "lam_ref": self.ref,
                    "measurements": self.meas.reshape(-1, 1), "true_vals": self.true.reshape(-1, 1),
                    "sensors": self.sensors, "times": self.times, "std_dev": self.std,
                    "sample_dist": self.dist}[f]
        if "lam" in given:
            if "domain" not in given:
                w["domain"] = self.fit
            if "sample_dist" not in given:
                w["sample_dist"] = "u"
        return w


def compare(T, want, C, what):
    for f in FIELDS:
        got, w = getattr(T, f), want[f]
        if w is None:
            if f in ("sensors", "times") and want["data"] is not None:
                continue  # inferred, below
            need(got is None, f"{what}: {f} is {got!r:.80}, was not supplied")
        elif f in ("sample_dist",) or isinstance(w, float):
            need(got == w, f"{what}: {f} is {got!r:.80}, supplied {w!r:.80}")
        else:
            same(got, w, f"{what}: {f}")
    if want["data"] is not None:
        need(T.sensors is not None and T.times is not None, f"{what}: sensors or times not inferred")
        cols = want["data"].shape[1]
        need(T.n_sensors * T.n_ts == cols, f"{what}: {T.n_sensors} sensors, {T.n_ts} times, {cols} columns")
        if want["sensors"] is None:
            need(T.n_sensors == 1, f"{what}: {T.n_sensors} sensors inferred")
        if want["sensors"] is None and want["times"] is None:
            same(np.ravel(T.times), np.arange(cols), f"{what}: times inferred")
        if want["lam"] is not None:
            need((T.n_samples, T.n_params) == (C.n, C.p), f"{what}: {T.n_samples} samples of {T.n_params}")


SPACE = dict(
    seed=seeds, n=upto(1, 12, 60, 200), p=upto(1, 4, 7, 12), S=upto(1, 4, 9, 15), T=upto(1, 5, 12, 40), style=styles,
    sens=st.sampled_from(["1d", "2d", "3d"]), tk=st.sampled_from(["float", "int", "str"]), stdk=st.booleans(),
    dist=st.sampled_from(["u", "n"]), lay=layouts,
    num=st.sampled_from(["float", "float", "lam", "data", "meas", "all"]),
    zero=st.one_of(st.just([]), st.lists(st.sampled_from(["data", "meas", "true", "ref"]), max_size=4, unique=True)),
    unit=st.one_of(st.just([0, 0]), st.lists(st.integers(-12, 12), min_size=2, max_size=2)),
)
HOW = st.sampled_from(["plain", "plain", "list", "flat", "col", "row", "grid"])


def available(C, fields):
    """Fields which can be loaded together."""
    f = set(fields)
    if "sensors" not in f and "times" not in f:
        pass
    elif "sensors" not in f and C.S > 1:
        f.add("sensors")
    elif "times" not in f and C.T > 1:
        f.add("times")
    if "data" not in f and not {"sensors", "times"} <= f:
        f -= {"true_vals", "measurements"}
    if not {"lam", "domain"} & f:
        f -= {"lam_ref"}
    return [x for x in FIELDS if x in f]


def order_of(case, xs, salt):
    r = rng(case, salt)
    return [xs[i] for i in r.permutation(len(xs))]


@SUITE.check(
    st.fixed_dictionaries(dict(
        fields=st.one_of(st.just(list(FIELDS)), st.lists(st.sampled_from(FIELDS), unique=True)),
        how=st.lists(HOW, min_size=10, max_size=10), route=st.sampled_from(["dict", "file", "init", "init-file"]),
        names=st.lists(st.sampled_from(["own", "own", "mapped", "value", "none"]), min_size=10, max_size=10),
        extra=st.booleans(), **SPACE)),
    n=2000, rule="at least three fields are loaded")
def loading(case):
    C = Content(case)
    given = available(C, case["fields"])
    route = case["route"]
    ds, kw, absent = {}, {}, []
    for f, how, nm in zip(FIELDS, case["how"], case["names"]):
        if f not in given:
            if nm == "none":
                ds[f] = None  # present, but empty
            elif nm == "mapped" and route in ("dict", "file"):
                kw[f] = "no such field"
            continue
        v = C.arg(f, how)
        if route in ("init", "init-file") or nm in ("own", "none"):
            ds[f] = v
        elif nm == "mapped":
            ds["my_" + f] = v
            kw[f] = "my_" + f
            if how in ("plain", "grid"):  # not what is asked for
                ds[f] = "other" if f == "sample_dist" else np.atleast_1d(C.arg(f, "plain"))[:1]
        elif f == "sample_dist":
            ds[f] = v  # a text is the name of a field
        else:
            kw[f] = v
    if case["extra"]:
        ds["unrelated"] = np.ones(3)
    ds = {k: ds[k] for k in order_of(case, sorted(ds), 5)}
    path = None
    if route in ("file", "init-file"):
        path = os.path.abspath("content.pkl")
        with open(path, "wb") as fp:
            pickle.dump(ds, fp)
    F = Frozen(ds=ds, kw=kw)
    with sut(f"load of {given}"):
        if route.startswith("init"):
            T = SpatioTemporalProblem(path or ds)
        else:
            T = SpatioTemporalProblem()
            ret = T.load(path or ds, **kw)
            need(set(ret) == set(ds), "load returned something else than what it read")
            for k in ds:
                same(ret[k], ds[k], f"returned field {k}")
    F.verify("load")
    want = C.want(given)
    if "data" not in given:
        for f in ("sensors", "times"):
            if f not in given:
                need(getattr(T, f) is None, f"{f} set without data")
    compare(T, want, C, "load")
    for f in ("lam", "data"):
        if want[f] is None:
            need(getattr(T, f) is None, f"{f} was not supplied")
    return len(given) >= 3, route


@SUITE.check(
    st.fixed_dictionaries(dict(
        fields=st.lists(st.sampled_from(["domain", "lam", "data", "measurements", "lam_ref", "true_vals"]), unique=True),
        null=st.booleans(), **SPACE)),
    n=800, rule="every case")
def validation(case):
    C = Content(case)
    given = available(C, case["fields"])
    ds = {f: C.arg(f, "plain") for f in given}
    if case["null"]:
        ds.update({f: None for f in FIELDS if f not in given})
    with sut("load"):
        T = SpatioTemporalProblem(ds)
    have = set(given) | ({"domain"} if "lam" in given else set())
    before = state(T)
    for kw, req in [({}, {"measurements"}), (dict(check_meas=False), set()),
                    (dict(check_meas=False, check_true=True), {"lam_ref", "true_vals"}),
                    (dict(check_true=True), {"measurements", "lam_ref", "true_vals"})]:
        missing = (req | {"domain", "lam", "data"}) - have
        if missing:
            e = raises(lambda: T.validate(**kw), (ValueError,), f"validate({kw}) without {sorted(missing)}")
            for f in missing:
                need(f in str(e), f"missing {f} is not named: {e}")
        else:
            with sut(f"validate({kw})"):
                T.validate(**kw)
    need(deep_equal(before, state(T)), "validate changed the container")
    return True, f"{len(given)} fields"


BAD = ("data-size", "data-size-3d", "domain-rows", "domain-low", "domain-high", "lam-dim", "ref-outside", "meas-size",
       "true-size", "ref-size", "dist", "data-size-s", "data-size-t")


@SUITE.check(
    st.fixed_dictionaries(dict(
        bads=st.lists(st.tuples(st.sampled_from(BAD), st.sampled_from([-2, -1, 1, 2, 7]), st.booleans()), min_size=1,
                      max_size=5),
        via=st.sampled_from(["assign", "load"]), inferred=st.booleans(), **SPACE)),
    n=2500, rule="every case")
def rejections(case):
    C = Content(case)
    r = C.r
    full = list(FIELDS)
    if case["inferred"]:
        full.remove("domain")
    with sut("load"):
        T = SpatioTemporalProblem({f: C.arg(f, "plain") for f in full})
    N = C.S * C.T
    dom = C.fit if case["inferred"] else C.dom
    for bad, delta, flag in case["bads"]:
        m = N + delta if N + delta > 0 else N + 1
        if bad in ("data-size", "data-size-s", "data-size-t"):
            f, v = "data", r.standard_normal((C.n, m))
        elif bad == "data-size-3d":
            f, v = "data", r.standard_normal((C.n, C.S + 1, C.T) if flag else (C.n, C.S, C.T + 1))
        elif bad == "domain-rows":
            k = C.p + 1 if C.p == 1 or flag else C.p - 1
            f, v = "domain", np.array([[-1e9, 1e9]] * k)
        elif bad in ("domain-low", "domain-high"):
            lo, hi = C.lam.min(axis=0), C.lam.max(axis=0)
            d = np.array([lo - C.unit, hi + C.unit]).T
            i = int(r.integers(C.p))
            cut = 0.5 * (hi[i] - lo[i]) + 1e-3 * (C.unit + abs(lo[i]))
            if abs(delta) == 2:  # a single sample, and barely outside
                cut = 1e-6 * max(hi[i] - lo[i], abs(lo[i]), 1e-3 * C.unit)
            if bad == "domain-low":
                d[i, 0] = lo[i] + cut
                d[i, 1] = max(d[i, 1], d[i, 0] + C.unit)
            else:
                d[i, 1] = hi[i] - cut
                d[i, 0] = min(d[i, 0], d[i, 1] - C.unit)
            f, v = "domain", d.tolist() if flag else d
        elif bad == "lam-dim":
            k = C.p + 1 if C.p == 1 or flag else C.p - 1
            j = r.integers(0, C.p, k)
            f, v = "lam", C.lam[:, j]
        elif bad == "ref-outside":
            v = C.ref.copy()
            i = int(r.integers(C.p))
            s = 1e-6 * C.unit + 1e-6 * abs(dom[i]).max()
            v[i] = dom[i, 1] + s * 10.0 ** abs(delta) if flag else dom[i, 0] - s * 10.0 ** abs(delta)
            f = "lam_ref"
        elif bad == "ref-size":  # entries are missing or surplus
            f, v = "lam_ref", np.append(C.ref, C.ref[0]) if C.p == 1 or delta > 0 else C.ref[:-1]
        elif bad in ("meas-size", "true-size"):
            f, v = "measurements" if bad[0] == "m" else "true_vals", r.standard_normal(m)
            if flag:
                v = v.reshape(-1, 1)
        else:
            f, v = "sample_dist", ["uniform", "normal", "U", "", "x", "un"][abs(delta) % 6]
            if case["via"] == "load":
                v = "x"
        before = state(T)
        if case["via"] == "assign":
            act = lambda: setattr(T, f, v)  # noqa: E731
        elif f == "sample_dist":
            act = lambda: T.load({"sample_dist": v})  # noqa: E731
        elif flag:
            act = lambda: T.load({f: v})  # noqa: E731
        else:
            act = lambda: T.load({}, **{f: v})  # noqa: E731
        raises(act, (ValueError, AssertionError), f"{bad}: {f}={v!r:.60} on {C.n} samples, p={C.p}, S={C.S}, T={C.T}")
        after = state(T)
        for k in FIELDS:
            need(deep_equal(before[k], after[k]), f"rejected {f} changed {k}")
    compare(T, C.want(full), C, "after the rejections")
    return True, case["bads"][0][0]


@SUITE.check(
    st.fixed_dictionaries(dict(
        which=st.sampled_from(["data-sensors", "data-times", "data-both", "data-3d", "lam", "meas", "ref", "dist", "file"]),
        delta=st.integers(1, 4), less=st.booleans(), **SPACE)),
    n=1000, rule="every case")
def fresh_rejections(case):
    """Inconsistent contents of one dictionary, on a container without data."""
    C = Content(case)
    w, r = case["which"], C.r
    ds = {f: C.arg(f, "plain") for f in FIELDS}
    k = case["delta"]
    exc = (ValueError,)
    N = C.S * C.T
    m = N - k if case["less"] and N > k else N + k
    if w == "data-sensors":  # no times: one datum per sensor
        m = C.S - k if case["less"] and C.S > k else C.S + k
        ds.update(times=None, measurements=None, true_vals=None, data=r.standard_normal((C.n, m)))
    elif w == "data-times":
        m = C.T - k if case["less"] and C.T > k else C.T + k
        ds.update(sensors=None, measurements=None, true_vals=None, data=r.standard_normal((C.n, m)))
    elif w == "data-both":
        ds.update(data=r.standard_normal((C.n, m)))
    elif w == "data-3d":
        ds.update(data=r.standard_normal((C.n, C.S, C.T + k) if case["less"] else (C.n, C.S + k, C.T)))
    elif w == "lam":
        ds.update(lam=r.standard_normal((C.n, C.p + k)))
    elif w == "meas":
        ds.update({"measurements" if case["less"] else "true_vals": r.standard_normal(m)})
    elif w == "ref":
        ds.update(lam_ref=C.ref_out)
    elif w == "dist":
        ds.update(sample_dist="q" * k)
    if w == "file":
        raises(lambda: SpatioTemporalProblem(os.path.abspath(f"absent{k}.pkl")), (FileNotFoundError,), "absent file")
        return True, w
    raises(lambda: SpatioTemporalProblem(ds), exc, f"contents with wrong {w}")
    T = SpatioTemporalProblem()
    if w in ("data-sensors", "data-times", "data-both", "data-3d"):
        for f in ("sensors", "times"):
            if ds[f] is not None:
                setattr(T, f, ds[f])
        before = state(T)
        raises(lambda: setattr(T, "data", ds["data"]), exc, f"data: {w}")
        need(deep_equal(before, state(T)), "rejected data changed the container")
    elif w == "ref":
        raises(lambda: setattr(T, "lam_ref", C.ref), (AttributeError, ValueError), "reference parameter without domain")
    for f in ("n_samples", "n_sensors", "n_ts"):
        if getattr(T, {"n_samples": "lam", "n_sensors": "sensors", "n_ts": "times"}[f]) is None:
            raises(lambda: getattr(T, f), (AttributeError,), f"{f} of an empty container")
    return True, w


@SUITE.check(
    st.fixed_dictionaries(dict(
        ops=st.lists(st.tuples(st.sampled_from(["lam", "domain", "data", "measurements", "true_vals", "lam_ref", "std_dev",
                                                "sample_dist"]), HOW, seeds), min_size=2, max_size=8), **SPACE)),
    n=800, rule="at least two reassignments")
def reassignment(case):
    """Later assignments replace the field and nothing else."""
    C = Content(case)
    with sut("load"):
        T = SpatioTemporalProblem({f: C.arg(f, "plain") for f in FIELDS})
    want = C.want(FIELDS)
    for f, how, s in case["ops"]:
        r = np.random.default_rng(s)
        if f == "lam":
            lo, hi = want["domain"].T
            C.lam = np.clip(lo + (hi - lo) * r.random((C.n, C.p)), lo, hi)
        elif f == "domain":
            lam = want["lam"]
            lo, hi = lam.min(axis=0), lam.max(axis=0)
            if want["lam_ref"] is not None:
                lo, hi = np.minimum(lo, want["lam_ref"]), np.maximum(hi, want["lam_ref"])
            C.dom = np.array([lo - C.unit * r.random(C.p), hi + C.unit * r.random(C.p)]).T
        elif f == "data":
            C.data = r.standard_normal(C.data.shape)
        elif f == "measurements":
            C.meas = r.standard_normal(C.S * C.T)
        elif f == "true_vals":
            C.true = r.standard_normal(C.S * C.T)
        elif f == "lam_ref":
            lo, hi = want["domain"].T
            C.ref = np.clip(lo + (hi - lo) * r.random(C.p), lo, hi)
        elif f == "std_dev":
            C.std = float(r.uniform(0.01, 2))
        else:
            C.dist = "un"[int(r.integers(2))]
        with sut(f"{f} = ..."):
            setattr(T, f, C.arg(f, how))
        w2 = C.want(FIELDS)
        want[f] = w2[f]
        compare(T, want, C, f"after setting {f}")
    return True, ""
