"""P20: functional wrappers."""
import numpy as np
from hypothesis import strategies as st
from mud.base import BayesProblem, DensityProblem, SpatioTemporalProblem
from mud.funs import data_prob, map_problem, mud_problem
from scipy.stats import distributions as dists

from ..core import *  # noqa: F403
from ..density import WKINDS, combined, weights
from ..models import KDE, grid_curve, neff, norm_pdf, unit_area
from .p09 import ref as wme_ref

SUITE = Suite("P20", quick=2)


class Prob:
    def __init__(self, case, lam=True):
        r = rng(case)
        self.n, self.p, self.q = n, p, q = case["n"], case["p"], case["q"]
        self.lam = numbers(r, (n, p), case["style"])
        Z = self.lam / (self.lam.std(axis=0) + 1e-9)
        self.qoi = Z @ r.standard_normal((p, q)) + 0.3 * r.standard_normal((n, q))
        self.true = r.standard_normal(q)
        u = 1.0
        if case["num"] == "ints":
            self.lam = np.rint(self.lam * 20 / np.abs(self.lam).max()) if lam else self.lam
            self.qoi = np.rint(self.qoi * 20)
            self.true = np.rint(self.true * 20)
        elif case["num"] == "unit" and case["sd"] != "default":
            u = 10.0 ** int(r.integers(-9, 10))
            self.lam = self.lam * 10.0 ** int(r.integers(-9, 10)) if lam else self.lam
            self.qoi, self.true = self.qoi * u, self.true * u
        self.whole = case["num"] == "ints"
        lo, hi = self.lam.min(axis=0), self.lam.max(axis=0)
        w = hi - lo + 0.1 * np.abs(self.lam).max()
        self.dom = np.array([lo - r.uniform(0.1, 1, p) * w, hi + r.uniform(0.1, 1, p) * w]).T
        self.sd = case["sd"] if u == 1 else case["sd"] * u
        self.s = 0.05 if self.sd == "default" else self.sd
        k = case["k"]
        self.k_arg = None if k == 0 else min(k, q)
        self.k = self.k_arg or q
        self.nseed = int(r.integers(2**32))
        np.random.seed(self.nseed)
        self.noise = np.random.randn(self.k) * self.s
        self.data = self.true[: self.k] + self.noise
        self.flat, self.lay = case["flat"], case["lay"]
        self.r = rng(case, 2)

    def args(self):
        lam = self.lam[:, 0].copy() if self.flat and self.p == 1 else self.lam.copy()
        qoi = self.qoi[:, 0].copy() if self.flat and self.q == 1 else self.qoi.copy()
        lam, qoi = (x.astype(int) if self.whole and (x == np.rint(x)).all() else x for x in (lam, qoi))
        if self.whole and self.lay == "strided":
            lam, qoi = narrow(lam) if lam.dtype == int else lam, narrow(qoi)
        return layout(lam, self.lay), layout(qoi, self.lay)

    def kw(self):
        kw = {}
        if self.sd != "default":
            kw["sd"] = self.sd
        if self.k_arg is not None:
            kw["num_obs"] = self.k_arg
        return kw


def agrees(x, E, rows, what):
    """The sample the problem by hand estimates, or one as dense (a tie that
    rounding decides)."""
    want = np.asarray(E.estimate())
    if np.array_equal(np.ravel(x), np.ravel(want)):
        return
    for name in ("_up", "_ps"):
        f = getattr(E, name, None)
        if f is not None:
            f = np.asarray(f, float).reshape(len(rows), -1).prod(axis=1)
            top = is_row(rows, x, what)
            if np.isfinite(f).all() and f[top].max() >= f.max() * (1 - 1e-7):
                return
    vclose(x, want, what, 1e-12)


SPACE = dict(seed=seeds, n=upto(15, 80, 200, 450), p=st.integers(1, 3), q=upto(1, 12, 30, 80), style=st.sampled_from(
    ["normal", "uniform", "offset", "mixed"]), sd=st.sampled_from(["default", 0.05, 0.5, 1, 2.0]), k=upto(0, 12, 25, 60),
    flat=st.booleans(), lay=layouts, num=st.sampled_from(["float", "float", "unit", "ints"]))


@SUITE.check(
    st.fixed_dictionaries(dict(wk=st.sampled_from(WKINDS), split=st.sampled_from(["none", "none", "two", "three", "over",
                                                                                 "one-each", "matrix"]),
                               true=st.sampled_from(["array", "list"]), **SPACE)),
    n=2000, rule="several data")
def density_wrapper(case):
    Q = Prob(case)
    lam, qoi = Q.args()
    kw = Q.kw()
    w = weights(case, case["wk"], Q.n)
    if w is not None:
        kw["weights"] = w
    r, sp = Q.r, case["split"]
    groups = None
    if sp in ("two", "three") and Q.k >= 2:
        g = min(2 if sp == "two" else 3, Q.k)
        groups = [np.sort(x) if r.random() < 0.5 else x for x in np.array_split(r.permutation(Q.k), g)]
    elif sp == "over":  # shared indices, indices beyond the requested number
        groups = [np.append(r.integers(0, Q.k, 2), r.integers(0, Q.q, 2)) for _ in range(2)]
    elif sp == "one-each":
        groups = [np.array([i]) for i in r.permutation(Q.k)[:2]]
    elif sp == "matrix" and Q.k % 2 == 0:
        groups = np.arange(Q.k).reshape(2, -1)
    if groups is not None:
        kw["split"] = groups
    true = Q.true.tolist() if case["true"] == "list" else Q.true.copy()
    dom = Q.dom.copy()
    F = Frozen(lam=lam, qoi=qoi, true=true, domain=dom, kw=kw)
    np.random.seed(Q.nseed)
    with sut("mud_problem"):
        d = mud_problem(lam, qoi, true, dom, **kw)
    F.verify("mud_problem")
    if groups is None:
        y = wme_ref(Q.qoi[:, : Q.k], Q.data, Q.s).reshape(-1, 1)
    else:
        cols = []
        for g in groups:
            g = [int(i) for i in g if i < Q.k]
            cols.append(wme_ref(Q.qoi[:, g], [Q.true[i] + Q.noise[i] for i in g], Q.s))
        y = np.array(cols).T
    same(d.X, Q.lam, "parameters")
    vclose(d.y, y, "outputs", 1e-10, 0, shape=True)
    same(d.domain, Q.dom, "domain")
    E = DensityProblem(Q.lam.copy(), np.array(d.y), Q.dom.copy(), weights=w)
    try:
        want = E.estimate(), E.expected_ratio()
        ok = np.isfinite(want[1])
    except Exception:
        ok = False
    if ok:
        with sut("estimate"):
            agrees(d.estimate(), E, Q.lam, "estimate")
            vclose(d.expected_ratio(), want[1], "expected ratio", 1e-12)
        c = combined(w, Q.n)
        if y.shape[1] == 1 and groups is None:  # the definition, once more
            pr = KDE(y.T, c)(y.T)
            ra = norm_pdf(y[:, 0]) / pr
            if np.isfinite(ra).all() and pr.min() > 1e-8:
                vclose(d.expected_ratio(), (ra * c).sum() / c.sum(), "expected ratio by definition", 1e-6, 1e-12)
                maximises(ra * c, is_row(Q.lam, d.estimate(), "estimate"), "updated density", 1e-6)
    return Q.k > 1, f"{sp}/{case['wk']}"


@SUITE.check(st.fixed_dictionaries(dict(log=st.sampled_from([None, False, True]), draw=st.booleans(), **SPACE)),
             n=1500, rule="several data")
def bayesian_wrapper(case):
    Q = Prob(case)
    lam, qoi = Q.args()
    kw = Q.kw()
    if case["log"] is not None:
        kw["log"] = case["log"]
    true, dom = Q.true.copy(), Q.dom.copy()
    F = Frozen(lam=lam, qoi=qoi, true=true, domain=dom)
    np.random.seed(Q.nseed)
    with sut("map_problem"):
        b = map_problem(lam, qoi, true, dom, **kw)
    F.verify("map_problem")
    same(b.X, Q.lam, "parameters")
    same(b.y, Q.qoi[:, : Q.k], "outputs")
    same(b.domain, Q.dom, "domain")
    ll = -0.5 * ((Q.qoi[:, : Q.k] - Q.data) / Q.s) ** 2
    logp = ll.sum(axis=1)
    size = Q.k * np.log(Q.s * np.sqrt(2 * np.pi)) + np.log(Q.dom[:, 1] - Q.dom[:, 0]).sum()
    if not case["log"] and (min(logp.max(), logp.max() - size) < -600 or -size > 600):
        return False  # the product underflows or overflows
    with sut("estimate"):
        x = b.estimate()
    idx = is_row(Q.lam, x, "estimate")
    need(logp[idx].max() >= logp.max() - 1e-8 * (1 + abs(logp.max())), "the estimate does not maximise the posterior")
    B = BayesProblem(Q.lam.copy(), Q.qoi[:, : Q.k].copy(), Q.dom.copy())
    B.set_likelihood(dists.norm(loc=Q.data, scale=Q.s), log=bool(case["log"]))
    agrees(x, B, Q.lam, "estimate of the problem by hand")
    post = np.exp(logp - logp.max())
    lines = []
    spread = np.linalg.eigvalsh(np.atleast_2d(np.corrcoef(Q.lam[post > 1e-3].T))) if (post > 1e-3).sum() > Q.p and (
        np.ptp(Q.lam[post > 1e-3], axis=0) > 0).all() else np.zeros(1)
    if case["draw"] and Q.p <= 2 and neff(post) > Q.p + 4 and spread[0] > 1e-6:
        with sut("plot_param_space"):
            lines.append((b.plot_param_space(0, aff=7), B.plot_param_space(0, aff=7)))
        for ln in lines[0][0].lines:
            if ln.get_label() == "Posterior":
                gx, gy = grid_curve(lambda z: KDE(Q.lam.T, post)(z.T), Q.dom, 0, 7)
                if gy.max() > 1e-100:
                    vclose(ln.get_ydata(), unit_area(gx, gy), "posterior curve", 1e-6)
    if case["draw"] and Q.k <= 2:
        R = np.array([Q.data - 2 * Q.s, Q.data + 2 * Q.s]).T
        with sut("plot_obs_space"):
            lines.append([o.plot_obs_space(0, y_range=R, aff=7, pf_opts=None) for o in (b, B)])
        gx, gy = grid_curve(lambda z: norm_pdf((np.atleast_2d(z) - Q.data) / Q.s).prod(axis=1), R, 0, 7)
        y = np.asarray(lines[-1][0].lines[0].get_ydata(), float)
        vclose(y / y.max(), gy / gy.max(), "likelihood curve", 1e-6)
    for one, two in lines:
        need(len(one.lines) == len(two.lines), "number of curves")
        for u, v in zip(one.lines, two.lines):
            vclose(u.get_xdata(), v.get_xdata(), "curve grid", 1e-9)
            vclose(u.get_ydata(), v.get_ydata(), "curve", 1e-9)
    return Q.k > 1, f"log={case['log']}"


@SUITE.check(
    st.fixed_dictionaries(dict(
        method=st.sampled_from(["default", "wme", "pca", "svd"]), fields=st.lists(st.sampled_from(
            ["domain", "sample_dist", "lam_ref", "times", "sensors", "qoi_true"]), unique=True),
        init=st.sampled_from(["default", "norm", "wide"]), grid=st.booleans(), S=st.integers(1, 3), **SPACE)),
    n=1500, rule="several data")
def data_constructed_wrapper(case):
    case["style"] = "uniform"
    S = case["S"]
    T = max(1, case["q"] // S)
    case["q"] = S * T
    Q = Prob(case, lam=False)
    r = Q.r
    if case["init"] == "default":  # some samples beyond the unit cube
        Q.lam = Q.lam * 1.4 - 0.1
        Q.dom = Q.dom * 1.4 - 0.1
    N = S * T
    meas = Q.true + 0.1 * r.standard_normal(N) * np.abs(Q.true).max()
    if case["method"] == "pca" and N < 2:
        return False
    kw = dict(measurements=meas.copy(), std_dev=float(Q.s))
    f = set(case["fields"])
    if ("sensors" in f) != ("times" in f):
        f |= {"sensors", "times"}
    if "domain" in f:
        kw["domain"] = Q.dom.copy()
    if "sample_dist" in f:
        kw["sample_dist"] = "un"[int(r.integers(2))]
    if "lam_ref" in f:
        kw["lam_ref"] = Q.lam[0].copy()
    if "times" in f:
        kw["times"], kw["sensors"] = np.arange(T) * 2.0, r.standard_normal((S, 2))
    if "qoi_true" in f:
        kw["qoi_true"] = Q.true.copy()
    if case["method"] != "default":
        kw["method"] = case["method"]
    m = "wme" if case["method"] == "default" else case["method"]
    init = {"default": dists.uniform(loc=0, scale=1), "norm": dists.norm(0.4, 0.5), "wide": dists.uniform(-1, 3)}[case["init"]]
    if case["init"] != "default":
        kw["init_dist"] = init
    lam, qoi = Q.args()
    if case["grid"] and "times" in f:
        qoi = Q.qoi.reshape(Q.n, S, T).copy()
    F = Frozen(lam=lam, qoi=qoi, kw={k: v for k, v in kw.items() if k != "init_dist"})
    ds = dict(lam=Q.lam, data=Q.qoi, measurements=meas, std_dev=float(Q.s))
    if "domain" in f:
        ds["domain"] = Q.dom
    P = SpatioTemporalProblem(ds)
    try:
        E = P.mud_problem(method=m)
        E.set_initial(init)
        E.set_observed(dists.norm(0, 1))
        want = E.estimate(), E.expected_ratio()
    except np.linalg.LinAlgError:
        return False  # no density estimate of these outputs
    if not np.isfinite(want[1]):
        return False
    with sut(f"data_prob({sorted(kw)})"):
        d = data_prob(lam, qoi, **kw)
    F.verify("data_prob")
    same(d.X, Q.lam, "parameters")
    dom = Q.dom if "domain" in f else np.array([Q.lam.min(axis=0), Q.lam.max(axis=0)]).T
    same(d.domain, dom, "domain")
    vclose(d.y, E.y, "outputs", 1e-10)
    if m == "wme":
        vclose(np.ravel(d.y), -wme_ref(Q.qoi, meas, Q.s), "weighted mean error", 1e-9, 1e-12)
    with sut("estimate"):
        vclose(d.expected_ratio(), want[1], "expected ratio", 1e-9)
        agrees(d.estimate(), E, Q.lam, "estimate")
    if d.y.shape[1] == 1:
        y = np.asarray(d.y, float)
        pr = KDE(y.T)(y.T)
        ra = norm_pdf(y[:, 0]) / pr
        if np.isfinite(ra).all() and pr.min() > 1e-8:
            vclose(d.expected_ratio(), ra.mean(), "expected ratio by definition", 1e-6, 1e-12)
            maximises(ra * init.pdf(Q.lam).prod(axis=1), is_row(Q.lam, d.estimate(), "estimate"), "updated density", 1e-6)
    return N > 1, f"{m}/{case['init']}"


@SUITE.check(
    st.fixed_dictionaries(dict(which=st.sampled_from(["mud", "map"]), bad=st.sampled_from([0, -1, -5, "q+1", "q+7"]),
                               split=st.booleans(), weights=st.booleans(), **SPACE)),
    n=500, rule="every case")
def refusals(case):
    Q = Prob(case)
    lam, qoi = Q.args()
    b = case["bad"]
    k = Q.q + int(b[2:]) if isinstance(b, str) else b
    f = mud_problem if case["which"] == "mud" else map_problem
    kw = {"split": [np.array([0])]} if case["split"] and f is mud_problem else {}
    true = np.concatenate([Q.true, Q.true, np.ones(20)])
    raises(lambda: f(lam, qoi, true, Q.dom, num_obs=k, **kw), (ValueError,), f"{f.__name__} with {k} of {Q.q} observations")
    if f is mud_problem and case["weights"]:
        raises(lambda: f(lam, qoi, Q.true, Q.dom, weights=np.ones(Q.n + 1)), (ValueError, AssertionError), "weights")
    return True, f"{case['which']} {b}"


@SUITE.check(st.fixed_dictionaries(dict(which=st.sampled_from(["mud", "map"]), **SPACE)), n=800, rule="every case")
def determined_by_the_random_state(case):
    """Same state, same problem; another state, other noise; and the noise has
    the stated size."""
    Q = Prob(case)
    f = mud_problem if case["which"] == "mud" else map_problem
    lam, qoi = Q.args()

    def data(s):
        np.random.seed(s)
        return f(lam, qoi, Q.true, Q.dom, **Q.kw())

    with sut(f.__name__):
        a, b, c = data(Q.nseed), data(Q.nseed), data((Q.nseed + 1) % 2**32)
    if f is mud_problem:
        same(a.y, b.y, "outputs for the same random state")
        need(not np.array_equal(a.y, c.y), "outputs do not depend on the random state")
        sh = (np.asarray(c.y) - np.asarray(a.y)).ravel()
        vclose(sh, np.full(len(sh), sh[0]), "the noise shifts all outputs alike", 1e-8, 1e-9, scale=np.abs(a.y).max())
        need(abs(sh[0]) < 14, f"weighted mean error moved by {sh[0]!r} through standardised noise")
    else:
        vals = []
        for d in (a, b):
            try:
                vals.append(np.asarray(d.estimate()))
            except ValueError:
                return False  # underflow
        same(vals[0], vals[1], "estimates for the same random state")
    return True, case["which"]
