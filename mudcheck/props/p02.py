"""P02: results after any history are those of the settings in force."""
import numpy as np
from hypothesis import strategies as st
from matplotlib import pyplot as plt
from mud.base import BayesProblem, DensityProblem
from scipy.stats import distributions as STATS

from ..core import *  # noqa: F403
from ..density import base, box, combined, dist_for, samples, weights
from ..models import KDE, Dist, curve_misfit, density_model, grid_curve, neff, norm_pdf

SUITE = Suite("P02", quick=2)

salt = st.integers(0, 5)
AFF = 9
STD = Dist({"k": "norm", "loc": 0.0, "scale": 1.0})

change = st.one_of(
    st.tuples(st.just("w"), st.sampled_from(["none", "random", "ints", "zeros", "stack2", "const", "tiny", "tiny"]), salt),
    st.tuples(st.just("in"), st.sampled_from(["none", "norm", "laplace", "uniform", "cut"]), salt),
    st.tuples(st.just("ob"), st.sampled_from(["none", "norm", "laplace", "cut"]), salt),
    st.tuples(st.just("ob"), st.sampled_from(["none", "norm", "laplace"]), salt),
    st.tuples(st.just("pr"), st.sampled_from(["kde", "silverman", "bw", "norm", "laplace"]), salt),
    st.tuples(st.just("prw"), st.sampled_from(["random", "stack2", "ints"]), salt),
    st.tuples(st.just("bad"), st.sampled_from(["w", "w", "pr"]), salt),
    st.tuples(st.just("bad"), st.sampled_from(["ob", "in", "pr-dist", "pr-bw", "prw-dist", "prw-bw"]), salt),
    st.tuples(st.just("again"), st.sampled_from(["in", "ob", "pr", "pr"])),
)
query = st.one_of(
    st.tuples(st.just("fit"), st.sampled_from(["", "bw", "w"])),
    st.tuples(st.just("mud")), st.tuples(st.just("est")), st.tuples(st.just("er")),
    st.tuples(st.just("plotp"), st.integers(0, 1)), st.tuples(st.just("ploto"), st.integers(0, 1)),
    st.tuples(st.just("plotq")),
)

# a phrase: the same view before and after changes, so that anything kept from
# the first one shows in the second
ask = st.one_of(st.tuples(st.just("plotp"), st.integers(0, 1)), st.tuples(st.just("ploto"), st.integers(0, 1)), query)
either_side = st.builds(lambda q, mid, q2: [q, *mid, q2 or q], ask, st.lists(change, min_size=1, max_size=3),
                        st.one_of(st.none(), query))
same_again = st.builds(lambda d, q, w: [("pr", d, w[2]), q, w, ("again", "pr"), q], st.sampled_from(["norm", "laplace"]), ask,
                       st.tuples(st.just("w"), st.sampled_from(["random", "ints", "zeros", "stack2"]), salt))
phrases = st.lists(st.one_of(change.map(lambda c: [c]), query.map(lambda c: [c]), either_side, same_again),
                   min_size=1, max_size=8).map(lambda ps: [o for p in ps for o in p][:18])


class Refuses:
    """A distribution which cannot be evaluated."""

    def pdf(self, x, *a, **k):
        raise ValueError("no density here")

    logpdf = pdf


def misfit(n, s):
    """A distribution over other coordinates than there are."""
    return Refuses() if s % 3 == 0 else STATS.norm(loc=np.zeros((n + 1 + s, 1)))


class Model:
    """Settings in force; everything is computed from them when asked."""

    def __init__(self, X, y, dom, w):
        self.X, self.y, self.dom, self.w = X, y, dom, w
        self.ini = self.pr = self.ob = None

    def resolve(self, bw=None):
        if self.ini is None:
            lo, hi = self.dom[:, 0], self.dom[:, 1]
            self.ini = Dist({"k": "uniform", "lo": lo.tolist(), "width": (hi - lo).tolist()})
            self.pr = None
        if self.pr is None:
            self.pr = ("kde", bw)
        if self.ob is None:
            self.ob = STD

    def values(self):
        self.resolve()
        return density_model(self.X, self.y, self.w, self.ini, self.pr, self.ob, self.dom)


def dline(ax, label):
    got = [ln for ln in ax.lines if ln.get_label() == label]
    need(len(got) == 1, f"{len(got)} curves {label}")
    return np.asarray(got[0].get_xdata(), float), np.asarray(got[0].get_ydata(), float)


def curve(ax, label, f, rng_, idx, what):
    x, y = dline(ax, label)
    gx, gy = grid_curve(f, rng_, idx, AFF)
    if not np.isfinite(gy).all() or gy.max() <= 0 or gy.max() < 1e-200:
        return
    close(x, gx, what + " grid", 1e-9, 1e-9 * np.abs(gx).max())
    msg = curve_misfit(y, f, rng_, idx, AFF)
    need(msg is None, f"{what}: {msg}")


def check_plotp(D, m, idx):
    idx = min(idx, m.X.shape[1] - 1)
    if m.ini is None:
        return
    m.resolve()
    pin, ppr, pob, r, up, er = m.values()
    if neff(r * m.w) < m.X.shape[1] + 4:  # no density estimate possible
        D.fit()
        return
    _, ax = plt.subplots()
    with sut("plot_param_space"):
        D.plot_param_space(idx, ax=ax, aff=AFF, in_opts={"label": "I"}, up_opts={"label": "U"},
                           win_opts={"label": "W"}, mud_opts={"label": "M"}, true_opts=None)
    ln = m.dom[:, 1] - m.dom[:, 0]
    R = np.array([m.dom[:, 0] - 0.05 * ln, m.dom[:, 1] + 0.05 * ln]).T
    curve(ax, "I", m.ini.joint, R, idx, "initial curve")
    curve(ax, "U", lambda p: KDE(m.X.T, r * m.w)(p.T), R, idx, "updated curve")
    curve(ax, "W", lambda p: KDE(m.X.T, m.w)(p.T), R, idx, "weighted initial curve")
    x, _ = dline(ax, "M")
    if np.max(up) > 0:
        maximises(up, np.where(m.X[:, idx] == x[0])[0], "marker", 1e-6)
    plt.close("all")


def check_ploto(D, m, idx):
    idx = min(idx, m.y.shape[1] - 1)
    if m.ob is None:
        return
    m.resolve()
    pin, ppr, pob, r, up, er = m.values()
    if neff(r * m.w) < m.y.shape[1] + 4:  # no density estimate possible
        D.fit()
        return
    _, ax = plt.subplots()
    with sut("plot_obs_space"):
        D.plot_obs_space(idx, ax=ax, aff=AFF, ob_opts={"label": "O"}, pr_opts={"label": "P"},
                         pf_opts={"label": "F"})
    lo, hi = m.y.min(axis=0), m.y.max(axis=0)
    R = np.array([lo - 0.1 * (hi - lo), hi + 0.1 * (hi - lo)]).T
    curve(ax, "O", m.ob.joint, R, idx, "observed curve")
    f = m.pr.joint if isinstance(m.pr, Dist) else lambda p: KDE(m.y.T, m.w, m.pr[1])(p.T)
    curve(ax, "P", f, R, idx, "predicted curve")
    curve(ax, "F", lambda p: KDE(m.y.T, r * m.w)(p.T), R, idx, "push-forward curve")
    plt.close("all")


def check_all(D, m, order):
    pin, ppr, pob, r, up, er = m.values()
    for what in order:
        with sut(what):
            if what == "er":
                close(D.expected_ratio(), er, "expected ratio", shape=False)
            else:
                p = D.mud_point() if what == "mud" else D.estimate()
                if np.max(up) > 0:
                    maximises(up, is_row(m.X, p, what), what, 1e-6)


@SUITE.check(
    base(n=upto(14, 40, 101, 200), p=st.integers(1, 2), q=st.integers(1, 2),
         style=st.sampled_from(["normal", "uniform", "offset", "small"]),
         given=st.booleans(), w0=st.sampled_from(["none", "random", "stack2"]),
         ops=phrases, last=st.sampled_from(
             [["er", "mud"], ["mud", "er"], ["est"]])),
    n=1800, rule="a setting changes after a result was asked for")
def density_history(case):
    X, y = samples(case)
    n = len(X)
    dom = box(X, 0.15) if case["given"] else box(X, 0.1)
    if not case["given"]:
        lo, hi = X.min(axis=0), X.max(axis=0)
        dom = np.array([lo - 0.1 * (hi - lo), hi + 0.1 * (hi - lo)]).T
    w = weights(case, case["w0"], n, 40)
    with sut("problem"):
        D = DensityProblem(X, y, dom if case["given"] else None, weights=w)
    m = Model(X, y, dom, combined(w, n))
    asked = stale = False
    last = {}
    for op in case["ops"]:
        k, a = op[0], (op[1] if len(op) > 1 else None)
        s = 100 + 7 * op[2] if len(op) > 2 else 0
        if k in ("w", "in", "ob", "pr", "prw", "again"):
            stale = stale or asked
        else:
            asked = True
        if k == "bad":  # refused, and without any effect
            wrong = np.ones(n + (1, -1, 3, n, 2, 5)[op[2]])
            if a == "w":
                raises(lambda: D.set_weights(wrong), REFUSALS, "set_weights with the wrong length")
            elif a == "ob":
                raises(lambda: D.set_observed(misfit(n, op[2])), REFUSALS, "an observed distribution that does not fit")
            elif a == "in":
                raises(lambda: D.set_initial(misfit(n, op[2])), REFUSALS, "an initial distribution that does not fit")
            elif m.ini is not None:
                kw = {"weights": wrong}
                if a != "pr":
                    kw = {"bw_method": "no such"} if a.endswith("bw") else {"distribution": misfit(n, op[2])}
                    if a.startswith("prw"):
                        kw["weights"] = weights(case, "random", n, s + 3)
                raises(lambda: D.set_predicted(**kw), REFUSALS, f"set_predicted with {sorted(kw)} that do not fit")
            continue
        with sut(f"step {op}"):
            if k == "again":  # the last distribution of its kind once more
                if a not in last or m.ini is None:
                    continue
                d, f = last[a]
                if a == "in":
                    D.set_initial(f)
                    m.ini, m.pr = d, None
                elif a == "ob":
                    D.set_observed(f)
                    m.ob = d
                else:
                    D.set_predicted(f)
                    m.pr = d
            elif k == "w":
                w = weights(case, a, n, s)
                D.set_weights(w)
                m.w, m.pr = combined(w, n), None
            elif k == "in":
                if a == "none":
                    D.set_initial()
                    m.ini = None
                    pr, m.pr = m.pr, ("kde", None)
                    ob, m.ob = m.ob, STD
                    m.resolve()
                    m.ob = ob
                else:
                    d = dist_for(case, a, X, s)
                    last[k] = d, d.scipy()
                    D.set_initial(last[k][1])
                    m.ini = d
                m.pr = None
            elif k == "ob":
                if a == "none":
                    D.set_observed()
                    m.ob = STD
                else:
                    m.ob = dist_for(case, a, y, s + 1)
                    last[k] = m.ob, m.ob.scipy()
                    D.set_observed(last[k][1])
            elif k in ("pr", "prw"):
                if m.ini is None:  # documented order: initial first
                    D.set_initial()
                    ob = m.ob
                    m.resolve()
                    m.ob = ob
                if k == "prw":
                    w = weights(case, a, n, s)
                    D.set_predicted(weights=w)
                    m.w, m.pr = combined(w, n), ("kde", None)
                elif a in ("norm", "laplace"):
                    m.pr = dist_for(case, a, y, s + 2)
                    last[k] = m.pr, m.pr.scipy()
                    D.set_predicted(last[k][1])
                else:
                    bw = {"kde": None, "silverman": "silverman", "bw": 0.5}[a]
                    D.set_predicted(bw_method=bw) if bw else D.set_predicted()
                    m.pr = ("kde", bw)
            elif k == "fit":
                bw = 0.35 if a == "bw" else None
                kw = {"bw_method": bw} if bw else {}
                if a == "w" and (m.ini is None or m.pr is None):
                    kw["weights"] = w = weights(case, "random", n, 77 + 7 * len(case["ops"]))
                    m.w = combined(w, n)
                D.fit(**kw)
                m.resolve(bw)
            elif k == "plotp":
                check_plotp(D, m, a)
            elif k == "ploto":
                check_ploto(D, m, a)
            elif k == "plotq":
                D.plot_qoi(0, y.shape[1] - 1)
                plt.close("all")
            else:
                m.resolve()
                check_all(D, m, [k])
    check_all(D, m, case["last"])
    check_plotp(D, m, 0)
    check_ploto(D, m, 1)
    check_all(D, m, ["er"])
    same(D.X, X, "X")
    same(D.y, y, "y")
    return stale, f"{len(case['ops'])} steps"


# ------------------------------------------------------------------ Bayes

bops = st.one_of(
    st.tuples(st.just("ll"), st.sampled_from(["norm", "laplace"]), st.booleans(), salt),
    st.tuples(st.just("pr"), st.sampled_from(["none", "norm", "laplace", "uniform", "cut"]), salt),
    st.tuples(st.just("fit")), st.tuples(st.just("map")), st.tuples(st.just("est")),
    st.tuples(st.just("plotp"), st.integers(0, 1)), st.tuples(st.just("ploto"), st.integers(0, 1)),
    st.tuples(st.just("again"), st.booleans()),
    st.tuples(st.just("bad"), st.sampled_from(["ll", "ll-log", "pr"]), salt),
)


@SUITE.check(
    base(n=upto(14, 40, 101, 200), p=st.integers(1, 2), q=st.integers(1, 2),
         style=st.sampled_from(["normal", "uniform", "offset", "small"]), given=st.booleans(),
         ops=st.lists(bops, min_size=1, max_size=12)),
    n=1000, rule="a setting changes after a result was asked for")
def bayes_history(case):
    X, y = samples(case)
    r = rng(case, 3)
    lo, hi = X.min(axis=0), X.max(axis=0)
    dom = np.array([lo - 0.1 * (hi - lo), hi + 0.1 * (hi - lo)]).T
    if case["given"]:
        dom = box(X, 0.2)
    with sut("problem"):
        B = BayesProblem(X, y, dom if case["given"] else None)
    default = Dist({"k": "uniform", "lo": dom[:, 0].tolist(), "width": (dom[:, 1] - dom[:, 0]).tolist()})
    pr = ll = None
    asked = stale = False

    def lik(kind, s):
        rr = rng(case, s)
        i = int(rr.integers(len(X)))
        sc = (y.std(axis=0) * rr.uniform(0.8, 1.6)).tolist()
        return Dist({"k": kind, "loc": y[i].tolist(), "scale": sc})

    def post():
        return pr.joint(X) * ll.joint(y)

    def query(k):
        p = B.map_point() if k == "map" else B.estimate()
        maximises(post(), is_row(X, p, k), k, 1e-6)

    ops = [list(o) for o in case["ops"]] + [["map"], ["plotp", 0], ["ploto", 0], ["est"]]
    log = False
    for op in ops:
        k = op[0]
        with sut(f"step {op}"):
            if k == "ll":
                stale = stale or asked
                ll = lik(op[1], 50 + op[3])
                log = op[2]
                B.set_likelihood(ll.scipy(), log=log)
                continue
            if k == "pr":
                stale = stale or asked
                if op[1] == "none":
                    B.set_prior()
                    pr = default
                else:
                    pr = dist_for(case, op[1], X, 60 + op[2])
                    B.set_prior(pr.scipy())
                continue
            if ll is None:
                ll = lik("norm", 50)
                B.set_likelihood(ll.scipy())
                log = False
            if k == "again":  # the same likelihood, as logarithm or not
                log = op[1]
                B.set_likelihood(ll.scipy(), log=log)
                continue
            if k == "bad":  # refused, and without any effect
                f = misfit(len(X), op[2])
                raises(lambda: B.set_prior(f) if op[1] == "pr" else B.set_likelihood(f, log=op[1] == "ll-log"), REFUSALS,
                       "a distribution that does not fit")
                continue
            asked = True
            if k == "plotp":
                if pr is None:
                    continue
                w = post()
                if neff(w) < X.shape[1] + 4:
                    continue
                i = min(op[1], X.shape[1] - 1)
                _, ax = plt.subplots()
                B.plot_param_space(i, ax=ax, aff=AFF, pr_opts={"label": "I"}, ps_opts={"label": "U"},
                                   map_opts={"label": "M"})
                curve(ax, "I", pr.joint, dom, i, "prior curve")
                curve(ax, "U", lambda p: KDE(X.T, w)(p.T), dom, i, "posterior curve")
                maximises(w, np.where(X[:, i] == dline(ax, "M")[0][0])[0], "marker", 1e-6)
                plt.close("all")
            elif k == "ploto":
                pr = default if pr is None else pr
                w = post()
                if neff(w) < y.shape[1] + 4:
                    if private(B, "_ps") is None:
                        B.fit()
                    continue
                i = min(op[1], y.shape[1] - 1)
                R = box(y, 0.1)
                _, ax = plt.subplots()
                B.plot_obs_space(i, ax=ax, y_range=R, aff=AFF, ll_opts={"label": "L"}, pf_opts={"label": "F"})
                for lab, f in (("L", ll.joint), ("F", lambda p: KDE(y.T, w)(p.T))):
                    gx, gy = grid_curve(f, R, i, AFF)
                    x, yy = dline(ax, lab)
                    close(x, gx, "grid", 1e-9, 1e-9 * np.abs(gx).max())
                    if gy.max() > 1e-100:
                        vclose(yy / yy.max(), gy / gy.max(), f"curve {lab}", 1e-6)
                plt.close("all")
            else:
                pr = default if pr is None else pr
                if k == "fit":
                    B.fit()
                else:
                    query(k)
    del r
    return stale, f"{len(case['ops'])} steps"
