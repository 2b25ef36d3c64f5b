"""P18: plotted density curves and markers."""
import re

import numpy as np
from hypothesis import strategies as st
from matplotlib import pyplot as plt
from mud.base import BayesProblem, DensityProblem
from mud.plot import plot_dist, plot_vert_line
from scipy.stats import gaussian_kde

from ..core import *  # noqa: F403
from ..density import base, box, combined, dist_for, samples, weights
from ..models import KDE, Dist, curve_misfit, density_model, grid_curve, neff

SUITE = Suite("P18")

HOW = st.sampled_from(["label", "label", "label", "default", "none", "color"])
RANGE = st.sampled_from(["default", "array", "list", "wide", "narrow", "shifted", "ints", "reversed"])


def ranges(r, kind, x):
    """Range to plot over, one per coordinate."""
    b = box(x, 0.2)
    ln = b[:, 1:] - b[:, :1]
    if kind == "wide":
        return b + ln * [-1, 1]
    if kind == "narrow":
        return np.array([b[:, 0] + 0.3 * ln[:, 0], b[:, 0] + r.uniform(0.5, 0.9, len(b)) * ln[:, 0]]).T
    if kind == "shifted":
        return b + ln * r.uniform(-0.3, 0.3, (len(b), 1))
    if kind == "reversed":
        return b[:, ::-1]
    if kind == "ints":
        return np.array([np.floor(b[:, 0]), np.ceil(b[:, 1]) + 1]).T.astype(int)
    return b


def passed(kind, R):
    return R.tolist() if kind in ("list", "ints") else R.copy()


def opts_for(kw, name, how, label):
    if how == "none":
        kw[name] = None
    elif how == "label":
        kw[name] = {"label": label}
    elif how == "color":
        kw[name] = {"label": label, "color": "m", "linewidth": 2.5}


def xy(line):
    return np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)


def fits(line, f, R, idx, aff, gx, density=True):
    x, y = xy(line)
    if len(x) != len(gx) or not np.allclose(x, gx, rtol=1e-9, atol=1e-9 * np.abs(gx).max()):
        return f"grid of {len(x)} points {x[:1]}..{x[-1:]}, expected {len(gx)} {gx[:1]}..{gx[-1:]}"
    return curve_misfit(y, f, R, idx, aff, density)


class Drawn:
    """Lines of the axes, matched one by one."""

    def __init__(self, ax, what):
        self.left, self.what = list(ax.lines), what

    def take(self, how, label, test):
        if how in ("label", "color"):
            c = [ln for ln in self.left if ln.get_label() == label]
            need(len(c) == 1, f"{self.what}: {len(c)} curves with label {label}")
        else:
            c = list(self.left)
            need(c, f"{self.what}: curve {label} is missing")
        msgs = []
        for ln in c:
            m = test(ln)
            if m is None:
                self.left.remove(ln)
                return
            msgs.append(m)
        raise Violation(f"{self.what}: curve {label}: {msgs[0]}")

    def drop(self, how, label):
        """A curve which cannot be compared (nothing but zeros in the range)."""
        c = [ln for ln in self.left if ln.get_label() == label] if how in ("label", "color") else self.left[:1]
        need(c, f"{self.what}: curve {label} is missing")
        self.left.remove(c[0])

    def done(self):
        need(not self.left, f"{self.what}: {len(self.left)} curves not asked for, {[x.get_label() for x in self.left]}")


def curves(ax, todo, R, idx, aff, what, density=True):
    """todo: (how, label, function or marker test)."""
    D = Drawn(ax, what)
    later = []
    for how, label, f in sorted(todo, key=lambda t: t[0] == "default"):
        if how == "none":
            continue
        if isinstance(f, list):  # markers: one of these abscissas
            D.take(how, label, lambda ln: None if len(xy(ln)[0]) == 2 and any(
                np.all(np.abs(xy(ln)[0] - v) <= 1e-12 * (1 + abs(v))) for v in f) else f"marker at {xy(ln)[0]}, not {f}")
            continue
        gx, gy = grid_curve(f, R, idx, aff)
        if not np.isfinite(gy).all() or gy.max() < 1e-200:
            later.append((how, label))
            continue
        D.take(how, label, lambda ln: fits(ln, f, R, idx, aff, gx, density))
    for how, label in later:
        D.drop(how, label)
    D.done()


def label_names(ax, idx):
    got = re.findall(r"\d+", ax.get_xlabel())
    need(got == [str(idx + 1)], f"axis label {ax.get_xlabel()!r} for coordinate {idx + 1}")


def axes_pair(given):
    """Axes to pass, and others which are current."""
    if not given:
        return None, None
    _, ax = plt.subplots()
    _, other = plt.subplots()
    return ax, other


def on_axes(ax, other, ret, what):
    if ax is not None:
        need(not other.lines, f"{what} drew on the current axes instead of those passed in")
        need(ret is ax, f"{what} returned other axes")
        return ax
    need(ret is not None, f"{what} returned no axes")
    return ret


AFFS = {1: [None, 7, 23], 2: [6, 11], 3: [5, 7], 4: [4, 6], 5: [4, 5]}
DIM = st.sampled_from([1, 1, 2, 2, 3, 3, 4])


def aff_for(r, d, default):
    a = AFFS[d][int(r.integers(len(AFFS[d])))]
    return (default, {}) if a is None and d == 1 else (a, {"aff": a})


@SUITE.check(
    base(n=upto(14, 60, 110, 150, 300), wk=st.sampled_from(["none", "random", "ints", "stack2"]),
         ik=st.sampled_from(["none", "norm", "laplace", "uniform", "scalar"]), ok=st.sampled_from(["none", "norm", "laplace"]),
         pk=st.sampled_from(["kde", "bw", "norm"]), idx=st.integers(0, 3), p=DIM, q=DIM, range=RANGE, given=st.booleans(),
         opts=st.tuples(HOW, HOW, st.sampled_from(["default", "label", "label", "color"]), HOW, HOW), true=st.sampled_from(
             ["none", "list", "array", "array"]), pad=st.sampled_from([None, 0.0, 0.3]), ylim=st.booleans(),
         fitted=st.booleans()),
    n=1500, rule="more than one parameter")
def density_param_space(case):
    X, y = samples(case)
    n, p = X.shape
    r = rng(case, 9)
    idx = case["idx"] % p
    dom = box(X, 0.1)
    w = weights(case, case["wk"], n)
    c = combined(w, n)
    with sut("problem"):
        D = DensityProblem(X, y, dom, weights=w)
        ini = None if case["ik"] == "none" else dist_for(case, case["ik"], X, 20)
        D.set_initial(ini.scipy() if ini else None)
        ini = ini or Dist({"k": "uniform", "lo": dom[:, 0].tolist(), "width": (dom[:, 1] - dom[:, 0]).tolist()})
        pr = ("kde", None)
        if case["pk"] == "bw":
            pr = ("kde", 0.4)
            D.set_predicted(bw_method=0.4)
        elif case["pk"] == "norm":
            pr = dist_for(case, "norm", y, 22)
            D.set_predicted(pr.scipy())
        ob = None if case["ok"] == "none" else dist_for(case, "norm" if case["ok"] == "norm" else "laplace", y, 21)
        if ob:
            D.set_observed(ob.scipy())
    pin, ppr, pob, ra, up, er = density_model(X, y, c, ini, pr, ob, dom)
    if neff(ra * c) < p + 4 or neff(c) < p + 4 or not np.max(up) > 0:
        return False
    if case["fitted"]:
        D.fit()
    kw = {}
    hows = case["opts"]
    for nm, how, lab in zip(("in_opts", "up_opts", "win_opts", "mud_opts", "true_opts"), hows, "IUWMT"):
        opts_for(kw, nm, how, lab)
    true = r.uniform(dom[:, 0], dom[:, 1])
    if case["true"] != "none":
        kw["true_val"] = true.tolist() if case["true"] == "list" else true
    R = np.array([dom[:, 0] - 0.05 * (dom[:, 1] - dom[:, 0]), dom[:, 1] + 0.05 * (dom[:, 1] - dom[:, 0])]).T
    if case["range"] != "default":
        R = ranges(r, case["range"], X)
        kw["x_range"] = passed(case["range"], R)
    elif case["pad"] is not None:
        kw["pad_ratio"] = q = case["pad"]
        ln = dom[:, 1] - dom[:, 0]
        R = np.array([dom[:, 0] - q * ln, dom[:, 1] + q * ln]).T
    if case["ylim"]:
        kw["ylim"] = 3.5
    aff, akw = aff_for(r, p, 100)
    ax, other = axes_pair(case["given"])
    F = Frozen(kw={k: v for k, v in kw.items()})
    with sut("plot_param_space"):
        ret = D.plot_param_space(idx, ax=ax, **akw, **kw) if idx else D.plot_param_space(ax=ax, **akw, **kw)
    F.verify("plot_param_space")
    ax = on_axes(ax, other, ret, "plot_param_space")
    win = "none" if hows[2] == "default" else hows[2]  # off by default
    top = np.where(up >= up.max() * (1 - 1e-6))[0]
    todo = [(hows[0], "I", ini.joint), (hows[1], "U", lambda q: KDE(X.T, ra * c)(q.T)), (win, "W", lambda q: KDE(X.T, c)(q.T)),
            (hows[3], "M", X[top, idx].tolist())]
    if case["true"] != "none":
        todo.append((hows[4], "T", [float(true[idx])]))
    curves(ax, todo, R, idx, aff, "plot_param_space")
    label_names(ax, idx)
    return p > 1, f"{p}-d/{case['range']}"


@SUITE.check(
    base(n=upto(14, 60, 110, 150, 300), wk=st.sampled_from(["none", "random", "stack2"]), ok=st.sampled_from(
        ["none", "norm", "laplace", "uniform"]), pk=st.sampled_from(["kde", "silverman", "bw", "norm", "laplace"]),
        idx=st.integers(0, 3), p=DIM, q=DIM, range=RANGE, given=st.booleans(), opts=st.tuples(HOW, HOW, HOW), fitted=st.booleans()),
    n=1200, rule="more than one output")
def density_obs_space(case):
    X, y = samples(case)
    n, q = y.shape
    r = rng(case, 9)
    idx = case["idx"] % q
    dom = box(X, 0.1)
    w = weights(case, case["wk"], n)
    c = combined(w, n)
    pk = case["pk"]
    with sut("problem"):
        D = DensityProblem(X, y, dom, weights=w)
        D.set_initial()
        if pk in ("norm", "laplace"):
            pr = dist_for(case, pk, y, 22)
            D.set_predicted(pr.scipy())
        else:
            bw = {"kde": None, "silverman": "silverman", "bw": 0.5}[pk]
            pr = ("kde", bw)
            D.set_predicted(bw_method=bw) if bw else D.set_predicted()
        ob = None if case["ok"] == "none" else dist_for(case, case["ok"], y, 21)
        D.set_observed(ob.scipy()) if ob else D.set_observed()
    pin, ppr, pob, ra, up, er = density_model(X, y, c, None, pr, ob, dom)
    if neff(ra * c) < q + 4 or neff(c) < q + 4:
        return False
    if case["fitted"]:
        D.fit()
    kw, hows = {}, case["opts"]
    for nm, how, lab in zip(("ob_opts", "pr_opts", "pf_opts"), hows, "OPF"):
        opts_for(kw, nm, how, lab)
    ln = y.max(axis=0) - y.min(axis=0)
    R = np.array([y.min(axis=0) - 0.1 * ln, y.max(axis=0) + 0.1 * ln]).T
    if case["range"] != "default":
        R = ranges(r, case["range"], y)
        kw["y_range"] = passed(case["range"], R)
    aff, akw = aff_for(r, q, 100)
    ax, other = axes_pair(case["given"])
    F = Frozen(kw=kw)
    with sut("plot_obs_space"):
        ret = D.plot_obs_space(idx, ax=ax, **akw, **kw) if idx else D.plot_obs_space(ax=ax, **akw, **kw)
    F.verify("plot_obs_space")
    ax = on_axes(ax, other, ret, "plot_obs_space")
    ob = ob or Dist({"k": "norm", "loc": 0.0, "scale": 1.0})
    prf = pr.joint if isinstance(pr, Dist) else (lambda z: KDE(y.T, c, pr[1])(z.T))
    curves(ax, [(hows[0], "O", ob.joint), (hows[1], "P", prf), (hows[2], "F", lambda z: KDE(y.T, ra * c)(z.T))],
           R, idx, aff, "plot_obs_space")
    return q > 1, f"{q}-d/{case['range']}"


@SUITE.check(
    base(n=upto(14, 60, 110, 150, 300), ik=st.sampled_from(["none", "norm", "laplace", "uniform"]), log=st.booleans(),
         lk=st.sampled_from(["norm", "laplace"]), idx=st.integers(0, 3), p=DIM, q=DIM, range=RANGE, given=st.booleans(),
         opts=st.tuples(HOW, HOW, HOW, HOW), true=st.sampled_from(["none", "list", "array"]), fitted=st.booleans(),
         obs=st.booleans(), oidx=st.integers(0, 3), oopts=st.tuples(HOW, HOW)),
    n=1500, rule="more than one parameter")
def bayes_spaces(case):
    X, y = samples(case)
    n, p = X.shape
    q = y.shape[1]
    r = rng(case, 9)
    dom = box(X, 0.1)
    ini = None if case["ik"] == "none" else dist_for(case, case["ik"], X, 20)
    i = int(r.integers(n))
    ll = Dist({"k": case["lk"], "loc": y[i].tolist(), "scale": (y.std(axis=0) * r.uniform(0.6, 1.5)).tolist()})
    with sut("problem"):
        B = BayesProblem(X, y, dom)
        B.set_prior(ini.scipy()) if ini else B.set_prior()
        B.set_likelihood(ll.scipy(), log=case["log"])
    ini = ini or Dist({"k": "uniform", "lo": dom[:, 0].tolist(), "width": (dom[:, 1] - dom[:, 0]).tolist()})
    w = ini.joint(X) * ll.joint(y)
    if neff(w) < max(p, q) + 4:
        return False
    if case["fitted"]:
        B.fit()
    if not case["obs"]:
        idx = case["idx"] % p
        kw, hows = {}, case["opts"]
        for nm, how, lab in zip(("pr_opts", "ps_opts", "map_opts", "true_opts"), hows, "ISMT"):
            opts_for(kw, nm, how, lab)
        true = r.uniform(dom[:, 0], dom[:, 1])
        if case["true"] != "none":
            kw["true_val"] = true.tolist() if case["true"] == "list" else true
        R = dom
        if case["range"] != "default":
            R = ranges(r, case["range"], X)
            kw["x_range"] = passed(case["range"], R)
        aff, akw = aff_for(r, p, 1000)
        ax, other = axes_pair(case["given"])
        F = Frozen(kw=kw)
        with sut("plot_param_space"):
            ret = B.plot_param_space(idx, ax=ax, **akw, **kw) if idx else B.plot_param_space(ax=ax, **akw, **kw)
        F.verify("plot_param_space")
        ax = on_axes(ax, other, ret, "plot_param_space")
        top = np.where(w >= w.max() * (1 - 1e-6))[0]
        todo = [(hows[0], "I", ini.joint), (hows[1], "S", lambda z: KDE(X.T, w)(z.T)), (hows[2], "M", X[top, idx].tolist())]
        if case["true"] != "none":
            todo.append((hows[3], "T", [float(true[idx])]))
        curves(ax, todo, R, idx, aff, "plot_param_space")
        label_names(ax, idx)
        return p > 1, f"param {p}-d"
    idx = case["oidx"] % q
    kw, hows = {}, case["oopts"]
    for nm, how, lab in zip(("ll_opts", "pf_opts"), hows, "LF"):
        opts_for(kw, nm, how, lab)
    R = np.array([[-1.0, 1.0]] * q)
    if case["range"] != "default":
        R = ranges(r, case["range"], y)
        kw["y_range"] = passed(case["range"], R)
    aff, akw = aff_for(r, q, 1000)
    ax, other = axes_pair(case["given"])
    F = Frozen(kw=kw)
    with sut("plot_obs_space"):
        ret = B.plot_obs_space(idx, ax=ax, **akw, **kw) if idx else B.plot_obs_space(ax=ax, **akw, **kw)
    F.verify("plot_obs_space")
    ax = on_axes(ax, other, ret, "plot_obs_space")
    curves(ax, [(hows[0], "L", ll.joint), (hows[1], "F", lambda z: KDE(y.T, w)(z.T))], R, idx, aff, "plot_obs_space",
           density=False)
    return q > 1, f"obs {q}-d"


@SUITE.check(
    base(n=upto(14, 60, 110, 150, 300), source=st.sampled_from(["pdf", "kde", "default"]), kind=st.sampled_from(
        ["norm", "laplace", "uniform", "scalar"]), idx=st.integers(0, 4), p=st.sampled_from([1, 2, 2, 3, 3, 4, 5]), range=st.sampled_from(
            ["array", "list", "wide", "narrow", "ints"]), given=st.booleans(), wk=st.sampled_from(["none", "random"])),
    n=1200, rule="several coordinates")
def single_curves(case):
    X, _ = samples(case)
    n, p = X.shape
    r = rng(case, 9)
    idx = case["idx"] % p
    R = ranges(r, case["range"], X)
    aff, akw = aff_for(r, p, 100)
    kw = dict(akw)
    if case["source"] == "pdf":
        d = dist_for(case, case["kind"], X, 20)
        obj, f = d.scipy(), d.joint
        kw["source"] = "pdf"
    else:
        w = weights(case, case["wk"], n)
        try:
            obj = gaussian_kde(X.T, weights=w)
        except np.linalg.LinAlgError:
            return False
        f = lambda z: KDE(X.T, combined(w, n))(z.T)  # noqa: E731
        if case["source"] == "kde":
            kw["source"] = "kde"
    if idx or r.random() < 0.5:
        kw["idx"] = idx
    ax, other = axes_pair(case["given"])
    with sut("plot_dist"):
        ret = plot_dist(obj, passed(case["range"], R), ax=ax, label="C", color="g", **kw)
    ax = on_axes(ax, other, ret, "plot_dist")
    curves(ax, [("label", "C", f)], R, idx, aff, "plot_dist")
    raises(lambda: plot_dist(obj, R, source="pfd", aff=aff), (ValueError,), "unknown source")
    return p > 1, f"{p}-d/{case['source']}"


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, xs=st.lists(st.floats(-50, 50), min_size=1, max_size=3), top=st.one_of(
        st.none(), st.floats(0.5, 20)), curve=st.booleans())),
    n=300, rule="a requested height")
def vertical_lines(case):
    r = rng(case)
    _, ax = plt.subplots()
    _, other = plt.subplots()
    if case["curve"]:
        ax.plot(np.arange(5), r.random(5))
    k = len(ax.lines)
    for v in case["xs"]:
        lo = ax.get_ylim()
        with sut("plot_vert_line"):
            plot_vert_line(ax, v, ylim=case["top"], label="V", color="r")
        x, y = xy(ax.lines[-1])
        need((x == v).all() and len(x) == 2, f"line at {x}, requested {v}")
        top = lo[1] if case["top"] is None else case["top"]
        close(sorted(y), sorted([lo[0], top]), "ends of the line", 1e-9, 1e-9)
        need(ax.lines[-1].get_label() == "V", "label")
    need(len(ax.lines) == k + len(case["xs"]) and not other.lines, "number of lines")
    return case["top"] is not None


@SUITE.check(
    base(n=st.integers(20, 40), p=st.integers(1, 2), q=st.integers(1, 2), style=st.just("normal"),
         opts=st.tuples(*[st.sampled_from(["default", "empty", "color"])] * 7), bayes=st.booleans()),
    n=96, rule="every case")
def default_labels_render(case):
    """Options without a label leave the default one, which can be drawn."""
    X, y = samples(case)
    dom = box(X, 0.1)
    o = [{"default": None, "empty": {}, "color": {"color": "c"}}[x] for x in case["opts"]]
    kw = {k: v for k, v in zip(("in_opts", "up_opts", "win_opts", "mud_opts", "true_opts"), o) if v is not None}
    okw = {k: v for k, v in zip(("ob_opts", "pr_opts"), o[5:]) if v is not None}
    with sut("plots"):
        if case["bayes"]:
            B = BayesProblem(X, y, dom)
            B.set_prior()
            B.set_likelihood(Dist({"k": "norm", "loc": y[0].tolist(), "scale": (2 * y.std(axis=0)).tolist()}).scipy())
            names = {"in_opts": "pr_opts", "up_opts": "ps_opts", "mud_opts": "map_opts", "true_opts": "true_opts"}
            axs = [B.plot_param_space(0, aff=6, true_val=X[0], **{names[k]: v for k, v in kw.items() if k in names}),
                   B.plot_obs_space(0, aff=6, y_range=box(y, 0.1))]
        else:
            D = DensityProblem(X, y, dom)
            D.estimate()
            axs = [D.plot_param_space(0, aff=6, true_val=X[0], **kw), D.plot_obs_space(0, aff=6, **okw)]
        for ax in axs:
            labels = [ln.get_label() for ln in ax.lines]
            need(all(x and not x.startswith("_") for x in labels), f"curves without label: {labels}")
            need(len(set(labels)) == len(labels), f"curves with the same label: {labels}")
            ax.legend()
            ax.figure.canvas.draw()
    return True, "bayes" if case["bayes"] else "density"
