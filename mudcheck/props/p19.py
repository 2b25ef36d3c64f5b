"""P19: callers' objects and problems are left as they are."""
import copy
import os

import numpy as np
from hypothesis import strategies as st
from matplotlib import pyplot as plt
from mud import funs, norm, preprocessing, util
from mud import plot as mplot
from mud.base import (BayesProblem, DensityProblem, IterativeLinearProblem, LinearGaussianProblem, LinearWMEProblem,
                      SpatioTemporalProblem)

from ..core import *  # noqa: F403
from ..density import WKINDS, base, box, dist_for, samples, weights
from ..linear import cov

SUITE = Suite("P19")


# --------------------------------------------------------------------------
# what a call gave, in comparable form


def drawing(ax):
    """Everything drawn on the axes."""
    out = []
    for ln in ax.lines:
        out.append(["line", np.array(ln.get_xydata(), float), str(ln.get_label()), str(ln.get_color()),
                    str(ln.get_linestyle()), float(ln.get_linewidth()), str(ln.get_marker())])
    for c in ax.collections:
        a = c.get_array()
        out.append(["collection", np.asarray(c.get_offsets(), float), None if a is None else np.array(a, float),
                    [np.array(p.vertices, float) for p in c.get_paths()], np.array(c.get_facecolor(), float),
                    np.array(c.get_sizes() if hasattr(c, "get_sizes") else [], float), str(c.get_label())])
    for t in ax.texts:
        out.append(["text", t.get_text(), np.array([np.ravel(v)[0] for v in t.xy], float), float(t.get_fontsize())])
    out.append(["axes", ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), np.array(ax.get_xlim()), np.array(ax.get_ylim()),
                ax.get_yscale()])
    return out


def canon(v):
    if isinstance(v, DensityProblem):
        return ["density", v.X.copy(), v.y.copy(), np.array(v.domain), np.array(v.estimate()), float(v.expected_ratio())]
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, np.ndarray):
        return np.array(v)
    if isinstance(v, np.generic):
        return v.item()
    return v


def match(a, b, what):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        need(isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b), f"{what}: {a!r:.80} before"
             f" {b!r:.80}")
        for x, y in zip(a, b):
            match(x, y, what)
    elif isinstance(a, (np.ndarray, float)) and isinstance(b, (np.ndarray, float)):
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype.kind in "fiub" and y.dtype.kind in "fiub":
            need(x.shape == y.shape, f"{what}: shape {x.shape} before {y.shape}")
            if x.size:
                f = np.abs(y[np.isfinite(y)]).max() if np.isfinite(y).any() else 0.0
                close(x, y, what, 1e-9, 1e-10 * f + 1e-300)
        else:
            same(x, y, what)
    else:
        need(type(a) is type(b) and a == b, f"{what}: {a!r:.80} before {b!r:.80}")


# --------------------------------------------------------------------------
# problems and the calls which evaluate them


def O(case, *labels):  # noqa: E743
    """Dictionaries of options: some calls leave them to the defaults."""
    return {k: {"label": k, "color": "m"} for k in labels}


class Density:
    inputs = ("X", "y", "domain")

    def __init__(self, case):
        r = self.r = rng(case, 3)
        c = {**case, "style": "normal", "n": case["n"] + 12, "p": 1 + case["p"] % 2, "q": 1 + case["q"] % 2}
        X, y = samples(c)
        dom = box(X, 0.2) if case["flag"] else None
        self.args = dict(X=X, y=y, domain=dom, weights=weights(c, case["w"], len(X)))
        self.p, self.q = c["p"], c["q"]
        self.dists = dict(ini=dist_for(c, "norm", X, 4).scipy(), obs=dist_for(c, "norm", y, 5).scipy())
        D = DensityProblem(**self.args)
        D.set_initial(self.dists["ini"] if case["own"] else None)
        if case["own"]:
            D.set_observed(self.dists["obs"])
        D.estimate()
        self.obj = D
        p, q = self.p, self.q
        i, k = p - 1, q - 1
        self.kw = dict(R=box(X, 0.3), Y=box(y, 0.3).tolist(), t=X[0].copy(), **O(case, "in_opts", "up_opts", "win_opts",
                       "mud_opts", "true_opts", "ob_opts", "pr_opts", "pf_opts"), meas={"s": 3})
        K = self.kw
        self.calls = {
            "mud_point": lambda o, ax: o.mud_point(),
            "estimate": lambda o, ax: o.estimate(),
            "expected_ratio": lambda o, ax: o.expected_ratio(),
            "fit": lambda o, ax: (o.fit(), o.estimate(), o.expected_ratio()),
            "sizes": lambda o, ax: (o.n_params, o.n_features, o.n_samples),
            "plot_param_space": lambda o, ax: o.plot_param_space(ax=ax, aff=9),
            "plot_param_space with options": lambda o, ax: o.plot_param_space(
                param_idx=i, ax=ax, aff=8, x_range=K["R"], true_val=K["t"], in_opts=K["in_opts"], up_opts=K["up_opts"],
                win_opts=K["win_opts"], mud_opts=K["mud_opts"], true_opts=K["true_opts"]),
            "plot_param_space with true value": lambda o, ax: o.plot_param_space(ax=ax, aff=7, true_val=K["t"], ylim=2.0),
            "plot_obs_space": lambda o, ax: o.plot_obs_space(ax=ax, aff=9),
            "plot_obs_space with options": lambda o, ax: o.plot_obs_space(
                obs_idx=k, ax=ax, aff=8, y_range=K["Y"], ob_opts=K["ob_opts"], pr_opts=K["pr_opts"], pf_opts=K["pf_opts"]),
            "plot_qoi": lambda o, ax: o.plot_qoi(0, k, ax=ax),
            "plot_qoi with options": lambda o, ax: o.plot_qoi(k, 0, ax=ax, **K["meas"]),
        }
        if p > 1:
            self.calls["plot_params_2d"] = lambda o, ax: o.plot_params_2d(0, 1, k, ax=ax)
            self.calls["plot_params_2d reversed"] = lambda o, ax: o.plot_params_2d(1, 0, 0, ax=ax, colorbar=False, **K["meas"])
        self.returns_ax = {c for c in self.calls if c.startswith("plot")}


class Bayes:
    inputs = ("X", "y", "domain")

    def __init__(self, case):
        c = {**case, "style": "normal", "n": case["n"] + 12, "p": 1 + case["p"] % 2, "q": 1 + case["q"] % 2}
        X, y = samples(c)
        self.args = dict(X=X, y=y, domain=box(X, 0.2) if case["flag"] else None)
        self.dists = dict(pri=dist_for(c, "norm", X, 4).scipy(), lik=dist_for(c, "norm", y, 5).scipy())
        B = BayesProblem(**self.args)
        B.set_likelihood(self.dists["lik"], log=case["log"])
        B.set_prior(self.dists["pri"] if case["own"] else None)
        B.estimate()
        self.obj = B
        i, k = c["p"] - 1, c["q"] - 1
        self.kw = dict(R=box(X, 0.3), Y=box(y, 0.3).tolist(), t=X[0].copy(), **O(case, "pr_opts", "ps_opts", "map_opts",
                       "true_opts", "ll_opts", "pf_opts"))
        K = self.kw
        self.calls = {
            "map_point": lambda o, ax: o.map_point(),
            "estimate": lambda o, ax: o.estimate(),
            "fit": lambda o, ax: (o.fit(), o.estimate())[1],
            "sizes": lambda o, ax: (o.n_params, o.n_features, o.n_samples),
            "plot_param_space": lambda o, ax: o.plot_param_space(ax=ax, aff=9),
            "plot_param_space with options": lambda o, ax: o.plot_param_space(
                param_idx=i, ax=ax, aff=8, x_range=K["R"], pr_opts=K["pr_opts"], ps_opts=K["ps_opts"],
                map_opts=K["map_opts"], true_opts=K["true_opts"], true_val=K["t"]),
            "plot_param_space with true value": lambda o, ax: o.plot_param_space(ax=ax, aff=7, true_val=K["t"]),
            "plot_obs_space": lambda o, ax: o.plot_obs_space(ax=ax, aff=9),
            "plot_obs_space with options": lambda o, ax: o.plot_obs_space(
                obs_idx=k, ax=ax, aff=8, y_range=K["Y"], ll_opts=K["ll_opts"], pf_opts=K["pf_opts"]),
        }
        self.returns_ax = {c for c in self.calls if c.startswith("plot")}


def lin_args(case, cls):
    r = rng(case, 3)
    m, n = 1 + case["p"], 2
    A = r.standard_normal((m, n))
    col = case["flag"]
    v = (lambda x: x.reshape(-1, 1)) if col else (lambda x: x)
    ci, co = cov(r, n, "full" if case["own"] else "none"), cov(r, m, "diag" if case["own"] else "none")
    b, y, mean = v(r.standard_normal(m)), v(r.standard_normal(m)), v(r.standard_normal(n))
    if cls is IterativeLinearProblem:
        return dict(A=A, b=b, y=y, mu_i=mean, cov=ci, data_cov=co, idx_order=[int(i) for i in r.permutation(m)] if
                    case["log"] else None)
    return dict(A=A, b=b, y=y, mean_i=mean, cov_i=ci, cov_o=co, alpha=0.7 if case["log"] else 1.0)


class Linear:
    inputs = ("A", "b", "y", "mean_i", "cov_i", "cov_o", "alpha")

    def __init__(self, case):
        self.args = lin_args(case, LinearGaussianProblem)
        self.dists = {}
        if case["w"] == "stack2":  # from groups of rows
            r = rng(case, 4)
            k = 1 + case["p"]
            self.args = dict(operators=[r.standard_normal((3, 2)) for _ in range(k)], data=[r.standard_normal(3) for _ in range(k)],
                             sigma=[0.3] * k, mean_i=self.args["mean_i"])
            self.obj = LinearWMEProblem(**self.args)
        else:
            self.obj = LinearGaussianProblem(**self.args)
        m = 1 + case["p"]
        r = rng(case, 5)
        mesh = util.make_2d_unit_mesh(6)[2]
        self.kw = dict(P=r.standard_normal((4, 2)), ref=r.standard_normal(2), sub=[m - 1, 0], pt={"color": "m", "s": 9},
                       ln={"color": "c"}, an={"fontsize": 7}, mesh=mesh, po={"color": "m", "ls": "-"}, A=r.standard_normal((1, 2)),
                       C=cov(r, 2, "full"), S=np.eye(1) * 0.3)
        K = self.kw
        c = {f"solve {k}": (lambda o, ax, k=k: o.solve(k)) for k in ("mud", "map", "ls", "all")}
        c["solve mud_alt"] = lambda o, ax: (o.solve("mud_alt"), o.up_cov)
        c["solve first rows"] = lambda o, ax: o.solve("mud", output_dim=1)
        c["solve map, first rows"] = lambda o, ax: (o.solve("map", output_dim=1), o.cov_p)
        c["updated_cov"] = lambda o, ax: o.updated_cov()
        c["updated_cov of arguments"] = lambda o, ax: o.updated_cov(K["A"], K["C"], K["S"])
        for t in ("data", "reg", "bayes", "dc_term", "reg_m", "dc", "all"):
            c[f"functional {t}"] = lambda o, ax, t=t: o.compute_functionals(K["P"], t) if t not in (
                "dc_term", "reg_m", "dc", "all") or m <= 2 else 0
        c["plot_sol"] = lambda o, ax: o.plot_sol(ax=ax)
        c["plot_sol initial"] = lambda o, ax: o.plot_sol("initial", ax=ax)
        c["plot_sol with options"] = lambda o, ax: o.plot_sol("map", ax=ax, label="x", note_loc=(0.1, 0.2), pt_opts=K["pt"],
                                                              ln_opts=K["ln"], annotate_opts=K["an"])
        c["plot_contours"] = lambda o, ax: o.plot_contours(ax=ax)
        c["plot_contours with options"] = lambda o, ax: o.plot_contours(
            ref=K["ref"], subset=K["sub"], ax=ax, annotate=True, plot_opts=K["po"], annotate_opts=K["an"])
        c["plot_contours annotated"] = lambda o, ax: o.plot_contours(ax=ax, annotate=True)
        if m <= 2:
            c["plot_fun_contours"] = lambda o, ax: o.plot_fun_contours(ax=ax, N=5)
        c["plot_fun_contours of mesh"] = lambda o, ax: o.plot_fun_contours(K["mesh"], "bayes", ax=ax, N=6, levels=4)
        self.calls = c
        self.returns_ax = set()


class Iterative:
    inputs = ("A", "b", "y", "mu_i", "cov", "data_cov", "solution_chains")

    def __init__(self, case):
        self.args = lin_args(case, IterativeLinearProblem)
        self.dists = {}
        I = IterativeLinearProblem(**self.args)  # noqa: E741
        self.obj = I
        self.first = [I.solve(num_epochs=1 + case["q"] % 2), I.solve()]
        r = rng(case, 5)
        self.kw = dict(ref=r.standard_normal((2, 1)), flat=r.standard_normal(2), po={"color": "m"}, an={"fontsize": 7})
        K = self.kw
        self.calls = {
            "get_errors": lambda o, ax: o.get_errors(K["ref"]),
            "get_errors flat": lambda o, ax: o.get_errors(K["flat"]),
            "plot_chain": lambda o, ax: o.plot_chain(K["ref"], ax=ax),
            "plot_chain red": lambda o, ax: o.plot_chain(K["ref"], ax=ax, color="r", s=5),
            "plot_chain with options": lambda o, ax: o.plot_chain(K["flat"], ax=ax, annotate=True, plot_opts=K["po"],
                                                                  annotate_opts=K["an"]),
            "plot_chain_error": lambda o, ax: o.plot_chain_error(K["ref"], ax=ax),
            "plot_chain_error with options": lambda o, ax: o.plot_chain_error(K["flat"], ax=ax, color="m", label="e"),
        }
        self.returns_ax = set()


class Space:
    inputs = ("lam", "data", "domain", "measurements", "true_vals", "lam_ref", "sample_dist", "sensors", "times", "std_dev")

    def __init__(self, case):
        r = rng(case, 3)
        n, S, T = case["n"] + 8, 4 + case["p"], 1 + case["q"] % 3
        lam = r.standard_normal((n, 2))
        df = dict(lam=lam, data=r.standard_normal((n, S, T) if case["flag"] else (n, S * T)), sensors=r.standard_normal((S, 2)),
                  times=np.cumsum(r.uniform(0.1, 1, T)), measurements=r.standard_normal(S * T), std_dev=0.3,
                  true_vals=r.standard_normal(S * T), domain=box(lam, 0.1), lam_ref=lam[0].copy())
        self.args = df
        self.dists = {}
        self.obj = SpatioTemporalProblem(df)
        i = [int(x) for x in r.permutation(n)[: n - 2]]
        s = r.random(S) < 0.7
        s[:3] = True
        t = slice(0, max(1, T - 1))
        one = np.sort(r.permutation(S)[:3])
        self.kw = dict(i=i, s=s, dw=r.uniform(0.2, 2, S * T), sw=r.uniform(0.2, 2, n), sw_i=r.uniform(0.2, 2, len(i)),
                       cv=r.standard_normal(S), c=r.standard_normal(S), mk={"s": 3, "color": "m"}, sk={"color": "c"}, one=one,
                       lv=[-0.5, 0.0, 0.5])
        K = self.kw
        self.calls = {
            "sample_data": lambda o, ax: o.sample_data(),
            "sample_data selected": lambda o, ax: o.sample_data(K["i"], t, K["s"]),
            "closest to measurements": lambda o, ax: o.get_closest_to_measurements(),
            "closest to measurements, selected": lambda o, ax: o.get_closest_to_measurements(K["i"], t, K["s"]),
            "closest to true values": lambda o, ax: o.get_closest_to_true_vals(),
            "validate": lambda o, ax: o.validate(check_true=True),
            "sizes": lambda o, ax: (o.n_samples, o.n_sensors, o.n_ts, o.n_params),
            "mud_problem wme": lambda o, ax: o.mud_problem("wme"),
            "mud_problem wme weighted": lambda o, ax: o.mud_problem("wme", data_weights=K["dw"], sample_weights=K["sw"]),
            "mud_problem wme selected": lambda o, ax: o.mud_problem("wme", sample_weights=K["sw_i"], samples_mask=K["i"],
                                                                    times_mask=t, sensors_mask=K["s"]),
            "mud_problem pca": lambda o, ax: (o.mud_problem(num_components=1), np.abs(o.pca["vecs"])),
            "mud_problem svd": lambda o, ax: (o.mud_problem("svd", num_components=2), o.svd["singular_values"]),
            "sensor_scatter_plot": lambda o, ax: o.sensor_scatter_plot(ax=ax),
            "sensor_scatter_plot with options": lambda o, ax: o.sensor_scatter_plot(ax=ax, mask=K["one"], s=3),
            "sensor_scatter_plot with colours": lambda o, ax: o.sensor_scatter_plot(ax=ax, c=K["c"], colorbar=True),
            "plot_ts": lambda o, ax: o.plot_ts(ax=ax),
            "plot_ts with options": lambda o, ax: o.plot_ts(ax=ax, samples=K["i"], times=t, sensor_idx=1, max_plot=3,
                                                            meas_kwargs=K["mk"], samples_kwargs=K["sk"]),
        }
        if T == 1:
            self.calls["sensor_contour_plot"] = lambda o, ax: o.sensor_contour_plot(idx=1, ax=ax, levels=K["lv"])
            self.calls["sensor_contour_plot of values"] = lambda o, ax: o.sensor_contour_plot(c_vals=K["cv"], ax=ax, fill=False,
                                                                                              colorbar=False)
        self.returns_ax = {c for c in self.calls if "plot" in c}


KINDS = {"density": Density, "bayes": Bayes, "linear": Linear, "iterative": Iterative, "space": Space}


def stage():
    """Axes to draw on, and the current ones which must stay empty."""
    plt.close("all")
    f1, ax = plt.subplots()
    f2, other = plt.subplots()
    return ax, other, (f1, f2)


def blank(ax):
    return not ax.lines and not ax.collections and not ax.texts and not ax.get_title() and not ax.get_xlabel() and \
        ax.get_xlim() == (0.0, 1.0) and ax.get_ylim() == (0.0, 1.0)


def perform(P, obj, name, what):
    ax, other, (f1, f2) = stage()
    rc = dict(plt.rcParams)
    np.random.seed(77)
    with sut(f"{name} ({what})"):
        res = P.calls[name](obj, ax)
    if name in P.returns_ax:
        need(res is ax, f"{name} returned other axes than it was passed")
        res = None
    out = canon(res)
    if "plot" in name:
        out = [out, drawing(ax)]
        need(any(d[0] != "axes" for d in out[1]), f"{name} drew nothing on the axes passed in")
    else:
        need(blank(ax), f"{name} drew something")
    need(blank(other) and f2.axes == [other], f"{name} drew on the current axes, not on those passed in")
    need(set(plt.get_fignums()) == {f1.number, f2.number}, f"{name} opened or closed figures")
    need(dict(plt.rcParams) == rc, f"{name} changed the settings of matplotlib")
    return out, res


@SUITE.check(
    st.fixed_dictionaries(dict(kind=st.sampled_from(sorted(KINDS)), seed=seeds, n=upto(2, 12, 40, 150, 400), p=st.integers(0, 2),
                               q=st.integers(0, 2), map=st.just("linear"), w=st.sampled_from(WKINDS), flag=st.booleans(),
                               own=st.booleans(), log=st.booleans(), ops=st.lists(st.integers(0, 999), min_size=2, max_size=6),
                               again=st.integers(0, 5))),
    n=900, rule="at least three calls, two of them different")
def any_order(case):
    """Every call gives on a used problem what it gave on a fresh one."""
    P = KINDS[case["kind"]](case)
    names = sorted(P.calls)
    ops = [names[i % len(names)] for i in case["ops"]]
    ops.insert(len(ops) if case["again"] > len(ops) else case["again"], ops[0])
    F = Frozen(args=P.args, kw=P.kw)
    snap = {f: copy.deepcopy(getattr(P.obj, f)) for f in P.inputs}
    moments = {k: (d.mean(), d.std()) for k, d in P.dists.items()}
    ref = {}
    for name in sorted(set(ops)):
        ref[name] = perform(P, copy.deepcopy(P.obj), name, "on a fresh problem")[0]
    kept = []
    for j, name in enumerate(ops):
        got, raw = perform(P, P.obj, name, f"after {ops[:j]}")
        match(got, ref[name], f"{case['kind']}: {name} after {ops[:j]}")
        for nm, old, snap_old in kept:
            match(canon(old), snap_old, f"{case['kind']}: what {nm} had returned, after {name}")
        if isinstance(raw, (np.ndarray, tuple, list)) and not isinstance(raw, DensityProblem):
            kept.append((name, raw, canon(raw)))
    F.verify(f"{case['kind']}: {ops}")
    for f, v in snap.items():
        match(canon(getattr(P.obj, f)), canon(v), f"{case['kind']}: {f} of the problem after {ops}")
    for k, d in P.dists.items():
        match(list(moments[k]), [d.mean(), d.std()], f"distribution {k}")
    return len(set(ops)) > 1, case["kind"]


# --------------------------------------------------------------------------
# stand-alone functions and constructors


def functions(case):
    r = rng(case)
    m, n, k = case["m"], case["n"], case["k"]
    how = case["how"]
    L = lambda x: layout(np.asarray(x, float), how)  # noqa: E731
    A, sq = L(r.standard_normal((m, n))), L(r.standard_normal((n, n)))
    b, y, mean = L(r.standard_normal(m)), L(r.standard_normal(m)), L(r.standard_normal(n))
    C, S = L(cov(r, n, "full")), L(cov(r, m, "full"))
    N = k + 12
    lam, q = L(r.standard_normal((N, n))), L(r.standard_normal((N, m)))
    dom = L(box(lam, 0.2))
    X = L(r.standard_normal((k, n)))
    D = L(r.standard_normal((k + 3, m + 1)))
    w = L(r.uniform(0.2, 2, N))
    ops, data = [r.standard_normal((3, n)), r.standard_normal((1, n))], [r.standard_normal(3), r.standard_normal(4).tolist()]
    meas = L(r.standard_normal(m))
    st_df = dict(lam=lam, data=q, sensors=L(r.standard_normal((m, 2))), times=np.array([0.0]), measurements=meas,
                 true_vals=meas, std_dev=0.2, domain=dom, lam_ref=np.array(lam[0]), sample_dist="u")
    loose = dict(st_df, lam=lam.tolist(), domain=dom.ravel().tolist(), measurements=meas.tolist(),
                 true_vals=meas.reshape(1, -1), lam_ref=lam[0].tolist(), data=q.reshape(q.shape[0], m, 1))
    split = [np.arange(m), np.arange(1)]
    lin = dict(A=A, b=b, y=y)
    col = dict(A=A, b=b.reshape(-1, 1), y=y.reshape(-1, 1))
    wide = m <= n
    T = {
        "wme": (lambda a: funs.wme(a["q"], a["meas"], 0.3), dict(q=q, meas=meas)),
        "wme list": (lambda a: funs.wme(a["q"], a["meas"]), dict(q=q, meas=meas.tolist())),
        "updated_cov": (lambda a: funs.updated_cov(a["A"], a["C"], a["S"]), dict(A=A, C=C, S=S)),
        "mud_sol": (lambda a: funs.mud_sol(a["A"], a["b"], a["y"], a["mean"], a["C"], a["S"]), dict(lin, mean=mean, C=C, S=S)),
        "mud_sol_with_cov": (lambda a: funs.mud_sol_with_cov(a["A"], a["b"], a["y"], a["mean"], a["C"], a["S"]),
                             dict(lin, mean=mean, C=C, S=S)),
        "map_sol": (lambda a: funs.map_sol(a["A"], a["b"], a["y"], a["mean"], a["C"], a["S"], 0.5), dict(lin, mean=mean, C=C, S=S)),
        "map_sol_with_cov": (lambda a: funs.map_sol_with_cov(a["A"], a["b"], a["y"], a["mean"], a["C"], a["S"], 2.0),
                             dict(lin, mean=mean, C=C, S=S)),
        "iter_lin_solve": (lambda a: funs.iter_lin_solve(a["A"], a["b"], a["y"], a["mean"], a["C"], a["S"], num_epochs=2,
                                                         idx_order=a["o"]), dict(col, mean=mean, C=C, S=S, o=[m - 1, 0])),
        "performEpoch": (lambda a: funs.performEpoch(a["A"], a["b"], a["y"], a["mean"], a["C"], idx=a["o"]),
                         dict(col, mean=mean.reshape(-1, 1), C=C, o=[0, m - 1])),
        "iterate": (lambda a: funs.iterate(a["A"], a["b"], a["y"], a["mean"], a["C"], num_epochs=2, idx=a["o"]),
                    dict(col, mean=mean.reshape(-1, 1), C=C, o=[0, m - 1])),
        "data_prob": (lambda a: funs.data_prob(a["lam"], a["q"], qoi_true=a["meas"], measurements=a["meas"], std_dev=0.2,
                                               domain=a["dom"], method="wme"), dict(lam=lam, q=q, meas=meas, dom=dom)),
        "map_problem": (lambda a: funs.map_problem(a["lam"], a["q"], a["meas"], a["dom"], sd=5.0).estimate(),
                        dict(lam=lam, q=q, meas=meas, dom=dom)),
        "mud_problem": (lambda a: funs.mud_problem(a["lam"], a["q"], a["meas"], a["dom"], weights=a["w"]),
                        dict(lam=lam, q=q, meas=meas, dom=dom, w=w)),
        "mud_problem split": (lambda a: funs.mud_problem(a["lam"], a["q"], a["meas"], a["dom"], split=a["split"]),
                              dict(lam=lam, q=q, meas=meas, dom=dom, split=split[: 1 + (m > 1)])),
        "transform_linear_map": (lambda a: util.transform_linear_map(a["o"], a["d"], a["s"]),
                                 dict(o=ops[0], d=data[0], s=[0.1, 0.2, 0.3])),
        "transform_linear_setup": (lambda a: util.transform_linear_setup(a["o"], a["d"], a["s"]), dict(o=ops, d=data, s=[0.1, 0.2])),
        "LinearWMEProblem": (lambda a: LinearWMEProblem(a["o"], a["d"], a["s"]).A, dict(o=ops, d=data, s=[0.1, 0.2])),
        "null_space": (lambda a: np.abs(util.null_space(a["A"]) @ util.null_space(a["A"]).T), dict(A=A)),
        "add_noise": (lambda a: util.add_noise(a["D"], 0.3, seed=4), dict(D=D)),
        "rank_decomposition": (lambda a: util.rank_decomposition(a["A"]), dict(A=A)),
        "fit_domain": (lambda a: util.fit_domain(a["D"], pad_ratio=0.4), dict(D=D)),
        "fit_domain of bounds": (lambda a: util.fit_domain(min_max_bounds=a["dom"], pad_ratio=0.4), dict(dom=dom)),
        "fit_domain of list": (lambda a: util.fit_domain(min_max_bounds=a["dom"], pad_ratio=0.4), dict(dom=dom.tolist())),
        "set_shape": (lambda a: util.set_shape(a["b"], (-1, 1)), dict(b=b)),
        "inner_product": (lambda a: norm.inner_product(a["X"], a["C"]), dict(X=L(r.standard_normal((n, k))), C=C)),
        "norm_input": (lambda a: norm.norm_input(a["X"], a["mean"], a["C"]), dict(X=X, mean=mean.reshape(-1, 1), C=C)),
        "norm_data": (lambda a: norm.norm_data(a["A"], a["X"], a["b"], a["y"], a["S"]),
                      dict(A=A, X=X, b=b.reshape(-1, 1), y=y.reshape(1, -1), S=S)),
        "norm_predicted": (lambda a: norm.norm_predicted(a["A"], a["X"], a["mean"], a["C"]) if wide else 0,
                           dict(A=A, X=X, mean=mean.reshape(-1, 1), C=C)),
        "full_functional": (lambda a: norm.full_functional(a["A"], a["X"], a["b"], a["mean"], a["C"], a["y"], a["S"]) if wide else 0,
                            dict(A=A, X=X, b=b.reshape(-1, 1), mean=mean.reshape(-1, 1), C=C, y=y.reshape(1, -1), S=S)),
        "pca": (lambda a: np.abs(preprocessing.pca(a["D"], n_components=1)[1]), dict(D=D)),
        "svd": (lambda a: preprocessing.svd(a["D"], full_matrices=False)[1], dict(D=D)),
        "build_nd_mesh_grid": (lambda a: mplot.build_nd_mesh_grid(a["dom"], aff=4), dict(dom=dom)),
        "load": (lambda a: [np.array(v) for v in SpatioTemporalProblem(a["df"]).sample_data()], dict(df=st_df)),
        "load returns": (lambda a: sorted(SpatioTemporalProblem().load(a["df"], lam="lam")), dict(df=st_df)),
        "load of loose forms": (lambda a: [np.array(v) for v in SpatioTemporalProblem(a["df"]).sample_data()], dict(df=loose)),
        "measurements_from_reference": (lambda a: from_reference(a), dict(df=st_df, ref=L(r.standard_normal(m)))),
        "set_weights": (lambda a: set_w(a), dict(lam=lam, q=q, dom=dom, w=L(r.uniform(0.2, 2, (2, N))))),
        "set_predicted": (lambda a: set_pr(a), dict(lam=lam, q=q, w=w)),
        "square": (lambda a: LinearGaussianProblem(a["Q"]).solve("all"), dict(Q=sq)),
    }
    return T


def from_reference(a):
    P = SpatioTemporalProblem(a["df"])
    P.measurements_from_reference(ref=a["ref"], std_dev=0.4, seed=3)
    return P.measurements


def set_w(a):
    D = DensityProblem(a["lam"], a["q"], a["dom"])
    D.set_weights(a["w"], normalize=True)
    return D


def set_pr(a):
    D = DensityProblem(a["lam"], a["q"])
    D.set_initial()
    D.set_predicted(weights=a["w"], bw_method=0.6)
    return D


FUNCTIONS = sorted(functions(dict(seed=0, m=2, n=2, k=2, how="array")))


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, f=st.sampled_from(FUNCTIONS), m=upto(1, 3, 5), n=upto(1, 3, 5),
                               k=upto(1, 4, 50, 300, 1200), how=layouts)),
    n=2500)
def function_arguments(case):
    """Arguments survive the call and the answer is the same a second time."""
    f, args = functions(case)[case["f"]]
    F = Frozen(args=args)
    out = []
    for j in range(2):
        np.random.seed(5)
        with sut(case["f"]):
            res = f(args)
        F.verify(case["f"])
        out.append(canon(res))
    match(out[1], out[0], f"second answer of {case['f']}")
    match(canon(res), out[1], "answer")
    return True, case["f"]


def plots(case):
    r = rng(case)
    m, k = case["m"], case["k"]
    P = r.standard_normal((3, 2))
    A = r.standard_normal((m, 2))
    d = dist_for({"seed": case["seed"]}, "norm", P, 2).scipy()
    return {
        "plot_dist": (lambda a, ax: mplot.plot_dist(d, a["dom"], ax=ax, idx=1, source="pdf", aff=6, **a["o"]),
                      dict(dom=box(P, 0.2), o={"color": "m"}), True),
        "plot_dist of list": (lambda a, ax: mplot.plot_dist(d, a["dom"], ax=ax, source="pdf", aff=6),
                              dict(dom=box(P, 0.2).tolist()), True),
        "plot_vert_line": (lambda a, ax: mplot.plot_vert_line(ax, a["x"][0], **a["o"]), dict(x=P[0], o={"color": "m"}), True),
        "plot_1D_vecs": (lambda a, ax: mplot.plot_1D_vecs(a["v"], markers=a["m"], ax=ax, **a["o"]),
                         dict(v=r.standard_normal((k, 5)), m=["o", "d", "s", "^"], o={"s": 4}), True),
        "plot_contours": (lambda a, ax: mplot.plot_contours(a["A"], a["ref"], subset=a["sub"], **a["o"]),
                          dict(A=A, ref=P[0], sub=[0, m - 1], o={"color": "m"}), False),
        "plotChain": (lambda a, ax: mplot.plotChain(a["c"], a["ref"]), dict(c=[p.reshape(-1, 1) for p in P], ref=P[0]), False),
        "save_figure": (lambda a, ax: mplot.save_figure("f.png", a["d"], close_fig=False, **a["o"]),
                        dict(d=os.getcwd(), o={"dpi": 10}), False),
    }


PLOTS = sorted(plots(dict(seed=0, m=2, k=2)))


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, f=st.sampled_from(PLOTS), m=st.integers(1, 3), k=st.integers(1, 4))),
    n=300)
def plot_arguments(case):
    f, args, given = plots(case)[case["f"]]
    F = Frozen(args=args)
    out = []
    for j in range(2):
        ax, other, (f1, f2) = stage()
        if not given:
            plt.figure(f1.number)
        with sut(case["f"]):
            res = f(args, ax)
        need(res is None or res is ax, f"{case['f']} returned other axes")
        F.verify(case["f"])
        out.append(drawing(ax))
        need(blank(other), f"{case['f']} drew on other axes")
    match(out[1], out[0], f"second drawing of {case['f']}")
    return True, case["f"]
