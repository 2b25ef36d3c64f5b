"""P22: example runs from Python and from the command line."""
import json
import os
import pickle
import random
import re
import struct

import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st
from matplotlib import pyplot as plt
from mud import plot as mplot
from mud.base import SpatioTemporalProblem
from mud.cli import cli
from mud.examples import adcirc, comparison, linear, poisson, simple

from ..core import *  # noqa: F403
from ..models import KDE, norm_pdf

SUITE = Suite("P22")
DPI = st.sampled_from([8, 10, 16])


def folder(name="figs"):
    """An empty directory of this case (cases run in a scratch directory)."""
    d = os.path.abspath(name)
    if os.path.isdir(d):
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
    else:
        os.mkdir(d)
    return d


def png(path):
    with open(path, "rb") as fp:
        head = fp.read(24)
    need(head[:8] == b"\x89PNG\r\n\x1a\n", f"{os.path.basename(path)} is not an image")
    return struct.unpack(">II", head[16:24])


def written(d, want, what):
    """Exactly the figures wanted, each an image."""
    got = sorted(os.listdir(d))
    need(got == sorted(want), f"{what}: wrote {got}, expected {sorted(want)}")
    return {f: png(os.path.join(d, f)) for f in got}


def tables(text):
    """Rows of the tables printed, as lists of texts."""
    return [[c.strip() for c in ln.strip().strip("|").split("|")] for ln in text.splitlines() if ln.strip().startswith("|")]


def numbers_in(text):
    return [float(x) for x in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?", text)]


def call(args, what, code=0):
    res = CliRunner().invoke(cli, ["examples"] + [str(a) for a in args])
    if res.exit_code != code:
        raise Violation(f"{what}: exit code {res.exit_code}: {res.exception!r}")
    return res.output


# --------------------------------------------------------------------------
# the figure writer


@SUITE.check(
    st.fixed_dictionaries(dict(
        seed=seeds, k=st.integers(1, 4), cur=st.integers(0, 3), close=st.sampled_from([None, True, False]),
        path=st.sampled_from(["str", "path", "default", "nested"]), ext=st.sampled_from([".png", "", ".v2.png", "_0.5_name.png", ".PNG", ".v1.2.PNG"]),
        dpi=st.sampled_from([None, 10, 20, 37]), face=st.booleans(), w=st.integers(1, 4), h=st.integers(1, 3),
        again=st.booleans(), sub=st.booleans())),
    n=400, rule="several figures are open")
def save_figure(case):
    """The current figure is written to the directory, nothing else changes."""
    from pathlib import Path

    figs = []
    for i in range(case["k"]):
        f = plt.figure(figsize=(case["w"] + i, case["h"]), facecolor=[0, 0.2 * i, 0])
        figs.append(f)
    cur = case["cur"] % case["k"]
    plt.figure(figs[cur].number)
    d = folder("figures" if case["path"] == "default" else "out")
    if case["path"] == "nested":
        d = os.path.join(d, "deep")
        os.path.isdir(d) or os.mkdir(d)
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
    kw = {}
    if case["path"] != "default":
        kw["save_path"] = Path(d) if case["path"] == "path" else d
    if case["close"] is not None:
        kw["close_fig"] = case["close"]
    if case["dpi"] is not None:
        kw["dpi"] = case["dpi"]
    kw["facecolor"] = (1.0, 0.0, 1.0) if case["face"] else figs[cur].get_facecolor()
    if case["sub"] and case["path"] not in ("nested", "default"):  # a folder in the name
        kw["save_path"] = os.path.dirname(d) if case["path"] != "path" else Path(d).parent
    name = "fig" + case["ext"]
    fname = "fig" + (case["ext"] or ".png")
    if case["sub"] and case["path"] not in ("nested", "default"):
        name = os.path.join(os.path.basename(d), name)
    if case["again"]:
        with open(os.path.join(d, fname), "w") as fp:
            fp.write("older contents")
    F = Frozen(kw=kw)
    with sut("save_figure"):
        mplot.save_figure(name, **kw)
    F.verify("save_figure")
    dpi = case["dpi"] or 100
    size = png(os.path.join(d, fname)) if os.path.exists(os.path.join(d, fname)) else None
    need(sorted(os.listdir(d)) == [fname], f"wrote {os.listdir(d)}, expected {fname}")
    if case["dpi"] or plt.rcParams["savefig.dpi"] == 100:
        need(abs(size[0] - (case["w"] + cur) * dpi) <= 1 and abs(size[1] - case["h"] * dpi) <= 1,
             f"the image has {size} pixels, figure {cur} at {dpi} dpi")
    img = plt.imread(os.path.join(d, fname))[..., :3]
    want = np.array(kw["facecolor"][:3])
    need(np.abs(img.reshape(-1, 3) - want).max() < 0.01, "the image does not show the current figure as asked")
    closed = case["close"] is None or case["close"]
    left = [f for i, f in enumerate(figs) if not (closed and i == cur)]
    need(set(plt.get_fignums()) == {f.number for f in left}, f"open figures {plt.get_fignums()}, expected"
         f" {[f.number for f in left]}")
    if case["path"] == "nested":
        os.unlink(os.path.join(d, fname))
        os.rmdir(d)
    return case["k"] > 1, case["path"]


# --------------------------------------------------------------------------
# polynomial comparison


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, p=st.sampled_from([1, 2, 3, 5]), n=st.integers(40, 120), mu=st.floats(0.1, 0.6),
                               sigma=st.sampled_from([0.1, 0.2, 0.5]), Ns=st.lists(st.sampled_from([1, 2, 5, 8, 20]), min_size=1,
                                                                                   max_size=2, unique=True),
                               dpi=DPI, save=st.booleans(), close=st.booleans(), via=st.booleans())),
    n=40, thorough=500, rule="figures are saved")
def comparing(case):
    """Both estimates are those of the data drawn."""
    np.random.seed(case["seed"])
    drawn = [simple.polynomial_1D_data(p=case["p"], N=N, domain=[[-1, 1]], mu=case["mu"], sigma=case["sigma"],
                                       num_samples=case["n"]) for N in case["Ns"]]
    kw = dict(p=case["p"], num_samples=case["n"], mu=case["mu"], sigma=case["sigma"], N_vals=case["Ns"])
    d = folder()
    np.random.seed(case["seed"])
    with sut("run_comparison_example"):
        res = comparison.run_comparison_example(save_path=d if case["save"] else None, dpi=case["dpi"],
                                                close_fig=case["close"], **kw)
    names = [f"bip-vs-sip{x}-{N}.png" for x in ("", "-pf") for N in case["Ns"]] if case["save"] else []
    for f, size in written(d, names, "run_comparison_example").items():
        need(abs(size[0] - 6 * case["dpi"]) <= 1 and abs(size[1] - 6 * case["dpi"]) <= 1, f"{f}: {size} pixels at {case['dpi']} dpi")
    need(len(res) == len(case["Ns"]), f"{len(res)} results for {case['Ns']}")
    shut = 2 * len(case["Ns"]) if case["save"] and case["close"] else 0
    need(len(plt.get_fignums()) == 2 * len(case["Ns"]) - shut, f"{len(plt.get_fignums())} figures open")
    for (D, B, ax), (lam, q, data), N in zip(res, drawn, case["Ns"]):
        need(D.X.shape == (case["n"], 1) and B.X.shape == (case["n"], 1), f"N={N}: {D.X.shape} samples")
        vclose(D.X, lam, f"N={N}: samples of the first problem", 1e-12)
        vclose(B.X, lam, f"N={N}: samples of the second problem", 1e-12)
        vclose(D.y, D.X ** case["p"], f"N={N}: outputs", 1e-10)
        vclose(B.y, D.X ** case["p"], f"N={N}: outputs", 1e-10)
        for P in (D, B):
            same(np.array(P.domain, float).reshape(1, 2), np.array([[-1.0, 1.0]]), f"N={N}: domain")
        y = q.ravel()
        r = norm_pdf(y, np.mean(data), case["sigma"]) / KDE(y[None, :])(y[None, :])
        maximises(r, is_row(D.X, D.estimate(), "MUD"), f"N={N}: MUD estimate", 1e-6)
        ll = -sum((y - x) ** 2 for x in data)
        need(len(data) == N, "data")
        top = ll - ll.max()
        i = is_row(B.X, B.estimate(), "MAP")
        need(top[i].max() > -1e-6 * (1 + abs(ll.max())), f"N={N}: MAP estimate {D.X[i[0]]}, the likelihood is larger at {D.X[np.argmax(ll)]}")
        text = [t.get_text() for t in ax.texts]
        need((f"N = {N}" in text) == (N != 1), f"N={N}: the figure says {text}")
    plt.close("all")
    if case["via"]:
        args = ["--seed", case["seed"], "--save-path", folder("cli"), "--dpi", case["dpi"], "comparison", "-p", case["p"], "-n",
                case["n"], "-m", case["mu"], "-s", case["sigma"]]
        for N in case["Ns"]:
            args += ["--n-vals", N]
        call(args, "comparison")
        written(os.path.abspath("cli"), [f"bip-vs-sip{x}-{N}.png" for x in ("", "-pf") for N in case["Ns"]], "comparison")
        need(not plt.get_fignums(), "the command leaves figures open")
    return case["save"]


# --------------------------------------------------------------------------
# contours

FIGS = {"data_mismatch": "data_mismatch_contour.png", "tikhonov": "tikhonov_contour.png", "consistent": "consistent_contour.png",
        "map": "classical_solution.png", "mud": "consistent_solution.png", "comparison": "map_compare_contour.png"}
OVER = ("A", "b", "y", "mean_i", "cov_i", "cov_o", "alpha")


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, figs=st.lists(st.sampled_from(sorted(FIGS) + ["all"]), unique=True, max_size=2),
                               none=st.booleans(), over=st.lists(st.sampled_from(OVER), unique=True), dpi=DPI,
                               save=st.sampled_from([True, True, False]), via=st.sampled_from(["run", "run", "cli", "file"]))),
    n=48, thorough=600, rule="at least one part of the problem is given")
def contours(case):
    r = rng(case)
    full = dict(A=r.uniform(0.3, 2, (1, 2)), b=r.standard_normal((1, 1)), y=r.standard_normal((1, 1)),
                mean_i=r.uniform(0, 1, (2, 1)), cov_i=spd(r, 2, 0.8), cov_o=r.uniform(0.2, 2, (1, 1)), alpha=float(r.uniform(0.3, 3)))
    given = {k: full[k] for k in case["over"]}
    if case["via"] == "cli":
        given = {}
    P = dict(A=np.array([[1.0, 1.0]]), b=np.zeros((1, 1)), y=np.ones((1, 1)), mean_i=np.full((2, 1), 0.25),
             cov_i=np.array([[1, -0.25], [-0.25, 0.5]]), cov_o=np.ones((1, 1)), alpha=1.0)
    P.update(given)
    figs = case["figs"] or ["all"]
    want = sorted(FIGS.values()) if "all" in figs else [FIGS[f] for f in figs]
    d = folder()
    if case["via"] == "run":
        F = Frozen(given=given)
        with sut("run_contours"):
            L = linear.run_contours(None if case["none"] and figs == ["all"] else figs, save_path=d if case["save"] else None,
                                    dpi=case["dpi"], **given)
        F.verify("run_contours")
        sizes = written(d, want if case["save"] else [], "run_contours")
        for f, size in sizes.items():
            need(min(abs(size[0] - k * case["dpi"]) for k in (6, 8)) <= 1, f"{f}: {size} pixels at {case['dpi']} dpi")
        for k in ("A", "b", "y", "mean_i", "cov_i", "cov_o"):
            vclose(getattr(L, k), P[k] * (P["alpha"] if False else 1), f"{k} of the problem", 1e-12)
        C, A, S = P["cov_i"] * P["alpha"], P["A"], P["cov_o"]
        z = P["y"] - P["b"] - A @ P["mean_i"]
        with sut("solve"):
            mud, mp, ls = L.solve("mud"), L.solve("map"), L.solve("ls")
        vclose(np.ravel(mud), (P["mean_i"] + C @ A.T @ z / (A @ C @ A.T)).ravel(), "MUD point", 1e-8)
        vclose(np.ravel(mp), (P["mean_i"] + C @ A.T @ z / (A @ C @ A.T + S)).ravel(), "MAP point", 1e-8)
        vclose(np.ravel(ls), (np.linalg.pinv(A) @ (P["y"] - P["b"])).ravel(), "least-squares point", 1e-8)
    else:
        args = ["--save-path", d, "--dpi", case["dpi"], "contours"]
        if case["via"] == "file":
            with open("prob.json", "w") as fp:
                json.dump({k: np.asarray(v).tolist() for k, v in given.items()}, fp)
            args += ["-f", os.path.abspath("prob.json")]
        for f in case["figs"]:
            args += ["-p", f]
        call(args, "contours")
        written(d, want, "contours")
    return bool(given), case["via"]


# --------------------------------------------------------------------------
# weighted mean error maps, high dimensions


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, m=st.integers(1, 4), d=st.integers(0, 6), sigma=st.sampled_from([0.01, 0.1, 0.5]),
                               Ns=st.lists(st.sampled_from([1, 2, 5, 10, 64, 300]), min_size=1, max_size=5, unique=True), dpi=DPI,
                               save=st.booleans(), close=st.booleans(), via=st.booleans())),
    n=80, thorough=1200, rule="more than one amount of data")
def wme_spectra(case):
    """Spectra of the updated covariances for each amount of data."""
    m, n, Ns = case["m"], case["m"] + case["d"], case["Ns"]
    kw = dict(dim_input=n, dim_output=m, sigma=case["sigma"], Ns=Ns, seed=case["seed"])
    d = folder()
    with sut("run_wme_covariance"):
        L, ax = linear.run_wme_covariance(save_path=d if case["save"] else None, dpi=case["dpi"], close_fig=case["close"], **kw)
    size = written(d, ["lin-meas-cov-sd-convergence.png"] if case["save"] else [], "run_wme_covariance")
    for s in size.values():
        need(abs(s[0] - 10 * case["dpi"]) <= 1 and abs(s[1] - 5 * case["dpi"]) <= 1, f"{s} pixels at {case['dpi']} dpi")
    need(len(plt.get_fignums()) == (0 if case["save"] and case["close"] else 1), "open figures")
    A, C = np.array(L.A, float), np.array(L.cov_i, float)
    need(A.shape == (m, n) and C.shape == (n, n), f"map {A.shape}, initial covariance {C.shape} for {m} outputs, {n} inputs")
    lines = [np.array(ln.get_ydata(), float) for ln in ax.get_lines()]
    need(len(lines) == len(Ns), f"{len(lines)} spectra for {Ns}")
    for N, s in zip(Ns, lines):
        G = A * np.sqrt(N / Ns[-1])
        P = G @ C @ G.T
        K = C @ G.T @ np.linalg.inv(P)
        U = C - K @ (P - np.eye(m)) @ K.T
        want = np.linalg.svd(U, compute_uv=False)
        rt = 1e-7 + 1e-12 * np.linalg.cond(P) * np.linalg.norm(P)
        if rt < 1e-2:
            vclose(s, want, f"spectrum for N={N}", rt)
    with sut("run_wme_covariance"):
        L2, ax2 = linear.run_wme_covariance(**kw)
        L3, _ = linear.run_wme_covariance(**{**kw, "sigma": case["sigma"] * 3})
    for a in ("A", "b", "y", "mean_i", "cov_i", "cov_o"):
        same(getattr(L2, a), getattr(L, a), f"{a} with the same seed")
    for a, b in zip(lines, ax2.get_lines()):
        same(np.array(b.get_ydata(), float), a, "spectrum with the same seed")
    vclose(np.array(L3.A) * 3, A, "map with three times the noise", 1e-10)
    if case["via"]:
        plt.close("all")
        args = ["--seed", case["seed"], "--save-path", folder("cli"), "--dpi", case["dpi"], "wme-covariance", "-i", n, "-o", m, "-s",
                case["sigma"]]
        for N in Ns:
            args += ["-n", N]
        call(args, "wme-covariance")
        written(os.path.abspath("cli"), ["lin-meas-cov-sd-convergence.png"], "wme-covariance")
    return len(Ns) > 1


@SUITE.finding("high-dim-rows")
def high_dim_rows():
    try:
        de, re_ = linear.run_high_dim_linear(dim_input=2, dim_output=3)
    except IndexError:
        return "run_high_dim_linear(dim_input=2, dim_output=3) raises IndexError: a map of 3 rows has no rank above 2"
    finally:
        plt.close("all")
    need(len(de) == 3 and len(re_) == 3, "run_high_dim_linear(dim_input=2, dim_output=3): number of results")
    return None


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, m=st.integers(1, 7), d=st.integers(0, 5), dpi=DPI, save=st.booleans(), close=st.booleans(),
                               via=st.booleans())),
    n=60, thorough=900, rule="every case")
def high_dimensions(case):
    """Errors of the three estimates for the first rows and for each rank."""
    m, n = case["m"], case["m"] + case["d"]
    ref, L = linear.random_linear_problem(dim_input=n, dim_output=m, seed=case["seed"])
    A, b, C, x = np.array(L.A), np.array(L.b).reshape(-1, 1), np.array(L.cov_i), np.array(ref).reshape(-1, 1)
    mean, y = np.array(L.mean_i).reshape(-1, 1), np.array(L.y).reshape(-1, 1)
    kw = dict(dim_input=n, dim_output=m, seed=case["seed"], close_fig=case["close"])
    d = folder()
    with sut("run_high_dim_linear"):
        dims, ranks = linear.run_high_dim_linear(save_path=d if case["save"] else None, dpi=case["dpi"], **kw)
    size = written(d, ["lin-dim-cov-convergence.png", "lin-rank-cov-convergence.png"] if case["save"] else [], "run_high_dim_linear")
    for f, s in size.items():
        need(abs(s[0] - 10 * case["dpi"]) <= 1, f"{f}: {s} pixels at {case['dpi']} dpi")
    need(len(plt.get_fignums()) == (0 if case["save"] and case["close"] else 2), "open figures")
    U, s, Vt = np.linalg.svd(A)
    hard = False
    for i, al in enumerate([1.0, 0.1, 0.001]):
        for k in range(1, m + 1):
            Ar = (U[:, :k] * s[:k]) @ Vt[:k]
            for what, got, G, z in (("dimension", dims[i][k - 1], A[:k], y[:k] - b[:k]), ("rank", ranks[i][k - 1], Ar, Ar @ x)):
                e = np.linalg.norm
                Q = G @ C @ G.T
                mud = mean + C @ G.T @ np.linalg.pinv(Q, rcond=1e-11) @ (z - G @ mean)
                mp = mean + al * C @ G.T @ np.linalg.solve(al * Q + np.eye(len(G)), z - G @ mean)
                ls = np.linalg.pinv(G, rcond=1e-9) @ z
                c = np.linalg.svd(G, compute_uv=False)
                cond = c[0] / c[k - 1]
                if cond > 1e3:
                    hard = True
                    continue
                want = [e(v - x) / e(x) for v in (mud, mp, ls)]
                close(got, want, f"errors for {what} {k}, alpha={al}", 1e-6, 1e-7)
    with sut("run_high_dim_linear"):
        again = linear.run_high_dim_linear(**kw)
    for p, q in zip((dims, ranks), again):
        same(np.array(q), np.array(p), "errors with the same seed")
    if case["via"]:
        plt.close("all")
        args = ["--seed", case["seed"], "--save-path", folder("cli"), "--dpi", case["dpi"], "high-dim-linear", "-i", n, "-o", m]
        call(args, "high-dim-linear")
        written(os.path.abspath("cli"), ["lin-dim-cov-convergence.png", "lin-rank-cov-convergence.png"], "high-dim-linear")
    return True, "ill-conditioned" if hard else ""


# --------------------------------------------------------------------------
# data sets


def poisson_file(r, n, S, path="poisson.pkl"):
    """A data set of the layout the examples read."""
    lam = r.uniform(-4, 0, (n, 2))
    sens = r.uniform(0.05, 0.95, (S, 2))
    T = np.sin(3 * sens[:, 0])[:, None] * np.array([[1.0, 0.0]]) + np.cos(2 * sens[:, 1])[:, None] * np.array([[0.0, 1.0]])
    T = T * 0.3 / np.sqrt(S)  # some samples are near the truth, by the level of noise
    f = lambda v: v @ T.T + 0.05 * (v**2) @ np.abs(T.T)  # noqa: E731
    true = f(np.array([[-2.7, -0.4]])).reshape(-1, 1)
    g = np.linspace(0, 1, 4)
    mesh = np.array([[a, c] for a in g for c in g])
    ds = dict(lam=lam, data=f(lam), true_vals=true, domain=np.array([[-4.0, 0.0], [-4.0, 0.0]]), sensors=sens,
              u=(mesh, -mesh.prod(axis=1)))
    with open(path, "wb") as fp:
        pickle.dump(ds, fp)
    return ds, os.path.abspath(path)


def by_hand(ds, P, method="pca", **kw):
    """The problem solved from the fields of the data set and the
    measurements of the run."""
    Q = SpatioTemporalProblem({**{k: ds[k] for k in ("lam", "data", "domain", "sensors", "times") if k in ds},
                               "measurements": np.array(P.measurements), "std_dev": 0.05 if known("noise-level") else P.std_dev})
    D = Q.mud_problem(method=method, **kw)
    return D, D.estimate(), Q


def noise(P, ds, sigma, what):
    """The measurements scatter by the requested level around the truth."""
    z = (np.ravel(P.measurements) - np.ravel(ds["true_vals"]))
    need(z.any(), f"{what}: no noise")
    if z.size < 40:
        return
    for s in (sigma, 0.05 if known("noise-level") else sigma):
        if 0.55 * s < z.std() < 1.6 * s:
            need(np.ravel(P.std_dev).max() in (s, 0.05), f"{what}: standard deviation {P.std_dev!r} recorded")
            return
    raise Violation(f"{what}: the noise deviates by {z.std()!r}, requested {sigma!r}")


@SUITE.finding("noise-level")
def noise_level():
    r = np.random.default_rng(1)
    ds, path = poisson_file(r, 20, 500)
    P = poisson.load_poisson_prob(path, std_dev=0.4, seed=3)[1]
    ds2, path = adcirc_file(r, 20, 500)
    Q = adcirc.load_adcirc_prob(path, std_dev=0.4, seed=3)[1]
    bad = []
    for nm, X, d in (("load_poisson_prob", P, ds), ("load_adcirc_prob", Q, ds2)):
        s = (np.ravel(X.measurements) - np.ravel(d["true_vals"])).std()
        if 0.3 < s < 0.5 and np.ravel(X.std_dev).max() == 0.4:
            continue
        need(0.04 < s < 0.06, f"{nm}(std_dev=0.4): the noise deviates by {s!r}")
        bad.append(nm)
    return f"{' and '.join(bad)} ignore std_dev: the noise is always 0.05, and so is --sigma of the commands" if bad else None


@SUITE.finding("poisson-order")
def poisson_order():
    r = np.random.default_rng(1)
    ds, path = poisson_file(r, 30, 60)
    masks = []
    for k in (1, 2):
        random.seed(k)
        orig = SpatioTemporalProblem.mud_problem

        def spy(self, *a, **kw):
            masks.append([int(i) for i in kw["sensors_mask"]])
            return orig(self, *a, **kw)

        SpatioTemporalProblem.mud_problem = spy
        try:
            poisson.run_2d_poisson_sol(path, seed=5, plot_fig=["none"])
        finally:
            SpatioTemporalProblem.mud_problem = orig
        plt.close("all")
    if masks[0] == masks[1]:
        return None
    need(sorted(masks[0]) == sorted(masks[1]) == list(range(60)), "run_2d_poisson_sol: sensors used")
    return "run_2d_poisson_sol(seed=s, order='random') takes the sensors in an order the seed does not fix"


@SUITE.finding("poisson-figures")
def poisson_figures():
    r = np.random.default_rng(1)
    ds, path = poisson_file(r, 40, 60)
    got = []
    for opts in ([], ["-p", "qoi"]):
        call(["--seed", 3, "--save-path", folder("cli"), "--dpi", 8, "poisson-solve", path] + opts, "poisson-solve")
        got.append(sorted(os.listdir("cli")))
    if got == [["lam1.png", "lam2.png", "learned_qoi.png", "response_surface.png"], ["learned_qoi.png"]]:
        return None
    need(got == [[], []], f"poisson-solve wrote {got}")
    return "poisson-solve writes no figure at all, its selection of figures is wrapped into a list once more"


def order_used(ds, order):
    s = np.asarray(ds["sensors"])
    if order == "sorted":
        return sorted(range(len(s)), key=lambda i: (s[i, 0], s[i, 1]))
    return list(range(len(s)))


SIG = st.sampled_from([0.05, 0.05, 0.2])


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, n=st.integers(30, 70), S=st.integers(6, 90), order=st.sampled_from(
        ["random", "sorted", "given"]), sigma=SIG, figs=st.lists(st.sampled_from(["response", "qoi", "densities", "all", "none"]),
                                                                 max_size=2, unique=True),
        dpi=DPI, save=st.sampled_from([True, True, False]), close=st.booleans(), text=st.booleans(), cli=st.booleans())),
    n=32, thorough=500, rule="figures are selected")
def poisson_solution(case):
    r = rng(case)
    ds, path = poisson_file(r, case["n"], case["S"])
    figs = case["figs"] or ["all"]
    sel = lambda f: f in figs or "all" in figs  # noqa: E731
    files = [f + ".png" for k, fs in (("response", ["response_surface"]), ("qoi", ["learned_qoi"]), ("densities", ["lam1", "lam2"]))
             if sel(k) for f in fs]
    arg = figs[0] if case["text"] and len(figs) == 1 else figs
    d = folder()
    kw = dict(sigma=case["sigma"], seed=case["seed"] % 2**31, order=case["order"])
    with sut("run_2d_poisson_sol"):
        P, D, axes = poisson.run_2d_poisson_sol(path, plot_fig=arg, save_path=d if case["save"] else None, dpi=case["dpi"],
                                                close_fig=case["close"], **kw)
    written(d, files if case["save"] else [], "run_2d_poisson_sol")
    need(len(axes) == sum(map(sel, ("response", "qoi", "densities"))), f"{len(axes)} axes for {figs}")
    opened = sum(map(sel, ("response", "qoi"))) + 2 * sel("densities")
    need(len(plt.get_fignums()) == (0 if case["save"] and case["close"] else opened), f"{len(plt.get_fignums())} figures open")
    noise(P, ds, case["sigma"], "run_2d_poisson_sol")
    vclose(P.lam, ds["lam"], "samples", 0)
    vclose(P.data, ds["data"], "data", 0)
    hand, est, _ = by_hand(ds, P, sensors_mask=order_used(ds, case["order"]), num_components=2)
    need(D.y.shape == (case["n"], 2), f"outputs {D.y.shape}")
    with sut("estimate"):
        got = D.estimate()
    judged = agree(D, hand, got, est, "run_2d_poisson_sol")
    plt.close("all")
    with sut("run_2d_poisson_sol"):
        P2, D2, _ = poisson.run_2d_poisson_sol(path, plot_fig=["none"], **kw)
    same(P2.measurements, P.measurements, "measurements with the same seed")
    agree(D2, D, D2.estimate(), got, "run_2d_poisson_sol with the same seed")
    if case["cli"]:
        args = ["--seed", kw["seed"], "--save-path", folder("cli"), "--dpi", case["dpi"], "poisson-solve", path, "-s", case["sigma"]]
        for f in case["figs"]:
            args += ["-p", f]
        out = call(args, "poisson-solve")
        written(os.path.abspath("cli"), [] if known("poisson-figures") else files, "poisson-solve")
        if judged:
            close(numbers_in(out)[-2:], est, "estimate printed by poisson-solve", 1e-4, 1e-6)
    return figs != ["none"], case["order"]


def agree(D, hand, got, est, what):
    """Same estimate, unless two samples are equally likely up to rounding.
    The order of the sensors only permutes sums: components may change their
    sign, and outputs agree up to rounding."""
    y, h = np.abs(D.y), np.abs(hand.y)
    vclose(y, h, f"{what}: learned outputs, up to their sign", 1e-6)
    a, c = D.expected_ratio(), hand.expected_ratio()
    close(a, c, f"{what}: expected ratio", 1e-4, 1e-12)
    z = KDE(hand.y.T)
    v = norm_pdf(hand.y).prod(axis=1) / z(hand.y.T)
    i, j = is_row(D.X, got, what), is_row(hand.X, est, what)
    need(v[i].max() >= v.max() * (1 - 1e-5) or v.max() < 1e-250, f"{what}: estimate {got}, solved by hand {est}")
    return set(map(int, i)) & set(map(int, j)) != set()


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, n=st.integers(30, 70), S=st.integers(8, 60), order=st.sampled_from(
        ["random", "sorted", "given"]), Ns=st.lists(st.integers(3, 70), min_size=1, max_size=3, unique=True), sigma=SIG, dpi=DPI,
        save=st.sampled_from([True, True, False]), close=st.booleans(), cli=st.booleans(), lims=st.booleans(), notes=st.booleans())),
    n=32, thorough=500, rule="several numbers of sensors")
def poisson_trials(case):
    r = rng(case)
    ds, path = poisson_file(r, case["n"], case["S"])
    d = folder()
    kw = dict(N_vals=case["Ns"], sigma=case["sigma"], seed=case["seed"] % 2**31, order=case["order"])
    opt = {}
    if case["lims"]:
        opt = dict(ylim1=[-0.5, 2.5], ylim2=[-0.25, 4.0], xlim1=[-4.0, 0.0], xlim2=[-4.25, 0.25])
    if not case["notes"]:
        opt.update(annotate_location_1=None, annotate_location_2=None)
    used = []
    orig = SpatioTemporalProblem.mud_problem

    def spy(self, *a, **k):
        used.append([int(i) for i in np.ravel(k.get("sensors_mask", []))])
        return orig(self, *a, **k)

    SpatioTemporalProblem.mud_problem = spy
    try:
        with sut("run_2d_poisson_trials"):
            P, probs, axes = poisson.run_2d_poisson_trials(path, save_path=d if case["save"] else None, dpi=case["dpi"],
                                                           close_fig=case["close"], **kw, **opt)
    finally:
        SpatioTemporalProblem.mud_problem = orig
    written(d, [f"solution_n{N}.png" for N in case["Ns"]] if case["save"] else [], "run_2d_poisson_trials")
    need(len(plt.get_fignums()) == (0 if case["save"] and case["close"] else len(case["Ns"])), f"{len(plt.get_fignums())} figures open")
    noise(P, ds, case["sigma"], "run_2d_poisson_trials")
    need(len(probs) == len(axes) == len(case["Ns"]), f"{len(probs)} problems for {case['Ns']}")
    judged = True
    for i, N in enumerate(case["Ns"]):
        order = order_used(ds, case["order"])[:N]
        if case["order"] == "random":
            if len(used) != len(case["Ns"]):
                break
            order = used[i]
            need(len(set(order)) == len(order) == min(N, case["S"]), f"{len(order)} sensors used for N={N}")
            need(i == 0 or order[:3] == used[0][:3], "the amounts of sensors do not share their order")
        hand, est, _ = by_hand(ds, P, sensors_mask=order, num_components=2)
        judged = agree(probs[i], hand, probs[i].estimate(), est, f"run_2d_poisson_trials, N={N}") and judged
        for k in (0, 1):
            ax = axes[i][k]
            text = " ".join(t.get_text() for t in ax.texts)
            need((f"N = {N}$" in text) == case["notes"], f"N={N}: the figure says {text!r}")
            if case["lims"]:
                close(ax.get_ylim(), opt[f"ylim{k + 1}"], f"y limits of figure {k + 1}", 1e-9)
    plt.close("all")
    with sut("run_2d_poisson_trials"):
        P2, probs2, _ = poisson.run_2d_poisson_trials(path, **kw, **opt)
    same(P2.measurements, P.measurements, "measurements with the same seed")
    for a, c in zip(probs, probs2):
        same(c.y, a.y, "learned outputs with the same seed")
        same(c.estimate(), a.estimate(), "estimate with the same seed")
    if case["cli"]:
        plt.close("all")
        args = ["--seed", kw["seed"], "--save-path", folder("cli"), "--dpi", case["dpi"], "poisson-trials", path, "-s", case["sigma"]]
        for N in case["Ns"]:
            args += ["-n", N]
        out = call(args, "poisson-trials")
        need(call(args, "poisson-trials") == out, "poisson-trials prints something else for the same seed")
        written(os.path.abspath("cli"), [f"solution_n{N}.png" for N in case["Ns"]], "poisson-trials")
        rows = tables(out)[1:]
        need([int(x[0]) for x in rows] == sorted(case["Ns"]), f"table for N={[x[0] for x in rows]}")
        if case["order"] == "random":
            for x in rows:
                Q = probs[case["Ns"].index(int(x[0]))]
                close(numbers_in(x[1]), Q.estimate(), f"estimate printed for N={x[0]}", 1e-4, 1e-6)
                close(float(x[2]), Q.expected_ratio(), f"expected ratio printed for N={x[0]}", 1e-2, 0.0051)
    return len(case["Ns"]) > 1, case["order"]


# --------------------------------------------------------------------------
# ADCIRC


def adcirc_file(r, n, T, path="adcirc.pkl", d=2):
    t0 = np.datetime64("2018-01-03T00:00:00")
    times = (t0 + 30 * np.arange(T).astype("timedelta64[m]")).astype("datetime64[ns]")
    dom = np.array([[0.02, 0.12], [0.001, 0.004]])
    lam = dom[:, 0] + (dom[:, 1] - dom[:, 0]) * r.uniform(0, 1, (n, 2))
    ref = dom.mean(axis=1)
    t = np.arange(T) / 48.0
    g = 0.1 / np.sqrt(min(T, 40))
    f = lambda v: g * (12 * v[:, :1] * np.sin(7 * t) + 300 * v[:, 1:2] * np.cos(9 * t)) + 0.2 * t  # noqa: E731
    k = 9
    X, Y = np.meshgrid(np.linspace(-73, -72, 3), np.linspace(40.4, 41, 3))
    tri = np.array([[i, i + 1, i + 3] for i in (0, 1, 3, 4)] + [[i + 1, i + 4, i + 3] for i in (0, 1, 3, 4)])
    grid = dict(triangles=tri, X=X.ravel(), Y=Y.ravel(), XEL=X.ravel(), YEL=Y.ravel(), DP=r.uniform(-3, 40, k),
                wind_speed_mult_0=r.uniform(0, 1, k), other=r.uniform(5, 6, k))
    ds = dict(lam=lam, data=f(lam), true_vals=f(ref[None, :]).ravel(), lam_ref=ref, domain=dom, times=times, grid_data=grid,
              wind_speed=[times.copy(), r.uniform(0, 20, T)])
    with open(path, "wb") as fp:
        pickle.dump(ds, fp)
    return ds, os.path.abspath(path)


def window(r, ds):
    T = len(ds["times"])
    a = int(r.integers(0, T - 12))
    c = int(r.integers(a + 9, min(T, a + 60)))
    text = [str(ds["times"][i])[:19].replace("T", " ") for i in (a, c)]
    return text, list(range(a + 1, c))


@SUITE.finding("mesh-value")
def mesh_value():
    r = np.random.default_rng(1)
    ds, _ = adcirc_file(r, 20, 60)
    adcirc.tri_mesh_plot(ds["grid_data"], value="other")
    plt.gcf().canvas.draw()
    lab = plt.gcf().axes[1].get_ylim()
    plt.close("all")
    if lab[0] > 4:
        return None
    need(lab[1] <= 1.2, f"tri_mesh_plot(value='other') colours values of {lab}")
    return "tri_mesh_plot(value='other') shows wind_speed_mult_0 instead of the values asked for"


@SUITE.finding("four-windows")
def four_windows():
    r = np.random.default_rng(1)
    ds, path = adcirc_file(r, 20, 100)
    P = adcirc.load_adcirc_prob(path, seed=1)[1]
    try:
        adcirc.adcirc_ts_plot(P, time_windows=[window(r, ds)[0] for _ in range(4)], labels=None)
    except IndexError:
        return "adcirc_ts_plot(time_windows=<4 windows>) raises IndexError: it has line styles for three"
    finally:
        plt.close("all")
    return None


@SUITE.finding("qoi-file-name")
def qoi_file_name():
    r = np.random.default_rng(1)
    ds, path = adcirc_file(r, 20, 100)
    P = adcirc.load_adcirc_prob(path, seed=1)[1]
    w, idx = window(r, ds)
    d = folder("names")
    adcirc.adcirc_time_window(P, w, plot_figs=["learned_qoi"], save_path=d, dpi=8)
    plt.close("all")
    got = os.listdir(d)
    if got == [f"qoi_1_{len(idx)}.png"]:
        return None
    need(got == ["qoi_{num_components}_{ndata}.png"], f"adcirc_time_window wrote {got}")
    return "adcirc_time_window saves the learned outputs of every window as the same file 'qoi_{num_components}_{ndata}.png'"


def window_files(figs, nc, windows):
    sel = lambda f: f in figs or "all" in figs  # noqa: E731
    res = set()
    for idx in windows:
        if sel("ts-pca"):
            res.add(f"pca_vecs_{nc}_{len(idx)}.png")
        if sel("updated_dist"):
            res.add(f"updated_dist_{nc}_{len(idx)}.png")
        if sel("learned_qoi"):
            res.add("qoi_{num_components}_{ndata}.png" if known("qoi-file-name") else f"qoi_{nc}_{len(idx)}.png")
    return sorted(res)


WFIGS = st.lists(st.sampled_from(["ts-pca", "updated_dist", "learned_qoi", "all", "none"]), max_size=2, unique=True)


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, n=st.integers(30, 60), T=st.integers(40, 160), nc=st.integers(1, 2), sigma=SIG, figs=WFIGS,
                               dpi=DPI, save=st.sampled_from([True, True, False]), close=st.booleans(), title=st.booleans(),
                               method=st.sampled_from(["pca", "pca", "wme", "svd"]), ylims=st.booleans())),
    n=40, thorough=600, rule="figures are selected")
def adcirc_windows(case):
    """Each window uses the data strictly inside of it."""
    r = rng(case)
    ds, path = adcirc_file(r, case["n"], case["T"])
    seed = case["seed"] % 2**31
    with sut("load_adcirc_prob"):
        raw, P = adcirc.load_adcirc_prob(path, std_dev=case["sigma"], seed=seed)
        P2 = adcirc.load_adcirc_prob(path, std_dev=case["sigma"], seed=seed)[1]
    need(set(raw) == set(ds), "raw data")
    same(P2.measurements, P.measurements, "measurements with the same seed")
    vclose(P.lam, ds["lam"], "samples", 0)
    vclose(P.data, ds["data"], "data", 0)
    same(np.ravel(P.lam_ref), ds["lam_ref"], "reference parameters")
    noise(P, ds, case["sigma"], "load_adcirc_prob")
    w, idx = window(r, ds)
    figs = case["figs"] or ["all"]
    method, nc = case["method"], case["nc"]
    if method != "pca":
        figs = [f for f in figs if f == "updated_dist"] or ["none"]
    if method == "wme":
        nc = 1
    d = folder()
    with sut("adcirc_time_window"):
        D = adcirc.adcirc_time_window(P, tuple(w), method=method, num_components=nc, plot_figs=figs,
                                      save_path=d if case["save"] else None, dpi=case["dpi"], close_fig=case["close"],
                                      title="window" if case["title"] else None, ylims=[3.0, 4.0] if case["ylims"] else None)
    want = window_files(figs, nc, [idx])
    written(d, want if case["save"] else [], "adcirc_time_window")
    need(len(plt.get_fignums()) == (0 if case["save"] and case["close"] else len(want)), f"{len(plt.get_fignums())} figures open")
    mask = np.zeros(case["T"], bool)
    mask[idx] = True
    hand, est, Q = by_hand({**ds, "sensors": np.array([[0, 0]])}, P, method=method, num_components=nc, times_mask=mask)
    need(D.y.shape == hand.y.shape, f"outputs {D.y.shape}")
    agree(D, hand, D.estimate(), est, "adcirc_time_window")
    if method == "pca":
        vclose(np.abs(P.pca["vecs"]), np.abs(Q.pca["vecs"]), "principal components", 1e-6)
    return figs != ["none"], method


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, n=st.integers(30, 50), T=st.integers(60, 120), k=st.integers(0, 3), nc=st.integers(1, 2),
                               sigma=SIG, figs=st.lists(st.sampled_from(["ts-pca", "updated_dist", "learned_qoi", "mesh", "full_ts",
                                                                        "none", "all"]), max_size=2, unique=True), dpi=DPI,
                               value=st.sampled_from(["wind_speed_mult_0", "DP", "missing"]), lims=st.booleans(),
                               lab=st.booleans())),
    n=24, thorough=400, rule="there are time windows")
def adcirc_command(case):
    r = rng(case)
    ds, path = adcirc_file(r, case["n"], case["T"])
    seed = case["seed"] % 2**31
    ws = [window(r, ds) for _ in range(case["k"])]
    figs = case["figs"] or ["all"]
    sel = lambda f: f in figs or "all" in figs  # noqa: E731
    args = ["--seed", seed, "--save-path", folder("cli"), "--dpi", case["dpi"], "adcirc-solve", path, "-n", case["nc"], "-s", case["sigma"],
            "-mv", case["value"]]
    for (a, c), _ in ws:
        args += ["-t1", a, "-t2", c]
        if case["lims"]:
            args += ["-p1", 4.0, "-p2", 5.0]
        if case["lab"]:
            args += ["-lx", a, "-ly", 0.5]
    for f in case["figs"]:
        args += ["-p", f]
    if case["value"] == "missing" and sel("mesh"):
        res = CliRunner().invoke(cli, ["examples"] + [str(a) for a in args])
        need(res.exit_code != 0, "values which are not in the data set are accepted")
        need("si-missing.png" not in os.listdir("cli"), "a figure of missing values is written")
        return False, "refused"
    out = call(args, "adcirc-solve")
    need(call(args, "adcirc-solve") == out, "adcirc-solve prints something else for the same seed")
    want = window_files(figs, case["nc"], [i for _, i in ws])
    want += [f"si-{case['value']}.png"] if sel("mesh") else []
    want += ["adcirc_full_ts.png"] if sel("full_ts") else []
    written(os.path.abspath("cli"), want, "adcirc-solve")
    rows = tables(out)[1:]
    need(len(rows) == len(ws), f"{len(rows)} results for {len(ws)} windows")
    P = adcirc.load_adcirc_prob(path, std_dev=case["sigma"], seed=seed)[1]
    for x, ((a, c), idx) in zip(rows, ws):
        need(x[0] == a and x[1] == c, f"window {x[0]} to {x[1]}, asked for {a} to {c}")
        mask = np.zeros(case["T"], bool)
        mask[idx] = True
        hand, est, _ = by_hand({**ds, "sensors": np.array([[0, 0]])}, P, num_components=case["nc"], times_mask=mask)
        z = norm_pdf(hand.y).prod(axis=1) / KDE(hand.y.T)(hand.y.T)
        if np.sort(z)[-1] > np.sort(z)[-2] * 1.001:
            close(numbers_in(x[2]), est, f"estimate printed for window {a} to {c}", 1e-4, 1e-7)
        close(float(x[3]), hand.expected_ratio(), f"expected ratio printed for window {a} to {c}", 1e-2, 0.0051)
    return bool(ws), case["value"]


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, value=st.sampled_from(["wind_speed_mult_0", "DP", "other", "missing"]), dpi=DPI,
                               stations=st.sampled_from([None, [0], [0, 3], [4, 2, 7]]), zoom=st.booleans(),
                               cut=st.sampled_from([-10, -20, -6]), save=st.booleans(), close=st.booleans())),
    n=60, thorough=800, rule="a known value is shown")
def mesh(case):
    r = rng(case)
    ds, _ = adcirc_file(r, 20, 40)
    g = ds["grid_data"]
    d = folder()
    zoom = [[-72.5, 0.3], [40.7, 0.2]] if case["zoom"] else None
    kw = dict(value=case["value"], stations=case["stations"], zoom=zoom, colorbar_cutoff=case["cut"], dpi=case["dpi"],
              close_fig=case["close"])
    F = Frozen(grid=g)
    if case["value"] == "missing":
        raises(lambda: adcirc.tri_mesh_plot(g, save_path=d, **kw), (ValueError,), "tri_mesh_plot of missing values")
        written(d, [], "tri_mesh_plot of missing values")
        return False
    with sut("tri_mesh_plot"):
        adcirc.tri_mesh_plot(g, save_path=d if case["save"] else None, **kw)
    F.verify("tri_mesh_plot")
    written(d, [f"si-{case['value']}.png"] if case["save"] else [], "tri_mesh_plot")
    if case["save"] and case["close"]:
        need(not plt.get_fignums(), "open figures")
        return True, case["value"]
    ax = plt.gcf().axes[0]
    if zoom is not None:
        close(ax.get_xlim(), (-72.8, -72.2), "longitudes shown", 1e-9)
        close(ax.get_ylim(), (40.5, 40.9), "latitudes shown", 1e-9)
    pts = [np.asarray(c.get_offsets(), float) for c in ax.collections if type(c).__name__ == "PathCollection"]
    want = [[g["XEL"][s], g["YEL"][s]] for s in case["stations"] or []]
    need(len(pts) == len(want), f"{len(pts)} stations shown")
    for p, w in zip(pts, want):
        close(p.ravel(), w, "station", 1e-12)
    return True, case["value"]


@SUITE.check(
    st.fixed_dictionaries(dict(seed=seeds, where=st.sampled_from(["new", "old", "none"]), what=st.sampled_from(["contours", "wme"]))),
    n=24, thorough=200, rule="every case")
def save_path(case):
    """The directory is created; without one, figures go to the current one."""
    home = os.getcwd()
    top = folder("work")
    os.chdir(top)
    try:
        opts, d = [], top
        if case["where"] != "none":
            d = os.path.join(top, "plots")
            opts = ["--save-path", "plots"]
            if case["where"] == "old":
                os.mkdir(d)
        cmd = ["contours", "-p", "tikhonov"] if case["what"] == "contours" else ["wme-covariance", "-i", 3, "-o", 2, "-n", 4]
        call(opts + ["--dpi", 8] + cmd, cmd[0])
        f = "tikhonov_contour.png" if case["what"] == "contours" else "lin-meas-cov-sd-convergence.png"
        written(d, [f], cmd[0])
        os.unlink(os.path.join(d, f))
        if d != top:
            os.rmdir(d)
            need(not os.listdir(top), f"{cmd[0]} also wrote {os.listdir(top)}")
    finally:
        os.chdir(home)
    return True, case["where"]
