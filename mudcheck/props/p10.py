"""P10: iterating over rows."""
import numpy as np
from hypothesis import strategies as st
from mud.base import IterativeLinearProblem
from mud.funs import iter_lin_solve, iterate, performEpoch

from ..core import *  # noqa: F403
from ..linear import UNITS, cov, unit_factors

SUITE = Suite("P10", quick=2)

ORDERS = ("none", "perm", "subset", "repeat", "list-repeat", "one", "reverse")


class Prob:
    def __init__(self, case):
        r = rng(case)
        m, n = case["m"], case["n"]
        A = r.standard_normal((m, n))
        A /= np.linalg.norm(A, axis=1)[:, None]
        if case["ints"]:
            A = r.integers(-3, 4, (m, n)).astype(float)
            A[(A == 0).all(axis=1), 0] = 1.0
        A *= 10.0 ** case["scale"]
        if case["zero_row"] and m > 1:
            A[int(r.integers(m))] = 0.0
        self.num = case["num"] if case["ints"] and case["scale"] >= 0 else "float"  # whole numbers passed as such
        self.A, self.m, self.n, self.lay = A, m, n, case["lay"]

        def draw(k):
            return np.rint(3 * r.standard_normal(k)) if self.num != "float" else r.standard_normal(k)

        self.b = draw(m) if case["b"] else None
        self.truth = draw(n)
        bb = np.zeros(m) if self.b is None else self.b
        self.consistent = case["consistent"]
        self.y = A @ self.truth + bb if self.consistent else draw(m)
        if not case["consistent"] and case["noy"]:
            self.y = None
        self.mean = draw(n) if case["mean"] else None
        self.cov_arg = cov(r, n, case["ci"])
        self.S_arg = cov(r, m, case["co"])
        self.C = np.eye(n) if self.cov_arg is None else self.cov_arg
        self.S = np.eye(m) if self.S_arg is None else self.S_arg
        o = case["order"]
        k = {"none": None, "perm": r.permutation(m), "subset": r.permutation(m)[: max(1, m // 2)],
             "repeat": r.integers(0, m, m + 2), "list-repeat": [int(i) for i in r.integers(0, m, 2 * m)],
             "one": [int(r.integers(m))], "reverse": range(m - 1, -1, -1)}[o]
        self.idx = k
        self.rows = list(range(m)) if k is None else [int(i) for i in k]
        self.col = case["col"]

    def typed(self, x):
        if self.num == "float" or not np.array_equal(x, np.rint(x)):
            return x
        return narrow(x) if self.num == "narrow" else x.astype(np.int64)

    def v(self, x):
        if x is None:
            return None
        x = self.typed(x)
        if self.lay == "spaced":
            x = np.repeat(x, 3)[::3]
        return x.reshape(-1, 1) if self.col else x.copy() if self.lay == "plain" else x

    def mat(self):
        A = self.typed(self.A)
        if self.lay == "fortran":
            return np.asfortranarray(A)
        if self.lay == "spaced":
            return np.repeat(A, 2, axis=1)[:, ::2]
        return A.copy()

    def yb(self):
        return (np.zeros(self.m) if self.y is None else self.y), (np.zeros(self.m) if self.b is None else self.b)

    def step(self, x, i, method="mud"):
        y, b = self.yb()
        a, z = self.A[i], y[i] - b[i]
        if method in ("mud", "mud_alt"):
            den = a @ self.C @ a
            return x + self.C @ a * ((z - a @ x) / den) if den > 0 else x
        if method == "map":
            H = np.outer(a, a) / self.S[i, i] + np.linalg.inv(self.C)
            return x + np.linalg.solve(H, a / self.S[i, i] * (z - a @ x))
        raise KeyError(method)

    def make(self):
        return IterativeLinearProblem(
            self.mat(), self.v(self.b), y=self.v(self.y), mu_i=self.v(self.mean),
            cov=self.cov_arg, data_cov=self.S_arg, idx_order=self.idx)

    def start(self):
        return np.zeros(self.n) if self.mean is None else self.mean


space = dict(
    seed=seeds, m=upto(1, 5, 8, 12, 40), n=upto(1, 5, 8, 12, 40), ints=st.booleans(),
    num=st.sampled_from(["float", "int", "narrow"]), lay=st.sampled_from(["plain", "plain", "fortran", "spaced"]), scale=st.sampled_from([-1, 0, 0, 1]),
    zero_row=st.sampled_from([False, False, False, True]), b=st.booleans(), consistent=st.booleans(),
    noy=st.booleans(), mean=st.booleans(), ci=st.sampled_from(["none", "diag", "full", "scaled"]),
    co=st.sampled_from(["none", "diag", "full"]), order=st.sampled_from(ORDERS), col=st.booleans(),
)

op = st.one_of(
    st.tuples(st.just("solve"), upto(1, 3, 8, 12), st.sampled_from(["mud", "mud", "mud", "mud_alt", "map"])),
    st.tuples(st.just("errors"), st.integers(0, 3), st.booleans()),
    st.tuples(st.just("again"), st.just(0)),
)


def flat(chain):
    return np.array([np.asarray(x, float).ravel() for x in chain])


@SUITE.check(st.fixed_dictionaries(dict(ops=st.lists(op, min_size=1, max_size=6), **space)), n=2500,
             rule="at least two rows are visited")
def history(case):
    P = Prob(case)
    with sut("problem"):
        I = P.make()
    model, x = [], P.start()
    sc = 1 + np.abs(x).max() + 10.0 ** -case["scale"] * (1 + np.abs(P.truth).max())
    r = rng(case, 2)
    tol, first = 1e-8, True
    for o in case["ops"] + [["solve", 1, "mud"], ["errors", 0, True]]:
        if o[0] == "errors" or o[0] == "again":
            if first:
                continue
            if o[0] == "again":
                with sut("solve(0)"):
                    res = I.solve(num_epochs=0)
                vclose(np.asarray(res).ravel(), x, "no more epochs", tol, 0, scale=sc)
                continue
            ref = P.truth + o[1] * r.standard_normal(P.n)
            arg = P.typed(ref).reshape(-1, 1) if o[2] else P.typed(ref)
            if o[1] == 2 or (o[1] == 0 and case["lay"] == "spaced"):
                arg = arg.tolist()
            with sut("get_errors"):
                e = I.get_errors(arg)
            want = [np.linalg.norm(p - ref) for c in model for p in c[1:]]
            vclose(e, want, "errors", 10 * tol, 1e-12, scale=sc)
            continue
        _, k, method = o
        for _ in range(k):
            chain = [x]
            for i in P.rows:
                chain.append(P.step(chain[-1], i, method))
            x = chain[-1]
            model.append(chain)
        sc = max(sc, max(np.abs(c).max() for c in model))
        if method == "mud_alt":
            tol = max(tol, 1e-7)
        with sut(f"solve({k}, {method})"):
            res = I.solve(num_epochs=k, method=method) if (k, method) != (1, "mud") or first else I.solve()
        first = False
        need(np.size(res) == P.n, f"result of size {np.size(res)}")
        vclose(np.asarray(res).ravel(), x, "result", tol, 0, scale=sc)
        need(len(I.solution_chains) == len(model), f"{len(I.solution_chains)} chains for {len(model)} epochs")
    for j, (got, want) in enumerate(zip(I.solution_chains, model)):
        need(len(got) == len(want), f"chain {j}: {len(got)} points, expected {len(want)}")
        vclose(flat(got), np.array(want), f"chain {j}", tol, 0, scale=sc)
        if j:
            same(np.asarray(got[0]).ravel(), np.asarray(I.solution_chains[j - 1][-1]).ravel(),
                 f"chain {j} starts where chain {j - 1} ended")
    # rows are matched right after their step; distances never grow
    y, b = P.yb()
    if all(o[0] != "solve" or o[2] != "map" for o in case["ops"]):
        Ci = np.linalg.inv(P.C)
        for c in I.solution_chains:
            pts = flat(c)
            for k, i in enumerate(P.rows):
                if np.abs(P.A[i]).max() > 0:
                    vclose(P.A[i] @ pts[k + 1] + b[i], y[i], "row right after its step", 10 * tol, 0,
                           scale=sc * np.abs(P.A[i]).max() + abs(y[i]) + abs(b[i]))
            if P.consistent:
                e = pts - P.truth
                dd = np.einsum("ki,ij,kj->k", e, Ci, e)
                need((np.diff(dd) <= 1e-6 * (dd[0] + sc**2)).all(), "the distance to an exact solution grew")
    return len(P.rows) > 1, case["order"]


@SUITE.check(st.fixed_dictionaries(dict(parts=st.lists(st.integers(1, 4), min_size=1, max_size=4), **space)),
             n=800, rule="several calls")
def epochs_add_up(case):
    P = Prob(case)
    total = sum(case["parts"])
    with sut("solve"):
        I, J = P.make(), P.make()
        for k in case["parts"]:
            a = I.solve(num_epochs=k)
        b = J.solve(num_epochs=total)
        ref = P.truth.reshape(-1, 1)
        ea, eb = I.get_errors(ref), J.get_errors(ref)
    vclose(a, b, "split and whole solves", 1e-12, 1e-300)
    need(len(I.solution_chains) == len(J.solution_chains) == total, "number of chains")
    vclose(ea, eb, "errors", 1e-12, 1e-300)
    need(len(ea) == total * len(P.rows), f"{len(ea)} errors for {total} epochs over {len(P.rows)} rows")
    return len(case["parts"]) > 1, f"{len(case['parts'])}"


@SUITE.check(st.fixed_dictionaries(dict(epochs=upto(1, 4, 10), method=st.sampled_from(["mud", "mud", "map"]), **space)),
             n=1500, rule="at least two rows are visited")
def functional_forms(case):
    P = Prob(case)
    y, b = P.yb()
    x, pts, chains = P.start(), [], []
    for _ in range(case["epochs"]):
        chain = [x]
        for i in P.rows:
            chain.append(P.step(chain[-1], i))
        x = chain[-1]
        chains.append(chain)
    sc = max(np.abs(c).max() for c in chains) + 1e-12
    bb, yy = P.v(b), P.v(y)
    ep = {} if case["epochs"] == 1 else dict(num_epochs=case["epochs"])  # once by default
    with sut("iter_lin_solve"):
        res = iter_lin_solve(P.mat(), P.v(P.b), y=P.v(P.y), mean=P.v(P.mean), cov=P.cov_arg, data_cov=P.S_arg,
                             idx_order=P.idx, **ep)
    need(np.size(res) == P.n, f"iter_lin_solve: size {np.size(res)}")
    vclose(np.asarray(res).ravel(), x, "iter_lin_solve", 1e-8, 0, scale=sc)
    if case["method"] == "map":
        z = P.start()
        for _ in range(case["epochs"]):
            for i in P.rows:
                z = P.step(z, i, "map")
        with sut("iter_lin_solve with map"):
            res = iter_lin_solve(P.mat(), P.v(P.b), y=P.v(P.y), mean=P.v(P.mean), cov=P.cov_arg,
                                 data_cov=P.S_arg, method="map", num_epochs=case["epochs"], idx_order=P.idx)
        vclose(np.asarray(res).ravel(), z, "iter_lin_solve with map", 1e-8, 0, scale=sc + np.abs(z).max())
    m0 = P.v(P.start())
    with sut("performEpoch"):
        c1 = performEpoch(P.mat(), bb, yy, m0, P.C.copy(), data_cov=P.S_arg, idx=P.idx)
    need(len(c1) == len(P.rows) + 1, f"performEpoch: {len(c1)} points for {len(P.rows)} rows")
    vclose(flat(c1), np.array(chains[0]), "performEpoch", 1e-8, 0, scale=sc)
    with sut("iterate"):
        c2 = iterate(P.mat(), bb, yy, m0, P.C.copy(), data_cov=P.S_arg, idx=P.idx, **ep)
    got = flat(c2)
    want = np.array([p for c in chains for p in c])
    if len(got) != len(want):  # epochs may share their common point
        want = np.array([chains[0][0]] + [p for c in chains for p in c[1:]])
    need(len(got) == len(want), f"iterate: {len(got)} points")
    vclose(got, want, "iterate", 1e-8, 0, scale=sc)
    return len(P.rows) > 1, case["order"]


@SUITE.check(st.fixed_dictionaries(dict(seed=seeds, n=upto(1, 5, 8), q=upto(1, 5, 8), order=st.sampled_from(
    ["none", "perm"]))), n=200, rule="several rows")
def converges(case):
    """Well separated rows of a consistent system: many epochs reach the
    solution closest to the initial mean."""
    r = rng(case)
    n, m = case["n"], min(case["q"], case["n"])
    Q = np.linalg.qr(r.standard_normal((n, n)))[0][:m]
    A = Q + 0.15 * r.standard_normal((m, n))
    if np.linalg.cond(A) > 5:
        return False
    mean, y, b = r.standard_normal(n), r.standard_normal(m), r.standard_normal(m)
    idx = None if case["order"] == "none" else r.permutation(m)
    with sut("solve"):
        x = np.asarray(IterativeLinearProblem(A, b, y=y, mu_i=mean, idx_order=idx).solve(num_epochs=400)).ravel()
    want = mean + np.linalg.pinv(A) @ (y - b - A @ mean)
    vclose(x, want, "limit", 1e-5, 1e-8, scale=1 + np.abs(want).max())
    return m > 1


@SUITE.check(st.fixed_dictionaries(dict(epochs=st.integers(1, 3), method=st.sampled_from(["mud", "map"]), **UNITS, **space)), n=500,
             rule="units differ by more than a factor 1000")
def units(case):
    """Measuring parameters and outputs in other units changes nothing."""
    P, (u, v) = Prob(case), unit_factors(case)

    def run(a, b):
        S, C = P.S * b**2, P.C * a**2

        def by(x, f):
            return None if x is None else P.v(x * f)

        I = IterativeLinearProblem(P.A * (b / a), by(P.b, b), y=by(P.y, b), mu_i=by(P.mean, a), cov=C, data_cov=S, idx_order=P.idx)
        I.solve(case["epochs"], case["method"])
        e = I.get_errors(by(P.truth, a))
        return np.concatenate([flat(c) for c in I.solution_chains]) / a, np.asarray(e) / a

    with sut("solve"):
        (x, e), (y, f) = run(1.0, 1.0), run(u, v)
    s = np.abs(x).max() + np.abs(P.truth).max()
    vclose(y, x, "points in other units", 1e-7, 0, scale=s)
    vclose(f, e, "errors in other units", 1e-7, 0, scale=s)
    return abs(case["u"]) > 10 or abs(case["v"]) > 10, "units"


@SUITE.check(
    st.fixed_dictionaries(dict(parts=st.lists(st.integers(1, 260), min_size=1, max_size=3), every=st.booleans(),
                               **dict(space, m=st.integers(1, 4), n=st.integers(1, 4)))),
    n=120, rule="more than a hundred epochs")
def many_epochs(case):
    P = Prob(case)
    with sut("solve"):
        I, x, want = P.make(), P.start(), []
        for k in case["parts"]:
            res = I.solve(num_epochs=k)
            for _ in range(k):
                want.append([x])
                for i in P.rows:
                    want[-1].append(P.step(want[-1][-1], i))
                x = want[-1][-1]
            if case["every"]:
                I.get_errors(P.truth)
        e = I.get_errors(P.truth)
    sc = 1 + max(np.abs(c).max() for c in want)
    vclose(np.ravel(res), x, "result", 1e-7, 0, scale=sc)
    need(len(I.solution_chains) == len(want), f"{len(I.solution_chains)} chains for {len(want)} epochs")
    vclose(np.concatenate([flat(c) for c in I.solution_chains]), np.array([p for c in want for p in c]), "chains", 1e-7, 0, scale=sc)
    ref = [np.linalg.norm(p - P.truth) for c in want for p in c[1:]]
    need(len(e) == len(ref), f"{len(e)} errors for {len(ref)} steps")
    vclose(e, ref, "errors", 1e-7, 0, scale=sc)
    return len(want) > 100, f"{len(want) // 100}00"


@SUITE.check(
    st.fixed_dictionaries(dict(steps=st.lists(st.tuples(
        st.sampled_from(["A", "b", "y", "mu_i", "cov", "data_cov", "idx_order", "in-place"]), st.integers(1, 2),
        st.sampled_from(["mud", "mud", "map"])), min_size=1, max_size=5), **space)),
    n=900, rule="several changes")
def after_changes(case):
    """The next epochs follow the numbers and the order in force."""
    P, r = Prob(case), rng(case, 12)
    P.num = "float"
    with sut("solve"):
        I = P.make()
        started = r.random() < 0.7
        x = np.ravel(I.solve()) if started else P.start()
    y, b = P.yb()
    u = 10.0 ** case["scale"]
    I.y, I.b = y.reshape(-1, 1).copy(), b.reshape(-1, 1).copy()
    I.A, I.cov, I.data_cov = P.A.copy(), P.C.copy(), P.S.copy()
    for f, k, method in case["steps"]:
        with sut(f"new {f}"):
            if f == "A":
                P.A = u * r.standard_normal((P.m, P.n))
                I.A = P.A.copy()
            elif f == "b":
                P.b = r.standard_normal(P.m)
                I.b = P.b.reshape(-1, 1).copy()
            elif f == "y":
                P.y = r.standard_normal(P.m)
                I.y = P.y.reshape(-1, 1).copy()
            elif f == "mu_i":  # where the first epoch starts
                m = r.standard_normal(P.n)
                I.mu_i = m.reshape(-1, 1).copy()
                x = x if started else m
            elif f == "cov":
                P.C = spd(r, P.n, 1.0)
                I.cov = P.C.copy()
            elif f == "data_cov":
                P.S = spd(r, P.m, 1.0)
                I.data_cov = P.S.copy()
            elif f == "idx_order":
                P.rows = [int(i) for i in r.integers(0, P.m, int(r.integers(1, P.m + 3)))]
                I.idx_order = list(P.rows)
            else:
                P.A, P.C = 2.0 * P.A, 0.25 * P.C
                P.y = P.yb()[0] + u
                I.A *= 2.0
                I.cov *= 0.25
                I.y += u
        for _ in range(k):
            sc = 1e-9 + np.abs(x).max()
            for i in P.rows:
                x = P.step(x, i, method)
                sc = max(sc, np.abs(x).max())
        with sut("solve"):
            got = I.solve(num_epochs=k, method=method)
        started = True
        vclose(np.ravel(got), x, f"after new {f}", 1e-7, 0, scale=sc)
        x = np.ravel(got)
    return len({f for f, _, _ in case["steps"]}) > 1, case["order"]
