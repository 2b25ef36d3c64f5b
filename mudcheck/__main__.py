"""Runs the checks of one property, or replays a saved case.

    python -m mudcheck P01 quick|thorough [--only NAME] [--jobs N]
    python -m mudcheck --replay FILE
"""
import argparse
import collections
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback
import zlib

from . import bootstrap

ROOT = bootstrap.ROOT
BUDGET = {"quick": 240.0, "thorough": 780.0}  # seconds of generation
SHRINK = {"quick": 25.0, "thorough": 60.0}


def die(msg):
    print("ERROR: " + msg, flush=True)
    os._exit(2)


def load(pid):
    bootstrap.ensure()
    import logging

    logging.disable(logging.CRITICAL)
    import mud

    if not os.path.realpath(mud.__file__).startswith("/repo/src/"):
        die(f"mud is imported from {mud.__file__}, not from /repo")
    return importlib.import_module(f"mudcheck.props.{pid.lower()}").SUITE


def make_body(core, check, stats, failures, state, log, tier, t0):
    def body(case):
        now = time.time()
        if state["first"] is not None and now - state["first"] > SHRINK[tier]:
            return
        if now - t0 > BUDGET[tier]:
            stats["skipped"] += 1
            return
        text = json.dumps(case, sort_keys=True)
        stats["evaluations"] += 1
        log.append((check.name, text))
        try:
            nontrivial, label = core.run_case(check, json.loads(text))
        except core.Violation as v:
            if state["first"] is None:
                state["first"] = time.time()
            failures.append((len(text), text, str(v), len(log)))
            raise AssertionError("violation") from None
        if label:
            stats["labels"][label] += 1
        if nontrivial:
            h = core.digest(case)
            if h not in stats["hashes"]:
                stats["hashes"][h] = 1
                if len(stats["samples"]) < 2 and len(text) < 1500:
                    stats["samples"].append(json.loads(text))

    return body


def worker(suite, shard, jobs, seed, tier, only, t0, out):
    """Runs every check's share of cases; stops at the first violation."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis.errors import HypothesisException

    from . import core

    res = {"checks": {}, "fail": None, "error": None}
    log = []
    for ci, check in enumerate(suite.checks):
        if only and check.name != only:
            continue
        total = check.n if tier == "quick" else check.thorough
        n = -(-total // jobs)
        stats = {
            "evaluations": 0, "hashes": {}, "labels": collections.Counter(),
            "samples": [], "skipped": 0,
        }
        res["checks"][check.name] = stats
        failures = []
        state = {"first": None}

        body = make_body(core, check, stats, failures, state, log, tier, t0)
        test = hypothesis.given(check.strategy)(body)
        test = settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            print_blob=False,
            report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=[
                HealthCheck.too_slow, HealthCheck.data_too_large,
                HealthCheck.large_base_example, HealthCheck.filter_too_much,
            ],
        )(test)
        test = hypothesis.seed(
            zlib.crc32(f"{seed}/{suite.pid}/{check.name}/{shard}".encode())
        )(test)
        try:
            test()
        except core.HarnessError:
            res["error"] = traceback.format_exc()
            break
        except (AssertionError, HypothesisException, BaseExceptionGroup):
            if not failures:
                res["error"] = traceback.format_exc()
                break
        except Exception:
            if not failures:
                res["error"] = traceback.format_exc()
                break
        if failures:
            failures.sort(key=lambda f: f[0])
            res["fail"] = {
                "check": check.name,
                "candidates": [(f[1], f[2]) for f in failures[:3]],
                "history": log[: min(f[3] for f in failures)],
                "message": failures[0][2],
            }
            break
    for s in res["checks"].values():
        s["labels"] = dict(s["labels"])
        s["hashes"] = list(s["hashes"])
    with open(out, "w") as fp:
        json.dump(res, fp)


def _sequence(suite, seq, q):
    from . import core

    msg = None
    try:
        for name, text in seq:
            try:
                core.run_case(suite.get(name), json.loads(text))
            except core.Violation as v:
                msg = (name, text, str(v))
                break
    except BaseException:
        q.put(("error", traceback.format_exc()))
        return
    q.put(("ok", msg))


def reproduces(suite, seq, timeout=200):
    """Runs the cases in a fresh process; the violation they end in or None."""
    ctx = mp.get_context("fork")
    q = ctx.SimpleQueue()
    p = ctx.Process(target=_sequence, args=(suite, seq, q))
    p.start()
    end = time.time() + timeout
    while q.empty() and p.is_alive() and time.time() < end:
        time.sleep(0.01)
    got = None if q.empty() else q.get()
    if p.is_alive():
        p.kill()
    p.join()
    return got[1] if got and got[0] == "ok" else None


def minimise(suite, history, t_end):
    """Shortest tail-preserving history found that still fails."""
    hit = reproduces(suite, history)
    if hit is None:
        return None, None
    seq = history
    chunk = max(1, len(seq) // 2)
    while chunk >= 1 and len(seq) > 1 and time.time() < t_end:
        i = 0
        while i < len(seq) - 1 and time.time() < t_end:
            cand = seq[:i] + seq[min(i + chunk, len(seq) - 1):]
            h = reproduces(suite, cand, 60) if len(cand) < len(seq) else None
            if h is not None:
                seq, hit = cand, h
            else:
                i += chunk
        chunk //= 2
    return seq, hit


def save_replay(pid, seq, msg):
    d = os.path.join(ROOT, "out")
    try:
        os.makedirs(d, exist_ok=True)
    except OSError:
        d = tempfile.gettempdir()
    path = os.path.join(d, f"{pid}-{seq[-1][0]}-{zlib.crc32(repr(seq).encode()):08x}.json")
    with open(path, "w") as fp:
        json.dump(
            {"property": pid, "message": msg,
             "cases": [{"check": n, "case": json.loads(t)} for n, t in seq]},
            fp, indent=1,
        )
    return path


def probe(suite, q):
    from . import core

    out = []
    for name, fn in suite.probes:
        check = core.Check(name, None, lambda case, fn=fn: (True, fn() or ""), 1, 1, "")
        try:
            text = core.run_case(check, {})[1]
            out.append((name, text or None, bool(text) and not core.known(name)))
        except core.Violation as v:
            out.append((name, str(v), True))
        except BaseException:
            q.put(("error", traceback.format_exc()))
            return
    q.put(("ok", out))


def findings(suite, timeout=200):
    """Which recorded defects are still there: (name, text, violation?)."""
    ctx = mp.get_context("fork")
    q = ctx.SimpleQueue()
    p = ctx.Process(target=probe, args=(suite, q))
    p.start()
    end = time.time() + timeout
    while q.empty() and p.is_alive() and time.time() < end:
        time.sleep(0.01)
    got = ("error", "probes did not finish") if q.empty() else q.get()
    if p.is_alive():
        p.kill()
    p.join()
    return got


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("tier", nargs="?", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = tempfile.mkdtemp(prefix="mudcheck-")
    start = os.getcwd()
    replay = os.path.abspath(a.replay) if a.replay else None
    os.chdir(work)
    code = 2
    try:
        if replay:
            code = do_replay(replay)
        else:
            code = do_run(a, t0, seed, work)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    finally:
        os.chdir(start)
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def do_replay(path):
    with open(path) as fp:
        rec = json.load(fp)
    suite = load(rec["property"])
    seq = [(c["check"], json.dumps(c["case"], sort_keys=True)) for c in rec["cases"]]
    hit = reproduces(suite, seq, 600)
    if hit:
        print(hit[2])
        print(f"VIOLATION property={rec['property']} replay={path}", flush=True)
        return 1
    print("the recorded case passes")
    return 0


def do_run(a, t0, seed, work):
    try:
        suite = load(a.pid)
    except Exception:
        traceback.print_exc()
        # the code under test does not even import: nothing holds
        tb = traceback.format_exc()
        if "/repo/src/mud" in tb:
            path = save_replay(a.pid, [("import", "{}")], tb)
            print(f"VIOLATION property={a.pid} replay={path}", flush=True)
            return 1
        return 2
    ctx = mp.get_context("fork")
    probed, bad_probe = [], None
    if suite.probes and not a.only:
        state, got = findings(suite)
        if state == "error":
            print("ERROR: " + got)
            return 2
        for name, text, bad in got:
            if bad and not bad_probe:
                bad_probe = ([("finding:" + name, "{}")], text)
            elif text and not bad:
                probed.append(name)
                print(f"KNOWN-FINDING: property={a.pid} {name}: {text}", flush=True)
    procs = []
    for i in range(a.jobs):
        out = os.path.join(work, f"shard{i}.json")
        sub = os.path.join(work, f"w{i}")
        os.mkdir(sub)

        def go(i=i, out=out, sub=sub):
            os.chdir(sub)
            worker(suite, i, a.jobs, seed, a.tier, a.only, t0, out)

        p = ctx.Process(target=go)
        p.start()
        procs.append((p, out))
    results, errors = [], []
    for p, out in procs:
        p.join(max(1.0, t0 + 860 - time.time()))
        if p.is_alive():
            p.kill()
            errors.append("worker did not finish")
        elif not os.path.exists(out):
            errors.append(f"worker died with {p.exitcode}")
        else:
            with open(out) as fp:
                results.append(json.load(fp))
    errors += [r["error"] for r in results if r["error"]]

    violation = bad_probe
    order = [c.name for c in suite.checks]
    fails = [r["fail"] for r in results if r["fail"]]
    fails.sort(key=lambda f: (order.index(f["check"]), len(f["candidates"][0][0])))
    for f in fails if not violation else []:
        for text, msg in f["candidates"]:
            hit = reproduces(suite, [(f["check"], text)])
            if hit:
                violation = ([(f["check"], text)], hit[2])
                break
        if violation:
            break
    if fails and not violation:
        # needs what earlier cases left behind in the process
        for f in fails[:2]:
            seq, hit = minimise(suite, [tuple(h) for h in f["history"]], time.time() + 60)
            if seq:
                violation = (seq, hit[2])
                break
        if not violation:
            errors.append("a failure did not reproduce: " + fails[0]["message"])

    # evidence
    evals = distinct = skipped = 0
    samples, rules, per = [], [], {}
    for c in suite.checks:
        ss = [r["checks"][c.name] for r in results if c.name in r["checks"]]
        hs, labels = set(), collections.Counter()
        for s in ss:
            hs.update(s["hashes"])
            labels.update(s["labels"])
        ev = sum(s["evaluations"] for s in ss)
        evals += ev
        distinct += len(hs)
        skipped += sum(s["skipped"] for s in ss)
        per[c.name] = {"evaluations": ev, "distinct_nontrivial": len(hs),
                       "classes": dict(labels.most_common(20))}
        rules.append(f"{c.name}: non-trivial = {c.rule}")
        for s in ss:
            if s["samples"]:
                samples.append({"check": c.name, "case": s["samples"][0]})
                break
    ev = {
        "property": a.pid, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct,
            "rule": "Cases are drawn by Hypothesis (sizes, options, operation lists, and"
                    " seed and style of bulk numbers), distinct by content. " + "; ".join(rules),
            "samples": samples, "per_check": per, "not_run_for_time": skipped,
            "known_findings_present": probed,
        },
        "assumptions": ["floating-point comparison with stated relative tolerances",
                        "numpy, scipy and scikit-learn kernels used by the oracles are correct"],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    if not a.only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{a.pid}.json"), "w") as fp:
            json.dump(ev, fp, indent=1)
    if a.verbose:
        print(json.dumps(per, indent=1))
    if violation:
        seq, msg = violation
        path = save_replay(a.pid, seq, msg)
        print(f"{seq[-1][0]}: {msg}")
        print(f"VIOLATION property={a.pid} replay={path}", flush=True)
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR: " + e)
        return 2
    print(f"{a.pid} held: {evals} cases, {distinct} distinct non-trivial,"
          f" {time.time() - t0:.1f} s")
    return 0


if __name__ == "__main__":
    main()
