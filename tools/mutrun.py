"""Developer tool: runs few cases of every check on the package in the first
argument; prints the check that notices something."""
import importlib
import json
import os
import sys
import time
import zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mudcheck import bootstrap  # noqa: E402

bootstrap.ensure()
import logging  # noqa: E402

logging.disable(logging.CRITICAL)


def result(**kw):
    print("RESULT " + json.dumps(kw), flush=True)
    os._exit(0)


try:
    import mud
    import mud.base
    import mud.plot
except Exception as e:
    result(killed="import", msg=repr(e))
assert mud.__file__.startswith(sys.argv[1]), mud.__file__
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, settings  # noqa: E402

from mudcheck import core  # noqa: E402

PROPS = ["P%02d" % i for i in range(1, 25)]
work = os.path.join(sys.argv[1], "cwd")
os.makedirs(work, exist_ok=True)
os.chdir(work)
t0 = time.time()
suites = {}
for p in PROPS:
    try:
        suites[p] = importlib.import_module(f"mudcheck.props.{p.lower()}").SUITE
    except Exception as e:
        result(killed="import " + p, msg=repr(e))


class Found(Exception):
    pass


spent = {}
for cap in (4, int(os.environ.get("MUT_CAP", "60"))):
    for p in PROPS:
        s = suites[p]
        if cap == 4:
            for name, fn in s.probes:
                try:
                    core.run_case(s.get("finding:" + name), {})
                except core.Violation as v:
                    result(killed=p, check="finding:" + name, msg=str(v)[:200])
                except Exception as e:
                    result(killed=p, check="finding:" + name, msg=repr(e)[:200])
        for c in s.checks:
            n = min(cap, c.n // 8 + 1)
            if cap > 4 and p == "P22" and c.name != "save_figure":
                continue
            found = []

            def make(c, found):
                def body(case):
                    try:
                        core.run_case(c, json.loads(json.dumps(case)))
                    except core.Violation as v:
                        found.append(str(v))
                        raise Found() from None

                return body

            test = settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False, phases=(Phase.generate,),
                            suppress_health_check=list(HealthCheck))(hypothesis.given(c.strategy)(make(c, found)))
            test = hypothesis.seed(zlib.crc32(f"{cap}{p}{c.name}".encode()))(test)
            try:
                test()
            except BaseException as e:
                if found:
                    result(killed=p, check=c.name, msg=found[0][:200], t=time.time() - t0)
                result(killed=p, check=c.name, msg="error " + repr(e)[:200], t=time.time() - t0)
result(killed=None, t=time.time() - t0)
