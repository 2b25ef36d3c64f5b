"""Developer tool: run_seeded.py [-j N] [id...]: for each planted bug, the quick
check of its property (or of $CHECK) on a scratch copy of /repo with the bug
applied; /repo itself is not touched.  Prints caught/missed."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
jobs = 2
if args[:1] == ["-j"]:
    jobs, args = int(args[1]), args[2:]
ids = args or sorted(os.listdir(os.path.join(ROOT, "seeded")))


def one(i):
    d = os.path.join(ROOT, "seeded", i)
    patch = i if os.path.isfile(i) else os.path.join(d, "patch.diff")
    prop = os.environ.get("CHECK") or json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="seeded-")
    try:
        repo, verif = os.path.join(tmp, "repo"), os.path.join(tmp, "verif")
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        if subprocess.run(["git", "-C", repo, "apply", os.path.abspath(patch)]).returncode:
            return f"{i} does not apply"
        shutil.copytree(ROOT, verif, ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "out", "__pycache__"))
        os.makedirs(os.path.join(verif, "evidence"), exist_ok=True)
        for f, a, b in (("check.sh", 'PYTHONPATH="$here"', f'PYTHONPATH="$here:{repo}/src"'),
                        ("mudcheck/__main__.py", '"/repo/src/', f'"{os.path.realpath(repo)}/src/')):
            p = os.path.join(verif, f)
            s = open(p).read()
            assert a in s, (f, a)
            open(p, "w").write(s.replace(a, b))
        out = []
        for p in prop.split(","):
            r = subprocess.run([os.path.join(verif, "check.sh"), p, os.environ.get("TIER", "quick")], capture_output=True, text=True, cwd=verif)
            last = [x for x in r.stdout.splitlines() if x.strip()][-2:]
            out.append(f"{i} {p} rc={r.returncode} {'caught' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'ERROR'} " + " ".join(last)[:260] + (r.stderr[-300:] if r.returncode not in (0, 1) else ""))
        return "\n".join(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


with ThreadPoolExecutor(jobs) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
