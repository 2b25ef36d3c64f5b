"""Make the `hypothesis` library importable in the interpreter that has mud."""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHEELS = "/opt/veriftools/wheels"
VENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
NAMES = ("hypothesis", "sortedcontainers", "attrs")


def _usable(path):
    return os.path.isdir(os.path.join(path, "hypothesis"))


def _unpack(dest):
    for n in NAMES:
        found = sorted(glob.glob(os.path.join(WHEELS, n + "-*.whl")))
        found = [w for w in found if "cp3" not in w or "cp312" in w or "abi3" in w] or found
        if not found and n != "attrs":
            raise FileNotFoundError("no wheel for " + n)
        if found:
            with zipfile.ZipFile(found[-1]) as z:
                z.extractall(dest)


def ensure():
    """Directory holding hypothesis; put on sys.path."""
    deps = os.path.join(ROOT, ".deps")
    if not _usable(deps):
        try:
            tmp = tempfile.mkdtemp(prefix=".deps-", dir=ROOT)
        except OSError:
            tmp = tempfile.mkdtemp(prefix="mudcheck-deps-")
        try:
            _unpack(tmp)
            try:
                if tmp.startswith(ROOT + os.sep):
                    os.rename(tmp, deps)
                else:
                    deps = tmp
            except OSError:  # another process was faster
                if _usable(deps):
                    shutil.rmtree(tmp, ignore_errors=True)
                else:
                    deps = tmp
        except (FileNotFoundError, zipfile.BadZipFile, OSError):
            shutil.rmtree(tmp, ignore_errors=True)
            deps = VENV
    if deps == VENV:
        sys.path.append(deps)  # last: keep mud's own numpy first
    elif deps not in sys.path:
        sys.path.insert(1, deps)
    return deps
