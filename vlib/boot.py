"""Make hypothesis importable from the offline wheelhouse / tool venv.

setup_cmd unpacks it once to /verif/.deps; when a check runs in a copy without
that folder, it is unpacked to a private temporary folder instead.
"""
import atexit
import glob
import importlib.util
import os
import shutil
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(HERE, ".deps")
WHEELS = "/opt/veriftools/wheels"
VENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _populate(target):
    os.makedirs(target, exist_ok=True)
    wheels = sorted(
        glob.glob(f"{WHEELS}/hypothesis-*cp312*x86_64*.whl")
    ) or sorted(glob.glob(f"{WHEELS}/hypothesis-*.whl"))
    sc = sorted(glob.glob(f"{WHEELS}/sortedcontainers-*.whl"))
    if wheels:
        for whl in [wheels[-1], *sc[-1:]]:
            with zipfile.ZipFile(whl) as z:
                z.extractall(target)
        return
    for name in ["hypothesis", "sortedcontainers"]:
        src = os.path.join(VENV, name)
        if os.path.isdir(src):
            shutil.copytree(src, os.path.join(target, name), dirs_exist_ok=True)
    for f in glob.glob(f"{VENV}/_hypothesis_*.py"):
        shutil.copy(f, target)


def ensure_hypothesis():
    if importlib.util.find_spec("hypothesis") is not None:
        return
    for cand in [DEPS, os.environ.get("VERIF_DEPS", "")]:
        if cand and os.path.isdir(os.path.join(cand, "hypothesis")):
            sys.path.append(cand)
            return
    tmp = tempfile.mkdtemp(prefix="verif_deps_")
    atexit.register(shutil.rmtree, tmp, ignore_errors=True)
    _populate(tmp)
    sys.path.append(tmp)
    os.environ["VERIF_DEPS"] = tmp


def setup():
    if not os.path.isdir(os.path.join(DEPS, "hypothesis")):
        part = DEPS + ".part"
        shutil.rmtree(part, ignore_errors=True)
        _populate(part)
        os.replace(part, DEPS)
    sys.path.append(DEPS)
    import hypothesis

    print("hypothesis", hypothesis.__version__)


if __name__ == "__main__":
    setup()
