"""Makes hypothesis importable next to libensemble's own environment, and pins where libensemble comes from."""
import importlib.util
import os
import sys
import tempfile
import atexit
import shutil

SRC = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"


def hypothesis_path():
    """Offer hypothesis and its two dependencies only, behind everything libensemble's environment has."""
    if importlib.util.find_spec("hypothesis") is not None:
        return
    d = tempfile.mkdtemp(prefix="verif_hyp_")
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    names = ["hypothesis", "sortedcontainers", "attr", "attrs", "_hypothesis_globals.py", "_hypothesis_ftz_detector.py"]
    if os.path.isdir(os.path.join(SRC, "hypothesis")):
        for n in names:
            if os.path.exists(os.path.join(SRC, n)):
                os.symlink(os.path.join(SRC, n), os.path.join(d, n))
    else:
        import glob
        import zipfile

        for pat in ("hypothesis-*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
            for w in sorted(glob.glob(os.path.join(WHEELS, pat)))[-1:]:
                zipfile.ZipFile(w).extractall(d)
    sys.path.append(d)


def libensemble_path():
    repo = os.environ.get("VERIF_REPO", "/repo")
    if sys.path[0] != repo:
        sys.path.insert(0, repo)
    import libensemble

    got = os.path.realpath(libensemble.__file__)
    want = os.path.realpath(os.path.join(repo, "libensemble", "__init__.py"))
    if got != want:
        raise SystemExit(f"libensemble imported from {got}, not {want}")
