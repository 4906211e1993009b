"""Process set-up: environment, vendored hypothesis, import of the code under test.

Everything the checks need is either in /opt/venv (the project's interpreter),
in /opt/veriftools/wheels (hypothesis, unpacked on demand under build/vendor),
or in /repo's working tree, which is compiled from source on every run.
"""
import glob
import importlib
import importlib.machinery
import os
import shutil
import sys
import tempfile
import zipfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
PYTHON = "/opt/venv/bin/python"

ENV = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "PYTHONWARNINGS": "ignore",
    "HYPOTHESIS_STORAGE_DIRECTORY": os.path.join(ROOT, "build", "hypothesis"),
    "NUMBA_CACHE_DIR": os.path.join(ROOT, "build", "numba"),
    "TZ": "UTC",
}


def reexec_if_needed():
    """Run under the project's interpreter with a pinned environment."""
    if os.environ.get("VFY_BOOT") == "1":
        return
    env = dict(os.environ)
    env.update(ENV)
    env["VFY_BOOT"] = "1"
    os.execve(PYTHON, [PYTHON] + sys.argv, env)


def vendor():
    """Make hypothesis importable; returns its location."""
    dest = os.path.join(ROOT, "build", "vendor")
    ok = os.path.join(dest, ".complete")
    if not os.path.exists(ok):
        wheels = sorted(glob.glob("/opt/veriftools/wheels/hypothesis-*-cp312-*manylinux*.whl"))
        more = sorted(glob.glob("/opt/veriftools/wheels/sortedcontainers-*.whl"))
        if not wheels:
            sp = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
            if os.path.isdir(os.path.join(sp, "hypothesis")):
                sys.path.append(sp)
                return sp
            raise RuntimeError("no hypothesis wheel in /opt/veriftools/wheels")
        base = os.path.join(ROOT, "build")
        try:
            os.makedirs(base, exist_ok=True)
            tmp = tempfile.mkdtemp(prefix="vendor-", dir=base)
        except OSError:
            tmp = tempfile.mkdtemp(prefix="vfy-vendor-")
            dest = tmp
        for w in wheels[-1:] + more[-1:]:
            with zipfile.ZipFile(w) as z:
                z.extractall(tmp)
        open(os.path.join(tmp, ".complete"), "w").close()
        if dest != tmp:
            try:
                os.rename(tmp, dest)
            except OSError:  # someone else was faster
                if os.path.exists(ok):
                    shutil.rmtree(tmp, ignore_errors=True)
                else:
                    dest = tmp
    if dest not in sys.path:
        sys.path.insert(0, dest)
    return dest


def fresh_source_for_geocat():
    """Never trust a cached .pyc of the code under test: always compile the source."""
    loader = importlib.machinery.SourceFileLoader
    if getattr(loader, "_vfy_patched", False):
        return
    original = loader.get_code

    def get_code(self, fullname):
        if fullname.split(".")[0] == "geocat":
            path = self.get_filename(fullname)
            return self.source_to_code(self.get_data(path), path)
        return original(self, fullname)

    loader.get_code = get_code
    loader._vfy_patched = True


def load_sut():
    """Import geocat.comp from the working tree under REPO."""
    import warnings

    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    fresh_source_for_geocat()
    sys.path.insert(0, REPO)
    import dask

    dask.config.set(scheduler="synchronous")
    gc = importlib.import_module("geocat.comp")
    where = os.path.realpath(gc.__file__)
    want = os.path.realpath(os.path.join(REPO, "geocat", "comp"))
    if not where.startswith(want + os.sep):
        raise RuntimeError(f"geocat.comp was imported from {where}, not from {want}")
    warnings.simplefilter("ignore")
    return gc
