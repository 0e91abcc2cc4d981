"""Loads the real QuakeMigrate from /repo's working tree, with the C library built from
/repo's C sources into a scratch directory (nothing is written under /repo)."""
import ctypes
import os
import subprocess
import sys
import tempfile
import shutil
import logging

REPO = os.environ.get("QMSIM_REPO", "/repo")
PY = "/opt/venv/bin/python"

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "PROJ_NETWORK": "OFF",
    "PYPROJ_NETWORK": "OFF", "OMP_NUM_THREADS": "1", "OMP_WAIT_POLICY": "passive", "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1", "LANG": "C.UTF-8", "TZ": "UTC",
}


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


def build_lib(dest):
    """Compile /repo's C extension (its own setup.py, its own flags) into `dest`."""
    os.makedirs(dest, exist_ok=True)
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "READTHEDOCS")}
    env.update(ENV)
    p = subprocess.run(
        [PY, "-W", "ignore", "setup.py", "-q", "build_ext", "--force",
         "--build-lib", dest, "--build-temp", os.path.join(dest, "tmp")],
        cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("C extension does not build:\n" + p.stdout)
    for root, _, files in os.walk(dest):
        for f in files:
            if f.startswith("qmlib") and f.endswith(".so"):
                return os.path.join(root, f)
    raise RuntimeError("C extension build produced no library")


_loaded = False


def load(lib=None):
    """Import quakemigrate from REPO, with its C library redirected to `lib`."""
    global _loaded
    if _loaded:
        return
    lib = lib or os.environ["QMSIM_LIB"]
    for k, v in ENV.items():
        os.environ.setdefault(k, v)
    if "MPLCONFIGDIR" not in os.environ:
        os.environ["MPLCONFIGDIR"] = (
            "/opt/vp/mplconfig" if os.path.isdir("/opt/vp/mplconfig")
            else tempfile.mkdtemp(dir=scratch_base()))
    sys.dont_write_bytecode = True
    real = ctypes.CDLL

    class CDLL(real):
        def __init__(self, name, *a, **k):
            if name is not None and os.path.basename(str(name)).startswith("qmlib"):
                name = lib
            super().__init__(name, *a, **k)

    ctypes.CDLL = CDLL
    ctypes.cdll._dlltype = CDLL
    sys.path.insert(0, REPO)
    try:
        import quakemigrate  # noqa
    finally:
        ctypes.CDLL = real
        ctypes.cdll._dlltype = real
    assert os.path.realpath(quakemigrate.__file__).startswith(os.path.realpath(REPO) + "/"), quakemigrate.__file__
    import warnings
    warnings.filterwarnings("ignore")
    quiet_logging()
    _loaded = True


class _Null(logging.Handler):
    def emit(self, record):
        pass


def quiet_logging():
    """Root handler present, so that logging.basicConfig (as the code calls it) adds none."""
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(_Null())
    root.setLevel(logging.INFO)
