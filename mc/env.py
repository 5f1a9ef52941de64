"""Process environment of the checks: /repo on the path, private caches, scratch space.

Importing this module must come before importing numpy / numba / oups.
"""
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup(jit: bool):
    """Set the environment (called once, in the parent, before any heavy import)."""
    sys.dont_write_bytecode = True
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["TZ"] = "UTC"
    os.environ["NUMBA_NUM_THREADS"] = "1"
    os.environ["OMP_NUM_THREADS"] = "1"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    os.environ["VAEX_NUM_THREADS"] = "1"
    os.environ["VAEX_NUM_THREADS_IO"] = "1"
    os.environ["VAEX_CACHE_RESULTS"] = "false"
    os.environ["ARROW_NUM_THREADS"] = "1"
    if jit:
        os.environ.pop("NUMBA_DISABLE_JIT", None)
        os.environ["NUMBA_BOUNDSCHECK"] = "1"
    else:
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="verif-mc-", dir=base)
    os.environ["VERIF_SCRATCH"] = scratch
    os.environ["TMPDIR"] = tempfile.tempdir = scratch
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba")
    os.environ["VAEX_HOME"] = os.path.join(scratch, "vaex")
    os.environ["HOME"] = os.path.join(scratch, "home")
    for sub in ("numba", "vaex", "home"):
        os.makedirs(os.path.join(scratch, sub), exist_ok=True)
    sys.path.insert(0, REPO)
    contain(scratch)
    warnings.filterwarnings("ignore")
    os.environ["PYTHONWARNINGS"] = "ignore"
    return scratch


ESCAPES = []


def contain(scratch):
    """Refuse any removal or renaming outside the scratch directory, whatever the code under test does."""
    roots = [os.path.realpath(scratch), os.path.join(VERIF, "evidence")]

    def ok(path):
        try:
            path = os.path.realpath(os.fsdecode(path))
        except TypeError:
            return True  # a file descriptor
        return any(path == r or path.startswith(r + os.sep) for r in roots)

    def hook(name, args):
        if name in ("os.remove", "os.rmdir", "shutil.rmtree", "os.rename", "os.truncate", "shutil.move"):
            if name in ("os.remove", "os.rmdir") and args[1] != -1:
                return  # relative to an open directory: below a 'shutil.rmtree' already checked
            paths = args[:2] if name in ("os.rename", "shutil.move") else args[:1]
            for path in paths:
                if not ok(path):
                    ESCAPES.append((name, str(path)))
                    raise PermissionError(f"{name} of {path} outside scratch directory refused")

    sys.addaudithook(hook)


def cleanup(scratch):
    shutil.rmtree(scratch, ignore_errors=True)
