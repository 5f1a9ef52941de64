"""File system faults, injected below the code under test.

An audit hook sees every ``open`` of the process whichever library asks for it. A plan names the
n-th matching event of an operation and what happens to it:

  ("open", k)      opening fails with EIO
  ("torn", k, n)   the file accepts n bytes only (kernel limit on file size), then EFBIG
"""
import errno
import os
import resource
import sys

_ACTIVE = None
_HARD = resource.getrlimit(resource.RLIMIT_FSIZE)[1]


def _limit(n):
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, _HARD))


class Faults:
    """Context in which events are counted, and at most one of them fails.

    ``select(path, writing)`` tells which opens are counted.
    """

    def __init__(self, select, plan=None, also=()):
        self.select = select
        self.plan = plan
        self.count = 0
        self.paths = []
        self.fired = False
        self.also = also

    def __enter__(self):
        global _ACTIVE
        _ACTIVE = self
        return self

    def __exit__(self, *exc):
        global _ACTIVE
        _ACTIVE = None
        _limit(_HARD)
        return False

    def event(self, path, writing):
        if self.fired and self.plan[0] == "torn":
            _limit(_HARD)
        if not self.select(path, writing):
            return
        k = self.count
        self.count += 1
        self.paths.append(path)
        if self.plan is not None and not self.fired and k == self.plan[1]:
            self.fired = True
            if self.plan[0] == "open":
                raise OSError(errno.EIO, "injected", path)
            _limit(self.plan[2])


def _hook(name, args):
    if _ACTIVE is None:
        return
    if name == "open":
        path, mode, flags = args
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not isinstance(path, str):
            return
        writing = bool(flags & (os.O_WRONLY | os.O_RDWR)) if isinstance(flags, int) else False
        _ACTIVE.event(path, writing)
    elif name in _ACTIVE.also:
        path = args[0]
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if isinstance(path, str):
            _ACTIVE.event(path, True)


sys.addaudithook(_hook)


def new_data_file(base):
    """Select the opening for writing of data files below ``base``."""
    base = os.path.abspath(base)

    def select(path, writing):
        return writing and os.path.abspath(path).startswith(base) and path.endswith(".parquet")

    return select


# ------------------------------------------------------------------------------ process killed

class Killed(OSError):
    pass


MUTATING = ("open", "os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.truncate", "shutil.rmtree", "shutil.move", "os.link", "os.symlink")
_KILL = None


class Kill:
    """The disk as left by a process killed at a point of an operation.

    From event ``k`` on (files opened for writing, removed, renamed, directories made or removed, below ``base``), nothing
    reaches the disk any more; the file opened at event ``k`` is left with its ``n`` first bytes when ``n`` is given.
    Whatever the code does afterwards with the exceptions it gets is without effect, and its objects are to be forgotten.
    """

    def __init__(self, base, k=None, n=None):
        self.base = os.path.realpath(base)
        self.k = k
        self.n = n
        self.count = 0
        self.events = []  # (name, path relative to base)
        self.fired = False

    def __enter__(self):
        global _KILL
        _KILL = self
        return self

    def __exit__(self, *exc):
        global _KILL
        _KILL = None
        _limit(_HARD)
        return False

    def event(self, name, path):
        k = self.count
        self.count += 1
        self.events.append((name, path))
        if self.k is None or k < self.k:
            return
        self.fired = True
        if k == self.k and self.n is not None and name == "open":
            _limit(self.n)
            return
        raise Killed(errno.EIO, "process killed", path)


def _kill_hook(name, args):
    if _KILL is None or name not in MUTATING:
        return
    path = args[0]
    if name == "open":
        flags = args[2]
        if not (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR)):
            return
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not isinstance(path, (str, os.PathLike)):
        return
    path = os.fspath(path)
    if not os.path.isabs(path) and name in ("os.remove", "os.rmdir") and len(args) > 1 and args[1] != -1:
        _KILL.event(name, path)  # relative to an open directory: removal of a tree
        return
    full = os.path.realpath(path)
    if full == _KILL.base or full.startswith(_KILL.base + os.sep):
        _KILL.event(name, os.path.relpath(full, _KILL.base))


sys.addaudithook(_kill_hook)
