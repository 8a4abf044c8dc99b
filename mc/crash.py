"""Kill points: the process is ended with os._exit at the k-th point of an execution.

The execution runs under the scheduler of sched.py with its default schedule, so that the k-th point is
always the same. Points: the lines of the code under test (and of filelock or multiurl) that do more than
work on local variables, the operations on locks, and what the harness marks with point(). Files opened
for writing by the code under test are written through: a write can be cut after any half.
"""

import builtins
import hashlib
import io
import os
import sys

from . import sched
from .core import PKG

_n = 0
_kill = None
_log = None
_observe = None
_seen = []  # (point, digest of what is on the disk)


def disk_state(dirs):
    """Digest of everything below the directories: what a process started later finds."""
    h = hashlib.sha1()
    for top in dirs:
        for root, ds, fs in os.walk(top):
            ds.sort()
            h.update(repr((root, ds, sorted(fs))).encode())
            for f in sorted(fs):
                try:
                    with _open(os.path.join(root, f), "rb") as g:
                        h.update(g.read())
                except OSError:
                    h.update(b"-")
    return h.hexdigest()


def point(kind="mark", where=""):
    """A kill point."""
    global _n
    if _kill is None:
        return
    _n += 1
    if _observe is not None:
        d = disk_state(_observe)
        if not _seen or _seen[-1][1] != d:
            _seen.append((_n, d))
    if _log is not None:
        _log.append(f"{kind} {where}")
    if _n == _kill:
        os._exit(9)


def arm(k):
    """Start counting; k: the point at which the process ends, 0: never."""
    global _n, _kill
    _n = 0
    _kill = k


def disarm():
    global _kill
    _kill = None
    return _n


def points():
    return _n


def observe(dirs):
    """Record the points at which the content of the directories has changed.

    What happens after a kill depends only on what is on the disk (locks end with their process), so
    that these points stand for all the points.
    """
    global _observe
    _observe = dirs
    return _seen


def log_points():
    global _log
    _log = []
    return _log


GRAIN = 1  # bytes written before they reach the disk


class _Torn:
    """A file written through: each write can be interrupted in its middle."""

    def __init__(self, f):
        self._f = f
        self._held = []

    def _flush(self):
        if self._held:
            data, self._held = self._held[0][:0].join(self._held), []
            self._through(data)

    def write(self, data):
        self._held.append(data)
        if sum(len(d) for d in self._held) >= GRAIN:
            self._flush()
        return len(data)

    def _through(self, data):
        n = len(data)
        if _kill is not None and n > 1:
            point("write", "start")
            self._f.write(data[: n // 2])
            self._f.flush()
            point("write", "half")
            self._f.write(data[n // 2 :])
        else:
            self._f.write(data)
        self._f.flush()
        point("write", "end")

    def close(self):
        self._flush()
        self._f.close()

    def flush(self):
        self._flush()

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, name):
        if name in ("seek", "tell", "truncate", "fileno", "detach"):
            self._flush()
        return getattr(self._f, name)


_open = builtins.open


def torn_open(callers):
    """Replace open() for the code whose file name starts with one of the given prefixes."""

    def opener(file, mode="r", *args, **kwargs):
        f = _open(file, mode, *args, **kwargs)
        if any(c in mode for c in "wax+") and _kill is not None:
            fr = sys._getframe(1)
            while fr is not None and fr.f_code.co_filename.endswith(("contextlib.py", "gzip.py", "tempfile.py")):
                fr = fr.f_back
            if fr is not None and fr.f_code.co_filename.startswith(tuple(callers)):
                point("open", mode)
                return _Torn(f)
        return f

    builtins.open = opener
    io.open = opener


def system_calls():
    """The library of killsys.c, or None when it is not loaded."""
    import ctypes

    try:
        lib = ctypes.CDLL(None)
        lib.killsys_arm.argtypes = [ctypes.c_long]
        lib.killsys_disarm.restype = ctypes.c_long
        return lib
    except (AttributeError, OSError):
        return None


def run_system_calls(main, k, before=None):
    """Run main() with the k-th system call that changes the disk fatal (0: none).

    -> (number of calls, failure)
    """
    lib = system_calls()
    sched.PREFIXES[:] = [PKG]
    s = sched.Scheduler(horizon=400000)
    s.tracing = False
    box = {"n": 0}

    def body():
        if before is not None:
            before()
        lib.killsys_arm(k)
        main()
        box["n"] = lib.killsys_disarm()

    failure = s.run(body)
    return box["n"], failure


def run(main, k, prefixes=(), before=None):
    """Run main() with the k-th point fatal (0: none). before() runs first, without points.

    -> (number of points, failure)
    """
    sched.PREFIXES[:] = [PKG, *prefixes]
    torn_open([PKG, *prefixes])
    s = sched.Scheduler(horizon=400000)
    s.on_point = point
    s.tracing = False

    def body():
        if before is not None:
            before()
        s.tracing = True
        arm(k)
        main()
        disarm()

    failure = s.run(body)
    return points(), failure
