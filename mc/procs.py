"""Controlled scheduling of several processes that use the same files.

Each process is a real one, forked for the execution, whose threads run under sched.Scheduler; at each
of its scheduling points it asks the coordinator (over pipes) whether to go on, so that exactly one
process runs at a time. Waiting for a file lock (filelock polls with time.sleep) or for a database lock
(sqlite's busy handler) makes a process "lazy": it goes on only after another one has made a step.
"""

import faulthandler
import os
import select
import signal
import sqlite3
import struct
import time
import zlib

from . import sched
from .core import die_with_parent
from .core import recv_msg
from .core import send_msg

_BUSY_MS = 20


def _retry(call):
    while True:
        t = time.monotonic()
        try:
            return call()
        except sqlite3.OperationalError as e:
            if "locked" not in str(e) or sched.S is None or sched.S.me() is None:
                raise
            if time.monotonic() - t < _BUSY_MS / 2000:
                # sqlite did not wait: waiting would be a deadlock (a read cursor is open)
                raise
            sched.S.sleep("database")


class Connection(sqlite3.Connection):
    """Waits for database locks under the control of the scheduler."""

    def execute(self, *args):
        return _retry(lambda: super(Connection, self).execute(*args))

    def executemany(self, *args):
        return _retry(lambda: super(Connection, self).executemany(*args))

    def executescript(self, *args):
        return _retry(lambda: super(Connection, self).executescript(*args))

    def commit(self):
        return _retry(lambda: super(Connection, self).commit())

    def __exit__(self, t, v, tb):
        if t is None:
            try:
                self.commit()
            except BaseException:
                self.rollback()
                raise
        else:
            self.rollback()
        return False


_connect = sqlite3.connect


def connect(*args, **kwargs):
    kwargs["timeout"] = _BUSY_MS / 1000
    kwargs["factory"] = Connection
    return _connect(*args[:1], **kwargs)


class _Gate:
    def __init__(self, r, w):
        self.r = r
        self.w = w
        self.on = True

    def __call__(self, me, kind, where):
        if not self.on:
            return
        crc = zlib.crc32(f"{me.name}{kind}{where}".encode()) & 0xFFFF
        os.write(self.w, struct.pack("!BH", 1 if kind == "sleep" else 0, crc))
        if os.read(self.r, 1) != b"g":
            os._exit(3)


class Process:
    def __init__(self, i, fn, prepare):
        cr, cw = os.pipe()  # coordinator -> process
        pr, pw = os.pipe()  # process -> coordinator
        rr, rw = os.pipe()  # result
        pid = os.fork()
        if pid == 0:
            try:
                die_with_parent()
                faulthandler.register(signal.SIGUSR1, open(f"stacks.{i}", "w"))
                os.close(cw), os.close(pr), os.close(rr)
                gate = _Gate(cr, pw)
                gate.on = False
                s = sched.Scheduler(horizon=100000, gate=gate)
                s.tracing = False
                box = {}

                def main():
                    prepare()
                    gate.on = s.tracing = True
                    gate(s.me(), "start", i)
                    box["result"] = fn()
                    gate.on = s.tracing = False

                failure = s.run(main, timeout=100)
                gate.on = False
                send_msg(rw, (failure, box.get("result")))
                os.write(pw, struct.pack("!BH", 2, 0))
            except BaseException:
                import traceback

                try:
                    send_msg(rw, (traceback.format_exc(), None))
                    os.write(pw, struct.pack("!BH", 2, 0))
                except OSError:
                    pass
            finally:
                os._exit(0)
        os.close(cr), os.close(pw), os.close(rw)
        self.i = self.prio = i
        self.pid = pid
        self.go_fd = cw
        self.fd = pr
        self.res_fd = rr
        self.done = False
        self.lazy = False
        self.stamp = 0
        self.crc = 0
        self.read()

    def read(self, timeout=60):
        if not select.select([self.fd], [], [], timeout)[0]:
            os.kill(self.pid, signal.SIGUSR1)
            time.sleep(0.5)
            with open(f"stacks.{self.i}") as f:
                raise TimeoutError(f"process {self.i} does not reach its next point {f.read()}")
        data = os.read(self.fd, 3)
        if len(data) < 3:
            self.done = True
            self.result = ("process ended", None)
            return
        kind, self.crc = struct.unpack("!BH", data)
        self.lazy = kind == 1
        if kind == 2:
            self.done = True
            self.result = recv_msg(self.res_fd)

    def step(self):
        os.write(self.go_fd, b"g")
        self.read()

    def close(self):
        for fd in (self.go_fd, self.fd, self.res_fd):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)


def run(fns, prepare, deviations, horizon=60000):
    """Run the functions in processes. -> dict(trace, failure, results)"""
    dev = {d[0]: d for d in deviations}
    trace = []
    failure = None
    ps = []
    sqlite3.connect = connect
    try:
        for i, fn in enumerate(fns):
            ps.append(Process(i, fn, prepare))
        cur = None
        progress = 0
        lazy_rounds = 0
        n = 0
        while True:
            alive = [p for p in ps if not p.done]
            if not alive:
                break
            n += 1
            if n > horizon:
                failure = f"livelock: more than {horizon} points"
                break
            now = [p for p in alive if not p.lazy]
            later = [p for p in alive if p.lazy]
            if not now:
                lazy_rounds += 1
                if lazy_rounds > 200:
                    failure = f"blocked for ever: processes {[p.i for p in later]} wait for locks"
                    break
            else:
                lazy_rounds = 0
            ready = [p for p in later if not now or p.stamp < progress - 1]
            order = ([cur] if cur in now else []) + sorted([p for p in now if p is not cur], key=lambda p: p.prio)
            order += sorted(ready, key=lambda p: (p is cur, p.stamp, p.i))
            i = 0
            if len(order) > 1:
                sig = zlib.crc32(f"{[(p.i, p.crc) for p in order]}".encode()) & 0xFFFF
                d = dev.get(len(trace))
                if d is not None:
                    if d[1] >= len(order) or (len(d) > 2 and d[2] is not None and d[2] != sig):
                        failure = f"diverged at point {len(trace)}"
                        break
                    i = d[1]
                trace.append((len(order), 1 if order[0] is cur else 0, sig))
            if i:
                ps_ = [p.prio for p in ps]
                order[i].prio = min(ps_) - 1
                if cur is not None and cur is not order[i]:
                    cur.prio = max(ps_) + 1
            cur = order[i]
            cur.step()
            if cur.lazy:
                cur.stamp = progress
            else:
                progress += 1
        results = [getattr(p, "result", (None, None)) for p in ps]
    except TimeoutError as e:
        failure = str(e)
        results = []
    finally:
        for p in ps:
            p.close()
        sqlite3.connect = _connect
    return {"trace": trace, "failure": failure, "results": results}
