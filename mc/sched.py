"""Controlled scheduling of the threads of the code under test.

Real threads, of which exactly one runs at a time (it holds the baton). At every scheduling point
the next thread is chosen: the running one if it can go on, otherwise the enabled one with the highest
priority (the lowest number), unless the schedule (a list of deviations) says differently: then the
chosen thread gets the highest priority and the interrupted one the lowest. Scheduling points:

* acquire / release / wait / notify of locks, conditions, events and semaphores created by the code
  under test (the factories in `threading` are replaced before it is imported), thread start and
  join, time.sleep;
* every source line of the code under test that does more than work on local variables;
* the store of a read-modify-write of an attribute or global variable in one line.

A thread polling with time.sleep can go on only after another thread has made a step. No enabled
thread while a test thread has not ended is a deadlock, too many points a livelock.
"""

import _thread
import dis
import marshal
import os
import sys
import threading
import time
import zlib

from .core import PKG

_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock
_orig = {
    "Lock": threading.Lock,
    "RLock": threading.RLock,
    "Condition": threading.Condition,
    "Event": threading.Event,
    "Semaphore": threading.Semaphore,
    "BoundedSemaphore": threading.BoundedSemaphore,
    "start": threading.Thread.start,
    "join": threading.Thread.join,
    "is_alive": threading.Thread.is_alive,
    "sleep": time.sleep,
}

S = None  # the active scheduler


class Abort(BaseException):
    pass


class Diverged(Exception):
    pass


class T:
    __slots__ = ("id", "name", "sem", "cond", "lazy", "stamp", "done", "test", "steps", "thread", "timed", "prio")

    def __init__(self, id, name, test):
        self.id = id
        self.prio = id
        self.name = name
        self.sem = _real_lock()
        self.sem.acquire()
        self.cond = None
        self.lazy = False
        self.timed = False
        self.stamp = 0
        self.done = False
        self.test = test
        self.steps = 0
        self.thread = None


class Scheduler:
    def __init__(self, deviations=(), horizon=60000, gate=None):
        self.dev = {d[0]: d for d in deviations}
        self.horizon = horizon
        self.threads = []
        self.by_ident = {}
        self.current = None
        self.recording = False
        self.trace = []  # (number of choices, current still enabled, signature)
        self.total = 0
        self.progress = 0
        self.failure = None
        self.finished = _real_lock()
        self.finished.acquire()
        self.lazy_only = 0
        self.gate = gate  # for several processes, see procs.py
        self.tracing = True
        self.on_point = None  # called at each point, e.g. to kill the process

    # -- called by the running thread

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def point(self, kind, where=""):
        me = self.me()
        if me is None or self.failure:
            if self.failure and me is not None:
                raise Abort
            return
        if not POINTS_IN_IMPORTS and _importing():
            return
        if self.on_point is not None:
            self.on_point(kind, where)
        if self.gate is not None:
            self.gate(me, kind, where)
        self._switch(me, kind, where)

    def block(self, cond, kind, where="", timed=False):
        """Wait until cond() holds. -> False if it only goes on because of a timeout"""
        me = self.me()
        if me is None:
            if not cond() and not timed:
                raise RuntimeError(f"blocking outside of the scheduler: {kind} {where}")
            return cond()
        me.cond = cond
        me.timed = timed
        me.stamp = self.progress
        self._switch(me, kind, where)
        me.cond = None
        me.timed = False
        return cond()

    def sleep(self, where=""):
        me = self.me()
        if me is None:
            return
        me.lazy = True
        me.stamp = self.progress
        if self.gate is not None:
            self.gate(me, "sleep", where)
        self._switch(me, "sleep", where)
        me.lazy = False

    def _eligible(self):
        now, later = [], []
        for t in self.threads:
            if t.done:
                continue
            if t.lazy:
                later.append(t)
            elif t.cond is None or t.cond():
                now.append(t)
            elif t.timed:
                later.append(t)
        return now, later

    def _switch(self, me, kind, where):
        if self.failure:
            raise Abort
        me.steps += 1
        self.total += 1
        if not me.lazy:
            self.progress += 1
        if self.total > self.horizon:
            self.fail(f"livelock: more than {self.horizon} scheduling points")
            raise Abort
        now, later = self._eligible()
        # a sleeping thread can go on once another thread has made a step
        ready_later = [t for t in later if not now or t.stamp < self.progress - 1]
        if not now:
            self.lazy_only += 1
            if self.lazy_only > 3000:
                self.fail(f"livelock: only polling threads are left: {[t.name for t in later]}")
                raise Abort
        else:
            self.lazy_only = 0
        order = ([me] if me in now else []) + sorted([t for t in now if t is not me], key=lambda t: t.prio)
        # polling threads take turns
        order += sorted(ready_later, key=lambda t: (t is me, t.stamp, t.id))
        if not order:
            blocked = [t.name for t in self.threads if not t.done and t.test]
            if blocked:
                self.fail(f"deadlock: {blocked} blocked for ever ({kind} {where})")
                raise Abort
            self.finished.release()
            me.sem.acquire()
            raise Abort
        i = 0
        if self.recording and len(order) > 1:
            sig = zlib.crc32(f"{me.id}{kind}{where}{[t.id for t in order]}".encode()) & 0xFFFF
            n = len(self.trace)
            d = self.dev.get(n)
            if d is not None:
                if d[1] >= len(order) or (len(d) > 2 and d[2] is not None and d[2] != sig):
                    self.fail(f"diverged at point {n}: {kind} {where}")
                    raise Abort
                i = d[1]
            self.trace.append((len(order), 1 if order[0] is me else 0, sig))
        nxt = order[i]
        if i:
            self._prefer(nxt, me)
        if nxt is not me:
            self.current = nxt
            nxt.sem.release()
            me.sem.acquire()
            if self.failure:
                raise Abort

    def _prefer(self, nxt, me):
        """After a deviation: the chosen thread goes on as long as it can, the interrupted one comes last."""
        ps = [t.prio for t in self.threads]
        nxt.prio = min(ps) - 1
        if me is not nxt:
            me.prio = max(ps) + 1

    def fail(self, text):
        if self.failure is None:
            self.failure = text
            self.finished.release()

    # -- threads

    def register(self, name, test):
        t = T(len(self.threads), name, test)
        self.threads.append(t)
        return t

    def body(self, t, fn):
        """What a controlled thread does."""
        self.by_ident[_thread.get_ident()] = t
        t.sem.acquire()
        try:
            if not self.failure:
                fn()
        except Abort:
            return
        finally:
            t.done = True
            if not self.failure:
                self._leave(t)

    def _leave(self, me):
        self.progress += 1
        now, later = self._eligible()
        order = sorted(now, key=lambda t: t.prio) + sorted(later, key=lambda t: (t.stamp, t.id))
        if not any(t.test and not t.done for t in self.threads) and not now:
            self.finished.release()
            return
        if not order:
            blocked = [t.name for t in self.threads if not t.done and t.test]
            if blocked:
                self.fail(f"deadlock: {blocked} blocked for ever")
            else:
                self.finished.release()
            return
        i = 0
        if self.recording and len(order) > 1:
            sig = zlib.crc32(f"{me.id}leave{[t.id for t in order]}".encode()) & 0xFFFF
            n = len(self.trace)
            d = self.dev.get(n)
            if d is not None:
                if d[1] >= len(order) or (len(d) > 2 and d[2] is not None and d[2] != sig):
                    self.fail(f"diverged at point {n}: leave")
                    return
                i = d[1]
            self.trace.append((len(order), 0, sig))
        if i:
            self._prefer(order[i], me)
        self.current = order[i]
        order[i].sem.release()

    def spawn(self, name, fn, test=True):
        t = self.register(name, test)
        _thread.start_new_thread(self.body, (t, fn))
        return t

    def run(self, main, timeout=60):
        """Run main() as the first controlled thread until all the test threads have ended."""
        global S
        S = self
        tracing_on()
        t = self.spawn("main", main)
        self.current = t
        t.sem.release()
        if not self.finished.acquire(timeout=timeout):
            self.failure = self.failure or (
                "no progress: a thread is blocked outside of the scheduler; threads: "
                + str([(t.name, t.steps) for t in self.threads if not t.done])
            )
        return self.failure

    def join(self, threads):
        self.block(lambda: all(t.done for t in threads), "join")


# ---------------------------------------------------------------- primitives


class SLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    reentrant = False

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.reentrant and self._owner == me and self._count:
            self._count += 1
            return True
        if S is not None:
            S.point("acquire")
        while self._count:
            if not blocking:
                return False
            if S is None or S.me() is None:
                raise RuntimeError("lock held outside of the scheduler")
            ok = S.block(lambda: not self._count, "lock", timed=timeout >= 0)
            if not ok and timeout >= 0:
                return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if not self._count:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            if S is not None:
                S.point("release")

    def locked(self):
        return bool(self._count)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._count and self._owner == _thread.get_ident()


class SRLock(SLock):
    reentrant = True


class SCondition:
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else SRLock()
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self._waiters = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        w = [False]
        self._waiters.append(w)
        lock = self._lock
        count = lock._count
        lock._count = 0
        lock._owner = None
        if S is None or S.me() is None:
            raise RuntimeError("wait outside of the scheduler")
        S.block(lambda: w[0], "wait", timed=timeout is not None)
        ok = w[0]
        if not ok and w in self._waiters:
            self._waiters.remove(w)
        while lock._count:
            S.block(lambda: not lock._count, "lock")
        lock._count = count
        lock._owner = _thread.get_ident()
        return ok

    def wait_for(self, predicate, timeout=None):
        r = predicate()
        while not r:
            if not self.wait(timeout) and timeout is not None:
                return predicate()
            r = predicate()
        return r

    def notify(self, n=1):
        if not self._lock._count:
            raise RuntimeError("cannot notify on un-acquired lock")
        for w in self._waiters[:n]:
            w[0] = True
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class SEvent:
    def __init__(self):
        self._flag = False

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        if S is not None:
            S.point("event.set")
        self._flag = True

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        if S is not None:
            S.point("event.wait")
        if not self._flag:
            S.block(lambda: self._flag, "event", timed=timeout is not None)
        return self._flag


class SSemaphore:
    def __init__(self, value=1):
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        if S is not None:
            S.point("sem.acquire")
        while self._value == 0:
            if not blocking:
                return False
            if not S.block(lambda: self._value > 0, "sem", timed=timeout is not None) and timeout is not None:
                return False
        self._value -= 1
        return True

    __enter__ = acquire

    def release(self, n=1):
        self._value += n
        if S is not None:
            S.point("sem.release")

    def __exit__(self, *a):
        self.release()


_SKIP = ("threading.py", "queue.py", "functools.py", "contextlib.py", "dataclasses.py")


def _created_by_package():
    f = sys._getframe(2)
    if f.f_code.co_filename == threading.__file__ and f.f_code.co_name == "__init__":
        if isinstance(f.f_locals.get("self"), threading.Thread):
            return False
    while f is not None:
        fn = f.f_code.co_filename
        if fn.startswith(PKG):
            return True
        if os.path.basename(fn) in _SKIP or "concurrent/futures" in fn or fn == __file__:
            f = f.f_back
            continue
        return False
    return False


def _factory(name, cls):
    orig = _orig[name]

    def make(*args, **kwargs):
        if _created_by_package():
            return cls(*args, **kwargs)
        return orig(*args, **kwargs)

    return make


def _start(self):
    if S is None or S.me() is None:
        return _orig["start"](self)
    t = S.register(self.name, False)
    t.thread = self
    self._mc = t
    run = self.run

    def body():
        S.body(t, run)

    self.run = body
    _orig["start"](self)
    S.point("start")


def _join(self, timeout=None):
    t = getattr(self, "_mc", None)
    if t is None or S is None or S.me() is None:
        return _orig["join"](self, timeout)
    S.point("join")
    if not t.done:
        S.block(lambda: t.done, "join", timed=timeout is not None)


def _sleep(seconds):
    if S is not None and S.me() is not None:
        S.sleep()
        return
    _orig["sleep"](seconds)


def install():
    """To be called before the code under test is imported."""
    threading.Lock = _factory("Lock", SLock)
    threading.RLock = _factory("RLock", SRLock)
    threading.Condition = _factory("Condition", SCondition)
    threading.Event = _factory("Event", SEvent)
    threading.Semaphore = _factory("Semaphore", SSemaphore)
    threading.BoundedSemaphore = _factory("BoundedSemaphore", SSemaphore)
    threading.Thread.start = _start
    threading.Thread.join = _join
    time.sleep = _sleep


# ---------------------------------------------------------------- line points

_LOCAL = {
    "RESUME", "LOAD_FAST", "STORE_FAST", "LOAD_CONST", "POP_TOP", "RETURN_VALUE", "RETURN_CONST", "COMPARE_OP",
    "POP_JUMP_IF_FALSE", "POP_JUMP_IF_TRUE", "POP_JUMP_IF_NONE", "POP_JUMP_IF_NOT_NONE", "JUMP_FORWARD", "JUMP_BACKWARD",
    "BINARY_OP", "UNARY_NOT", "IS_OP", "COPY", "SWAP", "NOP", "PUSH_NULL", "BUILD_TUPLE", "BUILD_LIST", "BUILD_MAP",
    "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "FORMAT_VALUE", "BUILD_STRING", "CACHE", "KW_NAMES", "END_FOR",
    "MAKE_FUNCTION", "LOAD_CLOSURE", "MAKE_CELL", "COPY_FREE_VARS", "UNPACK_SEQUENCE", "PUSH_EXC_INFO", "POP_EXCEPT",
    "RERAISE", "CHECK_EXC_MATCH", "RAISE_VARARGS", "IMPORT_NAME", "IMPORT_FROM", "LIST_EXTEND", "BUILD_CONST_KEY_MAP",
}  # fmt: skip
_LOGS = {"LOG", "debug", "info", "warning", "error", "exception", "isinstance", "str", "len", "int", "float"}
_lines = {}


def _interesting(code):
    """-> (lines with a point, {offset of a store of a read-modify-write})"""
    r = _lines.get(code)
    if r is not None:
        return r
    ops = {}
    line = None
    for ins in dis.get_instructions(code):
        if ins.starts_line is not None:
            line = ins.starts_line
        if ins.positions and ins.positions.lineno:
            line = ins.positions.lineno
        ops.setdefault(line, []).append(ins)
    lines = set()
    stores = set()
    for ln, lst in ops.items():
        local = True
        names = set()
        loaded = set()
        for ins in lst:
            if ins.opname in ("LOAD_ATTR", "LOAD_GLOBAL", "LOAD_METHOD"):
                names.add(ins.argval)
                loaded.add((ins.opname[-4:], ins.argval))
                if ins.argval not in _LOGS:
                    local = False
            elif ins.opname in ("CALL", "CALL_FUNCTION_EX", "CALL_INTRINSIC_1", "PRECALL"):
                pass
            elif ins.opname in ("STORE_ATTR", "STORE_GLOBAL"):
                local = False
                if any(n == ins.argval for _, n in loaded):
                    stores.add(ins.offset)
            elif ins.opname not in _LOCAL:
                local = False
        if not local:
            lines.add(ln)
    r = (lines, stores)
    _lines[code] = r
    return r


FILES = None  # restrict the line points to files with these base names
SKIP_FILES = ()
SKIP_CODE = ()  # names of functions
_mon = sys.monitoring
_TOOL = 4
_on = False
POINTS_IN_IMPORTS = False  # for processes with a single thread


PREFIXES = [PKG]  # the sources whose lines are points


def _start_event(code, offset):
    fn = code.co_filename
    if not fn.startswith(tuple(PREFIXES)):
        return _mon.DISABLE
    base = os.path.basename(fn)
    if (FILES is not None and base not in FILES) or base in SKIP_FILES or code.co_name == "<module>" or code.co_name in SKIP_CODE:
        return _mon.DISABLE
    lines, stores = _interesting(code)
    events = 0
    if lines:
        events |= _mon.events.LINE
    if stores:
        events |= _mon.events.INSTRUCTION
    if events:
        _mon.set_local_events(_TOOL, code, events)
    return _mon.DISABLE


def _line_event(code, line):
    if line not in _lines[code][0]:
        return _mon.DISABLE
    if S is not None and S.tracing:
        S.point("line", f"{os.path.basename(code.co_filename)}:{line}")


def _instruction_event(code, offset):
    if offset not in _lines[code][1]:
        return _mon.DISABLE
    if S is not None and S.tracing:
        S.point("store", f"{os.path.basename(code.co_filename)}:{offset}")


def tracing_on():
    """Make the lines of the code under test scheduling points (of controlled threads)."""
    global _on
    if _on:
        return
    _on = True
    _mon.use_tool_id(_TOOL, "mc")
    _mon.register_callback(_TOOL, _mon.events.PY_START, _start_event)
    _mon.register_callback(_TOOL, _mon.events.LINE, _line_event)
    _mon.register_callback(_TOOL, _mon.events.INSTRUCTION, _instruction_event)
    _mon.set_events(_TOOL, _mon.events.PY_START)


def prepare():
    """Analyse the code under test in advance, for the processes forked from here."""
    import types

    from .core import bytecode_path

    def walk(code):
        _interesting(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)

    for root, _, files in os.walk(PKG):
        for f in files:
            if f.endswith(".py"):
                path = os.path.join(root, f)
                try:
                    with open(bytecode_path(path), "rb") as g:
                        walk(marshal.loads(g.read()[16:]))
                except (OSError, SyntaxError, ValueError):
                    pass


def _importing():
    """Inside of an import, which holds locks the scheduler does not control: it is one step."""
    f = sys._getframe(2)
    while f is not None:
        c = f.f_code
        if c.co_name == "<module>" and c.co_filename.startswith(tuple(PREFIXES)):
            return True
        f = f.f_back
    return False


# ---------------------------------------------------------------- exploration


def explore(ctx, name, execute, bound, procs=None, max_free=2, case_extra=None, cap=None, timeout=90, init=None, family=None):
    """Deviation bounded search.

    execute(case) runs one execution in an isolated process, case = {"program", "dev": [...]},
    -> dict(trace=[(n, cur, sig)], problems=[], outcome=str, diverged=bool)
    """
    from .core import Pool
    from .core import _call1

    family = family or name
    fam = ctx.families.setdefault(
        family, {"preemption_bound": bound, "schedules": 0, "points_max": 0, "outcomes": 0, "capped": False}
    )
    outcomes = set()
    pool = Pool(_call1(execute), procs=procs, timeout=timeout, init=init)
    n = 0

    def submit(dev, cost, free):
        nonlocal n
        case = dict(case_extra or {}, program=name, dev=dev)
        pool.submit((dev, cost, free), case)

    try:
        submit([], 0, 0)
        for (dev, cost, free), (kind, val) in pool.results():
            n += 1
            case = dict(case_extra or {}, program=name, dev=dev)
            if kind == "ok" and val.get("diverged"):
                ctx.counts["diverged"] += 1
                if ctx.counts["diverged"] <= 3:
                    ctx.notes.append(f"diverged {family} {dev}: {val['diverged']}")
                continue
            if kind != "ok":
                ctx.absorb(family, case, (kind, val))
                continue
            ctx.counts["traces"] += 1
            fam["schedules"] += 1
            trace = val["trace"]
            ctx.counts["transitions"] += len(trace)
            fam["points_max"] = max(fam["points_max"], len(trace))
            outcomes.add(val["outcome"])
            ctx.distinct.add(f"{family}:{val['outcome']}")
            ctx.states.add(f"{family}:{val.get('state', val['outcome'])}")
            if fam["schedules"] in (1, 40):
                ctx.sample({"dev": dev, "points": len(trace), "outcome": val["outcome"][:300]}, family=family)
            if val["problems"]:
                ctx.problem(family, case, val["problems"])
            if len(ctx.violations) >= ctx.max_violations:
                pool.cancel()
                ctx.capped.append("stopped after the first violations")
                break
            if ctx.left() < 0 or (cap is not None and n >= cap):
                if pool.pending:
                    ctx.capped.append(f"{family}: stopped after {n} schedules, bound {bound}")
                    fam["capped"] = True
                pool.cancel()
                continue
            start = dev[-1][0] + 1 if dev else 0
            for i in range(start, len(trace)):
                choices, cur, sig = trace[i]
                c, f = cost + cur, free + (1 - cur)
                if c > bound or f > max_free:
                    continue
                for alt in range(1, choices):
                    submit(dev + [[i, alt, sig]], c, f)
    finally:
        pool.close()
    fam["outcomes"] = len(outcomes)
