"""Isolated execution of cases, counting, evidence and violations."""

import collections
import ctypes
import faulthandler
import hashlib
import json
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

SCRATCH = os.environ.get("VERIF_SCRATCH")
HOME = os.environ.get("VERIF_HOME", "/verif")
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "src", "earthkit", "regrid")
PROCS = int(os.environ.get("VERIF_PROCS", 0)) or min(8, os.cpu_count() or 1)
DEBUG = bool(os.environ.get("VERIF_DEBUG"))

_libc = ctypes.CDLL(None, use_errno=True)


def die_with_parent():
    _libc.prctl(1, signal.SIGKILL)


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:12]


def bytecode_path(path):
    return os.path.join(SCRATCH, "pyc", hashlib.sha1(path.encode()).hexdigest() + ".pyc")


def no_stale_bytecode():
    """Always compile the code under test from its current source, once per run."""
    import importlib._bootstrap_external as be
    import py_compile

    orig = be.cache_from_source
    prefix = os.path.join(SCRATCH, "pyc")

    target = bytecode_path

    def cache_from_source(path, *args, **kwargs):
        path = os.fspath(path)
        if path.startswith(REPO + os.sep):
            return target(path)
        return orig(path, *args, **kwargs)

    os.makedirs(prefix, exist_ok=True)
    for root, _, files in os.walk(PKG):
        for f in files:
            if f.endswith(".py"):
                path = os.path.join(root, f)
                try:
                    py_compile.compile(path, cfile=target(path), doraise=True)
                except py_compile.PyCompileError:
                    pass
    be.cache_from_source = cache_from_source


# ---------------------------------------------------------------- children


def _write_all(fd, data):
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def _read_exact(fd, n, deadline=None):
    buf = bytearray()
    while len(buf) < n:
        if deadline is not None:
            left = deadline - time.monotonic()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                raise TimeoutError
        chunk = os.read(fd, min(1 << 20, n - len(buf)))
        if not chunk:
            raise EOFError
        buf += chunk
    return bytes(buf)


def send_msg(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    _write_all(fd, struct.pack("!Q", len(data)) + data)


def recv_msg(fd, deadline=None):
    (n,) = struct.unpack("!Q", _read_exact(fd, 8, deadline))
    return pickle.loads(_read_exact(fd, n, deadline))


def quiet():
    if DEBUG:
        return
    fd = os.open(os.devnull, os.O_RDWR)
    for i in (0, 1, 2):
        os.dup2(fd, i)
    os.close(fd)


def setup_dirs(d):
    """Use directory d for everything the process writes."""
    for n in ("home", "tmp"):
        os.makedirs(os.path.join(d, n), exist_ok=True)
    home = os.path.join(d, "home")
    os.environ["HOME"] = home
    os.environ["TMPDIR"] = os.path.join(d, "tmp")
    os.environ["XDG_CACHE_HOME"] = os.path.join(home, ".cache")
    os.environ["XDG_CONFIG_HOME"] = os.path.join(home, ".config")
    tempfile.tempdir = None
    os.chdir(d)


class ChildDied(Exception):
    pass


class ChildTimeout(Exception):
    pass


class ChildError(Exception):
    pass


def limit_memory(gb=6):
    """A case that asks for too much memory gets an error and does not harm the others."""
    import resource

    n = gb << 30
    try:
        resource.setrlimit(resource.RLIMIT_DATA, (n, n))
    except (ValueError, OSError):
        pass


def fork_call(fn, *args, timeout=120.0, scratch=None, own_dirs=True):
    """Run fn(*args) in a forked process with its own scratch directory, return its result.

    scratch: directory to use (kept), otherwise one is made and removed.
    """
    d = scratch or tempfile.mkdtemp(prefix="c", dir=os.path.join(SCRATCH, "work"))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            die_with_parent()
            os.close(r)
            faulthandler.register(signal.SIGUSR1, file=w, all_threads=True)
            quiet()
            limit_memory()
            if own_dirs:
                setup_dirs(d)
            try:
                res = ("ok", fn(*args))
            except BaseException:
                res = ("exc", traceback.format_exc())
            send_msg(w, res)
        except BaseException:
            code = 77
            if DEBUG:
                traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    try:
        try:
            res = recv_msg(r, time.monotonic() + timeout)
        except EOFError:
            res = ("died", None)
        except TimeoutError:
            # where is it?
            text = ""
            try:
                os.kill(pid, signal.SIGUSR1)
                if select.select([r], [], [], 2)[0]:
                    time.sleep(0.2)
                    text = os.read(r, 6000).decode(errors="replace")
            except OSError as e:
                text = str(e)
            res = ("timeout", f"no answer after {timeout} s {text}")
    finally:
        os.close(r)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        _, status = os.waitpid(pid, 0)
        if scratch is None:
            shutil.rmtree(d, ignore_errors=True)
    if res[0] == "ok":
        return res[1]
    if res[0] == "exc":
        raise ChildError(res[1])
    if res[0] == "timeout":
        raise ChildTimeout(res[1])
    raise ChildDied(f"process ended, status={status}")


def run_isolated(fn, args, timeout):
    """-> ("ok", result) | ("exc", traceback) | ("died", text) | ("timeout", text)"""
    try:
        return ("ok", fork_call(fn, *args, timeout=timeout))
    except ChildError as e:
        return ("exc", str(e))
    except ChildTimeout as e:
        return ("timeout", str(e))
    except ChildDied as e:
        return ("died", str(e))


class Pool:
    """Worker processes; every task runs in a process forked from a worker (isolated)."""

    def __init__(self, fn, procs=None, timeout=120.0, isolated=True, init=None):
        self.fn = fn
        self.init = init
        self.timeout = timeout
        self.isolated = isolated
        self.pending = collections.deque()
        self.idle = []
        self.busy = {}
        self.workers = []
        sys.stdout.flush()
        sys.stderr.flush()
        for _ in range(procs or PROCS):
            tr, tw = os.pipe()
            rr, rw = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    die_with_parent()
                    os.close(tw)
                    os.close(rr)
                    for w in self.workers:
                        os.close(w[1])
                        os.close(w[2])
                    self._worker(tr, rw)
                except BaseException:
                    if DEBUG:
                        traceback.print_exc()
                finally:
                    os._exit(0)
            os.close(tr)
            os.close(rw)
            w = (pid, tw, rr)
            self.workers.append(w)
            self.idle.append(w)

    def _worker(self, tr, rw):
        limit_memory()
        if self.init is not None:
            setup_dirs(tempfile.mkdtemp(prefix="w", dir=os.path.join(SCRATCH, "work")))
            if not DEBUG:
                quiet()
            self.init()
        while True:
            try:
                key, args = recv_msg(tr)
            except EOFError:
                return
            if self.isolated:
                res = run_isolated(self.fn, args, self.timeout)
            else:
                try:
                    res = ("ok", self.fn(*args))
                except BaseException:
                    res = ("exc", traceback.format_exc())
            send_msg(rw, (key, res))

    def submit(self, key, *args):
        self.pending.append((key, args))

    def _feed(self):
        while self.pending and self.idle:
            w = self.idle.pop()
            item = self.pending.popleft()
            self.busy[w[2]] = w
            send_msg(w[1], item)

    def results(self):
        """Yield (key, result) until everything submitted (also meanwhile) is done."""
        while True:
            self._feed()
            if not self.busy:
                return
            ready, _, _ = select.select(list(self.busy), [], [])
            for fd in ready:
                w = self.busy.pop(fd)
                item = recv_msg(fd)
                self.idle.append(w)
                self._feed()
                yield item

    def cancel(self):
        self.pending.clear()

    def close(self):
        for pid, tw, rr in self.workers:
            os.close(tw)
        for pid, tw, rr in self.workers:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            os.close(rr)


# ---------------------------------------------------------------- context


def unexpected(text):
    """Is this traceback of an error the code under test raised where the check does not expect one, or of one which
    its answers caused (no error of the check on the unchanged tree has one)? Other errors are those of the check."""
    if PKG in text or "mc.core.Child" in text:
        return True
    last = text.strip().splitlines()[-1]
    return last.startswith(("KeyError", "IndexError", "TypeError", "ValueError", "AssertionError", "sqlite3."))


class Ctx:
    def __init__(self, pid, level, replay_fn=None, known=None):
        self.id = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.monotonic()
        default = 300 if self.tier == "quick" else 820
        self.budget = float(os.environ.get("VERIF_BUDGET", 0)) or default
        self.counts = collections.Counter()
        self.distinct = set()
        self.states = set()
        self.samples = []
        self.families = {}
        self.capped = []
        self.violations = []
        self.notes = []
        self.errors = []
        self.replay_fn = replay_fn
        self.known = known or []
        self.known_seen = []
        self.assumptions = []
        self.rule = ""
        self.max_violations = 3

    @property
    def thorough(self):
        return self.tier == "thorough"

    def elapsed(self):
        return time.monotonic() - self.t0

    def left(self):
        return self.budget - self.elapsed()

    def sample(self, x, per_family=2, family=None):
        f = str(family)
        n = self.families.setdefault(f, {}).setdefault("samples", 0)
        if n < per_family:
            self.families[f]["samples"] = n + 1
            self.samples.append(x if family is None else {"family": family, "case": x})

    # -- results of cases

    def absorb(self, family, case, res):
        """Count the result of a case, record the problems it reports."""
        fam = self.families.setdefault(str(family), {})
        fam["cases"] = fam.get("cases", 0) + 1
        kind, val = res
        if kind == "ok":
            for k, v in (val.get("counts") or {}).items():
                self.counts[k] += v
                fam[k] = fam.get(k, 0) + v
            for x in val.get("distinct") or ():
                self.distinct.add(x if isinstance(x, str) else digest(x))
            for x in val.get("states") or ():
                self.states.add(x if isinstance(x, str) else digest(x))
            problems = val.get("problems") or []
            if val.get("sample") is not None:
                self.sample(val["sample"], family=family)
        elif kind == "exc" and unexpected(val):
            problems = ["unexpected error: " + val[-1500:]]
        elif kind == "exc":
            self.errors.append(f"error of the check in case {family} {str(case)[:1000]}:\n{val}")
            problems = []
        else:
            problems = [f"{kind}: {val}"]
        if problems:
            self.problem(family, case, problems)
        return problems

    def problem(self, family, case, problems):
        if any(v["case"] == case for v in self.violations):
            return
        if len(self.violations) >= self.max_violations:
            self.counts["further_failing_cases"] += 1
            return
        for k in self.known:
            if k["match"](family, case, problems):
                if k["text"] not in self.known_seen:
                    self.known_seen.append(k["text"])
                return
        # the same case must fail again
        confirmed = self.replay_fn is None
        tries = 0
        while not confirmed and tries < 3:
            tries += 1
            kind, val = run_isolated(self.replay_fn, (case,), 200)
            if kind in ("died", "timeout") or (kind == "exc" and unexpected(val)):
                confirmed = True
            elif kind == "ok" and val.get("problems"):
                confirmed = True
                problems = val["problems"]
            elif kind == "exc":
                self.notes.append(f"error while replaying {family}: {val[-600:]}")
        if not confirmed:
            self.notes.append(f"not reproduced: {family} {case!r:.800} {problems[:2]}")
            self.counts["not_reproduced"] += 1
            return
        if isinstance(case, dict):
            case = {k: v for k, v in case.items() if k not in ("names", "before", "after")}
        self.violations.append({"family": family, "case": case, "problems": problems[:10]})

    def run_cases(self, fn, cases, timeout=120.0, procs=None, init=None):
        """cases: iterable of (family, case); fn(case) -> dict, each in its own process."""
        pool = Pool(_call1(fn), procs=procs, timeout=timeout, init=init)
        try:
            todo = {}
            for i, (family, case) in enumerate(cases):
                todo[i] = (family, case)
                pool.submit(i, case)
            total = len(todo)
            done = 0
            for key, res in pool.results():
                done += 1
                family, case = todo.pop(key)
                self.absorb(family, case, res)
                if self.left() < 0 and pool.pending:
                    self.capped.append(f"time budget reached: {done} of {total} cases run")
                    pool.cancel()
                if len(self.errors) > 20 and pool.pending:
                    self.capped.append("stopped after errors of the check")
                    pool.cancel()
                if len(self.violations) >= self.max_violations and pool.pending:
                    self.capped.append("stopped after the first violations")
                    pool.cancel()
        finally:
            pool.close()

    # -- output

    def finish(self):
        cov = {}
        if self.level == "model_checking":
            cov["states"] = len(self.states)
            cov["transitions"] = self.counts.pop("transitions", 0)
            cov["traces_validated_against_impl"] = self.counts.pop("traces", 0)
        else:
            cov["evaluations"] = self.counts.pop("evaluations", 0)
            cov["distinct_nontrivial"] = len(self.distinct)
            cov["rule"] = self.rule
        if self.level == "model_checking" and self.distinct:
            cov["distinct_outcomes"] = len(self.distinct)
        cov["exhaustive"] = not self.capped
        if self.capped:
            cov["caps_hit"] = self.capped
        cov["other_counts"] = dict(self.counts)
        cov["families"] = {k: {a: b for a, b in v.items() if a != "samples"} for k, v in self.families.items()}
        cov["samples"] = self.samples[:12]
        if self.notes:
            cov["notes"] = self.notes[:20]
        if self.rule and "rule" not in cov:
            cov["rule"] = self.rule
        ev = {
            "property": self.id,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(self.elapsed(), 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(HOME, "evidence"), exist_ok=True)
        path = os.path.join(HOME, "evidence", f"{self.id}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(path + ".tmp", path)

        for t in self.known_seen:
            print(f"KNOWN-FINDING: property={self.id} {t}")
        if DEBUG or os.environ.get("VERIF_VERBOSE"):
            print(json.dumps(cov, indent=1, default=str)[:6000])
        print(
            f"{self.id} {self.tier}: "
            + ", ".join(
                f"{k}={v}" for k, v in cov.items() if isinstance(v, (int, bool)) and k not in ("samples",)
            )
            + f", wall={self.elapsed():.1f}s"
        )
        if self.capped:
            print("caps:", "; ".join(self.capped))
        for n in self.notes[:5]:
            print("note:", n[:1500])
        rc = 0
        for v in self.violations:
            rc = 1
            os.makedirs(os.path.join(HOME, "replays"), exist_ok=True)
            name = f"{self.id}-{digest([v['family'], v['case']])}.json"
            path = os.path.join(HOME, "replays", name)
            with open(path, "w") as f:
                json.dump({"property": self.id, **v}, f, indent=1, default=str)
            for p in v["problems"][:3]:
                print(f"  [{v['family']}] {str(p)[:1500]}")
            print(f"VIOLATION property={self.id} replay={path}")
        for e in self.errors[:3]:
            print(e[-3000:])
        if self.errors and not rc:
            # no answer
            rc = 2
        sys.stdout.flush()
        return rc


class _call1:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *args):
        return self.fn(*args)
