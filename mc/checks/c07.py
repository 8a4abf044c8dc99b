"""C07: concurrent users of a disk cache never see missing or partial files.

Small programs whose users are the threads of one process, or processes, on the real cache under a
controlled scheduler: all the schedules with at most k preemptions.
"""
import os
import time

from mc.checks import c05

LEVEL = "model_checking"
RULE = "state = outcome of a schedule (results of the users, final entries); transitions = scheduling points"
ASSUMPTIONS = [
    "preemption bounded schedules; switches inside sqlite, filelock and the interpreter are not explored",
    "a database lock is waited for as long as needed where sqlite would wait (it gives up after 5 s)",
]

KEYS = c05.KEYS
G = lambda k, m="": ["get", k, m]  # noqa: E731

# name -> (operations before, users, keys that somebody may remove)
PROGRAMS = {
    "same-cold": ([], [[G("a")], [G("a")]], ""),
    "same": ([G("b")], [[G("a")], [G("a")]], ""),
    "same-twice": ([G("b")], [[G("a"), G("a")], [G("a")]], ""),
    "reuse": ([G("a")], [[G("a")], [G("a")]], ""),
    "two": ([], [[G("a")], [G("b")]], ""),
    "directory": ([G("b")], [[G("d")], [G("d")]], ""),
    "refresh": ([G("a")], [[G("a", "force")], [G("a")]], ""),
    "refresh-refresh": ([G("a")], [[G("a", "force")], [G("a", "force")]], ""),
    "refresh-cold": ([], [[G("a", "force")], [G("a", "cb-true")]], ""),
    "fail": ([G("b")], [[G("a", "fail")], [G("a")]], ""),
    "refresh-fail": ([G("a")], [[G("a", "force-fail")], [G("a")]], ""),
    "purge": ([G("b")], [[G("a")], [["purge"]]], "ab"),
    "purge-reuse": ([G("a")], [[G("a")], [["purge"]]], "a"),
    "purge-other": ([G("o")], [[G("a")], [["purge", "other"]]], "o"),
    "purge-own": ([G("b"), G("o")], [[G("a"), G("o")], [["purge", "own"]]], "ab"),
    "evict": ([["max", 350], G("a"), G("b")], [[G("c")], [G("c")]], "ab"),
    "evict-create": ([["max", 350], G("a"), G("b")], [[G("o"), ["size"]], [G("e"), ["size"]]], "abeo"),
    "evict-reuse": ([["max", 330], G("a"), G("b")], [[G("o"), ["size"]], [G("a")]], "ab"),
    "shrink": ([G("a"), G("b")], [[["max", 150]], [G("o")]], "abo"),
    "inspect": ([G("a")], [[G("b")], [["entries"], ["size"], ["summary"]]], ""),
    "inspect-purge": ([G("a"), G("b")], [[["purge", "own"]], [["entries"], ["summary"]]], "ab"),
    "check": ([["max", 250], G("a")], [[G("b")], [["check"], ["size"]]], "a"),
    "slow-evict": ([["max", 350], G("b")], [[["slow"], G("a", "force")], [G("o"), G("a"), ["size"]]], "bo"),
    "slow-refresh": ([["max", 330], G("a"), G("b")], [[["slow"], G("b", "force"), ["size"]], [G("o"), ["size"], G("b")]], "abo"),
    "slow-same": ([G("b")], [[["slow"], G("a")], [G("a")]], ""),
    "slow-force": ([G("a")], [[["slow"], G("a", "force")], [G("a", "force")]], ""),
    "slow-purge": ([G("b")], [[["slow"], G("a")], [["purge"]]], "ab"),
    "three": ([], [[G("a")], [G("a")], [G("a")]], ""),
    "three-fail": ([], [[G("a", "fail")], [G("a")], [G("a")]], ""),
    "three-purge": ([G("a")], [[G("a")], [G("a")], [["purge"]]], "a"),
    # without a cache each one has a file of its own
    "off": ([], [[G("a"), G("a")], [G("a")]], ""),
    "off-fail": ([], [[G("a", "fail"), G("d")], [G("a"), G("d")]], ""),
    "off-temporary": ([], [[G("a"), G("b")], [G("b"), G("a")]], ""),
}  # fmt: skip
THREADS_ONLY = ("shrink", "off", "off-fail", "off-temporary")


def size_of(key, user):
    return KEYS[key][4] + user * 7


def content(key, user):
    n = size_of(key, user)
    return (f"{key}:{user}:".encode() * n)[:n]


def complete(key, data):
    return any(data == content(key, u) for u in range(5))


def read(path):
    """-> bytes, or None when it is removed meanwhile"""
    try:
        if os.path.isdir(path):
            r = b""
            for n in ("1", os.path.join("sub", "2")):
                with open(os.path.join(path, n), "rb") as f:
                    r += f.read()
            return r
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        return None


def mark(what):
    from mc import sched

    if sched.S is not None and sched.S.me() is not None and sched.S.tracing:
        sched.S.point("create", what)


class User:
    def __init__(self, number):
        import earthkit.regrid as ekr
        from earthkit.regrid.utils.caching import cache_file

        self.ekr = ekr
        self.cache_file = cache_file
        self.number = number
        self.creates = []
        self.results = []
        self.paths = []
        self.slow = False

    def creator(self, key, fail):
        data = content(key, self.number)

        def put(path, data):
            with open(path, "wb", buffering=0) as f:
                mark("open")
                f.write(data[:40])
                mark("half")
                f.write(data[40:])

        def create(path, args):
            self.creates.append(key)
            if self.slow:
                # as if it took more than two minutes
                t = time.time() - 600
                os.utime(path[:-4] + ".lock", (t, t))
                with open("slow", "wb"):
                    pass
            if KEYS[key][5]:
                os.makedirs(os.path.join(path, "sub"))
                put(os.path.join(path, "1"), data[:50])
                put(os.path.join(path, "sub", "2"), data[50:])
            else:
                put(path, data)
            if self.slow:
                os.unlink("slow")
            if fail:
                os.unlink(path)
                raise c05.Boom(key)
            return {"user": self.number}

        return create

    def op(self, op):
        """-> outcome"""
        cache = self.ekr.cache
        kind = op[0]
        try:
            if kind == "get":
                key, mode = op[1:]
                owner, args, ext, extra, _, _ = KEYS[key]
                force = {"force": True, "force-fail": True}.get(mode)
                if mode == "cb-true":

                    def force(a, p, d):
                        return True

                try:
                    p = self.cache_file(
                        owner, self.creator(key, mode.endswith("fail")), args,
                        hash_extra=extra, extension=ext, force=force,
                    )  # fmt: skip
                except c05.Boom:
                    return "boom"
                self.paths.append(p)
                data = read(p)
                if data is None:
                    return "missing"
                if not complete(key, data):
                    return f"wrong content of {key}: {len(data)} bytes {data[:20]}"
                return "ok"
            if kind == "purge":
                cache.purge() if len(op) == 1 else cache.purge(matcher=lambda e: e["owner"] == op[1])
            elif kind == "max":
                self.ekr.config.set("maximum-cache-size", op[1])
            elif kind == "size":
                n = cache.size()
                if not isinstance(n, int) or n < 0:
                    return f"wrong size {n}"
            elif kind == "entries":
                for e in cache.entries():
                    if e["owner"] not in ("own", "other"):
                        return f"wrong entry {e}"
            elif kind == "summary":
                cache.summary_dump_database()
            elif kind == "check":
                cache.check_size()
            elif kind == "slow":
                self.slow = True
            else:
                raise AssertionError(op)
        except Exception as e:
            import traceback

            return f"error {type(e).__name__}: {e} {traceback.format_exc()[-700:]}"
        return "ok"

    def run(self, ops):
        self.results = []
        for o in ops:
            self.results.append(self.op(o))
            mark("next")
        return {"results": self.results, "creates": self.creates}


def configure(limit=None):
    import earthkit.regrid as ekr

    ekr.config.set(
        {
            "user-cache-directory": os.path.abspath("D1"),
            "cache-policy": "user",
            "maximum-cache-size": limit,
            "maximum-cache-disk-usage": None,
        }
    )


_warm = []


def warm():
    from mc import sched

    if _warm:
        return
    _warm.append(1)
    sched.install()
    sched.prepare()
    # settings and formatting have no state shared between the users
    sched.SKIP_FILES = ("config.py", "humanize.py", "temporary.py", "html.py")
    import earthkit.regrid  # noqa: F401
    import earthkit.regrid.utils.caching  # noqa: F401
    import filelock  # noqa: F401


def virtual_clock():
    """For those who wait, ten minutes pass between two looks at the clock while a slow creation goes on."""
    path = os.path.abspath("slow")
    passed = [0]
    real = time.perf_counter

    def now():
        if os.path.exists(path):
            passed[0] += 600
        return real() + passed[0]

    time.perf_counter = now


def coarse_clock():
    """All the users look at the clock in the same tick."""
    import datetime

    from earthkit.regrid.utils import caching

    now = datetime.datetime.now()

    class DateTime(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return now

    class Module:
        datetime = DateTime

        def __getattr__(self, name):
            return getattr(datetime, name)

    caching.datetime = Module()


def finish_off(us):
    """-> (report, problems) when there is no cache"""
    problems = []
    paths = [p for u in us for p in u.paths]
    if len(set(paths)) != len(paths):
        problems.append("two requests share a file")
    for u in us:
        for p in u.paths:
            if read(p) not in [content(k, u.number) for k in KEYS]:
                problems.append(f"the file of user {u.number} holds {str(read(p))[:30]}")
    return len(paths), problems


def limit_of(setup):
    r = None
    for o in setup:
        if o[0] == "max":
            r = o[1]
    return r


def setup(ops):
    configure(limit_of(ops))
    u = User(0)
    for o in ops:
        if o[0] != "max":
            r = u.op(o)
            assert r == "ok", r
    u.ekr.cache.size()


def final():
    """-> (report, problems) with the operations of one more user"""
    import earthkit.regrid as ekr

    problems = []
    c = ekr.cache
    size = c.size()
    entries = c.entries()
    top = c.directory()
    files = {}
    for n in os.listdir(top):
        if ".db" in n or n.endswith(".lock"):
            continue
        files[os.path.join(top, n)] = read(os.path.join(top, n))
    names = {}
    held = {}
    for e in entries:
        held[e["path"]] = e["size"]
    for p, data in files.items():
        if p.endswith(".tmp"):
            problems.append(f"left over: {os.path.basename(p)[-12:]}")
            continue
        ks = [k for k in KEYS if data is not None and complete(k, data)]
        if not ks:
            problems.append(f"incomplete file at the end: {data[:20] if data else data}")
            continue
        names[p] = ks[0]
        if p not in held:
            problems.append(f"the file of {ks[0]} is not among the entries")
        elif held[p] != len(data):
            problems.append(f"the entry of {ks[0]} has size {held[p]}, its file {len(data)} bytes")
    for p in held:
        if p not in files and not p.endswith(".lock"):
            problems.append("an entry without file")
    if size != sum(len(d) for p, d in files.items() if p in names):
        problems.append(f"size() is {size}, the files {sorted(names.values())} have {sum(len(d or b'') for d in files.values())}")
    report = sorted(names.values())
    # the cache can still be used
    u = User(4)
    for o in (G("a"), G("d"), ["size"]):
        r = u.op(o)
        if r != "ok":
            problems.append(f"after all {o}: {r}")
    c.purge()
    if c.size() != 0 or c.entries():
        problems.append(f"after a final purge: {c.size()} bytes, {len(c.entries())} entries")
    return report, problems


def judge(name, results, removable):
    """Problems in the results of the users."""
    _, users, _ = PROGRAMS[name]
    problems = []
    creates = []
    for i, (ops, r) in enumerate(zip(users, results)):
        if r is None:
            problems.append(f"user {i} failed")
            continue
        creates += r["creates"]
        for o, x in zip(ops, r["results"]):
            if x == "boom" and o[0] == "get" and o[2].endswith("fail"):
                continue
            if x == "missing" and o[1] in removable:
                continue
            if x != "ok":
                problems.append(f"user {i}: {o}: {x}")
        if len(r["results"]) != len(ops):
            problems.append(f"user {i} stopped after {len(r['results'])} operations")
    before = {o[1] for o in PROGRAMS[name][0] if o[0] == "get"}
    for k in KEYS:
        if k in removable:
            continue
        modes = [o[2] for ops in users for o in ops if o[0] == "get" and o[1] == k]
        n = creates.count(k)
        forced = sum(m in ("force", "cb-true") for m in modes)
        failing = sum(m.endswith("fail") for m in modes)
        if failing and not forced:
            if n > 1 + failing:
                problems.append(f"{k} created {n} times")
        elif forced:
            pass
        elif n != (1 if modes and k not in before else 0):
            problems.append(f"{k} created {n} times")
    return problems


def threads(case):
    from mc import core
    from mc import sched

    warm()
    name = case["program"]
    if name.startswith("slow"):
        virtual_clock()
    off = name.startswith("off")
    if off and name != "off-temporary":
        coarse_clock()
    before, users, removable = PROGRAMS[name]
    s = sched.Scheduler(case["dev"])
    out = {}
    us = []

    def main():
        s.tracing = False
        setup(before)
        if off:
            import earthkit.regrid as ekr

            ekr.config.set("cache-policy", "off" if name != "off-temporary" else "temporary")
            if name == "off":
                ekr.config.set("temporary-directory-root", os.path.abspath("D1"))
        us.extend(User(i + 1) for i in range(len(users)))
        s.tracing = True
        ts = [s.spawn(f"T{i}", lambda i=i: us[i].run(users[i])) for i in range(len(users))]
        s.recording = True
        s.join(ts)
        s.recording = s.tracing = False
        out["final"], out["problems"] = finish_off(us) if off and name != "off-temporary" else final()

    del core
    failure = s.run(main)
    problems, diverged = [], None
    if failure and failure.startswith("diverged"):
        diverged = failure
    elif failure:
        problems.append(failure)
    elif "final" not in out:
        problems.append("the final operations failed")
    if not failure:
        if off and name != "off-temporary":
            for u in us:
                problems += [f"user {u.number}: {r}" for r in u.results if r not in ("ok", "boom")]
        else:
            problems += judge(name, [{"results": u.results, "creates": u.creates} for u in us], removable)
        problems += out.get("problems", [])
    return {
        "trace": s.trace,
        "problems": problems,
        "diverged": diverged,
        "outcome": repr([[u.results for u in us], sorted(x for u in us for x in u.creates), out.get("final")]),
    }


def in_scheduler(fn, *args):
    """Run fn in a controlled process with the default schedule."""
    from mc import sched

    s = sched.Scheduler()
    s.tracing = False
    box = {}

    def main():
        box["r"] = fn(*args)

    failure = s.run(main)
    if failure or "r" not in box:
        raise RuntimeError(f"{fn.__name__}: {failure}")
    return box["r"]


def _final(limit):
    configure(limit)
    return final()



def processes(case):
    from mc import core
    from mc import procs

    warm()
    name = case["program"]
    if name.startswith("slow"):
        virtual_clock()
    before, users, removable = PROGRAMS[name]
    d = os.getcwd()
    core.fork_call(in_scheduler, setup, before, scratch=d, own_dirs=False, timeout=60)
    limit = limit_of(before)
    r = procs.run(
        [lambda i=i: User(i + 1).run(users[i]) for i in range(len(users))], lambda: configure(limit), case["dev"]
    )
    failure = r["failure"]
    problems, diverged = [], None
    results = []
    final_ = None
    if failure and failure.startswith("diverged"):
        diverged = failure
    elif failure:
        problems.append(failure)
    else:
        for i, (f, x) in enumerate(r["results"]):
            if f:
                problems.append(f"user {i}: {f}")
            results.append(x)
        problems += judge(name, results, removable)
        final_, p = core.fork_call(in_scheduler, _final, limit, scratch=d, own_dirs=False, timeout=60)
        problems += p
    return {
        "trace": r["trace"],
        "problems": problems,
        "diverged": diverged,
        "outcome": repr([[x and x["results"] for x in results], sorted(c for x in results if x for c in x["creates"]), final_]),
    }


def execute(case):
    return processes(case) if case["mode"] == "processes" else threads(case)


def replay(case):
    return execute(case)


def explore(ctx):
    from mc import sched

    for mode in ("threads", "processes"):
        for name in PROGRAMS:
            if os.environ.get("VERIF_ONLY") and f"{mode}-{name}" not in os.environ["VERIF_ONLY"].split(","):
                continue
            if mode == "processes" and name in THREADS_ONLY:
                continue
            sched.explore(
                ctx, name, execute, 2 if ctx.thorough else 1, case_extra={"mode": mode}, family=f"{mode}-{name}",
                init=warm, max_free=1 if ctx.thorough else 0, cap=6000 if ctx.thorough else None,
            )  # fmt: skip


