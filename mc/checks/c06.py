"""C06: a process killed at any point leaves a disk cache that works.

Scenarios (what is in the cache, then one operation); the process is killed at every point of the
operation; then a new process uses the same cache directory.
"""
import json
import os
import time

from mc.checks import c05

LEVEL = "fault_enumeration"
RULE = "distinct = (scenario, files on the disk and in the database after the kill)"
ASSUMPTIONS = [
    "the process is killed, not the machine: what was written stays written",
    "kill points are between source lines, in the middle of writes of the code under test or of create(), and before and in the middle of the system calls that change the disk (those of sqlite and filelock included)",
]

KEYS = dict(c05.KEYS)
KEYS.update({f"n{i}": ("own", {"n": i}, ".bin", None, 200, False) for i in range(4)})
MAX = "maximum-cache-size"

G = lambda k, m="": ["get", k, m]  # noqa: E731

# name -> (operations before, operation during which the process is killed)
SCENARIOS = {
    "first-use": ([], [G("a")]),
    "create": ([G("b"), G("o")], [G("a")]),
    "reuse": ([G("a"), G("b")], [G("a")]),
    "refresh": ([G("a"), G("b")], [G("a", "force")]),
    "refresh-callback": ([G("a")], [G("a", "cb-true")]),
    "fail": ([G("b")], [G("a", "fail")]),
    "refresh-fail": ([G("a")], [G("a", "force-fail")]),
    "directory": ([G("b")], [G("d")]),
    "refresh-directory": ([G("d")], [G("d", "force")]),
    "evict": ([["max", 330], G("a"), G("b")], [G("o"), ["size"]]),
    "evict-many": ([["max", 560], G("a"), G("e"), G("b")], [G("c"), ["size"]]),
    "shrink": ([G("a"), G("b"), G("o")], [["max", 200]]),
    "purge": ([G("a"), G("b"), G("d")], [["purge"]]),
    "purge-owner": ([G("a"), G("o"), G("b")], [["purge", "own"]]),
    "check": ([G("a"), G("b")], [["check"], ["size"]]),
    "lost": ([G("a"), G("b"), ["rm", "a"]], [G("a")]),
    "orphan": ([G("a"), G("b"), ["orphan"]], [["max", 250], ["size"]]),
    "orphan-purge": ([G("a"), ["orphan"]], [["purge"]]),
    "two": ([], [G("a"), G("b")]),
    "new-folder": ([G("a")], [["dir", "D2"], G("b")]),
}


def size_of(key, tag):
    return KEYS[key][4] + {"setup": 0, "op": 7, "again": 9, "rec": 14}[tag]


def content(key, tag):
    n = size_of(key, tag)
    return (f"{key}:{tag}:".encode() * n)[:n]


def warm():
    import earthkit.regrid  # noqa: F401
    import earthkit.regrid.utils.caching  # noqa: F401
    import filelock  # noqa: F401


class User:
    """Operations on the cache; kill points in create()."""

    def __init__(self, tag, folder="D1", limit=None):
        import earthkit.regrid as ekr
        from earthkit.regrid.utils.caching import cache_file

        self.ekr = ekr
        self.cache_file = cache_file
        self.tag = tag
        self.paths = {}
        self.calls = []
        self.top = os.getcwd()
        os.statvfs = c05.fake_statvfs(self.top)
        ekr.config.set(
            {
                "user-cache-directory": os.path.join(self.top, folder),
                "cache-policy": "user",
                "maximum-cache-size": limit,
                "maximum-cache-disk-usage": None,
            }
        )

    def creator(self, key, fail):
        from mc import crash

        tag = self.tag
        isdir = KEYS[key][5]

        def put(path, data):
            with open(path, "wb", buffering=0) as f:
                crash.point("create", "open")
                for i in range(0, len(data), 60):
                    f.write(data[i : i + 60])
                    crash.point("create", "write")

        def create(path, args):
            self.calls.append(key)
            data = content(key, tag)
            if isdir:
                os.makedirs(os.path.join(path, "sub"), exist_ok=True)
                crash.point("create", "mkdir")
                put(os.path.join(path, "1"), data[:50])
                put(os.path.join(path, "sub", "2"), data[50:])
            else:
                put(path, data)
            if fail:
                raise c05.Boom(key)
            return {"tag": tag}

        return create

    def get(self, key, mode=""):
        owner, args, ext, extra, _, _ = KEYS[key]
        force = {"force": True, "force-fail": True}.get(mode)
        if mode == "cb-true":

            def force(a, p, d):
                return True

        p = self.cache_file(
            owner, self.creator(key, mode.endswith("fail")), args, hash_extra=extra, extension=ext, force=force
        )
        self.paths[key] = p
        return p

    def op(self, op):
        cache, config = self.ekr.cache, self.ekr.config
        kind = op[0]
        if kind == "get":
            try:
                self.get(*op[1:])
            except c05.Boom:
                pass
        elif kind == "max":
            config.set(MAX, op[1])
        elif kind == "purge":
            cache.purge() if len(op) == 1 else cache.purge(matcher=lambda e: e["owner"] == op[1])
        elif kind == "check":
            cache.check_size()
        elif kind == "size":
            cache.size()
        elif kind == "rm":
            os.unlink(self.paths[op[1]])
        elif kind == "orphan":
            p = os.path.join(cache.directory(), "orphan")
            with open(p, "wb") as f:
                f.write(b"z" * 120)
            t = time.time() - 3600
            os.utime(p, (t, t))
        elif kind == "dir":
            config.set("user-cache-directory", os.path.join(self.top, op[1]))
        else:
            raise ValueError(op)


def read(path):
    if os.path.isdir(path):
        r = b""
        for n in ("1", os.path.join("sub", "2")):
            p = os.path.join(path, n)
            if os.path.exists(p):
                with open(p, "rb") as f:
                    r += f.read()
        return r
    with open(path, "rb") as f:
        return f.read()


def all_paths():
    """The path of each key, by a process which does nothing else."""
    u = User("rec", "P")
    r = {}
    for k in KEYS:
        r[k] = os.path.basename(u.get(k))
    return r


def killed(scenario, k, tag="op", setup=True, log=False, calls=False):
    """calls: the points are system calls. -> (points, failure, log); does not return if killed"""
    from mc import crash
    from mc import sched

    sched.install()
    import filelock

    before, ops = SCENARIOS[scenario]
    seen = crash.observe([os.path.join(os.getcwd(), x) for x in ("D1", "D2")]) if log else None
    box = {}

    def prepare():
        box["u"] = u = User("setup" if setup else tag)
        if setup:
            for o in before:
                u.op(o)
            u.ekr.cache.size()
        else:
            for o in before:
                if o[0] == "max":
                    u.op(o)
        u.tag = tag

    def main():
        for o in ops:
            box["u"].op(o)

    if calls:
        n, failure = crash.run_system_calls(main, k, before=prepare)
        return n, failure, seen
    n, failure = crash.run(main, k, prefixes=[os.path.dirname(filelock.__file__)], before=prepare)
    return n, failure, seen


def snapshot(names):
    """{(folder, key): content} of the files that are there"""
    r = {}
    for d in ("D1", "D2"):
        for k, n in names.items():
            p = os.path.join(d, n)
            if os.path.exists(p):
                r[d, k] = read(p)
    return r


def recover(names, scenario, state, order):
    """A new process uses the cache. -> problems"""
    before, ops = SCENARIOS[scenario]
    problems = []
    two = any(o[0] == "dir" for o in ops)

    def requests(u, c, folder):
        for k in ("a", "b", "o", "d", "c", "e", "n0"):
            u.calls.clear()
            try:
                p = u.get(k)
            except Exception as e:
                problems.append(f"request {k} fails: {type(e).__name__}: {e}")
                continue
            if os.path.basename(p) != names[k]:
                problems.append(f"request {k}: {p}")
            got = read(p) if os.path.exists(p) else None
            there = state.get((folder, k))
            if there is not None:
                if u.calls or got != there:
                    problems.append(f"request {k}: complete file not used (create called {len(u.calls)} times)")
            elif got != content(k, "rec") or u.calls != [k]:
                problems.append(f"request {k}: content {got[:30] if got else got}, create called {len(u.calls)} times")
        held = {os.path.basename(e["path"]): e["size"] for e in c.entries()}
        for k in ("a", "b", "o", "d", "c", "e", "n0"):
            if names[k] not in held:
                problems.append(f"{k} is not among the entries")
            elif held[names[k]] not in [None] + [size_of(k, t) for t in TAGS]:
                problems.append(f"entry of {k}: size {held[names[k]]}")
        c.summary_dump_database()

    def evict(u, c):
        u.op(["max", 350])
        for k in ("n1", "n2", "n3"):
            p = u.get(k)
            # an orphan just found is removed by the next check
            if k == "n3" and c.size() > 350 and len(c.entries()) != 1:
                problems.append(
                    f"after the creation of {k} the cache has {c.size()} bytes, limit 350: "
                    f"{[os.path.basename(e['path'])[:12] for e in c.entries()]}"
                )
            if not os.path.exists(p) or read(p) != content(k, "rec"):
                problems.append(f"{k} just created is missing or wrong")
        u.op(["max", None])

    for folder in ("D1", "D2") if two else ("D1",):
        u = User("rec", folder)
        c = u.ekr.cache
        try:
            if order == "evict":
                evict(u, c)
            else:
                requests(u, c, folder)
            # refresh
            p = u.get("b", "force")
            if read(p) != content("b", "rec"):
                problems.append("forced refresh of b: wrong content")
            if order != "evict":
                evict(u, c)
            # purges
            u.get("a"), u.get("o")
            c.purge(matcher=lambda e: e["owner"] == "own")
            left = sorted(e["owner"] for e in c.entries() if e["owner"] != "orphans")
            if left != ["other"]:
                problems.append(f"after a purge of the owner 'own' the entries are those of {left}")
            c.purge()
            if c.size() != 0 or c.entries() or c.summary_dump_database() != (0, 0):
                problems.append(f"after a purge: size {c.size()}, {c.summary_dump_database()}, {len(c.entries())} entries")
            p = u.get("a")
            if read(p) != content("a", "rec"):
                problems.append("a after a purge: wrong content")
        except Exception as e:
            import traceback

            problems.append(f"operation after the restart fails: {type(e).__name__}: {e}: {traceback.format_exc()[-600:]}")
    return problems


TAGS = ("setup", "op", "again", "rec")


def reference(scenario):
    """Without kill: names, number of points, content before and after."""
    from mc import core
    from mc import crash

    d = os.getcwd()
    names = core.fork_call(all_paths, scratch=d, own_dirs=False)
    core.fork_call(_setup_only, scenario, scratch=d, own_dirs=False)
    st0 = snapshot(names)
    _wipe()
    n, failure, seen = core.fork_call(killed, scenario, 0, "op", True, True, scratch=d, own_dirs=False)
    if failure:
        raise RuntimeError(f"{scenario}: {failure}")
    st1 = snapshot(names)
    _wipe()
    calls = 0
    if crash.system_calls():
        calls, failure, _ = core.fork_call(killed, scenario, 0, "op", True, False, True, scratch=d, own_dirs=False)
        if failure:
            raise RuntimeError(f"{scenario}: {failure}")
    return {"names": names, "points": n, "calls": calls, "kills": [k for k, _ in seen] + [n + 1], "before": st0, "after": st1}


def reference2(scenario, k):
    """The points of the same operation run again after a kill at k."""
    from mc import core

    d = os.getcwd()
    try:
        core.fork_call(killed, scenario, k, "op", True, False, scratch=d, own_dirs=False, timeout=90)
    except core.ChildDied:
        pass
    n, failure, seen = core.fork_call(killed, scenario, 0, "again", False, True, scratch=d, own_dirs=False)
    if failure:
        raise RuntimeError(f"{scenario}: {failure}")
    return [k for k, _ in seen]


def _setup_only(scenario):
    u = User("setup")
    for o in SCENARIOS[scenario][0]:
        u.op(o)
    u.ekr.cache.size()
    return None


def _wipe():
    import shutil

    for d in ("D1", "D2", "P"):
        shutil.rmtree(d, ignore_errors=True)


def db_rows():
    import sqlite3

    r = []
    for d in ("D1", "D2"):
        try:
            with sqlite3.connect(f"file:{d}/cache-2.db?mode=ro", uri=True) as db:
                r += [[d, os.path.basename(p)[-9:], s] for p, s in db.execute("SELECT path, size FROM cache ORDER BY path")]
        except sqlite3.Error:
            pass
    return r


def run(case):
    """case: scenario, kill (point), [kill2], aged; names, before, after from the reference."""
    from mc import core

    warm()
    d = os.getcwd()
    scenario = case["scenario"]
    names = case.get("names") or core.fork_call(all_paths, scratch=d, own_dirs=False)
    if case.get("before") is None:
        ref = core.fork_call(reference, scenario, scratch=d, own_dirs=False)
        _wipe()
    else:
        ref = case
    ok = {}
    for st in (ref["before"], ref["after"]):
        for x, v in st.items():
            ok.setdefault(x, set()).add(v)
    problems = []

    def kill(k, tag, setup):
        try:
            core.fork_call(killed, scenario, k, tag, setup, False, bool(case.get("calls")), scratch=d, own_dirs=False, timeout=90)
            return False  # not reached
        except core.ChildDied:
            return True

    reached = kill(case["kill"], "op", True)
    if case.get("kill2"):
        reached = kill(case["kill2"], "again", False) or reached
        for x in list(ok):
            ok[x].add(content(x[1], "again"))
    state = snapshot(names)
    for x, v in state.items():
        allowed = ok.get(x, set()) | ({content(x[1], "again")} if case.get("kill2") else set())
        if v not in allowed:
            problems.append(f"file of {x[1]} in {x[0]} after the kill: {len(v)} bytes {v[:30]}")
    for x in set(ref["before"]) & set(ref["after"]):
        # untouched or replaced: a complete version is always there
        # (but a directory cannot be replaced in one step)
        replaced_dir = KEYS[x[1]][5] and ref["before"][x] != ref["after"][x]
        if x not in state and not case.get("kill2") and not replaced_dir:
            problems.append(f"the file of {x[1]} is not there after the kill")
    files = sorted((os.path.join(a, b)[-14:], 0) for a in ("D1", "D2") if os.path.isdir(a) for b in os.listdir(a))
    summary = [scenario, [f for f, _ in files], db_rows()]
    if case.get("aged"):
        t = time.time() - 3600
        for a in ("D1", "D2"):
            for root, dirs, fs in os.walk(a):
                for b in fs + dirs:
                    os.utime(os.path.join(root, b), (t, t))
    problems += core.fork_call(recover, names, scenario, state, case.get("order"), scratch=d, own_dirs=False, timeout=90)
    r = {
        "problems": [f"killed at point {case['kill']}{case.get('kill2', '')} of {scenario}: {p}" for p in problems],
        "counts": {"evaluations": 1, "kills": int(reached)},
        "distinct": [json.dumps(summary)],
    }
    return r


def replay(case):
    return run({k: v for k, v in case.items() if k in ("scenario", "kill", "kill2", "aged", "order", "calls")})


def explore(ctx):
    from mc import core

    pool = core.Pool(core._call1(reference), init=warm)
    refs = {}
    for s in SCENARIOS:
        pool.submit(s, s)
    for s, (kind, val) in pool.results():
        if kind != "ok":
            ctx.absorb(s, {"scenario": s, "kill": 0}, (kind, val))
            continue
        refs[s] = val
    pool.close()
    cases = []
    for s in SCENARIOS:
        if s not in refs:
            continue
        r = refs[s]
        ctx.families[s] = {"points": r["points"], "different_disk_states": len(r["kills"])}
        ctx.counts["points_covered"] += r["points"]
        small = {k: r[k] for k in ("names", "before", "after")}
        for k in r["kills"]:
            for aged in (False, True):
                for order in ("requests", "evict"):
                    cases.append((s, {"scenario": s, "kill": k, "aged": aged, "order": order, **small}))
        ctx.families[s + "-system-calls"] = {"calls": r["calls"]}
        for k in range(1, r["calls"] + 1):
            for aged in (False, True) if ctx.thorough else (False,):
                for order in ("requests", "evict") if ctx.thorough else (("requests", "evict")[k % 2],):
                    cases.append((s + "-system-calls", {"scenario": s, "kill": k, "aged": aged, "order": order, "calls": True, **small}))
    pool = core.Pool(core._call1(reference2), init=warm)
    twice = list(refs) if ctx.thorough else ["create", "refresh", "evict", "purge-owner", "directory"]
    for s in twice:
        for k in refs[s]["kills"][:-1] if s in refs else ():
            pool.submit((s, k), s, k)
    for (s, k), (kind, val) in pool.results():
        if kind != "ok":
            ctx.absorb(s, {"scenario": s, "kill": k}, (kind, val))
            continue
        r = refs[s]
        small = {n: r[n] for n in ("names", "before", "after")}
        for j in val:
            for order in ("requests", "evict"):
                cases.append((s + "-twice", {"scenario": s, "kill": k, "kill2": j, "order": order, **small}))
    pool.close()
    ctx.run_cases(run, [(f, c) for f, c in cases], timeout=200, init=warm)
