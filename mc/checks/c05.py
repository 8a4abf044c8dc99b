"""C05: the disk cache does what its policy says for every history of operations.

Histories of operations up to a depth on the real cache (its thread and its database included), in
lockstep with a reference model; everything observable is compared after each operation.
"""
import os
import time

from mc import seq

LEVEL = "model_checking"
RULE = "state = files held, their order of creation and use, versions and configuration in the reference model"
ASSUMPTIONS = [
    "one thread and one process use the cache (see C07), the process is not killed (see C06)",
    "sqlite is correct; two operations do not happen within the same microsecond",
]

# key -> (owner, args, extension, hash_extra, size, is a directory)
KEYS = {
    "a": ("own", {"x": 1, "y": [1, 2]}, ".bin", None, 100, False),
    "b": ("own", {"x": 2, "y": [1, 2]}, ".bin", None, 200, False),
    "c": ("own", {"x": 1, "y": [1, 2]}, ".txt", None, 400, False),
    "e": ("own", {"x": 1, "y": [1, 2]}, ".bin", "more", 130, False),
    "o": ("other", {"x": 1, "y": [1, 2]}, ".bin", None, 170, False),
    "d": ("own", {"x": 3}, ".dir", None, 300, True),
}
# keys that differ from "a" or from one another by little
NEAR = {
    "Own": ("Own", {"x": 1, "y": [1, 2]}, ".bin", None, 110, False),
    "ow": ("ow", {"x": 1, "y": [1, 2]}, ".bin", None, 115, False),
    "own-": ("own-", {"x": 1, "y": [1, 2]}, ".bin", None, 116, False),
    "str": ("own", {"x": "1", "y": [1, 2]}, ".bin", None, 120, False),
    "order": ("own", {"x": 1, "y": [2, 1]}, ".bin", None, 125, False),
    "nest": ("own", {"x": 1, "y": [[1], 2]}, ".bin", None, 127, False),
    "swap": ("own", {"y": 1, "x": [1, 2]}, ".bin", None, 131, False),
    "less": ("own", {"x": 1}, ".bin", None, 132, False),
    "none": ("own", {"x": 1, "y": [1, 2], "z": None}, ".bin", None, 133, False),
    "fine": ("own", {"x": 1.000000001, "y": [1, 2]}, ".bin", None, 134, False),
    "More": ("own", {"x": 1, "y": [1, 2]}, ".bin", "More", 135, False),
    "more": ("own", {"x": 1, "y": [1, 2]}, ".bin", "more", 136, False),
    "moredict": ("own", {"x": 1, "y": [1, 2]}, ".bin", {"more": 1}, 137, False),
    "empty": ("own", {}, ".bin", None, 138, False),
    "ext": ("own", {"x": 1, "y": [1, 2]}, ".BIN", None, 139, False),
}
ALL = {**KEYS, **NEAR}
SENTINEL = 77


class Boom(Exception):
    pass


def size_of(key, version):
    return ALL[key][4] + 7 * version


def fake_statvfs(top, base=5000, total=10000):
    class R:
        pass

    def statvfs(path):
        used = base
        for root, _, files in os.walk(path):
            used += sum(os.path.getsize(os.path.join(root, f)) for f in files if f.startswith(("own", "other")) and not f.endswith(".lock"))
        r = R()
        r.f_frsize = r.f_bsize = 1
        r.f_blocks = total
        r.f_bfree = r.f_bavail = total - used
        return r

    return statvfs


def warm():
    import earthkit.regrid  # noqa: F401
    import earthkit.regrid.utils.caching  # noqa: F401
    import filelock  # noqa: F401


class Entry:
    def __init__(self, key, clock, version, size):
        self.key = key
        self.created = clock
        self.access = clock
        self.version = version
        self.size = size
        self.lost = False
        self.dir = False

    def dump(self, order):
        return [self.key, order[self.created], order[self.access], self.version, self.size, self.lost]


class Orphan:
    def __init__(self, path, size, parent):
        self.path = path
        self.size = size
        self.parent = parent  # path of a cache file
        self.registered = None


class Dir:
    """Model of one cache directory."""

    def __init__(self):
        self.held = {}  # key -> Entry
        self.orphans = []

    def rows(self):
        return list(self.held.values()) + [o for o in self.orphans if o.registered is not None]

    def total(self):
        return sum(e.size for e in self.rows())


class Harness:
    def __init__(self, cfg):
        import earthkit.regrid as ekr
        from earthkit.regrid.utils.caching import cache_file

        self.ekr = ekr
        self.cache = ekr.cache
        self.config = ekr.config
        self.cache_file = cache_file
        self.top = os.getcwd()
        self.clock = 0
        self.versions = {}
        self.calls = []
        self.force_calls = []
        self.problems = []
        self.outcomes = set()
        self.dirs = {}
        self.paths = {}
        self.known = {}
        self.limit = None
        self.usage = None
        self.policy = "user"
        self.name = "D1"
        self.offpaths = []
        os.statvfs = fake_statvfs(self.top)
        for n in ("D1x", "outside", "D2"):
            os.makedirs(os.path.join(self.top, n))
            with open(os.path.join(self.top, n, "own-sentinel.bin"), "wb") as f:
                f.write(b"s" * SENTINEL)
        self.dirs["D1"] = Dir()
        self.dirs["D2"] = Dir()
        self.config.set(
            {
                "user-cache-directory": os.path.join(self.top, "D1"),
                "cache-policy": "user",
                "maximum-cache-size": None,
                "maximum-cache-disk-usage": None,
                "temporary-cache-directory-root": os.path.join(self.top, "T"),
                "temporary-directory-root": os.path.join(self.top, "X"),
            }
        )
        for op in cfg.get("setup", []):
            p = self.apply(op)
            assert not p, p

    # -- model

    @property
    def d(self):
        return self.dirs[self.name]

    def tick(self):
        self.clock += 1
        return self.clock

    def state(self):
        r = []
        for n, d in sorted(self.dirs.items()):
            times = sorted({t for e in d.held.values() for t in (e.created, e.access)})
            order = {t: i for i, t in enumerate(times)}
            r.append([n, sorted(e.dump(order) for e in d.held.values()), [[o.size, bool(o.registered)] for o in d.orphans]])
        return [r, self.name, self.policy, self.limit, self.usage]

    def model_housekeeping(self):
        for o in self.d.orphans:
            if o.registered is None:
                o.registered = self.tick()

    def model_delete(self, e):
        """-> bytes freed, alternatives for lost files"""
        d = self.d
        freed = 0
        if isinstance(e, Orphan):
            d.orphans.remove(e)
            return e.size, e.size
        path = self.paths.get((self.name, e.key))
        for o in list(d.orphans):
            if o.registered is not None and o.parent == path:
                d.orphans.remove(o)
                freed += o.size
        if d.held.pop(e.key, None) is None:
            return freed, freed
        return freed + (0 if e.lost else e.size), freed + e.size

    def model_decache(self, excess):
        if excess <= 0:
            return
        d = self.d
        latest = max([e.created for e in d.held.values()], default=self.clock + 1)
        freed = [0, 0]
        victims = [o for o in d.orphans if o.registered is not None and o.registered < latest]
        victims += sorted(
            [e for e in d.held.values() if e.created < latest], key=lambda e: e.access
        )
        for v in victims:
            if v not in d.orphans and v not in d.held.values():
                continue
            lost = isinstance(v, Entry) and v.lost
            a, b = self.model_delete(v)
            freed[0] += a
            freed[1] += b
            if freed[0] >= excess:
                return
            if lost and freed[1] >= excess:
                # how much a lost file frees is not specified: see what was done
                self.ambiguous = True
                return

    def model_check(self):
        if self.limit is not None:
            t = self.d.total()
            if t > self.limit:
                self.model_housekeeping()
                self.model_decache(self.d.total() - self.limit)
        if self.usage is not None:
            percent = self.percent()
            if percent > self.usage:
                self.model_housekeeping()
                self.model_decache((percent - self.usage) * 10000 * 0.01)

    def percent(self):
        used = 5000 + sum(e.size for e in self.d.held.values() if not e.lost)
        used += sum(o.size for o in self.d.orphans)
        return int(float(used) / 10000 * 100 + 0.5)

    # -- content

    def content(self, key, version):
        n = size_of(key, version)
        return (f"{key}:{version}:".encode() * n)[:n]

    def read(self, path):
        if os.path.isdir(path):
            r = b""
            for root, _, files in sorted(os.walk(path)):
                for f in sorted(files):
                    with open(os.path.join(root, f), "rb") as g:
                        r += g.read()
            return r
        with open(path, "rb") as f:
            return f.read()

    def creator(self, key, fail):
        isdir = ALL[key][5]

        def create(path, args):
            self.calls.append(key)
            if args != ALL[key][1]:
                self.problems.append(f"create called with the args {args}")
            if os.path.exists(path):
                pass
            v = self.versions.get(key, 0) + 1
            data = self.content(key, v)
            if fail:
                with open(path if not isdir else path + ".part", "wb") as f:
                    f.write(data[:10])
                raise Boom(key)
            self.versions[key] = v
            if isdir:
                os.makedirs(os.path.join(path, "sub"))
                with open(os.path.join(path, "1"), "wb") as f:
                    f.write(data[:50])
                with open(os.path.join(path, "sub", "2"), "wb") as f:
                    f.write(data[50:])
            else:
                with open(path, "wb") as f:
                    f.write(data)
            return {"version": v}

        return create

    def get(self, key, mode):
        owner, args, ext, extra, _, isdir = ALL[key]
        d = self.d
        managed = self.policy != "off"
        e = d.held.get(key) if managed else None
        there = e is not None and not e.lost
        fail = mode in ("fail", "force-fail")
        force = {"force": True, "force-fail": True, "no": False}.get(mode)
        if mode in ("cb-true", "cb-false"):

            def force(a, p, owner_data):
                self.force_calls.append((a, p, owner_data))
                return mode == "cb-true"

        refresh = there and mode in ("force", "force-fail", "cb-true")
        expect_create = refresh or not there
        self.calls.clear()
        self.force_calls.clear()
        self.outcomes.add(f"get {mode} there={there} {self.policy}")
        if mode == "reordered":
            args = dict(reversed(args.items()))
        try:
            path = self.cache_file(owner, self.creator(key, fail), args, hash_extra=extra, extension=ext, force=force)
            err = None
        except Boom as exc:
            path, err = None, exc
        problems = []
        what = f"cache_file({key}, {mode})"
        if self.calls != ([key] if expect_create else []):
            problems.append(f"{what}: create called {len(self.calls)} times, expected {int(expect_create)}")
        if managed and callable(force):
            if there:
                ok = [(args, self.paths[self.name, key], {"version": e.version})]
                if self.force_calls != ok:
                    problems.append(f"{what}: force called with {self.force_calls}, expected {ok}")
            elif self.force_calls:
                problems.append(f"{what}: force called for a file that is not there")
        if fail and expect_create:
            if err is None:
                problems.append(f"{what}: the error of create is not raised, got {path}")
            if managed:
                if e is not None and not there:
                    self.model_delete(e)
                elif e is not None:
                    e.access = self.tick()
            return problems
        if err is not None:
            return problems + [f"{what}: raised {err!r}"]
        if not os.path.exists(path):
            return problems + [f"{what}: the path returned does not exist: {path}"]
        if expect_create and not self.calls:
            return problems
        version = self.versions[key] if expect_create else e.version
        if self.read(path) != self.content(key, version):
            problems.append(f"{what}: the content is not version {version} of {key}: {self.read(path)[:40]}")
        if not path.endswith(ext) or not os.path.basename(path).lower().startswith(owner.lower()):
            problems.append(f"{what}: file name {path}")
        if not managed:
            if path in self.offpaths:
                problems.append(f"{what}: path given twice with the cache off: {path}")
            self.offpaths.append(path)
            self.known[path] = self.content(key, version)
            return problems
        top = self.cache.directory()
        if os.path.dirname(path) != top:
            problems.append(f"{what}: {path} is not in the cache directory {top}")
        for (n, k), p in self.paths.items():
            if (p == path) != ((n, k) == (self.name, key)):
                problems.append(f"{what}: path {path} but {n, k} has {p}")
        self.paths[self.name, key] = path
        # the model
        now = self.tick()
        if expect_create:
            if e is None:
                e = d.held[key] = Entry(key, now, version, size_of(key, version))
            e.created = e.access = now
            e.version = version
            e.size = size_of(key, version)
            e.lost = False
            self.pending_check = True
        else:
            e.access = now
        return problems

    # -- operations

    def enabled(self, op):
        if op[0] == "rm":
            e = self.d.held.get(op[1])
            return e is not None and not e.lost and self.policy != "off"
        if op[0] in ("leftover",):
            return (self.name, op[1]) in self.paths and self.policy != "off" and op[1] in self.d.held
        if op[0] in ("orphan", "stray"):
            return self.policy != "off"
        if op[0] == "dir":
            return self.policy == "user"
        return True

    def old_file(self, path, size, parent):
        with open(path, "wb") as f:
            f.write(b"z" * size)
        t = time.time() - 3600
        os.utime(path, (t, t))
        self.d.orphans.append(Orphan(path, size, parent))
        self.known[path] = b"z" * size

    def apply(self, op):
        self.pending_check = False
        self.ambiguous = False
        kind = op[0]
        problems = self.problems
        self.problems = []
        if kind == "get":
            problems += self.get(op[1], op[2] if len(op) > 2 else "")
            if self.pending_check:
                self.model_check()
        elif kind == "max":
            self.config.set("maximum-cache-size", op[1])
            if self.limit != op[1]:
                self.limit = op[1]
                if self.policy != "off":
                    self.model_check()
        elif kind == "usage":
            self.config.set("maximum-cache-disk-usage", op[1])
            if self.usage != op[1]:
                self.usage = op[1]
                if self.policy != "off":
                    self.model_check()
        elif kind == "purge":
            if len(op) == 1:
                self.cache.purge()
                if self.policy != "off":
                    self.model_housekeeping()
                    self.d.held.clear()
                    self.d.orphans.clear()
            else:
                self.cache.purge(matcher=lambda e: e["owner"] == op[1])
                if self.policy != "off":
                    for e in list(self.d.held.values()):
                        if ALL[e.key][0] == op[1]:
                            self.model_delete(e)
        elif kind == "purge-args":
            self.cache.purge(matcher=lambda e: e["args"] is not None and e["args"].get("x") == op[1])
            if self.policy != "off":
                for e in list(self.d.held.values()):
                    if ALL[e.key][1].get("x") == op[1]:
                        self.model_delete(e)
        elif kind == "check":
            self.cache.check_size()
            if self.policy != "off":
                self.model_check()
        elif kind == "rm":
            p = self.paths[self.name, op[1]]
            if os.path.isdir(p):
                import shutil

                shutil.rmtree(p)
            else:
                os.unlink(p)
            self.d.held[op[1]].lost = True
        elif kind == "orphan":
            n = sum(1 for x in self.known if "orphan" in x)
            # the name may begin like the one of an entry
            name = f"{op[1]}.orphan{n}" if len(op) > 1 else f"orphan{n}"
            self.old_file(os.path.join(self.cache.directory(), name), 150, None)
        elif kind == "leftover":
            p = self.paths[self.name, op[1]]
            if not os.path.exists(p + ".left"):
                self.old_file(p + ".left", 60, p)
        elif kind == "stray":
            p = os.path.join(self.cache.directory(), "stray")
            with open(p, "wb") as f:
                f.write(b"t" * 10)
            self.known[p] = b"t" * 10
        elif kind == "dir":
            self.config.set("user-cache-directory", os.path.join(self.top, op[1]))
            if self.name != op[1]:
                self.name = op[1]
                self.model_check()
        elif kind == "policy":
            old = self.policy
            self.config.set("cache-policy", op[1])
            if old != op[1]:
                self.policy = op[1]
                if op[1] == "temporary":
                    n = sum(1 for x in self.dirs if x.startswith("T"))
                    self.name = f"T{n}"
                    self.dirs[self.name] = Dir()
                elif op[1] == "user":
                    self.name = os.path.basename(self.config.get("user-cache-directory"))
                    self.model_check()
                else:
                    self.name = os.path.basename(self.config.get("user-cache-directory"))
        else:
            raise ValueError(op)
        problems += self.problems
        problems += self.compare(op)
        return problems

    def compare(self, op):
        """Everything observable against the model."""
        p = []
        c = self.cache
        for n, size in (("D1x", SENTINEL), ("outside", SENTINEL)):
            f = os.path.join(self.top, n, "own-sentinel.bin")
            if not os.path.exists(f) or os.path.getsize(f) != size:
                p.append(f"after {op}: {f}, outside of the cache directory, was removed")
        for n in ("D1", "D2"):
            if n != self.name or self.policy != "user":
                for k, e in self.dirs[n].held.items():
                    f = self.paths[n, k]
                    if not e.lost and not os.path.exists(f):
                        p.append(f"after {op}: {f} removed, the cache directory is {c.directory()}")
        if self.policy == "off":
            if c.size() is not None or c.entries() is not None or c.summary_dump_database() is not None:
                p.append(f"after {op}: the cache is off but reports {c.size()} {c.entries()}")
            for f in self.offpaths:
                if os.path.exists(f) and self.read(f) != self.known[f]:
                    p.append(f"after {op}: temporary file {f} changed")
            return p
        size = c.size()
        entries = c.entries()
        count, total = c.summary_dump_database()
        d = self.d
        if self.ambiguous:
            # a lost file was a victim: the entries that follow may have been removed or not
            seen = {x["path"] for x in entries}
            latest = max([e.created for e in d.held.values()], default=0)
            for e in list(sorted(d.held.values(), key=lambda e: e.access)):
                f = self.paths[self.name, e.key]
                if e.created < latest and f not in seen and not e.lost:
                    self.model_delete(e)
        held = {self.paths[self.name, k]: e for k, e in d.held.items() if not e.lost}
        lost = {self.paths[self.name, k]: e for k, e in d.held.items() if e.lost}
        orph = {o.path: o for o in d.orphans if o.registered is not None}
        got = {x["path"]: x for x in entries}
        if len(got) != len(entries):
            p.append(f"after {op}: entries() reports files twice")
        exp = set(held) | set(orph)
        name = {v: f"{k[1]}" for k, v in self.paths.items()}
        if set(got) != exp:
            p.append(
                f"after {op}: entries() {sorted(name.get(x, x) for x in got)}, "
                f"expected {sorted(name.get(x, x) for x in exp)}; model {self.state()}"
            )
        for f, e in held.items():
            if f not in got:
                continue
            x = got[f]
            k = ALL[e.key]
            if (x["owner"], x["args"], x["size"]) != (k[0], k[1], e.size):
                p.append(f"after {op}: entry of {e.key}: {x['owner']} {x['args']} {x['size']}, size expected {e.size}")
            if not isinstance(x["owner_data"], dict) or x["owner_data"].get("version") != e.version:
                p.append(f"after {op}: entry of {e.key}: owner_data {x['owner_data']}, expected version {e.version}")
            if x["type"] != ("directory" if k[5] else "file"):
                p.append(f"after {op}: entry of {e.key}: type {x['type']}")
        lo = sum(e.size for e in held.values()) + sum(o.size for o in orph.values())
        hi = lo + sum(e.size for e in lost.values())
        if size != hi and size != lo:
            p.append(f"after {op}: size() is {size}, held {lo} (and lost {hi - lo}); model {self.state()}")
        if total != size or not (len(exp) <= count <= len(exp) + len(lost)):
            p.append(f"after {op}: summary ({count}, {total}), {len(exp)} files and size() {size}")
        # what is on the disk
        top = c.directory()
        disk = {os.path.join(top, n) for n in os.listdir(top)}
        disk = {x for x in disk if ".db" not in os.path.basename(x) and not x.endswith((".lock", ".tmp", ".part"))}
        disk -= {os.path.join(top, "own-sentinel.bin")}
        for f, e in held.items():
            if f not in disk:
                p.append(f"after {op}: the file of {e.key} is not there")
            elif self.read(f) != self.content(e.key, e.version):
                p.append(f"after {op}: the file of {e.key} changed: {self.read(f)[:30]}")
        other = disk - set(held)
        for f in other:
            if f not in self.known:
                p.append(f"after {op}: {name.get(f, f)} is not among the entries but on the disk")
            elif self.read(f) != self.known[f]:
                p.append(f"after {op}: {f} changed")
        stray = os.path.join(top, "stray")
        if stray in self.known and stray not in disk:
            p.append(f"after {op}: a recent unknown file was removed")
        for o in d.orphans:
            if o.path not in disk:
                p.append(f"after {op}: {o.path} removed, model {self.state()}")
        for f in disk & set(self.known):
            if "orphan" in f or f.endswith(".left"):
                if not any(o.path == f for o in d.orphans):
                    p.append(f"after {op}: {f} should have been removed, model {self.state()}")
        return p


def make(cfg):
    return Harness(cfg)


def replay(case):
    return run(case)


def run(case):
    warm()
    h = make(case["cfg"])
    problems = []
    states = [seq.digest(h.state())]
    n = 0
    for i, op in enumerate(case["history"]):
        if not h.enabled(op):
            break
        p = h.apply(op)
        n += 1
        states.append(seq.digest(h.state()))
        if p:
            problems += [f"step {i + 1} of {case['history']}: {x}" for x in p]
            break
    return {
        "problems": problems,
        "counts": {"transitions": n, "traces": 1},
        "states": states,
        "distinct": sorted(h.outcomes),
    }


def histories(ops, depth):
    """Sequences of exactly this length (their prefixes are checked as well)."""
    if depth == 0:
        yield []
        return
    for h in histories(ops, depth - 1):
        for o in ops:
            # two inspections in a row are the same as one
            yield h + [o]


def families(thorough):
    def G(*keys):
        return [["get", k, ""] for k in keys]

    t = 1 if thorough else 0
    F = [["get", "a", "force"], ["get", "a", "cb-true"], ["get", "a", "cb-false"], ["get", "a", "fail"],
         ["get", "a", "force-fail"]]  # fmt: skip
    fams = [
        ("eviction", {"setup": [["max", 480]]}, G("a", "b", "o", "c", "d"), 5 + t),
        ("eviction-tight", {"setup": [["max", 150]]}, G("a", "b", "e") + [["check"], ["rm", "a"]], 4 + t),
        ("limits", {}, G("a", "b", "o") + [["max", 150], ["max", 330], ["max", None], ["check"]], 4 + t),
        ("usage", {}, G("a", "b", "o", "c") + [["usage", 51], ["usage", 54], ["usage", None]], 4 + t),
        ("refresh", {"setup": [["get", "b"]]}, G("a", "b") + F + [["rm", "a"]], 4 + t),
        ("refresh-limit", {"setup": [["max", 320]]}, G("a", "b") + F[:1] + [["get", "b", "force"], ["rm", "a"], ["rm", "b"], ["get", "b", "fail"]], 4 + t),
        ("directories", {}, G("a", "d") + [["get", "d", "force"], ["get", "d", "fail"], ["rm", "d"], ["max", 350], ["purge", "own"]], 4),
        ("purge", {"setup": [["get", "a"]]}, G("b", "o") + [["purge"], ["purge", "own"], ["purge", "other"], ["purge-args", 2], ["rm", "a"], ["leftover", "a"]], 4),
        ("orphans", {}, G("a", "b") + [["orphan"], ["stray"], ["leftover", "a"], ["max", 220], ["purge"], ["check"]], 4 + t),
        ("orphan names", {}, G("a", "b") + [["orphan", "own"], ["max", 220], ["purge", "own"], ["check"]], 4 + t),
        ("lost", {"setup": [["get", "a"], ["get", "b"], ["get", "o"]]}, G("a", "b", "c") + [["rm", "a"], ["rm", "b"], ["max", 330], ["check"], ["purge", "own"]], 4),
        ("folders", {"setup": [["get", "a"]]}, G("a", "b") + [["dir", "D1"], ["dir", "D2"], ["max", 150], ["max", None], ["purge"]], 4 + t),
        ("policies", {"setup": [["get", "a"]]}, G("a", "b") + [["policy", p] for p in ("off", "temporary", "user")] + [["purge"], ["max", 150]], 4 + t),
        ("names", {}, G("a", "b", "c", "e", "o", "d"), 3),
        ("near names", {}, G("a", *NEAR), 2 + t),
        ("reordered", {}, G("a", "c", "swap") + [["get", k, "reordered"] for k in ("a", "c", "swap")] + [["get", "a", "force"]], 3 + t),
        ("all", {}, G("a", "o") + F + [["max", 150], ["max", None], ["purge"], ["purge", "own"], ["rm", "a"], ["orphan"],
                 ["dir", "D2"], ["dir", "D1"], ["policy", "off"], ["policy", "temporary"], ["policy", "user"], ["check"]], 3 + t),
    ]  # fmt: skip
    return fams


def explore(ctx):
    cases = []
    for name, cfg, ops, depth in families(ctx.thorough):
        ctx.families.setdefault(name, {"depth": depth, "alphabet": len(ops)})
        for h in histories(ops, depth):
            cases.append((name, {"cfg": cfg, "history": h}))
    ctx.run_cases(run, cases, timeout=60, init=warm)
