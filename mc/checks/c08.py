"""C08: precedence, scoping, conversion and effects of the configuration.

Histories of configuration operations on the real code, compared after each operation with a model of
the layers (environment, temporary configurations, saved values, defaults).
"""
import copy
import os
import warnings

from mc import seq

LEVEL = "model_checking"
RULE = "state = layers of the model: saved values, temporary ones, environment, saved file, observed values"
ASSUMPTIONS = [
    "one thread; several processes with the same config file are not explored",
    "the values of the environment variables that are set are valid, except in the family env",
]

K, M_, GB = 1024, 1024**2, 1024**3
BAD = object()

DEFAULTS = {
    "user-cache-directory": "~/.cache/earthkit-regrid",
    "temporary-cache-directory-root": None,
    "temporary-directory-root": None,
    "cache-policy": "user",
    "maximum-cache-size": 5 * GB,
    "maximum-cache-disk-usage": None,
    "url-download-timeout": 30,
    "check-out-of-date-urls": False,
    "download-out-of-date-urls": False,
    "maximum-weights-memory-cache-size": 500 * M_,
    "weights-memory-cache-policy": "largest",
    "weights-memory-cache-strict-mode": False,
}  # fmt: skip
OPTIONS = list(DEFAULTS)

_SIZES = [
    (None, None), (0, 0), (1000, 1000), ("1", 1), (" 12 ", 12), ("1k", K), ("1kb", K), ("3K", 3 * K), ("2M", 2 * M_), ("2m", 2 * M_),
    ("7MB", 7 * M_), ("1G", GB), ("5 GB", 5 * GB), ("10T", 10 * K * GB), ("2TB", 2 * K * GB), ("1P", K * K * GB),
    ("-1", BAD), (-1, BAD), ("1x", BAD), ("x", BAD), ("GB", BAD), ("", BAD), ("1.5G", BAD), (2.5, BAD), ("1s", BAD), ("50%", BAD),
]  # fmt: skip
_BOOLS = [
    (True, True), (False, False), ("True", True), ("true", True), ("yes", True), ("on", True), ("1", True), ("False", False),
    ("no", False), ("OFF", False), ("0", False), (1, True), (0, False), ("maybe", BAD), ("2", BAD), ("truefalse", BAD),
]  # fmt: skip
VALUES = {
    "user-cache-directory": [("$top/D1", "$top/D1"), ("$top/with a space: #1", "$top/with a space: #1"), ("~/mine", "~/mine")],
    "temporary-cache-directory-root": [(None, None), ("$top/R1", "$top/R1"), ("$path/R2", "$top/R2")],
    "temporary-directory-root": [(None, None), ("$top/R1", "$top/R1"), ("$path/R2", "$top/R2")],
    "cache-policy": [("off", "off"), ("temporary", "temporary"), ("user", "user"), ("foo", BAD), ("", BAD), ("USER", BAD), (3, BAD), ("user ", BAD), ("empty", BAD), (None, BAD)],
    "maximum-cache-size": _SIZES,
    "maximum-cache-disk-usage": [(None, None), (0, 0), (95, 95), ("90", 90), ("95%", 95), ("102%", 102), (" 7 % ", 7), ("-2%", BAD), ("95x", BAD), ("%", BAD), ("9k", BAD), (-3, BAD), ("", BAD)],
    "url-download-timeout": [(5, 5), ("5", 5), ("45s", 45), ("30s", 30), ("2m", 120), ("10h", 36000), ("7d", 604800), ("1w", 604800), ("2 minutes", 120), ("0", 0), ("A", BAD), ("1x", BAD), ("1M", BAD), ("-1", BAD), (-1, BAD), ("", BAD), (None, BAD), ("1.5s", BAD), ("1b", BAD), ("3%", BAD)],
    "check-out-of-date-urls": _BOOLS,
    "download-out-of-date-urls": _BOOLS,
    "maximum-weights-memory-cache-size": _SIZES,
    "weights-memory-cache-policy": [("off", "off"), ("unlimited", "unlimited"), ("largest", "largest"), ("lru", "lru"), ("random", BAD), ("", BAD), ("LRU", BAD), (None, BAD), ("lru ", BAD)],
    "weights-memory-cache-strict-mode": _BOOLS,
}  # fmt: skip


def env_name(name):
    return "EARTHKIT_REGRID_" + name.upper().replace("-", "_")


def convert(name, value):
    """The value an option has for an accepted or saved one."""
    for v, r in VALUES[name]:
        if type(v) is type(value) and v == value:
            return r
    raise AssertionError((name, value))


class Harness:
    def __init__(self, cfg):
        self.top = os.getcwd()
        for n in ("R1", "R2", "D1"):
            os.makedirs(n, exist_ok=True)
        with open("plain", "w") as f:
            f.write("x")
        self.cfg = cfg
        self.env = {}
        for k, v in {**cfg.get("env", {})}.items():
            os.environ[env_name(k)] = self.real(v)
            self.env[k] = v
        import earthkit.regrid as ekr
        from earthkit.regrid import config

        self.ekr = ekr
        self.config = config
        self.autosave = True
        self.layers = [dict(DEFAULTS)]
        self.files = [os.path.join(self.top, "home", ".config", "earthkit", "regrid", "config.yaml")]
        self.saved = {self.files[0]: dict(DEFAULTS)}
        self.managers = []
        self.seen = []
        self.stale = False
        self.nfiles = 0
        self.outcomes = set()
        self.memory_cache_info = ekr.memory_cache_info if hasattr(ekr, "memory_cache_info") else None
        if self.memory_cache_info is None:
            from earthkit.regrid.utils.memcache import MEMORY_CACHE

            self.memory_cache_info = MEMORY_CACHE.info
        config.on_change(self.observer)
        self.observers = []  # what the further observers have seen
        for op in cfg.get("setup", []):
            p = self.apply(op)
            assert not p, p

    def real(self, v):
        if isinstance(v, str):
            if v == DEFAULTS["user-cache-directory"]:
                return os.environ["HOME"] + v[1:]
            if v.startswith("$path"):
                import pathlib

                return pathlib.Path(self.top + v[5:])
            return v.replace("$top", self.top)
        return v

    def observer(self):
        self.seen.append({k: self.config.get(k) for k in OPTIONS})

    def state(self):
        return [self.layers, self.env, self.autosave, len(self.observers), [self.saved.get(f) for f in self.files]]

    def snapshot(self):
        r = {}
        for f in [*self.saved, *(f for f in self.files if f)]:
            try:
                with open(f) as g:
                    r[f] = g.read()
            except OSError:
                r[f] = None
        r[os.path.join(self.top, f"temp{self.nfiles + 1}.yaml")] = None
        return r

    def restore(self, files):
        for f, text in files.items():
            if text is not None:
                with open(f, "w") as g:
                    g.write(text)
            elif os.path.exists(f):
                os.unlink(f)

    # -- model

    def effective(self):
        r = dict(self.layers[-1])
        for k, v in self.env.items():
            r[k] = convert(k, v)
        return {k: self.real(v) for k, v in r.items()}

    def model_save(self):
        f = self.files[-1]
        if self.autosave and f is not None:
            self.saved[f] = dict(self.layers[-1])

    def accepted(self, op, values):
        """The values set by an operation are valid?"""
        for k, v in values.items():
            if k not in DEFAULTS or convert(k, v) is BAD:
                return False
        return self.usable({**self.layers[-1], **{k: convert(k, v) for k, v in values.items()}})

    def usable(self, layer):
        """The policies with a limit need a positive one."""
        e = {**layer, **{k: convert(k, v) for k, v in self.env.items()}}
        return e["weights-memory-cache-policy"] in ("off", "unlimited") or bool(e["maximum-weights-memory-cache-size"])

    # -- operations

    def enabled(self, op):
        if op[0] in ("leave", "leave-error"):
            return bool(self.managers)
        if op[0] in ("enter", "enter-file", "enter-reject"):
            return len(self.managers) < self.cfg.get("nesting", 2)
        if op[0] == "observe":
            return len(self.observers) < 2
        if op[0] == "reject":
            # only when the value is used
            return "cache-policy" not in self.env
        return True

    def do(self, op, fn, ok):
        """Run an operation expected to be accepted or not. -> problems"""
        self.seen = []
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                fn()
            except Exception as e:
                self.warned = [w for w in ws if issubclass(w.category, UserWarning)]
                self.outcomes.add(f"{op[0]} {type(e).__name__}")
                if ok:
                    return [f"{op}: {type(e).__name__}: {e}"]
                if op[0] == "set" and any(k not in DEFAULTS for k in op[2]) and not isinstance(e, KeyError):
                    return [f"{op}: unknown option: {type(e).__name__}: {e}"]
                return []
        self.warned = [w for w in ws if issubclass(w.category, UserWarning)]
        self.outcomes.add(f"{op[0]} ok")
        if not ok:
            return [f"{op}: accepted"]
        return []

    def call(self, fn, way, values):
        values = {k: self.real(v) for k, v in values.items()}
        if way == "one":
            ((k, v),) = values.items()
            return fn(k, v)
        if way == "dict":
            return fn(values)
        return fn(**{k.replace("-", "_"): v for k, v in values.items()})

    def apply(self, op):
        kind = op[0]
        problems = []
        changed = False
        self.seen = []
        for x in self.observers:
            x.clear()
        self.before_dir = self.directory()
        if kind == "set":
            way, values = op[1:]
            ok = self.accepted(op, values)
            problems += self.do(op, lambda: self.call(self.config.set, way, values), ok)
            if ok:
                for k, v in values.items():
                    self.layers[-1][k] = convert(k, v)
                self.model_save()
                changed = True
                n = sum(k in self.env for k in values)
                if len(self.warned) != n:
                    problems.append(f"{op}: {len(self.warned)} warnings, {n} options with environment variable")
        elif kind == "reset":
            ok = len(op) == 1 or op[1] in DEFAULTS
            ok = ok and self.usable(DEFAULTS if len(op) == 1 else {**self.layers[-1], op[1]: DEFAULTS[op[1]]})
            problems += self.do(op, lambda: self.config.reset(*op[1:]), ok)
            if ok:
                if len(op) == 1:
                    self.layers[-1] = dict(DEFAULTS)
                else:
                    self.layers[-1][op[1]] = DEFAULTS[op[1]]
                self.model_save()
                changed = True
        elif kind in ("enter", "enter-file"):
            way, values = op[1:]
            ok = self.accepted(op, values)
            f = None
            kw = {}
            if kind == "enter-file":
                self.nfiles += 1
                f = os.path.join(self.top, f"temp{self.nfiles}.yaml")
                kw = {"config_yaml": f}

            def enter():
                if not values:
                    m = self.config.temporary(**kw)
                else:
                    m = self.call(lambda *a, **k: self.config.temporary(*a, **k, **kw), way, values)
                m.__enter__()
                self.managers.append(m)

            problems += self.do(op, enter, ok)
            if ok:
                self.layers.append(dict(self.layers[-1]))
                self.files.append(f)
                for k, v in values.items():
                    self.layers[-1][k] = convert(k, v)
                if values:
                    self.model_save()
                changed = True
        elif kind in ("leave", "leave-error"):
            m = self.managers.pop()

            def leave():
                if kind == "leave":
                    m.__exit__(None, None, None)
                    return
                e = KeyError("x")
                try:
                    raise e
                except KeyError as x:
                    try:
                        if m.__exit__(type(x), x, x.__traceback__):
                            problems.append("leaving a temporary config hides an error")
                    except KeyError:
                        pass

            problems += self.do(op, leave, True)
            self.layers.pop()
            self.files.pop()
            changed = True
        elif kind == "env":
            if op[2] is None:
                os.environ.pop(env_name(op[1]), None)
                self.env.pop(op[1], None)
            else:
                os.environ[env_name(op[1])] = self.real(op[2])
                self.env[op[1]] = op[2]
            self.stale = True
        elif kind == "autosave":
            self.config.autosave = op[1]
            self.autosave = op[1]
        elif kind == "observe":
            seen = []
            self.config.on_change(lambda: seen.append({k: self.config.get(k) for k in OPTIONS}))
            self.observers.append(seen)
        elif kind == "save-as":
            f = os.path.join(self.top, "copy.yaml")
            problems += self.do(op, lambda: self.config.save_as(f), True)
            if not problems:
                self.saved[f] = dict(self.layers[-1])
                problems += self.check_file(f)
                del self.saved[f]
        elif kind in ("reject", "enter-reject"):
            # rejected by the cache, which cannot use the directory
            values = {
                "file": {"cache-policy": "user", "user-cache-directory": os.path.join(self.top, "plain", "x")},
                "root": {"cache-policy": "temporary", "temporary-cache-directory-root": os.path.join(self.top, "plain", "x")},
            }[op[1]]

            def fn():
                if kind == "reject":
                    self.config.set(values)
                else:
                    self.config.temporary(values).__enter__()

            problems += self.do(op, fn, False)
        else:
            raise ValueError(op)
        if changed:
            self.stale = False
            expected = self.effective()
            if not self.seen:
                problems.append(f"{op}: the observers are not notified")
            for x in self.observers:
                if not x and not problems:
                    problems.append(f"{op}: an observer added later is not notified")
                elif x and not problems and x[-1] != expected:
                    problems.append(f"{op}: an observer added later was last notified with other values")
        else:
            expected = self.effective()
        if self.seen and not problems and self.seen[-1] != expected:
            d = {k: (self.seen[-1][k], expected[k]) for k in OPTIONS if self.seen[-1][k] != expected[k]}
            problems.append(f"{op}: the observers were last notified with (seen, expected) {d}")
        problems += self.compare(op, changed)
        return problems

    def directory(self):
        return None

    # -- comparison

    def compare(self, op, changed):
        p = []
        expected = self.effective()
        for k in OPTIONS:
            try:
                v = self.config.get(k)
                v2 = self.config.get(k, "other")
            except Exception as e:
                p.append(f"after {op}: get({k}): {type(e).__name__}: {e}")
                continue
            if v != expected[k] or type(v) is not type(expected[k]) or v2 != v:
                p.append(f"after {op}: get({k}) is {v!r} and {v2!r}, expected {expected[k]!r}")
        try:
            self.config.get("unknown", 3)
            p.append("get() of an unknown option")
        except KeyError:
            pass
        env = self.config.env()
        e2 = {k: (env_name(k), self.real(v)) for k, v in self.env.items()}
        if env != e2:
            p.append(f"after {op}: env() {env}, expected {e2}")
        names = [x[0] for x in self.config.dump()]
        if sorted(set(names) & set(OPTIONS)) != sorted(OPTIONS):
            p.append(f"after {op}: dump() of {names}")
        text = repr(self.config) + self.config._repr_html_()
        if not all(k in text for k in OPTIONS):
            p.append(f"after {op}: the report does not have all the options")
        for f in self.saved:
            p += self.check_file(f)
        for f in self.files[1:]:
            if f is not None and f not in self.saved and os.path.exists(f):
                p.append(f"after {op}: {os.path.basename(f)} written without a change to be saved")
        p += self.effects(op)
        return p

    def check_file(self, f):
        import yaml

        try:
            with open(f) as g:
                y = yaml.safe_load(g)
        except Exception as e:
            return [f"config file {os.path.basename(f)}: {e}"]
        p = []
        if not isinstance(y, dict):
            return [f"config file {os.path.basename(f)} is {y!r}"]
        if "version" not in y:
            p.append(f"no version in {os.path.basename(f)}")
        for k in OPTIONS:
            e = self.real(self.saved[f][k])
            if k not in y:
                got = self.real(DEFAULTS[k])
            elif k.endswith("directory") or k.endswith("root"):
                got = y[k]
            else:
                got = next((r for v, r in VALUES[k] if type(v) is type(y[k]) and v == y[k]), ("?", y[k]))
            if got != e:
                p.append(f"{k} in {os.path.basename(f)} is {got!r}, expected {e!r}")
        return p

    def effects(self, op):
        if self.stale:
            return []
        p = []
        e = self.effective()
        i = self.memory_cache_info()
        got = (i.policy, i.maxsize)
        exp = (e["weights-memory-cache-policy"], e["maximum-weights-memory-cache-size"])
        if got != exp and (got[0] != exp[0] or exp[0] in ("largest", "lru")):
            p.append(f"after {op}: the memory cache has {got}, expected {exp}")
        return p


class Managed(Harness):
    """With the disk cache (and its thread)."""

    def directory(self):
        if getattr(self, "stale", True):
            return None
        return self.ekr.cache.directory()

    def effects(self, op):
        p = super().effects(op)
        if self.stale:
            return p
        e = self.effective()
        c = self.ekr.cache
        policy = e["cache-policy"]
        d = c.directory()
        if c.policy.name != policy:
            p.append(f"after {op}: cache policy {c.policy.name}, expected {policy}")
        if policy == "user":
            x = e["user-cache-directory"].replace("~", os.environ["HOME"])
            if d != x:
                p.append(f"after {op}: cache directory {d}, expected {x}")
        else:
            root = e["temporary-cache-directory-root" if policy == "temporary" else "temporary-directory-root"]
            root = root or os.environ["TMPDIR"]
            if os.path.dirname(d) != root:
                p.append(f"after {op}: temporary cache directory {d}, expected in {root}")
            if op[0] in ("reject", "enter-reject") and self.before_dir is not None and d != self.before_dir:
                p.append(f"after {op}: the cache directory was {self.before_dir}, now {d}")
        if not os.path.isdir(d):
            p.append(f"after {op}: the cache directory {d} does not exist")
        if policy != "off":
            got = (c.policy.maximum_cache_size(), c.policy.maximum_cache_disk_usage())
            exp = (e["maximum-cache-size"], e["maximum-cache-disk-usage"])
            if got != exp:
                p.append(f"after {op}: limits of the cache {got}, expected {exp}")
        if (c.size() is None) != (policy == "off"):
            p.append(f"after {op}: policy {policy}, size {c.size()}")
        return p

    def finish(self):
        """The cache works as configured."""
        if self.stale:
            return []
        from earthkit.regrid.utils.caching import cache_file

        e = self.effective()
        p = []
        paths = []

        def create(path, args):
            with open(path, "wb") as f:
                f.write(b"x" * 800)

        for i in range(2):
            paths.append(cache_file("test", create, {"i": i}))
            if not paths[-1].startswith(self.ekr.cache.directory()):
                p.append(f"cache file {paths[-1]} not in the cache directory")
        self.ekr.cache.size()
        n = sum(os.path.exists(x) for x in paths)
        limited = e["cache-policy"] != "off" and e["maximum-cache-size"] in (1000, 1024)
        if n != (1 if limited else 2):
            p.append(f"{n} of two files of 800 bytes kept, cache-policy {e['cache-policy']}, maximum-cache-size {e['maximum-cache-size']}")
        return p


def make(cfg):
    return (Managed if cfg.get("managed") else Harness)(cfg)


# ---------------------------------------------------------------- families


def with_(*extra):
    return [list(x) for x in extra]


T = "url-download-timeout"
C = "check-out-of-date-urls"
S = "maximum-weights-memory-cache-size"
P = "weights-memory-cache-policy"
OFF = {"cache-policy": "off"}


def families(thorough):
    t = 1 if thorough else 0
    layers = [
        ["set", "one", {T: "2m"}], ["set", "dict", {T: 5, C: True}], ["set", "kw", {P: "lru", S: "2M"}],
        ["set", "dict", {T: "45s", C: "maybe"}], ["set", "kw", {S: "3K", "unknown": 1}], ["reset"], ["reset", T],
        ["enter", "one", {}], ["enter", "one", {T: "10h"}], ["enter", "dict", {P: "off", C: "yes"}], ["enter", "dict", {T: "7d", P: "random"}],
        ["leave"], ["leave-error"],
    ]  # fmt: skip
    env = [
        ["env", T, "45s"], ["env", T, None], ["env", C, "True"], ["env", S, "7MB"], ["set", "one", {T: "2m"}], ["set", "dict", {T: 5, C: "no"}],
        ["set", "one", {S: "3K"}], ["reset"], ["reset", T], ["enter", "kw", {T: "1w", S: None}], ["leave"], ["set", "dict", {S: "1", T: "A"}],
    ]  # fmt: skip
    saving = [
        ["autosave", False], ["autosave", True], ["set", "one", {T: "2m"}], ["set", "one", {C: True}], ["set", "one", {T: "A"}], ["reset"],
        ["enter", "one", {T: 5}], ["enter-file", "one", {T: "1w"}], ["enter-file", "one", {}], ["leave"], ["save-as"], ["env", T, "7d"],
    ]  # fmt: skip
    observers = [
        ["observe"], ["set", "one", {T: "2m"}], ["set", "one", {T: "A"}], ["enter", "one", {T: 5}], ["enter", "one", {}], ["leave"], ["leave-error"], ["reset"],
    ]  # fmt: skip
    one = {"env": OFF, "nesting": 2}
    fams = [
        ("layers", {"env": OFF, "nesting": 3}, layers, 4 + t),
        ("observers", {"env": OFF, "nesting": 2}, observers, 4 + t),
        ("environment", one, env, 4 + t),
        ("saving", one, saving, 4 + t),
    ]
    return fams


def managed_families(thorough):
    t = 1 if thorough else 0
    m = {"managed": True, "nesting": 2}
    U, X, Y = "user-cache-directory", "temporary-cache-directory-root", "temporary-directory-root"
    pol = [
        ["set", "one", {"cache-policy": "off"}], ["set", "one", {"cache-policy": "temporary"}], ["set", "one", {"cache-policy": "user"}],
        ["set", "one", {U: "$top/D1"}], ["set", "dict", {X: "$top/R1", Y: "$path/R2"}], ["set", "one", {"maximum-cache-size": 1000}], ["reset"],
        ["reject", "file"], ["reject", "root"],
    ]  # fmt: skip
    tmp = [
        ["enter", "one", {"cache-policy": "off"}], ["enter", "one", {"cache-policy": "temporary"}], ["enter", "one", {"maximum-cache-size": 1000}],
        ["enter", "dict", {"cache-policy": "user", U: "~/mine"}], ["enter-reject", "file"], ["enter-reject", "root"], ["leave"], ["leave-error"],
        ["set", "one", {"maximum-cache-size": None}], ["set", "one", {X: "$top/R1"}], ["set", "one", {Y: "$top/R1"}],
    ]  # fmt: skip
    env = [
        ["env", "cache-policy", "temporary"], ["env", "cache-policy", "off"], ["env", "cache-policy", None], ["env", U, "$top/with a space: #1"], ["env", "maximum-cache-size", "1kb"],
        ["set", "one", {T: 5}], ["set", "one", {U: "$top/D1"}], ["set", "one", {"cache-policy": "temporary"}], ["set", "one", {"maximum-cache-size": 1000}],
        ["enter", "dict", {"cache-policy": "off"}], ["leave"],
    ]  # fmt: skip
    return [
        ("cache-policies", m, pol, 3 + t),
        ("cache-temporary", m, tmp, 3 + t),
        ("cache-environment", m, env, 3 + t),
        ("cache-environment-off", {**m, "env": {"cache-policy": "off"}}, env[1:6] + tmp[:4] + tmp[6:7], 2 + t),
    ]


def value_cases():
    for name, values in VALUES.items():
        for context in ("plain", "temporary", "nested", "env", "enter", "unsaved"):
            for way in ("one", "dict", "kw", "before", "after"):
                yield "values", {"kind": "values", "option": name, "context": context, "way": way}
        yield "env-values", {"kind": "env", "option": name}
    # both orders of a valid and an invalid value for all the pairs of options
    for a in OPTIONS:
        for b in OPTIONS:
            if a != b:
                yield "pairs", {"kind": "pairs", "options": [a, b]}


def run_values(case):
    """All the values of an option one after the other."""
    cfg = {"env": {} if case["option"] == "cache-policy" else OFF}
    h = make(cfg)
    name = case["option"]
    context = case["context"]
    other = T if name != T else C
    if context in ("temporary", "nested"):
        h.apply(["enter", "one", {other: 5 if other == T else True}])
    if context == "nested":
        h.apply(["enter", "one", {}])
    if context == "env":
        v = [v for v, r in VALUES[name] if isinstance(v, str) and r is not BAD and not v.startswith("$path")][0]
        h.apply(["env", name, v])
    if context == "unsaved":
        h.apply(["autosave", False])
    problems = []
    states = []
    n = 0
    for v, r in VALUES[name] + VALUES[name][:2]:
        way = case["way"]
        if way == "before":
            way, values = "dict", {name: v, other: VALUES[other][n % 2][0]}
        elif way == "after":
            way, values = "kw", {other: VALUES[other][n % 2][0], name: v}
        else:
            values = {name: v}
        if name == "cache-policy" and context == "env" and r is not BAD:
            continue
        op = ["enter" if context == "enter" else "set", way, values]
        problems += h.apply(op)
        if context == "enter" and h.managers and not problems:
            problems += h.apply(["leave"])
        n += 1
        states.append(seq.digest(h.state()))
        if problems:
            break
    return {"problems": problems, "counts": {"transitions": n, "traces": 1}, "states": states, "distinct": sorted(h.outcomes)}


def run_env(case):
    """All the texts as environment variable: converted, or an error when read."""
    name = case["option"]
    import earthkit.regrid  # noqa: F401
    from earthkit.regrid import config

    problems = []
    n = 0
    for v, r in VALUES[name]:
        if not isinstance(v, str) or v.startswith("$path"):
            continue
        if name in ("cache-policy", "weights-memory-cache-policy") and r is BAD:
            continue
        os.environ.pop(env_name(name), None)
        saved = next((w for w, y in VALUES[name] if v == "" and y not in (BAD, None, DEFAULTS[name], False, 0) and isinstance(w, (bool, int, str))), None)
        if saved is not None:
            config.set(name, saved)
            saved = config.get(name)
        os.environ[env_name(name)] = v
        n += 1
        try:
            x = config.get(name)
            if saved is not None and x == saved:
                problems.append(f"{env_name(name)}='': the saved value {x!r}")
            if r is BAD and v != "":
                problems.append(f"{env_name(name)}={v!r}: value {x!r}")
            elif r is not BAD and (x != r or type(x) is not type(r)):
                problems.append(f"{env_name(name)}={v!r}: value {x!r}, expected {r!r}")
        except ValueError as e:
            if r is not BAD:
                problems.append(f"{env_name(name)}={v!r}: {e}")
    return {"problems": problems, "counts": {"transitions": n, "traces": 1}, "distinct": []}


def run_pairs(case):
    a, b = case["options"]
    h = make({"env": OFF})
    problems = []
    n = 0
    good = [next(v for v, r in VALUES[k] if r not in (BAD, None, 0, DEFAULTS[k])) for k in (a, b)]
    bad = next((v for v, r in VALUES[b] if r is BAD), None)
    for way in ("dict", "kw"):
        for ctx in ("set", "enter"):
            ops = [[ctx, way, {a: good[0], b: good[1]}]]
            if bad is not None:
                ops = [[ctx, way, {a: good[0], b: bad}], [ctx, way, {b: bad, a: good[0]}]] + ops
            if way == "dict":
                ops = [[ctx, way, {a: good[0], "unknown": 1}], [ctx, way, {"unknown": 1, a: good[0]}]] + ops
            for op in ops:
                problems += h.apply(op)
                n += 1
                if problems:
                    return {"problems": problems, "counts": {"transitions": n, "traces": 1}}
            problems += h.apply(["leave"] if h.managers else ["reset"])
    return {"problems": problems, "counts": {"transitions": n, "traces": 1}, "distinct": sorted(h.outcomes)}


def run(case):
    kind = case.get("kind")
    if kind == "values":
        return run_values(case)
    if kind == "env":
        return run_env(case)
    if kind == "pairs":
        return run_pairs(case)
    cfg, history = copy.deepcopy(case["cfg"]), case["history"]
    h = make(cfg)
    problems = []
    states = [seq.digest(h.state())]
    n = 0
    for i, op in enumerate(history):
        if not h.enabled(op):
            break
        p = h.apply(op)
        n += 1
        states.append(seq.digest(h.state()))
        if p:
            problems += [f"step {i + 1} of {history}: {x}" for x in p]
            break
    if not problems and hasattr(h, "finish"):
        problems += [f"after {history}: {x}" for x in h.finish()]
    return {
        "problems": problems,
        "counts": {"transitions": n, "traces": 1},
        "states": states,
        "distinct": sorted(h.outcomes),
    }


def replay(case):
    return run(case)


def histories(ops, depth):
    if depth == 0:
        yield []
        return
    for h in histories(ops, depth - 1):
        for o in ops:
            yield h + [o]


def explore(ctx):
    cases = list(value_cases())
    for name, cfg, ops, depth in managed_families(ctx.thorough):
        ctx.families.setdefault(name, {"depth": depth, "alphabet": len(ops)})
        for d in range(1, depth + 1):
            for h in histories(ops, d):
                cases.append((name, {"cfg": cfg, "history": h}))
    ctx.run_cases(run, cases, timeout=60)
    if ctx.violations:
        return
    seq.explore_dfs(ctx, make, families(ctx.thorough))
