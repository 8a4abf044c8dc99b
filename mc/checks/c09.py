"""C09: the saved configuration survives restarts, crashes and concurrent changes.

Histories of changes and restarts compared with a model of what is saved; config files of all sorts
found at the start; a process killed at every point that changes the disk; processes that change or
read the configuration at the same time, all schedules up to a preemption bound.
"""
import json
import logging
import os

from mc.checks import c08

LEVEL = "fault_enumeration"
RULE = "distinct = (family, files of the configuration found by the new process, values read by it)"
ASSUMPTIONS = [
    "the process is killed, not the machine: what was written stays written",
    "kill points are between source lines and in the middle of the writes of the code under test",
    "concurrent processes: preemption bounded schedules",
]

DEFAULTS, VALUES, OPTIONS, BAD, env_name = c08.DEFAULTS, c08.VALUES, c08.OPTIONS, c08.BAD, c08.env_name
T, C, S, P = c08.T, c08.C, c08.S, c08.P
D = "maximum-cache-size"
U = "user-cache-directory"

LONG = "$top/" + "long " * 40
# further values to be written to and read from a file
TEXTS = [
    "$top/é", "$top/a: b", "$top/#x", "$top/'q\"", "$top/{x}", "$top/[y]", "$top/- z", "$top/%TAG", "$top/a\\b", "$top/trailing ",
    LONG, "$top/123", "$top/null", "$top/yes", "$top/~", "$top/a\tb", "$top/\U0001f600", "$top/x:", "$top/&a *b !c |d >e",
    "null", "123", "1e3", "true", "~", "2001-01-01", "0x1f", "- a", "a: b", "[", "{}", "@x", "%x", "`x", "1_000", "1:30", "=", "<<", ".inf", " lead",
]  # fmt: skip


def convert(name, value):
    return value if value == LONG else c08.convert(name, value)


def real(v):
    if isinstance(v, str):
        if v == DEFAULTS[U]:
            return os.environ["HOME"] + v[1:]
        if v.startswith("$path"):
            import pathlib

            return pathlib.Path(os.getcwd() + v[5:])
        return v.replace("$top", os.getcwd())
    return v


def expected(values):
    return {k: real(v) for k, v in values.items()}


def default_file():
    return os.path.join(os.environ["HOME"], ".config", "earthkit", "regrid", "config.yaml")


class Errors(logging.Handler):
    def __init__(self):
        super().__init__(logging.ERROR)
        self.seen = []

    def emit(self, record):
        self.seen.append(record.getMessage())


def start():
    """Import the library. -> (config, errors)"""
    import warnings

    warnings.simplefilter("ignore")
    os.environ.setdefault("EARTHKIT_REGRID_CACHE_POLICY", "off")
    e = Errors()
    logging.getLogger("earthkit").addHandler(e)
    from earthkit.regrid import config

    return config, e.seen


def read_all(env=None):
    """What a new process reads."""
    os.environ.update(env or {})
    config, errors = start()
    # (the environment variable hides the saved value)
    os.environ.pop("EARTHKIT_REGRID_CACHE_POLICY", None)
    r = {k: config.get(k) for k in OPTIONS}
    n = len(list(config.dump()))
    return {"values": r, "errors": errors, "dump": n}


def differences(got, exp):
    return {k: (got.get(k), exp[k]) for k in exp if got.get(k) != exp[k] or type(got.get(k)) is not type(exp[k])}


# ---------------------------------------------------------------- histories


class Session:
    """The operations of one process."""

    def __init__(self):
        self.config, self.errors = start()
        self.managers = []

    def op(self, op):
        """-> accepted"""
        kind = op[0]
        config = self.config
        try:
            if kind == "set":
                values = {k: real(v) for k, v in op[1].items()}
                if len(values) == 1:
                    config.set(*list(values.items())[0])
                else:
                    config.set(values)
            elif kind == "reset":
                config.reset(*op[1:])
            elif kind == "enter":
                m = config.temporary({k: real(v) for k, v in op[1].items()}) if op[1] else config.temporary()
                m.__enter__()
                self.managers.append(m)
            elif kind == "leave":
                self.managers.pop().__exit__(None, None, None)
            elif kind == "env":
                os.environ[env_name(op[1])] = op[2]
            elif kind == "autosave":
                config.autosave = op[1]
            else:
                raise AssertionError(op)
        except AssertionError:
            raise
        except Exception:
            return False
        return True


def session(ops):
    s = Session()
    return {"accepted": [s.op(o) for o in ops], "errors": s.errors}


class Model:
    def __init__(self):
        self.saved = dict(DEFAULTS)  # the file
        self.restart()

    def restart(self):
        self.layers = [dict(self.saved)]
        self.autosave = True

    def usable(self, layer):
        return layer[P] in ("off", "unlimited") or bool(layer[S])

    def op(self, op):
        kind = op[0]
        top = self.layers[-1]
        if kind == "set":
            if any(k not in DEFAULTS or convert(k, v) is BAD for k, v in op[1].items()):
                return False
            new = {**top, **{k: convert(k, v) for k, v in op[1].items()}}
            if not self.usable(new):
                return False
            self.change(new)
        elif kind == "reset":
            self.change(dict(DEFAULTS) if len(op) == 1 else {**top, op[1]: DEFAULTS[op[1]]})
        elif kind == "enter":
            self.layers.append({**top, **{k: c08.convert(k, v) for k, v in op[1].items()}})
        elif kind == "leave":
            if len(self.layers) == 1:
                return False
            self.layers.pop()
        elif kind == "autosave":
            self.autosave = op[1]
        return True

    def change(self, new):
        self.layers[-1] = new
        if len(self.layers) == 1 and self.autosave:
            self.saved = dict(new)


def run_history(case):
    from mc import core

    d = os.getcwd()
    history = case["history"]
    m = Model()
    sessions = [[]]
    for o in history:
        if o[0] == "restart":
            sessions.append([])
        else:
            sessions[-1].append(o)
    problems = []
    for i, ops in enumerate(sessions):
        m.restart()
        exp = [m.op(o) for o in ops]
        r = core.fork_call(session, ops, scratch=d, own_dirs=False, timeout=60)
        if r["accepted"] != exp:
            problems.append(f"session {ops}: accepted {r['accepted']}, expected {exp}")
        if r["errors"]:
            problems.append(f"session {ops}: errors {r['errors']}")
        new = core.fork_call(read_all, scratch=d, own_dirs=False, timeout=60)
        e = expected(m.saved)
        x = differences(new["values"], e)
        if x:
            problems.append(f"after {sessions[: i + 1]} a new process reads (got, expected) {x}")
        if new["errors"]:
            problems.append(f"after {sessions[: i + 1]} errors at the start: {new['errors']}")
        if problems:
            break
    return {
        "problems": problems,
        "counts": {"evaluations": 1, "restarts": len(sessions)},
        "distinct": [json.dumps(["history", m.saved, len(sessions)], default=str)],
    }


def histories(depth):
    ops = [
        ["set", {T: "2m"}], ["set", {T: 5, C: "yes"}], ["set", {D: None}], ["set", {T: "45s", C: "maybe"}], ["set", {P: "off", S: None}],
        ["reset"], ["reset", T], ["enter", {T: "10h"}], ["enter", {}], ["leave"], ["autosave", False], ["autosave", True],
        ["env", T, "45s"], ["restart"],
    ]  # fmt: skip

    def gen(n):
        if n == 0:
            yield []
            return
        for h in gen(n - 1):
            for o in ops:
                if o[0] == "leave" and sum(x[0] == "enter" for x in h) <= sum(x[0] == "leave" for x in h):
                    continue
                if o[0] == "restart" and (not h or h[-1][0] == "restart"):
                    continue
                yield h + [o]

    yield from gen(depth)


def run_value(case):
    """One value of an option, written and read back (twice)."""
    from mc import core

    d = os.getcwd()
    name, v = case["option"], case["value"]
    if "text" in case:
        r = v
    else:
        r = c08.convert(name, v)
    before = {} if name == T else {T: 120}
    m = {**DEFAULTS, **before}
    values = {**before, name: v}
    if name == S and not r:
        values[P] = "unlimited"
        m[P] = "unlimited"
    accepted = r is not BAD
    if accepted:
        m[name] = r
    else:
        m = dict(DEFAULTS)
    problems = []
    x = core.fork_call(session, [["set", values]], scratch=d, own_dirs=False, timeout=60)
    if x["accepted"] != [accepted] or x["errors"]:
        problems.append(f"set {values}: {x}")
    for i in range(2):
        new = core.fork_call(read_all, scratch=d, own_dirs=False, timeout=60)
        e = expected(m)
        y = differences(new["values"], e)
        if y or new["errors"]:
            problems.append(f"set {values}: new process {i} reads (got, expected) {y}, errors {new['errors']}")
        if i == 0:
            # another change writes the value again
            o = core.fork_call(session, [["set", {"check-out-of-date-urls": True}], ["set", {"check-out-of-date-urls": m[C]}]], scratch=d, own_dirs=False, timeout=60)
            if o["accepted"] != [True, True]:
                problems.append(f"set {values}: later changes {o}")
    return {
        "problems": problems,
        "counts": {"evaluations": 1, "restarts": 2},
        "distinct": [json.dumps(["value", name, str(r)])],
    }


# ---------------------------------------------------------------- files found at the start


def cut_text():
    return valid_file().replace(f"{P}: lru\n", "")


def valid_file():
    return f"# comment\n\n{T}: 2m\n\n{C}: true\n{D}: null\n{P}: lru\nversion: 0.0.1\n"


FILES = {
    # name -> (content, values that have to be read; None: only a working library is expected)
    "empty": ("", {}),
    "comments": ("# a\n\n# b\n", {}),
    "list": ("- a\n- b\n", {}),
    "text": ("hello\n", {}),
    "number": ("3\n", {}),
    "invalid": (f"{T}: [1, 2\n{C}: }}\n", None),
    "binary": ("\x00\x01\x02\xff", None),
    "tabs": (f"\t{T}: 3\n", None),
    "version-old": (valid_file(), {T: 120, C: True, D: None, P: "lru"}),
    "version-none": (valid_file().replace("version: 0.0.1\n", ""), {T: 120, C: True, D: None, P: "lru"}),
    "version-new": (valid_file().replace("0.0.1", "99.1.0"), {T: 120, C: True, D: None, P: "lru"}),
    "version-only": ("version: 0.0.1\n", {}),
    "unknown": (f"something-else: 3\n{T}: 5\nversion: 0.0.1\n", {T: 5}),
    "strings": (f"{T}: '5'\n{C}: 'yes'\n{D}: '7'\n", {T: 5, C: True, D: 7}),
    "documents": (f"---\n{T}: 5\n", {T: 5}),
    "crlf": (f"{T}: 5\r\n{C}: true\r\n", {T: 5, C: True}),
}
OLD = {
    "old-values": (f"{T}: 2m\nmaximum-cache-size: 1G\nversion: 0.0.1\n", {T: 120, D: 1024**3}),
    "old-off": (f"{T}: 0\n{D}: null\n{S}: 0\n{C}: false\n{P}: 'off'\n", {T: 0, D: None, S: 0, C: False, P: "off"}),
    "old-on": (f"{C}: true\ncache-policy: temporary\n{P}: unlimited\n", {C: True, "cache-policy": "temporary", P: "unlimited"}),
    "old-empty": ("", {}),
    "old-list": ("- 1\n", {}),
    "old-invalid": ("[", {}),
    "old-unknown": (f"xyz: 1\n{C}: true\n", {C: True}),
    "old-not-read": None,  # a config file exists
}


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", newline="", encoding="latin-1" if "\xff" in text else "utf-8") as f:
        f.write(text)


def cut_file(name):
    """A file that was cut short by something else: a value may be wrong, but the library starts."""
    from mc import core

    d = os.getcwd()
    problems = []
    o = core.fork_call(session, [["reset"], ["set", {S: "2M"}], ["set", {T: 5}]], scratch=d, own_dirs=False, timeout=60)
    if o["accepted"] != [True, True, True]:
        problems.append(f"file {name}: changes {o}")
    new = core.fork_call(read_all, scratch=d, own_dirs=False, timeout=60)
    y = differences(new["values"], expected({**DEFAULTS, S: 2 * 1024**2, T: 5}))
    if y:
        problems.append(f"file {name}: after a change a new process reads (got, expected) {y}")
    return {"problems": problems, "counts": {"evaluations": 1, "restarts": 1}, "distinct": [name]}


def run_file(case):
    """A file found at the start: the library starts, can be changed, and the change is there afterwards."""
    from mc import core

    d = os.getcwd()
    name = case["file"]
    place = case.get("place", "default")
    path = default_file()
    env = {}
    if place != "default":
        path = os.path.join(d, {"env": "alt", "env-missing": "alt/x/y", "env-link": "alt"}[place], "my.yaml")
        env = {"EARTHKIT_REGRID_CONFIG_FILE": path}
    exp = {}
    if name.startswith("cut"):
        # (the name of a policy must be complete)
        put(path, cut_text()[: int(name[3:])])
        exp = None
    elif name in FILES:
        text, exp = FILES[name]
        if place == "env-link":
            put(os.path.join(d, "alt", "target.yaml"), text)
            os.symlink("target.yaml", path)
        else:
            put(path, text)
    elif name in OLD:
        if OLD[name] is None:
            put(path, f"{T}: 7\n")
            put(os.path.join(os.environ["HOME"], ".earthkit_regrid", "settings.yaml"), f"{T}: 9\n")
            exp = {T: 7}
        else:
            text, exp = OLD[name]
            put(os.path.join(os.environ["HOME"], ".earthkit_regrid", "settings.yaml"), text)
    elif name == "none":
        pass
    elif name == "folder":
        os.makedirs(path)
        exp = None
    elif name == "no-folder":
        # the folder cannot be made
        put(os.path.dirname(path), "x")
    else:
        raise AssertionError(name)
    os.environ.update(env)
    problems = []
    if name.startswith("cut"):
        return cut_file(name)
    r = [core.fork_call(read_all, scratch=d, own_dirs=False, timeout=60) for _ in range(2)]
    if exp is not None:
        for i, x in enumerate(r):
            y = differences(x["values"], expected({**DEFAULTS, **exp}))
            if y:
                problems.append(f"file {name}: process {i} reads (got, expected) {y}")
    o = core.fork_call(session, [["set", {S: "2M"}], ["set", {T: 5}]], scratch=d, own_dirs=False, timeout=60)
    if o["accepted"] != [True, True]:
        problems.append(f"file {name}: later changes {o}")
    new = core.fork_call(read_all, scratch=d, own_dirs=False, timeout=60)
    if name in ("folder", "no-folder"):
        want = expected(DEFAULTS)
    else:
        want = {**r[1]["values"], S: 2 * 1024**2, T: 5}
    y = differences(new["values"], want)
    if y:
        problems.append(f"file {name}: after a change a new process reads (got, expected) {y}")
    if place == "env-link" and name not in ("folder", "no-folder") and not os.path.islink(path):
        problems.append("the link to the config file was replaced")
    if place != "default" and os.path.exists(default_file()):
        problems.append(f"file {name}: {default_file()} written")
    return {
        "problems": problems,
        "counts": {"evaluations": 1, "restarts": 3},
        "distinct": [json.dumps([place, name, r[0]["values"]], default=str).replace(d, "")],
    }


# ---------------------------------------------------------------- crashes

# name -> (files, sessions that end before, operations of the process which is killed)
CRASHES = {
    "first-start": ({}, [], []),
    "first-change": ({}, [], [["set", {T: "2m"}]]),
    "start": ({}, [[["set", {T: "2m", D: 1000}]]], []),
    "set": ({}, [[["set", {T: "2m", D: 1000}]]], [["set", {C: True}]]),
    "set-again": ({}, [[["set", {T: "2m", D: 1000}]]], [["set", {T: 5}]]),
    "set-many": ({}, [[["set", {T: "2m", P: "lru"}]]], [["set", {C: True, D: None, S: "2M"}]]),
    "set-default": ({}, [[["set", {T: "2m", D: 1000}]]], [["set", {T: "30s"}]]),
    "reset": ({}, [[["set", {T: "2m", D: 1000, P: "lru"}]]], [["reset"]]),
    "reset-one": ({}, [[["set", {T: "2m", D: 1000, P: "lru"}]]], [["reset", T]]),
    "two-changes": ({}, [[["set", {P: "lru"}]]], [["set", {T: 5}], ["set", {D: 1000}]]),
    "rejected": ({}, [[["set", {T: "2m"}]]], [["set", {D: 1000, C: "maybe"}], ["set", {S: 0}]]),
    "temporary": ({}, [[["set", {T: "2m"}]]], [["enter", {T: 5}], ["set", {D: 1000}], ["leave"], ["set", {P: "lru"}]]),
    "upgrade": ({"new": valid_file()}, [], []),
    "migrate": ({"old": OLD["old-values"][0]}, [], []),
    "migrate-change": ({"old": OLD["old-values"][0]}, [], [["set", {C: True}]]),
    "long": ({}, [[["set", {U: LONG, T: "2m"}]]], [["set", {D: "7MB"}]]),
}  # fmt: skip


def prepare_crash(name):
    from mc import core

    files, sessions, _ = CRASHES[name]
    for k, text in files.items():
        put(default_file() if k == "new" else os.path.join(os.environ["HOME"], ".earthkit_regrid", "settings.yaml"), text)
    for ops in sessions:
        r = core.fork_call(session, ops, scratch=os.getcwd(), own_dirs=False, timeout=60)
        assert all(r["accepted"]) and not r["errors"], r


def killed(ops, k, log=False):
    from mc import crash
    from mc import sched

    sched.install()
    import filelock

    sched.POINTS_IN_IMPORTS = True
    crash.GRAIN = 1 if os.environ.get("VERIF_TIER") == "thorough" else 600
    seen = crash.observe([os.path.join(os.getcwd(), "home")]) if log else None

    def main():
        s = Session()
        for o in ops:
            s.op(o)

    n, failure = crash.run(main, k, prefixes=[os.path.dirname(filelock.__file__)])
    return n, failure, seen


def values_of(name):
    """Values that each option may have during the operations, and at the end."""
    files, sessions, ops = CRASHES[name]
    m = Model()
    if "new" in files:
        m.saved.update(FILES["version-old"][1])
    if "old" in files:
        m.saved.update(OLD["old-values"][1])
    for s in [*sessions, ops]:
        m.restart()
        if s is ops:
            break
        for o in s:
            m.op(o)
    allowed = [dict(m.saved)]
    for o in ops:
        m.op(o)
        allowed.append(dict(m.saved))
    if not sessions and "new" not in files and "old" not in files:
        allowed.append(dict(DEFAULTS))
    return allowed


def reference(name):
    from mc import core

    d = os.getcwd()
    prepare_crash(name)
    ops = CRASHES[name][2]
    n, failure, seen = core.fork_call(killed, ops, 0, True, scratch=d, own_dirs=False)
    if failure:
        raise RuntimeError(f"{name}: {failure}")
    return {"points": n, "kills": [k for k, _ in seen] + [n + 1]}


def reference2(name, k):
    """Points of the process started after a kill."""
    from mc import core

    d = os.getcwd()
    prepare_crash(name)
    ops = CRASHES[name][2]
    try:
        core.fork_call(killed, ops, k, scratch=d, own_dirs=False, timeout=60)
    except core.ChildDied:
        pass
    n, failure, seen = core.fork_call(killed, AGAIN, 0, True, scratch=d, own_dirs=False)
    if failure:
        raise RuntimeError(f"{name}: {failure}")
    return [k for k, _ in seen]


AGAIN = [["set", {"download-out-of-date-urls": True}]]


def run_crash(case):
    from mc import core

    d = os.getcwd()
    name = case["scenario"]
    prepare_crash(name)
    ops = CRASHES[name][2]
    problems = []
    reached = 0
    for k, o in ((case["kill"], ops), (case.get("kill2"), AGAIN)):
        if not k:
            continue
        try:
            core.fork_call(killed, o, k, scratch=d, own_dirs=False, timeout=60)
        except core.ChildDied:
            reached += 1
    allowed = [expected(a) for a in values_of(name)]
    left = []
    for root, _, fs in os.walk(os.path.join(d, "home")):
        left += [(f, os.path.getsize(os.path.join(root, f))) for f in fs]
    new = core.fork_call(read_all, scratch=d, own_dirs=False, timeout=60)
    for k in OPTIONS:
        ok = [a[k] for a in allowed]
        if case.get("kill2") and k == "download-out-of-date-urls":
            ok.append(True)
        if new["values"][k] not in ok:
            problems.append(f"{k} is {new['values'][k]!r}, before or after the change {ok}")
    if new["errors"]:
        problems.append(f"errors at the start: {new['errors']}")
    # changes can be made again
    o = core.fork_call(session, [["set", {T: "7d"}]], scratch=d, own_dirs=False, timeout=60)
    if o["accepted"] != [True] or o["errors"]:
        problems.append(f"a change after the restart: {o}")
    last = core.fork_call(read_all, scratch=d, own_dirs=False, timeout=60)
    y = differences(last["values"], {**new["values"], T: 604800})
    if y or last["errors"]:
        problems.append(f"after a change after the restart (got, expected) {y} {last['errors']}")
    return {
        "problems": [f"{name} killed at {case['kill']} {case.get('kill2', '')}: {p}" for p in problems],
        "counts": {"evaluations": 1, "kills": reached},
        "distinct": [json.dumps([name, sorted(left), new["values"]], default=str).replace(d, "")],
    }


# ---------------------------------------------------------------- processes

# name -> (sessions before, sessions at the same time)
PROGRAMS = {
    "first-starts": ([], [[], []]),
    "first-change": ([], [[["set", {T: 5}]], []]),
    "set-start": ([[["set", {P: "lru", T: "2m"}]]], [[["set", {D: 1000}]], []]),
    "set-set": ([[["set", {P: "lru"}]]], [[["set", {T: 5}]], [["set", {D: 1000}]]]),
    "set-set-same": ([[["set", {P: "lru"}]]], [[["set", {T: 5}]], [["set", {T: "2m"}]]]),
    "twice-set": ([[["set", {P: "lru"}]]], [[["set", {T: 5}], ["set", {C: True}]], [["set", {D: 1000}]]]),
    "reset-set": ([[["set", {P: "lru", T: "2m"}]]], [[["reset"]], [["set", {D: 1000}]]]),
    "set-set-start": ([[["set", {P: "lru"}]]], [[["set", {T: 5}]], [["set", {D: 1000}]], []]),
}  # fmt: skip

_warm = []


def warm():
    from mc import sched

    if not _warm:
        _warm.append(1)
        sched.install()
        sched.FILES = ("config.py",)
        # nothing shared between processes
        sched.SKIP_CODE = ("get", "_env", "_has_env", "env", "save", "docs_description", "explain", "check", "validate", "_set", "_as_bool",
                           "_as_bytes", "_as_seconds", "_as_percent", "_as_str", "env_var_name", "wrapped", "_notify", "temporary")  # fmt: skip
        sched.prepare()


def values_now(config):
    from mc import sched

    sched.S.tracing = False
    r = {k: config.get(k) for k in OPTIONS}
    sched.S.tracing = True
    return r


def user(ops):
    s = Session()
    os.environ.pop("EARTHKIT_REGRID_CACHE_POLICY", None)
    first = values_now(s.config)
    os.environ["EARTHKIT_REGRID_CACHE_POLICY"] = "off"
    r = [s.op(o) for o in ops]
    os.environ.pop("EARTHKIT_REGRID_CACHE_POLICY", None)
    return {"first": first, "accepted": r, "errors": s.errors, "last": values_now(s.config)}


def run_processes(case):
    from mc import core
    from mc import procs
    from mc import sched

    warm()
    sched.POINTS_IN_IMPORTS = True
    d = os.getcwd()
    before, users = PROGRAMS[case["program"]]
    m = Model()
    for ops in before:
        r = core.fork_call(session, ops, scratch=d, own_dirs=False, timeout=60)
        assert all(r["accepted"]), r
        m.restart()
        for o in ops:
            m.op(o)
    # versions that can be in the file: those made from any version by the changes
    versions = {json.dumps(m.saved, sort_keys=True): 0}
    for _ in range(3):
        for v in list(versions):
            for ops in users:
                x = Model()
                x.saved = json.loads(v)
                x.restart()
                for o in ops:
                    x.op(o)
                    versions.setdefault(json.dumps(x.saved, sort_keys=True), 1)
    versions = [json.loads(v) for v in versions]
    r = procs.run([lambda ops=ops: user(ops) for ops in users], lambda: None, case["dev"])
    problems, diverged, outcome = [], None, []
    failure = r["failure"]
    if failure and failure.startswith("diverged"):
        diverged = failure
    elif failure:
        problems.append(failure)
    else:
        full = [expected(v) for v in versions]
        for i, (f, x) in enumerate(r["results"]):
            if f or x is None:
                problems.append(f"process {i}: {f}")
                continue
            if x["first"] not in full:
                y = differences(x["first"], expected(m.saved))
                problems.append(f"process {i} starts with values that were never saved, (got, at first) {y}")
            if x["errors"]:
                problems.append(f"process {i}: errors {x['errors']}")
            if not all(x["accepted"]):
                problems.append(f"process {i}: {x['accepted']}")
            z = Model()
            z.saved = dict(versions[full.index(x["first"])]) if x["first"] in full else dict(m.saved)
            z.restart()
            for o in users[i]:
                z.op(o)
            y = differences(x["last"], expected(z.layers[-1]))
            if y:
                problems.append(f"process {i} ends with (got, expected) {y}")
            outcome.append(x["first"] == expected(m.saved))
        new = core.fork_call(read_all, scratch=d, own_dirs=False, timeout=60)
        ends = [x["last"] for f, x in r["results"] if x and x["accepted"]]
        if (ends and new["values"] not in ends) or new["values"] not in full:
            problems.append(f"the values read at the end are not the last ones of a process: {differences(new['values'], expected(m.saved))}")
        if new["errors"]:
            problems.append(f"errors at the start at the end: {new['errors']}")
        outcome.append({k: v for k, v in new["values"].items() if v != expected(DEFAULTS)[k]})
        left = [f for _, _, fs in os.walk(os.path.join(d, "home")) for f in fs if f != "config.yaml" and not f.endswith(".lock")]
        if left:
            problems.append(f"files left over: {left}")
    return {
        "trace": r["trace"],
        "problems": problems,
        "diverged": diverged,
        "outcome": json.dumps(outcome, default=str),
        "counts": {"evaluations": 1},
    }


# ---------------------------------------------------------------- all


def run(case):
    kind = case["kind"]
    return {"history": run_history, "value": run_value, "file": run_file, "crash": run_crash, "processes": run_processes}[kind](case)


def replay(case):
    return run(case)


def explore(ctx):
    from mc import core
    from mc import sched

    cases = []
    for name, values in VALUES.items():
        for v, r in values:
            if not (name == "cache-policy" and v == "empty"):
                cases.append(("values", {"kind": "value", "option": name, "value": v}))
    for name in (U, "temporary-cache-directory-root", "temporary-directory-root"):
        for v in TEXTS:
            cases.append(("texts", {"kind": "value", "option": name, "value": v, "text": True}))
    for place in ("default", "env", "env-missing", "env-link"):
        for f in [*FILES, *OLD, "none", "folder", "no-folder"]:
            if f in FILES or place != "env-link":
                if f == "no-folder" and place == "env-missing":
                    continue
                cases.append(("files", {"kind": "file", "file": f, "place": place}))
    for i in range(len(cut_text()) + 1):
        cases.append(("files-cut", {"kind": "file", "file": f"cut{i}"}))
    for h in histories(4 if ctx.thorough else 3):
        cases.append(("histories", {"kind": "history", "history": h}))
    ctx.run_cases(run, cases, timeout=100)
    if ctx.violations:
        return
    cases = []
    pool = core.Pool(core._call1(reference))
    refs = {}
    for s in CRASHES:
        pool.submit(s, s)
    for s, (kind, val) in pool.results():
        if kind != "ok":
            ctx.absorb(s, {"kind": "crash", "scenario": s, "kill": 0}, (kind, val))
            continue
        refs[s] = val
    pool.close()
    for s, r in refs.items():
        ctx.families["crash-" + s] = {"points": r["points"], "different_disk_states": len(r["kills"])}
        ctx.counts["points_covered"] += r["points"]
        for k in r["kills"]:
            cases.append(("crash-" + s, {"kind": "crash", "scenario": s, "kill": k}))
    ctx.run_cases(run, cases, timeout=100)
    twice = list(refs) if ctx.thorough else ["first-start", "set"]
    cases = []
    pool = core.Pool(lambda s, k: reference2(s, k))
    for s in twice:
        ks = refs[s]["kills"][:-1] if s in refs else []
        for k in ks if ctx.thorough else ks[:: max(1, len(ks) // 12)]:
            pool.submit((s, k), s, k)
    for (s, k), (kind, val) in pool.results():
        if kind != "ok":
            ctx.absorb(s, {"kind": "crash", "scenario": s, "kill": k}, (kind, val))
            continue
        for j in val:
            cases.append((f"crash-{s}-twice", {"kind": "crash", "scenario": s, "kill": k, "kill2": j}))
    pool.close()
    ctx.run_cases(run, cases, timeout=100)
    if ctx.violations:
        return
    for name in PROGRAMS:
        sched.explore(
            ctx, name, run, 2 if ctx.thorough else 1, case_extra={"kind": "processes"}, family="processes-" + name,
            init=warm, max_free=1 if ctx.thorough else 0, cap=4000 if ctx.thorough else None,
        )  # fmt: skip
