"""C11: a remote inventory is used fresh when needed and offline when possible.

Explicit exploration of histories of requests, server updates, outages, purges and restarts on the
real code (UrlAccessor, the disk cache, multiurl and requests), with the HTTP adapter answered by
mc/fakehttp.py. The states between two processes (what is in the cache directory, what the server
has) are explored to a fixpoint: for each state found, all the sequences of operations of one process
up to a depth are run, and the states they end in are explored in turn.

The model predicts for each request the result or an error, whether the server may be contacted for the
index, and how often the weights are downloaded.
"""
import json
import os

LEVEL = "model_checking"
RULE = "states = (disk, server, process) of the model; distinct = distinct (state of the model, operation, outcome)"
ASSUMPTIONS = [
    "one process at a time uses the cache (see C07); the answers of the server are complete or are errors (see C12)",
    "the server adds entries",
]

# request -> (input grid, output grid, method)
REQ = {
    "r1": ({"grid": "H1"}, {"grid": [90, 90]}, "linear"),
    "r2": ({"grid": "H1"}, {"grid": "H2"}, "linear"),
    "r3": ({"grid": "H2"}, {"grid": [90, 90]}, "linear"),
    "r4": ({"grid": "H1"}, {"grid": [90, 90]}, "nearest-neighbour"),
}
GRID = {
    "H1": ({"grid": "H1", "order": "ring", "shape": [12]}, 12),
    "H2": ({"grid": "H2", "order": "ring", "shape": [48]}, 48),
    "ll": ({"grid": [90, 90], "shape": [3, 4]}, 12),
}
# what each version of the server has
VERSIONS = {1: ["r1"], 2: ["r1", "r2"], 3: ["r1", "r2", "r4"]}
SERVERS = {"A": "http://inventory.test/db/1/", "B": "https://other.test/x/"}


def key(g):
    return "ll" if isinstance(g["grid"], list) else g["grid"]


def matrix(server, req):
    from mc import inv

    a, b, m = REQ[req]
    salt = sorted(REQ).index(req) * 5 + (3 if server == "B" else 0)
    return inv.int_matrix(GRID[key(b)][1], GRID[key(a)][1], salt)


def files(server, version):
    from mc import inv

    entries = []
    for r in VERSIONS[version]:
        a, b, m = REQ[r]
        entries.append(inv.entry(GRID[key(a)][0], GRID[key(b)][0], m, matrix(server, r), name=f"{server}{r}"))
    return inv.site(entries)


def all_files(server):
    """Everything ever published stays there, only the index changes"""
    r = {}
    for v in VERSIONS:
        for k, d in files(server, v).items():
            r.setdefault(k, {})[v] = d
    return r


class User:
    """The operations of one process"""

    def __init__(self, cfg, servers):
        from mc import fakehttp

        for k, v in cfg.get("env", {}).items():
            os.environ[k] = v
        self.cfg = cfg
        self.sites = {}
        first = None
        for s, st in servers.items():
            srv = fakehttp.Server(SERVERS[s])
            self.sites[s] = srv
        self.servers = {s: dict(st) for s, st in servers.items()}
        for s in self.sites:
            self.publish(s)
        first = Switch(self.sites)
        fakehttp.Server.install(first)
        import earthkit.regrid as ekr

        self.ekr = ekr
        from earthkit.regrid.array import regrid

        self.regrid = regrid
        ekr.config.set("user-cache-directory", os.path.join(os.getcwd(), "cache"))

    def publish(self, s):
        st = self.servers[s]
        srv = self.sites[s]
        srv.files = files(s, max(st["version"], st["sha"]))
        for name, v in (("index.json.gz", st["version"]), ("index.json.sha256", st["sha"])):
            srv.files[name] = files(s, v)[name]
        if self.cfg.get("newline"):
            srv.files["index.json.sha256"] += b"\n"
        srv.down = self.cfg.get("down", "refused") if st["down"] else None

    def request(self, s, req, api):
        import numpy as np

        from mc import inv

        a, b, m = REQ[req]
        x = (np.arange(GRID[key(a)][1]) * 7) % 11 - 4.0
        srv = self.sites[s]
        srv.log.clear()
        try:
            if api == "interpolate":
                res = self.ekr.interpolate(x, dict(a), dict(b), matrix_source=SERVERS[s], method=m)
            else:
                res, _ = self.regrid(x, dict(a), dict(b), interpolation=m, backend="precomputed", inventory=SERVERS[s])
        except Exception as e:
            out = ["error", type(e).__name__, str(e)[:200]]
        else:
            exp = inv.product(matrix(s, req), x).reshape(GRID[key(b)][0]["shape"])
            out = ["value", bool(np.shape(res) == exp.shape and np.array_equal(res, exp))]
        others = [o for o in self.sites if o != s and self.sites[o].log]
        log = [list(x) for x in srv.log]
        for o in self.sites.values():
            o.log.clear()
        return out, log, others

    def run(self, ops):
        r = []
        for op in ops:
            if op[0] == "req":
                r.append(self.request(op[1], op[2], op[3] if len(op) > 3 else "regrid"))
            elif op[0] in PUBLISH:
                PUBLISH[op[0]](self.servers[op[1]])
                self.publish(op[1])
                r.append(None)
            elif op[0] in ("down", "up"):
                self.servers[op[1]]["down"] = op[0] == "down"
                self.publish(op[1])
                r.append(None)
            elif op[0] == "purge":
                self.ekr.cache.purge()
                r.append(None)
            elif op[0] == "clear":
                self.ekr.clear_memory_cache()
                r.append(None)
            else:
                raise ValueError(op)
        return r, self.servers


class Switch:
    """Several servers"""

    def __init__(self, sites):
        self.sites = sites
        self.sleeps = 0

    def answer(self, adapter, request):
        for s in self.sites.values():
            if request.url.startswith(s.base):
                return s.answer(adapter, request)
        import requests

        raise requests.exceptions.ConnectionError(f"no such server {request.url}")


# ---------------------------------------------------------------- model


def publish(st):
    st["version"] += 1
    st["sha"] = st["version"]


def publish_sha(st):
    st["sha"] += 1


def publish_gz(st):
    st["version"] += 1


def complete(st):
    st["version"] = st["sha"] = max(st["version"], st["sha"])


# the index and its checksum are published together, or one after the other
PUBLISH = {"publish": publish, "publish-sha": publish_sha, "publish-gz": publish_gz, "complete": complete}


def boot(cfg):
    # "seen", what the server had when it was last asked, plays no part in what is expected: it keeps apart states
    # which are the same to the user and may not be on the disk
    return {
        s: {"version": 1, "sha": 1, "down": False, "index": None, "seen": None, "files": [], "loaded": None, "checked": False, "memory": []}
        for s in cfg.get("servers", ["A"])
    }


def restart(model):
    for m in model.values():
        m["loaded"], m["checked"], m["memory"] = None, False, []
    return model


def enabled(cfg, model, op):
    if op[0] == "complete":
        return model[op[1]]["version"] != model[op[1]]["sha"]
    if op[0] in PUBLISH:
        if model[op[1]]["version"] != model[op[1]]["sha"]:
            return False
        return model[op[1]]["version"] < max(VERSIONS if cfg.get("versions") is None else range(1, cfg["versions"] + 1))
    if op[0] == "down":
        return not model[op[1]]["down"]
    if op[0] == "up":
        return model[op[1]]["down"]
    return True


def step(cfg, model, op):
    """-> expected (value?, index contact: none | check | download, number of weight downloads) for a request"""
    if op[0] in PUBLISH:
        PUBLISH[op[0]](model[op[1]])
        return None
    if op[0] in ("down", "up"):
        model[op[1]]["down"] = op[0] == "down"
        return None
    if op[0] == "purge":
        for m in model.values():
            m["index"], m["seen"], m["files"] = None, None, []
        return None
    if op[0] == "clear":
        for m in model.values():
            m["memory"] = []
        return None
    m = model[op[1]]
    r = op[2]
    memory = cfg.get("env", {}).get("EARTHKIT_REGRID_WEIGHTS_MEMORY_CACHE_POLICY") != "off"
    if memory and r in m["memory"]:
        return dict(value=True, index="none", gz=0, weights=0)
    contact, gz = "none", 0
    if m["loaded"] is None:
        if m["index"] is None:
            if m["down"]:
                return dict(value=False, index="any", gz="any", weights=0)
            m["index"] = m["version"]
            m["seen"] = [m["version"], m["sha"]]
            contact, gz = "some", 1
        m["loaded"] = m["index"]
    if r not in VERSIONS[m["loaded"]]:
        if m["checked"]:
            return dict(value=False, index=contact, gz=gz, weights=0)
        if m["down"]:
            return dict(value=False, index="any", gz="any", weights=0)
        m["checked"] = True
        m["seen"] = [m["version"], m["sha"]]
        if m["index"] != m["sha"]:
            m["index"] = m["version"]
            gz += 1
        m["loaded"] = m["index"]
        contact = "some"
        if r not in VERSIONS[m["loaded"]]:
            return dict(value=False, index=contact, gz=gz, weights=0)
    w = 0
    if r not in m["files"]:
        if m["down"]:
            return dict(value=False, index=contact, gz=gz, weights="any")
        m["files"] = sorted(m["files"] + [r])
        w = 1
    if memory:
        m["memory"] = sorted(m["memory"] + [r])
    return dict(value=True, index=contact, gz=gz, weights=w)


def judge(op, exp, got):
    out, log, others = got
    problems = []
    s, r = op[1], op[2]
    if others:
        problems.append(f"{op}: another server was contacted: {others}")
    if exp["value"]:
        if out[0] != "value":
            problems.append(f"{op}: {out[1]}: {out[2]}")
        elif not out[1]:
            problems.append(f"{op}: wrong result")
    elif out[0] == "value":
        problems.append(f"{op}: a result although there should be none")
    idx = [x for x in log if (x[1] or "index").startswith("index")]
    w = [x for x in log if (x[1] or "").endswith(".npz")]
    if exp["index"] == "none" and idx:
        problems.append(f"{op}: the server is contacted for the index: {idx}")
    if exp["index"] == "some" and not idx:
        problems.append(f"{op}: the server is not contacted for the index")
    gz = len([x for x in idx if x[0] == "GET" and not (x[1] or "").endswith("sha256")])
    if exp["gz"] != "any" and gz != exp["gz"]:
        problems.append(f"{op}: the index is downloaded {gz} times instead of {exp['gz']}: {idx}")
    if exp["weights"] != "any":
        gets = [x for x in w if x[0] == "GET"]
        if len(gets) != exp["weights"] or (w and not gets):
            problems.append(f"{op}: weights downloaded {len(gets)} times instead of {exp['weights']}: {w}")
        bad = [x[1] for x in gets if not x[1].endswith(f"{s}{r}.npz")]
        if bad:
            problems.append(f"{op}: other weights downloaded: {bad}")
    return problems


def segments(history):
    r = [[]]
    for op in history:
        if op[0] == "restart":
            r.append([])
        else:
            r[-1].append(op)
    return r


def process(cfg, servers, ops):
    u = User(cfg, servers)
    return u.run(ops)


def warm():
    import multiurl  # noqa: F401
    import multiurl.retry  # noqa: F401
    import requests  # noqa: F401
    import requests.adapters  # noqa: F401


def play(cfg, model, servers, ops, acc):
    """One process, with what the model predicts. -> (problems, servers)"""
    from mc import core

    ops = [list(o) for o in ops]
    if not ops:
        return [], servers
    got, servers = core.fork_call(process, cfg, servers, ops, scratch=os.getcwd(), own_dirs=False, timeout=100)
    problems = []
    for op, g in zip(ops, got):
        acc["n"] += 1
        before = json.dumps(model, sort_keys=True)
        exp = step(cfg, model, op)
        acc["states"].add(core.digest(model))
        if exp is not None:
            problems += judge(op, exp, g)
            acc["distinct"].add(core.digest([before, op, g[0][:2], [x[:2] for x in g[1]]]))
    restart(model)
    return problems, servers


DIRS = ("cache", "home", "tmp")


def keep(to):
    import shutil

    for d in DIRS:
        if os.path.isdir(d):
            shutil.copytree(d, os.path.join(to, d), symlinks=True)


def back(to):
    import shutil

    for d in DIRS:
        shutil.rmtree(d, ignore_errors=True)
        if os.path.isdir(os.path.join(to, d)):
            shutil.copytree(os.path.join(to, d), d, symlinks=True)


def run(case):
    """The segments of a history in processes one after the other; then, from there, each of the continuations."""
    import copy

    cfg, history = case["cfg"], case["history"]
    warm()
    model = boot(cfg)
    acc = {"n": 0, "states": set(), "distinct": set()}
    failures = []
    servers = {s: {"version": m["version"], "sha": m["sha"], "down": m["down"]} for s, m in model.items()}
    for ops in segments(history):
        p, servers = play(cfg, model, servers, ops, acc)
        if p:
            failures.append([history, p])
            break
    seqs = case.get("next") or []
    if seqs and not failures:
        keep("saved")
        for seq in seqs:
            back("saved")
            p, _ = play(cfg, copy.deepcopy(model), servers, seq, acc)
            if p:
                failures.append([history + ([["restart"]] if history else []) + seq, p])
                if len(failures) > 2:
                    break
    return dict(
        problems=[f"history {h}: {p[:4]}" for h, p in failures],
        failures=failures,
        counts={"transitions": acc["n"], "traces": len(seqs) or 1},
        states=list(acc["states"]),
        distinct=list(acc["distinct"]),
        sample={"cfg": cfg, "history": history, "continuations": seqs[:3]},
    )


def replay(case):
    return run(case)


def sequences(cfg, model, ops, depth):
    """All the sequences of enabled operations of one process, with the state after them (only maximal ones)."""
    import copy

    if depth == 0:
        return [([], model)]
    r = []
    for op in ops:
        if enabled(cfg, model, op):
            m = copy.deepcopy(model)
            step(cfg, m, op)
            r += [([op] + t, e) for t, e in sequences(cfg, m, ops, depth - 1)]
    return r


def boundary(model):
    import copy

    return json.dumps(restart(copy.deepcopy(model)), sort_keys=True)


FAMILIES = {}


def families(thorough):
    off = {"EARTHKIT_REGRID_WEIGHTS_MEMORY_CACHE_POLICY": "off"}
    A = [["req", "A", "r1"], ["req", "A", "r2"], ["req", "A", "r3"], ["publish", "A"], ["down", "A"], ["up", "A"], ["purge"]]
    d = 4 if thorough else 3
    f = [
        ("refused", {"down": "refused", "versions": 2, "env": off}, A, d),
        ("memory-cache", {"down": "refused", "versions": 2}, A + [["clear"]], d),
        ("unavailable", {"down": "503", "versions": 2, "env": off}, A[:-1], d),
        ("not-found", {"down": "404", "versions": 2, "env": off}, A[:-1], d),
        ("timeout", {"down": "timeout", "versions": 2, "env": off}, A[:-1], d),
        (
            "three-versions",
            {"down": "refused", "versions": 3, "env": off},
            [["req", "A", "r1"], ["req", "A", "r2"], ["req", "A", "r4"], ["publish", "A"], ["down", "A"], ["up", "A"]],
            d,
        ),
        (
            "partly-published",
            {"down": "refused", "versions": 2, "env": off},
            [["req", "A", "r1"], ["req", "A", "r2"], ["publish-sha", "A"], ["publish-gz", "A"], ["complete", "A"], ["purge"]],
            d,
        ),
        (
            "newline",
            {"down": "refused", "versions": 2, "env": off, "newline": True},
            [["req", "A", "r1"], ["req", "A", "r2"], ["publish", "A"]],
            d,
        ),
        (
            "two-servers",
            {"servers": ["A", "B"], "down": "refused", "versions": 2, "env": off},
            [["req", "A", "r1"], ["req", "B", "r1"], ["req", "A", "r2"], ["req", "B", "r2"], ["publish", "A"], ["down", "B"], ["up", "B"]],
            d,
        ),
        (
            "interpolate",
            {"down": "refused", "versions": 2, "env": off},
            [["req", "A", "r1", "interpolate"], ["req", "A", "r2"], ["req", "A", "r2", "interpolate"], ["publish", "A"], ["down", "A"], ["up", "A"]],
            d,
        ),
    ]  # fmt: skip
    if not thorough:
        f = [x if x[0] in ("refused", "memory-cache", "two-servers") else x[:3] + (2,) for x in f]
    return f


MAX_ROUNDS = {"two-servers": (1, 2)}  # quick, thorough: not to the fixpoint


def explore(ctx):
    """Breadth first over the states between processes."""
    from mc import core

    warm()
    pool = core.Pool(core._call1(run), timeout=600)
    stop = False
    try:
        for name, cfg, ops, depth in families(ctx.thorough):
            seen = {boundary(boot(cfg))}
            level = [([], boot(cfg))]
            rounds = 0
            total = 0
            limit = MAX_ROUNDS.get(name, (99, 99))[ctx.thorough]
            while level and not stop and rounds < limit:
                rounds += 1
                nxt = []
                for hist, model in level:
                    seqs = [q for q, _ in sequences(cfg, model, ops, depth) if any(o[0] == "req" for o in q)]
                    for i in range(0, len(seqs), 24):
                        case = {"cfg": cfg, "history": hist, "next": seqs[i : i + 24]}
                        pool.submit(json.dumps(case), case)
                    # the states they pass, where the next process may start
                    for k in range(1, depth + 1):
                        for seq, end in sequences(cfg, model, ops, k):
                            b = boundary(end)
                            if b not in seen:
                                seen.add(b)
                                nxt.append((hist + ([["restart"]] if hist else []) + seq, json.loads(b)))
                for key, res in pool.results():
                    case = json.loads(key)
                    total += len(case["next"])
                    if res[0] == "ok":
                        res[1]["problems"] = []
                        ctx.absorb(name, case, res)
                        for h, p in sorted(res[1]["failures"], key=lambda x: len(x[0]))[:1]:
                            ctx.problem(name, {"cfg": cfg, "history": h}, p)
                    else:
                        ctx.absorb(name, case, res)
                    if ctx.left() < 0 and pool.pending:
                        ctx.capped.append(f"time budget reached in {name}, round {rounds}")
                        pool.cancel()
                        stop = True
                    if len(ctx.violations) >= ctx.max_violations and pool.pending:
                        ctx.capped.append("stopped after the first violations")
                        pool.cancel()
                        stop = True
                level = nxt
            fam = ctx.families.setdefault(name, {})
            fam.update(depth=depth, alphabet=len(ops), boundary_states=len(seen), rounds=rounds, fixpoint=not level, histories=total)
            if stop:
                break
    finally:
        pool.close()
