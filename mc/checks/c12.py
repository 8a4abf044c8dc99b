"""C12: failed or interrupted downloads never give wrong weights and can be repeated.

Deviations: each scenario is a few requests; it is run once with normal answers, then with each possible
deviation of each exchange with the server, then with each possible second deviation of the exchanges
that follow. While the server deviates a request must give the correct result or an error; once it is
normal again, it must give the correct result in the same process, and in a new one.

Kills: the process is killed at each point of a scenario at which the content of the cache directory
differs; a new process must get the correct results.
"""
import os

LEVEL = "fault_enumeration"
RULE = "distinct = (scenario, deviations, outcomes) or (scenario, files on the disk after the kill)"
ASSUMPTIONS = [
    "deviations of the list of mc/fakehttp.py, at most two per run",
    "an answer that is not an error has the right content, possibly cut or repeated",
    "the process is killed, not the machine",
]

BASE = "http://inventory.test/db/1/"
REQ = {
    "big": ({"grid": "H32"}, {"grid": [60, 60]}),
    "small": ({"grid": "H1"}, {"grid": [60, 60]}),
    "new": ({"grid": "H2"}, {"grid": [60, 60]}),
    "none": ({"grid": "H4"}, {"grid": [60, 60]}),
}
POINTS = {"H32": 12 * 32 * 32, "H1": 12, "H2": 48, "H4": 192}
SHAPE = [4, 6]
# what the index of each version has; the weights of v3 differ
VERSIONS = {1: ["big", "small"], 2: ["big", "small", "new"], 3: ["big", "small", "new"]}


def matrix(req, version):
    import numpy as np
    from scipy.sparse import csr_array

    n = POINTS[REQ[req][0]["grid"]]
    r = np.random.RandomState(sorted(REQ).index(req) * 10 + (5 if version == 3 else 0))
    m = r.random_sample((24, n)) + 0.5
    if version == 3:
        m[:, ::7] = 0.0
    return csr_array(m)


def x_of(req):
    import numpy as np

    n = POINTS[REQ[req][0]["grid"]]
    return (np.arange(n) * 13) % 31 - 9.0


def build(path):
    import numpy as np

    from mc import inv

    for v, names in VERSIONS.items():
        entries = []
        for r in names:
            a, b = REQ[r]
            m = matrix(r, v)
            gin = {"grid": a["grid"], "order": "ring", "shape": [POINTS[a["grid"]]]}
            entries.append(inv.entry(gin, {"grid": [60, 60], "shape": SHAPE}, "linear", m, name=r))
            np.save(os.path.join(path, f"v{v}-{r}.npy"), (m.todense() @ x_of(r)).reshape(SHAPE))
        d = os.path.join(path, f"v{v}")
        for name, data in inv.site(entries).items():
            p = os.path.join(d, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)


def site(version):
    from mc import inv

    path = inv.shared("c12", build)
    r = {}
    top = os.path.join(path, f"v{version}")
    for root, _, fs in os.walk(top):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, "rb") as g:
                r[os.path.relpath(p, top)] = g.read()
    return r


def expected(req, version):
    import numpy as np

    from mc import inv

    return np.load(os.path.join(inv.shared("c12", build), f"v{version}-{req}.npy"))


OUTDATED = {"EARTHKIT_REGRID_CHECK_OUT_OF_DATE_URLS": "true", "EARTHKIT_REGRID_DOWNLOAD_OUT_OF_DATE_URLS": "true"}

# name -> before: [(version, requests)] each in its own process; version, requests; env; ranges
SCENARIOS = {
    "first": dict(before=[], version=1, requests=["big"]),
    "first-twice": dict(before=[], version=1, requests=["big", "big"]),
    "first-small": dict(before=[], version=1, requests=["small", "small"]),
    "index-cached": dict(before=[(1, ["small"])], version=1, requests=["big", "big"]),
    "index-cached-no-ranges": dict(before=[(1, ["small"])], version=1, requests=["big", "big"], ranges=False),
    "published": dict(before=[(1, ["small"])], version=2, requests=["new", "new"]),
    "published-small": dict(before=[(1, ["small"])], version=2, requests=["new", "small"]),
    "missing": dict(before=[(1, ["small"])], version=1, requests=["none", "small"]),
    "missing-published": dict(before=[(1, ["small"])], version=2, requests=["none", "new"]),
    "cached": dict(before=[(1, ["big"])], version=1, requests=["big"]),
    "cached-checked": dict(before=[(1, ["big"])], version=1, requests=["big"], env=OUTDATED),
    "outdated": dict(before=[(1, ["big", "small"])], version=3, requests=["big", "small"], env=OUTDATED),
    "outdated-no-ranges": dict(before=[(1, ["big"])], version=3, requests=["big"], env=OUTDATED, ranges=False),
}


class User:
    def __init__(self, scenario, version, plan=None):
        from mc import fakehttp

        sc = SCENARIOS[scenario]
        self.sc = sc
        for k, v in sc.get("env", {}).items():
            os.environ[k] = v
        os.environ["EARTHKIT_REGRID_WEIGHTS_MEMORY_CACHE_POLICY"] = "off"
        self.srv = fakehttp.Server(BASE)
        self.srv.ranges = sc.get("ranges", True)
        self.srv.files = site(version)
        self.srv.plan = dict(plan or {})
        self.srv.install()
        self.version = version
        import earthkit.regrid as ekr
        from earthkit.regrid.array import regrid

        self.regrid = regrid
        self.ekr = ekr
        ekr.config.set("user-cache-directory", os.path.join(os.getcwd(), "cache"))

    def request(self, req):
        """-> ["value", version] | ["wrong", text] | ["error", text]"""
        import numpy as np

        a, b = REQ[req]
        try:
            res, _ = self.regrid(x_of(req), dict(a), dict(b), backend="precomputed", inventory=BASE)
        except Exception as e:
            return ["error", f"{type(e).__name__}: {e}"[:300]]
        for v in sorted(VERSIONS, key=lambda v: v != self.version):
            if req in VERSIONS[v] and np.shape(res) == tuple(SHAPE) and np.allclose(res, expected(req, v), rtol=1e-10, atol=0):
                return ["value", v]
        return ["wrong", repr(np.ravel(res)[:4])]


def is_outdated(sc):
    return bool(sc.get("env"))


def judge(sc, req, out, version, deviating):
    """-> problem or None"""
    where = f"request {req} {'with deviations' if deviating else 'with normal answers'}"
    if out[0] == "wrong":
        return f"{where}: wrong result {out[1]}"
    there = req in VERSIONS[version]
    if out[0] == "value":
        if not there:
            return f"{where}: a result although there are no such weights"
        if out[1] != version and not same(req, out[1], version):
            if deviating or not is_outdated(sc):
                return None  # an earlier version of the weights
            return f"{where}: outdated weights (version {out[1]})"
        return None
    if there and not deviating:
        return f"{where}: {out[1]}"
    return None


def same(req, v1, v2):
    return (v1 == 3) == (v2 == 3)


def phase(scenario, version, requests, plan, again):
    """One process: the requests with the plan, then again with normal answers."""
    u = User(scenario, version, plan)
    a = [u.request(r) for r in requests]
    log = [list(x) for x in u.srv.log]
    u.srv.plan = {}
    b = [u.request(r) for r in again]
    return a, b, log


def warm():
    import multiurl  # noqa: F401
    import multiurl.retry  # noqa: F401
    import requests  # noqa: F401
    import requests.adapters  # noqa: F401


def fork(fn, *args, timeout=100):
    from mc import core

    return core.fork_call(fn, *args, scratch=os.getcwd(), own_dirs=False, timeout=timeout)


def before(scenario):
    for v, reqs in SCENARIOS[scenario]["before"]:
        a, _, _ = fork(phase, scenario, v, reqs, {}, [])
        for r, out in zip(reqs, a):
            p = judge(SCENARIOS[scenario], r, out, v, False)
            if p:
                return [f"before: {p}"]
    return []


def run(case):
    if "kill" in case:
        return run_kill(case)
    scenario = case["scenario"]
    sc = SCENARIOS[scenario]
    plan = {int(i): d for i, d in case["plan"]}
    warm()
    problems = before(scenario)
    again = sc["requests"] + ["small"] if case.get("same", True) else []
    a, b, log = fork(phase, scenario, sc["version"], sc["requests"], plan, again)
    for r, out in zip(sc["requests"], a):
        p = judge(sc, r, out, sc["version"], bool(plan))
        if p:
            problems.append(p)
    for r, out in zip(again, b):
        p = judge(sc, r, out, sc["version"], False)
        if p:
            problems.append("afterwards, " + p)
    reqs = sorted(VERSIONS[sc["version"]])
    c, _, _ = fork(phase, scenario, sc["version"], sc["requests"] + reqs, {}, [])
    for r, out in zip(sc["requests"] + reqs, c):
        p = judge(sc, r, out, sc["version"], False)
        if p:
            problems.append("in a new process, " + p)
    tag = f"{scenario} {sorted(plan.items())}"
    return dict(
        problems=[f"{tag}: {p}" for p in problems[:4]],
        counts={"evaluations": 1, "exchanges": len(log)},
        distinct=[f"{tag} {[o[0] for o in a + b + c]}"],
        log=log,
        sample={"case": case, "log": log, "outcomes": [o[0] for o in a + b + c]},
    )


# ---------------------------------------------------------------- kills


def killed(scenario, k, log=False):
    from mc import crash
    from mc import sched

    sched.install()
    import filelock
    import multiurl
    import tqdm

    tqdm.tqdm.monitor_interval = 0  # no monitoring thread
    sc = SCENARIOS[scenario]
    seen = crash.observe([os.path.join(os.getcwd(), "cache")]) if log else None
    box = {}

    def prepare():
        box["u"] = User(scenario, sc["version"])
        box["u"].ekr.cache.size()

    def main():
        for r in sc["requests"]:
            box["u"].request(r)

    dirs = [os.path.dirname(filelock.__file__), os.path.dirname(multiurl.__file__)]
    n, failure = crash.run(main, k, prefixes=dirs, before=prepare)
    return n, failure, seen


def reference(scenario, kill=None):
    from mc import core

    warm()
    before(scenario)
    if kill:
        try:
            fork(killed, scenario, kill)
        except core.ChildDied:
            pass
    n, failure, seen = fork(killed, scenario, 0, True)
    if failure:
        raise RuntimeError(f"{scenario}: {failure}")
    return n, [k for k, _ in seen] + ([n + 1] if not kill else [])


def run_kill(case):
    from mc import core
    from mc import crash

    scenario = case["scenario"]
    sc = SCENARIOS[scenario]
    warm()
    problems = before(scenario)
    for k in (case["kill"], case.get("kill2")):
        if k:
            try:
                fork(killed, scenario, k)
            except core.ChildDied:
                pass
    state = crash.disk_state([os.path.join(os.getcwd(), "cache")])
    reqs = sc["requests"] + sorted(VERSIONS[sc["version"]])
    if case.get("first"):
        reqs = [case["first"]] + reqs
    c, _, _ = fork(phase, scenario, sc["version"], reqs, {}, [])
    for r, out in zip(reqs, c):
        p = judge(sc, r, out, sc["version"], False)
        if p:
            problems.append("after the restart, " + p)
    tag = f"{scenario} killed at {case['kill']}" + (f" and {case['kill2']}" if case.get("kill2") else "")
    return dict(
        problems=[f"{tag}: {p}" for p in problems[:4]],
        counts={"evaluations": 1, "kills": 1},
        distinct=[f"{scenario} {state}"],
        sample=case,
    )


def replay(case):
    return run(case)


KILL_QUICK = ["first", "published", "outdated"]
PAIRS_QUICK = ["first-twice", "index-cached"]


def explore(ctx):
    from mc import core
    from mc import fakehttp
    from mc import inv

    warm()
    inv.shared("c12", build)
    pool = core.Pool(core._call1(run), timeout=300)

    def drain(on_result=None):
        for key, res in pool.results():
            fam, case = key
            if res[0] == "ok":
                log = res[1].pop("log", None)
                if on_result is not None and not res[1]["problems"]:
                    on_result(case, log)
            ctx.absorb(fam, case, res)
            if ctx.left() < 0 and pool.pending:
                ctx.capped.append("time budget reached")
                pool.cancel()
            if len(ctx.violations) >= ctx.max_violations and pool.pending:
                ctx.capped.append("stopped after the first violations")
                pool.cancel()

    try:
        # deviations
        def extend(case, log):
            plan = case["plan"]
            sc = case["scenario"]
            if len(plan) == 2 or (plan and not ctx.thorough and sc not in PAIRS_QUICK):
                return
            if plan and case["same"]:
                return  # extended from the run without requests in the same process
            start = plan[-1][0] + 1 if plan else 0
            for i in range(start, len(log)):
                for d in fakehttp.deviations(log[i]):
                    for same in (False, True):
                        if same and not ctx.thorough and plan:
                            continue
                        c = {"scenario": sc, "plan": plan + [[i, d]], "same": same}
                        pool.submit((f"{len(c['plan'])} deviation(s)", c), c)

        for sc in SCENARIOS:
            c = {"scenario": sc, "plan": [], "same": False}
            pool.submit(("normal", c), c)
        drain(extend)

        # kills
        scs = list(SCENARIOS) if ctx.thorough else KILL_QUICK
        refs = core.Pool(reference, timeout=600)
        firsts = {}
        try:
            for sc in scs:
                refs.submit(sc, sc)
            for sc, (kind, val) in refs.results():
                if kind != "ok":
                    ctx.absorb("kill", {"scenario": sc, "kill": 0}, (kind, val))
                    continue
                n, kills = val
                firsts[sc] = kills
                ctx.families.setdefault("kill", {})[sc] = {"points": n, "distinct_states": len(kills)}
                for k in kills:
                    c = {"scenario": sc, "kill": k}
                    pool.submit(("kill", c), c)
            drain()
            # killed again during the same request in the next process
            again = []
            for sc in ("first",) if not ctx.thorough else ("first", "published", "outdated", "index-cached"):
                for k in firsts.get(sc, [])[:: 1 if ctx.thorough else 4]:
                    refs.submit((sc, k), sc, k)
            for (sc, k), (kind, val) in refs.results():
                if kind != "ok":
                    ctx.absorb("kill twice", {"scenario": sc, "kill": k, "kill2": 1}, (kind, val))
                    continue
                for k2 in val[1][:: 1 if ctx.thorough else 2]:
                    again.append({"scenario": sc, "kill": k, "kill2": k2})
            for c in again:
                pool.submit(("kill twice", c), c)
            drain()
        finally:
            refs.close()
    finally:
        pool.close()
