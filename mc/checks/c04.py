"""C04: concurrent regrid calls in one process give the results of sequential ones.

Small multi-threaded programs on the real code under a controlled scheduler; all the schedules with
at most k preemptions. Reference: the outcomes of all the sequential orders of the same operations,
executed on the real code.
"""
import itertools
import os
import pickle

LEVEL = "model_checking"
RULE = "state = outcome of a schedule (final memory cache report and results); transitions = scheduling points"
ASSUMPTIONS = [
    "preemption bounded schedules; switches inside numpy, scipy and the interpreter are not explored",
    "an execution is sequentially consistent (CPython)",
]

IN = {"grid": [90, 90], "shape": [3, 4]}
OUT = {
    "a": {"grid": [60, 60], "shape": [4, 6]},
    "b": {"grid": [45, 45], "shape": [5, 8]},
    "c": {"grid": "O2", "shape": [88]},
}

REQ_A, REQ_B, REQ_C, REQ_A2 = ["r", "A", "a"], ["r", "A", "b"], ["r", "A", "c"], ["r", "B", "a"]
NN = ["r", "A", "a", "nn"]
INT, INT_B = ["i", "A", "a"], ["i", "B", "b"]
MISS = ["r", "A", "missing"]
# a labelled array, a chunk of a lazily regridded one, the computing library
LABELLED, LABELLED_B, LAZY, CHUNK0, CHUNK1 = ["x", "A", "b"], ["x", "B", "b"], ["lazy", "A", "b"], ["chunk", 0], ["chunk", 1]
MIR, MIR_NN = ["mir", "linear"], ["mir", "nn"]
INFO = ["info"]
CLEAR = ["clear"]


def conf(k, v):
    return ["conf", k, v]


# name -> (setup operations, threads, warm operations)
PROGRAMS = {
    "same-cold": ([], [[REQ_A], [REQ_A]]),
    "two-cold": ([], [[REQ_A], [REQ_B]]),
    "two-inventories": ([], [[REQ_A], [REQ_A2]]),
    "two-methods": ([], [[REQ_A], [NN]]),
    "interpolate": ([], [[REQ_A], [INT]]),
    "interpolate-two": ([], [[INT], [INT_B]]),
    "interpolate-warm": ([INT, INT_B], [[INT_B, INT], [INT]]),
    "missing": ([], [[REQ_A], [MISS]]),
    "warm": ([REQ_A, REQ_B], [[REQ_A], [REQ_B, REQ_A]]),
    "limit-one": ([conf("max", "one")], [[REQ_A, REQ_B], [REQ_B]]),
    "lru-one": ([conf("policy", "lru"), conf("max", "one")], [[REQ_A], [REQ_B, REQ_A]]),
    "strict": ([conf("max", "one"), conf("strict", True)], [[REQ_A], [REQ_B]]),
    "shrink": ([REQ_A, REQ_B], [[REQ_A, REQ_C], [conf("max", "one")]]),
    "shrink-tiny": ([REQ_A], [[REQ_B], [conf("max", "tiny")]]),
    "switch-off": ([REQ_A], [[REQ_A, REQ_B], [conf("policy", "off")]]),
    "switch-on": ([conf("policy", "off")], [[REQ_A, REQ_A], [conf("policy", "lru")]]),
    "switch-unlimited": ([conf("max", "tiny")], [[REQ_A, REQ_B], [conf("policy", "unlimited")]]),
    "from-unlimited": ([conf("policy", "unlimited"), REQ_A], [[REQ_B], [conf("policy", "largest")]]),
    "to-strict": ([conf("max", "tiny")], [[REQ_A, REQ_B], [conf("strict", True)]]),
    "clear": ([REQ_A], [[REQ_A, REQ_B], [CLEAR]]),
    "info": ([conf("max", "one")], [[REQ_A, REQ_B], [INFO, INFO]]),
    "info-conf": ([REQ_A], [[conf("max", "one"), conf("policy", "lru")], [INFO, INFO]]),
    "conf-conf": ([REQ_A], [[conf("max", "one")], [conf("policy", "lru")]]),
    "labelled": ([], [[LABELLED], [LABELLED_B]]),
    "chunks": ([LAZY], [[CHUNK0], [CHUNK1]]),
    "chunks-clear": ([LAZY], [[CHUNK0, CHUNK1], [CLEAR, conf("policy", "off")]]),
    "chunks-three": ([LAZY], [[CHUNK0], [CHUNK1], [CHUNK0]]),
    "mir": ([], [[MIR, REQ_A], [MIR_NN]]),
    "three": ([], [[REQ_A], [REQ_B], [REQ_A2]]),
    "three-mixed": ([conf("max", "one")], [[REQ_A], [REQ_B], [CLEAR]]),
}


def needed(setup, threads):
    r = {("A", "a", "linear"), ("A", "b", "linear"), ("B", "b", "linear")}
    for op in setup + [o for t in threads for o in t] + list(FINAL):
        if op[0] in ("r", "i", "x", "lazy") and op[2] in OUT:
            r.add((op[1], op[2], "nearest-neighbour" if "nn" in op[3:] else "linear"))
    return r


FINAL = (REQ_A, REQ_B, REQ_A2)
NEEDED = {k: needed(*v) for k, v in PROGRAMS.items()}


def build(root, name, x):
    import numpy as np

    from mc import inv

    keys, expected = [], {}
    salt = 0
    for i in ("A", "B"):
        ent = []
        for o, go in OUT.items():
            for m in ("linear", "nearest-neighbour"):
                salt += 1
                if (i, o, m) not in NEEDED[name]:
                    continue
                mat = inv.int_matrix(int(np.prod(go["shape"])), 12, salt=salt)
                ent.append(inv.entry(IN, go, m, mat))
                keys.append((i, o, m))
                expected[(i, o, m)] = inv.product(mat, x).reshape(go["shape"])
        inv.write(os.path.join(root, i), ent)
    sizes = {o: inv.memory(inv.int_matrix(int(np.prod(go["shape"])), 12, salt=1)) for o, go in OUT.items()}
    with open(os.path.join(root, "data.pickle"), "wb") as f:
        pickle.dump((sizes, keys, expected), f)


def np_stack(np, x):
    return np.stack([x.reshape(3, 4), 2 * x.reshape(3, 4)])


class World:
    def __init__(self, name):
        import numpy as np

        from mc import inv

        os.environ["EARTHKIT_REGRID_CACHE_POLICY"] = "off"
        import earthkit.regrid as ekr
        from earthkit.regrid.array import regrid

        self.np, self.ekr, self.regrid = np, ekr, regrid
        self.x = (np.arange(12) * 5 % 7).astype("f8")
        root = inv.shared("c04-" + name, lambda path: build(path, name, self.x))
        with open(os.path.join(root, "data.pickle"), "rb") as f:
            self.sizes, self.keys, self.expected = pickle.load(f)
        self.paths = {i: os.path.join(root, i) for i in "AB"}
        s = self.sizes
        self.limits = {"tiny": 100, "one": s["b"] + 10, "big": 10**8}
        self.problems = []
        self.info = []
        kinds = {o[0] for o in PROGRAMS[name][0] + [o for t in PROGRAMS[name][1] for o in t]}
        if kinds & {"x", "lazy"}:
            # the imports of other libraries
            self.labelled("B", "b", {"time": 1} if "lazy" in kinds else None).compute(scheduler="sync")
            ekr.clear_memory_cache()
        if "mir" in kinds:
            self._mir = {m: self._mir_one(m) for m in ("linear", "nn")}

    def op(self, op):
        """-> outcome"""
        np = self.np
        kind = op[0]
        if kind in ("r", "i"):
            _, i, o = op[:3]
            m = "linear" if len(op) < 4 else op[3]
            key = (i, o, "nearest-neighbour" if m == "nn" else m)
            gin = {"grid": [90, 90]}
            gout = {"grid": [7, 7]} if o == "missing" else {"grid": OUT[o]["grid"]}
            try:
                if kind == "r":
                    res, _ = self.regrid(
                        self.x, gin, gout, interpolation=m, backend="precomputed", inventory=self.paths[i]
                    )
                else:
                    res = self.ekr.interpolate(self.x, gin, gout, method=m, matrix_source=self.paths[i])
            except Exception as e:
                text = f"{type(e).__name__}: {e}"
                if o == "missing" and "No " in text:
                    return "missing"
                if isinstance(e, ValueError) and "too large" in text:
                    return "too large"
                return "error " + text[:200]
            if o == "missing":
                return "value"
            return "ok" if np.array_equal(res, self.expected[key]) else f"wrong {np.ravel(res)[:4]}"
        if kind in ("x", "lazy", "chunk", "mir"):
            try:
                return getattr(self, "x_" if kind == "x" else kind)(*op[1:])
            except Exception as e:
                return f"error {type(e).__name__}: {e}"[:200]
        if kind == "conf":
            name = {
                "policy": "weights-memory-cache-policy",
                "max": "maximum-weights-memory-cache-size",
                "strict": "weights-memory-cache-strict-mode",
            }[op[1]]
            v = self.limits[op[2]] if op[1] == "max" else op[2]
            try:
                self.ekr.config.set(name, v)
            except Exception as e:
                return f"error {type(e).__name__}: {e}"[:200]
            return "ok"
        if kind == "clear":
            self.ekr.clear_memory_cache()
            return "ok"
        if kind == "info":
            self.check_info(self.ekr.memory_cache_info())
            return "ok"
        raise ValueError(op)

    def labelled(self, i, o, chunks=None):
        import xarray as xr

        v = np_stack(self.np, self.x)
        da = xr.DataArray(v, dims=["time", "latitude", "longitude"], attrs={"gridspec": {"grid": [90, 90]}})
        if chunks:
            da = da.chunk(chunks)
        return self.ekr.regrid(da, grid={"grid": OUT[o]["grid"]}, backend="precomputed", inventory=self.paths[i])

    def compare(self, values, i, o, n):
        e = self.expected[(i, o, "linear")] * (n + 1)
        return "ok" if values.shape == e.shape and self.np.array_equal(values, e) else f"wrong {self.np.ravel(values)[:4]}"

    def x_(self, i, o):
        r = self.labelled(i, o)
        for n in (0, 1):
            t = self.compare(r.values[n], i, o, n)
            if t != "ok":
                return t
        lat = r.coords["latitude"].values
        return "ok" if self.np.allclose(lat, [90, 45, 0, -45, -90]) else f"wrong latitudes {lat}"

    def lazy(self, i, o):
        self._lazy = i, o, self.labelled(i, o, {"time": 1})
        self._lazy[2].compute(scheduler="sync")
        return "ok"

    def chunk(self, n):
        i, o, r = self._lazy
        return self.compare(r.data.blocks[n].compute(scheduler="sync")[0], i, o, n)

    def mir(self, method):
        r = self._mir_one(method)
        return "ok" if self.np.array_equal(r, self._mir[method]) else f"wrong {self.np.ravel(r)[:4]}"

    def _mir_one(self, m):
        v = self.x.reshape(3, 4)
        return self.np.array(self.regrid(v, {"grid": [90, 90]}, {"grid": [60, 60]}, interpolation=m, backend="mir")[0])

    def check_info(self, i, where="a concurrent memory_cache_info()"):
        if i.maxsize is not None and i.currsize > i.maxsize:
            self.problems.append(f"{where} reports more than the limit: {i}")
        # the weights of both inventories and methods of one target have the same size
        sizes = [self.sizes[o] for (_, o, _) in self.keys]
        ok = any(sum(c) == i.currsize for c in itertools.combinations(sizes, i.count)) if i.count <= 6 else True
        if not ok:
            self.problems.append(f"{where}: the size is not the sum of {i.count} weights: {i}")
        if i.hits < 0 or i.misses < 0:
            self.problems.append(f"{where}: {i}")

    def final(self):
        """The state at the end: report, then what is really held."""
        i = self.ekr.memory_cache_info()
        self.check_info(i, "memory_cache_info() at the end")
        rep = [i.maxsize, i.currsize, i.count, i.policy, i.hits + i.misses]
        # the next requests are answered correctly
        for r in FINAL:
            o = self.op(r)
            if o != "ok" and o != "too large":
                self.problems.append(f"after the threads have ended {r}: {o}")
        j = self.ekr.memory_cache_info()
        self.check_info(j, "memory_cache_info() after further requests")
        cfg = self.ekr.config
        return rep + [
            cfg.get("weights-memory-cache-policy"),
            cfg.get("maximum-weights-memory-cache-size"),
            cfg.get("weights-memory-cache-strict-mode"),
        ]


def serial(case):
    """One sequential order: case = {"program", "order": [thread numbers]}"""
    setup, threads = PROGRAMS[case["program"]]
    w = World(case["program"])
    for o in setup:
        w.op(o)
    pos = [0] * len(threads)
    res = [[] for _ in threads]
    for t in case["order"]:
        res[t].append(w.op(threads[t][pos[t]]))
        pos[t] += 1
    return {"results": res, "final": w.final(), "problems": w.problems}


# the programs which start with nothing imported but the top level package
COLD = ("same-cold", "two-cold", "interpolate", "missing")
_warm = {}


def warm(name):
    """What all the executions of a program share: done once in the process they are forked from."""
    import importlib

    from mc import sched

    if name in _warm:
        return _warm[name]
    sched.install()
    sched.prepare()
    w = World(name)
    for o in PROGRAMS[name][0]:
        w.op(o)
    if name not in COLD:
        # the comparison of gridspecs has no shared state: covered by the other programs
        sched.SKIP_FILES = ("gridspec.py",)
        for m in ("array.regrid", "backends", "backends.db", "backends.precomputed", "data", "data.numpy", "interpolate"):
            try:
                importlib.import_module("earthkit.regrid." + m)
            except ImportError:
                pass
        import numpy as np
        from scipy.sparse import load_npz

        m = [os.path.join(r, f) for r, _, fs in os.walk(w.paths["A"]) for f in fs if f.endswith(".npz")][0]
        load_npz(m) @ np.zeros(12)
    _warm[name] = w
    return w


def concurrent(case):
    from mc import sched

    setup, threads = PROGRAMS[case["program"]]
    w = warm(case["program"])
    s = sched.Scheduler(case["dev"])
    res = [[] for _ in threads]
    out = {}

    def main():
        def body(t):
            def run():
                for o in threads[t]:
                    res[t].append(w.op(o))

            return run

        ts = [s.spawn(f"T{t}", body(t)) for t in range(len(threads))]
        s.recording = True
        s.join(ts)
        s.recording = False
        s.tracing = False
        out["final"] = w.final()

    failure = s.run(main)
    problems = list(w.problems)
    diverged = None
    if failure:
        if failure.startswith("diverged"):
            diverged = failure
        else:
            problems.append(failure)
    elif "final" not in out:
        problems.append("the main thread failed")
    for t, lst in enumerate(res):
        for o, r in zip(threads[t], lst):
            if r.startswith(("error", "wrong", "value")):
                problems.append(f"thread {t}: {o}: {r}")
    key = repr([res, out.get("final")])
    allowed = case.get("allowed")
    if not problems and not diverged and allowed is not None and key not in allowed:
        problems.append(f"results and final state {key} of no sequential order; these give {allowed}")
    return {"trace": s.trace, "problems": problems, "outcome": key, "diverged": diverged}


def orders(threads):
    seqs = [i for i, t in enumerate(threads) for _ in t]
    return sorted(set(itertools.permutations(seqs)))


def replay(case):
    if "order" in case:
        return serial(case)
    return concurrent(case)


def explore(ctx):
    from mc import core
    from mc import sched

    # the sequential orders
    allowed = {}
    pool = core.Pool(core._call1(serial))
    programs = {k: v for k, v in PROGRAMS.items() if k in os.environ.get("VERIF_ONLY", k).split(",")}
    for name, (setup, threads) in programs.items():
        for o in orders(threads):
            pool.submit((name, o), {"program": name, "order": list(o)})
    for (name, o), (kind, val) in pool.results():
        ctx.counts["sequential_orders"] += 1
        if kind != "ok":
            ctx.absorb(name, {"program": name, "order": list(o)}, (kind, val))
            continue
        if val["problems"]:
            ctx.problem(name, {"program": name, "order": list(o)}, val["problems"])
        allowed.setdefault(name, set()).add(repr([val["results"], val["final"]]))
    pool.close()

    for name in programs:
        sched.explore(
            ctx,
            name,
            concurrent,
            2 if ctx.thorough else 1,
            case_extra={"allowed": sorted(allowed.get(name, []))},
            cap=12000 if ctx.thorough else None,
            init=lambda name=name: warm(name),
            max_free=2 if ctx.thorough else 1,
        )
