"""C02: the result of a regrid call does not depend on what was called before.

All histories (to a depth) of calls over two inventories with the same grids and different weights,
equivalent spellings, both interfaces, failing calls, changes of the memory cache configuration and
modification of returned arrays; every result is compared with the one of a first call, and every
array returned earlier must keep its values.
"""
import copy
import os

from mc import seq

LEVEL = "model_checking"
RULE = "state = configuration and set of requests made so far"
ASSUMPTIONS = ["the inventories do not change while in use", "one thread (see C04 for several)"]

IN = {"grid": [90, 90], "shape": [3, 4]}
OUT = {"a": {"grid": [60, 60], "shape": [4, 6]}, "b": {"grid": "O2", "shape": [88]}}
IN2 = {"grid": "H1", "ordering": "ring", "shape": [12]}
LARGE = {"c": {"grid": [5, 5], "shape": [37, 72]}}
# input grids of the same size which differ in one detail only: name -> (in the inventory, in the request)
NEAR = {
    "ring": ({"grid": "H1", "order": "ring"}, {"grid": "H1", "order": "ring"}),
    "nested": ({"grid": "H1", "order": "nested"}, {"grid": "H1", "order": "nested"}),
    "west": ({"grid": [90, 90], "area": [90, -180, -90, 90]}, {"grid": [90, 90], "area": [90, -180, -90, 90]}),
    "part": ({"grid": [90, 90], "area": [90, 10, -90, 280]}, {"grid": [90, 90], "area": [90, 10, -90, 280]}),
    "up": ({"grid": [90, 90], "j_scans_positively": 1}, {"grid": [90, 90], "j_scans_positively": 1}),
    "near": ({"grid": [90, 90.01]}, {"grid": [90, 90.01]}),
}
# how the two inventories are related
PLACES = {
    "plain": ("invA", "invB"),
    "same-name": ("v1/inv", "v2/inv"),
    "same-start": ("inv", "inv-2"),
    "nested": ("inv", "inv/inv"),
    "case": ("inv", "INV"),
    "space": ("inv a", "inv  a"),
    "digits": ("inv1", "inv01"),
    "dots": ("inv.1", "inv.2"),
}


class Harness:
    def __init__(self, cfg):
        import numpy as np

        from mc import inv

        os.environ["EARTHKIT_REGRID_CACHE_POLICY"] = "off"
        import earthkit.regrid as ekr
        from earthkit.regrid.array import regrid

        self.np, self.ekr, self.regrid = np, ekr, regrid
        self.mats = {}
        self.out = {**OUT, **LARGE} if cfg.get("large") else OUT
        self.paths = {}
        salt = 0
        for i, place in zip("AB", PLACES[cfg.get("places", "plain")]):
            ent = []
            for o, go in self.out.items():
                for m in ("linear", "nearest-neighbour"):
                    for gname, gin in (("ll", IN), ("h", IN2)):
                        salt += 1
                        mat = inv.int_matrix(int(np.prod(go["shape"])), 12, salt=salt)
                        ent.append(inv.entry(gin, go, m, mat))
                        self.mats[(i, gname, o, m)] = mat
            for gname, (gin, _) in NEAR.items():
                if i == "A" and cfg.get("near"):
                    salt += 1
                    mat = inv.int_matrix(24, 12, salt=salt)
                    ent.append(inv.entry(dict(gin, shape=[12]), OUT["a"], "linear", mat))
                    self.mats[(i, gname, "a", "linear")] = mat
            self.paths[i] = inv.write(os.path.abspath(place), ent)
        self.size = {o: inv.memory(self.mats[("A", "ll", o, "linear")]) for o in self.out}
        self.x = {
            "x1": (np.arange(12) * 5 % 7).astype("f8"),
            "x2": (np.arange(12) * 3 % 11 + 1).astype("f4"),
            "x3": (np.arange(12) * 2 % 5 - 2).reshape(3, 4),
        }
        self.inv = inv
        self.conf = {"policy": "largest", "max": 500 * 1024 * 1024, "strict": False}
        self.held = []  # (description, array, expected)
        self.last = None
        self.seen = set()
        self.outcomes = set()
        for op in cfg.get("setup", []):
            p = self.apply(op)
            assert not p, p

    def state(self):
        return [self.conf, sorted(map(str, self.seen))]

    def expect_error(self, o):
        c = self.conf
        return c["policy"] in ("lru", "largest") and c["strict"] and self.size[o] > c["max"]

    def call(self, op):
        _, i, o, m, gname, xname, how = op
        np = self.np
        x = self.x[xname].copy()
        gin = {"ll": {"grid": [90, 90]}, "h": {"grid": "h1"}}.get(gname)
        if gin is None:
            gin = dict(NEAR[gname][1])
        gout = {"grid": self.out[o]["grid"]}
        path = self.paths[i]
        if how == "spelled":
            gin = dict(gin, i_scans_negatively=0)
            if gname == "ll":
                gin["grid"] = (90, 90)
                gin["area"] = (90, 0, -90, 360)
            gout = dict(gout, shape=tuple(self.out[o]["shape"]))
        given = copy.deepcopy((gin, gout, x, path))
        if how == "interpolate":
            res = self.ekr.interpolate(x, gin, gout, method=m, matrix_source=path)
        else:
            mm = "nn" if (how == "spelled" and m == "nearest-neighbour") else m
            res, g = self.regrid(x, gin, gout, interpolation=mm, backend="precomputed", inventory=path)
            self.last_grid = g
        self.arguments = [
            f"{op} has modified its argument {a} to {b}"
            for a, b in zip(given, (gin, gout, x, path))
            if repr(a) != repr(b)
        ]
        exp = self.inv.product(self.mats[(i, gname, o, m)], given[2]).reshape(self.out[o]["shape"])
        self.last = (res, gin, gout, x)
        return res, exp

    def apply(self, op):
        np, ekr = self.np, self.ekr
        problems = []
        kind = op[0]
        if kind == "r":
            self.seen.add(tuple(op[1:5]))
            err = self.expect_error(op[2])
            try:
                res, exp = self.call(op)
            except Exception as e:
                self.outcomes.add("error")
                if not err:
                    problems.append(f"{op} failed: {type(e).__name__}: {str(e)[:300]}; conf {self.conf}")
            else:
                self.outcomes.add("value" + op[1] + op[2] + op[3] + op[4])
                # in strict mode a request may also be answered (from the cache)
                problems += self.arguments
                if not np.array_equal(res, exp):
                    problems.append(f"{op}: {np.ravel(res)[:6]} instead of {np.ravel(exp)[:6]}")
                self.held.append([str(op), res, exp])
        elif kind == "missing":
            i, what = op[1], op[2]
            gin, gout, m, x = {"grid": [90, 90]}, {"grid": [60, 60]}, "linear", self.x["x1"]
            if what == "grid":
                gout = {"grid": [7, 7]}
            elif what == "method":
                m = "grid-box-average"
            elif what == "size":
                x = np.ones(13)
            elif what == "bad":
                gin = {"grid": "ZZZ"}
            try:
                self.regrid(x, gin, gout, interpolation=m, backend="precomputed", inventory=self.paths[i])
                problems.append(f"{op}: a result instead of an error")
            except Exception:
                self.outcomes.add("error-" + what)
        elif kind == "mutate":
            if self.last is not None:
                res, gin, gout, x = self.last
                try:
                    res[...] = -77
                except ValueError:
                    pass
                self.held = [h for h in self.held if h[1] is not res]
                gin["grid"] = "O9"
                gout["grid"] = [1, 1]
                gout["shape"] = [1, 1]
                x[...] = 0
                self.last = None
        elif kind == "conf":
            key, v = op[1], op[2]
            name = {
                "policy": "weights-memory-cache-policy",
                "max": "maximum-weights-memory-cache-size",
                "strict": "weights-memory-cache-strict-mode",
            }[key]
            if key == "max":
                v = {"tiny": 50, "one": max(self.size.values()) + 10, "big": 10**8}[v]
            ekr.config.set(name, v)
            self.conf[key] = v
        elif kind == "clear":
            ekr.clear_memory_cache()
        for what, arr, exp in self.held:
            if not np.array_equal(arr, exp):
                problems.append(f"after {op} the array returned earlier by {what} has changed")
        return problems


def make(cfg):
    return Harness(cfg)


def replay(case):
    return seq.run_history(make, case["cfg"], case["history"])


def explore(ctx):
    def r(i, o, m="linear", g="ll", x="x1", how="regrid"):
        return ["r", i, o, m, g, x, how]

    NN = "nearest-neighbour"
    reqs = [
        r("A", "a"), r("B", "a"), r("A", "b"), r("A", "a", NN), r("A", "a", g="h"),
        r("A", "a", x="x2"), r("A", "a", x="x3", how="spelled"), r("B", "a", NN, how="spelled"),
        r("A", "a", how="interpolate"), r("B", "a", how="interpolate", x="x2"),
    ]  # fmt: skip
    fails = [["missing", "A", w] for w in ("grid", "method", "size", "bad")]
    pol = [["conf", "policy", p] for p in ("lru", "largest", "unlimited", "off")]
    mx = [["conf", "max", v] for v in ("tiny", "one")]
    strict = [["conf", "strict", True]]
    MU, CL = [["mutate"]], [["clear"]]
    t = 1 if ctx.thorough else 0
    fams = [("all", {}, reqs + fails[:3] + MU + pol + mx + strict + CL, 3 + t)]
    small = [reqs[0], reqs[1], reqs[2], reqs[5]] + MU
    for p in ("lru", "largest", "unlimited", "off"):
        for v in ("one", "tiny") if p in ("lru", "largest") else ("big",):
            fams.append((f"{p}-{v}", {"setup": [["conf", "policy", p], ["conf", "max", v]]}, small, 4 + t))
    fams.append(
        (
            "strict",
            {"setup": [["conf", "max", "one"], ["conf", "strict", True]]},
            [reqs[0], reqs[1], reqs[2], reqs[4]] + fails[:1] + mx + CL,
            3 + t,
        )
    )
    for place in PLACES:
        if place != "plain":
            ops = [reqs[0], reqs[1], reqs[9], r("B", "b"), r("A", "b", how="interpolate")]
            fams.append(("place-" + place, {"places": place}, ops, 2 + t))
    near = [r("A", "a", g=g) for g in NEAR if g != "ring"] + [reqs[0], reqs[4]]
    for p in ("largest", "off"):
        fams.append(("near-" + p, {"near": True, "setup": [["conf", "policy", p]]}, near, 2 + t))
    large = [r("A", "c"), r("B", "c"), r("A", "c", x="x2"), r("A", "c", NN, how="interpolate"), reqs[0]] + MU
    for p in ("largest", "off"):
        fams.append(("large-" + p, {"large": True, "setup": [["conf", "policy", p]]}, large, 3 + t))
    fams.append(("failing", {}, reqs[:2] + fails + [["missing", "B", "grid"]], 3 + t))
    seq.explore_dfs(ctx, make, fams)
