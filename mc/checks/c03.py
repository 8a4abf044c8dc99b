"""C03: the weights memory cache obeys its policy, size limit and counters.

All histories of requests, configuration changes and clears up to a depth, executed on the real
code; after each operation memory_cache_info() is compared with a reference model.
"""
import os
from collections import OrderedDict

from mc import seq

LEVEL = "model_checking"
RULE = "state = content (in order of use), counters and configuration of the reference model"
ASSUMPTIONS = [
    "no subset of the weights has exactly the size of a limit; all the weights have different sizes",
    "one thread (see C04 for several)",
]

# name -> (grid in, n points in, grid out, shape out, method)
GRIDS = {
    "a": ({"grid": [90, 90]}, 12, {"grid": [60, 60], "shape": [4, 6]}),
    "b": ({"grid": [90, 90]}, 12, {"grid": [45, 45], "shape": [5, 8]}),
    "c": ({"grid": [90, 90]}, 12, {"grid": "O2", "shape": [88]}),
    "d": ({"grid": [90, 90]}, 12, {"grid": [15, 30], "shape": [7, 24]}),
    "e": ({"grid": [90, 90]}, 12, {"grid": [10, 30], "shape": [7, 36]}),
}


def limits(sizes):
    s = sizes
    return {
        "tiny": s["a"] + 10,  # only a fits
        "small": s["a"] + s["c"] + 10,  # a+b, a+c, b alone..; d, e do not fit
        "medium": s["d"] + s["b"] + 10,
        "large": s["a"] + s["b"] + s["c"] + s["d"] + 10,
    }


class Harness:
    def __init__(self, cfg):
        import numpy as np

        from mc import inv

        os.environ["EARTHKIT_REGRID_CACHE_POLICY"] = "off"
        import earthkit.regrid as ekr
        from earthkit.regrid.array import regrid

        self.ekr = ekr
        self.regrid = regrid
        self.np = np
        self.entries = {}
        ent = []
        for i, (k, (gi, n, go)) in enumerate(GRIDS.items()):
            rows = int(np.prod(go["shape"]))
            m = inv.int_matrix(rows, n, salt=i + 3)
            e = inv.entry(dict(gi, shape=[3, 4]), go, "linear", m)
            ent.append(e)
            self.entries[k] = (gi, {"grid": go["grid"]}, m, go["shape"])
        self.sizes = {k: inv.memory(v[2]) for k, v in self.entries.items()}
        lim = limits(self.sizes)
        self.limits = lim
        self.path = inv.write(os.path.abspath("inv"), ent, with_memory=cfg.get("memory", True))
        self.estimated = cfg.get("memory", True)
        self.x = (np.arange(12) * 5 % 7).astype("f8")
        self.expected = {
            k: inv.product(v[2], self.x).reshape(v[3]) for k, v in self.entries.items()
        }
        # the model
        self.items = OrderedDict()
        self.hits = self.misses = 0
        self.conf = {"policy": "largest", "max": 500 * 1024 * 1024, "strict": False}
        self.outcomes = set()
        for op in cfg.get("setup", []):
            p = self.apply(op)
            assert not p, p

    def state(self):
        return [list(self.items), self.hits, self.misses, self.conf]

    # -- model
    def curr(self):
        return sum(self.items.values())

    def _limited(self):
        return self.conf["policy"] in ("largest", "lru")

    def _evict(self, target):
        while self.items and self.curr() > target:
            if self.conf["policy"] == "lru":
                self.items.popitem(last=False)
            else:
                k = max(self.items, key=lambda k: self.items[k])
                del self.items[k]

    def model_request(self, k):
        """-> expect a value?"""
        if self.conf["policy"] == "off":
            return k != "missing"
        if k in self.items:
            self.items.move_to_end(k)
            self.hits += 1
            return True
        if k == "missing":
            self.misses += 1
            return False
        size = self.sizes[k]
        mx = self.conf["max"]
        if self._limited():
            if self.estimated:
                if self.conf["strict"] and size > mx:
                    return False
            if size < mx:
                if self.estimated:
                    self._evict(mx - size)
                self.items[k] = size
                self._evict(mx)
        else:
            self.items[k] = size
        self.misses += 1
        return True

    def model_config(self, key, value):
        self.conf[key] = value
        if self.conf["policy"] == "off":
            self.items.clear()
            self.hits = self.misses = 0
        elif self._limited():
            self._evict(self.conf["max"])

    def model_info(self):
        mx = {"off": 0, "unlimited": None}.get(self.conf["policy"], self.conf["max"])
        return (self.hits, self.misses, mx, self.curr(), len(self.items), self.conf["policy"])

    # -- operations
    def apply(self, op):
        ekr = self.ekr
        problems = []
        kind, arg = op[0], op[1] if len(op) > 1 else None
        if kind == "r":
            before = self.state()
            ok = self.model_request(arg)
            gi, go = (self.entries[arg][:2]) if arg != "missing" else ({"grid": [90, 90]}, {"grid": [77, 77]})
            try:
                res, _ = self.regrid(self.x, dict(gi), dict(go), backend="precomputed", inventory=self.path)
            except Exception as e:
                self.outcomes.add(f"error:{self.conf['policy']}")
                if ok:
                    problems.append(f"{op} failed: {type(e).__name__}: {str(e)[:300]}; model state before {before}")
            else:
                self.outcomes.add(f"value:{self.conf['policy']}")
                if not ok:
                    problems.append(f"{op} gave a result instead of an error; model state before {before}")
                elif not self.np.array_equal(res, self.expected[arg]):
                    problems.append(f"{op}: wrong result")
        elif kind == "max":
            v = self.limits[arg]
            ekr.config.set("maximum-weights-memory-cache-size", v)
            self.model_config("max", v)
        elif kind == "policy":
            ekr.config.set("weights-memory-cache-policy", arg)
            self.model_config("policy", arg)
        elif kind == "strict":
            ekr.config.set("weights-memory-cache-strict-mode", arg)
            self.model_config("strict", arg)
        elif kind == "clear":
            ekr.clear_memory_cache()
            self.items.clear()
            self.hits = self.misses = 0
        elif kind == "noop":
            # a change of a setting that does not matter here
            ekr.config.set("url-download-timeout", arg)
        else:
            raise ValueError(op)
        info = ekr.memory_cache_info()
        got = tuple(getattr(info, n) for n in ("hits", "misses", "maxsize", "currsize", "count", "policy"))
        exp = self.model_info()
        if got != exp:
            problems.append(
                f"after {op}: memory_cache_info() is (hits, misses, maxsize, currsize, count, policy)={got}, "
                f"expected {exp}; held: {dict(self.items)}; sizes {self.sizes}"
            )
        return problems


def make(cfg):
    return Harness(cfg)


def replay(case):
    return seq.run_history(make, case["cfg"], case["history"])


def explore(ctx):
    R = [["r", k] for k in "abcde"]
    MISS = ["r", "missing"]
    MAX = [["max", k] for k in ("tiny", "small", "medium", "large")]
    POL = [["policy", k] for k in ("lru", "largest", "unlimited", "off")]
    ST = [["strict", True], ["strict", False]]
    CL = ["clear"]
    everything = R + [MISS] + MAX + POL + ST + [CL, ["noop", "31s"]]
    t = 1 if ctx.thorough else 0
    fams = [("all", {}, everything, 3 + t)]
    for pol in ("lru", "largest"):
        for lim in ("small", "medium", "large"):
            setup = [["policy", pol], ["max", lim]]
            fams.append((f"{pol}-{lim}-requests", {"setup": setup}, R, (5 if lim == "medium" else 4) + t))
        fams.append(
            (f"{pol}-limits", {"setup": [["policy", pol], ["max", "large"]]}, R[1:4] + MAX[:3] + [CL], 4 + t)
        )
        fams.append(
            (
                f"{pol}-no-estimate",
                {"setup": [["policy", pol], ["max", "medium"]], "memory": False},
                R + [MAX[1]],
                4 + t,
            )
        )
        fams.append(
            (
                f"{pol}-strict",
                {"setup": [["policy", pol], ["max", "medium"], ["strict", True]]},
                R + [MISS, MAX[1], ST[1]],
                3 + t,
            )
        )
    fams.append(("unlimited", {"setup": [["policy", "unlimited"]]}, R[:3] + POL + MAX[:2] + ST[:1], 3 + t))
    fams.append(("off", {"setup": [["policy", "off"]]}, R[:3] + POL + MAX[:2] + ST[:1], 3 + t))
    for pol in ("lru", "largest", "unlimited"):
        # the order of use counts whatever the policy was at the time of the uses
        setup = [["policy", pol], ["max", "large"]]
        to = [x for x in POL[:3] if x[1] != pol]
        fams.append((f"{pol}-switch", {"setup": setup + R[:2]}, R[:2] + [R[2]] + to + MAX[1:2], 4 + t))
    seq.explore_dfs(ctx, make, fams)
