"""C01: precomputed regridding applies exactly the weights of the matching entry.

Exhaustive product of inventories (storage formats, entries this version cannot understand at
every position), memory cache policies, requests (every pair of grids x method spelling) and
input arrays (dtypes, memory layouts, special values, wrong sizes), each through regrid() and
interpolate(), against an independent oracle over the stored elements.
"""
import copy
import itertools
import os

LEVEL = "exploration"
RULE = (
    "one evaluation = one regrid()/interpolate() call compared with the oracle; distinct = distinct "
    "(inventory, request, array variant, outcome)"
)
ASSUMPTIONS = [
    "weights and values are small integers, so that the expected products are exact",
    "grids have at most 250 points (plus the example inventory of the repository)",
]

H1 = {"grid": "H1"}
LL90 = {"grid": [90, 90], "shape": [3, 4]}
LL45 = {"grid": [45, 45], "shape": [5, 8]}
LL6030 = {"grid": [60, 30], "shape": [7, 6], "global": 1}
O2 = {"grid": "O2", "shape": [88]}
N2 = {"grid": "N2", "shape": [48]}
SUB = {"grid": [30, 30], "area": [60, 0, 0, 60], "shape": [3, 3]}
POINTS = {"H1": 12, "H2": 48, "LL90": 12, "LL45": 40, "LL6030": 42, "O2": 88, "N2": 48, "SUB": 9}
INDEX_GRIDS = {
    "H1": {"grid": "H1", "order": "ring", "shape": [12]},
    "H2": {"grid": "H2", "order": "nested", "shape": [48]},
    "LL90": LL90,
    "LL45": LL45,
    "LL6030": LL6030,
    "O2": O2,
    "N2": N2,
    "SUB": SUB,
}
REQ = {
    "H1": {"grid": "H1"},
    "H2": {"grid": "H2", "order": "nested"},
    "LL90": {"grid": [90, 90]},
    "LL45": {"grid": (45, 45)},
    "LL6030": {"grid": [60, 30]},
    "O2": {"grid": "O2"},
    "N2": {"grid": "n2"},
    "SUB": {"grid": [30, 30], "area": [60, 0, 0, 60]},
}
METHODS = {
    "linear": ["linear"],
    "nearest-neighbour": ["nearest-neighbour", "nn", "nearest-neighbor"],
    "grid-box-average": ["grid-box-average"],
    "none": ["grid-box", "nearest", "linear-2", "lin", "box-average", "grid-box-average-nearest", "grid-box-statistics", "linear,nearest-neighbour"],
}

JUNK = {
    "unknown-grid": {
        "input": {"grid": "ZZ_new_9"},
        "output": {"grid": [90, 90], "shape": [3, 4]},
        "interpolation": {"method": "linear", "engine": "mir", "version": "1.27"},
    },
    "unknown-type": {
        "input": {"grid": "O2", "type": "new_type"},
        "output": {"grid": [90, 90], "shape": [3, 4]},
        "interpolation": {"method": "linear", "engine": "mir", "version": "1.27"},
    },
    "no-input": {
        "output": {"grid": [90, 90], "shape": [3, 4]},
        "interpolation": {"method": "linear", "engine": "mir", "version": "1.27"},
    },
    "null-output": {
        "input": {"grid": "O2"},
        "output": None,
        "interpolation": {"method": "linear", "engine": "mir", "version": "1.27"},
    },
    "no-interpolation": {"input": {"grid": "O2"}, "output": {"grid": [90, 90], "shape": [3, 4]}},
    "list-method": {
        "input": {"grid": "O2"},
        "output": {"grid": [90, 90], "shape": [3, 4]},
        "interpolation": {"method": ["linear", "new"], "engine": "mir", "version": "1.27"},
    },
    **{
        "ll-" + k: {
            "input": {"grid": [45, 45], **v},
            "output": {"grid": [90, 90], "shape": [3, 4]},
            "interpolation": {"method": "linear", "engine": "mir", "version": "1.27"},
        }
        for k, v in {
            "area-text": {"area": "europe"},
            "area-4-letters": {"area": "tile"},
            "area-none": {"area": None},
            "area-short": {"area": [90, 0, -90]},
            "area-long": {"area": [90, 0, -90, 360, 1]},
            "area-dict": {"area": {"north": 90}},
            "area-dict4": {"area": {"north": 90, "south": -90, "west": 0, "east": 360}},
            "area-number": {"area": 5},
            "area-texts": {"area": ["90", "0", "-90", "360"]},
            "grid-text": {"grid": [45, "auto"]},
            "grid-texts": {"grid": ["auto", "auto"]},
            "grid-none": {"grid": [None, 45]},
            "grid-typed-long": {"grid": [45, 45, 1], "type": "regular_ll"},
            "grid-typed-short": {"grid": [45], "type": "regular_ll"},
            "grid-typed-text": {"grid": "L45", "type": "regular_ll"},
            "grid-typed-dict": {"grid": {"dx": 45}, "type": "regular_ll", "area": [90, 0, -90, 315]},
            "grid-nested": {"grid": [[45], [45]]},
            "scan-text": {"i_scans_negatively": "new"},
            "scan-list": {"j_scans_positively": [1]},
        }.items()
    },
    "ll-no-grid": {
        "input": {"type": "regular_ll", "area": [90, 0, -90, 315]},
        "output": {"grid": [90, 90], "shape": [3, 4]},
        "interpolation": {"method": "linear", "engine": "mir", "version": "1.27"},
    },
    "gg-no-grid": {
        "input": {"type": "reduced_gg"},
        "output": {"grid": [90, 90], "shape": [3, 4]},
        "interpolation": {"method": "linear", "engine": "mir", "version": "1.27"},
    },
    "gg-area-text": {
        "input": {"grid": "O2", "area": "polar"},
        "output": {"grid": [90, 90], "shape": [3, 4]},
        "interpolation": {"method": "linear", "engine": "mir", "version": "1.27"},
    },
    "gg-number": {
        "input": {"grid": 2, "type": "reduced_gg"},
        "output": {"grid": [90, 90], "shape": [3, 4]},
        "interpolation": {"method": "linear", "engine": "mir", "version": "1.27"},
    },
    "gg-output-area": {
        "input": {"grid": "O2"},
        "output": {"grid": [90, 90], "shape": [3, 4], "area": "global"},
        "interpolation": {"method": "linear", "engine": "mir", "version": "1.27"},
    },
    "hp-new-order": {
        "input": {"grid": "H2", "order": "hilbert"},
        "output": {"grid": [60, 30], "shape": [7, 6]},
        "interpolation": {"method": "linear", "engine": "mir", "version": "1.27"},
    },
    "hp-order-none": {
        "input": {"grid": "H2", "order": None},
        "output": {"grid": [60, 30], "shape": [7, 6]},
        "interpolation": {"method": "linear", "engine": "mir", "version": "1.27"},
    },
    "hp-order-list": {
        "input": {"grid": "H2", "order": ["nested"]},
        "output": {"grid": [60, 30], "shape": [7, 6]},
        "interpolation": {"method": "linear", "engine": "mir", "version": "1.27"},
    },
    "method-dict": {
        "input": {"grid": "O2"},
        "output": {"grid": [90, 90], "shape": [3, 4]},
        "interpolation": {"method": {"new": 1}, "engine": "mir", "version": "1.27"},
    },
    "text-method": {
        "input": {"grid": "O2"},
        "output": {"grid": [90, 90], "shape": [3, 4]},
        "interpolation": "linear",
    },
    "none": None,
    "list": [],
    "text": "O2",
    "empty": {},
    "not-a-dict": 5,
}

GBA = {
    "type": "grid-box-average",
    "nonLinear": [{"type": "missing-if-heaviest-missing"}],
    "solver": {"type": "multiply"},
    "cropping": False,
    "lsmWeightAdjustment": 0.2,
    "pruneEpsilon": 1e-10,
    "poleDisplacement": 0,
}


def build_entries(variant):
    import numpy as np
    import scipy.sparse as sp

    from mc import inv

    fmt = variant.get("fmt", "csr_array")
    combos = [tuple(c) for c in variant["combos"]]
    entries = []
    for k, (a, b, m) in enumerate(combos):
        dense = inv.int_matrix(POINTS[b], POINTS[a], salt=k * 3 + 1, dense=True)
        if fmt == "explicit":
            # explicit zeros, unsorted and duplicated indices, empty rows
            c = sp.coo_array(dense)
            row = np.concatenate([c.row[::-1], [0, 0, 0]])
            col = np.concatenate([c.col[::-1], [0, 1, 0]])
            data = np.concatenate([c.data[::-1], [0.0, 2.0, 3.0]])
            keep = row != 1
            row, col, data = row[keep], col[keep], data[keep]
            order = np.argsort(row, kind="stable")
            row, col, data = row[order], col[order], data[order]
            indptr = np.concatenate([[0], np.cumsum(np.bincount(row, minlength=dense.shape[0]))])
            mat = sp.csr_array((data, col, indptr), shape=dense.shape)
        elif fmt == "f4":
            mat = sp.csr_array(dense.astype("f4"))
        elif fmt == "idx64":
            mat = sp.csr_array(dense)
            mat.indices = mat.indices.astype("i8")
            mat.indptr = mat.indptr.astype("i8")
        elif fmt == "coo_array":
            mat = sp.coo_array(dense)
        else:
            mat = getattr(sp, fmt)(dense)
        inter = None
        if m == "grid-box-average" and variant.get("gba") == "dict":
            inter = {"method": GBA, **inv.ENGINE}
        entries.append(inv.entry(INDEX_GRIDS[a], INDEX_GRIDS[b], m, mat, interpolation=inter))
    junk = variant.get("junk")
    if junk:
        pos = variant["junk_pos"]
        j = {"name": "junk-" + junk, "raw": JUNK[junk]}
        i = {"first": 0, "middle": len(entries) // 2, "last": len(entries)}[pos]
        entries.insert(i, j)
    return combos, entries


def arrays(n, shape, full):
    """name -> (array, kind): kind "ok" or "wrong"."""
    import numpy as np

    base = (np.arange(n) * 7) % 23 - 5
    r = {}
    for dt in ("f8", "f4", "i8", "i4", "i2", ">f8", ">i4", "u1", "f2"):
        v = base.astype(dt) if dt != "u1" else np.abs(base).astype(dt)
        r["1d-" + dt] = v
    for dt in ("c16", "c8"):
        r["1d-" + dt] = (base + 1j * ((np.arange(n) * 5) % 11 - 4)).astype(dt)
    r["bool"] = base > 3
    two = base.astype("f8").reshape(shape) if len(shape) == 2 else base.astype("f8").reshape(2, -1)
    if n % 2 and len(shape) != 2:
        two = base.astype("f8").reshape(1, -1)
    r["2d-C"] = two.copy()
    r["2d-F"] = np.asfortranarray(two)
    r["2d-T"] = two.T
    r["2d-column"] = base.astype("f8").reshape(-1, 1)
    big = np.full((two.shape[0] * 2, two.shape[1] * 3), -99.0)
    big[::2, ::3] = two
    r["2d-strided"] = big[::2, ::3]
    r["2d-reversed"] = two[::-1, ::-1]
    one = np.full(n * 2, -99.0)
    one[::2] = base
    r["1d-strided"] = one[::2]
    r["1d-reversed"] = base.astype("f8")[::-1]
    r["3d"] = base.astype("f8").reshape(1, two.shape[0], two.shape[1])
    ro = base.astype("f8")
    ro.flags.writeable = False
    r["read-only"] = ro
    v = base.astype("f8")
    v[n // 2] = np.nan
    r["nan"] = v
    v = base.astype("f8")
    v[0] = np.inf
    v[-1] = -np.inf
    r["inf"] = v
    v = base.astype("f4")
    v[1] = np.nan
    r["nan-f4"] = v
    r["zeros"] = np.zeros(n)
    r["subclass"] = base.astype("f8").view(type("Sub", (np.ndarray,), {}))
    wrong = {
        "wrong+1": np.ones(n + 1),
        "wrong-1": np.ones(n - 1),
        "wrong*2": np.ones(2 * n),
        "wrong0": np.ones(0),
        "wrong-2d": np.ones((n, 2)),
        "wrong-1value": np.ones(1),
    }
    return r, wrong


def same(a, b):
    import numpy as np

    dtype = "c16" if np.asarray(b).dtype.kind == "c" else "f8"
    if dtype == "f8" and np.asarray(a).dtype.kind == "c":
        return False
    return np.array_equal(np.asarray(a, dtype=dtype), np.asarray(b, dtype=dtype), equal_nan=True)


def run(case):
    import numpy as np

    from mc import inv

    if case["policy"]:
        os.environ["EARTHKIT_REGRID_WEIGHTS_MEMORY_CACHE_POLICY"] = case["policy"]
    os.environ["EARTHKIT_REGRID_CACHE_POLICY"] = "off"
    from earthkit.regrid import interpolate
    from earthkit.regrid.array import regrid

    problems = []
    counts = {"evaluations": 0}
    distinct = set()

    variant = case["inv"]
    if variant.get("example"):
        return run_example(case)
    if variant.get("values"):
        return run_values(case)

    combos, entries = build_entries(variant)
    path = inv.write(os.path.abspath("inv"), entries, with_memory=variant.get("memory", True))
    if case.get("path") == "slash":
        path += "/"
    elif case.get("path") == "relative":
        path = "./inv"
    mats = {}
    real = [e for e in entries if "raw" not in e]
    for c, e in zip(combos, real):
        mats[c] = e["matrix"]

    names = sorted({c[0] for c in combos} | {c[1] for c in combos})
    full = case.get("arrays", "all") == "all"
    for a, b in itertools.product(names, names):
        for m, spellings in METHODS.items():
            if m == "none" and not any((a, b, x) in mats for x in METHODS):
                continue
            for sp in spellings:
                mat = mats.get((a, b, m))
                good, wrong = arrays(POINTS[a], INDEX_GRIDS[a]["shape"], full)
                if not full or mat is None or sp != spellings[0]:
                    good = {k: good[k] for k in ("1d-f8", "2d-F")[: 1 if m == "none" else 2]}
                    wrong = {} if mat is None else {k: wrong[k] for k in ("wrong+1",)}
                for api in ("regrid", "interpolate"):
                    for name, x in itertools.chain(good.items(), wrong.items()):
                        gin, gout = copy.deepcopy(REQ[a]), copy.deepcopy(REQ[b])
                        x0 = x.copy()
                        strides, flags = x.strides, x.flags.writeable
                        counts["evaluations"] += 1
                        where = f"{api} {a}->{b} {sp} {name}"
                        try:
                            if api == "regrid":
                                kw = {} if (sp == "linear" and name == "2d-C") else {"interpolation": sp}
                                res, grid = regrid(x, gin, gout, backend="precomputed", inventory=path, **kw)
                            else:
                                kw = {} if (sp == "linear" and name == "2d-C") else {"method": sp}
                                res = interpolate(x, gin, gout, matrix_source=path, **kw)
                                grid = gout
                            out = "value"
                        except Exception as e:
                            out = "error"
                            res = e
                        distinct.add(f"{a}{b}{sp}{name}{api}{out}")
                        if out == "value":
                            if mat is None:
                                problems.append(f"{where}: a result although there is no such entry")
                            elif name in wrong:
                                problems.append(f"{where}: a result for values of the wrong size")
                            else:
                                exp = inv.product(mat, x0).reshape(INDEX_GRIDS[b]["shape"])
                                if np.shape(res) != exp.shape:
                                    problems.append(f"{where}: shape {np.shape(res)} instead of {exp.shape}")
                                elif not same(res, exp):
                                    problems.append(f"{where}: {np.ravel(res)[:6]} instead of {exp.ravel()[:6]}")
                                if dict(grid) != REQ[b]:
                                    problems.append(f"{where}: returned grid {grid}")
                                if np.shares_memory(res, x):
                                    problems.append(f"{where}: the result shares memory with the input")
                        elif mat is not None and name not in wrong:
                            problems.append(f"{where}: {type(res).__name__}: {res}")
                        if gin != REQ[a] or gout != REQ[b]:
                            problems.append(f"{where}: a grid argument was modified: {gin} {gout}")
                        if not np.array_equal(x, x0, equal_nan=x.dtype.kind == "f") or x.strides != strides:
                            problems.append(f"{where}: the input array was modified")
                        if x.flags.writeable != flags:
                            problems.append(f"{where}: the flags of the input array were modified")
                        if len(problems) > 20:
                            return dict(problems=problems, counts=counts)
    sample = {"case": case, "combos": combos, "calls": counts["evaluations"]}
    tag = str(sorted(variant.items())) + str(case["policy"])
    return dict(problems=problems, counts=counts, distinct=[tag + d for d in distinct], sample=sample)


SPECIALS = (float("nan"), float("inf"), float("-inf"), 0.0, 1e300, 5e-324, -1.0)


def run_values(case):
    """Every set of missing (or infinite, zero) values of a small grid, every pair of special values"""
    import numpy as np
    import scipy.sparse as sp

    from earthkit.regrid.array import regrid
    from mc import inv

    n = POINTS["LL90"]
    a = np.zeros((POINTS["LL45"], n))
    for i in range(a.shape[0]):
        a[i, (i * 5) % n] = 1 + i % 3
        a[i, (i * 7 + 1) % n] += 2
        if i % 4 == 0:
            a[i, (i + 3) % n] += 1
    a[5] = 0
    mat = sp.csr_array(a)
    path = inv.write(os.path.abspath("inv"), [inv.entry(LL90, LL45, "linear", mat)])
    base = ((np.arange(n) * 7) % 23 - 5.0)
    base[base == 0] = 3
    part, parts = case["part"]

    def fields():
        for mask in range(part, 2**n, parts):
            bits = np.array([(mask >> k) & 1 for k in range(n)], dtype=bool)
            for s in (float("nan"), 0.0, float("inf")):
                if s == float("inf") and bin(mask).count("1") > 3:
                    continue
                v = base.copy()
                v[bits] = s
                yield f"{s} at {np.flatnonzero(bits).tolist()}", v
        k = 0
        for i, j in itertools.combinations(range(n), 2):
            for x, y in itertools.product(SPECIALS, SPECIALS):
                k += 1
                if k % parts == part:
                    v = base.copy()
                    v[i], v[j] = x, y
                    yield f"{x} at {i}, {y} at {j}", v
        for x in SPECIALS:
            yield f"all {x}", np.full(n, x)

    problems = []
    count = 0
    distinct = set()
    with np.errstate(all="ignore"):
        for name, v in fields():
            exp = inv.product(mat, v).reshape(LL45["shape"])
            for form in ("1d", "2d") if case["dtype"] == "f8" else ("2d",):
                x = v.astype(case["dtype"])
                if case["dtype"] == "f4" and not np.array_equal(x.astype("f8"), v, equal_nan=True):
                    continue
                x = x if form == "1d" else x.reshape(LL90["shape"])
                count += 1
                try:
                    res, _ = regrid(x, {"grid": [90, 90]}, {"grid": [45, 45]}, backend="precomputed", inventory=path)
                except Exception as e:
                    problems.append(f"values {name} ({form} {case['dtype']}): {type(e).__name__}: {e}")
                    break
                distinct.add(str(np.isnan(res).tobytes()))
                if np.shape(res) != exp.shape or not same(res, exp):
                    k = np.flatnonzero(~((res == exp) | (np.isnan(res) & np.isnan(exp))).ravel()) if np.shape(res) == exp.shape else []
                    problems.append(f"values {name} ({form} {case['dtype']}): the result differs at {list(k)[:5]}")
            if len(problems) > 10:
                break
    sample = {"case": case, "fields": count}
    return dict(problems=problems, counts={"evaluations": count}, distinct=list(distinct), sample=sample)


def run_example(case):
    """The inventory of the repository's own tests, read with an independent decoder."""
    import json
    import zipfile

    import numpy as np
    from numpy.lib import format as npf

    from earthkit.regrid.array import regrid
    from mc import core

    root = os.path.join(core.REPO, "tests/data/local/db")
    problems = []
    counts = {"evaluations": 0}
    distinct = set()
    with open(os.path.join(root, "index.json")) as f:
        index = json.load(f)["matrix"]
    for name, e in index.items():
        m = e["interpolation"]["method"]
        m = m["type"] if isinstance(m, dict) else m
        p = os.path.join(root, f"{e['interpolation']['engine']}_{e['interpolation']['version']}_{m}", name + ".npz")
        if not os.path.exists(p):
            continue
        arr = {}
        with zipfile.ZipFile(p) as z:
            for n in z.namelist():
                with z.open(n) as f:
                    arr[n[:-4]] = npf.read_array(f)
        rows, cols = arr["shape"]
        gin = {k: v for k, v in e["input"].items() if k in ("grid", "order", "ordering", "area")}
        gout = {k: v for k, v in e["output"].items() if k in ("grid", "order", "ordering", "area")}
        rng = (np.arange(cols) * 37) % 101 - 50
        row = np.repeat(np.arange(rows), np.diff(arr["indptr"]))
        exp = np.zeros(rows)
        np.add.at(exp, row, arr["data"] * rng[arr["indices"]])
        exp = exp.reshape(e["output"]["shape"])
        for dt in ("f8", "i4", "f4"):
            counts["evaluations"] += 1
            res, grid = regrid(
                rng.astype(dt), gin, gout, interpolation=m, backend="precomputed", inventory=root
            )
            distinct.add(f"example{name}{dt}")
            if res.shape != exp.shape or not np.allclose(res, exp, rtol=0, atol=1e-9):
                problems.append(f"example inventory: {gin} -> {gout} {m} {dt}: differs from the stored weights")
    if not counts["evaluations"]:
        counts["example_inventory_missing"] = 1
    return dict(problems=problems, counts=counts, distinct=list(distinct))


def replay(case):
    return run(case)


def explore(ctx):
    all_grids = list(INDEX_GRIDS)
    some = [("O2", "LL90", "linear"), ("O2", "LL90", "nearest-neighbour"), ("N2", "LL90", "linear"),
            ("LL45", "LL90", "linear"), ("LL45", "LL90", "grid-box-average"), ("H2", "LL6030", "linear"),
            ("H1", "H2", "linear"), ("LL90", "O2", "nearest-neighbour"), ("SUB", "LL90", "linear"),
            ("LL90", "SUB", "linear")]  # fmt: skip
    full = [(a, b, m) for a in all_grids for b in all_grids for m in METHODS if m != "none" and (hash_of(a, b, m)) % 3]
    cases = []
    for pol in ("off", "largest", "lru", "unlimited"):
        cases.append(("policy", {"inv": {"combos": some}, "policy": pol}))
    for fmt in ("csr_array", "csr_matrix", "csc_array", "csc_matrix", "coo_array", "bsr_array", "explicit", "f4", "idx64"):
        cases.append(("format", {"inv": {"combos": some[:5], "fmt": fmt, "gba": "dict"}, "policy": None}))
    cases.append(("no-memory-key", {"inv": {"combos": some, "memory": False}, "policy": None}))
    for p in ("slash", "relative"):
        cases.append(("path", {"inv": {"combos": some[:4]}, "policy": None, "path": p, "arrays": "few"}))
    for j in JUNK:
        for pos in ("first", "middle", "last"):
            cases.append(
                ("junk", {"inv": {"combos": some[:6], "junk": j, "junk_pos": pos}, "policy": None, "arrays": "few"})
            )
    for part in range(4):
        cases.append(("values", {"inv": {"values": 1}, "policy": None, "dtype": "f8", "part": (part, 4)}))
    cases.append(("values", {"inv": {"values": 1}, "policy": None, "dtype": "f4", "part": (0, 1)}))
    cases.append(("large-index", {"inv": {"combos": full}, "policy": None, "arrays": "few"}))
    cases.append(("example", {"inv": {"example": 1}, "policy": None}))
    if ctx.thorough:
        for i, c in enumerate(full):
            for pol in ("off", "largest"):
                cases.append((f"single-{pol}", {"inv": {"combos": [c]}, "policy": pol}))
        for fmt in ("csc_array", "explicit", "coo_array"):
            for pol in ("off", "lru", "unlimited"):
                cases.append(("format-all", {"inv": {"combos": full[:60], "fmt": fmt}, "policy": pol}))
        for perm in itertools.permutations(some[:5]):
            cases.append(("order", {"inv": {"combos": list(perm)}, "policy": None, "arrays": "few"}))
    ctx.run_cases(run, cases, timeout=300)


def hash_of(*a):
    import hashlib

    return hashlib.md5("".join(a).encode()).digest()[0]
