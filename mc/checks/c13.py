"""C13: weight files are decoded and inventories built without loss, or not at all.

Decoding: all matrices up to a size, in each encoding, are written by the encoder below (made from the
description of the format, not from the code) and decoded; every file of a set is cut at each of its
bytes, and each of its structural bytes is given every other value. Native files of the real library are
decoded and compared with what the library computes with them.
Inventories: all sequences of builds from a set of weight files (one of them damaged), all subsets of an
inventory, and copies; the resulting inventories are used with regrid(). A build is killed at each point
at which the content of the disk differs.
"""

import itertools
import json
import os
import struct

LEVEL = "exploration"
RULE = "distinct = (family, matrix or file, encoding, damage, outcome)"
ASSUMPTIONS = [
    "4-byte indices (the only size the library writes), other sizes are rejected",
    "damage of the row, column and element counts themselves is not detectable in general and not part of the property",
]
PRELOAD = ["mir"]

VALUES = [1.5, -2.25, 0.1, 3.0, 1e-30, -7.0, 123456.789, 1.0, 0.3333333333333333]
ENC = [(le, s) for le in (True, False) for s in (4, 8)]


class Enc:
    """The file of a matrix; fields is a list of (name, kind, start, end)."""

    def __init__(self, rows, cols, items, little, size):
        """items: sorted [(row, col, value)]"""
        self.out = b""
        self.fields = []
        o = "<" if little else ">"
        outer = [0]
        for r in range(rows):
            outer.append(sum(1 for i in items if i[0] <= r))
        self._ulong("rows", rows)
        self._ulong("cols", cols)
        self._ulong("nnz", len(items))
        self._tag("little", 5)
        self._raw("little", "value", struct.pack(">I", 1 if little else 0))
        self._ulong("index-size", 4)
        self._ulong("scalar-size", size)
        self._ulong("size-size", 8)
        self._blob("outer", struct.pack(f"{o}{len(outer)}I", *outer))
        self._blob("inner", struct.pack(f"{o}{len(items)}I", *[i[1] for i in items]))
        self._blob("data", struct.pack(f"{o}{len(items)}{'f' if size == 4 else 'd'}", *[i[2] for i in items]))

    def _raw(self, name, kind, data):
        self.fields.append((name, kind, len(self.out), len(self.out) + len(data)))
        self.out += data

    def _tag(self, name, t):
        self._raw(name, "tag", bytes([t]))

    def _ulong(self, name, v):
        self._tag(name, 10)
        self._raw(name, "value", struct.pack(">I", v))

    def _blob(self, name, data):
        self._tag(name, 21)
        self._raw(name, "length", struct.pack(">Q", len(data)))
        self._raw(name, "data", data)


def items_of(rows, cols, mask):
    cells = [(r, c) for r in range(rows) for c in range(cols)]
    return [(r, c, VALUES[i % len(VALUES)] * (1 + i // len(VALUES))) for i, (r, c) in enumerate(cells) if mask >> i & 1]


def dense(rows, cols, items, size):
    import numpy as np

    m = np.zeros((rows, cols))
    for r, c, v in items:
        m[r, c] = np.float32(v) if size == 4 else v
    return m


class Check:
    def __init__(self):
        self.problems = []
        self.counts = {"evaluations": 0}
        self.distinct = set()
        self.sample = None

    def bad(self, text):
        if len(self.problems) < 20:
            self.problems.append(text)

    def seen(self, *x):
        self.counts["evaluations"] += 1
        self.distinct.add(" ".join(str(i) for i in x))

    def result(self):
        return dict(problems=self.problems, counts=self.counts, distinct=list(self.distinct), sample=self.sample)


def setup():
    os.environ["EARTHKIT_REGRID_CACHE_POLICY"] = "off"
    os.environ["EARTHKIT_REGRID_WEIGHTS_MEMORY_CACHE_POLICY"] = "off"


def put(data, name="w.mat"):
    path = os.path.join(os.getcwd(), name)
    with open(path, "wb") as f:
        f.write(data)
    return path


def check_matrix(c, where, got, ref):
    """got: the decoded matrix, ref: dense"""
    import numpy as np

    if got.shape != ref.shape:
        c.bad(f"{where}: shape {got.shape} instead of {ref.shape}")
        return
    if not np.array_equal(got.toarray().astype("f8"), ref):
        c.bad(f"{where}: decoded as {got.toarray().tolist()} instead of {ref.tolist()}"[:600])
        return
    x = (np.arange(ref.shape[1]) * 7) % 5 - 2.0
    p = got @ x
    if not np.allclose(p, ref @ x, rtol=1e-5, atol=1e-5):
        c.bad(f"{where}: the product with {x} is {p} instead of {ref @ x}"[:600])


# -- decoding


def run_decode(case, c):
    from pathlib import Path

    from scipy.sparse import load_npz

    from earthkit.regrid.utils.mir import mir_cached_matrix_to_array
    from earthkit.regrid.utils.mir import mir_cached_matrix_to_file

    rows, cols, little, size = case["rows"], case["cols"], case["little"], case["size"]
    for mask in case.get("masks") or range(1 << (rows * cols)):
        items = items_of(rows, cols, mask)
        path = put(Enc(rows, cols, items, little, size).out)
        ref = dense(rows, cols, items, size)
        where = f"{rows}x{cols} matrix {mask}, little endian={little}, size {size}"
        check_matrix(c, where, mir_cached_matrix_to_array(path), ref)
        if mask % 16 == 5 or rows * cols < 5:
            target = os.path.join(os.getcwd(), "w.npz")
            for t in (target, Path(target)):
                if os.path.exists(target):
                    os.unlink(target)
                mir_cached_matrix_to_file(path, t)
                check_matrix(c, where + " in an npz file", load_npz(target), ref)
        c.seen("decode", rows, cols, mask, little, size)
    c.sample = case


LARGE = {
    "300x5": (300, 5),
    "5x300": (5, 300),
    "2x70000": (2, 70000),
    "70000x2": (70000, 2),
    "1x1": (1, 1),
    "0 rows": (0, 3),
    "0 cols": (3, 0),
}


def run_large(case, c):
    import numpy as np

    from earthkit.regrid.utils.mir import mir_cached_matrix_to_array

    rows, cols = LARGE[case["name"]]
    items = []
    if rows and cols:
        step = max(1, rows * cols // 400)
        items = [(i // cols, i % cols, VALUES[k % 9] + k) for k, i in enumerate(range(0, rows * cols, step))]
        if rows * cols - 1 not in range(0, rows * cols, step):
            items.append((rows - 1, cols - 1, 5.5))
    e = Enc.__new__(Enc)
    # the plain constructor is quadratic in the number of rows
    e.out, e.fields = b"", []
    o = "<" if case["little"] else ">"
    per = np.zeros(rows + 1, dtype="i8")
    for r, _, _ in items:
        per[r + 1] += 1
    outer = [int(v) for v in np.cumsum(per)]
    for n, v in (("rows", rows), ("cols", cols), ("nnz", len(items))):
        e._ulong(n, v)
    e._tag("little", 5)
    e._raw("little", "value", struct.pack(">I", 1 if case["little"] else 0))
    for n, v in (("index-size", 4), ("scalar-size", case["size"]), ("size-size", 8)):
        e._ulong(n, v)
    e._blob("outer", struct.pack(f"{o}{len(outer)}I", *outer))
    e._blob("inner", struct.pack(f"{o}{len(items)}I", *[i[1] for i in items]))
    e._blob("data", struct.pack(f"{o}{len(items)}{'f' if case['size'] == 4 else 'd'}", *[i[2] for i in items]))
    got = mir_cached_matrix_to_array(put(e.out))
    check_matrix(c, f"{case}", got, dense(rows, cols, items, case["size"]))
    c.seen("large", case)


BASES = {
    # name: rows, cols, mask
    "full": (2, 3, 0b111111),
    "one": (3, 3, 0b000010000),
    "empty": (2, 2, 0),
    "empty row": (3, 2, 0b110011),
    "wide": (1, 8, 0b11011010),
    "tall": (8, 1, 0b10110110),
}


def decode_damaged(c, case, what, data, ref):
    """The file was damaged: an error is expected, never a matrix."""
    from earthkit.regrid.utils.mir import mir_cached_matrix_to_array

    path = put(data)
    try:
        got = mir_cached_matrix_to_array(path)
        small = max(got.shape) < 1000
        text = got.toarray().tolist() if small else (got.shape, got.data)
    except Exception as e:
        r = type(e).__name__
    else:
        r = "matrix"
        c.bad(f"{case['base']}, little endian={case['little']}, size {case['size']}, {what}: gives a matrix, {text}"[:500])
    c.seen(case["family"], case["base"], case["little"], case["size"], what, r)


def base_file(case):
    rows, cols, mask = BASES[case["base"]]
    items = items_of(rows, cols, mask)
    return Enc(rows, cols, items, case["little"], case["size"]), dense(rows, cols, items, case["size"])


def run_truncate(case, c):
    e, ref = base_file(case)
    for n in range(len(e.out)):
        decode_damaged(c, case, f"cut after {n} of {len(e.out)} bytes", e.out[:n], ref)


def run_tags(case, c):
    e, ref = base_file(case)
    for name, kind, start, end in e.fields:
        if kind != "tag":
            continue
        for v in range(256):
            if v != e.out[start]:
                decode_damaged(c, case, f"tag of {name} {v}", e.out[:start] + bytes([v]) + e.out[end:], ref)
        for v in range(256):
            # another tag before the right one (objects may end there; the right one twice can be right)
            if v not in (2, e.out[start]):
                decode_damaged(c, case, f"{v} before the tag of {name}", e.out[:start] + bytes([v]) + e.out[start:], ref)
        decode_damaged(c, case, f"no tag of {name}", e.out[:start] + e.out[end:], ref)


def run_sizes(case, c):
    e, ref = base_file(case)
    for name, kind, start, end in e.fields:
        if kind == "value" and name in ("index-size", "scalar-size"):
            for v in [*range(0, 300), 2**16, 2**31, 2**32 - 1]:
                if v == struct.unpack(">I", e.out[start:end])[0]:
                    continue
                if name == "scalar-size" and v in (4, 8) and not ref.any():
                    continue
                data = e.out[:start] + struct.pack(">I", v) + e.out[end:]
                decode_damaged(c, case, f"{name} {v}", data, ref)


def run_lengths(case, c):
    e, ref = base_file(case)
    for name, kind, start, end in e.fields:
        if kind != "length":
            continue
        n = struct.unpack(">Q", e.out[start:end])[0]
        others = [n + d for d in range(-40, 41) if d and n + d >= 0]
        others += [2 * n or 1, 1 << 20, (1 << 32) + n, 1 << 62]
        for v in sorted(set(others) - {n}):
            data = e.out[:start] + struct.pack(">Q", v) + e.out[end:]
            decode_damaged(c, case, f"length of {name} {v} instead of {n}", data, ref)


# -- native files

GRIDS = ["O2", "O4", "N16", "30/30", "20/45", "H2", "{grid: H2, order: nested}", "{grid: 30/30, area: 60/0/0/90}"]
NATIVE_METHODS = ["linear", "nearest-neighbour", "grid-box-average"]


def spec(g):
    return g if g.startswith("{") else "{grid: %s}" % g


def run_native(case, c):
    """The library writes its weights; decoded, they give what the library computes."""
    import mir
    import numpy as np

    from earthkit.regrid.utils.mir import mir_cached_matrix_to_array

    for g_in, g_out in case["pairs"]:
        if "area" in g_in and g_out != g_in:
            continue  # the library crops the target
        job = mir.Job()
        if g_out.startswith("{"):
            job.set("grid", "30/30")
            job.set("area", "60/0/0/90")
        else:
            job.set("grid", g_out)
        job.set("interpolation", case["method"])
        path = os.path.join(os.getcwd(), "native.mat")
        job.set("interpolation-matrix", path)
        n = mir.Grid(spec(g_in)).size()
        x = ((np.arange(n) * 37) % 101 - 40.0) / 3.0
        try:
            out = mir.ArrayOutput()
            job.execute(mir.ArrayInput(x, spec(g_in)), out)
        except Exception as e:
            c.seen("native", "not supported", g_in, g_out, case["method"], type(e).__name__)
            continue
        if not os.path.exists(path):
            c.seen("native", "no matrix", g_in, g_out, case["method"])
            continue
        ref = np.ravel(out.values())
        z = mir_cached_matrix_to_array(path)
        os.unlink(path)
        got = z @ x
        where = f"{g_in} -> {g_out} {case['method']}"
        if z.shape != (len(ref), n):
            c.bad(f"{where}: shape {z.shape} instead of {(len(ref), n)}")
        elif not np.allclose(got, ref, rtol=1e-9, atol=1e-9):
            c.bad(f"{where}: the product with the decoded weights differs from what the library computes by {np.max(np.abs(got - ref))}")
        c.counts["native_files"] = c.counts.get("native_files", 0) + 1
        c.seen("native", where)


# -- inventories

BOX = {
    "type": "grid-box-average",
    "nonLinear": [{"type": "missing-if-heaviest-missing"}],
    "solver": {"type": "multiply"},
    "cropping": False,
    "lsmWeightAdjustment": 0.2,
    "pruneEpsilon": 1e-10,
    "poleDisplacement": 0,
}
ENGINE = {"engine": "mir", "version": 16}


def ll(dx, dy, n, w, s, e):
    return {
        "type": "regular_ll",
        "bbox": {"north": n, "west": w, "south": s, "east": e},
        "increments": {"west_east": dx, "south_north": dy},
        "ni": int(round((e - w) / dx)) + 1,
        "nj": int(round((n - s) / dy)) + 1,
    }


O2 = [20, 24, 24, 20]
N16 = [20, 27, 32, 40, 45, 48, 60, 60, 64, 64, 64, 64, 64, 64, 64, 64]
# name: (description in the weight file, number of points, shape, request, other requests that are not it)
G = {
    "30x30": (ll(30, 30, 90, 0, -90, 330), 84, [7, 12], {"grid": [30, 30]}, {"grid": [30, 45]}),
    "45x30": (ll(45, 30, 90, 0, -90, 315), 56, [7, 8], {"grid": [45, 30]}, {"grid": [30, 45]}),
    "part": (ll(10, 5, 60, 0, 30, 40), 35, [7, 5], {"grid": [10, 5], "area": [60, 0, 30, 40]}, {"grid": [10, 5]}),
    "O2": (
        {"type": "reduced_gg", "pl": O2, "N": 2, "bbox": {"north": 59.4444, "west": 0, "south": -59.4444, "east": 345}},
        88,
        [88],
        {"grid": "O2"},
        {"grid": "N2"},
    ),
    "N16": (
        {
            "type": "reduced_gg",
            "pl": N16 + N16[::-1],
            "N": 16,
            "bbox": {"north": 85.7606, "west": 0, "south": -85.7606, "east": 354.375},
        },
        2 * sum(N16),
        [2 * sum(N16)],
        {"grid": "N16"},
        {"grid": "O16"},
    ),
    "H2": ({"type": "healpix", "grid": "H2", "order": "ring"}, 48, [48], {"grid": "H2"}, {"grid": "H2", "order": "nested"}),
    "H2n": (
        {"type": "healpix", "grid": "H2", "order": "nested"},
        48,
        [48],
        {"grid": "H2", "order": "nested"},
        {"grid": "H2"},
    ),
    "orca": (
        {"type": "orca", "unstructuredGridType": "eORCA1", "unstructuredGridSubtype": "T"},
        120,
        [120],
        {"grid": "eORCA1_T"},
        {"grid": "eORCA1_U"},
    ),
}
METHODS = {
    "linear": "linear",
    "nn": "nearest-neighbour",
    "box": "grid-box-average",
    "box-dict": BOX,
    "linear-dict": {"type": "linear", "cropping": True},
}


def name_of(m):
    return METHODS[m]["type"] if isinstance(METHODS[m], dict) else METHODS[m]


def weights(g_in, g_out, method, salt=0):
    rows, cols = G[g_out][1], G[g_in][1]
    k = sorted(G).index(g_in) * 100 + sorted(G).index(g_out) * 10 + sorted(METHODS).index(method) + salt
    items = []
    for r in range(rows):
        for j in sorted({(r * 7 + d * 5 + k) % cols for d in range(3)}):
            items.append((r, j, float((r * 5 + j * 3 + k) % 17 + 1)))
    return rows, cols, items


def write_weights(d, tag, spec, salt=0, damaged=False, little=True, size=8):
    """-> path of the description"""
    g_in, g_out, method = spec
    rows, cols, items = weights(g_in, g_out, method, salt)
    data = Enc(rows, cols, items, little, size).out
    if damaged:
        data = data[: len(data) * 2 // 3]
    mat = os.path.join(d, f"{tag}.mat")
    with open(mat, "wb") as f:
        f.write(data)
    desc = {
        "input": G[g_in][0],
        "output": G[g_out][0],
        "interpolation": {"method": METHODS[method], **ENGINE},
        "matrix": {"cache_file": mat, "nnz": len(items), "shape": [rows, cols]},
    }
    path = os.path.join(d, f"{tag}.json")
    with open(path, "w") as f:
        json.dump(desc, f)
    return path


def query(path, g_in, g_out, method, regrid):
    """-> ("ok", values, shape) or ("error", text)"""
    import numpy as np

    x = (np.arange(G[g_in][1]) * 11) % 23 - 8.0
    try:
        v, g = regrid(x, dict(G[g_in][3]), dict(G[g_out][3]), interpolation=method, backend="precomputed", inventory=path)
    except Exception as e:
        return ("error", f"{type(e).__name__}: {e}"[:200])
    return ("ok", np.ravel(v), list(v.shape))


def check_inventory(c, where, path, expected, absent, either=()):
    """expected: {(in, out, method name): (spec, salt)}; either: such that an error is accepted as well"""
    import numpy as np

    from earthkit.regrid.array import regrid

    for (g_in, g_out, m), (spec, salt) in expected.items():
        rows, cols, items = weights(*spec, salt)
        x = (np.arange(cols) * 11) % 23 - 8.0
        r = query(path, g_in, g_out, m, regrid)
        if r[0] == "error":
            if (g_in, g_out, m) not in either:
                c.bad(f"{where}: {g_in} -> {g_out} {m}: {r[1]}")
        elif not np.array_equal(r[1], dense(rows, cols, items, 8) @ x):
            c.bad(f"{where}: {g_in} -> {g_out} {m}: not the weights of its file")
        elif r[2] != G[g_out][2]:
            c.bad(f"{where}: {g_in} -> {g_out} {m}: shape {r[2]} instead of {G[g_out][2]}")
    for g_in, g_out, m in absent:
        r = query(path, g_in, g_out, m, regrid)
        if r[0] != "error":
            c.bad(f"{where}: {g_in} -> {g_out} {m} is answered although it is not there")


def check_description(c, where, path, specs):
    """The entries of the index: number of elements, memory, no more entries than built."""
    with open(os.path.join(path, "index.json")) as f:
        idx = json.load(f)
    if idx.get("version") != 1:
        c.bad(f"{where}: version {idx.get('version')}")
    if len(idx["matrix"]) != len(specs):
        c.bad(f"{where}: {len(idx['matrix'])} entries instead of {len(specs)}")
    from scipy.sparse import load_npz

    for name, e in idx["matrix"].items():
        m = e["interpolation"]["method"]
        m = m["type"] if isinstance(m, dict) else m
        p = os.path.join(path, f"mir_16_{m}", name + ".npz")
        if not os.path.exists(p):
            c.bad(f"{where}: no file {p}")
            continue
        z = load_npz(p)
        if e["nnz"] != z.nnz:
            c.bad(f"{where}: nnz {e['nnz']} instead of {z.nnz}")
        if e["memory"] != z.data.nbytes + z.indptr.nbytes + z.indices.nbytes:
            c.bad(f"{where}: memory {e['memory']} is wrong")


def run_build(case, c):
    """One entry of each pair of grids, in a new inventory."""
    from earthkit.regrid.utils.builder import make_matrix

    d = os.getcwd()
    for k, (g_in, g_out, method) in enumerate(itertools.product([case["in"]], G, METHODS)):
        for opts in ({}, {"global_input": True, "global_output": True}):
            part = "part" in (g_in, g_out)
            if opts and part:
                opts = {"global_input": g_in != "part", "global_output": g_out != "part"}
            inv = os.path.join(d, f"inv{k}{len(opts)}")
            os.makedirs(inv)
            desc = write_weights(d, "w", (g_in, g_out, method), little=k % 2 == 0)
            before = open(desc).read()
            make_matrix(desc, inv, **opts)
            where = f"{g_in} -> {g_out} {method} {opts}"
            if open(desc).read() != before:
                c.bad(f"{where}: the description was changed")
            n = name_of(method)
            s = (g_in, g_out, method)
            others = [(g_in, g_out, x) for x in ("linear", "nearest-neighbour", "grid-box-average") if x != n]
            others += [(x, g_out, n) for x in G if x != g_in and G[x][1] == G[g_in][1]]
            others += [(g_in, x, n) for x in G if x != g_out]
            check_inventory(c, where, inv, {(g_in, g_out, n): (s, 0)}, others)
            check_description(c, where, inv, [s])
            from earthkit.regrid.array import regrid

            import numpy as np

            for a, b in ((G[g_in][4], G[g_out][3]), (G[g_in][3], G[g_out][4])):
                try:
                    regrid(np.zeros(G[g_in][1]), dict(a), dict(b), interpolation=n, backend="precomputed", inventory=inv)
                except Exception:
                    pass
                else:
                    c.bad(f"{where}: {a} -> {b} is answered although it is another grid")
            c.seen("build", where)
    c.sample = case


# builds of the histories: name -> (spec, salt, damaged)
BUILDS = {
    "A": (("30x30", "45x30", "linear"), 0, False),
    "A again": (("30x30", "45x30", "linear"), 3, False),
    "A damaged": (("30x30", "45x30", "linear"), 0, True),
    "A nn": (("30x30", "45x30", "nn"), 0, False),
    "A swapped": (("45x30", "30x30", "linear"), 0, False),
    "A box": (("30x30", "45x30", "box"), 0, False),
    "A box dict": (("30x30", "45x30", "box-dict"), 0, False),
    "B": (("O2", "30x30", "linear"), 0, False),
    "B damaged": (("O2", "30x30", "linear"), 0, True),
    "N": (("N16", "30x30", "linear"), 0, False),
    "H": (("H2", "30x30", "nn"), 0, False),
    "Hn": (("H2n", "30x30", "nn"), 0, False),
}


def universe_keys():
    return sorted({(s[0], s[1], name_of(s[2])) for s, _, _ in BUILDS.values()})


def run_history(case, c):
    """A sequence of builds into the same inventory: each entry has the weights built last."""
    from earthkit.regrid.utils.builder import make_matrix

    d = os.getcwd()
    inv = os.path.join(d, "inv")
    os.makedirs(inv)
    expected = {}
    entries = {}  # (input, output, interpolation) -> spec
    for i, b in enumerate(case["builds"]):
        s, salt, damaged = BUILDS[b]
        # all the histories of a process share its memory: new names
        desc = write_weights(d, f"w{i}", s, salt, damaged)
        kwargs = {}
        if case.get("index"):
            kwargs["index_file"] = os.path.join(inv, "index.json")
        key = (s[0], s[1], name_of(s[2]))
        try:
            make_matrix(desc, inv, **kwargs)
        except Exception:
            if not damaged:
                raise
        else:
            if damaged:
                c.bad(f"{case}: a damaged weight file was accepted")
            if s[2].startswith("box"):
                # two entries for the same request: the first is used
                first = [x for x in entries if (x[0], x[1], name_of(x[2])) == key]
                if not first:
                    expected[key] = (s, salt)
            else:
                expected[key] = (s, salt)
            entries[s] = salt
    if not os.path.exists(os.path.join(inv, "index.json")):
        if expected:
            c.bad(f"{case}: no index")
    else:
        absent = [k for k in universe_keys() if k not in expected]
        check_inventory(c, f"{case['builds']}", inv, expected, absent)
        check_description(c, f"{case['builds']}", inv, entries)
    c.seen("history", case["builds"], case.get("index"))


def run_history_group(case, c):
    from mc import core

    for rest in case["rest"]:
        sub = {"family": "history", "builds": case["first"] + rest, "index": case.get("index")}
        r = core.fork_call(run, sub, timeout=60)
        c.problems.extend(r["problems"])
        c.counts["evaluations"] += r["counts"]["evaluations"]
        c.distinct.update(r["distinct"])
    c.sample = case


WRONG_INDEX = {
    "version 2": json.dumps({"version": 2, "matrix": {}}),
    "no version": json.dumps({"matrix": {}}),
    "not json": '{"version": 1, "mat',
    "empty": "",
}


def run_wrong_index(case, c):
    """An index that is not of this version, or damaged, is neither used nor changed."""
    from earthkit.regrid.utils.builder import make_matrix

    d = os.getcwd()
    for name, text in WRONG_INDEX.items():
        inv = os.path.join(d, name.replace(" ", "-"))
        os.makedirs(inv)
        p = os.path.join(inv, "index.json")
        with open(p, "w") as f:
            f.write(text)
        try:
            make_matrix(write_weights(d, "w", BUILDS["A"][0]), inv)
        except Exception:
            pass
        else:
            c.bad(f"index with {name}: accepted")
        if open(p).read() != text:
            c.bad(f"index with {name}: changed")
        c.seen("wrong index", name)


# -- subset and copy

INVENTORY = ["A", "A nn", "A swapped", "B", "N", "H", "Hn"]


def full_inventory(path):
    from earthkit.regrid.utils.builder import make_matrix

    d = os.path.join(os.getcwd(), "src")
    os.makedirs(d, exist_ok=True)
    for b in INVENTORY:
        s, salt, _ = BUILDS[b]
        make_matrix(write_weights(d, b.replace(" ", "-"), s, salt), path)


def filters_of(names):
    r = []
    for n in names:
        if n == "missing":
            r.append({"input": {"grid": "O3"}, "output": {"grid": [30, 30]}, "method": "linear"})
        elif n == "bad":
            r.append({"input": {"grid": "X3"}, "output": {"grid": [30, 30]}})
        elif n == "A default":
            r.append({"input": dict(G["30x30"][3]), "output": dict(G["45x30"][3])})
        else:
            s = BUILDS[n][0]
            r.append({"input": dict(G[s[0]][3]), "output": dict(G[s[1]][3]), "method": name_of(s[2])})
    return r


def files_below(d):
    r = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(root, f), "rb") as g:
                r[os.path.relpath(os.path.join(root, f), d)] = g.read()
    return r


def run_subset(case, c):
    """A subset, made the way tools/subset does, answers exactly the entries asked for."""
    import importlib.util

    import yaml

    from earthkit.regrid.backends.db import MatrixDb

    from mc import core

    spec = importlib.util.spec_from_file_location("subset_remote_db", os.path.join(core.REPO, "tools", "subset", "subset_remote_db.py"))
    tool = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(tool)

    d = os.getcwd()
    src = os.path.join(d, "full")
    os.makedirs(src)
    full_inventory(src)
    before = files_below(src)
    tool.DB = MatrixDb.from_path(src)
    for k, names in enumerate(case["subsets"]):
        for fail in (True, False):
            out = os.path.join(d, f"out{k}{fail}")
            conf = os.path.join(d, "conf.yaml")
            with open(conf, "w") as f:
                yaml.safe_dump(filters_of(names), f)
            where = f"subset {names} fail_on_missing={fail}"
            lost = "missing" in names or "bad" in names
            try:
                tool.subset_remote_db(conf, out, strict=True, fail_on_missing=fail)
            except ValueError as e:
                if not (lost and fail) and "bad" not in names:
                    c.bad(f"{where}: {type(e).__name__}: {e}")
                ok = False
            else:
                if lost and fail:
                    c.bad(f"{where}: no error although an entry is missing")
                ok = True
            c.seen(where, ok)
            if not ok:
                continue
            got = {"A" if n == "A default" else n for n in names if n in BUILDS or n == "A default"}
            expected = {}
            for n in got:
                s, salt, _ = BUILDS[n]
                expected[(s[0], s[1], name_of(s[2]))] = (s, salt)
            absent = [x for x in universe_keys() if x not in expected]
            check_inventory(c, where, out, expected, absent)
            idx = json.loads(files_below(out)["index.json"])
            full = json.loads(before["index.json"])
            for name, e in idx["matrix"].items():
                if full["matrix"].get(name) != e:
                    c.bad(f"{where}: the entry {name} differs from the original one")
            if len(idx["matrix"]) != len(got):
                c.bad(f"{where}: {len(idx['matrix'])} entries instead of {len(got)}")
            if len(files_below(out)) != len(got) + 1:
                c.bad(f"{where}: files {sorted(files_below(out))}")
    if files_below(src) != before:
        c.bad("the original inventory was changed")
    c.sample = case


def run_copy(case, c):
    """copy_matrix_file with all its options, for a target which is new, the same file, or another one."""
    from earthkit.regrid.backends.db import MatrixDb

    d = os.getcwd()
    src = os.path.join(d, "full")
    os.makedirs(src)
    full_inventory(src)
    before = files_below(src)
    db = MatrixDb.from_path(src)
    for k, (b, exist_ok, dry_run, target) in enumerate(
        itertools.product(INVENTORY, (True, False), (True, False), ("new", "old", "same"))
    ):
        s = BUILDS[b][0]
        where = f"copy {b} {exist_ok=} {dry_run=} target={target}"
        index = db.subset_index(filters_of([b]))
        (entry,) = index.values()
        out = os.path.join(d, f"copy{k}")
        os.makedirs(out)
        rel = db._matrix_index_path(entry)
        data = before[rel]
        if target != "new":
            os.makedirs(os.path.dirname(os.path.join(out, rel)))
            with open(os.path.join(out, rel), "wb") as f:
                f.write(data if target == "same" else b"other")
        state = files_below(out)
        try:
            r = db.copy_matrix_file(entry, out, exist_ok=exist_ok, dry_run=dry_run)
        except FileExistsError:
            if exist_ok or dry_run or target == "new":
                c.bad(f"{where}: FileExistsError")
            want = state
        else:
            if not (exist_ok or dry_run or target == "new"):
                c.bad(f"{where}: no error although the file exists")
            if os.path.relpath(r, out) != rel:
                c.bad(f"{where}: returns {r}")
            want = state if dry_run else {rel: data}
        if files_below(out) != want:
            c.bad(f"{where}: the target directory has {[(f, len(x)) for f, x in files_below(out).items()]}")
        c.seen(where)
    if files_below(src) != before:
        c.bad("the original inventory was changed")


def run_merge(case, c):
    """Indexes merged the way tools/manage does: all the entries of both, or an error."""
    import importlib.util

    from earthkit.regrid.backends.db import MatrixIndex

    from mc import core

    spec = importlib.util.spec_from_file_location("merge_index", os.path.join(core.REPO, "tools", "manage", "merge_index.py"))
    tool = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(tool)

    d = os.getcwd()
    src = os.path.join(d, "full")
    os.makedirs(src)
    full_inventory(src)
    with open(os.path.join(src, "index.json")) as f:
        full = json.load(f)
    names = sorted(full["matrix"])[:4]
    subsets = [s for n in range(4) for s in itertools.combinations(names, n)]
    for k, (new, system, dry_run) in enumerate(itertools.product(subsets, [None, *subsets], (False, True))):
        where = f"merge {[names.index(n) for n in new]} with {None if system is None else [names.index(n) for n in system]}{' dry run' if dry_run else ''}"
        w = os.path.join(d, f"merge{k}")
        os.makedirs(os.path.join(w, "in"))
        paths = {"in/index.json": new}
        if system is not None:
            paths["system.json"] = system
        for p, s in paths.items():
            with open(os.path.join(w, p), "w") as f:
                json.dump(dict(version=full["version"], matrix={n: full["matrix"][n] for n in s}), f)
        before = files_below(w)
        both = set(new) & set(system or ())
        try:
            tool.merge(
                os.path.join(w, "in"),
                os.path.join(w, "result.json"),
                system_file=None if system is None else os.path.join(w, "system.json"),
                dry_run=dry_run,
            )
        except Exception as e:
            c.seen(where, type(e).__name__)
            if not both:
                c.bad(f"{where}: {type(e).__name__}: {e}")
            continue
        after = files_below(w)
        result = after.pop("result.json", None)
        c.seen(where, result is not None)
        if after != before:
            c.bad(f"{where}: the given files were changed")
        if (result is None) != dry_run:
            c.bad(f"{where}: {'no' if result is None else 'a'} result")
        if result is None:
            continue
        index = MatrixIndex()
        index.load(os.path.join(w, "result.json"))
        want = {n: full["matrix"][n] for n in (*new, *(system or ()))}
        if json.loads(result)["matrix"] != want or set(index) != set(want):
            c.bad(f"{where}: the result has the entries {[names.index(n) for n in index]}")
    c.sample = case


# -- kills

KILLS = {
    "first": ([], "A"),
    "second": (["B"], "A"),
    "same": (["B", "A"], "A again"),
    "third": (["B", "N"], "Hn"),
}


def build_all(names, tag):
    from earthkit.regrid.utils.builder import make_matrix

    d = os.getcwd()
    for b in names:
        s, salt, _ = BUILDS[b]
        make_matrix(write_weights(d, tag + b.replace(" ", "-"), s, salt), os.path.join(d, "inv"))


def killed(name, k, log=False):
    from mc import crash

    setup()
    before, last = KILLS[name]
    d = os.getcwd()
    os.makedirs(os.path.join(d, "inv"), exist_ok=True)
    build_all(before, "b")
    s, salt, _ = BUILDS[last]
    desc = write_weights(d, "last", s, salt)
    crash.GRAIN = 1 if os.environ.get("VERIF_TIER") == "thorough" else 60
    seen = crash.observe([os.path.join(d, "inv")]) if log else None

    import scipy.sparse._matrix_io as io_mod

    def main():
        from earthkit.regrid.utils.builder import make_matrix

        make_matrix(desc, os.path.join(d, "inv"))

    n, failure = crash.run(main, k, prefixes=[io_mod.__file__])
    return n, failure, seen


def after_kill(name, case):
    setup()
    c = Check()
    before, last = KILLS[name]
    inv = os.path.join(os.getcwd(), "inv")
    keys = {}
    for b in before:
        s, salt, _ = BUILDS[b]
        keys[(s[0], s[1], name_of(s[2]))] = (s, salt)
    s, salt, _ = BUILDS[last]
    key = (s[0], s[1], name_of(s[2]))
    exists = os.path.exists(os.path.join(inv, "index.json"))
    if before and not exists:
        c.bad(f"{case}: the index is lost")
    if exists:
        # the weights of the killed build: the old ones, the new ones, or an error
        others = {k: v for k, v in keys.items() if k != key}
        check_inventory(c, f"{case}", inv, others, [])
        from earthkit.regrid.array import regrid

        import numpy as np

        r = query(inv, *key, regrid)
        if r[0] == "ok":
            ok = False
            for spec_, salt_ in {keys.get(key, (s, salt)), (s, salt)}:
                rows, cols, items = weights(*spec_, salt_)
                ok |= np.array_equal(r[1], dense(rows, cols, items, 8) @ ((np.arange(cols) * 11) % 23 - 8.0))
            if not ok:
                c.bad(f"{case}: wrong weights after the kill")
    return c.problems


def rebuilt(name, case):
    setup()
    c = Check()
    before, last = KILLS[name]
    build_all([last], "again")
    keys = {}
    for b in [*before, last]:
        s, salt, _ = BUILDS[b]
        keys[(s[0], s[1], name_of(s[2]))] = (s, salt)
    inv = os.path.join(os.getcwd(), "inv")
    check_inventory(c, f"{case}, built again", inv, keys, [x for x in universe_keys() if x not in keys])
    check_description(c, f"{case}, built again", inv, keys)
    return c.problems


def kill_reference(name):
    from mc import core

    n, failure, seen = core.fork_call(killed, name, 0, True, scratch=os.getcwd(), own_dirs=False)
    if failure:
        raise RuntimeError(f"{name}: {failure}")
    return {"points": n, "kills": [k for k, _ in seen] + [n + 1]}


def run_kill(case, c):
    from mc import core

    d = os.getcwd()
    try:
        core.fork_call(killed, case["name"], case["kill"], scratch=d, own_dirs=False, timeout=60)
    except core.ChildDied:
        pass
    c.problems += core.fork_call(after_kill, case["name"], case, scratch=d, own_dirs=False, timeout=60)
    c.problems += core.fork_call(rebuilt, case["name"], case, scratch=d, own_dirs=False, timeout=60)
    c.seen("kill", case["name"], case["kill"])
    c.counts["kills"] = c.counts.get("kills", 0) + 1


RUN = {
    "decode": run_decode,
    "large": run_large,
    "truncate": run_truncate,
    "tags": run_tags,
    "sizes": run_sizes,
    "lengths": run_lengths,
    "native": run_native,
    "build": run_build,
    "history": run_history,
    "history-group": run_history_group,
    "wrong-index": run_wrong_index,
    "subset": run_subset,
    "copy": run_copy,
    "merge": run_merge,
    "kill": run_kill,
}


def run(case):
    import contextlib
    import io

    setup()
    c = Check()
    if case["family"] == "kill":
        run_kill(case, c)
    else:
        with contextlib.redirect_stdout(io.StringIO()):
            RUN[case["family"]](case, c)
    return c.result()


replay = run


def cases(thorough):
    n = 12 if thorough else 9
    for rows, cols in itertools.product(range(1, 5), range(1, 5)):
        if rows * cols > n:
            continue
        for le, s in ENC:
            total = 1 << (rows * cols)
            for start in range(0, total, 512):
                case = dict(family="decode", rows=rows, cols=cols, little=le, size=s)
                if total > 512:
                    case["masks"] = list(range(start, start + 512))
                yield case
    for le, s in ENC:
        for name in LARGE:
            yield dict(family="large", name=name, little=le, size=s)
        for base in BASES:
            for f in ("truncate", "tags", "sizes", "lengths"):
                yield dict(family=f, base=base, little=le, size=s)
    for m in NATIVE_METHODS:
        for g in GRIDS:
            yield dict(family="native", method=m, pairs=[[g, h] for h in GRIDS])
    for g in G:
        yield dict(family="build", **{"in": g})
    names = list(BUILDS)
    for first in names:
        rest = [[]] + [[x] for x in names]
        yield dict(family="history-group", first=[first], rest=rest)
        yield dict(family="history-group", first=[first], rest=rest, index=True)
        for second in names:
            if thorough:
                yield dict(family="history-group", first=[first, second], rest=[[x] for x in names])
            elif len({first, second} & {"A", "A again", "A damaged", "B", "A nn"}) == 2 or first == second:
                yield dict(family="history-group", first=[first, second], rest=[[x] for x in ("A", "A again", "A damaged", "B", "Hn")])
    yield dict(family="wrong-index")
    choice = INVENTORY + ["missing", "bad", "A default"]
    subsets = [[]]
    for k in (1, 2, 3):
        subsets += [list(x) for x in itertools.combinations(choice, k)]
    subsets += [["A", "A"], ["B", "A"], list(INVENTORY), list(INVENTORY[::-1])]
    for i in range(0, len(subsets), 20):
        yield dict(family="subset", subsets=subsets[i : i + 20])
    yield dict(family="copy")
    yield dict(family="merge")


def explore(ctx):
    from mc import core

    ctx.run_cases(run, ((c["family"], c) for c in cases(ctx.thorough)), timeout=200)
    if ctx.violations:
        return
    kills = []
    for name in KILLS:
        kind, ref = core.run_isolated(kill_reference, (name,), 120)
        if kind != "ok":
            raise RuntimeError(f"kill {name}: {ref}")
        ctx.counts["kill_points"] += ref["points"]
        kills += [("kill", dict(family="kill", name=name, kill=k)) for k in ref["kills"]]
    ctx.run_cases(run, kills, timeout=120)
