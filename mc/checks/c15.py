"""C15: regridding field objects and GRIB data equals regridding their values.

All combinations of the values of several groups of dimensions of the input space (content and packing of the
fields, where they come from, container, target grid, method, backend) and all lists of fields up to a length.
Each is run with the real earthkit-data, ecCodes and MIR. Oracles: for messages as they were read, the same
computation requested directly from MIR, byte for byte; for every field the array-level result of its values
within the precision of the packing; for weights the exact product with the matrix; for the metadata the
description of the target grid calculated here and the keys of the input field.
"""

import itertools
import os

LEVEL = "exploration"
RULE = "one evaluation = one regridded list, field or message; distinct = distinct combinations"
ASSUMPTIONS = [
    "array-level regridding is right (C01, C16)",
    "MIR decodes and encodes GRIB messages rightly",
    "points of grids that are not regular are those of the grid library",
]
PRELOAD = ["mir", "eccodes", "earthkit.data", "earthkit.data.readers.grib.memory"]

LL = {"grid": [30, 30]}
# name: (edition, keys, grid, changes)
KINDS = {
    "a2": (2, {}, "ll", ""),
    "b2": (2, {"level": 500, "shortName": "q", "date": 20200229, "time": 1800, "step": 6}, "ll", ""),
    "a1": (1, {"level": 700}, "ll", ""),
    "b1": (1, {"setLocalDefinition": 1, "number": 3, "step": 12}, "ll", ""),
    "c2": (2, {"packingType": "grid_ccsds", "bitsPerValue": 16}, "ll", ""),
    "k2": (2, {}, "ll", "constant"),
    "m2": (2, {"level": 850}, "ll", "missing"),
    "m1": (1, {"level": 850}, "ll", "missing"),
    "w2": (2, {"level": 800}, "ll", "missing all"),
    "j2": (2, {}, "ll", "south to north"),
    "p2": (2, {}, "part", ""),
    "q2": (2, {}, "sq", ""),
    "o2": (2, {"level": 925}, "gg", ""),
    "o1": (1, {"level": 925}, "gg", ""),
    "f2": (2, {}, "rgg", ""),
    "h2": (2, {"level": 300}, "hp", ""),
    "n2": (2, {"level": 300}, "hpn", ""),
    "big": (2, {}, "big", ""),
}
GRIDS = {
    "ll": {"grid": [30, 30]},
    "sq": {"grid": [60, 45]},
    "part": {"grid": [30, 30], "area": [90, 0, 0, 90]},
    "gg": {"grid": "O2"},
    "rgg": {"grid": "F2"},
    "hp": {"grid": "H2"},
    "hpn": {"grid": "H2", "order": "nested"},
    "big": {"grid": "O32"},
}
OUT = {
    "ll45": {"grid": [45, 45]},
    "ll30": {"grid": [30, 30]},
    "ll60": {"grid": [60, 45]},
    "area": {"grid": [15, 15], "area": [60, 0, 0, 90]},
    "gg": {"grid": "O2"},
    "hp": {"grid": "H2"},
    "hpn": {"grid": "H2", "order": "nested"},
}
FORMS = ["file", "mem", "clone", "clonekeys", "clonemem", "copy", "numpy", "f4"]
PRE = [
    ("ll", "ll45", "linear"),
    ("ll", "ll30", "nearest-neighbour"),
    ("ll", "ll60", "grid-box-average"),
    ("sq", "ll45", "linear"),
    ("gg", "ll45", "linear"),
    ("hp", "ll45", "linear"),
    ("hpn", "ll45", "linear"),
    ("hpn", "ll30", "nearest-neighbour"),
    ("big", "ll30", "linear"),
]
KEYS = ("shortName", "paramId", "levelist", "typeOfLevel", "date", "time", "step", "number", "edition")


def points(spec):
    """-> (shape, latitudes, longitudes) of all points"""
    import mir
    import numpy as np

    g = spec["grid"]
    if isinstance(g, list):
        dx, dy = g
        n, w, s, e = spec.get("area") or (90, 0, -90, 360 - dx)
        lat = n - dy * np.arange(int(round((n - s) / dy)) + 1)
        lon = w + dx * np.arange(int(round((e - w) / dx)) + 1)
        a, b = np.meshgrid(lat, lon, indexing="ij")
        return a.shape, a.ravel(), b.ravel()
    lat, lon = mir.Grid(**spec).to_latlons()
    return (len(lat),), np.array(lat), np.array(lon)


def inventory(path):
    from mc import inv

    es = []
    for k, (i, o, m) in enumerate(PRE):
        n_in = len(points(GRIDS[i])[1])
        shape, lat, _ = points(OUT[o])
        es.append(inv.entry(GRIDS[i], dict(OUT[o], shape=list(shape)), m, inv.int_matrix(len(lat), n_in, k)))
    return inv.write(path, es)


def direct(message, grid, **options):
    """The computation requested from MIR without earthkit-regrid."""
    from io import BytesIO

    import mir

    out = BytesIO()
    job = mir.Job()
    grid = dict(grid)
    area = grid.pop("area", None)
    job.set("grid", grid)
    if area is not None:
        job.set("area", "/".join(str(x) for x in area))
    o = {"interpolation": "linear", "distance": 1.0, "distance_tolerance": 1.0, "nclosest": 4}
    o.update(options)
    for k, v in o.items():
        job.set(k.replace("-", "_"), v)
    job.execute(mir.GribMemoryInput(message), out)
    return out.getvalue()


class Fields:
    """The fields of the scope, made once per process."""

    def __init__(self):
        self.messages = {}
        self.fields = {}
        self.refs = {}

    def message(self, kind):
        if kind not in self.messages:
            self.messages[kind] = self.make(kind)
        return self.messages[kind]

    def make(self, kind):
        import eccodes as ec
        import numpy as np

        edition, keys, grid, change = KINDS[kind]
        if grid == "big":
            from mc import core

            with open(os.path.join(core.REPO, "tests", "data", "o32.grib2"), "rb") as f:
                return f.read()
        base = grid if isinstance(GRIDS[grid]["grid"], list) else "ll"
        spec = GRIDS[base]
        dx, dy = spec["grid"]
        n, w, s, e = spec.get("area") or (90, 0, -90, 360 - dx)
        h = ec.codes_grib_new_from_samples(f"regular_ll_pl_grib{edition}")
        try:
            for k, v in dict(
                iDirectionIncrementInDegrees=dx,
                jDirectionIncrementInDegrees=dy,
                latitudeOfFirstGridPointInDegrees=n,
                latitudeOfLastGridPointInDegrees=s,
                longitudeOfFirstGridPointInDegrees=w,
                longitudeOfLastGridPointInDegrees=e,
                Ni=int(round((e - w) / dx)) + 1,
                Nj=int(round((n - s) / dy)) + 1,
                **{k: v for k, v in keys.items() if k != "packingType"},
            ).items():
                ec.codes_set(h, k, v)
            nv = ec.codes_get(h, "Ni") * ec.codes_get(h, "Nj")
            k = sorted(KINDS).index(kind)
            v = ((np.arange(nv) * (37 + 2 * k) + k) % 101 - 30.0) / 3
            if change == "constant":
                v[:] = 17.25
            if change.startswith("missing"):
                ec.codes_set(h, "bitmapPresent", 1)
                ec.codes_set(h, "missingValue", 9999.0)
                v[[3, 40] if change == "missing" else slice(None)] = 9999.0
            if change == "south to north":
                ec.codes_set(h, "jScansPositively", 1)
                ec.codes_set(h, "latitudeOfFirstGridPointInDegrees", s)
                ec.codes_set(h, "latitudeOfLastGridPointInDegrees", n)
            ec.codes_set_values(h, v)
            if "packingType" in keys:
                ec.codes_set(h, "packingType", keys["packingType"])
            m = ec.codes_get_message(h)
        finally:
            ec.codes_release(h)
        if grid != base:
            m = direct(m, GRIDS[grid])
        return m

    def field(self, kind, form):
        """-> a field; values changed in memory for some forms"""
        if (kind, form) not in self.fields:
            self.fields[kind, form] = self.make_field(kind, form)
        return self.fields[kind, form]

    def from_file(self, kinds):
        import earthkit.data as ekd

        p = os.path.abspath("f-" + "-".join(kinds) + ".grib")
        if not os.path.exists(p):
            with open(p, "wb") as f:
                for k in kinds:
                    f.write(self.message(k))
        return ekd.from_source("file", p)

    def make_field(self, kind, form):
        import earthkit.data as ekd

        if form == "file":
            return self.from_file([kind])[0]
        mem = ekd.from_source("memory", self.message(kind))[0]
        if form == "mem":
            return mem
        v = self.changed(mem.to_numpy())
        if form == "clone":
            return self.field(kind, "file").clone(values=v, levelist=200)
        if form == "clonekeys":
            return self.field(kind, "file").clone(levelist=150, step=24)
        if form == "clonemem":
            return mem.clone(values=v).clone(levelist=250)
        if form == "copy":
            return mem.copy(values=v)
        if form == "numpy":
            return ekd.FieldList.from_numpy(v, mem.metadata().override(level=400))[0]
        if form == "f4":
            return ekd.FieldList.from_array(v.astype("f4"), mem.metadata())[0]
        raise ValueError(form)

    def with_values(self, kind, v):
        """The message of a field with other values."""
        import eccodes as ec
        import numpy as np

        h = ec.codes_new_from_message(self.message(kind))
        try:
            ec.codes_set(h, "bitmapPresent", 1)
            ec.codes_set(h, "missingValue", 9999.0)
            ec.codes_set_values(h, np.where(np.isnan(v), 9999.0, v))
            return ec.codes_get_message(h)
        finally:
            ec.codes_release(h)

    @staticmethod
    def decode(message):
        import eccodes as ec
        import numpy as np

        h = ec.codes_new_from_message(message)
        try:
            v = np.array(ec.codes_get_values(h))
            if ec.codes_get(h, "bitmapPresent"):
                v[v == ec.codes_get(h, "missingValue")] = np.nan
        finally:
            ec.codes_release(h)
        return v

    @staticmethod
    def changed(v):
        """Other values, with another range."""
        import numpy as np

        k = (np.arange(v.size) % 7).reshape(v.shape)
        return v * 2.0 + k

    def values(self, kind, form):
        """The values of a field from north to south, from what it was made of."""
        import numpy as np

        v = self.decode(self.message(kind))
        if form not in ("file", "mem", "clonekeys"):
            v = self.changed(v)
        if form == "f4":
            v = v.astype("f4").astype("f8")
        if KINDS[kind][3] == "south to north":
            v = np.ascontiguousarray(v.reshape(7, 12)[::-1]).ravel()
        return v

    def reference(self, kind, form, out, opts):
        """-> (message or None, values, tolerance)"""
        key = (kind, form, out, repr(sorted(opts.items())))
        if key not in self.refs:
            self.refs[key] = self.make_reference(kind, form, out, opts)
        return self.refs[key]

    def make_reference(self, kind, form, out, opts):
        import numpy as np

        from earthkit.regrid.array import regrid

        m = None
        if form in ("file", "mem"):
            m = direct(self.message(kind), OUT[out], **opts)
        v = self.values(kind, form)
        if KINDS[kind][3].startswith("missing"):
            # MIR handles missing values in messages only
            r = self.decode(direct(self.with_values(kind, v), OUT[out], **opts))
        else:
            r, _ = regrid(v, GRIDS[KINDS[kind][2]], dict(OUT[out]), **opts)
        bits = KINDS[kind][1].get("bitsPerValue", 16 if kind == "big" else 24)
        if np.isnan(v).all():
            return m, np.asarray(r).ravel(), 0.0
        span = np.nanmax(v) - np.nanmin(v)
        # packed twice; the reference value is a 32-bit number
        tol = 3 * span / 2**bits + 4e-7 * np.nanmax(np.abs(v))
        return m, np.asarray(r).ravel(), tol


class Check:
    def __init__(self):
        import collections

        self.problems = []
        self.counts = collections.Counter()
        self.distinct = set()

    def bad(self, case, text):
        if len(self.problems) < 20:
            self.problems.append(f"{case}: {text}")


def expected_keys(fields, kind, form):
    """The values of the keys that do not depend on the grid, from what the field was made of."""
    import eccodes as ec

    r = {}
    h = ec.codes_new_from_message(fields.message(kind))
    try:
        for k in KEYS:
            try:
                r[k] = ec.codes_get(h, {"levelist": "level", "step": "endStep"}.get(k, k))
            except ec.KeyValueNotFoundError:
                r[k] = None
    finally:
        ec.codes_release(h)
    for k, v in {"clone": {"levelist": 200}, "clonekeys": {"levelist": 150, "step": 24}, "clonemem": {"levelist": 250}, "numpy": {"levelist": 400}}.get(form, {}).items():
        r[k] = v
    return r


def check_keys(c, case, fields, kind, form, got):
    want = expected_keys(fields, kind, form)
    for k in KEYS:
        if want[k] is None:
            continue
        v = got.metadata(k, default=None)
        if str(v) != str(want[k]):
            c.bad(case, f"{k}={v!r} instead of {want[k]!r}")


def check_geography(c, case, out, got, latlon):
    import numpy as np

    shape, lat, lon = points(OUT[out])
    if got.to_numpy(flatten=True).size != len(lat):
        c.bad(case, f"{got.to_numpy(flatten=True).size} values instead of {len(lat)}")
        return
    if isinstance(OUT[out]["grid"], list) and got.to_numpy().shape != shape:
        c.bad(case, f"shape {got.to_numpy().shape} instead of {shape}")
    spec = dict(got.metadata().gridspec)
    g = OUT[out]["grid"]
    same = spec.get("grid") == g if isinstance(g, str) else [float(x) for x in spec.get("grid")] == [float(x) for x in g]
    if not same or (out in ("hp", "hpn") and spec.get("order") != ("nested" if out == "hpn" else "ring")):
        c.bad(case, f"described as {spec}")
    if isinstance(g, list):
        area = [lat.max(), lon.min(), lat.min(), lon.max()]
        if not np.allclose(spec.get("area"), area):
            c.bad(case, f"described as {spec}")
    if latlon:
        p = got.to_latlon(flatten=True)
        d = (p["lon"] - lon + 180) % 360 - 180
        if not np.allclose(p["lat"], lat, atol=2e-3) or not np.allclose(d, 0, atol=2e-3):
            c.bad(case, "the points are not those of the target grid")


def check_field(c, case, fields, kind, form, out, opts, got, latlon=True):
    """A field computed by MIR."""
    import numpy as np

    m, v, tol = fields.reference(kind, form, out, opts)
    if m is not None and got.message() != m:
        c.bad(case, f"{kind}-{form}: not the message MIR gives")
    g = got.to_numpy(flatten=True)
    if g.shape != v.shape:
        c.bad(case, f"{kind}-{form}: {g.size} values instead of {v.size}")
    else:
        a, b = np.isnan(g), np.isnan(v)
        if not np.array_equal(a, b):
            c.bad(case, f"{kind}-{form}: {a.sum()} missing values instead of {b.sum()}")
        elif not a.all():
            d = np.nanmax(np.abs(g - v))
            if d > tol:
                c.bad(case, f"{kind}-{form}: differs by {d} from the array-level result, precision {tol}")
    if KINDS[kind][2] != "part":  # the result covers the common area only
        check_geography(c, case, out, got, latlon)
    check_keys(c, case, fields, kind, form, got)


def check_product(c, case, fields, kind, form, out, opts, got, path):
    """A field computed with weights."""
    import numpy as np

    from mc import inv

    g = KINDS[kind][2]
    k = PRE.index((g, out, opts["interpolation"]))
    n_in = len(points(GRIDS[g])[1])
    n_out = len(points(OUT[out])[1])
    want = inv.product(inv.int_matrix(n_out, n_in, k), fields.values(kind, form))
    v = got.to_numpy(flatten=True)
    if v.shape != want.shape or not np.allclose(v, want, rtol=1e-6 if form == "f4" else 1e-12, atol=0, equal_nan=True):
        c.bad(case, f"{kind}-{form}: not the product with the matrix")
    check_geography(c, case, out, got, True)
    check_keys(c, case, fields, kind, form, got)


def snapshot(fs):
    r = []
    for f in fs:
        m = f.message() if type(f).__name__.startswith("Grib") else None
        r.append((m, f.to_numpy().tobytes(), f.to_numpy().shape, [f.metadata(k, default=None) for k in KEYS], repr(f.metadata().gridspec)))
    return r


def call(c, case, fn, x, out, opts):
    """Call without the arguments being modified."""
    target = dict(OUT[out])
    before, kb = repr(target), repr(opts)
    kw = dict(opts)
    c.counts["evaluations"] += 1
    c.distinct.add(repr(case))
    r = fn(x, target, **kw) if case.get("positional") else fn(x, grid=target, **kw)
    if repr(target) != before or repr(kw) != kb:
        c.bad(case, "the arguments were modified")
    return r


def possible(kind, form, out):
    if KINDS[kind][0] == 1 and out in ("hp", "hpn"):
        return False  # not in this edition
    if kind == "j2" and out == "ll30":
        return False  # on the target grid, MIR keeps the order of the points
    return True


def make_list(fields, atoms, container):
    import earthkit.data as ekd

    fs = [fields.field(k, f) for k, f in atoms]
    if container == "fields":
        return ekd.FieldList.from_fields(fs)
    if container == "sum":
        r = ekd.FieldList()
        for f in fs:
            r += ekd.FieldList.from_fields([f])
        return r
    if container == "file":
        return fields.from_file([k for k, _ in atoms])
    if container == "memory":
        return ekd.from_source("memory", b"".join(fields.message(k) for k, _ in atoms))
    if container == "multi":
        a, b = atoms[:1], atoms[1:]
        return fields.from_file([k for k, _ in a]) + fields.from_file([k for k, _ in b])
    raise ValueError(container)


def run_list(c, fields, case, regrid, path):
    atoms = [tuple(a) for a in case["atoms"]]
    out, opts = case["out"], dict(case.get("opts") or {})
    x = make_list(fields, atoms, case.get("container", "fields"))
    sub = case.get("sub")
    if sub:
        n = len(atoms)
        if sub == "reversed":
            idx = list(range(n))[::-1]
            x = x[idx]
        elif sub == "tail":
            idx = list(range(1, n))
            x = x[1:]
        elif sub == "step":
            idx = list(range(0, n, 2))
            x = x[::2]
        elif sub == "none":
            idx = []
            x = x[0:0]
        elif sub == "order":
            lev = [int(f.metadata("levelist")) for f in x]
            idx = sorted(range(n), key=lambda i: lev[i])
            x = x.order_by("levelist")
        elif sub == "sel":
            idx = [i for i in range(n) if int(x[i].metadata("levelist")) >= 700]
            x = x.sel(levelist=lambda v: v >= 700)
        elif sub == "fieldlist":
            idx = list(range(n))
            x = x.to_fieldlist()
        atoms = [atoms[i] for i in idx]
        if sub == "fieldlist":
            atoms = [(k, "to_array") for k, _ in atoms]
    run_fields(c, fields, case, regrid, path, x, atoms, out, opts)


def run_fields(c, fields, case, regrid, path, x, atoms, out, opts):
    import earthkit.data as ekd

    before = snapshot(x)
    b = case.get("backend")
    kw = dict(opts)
    if b:
        kw.update(backend="precomputed", inventory=path)
    got = call(c, case, regrid, x, out, kw)
    if not isinstance(got, ekd.FieldList):
        c.bad(case, f"the result is a {type(got)}")
        return
    if len(got) != len(atoms) or len(list(got)) != len(atoms):
        c.bad(case, f"{len(got)} fields instead of {len(atoms)}")
        return
    for i, (kind, form) in enumerate(atoms):
        f = got[i]
        if not isinstance(f, ekd.Field):
            c.bad(case, f"element {i} is a {type(f)}")
        elif b:
            check_product(c, case, fields, kind, form, out, opts, f, path)
        else:
            check_field(c, case, fields, kind, form, out, opts, f, latlon=len(atoms) < 2)
    if snapshot(x) != before:
        c.bad(case, "the input was modified")


def run_field(c, fields, case, regrid, path):
    import earthkit.data as ekd

    kind, form = case["atom"]
    out, opts = case["out"], dict(case.get("opts") or {})
    f = fields.field(kind, form)
    kw = dict(opts)
    if case.get("backend"):
        kw.update(backend="precomputed", inventory=path)
    before = snapshot([f])
    got = call(c, case, regrid, f, out, kw)
    if not isinstance(got, ekd.Field):
        c.bad(case, f"the result is a {type(got)}")
        return
    if case.get("backend"):
        check_product(c, case, fields, kind, form, out, opts, got, path)
    else:
        check_field(c, case, fields, kind, form, out, opts, got)
    if snapshot([f]) != before:
        c.bad(case, "the input was modified")


def run_message(c, fields, case, regrid, path):
    from io import BytesIO

    import earthkit.data as ekd

    kind = case["atom"][0]
    out, opts = case["out"], dict(case.get("opts") or {})
    m = fields.message(kind)
    x = m
    if case["container"] == "buffer":
        x = BytesIO(m)
        x.seek({"start": 0, "middle": len(m) // 2, "end": len(m)}[case["position"]])
        at = x.tell()
    if case["container"] == "padded":
        x = m + bytes(20)
    got = call(c, case, regrid, x, out, opts)
    if not isinstance(got, bytes):
        c.bad(case, f"the result is a {type(got)}")
        return
    if case["container"] == "buffer" and (x.getvalue() != m or x.tell() != at):
        c.bad(case, "the input was modified")
    fl = ekd.from_source("memory", got)
    if len(fl) != 1:
        c.bad(case, f"{len(fl)} fields")
        return
    check_field(c, case, fields, kind, "mem", out, opts, fl[0])


def run_interpolate(c, fields, case, path):
    """The old function, for lists of fields."""
    import warnings

    import earthkit.data as ekd

    from earthkit.regrid import interpolate

    atoms = [tuple(a) for a in case["atoms"]]
    out, method = case["out"], case["method"]
    x = make_list(fields, atoms, "fields")
    before = snapshot(x)
    grids = {KINDS[k][2] for k, _ in atoms}
    given = dict(GRIDS[grids.pop()]) if case["given"] and len(grids) == 1 else None
    target = dict(OUT[out])
    c.counts["evaluations"] += 1
    c.distinct.add(repr(case))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = interpolate(x, in_grid=given, out_grid=target, method=method, matrix_source=path)
    if not isinstance(got, ekd.FieldList) or len(got) != len(atoms):
        c.bad(case, f"the result is a {type(got)} of {len(got)}")
        return
    for i, (kind, form) in enumerate(atoms):
        check_product(c, case, fields, kind, form, out, {"interpolation": method}, got[i], path)
    if snapshot(x) != before:
        c.bad(case, "the input was modified")
    if target != OUT[out]:
        c.bad(case, "the arguments were modified")


def run_errors(c, fields, regrid, path):
    import warnings
    from io import BytesIO

    import numpy as np

    import earthkit.data as ekd

    from earthkit.regrid import interpolate
    from earthkit.regrid.array import regrid as array_regrid

    m, m1 = fields.message("a2"), fields.message("a1")
    fl = fields.from_file(["a2", "b2"])
    f = fl[0]
    t = {"grid": [45, 45]}
    pre = dict(backend="precomputed", inventory=path)
    nogrid = ekd.from_source(
        "list-of-dicts",
        [dict(shortName="t", levelist=500, values=np.arange(84.0).reshape(7, 12), latitudes=np.arange(90, -91, -30.0), longitudes=np.arange(0, 360, 30.0))],
    )
    v = f.to_numpy(flatten=True)
    bad = {}
    for name, x in {"list": fl, "field": f, "bytes": m, "buffer": BytesIO(m)}.items():
        bad.update(
            {
                f"{name}, no target": (x, {}),
                f"{name}, target None": (x, dict(grid=None)),
                f"{name}, unknown target": (x, dict(grid={"grid": "Z9"})),
                f"{name}, unknown method": (x, dict(grid=t, interpolation="x")),
                f"{name}, unknown option": (x, dict(grid=t, x=1)),
                f"{name}, unknown nearest method": (x, dict(grid=t, interpolation="k-nearest-neighbours", nearest_method="x")),
                f"{name}, unknown backend": (x, dict(grid=t, backend="x")),
                f"{name}, no backend": (x, dict(grid=t, backend=None)),
            }
        )
        for o in ("gg", "hp", "hpn", "area"):
            bad[f"{name}, precomputed to {o}"] = (x, dict(grid=dict(OUT[o]), **pre))
        bad[f"{name}, no weights"] = (x, dict(grid={"grid": [20, 20]}, **pre))
        bad[f"{name}, no weights for the method"] = (x, dict(grid={"grid": [30, 30]}, **pre))
        bad[f"{name}, no inventory"] = (x, dict(grid=t, backend="precomputed", inventory=path + "-none"))
        if name in ("bytes", "buffer"):
            bad[f"{name}, precomputed"] = (x, dict(grid=t, **pre))
    for k in ("p2", "j2", "f2"):
        bad[f"precomputed {k}"] = (fields.field(k, "file"), dict(grid=t, **pre))
    bad["precomputed, second field without weights"] = (fields.from_file(["a2", "p2"]), dict(grid=t, **pre))
    bad["no GRIB"] = (nogrid, dict(grid=t))
    bad["no GRIB, field"] = (nogrid[0], dict(grid=t))
    for x in (v, v.tolist(), None, "x", 1, {"a": 1}, [f], (f,), [m], bytearray(m), memoryview(m), object()):
        bad[f"type {type(x).__name__} {str(type(x[0])) if isinstance(x, (list, tuple)) else ''}"] = (x, dict(grid=t))
    for n, x in {
        "empty": b"",
        "text": b"abc",
        "start": b"GRIB",
        "header 1": b"GRIB" + bytes(3) + b"\1",
        "header 2": b"GRIB" + bytes(3) + b"\2" + bytes(8),
        "end": m[:16] + b"7777",
        "leading": b"x" + m,
        "two": m + m,
        "two, mixed": m + m1,
        "two, padded": m1 + bytes(7) + m,
        "three": m1 + m + m1,
    }.items():
        bad[f"message {n}"] = (x, dict(grid=t))
        bad[f"message {n} in a buffer"] = (BytesIO(x), dict(grid=t))
    for x, n in ((m, "2"), (m1, "1")):
        for cut in range(len(x)):
            bad[f"message {n} cut at {cut}"] = (x[:cut], dict(grid=t))
    for name, (x, kw) in bad.items():
        c.counts["evaluations"] += 1
        try:
            r = regrid(x, **kw)
        except Exception as e:
            c.distinct.add(f"error {name} {type(e).__name__}")
        else:
            c.bad({"error": name}, f"gives a result: {type(r)}"[:300])
    old = {
        "bytes": (m, dict(in_grid=LL, out_grid=t)),
        "field": (f, dict(out_grid=t)),
        "None": (None, dict(in_grid=LL, out_grid=t)),
        "list": ([f], dict(out_grid=t)),
        "to gg": (fl, dict(out_grid={"grid": "O2"})),
        "to area": (fl, dict(out_grid=dict(OUT["area"]))),
        "no weights": (fl, dict(out_grid={"grid": [20, 20]})),
        "method": (fl, dict(out_grid=t, method="nearest-neighbour")),
        "second": (fields.from_file(["a2", "p2"]), dict(out_grid=t)),
        "no target": (fl, {}),
        "backend": (fl, dict(out_grid=t, backend="mir")),
        "array, backend": (v, dict(in_grid=LL, out_grid=t, backend="mir")),
        "array, no grid": (v, dict(out_grid=t)),
    }
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for name, (x, kw) in old.items():
            c.counts["evaluations"] += 1
            try:
                r = interpolate(x, matrix_source=path, **kw)
            except Exception as e:
                c.distinct.add(f"error {name} {type(e).__name__}")
            else:
                c.bad({"error": "interpolate " + name}, f"gives a result: {type(r)}"[:300])
    for name, x in {"list": fl, "field": f, "bytes": m, "None": None, "python list": v.tolist()}.items():
        for be in ("mir", "precomputed"):
            c.counts["evaluations"] += 1
            try:
                r = array_regrid(x, LL, t, **(pre if be == "precomputed" else {}))
            except Exception as e:
                c.distinct.add(f"array {name} {type(e).__name__}")
            else:
                c.bad({"error": f"array-level {name} {be}"}, f"gives a result: {type(r)}"[:300])


def setup():
    os.environ["EARTHKIT_REGRID_CACHE_POLICY"] = "off"
    os.environ["EARTHKIT_REGRID_WEIGHTS_MEMORY_CACHE_POLICY"] = "off"
    os.environ["MIR_CACHE_PATH"] = os.path.join(os.getcwd(), "mir")


def run(case):
    from mc import core
    from mc import inv

    setup()
    import earthkit.data as ekd

    ekd.config.set("cache-policy", "off")
    path = inv.shared("c15-" + core.digest([PRE, GRIDS, OUT]), inventory)
    from earthkit.regrid import regrid

    c = Check()
    fields = Fields()
    if case["family"] == "errors":
        run_errors(c, fields, regrid, path)
    else:
        for sub in case["cases"]:
            try:
                if "method" in sub:
                    run_interpolate(c, fields, sub, path)
                elif "atoms" in sub:
                    run_list(c, fields, sub, regrid, path)
                elif "container" in sub:
                    run_message(c, fields, sub, regrid, path)
                else:
                    run_field(c, fields, sub, regrid, path)
            except Exception as e:
                if os.environ.get("VERIF_DEBUG"):
                    raise
                c.bad(sub, f"{type(e).__name__}: {e}")
    return dict(problems=c.problems, counts=c.counts, distinct=list(c.distinct), sample=case["cases"][0] if "cases" in case else case)


replay = run

METHODS = ["linear", "nearest-neighbour", "grid-box-average"]
ATOMS = [("a2", "file"), ("b2", "mem"), ("a1", "file"), ("m2", "clone"), ("o2", "copy"), ("h2", "mem"), ("b2", "clonekeys")]


def opts_for(kind, out, m):
    """-> options or None when MIR has no such method for the grids"""
    if m == "grid-box-average" and (KINDS[kind][2] == "part" or "area" in OUT[out]):
        return None
    return {} if m is None else {"interpolation": m}


def sequences(atoms, n):
    for k in range(n + 1):
        yield from itertools.product(atoms, repeat=k)


def families(thorough):
    # one field
    r = []
    for kind, form, out, m in itertools.product(KINDS, FORMS, OUT, [None, *METHODS]):
        o = opts_for(kind, out, m)
        if o is None or not possible(kind, form, out) or (kind == "p2" and out not in ("ll45", "ll30", "area")):
            continue
        if kind == "big" and form in ("clone", "clonekeys", "clonemem", "numpy"):
            continue  # on model levels
        if not thorough and form not in ("file", "mem", "clone") and m not in (None, "nearest-neighbour"):
            continue
        if m is None and not thorough and out not in ("ll45", "gg"):
            continue
        r.append({"atom": [kind, form], "out": out, "opts": o})
        r.append({"atoms": [[kind, form]], "out": out, "opts": o, "positional": True})
    yield "fields", r
    # messages
    r = []
    for kind, out, m in itertools.product(KINDS, OUT, [None, *METHODS]):
        o = opts_for(kind, out, m)
        if o is None or not possible(kind, "mem", out) or (kind == "p2" and out not in ("ll45", "ll30", "area")):
            continue
        r.append({"atom": [kind, "mem"], "container": "bytes", "out": out, "opts": o})
        r.append({"atom": [kind, "mem"], "container": "padded", "out": out, "opts": o, "positional": True})
        for p in ("start", "middle", "end"):
            r.append({"atom": [kind, "mem"], "container": "buffer", "position": p, "out": out, "opts": o})
    yield "messages", r
    # lists
    r = []
    for s in sequences(ATOMS, 4 if thorough else 3):
        for out in ("ll45", "gg", "area", "hpn") if thorough or len(s) < 3 else ("ll45",):
            if not all(possible(*a, out) for a in s):
                continue
            for con in ("fields", "sum") if s and (thorough or len(s) < 3) else ("fields",):
                r.append({"atoms": [list(a) for a in s], "out": out, "container": con})
    yield "lists", r
    # where lists come from
    r = []
    for s in sequences(["a2", "b2", "a1", "m2", "o2"], 4 if thorough else 3):
        if not s:
            continue
        atoms = [[k, "file"] for k in s]
        for con in ("file", "memory", "multi", "fields"):
            if con == "multi" and len(s) < 2:
                continue
            for sub in (None, "reversed", "tail", "step", "none", "order", "sel"):
                if not thorough and len(s) == 3 and (con == "fields" or sub in (None, "tail", "step") or len(set(s)) < 2):
                    continue
                for out, o in (("ll45", {}), ("gg", {"interpolation": "nearest-neighbour"})):
                    if not thorough and out == "gg" and sub:
                        continue
                    x = {"atoms": atoms, "container": con, "out": out, "opts": o}
                    r.append({**x, "sub": sub} if sub else x)
    yield "sources", r
    # weights
    r = []
    for g, out, m in PRE:
        kinds = [k for k in KINDS if KINDS[k][2] == g and k not in ("j2",)]
        for kind, form in itertools.product(kinds, FORMS):
            if kind == "big" and form in ("clone", "clonekeys", "clonemem", "numpy"):
                continue
            x = {"out": out, "opts": {"interpolation": m}, "backend": "precomputed"}
            r.append({"atom": [kind, form], **x})
            r.append({"atoms": [[kind, form]], **x})
            for given in (False, True):
                r.append({"atoms": [[kind, form]], "out": out, "method": m, "given": given})
    atoms = [("a2", "file"), ("b2", "mem"), ("a1", "clone"), ("m2", "copy"), ("o2", "file"), ("h2", "mem"), ("n2", "numpy")]
    for s in sequences(atoms, 4 if thorough else 3):
        if len(s) < 2 and s:
            continue
        a = [list(x) for x in s]
        r.append({"atoms": a, "out": "ll45", "opts": {"interpolation": "linear"}, "backend": "precomputed"})
        if len(s) < 3 or thorough:
            r.append({"atoms": a, "out": "ll45", "method": "linear", "given": False})
    for s in sequences(["a2", "b2", "a1"], 3):
        if s:
            for con in ("file", "memory"):
                for sub in (None, "reversed", "tail", "none", "order"):
                    x = {"atoms": [[k, "file"] for k in s], "container": con, "out": "ll45", "opts": {"interpolation": "linear"}, "backend": "precomputed"}
                    r.append({**x, "sub": sub} if sub else x)
    yield "weights", r
    # options of MIR
    r = []
    for kind, form, out in itertools.product(("a2", "a1", "o2"), ("file", "clone", "copy"), ("ll45", "gg")):
        for o in (
            {"interpolation": "k-nearest-neighbours", "nearest_method": "nclosest", "nclosest": 1},
            {"interpolation": "k-nearest-neighbours", "nearest_method": "nclosest", "nclosest": 3},
            {"interpolation": "k-nearest-neighbours", "nearest_method": "nearest-neighbour-with-lowest-index"},
            {"interpolation": "k-nearest-neighbours", "nearest_method": "distance", "distance": 4e6},
        ):
            r.append({"atom": [kind, form], "out": out, "opts": o})
            r.append({"atoms": [[kind, form], ["b2", "mem"]], "out": out, "opts": o})
            if form == "file":
                r.append({"atom": [kind, "mem"], "container": "bytes", "out": out, "opts": o})
    yield "options", r


def explore(ctx):
    only = os.environ.get("VERIF_ONLY")
    cases = [("errors", {"family": "errors"})] if not only or "errors" in only else []
    for name, subs in families(ctx.thorough):
        if only and name not in only.split(","):
            continue
        n = 40
        for k in range(0, len(subs), n):
            cases.append((name, {"family": name, "cases": subs[k : k + n]}))
    ctx.counts["combinations"] = sum(len(c.get("cases", ())) for _, c in cases)
    ctx.run_cases(run, cases, timeout=300)
