"""C16: every interpolation option reaches the computing library, and only for that call.

All combinations of the option values of the scope, for arrays, GRIB messages, fields and labelled arrays and for
several pairs of grids; all sequences of calls with different options in one process. Oracle: a job of the
library set up here for exactly these options. Values the library does not know must be errors.
"""

import itertools
import json
import os

LEVEL = "exploration"
RULE = "one evaluation = one call; distinct = distinct combinations of options, data and earlier calls"
ASSUMPTIONS = [
    "the library gives the same result for the same job, whatever it computed before",
    "the methods that choose points at random are not compared",
]
PRELOAD = ["mir", "eccodes", "earthkit.data", "xarray"]

IN = {"ll": ({"grid": [30, 30]}, (7, 12)), "gg": ({"grid": "O2"}, (88,)), "hp": ({"grid": "H2"}, (48,))}

class Targets(dict):
    """Target grids by name; any other name is the JSON text of the grid, after the type of its area."""

    def __missing__(self, key):
        import numpy as np

        kind, text = key.split(":", 1)
        g = json.loads(text)
        if kind in ("f8", "f4", "i8"):
            g["area"] = [np.dtype(kind).type(x) for x in g["area"]]
        elif kind == "tuple":
            g["area"] = tuple(g["area"])
        return g


OUT = Targets({
    "ll": {"grid": [45, 45]},
    "gg": {"grid": "O2"},
    "hp": {"grid": "H2"},
    "hpn": {"grid": "H2", "order": "nested"},
    "area": {"grid": [15, 15], "area": [60, 0, 0, 90]},
    "area-tuple": {"grid": [15, 15], "area": (60, 0, 0, 90)},
    "area-text": {"grid": [15, 15], "area": "60/0/0/90"},
    "area-float": {"grid": [15.0, 15.0], "area": [60.0, -30.0, -45.0, 90.0]},
    "area-wide": {"grid": [45, 45], "area": [90, 0, -90, 315]},
    "gg-area": {"grid": "O4", "area": [70, 10, -20, 200]},
    "order": {"area": [45, 0, 0, 45], "grid": [45, 45]},
})
METHODS = ["linear", "nearest-neighbour", "grid-box-average", "bilinear", "k-nearest-neighbours", "structured-bilinear", "structured-bicubic", "structured-biquasicubic", "voronoi-statistics"]
NEAREST = [
    "automatic",
    "distance",
    "nclosest",
    "distance_and_nclosest",
    "distance_or_nclosest",
    "nclosest_or_nearest",
    "nearest_neighbour_with_lowest_index",
]
DEFAULTS = {"interpolation": "linear", "nearest_method": "automatic", "distance": 1, "distance_tolerance": 1, "nclosest": 4}


def values(grid):
    import numpy as np

    n = int(np.prod(IN[grid][1]))
    return (((np.arange(n) * 37) % 101 - 40.0) / 3).reshape(IN[grid][1])


def job(out, opts):
    import mir

    o = dict(DEFAULTS, **opts)
    g = dict(OUT[out])
    area = g.pop("area", None)
    j = mir.Job()
    j.set("grid", g)
    if area is not None:
        j.set("area", area if isinstance(area, str) else "/".join(str(x) for x in area))
    j.set("interpolation", o["interpolation"])
    if o["nearest_method"] != "automatic":
        j.set("nearest_method", o["nearest_method"].replace("_", "-"))
    j.set("distance", float(o["distance"]))
    j.set("distance_tolerance", float(o["distance_tolerance"]))
    j.set("nclosest", int(o["nclosest"]))
    return j


def message(grid):
    """A GRIB message on a grid."""
    import eccodes as ec

    from mc.checks import c15

    f = c15.Fields()
    m = f.message({"ll": "a2", "gg": "o2", "hp": "h2"}[grid])
    h = ec.codes_new_from_message(m)
    try:
        ec.codes_set_values(h, values(grid).ravel())
        return ec.codes_get_message(h)
    finally:
        ec.codes_release(h)


class Refs:
    def __init__(self):
        self.memo = {}
        self.messages = {}

    def message(self, grid):
        if grid not in self.messages:
            self.messages[grid] = message(grid)
        return self.messages[grid]

    def array(self, grid, out, opts):
        """-> (values, spec) or the error of the library"""
        import mir

        key = ("a", grid, out, repr(sorted(opts.items())))
        if key not in self.memo:
            o = mir.ArrayOutput()
            try:
                job(out, opts).execute(mir.ArrayInput(values(grid), IN[grid][0]), o)
                self.memo[key] = (o.values().copy(), o.spec)
            except Exception as e:
                self.memo[key] = e
        return self.memo[key]

    def grib(self, grid, out, opts):
        from io import BytesIO

        import mir

        key = ("g", grid, out, repr(sorted(opts.items())))
        if key not in self.memo:
            o = BytesIO()
            try:
                job(out, opts).execute(mir.GribMemoryInput(self.message(grid)), o)
                self.memo[key] = o.getvalue()
            except Exception as e:
                self.memo[key] = e
        return self.memo[key]


def call(refs, kind, grid, out, opts, style="grid"):
    """One call -> (result, expected, text of the difference or None)"""
    import numpy as np

    from earthkit.regrid import regrid
    from earthkit.regrid.array import regrid as array_regrid

    target = dict(OUT[out])
    source = dict(IN[grid][0])
    kw = dict(opts)
    before = repr((target, source, kw))
    if kind in ("array", "flat", "f4", "xarray", "dataset"):
        want = refs.array(grid, out, opts)
    else:
        want = refs.grib(grid, out, opts)
    if kind == "f4" and not isinstance(want, Exception):
        import mir

        o = mir.ArrayOutput()
        job(out, opts).execute(mir.ArrayInput(values(grid).astype("f4"), IN[grid][0]), o)
        want = (o.values().copy(), o.spec)
    x = make(refs, kind, grid)
    x0 = make(refs, kind, grid)
    try:
        if kind in ("array", "flat", "f4"):
            if style == "positional":
                got = array_regrid(x, source, target, **kw)
            else:
                got = array_regrid(x, in_grid=source, out_grid=target, **kw)
        elif style == "positional":
            got = regrid(x, target, **kw)
        else:
            got = regrid(x, grid=target, **kw)
    except Exception as e:
        got = e
    text = None
    if isinstance(got, Exception) or isinstance(want, Exception):
        if not (isinstance(got, Exception) and isinstance(want, Exception)):
            text = f"gives {short(got)} instead of {short(want)}"
    elif kind in ("array", "flat", "f4"):
        if not (isinstance(got, tuple) and len(got) == 2):
            text = f"gives a {type(got)}"
        else:
            a, b = np.asarray(got[0]), want[0]
            if a.shape != b.shape or a.dtype != b.dtype or not np.array_equal(a, b, equal_nan=True):
                text = f"values {short(a)} instead of {short(b)}"
            elif got[1] != want[1]:
                text = f"grid {got[1]} instead of {want[1]}"
        if not np.array_equal(x, x0):
            text = "the input was modified"
    elif kind in ("bytes", "buffer"):
        if got != want:
            text = "not the message of the library"
        if (x if kind == "bytes" else x.getvalue()) != (x0 if kind == "bytes" else x0.getvalue()):
            text = "the input was modified"
    elif kind == "field":
        if got.message() != want:
            text = "not the message of the library"
    elif kind == "list":
        if len(got) != 2 or [f.message() for f in got] != [want, want]:
            text = "not the messages of the library"
    elif kind in ("xarray", "dataset"):
        g = got["t"] if kind == "dataset" else got
        a = np.asarray(g.values)
        if a.shape[0] != 2 or not all(np.array_equal(a[k], want[0], equal_nan=True) for k in range(2)):
            text = "not the values of the library"
        if not x.identical(x0):
            text = "the input was modified"
    if text is None and repr((target, source, kw)) != before:
        text = "the arguments were modified"
    return text


def short(x):
    if isinstance(x, Exception):
        return f"{type(x).__name__}: {x}"[:200]
    return str(type(x)) if not hasattr(x, "ravel") else f"{x.shape} {x.ravel()[:6]}"


def make(refs, kind, grid):
    import numpy as np

    v = values(grid)
    if kind == "array":
        return v
    if kind == "flat":
        return v.ravel()
    if kind == "f4":
        return v.astype("f4")
    if kind in ("xarray", "dataset"):
        import xarray as xr

        d = ("latitude", "longitude") if v.ndim == 2 else ("values",)
        da = xr.DataArray(np.stack([v, v]), dims=("time", *d), attrs={"gridspec": dict(IN[grid][0])})
        return da if kind == "xarray" else xr.Dataset({"t": da}, attrs={"gridspec": dict(IN[grid][0])})
    m = refs.message(grid)
    if kind == "bytes":
        return m
    if kind == "buffer":
        from io import BytesIO

        return BytesIO(m)
    import earthkit.data as ekd

    fl = ekd.from_source("memory", m)
    return fl[0] if kind == "field" else ekd.FieldList.from_fields([fl[0], fl[0]])


BAD = {
    "interpolation": ["x", "", "automatic", "Linear", "nearest_neighbour", 1, None],
    "nearest_method": ["x", "", "nearest", "nearest-neighbor-with-lowest-index", 1, None],
    "nclosest": [0, -1, "x", None],
    "distance": [-1, "x", None],
    "distance_tolerance": ["x", None],
    "unknown": [1, None],
    "area": ["60/0/0/90"],
    "distance_weighting": ["no"],
}
BAD_AREA = [[60, 0, 0], [60, 0, 0, 90, 1], None, 5, {"n": 1}, "x", "60/0/0", []]


def run_errors(case):
    """Options nobody knows are errors, in any kind of data."""
    refs = Refs()
    problems, distinct, n = [], [], 0
    from earthkit.regrid import regrid
    from earthkit.regrid.array import regrid as array_regrid

    kind = case["kind"]

    def one(text, x, target, kw, source=IN["ll"][0]):
        nonlocal n
        n += 1
        try:
            if kind in ("array", "flat"):
                r = array_regrid(x, source, target, **kw)
            else:
                r = regrid(x, target, **kw)
        except Exception as e:
            distinct.append(f"{kind} {text} {type(e).__name__}")
        else:
            problems.append(f"{kind} {text}: gives {type(r)}")

    t = OUT["ll"]
    k = {"interpolation": "k-nearest-neighbours", "nearest_method": "distance_and_nclosest", "distance": 4e6}
    for key, vals in BAD.items():
        for v in vals:
            one(f"{key}={v!r}", make(refs, kind, "ll"), dict(t), dict(k, **{key: v}))
    for a in BAD_AREA:
        one(f"area {a}", make(refs, kind, "ll"), {"grid": [15, 15], "area": a}, {})
    for g in ("Z9", "", "O", "L36x19", [1], [30, 30, 30], 5, None, {"a": 1}):
        one(f"grid {g!r}", make(refs, kind, "ll"), {"grid": g}, {})
    for g in ({}, {"grd": [30, 30]}, None, {"grid": "H2", "order": "x"}, {"type": "x", "grid": [30, 30]}, {"area": [60, 0, 0, 90]}, 1, [45, 45]):
        one(f"target {g!r}", make(refs, kind, "ll"), g, {})
    if kind == "array":
        for g in (None, {}, {"grid": "Z9"}, {"grid": [45, 45]}, {"grid": "O2"}, 5, {"grid": None}):
            one(f"source {g!r}", make(refs, kind, "ll"), dict(t), {}, g)
        v = values("ll")
        for text, x in {"short": v.ravel()[:-1], "long": list(v.ravel()) + [1.0], "list": v.tolist(), "None": None, "empty": v[:0], "text": "x"}.items():
            if text == "long":
                import numpy as np

                x = np.array(x)
            one(f"values {text}", x, dict(t), {})
    return dict(problems=problems, counts={"evaluations": n}, distinct=distinct)


def setup():
    os.environ["EARTHKIT_REGRID_CACHE_POLICY"] = "off"
    os.environ["EARTHKIT_REGRID_WEIGHTS_MEMORY_CACHE_POLICY"] = "off"
    os.environ["MIR_CACHE_PATH"] = os.path.join(os.getcwd(), "mir")


def run(case):
    import warnings

    setup()
    warnings.simplefilter("ignore")
    if case["family"] == "errors":
        return run_errors(case)
    refs = Refs()
    problems, distinct, n = [], [], 0
    for sub in case["cases"]:
        steps = sub if isinstance(sub, list) else [sub]
        for i, s in enumerate(steps):
            n += 1
            text = call(refs, s["kind"], s["in"], s["out"], s["opts"], s.get("style", "grid"))
            if text and len(problems) < 20:
                problems.append(f"{steps[: i + 1] if len(steps) > 1 else s}: {text}")
        distinct.append(repr(sub))
    return dict(problems=problems, counts={"evaluations": n}, distinct=distinct, sample=case["cases"][0])


replay = run


def combine(**axes):
    keys = list(axes)
    for vals in itertools.product(*axes.values()):
        yield {k: v for k, v in zip(keys, vals) if v is not None}


KINDS = ["array", "bytes", "field"]
PAIRS = [("ll", "ll"), ("ll", "gg"), ("gg", "ll"), ("ll", "area"), ("hp", "ll"), ("gg", "hpn")]


def families(thorough):
    # methods, grids and kinds of data
    r = []
    for m, i, o, kind in itertools.product([None, *METHODS], IN, OUT, ["array", "flat", "f4", "bytes", "buffer", "field", "list", "xarray", "dataset"]):
        if "area" in OUT[o] and m in ("grid-box-average", "voronoi-statistics"):
            continue
        if kind in ("xarray", "dataset") and ("area" in OUT[o] or m == "voronoi-statistics"):
            continue  # the geography of areas is the subject of C14
        if i == o and i != "ll":
            continue
        for style in ("grid", "positional") if kind in ("array", "bytes") else ("grid",):
            r.append({"kind": kind, "in": i, "out": o, "opts": {"interpolation": m} if m else {}, "style": style})
    yield "methods", r
    # options
    r = []
    for x in combine(
        interpolation=["k-nearest-neighbours", "nearest-neighbour"],
        nearest_method=[None, *NEAREST, *[m.replace("_", "-") for m in NEAREST if "_" in m]],
        distance=[None, 1, 3000000, 4.5e6],
        distance_tolerance=[None, 500000, 2.5e6],
        nclosest=[None, 1, 2, 5],
    ):
        for i, o in PAIRS if thorough else PAIRS[:5]:
            for kind in KINDS if thorough else KINDS[:2]:
                if not thorough and kind == "bytes" and (i, o) in (("ll", "gg"), ("ll", "area")):
                    continue
                r.append({"kind": kind, "in": i, "out": o, "opts": x})
    yield "options", r
    r = []
    # distances next to those where the result changes
    for d in (2571346.98, 2571346.99, 3643136.44, 3643136.46):
        for kind in ("array", "bytes", "field", "xarray"):
            r.append({"kind": kind, "in": "ll", "out": "ll", "opts": {"interpolation": "k-nearest-neighbours", "nearest_method": "distance", "distance": d}})
    for d in (908122.45, 908122.47, 2941293.66, 2941293.68):
        for kind in ("array", "bytes", "field", "xarray"):
            r.append({"kind": kind, "in": "ll", "out": "ll", "opts": {"interpolation": "k-nearest-neighbours", "nearest_method": "nclosest_or_nearest", "nclosest": 2, "distance_tolerance": d}})
    yield "options-exact", r
    # areas, with borders on and next to the points of the target grid
    r = []
    n = 0
    for area in itertools.product([60, 59.99996, 50.00004, 90], [0, -30, 99.99996, 100.00004], [20, 19.99996, -20.5], [160, 129.99996, 130.00004]):
        for g in ([10, 10], [10, 5]):
            n += 1
            t = ("list", "tuple", "f8")[n % 3] + ":" + json.dumps({"grid": g, "area": list(area)})
            for kind in ("array", "bytes") if g == [10, 10] or thorough else ("array",):
                r.append({"kind": kind, "in": "ll", "out": t, "opts": {}})
    for t in ("i8", "f4", "f8", "tuple"):
        for kind in ("array", "bytes", "field", "list"):
            r.append({"kind": kind, "in": "ll", "out": t + ":" + json.dumps({"grid": [10, 10], "area": [60, -20, -20, 40]}), "opts": {}})
    yield "areas", r
    # the other kinds of data pass the options on
    r = []
    for kind in ("field", "list", "xarray", "dataset", "buffer", "f4"):
        for x in combine(
            interpolation=["k-nearest-neighbours", "nearest-neighbour", "linear"],
            nearest_method=[None, "distance", "nclosest-or-nearest", "distance_or_nclosest"],
            distance=[None, 3000000],
            distance_tolerance=[None, 2.5e6],
            nclosest=[None, 2],
        ):
            for i, o in (("ll", "ll"), ("gg", "ll")):
                r.append({"kind": kind, "in": i, "out": o, "opts": x})
    yield "kinds", r
    # sequences
    k = "k-nearest-neighbours"
    calls = [
        {},
        {"interpolation": "nearest-neighbour"},
        {"interpolation": k, "nearest_method": "nclosest"},
        {"interpolation": k, "nearest_method": "nclosest", "nclosest": 2},
        {"interpolation": k, "nearest_method": "distance", "distance": 3e6},
        {"interpolation": k, "nearest_method": "distance", "distance": 4.5e6},
        {"interpolation": k, "nearest_method": "nclosest_or_nearest", "distance_tolerance": 2.5e6},
        {"interpolation": k, "nearest_method": "nclosest_or_nearest"},
        {"interpolation": "grid-box-average"},
    ]
    steps = [{"kind": d, "in": "ll", "out": o, "opts": x} for d in ("array", "bytes") for o in ("ll", "area") for x in calls if o == "ll" or x != calls[-1]]
    steps += [{"kind": d, "in": i, "out": o, "opts": x} for d in ("array", "field", "xarray") for i, o in (("gg", "ll"), ("ll", "gg")) for x in calls[:3]]
    r = [[a, b] for a in steps for b in steps]
    few = [s for s in steps if s["opts"] in (calls[0], calls[3], calls[4])]
    r += [list(s) for s in itertools.product(few[: (12 if thorough else 8)], repeat=3)]
    yield "sequences", r


def explore(ctx):
    only = os.environ.get("VERIF_ONLY")
    cases = [("errors", {"family": "errors", "kind": k}) for k in ("array", "bytes", "buffer", "field", "list", "xarray", "dataset")]
    if only and "errors" not in only:
        cases = []
    for name, subs in families(ctx.thorough):
        if only and name not in only.split(","):
            continue
        n = 200 if name != "sequences" else 150
        for k in range(0, len(subs), n):
            cases.append((name, {"family": name, "cases": subs[k : k + n]}))
    ctx.counts["combinations"] = sum(len(c.get("cases", ())) for _, c in cases)
    ctx.run_cases(run, cases, timeout=300)
