"""C14: regridding labelled arrays equals regridding each of their fields.

All combinations of the values of several groups of dimensions of the input space (layout, container, chunks,
type and memory layout of the values, input and target grid, backend and options), each combination run with
the real xarray, dask and MIR. Oracle: array-level regridding of each field cut out of the input with numpy;
the geography is calculated here for regular grids and taken from the grid library for the others.
"""

import itertools
import os

LEVEL = "exploration"
RULE = "one evaluation = one regridded labelled array or data set; distinct = distinct combinations"
ASSUMPTIONS = [
    "array-level regridding is right (C01, C16)",
    "points of grids that are not regular are those of the grid library",
    "integers are converted to floating point, or rejected when the backend takes none",
]
PRELOAD = ["mir", "xarray", "dask.array", "pandas"]

IN = {
    "ll": ({"grid": [30, 30]}, (7, 12)),
    "sq": ({"grid": [45, 60]}, None),
    "part": ({"grid": [30, 30], "area": [90, 0, 0, 90]}, (4, 4)),
    "gg": ({"grid": "O2"}, (88,)),
    "hp": ({"grid": "H2"}, (48,)),
    "hpn": ({"grid": "H2", "order": "nested"}, (48,)),
}
IN["sq"] = ({"grid": [60, 45]}, (5, 6))
OUT = {
    "ll45": {"grid": [45, 45]},
    "ll30": {"grid": [30, 30]},
    "ll60": {"grid": [60, 45]},
    "ll72": {"grid": [7.2, 7.2]},
    "area": {"grid": [15, 15], "area": [60, 0, 0, 90]},
    "area1": {"grid": [10, 10], "area": [90, 0, 0, 90]},
    "gg": {"grid": "O2"},
    "gg4": {"grid": "O4"},
    "hp": {"grid": "H2"},
    "hpn": {"grid": "H2", "order": "nested"},
}
PRE = [("ll", "ll45", "linear"), ("ll", "ll30", "linear"), ("gg", "ll45", "linear"), ("hpn", "ll30", "nearest-neighbour"), ("sq", "gg", "linear")]
SIZES = {"time": 3, "level": 2, "number": 2}
DTYPES = ["f8", "f4", ">f8", ">f4", "i8", "i4", "i2", "u1", "bool"]
MEMORY = ["C", "F", "strided", "readonly", "reversed"]


def inventory(path):
    from mc import inv

    es = []
    for k, (i, o, m) in enumerate(PRE):
        n_in, shape = 1, geography(OUT[o])[0]
        for s in IN[i][1]:
            n_in *= s
        n_out = 1
        for s in shape:
            n_out *= s
        es.append(inv.entry(IN[i][0], dict(OUT[o], shape=list(shape)), m, inv.int_matrix(n_out, n_in, k)))
    return inv.write(path, es)


def geography(spec):
    """-> (shape, dims, latitudes, longitudes)"""
    import mir
    import numpy as np

    g = spec["grid"]
    if isinstance(g, list):
        dx, dy = g
        n, w, s, e = spec.get("area") or (90, 0, -90, 360 - dx)
        n = np.floor(n / dy) * dy
        s = np.ceil(s / dy) * dy
        w = np.ceil(w / dx) * dx
        e = np.floor(e / dx) * dx
        lat = n - dy * np.arange(int(round((n - s) / dy)) + 1)
        lon = w + dx * np.arange(int(round((e - w) / dx)) + 1)
        return (len(lat), len(lon)), ("latitude", "longitude"), lat, lon
    lat, lon = mir.Grid(**spec).to_latlons()
    return (len(lat),), ("values",), np.array(lat), np.array(lon)


def field_dims(case):
    d = case.get("names")
    n = len(IN[case["in"]][1])
    if d == "custom":
        return ("y", "x") if n == 2 else ("cell",)
    if d == "crossed":
        return ("longitude", "latitude") if n == 2 else ("latitude",)
    if d == "half":
        return ("latitude", "x") if n == 2 else ("longitude",)
    if d == "other half":
        return ("y", "longitude")
    return ("latitude", "longitude") if n == 2 else ("values",)


def make_values(case, shape, k):
    import numpy as np

    n = int(np.prod(shape))
    v = ((np.arange(n) * (37 + 2 * k) + k) % 101 - 30.0).reshape(shape)
    dt = case.get("dtype", "f8")
    if dt == "u1":
        v = np.abs(v)
    if dt == "bool":
        v = v > 0
    if dt in ("f8", "f4", ">f8", ">f4"):
        v = v / 3.0
        if case.get("nan") and n:
            if case["nan"] == "lead":
                v[0] = np.nan
            elif case["nan"] == "all":
                v[...] = np.nan
            elif case["nan"] == "first-field":
                v.ravel()[: n // 2] = np.nan
            else:
                v.ravel()[n // 2] = np.nan
    return v.astype(dt)


def lay(v, memory):
    import numpy as np

    if memory == "F":
        return np.asfortranarray(v)
    if memory == "strided":
        big = np.zeros([2 * s for s in v.shape], dtype=v.dtype)
        view = big[tuple(slice(None, None, 2) for _ in v.shape)]
        view[...] = v
        return view
    if memory == "readonly":
        v = v.copy()
        v.setflags(write=False)
        return v
    if memory == "reversed":
        return np.ascontiguousarray(v[..., ::-1])[..., ::-1]
    return v


def order_of(case, extra, fdims):
    p = case.get("place", "last")
    if p == "last":
        return [*extra, *fdims]
    if p == "first":
        return [*fdims, *extra]
    if p == "mixed":
        r = [fdims[0], *extra, *fdims[1:]]
        return r
    if p == "swapped":
        return [*extra, *fdims[::-1]]
    raise ValueError(p)


def coords_of(case, extra, fdims, spec_in):
    import numpy as np

    r = {}
    kind = case.get("coords", "plain")
    if kind == "none":
        return r
    for d in extra:
        r[d] = (d, np.arange(SIZES[d]) * 10.0 + len(d))
    if kind == "rich":
        r["run"] = ((), 7)
        if extra:
            r["valid"] = (extra[0], np.array([f"v{i}" for i in range(SIZES[extra[0]])]))
        if len(extra) > 1:
            r["both"] = (tuple(extra[:2]), np.arange(SIZES[extra[0]] * SIZES[extra[1]]).reshape(SIZES[extra[0]], -1))
    _, _, lat, lon = geography(spec_in)
    if len(fdims) == 2:
        if kind == "2d":
            r["latitude"] = (fdims, np.broadcast_to(lat[:, None], (len(lat), len(lon))).copy())
            r["longitude"] = (fdims, np.broadcast_to(lon[None, :], (len(lat), len(lon))).copy())
        elif case.get("names") in (None, "half", "other half") and fdims[0] != "longitude":
            r["latitude"] = (fdims[0], lat)
            r["longitude"] = (fdims[1], lon)
    elif fdims[0] not in ("latitude", "longitude"):
        r["latitude"] = (fdims[0], lat)
        r["longitude"] = (fdims[0], lon)
    if kind == "rich":
        r["mask"] = (fdims, np.zeros([len(lat), len(lon)] if len(fdims) == 2 else len(lat)))
    return r


def make_input(case):
    import xarray as xr

    spec = IN[case["in"]][0]
    fshape = dict(zip(field_dims(case), IN[case["in"]][1]))
    fdims = field_dims(case)

    def array(extra, k, name, attrs):
        dims = order_of(case, extra, fdims)
        shape = [fshape.get(d) or SIZES[d] for d in dims]
        v = lay(make_values(case, shape, k), case.get("memory", "C"))
        da = xr.DataArray(v, dims=dims, coords=coords_of(case, extra, fdims, spec), name=name, attrs=attrs)
        if case.get("chunks"):
            c = {d: n for d, n in case["chunks"].items() if d in dims}
            if "field" in case["chunks"]:
                c[fdims[0]] = case["chunks"]["field"]
            da = da.chunk(c)
        return da

    attrs = {"units": "K", "long_name": "temperature", "n": [1, 2]}
    if case.get("source", "attrs") == "attrs":
        attrs["gridspec"] = dict(spec)
    extra = tuple(case.get("extra", ()))
    kind = case.get("container", "array")
    if kind == "array":
        return array(extra, 0, case.get("name", "t"), attrs)
    ds_attrs = {"title": "test", **({"gridspec": dict(spec)} if "gridspec" in attrs else {})}
    if kind == "ds1":
        vs = {"t": array(extra, 0, "t", attrs)}
    elif kind == "ds2":
        vs = {"u": array(extra, 0, "u", attrs), "a": array(extra, 1, "a", {"units": "m"})}
    elif kind == "ds3":
        vs = {"u": array(extra, 0, "u", attrs), "s": array(extra[:1], 2, "s", {}), "f": array((), 3, "f", {"units": "1"})}
    elif kind == "ds4":
        vs = {"f": array((), 3, "f", attrs), "u": array(extra, 0, "u", attrs)}
    return xr.Dataset(vs, attrs=ds_attrs)


def equal(a, b):
    import numpy as np

    return a.dtype.newbyteorder("=") == b.dtype.newbyteorder("=") and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


class Check:
    def __init__(self):
        self.problems = []
        self.counts = {"evaluations": 0, "fields": 0}
        self.distinct = set()

    def bad(self, case, text):
        if len(self.problems) < 10:
            self.problems.append(f"{ {k: v for k, v in case.items() if k != 'family'} }: {text}"[:1200])


def reference(case, da, area_level, cache):
    """{index of the extra dimensions: (values, spec)}"""
    import numpy as np

    fdims = field_dims(case)
    extra = [d for d in da.dims if d not in fdims]
    t = da.transpose(*extra, *fdims)
    v = np.array(t.values)
    r = {}
    integer = v.dtype.kind != "f"
    out_t = v.dtype.newbyteorder("=") if not integer else np.dtype("f8")
    for idx in np.ndindex(*v.shape[: len(extra)]):
        f = v[idx]
        f = np.ascontiguousarray(f.astype("f8" if integer else f.dtype.newbyteorder("=")))
        ref, spec = area_level(f, dict(IN[case["in"]][0]), dict(OUT[case["out"]]))
        r[idx] = (np.asarray(ref).astype(out_t), spec)
    return extra, r


def check_array(c, case, da, got, refs, where):
    import numpy as np

    extra, r = refs
    shape, gdims, lat, lon = geography(out_spec(case))
    if case.get("out_dims"):
        gdims = tuple(case["out_dims"])
    dims = tuple(extra) + tuple(gdims)
    if tuple(got.dims) != dims:
        c.bad(case, f"{where}dimensions {got.dims} instead of {dims}")
        return
    if got.shape[len(extra) :] != tuple(shape):
        c.bad(case, f"{where}shape {got.shape} instead of (..., {shape})")
        return
    v = got.values
    if v.shape != got.shape:
        c.bad(case, f"{where}the computed values have the shape {v.shape} instead of {got.shape}")
        return
    for idx, (ref, _) in r.items():
        c.counts["fields"] += 1
        if not equal(v[idx], ref.reshape(shape)):
            c.bad(case, f"{where}field {dict(zip(extra, idx))}: {v[idx].dtype} {np.ravel(v[idx])[:5]} instead of {ref.dtype} {np.ravel(ref)[:5]}")
            return
    if got.name != da.name:
        c.bad(case, f"{where}name {got.name} instead of {da.name}")
    attrs = dict(da.attrs)
    ga = dict(got.attrs)
    if "gridspec" in attrs:
        attrs.pop("gridspec")
        if not same_grid(ga.pop("gridspec", None), case):
            c.bad(case, f"{where}gridspec {got.attrs.get('gridspec')}")
    if ga != attrs:
        c.bad(case, f"{where}attributes {ga} instead of {attrs}")


def out_spec(case):
    """The grid of the result: MIR cuts the target to the area of the input."""
    o = dict(OUT[case["out"]])
    if case["in"] == "part" and isinstance(o["grid"], list) and "area" not in o:
        o["area"] = [90, 0, 0, 90]
    return o


def same_grid(spec, case):
    import numpy as np

    if not isinstance(spec, dict):
        return False
    try:
        a = geography(dict(spec))
        b = geography(out_spec(case))
        return a[0] == b[0] and np.allclose(a[2], b[2]) and np.allclose(a[3], b[3])
    except Exception:
        return False


def check_coords(c, case, x, got):
    import numpy as np

    _, gdims, lat, lon = geography(out_spec(case))
    fdims = set(field_dims(case))
    kept = {n: v for n, v in x.coords.items() if not fdims & set(v.dims) and n not in ("latitude", "longitude")}
    names = set(got.coords)
    if names != set(kept) | {"latitude", "longitude"}:
        c.bad(case, f"coordinates {sorted(names)} instead of {sorted(set(kept) | {'latitude', 'longitude'})}")
        return
    for n, v in kept.items():
        if not got[n].variable.identical(v.variable):
            c.bad(case, f"coordinate {n} is {got[n].values} instead of {v.values}")
    for n, ref in (("latitude", lat), ("longitude", lon)):
        d = (n,) if len(gdims) == 2 else ("values",)
        v = got.coords[n]
        if tuple(v.dims) != d or v.shape != ref.shape or not np.allclose(v.values, ref, rtol=0, atol=1e-9):
            c.bad(case, f"{n} {v.dims} {v.values[:5]} instead of {d} {ref[:5]}")


def run_one(c, case, regrid, array_regrid, path):
    import numpy as np
    import xarray as xr

    x = make_input(case)
    snapshot = x.copy(deep=True)
    raw = [np.array(v.values) for v in (x.data_vars.values() if isinstance(x, xr.Dataset) else [x])]
    opts = dict(case.get("opts") or {})
    if case.get("backend") == "precomputed":
        opts.update(backend="precomputed", inventory=path)
    target = dict(OUT[case["out"]])
    before = repr(target)

    def one(v, g_in, g_out):
        return array_regrid(v, g_in, g_out, **opts)

    kwargs = dict(opts)
    if case.get("source") == "kwarg":
        kwargs["grid_spec"] = dict(IN[case["in"]][0])
    fdims = field_dims(case)
    if case.get("names") or case.get("place", "last") != "last":
        how = case.get("in_dims", "list")
        kwargs["in_dims"] = {"list": list, "tuple": tuple, "str": lambda d: d[0]}[how](fdims)
    kb = repr(kwargs)
    c.counts["evaluations"] += 1
    c.distinct.add(repr(sorted((k, str(v)) for k, v in case.items())))
    try:
        got = regrid(x, target, **kwargs) if case.get("positional") else regrid(x, grid=target, **kwargs)
        got.compute()
    except Exception:
        if np.dtype(case.get("dtype", "f8")).kind != "f" and case.get("backend") is None:
            return  # this backend takes no integers
        raise
    if type(got) is not type(x):
        c.bad(case, f"the result is a {type(got)}")
        return
    if isinstance(x, xr.Dataset):
        if list(got.data_vars) != list(x.data_vars):
            c.bad(case, f"variables {list(got.data_vars)} instead of {list(x.data_vars)}")
            return
        for n in x.data_vars:
            check_array(c, case, x[n], got[n], reference(case, x[n], one, {}), f"{n}: ")
        a, b = dict(x.attrs), dict(got.attrs)
        if "gridspec" in a:
            a.pop("gridspec")
            if not same_grid(b.pop("gridspec", None), case):
                c.bad(case, f"gridspec of the data set {got.attrs.get('gridspec')}")
        if a != b:
            c.bad(case, f"attributes of the data set {b} instead of {a}")
    else:
        check_array(c, case, x, got, reference(case, x, one, {}), "")
    check_coords(c, case, x, got)
    if case.get("chunks"):
        lazy = [v.chunks is not None for v in (got.data_vars.values() if isinstance(x, xr.Dataset) else [got])]
        if not all(lazy):
            c.bad(case, "the result of a chunked input is not chunked")
    if not x.identical(snapshot) or any(not equal(np.array(v.values), r) for v, r in zip(x.data_vars.values() if isinstance(x, xr.Dataset) else [x], raw)):
        c.bad(case, "the input was modified")
    if repr(target) != before or repr(kwargs) != kb:
        c.bad(case, "the arguments were modified")


def run_errors(c, case, regrid):
    """Inputs without a usable description are rejected."""
    import numpy as np
    import xarray as xr

    a = np.arange(84.0).reshape(7, 12)
    g = {"gridspec": {"grid": [30, 30]}}
    t = {"grid": [45, 45]}
    ll = ("latitude", "longitude")
    bad = {
        "no grid": (xr.DataArray(a, dims=ll), dict(grid=t)),
        "no grid, data set": (xr.Dataset({"t": (ll, a, g)}), dict(grid=t)),
        "no target": (xr.DataArray(a, dims=ll, attrs=g), {}),
        "target None": (xr.DataArray(a, dims=ll, attrs=g), dict(grid=None)),
        "unknown dimensions": (xr.DataArray(a, dims=("y", "x"), attrs=g), dict(grid=t)),
        "swapped": (xr.DataArray(a.T, dims=ll[::-1], attrs=g), dict(grid=t)),
        "not last": (xr.DataArray(a[..., None], dims=(*ll, "time"), attrs=g), dict(grid=t)),
        "other size": (xr.DataArray(a[:6], dims=ll, attrs=g), dict(grid=t)),
        "other size, kwarg": (xr.DataArray(a[:, :6], dims=ll), dict(grid=t, grid_spec={"grid": [30, 30]})),
        "one dimension": (xr.DataArray(a[0], dims=("longitude",), attrs=g), dict(grid=t)),
        "missing in_dims": (xr.DataArray(a, dims=ll, attrs=g), dict(grid=t, in_dims=["y", "x"])),
        "unknown backend": (xr.DataArray(a, dims=ll, attrs=g), dict(grid=t, backend="x")),
        "no backend": (xr.DataArray(a, dims=ll, attrs=g), dict(grid=t, backend=None)),
        "unknown method": (xr.DataArray(a, dims=ll, attrs=g), dict(grid=t, interpolation="x")),
        "unknown option": (xr.DataArray(a, dims=ll, attrs=g), dict(grid=t, x=1)),
        "unknown target": (xr.DataArray(a, dims=ll, attrs=g), dict(grid={"grid": "Z9"})),
        "unknown grid": (xr.DataArray(a, dims=ll, attrs={"gridspec": {"grid": "Z9"}}), dict(grid=t)),
        "no weights": (xr.DataArray(a, dims=ll, attrs=g), dict(grid=t, backend="precomputed", inventory=case["path"], interpolation="grid-box-average")),
        "numpy": (a, dict(grid=t)),
        "list": (a.tolist(), dict(grid=t)),
        "None": (None, dict(grid=t)),
        "str": ("x", dict(grid=t)),
        "variable": (xr.Variable(ll, a, g), dict(grid=t)),
    }
    for name, (x, kw) in bad.items():
        c.counts["evaluations"] += 1
        try:
            r = regrid(x, **kw)
        except Exception as e:
            c.distinct.add(f"error {name} {type(e).__name__}")
        else:
            c.bad({"error": name}, f"gives a result: {type(r)}"[:300])


def setup():
    os.environ["EARTHKIT_REGRID_CACHE_POLICY"] = "off"
    os.environ["EARTHKIT_REGRID_WEIGHTS_MEMORY_CACHE_POLICY"] = "off"
    os.environ["MIR_CACHE_PATH"] = os.path.join(os.getcwd(), "mir")


def run(case):
    from mc import core
    from mc import inv

    setup()
    import dask

    dask.config.set(scheduler=case.get("scheduler", "sync"))
    path = inv.shared("c14-" + core.digest([PRE, IN, OUT]), inventory)
    from earthkit.regrid import regrid
    from earthkit.regrid.array import regrid as array_regrid

    c = Check()
    if case["family"] == "errors":
        run_errors(c, dict(case, path=path), regrid)
    elif case["family"] == "earthkit":
        run_earthkit(c, case, regrid, array_regrid)
    else:
        for sub in case["cases"]:
            try:
                run_one(c, sub, regrid, array_regrid, path)
            except Exception as e:
                if os.environ.get("VERIF_DEBUG"):
                    raise
                c.bad(sub, f"{type(e).__name__}: {e}")
    return dict(problems=c.problems, counts=c.counts, distinct=list(c.distinct), sample=case["cases"][0] if "cases" in case else case)


replay = run


def combine(**axes):
    keys = list(axes)
    for vals in itertools.product(*axes.values()):
        yield {k: v for k, v in zip(keys, vals) if v is not None}


EXTRAS = [(), ("time",), ("time", "level"), ("level", "time"), ("number", "time", "level")]
CHUNKS = [None, {"time": 1}, {"time": 2, "level": 1}, {}, {"field": 2}, {"field": 3, "time": 1}]
CONTAINERS = ["array", "ds1", "ds2", "ds3", "ds4"]


def mir_pairs():
    for i, o in itertools.product(IN, OUT):
        if i == "part" and o not in ("ll45", "ll30", "area"):
            continue
        yield i, o


def families(thorough):
    # grids
    r = []
    for i, o in mir_pairs():
        for m in ("linear", "nearest-neighbour", "grid-box-average"):
            if m == "grid-box-average" and (i == "part" or "area" in OUT[o]):
                continue
            for x in combine(extra=[(), ("time",)], container=["array", "ds2"], chunks=[None, {"time": 1}]):
                r.append({"in": i, "out": o, "opts": {"interpolation": m}, **x})
    yield "grids", r
    r = []
    for i, o, m in PRE:
        for x in combine(extra=EXTRAS, container=CONTAINERS, chunks=CHUNKS, dtype=["f8", "f4"]):
            if not thorough and x["dtype"] == "f4" and (x["container"] != "array" or len(x["extra"]) > 1):
                continue
            if not thorough and len(x["extra"]) > 1 and x.get("chunks") in ({}, {"field": 3, "time": 1}):
                continue
            r.append({"in": i, "out": o, "opts": {"interpolation": m}, "backend": "precomputed", **x})
    yield "precomputed", r
    # layouts
    r = []
    for i, o in (("ll", "ll45"), ("ll", "gg"), ("gg", "ll45"), ("gg", "gg4"), ("sq", "ll60"), ("hp", "hpn")):
        two = len(IN[i][1]) == 2
        for x in combine(
            extra=EXTRAS,
            place=["last", "first", "mixed", "swapped"] if two else ["last", "first"],
            names=[None, "custom", "crossed", "half"] + (["other half"] if two else []),
            in_dims=["list", "tuple"] if two else ["list", "str"],
            container=CONTAINERS if thorough else ["array", "ds3"],
            chunks=CHUNKS if thorough else [None, {"time": 2, "level": 1}],
        ):
            if not thorough and x.get("names") not in (None, "custom") and (len(x["extra"]) > 1 or x["container"] == "ds3"):
                continue
            if x.get("names") == "custom" and x["in_dims"] == "tuple" and not thorough:
                continue
            r.append({"in": i, "out": o, **x})
    yield "layouts", r
    # containers and coordinates
    r = []
    for i, o in (("ll", "ll45"), ("gg", "ll45"), ("ll", "gg"), ("gg", "gg4")):
        for x in combine(
            extra=EXTRAS[:4],
            container=CONTAINERS,
            chunks=CHUNKS,
            coords=["none", "plain", "rich", "2d"] if i == "ll" else ["none", "plain", "rich"],
            source=["attrs", "kwarg"],
        ):
            if x["coords"] == "2d":
                x["names"] = "custom"
            if not thorough and (x["source"] == "kwarg" or x["coords"] == "none") and x.get("chunks") not in (None, {"time": 1}):
                continue
            if not thorough and (i, o) != ("ll", "ll45") and x["container"] in ("ds1", "ds4"):
                continue
            r.append({"in": i, "out": o, **x})
    yield "containers", r
    # values
    r = []
    for i, o in (("ll", "ll45"), ("gg", "ll45"), ("ll", "gg")):
        for x in combine(
            dtype=DTYPES,
            memory=MEMORY,
            extra=[(), ("time",), ("time", "level")],
            chunks=[None, {"time": 1}],
            nan=[None, True, "lead", "all", "first-field"],
            backend=[None, "precomputed"],
        ):
            if x.get("backend") and (i, o, "linear") not in PRE:
                continue
            if x.get("nan") and x["dtype"] not in ("f8", "f4", ">f8", ">f4"):
                continue
            if isinstance(x.get("nan"), str) and (x["memory"] != MEMORY[0] or x["dtype"] not in ("f8", "f4")):
                continue
            r.append({"in": i, "out": o, **x})
    yield "values", r
    # options of MIR
    r = []
    for i, o in (("ll", "ll45"), ("gg", "hp")):
        for opts in (
            {"interpolation": "k-nearest-neighbours", "nearest_method": "nclosest", "nclosest": 1},
            {"interpolation": "k-nearest-neighbours", "nearest_method": "nclosest", "nclosest": 3},
            {"interpolation": "k-nearest-neighbours", "nearest_method": "nearest-neighbour-with-lowest-index"},
            {"interpolation": "nearest-neighbour"},
            {"interpolation": "linear"},
        ):
            for x in combine(extra=EXTRAS[:3], container=["array", "ds2"], chunks=[None, {"time": 1}], positional=[None, True], name=["t", ""]):
                r.append({"in": i, "out": o, "opts": opts, **x})
    yield "options", r


def run_earthkit(c, case, regrid, array_regrid):
    """Labelled arrays made by earthkit-data, which describe their grid in their own way."""
    import numpy as np

    import earthkit.data as ekd

    from mc import core

    src = os.path.join(core.REPO, "tests", "data", "o32.grib2")
    field = ekd.from_source("file", src)[0]
    values = field.to_numpy(flatten=True)
    for out, kind, copies in itertools.product(OUT, ("array", "ds"), (1, 2)):
        if copies == 1:
            fl = ekd.from_source("file", src)
        else:
            fl = ekd.FieldList.from_fields([field, field.clone(values=values * 2.0, levelist=500)])
        x = fl.to_xarray()
        name = list(x.data_vars)[0]
        y = x if kind == "ds" else x[name]
        for m in ("linear", "nearest-neighbour"):
            c.counts["evaluations"] += 1
            sub = {"family": "earthkit", "out": out, "kind": kind, "copies": copies, "method": m, "in": "gg"}
            got = regrid(y, dict(OUT[out]), interpolation=m)
            got = got[name] if kind == "ds" else got
            shape, dims, lat, lon = geography(OUT[out])
            v = x[name].values.reshape(copies, -1) if copies > 1 else x[name].values.reshape(1, -1)
            g = got.values.reshape(copies, *shape)
            if tuple(got.dims[-len(dims) :]) != dims or len(got.dims) != len(dims) + (copies > 1):
                c.bad(sub, f"dimensions {got.dims}")
            for k in range(copies):
                ref, _ = array_regrid(np.ascontiguousarray(v[k]), {"grid": "O32"}, dict(OUT[out]), interpolation=m)
                if not np.array_equal(np.asarray(ref).reshape(shape).astype(g.dtype), g[k]):
                    c.bad(sub, f"field {k} differs from the array-level result")
            if not np.allclose(got.latitude.values, lat, rtol=0, atol=1e-9) or not np.allclose(got.longitude.values, lon, rtol=0, atol=1e-9):
                c.bad(sub, "coordinates are not those of the target grid")
            c.distinct.add(repr(sub))


def explore(ctx):
    only = os.environ.get("VERIF_ONLY")
    cases = [("errors", {"family": "errors"}), ("earthkit", {"family": "earthkit"})]
    for name, subs in families(ctx.thorough):
        if only and name not in only.split(","):
            continue
        for sch in ("sync", "threads"):
            if sch == "threads" and name != "grids" and not ctx.thorough:
                continue
            for k in range(0, len(subs), 40):
                cases.append((name, {"family": name, "scheduler": sch, "cases": subs[k : k + 40]}))
    ctx.counts["combinations"] = sum(len(c.get("cases", ())) for _, c in cases)
    ctx.run_cases(run, cases, timeout=300)
