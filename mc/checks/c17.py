"""C17: a computed weight matrix is the one of the grids asked for.

All sequences of computations to a depth (same or new process, same or other output, each kind of output),
after which every output is compared; requests are chosen to be confusable (lists of points that differ in one
place, in the middle of a long list or in the last digits, swapped, reversed, of other types; options). A process
killed at each point at which the disk differs, then a new one; processes that compute at the same time, all schedules
up to a preemption bound.
Oracle: a job set up here, with files of points written by the encoder below, alone in a fresh directory; for the
nearest points also a search over all the points; for pairs of grids also the product against array regridding.
"""

import itertools
import json
import os
import struct

LEVEL = "exploration"
RULE = "distinct = (family, requests, outputs, processes, outcome)"
ASSUMPTIONS = [
    "the computing library is right for a job alone in a fresh directory (for nearest points and pairs of grids it is checked)",
    "a second computation for the same grids in one process may be refused with an error (as the library does)",
    "kill points are not inside the computing library",
]
PRELOAD = ["mir"]

NN = {"interpolation": "nn"}
LAT = [10.0, 20.0, -30.0, 61.0, 75.5]
LON = [15.0, 70.0, 200.0, 311.0, 120.25]
N = 1500


def ramp(change=None):
    """A long list of points."""
    lat = [(i * 37) % 171 - 85.25 for i in range(N)]
    lon = [(i * 53) % 360 + 0.5 for i in range(N)]
    if change is not None:
        lat[change] = -lat[change] + 1
        lon[change] = (lon[change] + 90) % 360
    return lat, lon


def fine(d):
    """Points next to the line between two points of the grid: d decides on which side."""
    return [-22.5 + d, 22.5 + d, -22.5 + d, 22.5 + d], [45.0, 90.0, 180.0, 270.0]


def changed(x, i, v):
    x = list(x)
    x[i] = v
    return x


POINTS = {
    "p": (LAT, LON),
    "p lon": (LAT, changed(LON, 2, 100.0)),
    "p lat": (changed(LAT, 0, 40.0), LON),
    "p turned": (LAT[::-1], LON[::-1]),
    "p swap": (changed(LAT, 0, 70.0), changed(LON, 1, 10.0)),
    "p less": (LAT[:4], LON[:4]),
    "p other way": ([15.0, 70.0, -20.0, 31.0, 12.25], [10.0, 20.0, 30.0, 61.0, 75.5]),
    "p other way round": ([10.0, 20.0, 30.0, 61.0, 75.5], [15.0, 70.0, -20.0, 31.0, 12.25]),
    "p west": (LAT, [x - 360 for x in LON]),
    "long": ramp(),
    "long first": ramp(0),
    "long middle": ramp(700),
    "long last": ramp(N - 1),
    "fine+": fine(4e-9),
    "fine-": fine(-4e-9),
    "whole": ([10, 20, -30, 61], [15, 70, 200, 311]),
}
LL30, LL45, LL60, O2, H2, H2N = (
    {"grid": [30, 30]},
    {"grid": [45, 45]},
    {"grid": [60, 45]},
    {"grid": "O2"},
    {"grid": "H2"},
    {"grid": "H2", "order": "nested"},
)
# name: (input, output, options); a grid, or the name of points and their type
REQ = {
    "ll30-ll45": (LL30, LL45, {}),
    "ll45-ll30": (LL45, LL30, {}),
    "ll30-ll60": (LL30, LL60, {}),
    "ll30-ll45 nn": (LL30, LL45, NN),
    "ll30-ll45 gba": (LL30, LL45, {"interpolation": "grid-box-average"}),
    "ll30-ll45 2": (LL30, LL45, {"interpolation": "k-nearest-neighbours", "nearest-method": "nclosest", "nclosest": 2}),
    "ll30-ll45 3": (LL30, LL45, {"interpolation": "k-nearest-neighbours", "nearest-method": "nclosest", "nclosest": 3}),
    "ll30-o2": (LL30, O2, {}),
    "o2-ll30": (O2, LL30, {}),
    "h2-ll45": (H2, LL45, {}),
    "h2n-ll45": (H2N, LL45, {}),
    "ll45-h2n": (LL45, H2N, {}),
    "ll45-p": (LL45, "p list", NN),
    "ll45-p linear": (LL45, "p list", {}),
    "ll45-p numpy": (LL45, "p numpy", NN),
    "ll45-p tuple": (LL45, "p tuple", NN),
    "ll45-p f4": (LL45, "p f4", NN),
    "ll45-p lon": (LL45, "p lon list", NN),
    "ll45-p lat": (LL45, "p lat numpy", NN),
    "ll45-p turned": (LL45, "p turned strided", NN),
    "ll45-p swap": (LL45, "p swap list", NN),
    "ll45-p less": (LL45, "p less list", NN),
    "ll45-other way": (LL45, "p other way list", NN),
    "ll45-other way round": (LL45, "p other way round list", NN),
    "ll45-west": (LL45, "p west list", NN),
    "p-ll45": ("p list", LL45, NN),
    "p lon-ll45": ("p lon list", LL45, NN),
    "p-p lon": ("p list", "p lon list", NN),
    "p lon-p": ("p lon list", "p list", NN),
    "p turned-p": ("p turned list", "p list", NN),
    "p-p": ("p numpy", "p list", NN),
    "ll45-long": (LL45, "long numpy", NN),
    "ll45-long list": (LL45, "long list", NN),
    "ll45-long first": (LL45, "long first numpy", NN),
    "ll45-long middle": (LL45, "long middle numpy", NN),
    "ll45-long last": (LL45, "long last numpy", NN),
    "long-ll45": ("long numpy", LL45, NN),
    "long middle-ll45": ("long middle numpy", LL45, NN),
    "ll45-fine+": (LL45, "fine+ numpy", NN),
    "ll45-fine-": (LL45, "fine- numpy", NN),
    "ll45-whole": (LL45, "whole list", NN),
    "ll45-whole i4": (LL45, "whole i4", NN),
}  # fmt: skip


def points(name):
    """-> (name of the points, latitudes, longitudes) as they are given"""
    import numpy as np

    name, kind = name.rsplit(" ", 1)
    r = []
    for x in POINTS[name]:
        if kind == "numpy":
            x = np.array(x, dtype="f8")
        elif kind == "f4":
            x = np.array(x, dtype="f4")
        elif kind == "i4":
            x = np.array(x, dtype="i4")
        elif kind == "tuple":
            x = tuple(x)
        elif kind == "strided":
            x = np.repeat(np.array(x), 3)[::3]
        r.append(x)
    return name, r[0], r[1]


def arguments(req):
    import copy

    i, o, opts = REQ[req]
    kw = copy.deepcopy(opts)
    for side, g in (("in", i), ("out", o)):
        if isinstance(g, str):
            _, kw[side + "_lat"], kw[side + "_lon"] = points(g)
        else:
            kw[side + "_grid"] = copy.deepcopy(g)
    return kw


# -- the oracle


def canonical(z):
    """-> the shape and the elements of a matrix"""
    import hashlib

    import numpy as np

    d = z.toarray()
    assert d.dtype == np.float64, d.dtype
    return f"{d.shape} {hashlib.sha1(np.ascontiguousarray(d).tobytes()).hexdigest()[:12]}"


def write_points(path, lat, lon):
    """A file of points, as the library reads it."""
    out = b""

    def ulong(x):
        return struct.pack("b", 10) + struct.pack("!L", x)

    out += ulong(1) + ulong(len(lat))
    for p in zip(lat, lon):
        for x in p:
            b = struct.pack("!d", float(x))
            out += struct.pack("b", 14) + b[4:] + b[:4]
    with open(path, "wb") as f:
        f.write(out)


def decode(path):
    import numpy as np
    from scipy.sparse import csr_array

    with open(path, "rb") as f:
        b = f.read()
    pos = 0

    def num():
        nonlocal pos
        v = struct.unpack("!L", b[pos + 1 : pos + 5])[0]
        pos += 5
        return v

    def blob(dtype):
        nonlocal pos
        assert b[pos] == 21
        n = struct.unpack("!Q", b[pos + 1 : pos + 9])[0]
        r = b[pos + 9 : pos + 9 + n]
        pos += 9 + n
        assert len(r) == n
        return np.frombuffer(r, dtype=dtype)

    rows, cols, _, little, si, ss, _ = (num() for _ in range(7))
    assert little and si == 4 and ss == 8
    outer, inner, data = blob("<u4"), blob("<u4"), blob("<f8")
    return csr_array((data, inner, outer), shape=(rows, cols))


def grid_points(g):
    """Points of a regular grid, or None."""
    if isinstance(g, str):
        _, lat, lon = points(g)
        return [float(x) for x in lat], [float(x) for x in lon]
    if isinstance(g["grid"], list):
        dx, dy = g["grid"]
        r = [(90 - j * dy, i * dx) for j in range(int(180 / dy) + 1) for i in range(int(360 / dx))]
        return [p[0] for p in r], [p[1] for p in r]
    return None


def nearest_ok(i, o, d):
    """Is every output point given the value of a nearest input point?"""
    import numpy as np

    a, b = grid_points(i), grid_points(o)

    def xyz(p):
        la, lo = np.radians(np.array(p[0])), np.radians(np.array(p[1]))
        return np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)], axis=1)

    A, B = xyz(a), xyz(b)
    if d.shape != (len(B), len(A)):
        return f"shape {d.shape} instead of {(len(B), len(A))}"
    dist = ((B[:, None, :] - A[None, :, :]) ** 2).sum(axis=2)
    for k in range(len(B)):
        js = np.nonzero(d[k])[0]
        if not len(js) or abs(d[k].sum() - 1) > 1e-12:
            return f"weights of point {k}: {d[k][js]}"
        if dist[k][js].max() > dist[k].min() + 1e-13:
            return f"point {k} takes the value of a point that is not the nearest"
    return ""


def reference(req):
    """The matrix of the request, by itself."""
    import mir

    setup()
    i, o, opts = REQ[req]
    j = mir.Job()
    if isinstance(i, str):
        _, la, lo = points(i)
        write_points("in.griddef", la, lo)
        src = mir.GriddefInput(os.path.abspath("in.griddef"))
    else:
        src = mir.GridSpecInput(json.dumps(i))
    if isinstance(o, str):
        _, la, lo = points(o)
        write_points("out.griddef", la, lo)
        j.set("griddef", os.path.abspath("out.griddef"))
    else:
        j.set("grid", json.dumps(o))
    for k, v in opts.items():
        j.set(k, v)
    os.makedirs("mir", exist_ok=True)
    m = os.path.abspath("mir/reference.mat")
    j.set("interpolation-matrix", m)
    j.execute(src, mir.EmptyOutput())
    z = decode(m)
    d = z.toarray()
    if opts is NN and grid_points(i) and grid_points(o):
        t = nearest_ok(i, o, d)
        if t:
            raise RuntimeError(f"{req}: {t}")
    return canonical(z), z.nnz


def check_grids(req):
    """The matrix of a pair of grids against the regridding of an array."""
    import numpy as np

    setup()
    from earthkit.regrid.array import regrid
    from earthkit.regrid.utils.mir import mir_make_matrix

    i, o, opts = REQ[req]
    mir_make_matrix(output="m.mat", **arguments(req))
    z = decode("m.mat")
    v = (np.arange(z.shape[1]) * 37) % 101 - 40.0
    kw = {k.replace("-", "_"): x for k, x in opts.items()}
    r, _ = regrid(v, i, o, backend="mir", **kw)
    e = z @ v
    p = []
    if np.size(r) != len(e) or not np.allclose(np.ravel(r), e, rtol=1e-12, atol=1e-12):
        p.append(f"{req}: the matrix does not give the result of regridding an array")
    return {"problems": p, "counts": {"evaluations": 1}, "distinct": [f"grids {req}"]}


def setup():
    os.environ["EARTHKIT_REGRID_CACHE_POLICY"] = "off"
    os.environ["MIR_CACHE_PATH"] = os.path.join(os.getcwd(), "mir")


def references():
    from mc import core
    from mc import inv

    def build(path):
        pool = core.Pool(core._call1(reference))
        for r in REQ:
            pool.submit(r, r)
        out = {}
        for r, (kind, val) in pool.results():
            if kind != "ok":
                raise RuntimeError(f"reference of {r}: {kind} {val}")
            out[r] = val
        pool.close()
        with open(os.path.join(path, "refs.json"), "w") as f:
            json.dump(out, f)

    with open(os.path.join(inv.shared("c17", build), "refs.json")) as f:
        return json.load(f)


# -- computations


def outcome(req, output):
    """Compute; -> what is given: canonical matrix, or the error"""
    from earthkit.regrid.utils.mir import mir_make_matrix

    kw = arguments(req)
    try:
        r = mir_make_matrix(output=output, **kw)
    except Exception as e:
        return f"error {type(e).__name__}: {str(e)[:150]}"
    same = True
    for (k, x), y in zip(sorted(kw.items()), [v for _, v in sorted(arguments(req).items())]):
        same &= type(x) is type(y) and str(x) == str(y)
    if not same:
        return "an argument was modified"
    if output is None:
        return canonical(r)
    if r is not None:
        return f"returned {r}"
    return content(output)


def content(path):
    """What a file of a matrix holds."""
    try:
        if path.endswith(".mat"):
            return canonical(decode(path))
        from scipy.sparse import load_npz

        return canonical(load_npz(path))
    except FileNotFoundError:
        return "no file"
    except Exception as e:
        return f"unreadable {type(e).__name__}: {str(e)[:80]}"


def compute(steps):
    """In one process: [(request, output)] -> outcomes, and the content of the outputs at the end"""
    setup()
    r = [outcome(*s) for s in steps]
    return r, {s[1]: content(s[1]) for s in steps if s[1]}


def run_sequence(case):
    """case: refs of the requests are looked up; sessions: [[(request, output)]]"""
    from mc import core

    refs = references()
    problems = []
    last = {}
    for s in case.get("before", ()):
        name, what = s
        if what == "text":
            with open(name, "wb") as f:
                f.write(b"something else")
        elif what == "empty":
            open(name, "wb").close()
        elif what == "folder":
            os.makedirs(name)
    distinct = []
    for n, steps in enumerate(case["sessions"]):
        got, files = core.fork_call(compute, steps, scratch=os.getcwd(), own_dirs=False, timeout=100)
        seen = {}
        for (req, output), g in zip(steps, got):
            where = f"{case['sessions'][: n + 1]}: {req} -> {output}"
            exp = refs[req][0]
            if g == exp:
                last[output] = {exp}
            elif g.startswith("error") and exp in seen:
                # the library has it in memory
                last.setdefault(output, {"no file"}).add("no file")
            else:
                problems.append(f"{where}: {g} instead of {exp}")
            seen[exp] = 1
            distinct.append(f"{n} {req} {str(output)[-3:]} {g[:12]}")
        for f, c in files.items():
            if f in last and c not in last[f]:
                problems.append(f"{case['sessions'][: n + 1]}: {f} holds {c} instead of {last[f]}")
    return dict(problems=problems, counts={"evaluations": len(distinct)}, distinct=[repr(case)], sample=case)


# -- errors


def bad_calls():
    import numpy as np

    # every choice of what describes each side, but the valid ones
    sides = {}
    for side, grid in (("in", LL30), ("out", LL45)):
        parts = {f"{side}_grid": grid, f"{side}_lat": LAT, f"{side}_lon": LON}
        sides[side] = []
        for mask in range(8):
            chosen = [k for i, k in enumerate(parts) if mask >> i & 1]
            ok = mask in (0b001, 0b110)
            sides[side].append((ok, chosen, {k: parts[k] for k in chosen}))
    for oki, ci, ki in sides["in"]:
        for oko, co, ko in sides["out"]:
            if not (oki and oko):
                yield "given " + " ".join(ci + co), {**ki, **ko}
    for side, other in (("in", {"out_grid": LL45}), ("out", {"in_grid": LL30})):
        grid = {f"{side}_grid": LL30}
        lat, lon = {f"{side}_lat": LAT}, {f"{side}_lon": LON}
        for kind in (list, np.array):
            none = kind([])
            yield f"{side} grid and no latitudes", {**other, **grid, f"{side}_lat": none}
            yield f"{side} grid and no longitudes", {**other, **grid, f"{side}_lon": none}
            yield f"{side} grid and no points", {**other, **grid, f"{side}_lat": none, f"{side}_lon": none}
            yield f"{side} points, no longitudes", {**other, **lat, f"{side}_lon": none}
            yield f"{side} points, no latitudes", {**other, **lon, f"{side}_lat": none}
    for kind in (list, np.array):
        yield "more latitudes", {"in_grid": LL45, "out_lat": kind(LAT), "out_lon": kind(LON[:3]), **NN}
        yield "more longitudes", {"in_grid": LL45, "out_lat": kind(LAT[:3]), "out_lon": kind(LON), **NN}
        yield "more input latitudes", {"in_lat": kind(LAT), "in_lon": kind(LON[:4]), "out_grid": LL45, **NN}
        yield "no points", {"in_grid": LL45, "out_lat": kind([]), "out_lon": kind([]), **NN}
        yield "no input points", {"in_lat": kind([]), "in_lon": kind([]), "out_grid": LL45, **NN}
    yield "unknown grid", {"in_grid": {"grid": "Z9"}, "out_grid": LL45}
    yield "unknown target", {"in_grid": LL30, "out_grid": {"grid": "Z9"}}
    yield "unknown method", {"in_grid": LL30, "out_grid": LL45, "interpolation": "none such"}


def run_errors(case):
    setup()
    from earthkit.regrid.utils.mir import mir_make_matrix

    refs = references()
    problems, distinct, n = [], [], 0
    ext = case["ext"]
    out = "out" + ext
    good = "ll30-o2"

    def attempt(kw, output):
        try:
            mir_make_matrix(output=output, **kw)
        except Exception as e:
            return type(e).__name__
        return "a result"

    for exists in (False, True):
        if exists:
            mir_make_matrix(output=out, **arguments(good))
        for name, kw in bad_calls():
            n += 1
            r = attempt(kw, out)
            distinct.append(f"{ext} {name} {exists} {r}")
            if r == "a result":
                problems.append(f"{name} ({out}): no error")
            c = content(out)
            if c != "no file" and (not exists or c != refs[good][0]):
                problems.append(f"{name} ({out}): the output holds {c}")
            if exists and c == "no file":
                exists = False  # removed, also fine
    for name in ("m.txt", "m", "m.npy", "m.mat.gz", "none/such/m" + ext):
        n += 1
        r = attempt(arguments("ll45-ll30"), name)
        distinct.append(f"{name} {r}")
        if r == "a result" or os.path.exists(name):
            problems.append(f"{name}: no error")
    g = outcome("ll30-ll60", "after" + ext)
    if g != refs["ll30-ll60"][0]:
        problems.append(f"after the errors: {g}")
    return dict(problems=problems, counts={"evaluations": n}, distinct=distinct)


# -- kills

# name: (computations before, the one that is killed)
KILLS = {
    "mat": ([], ("ll30-ll45", "a.mat")),
    "npz": ([], ("ll30-ll45", "a.npz")),
    "mat again": ([("ll30-o2", "a.mat")], ("ll30-ll45", "a.mat")),
    "npz again": ([("ll30-o2", "a.npz")], ("ll30-ll45", "a.npz")),
    "points": ([], ("ll45-p", "a.mat")),
    "two points": ([("p-ll45", "a.npz")], ("p lon-p", "a.npz")),
}


def killed(name, k, log=False):
    import scipy.sparse._matrix_io as io_mod

    from mc import crash
    from mc import sched

    setup()
    sched.install()
    req, output = KILLS[name][1]
    crash.GRAIN = 1 if os.environ.get("VERIF_TIER") == "thorough" else 40
    d = os.getcwd()
    seen = crash.observe([d]) if log else None

    def main():
        from earthkit.regrid.utils.mir import mir_make_matrix

        mir_make_matrix(output=output, **arguments(req))

    n, failure = crash.run(main, k, prefixes=[io_mod.__file__])
    return n, failure, seen


def kill_reference(name):
    from mc import core

    before = KILLS[name][0]
    if before:
        core.fork_call(compute, before, scratch=os.getcwd(), own_dirs=False)
    n, failure, seen = core.fork_call(killed, name, 0, True, scratch=os.getcwd(), own_dirs=False)
    if failure:
        raise RuntimeError(f"{name}: {failure}")
    return {"points": n, "kills": [k for k, _ in seen] + [n + 1]}


def run_kill(case):
    from mc import core

    d = os.getcwd()
    refs = references()
    before, (req, output) = KILLS[case["name"]]
    if before:
        core.fork_call(compute, before, scratch=d, own_dirs=False)
    try:
        core.fork_call(killed, case["name"], case["kill"], scratch=d, own_dirs=False, timeout=60)
    except core.ChildDied:
        pass
    problems = []
    c = content(output)
    allowed = {refs[req][0], refs[before[-1][0]][0] if before else "no file"}
    if c not in allowed:
        problems.append(f"after the kill {output} holds {c}")
    again = case["then"]
    steps = {"same": [(req, output)], "other": [("p lon-p", "b.npz"), ("ll45-p", output), ("ll30-ll60", "c.mat")]}[again]
    got, files = core.fork_call(compute, steps, scratch=d, own_dirs=False, timeout=60)
    for (r, o), g in zip(steps, got):
        if g != refs[r][0]:
            problems.append(f"after the kill, {r} -> {o}: {g} instead of {refs[r][0]}")
    return dict(problems=problems, counts={"evaluations": 1, "kills": 1}, distinct=[repr(case)], sample=case)


# -- processes

PROGRAMS = {
    "same": [("ll45-p", "a.mat"), ("ll45-p", "a.mat")],
    "same npz": [("ll30-ll45", "a.npz"), ("ll30-ll45", "a.npz")],
    "same points": [("ll45-p", "a.mat"), ("p-ll45", "b.npz")],
    "same output": [("ll30-ll45", "a.npz"), ("ll30-ll60", "a.npz")],
    "same output mat": [("ll30-ll45", "a.mat"), ("ll45-p", "a.mat")],
}
_warm = []


def warm():
    from mc import sched

    if _warm:
        return
    _warm.append(1)
    sched.install()
    sched.prepare()
    import earthkit.regrid.utils.mir  # noqa: F401


def user(step):
    setup()
    from earthkit.regrid.utils.mir import mir_make_matrix

    req, output = step
    try:
        mir_make_matrix(output=output, **arguments(req))
    except Exception as e:
        import traceback

        return f"error {type(e).__name__}: {e} {traceback.format_exc()[-500:]}"
    return "ok"


def run_processes(case):
    from mc import core
    from mc import procs

    warm()
    refs = references()
    steps = PROGRAMS[case["program"]]
    r = procs.run([lambda s=s: user(s) for s in steps], lambda: None, case["dev"])
    problems, diverged, results = [], None, []
    failure = r["failure"]
    if failure and failure.startswith("diverged"):
        diverged = failure
    elif failure:
        problems.append(failure)
    else:
        for i, (f, x) in enumerate(r["results"]):
            results.append(x)
            if f or x != "ok":
                problems.append(f"process {i}: {f or x}")
        for o in {s[1] for s in steps}:
            c = content(o)
            if c not in [refs[s[0]][0] for s in steps if s[1] == o]:
                problems.append(f"{o} holds {c}")
            results.append(c)
        got, _ = core.fork_call(compute, [(steps[0][0], "z.mat")], scratch=os.getcwd(), own_dirs=False, timeout=60)
        if got[0] != refs[steps[0][0]][0]:
            problems.append(f"a later process: {got[0]}")
    return {"trace": r["trace"], "problems": problems, "diverged": diverged, "outcome": repr(results)}


def run(case):
    kind = case.get("family")
    if "dev" in case:
        return run_processes(case)
    if kind == "errors":
        return run_errors(case)
    if kind == "kill":
        return run_kill(case)
    if kind == "grids":
        return check_grids(case["req"])
    return run_sequence(case)


replay = run

# requests that can be confused with one another
CORE = ["ll30-ll45", "ll30-ll45 nn", "ll30-ll45 2", "h2n-ll45", "ll45-p", "ll45-p lon", "p-ll45", "ll45-long", "ll45-long middle", "ll45-fine+"]


def families(thorough):
    for e in (".mat", ".npz"):
        yield "errors", {"family": "errors", "ext": e}
    for r, (i, o, _) in REQ.items():
        if not isinstance(i, str) and not isinstance(o, str):
            yield "grids", {"family": "grids", "req": r}
    outs = [("a.mat", "a.mat"), ("a.npz", "a.npz"), (None, None), ("a.mat", "b.npz"), ("a.npz", "a.npz.mat")]
    for r in REQ:
        for o in ("a.mat", "a.npz", None):
            yield "single", {"sessions": [[(r, o)]]}
    for a, b in itertools.product(REQ, REQ):
        for n, (x, y) in enumerate(outs):
            both = a in CORE and b in CORE
            if both or thorough or n == 2:
                yield "same process", {"sessions": [[(a, x), (b, y)]]}
            if both or thorough or n == 1:
                yield "new process", {"sessions": [[(a, x)], [(b, y)]]}
    for r in CORE if not thorough else REQ:
        for ext in (".mat", ".npz"):
            for junk in ("text", "empty"):
                for name in ("a" + ext, "a" + ext + ".mat", "a" + ext + ".tmp", "a.mat", "a.npz", "a"):
                    yield "existing files", {"before": [(name, junk)], "sessions": [[(r, "a" + ext)]]}
    few = CORE[:10] if thorough else [CORE[0], CORE[4], CORE[5], CORE[7], CORE[8]]
    for s in itertools.product(few, repeat=3):
        yield "three", {"sessions": [[(s[0], "a.npz")], [(s[1], "b.mat"), (s[2], "a.npz")]]}


def explore(ctx):
    from mc import core
    from mc import sched

    try:
        refs = references()
    except RuntimeError as e:
        raise RuntimeError(f"no reference: {e}")
    ctx.counts["references"] = len(refs)
    # the requests are different, except for the types of the arguments
    ctx.counts["different_references"] = len({v[0] for v in refs.values()})
    if os.environ.get("VERIF_DEBUG"):
        for r, v in refs.items():
            print(r, v)
    only = os.environ.get("VERIF_ONLY")
    cases = [(f, c) for f, c in families(ctx.thorough) if not only or f in only.split(",")]
    ctx.run_cases(run, cases, timeout=200)
    if ctx.violations:
        return
    if not only or "kill" in only:
        kills = []
        for name in KILLS:
            kind, ref = core.run_isolated(kill_reference, (name,), 120)
            if kind != "ok":
                raise RuntimeError(f"kill {name}: {ref}")
            ctx.counts["kill_points"] += ref["points"]
            kills += [("kill", dict(family="kill", name=name, kill=k, then=t)) for k in ref["kills"] for t in ("same", "other")]
        ctx.run_cases(run, kills, timeout=120)
    if ctx.violations:
        return
    for name in PROGRAMS:
        if not only or "processes" in only:
            sched.explore(
                ctx, name, run_processes, 2 if ctx.thorough else 1, family="processes-" + name, init=warm,
                max_free=1 if ctx.thorough else 0, cap=3000 if ctx.thorough else None,
            )  # fmt: skip
