"""C10: grid lookup accepts exactly the spellings of the same grid.

The universe below holds grids that are easily confused (same resolution but another area, first
meridian, scanning mode, ordering, subtype) and, for each of them, the spellings a request may
use. Inventories hold an entry for pairs of these grids, the weights of each entry are a single
code number, so that the value returned by regrid() tells which entry was used. Every request
must be answered by the entry of exactly its grids and method, or by an error if there is none.
The oracle is the way the spellings are generated (a spelling belongs to one grid).
"""
import copy
import itertools
import os

LEVEL = "exploration"
RULE = (
    "one evaluation = one regrid() call; distinct = distinct (family, input spelling, output spelling, method, outcome)"
)
ASSUMPTIONS = [
    "universe of grids and spellings of mc/checks/c10.py; global areas are equal within the tolerances of the repository's tests",
    "two spellings of a grid that is not global are only the same when they give the same numbers",
]

G85 = 87.8638  # first latitude of O32/N32
FLAGS = ("i_scans_negatively", "j_points_consecutive", "j_scans_positively")


def universe():
    """id -> dict(entry=, forms=[...], req=[...], n=)"""
    u = {}

    def add(name, entry, req, forms=(), n=None):
        shape = entry.get("shape")
        if n is None:
            n = 1
            for s in shape or []:
                n *= s
        if not shape:
            entry = dict(entry, shape=[n])
        u[name] = dict(entry=entry, req=list(req), forms=[entry] + list(forms), n=n)

    def flags(base):
        r = [dict(base, **{f: 0}) for f in FLAGS]
        r.append(dict(base, **{f: 0 for f in FLAGS}))
        return r

    def ll_global(name, grid, shape, area, more=()):
        n, w, s, e = area
        dx = grid[0]
        areas = [
            [n, w, s, e],
            (n, w, s, e),
            [float(v) for v in area],
            [n, w, s, w + 360],
            [n, w - 360, s, e - 360],
            [n, w + 360, s, e + 360],
            [n, w + 360, s, w + 720],
            [n + 1e-10, w, s - 1e-10, e],
            [n, w + 1e-10, s, e + 1e-10],
        ] + list(more)
        base = {"grid": list(grid)}
        req = [
            base,
            {"grid": tuple(grid)},
            {"grid": [float(v) for v in grid]},
            *([{"grid": [grid[0] + 1e-7, grid[1]]}] if area[0] == 90 else []),
            {"grid": list(grid), "type": "regular_ll"},
            {"grid": list(grid), "shape": list(shape)},
            {"grid": list(grid), "shape": tuple(shape)},
            *flags(base),
        ]
        if area[0] == 90:
            req.append({"grid": list(grid), "global": 1})
        req += [{"grid": list(grid), "area": a} for a in areas]
        req += [dict({"grid": list(grid), "area": a}, shape=list(shape), **{f: 0 for f in FLAGS}) for a in areas[:4]]
        req.append({"grid": list(grid), "area": list(area), "global": 1})
        entry = {"grid": list(grid), "shape": list(shape), "area": list(area), "global": 1}
        forms = [
            {"grid": list(grid), "shape": list(shape)},
            {"grid": list(grid), "shape": list(shape), "area": [n, w, s, w + 360]},
            {"grid": list(grid), "shape": list(shape), "area": list(area)},
            dict(entry, **{f: 0 for f in FLAGS}, type="regular_ll"),
        ]
        if dx == 1.4:
            # the distance from the last to the first meridian is not dx
            req = [r for r in req if not ("area" in r and abs(r["area"][3] - r["area"][1] - 359.8) > 1e-6)]
            req = [r for r in req if "area" not in r or list(r["area"])[1] == 0]
            forms = [forms[0], forms[3]]
        add(name, entry, req, forms)

    ll_global("LL5", (5, 5), (37, 72), (90, 0, -90, 355))
    ll_global("LL10", (10, 10), (19, 36), (90, 0, -90, 350))
    ll_global("LL5x10", (5, 10), (19, 72), (90, 0, -90, 355))
    ll_global("LL10x5", (10, 5), (37, 36), (90, 0, -90, 350))
    ll_global("LL7.5", (7.5, 7.5), (25, 48), (90, 0, -90, 352.5))
    ll_global("LL1.6", (1.6, 1.6), (113, 225), (89.6, 0, -89.6, 358.4))
    ll_global("LL1.4", (1.4, 1.4), (129, 258), (89.6, 0, -89.6, 359.8))

    def ll(name, grid, shape, area, spell=(), flag=None):
        e = {"grid": list(grid), "shape": list(shape), "area": list(area)}
        if flag:
            e[flag] = 1
        req = []
        for a in [list(area), tuple(area), [float(v) for v in area], [v + 1e-10 for v in area]] + list(spell):
            r = {"grid": list(grid), "area": a}
            if flag:
                r[flag] = 1
            req += [r, dict(r, shape=list(shape)), dict(r, grid=tuple(grid)), dict(r, type="regular_ll")]
            for f in FLAGS:
                if f != flag:
                    req.append(dict(r, **{f: 0}))
        if flag and list(area) == [90, 0, -90, 355]:
            req += [{"grid": list(grid), flag: 1}, {"grid": list(grid), flag: 1, "global": 1}]
        forms = [dict(e, type="regular_ll"), dict(e, **{f: (1 if f == flag else 0) for f in FLAGS})]
        add(name, e, req, forms)

    ll("LL5-north", (5, 5), (19, 72), (90, 0, 0, 355))
    ll("LL5-85", (5, 5), (35, 72), (85, 0, -85, 355))
    ll("LL5-cut", (5, 5), (37, 71), (90, 0, -90, 350))
    ll("LL5-w180", (5, 5), (37, 72), (90, -180, -90, 175), [[90, -180, -90, 180], [90, 180, -90, 535], [90, 180, -90, 540]])
    ll("LL5-w5", (5, 5), (37, 72), (90, 5, -90, 360), [[90, 5, -90, 365], [90, -355, -90, 0]])
    ll("LL5-sub", (5, 5), (13, 13), (60, 0, 0, 60))
    ll("LL5-sub2", (5, 5), (13, 13), (60, 5, 0, 65))
    ll("LL5-sub3", (5, 5), (13, 13), (65, 0, 5, 60))
    ll("LL5-sub4", (5, 5), (13, 14), (60, 0, 0, 65))
    ll("LL5-jpos", (5, 5), (37, 72), (90, 0, -90, 355), [[90, 0, -90, 360]], flag="j_scans_positively")
    ll("LL5-ineg", (5, 5), (37, 72), (90, 0, -90, 355), [[90, 0, -90, 360]], flag="i_scans_negatively")
    ll("LL5-jcon", (5, 5), (37, 72), (90, 0, -90, 355), [[90, 0, -90, 360]], flag="j_points_consecutive")

    def gg(name, grid, n, area, tol=True):
        base = {"grid": grid}
        req = []
        for g in (grid, grid.lower()):
            req += [{"grid": g}, {"grid": g, "type": "reduced_gg"}, {"grid": g, "shape": [n]}, {"grid": g, "shape": (n,)},
                    {"grid": g, "global": 1}, {"grid": g, "area": [90, 0, -90, 360]}, {"grid": g, "area": (90, 0, -90, 360)},
                    {"grid": g, "area": [90.0, 0.0, -90.0, 360.0]}, {"grid": g, "area": list(area)},
                    {"grid": g, "area": list(area), "global": 1}, {"grid": g, "area": list(area), "shape": [n]}]  # fmt: skip
        req += flags(base)
        if tol:
            a = list(area)
            req += [{"grid": grid, "area": [a[0], a[1] + 0.01, a[2], a[3]]}, {"grid": grid, "area": [a[0] + 0.01, a[1], a[2] - 0.01, a[3]]},
                    {"grid": grid, "area": [a[0], a[1], a[2], a[3] + 0.1]}]  # fmt: skip
        entry = {"grid": grid, "shape": [n], "area": list(area), "global": 1}
        add(name, entry, req, [dict(entry, type="reduced_gg"), dict(entry, grid=grid.lower())])

    gg("O32", "O32", 5248, (G85, 0, -G85, 357.5))
    gg("N32", "N32", 6114, (G85, 0, -G85, 357.188))
    gg("O16", "O16", 1600, (85.7606, 0, -85.7606, 355.5), tol=False)
    gg("N16", "N16", 1654, (85.7606, 0, -85.7606, 354.375), tol=False)
    gg("O3", "O3", 108, (66.8098, 0, -66.8098, 347.143), tol=False)

    def gg_sub(name, grid, n, area):
        e = {"grid": grid, "shape": [n], "area": list(area)}
        req = []
        for g in (grid, grid.lower()):
            for a in (list(area), tuple(area)):
                req += [{"grid": g, "area": a}, {"grid": g, "area": a, "shape": [n]}, {"grid": g, "area": a, "type": "reduced_gg"}]
        add(name, e, req, [dict(e, type="reduced_gg")])

    gg_sub("O32-band", "O32", 1200, (50, 0, 10, 357.5))
    gg_sub("O32-band2", "O32", 1200, (50, 0, 10, 360))
    gg_sub("O32-sub", "O32", 300, (50, 0, 10, 60))
    gg_sub("O32-cut", "O32", 5100, (G85, 0, -G85, 350))
    gg_sub("O32-w180", "O32", 5248, (90, -180, -90, 180))
    gg_sub("N32-north", "N32", 3057, (90, 0, 0, 360))
    del u["O32-band2"]  # the same points as O32-band within the tolerance, not decided

    def hp(name, grid, n, order):
        req = []
        for g in (grid, grid.lower()):
            for extra in ({"order": order}, {"ordering": order}) + (({},) if order == "ring" else ()):
                r = dict({"grid": g}, **extra)
                req += [r, dict(r, type="healpix"), dict(r, shape=[n]), *flags(r)[-1:]]
        forms = [{"grid": grid, "ordering": order}, {"grid": grid, "order": order, "shape": [n]},
                 {"grid": grid.lower(), "ordering": order, "global": 1, "type": "healpix"}]  # fmt: skip
        if order == "ring":
            forms.append({"grid": grid})
        add(name, {"grid": grid, "ordering": order, "shape": [n]}, req, forms)

    for g, n in (("H2", 48), ("H4", 192), ("H1", 12)):
        hp(g + "-ring", g, n, "ring")
        hp(g + "-nested", g, n, "nested")

    for i, g in enumerate(
        ("eORCA025_T", "eORCA025_U", "eORCA025_V", "eORCA025_W", "eORCA025_F", "ORCA025_T", "eORCA1_T", "ORCA2_T", "eORCA12_T")
    ):
        n = 21 + i
        base = {"grid": g}
        add(g, {"grid": g, "shape": [n], "global": 1}, [base, dict(base, type="orca"), dict(base, shape=[n]), *flags(base)[-1:]],
            [{"grid": g, "shape": [n]}, {"grid": g, "shape": [n], "type": "orca"}], n=n)  # fmt: skip
    return u


# denote no grid of the universe (or no grid at all)
BAD = [
    {"grid": "G1280"},
    {"grid": "bORCA025_T"},
    {"grid": "ORCA025_TU"},
    {"grid": "eORCA025"},
    {"grid": "eORCA025_X"},
    {"grid": "eORCA0250_T"},
    {"grid": "ORCA1_T"},
    {"grid": "eORCA025_T", "shape": [5]},
    {"grid": "O32x"},
    {"grid": "O320"},
    {"grid": "O"},
    {"grid": "O31"},
    {"grid": "N3"},
    {"grid": "H3"},
    {"grid": "H24"},
    {"grid": "H2", "order": "RING"},
    {"grid": "H2", "order": "other"},
    {"grid": "H2", "ordering": "other"},
    {"grid": "H2", "order": "nested", "shape": [12]},
    {"grid": "H2", "shape": [12]},
    {"grid": ""},
    {"grid": None},
    {"grid": 5},
    {"grid": [5]},
    {"grid": [5, 5, 5]},
    {"grid": []},
    {},
    {"shape": [37, 72]},
    {"type": "regular_ll", "grid": "O32"},
    {"type": "reduced_gg", "grid": [5, 5]},
    {"type": "healpix", "grid": "O32"},
    {"type": "reduced_gg", "grid": "H2"},
    {"type": "orca", "grid": "O32"},
    {"type": "new_type", "grid": "O32"},
    {"grid": [5.001, 5]},
    {"grid": [5, 4.999]},
    {"grid": [2.5, 2.5]},
    {"grid": [-5, 5]},
    {"grid": [5, 5], "shape": [36, 72]},
    {"grid": [5, 5], "shape": [72, 37]},
    {"grid": [5, 5], "area": [90.001, 0, -90, 360]},
    {"grid": [5, 5], "area": [90, 0, -89.0001, 360]},
    {"grid": [5, 5], "area": [90, 0.001, -90, 360]},
    {"grid": [5, 5], "area": [90, 0, -90, 359.999]},
    {"grid": [5, 5], "area": [90, 10, -90, 370]},
    {"grid": [5, 5], "area": [90, 0, -85, 360]},
    {"grid": [5, 5], "area": [85, 0, -90, 360]},
    {"grid": [5, 5], "area": [-90, 0, 90, 360]},
    {"grid": [5, 5], "area": [90, 0, -90, 180]},
    {"grid": [5, 5], "area": [60, 0, 0, 70]},
    {"grid": [5, 5], "area": [60, 0, -5, 60]},
    {"grid": [5, 5], "area": [60, 5, 0, 60]},
    {"grid": [5, 5], "area": [55, 0, 0, 60]},
    {"grid": [5, 5], "area": [60, 0, 0]},
    {"grid": [5, 5], "area": []},
    {"grid": [5, 5], "i_scans_negatively": 1, "j_scans_positively": 1},
    {"grid": [5, 5], "area": [60, 0, 0, 60], "j_scans_positively": 1},
    {"grid": "O32", "shape": [6114]},
    {"grid": "O32", "shape": [5249]},
    {"grid": "O32", "shape": [64, 82]},
    {"grid": "O32", "area": [90, 0, -90, 359.999]},
    {"grid": "O32", "area": [90, -0.15, -90, 360]},
    {"grid": "O32", "area": [G85, 0, -G85, 357.7]},
    {"grid": "O32", "area": [G85, 0.2, -G85, 357.5]},
    {"grid": "O32", "area": [G85, 0, -G85, 355]},
    {"grid": "O32", "area": [G85, 0, 0, 357.5]},
    {"grid": "O32", "area": [84, 0, -84, 357.5]},
    {"grid": "O32", "area": [84, 0, -84, 360]},
    {"grid": "O32", "area": [0, 0, -90, 360]},
    {"grid": "O32", "area": [90, 0, 10, 360]},
    {"grid": "O32", "area": [90, 90, -90, 450]},
    {"grid": "O32", "i_scans_negatively": 1},
    {"grid": "O32", "j_scans_positively": 1},
    {"grid": "N32", "j_points_consecutive": 1},
    {"grid": "H2", "j_scans_positively": 1},
    {"grid": "eORCA025_T", "i_scans_negatively": 1},
    {"grid": "N32", "area": [85, 0, -85, 360]},
]

SPELL = {"linear": ["linear"], "nearest-neighbour": ["nearest-neighbour", "nn", "nearest-neighbor"], "grid-box-average": ["grid-box-average"]}
BAD_METHODS = ["", "NN", "Linear", "bilinear", "nearest", "grid-box", "linear ", None, "nearest_neighbour"]


def point_matrix(rows, cols, code):
    from scipy.sparse import csr_array

    return csr_array(([float(code)], ([0], [0])), shape=(rows, cols))


def build(path, entries, u):
    """entries: list of (in form, n in, out form, n out, method, name) ; the code of an entry is its index + 1"""
    from mc import inv

    es = []
    for code, (fin, nin, fout, nout, method) in enumerate(entries):
        es.append(inv.entry(fin, fout, method, point_matrix(nout, nin, code + 1), name=f"e{code:05d}"))
    return inv.write(path, es)


REF = ["LL5", "LL10", "LL5-w180", "O32", "N32", "H2-ring", "H2-nested", "eORCA025_T", "O32-sub", "LL5-sub"]


def pairs_inventory(case):
    """The entries of the inventory of a case"""
    u = universe()
    names = list(u)
    kind = case["inv"]
    if kind in ("pairs", "some pairs"):
        keys = [(a, b, "linear") for a in names for b in names]
        if kind == "some pairs":
            keys = [k for k in keys if k[0] == k[1] or k[0] in REF or k[1] in REF]
        if case.get("order") == "reverse":
            keys.reverse()
        elif case.get("order"):
            keys = keys[case["order"] :] + keys[: case["order"]]
    elif kind == "methods":
        keys = []
        for i, (a, b) in enumerate(itertools.product(case["grids"], case["grids"])):
            for j, m in enumerate(SPELL):
                if (i + j) % 3 != 1:
                    keys.append((a, b, m))
    elif kind == "without":
        keys = [(x, "LL10", "linear") for x in names if x != case["grid"] and case["grid"] != "LL10"]
        keys += [("O16", x, "linear") for x in names if x != case["grid"] and x != "LL10" and case["grid"] != "O16"]
        if case["grid"] == "LL10":
            keys += [(x, "O3", "linear") for x in names if x != "LL10"]
        if case["grid"] == "O16":
            keys += [("O3", x, "linear") for x in names if x != "O16"]
        if case.get("order") == "reverse":
            keys.reverse()
    elif kind == "list":
        keys = [tuple(k) for k in case["keys"]]
    else:
        raise ValueError(kind)
    return u, keys


def ask(regrid, path, sin, nin, sout, method, sizes=None):
    """-> ("code", k, shape, grid) or ("error", name)"""
    import numpy as np

    gin, gout = copy.deepcopy(sin), copy.deepcopy(sout)
    v = np.zeros(nin)
    v[0] = 1.0
    try:
        res, grid = regrid(v, gin, gout, interpolation=method, backend="precomputed", inventory=path)
    except Exception as e:
        r = ("error", f"{type(e).__name__}: {e}"[:150])
    else:
        f = np.ravel(res)
        code = int(f[0]) if len(f) and f[0] == int(f[0]) and not np.any(f[1:]) else repr(f[:4])
        r = ("code", code, tuple(np.shape(res)), grid == sout)
    changed = gin != sin or gout != sout
    return r, changed


def setup():
    os.environ["EARTHKIT_REGRID_CACHE_POLICY"] = "off"
    os.environ["EARTHKIT_REGRID_WEIGHTS_MEMORY_CACHE_POLICY"] = "off"
    from earthkit.regrid.array import regrid

    return regrid


def brief(x):
    return str(x)


class Checker:
    def __init__(self, family):
        self.problems = []
        self.counts = {"evaluations": 0}
        self.distinct = set()
        self.family = family

    def full(self):
        return len(self.problems) > 20

    def positive(self, regrid, path, code, sin, nin, sout, shape, method):
        self.counts["evaluations"] += 1
        r, changed = ask(regrid, path, sin, nin, sout, method)
        where = f"{brief(sin)} -> {brief(sout)} {method}"
        if r[0] == "error":
            self.problems.append(f"{where}: not answered by its own entry: {r[1]}")
        elif r[1] != code:
            self.problems.append(f"{where}: answered by entry {r[1]} instead of {code}")
        elif r[2] != tuple(shape):
            self.problems.append(f"{where}: shape {r[2]} instead of {tuple(shape)}")
        elif not r[3]:
            self.problems.append(f"{where}: the returned grid is not the one requested")
        if changed:
            self.problems.append(f"{where}: the request was modified")
        self.distinct.add(f"{self.family} {where} {r[0]}")

    def negative(self, regrid, path, sin, sizes, sout, method):
        where = f"{brief(sin)} -> {brief(sout)} {method}"
        for n in sizes:
            self.counts["evaluations"] += 1
            r, changed = ask(regrid, path, sin, n, sout, method)
            if r[0] != "error":
                self.problems.append(f"{where}: answered by entry {r[1]} although there is none for it")
                break
            if changed:
                self.problems.append(f"{where}: the request was modified")
                break
        self.distinct.add(f"{self.family} {where} {r[0]}")

    def result(self, sample):
        return dict(problems=self.problems, counts=self.counts, distinct=list(self.distinct), sample=sample)


def get_inventory(case, u, keys):
    from mc import core, inv

    ident = "c10-" + core.digest([case["inv"], case.get("order"), case.get("grid"), case.get("grids"), case.get("keys"), len(keys)])
    ents = [(u[a]["entry"], u[a]["n"], u[b]["entry"], u[b]["n"], m) for a, b, m in keys]
    return inv.shared(ident, lambda p: build(p, ents, u))


def run(case):
    regrid = setup()
    fam = case["family"]
    c = Checker(fam)
    if fam == "forms":
        return run_forms(case, regrid, c)
    u, keys = pairs_inventory(case)
    path = get_inventory(case, u, keys)
    code = {k: i + 1 for i, k in enumerate(keys)}
    names = list(u)
    can = {x: u[x]["entry"] for x in names}
    if fam in ("input", "output", "cross"):
        g = case["grid"]
        for s in u[g]["req"]:
            for b in case.get("with") or names:
                others = u[b]["req"] if fam == "cross" else [can[b]]
                for o in others:
                    if fam == "output":
                        c.positive(regrid, path, code[(b, g, "linear")], o, u[b]["n"], s, can[g]["shape"], "linear")
                    else:
                        c.positive(regrid, path, code[(g, b, "linear")], s, u[g]["n"], o, can[b]["shape"], "linear")
                if c.full():
                    break
    elif fam == "order":
        for (a, b, m), k in code.items():
            c.positive(regrid, path, k, u[a]["req"][0], u[a]["n"], u[b]["req"][-1], can[b]["shape"], m)
            if c.full():
                break
    elif fam == "methods":
        for a, b in itertools.product(case["grids"], case["grids"]):
            for m, spell in SPELL.items():
                for s in spell:
                    k = code.get((a, b, m))
                    sin, sout = u[a]["req"][0], u[b]["req"][0]
                    if k:
                        c.positive(regrid, path, k, sin, u[a]["n"], sout, can[b]["shape"], s)
                    else:
                        c.negative(regrid, path, sin, [u[a]["n"]], sout, s)
            for s in BAD_METHODS:
                c.negative(regrid, path, u[a]["req"][0], [u[a]["n"]], u[b]["req"][0], s)
    elif fam == "without":
        g = case["grid"]
        ins = {k[0] for k in keys}
        outs = {k[1] for k in keys}
        sizes = sorted({u[x]["n"] for x in names})
        for s in u[g]["req"]:
            if g == "LL10":
                c.negative(regrid, path, can["O3"], [u["O3"]["n"]], s, "linear")
                c.negative(regrid, path, s, sizes, can["O3"], "linear")
            elif g == "O16":
                c.negative(regrid, path, can["O3"], [u["O3"]["n"]], s, "linear")
                c.negative(regrid, path, s, sizes, can["O3"], "linear")
            else:
                c.negative(regrid, path, s, sizes, can["LL10"], "linear")
                c.negative(regrid, path, can["O16"], [u["O16"]["n"]], s, "linear")
            if c.full():
                break
        assert g not in ins and g not in outs
    elif fam == "bad":
        sizes = sorted({u[x]["n"] for x in names} | {1})
        s = case["spec"]
        c.negative(regrid, path, s, sizes, can["LL10"], "linear")
        c.negative(regrid, path, can["O16"], [u["O16"]["n"]], s, "linear")
        c.negative(regrid, path, s, sizes, s, "linear")
    elif fam == "permutation":
        for (a, b, m), k in code.items():
            for s in u[a]["req"]:
                c.positive(regrid, path, k, s, u[a]["n"], u[b]["req"][0], can[b]["shape"], m)
        if c.full():
            pass
    return c.result({"case": case, "entries": len(keys), "calls": c.counts["evaluations"]})


def run_forms(case, regrid, c):
    """Each form an inventory may use for a grid, alone in an inventory."""
    u = universe()
    g = case["grid"]
    for i, form in enumerate(u[g]["forms"]):
        path = os.path.abspath(f"inv{i}")
        out = {"grid": [10, 10], "shape": [19, 36], "area": [90, 0, -90, 350], "global": 1}
        inp = {"grid": "N16", "shape": [1654], "area": [85.7606, 0, -85.7606, 354.375], "global": 1}
        ents = [(form, u[g]["n"], out, 684, "linear")]
        if "shape" in form:
            ents.append((inp, 1654, form, u[g]["n"], "linear"))
        build(path, ents, u)
        for name, x in u.items():
            same_size = x["n"] == u[g]["n"]
            for s in x["req"]:
                if name == g:
                    c.positive(regrid, path, 1, s, x["n"], out, [19, 36], "linear")
                    if len(ents) == 2:
                        c.positive(regrid, path, 2, inp, 1654, s, form["shape"], "linear")
                elif x["entry"]["grid"] == u[g]["entry"]["grid"] or same_size or name[0] == g[0]:
                    if name == "LL10" or (name == "N16"):
                        continue
                    c.negative(regrid, path, s, sorted({x["n"], u[g]["n"]}), out, "linear")
                    c.negative(regrid, path, inp, [1654], s, "linear")
            if c.full():
                break
    return c.result({"case": case, "forms": len(u[g]["forms"]), "calls": c.counts["evaluations"]})


def replay(case):
    return run(case)


SETS = [
    ["LL5", "LL5-w180", "LL5-sub", "LL5-jpos"],
    ["LL5-ineg", "LL5", "LL5-85", "LL5-cut"],
    ["O32", "N32", "O16", "O32-band"],
    ["O32-w180", "O32", "O32-cut", "O32-sub"],
    ["H2-ring", "H2-nested", "H4-ring", "H4-nested"],
    ["eORCA025_T", "eORCA025_U", "ORCA025_T", "eORCA1_T"],
    ["LL5x10", "LL10x5", "LL10", "LL5"],
]


def explore(ctx):
    u = universe()
    names = list(u)
    cases = []
    ref = REF
    pairs = "pairs" if ctx.thorough else "some pairs"
    for g in names:
        w = None if ctx.thorough else sorted(set(ref) | {g})
        cases.append(("input", {"family": "input", "inv": pairs, "grid": g, "with": w}))
        cases.append(("output", {"family": "output", "inv": pairs, "grid": g, "with": w}))
        cases.append(("without", {"family": "without", "inv": "without", "grid": g}))
        cases.append(("without", {"family": "without", "inv": "without", "grid": g, "order": "reverse"}))
        cases.append(("forms", {"family": "forms", "grid": g}))
    for o in (None, "reverse", 17, 777) + ((3, 41, 400, 1100) if ctx.thorough else ()):
        cases.append(("order", {"family": "order", "inv": pairs, "order": o}))
    for s in BAD:
        cases.append(("bad", {"family": "bad", "inv": pairs, "spec": s}))
    for group in (ref[:6], ["LL5", "O32", "N16", "H4-nested"], ["LL10", "N32", "eORCA1_T", "LL7.5"]):
        cases.append(("methods", {"family": "methods", "inv": "methods", "grids": group}))
    for group in SETS:
        for perm in itertools.permutations(group):
            keys = [(x, "LL10", "linear") for x in perm if x != "LL10"]
            keys += [("O16", x, "linear") for x in perm if x != "O16" and x != "LL10"]
            cases.append(("permutation", {"family": "permutation", "inv": "list", "keys": keys}))
    if ctx.thorough:
        for g in names:
            for i in range(0, len(names), 8):
                cases.append(("cross", {"family": "cross", "inv": "pairs", "grid": g, "with": names[i : i + 8]}))
    # built once, before the pool starts
    for o in {str(c[1].get("order")): c[1] for c in cases if c[1].get("inv") == pairs}.values():
        uu, keys = pairs_inventory(o)
        get_inventory(o, uu, keys)
    ctx.run_cases(run, cases, timeout=600)
