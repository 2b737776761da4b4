"""Contracts on the grid and the lookup table (quakemigrate.lut.lut): C06, C13, C14, C15."""
from __future__ import annotations

import z3

from .. import core, loader
from ..arr import Arr, iv
from ..core import B, C, I, R, SBool, SNum, ex, num, oblige, rl
from ..loops import QDict, QList
from .base import contract
from .corelib import ints


def reals(*n):
    return [SNum(z3.Real(x)) for x in n]


class Proj:
    """opaque projection, compared by identity of its (symbolic) definition"""

    def __init__(self, name):
        self.id = z3.Int("proj_" + name)

    def __eq__(self, o):
        return SBool(self.id == o.id) if isinstance(o, Proj) else False

    def __ne__(self, o):
        return ~(self == o) if isinstance(o, Proj) else True

    def __hash__(self):
        return id(self)

    def __deepcopy__(self, memo):
        return self


class Transformer:
    """pyproj: transforming from a to b and back from b to a gives the same point (assumed)."""
    made = []

    def __init__(self, a, b):
        self.a, self.b = a, b
        Transformer.made.append((a, b))

    @staticmethod
    def from_proj(a, b, **k):
        return Transformer(a, b)

    def transform(self, x, y, z):
        fs = [z3.Function(f"tr{q}", I, I, R, R, R, R) for q in range(3)]
        out = []

        def one(q):
            def f(v):
                v = [rl(num(u).e) for u in v]
                a, b = self.a.id, self.b.id
                fw = [g(a, b, *v) for g in fs]
                C.define(z3.And(*[fs[p](b, a, *fw) == v[p] for p in range(3)]), fw[q])
                return SNum(fw[q])
            return f
        if isinstance(x, Arr) and x.ndim:
            rs = [w.reader() for w in (x, y, z)]
            for q in range(3):
                out.append(Arr.make(x.shape, lambda ix, q=q: one(q)([r(ix) for r in rs]), "float64"))
        else:
            out = [one(q)([x, y, z]) for q in range(3)]
        return tuple(out)


class PyprojModel(loader.types.ModuleType):
    Transformer = Transformer


def world():
    w = loader.World(models={"pyproj": PyprojModel("pyproj")})
    return w, w.module("quakemigrate.lut.lut")


def vec(name, n=3, sort=R):
    return Arr.from_list([SNum((z3.Real if sort == R else z3.Int)(f"{name}{q}")) for q in range(n)])


def counts(name="nc"):
    nc = vec(name, sort=I)
    C.assume(z3.And(*[nc.at(q).e >= 1 for q in range(3)]))
    C.assume(z3.And(*[nc.at(q).e < 2 ** 20 for q in range(3)]))
    return nc


def grid(m, cls="Grid3D", tag=""):
    g = object.__new__(getattr(m, cls))
    g.grid_proj, g.coord_proj = Proj("grid" + tag), Proj("coord" + tag)
    g.ll_corner = vec("ll" + tag)
    nc, sp = counts("nc" + tag), vec("sp" + tag)
    C.assume(z3.And(*[sp.at(q).e > 0 for q in range(3)]))
    g.node_count = nc
    g.node_spacing = sp
    return g, nc, sp


@contract("lut.Grid3D.node_count (setter)", "C13", "lut/lut.py:Grid3D.node_count")
def node_count_setter():
    w, m = world()
    g = object.__new__(m.Grid3D)
    v = vec("v", sort=I)
    try:
        g.node_count = v
    except AssertionError:
        oblige("refused only if some node count is not positive", z3.Or(*[v.at(q).e <= 0 for q in range(3)]))
        return
    oblige("non-positive node counts are rejected", z3.And(*[v.at(q).e > 0 for q in range(3)]))
    r = g.node_count
    oblige("node counts stored as given", z3.And(*[r.at(q).e == v.at(q).e for q in range(3)]))


@contract("lut.Grid3D.node_spacing (setter)", "C13", "lut/lut.py:Grid3D.node_spacing")
def node_spacing_setter():
    w, m = world()
    g = object.__new__(m.Grid3D)
    if C.choose(2, "scalar spacing"):
        s = z3.Real("s")
        v, want = SNum(s), [s] * 3
    else:
        v = vec("v")
        want = [v.at(q).e for q in range(3)]
    try:
        g.node_spacing = v
    except AssertionError:
        oblige("refused only if some spacing is not positive", z3.Or(*[x <= 0 for x in want]))
        return
    oblige("non-positive spacings are rejected", z3.And(*[x > 0 for x in want]))
    r = g.node_spacing
    oblige("one spacing per axis; a scalar applies to all axes", z3.And(iv(r.shape[0]) == 3, *[r.at(q).e == x for q, x in enumerate(want)]))


@contract("lut.Grid3D.__init__", "C13", "lut/lut.py:Grid3D.__init__", ["pyproj transformations are functions of the point, invertible"])
def grid_init():
    w, m = world()
    gp, cp = Proj("g"), Proj("c")
    ll, ur, sp = vec("ll"), vec("ur"), vec("sp")
    C.assume(z3.And(*[sp.at(q).e > 0 for q in range(3)]))
    Transformer.made = []
    fw = [num(x).e for x in Transformer(cp, gp).transform(*[ll.at(q) for q in range(3)])]
    fu = [num(x).e for x in Transformer(cp, gp).transform(*[ur.at(q) for q in range(3)])]
    C.assume(z3.And(*[b > a for a, b in zip(fw, fu)]))
    g = m.Grid3D(ll, ur, sp, gp, cp)
    for q in range(3):
        oblige("lower-left corner is the projected one", g.ll_corner.at(q).e == fw[q])
        n = num(g.node_count.at(q)).e
        s = sp.at(q).e
        oblige("the last node reaches the upper-right corner", rl(fw[q]) + z3.ToReal(n - 1) * s >= fu[q])
        oblige("the node counts are the smallest", fw[q] + z3.ToReal(n - 2) * s < fu[q])
        oblige("spacing kept", g.node_spacing.at(q).e == s)


@contract("lut.Grid3D.index2grid", "C13", "lut/lut.py:Grid3D.index2grid")
def index2grid():
    w, m = world()
    g, nc, sp = grid(m)
    n, = ints("n")
    C.assume(n.e >= 1)
    ijk = Arr.symbol("ijk", (n, 3), sort=I)
    ijk.cell.readonly = True
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    xyz = g.index2grid(ijk)
    oblige("one point per index", z3.And(xyz.ndim == 2, iv(xyz.shape[0]) == n.e, iv(xyz.shape[1]) == 3))
    for q in range(3):
        oblige("node at corner + index * spacing", num(xyz.at(i, q)).e == g.ll_corner.at(q).e + z3.ToReal(ijk.at(i, q).e) * sp.at(q).e)
    off = Arr.symbol("off", (n, 3))
    for q in range(3):
        o = off.at(i, q).e
        C.assume(z3.And(2 * o < sp.at(q).e, 2 * o > -sp.at(q).e))
    back = g.index2grid(xyz + off, inverse=True)
    oblige("inverse has one index per point", z3.And(back.ndim == 2, iv(back.shape[0]) == n.e, iv(back.shape[1]) == 3))
    for q in range(3):
        # quotient lemma: ((ll + i*s + o) - ll)/s lies within half of i
        v = num(back.at(i, q)).e
        oblige("round trip; positions between nodes map to the nearest node", v == ijk.at(i, q).e)


@contract("lut.Grid3D.index2grid (flat)", "C13 C02", "lut/lut.py:Grid3D.index2grid")
def index2grid_flat():
    w, m = world()
    g, nc, sp = grid(m)
    n, = ints("n")
    C.assume(n.e >= 1)
    f = Arr.symbol("flat", (n,), sort=I)
    k = C.skolem("k")
    nn = [nc.at(q).e for q in range(3)]
    C.assume(z3.And(k >= 0, k < n.e, f.at(k).e >= 0, f.at(k).e < nn[0] * nn[1] * nn[2]))
    xyz = g.index2grid(f, unravel=True)
    oblige("one point per flat index", z3.And(xyz.ndim == 2, iv(xyz.shape[0]) == n.e, iv(xyz.shape[1]) == 3))
    d = [z3.Int(f"d{q}") for q in range(3)]
    C.assume(z3.And(*[z3.And(d[q] >= 0, d[q] < nn[q]) for q in range(3)]))
    C.assume((d[0] * nn[1] + d[1]) * nn[2] + d[2] == f.at(k).e)
    core.mixed_radix(nn, d, [num(x).e for x in w.module("numpy").unravel_index(f.at(k), g.node_count)])
    for q in range(3):
        oblige("flat indices are unravelled in C order", num(xyz.at(k, q)).e == g.ll_corner.at(q).e + z3.ToReal(d[q]) * sp.at(q).e)


@contract("lut.Grid3D.index2coord", "C13", "lut/lut.py:Grid3D.index2coord, lut/lut.py:Grid3D.coord2grid", ["pyproj transformations are functions of the point, invertible"])
def index2coord():
    w, m = world()
    g, nc, sp = grid(m)
    n, = ints("n")
    C.assume(n.e >= 1)
    ijk = Arr.symbol("ijk", (n, 3), sort=I)
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    co = g.index2coord(ijk)
    oblige("one point per index", z3.And(co.ndim == 2, iv(co.shape[0]) == n.e, iv(co.shape[1]) == 3))
    pt = [SNum(g.ll_corner.at(q).e + z3.ToReal(ijk.at(i, q).e) * sp.at(q).e) for q in range(3)]
    fw = Transformer(g.grid_proj, g.coord_proj).transform(*pt)
    for q in range(3):
        oblige("coordinates are the transformed grid position", num(co.at(i, q)).e == num(fw[q]).e)
    back = g.index2coord(co, inverse=True)
    for q in range(3):
        oblige("index -> coordinates -> index is the identity", num(back.at(i, q)).e == ijk.at(i, q).e)


@contract("lut.Grid3D.grid_corners", "C13 C15", "lut/lut.py:Grid3D.grid_corners")
def grid_corners():
    w, m = world()
    g, nc, sp = grid(m)
    c = g.grid_corners
    oblige("eight corners", z3.And(iv(c.shape[0]) == 8, iv(c.shape[1]) == 3))
    for p in range(8):
        for q, bit in enumerate(((p >> 2) & 1, (p >> 1) & 1, p & 1)):
            oblige("the corners are the first and last nodes along each axis",
                   num(c.at(p, q)).e == g.ll_corner.at(q).e + (z3.ToReal(nc.at(q).e - 1) if bit else 0) * sp.at(q).e)


def tables(st=("A", "B"), ph=("P", "S"), sh=None, tag="tt"):
    d = QDict()
    for s in st:
        d[s] = QDict()
        for p in ph:
            a = Arr.symbol(f"{tag}_{s}_{p}", sh)
            d[s][p] = a
    return d


@contract("lut.Grid3D.decimate", "C13", "lut/lut.py:Grid3D.decimate", ["two stations with two phases stand for the tables (each entry is handled alone)"])
def decimate():
    w, m = world()
    g, nc, sp = grid(m, "LUT")
    nn = [nc.at(q).e for q in range(3)]
    g.traveltimes = tables(sh=tuple(SNum(x) for x in nn))
    tt0 = {(s, p): g.traveltimes[s][p].reader() for s in "AB" for p in "PS"}
    for s in "AB":
        for p in "PS":
            g.traveltimes[s][p].cell.readonly = True
    df = vec("df", sort=I)
    d = [df.at(q).e for q in range(3)]
    C.assume(z3.And(*[z3.And(x >= 1) for x in d]))
    ll0 = [g.ll_corner.at(q).e for q in range(3)]
    inplace = bool(C.choose(2, "inplace"))
    r = g.decimate(df, inplace)
    o = g if inplace else r
    if not inplace:
        oblige("the original table keeps its grid", z3.And(*[z3.And(g.node_count.at(q).e == nn[q], g.ll_corner.at(q).e == ll0[q], g.node_spacing.at(q).e == sp.at(q).e) for q in range(3)]))
        for s in "AB":
            for p in "PS":
                oblige("the original table keeps its traveltimes", z3.And(*[iv(a) == b for a, b in zip(g.traveltimes[s][p].shape, nn)]))
    j = [C.skolem(f"j{q}") for q in range(3)]
    for q in range(3):
        oblige("spacing times the factor", num(o.node_spacing.at(q)).e == sp.at(q).e * z3.ToReal(d[q]))
        n2 = num(o.node_count.at(q)).e
        oblige("as many nodes as fit", z3.And((n2 - 1) * d[q] <= nn[q] - 1, n2 * d[q] > nn[q] - 1))
        C.assume(z3.And(j[q] >= 0, j[q] < n2))
    # the first kept node along each axis
    c1 = [(nn[q] - d[q] * (num(o.node_count.at(q)).e - 1) - 1) / 2 for q in range(3)]
    for q in range(3):
        oblige("kept node coordinates are those the node had before",
               num(o.ll_corner.at(q)).e + z3.ToReal(j[q]) * num(o.node_spacing.at(q)).e == ll0[q] + z3.ToReal(c1[q] + j[q] * d[q]) * sp.at(q).e)
    for s in "AB":
        for p in "PS":
            a = o.traveltimes[s][p]
            oblige("decimated table has the decimated grid's shape", z3.And(a.ndim == 3, *[iv(x) == num(o.node_count.at(q)).e for q, x in enumerate(a.shape)]))
            oblige("each kept value stays attached to its node", a.at(*j).e == tt0[s, p](tuple(c1[q] + j[q] * d[q] for q in range(3))).e)


@contract("lut.LUT.__eq__", "C15", "lut/lut.py:LUT.__eq__")
def lut_eq():
    w, m = world()
    a, na, sa = grid(m, "LUT", "a")
    b, nb, sb = grid(m, "LUT", "b")
    r = a == b
    r = core.tobool(r) if not isinstance(r, bool) else z3.BoolVal(r)
    same = [a.grid_proj.id == b.grid_proj.id, a.coord_proj.id == b.coord_proj.id]
    for q in range(3):
        same += [sa.at(q).e == sb.at(q).e, a.ll_corner.at(q).e == b.ll_corner.at(q).e, na.at(q).e == nb.at(q).e]
    oblige("tables on the same grid definition compare equal", z3.Implies(z3.And(*same), r))
    for f, what in ((same[0], "grid projection"), (same[1], "coordinate projection")):
        oblige(f"a different {what} compares different", z3.Implies(r, f))
    for q in range(3):
        oblige("a different spacing compares different", z3.Implies(r, sa.at(q).e == sb.at(q).e))
        oblige("a different corner compares different", z3.Implies(r, a.ll_corner.at(q).e == b.ll_corner.at(q).e))
        oblige("a different upper corner compares different",
               z3.Implies(r, a.ll_corner.at(q).e + z3.ToReal(na.at(q).e - 1) * sa.at(q).e == b.ll_corner.at(q).e + z3.ToReal(nb.at(q).e - 1) * sb.at(q).e))


@contract("lut.LUT.__add__", "C15", "lut/lut.py:LUT.__add__", ["tables of three stations stand for the dictionaries (each entry is handled alone)"])
def lut_add():
    w, m = world()
    a, na, sa = grid(m, "LUT", "a")
    b, nb, sb = grid(m, "LUT", "b")
    nn = tuple(SNum(na.at(q).e) for q in range(3))
    a.traveltimes = tables(("A", "B"), sh=nn, tag="ta")
    b.traveltimes = tables(("B", "C"), sh=nn, tag="tb")
    ka = {k: v for k, v in a.traveltimes.items()}
    kb = {k: v for k, v in b.traveltimes.items()}
    equal = core.tobool(m.LUT.__eq__(a, b))
    try:
        r = a + b
    except Exception:
        r = None
    combined = sorted(a.traveltimes) != ["A", "B"]
    oblige("the second table is unchanged", z3.BoolVal(sorted(b.traveltimes) == ["B", "C"] and all(b.traveltimes[k] is kb[k] for k in kb)))
    oblige("the first table's traveltimes are kept", z3.BoolVal(all(a.traveltimes[k] is ka[k] for k in ka)))
    if r is None:
        oblige("a sum on the same grid is not refused", z3.Not(equal))
        oblige("a refused sum leaves the first table unchanged", z3.BoolVal(not combined))
    else:
        oblige("tables on different grids are not combined", equal)
        oblige("the sum has the stations of both", z3.BoolVal(sorted(r.traveltimes) == ["A", "B", "C"]))
        oblige("the sum has the first table's traveltimes for shared stations, the second's for the others",
               z3.BoolVal(all(r.traveltimes[k] is ka[k] for k in ka) and r.traveltimes["C"] is kb["C"]))


def lut_with_tables(m):
    g, nc, sp = grid(m, "LUT")
    nn = tuple(SNum(nc.at(q).e) for q in range(3))
    g.traveltimes = tables(("A", "B", "C"), sh=nn)
    for s in "ABC":
        for p in "PS":
            g.traveltimes[s][p].cell.readonly = True
    g.phases = QList(["P", "S"])

    class SD:
        def __getitem__(self, k):
            class V:
                values = ["A", "B", "C"]
            assert k == "Name"
            return V()
    g.station_data = SD()
    return g, nn


@contract("lut.LUT.serve_traveltimes", "C06", "lut/lut.py:LUT.serve_traveltimes", ["three stations with two phases stand for the tables (each pair is handled alone)"])
def serve():
    w, m = world()
    g, nn = lut_with_tables(m)
    sr, = reals("sr")
    C.assume(sr.e > 0)
    keys = [["A_P", "B_P", "C_P", "A_S", "B_S", "C_S"], ["C_S", "A_P", "B_S"], ["B_P", "B_S"]][C.choose(3, "order")]
    av = QDict()
    for k in keys:
        av[k] = SNum(z3.Int("av_" + k))
        C.assume(z3.And(av[k].e >= 0, av[k].e <= 1))
    C.assume(z3.Or(*[av[k].e == 1 for k in keys]))
    r = g.serve_traveltimes(sr, av)
    i = [C.skolem(x) for x in "ijk"]
    C.assume(z3.And(*[z3.And(a >= 0, a < b.e) for a, b in zip(i, nn)]))
    on = [k for k in keys if C.decide(av[k].e == 1)]
    oblige("one layer per available pair", z3.And(z3.BoolVal(r.ndim == 4), iv(r.shape[-1]) == len(on), *[iv(x) == y.e for x, y in zip(r.shape, nn)]))
    for q, k in enumerate(on):
        s, p = k.split("_")
        t = g.traveltimes[s][p].at(*i) * sr
        v = num(r.at(*i, q)).e
        oblige("layer k is the k-th available pair's table times the sampling rate, to the nearest sample",
               z3.And(2 * (z3.ToReal(v) - t.e) <= 1, 2 * (t.e - z3.ToReal(v)) <= 1))
    oblige("integer traveltimes", z3.BoolVal(r.dtype in ("int32", "int64")))


def use_extrema(i):
    """instances of the (valid) maximum/minimum facts at a chosen node, for every table layer"""
    for m, ats, flat, r, sh, le, lt, ok in list(C.extra_state.get("extinfo", [])):
        if len(sh) == len(i):
            ixs = [tuple(i)]
        elif len(sh) == len(i) + 1 and isinstance(sh[-1], int):
            ixs = [tuple(i) + (z3.IntVal(q),) for q in range(sh[-1])]
        elif len(sh) == len(i) + 1 and isinstance(sh[0], int):
            ixs = [(z3.IntVal(q),) + tuple(i) for q in range(sh[0])]
        else:
            continue
        for x in ixs:
            inb = z3.And(*[z3.And(a >= 0, a < iv(b)) for a, b in zip(x, sh)])
            C.assume(z3.Implies(z3.And(inb, ok(x)), le(num(r(x)).e, m)))


@contract("lut.LUT.max_traveltime", "C14 C03", "lut/lut.py:LUT.max_traveltime, lut/lut.py:LUT._serve_traveltimes", ["three stations with two phases stand for the tables (each pair is handled alone)"])
def max_tt():
    w, m = world()
    g, nn = lut_with_tables(m)
    v = num(g.max_traveltime)
    i = [C.skolem(x) for x in "ijk"]
    C.assume(z3.And(*[z3.And(a >= 0, a < b.e) for a, b in zip(i, nn)]))
    use_extrema(i)
    for s in "ABC":
        for p in "PS":
            oblige("no traveltime exceeds the maximum", g.traveltimes[s][p].at(*i).e <= v.e)


@contract("lut.Grid3D.grid_xyz", "C13 C14", "lut/lut.py:Grid3D.grid_xyz")
def grid_xyz():
    w, m = world()
    g, nc, sp = grid(m)
    xyz = g.grid_xyz
    oblige("one array per axis", z3.BoolVal(len(xyz) == 3))
    nn = [nc.at(q).e for q in range(3)]
    i = [C.skolem(x) for x in "ijk"]
    C.assume(z3.And(*[z3.And(a >= 0, a < b) for a, b in zip(i, nn)]))
    flat = (i[0] * nn[1] + i[1]) * nn[2] + i[2]
    core.lemma("a flat index lies inside the array", [I] * 6, lambda a, b, c, x, y, z: z3.Implies(
        z3.And(a >= 0, b >= 0, c >= 0, a < x, b < y, c < z), z3.And((a * y + b) * z + c >= 0, (a * y + b) * z + c < x * y * z)), (*i, *nn))
    for q in range(3):
        a = xyz[q]
        oblige("one value per node", z3.And(z3.BoolVal(a.ndim == 3), *[iv(x) == y for x, y in zip(a.shape, nn)]))
        v = num(a.at(*i)).e
        for key, ds in list(C.extra_state.get("dig", {}).items()):
            if len(ds) == 3:
                core.mixed_radix(nn, list(ds), i)
        oblige("value of a node is its own coordinate", v == g.ll_corner.at(q).e + z3.ToReal(i[q]) * sp.at(q).e)


# ------------------------------------------------------------------ C14: filling the tables
def create_world():
    w = loader.World(models={"pyproj": PyprojModel("pyproj")})
    return w, w.module("quakemigrate.lut.create_lut")


class NameColumn(list):
    """the names of the stations, in the usual forms"""
    values = property(lambda self: list(self))
    tolist = to_list = lambda self: list(self)
    to_numpy = lambda self: list(self)


class Names:
    def __init__(self, names):
        self.names = names

    def __getitem__(self, k):
        assert k == "Name"
        return NameColumn(self.names)

    @property
    def Name(self):
        return NameColumn(self.names)


@contract("create_lut._compute_homogeneous", "C14", "lut/create_lut.py:_compute_homogeneous",
          ["grid_xyz and stations_xyz by their own contracts", "two stations stand for the list (each is handled alone)"])
def homogeneous():
    w, m = create_world()
    nx, ny, nz = ints("nx", "ny", "nz")
    v, = reals("v")
    C.assume(z3.And(nx.e >= 1, ny.e >= 1, nz.e >= 1, v.e > 0))
    lut = type("L", (), {})()
    lut.grid_xyz = [Arr.symbol(f"g{q}", (nx, ny, nz)) for q in range(3)]
    lut.stations_xyz = Arr.symbol("st", (2, 3))
    for a in lut.grid_xyz + [lut.stations_xyz]:
        a.cell.readonly = True
    lut.station_data = Names(["A", "B"])
    lut.traveltimes = QDict()
    old = Arr.symbol("old", (nx, ny, nz))
    lut.traveltimes["A"] = QDict()
    lut.traveltimes["A"]["P"] = old
    m._compute_homogeneous(lut, "S", v)
    i = [C.skolem(x) for x in "ijk"]
    C.assume(z3.And(i[0] >= 0, i[0] < nx.e, i[1] >= 0, i[1] < ny.e, i[2] >= 0, i[2] < nz.e))
    oblige("a table for every station, other phases kept", z3.BoolVal(sorted(lut.traveltimes) == ["A", "B"] and lut.traveltimes["A"]["P"] is old
                                                                  and "S" in lut.traveltimes["A"] and "S" in lut.traveltimes["B"]))
    for r, s in enumerate("AB"):
        t = lut.traveltimes[s]["S"]
        oblige("one traveltime per node", z3.And(z3.BoolVal(t.ndim == 3), *[iv(a) == b.e for a, b in zip(t.shape, (nx, ny, nz))]))
        d = [lut.grid_xyz[q].at(*i) - lut.stations_xyz.at(r, q) for q in range(3)]
        want = core.sqrt_(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]) / v
        tv = num(t.at(*i))
        # the square root is unique: compare squares and signs
        sq = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
        oblige("traveltime is the straight-line distance over the velocity", z3.Or(tv.e == want.e, z3.And(tv.e >= 0, (tv * v * (tv * v)).e == sq.e)))


@contract("lut.LUT.stations_xyz", "C14", "lut/lut.py:LUT.stations_xyz, lut/lut.py:Grid3D.coord2grid", ["pyproj transformations are functions of the point, invertible"])
def stations_xyz():
    from ..models import pandas_m
    w, m = world()
    g, nc, sp = grid(m, "LUT")
    n, = ints("n")
    C.assume(n.e >= 1)
    names = ["Latitude", "Elevation", "Longitude"] if C.choose(2, "other order of columns") else ["Longitude", "Latitude", "Elevation"]
    cols = {c: Arr.symbol(c, (n,)) for c in names}
    for a in cols.values():
        a.cell.readonly = True
    g.station_data = pandas_m.DataFrame(cols)
    xyz = g.stations_xyz
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    oblige("one position per station", z3.And(z3.BoolVal(xyz.ndim == 2), iv(xyz.shape[0]) == n.e, iv(xyz.shape[1]) == 3))
    want = Transformer(g.coord_proj, g.grid_proj).transform(*[cols[c].at(i) for c in ("Longitude", "Latitude", "Elevation")])
    for q in range(3):
        oblige("each station is where the grid projection puts its longitude, latitude and depth", num(xyz.at(i, q)).e == num(want[q]).e)


@contract("create_lut._bilinear_interpolate", "C14", "lut/create_lut.py:_bilinear_interpolate", ["every node lies within the section (its grid string contract)"])
def bilinear():
    w, m = create_world()
    n, nd, nzz = ints("n", "nd", "nz")
    C.assume(z3.And(n.e >= 1, nd.e >= 2, nzz.e >= 2))
    xz = Arr.symbol("xz", (n, 2))
    tt = Arr.symbol("section", (nd, nzz))
    xz.cell.readonly = tt.cell.readonly = True
    o, s = vec("orig", 2), vec("dim", 2)
    C.assume(z3.And(s.at(0).e > 0, s.at(1).e > 0))
    r = m._bilinear_interpolate(xz, o, s, tt)
    k = C.skolem("k")
    C.assume(z3.And(k >= 0, k < n.e))
    qx = core.rdiv(xz.at(k, 0).e - o.at(0).e, s.at(0).e)
    qz = core.rdiv(xz.at(k, 1).e - o.at(1).e, s.at(1).e)
    i, j = core.floor_(qx), core.floor_(qz)      # the node's own cell
    a, b = qx - z3.ToReal(i), qz - z3.ToReal(j)   # and its position in it
    C.assume(z3.And(i >= 0, i + 1 < nd.e, j >= 0, j + 1 < nzz.e))
    oblige("one traveltime per node", z3.And(z3.BoolVal(r.ndim == 1), iv(r.shape[0]) == n.e))
    T = lambda p, q: tt.at(p, q).e
    want = T(i, j) * (1 - a) * (1 - b) + T(i + 1, j) * a * (1 - b) + T(i, j + 1) * (1 - a) * b + T(i + 1, j + 1) * a * b
    got = num(r.at(k)).e
    oblige("bilinear interpolation of the section at the node's own distance and depth", got == want)


@contract("create_lut._grid_string", "C14", "lut/create_lut.py:_grid_string")
def grid_string():
    w, m = create_world()
    md, d0, d1, dx = reals("md", "d0", "d1", "dx")
    C.assume(z3.And(md.e >= 0, d1.e >= d0.e, dx.e > 0))
    s = m._grid_string(md, QList([d0, d1]), dx)
    vals = [core.unmark(x) for x in str(s).split()]
    if len(vals) != 9 or any(vals[q] is None for q in (1, 2, 5, 6, 7, 8)):
        raise core.Unsupported("grid string format")
    nx, nz = num(vals[1][0]), num(vals[2][0])
    oblige("the section starts at the top of the span", num(vals[5][0]).e == d0.e)
    oblige("the section's spacing is the requested one", z3.And(*[num(vals[q][0]).e == dx.e for q in (6, 7, 8)]))
    oblige("every distance lies in a cell of the section", z3.ToReal(nx.e - 2) * dx.e >= md.e)
    oblige("every depth lies in a cell of the section", d0.e + z3.ToReal(nz.e - 2) * dx.e >= d1.e)


class PathStub:
    class Path:
        def __init__(self, *a):
            pass

        @staticmethod
        def cwd():
            return PathStub.Path()

        def __truediv__(self, o):
            return self


@contract("create_lut.compute_traveltimes (choice of method)", "C14", "lut/create_lut.py:compute_traveltimes")
def methods():
    w, m = create_world()
    calls = []

    class LUTStub:
        def __init__(self, **k):
            self.velocity_model = ""
            calls.append(("lut", k))

        def save(self, f):
            calls.append(("save", f))
    m.LUT = LUTStub
    m._compute_homogeneous = lambda lut, phase, v: calls.append(("homogeneous", phase, v))
    m._compute_1d_fmm = lambda lut, phase, v: calls.append(("fmm", phase, v))
    m._compute_1d_nlloc = lambda lut, phase, v, **k: calls.append(("nlloc", phase, v))
    m.util.logger = lambda *a, **k: None
    m.pathlib = PathStub
    vp, vs = SNum(z3.Real("vp")), SNum(z3.Real("vs"))
    vm = object()
    cases = [("homogeneous", {"vp": vp, "vs": vs}, ["homogeneous", "homogeneous"]), ("homogeneous", {"vp": vp}, TypeError), ("homogeneous", {"vs": vs}, TypeError),
             ("homogeneous", {}, TypeError), ("1dfmm", {"vmod": vm}, ["fmm", "fmm"]), ("1dfmm", {}, TypeError), ("1dnlloc", {"vmod": vm}, ["nlloc", "nlloc"]),
             ("1dnlloc", {}, TypeError), ("1dsweep", {"vmod": vm}, ["nlloc", "nlloc"]), ("3dfmm", {}, NotImplementedError), ("other", {"vmod": vm, "vp": vp, "vs": vs}, ValueError), ("", {}, ValueError)]
    how, kw, want = cases[C.choose(len(cases), "method")]
    save = bool(C.choose(2, "save"))
    try:
        r = m.compute_traveltimes({"spec": 1}, "stations", how, ["P", "S"], SNum(z3.Real("f")), "out.lut" if save else None, **kw)
    except (TypeError, ValueError, NotImplementedError) as e:
        oblige("refused exactly when the method or an input is missing", z3.BoolVal(not isinstance(want, list) and isinstance(e, want)))
        oblige("a refused table is not written", z3.BoolVal(not any(c[0] == "save" for c in calls)))
        return
    oblige("an unknown method, or one lacking its inputs, is rejected", z3.BoolVal(isinstance(want, list)))
    if not isinstance(want, list):
        return
    work = [c for c in calls if c[0] not in ("lut", "save")]
    oblige("the chosen method fills one table per phase", z3.BoolVal([c[0] for c in work] == want and [c[1] for c in work] == ["P", "S"]))
    if how == "homogeneous":
        oblige("each phase uses its own velocity", z3.BoolVal(work[0][2] is vp and work[1][2] is vs))
    oblige("the table keeps stations and phases", z3.BoolVal(r.station_data == "stations" and list(r.phases) == ["P", "S"]))
    oblige("saved exactly when a file is given", z3.BoolVal([c for c in calls if c[0] == "save"] == ([("save", "out.lut")] if save else [])))
