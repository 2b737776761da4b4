"""Contracts on the velocity models and control files of traveltime tables (quakemigrate.lut.create_lut): C14."""
from __future__ import annotations

import types

import z3

from .. import core, loader
from ..arr import Arr, iv
from ..core import C, I, R, SNum, num, oblige
from ..loops import Comp, Joined, QDict, QList
from .base import contract
from .corelib import ints
from .exportc import chosen
from .gridc import Names, PyprojModel, grid, reals, use_extrema, vec
from .lutfilec import Dirs


class Column:
    """a column of the velocity model; its rows are labelled 0, 1, 2, ..."""

    def __init__(self, f, n):
        self.f, self.n = f, n

    def __getitem__(self, k):
        if not isinstance(k, (int, SNum)):
            raise core.Unsupported("column element")
        k = iv(k)
        if not C.decide(z3.And(k >= 0, k < self.n)):
            raise core.real(KeyError("no such row"))
        return SNum(self.f(k))

    @property
    def loc(self):
        return self

    at = loc

    @property
    def iloc(self):
        return self.values

    @property
    def values(self):
        return Arr.make((SNum(self.n),), lambda ix: SNum(self.f(ix[0])), "float64")

    def to_numpy(self, **k):
        return self.values

    def sym_len(self):
        return SNum(self.n)

    @property
    def _qm_arr(self):
        return self.values


class Where(Dirs):
    def __truediv__(self, s):
        return Where(super().__truediv__(s).p)

    def __format__(self, spec):
        return "/".join(self.p)

    __str__ = lambda self: "/".join(self.p)


class Table:
    """velocity model: a row per layer, depths increasing"""

    def __init__(self, n):
        self.n = n
        self.f = {c: z3.Function("vm_" + c, I, R) for c in ("Depth", "Vp", "Vs")}

    @property
    def columns(self):
        return ["Depth", "Vp", "Vs"]

    def __getitem__(self, c):
        if isinstance(c, (list, tuple)):
            t = Table(self.n)
            for x in list(c):
                self[x]
            t.f = {x: self.f[x] for x in list(c)}
            return t
        if not isinstance(c, str):
            raise core.Unsupported("column")
        if c not in self.f:
            raise core.real(KeyError(c))
        return Column(self.f[c], self.n)

    @property
    def values(self):
        fs = list(self.f.values())

        def at(ix):
            out = SNum(fs[-1](ix[0]))
            for q in range(len(fs) - 2, -1, -1):
                out = core.ite(core.SBool(ix[1] == q), SNum(fs[q](ix[0])), out)
            return out
        return Arr.make((SNum(self.n), len(fs)), at, "float64")

    def to_numpy(self, **k):
        return self.values

    def sym_len(self):
        return SNum(self.n)

    @property
    def shape(self):
        return SNum(self.n), len(self.f)


def value(tok):
    """number a token of a line shows; at least six decimals"""
    u = core.unmark(tok)
    if u is None:
        try:
            return z3.RealVal(str(float(tok)))
        except ValueError:
            raise core.Unsupported("number shown in another way")
    v, sp = u
    if sp == "f" or sp == "" or (sp[-1:] == "f" and sp[0] == "." and int(sp[1:-1]) >= 6):
        return core.rl(num(v).e)
    raise core.Unsupported("number shown in another way")


def model(n):
    vm = Table(n)
    C.assume(n >= 1)
    D = vm.f["Depth"]
    C.foralls.append(lambda q: z3.Implies(z3.And(q >= 0, q + 1 < n), D(q) < D(q + 1)))
    return vm


@contract("create_lut._vmodel_string", "C14", "lut/create_lut.py:_vmodel_string, lut/create_lut.py:_velocity_gradient",
          ["velocity models with at least two columns read from a file: rows labelled 0, 1, 2, ..., depths increasing", "a LAYER line of NonLinLoc: depth, P velocity and gradient, S velocity and gradient below it"])
def vmodel_string():
    w = loader.World(models={"pyproj": PyprojModel("pyproj")})
    m = w.module("quakemigrate.lut.create_lut")
    n, = ints("layers")
    vm = model(n.e)
    ph = "PS"[C.choose(2, "phase")]
    block = bool(C.choose(2, "block model"))
    j = C.skolem("j")
    C.assume(z3.And(j >= 0, j < n.e))
    s = m._vmodel_string(vm, block, ph)
    if not isinstance(s, Joined):
        raise core.Unsupported("layers written in another way")
    oblige("one line after the other", z3.BoolVal(s.sep == "\n" and not s.after))
    got = chosen(s.lst, j)
    oblige("one line per layer", z3.BoolVal(len(got) == 1))
    if len(got) != 1:
        return
    tok = str(got[0]).split()
    if len(tok) != 8 or tok[0] != "LAYER":
        raise core.Unsupported("layer line in another form")
    D, V = vm.f["Depth"], vm.f[f"V{ph.lower()}"]
    oblige("the layer starts at its own depth", value(tok[1]) == D(j))
    last = j + 1 == n.e
    z = C.raw("z", R)
    for q, what in ((2, "P"), (4, "S")):
        oblige(f"velocity at the top of the layer ({what} column)", value(tok[q]) == V(j))
        g = value(tok[q + 1])
        if block:
            oblige(f"constant velocity ({what} column)", g == 0)
        else:
            oblige(f"constant velocity below the last depth ({what} column)", z3.Implies(last, g == 0))
            # the gradient reaches the velocity of the next depth there
            oblige(f"linear between the depths ({what} column)", z3.Implies(z3.Not(last), z3.Or(g == core.rdiv(V(j + 1) - V(j), D(j + 1) - D(j)), V(j) + g * (D(j + 1) - D(j)) == V(j + 1))))


@contract("create_lut._write_control_file", "C14", "lut/create_lut.py:_write_control_file", ["_grid_string and _vmodel_string by their own contracts", "control statements as NonLinLoc documents them"])
def control_file():
    written = []

    class Handle:
        def __init__(self, p):
            self.p = p

        def write(self, s):
            written.append((self.p, s))

        def writelines(self, ls):
            for s in ls:
                self.write(s)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

    class Maker:
        def __call__(self, *a):
            return Where(tuple(str(x) for x in a))

        def cwd(self):
            return Where(("CWD",))
    w = loader.World(models={"pyproj": PyprojModel("pyproj"), "pathlib": types.SimpleNamespace(Path=Maker())})
    m = w.module("quakemigrate.lut.create_lut")
    m.open = lambda p, mode="r", *a, **k: Handle((p.p[-1] if isinstance(p, Dirs) else str(p).split("/")[-1], mode))
    calls = []
    m._grid_string = lambda md, span, dx: calls.append(("grid", md, span, dx)) or "GRID"
    m._vmodel_string = lambda vm, block, ph: calls.append(("model", vm, block, ph)) or "MODEL"
    xyz = vec("xyz", 3)
    md, dx = reals("md", "dx")
    vm, span = object(), QList(reals("z0", "z1"))
    ph = "PS"[C.choose(2, "phase")]
    block = bool(C.choose(2, "block model"))
    m._write_control_file(xyz, "STA1", md, vm, span, ph, dx, block)
    if not written or not all(isinstance(x[1], str) for x in written):
        raise core.Unsupported("control file written in another way")
    oblige("the file the programs are given", z3.BoolVal({x[0] for x in written} == {("control.in", "w")}))
    txt = "".join(x[1] for x in written)
    lines = {}
    for ln in txt.split("\n"):
        t = ln.split()
        if t:
            lines.setdefault(t[0], []).append(t[1:])
    one = lambda k: lines[k][0] if len(lines.get(k, [])) == 1 else None
    need = ["VGOUT", "VGTYPE", "VGGRID", "GTFILES", "GTSRCE", "MODEL"]
    oblige("one statement of each kind", z3.BoolVal(all(one(k) is not None for k in need)))
    if any(one(k) is None for k in need):
        return
    oblige("the section's grid and velocity model are asked for once, for this phase", z3.BoolVal(
        len(calls) == 2 and any(c[0] == "grid" and c[1] is md and c[2] is span and c[3] is dx for c in calls) and any(c[0] == "model" and c[1] is vm and c[2] is block and c[3] == ph for c in calls)))
    oblige("the velocity grid's phase", z3.BoolVal(one("VGTYPE") == [ph]))
    oblige("slowness times length on the section's grid", z3.BoolVal(one("VGGRID") == ["GRID", "SLOW_LEN"]))
    gt = one("GTFILES")
    end = lambda s, d: s.split("/")[-2:] == [d, "layer"]
    oblige("the traveltimes come from the velocity grid of this phase", z3.BoolVal(len(gt) >= 3 and gt[0] == one("VGOUT")[0] and end(gt[0], "model") and end(gt[1], "time") and gt[2] == ph))
    src = one("GTSRCE")
    oblige("the source is this station", z3.BoolVal(len(src) >= 5 and src[0] == "STA1" and src[1] == "XYZ"))
    if len(src) >= 5:
        for q in range(3):
            oblige("at its own position", value(src[2 + q]) == num(xyz.at(q)).e)
    oblige("no rotation and no projection", z3.BoolVal(one("TRANS") == ["NONE"]))


class Profile:
    """scipy's interp1d: linear between the given points"""

    def __init__(self, made):
        self.made = made

    def __call__(self, x, y, kind="linear", **k):
        if kind != "linear" or k:
            raise core.Unsupported("interpolation in another way")
        g = z3.Function(f"profile{len(self.made)}", R, R)
        self.made.append((x, y, g))
        return lambda z: z.map(lambda v: SNum(g(core.rl(num(v).e))))


@contract("create_lut._compute_1d_fmm", "C14", "lut/create_lut.py:_compute_1d_fmm", ["interp1d is linear between its points (SciPy)", "_eikonal_fmm, grid_xyz and stations_xyz by their own contracts",
          "velocity models: rows labelled 0, 1, 2, ..., depths increasing", "two stations stand for the list (each is handled alone)"])
def fmm():
    made, calls = [], []
    interp = types.SimpleNamespace(interp1d=Profile(made))
    w = loader.World(models={"pyproj": PyprojModel("pyproj"), "scipy.interpolate": interp})
    m = w.module("quakemigrate.lut.create_lut")
    n = ints("nx", "ny", "nz")
    C.assume(z3.And(*[x.e >= 1 for x in n]))
    nl, = ints("layers")
    vm = model(nl.e)
    lut = type("L", (), {})()
    lut.grid_xyz = [Arr.symbol(f"g{q}", tuple(n)) for q in range(3)]
    lut.stations_xyz = Arr.symbol("st", (2, 3))
    lut.ll_corner, lut.ur_corner, lut.node_spacing = vec("ll", 3), vec("ur", 3), vec("sp", 3)
    for a in lut.grid_xyz + [lut.stations_xyz, lut.ll_corner, lut.ur_corner, lut.node_spacing]:
        a.cell.readonly = True
    lut.station_data = Names(["A", "B"])
    lut.traveltimes = QDict()
    old = Arr.symbol("old", tuple(n))
    lut.traveltimes["A"] = QDict()
    lut.traveltimes["A"]["P"] = lut.traveltimes["A"]["S"] = old
    ph = "PS"[C.choose(2, "phase")]

    def eik(g, sp, vel, st):
        calls.append((g, sp, vel.reader() if isinstance(vel, Arr) else None, st))
        return ("table", len(calls) - 1)
    m._eikonal_fmm = eik
    outside = z3.Or(*[z3.Or(num(lut.stations_xyz.at(r, q)).e < num(lut.ll_corner.at(q)).e, num(lut.stations_xyz.at(r, q)).e > num(lut.ur_corner.at(q)).e) for r in range(2) for q in range(3)])
    try:
        m._compute_1d_fmm(lut, ph, vm)
    except ValueError:
        oblige("refused only for a station outside the grid", outside)
        return
    oblige("stations outside the grid are refused", z3.Not(outside))
    oblige("a table for every station, other phases kept", z3.BoolVal(sorted(lut.traveltimes) == ["A", "B"] and lut.traveltimes["A"]["PS"[ph == "P"]] is old))
    i = [C.skolem(x) for x in "ijk"]
    C.assume(z3.And(*[z3.And(a >= 0, a < b.e) for a, b in zip(i, n)]))
    for r, s in enumerate("AB"):
        t = lut.traveltimes[s].get(ph)
        if not (isinstance(t, tuple) and t[0] == "table"):
            raise core.Unsupported("tables made in another way")
        g, sp, vel, st = calls[t[1]]
        oblige("on the nodes of the grid", z3.BoolVal(len(g) == 3 and vel is not None))
        for q in range(3):
            oblige("on the nodes of the grid", num(g[q].at(*i)).e == num(lut.grid_xyz[q].at(*i)).e)
            oblige("with the spacing of the grid", num(sp.at(q)).e == num(lut.node_spacing.at(q)).e)
            oblige("from the station itself", num(st.at(q)).e == num(lut.stations_xyz.at(r, q)).e)
        if len(made) != 1:
            raise core.Unsupported("velocity model interpolated in another way")
        x, y, f = made[0]
        oblige("velocity of the profile at the node's own depth", num(vel(tuple(i))).e == f(core.rl(num(lut.grid_xyz[2].at(*i)).e)))
    # the profile: the velocity model, extended as a constant
    D, V = vm.f["Depth"], vm.f[f"V{ph.lower()}"]
    k = C.skolem("row")
    C.assume(z3.And(k >= 0, k < nl.e))
    oblige("two points more than the velocity model has", z3.And(iv(x.shape[0]) == nl.e + 2, iv(y.shape[0]) == nl.e + 2))
    oblige("a point at every depth of the model", z3.And(num(x.at(k + 1)).e == D(k), num(y.at(k + 1)).e == V(k)))
    far = z3.RealVal(10) ** 9
    oblige("constant above the model", z3.And(num(x.at(0)).e <= -10 ** 9, num(y.at(0)).e == V(0)))
    oblige("constant below the model", z3.And(num(x.at(nl.e + 1)).e >= 10 ** 9, num(y.at(nl.e + 1)).e == V(nl.e - 1)))


@contract("create_lut._eikonal_fmm", "C14", "lut/create_lut.py:_eikonal_fmm", ["skfmm.travel_time solves the eikonal equation from the zero contour of its first argument (scikit-fmm)", "grids with one coordinate per axis (their own contract)"])
def eikonal():
    calls = []
    n = ints("nx", "ny", "nz")
    C.assume(z3.And(*[x.e >= 1 for x in n]))

    def travel_time(phi, speed, dx=1.0, **k):
        if k and set(k) - {"order"}:
            raise core.Unsupported("solver asked in another way")
        calls.append((phi, speed, dx))
        return Arr.symbol("solution", tuple(n))
    w = loader.World(models={"pyproj": PyprojModel("pyproj"), "skfmm": types.SimpleNamespace(travel_time=travel_time)})
    m = w.module("quakemigrate.lut.create_lut")
    ax = [z3.Function(f"axis{q}", I, R) for q in range(3)]
    g = [Arr.make(tuple(n), lambda ix, q=q: SNum(ax[q](ix[q])), "float64") for q in range(3)]
    sp, st = vec("sp", 3), vec("station", 3)
    vel = Arr.symbol("velocity", tuple(n))
    sp.cell.readonly = st.cell.readonly = vel.cell.readonly = True
    r = m._eikonal_fmm(g, sp, vel, st)
    oblige("solved once", z3.BoolVal(len(calls) == 1))
    if len(calls) != 1:
        return
    phi, speed, dx = calls[0]
    i = [C.skolem(x) for x in "ijk"]
    C.assume(z3.And(*[z3.And(a >= 0, a < b.e) for a, b in zip(i, n)]))
    oblige("the solution, unchanged", num(r.at(*i)).e == z3.Function("solution", I, I, I, R)(*i))
    oblige("through this velocity model", num(speed.at(*i)).e == num(vel.at(*i)).e)
    for q in range(3):
        oblige("with the spacing of the grid", num(dx.at(q)).e == num(sp.at(q)).e)
    src = num(phi.at(*i)).e > 0
    # a node on the other side of the contour is the nearest one along every axis
    for q in range(3):
        o = C.skolem("other")
        C.assume(z3.And(o >= 0, o < n[q].e))
        near = [o if p == q else i[p] for p in range(3)]
        use_extrema(near)
        d = lambda e: z3.If(e >= 0, e, -e)
        s = num(st.at(q)).e
        oblige("the source is the node nearest to the station", z3.Implies(src, d(ax[q](i[q]) - s) <= d(ax[q](o) - s)))
    j = [C.skolem(x) for x in "abc"]
    C.assume(z3.And(*[z3.And(a >= 0, a < b.e) for a, b in zip(j, n)]))
    oblige("a single source", z3.Implies(z3.And(src, num(phi.at(*j)).e > 0), z3.And(*[a == b for a, b in zip(i, j)])))
