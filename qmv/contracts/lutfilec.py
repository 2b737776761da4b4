"""Contracts on lookup tables that are written, read and filled from traveltime sections (quakemigrate.lut): C14, C15."""
from __future__ import annotations

import re
import types

import z3

from .. import core, loader
from ..arr import Arr, iv, ravel_expr
from ..core import C, I, SNum, num, oblige
from ..loops import QDict, QList
from .base import contract
from .corelib import ints
from ..models.numpy_m import np
from .filec import Place, place
from .gridc import Names, Proj, PyprojModel, Transformer, create_world, grid, lut_with_tables, reals, use_extrema, vec


# ------------------------------------------------------------------ C15: saving and loading
class Store:
    """files of pickled objects"""

    def __init__(self):
        self.files, self.made = {}, []

    def open(self, p, mode="r", **k):
        if mode not in ("wb", "rb"):
            raise core.Unsupported("file opened in another way")
        key = place(p).p
        if mode == "rb" and key not in self.files:
            raise core.real(FileNotFoundError(str(p)))
        if mode == "wb":
            oblige("the directory of the file exists or is made", z3.BoolVal(key[:-1] in self.made))
            self.files[key] = None
        return Open(self, key, mode)

    def dump(self, o, f, *a, **k):
        if not isinstance(o, dict):
            raise core.Unsupported("pickling another kind of object")
        if not isinstance(f, Open) or f.mode != "wb" or f.closed:
            raise core.Unsupported("pickling into another kind of file")
        self.files[f.key] = dict(o)

    def load(self, f, *a, **k):
        if not isinstance(f, Open) or f.mode != "rb" or f.closed:
            raise core.Unsupported("unpickling another kind of file")
        return dict(self.files[f.key])

    def path(self, *parts):
        st = self

        class P(Place):
            def mkdir(self, **k):
                super().mkdir(**k)
                st.made.append(self.p)

            @property
            def parent(self):
                return P(self.p[:-1])

            def open(self, mode="r", **k):
                return st.open(self, mode)
        return P(tuple(str(x) for x in parts))


class Open:
    def __init__(self, store, key, mode):
        self.store, self.key, self.mode, self.closed = store, key, mode, False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def close(self):
        self.closed = True


@contract("lut.LUT.save, load, read_lut", "C15", "lut/lut.py:LUT.save, lut/lut.py:LUT.load, lut/lut.py:LUT.__init__, io/core.py:read_lut",
          ["pickle restores the attributes it was given (Python)"])
def save_load():
    st = Store()
    pick = types.SimpleNamespace(dump=st.dump, load=st.load, HIGHEST_PROTOCOL=5, DEFAULT_PROTOCOL=4)
    w = loader.World(models={"pyproj": PyprojModel("pyproj"), "pickle": pick, "pathlib": types.SimpleNamespace(Path=st.path)})
    m, c = w.module("quakemigrate.lut.lut"), w.module("quakemigrate.io.core")
    m.open = c.open = st.open
    quiet = lambda *a, **k: None
    m.print = c.print = quiet
    g, nn = lut_with_tables(m)
    f0, f1 = reals("fraction", "other")
    g.fraction_tt = f0
    g.velocity_model = "MODEL"
    before = dict(g.__dict__)
    g.save("DIR/NAME.LUT")
    oblige("saving leaves the table alone", z3.BoolVal(sorted(g.__dict__) == sorted(before) and all(g.__dict__[k] is v for k, v in before.items())))
    oblige("written to the file asked for", z3.BoolVal(list(st.files) == [("DIR", "NAME.LUT")] and st.files[("DIR", "NAME.LUT")] is not None))
    how = C.choose(4, "way of loading")
    if how == 0:
        h = c.read_lut("DIR/NAME.LUT")
    elif how == 1:
        h = c.LUT()
        h.load("DIR/NAME.LUT")
    elif how == 2:
        h = c.LUT(lut_file="DIR/NAME.LUT")
    else:
        h = c.LUT(f1, "DIR/NAME.LUT")
    oblige("a table", z3.BoolVal(h is not g and type(h).__name__ == "LUT"))
    for k, v in before.items():
        oblige(f"{k.lstrip('_')} as saved", z3.BoolVal(h.__dict__.get(k, None) is v))
    oblige("the file is left alone", z3.BoolVal(st.files[("DIR", "NAME.LUT")] == before if sorted(st.files[("DIR", "NAME.LUT")]) != sorted(before) else True))


# ------------------------------------------------------------------ C14: queries
class Interpolator:
    """SciPy: at a node of its axes, the value of that node"""

    def __init__(self, axes, values, **k):
        self.axes, self.values = [x if isinstance(x, Arr) else Arr.from_list(list(x)) for x in axes], values

    def __call__(self, q):
        v, ax = self.values, self.axes
        q = q if isinstance(q, Arr) else Arr.from_list(list(q))
        if q.ndim == 2:
            if not z3.is_true(z3.simplify(iv(q.shape[0]) == 1)):
                raise core.Unsupported("several query points")
            q = q[0]
        p = [num(q.at(k)).e for k in range(3)]
        t = C.skolem("axis")
        for k in range(3):
            oblige("the axes are the numbers of the nodes", z3.And(iv(ax[k].shape[0]) == iv(v.shape[k]), z3.Implies(z3.And(t >= 0, t < iv(v.shape[k])), num(ax[k].at(t)).e == t)))
        r = v.reader()
        return Arr.make((1,) + tuple(v.shape[3:]), lambda ix: r(tuple(p) + tuple(ix[1:])), "float64")


@contract("lut.LUT.traveltime_to", "C14 C16", "lut/lut.py:LUT.traveltime_to, lut/lut.py:LUT._serve_traveltimes, lut/lut.py:LUT.__getitem__",
          ["three stations with two phases stand for the tables (each pair is handled alone)", "RegularGridInterpolator gives the value of a node at that node (SciPy)"])
def traveltime_to():
    w = loader.World(models={"pyproj": PyprojModel("pyproj")})
    m = w.module("quakemigrate.lut.lut")
    m.RegularGridInterpolator = Interpolator
    m.print = lambda *a, **k: None
    g, nn = lut_with_tables(m)
    i = [C.skolem(x) for x in "ijk"]
    C.assume(z3.And(*[z3.And(a >= 0, a < b.e) for a, b in zip(i, nn)]))
    ph = "PS"[C.choose(2, "phase")]
    who = [None, "B", ["C", "A"]][C.choose(3, "stations")]
    at = [SNum(x) for x in i]
    if C.choose(2, "point as an array"):
        at = Arr.from_list(at)
    v = g.traveltime_to(ph, at, who)
    want = {None: "ABC", "B": "B"}.get(who, "CA") if not isinstance(who, list) else "CA"
    oblige("one traveltime per station asked for", z3.BoolVal(v.ndim == 1 and isinstance(v.shape[0], int) and v.shape[0] == len(want)))
    for k, s in enumerate(want):
        oblige("the stored traveltime of the node, of the station and phase asked for", num(v.at(k)).e == num(g.traveltimes[s][ph].at(*i)).e)


# ------------------------------------------------------------------ C14: tables read from NonLinLoc grids
@contract("create_lut.read_nlloc", "C14", "lut/create_lut.py:read_nlloc", ["_read_nlloc by its own contract", "three stations and up to two phases stand for the tables"])
def read_nlloc():
    Transformer.made = []
    w = loader.World(models={"pyproj": PyprojModel("pyproj"), "pathlib": Paths})
    m = w.module("quakemigrate.lut.create_lut")
    m.util.logger = lambda *a, **k: None
    m.Transformer = Transformer
    n = ints("nx", "ny", "nz")
    o, d = reals("x0", "y0", "z0"), reals("dx", "dy", "dz")
    C.assume(z3.And(*[z3.And(x.e >= 2, x.e < 2 ** 20) for x in n], *[x.e > 0 for x in d]))
    known = C.choose(2, "projection known")
    gp, cp = (Proj("grid") if known else None), Proj("coord")
    read, tabs, saved = [], {}, []

    def one(f, ignore_proj=False):
        key = place(f).p
        read.append(key)
        tabs[key] = Arr.symbol(f"tt{len(tabs)}", tuple(n))
        C.assume(z3.BoolVal(not ignore_proj))
        return (Arr.from_list([QList(n), QList(o), QList(d)]), [gp, cp, "KIND"], tabs[key])
    m._read_nlloc = one
    m.LUT.save = lambda self, f: saved.append((self, f, dict(self.__dict__), {k: sorted(v) for k, v in self.traveltimes.items()}))
    st = Names(["A", "B", "C"])
    phases = [["P", "S"], ["P"], ["S", "P"]][C.choose(3, "phases")]
    save = C.choose(2, "save")
    fr, = reals("fraction")
    try:
        g = m.read_nlloc("GRIDS", st, list(phases), fr, "OUT.LUT" if save else None)
    except NotImplementedError:
        oblige("refused only for a projection that is not known", z3.BoolVal(not known))
        return
    oblige("a projection that is not known is refused", z3.BoolVal(bool(known)))
    oblige("every grid is read", z3.BoolVal(sorted(set(read)) == sorted(("GRIDS", f"layer.{p}.{s}.time") for p in phases for s in "ABC")))
    for q in range(3):
        oblige("node count of the grids", num(g.node_count.at(q)).e == n[q].e)
        oblige("spacing of the grids", num(g.node_spacing.at(q)).e == d[q].e)
    oblige("projections of the grids", z3.BoolVal(g.grid_proj is gp and g.coord_proj is cp))
    fs = [z3.Function(f"tr{q}", I, I, core.R, core.R, core.R, core.R) for q in range(3)]
    xyz = [x.e for x in o]
    back = [fs[q](gp.id, cp.id, *xyz) for q in range(3)]
    C.assume(z3.And(*[fs[q](cp.id, gp.id, *back) == xyz[q] for q in range(3)]))
    ll = g.index2grid(Arr.from_list([0, 0, 0]))
    for q in range(3):
        oblige("the first node is the origin of the grids", num(ll.at(0, q)).e == xyz[q])
    oblige("tables of every station and phase", z3.BoolVal(sorted(g.traveltimes) == ["A", "B", "C"] and all(sorted(g.traveltimes[s]) == sorted(phases) for s in "ABC")))
    for s in "ABC":
        for p in phases:
            t = g.traveltimes[s][p]
            src = [k for k, v in tabs.items() if v is t]
            if not src:
                raise core.Unsupported("traveltimes kept in another form")
            oblige("the times of its own grid", z3.BoolVal(src == [("GRIDS", f"layer.{p}.{s}.time")]))
    oblige("stations and phases", z3.BoolVal(g.station_data is st and list(g.phases) == phases))
    oblige("traveltime uncertainty fraction", num(g.fraction_tt).e == fr.e)
    oblige("saved exactly when a file is given", z3.BoolVal([x[1] for x in saved] == (["OUT.LUT"] if save else []) and all(x[0] is g for x in saved)))
    for x in saved:
        oblige("saved complete", z3.BoolVal(all(x[2].get(k) is v for k, v in g.__dict__.items()) and x[3] == {k: sorted(v) for k, v in g.traveltimes.items()}))


class PathMaker:
    def __call__(self, *a):
        return a[0] if len(a) == 1 and isinstance(a[0], Place) else Place(tuple(str(x) for x in a))

    def cwd(self):
        return Place(("CWD",))


Paths = types.SimpleNamespace(Path=PathMaker())


class ProjMaker:
    def __init__(self, *a, **k):
        if a:
            raise core.Unsupported("projection made in another way")
        self.k = k


class Text:
    """a file of text lines"""

    def __init__(self, lines):
        self.lines, self.k = lines, 0

    def readline(self):
        self.k += 1
        return self.lines[self.k - 1] if self.k <= len(self.lines) else ""

    __next__ = readline

    def readlines(self):
        out, self.k = QList(self.lines[self.k:]), len(self.lines)
        return out

    def __iter__(self):
        return iter(self.lines[self.k:])

    def read(self):
        return "".join(self.lines[self.k:])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    close = lambda self: None


class Bytes:
    """a file of 4-byte floating-point numbers, read from the start"""

    def __init__(self):
        self.read_ = None

    def read(self, n=None):
        if self.read_ is not None or n is None:
            raise core.Unsupported("file read in another way")
        self.read_ = num(n).e
        return self

    __enter__, __exit__, close = Text.__enter__, Text.__exit__, Text.close


ELLPS = {"WGS-84": "WGS84", "GRS-80": "GRS80", "WGS-72": "WGS72", "Australian": "aust_SA", "Krasovsky": "krass", "International": "intl", "Hayford-1909": "intl",
         "Clarke-1880": "clrk80", "Clarke-1866": "clrk66", "Airy": "airy", "Bessel": "bessel", "Hayford-1830": "evrst30", "Sphere": "sphere"}


@contract("create_lut._read_nlloc", "C14", "lut/create_lut.py:_read_nlloc", ["NonLinLoc header and buffer files as documented: x-major grids of 4-byte floats"])
def read_one():
    w = loader.World(models={"pyproj": PyprojModel("pyproj"), "pathlib": Paths})
    m = w.module("quakemigrate.lut.create_lut")
    m.Proj = ProjMaker
    n = ints("nx", "ny", "nz")
    v = reals("x0", "y0", "z0", "dx", "dy", "dz")
    C.assume(z3.And(*[x.e >= 1 for x in n]))
    lat, lon, p1, p2, rot, sx, sy, sz = reals("lat", "lon", "p1", "p2", "rot", "sx", "sy", "sz")
    T = lambda xs: " ".join(core.marker(x) for x in xs)
    ell = None
    kind = ["SIMPLE", "LAMBERT", "TRANS_MERC", "NONE", "AZIMUTHAL_EQUIDIST"][C.choose(5, "transform")]
    tail = f"RotCW {T([rot])}"
    if kind == "LAMBERT":
        ell = [*ELLPS, "Another"][C.choose(len(ELLPS) + 1, "ellipsoid")]
        line = f"RefEllipsoid {ell} LatOrig {T([lat])} LongOrig {T([lon])} FirstStdParal {T([p1])} SecondStdParal {T([p2])} {tail}"
    elif kind in ("TRANS_MERC", "AZIMUTHAL_EQUIDIST"):
        line = f"RefEllipsoid WGS-84 LatOrig {T([lat])} LongOrig {T([lon])} {tail}"
    elif kind == "SIMPLE":
        line = f"LatOrig {T([lat])} LongOrig {T([lon])} {tail}"
    else:
        line = ""
    head = [f"{T(n + v)} TIME FLOAT\n", f"STA {T([sx, sy, sz])}\n", f"TRANSFORM {kind} {line}\n"]
    buf = Bytes()
    seen = []

    def op(f, mode="r", **k):
        key = place(f).p
        if key == ("GRID.time.hdr",) and mode in ("r", "rt"):
            return Text(head)
        if key == ("GRID.time.buf",) and mode == "rb":
            return buf
        oblige("only the header and the buffer of this grid are read", z3.BoolVal(key in (("GRID.time.hdr",), ("GRID.time.buf",))))
        raise core.Unsupported("file opened in another way")
    m.open = op
    val = z3.Function("buffer", I, core.R)

    def values(cnt):
        oblige("as many values as bytes", buf.read_ == 4 * cnt)
        seen.append(cnt)
        return Arr.make((SNum(cnt),), lambda ix: SNum(val(ix[0])), "float64")

    def unpack(fmt, b):
        if b is buf and isinstance(fmt, core.Repeated) and fmt.text in ("f", "<f", "=f"):
            return values(num(fmt.n).e)
        g = re.fullmatch("[<=@]?\u27e8(\\d+)\u27e9f", fmt) if b is buf and isinstance(fmt, str) else None
        if g and C.markers[int(g.group(1))][2] in ("", "d"):
            return values(num(C.markers[int(g.group(1))][1]).e)
        raise core.Unsupported("values read in another way")
    m.struct = types.SimpleNamespace(unpack=unpack)
    single = [np.float32, "float32", "f4", "<f4", "=f4", "f", "<f"]

    def frombuffer(b, dtype=float, count=-1, offset=0):
        if b is not buf or buf.read_ is None or not any(dtype is x or dtype == x for x in single) or offset != 0:
            raise core.Unsupported("values read in another way")
        return values(buf.read_ / 4 if isinstance(count, int) and count == -1 else num(count).e)

    def fromfile(f, dtype=float, count=-1, sep="", offset=0):
        if f is not buf or buf.read_ is not None or not any(dtype is x or dtype == x for x in single) or sep or offset != 0 or isinstance(count, int):
            raise core.Unsupported("values read in another way")
        buf.read_ = 4 * num(count).e
        return values(num(count).e)
    ignore = bool(C.choose(2, "projection ignored"))
    np.frombuffer, np.fromfile = frombuffer, fromfile
    try:
        spec, tr, tt = m._read_nlloc(Place(("GRID.time",)), ignore) if C.choose(2, "file as a path") else m._read_nlloc("GRID.time", ignore)
    finally:
        del np.frombuffer, np.fromfile
    for q in range(3):
        oblige("node count", num(spec[0][q]).e == n[q].e)
        oblige("origin", num(spec[1][q]).e == v[q].e)
        oblige("spacing", num(spec[2][q]).e == v[3 + q].e)
    i = [C.skolem(x) for x in "ijk"]
    C.assume(z3.And(*[z3.And(a >= 0, a < b.e) for a, b in zip(i, n)]))
    oblige("a time for every node", z3.And(z3.BoolVal(tt.ndim == 3), *[iv(x) == y.e for x, y in zip(tt.shape, n)]))
    oblige("every node's own time", num(tt.at(*i)).e == val((i[0] * n[1].e + i[1]) * n[2].e + i[2]))
    gp, cp, name = tr
    oblige("name of the projection", z3.BoolVal(name == kind))
    oblige("geographic coordinates", z3.BoolVal(isinstance(cp, ProjMaker) and cp.k.get("proj") in ("longlat", "latlong")))
    if kind in ("NONE", "AZIMUTHAL_EQUIDIST"):
        oblige("no projection", z3.BoolVal(gp is None))
        return
    want = {"SIMPLE": ("eqc", {"lat_0": lat, "lon_0": lon, "lat_ts": lat}), "LAMBERT": ("lcc", {"lat_0": lat, "lon_0": lon, "lat_1": p1, "lat_2": p2}),
            "TRANS_MERC": ("tmerc", {"lat_0": lat, "lon_0": lon})}[kind]
    oblige("kind of projection, in kilometres", z3.BoolVal(isinstance(gp, ProjMaker) and gp.k.get("proj") == want[0] and gp.k.get("units") == "km"))
    for k, x in want[1].items():
        oblige(f"projection parameter {k}", num(gp.k[k]).e == x.e if k in gp.k else z3.BoolVal(False))
    if ell in ELLPS:
        oblige("ellipsoid", z3.BoolVal(gp.k.get("ellps") == ELLPS[ell]))


# ------------------------------------------------------------------ C14: tables from a section computed by NonLinLoc
class Dirs(Place):
    """paths of a run of NonLinLoc: making and removing files is left to the file system"""

    def __truediv__(self, s):
        return Dirs(super().__truediv__(s).p, self.fs)

    def mkdir(self, **k):
        pass

    def exists(self):
        return True

    is_file = is_dir = exists

    def glob(self, pat):
        return []

    def unlink(self, **k):
        pass


class Model:
    """velocity model, in units of the grid or divided"""

    def __init__(self, by=None):
        self.by = by

    def __truediv__(self, x):
        if self.by is not None:
            raise core.Unsupported("model converted twice")
        return Model(num(x).e)


@contract("create_lut._compute_1d_nlloc", "C14", "lut/create_lut.py:_compute_1d_nlloc",
          ["NonLinLoc computes the section that its control file asks for", "_bilinear_interpolate, _read_nlloc, _write_control_file, grid_xyz and stations_xyz by their own contracts",
           "two stations stand for the list (each is handled alone)"])
def compute_1d_nlloc():
    log = []

    def check_output(args, **k):
        log.append(("run", str(args[0]).split("/")[-1], args[1]))
        return b"fine"

    class Maker:
        def __call__(self, *a):
            return Dirs(tuple(str(x) for x in a))

        def cwd(self):
            return Dirs(("CWD",))
    paths = types.SimpleNamespace(Path=Maker())
    sub = types.SimpleNamespace(check_output=check_output, STDOUT=-2)
    w = loader.World(models={"pyproj": PyprojModel("pyproj"), "pathlib": paths, "subprocess": sub})
    m = w.module("quakemigrate.lut.create_lut")
    m.os = types.SimpleNamespace(remove=lambda p: log.append(("remove", p)), listdir=lambda p: [])
    m.rmtree = lambda p: None
    n = ints("nx", "ny", "nz")
    C.assume(z3.And(*[x.e >= 1 for x in n]))
    lut = type("L", (), {})()
    lut.grid_xyz = [Arr.symbol(f"g{q}", tuple(n)) for q in range(3)]
    lut.stations_xyz = Arr.symbol("st", (2, 3))
    lut.grid_corners = Arr.symbol("corner", (8, 3))
    lut.node_count = Arr.from_list(n)
    for a in lut.grid_xyz + [lut.stations_xyz, lut.grid_corners]:
        a.cell.readonly = True
    km = C.choose(2, "grid in kilometres")
    lut.unit_conversion_factor = 1000.0 if km else 1.0
    f = 1 if km else 1000
    lut.station_data = Names(["A", "B"])
    lut.traveltimes = QDict()
    old = Arr.symbol("old", tuple(n))
    lut.traveltimes["A"] = QDict()
    lut.traveltimes["A"]["P"] = old
    lut.traveltimes["A"]["S"] = old
    ph = "PS"[C.choose(2, "phase")]
    sections = []

    def control(xyz, station, max_dist, vmodel, span, phase, dx, block):
        log.append(("control", station, xyz, num(max_dist).e, vmodel, [num(x).e for x in span], phase, dx, block))

    def section(f_, ignore_proj=False):
        q = len(sections)
        nd, nz = ints(f"nd{q}", f"ns{q}")
        C.assume(z3.And(nd.e >= 2, nz.e >= 2))
        spec = Arr.symbol(f"spec{q}", (3, 3))
        tt = Arr.symbol(f"sec{q}", (1, nd, nz))
        sections.append((spec, tt))
        log.append(("section", place(f_).p, spec, tt))
        return spec, [None, None, "NONE"], tt
    made = []

    def bilinear(xz, o, s, tt):
        q = len(made)
        g = z3.Function(f"bil{q}", I, core.R)
        made.append((xz.reader(), xz.shape, o, s, tt, g))
        log.append(("interpolate", q))
        return Arr.make((xz.shape[0],), lambda ix: SNum(g(ix[0])), "float64")
    m._write_control_file, m._read_nlloc, m._bilinear_interpolate = control, section, bilinear
    dx, = reals("spacing")
    C.assume(dx.e > 0)
    vm = Model()
    block = bool(C.choose(2, "block model"))
    kw = {"vmod": vm, "nlloc_dx": dx, "block_model": block}
    m._compute_1d_nlloc(lut, ph, vm, **kw)
    i = [C.skolem(x) for x in "ijk"]
    C.assume(z3.And(*[z3.And(a >= 0, a < b.e) for a, b in zip(i, n)]))
    N = n[0].e * n[1].e * n[2].e
    core.lemma("a flat index lies inside the array", [I] * 6, lambda a, b, c, x, y, z: z3.Implies(
        z3.And(a >= 0, b >= 0, c >= 0, a < x, b < y, c < z), z3.And((a * y + b) * z + c >= 0, (a * y + b) * z + c < x * y * z)), (*i, *[x.e for x in n]))
    core.lemma("quotient and remainder", [I, I, I], lambda a, b, c: z3.Implies(z3.And(b >= 0, b < c), z3.And((a * c + b) / c == a, (a * c + b) % c == b)),
               (i[0] * n[1].e + i[1], i[2], n[2].e), (i[0], i[1], n[1].e))
    flat = ravel_expr(i, n)
    use_extrema(i)
    use_extrema([flat])
    oblige("a table for every station, other phases kept", z3.BoolVal(
        sorted(lut.traveltimes) == ["A", "B"] and all(ph in lut.traveltimes[s] for s in "AB") and lut.traveltimes["A"]["PS"[ph == "P"]] is old))
    for r, s in enumerate("AB"):
        mine = [k for k, x in enumerate(log) if x[0] == "section" and x[1][-1] == f"layer.{ph}.{s}.time"]
        oblige("the section of this station and phase is read once", z3.BoolVal(len(mine) == 1))
        cs = [k for k, x in enumerate(log) if x[0] == "control" and x[1] == s]
        oblige("a control file for this station", z3.BoolVal(len(cs) == 1))
        if len(mine) != 1 or len(cs) != 1:
            return
        c = log[cs[0]]
        between = [x[1:] for x in log[cs[0] + 1:mine[0]]]
        oblige("the section is computed from this control file, then read", z3.BoolVal(between == [("Vel2Grid", "control.in"), ("Grid2Time", "control.in")]))
        st = [num(lut.stations_xyz.at(r, q)).e for q in range(3)]
        for q in range(3):
            oblige("position of the station, in kilometres", num(c[2].at(q) if isinstance(c[2], Arr) else c[2][q]).e * f == st[q])
        oblige("phase and options of the control file", z3.And(z3.BoolVal(c[6] == ph and c[8] is block), num(c[7]).e == dx.e))
        oblige("velocity model in kilometres", c[4].by == f if isinstance(c[4], Model) and c[4].by is not None else z3.BoolVal(bool(km) and c[4] is vm))
        g = [num(lut.grid_xyz[q].at(*i)).e for q in range(3)]
        d2 = (g[0] - st[0]) * (g[0] - st[0]) + (g[1] - st[1]) * (g[1] - st[1])
        zs = [num(lut.grid_corners.at(k, 2)).e for k in (0, 7)]
        oblige("the section spans the depths of the grid", z3.And(c[5][0] * f <= zs[0], c[5][1] * f >= zs[1]))
        oblige("and the depth of the station", z3.And(c[5][0] * f <= st[2], c[5][1] * f >= st[2]))
        # the interpolation that follows the section
        after = [x[1] for x in log[mine[0] + 1:] if x[0] == "interpolate"]
        if not after:
            raise core.Unsupported("section used in another way")
        xz, sh, o, sp, tt, bil = made[after[0]]
        spec, sec = log[mine[0]][2:]
        oblige("one point per node", z3.And(z3.BoolVal(len(sh) == 2), iv(sh[0]) == N, iv(sh[1]) == 2))
        x = num(xz((flat, z3.IntVal(0)))).e
        # the square root is unique: compare as written, or squares and signs
        e = [num(lut.grid_xyz[q].at(*i)) / (1.0 * f) - num(lut.stations_xyz.at(r, q)) / (1.0 * f) for q in range(2)]
        want = core.sqrt_(e[0] * e[0] + e[1] * e[1]).e
        oblige("a node's epicentral distance, in kilometres", z3.Or(x == want, z3.And(x >= 0, x * x * (f * f) == d2)))
        oblige("the section reaches every node", c[3] >= x)
        oblige("a node's depth, in kilometres", num(xz((flat, z3.IntVal(1)))).e * f == g[2])
        for q in range(2):
            oblige("origin of the section", num(o.at(q)).e == num(spec.at(1, q + 1)).e)
            oblige("spacing of the section", num(sp.at(q)).e == num(spec.at(2, q + 1)).e)
        a, b = C.skolem("a"), C.skolem("b")
        C.assume(z3.And(a >= 0, a < iv(sec.shape[1]), b >= 0, b < iv(sec.shape[2])))
        oblige("the whole section", z3.And(z3.BoolVal(tt.ndim == 2), iv(tt.shape[0]) == iv(sec.shape[1]), iv(tt.shape[1]) == iv(sec.shape[2]),
                                           num(tt.at(a, b)).e == num(sec.at(0, a, b)).e))
        t = lut.traveltimes[s][ph]
        oblige("one traveltime per node", z3.And(z3.BoolVal(t.ndim == 3), *[iv(p) == q.e for p, q in zip(t.shape, n)]))
        oblige("every node gets its own interpolated traveltime", num(t.at(*i)).e == bil(flat))
