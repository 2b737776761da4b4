"""Contracts on small functions the other contracts lean on: C01, C07, C08, C12, C13, C18, C25."""
from __future__ import annotations

import types

import z3

from .. import core, loader
from ..arr import Arr, iv
from ..core import C, I, R, SNum, num, oblige, rl
from .base import contract
from .corelib import ints
from .gridc import PyprojModel, grid, reals, world
from .scanc import scan


@contract("lut.Grid3D.get_grid_extent", "C13", "lut/lut.py:Grid3D.get_grid_extent, lut/lut.py:Grid3D.coord2grid", ["pyproj transformations are functions of the point, invertible"])
def grid_extent():
    w, m = world()
    g, nc, sp = grid(m)
    cells = C.choose(2, "cells") == 1
    lo = [g.ll_corner.at(q).e - (sp.at(q).e / 2 if cells else 0) for q in range(3)]
    hi = [g.ll_corner.at(q).e + z3.ToReal(nc.at(q).e - 1) * sp.at(q).e + (sp.at(q).e / 2 if cells else 0) for q in range(3)]
    l0 = [g.ll_corner.at(q).e for q in range(3)]
    e = g.get_grid_extent(cells=True) if cells else g.grid_extent
    T = m.Transformer.from_proj(g.grid_proj, g.coord_proj)
    for p, at in enumerate((lo, hi)):
        want = T.transform(*[SNum(v) for v in at])
        for q in range(3):
            oblige("first and last node" + (", and half a cell beyond them" if cells else ""), num(e[p, q]).e == num(want[q]).e)
    oblige("the grid stays as it is", z3.And(*[z3.And(num(g.grid_corners[0, q]).e == l0[q], g.ll_corner.at(q).e == l0[q], g.node_spacing.at(q).e == sp.at(q).e) for q in range(3)]))


@contract("scanmseed.ScanmSEED.__init__", "C08", "io/scanmseed.py:ScanmSEED.__init__")
def scanmseed_init():
    w = loader.World()
    m = w.module("quakemigrate.io.scanmseed")
    made = []
    m.Stream = lambda *a: made.append(a) or ("stream", len(made))
    run, cw, sr = object(), object(), object()
    o = m.ScanmSEED(run, cw, sr)
    oblige("run, writing mode and rate as given", z3.BoolVal(o.run is run and o.continuous_write is cw and o.sampling_rate is sr))
    oblige("nothing held, nothing written", z3.BoolVal(made == [()] and o.stream == ("stream", 1) and o.written is False))
    b = m.ScanmSEED(run, cw, sr)
    oblige("each has a stream of its own", z3.BoolVal(b.stream == ("stream", 2)))


@contract("scan.QuakeScan settings by other names", "C07 C01", "signal/scan.py:QuakeScan.scan_rate, signal/scan.py:QuakeScan.sampling_rate, signal/scan.py:QuakeScan.time_step, signal/scan.py:QuakeScan.n_cores")
def scan_aliases():
    w, m, s = scan()[:3]
    m.print = lambda *a, **k: None
    sr, k, ts, v = reals("onset_rate", "other", "timestep", "new")
    s.onset = types.SimpleNamespace(sampling_rate=sr)
    s.timestep, s.threads = ts, 5
    s.scan_rate = sr
    oblige("the rate of the onset function", num(s.scan_rate).e == sr.e)
    s.scan_rate = None
    s.sampling_rate = None
    s.time_step = None
    s.n_cores = None
    oblige("nothing given, nothing changed", z3.And(num(s.scan_rate).e == sr.e, num(s.sampling_rate).e == sr.e, num(s.timestep).e == ts.e, z3.BoolVal(s.threads == 5)))
    s.sampling_rate = k
    oblige("an unsupported setting changes nothing", num(s.scan_rate).e == sr.e)
    s.scan_rate = k
    oblige("the scan keeps the rate of the onset function", num(s.scan_rate).e == sr.e)
    s.time_step, s.n_cores = v, 3
    oblige("the old names set time step and threads", z3.And(num(s.timestep).e == v.e, num(s.time_step).e == v.e, z3.BoolVal(s.threads == 3 and s.n_cores == 3)))


@contract("util.gaussian_1d", "C18", "util.py:gaussian_1d", ["exp is a function"])
def gaussian():
    w = loader.World()
    u = w.module("quakemigrate.util")
    n, = ints("n")
    C.assume(n.e >= 1)
    x = Arr.symbol("x", (n,), sort=R)
    x.cell.readonly = True
    a, b, c = reals("a", "b", "c")
    C.assume(c.e != 0)
    f = u.gaussian_1d(x, a, b, c)
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    got = num(f.at(i)).e
    args = [t for t in subterms(got) if z3.is_app(t) and t.decl().eq(core.exp_(SNum(z3.Real("probe"))).e.decl())]
    if len(args) != 1:
        raise core.Unsupported("a Gaussian written in another way")
    arg = args[0].arg(0)
    d = num(x.at(i)).e - b.e
    oblige("one value per sample", iv(f.shape[0]) == n.e)
    oblige("height * exp(-(x - mean)^2 / (2 sigma^2)): the exponent", arg == -core.rdiv(d * d, 2 * (c.e * c.e)))
    oblige("the height", got == a.e * args[0])


def subterms(t):
    seen, todo = {}, [t]
    while todo:
        q = todo.pop()
        if q.get_id() not in seen:
            seen[q.get_id()] = q
            todo += q.children()
    return list(seen.values())


@contract("io.core.stations", "C25", "io/core.py:stations", ["read_stations by its own contract"])
def stations():
    w = loader.World(models={"pyproj": PyprojModel("pyproj")})
    m = w.module("quakemigrate.io.core")
    m.print = lambda *a, **k: None
    asked, out = [], object()
    m.read_stations = lambda *a, **k: (asked.append((a, k)), out)[1]
    oblige("the stations of the file named, read in the one way", z3.BoolVal(m.stations("file", sep=";") is out and asked in ([(("file",), {"sep": ";"})], [((), {"station_file": "file", "sep": ";"})])))


@contract("trigger.chunks2trace", "C12", "signal/trigger.py:chunks2trace")
def chunks2trace():
    w = loader.World(models={"pyproj": PyprojModel("pyproj")})
    m = w.module("quakemigrate.signal.trigger")
    n, L = ints("n", "L")
    C.assume(z3.And(n.e >= 1, L.e >= 1))
    a = Arr.symbol("a", (n,), sort=R)
    a.cell.readonly = True
    b = m.chunks2trace(a, (n, L))
    i, j = C.skolem("i"), C.skolem("j")
    C.assume(z3.And(i >= 0, i < n.e, j >= 0, j < L.e))
    oblige("a sample for every sample of every chunk", iv(b.shape[0]) == n.e * L.e)
    oblige("each has the value of its chunk", num(b.at(i * L.e + j)).e == num(a.at(i)).e)
