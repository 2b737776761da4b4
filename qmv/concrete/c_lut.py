"""Run-time contracts: the grid, traveltime tables and lookup-table operations (C13, C14, C15)."""
from __future__ import annotations

import copy
import os
import pathlib
import pickle
import re
import stat
import struct

import numpy as np

from . import fix
from .api import check, get


# ---------------------------------------------------------------- C13: the grid
@check("C13", quick=60, thorough=1500, fn="lut.lut.Grid3D")
def grid_nodes(t):
    """node positions, counts, round trips, nearest node, C order"""
    from pyproj import Transformer
    Grid3D = get("quakemigrate.lut.lut", "Grid3D")
    units = ["km", "m"][t.i % 2]
    spec, n, o, sp = fix.grid_spec(t.rng, units)
    scalar = t.i % 3 == 0
    if scalar:
        sp = np.repeat(sp[0], 3)
        ur = o + (n - 1.5) * sp
        spec["ur_corner"] = list(Transformer.from_proj(spec["grid_proj"], spec["coord_proj"]).transform(*ur))
        spec["node_spacing"] = float(sp[0])
    t.note(units=units, n=n, origin=o, spacing=spec["node_spacing"])
    g = Grid3D(**spec)
    tol = 1e-6 * (1000 if units == "m" else 1)
    t.equal(np.array(g.node_count), n, "the last node is the first one reaching the upper-right corner")
    t.close(g.node_spacing, sp, "a scalar spacing applies to all axes", rtol=0, atol=0)
    t.close(g.ll_corner, o, "lower-left corner", rtol=0, atol=tol)
    ijk = np.stack([t.rng.integers(0, k, 12) for k in n], axis=1)
    xyz = g.index2grid(ijk)
    t.close(xyz, g.ll_corner + ijk * sp, "node at corner + index * spacing", rtol=1e-12, atol=1e-9)
    one = g.index2grid(ijk[0])
    t.close(np.asarray(one).reshape(-1), xyz[0], "a single index gives the same point")
    t.equal(np.array(g.index2grid(xyz, inverse=True)), ijk, "grid coordinates -> index round trip")
    off = t.rng.uniform(-0.49, 0.49, ijk.shape) * sp
    t.equal(np.array(g.index2grid(xyz + off, inverse=True)), ijk, "positions between nodes map to the nearest node")
    co = g.index2coord(ijk)
    t.close(co, np.column_stack(Transformer.from_proj(spec["grid_proj"], spec["coord_proj"]).transform(*xyz.T)),
            "coordinates of a node", rtol=1e-12, atol=1e-9)
    t.equal(np.array(g.index2coord(co, inverse=True)), ijk, "coordinates -> index round trip")
    t.equal(np.array(g.index2coord(list(co[0]), inverse=True)).reshape(-1), ijk[0], "single coordinate round trip")
    t.close(g.coord2grid(co), xyz, "coordinates -> grid", rtol=0, atol=tol)
    flat = np.arange(int(np.prod(n)))
    t.rng.shuffle(flat)
    flat = flat[:40]
    ex = np.column_stack([flat // (n[1] * n[2]), (flat // n[2]) % n[1], flat % n[2]])
    t.close(g.index2grid(flat, unravel=True), g.ll_corner + ex * sp, "flat indices are unravelled in C order", rtol=1e-12, atol=1e-9)
    t.close(g.index2coord(flat, unravel=True), g.index2coord(ex), "flat indices to coordinates in C order")
    gx = g.grid_xyz
    t.expect(len(gx) == 3 and all(a.shape == tuple(n) for a in gx), "grid_xyz has one array of the grid's shape per axis")
    for a in range(3):
        idx = np.arange(n[a]).reshape([-1 if b == a else 1 for b in range(3)])
        t.close(gx[a], np.broadcast_to(g.ll_corner[a] + idx * sp[a], tuple(n)), "grid_xyz", rtol=1e-12, atol=1e-9)
    cor = np.array(g.grid_corners)
    want = np.array([[i, j, k] for i in (0, n[0] - 1) for j in (0, n[1] - 1) for k in (0, n[2] - 1)])
    t.close(cor, g.ll_corner + want * sp, "grid corners", rtol=1e-12, atol=1e-9)
    ext = np.array(g.get_grid_extent())
    t.close(ext, g.index2coord([[0, 0, 0], n - 1]), "grid extent: first and last node", rtol=1e-12, atol=1e-12)
    extc = np.array(g.get_grid_extent(cells=True))
    lo, hi = g.ll_corner - sp / 2, g.ll_corner + (n - 0.5) * sp
    t.close(extc, g.coord2grid([lo, hi], inverse=True), "cell extent: half a cell beyond", rtol=1e-9, atol=1e-9)
    t.expect(g.unit_name == units, "unit name")


@check("C13", quick=40, thorough=400, fn="lut.lut.Grid3D setters")
def grid_rejects(t):
    """non-positive node counts or spacings are rejected"""
    Grid3D = get("quakemigrate.lut.lut", "Grid3D")
    spec, n, o, sp = fix.grid_spec(t.rng, "km")
    g = Grid3D(**spec)
    ax = int(t.rng.integers(3))
    bad = np.array(sp)
    bad[ax] = [0.0, -0.5][t.i % 2]
    t.note(spacing=bad)
    t.raises(Exception, lambda: Grid3D(**{**spec, "node_spacing": bad}), "a non-positive spacing is rejected")
    t.raises(Exception, lambda: setattr(g, "node_spacing", bad), "a non-positive spacing is rejected")
    t.raises(Exception, lambda: setattr(g, "node_spacing", 0.0), "a non-positive scalar spacing is rejected")
    bc = np.array(n)
    bc[ax] = [0, -1][t.i % 2]
    t.raises(Exception, lambda: setattr(g, "node_count", bc), "a non-positive node count is rejected", count=bc)
    t.raises(Exception, lambda: setattr(g, "node_spacing", [1.0, 2.0]), "a spacing of the wrong length is rejected")
    t.close(g.node_spacing, sp, "a rejected spacing leaves the grid unchanged", rtol=0, atol=0)
    t.equal(np.array(g.node_count), n, "a rejected node count leaves the grid unchanged")
    # upper-right corner below the lower-left one: non-positive node count
    from pyproj import Transformer
    far = o.copy()
    far[ax] -= 5 * sp[ax]
    far_c = list(Transformer.from_proj(spec["grid_proj"], spec["coord_proj"]).transform(*far))
    t.raises(Exception, lambda: Grid3D(**{**spec, "ur_corner": far_c}), "a grid of non-positive extent is rejected")


@check("C13", quick=60, thorough=1500, fn="lut.lut.Grid3D.decimate")
def grid_decimate(t):
    """every dx-th, dy-th, dz-th node, each value attached to the coordinates it had"""
    n = t.rng.integers(1, 12, 3)
    df = t.rng.integers(1, 5, 3)
    if t.i % 5 == 0:
        df = np.array([1, 1, 1])
    lut = fix.make_lut(t.rng, n=n)
    ref = {s: {p: v.copy() for p, v in m.items()} for s, m in lut.traveltimes.items()}
    xyz = [a.copy() for a in lut.grid_xyz]
    ll, nc, ns = np.array(lut.ll_corner), np.array(lut.node_count), np.array(lut.node_spacing)
    t.note(node_count=nc, df=df, inplace=bool(t.i % 2))
    arg = [list(map(int, df)), np.array(df), tuple(map(int, df))][t.i % 3]
    if t.i % 2:
        r = lut.decimate(arg, inplace=True)
        t.expect(r is None, "an in-place decimation returns nothing")
        d = lut
    else:
        d = lut.decimate(arg)
        t.expect(d is not lut, "a copy is returned")
        t.equal(np.array(lut.node_count), nc, "the original keeps its node count")
        t.close(lut.node_spacing, ns, "the original keeps its spacing")
        t.close(lut.ll_corner, ll, "the original keeps its corner")
        for s in ref:
            for p in ref[s]:
                t.equal(lut.traveltimes[s][p], ref[s][p], "the original keeps its traveltimes")
    new = 1 + (nc - 1) // df
    t.equal(np.array(d.node_count), new, "number of kept nodes")
    t.close(d.node_spacing, ns * df, "spacing multiplied by the factor", rtol=1e-12)
    dx = d.grid_xyz
    # locate the kept nodes among the original ones by coordinate
    c = np.rint((np.array(d.ll_corner) - ll) / ns).astype(int)
    t.expect(np.all(c >= 0) and np.all(c + df * (new - 1) <= nc - 1), "the kept nodes lie inside the grid", offset=c)
    sl = tuple(slice(int(c[a]), int(c[a] + df[a] * (new[a] - 1) + 1), int(df[a])) for a in range(3))
    for a in range(3):
        t.close(dx[a], xyz[a][sl], "kept nodes are original nodes", rtol=1e-9, atol=1e-9)
    for s in ref:
        for p in ref[s]:
            t.equal(np.asarray(d.traveltimes[s][p]), ref[s][p][sl], "each kept value stays attached to the coordinates it had", station=s, phase=p, offset=c)


# ---------------------------------------------------------------- C14: traveltimes
@check("C14", quick=25, thorough=300, fn="lut.create_lut.compute_traveltimes")
def homogeneous(t):
    """straight-line distance over phase velocity"""
    f = get("quakemigrate.lut", "compute_traveltimes")
    units = ["km", "m"][t.i % 2]
    k = 1.0 if units == "km" else 1000.0
    spec, n, o, sp = fix.grid_spec(t.rng, units)
    names = ["A", "B2", "CC"][: 1 + t.i % 3]
    st = fix.stations(names, t.rng)
    st["Elevation"] *= k
    st0 = st.copy()
    v = {"P": float(np.round(t.rng.uniform(3, 7), 2)) * k, "S": float(np.round(t.rng.uniform(1, 3), 2)) * k}
    ph = [["P", "S"], ["P"], ["S"], ["S", "P"]][t.i % 4]
    t.note(units=units, n=n, stations=names, v=v, phases=ph)
    save = os.path.join(t.tmp, "sub", "x.LUT") if t.i % 3 == 0 else None
    lut = f(spec, st, "homogeneous", phases=ph, fraction_tt=0.2, vp=v["P"], vs=v["S"], save_file=save)
    tr = lut.coord2grid(st0[["Longitude", "Latitude", "Elevation"]].values)
    t.equal(sorted(lut.traveltimes), sorted(names), "one table per station")
    xyz = np.stack(np.meshgrid(*[o[a] + np.arange(n[a]) * sp[a] for a in range(3)], indexing="ij"), axis=-1)
    for q, s in enumerate(names):
        t.equal(sorted(lut.traveltimes[s]), sorted(ph), "one table per phase")
        for p in ph:
            d = np.sqrt(((xyz - tr[q]) ** 2).sum(axis=-1))
            t.close(lut.traveltimes[s][p], d / v[p], "traveltime = straight-line distance / velocity", rtol=1e-7, atol=1e-9)
    t.expect(list(lut.phases) == ph and lut.fraction_tt == 0.2, "phases and traveltime uncertainty recorded")
    t.expect(lut.station_data.equals(st0), "station data recorded unchanged")
    want = max(lut.traveltimes[s][p].max() for s in names for p in ph)
    t.expect(lut.max_traveltime == want, "the maximum traveltime is the largest over all tables", got=lut.max_traveltime, want=want)
    if save:
        l2 = get("quakemigrate.io", "read_lut")(save)
        for s in names:
            for p in ph:
                t.equal(l2.traveltimes[s][p], lut.traveltimes[s][p], "saved table reads back")


@check("C14", quick=60, thorough=1500, fn="lut.lut.LUT.traveltime_to, _serve_traveltimes, max_traveltime")
def traveltime_queries(t):
    """a query at a node returns the stored value for exactly the stations and phase asked"""
    names = [f"S{k}" for k in range(1 + t.i % 4)]
    lut = fix.make_lut(t.rng, names, n=t.rng.integers(2, 6, 3))
    if t.i % 4 == 3:      # tables stored under the long phase name
        for s in names:
            lut.traveltimes[s] = {f"TIME_{p}": v for p, v in lut.traveltimes[s].items()}
    key = (lambda p: f"TIME_{p}") if t.i % 4 == 3 else (lambda p: p)
    perm = [int(x) for x in t.rng.permutation(len(names))]
    lut.traveltimes = {names[q]: lut.traveltimes[names[q]] for q in perm}      # dictionary order differs
    ijk = [int(t.rng.integers(0, c)) for c in lut.node_count]
    p = ["P", "S"][t.i % 2]
    t.note(ijk=ijk, phase=p, stations=names, tables=lut.traveltimes)
    want = np.array([lut.traveltimes[s][key(p)][tuple(ijk)] for s in names])
    t.close(np.asarray(lut.traveltime_to(p, ijk)).reshape(-1), want, "all stations in station order")
    s = names[int(t.rng.integers(len(names)))]
    t.close(np.asarray(lut.traveltime_to(p, ijk, s)).reshape(-1), [lut.traveltimes[s][key(p)][tuple(ijk)]], "one station")
    sub = [names[q] for q in t.rng.permutation(len(names))[: max(1, len(names) // 2)]]
    t.close(np.asarray(lut.traveltime_to(p, ijk, sub)).reshape(-1), [lut.traveltimes[x][key(p)][tuple(ijk)] for x in sub], "several stations, in the order asked")
    # between nodes: linear in each index
    fr = np.array(ijk, dtype=float)
    ax = int(t.rng.integers(3))
    if ijk[ax] + 1 < lut.node_count[ax]:
        w = float(t.rng.uniform(0, 1))
        fr[ax] += w
        nx = list(ijk)
        nx[ax] += 1
        tb = lut.traveltimes[s][key(p)]
        t.close(np.asarray(lut.traveltime_to(p, fr, s)).reshape(-1), [(1 - w) * tb[tuple(ijk)] + w * tb[tuple(nx)]], "linear between nodes", rtol=1e-6)
    want = max(v.max() for m in lut.traveltimes.values() for v in m.values())
    t.expect(lut.max_traveltime == want, "maximum over all tables", got=lut.max_traveltime, want=want)


@check("C14", quick=400, thorough=10000, fn="lut.create_lut._bilinear_interpolate")
def bilinear(t):
    """bilinear interpolation of the section wherever it starts"""
    f = get("quakemigrate.lut.create_lut", "_bilinear_interpolate")
    nx, nz = (int(x) for x in t.rng.integers(3, 9, 2))
    d = np.array([float(t.rng.choice([0.1, 0.2, 0.5, 1.0, 0.3])), float(t.rng.choice([0.1, 0.2, 0.5, 1.0, 0.3]))])
    org = np.array([0.0, [0.0, -1.0, 0.37, -0.15, 2.5][t.i % 5]])
    if t.i % 7 == 6:
        org[0] = 0.4
    sec = np.round(t.rng.uniform(0, 5, (nx, nz)), 3)
    m = 8
    cx = np.where(t.rng.random(m) < 0.4, t.rng.integers(0, nx - 1, m), t.rng.uniform(0, nx - 1.01, m))
    cz = np.where(t.rng.random(m) < 0.4, t.rng.integers(0, nz - 1, m), t.rng.uniform(0, nz - 1.01, m))
    xz = np.c_[cx, cz] * d + org
    t.note(xz=xz, origin=org, spacing=d, section=sec)
    got = f(xz, org, d, sec)
    want = []
    for a, b in zip(cx, cz):
        i, k = min(int(a), nx - 2), min(int(b), nz - 2)
        u, w = a - i, b - k
        want.append(sec[i, k] * (1 - u) * (1 - w) + sec[i + 1, k] * u * (1 - w) + sec[i, k + 1] * (1 - u) * w + sec[i + 1, k + 1] * u * w)
    t.close(got, want, "bilinear interpolation at distance and depth", rtol=1e-6, atol=1e-6)


FAKE = """#!{py}
import sys, re, struct, os
txt = open(sys.argv[1]).read()
if os.path.basename(sys.argv[0]) == "Grid2Time":
    g = re.search(r"VGGRID (\\S+) (\\S+) (\\S+) (\\S+) (\\S+) (\\S+) (\\S+) (\\S+) (\\S+)", txt).groups()
    nx, ny, nz = int(g[0]), int(g[1]), int(g[2])
    x0, y0, z0, dx, dy, dz = map(float, g[3:])
    mp, tp, ph = re.search(r"GTFILES (\\S+) (\\S+) (\\S+)", txt).groups()
    st, x, y, z = re.search(r"GTSRCE (\\S+) XYZ (\\S+) (\\S+) (\\S+)", txt).groups()
    stem = f"{{tp}}.{{ph}}.{{st}}.time"
    # the section is bilinear in (distance, depth): interpolation is exact
    a = [3.0, 5.0][ph == "S"]
    f = lambda r, d: 0.5 + 0.21 * r / a + 0.13 * (d + 10) + 0.011 * r * (d - float(z))
    with open(stem + ".hdr", "w") as h:
        h.write(f"1 {{ny}} {{nz}}  0.0 {{y0}} {{z0}}  {{dx}} {{dy}} {{dz}} TIME2D FLOAT\\n{{st}} {{x}} {{y}} {{z}}\\nTRANSFORM  NONE\\n") if nx == 1 else \\
        h.write(f"1 {{ny}} {{nz}}  0.0 {{y0}} {{z0}}  {{dx}} {{dy}} {{dz}} TIME2D FLOAT\\n{{st}} {{x}} {{y}} {{z}}\\nTRANSFORM  NONE\\n")
    with open(stem + ".buf", "wb") as h:
        v = [f(y0 + j * dy, z0 + k * dz) for j in range(ny) for k in range(nz)]
        h.write(struct.pack("f" * len(v), *v))
open("calls.log", "a").write(os.path.basename(sys.argv[0]) + "\\n")
ph, st = re.search(r"VGTYPE (\\S+)", txt).group(1), re.search(r"GTSRCE (\\S+) XYZ", txt).group(1)
open(f"{{sys.argv[0]}}.{{ph}}.{{st}}.control", "w").write(txt)
"""


@check("C14", quick=8, thorough=60, fn="lut.create_lut._compute_1d_nlloc")
def nlloc_1d(t):
    """tables interpolated from the 2-D section: a stand-in Grid2Time writes a known section"""
    import sys

    import pandas as pd
    f = get("quakemigrate.lut", "compute_traveltimes")
    b = pathlib.Path(t.tmp) / "bin"
    b.mkdir()
    for m in ("Vel2Grid", "Grid2Time"):
        p = b / m
        p.write_text(FAKE.format(py=sys.executable))
        p.chmod(p.stat().st_mode | stat.S_IXUSR)
    units = ["km", "m"][t.i % 2]
    k = 1.0 if units == "km" else 1000.0
    spec, n, o, sp = fix.grid_spec(t.rng, units)
    st = fix.stations(["AA", "BB"], t.rng, elev=np.round(t.rng.uniform(-2.5, 1.0, 2), 2) * k)
    nl = int(t.rng.integers(1, 5))
    dep = np.round(-3.0 + np.cumsum(np.append(0.0, t.rng.uniform(0.5, 4.0, nl - 1))), 2)
    vm = pd.DataFrame({"Depth": dep * k, "Vp": np.round(t.rng.uniform(4.0, 8.0, nl), 2) * k, "Vs": np.round(t.rng.uniform(2.0, 4.0, nl), 2) * k})
    dx = [0.1, 0.25][t.i % 2]
    block = t.i // 2 % 2 == 1
    t.note(units=units, n=n, origin=o, spacing=sp, stations=st.values.tolist(), nlloc_dx=dx, model=vm.values.tolist(), block=block)
    lut = f(spec, st, "1dnlloc", vmod=vm.copy(), nlloc_path=str(b), nlloc_dx=dx, block_model=block)
    sx = lut.coord2grid(st[["Longitude", "Latitude", "Elevation"]].values) / k
    g = [x / k for x in lut.grid_xyz]
    for q, s in enumerate(["AA", "BB"]):
        r = np.sqrt((g[0] - sx[q, 0]) ** 2 + (g[1] - sx[q, 1]) ** 2)
        for p, a in (("P", 3.0), ("S", 5.0)):
            want = 0.5 + 0.21 * r / a + 0.13 * (g[2] + 10) + 0.011 * r * (g[2] - sx[q, 2])
            t.close(lut.traveltimes[s][p], want, "every node gets the section's value at its epicentral distance and depth", rtol=1e-4, atol=1e-4, station=s, phase=p)
            # what the programs were asked for: the velocity model, in kilometres
            for tool in ("Vel2Grid", "Grid2Time"):
                txt = (b / f"{tool}.{p}.{s}.control").read_text()
                got = re.search(rf"GTSRCE {s} XYZ (\S+) (\S+) (\S+)", txt).groups()
                t.close([float(x) for x in got], sx[q], "the section starts at the station", rtol=0, atol=1e-5, station=s, phase=p)
                lay = [[float(x) for x in ln.split()[1:]] for ln in txt.splitlines() if ln.startswith("LAYER")]
                t.equal(len(lay), nl, "a line per layer of the velocity model")
                v = vm[f"V{p.lower()}"].values / k
                for z in np.concatenate([dep, (dep[1:] + dep[:-1]) / 2, [dep[-1] + 3.0]]):
                    j = int(np.searchsorted(dep, z, side="right")) - 1
                    want = v[j] if block else np.interp(z, dep, v)
                    for c in (1, 3):
                        t.close(lay[j][c] + lay[j][c + 1] * (z - lay[j][0]), want, "velocity of the model at this depth", rtol=0, atol=1e-4, depth=z, phase=p)


@check("C14", quick=12, thorough=100, fn="lut.create_lut.read_nlloc")
def nlloc_read(t):
    """a table read from NonLinLoc grids has their grid, projection and times"""
    from pyproj import Proj, Transformer
    f = get("quakemigrate.lut", "read_nlloc") if hasattr(__import__("quakemigrate.lut").lut, "read_nlloc") else get("quakemigrate.lut.create_lut", "read_nlloc")
    d = pathlib.Path(t.tmp) / "nll"
    d.mkdir()
    n = [int(x) for x in t.rng.integers(2, 6, 3)]
    org = [round(float(x), 2) for x in t.rng.uniform(-8, -1, 3)]
    sp = [float(t.rng.choice([0.1, 0.2, 0.5, 1.0]))] * 3
    kind = ["LAMBERT", "TRANS_MERC", "SIMPLE"][t.i % 3]
    lat, lon = 64.5, -16.5
    c = Proj(proj="longlat", ellps="WGS84", datum="WGS84", no_defs=True)
    if kind == "LAMBERT":
        tl = f"TRANSFORM  LAMBERT RefEllipsoid WGS-84  LatOrig {lat}  LongOrig {lon}  FirstStdParal 64.000000  SecondStdParal 65.000000  RotCW 0.000000"
        g = Proj(proj="lcc", lon_0=lon, lat_0=lat, lat_1=64, lat_2=65, units="km", ellps="WGS84", datum="WGS84")
    elif kind == "TRANS_MERC":
        tl = f"TRANSFORM  TRANS_MERC RefEllipsoid WGS-84  LatOrig {lat}  LongOrig {lon}  RotCW 0.000000  UseFalseEasting 0"
        g = Proj(proj="tmerc", lon_0=lon, lat_0=lat, units="km")
    else:
        tl = f"TRANSFORM  SIMPLE LatOrig {lat}  LongOrig {lon}  RotCW 0.000000"
        g = Proj(proj="eqc", lat_0=lat, lat_ts=lat, lon_0=lon, units="km")
    tabs = {}
    for s in ("ST1", "ST2"):
        for p in ("P", "S"):
            v = t.rng.uniform(0, 9, n).astype(np.float32)
            tabs[s, p] = v
            (d / f"layer.{p}.{s}.time.hdr").write_text(
                f"{n[0]} {n[1]} {n[2]}  {org[0]} {org[1]} {org[2]}  {sp[0]} {sp[1]} {sp[2]} TIME FLOAT\n{s} 0.0 0.0 0.0\n{tl}\n")
            (d / f"layer.{p}.{s}.time.buf").write_bytes(struct.pack("f" * v.size, *v.flatten()))
    st = fix.stations(["ST1", "ST2"], t.rng)
    t.note(projection=kind, n=n, origin=org, spacing=sp)
    lut = f(str(d), st)
    t.equal(np.array(lut.node_count), np.array(n), "node count of the NonLinLoc grid")
    t.close(lut.node_spacing, sp, "node spacing of the NonLinLoc grid")
    for (s, p), v in tabs.items():
        t.close(lut.traveltimes[s][p], v.astype(float), "stored times", station=s, phase=p)
    ijk = [int(t.rng.integers(k)) for k in n]
    want = Transformer.from_proj(g, c).transform(*[org[a] + ijk[a] * sp[a] for a in range(3)])
    t.close(np.asarray(lut.index2coord([ijk])).reshape(-1), want, "geographic position of a node", rtol=0, atol=2e-4, ijk=ijk)
    lon0, lat0, _ = np.asarray(lut.coord2grid([[0.0, 0.0, 0.0]], inverse=True)).reshape(-1)
    t.close([lon0, lat0], [lon, lat], "the grid origin lies at the projection's origin", rtol=0, atol=1e-4)


@check("C14", quick=10, thorough=60, fn="lut.create_lut.compute_traveltimes")
def methods_rejected(t):
    """unknown methods and missing inputs are rejected"""
    import pandas as pd
    f = get("quakemigrate.lut", "compute_traveltimes")
    spec, n, o, sp = fix.grid_spec(t.rng, "km", n=[2, 2, 2])
    st = fix.stations(["AA"], t.rng)
    vm = pd.DataFrame({"Depth": [-3.0, 5.0], "Vp": [5.0, 6.0]})
    cases = [("spam", dict(vp=5.0, vs=3.0)), ("homogeneous", dict(vp=5.0)), ("homogeneous", dict(vs=3.0)), ("homogeneous", {}),
             ("1dfmm", {}), ("1dnlloc", {}), ("3dfmm", dict(vmod=vm)), ("1dfmm", dict(vmod=vm)),
             ("1dnlloc", dict(vmod=vm, nlloc_path="/nonexistent/dir")), ("Homogeneous", dict(vp=5.0, vs=3.0))]
    m, kw = cases[t.i % len(cases)]
    t.note(method=m, given=sorted(kw))
    sf = os.path.join(t.tmp, "no.LUT")
    t.raises(Exception, lambda: f(spec, st, m, save_file=sf, **kw), "rejected with an error")
    t.expect(not os.path.exists(sf), "no table is written")


@check("C14", quick=6, thorough=24, fn="lut.create_lut._compute_1d_fmm")
def fmm_1d(t):
    """fast marching in a constant model agrees with distance / velocity to the grid's resolution; stations outside the grid are refused"""
    import pandas as pd
    f = get("quakemigrate.lut", "compute_traveltimes")
    spec, n, o, sp = fix.grid_spec(t.rng, "km", n=[15, 14, 13], spacing=[0.5, 0.5, 0.5])
    from pyproj import Transformer
    ij = [int(x) for x in t.rng.integers(2, 11, 3)]
    lon, lat, dep = Transformer.from_proj(spec["grid_proj"], spec["coord_proj"]).transform(*(o + np.array(ij) * sp))
    st = pd.DataFrame({"Name": ["AA"], "Longitude": [lon], "Latitude": [lat], "Elevation": [dep]})
    # constant with depth, or a gradient (listed where it bends), or reaching neither edge of the grid
    kind = t.i % 3
    z0, z1 = o[2], o[2] + (n[2] - 1) * sp[2]
    dep = {0: [-30.0, 5.0, 50.0], 1: [z0 - 5, z0 + 2.0, z1 + 5], 2: [z0 + 2.0, z0 + 2.5]}[kind]
    grad = 0.0 if kind != 1 else float(t.rng.choice([-0.1, 0.1, 0.2]))
    vel = {"P": 5.0, "S": 2.5}
    vm = pd.DataFrame({"Depth": dep, **{f"V{p.lower()}": [v + grad * (z - z0) for z in dep] for p, v in vel.items()}})
    t.note(node=ij, model=vm.values.tolist())
    lut = f(spec, st, "1dfmm", vmod=vm)
    g = lut.grid_xyz
    r = np.sqrt(sum((g[a] - (o[a] + ij[a] * sp[a])) ** 2 for a in range(3)))
    for p, v in vel.items():
        vz = v + grad * (g[2] - z0)
        vs = v + grad * (ij[2] * sp[2])
        # exact traveltime in a constant gradient
        want = r / v if grad == 0 else np.arccosh(1 + grad ** 2 * r ** 2 / (2 * vz * vs)) / abs(grad)
        e = np.abs(lut.traveltimes["AA"][p] - want)
        t.expect(e.max() <= 0.7 * 0.5 / v + 0.08 * want.max(), "traveltimes within the grid's resolution", worst=e.max(), phase=p, limit=0.7 * 0.5 / v + 0.08 * want.max())
    st2 = st.copy()
    st2["Elevation"] = 500.0
    t.raises(Exception, lambda: f(spec, st2, "1dfmm", vmod=vm), "a station outside the grid is refused")


# ---------------------------------------------------------------- C15: lookup-table files and operators
def same_lut(t, a, b, why):
    t.equal(np.array(a.node_count), np.array(b.node_count), why + ": node count")
    t.close(a.node_spacing, b.node_spacing, why + ": spacing", rtol=0, atol=0)
    t.close(a.ll_corner, b.ll_corner, why + ": corner", rtol=0, atol=0)
    t.close(a.grid_corners, b.grid_corners, why + ": corners", rtol=0, atol=0)
    t.expect(a.grid_proj == b.grid_proj and a.coord_proj == b.coord_proj, why + ": projections")
    t.equal(list(a.phases), list(b.phases), why + ": phases")
    t.expect(a.station_data.equals(b.station_data), why + ": stations", got=a.station_data.values.tolist(), want=b.station_data.values.tolist())
    vm = a.velocity_model
    t.expect(vm.equals(b.velocity_model) if hasattr(vm, "equals") else vm == b.velocity_model, why + ": velocity model")
    t.expect(a.fraction_tt == b.fraction_tt, why + ": traveltime uncertainty")
    t.equal(sorted(a.traveltimes), sorted(b.traveltimes), why + ": stations with tables")
    for s in b.traveltimes:
        t.equal(sorted(a.traveltimes[s]), sorted(b.traveltimes[s]), why + ": phases with tables")
        for p in b.traveltimes[s]:
            t.equal(a.traveltimes[s][p], b.traveltimes[s][p], why + ": traveltimes")


@check("C15", quick=20, thorough=300, fn="lut.lut.LUT.save, load; io.core.read_lut")
def save_and_load(t):
    """reading back gives the same table, whichever way it is loaded"""
    LUT = get("quakemigrate.lut", "LUT")
    rl = get("quakemigrate.io", "read_lut")
    lut = fix.make_lut(t.rng, ["AA", "BB", "CC"][: 1 + t.i % 3], phases=[["P", "S"], ["P"], ["S", "P"]][t.i % 3], units=["km", "m"][t.i % 2])
    lut.fraction_tt = 0.05 * (1 + t.i % 4)
    lut.velocity_model = "model"
    ref = copy.deepcopy(lut)
    fn = os.path.join(t.tmp, "a", "b", "t.LUT")
    t.note(stations=list(lut.traveltimes), phases=lut.phases)
    lut.save([fn, pathlib.Path(fn)][t.i % 2])
    same_lut(t, lut, ref, "saving does not change the table")
    for how, g in (("read_lut", lambda: rl(fn)), ("LUT(lut_file=...)", lambda: LUT(lut_file=fn)), ("LUT().load", lambda: (lambda x: (x.load(fn), x)[1])(LUT()))):
        x = g()
        same_lut(t, x, ref, how)
        t.expect(x == ref, how + ": equal")


@check("C15", quick=120, thorough=800, fn="lut.lut.LUT.__eq__, __add__")
def equality_and_sum(t):
    """equal exactly when the grids agree; the sum has all stations, the first table's traveltimes winning"""
    a = fix.make_lut(t.rng, ["AA", "BB", "CC"], n=[3, 4, 2])
    b = copy.deepcopy(a)
    keep = {s: {p: v.copy() for p, v in m.items()} for s, m in a.traveltimes.items()}
    b.traveltimes = {"BB": {p: v + 1.0 for p, v in keep["BB"].items()}, "DD": {"P": keep["AA"]["P"] * 2, "S": keep["AA"]["S"] * 3}}
    bk = {s: {p: v.copy() for p, v in m.items()} for s, m in b.traveltimes.items()}
    t.expect(a == b and b == a and a == copy.deepcopy(a), "same grid definitions compare equal")
    kind = ["shift", "spacing", "proj", "count", "coordproj", "notlut"][t.i % 6]
    t.note(difference=kind)
    c = copy.deepcopy(b)
    if kind == "shift":
        ax = (t.i // 6) % 3
        c.ll_corner = c.ll_corner + np.eye(3)[ax] * [0.25, 1e-3 * c.node_spacing[ax], 2e-6 * max(1.0, abs(c.ll_corner[ax]))][(t.i // 18) % 3]
    elif kind == "spacing":
        c.node_spacing = c.node_spacing * (1 + np.eye(3)[(t.i // 6) % 3] * [0.5, 1e-3, 2e-6][(t.i // 18) % 3])
    elif kind == "count":
        c.node_count = np.array(c.node_count) + np.eye(3, dtype=int)[(t.i // 6) % 3]
    elif kind == "proj":
        c.grid_proj = fix.projs("km", lon=-17.0)[0]
    elif kind == "coordproj":
        from pyproj import Proj
        c.coord_proj = Proj(proj="longlat", ellps="clrk66", no_defs=True)
    else:
        c = "spam"
    t.expect(not (a == c), "different grid definitions do not compare equal", difference=kind)
    if kind != "notlut":
        before = {s: {p: v.copy() for p, v in m.items()} for s, m in a.traveltimes.items()}
        try:
            r = a + c
        except Exception:
            r = None
        t.expect(r is None, "tables on different grids are not combined")
        t.equal(sorted(a.traveltimes), sorted(before), "a refused sum leaves the table unchanged")
    r = a + b
    t.equal(sorted(r.traveltimes), ["AA", "BB", "CC", "DD"], "all stations of both")
    for s in r.traveltimes:
        want = keep[s] if s in keep else bk[s]
        t.equal(sorted(r.traveltimes[s]), sorted(want), "phases of a station")
        for p in want:
            t.equal(np.asarray(r.traveltimes[s][p]), want[p], "the first table's traveltimes are kept, the other stations' are added", station=s, phase=p)
    t.equal(sorted(b.traveltimes), sorted(bk), "the added table keeps its stations")
    for s in bk:
        for p in bk[s]:
            t.equal(b.traveltimes[s][p], bk[s][p], "the added table is unchanged")
