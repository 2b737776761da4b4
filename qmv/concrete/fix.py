"""Builders of inputs shared by the run-time contract checks."""
from __future__ import annotations

import numpy as np

from .api import get


def projs(units="km", lon=-16.0, lat=64.5):
    from pyproj import Proj
    c = Proj(proj="longlat", ellps="WGS84", datum="WGS84", no_defs=True)
    g = Proj(proj="lcc", lon_0=lon, lat_0=lat, lat_1=lat - 0.5, lat_2=lat + 0.5,
             datum="WGS84", ellps="WGS84", units=units, no_defs=True)
    return g, c


def stations(names, rng=None, lon=-16.0, lat=64.5, span=0.3, elev=None):
    import pandas as pd
    n = len(names)
    rng = rng or np.random.default_rng(0)
    return pd.DataFrame({
        "Name": [str(x) for x in names],
        "Longitude": lon + rng.uniform(-span, span, n),
        "Latitude": lat + rng.uniform(-span, span, n),
        "Elevation": elev if elev is not None else -np.round(rng.uniform(0.0, 1.5, n), 3),
    })


def grid_spec(rng, units="km", n=None, spacing=None, lon=-16.0, lat=64.5):
    """A grid of exactly n nodes (the upper-right corner lies half a spacing short of the last node)."""
    from pyproj import Transformer
    g, c = projs(units, lon, lat)
    f = 1.0 if units == "km" else 1000.0
    n = np.array(n if n is not None else rng.integers(2, 7, 3))
    sp = np.array(spacing if spacing is not None else np.round(rng.uniform(0.5, 3.0, 3), 2)) * f
    o = np.array([rng.uniform(-12, -2), rng.uniform(-12, -2), np.round(rng.uniform(-2, 1), 2)]) * f
    ur = o + (n - 1.5) * sp
    tr = Transformer.from_proj(g, c)
    return dict(ll_corner=list(tr.transform(*o)), ur_corner=list(tr.transform(*ur)), node_spacing=sp,
                grid_proj=g, coord_proj=c), n, o, sp


def make_lut(rng, names=("STA", "STB"), phases=("P", "S"), units="km", n=None, spacing=None, tt=None):
    """A LUT with made-up traveltimes tt(station, phase, shape) filled in directly."""
    LUT = get("quakemigrate.lut", "LUT")
    spec, n, o, sp = grid_spec(rng, units, n, spacing)
    lut = LUT(**spec, fraction_tt=0.1)
    lut.station_data = stations(names, rng)
    lut.phases = list(phases)
    shape = tuple(int(x) for x in lut.node_count)
    for s in names:
        for p in phases:
            v = tt(s, p, shape) if tt else np.round(rng.uniform(0.2, 3.0, shape), 3)
            lut.traveltimes.setdefault(s, {})[p] = v
    return lut
