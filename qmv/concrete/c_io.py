"""Run-time contracts: event, pick, trigger and availability files (C24), station/model inputs and run paths (C25)."""
from __future__ import annotations

import itertools
import math
import pathlib

import numpy as np

from . import fix
from .api import check, get
from .c_mseed import mkrun

NAMES = ["AB1", "001", "12", "X9", "0E5", "STA", "S01", "ZZZZ"]


def uid(time):
    return time.strftime("%Y%m%d%H%M%S") + f"{time.microsecond // 1000:03d}"


@check("C24", quick=60, thorough=800, fn="io.triggered_events.write_triggered_events, read_triggered_events")
def trigger_files(t):
    """events written day by day are read back for exactly the requested interval"""
    import pandas as pd
    from obspy import UTCDateTime
    wr = get("quakemigrate.io.triggered_events", "write_triggered_events")
    rd = get("quakemigrate.io", "read_triggered_events")
    NF = get("quakemigrate.util", "NoTriggerFilesFound")
    rng = t.rng
    sub = ["", "alt", "v1.2"][t.i % 3]
    name = ["run", "my.run"][(t.i // 3) % 2]
    run = mkrun(t, "trigger", name, sub)
    d0 = UTCDateTime(str(rng.choice(["2020-12-30", "2020-02-28", "2021-03-04", "2019-04-09"])))
    days = [d0 + 86400 * k for k in range(4)]
    skip = int(rng.integers(0, 8))
    per, allev = {}, []
    for k, d in enumerate(days):
        if k == skip:
            continue
        m = int(rng.integers(0, 5))
        off = sorted({float(v) for v in np.round(rng.uniform(0, 86399.9, m), 3)} | ({0.0} if rng.random() < 0.3 else set()) | ({86399.999} if rng.random() < 0.3 else set()))
        tm = [d + v for v in off]
        n = len(tm)
        df = pd.DataFrame({"EventID": [uid(v) for v in tm], "CoaTime": tm, "TRIG_COA": rng.uniform(1, 9, n), "COA_X": rng.uniform(-180, 180, n),
                           "COA_Y": rng.uniform(-90, 90, n), "COA_Z": rng.uniform(-2, 30, n), "COA": rng.uniform(1, 9, n), "COA_NORM": rng.uniform(1, 3, n),
                           "MinTime": [v - 1 for v in tm], "MaxTime": [v + 1 for v in tm], "EventNum": range(1, n + 1)})
        w = bool(rng.random() < 0.5)
        keep = df.copy()
        wr(run, df, d, w)
        t.expect(list(df.columns) == list(keep.columns) and df.equals(keep), "the caller's events are not changed")
        per[k] = (keep, w)
        allev.append(keep)
    cols = ["EventID", "CoaTime", "TRIG_COA", "COA_X", "COA_Y", "COA_Z", "COA", "COA_NORM"]
    for k, (df, w) in per.items():
        d = days[k]
        fn = f"{name.replace('.', '_')}{'_' * bool(sub)}{sub.replace('.', '_')}_{d.year}_{d.julday:03d}_TriggeredEvents.csv"
        f = pathlib.Path(t.tmp) / name.replace(".", "_") / "trigger" / sub.replace(".", "_") / "events" / fn
        t.expect(f.is_file(), "one file per run, sub-name and day", want=str(f))
        t.equal(list(pd.read_csv(f).columns), cols + ["MinTime", "MaxTime"] * w, "the time-window columns appear exactly when requested", day=str(d))
    ev = pd.concat(allev, ignore_index=True) if allev else None
    t.note(name=name, subname=sub, days={str(days[k]): [str(v) for v in x[0]["CoaTime"]] for k, x in per.items()})
    pts = [d0, d0 + 86400, d0 + 2 * 86400, d0 + 4 * 86400, d0 + 3600.5, d0 + 86400 * 2 + 40000] + (list(ev["CoaTime"]) if ev is not None else [])
    for _ in range(4):
        a, b = sorted(pts[int(v)] for v in rng.integers(0, len(pts), 2))
        run2 = mkrun(t, "locate", name, sub)
        touched = [k for k, d in enumerate(days) if d + 86400 > a and d <= b]
        if not any(k in per for k in touched):
            t.raises(NF, lambda: rd(run2, starttime=a, endtime=b), "no trigger file in the interval")
            continue
        got = rd(run2, starttime=a, endtime=b)
        half = b.time == UTCDateTime(0).time
        want = ev[[bool(a <= v and (v < b if half else v <= b)) for v in ev["CoaTime"]]]
        t.equal([str(v) for v in got["EventID"]], list(want["EventID"]), "exactly the events of the interval, in order", interval=(str(a), str(b)))
        t.expect(all(g == w for g, w in zip(got["CoaTime"], want["CoaTime"])) and all(isinstance(g, UTCDateTime) for g in got["CoaTime"]), "the same times")
        for c in cols[2:]:
            t.close(got[c].values.astype(float), want[c].values.astype(float), f"the same {c}", rtol=1e-12)
        t.equal(list(got.index), list(range(len(got))), "events numbered from zero")
    if per:
        k = sorted(per)[0]
        d = days[k]
        f = next((pathlib.Path(t.tmp) / name.replace(".", "_") / "trigger" / sub.replace(".", "_") / "events").glob(f"*_{d.year}_{d.julday:03d}_*"))
        got = rd(mkrun(t, "locate", name, sub), trigger_file=str(f))
        t.equal([str(v) for v in got["EventID"]], list(per[k][0]["EventID"]), "a trigger file read by name gives all of its events")


@check("C24 C07", quick=40, thorough=500, fn="io.availability.write_availability, read_availability")
def availability_files(t):
    """availability rows are split by day and read back in order"""
    import pandas as pd
    from obspy import UTCDateTime
    wa = get("quakemigrate.io", "write_availability")
    ra = get("quakemigrate.io", "read_availability")
    NA = get("quakemigrate.util", "NoStationAvailabilityDataException")
    rng = t.rng
    sub = ["", "alt"][t.i % 2]
    run = mkrun(t, "detect", "my.run", sub)
    t0 = UTCDateTime(str(rng.choice(["2020-12-30", "2020-02-27", "2021-03-04"]))) + float(rng.choice([0, 3600, 80000.5, 86399.96]))
    ts = float(rng.choice([3600, 300, 7200.5, 86400, 20000]))
    n = int(rng.integers(1, 40))
    cols = [f"{s}_{p}" for s in rng.permutation(["STA", "ABC", "Z1", "001"])[:int(rng.integers(1, 4))] for p in "PS"]
    df = pd.DataFrame(rng.integers(0, 2, (n, len(cols))), index=[str(t0 + k * ts) for k in range(n)], columns=cols)
    want = df.copy()
    t.note(start=str(t0), timestep=ts, rows=n, columns=cols)
    wa(run, df)
    d = pathlib.Path(t.tmp) / "my_run" / "detect" / "availability"
    byday = {}
    for k in range(n):
        v = t0 + k * ts
        byday.setdefault(f"{v.year}_{v.julday:03d}_StationAvailability.csv", []).append(k)
    t.equal(sorted(f.name for f in d.glob("*")), sorted(byday), "one file per day with data")
    for fn, ks in byday.items():
        g = pd.read_csv(d / fn, index_col=0)
        t.expect([UTCDateTime(v) for v in g.index] == [t0 + k * ts for k in ks], "each day's file holds its own rows, in order", file=fn, got=list(g.index))
        t.expect(list(g.columns) == cols and np.array_equal(g.values, want.values[ks]), "availability values", file=fn)
    run2 = mkrun(t, "trigger", "my.run", ["", "alt", "b"][t.i % 3])
    got = ra(run2, t0, t0 + (n - 1) * ts)
    t.expect([UTCDateTime(v) for v in got.index] == [t0 + k * ts for k in range(n)], "read back row for row, in order", got=list(got.index))
    t.expect(list(got.columns) == cols and np.array_equal(got.values, want.values), "read back with the same values")
    a = t0 + float(rng.integers(0, n)) * ts
    b = a + float(rng.integers(0, 3)) * 86400
    days = [UTCDateTime(a.date) + 86400 * k for k in range(5) if UTCDateTime(a.date) + 86400 * k <= b]
    ks = [k for x in days for k in byday.get(f"{x.year}_{x.julday:03d}_StationAvailability.csv", [])]
    got = ra(run2, a, b)
    t.expect([UTCDateTime(v) for v in got.index] == [t0 + k * ts for k in ks], "a request returns the rows of the days it touches, once each", got=list(got.index))
    t.raises(NA, lambda: ra(run2, t0 - 10 * 86400, t0 - 9 * 86400), "no availability stored")


def written(v, digits):
    """value as written with so many significant digits"""
    return float(f"{v:.{digits}g}")


@check("C24 C16", quick=60, thorough=800, fn="io.event.Event.write, add_local_magnitude, local_magnitude")
def event_files(t):
    """the event file holds the event's own values, rounded only to the declared precision"""
    import pandas as pd
    from obspy import UTCDateTime
    E = get("quakemigrate.io.event", "Event")
    rng = t.rng
    units = ["km", "m"][t.i % 2]
    sp = [np.array([0.5, 0.5, 0.2]), np.array([2.0, 1.0, 0.05]), np.array([0.01, 0.02, 0.01]), np.array([20.0, 30.0, 15.0])][(t.i // 2) % 4]
    lut = fix.make_lut(rng, ("AA",), units=units, n=(3, 3, 3), spacing=sp)
    f = 1.0 if units == "km" else 1000.0
    spacing_z = sp[2] * f
    mw = float(rng.choice([0.5, 1.0, 0.3]))
    old = t.i % 5
    trig = UTCDateTime("2021-03-04T23:59:59") + int(rng.integers(0, 2000)) / 1000
    info = {"EventID": uid(trig), "CoaTime": trig}
    tv = rng.uniform(0.5, 50, 3)
    if old == 0:
        info.update(COA_V=tv[0])
        tw = (tv[0], math.nan, math.nan)
    elif old == 1:
        info.update(COA_V=tv[0], COA=tv[1], COA_NORM=tv[2])
        tw = tv
    else:
        info.update(TRIG_COA=tv[0], COA=tv[1], COA_NORM=tv[2])
        tw = tv
    ev = E(mw, pd.Series(info))
    sr = 50
    times = ev.mw_times(sr)
    n = len(times)
    k = int(rng.integers(n // 3, 2 * n // 3))
    coa, con = rng.uniform(0.5, 3, n), rng.uniform(1, 2, n)
    coa[k] = 7.0 + rng.random()
    ev.add_compute_output(times, coa, con, rng.uniform(0, 1, (n, 3)), rng.random((2, 2, 2, n)), None)
    ev.trim2window()
    z = lambda: float(rng.uniform(-3, 30) * f)
    err = lambda: np.array([rng.uniform(0.001, 9) * f for _ in range(3)])
    loc = [np.array([rng.uniform(-180, 180), rng.uniform(-90, 90), z()]) for _ in range(3)]
    ge, ce = err(), err()
    ev.add_spline_location(loc[0])
    ev.add_gaussian_location(loc[1], ge)
    ev.add_covariance_location(loc[2], ce)
    mags = None
    if t.i % 3:
        mags = [float(v) for v in rng.uniform(-2, 6, 3)] if t.i % 7 else [math.nan] * 3
        ev.add_local_magnitude(*mags)
        t.equal([str(v) for v in ev.local_magnitude], [str(v) for v in mags], "the magnitude stored is returned")
    else:
        t.expect(ev.local_magnitude is None, "no magnitude before one is set")
    sub = ["", "s"][t.i % 2]
    run = mkrun(t, "locate", "r.1", sub)
    t.note(units=units, spacing=sp, trigger=info, spline=loc[0], gaussian=loc[1], gaussian_error=ge, covariance_error=ce, magnitude=mags)
    ev.write(run, lut)
    p = pathlib.Path(t.tmp) / "r_1" / "locate" / sub / "events" / f"{info['EventID']}.event"
    t.expect(p.is_file(), "one file per event, named after its identifier", want=str(p))
    d = pd.read_csv(p, dtype={"EventID": str})
    t.expect(len(d) == 1, "one event per file")
    r = d.iloc[0]
    t.equal(r["EventID"], info["EventID"], "identifier")
    t.expect(UTCDateTime(r["DT"]) == times[k], "origin time", got=r["DT"], want=str(times[k]))
    for c, v in zip(("COA", "COA_NORM", "TRIG_COA", "DEC_COA", "DEC_COA_NORM"), (coa[k], con[k], *tw)):
        t.expect(math.isnan(v) and math.isnan(r[c]) or float(r[c]) == written(v, 4), f"{c} to four significant digits", got=r[c], want=v)
    tol = 0.5e-3 * (f if units == "km" else 1.0) if units == "km" else 0.5        # one metre at most ...
    if units == "km":
        tol = 0.5 * 10.0 ** -max(3, 2 - math.floor(math.log10(spacing_z)))
    else:
        tol = 0.5 * 10.0 ** -max(0, 2 - math.floor(math.log10(spacing_z)))
    tol *= 1 + 1e-6
    for pre, v in (("", loc[0]), ("GAU_", loc[1])):
        t.close([r[pre + "X"], r[pre + "Y"]], v[:2], f"{pre or 'spline '}longitude and latitude to six decimals", rtol=0, atol=0.51e-6)
        t.expect(abs(r[pre + "Z"] - v[2]) <= tol + 1e-9, f"{pre or 'spline '}depth to the declared precision", got=r[pre + "Z"], want=v[2], tolerance=tol)
    for pre, v in (("GAU_", ge), ("COV_", ce)):
        for a, w in zip("XYZ", v):
            t.expect(abs(r[f"{pre}Err{a}"] - w) <= tol + 1e-9, f"{pre}Err{a} in grid units to the declared precision", got=r[f"{pre}Err{a}"], want=w, tolerance=tol)
    w = float(np.prod(ce) ** (1 / 3))
    t.expect(abs(r["COV_Err_XYZ"] - w) <= tol + 1e-9, "geometric mean of the covariance uncertainties", got=r["COV_Err_XYZ"], want=w, tolerance=tol)
    t.equal(sorted(c for c in d.columns if c.startswith("ML")), sorted(["ML", "ML_Err", "ML_r2"] if mags else []), "magnitude columns exactly when there is one")
    if mags:
        for c, v in zip(("ML", "ML_Err", "ML_r2"), mags):
            t.expect(math.isnan(v) and math.isnan(r[c]) or float(r[c]) == written(v, 3), f"{c} to three significant digits", got=r[c], want=v)


def picker():
    B = get("quakemigrate.signal.pickers.base", "PhasePicker")

    class P(B):
        def pick_phases(self):
            pass

    return P(plot_picks=False)


def make_picks(rng, names, ot):
    rows = []
    for s in names:
        for ph in "PS":
            if rng.random() < 0.15:
                continue
            m = ot + float(np.round(rng.uniform(0.1, 20), 6))
            if rng.random() < 0.4:
                rows.append([s, ph, m, -1, -1, -1, -1])
            else:
                x = m + float(np.round(rng.normal() * 0.3, 6))
                rows.append([s, ph, m, x, float(rng.uniform(0.001, 2)), float(rng.uniform(1, 90)), x - m])
    import pandas as pd
    return pd.DataFrame(rows, columns=["Station", "Phase", "ModelledTime", "PickTime", "PickError", "SNR", "Residual"])


@check("C24", quick=40, thorough=400, fn="signal.pickers.base.PhasePicker.write")
def pick_files(t):
    """pick files hold every pick row with its times"""
    import pandas as pd
    from obspy import UTCDateTime
    rng = t.rng
    ot = UTCDateTime("2021-12-31T23:59:55") + int(rng.integers(0, 9000)) / 1000
    df = make_picks(rng, [str(v) for v in rng.permutation(NAMES)[:int(rng.integers(1, 5))]], ot)
    keep = df.copy()
    sub = ["", "s"][t.i % 2]
    t.note(picks=df.values.tolist())
    picker().write(mkrun(t, "locate", "r.1", sub), uid(ot), df)
    t.expect(df.equals(keep), "the caller's picks are not changed")
    p = pathlib.Path(t.tmp) / "r_1" / "locate" / sub / "picks" / f"{uid(ot)}.picks"
    t.expect(p.is_file(), "one file per event, named after its identifier", want=str(p))
    g = pd.read_csv(p, dtype=str)
    t.equal(list(g.columns), list(keep.columns), "columns")
    t.expect(len(g) == len(keep), "one row per pick", got=len(g), want=len(keep))
    for (_, a), (_, b) in zip(keep.iterrows(), g.iterrows()):
        t.expect(b["Station"] == a["Station"] and b["Phase"] == a["Phase"], "station and phase", got=b.tolist(), want=a.tolist())
        t.expect(UTCDateTime(b["ModelledTime"]) == a["ModelledTime"], "modelled time")
        if str(a["PickTime"]) == "-1":
            t.expect([b[c] for c in ("PickTime", "PickError", "SNR")] == ["-1"] * 3, "no pick", got=b.tolist())
        else:
            t.expect(UTCDateTime(b["PickTime"]) == a["PickTime"], "pick time")
            t.expect(float(b["PickError"]) == written(a["PickError"], 3) and float(b["SNR"]) == written(a["SNR"], 3), "error and SNR to three significant digits", got=b.tolist(), want=a.tolist())
            t.expect(abs(float(b["Residual"]) - a["Residual"]) < 1e-9, "residual")


# ---------------------------------------------------------------- C25
COLS = ["Name", "Latitude", "Longitude", "Elevation"]


@check("C25", quick=120, thorough=1500, fn="io.core.read_stations, stations")
def station_files(t):
    """accepted exactly with the four columns, whatever their order; names are text, elevations negated"""
    import pandas as pd
    f = get("quakemigrate.io", ["read_stations", "read_stations", "stations"][t.i % 3])
    Bad = get("quakemigrate.util", "StationFileHeaderException")
    rng = t.rng
    n = int(rng.integers(1, 6))
    miss = [c for k, c in enumerate(COLS) if (t.i // 2) % 16 >> k & 1] if t.i % 2 else []
    cols = [c for c in COLS if c not in miss] + (["Network"] if rng.random() < 0.3 else []) + (["name"] if rng.random() < 0.1 else [])
    cols = [str(c) for c in rng.permutation(cols)]
    if not cols:
        cols = ["Network"]
    kind = t.i % 4
    names = [str(v) for v in rng.permutation(NAMES if kind else ["1", "22", "003", "0404", "7E2"])[:n]]
    n = len(names)
    data = {"Name": names, "Latitude": np.round(rng.uniform(-90, 90, n), 5), "Longitude": np.round(rng.uniform(-180, 180, n), 5),
            "Elevation": np.round(rng.uniform(-3, 5, n), 3) if t.i % 3 else rng.integers(-100, 3000, n), "Network": ["XX"] * n, "name": ["q"] * n}
    sep = [",", ",", ";"][t.i % 3]
    p = pathlib.Path(t.tmp) / "sta.txt"
    p.write_text(sep.join(cols) + "\n" + "".join(sep.join(str(data[c][k]) for c in cols) + "\n" for k in range(n)))
    t.note(columns=cols, names=names, missing=miss)
    kw = {"delimiter": ";"} if sep == ";" else {}
    if miss:
        t.raises(Bad, lambda: f(str(p), **kw), "a station file without all four columns is refused", missing=miss)
        return
    got = f(str(p), **kw)
    t.expect(list(got["Name"]) == names and all(isinstance(v, str) for v in got["Name"]), "names are read as text", got=list(got["Name"]), want=names)
    for c in ("Latitude", "Longitude"):
        t.close(got[c].values.astype(float), data[c], f"{c} as given", rtol=1e-12)
    t.close(got["Elevation"].values.astype(float), -np.asarray(data["Elevation"], float), "elevation turned into depth", rtol=1e-12)


@check("C25", quick=40, thorough=200, fn="io.core.read_vmodel, read_response_inv")
def vmodel_files(t):
    """accepted exactly with a Depth column"""
    f = get("quakemigrate.io", "read_vmodel")
    Bad = get("quakemigrate.util", "InvalidVelocityModelHeader")
    rng = t.rng
    cols = [["Depth", "Vp", "Vs"], ["Vs", "Depth"], ["Vp", "Vs"], ["depth", "Vp"], ["Vp", "Depth", "Vs"], ["Depths", "Vp"]][t.i % 6]
    n = int(rng.integers(1, 6))
    x = np.round(np.cumsum(rng.uniform(0.1, 3, (n, len(cols))), axis=0), 3)
    p = pathlib.Path(t.tmp) / "vm.txt"
    sep = [",", " "][t.i % 2]
    p.write_text(sep.join(cols) + "\n" + "".join(sep.join(str(v) for v in r) + "\n" for r in x))
    kw = {"delimiter": " "} if sep == " " else {}
    t.note(columns=cols)
    if "Depth" not in cols:
        t.raises(Bad, lambda: f(str(p), **kw), "a velocity model without depths is refused")
        return
    g = f(str(p), **kw)
    t.expect(list(g.columns) == cols, "columns as given")
    t.close(g.values.astype(float), x, "values as given", rtol=1e-12)


@check("C25", quick=60, thorough=300, fn="io.core.Run; QuakeScan, Trigger and every writer")
def run_paths(t):
    """name and sub-name give the same output locations at every stage; dots do not disturb suffixes"""
    R = get("quakemigrate.io", "Run")
    rng = t.rng
    name = ["run", "run.v1", "a.b.c", "2021.03", ".x"][t.i % 5]
    sub = ["", "s", "s.2", "t.csv", "x.y.z"][(t.i // 5) % 5]
    cn, cs = name.replace(".", "_"), sub.replace(".", "_")
    root = pathlib.Path(t.tmp) / "out.dir"
    t.note(name=name, subname=sub)
    for stage in ("detect", "trigger", "locate", None):
        r = R(str(root) if t.i % 2 else root, name, sub, stage=stage)
        t.expect(pathlib.Path(r.path) == root / cn, "the run directory", got=str(r.path), want=str(root / cn))
        t.equal(r.subname, cs, "the sub-name used in paths")
        t.equal(r.name, f"{cn}_{cs}" if sub else cn, "the name used in file names")
    r = R(str(root), name, stage="detect") if not sub else R(str(root), name, subname=sub, stage="detect")
    t.equal(r.name, f"{cn}_{cs}" if sub else cn, "the name used in file names, by default")
    # the stages themselves
    lut = fix.make_lut(rng, ("AA",), n=(2, 2, 2))
    T = get("quakemigrate.signal.trigger", "Trigger")
    tg = T(lut, str(root), name, trigger_name=sub)
    t.expect(tg.run.path == root / cn and tg.run.subname == cs, "trigger writes below the run directory", got=(str(tg.run.path), tg.run.subname))
    Q = get("quakemigrate.signal.scan", "QuakeScan")
    from .c_onset import make_onset
    q = Q(None, lut, make_onset(rng, t.i, 50)[0], str(root), name, run_subname=sub)
    t.expect(q.run.path == root / cn and q.run.subname == cs, "detect and locate use the same run directory", got=(str(q.run.path), q.run.subname))
