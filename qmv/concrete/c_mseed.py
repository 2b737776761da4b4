"""Run-time contracts: storing and reading the continuous scan output (C08)."""
from __future__ import annotations

import pathlib

import numpy as np

from .api import Skip, check, get


def mkrun(t, stage=None, name="run", sub=""):
    R = get("quakemigrate.io", "Run")
    return R(t.tmp, name, sub, stage=stage, loglevel="error")


def rnd(rng, n, kind):
    if kind == 0:
        return np.round(rng.uniform(0, 5, n), int(rng.integers(1, 7)))
    if kind == 1:
        x = rng.uniform(0, 3, n)
        x[rng.integers(0, n, max(1, n // 10))] = rng.choice([21474.0, 21473.99999, 30000.0, 1e6, 21474.00001, 0.0])
        return x
    return np.cumsum(rng.normal(size=n)) ** 2 + 0.001


@check("C08 C07", quick=40, thorough=500, fn="io.scanmseed.ScanmSEED.append, empty, write; read_scanmseed")
def store_and_read(t):
    """every appended sample is in the file of its own day, once, in order, within the stored precision"""
    from obspy import UTCDateTime, read
    SM = get("quakemigrate.io.scanmseed", "ScanmSEED")
    rs = get("quakemigrate.io.scanmseed", "read_scanmseed")
    kind = t.i % 5
    units = [1000.0, 1.0][(t.i // 2) % 2]
    sr, day = 50, UTCDateTime("2021-03-05")
    if kind == 0:                     # windows around midnight
        sr = [50, 20, 100][t.i % 3]
        n, nw = int(t.rng.integers(20, 90)), 5
        t0 = day - int(t.rng.integers(1, 4 * n)) / sr
    elif kind == 1:                   # a window ends exactly at the day boundary
        n, nw = int(t.rng.integers(20, 90)), 4
        t0 = day - 2 * n / sr
    elif kind == 2:                   # long windows over several days
        sr, n, nw = 1, int(t.rng.choice([18000, 21600, 30000, 43200])), 6
        t0 = UTCDateTime("2020-12-30") + int(t.rng.integers(0, 86400))
    elif kind == 3:                   # starts at midnight, whole days
        sr, n, nw = 1, 43200, 4
        t0 = UTCDateTime("2020-02-28")
    else:
        n, nw = int(t.rng.integers(5, 60)), 6
        t0 = UTCDateTime("2021-03-05T12:00:00") + int(t.rng.integers(0, 1000)) / sr
    cont = bool(t.i % 3 == 2)
    run = mkrun(t, "detect")
    s = SM(run, cont, sr)
    vals = {k: [] for k in ("COA", "COA_N", "X", "Y", "Z")}
    ts = n / sr
    t.note(start=str(t0), samples_per_window=n, windows=nw, sampling_rate=sr, continuous_write=cont, metres=units == 1.0)
    for i in range(nw):
        if t.i % 4 == 3 and i == 1:
            s.empty(t0, ts, i, "no data", units)
            for k in vals:
                vals[k].append(np.zeros(n))
            continue
        a, b = rnd(t.rng, n, (t.i + i) % 3), rnd(t.rng, n, (t.i + i + 1) % 3)
        z = t.rng.uniform(-1, 30, n) * (1000.0 / units)
        c = np.stack([t.rng.uniform(-180, 180, n), t.rng.uniform(-90, 90, n), z], axis=1)
        for k, v in zip(vals, (a, b, c[:, 0], c[:, 1], z)):
            vals[k].append(v.copy())
        s.append(t0 + ts * i, a.copy(), b.copy(), c.copy(), units)
    if not s.written:
        s.write()
    vals = {k: np.concatenate(v) for k, v in vals.items()}
    total = n * nw
    class times:  # noqa: N801
        def __class_getitem__(cls, k):
            return t0 + k / sr
    # the files
    d = pathlib.Path(t.tmp) / "run" / "detect" / "scanmseed"
    count = {k: np.zeros(total, int) for k in vals}
    raw = {k: np.zeros(total, np.int64) for k in vals}
    for f in sorted(d.glob("*")):
        y, j = int(f.stem[:4]), int(f.stem[5:8])
        for tr in read(str(f)):
            t.expect((tr.stats.starttime.year, tr.stats.starttime.julday) == (y, j) and (tr.stats.endtime.year, tr.stats.endtime.julday) == (y, j),
                     "a day's file contains no sample of another day", file=f.name, first=str(tr.stats.starttime), last=str(tr.stats.endtime))
            k0, k = round((tr.stats.starttime - t0) * sr), tr.stats.station
            t.expect(k in vals and 0 <= k0 and k0 + len(tr.data) <= total, "only appended samples are stored", channel=k, first=k0, n=len(tr.data))
            count[k][k0:k0 + len(tr.data)] += 1
            raw[k][k0:k0 + len(tr.data)] = tr.data
    fac = {"COA": 1e5, "COA_N": 1e5, "X": 1e6, "Y": 1e6, "Z": 1e3 * units}
    for k in vals:
        t.expect(bool((count[k] == 1).all()), "every appended sample is stored exactly once", channel=k, missing=int((count[k] == 0).sum()), repeated=int((count[k] > 1).sum()), appended=total)
        want = np.minimum(vals[k], 21474.0) if k.startswith("COA") else vals[k]
        got = raw[k] / fac[k]
        t.expect(np.abs(got - want).max() <= 0.5001 / fac[k] + 1e-9, "stored within the precision", channel=k, worst=np.abs(got - want).max())
    # reading back
    for q in range(3):
        a = int(t.rng.integers(0, total - 2)) if q else 0
        b = int(t.rng.integers(a + 1, total)) if q else total - 1
        if sr == 1 and b - a > 8000:      # a few hours, around a midnight where there is one
            m = (-int((t0 - UTCDateTime(t0.date)) * sr)) % 86400
            a = max(0, min(total - 1, m + 86400 * int(t.rng.integers(0, 2))) - int(t.rng.integers(0, 4000)))
            b = min(total - 1, a + 5000)
        pad = [0.0, 0.5, 3.0][q] if sr > 1 else [0.0, 10.0, 3000.0][q]
        df, st = rs(run, times[a], times[b], pad, units)
        p = int(round(pad * sr))
        lo, hi = max(0, a - p), min(total - 1, b + p)
        t.expect(len(df) == hi - lo + 1, "the padded interval is returned, as far as data exist", got=len(df), want=hi - lo + 1, first=a, last=b, pad=pad)
        dt = df["DT"].values
        for k in (0, len(df) // 2, len(df) - 1):
            t.expect(abs(dt[k] - times[lo + k]) < 1e-4, "original sample times", sample=k, got=str(dt[k]), want=str(times[lo + k]))
        t.expect(abs(st.sampling_rate - sr) < 1e-9 and abs(st.starttime - times[lo]) < 1e-4, "statistics of the data returned")
        for k, col in zip(vals, ("COA", "COA_N", "X", "Y", "Z")):
            want = np.minimum(vals[k], 21474.0) if k.startswith("COA") else vals[k]
            e = np.abs(df[col].values - want[lo:hi + 1]).max()
            t.expect(e <= 0.5001 / fac[k] + 1e-9, "values read back within the stored precision", channel=k, worst=e)


@check("C08", quick=20, thorough=200, fn="io.scanmseed.read_scanmseed")
def read_missing(t):
    """a span with no stored data fails with the dedicated error"""
    from obspy import UTCDateTime
    SM = get("quakemigrate.io.scanmseed", "ScanmSEED")
    rs = get("quakemigrate.io.scanmseed", "read_scanmseed")
    No = get("quakemigrate.util", "NoScanMseedDataException")
    run = mkrun(t, "detect")
    t0 = UTCDateTime("2021-03-05T12:00:00")
    if t.i % 2:
        s = SM(run, False, 10)
        s.append(t0, np.ones(100), np.ones(100), np.ones((100, 3)), 1000.0)
        s.write()
    off = [3600.0, -3600.0, 86400.0 * 3, -86400.0 * 2, 86400.0][t.i % 5]
    t.note(offset=off, stored=bool(t.i % 2))
    t.raises(No, lambda: rs(run, t0 + off, t0 + off + 5, 1.0, 1000.0), "no stored data: the dedicated error")


@check("C07 C08", quick=150, thorough=1500, fn="io.scanmseed.ScanmSEED.empty, append")
def placeholder_length(t):
    """an unusable window leaves exactly as many placeholder samples as a usable one has"""
    from obspy import UTCDateTime
    SM = get("quakemigrate.io.scanmseed", "ScanmSEED")
    run = mkrun(t, "detect")
    sr = int(t.rng.choice([1, 10, 20, 25, 40, 50, 100, 200, 250]))
    n = int(t.rng.integers(2, 60 * sr + 2))
    ts = n / sr if t.i % 2 else round(n / sr, 6)
    if round(ts * sr) != n or abs(ts * sr - n) > 1e-9:
        raise Skip("timestep is not a whole number of samples")
    s = SM(run, False, sr)
    t0 = UTCDateTime("2021-03-05T06:00:00")
    i = int(t.rng.integers(0, 20))
    t.note(timestep=ts, sampling_rate=sr, window=i, samples=n)
    s.empty(t0, ts, i, "no data", 1000.0)
    t.expect(sorted(x.stats.station for x in s.stream) == ["COA", "COA_N", "X", "Y", "Z"], "all five channels are stored")
    for tr in s.stream:
        t.expect(tr.stats.npts == n, "placeholder covers exactly the window's samples", channel=tr.stats.station, got=tr.stats.npts)
        t.expect(abs(tr.stats.starttime - (t0 + ts * i)) < 1e-6, "placeholder starts at the window's start", got=str(tr.stats.starttime))
        t.expect((tr.data == 0).all(), "placeholder samples are zero", channel=tr.stats.station)
