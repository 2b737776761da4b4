"""Run-time contracts: sample-time helpers, resampling and merging (C23)."""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np

from .api import check, get


def mk(data, sr, start, id_="XX.ST1..HHZ"):
    from obspy import Trace, UTCDateTime
    tr = Trace(data=np.array(data))
    n, s, l, c = id_.split(".")
    tr.stats.network, tr.stats.station, tr.stats.location, tr.stats.channel = n, s, l, c
    tr.stats.sampling_rate = sr
    tr.stats.starttime = UTCDateTime(start)
    return tr


def snap(st):
    return [(tr.id, tr.stats.starttime.ns, float(tr.stats.sampling_rate), tr.stats.npts, tr.data.copy()) for tr in st]


def same_snap(a, b):
    return len(a) == len(b) and all(x[:4] == y[:4] and x[4].dtype == y[4].dtype and np.array_equal(x[4], y[4]) for x, y in zip(a, b))


SR = [1, 2, 4, 5, 10, 20, 25, 40, 50, 100, 125, 200, 250, 500, 1000]


@check("C23", quick=400, thorough=8000, fn="util.time2sample")
def time2sample_rounds(t):
    """nearest integer to time * sampling rate"""
    f = get("quakemigrate.util", "time2sample")
    sr = int(t.rng.choice(SR))
    k = int(t.rng.integers(0, 20000))
    x = [k / sr, (k + 0.3) / sr, (k - 0.3) / sr, -(k + 0.2) / sr, round(float(t.rng.uniform(0, 500)), 3)][t.i % 5]
    t.note(time=x, sampling_rate=sr)
    g = f(x, sr)
    t.expect(isinstance(g, (int, np.integer)), "an integer number of samples", got=g)
    t.expect(abs(Fraction(int(g)) - Fraction(x) * sr) <= Fraction(1, 2) + Fraction(1, 10 ** 9), "rounded to the nearest sample", got=g)
    t.expect(f(float(x), float(sr)) == g, "float sampling rates give the same count")


@check("C23", quick=600, thorough=20000, fn="util.trim2sample")
def trim2sample_aligned(t):
    """a whole number of samples, not shorter than the time, at most one sample longer; monotone"""
    f = get("quakemigrate.util", "trim2sample")
    t2s = get("quakemigrate.util", "time2sample")
    sr = int(t.rng.choice(SR))
    k = int(t.rng.integers(0, 20000))
    x = [k / sr, round(k / sr, 2), round(float(t.rng.uniform(0, 200)), 3), (k + 0.5) / sr, k * 0.01, 0.06 * k][t.i % 6]
    t.note(time=x, sampling_rate=sr)
    g = f(x, sr)
    n = g * sr
    t.expect(abs(n - round(n)) < 1e-6, "trimmed time is a whole number of samples", got=g, samples=n)
    t.expect(g >= x - 1e-9 and g <= x + 1 / sr + 1e-9, "not shorter, at most one sample longer", got=g)
    t.expect(f(x + 1 / sr, sr) >= g and f(x + 0.4 / sr, sr) >= g, "monotone")
    t.expect(abs(t2s(g, sr) / sr - g) < 1e-9, "consistent with time2sample", got=g)


@check("C23", quick=60, thorough=800, fn="util.upsample")
def upsample_interp(t):
    """original samples kept at their times, linear between; input untouched"""
    f = get("quakemigrate.util", "upsample")
    from obspy import UTCDateTime
    r = t.rng
    sr = float(r.choice([10, 20, 25, 40, 50, 100]))
    up = int(r.integers(2, 7))
    n = int(r.integers(2, 60))
    t0 = UTCDateTime(2020, 1, 1) + float(r.integers(0, 40)) / sr
    data = r.integers(-1000, 1000, n) if t.i % 2 else r.normal(size=n)
    tr = mk(data, sr, t0)
    pre, post = int(r.integers(0, up)), int(r.integers(0, up))       # requested times between samples
    if t.i % 3 == 0:
        pre = post = 0
    start = t0 - pre / (sr * up)
    end = tr.stats.endtime + post / (sr * up)
    t.note(data=data, sampling_rate=sr, upfactor=up, pre=pre, post=post)
    s0 = snap([tr])
    o = f(tr, up, start, end)
    t.expect(same_snap(snap([tr]), s0), "input trace unmodified")
    t.equal(float(o.stats.sampling_rate), sr * up, "sampling rate multiplied")
    t.expect(abs(o.stats.starttime - start) < 1e-6, "starts at the requested time", got=o.stats.starttime, want=start)
    t.expect(abs(o.stats.endtime - end) < 1e-6, "ends at the requested time", got=o.stats.endtime, want=end)
    x = np.arange(len(o.data)) - pre
    t.close(o.data, np.interp(x / up, np.arange(n), data), "original samples kept, linear between, ends held", rtol=1e-9, atol=1e-9 * max(1.0, float(np.max(np.abs(data)))))


@check("C23", quick=60, thorough=800, fn="util.upsample")
def upsample_far(t):
    """a trace away from the window ends (gap) is not padded; a longer trace is trimmed to the window"""
    f = get("quakemigrate.util", "upsample")
    from obspy import UTCDateTime
    r = t.rng
    sr, up, n = 20.0, int(r.integers(2, 6)), int(r.integers(20, 60))
    t0 = UTCDateTime(2020, 1, 1)
    data = r.integers(-1000, 1000, n)
    tr = mk(data, sr, t0)
    far = int(r.integers(1, 30))
    a, b = (t0 - far / sr, tr.stats.endtime + far / sr) if t.i % 2 else (t0 + 3 / sr, tr.stats.endtime - 4 / sr)
    t.note(n=n, up=up, start=a, end=b)
    o = f(tr, up, a, b)
    full = np.interp(np.arange((n - 1) * up + 1) / up, np.arange(n), data)
    if t.i % 2:
        t.expect(abs(o.stats.starttime - t0) < 1e-6, "start time kept", got=o.stats.starttime)
        t.close(o.data, full, "no padding away from the window edges", atol=1e-8)
    else:
        t.expect(abs(o.stats.starttime - a) < 1e-6, "trimmed to the window", got=o.stats.starttime)
        t.close(o.data, full[3 * up:len(full) - 4 * up], "trimmed to the window", atol=1e-8)


@check("C23", quick=80, thorough=800, fn="util.shift_to_sample")
def shift_small(t):
    """each trace moves by no more than half a sample, onto the sample grid; data and input kept"""
    f = get("quakemigrate.util", "shift_to_sample")
    from obspy import Stream, UTCDateTime
    r = t.rng
    st = Stream()
    for k in range(int(r.integers(1, 4))):
        sr = float(r.choice([10, 20, 50, 100, 200]))
        d = 1e6 / sr
        off = [0, int(r.integers(1, int(d))), int(d) // 2 - 1, int(d) - 1][int(r.integers(0, 4))]
        us = int(r.integers(0, int(sr))) * int(d) + off
        st += mk(r.normal(size=int(r.integers(2, 40))), sr, UTCDateTime(2020, 3, 1, 23, 59, 59) + us / 1e6, f"XX.S{k}..HHZ")
    s0 = snap(st)
    t.note(traces=[(tr.id, str(tr.stats.starttime), tr.stats.sampling_rate) for tr in st])
    o = f(st, interpolate=False)
    t.expect(same_snap(snap(st), s0), "input stream unmodified")
    t.equal(len(o), len(st), "every trace kept")
    for a, b in zip(st, o):
        t.expect(abs(b.stats.starttime - a.stats.starttime) <= 0.5 / a.stats.sampling_rate + 1e-6, "shift of at most half a sample",
                 before=a.stats.starttime, after=b.stats.starttime)
        m = (b.stats.starttime.ns / 1e3) % (1e6 / b.stats.sampling_rate)
        t.expect(min(m, 1e6 / b.stats.sampling_rate - m) < 2, "on the sample grid", after=b.stats.starttime)
        t.expect(np.array_equal(a.data, b.data), "data unchanged")


@check("C23", quick=15, thorough=150, fn="util.shift_to_sample")
def shift_interpolated(t):
    """with interpolation: on the grid, same length, value close to a smooth signal at the new times"""
    f = get("quakemigrate.util", "shift_to_sample")
    from obspy import Stream, UTCDateTime
    r = t.rng
    sr, n = 50.0, 400 + int(r.integers(0, 50))
    off = int(r.choice([1000, 4000, 9000, 11000, 15000, 19000]))
    tr = mk(np.zeros(n), sr, UTCDateTime(2020, 3, 1) + off / 1e6)
    g = lambda tt: np.sin(2 * np.pi * 1.1 * tt) * 100
    tr.data = g(off / 1e6 + np.arange(n) / sr)
    st = Stream([tr])
    t.note(offset_us=off)
    o = f(st, interpolate=True)[0]
    t.equal(o.stats.npts, n, "same number of samples")
    d = o.stats.starttime - tr.stats.starttime
    t.expect(abs(d) <= 0.5 / sr + 1e-6, "shift of at most half a sample", shift=d)
    x = off / 1e6 + d
    t.expect(abs(x * sr - round(x * sr)) < 1e-3, "on the sample grid", start=x)
    k = slice(60, n - 60)
    want = g(x + np.arange(n) / sr)
    t.close(o.data[k], want[k], "samples interpolated at their new times", rtol=0, atol=1.0)
    t.close(o.data, want, "near the waveform at both ends too (within the change over a sample and a half)", rtol=0, atol=25.0)


@check("C23", quick=40, thorough=400, fn="util.resample")
def resample_rates(t):
    """unified rate, start time kept, values of untouched traces kept, input unmodified"""
    f = get("quakemigrate.util", "resample")
    from obspy import Stream, UTCDateTime
    r = t.rng
    target = 50
    t0 = UTCDateTime(2021, 6, 1)
    T = float(r.integers(6, 20))
    t1 = t0 + T
    st = Stream()
    rates = list(r.choice([50, 100, 200, 250, 40, 25, 20], int(r.integers(1, 5))))
    for k, sr in enumerate(rates):
        n = int(T * sr) + 1
        st += mk(np.cumsum(r.normal(size=n)), float(sr), t0, f"XX.S{k}..HHZ")
    up = 10
    t.note(rates=rates, T=T)
    s0 = snap(st)
    for resamp in (True, False):
        o = f(st, target, resamp, up, t0, t1)
        t.expect(same_snap(snap(st), s0), "input stream unmodified")
        t.equal(sorted(tr.id for tr in o), sorted(tr.id for tr in st), "every channel kept once")
        for k, sr in enumerate(rates):
            tr = o.select(station=f"S{k}")[0]
            ok = sr % target == 0 or resamp
            t.equal(float(tr.stats.sampling_rate), float(target if ok else sr), "sampling rate unified where possible", rate=sr)
            t.expect(abs(tr.stats.starttime - t0) < 1e-6, "start time kept", got=tr.stats.starttime)
            if ok:
                t.equal(tr.stats.npts, int(T * target) + 1, "covers the window", rate=sr)
            if sr == target or not ok:
                t.expect(np.array_equal(tr.data, st[k].data), "traces needing no resampling are untouched")


@check("C23", quick=30, thorough=300, fn="util.decimate")
def decimate_values(t):
    """start time kept, smooth signals keep their values at the new sample times, input untouched"""
    f = get("quakemigrate.util", "decimate")
    from obspy import UTCDateTime
    r = t.rng
    fac = int(r.integers(2, 6))
    sr = 50.0 * fac
    n = int(sr * 20) + int(r.integers(0, fac + 1))
    fr = float(r.uniform(0.5, 2.0))
    tr = mk(np.sin(2 * np.pi * fr * np.arange(n) / sr), sr, UTCDateTime(2021, 1, 1) + float(r.integers(0, 9)) / sr)
    t.note(factor=fac, n=n)
    s0 = snap([tr])
    o = f(tr, 50)
    t.expect(same_snap(snap([tr]), s0), "input trace unmodified")
    t.expect(o.stats.starttime == tr.stats.starttime, "start time kept")
    t.equal(float(o.stats.sampling_rate), 50.0, "target sampling rate")
    t.equal(o.stats.npts, -(-n // fac), "every factor-th sample kept")
    mid = slice(len(o.data) // 4, 3 * len(o.data) // 4)
    t.close(o.data[mid], np.sin(2 * np.pi * fr * np.arange(len(o.data)) / 50.0)[mid], "values kept at the sample times", rtol=0, atol=0.05)


@check("C23 C22", quick=60, thorough=600, fn="util.merge_stream")
def merge_rules(t):
    """contiguous and identically overlapping pieces join, gaps are kept, conflicting channels are left out"""
    f = get("quakemigrate.util", "merge_stream")
    from obspy import Stream, UTCDateTime
    r = t.rng
    sr = 20.0
    t0 = UTCDateTime(2020, 5, 5)
    st, want = Stream(), {}
    for k in range(int(r.integers(1, 5))):
        n = int(r.integers(40, 80))
        x = r.integers(-999, 999, n).astype(np.int32)
        id_ = f"XX.S{k}..HH{r.choice(list('ZNE'))}"
        kind = int(r.integers(0, 5))
        a = int(r.integers(10, n - 20))
        if kind == 0:
            st += mk(x, sr, t0, id_)
            want[id_] = [(0, x)]
        elif kind == 1:          # contiguous
            st += mk(x[a:], sr, t0 + a / sr, id_)
            st += mk(x[:a], sr, t0, id_)
            want[id_] = [(0, x)]
        elif kind == 2:          # matching overlap
            st += mk(x[:a + 6], sr, t0, id_)
            st += mk(x[a:], sr, t0 + a / sr, id_)
            want[id_] = [(0, x)]
        elif kind == 3:          # gap
            st += mk(x[:a], sr, t0, id_)
            st += mk(x[a + 5:], sr, t0 + (a + 5) / sr, id_)
            want[id_] = [(0, x[:a]), (a + 5, x[a + 5:])]
        else:                    # conflicting overlap
            y = x.copy() + 1
            st += mk(x[:a + 6], sr, t0, id_)
            st += mk(y[a:], sr, t0 + a / sr, id_)
            want[id_] = None
    t.note(stream=str(st))
    s0 = snap(st)
    o = f(st)
    t.expect(same_snap(snap(st), s0), "input stream unmodified")
    for id_, pieces in want.items():
        got = sorted(o.select(id=id_), key=lambda tr: tr.stats.starttime)
        if pieces is None:
            # either left out, or left as the disagreeing pieces: never combined
            n0 = {(tr.stats.starttime.ns, tr.stats.npts) for tr in st.select(id=id_)}
            t.expect(all((tr.stats.starttime.ns, tr.stats.npts) in n0 for tr in got), "disagreeing overlaps are not combined", got=got)
            for tr in got:
                src = [z for z in st.select(id=id_) if z.stats.starttime == tr.stats.starttime]
                t.expect(any(np.array_equal(z.data, tr.data) for z in src), "disagreeing data not altered")
            continue
        t.equal(len(got), len(pieces), "pieces joined exactly where contiguous", channel=id_)
        for tr, (off, x) in zip(got, pieces):
            t.expect(abs(tr.stats.starttime - (t0 + off / sr)) < 1e-6, "start time kept", got=tr.stats.starttime)
            t.expect(not np.ma.isMaskedArray(tr.data) and np.array_equal(tr.data, x), "samples unchanged, gaps not filled", channel=id_)
    t.equal(sorted({tr.id for tr in o} - {k for k, v in want.items() if v is None}), sorted(k for k, v in want.items() if v), "no channel dropped or invented")


@check("C12 C18", quick=100, thorough=1000, fn="util.calculate_mad")
def mad_values(t):
    """scale times the median absolute deviation"""
    f = get("quakemigrate.util", "calculate_mad")
    x = t.rng.normal(size=int(t.rng.integers(1, 60))) * 10 ** float(t.rng.uniform(-3, 3))
    if t.i % 3 == 0:
        x = np.round(x)
    t.note(x=x)
    x0 = x.copy()
    t.close(f(x), 1.4826 * np.median(np.abs(x - np.median(x))), "1.4826 * median absolute deviation")
    t.close(f(x, scale=1), np.median(np.abs(x - np.median(x))), "scale honoured")
    t.expect(np.array_equal(x, x0), "input unmodified")
    if len(x) > 2:
        x[1] = np.nan
        t.expect(np.isnan(f(x)), "NaN input gives NaN")
