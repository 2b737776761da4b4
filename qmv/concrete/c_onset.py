"""Run-time contracts: onset functions and their alignment with traveltimes (C03, C05, C06)."""
from __future__ import annotations

import math

import numpy as np

from . import fix
from .api import check, get
from .c_util import mk, snap, same_snap

T0 = "2021-03-04T05:06:00"


def stalta_ref(x, ns, nl, position):
    """The window definition, evaluated directly."""
    x = np.asarray(x, dtype=float)
    n = len(x)
    out = np.ones(n)
    c = np.concatenate([[0.0], np.cumsum(x)])
    for i in range(nl - 1, n if position == "classic" else n - ns):
        lta = (c[i + 1] - c[i + 1 - nl]) / nl
        sta = (c[i + 1] - c[i + 1 - ns]) / ns if position == "classic" else (c[i + 1 + ns] - c[i + 1]) / ns
        out[i] = sta / lta if lta > 0 else 1.0
    return out


def transform_ref(x, kind):
    if kind == "energy":
        return x ** 2
    if kind == "abs":
        return np.abs(x)
    n = len(x)
    X = np.fft.fft(x)
    h = np.zeros(n)
    h[0] = 1
    if n % 2 == 0:
        h[n // 2] = 1
        h[1:n // 2] = 2
    else:
        h[1:(n + 1) // 2] = 2
    env = np.abs(np.fft.ifft(X * h))
    return env if kind == "env" else env ** 2


def rms_ref(comps, minv):
    return np.maximum(np.sqrt(sum(c ** 2 for c in comps) / len(comps)), minv)


def make_onset(rng, i, sr, **kw):
    S = get("quakemigrate.signal.onsets", "STALTAOnset")
    wins = {"P": [0.2, 1.0], "S": [[0.2, 1.0], [0.3, 0.9], [0.1, 1.4]][i % 3]}
    d = dict(position=["classic", "centred"][i % 2], sampling_rate=sr, phases=["P", "S"], sta_lta_windows=wins,
             bandpass_filters={"P": [2.0, 0.4 * sr, 2], "S": [1.0, 0.3 * sr, 2]}, signal_transform=["energy", "abs", "env", "env_squared"][(i // 2) % 4],
             use_python_backend=bool((i // 3) % 2), min_onset_value=[0.4, 0.01, 1.2][i % 3])
    d.update(kw)
    o = S(**d)
    o.post_pad = 2.0
    return o, d


def make_data(rng, sr, n, st, comps="ZNE", extra=()):
    """WaveformData over n samples from T0 with one trace per station and component."""
    from obspy import Stream, UTCDateTime
    W = get("quakemigrate.io.data", "WaveformData")
    t0 = UTCDateTime(T0)
    w = W(starttime=t0, endtime=t0 + (n - 1) / sr, stations=st)
    s = Stream()
    for nm in st:
        for c in comps:
            x = rng.normal(size=n) * 50
            k = int(rng.integers(n // 4, 3 * n // 4))
            x[k:k + 20] += rng.normal(size=len(x[k:k + 20])) * 400
            s.append(mk(x, sr, t0, f"XX.{nm}..HH{c}"))
    w.waveforms = s
    return w


def filt_ref(tr, lo, hi, order):
    tr = tr.copy()
    tr.detrend("linear")
    tr.detrend("constant")
    tr.taper(type="cosine", max_percentage=0.05)
    tr.filter("bandpass", freqmin=lo, freqmax=hi, corners=order, zerophase=True)
    return tr.data


def expected(onset, cfg, data, comps_of, timespan):
    """(ordered list of (key, onset)) from the raw data: the property's own definition."""
    out = []
    sr = cfg["sampling_rate"]
    for ph in cfg["phases"]:
        lo, hi, od = cfg["bandpass_filters"][ph]
        ns, nl = (int(round(w * sr)) + 1 for w in cfg["sta_lta_windows"][ph])
        for s in data.stations:
            trs = [tr for tr in data.waveforms if tr.stats.station == s and comps_of(ph, tr)]
            if not trs:
                continue
            cs = []
            for tr in trs:
                o = stalta_ref(transform_ref(filt_ref(tr, lo, hi, od), cfg["signal_transform"]), ns, nl, cfg["position"])
                if timespan:
                    tp = int(round((onset.pad(timespan)[0] - onset.pre_pad) * sr))
                    o[:tp + nl - 1] = 1.0
                    o[len(o) - (ns + tp):] = 1.0
                cs.append(o)
            out.append((f"{s}_{ph}", rms_ref(cs, cfg["min_onset_value"])))
    return out


def good(ph, tr):
    return tr.stats.channel[-1] == "Z" if ph == "P" else tr.stats.channel[-1] in "NE12"


@check("C05 C06", quick=48, thorough=600, fn="signal.onsets.stalta.STALTAOnset.calculate_onsets, _onset, _trim_taper_pad, pre_process")
def onset_definition(t):
    """each onset is the floored RMS of the component STA/LTAs, in station-phase order; padding neutral"""
    sr = int([20, 50, 25, 40][t.i % 4])
    onset, cfg = make_onset(t.rng, t.i, sr)
    names = [["AA", "BB"], ["Q1"], ["ZZ", "AA", "MM"]][t.i % 3]
    ts = [None, 3.0, 5.24][(t.i // 4) % 3]
    if ts:
        pre, post = onset.pad(ts)
        n = int(round((pre + ts + post) * sr)) + 1
    else:
        n = int(t.rng.integers(5 * sr, 7 * sr))
    data = make_data(t.rng, sr, n, names)
    before = snap(data.waveforms)
    t.note(stations=names, timespan=ts, npts=n, **{k: v for k, v in cfg.items() if k != "phases"})
    onsets, od = onset.calculate_onsets(data, timespan=ts) if ts else onset.calculate_onsets(data)
    want = expected(onset, cfg, data, good, ts)
    t.equal([k for k, v in od.availability.items() if v == 1], [k for k, _ in want], "the available station-phase pairs, in order")
    t.expect(onsets.shape == (len(want), n), "one onset per available pair, one value per sample", shape=onsets.shape)
    for k, (key, w) in enumerate(want):
        t.close(onsets[k], w, "onset = floored RMS over components of their STA/LTA", rtol=1e-6, atol=1e-8, pair=key)
        s, p = key.split("_")
        t.equal(od.onsets[s][p], onsets[k], "the onset stored for a station and phase is the one migrated", pair=key)
    t.expect(same_snap(before, snap(data.waveforms)), "input waveforms unchanged")
    t.expect(od.sampling_rate == sr and od.starttime == data.starttime and od.endtime == data.endtime, "onset data carry the window's times and sampling rate")


@check("C06", quick=60, thorough=800, fn="signal.onsets.stalta.STALTAOnset.calculate_onsets; io.data.check_availability")
def onset_availability(t):
    """available exactly when the data pass; failing components do not contribute; nothing available is reported"""
    from obspy import Stream
    sr = 20
    allch = bool(t.i % 3 == 2)
    onset, cfg = make_onset(t.rng, t.i, sr, all_channels=allch, signal_transform="energy", use_python_backend=False, position="classic", channel_counts={"P": 1, "S": 2})
    names = ["AA", "BB", "CC", "DD"]
    n = 140
    data = make_data(t.rng, sr, n, names)
    bad = {}
    st = Stream()
    for tr in data.waveforms:
        kind = t.py.choice(["ok"] * 5 + ["missing", "flat", "short", "rate", "gap"]) if t.i % 10 else t.py.choice(["missing", "flat", "short"])
        if kind != "ok":
            bad[tr.stats.station, tr.stats.channel[-1]] = kind
        if kind == "missing":
            continue
        if kind == "flat":
            tr.data[:] = int(t.rng.integers(-900, 900))
        elif kind == "short":
            tr = tr.slice(tr.stats.starttime, tr.stats.endtime - 5 / sr)
        elif kind == "rate":
            tr = mk(t.rng.normal(size=3 * n // 2), 1.5 * sr, tr.stats.starttime, tr.id)
        elif kind == "gap":
            a = tr.slice(tr.stats.starttime, tr.stats.starttime + 50 / sr)
            b = tr.slice(tr.stats.starttime + 70 / sr, tr.stats.endtime)
            st += a
            st += b
            continue
        st.append(tr)
    data.waveforms = st
    before = snap(st)
    t.note(failing=bad, all_channels=allch)
    want = []
    for ph, chs in (("P", "Z"), ("S", "NE")):
        for s in names:
            ok = [c for c in chs if (s, c) not in bad]
            present = [c for c in chs if bad.get((s, c)) != "missing"]
            a = len(ok) == len(chs) if allch else len(ok) > 0
            want.append((s, ph, int(a), ok if a else []))
    DA = get("quakemigrate.util", "DataAvailabilityException")
    if not any(a for *_, a, _ in want):
        t.raises(DA, lambda: onset.calculate_onsets(data), "no available pair is reported as a data-availability failure")
        return
    onsets, od = onset.calculate_onsets(data)
    t.equal({k: int(v) for k, v in od.availability.items()}, {f"{s}_{p}": a for s, p, a, _ in want}, "available exactly when the data pass the checks")
    rows = [(s, p, ok) for s, p, a, ok in want if a]
    t.expect(len(onsets) == len(rows) == sum(od.availability.values()), "as many onset functions as available pairs")
    for k, (s, p, ok) in enumerate(rows):
        lo, hi, od_ = cfg["bandpass_filters"][p]
        ns, nl = (int(round(w * sr)) + 1 for w in cfg["sta_lta_windows"][p])
        cs = [stalta_ref(filt_ref(tr, lo, hi, od_) ** 2, ns, nl, "classic") for tr in st if tr.stats.station == s and tr.stats.channel[-1] in ok and bad.get((s, tr.stats.channel[-1])) is None]
        t.close(onsets[k], rms_ref(cs, cfg["min_onset_value"]), "only components passing the checks contribute", rtol=1e-6, atol=1e-8, pair=f"{s}_{p}", components=ok)
    t.expect(same_snap(before, snap(data.waveforms)), "input waveforms unchanged")


@check("C06", quick=40, thorough=400, fn="signal.onsets.stalta.STALTAOnset.calculate_onsets")
def onset_gaps_allowed(t):
    """with gaps allowed the onset spans the whole window and keeps its place"""
    from obspy import Stream
    sr = 20
    onset, cfg = make_onset(t.rng, t.i, sr, allow_gaps=True, full_timespan=False, signal_transform="energy", position="classic", use_python_backend=False)
    names = ["AA", "BB"]
    n = 160
    data = make_data(t.rng, sr, n, names)
    st = Stream()
    cut = t.i % 3
    for tr in data.waveforms:
        if tr.stats.station == "BB":
            if cut == 0:
                st += tr.slice(tr.stats.starttime, tr.stats.starttime + 60 / sr)
                st += tr.slice(tr.stats.starttime + 80 / sr, tr.stats.endtime)
            elif cut == 1:
                st += tr.slice(tr.stats.starttime + 30 / sr, tr.stats.endtime)
            else:
                st += tr.slice(tr.stats.starttime, tr.stats.endtime - 30 / sr)
        else:
            st.append(tr)
    data.waveforms = st
    t.note(kind=["gap", "late", "early"][cut])
    onsets, od = onset.calculate_onsets(data)
    t.expect(onsets.shape == (4, n), "every onset spans the window", shape=onsets.shape)
    t.equal([k for k, v in od.availability.items() if v == 1], ["AA_P", "BB_P", "AA_S", "BB_S"], "availability order")
    for k, key in enumerate(["AA_P", "BB_P", "AA_S", "BB_S"]):
        s, p = key.split("_")
        ns, nl = (int(round(w * sr)) + 1 for w in cfg["sta_lta_windows"][p])
        cs = []
        for tr in od.filtered_waveforms:
            if tr.stats.station == s and good(p, tr):
                t.expect(tr.stats.npts == n and abs(tr.stats.starttime - data.starttime) < 1e-4, "padded to the window")
                cs.append(stalta_ref(tr.data ** 2, ns, nl, "classic"))
                if s == "BB":
                    hole = np.asarray(np.ma.getdata(tr.data), dtype=float)[[slice(61, 80), slice(0, 30), slice(n - 30, n)][cut]]
                    t.expect(not np.ma.isMaskedArray(tr.data) and np.abs(hole).max() < 1e-100, "gaps are filled with (almost) zeros", pair=key)
        t.expect(np.isfinite(np.asarray(onsets[k], dtype=float)).all(), "a number at every sample", pair=key)
        if s == "BB" and cut == 0:
            t.close(np.asarray(onsets[k], dtype=float)[61 + ns:80], np.full(19 - ns, cfg["min_onset_value"]), "no signal inside the gap", rtol=1e-6, atol=1e-9, pair=key)
        if s == "AA":      # the gap-filled traces hold denormal energy, compared only on whole data
            t.close(onsets[k], rms_ref(cs, cfg["min_onset_value"]), "onset of its own station and phase", rtol=1e-5, atol=1e-7, pair=key)


@check("C05", quick=12, thorough=60, fn="signal.onsets.stalta.STALTAOnset.__init__")
def onset_minimum(t):
    """a minimum below 0.01 is rejected"""
    S = get("quakemigrate.signal.onsets", "STALTAOnset")
    v = [0.0, 0.0099, -1.0, 0.005, 0.01, 0.0101, 0.4, 2.0][t.i % 8]
    t.note(min_onset_value=v)
    f = lambda: S(sampling_rate=50, min_onset_value=v)
    if v < 0.01:
        t.raises(ValueError, f, "a minimum onset value below 0.01 is rejected")
    else:
        t.expect(f().min_onset_value == v, "accepted")
    t.raises(ValueError, lambda: S(min_onset_value=0.4), "a sampling rate is required")
    t.expect(S(sampling_rate=50).position == "classic" and S(sampling_rate=50, position="centred").position == "centred", "position as configured")


@check("C05", quick=10, thorough=60, fn="signal.onsets.stalta.pre_process")
def onset_nyquist(t):
    """a filter corner at or above Nyquist is refused"""
    sr = 20
    hi = [10.0, 12.0, 9.9][t.i % 3]
    onset, cfg = make_onset(t.rng, t.i, sr, bandpass_filters={"P": [2.0, hi, 2], "S": [2.0, 8.0, 2]})
    data = make_data(t.rng, sr, 140, ["AA"])
    N = get("quakemigrate.util", "NyquistException")
    t.note(highcut=hi)
    if hi >= 10:
        t.raises(N, lambda: onset.calculate_onsets(data), "refused")
    else:
        onset.calculate_onsets(data)


@check("C03 C05 C07", quick=300, thorough=10000, fn="signal.onsets.base.Onset.pad; STALTAOnset.pre_pad, post_pad; util.trim2sample")
def padding(t):
    """padding covers windows, taper and the largest traveltime, on whole samples"""
    S = get("quakemigrate.signal.onsets", "STALTAOnset")
    t2s = get("quakemigrate.util", "time2sample")
    sr = int(t.rng.choice([10, 20, 25, 40, 50, 100, 125, 200, 250, 500]))
    w = {p: [round(float(t.rng.uniform(0.05, 0.6)), 2), round(float(t.rng.uniform(0.7, 4)), 2)] for p in ("P", "S")}
    o = S(sampling_rate=sr, sta_lta_windows=w)
    tt = round(float(t.rng.uniform(0.05, 90)), 3)
    ts = [round(float(t.rng.uniform(1, 3600)), 2), float(t.rng.integers(1, 900)), round(float(t.rng.uniform(0.4, 30)), 3)][t.i % 3]
    o.post_pad = tt
    t.note(sampling_rate=sr, windows=w, max_traveltime=tt, timespan=ts)
    pre, post = o.pad(ts)
    lta, sta = max(v[1] for v in w.values()), max(v[0] for v in w.values())
    for x in (pre, post):
        t.expect(abs(x * sr - round(x * sr)) < 1e-6, "a whole number of samples", pad=x)
    tot = ts + pre + post
    fs, ls = t2s(pre, sr), t2s(post, sr)
    t.expect(ls >= math.ceil(round(tt * sr, 6)), "every traveltime fits within the last offset", last=ls)
    taper = t2s(pre - o.pre_pad, sr)
    t.expect(taper >= 0.05 * tot * sr - 1, "the filter taper lies inside the padding", taper=taper, tapered=0.05 * tot * sr)
    for p in w:
        ns, nl = t2s(w[p][0], sr) + 1, t2s(w[p][1], sr) + 1
        t.expect(taper + nl - 1 <= fs, "no migrated sample lies in the neutral padding at the start", first=fs, neutral=taper + nl - 1)
        t.expect(ns + taper <= ls - math.floor(tt * sr) + 1, "no migrated sample lies in the neutral padding at the end", last=ls, neutral=ns + taper)


@check("C06 C03", quick=150, thorough=3000, fn="lut.lut.LUT.serve_traveltimes")
def serve(t):
    """tables in the order of the availability, times the sampling rate, to the nearest sample"""
    names = [f"S{k}" for k in range(1 + t.i % 4)]
    phases = [["P", "S"], ["P"], ["S", "P"]][t.i % 3]
    lut = fix.make_lut(t.rng, names, phases=phases, n=t.rng.integers(1, 4, 3))
    if t.i % 5 == 4:
        for s in names:
            lut.traveltimes[s] = {f"TIME_{p}": v for p, v in lut.traveltimes[s].items()}
    key = (lambda p: f"TIME_{p}") if t.i % 5 == 4 else (lambda p: p)
    sr = int(t.rng.choice([1, 20, 50, 100, 250]))
    keys = [f"{s}_{p}" for p in phases for s in names]
    t.py.shuffle(keys)
    av = {k: int(t.rng.random() < 0.7) for k in keys}
    if not any(av.values()):
        av[keys[0]] = 1
    tabs = {s: {p: v.copy() for p, v in m.items()} for s, m in lut.traveltimes.items()}
    t.note(availability=av, sampling_rate=sr, tables=tabs)
    got = lut.serve_traveltimes(sr, av)
    want = [np.rint(tabs[k.split("_")[0]][key(k.split("_")[1])] * sr) for k, v in av.items() if v == 1]
    t.expect(got.shape == want[0].shape + (len(want),), "one layer per available pair", shape=got.shape)
    t.expect(np.issubdtype(got.dtype, np.integer), "integer samples")
    for k, w in enumerate(want):
        t.equal(got[..., k], w.astype(int), "the k-th layer is the k-th available pair's table in samples", layer=k)
    allt = lut.serve_traveltimes(sr)
    want = [np.rint(tabs[s][key(p)] * sr) for p in phases for s in names]
    for k, w in enumerate(want):
        t.equal(allt[..., k], w.astype(int), "all tables, by phase then station", layer=k)
    t.expect(got.max() <= math.ceil(lut.max_traveltime * sr), "no served traveltime exceeds the largest table value")
    for s in tabs:
        for p in tabs[s]:
            t.equal(lut.traveltimes[s][p], tabs[s][p], "tables unchanged")
