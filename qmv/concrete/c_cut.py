"""Run-time contracts: cut waveforms and coalescence maps of an event (C27)."""
from __future__ import annotations

import pathlib

import numpy as np

from .api import check, get
from .c_mseed import mkrun
from .c_scan import mk_event
from .c_util import mk


def inventory(start, gains):
    """one velocity sensor per channel; a gain of None leaves the channel out"""
    from obspy.core.inventory import Channel, Inventory, Network, Response, Station
    out = {}
    for (sta, cha), g in gains.items():
        if g is None:
            continue
        r = Response.from_paz([0j, 0j], [-4.44 + 4.44j, -4.44 - 4.44j], g, stage_gain_frequency=5.0, input_units="M/S", output_units="COUNTS", normalization_frequency=5.0)
        out.setdefault(sta, []).append(Channel(cha, "", 64.0, -17.0, 0.0, 0.0, response=r, start_date=start - 1e5, sample_rate=50.0))
    return Inventory([Network("NW", [Station(s, 64.0, -17.0, 0.0, channels=c) for s, c in out.items()])])


def seen(st):
    return sorted((tr.id, tr.stats.starttime.ns, tr.stats.npts) for tr in st)


@check("C27", quick=60, thorough=700, fn="io.cut_waveforms.write_cut_waveforms, get_waveforms, write_waveforms")
def cut_waveforms(t):
    """the files written hold the event's data between the cuts, corrected as asked"""
    from obspy import Stream, UTCDateTime, read
    WD = get("quakemigrate.io.data", "WaveformData")
    write = get("quakemigrate.io.cut_waveforms", "write_cut_waveforms")
    sr = 50.0
    start = UTCDateTime("2021-03-04T23:59:40") + int(t.rng.integers(0, 40)) + float(t.rng.choice([0.0, 0.004, 0.01]))
    chans = [(s, c) for s in ("AA", "BB2", "01") for c in ("HHZ", "HHN")]
    gains = {k: [6e8, 1.5e9, 4e8, None][int(t.rng.integers(0, 4))] for k in chans}
    gains[("AA", "HHZ")] = 6e8
    n = 2400
    pieces = []
    for q, (s, c) in enumerate(chans):
        x = np.cumsum(t.rng.integers(-200, 201, n)).astype(np.int32)
        kind = int(t.rng.integers(0, 6)) if q else 0
        if kind == 1:
            x[:] = 7
        tr = mk(x, sr, start, f"NW.{s}..{c}")
        tr.data = x
        if kind == 2:
            pieces += [tr.slice(start, start + 15), tr.slice(start + 17, start + 48)]
        elif kind == 3:
            pieces.append(tr.slice(start, start + 4))
        elif kind == 4:
            pieces.append(tr.slice(start + 43, start + 48))
        else:
            pieces.append(tr)
    raw = Stream([p.copy() for p in pieces])
    full = bool(t.rng.integers(0, 2))
    kw = dict(stations=["AA", "BB2", "01"], response_inv=inventory(start, gains), water_level=60.0, pre_filt=None, remove_full_response=full)
    d = WD(start, start + 48, **kw)
    d.raw_waveforms = raw
    otime = start + 24 + float(t.rng.choice([0.0, 0.005, 0.3, 0.012, 0.017]))
    ev = mk_event(1.0, otime)
    ev.otime = otime
    ev.add_waveform_data(d)
    pre = [None, 0.0, 8.0, 19.0, 30.0][int(t.rng.integers(0, 5))]
    post = [None, 0.0, 6.0, 18.5, 30.0][int(t.rng.integers(0, 5))]
    measured = t.i % 2 == 0
    t.note(pre_cut=pre, post_cut=post, pieces=[str(p) for p in pieces], gains={"/".join(k): v for k, v in gains.items()}, full=full, magnitudes_first=measured, otime=str(otime))
    if measured:                                     # as the amplitude measurement leaves the data
        for tr in raw.select(station="AA").copy().trim(otime - 6, otime + 6):
            if gains[("AA", tr.stats.channel)] and tr.stats.npts > 10 and np.ptp(tr.data):
                d.get_wa_waveform(tr, velocity=False)
    want = []
    for p in pieces:
        p = p.copy()
        keep = np.ones(p.stats.npts, bool)
        k = np.arange(p.stats.npts)
        rel = (p.stats.starttime - otime) + k / sr
        if pre:
            keep &= rel >= -pre - 0.5 / sr
            edge = np.abs(rel + pre + 0.5 / sr)
        if post:
            keep &= rel <= post + 0.5 / sr
        near = [abs(abs(((p.stats.starttime - otime + z) * sr) % 1.0) - 0.5) < 1e-3 for z in ((pre or 0), -(post or 0))]
        if any(near):
            return                                   # half-way between two samples
        if keep.any():
            a = int(np.argmax(keep))
            p.data = p.data[keep]
            p.stats.starttime = p.stats.starttime + a / sr
            want.append(p)
    run = mkrun(t, sub=["", "part"][t.i % 2], stage="locate")
    units = ["displacement", "velocity"][t.i // 2 % 2]
    base = pathlib.Path(run.path) / "locate" / run.subname
    kinds = [k for k in ("raw", "real", "wa") if t.rng.integers(0, 4)] or ["real"]
    fmt = ["MSEED", "MSEED", "SAC"][int(t.rng.integers(0, 3))]
    for kind in kinds:
        write(run, ev, fmt, pre_cut=pre, post_cut=post, waveform_type=kind, units=units)
        files = sorted((base / f"{kind}_cut_waveforms").glob("*"))
        exp = []
        for p in want:
            if kind == "raw":
                exp.append(p)
            elif np.ptp(p.data) and gains[(p.stats.station, p.stats.channel)]:
                w = WD(start, start + 48, **kw)
                exp.append((w.get_real_waveform if kind == "real" else w.get_wa_waveform)(p.copy(), velocity=units == "velocity"))
        if not exp:
            t.expect(not files, f"{kind}: no file without data", got=[f.name for f in files])
            continue
        t.expect(all(f.name.startswith(ev.uid) for f in files) and (fmt == "SAC" or len(files) == 1), f"{kind}: named by the event", got=[f.name for f in files])
        got = Stream()
        for f in files:
            got += read(str(f))
        if fmt == "MSEED":
            t.equal([z[::2] for z in seen(got)], [z[::2] for z in seen(exp)], f"{kind}: every channel with data between the cuts, all its samples")
        else:
            t.equal([z[0] for z in seen(got)], [z[0] for z in seen(exp)], f"{kind}: every channel with data between the cuts")
        for p in exp:
            q = [g for g in got if g.id == p.id and abs(g.stats.starttime - p.stats.starttime) < 0.4 / sr]
            t.expect(len(q) == 1, f"{kind}: the data start at the cut", channel=p.id, start=str(p.stats.starttime))
            if q:
                s = float(np.max(np.abs(p.data))) or 1.0
                t.close(q[0].data.astype(float) / s, p.data.astype(float) / s, f"{kind}: the samples of {p.id} ({units})", rtol=0, atol=1e-5)
    if not measured:
        bare = WD(start, start + 48, stations=["AA"])
        bare.raw_waveforms = Stream([pieces[0].copy()])
        ev2 = mk_event(1.0, otime)
        ev2.otime = otime
        ev2.add_waveform_data(bare)
        t.raises(AttributeError, lambda: write(run, ev2, "MSEED", waveform_type=["real", "wa"][t.i // 2 % 2]), "refused without an inventory")


@check("C27", quick=12, thorough=100, fn="io.coalescence.write_coalescence, read_coalescence")
def coalescence_maps(t):
    """maps read back as written, per event and kind"""
    W, R = get("quakemigrate.io.coalescence", "write_coalescence"), get("quakemigrate.io.coalescence", "read_coalescence")
    run = mkrun(t, sub=["", "part"][t.i % 2], stage="locate")
    base = pathlib.Path(run.path) / "locate" / run.subname
    from obspy import UTCDateTime
    evs = [mk_event(1.0, UTCDateTime(0), uid=u) for u in ("20210304050612000", "20210304050612001")]
    maps = {}
    for e in evs:
        for marg in (False, True):
            a = t.rng.uniform(0, 5, (3, 4, 2) if marg else (3, 4, 2, 6))
            W(run, a, e, marginalised=marg)
            maps[("marginalised_" if marg else "") + "coalescence_maps", e.uid] = a
    for (k, u), a in maps.items():
        t.equal(R(base / k / f"{u}.npy").tolist(), a.tolist(), "the map of this event reads back")
    t.expect(len(list(base.rglob("*.npy"))) == 4, "one file per map")


@check("C27 C20", quick=60, thorough=600, fn="signal.scan.QuakeScan._read_event_waveform_data")
def event_data_span(t):
    """the data read for an event reach far enough for the cuts, wherever its origin time falls in the marginal window"""
    from types import SimpleNamespace as N
    from obspy import UTCDateTime
    Q = get("quakemigrate.signal.scan", "QuakeScan")
    q = object.__new__(Q)
    reads, got = [], object()
    q.marginal_window = float(t.rng.choice([0.5, 1.0, 2.0, 7.5]))
    q.pre_pad, q.post_pad = (float(x) for x in t.rng.choice([0.0, 3.0, 11.5, 40.0], 2))
    q.pre_cut, q.post_cut = ([None, 0.0, 5.0, 20.0, 90.0][int(x)] for x in t.rng.integers(0, 5, 2))
    amp = tuple(float(x) for x in t.rng.choice([2.0, 15.0, 70.0], 2))
    q.mags = N(amp=N(pad=lambda *a: amp)) if t.i % 2 else None
    q.lut = N(max_traveltime=9.0, fraction_tt=0.1)
    q.archive = N(read_waveform_data=lambda b, e, p=0.0, o=0.0: (reads.append((b, e, p, o)), got)[1])
    trig = UTCDateTime(2020, 1, 1, 0, 0, int(t.rng.integers(0, 60)))
    mw = q.marginal_window
    b, e = trig - 2 * mw - q.pre_pad, trig + 2 * mw + q.post_pad
    t.note(marginal_window=mw, pads=[q.pre_pad, q.post_pad], cuts=[q.pre_cut, q.post_cut], amplitudes=amp if q.mags else None)
    r = q._read_event_waveform_data(b, e)
    t.expect(r is got and len(reads) == 1, "the data read")
    rb, re_, p, o = reads[0]
    t.expect(rb == b and re_ == e and p >= 0 and o >= 0, "the scan's own window, padded")
    for off in (-mw, 0.0, mw):
        for cut, end, sign in ((q.pre_cut, b - p, -1), (q.post_cut, e + o, 1)):
            if cut:
                t.expect(sign * (end - (trig + off + sign * cut)) >= -1e-5, "the cut lies within the data read", origin=off, cut=cut, reach=float(end - trig))
        if q.mags:
            t.expect(b - p <= trig + off - amp[0] + 1e-5 and e + o >= trig + off + amp[1] - 1e-5, "the amplitude windows lie within the data read", origin=off)
