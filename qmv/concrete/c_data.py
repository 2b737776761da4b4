"""Run-time contracts: availability checks (C21) and archive reads (C22)."""
from __future__ import annotations

import itertools
import pathlib

import numpy as np

from .api import check, get
from .c_util import mk, same_snap, snap

FLAGS = list(itertools.product((0, 1), repeat=5))       # all_channels, allow_gaps, full_timespan, rate, start/end


@check("C21", quick=300, thorough=6000, fn="io.data.WaveformData.check_availability")
def availability_rules(t):
    """available and the per-channel report follow the requirements switched on, one by one"""
    from obspy import Stream, UTCDateTime
    W = get("quakemigrate.io.data", "WaveformData")
    rng = t.rng
    allc, gaps, full, rate, ends = (bool(v) for v in FLAGS[t.i % 32])
    sr = float(rng.choice([1, 20, 50, 100, 250]))
    N = int(rng.integers(8, 200))
    t0 = UTCDateTime("2021-03-04T23:59:50") + int(rng.integers(0, 1000)) / sr
    t1 = t0 + N / sr
    want_sr = sr if rng.random() < 0.8 else sr * 2
    n_want = int(rng.integers(1, 4))
    st, report, desc = Stream(), {}, []
    m = int(rng.integers(0, 4)) if t.i % 7 else 0
    ids = [f"{net}.STA.{loc}.HH{c}" for net, loc, c in (("XX", "", "Z"), ("XX", "", "N"), ("XX", "00", "Z"), ("YY", "", "Z"))]
    for cid in [str(v) for v in rng.permutation(ids)[:m]]:
        kind = str(rng.choice(["good", "good", "good", "flat", "zero", "gap", "overlap", "same", "short", "short1", "late", "long", "offset",
                               "touch", "flatpart", "rate", "one", "gapflat"]))
        segs, r, off, flat = [(0, N + 1)], sr, 0.0, ()
        ok_gap = ok_over = True
        if kind in ("flat", "zero"):
            flat = (0,)
        if kind == "gap" or kind == "gapflat":
            a = int(rng.integers(2, N - 3))
            segs, ok_gap = [(0, a), (a + int(rng.integers(1, 3)), N + 1)], False
            if kind == "gapflat":
                flat = (int(rng.integers(0, 2)),)
        if kind == "overlap":
            a = int(rng.integers(2, N - 2))
            segs, ok_over, ok_gap = [(0, a + 1), (a, N + 1)], False, False
        if kind == "same":
            segs, ok_over, ok_gap = [(0, N + 1), (0, N + 1)], False, False
        if kind == "short":
            segs = [(0, int(rng.integers(2, N)))]
        if kind == "short1":
            segs = [(0, N)]
        if kind == "late":
            segs = [(1, N + 1)]
        if kind == "long":
            segs = [(-1, N + 1), (0, N + 2), (-1, N + 2)][:1 + int(rng.integers(0, 3))][-1:]
        if kind == "offset":
            off = float(rng.choice([-0.3, 0.2, 0.4])) / sr
        if kind in ("touch", "flatpart"):
            a = int(rng.integers(3, N - 2))
            segs = [(0, a), (a, N + 1)]
            if kind == "flatpart":
                flat = (int(rng.integers(0, 2)),)
        if kind == "rate":
            r = sr / 2
            segs = [(0, N // 2 + 1)]
        if kind == "one":
            segs = [(0, 2)]
        trs = []
        for k, (a, b) in enumerate(segs):
            x = np.full(b - a, 0.0 if kind == "zero" else 7.0) if k in flat else rng.normal(size=b - a) + 3
            if k not in flat and x.size < 2:
                x = np.array([1.0])
            flat_here = bool(x.max() == x.min())
            if flat_here and k not in flat:
                flat = flat + (k,)
            trs.append(mk(x if t.i % 2 else x * 1000, r, t0 + a / r + off, cid))
        st += Stream([trs[k] for k in rng.permutation(len(trs))])
        npts, single = segs[0][1] - segs[0][0], len(segs) == 1
        need = round(N / sr * r) + 1
        ok = not flat and ok_over and (gaps or ok_gap) and (not rate or r == want_sr) and (not full or (single and npts >= need))
        if ends:
            ok = ok and single and trs[0].stats.starttime == t0 and trs[0].stats.endtime == t1
        report[cid] = int(bool(ok))
        desc.append((cid, kind, segs, r, off))
    st.traces = [st.traces[k] for k in rng.permutation(len(st))]
    kw = dict(all_channels=allc, allow_gaps=gaps, full_timespan=full, check_sampling_rate=rate, check_start_end_times=ends)
    kw.update({"n_channels": n_want} if allc else {})
    kw.update({"sampling_rate": want_sr} if rate else {})
    t.note(start=str(t0), end=str(t1), sampling_rate=sr, channels=desc, options=kw)
    before = snap(st)
    w = W(starttime=t0, endtime=t1)
    got, rep = w.check_availability(st, **kw)
    t.expect(same_snap(before, snap(st)), "the waveforms are not changed")
    t.expect({k: int(v) for k, v in rep.items()} == report, "the report lists every channel present, 1 exactly where it passes its own checks", got=rep, want=report)
    want = bool(report) and (all(report.values()) and len(report) == n_want if allc else any(report.values()))
    t.expect(bool(got) == want, "available exactly when the requirements hold", got=got, want=want, report=report)


@check("C21", quick=20, thorough=60, fn="io.data.WaveformData.check_availability")
def availability_arguments(t):
    """requirements that need a value are refused without it"""
    from obspy import Stream, UTCDateTime
    W = get("quakemigrate.io.data", "WaveformData")
    t0 = UTCDateTime("2021-03-04T10:00:00")
    w = W(starttime=t0, endtime=t0 + 1)
    st = Stream([mk(t.rng.normal(size=21), 20.0, t0, "XX.STA..HHZ")])
    t.raises(TypeError, lambda: w.check_availability(st, all_channels=True), "all channels without their number")
    t.raises(TypeError, lambda: w.check_availability(st, check_sampling_rate=True), "sampling rate check without a rate")
    t.equal(w.check_availability(Stream()), (0, {}), "no data, not available")
    a, r = w.check_availability(st)
    t.expect(a == 1 and dict(r) == {"XX.STA..HHZ": 1}, "complete data are available by default", got=(a, r))
    st[0].data = st[0].data[:-1]
    a, r = w.check_availability(st)
    t.expect(a == 0 and dict(r) == {"XX.STA..HHZ": 0}, "incomplete data are not available by default", got=(a, r))


LAYOUTS = ["SeisComp3", "YEAR/JD/*_STATION_*", "YEAR/JD/STATION", "STATION.YEAR.JULIANDAY", "/STATION/STATION.YearMonthDay",
           "YEAR_JD/STATION*", "YEAR_JD/STATION_*", "custom"]


def place(layout, net, sta, ch, d):
    y, j = d.year, d.julday
    return {
        "SeisComp3": f"{y}/{net}/{sta}/{ch}.D/{net}.{sta}..{ch}.D.{y}.{j:03d}",
        "YEAR/JD/*_STATION_*": f"{y}/{j:03d}/{net}_{sta}_{ch}.m",
        "YEAR/JD/STATION": f"{y}/{j:03d}/{sta}.{ch}",
        "STATION.YEAR.JULIANDAY": f"{net}.{sta}.{ch}.{y}.{j:03d}",
        "/STATION/STATION.YearMonthDay": f"{sta}/{sta}.{y}{d.month:02d}{d.day:02d}",
        "YEAR_JD/STATION*": f"{y}_{j:03d}/{sta}{ch}",
        "YEAR_JD/STATION_*": f"{y}_{j:03d}/{sta}_{ch}.mseed",
        "custom": f"{d.year}.{d.month:02d}/{d.day:02d}/{sta}/data.{ch}",
    }[layout]


def write_archive(root, layout, traces):
    """day files of the given traces"""
    from obspy import Stream, UTCDateTime
    files = {}
    for tr in traces:
        day = UTCDateTime(tr.stats.starttime.date)
        while day <= tr.stats.endtime:
            # samples of this day: index arithmetic, so that each sample goes to one file
            a = max(0, int(np.ceil((day - tr.stats.starttime) * tr.stats.sampling_rate - 1e-6)))
            b = min(tr.stats.npts, int(np.ceil((day + 86400 - tr.stats.starttime) * tr.stats.sampling_rate - 1e-6)))
            if b > a:
                p = place(layout, tr.stats.network, tr.stats.station, tr.stats.channel, day)
                files.setdefault(p, Stream()).append(mk(tr.data[a:b], tr.stats.sampling_rate, tr.stats.starttime + a / tr.stats.sampling_rate, tr.id))
            day += 86400
    for p, st in files.items():
        f = pathlib.Path(root) / p
        f.parent.mkdir(parents=True, exist_ok=True)
        st.write(str(f), format="MSEED")
    return sorted(files)


def clash(traces):
    return sorted((tr.id, tr.stats.starttime.ns, tr.data.tobytes()) for tr in traces)


@check("C22 C21", quick=70, thorough=900, fn="io.data.Archive.__init__, path_structure, read_waveform_data, _load_from_path; util.merge_stream, shift_to_sample")
def archive_reads(t):
    """exactly the requested data of the configured stations, from every day touched, in every layout"""
    import pandas as pd
    from obspy import UTCDateTime
    A = get("quakemigrate.io.data", "Archive")
    rng = t.rng
    layout = LAYOUTS[t.i % 8]
    sr = float(rng.choice([20, 50, 100]))
    day = UTCDateTime(str(rng.choice(["2021-03-05", "2020-12-31", "2021-01-01", "2020-02-29", "2020-03-01", "2021-11-10", "2019-01-10"])))
    where = (t.i // 8) % 6
    span = [int(rng.integers(5, 40)), 0, 1][0 if t.i % 11 else 2]
    pre, post = [(0.0, 0.0), (6.3, 9.7), (30.0, 0.0), (0.0, 45.5), (3.0, -4.0), (10.01, 7.77)][(t.i // 3) % 6]
    p0, p1 = max(pre, 0), max(post, 0)
    b = [3600 * 12 + float(rng.integers(0, 5000)) / 10, -span / 2 + 0.1, p0 / 2, -span - p1 / 2, 0.0, -float(span)][where]
    start = day + round(b, 2)
    end = start + span
    if t.i % 13 == 5:
        start, end, sr = day - 7200, day + 86400 + 3600, 1.0
    sub = float(rng.choice([0, 0, 0.3, -0.35, 0.1])) if t.i % 3 == 2 else 0.0
    readall = t.i % 4 == 3
    names = [str(v) for v in rng.permutation(["AB1", "CD2", "EF3", "GH4"])[:int(rng.integers(1, 4))]]
    lo, hi = start - p0 - 40, end + p1 + 40
    n = int((hi - lo) * sr)
    base = UTCDateTime(int(lo.timestamp)) + sub / sr
    traces, kinds = [], {}
    for sta in names + ["ZZ9"]:
        for ch in ["HHE", "HHN", "HHZ"][:int(rng.integers(1, 4))]:
            x = rng.integers(-10 ** 6, 10 ** 6, n).astype(np.int32)
            kind = str(rng.choice(["whole", "whole", "whole", "gap", "none", "late", "early", "overlap", "conflict", "jump"]))
            if sta == "ZZ9" or (sr == 1.0 and kind in ("overlap", "conflict")):
                kind = "whole"
            kinds[sta, ch] = kind
            T = lambda a, z: mk(x[a:z].copy(), sr, base + a / sr, f"XX.{sta}..{ch}")
            k0, k1 = int((start - p0 - base) * sr), int((end + p1 - base) * sr)
            q = max(2, (k1 - k0) // 3)
            if kind == "whole":
                traces.append(T(0, n))
            elif kind == "gap":
                traces += [T(0, k0 + q), T(k0 + q + int(rng.integers(1, 20)), n)]
            elif kind == "late":
                traces.append(T(k0 + q, n))
            elif kind == "early":
                traces.append(T(0, k1 - q))
            elif kind == "overlap":
                traces += [T(0, k0 + q), T(k0 + q - min(q, 9), n)]
            elif kind == "conflict":
                o = T(k0 + q - 1, n)
                o.data = o.data + 1
                traces += [T(0, k0 + q), o]
            elif kind == "jump":
                traces += [T(0, k0 + q), T(k0 + q, n)]
    half = [((z - base) * sr) % 1 for z in (start - p0, end + p1, start, end)]
    amb = any(abs(h - 0.5) < 1e-3 for h in half) or abs(abs(sub) - 0.5) < 1e-3
    for z in (start, end):
        amb = amb or abs((((z - UTCDateTime(int(lo.timestamp))) * sr) % 1) - 0.5) < 1e-3
    if amb:
        start, end = UTCDateTime(int(start.timestamp)), UTCDateTime(int(end.timestamp))
        pre, post = float(round(p0)), float(round(p1))
        p0, p1 = pre, post
    root = pathlib.Path(t.tmp) / "arch"
    root.mkdir()
    t.note(layout=layout, start=str(start), end=str(end), pre_pad=pre, post_pad=post, sampling_rate=sr, offset_samples=sub,
           stations=names, read_all_stations=readall, kinds=kinds)
    files = write_archive(root, layout, traces)
    if layout in ("YEAR/JD/STATION", "YEAR_JD/STATION*") and t.i % 2:
        p = pathlib.Path(place(layout, "XX", names[0], "HHX", start))
        (root / p).parent.mkdir(parents=True, exist_ok=True)
        (root / p).write_text("not a seismogram\n")
    kw = {"format": "{year}.{month:02d}/{day:02d}/{station}/data.*"} if layout == "custom" else {"archive_format": layout}
    chsel = None
    if layout == "SeisComp3" and t.i % 16 == 0:
        chsel = str(rng.choice(["*Z", "HH[NE]", "HH*"]))
        kw["channels"] = chsel + ("" if chsel == "HH*" else ".D")
        chsel = {"*Z": "Z", "HH[NE]": "NE", "HH*": "ZNE"}[chsel]
    arc = A(root, pd.DataFrame({"Name": names}), read_all_stations=readall, **kw)

    def expected(a, z, shift, who):
        from obspy import Stream
        out = Stream()
        for tr in traces:
            if tr.stats.station not in who or (chsel and tr.stats.channel[2] not in chsel):
                continue
            # sample times are moved to the nearest multiple of the interval first
            s = tr.stats.starttime - (sub / sr if shift else 0)
            k0, k1 = round((a - s) * sr), round((z - s) * sr)
            # only the days touched by the padded interval are read
            d0, d1 = UTCDateTime((start - p0).date) - tr.stats.starttime, UTCDateTime((end + p1).date) + 86400 - tr.stats.starttime
            k0, k1 = max(0, k0, int(np.ceil(d0 * sr - 1e-6))), min(tr.stats.npts - 1, k1, int(np.ceil(d1 * sr - 1e-6)) - 1)
            if k1 >= k0:
                out.append(mk(tr.data[k0:k1 + 1], sr, s + k0 / sr, tr.id))
        return out

    who = set(names) | ({"ZZ9"} if readall else set())
    raw_want, want = expected(start - p0, end + p1, False, who), expected(start, end, True, set(names))
    merge = get("quakemigrate.util", "merge_stream")
    E, G = get("quakemigrate.util", "ArchiveEmptyException"), get("quakemigrate.util", "DataGapException")

    def call():
        return arc.read_waveform_data(start, end, pre, post)

    def day_files():
        d, out = UTCDateTime((start - p0).date), 0
        while d <= end + p1:
            for s in who:
                for c in ("HHE", "HHN", "HHZ") if layout != "/STATION/STATION.YearMonthDay" else ("HHZ",):
                    if (not chsel or c[2] in chsel) and place(layout, "XX", s, c, d) in files:
                        out += 1
            d += 86400
        return out
    if not len(want):
        # with no samples at all the two errors are both "no data"; with no file it is the empty-archive one
        t.raises(E if not day_files() and not (layout in ("YEAR/JD/STATION", "YEAR_JD/STATION*") and t.i % 2) else (E, G), call, "no data for the stations in the time span")
        return
    d = call()

    def join(st):
        """pieces of each channel joined where they touch or agree; None for a channel in conflict"""
        out = {}
        for tr in st:
            out.setdefault(tr.id, {})
            for k in range(tr.stats.npts):
                q = round((tr.stats.starttime - base) * sr ) + k
                if q in out[tr.id] and out[tr.id][q] != tr.data[k]:
                    out[tr.id] = None
                    break
                out[tr.id][q] = tr.data[k]
            if out[tr.id] is None:
                break
        return out

    for what, got, ref in (("raw", d.raw_waveforms, raw_want), ("scan", d.waveforms, want)):
        t.expect({tr.id for tr in got} == {tr.id for tr in ref}, f"{what} data: exactly the channels with data", got=[str(x) for x in got], want=[str(x) for x in ref])
        for cid in {tr.id for tr in ref}:
            g, r = got.select(id=cid), ref.select(id=cid)
            if len(r) > 1 and kinds[r[0].stats.station, r[0].stats.channel] == "conflict":
                # overlapping data that disagree: nothing altered, nothing lost
                t.expect(clash(g) == clash(r), f"{what} data: disagreeing data are left as they are", key=f"{what} conflict", got=[str(x) for x in g], want=[str(x) for x in r])
                continue
            jg, jr = join(g).get(cid), join(r).get(cid)
            t.expect(jg is not None and jg.keys() == jr.keys(), f"{what} data: exactly the requested samples", key=f"{what} samples", channel=cid, got=[str(x) for x in g], want=[str(x) for x in r])
            t.expect(all(jg[k] == jr[k] for k in jr), f"{what} data: the archived values", key=f"{what} values", channel=cid)
            runs = 1 + sum(1 for a, z in zip(sorted(jr), sorted(jr)[1:]) if z != a + 1)
            t.expect(len(g) == runs, f"{what} data: one trace per contiguous stretch", key=f"{what} merged", channel=cid, got=[str(x) for x in g])
            for tr in g:
                s0 = min(x.stats.starttime for x in r)
                m = (tr.stats.starttime - s0) * sr
                t.expect(abs(m - round(m)) < 0.01, f"{what} data: the sample times", key=f"{what} times", channel=cid, got=str(tr), want=str(r[0]))


@check("C22", quick=12, thorough=60, fn="io.data.Archive")
def archive_errors(t):
    """unknown and missing formats, empty archives"""
    import pandas as pd
    from obspy import UTCDateTime
    A = get("quakemigrate.io.data", "Archive")
    U = lambda n: get("quakemigrate.util", n)
    sta = pd.DataFrame({"Name": ["AB1", "CD2"]})
    root = pathlib.Path(t.tmp) / "arch"
    root.mkdir()
    bad = t.py.choice(["YEAR/JD", "seiscomp3", "STATION", "YEAR/JD/STATION*", "YEAR_JD/STATION", "x"])
    t.note(format=bad)
    t.raises(U("ArchivePathStructureError"), lambda: A(root, sta, archive_format=bad), "unknown archive format")
    a = A(root, sta, archive_format="YEAR/JD/STATION")
    t.raises(U("ArchivePathStructureError"), lambda: a.path_structure(bad), "unknown archive format, set later")
    s = UTCDateTime("2021-03-05T00:00:05")
    t.raises(U("ArchiveFormatException"), lambda: A(root, sta).read_waveform_data(s, s + 10), "no archive format")
    for lay in LAYOUTS[:-1]:
        t.raises(U("ArchiveEmptyException"), lambda: A(root, sta, archive_format=lay, read_all_stations=bool(t.i % 2)).read_waveform_data(s, s + 10, 10.0, 3.0), "nothing in the archive")
    # a file of the day without data in the interval
    write_archive(root, "YEAR/JD/STATION", [mk(np.arange(200, dtype=np.int32), 20.0, s + 3600, "XX.AB1..HHZ")])
    t.raises(U("DataGapException"), lambda: a.read_waveform_data(s, s + 10), "no data of the stations in the interval")
