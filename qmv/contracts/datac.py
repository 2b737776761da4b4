"""Contracts on the waveform archive (quakemigrate.io.data): C21, C22."""
from __future__ import annotations

import z3

from .. import core, loader
from ..arr import Arr, iv
from ..core import C, SBool, SNum, num, oblige
from ..loops import Comp
from ..models.obspy_m import DAY, JUL, MDAY, MONTH, UTC, YEAR, Stream, Trace
from .base import contract
from .corelib import ints
from .gridc import reals
from .utilc import utc

HALF = z3.Q(1, 2)


def data(w=None):
    w = w or loader.World()
    m = w.module("quakemigrate.io.data")
    return m


class Tr(Trace):
    """a trace of a channel: flat (every sample the same) or not, the samples otherwise unknown"""


def trace(cid, name, sr, flat):
    n, = ints(f"npts_{name}")
    C.assume(n.e >= 1)
    if flat:
        c = z3.Real(f"level_{name}")
        arr = Arr.make((n,), lambda ix: SNum(c), "float64")
    else:
        C.assume(n.e >= 2)
        arr = Arr.symbol(f"data_{name}", (n,))
        p, q = ints(f"p_{name}", f"q_{name}")
        C.assume(z3.And(p.e >= 0, p.e < n.e, q.e >= 0, q.e < n.e))
        r = arr.reader()
        C.assume(num(r((p.e,))).e != num(r((q.e,))).e)
        C.skolems += [p.e, q.e]
    arr.cell.readonly = True
    net, sta, loc, cha = cid.split(".")
    t = Trace(arr, {"network": net, "station": sta, "location": loc, "channel": cha, "sampling_rate": sr,
                    "starttime": utc(f"start_{name}")})
    t.npts0, t.start0 = n, t.stats.starttime
    return t


def anyrate(name="sr"):
    r, = reals(name)
    C.assume(z3.And(r.e >= z3.Q(1, 10), r.e <= 1000))
    return r


def flag(name):
    return SBool(z3.Bool(name))


def covers(t, span):
    """(surely, surely not) at least as many samples as the time span asks for"""
    x = span * t.stats.sampling_rate.e
    have = z3.ToReal(t.npts0.e) - 1
    return x < have + HALF, x > have + HALF


def unchanged(st, before, traces):
    oblige("the stream holds the same traces", z3.BoolVal(len(st.traces) == len(before) and all(a is b for a, b in zip(st.traces, before))))
    for t, (arr, sr, start, n) in zip(before, traces):
        oblige("samples, rate, start time and length of every trace unchanged", z3.And(
            z3.BoolVal(t.data is arr), t.stats.sampling_rate.e == sr, t.stats.starttime.e == start, num(t.stats.npts).e == n))


def snapshot(st):
    return list(st.traces), [(t.data, t.stats.sampling_rate.e, t.stats.starttime.e, num(t.stats.npts).e) for t in st.traces]


def waveform(m, start=None, end=None):
    return m.WaveformData(start or utc("start"), end or utc("end"))


ONE = "NW.STA..HHZ"


def passed(ava, which=ONE):
    return num(ava[which]).e == 1


@contract("data.check_availability: one trace", "C21", "io/data.py:WaveformData.check_availability",
          ["sampling rates lie in [0.1, 1000] Hz"])
def channel():
    m = data()
    d = waveform(m)
    C.assume(d.endtime.e >= d.starttime.e)
    sr = anyrate()
    flat = C.choose(2, "flat") == 1
    t = trace(ONE, "a", sr, flat)
    st = Stream([t])
    before, snap = snapshot(st)
    full, times, gaps, rates = flag("full_timespan"), flag("check_start_end_times"), flag("allow_gaps"), flag("check_sampling_rate")
    want = anyrate("wanted")
    a, ava = d.check_availability(st, allow_gaps=gaps, full_timespan=full, check_sampling_rate=rates, sampling_rate=want,
                                  check_start_end_times=times)
    oblige("exactly the channel present is reported", z3.BoolVal(list(ava) == [ONE]))
    span = d.endtime.e - d.starttime.e
    yes, no = covers(t, span)
    end = t.start0.e + core.rdiv(z3.ToReal(t.npts0.e - 1), sr.e)
    exact = z3.And(t.start0.e == d.starttime.e, end == d.endtime.e)
    rest = z3.And(z3.BoolVal(not flat), z3.Implies(rates.e, sr.e == want.e), z3.Implies(times.e, exact))
    p = passed(ava)
    oblige("reported as 0 or 1", z3.Or(p, num(ava[ONE]).e == 0))
    oblige("passes when it is not flat, covers the time span, has the rate and the times asked for",
           z3.Implies(z3.And(rest, z3.Implies(full.e, yes)), p))
    oblige("fails when flat or when one of the requested checks does", z3.Implies(z3.Or(z3.Not(rest), z3.And(full.e, no)), z3.Not(p)))
    oblige("available exactly when its one channel passes", z3.And(z3.Or(num(a).e == 0, num(a).e == 1), (num(a).e == 1) == p))
    unchanged(st, before, snap)


@contract("data.check_availability: two traces", "C21", "io/data.py:WaveformData.check_availability",
          ["sampling rates lie in [0.1, 1000] Hz", "two traces stand for the segments of a channel"])
def segments():
    m = data()
    d = waveform(m)
    C.assume(d.endtime.e >= d.starttime.e)
    sr = anyrate()
    flat = [C.choose(2, "flat a") == 1, C.choose(2, "flat b") == 1]
    ts = [trace(ONE, n, sr, f) for n, f in zip("ab", flat)]
    C.assume(ts[0].start0.e < ts[1].start0.e)
    st = Stream(ts if C.choose(2, "order") else ts[::-1])
    before, snap = snapshot(st)
    full, times, gaps = flag("full_timespan"), flag("check_start_end_times"), flag("allow_gaps")
    a, ava = d.check_availability(st, allow_gaps=gaps, full_timespan=full, check_start_end_times=times)
    oblige("exactly the channel present is reported", z3.BoolVal(list(ava) == [ONE]))
    # where the second segment starts, in samples after the first of the first one
    at = (ts[1].start0.e - ts[0].start0.e) * sr.e
    n = z3.ToReal(ts[0].npts0.e)
    overlap, gap = at < n - HALF, at > n + HALF
    adjacent = z3.And(at > n - HALF, at < n + HALF)
    p = passed(ava)
    oblige("reported as 0 or 1", z3.Or(p, num(ava[ONE]).e == 0))
    if any(flat):
        oblige("a channel with a flat-line trace fails", z3.Not(p))
    oblige("overlapping segments fail", z3.Implies(overlap, z3.Not(p)))
    oblige("segments with a gap fail unless gaps are allowed", z3.Implies(z3.And(gap, z3.Not(gaps.e)), z3.Not(p)))
    oblige("segments fail when the whole time span, or its exact times, are asked for", z3.Implies(z3.Or(full.e, times.e), z3.Not(p)))
    if not any(flat):
        oblige("segments that do not overlap pass when nothing more is asked for",
               z3.Implies(z3.And(z3.Or(adjacent, z3.And(gap, gaps.e)), z3.Not(full.e), z3.Not(times.e)), p))
    oblige("available exactly when its one channel passes", z3.And(z3.Or(num(a).e == 0, num(a).e == 1), (num(a).e == 1) == p))
    unchanged(st, before, snap)


@contract("data.check_availability: sampling rates of segments", "C21", "io/data.py:WaveformData.check_availability",
          ["two traces stand for the segments of a channel"])
def segment_rates():
    m = data()
    d = waveform(m)
    sa, sb, want = anyrate("sa"), anyrate("sb"), anyrate("wanted")
    ts = [trace(ONE, "a", sa, False), trace(ONE, "b", sb, False)]
    C.assume(ts[1].start0.e > ts[0].start0.e + core.rdiv(z3.ToReal(ts[0].npts0.e), sa.e))
    st = Stream(ts)
    given = C.choose(2, "given") == 1
    try:
        a, ava = d.check_availability(st, allow_gaps=True, full_timespan=False, check_sampling_rate=True, sampling_rate=want if given else None)
    except TypeError:
        oblige("refused only without the sampling rate to check against", z3.BoolVal(not given))
        return
    oblige("a check against no sampling rate is refused", z3.BoolVal(given))
    oblige("every segment has the expected sampling rate", passed(ava) == z3.And(sa.e == want.e, sb.e == want.e))


@contract("data.check_availability: station", "C21", "io/data.py:WaveformData.check_availability",
          ["up to three channels stand for the channels of a station"])
def station():
    m = data()
    d = waveform(m)
    ids = ["NW.STA..HHZ", "NW.STA..HHN", "NW.STA..HHE"][:C.choose(4, "channels")]
    flat = [C.choose(2, f"flat{q}") == 1 for q in range(len(ids))]
    st = Stream([trace(i, f"c{q}", anyrate(f"r{q}"), f) for q, (i, f) in enumerate(zip(ids, flat))])
    before, snap = snapshot(st)
    al = flag("all_channels")
    n, = ints("n_channels")
    C.assume(n.e >= 1)
    a, ava = d.check_availability(st, all_channels=al, n_channels=n, full_timespan=False)
    oblige("exactly the channels present are reported", z3.BoolVal(sorted(ava) == sorted(ids)))
    for i, f in zip(ids, flat):
        oblige("each with its own verdict", num(ava[i]).e == (0 if f else 1))
    good = flat.count(False)
    every = z3.And(z3.BoolVal(good == len(ids) and good > 0), n.e == len(ids))
    oblige("available when any passes, or all of the expected number of channels when all are required",
           num(a).e == z3.If(z3.If(al.e, every, z3.BoolVal(good > 0)), z3.IntVal(1), z3.IntVal(0)))
    unchanged(st, before, snap)


@contract("data.check_availability: number of channels missing", "C21", "io/data.py:WaveformData.check_availability")
def nochannels():
    m = data()
    d = waveform(m)
    st = Stream([trace(ONE, "a", anyrate(), False)])
    try:
        d.check_availability(st, all_channels=True, full_timespan=False)
    except TypeError:
        return
    oblige("all channels without their number is refused", z3.BoolVal(False))


class Fmt:
    """the configured layout: which day and station its fields were filled in with"""

    def __init__(self, fields=()):
        self.f = dict(fields)

    def format(self, *a, **k):
        f = dict(self.f)
        for n, v in k.items():
            if isinstance(v, str) and v == "{" + n + "}":
                continue
            if n in f and n != "station":
                continue
            f[n] = v
        return Fmt(f)

    def replace(self, a, b):
        if (a, b) != ("**", "*"):
            raise core.Unsupported("another treatment of the path pattern")
        return self

    def day(self):
        return num(self.f["year"]), num(self.f["jday"]), num(self.f["month"]), num(self.f["day"])


@contract("data._load_from_path", "C22", "io/data.py:Archive._load_from_path",
          ["two stations stand for the configured stations", "what a glob pattern matches is the file system's business"])
def load_from_path():
    m = data()
    a = object.__new__(m.Archive)
    a.format, every = Fmt(), C.choose(2, "all stations") == 1
    a.read_all_stations = every
    a.stations = ["S1", "S2"]

    class Path:
        def glob(self, fmt):
            if not isinstance(fmt, Fmt):
                raise core.Unsupported("files looked for in another way")
            return [(fmt.f.get("station"), *fmt.day())]

    def chain(a, *more):
        for b in more:
            a.extend(b)
        return a
    m.chain = chain
    a.archive_path = Path()
    s, e = utc("s"), utc("e")
    C.assume(s.e <= e.e)
    out = a._load_from_path(s, e)
    lo = core.floor_(core.rdiv(s.e, z3.RealVal(DAY)))
    hi = core.floor_(core.rdiv(e.e, z3.RealVal(DAY)))
    d = C.skolem("d")
    C.assume(z3.And(d >= lo, d <= hi))
    want = [YEAR(d), JUL(d), MONTH(d), MDAY(d)]
    for sta in (["*"] if every else a.stations):
        found = []
        for p in out.parts():
            if isinstance(p, Comp):
                k = d - lo
                v = p.elem(k)
                if v[0] == sta:
                    found.append(z3.And(k >= 0, k < iv(p.n), p.guard(k), *[num(x).e == y for x, y in zip(v[1:], want)]))
            elif p[0] == sta:
                found.append(z3.And(*[num(x).e == y for x, y in zip(p[1:], want)]))
        oblige("every day the span touches is looked up, for every station", z3.Or(*found))


@contract("data._load_from_path: no layout", "C22", "io/data.py:Archive._load_from_path")
def no_layout():
    m = data()
    a = object.__new__(m.Archive)
    a.format, a.read_all_stations, a.stations = None, False, ["S1"]
    try:
        a._load_from_path(utc("s"), utc("e"))
    except Exception as x:
        if type(x).__name__ != "ArchiveFormatException":
            raise
        return
    oblige("reading without a layout is refused", z3.BoolVal(False))


LAYOUTS = {"SeisComp3": "2021/*/STA/*/*.STA.*.*.D.2021.{0}", "YEAR/JD/*_STATION_*": "2021/{0}/*_STA_*", "YEAR/JD/STATION": "2021/{0}/STA*",
           "STATION.YEAR.JULIANDAY": "*STA.*.2021.{0}", "/STATION/STATION.YearMonthDay": "STA/STA.2021{1}{2}",
           "YEAR_JD/STATION*": "2021_{0}/STA*", "YEAR_JD/STATION_*": "2021_{0}/STA_*"}


@contract("data.path_structure", "C22", "io/data.py:Archive.path_structure", ["evaluated for every day of 2021"])
def path_structure():
    import datetime
    m = data()
    a = object.__new__(m.Archive)
    names = [*LAYOUTS, "", "YEAR", "year/jd/station", "SeisComp4", "YEAR/JD/STATION/"]
    name = names[C.choose(len(names), "layout")]
    a.format = None
    try:
        a.path_structure(name)
    except Exception as x:
        if type(x).__name__ != "ArchivePathStructureError":
            raise
        oblige("only an unknown layout is refused", z3.BoolVal(name not in LAYOUTS))
        return
    oblige("an unknown layout is refused", z3.BoolVal(name in LAYOUTS))
    ok = []
    for j in range(1, 366):
        t = datetime.date(2021, 1, 1) + datetime.timedelta(j - 1)
        f = a.format.format(year=2021, month=t.month, day=t.day, jday=j, station="STA", dtime=t)
        ok.append(f == LAYOUTS[name].format(f"{j:03d}", f"{t.month:02d}", f"{t.day:02d}"))
    oblige("the layout as documented, for every day", z3.BoolVal(all(ok)))


def archive(m, every, stations):
    a = object.__new__(m.Archive)
    a.__dict__.update(stations=stations, read_all_stations=every, resample=False, upfactor=None, interpolate="INTERP", response_inv="INV",
                      water_level="LEVEL", pre_filt="PREFILT", remove_full_response="FULL", format="x", archive_path="y")
    return a


class File:
    def __init__(self, k):
        self.k = k

    def _qm_str(self):
        return self

    __str__ = lambda self: self.k


def reading(every, stations, files, f):
    """read_waveform_data with its callees by contract; files: what each file holds (None: unreadable)"""
    m = data()
    pre, post = reals("pre", "post")
    s, e = UTC(z3.ToReal(z3.Int("s")) / f), UTC(z3.ToReal(z3.Int("e")) / f)
    C.assume(z3.Int("s") < z3.Int("e"))
    lo = s.e - z3.If(pre.e > 0, pre.e, 0)
    hi = e.e + z3.If(post.e > 0, post.e, 0)
    a = archive(m, every, stations)
    log = []

    def load(b, z):
        oblige("looks for data of the padded span", z3.And(b.e == lo, z.e == hi))
        log.append("files")
        return iter([File(k) for k in files])
    a._load_from_path = load

    def read(file, starttime=None, endtime=None, **k):
        if not isinstance(file, (File, str)) or k:
            raise core.Unsupported("files read in another way")
        k = file.k if isinstance(file, File) else file
        log.append(("read", k))
        if starttime is not None:
            oblige("no file is cut short of the sample nearest to the start of the padded span", starttime.e <= lo - z3.Q(1, 2 * f))
        if endtime is not None:
            oblige("nor of the sample nearest to its end", endtime.e >= hi + z3.Q(1, 2 * f))
        if files[k] is None:
            raise TypeError("Unknown format for file")
        return Stream([t.copy() for t in files[k]])

    def merge(st):
        log.append(("merge", [t.name for t in st.traces]))
        return st.copy()

    def shift(st, interpolate=False):
        log.append(("shift", interpolate))
        out = st.copy()
        for t in out.traces:
            t.stats.starttime = UTC(t.stats.starttime.e - core.rdiv(t.phi, t.stats.sampling_rate.e))
            t.__dict__["shifted"] = True
        return out
    m.read = read
    m.util.merge_stream, m.util.shift_to_sample = merge, shift
    return m, a, s, e, pre, post, lo, hi, log


class Named(Trace):
    def copy(self):
        t = Named(header=self.stats)
        t.__dict__["data"] = self.data.copy()
        t.__dict__.update(name=self.name, phi=self.phi, shifted=self.shifted)
        return t

    __deepcopy__ = lambda self, memo: self.copy()


def piece(name, sr, station="S1"):
    n, = ints("n_" + name)
    C.assume(n.e >= 1)
    arr = Arr.symbol("samples_" + name, (n,))
    phi = z3.Real("phi_" + name)          # how far its samples lie off the grid, in samples
    C.assume(z3.And(-HALF < phi, phi < HALF))
    t = Named(arr, {"network": "NW", "station": station, "channel": "HHZ", "sampling_rate": sr,
                    "starttime": UTC(core.rdiv(z3.ToReal(z3.Int("t_" + name)) + phi, sr.e))})
    t.__dict__.update(name=name, phi=phi, shifted=False)
    return t, n, arr, sr


def window(label, t, first, n, start, sr, lo, hi, arr):
    """trace t holds exactly the samples of the original (n samples of arr from time start) that are nearest to [lo, hi]"""
    x, y = (lo - start) * sr, (hi - start) * sr           # in samples of the trace
    L = num(t.stats.npts).e
    oblige(f"{label}: begins at its own first sample, or at the sample nearest to the start", z3.Or(
        z3.And(first == 0, x <= HALF), z3.And(first >= 0, z3.ToReal(first) - x <= HALF, x - z3.ToReal(first) <= HALF)))
    last = first + L - 1
    oblige(f"{label}: ends at its own last sample, or at the sample nearest to the end", z3.Or(
        z3.And(last == n - 1, y >= z3.ToReal(n) - 1 - HALF), z3.And(last <= n - 1, z3.ToReal(last) - y <= HALF, y - z3.ToReal(last) <= HALF)))
    oblige(f"{label}: starts at the time of its first sample", t.stats.starttime.e == start + core.rdiv(z3.ToReal(first), sr))
    i = C.skolem("i")
    with C.under(z3.And(i >= 0, i < L)):
        oblige(f"{label}: samples unchanged", num(t.data.reader()((i,))).e == num(arr.reader()((first + i,))).e)


@contract("data.read_waveform_data: one trace", "C22", "io/data.py:Archive.read_waveform_data",
          ["_load_from_path, merge_stream and shift_to_sample by their own contracts", "the trace overlaps the requested span by some samples", "sampling rates 1, 50, 100, 200 Hz",
           "the requested span begins and ends on the sample grid; no sample of the archive lies exactly half-way between grid points"])
def read_one():
    f = [1, 50, 100, 200][C.choose(4, "rate")]
    t, n, arr, sr = piece("a", SNum(z3.RealVal(f)))
    with_data = {"f": [t]}
    m, a, s, e, pre, post, lo, hi, log = reading(False, ["S1"], with_data, f)
    st0 = t.stats.starttime.e
    end = st0 + core.rdiv(z3.ToReal(n.e - 1), sr.e)
    step = core.rdiv(z3.RealVal(1), sr.e)
    # at least two samples of the trace lie well within the requested span
    C.assume(z3.And(e.e - s.e >= 3 * step, st0 + 2 * step <= e.e, end - 2 * step >= s.e))
    d = a.read_waveform_data(s, e, pre, post)
    oblige("one trace of raw data and one of scan data", z3.BoolVal(len(d.raw_waveforms.traces) == 1 and len(d.waveforms.traces) == 1))
    oblige("the times asked for are kept with the data", z3.And(d.starttime.e == s.e, d.endtime.e == e.e))
    raw, use = d.raw_waveforms.traces[0], d.waveforms.traces[0]
    oblige("raw and scan data are separate", z3.BoolVal(raw is not use))
    first = lambda tr, start: core.floor_((tr.stats.starttime.e - start) * sr.e + HALF)
    window("raw data", raw, first(raw, st0), n.e, st0, sr.e, lo, hi, arr)
    if not use.shifted or raw.shifted:
        raise core.Unsupported("the data are put on the sample grid in another way")
    st1 = st0 - core.rdiv(t.phi, sr.e)
    window("scan data", use, first(use, st1), n.e, st1, sr.e, s.e, e.e, arr)


@contract("data.read_waveform_data: files and stations", "C22 C20", "io/data.py:Archive.read_waveform_data",
          ["_load_from_path, merge_stream and shift_to_sample by their own contracts", "three files, of up to two traces each, stand for the archive",
           "traces lie within the requested span, or more than a sample outside the padded one"])
def read_files():
    f = 100
    sr = SNum(z3.RealVal(f))
    kind = C.choose(5, "archive")
    every = C.choose(2, "all stations") == 1
    t = {}

    def mk(name, station="S1", **k):
        t[name] = piece(name, sr, station)[0]
        return t[name]
    names = {0: {}, 1: {"x": None}, 2: {"x": None, "y": [mk("a"), mk("b", "S9" if every else "S2")], "z": [mk("c", "S2")]},
             3: {"x": [mk("out")]}, 4: {"x": [mk("early"), mk("in"), mk("late")]}}[kind]
    m, a, s, e, pre, post, lo, hi, log = reading(every, ["S1", "S2"], names, f)
    for n, p in t.items():
        st, end = p.stats.starttime.e, p.stats.endtime.e
        if n in ("out", "late"):
            C.assume(st > hi + z3.Q(1, 50))
        elif n == "early":
            C.assume(end < lo - z3.Q(1, 50))
        else:
            C.assume(z3.And(st >= s.e + z3.Q(1, 50), end <= e.e - z3.Q(1, 50)))
    held = [x.name for k in names for x in names[k] or []]
    try:
        d = a.read_waveform_data(s, e, pre, post)
    except Exception as x:
        n = type(x).__name__
        if n not in ("ArchiveEmptyException", "DataGapException"):
            raise
        oblige("no files at all: the archive is empty", z3.BoolVal((n == "ArchiveEmptyException") == (kind == 0)))
        oblige("a gap only when no trace lies in the span", z3.BoolVal(kind in (0, 1, 3)))
        return
    oblige("data are found", z3.BoolVal(kind in (2, 4)))
    for lg in log:
        if lg[0] == "merge":
            oblige("the data of every readable file are merged together", z3.BoolVal(sorted(lg[1]) == sorted(held)))
    oblige("merged once", z3.BoolVal(sum(lg[0] == "merge" for lg in log) == 1))
    inside = [n for n in held if n not in ("out", "late", "early")]
    oblige("raw data: every trace in the padded span", z3.BoolVal(sorted(x.name for x in d.raw_waveforms.traces) == sorted(inside)))
    mine = [n for n in inside if t[n].stats.station in ("S1", "S2")]
    oblige("scan data: every trace in the span, of the configured stations", z3.BoolVal(sorted(x.name for x in d.waveforms.traces) == sorted(mine)))
    for st, lbl in ((d.raw_waveforms, "raw"), (d.waveforms, "scan")):
        for x in st.traces:
            oblige(f"{lbl} data: traces inside the span keep all their samples", num(x.stats.npts).e == num(t[x.name].stats.npts).e)
    oblige("raw data are not moved to the sample grid", z3.BoolVal(not any(x.shifted for x in d.raw_waveforms.traces)))
    oblige("configuration passed on with the data", z3.BoolVal(d.read_all_stations is every and d.stations == ["S1", "S2"]))
    oblige("moved to the sample grid as configured", z3.BoolVal(all(x[1] == "INTERP" for x in log if x[0] == "shift")))
    oblige("how responses are to be removed, passed on with the data", z3.BoolVal(
        (d.response_inv, d.water_level, d.pre_filt, d.remove_full_response) == ("INV", "LEVEL", "PREFILT", "FULL")))
