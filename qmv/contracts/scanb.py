"""Contracts on the control flow of the scan (quakemigrate.signal.scan): C06, C07, C16, C17."""
from __future__ import annotations

import z3

from .. import core, loader
from ..arr import Arr, iv
from ..core import B, C, I, R, SBool, SNum, ex, num, oblige, rl, tobool
from ..loops import QDict, QList, QSeq
from ..models.numpy_m import as_arr
from ..models.obspy_m import UTC
from .base import contract
from .corelib import ints
from .gridc import PyprojModel, reals, vec
from .scanc import Ns, scan, sk3
from .utilc import rate, utc


def detector():
    w, m, s = scan()
    sr, k = rate()
    s.scan_rate_ = sr
    ts, = reals("timestep")
    C.assume(ts.e > 0)
    s.timestep = ts
    s.onset = Ns(sampling_rate=sr)
    s.scan_rate = sr
    return w, m, s, sr, k, ts


@contract("scan.detect", "C07", "signal/scan.py:QuakeScan.detect", ["_continuous_compute by its own contract"])
def detect():
    w, m, s, sr, k, ts = detector()
    got = []
    s._continuous_compute = lambda *a: got.append(a)
    s.run = Ns(stage=None, logger=lambda *a: None, name="n")
    s.log = True
    a, b = utc("a"), utc("b")
    day = 86400
    try:
        s.detect(a, b)
    except Exception as e:
        if "TimeSpan" not in type(e).__name__:
            raise
        oblige("refused only when the span ends before it begins", a.e > b.e)
        oblige("nothing is scanned", z3.BoolVal(not got))
        return
    oblige("the span does not end before it begins", a.e <= b.e)
    oblige("one scan", z3.BoolVal(len(got) == 1))
    st, n = got[0]
    oblige("stage recorded", z3.BoolVal(s.run.stage == "detect"))
    oblige("steps start where the span starts", st.e == a.e)
    mid = z3.ToReal(core.floor_(core.rdiv(b.e, z3.RealVal(day)))) * day == b.e
    end = z3.If(mid, b.e - core.rdiv(z3.RealVal(1), sr.e), b.e)
    N = num(n).e
    x = z3.ToReal(N) if N.sort() == I else N
    oblige("whole number of steps", z3.BoolVal(N.sort() == I))
    oblige("together they reach the end of the span", z3.Or(x <= 0, a.e + x * ts.e >= end))
    oblige("and none begins at or after it", z3.Or(x <= 0, a.e + (x - 1) * ts.e < end))
    oblige("no step only if the span is empty", z3.Implies(x <= 0, a.e >= end))


class Log:
    """external object: records what it is asked to do, in order"""

    def __init__(self):
        self.calls = QList()


@contract("scan._continuous_compute", "C07 C08 C06", "signal/scan.py:QuakeScan._continuous_compute",
          ["archive, onset, _compute and ScanmSEED by their contracts", "reading a window either gives data or raises one of the three no-data exceptions"])
def continuous_compute():
    w, m, s, sr, k, ts = detector()
    n, = ints("n")
    C.assume(n.e >= 1)
    start = utc("start")
    pre, post = reals("pre_", "post_")
    C.assume(z3.And(pre.e >= 0, post.e >= 0))
    asked = []
    s.onset = Ns(pad=lambda x: asked.append(x) or (pre, post), phases=["P", "S"])
    s.archive = Ns(stations=["A", "B"])
    have = z3.Function("window_has_data", R, R, B)
    kind = z3.Function("window_problem", R, R, I)
    msgs = z3.Function("problem_text", R, R, I)
    ut = w.module("quakemigrate.util")

    class Archive:
        stations = ["A", "B"]

        def __init__(self):
            self.reads = QList()

        def read_waveform_data(self, b, e, *pads):
            oblige("no further data asked for", z3.BoolVal(not pads))
            self.reads.append((b, e))
            if C.decide(have(b.e, e.e)):
                return Ns(b=b, e=e)
            q = kind(b.e, e.e)
            if C.decide(q == 0):
                raise exc(ut.ArchiveEmptyException, b, e)
            if C.decide(q == 1):
                raise exc(ut.DataGapException, b, e)
            raise exc(ut.DataAvailabilityException, b, e)

    def exc(cls, b, e):
        x = cls.__new__(cls)
        Exception.__init__(x, "no data")
        x.msg = Ns(v=SNum(msgs(b.e, e.e)))
        return x
    s.archive = Archive()
    s.lut = Ns(unit_conversion_factor=SNum(z3.Real("ucf")))
    val = {q: z3.Function(q, R, R, R) for q in ("time", "coa", "con", "xyz")}
    av = z3.Function("availability_of", R, R, I)

    def compute(data, *a):
        b, e = data.b.e, data.e.e
        return (UTC(val["time"](b, e)), SNum(val["coa"](b, e)), SNum(val["con"](b, e)), SNum(val["xyz"](b, e)),
                Ns(availability=SNum(av(b, e))))
    s._compute = compute
    out = Log()

    class Scan:
        made = []

        def __init__(self, *a):
            Scan.made.append(a)
            self.written = SBool(z3.Bool("all_written"))
            self.calls = out.calls

        def append(self, t, a, b, c, u):
            self.calls.append((SBool(z3.BoolVal(True)), t, a, b, c, u, SNum(z3.RealVal(0)), SNum(z3.RealVal(0)), SNum(z3.IntVal(0)), SNum(z3.IntVal(0))))

        def empty(self, t, step, i, msg, u):
            z = SNum(z3.RealVal(0))
            self.calls.append((SBool(z3.BoolVal(False)), t, z, z, z, u, SNum(rl(num(step).e)), z, SNum(num(i).e), msg.v))

        def write(self):
            fin.append("write")
    fin = []
    m.ScanmSEED = Scan
    s.run = object()
    s.continuous_scanmseed_write = object()

    class Loc:
        def __init__(self):
            self.rows = QList()

        def __setitem__(self, i, v):
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                v = as_arr([v] * 4)         # one value for the whole row
            elif isinstance(v, (list, tuple)):
                v = as_arr(list(v))
            if isinstance(v, Arr):
                oblige("zeros for every station and phase", z3.And(iv(v.shape[0]) == 4, *[num(v[q]).e == 0 for q in range(4)]))
                v = SNum(z3.IntVal(-1))
            self.rows.append((i, v))

    class Frame:
        def __init__(self, index=None, columns=None):
            self.n, self.cols = index, columns
            Frame.made = self
            self.loc = Loc()
            self.names = QList()

        def rename(self, index=None, inplace=False):
            for a, b in dict.items(index):
                v = core.unmark(b)
                self.names.append((a, v[0] if isinstance(v, tuple) else v))
    real = m.pd
    m.pd = Ns(DataFrame=Frame)
    wrote = []
    m.write_availability = lambda *a: wrote.append(a)
    s._continuous_compute(start, n)
    cols = [str(x) for x in Frame.made.cols]
    oblige("one availability column per station and phase", z3.BoolVal(sorted(cols) == ["A_P", "A_S", "B_P", "B_S"]))
    oblige("padding asked of the onset for one step", z3.BoolVal(len(asked) == 1) if not asked else rl(num(asked[0]).e) == ts.e)
    oblige("writer made for this run at the scan rate", z3.BoolVal(len(Scan.made) == 1 and Scan.made[0][0] is s.run and Scan.made[0][1] is s.continuous_scanmseed_write and Scan.made[0][2] is sr))
    Scan.made.clear()
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    reads, rows, names = s.archive.reads, Frame.made.loc.rows, Frame.made.names
    for nm, q in (("reads", reads), ("coalescence", out.calls), ("availability rows", rows), ("row names", names)):
        oblige(f"{nm}: one entry per step", z3.And(z3.BoolVal(q.seq() is not None), iv(q.sym_len()) == n.e))
    b = start.e + ts.e * z3.ToReal(i) - pre.e
    e = start.e + ts.e * (z3.ToReal(i) + 1) - core.rdiv(z3.RealVal(1), sr.e) + post.e
    rb, re_ = reads.seq().get(i)
    oblige("each step reads its own window: the step itself, less one sample at its end, plus the padding", z3.And(rb.e == b, re_.e == e))
    got = out.calls.seq().get(i)
    ok = have(b, e)
    oblige("a step with data appends what was computed from its window", z3.Implies(ok, z3.And(
        tobool(got[0]), got[1].e == val["time"](b, e), got[2].e == val["coa"](b, e), got[3].e == val["con"](b, e), got[4].e == val["xyz"](b, e))))
    oblige("a step without data is filled: same start, step length and number, with the reason", z3.Implies(z3.Not(ok), z3.And(
        z3.Not(tobool(got[0])), got[1].e == start.e, got[6].e == ts.e, got[8].e == i, got[9].e == msgs(b, e))))
    oblige("in the units of the grid", rl(got[5].e) == z3.Real("ucf"))
    r = rows.seq().get(i)
    oblige("availability row of the same step: as computed, or none", z3.And(num(r[0]).e == i, num(r[1]).e == z3.If(ok, av(b, e), z3.IntVal(-1))))
    nm = names.seq().get(i)
    oblige("named by the start of the step", z3.And(num(nm[0]).e == i, num(nm[1]).e == start.e + ts.e * z3.ToReal(i)))
    oblige("written at the end unless everything has been", z3.Or(z3.And(z3.Bool("all_written"), z3.BoolVal(not fin)), z3.And(z3.Not(z3.Bool("all_written")), z3.BoolVal(len(fin) == 1))))
    oblige("availability written once", z3.BoolVal(len(wrote) == 1 and wrote[0][0] is s.run and wrote[0][1] is Frame.made))


@contract("scan._compute", "C06 C01 C16 C07", "signal/scan.py:QuakeScan._compute", ["onset, lookup table and core functions by their contracts", "two onset functions stand for any number"])
def compute():
    w, m, s, sr, k, ts = detector()
    pre, post = reals("pre_", "post_")
    s.pre_pad, s.post_pad = pre, post
    s.threads = 3
    stage = ["detect", "locate"][C.choose(2, "stage")]
    s.run = Ns(stage=stage)
    osr = SNum(z3.Real("onset_rate"))
    av = QDict()
    vs = []
    for nm in ("A_P", "B_P", "A_S"):
        v = SNum(z3.Int("av_" + nm))
        C.assume(z3.Or(v.e == 0, v.e == 1))
        av[nm] = v
        vs.append(v)
    onsets = Arr.symbol("onsets", (2, SNum(z3.Int("nsamp"))))
    od = Ns(sampling_rate=osr, availability=av, phases=["P", "S"])
    data = Ns(starttime=utc("data_start"))
    seen = {}
    s.onset = Ns(calculate_onsets=lambda d, **kw: seen.__setitem__("data", d) or (onsets, od), sampling_rate=sr)
    tt = Arr.symbol("tt", (2, 2), sort=I)

    def serve(r, a):
        seen["serve"] = (r, a)
        if C.decide(z3.Bool("phase_in_table")):
            return tt
        raise KeyError("S")
    coordval = Arr.symbol("coord", (SNum(z3.Int("nout")), 3))
    s.lut = Ns(serve_traveltimes=serve, index2coord=lambda ix, **kw: seen.__setitem__("i2c", (ix, kw)) or coordval)
    m.util.time2sample = lambda t, r: SNum(z3.Function("t2s", R, R, I)(rl(num(t).e), rl(num(r).e)))
    map4d, mx, mxn, idx = object(), object(), object(), object()
    m.migrate = lambda *a: seen.__setitem__("mig", a) or map4d
    m.find_max_coa = lambda *a: seen.__setitem__("fmc", a) or (mx, mxn, idx)
    times = object()
    ev = Ns(mw_times=lambda r: seen.__setitem__("mwt", r) or times)
    try:
        out = s._compute(data, ev if stage == "locate" else None)
    except Exception as e:
        if "LUTPhases" not in type(e).__name__:
            raise
        oblige("refused only when the table lacks a phase", z3.Not(z3.Bool("phase_in_table")))
        oblige("nothing is migrated", z3.BoolVal("mig" not in seen))
        return
    oblige("the table has every phase asked for", z3.Bool("phase_in_table"))
    oblige("onsets from the data given", z3.BoolVal(seen["data"] is data))
    r, a = seen["serve"]
    oblige("traveltimes in samples of the onset functions", num(r).e == osr.e)
    oblige("for the same stations and phases the onsets are for", z3.BoolVal(a is av))
    o, t, f, l, n_av, th = seen["mig"]
    oblige("onsets and traveltimes are migrated as they are", z3.BoolVal(o is onsets and t is tt and th == s.threads))
    t2s = z3.Function("t2s", R, R, I)
    oblige("first sample: the pre-padding", num(f).e == t2s(pre.e, osr.e))
    oblige("last sample: the post-padding", num(l).e == t2s(post.e, osr.e))
    oblige("stack divided by the number of available onset functions", rl(num(n_av).e) == rl(vs[0].e + vs[1].e + vs[2].e))
    oblige("maxima of that map", z3.BoolVal(seen["fmc"][0] is map4d))
    ix, kw = seen["i2c"]
    oblige("coordinates of the maxima", z3.BoolVal(ix is idx and kw.get("unravel") is True))
    if stage == "detect":
        oblige("detect: first time is the data's start plus the pre-padding, then maxima, coordinates, availability",
               z3.And(out[0].e == data.starttime.e + pre.e, z3.BoolVal(out[1] is mx and out[2] is mxn and out[3] is coordval and out[4] is od)))
    else:
        oblige("locate: the event's sample times, maxima, coordinates, map, onsets",
               z3.BoolVal(out[0] is times and seen["mwt"] is sr and out[1] is mx and out[2] is mxn and out[3] is coordval and out[4] is map4d and out[5] is od))


@contract("scan._read_event_waveform_data", "C20 C16 C27", "signal/scan.py:QuakeScan._read_event_waveform_data", ["archive and amplitude padding by their contracts"])
def read_event_waveform_data():
    w, m, s = scan()
    mw, p, q, ap, aq, pc, qc = reals("mw", "pre", "post", "apre", "apost", "pcut", "qcut")
    C.assume(z3.And(mw.e > 0, p.e >= 0, q.e >= 0, ap.e >= 0, aq.e >= 0, pc.e > 0, qc.e > 0))
    s.marginal_window, s.pre_pad, s.post_pad = mw, p, q
    seen = {}
    mtt, ftt = reals("mtt", "ftt")
    s.lut = Ns(max_traveltime=mtt, fraction_tt=ftt)
    mags = C.choose(2, "magnitudes")
    s.mags = Ns(amp=Ns(pad=lambda *a: seen.__setitem__("pad", a) or (ap, aq))) if mags else None
    cut = C.choose(2, "cut")
    s.pre_cut, s.post_cut = (pc, qc) if cut else (None, None)
    st = object()
    s.archive = Ns(read_waveform_data=lambda *a: seen.__setitem__("read", a) or st)
    b, e = utc("b"), utc("e")
    r = s._read_event_waveform_data(b, e)
    oblige("what was read", z3.BoolVal(r is st))
    rb, re_, x, y = seen["read"]
    oblige("the window asked for", z3.And(rb.e == b.e, re_.e == e.e))
    if mags:
        oblige("amplitude padding for this window and table", z3.And(*[rl(num(u).e) == v.e for u, v in zip(seen["pad"], (mw, mtt, ftt))]))
    x, y = rl(num(x).e), rl(num(y).e)
    oblige("never negative", z3.And(x >= 0, y >= 0))
    for got, own, amp, c, nm in ((x, p, ap, pc, "before"), (y, q, aq, qc, "after")):
        if mags:
            oblige(f"{nm}: enough for the amplitudes", mw.e + own.e + got >= amp.e)
        if cut:
            oblige(f"{nm}: enough for the cut waveforms", mw.e + own.e + got >= c.e)
        if not mags and not cut:
            oblige(f"{nm}: nothing more", got == 0)


@contract("scan._locate_events", "C16 C17 C20 C24 C27", "signal/scan.py:QuakeScan._locate_events",
          ["events, picker, magnitudes and writers by their contracts", "a window without usable data raises one of the three no-data exceptions"])
def locate_events():
    w, m, s, sr, k, ts = detector()
    n, = ints("n")
    C.assume(n.e >= 1)
    ut = w.module("quakemigrate.util")
    mw, pre, post = reals("mw", "pre_", "post_")
    C.assume(mw.e > 0)
    s.marginal_window = mw
    asked = []
    s.onset = Ns(pad=lambda x: asked.append(x) or (pre, post))
    trig = z3.Function("trigger_time", I, R)

    class Events:
        index = QSeq(n, lambda k: SNum(k))

        def iterrows(self):
            return QSeq(n, lambda k: (SNum(k), Row(SNum(k))))

        def sym_len(self):
            return SNum(n.e)

        @property
        def iloc(self):
            return QSeq(n, lambda k: Row(SNum(k)))

    class Row:
        def __init__(self, k):
            self.k = k
    kw = []
    m.read_triggered_events = lambda run, **a: kw.append((run, a)) or Events()
    s.run = object()
    have, fault = z3.Function("event_has_data", I, B), z3.Function("event_fault", I, I)
    inwin = z3.Function("in_window", I, B)
    tail = z3.Function("scan_result", I, I)
    locf = z3.Function("marginal_map", I, I)

    class Record:
        """what is done for each event, and to what"""

        def __init__(self):
            self.reads, self.maps, self.picks, self.mags, self.written, self.coa, self.coa4 = (QList() for _ in range(7))
            self.raw, self.real, self.wa = (QList() for _ in range(3))
    rec = Record()

    class Event:
        def __init__(self, mw_, row):
            self.mw, self.k, self.rec = mw_, row.k, rec
            self.trigger_time = UTC(trig(row.k.e))
            self.uid = "uid"
            self.data = None
            self.state = SNum(z3.IntVal(0))
            self.map4d = None
            self.magd = SNum(z3.IntVal(0))
            self.located = SNum(z3.IntVal(0))

        def add_waveform_data(self, d):
            self.data = d

        def add_compute_output(self, *a):
            self.out = a
            self.map4d = a[4]
            self.state = SNum(z3.IntVal(1))

        def in_marginal_window(self):
            oblige("the scan result is in before the window is checked", self.state.e == 1)
            return SBool(inwin(self.k.e))

        def trim2window(self):
            self.state = SNum(z3.IntVal(2))

        def write(self, run, lut):
            oblige("written for this run and table", z3.BoolVal(run is s.run and lut is s.lut))
            self.rec.written.append((self.k, self.state, self.located, self.picked, self.magd))
    m.Event = Event

    class Read:
        def __init__(self, rec):
            self.rec = rec

        def __call__(self, b, e):
            self.rec.reads.append((b, e))
            q = C.skolem("which")           # the event this window is for
            return Ns(b=b, e=e)
    class Scan:
        """reads and scans on behalf of the event at hand"""
    s._read_event_waveform_data = Read(rec)

    def compute(data, ev):
        oblige("an event is scanned with its own data", z3.BoolVal(ev.data is data))
        if C.decide(have(ev.k.e)):
            f = [SNum(z3.Function(f"scan_{q}", I, I)(ev.k.e)) for q in range(6)]
            return tuple(f)
        q = fault(ev.k.e)
        cls = ut.ArchiveEmptyException if C.decide(q == 0) else ut.DataGapException if C.decide(q == 1) else ut.DataAvailabilityException
        x = cls.__new__(cls)
        Exception.__init__(x, "no data")
        x.msg = "no data"
        raise x
    s._compute = compute

    def locate(ev):
        ev.located = SNum(locf(ev.k.e))
        oblige("located from the trimmed scan", ev.state.e == 2)
        ev.rec.maps.append((ev.k, ev.state))
        return ev.located
    s._calculate_location = locate

    def coa(run, mp, ev, marginalised=False):
        oblige("maps are written for this run", z3.BoolVal(run is s.run))
        if marginalised:
            ev.rec.coa.append((ev.k, mp))
        else:
            oblige("the whole map is written before it is trimmed", ev.state.e == 1)
            ev.rec.coa4.append((ev.k, mp))
    m.write_coalescence = coa

    class Picker:
        def pick_phases(self, ev, lut, run):
            oblige("picked on a located event", ev.located.e == locf(ev.k.e))
            ev.picked = SNum(z3.IntVal(1))
            return ev, None
    s.picker = Picker()

    class Mags:
        def calc_magnitude(self, ev, lut, run):
            oblige("magnitudes after picking", ev.picked.e == 1)
            ev.magd = SNum(z3.IntVal(1))
            return ev, None
    with_mags = C.choose(2, "magnitudes")
    s.mags = Mags() if with_mags else None
    s.lut = object()
    s.write_marginal_coalescence = C.choose(2, "write marginal map") == 1
    s.write_coalescence = with_mags == 1
    s.plot_event_summary = s.plot_event_video = False
    want = [("raw",), ("real",), ("wa",), (), ("raw", "wa"), ("raw", "real", "wa")][C.choose(6, "cut waveforms") if s.write_marginal_coalescence else 0]
    s.write_cut_waveforms, s.write_real_waveforms, s.write_wa_waveforms = (k_ in want for k_ in ("raw", "real", "wa"))
    s.cut_waveform_format, s.pre_cut, s.post_cut = object(), object(), object()
    s.real_waveform_units, s.wa_waveform_units = object(), object()

    def cut(run, ev, file_format, pre_cut=0.0, post_cut=0.0, waveform_type="raw", units="displacement"):
        oblige("cut waveforms with the asked-for margins, for events already written",
               z3.And(z3.BoolVal(pre_cut is s.pre_cut and post_cut is s.post_cut and run is s.run and file_format is s.cut_waveform_format), ev.located.e == locf(ev.k.e)))
        oblige("the units asked for this kind", z3.BoolVal(waveform_type == "raw" or units is {"real": s.real_waveform_units, "wa": s.wa_waveform_units}.get(waveform_type)))
        if waveform_type == "raw":
            ev.rec.raw.append(ev.k)
        elif waveform_type == "real":
            ev.rec.real.append(ev.k)
        elif waveform_type == "wa":
            ev.rec.wa.append(ev.k)
    m.write_cut_waveforms = cut
    s._locate_events(starttime="a", endtime="b")
    oblige("the triggered events of this run and span", z3.BoolVal(kw[0][0] is s.run and kw[0][1] == {"starttime": "a", "endtime": "b"}))
    oblige("padding asked of the onset for four marginal windows", rl(num(asked[0]).e) == 4 * mw.e)
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    oblige("every triggered event is read", z3.And(z3.BoolVal(rec.reads.seq() is not None), iv(rec.reads.sym_len()) == n.e))
    rb, re_ = rec.reads.seq().get(i)
    oblige("its window: two marginal windows either side of the trigger, plus the padding",
           z3.And(rb.e == trig(i) - 2 * mw.e - pre.e, re_.e == trig(i) + 2 * mw.e + post.e))
    keep = z3.And(have(i), inwin(i))

    def only(nm, q, want):
        ps = q.parts()
        oblige(f"{nm}: in one place", z3.BoolVal(len(ps) == 1 and hasattr(ps[0], "guard")))
        oblige(f"{nm}: one chance per event", iv(ps[0].n) == n.e)
        oblige(f"{nm}: exactly the events that have data" + (" whose origin time falls in the marginal window" if want is keep else ""), ps[0].guard(i) == want)
        return ps[0].elem(i)
    k_, st, loc, pk, mg = only("written", rec.written, keep)
    oblige("written: the event itself, trimmed, located, picked, and with a magnitude when asked for",
           z3.And(k_.e == i, st.e == 2, num(loc).e == locf(i), num(pk).e == 1, num(mg).e == with_mags))
    k_, st = only("located", rec.maps, keep)
    for kind, q in (("raw", rec.raw), ("real", rec.real), ("wa", rec.wa)):
        if kind in want:
            oblige(f"{kind} waveforms of the event", only(f"{kind} waveforms", q, keep).e == i)
        else:
            oblige(f"no {kind} waveforms unless asked for", z3.BoolVal(not q.parts()))
    for nm, on, q, guard, val in (("marginal maps", s.write_marginal_coalescence, rec.coa, keep, locf(i)), ("maps", s.write_coalescence, rec.coa4, have(i), z3.Function("scan_4", I, I)(i))):
        if on:
            k_, mp = only(nm, q, guard)
            oblige(f"{nm}: of that event", z3.And(k_.e == i, num(mp).e == val))
        else:
            oblige(f"{nm}: none unless asked for", z3.BoolVal(not q.parts()))
