"""Contracts on the sample/time helpers (quakemigrate.util): C23."""
from __future__ import annotations

import z3

from .. import core, loader
from ..arr import Arr, iv
from ..core import B, C, I, R, SBool, SNum, ex, num, oblige, rl, tobool
from ..models.obspy_m import UTC, Stream, Trace
from .base import contract
from .corelib import ints
from .gridc import reals

HALF = z3.Q(1, 2)
RATES = [1, 2, 4, 5, 8, 10, 20, 25, 40, 50, 100, 125, 200, 250, 500, 1000]


def util():
    w = loader.World()
    return w.module("quakemigrate.util")


def rate(name="rate"):
    """a sampling rate that is a whole number of Hz, given as a float"""
    n = z3.Int(name)
    C.assume(n >= 1)
    return SNum(z3.ToReal(n)), n


def utc(name):
    return UTC(z3.Real(name))


@contract("util.time2sample", "C23 C05 C16", "util.py:time2sample", ["sampling rates are whole numbers of Hz"])
def time2sample():
    u = util()
    sr, n = rate()
    t, s = reals("t", "s")
    a = num(u.time2sample(t, sr))
    oblige("the result is an integer", z3.BoolVal(a.isint))
    x = t.e * z3.ToReal(n)
    oblige("nearest integer to time * sampling rate", z3.And(z3.ToReal(a.e) - x <= HALF, x - z3.ToReal(a.e) <= HALF))
    C.assume(s.e >= t.e)
    b = num(u.time2sample(s, sr))
    y = s.e * z3.ToReal(n)
    core.lemma("products keep order", [R, R, I], lambda p, q, m: z3.Implies(z3.And(p <= q, m >= 1), p * z3.ToReal(m) <= q * z3.ToReal(m)),
               (t.e, s.e, n))
    oblige("monotone in time", a.e <= b.e)
    k = z3.Int("k")
    C.assume(t.e * z3.ToReal(n) == z3.ToReal(k))
    oblige("a time on a sample gives that sample", a.e == k)


@contract("util.trim2sample", "C23 C05", "util.py:trim2sample", ["sampling rates divide 1000 Hz (whole milliseconds per sample)"])
def trim2sample():
    u = util()
    f = RATES[C.choose(len(RATES), "rate")]
    t, s = reals("t", "s")
    sr = SNum(z3.RealVal(f))
    a = num(u.trim2sample(t, sr)).e
    oblige("a whole number of samples", z3.IsInt(a * f))
    oblige("not shorter than the time", a >= t.e)
    oblige("less than one sample longer", a * f < t.e * f + 1)
    C.assume(s.e >= t.e)
    b = num(u.trim2sample(s, sr)).e
    oblige("a whole number of samples (later time)", z3.IsInt(b * f))
    oblige("not shorter than the later time", b >= s.e)
    core.lemma("whole numbers keep the order of the times they round up", [I, I, R, R],
               lambda p, q, x, y: z3.Implies(z3.And(z3.ToReal(p) < x + 1, z3.ToReal(q) >= y, y >= x), p <= q),
               (z3.ToInt(a * f), z3.ToInt(b * f), t.e * f, s.e * f))
    oblige("monotone in time", a <= b)


def trace(u, tag="", n=None):
    """an arbitrary trace"""
    n = n if n is not None else ints("n" + tag)[0]
    C.assume(n.e >= 1)
    d = Arr.symbol("data" + tag, (n,))
    d.cell.readonly = True
    sr, k = rate("rate" + tag)
    return Trace(d, {"sampling_rate": sr, "starttime": utc("start" + tag)}), d, n, k


@contract("util.upsample", "C23", "util.py:upsample")
def upsample():
    u = util()
    tr, d, n, k = trace(u)
    dr = d.reader()
    F = C.choose(7, "factor") + 2
    C.assume(n.e >= 2)
    st, en = tr.stats.starttime, tr.stats.endtime
    out = u.upsample(tr, F, st, en)
    r = out.data.reader()
    i = C.skolem("i")
    f = C.choose(F, "phase")
    C.assume(z3.And(i >= 0, i < n.e - (1 if f else 0)))
    oblige("length", iv(out.data.shape[0]) == (n.e - 1) * F + 1)
    oblige("rate", out.stats.sampling_rate.e == F * z3.ToReal(k))
    oblige("start time kept", out.stats.starttime.e == st.e)
    v = num(r((i * F + f,))).e
    if f == 0:
        oblige("original samples keep their time", v == num(dr((i,))).e)
    else:
        d0, d1 = num(dr((i,))).e, num(dr((i + 1,))).e
        w = z3.Q(F - f, F) * d0 + z3.Q(f, F) * d1
        tol = z3.Q(1, 10 ** 12) * (z3.If(d0 >= 0, d0, -d0) + z3.If(d1 >= 0, d1, -d1))
        oblige("linear interpolation between samples", z3.And(v - w <= tol, w - v <= tol))


@contract("util.shift_to_sample", "C23", "util.py:shift_to_sample", ["start times have whole microseconds"])
def shift_to_sample():
    u = util()
    tr, d, n, k = trace(u)
    s0 = tr.stats.starttime.e
    C.assume(z3.IsInt(s0 * 1000000))
    st = Stream([tr])
    out = u.shift_to_sample(st, interpolate=False)
    oblige("a new stream; the input is not moved", z3.And(z3.BoolVal(out is not st and out.traces[0] is not tr), tr.stats.starttime.e == s0))
    s1 = out.traces[0].stats.starttime.e
    q = z3.ToReal(k)
    oblige("moved by at most half a sample", z3.And((s1 - s0) * q <= HALF, (s0 - s1) * q <= HALF))
    a, b = d.reader(), out.traces[0].data.reader()
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    oblige("samples unchanged", z3.And(iv(out.traces[0].data.shape[0]) == n.e, num(a((i,))).e == num(b((i,))).e))


@contract("util.shift_to_sample (on the grid)", "C23", "util.py:shift_to_sample", ["start times have whole microseconds",
          "sampling rates divide 1000 Hz"])
def shift_to_sample_grid():
    u = util()
    f = RATES[C.choose(len(RATES), "rate")]
    sec, us = z3.Ints("sec us")
    C.assume(z3.And(us >= 0, us < 1000000))
    s0 = z3.ToReal(sec) + z3.ToReal(us) / 1000000
    n, = ints("n")
    C.assume(n.e >= 1)
    d = Arr.symbol("data", (n,))
    tr = Trace(d, {"sampling_rate": SNum(z3.RealVal(f)), "starttime": UTC(s0)})
    s1 = u.shift_to_sample(Stream([tr]), interpolate=False).traces[0].stats.starttime.e
    oblige("on the sample grid", z3.IsInt((s1 - z3.ToReal(sec)) * f))


@contract("util.shift_to_sample (interpolation)", "C23", "util.py:shift_to_sample", ["start times have whole microseconds",
          "sampling rates divide 1000 Hz", "Trace.interpolate gives the waveform at the times asked for (ObsPy)"])
def shift_to_sample_interpolated():
    u = util()
    f = [1, 20, 50, 100, 250][C.choose(5, "rate")]
    sec, us = z3.Ints("sec us")
    C.assume(z3.And(us >= 0, us < 1000000))
    s0 = z3.ToReal(sec) + z3.ToReal(us) / 1000000
    n, = ints("n")
    C.assume(n.e >= 2)
    d = Arr.symbol("data", (n,))
    d.cell.readonly = True
    dr = d.reader()
    tr = Trace(d, {"sampling_rate": SNum(z3.RealVal(f)), "starttime": UTC(s0)})
    st = Stream([tr])
    out = u.shift_to_sample(st, interpolate=True)
    o, = out.traces
    s1 = o.stats.starttime.e
    oblige("a new stream; the input is not moved", z3.And(z3.BoolVal(out is not st and o is not tr and tr.data is d), tr.stats.starttime.e == s0, tr.stats.npts.e == n.e))
    oblige("on the sample grid", z3.IsInt((s1 - z3.ToReal(sec)) * f))
    oblige("moved by at most half a sample", z3.And((s1 - s0) * f <= HALF, (s0 - s1) * f <= HALF))
    oblige("as many samples at the same rate", z3.And(iv(o.data.shape[0]) == n.e, o.stats.sampling_rate.e == f, num(o.stats.npts).e == n.e))
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    v = num(o.data.reader()((i,))).e
    on = z3.IsInt((s0 - z3.ToReal(sec)) * f)
    made = C.extra_state.get("interp", [])
    if not made:
        oblige("a trace on the grid is left alone", z3.And(on, v == num(dr((i,))).e, s1 == s0))
        return
    oblige("interpolated only off the grid, once", z3.And(z3.Not(on), z3.BoolVal(len(made) == 1)))
    g = made[0][1]
    t = s1 + z3.ToReal(i) / f
    e0 = s0 + z3.ToReal(n.e - 1) / f
    oblige("each sample is the waveform at its own time", z3.Implies(z3.And(t >= s0, t <= e0), v == g(t)))
    oblige("a time just outside the trace gets the nearest value there is", z3.And(
        z3.Implies(t < s0, v == g(t + z3.Q(1, f))), z3.Implies(t > e0, v == g(t - z3.Q(1, f)))))


@contract("util.upsample (padded window)", "C23", "util.py:upsample", ["sampling rates 1, 20, 50, 100 Hz and factors 2, 3, 5"])
def upsample_padded():
    u = util()
    f = [1, 20, 50, 100][C.choose(4, "rate")]
    F = [2, 3, 5][C.choose(3, "factor")]
    n, = ints("n")
    C.assume(n.e >= 2)
    d = Arr.symbol("data", (n,))
    d.cell.readonly = True
    dr = d.reader()
    tr = Trace(d, {"sampling_rate": SNum(z3.RealVal(f)), "starttime": utc("start")})
    s0 = tr.stats.starttime.e
    a, b = utc("from"), utc("to")
    e0 = tr.stats.endtime.e
    # a window that touches the trace at both ends, up to one sample wider or narrower
    C.assume(z3.And((a.e - s0) * f > -1, (a.e - s0) * f < 1, (b.e - e0) * f > -1, (b.e - e0) * f < 1))
    C.assume((b.e - a.e) * f >= 1)
    out = u.upsample(tr, F, a, b)
    s1 = out.stats.starttime.e
    N = iv(out.data.shape[0])
    oblige("rate", out.stats.sampling_rate.e == F * f)
    eps = z3.Q(1, 50000)
    oblige("begins with the window, less than a new sample later", z3.And(s1 >= a.e - eps, (s1 - a.e) * F * f < 1))
    e1 = s1 + z3.ToReal(N - 1) / (F * f)
    oblige("ends with the window, less than a new sample earlier", z3.And(e1 <= b.e + eps, (b.e - e1) * F * f < 1))
    near = z3.Q(1, 200000)
    x, y = (s0 - a.e) * F * f, (b.e - e0) * F * f
    off = lambda v: v - z3.ToReal(z3.ToInt(v + HALF))
    oblige("a window that begins on a new sample, give or take the precision of a time, begins the trace",
           z3.Implies(z3.And(off(x) <= near * F * f, off(x) >= -near * F * f), z3.And(s1 - a.e <= near, a.e - s1 <= near)))
    oblige("a window that ends on a new sample, give or take the precision of a time, ends the trace",
           z3.Implies(z3.And(off(y) <= near * F * f, off(y) >= -near * F * f), z3.And(e1 - b.e <= near, b.e - e1 <= near)))
    oblige("the input trace is left alone", z3.And(z3.BoolVal(tr.data is d and out.stats is not tr.stats), tr.stats.starttime.e == s0,
                                                     tr.stats.sampling_rate.e == f, num(tr.stats.npts).e == n.e))
    q = C.skolem("q")
    C.assume(z3.And(q >= 0, q < N))
    tq, vq = s1 + z3.ToReal(q) / (F * f), num(out.data.reader()((q,))).e
    oblige("before the trace its first value", z3.Implies(tq < s0, vq == num(dr((z3.IntVal(0),))).e))
    oblige("after the trace its last value", z3.Implies(tq > e0, vq == num(dr((n.e - 1,))).e))
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    t = s0 + z3.ToReal(i) / f
    C.assume(z3.And(t >= a.e, t <= b.e))
    j = z3.ToInt((t - s1) * (F * f))
    oblige("original sample times lie on the new samples", z3.ToReal(j) == (t - s1) * (F * f))
    oblige("and inside the new trace", z3.And(j >= 0, j < N))
    oblige("with their value", num(out.data.reader()((j,))).e == num(dr((i,))).e)


@contract("util.decimate", "C23", "util.py:decimate", ["ObsPy detrend, taper and filter keep start time, rate and length; Trace.decimate keeps every n-th sample"])
def decimate():
    u = util()
    n, F, t = ints("n", "F", "target")
    C.assume(z3.And(n.e >= 1, F.e >= 1, t.e >= 1))
    d = Arr.symbol("data", (n,))
    d.cell.readonly = True
    tr = Trace(d, {"sampling_rate": SNum(z3.ToReal(F.e * t.e)), "starttime": utc("start")})
    core.lemma("quotient of a product", [I, I], lambda a, b: z3.Implies(z3.And(a >= 1, b >= 1), core.rdiv(z3.ToReal(a * b), z3.ToReal(b)) == z3.ToReal(a)),
               (F.e, t.e), (t.e, F.e))
    out = u.decimate(tr, SNum(z3.ToReal(t.e)))
    oblige("start time kept", out.stats.starttime.e == tr.stats.starttime.e)
    oblige("rate is the target rate", out.stats.sampling_rate.e == z3.ToReal(t.e))
    oblige("a new trace; the input keeps its rate, start and samples", z3.And(z3.BoolVal(out is not tr and tr.data is d), tr.stats.sampling_rate.e == z3.ToReal(F.e * t.e), tr.stats.npts.e == n.e))
    m = iv(out.data.shape[0])
    oblige("one sample every F", z3.And((m - 1) * F.e < n.e, m * F.e >= n.e))
    proc = [k for o, k in C.extra_state.get("proc", []) if "freq" in k]
    oblige("one zero-phase low-pass at or below the new Nyquist frequency",
           z3.And(z3.BoolVal(len(proc) == 1 and proc[0].get("zerophase") is True), num(proc[0]["freq"]).e * 2 <= z3.ToReal(t.e)) if proc else z3.BoolVal(False))


@contract("util.resample", "C23", "util.py:resample", ["two traces stand for the stream", "rates 20, 50, 100 and 250 Hz, target 50 or 100 Hz"])
def resample():
    u = util()
    seen = []
    # callees by their contracts
    u.decimate = lambda trace, sr: seen.append(("d", trace, num(sr).e)) or _as_rate(trace, sr)
    u.upsample = lambda trace, f, a, b: seen.append(("u", trace, f)) or _as_rate(trace, trace.stats.sampling_rate * f)

    def _as_rate(trace, sr):
        t = Trace(trace.data.copy(), trace.stats)
        t.stats.sampling_rate = sr
        t.made = True
        return t
    rates = [20, 50, 100, 250]
    target = [50, 100][C.choose(2, "target")]
    up = [None, 2, 5][C.choose(3, "upfactor")]
    allow = bool(C.choose(2, "resample"))
    trs = []
    for q in range(2):
        f = rates[C.choose(4, f"rate{q}")]
        d = Arr.symbol(f"data{q}", (SNum(z3.Int(f"n{q}")),))
        C.assume(z3.Int(f"n{q}") >= 1)
        d.cell.readonly = True
        t = Trace(d, {"sampling_rate": SNum(z3.RealVal(f)), "starttime": utc(f"start{q}"), "station": f"S{q}"})
        t.f = f
        trs.append(t)
    st = Stream(trs)
    trims = []

    class S(Stream):
        def trim(self, starttime=None, endtime=None, **k):
            trims.append({"starttime": starttime, "endtime": endtime, **k})
            return self

        def copy(self):
            return S([t.copy() for t in self.traces])
    st = S(trs)
    a, b = utc("from"), utc("to")
    bad = [t for t in trs if t.f != target and t.f % target and allow and up is not None and (t.f * up) % target]
    try:
        out = u.resample(st, SNum(z3.RealVal(target)), allow, up, a, b)
    except Exception as e:
        if type(e).__name__ != "BadUpfactorException":
            raise
        oblige("the upfactor is refused only when it does not reach a multiple of the target rate", z3.BoolVal(bool(bad)))
        return
    oblige("an upfactor that cannot work is refused", z3.BoolVal(not bad))
    oblige("input stream untouched", z3.BoolVal(out is not st and len(st.traces) == 2 and all(x is y for x, y in zip(st.traces, trs))))
    for t in trs:
        oblige("input rates untouched", t.stats.sampling_rate.e == t.f)
    oblige("one output trace per input trace", z3.BoolVal(sorted(t.stats.station for t in out.traces) == ["S0", "S1"]))
    for t in trs:
        o, = [x for x in out.traces if x.stats.station == t.stats.station]
        can = t.f % target == 0 or (allow and up is not None)
        oblige("converted to the target rate whenever that is possible, otherwise left alone",
               o.stats.sampling_rate.e == (target if can else t.f))
        oblige("start time kept", o.stats.starttime.e == t.stats.starttime.e)
        oblige("converted only when the rate differs", z3.BoolVal(getattr(o, "made", False) == (can and t.f != target)))
    oblige("trimmed to the window once, outwards by less than a sample", z3.And(
        z3.BoolVal(len(trims) == 1 and trims[0].get("nearest_sample") is False),
        trims[0]["starttime"].e <= a.e, trims[0]["starttime"].e > a.e - z3.Q(1, 1000),
        trims[0]["endtime"].e >= b.e, trims[0]["endtime"].e < b.e + z3.Q(1, 1000)) if trims else z3.BoolVal(False))


@contract("calculate_mad", "C12", "util.py:calculate_mad", ["np.median as a function of the values it is given"])
def calculate_mad():
    w = loader.World()
    m = w.module("quakemigrate.util")
    n, = ints("n")
    C.assume(n.e >= 0)
    x = Arr.symbol("x", (n,), sort=R)
    s = SNum(z3.Const("s", R))
    scale = C.choose(2, "scale")
    out = m.calculate_mad(x, s) if scale else m.calculate_mad(x)
    if out != out:
        oblige("no value only for no data", n.e <= 0)
        return
    oblige("a value for any data", n.e > 0)
    out = out.at(0) if isinstance(out, Arr) and out.ndim else out
    med = m.np.median
    want = med(abs(x - med(x)))
    oblige("the scaled median of the distances from the median", num(out).e == want.e * (s.e if scale else z3.Q(14826, 10000)))


@contract("util.merge_stream", "C23 C22", "util.py:merge_stream", ["Stream.merge(method=-1) joins only consistent traces and warns about channels whose "
          "traces do not fit (ObsPy)", "up to three channels of up to two traces stand for a stream"])
def merge_stream():
    import warnings
    w = loader.World(models={"warnings": warnings})
    u = w.module("quakemigrate.util")
    bad = {}

    class St(Stream):
        def copy(self):
            return St([copy_of(t) for t in self.traces])

        __deepcopy__ = lambda self, memo: self.copy()

        def merge(self, method=0, **k):
            if k or method != -1:
                raise core.Unsupported("another way of merging")
            if any(hasattr(t, "given") for t in self.traces):
                oblige("the traces given are not the ones merged", z3.BoolVal(False))
            if any(bad[t.id] for t in self.traces):
                warnings.warn("Incompatible traces (sampling_rate, dtype, ...) with same id detected. Doing nothing.")
                return self
            got, order = {}, []
            for t in self.traces:
                if t.id not in got:
                    order.append(t.id)
                got.setdefault(t.id, []).append(t.origin)
            self.traces = []
            for i in order:
                j = Trace(None, {})
                j.stats = head(i)
                j.__dict__["joined"] = got[i]
                self.traces.append(j)
            return self

        def select(self, **k):
            return St(super().select(**k).traces)

    def head(i):
        t = Trace(None, {})
        for a, b in zip(("network", "station", "location", "channel"), i.split(".")):
            t.stats[a] = b
        return t.stats

    def make(i, q):
        t = Trace(None, {})
        t.stats = head(i)
        t.__dict__["given"] = (i, q)
        t.__dict__["origin"] = (i, q)
        return t

    def copy_of(t):
        n = Trace(None, {})
        n.stats = t.stats.copy()
        n.__dict__["origin"] = getattr(t, "origin", None)
        if hasattr(t, "joined"):
            n.__dict__["joined"] = t.joined
        return n
    u.Stream = St
    ids = ["NW.STA..HHZ", "NW.STA..HHN", "NW.OTH..HHZ"][:C.choose(4, "channels")]
    counts = [1 + C.choose(2, f"n{q}") for q in range(len(ids))]
    for i, c in zip(ids, counts):
        bad[i] = c == 2 and C.choose(2, "conflict " + i) == 1
    st = St([make(i, q) for q in range(2) for i, c in zip(ids, counts) if q < c])
    before = list(st.traces)
    out = u.merge_stream(st)
    oblige("a new stream", z3.BoolVal(out is not st and not any(a is b for a in out.traces for b in before)))
    oblige("the stream given keeps its traces", z3.BoolVal(len(st.traces) == len(before) and all(a is b for a, b in zip(st.traces, before))))
    for i, c in zip(ids, counts):
        mine = [t for t in out.traces if t.id == i]
        if not bad[i]:
            oblige("a channel without conflict is kept, all its traces merged with each other",
                   z3.BoolVal(len(mine) == 1 and sorted(getattr(mine[0], "joined", [])) == [(i, q) for q in range(c)]))
        else:
            oblige("a channel with a conflict is left out or left alone", z3.BoolVal(not any(len(getattr(t, "joined", [])) > 1 for t in mine)))
