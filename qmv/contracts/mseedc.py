"""Contracts on the continuous coalescence output (quakemigrate.io.scanmseed): C08."""
from __future__ import annotations

import re

import z3

from .. import core, loader
from ..arr import Arr, iv
from ..core import C, SNum, num, oblige
from ..loops import Comp, QList
from ..models.obspy_m import DAY, JUL, UTC, YEAR, Stream, Trace
from .base import contract
from .corelib import ints
from .gridc import reals
from .utilc import utc

HALF = z3.Q(1, 2)
STATIONS = ["COA", "COA_N", "X", "Y", "Z"]
INT32 = 2 ** 31 - 1


class Where:
    """a path below the run's folder"""

    def __init__(self, parts=(), suffix=None):
        self.parts_, self.suffix_ = tuple(parts), suffix

    def __truediv__(self, p):
        return Where(self.parts_ + (p,), self.suffix_)

    def with_suffix(self, s):
        return Where(self.parts_, s)

    def mkdir(self, **k):
        pass

    def _qm_str(self):
        return self

    def day(self):
        """year and day of the year of the file's name"""
        if len(self.parts_) != 3 or self.parts_[:2] != ("detect", "scanmseed") or not isinstance(self.parts_[2], str):
            raise core.Unsupported("scan output kept elsewhere")
        name, suf = self.parts_[2], self.suffix_
        if suf is None and name.endswith(".scanmseed"):
            name, suf = name[:-10], ".scanmseed"
        oblige("file type", z3.BoolVal(suf == ".scanmseed"))
        m = re.fullmatch("\u27e8(\\d+)\u27e9(_)?(?:\u27e8(\\d+)\u27e9)?", name)
        v = [C.markers[int(g)][1:] for g in (m.group(1), m.group(3)) if g] if m else []
        if len(v) == 2 and m.group(2) and v[0][1] == "" and v[1][1] in ("03d", "03", "0>3d", "0>3"):
            return num(v[0][0]).e, num(v[1][0]).e
        if len(v) == 1 and not m.group(2) and v[0][1] == "%Y_%j" and isinstance(v[0][0], UTC):
            d = v[0][0].day_
            return YEAR(d), JUL(d)
        raise core.Unsupported("file named in another way")


class Handle:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def world(files, fail=False):
    w = loader.World()
    m = w.module("quakemigrate.io.scanmseed")

    class Bad(Exception):
        pass

    class St(Stream):
        def write(self, f, format=None, encoding=None, **k):
            if not isinstance(f, (Handle, Where)) or k or format != "MSEED":
                raise core.Unsupported("written in another way")
            if fail and encoding == "STEIM2":
                raise Bad("not representable in STEIM2")
            oblige("a lossless integer encoding", z3.BoolVal(encoding in ("STEIM1", "STEIM2", "INT32")))
            p = f.path if isinstance(f, Handle) else f
            files.append((p.day(), [t.copy() for t in self.traces]))
    m.Stream = St
    m.InternalMSEEDError = Bad

    def op(p, mode="r"):
        if mode != "wb" or not isinstance(p, Where):
            raise core.Unsupported("file opened in another way")
        return Handle(p)
    m.open = op
    return w, m, St


def window(n):
    """what a scan of n samples gives, within the range of what can be stored"""
    coa, con = Arr.symbol("coa", (n,)), Arr.symbol("con", (n,))
    xyz = Arr.symbol("xyz", (n, 3))
    return coa, con, xyz


def append_at(f, km, fail):
    return contract(f"scanmseed.append: {f} Hz", "C08", "io/scanmseed.py:ScanmSEED.append io/scanmseed.py:ScanmSEED.write io/scanmseed.py:ScanmSEED._data2int".split(),
                    [f"sampling rate {f} Hz", "windows follow on each other and last at most a day; the stream in memory holds samples of one day, "
                     "not its last one (this is proved to hold again afterwards)", "ObsPy's merge, trim, slice and MSEED encoding by their contracts"])(lambda: append(f, km, fail))


def append(f, km, fail):
    """f samples per second, positions in km or m, STEIM2 able to encode or not"""
    perday = DAY * f
    cont = C.choose(2, "continuous write") == 1
    fresh = C.choose(2, "nothing in memory") == 1
    files = []
    w, m, St = world(files, fail)
    d0 = z3.Int("day")
    C.assume(JUL(d0) != JUL(d0 + 1))        # calendar
    n, k = ints("n", "k")
    # grid positions, in samples after the start of day d0: in memory [a, b), the new window [b, b + n)
    a, b = z3.Ints("a b")
    C.assume(z3.And(0 <= a, a <= b, b < perday, n.e >= 1, n.e <= perday, (a == b) if fresh else a < b))
    at = lambda i: UTC(z3.ToReal(d0) * DAY + z3.ToReal(z3.IntVal(i) if isinstance(i, int) else i) / f)
    sr = SNum(z3.RealVal(f))
    s = object.__new__(m.ScanmSEED)
    s.run, s.continuous_write, s.sampling_rate, s.written = type("Run", (), {"path": Where()})(), cont, sr, False
    V = {c: z3.Function("value_" + c, z3.IntSort(), z3.IntSort()) for c in STATIONS}
    s.stream = St()
    if not fresh:
        for c in STATIONS:
            s.stream.append(Trace(Arr.make((SNum(b - a),), lambda ix, c=c: SNum(V[c](a + ix[0])), "int32"),
                                  {"network": "NW", "station": c, "sampling_rate": sr, "starttime": at(a)}))
    if not fresh and C.choose(2, "already written"):
        s.written = True
    coa, con, xyz = window(n)
    given = {c: A.copy().reader() for c, A in zip(STATIONS, (coa, con, xyz[:, 0], xyz[:, 1], xyz[:, 2]))}
    ucf = 1000 if km else 1
    end = b + n.e
    cross = C.decide(end > perday)
    full = False if cross else C.decide(end == perday)
    oblige("the day the window begins in", at(a).day_ == d0)
    oblige("the day the window ends in", at(end - 1).day_ == (d0 + 1 if cross else d0))
    s.append(at(b), coa, con, xyz, ucf)

    # what every sample (position p) holds
    p = C.skolem("p")
    fac = dict(zip(STATIONS, (100000, 100000, 10 ** 6, 10 ** 6, 1000 * ucf)))

    def check(traces, lo, hi, label):
        """traces hold the samples at positions lo..hi"""
        oblige(f"{label}: one trace per channel", z3.BoolVal(sorted(t.stats.station for t in traces) == STATIONS))
        for t in traces:
            c = t.stats.station
            oblige(f"{label}: all samples of the day so far, and no other", z3.And(
                t.stats.starttime.e == at(lo).e, num(t.stats.npts).e == hi - lo, t.stats.sampling_rate.e == f))
            got = num(t.data.reader()((p - lo,))).e
            got = z3.ToReal(got) if got.sort() == core.I else got
            with C.under(z3.And(p >= lo, p < hi)):
                oblige(f"{label}: samples stored before are kept", z3.Implies(p < b, got == z3.ToReal(V[c](p))))
                with C.under(p >= b):
                    x = given[c]((p - b,)).e
                    if c in ("COA", "COA_N"):
                        C.assume(x >= -21474)
                        x = z3.If(x > 21474, z3.RealVal(21474), x)
                    else:
                        far = 2000000 if c == "Z" and not km else 2000      # degrees, km or m
                        C.assume(z3.And(x >= -far, x <= far))
                    y = x * fac[c]
                    oblige(f"{label}: every new sample within half a unit of the stored precision", z3.And(got - y <= HALF, y - got <= HALF))
                    oblige(f"{label}: stored numbers fit 32 bits", z3.And(got <= INT32, got >= -INT32))
    mine, nxt = [], []
    for day, t in files:
        oblige("a file holds data", z3.BoolVal(len(t) > 0))
        second = C.decide(t[0].stats.starttime.e >= at(perday).e)
        (nxt if second else mine).append(t)
        d = d0 + 1 if second else d0
        oblige("every file is named after the day of its samples", z3.And(day[0] == YEAR(d), day[1] == JUL(d)))
    if cross or full:
        oblige("the finished day is written", z3.BoolVal(bool(mine)))
        check(mine[-1], a, z3.IntVal(perday), "finished day")
    elif mine:
        check(mine[-1], a, end, "day being filled")
    for t in nxt:
        oblige("the next day only begins in this window", z3.BoolVal(bool(cross)))
        check(t, z3.IntVal(perday), end, "next day")
    if full:
        oblige("nothing of the finished day stays in memory", z3.BoolVal(len(s.stream.traces) == 0))
    else:
        check(s.stream.traces, z3.IntVal(perday) if cross else a, end, "in memory")
        if cross:
            oblige("what stays in memory does not reach the end of its day", end < 2 * perday)
    now = nxt if cross else mine
    oblige("marked as written only when everything in memory is in its file", z3.BoolVal(full or bool(now) or not s.written))
    if cont:
        oblige("written at every step when asked to", z3.BoolVal(full or bool(now)))


for f_, km_, fail_ in ((1, True, False), (50, False, True), (100, True, False)):
    append_at(f_, km_, fail_)


@contract("scanmseed.read_scanmseed: days", "C08 C11", "io/scanmseed.py:read_scanmseed",
          ["reading and merging MSEED files is ObsPy's: what is in a day's file and within the times asked for"])
def read_days():
    w = loader.World()
    m = w.module("quakemigrate.io.scanmseed")
    have = z3.Function("day_file_exists", core.I, core.B)
    s, e = utc("s"), utc("e")
    C.assume(s.e <= e.e)
    pad, = reals("pad")
    C.assume(pad.e >= 0)
    lo, hi = s.e - pad.e, e.e + pad.e
    dayof = lambda x: core.floor_(core.rdiv(x, z3.RealVal(DAY)))
    t0, n, f = z3.Real("t0"), z3.Int("n"), z3.Int("f")
    C.assume(z3.And(n >= 1, f >= 1))
    F = {c: z3.Function("file_" + c, core.I, core.I) for c in STATIONS}
    got = {}

    class Part:
        def __init__(self, day):
            self.day = day

    class St(Stream):
        """collects what is read, day by day"""

        def __init__(self, traces=None):
            super().__init__(traces)
            self.read = QList()

        def __iadd__(self, o):
            if not isinstance(o, Part):
                raise core.Unsupported("data collected in another way")
            self.read.append(SNum(o.day))
            return self

        def __bool__(self):
            if self.traces:
                return True
            for p in self.read.parts():
                if not isinstance(p, Comp):
                    return True
                if C.decide(C.fresh("some", core.B)):
                    q = C.skolem("q")
                    C.assume(z3.And(q >= 0, q < iv(p.n), p.guard(q)))
                    return True
                C.foralls.append(lambda q, p=p: z3.Implies(z3.And(q >= 0, q < iv(p.n)), z3.Not(p.guard(q))))
            return False

        def merge(self, method=0, **k):
            if method != -1 or k:
                raise core.Unsupported("merged in another way")
            got["read"] = self.read
            if not self:
                return self
            # the stored samples, those of each quantity in its own channel; channels in any order
            names = STATIONS if C.choose(2, "order") else STATIONS[::-1]
            self.traces = [Trace(Arr.make((SNum(n),), lambda ix, c=c: SNum(F[c](ix[0])), "int32"),
                                 {"network": "NW", "station": c, "sampling_rate": SNum(z3.ToReal(f)), "starttime": UTC(t0)}) for c in names]
            return self

        def select(self, **k):
            return St(Stream(self.traces).select(**k).traces)

    def read(path, starttime=None, endtime=None, format=None, **k):
        if k or format not in (None, "MSEED") or not isinstance(path, Where):
            raise core.Unsupported("read in another way")
        y, j = path.day()
        d = next((a.arg(0) for a in (y, j) if z3.is_app(a) and a.num_args() == 1), None)
        if d is None:
            raise core.Unsupported("name of the file")
        oblige("files are named after a day", z3.And(y == YEAR(d), j == JUL(d)))
        oblige("nothing in the span is left out", z3.And(starttime.e <= lo, endtime.e >= hi))
        oblige("nothing far outside it is read", z3.And(starttime.e >= lo - 1, endtime.e <= hi + 1))
        if not C.decide(have(d)):
            raise FileNotFoundError(path)
        return Part(d)
    m.Stream, m.read = St, read
    run = type("Run", (), {"path": Where()})()
    km = C.choose(2, "units") == 1
    ucf = 1000 if km else 1
    k = C.skolem("k")
    inside = z3.And(k >= dayof(lo), k <= dayof(hi))
    try:
        df, stats = m.read_scanmseed(run, s, e, pad, ucf)
    except Exception as x:
        if type(x).__name__ != "NoScanMseedDataException":
            raise
        C.skolems.append(k - dayof(lo))
        oblige("no data only when no day of the span has a file", z3.Implies(inside, z3.Not(have(k))))
        return
    parts = got["read"].parts()
    if len(parts) != 1 or not isinstance(parts[0], Comp):
        raise core.Unsupported("the days are not read in one loop")
    p = parts[0]
    j = k - dayof(lo)
    oblige("the file of every day of the span is read", z3.Implies(z3.And(inside, have(k)), z3.And(
        j >= 0, j < iv(p.n), p.guard(j), num(p.elem(j)).e == k)))
    a, b = C.skolem("a"), C.skolem("b")
    oblige("each once, in order", z3.Implies(z3.And(a >= 0, a < b, b < iv(p.n), p.guard(a), p.guard(b)), num(p.elem(a)).e < num(p.elem(b)).e))
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n))
    fac = dict(zip(STATIONS, (100000, 100000, 10 ** 6, 10 ** 6, 1000 * ucf)))
    oblige("as many rows as stored samples", iv(df.idx.shape[0]) == n)
    for c in STATIONS:
        v = num(df[c].arr[SNum(i)]).e
        oblige("every column holds the stored values of its own quantity, in its own unit", (v if v.sort() == core.R else z3.ToReal(v)) * fac[c] == z3.ToReal(F[c](i)))
    oblige("at the times they were stored for", df["DT"].arr[SNum(i)].e == t0 + core.rdiv(z3.ToReal(i), z3.ToReal(f)))
    oblige("the header of the data", z3.And(stats.starttime.e == t0, num(stats.npts).e == n, stats.sampling_rate.e == z3.ToReal(f)))


@contract("scanmseed.empty", "C08 C07", "io/scanmseed.py:ScanmSEED.empty", ["append by its own contract"])
def empty():
    w, m, St = world([])
    s = object.__new__(m.ScanmSEED)
    f = [1, 20, 50, 100][C.choose(4, "rate")]
    s.sampling_rate = SNum(z3.RealVal(f))
    n, i = ints("n", "i")
    C.assume(z3.And(n.e >= 1, i.e >= 0))
    st = utc("st")
    seen = []
    s.append = lambda *a: seen.append(a)
    step = SNum(z3.ToReal(n.e) / f)
    ucf = SNum(z3.Real("ucf"))
    s.empty(st, step, i, "nothing", ucf)
    oblige("one window appended", z3.BoolVal(len(seen) == 1))
    t, coa, con, xyz, u = seen[0]
    oblige("at its place in the scan", z3.And(t.e == st.e + step.e * z3.ToReal(i.e), num(u).e == ucf.e))
    oblige("as long as a window with data", z3.And(iv(coa.shape[0]) == n.e, iv(con.shape[0]) == n.e, iv(xyz.shape[0]) == n.e, iv(xyz.shape[1]) == 3))
    p = C.skolem("p")
    C.assume(z3.And(p >= 0, p < n.e))
    P = SNum(p)
    oblige("no coalescence anywhere in it", z3.And(num(coa[P]).e == 0, num(con[P]).e == 0, *[num(xyz[P, q]).e == 0 for q in range(3)]))
