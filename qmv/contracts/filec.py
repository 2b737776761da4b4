"""Contracts on the files a run reads and writes (quakemigrate.io): C24, C25, C11."""
from __future__ import annotations

import itertools
import re
import types

import z3

from .. import core, loader
from ..arr import Arr, iv
from ..core import C, SNum, num, oblige
from ..loops import Comp, QList
from ..models import pandas_m as pm
from ..models.obspy_m import DAY, FIELDS, JUL, UTC, YEAR, Date, TimeText
from .base import contract
from .corelib import ints
from .gridc import reals
from .utilc import utc


class Place:
    """A path: the file system only knows which files there are."""

    def __init__(self, parts=(), fs=None):
        self.p, self.fs = tuple(x for s in parts for x in str(s).split("/") if x), fs or {}

    def __truediv__(self, s):
        if not isinstance(s, str):
            raise core.Unsupported("path part")
        return Place(self.p + (s,), self.fs)

    joinpath = lambda self, *s: Place(self.p + s, self.fs)

    @property
    def name(self):
        return self.p[-1]

    @property
    def parent(self):
        return Place(self.p[:-1], self.fs)

    @property
    def suffix(self):
        i = self.name.rfind(".")
        return self.name[i:] if 0 < i < len(self.name) - 1 else ""

    @property
    def stem(self):
        return self.name[:len(self.name) - len(self.suffix)]

    def with_suffix(self, s):
        return Place(self.p[:-1] + (self.stem + s,), self.fs)

    def with_name(self, s):
        return Place(self.p[:-1] + (s,), self.fs)

    def mkdir(self, **k):
        if not (k.get("exist_ok") and k.get("parents")):
            raise core.Unsupported("directory made in another way")

    def open(self, mode="r"):
        return self.fs["open"](self, mode)

    def is_file(self):
        if "have" not in self.fs:
            raise core.Unsupported("is there such a file?")
        return self.fs["have"](self)

    exists = is_dir = is_file

    def resolve(self, *a):
        return self

    absolute = resolve

    def _qm_str(self):
        return self

    def __str__(self):
        return "/".join(self.p)

    def __eq__(self, o):
        return isinstance(o, Place) and self.p == o.p

    __hash__ = None


def place(x):
    """a path given as such or as text"""
    if isinstance(x, Place):
        return x
    if type(x) is str:
        return Place((x,))
    raise core.Unsupported("file named by another kind of object")


def day_of(name, prefix, suffix):
    """the day in PREFIX<year>_<day of year>SUFFIX"""
    m = re.fullmatch(re.escape(prefix) + "(.*?)" + re.escape(suffix), name)
    oblige("the name of the file", z3.BoolVal(m is not None))
    m = re.fullmatch("\u27e8(\\d+)\u27e9(_)?(?:\u27e8(\\d+)\u27e9)?", m.group(1))
    v = [C.markers[int(g)][1:] for g in (m.group(1), m.group(3)) if g] if m else []
    if len(v) == 2 and m.group(2) and v[0][1] == "" and v[1][1] in ("03d", "03", "0>3d", "0>3"):
        y, j = num(v[0][0]).e, num(v[1][0]).e
        if z3.is_app(y) and y.num_args() == 1 and y.decl().eq(YEAR):
            d = y.arg(0)
            oblige("files are named after one day", z3.And(y == YEAR(d), j == JUL(d)))
            return d
    if len(v) == 1 and not m.group(2) and v[0][1] == "%Y_%j" and isinstance(v[0][0], UTC):
        return v[0][0].day_
    raise core.Unsupported("file named in another way")


def run(fs=None, name="NAME", sub=("SUB", "")):
    r = types.SimpleNamespace()
    r.path, r.name = Place(("RUN",), fs), name
    r.subname = sub[C.choose(len(sub), "subname")]
    r._name, r.stage, r.loglevel = name, "locate", "info"
    return r


def below(r, *parts):
    return ("RUN",) + tuple(x for x in parts if x)


def text(nm, n, dtype="object"):
    """a column of texts, known by their numbers"""
    F = z3.Function(nm, core.I, core.I)
    return Arr.make((SNum(n),), lambda ix: SNum(F(ix[0])), dtype)


def numbers(nm, n):
    F = z3.Function(nm, core.I, core.R)
    return Arr.make((SNum(n),), lambda ix: SNum(F(ix[0])), "float64")


# ------------------------------------------------------------------ C25
GUESS = z3.Function("as_read_csv_guesses", core.I, core.I)
REQUIRED = ["Latitude", "Longitude", "Elevation", "Name"]


def asks_text(k, col):
    for opt in ("dtype", "converters"):
        v = k.get(opt)
        if isinstance(v, dict):
            v = v.get(col)
        elif opt == "converters":
            v = None
        if v in ("str", "string", "object", "O") or getattr(v, "__name__", "") in ("str", "object") or v is str:
            return True
        if v is not None:
            raise core.Unsupported("column types asked for in another way")
    return False


@contract("core.read_stations", "C25", "io/core.py:read_stations",
          ["pandas.read_csv: the columns named in the header in their order; a column not asked for as text may be read as numbers"])
def read_stations():
    w = loader.World()
    m = w.module("quakemigrate.io.core")
    n, = ints("n")
    C.assume(n.e >= 0)
    if C.choose(2, "missing") == 0:
        perms = list(itertools.permutations(REQUIRED))
        cols = list(perms[C.choose(len(perms), "order")])
        cols.insert(C.choose(2, "extra") * 4, "Comment")
    else:
        keep = C.choose(15, "subset")
        cols = [c for b, c in enumerate(REQUIRED) if keep >> b & 1] + ["Comment", "name", "Depth"]
        if C.choose(2, "order") == 1:
            cols = cols[::-1]
    given = {"sep": ";"} if C.choose(2, "options") else {}
    seen = []

    def read_csv(f, **k):
        oblige("the station file is read", z3.BoolVal(f == "FILE"))
        oblige("the caller's options are used", z3.BoolVal(all(k.get(a) == b for a, b in given.items())))
        if set(k) - set(given) - {"dtype", "converters"}:
            raise core.Unsupported("read with other options")
        fr = {}
        for c in cols:
            a = numbers(c, n.e) if c in ("Latitude", "Longitude", "Elevation") else text(c, n.e)
            if c == "Name" and not asks_text(k, c):
                a = a.map(lambda v: SNum(GUESS(v.e)), "object")
            fr[c] = a
        seen.append(1)
        return pm.DataFrame(fr)
    m.pd = types.SimpleNamespace(read_csv=read_csv, DataFrame=pm.DataFrame, Series=pm.Series)
    full = all(c in cols for c in REQUIRED)
    try:
        r = m.read_stations("FILE", **given)
    except Exception as e:
        if type(e).__name__ != "StationFileHeaderException":
            raise
        oblige("refused only when a column is missing", z3.BoolVal(not full))
        return
    oblige("accepted only with all columns", z3.BoolVal(full))
    oblige("all rows", iv(r.shape[0]) == n.e)
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    at = lambda c: num(r[c].arr[SNum(i)]).e
    f = lambda c, s: z3.Function(c, core.I, s)(i)
    oblige("all columns", z3.BoolVal(all(c in r.columns for c in REQUIRED)))
    oblige("names are the text of the file", at("Name") == f("Name", core.I))
    oblige("elevations become depths", at("Elevation") == -f("Elevation", core.R))
    oblige("positions as they are", z3.And(at("Latitude") == f("Latitude", core.R), at("Longitude") == f("Longitude", core.R)))


@contract("core.read_vmodel", "C25", "io/core.py:read_vmodel", ["pandas.read_csv: the columns named in the header in their order"])
def read_vmodel():
    w = loader.World()
    m = w.module("quakemigrate.io.core")
    n, = ints("n")
    C.assume(n.e >= 0)
    cols = [["Depth", "Vp", "Vs"], ["Vp", "Depth"], ["Vp", "Vs", "Depth"], ["Depth"], ["Vp", "Vs"], ["depth", "Vp"], ["Depths", "Vp"], []][C.choose(8, "columns")]
    given = {"sep": ";"} if C.choose(2, "options") else {}

    def read_csv(f, **k):
        oblige("the model file is read", z3.BoolVal(f == "FILE"))
        oblige("the caller's options are used", z3.BoolVal(k == given))
        return pm.DataFrame({c: numbers(c, n.e) for c in cols})
    m.pd = types.SimpleNamespace(read_csv=read_csv, DataFrame=pm.DataFrame, Series=pm.Series)
    try:
        r = m.read_vmodel("FILE", **given)
    except Exception as e:
        if type(e).__name__ != "InvalidVelocityModelHeader":
            raise
        oblige("refused only without depths", z3.BoolVal("Depth" not in cols))
        return
    oblige("accepted only with depths", z3.BoolVal("Depth" in cols))
    oblige("all columns and rows", z3.And(z3.BoolVal(list(r.columns) == cols), iv(r.shape[0]) == n.e))
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    for c in cols:
        oblige("values as they are", num(r[c].arr[SNum(i)]).e == z3.Function(c, core.I, core.R)(i))


@contract("core.Run", "C25", "io/core.py:Run", ["names are texts without dots, or such texts joined by one or two dots; an empty sub-name stands for none"])
def run_paths():
    made = []
    w = loader.World(models={"pathlib": types.SimpleNamespace(Path=lambda *p: Place(tuple(str(x) for x in p)))})
    m = w.module("quakemigrate.io.core")
    m.util = types.SimpleNamespace(logger=lambda stem, log, loglevel="info": made.append((stem, log, loglevel)), log_spacer="=")
    names = ["alpha", "a_b", "alpha.beta", ".alpha", "alpha..beta", "a.b.c", "alpha.csv"]
    name = names[C.choose(len(names), "name")]
    sub = (names + [""])[C.choose(len(names) + 1, "subname")]
    stage = [None, "detect", "trigger", "locate"][C.choose(4, "stage")]
    given = ("PATH", name) + (() if sub == "" and C.choose(2, "default") else (sub,))
    r = m.Run(*given, stage=stage) if stage else m.Run(*given)
    n2, s2 = name.replace(".", "_"), sub.replace(".", "_")
    oblige("the folder of the run", z3.BoolVal(place(r.path).p == ("PATH", n2)))
    oblige("the sub-name", z3.BoolVal(r.subname == s2))
    oblige("the name used in files", z3.BoolVal(r.name == (n2 if s2 == "" else n2 + "_" + s2)))
    oblige("the stage", z3.BoolVal(r.stage == stage))
    r.stage = "trigger"
    r.logger(True)
    oblige("the log of each stage lies with its output", z3.BoolVal(
        [(place(a).p, b) for a, b, _ in made] == [(tuple(x for x in ("PATH", n2, "trigger", s2, "logs", r.name) if x), True)]))


# ------------------------------------------------------------------ triggered events
BASE = ["EventID", "CoaTime", "TRIG_COA", "COA_X", "COA_Y", "COA_Z", "COA", "COA_NORM"]
WHOLE = [*FIELDS["Y"], "-", *FIELDS["m"], "-", *FIELDS["d"], "T", *FIELDS["H"], ":", *FIELDS["M"], ":", *FIELDS["S"], ".", *FIELDS["f"], "Z"]


def stored(nm, n, cols=BASE):
    """a table as read from a file: times are texts"""
    T = z3.Function(nm + ":CoaTime", core.I, core.R)
    out = {}
    for c in cols:
        out[c] = Arr.make((SNum(n),), lambda ix: TimeText(UTC(T(ix[0])), WHOLE), "object") if c.endswith("Time") else \
            text(f"{nm}:{c}", n, "int64") if c == "EventID" else numbers(f"{nm}:{c}", n)
    return out


def selection(a):
    """the rows selected, over all steps of the selection: positions in the original, and back"""
    steps = []
    while a is not None:
        if getattr(a, "embed", None) is not None:
            steps.append(a.embed)
        a = getattr(a, "parent", None)
    if not steps:
        return None

    def e(i):
        for s in steps:
            i = s.e(i)
        return i

    def rank(i):
        for s in reversed(steps):
            i = s.rank(i)
        return i

    def increasing(a, b):
        for s in steps:
            C.assume(s.increasing(a, b))
            a, b = s.e(a), s.e(b)
    return types.SimpleNamespace(e=e, rank=rank, increasing=increasing)


@contract("triggered_events.read_triggered_events", "C24 C11", "io/triggered_events.py:read_triggered_events",
          ["pandas.read_csv gives back the rows of a file in order; pd.concat joins them in order"])
def read_triggered():
    w = loader.World()
    m = w.module("quakemigrate.io.triggered_events")
    have = z3.Function("day_file_exists", core.I, core.B)
    dayof = lambda x: core.floor_(core.rdiv(x, z3.RealVal(DAY)))
    n, = ints("n")
    C.assume(n.e >= 0)
    got = {}

    def there(p):
        oblige("the folder of triggered events", z3.BoolVal(p.p[:-1] == below(r, "trigger", r.subname, "events")))
        return core.SBool(have(day_of(p.name, r.name + "_", "_TriggeredEvents.csv")))
    r = run({"have": there})

    class Part:
        def __init__(self, day):
            self.day = day

    def read_csv(f, **k):
        if k:
            raise core.Unsupported("read with options")
        if f == "FILE":
            got["file"] = True
            return pm.DataFrame(stored("T", n.e))
        p = place(f)
        oblige("the folder of triggered events", z3.BoolVal(p.p[:-1] == below(r, "trigger", r.subname, "events")))
        d = day_of(p.name, r.name + "_", "_TriggeredEvents.csv")
        oblige("only files which are there are read", have(d))
        return Part(SNum(d))

    def concat(parts, ignore_index=False, **k):
        if k or "days" in got:
            raise core.Unsupported("joined in another way")
        parts = parts.parts() if isinstance(parts, QList) else list(parts)
        if len(parts) != 1 or not isinstance(parts[0], Comp):
            raise core.Unsupported("the days are not read in one loop")
        got["days"] = parts[0]
        f = pm.DataFrame(stored("T", n.e))
        if not ignore_index:
            L = z3.Function("row_label", core.I, core.I)
            f.__dict__["idx"] = Arr.make((n,), lambda ix: SNum(L(ix[0])), "int64")
        return f
    m.pd = types.SimpleNamespace(read_csv=read_csv, concat=concat, DataFrame=pm.DataFrame, Series=pm.Series)
    s, e = utc("s"), utc("e")
    C.assume(s.e <= e.e)
    how = C.choose(3, "how")
    if how == 2:
        C.assume(z3.BoolVal(True))
    oblige("days of the interval are in order", dayof(s.e) <= dayof(e.e))
    k = C.skolem("k")
    inside = z3.And(k >= dayof(s.e), k <= dayof(e.e))
    try:
        if how == 0:
            ev = m.read_triggered_events(r, starttime=s, endtime=e)
        elif how == 1:
            ev = m.read_triggered_events(r, trigger_file="FILE")
        else:
            ev = m.read_triggered_events(r, starttime=s, endtime=e, trigger_file="FILE")
    except Exception as x:
        if type(x).__name__ != "NoTriggerFilesFound":
            raise
        oblige("a trigger file given by name is read", z3.BoolVal(how == 0))
        C.skolems.append(k - dayof(s.e))
        oblige("nothing found only when no day of the interval has a file", z3.Implies(inside, z3.Not(have(k))))
        return
    if how == 0:
        p = got["days"]
        j = k - dayof(s.e)
        el = p.elem(j)
        if not isinstance(el, Part):
            raise core.Unsupported("the days are collected in another way")
        oblige("the file of every day of the interval is read", z3.Implies(z3.And(inside, have(k)), z3.And(
            j >= 0, j < iv(p.n), p.guard(j), num(el.day).e == k)))
        a, b = C.skolem("a"), C.skolem("b")
        oblige("each once, in order", z3.Implies(z3.And(a >= 0, a < b, b < iv(p.n), p.guard(a), p.guard(b)),
                                                 num(p.elem(a).day).e < num(p.elem(b).day).e))
    else:
        oblige("the trigger file asked for is read, nothing else", z3.BoolVal(got == {"file": True}))
    T = z3.Function("T:CoaTime", core.I, core.R)
    midnight = e.e == z3.ToReal(dayof(e.e)) * DAY
    keep = lambda i: z3.And(T(i) >= s.e, z3.If(midnight, T(i) < e.e, T(i) <= e.e)) if how != 1 else z3.BoolVal(True)
    C.skolems[:] = []
    cnt = iv(ev.shape[0])
    q = C.skolem("q")
    C.assume(z3.And(q >= 0, q < cnt))
    v = ev["CoaTime"].arr[SNum(q)]
    oblige("times are times", z3.BoolVal(isinstance(v, UTC)))
    emb = selection(ev["CoaTime"].arr)
    row = emb.e(q) if emb is not None else q
    oblige("every event lies in the interval", z3.And(row >= 0, row < n.e, v.e == T(row), keep(row)))
    for c in BASE:
        if c != "CoaTime":
            oblige("the values stored for it", num(ev[c].arr[SNum(q)]).e == z3.Function("T:" + c, core.I, core.I if c == "EventID" else core.R)(row))
    oblige("events are numbered from zero", num(ev.idx[SNum(q)]).e == q)
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    if emb is None:
        oblige("no event is left out", cnt == n.e)
    else:
        oblige("no event of the interval is left out", z3.Implies(keep(i), z3.And(emb.rank(i) >= 0, emb.rank(i) < cnt, emb.e(emb.rank(i)) == i)))
        q2 = C.skolem("q2")
        C.assume(z3.And(q2 > q, q2 < cnt))
        emb.increasing(q, q2)
        oblige("events keep their order", emb.e(q) < emb.e(q2))


@contract("triggered_events.write_triggered_events", "C24 C11", "io/triggered_events.py:write_triggered_events", ["DataFrame.to_csv writes the columns and rows it is given"])
def write_triggered():
    w = loader.World()
    m = w.module("quakemigrate.io.triggered_events")
    r = run(sub=("SUB",))
    C.csv = []
    cols = ["EventNum", "CoaTime", "TRIG_COA", "COA_X", "COA_Y", "COA_Z", "COA", "COA_NORM", "MinTime", "MaxTime", "EventID", "MinTrig"]
    order = C.choose(2, "order")
    n, = ints("n")
    C.assume(n.e >= 1)
    asked = [[True, False], [False, True], [True, True, False]][C.choose(3, "history")]
    for h, want in enumerate(asked):
        c0 = cols if order == 0 else cols[::-1]
        df = pm.DataFrame({c: numbers(f"w{h}:{c}", n.e) for c in c0})
        before = dict(df.cols)
        s = utc(f"s{h}")
        C.csv[:] = []
        m.write_triggered_events(r, df, s, want)
        oblige("one file is written", z3.BoolVal(len(C.csv) == 1))
        path, fr, index = C.csv[0]
        p = place(path)
        oblige("in the folder of triggered events", z3.BoolVal(p.p[:-1] == below(r, "trigger", r.subname, "events")))
        oblige("the file of its own day", day_of(p.name, r.name + "_", "_TriggeredEvents.csv") == s.day_)
        oblige("the time-window columns exactly when requested", z3.BoolVal(list(fr.columns) == BASE + ["MinTime", "MaxTime"] * want))
        oblige("no row labels", z3.BoolVal(index is False))
        oblige("all events", iv(fr.shape[0]) == n.e)
        i = C.skolem(f"i{h}")
        C.assume(z3.And(i >= 0, i < n.e))
        for c in BASE + ["MinTime", "MaxTime"] * want:
            oblige("their own values", num(fr[c].arr[SNum(i)]).e == z3.Function(f"w{h}:{c}", core.I, core.R)(i))
        oblige("the caller's table is left alone", z3.BoolVal(list(df.cols) == list(before)))
        for c in before:
            oblige("the caller's values are left alone", num(df[c].arr[SNum(i)]).e == z3.Function(f"w{h}:{c}", core.I, core.R)(i))


# ------------------------------------------------------------------ availability
STN = ["AAA_P", "AAA_S", "B1_P"]


def label_text(nm):
    W = z3.Function(nm, core.I, core.R)
    return lambda ix: TimeText(UTC(W(ix[0])), WHOLE)


@contract("availability.write_availability", "C24 C07", "io/availability.py:write_availability",
          ["DataFrame.to_csv writes the rows it is given; pd.to_datetime reads the times written in the labels", "window start times increase from row to row"])
def write_availability():
    w = loader.World()
    m = w.module("quakemigrate.io.availability")
    days = QList()
    r = run({"days": days})
    n, = ints("n")
    C.assume(n.e >= 1)
    W = z3.Function("start", core.I, core.R)
    V = {c: z3.Function("a:" + c, core.I, core.I) for c in STN}
    C.foralls.append(lambda j: z3.Implies(z3.And(j >= 0, j < n.e), W(j) < W(j + 1)))
    df = pm.DataFrame({c: Arr.make((n,), lambda ix, c=c: SNum(V[c](ix[0])), "int64") for c in STN})
    df.index = Arr.make((n,), label_text("start"), "object")
    day = lambda i: UTC(W(i)).day_

    class Files:
        def append(self, rec):
            path, fr, index = rec
            p = place(path)
            oblige("the folder of availability files", z3.BoolVal(p.p[:-1] == below(r, "detect", "availability")))
            d = day_of(p.name, "", "_StationAvailability.csv")
            oblige("row labels are written", z3.BoolVal(index is True))
            oblige("all stations and phases", z3.BoolVal(list(fr.columns) == STN))
            cnt = iv(fr.shape[0])
            emb = getattr(fr.cols[STN[0]], "embed", None)
            if emb is None:
                raise core.Unsupported("rows of a day selected in another way")
            q, i = C.skolem("q"), C.skolem("i")
            with C.under(q >= 0, q < cnt):
                row = emb.e(q)
                lab = fr.idx[SNum(q)]
                lab = core.unmark(lab)[0] if hasattr(lab, "_qm_unmark") else lab
                oblige("rows of its own day only, with their times", z3.And(row >= 0, row < n.e, day(row) == d, lab.e == W(row)))
                for c in STN:
                    oblige("with their values", num(fr[c].arr[SNum(q)]).e == V[c](row))
                q2 = C.skolem("q2")
                oblige("in order", z3.Implies(z3.And(q2 > q, q2 < cnt), emb.e(q2) > row))
            with C.under(i >= 0, i < n.e, day(i) == d):
                oblige("every row of the day", z3.And(emb.rank(i) >= 0, emb.rank(i) < cnt, emb.e(emb.rank(i)) == i))
            days.append(SNum(d))
    C.csv = Files()
    m.write_availability(r, df)
    parts = days.parts()
    if len(parts) != 1 or not isinstance(parts[0], Comp) or not parts[0].total():
        raise core.Unsupported("files not written in one loop")
    p = parts[0]
    C.skolems[:] = []
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    k = z3.Int("k!some")
    oblige("a file for the day of every row", z3.Exists([k], z3.And(k >= 0, k < iv(p.n), num(p.elem(k)).e == day(i))))


@contract("availability.read_availability", "C24", "io/availability.py:read_availability, io/availability.py:_handle_old_structure",
          ["spans of up to three days", "pandas.read_csv gives back the rows of a file in order; pd.concat joins them in order"])
def read_availability():
    w = loader.World()
    m = w.module("quakemigrate.io.availability")
    r = run()
    C.unroll = True
    base, s, e = z3.Int("day"), utc("s"), utc("e")
    span = C.choose(3, "days")
    C.assume(z3.And(s.day_ == base, e.day_ == base + span, s.e <= e.e))
    old = C.choose(2, "old") == 1
    cols = ["AAA", "B1"] if old else STN
    have = z3.Function("day_file_exists", core.I, core.B)
    L = z3.Function("rows", core.I, core.I)
    W = z3.Function("start", core.I, core.I, core.R)
    V = {c: z3.Function("a:" + c, core.I, core.I, core.I) for c in cols}
    read = []

    def read_csv(f, index_col=None, **k):
        if k or index_col not in (0, None):
            raise core.Unsupported("read with other options")
        oblige("labels are not taken for data", z3.BoolVal(index_col == 0))
        p = place(f)
        oblige("the folder of availability files", z3.BoolVal(p.p[:-1] == below(r, "detect", "availability")))
        d = day_of(p.name, "", "_StationAvailability.csv")
        if not C.decide(have(d)):
            raise FileNotFoundError(str(p))
        read.append(d)
        C.assume(L(d) >= 1)
        fr = pm.DataFrame({c: Arr.make((SNum(L(d)),), lambda ix, c=c: SNum(V[c](d, ix[0])), "int64") for c in cols})
        fr.index = Arr.make((SNum(L(d)),), lambda ix: TimeText(UTC(W(d, ix[0])), WHOLE), "object")
        return fr
    m.pd = types.SimpleNamespace(read_csv=read_csv, concat=pm.concat, DataFrame=pm.DataFrame, Series=pm.Series, to_datetime=pm.to_datetime)
    try:
        got = m.read_availability(r, s, e)
    except Exception as x:
        if type(x).__name__ != "NoStationAvailabilityDataException":
            raise
        oblige("nothing found only when no day of the span has a file", z3.And(*[z3.Not(have(base + k)) for k in range(span + 1)]))
        return
    here = []
    for k in range(span + 1):
        if C.decide(have(base + k)):
            here.append(base + k)
    oblige("the file of every day of the span, once each", z3.And(z3.BoolVal(len(here) == len(read)), *[a == b for a, b in zip(here, read)]))
    tot = z3.Sum([L(d) for d in here])
    oblige("all rows, once each", iv(got.shape[0]) == tot)
    want = STN if not old else ["AAA_P", "B1_P", "AAA_S", "B1_S"]
    oblige("all stations and phases", z3.BoolVal(sorted(got.columns) == sorted(want)))
    off = z3.IntVal(0)
    for d in here:
        q = C.skolem("q")
        with C.under(q >= 0, q < L(d)):
            at = SNum(off + q)
            lab = got.idx[at]
            lab = core.unmark(lab)[0] if hasattr(lab, "_qm_unmark") else lab
            oblige("rows in order, with their times", lab.e == W(d, q))
            for c in want:
                oblige("with their values", num(got[c].arr[at]).e == V[c.split("_")[0] if old else c](d, q))
        off = off + L(d)


# ------------------------------------------------------------------ event, pick and amplitude files
def shows(v, own, digits):
    """the text shows its own value with at least so many significant digits"""
    if isinstance(v, str):
        u = core.unmark(v)
        if u is None:
            return z3.BoolVal(False)
        val, sp = u
        g = re.fullmatch(r"\.(\d+)([geE])", sp)
        if sp != "" and not (g and int(g.group(1)) + (g.group(2) != "g") >= digits):
            return z3.BoolVal(False)
        v = val
    if not isinstance(v, SNum):
        raise core.Unsupported("values written in another way")
    return num(v).e == own


class Rounded:
    def __init__(self, v, d):
        self.v, self.d = v, d


def value_of(x):
    """value, least number of decimals kept"""
    return (x.v, x.d) if isinstance(x, Rounded) else (x, None)


class Cell1:
    """one column of a table of one row"""

    def __init__(self, v):
        self.v = v

    def map(self, f, na_action=None):
        if isinstance(self.v, float) and self.v != self.v and na_action == "ignore":
            return Cell1(self.v)
        return Cell1(f(self.v))

    apply = map

    def round(self, decimals=0):
        v, d = value_of(self.v)
        if isinstance(v, str):
            raise core.Unsupported("rounding of a text")
        k = int(decimals)
        return Cell1(Rounded(v, k if d is None else min(k, d)))

    def astype(self, t):
        if t not in ("int", "int64") and getattr(t, "__name__", "") not in ("int", "_int"):
            if getattr(t, "__name__", "") in ("float", "_float") or t == "float":
                return self
            raise core.Unsupported("astype")
        v, d = value_of(self.v)
        return Cell1(Rounded(v, d) if d is not None and d <= 0 else Rounded(v, -99))

    @property
    def values(self):
        return [self.v]


class Table1:
    """a table of one row"""

    def __init__(self, rows, columns=None, **k):
        if k or len(rows) != 1:
            raise core.Unsupported("table made in another way")
        self.c = dict(rows[0])
        if columns is not None:
            self.c = {x: self.c.get(x, float("nan")) for x in columns}

    def _sub(self, cols):
        for x in cols:
            if x not in self.c:
                raise core.real(KeyError(x))
        r = Table1([{}])
        r.c = {x: self.c[x] for x in cols}
        return r

    @property
    def columns(self):
        return pm.Columns(self.c)

    def __iter__(self):
        return iter(list(self.c))

    def __contains__(self, x):
        return x in self.c

    def filter(self, items=None, like=None, regex=None):
        ok = [x for x in self.c if (items is None or x in items) and (like is None or like in x) and (regex is None or re.search(regex, x))]
        return self._sub(ok)

    def copy(self, *a, **k):
        return self._sub(list(self.c))

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.c:
                raise core.real(KeyError(k))
            return Cell1(self.c[k])
        return self._sub(list(k))

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise core.Unsupported("several columns set at once")
        self.c[k] = v.v if isinstance(v, Cell1) else v

    @property
    def loc(self):
        f = self

        class L:
            def __getitem__(s, k):
                if isinstance(k, tuple) and k[0] == slice(None):
                    return f[k[1]]
                raise core.Unsupported("loc")

            def __setitem__(s, k, v):
                if isinstance(k, tuple) and k[0] == slice(None):
                    f[k[1]] = v
                    return
                raise core.Unsupported("loc")
        return L()

    def round(self, d):
        r = self.copy()
        for x, k in dict(d).items():
            if x in r.c:
                r[x] = r[x].round(k)
        return r

    def to_csv(self, path, index=True, **k):
        if k:
            raise core.Unsupported("to_csv options")
        C.csv.append((path, dict(self.c), index))


@contract("event.write", "C24 C16", "io/event.py:Event.write",
          ["pandas round/map/astype by what they do to one value; DataFrame.to_csv writes the row it is given",
           "grid precisions of -2 to 6 decimals"])
def event_write():
    w = loader.World()
    m = w.module("quakemigrate.io.event")
    m.pd = types.SimpleNamespace(DataFrame=Table1)
    C.csv = []
    r = run()
    dt = utc("dt")
    V = lambda nm: SNum(z3.Real(nm))
    E = type("E", (m.Event,), {"max_coalescence": property(lambda s: {"DT": dt, "COA": V("coa"), "COA_NORM": V("coa_norm")})})
    e = object.__new__(E)
    e.uid = "20210101000000123"
    dec = C.choose(2, "old trigger file")
    e.trigger_info = {"TRIG_COA": V("trig"), "DEC_COA": float("nan") if dec else V("dec"), "DEC_COA_NORM": float("nan") if dec else V("dec_norm")}
    mag = C.choose(3, "magnitude")
    e.localmag = [{}, {"ML": V("ml"), "ML_Err": V("ml_err"), "ML_r2": V("ml_r2")}, {"ML": float("nan"), "ML_Err": float("nan"), "ML_r2": float("nan")}][mag]
    xyz = "XYZ"
    e.locations = {"spline": {a: V("s" + a) for a in xyz},
                   "gaussian": {**{a: V("g" + a) for a in xyz}, **{"Err" + a: V("ge" + a) for a in xyz}},
                   "covariance": {**{a: V("c" + a) for a in xyz}, **{"Err" + a: V("ce" + a) for a in xyz}, "Err_XYZ": V("ce")}}
    prec = [[4, 4, 1], [-2, -2, -2], [6, 5, 0], [0, 0, -3], [2, 3, 3], [3, 1, -1]][C.choose(6, "precision")]
    unit = ["km", "m"][C.choose(2, "unit")]
    e.write(r, types.SimpleNamespace(precision=list(prec), unit_name=unit))
    oblige("one file", z3.BoolVal(len(C.csv) == 1))
    path, row, index = C.csv[0]
    oblige("named after the event, with the events of the run", z3.BoolVal(place(path).p == below(r, "locate", r.subname, "events", e.uid + ".event")))
    oblige("no row labels", z3.BoolVal(index is False))
    want = {"EventID", "DT", "X", "Y", "Z", "COA", "COA_NORM", "GAU_X", "GAU_Y", "GAU_Z", "GAU_ErrX", "GAU_ErrY", "GAU_ErrZ",
            "COV_ErrX", "COV_ErrY", "COV_ErrZ", "COV_Err_XYZ", "TRIG_COA", "DEC_COA", "DEC_COA_NORM"}
    oblige("the columns of an event file, magnitudes when there are any", z3.BoolVal(set(row) == want | ({"ML", "ML_Err", "ML_r2"} if mag else set())))
    oblige("identifier and origin time as they are", z3.And(z3.BoolVal(row["EventID"] == e.uid and isinstance(row["DT"], UTC)), row["DT"].e == dt.e))

    def nan(v):
        return isinstance(v, float) and v != v or v == "nan"
    for c, own in (("COA", "coa"), ("COA_NORM", "coa_norm"), ("TRIG_COA", "trig"), ("DEC_COA", "dec"), ("DEC_COA_NORM", "dec_norm")):
        if dec and c.startswith("DEC"):
            oblige("an unknown value stays unknown", z3.BoolVal(nan(row[c])))
        else:
            oblige("coalescence values to four digits", shows(row[c], z3.Real(own), 4))
    for c, own in (("ML", "ml"), ("ML_Err", "ml_err"), ("ML_r2", "ml_r2")):
        if mag == 2:
            oblige("an unknown magnitude stays unknown", z3.BoolVal(nan(row[c])))
        elif mag:
            oblige("magnitudes to three digits", shows(row[c], z3.Real(own), 3))
    zd = max(prec[2] + 2, 3 if unit == "km" else 0)
    dig = {"X": max(prec[0] + 2, 6), "Y": max(prec[1] + 2, 6), "Z": zd}
    own = {a: "s" + a for a in xyz} | {"GAU_" + a: "g" + a for a in xyz} | {"GAU_Err" + a: "ge" + a for a in xyz} | \
        {"COV_Err" + a: "ce" + a for a in xyz} | {"COV_Err_XYZ": "ce"}
    for c, nm in own.items():
        v, d = value_of(row[c])
        if not isinstance(v, SNum):
            raise core.Unsupported("positions written in another way")
        oblige(f"{c} is its own value", v.e == z3.Real(nm))
        need = zd if "Err" in c else dig[c[-1]]
        oblige(f"{c} rounded to the declared precision only", z3.BoolVal(d is None or d >= need))


def rows_shown(df, nm, digits, i):
    """every value of the table at row i as it was, some shown to so many digits"""
    for c, a in df.cols.items():
        own = z3.Function(f"{nm}:{c}", core.I, core.R)(i)
        v = df[c].arr[SNum(i)]
        if c in digits:
            oblige(f"{c} to its digits", shows(v, own, digits[c]))
        else:
            oblige(f"{c} as it is", z3.BoolVal(False) if isinstance(v, str) else num(v).e == own)


@contract("picker.write", "C24", "signal/pickers/base.py:PhasePicker.write", ["DataFrame.to_csv writes the rows it is given"])
def picks_write():
    w = loader.World()
    m = w.module("quakemigrate.signal.pickers.base")
    C.csv = []
    r = run()
    n, = ints("n")
    C.assume(n.e >= 0)
    cols = ["Station", "Phase", "ModelledTime", "PickTime", "PickError", "SNR", "Residual"]
    df = pm.DataFrame({c: numbers("p:" + c, n.e) for c in cols})
    p = object.__new__(type("P", (m.PhasePicker,), {"pick_phases": lambda s: None}))
    p.write(r, "20210101000000123", df)
    oblige("one file", z3.BoolVal(len(C.csv) == 1))
    path, fr, index = C.csv[0]
    oblige("named after the event, with the picks of the run", z3.BoolVal(place(path).p == below(r, "locate", r.subname, "picks", "20210101000000123.picks")))
    oblige("no row labels, all columns", z3.BoolVal(index is False and sorted(fr.columns) == sorted(cols)))
    oblige("all rows", iv(fr.shape[0]) == n.e)
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    rows_shown(fr, "p", {"PickError": 3, "SNR": 3}, i)
    oblige("the caller's table is left alone", z3.BoolVal(list(df.cols) == cols))
    rows_shown(df, "p", {}, i)


@contract("amplitudes.write_amplitudes", "C24", "io/amplitudes.py:write_amplitudes", ["DataFrame.to_csv writes the rows it is given"])
def amps_write():
    w = loader.World()
    m = w.module("quakemigrate.io.amplitudes")
    C.csv = []
    r = run()
    n, = ints("n")
    C.assume(n.e >= 0)
    dig = {"epi_dist": 5, "z_dist": 5, "P_amp": 5, "P_avg_amp": 5, "S_amp": 5, "S_avg_amp": 5, "Noise_amp": 5, "P_freq": 2, "S_freq": 2,
           "P_filter_gain": 3, "S_filter_gain": 3}
    cols = list(dig) + ["P_time", "S_time", "is_picked"]
    if C.choose(2, "magnitudes"):
        dig |= {"ML": 3, "ML_Err": 3}
        cols += ["ML", "ML_Err"]
    df = pm.DataFrame({c: numbers("p:" + c, n.e) for c in cols})
    df.index = pm.Index(text("chan", n.e))
    lab = df.idx
    m.write_amplitudes(r, df, types.SimpleNamespace(uid="20210101000000123"))
    oblige("one file", z3.BoolVal(len(C.csv) == 1))
    path, fr, index = C.csv[0]
    oblige("named after the event, with the amplitudes of the run", z3.BoolVal(place(path).p == below(r, "locate", r.subname, "amplitudes", "20210101000000123.amps")))
    oblige("channel names and all columns", z3.BoolVal(index is True and sorted(fr.columns) == sorted(cols)))
    oblige("all rows", iv(fr.shape[0]) == n.e)
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    oblige("each under its own channel", num(fr.idx[SNum(i)]).e == num(lab[SNum(i)]).e)
    rows_shown(fr, "p", dig, i)
    oblige("the caller's table is left alone", z3.BoolVal(list(df.cols) == cols))
    rows_shown(df, "p", {}, i)
