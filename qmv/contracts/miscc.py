"""Contracts on runs, events, the geometry of the lookup table, old tables and option aliases: C05, C09, C12, C13, C15, C16, C18, C24, C25."""
from __future__ import annotations

import re
import types

import z3

from .. import core, loader
from ..arr import Arr, iv
from ..core import C, I, R, SBool, SNum, num, oblige, rl
from ..loops import QDict, QList
from ..models.obspy_m import UTC
from .base import contract
from .gridc import PyprojModel, Proj, grid, reals, vec, world
from .initc import kept, numbers
from .lutfilec import Store
from .onsetc import fresh_onset
from .scanc import Ns


# ------------------------------------------------------------------ C25: runs
class Word:
    """Any text: replacing the dots gives a text without dots, and the text itself when it has none."""

    def __init__(self, label, dots=None, empty=None):
        self.label = label
        self.dots = z3.Bool("dots_in_" + label) if dots is None else dots
        self.empty = z3.Bool("empty_" + label) if empty is None else empty
        C.assume(z3.Not(z3.And(self.dots, self.empty)))
        self.plain = None

    def __contains__(self, x):
        if x != ".":
            raise core.Unsupported("looking for other text")
        return C.decide(self.dots)

    def replace(self, a, b, *n):
        if (a, b) != (".", "_") or n:
            raise core.Unsupported("another replacement")
        if self.plain is None:
            self.plain = Word("plain_" + self.label, z3.BoolVal(False), self.empty)
        return self.plain

    def __eq__(self, x):
        if isinstance(x, Word):
            if x is self:
                return True
            raise core.Unsupported("names compared")
        if x == "":
            return C.decide(self.empty)
        raise core.Unsupported("names compared")

    def __ne__(self, x):
        return not self == x

    def __bool__(self):
        return not C.decide(self.empty)

    def __len__(self):
        raise core.Unsupported("length of a name")

    __hash__ = object.__hash__

    def __format__(self, spec):
        if spec not in ("", "s"):
            raise core.Unsupported("format of a name")
        return core.marker(self, "")

    def __str__(self):
        return core.marker(self, "")

    def __add__(self, x):
        return str(self) + str(x)

    def __radd__(self, x):
        return str(x) + str(self)

    def dotless(self):
        """this text with dots replaced"""
        return self.plain if self.plain is not None else self


def same(got, word):
    """got is word with its dots replaced"""
    if got is word:
        return z3.Not(word.dots)
    return z3.BoolVal(word.plain is not None and got is word.plain)


class WordPath:
    def __init__(self, *parts):
        self.p = tuple(q for x in parts for q in (x.p if isinstance(x, WordPath) else (x,)))

    def __truediv__(self, x):
        return WordPath(self, x)

    def joinpath(self, *x):
        return WordPath(self, *x)


def words(text):
    """the words and the text between them"""
    if isinstance(text, Word):
        return [text]
    if type(text) is not str:
        raise core.Unsupported("name of another kind")
    return [C.markers[int(x[1:-1])][1] if x[0] == "\u27e8" else x for x in re.split("(\u27e8\\d+\u27e9)", text) if x]


@contract("core.Run.__init__, name", "C25 C24", "io/core.py:Run.__init__, io/core.py:Run.name",
          ["str.replace and the test for a dot on an opaque text"])
def run_names():
    w = loader.World()
    m = w.module("quakemigrate.io.core")
    m.pathlib = types.SimpleNamespace(Path=WordPath)
    m.print = lambda *a, **k: None
    name, sub, stage = Word("name"), Word("sub"), object()
    C.assume(z3.Not(name.empty))
    given = C.choose(2, "a sub-name") == 0
    r = m.Run("path", name, sub, stage=stage) if given else m.Run("path", name, stage=stage)
    p = r.path.p if isinstance(r.path, WordPath) else ()
    oblige("the run's directory is the name, dots replaced, in the directory given", z3.And(z3.BoolVal(len(p) == 2 and p[0] == "path"), same(p[-1] if p else None, name)))
    if given:
        oblige("the sub-name with its dots replaced", same(r.subname, sub))
        sub = sub.dotless()
    else:
        oblige("no sub-name unless given", z3.BoolVal(type(r.subname) is str and r.subname == ""))
    oblige("the stage given", z3.BoolVal(r.stage is stage))
    n = r.name
    ws = words(n)
    alone = len(ws) == 1 and isinstance(ws[0], Word)
    both = len(ws) == 3 and isinstance(ws[0], Word) and ws[1] == "_" and isinstance(ws[2], Word)
    if not alone and not both and not all(isinstance(x, (Word, str)) for x in ws):
        raise core.Unsupported("name built in another way")
    oblige("the run is called by its name, and the sub-name if there is one", z3.And(z3.BoolVal(alone or both), same(ws[0], name) if ws else z3.BoolVal(False)))
    if not given:
        oblige("without a sub-name the run's name alone", z3.BoolVal(alone))
    elif both:
        oblige("the sub-name follows the name", z3.And(z3.Not(sub.empty), same(ws[2], sub)))
    else:
        oblige("the name alone only without a sub-name", sub.empty)


# ------------------------------------------------------------------ C16, C24: events
@contract("event.Event.__init__, add_picks, add_local_magnitude, local_magnitude", "C16 C24", "io/event.py:Event.__init__, io/event.py:Event.add_picks, io/event.py:Event.add_local_magnitude, io/event.py:Event.local_magnitude, io/event.py:Event.add_waveform_data")
def event_records():
    w = loader.World()
    m = w.module("quakemigrate.io.event")
    cls = type("Own", (m.Event,), {"_parse_triggered_event": lambda self, e: ("parsed", e)})
    mw, = reals("mw")
    trig = {"EventID": object(), "CoaTime": object(), "TRIG_COA": object()}
    e = cls(mw, trig) if C.choose(2, "a triggered event") == 0 else cls(mw)
    kept(e, {"marginal_window": mw}, "the marginal window given")
    if hasattr(e, "uid"):
        oblige("identifier and trigger time are the triggered event's", z3.BoolVal(e.uid is trig["EventID"] and e.trigger_time is trig["CoaTime"]))
        oblige("what else was triggered is kept", z3.BoolVal(e.trigger_info == ("parsed", trig)))
    oblige("nothing measured yet", z3.BoolVal(e.otime is None and len(e.locations) == 0 and len(e.picks) == 0 and len(e.localmag) == 0))
    other = cls(mw)
    oblige("events share nothing", z3.BoolVal(all(getattr(e, k) is not getattr(other, k) for k in ("locations", "picks", "localmag"))))
    df, fits, thr = object(), object(), object()
    e.add_picks(df, gaussfits=fits, pick_threshold=thr)
    oblige("picks, their fits and threshold", z3.BoolVal(e.picks["df"] is df and e.picks["gaussfits"] is fits and e.picks["pick_threshold"] is thr))
    a, b, c = object(), object(), object()
    e.add_local_magnitude(a, b, c)
    oblige("magnitude, error and fit under their own names", z3.BoolVal(e.localmag["ML"] is a and e.localmag["ML_Err"] is b and e.localmag["ML_r2"] is c))
    oblige("the event's magnitude, error and fit in that order", z3.BoolVal([x for x in e.local_magnitude] == [a, b, c] and other.local_magnitude is None))
    d = object()
    e.add_waveform_data(d)
    oblige("the waveforms of the event", z3.BoolVal(e.data is d))


# ------------------------------------------------------------------ lookup table geometry
class Digits:
    """a number written as mantissa and exponent"""

    def __init__(self, x):
        x = rl(num(x).e)
        self.x = z3.simplify(z3.If(x >= 0, x, -x))

    def split(self, s, n=-1):
        if s != "e":
            raise core.Unsupported("number split in another way")
        return [object(), SNum(EXPO(self.x))]

    rsplit = split

    def partition(self, s):
        return [self.split(s)[0], s, self.split(s)[1]]


class Numpy(types.SimpleNamespace):
    def __getattr__(self, k):
        return getattr(self._np, k)


EXPO = z3.Function("decimal_exponent", R, I)


@contract("lut.Grid3D.precision, unit_name, unit_conversion_factor, aliases", "C13 C24", "lut/lut.py:Grid3D.precision, lut/lut.py:Grid3D.unit_name, lut/lut.py:Grid3D.unit_conversion_factor, lut/lut.py:Grid3D.cell_size, lut/lut.py:Grid3D.cell_count",
          ["the decimal exponent NumPy writes is a function of the number"])
def geometry():
    w, m = world()
    g, nc, sp = grid(m)
    m.print = lambda *a, **k: None
    unit = ["kilometre", "metre"][C.choose(2, "unit")]
    fac, = reals("factor")
    g.grid_proj.crs = Ns(axis_info=[Ns(unit_name=unit, unit_conversion_factor=fac), Ns(unit_name="other", unit_conversion_factor=None)])
    oblige("the name of the grid's unit", z3.BoolVal(g.unit_name == {"kilometre": "km", "metre": "m"}[unit]))
    oblige("metres per unit of the grid", num(g.unit_conversion_factor).e == fac.e)
    m.np = Numpy(_np=m.np, format_float_scientific=lambda x, **k: Digits(x))
    there, here = (g.index2coord([[q] * 3]) for q in (0, 1))
    pr = list(g.precision)
    oblige("decimals after which neighbouring nodes differ, one number per axis", z3.And(z3.BoolVal(len(pr) == 3), *[num(p).e == -EXPO(Digits(there.at(0, q) - here.at(0, q)).x) for q, p in enumerate(pr)]))
    s = g.cell_size
    n = g.cell_count
    oblige("old names of spacing and counts", z3.And(*[z3.And(s.at(q).e == sp.at(q).e, n.at(q).e == nc.at(q).e) for q in range(3)]))
    new, cnt = vec("new"), vec("cnt", sort=I)
    C.assume(z3.And(*[z3.And(new.at(q).e > 0, cnt.at(q).e > 0, cnt.at(q).e < 2 ** 31) for q in range(3)]))
    g.cell_size = None
    g.cell_count = None
    oblige("nothing given, nothing changed", z3.And(*[z3.And(g.node_spacing.at(q).e == sp.at(q).e, g.node_count.at(q).e == nc.at(q).e) for q in range(3)]))
    g.cell_size = new
    g.cell_count = cnt
    oblige("old names set spacing and counts", z3.And(*[z3.And(g.node_spacing.at(q).e == new.at(q).e, g.node_count.at(q).e == cnt.at(q).e) for q in range(3)]))


# ------------------------------------------------------------------ C15: tables of older versions
@contract("lut.update_lut", "C15", "lut/__init__.py:update_lut", ["tables of three stations and two phases stand for any", "read_lut and save by their own contracts"])
def update_lut():
    w = loader.World(models={"pyproj": PyprojModel("pyproj")})
    m = w.module("quakemigrate.lut")
    io = w.module("quakemigrate.io")
    lm = w.module("quakemigrate.lut.lut")
    old = C.choose(2, "an old table") == 0
    g, nc, sp = grid(lm, "LUT")
    tables = {s: {p: object() for p in ("P", "S")} for s in ("ST1", "ST_2", "ST3")}
    if old:
        del g._node_count, g._node_spacing
        g._cell_count, g._cell_size = nc, sp
        g.maps = {s: {f"TIME_{p}": t for p, t in d.items()} for s, d in tables.items()}
    else:
        g.traveltimes = {s: dict(d) for s, d in tables.items()}
    lm.print = lambda *a, **k: None
    asked, saved = [], []
    io.read_lut = lambda *a, **k: (asked.append((a, k)), g)[1]
    type(g).save = lambda self, f: saved.append((self, f))
    m.update_lut("old", "new")
    oblige("the file named is read", z3.BoolVal(asked in ([(("old",), {})], [((), {"lut_file": "old"})])))
    oblige("the table is written to the file named", z3.BoolVal(len(saved) == 1 and saved[0][0] is g and saved[0][1] == "new"))
    tt = {s: dict(d.items()) for s, d in g.traveltimes.items()}
    oblige("every station's traveltimes under the phase's own name", z3.BoolVal(set(tt) == set(tables) and all(set(tt[s]) == {"P", "S"} and all(tt[s][p] is tables[s][p] for p in "PS") for s in tables)))
    n, s = g.node_count, g.node_spacing
    oblige("the grid is the old one", z3.And(*[z3.And(n.at(q).e == nc.at(q).e, s.at(q).e == sp.at(q).e) for q in range(3)]))
    oblige("the new names are in use", z3.BoolVal("_node_count" in vars(g) and "_node_spacing" in vars(g) and not hasattr(g, "maps")))
    oblige("P and S, with the usual uncertainty", z3.And(z3.BoolVal(list(g.phases) == ["P", "S"]), rl(num(g.fraction_tt).e) == z3.RealVal("0.1")))


# ------------------------------------------------------------------ C05, C18: options of the onset
@contract("stalta.gaussian_halfwidth, aliases", "C05 C18", "signal/onsets/stalta.py:STALTAOnset.gaussian_halfwidth, signal/onsets/stalta.py:STALTAOnset.onset_centred, signal/onsets/stalta.py:STALTAOnset.p_bp_filter, signal/onsets/stalta.py:STALTAOnset.s_bp_filter, signal/onsets/stalta.py:STALTAOnset.p_onset_win, signal/onsets/stalta.py:STALTAOnset.s_onset_win")
def onset_options():
    w = loader.World()
    m, o, sr, k, (s1, l1, s2, l2) = fresh_onset(w)
    m.print = lambda *a, **k: None
    for ph, s in (("P", s1), ("S", s2)):
        oblige(f"half of the {ph} short window, in samples", 2 * rl(num(o.gaussian_halfwidth(ph)).e) == s.e * rl(sr.e))
    o.position = "classic"
    o.bandpass_filters = {"P": "pf", "S": "sf"}
    wp, ws = o.sta_lta_windows["P"], o.sta_lta_windows["S"]
    o.onset_centred = o.p_bp_filter = o.s_bp_filter = o.p_onset_win = o.s_onset_win = None
    oblige("nothing given, nothing changed", z3.BoolVal(o.position == "classic" and o.bandpass_filters == {"P": "pf", "S": "sf"} and o.sta_lta_windows["P"] is wp and o.sta_lta_windows["S"] is ws))
    oblige("reading the old names", z3.BoolVal(o.p_bp_filter == "pf" and o.s_bp_filter == "sf" and o.p_onset_win is wp and o.s_onset_win is ws))
    a, b = object(), object()
    o.p_bp_filter, o.s_onset_win = a, b
    oblige("the P filter alone, the S windows alone", z3.BoolVal(o.bandpass_filters == {"P": a, "S": "sf"} and o.sta_lta_windows["S"] is b and o.sta_lta_windows["P"] is wp))
    o.s_bp_filter, o.p_onset_win = b, a
    oblige("the S filter, the P windows", z3.BoolVal(o.bandpass_filters == {"P": a, "S": b} and o.sta_lta_windows["S"] is b and o.sta_lta_windows["P"] is a))
    o.onset_centred = True
    oblige("centred when asked", z3.BoolVal(o.position == "centred"))
    o.onset_centred = False
    oblige("classic when asked", z3.BoolVal(o.position == "classic"))


@contract("stalta.CentredSTALTAOnset, ClassicSTALTAOnset", "C05", "signal/onsets/stalta.py:CentredSTALTAOnset.__init__, signal/onsets/stalta.py:ClassicSTALTAOnset.__init__, signal/onsets/base.py:Onset.__init__")
def onset_classes():
    w = loader.World()
    m = w.module("quakemigrate.signal.onsets.stalta")
    m.print = lambda *a, **k: None
    sr, = reals("rate")
    o = m.CentredSTALTAOnset(sampling_rate=sr, signal_transform="abs")
    oblige("the centred onset", z3.And(z3.BoolVal(o.position == "centred" and o.signal_transform == "abs"), num(o.sampling_rate).e == sr.e))
    o = m.ClassicSTALTAOnset(sampling_rate=sr)
    oblige("the classic onset", z3.And(z3.BoolVal(o.position == "classic"), num(o.sampling_rate).e == sr.e))
    try:
        m.STALTAOnset()
        no = False
    except ValueError:
        no = True
    oblige("no onset without a sampling rate", z3.BoolVal(no))


@contract("onset.OnsetData", "C06 C21", "signal/onsets/base.py:OnsetData.__init__")
def onset_data():
    w = loader.World()
    m = w.module("quakemigrate.signal.onsets.base")
    names = "onsets phases channel_maps filtered_waveforms availability starttime endtime sampling_rate".split()
    v = {n: object() for n in names}
    o = m.OnsetData(*v.values())
    oblige("each under its own name", z3.BoolVal(all(getattr(o, n) is v[n] for n in names)))


# ------------------------------------------------------------------ C09: smoothing
@contract("trigger._smooth_coa", "C09 C12", "signal/trigger.py:Trigger._smooth_coa", ["scipy's gaussian_filter1d is a function of the column, width and truncation"])
def smooth_coa():
    w = loader.World(models={"pyproj": PyprojModel("pyproj")})
    m = w.module("quakemigrate.signal.trigger")
    t = object.__new__(m.Trigger)
    sg, wd, sr = reals("sigma", "width", "rate")
    t.smoothing_kernel_sigma, t.smoothing_kernel_width = sg, wd

    def smooth(x, s, **k):
        if set(k) != {"truncate"} or not isinstance(x, str):
            raise core.Unsupported("smoothed in another way")
        oblige("the width of the kernel in samples, cut where asked", z3.And(rl(num(s).e) == sg.e * sr.e, num(k["truncate"]).e == wd.e))
        return "smooth " + x
    m.gaussian_filter1d = smooth
    cols = {"DT": "dt", "COA": "coa", "COA_N": "coa_n", "X": "x"}

    class Loc:
        def __getitem__(self, k):
            return cols[k[1]]

        def __setitem__(self, k, v):
            if k[0] != slice(None):
                raise core.Unsupported("rows chosen")
            cols[k[1]] = v

    class Data:
        loc = Loc()

        def __getitem__(self, k):
            return cols[k]

        def __setitem__(self, k, v):
            cols[k] = v
    d = Data()
    r = t._smooth_coa(d, sr)
    oblige("both traces smoothed, once, nothing else changed", z3.BoolVal(r is d and cols == {"DT": "dt", "COA": "smooth coa", "COA_N": "smooth coa_n", "X": "x"}))


# ------------------------------------------------------------------ C16, C24: asking for locations
@contract("scan.QuakeScan.locate", "C16 C24", "signal/scan.py:QuakeScan.locate", ["_locate_events by its own contract"])
def locate():
    w = loader.World(models={"pyproj": PyprojModel("pyproj")})
    m = w.module("quakemigrate.signal.scan")
    calls = []
    cls = type("Own", (m.QuakeScan,), {"_locate_events": lambda self, **k: calls.append(k), "__str__": lambda self: ""})
    s = object.__new__(cls)
    s.run = Ns(stage=None, logger=lambda *a: None)
    s.log, s.mags, s.picker, s.onset = False, None, None, ""
    s.marginal_window, s.threads, s.pre_pad, s.post_pad = reals("mw", "th", "pp", "qp")

    class Text:
        def __init__(self, n):
            self.t = UTC(z3.Real(n))
    a, b = Text("start"), Text("end")
    m.UTCDateTime = lambda x: x.t if isinstance(x, Text) else _stop()
    has = [bool(C.choose(2, x)) for x in ("start", "end", "file")]
    kw = {}
    if has[0]:
        kw["starttime"] = a
    if has[1]:
        kw["endtime"] = b
    if has[2]:
        kw["trigger_file"] = "file"
    if has[0] != has[1]:
        return
    try:
        s.locate(**kw)
    except m.util.TimeSpanException:
        oblige("refused only if the start is after the end", z3.And(z3.BoolVal(has[0]), a.t.e > b.t.e))
        return
    except RuntimeError:
        oblige("refused only with nothing to locate", z3.BoolVal(not any(has)))
        return
    if has[0]:
        oblige("a start after the end is refused", a.t.e <= b.t.e)
    oblige("one pass over the events asked for", z3.BoolVal(len(calls) == 1))
    c = calls[0]
    if has[2]:
        oblige("the file's events", z3.BoolVal(c.get("trigger_file") == "file"))
    else:
        oblige("the events of the time span", z3.BoolVal(c.get("starttime") is a.t and c.get("endtime") is b.t and c.get("trigger_file") is None))
    oblige("output of the locate stage", z3.BoolVal(s.run.stage == "locate"))


def _stop():
    raise core.Unsupported("time of another kind")
