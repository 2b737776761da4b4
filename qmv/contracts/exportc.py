"""Contracts on the exported catalogues (quakemigrate.export): C26."""
from __future__ import annotations

import itertools
import re
import types

import z3

from .. import core, loader
from ..arr import iv
from ..core import C, SBool, SNum, num, oblige
from ..loops import Char, Comp, Joined, QList, QSeq
from ..models.obspy_m import FIELDS, UTC
from .base import contract
from .corelib import ints
from .filec import GUESS, Place, asks_text, place
from .utilc import utc


IDS = itertools.count()


class Thing:
    """an object of an event catalogue: what is set on it"""
    LISTS = ("picks", "origins", "amplitudes", "station_magnitudes", "magnitudes")

    def __init__(self, *a, **k):
        if a:
            raise core.Unsupported("catalogue object made with positional arguments")
        self.__dict__["resource_id"] = f"id{next(IDS)}"
        if type(self).__name__ == "Event":
            self.__dict__.update({n: QList() for n in Thing.LISTS})
        for n, v in k.items():
            setattr(self, n, v)

    def __getattr__(self, n):
        if n.endswith("_errors"):
            self.__dict__[n] = v = Errors()
            return v
        if n.startswith("_"):
            raise AttributeError(n)
        return None


class Errors:
    uncertainty = lower_uncertainty = upper_uncertainty = None


class Attr:
    """AttribDict"""

    def __getitem__(self, k):
        return self.__dict__[k]

    def __setitem__(self, k, v):
        self.__dict__[k] = v


def kinds(*names):
    return types.SimpleNamespace(**{n: type(n, (Thing,), {}) for n in names})


class When:
    """a time as written in a file: text, -1 where there is none"""

    def __init__(self, e, there, none):
        self.e, self.there, self.none = e, there, none

    def _qm_str(self):
        return WhenText(self.e, self.there)

    def __eq__(self, o):
        if isinstance(o, str):
            return WhenText(self.e, self.there) == o if o != "-1" else SBool(z3.And(z3.Not(self.there), z3.Not(self.none)))
        # a column without any time holds numbers
        return SBool(z3.And(z3.Not(self.there), self.none)) if o == -1 else False

    def __ne__(self, o):
        v = self == o
        return SBool(z3.Not(v.e)) if isinstance(v, SBool) else not v

    __hash__ = None

    def _qm_subst(self, f):
        return type(self)(f(self.e), f(self.there), f(self.none))

    def _qm_unmark(self):
        if not C.decide(self.there):
            raise core.real(ValueError("-1 is no time"))
        return UTC(self.e), ""


class WhenText(When):
    def __init__(self, e, there, none=z3.BoolVal(False)):
        super().__init__(e, there, none)

    def _qm_str(self):
        return self

    def __eq__(self, o):
        if o != "-1":
            if isinstance(o, str):
                raise core.Unsupported("the text of a time")
            return False
        return SBool(z3.Not(self.there))

    __hash__ = None


class Line:
    """a row of a file"""

    def __init__(self, f):
        self.f = f

    def __getitem__(self, c):
        if not isinstance(c, str):
            raise core.Unsupported("row element")
        if c not in self.f:
            raise core.real(KeyError(c))
        return self.f[c]

    def get(self, c, d=None):
        return self.f.get(c, d)

    def __contains__(self, c):
        return c in self.f

    @property
    def index(self):
        return list(self.f)

    def __getattr__(self, c):
        if c.startswith("_") or c not in self.__dict__.get("f", {}):
            raise AttributeError(c)
        return self.__dict__["f"][c]


class Lines:
    """the rows of a file"""

    def __init__(self, n, row):
        self.n, self.row = n, row

    @property
    def columns(self):
        return list(self.row(z3.IntVal(0)).f)

    def iterrows(self):
        return QSeq(SNum(self.n), lambda k: (SNum(core.ex(k)), self.row(core.ex(k))))

    @property
    def iloc(self):
        f = self

        class I:
            def __getitem__(s, k):
                if isinstance(k, (int, SNum)):
                    if not f.n.eq(z3.IntVal(1)):
                        oblige("a row of the file", z3.And(iv(k) >= 0, iv(k) < f.n))
                    return f.row(z3.simplify(iv(k)))
                raise core.Unsupported("iloc")
        return I()

    def to_dict(self, orient="dict"):
        if orient != "records":
            raise core.Unsupported("to_dict")
        return QSeq(SNum(self.n), lambda k: self.row(core.ex(k)))

    def sym_len(self):
        return SNum(self.n)

    @property
    def shape(self):
        return SNum(self.n), len(self.columns)

    @property
    def empty(self):
        return SBool(self.n == 0)


def here(p):
    return types.SimpleNamespace(Path=lambda *a: a[0] if isinstance(a[0], Place) else Place(a))


def core_isna(x):
    if isinstance(x, SNum):
        return SBool(x.nan if x.nan is not None else z3.BoolVal(False))
    raise core.Unsupported("isna of something else")


def core_not(x):
    return SBool(z3.Not(x.e))


def of_text(x):
    """the value behind a text"""
    if isinstance(x, str):
        u = core.unmark(x)
        if u is None or u[1]:
            raise core.Unsupported("text made in another way")
        return num(u[0]).e
    return num(x).e


K2D = z3.Function("kilometer2degrees", core.R, core.R)
EVENTS = ["X", "Y", "Z", "GAU_X", "GAU_Y", "GAU_Z", "GAU_ErrX", "GAU_ErrY", "GAU_ErrZ", "COV_ErrX", "COV_ErrY", "COV_ErrZ",
          "COV_Err_XYZ", "COA", "COA_NORM", "TRIG_COA", "DEC_COA", "DEC_COA_NORM", "ML", "ML_Err", "ML_r2"]


def is_(label, got, want):
    """a number of the catalogue"""
    if got is None or isinstance(got, (str, bool)):
        oblige(label, z3.BoolVal(False))
    else:
        oblige(label, num(got).e == want)


def chosen(lst, j):
    """what row j contributes to a list filled row by row, in order"""
    ps = lst.parts() if isinstance(lst, QList) else list(lst)
    out = []
    for p in ps:
        if not isinstance(p, Comp):
            out.append(p)
            continue
        oblige("every row is looked at", z3.Implies(p.guard(j), z3.And(j >= 0, j < iv(p.n))))
        if C.decide(p.guard(j)):
            e = p.elem(j)
            out.append(e.get() if hasattr(e, "get") and type(e).__name__ == "_Alt" else e)
    return out


def event_part(part):
    return contract(f"to_obspy._read_single_event: {part}", "C26 C24", "export/to_obspy.py:_read_single_event", [
           "pandas.read_csv gives the values written in the files; columns are read as text only when asked for",
           "ObsPy's event classes hold what is set on them", "an .amps file comes with magnitudes in the .event file"])(lambda: to_obspy_event(part))


def to_obspy_event(part):
    """one event: its locations, its picks or its amplitudes"""
    ev = kinds("Event", "Origin", "OriginUncertainty", "ConfidenceEllipsoid", "Pick", "TimeWindow", "WaveformStreamID", "CreationInfo", "Amplitude",
               "StationMagnitude", "Magnitude")
    obspy = types.SimpleNamespace(Catalog=None, UTCDateTime=UTC, __version__="0")
    geo = types.SimpleNamespace(kilometer2degrees=lambda x, radius=None: SNum(K2D(core.rl(num(x).e))))
    w = loader.World(models={"quakemigrate": types.SimpleNamespace(__version__="VERSION"), "obspy": obspy, "obspy.core": types.SimpleNamespace(AttribDict=Attr),
                             "obspy.core.event": ev, "obspy.geodetics": geo})
    m = w.module("quakemigrate.export.to_obspy")
    have = {s: z3.Bool("have_" + s) for s in ("picks", "amplitudes", "real_cut_waveforms", "wa_cut_waveforms")}
    n, na = ints("n", "na")
    C.assume(z3.And(n.e >= 0, na.e >= 0))
    uid = "20210101000000123"
    base = ("RUN", "locate", "SUB")

    def there(p):
        if p.p == base + ("picks", uid + ".picks"):
            return SBool(have["picks"])
        if p.p == base + ("amplitudes", uid + ".amps"):
            return SBool(have["amplitudes"])
        for s in ("real_cut_waveforms", "wa_cut_waveforms"):
            if p.p == base + (s,):
                return SBool(have[s])
        oblige("files of this event are looked for: " + str(p), z3.BoolVal(False))
    unit = ["km", "m"][C.choose(2, "units") if part == "locations" else 0]
    mag = part == "amplitudes" or part == "locations" and C.choose(2, "magnitudes") == 1
    if part != "locations":
        C.assume(z3.And(have["picks"], z3.Not(have["real_cut_waveforms"]), z3.Not(have["wa_cut_waveforms"])))
    if not mag:
        C.assume(z3.Not(have["amplitudes"]))
    R = lambda c: z3.Function(c, core.I, core.R)
    none = z3.Bool("no_pick_at_all")
    picked = z3.Function("picked", core.I, core.B)
    C.foralls.append(lambda q: z3.Implies(none, z3.Not(picked(q))))
    old = part == "amplitudes" and C.choose(2, "old amplitude file") == 1
    info = {c: SNum(R(c)(0)) for c in EVENTS if mag or not c.startswith("ML")}
    info.update({"EventID": uid, "DT": When(R("DT")(0), z3.BoolVal(True), z3.BoolVal(False))})

    def read_csv(f, **k):
        p = place(f)
        opts = set(k) - {"dtype"}
        if opts or "dtype" in k and not isinstance(k["dtype"], dict):
            raise core.Unsupported("read with options")
        if p.p == base + ("events", uid + ".event"):
            return Lines(z3.IntVal(1), lambda q: Line(info))
        if p.p == base + ("picks", uid + ".picks"):
            oblige("only files which are there are read", have["picks"])

            def row(q):
                own = z3.Function("station", core.I, core.I)(q)
                return Line({"Station": SNum(own if asks_text(k, "Station") else GUESS(own)),
                             "Phase": SNum(z3.Function("phase", core.I, core.I)(q)),
                             "ModelledTime": When(R("modelled")(q), z3.BoolVal(True), z3.BoolVal(False)),
                             "PickTime": When(R("pick")(q), picked(q), none),
                             **{c: SNum(R(c)(q)) for c in ("PickError", "SNR", "Residual")}})
            return Lines(n.e, row)
        if p.p == base + ("amplitudes", uid + ".amps"):
            oblige("only files which are there are read", have["amplitudes"])

            def arow(q):
                f = {"id": SNum(z3.Function("id", core.I, core.I)(q))}
                for c in ("epi_dist", "z_dist", "Noise_amp", "ML_Err"):
                    f[c] = SNum(R("A:" + c)(q))
                f["ML"] = SNum(R("A:ML")(q), z3.Function("noML", core.I, core.B)(q))
                f["is_picked"] = SBool(z3.Function("A:is_picked", core.I, core.B)(q))
                for ph in "PS":
                    f[ph + "_amp"] = SNum(R(f"A:{ph}_amp")(q), z3.Function(f"no{ph}", core.I, core.B)(q))
                    f[ph + "_time"] = When(R(f"A:{ph}_time")(q), z3.BoolVal(True), z3.BoolVal(False))
                    for c in ("_freq", ) + (() if old else ("_filter_gain", "_avg_amp")):
                        f[ph + c] = SNum(R("A:" + ph + c)(q))
                return Line(f)
            return Lines(na.e, arow)
        oblige("files of this event are read: " + str(p), z3.BoolVal(False))
    m.pd = types.SimpleNamespace(read_csv=read_csv, isna=core_isna, isnull=core_isna, notna=lambda x: core_not(core_isna(x)))
    C.assume(R("DT")(0) >= 0)
    for q in "PS":
        C.foralls.append(lambda i, q=q: R(f"A:{q}_freq")(i) > 0)
    ph = "PS"[C.choose(2, "phase of the magnitude")] if part == "amplitudes" else "S"
    e = m._read_single_event(Place(base, {"have": there}) / "events" / (uid + ".event"), Place(base, {"have": there}), unit, ph)
    f = 1000 if unit == "km" else 1
    if e is None:
        oblige("left out only when it has no picks file", z3.Not(have["picks"]))
        return
    oblige("in the catalogue only with a picks file", have["picks"])
    if part == "locations":
        return locations(e, info, R, f, uid, mag)
    if part == "picks":
        return the_picks(e, R, n, picked)
    # ---- amplitudes
    if C.decide(z3.Not(have["amplitudes"])):
        oblige("no amplitudes without an .amps file", z3.BoolVal(not e.amplitudes.parts()))
        return
    a = C.skolem("a")
    C.assume(z3.And(a >= 0, a < na.e))
    got = chosen(e.amplitudes, a)
    kinds_ = sorted(str(x.method_id) for x in got)
    no = {q: z3.Function(f"no{q}", core.I, core.B)(a) for q in "PS"}
    oblige("an amplitude of every phase measured, and no other", z3.And(
        z3.BoolVal(len(set(kinds_)) == len(kinds_) and set(kinds_) <= {"P_amp", "S_amp"}),
        *[no[q] == z3.BoolVal(q + "_amp" not in kinds_) for q in "PS"]))
    mags = chosen(e.station_magnitudes, a)
    noML = z3.Function("noML", core.I, core.B)(a)
    oblige("one station magnitude when its phase was measured and it has a magnitude", z3.And(
        z3.BoolVal(len(mags) <= 1), z3.And(z3.Not(noML), z3.Not(no[ph])) == z3.BoolVal(len(mags) == 1)))
    for x in got:
        q = x.method_id[0]
        is_("amplitude in metres", x.generic_amplitude, R(f"A:{q}_amp")(a) / 1000)
        is_("noise amplitude in metres", x.generic_amplitude_errors.uncertainty, R("A:Noise_amp")(a) / 1000)
        oblige("the unit is declared", z3.BoolVal(x.unit == "m"))
        is_("the period of its own frequency", x.period, 1 / R(f"A:{q}_freq")(a))
        oblige("the time of the measurement", num(x.time_window.reference).e == R(f"A:{q}_time")(a))
        oblige("its own channel", of_text(x.waveform_id.seed_string) == z3.Function("id", core.I, core.I)(a))
        if not old:
            is_("its own filter gain", x.extra.filter_gain["value"], R(f"A:{q}_filter_gain")(a))
            is_("its own average amplitude in metres", x.extra.avg_amp["value"], R(f"A:{q}_avg_amp")(a) / 1000)
    for x in mags:
        is_("station magnitude as written", x.mag, R("A:ML")(a))
        is_("error of a station magnitude as written", x.mag_errors.uncertainty, R("A:ML_Err")(a))
        mine = [y for y in got if y.method_id == ph + "_amp"]
        oblige("a station magnitude belongs to the amplitude of its phase", z3.BoolVal(bool(mine) and x.amplitude_id == mine[0].resource_id))
        for c in ("epi_dist", "z_dist"):
            is_("distances as written", getattr(x.extra, c)["value"], R("A:" + c)(a))
    mg = e.magnitudes.parts() if isinstance(e.magnitudes, QList) else list(e.magnitudes)
    ok = lambda i: z3.And(z3.Not(z3.Function("noML", core.I, core.B)(i)), z3.Not(z3.Function(f"no{ph}", core.I, core.B)(i)))
    cnt = core.ssum(0, na, lambda i: SNum(z3.If(ok(core.ex(i)), z3.RealVal(1), z3.RealVal(0))))
    oblige("the number of station magnitudes", num(mg[0].station_count).e == z3.ToInt(cnt.e))
    oblige("one magnitude, preferred", z3.BoolVal(len(mg) == 1 and e.preferred_magnitude_id == mg[0].resource_id))
    is_("magnitude as written", mg[0].mag, R("ML")(0))
    is_("magnitude error as written", mg[0].mag_errors.uncertainty, R("ML_Err")(0))


def locations(e, info, R, f, uid, mag):
    oblige("the identifier of the event", z3.BoolVal(e.resource_id == uid))
    os_ = e.origins.parts() if isinstance(e.origins, QList) else list(e.origins)
    by = {o.method_id: o for o in os_}
    oblige("a spline and a Gaussian location, the spline preferred", z3.BoolVal(
        sorted(by) == ["gaussian", "spline"] and len(os_) == 2 and e.preferred_origin_id == by["spline"].resource_id))
    for k, pre in (("spline", ""), ("gaussian", "GAU_")):
        o = by[k]
        oblige("origin time as written", z3.And(z3.BoolVal(isinstance(o.time, UTC)), num(o.time).e == R("DT")(0)))
        is_("longitude", o.longitude, R(pre + "X")(0))
        is_("latitude", o.latitude, R(pre + "Y")(0))
        is_("depth in metres", o.depth, R(pre + "Z")(0) * f)
        is_("depth uncertainty in metres", o.depth_errors.uncertainty, R("GAU_ErrZ")(0) * f)
        # degrees of the uncertainty in km
        is_("longitude uncertainty in degrees", o.longitude_errors.uncertainty, K2D(R("GAU_ErrX")(0) * f / 1000))
        is_("latitude uncertainty in degrees", o.latitude_errors.uncertainty, K2D(R("GAU_ErrY")(0) * f / 1000))
        ce = o.origin_uncertainty.confidence_ellipsoid
        ax = [ce.semi_major_axis_length, ce.semi_intermediate_axis_length, ce.semi_minor_axis_length]
        if any(a is None for a in ax):
            oblige("the three axes of the ellipsoid", z3.BoolVal(False))
        cov = [R("COV_Err" + c)(0) * f for c in "XYZ"]
        oblige("the axes of the ellipsoid are the covariance uncertainties in metres", z3.Or(*[
            z3.And(*[num(a).e == cov[p] for a, p in zip(ax, per)]) for per in itertools.permutations(range(3))]))
    for c, col in (("coa", "COA"), ("coa_norm", "COA_NORM"), ("trig_coa", "TRIG_COA"), ("dec_coa", "DEC_COA"), ("dec_coa_norm", "DEC_COA_NORM")):
        is_("coalescence values as written", getattr(e.extra, c)["value"], R(col)(0))


def the_picks(e, R, n, picked):
    j = C.skolem("j")
    C.assume(z3.And(j >= 0, j < n.e))
    got = chosen(e.picks, j)
    kinds_ = sorted(str(p.method_id) for p in got)
    oblige("one modelled pick of every row, one automatic pick exactly for those picked", z3.And(
        z3.BoolVal(kinds_ in (["modelled"], ["autopick", "modelled"])), picked(j) == z3.BoolVal("autopick" in kinds_)))
    for p in got:
        oblige("a pick is at its own station", of_text(p.waveform_id.station_code) == z3.Function("station", core.I, core.I)(j))
        oblige("a pick has its own phase", of_text(p.phase_hint) == z3.Function("phase", core.I, core.I)(j))
        oblige("the pick time as written", z3.And(z3.BoolVal(isinstance(p.time, UTC)), num(p.time).e == R("pick" if p.method_id == "autopick" else "modelled")(j)))
        if p.method_id == "autopick":
            is_("the pick error as written", p.time_errors.uncertainty, R("PickError")(j))
            is_("the signal-to-noise ratio as written", p.extra.snr["value"], R("SNR")(j))


for part_ in ("locations", "picks", "amplitudes"):
    event_part(part_)


# ------------------------------------------------------------------ text files
class Handle:
    """a file being written"""

    def __init__(self, where):
        self.where, self.lines = where, QList()

    def write(self, s):
        list.append(self.lines, s) if not isinstance(self.lines, QList) else self.lines.append(s)

    def writelines(self, s):
        if not isinstance(s, list) or isinstance(s, QList) and s.symbolic():
            raise core.Unsupported("writelines")
        for x in s:
            self.write(x)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def opener(files):
    def op(p, mode="r", **k):
        if mode not in ("w", "wt"):
            raise core.Unsupported("file opened in another way")
        h = Handle(place(p))
        files.append(h)
        return h
    return op


def pieces(h):
    """what has been written, with texts of lists opened"""
    out = []
    for x in h.lines.parts():
        k = C.raw("ch", core.I)
        if isinstance(x, Comp):
            y = x.elem(k)
            if isinstance(y, Char):
                # character by character
                oblige("every character is written", z3.And(iv(x.n) == y.text.n, z3.Implies(z3.And(k >= 0, k < y.text.n), z3.And(x.guard(k), y.k == k))))
                x = y.text
        if isinstance(x, Joined):
            ps = x.lst.parts() + ([x.after] if x.after else [])
            if x.after and x.sep:
                ps[-1] = "" if x.after == x.sep else "more" + x.after
            oblige("one line after the other", z3.BoolVal(x.sep == "\n" and ps[-1] == "" or x.sep == ""))
            ps = ps[:-1] if x.sep else ps
            for q in ps:
                out.append(Comp(q.n, q.guard, lambda j, q=q, sep=x.sep: q.elem(j) + sep) if isinstance(q, Comp) else q + x.sep)
        else:
            out.append(x)
    return out


def digits(text, t):
    """characters of a text and numbered digits of the time t it shows"""
    from ..models.obspy_m import TimeText
    out = []
    for s in re.split("(\u27e8\\d+\u27e9)", text):
        m = re.fullmatch("\u27e8(\\d+)\u27e9", s)
        if not m:
            out += list(s)
            continue
        _, v, spec = C.markers[int(m.group(1))]
        if isinstance(v, UTC):
            oblige("the time of this pick", v.e == t)
            for part in re.findall("%.|[^%]+", spec):
                out += FIELDS.get(part[1], ["\1"]) if part[0] == "%" else list(part)
        elif isinstance(v, TimeText):
            oblige("the time of this pick", v.t.e == t)
            out += v.toks
        else:
            out.append((v, spec))
    return out


def number_of(f, t):
    """the number a field of a time shows"""
    u = UTC(t)
    return {"Y": u.year, "m": u.month, "d": u.day, "H": u.hour, "M": u.minute, "S": u.second, "f": u.microsecond}[f].e


def shows_time(label, text, t, layout):
    """text begins with the time t in the given layout; what follows it"""
    got = digits(text, t)
    for part in re.findall("%.|[^%]", layout):
        if part[0] != "%":
            if not got or isinstance(got[0], tuple) and got[0][1] != "sep":
                raise core.Unsupported("time shown in another way")
            oblige(label, z3.BoolVal(got[0] == part))
            got = got[1:]
            continue
        want = FIELDS[part[1]]
        if got and isinstance(got[0], tuple):
            v, spec = got[0]
            got = got[1:]
            if spec not in ("", "d"):
                m = re.fullmatch("0>?(\\d+)d?", spec)
                if not m:
                    raise core.Unsupported("number shown in another way")
                wide = int(m.group(1))
            else:
                wide = 0
            oblige(f"{label}: digits of %{part[1]}", z3.BoolVal(part[1] == "Y" or wide == len(want)))
            if isinstance(v, core.SNum) and v.e.sort() == core.I:
                oblige(f"{label}: %{part[1]}", v.e == number_of(part[1], t))
            else:
                raise core.Unsupported("number shown in another way")
        else:
            oblige(f"{label}: %{part[1]}", z3.BoolVal(got[:len(want)] == want))
            got = got[len(want):]
    return got


class Either:
    """a text which is one of two"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return SBool(z3.Or(z3.And(self.c, z3.BoolVal(o == self.a)), z3.And(z3.Not(self.c), z3.BoolVal(o == self.b))))

    def __ne__(self, o):
        v = self == o
        return True if v is False else SBool(z3.Not(v.e))

    __hash__ = None

    def _qm_subst(self, f):
        return Either(f(self.c), self.a, self.b)

    def _qm_str(self):
        return core.marker(SBool(self.c), f"{self.a}/{self.b}")

    def __format__(self, spec):
        return core.marker(SBool(self.c), f"{self.a}/{self.b}")


def text_now(text, val):
    """text with the two-way texts resolved: val is the truth of their condition on this path"""
    def f(m):
        _, v, spec = C.markers[int(m.group(1))]
        if isinstance(v, SBool) and "/" in spec:
            return spec.split("/")[0 if C.decide(v.e) else 1]
        return m.group(0)
    return re.sub("\u27e8(\\d+)\u27e9", f, text)


def tail(toks):
    return "".join(x if isinstance(x, str) else "\0" for x in toks), [x for x in toks if not isinstance(x, str)]


STA = z3.Function("station", core.I, core.I)


@contract("to_snuffler.snuffler_markers", "C26", "export/to_snuffler.py:snuffler_markers", ["times are whole microseconds", "picks are of P or S phases"])
def markers():
    w = loader.World()
    m = w.module("quakemigrate.export.to_snuffler")
    files = []
    m.pathlib = here(None)
    n, = ints("n")
    C.assume(n.e >= 0)
    PT, isP = z3.Function("pick_time", core.I, core.R), z3.Function("isP", core.I, core.B)
    t0 = z3.Real("origin_time")
    pick = lambda k: types.SimpleNamespace(time=UTC(PT(k)), phase_hint=Either(isP(k), "P", "S"),
                                           waveform_id=types.SimpleNamespace(network_code="", station_code=SNum(STA(k)), channel_code=None))
    e = types.SimpleNamespace(resource_id="EVENT", origins=[types.SimpleNamespace(time=UTC(t0))], picks=QSeq(n, lambda k: pick(core.ex(k))))
    name = [None, "FILE"][C.choose(2, "file name")]
    m.snuffler_markers(e, Place(("OUT",), {"open": opener(files)}), name)
    oblige("one file", z3.BoolVal(len(files) == 1))
    oblige("the file asked for", z3.BoolVal(files[0].where.p == ("OUT", "EVENT", name or "EVENT.markers")))
    ps = pieces(files[0])
    oblige("a heading, then the event", z3.BoolVal(len(ps) > 1 and isinstance(ps[0], str) and ps[0].startswith("#") and ps[0].endswith("\n")))
    head = "".join(p for p in ps[1:] if isinstance(p, str))
    oblige("an event line", z3.BoolVal(head.startswith("event: ") and head.endswith("\n") and head.count("\n") == 1))
    rest, vals = tail(shows_time("origin time", head[7:], t0, "%Y-%m-%d %H:%M:%S.%f "))
    oblige("the event's name", z3.BoolVal("EVENT" in rest.split()))
    j = C.skolem("j")
    C.assume(z3.And(j >= 0, j < n.e))
    mine = chosen([p for p in ps if isinstance(p, Comp)], j)
    oblige("a line of every pick", z3.BoolVal(bool(mine) and all(isinstance(x, str) for x in mine)))
    line = text_now("".join(mine), None)
    ph = "P" if C.decide(isP(j)) else "S"
    oblige("one line of every pick", z3.BoolVal(line.startswith("phase: ") and line.endswith("\n") and line.count("\n") == 1))
    rest, vals = tail(shows_time("pick time", line[7:], PT(j), "%Y-%m-%d %H:%M:%S.%f "))
    f = rest.split()
    oblige("its station and phase", z3.And(z3.BoolVal(len(f) == 8 and f[1].startswith(".\0.") and f[5] == ph and len(vals) == 1), num(vals[0][0]).e == STA(j) if vals else z3.BoolVal(True)))


@contract("to_snuffler.snuffler_stations", "C26", "export/to_snuffler.py:snuffler_stations")
def stations():
    w = loader.World()
    m = w.module("quakemigrate.export.to_snuffler")
    files = []
    m.pathlib = here(None)
    n, = ints("n")
    C.assume(n.e >= 0)
    how = C.choose(3, "network")
    T = lambda c: z3.Function(c, core.I, core.I)
    R = lambda c: z3.Function(c, core.I, core.R)
    row = lambda k: Line({"Name": SNum(T("Name")(k)), **({"Network": SNum(T("Network")(k))} if how == 1 else {}),
                          **{c: SNum(R(c)(k)) for c in ("Latitude", "Longitude", "Elevation")}})
    m.snuffler_stations(Lines(n.e, lambda k: row(core.ex(k))), Place(("OUT",), {"open": opener(files)}), "FILE", *(["NW"] if how == 2 else []))
    oblige("one file", z3.BoolVal(len(files) == 1))
    oblige("the file asked for", z3.BoolVal(files[0].where.p == ("OUT", "FILE")))
    ps = pieces(files[0])
    oblige("only lines of stations", z3.BoolVal(not "".join(p for p in ps if isinstance(p, str))))
    j = C.skolem("j")
    C.assume(z3.And(j >= 0, j < n.e))
    mine = chosen([p for p in ps if isinstance(p, Comp)], j)
    oblige("a line of every station", z3.BoolVal(bool(mine) and all(isinstance(x, str) for x in mine)))
    line = "".join(mine)
    f = line.split(" ")
    oblige("one line of every station", z3.BoolVal(line.endswith("\n") and line.count("\n") == 1 and len(f) == 5))
    code = f[0].split(".")
    oblige("network, station and no location", z3.BoolVal(len(code) == 3 and code[2] == ""))

    def shows_(label, text, e):
        u = core.unmark(text)
        if u is None or u[1]:
            if u is None and "\u27e8" not in text:
                oblige(label, z3.BoolVal(False))
            raise core.Unsupported("shown in another way")
        oblige(label, num(u[0]).e == e)
    if how == 1:
        shows_("its own network", code[0], T("Network")(j))
    else:
        oblige("the network asked for", z3.BoolVal(code[0] == ("NW" if how == 2 else "")))
    shows_("its own name", code[1], T("Name")(j))
    shows_("its latitude", f[1], R("Latitude")(j))
    shows_("its longitude", f[2], R("Longitude")(j))
    shows_("its elevation", f[3], R("Elevation")(j))


@contract("to_nlloc.nlloc_obs", "C26", "export/to_nlloc.py:nlloc_obs", ["times are whole microseconds"])
def nlloc():
    ev = kinds("Event")
    w = loader.World(models={"obspy.core.event": ev})
    m = w.module("quakemigrate.export.to_nlloc")
    files = []
    m.open = opener(files)
    n, = ints("n")
    C.assume(n.e >= 0)
    PT, auto, isP, err = (z3.Function(c, core.I, s) for c, s in (("pick_time", core.R), ("is_autopick", core.B), ("isP", core.B), ("pick_error", core.R)))
    C.foralls.append(lambda q: z3.And(err(q) > 0, PT(q) * 1000000 == z3.ToReal(core.floor_(PT(q) * 1000000))))
    cha = [None, "HHZ"][C.choose(2, "channel")]

    def pick(k):
        return types.SimpleNamespace(method_id=Either(auto(k), "autopick", "modelled"), time=UTC(PT(k)), phase_hint="P", onset=None, polarity=None,
                                     waveform_id=types.SimpleNamespace(network_code="", station_code=core.marker(SNum(STA(k))), channel_code=cha),
                                     time_errors=types.SimpleNamespace(uncertainty=SNum(err(k)), lower_uncertainty=None, upper_uncertainty=None))
    e = ev.Event()
    e.picks = QSeq(n, lambda k: pick(core.ex(k)))
    which = C.choose(3, "kind of picks")
    m.nlloc_obs(e, "FILE", *[[], [True], [False]][which])
    oblige("one file", z3.BoolVal(len(files) == 1))
    oblige("the file asked for", z3.BoolVal(files[0].where.p == ("FILE",)))
    ps = pieces(files[0])
    oblige("only lines of picks", z3.BoolVal(not "".join(p for p in ps if isinstance(p, str)).strip("\n")))
    j = C.skolem("j")
    C.assume(z3.And(j >= 0, j < n.e))
    mine = chosen([p for p in ps if isinstance(p, Comp)], j)
    oblige("a line exactly of the picks asked for", z3.BoolVal(bool(mine)) == (auto(j) if which != 2 else z3.Not(auto(j))))
    if not mine:
        return
    line = "".join(mine)
    oblige("one line of every pick", z3.BoolVal(line.endswith("\n") and line.count("\n") == 1))
    f = line.split()
    oblige("the fields of a line", z3.BoolVal(len(f) in (14, 15) and f[9] == "GAU" and f[4] == "P" and f[2] == ("Z" if cha else "?")))
    u = core.unmark(f[0])
    oblige("its own station", num(u[0]).e == STA(j))
    left = shows_time("date", f[6], PT(j), "%Y%m%d")
    left += shows_time("hour and minute", f[7], PT(j), "%H%M")
    oblige("nothing else in the date", z3.BoolVal(not left))
    u = core.unmark(f[8])
    if u is None or not re.fullmatch("\\d*\\.\\d+f", u[1]):
        raise core.Unsupported("seconds shown in another way")
    oblige("seconds to a tenth of a millisecond", z3.BoolVal(int(u[1][:-1].split(".")[1]) >= 4))
    oblige("the seconds of the pick", core.rl(num(u[0]).e) == PT(j) - 60 * z3.ToReal(core.floor_(PT(j) / 60)))
    u = core.unmark(f[10])
    if u is None or not re.fullmatch("\\d*\\.\\d+[ef]", u[1]):
        raise core.Unsupported("error shown in another way")
    oblige("the pick error", z3.And(num(u[0]).e == err(j), z3.BoolVal(u[1][-1] == "e")))


class Found(QSeq):
    """the files found in a folder, one after the other"""

    def __next__(self):
        if not C.decide(iv(self.n) > 0):
            raise core.real(StopIteration())
        g = self.get
        f = g(z3.IntVal(0))
        self.n, self.get = SNum(iv(self.n) - 1), lambda k: g(core.ex(k) + 1)
        return f

    def _qm_list(self):
        return QSeq(self.n, self.get)


def chain(a, b):
    a = list(a)
    if len(a) > 1 or not isinstance(b, QSeq):
        raise core.Unsupported("chain")
    if not a:
        return b
    n, g = iv(b.n), b.get
    return QSeq(SNum(n + 1), lambda k: core.ite(core.ex(k) == 0, a[0], g(core.ex(k) - 1)))


class FileNo:
    def __init__(self, k):
        self.k = k

    def _qm_ite(self, c, a, b):
        if type(a) is not type(b):
            raise core.Unsupported("either of two things")
        return type(a)(z3.If(c, a.k, b.k))

    def _qm_subst(self, f):
        return type(self)(f(self.k))


class AnEvent(FileNo):
    pass


@contract("to_obspy.read_quakemigrate", "C26", "export/to_obspy.py:read_quakemigrate", ["the folder of events exists; glob finds its .event files"])
def read_catalogue():
    ev = kinds("Event", "Origin", "OriginUncertainty", "ConfidenceEllipsoid", "Pick", "TimeWindow", "WaveformStreamID", "CreationInfo", "Amplitude",
               "StationMagnitude", "Magnitude")

    class Catalog:
        def __init__(self):
            self.events = QList()
            self.creation_info = types.SimpleNamespace()

        def append(self, e):
            self.events.append(e)
    utc0 = lambda x=None: UTC(x) if x is not None else UTC(z3.Real("now"))
    obspy = types.SimpleNamespace(Catalog=Catalog, UTCDateTime=utc0, __version__="0")
    w = loader.World(models={"quakemigrate": types.SimpleNamespace(__version__="VERSION"), "obspy": obspy, "obspy.core": types.SimpleNamespace(AttribDict=Attr),
                             "obspy.core.event": ev, "obspy.geodetics": types.SimpleNamespace(kilometer2degrees=None)})
    m = w.module("quakemigrate.export.to_obspy")
    n, = ints("n")
    C.assume(n.e >= 0)
    got = []
    good = z3.Function("has_picks", core.I, core.B)
    sub = ["", "SUB"][C.choose(2, "subname")]
    units, ph = ["km", "m"][C.choose(2, "units")], [None, "P"][C.choose(2, "phase")]
    base = tuple(x for x in ("RUN", "locate", sub) if x)

    class P(Place):
        def __truediv__(self, s):
            return P(Place.__truediv__(self, s).p, self.fs) if s else self

        def glob(self, pattern):
            oblige("the event files of the run", z3.BoolVal(self.p == base + ("events",) and pattern == "*.event"))
            return Found(n, lambda k: FileNo(core.ex(k)))

        def is_dir(self):
            return True
        exists = is_dir

    def single(f, where, u, phase):
        oblige("files of this run, its units and the phase asked for", z3.BoolVal(
            isinstance(f, FileNo) and place(where).p == base and u == units and phase == (ph or "S")))
        return AnEvent(f.k) if C.decide(good(f.k)) else None
    m._read_single_event = single
    m.chain = chain
    m.pathlib = types.SimpleNamespace(Path=lambda *a: P(a))
    cat = m.read_quakemigrate("RUN", units, *([sub] if sub else []), **({"local_mag_ph": ph} if ph else {}))
    j = C.skolem("j")
    C.assume(z3.And(j >= 0, j < n.e))
    ps = cat.events.parts()
    if len([p for p in ps if isinstance(p, Comp)]) > 1:
        raise core.Unsupported("events collected in another way")
    found = []
    for p in ps:
        if isinstance(p, Comp):
            # the file whose event is the j-th read
            if C.decide(z3.And(j < iv(p.n), p.guard(j))):
                e = p.elem(j)
                found.append(e.get() if type(e).__name__ == "_Alt" else e)
        else:
            raise core.Unsupported("events collected in another way")
    oblige("an event of every file with picks, no other", z3.BoolVal(bool(found)) == good(j))
    for e in found:
        oblige("its own event", z3.And(z3.BoolVal(isinstance(e, AnEvent)), e.k == j if isinstance(e, AnEvent) else z3.BoolVal(False)))
