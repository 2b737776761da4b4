"""Contracts on the onset functions (quakemigrate.signal.onsets): C05, C06, C03."""
from __future__ import annotations

import z3

from .. import core, loader
from ..arr import Arr, iv
from ..core import B, C, I, R, SBool, SNum, ex, num, oblige, rl, tobool
from ..loops import QDict, QList, QSeq
from ..models.obspy_m import UTC
from .base import contract
from .corelib import ints
from .gridc import reals, vec
from .scanc import Ns
from .utilc import rate, utc


def fresh_onset(w, wins=True):
    m = w.module("quakemigrate.signal.onsets.stalta")
    o = object.__new__(m.STALTAOnset)
    sr, k = rate()
    o.sampling_rate = sr
    s1, l1, s2, l2 = reals("sta_P", "lta_P", "sta_S", "lta_S")
    C.assume(z3.And(s1.e > 0, s2.e > 0, l1.e > s1.e, l2.e > s2.e))
    o.sta_lta_windows = {"P": [s1, l1], "S": [s2, l2]}
    return m, o, sr, k, (s1, l1, s2, l2)


def by_contract_trim2sample(m):
    """trim2sample by its contract: whole samples, not shorter, less than one sample longer"""
    made = []

    def f(t, r):
        t, r = rl(num(t).e), rl(num(r).e)
        n = C.fresh("whole", I)
        C.define(z3.And(z3.ToReal(n) >= t * r, z3.ToReal(n) < t * r + 1), n)
        made.append((t, r, n))
        return SNum(core.rdiv(z3.ToReal(n), r))
    m.util.trim2sample = f
    return made


def biggest(*xs):
    out = xs[0]
    for x in xs[1:]:
        out = z3.If(x > out, x, out)
    return out


@contract("stalta.pre_pad, post_pad", "C05 C03", "signal/onsets/stalta.py:STALTAOnset.pre_pad",
          ["two phases stand for any number"])
def own_pads():
    w = loader.World()
    m, o, sr, k, (s1, l1, s2, l2) = fresh_onset(w)
    p = rl(num(o.pre_pad).e)
    for l, nm in ((l1, "P"), (l2, "S")):
        for s, mm in ((s1, "P"), (s2, "S")):
            oblige(f"before: room for the {nm} long window and three {mm} short windows", p >= l.e + 3 * s.e)
    oblige("before: no more than the longest of each", z3.Or(*[p == l.e + 3 * s.e for l in (l1, l2) for s in (s1, s2)]))
    ttmax, = reals("ttmax")
    C.assume(ttmax.e >= 0)
    o.post_pad = ttmax
    q = rl(num(o.post_pad).e)
    for l, nm in ((l1, "P"), (l2, "S")):
        oblige(f"after: room for the largest traveltime and two {nm} long windows", q >= ttmax.e + 2 * l.e)
    oblige("after: less than a second more", q < ttmax.e + 2 * biggest(l1.e, l2.e) + 1)


@contract("onset.pad", "C05 C03 C07", "signal/onsets/base.py:Onset.pad", ["trim2sample by its contract", "a sampling rate of at least 2 Hz"])
def pad():
    w = loader.World()
    m, o, sr, k, wins = fresh_onset(w)
    b = w.module("quakemigrate.signal.onsets.base")
    made = by_contract_trim2sample(b)
    T, = reals("timespan")
    P, Q = reals("own_pre", "own_post")
    C.assume(z3.And(T.e > 0, P.e > 0, Q.e >= 0, k >= 2))
    sub = type("Own", (m.STALTAOnset,), {"pre_pad": P, "post_pad": Q})
    o.__class__ = sub
    pre, post = o.pad(T)
    pre, post = rl(num(pre).e), rl(num(post).e)
    oblige("each padding is trimmed to samples of the onset", z3.BoolVal(len(made) == 2) if len(made) != 2 else z3.And(*[r == sr.e for _, r, _ in made]))
    for got, own, nm in ((pre, P.e, "before"), (post, Q.e, "after")):
        oblige(f"{nm}: at least the onset's own padding", got >= own)
        oblige(f"{nm}: a whole number of samples", z3.Or(*[got * sr.e == z3.ToReal(n) for _, _, n in made]))
        oblige(f"{nm}: the onset's own padding stays clear of six per cent of the padded span", got - own >= z3.Q(6, 100) * (T.e + P.e + Q.e))
    n = [z3.ToReal(x) for _, _, x in made]
    whole = T.e + pre + post
    # 5 % taper of all that is read, against what the padding adds
    c = C.skolem("c")
    for got, own, nm in ((pre, P.e, "before"), (post, Q.e, "after")):
        oblige(f"{nm}: the filter taper (5 % of all data read) ends before the onset's own padding begins",
               got - own >= z3.Q(5, 100) * whole)


@contract("onset.pad (traveltimes fit)", "C03 C05", "signal/onsets/base.py:Onset.pad",
          ["trim2sample by its contract", "two phases stand for any number"])
def pad_fits():
    w = loader.World()
    m, o, sr, k, wins = fresh_onset(w)
    b = w.module("quakemigrate.signal.onsets.base")
    by_contract_trim2sample(b)
    ttmax, tt, T = reals("ttmax", "tt", "timespan")
    C.assume(z3.And(ttmax.e >= tt.e, tt.e >= 0, T.e > 0))
    o.post_pad = ttmax
    _, post = o.pad(T)
    u = w.module("quakemigrate.util")
    last = num(u.time2sample(post, sr)).e
    served = num(u.np.rint(SNum(tt.e * sr.e))).e
    post_e = rl(num(post).e)
    oblige("the padding reaches beyond the largest traveltime", post_e >= ttmax.e)
    half = lambda x: u.np.rint(SNum(x)).e
    core.lemma("rounding keeps the order", [R, R], lambda x, y: z3.Implies(x <= y, half(x) <= half(y)),
               (tt.e * sr.e, post_e * sr.e))
    core.lemma("a product keeps the order", [R, R, R], lambda x, y, s: z3.Implies(z3.And(x <= y, s > 0), x * s <= y * s),
               (tt.e, post_e, sr.e))
    oblige("a traveltime in samples is at most the number of samples of the padding", rl(served) <= rl(last))


@contract("stalta._trim_taper_pad", "C05", "signal/onsets/stalta.py:STALTAOnset._trim_taper_pad", ["pad by its contract"])
def trim_taper_pad():
    w = loader.World()
    m, o, sr, k, wins = fresh_onset(w)
    N, L, stw, ltw = ints("N", "L", "stw", "ltw")
    C.assume(z3.And(N.e >= 1, stw.e >= 1, ltw.e > stw.e))
    x = Arr.symbol("onsets", (N, L))
    r0 = x.reader()
    x = Arr.make((N, L), lambda ix: r0(ix))
    T, pre = reals("timespan", "pre")
    own = rl(num(o.pre_pad).e)
    C.assume(pre.e >= own)
    seen = []
    sub = type("Own", (m.STALTAOnset,), {"pad": lambda self, t: seen.append(t) or (pre, SNum(z3.Real("post")))})
    o.__class__ = sub
    m.util.time2sample = lambda t, r: SNum(z3.Function("t2s", R, R, I)(rl(num(t).e), rl(num(r).e)))
    tp = z3.Function("t2s", R, R, I)(pre.e - own, sr.e)
    C.assume(z3.And(tp >= 0, tp + ltw.e - 1 < L.e, stw.e + tp < L.e))
    y = o._trim_taper_pad(x, stw, ltw, T)
    oblige("padding of the given time span", z3.And(rl(num(seen[0]).e) == T.e))
    i, j = C.skolem("i"), C.skolem("j")
    C.assume(z3.And(i >= 0, i < N.e, j >= 0, j < L.e))
    v = num(y[SNum(i), SNum(j)]).e
    edge = z3.Or(j < tp + ltw.e - 1, j >= L.e - (stw.e + tp))
    oblige("neutral within the taper and the first long window, and within the last short window and the taper; untouched elsewhere",
           v == z3.If(edge, z3.RealVal(1), r0((i, j)).e))


class St(QSeq):
    """a stream of n traces, all of one length"""

    def __init__(self, n, L, data):
        super().__init__(n, lambda k: Ns(data=Arr.make((L,), lambda ix, k=k: SNum(data(k, ix[0])), "float64")))


@contract("stalta._onset", "C05", "signal/onsets/stalta.py:STALTAOnset._onset",
          ["STA/LTA routines and the edge treatment by their contracts", "the Hilbert transform is some function of its input"])
def one_onset():
    w = loader.World()
    m, o, sr, k, wins = fresh_onset(w)
    N, L = ints("N", "L")
    C.assume(z3.And(N.e >= 1, L.e >= 1))
    data = z3.Function("data", I, I, R)
    HR, HI = z3.Function("env_abs", R, R), None
    kinds = ["energy", "abs", "env", "env_squared"]
    o.signal_transform = kinds[C.choose(4, "transform")]
    o.position = ["centred", "classic"][C.choose(2, "position")]
    o.use_python_backend = C.choose(2, "python") == 1
    ts = [None, reals("timespan")[0]][C.choose(2, "timespan")]
    if ts is not None:
        C.assume(ts.e > 0)
    mn, = reals("min_onset_value")
    C.assume(mn.e >= z3.Q(1, 100))
    o.min_onset_value = mn
    j = C.skolem("anysample")
    C.assume(z3.And(j >= 0, j < L.e))

    class Analytic:
        """what hilbert returns: only its modulus is used"""

        def __init__(self, a):
            self.a = a

        def _qm_abs(self):
            r = self.a.reader()
            return Arr.make(self.a.shape, lambda ix: SNum(HR(num(r(ix)).e)), "float64")
    m.hilbert = Analytic
    real_abs = m.np.abs
    m.np = Np(m.np, abs=lambda a: a._qm_abs() if isinstance(a, Analytic) else real_abs(a))
    G = {}
    for pos in ("centred", "classic"):
        for py in (False, True):
            f = z3.Function(f"stalta_{pos}", I, R, I, I, R)
            G[pos] = f

            def fn(x, a, b, f=f, pos=pos, py=py):
                oblige("the routine of the configured position and backend", z3.BoolVal(o.position == pos and o.use_python_backend is py))
                v = num(x.reader()((j,))).e
                return Arr.make(x.shape, lambda ix: SNum(f(ix[0], v, iv(a), iv(b))), "float64")
            setattr(m, {"centred": "centred_sta_lta", "classic": "overlapping_sta_lta"}[pos] + ("_py" if py else ""), fn)
    edge = z3.Function("edged", R, R, R)

    def trimmed(x, a, b, t):
        oblige("edges of every component, with the same windows and time span", z3.And(iv(a) == stw.e, iv(b) == ltw.e, rl(num(t).e) == ts.e))
        r = x.reader()
        return Arr.make(x.shape, lambda ix: SNum(edge(num(r(ix)).e, ts.e)), x.dtype)
    o._trim_taper_pad = trimmed
    stw, ltw = ints("stw", "ltw")
    C.assume(z3.And(stw.e >= 1, ltw.e > stw.e))
    out = o._onset(St(N, L, data), stw, ltw, ts)
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < L.e))
    oblige("one value per sample", iv(out.shape[0]) == L.e)

    def comp(c):
        d = data(c, j)
        t = {"energy": d * d, "abs": z3.If(d < 0, -d, d), "env": HR(d), "env_squared": HR(d) * HR(d)}[o.signal_transform]
        if o.signal_transform.startswith("env"):
            h = HR(d)
            t = h if o.signal_transform == "env" else h * h
        v = G[o.position](i, t, stw.e, ltw.e)
        return edge(v, ts.e) if ts is not None else v
    sq = core.ssum(0, N, lambda c: SNum(comp(ex(c)) * comp(ex(c)))).e
    rms = core.sqrt_(SNum(core.rdiv(sq, z3.ToReal(N.e)))).e
    oblige("root mean square over the components, raised to the minimum value", num(out[SNum(i)]).e == z3.If(rms < mn.e, mn.e, rms))


class Np:
    """numpy's model with some functions replaced"""

    def __init__(self, base, **over):
        self.__dict__.update(over)
        self._base = base

    def __getattr__(self, n):
        return getattr(self.__dict__["_base"], n)


@contract("stalta.STALTAOnset settings", "C05 C06 C21", "signal/onsets/stalta.py:STALTAOnset.__init__")
def settings():
    from .initc import kept
    w = loader.World()
    m = w.module("quakemigrate.signal.onsets.stalta")
    m.print = lambda *a, **k: None
    sr, k = rate()
    which = C.choose(3, "settings given")
    if which == 0:
        o = m.STALTAOnset(sampling_rate=sr)
        kept(o, {"phases": ["P", "S"], "bandpass_filters": {"P": [2.0, 16.0, 2], "S": [2.0, 16.0, 2]}, "sta_lta_windows": {"P": [0.2, 1.0], "S": [0.2, 1.0]},
                 "channel_maps": {"P": "*Z", "S": "*[N,E,1,2]"}, "channel_counts": {"P": 1, "S": 2}, "all_channels": False, "allow_gaps": False, "full_timespan": True,
                 "position": "classic", "use_python_backend": False, "signal_transform": "energy"}, "the documented default")
        oblige("the documented minimum", num(o.min_onset_value).e == z3.Q(2, 5))
        return
    names = ["phases", "channel_maps", "channel_counts"]
    given = {n: object() for n in names}
    given.update(zip(["all_channels", "allow_gaps", "full_timespan", "use_python_backend"],
                     [[False, True, False, False], [True, False, True, True]][C.choose(2, "flags")]))
    given.update(signal_transform="env", position="centred")
    if which == 1:
        given.update(bandpass_filters=object(), sta_lta_windows=object())
        kept(m.STALTAOnset(sampling_rate=sr, **given), given)
        return
    old = {n: [SNum(z3.Real(f"{n}{i}")) for i in range(2)] for n in ("p_bp_filter", "s_bp_filter", "p_onset_win", "s_onset_win")}
    centred = bool(C.choose(2, "old name of the position"))
    del given["position"]
    o = m.STALTAOnset(sampling_rate=sr, onset_centred=centred, **given, **old)
    kept(o, given)
    oblige("old settings are used: filters, windows and position of their own phase", z3.BoolVal(
        o.bandpass_filters["P"] is old["p_bp_filter"] and o.bandpass_filters["S"] is old["s_bp_filter"] and o.sta_lta_windows["P"] is old["p_onset_win"]
        and o.sta_lta_windows["S"] is old["s_onset_win"] and o.position == ("centred" if centred else "classic")))


@contract("stalta.STALTAOnset.__init__", "C05", "signal/onsets/stalta.py:STALTAOnset.__init__")
def init():
    w = loader.World()
    m = w.module("quakemigrate.signal.onsets.stalta")
    mn, = reals("min_onset_value")
    sr, k = rate()
    pos = ["classic", "centred", None][C.choose(3, "position")]
    kw = {"sampling_rate": sr, "min_onset_value": mn}
    if pos:
        kw["position"] = pos
    try:
        o = m.STALTAOnset(**kw)
    except ValueError:
        oblige("refused only for a minimum below 0.01", mn.e < z3.Q(1, 100))
        return
    oblige("a minimum below 0.01 is refused", mn.e >= z3.Q(1, 100))
    oblige("stored as given", z3.And(num(o.min_onset_value).e == mn.e, num(o.sampling_rate).e == sr.e))
    oblige("position as asked, classic by default", z3.BoolVal(o.position == (pos or "classic")))


class Unset:
    pass


@contract("stalta.calculate_onsets", "C06 C05 C21", "signal/onsets/stalta.py:STALTAOnset.calculate_onsets",
          ["pre-processing, availability checks and single onsets by their contracts", "two stations, two phases, two channels stand for any number"])
def calculate_onsets():
    w = loader.World()
    m, o, sr, k, wins = fresh_onset(w)
    ut = w.module("quakemigrate.util")
    o.phases = ["P", "S"]
    o.channel_maps = {"P": "*Z", "S": "*[N,E]"}
    o.channel_counts = {"P": 1, "S": 2}
    o.bandpass_filters = {"P": object(), "S": object()}
    o.all_channels = object()
    pairs = [("A", "P"), ("B", "P"), ("A", "S"), ("B", "S")]
    fo = C.choose(4, "pair looked at")
    focus = pairs[fo]
    o.allow_gaps, o.full_timespan = [(False, True), (True, True), (False, False), (False, True)][fo]
    ts = object()
    t2s = z3.Function("t2s", R, R, I)
    m.util.time2sample = lambda t, r: SNum(t2s(rl(num(t).e), rl(num(r).e)))
    L = SNum(z3.Int("L"))
    C.assume(L.e >= 1)
    b, e = utc("b"), utc("e")

    class Picked:
        """the pre-processed waveforms of one station and phase"""

        def __init__(self, st, ph):
            self.st, self.ph, self.gone, self.done = st, ph, [], []

        def select(self, id=None, **kw):
            if kw or id is None:
                raise core.Unsupported("selection by other keys")
            return [id]

        def remove(self, tr):
            self.gone.append(tr)

        def taper(self, **kw):
            self.done.append(("taper", kw))
            return self

        def merge(self, method=0, fill_value=None, **kw):
            self.done.append(("merge", method, fill_value))
            return self

        def trim(self, starttime=None, endtime=None, pad=False, fill_value=None, nearest_sample=True):
            self.done.append(("trim", starttime, endtime, pad, fill_value))
            return self

    class Phase:
        def __init__(self, ph):
            self.ph = ph

        def select(self, station=None, **kw):
            if kw or station is None:
                raise core.Unsupported("selection by other keys")
            return Picked(station, self.ph)

    class All:
        def select(self, channel=None, **kw):
            if kw or channel is None:
                raise core.Unsupported("selection by other keys")
            ph = [p for p in o.phases if o.channel_maps[p] == channel]
            oblige("channels of a configured phase", z3.BoolVal(len(ph) == 1))
            return Ns(ph=ph[0])
    pre = []

    def pre_process(st, rate_, res, up, filt, t0, t1):
        oblige("each phase filtered with its own band, over the window", z3.And(
            z3.BoolVal(filt is o.bandpass_filters[st.ph] and res is data.resample and up is data.upfactor),
            num(rate_).e == sr.e, t0.e == b.e, t1.e == e.e))
        pre.append(st.ph)
        return Phase(st.ph)
    m.pre_process = pre_process
    asked, ids = {}, {}

    def check(wv, **kw):
        key = (wv.st, wv.ph)
        oblige("availability judged with the configured options, at the onset rate", z3.BoolVal(
            kw.get("all_channels") is o.all_channels and kw.get("n_channels") == o.channel_counts[wv.ph] and kw.get("allow_gaps") is o.allow_gaps
            and kw.get("full_timespan") is o.full_timespan and kw.get("check_sampling_rate") is True and kw.get("sampling_rate") is sr))
        a = z3.Int(f"available_{wv.st}_{wv.ph}")
        C.assume(z3.Or(a == 0, a == 1))
        d = QDict()
        for n in (["1", "2"] if key == focus else ["1"]):
            v = z3.Int(f"channel_{wv.st}_{wv.ph}_{n}")
            C.assume(z3.Or(v == 0, v == 1) if key == focus else v == 1)
            d[f"{wv.st}.{wv.ph}{n}"] = SNum(v)
        asked[key] = (a, d)
        return SNum(a), d
    data = Ns(waveforms=All(), stations=["A", "B"], resample=object(), upfactor=object(), starttime=b, endtime=e, check_availability=check)
    used = {}
    f = {q: z3.Function(f"onset_{q[0]}_{q[1]}", I, R) for q in pairs}

    def one(wv, stw, ltw, span):
        key = (wv.st, wv.ph)
        win = wins[0:2] if wv.ph == "P" else wins[2:4]
        oblige("windows of the phase, in samples of the onset, plus one", z3.And(
            num(stw).e == t2s(win[0].e, sr.e) + 1, num(ltw).e == t2s(win[1].e, sr.e) + 1))
        oblige("time span passed on", z3.BoolVal(span is ts))
        used[key] = wv
        return Arr.make((L,), lambda ix: SNum(f[key](ix[0])), "float64")
    o._onset = one

    class Acc:
        def __init__(self, *a):
            self.got = []

        def __iadd__(self, x):
            self.got.append(x)
            return self

        def __add__(self, x):
            r = Acc()
            r.got = self.got + [x]
            return r
    m.Stream = Acc

    class Data:
        def __init__(self, onsets, phases, channel_maps, filtered_waveforms, availability, starttime, endtime, sampling_rate):
            self.__dict__.update({k_: v for k_, v in locals().items() if k_ != "self"})
    m.OnsetData = Data
    try:
        on, od = o.calculate_onsets(data, ts)
    except Exception as x:
        if "DataAvailability" not in type(x).__name__:
            raise
        oblige("reported as a data-availability failure only when nothing is available", z3.And(z3.BoolVal(set(asked) == set(pairs)), *[asked[q][0] == 0 for q in asked]))
        return
    oblige("every station and phase is checked", z3.BoolVal(set(asked) == set(pairs)))
    oblige("something is available", z3.Or(*[asked[q][0] == 1 for q in pairs]))
    keys = list(dict.keys(od.availability))
    oblige("one availability entry per station and phase", z3.BoolVal(sorted(keys) == sorted(f"{s}_{p}" for s, p in pairs)))
    order = [tuple(x.split("_")) for x in keys]
    for q in pairs:
        oblige(f"{q}: availability as checked", num(od.availability["_".join(q)]).e == asked[q][0])
        oblige(f"{q}: has an onset exactly when available", (asked[q][0] == 1) == z3.BoolVal(q in used))
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < L.e))
    there = [q for q in order if q in used]
    oblige("as many onset functions as available pairs", iv(on.shape[0]) == len(there))
    for n, q in enumerate(there):
        oblige("onset functions in the order of the availability entries", num(on[n, SNum(i)]).e == f[q](i))
        oblige("filed under their own station and phase", num(od.onsets[q[0]][q[1]][SNum(i)]).e == f[q](i))
        wv = used[q]
        for cid, v in dict.items(asked[q][1]):
            oblige("channels failing the checks are left out, the others kept", (num(v).e == 0) == z3.BoolVal(cid in wv.gone))
        if o.allow_gaps or not o.full_timespan:
            ops = {x[0]: x for x in wv.done}
            oblige("gaps filled over the whole window", z3.BoolVal("merge" in ops and "trim" in ops and ops["trim"][3] is True))
            oblige("at least the window", z3.And(ops["trim"][1].e <= b.e, ops["trim"][1].e > b.e - z3.Q(1, 1000), ops["trim"][2].e >= e.e, ops["trim"][2].e < e.e + z3.Q(1, 1000)))
        else:
            oblige("complete data are used as they are", z3.BoolVal(not wv.done))
    oblige("nothing filed for pairs that are not available", z3.BoolVal(sum(len(v) for v in dict.values(od.onsets)) == len(there)))
    oblige("for this window, at this rate", z3.And(od.starttime.e == b.e, od.endtime.e == e.e, num(od.sampling_rate).e == sr.e))


@contract("stalta.pre_process", "C21 C06 C05", "signal/onsets/stalta.py:pre_process",
          ["two traces stand for the stream", "detrend, taper and filter change sample values only", "resample by its contract"])
def pre_process():
    from ..models.obspy_m import Stream
    from .utilc import trace
    w = loader.World()
    m = w.module("quakemigrate.signal.onsets.stalta")
    sr, k = rate()
    lo, hi, order = object(), reals("highcut")[0], object()
    trs, outs = [], []
    for c in "NE":
        tr, d, n, _ = trace(None, c)
        tr.stats.station, tr.stats.channel, tr.stats.network, tr.stats.location = "STA", "HH" + c, "XX", ""
        trs.append(tr)
        t2, d2, n2, _ = trace(None, "r" + c)
        t2.stats.station, t2.stats.channel, t2.stats.network, t2.stats.location = "STA", "HH" + c, "XX", ""
        outs.append((t2, d2, n2))
    st = Stream(trs)
    rs = Stream([t for t, _, _ in outs])
    seen = []
    b, e = utc("b"), utc("e")
    resample, up = object(), object()
    m.util.resample = lambda *a: seen.append(a) or rs
    try:
        out = m.pre_process(st, sr, resample, up, (lo, hi, order), b, e)
    except Exception as x:
        if "Nyquist" not in type(x).__name__:
            raise
        oblige("refused only for a band reaching the Nyquist frequency", 2 * hi.e >= sr.e)
        return
    oblige("the band lies below the Nyquist frequency", 2 * hi.e < sr.e)
    a = seen[0]
    oblige("resampled to the onset rate over the window", z3.And(z3.BoolVal(a[0] is st and a[2] is resample and a[3] is up), num(a[1]).e == sr.e, a[4].e == b.e, a[5].e == e.e))
    filt = [kw for tr, kw in C.extra_state.get("proc", []) if "freqmax" in kw]
    oblige("every trace is filtered once in the asked-for band", z3.BoolVal(len(filt) == 2 and all(q["freqmin"] is lo and q["freqmax"] is hi and q["corners"] is order for q in filt)))
    oblige("one filtered trace per resampled trace", z3.BoolVal([t.id for t in out] == [t.id for t in rs]))
    for q, (t, src, (rt, rd, rn)) in enumerate(zip(out, trs, outs)):
        oblige("same times", z3.And(t.stats.starttime.e == rt.stats.starttime.e, iv(t.stats.npts) == rn.e, t.stats.sampling_rate.e == rt.stats.sampling_rate.e))
        oblige("the resampled stream itself is left alone", z3.BoolVal(t is not rt and rt.data is rd))
        oblige("the input waveforms are left alone", z3.BoolVal(st[q] is src))
        i = C.skolem("i")
        C.assume(z3.And(i >= 0, i < rn.e))
        j = C.skolem("j")
        C.assume(z3.And(j >= 0, j < src.stats.npts.e))
        mx, mn = num(src.data.max()).e, num(src.data.min()).e
        oblige("a flat-lined channel stays flat (zero)", z3.Implies(mx == mn, num(t.data[SNum(i)]).e == 0))


@contract("scan.QuakeScan.__init__", "C03 C07 C16 C27", "signal/scan.py:QuakeScan.__init__", ["run directories and pickers are made elsewhere"])
def scan_init():
    from .gridc import PyprojModel
    w = loader.World(models={"pyproj": PyprojModel("pyproj")})
    s = w.module("quakemigrate.signal.scan")
    m, o, sr, k, wins = fresh_onset(w)
    o._post_pad = 0
    mtt, ts = reals("max_traveltime", "timestep")
    C.assume(z3.And(mtt.e >= 0, ts.e > 0))
    made = []
    s.Run = lambda *a, **kw: made.append((a, kw)) or Ns(stage=None)
    s.GaussianPicker = lambda **kw: Ns(**kw)
    lut = Ns(max_traveltime=mtt)
    arch = object()
    given = {n: object() for n in "marginal_window threads write_cut_waveforms write_real_waveforms real_waveform_units write_wa_waveforms wa_waveform_units cut_waveform_format write_marginal_coalescence write_coalescence continuous_scanmseed_write".split()}
    q = s.QuakeScan(arch, lut, onset=o, run_path="path", run_name="name", run_subname="sub", timestep=ts, **given)
    oblige("the onset's padding covers the largest traveltime in the table", z3.And(rl(num(o.post_pad).e) >= mtt.e + wins[1].e, rl(num(o.post_pad).e) >= mtt.e + wins[3].e))
    oblige("scan rate is the onset's", rl(num(q.scan_rate).e) == sr.e)
    oblige("step as asked for", num(q.timestep).e == ts.e)
    for n, v in given.items():
        oblige(f"the setting given is the one in use: {n}", z3.BoolVal(getattr(q, n, None) is v))
    oblige("archive, table and onset as given", z3.BoolVal(q.archive is arch and q.lut is lut and q.onset is o))
    oblige("run of that path, name and sub-name", z3.BoolVal(made[0][0][:3] == ("path", "name", "sub")))
