"""Contracts on amplitude measurement (quakemigrate.signal.local_mag.amplitude): C20."""
from __future__ import annotations

import z3

from .. import core, loader
from ..arr import Arr, iv
from ..core import B, C, I, R, SBool, SNum, ex, num, oblige, rl, tobool
from ..loops import QDict, QList
from ..models.obspy_m import UTC, Trace
from .base import contract
from .corelib import ints
from .gridc import PyprojModel, reals
from .scanc import Ns
from .utilc import rate, trace, utc

Q = "signal/local_mag/amplitude.py:Amplitude."
HALF = z3.Q(1, 2)
ab = lambda x: z3.If(x >= 0, x, -x)


def amplitude():
    w = loader.World(models={"pyproj": PyprojModel("pyproj")})
    m = w.module("quakemigrate.signal.local_mag.amplitude")
    a = object.__new__(m.Amplitude)
    a.bandpass_filter = a.highpass_filter = False
    a.prominence_multiplier = 0.0
    return w, m, a


@contract("amplitude.pad", "C20", Q + "pad")
def pad():
    w, m, a = amplitude()
    sw, nw, mw, mt, f, tp, ts = reals("sw", "nw", "mw", "mt", "f", "tp", "ts")
    C.assume(z3.And(*[x.e >= 0 for x in (sw, nw, mw, mt, f, tp, ts)], f.e <= 1, tp.e <= mt.e, ts.e <= mt.e, sw.e + nw.e + mw.e > 0))
    a.signal_window, a.noise_window = sw, nw
    pre, post = (num(x).e for x in a.pad(mw, mt, f))
    T = sw.e + nw.e + 2 * mw.e + mt.e * (1 + f.e)
    clear = z3.Q(5, 100) * (pre + post)
    # where the windows of modelled arrivals begin and end, from the origin time
    for q in (tp.e, ts.e):
        for x, y in ((mt.e - q, f.e), (q, 1 - f.e), (mt.e - q, 1 + f.e)):
            core.lemma("products of non-negative numbers", [R, R], lambda u, v: z3.Implies(z3.And(u >= 0, v >= 0), u * v >= 0), (x, y))
        with C.under():
            oblige("the windows begin after the taper", z3.And(-pre + clear <= q - mw.e - q * f.e - nw.e))
            oblige("the windows end before the taper", q + mw.e + q * f.e + sw.e <= post - clear)
    oblige("no more than is needed", z3.And(pre + post < T + 2 * (z3.Q(6, 100) * T + 1), pre >= 0, post >= 0))


@contract("amplitude._get_amplitude_windows", "C20", Q + "_get_amplitude_windows", ["_get_picks by its own contract"])
def windows():
    w, m, a = amplitude()
    sw, mw, f = reals("sw", "mw", "f")
    C.assume(z3.And(sw.e >= 0, mw.e >= 0, f.e >= 0))
    a.signal_window = sw
    ot, pp, sp = utc("ot"), utc("pp"), utc("sp")
    n, i = ints("n", "i")
    C.assume(z3.And(i.e >= 0, i.e < n.e))
    tp, ts = Arr.symbol("tp", (n,), sort=R), Arr.symbol("ts", (n,), sort=R)
    tp.cell.readonly = ts.cell.readonly = True
    p, s = num(tp.at(i.e)).e, num(ts.at(i.e)).e
    C.assume(z3.And(p >= 0, s >= 0))
    kp, ks = C.choose(3, "P"), C.choose(3, "S")
    flag = C.choose(2, "picked") == 1
    ev = Ns(otime=ot, marginal_window=mw, uid="uid")

    def picks(st, e):
        oblige("the picks of this station for this event", z3.BoolVal(st == "STA" and e is ev))
        return [pp, "-1", "No P onset"][kp], [sp, "-1", "No S onset"][ks], flag
    a._get_picks = picks
    absent = kp == 2 or ks == 2
    P = pp.e if kp == 0 and not absent else ot.e + p
    S = sp.e if ks == 0 and not absent else ot.e + s
    refused = False
    try:
        r = a._get_amplitude_windows("STA", i, ev, tp, ts, f)
    except Exception as e:
        if "PickOrder" not in type(e).__name__:
            raise
        refused = True
    if refused:
        oblige("refused only when the P arrival is not before the S arrival", P >= S)
        return
    oblige("a P arrival not before the S arrival is refused", P < S)
    (win, got) = r
    oblige("whether the station was picked is passed on", z3.BoolVal(got is flag))
    core.lemma("products of non-negative numbers", [R, R], lambda u, v: z3.Implies(z3.And(u >= 0, v >= 0), u * v >= 0), (p, f.e), (s, f.e))
    (p0, p1), (s0, s1) = ((x.e for x in v) for v in win)
    a0, a1 = P - mw.e - p * f.e, P + mw.e + p * f.e
    b0, b1 = S - mw.e - s * f.e, S + mw.e + s * f.e
    over = b0 < a1
    oblige("the P window starts a marginal window and the uncertainty before the arrival", p0 == a0)
    oblige("the S window ends as long after its arrival, plus the signal window", s1 == b1 + sw.e)
    mn = lambda x, y: z3.If(x <= y, x, y)
    oblige("overlapping windows are cut at the middle of the overlap", z3.Implies(over, z3.And(p1 == (a1 + b0) / 2, s0 == (a1 + b0) / 2)))
    oblige("otherwise the P window is extended by the signal window, as far as the S window",
           z3.Implies(z3.Not(over), z3.And(p1 == mn(a1 + sw.e, b0), s0 == b0)))
    oblige("the windows never overlap", p1 <= s0)


class Tab:
    """a small pandas table with known rows: selection by equality and by position as documented"""

    def __init__(self, rows):
        self.rows = rows

    def __len__(self):
        return len(self.rows)

    @property
    def loc(self):
        return self

    def __getitem__(self, k):
        if isinstance(k, list):
            if len(k) != len(self.rows):
                raise core.Unsupported("mask of another table")
            return Tab([r for r, b in zip(self.rows, k) if b])
        if isinstance(k, tuple) and len(k) == 2:
            return self[k[0]][k[1]]
        if isinstance(k, str):
            return Col([r[k] for r in self.rows])
        raise core.Unsupported("table selected in another way")

    @property
    def empty(self):
        return not self.rows


class Col:
    def __init__(self, vals):
        self.vals = vals

    def __eq__(self, o):
        if not isinstance(o, str):
            raise core.Unsupported("column compared with something else")
        return Mask(v == o for v in self.vals)

    __hash__ = None

    def __len__(self):
        return len(self.vals)

    @property
    def iloc(self):
        return self

    @property
    def values(self):
        return self

    def __getitem__(self, k):
        if not isinstance(k, int):
            raise core.Unsupported("column read in another way")
        if not -len(self.vals) <= k < len(self.vals):
            raise IndexError("single positional indexer is out-of-bounds")
        return self.vals[k]


class Mask(list):
    def __and__(self, o):
        return Mask(a and b for a, b in zip(self, o))

    def any(self):
        return any(self)


@contract("amplitude._get_picks", "C20", Q + "_get_picks", ["two stations stand for any", "pandas selection by equality, as documented"])
def get_picks():
    w, m, a = amplitude()
    pp, sp, op = utc("pp"), utc("sp"), utc("op")
    kp, ks = C.choose(3, "P"), C.choose(3, "S")
    rows = [{"Station": "OTH", "Phase": "P", "PickTime": op}]
    if kp < 2:
        rows.append({"Station": "STA", "Phase": "P", "PickTime": [pp, -1][kp]})
    if ks < 2:
        rows.append({"Station": "STA", "Phase": "S", "PickTime": [sp, -1][ks]})
    if C.choose(2, "order"):
        rows = rows[::-1]
    p, s, picked = a._get_picks("STA", Ns(picks={"df": Tab(rows)}))
    gone = kp == 2 and ks == 2
    for got, k, t, q in ((p, kp, pp, "P"), (s, ks, sp, "S")):
        if k == 0:
            oblige("the pick of this station and phase", got.e == t.e if isinstance(got, UTC) else z3.BoolVal(False))
        else:
            oblige("a failed pick is -1, a missing onset is named (all missing: -1)",
                   z3.BoolVal(got == ("-1" if k == 1 or gone else f"No {q} onset")))
    oblige("picked when at least one phase is", z3.BoolVal(bool(picked) == (kp == 0 or ks == 0)))


def peaks_of(m, d, n, mult):
    """what scipy's find_peaks gives for the samples and their negative: strictly increasing, inside, peaks and troughs alternating"""
    V = lambda i: num(d.at(i)).e
    np_, nt = ints("npk", "ntr")
    P, T = z3.Function("pk", I, I), z3.Function("tr", I, I)
    pf = C.raw("peakfirst", B)
    C.assume(z3.And(np_.e >= 0, nt.e >= 0, z3.If(pf, z3.Or(nt.e == np_.e, nt.e == np_.e - 1), z3.Or(nt.e == np_.e, nt.e == np_.e + 1))))
    prange, trange = (lambda i: z3.And(i >= 0, i < np_.e)), (lambda i: z3.And(i >= 0, i < nt.e))

    def adjacent(i):
        """the facts about the i-th peak and trough and their neighbours"""
        after = lambda a, b, ok: z3.Implies(ok, a < b)
        return z3.And(
            z3.Implies(prange(i), z3.And(P(i) >= 1, P(i) < n - 1)), z3.Implies(trange(i), z3.And(T(i) >= 1, T(i) < n - 1)),
            z3.Implies(z3.And(prange(i), trange(i)), z3.And(V(P(i)) > V(T(i)), z3.If(pf, P(i) < T(i), T(i) < P(i)))),
            z3.Implies(z3.And(pf, trange(i), prange(i + 1)), z3.And(V(P(i + 1)) > V(T(i)), T(i) < P(i + 1))),
            z3.Implies(z3.And(z3.Not(pf), prange(i), trange(i + 1)), z3.And(V(P(i)) > V(T(i + 1)), P(i) < T(i + 1))))
    C.schema(lambda nm, args, sk: [adjacent(args[0]), adjacent(args[0] - 1)], P, T)
    C.assume(z3.And(adjacent(z3.IntVal(0)), adjacent(z3.IntVal(1))))
    mk = lambda f, k: Arr.make((k,), lambda ix: SNum(f(ix[0])), "int64")
    j = C.skolem("j")
    asked = []

    def find(x, prominence=None, **k):
        if k or not isinstance(x, Arr):
            raise core.Unsupported("find_peaks called in another way")
        pr = num(prominence if prominence is not None else 0)
        v = num(x.at(j)).e
        same, neg = core.valid(z3.Implies(z3.And(j >= 0, j < n), v == V(j))), core.valid(z3.Implies(z3.And(j >= 0, j < n), v == -V(j)))
        oblige("peaks are looked for in the window or its negative", z3.BoolVal(same or neg))
        asked.append((same, pr.e))
        return (mk(P, np_) if same else mk(T, nt)), {}
    m.find_peaks = find
    return V, np_, nt, P, T, pf, prange, trange, adjacent, asked


@contract("amplitude._peak_to_trough_amplitude", "C20", Q + "_peak_to_trough_amplitude",
          ["scipy.signal.find_peaks without prominence: indices strictly increasing, peaks and troughs alternating, a peak above the troughs next to it"])
def peak_to_trough():
    w, m, a = amplitude()
    tr, d, n, k = trace(m.util)
    a.prominence_multiplier = 0.0
    V, np_, nt, P, T, pf, prange, trange, adjacent, asked = peaks_of(m, d, n.e, 0)
    refused = False
    try:
        r = a._peak_to_trough_amplitude(tr)
    except Exception as e:
        if "PeakToTrough" not in type(e).__name__:
            raise
        refused = True
    for _, pr in asked:
        oblige("no prominence is asked for", pr == 0)
    if refused:
        oblige("refused only without a peak or without a trough", z3.Or(np_.e == 0, nt.e == 0))
        return
    half, freq, t = r
    h, fq, tm = num(half).e, num(freq).e, t.e
    i = C.skolem("i")
    C.assume(adjacent(i))
    first = lambda i: z3.And(prange(i), trange(i))                                    # pair (peak i, trough i)
    second = lambda i: z3.If(pf, z3.And(trange(i), prange(i + 1)), z3.And(prange(i), trange(i + 1)))
    dP = lambda i: V(P(i)) - V(T(i))
    dS = lambda i: z3.If(pf, V(P(i + 1)) - V(T(i)), V(P(i)) - V(T(i + 1)))
    for key, cnd, dif in (("same", first, dP), ("next", second, dS)):
        with C.under(cnd(i)):
            oblige("no adjacent peak and trough differ by more (%s number)" % key, 500 * dif(i) <= h)
    wit = [z3.IntVal(0)] + [x[1][0] for x in C.extra_state.get("extinfo", [])]
    C.assume(z3.And(*[adjacent(x) for x in wit]))
    sr = tr.stats.sampling_rate.e
    at = lambda x: core.rdiv(z3.ToReal(x), sr)
    mid = lambda p, q: tr.stats.starttime.e + at(p) + (at(q) - at(p)) / 2
    fr = lambda p, q: core.rdiv(z3.RealVal(1), ab(at(p) - at(q)) * 2)
    cases = []
    for x in wit:
        cases.append(z3.And(first(x), h == 500 * dP(x), tm == mid(P(x), T(x)), fq == fr(P(x), T(x))))
        cases.append(z3.And(second(x), h == 500 * dS(x), z3.If(pf, z3.And(tm == mid(P(x + 1), T(x)), fq == fr(P(x + 1), T(x))),
                                                              z3.And(tm == mid(P(x), T(x + 1)), fq == fr(P(x), T(x + 1))))))
    oblige("half an adjacent peak-to-trough difference in millimetres, its frequency, the time halfway", z3.Or(*cases))


@contract("amplitude._get_distances", "C20 C19", Q + "_get_distances", ["gps2dist_azimuth gives a distance in metres for two points"])
def distances():
    w, m, a = amplitude()
    lo, la, dp, slo, sla, sel, ucf = reals("lo", "la", "dp", "slo", "sla", "sel", "ucf")
    C.assume(ucf.e > 0)
    G = z3.Function("geod", R, R, R, R, R)
    m.gps2dist_azimuth = lambda a, b, c, d, **k: (SNum(G(*(rl(num(x).e) for x in (a, b, c, d)))), 0.0, 0.0)
    vals = {"Latitude": sla, "Longitude": slo, "Elevation": sel}

    class Sta:
        def __getitem__(self, k):
            if isinstance(k, (list, QList)):
                r = Ns(values=QList([vals[x] for x in k]))
                return r
            return vals[k]
    e, z = a._get_distances(QList([lo, la, dp]), Sta(), ucf)
    oblige("the epicentral distance in km, from the event's to the station's latitude and longitude",
           num(e).e == core.rdiv(G(la.e, lo.e, sla.e, slo.e), z3.RealVal(1000)))
    oblige("the depth below the station in km, whatever the units of the grid", num(z).e * 1000 == (dp.e - sel.e) * ucf.e)


@contract("amplitude._average_amplitude", "C20", Q + "_average_amplitude", ["np.mean, np.std and scipy's hilbert as functions of the values they are given"])
def average():
    w, m, a = amplitude()
    tr, d, n, k = trace(m.util)
    method = ["RMS", "STD", "ENV", "other"][C.choose(4, "method")]
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    V = lambda x: num(d.at(x)).e
    H = z3.Function("envelope", I, R)
    seen = []

    def hilbert(x, **kw):
        oblige("the analytic signal of the window", z3.And(iv(x.shape[0]) == n.e, num(x.at(i)).e == V(i)))
        r = Arr.make((n,), lambda ix: SNum(H(ix[0])), "float64")
        seen.append(r)
        return r
    m.hilbert = hilbert
    real = m.np
    val = reals("val")[0]
    C.assume(val.e >= 0)

    class NP:
        @staticmethod
        def mean(x, **kw):
            want = V(i) * V(i) if method == "RMS" else ab(H(i))
            oblige("the mean is over all samples of the window", z3.And(z3.BoolVal(not kw), iv(x.shape[0]) == n.e, num(x.at(i)).e == want))
            return val

        @staticmethod
        def std(x, **kw):
            oblige("the deviation is over all samples of the window", z3.And(z3.BoolVal(not kw), iv(x.shape[0]) == n.e, num(x.at(i)).e == V(i)))
            return val

        def __getattr__(self, k):
            return getattr(real, k)
    m.np = NP()
    try:
        r = num(a._average_amplitude(tr, method)).e
    except NotImplementedError:
        oblige("only unknown measures are refused", z3.BoolVal(method == "other"))
        return
    oblige("unknown measures are refused", z3.BoolVal(method != "other"))
    if method == "RMS":
        oblige("the root of the mean square, in millimetres", r == 1000 * num(core.sqrt_(val)).e)
    else:
        oblige("the deviation or mean envelope, in millimetres", r == 1000 * val.e)


@contract("amplitude._measure_noise_amp", "C20", Q + "_measure_noise_amp", ["_average_amplitude by its own contract"])
def noise():
    w, m, a = amplitude()
    tr, d, n, k = trace(m.util)
    nw, = reals("nw")
    C.assume(nw.e >= 0)
    a.noise_window = nw
    p0, p1, s0, s1 = (utc(x) for x in ("p0", "p1", "s0", "s1"))
    none = Trace(Arr.symbol("empty", (0,), sort=R), {"sampling_rate": tr.stats.sampling_rate, "starttime": utc("es")})
    cut = [Trace(Arr.symbol("cut", (ints("nc")[0],), sort=R), {"sampling_rate": tr.stats.sampling_rate, "starttime": utc("cs")}), none][C.choose(2, "empty")]
    C.assume(z3.Int("nc") >= 1)
    vals = cut.data
    steps = []

    class T:
        stats = tr.stats

        @staticmethod
        def slice(a=None, b=None, **kw):
            a, b = kw.pop("starttime", a), kw.pop("endtime", b)
            oblige("the noise window ends where the P window starts", z3.And(z3.BoolVal(not kw), b.e == p0.e, a.e == p0.e - nw.e))
            return cut
    cut.__dict__["detrend"] = lambda *x, **kw: steps.append("detrend")
    res, = reals("res")

    def avg(t, method):
        steps.append("average")
        oblige("the measure asked for, of the noise window", z3.BoolVal(t is cut and method == "STD"))
        return res
    a._average_amplitude = avg
    r = a._measure_noise_amp(T, [[p0, p1], [s0, s1]], "STD")
    if steps:
        oblige("the trend is removed first", z3.And(z3.BoolVal(steps == ["detrend", "average"]), num(r).e == res.e))
        return
    q, q2 = C.skolem("q"), C.skolem("q2")
    flat = z3.Implies(z3.And(q >= 0, q < z3.Int("nc"), q2 >= 0, q2 < z3.Int("nc")), num(vals.at(q)).e == num(vals.at(q2)).e)
    oblige("no noise amplitude only without data or for a flat line", z3.And(z3.BoolVal(r != r), z3.BoolVal(True) if cut is none else flat))


@contract("amplitude._measure_signal_amps", "C20", Q + "_measure_signal_amps",
          ["_peak_to_trough_amplitude and _average_amplitude by their own contracts", "sosfreqz gives the filter's response at a frequency"])
def signal_amps():
    w, m, a = amplitude()
    filt = C.choose(3, "filter")
    a.bandpass_filter, a.highpass_filter = filt == 1, filt == 2
    a.signal_window = reals("sw")[0]
    win = [[utc("p0"), utc("p1")], [utc("s0"), utc("s1")]]
    sr, _ = rate()
    kind = [C.choose(3, "P window"), C.choose(3, "S window")]      # empty, no peak, measured
    sos = object()
    cuts, meas, steps = [], [], {0: [], 1: []}
    for k in (0, 1):
        n = z3.IntVal(0)
        if kind[k]:
            n = ints(f"n{k}")[0].e
            C.assume(n >= 1)
        c = Trace(Arr.symbol(f"cut{k}", (SNum(n),), sort=R), {"sampling_rate": sr, "starttime": utc(f"c{k}")})
        c.__dict__["detrend"] = lambda *x, k=k, **kw: steps[k].append("detrend")
        cuts.append(c)
        h, f, av, g = reals(f"half{k}", f"freq{k}", f"avg{k}", f"gain{k}")
        C.assume(f.e > 0)
        meas.append((h, f, utc(f"t{k}"), av, g))

    class T:
        stats = Ns(sampling_rate=sr)
        id = "N.STA..Z"
        order = []

        @classmethod
        def slice(cls, s=None, e=None, **kw):
            s, e = kw.pop("starttime", s), kw.pop("endtime", e)
            k = [k for k in (0, 1) if win[k][0] is s]
            if len(k) != 1 or kw:
                raise core.Unsupported("windows cut in another way")
            oblige("each phase is measured in its own window", z3.BoolVal(win[k[0]][1] is e))
            return cuts[k[0]]

    def which(t):
        k = [k for k in (0, 1) if cuts[k] is t]
        if not k:
            raise core.Unsupported("windows handed on in another form")
        return k[0]

    def p2t(t):
        k = which(t)
        steps[k].append("p2t")
        if kind[k] == 1:
            raise m.util.PeakToTroughError("no peaks")
        return meas[k][:3]

    def avg(t, method):
        oblige("the measure asked for", z3.BoolVal(method == "ENV"))
        k = which(t)
        steps[k].append("avg")
        return meas[k][3]

    def freqz(s, worN=None, fs=None, **kw):
        k = [k for k in (0, 1) if len(worN) == 1 and worN[0] is meas[k][1]]
        if not k or kw:
            raise core.Unsupported("the response of the filter in another way")
        oblige("the gain of the filter applied, at the frequency measured", z3.And(z3.BoolVal(s is sos), num(fs).e == sr.e))
        return None, Arr.make((1,), lambda ix, k=k[0]: meas[k][4], "float64")
    m.sosfreqz = freqz
    a._peak_to_trough_amplitude, a._average_amplitude = p2t, avg
    before = ["id", *reals("ed", "zd"), *[float("nan")] * 10, float("nan"), True]
    r = a._measure_signal_amps(QList(before), T, win, "ENV", sos if filt else None)
    for i in (0, 1, 2, 13, 14):
        oblige("only the measurements are filled in", z3.BoolVal(r[i] is before[i]))
    for k in (0, 1):
        got = [r[3 + 5 * k + q] for q in range(5)]
        h, f, t, av, g = meas[k]
        if any(isinstance(x, float) and x != x for x in got):
            oblige("all or none of the five numbers", z3.BoolVal(all(isinstance(x, float) and x != x for x in got)))
            if kind[k] == 2:
                i, j = C.skolem("i"), C.skolem("j")
                N = iv(cuts[k].data.shape[0])
                flat = z3.Implies(z3.And(i >= 0, i < N, j >= 0, j < N), num(cuts[k].data.at(i)).e == num(cuts[k].data.at(j)).e)
                oblige("no measurement only for a flat line, or a filter that lets nothing through", z3.Or(flat, z3.And(z3.BoolVal(filt > 0), g.e == 0)))
            continue
        oblige("the trend is removed before measuring", z3.BoolVal(steps[k][:2] == ["detrend", "p2t"]))
        oblige("measured, not made up", z3.BoolVal(kind[k] == 2))
        G = ab(g.e)
        oblige("frequency and time are the ones measured", z3.And(num(got[1]).e == f.e, got[2].e == t.e))
        if filt:
            core.lemma("division by a number that is not zero", [R, R, R], lambda x, y, q: z3.Implies(z3.And(y != 0, q == core.rdiv(x, y)), q * y == x),
                       (h.e, G, num(got[0]).e), (av.e, G, num(got[3]).e))
            oblige("both amplitudes are divided by the gain of the filter", z3.And(num(got[0]).e * G == h.e, num(got[3]).e * G == av.e, G != 0, num(got[4]).e == G))
        else:
            oblige("without a filter the amplitudes are as measured", z3.And(num(got[0]).e == h.e, num(got[3]).e == av.e, z3.BoolVal(got[4] is None)))


@contract("amplitude filters", "C20", [Q + "_filter_trace", Q + "_bandpass_filter", Q + "_highpass_filter"],
          ["iirfilter designs the filter that Trace.filter applies"])
def filters():
    w, m, a = amplitude()
    sr, _ = rate()
    lo, hi, co = reals("lo", "hi", "corners")
    C.assume(z3.And(lo.e > 0, hi.e > lo.e))
    band = C.choose(2, "band") == 0
    a.bandpass_filter, a.highpass_filter = band, not band
    a.filter_corners = co
    if band:
        a.bandpass_lowcut, a.bandpass_highcut = lo, hi
    else:
        a.highpass_freq = lo
    steps = []

    class T:
        stats = Ns(sampling_rate=sr)
        id = "N.STA..Z"
        detrend = staticmethod(lambda *x, **k: steps.append("detrend"))
        taper = staticmethod(lambda *x, **k: steps.append(("taper", x[0] if x else k.get("max_percentage"))))

        @staticmethod
        def filter(type=None, **k):
            steps.append((type, k))
    sos = object()
    designed = []

    def design(N=None, Wn=None, btype=None, ftype=None, output=None, **k):
        if k:
            raise core.Unsupported("filter designed in another way")
        designed.append((N, Wn, btype, ftype, output))
        return sos
    m.iirfilter = design
    r = a._filter_trace(T)
    ny = sr.e / 2
    oblige("the design of the filter applied is returned", z3.BoolVal(r is sos and len(designed) == 1 and [x for x in steps if isinstance(x, tuple) and x[0] != "taper"].__len__() == 1))
    name, opts = steps[-1]
    oblige("trend and edges are removed before, not after", z3.BoolVal("detrend" in steps and any(isinstance(x, tuple) and x[0] == "taper" for x in steps)))
    N, Wn, bt, ft, out = designed[0]
    oblige("the same order, both ways Butterworth second-order sections, causal", z3.And(num(N).e == co.e, num(opts["corners"]).e == co.e,
           z3.BoolVal(ft == "butter" and out == "sos" and bt == name and opts.get("zerophase") is False)))
    for x in steps:
        if isinstance(x, tuple) and x[0] == "taper":
            oblige("the taper is the one the padding allows for", z3.BoolVal(float(x[1]) <= 0.05))
    eps = z3.Q(1, 10 ** 6)
    high = hi.e / ny - 1 > -eps
    if name == "bandpass":
        core.lemma("frequencies relative to Nyquist", [R, R, R], lambda x, y, z: z3.Implies(z3.And(y > 0, z * (y / 2) == x), z * y == 2 * x), (lo.e, sr.e, num(Wn[0]).e), (hi.e, sr.e, num(Wn[1]).e))
        oblige("band-pass when asked for and below Nyquist", z3.And(z3.BoolVal(band), num(opts["freqmin"]).e == lo.e, num(opts["freqmax"]).e == hi.e,
               num(Wn[0]).e * ny == lo.e, num(Wn[1]).e * ny == hi.e))
        oblige("a band-pass up to Nyquist is not applied", num(Wn[1]).e - 1 <= -eps)
    else:
        oblige("high-pass at the lower corner", z3.And(z3.BoolVal(name == "highpass"), num(opts["freq"]).e == lo.e, num(Wn).e * ny == lo.e))
        if band:
            oblige("only in place of a band-pass that reaches Nyquist", core.rdiv(hi.e, ny) - 1 > -eps)


@contract("amplitude.get_amplitudes", "C20 C19", Q + "get_amplitudes",
          ["four stations of three components stand for any", "the methods called by their own contracts", "the pandas table keeps the rows it is given"])
def get_amplitudes():
    from .pickc import Rows
    w, m, a = amplitude()
    sr, _ = rate()
    mw, mt, f, ucf = reals("mw", "mt", "f", "ucf")
    ot = utc("ot")
    pre, post = reals("pre", "post")
    a.loc_method, a.noise_measure, a.signal_window = "gaussian", "STD", reals("sw")[0]
    a.highpass_filter = C.choose(2, "filter") == 1
    COMPS = ["[E,2]", "[N,1]", "Z"]
    # what the archive has for the second component of the first station; everything else is complete
    kind = C.choose(6, "data")        # nothing, two traces, one trace, no response, response removal failed, picks in the wrong order
    st0, en0 = utc("st0"), utc("en0")
    stations = ["AA", "BB", "CC", "DD"]
    tp, ts = object(), object()
    ijk, loc = Arr.symbol("ijk", (1, 3), sort=R), object()

    class Row(dict):
        pass
    data = [Row(Name=s) for s in stations]
    trims = []

    def mk(s, c):
        first, last = (st0, en0) if (s, c) == ("AA", COMPS[1]) and kind == 2 else (UTC(ot.e - pre.e), UTC(ot.e + post.e))
        return Ns(id=f"N.{s}..{c}", stats=Ns(starttime=first, endtime=last, delta=SNum(core.rdiv(z3.RealVal(1), sr.e)), sampling_rate=sr), s=s, c=c)
    made = {(s, c): [mk(s, c)] for s in stations for c in COMPS}
    if kind == 0:
        made["AA", COMPS[1]] = []
    if kind == 1:
        made["AA", COMPS[1]] = [mk("AA", COMPS[1]), mk("AA", COMPS[1])]

    class St:
        def __init__(self, s, copied=False):
            self.s, self.copied = s, copied

        def copy(self):
            return St(self.s, True)

        def trim(self, starttime=None, endtime=None, **k):
            oblige("a copy of the waveforms is cut to the origin time and the padding", z3.And(
                z3.BoolVal(self.copied and not k), starttime.e == ot.e - pre.e, endtime.e == ot.e + post.e))
            trims.append(self.s)
            return self

        def select(self, component=None, **k):
            if k or component not in COMPS:
                raise core.Unsupported("components selected in another way")
            return made[self.s, component]

    class Raw:
        @staticmethod
        def select(station=None, **k):
            if k or station not in stations:
                raise core.Unsupported("stations selected in another way")
            return St(station)
    wa = {}

    def simulate(tr, velocity=None, **k):
        oblige("displacement amplitudes", z3.BoolVal(velocity is False))
        if (tr.s, tr.c) == ("AA", COMPS[1]) and kind in (3, 4):
            raise (m.util.ResponseNotFoundError(Exception("x"), tr.id) if kind == 3 else m.util.ResponseRemovalError(Exception("x"), tr.id))
        wa[tr.s, tr.c] = Ns(id=tr.id, stats=tr.stats, of=tr)
        return wa[tr.s, tr.c]
    ev = Ns(otime=ot, marginal_window=mw, uid="uid", data=Ns(raw_waveforms=Raw, get_wa_waveform=simulate))

    def hypo(method=None, **k):
        oblige("the location method chosen", z3.BoolVal(method == "gaussian"))
        return loc
    ev.get_hypocentre = hypo

    class Lut:
        max_traveltime, fraction_tt, unit_conversion_factor = mt, f, ucf
        station_data = Ns(iterrows=lambda: list(enumerate(data)))

        @staticmethod
        def index2coord(x, inverse=False, **k):
            oblige("the hypocentre is brought into the grid", z3.BoolVal(x is loc and inverse is True))
            return ijk

        @staticmethod
        def traveltime_to(phase, c, station=None, **k):
            if station is not None or k:
                raise core.Unsupported("traveltimes asked for in another way")
            oblige("traveltimes are read at the hypocentre", z3.And(*[num(c.at(q)).e == num(ijk.at(0, q)).e for q in range(3)]))
            return {"P": tp, "S": ts}[phase]

    def padding(x, y, z):
        oblige("the padding for the longest traveltime", z3.And(num(x).e == mw.e, num(y).e == mt.e, num(z).e == f.e))
        return pre, post
    sos, wins, noise_, filtered = {}, {}, {}, []

    def filt(tr):
        filtered.append(tr)
        sos[tr.id] = object()
        return sos[tr.id]

    def windows_(s, i, e, p, q, fr):
        oblige("the windows of this station", z3.And(z3.BoolVal(e is ev and p is tp and q is ts and s == stations[i] if isinstance(i, int) else False), num(fr).e == f.e))
        if kind == 5 and s in ("AA", "DD"):
            raise m.util.PickOrderException("uid", s, ot, ot)
        wins[s] = object()
        return wins[s], s == "BB"

    def measure(amps, tr, win, method=None, fs=None):
        oblige("the simulated trace is measured, in its windows, with its filter", z3.BoolVal(
            win is wins.get(tr.of.s) and method == "STD" and fs is (sos.get(tr.id) if a.highpass_filter else None) and (tr in filtered) == a.highpass_filter))
        for q in range(10):
            amps[3 + q] = (tr.id, q)
        return amps

    def noise__(tr, win, method=None):
        oblige("the noise before its windows", z3.BoolVal(win is wins.get(tr.of.s) and method == "STD"))
        noise_[tr.id] = object()
        return noise_[tr.id]
    dist = {s: reals("ed" + s, "zd" + s) for s in stations}

    def far(l, row, u):
        oblige("distances from the event location", z3.And(z3.BoolVal(l is loc), num(u).e == ucf.e))
        return dist[row["Name"]]
    a.pad, a._filter_trace, a._get_amplitude_windows, a._measure_signal_amps, a._measure_noise_amp, a._get_distances = padding, filt, windows_, measure, noise__, far
    real = m.pd

    class PD:
        DataFrame = Rows

        def __getattr__(self, k):
            return getattr(real, k)
    m.pd = PD()
    r = a.get_amplitudes(ev, Lut)
    if not isinstance(r, Rows):
        raise core.Unsupported("a table of amplitudes made in another way")
    oblige("one row for each component of each station, labelled by channel", z3.BoolVal(len(r.rows) == 12 and r.named == "id"))
    got = {}
    for row in r.rows.values():
        s, c = [(s, c) for s in stations for c in COMPS if row["id"] in (f"N.{s}..{c}", f".{s}..{c}")][0]
        got[s, c] = row
    oblige("each component once", z3.BoolVal(len(got) == 12))
    nan = lambda x: isinstance(x, float) and x != x
    cols = ["P_amp", "P_freq", "P_time", "P_avg_amp", "P_filter_gain", "S_amp", "S_freq", "S_time", "S_avg_amp", "S_filter_gain"]
    dt = core.rdiv(z3.RealVal(1), sr.e)
    C.assume(dt > 0)
    for (s, c), row in got.items():
        oblige("the distances of the station", z3.And(num(row["epi_dist"]).e == dist[s][0].e, num(row["z_dist"]).e == dist[s][1].e))
        whole = z3.BoolVal(True)
        if (s, c) == ("AA", COMPS[1]):
            whole = {2: z3.And(st0.e < ot.e - pre.e + dt, en0.e > ot.e + post.e - dt)}.get(kind, z3.BoolVal(kind == 5))
        if all(nan(row[q]) for q in cols):
            ok = z3.BoolVal(kind == 5 and s in ("AA", "DD")) if not ((s, c) == ("AA", COMPS[1]) and kind < 5) else z3.Not(whole)
            oblige("no measurement only without complete data, a response or windows", z3.And(ok, z3.BoolVal(nan(row["Noise_amp"]))))
            continue
        oblige("the measurements of the component", z3.And(whole, z3.BoolVal(not (kind == 5 and s in ("AA", "DD")) and row["id"] == f"N.{s}..{c}"
               and [row[q] for q in cols] == [(row["id"], q) for q in range(10)] and row["Noise_amp"] is noise_[row["id"]] and row["is_picked"] is (s == "BB"))))
