"""Contracts on the phase picker (quakemigrate.signal.pickers.gaussian): C18."""
from __future__ import annotations

import z3

from .. import core, loader
from ..arr import Arr, contiguous, iv
from ..core import B, C, I, R, SBool, SNum, ex, num, oblige, rl, tobool
from ..loops import QDict, QList
from ..models.obspy_m import UTC
from .base import contract
from .corelib import ints
from .gridc import PyprojModel, reals
from .scanc import Ns
from .utilc import rate, utc


def picker():
    w = loader.World(models={"pyproj": PyprojModel("pyproj")})
    m = w.module("quakemigrate.signal.pickers.gaussian")
    return w, m, object.__new__(m.GaussianPicker)


@contract("picker._determine_window", "C18", "signal/pickers/gaussian.py:GaussianPicker._determine_window", ["util.time2sample by its own contract"])
def determine_window():
    w, m, p = picker()
    sr, k = rate()
    tt, f, mw = reals("tt", "f", "mw")
    o, s = utc("o"), utc("s")
    T = z3.Function("t2s", R, R, I)
    m.util.time2sample = lambda x, r: SNum(T(rl(num(x).e), rl(num(r).e)))
    win = p._determine_window(Ns(otime=o, marginal_window=mw), Ns(starttime=s, sampling_rate=sr), tt, f)
    c = T(o.e + tt.e - s.e, sr.e)
    h = T(tt.e * f.e + mw.e, sr.e)
    a, b, d = (ex(x) for x in win)
    oblige("centred on the modelled arrival", b == c)
    oblige("half a width of traveltime times its uncertainty plus the marginal window on either side", z3.And(b - a == h, d - b == h))


@contract("picker._distinguish_windows", "C18", "signal/pickers/gaussian.py:GaussianPicker._distinguish_windows", ["one or two phases"])
def distinguish():
    w, m, p = picker()
    n, = ints("n")
    names = [["P"], ["P", "S"], ["S", "P"]][C.choose(3, "phases")]
    before, win = {}, QDict()
    for q in names:
        lo, c, hi = ints("lo" + q, "c" + q, "hi" + q)
        C.assume(z3.And(lo.e <= c.e, c.e <= hi.e))
        before[q] = (lo.e, c.e, hi.e)
        win[q] = QList([lo, c, hi])
    p._distinguish_windows(win, QList(names), n)
    if len(names) == 1:
        lo, c, hi = before["P"]
        a, b, d = (ex(x) for x in win["P"])
        oblige("clipped to the data", z3.And(a == z3.If(lo < 0, 0, lo), d == z3.If(hi > n.e, n.e, hi), b == c))
        return
    (x, y) = ("P", "S")
    first = before["P"][1] <= before["S"][1]
    tie = before["P"][1] == before["S"][1]
    got = {q: [ex(v) for v in win[q]] for q in names}
    tot = before["P"][1] + before["S"][1]
    down, up = core.floordiv(tot, z3.IntVal(2)), -core.floordiv(-tot, z3.IntVal(2))
    mn = lambda u, v: z3.If(u <= v, u, v)
    mx = lambda u, v: z3.If(u >= v, u, v)

    def cut(e, l, mid):
        (elo, ec, ehi), (llo, lc, lhi) = before[e], before[l]
        return z3.And(got[e][0] == mx(elo, z3.IntVal(0)), got[e][1] == ec, got[e][2] == mn(ehi, mid),
                      got[l][0] == mx(llo, mid), got[l][1] == lc, got[l][2] == mn(lhi, n.e))

    def right(e, l):            # the midpoint, rounded either way
        return z3.Or(cut(e, l, down), cut(e, l, up))
    oblige("the earlier window is clipped to the start of the data and cut at the midpoint, the later one cut there and clipped to the end",
           z3.If(tie, z3.Or(right("P", "S"), right("S", "P")), z3.If(first, right("P", "S"), right("S", "P"))))
    oblige("the windows do not overlap", z3.Or(got["P"][2] <= got["S"][0], got["S"][2] <= got["P"][0]))


@contract("picker._find_pick_threshold", "C18", "signal/pickers/gaussian.py:GaussianPicker._find_pick_threshold",
          ["np.percentile, np.median and util.calculate_mad as functions of the values they are given", "windows begin and end at sample 0 or later", "one or two phases"])
def pick_threshold():
    w, m, p = picker()
    n, = ints("n")
    C.assume(n.e >= 1)
    on = Arr.symbol("on", (n,), sort=R)
    on.cell.readonly = True
    V = lambda i: num(on.at(i)).e
    names = [["P"], ["P", "S"]][C.choose(2, "phases")]
    win, wins = QDict(), []
    for q in names:
        lo, c, hi = ints("lo" + q, "c" + q, "hi" + q)
        C.assume(z3.And(lo.e >= 0, hi.e >= 0))
        win[q] = QList([lo, c, hi])
        wins.append((lo.e, hi.e))
    noise = lambda i: z3.And(V(i) > 1, *[z3.Or(i < a, i >= b) for a, b in wins])
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    pc, mm = reals("pc", "mm")
    p.percentile_pick_threshold, p.mad_pick_threshold = pc, mm
    method = ["percentile", "MAD"][C.choose(2, "method")]

    def checked(x):
        em = getattr(x, "embed", None)
        if em is None:
            raise core.Unsupported("noise samples not made by a selection of the samples")
        oblige("the threshold is computed from exactly the samples above 1 outside all windows", z3.And(em.n == n.e, em.mask(i) == noise(i)))
        j = C.skolem("j")
        with C.under(j >= 0, j < em.m):
            C.assume(em.inrange(j))
            oblige("the noise values are those of the onset", num(x.at(j)).e == V(em.e(j)))
    res = dict(zip(("pct", "med", "mad"), reals("pct", "med", "mad")))
    real = m.np

    class NP:
        @staticmethod
        def percentile(x, q, **k):
            checked(x)
            oblige("the configured percentile", num(q).e == pc.e * 100)
            return res["pct"]

        @staticmethod
        def quantile(x, q, **k):
            checked(x)
            oblige("the configured percentile", num(q).e == pc.e)
            return res["pct"]

        @staticmethod
        def median(x, **k):
            checked(x)
            return res["med"]

        def __getattr__(self, k):
            return getattr(real, k)

    def mad(x):
        checked(x)
        return res["mad"]
    m.np = NP()
    m.util.calculate_mad = mad
    r = p._find_pick_threshold(on, win, method)
    if not isinstance(r, SNum) and r != r:
        oblige("no threshold only when no sample qualifies", z3.Not(noise(i)))
        return
    oblige("the threshold of the chosen method", num(r).e == (res["pct"].e if method == "percentile" else res["med"].e + res["mad"].e * mm.e))


@contract("picker._pick_failure", "C18", "signal/pickers/gaussian.py:GaussianPicker._pick_failure")
def pick_failure():
    w, m, p = picker()
    t, = reals("t")
    g, *pick = p._pick_failure(t)
    oblige("no pick: time, error and value are all -1", z3.And(z3.BoolVal(len(pick) == 3), *[num(x).e == -1 for x in pick]))
    oblige("the value of the fit too, with the threshold that was not met", z3.And(num(g["PickValue"]).e == -1, num(g["PickThreshold"]).e == t.e))
    oblige("the defaults are left alone", z3.BoolVal("PickThreshold" not in m.GaussianPicker.DEFAULT_GAUSSIAN_FIT))


@contract("picker._fit_gaussian", "C18", "signal/pickers/gaussian.py:GaussianPicker._fit_gaussian",
          ["_find_peak by its own contract", "curve_fit gives any parameters, or fails with ValueError or RuntimeError"])
def fit_gaussian():
    w, m, p = picker()
    n, = ints("n")
    C.assume(n.e >= 1)
    sr, k = rate()
    on = Arr.symbol("on", (n,), sort=R)
    on.cell.readonly = True
    V = lambda i: num(on.at(i)).e
    lo, c, hi = ints("lo", "c", "hi")
    C.assume(z3.And(lo.e >= 0, lo.e < hi.e, hi.e <= n.e))
    thr, hw = reals("thr", "hw")
    st = utc("st")
    a, b = ints("pa", "pb")
    C.assume(z3.And(a.e >= 0, a.e + 2 <= b.e, b.e <= hi.e - lo.e))
    popt = Arr.symbol("popt", (3,), sort=R)
    peak, fit = C.choose(2, "peak") == 0, C.choose(3, "fit")
    j = C.skolem("j")

    def find(x, t):
        with C.under(j >= 0, j < hi.e - lo.e):
            oblige("the peak is looked for in the window, against the threshold",
                   z3.And(iv(x.shape[0]) == hi.e - lo.e, num(x.at(j)).e == V(lo.e + j), num(t).e == thr.e))
        if not peak:
            raise m.util.NoOnsetPeak(thr)
        return QList([a, b])
    s0 = z3.If(lo.e + a.e - 1 > 0, lo.e + a.e - 1, 0)
    s1 = z3.If(lo.e + b.e + 1 < n.e, lo.e + b.e + 1, n.e)

    def curve(f, x, y, p0=None, **kw):
        with C.under(j >= 0, j < s1 - s0):
            oblige("the Gaussian is fitted to the peak and one sample either side of it", z3.And(
                z3.BoolVal(f is m.util.gaussian_1d), iv(x.shape[0]) == s1 - s0, iv(y.shape[0]) == s1 - s0,
                num(y.at(j)).e == V(s0 + j), num(x.at(j)).e == core.rdiv(z3.ToReal(s0 + j), sr.e)))
        if fit == 1:
            raise ValueError
        if fit == 2:
            raise RuntimeError
        return popt, None
    p._find_peak, m.curve_fit = find, curve
    g, t, e, v = p._fit_gaussian(on, sr, hw, st, thr, QList([lo, c, hi]))
    P = [num(popt.at(q)).e for q in range(3)]
    inside = z3.And(z3.ToReal(lo.e) < P[1] * sr.e, P[1] * sr.e < z3.ToReal(hi.e))
    none = z3.And(*[z3.BoolVal(False) if isinstance(x, UTC) else num(x).e == -1 for x in (t, e, v)])
    if not peak or fit:
        oblige("no pick without a peak or a fit", none)
        return
    if not isinstance(t, UTC):
        oblige("otherwise no pick only for a fit outside the window", z3.And(none, z3.Not(inside)))
        oblige("the threshold is kept", num(g["PickThreshold"]).e == thr.e)
        return
    oblige("the time picked is the centre of the Gaussian", t.e == st.e + P[1])
    oblige("the time picked is strictly inside the window", z3.And(core.rdiv(z3.ToReal(lo.e), sr.e) < t.e - st.e, t.e - st.e < core.rdiv(z3.ToReal(hi.e), sr.e)))
    oblige("its error is the width and its value the height of the Gaussian", z3.And(num(e).e == z3.If(P[2] < 0, -P[2], P[2]), num(v).e == P[0]))
    oblige("the fit reported is the one made", z3.And(num(g["PickValue"]).e == P[0], num(g["PickThreshold"]).e == thr.e, z3.BoolVal(g["popt"] is popt)))


@contract("picker._find_peak", "C18", "signal/pickers/gaussian.py:GaussianPicker._find_peak")
def find_peak():
    w, m, p = picker()
    n, = ints("n")
    C.assume(n.e >= 1)
    on = Arr.symbol("on", (n,), sort=R)
    on.cell.readonly = True
    V = lambda i: num(on.at(i)).e
    thr, = reals("thr")
    above = lambda i: V(i) > thr.e
    # the first largest sample
    M = C.skolem("M")
    best = lambda i: z3.Implies(z3.And(i >= 0, i < n.e), z3.And(V(i) <= V(M), z3.Implies(i < M, V(i) < V(M))))
    C.assume(z3.And(M >= 0, M < n.e))
    C.foralls.append(best)
    from .. import arr as arrm
    from ..models import numpy_m
    sels = []
    orig = arrm.embedding

    def embedding(mask):
        em = orig(mask)
        if not any(em is x for x in sels):
            sels.append(em)
        return em
    arrm.embedding = numpy_m.embedding = embedding
    raised = False
    try:
        r = p._find_peak(on, thr)
    except Exception as e:
        if "NoOnsetPeak" not in type(e).__name__:
            raise
        raised = True
    finally:
        arrm.embedding = numpy_m.embedding = orig
    exc = sels[0]
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e, exc.covers(i), exc.covers(M)))
    oblige("the samples exceeding the threshold are selected", z3.And(exc.n == n.e, exc.mask(i) == above(i)))
    for _, ats, *_ in C.extra_state.get("extinfo", []):
        C.assume(best(ats[0]))
    C.assume(z3.And(exc.inrange(z3.IntVal(0)), best(exc.e(z3.IntVal(0)))))
    rM = exc.rank(M)
    # neighbours of the maximum
    for q, d in ((M - 1, -1), (M + 1, 1)):
        rq = exc.rank(q)
        C.assume(z3.And(exc.covers(q), exc.increasing(rq, rM), exc.increasing(rM, rq), exc.increasing(rM, rM + d), exc.increasing(rM + d, rM),
                        exc.increasing(rq, rM + d), exc.increasing(rM + d, rq), exc.inrange(rM + d), exc.inrange(rM)))
        with C.under(q >= 0, q < n.e, above(q), above(M)):
            oblige("a neighbour that exceeds the threshold has the neighbouring number", rq == rM + d)
        C.assume(z3.Implies(z3.And(q >= 0, q < n.e, above(q), above(M)), rq == rM + d))
    splits = C.extra_state.get("splits", [])
    run = z3.And(above(M), z3.Or(z3.And(M >= 1, above(M - 1)), z3.And(M + 1 < n.e, above(M + 1))))
    if not splits:
        oblige("no peak only when the largest sample and a neighbour do not both exceed the threshold", z3.And(z3.BoolVal(raised), z3.Not(run)))
        return
    lo, hi, of, k = splits[0]
    brk = sels[1]
    c0 = of(rM)
    C.skolems += [c0, rM - lo(c0), rM]
    with C.under(above(M)):
        oblige("the maximum is in one of the stretches", z3.And(c0 >= 0, c0 <= k, lo(c0) <= rM, rM < hi(c0)))
    C.assume(z3.Implies(above(M), z3.And(c0 >= 0, c0 <= k, lo(c0) <= rM, rM < hi(c0))))
    oblige("the largest sample exceeds the threshold if any does", above(M))
    # within its stretch the samples are consecutive: no break inside
    def between(t):
        q = brk.rank(t)
        return z3.And(brk.covers(t), brk.inrange(c0), brk.inrange(c0 - 1), brk.inrange(q), brk.increasing(q, c0), brk.increasing(c0, q),
                      brk.increasing(q, c0 - 1), brk.increasing(c0 - 1, q))
    t = C.skolem("t")
    nxt = lambda t: exc.e(t + 1) == exc.e(t) + 1
    with C.under(lo(c0) <= t, t + 1 < hi(c0)):
        C.assume(between(t))
        oblige("samples of a stretch are consecutive", nxt(t))
    e = z3.Function("se", I, I)
    core.lemma("a stretch without a gap (induction step)", [I, I], lambda l, j: z3.Implies(z3.And(e(j) == e(l) + j - l, e(j + 1) == e(j) + 1), e(j + 1) == e(l) + j + 1 - l))
    at = lambda j: z3.Implies(z3.And(lo(c0) <= j, j < hi(c0)), exc.e(j) == exc.e(lo(c0)) + j - lo(c0))
    l, h = lo(c0), hi(c0)
    C.assume(z3.And(at(rM), at(h - 1), at(rM - 1), at(rM + 1), between(rM), between(rM - 1)))
    if raised:
        oblige("no peak only when the largest sample and a neighbour do not both exceed the threshold", z3.Not(run))
        return
    s, f = (ex(x) for x in r)
    C.assume(z3.And(at(l + i - s), exc.inrange(l + i - s), exc.inrange(h - 1), exc.inrange(l)))
    # the stretch returned is the one of the largest sample, however it was looked for
    seen, todo, found = set(), [s, f], []
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo += x.children()
        if x.num_args() == 1 and x.decl().name() in (exc.e(l).decl().name(), brk.e(l).decl().name()):
            found.append((x.decl().name() == brk.e(l).decl().name(), x.arg(0)))
    for isbrk, x in found[:12] if core.prove(s == exc.e(l))[0] != "proved" else ():
        if not isbrk:
            C.assume(z3.And(exc.increasing(x, rM), exc.increasing(rM, x), exc.inrange(x)))
        for c in (x, x + 1) if isbrk else ():
            C.assume(z3.And(brk.inrange(c), brk.inrange(c - 1), exc.increasing(lo(c), rM), exc.increasing(rM, hi(c) - 1), exc.inrange(lo(c)), exc.inrange(hi(c) - 1),
                            z3.Implies(z3.And(c >= 0, c <= k, lo(c) <= rM, rM < hi(c)), of(rM) == c)))
    oblige("the peak is a stretch of the window with the largest sample", z3.And(s >= 0, s <= M, M < f, f <= n.e))
    oblige("of at least two samples", f - s >= 2)
    # sample i of the peak is number l + i - s of those exceeding the threshold
    inside = z3.And(i >= s, i < f)
    for step in (z3.Implies(inside, z3.And(l <= l + i - s, l + i - s < h)), z3.Implies(inside, exc.e(l + i - s) == i), z3.Implies(inside, exc.mask(exc.e(l + i - s)))):
        oblige("a sample of the peak is one of the selected samples", step)
        C.assume(step)
    oblige("that all exceed the threshold", z3.Implies(z3.And(i >= s, i < f), above(i)))


class Rows:
    """stands for the table of picks: what is put in each row, in any of the usual ways"""

    def __init__(self, data=None, index=None, columns=None, **k):
        if k or columns is None:
            raise core.Unsupported("a table of picks made in another way")
        self.columns = [str(c) for c in columns]
        self.rows = {}
        self.n = None
        if index is not None:
            self.n = ex(index.shape[0]) if hasattr(index, "shape") else len(index)
        if data is not None:
            for i, r in enumerate(data):
                self._put(i, [r[c] for c in self.columns] if isinstance(r, (dict, QDict)) else r)
            self.n = len(self.rows)
        self.iloc = self.loc = self
        self.named = None

    def set_index(self, k, **kw):
        if kw:
            raise core.Unsupported("set_index options")
        self.named = k
        return self

    def _put(self, i, r):
        r = list(r)
        if len(r) != len(self.columns):
            raise core.Unsupported("a row of another shape")
        i = z3.simplify(iv(i)).as_long() if not isinstance(i, int) else i
        self.rows[i] = dict(zip(self.columns, r))

    def __setitem__(self, i, r):
        if isinstance(i, tuple):
            if len(i) != 2 or i[1] != slice(None):
                raise core.Unsupported("a row of picks filled in another way")
            i = i[0]
        self._put(i, r)


@contract("picker.pick_phases", "C18", "signal/pickers/gaussian.py:GaussianPicker.pick_phases",
          ["two stations with P and S onsets stand for any stations", "the other methods of the picker and calculate_onsets, traveltime_to, index2coord by contract",
           "no pick is made at one second before 1970, which stands for none", "the pandas table keeps the rows it is given"])
def pick_phases():
    w, m, p = picker()
    n, = ints("n")
    C.assume(n.e >= 1)
    keys = [("A", "P"), ("A", "S"), ("B", "P")]
    per = {"A": ["P", "S"], "B": ["P"]}
    seeds = C.choose(2, "seed ids") == 1
    own = C.choose(2, "fraction") == 0
    sr, _ = rate()
    st, ot = utc("st"), utc("ot")
    mw, f1, f2 = reals("mw", "f1", "f2")
    tts = dict(zip(keys, reals("ttAP", "ttAS", "ttBP")))
    onsets = QDict()
    arr = {}
    for s, q in keys:
        arr[s, q] = Arr.symbol("on" + s + q, (n,), sort=R)
        if s not in onsets:
            onsets[s] = QDict()
        onsets[s][q] = arr[s, q]
    hyp, ijk = Arr.symbol("hyp", (3,), sort=R), Arr.symbol("ijk", (1, 3), sort=R)
    data, maps = object(), {"P": "*[Z,3]", "S": "*[N,1,E,2]"}
    ids = {("A", "P"): ["N.A..Z"], ("A", "S"): ["N.A..N", "N.A..E"], ("B", "P"): ["N.B..Z"]}

    class Stream:
        @staticmethod
        def select(station=None, channel=None, **k):
            q = [q for q in maps if maps[q] == channel]
            if k or len(q) != 1 or (station, q[0]) not in ids:
                raise core.Unsupported("another selection of waveforms")
            return QList([Ns(id=x) for x in ids[station, q[0]] + ids[station, q[0]][:1]])
    odata = Ns(onsets=onsets, sampling_rate=sr, starttime=st, filtered_waveforms=Stream, channel_maps=maps, phases=["P", "S"])

    def calc(d, timespan=None, **k):
        if k:
            raise core.Unsupported("calculate_onsets called in another way")
        oblige("onsets are computed from the event's data, over four marginal windows", z3.And(z3.BoolVal(d is data), num(timespan).e == 4 * mw.e))
        return None, odata
    half = {"P": C.raw("hwP", R), "S": C.raw("hwS", R)}
    p.onset = Ns(calculate_onsets=calc, gaussian_halfwidth=lambda q: SNum(half[q]), channel_maps=maps)
    p._fraction_tt = f1 if own else None
    p.write_seed_ids, p.plot_picks, p.threshold_method = seeds, False, "MAD"

    class Lut:
        fraction_tt = f2

        @staticmethod
        def index2coord(x, inverse=False, **k):
            oblige("the hypocentre is brought into the grid", z3.BoolVal(x is hyp and inverse is True))
            return ijk

        @staticmethod
        def traveltime_to(phase, c, station=None, **k):
            if (station, phase) not in tts:
                raise core.Unsupported("traveltimes asked for in another way")
            oblige("traveltimes are read at the hypocentre", z3.And(*[num(c.at(a)).e == num(ijk.at(0, a)).e for a in range(3)]))
            return QList([tts[station, phase]])
    added, written = [], []
    event = Ns(data=data, marginal_window=mw, hypocentre=hyp, otime=ot, uid="uid",
               add_picks=lambda x, **k: added.append((x, k)))
    wins, stage, thr, picked = {}, {}, {}, {}
    outcome = dict(zip(keys, [C.choose(2, "pick " + s + q) for s, q in keys]))
    pick = {k: (utc("t" + "".join(k)), *reals("e" + "".join(k), "v" + "".join(k))) for k in keys}

    for k in keys:
        C.assume(pick[k][0].e != -1)

    def which(x):
        k = [k for k in keys if arr[k] is x]
        if not k:
            raise core.Unsupported("onsets handed on in another form")
        return k[0]

    def determine(ev, od, tt, f):
        k = [k for k in keys if tts[k] is tt or (isinstance(tt, SNum) and tt.e.eq(tts[k].e))]
        if not k:
            raise core.Unsupported("traveltimes handed on in another form")
        oblige("the window is made for the event with the uncertainty in force",
               z3.And(z3.BoolVal(ev is event and od is odata), num(f).e == (f1 if own else f2).e))
        wins[k[0]] = QList([SNum(C.fresh("w", I)) for _ in range(3)])
        stage[id(wins[k[0]])] = k[0]
        return wins[k[0]]

    done = []

    def distinguish(windows, phases, samples):
        ks = [stage.get(id(windows[q])) for q in phases]
        oblige("all windows of one station are told apart together", z3.And(z3.BoolVal(
            len(set(k[0] for k in ks)) == 1 and [k[1] for k in ks] == list(phases) and sorted(phases) == sorted(per[ks[0][0]])), ex(samples) == n.e))
        for k in ks:
            done.append(k)

    def threshold(x, windows, method):
        k = which(x)
        oblige("the threshold is computed with all windows of the station, told apart",
               z3.BoolVal(method == "MAD" and sorted(stage.get(id(windows[q]), "?") for q in windows) == [(k[0], q) for q in per[k[0]]]
                          and all((k[0], q) in done for q in per[k[0]])))
        thr[k] = SNum(C.fresh("thr", R))
        return thr[k]

    def fit(x, r, hw, s0, t, win):
        k = which(x)
        oblige("the pick is made in the window of its own phase, with its own threshold",
               z3.And(z3.BoolVal(win is wins[k]), num(r).e == sr.e, num(hw).e == half[k[1]], s0.e == st.e, num(t).e == thr[k].e))
        picked[k] = object()
        return (picked[k], *((-1, -1, -1) if outcome[k] else pick[k]))
    p._determine_window, p._distinguish_windows, p._find_pick_threshold, p._fit_gaussian = determine, distinguish, threshold, fit
    p.write = lambda *a: written.append(a)
    real = m.pd

    class PD:
        DataFrame = Rows

        def __getattr__(self, k):
            return getattr(real, k)
    m.pd = PD()
    run = object()
    ev, picks = p.pick_phases(event, Lut, run)
    oblige("the event and its picks are returned, added to the event and written", z3.BoolVal(
        ev is event and isinstance(picks, Rows) and len(added) == 1 and added[0][0] is picks and len(written) == 1
        and written[0][0] is run and written[0][1] == "uid" and written[0][2] is picks))
    oblige("one row for every station and phase", z3.And(z3.BoolVal(sorted(picks.rows) == [0, 1, 2]), iv(picks.n) == 3))
    g, pw = added[0][1]["gaussfits"], added[0][1]["pick_windows"]
    found = sorted((r["Station"], r["Phase"]) for r in picks.rows.values())
    oblige("each station and phase once", z3.BoolVal(found == keys))
    for r in picks.rows.values():
        k = (r["Station"], r["Phase"])
        t, e, v = (-1, -1, -1) if outcome[k] else pick[k]
        same = lambda a, b: (a.e == b.e) if isinstance(a, UTC) and isinstance(b, UTC) else z3.BoolVal(False) if isinstance(a, UTC) or isinstance(b, UTC) else num(a).e == num(b).e
        oblige("the modelled time is the origin time plus the traveltime", r["ModelledTime"].e == ot.e + tts[k].e)
        oblige("the row has the pick made for it", z3.And(same(r["PickTime"], t), same(r["PickError"], e), same(r["SNR"], v)))
        oblige("the residual is the time picked minus the time modelled, -1 without a pick",
               num(r["Residual"]).e == (z3.RealVal(-1) if outcome[k] else pick[k][0].e - (ot.e + tts[k].e)))
        oblige("the fit and the window are kept for the event", z3.BoolVal(g[k[0]][k[1]] is picked[k] and pw[k[0]][k[1]] is wins[k]))
        if seeds:
            oblige("the waveforms used are named", z3.BoolVal(list(r["SEED_ids"]) == sorted(ids[k])))
