"""Contracts on the trigger stage (quakemigrate.signal.trigger): C09, C10, C11, C12."""
from __future__ import annotations

import z3

from .. import core, loader
from ..arr import Arr, contiguous, iv
from ..core import B, C, I, R, SBool, SNum, ex, num, oblige, rl, tobool
from ..loops import QDict, QList, QSeq
from ..models import pandas_m
from ..models.obspy_m import UTC, TimeText
from ..models.pandas_m import DataFrame
from .base import contract
from .corelib import ints
from .gridc import PyprojModel, reals, vec
from .scanc import Ns
from .utilc import rate, utc


def trigger(**over):
    w = loader.World(models={"pyproj": PyprojModel("pyproj")})
    m = w.module("quakemigrate.signal.trigger")
    t = object.__new__(m.Trigger)
    return w, m, t


def selections(idx):
    """the selections that lead from the rows of a frame to the original rows, first one first"""
    out = []
    while hasattr(idx, "embed"):
        out.append(idx.embed)
        idx = idx.parent
    return out[::-1]


def rank_in(idx, i):
    """the row in which original row i ends up"""
    for em in selections(idx):
        i = em.rank(i)
    return i


def increasing(idx, a, b):
    """selections keep the order: instances for rows a < b"""
    for em in selections(idx)[::-1]:
        C.assume(em.increasing(a, b))
        a, b = em.e(a), em.e(b)


@contract("trigger.min_event_interval", "C12", "signal/trigger.py:Trigger.min_event_interval")
def min_event_interval():
    w, m, t = trigger()
    mw, v = reals("mw", "v")
    t.marginal_window = mw
    name = ["min_event_interval", "minimum_repeat"][C.choose(2, "name")]
    try:
        setattr(t, name, v)
    except ValueError:
        oblige("refused only below twice the marginal window", v.e < 2 * mw.e)
        return
    oblige("at least twice the marginal window", v.e >= 2 * mw.e)
    oblige("stored", z3.And(num(t.min_event_interval).e == v.e, num(t.minimum_repeat).e == v.e))


@contract("trigger.threshold_method", "C12", "signal/trigger.py:Trigger.threshold_method", ["method names outside those tried are refused alike"])
def threshold_method():
    w, m, t = trigger()
    good = {"static": "static", "mad": "mad", "median_ratio": "median_ratio", "dynamic": "mad"}
    for v in [*good, "MAD", "Static", "median", "", "dynamics", None]:
        try:
            t.threshold_method = v
        except Exception as e:
            oblige(f"{v!r} refused with the dedicated error", z3.BoolVal(v not in good and "ThresholdMethod" in type(e).__name__))
            continue
        oblige(f"{v!r} accepted", z3.BoolVal(v in good and t.threshold_method == good.get(v)))


@contract("trigger.trigger", "C11", "signal/trigger.py:Trigger.trigger", ["_trigger_batch by its own contract"])
def trigger_run():
    w, m, t = trigger()

    class Batch:
        def __init__(self):
            self.calls = QList()

        def __call__(self, b, e, region, plot):
            oblige("same region for every batch", z3.BoolVal(region is reg))
            self.calls.append((b, e))
    reg = object()
    t._trigger_batch = bt = Batch()
    a, z = utc("a"), utc("z")
    try:
        t.trigger(a, z, region=reg)
    except Exception as e:
        if "TimeSpan" not in type(e).__name__:
            raise
        oblige("refused only when the span ends before it begins", a.e > z.e)
        oblige("nothing triggered", z3.BoolVal(not bt.calls.parts()))
        return
    oblige("the span does not end before it begins", a.e <= z.e)
    if not bt.calls.parts():
        oblige("no batch only for an empty span", a.e >= z.e)
        return
    s = bt.calls.seq()
    oblige("one batch per step", z3.BoolVal(s is not None))
    n = iv(s.n)
    k = C.skolem("k")
    C.assume(z3.And(k >= 0, k < n))
    C.skolems.append(k + 1)
    day = z3.RealVal(86400)
    dayof = lambda x: core.floor_(core.rdiv(x, day))
    oblige("no batch only for an empty span", z3.Implies(n <= 0, a.e >= z.e))
    b0, _ = s.get(z3.IntVal(0))
    oblige("the first batch begins where the span begins", b0.e == a.e)
    b, e = s.get(k)
    b1, _ = s.get(k + 1)
    oblige("batches are not empty", b.e < e.e)
    oblige("each batch ends at the next midnight or at the end of the span", z3.Or(e.e == z.e, e.e == z3.ToReal(dayof(b.e) + 1) * day))
    oblige("no batch reaches past its day", e.e <= z3.ToReal(dayof(b.e) + 1) * day)
    oblige("no batch reaches past the span", e.e <= z.e)
    oblige("the next batch begins where this one ends", z3.Implies(k + 1 < n, b1.e == e.e))
    oblige("the last batch ends at the end of the span", z3.Implies(k + 1 == n, e.e == z.e))


@contract("trigger._filter_events", "C11", "signal/trigger.py:Trigger._filter_events")
def filter_events():
    w, m, t = trigger()
    n, = ints("n")
    C.assume(n.e >= 0)
    T = z3.Function("T", I, R)
    cols = {"CoaTime": Arr.make((n,), lambda ix: UTC(T(ix[0])), "object")}
    F = {}
    for c in ("EventNum", "COA_X", "COA_Y", "COA_Z", "TRIG_COA"):
        F[c] = z3.Function("col_" + c, I, R)
        cols[c] = Arr.make((n,), lambda ix, c=c: SNum(F[c](ix[0])), "float64")
    df = DataFrame(cols)
    a, b = utc("a"), utc("b")
    box = reals("x0", "y0", "z0", "x1", "y1", "z1")
    region = [None, box][C.choose(2, "region")]
    out = t._filter_events(df, a, b, region)
    keep = lambda i: z3.And(T(i) >= a.e, T(i) <= b.e, *([z3.And(F["COA_" + c](i) >= box[q].e, F["COA_" + c](i) <= box[q + 3].e)
                                                          for q, c in enumerate("XYZ")] if region else []))
    L = iv(out.idx.shape[0])
    lab = lambda j: num(out.idx.reader()((j,))).e
    j, j2, i = C.skolem("j"), C.skolem("j2"), C.skolem("i")
    C.assume(z3.And(j >= 0, j < j2, j2 < L, i >= 0, i < n.e))
    oblige("every event kept is in the time span and the region", z3.And(lab(j) >= 0, lab(j) < n.e, keep(lab(j))))
    oblige("kept events keep their row", z3.And(out.cols["CoaTime"][SNum(j)].e == T(lab(j)),
                                                *[num(out.cols[c][SNum(j)]).e == F[c](lab(j)) for c in F]))
    increasing(out.idx, j, j2)
    oblige("in their order, none twice", lab(j) < lab(j2))
    # completeness: follow row i through the selections
    r = rank_in(out.idx, i)
    oblige("every event in the time span and the region is kept", z3.Implies(keep(i), z3.And(r >= 0, r < L, lab(r) == i)))



@contract("trigger._trigger_batch", "C09 C10 C11 C12", "signal/trigger.py:Trigger._trigger_batch",
          ["_get_threshold, _identify_candidates, _refine_candidates, _filter_events by their own contracts", "the summary plot is outside"])
def trigger_batch():
    w, m, t = trigger()
    b, e = utc("b"), utc("e")
    C.assume(b.e < e.e)
    sr, pad, ucf = reals("sr", "pad", "ucf")
    C.assume(z3.And(sr.e > 0))
    delta = SNum(1 / sr.e)
    order = []
    stats = Ns(delta=delta, sampling_rate=sr)

    class Data:
        def __init__(self):
            self.asked = []

        def __getitem__(self, c):
            self.asked.append(c)
            return ("column", self, c)
    raw, smooth = Data(), Data()

    class Sel:
        def __init__(self, of):
            self.of = of

        def dropna(self):
            return ("discarded", self.of)

    class Members:
        def __init__(self, ref, ev):
            self.key = (ref, ev)

        def __invert__(self):
            return ("not in", *self.key)

    class Refined:
        class index:
            @staticmethod
            def isin(x):
                return Members(ref, x)

        def __getitem__(self, k):
            oblige("the discarded events are those not kept", z3.BoolVal(k[0] == "not in" and k[1] is ref and k[2] is ev.index))
            return Sel(self)
    ref, ev = Refined(), Ns(index=object())
    emptyc = Ns(empty=True)
    cands = Ns(empty=False)
    nothing = C.choose(2, "candidates") == 1
    run, lut, reg, thr = object(), Ns(unit_conversion_factor=ucf), object(), object()

    def read(r, x, y, p, u):
        order.append("read")
        oblige("the scan output of this run over the batch with the configured pad is read",
               z3.And(z3.BoolVal(r is run), x.e == b.e, y.e == e.e, num(p).e == pad.e, num(u).e == ucf.e))
        return raw, stats

    def smoothed(d, r):
        oblige("the data read is smoothed at its sampling rate", z3.And(z3.BoolVal(d is raw), num(r).e == sr.e))
        return smooth
    t.smooth_coa = bool(C.choose(2, "smooth"))
    t.normalise_coalescence = bool(C.choose(2, "norm"))
    data, col = (smooth if t.smooth_coa else raw), ("COA_N" if t.normalise_coalescence else "COA")

    def getthr(s, r):
        order.append("threshold")
        oblige("the threshold comes from the trace triggered on", z3.And(z3.BoolVal(s == ("column", data, col)), num(r).e == sr.e))
        return thr

    def ident(d, c, th):
        order.append("identify")
        oblige("candidates come from that data, trace and threshold", z3.BoolVal(d is data and c == col and th is thr))
        return emptyc if nothing else cands

    def refine(c):
        order.append("refine")
        oblige("the candidates are refined", z3.BoolVal(c is cands))
        return ref
    last = z3.If(e.e == z3.ToReal(e.day_) * 86400, e.e - delta.e, e.e)

    def filt(r, x, y, g):
        order.append("filter")
        oblige("the refined events are filtered by the batch and the region", z3.And(z3.BoolVal(r is ref and g is reg), x.e == b.e, y.e == last))
        return ev

    def write(r, evs, x, tw):
        order.append("write")
        oblige("the events kept are written under the day of the batch", z3.And(z3.BoolVal(r is run and evs is ev and tw is t.write_event_time_windows), x.e == b.e))

    def summary(*a, **k):
        order.append("plot")
    t.run, t.lut, t.pad, t.write_event_time_windows = run, lut, pad, object()
    t.plot_trigger_summary = bool(C.choose(2, "plot"))
    t.marginal_window, t._min_event_interval, t.xy_files, t.plot_all_stns = *reals("mw", "mei"), None, True
    t._threshold_method, t.static_threshold = "static", 1.0
    t.static_threshold = 1.5
    m.read_scanmseed, m.write_triggered_events, m.trigger_summary = read, write, summary
    t._smooth_coa, t._get_threshold, t._identify_candidates, t._refine_candidates, t._filter_events = smoothed, getthr, ident, refine, filt
    t._trigger_batch(b, e, reg, False)
    want = ["read", "threshold", "identify"] + ([] if nothing else ["refine", "filter", "write"]) + (["plot"] if t.plot_trigger_summary else [])
    oblige("every step once, in order; nothing written without candidates", z3.BoolVal(order == want))


def section(a, V):
    """the array is a stretch of the sequence V: where it begins"""
    p = z3.Const("at!", I)
    with C.gen(p):
        e = z3.simplify(num(a.reader()((p,))).e)
    oblige("a stretch of the data", z3.BoolVal(e.decl().eq(V)))
    lo = z3.simplify(e.children()[0] - p, som=True)
    oblige("a stretch of consecutive samples", z3.BoolVal("at!" not in lo.sexpr()))
    return lo


@contract("trigger._get_threshold", "C12", "signal/trigger.py:Trigger._get_threshold",
          ["np.median and util.calculate_mad as functions of the chunk they are given", "the window is at least one sample"])
def get_threshold():
    w, m, t = trigger()
    V = z3.Function("V", I, R)
    MED, MAD = z3.Function("MEDIAN", I, I, R), z3.Function("MAD", I, I, R)
    n, W = ints("n", "W")
    C.assume(z3.And(n.e >= 1, W.e >= 1))
    arr = Arr.make((n,), lambda ix: SNum(V(ix[0])), "float64")
    how = ["static", "mad", "median_ratio"][C.choose(3, "method")]
    t._threshold_method = how
    mult, stat, madl, medl, sr, mm = reals("mult", "stat", "madl", "medl", "sr", "mm")
    t.static_threshold, t.mad_window_length, t.median_window_length, t.mad_multiplier, t.median_multiplier = stat, madl, medl, mult, mm

    def stretch(F):
        def f(x, **k):
            lo = section(x, V)
            return SNum(F(lo, z3.simplify(lo + iv(x.shape[0]))))
        return f

    def t2s(x, r):
        oblige("the window of the chosen method at the sampling rate", z3.And(num(x).e == (madl if how == "mad" else medl).e, num(r).e == sr.e))
        return W
    real = m.np

    class NP:
        median = staticmethod(stretch(MED))

        def __getattr__(self, k):
            return getattr(real, k)
    m.np = NP()
    m.util.time2sample, m.util.calculate_mad = t2s, stretch(MAD)
    from .. import arr as arrm
    orig = arrm.embedding

    def embedding(mask):
        em = orig(mask)
        q = C.raw("q", I)
        if not hasattr(em, "known") and core.valid(z3.Implies(z3.And(q >= 0, q < em.n), z3.And(em.n == n.e, em.mask(q) == (q % W.e == 0)))):
            em.known = True
            cnt = -((-n.e) / W.e)
            div = lambda a: z3.Implies(W.e > 0, z3.And(a == W.e * (a / W.e) + a % W.e, a % W.e >= 0, a % W.e < W.e))
            hint = lambda j, j2, i: C.assume(z3.And(div(i), div(-n.e), div(n.e - 1), div(j * W.e)))
            arrm.enumerated(em, lambda j: j * W.e, cnt, lambda i: i / W.e, hint)
        return em
    arrm.embedding = embedding
    try:
        out = t._get_threshold(DataFrame({"COA": arr})["COA"], sr)
    finally:
        arrm.embedding = orig
    out = pandas_m.raw(out)
    oblige("one threshold per sample", iv(out.shape[0]) == n.e)
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    c = i / W.e
    lo, hi = c * W.e, z3.If((c + 1) * W.e < n.e, (c + 1) * W.e, n.e)
    med, mad = MED(lo, hi), MAD(lo, hi)
    C.assume(z3.And(i == W.e * c + i % W.e, i % W.e >= 0, i % W.e < W.e))
    got, st, seen = num(out.at(i)).e, [], {}
    st.append(got)
    while st:                  # smaller steps: where the stretches the result mentions begin and end
        x = st.pop()
        if x.decl().eq(MED) or x.decl().eq(MAD):
            seen.setdefault(tuple(a.sexpr() for a in x.children()), x.children())
        else:
            st.extend(x.children())
    for a, b in list(seen.values())[:2]:
        for f in (a == lo, b == hi):
            if core.prove(f)[0] == "proved":
                C.assume(f)
    want = stat.e if how == "static" else med + mad * mult.e if how == "mad" else med * mm.e
    oblige("the threshold of a sample: constant, or median plus a multiple of the deviation, or a multiple of the median, of its own window",
           got == want)


def by_keys(em):
    """keys e(j) - j never decrease (induction lemma): the hint gives instances"""
    e = z3.Function("ke", I, I)
    core.lemma("places minus their number never decrease (induction step)", [I, I], lambda a, j: z3.Implies(
        z3.And(a <= j, e(a) - a <= e(j) - j, e(j) < e(j + 1)), e(a) - a <= e(j + 1) - (j + 1)))
    return lambda a, b: z3.Implies(z3.And(a >= 0, a <= b, b < em.m), em.e(a) - a <= em.e(b) - b)


@contract("trigger._identify_candidates", "C09", "signal/trigger.py:Trigger._identify_candidates", ["scan output rows labelled 0, 1, 2, ..."])
def identify():
    w, m, t = trigger()
    n, = ints("n")
    C.assume(n.e >= 0)
    F = {c: z3.Function(c, I, R) for c in ("DT", "COA", "COA_N", "X", "Y", "Z", "thr")}
    cols = {c: Arr.make((n,), lambda ix, c=c: (UTC if c == "DT" else SNum)(F[c](ix[0])), "object" if c == "DT" else "float64") for c in F if c != "thr"}
    thr = Arr.make((n,), lambda ix: SNum(F["thr"](ix[0])), "float64")
    df = DataFrame(cols)
    mw, mei = reals("mw", "mei")
    C.assume(z3.And(mw.e > 0, mei.e >= 2 * mw.e))
    t.marginal_window, t._min_event_interval = mw, mei
    on = ["COA", "COA_N"][C.choose(2, "column")]
    made = []
    orig = pandas_m.GroupBy.__init__

    def init(self, *a):
        orig(self, *a)
        made.append(self)
    pandas_m.GroupBy.__init__ = init
    try:
        out = t._identify_candidates(df, on, thr)
    finally:
        pandas_m.GroupBy.__init__ = orig
    if len(made) != 1:
        raise core.Unsupported("candidates not made by grouping the samples once")
    gb = made[0]
    em = gb.frame.idx.embed if hasattr(gb.frame.idx, "embed") else None
    if em is None:
        raise core.Unsupported("candidates not made from a selection of the samples")
    C.skolems[:] = []
    e, E, cnt = em.e, gb.E, gb.m
    above = lambda j: F[on](j) >= F["thr"](j)
    x = C.skolem("x")
    C.assume(z3.And(x >= 0, x < n.e))
    oblige("the samples selected are those at or above the threshold", z3.And(em.n == n.e, em.mask(x) == above(x)))
    G = iv(out.idx.shape[0])
    oblige("one candidate per group", G == gb.G)
    lemma = by_keys(em)
    place = lambda g, j: e(E(g, j))
    i, h = C.skolem("i"), C.skolem("h")
    C.assume(z3.And(i >= 0, i < G))
    rows = pandas_m.GroupRows(gb, i)
    y = C.skolem("y")
    C.assume(z3.And(y >= 0, y < em.m))
    k0 = gb.key(z3.IntVal(0)) - e(z3.IntVal(0))
    oblige("rows are grouped by place minus number (and a constant)", gb.key(y) == e(y) - y + k0)
    contiguous(rows, lambda a, c, b: C.assume(z3.And(lemma(a, c), lemma(c, b))))
    first, last = place(i, z3.IntVal(0)), place(i, cnt(i) - 1)
    z = z3.IntVal(0)
    j = C.skolem("j")
    C.assume(z3.And(j >= 0, j < cnt(i)))
    oblige("a candidate has at least one sample", cnt(i) >= 1)
    oblige("its samples are consecutive", z3.And(place(i, j) == first + j, last == first + cnt(i) - 1))
    oblige("all at or above the threshold", z3.And(first + j >= 0, first + j < n.e, above(first + j)))
    # maximal: neither the sample before nor the one after is selected
    before, after = first - 1, last + 1
    for q, nb, step in ((before, E(i, z), -1), (after, E(i, cnt(i) - 1), 1)):
        r = em.rank(q)
        C.assume(z3.And(em.covers(q), em.increasing(r, nb), em.increasing(nb, r), em.increasing(nb, nb + step), em.increasing(nb + step, nb),
                        em.increasing(r, nb + step), em.increasing(nb + step, r)))
        with C.under(q >= 0, q < n.e, above(q)):
            oblige("a selected neighbour has the neighbouring number", r == nb + step)
            oblige("a selected neighbour would be in the same group", z3.And(gb.key(r) == gb.K(i)))
            C.assume(z3.And(gb.covers(r), gb.inrange(gb.grp(r), gb.rk(r)), gb.ordered(gb.grp(r), i), gb.ordered(i, gb.grp(r))))
            oblige("that group", gb.grp(r) == i)
            C.assume(z3.And(gb.increasing(i, gb.rk(r), z), gb.increasing(i, z, gb.rk(r)), gb.increasing(i, gb.rk(r), cnt(i) - 1),
                            gb.increasing(i, cnt(i) - 1, gb.rk(r))))
            oblige(f"the run is maximal: the sample {'before' if step < 0 else 'after'} it is below the threshold", z3.BoolVal(False))
    # in order
    C.assume(z3.And(h > i, h < G, gb.ordered(i, h), lemma(E(h, z), E(i, cnt(i) - 1)), em.increasing(E(i, cnt(i) - 1), E(h, z))))
    oblige("candidates are in time order", last < place(h, z))
    # complete
    C.assume(z3.And(em.covers(x), gb.covers(em.rank(x))))
    g = gb.grp(em.rank(x))
    oblige("every sample at or above the threshold is in a candidate", z3.Implies(above(x), z3.And(
        g >= 0, g < G, gb.rk(em.rank(x)) >= 0, gb.rk(em.rank(x)) < cnt(g), place(g, gb.rk(em.rank(x))) == x)))
    # the row: the first sample of largest coalescence in the run
    P = C.skolem("P")
    C.assume(z3.And(P >= 0, P < cnt(i)))
    best = lambda q: z3.Implies(z3.And(q >= 0, q < cnt(i)), z3.And(F["COA"](first + q) <= F["COA"](first + P), z3.Implies(
        q < P, F["COA"](first + q) < F["COA"](first + P))))
    C.foralls.append(best)
    apps = [a for a in core.apps_of([num(out.cols["COA"][SNum(i)]).e]) if a.decl().eq(E)]
    for a in apps:
        C.assume(best(a.children()[1]))
        # proved above for any number j
        C.assume(z3.Implies(z3.And(a.children()[0] == i, a.children()[1] >= 0, a.children()[1] < cnt(i)), e(a) == first + a.children()[1]))
    C.assume(place(i, P) == first + P)
    for a in apps:
        if core.prove(a.children()[1] == P, 10000, light=True)[0] == "proved":
            C.assume(a.children()[1] == P)
    at = first + P
    row = {c: num(a[SNum(i)]).e for c, a in out.cols.items()}
    peak = F["DT"](at)
    want = {"EventNum": i, "CoaTime": peak, "TRIG_COA": F[on](at), "COA_X": F["X"](at), "COA_Y": F["Y"](at), "COA_Z": F["Z"](at),
            "COA": F["COA"](at), "COA_NORM": F["COA_N"](at),
            "MinTime": z3.If(peak - F["DT"](first) < mw.e, peak - mei.e, F["DT"](first) - (mei.e - mw.e)),
            "MaxTime": z3.If(F["DT"](last) - peak < mw.e, peak + mei.e, F["DT"](last) + (mei.e - mw.e))}
    oblige("the columns of a candidate", z3.BoolVal(set(row) == set(want)))
    for c in want:
        oblige(f"{c} of a candidate", row[c] == want[c])


CAND = ["EventNum", "CoaTime", "TRIG_COA", "COA_X", "COA_Y", "COA_Z", "MinTime", "MaxTime", "COA", "COA_NORM"]


@contract("trigger._refine_candidates", "C10", "signal/trigger.py:Trigger._refine_candidates", ["candidate rows labelled 0, 1, 2, ... in time order"])
def refine():
    w, m, t = trigger()
    n, = ints("n")
    C.assume(n.e >= 1)
    F = {c: z3.Function("c_" + c, I, R) for c in CAND}
    times = ("CoaTime", "MinTime", "MaxTime")
    df = DataFrame({c: Arr.make((n,), lambda ix, c=c: (UTC if c in times else SNum)(F[c](ix[0])), "object" if c in times else "float64") for c in CAND})
    mw, = reals("mw")
    C.assume(mw.e > 0)
    t.marginal_window = mw
    made = []
    orig = pandas_m.GroupBy.__init__

    def init(self, *a):
        orig(self, *a)
        made.append(self)
    pandas_m.GroupBy.__init__ = init
    try:
        out = t._refine_candidates(df)
    finally:
        pandas_m.GroupBy.__init__ = orig
    if len(made) != 1:
        raise core.Unsupported("events not made by grouping the candidates once")
    C.skolems[:] = []
    gb = made[0]
    E, cnt, key = gb.E, gb.m, gb.key
    z = z3.IntVal(0)
    sep = lambda a: z3.And(F["MaxTime"](a) < F["CoaTime"](a + 1) - mw.e, F["MinTime"](a + 1) > F["CoaTime"](a) + mw.e)
    G = iv(out.idx.shape[0])
    oblige("one event per group of candidates", G == gb.G)
    # neighbours: the numbering changes exactly between separate candidates
    a = C.skolem("a")
    C.assume(z3.And(a >= 0, a + 1 < n.e))
    step = lambda q: key(q + 1) == key(q) + z3.If(sep(q), z3.RealVal(1), z3.RealVal(0))
    oblige("a new event number exactly between separate neighbours", step(a))
    # so numbers never decrease and groups are chains of neighbours
    e = z3.Function("kn", I, R)
    core.lemma("event numbers never decrease (induction step)", [I, I], lambda p, q: z3.Implies(
        z3.And(p <= q, e(p) <= e(q), z3.Or(e(q + 1) == e(q), e(q + 1) == e(q) + 1)), e(p) <= e(q + 1)))
    rises = lambda p, q: z3.Implies(z3.And(p >= 0, p <= q, q < n.e), key(p) <= key(q))
    i, h = C.skolem("i"), C.skolem("h")
    C.assume(z3.And(i >= 0, i < G))
    contiguous(pandas_m.GroupRows(gb, i), lambda p, c, q: C.assume(z3.And(rises(p, c), rises(c, q))))
    first, last = E(i, z), E(i, cnt(i) - 1)
    j = C.skolem("j")
    C.assume(z3.And(j >= 0, j < cnt(i)))
    oblige("an event has at least one candidate", cnt(i) >= 1)
    oblige("its candidates are consecutive", z3.And(E(i, j) == first + j, last == first + cnt(i) - 1, first >= 0, last < n.e))
    with C.under(j + 1 < cnt(i)):
        C.assume(z3.And(step(first + j), gb.inrange(i, j), gb.inrange(i, j + 1)))
        oblige("neighbours within an event are not separate", z3.Not(sep(first + j)))
    with C.under(last + 1 < n.e):
        C.assume(z3.And(step(last), gb.covers(last + 1), gb.ordered(i, gb.grp(last + 1)), gb.ordered(gb.grp(last + 1), i), gb.increasing(i, gb.rk(last + 1), cnt(i) - 1),
                        gb.inrange(i, cnt(i) - 1)))
        oblige("the event after which a candidate follows is separate from it", sep(last))
    with C.under(first > 0):
        C.assume(z3.And(step(first - 1), gb.covers(first - 1), gb.ordered(i, gb.grp(first - 1)), gb.ordered(gb.grp(first - 1), i), gb.increasing(i, z, gb.rk(first - 1)), gb.inrange(i, z)))
        oblige("the event before which a candidate lies is separate from it", sep(first - 1))
    with C.under(h > i, h < G):
        C.assume(z3.And(gb.ordered(i, h), rises(E(h, z), last), gb.inrange(i, cnt(i) - 1), gb.inrange(h, z)))
        oblige("events are in the order of their candidates", last < E(h, z))
    x = C.skolem("x")
    C.assume(z3.And(x >= 0, x < n.e, gb.covers(x)))
    oblige("every candidate is in an event", z3.And(gb.grp(x) >= 0, gb.grp(x) < G, E(gb.grp(x), gb.rk(x)) == x))
    # the row
    def best(name, col, better, strict):
        P = C.skolem(name)
        f = F[col]
        C.assume(z3.And(P >= 0, P < cnt(i)))
        inst = lambda q: z3.Implies(z3.And(q >= 0, q < cnt(i)), z3.And(better(f(first + q), f(first + P)), z3.Implies(
            q < P, f(first + q) != f(first + P)) if strict else z3.BoolVal(True)))
        C.foralls.append(inst)
        for b in core.apps_of([num(v[SNum(i)]).e for v in out.cols.values() if v.dtype != "object" or isinstance(v[SNum(i)], UTC)]):
            if b.decl().eq(E):
                C.assume(inst(b.children()[1]))
                if strict and core.prove(b.children()[1] == P, 10000, light=True)[0] == "proved":
                    C.assume(b.children()[1] == P)
        for m_, ats, *_ in C.extra_state.get("extinfo", []):
            if m_.children():
                C.assume(inst(z3.substitute(ats[0], (m_.children()[-1], i))))
        return first + P
    peak = best("P", "TRIG_COA", lambda u, v: u <= v, True)
    lo = best("lo", "MinTime", lambda u, v: u >= v, False)
    hi = best("hi", "MaxTime", lambda u, v: u <= v, False)
    row = {c: v[SNum(i)] for c, v in out.cols.items()}
    want = {c: F[c](peak) for c in ("CoaTime", "TRIG_COA", "COA_X", "COA_Y", "COA_Z", "COA", "COA_NORM")}
    want["MinTime"], want["MaxTime"] = F["MinTime"](lo), F["MaxTime"](hi)
    for c in want:
        oblige(f"{c} of an event", num(row[c]).e == want[c])
    eid = row["EventID"]
    if not isinstance(eid, TimeText):
        raise core.Unsupported("an identifier not made from the text of a time")
    oblige("the identifier is the first 17 digits of the peak time, year to millisecond", z3.And(
        z3.BoolVal(eid.toks == list(range(17))), eid.t.e == F["CoaTime"](peak)))
