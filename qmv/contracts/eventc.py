"""Contracts on the located event (quakemigrate.io.event): C16, C17."""
from __future__ import annotations

import z3

from .. import core, loader
from ..arr import Arr, contiguous, iv
from ..core import B, C, I, R, SBool, SNum, ex, num, oblige, rl, tobool
from ..models.obspy_m import UTC
from ..models.pandas_m import DataFrame
from .base import contract
from .corelib import ints
from .gridc import reals, vec
from .utilc import rate, utc

TRIG = {"EventID": "20200101000000000", "CoaTime": None, "TRIG_COA": 2.0, "COA": 2.0, "COA_NORM": 1.5}


def event(mw=None, trig=None):
    w = loader.World()
    m = w.module("quakemigrate.io.event")
    mw = mw if mw is not None else reals("mw")[0]
    C.assume(mw.e > 0)
    trig = trig if trig is not None else utc("trig")
    t = dict(TRIG, CoaTime=trig)
    return m, m.Event(mw, t), mw, trig


def close(a, b):
    """equal numbers"""
    return num(a).e == num(b).e


def outputs(n, tag=""):
    """what a scan of n samples gives: times on the sample grid, coalescence, coordinates, 4-D map, onsets"""
    sr, k = rate()
    t0 = utc("t0")
    times = Arr.make((n,), lambda ix: UTC(t0.e + core.rdiv(z3.ToReal(ix[0]), sr.e)), "object")
    coa, con = Arr.symbol("coa", (n,)), Arr.symbol("con", (n,))
    xyz = Arr.symbol("xyz", (n, 3))
    nn = [SNum(z3.Int(f"nn{q}")) for q in range(3)]
    C.assume(z3.And(*[v.e >= 1 for v in nn]))
    map4d = Arr.symbol("map4d", tuple(nn) + (n,))
    for a in (coa, con, xyz, map4d):
        a.cell.readonly = True
    return sr, k, t0, times, coa, con, xyz, nn, map4d


@contract("event.in_marginal_window", "C16", "io/event.py:Event.in_marginal_window")
def in_marginal_window():
    m, e, mw, trig = event()
    e.otime = utc("otime")
    r = e.in_marginal_window()
    d = trig.e - e.otime.e
    oblige("kept exactly when the trigger is strictly within one marginal window of the origin time",
           tobool(r) == z3.And(d < mw.e, -d < mw.e))


@contract("event.mw_times", "C16", "io/event.py:Event.mw_times", ["sampling rates are whole numbers of Hz"])
def mw_times():
    m, e, mw, trig = event()
    sr, k = rate()
    ts = e.mw_times(sr)
    r = ts.reader()
    n = iv(ts.shape[0])
    x = 4 * mw.e * z3.ToReal(k)
    oblige("one time stamp per sample of four marginal windows, both ends included",
           z3.And(z3.ToReal(n) - 1 - x <= z3.Q(1, 2), x - z3.ToReal(n) + 1 <= z3.Q(1, 2)))
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n))
    v = r((i,))
    oblige("times are UTC times", z3.BoolVal(isinstance(v, UTC)))
    oblige("first sample two marginal windows before the trigger, then one sample apart",
           v.e == trig.e - 2 * mw.e + core.rdiv(z3.ToReal(i), sr.e))


@contract("event.add_compute_output", "C16 C02", "io/event.py:Event.add_compute_output")
def add_compute_output():
    m, e, mw, trig = event()
    n, = ints("n")
    C.assume(n.e >= 1)
    sr, k, t0, times, coa, con, xyz, nn, map4d = outputs(n)
    on = object()
    e.add_compute_output(times, coa, con, xyz, map4d, on)
    p = C.skolem("p")
    C.assume(z3.And(p >= 0, p < n.e))
    c = coa.reader()
    t = e.otime
    oblige("origin time is a UTC time", z3.BoolVal(isinstance(t, UTC)))
    at = num(coa.argmax()).e
    oblige("the time of a sample of the scan", z3.And(at >= 0, at < n.e, t.e == t0.e + core.rdiv(z3.ToReal(at), sr.e)))
    oblige("no sample is larger, and none before it is as large", z3.And(c((p,)).e <= c((at,)).e, z3.Implies(p < at, c((p,)).e < c((at,)).e)))
    df = e.coa_data
    P = SNum(p)
    oblige("each row holds its sample's values", z3.And(
        close(df["COA"].arr[P], coa[P]), close(df["COA_NORM"].arr[P], con[P]),
        *[close(df[c_].arr[P], xyz[P, q]) for q, c_ in enumerate("XYZ")],
        close(df["DT"].arr[P], times[P])))
    oblige("4-D map and onsets kept as given", z3.BoolVal(e.map4d is map4d and e.onset_data is on))


@contract("event.trim2window", "C16", "io/event.py:Event.trim2window")
def trim2window():
    m, e, mw, trig = event()
    n, = ints("n")
    C.assume(n.e >= 1)
    sr, k, t0, times, coa, con, xyz, nn, map4d = outputs(n)
    e.add_compute_output(times, coa, con, xyz, map4d, None)
    o, at = e.otime, num(coa.argmax()).e
    T = lambda i: t0.e + core.rdiv(z3.ToReal(i), sr.e)
    e.trim2window()
    df = e.coa_data
    L = iv(df.idx.shape[0])
    arr = df["COA"].arr
    emb = arr.embed
    order = lambda a, b: core.lemma("later samples have later times", [I, I, I], lambda a, b, q: z3.Implies(
        z3.And(q >= 1, a <= b), core.rdiv(z3.ToReal(a), z3.ToReal(q)) <= core.rdiv(z3.ToReal(b), z3.ToReal(q))), (a, b, k))
    inw = lambda i: z3.And(T(i) >= o.e - mw.e, T(i) <= o.e + mw.e)
    q = C.skolem("q")
    with C.under(z3.And(q >= 0, q < n.e)):
        oblige("exactly the samples within one marginal window of the origin time are selected", emb.mask(q) == inw(q))
    seq = contiguous(emb, lambda a, c, b: (order(a, c), order(c, b)))
    # the sample of the peak itself is kept
    oblige("the peak is within the window", z3.And(emb.mask(at), emb.rank(at) >= 0, emb.rank(at) < L, emb.e(emb.rank(at)) == at))
    C.assume(z3.And(seq(L - 1), seq(emb.rank(at))))
    oblige("both cover the same number of samples", iv(e.map4d.shape[3]) == L)
    j = C.skolem("j")
    C.assume(z3.And(j >= 0, j < L))
    first = emb.e(z3.IntVal(0))
    s = first + j
    C.assume(z3.And(seq(j), emb.inrange(j)))
    oblige("row j is the j-th sample from the first one kept", emb.e(j) == s)
    J = SNum(j)
    oblige("rows keep their values", z3.And(close(df["COA"].arr[J], coa[SNum(s)]), close(df["COA_NORM"].arr[J], con[SNum(s)]),
           close(df["DT"].arr[J], times[SNum(s)]), *[close(df[c].arr[J], xyz[SNum(s), d]) for d, c in enumerate("XYZ")]))
    oblige("rows are numbered from zero", num(df.idx[J]).e == j)
    g = [C.skolem(f"g{d}") for d in range(3)]
    C.assume(z3.And(*[z3.And(x >= 0, x < v.e) for x, v in zip(g, nn)]))
    G = [SNum(x) for x in g]
    oblige("the map is cut at the same sample", num(e.map4d[G[0], G[1], G[2], J]).e == num(map4d[G[0], G[1], G[2], SNum(s)]).e)
    # peak of the trimmed series
    am = num(arr.argmax()).e
    r0, y = C.skolem("r0"), C.skolem("y")
    C.assume(z3.And(r0 == emb.rank(at), y == emb.e(am)))
    c = coa.reader()
    C.assume(z3.And(seq(am), emb.inrange(am), emb.inrange(r0)))
    with C.under(z3.BoolVal(True)):
        oblige("peak of the trimmed series", z3.And(am >= 0, am < L, c((y,)).e >= c((at,)).e, y >= 0, y < n.e))
        oblige("is the peak of the whole series", c((y,)).e == c((at,)).e)
        oblige("the first such sample", z3.And(y <= at, y >= at))
    oblige("the origin time does not move", e.otime.e == T(y))


@contract("event accessors", "C16 C17", ["io/event.py:Event.get_hypocentre", "io/event.py:Event.get_loc_uncertainty",
          "io/event.py:Event.add_spline_location", "io/event.py:Event.add_gaussian_location", "io/event.py:Event.add_covariance_location"])
def accessors():
    m, e, mw, trig = event()
    spl, gau, gu, cov, cu = (vec(x) for x in ("spl", "gau", "gu", "cov", "cu"))
    order = C.choose(2, "order")
    if order:
        e.add_covariance_location(cov, cu)
        e.add_spline_location(spl)
        e.add_gaussian_location(gau, gu)
    else:
        e.add_gaussian_location(gau, gu)
        e.add_spline_location(spl)
        e.add_covariance_location(cov, cu)
    eq = lambda a, b: z3.And(iv(a.shape[0]) == 3, *[num(a[q]).e == num(b[q]).e for q in range(3)])
    oblige("the hypocentre is the spline location", eq(e.hypocentre, spl))
    oblige("the uncertainty is the gaussian one", eq(e.loc_uncertainty, gu))
    for meth, loc in (("spline", spl), ("gaussian", gau), ("covariance", cov)):
        oblige("hypocentre of the requested method", eq(e.get_hypocentre(meth), loc))
    for meth, unc in (("gaussian", gu), ("covariance", cu)):
        oblige("uncertainty of the requested method", eq(e.get_loc_uncertainty(meth), unc))
    x = num(e.locations["covariance"]["Err_XYZ"]).e
    want = core.power_(cu.at(0) * cu.at(1) * cu.at(2), num(1 / 3)).e
    oblige("geometric mean of the three uncertainties", x == want)


@contract("event.max_coalescence", "C16 C24", "io/event.py:Event.max_coalescence")
def max_coalescence():
    m, e, mw, trig = event()
    n, = ints("n")
    C.assume(n.e >= 1)
    sr, k, t0, times, coa, con, xyz, nn, map4d = outputs(n)
    e.add_compute_output(times, coa, con, xyz, map4d, None)
    r = e.max_coalescence
    at = SNum(num(coa.argmax()).e)
    oblige("time and values of the peak", z3.And(z3.BoolVal(list(r) == ["DT", "COA", "COA_NORM"]), close(r["DT"], e.otime), close(r["COA"], coa[at]), close(r["COA_NORM"], con[at])))


@contract("event._parse_triggered_event", "C24", "io/event.py:Event._parse_triggered_event")
def parse_triggered():
    m, e, mw, trig = event()
    a, b, c = reals("a", "b", "c")
    r = e._parse_triggered_event({"TRIG_COA": a, "COA": b, "COA_NORM": c, "COA_V": SNum(z3.Real("v"))})
    oblige("triggering value, decimated coalescence and normalised coalescence kept",
           z3.And(close(r["TRIG_COA"], a), close(r["DEC_COA"], b), close(r["DEC_COA_NORM"], c)))
