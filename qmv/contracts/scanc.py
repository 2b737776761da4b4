"""Contracts on the scan stage (quakemigrate.signal.scan): C07, C17, C06, C16."""
from __future__ import annotations

import z3

from .. import core, loader
from ..arr import Arr, iv
from ..core import B, C, I, R, SBool, SNum, ex, num, oblige, rl, tobool
from ..loops import QDict, QList
from ..models import numpy_m
from ..models.obspy_m import UTC
from .base import contract
from .corelib import ints
from .gridc import grid, reals, vec, PyprojModel
from .utilc import rate, utc


class Ns:
    def __init__(self, **k):
        self.__dict__.update(k)


def scan(**over):
    w = loader.World(models={"pyproj": PyprojModel("pyproj")})
    m = w.module("quakemigrate.signal.scan")
    s = object.__new__(m.QuakeScan)
    return w, m, s


def cubes():
    sh = [SNum(z3.Int(f"nc{q}")) for q in range(3)]
    C.assume(z3.And(*[z3.And(x.e >= 1, x.e < 2 ** 20) for x in sh]))
    return sh


def inside(ix, sh):
    return z3.And(*[z3.And(i >= 0, i < iv(s)) for i, s in zip(ix, sh)])


def sk3(name):
    return tuple(C.skolem(f"{name}{q}") for q in range(3))


@contract("scan._mask3d", "C17", "signal/scan.py:QuakeScan._mask3d")
def mask3d():
    w, m, s = scan()
    sh = cubes()
    i = sk3("c")
    C.assume(inside(i, sh))
    win, = ints("win")
    C.assume(win.e >= 1)
    r = s._mask3d(tuple(sh), tuple(SNum(x) for x in i), win)
    oblige("one flag per node", z3.And(*[iv(a) == b.e for a, b in zip(r.shape, sh)]))
    p = sk3("p")
    C.assume(inside(p, sh))
    h = core.floordiv(win.e - 1, z3.IntVal(2))
    near = z3.And(*[z3.And(a - b <= h, b - a <= h) for a, b in zip(p, i)])
    oblige("exactly the nodes within half a window of the centre, never outside the grid",
           tobool(r[tuple(SNum(x) for x in p)]) == near)


def lut_for(w, m_lut=None):
    m_lut = w.module("quakemigrate.lut.lut")
    g, nc, sp = grid(m_lut, "LUT")
    return g, nc, sp


@contract("scan._covfit3d", "C17", "signal/scan.py:QuakeScan._covfit3d", ["pyproj transformations are functions of the point, invertible"])
def covfit3d():
    from ..arr import unravel_expr
    w, m, s = scan()
    g, nc, sp = lut_for(w)
    s.lut = g
    sh = tuple(nc[q] for q in range(3))
    a = Arr.symbol("coa", sh)
    a.cell.readonly = True
    r = a.reader()
    asked = []
    g.coord2grid = lambda v, inverse=False: asked.append((v, inverse)) or Arr.make((1, 3), lambda ix: SNum(z3.Function("c2g", I, R)(ix[1])))
    thr = SNum(z3.RealVal("9/10"))
    loc, unc = s._covfit3d(a.copy())
    N = sh[0].e * sh[1].e * sh[2].e
    at = lambda k: tuple(unravel_expr(k, sh))
    val = lambda k: r(at(k)).e
    keep = lambda k: val(k) > thr.e
    pos = lambda k, q: z3.ToReal(at(k)[q]) * sp.at(q).e
    S = lambda f: core.ssum(0, SNum(N), lambda k: SNum(z3.If(keep(ex(k)), f(ex(k)), z3.RealVal(0)))).e
    W = S(val)
    mean = [core.rdiv(S(lambda k, q=q: val(k) * pos(k, q)), W) for q in range(3)]
    oblige("one location asked of the grid, from grid coordinates", z3.BoolVal(len(asked) == 1 and asked[0][1] is True))
    v = numpy_m.as_arr(asked[0][0])
    for q in range(3):
        oblige(f"axis {q}: weighted mean position of the retained nodes, from the lower-left corner",
               num(v[q]).e == g.ll_corner.at(q).e + mean[q])
        oblige(f"axis {q}: the location reported is that point", num(loc[q]).e == z3.Function("c2g", I, R)(q))
        var = core.rdiv(S(lambda k, q=q: val(k) * ((pos(k, q) - mean[q]) * (pos(k, q) - mean[q]))), W)
        oblige(f"axis {q}: uncertainty is the square root of the weighted variance",
               num(unc[q]).e == core.sqrt_(abs(SNum(var))).e)


def anymap(sh, name="coa"):
    a = Arr.symbol(name, tuple(sh))
    a.cell.readonly = True
    return a


@contract("scan._calculate_location", "C17 C16", "signal/scan.py:QuakeScan._calculate_location",
          ["locating functions by their own contracts; each may overwrite the map it is given"])
def calculate_location():
    w, m, s = scan()
    sh = cubes()
    T, = ints("T")
    C.assume(T.e >= 1)
    m4 = anymap(list(sh) + [T], "map4d")
    r4 = m4.reader()
    given = {}

    def stub(name, n):
        def f(a, *x, **k):
            given[name] = (a.reader(), a.shape)
            z = C.fresh_fn("scribble", I, I, I, R)
            a.cell.fn = lambda ix: SNum(z(*ix))         # the callee may destroy its argument
            return n
        return f
    spl, gl, gu, cl, cu = (vec(x) for x in ("spl", "gl", "gu", "cl", "cu"))
    smooth = anymap(sh, "smoothed")
    s._splineloc = stub("spline", spl)
    s._gaufilt3d = stub("filter", smooth)
    s._gaufit3d = lambda a, *x, **k: given.__setitem__("gauss", a) or (gl, gu)
    s._covfit3d = stub("cov", (cl, cu))
    ev = Ns(map4d=m4, loc={})
    ev.add_spline_location = lambda x: ev.loc.__setitem__("s", x)
    ev.add_gaussian_location = lambda x, u: ev.loc.__setitem__("g", (x, u))
    ev.add_covariance_location = lambda x, u: ev.loc.__setitem__("c", (x, u))
    out = s._calculate_location(ev)
    p = sk3("p")
    C.assume(inside(p, sh))
    tot = lambda ix: core.ssum(0, T, lambda t: r4(tuple(ix) + (ex(t),))).e
    v = num(out[tuple(SNum(x) for x in p)]).e
    info = C.extra_state.get("extinfo", [])
    oblige("scaled by one extremum of the map", z3.BoolVal(len(info) >= 1))
    mx, ats = info[0][0], info[0][1]
    C.assume(numpy_m.extremum_fact(SNum(mx), p))
    oblige("the scale is the largest time sum over the grid", z3.And(inside(ats, sh), tot(ats) == mx, tot(p) <= mx))
    core.lemma("times the reciprocal is division", [R, R], lambda a, b: z3.Implies(b != 0, a * (1 / b) == a / b), (tot(p), mx))
    oblige("the marginalised map is the time sum divided by its maximum", z3.Implies(mx != 0, v == core.rdiv(tot(p), mx)))
    for nm in ("spline", "filter", "cov"):
        rd, gs = given.get(nm, (None, None))
        oblige(f"{nm}: sees the whole marginalised map", z3.And(*[iv(a) == b.e for a, b in zip(gs, sh)], num(rd(p)).e == v) if rd else z3.BoolVal(False))
    oblige("the gaussian fit sees the smoothed map", z3.BoolVal(given.get("gauss") is smooth))
    oblige("each location is stored under its own method", z3.BoolVal(ev.loc.get("s") is spl and ev.loc.get("g") == (gl, gu) and ev.loc.get("c") == (cl, cu)))


@contract("scan._splineloc", "C17", "signal/scan.py:QuakeScan._splineloc",
          ["scipy.interpolate.Rbf returns some value per evaluation point", "the coalescence map has no NaN"])
def splineloc():
    class Rbf:
        def __init__(self, x, y, z, d, function=None):
            n = iv(d.shape[0])
            oblige("one interpolation node per value", z3.And(*[iv(v.shape[0]) == n for v in (x, y, z)]))
            self.pts = (x, y, z, d)

        def __call__(self, x, y, z):
            f = C.fresh_fn("rbf", R, R, R, R)
            rs = [v.reader() for v in (x, y, z)]
            return Arr.make(x.shape, lambda ix: SNum(f(*[rl(num(r(ix)).e) for r in rs])), "float64")
    w = loader.World(models={"pyproj": PyprojModel("pyproj")})
    m = w.module("quakemigrate.signal.scan")
    m.Rbf = Rbf
    s = object.__new__(m.QuakeScan)
    sh = cubes()
    a = anymap(sh)
    asked = []

    def index2coord(v, *x, **k):
        v = numpy_m.as_arr(v)
        asked.append(v)
        return Arr.make((1, 3), lambda ix: SNum(z3.Function("i2c", I, R)(ix[1])))
    s.lut = Ns(index2coord=index2coord)
    loc = s._splineloc(a)
    top = numpy_m.extremum(a, "max", True)
    at = numpy_m.extremum_at(top[0])
    v = asked[-1]
    c = [rl(num(v[0, q]).e) for q in range(3)]
    oblige("the location is that of the last position asked for", z3.And(*[num(loc[q]).e == z3.Function("i2c", I, R)(q) for q in range(3)]))
    for q in range(3):
        oblige(f"axis {q}: within the grid", z3.And(c[q] >= 0, c[q] <= z3.ToReal(sh[q].e) - 1))
        oblige(f"axis {q}: within half a window of the maximum-coalescence node", z3.And(c[q] - z3.ToReal(at[q]) <= 2, z3.ToReal(at[q]) - c[q] <= 2))
    lo = [z3.If(at[q] - 2 < 0, z3.IntVal(0), at[q] - 2) for q in range(3)]
    hi = [z3.If(at[q] + 3 > sh[q].e, sh[q].e, at[q] + 3) for q in range(3)]
    n = [hi[q] - lo[q] for q in range(3)]
    oblige("where the grid cuts the window so that it is no cube: exactly the maximum-coalescence node",
           z3.Implies(z3.Not(z3.And(n[0] == n[1], n[1] == n[2])), z3.And(*[c[q] == z3.ToReal(at[q]) for q in range(3)])))


@contract("scan._gaufit3d", "C17", "signal/scan.py:QuakeScan._gaufit3d",
          ["numpy.linalg.inv returns an inverse; numpy.linalg.pinv and eig return some matrix per input", "the coalescence map has no NaN"])
def gaufit3d():
    from ..arr import unravel_expr
    w, m, s = scan()
    g, nc, sp = lut_for(w)
    sh = tuple(nc[q] for q in range(3))
    a = anymap(sh)
    r = a.reader()
    asked = []

    def index2coord(v, *x, **k):
        v = numpy_m.as_arr(v)
        asked.append(v)
        return Arr.make((1, 3), lambda ix: SNum(z3.Function("i2c", I, R)(ix[1])))
    s.lut = Ns(index2coord=index2coord, node_spacing=g.node_spacing, node_count=g.node_count)
    loc, unc = s._gaufit3d(a)
    pin = C.extra_state.get("pinv", [])
    embs = list(C.extra_state.get("emb", {}).values())
    if len(pin) != 1 or len(embs) != 1 or C.extra_state.get("eig") is None or len(asked) != 1:
        raise core.Unsupported("the fit is not one pseudo-inverse over one selection of nodes")
    X, pf = pin[0]
    em = embs[0]
    if not z3.is_true(z3.simplify(iv(X.shape[0]) == 10)):
        raise core.Unsupported("design matrix of another form")
    top = numpy_m.extremum(a, "max", True)
    pk = numpy_m.extremum_at(top[0])
    at = lambda k: tuple(unravel_expr(k, sh))
    near = lambda p: z3.And(*[z3.And(x - y <= 3, y - x <= 3) for x, y in zip(p, pk)])
    keep = lambda p: z3.And(r(p).e > 0, near(p))
    xr = X.reader()
    col = lambda t: [rl(num(xr((z3.IntVal(q), t))).e) for q in range(10)]
    t = C.skolem("t")
    with C.under(z3.And(t >= 0, t < em.m)):
        x = col(t)
        d = [z3.ToReal(p - y) for p, y in zip(at(em.e(t)), pk)]
        oblige("each observation is a node above the threshold within half a window of the peak", z3.Implies(z3.And(inside(at(em.e(t)), sh)), keep(at(em.e(t)))))
        oblige("its row holds the offsets from the peak node", z3.And(*[x[6 + q] == d[q] for q in range(3)]))
        oblige("and their products, and one", z3.And(x[0] == d[0] * d[0], x[1] == d[1] * d[1], x[2] == d[2] * d[2], x[3] == d[0] * d[1],
                                                     x[4] == d[0] * d[2], x[5] == d[1] * d[2], x[9] == 1))
    k = C.skolem("k")
    C.assume(z3.And(k >= 0, k < sh[0].e * sh[1].e * sh[2].e))
    for v, c, n in ((k, sh[2].e, sh[0].e * sh[1].e), (k / sh[2].e, sh[1].e, sh[0].e)):
        core.lemma("quotients of smaller numbers are smaller", [I, I, I],
                   lambda v, c, n: z3.Implies(z3.And(v >= 0, c > 0, v < n * c), z3.And(v / c >= 0, v / c < n, v % c >= 0, v % c < c)), (v, c, n))
    C.assume(inside(at(k), sh) if core.prove(inside(at(k), sh))[0] == "proved" else z3.BoolVal(True))
    with C.under(keep(at(k))):
        u = em.rank(k)
        oblige("every such node is an observation", z3.And(u >= 0, u < em.m, em.e(u) == k))
    oblige("one row entry per observation", iv(X.shape[1]) == em.m)
    mean = num(numpy_m.nanmean(a))
    atleast = lambda v, lo: SNum(z3.If(v.e < lo, lo, v.e))
    y = lambda t: -core.log_(atleast(SNum(r(at(em.e(t))).e) - mean, z3.RealVal("1e-300")))
    P = [core.ssum(0, SNum(em.m), lambda t, q=q: y(ex(t)) * SNum(pf(ex(t), z3.IntVal(q)))).e for q in range(10)]
    v = asked[-1]
    c = [rl(num(v[0, q]).e) - z3.ToReal(pk[q]) for q in range(3)]
    oblige("the location is that of the position found", z3.And(*[num(loc[q]).e == z3.Function("i2c", I, R)(q) for q in range(3)]))
    rows = [(2 * P[0], P[3], P[4], P[6]), (P[3], 2 * P[1], P[5], P[7]), (P[4], P[5], 2 * P[2], P[8])]
    for G, n in C.extra_state.get("inv", []):
        gr = G.reader()
        ga = [[rl(num(gr((z3.IntVal(i), z3.IntVal(j)))).e) for j in range(3)] for i in range(3)]
        na = [n(z3.IntVal(j), z3.IntVal(q)) for j in range(3) for q in range(3)]
        core.lemma("matrix products associate", [R] * 15, lambda *v:
                   sum(v[j] * sum(v[3 + 3 * j + q] * v[12 + q] for q in range(3)) for j in range(3))
                   == sum(v[12 + q] * sum(v[j] * v[3 + 3 * j + q] for j in range(3)) for q in range(3)),
                   *[tuple(ga[i]) + tuple(na) + tuple(rows[q][3] for q in range(3)) for i in range(3)])
    for q, (p0, p1, p2, h) in enumerate(rows):
        oblige(f"axis {q}: the fitted surface is stationary at the position found", p0 * c[0] + p1 * c[1] + p2 * c[2] + h == 0)
    M, ev = C.extra_state["eig"][0]
    mr = M.reader()
    for i in range(3):
        for j in range(3):
            want = P[i] if i == j else P[{1: 3, 2: 4, 3: 5}[i + j]] / 2
            oblige(f"curvature [{i}, {j}] is that of the fitted surface", rl(num(mr((z3.IntVal(i), z3.IntVal(j)))).e) == want)
    for q in range(3):
        e = atleast(SNum(z3.If(ev(q) < 0, -ev(q), ev(q))), z3.RealVal("1e-10"))
        oblige(f"axis {q}: uncertainty from its curvature and the node spacing",
               num(unc[q]).e == (core.sqrt_(SNum(z3.RealVal("1/2")) / e) / 2).e * sp.at(q).e)


@contract("util.gaussian_3d", "C17", "util.py:gaussian_3d", ["exp turns sums into products"])
def gaussian3d():
    w = loader.World()
    m = w.module("quakemigrate.util")
    sh = cubes()
    sg = [SNum(z3.Real(f"sg{q}")) for q in range(3)]
    C.assume(z3.And(*[x.e > 0 for x in sg]))
    per_axis = C.choose(2, "widths") == 1
    if not per_axis:
        sg = [sg[0]] * 3
    plain = numpy_m.np.linspace

    def linspace(lo, hi, n=50, *x, **k):
        """the same values, written as the node number less half the number of steps where that is what they are"""
        a = plain(lo, hi, n, *x, **k)
        r, i = a.reader(), C.skolem("i")
        mid = lambda i: z3.ToReal(i) - (z3.ToReal(num(n).e) - 1) / 2
        same = core.prove(z3.Implies(z3.And(i >= 0, i < num(n).e), rl(num(r((i,))).e) == mid(i)))[0] == "proved"
        return Arr.make(a.shape, lambda ix: SNum(mid(ix[0])), "float64") if same else a
    numpy_m.np.linspace = linspace
    try:
        f = numpy_m.as_arr(m.gaussian_3d(*sh, Arr.from_list(sg) if per_axis else sg[0]))
    finally:
        numpy_m.np.linspace = plain
    oblige("one value per node", z3.And(z3.BoolVal(f.ndim == 3), *[iv(a) == b.e for a, b in zip(f.shape, sh)]))
    p = sk3("p")
    C.assume(inside(p, sh))
    off = [SNum(z3.ToReal(i) - (z3.ToReal(n.e) - 1) / 2) for i, n in zip(p, sh)]
    terms = [-(d * d) / (2 * g * g) for d, g in zip(off, sg)]
    arg = terms[0] + terms[1] + terms[2]
    val = num(f[tuple(SNum(x) for x in p)]).e
    if core.prove(val == core.exp_(arg).e)[0] != "proved":      # exp(a + b + c) = exp(a) * exp(b) * exp(c)
        C.assume(core.exp_(arg).e == core.exp_(terms[0]).e * core.exp_(terms[1]).e * core.exp_(terms[2]).e)
    oblige("a gaussian of the distance from the centre of the volume, in nodes", val == core.exp_(arg).e)


@contract("scan._gaufilt3d", "C17", "signal/scan.py:QuakeScan._gaufilt3d",
          ["scipy.signal.fftconvolve(mode='same') returns a map of the shape of its first argument"])
def gaufilt3d():
    w, m, s = scan()
    sh = cubes()
    calls = []

    def fftconvolve(a, b, mode="full", **k):
        if mode != "same" or k:
            raise core.Unsupported("convolved in another way")
        f = C.fresh_fn("conv", I, I, I, R)
        calls.append((numpy_m.as_arr(a), b, f))
        return Arr.make(numpy_m.as_arr(a).shape, lambda ix: SNum(f(*ix)), "float64")
    m.fftconvolve = fftconvolve
    flt = anymap(sh, "filter")
    asked = []
    m.util = Ns(gaussian_3d=lambda *x: asked.append(x) or flt)
    a = anymap(sh)
    out = numpy_m.as_arr(s._gaufilt3d(a))
    if len(calls) != 2:
        raise core.Unsupported("not filtered twice")
    oblige("one filter of the shape of the map", z3.And(z3.BoolVal(len(asked) == 1 and len(asked[0]) == 4), *[num(x).e == b.e for x, b in zip(asked[0], sh)]))
    oblige("width of the filter", num(asked[0][3]).e == z3.RealVal("8/10"))
    oblige("both passes use that filter", z3.BoolVal(all(c[1] is flt for c in calls)))
    p = sk3("p")
    C.assume(inside(p, sh))
    ix = tuple(SNum(x) for x in p)
    mirror = tuple(n.e - 1 - x for n, x in zip(sh, p))
    oblige("first pass over the map as given", num(calls[0][0][ix]).e == a.reader()(p).e)
    oblige("shape of the map kept", z3.And(*[iv(x) == b.e for x, b in zip(out.shape, sh)]))
    info = C.extra_state.get("extinfo", [])
    if len(info) != 2:
        raise core.Unsupported("not scaled twice by a maximum")
    for k, (val, what) in enumerate(((num(calls[1][0][ix]).e, "second pass over the mirrored, scaled result of the first"),
                                     (num(out[ix]).e, "mirrored back and scaled at the end"))):
        mx, at = info[k][0], info[k][1]
        f = calls[k][2]
        src = f(*mirror)
        C.assume(numpy_m.extremum_fact(SNum(mx), mirror))
        C.assume(numpy_m.extremum_fact(SNum(mx), p))
        core.lemma("times the reciprocal is division", [R, R], lambda a, b: z3.Implies(b != 0, a * (1 / b) == a / b), (src, mx))
        oblige(what, z3.Implies(mx != 0, val == core.rdiv(src, mx)))
        back = [tuple(n.e - 1 - x for n, x in zip(sh, at))]
        oblige(what + ": by its largest value", z3.And(inside(at, sh), z3.Or(f(*at) == mx, f(*back[0]) == mx), src <= mx))
