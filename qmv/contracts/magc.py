"""Contracts on local magnitudes (quakemigrate.signal.local_mag.magnitude and local_mag): C19."""
from __future__ import annotations

import z3

from .. import core, loader
from ..arr import Arr, iv
from ..core import B, C, I, R, SBool, SNum, ex, num, oblige, rl, tobool
from ..loops import QDict, QList
from ..models.pandas_m import DataFrame, Row
from .base import contract
from .corelib import ints
from .gridc import PyprojModel, reals
from .scanc import Ns

Q = "signal/local_mag/magnitude.py:Magnitude."
NO = z3.BoolVal(False)
LOG10 = lambda e: core.log10_(SNum(e)).e
nan = lambda v: v.nan if v.nan is not None else NO
HAS, COR = z3.Function("has_correction", I, B), z3.Function("correction", I, R)
ATT = z3.Function("attenuation", R, R)


class Corrections:
    """a dictionary of station corrections by channel"""

    def keys(self):
        return self

    def __contains__(self, t):
        return C.decide(HAS(num(t).e))

    def __getitem__(self, t):
        return SNum(COR(num(t).e))

    def get(self, t, d=None):
        return SNum(COR(num(t).e)) if t in self else d

    def __bool__(self):
        return True


def correction(t):
    return z3.If(HAS(t), COR(t), z3.RealVal(0))


def magnitude(hyp=True):
    w = loader.World(models={"pyproj": PyprojModel("pyproj")})
    m = w.module("quakemigrate.signal.local_mag.magnitude")
    a = object.__new__(m.Magnitude)
    a.station_corrections = Corrections()
    a.amp_feature = ["P_amp", "S_amp"][C.choose(2, "feature")]
    a.amp_multiplier = reals("mult")[0]
    C.assume(a.amp_multiplier.e > 0)
    a.use_hyp_dist = hyp and C.choose(2, "hypocentral") == 1

    def att(d):
        f = lambda v: SNum(ATT(num(v).e), num(v).nan)
        d = d.arr if hasattr(d, "arr") else d
        return d.map(f, "float64") if isinstance(d, Arr) else f(d)
    a.A0 = att
    return w, m, a


def column(name, n, missing=True):
    f, g = z3.Function(name, I, R), z3.Function(name + "_missing", I, B)
    return Arr.make((n,), lambda ix: SNum(f(ix[0]), g(ix[0]) if missing else None), "float64")


def table(extra=(), missing=True):
    """any table of amplitudes: missing values anywhere but in the distances"""
    n, = ints("n")
    C.assume(n.e >= 0)
    ID = z3.Function("id", I, I)
    cols = {c: column(c, n, missing) for c in ("P_amp", "S_amp", "Noise_amp", "P_filter_gain", "S_filter_gain")}
    cols["epi_dist"], cols["z_dist"] = column("epi_dist", n, False), column("z_dist", n, False)
    pk = z3.Function("is_picked", I, B)
    cols["is_picked"] = Arr.make((n,), lambda ix: SBool(pk(ix[0])), "bool")
    for c in extra:
        cols[c] = column(c, n)
    for v in cols.values():
        v.materialize() if hasattr(v, "materialize") else None
    idx = Arr.make((n,), lambda ix: SNum(ID(ix[0])), "int64")
    idx.unique = True
    before = {c: v.copy() for c, v in cols.items()}
    t = DataFrame(dict(cols), index=idx)
    return n, t, before, ID


def same(a, b):
    """both missing, or equal"""
    if isinstance(a, SBool) or isinstance(b, SBool):
        return tobool(a) == tobool(b)
    a, b = num(a), num(b)
    return z3.And(nan(a) == nan(b), z3.Implies(z3.Not(nan(a)), a.e == b.e))


@contract("magnitude.calculate_magnitudes", "C19", [Q + "calculate_magnitudes", Q + "_calc_mags", Q + "_get_attenuation"],
          ["infinite values (the logarithm of zero) are not distinguished from numbers"])
def calculate():
    w, m, a = magnitude()
    n, t, before, ID = table()
    gcol = a.amp_feature[0] + "_filter_gain"
    r = a.calculate_magnitudes(t)
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    at = lambda c: num(before[c].at(i))
    amp, noise, gain, ed, zd = at(a.amp_feature), at("Noise_amp"), at(gcol), at("epi_dist"), at("z_dist")
    oblige("the input is left alone", z3.And(*[same(t[c].values.at(i), before[c].at(i)) for c in before], z3.BoolVal(list(t.cols) == list(before)), z3.BoolVal(r is not t)))
    oblige("and kept in the result", z3.And(*[same(r[c].values.at(i), before[c].at(i)) for c in before], iv(r.idx.shape[0]) == n.e, num(r.idx.at(i)).e == ID(i)))
    # whether any amplitude was corrected for a filter
    j = C.skolem("j")
    M = a.amp_multiplier.e
    filtered = z3.And(j >= 0, j < n.e, z3.Not(nan(num(before[gcol].at(j)))))
    ml, err = num(r["ML"].values.at(i)), num(r["ML_Err"].values.at(i))
    dist = core.sqrt_(SNum(ed.e * ed.e + zd.e * zd.e)).e if a.use_hyp_dist else ed.e

    def post(corrected):
        nz = core.rdiv(noise.e * M, gain.e) if corrected else noise.e * M
        nzn = z3.Or(nan(noise), nan(gain)) if corrected else nan(noise)
        A = amp.e * M
        missing = z3.Or(nan(amp), z3.And(z3.Not(nzn), A < nz), A == 0, dist == 0)
        full = LOG10(A) + ATT(dist) + correction(ID(i))
        e = LOG10(A + nz) - LOG10(A - nz)
        return z3.And(z3.Implies(A >= 0, nan(ml) == missing), z3.Implies(z3.And(z3.Not(missing), A > 0), ml.e == full),
                      z3.Implies(z3.And(z3.Not(missing), z3.Not(nzn), A > 0, A + nz >= 0), z3.And(z3.Not(nan(err)), err.e == e)))
    with C.under(filtered):
        oblige("magnitudes of amplitudes corrected for a filter, noise corrected likewise", post(True))
    q = lambda x: z3.Implies(z3.And(x >= 0, x < n.e), nan(num(before[gcol].at(x))))
    C.foralls.append(q)
    oblige("magnitudes of amplitudes that were not filtered", post(False))


@contract("magnitude._filter_mags", "C19", Q + "_filter_mags", ["channels are told apart by numbers; str.contains is a function of the channel and the text"])
def filter_mags():
    w, m, a = magnitude()
    n, t, before, ID = table(("ML", "ML_Err"))
    opts = {}
    a.noise_filter, = reals("noise_filter")
    a.trace_filter = [None, ".*H[NE12]$"][C.choose(2, "trace filter")]
    a.station_filter = [None, QList(["AAA", "BBB"])][C.choose(2, "station filter")]
    a.dist_filter = [False, reals("dist_filter")[0]][C.choose(2, "distance filter")]
    if a.dist_filter is not False:
        C.assume(a.dist_filter.e > 0)
    a.pick_filter = C.choose(2, "pick filter") == 1
    r = a._filter_mags(t)
    oblige("the table itself is filtered", z3.BoolVal(r is t))
    em = getattr(r.idx, "embed", None)
    if em is None:
        raise core.Unsupported("observations selected in another way")
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e, em.covers(i)))
    at = lambda c, k: before[c].at(k)
    amp, noise = num(at(a.amp_feature, i)), num(at("Noise_amp", i))
    oblige("observations without an amplitude or a noise amplitude are left out, all others kept",
           z3.And(em.n == n.e, em.mask(i) == z3.And(z3.Not(nan(amp)), z3.Not(nan(noise)))))
    j = C.skolem("j")
    C.assume(z3.And(j >= 0, j < em.m, em.inrange(j)))
    k = em.e(j)
    oblige("they keep their values", z3.And(*[same(r[c].values.at(j), before[c].at(k)) for c in before], num(r.idx.at(j)).e == ID(k)))
    amp, noise, ml = num(at(a.amp_feature, k)), num(at("Noise_amp", k)), num(at("ML", k))
    ed, zd = num(at("epi_dist", k)).e, num(at("z_dist", k)).e
    dist = core.sqrt_(SNum(ed * ed + zd * zd)).e if a.use_hyp_dist else ed
    from ..models.pandas_m import contains_fn
    ok = [z3.Not(nan(ml)), z3.Or(a.noise_filter.e == 0, amp.e > noise.e * a.noise_filter.e)]
    if a.trace_filter is not None:
        ok.append(contains_fn(a.trace_filter, True)(ID(k)))
    if a.station_filter is not None:
        ok += [z3.Not(contains_fn(f".{s}.", False)(ID(k))) for s in ("AAA", "BBB")]
    if a.dist_filter is not False:
        ok.append(dist <= a.dist_filter.e)
    if a.pick_filter:
        ok.append(tobool(at("is_picked", k)))
    oblige("used exactly when it has a magnitude and passes every filter", tobool(r["Used"].values.at(j)) == z3.And(*ok))
    d = num(r["Dist"].values.at(j))
    oblige("the distance, missing when it is zero", z3.And(nan(d) == (dist == 0), z3.Implies(dist != 0, d.e == dist)))


@contract("magnitude.mean_magnitude", "C19", Q + "mean_magnitude",
          ["_filter_mags and _mag_r_squared by their own contracts", "errors of used observations are numbers above zero when they are weights"])
def mean():
    w, m, a = magnitude(hyp=False)
    n, t, before, ID = table(("ML", "ML_Err"))
    a.weighted_mean = C.choose(2, "weighted") == 1
    a.r2_only_used = C.choose(2, "r2") == 1
    gcol = a.amp_feature[0] + "_filter_gain"
    U = z3.Function("used", I, B)
    ml = lambda k: num(before["ML"].at(k))
    er = lambda k: num(before["ML_Err"].at(k))
    sel = lambda k: z3.Implies(U(k), z3.And(z3.Not(nan(ml(k))), z3.And(z3.Not(nan(er(k))), er(k).e > 0) if a.weighted_mean else z3.BoolVal(True)))
    C.schema(lambda nm, args, sk: [sel(args[0])], U)
    res, = reals("r2")
    calls = []
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))

    def filt(x):
        calls.append(x)
        c = num(x["Station_Correction"].values.at(i))
        oblige("each channel has its station correction, none zero", z3.And(z3.Not(nan(c)), c.e == correction(ID(i))))
        y = x.copy()
        y["Used"] = Arr.make((n,), lambda ix: SBool(U(ix[0])), "bool")
        calls.append(y)
        return y

    def r2(x, mean_mag, only_used=True):
        oblige("the fit is judged in the mode chosen", z3.BoolVal(x is calls[1] and only_used is a.r2_only_used))
        calls.append(mean_mag)
        return res
    a._filter_mags, a._mag_r_squared = filt, r2
    mag, err, r, out = a.mean_magnitude(t)
    oblige("the filtered table is returned", z3.BoolVal(out is calls[1]))
    em = [e for e in C.extra_state.get("emb", {}).values()]
    used = [e for e in em if core.valid(z3.Implies(z3.And(i >= 0, i < n.e), e.mask(i) == U(i)))]
    if not used:
        raise core.Unsupported("observations selected in another way")
    u = used[0]
    C.assume(u.covers(i))
    if not isinstance(mag, SNum):
        oblige("no magnitude exactly when no observation is used", z3.And(z3.BoolVal(mag != mag), z3.Not(U(i))))
        oblige("nor an error or a fit", z3.BoolVal(err != err and r != r))
        return
    oblige("a magnitude only when an observation is used", u.m > 0)
    k = u.e
    wt = (lambda j: core.rdiv(z3.RealVal(1), er(k(j)).e) * core.rdiv(z3.RealVal(1), er(k(j)).e)) if a.weighted_mean else (lambda j: z3.RealVal(1))
    SW = lambda q: core.ssum(0, SNum(q), lambda j: SNum(wt(ex(j)))).e
    SM = lambda q: core.ssum(0, SNum(q), lambda j: SNum(ml(k(ex(j))).e * wt(ex(j)))).e
    mag = num(mag)
    oblige("a number", z3.Not(nan(mag)))
    if a.weighted_mean:
        inv = lambda x: z3.Implies(x > 0, core.rdiv(z3.RealVal(1), x) * core.rdiv(z3.RealVal(1), x) == core.rdiv(z3.RealVal(1), x * x))
        core.lemma("the square of an inverse is the inverse of the square", [R], inv)
        C.foralls.append(lambda j: z3.Implies(z3.And(j >= 0, j < u.m), z3.And(u.inrange(j), sel(k(j)))))
        C.foralls.append(lambda j: inv(er(k(j)).e))
    oblige("the (weighted) mean of the magnitudes used", mag.e == core.rdiv(SM(u.m), SW(u.m)))
    lo, hi = reals("lo", "hi")
    within = lambda j: z3.Implies(z3.And(j >= 0, j < u.m), z3.And(lo.e <= ml(k(j)).e, ml(k(j)).e <= hi.e))
    C.foralls.append(within)
    C.assume(z3.And(sel(k(z3.IntVal(0))), within(z3.IntVal(0))))
    P = lambda q: z3.And(SW(q) >= 0, z3.Implies(q > 0, SW(q) > 0), lo.e * SW(q) <= SM(q), SM(q) <= hi.e * SW(q))
    q = C.skolem("q")
    core.lemma("weights are positive", [R], lambda x: z3.Implies(x > 0, core.rdiv(z3.RealVal(1), x) * core.rdiv(z3.RealVal(1), x) > 0))
    oblige("weighted sums of nothing", P(z3.IntVal(0)))
    C.assume(z3.And(q >= 0, q < u.m, u.inrange(q), sel(k(q)), within(q)))
    core.lemma("weights are positive", [R], lambda x: z3.Implies(x > 0, core.rdiv(z3.RealVal(1), x) * core.rdiv(z3.RealVal(1), x) > 0), (er(k(q)).e,))
    oblige("the sums go one observation at a time", z3.And(SW(q + 1) == SW(q) + wt(q), SM(q + 1) == SM(q) + ml(k(q)).e * wt(q)))
    core.lemma("weighted sums stay between the bounds (induction step)", [R] * 6, lambda W, M, x, v, l, h: z3.Implies(
        z3.And(W >= 0, l * W <= M, M <= h * W, v > 0, l <= x, x <= h), z3.And(W + v > 0, l * (W + v) <= M + x * v, M + x * v <= h * (W + v))),
        (SW(q), SM(q), ml(k(q)).e, wt(q), lo.e, hi.e))
    with C.under(P(q)):
        oblige("weighted sums stay between the bounds", P(q + 1))
    C.assume(P(u.m))
    core.lemma("division by a positive number keeps bounds", [R] * 5, lambda W, M, g, l, h: z3.Implies(
        z3.And(W > 0, l * W <= M, M <= h * W, g * W == M), z3.And(l <= g, g <= h)), (SW(u.m), SM(u.m), mag.e, lo.e, hi.e))
    oblige("the mean is between the smallest and largest magnitude used", z3.And(lo.e <= mag.e, mag.e <= hi.e))
    oblige("the fit is that of the mean", z3.And(num(r).e == res.e, num(calls[2]).e == mag.e))


LAWS = {
    "keir2006": lambda d: 1.196997 * LG(d / 17) + 0.001066 * (d - 17) + 2,
    "Danakil2017": lambda d: 1.274336 * LG(d / 17) - 0.000273 * (d - 17) + 2,
    "Greenfield2018_askja": lambda d: 1.4406 * LG(d / 17) + 0.003 * (d - 17) + 2,
    "Greenfield2018_bardarbunga": lambda d: 1.2534 * LG(d / 17) + 0.0032 * (d - 17) + 2,
    "Greenfield2018_comb": lambda d: 1.1999 * LG(d / 17) + 0.0016 * (d - 17) + 2,
    "Hutton-Boore": lambda d: 1.11 * LG(d / 100) + 0.00189 * (d - 100) + 3,
    "Langston1998": lambda d: 0.776 * LG(d / 17) + 0.000902 * (d - 17) + 2,
    "UK": lambda d: 1.11 * LG(d) + 0.00189 * d - 1.16 * core.exp_(SNum(core.rl(num(-0.2).e)) * d) - 2.09,
}


def LG(x):
    return core.log10_(x)


@contract("magnitude._logA0", "C19", [Q + "_logA0", Q + "_get_attenuation"], ["the published attenuation laws, as the documentation lists them"])
def laws():
    w, m, a = magnitude(hyp=False)
    k = C.choose(len(LAWS) + 1, "law")
    n, = ints("n")
    d = Arr.symbol("dist", (n,), sort=R)
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    x = num(d.at(i))
    C.assume(x.e > 0)
    if k == len(LAWS):
        a.A0 = "none of them"
        try:
            a._get_attenuation(d)
        except ValueError:
            return
        oblige("an unknown law is refused", z3.BoolVal(False))
    name = list(LAWS)[k]
    a.A0 = name
    r = num(a._get_attenuation(d).at(i))
    want = num(LAWS[name](x))
    oblige(f"the {name} attenuation law", z3.And(r.e == want.e))


def explained(r, total, left):
    """r is the share of a variance above zero that is not left over (the three spellings mean the same)"""
    return z3.Implies(total != 0, z3.Or(r == core.rdiv(total - left, total), r == 1 - core.rdiv(left, total), r * total == total - left))


@contract("magnitude._mag_r_squared", "C19", Q + "_mag_r_squared", ["the mode that uses only the observations of the mean",
          "pandas and numpy mean and sum as functions of the values they are given", "no missing values among the observations used"])
def r_squared():
    w, m, a = magnitude(hyp=False)
    n, t, before, ID = table(missing=False)
    U = z3.Function("used", I, B)
    t["Used"] = Arr.make((n,), lambda ix: SBool(U(ix[0])), "bool")
    SC, DI = z3.Function("sc", I, R), z3.Function("di", I, R)
    t["Station_Correction"] = Arr.make((n,), lambda ix: SNum(SC(ix[0])), "float64")
    t["Dist"] = Arr.make((n,), lambda ix: SNum(DI(ix[0])), "float64")
    mean_mag, = reals("mean_mag")
    A = lambda k: num(before[a.amp_feature].at(k))
    C.schema(lambda nm, args, sk: [z3.Implies(U(args[0]), z3.And(z3.Not(nan(A(args[0]))), A(args[0]).e > 0))], U)
    r = a._mag_r_squared(t, mean_mag, only_used=True)
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    used = [e for e in C.extra_state.get("emb", {}).values() if core.valid(z3.Implies(z3.And(i >= 0, i < n.e), e.mask(i) == U(i)))]
    if not used:
        raise core.Unsupported("observations selected in another way")
    u = used[0]
    k = u.e
    amp = lambda j: A(k(j)).e * a.amp_multiplier.e * core.power_(SNum(z3.RealVal(10)), SNum(SC(k(j)))).e
    j, l = C.skolem("j"), C.skolem("l")
    C.assume(z3.And(j >= 0, j < u.m, l >= 0, l < u.m, u.inrange(j), u.inrange(l)))
    if not isinstance(r, SNum):
        oblige("no fit only for fewer than two observations or equal amplitudes", z3.Or(u.m < 2, amp(j) == amp(l)))
        return
    lg = lambda j: core.log10_(SNum(amp(j))).e
    S = lambda f: core.ssum(0, SNum(u.m), lambda q: SNum(f(ex(q)))).e
    mean = core.rdiv(S(lg), z3.ToReal(u.m))
    V0 = S(lambda q: (lg(q) - mean) * (lg(q) - mean))
    res = lambda q: lg(q) - (mean_mag.e - ATT(DI(k(q))))
    V1 = S(lambda q: res(q) * res(q))
    oblige("the share of the variance of the log amplitudes that the magnitude and attenuation explain", explained(num(r).e, V0, V1))


@contract("magnitude._mag_r_squared (expected above the noise)", "C19", Q + "_mag_r_squared",
          ["three observations stand for any", "no missing values among them", "amplitudes and noise above zero"])
def r_squared_expected():
    w, m, a = magnitude(hyp=False)

    class Obs(DataFrame):
        """a table of a known number of rows"""

        def _new(self, cols, idx):
            d = object.__new__(Obs)
            d.__dict__["cols"], d.__dict__["idx"] = cols, idx
            return d

        def _take(self, keep):
            pick = lambda x: Arr.make((len(keep),), lambda ix: among([x.at(k) for k in keep], ix[0]), x.dtype)
            return self._new({c: pick(x.copy()) for c, x in self.cols.items()}, pick(self.idx.copy()))

        def _mask(self, mask):
            mask = getattr(mask, "arr", mask)
            return self._take([k for k in range(int(self.idx.shape[0])) if bool(mask.at(k))])

        def iterrows(self):
            return [(lab, Row({c: x.at(k) for c, x in self.cols.items()}, lab)) for k, lab in enumerate(self._labels())]

        def _labels(self):
            return [z3.simplify(num(self.idx.at(k)).e).as_long() for k in range(int(self.idx.shape[0]))]

        def drop(self, labels=None, index=None, columns=None, axis=0, inplace=False, **k):
            if k or columns is not None or inplace or axis not in (0, "index"):
                raise core.Unsupported("DataFrame.drop in another way")
            out = index if labels is None else labels
            out = list(out) if isinstance(out, (list, tuple)) else [out]
            have = self._labels()
            if any(x not in have for x in out):
                raise KeyError(out)
            return self._take([q for q, x in enumerate(have) if x not in out])

    def among(xs, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return xs[e.as_long()]
        r = xs[-1]
        for q in range(len(xs) - 2, -1, -1):
            r = core.ite(e == q, xs[q], r)
        return r
    N = 3
    names = ["Trace_Filter", "Station_Filter", "Dist_Filter"]
    kind = [0, 4, C.choose(5, "third observation")]       # passes all; fails one of the filters; below the noise
    q = C.choose(5, "filters asked for")                  # none, one of them, all
    asked = [q == 4 or q == 1 + i for i in range(3)]
    if a.amp_feature == "S_amp" and (kind[2], q) != (4, 4) or kind[2] in (0, 4) and q in (1, 2):
        return                                                # the same code as in the cases below
    a.trace_filter = ".*" if asked[0] else None
    a.station_filter = ["X"] if asked[1] else None
    a.dist_filter = reals("dist_filter")[0] if asked[2] else False
    if asked[2]:
        C.assume(a.dist_filter.e > 0)
    a.noise_filter, = reals("noise_filter")
    C.assume(a.noise_filter.e > 0)
    f = {c: reals(*[f"{c}{q}" for q in range(N)]) for c in ("amp", "Noise_amp", "Station_Correction", "Dist")}
    for q in range(N):
        C.assume(z3.And(f["amp"][q].e > 0, f["Noise_amp"][q].e > 0))
    arr = lambda xs: Arr.make((N,), lambda ix: among(xs, ix[0]), "float64")

    flags = lambda xs: Arr.make((N,), lambda ix: SBool(tobool(among([SBool(z3.BoolVal(x)) for x in xs], ix[0]))), "bool")
    t = object.__new__(Obs)
    other = {"P_amp": "S_amp", "S_amp": "P_amp"}[a.amp_feature]
    t.__dict__["cols"] = {a.amp_feature: arr(f["amp"]), other: arr(reals("o0", "o1", "o2")), **{c: arr(f[c]) for c in ("Noise_amp", "Station_Correction", "Dist")},
                          **{c: flags([kind[q] != 1 + i for q in range(N)]) for i, c in enumerate(names)}, "Noise_Filter": flags([kind[q] != 4 for q in range(N)]),
                          "Used": flags([kind[q] == 0 for q in range(N)])}
    t.__dict__["idx"] = Arr.make((N,), lambda ix: SNum(z3.simplify(7 - 2 * ix[0])), "int64")
    mean_mag, = reals("mean_mag")
    ten = SNum(z3.RealVal(10))
    for q in range(N):          # the meaning of a quotient of positive numbers (powers of ten are positive)
        noise = f["Noise_amp"][q].e * a.amp_multiplier.e * core.power_(ten, f["Station_Correction"][q]).e
        predicted = core.power_(ten, SNum(mean_mag.e - ATT(f["Dist"][q].e))).e
        C.assume(z3.And(noise > 0, predicted > 0, (core.rdiv(predicted, noise) >= 5) == (predicted >= 5 * noise), (core.rdiv(noise, predicted) <= z3.Q(1, 5)) == (predicted >= 5 * noise)))
    r = a._mag_r_squared(t, mean_mag, only_used=False)
    amp = [f["amp"][q].e * a.amp_multiplier.e * core.power_(ten, f["Station_Correction"][q]).e for q in range(N)]
    keep = []
    for q in range(N):
        if kind[q] in (1, 2, 3) and asked[kind[q] - 1]:
            continue
        if kind[q] == 4:
            noise = f["Noise_amp"][q].e * a.amp_multiplier.e * core.power_(ten, f["Station_Correction"][q]).e
            predicted = core.power_(ten, SNum(mean_mag.e - ATT(f["Dist"][q].e))).e
            if not C.decide(predicted >= 5 * noise):
                continue
        keep.append(q)
    if not isinstance(r, SNum):
        oblige("no fit only for fewer than two retained observations or equal amplitudes", z3.And(*[amp[p] == amp[q] for p in keep for q in keep if p < q]))
        return
    lg = [core.log10_(SNum(amp[q])).e for q in keep]
    mean = core.rdiv(sum(lg[1:], lg[0]), z3.RealVal(len(keep)))
    V0 = sum(((x - mean) * (x - mean) for x in lg[1:]), (lg[0] - mean) * (lg[0] - mean))
    res = [x - (mean_mag.e - ATT(f["Dist"][q].e)) for x, q in zip(lg, keep)]
    V1 = sum((x * x for x in res[1:]), res[0] * res[0])
    oblige("two or more observations retained", z3.BoolVal(len(keep) >= 2))
    oblige("the share of the variance of the log amplitudes explained, over the observations kept by the filters asked for and expected above the noise", explained(num(r).e, V0, V1))


@contract("local_mag.calc_magnitude", "C19", "signal/local_mag/local_mag.py:LocalMag.calc_magnitude", ["amplitudes and magnitudes by their own contracts"])
def calc_magnitude():
    w = loader.World(models={"pyproj": PyprojModel("pyproj")})
    m = w.module("quakemigrate.signal.local_mag.local_mag")
    o = object.__new__(m.LocalMag)
    n, t, before, ID = table()
    feature = ["P_amp", "S_amp"][C.choose(2, "feature")]
    run, lut = object(), Ns(unit_conversion_factor=1.0)
    log = []
    ev = Ns(uid="uid", add_local_magnitude=lambda *a: log.append(("event", *a)))
    tables = [object(), object()]
    mag, err, r2 = reals("mag", "err", "r2")

    def amps(e, l):
        oblige("amplitudes of this event", z3.BoolVal(e is ev and l is lut))
        return t

    def calculate(x):
        oblige("magnitudes of these amplitudes", z3.BoolVal(x is t))
        return tables[0]

    def mean_(x):
        oblige("the mean of these magnitudes", z3.BoolVal(x is tables[0]))
        log.append(("mean",))
        return mag, err, r2, tables[1]
    o.amp = Ns(get_amplitudes=amps, noise_measure="RMS")
    o.mag = Ns(amp_feature=feature, calculate_magnitudes=calculate, mean_magnitude=mean_, plot_amplitudes=lambda *a: log.append(("plot", *a)))
    o.plot = False
    m.write_amplitudes = lambda r, x, e: log.append(("write", r, x, e))
    e, got = o.calc_magnitude(ev, lut, run)
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    oblige("the event is returned", z3.BoolVal(e is ev))
    written = [x for x in log if x[0] == "write"]
    added = [x[1:] for x in log if x[0] == "event"]
    oblige("one table is written, one magnitude added to the event", z3.BoolVal(len(written) == 1 and len(added) == 1 and written[0][1] is run and written[0][3] is ev))
    if ("mean",) not in log:
        oblige("no magnitude only when no amplitude was measured", z3.And(nan(num(before[feature].at(i))),
               z3.BoolVal(got != got and all(x != x for x in added[0]) and written[0][2] is t)))
        return
    oblige("the mean, its error and fit are added and returned; the magnitudes are written before they are filtered", z3.And(
        z3.BoolVal(len(added[0]) == 3 and written[0][2] is tables[0] and log.index(written[0]) < log.index(("mean",))),
        num(got).e == mag.e, *[num(x).e == y.e for x, y in zip(added[0], (mag, err, r2))]))
