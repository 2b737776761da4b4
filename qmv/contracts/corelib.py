"""Contracts on the Python bindings (quakemigrate.core.lib); the C kernels they call are
represented by their contracts (proved in kernels.py)."""
from __future__ import annotations

import z3

from .. import core, loader
from ..arr import Arr, iv, same
from ..core import B, C, I, R, SBool, SNum, ex, num, oblige, rl, ssum, tobool
from ..models.ctypes_m import CInt, StructArr
from .base import contract
from . import kernels


def flat_lead(a):
    """A C-contiguous array as rows: (reader(node, last)), leading dims, last dim."""
    if a.isview:
        raise core.Unsupported("non-contiguous array passed to a compiled routine")
    return a.shape[:-1], a.shape[-1]


def prod(sh):
    r = z3.IntVal(1)
    for s in sh:
        r = r * iv(s)
    return r


class Lib:
    """qmlib: each routine is its contract."""

    class F:
        def __init__(self, f):
            self.f = f
            self.argtypes = None
            self.restype = None

        def __call__(self, *a):
            if self.argtypes is not None and len(a) < len(self.argtypes):
                raise TypeError("not enough arguments for a compiled routine")
            return self.f(*a)

    def __init__(self):
        self.calls = []
        for n in ("migrate", "find_max_coa", "overlapping_sta_lta", "centred_sta_lta", "recursive_sta_lta"):
            f = Lib.F(getattr(self, "_" + n))
            setattr(self, n, f)

    def _c(self, x, bits, what):
        if not isinstance(x, CInt):
            x = CInt(bits, x)
        v = x.value
        lim = 2 ** (x.bits - 1)
        oblige(f"{what} fits the C integer type", z3.And(v.e >= -lim, v.e < lim))
        return v

    def _migrate(self, onsets, tt, map4d, fs, ls, ns, nst, av, nn, th):
        self.calls.append("migrate")
        fs, ls, ns = self._c(fs, 32, "first sample"), self._c(ls, 32, "last sample"), self._c(ns, 32, "sample count")
        nst, av = self._c(nst, 32, "onset count"), self._c(av, 32, "available count")
        nn, th = self._c(nn, 64, "node count"), self._c(th, 64, "thread count")
        (o_lead, T), (t_lead, L), (m_lead, S) = flat_lead(onsets), flat_lead(tt), flat_lead(map4d)
        oblige("kernel precondition: onset rows are the stations", prod(o_lead) == nst.e)
        oblige("kernel precondition: onset rows have first + last + scan samples", iv(T) == fs.e + ls.e + ns.e)
        oblige("kernel precondition: one traveltime layer per onset row", iv(L) == nst.e)
        oblige("kernel precondition: map rows have the scan samples", iv(S) == ns.e)
        oblige("kernel precondition: same nodes in traveltimes and map",
               z3.And(len(t_lead) == len(m_lead), *[iv(a) == iv(b) for a, b in zip(t_lead, m_lead)]))
        oblige("kernel precondition: node count", nn.e == prod(m_lead))
        oblige("kernel precondition: at least one available onset and one thread", z3.And(av.e >= 1, th.e >= 1))
        o_r, t_r, m_r = onsets.reader(), tt.reader(), map4d.reader()
        nd = len(m_lead)

        def fn(ix):
            lead, s = ix[:nd], ix[nd]
            return kernels.migrate_value(o_r if onsets.ndim == 2 else _no, lambda q: t_r(tuple(lead) + (q[1],)),
                                         lambda q: m_r(tuple(lead) + (q[1],)), fs, nst, av, z3.IntVal(0), s)
        if map4d.cell.readonly:
            oblige("read-only array not written", z3.BoolVal(False))
        map4d.cell.fn = fn

    def _find_max_coa(self, m, mx, nm, ix, ns, nn, th):
        self.calls.append("find_max_coa")
        ns, nn, th = self._c(ns, 32, "sample count"), self._c(nn, 64, "node count"), self._c(th, 64, "thread count")
        lead, S = flat_lead(m)
        for a in (mx, nm, ix):
            if a.isview or a.ndim != 1:
                raise core.Unsupported("output array view")
            oblige("kernel precondition: output length is the scan samples", iv(a.shape[0]) == ns.e)
        oblige("kernel precondition: map rows have the scan samples", iv(S) == ns.e)
        oblige("kernel precondition: node count", nn.e == prod(lead))
        oblige("kernel precondition: at least one node and one thread", z3.And(nn.e >= 1, th.e >= 1))
        ids = {mx.cell.id, nm.cell.id, ix.cell.id, m.cell.id}
        oblige("kernel precondition: the arrays do not alias", z3.BoolVal(len(ids) == 4))
        r2 = flat_reader(m)
        IX = C.fresh_fn("maxidx", I, I)

        def fact(_, args, sk):
            s = args[0]
            i = IX(s)
            out = [z3.Implies(z3.And(s >= 0, s < ns.e), z3.And(i >= 0, i < nn.e))]
            for q in sk:
                out.append(z3.Implies(z3.And(s >= 0, s < ns.e, q >= 0, q < nn.e),
                                      z3.And(r2(q, s).e <= r2(i, s).e, z3.Implies(q < i, r2(q, s).e < r2(i, s).e))))
            return out
        C.schema(fact, IX)
        mx.cell.fn = lambda k: r2(IX(k[0]), k[0])
        ix.cell.fn = lambda k: SNum(IX(k[0]))
        nm.cell.fn = lambda k: SNum(r2(IX(k[0]), k[0]).e * z3.ToReal(nn.e) / ssum(0, nn, lambda j: r2(ex(j), k[0])).e)

    def _stalta(self, name, kind):
        def f(signal, head, onset):
            self.calls.append(name)
            if not isinstance(head, StructArr):
                raise core.Unsupported("header is not the struct")
            n, ns, nl = (num(head.f[k]) for k in ("n", "nsta", "nlta"))
            for v, w in ((n, "sample count"), (ns, "short window"), (nl, "long window")):
                oblige(f"{w} fits the C integer type", z3.And(v.e >= -2 ** 31, v.e < 2 ** 31))
            oblige("kernel precondition: signal and onset have n samples",
                   z3.And(iv(signal.shape[0]) == n.e, iv(onset.shape[0]) == n.e))
            oblige("kernel precondition: windows are positive", z3.And(ns.e >= 1, nl.e >= 1))
            if kind == "overlapping":
                oblige("kernel precondition: the windows fit in the signal", z3.And(ns.e <= nl.e, nl.e <= n.e))
            elif kind == "centred":
                oblige("kernel precondition: the windows fit in the signal", ns.e + nl.e <= n.e)
            sr, o0 = signal.reader(), onset.reader()
            if onset.cell.readonly or onset.cell is signal.cell:
                oblige("the onset is a fresh array", z3.BoolVal(False))

            def fn(ix):
                i = ix[0]
                I_ = SNum(i)
                if kind == "overlapping":
                    sta, lta, val = kernels.stalta_value(sr, I_ - ns + 1, I_ + 1, I_ - nl + 1, I_ + 1, ns, nl)
                    d = i >= nl.e - 1
                else:
                    sta, lta, val = kernels.stalta_value(sr, I_ + 1, I_ + 1 + ns, I_ - nl + 1, I_ + 1, ns, nl)
                    d = z3.And(i >= nl.e - 1, i < n.e - ns.e)
                return SNum(z3.If(d, z3.If(lta.e > 0, val, z3.RealVal(1)), o0(ix).e))
            if kind != "recursive":
                onset.cell.fn = fn
            else:
                g = C.fresh_fn("recstalta", I, R)
                onset.cell.fn = lambda ix: SNum(z3.If(ix[0] >= 1, g(ix[0]), o0(ix).e))
        return f

    def _overlapping_sta_lta(self, *a):
        return self._stalta("overlapping_sta_lta", "overlapping")(*a)

    def _centred_sta_lta(self, *a):
        return self._stalta("centred_sta_lta", "centred")(*a)

    def _recursive_sta_lta(self, *a):
        return self._stalta("recursive_sta_lta", "recursive")(*a)


def _no(*a):
    raise core.Unsupported("onsets not two-dimensional")


_flat = {}


def flat_reader(m):
    """(node, sample) -> element of the C-contiguous array, rows flattened."""
    r = m.reader()
    lead = m.shape[:-1]
    from ..arr import unravel_expr

    def rd(node, s):
        if len(lead) == 1:
            return r((node, s))
        return r(tuple(unravel_expr(node, lead)) + (s,))
    return rd


def world():
    lib = Lib()
    w = loader.World(overrides={("quakemigrate.core.libnames", "_load_cdll"): lambda *a, **k: lib})
    return w, w.module("quakemigrate.core.lib"), lib


def ints(*n):
    return [SNum(z3.Int(x)) for x in n]


@contract("core.lib.migrate", "C01 C03", "core/lib.py:migrate",
          ["largest traveltime <= last_idx (shown by the padding contract)", "sizes fit the C integer types"])
def migrate():
    w, m, lib = world()
    nx, ny, nz, N, L, T, f, l, av, th = ints("nx", "ny", "nz", "N", "L", "T", "first", "last", "avail", "threads")
    C.assume(z3.And(nx.e >= 1, ny.e >= 1, nz.e >= 1, N.e >= 1, L.e >= 1, f.e >= 0, l.e >= 0, T.e - f.e - l.e >= 1,
                    T.e < 2 ** 31, N.e < 2 ** 31, av.e >= 1, av.e < 2 ** 31, th.e >= 1, th.e < 2 ** 31,
                    f.e < 2 ** 31, l.e < 2 ** 31, nx.e * ny.e * nz.e < 2 ** 62))
    C.assume(z3.And(N.e * T.e >= T.e))       # N >= 1
    on = Arr.symbol("onsets", (N, T))
    tt = Arr.symbol("tts", (nx, ny, nz, L), sort=I)
    on.cell.readonly = tt.cell.readonly = True
    try:
        r = m.migrate(on, tt, f, l, av, th)
    except ValueError:
        oblige("ValueError only on a layer mismatch", N.e != L.e)
        oblige("no compiled code ran before the rejection", z3.BoolVal(not lib.calls))
        return
    oblige("a layer mismatch is rejected with ValueError", N.e == L.e)
    oblige("the migration kernel ran", z3.BoolVal(lib.calls == ["migrate"]))
    oblige("map dimensions", z3.And(r.ndim == 4, *[iv(a) == iv(b) for a, b in zip(r.shape, (nx, ny, nz, T - f - l))]))
    i, j, k, s = (C.skolem(x) for x in "ijks")
    C.assume(z3.And(i >= 0, i < nx.e, j >= 0, j < ny.e, k >= 0, k < nz.e, s >= 0, s < T.e - f.e - l.e))
    o_r, t_r = on.reader(), tt.reader()
    fl = z3.RealVal("1/100")

    def term(q):
        t = ex(t_r((i, j, k, ex(q))))
        v = o_r((ex(q), z3.If(t > 0, t, z3.IntVal(0)) + f.e + s)).e
        return core.log_(SNum(z3.If(v > fl, v, fl)))
    want = core.exp_(ssum(0, N, term) / SNum(rl(av.e)))
    oblige("exp of the mean log onset, onsets floored at 0.01, at the node's traveltimes", r.at(i, j, k, s).e == want.e)


@contract("core.lib.find_max_coa", "C02 C03", "core/lib.py:find_max_coa")
def find_max():
    w, m, lib = world()
    nx, ny, nz, S, th = ints("nx", "ny", "nz", "S", "threads")
    C.assume(z3.And(nx.e >= 1, ny.e >= 1, nz.e >= 1, S.e >= 1, S.e < 2 ** 31, th.e >= 1, th.e < 2 ** 31,
                    nx.e * ny.e * nz.e < 2 ** 62, nx.e * ny.e * nz.e >= 1))
    mp = Arr.symbol("map4d", (nx, ny, nz, S))
    mp.cell.readonly = True
    r = m.find_max_coa(mp, th)
    if not (isinstance(r, tuple) and len(r) == 3):
        oblige("returns (maximum, normalised maximum, index)", z3.BoolVal(False))
        return
    mx, nm, ix = r
    for a, d in ((mx, "float64"), (nm, "float64"), (ix, "int64")):
        oblige("one value per sample", z3.And(a.ndim == 1, iv(a.shape[0]) == S.e))
        oblige("element type", z3.BoolVal(a.dtype == d))
    s, q = C.skolem("s"), C.skolem("q")
    nn = nx * ny * nz
    C.assume(z3.And(s >= 0, s < S.e, q >= 0, q < nn.e))
    r2 = flat_reader(mp)
    v, i = mx.at(s), ix.at(s)
    oblige("index is a node of the grid", z3.And(i.e >= 0, i.e < nn.e))
    oblige("maximum is the value at the index", v.e == r2(i.e, s).e)
    oblige("maximum is not smaller than any node", r2(q, s).e <= v.e)
    oblige("index is the first node attaining the maximum", z3.Implies(q < i.e, r2(q, s).e < v.e))
    tot = ssum(0, nn, lambda j: r2(ex(j), s))
    oblige("normalised maximum is the maximum over the mean", nm.at(s).e == v.e * z3.ToReal(nn.e) / tot.e)


def stalta_case(name, kind):
    w, m, lib = world()
    n, ns, nl = ints("n", "nsta", "nlta")
    C.assume(z3.And(n.e >= 1, n.e < 2 ** 31, ns.e >= 1, nl.e >= 1, ns.e < 2 ** 30, nl.e < 2 ** 30))
    if kind == "overlapping":
        C.assume(z3.And(ns.e <= nl.e, nl.e <= n.e))
    elif kind == "centred":
        C.assume(ns.e + nl.e <= n.e)
    sig = Arr.symbol("signal", (n,))
    sig.cell.readonly = True
    kernels.range_fact(sig.sym, (n,), lambda v, *a: v >= 0)
    r = getattr(m, name)(sig, ns, nl)
    oblige("onset has one value per signal sample", z3.And(r.ndim == 1, iv(r.shape[0]) == n.e))
    oblige("the matching kernel ran once", z3.BoolVal(lib.calls == [name]))
    one = lambda ix: SNum(z3.RealVal(1))
    if kind == "overlapping":
        kernels.overlap_post(sig, r, n, ns, nl, one)
    elif kind == "centred":
        kernels.centred_post(sig, r, n, ns, nl, one)


@contract("core.lib.overlapping_sta_lta", "C04 C03", "core/lib.py:overlapping_sta_lta")
def overlapping():
    stalta_case("overlapping_sta_lta", "overlapping")


@contract("core.lib.centred_sta_lta", "C04 C03", "core/lib.py:centred_sta_lta")
def centred():
    stalta_case("centred_sta_lta", "centred")


@contract("core.lib.recursive_sta_lta", "C03", "core/lib.py:recursive_sta_lta")
def recursive():
    stalta_case("recursive_sta_lta", "recursive")


def py_case(name, kind):
    w = loader.World()
    m = w.module("quakemigrate.signal.onsets.stalta")
    n, ns, nl = ints("n", "nsta", "nlta")
    # short window shorter than the long one, both fit in the signal
    C.assume(z3.And(n.e >= 1, ns.e >= 1, nl.e >= 1, ns.e < nl.e, ns.e + nl.e <= n.e))
    sig = Arr.symbol("signal", (n,))
    sig.cell.readonly = True
    kernels.range_fact(sig.sym, (n,), lambda v, *a: v >= 0)
    r = getattr(m, name)(sig, ns, nl)
    oblige("onset has one value per signal sample", z3.And(r.ndim == 1, iv(r.shape[0]) == n.e))
    one = lambda ix: SNum(z3.RealVal(1))
    tiny = ex(w.module("numpy").finfo(float).tiny)
    (kernels.overlap_post if kind == "overlapping" else kernels.centred_post)(sig, r, n, ns, nl, one, tiny)


@contract("stalta.overlapping_sta_lta_py", "C04", "signal/onsets/stalta.py:overlapping_sta_lta_py",
          ["non-zero long-term averages are at least the smallest normal double"])
def overlapping_py():
    py_case("overlapping_sta_lta_py", "overlapping")


@contract("stalta.centred_sta_lta_py", "C04", "signal/onsets/stalta.py:centred_sta_lta_py",
          ["non-zero long-term averages are at least the smallest normal double"])
def centred_py():
    py_case("centred_sta_lta_py", "centred")
