"""Contracts on the C kernels and their Python wrappers (quakemigrate.core.lib)."""
from __future__ import annotations

import z3

from .. import cfront, core, loader, loops
from ..arr import Arr, iv
from ..cfront import Ptr, StructPtr
from ..core import B, C, I, R, SBool, SNum, ex, num, oblige, rl, ssum
from .base import contract
import os

SRC = os.path.join(loader.REPO, "quakemigrate/core/src")
_tr = {}


def cfun(world, name):
    """The C function, translated from the current source."""
    if not _tr:
        for f in sorted(os.listdir(SRC)):
            if f.endswith(".c"):
                for n, s in cfront.translate(os.path.join(SRC, f), SRC).items():
                    _tr[n] = (f, s)
    if name not in _tr:
        raise core.Unsupported(f"C function {name} not found")
    f = _tr[name][0]
    rt = cfront.runtime()
    rt["__c_range"] = lambda a, b: loops.SRange(a, b)
    rt["__omp"] = loader.Omp
    text = "\n".join(s for n, (ff, s) in _tr.items() if ff == f)
    return world.exec_text(text, f, rt)[name]


def ints(*names):
    return [SNum(z3.Int(n)) for n in names]



# ------------------------------------------------------------------ migrate (C)
def range_fact(sym, shape, cond):
    """Precondition on every element of an input array."""
    nm = sym.name()

    def schema(name, args, sk):
        return [z3.Implies(z3.And(*[z3.And(a >= 0, a < iv(s)) for a, s in zip(args, shape)]), cond(sym(*args), *args))]
    C.schema(schema, sym)


def migrate_pre(fs, ls, ns, nst, av, nn, th):
    """Scalar precondition of the C kernel (sizes fit the C integer types)."""
    T = fs + ls + ns
    return z3.And(fs.e >= 0, ls.e >= 0, ns.e >= 0, nst.e >= 0, av.e >= 1, nn.e >= 0, th.e >= 1,
                  nst.e * T.e <= 2 ** 31 - 1, T.e <= 2 ** 31 - 1, nst.e <= 2 ** 31 - 1,
                  nn.e * ns.e <= 2 ** 62, nn.e * nst.e <= 2 ** 62, nn.e <= 2 ** 62, av.e < 2 ** 31)


def migrate_value(o_r, t_r, m_r, fs, nst, av, node, samp):
    """exp( (initial + sum over stations of onset[station, max(0, tt) + fsmp + sample]) / available )"""
    def term(j):
        t = ex(t_r((node, ex(j))))
        return o_r((ex(j), z3.If(t > 0, t, z3.IntVal(0)) + fs.e + samp))
    return core.exp_((m_r((node, samp)) + ssum(0, nst, term)) / SNum(rl(av.e)))


@contract("migrate (C)", "C01 C03", "core/src/migratelib.c:migrate",
          ["onsets array has fewer than 2^31 elements", "largest traveltime <= last_idx (padding covers it)"])
def c_migrate():
    w = loader.World()
    f = cfun(w, "migrate")
    fs, ls, ns, nst, av, nn, th = ints("fsmp", "lsmp", "n_samples", "n_stations", "available", "n_nodes", "threads")
    C.assume(migrate_pre(fs, ls, ns, nst, av, nn, th))
    onsets = Arr.symbol("onsets", (nst, fs + ls + ns))
    tts = Arr.symbol("tts", (nn, nst), sort=I)
    map0 = Arr.symbol("map0", (nn, ns))
    onsets.cell.readonly = tts.cell.readonly = True
    range_fact(tts.sym, (nn, nst), lambda v, *a: z3.And(v <= ls.e, v >= -(2 ** 31)))
    o_r, t_r, m_r = onsets.reader(), tts.reader(), map0.reader()
    f(Ptr(onsets, 0), Ptr(tts, 0), Ptr(map0, 0), fs, ls, ns, nst, av, nn, th)
    node, samp = C.skolem("node"), C.skolem("samp")
    C.assume(z3.And(node >= 0, node < nn.e, samp >= 0, samp < ns.e))
    got = map0.at(node, samp)
    want = migrate_value(o_r, t_r, m_r, fs, nst, av, node, samp)
    oblige("every node and sample holds exp((initial + summed onsets at the traveltimes)/available)", got.e == want.e)


@contract("find_max_coa (C)", "C02 C03", "core/src/migratelib.c:find_max_coa", ["map4d has fewer than 2^62 elements"])
def c_find_max_coa():
    w = loader.World()
    f = cfun(w, "find_max_coa")
    ns, nn, th = ints("n_samples", "n_nodes", "threads")
    C.assume(z3.And(ns.e >= 0, ns.e < 2 ** 31, nn.e >= 1, nn.e * ns.e <= 2 ** 62, nn.e <= 2 ** 62, th.e >= 1))
    m = Arr.symbol("map4d", (nn, ns))
    m.cell.readonly = True
    mx, nm = Arr.symbol("mx0", (ns,)), Arr.symbol("nm0", (ns,))
    ix = Arr.symbol("ix0", (ns,), sort=I)
    f(Ptr(m), Ptr(mx), Ptr(nm), Ptr(ix), ns, nn, th)
    find_max_post(m, mx, nm, ix, ns, nn)


def find_max_post(m, mx, nm, ix, ns, nn):
    s, q = C.skolem("s"), C.skolem("q")
    C.assume(z3.And(s >= 0, s < ns.e, q >= 0, q < nn.e))
    r = m.reader()
    v, i = mx.at(s), ix.at(s)
    oblige("index is a node of the grid", z3.And(i.e >= 0, i.e < nn.e))
    oblige("maximum is the value at the index", v.e == r((i.e, s)).e)
    oblige("maximum is not smaller than any node", r((q, s)).e <= v.e)
    oblige("index is the first node attaining the maximum", z3.Implies(q < i.e, r((q, s)).e < v.e))
    tot = ssum(0, nn, lambda j: r((ex(j), s)))
    oblige("normalised maximum is the maximum over the mean", nm.at(s).e == v.e * z3.ToReal(nn.e) / tot.e)


# ------------------------------------------------------------------ STA/LTA kernels
def stalta_setup():
    n, ns, nl = ints("n", "nsta", "nlta")
    C.assume(z3.And(n.e >= 1, n.e < 2 ** 31, ns.e >= 1, nl.e >= 1))
    return n, ns, nl


def stalta_value(sr, a0, a1, b0, b1, nsta, nlta):
    """(mean of [a0,a1)) / (mean of [b0,b1)), 1 where the long-term sum is not positive"""
    sta = ssum(a0, a1, lambda j: sr((ex(j),)))
    lta = ssum(b0, b1, lambda j: sr((ex(j),)))
    return sta, lta, sta.e / lta.e * (z3.ToReal(nlta.e) / z3.ToReal(nsta.e))


def _pos(lta, nl, tiny):
    """the long-term average is positive (not smaller than `tiny`, when given)"""
    return lta.e > 0 if tiny is None else lta.e / z3.ToReal(nl.e) >= tiny


def overlap_post(sig, ons, n, ns, nl, o0, tiny=None):
    sr = sig.reader()
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    I_ = SNum(i)
    sta, lta, val = stalta_value(sr, I_ - ns + 1, I_ + 1, I_ - nl + 1, I_ + 1, ns, nl)
    got = ons.at(i).e
    oblige("defined samples: ratio of short- to long-term averages over windows ending at the sample",
           z3.Implies(z3.And(i >= nl.e - 1, _pos(lta, nl, tiny)), got == val))
    oblige("zero long-term average gives 1", z3.Implies(z3.And(i >= nl.e - 1, lta.e <= 0), got == 1))
    oblige("samples before the first full window keep their value", z3.Implies(i < nl.e - 1, got == o0((i,)).e))


def centred_post(sig, ons, n, ns, nl, o0, tiny=None):
    sr = sig.reader()
    i = C.skolem("i")
    C.assume(z3.And(i >= 0, i < n.e))
    I_ = SNum(i)
    sta, lta, val = stalta_value(sr, I_ + 1, I_ + 1 + ns, I_ - nl + 1, I_ + 1, ns, nl)
    got = ons.at(i).e
    dfn = z3.And(i >= nl.e - 1, i < n.e - ns.e)
    oblige("defined samples: ratio of the average after to the average up to the sample",
           z3.Implies(z3.And(dfn, _pos(lta, nl, tiny)), got == val))
    oblige("zero long-term average gives 1", z3.Implies(z3.And(dfn, lta.e <= 0), got == 1))
    oblige("samples without two full windows keep their value", z3.Implies(z3.Not(dfn), got == o0((i,)).e))


def _stalta(name, post, need):
    w = loader.World()
    f = cfun(w, name)
    n, ns, nl = stalta_setup()
    C.assume(need(n, ns, nl))
    sig, ons = Arr.symbol("signal", (n,)), Arr.symbol("onset0", (n,))
    sig.cell.readonly = True
    range_fact(sig.sym, (n,), lambda v, *a: v >= 0)
    o0 = ons.reader()
    f(Ptr(sig, 0, True), StructPtr(n=n, nsta=ns, nlta=nl), Ptr(ons))
    post(sig, ons, n, ns, nl, o0)


@contract("overlapping_sta_lta (C)", "C03 C04", "core/src/onsetlib.c:overlapping_sta_lta", ["1 <= nsta <= nlta <= n"])
def c_overlapping():
    _stalta("overlapping_sta_lta", overlap_post, lambda n, ns, nl: z3.And(ns.e <= nl.e, nl.e <= n.e))


@contract("centred_sta_lta (C)", "C03 C04", "core/src/onsetlib.c:centred_sta_lta", ["nsta + nlta <= n"])
def c_centred():
    _stalta("centred_sta_lta", centred_post, lambda n, ns, nl: ns.e + nl.e <= n.e)


@contract("recursive_sta_lta (C)", "C03", "core/src/onsetlib.c:recursive_sta_lta")
def c_recursive():
    w = loader.World()
    f = cfun(w, "recursive_sta_lta")
    n, ns, nl = stalta_setup()
    sig, ons = Arr.symbol("signal", (n,)), Arr.symbol("onset0", (n,))
    sig.cell.readonly = True
    f(Ptr(sig, 0, True), StructPtr(n=n, nsta=ns, nlta=nl), Ptr(ons))
