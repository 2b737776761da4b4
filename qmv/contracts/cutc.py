"""Contracts on the waveforms and coalescence maps written for an event (quakemigrate.io.cut_waveforms, coalescence): C27."""
from __future__ import annotations

import types

import z3

from .. import core, loader
from ..core import B, C, R, SBool, SNum, num, oblige, rl
from ..loops import QDict, QList
from ..models.obspy_m import UTC
from .base import contract
from .filec import Place, below, run
from .gridc import PyprojModel, reals

SOME = z3.Function("has_samples_between", z3.IntSort(), R, R, B, B, B)


class Values:
    """the samples of a trace"""

    def __init__(self, tr):
        self.tr = tr

    def max(self, *a, **k):
        return SNum(z3.Real(f"largest_{self.tr.id}"))

    def min(self, *a, **k):
        return SNum(z3.Real(f"smallest_{self.tr.id}"))

    def __len__(self):
        return 1 if self.tr else 0


class Cut:
    """a trace, by the part of the data it holds and what has been done to it"""

    def __init__(self, id, lo=None, hi=None, ops=(), origin=None):
        self.id, self.lo, self.hi, self.ops, self.origin = id, lo, hi, list(ops), origin
        self.stats = types.SimpleNamespace(npts=None)

    @property
    def data(self):
        return Values(self)

    def trim(self, starttime=None, endtime=None, **k):
        if k or self.ops:
            raise core.Unsupported("trimmed in another way")
        for t in (starttime, endtime):
            if t is not None and not isinstance(t, UTC):
                raise core.Unsupported("trimmed to another kind of time")
        if starttime is not None:
            if self.lo is not None:
                raise core.Unsupported("trimmed twice")
            self.lo = starttime
        if endtime is not None:
            if self.hi is not None:
                raise core.Unsupported("trimmed twice")
            self.hi = endtime
        return self

    def slice(self, starttime=None, endtime=None, **k):
        return self.copy().trim(starttime, endtime, **k)

    def any(self):
        z = z3.RealVal(0)
        a = z if self.lo is None else rl(self.lo.e)
        b = z if self.hi is None else rl(self.hi.e)
        return SOME(z3.IntVal(int(self.id[1:])), a, b, z3.BoolVal(self.lo is None), z3.BoolVal(self.hi is None))

    def __bool__(self):
        return C.decide(self.any())

    def __len__(self):
        raise core.Unsupported("length of a trace")

    def copy(self):
        return Cut(self.id, self.lo, self.hi, self.ops, self)

    __deepcopy__ = lambda self, memo: self.copy()


class Waves:
    def __init__(self, traces=()):
        self.traces = list(traces) if not isinstance(traces, Cut) else [traces]

    def __iter__(self):
        return iter(list(self.traces))

    def __len__(self):
        return len(self.traces)

    def __bool__(self):
        return bool(self.traces)

    def __getitem__(self, k):
        return self.traces[k]

    def append(self, t):
        if not isinstance(t, Cut):
            raise core.Unsupported("appending another kind of object")
        self.traces.append(t)
        return self

    def extend(self, ts):
        self.traces.extend(ts)
        return self

    def __iadd__(self, x):
        self.traces.extend([x] if isinstance(x, Cut) else list(x))
        return self

    def __add__(self, x):
        return Waves(self.traces + ([x] if isinstance(x, Cut) else list(x)))

    def remove(self, t):
        self.traces = [x for x in self.traces if x is not t]
        return self

    def copy(self):
        return Waves([t.copy() for t in self.traces])

    __deepcopy__ = lambda self, memo: self.copy()

    def trim(self, *a, **k):
        self.traces = [t for t in self.traces if t.trim(*a, **k)]
        return self

    def slice(self, *a, **k):
        return self.copy().trim(*a, **k)

    def write(self, filename, format=None, **k):
        if k or isinstance(filename, (SNum, bytes)):
            raise core.Unsupported("written in another way")
        WRITTEN.append((str(filename), format, [(t.id, t.lo, t.hi, tuple(t.ops), t) for t in self.traces]))


WRITTEN = []


class Here(Place):
    """a path whose directories have to be made before use"""
    made = []

    def __truediv__(self, s):
        return Here(Place.__truediv__(self, s).p)

    def joinpath(self, *s):
        return Here(self.p + s)

    def with_suffix(self, s):
        return Here(Place.with_suffix(self, s).p)

    def with_name(self, s):
        return Here(self.p[:-1] + (s,))

    def mkdir(self, **k):
        super().mkdir(**k)
        Here.made.append(self.p)


def rig():
    w = loader.World(models={"obspy": types.SimpleNamespace(Stream=Waves, UTCDateTime=UTC)})
    m = w.module("quakemigrate.io.cut_waveforms")
    WRITTEN.clear()
    Here.made.clear()
    r = run()
    r.path = Here(("RUN",))
    ot, pre, post = reals("otime", "pre_cut", "post_cut")
    C.assume(z3.And(pre.e > 0, post.e > 0))
    return w, m, r, ot, pre, post


def placed(r, kind, uid="20200101000000123"):
    """the name of the file written"""
    f = WRITTEN[0][0].split("/")
    oblige("in the run's directory of this kind", z3.BoolVal(tuple(f[:-1]) == below(r, "locate", r.subname, f"{kind}_cut_waveforms") and tuple(f[:-1]) in Here.made))
    oblige("named by the event", z3.BoolVal(f[-1].split(".")[0] == uid and "." in f[-1]))


def limits(t, ot, pre, post):
    """the trace holds the data between the cuts"""
    _, lo, hi, *_ = t
    z = [z3.BoolVal((lo is None) == (pre is None)), z3.BoolVal((hi is None) == (post is None))]
    if pre is not None and lo is not None:
        z.append(rl(lo.e) == ot.e - pre.e)
    if post is not None and hi is not None:
        z.append(rl(hi.e) == ot.e + post.e)
    return z3.And(*z)


KIND = ["MSEED", "SAC", "SEGY", "GSE2", "OTHER"]


@contract("cut_waveforms.write_cut_waveforms: raw", "C27", "io/cut_waveforms.py:write_cut_waveforms, io/cut_waveforms.py:write_waveforms",
          ["ObsPy's Trace.trim and Stream.write do what they document", "three traces stand for any number"])
def raw_cut():
    w, m, r, ot, pre, post = rig()
    have = [bool(C.choose(2, x)) for x in ("pre-cut", "post-cut")]
    nothing = [None, 0.0][C.choose(2, "how none is said")] if not all(have) else None
    p, q = (pre if have[0] else nothing), (post if have[1] else nothing)
    traces = [Cut(f"#{k}") for k in range(3)]
    st = Waves(traces)
    ev = types.SimpleNamespace(uid="20200101000000123", otime=UTC(ot.e), trigger_time=UTC(z3.Real("trigger_time")), data=types.SimpleNamespace(raw_waveforms=st, real_waveforms=Waves([Cut("#9")]), wa_waveforms=Waves([Cut("#8")])))
    fmt = KIND[C.choose(len(KIND), "format") if all(have) else 0]
    m.write_cut_waveforms(r, ev, fmt, pre_cut=p, post_cut=q)
    P, Q = (pre if have[0] else None), (post if have[1] else None)
    want = []
    for k in range(3):
        c = Cut(f"#{k}", UTC(ot.e - pre.e) if P is not None else None, UTC(ot.e + post.e) if Q is not None else None)
        if C.decide(c.any()):
            want.append(f"#{k}")
    oblige("one file, and none without data", z3.BoolVal(len(WRITTEN) == (1 if want else 0)))
    if not WRITTEN:
        return
    placed(r, "raw")
    _, f, ts = WRITTEN[0]
    oblige("in the format asked for", z3.BoolVal(f == fmt))
    oblige("every trace with data between the cuts, once, as read", z3.BoolVal([t[0] for t in ts] == want and not any(t[3] for t in ts)))
    for t in ts:
        oblige("the data between the cuts", limits(t, ot, P, Q))


@contract("cut_waveforms.write_cut_waveforms: real, Wood-Anderson", "C27", "io/cut_waveforms.py:write_cut_waveforms, io/cut_waveforms.py:get_waveforms, io/cut_waveforms.py:write_waveforms",
          ["ObsPy's Trace.trim and Stream.write do what they document", "get_real_waveform and get_wa_waveform by their own contract", "two traces stand for any number"])
def corrected_cut():
    w, m, r, ot, pre, post = rig()
    r.subname = "SUB"
    ut = w.module("quakemigrate.util")
    kind = ["real", "wa"][C.choose(2, "kind")]
    velocity = C.choose(2, "velocity") == 1
    cut = C.choose(2, "cuts") == 1
    inv = cut or C.choose(2, "an inventory") == 0
    traces = [Cut(f"#{k}") for k in range(2)]
    if not cut:
        C.assume(z3.And(*[t.any() for t in traces]))
    fails = [z3.Bool(f"no_response_{k}") for k in range(2)]
    st = Waves(traces)

    def corrected(nm):
        def f(tr, velocity=None):
            if not isinstance(tr, Cut):
                raise core.Unsupported("another kind of trace")
            if not inv:
                raise core.real(AttributeError("No response inventory provided!"))
            k = int(tr.id[1:])
            if C.decide(fails[k]):
                raise core.real((ut.ResponseNotFoundError if k else ut.ResponseRemovalError)("no", tr.id))
            if velocity is None:
                velocity = nm == "real"
            out = tr.copy()
            out.ops.append((nm, "velocity" if velocity else "displacement"))
            getattr(data, nm + "_waveforms").append(out)
            return out
        return f
    data = types.SimpleNamespace(raw_waveforms=st, real_waveforms=Waves([Cut("#0", ops=["measured"])]), wa_waveforms=Waves([Cut("#0", ops=["measured"])]),
                                 get_real_waveform=corrected("real"), get_wa_waveform=corrected("wa"))
    ev = types.SimpleNamespace(uid="20200101000000123", otime=UTC(ot.e), trigger_time=UTC(z3.Real("trigger_time")), data=data)
    kw = {"pre_cut": pre, "post_cut": post} if cut else {}
    units = "velocity" if velocity else "displacement"
    try:
        m.write_cut_waveforms(r, ev, "MSEED", waveform_type=kind, units=units, **kw)
    except AttributeError as x:
        if x.args and "inventory" not in str(x):
            raise
        oblige("refused only without an inventory", z3.BoolVal(not inv and not WRITTEN))
        return
    P, Q = (pre, post) if cut else (None, None)
    want = []
    for k in range(2):
        c = Cut(f"#{k}", UTC(ot.e - pre.e) if cut else None, UTC(ot.e + post.e) if cut else None)
        flat = z3.Real(f"largest_#{k}") == z3.Real(f"smallest_#{k}")
        if C.decide(c.any()) and not C.decide(flat):
            oblige("not without an inventory", z3.BoolVal(inv))
            if not inv or not C.decide(fails[k]):
                want.append(f"#{k}")
    oblige("one file, and none without data", z3.BoolVal(len(WRITTEN) == (1 if want else 0)))
    if not WRITTEN:
        return
    placed(r, kind)
    _, f, ts = WRITTEN[0]
    oblige("every channel that varies and has a response, once", z3.BoolVal([t[0] for t in ts] == want))
    oblige("corrected, in the units asked for", z3.BoolVal(all(t[3] == ((kind, units),) for t in ts)))
    for t in ts:
        oblige("from the data between the cuts", limits(t, ot, P, Q))


@contract("coalescence.write_coalescence, read_coalescence", "C27", "io/coalescence.py:write_coalescence, io/coalescence.py:read_coalescence", ["np.save and np.load keep the array"])
def maps():
    w = loader.World()
    m = w.module("quakemigrate.io.coalescence")
    Here.made.clear()
    files = {}

    def save(f, a, **k):
        if k.get("allow_pickle", True) not in (True, False) or set(k) - {"allow_pickle"}:
            raise core.Unsupported("saved in another way")
        f = tuple(str(f).split("/"))
        oblige("the directory is made first", z3.BoolVal(f[:-1] in Here.made))
        files[f if f[-1].endswith(".npy") else f[:-1] + (f[-1] + ".npy",)] = a
    m.np = types.SimpleNamespace(save=save, load=lambda f, **k: files[tuple(str(f).split("/"))], asarray=lambda a: a, array=lambda a: a)
    r = run()
    r.path = Here(("RUN",))
    mp, mg = object(), object()
    ev, other = types.SimpleNamespace(uid="20200101000000123"), types.SimpleNamespace(uid="20200101000000124")
    m.write_coalescence(r, mp, ev)
    m.write_coalescence(r, mg, ev, marginalised=True)
    m.write_coalescence(r, object(), other)
    oblige("one file for each map of each event", z3.BoolVal(len(files) == 3))
    for kind, a in (("coalescence_maps", mp), ("marginalised_coalescence_maps", mg)):
        f = below(r, "locate", r.subname, kind, "20200101000000123.npy")
        oblige(f"{kind}: under the event's name", z3.BoolVal(f in files))
        if f in files:
            oblige(f"{kind}: reads back", z3.BoolVal(m.read_coalescence("/".join(f)) is a))
