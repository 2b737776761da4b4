"""Contracts on the removal of instrument responses (quakemigrate.io.data.WaveformData): C20."""
from __future__ import annotations

import types

import z3

from .. import core, loader
from ..core import C, oblige
from ..loops import QDict, QList
from .base import contract


class Shows:
    """a trace, by what has been done to it"""

    def __init__(self, ops=(), fail=None):
        self.ops, self.id, self.fail = list(ops), "NW.STA..HHZ", fail
        self.stats = types.SimpleNamespace(starttime="START")

    def copy(self):
        return Shows(self.ops, self.fail)

    __deepcopy__ = lambda self, memo: self.copy()

    def detrend(self, type="simple", **k):
        if k:
            raise core.Unsupported("trend removed in another way")
        self.ops.append(("detrend", type))
        return self

    def simulate(self, paz_remove=None, paz_simulate=None, **k):
        if self.fail and paz_remove is not None:
            raise core.real(ValueError("no response"))
        if paz_remove is not None:
            self.ops.append(("remove", dict(paz_remove), k))
        if paz_simulate is not None:
            self.ops.append(("simulate", dict(paz_simulate), k))
        return self

    def remove_response(self, inventory=None, output="VEL", **k):
        if self.fail:
            raise core.real(ValueError("no response"))
        self.ops.append(("full", inventory, output, k))
        return self


class Stream_:
    def __init__(self):
        self.traces = []

    def append(self, t):
        self.traces.append(t)
        return self

    def __iadd__(self, t):
        self.traces += [t] if isinstance(t, Shows) else t.traces
        return self


class Paz:
    def __init__(self):
        self.poles, self.zeros, self.normalization_factor = QList(["p1", "p2"]), QList(["z1", "z2"]), "A0"


class Inventory:
    def __init__(self, known):
        self.known, self.asked = known, []

    def get_response(self, id, t):
        self.asked.append((id, t))
        if not self.known:
            raise core.real(Exception("No matching response information found."))
        return types.SimpleNamespace(get_paz=Paz, instrument_sensitivity=types.SimpleNamespace(value="SENSITIVITY"), response_stages=[])


@contract("data.get_wa_waveform", "C20", "io/data.py:WaveformData.get_wa_waveform, io/data.py:WaveformData.get_real_waveform, util.py:wa_response",
          ["ObsPy's simulate and remove_response do what they document", "responses are given as poles and zeros in radians per second of a velocity sensor"])
def wood_anderson():
    w = loader.World(models={"obspy": types.SimpleNamespace(Stream=Stream_, UTCDateTime=None, read=None)})
    m = w.module("quakemigrate.io.data")
    known = C.choose(2, "response known") == 1
    full = C.choose(2, "full response") == 1
    fail = C.choose(2, "removal fails") == 1
    there = C.choose(2, "inventory given") == 1
    again = C.choose(2, "second trace") == 1
    velocity = C.choose(2, "velocity") == 1
    inv = Inventory(known)
    d = object.__new__(m.WaveformData)
    d.__dict__.update(response_inv=inv if there else None, remove_full_response=full, pre_filt="PREFILT", water_level="LEVEL", real_waveforms=None, wa_waveforms=None)
    tr = Shows(fail=fail)
    if again:
        d.get_wa_waveform(Shows()) if there and (full or known) else None
    before = list(tr.ops)
    try:
        out = d.get_wa_waveform(tr, velocity=velocity) if velocity else d.get_wa_waveform(tr)
    except Exception as x:
        n = type(x).__name__
        if n not in ("AttributeError", "ResponseNotFoundError", "ResponseRemovalError"):
            raise
        oblige("refused without an inventory", z3.BoolVal((n == "AttributeError") == (not there)))
        oblige("no response for this channel", z3.BoolVal((n == "ResponseNotFoundError") == (there and not full and not known)))
        oblige("a response that cannot be removed", z3.BoolVal((n == "ResponseRemovalError") == (there and fail and (full or known))))
        return
    oblige("not without a response", z3.BoolVal(there and (full or known) and not fail))
    oblige("the trace given is not changed", z3.BoolVal(tr.ops == before and out is not tr))
    ops = [o for o in out.ops if o[0] != "detrend"]
    ok = len(ops) == 2 and ops[1][0] == "simulate" and ops[0][0] in ("remove", "full")
    oblige("the instrument's response is removed, then that of a Wood-Anderson seismometer applied", z3.BoolVal(ok))
    if not ok:
        return
    if full:
        oblige("displacement unless velocity is asked for", z3.BoolVal(ops[0][0] == "full" and ops[0][1] is inv and ops[0][2] == ("VEL" if velocity else "DISP")))
    else:
        p = ops[0][1]
        oblige("the response of this channel at the time of the data", z3.BoolVal(bool(inv.asked) and inv.asked[-1] == ("NW.STA..HHZ", "START")))
        oblige("its poles, gain and sensitivity", z3.BoolVal(ops[0][0] == "remove" and list(p.get("poles", [])) == ["p1", "p2"] and p.get("gain") == "A0" and p.get("sensitivity") == "SENSITIVITY"))
        oblige("its zeros, and one more for displacement", z3.BoolVal(sorted(map(str, p.get("zeros", []))) == sorted(["z1", "z2"] + ([] if velocity else [str(0j)]))))
    k = ops[0][-1]
    oblige("stabilised as configured", z3.BoolVal(k.get("pre_filt") == "PREFILT" and k.get("water_level") == "LEVEL"))
    s = ops[1][1]
    oblige("Wood-Anderson seismometer: displacement in, displacement out", z3.BoolVal(
        list(s["zeros"]) == [0j, 0j] and sorted(s["poles"], key=lambda c: c.imag) == [-6.283185 - 4.712j, -6.283185 + 4.712j] and s["sensitivity"] == 2080 and s["gain"] == 1.0))
    oblige("every trace is kept, apart from the one handed on", z3.BoolVal(all(
        len(x.traces) == (2 if again else 1) and x.traces[-1] is not out for x in (d.wa_waveforms, d.real_waveforms))))
    oblige("the traces kept: removed response only, and Wood-Anderson", z3.BoolVal(
        [o[0] for o in d.wa_waveforms.traces[-1].ops if o[0] != "detrend"] == [o[0] for o in ops] and [o[0] for o in d.real_waveforms.traces[-1].ops if o[0] != "detrend"] == [ops[0][0]]))
