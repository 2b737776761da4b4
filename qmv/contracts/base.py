"""Registry of contracts and their execution."""
from __future__ import annotations

import time
import traceback

import z3

from .. import core
from ..core import C, Infeasible, Unsupported

REG = []


class Contract:
    def __init__(self, name, props, fns, fn, doc, assumes):
        self.name, self.props, self.fns, self.fn = name, props, fns, fn
        self.doc, self.assumes = doc, assumes


def contract(name, props, fns, assumes=()):
    """fn() is executed once per path; it builds symbolic inputs satisfying the precondition,
    calls the real function and states the postcondition with oblige()."""
    def d(f):
        REG.append(Contract(name, props.split() if isinstance(props, str) else props,
                            fns if isinstance(fns, (list, tuple)) else [x.strip() for x in fns.split(",")], f, (f.__doc__ or "").strip(), list(assumes)))
        return f
    return d


class Outcome:
    def __init__(self, c):
        self.contract = c
        self.obligations = []
        self.paths = 0
        self.secs = 0.0
        self.solver = 0.0
        self.error = None
        self.vacuous = False


def run_contract(c, canary=True):
    out = Outcome(c)
    C.results = []
    t0, s0 = time.time(), C.solver_secs
    done = []

    def once():
        try:
            c.fn()
        except core.Control:
            raise
        except RecursionError as e:
            raise Unsupported("recursion limit") from e
        except Exception as e:
            if not core.quick_sat(C.pc):
                raise Infeasible()
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{f.filename.split('/')[-1]}:{f.lineno}:{f.name}" for f in tb[-5:])
            inner = tb[-1].filename if tb else ""
            # an attribute or call signature the stand-ins of this contract do not have says nothing
            # about the code: not decided here
            if not getattr(e, "_qm_real", False) and ("/qmv/" in inner or isinstance(e, (AttributeError, TypeError, NameError, ImportError, z3.Z3Exception))):
                raise Unsupported(f"{type(e).__name__}: {e} [{where}]") from e
            core.oblige(f"no unexpected {type(e).__name__}", z3.BoolVal(False), where=where + f": {e}")
            return
        # vacuity: the path condition must not be contradictory
        if canary:
            st, *_ = core.prove(z3.BoolVal(False), ms=1500, rounds=1, light=True)
            done.append(st != "proved")
        else:
            done.append(True)
    try:
        core.explore(once)
    except core.Enough:
        done.append(True)
    except Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        fr = [f for f in tb if "/qmv/" not in f.filename]
        out.error = f"outside the verifier's reach: {e}" + (f" (at {fr[-1].filename.split('/')[-1]}:{fr[-1].lineno})" if fr else "")
    except RecursionError:
        out.error = "outside the verifier's reach: recursion limit"
    out.obligations = list(C.results)
    out.paths = len(done)
    out.vacuous = out.error is None and not any(done)
    out.secs = time.time() - t0
    out.solver = C.solver_secs - s0
    for o in out.obligations:
        o.name = f"{c.name}: {o.name}"
    return out
