"""Run-time evaluation of the contracts on the real code (runs under the repository's own
interpreter).  A trial builds one concrete input satisfying the precondition, calls the real
function and evaluates the postcondition.  It replays verifier counterexamples, decides whether a
failed obligation has a failing input, and stands in (labelled bounded) for functions the verifier
cannot reach."""
from __future__ import annotations

import json
import os
import random
import sys
import time
import traceback
import zlib

import numpy as np

REG = {}


class Skip(Exception):
    """The trial does not apply (e.g. a private helper it drives directly is gone)."""


class Fail(Exception):
    pass


def check(prop, quick=20, thorough=None, fn="", bounded=True):
    def d(f):
        for p in prop.split():
            REG.setdefault(p, []).append((f.__name__, f, quick, thorough or quick * 10, fn, (f.__doc__ or "").strip()))
        return f
    return d


def short(x, n=600):
    try:
        if isinstance(x, np.ndarray):
            s = np.array2string(x, threshold=60, max_line_width=10 ** 6, floatmode="unique")
            s = f"array{x.shape}:{s}"
        else:
            s = repr(x)
    except Exception:
        s = "<unprintable>"
    return s if len(s) <= n else s[:n] + "..."


class Trial:
    def __init__(self, prop, name, i, seed, tmp):
        self.prop, self.name, self.i, self.seed = prop, name, i, seed
        h = zlib.crc32(f"{name}".encode())
        self.rng = np.random.default_rng([seed, h, i])
        self.py = random.Random(f"{seed}/{name}/{i}")
        self.tmp = tmp
        self.inputs = {}
        self.failed = []
        self.evals = 0
        np.random.seed((seed * 7919 + h + i) % 2 ** 32)

    def note(self, **kw):
        self.inputs.update({k: short(v) for k, v in kw.items()})

    def expect(self, cond, what, key=None, **data):
        self.evals += 1
        if not bool(cond):
            self.failed.append({"what": what, "key": key or what, "data": {k: short(v) for k, v in data.items()}})
            raise Fail(what)

    def close(self, got, want, what, rtol=1e-9, atol=1e-12, key=None, **data):
        self.evals += 1
        g, w = np.asarray(got), np.asarray(want)
        ok = g.shape == w.shape
        if ok and g.size:
            try:
                ok = bool(np.allclose(g.astype(float), w.astype(float), rtol=rtol, atol=atol, equal_nan=True))
            except (TypeError, ValueError):
                ok = bool(np.all(g == w))
        if not ok:
            self.evals -= 1
            self.expect(False, what, key=key, got=got, want=want, **data)

    def equal(self, got, want, what, key=None, **data):
        try:
            ok = bool(np.all(got == want)) if isinstance(got, np.ndarray) or isinstance(want, np.ndarray) else bool(got == want)
            if isinstance(got, np.ndarray) and isinstance(want, np.ndarray) and got.shape != want.shape:
                ok = False
        except Exception:
            ok = False
        self.expect(ok, what, key=key, got=got, want=want, **data)

    def raises(self, exc, f, what, key=None, **data):
        """f() raises exc (a type, tuple of types, or None for "no exception")."""
        try:
            r = f()
        except Exception as e:
            if exc is not None and isinstance(e, exc):
                self.evals += 1
                return e
            if exc is None:
                raise
            self.expect(False, what, key=key, got=f"{type(e).__name__}: {e}", **data)
        else:
            self.expect(exc is None, what, key=key, got="no exception", **data)
            return r


def get(mod, name):
    """A function of the code under test; Skip when it no longer exists under that name."""
    import importlib
    try:
        m = importlib.import_module(mod)
    except ImportError as e:
        if getattr(e, "name", "") and str(getattr(e, "name", "")).startswith("quakemigrate") and e.name != mod:
            raise
        raise Skip(f"{mod} not importable: {e}")
    o = m
    for part in name.split("."):
        if not hasattr(o, part):
            raise Skip(f"{mod}.{name} does not exist")
        o = getattr(o, part)
    return o


def run_trial(prop, name, f, i, seed, tmp):
    t = Trial(prop, name, i, seed, tmp)
    d = os.path.join(tmp, f"t{zlib.crc32(f'{name}{i}'.encode()):08x}")
    os.makedirs(d, exist_ok=True)
    t.tmp = d
    cwd = os.getcwd()
    res = {"name": name, "i": i, "seed": seed, "skip": None, "fail": None}
    try:
        os.chdir(d)
        f(t)
    except Fail:
        res["fail"] = t.failed[-1]
    except Skip as e:
        res["skip"] = str(e)
    except MemoryError:
        res["skip"] = "out of memory"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        # innermost frame inside the code under test decides whether this is the code's failure
        inrepo = [fr for fr in tb if "/quakemigrate/" in fr.filename]
        txt = "".join(traceback.format_exception(e))[-2500:]
        if inrepo:
            fr = inrepo[-1]
            res["fail"] = {"what": f"unexpected {type(e).__name__} in {os.path.basename(fr.filename)}:{fr.name}: {str(e)[:300]}",
                           "key": f"unexpected {type(e).__name__} in {fr.name}", "data": {"traceback": txt}}
        elif isinstance(e, (AttributeError, TypeError, ImportError)):
            res["skip"] = f"harness could not drive the code: {type(e).__name__}: {e}"
            res["trace"] = txt
        else:
            res["fail"] = {"what": f"unexpected {type(e).__name__} evaluating the result: {str(e)[:300]}",
                           "key": f"unexpected {type(e).__name__}", "data": {"traceback": txt}}
    finally:
        os.chdir(cwd)
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    res["inputs"] = t.inputs
    res["evals"] = t.evals
    return res


def main(argv):
    """runner PROP SEED TIER BUDGET OUT TMP [NAME INDEX]"""
    prop, seed, tier, budget, out, tmp = argv[0], int(argv[1]), argv[2], float(argv[3]), argv[4], argv[5]
    only = argv[6:8] if len(argv) >= 8 else None
    import importlib
    import pkgutil
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import qmv.concrete as pkg
    for m in sorted(x.name for x in pkgutil.iter_modules(pkg.__path__)):
        if m.startswith("c_"):
            importlib.import_module(f"qmv.concrete.{m}")
    checks = REG.get(prop, [])
    t0 = time.time()
    report = {"checks": {}, "failures": [], "evals": 0, "trials": 0, "samples": [], "skips": []}
    todo = []
    for name, f, q, th, fn, doc in checks:
        report["checks"][name] = {"fn": fn, "doc": doc, "trials": 0, "evals": 0, "planned": q if tier == "quick" else th}
        todo.append([name, f, th, q if tier == "quick" else th])
    more = float(os.environ.get("QMV_SECS", "40"))      # quick: at least q trials, then up to th within this time
    if only:
        for n, f, *_ in [x for x in todo if x[0] == only[0]]:
            r = run_trial(prop, n, f, int(only[1]), seed, tmp)
            report["failures"] += [r] if r["fail"] else []
            report["trials"] += 1
            report["evals"] += r["evals"]
    else:
        stdout = sys.stdout
        sys.stdout = open(os.devnull, "w")
        mx = max([n for _, _, n, _ in todo], default=0)
        failed = set()
        for i in range(mx):
            for name, f, n, q in todo:
                if i >= n or (name, "x") in failed or time.time() - t0 > budget or (i >= q and time.time() - t0 > more):
                    continue
                r = run_trial(prop, name, f, i, seed, tmp)
                c = report["checks"][name]
                c["trials"] += 1
                c["evals"] += r["evals"]
                report["trials"] += 1
                report["evals"] += r["evals"]
                if i == 0 and r["inputs"]:
                    report["samples"].append({"check": name, **r["inputs"]})
                if r["skip"]:
                    report["skips"].append(f"{name}#{i}: {r['skip']}")
                    c["skipped"] = c.get("skipped", 0) + 1
                    if "trace" in r and os.environ.get("QMV_DEBUG"):
                        sys.stderr.write(r["trace"])
                if r["fail"]:
                    report["failures"].append(r)
                    if sum(1 for x in report["failures"] if x["name"] == name) >= 3:
                        failed.add((name, "x"))
        sys.stdout = stdout
    report["secs"] = time.time() - t0
    report["skips"] = report["skips"][:40]
    with open(out, "w") as fo:
        json.dump(report, fo, default=str)


if __name__ == "__main__":
    from qmv.concrete import api
    api.main(sys.argv[1:])
