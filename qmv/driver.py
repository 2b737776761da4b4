"""One check: discharge every obligation of the property's contracts on the current sources,
evaluate the contracts on the real code, report."""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QMV_REPO", "/repo")
PY = "/opt/venv/bin/python"
TRUSTED = [
    "the verifier itself (qmv: translation of Python/C to logic, loop summaries, library models) and the solvers z3, cvc5",
    "machine floating point treated as real arithmetic (exactness of running sums, rounding, -Ofast)",
    "contracts of numpy/pandas/scipy/obspy functions used by the verified code (models in qmv/models), not proved",
    "clang's parse of the C sources; Python integers unbounded, C integers checked for overflow",
]


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ scratch copy for the run-time part
def build(scratch, sanitize=False):
    src = os.path.join(REPO, "quakemigrate")
    dst = os.path.join(scratch, "quakemigrate")
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.o"))
    csrc = os.path.join(dst, "core", "src")
    cs = sorted(f for f in os.listdir(csrc) if f.endswith(".c"))
    suffix = subprocess.run([PY, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                            capture_output=True, text=True).stdout.strip()
    cmd = ["gcc", "-shared", "-fPIC", "-fopenmp", "-Ofast", "-o", "qmlib" + suffix, *cs, "-lm"]
    r = subprocess.run(cmd, cwd=csrc, capture_output=True, text=True)
    return None if r.returncode == 0 else r.stderr[-2000:]


def env(scratch):
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONHOME", "READTHEDOCS", "DISPLAY")}
    mpl = os.path.join(scratch, "mpl")
    os.makedirs(mpl, exist_ok=True)
    # matplotlib's font cache takes seconds to rebuild: reuse the image's when it is there
    try:
        for f in os.listdir("/opt/vp/mplconfig"):
            if f.startswith("fontlist"):
                shutil.copy(os.path.join("/opt/vp/mplconfig", f), mpl)
    except OSError:
        pass
    e.update(PYTHONPATH=f"{scratch}:{VERIF}", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
             MPLCONFIGDIR=mpl, OMP_NUM_THREADS="2", HOME=scratch, LANG="C.UTF-8", PROJ_NETWORK="OFF",
             PYPROJ_NETWORK="OFF", TZ="UTC", QMV_SCRATCH=scratch, QMV_REPO=REPO)
    return e


def start_concrete(prop, seed, tier, budget, scratch, only=()):
    out = os.path.join(scratch, "report.json")
    tmp = os.path.join(scratch, "work")
    os.makedirs(tmp, exist_ok=True)
    p = subprocess.Popen([PY, "-W", "ignore", "-m", "qmv.concrete.api", prop, str(seed), tier, str(budget), out, tmp, *only],
                         cwd=scratch, env=env(scratch), stdout=subprocess.DEVNULL,
                         stderr=open(os.path.join(scratch, "stderr"), "w"), start_new_session=True)
    return p, out


# ------------------------------------------------------------------ obligations
def load_contracts():
    from . import contracts
    from .contracts import base
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        if m != "base":
            importlib.import_module(f"qmv.contracts.{m}")
    return base.REG


def _worker(c, conn, scale=1):
    try:
        import resource
        from . import core
        core.C.timeout_ms *= scale
        core.C.fork_ms *= scale
        core.C.scale = scale
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
        from .contracts import base
        o = base.run_contract(c)
        conn.send({"name": c.name, "fns": c.fns, "assumes": c.assumes, "doc": c.doc, "paths": o.paths, "secs": o.secs,
                   "solver": o.solver, "gave_up": int(core.C.gave_up), "error": o.error, "vacuous": o.vacuous,
                   "obl": [(x.name, x.status, x.backend, x.secs, x.detail, x.where) for x in o.obligations]})
    except BaseException as e:
        conn.send({"name": c.name, "fns": c.fns, "assumes": c.assumes, "doc": c.doc, "paths": 0, "secs": 0, "solver": 0, "gave_up": 0,
                   "error": f"outside the verifier's reach: {type(e).__name__}: {e} {traceback.format_exc()[-600:]}", "vacuous": False, "obl": []})
    conn.close()


def run_contracts(cs, limit, jobs=6):
    """Discharge every obligation; what a solver gave up on is tried again, alone and with four times the solver time."""
    out = {r["name"]: r for r in _run_contracts(cs, limit, jobs)}
    def unsure(r):
        # a refutation found after a side question was given up may rest on the missing answer
        bad = {o[1] for o in r["obl"]}
        return ("unknown" in bad and "refuted" not in bad) or ("refuted" in bad and r.get("gave_up")) or "limit" in (r["error"] or "")
    again = [c for c in cs if unsure(out[c.name])]
    if again:
        for r in _run_contracts(again[:6], limit, 3, 4):
            if not r["error"] or out[r["name"]]["error"]:
                out[r["name"]] = r
    return [out[c.name] for c in cs]


def _run_contracts(cs, limit, jobs, scale=1):
    ctx = mp.get_context("fork")
    pend = list(cs)
    live, out = [], {}
    while pend or live:
        while pend and len(live) < jobs:
            c = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(c, b, scale), daemon=False)
            p.start()
            b.close()
            live.append((c, p, a, time.time()))
        for it in list(live):
            c, p, a, t0 = it
            r = None
            if a.poll(0.02):
                try:
                    r = a.recv()
                except EOFError:
                    r = None
                if r is None:
                    r = {"error": "outside the verifier's reach: worker died"}
            elif time.time() - t0 > limit:
                r = {"error": f"outside the verifier's reach: {limit:.0f} s limit"}
                p.kill()
            elif not p.is_alive():
                r = {"error": "outside the verifier's reach: worker died"}
            if r is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                base = {"name": c.name, "fns": c.fns, "assumes": c.assumes, "doc": c.doc, "paths": 0, "secs": time.time() - t0,
                        "solver": 0.0, "vacuous": False, "obl": []}
                base.update(r)
                out[c.name] = base
                live.remove(it)
    return [out[c.name] for c in cs]


# ------------------------------------------------------------------ main
def known(prop):
    f = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def levels():
    m = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    return {c["property"]: c["level"] for c in m["checks"]}


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="qmv_")
    proc = None
    try:
        return _check(prop, seed, tier, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check(prop, seed, tier, t0, scratch):
    quick = tier == "quick"
    budget = 150 if quick else 1500
    cerr = build(scratch)
    proc = out = None
    if cerr is None:
        proc, out = start_concrete(prop, seed, tier, budget, scratch)
    # obligations meanwhile
    res = []
    try:
        reg = load_contracts()
        cs = [c for c in reg if prop in c.props]
        res = run_contracts(cs, 240 if quick else 1800)
    except Exception:
        log("NOTE: contracts could not be loaded:", traceback.format_exc()[-1500:])
    rep = None
    notes = []
    if proc is not None:
        try:
            proc.wait(max(5, budget + 120 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            kill(proc)
            notes.append("run-time evaluation stopped at its time limit")
        if os.path.exists(out):
            rep = json.load(open(out))
        elif proc.returncode not in (0, None):
            err = open(os.path.join(scratch, "stderr")).read()[-3000:]
            notes.append(f"run-time evaluation ended with status {proc.returncode}: {err}")
    else:
        notes.append("the C sources do not compile: " + cerr)
    fails = list(rep["failures"]) if rep else []
    if rep is None and proc is not None and proc.returncode is not None and proc.returncode < 0:
        # the code under test crashed the interpreter: that is a failing run
        fails.append({"name": "process", "i": -1, "seed": seed, "inputs": {},
                      "fail": {"what": f"the interpreter was killed by signal {-proc.returncode}", "key": "crash",
                               "data": {"stderr": notes[-1] if notes else ""}}})
    # ---- classify
    kf = known(prop)
    lines, viol = [], []
    bad = []
    for r in res:
        for (n, st, be, s, d, w) in r["obl"]:
            if st != "proved":
                bad.append((r, n, st, be, d, w))
        if r["vacuous"]:
            bad.append((r, f"{r['name']}: the precondition is satisfiable (no vacuous proof)", "vacuous", "", "", ""))
    seen = set()

    def is_known(kind, name, key):
        for k in kf:
            m = k["match"]
            if m.get("kind") == kind and m.get("name") == name and (m.get("key") is None or m["key"] == key):
                return k
        return None
    hit = []
    for f in fails:
        k = is_known("trial", f["name"], f["fail"]["key"])
        if k:
            hit.append(k["id"])
        else:
            viol.append(f)
    badleft = []
    for b in bad:
        k = is_known("obligation", b[0]["name"], b[1].split(": ", 1)[-1])
        if k:
            hit.append(k["id"])
        else:
            badleft.append(b)
    for k in kf:
        if k["id"] in hit:
            log(f"KNOWN-FINDING: property={prop} {k['what']}")
    unreached = [r for r in res if r["error"]]
    for r in unreached:
        log(f"NOTE: {r['name']} not decided by the verifier ({r['error'][:300]}); the bounded run-time evaluation of its contract stands in")
    for n in notes:
        log("NOTE:", n[:600])
    rc = 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    if viol or badleft:
        rc = 1
        path = os.path.join("replays", f"{prop}-{int(time.time())}-{os.getpid()}.json")
        with open(os.path.join(VERIF, path), "w") as fo:
            json.dump({"property": prop, "tier": tier, "failing_inputs": viol,
                       "failed_obligations": [{"contract": b[0]["name"], "functions": b[0]["fns"], "obligation": b[1], "status": b[2],
                                               "backend": b[3], "verifier_output": b[4], "where": b[5]} for b in badleft]},
                      fo, indent=1, default=str)
        for b in badleft[:6]:
            log(f"obligation {b[2]}: {b[1]} {b[5]}")
        for f in viol[:4]:
            log(f"failing input: {f['name']}#{f['i']} (seed {f['seed']}): {f['fail']['what']}")
        log(f"VIOLATION property={prop} replay={path}" + ("" if viol else " no-failing-input-found"))
    nob = sum(len(r["obl"]) for r in res)
    ndis = sum(1 for r in res for o in r["obl"] if o[1] == "proved")
    backs = {}
    for r in res:
        for o in r["obl"]:
            if o[1] == "proved":
                backs[o[2]] = backs.get(o[2], 0) + 1
    try:
        level = levels().get(prop, "other")
    except Exception:
        level = "other"
    cov = {
        "obligations": nob + len(unreached), "discharged": ndis,
        "checker_cmd": f"python3-vt run.py {prop}",
        "trusted_base": TRUSTED,
        "functions_under_contract": {r["name"]: r["fns"] for r in res},
        "contracts": [{"contract": r["name"], "obligations": len(r["obl"]), "discharged": sum(1 for o in r["obl"] if o[1] == "proved"),
                       "paths": r["paths"], "secs": round(r["secs"], 2), "solver_secs": round(r["solver"], 2), "error": r["error"]} for r in res],
        "discharged_by_backend": backs,
        "solver_secs": round(sum(r["solver"] for r in res), 2),
        "obligation_names": [o[0] for r in res for o in r["obl"]][:400],
        "explanation": "obligations generated from the current sources and discharged by the verifier; the run-time evaluation of the "
                       "contracts on the real code is bounded (finite trials) and never counted as proved",
        "evaluations": rep["evals"] if rep else 0,
        "distinct_nontrivial": rep["trials"] if rep else 0,
        "rule": "one trial = one generated input satisfying the precondition (seeded, boundary-targeted), run through the real code",
        "samples": (rep["samples"][:6] if rep and rep["samples"] else [{"note": "none"}]),
        "bounded_checks": rep["checks"] if rep else {},
        "skipped": rep["skips"] if rep else [],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": sorted({a for r in res for a in r["assumes"]}), "wall_s": round(time.time() - t0, 2),
          "violations": len(viol) + len(badleft)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fo:
        json.dump(ev, fo, indent=1, default=str)
    log(f"{prop}: {ndis}/{nob} obligations discharged over {len(res)} contracts"
        + (f" ({len(unreached)} contracts out of reach)" if unreached else "")
        + f"; {cov['evaluations']} run-time evaluations in {cov['distinct_nontrivial']} trials (bounded); {time.time() - t0:.1f} s")
    return rc


def replay(path):
    d = json.load(open(path if os.path.exists(path) else os.path.join(VERIF, path)))
    prop = d["property"]
    rc = 0
    for f in d["failing_inputs"][:5]:
        scratch = tempfile.mkdtemp(prefix="qmv_")
        try:
            e = build(scratch)
            if e:
                log("C sources do not compile", e)
                return 1
            p, out = start_concrete(prop, f["seed"], d["tier"], 600, scratch, (f["name"], str(f["i"])))
            p.wait(600)
            r = json.load(open(out)) if os.path.exists(out) else None
            if r is None or r["failures"]:
                rc = 1
                log("still fails:", f["name"], f["i"], (r["failures"][0]["fail"] if r else "crash"))
            else:
                log("passes now:", f["name"], f["i"])
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    if d["failed_obligations"]:
        reg = load_contracts()
        names = {b["contract"] for b in d["failed_obligations"]}
        for r in run_contracts([c for c in reg if c.name in names], 600):
            b = [o for o in r["obl"] if o[1] != "proved"]
            for o in b:
                rc = 1
                log("obligation still", o[1], o[0])
                log(o[4])
            if not b:
                log("all obligations discharged now:", r["name"], r["error"] or "")
    return rc
