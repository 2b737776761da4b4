"""Run-time contracts: C kernels and their bindings (C01-C04)."""
from __future__ import annotations

import math
import os
import subprocess
import sys

import numpy as np

from .api import Skip, check, get


def gen_migrate(t, big=False):
    r = t.rng
    nx, ny, nz = (int(r.integers(1, 6)) for _ in range(3))
    N = int(r.integers(1, 7))
    first, last = int(r.integers(0, 9)), int(r.integers(0, 9))
    ns = int(r.integers(1, 40)) if not big else int(r.integers(200, 500))
    T = first + last + ns
    on = r.choice([0.0, 0.004, 0.01, 0.5, 1.0, 3.7, 40.0], size=(N, T)) * r.uniform(0.5, 1.5, (N, T))
    tt = r.integers(-4, last + 1, size=(nx, ny, nz, N)).astype(np.int32)
    tt[tuple(r.integers(0, s) for s in tt.shape)] = last
    tt[tuple(r.integers(0, s) for s in tt.shape)] = -1
    return on, tt, first, last


def migrate_oracle(on, tt, first, last, av):
    N, T = on.shape
    ns = T - first - last
    lo = np.log(np.maximum(on, 0.01))
    out = np.zeros(tt.shape[:3] + (ns,))
    for ix in np.ndindex(*tt.shape[:3]):
        s = np.zeros(ns)
        for k in range(N):
            a = max(int(tt[ix + (k,)]), 0) + first
            s += lo[k, a:a + ns]
        out[ix] = np.exp(s / av)
    return out


@check("C01", quick=60, thorough=800, fn="core.lib.migrate")
def migrate_values(t):
    """map4d == exp(mean log onset) at each node's traveltimes; inputs untouched; thread independent"""
    from quakemigrate.core import migrate
    on, tt, f, l = gen_migrate(t, big=t.i % 10 == 9)
    N = on.shape[0]
    av = N if t.i % 3 else int(t.rng.integers(1, N + 3))
    t.note(onsets=on, traveltimes=tt, first=f, last=l, available=av)
    on0, tt0 = on.copy(), tt.copy()
    ref = migrate_oracle(on, tt, f, l, av)
    outs = []
    for th in (1, 2, 5):
        m = migrate(on, tt, f, l, av, th)
        t.equal(m.shape, tt.shape[:3] + (on.shape[1] - f - l,), "map dimensions")
        t.close(m, ref, "coalescence is the geometric mean of the shifted onsets", threads=th)
        outs.append(m)
    t.expect(np.array_equal(outs[0], outs[1]) and np.array_equal(outs[0], outs[2]), "result does not depend on the number of threads")
    t.expect(np.array_equal(on, on0) and np.array_equal(tt, tt0), "caller's arrays are not modified")


@check("C01", quick=10, thorough=100, fn="core.lib.migrate")
def migrate_int_onsets(t):
    """integer, Fortran-ordered and read-only onset arrays give the same map"""
    from quakemigrate.core import migrate
    on, tt, f, l = gen_migrate(t)
    on = np.round(on * 3)
    ref = migrate_oracle(on, tt, f, l, len(on))
    t.note(onsets=on, traveltimes=tt, first=f, last=l)
    b = np.array(on)
    b.setflags(write=False)
    for a in (on, b):
        t.close(migrate(a, tt, f, l, len(on), 2), ref, "coalescence is the geometric mean of the shifted onsets")


@check("C03", quick=30, thorough=300, fn="core.lib.migrate")
def migrate_mismatch(t):
    """a number of traveltime layers different from the number of onsets raises ValueError"""
    from quakemigrate.core import migrate
    on, tt, f, l = gen_migrate(t)
    N = on.shape[0]
    k = int(t.rng.choice([x for x in (N - 1, N + 1, N + 2, 2 * N, 1) if x >= 1 and x != N]))
    bad = np.zeros(tt.shape[:3] + (k,), dtype=np.int32)
    t.note(onsets=on.shape, traveltimes=bad.shape, first=f, last=l)
    t.raises(ValueError, lambda: migrate(on, bad, f, l, N, 2), "layer mismatch raises ValueError")


@check("C02", quick=60, thorough=800, fn="core.lib.find_max_coa")
def find_max_values(t):
    """peak, first index attaining it, normalised peak; map untouched; thread independent"""
    from quakemigrate.core import find_max_coa
    r = t.rng
    sh = tuple(int(r.integers(1, 7)) for _ in range(3)) + (int(r.integers(1, 30)),)
    kind = t.i % 4
    if kind == 0:
        m = r.integers(1, 4, sh).astype(float)          # many ties
    elif kind == 1:
        m = np.exp(r.normal(size=sh))
    elif kind == 2:
        m = np.full(sh, 2.5)
    else:
        m = r.integers(1, 3, sh) + r.choice([0, 1e-12], sh)
    t.note(map4d=m)
    m0 = m.copy()
    flat = m.reshape(-1, sh[3])
    for th in (1, 2, 4):
        mx, nm, ix = find_max_coa(m, th)
        t.equal(mx, flat.max(axis=0), "peak is the largest value over the nodes", threads=th)
        t.equal(ix, flat.argmax(axis=0), "index is the first node (C order) attaining the peak", threads=th)
        t.close(nm, flat.max(axis=0) * flat.shape[0] / flat.sum(axis=0), "normalised peak is peak over mean", threads=th)
    t.expect(np.array_equal(m, m0), "the map is not modified")


@check("C02", quick=3, thorough=20, fn="core.lib.find_max_coa")
def find_max_large(t):
    """many samples and nodes, many threads, repeated: races would show as differences"""
    from quakemigrate.core import find_max_coa
    m = t.rng.integers(1, 50, (20, 20, 10, 300)).astype(float)
    t.note(shape=m.shape)
    flat = m.reshape(-1, 300)
    for th in (2, 4, 8, 8):
        mx, nm, ix = find_max_coa(m, th)
        t.equal(mx, flat.max(axis=0), "peak is the largest value over the nodes", threads=th)
        t.equal(ix, flat.argmax(axis=0), "index is the first node (C order) attaining the peak", threads=th)


# ------------------------------------------------------------------ STA/LTA
def stalta_oracle(x, ns, nl, kind):
    n = len(x)
    out = np.ones(n)
    for i in range(n):
        if i < nl - 1 or (kind == "centred" and i >= n - ns):
            continue
        lta = x[i - nl + 1:i + 1].sum() / nl
        sta = (x[i + 1:i + 1 + ns] if kind == "centred" else x[i - ns + 1:i + 1]).sum() / ns
        out[i] = sta / lta if lta > 0 else 1.0
    return out


def gen_signal(t):
    r = t.rng
    ns = int(r.integers(1, 8))
    nl = ns + int(r.integers(1, 12))
    extra = int(r.choice([0, 0, 1, 2, ns, nl, 30]))
    n = ns + nl + extra
    x = r.integers(0, 50, n).astype(float)
    if t.i % 3 == 0:                 # dead stretches
        a = int(r.integers(0, n))
        x[a:a + nl + int(r.integers(0, 4))] = 0
    if t.i % 5 == 0:
        x[:nl] = 0
    return x, ns, nl


@check("C04", quick=80, thorough=1500, fn="core.lib.overlapping_sta_lta")
def stalta_values(t):
    """both backends equal the window definition; undefined samples and zero averages give 1"""
    x, ns, nl = gen_signal(t)
    t.note(signal=x, nsta=ns, nlta=nl)
    x0 = x.copy()
    for kind in ("overlapping", "centred"):
        ref = stalta_oracle(x, ns, nl, kind)
        for mod, name in (("quakemigrate.core.lib", f"{kind}_sta_lta"), ("quakemigrate.signal.onsets.stalta", f"{kind}_sta_lta_py")):
            got = get(mod, name)(x, ns, nl)
            t.close(got, ref, f"{name} equals the ratio of window averages", rtol=1e-9)
            t.expect(np.array_equal(x, x0), f"{name} leaves the signal unchanged")


@check("C04", quick=20, thorough=200, fn="core.lib.overlapping_sta_lta")
def stalta_layout(t):
    """non-contiguous and float32 signals, exactly fitting windows"""
    x, ns, nl = gen_signal(t)
    t.note(signal=x, nsta=ns, nlta=nl)
    y = np.empty(2 * len(x))
    y[::2] = x
    y[1::2] = -7
    for kind in ("overlapping", "centred"):
        f = get("quakemigrate.core.lib", f"{kind}_sta_lta")
        ref = stalta_oracle(x, ns, nl, kind)
        t.close(f(y[::2], ns, nl), ref, f"{kind}: strided signal")
        t.close(f(x.astype(np.float32), ns, nl), ref, f"{kind}: float32 signal")
    z = x[:nl]
    f = get("quakemigrate.core.lib", "overlapping_sta_lta")
    t.close(f(z, ns, nl), stalta_oracle(z, ns, nl, "overlapping"), "overlapping: signal exactly one long window")


# ------------------------------------------------------------------ memory safety (sanitizers)
DRIVER = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "qmlib.h"
static unsigned s;
static int rnd(int lo, int hi) { s = s * 1103515245u + 12345u; return lo + (int)((s >> 8) % (unsigned)(hi - lo + 1)); }
int main(int argc, char **argv) {
  s = atoi(argv[1]); int reps = atoi(argv[2]);
  for (int rep = 0; rep < reps; ++rep) {
    int fs = rnd(0, 6), ls = rnd(0, 6), ns = rnd(1, 20), st = rnd(1, 5), nn = rnd(1, 30), th = rnd(1, 4), av = rnd(1, 5);
    int T = fs + ls + ns;
    double *on = malloc(sizeof(double) * st * T), *map = calloc((size_t) nn * ns, sizeof(double));
    int32_t *tt = malloc(sizeof(int32_t) * nn * st);
    for (int i = 0; i < st * T; ++i) on[i] = rnd(-3, 3);
    for (int i = 0; i < nn * st; ++i) tt[i] = rnd(-3, ls);
    double *on2 = malloc(sizeof(double) * st * T); memcpy(on2, on, sizeof(double) * st * T);
    int32_t *tt2 = malloc(sizeof(int32_t) * nn * st); memcpy(tt2, tt, sizeof(int32_t) * nn * st);
    migrate(on, tt, map, fs, ls, ns, st, av, nn, th);
    if (memcmp(on, on2, sizeof(double) * st * T) || memcmp(tt, tt2, sizeof(int32_t) * nn * st)) { printf("migrate modified its inputs: fsmp=%d lsmp=%d n_samples=%d n_stations=%d n_nodes=%d\n", fs, ls, ns, st, nn); return 3; }
    double *mx = malloc(sizeof(double) * ns), *nm = malloc(sizeof(double) * ns); int64_t *ix = malloc(sizeof(int64_t) * ns);
    double *map2 = malloc(sizeof(double) * nn * ns); memcpy(map2, map, sizeof(double) * nn * ns);
    find_max_coa(map, mx, nm, ix, ns, nn, th);
    if (memcmp(map, map2, sizeof(double) * nn * ns)) { printf("find_max_coa modified the map\n"); return 3; }
    for (int i = 0; i < ns; ++i) if (ix[i] < 0 || ix[i] >= nn || mx[i] != map[ix[i] * ns + i]) { printf("find_max_coa result not written\n"); return 3; }
    free(on); free(tt); free(map); free(mx); free(nm); free(ix); free(on2); free(tt2); free(map2);
    stalta_header h; h.nsta = rnd(1, 6); h.nlta = h.nsta + rnd(0, 8); h.n = h.nsta + h.nlta + rnd(0, 12);
    for (int k = 0; k < 4; ++k) {
      if (k == 3) h.n = h.nlta;
      double *x = malloc(sizeof(double) * h.n), *o = malloc(sizeof(double) * h.n);
      for (int i = 0; i < h.n; ++i) { x[i] = rnd(0, 5); o[i] = 1; }
      if (k == 0 || k == 3) overlapping_sta_lta(x, &h, o); else if (k == 1) centred_sta_lta(x, &h, o); else recursive_sta_lta(x, &h, o);
      free(x); free(o);
    }
  }
  /* index arithmetic: many nodes times many samples beyond 2^31 is checked symbolically */
  return 0;
}
"""


def sanitized():
    sc = os.environ["QMV_SCRATCH"]
    exe = os.path.join(sc, "kern_asan")
    if not os.path.exists(exe):
        src = os.path.join(sc, "quakemigrate", "core", "src")
        d = os.path.join(sc, "kern_driver.c")
        open(d, "w").write(DRIVER)
        cs = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".c")]
        r = subprocess.run(["gcc", "-g", "-O1", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                            "-I" + src, "-o", exe, d, *cs, "-lm"], capture_output=True, text=True)
        if r.returncode:
            raise Skip("sanitized build failed: " + r.stderr[-500:])
    return exe


@check("C03", quick=6, thorough=60, fn="core/src/*.c")
def kernels_sanitized(t):
    """AddressSanitizer/UBSan run of the kernels on exactly sized buffers"""
    exe = sanitized()
    seed = int(t.rng.integers(1, 2 ** 31 - 1))
    t.note(cmd=f"kern_asan {seed} 300")
    r = subprocess.run([exe, str(seed), "300"], capture_output=True, text=True, timeout=120,
                       env={**os.environ, "ASAN_OPTIONS": "detect_leaks=0"})
    t.expect(r.returncode == 0, "compiled kernels stay inside their arrays", output=(r.stdout + r.stderr)[-1500:], status=r.returncode)


@check("C03", quick=12, thorough=120, fn="core.lib.migrate")
def threads_agree(t):
    """different thread counts give identical results (shared state would show as differences)"""
    from quakemigrate.core import find_max_coa, migrate
    r = t.rng
    on = np.exp(r.normal(size=(6, 130)))
    tt = r.integers(0, 30, size=(12, 12, 6, 6)).astype(np.int32)
    ref = migrate_oracle(on, tt, 20, 30, 6)
    for th in (1, 2, 3, 8):
        m = migrate(on, tt, 20, 30, 6, th)
        t.close(m, ref, "result does not depend on the threads", threads=th)
        mx, nm, ix = find_max_coa(m, th)
        f = m.reshape(-1, m.shape[-1])
        t.expect(np.array_equal(mx, f.max(axis=0)) and np.array_equal(ix, f.argmax(axis=0)), "result does not depend on the threads", threads=th)
        t.close(nm, f.max(axis=0) * len(f) / f.sum(axis=0), "result does not depend on the threads", threads=th)
