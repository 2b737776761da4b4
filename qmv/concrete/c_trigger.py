"""Run-time contracts: triggering and trigger files (C09-C12, C24)."""
from __future__ import annotations

import pathlib

import numpy as np

from . import fix
from .api import Skip, check, get
from .c_mseed import mkrun

NS = 10 ** 9


class StubLut:
    unit_conversion_factor = 1000.0


def mktrig(t, **kw):
    T = get("quakemigrate.signal.trigger", "Trigger")
    kw.setdefault("plot_trigger_summary", False)
    kw.setdefault("loglevel", "error")
    return T(kw.pop("lut", StubLut()), t.tmp, "run", **kw)


def frame(t0, sr, coa, coan, x, y, z):
    import pandas as pd
    d = pd.DataFrame()
    d["DT"] = np.array([t0 + k / sr for k in range(len(coa))], dtype=object)
    d["COA"], d["COA_N"], d["X"], d["Y"], d["Z"] = coa, coan, x, y, z
    return d


def trace(rng, n, kind):
    """kinds: 0 levels with ties, 1 continuous, 2 sparse spikes, 3 smooth, 4 everything high, 5 everything low"""
    if kind == 0:
        return rng.integers(0, 4, n).astype(float)
    if kind == 1:
        return np.round(rng.uniform(0, 4, n), 5)
    if kind == 2:
        x = np.round(rng.uniform(0, 1.2, n), 5)
        for _ in range(int(rng.integers(0, 4 + n // 20))):
            k = int(rng.integers(0, n))
            m = min(n - k, int(rng.integers(1, 12)))
            x[k:k + m] = np.round(rng.uniform(1.4, 9) * (1 - 0.02 * rng.permutation(m)), 5)
        return x
    if kind == 3:
        k = np.exp(-np.linspace(-2, 2, 9) ** 2)
        return np.round(np.convolve(rng.exponential(0.4, n + 9), k, "same")[:n], 5)
    return np.full(n, 5.0) + (np.arange(n) % 3 if kind == 4 else -5.0)


def runs(mask):
    out, s = [], None
    for k, m in enumerate(list(mask) + [False]):
        if m and s is None:
            s = k
        if not m and s is not None:
            out.append((s, k - 1))
            s = None
    return out


def ref_candidates(ns, coa, trig, thr, mw, mei):
    """[(first, last, peak, min_ns, max_ns)]; times in ns"""
    mw, mei = int(round(mw * NS)), int(round(mei * NS))
    out = []
    for a, b in runs(np.asarray(trig) >= thr):
        p = a + int(np.argmax(coa[a:b + 1]))
        lo = ns[p] - mei if ns[p] - ns[a] < mw else ns[a] - (mei - mw)
        hi = ns[p] + mei if ns[b] - ns[p] < mw else ns[b] + (mei - mw)
        out.append((a, b, p, lo, hi))
    return out


def ref_groups(peaks, lo, hi, mw):
    mw = int(round(mw * NS))
    g = []
    for k in range(len(peaks)):
        if k and hi[k - 1] < peaks[k] - mw and lo[k] > peaks[k - 1] + mw:
            g.append([k])
        elif k:
            g[-1].append(k)
        else:
            g.append([k])
    return g


def setting(t):
    mw = float(t.rng.choice([0.0, 0.1, 0.2, 0.5, 1.0, 2.0]))
    mei = float(t.rng.choice([2 * mw, 2 * mw + 0.1, 3 * mw + 0.3, 4.0 if mw <= 2 else 2 * mw]))
    return mw, max(mei, 2 * mw)


def near(a, b, tol=2e-6):
    return abs(a - b) <= tol


@check("C09", quick=150, thorough=2000, fn="signal.trigger.Trigger._identify_candidates")
def candidates(t):
    """one candidate per maximal run at or above the threshold, with the peak of the run and its window"""
    from obspy import UTCDateTime
    sr = int([50, 20, 10, 100][t.i % 4])
    n = int(t.rng.integers(1, 160))
    kind = t.i % 6
    coa = trace(t.rng, n, kind)
    on = ["COA", "COA_N"][(t.i // 6) % 2]
    coan = trace(t.rng, n, kind) if on == "COA_N" else np.round(t.rng.uniform(1, 2, n), 5)
    trig = coa if on == "COA" else coan
    thr = np.full(n, [2.0, 1.5, 1.3, 0.8, 5.0, 9.0][kind])
    if (t.i // 12) % 3 == 2:
        thr = np.round(np.repeat(t.rng.uniform(0.5, 3, n), 10)[:n], 2)
    mw, mei = setting(t)
    t0 = UTCDateTime("2021-03-04T23:59:58.5") + int(t.rng.integers(0, 400)) / sr
    x, y, z = (np.round(t.rng.uniform(-90, 90, n), 5) for _ in range(3))
    tg = mktrig(t, marginal_window=mw, min_event_interval=mei, normalise_coalescence=on == "COA_N")
    f = getattr(tg, "_identify_candidates", None)
    if f is None:
        raise Skip("_identify_candidates is gone")
    t.note(trace=trig, coalescence=coa, threshold=thr, marginal_window=mw, min_event_interval=mei, sampling_rate=sr, on=on, start=str(t0))
    got = f(frame(t0, sr, coa.copy(), coan.copy(), x, y, z), on, thr)
    ns = [(t0 + k / sr)._ns for k in range(n)]
    want = ref_candidates(ns, coa, trig, thr, mw, mei)
    t.expect(len(got) == len(want), "one candidate per maximal run at or above the threshold", got=len(got), want=len(want), runs=[w[:2] for w in want])
    base = t0._ns
    for (a, b, p, lo, hi), (_, r) in zip(want, got.iterrows()):
        k = int(round((r["CoaTime"] - t0) * sr))
        t.expect(a <= k <= b and near(r["CoaTime"] - t0, k / sr), "the candidate's time is a sample of its run", run=(a, b), got=k)
        t.expect(coa[k] == coa[a:b + 1].max(), "the candidate's time is that of the largest coalescence of its run", run=(a, b), got=k, want=p)
        vals = [r[c] for c in ("TRIG_COA", "COA", "COA_NORM", "COA_X", "COA_Y", "COA_Z")]
        t.expect([float(v) for v in vals] == [trig[k], coa[k], coan[k], x[k], y[k], z[k]], "values and location are those of the peak sample", got=vals, sample=k)
        if k != p:
            (a, b, p, lo, hi), = ref_candidates(ns, np.where(np.arange(n) == k, coa + 1, coa), np.where((np.arange(n) >= a) & (np.arange(n) <= b), 1.0, 0.0), 0.5, mw, mei)
        t.expect(near(r["MinTime"] - t0, (lo - base) / NS), "start of the candidate's window", run=(a, b), peak=p, got=r["MinTime"] - t0, want=(lo - base) / NS)
        t.expect(near(r["MaxTime"] - t0, (hi - base) / NS), "end of the candidate's window", run=(a, b), peak=p, got=r["MaxTime"] - t0, want=(hi - base) / NS)


@check("C10", quick=150, thorough=2000, fn="signal.trigger.Trigger._refine_candidates")
def merging(t):
    """maximal chains of non-separate neighbours become one event with the largest value and the union window"""
    import pandas as pd
    from obspy import UTCDateTime
    n = int(t.rng.integers(1, 14))
    mw, mei = setting(t)
    step = [0.1, 0.01, 0.001][t.i % 3]
    t0 = UTCDateTime(["2021-12-31T23:59:59", "2020-02-29T00:00:00", "2021-03-04T05:06:07.008"][t.i % 3])
    gaps = t.rng.integers(1, max(2, int(2.6 * max(mei, 0.3) / step)), n)
    if t.i % 5 == 0:      # distances exactly at the limits
        gaps = t.rng.choice([round(k / step) for k in (mw, mei, mei + mw, mei - mw, 2 * mei, 2 * mei - mw)], n) + t.rng.integers(-1, 2, n)
    pk = np.cumsum(np.maximum(gaps, 1)) * step
    wid = t.rng.integers(0, 3, (n, 2))
    lo = pk - np.where(wid[:, 0] == 0, mei, mei - mw + np.round(mw + t.rng.uniform(0, 1.0, n), 3))
    hi = pk + np.where(wid[:, 1] == 0, mei, mei - mw + np.round(mw + t.rng.uniform(0, 1.0, n), 3))
    trig = np.round(t.rng.uniform(1, 9, n), 5) if t.i % 4 else t.rng.integers(1, 3, n).astype(float)
    c = pd.DataFrame({"EventNum": np.arange(n)})
    T = [t0 + float(x) for x in pk]
    A, B = [t0 + float(x) for x in lo], [t0 + float(x) for x in hi]
    c["CoaTime"] = np.array(T, dtype=object)
    c["TRIG_COA"] = trig
    xyz = np.round(t.rng.uniform(-9, 9, (3, n)), 4)
    c["COA_X"], c["COA_Y"], c["COA_Z"] = xyz
    c["MinTime"], c["MaxTime"] = np.array(A, dtype=object), np.array(B, dtype=object)
    co = np.round(t.rng.uniform(1, 9, (2, n)), 4)
    c["COA"], c["COA_NORM"] = co
    c = pd.concat([c.iloc[[k]].convert_dtypes() for k in range(n)], ignore_index=True)
    tg = mktrig(t, marginal_window=mw, min_event_interval=mei)
    f = getattr(tg, "_refine_candidates", None)
    if f is None:
        raise Skip("_refine_candidates is gone")
    t.note(peaks=pk, window_start=lo, window_end=hi, trig=trig, marginal_window=mw, min_event_interval=mei, t0=str(t0))
    got = f(c.copy())
    groups = ref_groups([x._ns for x in T], [x._ns for x in A], [x._ns for x in B], mw)
    t.expect(len(got) == len(groups), "one event per maximal chain of overlapping candidates", got=len(got), want=len(groups), groups=groups)
    for g, (_, e) in zip(groups, got.iterrows()):
        k = [q for q in g if T[q] == e["CoaTime"]]
        t.expect(bool(k), "the event's time is that of one of its candidates", group=g, got=str(e["CoaTime"]))
        k = k[0]
        t.expect(trig[k] == max(trig[q] for q in g), "the event is its candidate of largest triggering value", group=g, got=k)
        v = [float(e[q]) for q in ("TRIG_COA", "COA_X", "COA_Y", "COA_Z", "COA", "COA_NORM")]
        t.expect(v == [trig[k], *xyz[:, k], *co[:, k]], "values and location of the event", got=v, candidate=k)
        t.expect(e["MinTime"] == min(A[q] for q in g) and e["MaxTime"] == max(B[q] for q in g), "the event's window is the union of its candidates' windows", group=g)
        s = T[k].strftime("%Y%m%d%H%M%S") + f"{T[k].microsecond // 1000:03d}"
        t.expect(str(e["EventID"]) == s, "17-digit identifier of the peak time", got=e["EventID"], want=s)


def ref_threshold(x, sr, method, const, win, mult):
    if method == "static":
        return np.full(len(x), const)
    w = int(round(win * sr))
    out = np.empty(len(x))
    for k in range(0, len(x), w):
        c = np.sort(x[k:k + w])
        med = (c[(len(c) - 1) // 2] + c[len(c) // 2]) / 2
        d = np.sort(np.abs(c - med))
        out[k:k + w] = med * mult if method == "median_ratio" else med + mult * 1.4826 * (d[(len(d) - 1) // 2] + d[len(d) // 2]) / 2
    return out


def thr_kw(t, sr, n):
    m = ["static", "mad", "median_ratio", "dynamic"][t.i % 4]
    win = float(t.rng.integers(1, max(2, int(1.6 * n)))) / sr
    mult = float(np.round(t.rng.uniform(0.5, 9), 2))
    const = float(np.round(t.rng.uniform(0, 4), 2))
    kw = dict(threshold_method=m, static_threshold=const)
    if m == "median_ratio":
        kw.update(median_window_length=win, median_multiplier=mult, mad_window_length=win * 3, mad_multiplier=mult + 1)
    else:
        kw.update(mad_window_length=win, mad_multiplier=mult, median_window_length=win * 3, median_multiplier=mult + 1)
    return m, kw, const, win, mult


@check("C12", quick=200, thorough=2000, fn="signal.trigger.Trigger._get_threshold, chunks2trace, threshold_method")
def thresholds(t):
    """every chunk's threshold follows the configured method; one value per sample"""
    import pandas as pd
    sr = int([50, 10, 7, 100, 3, 49][t.i % 6])
    n = int(t.rng.integers(1, 300))
    m, kw, const, win, mult = thr_kw(t, sr, n)
    x = trace(t.rng, n, int(t.rng.integers(0, 5)))
    tg = mktrig(t, **kw)
    f = getattr(tg, "_get_threshold", None)
    if f is None:
        raise Skip("_get_threshold is gone")
    t.note(trace=x, sampling_rate=sr, method=m, window=win, multiplier=mult, static=const)
    got = np.asarray(f(pd.Series(x.copy()), float(sr) if t.i % 2 else sr))
    want = ref_threshold(x, sr, "mad" if m == "dynamic" else m, const, win, mult)
    t.expect(got.shape == (n,), "one threshold value per sample", got=got.shape, want=n)
    t.close(got, want, "threshold of every sample", rtol=1e-10)


@check("C12", quick=30, thorough=200, fn="signal.trigger.Trigger.min_event_interval, threshold_method setters")
def settings(t):
    """settings the trigger cannot work with are rejected"""
    bad = get("quakemigrate.util", "InvalidTriggerThresholdMethodException")
    tg = mktrig(t, marginal_window=0.0, min_event_interval=0.0)
    mw = float(np.round(t.rng.uniform(0, 5), 2))
    tg.marginal_window = mw
    for v in (2 * mw, 2 * mw + 0.01, 100.0):
        tg.min_event_interval = v
        t.equal(tg.min_event_interval, v, "an interval of at least twice the marginal window is accepted")
    if mw > 0:
        for v in (2 * mw - 0.005, 0.0, mw):
            t.raises(ValueError, lambda: setattr(tg, "min_event_interval", v), "an interval below twice the marginal window is rejected", interval=v, marginal_window=mw)
        t.raises(ValueError, lambda: mktrig(t, marginal_window=mw, min_event_interval=2 * mw - 0.005), "an interval below twice the marginal window is rejected on construction")
    for v in ("median", "", "Static", "MAD", None, "dynamic_"):
        t.raises(bad, lambda: setattr(tg, "threshold_method", v), "an unknown threshold method is rejected", method=v)
        if v:
            t.raises(bad, lambda: mktrig(t, threshold_method=v), "an unknown threshold method is rejected on construction", method=v)
    for v, w in (("static", "static"), ("mad", "mad"), ("median_ratio", "median_ratio"), ("dynamic", "mad")):
        tg.threshold_method = v
        t.equal(tg.threshold_method, w, "known methods are accepted")


def build_scan(t, run, t0, sr, n, rng, kind):
    """write a continuous scan in day files; values as read back"""
    SM = get("quakemigrate.io.scanmseed", "ScanmSEED")
    coa = trace(rng, n, kind)
    coan = trace(rng, n, 2 + kind % 2)
    x = np.round(rng.uniform(-17, -15, n), 6)
    y = np.round(rng.uniform(64, 65, n), 6)
    z = np.round(rng.uniform(0, 12, n), 6)
    if kind == 2:      # locations exactly on the limits of the regions used below
        x[::3], y[::3], z[::4] = -16.0, 64.5, 6.0
    s = SM(run, False, sr)
    s.append(t0, coa.copy(), coan.copy(), np.stack([x, y, z], axis=1), 1000.0)
    if not s.written:
        s.write()
    return coa, coan, x, y, z


def read_events(t, run="run", sub=""):
    import pandas as pd
    out = {}
    d = pathlib.Path(t.tmp) / run / "trigger" / sub / "events"
    for f in sorted(d.glob("*")):
        out[f.name] = pd.read_csv(f, dtype={"EventID": str})
    return out


@check("C09 C10 C11 C12 C24", quick=60, thorough=800, fn="signal.trigger.Trigger.trigger and everything below it")
def end_to_end(t):
    """the events of a trigger run over several days, from the stored scan to the event files"""
    from obspy import UTCDateTime
    sr = int([10, 20, 50, 5][t.i % 4])
    n = int(t.rng.integers(150, 700))
    mid = UTCDateTime(["2021-01-01", "2020-03-01", "2022-07-15"][t.i % 3])
    t0 = mid - int(t.rng.integers(0, n)) / sr
    if t.i % 5 == 4:
        t0 = mid + 3600
    run = mkrun(t, "detect")
    kind = [2, 3, 1, 2, 3][(t.i // 2) % 5]
    coa, coan, x, y, z = build_scan(t, run, t0, sr, n, t.rng, kind)
    norm = bool((t.i // 3) % 2)
    trig = coan if norm else coa
    mw, mei = setting(t)
    m, kw, const, win, mult = thr_kw(t, sr, n)
    if m == "static":
        kw["static_threshold"] = const = float(np.round(np.quantile(trig, t.rng.uniform(0.5, 0.95)), 3))
    k0 = int(t.rng.integers(0, n // 3))
    k1 = int(t.rng.integers(n // 2, n))
    km = int(round((mid - t0) * sr))
    if t.i % 6 == 1 and 0 < km < n // 2:
        k0 = km
    if t.i % 6 == 2 and n // 3 < km < n:
        k1 = km
    if t.i % 6 == 3:       # an event exactly at a limit
        r = runs(trig >= np.quantile(trig, 0.9))
        if r:
            a, b = r[len(r) // 2]
            k1 = a + int(np.argmax(coa[a:b + 1]))
            k0 = min(k0, k1 - 1)
            if k0 < 0:
                k0, k1 = 0, n - 1
    start, end = t0 + k0 / sr, t0 + k1 / sr
    pad = float([0.0, 1.0, 120.0][t.i % 3])
    region = None
    if t.i % 2:
        region = [-16.0, 64.5, 0.0, -15.0, 65.0, 6.0] if t.i % 4 == 1 else [-16.6, 64.2, 1.0, -15.4, 64.8, 11.0]
    wtw = bool(t.i % 3 != 1)
    sub = ["", "alt"][t.i % 2]
    tg = mktrig(t, marginal_window=mw, min_event_interval=mei, normalise_coalescence=norm, pad=pad,
                write_event_time_windows=wtw, trigger_name=sub, **kw)
    t.note(data_start=str(t0), samples=n, sampling_rate=sr, trace=trig, coalescence=coa, start=str(start), end=str(end), pad=pad, region=region,
           marginal_window=mw, min_event_interval=mei, method=m, window=win, multiplier=mult, static=const, normalised=norm)
    tg.trigger(str(start), str(end), region=region)
    got = read_events(t, sub=sub)
    # reference
    tns = [(t0 + k / sr)._ns for k in range(n)]
    batches, b = [], start
    while b < end:
        nd = UTCDateTime(b.date) + 86400
        batches.append((b, min(nd, end)))
        b = nd
    names = {}
    ids = []
    for bs, be in batches:
        p = int(round(pad * sr))
        a = max(0, int(round((bs - t0) * sr)) - p)
        c = min(n - 1, int(round((be - t0) * sr)) + p)
        tr, cc = trig[a:c + 1], coa[a:c + 1]
        thr = ref_threshold(tr, sr, "mad" if m == "dynamic" else m, const, win, mult)
        if (np.abs(tr - thr) < 1e-9).any() and m != "static":
            raise Skip("a sample equals the computed threshold up to rounding")
        cand = ref_candidates(tns[a:c + 1], cc, tr, thr, mw, mei)
        for f, l, pk, *_ in cand:
            if (cc[f:l + 1] == cc[pk]).sum() > 1:
                raise Skip("tied peaks: the event is not unique")
        fname = f"run{'_' * bool(sub)}{sub}_{bs.year}_{bs.julday:03d}_TriggeredEvents.csv"
        names[fname] = bool(cand)
        if not cand:
            continue
        gs = ref_groups([tns[a + q[2]] for q in cand], [q[3] for q in cand], [q[4] for q in cand], mw)
        want = []
        lastns = be._ns - (NS // sr if be.time == UTCDateTime(0).time else 0)
        for g in gs:
            top = [q for q in g if tr[cand[q][2]] == max(tr[cand[w][2]] for w in g)]
            if len(top) > 1:
                raise Skip("tied candidates: the event is not unique")
            k = cand[top[0]][2] + a
            if not (bs._ns <= tns[k] <= lastns):
                continue
            if region and not (region[0] <= x[k] <= region[3] and region[1] <= y[k] <= region[4] and region[2] <= z[k] <= region[5]):
                continue
            want.append((k, min(cand[q][3] for q in g), max(cand[q][4] for q in g)))
        t.expect(fname in got, "every batch's events are written under its own day", file=fname, got=sorted(got))
        df = got[fname]
        gt = [UTCDateTime(v) for v in df["CoaTime"]]
        t.expect([round((v - t0) * sr) for v in gt] == [w[0] for w in want], "the events of the batch are exactly those expected",
                 batch=(str(bs), str(be)), got=[round((v - t0) * sr) for v in gt], want=[w[0] for w in want])
        for (k, lo, hi), (_, r) in zip(want, df.iterrows()):
            v = [float(r[q]) for q in ("TRIG_COA", "COA_X", "COA_Y", "COA_Z", "COA", "COA_NORM")]
            t.close(v, [trig[k], x[k], y[k], z[k], coa[k], coan[k]], "values and location of the event", rtol=0, atol=1e-8)
            s = UTCDateTime(r["CoaTime"])
            t.expect(near(s - t0, k / sr), "time of the event")
            t.expect(r["EventID"] == s.strftime("%Y%m%d%H%M%S") + f"{s.microsecond // 1000:03d}", "identifier of the event", got=r["EventID"], time=str(s))
            ids.append(r["EventID"])
            t.expect(("MinTime" in df) == wtw and ("MaxTime" in df) == wtw, "window columns present exactly when asked for")
            if wtw:
                t.expect(near(UTCDateTime(r["MinTime"]) - t0, (lo - t0._ns) / NS) and near(UTCDateTime(r["MaxTime"]) - t0, (hi - t0._ns) / NS), "window of the event",
                         got=(r["MinTime"], r["MaxTime"]), want=((lo - t0._ns) / NS, (hi - t0._ns) / NS))
    t.expect(len(ids) == len(set(ids)) or sr > 1000, "no event is reported twice", ids=ids)
    for fn, df in got.items():
        t.expect(fn in names and (names[fn] or df.empty), "no other events are written", file=fn)
    # what the locate stage reads back
    if ids:
        rd = get("quakemigrate.io", "read_triggered_events")
        run2 = mkrun(t, None)
        run2.subname = sub
        back = rd(run2, starttime=start, endtime=end)
        t.expect([str(v) for v in back["EventID"]] == ids, "reading the trigger files back gives every event once", got=[str(v) for v in back["EventID"]], want=ids)


@check("C11", quick=30, thorough=300, fn="signal.trigger.Trigger.trigger")
def batches(t):
    """the batches processed tile the requested span and break at midnight"""
    from obspy import UTCDateTime
    TS = get("quakemigrate.util", "TimeSpanException")
    tg = mktrig(t)
    if not hasattr(tg, "_trigger_batch"):
        raise Skip("_trigger_batch is gone")
    seen = []
    tg._trigger_batch = lambda a, b, region, plot: seen.append((a, b, region))
    s = UTCDateTime("2019-12-30") + float([0, 1, 43200.25, 86399.99, 86400][t.i % 5]) + float(t.rng.integers(0, 3))
    d = float([0.01, 3600, 86400, 86400 * 3, 86400 * 2.5, 7.0][t.i % 6])
    e = s + d
    if t.i % 4 == 1:
        e = UTCDateTime(e.date) + 86400
    reg = [1, 2, 3, 4, 5, 6] if t.i % 2 else None
    t.note(start=str(s), end=str(e))
    tg.trigger(s, e, region=reg) if t.i % 3 else tg.trigger(str(s), str(e), region=reg)
    t.expect(seen and seen[0][0] == s and seen[-1][1] == e, "the batches begin at the start and end at the end", got=[(str(a), str(b)) for a, b, _ in seen])
    for (a, b, r), nxt in zip(seen, seen[1:] + [None]):
        t.expect(a < b and b <= UTCDateTime(a.date) + 86400, "no batch extends over midnight", batch=(str(a), str(b)))
        t.expect(r == reg, "the region applies to every batch")
        if nxt:
            t.expect(nxt[0] == b and b == UTCDateTime(b.date), "batches join at midnight without gap or overlap", first=str(b), second=str(nxt[0]))
    t.raises(TS, lambda: tg.trigger(e, s), "a start after the end is rejected")


@check("C11", quick=60, thorough=600, fn="signal.trigger.Trigger._filter_events")
def filtering(t):
    """events are kept exactly when inside the closed span and box"""
    import pandas as pd
    from obspy import UTCDateTime
    tg = mktrig(t)
    f = getattr(tg, "_filter_events", None)
    if f is None:
        raise Skip("_filter_events is gone")
    n = int(t.rng.integers(1, 30))
    t0 = UTCDateTime("2021-03-04T12:00:00")
    k = t.rng.integers(-3, 14, n)
    xyz = t.rng.integers(0, 6, (3, n)).astype(float)
    ev = pd.DataFrame({"EventID": [f"E{q}" for q in range(n)]})
    ev["CoaTime"] = np.array([t0 + int(q) * 0.02 for q in k], dtype=object)
    ev["COA_X"], ev["COA_Y"], ev["COA_Z"] = xyz
    reg = [1, 2, 0, 4, 3, 5] if t.i % 3 else None
    t.note(samples=k, locations=xyz, region=reg)
    before = ev.copy()
    got = f(ev, t0, t0 + 10 * 0.02, reg)
    ok = (k >= 0) & (k <= 10)
    if reg:
        for c in range(3):
            ok &= (xyz[c] >= reg[c]) & (xyz[c] <= reg[c + 3])
    t.equal(list(got["EventID"]), [f"E{q}" for q in range(n) if ok[q]], "exactly the events inside the span and the box are kept")
    t.expect(before.equals(ev), "the candidate list is not changed")
