"""Run-time contracts: phase picking (C18)."""
from __future__ import annotations

import pathlib

import numpy as np

from . import fix
from .api import Skip, check, get
from .c_mseed import mkrun


class StubOnset:
    """Serves prepared onset functions, as any Onset object would."""

    def __init__(self, onsets, phases, sr, start, hw):
        self.o, self.phases, self.sr, self.start, self.hw = onsets, phases, sr, start, hw
        self.channel_maps = {"P": "*Z", "S": "*[N,E,1,2]"}
        self.asked = []

    def calculate_onsets(self, data, log=True, timespan=None):
        from obspy import Stream
        O = get("quakemigrate.signal.onsets.base", "OnsetData")
        self.asked.append(timespan)
        n = max((len(v) for d in self.o.values() for v in d.values()), default=1)
        return None, O(self.o, self.phases, self.channel_maps, Stream(), {}, self.start, self.start + (n - 1) / self.sr, self.sr)

    def gaussian_halfwidth(self, phase):
        return self.hw


def picker(t, **kw):
    G = get("quakemigrate.signal.pickers", "GaussianPicker")
    return G(**kw)


def ref_windows(arr, half, n):
    """[start, arrival, end] per phase, in order of arrival; half-open sample ranges"""
    order = sorted(range(len(arr)), key=lambda k: arr[k])
    w = {k: [arr[k] - half[k], arr[k], arr[k] + half[k]] for k in order}
    w[order[0]][0] = max(0, w[order[0]][0])
    for a, b in zip(order, order[1:]):
        mid = int((arr[a] + arr[b]) / 2)
        w[a][2] = min(mid, w[a][2])
        w[b][0] = max(mid, w[b][0])
    w[order[-1]][2] = min(n, w[order[-1]][2])
    return [w[k] for k in range(len(arr))]


def ref_threshold(onset, wins, method, par):
    m = np.ones(len(onset), bool)
    for a, _, b in wins:
        m[a:b] = False
    x = np.sort(onset[m & (onset > 1)])
    if not len(x):
        return np.nan
    med = (x[(len(x) - 1) // 2] + x[len(x) // 2]) / 2
    if method == "MAD":
        d = np.sort(np.abs(x - med))
        return med + par * 1.4826 * (d[(len(d) - 1) // 2] + d[len(d) // 2]) / 2
    h = par * (len(x) - 1)
    i = int(np.floor(h))
    j = min(i + 1, len(x) - 1)
    return x[i] + (h - i) * (x[j] - x[i])


def peak_run(sig, thr):
    """the run of samples above the threshold that contains the window's maximum, or None"""
    if not len(sig) or np.isnan(thr):
        return None
    k = int(np.argmax(sig))
    if not sig[k] > thr:
        return None
    a = b = k
    while a > 0 and sig[a - 1] > thr:
        a -= 1
    while b + 1 < len(sig) and sig[b + 1] > thr:
        b += 1
    return None if a == b else (a, b)


@check("C18", quick=80, thorough=1000, fn="signal.pickers.gaussian.GaussianPicker.pick_phases and everything below it")
def picks(t):
    """windows, thresholds, picks, residuals, the recorded fits and the pick file"""
    import pandas as pd
    from obspy import UTCDateTime
    E = get("quakemigrate.io.event", "Event")
    rng = t.rng
    sr = int([50, 20, 100, 25][t.i % 4])
    mw = float([0.5, 1.0, 0.3, 2.0][(t.i // 2) % 4])
    names = ["ST1", "ST2", "ST3"][: 1 + t.i % 3]
    phases = [["P", "S"], ["P"], ["P", "S"], ["S", "P"], ["S"]][t.i % 5]
    close = t.i % 4 == 1

    def tt(s, p, shape):
        base = rng.uniform(0.3, 0.6 if close else 3.0, shape)
        return np.round(base if p == "P" else base * 1.7 + (0.05 if close else 0.4), 3)
    lut = fix.make_lut(rng, names, ("P", "S"), n=(3, 3, 3), tt=None)
    for s in names:
        P = tt(s, "P", (3, 3, 3))
        lut.traveltimes[s] = {"P": P, "S": np.round(P * 1.75 + (0.02 if close else 0.3), 3)}
    frac = [None, 0.1, 0.4, 1.3][t.i % 4]
    lut.fraction_tt = 0.15
    f = 0.15 if frac is None else frac
    node = tuple(int(v) for v in rng.integers(0, 3, 3))
    t0 = UTCDateTime("2021-03-04T05:06:10") + int(rng.integers(0, 100)) / sr
    ot = t0 + round(rng.uniform(0.1 if t.i % 7 == 0 else mw, 3 * mw) * sr) / sr
    n = int((4 * mw + [6.5, 3.0, 8.0][t.i % 3]) * sr)
    method = ["MAD", "percentile"][(t.i // 3) % 2]
    par = float(np.round(rng.uniform(0.5, 9), 2)) if method == "MAD" else float(np.round(rng.uniform(0.3, 1.0), 3))
    kind = t.i % 6
    onsets, truth = {}, {}
    for s in names:
        onsets[s] = {}
        for p in phases:
            o = np.round(1 + rng.exponential(0.4, n) - (0.5 if kind != 3 else 0.0), 4)
            if kind == 4:
                o = np.full(n, [1.0, 0.7][len(onsets) % 2])       # no noise sample above 1
            a = ot - t0 + float(lut.traveltimes[s][p][node])
            c = a + rng.uniform(-0.3, 0.3) * (mw + 0.1)
            A, sg = rng.uniform(15, 60), rng.uniform(2.5, 6) / sr
            if kind == 5:                # peaks anywhere, also at a window edge
                c = a + rng.choice([-1, 1]) * (mw + f * float(lut.traveltimes[s][p][node]))
            x = np.arange(n) / sr
            if kind != 2 or len(onsets) % 2:
                g = A * np.exp(-(x - c) ** 2 / (2 * sg ** 2))
                o = np.maximum(o, g)
                truth[s, p] = (A, c, sg)
            if kind == 1:                # a lone sample above everything
                k = int(rng.integers(0, n))
                o[k] = 200.0
            onsets[s][p] = o
    if t.i % 8 == 6 and len(names) > 1:
        del onsets[names[0]][phases[0]]
        if not onsets[names[0]]:
            del onsets[names[0]]
    # a failing station must not stop the others
    hw = 0.1 * sr
    on = StubOnset({s: {p: v.copy() for p, v in d.items()} for s, d in onsets.items()}, phases, sr, t0, hw)
    kw = {"threshold_method": method, "plot_picks": False, "onset": on,
          ("mad_pick_threshold" if method == "MAD" else "percentile_pick_threshold"): par}
    if frac is not None:
        kw["fraction_tt"] = frac
    pk = picker(t, **kw)
    ev = E(mw, pd.Series({"EventID": "20210304050612000", "CoaTime": ot, "TRIG_COA": 2.0, "COA": 3.0, "COA_NORM": 1.5}))
    ev.otime = ot
    xyz = lut.index2coord(np.array([node]))[0]
    ev.add_spline_location([float(v) for v in xyz])
    ev.add_waveform_data("data")
    t.note(sampling_rate=sr, marginal_window=mw, phases=phases, fraction=f, method=method, parameter=par, otime=float(ot - t0), samples=n,
           traveltimes={(s, p): float(lut.traveltimes[s][p][node]) for s in names for p in phases}, onsets=onsets)
    run = mkrun(t, "locate")
    _, df = pk.pick_phases(ev, lut, run)
    t.expect(on.asked == [4 * mw], "onsets are computed for the four marginal windows scanned", got=on.asked)
    want_rows = [(s, p) for s in onsets for p in onsets[s]]
    t.equal([(r["Station"], r["Phase"]) for _, r in df.iterrows()], want_rows, "one row per available station and phase")
    wins = ev.picks["pick_windows"]
    for s in onsets:
        ph = list(onsets[s])
        tts = [float(lut.traveltimes[s][p][node]) for p in ph]
        arr = [int(round((ot - t0 + x) * sr)) for x in tts]
        half = [int(round((x * f + mw) * sr)) for x in tts]
        for p, x in zip(ph, tts):     # rounding at half a sample is not the property's business
            if abs(((ot - t0 + x) * sr) % 1 - 0.5) < 1e-6 or abs(((x * f + mw) * sr) % 1 - 0.5) < 1e-6:
                raise Skip("arrival or width exactly half way between samples")
        w = ref_windows(arr, half, n)
        got = [list(map(int, wins[s][p])) for p in ph]
        t.equal(got, w, "search windows", station=s, phases=ph, arrivals=arr, half_widths=half, samples=n)
        thr = None
        for p, (a, arv, b) in zip(ph, w):
            o = onsets[s][p]
            row = df[(df["Station"] == s) & (df["Phase"] == p)].iloc[0]
            thr = ref_threshold(o, w, method, par)
            g = ev.picks["gaussfits"][s][p]
            t.close(g["PickThreshold"], thr, "threshold from the noise samples outside all windows and above 1", rtol=1e-9, station=s, phase=p)
            mt = ot + tts[ph.index(p)]
            t.expect(abs(row["ModelledTime"] - mt) < 2e-6, "modelled time", got=str(row["ModelledTime"]), want=str(mt))
            pr = peak_run(o[a:b], thr)
            vals = (row["PickTime"], row["PickError"], row["SNR"], row["Residual"])
            if not isinstance(row["PickTime"], UTCDateTime):
                t.expect(all(float(v) == -1 for v in vals), "no pick: time, error, value and residual are all -1", got=vals)
                tr = truth.get((s, p))
                if pr and tr and kind in (0, 2, 3):
                    A, c, sg = tr
                    if a / sr + 4 * sg < c < b / sr - 4 * sg and b - 1 < n - 2 and a + pr[0] > 1 and thr > 5 and pr[1] - pr[0] > 2 and thr < 0.6 * A and o[a:b].max() <= A + 1e-9 and o[a:b].max() > 0.9 * A:
                        t.expect(False, "a clear peak inside the window is picked", station=s, phase=p, window=(a, b), peak=c, threshold=thr)
                continue
            t.expect(pr is not None, "a pick needs at least two samples above the threshold around the window's maximum", station=s, phase=p, window=(a, b), threshold=thr)
            t.expect(a / sr < row["PickTime"] - t0 < b / sr, "the pick lies strictly inside the window", pick=row["PickTime"] - t0, window=(a / sr, b / sr))
            t.expect(abs(row["Residual"] - (row["PickTime"] - mt)) < 1e-5, "residual: pick time minus modelled time", got=row["Residual"], want=row["PickTime"] - mt)
            t.expect(float(row["PickError"]) >= 0 and abs(float(row["SNR"]) - g["PickValue"]) < 1e-9, "error and value of the pick", error=row["PickError"], snr=row["SNR"])
            t.expect(abs((row["PickTime"] - t0) - float(g["popt"][1])) < 1e-5 and abs(abs(g["popt"][2]) - float(row["PickError"])) < 1e-9, "the recorded fit is that of the pick")
            tr = truth.get((s, p))
            if tr and kind in (0, 2, 3) and thr > 5 and pr[1] - pr[0] >= 5 and abs(np.argmax(o[a:b]) + a - tr[1] * sr) < 1 and a + 6 * tr[2] * sr < tr[1] * sr < b - 6 * tr[2] * sr:
                A, c, sg = tr
                t.expect(abs(row["PickTime"] - t0 - c) < 0.5 / sr and abs(row["SNR"] - A) < 0.15 * A and abs(row["PickError"] - sg) < 0.35 * sg, "Gaussian fitted to the peak", got=vals[:3], want=tr)
    # file
    if True:
        files = list((pathlib.Path(t.tmp) / "run" / "locate" / "picks").glob("*.picks"))
        t.expect([x.name for x in files] == ["20210304050612000.picks"], "one pick file for the event", got=files)
        fd = pd.read_csv(files[0], dtype={"PickTime": str})
        t.equal([(str(a), str(b)) for a, b in zip(fd["Station"], fd["Phase"])], want_rows, "the pick file has the same rows")
        for (_, r), (_, q) in zip(fd.iterrows(), df.iterrows()):
            t.expect(str(r["PickTime"]) == str(q["PickTime"]) and str(r["ModelledTime"]) == str(q["ModelledTime"]), "times in the pick file", got=(r["PickTime"], r["ModelledTime"]), want=(q["PickTime"], q["ModelledTime"]))
            for c in ("PickError", "SNR"):
                t.close(float(r[c]), float(q[c]), "error and SNR in the pick file to three significant digits", rtol=6e-3)
            t.close(float(r["Residual"]), float(q["Residual"]), "residual in the pick file", atol=1e-6)


@check("C18", quick=40, thorough=400, fn="signal.pickers.gaussian.GaussianPicker._distinguish_windows")
def windows(t):
    """windows of one station never overlap, whatever the order of the phases"""
    pk = picker(t, onset=None)
    f = getattr(pk, "_distinguish_windows", None)
    if f is None:
        raise Skip("_distinguish_windows is gone")
    m = int(t.rng.integers(1, 4))
    ph = ["P", "S", "X"][:m]
    arr = [int(v) for v in t.rng.integers(0, 400, m)]
    if t.i % 3:
        arr.sort()
    half = [int(v) for v in t.rng.integers(1, 200, m)]
    n = int(t.rng.integers(max(arr) + 1, 600))
    w = {p: [a - h, a, a + h] for p, a, h in zip(ph, arr, half)}
    t.note(arrivals=arr, half_widths=half, samples=n)
    f(w, ph, n)
    got = [list(map(int, w[p])) for p in ph]
    t.equal(got, ref_windows(arr, half, n), "windows are clipped to the data and cut half way between neighbouring arrivals")


@check("C18", quick=20, thorough=100, fn="signal.pickers.gaussian.GaussianPicker.__init__")
def pick_settings(t):
    bad = get("quakemigrate.util", "InvalidPickThresholdMethodException")
    m = ["mad", "Percentile", "", "median", None][t.i % 5]
    t.raises(bad, lambda: picker(t, threshold_method=m), "an unknown threshold method is rejected", method=m)
    t.raises(AttributeError, lambda: picker(t, pick_threshold=0.9), "the removed setting is refused")
    for m in ("MAD", "percentile"):
        t.equal(picker(t, threshold_method=m).threshold_method, m, "known methods are accepted")
