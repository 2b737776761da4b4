"""Run-time contracts: the continuous scan and the location of events (C02, C06, C07, C16, C17)."""
from __future__ import annotations

import math
import pathlib

import numpy as np

from . import fix
from .api import Skip, check, get
from .c_util import mk


class Arc:
    """Stand-in archive: serves a fixed signal per station and component, records what was asked."""

    def __init__(self, rng, st, sr, t0, span, fail=None, before=60.0, comps="ZNE"):
        self.stations, self.sr = st["Name"], sr
        self.base = t0 - before
        self.n = int(round((span + 2 * before) * sr)) + 1
        self.sig = {}
        for nm in self.stations:
            for c in comps:
                x = rng.normal(size=self.n) * 40
                for _ in range(max(2, int(span / 6))):
                    k = int(rng.integers(0, self.n - 40))
                    x[k:k + 30] += rng.normal(size=30) * 500
                self.sig[nm, c] = x
        self.fail = fail or {}
        self.calls = []
        self.read_all_stations, self.resample, self.upfactor = False, False, None

    def at(self, k0, n, nm, c):
        return self.sig[nm, c][k0:k0 + n]

    def build(self, b, e):
        from obspy import Stream
        W = get("quakemigrate.io.data", "WaveformData")
        w = W(starttime=b, endtime=e, stations=self.stations)
        k0 = int(round((b - self.base) * self.sr))
        n = int(round((e - b) * self.sr)) + 1
        assert 0 <= k0 and k0 + n <= self.n, "stand-in archive too short"
        w.waveforms = Stream([mk(self.at(k0, n, nm, c).copy(), self.sr, b, f"XX.{nm}..HH{c}") for nm, c in self.sig])
        w.raw_waveforms = w.waveforms.copy()
        return w

    def read_waveform_data(self, b, e, pre_pad=0.0, post_pad=0.0):
        i = len(self.calls)
        self.calls.append((b, e, pre_pad, post_pad))
        kind = self.fail.get(i)
        if kind == "empty":
            raise get("quakemigrate.util", "ArchiveEmptyException")
        if kind == "gap":
            raise get("quakemigrate.util", "DataGapException")
        w = self.build(b, e)
        if kind == "flat":
            for tr in w.waveforms:
                tr.data[:] = 17.0
        if kind == "one":          # one station lost
            for tr in w.waveforms.select(station=list(self.stations)[0]):
                tr.data[:] = 17.0
        return w


def ref_scan(onsets, tt, f, l, avail):
    """geometric mean of shifted onsets; peak, node and normalised peak per sample"""
    lo = np.log(np.maximum(onsets, 0.01))
    n = onsets.shape[1] - f - l
    g = tt.reshape(-1, tt.shape[-1])
    m = np.empty((len(g), n))
    idx = f + np.arange(n)
    for q, row in enumerate(g):
        m[q] = np.exp(sum(lo[k][idx + max(0, int(row[k]))] for k in range(len(row))) / avail)
    top = m.argmax(axis=0)
    mx = m.max(axis=0)
    return m.reshape(tt.shape[:-1] + (n,)), mx, mx * len(g) / m.sum(axis=0), top


def make_scan(t, st_names=("AA", "BB", "CC"), sr=20, arc_kw=None, t0=None, span=20.0, tmax=1.2, units="km", n=None, fail=None, **kw):
    from obspy import UTCDateTime
    QS = get("quakemigrate.signal.scan", "QuakeScan")
    S = get("quakemigrate.signal.onsets", "STALTAOnset")
    lut = fix.make_lut(t.rng, list(st_names), n=n if n is not None else t.rng.integers(2, 4, 3), units=units,
                       tt=lambda s, p, sh: np.round(t.rng.uniform(0.0, tmax, sh), 3))
    o = S(sampling_rate=sr, position=["classic", "centred"][t.i % 2], sta_lta_windows={"P": [0.2, 1.0], "S": [0.2, 1.0]},
          bandpass_filters={"P": [2.0, 0.4 * sr, 2], "S": [1.0, 0.35 * sr, 2]})
    t0 = UTCDateTime(t0 or "2021-03-04T05:06:00")
    arc = Arc(t.rng, lut.station_data, sr, t0, span, fail, **(arc_kw or {}))
    q = QS(arc, lut, onset=o, run_path=t.tmp, run_name="run", log=False, loglevel="error", plot_event_summary=False, **kw)
    return q, arc, lut, o, t0


def detect_output(t, stations=("COA", "COA_N", "X", "Y", "Z")):
    """{station: {sample time ns: int value}} over all scanmseed files, with the files' days"""
    from obspy import read
    d = pathlib.Path(t.tmp) / "run" / "detect" / "scanmseed"
    out = {s: {} for s in stations}
    for f in sorted(d.glob("*.scanmseed")):
        for tr in read(str(f)):
            ns, dt = tr.stats.starttime.ns, 1e9 / tr.stats.sampling_rate
            for k, v in enumerate(tr.data):
                key = round((ns + k * dt) / 1e6)
                t.expect(key not in out[tr.stats.station], "no sample is stored twice", file=f.name, time=key, channel=tr.stats.station)
                out[tr.stats.station][key] = int(v)
    return out


@check("C07 C02 C06", quick=16, thorough=160, fn="signal.scan.QuakeScan.detect, _continuous_compute, _compute; io.scanmseed")
def detect_windows(t):
    """consecutive windows tile the span; each sample holds its own window's result; failures leave placeholders"""
    import pandas as pd
    from obspy import UTCDateTime
    ts = [4.0, 5.0, 2.4, 6.0][t.i % 4]
    nw = int(t.rng.integers(2, 5))
    cut = [0.0, 1.0, 0.05][t.i % 3]        # end inside the last window
    t0 = ["2021-03-04T05:06:00", "2020-12-31T23:59:52", "2021-03-04T23:59:50"][t.i % 3]
    end = None
    fail = {int(k): t.py.choice(["empty", "gap", "flat", "one"]) for k in t.rng.permutation(nw)[: [0, 1, 2][t.i % 3]]}
    names = [["AA", "BB", "CC"], ["Q"], ["BB", "AA"]][t.i % 3]
    if "one" in fail.values() and len(names) == 1:
        fail = {k: "empty" for k in fail}
    if len(fail) == nw:
        fail.pop(max(fail))
    sr = [20, 25, 40][t.i % 3]
    q, arc, lut, o, t0 = make_scan(t, names, sr=sr, t0=t0, span=ts * nw, fail=fail, timestep=ts, threads=1 + t.i % 2,
                                   continuous_scanmseed_write=bool(t.i % 5 == 4))
    if t.i % 3 == 2:                       # end exactly at midnight
        t0 = UTCDateTime("2021-03-05") - ts * nw
        arc.base = t0 - 60.0
        end = UTCDateTime("2021-03-05")
    else:
        end = t0 + ts * nw - cut
    t.note(start=str(t0), end=str(end), timestep=ts, sampling_rate=sr, stations=names, failures=fail)
    q.detect(str(t0), str(end))
    pre, post = o.pad(ts)
    t.expect(len(arc.calls) == nw, "ceil((end - start) / timestep) windows are processed", windows=len(arc.calls), want=nw)
    for i, (b, e, pp, qq) in enumerate(arc.calls):
        t.expect(abs(b - (t0 + i * ts - pre)) < 1e-5 and abs(e - (t0 + (i + 1) * ts - 1 / sr + post)) < 1e-5,
                 "each window reads its own span plus the padding", window=i, start=str(b), end=str(e))
    out = detect_output(t)
    n = int(round(ts * sr))
    keys = [round((t0.ns + k * 1e9 / sr) / 1e6) for k in range(n * nw)]
    for s in out:
        t.equal(sorted(out[s]), keys, "the output covers exactly the windows, without gap or overlap", channel=s)
    f, l = int(round(pre * sr)), int(round(post * sr))
    rows = {}
    nodes = lut.index2coord(np.arange(int(np.prod(lut.node_count))), unravel=True)
    for i in range(nw):
        kind = fail.get(i)
        got = {s: np.array([out[s][k] for k in keys[i * n:(i + 1) * n]], dtype=float) for s in out}
        if kind in ("empty", "gap", "flat"):
            for s in ("COA", "COA_N"):
                t.expect((got[s] == 0).all(), "an unusable window contributes placeholder samples", window=i, why=kind)
            rows[i] = {}
            continue
        w = arc.build(t0 + i * ts - pre, t0 + (i + 1) * ts - 1 / sr + post)
        if kind == "one":
            for tr in w.waveforms.select(station=names[0]):
                tr.data[:] = 17.0
        on, od = o.calculate_onsets(w)
        pairs = [k for k, v in od.availability.items() if v == 1]
        tt = np.stack([np.rint(lut.traveltimes[k.split("_")[0]][k.split("_")[1]] * sr) for k in pairs], axis=-1).astype(int)
        t.expect(len(on) == len(pairs), "one onset per available pair")
        m, mx, mxn, top = ref_scan(on, tt, f, l, len(pairs))
        t.close(got["COA"] / 1e5, mx, "peak coalescence of each sample, normalised by the number of available pairs", rtol=1e-6, atol=2e-5, window=i)
        t.close(got["COA_N"] / 1e5, mxn, "normalised peak of each sample", rtol=1e-6, atol=2e-5, window=i)
        flat = m.reshape(-1, m.shape[-1])
        ucf = lut.unit_conversion_factor
        pos = np.stack([got["X"] / 1e6, got["Y"] / 1e6, got["Z"] / (1e3 * ucf)], axis=1)
        for k in range(len(top)):
            best = np.sort(flat[:, k])[::-1]
            if len(best) > 1 and best[0] - best[1] < 1e-9:
                continue
            t.close(pos[k], nodes[top[k]], "the coordinates are those of the peak's node", rtol=0, atol=[1e-6, 2.0][0] * 1.1 if ucf == 1000 else 2e-3, window=i, sample=k)
        rows[i] = {k: int(v) for k, v in od.availability.items()}
    d = pathlib.Path(t.tmp) / "run" / "detect" / "availability"
    df = pd.concat([pd.read_csv(x, index_col=0) for x in sorted(d.glob("*.csv"))])
    t.equal([round(UTCDateTime(x).ns / 1e6) for x in df.index], [round((t0 + i * ts).ns / 1e6) for i in range(nw)], "one availability row per window, labelled with its start time")
    for i in range(nw):
        got = {k: int(v) for k, v in df.iloc[i].items()}
        t.equal(got, {f"{s}_{p}": rows[i].get(f"{s}_{p}", 0) for p in ("P", "S") for s in names}, "availability of the window", window=i)


@check("C07", quick=6, thorough=20, fn="signal.scan.QuakeScan.detect, locate")
def scan_rejects(t):
    """start after end is rejected"""
    TS = get("quakemigrate.util", "TimeSpanException")
    q, arc, lut, o, t0 = make_scan(t, ["AA"])
    t.raises(TS, lambda: q.detect(str(t0 + 10), str(t0)), "a scan whose start is after its end is rejected")
    t.raises(TS, lambda: q.locate(str(t0 + 10), str(t0)), "locating with start after end is rejected")
    t.expect(not arc.calls, "nothing is read")


# ---------------------------------------------------------------- C16
def mk_event(mw, trig, uid="20210304050612000"):
    import pandas as pd
    E = get("quakemigrate.io.event", "Event")
    return E(mw, pd.Series({"EventID": uid, "CoaTime": trig, "TRIG_COA": 2.0, "COA": 3.0, "COA_NORM": 1.5}))


@check("C16", quick=120, thorough=2000, fn="io.event.Event.mw_times, add_compute_output, in_marginal_window, trim2window, max_coalescence")
def event_windows(t):
    """time stamps, origin time, marginal-window test and trimming"""
    from obspy import UTCDateTime
    sr = int(t.rng.choice([10, 20, 50, 100, 250]))
    mw = [0.2, 0.5, 1.0, 0.29, 0.58, 1.13, 2.01, 0.3][t.i % 8]
    q = int(round(4 * mw * sr))
    trig = UTCDateTime("2021-03-04T05:06:12") + int(t.rng.integers(0, 400)) / sr
    e = mk_event(mw, trig)
    t.note(marginal_window=mw, sampling_rate=sr, trigger=str(trig))
    times = e.mw_times(sr)
    t.expect(len(times) == q + 1, "one time stamp per scanned sample", got=len(times), want=q + 1)
    t0 = trig - 2 * mw
    for k in (0, 1, q // 2, q):
        t.expect(abs(times[k] - (t0 + k / sr)) < 2e-6, "time stamps start two marginal windows before the trigger time, one sample apart", sample=k, got=str(times[k]))
    n = q + 1
    coa = np.round(t.rng.uniform(0.5, 3, n), 2)
    if t.i % 3 == 0:
        k = int(t.rng.integers(0, n))
    else:
        k = int(np.clip(round((2 * mw + [0.95, -0.95, 0.5, -1.2][t.i % 4] * mw) * sr), 0, n - 1))
    coa[k] = 5.0
    if k + 3 < n:
        coa[k + 3] = 5.0           # a later tie
    xyz = t.rng.uniform(0, 10, (n, 3))
    m4 = t.rng.uniform(0, 1, (2, 2, 1, n))
    can = coa / 2 + 0.25
    e.add_compute_output(times, coa, can, xyz, m4, "od")
    t.note(peak=k)
    t.expect(e.otime == times[k], "origin time: first sample of maximum coalescence", got=str(e.otime), want=str(times[k]))
    d = (trig - times[k])
    if abs(abs(d) - mw) > 1e-6:
        t.expect(bool(e.in_marginal_window()) == (abs(d) < mw), "kept only if the trigger time is within one marginal window", offset=d)
    else:
        t.expect(not e.in_marginal_window(), "a trigger time exactly one marginal window away is not within it", offset=d)
    mc = e.max_coalescence
    t.expect(mc["DT"] == times[k] and mc["COA"] == 5.0 and abs(mc["COA_NORM"] - can[k]) < 1e-12, "maximum coalescence values", got=mc)
    e.trim2window()
    keep = [j for j in range(n) if abs(j - k) / sr <= mw + 1e-7]
    t.equal([str(x) for x in e.coa_data["DT"]], [str(times[j]) for j in keep], "the coalescence series covers the marginal window around the origin time")
    t.close(e.coa_data["COA"].astype(float).values, coa[keep], "coalescence values kept")
    t.close(e.coa_data[["X", "Y", "Z"]].values.astype(float), xyz[keep], "locations kept")
    t.expect(e.map4d.shape == (2, 2, 1, len(keep)), "the 4-D map covers the same samples as the series", got=e.map4d.shape, want=len(keep))
    t.close(e.map4d, m4[..., keep], "the 4-D map is trimmed to the same samples")
    t.expect(e.otime == times[k], "the origin time is unchanged by trimming")
    t.expect(e.max_coalescence["DT"] == times[k] and e.onset_data == "od", "maximum coalescence after trimming")


@check("C16", quick=40, thorough=400, fn="io.event.Event.get_hypocentre, get_loc_uncertainty, add_*_location")
def event_locations(t):
    """hypocentre and uncertainty are the values stored for the method"""
    from obspy import UTCDateTime
    e = mk_event(1.0, UTCDateTime(0))
    sp, ga, gu, co, cu = (t.rng.uniform(0.1, 9, 3) for _ in range(5))
    t.note(spline=sp, gaussian=ga, gaussian_unc=gu, covariance=co, covariance_unc=cu)
    e.add_spline_location(sp)
    e.add_gaussian_location(ga, gu)
    e.add_covariance_location(co, cu)
    t.close(e.hypocentre, sp, "the hypocentre is the interpolated maximum")
    t.close(e.get_hypocentre("gaussian"), ga, "gaussian location")
    t.close(e.get_hypocentre("covariance"), co, "covariance location")
    t.close(e.get_hypocentre(method="spline"), sp, "spline location")
    t.close(e.loc_uncertainty, gu, "the default uncertainty is the gaussian one")
    t.close(e.get_loc_uncertainty("covariance"), cu, "covariance uncertainty")
    t.close(e.get_loc_uncertainty("gaussian"), gu, "gaussian uncertainty")
    t.close(e.locations["covariance"]["Err_XYZ"], np.prod(cu) ** (1 / 3), "geometric mean of the covariance uncertainties", rtol=1e-9)


@check("C16 C17 C06", quick=8, thorough=80, fn="signal.scan.QuakeScan.locate, _locate_events, _compute, _calculate_location")
def locate_events(t):
    """located events follow their own scanned window"""
    import pandas as pd
    from obspy import UTCDateTime
    PP = get("quakemigrate.signal.pickers.base", "PhasePicker")
    got = []

    class P(PP):
        def pick_phases(self, event, lut, run):
            event.add_picks(pd.DataFrame())
            got.append(event)
            return event, None

    mw = [0.5, 1.0, 0.7][t.i % 3]
    sr = 20
    q, arc, lut, o, t0 = make_scan(t, ["AA", "BB", "CC"], sr=sr, span=40.0, n=[6, 7, 6], marginal_window=mw, picker=P(), write_marginal_coalescence=True,
                                   fail={1: "empty"} if t.i % 2 else {})
    trigs = [t0 + 10 + int(t.rng.integers(0, 40)) / sr, t0 + 20 + int(t.rng.integers(0, 40)) / sr, t0 + 30.0]
    uid = [x.strftime("%Y%m%d%H%M%S%f")[:17] for x in trigs]
    f = pathlib.Path(t.tmp) / "trig.csv"
    pd.DataFrame({"EventID": uid, "CoaTime": [str(x) for x in trigs], "TRIG_COA": [2.0, 3.0, 4.0], "COA_X": 0.0, "COA_Y": 0.0, "COA_Z": 0.0,
                  "COA": [1.5, 1.6, 1.7], "COA_NORM": [1.1, 1.2, 1.3]}).to_csv(f, index=False)
    t.note(marginal_window=mw, triggers=[str(x) for x in trigs], failures=arc.fail)
    q.locate(trigger_file=str(f))
    pre, post = o.pad(4 * mw)
    t.expect(len(arc.calls) == 3, "every triggered event is processed once", calls=len(arc.calls))
    fs, ls = int(round(pre * sr)), int(round(post * sr))
    seen = {str(e.uid): e for e in got}
    for i, tr in enumerate(trigs):
        b, e_, *_ = arc.calls[i]
        t.expect(abs(b - (tr - 2 * mw - pre)) < 1e-5 and abs(e_ - (tr + 2 * mw + post)) < 1e-5, "data read: two marginal windows either side plus padding", event=i)
        if arc.fail.get(i):
            t.expect(uid[i] not in seen, "an event without data is skipped")
            continue
        w = arc.build(tr - 2 * mw - pre, tr + 2 * mw + post)
        on, od = o.calculate_onsets(w)
        pairs = [k for k, v in od.availability.items() if v == 1]
        tt = np.stack([np.rint(lut.traveltimes[k.split("_")[0]][k.split("_")[1]] * sr) for k in pairs], axis=-1).astype(int)
        m, mx, mxn, top = ref_scan(on, tt, fs, ls, len(pairs))
        k = int(mx.argmax())
        ot = tr - 2 * mw + k / sr
        inside = abs(tr - ot) < mw - 1e-7
        t.expect((uid[i] in seen) == inside, "located exactly when the peak lies within one marginal window of the trigger", event=i, offset=float(tr - ot))
        if not inside:
            continue
        ev = seen[uid[i]]
        t.expect(abs(ev.otime - ot) < 2e-6, "origin time of the coalescence peak", event=i, got=str(ev.otime), want=str(ot))
        keep = [j for j in range(m.shape[-1]) if abs(j - k) / sr <= mw + 1e-7]
        t.close(ev.map4d, m[..., keep], "4-D map within one marginal window of the origin time", rtol=1e-6, atol=1e-8, event=i)
        t.close(ev.coa_data["COA"].astype(float).values, mx[keep], "coalescence within one marginal window of the origin time", rtol=1e-6, atol=1e-8, event=i)
        marg = m[..., keep].sum(axis=-1)
        fn = pathlib.Path(t.tmp) / "run" / "locate" / "marginalised_coalescence_maps" / f"{uid[i]}.npy"
        t.close(np.load(fn), marg / marg.max(), "marginalised map: time sum scaled to a maximum of one", rtol=1e-6, atol=1e-8, event=i)


# ---------------------------------------------------------------- C17
def bump(rng, sh, at, w, noise=0.05):
    g = np.meshgrid(*[np.arange(k) for k in sh], indexing="ij")
    m = np.exp(-sum(((g[a] - at[a]) / w[a]) ** 2 for a in range(3)))
    m = m + noise * rng.random(sh)
    return m / m.max()


@check("C17", quick=40, thorough=500, fn="signal.scan.QuakeScan._covfit3d, add_covariance_location")
def covariance_location(t):
    """weighted mean and standard deviations over the retained nodes, each weighted by its own value"""
    q, arc, lut, o, t0 = make_scan(t, ["AA"], n=[int(x) for x in t.rng.integers(3, 12, 3)], units=["km", "m"][t.i % 2])
    if not hasattr(q, "_covfit3d"):
        raise Skip("_covfit3d")
    sh = tuple(int(x) for x in lut.node_count)
    m = bump(t.rng, sh, [t.rng.uniform(0, k - 1) for k in sh], t.rng.uniform(1, 6, 3), 0.1)
    thr = [0.9, 0.5, 0.8][t.i % 3]
    win = [None, 3, 5][(t.i // 3) % 3]
    t.note(shape=sh, thresh=thr, win=win, map=m)
    loc, unc = q._covfit3d(m.copy(), thr, win)
    keep = m > thr
    if win:
        pk = np.unravel_index(m.argmax(), sh)
        h = (win - 1) // 2
        box = np.zeros(sh, bool)
        box[tuple(slice(max(0, pk[a] - h), pk[a] + h + 1) for a in range(3))] = True
        keep &= box
    w = m[keep]
    xyz = np.stack([np.broadcast_to(lut.ll_corner[a] + np.arange(sh[a]).reshape([-1 if b == a else 1 for b in range(3)]) * lut.node_spacing[a], sh)[keep] for a in range(3)], axis=1)
    mean = (w[:, None] * xyz).sum(0) / w.sum()
    sd = np.sqrt((w[:, None] * (xyz - mean) ** 2).sum(0) / w.sum())
    t.close(lut.coord2grid(np.array([loc]))[0], mean, "weighted mean position of the retained nodes", rtol=0, atol=1e-5 * (1 if t.i % 2 == 0 else 1000))
    t.close(unc, sd, "square roots of the weighted variances along each axis", rtol=1e-6, atol=1e-9)


@check("C17", quick=30, thorough=300, fn="signal.scan.QuakeScan._splineloc, _gaufit3d, _mask3d, _gaufilt3d")
def spline_location(t):
    """inside the grid, near the peak; falls back to the peak node; masks stay in the grid"""
    n = [int(x) for x in t.rng.integers(4, 10, 3)]
    if t.i % 4 == 0:
        n = [7, 7, 7]
    q, arc, lut, o, t0 = make_scan(t, ["AA"], n=n)
    if not hasattr(q, "_splineloc"):
        raise Skip("_splineloc")
    sh = tuple(int(x) for x in lut.node_count)
    at = [float(t.rng.uniform(0, k - 1)) for k in sh]
    if t.i % 4 == 0:
        at = [t.rng.uniform(2.2, k - 3.2) for k in sh]
    if t.i % 4 == 1:
        at[t.i % 3] = [0.0, sh[t.i % 3] - 1.0][(t.i // 4) % 2]
    m = bump(t.rng, sh, at, t.rng.uniform(1.5, 3, 3), 0.001 if t.i % 2 == 0 else 0.05)
    pk = np.array(np.unravel_index(m.argmax(), sh))
    t.note(shape=sh, map=m, peak=pk)
    loc = q._splineloc(m.copy())
    idx = (lut.coord2grid(np.array([loc]))[0] - lut.ll_corner) / lut.node_spacing
    t.expect(np.all(idx >= -1e-4) and np.all(idx <= np.array(sh) - 1 + 1e-4), "the spline location lies within the grid", index=idx)
    t.expect(np.all(np.abs(idx - pk) <= 2 + 1e-4), "the spline location lies within the fit window around the peak node", index=idx)
    lo, hi = np.maximum(pk - 2, 0), np.minimum(pk + 3, sh)
    if len(set(hi - lo)) > 1:
        t.close(idx, pk, "falls back to the peak node when the fit window leaves the grid", rtol=0, atol=1e-4)
    elif t.i % 4 == 0:
        # smooth bump well inside: the spline maximum is close to the true one, and on the finer grid
        t.expect(np.all(np.abs(idx - np.array(at)) < 0.35), "the spline maximum is close to the maximum of a smooth map", index=idx, true=at)
    for win in (3, 5, 7):
        i = [int(t.rng.integers(k)) for k in sh]
        k = q._mask3d(sh, i, win)
        h = (win - 1) // 2
        g = np.meshgrid(*[np.arange(x) for x in sh], indexing="ij")
        want = np.all([np.abs(g[a] - i[a]) <= h for a in range(3)], axis=0)
        t.equal(np.asarray(k), want, "the mask is the part of the window around the node inside the grid", node=i, win=win)
    s = q._gaufilt3d(m.copy())
    t.expect(s.shape == sh and abs(np.nanmax(s) - 1) < 1e-6, "the smoothed map has the grid's shape and a maximum of one")


@check("C17", quick=20, thorough=200, fn="signal.scan.QuakeScan._gaufit3d")
def gaussian_location(t):
    """a map symmetric about its peak node is located at that node"""
    n = [int(2 * x + 1) for x in t.rng.integers(4, 7, 3)]
    q, arc, lut, o, t0 = make_scan(t, ["AA"], n=n)
    if not hasattr(q, "_gaufit3d"):
        raise Skip("_gaufit3d")
    sh = tuple(n)
    c = [x // 2 for x in n]
    w = t.rng.uniform(1.5, 3, 3)
    m = bump(t.rng, sh, c, w, 0.0)
    t.note(shape=sh, widths=w)
    loc, unc = q._gaufit3d(q._gaufilt3d(m.copy()) if t.i % 2 else m.copy())
    idx = (lut.coord2grid(np.array([loc]))[0] - lut.ll_corner) / lut.node_spacing
    t.close(idx, c, "the gaussian location of a symmetric map is its centre", rtol=0, atol=0.02)
    t.expect(np.all(np.asarray(unc) > 0) and np.all(np.isfinite(unc)), "positive uncertainties", unc=unc)
    # any map: the stationary point of the quadratic fitted to -log(map - mean) around the maximum
    at = [float(t.rng.uniform(1.5, k - 2.5)) for k in sh]
    m = bump(t.rng, sh, at, t.rng.uniform(1.5, 3, 3), 0.02)
    keep = m.copy()
    loc, unc = q._gaufit3d(m)
    t.equal(m, keep, "the map is left as it was")
    pk = np.array(np.unravel_index(m.argmax(), sh))
    idx = np.array([p for p in np.ndindex(*sh) if np.all(np.abs(np.array(p) - pk) <= 3) and m[p] > 0])
    x, y, z = (idx - pk).T.astype(float)
    v = -np.log(np.maximum(m[tuple(idx.T)] - m.mean(), 1e-300))
    P = np.linalg.lstsq(np.c_[x * x, y * y, z * z, x * y, x * z, y * z, x, y, z, np.ones(len(x))], v, rcond=None)[0]
    H = np.array([[2 * P[0], P[3], P[4]], [P[3], 2 * P[1], P[5]], [P[4], P[5], 2 * P[2]]])
    if np.linalg.cond(H) < 1e4:
        want = pk - np.linalg.solve(H, P[6:9])
        got = (lut.coord2grid(np.array([loc]))[0] - lut.ll_corner) / lut.node_spacing
        if np.all(np.abs(want - pk) < 20):
            t.close(got, want, "the gaussian location is the stationary point of the fitted surface", rtol=1e-5, atol=1e-3)
    s0 = m.copy()
    q._gaufilt3d(m)
    t.equal(m, s0, "smoothing leaves the map as it was")
