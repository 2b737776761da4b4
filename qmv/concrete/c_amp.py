"""Run-time contracts: amplitude measurements and the local-magnitude chain (C20, C19)."""
from __future__ import annotations

import math
import pathlib

import numpy as np

from . import fix
from .api import Skip, check, get
from .c_mseed import mkrun
from .c_util import mk

nan = float("nan")


class Data:
    """Event waveforms whose Wood-Anderson correction is the identity."""

    def __init__(self, st, fail=()):
        self.raw_waveforms, self.fail = st, fail

    def get_wa_waveform(self, tr, velocity=False, **kw):
        if tr.stats.station in self.fail:
            raise get("quakemigrate.util", "ResponseNotFoundError")("no response", tr.id)
        tr = tr.copy()
        tr.data = tr.data.astype(float)
        return tr


def amp(t, **kw):
    return get("quakemigrate.signal.local_mag.amplitude", "Amplitude")(kw)


def extrema(x):
    """indices of local maxima (+1) and minima (-1) of x, plateaus at their middle, ends excluded"""
    out = []
    k = 1
    n = len(x)
    while k < n - 1:
        if x[k] == x[k - 1]:
            k += 1
            continue
        j = k
        while j + 1 < n and x[j + 1] == x[k]:
            j += 1
        if j + 1 < n:
            if x[k] > x[k - 1] and x[k] > x[j + 1]:
                out.append(((k + j) // 2, 1))
            if x[k] < x[k - 1] and x[k] < x[j + 1]:
                out.append(((k + j) // 2, -1))
        k = j + 1
    return out


def detrend(x):
    k = np.arange(len(x), dtype=float)
    k -= k.mean()
    s = (k * (x - x.mean())).sum() / (k * k).sum() if len(x) > 1 else 0.0
    return x - x.mean() - s * k


def ref_p2t(x, dt):
    """[(half peak-to-trough in mm, frequency, time of the middle)] of the largest adjacent pairs (ties)"""
    e = extrema(x)
    pairs = [(abs(x[a] - x[b]), a, b) for (a, sa), (b, sb) in zip(e, e[1:]) if sa != sb]
    if not pairs:
        return []
    top = max(p[0] for p in pairs)
    return [(p[0] * 500.0, 1 / (2 * (p[2] - p[1]) * dt), (p[1] + p[2]) / 2 * dt) for p in pairs if p[0] >= top * (1 - 1e-9)]


def average(x, how):
    if how == "RMS":
        return math.sqrt((x ** 2).mean()) * 1000
    if how == "STD":
        return math.sqrt(((x - x.mean()) ** 2).mean()) * 1000
    X = np.fft.fft(x)
    h = np.zeros(len(x))
    n = len(x)
    h[0] = 1
    if n % 2 == 0:
        h[n // 2] = 1
        h[1:n // 2] = 2
    else:
        h[1:(n + 1) // 2] = 2
    return np.abs(np.fft.ifft(X * h)).mean() * 1000


@check("C20", quick=60, thorough=2000, fn="signal.local_mag.amplitude.Amplitude._peak_to_trough_amplitude")
def peak_to_trough(t):
    """half the largest difference between an adjacent peak and trough, its frequency and time"""
    from obspy import UTCDateTime
    a = amp(t, signal_window=0.0)
    f = getattr(a, "_peak_to_trough_amplitude", None)
    if f is None:
        raise Skip("_peak_to_trough_amplitude is gone")
    Err = get("quakemigrate.util", "PeakToTroughError")
    n = int(t.rng.integers(3, 40))
    k = t.i % 4
    x = t.rng.integers(-4, 5, n).astype(float) if k == 0 else np.round(t.rng.normal(size=n), 3) if k < 3 else np.cumsum(t.rng.normal(size=n))
    if k == 2:
        m = int(t.rng.integers(1, n))
        x[:m].sort()
        if t.i % 8 == 2:
            x[m:] = np.sort(x[m:])[::-1]
    sr = float(t.rng.choice([50, 100, 40]))
    t0 = UTCDateTime("2021-03-04T05:06:07")
    tr = mk(x.copy(), sr, t0, "XX.STA..HHZ")
    want = ref_p2t(x, 1 / sr)
    t.note(data=x, sampling_rate=sr)
    if not want:
        t.raises(Err, lambda: f(tr), "no adjacent peak and trough: no amplitude")
        return
    h, fr, tm = f(tr)
    t.close(h, want[0][0], "half the largest peak-to-trough difference, in millimetres", rtol=1e-9)
    t.expect(any(abs(fr - w[1]) < 1e-6 * w[1] and abs(tm - t0 - w[2]) < 2e-6 for w in want), "frequency and time of the largest pair", got=(fr, tm - t0), want=want)
    t.equal(tr.data, x, "the trace is not changed")


def gain(par, sr, f):
    """|H| of the digital Butterworth filter, from its analogue prototype (bilinear transform)"""
    n = par.get("filter_corners", 4)
    warp = lambda q: math.tan(math.pi * q / sr)
    w = warp(f)
    band = par.get("bandpass_filter") and par["bandpass_highcut"] < 0.5 * sr * (1 - 1e-6)
    if band:
        lo, hi = warp(par["bandpass_lowcut"]), warp(par["bandpass_highcut"])
        z = (w * w - lo * hi) / (w * (hi - lo))
    else:
        z = warp(par["bandpass_lowcut"] if par.get("bandpass_filter") else par["highpass_freq"]) / w
    return 1 / math.sqrt(1 + z ** (2 * n))


def filtered(tr, par):
    if not (par.get("highpass_filter") or par.get("bandpass_filter")):
        return tr
    tr.detrend("linear")
    tr.taper(0.05, "cosine")
    n = par.get("filter_corners", 4)
    if par.get("bandpass_filter") and par["bandpass_highcut"] < 0.5 * tr.stats.sampling_rate * (1 - 1e-6):
        tr.filter(type="bandpass", freqmin=par["bandpass_lowcut"], freqmax=par["bandpass_highcut"], corners=n, zerophase=False)
    else:
        tr.filter(type="highpass", freq=par["bandpass_lowcut"] if par.get("bandpass_filter") else par["highpass_freq"], corners=n, zerophase=False)
    return tr


def ref_windows(pp, sp, ptt, stt, ot, mw, f, sw):
    """[[P start, P end], [S start, S end]], None when the P pick does not precede the S pick"""
    from obspy import UTCDateTime
    if pp == "none" or sp == "none":
        pp, sp = ot + ptt, ot + stt
    else:
        pp = ot + ptt if pp == -1 else pp
        sp = ot + stt if sp == -1 else sp
    if not pp < sp:
        return None
    ps, pe = pp - mw - ptt * f, pp + mw + ptt * f
    ss, se = sp - mw - stt * f, sp + mw + stt * f + sw
    if ss < pe:
        m = pe + (ss - pe) / 2
        return [[ps, m], [m, se]]
    return [[ps, min(pe + sw, ss)], [ss, se]]


def scene(t, names, sr, mw, f, par, close=False):
    """lookup table, event with picks and waveforms"""
    import pandas as pd
    from obspy import Stream, UTCDateTime
    E = get("quakemigrate.io.event", "Event")
    rng = t.rng
    units = ["km", "m"][t.i % 2]
    lut = fix.make_lut(rng, names, ("P", "S"), units=units, n=(3, 3, 3))
    for s in names:
        P = np.round(rng.uniform(0.2, 0.5 if close else 3.0, (3, 3, 3)), 3)
        lut.traveltimes[s] = {"P": P, "S": np.round(P * 1.75 + 0.1, 3)}
    lut.fraction_tt = f
    node = tuple(int(v) for v in rng.integers(0, 3, 3))
    ot = UTCDateTime("2021-03-04T05:06:10") + int(rng.integers(0, 1000)) / 1000
    ev = E(mw, pd.Series({"EventID": "20210304050610000", "CoaTime": ot, "TRIG_COA": 2.0, "COA": 3.0, "COA_NORM": 1.5}))
    ev.otime = ot
    xyz = lut.index2coord(np.array([node]))[0]
    ev.add_spline_location([float(v) for v in xyz])
    rows, info = [], {}
    for k, s in enumerate(names):
        ptt, stt = float(lut.traveltimes[s]["P"][node]), float(lut.traveltimes[s]["S"][node])
        how = int(rng.integers(0, 7))
        P = ot + ptt + float(np.round(rng.uniform(-0.4, 0.4) * mw, 3))
        S = ot + stt + float(np.round(rng.uniform(-0.4, 0.4) * mw, 3))
        pp, sp = {0: (P, S), 1: (P, -1), 2: (-1, S), 3: (-1, -1), 4: (P, "none"), 5: ("none", S), 6: ("all", "all")}[how]
        if how == 0 and rng.random() < 0.2:
            pp, sp = S, (P if rng.random() < 0.5 else S)      # wrong order
        info[s] = dict(ptt=ptt, stt=stt, pp=pp, sp=sp, picked=any(isinstance(v, UTCDateTime) for v in (pp, sp)))
        if how == 6:
            info[s].update(pp=-1, sp=-1)
            continue
        for ph, v in (("P", pp), ("S", sp)):
            if not isinstance(v, str):
                rows.append([s, ph, ot, v, 0.1, 5.0, 0.0])
    df = pd.DataFrame(rows, columns=["Station", "Phase", "ModelledTime", "PickTime", "PickError", "SNR", "Residual"])
    ev.add_picks(df)
    a = amp(t, **par)
    pre, post = a.pad(mw, lut.max_traveltime, f)
    b, e = ot - pre, ot + post
    st = Stream()
    base = UTCDateTime(int(b.timestamp) - 3)
    n = int((e - base + 4) * sr)
    for s in names:
        for c in ("E", "N", "Z"):
            x = rng.normal(size=n) * 1e-5
            for ph in ("ptt", "stt"):
                k = int((ot - base + info[s][ph]) * sr)
                m = min(n - k, int(0.6 * sr))
                x[k:k + m] += rng.normal(size=m) * 1e-3
            if t.i % 3:
                x = np.cumsum(x) * 0.3
            st += mk(x, sr, base, f"XX.{s}..HH{c}")
    ev.add_waveform_data(Data(st))
    return lut, ev, info, node, a, (b, e)


@check("C20 C19", quick=60, thorough=800, fn="signal.local_mag.amplitude.Amplitude.get_amplitudes and everything below it")
def amplitudes(t):
    """distances, measurement windows, amplitudes, frequencies, times, gains and noise of every component"""
    rng = t.rng
    sr = float([50, 100, 40][t.i % 3])
    mw = float([0.3, 1.0, 0.5][(t.i // 2) % 3])
    f = float([0.1, 0.0, 0.4, 0.25][t.i % 4])
    par = {"signal_window": float([0.0, 1.5, 5.0, 0.4][(t.i // 3) % 4]), "noise_window": float([5.0, 1.0, 3.3][t.i % 3]),
           "noise_measure": ["RMS", "STD", "ENV"][(t.i // 2) % 3]}
    k = (t.i // 2) % 4
    if k == 1:
        par.update(highpass_filter=True, highpass_freq=2.0, filter_corners=int(rng.integers(1, 5)))
    if k == 2:
        par.update(bandpass_filter=True, bandpass_lowcut=2.0, bandpass_highcut=[12.0, 60.0][t.i % 2], filter_corners=int(rng.integers(1, 5)))
    names = ["AA", "BB", "CC"][:1 + t.i % 3]
    lut, ev, info, node, a, (b, e) = scene(t, names, sr, mw, f, par, close=t.i % 5 == 0)
    if t.i % 4 == 3:          # the station table is a selection of a longer one
        lut.station_data.index = [2 * q + 1 for q in range(len(names))]
    st = ev.data.raw_waveforms
    gone = {}
    for s in names:
        u = int(rng.integers(0, 8))
        if u == 0:
            for tr in st.select(station=s, component="N"):
                st.remove(tr)
            gone[s, "N"] = 1
        if u == 1:
            st.select(station=s, component="Z")[0].trim(endtime=e - 0.5)
            gone[s, "Z"] = 1
        if u == 2:
            tr = st.select(station=s, component="E")[0]
            st += tr.copy().trim(endtime=b + 1.0)
            gone[s, "E"] = 1
        if u == 3:
            ev.data.fail += (s,)
            for c in "ENZ":
                gone[s, c] = 2
    ot = ev.otime
    t.note(otime=str(ot), marginal_window=mw, fraction=f, params=par, sampling_rate=sr, info=info, missing=gone, station_index=list(lut.station_data.index))
    before = {tr.id + str(tr.stats.npts): tr.data.copy() for tr in st}
    df = a.get_amplitudes(ev, lut)
    t.expect(all(np.array_equal(before[tr.id + str(tr.stats.npts)], tr.data) for tr in st), "the waveforms are not changed")
    t.expect(len(df) == 3 * len(names), "one row per component of every station", got=list(df.index))
    for q, s in enumerate(names):
        sd = lut.station_data.iloc[q]
        w = ref_windows(info[s]["pp"], info[s]["sp"], info[s]["ptt"], info[s]["stt"], ot, mw, f, par["signal_window"])
        for j, c in enumerate("ENZ"):
            r = df.iloc[3 * q + j]
            want_id = f".{s}..{['[E,2]', '[N,1]', 'Z'][j]}" if gone.get((s, c)) == 1 else f"XX.{s}..HH{c}"
            t.equal(df.index[3 * q + j], want_id, "rows in the order of stations and components")
            from obspy.geodetics import gps2dist_azimuth
            lo, la, z = ev.hypocentre
            u = 1.0 if lut.unit_conversion_factor == 1000.0 else 1000.0
            t.close(float(r["epi_dist"]), gps2dist_azimuth(la, lo, sd["Latitude"], sd["Longitude"])[0] / 1000, "epicentral distance in kilometres", rtol=1e-9)
            t.close(float(r["z_dist"]), (z - sd["Elevation"]) / u, "vertical distance in kilometres", rtol=1e-9, atol=1e-9)
            if (s, c) in gone or w is None:
                t.expect(all(math.isnan(float(r[x])) for x in ("P_amp", "S_amp", "Noise_amp", "P_freq", "S_freq")), "no measurement without complete data, response and picks in order", station=s, comp=c, row=r.to_dict())
                continue
            t.expect(bool(r["is_picked"]) == info[s]["picked"], "picked exactly when at least one phase is", got=r["is_picked"])
            tr = st.select(station=s, component=c)[0].copy()
            tr.trim(b, e)
            tr.data = tr.data.astype(float)
            tr = filtered(tr, par)
            half = lambda x: abs(((x - tr.stats.starttime) * sr) % 1 - 0.5) < 1e-4      # boundary half way between samples
            if half(b) or half(e):
                continue
            for ph, (x0, x1) in zip("PS", w):
                if half(x0) or half(x1):
                    continue
                cut = tr.slice(x0, x1)
                vals = [r[f"{ph}_{x}"] for x in ("amp", "freq", "time", "avg_amp", "filter_gain")]
                x = detrend(cut.data)
                opts = ref_p2t(x, cut.stats.delta) if len(x) > 2 else []
                if not opts:
                    t.expect(math.isnan(float(vals[0])), "no amplitude without an adjacent peak and trough", station=s, comp=c, phase=ph)
                    continue
                g = 1.0
                if math.isnan(float(vals[0])) and par.get("bandpass_filter") and any(o[1] > sr / 2 - 1e-6 for o in opts):
                    continue          # no gain at the Nyquist frequency
                if par.get("highpass_filter") or par.get("bandpass_filter"):
                    g = gain(par, sr, opts[0][1])
                    if len(opts) == 1 and opts[0][1] < sr / 2 - 1e-6:
                        t.close(float(vals[4]), g, "gain of the filter at the measured frequency", rtol=1e-6, station=s, comp=c, phase=ph)
                    g = float(vals[4])
                else:
                    t.expect(vals[4] is None or math.isnan(vals[4]), "no gain without a filter", got=vals[4])
                t.close(float(vals[0]) * g, opts[0][0], "half the largest adjacent peak-to-trough amplitude in the window, corrected for the gain", rtol=1e-6, station=s, comp=c, phase=ph, window=(x0 - ot, x1 - ot), info=info[s])
                t.expect(any(abs(float(vals[1]) / o[1] - 1) < 1e-6 and abs(vals[2] - cut.stats.starttime - o[2]) < 1e-5 for o in opts), "frequency and time of the measurement", got=vals[1:3], want=opts)
                t.close(float(vals[3]) * g, average(x, par["noise_measure"]), "average amplitude in the window, corrected for the gain", rtol=1e-6, station=s, comp=c, phase=ph)
            if half(w[0][0]) or half(w[0][0] - par["noise_window"]):
                continue
            noise = tr.slice(w[0][0] - par["noise_window"], w[0][0])
            t.expect(abs(noise.stats.starttime - (w[0][0] - par["noise_window"])) <= 1 / sr + 1e-6 or isinstance(info[s]["pp"], type(ot)), "the noise window is covered by the data requested")
            t.close(float(r["Noise_amp"]), average(detrend(noise.data), par["noise_measure"]), "noise amplitude before the P window", rtol=1e-6, station=s, comp=c)


@check("C20", quick=60, thorough=600, fn="signal.local_mag.amplitude.Amplitude.pad")
def padding_covers(t):
    """the windows of every modelled arrival lie in the data requested, clear of the tapers"""
    sw, nw = float(np.round(t.rng.uniform(0, 20), 2)), float(np.round(t.rng.uniform(0, 20), 2))
    a = amp(t, signal_window=sw, noise_window=nw)
    mw, mtt, f = float(np.round(t.rng.uniform(0, 5), 2)), float(np.round(t.rng.uniform(0, 60), 2)), float(np.round(t.rng.uniform(0, 1), 2))
    t.note(signal_window=sw, noise_window=nw, marginal_window=mw, max_traveltime=mtt, fraction=f)
    pre, post = a.pad(mw, mtt, f)
    taper = 0.05 * (pre + post)
    for ptt, stt in ((0.0, 0.0), (mtt, mtt), (mtt / 2, mtt)):
        t.expect(ptt - mw - ptt * f - nw >= -pre + taper - 1e-9, "noise window inside the untapered data", ptt=ptt, pre_pad=pre, taper=taper)
        t.expect(stt + mw + stt * f + sw <= post - taper + 1e-9, "signal window inside the untapered data", stt=stt, post_pad=post, taper=taper)
    t.expect(pre < nw + mw + 2 + 0.07 * (nw + 2 * mw + sw + 2 * mtt) and post < 2 + sw + 2 * mtt + mw + 0.07 * (nw + 2 * mw + sw + 2 * mtt), "no more data than the windows and tapers need", pre=pre, post=post)


@check("C20", quick=12, thorough=120, fn="io.data.WaveformData.get_wa_waveform")
def wood_anderson(t):
    """a steady ground motion of known amplitude shows as a Wood-Anderson seismometer records it"""
    from obspy import UTCDateTime
    from obspy.core.inventory import Channel, Inventory, Network, Response, Station
    WD = get("quakemigrate.io.data", "WaveformData")
    start = UTCDateTime(2020, 3, 4, 5, 6, 7)
    sens = float(t.rng.choice([1e8, 6e8, 1.5e9]))
    c = 2 * math.pi * float(t.rng.choice([1 / 30, 0.2, 1.0]))
    poles = [complex(-c * 0.7, c * 0.714), complex(-c * 0.7, -c * 0.714)]
    f0 = float(t.rng.uniform(2.0, 8.0))
    h = lambda f: (2j * math.pi * f) ** 2 / np.prod([2j * math.pi * f - p for p in poles])
    resp = Response.from_paz([0j, 0j], poles, sens, stage_gain_frequency=5.0, input_units="M/S", output_units="COUNTS", normalization_frequency=5.0)
    ch = Channel("HHZ", "", 64.0, -17.0, 0.0, 0.0, response=resp, start_date=start - 1000, sample_rate=100.0)
    ch2 = Channel("HHN", "", 64.0, -17.0, 0.0, 0.0, response=Response.from_paz([0j, 0j], poles, sens * 3, stage_gain_frequency=5.0, input_units="M/S", output_units="COUNTS", normalization_frequency=5.0),
                  start_date=start - 1000, sample_rate=100.0)
    inv = Inventory([Network("NW", [Station("AA", 64.0, -17.0, 0.0, channels=[ch2, ch])])])
    full, velocity = bool(t.i % 2), bool(t.i // 2 % 2)
    sr, n = 100.0, 6000
    a = 10 ** float(t.rng.uniform(-9, -4))         # metres
    k = np.arange(n) / sr
    gain0 = abs(h(5.0))
    tr = mk(a * 2 * math.pi * f0 * sens * abs(h(f0)) / gain0 * np.cos(2 * math.pi * f0 * k), sr, start, "NW.AA..HHZ")
    t.note(frequency=f0, amplitude=a, sensitivity=sens, poles=[str(p) for p in poles], full=full, velocity=velocity)
    d = WD(start, start + n / sr, stations=["AA"], response_inv=inv, water_level=60.0, pre_filt=None, remove_full_response=full)
    x = tr.data.copy()
    out = d.get_wa_waveform(tr, velocity=velocity)
    t.equal(tr.data, x, "the trace given is not changed")
    wp = [-6.283185 - 4.712j, -6.283185 + 4.712j]
    want = a * 2080 * abs((2j * math.pi * f0) ** 2 / np.prod([2j * math.pi * f0 - p for p in wp])) * (2 * math.pi * f0 if velocity else 1.0)
    m = slice(n // 4, 3 * n // 4)
    base = np.c_[np.cos(2 * math.pi * f0 * k), np.sin(2 * math.pi * f0 * k), *[(k - k.mean()) ** q for q in range(6)]][m]
    height = lambda x: float(np.hypot(*np.linalg.lstsq(base, x[m], rcond=None)[0][:2]))
    got = height(out.data)
    t.expect(abs(got - want) <= 0.02 * want, "amplitude on the Wood-Anderson seismogram", got=got, want=want)
    real = d.get_real_waveform(tr, velocity=velocity).data
    want = a * (2 * math.pi * f0 if velocity else 1.0)
    got = height(real)
    t.expect(abs(got - want) <= 0.02 * want, "amplitude of the ground motion", got=got, want=want)
    t.raises(AttributeError, lambda: WD(start, start + 1).get_wa_waveform(tr), "refused without an inventory")
    tr2 = tr.copy()
    tr2.stats.channel = "HHQ"
    t.raises((get("quakemigrate.util", "ResponseNotFoundError"), get("quakemigrate.util", "ResponseRemovalError")), lambda: d.get_wa_waveform(tr2), "refused without a response")


@check("C20", quick=10, thorough=20, fn="signal.local_mag.amplitude.Amplitude.__init__")
def amp_settings(t):
    t.raises(AttributeError, lambda: amp(t, highpass_filter=True), "a high-pass filter needs its frequency")
    t.raises(AttributeError, lambda: amp(t, bandpass_filter=True, bandpass_lowcut=2.0), "a band-pass filter needs both frequencies")
    t.raises(AttributeError, lambda: amp(t, bandpass_filter=True), "a band-pass filter needs both frequencies")
    t.raises(AttributeError, lambda: amp(t, highpass_filter=True, highpass_freq=1.0, bandpass_filter=True, bandpass_lowcut=2.0, bandpass_highcut=3.0), "only one filter")
    for k in ("water_level", "pre_filt", "remove_full_response"):
        t.raises(AttributeError, lambda: amp(t, **{k: 1}), "moved settings are refused")


@check("C19 C24", quick=30, thorough=400, fn="signal.local_mag.LocalMag.calc_magnitude; io.write_amplitudes")
def chain(t):
    """from waveforms to the event's magnitude and the amplitude file"""
    import pandas as pd
    L = get("quakemigrate.signal.local_mag", "LocalMag")
    W = get("quakemigrate.signal.local_mag.magnitude", "Magnitude")
    sr, mw, f = 50.0, 0.5, 0.1
    par = {"signal_window": 1.0, "noise_window": 3.0}
    if t.i % 2:
        par.update(highpass_filter=True, highpass_freq=2.0)
    names = ["AA", "BB", "CC"]
    lut, ev, info, node, a, (b, e) = scene(t, names, sr, mw, f, par)
    if t.i % 4 == 0:
        ev.data.fail = ("BB",)
    if t.i % 10 == 9:
        ev.data.fail = tuple(names)
    A0 = lambda d: 1.1 * np.log10(d / 100) + 0.002 * (d - 100) + 3
    mp = {"A0": A0, "amp_feature": ["S_amp", "P_amp"][t.i % 2], "noise_filter": 1.0, "pick_filter": bool((t.i // 2) % 2), "trace_filter": [None, ".*H[NE]$"][(t.i // 3) % 2],
          "use_hyp_dist": bool(t.i % 3 == 0)}
    t.note(params=par, mag_params={k: str(v) for k, v in mp.items() if k != "A0"}, info=info)
    lm = L(par, mp, plot_amplitudes=False)
    am = lm.amp.get_amplitudes(ev, lut)
    run = mkrun(t, "locate")
    _, mag = lm.calc_magnitude(ev, lut, run)
    used = []
    for tid, r in am.iterrows():
        s, n, g = r[mp["amp_feature"]], r["Noise_amp"], r[mp["amp_feature"][0] + "_filter_gain"]
        s, n = float(s), float(n)
        if t.i % 2 and g is not None:
            n /= float(g)
        if math.isnan(s) or math.isnan(n) or not s > n:
            continue
        if mp["pick_filter"] and not r["is_picked"]:
            continue
        if mp["trace_filter"] and tid[-1] not in "NE":
            continue
        d = float(r["epi_dist"])
        d = math.hypot(d, float(r["z_dist"])) if mp["use_hyp_dist"] else d
        used.append(math.log10(s) + float(A0(d)))
    want = float(np.mean(used)) if used else nan
    t.close(float(mag), want, "network magnitude", rtol=1e-8)
    t.close(float(ev.localmag["ML"]), want, "magnitude recorded with the event", rtol=1e-8)
    fl = list((pathlib.Path(t.tmp) / "run" / "locate" / "amplitudes").glob("*"))
    t.equal([x.name for x in fl], ["20210304050610000.amps"], "one amplitude file for the event")
    fd = pd.read_csv(fl[0])
    t.equal(list(fd["id"]), list(am.index), "the amplitude file has a row per component")
    for c, tol in (("epi_dist", 6e-5), ("z_dist", 6e-5), ("P_amp", 6e-5), ("S_amp", 6e-5), ("Noise_amp", 6e-5), ("P_freq", 6e-2), ("S_freq", 6e-2), ("P_avg_amp", 6e-5), ("S_avg_amp", 6e-5), ("S_filter_gain", 6e-3), ("P_filter_gain", 6e-3)):
        w = np.array([nan if v is None else float(v) for v in am[c]])
        t.close(fd[c].values.astype(float), w, "values in the amplitude file to the precision stated", rtol=tol, atol=0, column=c)
    for c in ("P_time", "S_time"):
        for x, y in zip(fd[c], am[c]):
            t.expect((isinstance(x, float) and isinstance(y, float)) or str(x) == str(y), "times in the amplitude file", got=x, want=str(y))
    t.equal([bool(v) for v in fd["is_picked"]], [bool(v) for v in am["is_picked"]], "pick flags in the amplitude file")
