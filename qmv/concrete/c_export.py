"""Run-time contracts: exported catalogues (C26)."""
from __future__ import annotations

import math
import pathlib
import re

import numpy as np

from . import fix
from .api import Skip, check, get
from .c_io import NAMES, make_picks, picker, uid
from .c_mseed import mkrun


def make_amps(rng, names, ot):
    import pandas as pd
    rows, ids = [], []
    nan = math.nan
    for s in names:
        for c in ("[E,2]", "[N,1]", "Z"):
            if rng.random() < 0.25:
                rows.append([float(rng.uniform(0, 90)), float(rng.uniform(0, 20))] + [nan] * 11 + [nan, False, nan, nan])
                ids.append(f".{s}..{c}")
                continue
            r = [float(rng.uniform(0, 90)), float(rng.uniform(0, 20))]
            for _ in "PS":
                if rng.random() < 0.2:
                    r += [nan] * 5
                else:
                    r += [float(10 ** rng.uniform(-5, 2)), float(rng.uniform(0.5, 30)), ot + float(np.round(rng.uniform(0, 30), 6)), float(10 ** rng.uniform(-5, 2)),
                          float(rng.uniform(0.3, 1)) if rng.random() < 0.5 else nan]
            n, m = float(10 ** rng.uniform(-6, -1)), float(rng.uniform(-1, 5)) if rng.random() < 0.8 else nan
            rows.append(r + [nan, bool(rng.random() < 0.5), m, 0.2 if m == m else nan])
            rows[-1][12] = n
            rows[-1].pop(13)
            ids.append(f"XX.{s}..HH{c[1] if len(c) > 1 else c}")
            continue
    for r in rows:
        del r[16:]
    cols = ["epi_dist", "z_dist", "P_amp", "P_freq", "P_time", "P_avg_amp", "P_filter_gain", "S_amp", "S_freq", "S_time", "S_avg_amp", "S_filter_gain",
            "Noise_amp", "is_picked", "ML", "ML_Err"]
    rows = [r if len(r) == len(cols) else r[:13] + [False, nan, nan] for r in rows]
    return pd.DataFrame(rows, columns=cols, index=pd.Index(ids, name="id"))


def written_run(t, units, sub, nev, mags):
    """a run directory with located events; what was put in"""
    import pandas as pd
    from obspy import UTCDateTime
    E = get("quakemigrate.io.event", "Event")
    rng = t.rng
    f = 1.0 if units == "km" else 1000.0
    lut = fix.make_lut(rng, ("AA",), units=units, n=(3, 3, 3), spacing=(0.5, 0.5, 0.5))
    run = mkrun(t, "locate", "run", sub)
    out = {}
    for q in range(nev):
        ot = UTCDateTime(str(rng.choice(["2021-12-31T23:59:58", "2020-02-29T00:00:00", "2021-03-04T05:06:07"]))) + 100 * q + [0.0, 0.000001, 0.5, 0.05, 0.001234, 0.999999][int(rng.integers(0, 6))]
        ev = E(1.0, pd.Series({"EventID": uid(ot), "CoaTime": ot, "TRIG_COA": 2.0, "COA": 3.0, "COA_NORM": 1.5}))
        ev.coa_data = pd.DataFrame({"DT": [ot], "COA": [4.0], "COA_NORM": [2.0], "X": [0.0], "Y": [0.0], "Z": [0.0]})
        ev.otime = ot
        loc = [np.array([np.round(rng.uniform(-180, 180), 6), np.round(rng.uniform(-90, 90), 6), np.round(rng.uniform(-2, 30), 3) * f]) for _ in range(3)]
        ge, ce = np.round(rng.uniform(0.1, 5, 3), 3) * f, np.round(rng.uniform(0.1, 5, 3), 3) * f
        ev.add_spline_location(loc[0])
        ev.add_gaussian_location(loc[1], ge)
        ev.add_covariance_location(loc[2], ce)
        if mags:
            ev.add_local_magnitude(1.23, 0.12, 0.9)
        ev.write(run, lut)
        names = [str(v) for v in rng.permutation(NAMES)[:int(rng.integers(1, 5))]]
        picks = make_picks(rng, names, ot)
        picker().write(run, uid(ot), picks)
        amps = None
        if mags:
            amps = make_amps(rng, names, ot)
            get("quakemigrate.io", "write_amplitudes")(run, amps, ev)
        out[uid(ot)] = dict(time=ot, loc=loc, picks=picks, amps=amps, ge=ge)
    return run, out


def isodate(s):
    from obspy import UTCDateTime
    return UTCDateTime(s)


@check("C26 C24", quick=40, thorough=600, fn="export.to_obspy.read_quakemigrate, _read_single_event")
def obspy_catalogue(t):
    """origins, picks and amplitudes of an exported catalogue"""
    rd = get("quakemigrate.export.to_obspy", "read_quakemigrate")
    units = ["km", "m"][t.i % 2]
    sub = ["", "s"][(t.i // 2) % 2]
    mags = bool(t.i % 3)
    run, evs = written_run(t, units, sub, int(t.rng.integers(1, 4)), mags)
    lph = ["S", "P"][(t.i // 5) % 2]
    cat = rd(str(run.path), units, run_subname=sub, local_mag_ph=lph)
    f = 1000.0 if units == "km" else 1.0
    got = {str(e.resource_id).split("/")[-1]: e for e in cat}
    t.note(units=units, subname=sub, events={k: str(v["time"]) for k, v in evs.items()}, picks={k: v["picks"].values.tolist() for k, v in evs.items()})
    t.expect(len(cat) == len(evs) and set(got) == set(evs), "one catalogue event per located event", got=sorted(got), want=sorted(evs))
    for k, w in evs.items():
        e = got[k]
        o = e.preferred_origin()
        t.expect(o.time == w["time"], "origin time", got=str(o.time), want=str(w["time"]))
        t.close([o.longitude, o.latitude], w["loc"][0][:2], "longitude and latitude", rtol=0, atol=1e-6)
        t.close(o.depth, w["loc"][0][2] * f, "depth in metres", rtol=1e-9, atol=0.51)
        g = [q for q in e.origins if q is not o and str(q.resource_id) != str(o.resource_id)]
        for q in g:
            t.expect(q.time == w["time"], "origin time of the gaussian location")
            t.close([q.longitude, q.latitude], w["loc"][1][:2], "gaussian longitude and latitude", rtol=0, atol=1e-6)
            t.close(q.depth, w["loc"][1][2] * f, "gaussian depth in metres", rtol=1e-9, atol=0.51)
        t.close(o.depth_errors.uncertainty, w["ge"][2] * f, "depth uncertainty in metres", rtol=1e-9, atol=0.51)
        want = {}
        for _, r in w["picks"].iterrows():
            want[r["Station"], r["Phase"], "modelled"] = (r["ModelledTime"], None)
            if str(r["PickTime"]) != "-1":
                want[r["Station"], r["Phase"], "autopick"] = (r["PickTime"], float(f"{r['PickError']:.3g}"))
        have = [(p.waveform_id.station_code, p.phase_hint, str(p.method_id).split("/")[-1]) for p in e.picks]
        t.expect(sorted(have) == sorted(want), "one modelled pick per station and phase, an automatic one exactly where picked", got=sorted(have), want=sorted(want))
        for p, h in zip(e.picks, have):
            t.expect(p.time == want[h][0], "pick time as written", pick=h, got=str(p.time), want=str(want[h][0]))
            if want[h][1] is not None:
                t.close(p.time_errors.uncertainty, want[h][1], "pick error as written", rtol=1e-9, pick=h)
        if mags:
            wa = []
            for i, r in w["amps"].iterrows():
                for ph in "PS":
                    if not math.isnan(r[f"{ph}_amp"]):
                        wa.append((i, ph, float(f"{r[f'{ph}_amp']:.5g}") / 1000, float(f"{r['Noise_amp']:.5g}") / 1000, 1 / float(f"{r[f'{ph}_freq']:.2g}"), r[f"{ph}_time"], r["ML"]))
            ga = {(a.waveform_id.get_seed_string(), str(a.method_id).split("/")[-1][0]): a for a in e.amplitudes}
            t.expect(len(e.amplitudes) == len(wa) and set(ga) == {x[:2] for x in wa}, "one amplitude per measurement", got=sorted(ga), want=sorted(x[:2] for x in wa))
            for i, ph, a, nz, per, tm, ml in wa:
                g = ga[i, ph]
                t.close(g.generic_amplitude, a, "amplitude in metres", rtol=1e-9, which=(i, ph))
                t.close(g.generic_amplitude_errors.uncertainty, nz, "noise amplitude in metres", rtol=1e-9, which=(i, ph))
                t.close(g.period, per, "period", rtol=1e-9, which=(i, ph))
                t.expect(g.time_window.reference == tm and g.unit == "m", "time of the amplitude", which=(i, ph))
            ms = [x for x in wa if x[1] == lph and not math.isnan(x[6])]
            t.close(sorted(m.mag for m in e.station_magnitudes), sorted(float(f"{x[6]:.3g}") for x in ms), "station magnitudes of the chosen phase", rtol=1e-9)
            t.close([e.preferred_magnitude().mag, e.preferred_magnitude().mag_errors.uncertainty], [1.23, 0.12], "network magnitude")
            t.equal(e.preferred_magnitude().station_count, len(ms), "number of station magnitudes")
    if t.i % 10 == 0:
        t.raises(AttributeError, lambda: rd(str(run.path), "feet", run_subname=sub), "unknown units are refused")


def make_event(t, n):
    """an ObsPy event as exported, with picks at awkward times"""
    from obspy import UTCDateTime
    from obspy.core.event import Event, Origin, Pick, WaveformStreamID
    rng = t.rng
    frac = [0.0, 0.000001, 0.000049, 0.05, 0.001234, 0.5, 0.999949, 0.1, 0.012345, 0.9, 0.00005]
    base = UTCDateTime(str(rng.choice(["2021-12-31T23:59:59", "2020-02-29T00:00:00", "2021-03-04T05:06:07", "2021-10-10T10:10:09", "2022-01-01T00:00:09"])))
    e = Event()
    e.resource_id = uid(base)
    o = Origin()
    o.time = base + frac[int(rng.integers(0, len(frac)))]
    o.longitude, o.latitude, o.depth = 1.0, 2.0, 3000.0
    e.origins = [o]
    e.preferred_origin_id = o.resource_id
    want = []
    for s in [str(v) for v in rng.permutation(NAMES)[:n]]:
        for ph in "PS":
            for m in ("modelled", "autopick"):
                if m == "autopick" and rng.random() < 0.4:
                    continue
                p = Pick()
                p.waveform_id = WaveformStreamID(network_code="", station_code=s)
                p.method_id, p.phase_hint = m, ph
                p.time = base + int(rng.integers(0, 70)) + frac[int(rng.integers(0, len(frac)))]
                err = None
                if m == "autopick":
                    err = float(f"{rng.uniform(0.001, 2):.3g}")
                    p.time_errors.uncertainty = err
                e.picks.append(p)
                want.append((s, ph, m, p.time, err))
    return e, o, want


@check("C26", quick=60, thorough=800, fn="export.to_nlloc.nlloc_obs")
def nonlinloc_file(t):
    """exactly the picks of the chosen kind, with full date, time and error"""
    f = get("quakemigrate.export.to_nlloc", "nlloc_obs")
    from obspy import UTCDateTime
    e, o, picks = make_event(t, int(t.rng.integers(0, 5)))
    p = str(pathlib.Path(t.tmp) / "x.obs")
    t.note(picks=[(s, ph, m, str(x), err) for s, ph, m, x, err in picks])
    for auto in ((None, True), (False, False))[t.i % 2]:
        f(e, p, **({} if auto is None else {"autopick": auto}))
        want = [q for q in picks if q[2] == ("modelled" if auto is False else "autopick")]
        lines = [x for x in open(p).read().split("\n") if x.strip()]
        t.expect(len(lines) == len(want), "one line per pick of the chosen kind", got=lines, want=len(want))
        got = []
        for ln in lines:
            c = ln.split()
            t.expect(len(c) >= 11 and c[9] == "GAU", "fields of a phase line", line=ln)
            tm = UTCDateTime(int(c[6][:4]), int(c[6][4:6]), int(c[6][6:8]), int(c[7][:2]), int(c[7][2:4])) + float(c[8])
            got.append((c[0], c[4], tm, float(c[10])))
        left = list(want)
        for s, ph, tm, er in got:
            k = [q for q in left if q[0] == s and q[1] == ph]
            t.expect(len(k) == 1, "each pick once", got=(s, ph), want=[q[:3] for q in want])
            left.remove(k[0])
            t.expect(abs(tm - k[0][3]) <= 0.5001e-4, "the instant of the pick", got=str(tm), want=str(k[0][3]), station=s)
            if k[0][4] is not None:
                t.close(er, float(f"{k[0][4]:.2e}"), "the error of the pick", rtol=1e-9, station=s)


@check("C26", quick=60, thorough=800, fn="export.to_snuffler.snuffler_markers, snuffler_stations")
def snuffler_files(t):
    """times denote the instants of origin and picks; each station has its own network code"""
    import pandas as pd
    from obspy import UTCDateTime
    f = get("quakemigrate.export.to_snuffler", "snuffler_markers")
    g = get("quakemigrate.export.to_snuffler", "snuffler_stations")
    rng = t.rng
    e, o, picks = make_event(t, int(rng.integers(0, 5)))
    t.note(origin=str(o.time), picks=[(s, ph, m, str(x)) for s, ph, m, x, _ in picks])
    fn = "m.txt" if t.i % 2 else None
    f(e, t.tmp, **({"filename": fn} if fn else {}))
    p = [q for q in pathlib.Path(t.tmp).rglob("*") if q.is_file()]
    t.expect(len(p) == 1, "one marker file", got=[str(q) for q in p])
    tm = r"(\d{4}-\d\d-\d\d) (\d\d:\d\d:\d\d(?:\.\d+)?)"
    gotp, goto = [], []
    for ln in p[0].read_text().split("\n"):
        if ln.startswith("#") or not ln.strip():
            continue
        m = re.match(r"(phase|event): +" + tm + r" +(.*)$", ln)
        t.expect(m is not None, "a marker line", line=ln)
        when = UTCDateTime(f"{m.group(2)}T{m.group(3)}")
        rest = m.group(4).split()
        if m.group(1) == "event":
            goto.append(when)
        else:
            gotp.append((rest[1].split(".")[1], rest[5], when.ns))
    t.expect([w.ns // 1000 for w in goto] == [o.time.ns // 1000], "the time of the event marker is the origin time", got=[str(v) for v in goto], want=str(o.time))
    want = sorted((s, ph, x.ns) for s, ph, m, x, _ in picks)
    t.expect(sorted(gotp) == want, "one marker per pick, at the instant of the pick", got=sorted(gotp), want=want)
    # stations
    n = int(rng.integers(1, 6))
    names = [str(v) for v in rng.permutation(NAMES)[:n]]
    df = pd.DataFrame({"Name": names, "Latitude": rng.uniform(-90, 90, n), "Longitude": rng.uniform(-180, 180, n), "Elevation": rng.uniform(-1, 2, n)})
    nets = None
    if t.i % 3:
        nets = [str(v) for v in rng.choice(["XX", "YY", "7A"], n)]
        df["Network"] = nets
    kw = {"network_code": "QQ"} if t.i % 5 == 4 else {}
    want = ["QQ"] * n if kw else nets or [""] * n
    g(df, t.tmp, "st.txt", **kw)
    lines = [x for x in (pathlib.Path(t.tmp) / "st.txt").read_text().split("\n") if x.strip()]
    t.note(stations=df.values.tolist(), network=kw)
    t.expect(len(lines) == n, "one line per station")
    for k, ln in enumerate(lines):
        c = ln.split()
        t.expect(c[0].split(".")[:2] == [want[k], names[k]], "each station with its own network code", got=c[0], want=f"{want[k]}.{names[k]}.")
        t.close([float(c[1]), float(c[2])], [df["Latitude"][k], df["Longitude"][k]], "station coordinates", rtol=1e-9)
