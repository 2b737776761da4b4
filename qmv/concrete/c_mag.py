"""Run-time contracts: local magnitudes (C19)."""
from __future__ import annotations

import math
import re

import numpy as np

from .api import Skip, check, get

LOGA0 = {
    "keir2006": lambda d: 1.196997 * math.log10(d / 17.0) + 0.001066 * (d - 17.0) + 2.0,
    "Danakil2017": lambda d: 1.274336 * math.log10(d / 17.0) - 0.000273 * (d - 17.0) + 2.0,
    "Greenfield2018_askja": lambda d: 1.4406 * math.log10(d / 17.0) + 0.003 * (d - 17.0) + 2.0,
    "Greenfield2018_bardarbunga": lambda d: 1.2534 * math.log10(d / 17.0) + 0.0032 * (d - 17.0) + 2.0,
    "Greenfield2018_comb": lambda d: 1.1999 * math.log10(d / 17.0) + 0.0016 * (d - 17.0) + 2.0,
    "Hutton-Boore": lambda d: 1.11 * math.log10(d / 100.0) + 0.00189 * (d - 100.0) + 3.0,
    "Langston1998": lambda d: 0.776 * math.log10(d / 17.0) + 0.000902 * (d - 17) + 2.0,
    "UK": lambda d: 1.11 * math.log10(d) + 0.00189 * d - 1.16 * math.exp(-0.2 * d) - 2.09,
}
COLS = ["epi_dist", "z_dist", "P_amp", "P_freq", "P_time", "P_avg_amp", "P_filter_gain", "S_amp", "S_freq", "S_time",
        "S_avg_amp", "S_filter_gain", "Noise_amp", "is_picked"]
nan = float("nan")


def table(rng, n, i):
    import pandas as pd
    ids, rows = [], []
    gains = i % 3                      # no filter; all; all but where no amplitude
    for k in range(n):
        ids.append(f"XX.ST{k // 3}.{'' if k % 2 else '00'}.HH{'ZNE'[k % 3]}")
        noise = 10 ** rng.uniform(-4, -2)
        r = {"epi_dist": float(np.round(rng.uniform(0.5, 120), 3)), "z_dist": float(np.round(rng.uniform(0.5, 20), 3)), "Noise_amp": noise,
             "is_picked": bool(rng.integers(0, 2)), "P_time": None, "S_time": None}
        for p in "PS":
            r[f"{p}_amp"] = noise * 10 ** rng.uniform(-0.7, 3)
            r[f"{p}_freq"] = float(rng.uniform(1, 10))
            r[f"{p}_avg_amp"] = noise
            r[f"{p}_filter_gain"] = float(rng.uniform(0.3, 1.0)) if gains else nan
        u = int(rng.integers(0, 9)) if n > 1 else int(rng.integers(0, 20))
        if u == 0:
            r["S_amp"] = r["P_amp"] = 0.0
        if u == 1:
            r["S_amp"] = r["P_amp"] = nan
            if gains == 2:
                r["S_filter_gain"] = r["P_filter_gain"] = nan
        if u == 2:
            r["Noise_amp"] = nan
        if u == 3 and i % 2:
            r["epi_dist"] = 0.0
        rows.append(r)
    return pd.DataFrame(rows, columns=COLS, index=ids)


def ref_mags(df, P):
    f = P["amp_feature"]
    g = df[f"{f[0]}_filter_gain"]
    filt = g.notnull().any()
    A0 = P["A0"] if callable(P["A0"]) else LOGA0[P["A0"]]
    out = []
    for tid, r in df.iterrows():
        a, nz = r[f] * P["amp_multiplier"], r["Noise_amp"] * P["amp_multiplier"]
        if filt:
            nz = nz / r[f"{f[0]}_filter_gain"]
        d = math.hypot(r["epi_dist"], r["z_dist"]) if P["use_hyp_dist"] else r["epi_dist"]
        c = P["station_corrections"].get(tid, 0.0)
        if math.isnan(a) or a == 0 or a < nz or d == 0:
            out.append((nan, nan, d, nz, c))
            continue
        att = float(A0(d))
        ml = math.log10(a) + att + c
        e = nan if math.isnan(nz) else (math.log10(a + nz) - math.log10(a - nz) if a > nz else math.inf)
        out.append((ml, e, d, nz, c))
    return out


def params(t, n, ids):
    rng = t.rng
    A0 = list(LOGA0)[t.i % 8] if t.i % 9 else (lambda d: 1.3 * np.log10(d) + 0.002 * d + 0.5)
    P = {"A0": A0, "use_hyp_dist": bool((t.i // 2) % 2), "amp_feature": ["S_amp", "P_amp"][(t.i // 4) % 2],
         "station_corrections": {x: float(np.round(rng.normal(0, 0.3), 2)) for x in ids if rng.random() < 0.5},
         "amp_multiplier": float([1.0, 2080.0 / 2800.0, 0.5][t.i % 3]), "weighted_mean": bool((t.i // 3) % 2)}
    P["noise_filter"] = float([1.0, 3.0, 0.0, 0.6][(t.i // 5) % 4])
    P["trace_filter"] = [None, ".*H[NE]$", "ST[01]", "Z"][(t.i // 2) % 4]
    P["station_filter"] = [None, ["ST0"], ["ST1", "T2", "S"]][t.i % 3]
    P["dist_filter"] = [False, 60.25051, 20.00012][(t.i // 7) % 3]
    P["pick_filter"] = bool((t.i // 6) % 2)
    P["r2_only_used"] = bool(t.i % 4)
    return P


@check("C19", quick=200, thorough=4000, fn="signal.local_mag.magnitude.Magnitude.calculate_magnitudes, mean_magnitude and everything below them")
def magnitudes(t):
    """channel magnitudes, filters, network magnitude, error and goodness of fit"""
    M = get("quakemigrate.signal.local_mag.magnitude", "Magnitude")
    n = int(t.rng.integers(1, 14))
    df = table(t.rng, n, t.i)
    P = params(t, n, list(df.index))
    if t.i % 10 == 0:      # everything switched off
        P.update(trace_filter=None, station_filter=None, dist_filter=False, pick_filter=False)
    t.note(params={k: (v if not callable(v) else "function") for k, v in P.items()}, table=df[["epi_dist", "z_dist", P["amp_feature"], "Noise_amp", P["amp_feature"][0] + "_filter_gain", "is_picked"]].to_dict("list"), ids=list(df.index))
    m = M(dict(P))
    before = df.copy(deep=True)
    got = m.calculate_magnitudes(df)
    t.expect(df.equals(before), "the amplitude table passed in is unchanged", changed=[c for c in df if not df[c].equals(before[c])])
    t.expect(all(got[c].equals(before[c]) for c in COLS), "measured distances and amplitudes are carried over", changed=[c for c in COLS if not got[c].equals(before[c])])
    ref = ref_mags(before, P)
    t.close(got["ML"].values.astype(float), [r[0] for r in ref], "channel magnitudes", rtol=1e-9, atol=1e-9)
    t.close(got["ML_Err"].values.astype(float), [r[1] for r in ref], "errors of the channel magnitudes", rtol=1e-9, atol=1e-9)
    f = P["amp_feature"]
    flags = {}
    used = []
    for (tid, r), (ml, e, d, nz, c) in zip(before.iterrows(), ref):
        fl = {"has": not (math.isnan(r[f]) or math.isnan(nz)),
              "noise": P["noise_filter"] == 0 or r[f] > nz / P["amp_multiplier"] * P["noise_filter"],
              "trace": P["trace_filter"] is None or bool(re.search(P["trace_filter"], tid)),
              "station": P["station_filter"] is None or tid.split(".")[1] not in P["station_filter"],
              "dist": not P["dist_filter"] or d <= P["dist_filter"],
              "pick": not P["pick_filter"] or r["is_picked"], "ml": not math.isnan(ml)}
        flags[tid] = fl
        used.append(all(fl.values()))
    need_r2 = not P["r2_only_used"]
    try:
        mean, err, r2, tab = m.mean_magnitude(got)
    except AttributeError:
        t.expect(need_r2 and P["noise_filter"] <= 0 and any(used), "the goodness-of-fit mode without noise filter is refused, nothing else")
        return
    u = [q for q, x in zip(ref, used) if x]
    got_used = sorted(tab.index[tab["Used"].astype(bool)])
    t.equal(got_used, sorted(i for i, x in zip(before.index, used) if x), "exactly the observations passing every filter are used", flags={k: [a for a, b in v.items() if not b] for k, v in flags.items()})
    t.expect(all(tab.loc[i, "epi_dist"] == before.loc[i, "epi_dist"] for i in tab.index), "distances are kept")
    if not u:
        t.expect(all(math.isnan(x) for x in (mean, err, r2)), "no value when nothing passes", got=(mean, err, r2))
        return
    ml = np.array([q[0] for q in u])
    w = np.array([1 / q[1] ** 2 for q in u]) if P["weighted_mean"] else np.ones(len(u))
    if not np.isfinite(w).all() or w.sum() == 0:
        raise Skip("no finite error to weight by")
    want = float((ml * w).sum() / w.sum())
    t.close(mean, want, "network magnitude", rtol=1e-9, atol=1e-9)
    t.expect(ml.min() - 1e-9 <= mean <= ml.max() + 1e-9, "between the smallest and the largest magnitude", got=mean, lo=ml.min(), hi=ml.max())
    if len(u) == 1:
        t.close(err, u[0][1], "error of a single observation", rtol=1e-9)
    elif not P["weighted_mean"]:
        t.close(err, math.sqrt(((ml - mean) ** 2).mean()), "error: spread of the observations", rtol=1e-9, atol=1e-12)
    # goodness of fit
    A0 = P["A0"] if callable(P["A0"]) else LOGA0[P["A0"]]
    obs = []
    for (tid, r), (m_, e, d, nz, c), x in zip(before.iterrows(), ref, used):
        fl = flags[tid]
        keep = x
        if need_r2:
            keep = fl["has"] and fl["trace"] and fl["station"] and fl["dist"]
            if keep and not fl["noise"]:
                if d == 0:
                    raise Skip("zero distance in the goodness of fit")
                q = 10 ** (mean - float(A0(d))) / (nz * 10 ** c)
                if abs(q - 5) < 1e-6:
                    raise Skip("on the limit")
                keep = q >= 5
            if keep and (r[f] == 0 or d == 0):
                raise Skip("zero amplitude or distance kept in the goodness of fit")
        if keep:
            obs.append((math.log10(r[f] * P["amp_multiplier"]) + c, mean - float(A0(d))))
    if len(obs) < 2:
        t.expect(math.isnan(r2), "no goodness of fit from fewer than two observations", got=r2)
        return
    o, p = np.array(obs).T
    v = ((o - o.mean()) ** 2).sum()
    if v < 1e-12:
        return
    t.close(r2, (v - ((o - p) ** 2).sum()) / v, "goodness of fit from the observations the chosen mode retains", rtol=1e-7, atol=1e-9, retained=len(obs))


@check("C19", quick=40, thorough=600, fn="signal.local_mag.magnitude.Magnitude._mag_r_squared")
def goodness_of_fit(t):
    """the mode that keeps observations where the signal would be expected above the noise: noise near a fifth of the predicted amplitude"""
    import pandas as pd
    M = get("quakemigrate.signal.local_mag.magnitude", "Magnitude")
    rng = t.rng
    n = int(rng.integers(4, 12))
    ids = [f"XX.ST{k // 3}..HH{'ZNE'[k % 3]}" for k in range(n)]
    A0n = list(LOGA0)[t.i % 8]
    A0 = LOGA0[A0n]
    mult = float([1.0, 0.5][t.i % 2])
    corr = {x: float(np.round(rng.normal(0, 0.3), 2)) for x in ids if rng.random() < 0.5}
    rows, M0 = [], float(rng.uniform(0, 2))
    strong = [True, True] + [bool(v) for v in rng.integers(0, 2, n - 2)]
    for x, up in zip(ids, strong):
        ed, zd = float(np.round(rng.uniform(5, 80), 3)), float(np.round(rng.uniform(2, 15), 3))
        pred = 10 ** (M0 - float(A0(math.hypot(ed, zd)))) / mult / 10 ** corr.get(x, 0.0)
        amp = pred * 10 ** rng.normal(0, 0.05)
        noise = amp / rng.uniform(20, 50) if up else pred / rng.uniform(4.0, 6.5)
        rows.append({"epi_dist": ed, "z_dist": zd, "P_amp": amp, "S_amp": amp, "Noise_amp": noise, "is_picked": True, **{f"{p}_{q}": (nan if q == "filter_gain" else None if q == "time" else 1.0)
                     for p in "PS" for q in ("freq", "time", "avg_amp", "filter_gain")}})
    df = pd.DataFrame(rows, columns=COLS, index=ids)
    only = t.i % 3 == 2
    m = M({"A0": A0n, "use_hyp_dist": True, "amp_feature": "S_amp", "station_corrections": corr, "amp_multiplier": mult, "noise_filter": 15.0, "r2_only_used": only})
    mean, err, r2, tab = m.mean_magnitude(m.calculate_magnitudes(df))
    t.note(law=A0n, corrections=corr, amp_multiplier=mult, only_used=only, mean=mean, table=df[["epi_dist", "z_dist", "S_amp", "Noise_amp"]].to_dict("list"))
    t.equal(sorted(tab.index[tab["Used"].astype(bool)]), sorted(x for x, u in zip(ids, strong) if u), "exactly the observations well above the noise are used")
    o, p = [], []
    for x, u, r in zip(ids, strong, rows):
        d = math.hypot(r["epi_dist"], r["z_dist"])
        q = 10 ** (mean - float(A0(d))) / (r["Noise_amp"] * mult * 10 ** corr.get(x, 0.0))
        if abs(q - 5) < 1e-6:
            raise Skip("on the limit")
        if u or not only and q >= 5:
            o.append(math.log10(r["S_amp"] * mult) + corr.get(x, 0.0))
            p.append(mean - float(A0(d)))
    o, p = np.array(o), np.array(p)
    v = ((o - o.mean()) ** 2).sum()
    t.close(r2, (v - ((o - p) ** 2).sum()) / v, "goodness of fit from the observations the chosen mode retains", rtol=1e-7, atol=1e-9, retained=len(o))


@check("C19", quick=10, thorough=20, fn="signal.local_mag.magnitude.Magnitude.__init__, _logA0")
def mag_settings(t):
    M = get("quakemigrate.signal.local_mag.magnitude", "Magnitude")
    t.raises(TypeError, lambda: M({"amp_feature": "S_amp"}), "an attenuation function must be given")
    m = M({"A0": "nonsense"})
    t.raises(ValueError, lambda: m.calculate_magnitudes(table(t.rng, 3, 0)), "an unknown attenuation function is rejected")
