"""Contracts on the settings of the objects a user makes: every setting given is the one the object works with."""
from __future__ import annotations

import types

import z3

from .. import core, loader
from ..core import C, SNum, oblige
from .base import contract
from .filec import Place
from .gridc import PyprojModel, reals


def kept(o, given, label="the setting given is the one in use"):
    for k, v in given.items():
        g = getattr(o, k, None)
        oblige(f"{label}: {k}", z3.BoolVal(g is v or isinstance(v, (bool, int, str, list, dict)) and g == v) if not isinstance(v, SNum) or not isinstance(g, SNum) else g.e == v.e)


def numbers(*names):
    return dict(zip(names, reals(*["set_" + n for n in names])))


def some(*names):
    """each setting given or not"""
    return {n: object() for n in names}


@contract("trigger.Trigger settings", "C09 C11 C12", "signal/trigger.py:Trigger.__init__, signal/trigger.py:Trigger.minimum_repeat",
          ["Run by its own contract"])
def trigger_init():
    w = loader.World(models={"pyproj": PyprojModel("pyproj")})
    m = w.module("quakemigrate.signal.trigger")
    runs = []

    def run(*a, **k):
        runs.append((a, k))
        return types.SimpleNamespace(logger=lambda *a: None)
    m.Run = run
    how = ["static", "mad", "median_ratio", "dynamic", None][C.choose(5, "method")]
    mine = {"static": ["static_threshold"], "mad": ["mad_window_length", "mad_multiplier"], "median_ratio": ["median_window_length", "median_multiplier"],
            "dynamic": ["mad_window_length", "mad_multiplier"], None: ["static_threshold"]}[how]
    given = numbers("marginal_window", "min_event_interval", "pad", "smoothing_kernel_sigma", "smoothing_kernel_width", *mine)
    given.update(normalise_coalescence=bool(C.choose(2, "normalise")), smooth_coa=bool(C.choose(2, "smooth")), write_event_time_windows=True, plot_trigger_summary=False)
    C.assume(z3.And(given["marginal_window"].e > 0, given["min_event_interval"].e >= 2 * given["marginal_window"].e))
    legacy = C.choose(2, "old name of the interval") == 1
    kw = dict(given)
    if legacy:
        kw["minimum_repeat"] = kw.pop("min_event_interval")
        C.assume(z3.And(given["marginal_window"].e <= 2, given["min_event_interval"].e != 0))
    if how:
        kw["threshold_method"] = how
    lut = object()
    t = m.Trigger(lut, "path", "name", trigger_name="sub", **kw)
    kept(t, given)
    oblige("the lookup table given", z3.BoolVal(t.lut is lut))
    oblige("the run and sub-name given", z3.BoolVal(len(runs) == 1 and runs[0][0][:4] == ("path", "name", "sub", "trigger")))
    oblige("the method given", z3.BoolVal(t.threshold_method == {None: "static", "dynamic": "mad"}.get(how, how)))


@contract("picker.GaussianPicker settings", "C18", "signal/pickers/gaussian.py:GaussianPicker.__init__, signal/pickers/base.py:PhasePicker.__init__, signal/pickers/gaussian.py:GaussianPicker.pick_threshold, signal/pickers/gaussian.py:GaussianPicker.fraction_tt")
def picker_init():
    w = loader.World()
    m = w.module("quakemigrate.signal.pickers.gaussian")
    m.print = lambda *a, **k: None
    how = ["MAD", "percentile", None, "other"][C.choose(4, "method")]
    given = numbers(*{"MAD": ["mad_pick_threshold"], "percentile": ["percentile_pick_threshold"], None: ["mad_pick_threshold"]}.get(how, []))
    given["plot_picks"] = False
    kw = dict(given)
    if how:
        kw["threshold_method"] = how
    frac = C.choose(2, "fraction of the traveltime given")
    if frac:
        kw["fraction_tt"], = reals("fraction")
    onset = object()
    try:
        p = m.GaussianPicker(onset=onset, **kw)
    except Exception as x:
        if type(x).__name__ != "InvalidPickThresholdMethodException":
            raise
        oblige("only unknown methods are refused", z3.BoolVal(how == "other"))
        return
    oblige("unknown methods are refused", z3.BoolVal(how != "other"))
    kept(p, given)
    oblige("the onset object given", z3.BoolVal(p.onset is onset))
    oblige("the method given", z3.BoolVal(p.threshold_method == (how or "MAD")))
    oblige("the fraction of the traveltime given, if any", p.fraction_tt.e == kw["fraction_tt"].e if frac else z3.BoolVal(p.fraction_tt is None))


@contract("amplitude.Amplitude settings", "C20", "signal/local_mag/amplitude.py:Amplitude.__init__")
def amplitude_init():
    w = loader.World()
    m = w.module("quakemigrate.signal.local_mag.amplitude")
    given = numbers("signal_window", "noise_window", "prominence_multiplier")
    given.update(noise_measure="STD", loc_method="gaussian", filter_corners=3)
    hp, bp = C.choose(3, "highpass"), C.choose(4, "bandpass")
    if hp:
        given["highpass_filter"] = True
        if hp == 1:
            given.update(numbers("highpass_freq"))
    if bp:
        given["bandpass_filter"] = True
        if bp in (1, 2):
            given.update(numbers("bandpass_lowcut"))
        if bp in (1, 3):
            given.update(numbers("bandpass_highcut"))
    old = ["", "water_level", "pre_filt", "remove_full_response"][C.choose(4, "moved setting")]
    kw = dict(given)
    if old:
        kw[old] = 1
    bad = bool(old) or hp == 2 or bp in (2, 3) or (hp and bp)
    try:
        a = m.Amplitude(kw)
    except AttributeError as x:
        if not core_free(x):
            raise
        oblige("only settings that cannot be worked with are refused", z3.BoolVal(bool(bad)))
        return
    oblige("settings that cannot be worked with are refused", z3.BoolVal(not bad))
    kept(a, given)
    if not hp:
        oblige("no highpass filter unless asked for", z3.BoolVal(not a.highpass_filter))
    if not bp:
        oblige("no bandpass filter unless asked for", z3.BoolVal(not a.bandpass_filter))


def core_free(x):
    return bool(x.args) and any(w in str(x.args[0]) for w in ("ilter", "response removal"))


@contract("magnitude.Magnitude settings", "C19", "signal/local_mag/magnitude.py:Magnitude.__init__, signal/local_mag/local_mag.py:LocalMag.__init__")
def magnitude_init():
    w = loader.World()
    m = w.module("quakemigrate.signal.local_mag.magnitude")
    lm = w.module("quakemigrate.signal.local_mag.local_mag")
    a0 = C.choose(2, "attenuation given")
    given = numbers("amp_multiplier", "noise_filter", "dist_filter")
    given.update(use_hyp_dist=True, amp_feature="P_amp", station_corrections={"x": 1}, weighted_mean=True, trace_filter="T", station_filter=["S"], pick_filter=True, r2_only_used=False)
    kw = dict(given)
    if a0:
        kw["A0"] = given["A0"] = "Hutton-Boore"
    try:
        g = m.Magnitude(kw)
    except TypeError as x:
        if not x.args or "A0" not in str(x.args[0]):
            raise
        oblige("refused only without an attenuation law", z3.BoolVal(not a0))
        return
    oblige("an attenuation law is needed", z3.BoolVal(bool(a0)))
    kept(g, given)
    bare = m.Magnitude({"A0": "x"})
    oblige("no corrections and filters other than the noise level unless asked for", z3.BoolVal(
        not bare.station_corrections and bare.amp_multiplier == 1 and bare.trace_filter is None and bare.station_filter is None and not bare.dist_filter
        and not bare.pick_filter and bare.noise_filter == 1 and not bare.weighted_mean))
    lm.Amplitude, lm.Magnitude = lambda p: ("amp", p), lambda p: ("mag", p)
    o = lm.LocalMag("a", "m", plot_amplitudes=False)
    oblige("amplitudes and magnitudes by their own settings", z3.BoolVal(o.amp == ("amp", "a") and o.mag == ("mag", "m")))


@contract("data.Archive settings", "C22 C20", "io/data.py:Archive.__init__, io/data.py:WaveformData.__init__", ["path_structure by its own contract"])
def archive_init():
    w = loader.World(models={"pathlib": types.SimpleNamespace(Path=lambda p: Place((p,)))})
    m = w.module("quakemigrate.io.data")
    m.print = lambda *a, **k: None
    got = []
    m.Archive.path_structure = lambda s, f, c="*": got.append((f, c))
    given = dict(some("response_inv"), read_all_stations=True, resample=True, interpolate=True, upfactor=3)
    kw = dict(given)
    resp = {"water_level": 45, "pre_filt": [1, 2, 30, 40], "remove_full_response": True}
    how = C.choose(3, "removal settings")
    if how:
        kw["response_removal_params"] = dict(resp) if how == 1 else {}
    lay = C.choose(3, "layout")
    if lay == 2:
        kw["channels"] = "HH?"
    if lay == 0:
        kw["format"] = "own/layout"
    names = object()
    a = m.Archive("path", {"Name": names}, archive_format="YEAR/JD/STATION" if lay else None, **kw)
    kept(a, given)
    if how == 1:
        kept(a, resp)
    else:
        oblige("responses are removed with a water level of 60 unless asked for otherwise", z3.BoolVal(a.water_level == 60 and a.pre_filt is None and not a.remove_full_response))
    oblige("the stations given", z3.BoolVal(a.stations is names))
    oblige("the archive given", z3.BoolVal(isinstance(a.archive_path, Place) and a.archive_path.p == ("path",)))
    oblige("the layout given", z3.BoolVal(got == [("YEAR/JD/STATION", "HH?" if lay == 2 else "*")] if lay else not got and a.format == "own/layout"))
    w = some("starttime", "endtime", "stations", "response_inv", "water_level", "pre_filt", "remove_full_response", "read_all_stations", "resample", "upfactor", "pre_pad", "post_pad")
    kept(m.WaveformData(**w), w, "the data know")
