#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

Q = "quakemigrate/"
prop("C01", "Coalescence is the geometric mean of traveltime-shifted onsets",
 "For every grid node and scan sample, the 4-D coalescence map equals exp((1/A) * sum over onset functions of log(max(onset value, 0.01))) with each onset function read at its own non-negative (negative lookups act as zero) sample traveltime for that node plus the first-sample offset plus the sample number, A being the number of available onset functions. Map dimensions are the grid dimensions by (onset length - first offset - last offset), and the result does not depend on the number of threads. The caller's onset and traveltime arrays are not modified.",
 ["inputs", "schedules"], "all onset arrays, traveltime grids (any dimensions, any number of stations), offsets, availabilities, thread counts and OpenMP schedules",
 "No stable test computes a coalescence value: the only end-to-end numeric test needs a downloaded data set; indexing, shift and normalisation errors that cancel on one grid survive.",
 [Q+"core/src/migratelib.c", Q+"core/lib.py"],
 [("migrate (C kernel)", Q+"core/src/migratelib.c"), ("migrate (Python binding)", Q+"core/lib.py")],
 [("map4d", "4-D coalescence array filled in place by the C kernel")], ["return value of quakemigrate.core.migrate"])
prop("C02", "Peak coalescence, its grid node and its normalised value",
 "For every scan sample the reported peak coalescence equals the largest value over all grid nodes at that sample, the reported index is the flat (C-order) index of the first node attaining it, and the normalised peak equals peak times number of nodes divided by the sum over nodes. The map is not modified and the result is independent of the thread count. During a scan the reported coordinates for a sample are those of exactly that node.",
 ["inputs", "schedules"], "all 4-D maps (including negative values and ties), any grid dimensions, thread counts and OpenMP schedules",
 "No stable test calls the peak search; wrong tie handling, off-by-one node or wrong normalisation is invisible to the listed tests.",
 [Q+"core/src/migratelib.c", Q+"core/lib.py", Q+"signal/scan.py", Q+"lut/lut.py"],
 [("find_max_coa (C kernel)", Q+"core/src/migratelib.c"), ("find_max_coa (Python binding)", Q+"core/lib.py"), ("_compute", Q+"signal/scan.py"), ("index2coord(unravel)", Q+"lut/lut.py")])
prop("C03", "Compiled kernels stay inside their arrays and share nothing across threads",
 "Given onset arrays at least as long as first offset + last offset + 1, traveltimes no larger than the last offset, and STA/LTA windows that fit in the signal, the compiled routines read and write only inside the arrays they are given, never overflow their index arithmetic, and different loop iterations run by different threads never touch the same written location. Migrating with a number of traveltime layers different from the number of onset functions raises ValueError before any compiled code runs. The padding the onset object adds around a time window is always long enough that every traveltime served to the migration fits within the last offset.",
 ["inputs", "schedules", "configurations"], "all array sizes and contents satisfying the stated sizes, all thread counts/schedules, all sampling rates, window lengths, grids and maximum traveltimes",
 "Out-of-range reads and data races do not reliably change output, and depend on sizes and schedules that tests do not vary.",
 [Q+"core/src/migratelib.c", Q+"core/src/onsetlib.c", Q+"core/lib.py", Q+"signal/onsets/base.py", Q+"signal/onsets/stalta.py", Q+"lut/lut.py", Q+"util.py"],
 [("migrate/find_max_coa/overlapping_sta_lta/centred_sta_lta/recursive_sta_lta", Q+"core/src"), ("migrate size checks", Q+"core/lib.py"), ("pad / post_pad", Q+"signal/onsets/base.py, stalta.py"), ("serve_traveltimes", Q+"lut/lut.py")])
prop("C04", "STA/LTA onset functions equal their window definition in both backends",
 "For an STA window shorter than the LTA window, the overlapping STA/LTA onset at sample i is the mean of the last nsta samples divided by the mean of the last nlta samples (both windows ending at i), for i from nlta-1 to the end; the centred one is the mean of the nsta samples after i divided by the mean of the nlta samples ending at i, for i from nlta-1 up to nsta samples before the end. Every sample without a full pair of windows is exactly 1, as is a sample whose long-term average is zero. The compiled and the Python backends agree, and the input signal is left unchanged.",
 ["inputs"], "all non-negative signals of any length, and all window lengths nsta < nlta that fit in the signal",
 "The stable tests only exercise two simple signals; a running-sum or window-edge error that shows at other lengths, window ratios, or on the other backend is not excluded.",
 [Q+"core/src/onsetlib.c", Q+"core/lib.py", Q+"signal/onsets/stalta.py"],
 [("overlapping_sta_lta, centred_sta_lta (C)", Q+"core/src/onsetlib.c"), ("overlapping_sta_lta, centred_sta_lta (bindings)", Q+"core/lib.py"), ("overlapping_sta_lta_py, centred_sta_lta_py", Q+"signal/onsets/stalta.py")])
prop("C05", "A phase onset is the floored RMS of its component onsets",
 "The onset function for a station and phase equals the root-mean-square over components of the STA/LTA of each component's transformed signal (square, absolute value, envelope or squared envelope, as configured), raised to the configured minimum value wherever it is below it; a minimum below 0.01 is rejected. When a time span is given, the samples inside the tapered padding (taper length + LTA - 1 at the start, STA + taper length at the end) are neutral before combination (component value 1). The configured position (classic/centred) and backend select the matching STA/LTA routine, and the padding requested around a time span is long enough for the filter taper and for this neutral padding to lie outside the samples that are used for migration.",
 ["inputs", "configurations"], "all component waveforms, window lengths, positions, backends, signal transforms, minimum values and time spans",
 "The tests do not build an onset from a stream; combination, floor and taper interact with configuration in ways no test samples.",
 [Q+"signal/onsets/stalta.py", Q+"signal/onsets/base.py"],
 [("_onset", Q+"signal/onsets/stalta.py"), ("_trim_taper_pad", Q+"signal/onsets/stalta.py"), ("pad, pre_pad, post_pad", Q+"signal/onsets/base.py, stalta.py")])
prop("C06", "Onsets, traveltime tables and availability stay aligned by station and phase",
 "For every scan window the k-th onset function migrated and the k-th traveltime layer it is migrated with belong to the same station and phase, exactly the station-phase pairs reported available take part, and the availability used to normalise equals their number. A pair is reported available exactly when its data pass the availability checks, components failing the checks do not contribute, and if no pair is available the window is reported as a data-availability failure. Served traveltimes are the stored tables times the sampling rate, rounded to the nearest integer sample.",
 ["inputs", "configurations", "histories"], "all subsets of available station-phase pairs, station lists, phase lists and orders, traveltime tables and sampling rates",
 "Alignment only breaks for particular subsets and orders of available stations; the listed tests never run a partial-availability scan.",
 [Q+"signal/onsets/stalta.py", Q+"lut/lut.py", Q+"signal/scan.py"],
 [("calculate_onsets", Q+"signal/onsets/stalta.py"), ("serve_traveltimes/_serve_traveltimes", Q+"lut/lut.py"), ("_compute", Q+"signal/scan.py")])
prop("C07", "Continuous scan windows tile the requested time span",
 "A continuous scan from start to end processes ceil((end - start)/timestep) consecutive windows, the i-th covering exactly timestep * scan rate samples beginning at start + i * timestep, so that the output has no gap, no overlap and no sample outside the padded data read for it. A window whose data cannot be used contributes the same number of placeholder samples at the same times and an all-zero availability row, and the scan continues. Start after end is rejected, and one availability row, labelled with the window start time, is recorded per window.",
 ["inputs", "configurations", "fault_sequences"], "all start/end times, timesteps, scan rates, paddings, and any sequence of windows with missing or gappy data",
 "Needs whole-archive runs over many windows with failures in arbitrary positions; no stable test runs a scan.",
 [Q+"signal/scan.py", Q+"signal/onsets/base.py", Q+"io/scanmseed.py", Q+"util.py"],
 [("detect, _continuous_compute, _compute", Q+"signal/scan.py"), ("pad", Q+"signal/onsets/base.py"), ("append/empty", Q+"io/scanmseed.py"), ("write_availability", Q+"io/availability.py")])
prop("C08", "Continuous scan output is stored and read back without loss",
 "For windows of at most one day sampled on the grid of the scan rate, every coalescence sample appended to the continuous output is written to the file of its own UTC day, exactly once, in time order, also when a window crosses midnight or ends exactly at a day boundary, and the file contains no sample of another day. Reading a contiguous stored span back gives the original values within the stored precision (1e-5 for coalescence and normalised coalescence up to the clipping limit 21474, 1e-6 degrees for longitude and latitude, one millimetre for depth in either kilometre or metre grids) at the original sample times. Reading a time span with no stored data fails with the dedicated no-scan-data error.",
 ["inputs", "histories"], "all coalescence values and coordinates, unit conversion factors, window lengths, start times relative to midnight, and append/empty sequences",
 "No stable test writes or reads scan output; the midnight and clipping cases are reached only by particular histories.",
 [Q+"io/scanmseed.py"],
 [("append, empty, write, _data2trace / _write helpers", Q+"io/scanmseed.py"), ("read_scanmseed", Q+"io/scanmseed.py")])
prop("C09", "Trigger candidates are exactly the maximal runs at or above threshold",
 "The candidates reported for a stretch of coalescence data are in one-to-one, time-ordered correspondence with the maximal runs of consecutive samples at which the triggering trace is greater than or equal to the threshold. Each candidate carries the time, location and values of the sample of largest coalescence within its run. Its time window starts one minimum event interval before the peak if the run starts less than one marginal window before the peak, and otherwise (minimum event interval - marginal window) before the run starts, and ends symmetrically.",
 ["inputs", "configurations"], "all coalescence traces (plain or normalised), thresholds (constant or varying), marginal windows and minimum event intervals",
 "The tests check smoothing and thresholds only; run detection at array ends, adjacent runs and ties is not sampled.",
 [Q+"signal/trigger.py"], [("_identify_candidates", Q+"signal/trigger.py")])
prop("C10", "Overlapping candidates merge into single triggered events",
 "Two consecutive candidates stay separate exactly when the first one's window ends before the second peak minus the marginal window and the second one's window starts after the first peak plus the marginal window; every maximal chain of non-separate neighbours becomes one event. The event takes time, location and values from its candidate with the largest triggering value, and its window is the union (earliest start to latest end) of theirs. Every event has the 17-digit identifier made from its peak time (year to millisecond), and every candidate belongs to exactly one event.",
 ["inputs", "configurations"], "all time-ordered candidate lists and marginal windows",
 "Merging chains depend on relations between several neighbouring candidates that tests never build.",
 [Q+"signal/trigger.py"], [("_refine_candidates", Q+"signal/trigger.py")])
prop("C11", "Triggering covers the requested time span and region, day by day",
 "A trigger run over [start, end] processes consecutive batches that begin at start, break at every UTC midnight, end at end, and neither overlap nor leave a gap; start after end is rejected. Within a batch the events kept are exactly those whose peak time lies within the batch (both ends included, except that a batch ending at midnight ends one sample before it) and, when a region is given, whose peak location lies inside the closed box [xmin, ymin, zmin, xmax, ymax, zmax]. No event is reported in two batches, and each batch's events are written under its own day.",
 ["inputs", "configurations", "histories"], "all start/end times, regions and candidate lists",
 "Only particular start/end times relative to midnight, and events exactly on a limit, distinguish correct from incorrect; no test calls it.",
 [Q+"signal/trigger.py", Q+"io/triggered_events.py"],
 [("trigger, _trigger_batch, _filter_events", Q+"signal/trigger.py"), ("write_triggered_events", Q+"io/triggered_events.py")])
prop("C12", "Trigger thresholds follow the configured method on every chunk",
 "The threshold trace has one value per input sample: the configured constant for the static method; for the MAD method, the median of the sample's chunk plus the multiplier times 1.4826 times its median absolute deviation; for the median-ratio method, the multiplier times the chunk's median. Chunks are consecutive blocks of (window length * sampling rate, rounded to the nearest integer) samples counted from the first sample, the last one possibly shorter. A minimum event interval below twice the marginal window and an unknown threshold method are rejected, and the legacy method name 'dynamic' selects MAD.",
 ["inputs", "configurations"], "all traces of any length, window lengths, multipliers and sampling rates",
 "The stable tests compare a few fixed traces; chunk boundaries for arbitrary lengths and the last short chunk are not covered.",
 [Q+"signal/trigger.py", Q+"util.py"], [("_get_threshold, chunks2trace, setters", Q+"signal/trigger.py"), ("calculate_mad", Q+"util.py")])
prop("C13", "Grid indices, grid coordinates and geographic coordinates round-trip",
 "The grid places node (i, j, k) at lower-left corner + index * spacing, has the smallest node counts whose last node reaches or passes the upper-right corner, and converting a node index to coordinates and back returns the same index, with flat indices unravelled in C order; positions between nodes map to the nearest node. Non-positive node counts or spacings are rejected and a scalar spacing applies to all axes. Decimating by (dx, dy, dz) keeps traveltimes at every dx-th, dy-th, dz-th node, and each kept value stays attached to the coordinates it had before.",
 ["inputs", "configurations"], "all grid specifications, projections, indices and decimation factors",
 "Errors appear only for particular corners, spacings or decimation remainders; no stable test builds a grid.",
 [Q+"lut/lut.py"], [("Grid3D: __init__, decimate, index2grid, coord2grid, index2coord, setters, grid_corners, get_grid_extent, grid_xyz", Q+"lut/lut.py")])
prop("C14", "Traveltime tables hold source-to-receiver times of the velocity model",
 "For a homogeneous model every node's traveltime equals its straight-line distance to the station divided by the phase velocity; for tables interpolated from a 2-D (distance, depth) traveltime section, every node gets the bilinear interpolation of the section at its own epicentral distance and depth, wherever the section starts. A traveltime query at a node returns that node's stored value for exactly the stations and phase asked, and the maximum traveltime is the largest over all tables. An unknown method, or a method lacking the inputs it needs, is rejected with an error instead of producing a table. Tables read from NonLinLoc grids keep the node count, spacing, projection and times of those grids.",
 ["inputs", "configurations"], "all grids, station positions, velocities, sections and origins, methods",
 "No stable test computes a table; an error for off-origin sections or particular station geometry is not sampled.",
 [Q+"lut/create_lut.py", Q+"lut/lut.py"],
 [("compute_traveltimes, _compute_homogeneous, _bilinear_interpolate, _compute_1d_nlloc", Q+"lut/create_lut.py"), ("traveltime_to, _serve_traveltimes, max_traveltime", Q+"lut/lut.py")])
prop("C15", "Lookup tables survive saving, loading, combining and comparing",
 "Saving a lookup table and reading it back gives a table equal in grid, phases, stations, velocity model and traveltimes, whichever of the provided ways of loading is used. Two tables compare equal exactly when their grid definitions (corners, node spacing and projections) agree. Adding two such tables gives the traveltimes of all stations of both, keeping the first table's for a station present in both, and leaves the second table unchanged; tables on different grids are not combined.",
 ["inputs", "histories"], "all lookup tables, station sets and overlaps, and save/load/add sequences",
 "No stable test builds, saves or combines lookup tables.",
 [Q+"lut/lut.py", Q+"io/core.py"], [("save, load, __init__, __add__, __eq__", Q+"lut/lut.py"), ("read_lut", Q+"io/core.py")])
prop("C16", "An event's origin time and windows follow the coalescence peak",
 "The origin time of a located event is the time stamp of the first sample of maximum coalescence in the scanned window, whose time stamps start two marginal windows before the trigger time and are spaced by one sample. An event is kept only if its trigger time is strictly within one marginal window of the origin time, and after trimming both the coalescence series and the 4-D map cover the same samples: those within one marginal window of the origin time. The event's hypocentre is the spline (interpolated maximum-coalescence) location unless another method is requested, and its uncertainty accessor returns the values stored for the requested method (the gaussian fit by default).",
 ["inputs", "configurations"], "all coalescence series (ties included), marginal windows, scan rates and trigger times",
 "No stable test builds an event; off-by-one errors in trimming and window comparisons only show for particular sample alignments.",
 [Q+"io/event.py", Q+"signal/scan.py"], [("add_compute_output, in_marginal_window, mw_times, trim2window, get_hypocentre, get_loc_uncertainty, max_coalescence", Q+"io/event.py")])
prop("C17", "Locations and uncertainties are moments of the marginalised coalescence",
 "The marginalised map is the time sum of the 4-D coalescence map scaled to a maximum of one. The covariance location is the coalescence-weighted mean position of the nodes retained by the threshold, and its uncertainties are the square roots of the weighted variances along each axis, reported with their geometric mean; every retained node's weight is its own map value. The spline location lies within the grid and falls back to the maximum-coalescence node when the grid cuts the fit window so that it is no cube, masks and windows around a node never index outside the grid, and the gaussian location is the stationary point of the quadratic surface fitted to minus the logarithm of the smoothed map above its mean, over the nodes around its maximum; neither smoothing nor fitting changes the map.",
 ["inputs"], "all 4-D maps, grid shapes and spacings, and positions of the maximum (including grid edges)",
 "No stable test locates an event; edge-of-grid maxima and asymmetric maps are not sampled.",
 [Q+"signal/scan.py", Q+"io/event.py"], [("_calculate_location, _covfit3d, _splineloc, _gaufit3d, _gaufilt3d, _mask3d", Q+"signal/scan.py"), ("add_covariance_location", Q+"io/event.py")])
prop("C18", "Phase-pick windows do not overlap and picks lie inside their window",
 "Each phase is searched for in a window centred on its modelled arrival (origin time + traveltime) of half-width traveltime * uncertainty fraction + marginal window, clipped to the data and cut at the midpoint between neighbouring arrivals, in whatever order the phases are listed, so that windows of one station never overlap. A pick is reported only if the onset exceeds the noise-derived threshold in at least two consecutive samples containing the window's maximum, and its time then lies strictly inside the window; otherwise pick time, error and value are all -1. The threshold is computed only from samples outside all windows of the station and above 1, as their percentile or as median + multiplier * MAD, no pick is made when there are none, and the residual is pick time minus modelled time.",
 ["inputs", "configurations"], "all onset functions, arrival times and orders of phases, window widths, thresholds and methods",
 "No stable test runs the picker; overlapping arrivals, clipped windows and failed fits are not sampled.",
 [Q+"signal/pickers/gaussian.py", Q+"util.py"], [("_determine_window, _distinguish_windows, _find_pick_threshold, _fit_gaussian, _find_peak, _pick_failure, pick_phases", Q+"signal/pickers/gaussian.py")])
prop("C19", "Local magnitudes follow the Richter form with the chosen filters",
 "Each channel magnitude is log10(amplitude * multiplier) + attenuation(distance) + station correction, with no magnitude where the amplitude is missing, zero or below the noise; its error is the difference of the magnitudes of amplitude plus noise and amplitude minus noise. The network magnitude is the (error-weighted, if requested) mean over exactly the observations that have a magnitude and pass all configured noise, trace, station, distance and pick filters, hence lies between their smallest and largest magnitude, with no value when none passes. Calculating magnitudes leaves the input table unchanged, and the goodness-of-fit is computed from the observations the chosen mode retains.",
 ["inputs", "configurations"], "all amplitude tables (missing values and zero distances included), attenuation functions, corrections and filter settings",
 "No stable test computes a magnitude; filter combinations and missing values are not sampled.",
 [Q+"signal/local_mag/magnitude.py"], [("calculate_magnitudes, _calc_mags, _logA0, _filter_mags, mean_magnitude, _mag_r_squared", Q+"signal/local_mag/magnitude.py")])
prop("C20", "Amplitudes are half the largest adjacent peak-to-trough in the right windows",
 "The P and S measurement windows start one marginal window plus the traveltime uncertainty before the pick (or modelled arrival when there is no pick) and end symmetrically, both extended by the signal window (the P window only as far as the start of the S window), and are cut so that they never overlap; when a station has no onset at all for one of the phases the modelled arrivals are used, and the noise window ends where the P window starts; a P pick not before the S pick is refused. The reported amplitude is with no prominence required, half the largest difference between adjacent peak and trough in the window, in millimetres, with frequency 1 / (2 * peak-to-trough time) and time halfway between them. Both are divided by the filter's gain at that frequency when a filter was applied, and the data padding requested covers the windows of every modelled arrival (uncertainty fraction at most 1), clear of the filter taper.",
 ["inputs", "configurations"], "all waveforms, pick combinations (present, failed, absent), traveltimes, window lengths and filter settings",
 "No stable test measures an amplitude; window overlap cases and peak/trough orderings are not sampled.",
 [Q+"signal/local_mag/amplitude.py"], [("_get_amplitude_windows, _get_picks, _peak_to_trough_amplitude, _measure_signal_amps, _measure_noise_amp, _average_amplitude, pad, _get_distances", Q+"signal/local_mag/amplitude.py")])
prop("C21", "Data are used only if they pass every configured availability check",
 "A channel passes when it has no flat-line trace, no overlap, no gap unless gaps are allowed, covers the whole time span when that is required, and has the expected sampling rate or start/end times when those checks are requested. A station-phase is available exactly when at least one of its channels passes, or, when all channels are required, when every channel present passes and their number is the expected one. The per-channel report lists every channel present with 1 exactly if that channel passed its own checks. Checks never modify the waveforms.",
 ["inputs", "configurations"], "all streams (any channels, gaps, overlaps, flat lines, offsets, sampling rates) and all combinations of check options",
 "The stable tests never call the availability check; the 2^n option combinations and gap patterns are not sampled.",
 [Q+"io/data.py"], [("check_availability", Q+"io/data.py")])
prop("C22", "Archive reads return the requested data from every day they touch",
 "A read for [start, end] with extra padding looks in every UTC day touched by the padded interval, for every configured station, using the configured archive layout; the raw data returned cover the padded interval and the scan data exactly the requested one, trimmed to the nearest sample and merged per channel without interpolating over gaps or altering overlapping data that disagree. When nothing is found the empty-archive error is raised. Unknown archive formats are rejected with the dedicated error.",
 ["inputs", "configurations"], "all time spans (day, month and year boundaries), paddings, station lists and layouts",
 "No stable test reads an archive; day, month and year boundary crossings are not sampled.",
 [Q+"io/data.py", Q+"util.py"], [("Archive.read_waveform_data, _load_from_path, path_structure", Q+"io/data.py"), ("merge_stream", Q+"util.py")])
prop("C23", "Resampling and sample-time helpers preserve timing",
 "Converting a time to samples rounds time * sampling rate to the nearest integer, and trimming a time to a sample gives a whole number of samples, not shorter than the time and at most one sample longer; both are monotone. Upsampling keeps every original sample at its original time and fills between with linear interpolation; shifting to sample moves a trace by less than half a sample onto the grid; decimation to the unified rate keeps the start time. Merging and resampling return new objects, leave their input streams unmodified, and never combine or drop channels that have no conflict.",
 ["inputs", "configurations"], "all times, sampling rates, resampling factors, offsets and stream contents",
 "Only one merge case is tested; resampling factors, off-sample starts and padding at the ends are not.",
 [Q+"util.py"], [("time2sample, trim2sample, shift_to_sample, resample, decimate, upsample, merge_stream", Q+"util.py")])
prop("C24", "Event, pick, trigger and availability files read back as written",
 "Triggered events written for a run and day are read back with the same identifiers, times and coalescence values for exactly the requested interval, irrespective of what was written before in the same process; the time-window columns appear only when requested. Availability written for windows spanning several days is split by day and read back row for row in order. Event files carry the origin time, locations, uncertainties (in the units of the grid) and magnitudes of the event rounded only to the declared precision.",
 ["inputs", "histories"], "all event tables, availability tables, time spans and sequences of writes in one process",
 "No stable test writes or reads these files; history dependence needs two calls.",
 [Q+"io/triggered_events.py", Q+"io/availability.py", Q+"io/event.py", Q+"signal/pickers/base.py"],
 [("write_triggered_events, read_triggered_events", Q+"io/triggered_events.py"), ("write_availability, read_availability", Q+"io/availability.py"), ("write", Q+"io/event.py"), ("write", Q+"signal/pickers/base.py")])
prop("C25", "Station and velocity-model inputs are validated and interpreted consistently",
 "A station file is accepted exactly when it has Name, Latitude, Longitude and Elevation columns, whatever their order, and otherwise refused with the station-file error; names are read as text and elevations turned into depths by negation. A velocity-model file is accepted exactly when it has a Depth column and refused otherwise. Run names and sub-names are combined into the same output locations by every stage, with dots in names replaced so that file suffixes stay intact.",
 ["inputs", "configurations"], "all station and velocity tables (any missing subset of columns), run names and sub-names",
 "No stable test reads an input file; each missing-column subset is a different input.",
 [Q+"io/core.py"], [("read_stations, read_vmodel, Run, read_lut, read_response_inv", Q+"io/core.py")])
prop("C26", "Exported catalogues preserve times, units and pick sets",
 "Exporting to an ObsPy catalogue gives each event its origin time, location and depth in metres, one modelled pick per station-phase and one automatic pick exactly for those that were picked, with the written pick times and errors, and amplitudes in metres. Exporting to NonLinLoc writes exactly the picks of the chosen kind with full date, time and error, and exporting to Snuffler writes times that denote the same instant as the pick or origin, and each station with its own network code.",
 ["inputs"], "all event, pick and amplitude files, and all times including those with small sub-second parts",
 "No stable test exports anything; sub-second formatting errors only show for particular microsecond values.",
 [Q+"export/to_obspy.py", Q+"export/to_nlloc.py", Q+"export/to_snuffler.py"],
 [("read_quakemigrate/_read_single_event", Q+"export/to_obspy.py"), ("nlloc_obs", Q+"export/to_nlloc.py"), ("snuffler_markers, snuffler_stations", Q+"export/to_snuffler.py")])
prop("C27", "Waveforms and coalescence maps written for an event are its own, cut and corrected as asked",
 "For every located event the outputs asked for are written, one cut-waveform file per kind (raw, real, Wood-Anderson; formats which hold one trace per file write one per trace), named by the event's identifier, in the run's directory for that kind. The raw file holds every trace read for the event that has samples between the origin time minus the pre-cut and the origin time plus the post-cut (to the nearest sample; no limit where no cut is given), with unchanged sample values, and the data read for the event reach far enough for the cuts. The real and Wood-Anderson files hold exactly those of these traces that are not constant and whose response can be removed, corrected to the units asked for (displacement or velocity), whatever has been calculated for the event before; without a response inventory they are refused with an AttributeError. No file is written without data. Coalescence maps written for an event, whole or marginalised, read back unchanged.",
 ["inputs", "configurations", "histories"], "all event waveforms (gaps, flat channels, channels without a response), cuts, units, kinds and orders of calculation",
 "No stable test writes cut waveforms; the history dependence (magnitudes first) needs several steps.",
 [Q+"io/cut_waveforms.py", Q+"io/coalescence.py", Q+"signal/scan.py"],
 [("write_cut_waveforms, get_waveforms, write_waveforms", Q+"io/cut_waveforms.py"), ("write_coalescence, read_coalescence", Q+"io/coalescence.py"), ("_locate_events, _read_event_waveform_data", Q+"signal/scan.py")])
out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
