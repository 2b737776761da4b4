B = ("Part proved, part bounded. Proved for all inputs (contracts on the functions named in CONTRACTS.md, discharged from the current source on every run): {}. "
     "Decided only by evaluating the contract at run time on the real code over seeded, boundary-targeted inputs (bounded, nothing claimed beyond the trials run): {}. "
     "Collections of which each entry is handled alone are instantiated with two or three entries where CONTRACTS.md says so; floats are reals.")
LEVELS = {
 "C01": ("proof", "All inputs, sizes and iterations; real arithmetic for floats. Kernel and binding proved against each other's contracts."),
 "C02": ("proof", "All inputs and sizes; real arithmetic for floats."),
 "C03": ("proof", "All inputs within the stated size limits; bounds, overflow and write-disjointness obligations of every kernel access."),
 "C04": ("proof", "All signals and window lengths with nsta < nlta fitting the signal; running sums in real arithmetic."),
 "C09": ("proof", "Any number of samples and runs, any data and threshold; real arithmetic for floats; rows of the scan labelled 0, 1, 2, ... as read_scanmseed labels them; pandas and NumPy operations as modelled."),
 "C10": ("proof", "Any number of candidates and chains; real arithmetic for times; candidate rows labelled 0, 1, 2, ... in time order, as _identify_candidates leaves them; pandas operations as modelled."),
 "C11": ("proof", "Any span, batch, number of events and region; real arithmetic for times; pandas operations as modelled."),
 "C12": ("proof", "Any number of samples, window length and method; the median of a chunk is NumPy's (uninterpreted); real arithmetic for floats."),
 "C16": ("proof", "Any number of samples, marginal window and sampling rate; real arithmetic for times; pandas operations as modelled; the functions called are used by their own contracts."),
}
PARTS = {
 "C05": ('_onset, _trim_taper_pad, pads, constructor, calculate_onsets, pre_process',
         'Hilbert transform values'),
 "C06": ('order of onsets/tables/availability through calculate_onsets, serve_traveltimes, _compute, _continuous_compute',
         'whole scan'),
 "C07": ('detect tiling (windows, span, start > end), _continuous_compute (window times, placeholders, availability rows), empty',
         'end-to-end scan'),
 "C08": ("append/write/_data2int (each sample in its own day's file exactly once, in order, precision), read_scanmseed, empty",
         'MiniSEED round trip'),
 "C13": ('node counts, spacing, index/grid/coordinate round trips, corners, decimate',
         'nothing beyond cross-checks of the contracts'),
 "C14": ('homogeneous tables, bilinear interpolation, grid string, choice of method, maximum traveltime, queries, the NonLinLoc sweep (_compute_1d_nlloc: section, control file, distances, interpolation per node), reading of NonLinLoc headers and buffers (_read_nlloc, read_nlloc), the velocity profile and control file given to NonLinLoc (_vmodel_string, _write_control_file), what fast marching is given and what is read from it (_compute_1d_fmm, _eikonal_fmm)',
         "the eikonal solver's own accuracy (fast marching), NonLinLoc itself"),
 "C15": ('__eq__, __add__, corners, save/load/read_lut, update_lut',
         'pickle itself'),
 "C17": ('_mask3d, _covfit3d moments, _splineloc window/fall-back, _gaufit3d stationary point, _gaufilt3d, gaussian_3d, _calculate_location',
         'linear algebra and FFT convolution (assumed)'),
 "C18": ('windows, cuts, threshold samples, fits, peaks, failure values, pick_phases, settings',
         'curve_fit values'),
 "C19": ('channel magnitudes, attenuation laws, filters, mean, r² in both modes, chain, settings',
         'pandas str.contains'),
 "C20": ('windows, peak-to-trough, gains, noise, padding, picks, get_amplitudes, settings, response removal and Wood-Anderson simulation (get_real_waveform, get_wa_waveform, wa_response)',
         "filter design values, ObsPy's deconvolution"),
 "C21": ('check_availability for one/two traces and up to three channels, every requirement combination',
         'nothing beyond cross-checks of the contracts'),
 "C22": ('days/stations/files looked for, read and trim, merge, settings',
         'glob and MiniSEED'),
 "C23": ('every helper in util.py with a timing role',
         'filter values of decimation'),
 "C24": ('writers and readers of triggered events, availability, events, picks and amplitudes (columns, order, rounding, days); precision, locate',
         'text of the files'),
 "C25": ('read_stations, read_vmodel for every set of columns, Run for every name and sub-name',
         'CSV parsing'),
 "C26": ('read_quakemigrate, _read_single_event (locations, picks, amplitudes, magnitudes of any number of rows), the NonLinLoc and Snuffler text of every pick/station (fields and digits of times)',
         'the layout as other programs read it'),
 "C27": ('write_cut_waveforms, get_waveforms, write_waveforms (cuts, channels, units, file, kinds; three/two traces stand for any number), write_coalescence/read_coalescence, _locate_events (each output asked for, once, for each kept event), settings',
         "ObsPy's trim, write and response removal"),
}
for _k, (_p, _b) in PARTS.items():
    LEVELS[_k] = ("exploration", B.format(_p, _b))
NA = {}
