"""Writes known_findings.jsonl (hand-kept list; never written by a check)."""
import json, pathlib, subprocess
F = [
 ("457708b","C04","compiled STA/LTA divided by a zero long-term average (NaN/inf onset) where the Python backend gave 1"),
 ("dc37463","C23","trim2sample truncated, so a time just below a whole number of samples was shortened by a sample"),
 ("08885dc","C23","padding of upsampled data was created with an integer data type, so floating point data were padded with a truncated value"),
 ("f6f0cbe","C15","adding lookup tables replaced the traveltime tables of stations present in both"),
 ("5195f8d","C15","LUT(lut_file=...) discarded the station data it had just loaded"),
 ("5a693dd","C13","Grid3D.decimate kept the old lower-left corner although the first node kept is another one"),
 ("b5f589b","C14","traveltimes interpolated from a 2-D section which does not start at zero were read at the wrong position"),
 ("ee56ede","C14","a lookup table read from NonLinLoc grids kept no node count of those grids"),
 ("fb25974","C14","transverse Mercator NonLinLoc grids passed misspelt origin parameters to PROJ"),
 ("ed61362","C14","SIMPLE NonLinLoc grids did not scale longitude by the cosine of the origin latitude"),
 ("4e6ddec","C16","the number of time stamps in the marginal window was truncated instead of rounded"),
 ("5514bc2","C16","trim2window dropped the last sample of the 4-D map but not of the coalescence series"),
 ("fd93405","C24","asking for the time-window columns once added them to every later triggered-events file of the process"),
 ("79bbc50","C12","the threshold chunk length was truncated instead of rounded to whole samples"),
 ("bf355bc","C21","flatlined data passed the availability checks after pre-processing"),
 ("c85edce","C21","complete data were rejected because the expected number of samples was truncated"),
 ("e765808","C08","a failed STEIM2 write could corrupt the .scanmseed file rewritten with STEIM1 while still open"),
 ("17dcab7","C18","pick windows of one station overlapped when phases were not listed in order of arrival"),
 ("dc92d0f","C18","the percentile pick threshold failed with an exception when no noise sample was left"),
 ("057f844","C18","the Gaussian fit of a pick read samples outside the onset function"),
 ("3e48a44","C19","calculating magnitudes overwrote zero epicentral distances in the caller's table"),
 ("bf4e2e8","C19","the r-squared value did not drop the observations expected below the noise"),
 ("b6b75f8","C19","observations without a magnitude entered the weighted network mean"),
 ("8db78fc","C20","amplitudes were paired with traveltimes by station-table label instead of position"),
 ("96de139","C20","a bandpass filter configured without corner frequencies was accepted"),
 ("a4264c5","C22","the sample nearest to the requested start/end was lost when it lay in the neighbouring record or file"),
 ("a7bc41b","C25","a station file lacking one of the required columns was accepted when another was present"),
 ("2176b52","C25","station names which look like numbers lost their leading zeros"),
 ("0e7c693","C26","pick files with numeric station names failed to export to ObsPy"),
 ("86e6187","C26","Snuffler markers wrote fractional seconds without zero padding (another instant)"),
 ("97a5ff7","C27","real and Wood-Anderson cut waveforms written after magnitudes were in displacement whatever the units asked for, and only of the measured channels, trimmed to the measurement windows"),
 ("ae94710","C26","Snuffler station files gave every station the same network code"),
]
out = pathlib.Path(__file__).parent.parent / "known_findings.jsonl"
with out.open("w") as f:
    for i, (c, p, w) in enumerate(F, 1):
        f.write(json.dumps({"id": f"F{i:02d}", "property": p, "status": "fixed", "commit": c, "what": w,
                            "record": f"fixed: property={p} {c} {w}"}) + "\n")
