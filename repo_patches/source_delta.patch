From 457708ba79529c901f2470b10dade5b12cde19dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 01/32] fix: give an onset of 1 where the long-term average is
 zero in the compiled STA/LTA routines

The overlapping routine divided by the long-term sum unconditionally, and the
centred routine did so for the first sample, so that dead stretches of data
gave NaN where the Python implementation gives 1.
---
 quakemigrate/core/src/onsetlib.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/core/src/onsetlib.c b/quakemigrate/core/src/onsetlib.c
index fe14a1d..985c218 100644
--- a/quakemigrate/core/src/onsetlib.c
+++ b/quakemigrate/core/src/onsetlib.c
@@ -49,12 +49,20 @@ overlapping_sta_lta(const double * signal,
     lta += buf;
     sta += buf - signal[i - head -> nsta];
   }
-  onset[head -> nlta - 1] = sta / lta * frac;
+  if (lta > 0.) {
+    onset[head -> nlta - 1] = sta / lta * frac;
+  } else {
+    onset[head -> nlta - 1] = 1.;
+  }
   for (i = head -> nlta; i < head -> n; ++i) {
     buf = signal[i];
     sta += buf - signal[i - head -> nsta];
     lta += buf - signal[i - head -> nlta];
-    onset[i] = sta / lta * frac;
+    if (lta > 0.) {
+      onset[i] = sta / lta * frac;
+    } else {
+      onset[i] = 1.;
+    }
   }
 }
 
@@ -95,7 +103,11 @@ centred_sta_lta(const double * signal,
   }
 
   // Set first value, and loop over rest of signal
-  onset[head -> nlta - 1] = sta / lta * frac;
+  if (lta > 0.) {
+    onset[head -> nlta - 1] = sta / lta * frac;
+  } else {
+    onset[head -> nlta - 1] = 1.;
+  }
   for (i = head -> nlta; i < head -> n - head -> nsta; ++i) {
     sta += signal[i + head -> nsta] - signal[i];
     lta += signal[i] - signal[i - head -> nlta];
-- 
2.43.0


From dc374630a934fb205809ff767a1d00befd6c405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 02/32] fix: round instead of truncating in trim2sample

int() of a product such as 0.57 * 1000 = 569.9999... lost a millisecond, so that
the returned padding was not an integer number of samples.
---
 quakemigrate/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index d4fd81c..0f3bbee 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -266,7 +266,7 @@ def trim2sample(time, sampling_rate):
 
     """
 
-    return int(np.ceil(time * sampling_rate) / sampling_rate * 1000) / 1000
+    return round(np.ceil(time * sampling_rate) / sampling_rate * 1000) / 1000
 
 
 def wa_response(convert="DIS2DIS", obspy_def=True):
-- 
2.43.0


From 08885dc672a7a9eaeea00667f09cf073ed7ae921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 03/32] fix: keep the first and last sample value when padding
 upsampled data

The fill arrays were created with an integer data type, so that floating point
data were padded with a truncated value.
---
 quakemigrate/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index 0f3bbee..c7e5905 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -562,7 +562,7 @@ def upsample(trace, upfactor, starttime, endtime):
         )
         logging.debug(f"Start pad = {start_pad}")
         # Add padding data (constant value)
-        start_fill = np.full(int(start_pad), trace.data[0], dtype=int)
+        start_fill = np.full(int(start_pad), trace.data[0])
         dnew = np.append(start_fill, dnew)
         # Calculate new starttime of trace
         new_starttime = trace.stats.starttime - start_pad / (
@@ -581,7 +581,7 @@ def upsample(trace, upfactor, starttime, endtime):
         )
         logging.debug(f"End pad = {end_pad}")
         # Add padding data (constant value)
-        end_fill = np.full(int(end_pad), trace.data[-1], dtype=int)
+        end_fill = np.full(int(end_pad), trace.data[-1])
         dnew = np.append(dnew, end_fill)
 
     out = Trace()
-- 
2.43.0


From f6f0cbe043a37f05157a218ab4c3c089cb49058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 04/32] fix: keep the existing traveltime tables when combining
 lookup tables

---
 quakemigrate/lut/lut.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 310cc96..5805d62 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -880,7 +880,8 @@ class LUT(Grid3D):
             return self
         else:
             if self == other:
-                self.traveltimes.update(other.traveltimes)
+                for station, traveltimes in other.traveltimes.items():
+                    self.traveltimes.setdefault(station, traveltimes)
                 return self
             else:
                 print("Grid definitions do not match - cannot combine.")
-- 
2.43.0


From 5195f8dec1001958ad453e69daeaba0c6a1a0408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 05/32] fix: do not discard the station data of a lookup table
 loaded on construction

---
 quakemigrate/lut/lut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 5805d62..0593e7a 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -453,6 +453,8 @@ class LUT(Grid3D):
     def __init__(self, fraction_tt=0.1, lut_file=None, **grid_spec):
         """Instantiate the LUT object."""
 
+        self.station_data = pd.DataFrame()
+
         if grid_spec:
             super().__init__(**grid_spec)
             self.fraction_tt = fraction_tt
@@ -465,8 +467,6 @@ class LUT(Grid3D):
             if lut_file is not None:
                 self.load(lut_file)
 
-        self.station_data = pd.DataFrame()
-
     def __str__(self):
         """Return short summary string of the lookup table object."""
 
-- 
2.43.0


From 5a693ddc8e1ea097a512fe041597806a748f2183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 06/32] fix: move the lower-left corner with the first node
 kept when decimating a grid

---
 quakemigrate/lut/lut.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 0593e7a..1b16d1a 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -127,6 +127,7 @@ class Grid3D:
         else:
             grid = copy.deepcopy(self)
 
+        grid.ll_corner = self.ll_corner + c1 * self.node_spacing
         grid.node_count = new_node_count
         grid.node_spacing = self.node_spacing * df
 
-- 
2.43.0


From b5f589b0abeab3e0f98a51c3022daf6c59a6ec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 07/32] fix: measure the position within a cell from the
 section origin when interpolating traveltimes

---
 quakemigrate/lut/create_lut.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 5c1b3b4..ba15523 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -743,10 +743,11 @@ def _bilinear_interpolate(xz, xz_origin, xz_dimensions, traveltimes):
     """
 
     # Get indices of the nearest node
-    i, k = np.floor((xz - xz_origin) / xz_dimensions).astype(int).T
+    cells = (xz - xz_origin) / xz_dimensions
+    i, k = np.floor(cells).astype(int).T
 
     # Get fractional distance along each axis
-    x_d, z_d = (np.remainder(xz, xz_dimensions) / xz_dimensions).T
+    x_d, z_d = (cells - np.floor(cells)).T
 
     # Get 4 data points of surrounding square
     c00 = traveltimes[i, k]
-- 
2.43.0


From ee56edef1dde200ca9f2c58270504f904f0f9939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 08/32] fix: give a lookup table read from NonLinLoc the node
 count of its grids

---
 quakemigrate/lut/create_lut.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index ba15523..6ad5b32 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -98,6 +98,7 @@ def read_nlloc(
                     coord_proj=cproj,
                     fraction_tt=fraction_tt,
                 )
+                lut.node_count = node_count
             else:
                 _, _, traveltimes = _read_nlloc(file)
 
-- 
2.43.0


From fb2597431ffe57623d91611eebce6524de0a3f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 09/32] fix: pass the origin of a transverse Mercator NonLinLoc
 grid to PROJ by its proper names

---
 quakemigrate/lut/create_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 6ad5b32..da0fd78 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -699,7 +699,7 @@ def _read_nlloc(fname, ignore_proj=False):
             orig_lat = float(line[5])
             orig_lon = float(line[7])
 
-            gproj = Proj(proj="tmerc", lon=orig_lon, lat=orig_lat, units="km")
+            gproj = Proj(proj="tmerc", lon_0=orig_lon, lat_0=orig_lat, units="km")
 
         transform = [gproj, cproj, line[1]]
 
-- 
2.43.0


From ed613626527d58c61c9720afff81b670df0ee91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 10/32] fix: scale longitudes by the latitude of the origin in
 a SIMPLE NonLinLoc grid

---
 quakemigrate/lut/create_lut.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index da0fd78..40473f6 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -644,7 +644,13 @@ def _read_nlloc(fname, ignore_proj=False):
             orig_lon = float(line[5])
 
             # The simple projection is the Plate Carree/Equidistant Cylindrical
-            gproj = Proj(proj="eqc", lat_0=orig_lat, lon_0=orig_lon, units="km")
+            gproj = Proj(
+                proj="eqc",
+                lat_0=orig_lat,
+                lat_ts=orig_lat,
+                lon_0=orig_lon,
+                units="km",
+            )
         elif line[1] == "LAMBERT":
             proj_ellipsoid = line[3]
             orig_lat = float(line[5])
-- 
2.43.0


From 4e6ddec756995e31cd33a419c72cc4189586cf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 11/32] fix: round the number of time stamps in the marginal
 window instead of truncating it

---
 quakemigrate/io/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/event.py b/quakemigrate/io/event.py
index 2d44e0b..223453a 100644
--- a/quakemigrate/io/event.py
+++ b/quakemigrate/io/event.py
@@ -411,7 +411,7 @@ class Event:
         # Utilise the .times() method of `obspy.Trace` objects
         tr = Trace(
             header={
-                "npts": 4 * self.marginal_window * sampling_rate + 1,
+                "npts": util.time2sample(4 * self.marginal_window, sampling_rate) + 1,
                 "sampling_rate": sampling_rate,
                 "starttime": self.trigger_time - 2 * self.marginal_window,
             }
-- 
2.43.0


From 5514bc239a13ed2640dfd6f2a9b7f89c593698ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 12/32] fix: keep the last sample of the marginal window when
 trimming the 4-D map

---
 quakemigrate/io/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/event.py b/quakemigrate/io/event.py
index 223453a..d3e811d 100644
--- a/quakemigrate/io/event.py
+++ b/quakemigrate/io/event.py
@@ -431,7 +431,7 @@ class Event:
             (self.coa_data["DT"] >= window_start) & (self.coa_data["DT"] <= window_end)
         ]
         self.map4d = self.map4d[
-            :, :, :, self.coa_data.index[0] : self.coa_data.index[-1]
+            :, :, :, self.coa_data.index[0] : self.coa_data.index[-1] + 1
         ]
         self.coa_data.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From fd93405cd1c095de393a68e5fbb02fd8a8ec9fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 13/32] fix: do not add the time-window columns to the module's
 list of output columns

---
 quakemigrate/io/triggered_events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/triggered_events.py b/quakemigrate/io/triggered_events.py
index 059c5c5..920140c 100644
--- a/quakemigrate/io/triggered_events.py
+++ b/quakemigrate/io/triggered_events.py
@@ -125,7 +125,7 @@ def write_triggered_events(run, events, starttime, write_event_time_windows):
     fpath = run.path / "trigger" / run.subname / "events"
     fpath.mkdir(exist_ok=True, parents=True)
 
-    output_cols = OUTPUT_COLS
+    output_cols = OUTPUT_COLS.copy()
     if write_event_time_windows:
         output_cols.extend(["MinTime", "MaxTime"])
 
-- 
2.43.0


From 79bbc50bdf9fbb9e54bde9ac2b4a434f0f9e3dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 14/32] fix: round the threshold window length to whole samples
 instead of truncating it

---
 quakemigrate/signal/trigger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index 9b9c199..9ae1596 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -458,7 +458,8 @@ class Trigger:
                 window_length = self.mad_window_length
             else:
                 window_length = self.median_window_length
-            breaks = breaks[breaks % int(window_length * sampling_rate) == 0][1:]
+            window_length = util.time2sample(window_length, sampling_rate)
+            breaks = breaks[breaks % window_length == 0][1:]
             chunks = np.split(scandata.values, breaks)
 
             # Calculate the median values
-- 
2.43.0


From bf355bc64161b7f00c96d6ab90fa0db56bd1a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 15/32] fix: keep flatlined data flat when pre-processing so
 that the availability checks reject it

---
 quakemigrate/signal/onsets/stalta.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quakemigrate/signal/onsets/stalta.py b/quakemigrate/signal/onsets/stalta.py
index 4cb9812..95957cc 100644
--- a/quakemigrate/signal/onsets/stalta.py
+++ b/quakemigrate/signal/onsets/stalta.py
@@ -208,6 +208,13 @@ def pre_process(stream, sampling_rate, resample, upfactor, filter_, starttime, e
         type="bandpass", freqmin=lowcut, freqmax=highcut, corners=order, zerophase=True
     )
 
+    # Detrending and filtering leave floating-point noise on flatlined data, which would
+    # hide it from the availability checks
+    flatlined = {tr.id for tr in stream if tr and tr.data.max() == tr.data.min()}
+    for tr in filtered_waveforms:
+        if tr.id in flatlined:
+            tr.data[:] = 0.0
+
     return filtered_waveforms
 
 
-- 
2.43.0


From c85edced0e1cc8901de240cc8e2e3976528737be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 16/32] fix: round the number of samples expected in a time
 span so that complete data are not rejected

---
 quakemigrate/io/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 7774784..54ffbfa 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -604,7 +604,7 @@ class WaveformData:
                 # rate as provided. To check that as well, use
                 # `check_sampling_rate=True` and specify a sampling rate.
                 if full_timespan:
-                    n_samples = timespan * st_id[0].stats.sampling_rate + 1
+                    n_samples = round(timespan * st_id[0].stats.sampling_rate) + 1
                     if len(st_id) > 1:
                         continue
                     elif st_id[0].stats.npts < n_samples:
-- 
2.43.0


From e7658082e4daf8e5bb6508a1f91a7126839f5417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 17/32] fix: close the .scanmseed file before rewriting it with
 STEIM1 so that the failed attempt cannot corrupt it

---
 quakemigrate/io/scanmseed.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/io/scanmseed.py b/quakemigrate/io/scanmseed.py
index 59937b8..e0fad56 100644
--- a/quakemigrate/io/scanmseed.py
+++ b/quakemigrate/io/scanmseed.py
@@ -210,13 +210,17 @@ class ScanmSEED:
         file = (fpath / fstem).with_suffix(".scanmseed")
 
         try:
-            st.write(str(file), format="MSEED", encoding="STEIM2")
+            # Close the file before falling back on STEIM1, so that no buffered output of
+            # a failed attempt can be flushed into the file afterwards.
+            with open(file, "wb") as f:
+                st.write(f, format="MSEED", encoding="STEIM2")
         except InternalMSEEDError as e:
             logging.debug(
                 f"Cannot compress data: {e}\nUnable to compress data using STEIM2 - "
                 "falling back on STEIM1."
             )
-            st.write(str(file), format="MSEED", encoding="STEIM1")
+            with open(file, "wb") as f:
+                st.write(f, format="MSEED", encoding="STEIM1")
         self.written = True
 
     def _data2int(self, data, factor):
-- 
2.43.0


From 17dcab7c6d16f4be23c8c2c0c81abd28385439a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 18/32] fix: order the phases by arrival when separating the
 pick windows of a station

---
 quakemigrate/signal/pickers/gaussian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index 2fa8c89..0badd11 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -301,6 +301,9 @@ class GaussianPicker(PhasePicker):
 
         """
 
+        # Neighbouring windows are those of successive arrivals
+        phases = sorted(phases, key=lambda phase: windows[phase][1])
+
         # Handle first key
         first_idx = windows[phases[0]][0]
         windows[phases[0]][0] = 0 if first_idx < 0 else first_idx
-- 
2.43.0


From dc92d0f553e257a94f57391cbf6847031bc0ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 19/32] fix: make no pick, instead of failing, where there is
 no noise to set a percentile threshold from

---
 quakemigrate/signal/pickers/gaussian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index 0badd11..78e8063 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -347,6 +347,9 @@ class GaussianPicker(PhasePicker):
         # Remove data during pick windows, and data set to 1 (in onset function taper
         # pad windows)
         onset_noise = onset_noise[onset_noise > 1]
+        if len(onset_noise) == 0:
+            # No noise to measure; no sample exceeds a threshold of nan.
+            return np.nan
 
         if method == "percentile":
             pick_threshold = np.percentile(
-- 
2.43.0


From 057f844ef9ec60e7835a8274b28db1954b3590d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 20/32] fix: keep the samples fitted around a peak within the
 onset function

---
 quakemigrate/signal/pickers/gaussian.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index 78e8063..209f3ef 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -418,8 +418,11 @@ class GaussianPicker(PhasePicker):
             # add an extra sample either side for the curve fitting. This makes the
             # fitting more stable, and guarantees at least 3 samples --> avoids an
             # under-constrained optimisation (3 fitting params).
-            padded_peak_idxs = [peak_idxs[0] - 1, peak_idxs[1] + 1]
-            padded_peak_idxs = [window[0] + p for p in padded_peak_idxs]
+            # Only as far as there are samples: the peak may touch either end of the data.
+            padded_peak_idxs = [
+                max(window[0] + peak_idxs[0] - 1, 0),
+                min(window[0] + peak_idxs[1] + 1, len(onset)),
+            ]
             logging.debug(
                 f"\t\t    padded_peak_idxmin: {padded_peak_idxs[0]},"
                 f" padded_peak_idxmax: {padded_peak_idxs[1]}"
-- 
2.43.0


From 3e48a440d5164345d4838976f4892737b5aa34ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 21/32] fix: do not overwrite zero epicentral distances in the
 amplitude table

---
 quakemigrate/signal/local_mag/magnitude.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index c2cd2b6..78e29f7 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -245,7 +245,7 @@ class Magnitude:
         if self.use_hyp_dist:
             dist = np.sqrt(edist.values**2 + zdist.values**2)
         else:
-            dist = edist.values
+            dist = edist.values.copy()
         dist[dist == 0.0] = np.nan
 
         # Calculate magnitudes and associated errors
@@ -777,7 +777,7 @@ class Magnitude:
         if self.use_hyp_dist:
             dist = np.sqrt(edist.values**2 + zdist.values**2)
         else:
-            dist = edist.values
+            dist = edist.values.copy()
 
         # Apply distance filter
         if self.dist_filter:
-- 
2.43.0


From bf4e2e8bda7f26818f11e190e967240723644e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 22/32] fix: remove observations expected to be below the noise
 from the magnitude r-squared

---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index 78e29f7..a178f39 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -888,7 +888,7 @@ class Magnitude:
                 # If predicted amp is more than 5x larger than noise amp, keep
                 # this observation for mag_r2 calculation
                 if predicted_amp / noise_amp < 5:
-                    magnitudes.drop(labels=mag.name)
+                    magnitudes = magnitudes.drop(labels=mag.name)
 
         # Calculate amplitudes -- including station corrections!
         amps = (
-- 
2.43.0


From b6b75f8e82c8e722aef80d7c81a16e0152d41a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:56 +0000
Subject: [PATCH 23/32] fix: leave observations without a magnitude out of the
 network magnitude

---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index a178f39..cbef726 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -789,7 +789,7 @@ class Magnitude:
         magnitudes["Dist"] = dist
 
         # Identify used mags (after applying all filters)
-        magnitudes["Used"] = True
+        magnitudes["Used"] = magnitudes["ML"].notnull()
         if self.trace_filter is not None:
             magnitudes.loc[~magnitudes["Trace_Filter"], "Used"] = False
         if self.station_filter is not None:
-- 
2.43.0


From 8db78fc84b72ba87f53a2b75b49040a96146d759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 24/32] fix: pair amplitude measurements with traveltimes by
 position, not by station table label

---
 quakemigrate/signal/local_mag/amplitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/amplitude.py b/quakemigrate/signal/local_mag/amplitude.py
index b74947a..1245b16 100644
--- a/quakemigrate/signal/local_mag/amplitude.py
+++ b/quakemigrate/signal/local_mag/amplitude.py
@@ -279,7 +279,7 @@ class Amplitude:
         logging.debug(f"{tr_start}, {tr_end}, {event.otime}")
 
         # Loop through stations in LUT, calculating amplitude info
-        for i, station_data in lut.station_data.iterrows():
+        for i, (_, station_data) in enumerate(lut.station_data.iterrows()):
             station = station_data["Name"]
 
             epi_dist, z_dist = self._get_distances(
-- 
2.43.0


From 96de1392d04962bbbfcdcb972472f0feb2267712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 25/32] fix: refuse a bandpass filter without corner
 frequencies

---
 quakemigrate/signal/local_mag/amplitude.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/local_mag/amplitude.py b/quakemigrate/signal/local_mag/amplitude.py
index 1245b16..571c657 100644
--- a/quakemigrate/signal/local_mag/amplitude.py
+++ b/quakemigrate/signal/local_mag/amplitude.py
@@ -117,8 +117,8 @@ class Amplitude:
         self.bandpass_filter = amplitude_params.get("bandpass_filter", False)
         if self.bandpass_filter:
             try:
-                self.bandpass_lowcut = amplitude_params.get("bandpass_lowcut")
-                self.bandpass_highcut = amplitude_params.get("bandpass_highcut")
+                self.bandpass_lowcut = amplitude_params["bandpass_lowcut"]
+                self.bandpass_highcut = amplitude_params["bandpass_highcut"]
             except KeyError as e:
                 raise AttributeError(f"Bandpass filter frequencies not specified! {e}")
         self.filter_corners = amplitude_params.get("filter_corners", 4)
-- 
2.43.0


From a4264c58a6ab1f924805e7349ec905695b32d49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 26/32] fix: read the waveform sample nearest to the requested
 time also when it is in the neighbouring data record

---
 quakemigrate/io/data.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 54ffbfa..e14e3f6 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -275,7 +275,9 @@ class Archive:
             post_pad=post_pad,
         )
 
-        files = self._load_from_path(starttime - pre_pad, endtime + post_pad)
+        read_start = starttime - pre_pad
+        read_end = endtime + post_pad
+        files = self._load_from_path(read_start, read_end)
 
         st = Stream()
         try:
@@ -284,14 +286,10 @@ class Archive:
             for file in files:
                 file = str(file)
                 try:
-                    read_start = starttime - pre_pad
-                    read_end = endtime + post_pad
-                    st += read(
-                        file,
-                        starttime=read_start,
-                        endtime=read_end,
-                        nearest_sample=True,
-                    )
+                    # Read a little more than requested: only the data records which
+                    # overlap the times given are read, but the sample nearest to the
+                    # start (end) time may be in the record before (after) these.
+                    st += read(file, starttime=read_start - 1, endtime=read_end + 1)
                 except TypeError:
                     logging.info(f"File not compatible with ObsPy - {file}")
                     continue
@@ -299,6 +297,12 @@ class Archive:
             # Merge waveforms channel-by-channel with no-clobber merge
             st = util.merge_stream(st)
 
+            # Trim to the requested (padded) time span
+            for tr in st:
+                tr.trim(starttime=read_start, endtime=read_end, nearest_sample=True)
+                if not bool(tr):
+                    st.remove(tr)
+
             # Make copy of raw waveforms to output if requested
             data.raw_waveforms = st.copy()
 
-- 
2.43.0


From a7bc41ba375c7a9c1aa12a12643f6b296b8ad444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:10 +0000
Subject: [PATCH 27/32] fix: refuse a station file which lacks any one of the
 required columns

---
 quakemigrate/io/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/io/core.py b/quakemigrate/io/core.py
index 99f1463..dd1bb20 100644
--- a/quakemigrate/io/core.py
+++ b/quakemigrate/io/core.py
@@ -89,7 +89,8 @@ def read_stations(station_file, **kwargs):
 
     stn_data = pd.read_csv(station_file, **kwargs)
 
-    if ("Latitude" or "Longitude" or "Elevation" or "Name") not in stn_data.columns:
+    required_cols = ["Latitude", "Longitude", "Elevation", "Name"]
+    if any(col not in stn_data.columns for col in required_cols):
         raise util.StationFileHeaderException
 
     stn_data["Elevation"] = stn_data["Elevation"].apply(lambda x: -1 * x)
-- 
2.43.0


From 2176b5284d1d2f9e409c3bea38f62f26c22f1590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:05 +0000
Subject: [PATCH 28/32] fix: read station names as text so that names which
 look like numbers are not changed

---
 quakemigrate/io/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/io/core.py b/quakemigrate/io/core.py
index dd1bb20..2dc54e0 100644
--- a/quakemigrate/io/core.py
+++ b/quakemigrate/io/core.py
@@ -87,6 +87,8 @@ def read_stations(station_file, **kwargs):
 
     """
 
+    # Read station names as strings - they can look like numbers (e.g. "001")
+    kwargs.setdefault("dtype", {"Name": "str"})
     stn_data = pd.read_csv(station_file, **kwargs)
 
     required_cols = ["Latitude", "Longitude", "Elevation", "Name"]
-- 
2.43.0


From 0e7c6936e630471bee05568c1b051e0fd2387583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 29/32] fix: read the station names of picks as text when
 exporting to ObsPy

---
 quakemigrate/export/to_obspy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/export/to_obspy.py b/quakemigrate/export/to_obspy.py
index af8b301..209d8f1 100644
--- a/quakemigrate/export/to_obspy.py
+++ b/quakemigrate/export/to_obspy.py
@@ -215,7 +215,8 @@ def _read_single_event(event_file, locate_dir, units, local_mag_ph):
     # --- Handle picks file ---
     pick_file = locate_dir / "picks" / event_uid
     if pick_file.with_suffix(".picks").is_file():
-        picks = pd.read_csv(pick_file.with_suffix(".picks"))
+        # Read station names as strings - they can look like numbers (e.g. "001")
+        picks = pd.read_csv(pick_file.with_suffix(".picks"), dtype={"Station": "str"})
     else:
         return None
 
-- 
2.43.0


From 86e6187912c3fa87fb98243f78429b9e8d2e19c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 30/32] fix: zero-pad the fractional seconds in Snuffler marker
 files

---
 quakemigrate/export/to_snuffler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/export/to_snuffler.py b/quakemigrate/export/to_snuffler.py
index c578a6d..7f33409 100644
--- a/quakemigrate/export/to_snuffler.py
+++ b/quakemigrate/export/to_snuffler.py
@@ -98,7 +98,7 @@ def snuffler_markers(event, output_path, filename=None):
         hr=str(origin.time.hour).zfill(2),
         min=str(origin.time.minute).zfill(2),
         sec=str(origin.time.second).zfill(2),
-        msec=origin.time.microsecond,
+        msec=str(origin.time.microsecond).zfill(6),
         eventid=str(event.resource_id),
     )
 
@@ -118,7 +118,7 @@ def snuffler_markers(event, output_path, filename=None):
                 hr=str(pick.time.hour).zfill(2),
                 min=str(pick.time.minute).zfill(2),
                 sec=str(pick.time.second).zfill(2),
-                msec=pick.time.microsecond,
+                msec=str(pick.time.microsecond).zfill(6),
                 nw=pick.waveform_id.network_code,
                 stat=pick.waveform_id.station_code,
                 comp=comp,
-- 
2.43.0


From ae94710d1c9b3f1b8912db6aa87bc6a179d0c149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 31/32] fix: write the network code of each station in Snuffler
 station files

---
 quakemigrate/export/to_snuffler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/export/to_snuffler.py b/quakemigrate/export/to_snuffler.py
index 7f33409..0bad9e4 100644
--- a/quakemigrate/export/to_snuffler.py
+++ b/quakemigrate/export/to_snuffler.py
@@ -39,12 +39,14 @@ def snuffler_stations(stations, output_path, filename, network_code=None):
         for i, station in stations.iterrows():
             if network_code is None:
                 try:
-                    network_code = station["Network"]
+                    station_network = station["Network"]
                 except KeyError:
-                    network_code = ""
+                    station_network = ""
+            else:
+                station_network = network_code
 
             line = line_template.format(
-                nw=network_code,
+                nw=station_network,
                 stat=station["Name"],
                 lat=station["Latitude"],
                 lon=station["Longitude"],
-- 
2.43.0


From 97a5ff7acde7b4402a9b2fb81a73334b7451e556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:59 +0000
Subject: [PATCH 32/32] fix: write real and Wood-Anderson cut waveforms of all
 channels in the units requested

After magnitudes had been calculated (and no cut was requested) the traces
cached by get_real_waveform and get_wa_waveform were written instead of the
event's waveforms: displacement whatever the units requested, and only the
channels with an amplitude measurement, trimmed to the measurement windows.
---
 quakemigrate/io/cut_waveforms.py | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/quakemigrate/io/cut_waveforms.py b/quakemigrate/io/cut_waveforms.py
index 072321d..ec9a05c 100644
--- a/quakemigrate/io/cut_waveforms.py
+++ b/quakemigrate/io/cut_waveforms.py
@@ -105,28 +105,13 @@ def write_cut_waveforms(
             st.remove(tr)
 
     if waveform_type == "real" or waveform_type == "wa":
-        if (
-            waveform_type == "real"
-            and isinstance(event.data.real_waveforms, Stream)
-            and not pre_cut
-            and not post_cut
-        ):
-            st = event.data.real_waveforms
-        elif (
-            waveform_type == "wa"
-            and isinstance(event.data.wa_waveforms, Stream)
-            and not pre_cut
-            and not post_cut
-        ):
-            st = event.data.wa_waveforms
-        else:
-            try:
-                st = get_waveforms(st, event, waveform_type, units)
-            except AttributeError as e:
-                raise AttributeError(
-                    "To output real or Wood-Anderson cut waveforms you must supply an "
-                    "instrument response inventory."
-                ) from e
+        try:
+            st = get_waveforms(st, event, waveform_type, units)
+        except AttributeError as e:
+            raise AttributeError(
+                "To output real or Wood-Anderson cut waveforms you must supply an "
+                "instrument response inventory."
+            ) from e
 
     if bool(st):
         write_waveforms(st, fpath, fstem, file_format)
-- 
2.43.0

