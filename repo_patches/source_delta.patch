From b36dbdccb5dc8a991e78c7ce4ce646ebb7eba277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 01/63] fix: skip damaged waveform files instead of aborting
 the run

Archive.read_waveform_data skips files ObsPy cannot identify (TypeError), but a
miniSEED file with a damaged record or shorter than one record raises an
ObsPyException subclass, which aborted a whole detect or locate run.
---
 quakemigrate/io/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 7774784..4ef1d06 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -15,6 +15,7 @@ import logging
 import pathlib
 
 from obspy import read, Stream, UTCDateTime
+from obspy.core.util.obspy_types import ObsPyException
 
 import quakemigrate.util as util
 
@@ -292,7 +293,8 @@ class Archive:
                         endtime=read_end,
                         nearest_sample=True,
                     )
-                except TypeError:
+                except (TypeError, ObsPyException):
+                    # Unknown format, or damaged / truncated file
                     logging.info(f"File not compatible with ObsPy - {file}")
                     continue
 
-- 
2.43.0


From 5fcf7f5509a76dbcfabffa7f4083c4571047d9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 02/63] fix: reject flatlined channels before filtering turns
 them into noise

The flatline check in check_availability compares the maximum and minimum of the
pre-processed trace, but detrending and filtering a non-zero constant leaves
round-off noise (~1e-16) rather than a constant, so dead channels passed as
available and were migrated as if they held signal.
---
 quakemigrate/signal/onsets/stalta.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quakemigrate/signal/onsets/stalta.py b/quakemigrate/signal/onsets/stalta.py
index 4cb9812..4aba30d 100644
--- a/quakemigrate/signal/onsets/stalta.py
+++ b/quakemigrate/signal/onsets/stalta.py
@@ -395,6 +395,12 @@ class STALTAOnset(Onset):
             stw = util.time2sample(stw, self.sampling_rate) + 1
             ltw = util.time2sample(ltw, self.sampling_rate) + 1
 
+            # Flatlined channels have to be identified in the raw data: detrending
+            # and filtering a constant leaves round-off noise, not a constant.
+            flatlined = set(
+                tr.id for tr in phase_waveforms if tr.data.max() == tr.data.min()
+            )
+
             # Pre-process the data. The ObsPy functions operate by trace, so
             # will not break on gappy data (we haven't checked availability
             # yet)
@@ -407,6 +413,9 @@ class STALTAOnset(Onset):
                 data.starttime,
                 data.endtime,
             )
+            for tr in filtered_phase_waveforms:
+                if tr.id in flatlined:
+                    tr.data[:] = 0.0
 
             # Loop through stations, check data availability for this phase,
             # and store this info, filtered waveforms and calculated onsets
-- 
2.43.0


From 62c3c4334ccb3ff42abec13989052db85a1e9a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 03/63] fix: do not scan an extra time step because of float
 round-off

36.6 s / 12.2 s is 3.0000000000000004 in floating point, so detect scanned a
fourth time step beyond the requested (exactly divisible) period.
---
 quakemigrate/signal/scan.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index e41bbea..8aeb5f9 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -325,7 +325,8 @@ class QuakeScan:
             endtime -= 1 / self.scan_rate
 
         # Number of steps to break run duration into
-        n_steps = int(np.ceil((endtime - starttime) / self.timestep))
+        # (rounding guards against e.g. 36.6 / 12.2 = 3.0000000000000004)
+        n_steps = int(np.ceil(np.round((endtime - starttime) / self.timestep, 9)))
 
         # Check if chosen start & endtimes and timestep are compatible
         calc_endtime = starttime + n_steps * self.timestep - 1 / self.scan_rate
-- 
2.43.0


From 23977605a90ab529291815d157943dd4bf3f27b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 04/63] fix: do not reject complete data because of float
 round-off

check_availability compared the number of samples with timespan * sampling_rate
+ 1 unrounded; for about 4 % of window lengths (e.g. 40.2 s at 25 Hz) the product
is an ulp above the integer, and every complete trace was marked unavailable.
---
 quakemigrate/io/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 4ef1d06..856f0de 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -606,7 +606,9 @@ class WaveformData:
                 # rate as provided. To check that as well, use
                 # `check_sampling_rate=True` and specify a sampling rate.
                 if full_timespan:
-                    n_samples = timespan * st_id[0].stats.sampling_rate + 1
+                    # Round to guard against float round-off (e.g. 40.2 s * 25 Hz =
+                    # 1005.0000000000001): complete data must not look one sample short
+                    n_samples = round(timespan * st_id[0].stats.sampling_rate, 6) + 1
                     if len(st_id) > 1:
                         continue
                     elif st_id[0].stats.npts < n_samples:
-- 
2.43.0


From 695bdef2c455c969e66ad619ea1aac79fa68ee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 05/63] fix: keep the sample nearest to the window edge of
 off-sample data

ObsPy's read(starttime, endtime, nearest_sample=True) skips whole records (and the
archive query skips whole day files) that end before the start of the window, so
for data with off-sample timing the sample nearest to the window edge was lost
whenever it was the last of its record or day, and the complete channel was then
rejected for that window. Read a 1 s margin and trim it off trace by trace.
---
 quakemigrate/io/data.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 856f0de..52991c1 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -276,7 +276,13 @@ class Archive:
             post_pad=post_pad,
         )
 
-        files = self._load_from_path(starttime - pre_pad, endtime + post_pad)
+        read_start = starttime - pre_pad
+        read_end = endtime + post_pad
+
+        # Read a margin either side: for data with off-sample timing, the sample nearest
+        # to the start / end may be in a neighbouring record or day file.
+        margin = 1.0
+        files = self._load_from_path(read_start - margin, read_end + margin)
 
         st = Stream()
         try:
@@ -285,12 +291,10 @@ class Archive:
             for file in files:
                 file = str(file)
                 try:
-                    read_start = starttime - pre_pad
-                    read_end = endtime + post_pad
                     st += read(
                         file,
-                        starttime=read_start,
-                        endtime=read_end,
+                        starttime=read_start - margin,
+                        endtime=read_end + margin,
                         nearest_sample=True,
                     )
                 except (TypeError, ObsPyException):
@@ -298,6 +302,12 @@ class Archive:
                     logging.info(f"File not compatible with ObsPy - {file}")
                     continue
 
+            # Trim off the margin trace-by-trace (`Stream.trim` would use the sample times
+            # of the first trace for all of them)
+            for tr in st:
+                tr.trim(starttime=read_start, endtime=read_end, nearest_sample=True)
+            st.traces = [tr for tr in st if bool(tr)]
+
             # Merge waveforms channel-by-channel with no-clobber merge
             st = util.merge_stream(st)
 
-- 
2.43.0


From 161703a9db46ee3ecd6d6d85ef7a087f3d3b0541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 06/63] fix: keep decimated grid nodes at their own coordinates

Grid3D.decimate keeps nodes starting c1 nodes in from the corner, but left
ll_corner at the original corner, so every coordinate derived from a lookup table
decimated with a remainder (c1 > 0) was shifted by c1 * node_spacing.
---
 quakemigrate/lut/lut.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 310cc96..346dcca 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -127,6 +127,8 @@ class Grid3D:
         else:
             grid = copy.deepcopy(self)
 
+        # The first node kept is `c1` nodes in from the corner of the original grid
+        grid.ll_corner = self.ll_corner + c1 * self.node_spacing
         grid.node_count = new_node_count
         grid.node_spacing = self.node_spacing * df
 
-- 
2.43.0


From af70a903428a09e9d9a33708342899e4e276891d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 07/63] fix: write event time windows only when asked for, and
 once

write_triggered_events extended the module-level list of output columns, so every
later trigger run in the same process wrote them too, and repeatedly.
---
 quakemigrate/io/triggered_events.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/io/triggered_events.py b/quakemigrate/io/triggered_events.py
index 059c5c5..aa8710a 100644
--- a/quakemigrate/io/triggered_events.py
+++ b/quakemigrate/io/triggered_events.py
@@ -125,9 +125,9 @@ def write_triggered_events(run, events, starttime, write_event_time_windows):
     fpath = run.path / "trigger" / run.subname / "events"
     fpath.mkdir(exist_ok=True, parents=True)
 
-    output_cols = OUTPUT_COLS
+    output_cols = list(OUTPUT_COLS)
     if write_event_time_windows:
-        output_cols.extend(["MinTime", "MaxTime"])
+        output_cols += ["MinTime", "MaxTime"]
 
     # Work on a copy
     events = events.copy()
-- 
2.43.0


From fadf91d1e2bd093bcaa5716f3e6eedca4532ff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 08/63] fix: trigger from all scanned data when the scan has
 gaps

read_scanmseed kept only the first gap-free segment of the saved coalescence, so that
every event after the first gap was silently lost.
---
 quakemigrate/io/scanmseed.py | 39 +++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/quakemigrate/io/scanmseed.py b/quakemigrate/io/scanmseed.py
index 59937b8..4e2b82d 100644
--- a/quakemigrate/io/scanmseed.py
+++ b/quakemigrate/io/scanmseed.py
@@ -299,15 +299,27 @@ def read_scanmseed(run, starttime, endtime, pad, ucf):
         raise util.NoScanMseedDataException
 
     scanmseed.merge(method=-1)
-    stats = scanmseed.select(station="COA")[0].stats
-
-    data = pd.DataFrame()
-    data["DT"] = scanmseed[0].times(type="utcdatetime")
-    data["COA"] = scanmseed.select(station="COA")[0].data / 1e5
-    data["COA_N"] = scanmseed.select(station="COA_N")[0].data / 1e5
-    data["X"] = scanmseed.select(station="X")[0].data / 1e6
-    data["Y"] = scanmseed.select(station="Y")[0].data / 1e6
-    data["Z"] = scanmseed.select(station="Z")[0].data / (1e3 * ucf)
+    scanmseed.sort(keys=["station", "starttime"])
+    coa = scanmseed.select(station="COA")
+    stats = coa[0].stats.copy()
+
+    def _concatenate(channel, factor):
+        segments = [tr.data for tr in scanmseed.select(station=channel)]
+        return np.concatenate(segments) / factor
+
+    # Any gaps in the scan (i.e. periods for which detect has not been run) split it into
+    # several segments; the index counts samples from the start of the first segment, so
+    # that it is only contiguous within a segment.
+    offsets = [round((tr.stats.starttime - stats.starttime) / stats.delta) for tr in coa]
+    data = pd.DataFrame(
+        index=np.concatenate([i + np.arange(tr.stats.npts) for i, tr in zip(offsets, coa)])
+    )
+    data["DT"] = np.concatenate([tr.times(type="utcdatetime") for tr in coa])
+    data["COA"] = _concatenate("COA", 1e5)
+    data["COA_N"] = _concatenate("COA_N", 1e5)
+    data["X"] = _concatenate("X", 1e6)
+    data["Y"] = _concatenate("Y", 1e6)
+    data["Z"] = _concatenate("Z", 1e3 * ucf)
 
     # Check if the data covers the entirety of the requested period
     if stats.starttime > starttime:
@@ -316,10 +328,13 @@ def read_scanmseed(run, starttime, endtime, pad, ucf):
         )
     elif stats.starttime > readstart:
         logging.info("\t    Warning! No .scanmseed data found for pre-pad!")
-    if stats.endtime < endtime:
+    last = coa[-1].stats.endtime
+    if last < endtime:
         logging.info("\n\t    Warning! .scanmseed endtime is before trigger() endtime!")
-    elif stats.endtime < readend:
+    elif last < readend:
         logging.info("\t    Warning! No .scanmseed data found for post-pad!")
-    logging.info(f"\t    ...from {stats.starttime} - {stats.endtime}.")
+    if len(coa) > 1:
+        logging.info("\t    Warning! .scanmseed data contains gaps!")
+    logging.info(f"\t    ...from {stats.starttime} - {last}.")
 
     return data, stats
-- 
2.43.0


From 964c981886f081b51a5a32100e561462cc02fd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 09/63] fix: replace the triggered events file when no event is
 triggered

A run without any candidate left the file of an earlier run over the same day in place,
and locate then processed its events.
---
 quakemigrate/signal/trigger.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index 9b9c199..e9e972c 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -359,8 +359,8 @@ class Trigger:
                 "\tNo events triggered at this threshold - try a lower detection "
                 "threshold."
             )
-            events = candidate_events
-            discarded = candidate_events
+            events = pd.DataFrame(columns=REFINED_EVENTS_COLS)
+            discarded = events
         else:
             refined_events = self._refine_candidates(candidate_events)
             logging.debug(refined_events)
@@ -374,10 +374,12 @@ class Trigger:
                 f"\n\t\t{len(events)} event(s) triggered within the specified region "
                 f"between {batchstart} \n\t\tand {batchend}"
             )
-            logging.info("\n\tWriting triggered events to file...")
-            write_triggered_events(
-                self.run, events, batchstart, self.write_event_time_windows
-            )
+
+        # Also if there are none: a file from a previous run must not be left in place
+        logging.info("\n\tWriting triggered events to file...")
+        write_triggered_events(
+            self.run, events, batchstart, self.write_event_time_windows
+        )
 
         if self.plot_trigger_summary:
             logging.info("\n\tPlotting trigger summary...")
-- 
2.43.0


From 40b052959243a56422c671c21bc31eff352dac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 10/63] fix: never leave a torn or shortened scanmseed file
 behind

---
 quakemigrate/io/scanmseed.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/io/scanmseed.py b/quakemigrate/io/scanmseed.py
index 4e2b82d..6f02a99 100644
--- a/quakemigrate/io/scanmseed.py
+++ b/quakemigrate/io/scanmseed.py
@@ -10,6 +10,7 @@ Module to handle input/output of .scanmseed files.
 
 """
 
+import io
 import logging
 
 import numpy as np
@@ -209,14 +210,23 @@ class ScanmSEED:
         fstem = f"{starttime.year}_{starttime.julday:03d}"
         file = (fpath / fstem).with_suffix(".scanmseed")
 
+        # Encode in memory: exceptions raised while ObsPy writes MSEED to a file are lost
+        buffer = io.BytesIO()
         try:
-            st.write(str(file), format="MSEED", encoding="STEIM2")
+            st.write(buffer, format="MSEED", encoding="STEIM2")
         except InternalMSEEDError as e:
             logging.debug(
                 f"Cannot compress data: {e}\nUnable to compress data using STEIM2 - "
                 "falling back on STEIM1."
             )
-            st.write(str(file), format="MSEED", encoding="STEIM1")
+            buffer = io.BytesIO()
+            st.write(buffer, format="MSEED", encoding="STEIM1")
+
+        # Replace the file as a whole, so that data which has already been saved is not
+        # lost if writing is interrupted
+        tmp_file = file.with_suffix(".scanmseed.tmp")
+        tmp_file.write_bytes(buffer.getvalue())
+        tmp_file.replace(file)
         self.written = True
 
     def _data2int(self, data, factor):
-- 
2.43.0


From 7d35d8c8c43da08100e0c71c4826c6d9aa5b9337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 11/63] fix: report errors while writing cut waveforms

---
 quakemigrate/io/cut_waveforms.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/io/cut_waveforms.py b/quakemigrate/io/cut_waveforms.py
index 072321d..d723102 100644
--- a/quakemigrate/io/cut_waveforms.py
+++ b/quakemigrate/io/cut_waveforms.py
@@ -10,6 +10,7 @@ Module to handle input/output of cut waveforms.
 
 """
 
+import io
 import logging
 import warnings
 
@@ -210,4 +211,12 @@ def write_waveforms(st, fpath, fstem, file_format):
         suffix = ".waveforms"
 
     file = (fpath / fstem).with_suffix(suffix)
-    st.write(str(file), format=file_format)
+
+    if file_format == "MSEED":
+        # Encode in memory: exceptions raised while ObsPy writes MSEED to a file (e.g.
+        # because the disk is full) are lost
+        buffer = io.BytesIO()
+        st.write(buffer, format=file_format)
+        file.write_bytes(buffer.getvalue())
+    else:
+        st.write(str(file), format=file_format)
-- 
2.43.0


From 61b985828e9729d60c24789e14ca2b173d5e708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 12/63] fix: skip channels with an incomplete instrument
 response instead of aborting

---
 quakemigrate/io/data.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 52991c1..136dbe9 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -705,8 +705,13 @@ class WaveformData:
             except Exception as e:
                 raise util.ResponseNotFoundError(str(e), tr.id)
 
-            # Get the instrument transfer function as a PAZ dictionary
-            paz = response.get_paz()
+            # Get the instrument transfer function as a PAZ dictionary. The response may
+            # lack a PAZ stage, or the instrument sensitivity.
+            try:
+                paz = response.get_paz()
+                sensitivity = response.instrument_sensitivity.value
+            except Exception as e:
+                raise util.ResponseRemovalError(str(e), tr.id)
 
             if not velocity:
                 paz.zeros.extend([0j])
@@ -715,7 +720,7 @@ class WaveformData:
                 "poles": paz.poles,
                 "zeros": paz.zeros,
                 "gain": paz.normalization_factor,
-                "sensitivity": response.instrument_sensitivity.value,
+                "sensitivity": sensitivity,
             }
 
             try:
@@ -742,7 +747,7 @@ class WaveformData:
                     water_level=self.water_level,
                     taper=True,
                 )
-            except ValueError as e:
+            except Exception as e:
                 raise util.ResponseRemovalError(e, tr.id)
 
         try:
-- 
2.43.0


From ab4dc730b3e691c47d916c86ef1cc66749c7930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 13/63] fix: do not measure amplitudes on flatlined channels

---
 quakemigrate/signal/local_mag/amplitude.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/amplitude.py b/quakemigrate/signal/local_mag/amplitude.py
index b74947a..0af27cd 100644
--- a/quakemigrate/signal/local_mag/amplitude.py
+++ b/quakemigrate/signal/local_mag/amplitude.py
@@ -318,10 +318,12 @@ class Amplitude:
                 tr = st.select(component=comp)
                 # if trace is empty (no traces) or there is more than 1 (gaps),
                 # or data isn't continuous within the time window where data is
-                # needed to make the amplitude measurements, skip
+                # needed to make the amplitude measurements, or the channel is dead
+                # (flatlined; only round-off noise would be measured), skip
                 if (
                     bool(tr)
                     and len(tr) == 1
+                    and tr[0].data.max() != tr[0].data.min()
                     and tr[0].stats.starttime < (tr_start + tr[0].stats.delta)
                     and tr[0].stats.endtime > (tr_end - tr[0].stats.delta)
                 ):
-- 
2.43.0


From 44f9c7b09a7bedb0215e8682d0c0da7329093855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 14/63] fix: write real and Wood-Anderson waveforms in the
 requested units for all data

---
 quakemigrate/io/cut_waveforms.py | 33 +++++++++++---------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/quakemigrate/io/cut_waveforms.py b/quakemigrate/io/cut_waveforms.py
index d723102..6898e85 100644
--- a/quakemigrate/io/cut_waveforms.py
+++ b/quakemigrate/io/cut_waveforms.py
@@ -106,28 +106,17 @@ def write_cut_waveforms(
             st.remove(tr)
 
     if waveform_type == "real" or waveform_type == "wa":
-        if (
-            waveform_type == "real"
-            and isinstance(event.data.real_waveforms, Stream)
-            and not pre_cut
-            and not post_cut
-        ):
-            st = event.data.real_waveforms
-        elif (
-            waveform_type == "wa"
-            and isinstance(event.data.wa_waveforms, Stream)
-            and not pre_cut
-            and not post_cut
-        ):
-            st = event.data.wa_waveforms
-        else:
-            try:
-                st = get_waveforms(st, event, waveform_type, units)
-            except AttributeError as e:
-                raise AttributeError(
-                    "To output real or Wood-Anderson cut waveforms you must supply an "
-                    "instrument response inventory."
-                ) from e
+        # Always computed from the raw waveforms: any real / Wood-Anderson waveforms
+        # stored with the event data during the magnitude calculation are displacement
+        # seismograms, cut to the window needed for the amplitude measurements, for only
+        # those channels for which amplitudes could be measured
+        try:
+            st = get_waveforms(st, event, waveform_type, units)
+        except AttributeError as e:
+            raise AttributeError(
+                "To output real or Wood-Anderson cut waveforms you must supply an "
+                "instrument response inventory."
+            ) from e
 
     if bool(st):
         write_waveforms(st, fpath, fstem, file_format)
-- 
2.43.0


From 5786a69d554febea72279a21591ec1a50ac0d1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 15/63] fix: keep the last sample of the marginal window in the
 coalescence map

---
 quakemigrate/io/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/event.py b/quakemigrate/io/event.py
index 2d44e0b..b60052a 100644
--- a/quakemigrate/io/event.py
+++ b/quakemigrate/io/event.py
@@ -431,7 +431,7 @@ class Event:
             (self.coa_data["DT"] >= window_start) & (self.coa_data["DT"] <= window_end)
         ]
         self.map4d = self.map4d[
-            :, :, :, self.coa_data.index[0] : self.coa_data.index[-1]
+            :, :, :, self.coa_data.index[0] : self.coa_data.index[-1] + 1
         ]
         self.coa_data.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From 8f6fbb750eccbbfd5c401e6bdd8ae13f4c70f269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:38 +0000
Subject: [PATCH 16/63] fix: give every run with logging on its own log file

Only the first run in a process got a log file (and none if the root logger
had been configured); the messages of all later runs went into it. Runs started
within the same second shared a file.
---
 quakemigrate/util.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index d4fd81c..e87419c 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -134,19 +134,36 @@ def logger(logstem, log, loglevel="info"):
     """
 
     level = logging.DEBUG if loglevel == "debug" else logging.INFO
+    root = logging.getLogger()
 
+    # Remove the handlers of any previous run in this process, so that it does not
+    # receive the messages of this one
+    for handler in root.handlers[:]:
+        if getattr(handler, "quakemigrate", False):
+            root.removeHandler(handler)
+            handler.close()
+
+    # Leave any logging set up by the user as it is
+    handlers = [] if root.handlers else [logging.StreamHandler(sys.stdout)]
     if log:
         now = datetime.now().strftime("%Y-%m-%d_%H-%M-%S")
-        logfile = logstem.parent / f"{logstem.name}_{now}"
-        logfile.parent.mkdir(exist_ok=True, parents=True)
-        handlers = [
-            logging.FileHandler(str(logfile.with_suffix(".log"))),
-            logging.StreamHandler(sys.stdout),
-        ]
-    else:
-        handlers = [logging.StreamHandler(sys.stdout)]
-
-    logging.basicConfig(level=level, format="%(message)s", handlers=handlers)
+        logstem.parent.mkdir(exist_ok=True, parents=True)
+        logfile, i = logstem.parent / f"{logstem.name}_{now}.log", 0
+        while True:
+            try:
+                handlers.append(logging.FileHandler(str(logfile), mode="x"))
+                break
+            except FileExistsError:
+                i += 1
+                logfile = logstem.parent / f"{logstem.name}_{now}_{i}.log"
+
+    if handlers:
+        root.setLevel(min(root.level, level) if root.handlers else level)
+    for handler in handlers:
+        handler.quakemigrate = True
+        handler.setLevel(level)
+        handler.setFormatter(logging.Formatter("%(message)s"))
+        root.addHandler(handler)
 
 
 def time2sample(time, sampling_rate):
-- 
2.43.0


From 2d108cb10dc4e2396423fbe1cd53607c9fe76ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 17/63] fix: start the log of a trigger run when it runs, not
 when it is set up

With several Trigger objects set up before the first run, or one used for
several runs, messages went into the log file of another run.
---
 quakemigrate/signal/trigger.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index e9e972c..d1cf7b5 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -207,7 +207,7 @@ class Trigger:
             "trigger",
             loglevel=kwargs.get("loglevel", "info"),
         )
-        self.run.logger(kwargs.get("log", False))
+        self.log = kwargs.get("log", False)
 
         # --- Grab Trigger parameters or set defaults ---
         self.threshold_method = kwargs.get("threshold_method", "static")
@@ -295,6 +295,9 @@ class Trigger:
 
         """
 
+        # Configure logging
+        self.run.logger(self.log)
+
         starttime, endtime = UTCDateTime(starttime), UTCDateTime(endtime)
         if starttime > endtime:
             raise util.TimeSpanException
-- 
2.43.0


From b4dcf7ffa3fdcb69123900df53a19b0dd73e0bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 18/63] fix: recognise on-sample data at non-integer sampling
 rates

Samples at e.g. 62.5 Hz fall half way between those expected in every other
second, and were shifted by half a sample as if they were off-sample.
---
 quakemigrate/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index e87419c..4b6feb9 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -364,8 +364,12 @@ def shift_to_sample(stream, interpolate=False):
 
     for tr in stream:
         # Check if microsecond is divisible by sampling rate; only guaranteed to work
-        # for sampling rates of 1 Hz or less
-        delta = tr.stats.starttime.microsecond % (1e6 / tr.stats.sampling_rate)
+        # for sampling rates of 1 Hz or less. Samples at e.g. 62.5 Hz only fall on the
+        # same microseconds again every 2 seconds.
+        sampling_rate = tr.stats.sampling_rate
+        repeat = [n for n in (1, 2, 4, 5, 10) if round(n * sampling_rate, 3) % 1 == 0]
+        seconds = tr.stats.starttime.second % repeat[0] if repeat else 0
+        delta = (seconds * 1e6 + tr.stats.starttime.microsecond) % (1e6 / sampling_rate)
         if delta == 0:
             if tr.stats.sampling_rate < 1.0:
                 logging.warning(
-- 
2.43.0


From 60a12bcd2eb6c747d24626fc3587f80fea1028ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 19/63] fix: do not fail on a single off-sample sample with
 interpolation on

---
 quakemigrate/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index 4b6feb9..360dae5 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -383,7 +383,8 @@ def shift_to_sample(stream, interpolate=False):
                 round(delta / 1e6 * tr.stats.sampling_rate) / tr.stats.sampling_rate
                 - delta / 1e6
             )
-            if not interpolate:
+            # (a single sample can't be interpolated)
+            if not interpolate or tr.stats.npts < 2:
                 logging.info(
                     f"Trace\n\t{tr}\nhas off-sample data. Applying "
                     f"{time_shift:+f} s shift to timing."
-- 
2.43.0


From 28e52ed1be3f52729bf7f19cd55e74831dc1e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:52 +0000
Subject: [PATCH 20/63] fix: do not resample SAC data for rounding errors of
 their sampling interval

---
 quakemigrate/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index 360dae5..1350ba2 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -383,8 +383,10 @@ def shift_to_sample(stream, interpolate=False):
                 round(delta / 1e6 * tr.stats.sampling_rate) / tr.stats.sampling_rate
                 - delta / 1e6
             )
-            # (a single sample can't be interpolated)
-            if not interpolate or tr.stats.npts < 2:
+            # (a single sample can't be interpolated, and a shift within the precision of
+            # the timestamps - e.g. from the single-precision sampling interval of SAC
+            # files - is no reason to)
+            if not interpolate or tr.stats.npts < 2 or abs(time_shift) < 2e-6:
                 logging.info(
                     f"Trace\n\t{tr}\nhas off-sample data. Applying "
                     f"{time_shift:+f} s shift to timing."
-- 
2.43.0


From 56a13912ccf18c568f9d1af4ecb591b34608f3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:01 +0000
Subject: [PATCH 21/63] fix: keep data starting or ending up to half a sample
 outside the window

---
 quakemigrate/io/data.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 136dbe9..dfc41e9 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -302,10 +302,13 @@ class Archive:
                     logging.info(f"File not compatible with ObsPy - {file}")
                     continue
 
-            # Trim off the margin trace-by-trace (`Stream.trim` would use the sample times
-            # of the first trace for all of them)
+            # Trim off the margin trace-by-trace, keeping the samples nearest to the start
+            # and end (`Stream.trim` would use the sample times of the first trace for all
+            # of them; with `nearest_sample=True` a trace starting up to half a sample
+            # after the end, or ending up to half a sample before the start, is lost)
             for tr in st:
-                tr.trim(starttime=read_start, endtime=read_end, nearest_sample=True)
+                half = tr.stats.delta / 2
+                tr.trim(read_start - 0.999 * half, read_end + half, nearest_sample=False)
             st.traces = [tr for tr in st if bool(tr)]
 
             # Merge waveforms channel-by-channel with no-clobber merge
-- 
2.43.0


From 9fa0c600122f94f3bea4a3f81c50126cae53c77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:01 +0000
Subject: [PATCH 22/63] fix: raise errors reading the waveform archive instead
 of taking the data as missing

---
 quakemigrate/io/data.py | 60 +++++++++++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 8 deletions(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index dfc41e9..876963c 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -10,8 +10,10 @@ Module for processing waveform files stored in a data archive.
 
 """
 
+from fnmatch import fnmatchcase
 from itertools import chain
 import logging
+import os
 import pathlib
 
 from obspy import read, Stream, UTCDateTime
@@ -290,13 +292,20 @@ class Archive:
             files = chain([first], files)
             for file in files:
                 file = str(file)
+                kwargs = dict(
+                    starttime=read_start - margin,
+                    endtime=read_end + margin,
+                    nearest_sample=True,
+                )
                 try:
-                    st += read(
-                        file,
-                        starttime=read_start - margin,
-                        endtime=read_end + margin,
-                        nearest_sample=True,
-                    )
+                    try:
+                        st += read(file, **kwargs)
+                    except (TypeError, ObsPyException):
+                        # ObsPy may take an error while reading the file to mean that its
+                        # format is unknown. Raise this error, or try again if it's gone
+                        with open(file, "rb") as f:
+                            f.read()
+                        st += read(file, **kwargs)
                 except (TypeError, ObsPyException):
                     # Unknown format, or damaged / truncated file
                     logging.info(f"File not compatible with ObsPy - {file}")
@@ -392,16 +401,51 @@ class Archive:
             if self.read_all_stations is True:
                 file_format = temp_format.format(station="*")
                 file_format = file_format.replace("**", "*")
-                files = chain(files, self.archive_path.glob(file_format))
+                files = chain(files, _glob(self.archive_path, file_format))
             else:
                 for station in self.stations:
                     file_format = temp_format.format(station=station)
-                    files = chain(files, self.archive_path.glob(file_format))
+                    files = chain(files, _glob(self.archive_path, file_format))
             loadstart += 86400
 
         return files
 
 
+def _glob(path, pattern):
+    """
+    List the paths matching a pattern, as does `pathlib.Path.glob()`, but raise the error
+    if a directory can't be read (rather than silently take it to be empty).
+
+    Parameters
+    ----------
+    path : `pathlib.Path` object
+        Directory the pattern is relative to.
+    pattern : str
+        Glob-style pattern.
+
+    Yields
+    ------
+    path : `pathlib.Path` object
+        Matching path.
+
+    """
+
+    part, _, rest = pattern.lstrip("/").partition("/")
+    if part == "**":
+        yield from path.glob(pattern)
+        return
+
+    try:
+        names = [name for name in os.listdir(path) if fnmatchcase(name, part)]
+    except (FileNotFoundError, NotADirectoryError, PermissionError):
+        return
+    for name in names:
+        if rest:
+            yield from _glob(path / name, rest)
+        else:
+            yield path / name
+
+
 class WaveformData:
     """
     The WaveformData class encapsulates the waveform data returned by an Archive query.
-- 
2.43.0


From a01d4dfcf5a2f6aa5d8e2eec8ecfdc942f9b4d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:27 +0000
Subject: [PATCH 23/63] fix: set the pads of the onset when a scan runs, not
 when it is set up

An Onset object shared by several scans kept the padding for the lookup
table of the scan created last.
---
 quakemigrate/signal/scan.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index 8aeb5f9..873c692 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -423,6 +423,8 @@ class QuakeScan:
             self.run, self.continuous_scanmseed_write, self.scan_rate
         )
 
+        # The onset may be shared with a scan that uses another lookup table
+        self.onset.post_pad = self.lut.max_traveltime
         self.pre_pad, self.post_pad = self.onset.pad(self.timestep)
         availability_cols = np.array(
             [
@@ -492,6 +494,8 @@ class QuakeScan:
         triggered_events = read_triggered_events(self.run, **kwargs)
         n_events = len(triggered_events.index)
 
+        # The onset may be shared with a scan that uses another lookup table
+        self.onset.post_pad = self.lut.max_traveltime
         self.pre_pad, self.post_pad = self.onset.pad(4 * self.marginal_window)
 
         for i, triggered_event in triggered_events.iterrows():
-- 
2.43.0


From 07b6155c1828711e6c3941bd3dc6f54e7556a3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 24/63] fix: trim each trace to its own samples before
 measuring amplitudes

Stream.trim() aligned all channels of a station to the samples of the
first trace, so amplitudes depended on the order of the channels.
---
 quakemigrate/signal/local_mag/amplitude.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/amplitude.py b/quakemigrate/signal/local_mag/amplitude.py
index 0af27cd..4f28c03 100644
--- a/quakemigrate/signal/local_mag/amplitude.py
+++ b/quakemigrate/signal/local_mag/amplitude.py
@@ -311,7 +311,10 @@ class Amplitude:
             st = event.data.raw_waveforms.select(station=station).copy()
             # Trim to padding window to ensure taper does not encroach on the
             # noise or signal window.
-            st.trim(starttime=tr_start, endtime=tr_end)
+            # Trace by trace, as they may differ in sampling rate and timing.
+            for tr in st:
+                tr.trim(starttime=tr_start, endtime=tr_end)
+            st.traces = [tr for tr in st if tr.stats.npts]
 
             for j, comp in enumerate(["[E,2]", "[N,1]", "Z"]):
                 amps = amps_template.copy()
-- 
2.43.0


From f7d784f273ea30d6f207dee5cbce995aafbb7283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 25/63] fix: read files and merge channels in a fixed order

The order of directory listings and of a set decided the order of the
channels in output files and which of several conflicting traces came first.
---
 quakemigrate/io/data.py | 4 ++--
 quakemigrate/util.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 876963c..8a93e4d 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -432,11 +432,11 @@ def _glob(path, pattern):
 
     part, _, rest = pattern.lstrip("/").partition("/")
     if part == "**":
-        yield from path.glob(pattern)
+        yield from sorted(path.glob(pattern))
         return
 
     try:
-        names = [name for name in os.listdir(path) if fnmatchcase(name, part)]
+        names = [n for n in sorted(os.listdir(path)) if fnmatchcase(n, part)]
     except (FileNotFoundError, NotADirectoryError, PermissionError):
         return
     for name in names:
diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index 1350ba2..beec260 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -649,7 +649,7 @@ def merge_stream(stream):
     # Work on a copy
     stream = stream.copy()
 
-    seed_ids = set([trace.id for trace in stream])
+    seed_ids = sorted(set([trace.id for trace in stream]))
     stream_merged = Stream()
     with warnings.catch_warnings():
         warnings.filterwarnings("error")
-- 
2.43.0


From 09c7b2cc782d847dae34e432124543728e6e93b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 26/63] fix: never leave torn event, pick, amplitude, trigger
 or availability files

A kill or write error while a .csv output was being written left a
truncated file, whose last line reads as a valid but wrong result.
---
 quakemigrate/io/amplitudes.py       |  4 +++-
 quakemigrate/io/availability.py     |  2 +-
 quakemigrate/io/event.py            |  2 +-
 quakemigrate/io/triggered_events.py |  2 +-
 quakemigrate/signal/pickers/base.py |  4 +++-
 quakemigrate/util.py                | 22 ++++++++++++++++++++++
 6 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/quakemigrate/io/amplitudes.py b/quakemigrate/io/amplitudes.py
index b46ff82..956f6ad 100644
--- a/quakemigrate/io/amplitudes.py
+++ b/quakemigrate/io/amplitudes.py
@@ -10,6 +10,8 @@ Module to handle input/output of .amps files.
 
 """
 
+import quakemigrate.util as util
+
 
 def write_amplitudes(run, amplitudes, event):
     """
@@ -66,4 +68,4 @@ def write_amplitudes(run, amplitudes, event):
     fstem = f"{event.uid}"
     file = (fpath / fstem).with_suffix(".amps")
 
-    amplitudes.to_csv(file, index=True)
+    util.write_csv(amplitudes, file, index=True)
diff --git a/quakemigrate/io/availability.py b/quakemigrate/io/availability.py
index 59caf0c..c05b870 100644
--- a/quakemigrate/io/availability.py
+++ b/quakemigrate/io/availability.py
@@ -147,4 +147,4 @@ def write_availability(run, availability):
         fstem = f"{date.year}_{date.julday:03d}_StationAvailability"
         file = (fpath / fstem).with_suffix(".csv")
 
-        to_write.to_csv(file)
+        util.write_csv(to_write, file)
diff --git a/quakemigrate/io/event.py b/quakemigrate/io/event.py
index b60052a..d97395e 100644
--- a/quakemigrate/io/event.py
+++ b/quakemigrate/io/event.py
@@ -505,7 +505,7 @@ class Event:
 
         fstem = f"{self.uid}"
         file = (fpath / fstem).with_suffix(".event")
-        event_df.to_csv(file, index=False)
+        util.write_csv(event_df, file, index=False)
 
     def get_hypocentre(self, method="spline"):
         """
diff --git a/quakemigrate/io/triggered_events.py b/quakemigrate/io/triggered_events.py
index aa8710a..c870f5a 100644
--- a/quakemigrate/io/triggered_events.py
+++ b/quakemigrate/io/triggered_events.py
@@ -135,4 +135,4 @@ def write_triggered_events(run, events, starttime, write_event_time_windows):
 
     fstem = f"{run.name}_{starttime.year}_{starttime.julday:03d}"
     file = (fpath / f"{fstem}_TriggeredEvents").with_suffix(".csv")
-    events.to_csv(file, index=False)
+    util.write_csv(events, file, index=False)
diff --git a/quakemigrate/signal/pickers/base.py b/quakemigrate/signal/pickers/base.py
index d6cc8fb..3b3cbc0 100644
--- a/quakemigrate/signal/pickers/base.py
+++ b/quakemigrate/signal/pickers/base.py
@@ -14,6 +14,8 @@ the package.
 
 from abc import ABC, abstractmethod
 
+import quakemigrate.util as util
+
 
 class PhasePicker(ABC):
     """
@@ -86,7 +88,7 @@ class PhasePicker(ABC):
 
         fstem = f"{event_uid}"
         fname = (fpath / fstem).with_suffix(".picks")
-        phase_picks.to_csv(fname, index=False)
+        util.write_csv(phase_picks, fname, index=False)
 
     def plot(self):
         """Method stub for phase pick plotting."""
diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index beec260..64ffc7f 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -664,6 +664,28 @@ def merge_stream(stream):
     return stream_merged
 
 
+def write_csv(data, file, **kwargs):
+    """
+    Write a DataFrame to a .csv file as a whole: if writing is interrupted, any previous
+    version of the file is left in place and no incomplete file is left behind under its
+    name.
+
+    Parameters
+    ----------
+    data : `pandas.DataFrame` object
+        Data to write.
+    file : `pathlib.Path` object
+        File to write to.
+    kwargs : dict
+        Passthrough for `pandas.DataFrame.to_csv` kwargs.
+
+    """
+
+    tmp_file = file.with_name(f"{file.name}.tmp")
+    data.to_csv(tmp_file, **kwargs)
+    tmp_file.replace(file)
+
+
 def pairwise(iterable):
     """Utility to iterate over an iterable pairwise."""
 
-- 
2.43.0


From 482b6b1149513ebbd3084b2cac6dc3e9eb6155cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 27/63] fix: export an empty catalogue for a run that located
 no event

---
 quakemigrate/export/to_obspy.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/quakemigrate/export/to_obspy.py b/quakemigrate/export/to_obspy.py
index af8b301..d04cefb 100644
--- a/quakemigrate/export/to_obspy.py
+++ b/quakemigrate/export/to_obspy.py
@@ -11,7 +11,6 @@ Catalog.
 
 """
 
-from itertools import chain
 import pathlib
 
 import pandas as pd
@@ -71,13 +70,8 @@ def read_quakemigrate(run_dir, units, run_subname="", local_mag_ph="S"):
     locate_dir = pathlib.Path(run_dir) / "locate" / run_subname
     events_dir = locate_dir / "events"
 
-    if events_dir.is_dir():
-        try:
-            event_files = events_dir.glob("*.event")
-            first = next(event_files)
-            event_files = chain([first], event_files)
-        except StopIteration:
-            pass
+    # No events directory is created if no event is located
+    event_files = sorted(events_dir.glob("*.event")) if events_dir.is_dir() else []
 
     cat = Catalog()
 
-- 
2.43.0


From eb7d250cf1f9c9417271b63dd1110874ed83abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 28/63] fix: keep station names such as 001 and NA when
 exporting picks

---
 quakemigrate/export/to_obspy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/export/to_obspy.py b/quakemigrate/export/to_obspy.py
index d04cefb..7af41a2 100644
--- a/quakemigrate/export/to_obspy.py
+++ b/quakemigrate/export/to_obspy.py
@@ -209,7 +209,10 @@ def _read_single_event(event_file, locate_dir, units, local_mag_ph):
     # --- Handle picks file ---
     pick_file = locate_dir / "picks" / event_uid
     if pick_file.with_suffix(".picks").is_file():
-        picks = pd.read_csv(pick_file.with_suffix(".picks"))
+        # Station names such as "001" or "NA" must be left as they are
+        picks = pd.read_csv(
+            pick_file.with_suffix(".picks"), converters={"Station": str}
+        )
     else:
         return None
 
-- 
2.43.0


From 2d5aa8b4097887243949f8eb5972e7d43963b195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 29/63] fix: do not fail exporting an event located again
 without magnitudes

---
 quakemigrate/export/to_obspy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/export/to_obspy.py b/quakemigrate/export/to_obspy.py
index 7af41a2..1bbbf15 100644
--- a/quakemigrate/export/to_obspy.py
+++ b/quakemigrate/export/to_obspy.py
@@ -239,7 +239,8 @@ def _read_single_event(event_file, locate_dir, units, local_mag_ph):
 
     # --- Handle amplitudes file ---
     amps_file = locate_dir / "amplitudes" / event_uid
-    if amps_file.with_suffix(".amps").is_file():
+    # Amplitudes left by an earlier run do not belong to an event without a magnitude
+    if "ML" in event_info and amps_file.with_suffix(".amps").is_file():
         amps = pd.read_csv(amps_file.with_suffix(".amps"))
 
         i = 0
-- 
2.43.0


From b1801e25a8b0ea24c91b52bc0bb2eaccdd11e073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 30/63] fix: write fractional seconds of snuffler markers with
 leading zeros

---
 quakemigrate/export/to_snuffler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/export/to_snuffler.py b/quakemigrate/export/to_snuffler.py
index c578a6d..7f33409 100644
--- a/quakemigrate/export/to_snuffler.py
+++ b/quakemigrate/export/to_snuffler.py
@@ -98,7 +98,7 @@ def snuffler_markers(event, output_path, filename=None):
         hr=str(origin.time.hour).zfill(2),
         min=str(origin.time.minute).zfill(2),
         sec=str(origin.time.second).zfill(2),
-        msec=origin.time.microsecond,
+        msec=str(origin.time.microsecond).zfill(6),
         eventid=str(event.resource_id),
     )
 
@@ -118,7 +118,7 @@ def snuffler_markers(event, output_path, filename=None):
                 hr=str(pick.time.hour).zfill(2),
                 min=str(pick.time.minute).zfill(2),
                 sec=str(pick.time.second).zfill(2),
-                msec=pick.time.microsecond,
+                msec=str(pick.time.microsecond).zfill(6),
                 nw=pick.waveform_id.network_code,
                 stat=pick.waveform_id.station_code,
                 comp=comp,
-- 
2.43.0


From e46f69ae3342f37be1d35e1d094425e03446a287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 31/63] fix: write each station's own network code to snuffler
 station files

---
 quakemigrate/export/to_snuffler.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/quakemigrate/export/to_snuffler.py b/quakemigrate/export/to_snuffler.py
index 7f33409..e5ae7aa 100644
--- a/quakemigrate/export/to_snuffler.py
+++ b/quakemigrate/export/to_snuffler.py
@@ -38,13 +38,12 @@ def snuffler_stations(stations, output_path, filename, network_code=None):
     with output.open(mode="w") as f:
         for i, station in stations.iterrows():
             if network_code is None:
-                try:
-                    network_code = station["Network"]
-                except KeyError:
-                    network_code = ""
+                nw = station.get("Network", "")
+            else:
+                nw = network_code
 
             line = line_template.format(
-                nw=network_code,
+                nw=nw,
                 stat=station["Name"],
                 lat=station["Latitude"],
                 lon=station["Longitude"],
-- 
2.43.0


From d1939e6a2272efb3cb171e9a9067564436efa906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 32/63] fix: keep station names such as 001 and NA when reading
 the station file

---
 quakemigrate/io/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/io/core.py b/quakemigrate/io/core.py
index 99f1463..36db55b 100644
--- a/quakemigrate/io/core.py
+++ b/quakemigrate/io/core.py
@@ -87,6 +87,8 @@ def read_stations(station_file, **kwargs):
 
     """
 
+    # Station names such as "001" or "NA" must be left as they are
+    kwargs.setdefault("converters", {"Name": str})
     stn_data = pd.read_csv(station_file, **kwargs)
 
     if ("Latitude" or "Longitude" or "Elevation" or "Name") not in stn_data.columns:
-- 
2.43.0


From a0d5ca02a7f3a9a29c909045da3f2cf7b261591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 33/63] fix: export the SAC files of the stations and
 components that have data

A station or component without waveforms aborted the export of the event.
---
 quakemigrate/export/to_mfast.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/export/to_mfast.py b/quakemigrate/export/to_mfast.py
index ee45c67..34d5f62 100644
--- a/quakemigrate/export/to_mfast.py
+++ b/quakemigrate/export/to_mfast.py
@@ -91,8 +91,8 @@ def sac_mfast(event, stations, output_path, units, filename=None):
             if pick.waveform_id.station_code == station.Name:
                 picks.append(pick)
 
-        if not picks:
-            # If no phase picks for this station, continue
+        if not picks or not st:
+            # If no phase picks or no waveforms for this station, continue
             continue
 
         reference = st[0].stats.starttime
@@ -119,7 +119,10 @@ def sac_mfast(event, stations, output_path, units, filename=None):
             pick_header.a = p_pick
 
         for comp in ["Z", "N", "E"]:
-            tr = st.select(channel=f"*{comp}")[0]
+            tr = st.select(channel=f"*{comp}")
+            if not tr:
+                continue
+            tr = tr[0]
 
             # Write out to SAC file, then read in again to fill header
             name = filename.format(station.Name, comp.lower())
-- 
2.43.0


From 98d9ef353f6cddb67da5f7ec28832a652360f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:48 +0000
Subject: [PATCH 34/63] fix: give SAC pick times relative to the start of each
 component

---
 quakemigrate/export/to_mfast.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quakemigrate/export/to_mfast.py b/quakemigrate/export/to_mfast.py
index 34d5f62..3cf9fb6 100644
--- a/quakemigrate/export/to_mfast.py
+++ b/quakemigrate/export/to_mfast.py
@@ -137,5 +137,10 @@ def sac_mfast(event, stations, output_path, units, filename=None):
             sac_header.update(event_header)
             sac_header.update(station_header)
             sac_header.update(pick_header)
+            # Relative to the start of this component, which may start later
+            shift = reference - tr.stats.starttime
+            for key in ["o", "a", "t0"]:
+                if key in pick_header:
+                    sac_header[key] += shift
             tr.stats.sac.update(sac_header)
             tr.write(name, format="SAC")
-- 
2.43.0


From 7c53e987ced77462b3c5b71214ad1dfc9c06eb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:22 +0000
Subject: [PATCH 35/63] fix: raise errors listing the event files on export
 instead of taking them as missing

---
 quakemigrate/export/to_obspy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/export/to_obspy.py b/quakemigrate/export/to_obspy.py
index 1bbbf15..c6dcac5 100644
--- a/quakemigrate/export/to_obspy.py
+++ b/quakemigrate/export/to_obspy.py
@@ -71,7 +71,8 @@ def read_quakemigrate(run_dir, units, run_subname="", local_mag_ph="S"):
     events_dir = locate_dir / "events"
 
     # No events directory is created if no event is located
-    event_files = sorted(events_dir.glob("*.event")) if events_dir.is_dir() else []
+    files = sorted(events_dir.iterdir()) if events_dir.is_dir() else []
+    event_files = [file for file in files if file.suffix == ".event"]
 
     cat = Catalog()
 
-- 
2.43.0


From b30d8cb48b2517695808e71a5e2ccc203ebf5d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:55 +0000
Subject: [PATCH 36/63] fix: export events without a network magnitude instead
 of aborting the export

---
 quakemigrate/export/to_obspy.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/quakemigrate/export/to_obspy.py b/quakemigrate/export/to_obspy.py
index c6dcac5..27b1c2b 100644
--- a/quakemigrate/export/to_obspy.py
+++ b/quakemigrate/export/to_obspy.py
@@ -305,17 +305,19 @@ def _read_single_event(event_file, locate_dir, units, local_mag_ph):
 
                 event.amplitudes.append(amp)
 
-        mag = Magnitude()
-        mag.extra = AttribDict()
-        mag.mag = event_info["ML"]
-        mag.mag_errors.uncertainty = event_info["ML_Err"]
-        mag.magnitude_type = "ML"
-        # mag.origin_id = ?
-        mag.station_count = i
-        mag.evaluation_mode = "automatic"
-        mag.extra.r2 = {"value": event_info["ML_r2"], "namespace": ns}
-
-        event.magnitudes = [mag]
-        event.preferred_magnitude_id = mag.resource_id
+        # No network magnitude if no (suitable) amplitude could be measured
+        if not pd.isna(event_info["ML"]):
+            mag = Magnitude()
+            mag.extra = AttribDict()
+            mag.mag = event_info["ML"]
+            mag.mag_errors.uncertainty = event_info["ML_Err"]
+            mag.magnitude_type = "ML"
+            # mag.origin_id = ?
+            mag.station_count = i
+            mag.evaluation_mode = "automatic"
+            mag.extra.r2 = {"value": event_info["ML_r2"], "namespace": ns}
+
+            event.magnitudes = [mag]
+            event.preferred_magnitude_id = mag.resource_id
 
     return event
-- 
2.43.0


From b4bbc7b22d27cea9cd3fef71cea6c3f0f159814c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:58 +0000
Subject: [PATCH 37/63] fix: compute the classic STA/LTA afresh when the signal
 vanishes

The running sums keep the round-off error of the signal that has left the
windows. Where a channel goes dead within a time step the ratio of what is
left can take any value (or sign), far above the largest possible one,
nlta / nsta, and triggers events that are not there.
---
 quakemigrate/core/src/onsetlib.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/core/src/onsetlib.c b/quakemigrate/core/src/onsetlib.c
index fe14a1d..12ba4f8 100644
--- a/quakemigrate/core/src/onsetlib.c
+++ b/quakemigrate/core/src/onsetlib.c
@@ -36,9 +36,9 @@ void
 overlapping_sta_lta(const double * signal,
   const stalta_header * head, double * onset) {
 
-  int i;
+  int i, j;
   const double frac = (double) head -> nlta / (double) head -> nsta;
-  double buf, sta = 0., lta;
+  double buf, peak, sta = 0., lta;
 
   for (i = 0; i < head -> nsta; ++i) {
     sta += signal[i];
@@ -49,12 +49,28 @@ overlapping_sta_lta(const double * signal,
     lta += buf;
     sta += buf - signal[i - head -> nsta];
   }
-  onset[head -> nlta - 1] = sta / lta * frac;
+  peak = lta;
+  onset[head -> nlta - 1] = lta <= 0. ? 1. : sta / lta * frac;
   for (i = head -> nlta; i < head -> n; ++i) {
     buf = signal[i];
     sta += buf - signal[i - head -> nsta];
     lta += buf - signal[i - head -> nlta];
-    onset[i] = sta / lta * frac;
+    if (lta > peak) {
+      peak = lta;
+    } else if (lta < 1e-6 * peak) {
+      // The signal has (almost) vanished, e.g. as the channel went dead. What is left
+      // of the running sums is mostly round-off error: compute them afresh.
+      sta = 0.;
+      for (j = i; j > i - head -> nsta; --j) {
+        sta += signal[j];
+      }
+      lta = sta;
+      for (; j > i - head -> nlta; --j) {
+        lta += signal[j];
+      }
+      peak = lta;
+    }
+    onset[i] = lta <= 0. ? 1. : sta / lta * frac;
   }
 }
 
-- 
2.43.0


From a6b929a01a4a6479e35d2bfd75b4b9d2d77663c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:58 +0000
Subject: [PATCH 38/63] fix: cut the waveforms for each output from the same
 data

The raw waveforms were trimmed in place: with a sample exactly half-way between
two at the edge of the cut, the real and Wood-Anderson waveforms had a sample
less if raw waveforms were written, too.
---
 quakemigrate/io/cut_waveforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/io/cut_waveforms.py b/quakemigrate/io/cut_waveforms.py
index 6898e85..c94ea9d 100644
--- a/quakemigrate/io/cut_waveforms.py
+++ b/quakemigrate/io/cut_waveforms.py
@@ -90,7 +90,8 @@ def write_cut_waveforms(
     fpath.mkdir(exist_ok=True, parents=True)
     fstem = f"{event.uid}"
 
-    st = event.data.raw_waveforms
+    # (on a copy: other waveform types are cut from the same data)
+    st = event.data.raw_waveforms.copy()
 
     # "if pre_cut" catches both 0. and None
     if pre_cut:
-- 
2.43.0


From b08fe0b10af046d4947b23e07f97b865db3a3c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:58 +0000
Subject: [PATCH 39/63] fix: keep the padding for cut waveforms from affecting
 the data in the window

Padding was read and merged along with the window. An overlap or change of data
type in the padding kept the channel from being used at all, so that an event's
location depended on whether waveforms were to be cut or amplitudes measured.
---
 quakemigrate/io/data.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 8a93e4d..8272439 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -320,11 +320,18 @@ class Archive:
                 tr.trim(read_start - 0.999 * half, read_end + half, nearest_sample=False)
             st.traces = [tr for tr in st if bool(tr)]
 
-            # Merge waveforms channel-by-channel with no-clobber merge
-            st = util.merge_stream(st)
+            # Merge waveforms channel-by-channel with no-clobber merge. Make copy of raw
+            # waveforms to output if requested
+            data.raw_waveforms = util.merge_stream(st)
 
-            # Make copy of raw waveforms to output if requested
-            data.raw_waveforms = st.copy()
+            if pre_pad != 0.0 or post_pad != 0.0:
+                # Trim data between start and end time, before merging: what's in the
+                # padding (e.g. an overlap) must not affect the data in this window
+                for tr in st:
+                    half = tr.stats.delta / 2
+                    tr.trim(starttime - 0.999 * half, endtime + half, nearest_sample=False)
+                st.traces = [tr for tr in st if bool(tr)]
+            st = util.merge_stream(st)
 
             # Ensure data is timestamped "on-sample" (i.e. an integer number of samples
             # after midnight). Otherwise the data will be implicitly shifted when it is
@@ -339,13 +346,6 @@ class Archive:
                 st = st_selected.copy()
                 del st_selected
 
-            if pre_pad != 0.0 or post_pad != 0.0:
-                # Trim data between start and end time
-                for tr in st:
-                    tr.trim(starttime=starttime, endtime=endtime, nearest_sample=True)
-                    if not bool(tr):
-                        st.remove(tr)
-
             # Test if the stream is completely empty
             # (see __nonzero__ for `obspy.Stream` object)
             if not bool(st):
-- 
2.43.0


From 4594756f8bc40fc051bb5adfc017ad2d00bd4fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:15 +0000
Subject: [PATCH 40/63] fix: keep the samples of data beginning within a window
 on the window's sample grid

With full_timespan=False, decimated data that begins between two samples of the
scan was a sample longer or shorter than the rest once padded: detect and locate
stopped with a ValueError.
---
 quakemigrate/util.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index 64ffc7f..e027176 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -472,7 +472,7 @@ def resample(stream, sampling_rate, resample, upfactor, starttime, endtime):
         if sampling_rate != trace_sampling_rate:
             if (trace_sampling_rate % sampling_rate) == 0:
                 stream.remove(trace)
-                trace = decimate(trace, sampling_rate)
+                trace = decimate(trace, sampling_rate, starttime)
                 stream += trace
             elif resample and upfactor is not None:
                 # Check the upsampled sampling rate can be decimated to sr
@@ -481,7 +481,7 @@ def resample(stream, sampling_rate, resample, upfactor, starttime, endtime):
                 stream.remove(trace)
                 trace = upsample(trace, upfactor, starttime, endtime)
                 if trace_sampling_rate != sampling_rate:
-                    trace = decimate(trace, sampling_rate)
+                    trace = decimate(trace, sampling_rate, starttime)
                 stream += trace
             else:
                 logging.info(
@@ -500,7 +500,7 @@ def resample(stream, sampling_rate, resample, upfactor, starttime, endtime):
     return stream
 
 
-def decimate(trace, sampling_rate):
+def decimate(trace, sampling_rate, starttime):
     """
     Decimate a trace to achieve the desired sampling rate, sr.
 
@@ -513,6 +513,8 @@ def decimate(trace, sampling_rate):
         Trace to be decimated.
     sampling_rate : int
         Output sampling rate.
+    starttime : `obspy.UTCDateTime` object
+        Start of the requested time window, which the samples kept are aligned to.
 
     Returns:
     --------
@@ -533,11 +535,13 @@ def decimate(trace, sampling_rate):
     trace.filter(
         "lowpass", freq=float(sampling_rate) / 2.000001, corners=2, zerophase=True
     )
-    trace.decimate(
-        factor=int(trace.stats.sampling_rate / sampling_rate),
-        strict_length=False,
-        no_filter=True,
-    )
+    factor = int(trace.stats.sampling_rate / sampling_rate)
+    # Data that doesn't begin at the start of the window (e.g. after a gap) may begin
+    # between two of the samples to be kept
+    n = int((trace.stats.starttime - starttime) * trace.stats.sampling_rate + 1e-3)
+    if n > 0 and n % factor != 0:
+        trace.trim(trace.stats.starttime + (-n % factor) * trace.stats.delta)
+    trace.decimate(factor=factor, strict_length=False, no_filter=True)
 
     return trace
 
-- 
2.43.0


From 8a0b40f6d464500f08a77ef7ed6bdfe922ade8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:07 +0000
Subject: [PATCH 41/63] fix: compute the centred STA/LTA afresh when the signal
 vanishes

As for the classic STA/LTA. With data filled by ~zeros (allow_gaps) the running
sums, and so the onset, could also take infinite values, and locate stopped with
a ValueError.
---
 quakemigrate/core/src/onsetlib.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/core/src/onsetlib.c b/quakemigrate/core/src/onsetlib.c
index 12ba4f8..1d78b0d 100644
--- a/quakemigrate/core/src/onsetlib.c
+++ b/quakemigrate/core/src/onsetlib.c
@@ -96,9 +96,9 @@ void
 centred_sta_lta(const double * signal,
   const stalta_header * head, double * onset) {
 
-  int i;
+  int i, j;
   const double frac = (double) head -> nlta / (double) head -> nsta;
-  double sta = 0., lta = 0.;
+  double sta = 0., lta = 0., sta_peak, lta_peak;
 
   // Calculate initial LTA
   for (i = 0; i < head -> nlta; ++i) {
@@ -109,13 +109,37 @@ centred_sta_lta(const double * signal,
   for (i = head -> nlta; i < head -> nlta + head -> nsta; ++i) {
     sta += signal[i];
   }
+  sta_peak = sta;
+  lta_peak = lta;
 
   // Set first value, and loop over rest of signal
-  onset[head -> nlta - 1] = sta / lta * frac;
+  onset[head -> nlta - 1] = lta > 1e-30 * sta ? sta / lta * frac : 1.;
   for (i = head -> nlta; i < head -> n - head -> nsta; ++i) {
     sta += signal[i + head -> nsta] - signal[i];
     lta += signal[i] - signal[i - head -> nlta];
-    if (lta > 0.) {
+    // Where the signal has (almost) vanished, e.g. as the channel went dead, what is
+    // left of a running sum is mostly round-off error: compute it afresh.
+    if (sta > sta_peak) {
+      sta_peak = sta;
+    } else if (sta < 1e-6 * sta_peak) {
+      sta = 0.;
+      for (j = i + head -> nsta; j > i; --j) {
+        sta += signal[j];
+      }
+      sta_peak = sta;
+    }
+    if (lta > lta_peak) {
+      lta_peak = lta;
+    } else if (lta < 1e-6 * lta_peak) {
+      lta = 0.;
+      for (j = i; j > i - head -> nlta; --j) {
+        lta += signal[j];
+      }
+      lta_peak = lta;
+    }
+    // (no signal at all in the long-term window, compared to the short-term one, is no
+    // measure of the noise)
+    if (lta > 1e-30 * sta) {
       onset[i] = sta / lta * frac;
     } else {
       onset[i] = 1.;
-- 
2.43.0


From 3d2392dec2fe52511f16b8b08ce77183ff911ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:36 +0000
Subject: [PATCH 42/63] fix: interpolate NonLinLoc traveltimes from the grid's
 own origin

---
 quakemigrate/lut/create_lut.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 5c1b3b4..543ae17 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -742,11 +742,11 @@ def _bilinear_interpolate(xz, xz_origin, xz_dimensions, traveltimes):
 
     """
 
-    # Get indices of the nearest node
-    i, k = np.floor((xz - xz_origin) / xz_dimensions).astype(int).T
-
-    # Get fractional distance along each axis
-    x_d, z_d = (np.remainder(xz, xz_dimensions) / xz_dimensions).T
+    # Get indices of the nearest node, and the fractional distance from it along each
+    # axis
+    position = (xz - xz_origin) / xz_dimensions
+    i, k = np.floor(position).astype(int).T
+    x_d, z_d = (position - np.floor(position)).T
 
     # Get 4 data points of surrounding square
     c00 = traveltimes[i, k]
-- 
2.43.0


From 7e4c3f35171ca8986d6097fdb2d4856150cde0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:36 +0000
Subject: [PATCH 43/63] fix: give lookup tables read from NonLinLoc grids the
 node count of the grids

---
 quakemigrate/lut/create_lut.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 543ae17..c72ae7b 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -98,6 +98,9 @@ def read_nlloc(
                     coord_proj=cproj,
                     fraction_tt=fraction_tt,
                 )
+                # The corners have been transformed back and forth, so the number of
+                # nodes between them can not be relied on to be that of the grids
+                lut.node_count = node_count
             else:
                 _, _, traveltimes = _read_nlloc(file)
 
-- 
2.43.0


From 27d80b1a59928c21f1f5cbc8c186ab1e2f3c5f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:36 +0000
Subject: [PATCH 44/63] fix: place NonLinLoc TRANS_MERC grids at their origin

---
 quakemigrate/lut/create_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index c72ae7b..7c8dce0 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -701,7 +701,7 @@ def _read_nlloc(fname, ignore_proj=False):
             orig_lat = float(line[5])
             orig_lon = float(line[7])
 
-            gproj = Proj(proj="tmerc", lon=orig_lon, lat=orig_lat, units="km")
+            gproj = Proj(proj="tmerc", lon_0=orig_lon, lat_0=orig_lat, units="km")
 
         transform = [gproj, cproj, line[1]]
 
-- 
2.43.0


From 88e69426547380998937e24ce1bd6b59d618aa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:36 +0000
Subject: [PATCH 45/63] fix: use the ellipsoid of NonLinLoc LAMBERT grids

---
 quakemigrate/lut/create_lut.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 7c8dce0..5973712 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -695,7 +695,6 @@ def _read_nlloc(fname, ignore_proj=False):
                 lat_2=parallel_2,
                 units="km",
                 ellps=proj_ellipsoid,
-                datum="WGS84",
             )
         elif line[1] == "TRANS_MERC":
             orig_lat = float(line[5])
-- 
2.43.0


From eb315181ee2f03a4463e79488265a190f242b80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:05 +0000
Subject: [PATCH 46/63] fix: scale longitudes of NonLinLoc SIMPLE grids at
 their origin

---
 quakemigrate/lut/create_lut.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 5973712..ab8be4a 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -645,8 +645,15 @@ def _read_nlloc(fname, ignore_proj=False):
             orig_lat = float(line[3])
             orig_lon = float(line[5])
 
-            # The simple projection is the Plate Carree/Equidistant Cylindrical
-            gproj = Proj(proj="eqc", lat_0=orig_lat, lon_0=orig_lon, units="km")
+            # The simple projection is the Equidistant Cylindrical, with distances true
+            # at the origin
+            gproj = Proj(
+                proj="eqc",
+                lat_0=orig_lat,
+                lat_ts=orig_lat,
+                lon_0=orig_lon,
+                units="km",
+            )
         elif line[1] == "LAMBERT":
             proj_ellipsoid = line[3]
             orig_lat = float(line[5])
-- 
2.43.0


From 8d77d54c93d927499e60023711e62a2eecd14ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:05 +0000
Subject: [PATCH 47/63] fix: refuse NonLinLoc lookup tables of differing grids

---
 quakemigrate/lut/create_lut.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index ab8be4a..9972e8f 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -57,6 +57,8 @@ def read_nlloc(
     ------
     NotImplementedError
         If the specified projection type is not supported.
+    ValueError
+        If the NonLinLoc lookup tables are not all for the same grid.
 
     """
 
@@ -102,7 +104,12 @@ def read_nlloc(
                 # nodes between them can not be relied on to be that of the grids
                 lut.node_count = node_count
             else:
-                _, _, traveltimes = _read_nlloc(file)
+                other_gridspec, _, traveltimes = _read_nlloc(file)
+                if not np.array_equal(other_gridspec, gridspec):
+                    raise ValueError(
+                        f"The grid of {file} differs from that of the other NonLinLoc "
+                        "lookup tables."
+                    )
 
             lut.traveltimes.setdefault(station, {}).update({phase: traveltimes})
 
-- 
2.43.0


From 5b471a70aaea89dc65550d1f9719737dd7b7e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:05 +0000
Subject: [PATCH 48/63] fix: only remove the NonLinLoc model grids created

---
 quakemigrate/lut/create_lut.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 9972e8f..d7e472b 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -527,13 +527,15 @@ def _compute_1d_nlloc(lut, phase, vmodel, **kwargs):
         if not retain_nll_grids:
             for file in (cwd / "time").glob(f"layer.{phase}.{station}.time*"):
                 file.unlink()
-            for file in (cwd / "time").glob(f"layer.{phase}.mod.*"):
-                file.unlink()
+            for folder in ["time", "model"]:
+                for file in (cwd / folder).glob(f"layer.{phase}.mod.*"):
+                    file.unlink()
 
     if not retain_nll_grids:
-        rmtree(cwd / "model")
-        # Check time directory is empty before removing (might have saved grids from
-        # previous runs)
+        # Check directories are empty before removing (might have saved grids from
+        # previous runs, or be used for something else)
+        if not os.listdir(cwd / "model"):
+            rmtree(cwd / "model")
         if not os.listdir(cwd / "time"):
             rmtree(cwd / "time")
         else:
-- 
2.43.0


From eb6c030ab31bcc8e0599f85facd3d4b7ef82d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:13 +0000
Subject: [PATCH 49/63] fix: make no pick where there is no onset noise to set
 a threshold from

---
 quakemigrate/signal/pickers/gaussian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index 2fa8c89..384fdcb 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -345,6 +345,10 @@ class GaussianPicker(PhasePicker):
         # pad windows)
         onset_noise = onset_noise[onset_noise > 1]
 
+        # Without any noise there is nothing to set a threshold from, so no pick
+        if len(onset_noise) == 0:
+            return np.nan
+
         if method == "percentile":
             pick_threshold = np.percentile(
                 onset_noise, self.percentile_pick_threshold * 100
-- 
2.43.0


From 135d30ba932431b9a048ffc29f59f11d30e126e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:48 +0000
Subject: [PATCH 50/63] fix: take the layers of NonLinLoc velocity models by
 position

---
 quakemigrate/lut/create_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index d7e472b..e248694 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -465,7 +465,7 @@ def _compute_1d_nlloc(lut, phase, vmodel, **kwargs):
     grid_xyz = [g / km_cf for g in lut.grid_xyz]
     stations_xyz = lut.stations_xyz / km_cf
     ll, *_, ur = lut.grid_corners / km_cf
-    vmodel = vmodel / km_cf
+    vmodel = (vmodel / km_cf).reset_index(drop=True)
 
     # Make folders in which to run NonLinLoc
     cwd = pathlib.Path.cwd()
-- 
2.43.0


From ce792f03cefb83c137f7cca40bd92a9160a9825b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:11 +0000
Subject: [PATCH 51/63] fix: take traveltimes for amplitude windows by the
 position of the station

---
 quakemigrate/signal/local_mag/amplitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/amplitude.py b/quakemigrate/signal/local_mag/amplitude.py
index 4f28c03..a8965b3 100644
--- a/quakemigrate/signal/local_mag/amplitude.py
+++ b/quakemigrate/signal/local_mag/amplitude.py
@@ -279,7 +279,7 @@ class Amplitude:
         logging.debug(f"{tr_start}, {tr_end}, {event.otime}")
 
         # Loop through stations in LUT, calculating amplitude info
-        for i, station_data in lut.station_data.iterrows():
+        for i, (_, station_data) in enumerate(lut.station_data.iterrows()):
             station = station_data["Name"]
 
             epi_dist, z_dist = self._get_distances(
-- 
2.43.0


From 67ed7b51a72f10098bb8905c2fc67548ab98e9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:34 +0000
Subject: [PATCH 52/63] fix: weight the squared deviations, not their roots, in
 magnitude errors

---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index c2cd2b6..1abbfcd 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -417,7 +417,7 @@ class Magnitude:
         # single estimate, then take the uncertainty from that value.
         if len(mags) > 1:
             mean_mag_err = np.sqrt(
-                np.sum(((mags - mean_mag) * weights) ** 2) / np.sum(weights)
+                np.sum(weights * (mags - mean_mag) ** 2) / np.sum(weights)
             )
         else:
             mean_mag_err = used_mags["ML_Err"].values[0]
-- 
2.43.0


From ad8cb95247662503bd6c3fe7708b28836844f0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:19 +0000
Subject: [PATCH 53/63] fix: keep data of another type in the padding from
 removing raw waveforms

---
 quakemigrate/io/data.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 8272439..fad9dee 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -321,8 +321,15 @@ class Archive:
             st.traces = [tr for tr in st if bool(tr)]
 
             # Merge waveforms channel-by-channel with no-clobber merge. Make copy of raw
-            # waveforms to output if requested
-            data.raw_waveforms = util.merge_stream(st)
+            # waveforms to output if requested. Data of another type or sampling rate
+            # (e.g. in the padding) can't be merged, but must not affect the others
+            data.raw_waveforms = Stream()
+            kinds = [(tr.stats.sampling_rate, tr.data.dtype.str) for tr in st]
+            for kind in sorted(set(kinds)):
+                data.raw_waveforms += util.merge_stream(
+                    Stream([tr for tr, k in zip(st, kinds) if k == kind])
+                )
+            data.raw_waveforms.sort()
 
             if pre_pad != 0.0 or post_pad != 0.0:
                 # Trim data between start and end time, before merging: what's in the
-- 
2.43.0


From e2b461d5e2671a4d354317c0e18b3e766b2fc662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:04 +0000
Subject: [PATCH 54/63] fix: leave observations without a magnitude out of mean
 magnitudes

---
 quakemigrate/signal/local_mag/magnitude.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index 1abbfcd..3e0379a 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -800,6 +800,8 @@ class Magnitude:
             magnitudes.loc[~magnitudes["is_picked"], "Used"] = False
         if self.noise_filter != 0.0:
             magnitudes.loc[~magnitudes["Noise_Filter"], "Used"] = False
+        # No magnitude could be calculated (e.g. amplitude below the noise)
+        magnitudes.loc[magnitudes["ML"].isnull(), "Used"] = False
 
         return magnitudes
 
-- 
2.43.0


From 425524f2b3da0830ac5827666c61b4f065358b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:04 +0000
Subject: [PATCH 55/63] fix: accept None, the documented default, for station
 corrections

---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index 3e0379a..50b4cf1 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -108,7 +108,7 @@ class Magnitude:
             raise TypeError("A0 attenuation correction not specified in params!")
         self.use_hyp_dist = magnitude_params.get("use_hyp_dist", False)
         self.amp_feature = magnitude_params.get("amp_feature", "S_amp")
-        self.station_corrections = magnitude_params.get("station_corrections", {})
+        self.station_corrections = magnitude_params.get("station_corrections") or {}
         self.amp_multiplier = magnitude_params.get("amp_multiplier", 1.0)
 
         # Parameters for mean magnitude calculation
-- 
2.43.0


From da18a807a2c2b0430ce96880ce7c282f58bf30cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:32 +0000
Subject: [PATCH 56/63] fix: label every station of amplitude plots

---
 quakemigrate/plot/amplitudes.py | 92 +++++----------------------------
 1 file changed, 14 insertions(+), 78 deletions(-)

diff --git a/quakemigrate/plot/amplitudes.py b/quakemigrate/plot/amplitudes.py
index c97b293..112349f 100644
--- a/quakemigrate/plot/amplitudes.py
+++ b/quakemigrate/plot/amplitudes.py
@@ -11,6 +11,8 @@ corrected displacement amplitude measurements.
 
 """
 
+from itertools import groupby
+
 import matplotlib.pyplot as plt
 import numpy as np
 import pandas as pd
@@ -201,84 +203,18 @@ def label_stations(ax, tr_ids, amps, dists, rejected=False):
 
     """
 
-    stn = None
     stns = []
-    comps = []
-    for i, tr_id in enumerate(tr_ids):
-        if not stn:
-            stn = tr_id[:-1]
-            stn_start = 0
-            comps.append(tr_id[-1])
-            continue
-        elif tr_id[:-1] != stn:
-            stn_end = i
-            distance = dists.iloc[i - 1]
-            amp = max(amps[stn_start:stn_end])
-            compstring = ""
-            for comp in comps:
-                compstring += f"{comp},"
-            label = f"{stn}[{compstring[:-1]}]"
-            if not rejected:
-                ax.annotate(
-                    label, (distance, amp), ha="center", va="bottom", fontsize=8
-                )
-            else:
-                ax.annotate(
-                    label,
-                    (distance, amp),
-                    color="gray",
-                    ha="center",
-                    va="bottom",
-                    fontsize=8,
-                )
-            stns.append(stn)
-            stn = tr_id[:-1]
-            stn_start = i
-            comps = [tr_id[-1]]
-            if i == len(tr_ids) - 1:
-                distance = dists.iloc[i]
-                amp = max(amps[stn_start:])
-                compstring = ""
-                for comp in comps:
-                    compstring += f"{comp},"
-                label = f"{stn}[{compstring[:-1]}]"
-                if not rejected:
-                    ax.annotate(
-                        label, (distance, amp), ha="center", va="bottom", fontsize=8
-                    )
-                else:
-                    ax.annotate(
-                        label,
-                        (distance, amp),
-                        color="gray",
-                        ha="center",
-                        va="bottom",
-                        fontsize=8,
-                    )
-        elif i == len(tr_ids) - 1:
-            stn = tr_id[:-1]
-            comps.append(tr_id[-1])
-            distance = dists.iloc[i]
-            amp = max(amps[stn_start:])
-            compstring = ""
-            for comp in comps:
-                compstring += f"{comp},"
-            label = f"{stn}[{compstring[:-1]}]"
-            if not rejected:
-                ax.annotate(
-                    label, (distance, amp), ha="center", va="bottom", fontsize=8
-                )
-            else:
-                ax.annotate(
-                    label,
-                    (distance, amp),
-                    color="gray",
-                    ha="center",
-                    va="bottom",
-                    fontsize=8,
-                )
-            stns.append(stn)
-        else:
-            comps.append(tr_id[-1])
+    for stn, group in groupby(range(len(tr_ids)), key=lambda i: tr_ids[i][:-1]):
+        group = list(group)
+        compstring = ",".join(tr_ids[i][-1] for i in group)
+        ax.annotate(
+            f"{stn}[{compstring}]",
+            (dists.iloc[group[-1]], max(amps.iloc[group])),
+            color="gray" if rejected else "k",
+            ha="center",
+            va="bottom",
+            fontsize=8,
+        )
+        stns.append(stn)
 
     return ax, stns
-- 
2.43.0


From d6044753268af3da0ee65de32efdc3aa4b025cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:52 +0000
Subject: [PATCH 57/63] fix: merge raw waveforms again once cut to a window
 without conflicting data

---
 quakemigrate/io/cut_waveforms.py           |  7 +++---
 quakemigrate/io/data.py                    |  8 +-----
 quakemigrate/signal/local_mag/amplitude.py |  3 +++
 quakemigrate/util.py                       | 29 ++++++++++++++++++++++
 4 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/quakemigrate/io/cut_waveforms.py b/quakemigrate/io/cut_waveforms.py
index c94ea9d..6db4b89 100644
--- a/quakemigrate/io/cut_waveforms.py
+++ b/quakemigrate/io/cut_waveforms.py
@@ -101,10 +101,9 @@ def write_cut_waveforms(
         for tr in st.traces:
             tr.trim(endtime=event.otime + post_cut)
 
-    # Remove empty traces
-    for tr in st:
-        if not bool(tr):
-            st.remove(tr)
+    # Remove empty traces, and merge those that couldn't be merged only because of data
+    # outside of this window
+    st = util.merge_raw_stream(Stream([tr for tr in st if bool(tr)]))
 
     if waveform_type == "real" or waveform_type == "wa":
         # Always computed from the raw waveforms: any real / Wood-Anderson waveforms
diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index fad9dee..5353a09 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -323,13 +323,7 @@ class Archive:
             # Merge waveforms channel-by-channel with no-clobber merge. Make copy of raw
             # waveforms to output if requested. Data of another type or sampling rate
             # (e.g. in the padding) can't be merged, but must not affect the others
-            data.raw_waveforms = Stream()
-            kinds = [(tr.stats.sampling_rate, tr.data.dtype.str) for tr in st]
-            for kind in sorted(set(kinds)):
-                data.raw_waveforms += util.merge_stream(
-                    Stream([tr for tr, k in zip(st, kinds) if k == kind])
-                )
-            data.raw_waveforms.sort()
+            data.raw_waveforms = util.merge_raw_stream(st)
 
             if pre_pad != 0.0 or post_pad != 0.0:
                 # Trim data between start and end time, before merging: what's in the
diff --git a/quakemigrate/signal/local_mag/amplitude.py b/quakemigrate/signal/local_mag/amplitude.py
index a8965b3..c743cff 100644
--- a/quakemigrate/signal/local_mag/amplitude.py
+++ b/quakemigrate/signal/local_mag/amplitude.py
@@ -315,6 +315,9 @@ class Amplitude:
             for tr in st:
                 tr.trim(starttime=tr_start, endtime=tr_end)
             st.traces = [tr for tr in st if tr.stats.npts]
+            # Merge those that couldn't be merged only because of data outside of this
+            # window
+            st = util.merge_raw_stream(st)
 
             for j, comp in enumerate(["[E,2]", "[N,1]", "Z"]):
                 amps = amps_template.copy()
diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index e027176..e029cef 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -668,6 +668,35 @@ def merge_stream(stream):
     return stream_merged
 
 
+def merge_raw_stream(stream):
+    """
+    Merge a Stream of raw waveforms, separately for each data type and sampling rate.
+    Data of another type or sampling rate can't be merged, but must not affect the
+    others.
+
+    Parameters
+    ----------
+    stream : `obspy.Stream` object
+        Stream to be merged.
+
+    Returns
+    -------
+    stream_merged : `obpsy.Stream` object
+        Merged Stream.
+
+    """
+
+    stream_merged = Stream()
+    kinds = [(tr.stats.sampling_rate, tr.data.dtype.str) for tr in stream]
+    for kind in sorted(set(kinds)):
+        stream_merged += merge_stream(
+            Stream([tr for tr, k in zip(stream, kinds) if k == kind])
+        )
+    stream_merged.sort()
+
+    return stream_merged
+
+
 def write_csv(data, file, **kwargs):
     """
     Write a DataFrame to a .csv file as a whole: if writing is interrupted, any previous
-- 
2.43.0


From f59d4fdeeea94b55814258c5d805c0e9e56a8ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:06 +0000
Subject: [PATCH 58/63] fix: label the corners of a lookup table's summary with
 the right coordinates

---
 quakemigrate/lut/lut.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 346dcca..b929039 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -486,11 +486,11 @@ class LUT(Grid3D):
         )
 
         out = out.format(
-            lat1=ll[0],
-            lon1=ll[1],
+            lat1=ll[1],
+            lon1=ll[0],
             dep1=ll[2],
-            lat2=ur[0],
-            lon2=ur[1],
+            lat2=ur[1],
+            lon2=ur[0],
             dep2=ur[2],
             unit_name=self.unit_name,
         )
-- 
2.43.0


From 70f1fe4126cb336c8a64b6d33f69613d95f1401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:58 +0000
Subject: [PATCH 59/63] fix: keep a table's own traveltimes when combining
 lookup tables

---
 quakemigrate/lut/lut.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index b929039..92ad7f2 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -882,7 +882,8 @@ class LUT(Grid3D):
             return self
         else:
             if self == other:
-                self.traveltimes.update(other.traveltimes)
+                for station, traveltimes in other.traveltimes.items():
+                    self.traveltimes.setdefault(station, traveltimes)
                 return self
             else:
                 print("Grid definitions do not match - cannot combine.")
-- 
2.43.0


From bbe6fbb5a5fe5346e6894aaecff871f7c57b29b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:43 +0000
Subject: [PATCH 60/63] fix: compute each STA/LTA window of the Python backend
 afresh

---
 quakemigrate/signal/onsets/stalta.py | 94 +++++++++++++---------------
 1 file changed, 44 insertions(+), 50 deletions(-)

diff --git a/quakemigrate/signal/onsets/stalta.py b/quakemigrate/signal/onsets/stalta.py
index 4aba30d..9b77f72 100644
--- a/quakemigrate/signal/onsets/stalta.py
+++ b/quakemigrate/signal/onsets/stalta.py
@@ -22,6 +22,30 @@ from quakemigrate.core import overlapping_sta_lta, centred_sta_lta
 from .base import Onset, OnsetData
 
 
+def _moving_average(signal, n):
+    """
+    Average of the signal over each window of `n` samples. Each window is summed afresh:
+    differences of a cumulative sum are round-off error where the signal vanishes, e.g.
+    where a channel went dead.
+
+    Parameters
+    ----------
+    signal : array-like
+        Transformed non-negative seismic waveform.
+    n : int
+        Number of samples in the window.
+
+    Returns
+    -------
+    average : array-like
+        Average over the windows starting at each sample for which a full window is
+        available.
+
+    """
+
+    return np.lib.stride_tricks.sliding_window_view(signal, n).mean(axis=-1, dtype=float)
+
+
 def centred_sta_lta_py(signal, nsta, nlta):
     """
     Calculates the ratio of the average of the signal in a short-term (signal) window to
@@ -46,35 +70,18 @@ def centred_sta_lta_py(signal, nsta, nlta):
 
     """
 
-    # Cumulative sum to calculate moving average
-    sta = np.cumsum(signal)
-
-    # Convert to float
-    sta = np.require(sta, dtype=float)
-
-    # Copy for LTA
-    lta = sta.copy()
+    sta, lta = np.ones(len(signal)), np.ones(len(signal))
 
-    # Compute the STA and the LTA
-    sta[nsta:] = sta[nsta:] - sta[:-nsta]
-    sta[nsta:-nsta] = sta[nsta * 2 :]
-    sta /= nsta
+    # Compute the STA and the LTA, padded with ones (= null result)
+    if len(signal) >= nlta + nsta:
+        sta[nlta - 1 : -nsta] = _moving_average(signal, nsta)[nlta:]
+        lta[nlta - 1 : -nsta] = _moving_average(signal, nlta)[:-nsta]
 
-    lta[nlta:] = lta[nlta:] - lta[:-nlta]
-    lta /= nlta
-
-    # Pad with ones (= null result)
-    sta[: nlta - 1] = 1.0
-    lta[: nlta - 1] = 1.0
-    sta[-nsta:] = 1.0
-    lta[-nsta:] = 1.0
-
-    # Avoid division by zero by setting zero values to tiny float, giving an
-    # STA/LTA of 1 (= null result)
-    dtiny = np.finfo(float).tiny
-    idx = lta < dtiny
-    lta[idx] = dtiny
-    sta[idx] = dtiny
+    # No signal at all in the LTA window, compared to the STA window, is no measure of
+    # the noise: give an STA/LTA of 1 (= null result)
+    idx = lta <= 1e-30 * sta
+    lta[idx] = 1.0
+    sta[idx] = 1.0
 
     return sta / lta
 
@@ -105,31 +112,18 @@ def overlapping_sta_lta_py(signal, nsta, nlta):
 
     """
 
-    # Cumulative sum to calculate moving average
-    sta = np.cumsum(signal)
-
-    # Convert to float
-    sta = np.require(sta, dtype=float)
-
-    # Copy for LTA
-    lta = sta.copy()
-
-    # Compute the STA and the LTA
-    sta[nsta:] = sta[nsta:] - sta[:-nsta]
-    sta /= nsta
-    lta[nlta:] = lta[nlta:] - lta[:-nlta]
-    lta /= nlta
+    sta, lta = np.ones(len(signal)), np.ones(len(signal))
 
-    # Pad with ones (= null result)
-    sta[: nlta - 1] = 1.0
-    lta[: nlta - 1] = 1.0
+    # Compute the STA and the LTA, padded with ones (= null result)
+    if len(signal) >= nlta:
+        sta[nlta - 1 :] = _moving_average(signal, nsta)[nlta - nsta :]
+        lta[nlta - 1 :] = _moving_average(signal, nlta)
 
-    # Avoid division by zero by setting zero values to tiny float, giving an
-    # STA/LTA of 1 (= null result)
-    dtiny = np.finfo(0.0).tiny
-    idx = lta < dtiny
-    lta[idx] = dtiny
-    sta[idx] = dtiny
+    # Avoid division by zero by setting zero values to one, giving an STA/LTA of 1
+    # (= null result)
+    idx = lta <= 0.0
+    lta[idx] = 1.0
+    sta[idx] = 1.0
 
     return sta / lta
 
-- 
2.43.0


From 61cb2baec08ce1cf7efa1ec488569b572ce3e8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:43 +0000
Subject: [PATCH 61/63] fix: keep the stations of a lookup table loaded by its
 constructor

---
 quakemigrate/lut/lut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 92ad7f2..dc7a17f 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -461,14 +461,14 @@ class LUT(Grid3D):
             self.traveltimes = {}
             self.phases = []
             self.velocity_model = ""
+            self.station_data = pd.DataFrame()
         else:
             self.fraction_tt = fraction_tt
             self.phases = ["P", "S"]  # Handle old lookup tables
+            self.station_data = pd.DataFrame()
             if lut_file is not None:
                 self.load(lut_file)
 
-        self.station_data = pd.DataFrame()
-
     def __str__(self):
         """Return short summary string of the lookup table object."""
 
-- 
2.43.0


From fe2efebbe591848fcdf6490f3b4408addeeccc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:43 +0000
Subject: [PATCH 62/63] fix: report every column missing from a station file

---
 quakemigrate/io/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/core.py b/quakemigrate/io/core.py
index 36db55b..cae95de 100644
--- a/quakemigrate/io/core.py
+++ b/quakemigrate/io/core.py
@@ -91,7 +91,7 @@ def read_stations(station_file, **kwargs):
     kwargs.setdefault("converters", {"Name": str})
     stn_data = pd.read_csv(station_file, **kwargs)
 
-    if ("Latitude" or "Longitude" or "Elevation" or "Name") not in stn_data.columns:
+    if not {"Latitude", "Longitude", "Elevation", "Name"}.issubset(stn_data.columns):
         raise util.StationFileHeaderException
 
     stn_data["Elevation"] = stn_data["Elevation"].apply(lambda x: -1 * x)
-- 
2.43.0


From 1fffd145a23626bc73404539973f19680c0a8f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:43 +0000
Subject: [PATCH 63/63] fix: leave observations lost in the noise out of the
 magnitude r-squared

---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index 50b4cf1..2e13d7b 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -890,7 +890,7 @@ class Magnitude:
                 # If predicted amp is more than 5x larger than noise amp, keep
                 # this observation for mag_r2 calculation
                 if predicted_amp / noise_amp < 5:
-                    magnitudes.drop(labels=mag.name)
+                    magnitudes = magnitudes.drop(labels=mag.name)
 
         # Calculate amplitudes -- including station corrections!
         amps = (
-- 
2.43.0

