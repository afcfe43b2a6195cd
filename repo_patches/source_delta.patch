From f1d6e24017f55ef02de915daaa2bc7b7387f77a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:48 +0000
Subject: [PATCH 01/30] fix: date_check reports a month outside 1-12 as invalid
 instead of indexing past the month table

---
 qc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qc.py b/qc.py
index e623387..2853cdd 100644
--- a/qc.py
+++ b/qc.py
@@ -901,7 +901,7 @@ def date_check(inyear, inmonth, inday):
         result = 1
 
     if inmonth < 1 or inmonth > 12:
-        result = 1
+        return 1
 
     month_lengths = get_month_lengths(inyear)
 
-- 
2.43.0


From d05d9ce9bff49c9058b64ebf2bb68a20c999de4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:58 +0000
Subject: [PATCH 02/30] fix: season returns None for month 0, which does not
 exist

---
 qc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qc.py b/qc.py
index 2853cdd..d3db7fe 100644
--- a/qc.py
+++ b/qc.py
@@ -51,7 +51,7 @@ def season(month):
     :return: DJF, MAM, JJA, or SON or None if the input month is non-existent (e.g. 13)
     :rtype: string
     """
-    if month < 0 or month > 12:
+    if month < 1 or month > 12:
         return None
     ssnlist = ['DJF', 'DJF',
                'MAM', 'MAM', 'MAM',
-- 
2.43.0


From 10255e9258d6c42c6ff706d9cd56cbed96dfc4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:07 +0000
Subject: [PATCH 03/30] fix: year_month_gen rejects an end month that can never
 be reached instead of looping for ever

---
 qc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qc.py b/qc.py
index d3db7fe..c57a4e4 100644
--- a/qc.py
+++ b/qc.py
@@ -1695,7 +1695,8 @@ def year_month_gen(year1, month1, year2, month2):
     """
 
     assert year2 >= year1, "Start year after end year"
-    assert 0 < month1 <= 12, "Month outside 1-12"
+    assert 0 < month1 <= 12 and 0 < month2 <= 12, "Month outside 1-12"
+    assert year2 > year1 or month2 >= month1, "Start month after end month"
 
     year = year1
     month = month1
-- 
2.43.0


From f33b28a51ed6ad8bd2d5cf9124ca5076968b4648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:24 +0000
Subject: [PATCH 04/30] fix: the combined humidity limit check reads relative
 humidity, not a variable that never exists

---
 Extended_IMMA.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index cf41372..94e5d3a 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -1116,8 +1116,9 @@ class MarineReportQC(MarineReport):
         # special check for silly values in all humidity-related variables
         # and set DPT hardlimit flag if necessary
         self.set_qc('DPT', 'hardlimit', 0)
-        for var in ['AT', 'DPT', 'SHU', 'RH']:
-            if qc.hard_limit(self.getvar(var), parameters[var]['hard_limits']) == 1:
+        # relative humidity is stored as CRH, its limits are configured as RH
+        for var, limits in [('AT', 'AT'), ('DPT', 'DPT'), ('SHU', 'SHU'), ('CRH', 'RH')]:
+            if qc.hard_limit(self.getvar(var), parameters[limits]['hard_limits']) == 1:
                 self.set_qc('DPT', 'hardlimit', 1)
 
         self.do_kate_mat_qc(parameters['AT'])
-- 
2.43.0


From 47916dd12909307647d00089f709728d62377e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:14 +0000
Subject: [PATCH 05/30] fix: setting the month of a report updates its
 date-time like setting year, day or hour does

---
 Extended_IMMA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 94e5d3a..7237c5c 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -659,7 +659,7 @@ class MarineReport:
             i = VARLIST.index(varname)
             self.data[i] = varvalue
 
-        if varname in ['YR', 'DY', 'HR']:
+        if varname in ['YR', 'MO', 'DY', 'HR']:
             self.calculate_dt()
 
     def getvar(self, varname):
-- 
2.43.0


From f98a075541088b8a995c724316cb0b75489ff32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:14 +0000
Subject: [PATCH 06/30] fix: a report with a non-existing month or hour has no
 date-time instead of failing to be created

---
 Extended_IMMA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 7237c5c..b0c728d 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -463,6 +463,8 @@ class MarineReport:
             if (self.getvar('MO') is not None and
                     self.getvar('HR') is not None and
                     self.getvar('DY') is not None and
+                    1 <= self.getvar('MO') <= 12 and
+                    0 <= self.getvar('HR') < 24 and
                     0 < self.getvar('DY') <= mlen[self.getvar('MO') - 1]):
                 rounded_hour = int(math.floor(self.getvar('HR')))
                 rounded_minute = int(math.floor(60 *
-- 
2.43.0


From 0857245387e4ecb8303aaaed4428356f616ab710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:14 +0000
Subject: [PATCH 07/30] fix: sorting a voyage clears the speed, course,
 distance and time step of the report that becomes first

---
 Extended_IMMA.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index b0c728d..35047e9 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -1591,6 +1591,11 @@ class Voyage:
         """
         self.reps.sort()
         # then recalculate times, speeds etc.
+        if len(self.reps) > 0:
+            self.reps[0].setext('speed', None)
+            self.reps[0].setext('course', None)
+            self.reps[0].setext('distance', None)
+            self.reps[0].setext('time_diff', None)
         if len(self.reps) > 1:
             for i in range(1, len(self.reps)):
                 shpspd, shpdis, shpdir, tdiff = self.reps[i] - self.reps[i - 1]
-- 
2.43.0


From 981026621afd46870855ce4d428d9e022eb4cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:14 +0000
Subject: [PATCH 08/30] fix: rebuilding a deck's identifier index starts from
 an empty index

---
 Extended_IMMA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 35047e9..e6337ee 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -2952,6 +2952,7 @@ class Deck:
         get_one_platform_at_a_time to yield a bunch of objects of class :class:`.Voyage` 
         corresponding to all obs from a single ID.
         """
+        self.idtracker = {}
         for i, rep in enumerate(self.reps):
             if rep.getvar('ID') in self.idtracker:
                 self.idtracker[rep.getvar('ID')].append(i)
-- 
2.43.0


From ce01783de792429bbc9ca9157d6d2681b1d19ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:36 +0000
Subject: [PATCH 09/30] fix: extracting platforms from a deck no longer relies
 on positions recorded before reports were removed

---
 Extended_IMMA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index e6337ee..46fcc4a 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -3133,6 +3133,8 @@ class Deck:
         :return: Yields a :class:`.Voyage` made of all ships with a single ID. 
         :rtype: :class:`.Voyage`
         """
+        # reports may have been removed since the index was built
+        self.index_by_id()
         for one_id in self.idtracker:
             out_voyage = Voyage()
             for i in self.idtracker[one_id]:
-- 
2.43.0


From ce841229611d479e437164c50e5467c56149bb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:11 +0000
Subject: [PATCH 10/30] fix: the buddy check found neighbours on the other side
 of the opposite pole

---
 Extended_IMMA.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 46fcc4a..0ac0434 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -2618,6 +2618,11 @@ class Np_Super_Ob:
 
         for xpt in range(-1 * full_xspan, full_xspan + 1):
             for ypt in range(-1 * yspan, yspan + 1):
+
+                # there are no rows beyond the poles
+                if not 0 <= yindex + ypt < 180:
+                    continue
+
                 for ppt in range(-1 * pspan, pspan + 1):
 
                     if xpt == 0 and ypt == 0 and ppt == 0:
-- 
2.43.0


From 9a7de6d40d39b16400afe576cf0069190853f7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:02 +0000
Subject: [PATCH 11/30] fix: near the poles the buddy check counted neighbours
 twice, and an observation as its own neighbour

---
 Extended_IMMA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 0ac0434..9e8084d 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -2616,7 +2616,8 @@ class Np_Super_Ob:
         temp_anom = []
         temp_nobs = []
 
-        for xpt in range(-1 * full_xspan, full_xspan + 1):
+        # go round the globe no more than once near the poles
+        for xpt in range(max(-1 * full_xspan, -179), min(full_xspan, 180) + 1):
             for ypt in range(-1 * yspan, yspan + 1):
 
                 # there are no rows beyond the poles
-- 
2.43.0


From 8fb563e6a7e407299a949bf9b6e7cf648737bc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:20 +0000
Subject: [PATCH 12/30] fix: skip the header of an IMMA attachment of
 unspecified length (99) before decoding it

---
 IMMA1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMMA1.py b/IMMA1.py
index c17a47b..ab4a28c 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -69,7 +69,7 @@ class IMMA:
                     Length = int(Length)
                     if ( Length != 0 ):
                         Length = int(Length)-4
-                        line = line[4:len(line)]
+                line = line[4:len(line)] # Remove the ID and length, whatever the length
                 if(getAttachment(Attachment)==None ):
                     raise("Bad IMMA string","Unsupported attachment ID "+Attachment)
 
-- 
2.43.0


From 34d7cf91e29d005ba63ecdb6709dfc05db38fd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:20 +0000
Subject: [PATCH 13/30] fix: round negative values to the nearest unit when
 writing IMMA records

---
 IMMA1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMMA1.py b/IMMA1.py
index ab4a28c..d683941 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -2,6 +2,7 @@
 #  IMMA documentation is at http://icoads.noaa.gov/e-doc/imma
 
 #import re     #  Regular Expressions
+import math
 
 class IMMA:
     
@@ -137,7 +138,7 @@ class IMMA:
                 # Scale to integer units for output
                 if ( definitions[parameters[i]][5] != None ):
                     Tmp /= definitions[parameters[i]][5];
-                    Tmp = int(Tmp+0.5)  # nint
+                    Tmp = int(math.floor(Tmp+0.5))  # nint, also of negative values
 
                 # Encode as base36 if required
                 if ( definitions[parameters[i]][6] == 2 ):
-- 
2.43.0


From 483fafa33846bc8127c30ee2cf36239f3f7e9c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:20 +0000
Subject: [PATCH 14/30] fix: IMMA field NU holds a character, so it has no
 scale

---
 IMMA1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMMA1.py b/IMMA1.py
index d683941..22a8a85 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -560,7 +560,7 @@ definitions['05'] = {
     'IR'    : ( 1,   0.,       4.,   None,  None,  1.,  1 ),
     'RRR'   : ( 3,   0.,     999.,   None,  None,  1.,  1 ),
     'TR'    : ( 1,   1.,       9.,   None,  None,  1.,  1 ),
-    'NU'    : ( 1, None,     None,   None,  None,  1.,  3 ),
+    'NU'    : ( 1, None,     None,   None,  None, None, 3 ),
     'QCI'   : ( 1,   0.,       9.,   None,  None,  1.,  1 ),
     'QI1'   : ( 1,   0.,       9.,   None,  None,  1.,  1 ),
     'QI2'   : ( 1,   0.,       9.,   None,  None,  1.,  1 ),
-- 
2.43.0


From 1ddec61c004748921c308369e0ce05b7d2963ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:20 +0000
Subject: [PATCH 15/30] fix: units of IMMA salinity OSV are thousandths, as its
 range says

---
 IMMA1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMMA1.py b/IMMA1.py
index 22a8a85..664c657 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -674,7 +674,7 @@ parameters['08'] = ('OTV','OTZ','OSV','OSZ','OOV','OOZ','OPV','OPZ','OSIV','OSIZ
 definitions['08'] = {
     'OTV'  : (  5,  -3.,  38.999,  None,  None,  0.001,  1 ),
     'OTZ'  : (  4,   0.,   99.99,  None,  None,   0.01,  1 ),
-    'OSV'  : (  5,   0.,  40.999,  None,  None,   0.01,  1 ),
+    'OSV'  : (  5,   0.,  40.999,  None,  None,  0.001,  1 ),
     'OSZ'  : (  4,   0.,   99.99,  None,  None,   0.01,  1 ),
     'OOV'  : (  4,   0.,   12.99,  None,  None,   0.01,  1 ),
     'OOZ'  : (  4,   0.,   99.99,  None,  None,   0.01,  1 ),
-- 
2.43.0


From 867f11b779f145693554b23f012ce1110d8107e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:20 +0000
Subject: [PATCH 16/30] fix: write the length of IMMA attachment 8 as the two
 characters 2U

---
 IMMA1.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMMA1.py b/IMMA1.py
index 664c657..7366827 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -176,7 +176,9 @@ class IMMA:
     # Done all the parameters, add the ID and length to the start
     # (except for core)
         if ( attachment != 0 ):
-            if ( attachment != 99 ):
+            if ( attachment == 8 ): # Too long for two decimal digits: length is in base36
+                Result = "%2d2U%s" % (attachment, Result)
+            elif ( attachment != 99 ):
                 Result = "%2d%2d%s" % (attachment, len(Result) + 4, Result)
             else:
                 Result = "%2d 0%s" % (attachment, Result)
-- 
2.43.0


From 07448d2540b38018f1bdecf1e2fc141616cfaf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:07 +0000
Subject: [PATCH 17/30] fix: an IMMA field that is not there at all is
 undefined like a blank one

---
 IMMA1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMMA1.py b/IMMA1.py
index 7366827..28ef0ad 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -110,7 +110,7 @@ class IMMA:
                 Position = len(as_string)
 
         # Blanks mean value is undefined
-            if self[p].isspace():
+            if self[p] == "" or self[p].isspace():
                 self[p] = None
                 continue    #  Next parameter
 
-- 
2.43.0


From 9133d9dc969328e2c45039eef80badc155a99449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:20 +0000
Subject: [PATCH 18/30] fix: the point reached from a place near the date line
 going west had a longitude below -180

---
 spherical_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_geometry.py b/spherical_geometry.py
index 07b2240..582a78d 100644
--- a/spherical_geometry.py
+++ b/spherical_geometry.py
@@ -100,7 +100,7 @@ def lat_lon_from_course_and_distance(lat1, lon1, tc, d):
 
     lat = np.arcsin(np.sin(lat1) * np.cos(dr) + np.cos(lat1) * np.sin(dr) * np.cos(tcr))
     dlon = np.arctan2(np.sin(tcr) * np.sin(dr) * np.cos(lat1), np.cos(dr) - np.sin(lat1) * np.sin(lat))
-    lon = math.fmod(lon1 + dlon + np.pi, 2. * np.pi) - np.pi
+    lon = (lon1 + dlon + np.pi) % (2. * np.pi) - np.pi
 
     lat = lat / radians_per_degree
     lon = lon / radians_per_degree
-- 
2.43.0


From 78e1a8b3ce61cc6f0978db6d266522302017f231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:37 +0000
Subject: [PATCH 19/30] fix: chunks of data at the start of the series were
 lost for gaps of more than ten months

---
 YMCounter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/YMCounter.py b/YMCounter.py
index 5c7a632..4b84182 100644
--- a/YMCounter.py
+++ b/YMCounter.py
@@ -25,7 +25,7 @@ class YMCounter:
 
         starts = []
         ends = []
-        zeros = 10
+        zeros = gap  # nothing is known before the start
         lastdata = -1
 
         for i in range(0, self.n):
-- 
2.43.0


From 69149c3c54daee45732a97c562f18b3bb7085721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:37 +0000
Subject: [PATCH 20/30] fix: noend submitted chunks near the end of the series
 when they were near the start, too

---
 Tracking_QC_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Tracking_QC_wrapper.py b/Tracking_QC_wrapper.py
index 2c787e4..2ac3c5c 100644
--- a/Tracking_QC_wrapper.py
+++ b/Tracking_QC_wrapper.py
@@ -241,7 +241,7 @@ def main(argv):
                     print('Ignore', yy1, mm1, yy2, mm2, cl)
 
             if edge == 'noend':
-                if 'regular' in cl or 'start_edge_case' in cl:
+                if 'end_edge_case' not in cl:
                     print('Submit', yy1, mm1, yy2, mm2, cl)
                     write_submission(inputfile, targetid, yy1, mm1, yy2, mm2, cl,
                                      runmonthid, track_out_dir, parameters['runid'])
-- 
2.43.0


From 30d09c685bfc74ed23d91246907d97210acb07b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:49 +0000
Subject: [PATCH 21/30] fix: packed background files could never be unpacked,
 the ending .bz2 was added twice

---
 BackgroundField.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BackgroundField.py b/BackgroundField.py
index 8835353..05c03e0 100644
--- a/BackgroundField.py
+++ b/BackgroundField.py
@@ -240,7 +240,7 @@ def get_background_filename(dirstubs, filenamestubs, year, month, day):
         if os.path.isfile(chosen_new):
             outfile = chosen_new
         else:
-            subprocess.call('bunzip2 -c ' + chosen_orig + '.bz2 > ' + chosen_new, shell=True)
+            subprocess.call('bunzip2 -c ' + chosen_orig + ' > ' + chosen_new, shell=True)
             outfile = chosen_new
 # if it's not bzipped then leave as is and read in place
     else:
-- 
2.43.0


From cc642772cc94ced255130e041ead6952da236f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:08 +0000
Subject: [PATCH 22/30] fix: flag files of identifiers with a slash or asterisk
 could not be written, nor their tracking QC be run

---
 Extended_IMMA.py | 2 +-
 tracking_qc.py   | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 9e8084d..294d466 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -2453,7 +2453,7 @@ class Voyage:
         syr = str(year)
         smn = "{:02}".format(month)
         for var in allvarnames:
-            outfilename = var + '_qc_' + syr + smn + '_' + self.reps[0].getvar('ID') + '_' + runid + '.csv'
+            outfilename = var + '_qc_' + syr + smn + '_' + safe_filename(self.reps[0].getvar('ID')) + '_' + runid + '.csv'
             outfile = open(icoads_dir + '/' + outfilename, 'w')
             outfile.write(self.reps[0].print_qc_block(var, allvarnames[var], header=True))
             count_write = 0
diff --git a/tracking_qc.py b/tracking_qc.py
index a475f68..ebcf149 100644
--- a/tracking_qc.py
+++ b/tracking_qc.py
@@ -158,6 +158,7 @@ def main(argv):
         parameters = json.load(f)
 
     rep_list = []  # this will store input data as MarineReports
+    safe_id = ex.safe_filename(target_id)  # as in the names of the files
 
     count = 0
     for year, month in qc.year_month_gen(args.yr1, args.mn1, args.yr2, args.mn2):
@@ -166,9 +167,9 @@ def main(argv):
         sm = "{:02}".format(month)
 
         # input data files
-        filename = "{0}/{1}/{2}/Variables_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, target_id, parameters['runid'])
-        posqc_filename = "{0}/{1}/{2}/POS_qc_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, target_id, parameters['runid'])
-        sstqc_filename = "{0}/{1}/{2}/SST_qc_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, target_id, parameters['runid'])
+        filename = "{0}/{1}/{2}/Variables_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, safe_id, parameters['runid'])
+        posqc_filename = "{0}/{1}/{2}/POS_qc_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, safe_id, parameters['runid'])
+        sstqc_filename = "{0}/{1}/{2}/SST_qc_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, safe_id, parameters['runid'])
 
         # check if any data exists for this month before continuing
         if not (os.path.isfile(filename) or
-- 
2.43.0


From 014bda3aeac3b0ff5a72b7d0cba13388208c7efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:34 +0000
Subject: [PATCH 23/30] fix: a record that could not be read stopped the run
 when its identifier had not been reached

---
 marine_qc.py            | 4 ++--
 marine_qc_hires.py      | 4 ++--
 marine_qc_track_only.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/marine_qc.py b/marine_qc.py
index c3c2f83..2f63899 100755
--- a/marine_qc.py
+++ b/marine_qc.py
@@ -166,8 +166,8 @@ def main(argv):
                     readob = False
                     print("Rejected ob {}".format(line))
 
-                if (not (rec.data['ID'] in ids_to_exclude) and
-                        readob and
+                if (readob and
+                        not (rec.data['ID'] in ids_to_exclude) and
                         rec.data['YR'] == readyear and
                         rec.data['MO'] == readmonth):
 
diff --git a/marine_qc_hires.py b/marine_qc_hires.py
index f38094c..0d7de3e 100755
--- a/marine_qc_hires.py
+++ b/marine_qc_hires.py
@@ -156,8 +156,8 @@ def main(argv):
                     readob = False
                     print("Rejected ob {}".format(line))
 
-                if (not (rec.data['ID'] in ids_to_exclude) and
-                        readob and
+                if (readob and
+                        not (rec.data['ID'] in ids_to_exclude) and
                         rec.data['YR'] == readyear and
                         rec.data['MO'] == readmonth):
 
diff --git a/marine_qc_track_only.py b/marine_qc_track_only.py
index 6a013be..7da3879 100755
--- a/marine_qc_track_only.py
+++ b/marine_qc_track_only.py
@@ -160,8 +160,8 @@ def main(argv):
                     readob = False
                     print("Rejected ob {}".format(line))
 
-                if (not (rec.data['ID'] in ids_to_exclude) and
-                        readob and
+                if (readob and
+                        not (rec.data['ID'] in ids_to_exclude) and
                         rec.data['YR'] == readyear and
                         rec.data['MO'] == readmonth):
 
-- 
2.43.0


From 2c0a64b96d667c52f64461ee0c41f050c992e9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:34 +0000
Subject: [PATCH 24/30] fix: a month without an ICOADS file stopped the run
 instead of being left out

---
 marine_qc.py            | 2 +-
 marine_qc_hires.py      | 2 +-
 marine_qc_track_only.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/marine_qc.py b/marine_qc.py
index 2f63899..d40e00c 100755
--- a/marine_qc.py
+++ b/marine_qc.py
@@ -151,7 +151,7 @@ def main(argv):
                                                     readyear, readmonth)
             try:
                 icoads_file = gzip.open(filename, "r")
-            except IOError:
+            except (IOError, TypeError):  # TypeError if there is no filename
                 print("no ICOADS file for {} {}".format(readyear, readmonth))
                 continue
 
diff --git a/marine_qc_hires.py b/marine_qc_hires.py
index 0d7de3e..5101527 100755
--- a/marine_qc_hires.py
+++ b/marine_qc_hires.py
@@ -141,7 +141,7 @@ def main(argv):
                                                     readyear, readmonth)
             try:
                 icoads_file = gzip.open(filename, "r")
-            except IOError:
+            except (IOError, TypeError):  # TypeError if there is no filename
                 print("no ICOADS file for {} {}".format(readyear, readmonth))
                 continue
 
diff --git a/marine_qc_track_only.py b/marine_qc_track_only.py
index 7da3879..227bd66 100755
--- a/marine_qc_track_only.py
+++ b/marine_qc_track_only.py
@@ -145,7 +145,7 @@ def main(argv):
                                                     readyear, readmonth)
             try:
                 icoads_file = gzip.open(filename, "r")
-            except IOError:
+            except (IOError, TypeError):  # TypeError if there is no filename
                 print("no ICOADS file for {} {}".format(readyear, readmonth))
                 continue
 
-- 
2.43.0


From 095f1c2a78ec5dd27762f15b5da5f21aebd4fd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:34 +0000
Subject: [PATCH 25/30] fix: writing the output of a deck without reports
 raised an error

---
 Extended_IMMA.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 294d466..652ddcc 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -3154,6 +3154,10 @@ class Deck:
         Write out QC flags for specified variable names from 
         the contents of the :class:`.Deck`.
         """
+        if len(self.reps) == 0:
+            print("no obs to write out")
+            return
+
         count_write = 0
         syr = str(year)
         smn = "{:02}".format(month)
@@ -3180,6 +3184,10 @@ class Deck:
         """
         Write out the contents of the :class:`.Deck`.
         """
+        if len(self.reps) == 0:
+            print("no obs to write out")
+            return
+
         count_write = 0
         syr = str(year)
         smn = "{:02}".format(month)
@@ -3224,6 +3232,10 @@ class Deck:
         """
         Write out the contents of the :class:`.Deck`.
         """
+        if len(self.reps) == 0:
+            print("no obs to write out")
+            return
+
         count_write = 0
         syr = str(year)
         smn = "{:02}".format(month)
-- 
2.43.0


From e7692660ceb73d4c28b16f4b0584a460f4c5dfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:45 +0000
Subject: [PATCH 26/30] fix: interpolating at 89.5S used one row of grid boxes
 twice and failed

---
 qc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qc.py b/qc.py
index c57a4e4..a833ed4 100644
--- a/qc.py
+++ b/qc.py
@@ -386,7 +386,7 @@ def get_four_surrounding_points(lat, lon, max90=1):
         if max90 == 0:
             y2 = 90.5
 
-    if lat - 0.5 >= -90:
+    if lat - 0.5 > -90:
         y1_index = lat_to_yindex(lat - 0.5)
         y1 = yindex_to_lat(y1_index)
     else:
-- 
2.43.0


From 5718e04e1af9877824d99244d2ad570032454b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:45 +0000
Subject: [PATCH 27/30] fix: fields with a level axis were flipped and rolled
 along the wrong axes

---
 Climatology.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Climatology.py b/Climatology.py
index 4aaea5f..d42c75f 100644
--- a/Climatology.py
+++ b/Climatology.py
@@ -53,6 +53,10 @@ class Climatology:
 
             climatology.close()
 
+            # fields with a level axis are reduced to the one level before the axes are told apart
+            if field.ndim == 4:
+                field = field[:, 0, :, :]
+
             # transpose the fields if the second axis is longitude
             if (field.shape[0] == 1 and
                     field.shape[1] == 360 and
@@ -69,9 +73,6 @@ class Climatology:
                 lon_len = field.shape[2]
                 field = np.roll(field, lon_len / 2, axis=2)
 
-            if field.ndim == 4:
-                field = field[:, 0, :, :]
-
         else:
             field = np.ma.array(np.zeros((1, 180 * 20, 360 * 20)), mask=True)
 
-- 
2.43.0


From 068f3818373225dfbcbe274a936d898db72cef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:22 +0000
Subject: [PATCH 28/30] fix: reports kept the background of the month read
 before when the same day of the month came next

---
 marine_qc.py            | 3 ++-
 marine_qc_track_only.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/marine_qc.py b/marine_qc.py
index d40e00c..88d0b95 100755
--- a/marine_qc.py
+++ b/marine_qc.py
@@ -135,12 +135,13 @@ def main(argv):
 
         reps = ex.Deck()
         count = 0
-        lastday = -99
 
         for readyear, readmonth in qc.year_month_gen(last_year, last_month, next_year, next_month):
 
             print("{} {}".format(readyear, readmonth))
 
+            lastday = -99
+
             ostia_bg_var = None
             if tracking:
                 ostia_bg_var = clim.Climatology.from_filename(
diff --git a/marine_qc_track_only.py b/marine_qc_track_only.py
index 227bd66..adf3623 100755
--- a/marine_qc_track_only.py
+++ b/marine_qc_track_only.py
@@ -129,12 +129,13 @@ def main(argv):
 
         reps = ex.Deck()
         count = 0
-        lastday = -99
 
         for readyear, readmonth in qc.year_month_gen(last_year, last_month, next_year, next_month):
 
             print("{} {}".format(readyear, readmonth))
 
+            lastday = -99
+
             ostia_bg_var = None
             if tracking:
                 ostia_bg_var = clim.Climatology.from_filename(
-- 
2.43.0


From da5a8f9f624d3a5cad2f8f3af7b2f4bbbf1a5478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:29 +0000
Subject: [PATCH 29/30] fix: sun position of the day before in 1977-1979 and
 every three years in four before

---
 qc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qc.py b/qc.py
index a833ed4..105d75f 100644
--- a/qc.py
+++ b/qc.py
@@ -1105,7 +1105,7 @@ def sunangle(year, day, hour, minute, sec, zone, dasvtm, lat, lon):
     # Find number of whole years since end of 1979 (reference point)
     delyear = (year - 1980)  #
     # Find leap year correction
-    leap = math.floor(delyear / 4.)
+    leap = int(delyear / 4.)
     # Find time in whole hours since midnight (allow for "daylight saving").
     time_in_hours = hour + (minute + sec / 60.) / 60. + zone - dasvtm
     # Find time in whole days since start of January 1980
-- 
2.43.0


From f4365a22d964cf1e539f4e8f681befe20ab5d703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:29 +0000
Subject: [PATCH 30/30] fix: azimuth of the sun in the southern hemisphere
 pointed north for south

---
 qc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qc.py b/qc.py
index 105d75f..db9cac6 100644
--- a/qc.py
+++ b/qc.py
@@ -1200,7 +1200,7 @@ def sunangle(year, day, hour, minute, sec, zone, dasvtm, lat, lon):
         # WAS . . .
         # a = ASIN (COS (declination) * SIN (h) / COS (e)) / degrad  ! Azimuth is degrees
         # Wrap around beyond -180 to 180
-        if math.sin(elevation) < math.sin(declination) / math.sin(phi):
+        if math.sin(elevation) * math.sin(phi) < math.sin(declination):
             if azimuth < 0:
                 azimuth = azimuth + 360.0
             azimuth = 180.0 - azimuth
-- 
2.43.0

