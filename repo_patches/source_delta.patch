From 7fe72f9f42234318c4fa23076ae6e9685e52d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:03 +0000
Subject: [PATCH 01/39] fix: use the builtin float instead of the removed
 np.float alias

---
 mtoolkit/scientific/maximum_magnitude.py | 8 ++++----
 mtoolkit/scientific/recurrence.py        | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/mtoolkit/scientific/maximum_magnitude.py b/mtoolkit/scientific/maximum_magnitude.py
index ea5f84f..03d5a8c 100755
--- a/mtoolkit/scientific/maximum_magnitude.py
+++ b/mtoolkit/scientific/maximum_magnitude.py
@@ -57,7 +57,7 @@ def h_smooth(mag):
     :rtype hfact: Float
     """
 
-    neq = np.float(np.shape(mag)[0])
+    neq = float(np.shape(mag)[0])
 
     # Calculate inter-quartile range
     qtiles = mquantiles(mag, prob=[0.25, 0.75])
@@ -204,12 +204,12 @@ def kijko_nonparametric_gauss(mag, mag_sig, neq,
     # Find number_eqs largest events
     if np.shape(mag)[0] <= neq:
         # Catalogue smaller than number of required events
-        neq = np.float(np.shape(mag)[0])
+        neq = float(np.shape(mag)[0])
     else:
         # Select number_eqs largest events
         mag = np.sort(mag, kind='quicksort')
         mag = mag[-neq:]
-        neq = np.float(neq)
+        neq = float(neq)
 
     mmin = np.min(mag)
     # Get smoothing factor
@@ -252,7 +252,7 @@ def cumulative_moment(year, mag):
     # Calculate seismic moment
     m_o = 10. ** (9.05 + 1.5 * mag)
     year_range = np.arange(np.min(year), np.max(year) + 1, 1)
-    nyr = np.float(np.shape(year_range)[0])
+    nyr = float(np.shape(year_range)[0])
     morate = np.zeros(nyr, dtype=float)
     # Get moment release per year
     for loc, tyr in enumerate(year_range):
diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index af60234..609ecb4 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -205,15 +205,15 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
         # differences.
         id1 = np.logical_and(year >= ctime[ival],
                     mag >= (m_c - mag_eq_tolerance))
-        nyr = np.float(np.max(year[id1]) - np.min(year[id1]) + 1)
+        nyr = float(np.max(year[id1]) - np.min(year[id1]) + 1)
 
         # Get a- and b- value for the selected events
         temp_rec_table = recurrence_table(mag[id1], dmag, year[id1])
         bval, sigma_b = b_max_likelihood(temp_rec_table[:, 0],
                                          temp_rec_table[:, 1], dmag, m_c)
 
-        aval = np.log10(np.float(np.sum(id1)) / nyr) + bval * m_c
-        sigma_a = np.abs(np.log10(np.float(np.sum(id1)) / nyr) +
+        aval = np.log10(float(np.sum(id1)) / nyr) + bval * m_c
+        sigma_a = np.abs(np.log10(float(np.sum(id1)) / nyr) +
             (bval + sigma_b) * ref_mag - aval)
 
         # Calculate reference rate
-- 
2.43.0


From 78d131205d0ac37f40cb51c4e3f6412f4ad69edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:03 +0000
Subject: [PATCH 02/39] fix: size the yearly moment vectors with an integer

---
 mtoolkit/scientific/maximum_magnitude.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/scientific/maximum_magnitude.py b/mtoolkit/scientific/maximum_magnitude.py
index 03d5a8c..afa9af4 100755
--- a/mtoolkit/scientific/maximum_magnitude.py
+++ b/mtoolkit/scientific/maximum_magnitude.py
@@ -253,7 +253,7 @@ def cumulative_moment(year, mag):
     m_o = 10. ** (9.05 + 1.5 * mag)
     year_range = np.arange(np.min(year), np.max(year) + 1, 1)
     nyr = float(np.shape(year_range)[0])
-    morate = np.zeros(nyr, dtype=float)
+    morate = np.zeros(np.shape(year_range)[0], dtype=float)
     # Get moment release per year
     for loc, tyr in enumerate(year_range):
         idx = np.abs(year - tyr) < 1E-5
@@ -263,7 +263,7 @@ def cumulative_moment(year, mag):
     ave_morate = np.sum(morate) / nyr
 
     # Average moment rate vector
-    exp_morate = np.cumsum(ave_morate * np.ones(nyr))
+    exp_morate = np.cumsum(ave_morate * np.ones(np.shape(year_range)[0]))
     modiff = np.abs(np.max(np.cumsum(morate) - exp_morate)) + \
                     np.abs(np.min(np.cumsum(morate) - exp_morate))
     # Return back to Mw
-- 
2.43.0


From 37ed7ab9ffa93e41f2df40e4f2aacc339afd8894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:34 +0000
Subject: [PATCH 03/39] fix: drop the function object np.std from the h_smooth
 minimum, keeping the QA-checked inter-quartile value

---
 mtoolkit/scientific/maximum_magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/maximum_magnitude.py b/mtoolkit/scientific/maximum_magnitude.py
index afa9af4..ccb6321 100755
--- a/mtoolkit/scientific/maximum_magnitude.py
+++ b/mtoolkit/scientific/maximum_magnitude.py
@@ -62,7 +62,7 @@ def h_smooth(mag):
     # Calculate inter-quartile range
     qtiles = mquantiles(mag, prob=[0.25, 0.75])
     iqr = qtiles[1] - qtiles[0]
-    hfact = 0.9 * np.min([np.std, iqr / 1.34]) * (neq ** (-1. / 5.))
+    hfact = 0.9 * (iqr / 1.34) * (neq ** (-1. / 5.))
     # Round h to 2 dp
     hfact = np.round(100. * hfact) / 100.
     return hfact
-- 
2.43.0


From b7ed30bd32d270f68f468561bb832c97811bc008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:34 +0000
Subject: [PATCH 04/39] fix: do not compare blank optional catalogue fields
 with numbers

---
 mtoolkit/eqcatalog.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 723bf19..7ee32ef 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -212,7 +212,8 @@ class EqEntryReader(object):
 
         if field in self.compulsory_fields:
             return eq_entry[field] > 0
-        if eq_entry[field] < 0:
+        if eq_entry[field] != EqEntryReader.EMPTY_STRING and \
+            eq_entry[field] < 0:
             eq_entry[field] = EqEntryReader.EMPTY_STRING
         return True
 
@@ -260,7 +261,8 @@ class EqEntryReader(object):
         of the value in the eq_entry.
         """
 
-        if not 0 <= eq_entry[field] <= 59:
+        if eq_entry[field] == EqEntryReader.EMPTY_STRING or \
+            not 0 <= eq_entry[field] <= 59:
             eq_entry[field] = EqEntryReader.EMPTY_STRING
         return True
 
@@ -287,7 +289,8 @@ class EqEntryReader(object):
         (i.e. ErrorStrike, SemiMinor90, SemiMajor90).
         """
 
-        if not 0 <= eq_entry[field] <= 360 or \
+        if eq_entry[field] == EqEntryReader.EMPTY_STRING or \
+            not 0 <= eq_entry[field] <= 360 or \
             eq_entry['SemiMinor90'] == EqEntryReader.EMPTY_STRING or \
             eq_entry['SemiMajor90'] == EqEntryReader.EMPTY_STRING or \
             not (eq_entry['SemiMinor90'] <= eq_entry['SemiMajor90']):
-- 
2.43.0


From 92cfc33dcd621147d758b814b8412a437843d338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:34 +0000
Subject: [PATCH 05/39] fix: report an unconvertible compulsory float as a
 validation error

---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 7ee32ef..ee3356b 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -189,7 +189,7 @@ class EqEntryReader(object):
                 except ValueError:
                     if key in self.compulsory_fields:
                         raise EqEntryValidationError(key,
-                            dict_fields_values[key])
+                            dict_fields_values[key], self.current_line)
                     else:
                         dict_fields_values[key] = EqEntryReader.EMPTY_STRING
 
-- 
2.43.0


From fb46c53f234336e825cd5714cec0fa003a5c5ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:34 +0000
Subject: [PATCH 06/39] fix: reject days below 1 in February

---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index ee3356b..ea86a06 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -236,7 +236,7 @@ class EqEntryReader(object):
         Return a bool stating if check is passed.
         """
 
-        return (eq_entry['month'] == 2 and eq_entry[field] <= 29)\
+        return (eq_entry['month'] == 2 and 1 <= eq_entry[field] <= 29)\
             or (eq_entry['month'] != 2 and 1 <= eq_entry[field] <= 31)
 
     def check_hour(self, field, eq_entry):
-- 
2.43.0


From 71781aa0e9c39f4e6518795e9b58ef20ec73537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:34 +0000
Subject: [PATCH 07/39] fix: open the nrml result file in binary mode

---
 nrml/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrml/writer.py b/nrml/writer.py
index d793fdc..98c3a48 100644
--- a/nrml/writer.py
+++ b/nrml/writer.py
@@ -59,7 +59,7 @@ class AreaSourceWriter(object):
         root_elem = _write_body(root_elem, area_sources)
 
         tree = etree.ElementTree(root_elem)
-        tree.write(open(self.filename, 'w'),
+        tree.write(open(self.filename, 'wb'),
             xml_declaration=True, encoding='utf-8',
             pretty_print=True)
 
-- 
2.43.0


From 27225102cda3a4bf6fbbdd5ef839a5a8391cea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:34 +0000
Subject: [PATCH 08/39] fix: flatten the distance column before indexing with
 it in Gardner-Knopoff

---
 mtoolkit/scientific/declustering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 3f0983a..8ed3f9d 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -206,7 +206,8 @@ def gardner_knopoff_decluster(
             # window
             vsel1 = haversine(
                 catalog_matrix[vsel, 3], catalog_matrix[vsel, 4],
-                catalog_matrix[i, 3], catalog_matrix[i, 4]) <= sw_space[i]
+                catalog_matrix[i, 3],
+                catalog_matrix[i, 4]).flatten() <= sw_space[i]
             vsel[vsel] = vsel1
             temp_vsel = np.copy(vsel)
             temp_vsel[i] = False
-- 
2.43.0


From f8328438eaf26f131d1a2ba148ab9c92346bdb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:39 +0000
Subject: [PATCH 09/39] fix: never move an event of an existing cluster into
 another one in Gardner-Knopoff

---
 mtoolkit/scientific/declustering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 8ed3f9d..6d3bb51 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -199,9 +199,10 @@ def gardner_knopoff_decluster(
         if vcl[i] == 0:
             # Find Events inside both fore- and aftershock time windows
             dt = year_dec - year_dec[i]
+            # which are not in a cluster yet
             vsel = np.logical_and(dt >= (-sw_time[i] * fs_time_prop),
-                                              dt <= sw_time[i],
-                                              flagvector == 0)
+                                              dt <= sw_time[i])
+            vsel = np.logical_and(vsel, vcl == 0)
             # Of those events inside time window, find those inside distance
             # window
             vsel1 = haversine(
-- 
2.43.0


From c6ac6f97abb818a2b9a535f0840f7eb8eeefec3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:29 +0000
Subject: [PATCH 10/39] fix: never declare an event the aftershock of a smaller
 one in Gardner-Knopoff

---
 mtoolkit/scientific/declustering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 6d3bb51..4e59b81 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -203,6 +203,8 @@ def gardner_knopoff_decluster(
             vsel = np.logical_and(dt >= (-sw_time[i] * fs_time_prop),
                                               dt <= sw_time[i])
             vsel = np.logical_and(vsel, vcl == 0)
+            # Larger events cannot depend on the current one
+            vsel[:i] = False
             # Of those events inside time window, find those inside distance
             # window
             vsel1 = haversine(
-- 
2.43.0


From c76d7c9f26660617772ce6f81d948ac09688c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:29 +0000
Subject: [PATCH 11/39] fix: start the Afteran moving window from the current
 event, not from a larger unrelated one

---
 mtoolkit/scientific/declustering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 4e59b81..f8013f9 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -361,6 +361,9 @@ def afteran_decluster(
 
             # Select earthquakes inside distance window and not in cluster
             vsel = np.logical_and(mdist <= sw_space[i], vcl == 0).flatten()
+            # Larger events cannot be aftershocks of the current one: the
+            # first selected event has to be the mainshock
+            vsel[:i] = False
             dtime = year_dec[vsel] - year_dec[i]
 
             nval = np.shape(dtime)[0]  # Number of events inside valid window
-- 
2.43.0


From fe08e4246459c0da5dba9f1c2a86e21c7eca33b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:19 +0000
Subject: [PATCH 12/39] fix: keep seconds between 59 and 60

---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index ea86a06..0b508fc 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -262,7 +262,7 @@ class EqEntryReader(object):
         """
 
         if eq_entry[field] == EqEntryReader.EMPTY_STRING or \
-            not 0 <= eq_entry[field] <= 59:
+            not 0 <= eq_entry[field] < 60:
             eq_entry[field] = EqEntryReader.EMPTY_STRING
         return True
 
-- 
2.43.0


From 02a31eb5c507394b3b959e1269e26f4606a95c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:19 +0000
Subject: [PATCH 13/39] fix: let EqEntryWriter write in the current directory

---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 0b508fc..6616f0c 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -340,7 +340,7 @@ class EqEntryWriter(object):
 
     def __init__(self, output_filename):
         output_dir = os.path.dirname(output_filename)
-        if not os.path.exists(output_dir):
+        if output_dir and not os.path.exists(output_dir):
             raise IOError('Invalid dir: %s' % output_dir)
         self.output_filename = output_filename
 
-- 
2.43.0


From bf9183b812829e21266ca27fb34188b8003c3f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:19 +0000
Subject: [PATCH 14/39] fix: let AreaSourceWriter write in the current
 directory

---
 nrml/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrml/writer.py b/nrml/writer.py
index 98c3a48..14e5031 100644
--- a/nrml/writer.py
+++ b/nrml/writer.py
@@ -43,7 +43,7 @@ class AreaSourceWriter(object):
         """
 
         dirname = os.path.dirname(filename)
-        if not os.path.exists(dirname):
+        if dirname and not os.path.exists(dirname):
             raise IOError('Dir %s not found' %
                 (os.path.abspath(dirname), ))
         self.filename = filename
-- 
2.43.0


From 9bac7b3d3abbb62d9c5a5b7bcc05f193fa430197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:19 +0000
Subject: [PATCH 15/39] fix: do not take a Stepp breakpoint at index 0 for a
 missing one

---
 mtoolkit/scientific/completeness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/completeness.py b/mtoolkit/scientific/completeness.py
index afd3adf..88b893b 100644
--- a/mtoolkit/scientific/completeness.py
+++ b/mtoolkit/scientific/completeness.py
@@ -108,7 +108,7 @@ def stepp_analysis(year, mw, dm=0.1, dt=1, ttol=0.2, iloc=True):
         resid1 = grad1 - time_diff
         test1 = np.abs(resid1[1:] - resid1[:-1])
         tloct = np.nonzero(test1 > ttol)[0]
-        if not(np.any(tloct)):
+        if np.size(tloct) == 0:
             tloct = -1
         else:
             tloct = tloct[-1]
-- 
2.43.0


From 172737393882bc61cda179063f37fdb33da0f3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:19 +0000
Subject: [PATCH 16/39] fix: accept weights whose floating point sum is one up
 to rounding

---
 mtoolkit/geo/tectonic_region.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mtoolkit/geo/tectonic_region.py b/mtoolkit/geo/tectonic_region.py
index 1420c1f..bfd65c2 100644
--- a/mtoolkit/geo/tectonic_region.py
+++ b/mtoolkit/geo/tectonic_region.py
@@ -20,6 +20,7 @@ regions types.
 """
 
 
+WEIGHT_TOLERANCE = 1.0E-9
 DEFAULT_MSR = {'model': ['WC1994'], 'weight': [1.0]}
 DEFAULT_DLR = {'value': [1.25E-5], 'weight': [1.0]}
 VOL_STCON_SMOD = {'value': [29.0], 'weight': [1.0]}
@@ -148,13 +149,13 @@ class TectonicRegion(object):
         sum_weights_smod = reduce(lambda x, y: x + y, smod)
         sum_weights_dlr = reduce(lambda x, y: x + y, dlr)
 
-        if sum_weights_msr != 1.0:
+        if not abs(sum_weights_msr - 1.0) <= WEIGHT_TOLERANCE:
             raise ValueError('The sum of weights for magnitude scaling'
                             ' relations should be one')
-        if sum_weights_smod != 1.0:
+        if not abs(sum_weights_smod - 1.0) <= WEIGHT_TOLERANCE:
             raise ValueError('The sum of weights for shear modulus'
                            ' should be one')
-        if sum_weights_dlr != 1.0:
+        if not abs(sum_weights_dlr - 1.0) <= WEIGHT_TOLERANCE:
             raise ValueError('The sum of weights for displacement length ratio'
                             ' should be one')
 
-- 
2.43.0


From 20deb5e9d5d520770d8ce779c13277e49d1a45ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:19 +0000
Subject: [PATCH 17/39] fix: return no arguments when the input file is missing
 or does not exist

---
 mtoolkit/console.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mtoolkit/console.py b/mtoolkit/console.py
index 1b3c657..e8a33d1 100644
--- a/mtoolkit/console.py
+++ b/mtoolkit/console.py
@@ -63,9 +63,10 @@ def cmd_line():
         parser.print_help()
     else:
         args = parser.parse_args()
-        if not os.path.exists(args.input_file[0]):
+        if not args.input_file or not os.path.exists(args.input_file[0]):
             print 'Error: non existent input file\n'
             parser.print_help()
+            args = None
 
     return args
 
-- 
2.43.0


From b9c38f6b4628cbf7851becfabfeaca40e31468b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:19 +0000
Subject: [PATCH 18/39] fix: no NaN distance between antipodal points

---
 mtoolkit/scientific/catalogue_utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mtoolkit/scientific/catalogue_utilities.py b/mtoolkit/scientific/catalogue_utilities.py
index f9e1bfb..402d6be 100644
--- a/mtoolkit/scientific/catalogue_utilities.py
+++ b/mtoolkit/scientific/catalogue_utilities.py
@@ -100,6 +100,8 @@ def haversine(lon1, lat1, lon2, lat2, radians=False, earth_rad=6371.227):
         dlon = lon1 - lon2[i]
         aval = (np.sin(dlat / 2.) ** 2.) + (np.cos(lat1) * np.cos(lat2[i]) *
              (np.sin(dlon / 2.) ** 2.))
+        # Rounding may exceed one for antipodal points
+        aval = np.minimum(aval, 1.)
         distance[:, i] = (2. * earth_rad * np.arctan2(np.sqrt(aval),
                                                     np.sqrt(1 - aval))).T
         i += 1
-- 
2.43.0


From 5ecc3c804f54f14b37d2ea3dd488c6a1a829c1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:56 +0000
Subject: [PATCH 19/39] fix: end the Weichert iteration when it does not
 converge

---
 mtoolkit/scientific/recurrence.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 609ecb4..6fe407a 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -30,6 +30,8 @@ import logging
 
 LOGGER = logging.getLogger('mt_logger')
 
+MAX_ITERATIONS = 1000
+
 
 def recurrence_analysis(year_col, magnitude_col,
                         completeness_table, magnitude_window,
@@ -328,13 +330,22 @@ def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5):
     :type beta: float
     :keyword itstab: stabilisation tolerance
     :type itstab: float
-    :returns: b-value, sigma_b, a-value, sigma_a
+    :returns: b-value, sigma_b, a-value, sigma_a, all of them nan when no
+              solution can be found
     :rtype: float
     """
 
+    no_solution = (np.nan, np.nan, np.nan, np.nan)
+    if np.shape(fmag)[0] < 2:
+        # A single magnitude bin doesn't determine the b-value
+        return no_solution
     d_m = fmag[1] - fmag[0]
     itbreak = 0
+    iteration = 0
     while (itbreak != 1):
+        iteration += 1
+        if iteration > MAX_ITERATIONS or not np.isfinite(beta):
+            return no_solution
         snm = np.sum(nobs * fmag)
         nkount = np.sum(nobs)
         tjexp = tper * np.exp(-beta * fmag)
-- 
2.43.0


From 3c7439a9ec381c07b1c93c00f8fd389d362822b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:56 +0000
Subject: [PATCH 20/39] fix: skip completeness periods without events in the
 MLE recurrence

---
 mtoolkit/scientific/recurrence.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 6fe407a..6eee062 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -198,6 +198,8 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
 
     ival = 0
     mag_eq_tolerance = 1E-5
+    gr_pars = np.zeros((0, 4))
+    neq = np.zeros(0)
     while ival < np.shape(ctime)[0]:
         id0 = np.abs(ctime - ctime[ival]) < mag_eq_tolerance
         m_c = np.min(cmag[id0])
@@ -207,6 +209,10 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
         # differences.
         id1 = np.logical_and(year >= ctime[ival],
                     mag >= (m_c - mag_eq_tolerance))
+        if not np.any(id1):
+            # No events to estimate the parameters of this period from
+            ival = ival + np.sum(id0)
+            continue
         nyr = float(np.max(year[id1]) - np.min(year[id1]) + 1)
 
         # Get a- and b- value for the selected events
@@ -223,15 +229,14 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
         sigrate = 10.0 ** ((aval + sigma_a) - (bval * ref_mag) -
             np.log10(rate))
 
-        if ival == 0:
-            gr_pars = np.array([np.hstack([bval, sigma_b, rate, sigrate])])
-            neq = np.sum(id1)  # Number of events
-        else:
-            gr_pars = np.vstack([gr_pars, np.hstack([bval, sigma_b, rate,
-                                                     sigrate])])
-            neq = np.hstack([neq, np.sum(id1)])
+        gr_pars = np.vstack([gr_pars, np.hstack([bval, sigma_b, rate,
+                                                 sigrate])])
+        neq = np.hstack([neq, np.sum(id1)])  # Number of events
         ival = ival + np.sum(id0)
 
+    if np.size(neq) == 0:
+        return np.nan, np.nan, np.nan, np.nan
+
     # The nextapproach is to work out the average values of the G-R parameters
     # from these periods, weighted by the number of events in each period
     neq = neq.astype(float) / np.sum(neq)
-- 
2.43.0


From b67185fcf54cc9a3a2b45cc7bed212cf5e34e7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:56 +0000
Subject: [PATCH 21/39] fix: keep the default recurrence parameters when
 recurrence is not possible

---
 mtoolkit/jobs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mtoolkit/jobs.py b/mtoolkit/jobs.py
index 40af0ad..4d3a246 100644
--- a/mtoolkit/jobs.py
+++ b/mtoolkit/jobs.py
@@ -306,6 +306,10 @@ def recurrence(context):
         in a pipeline
     """
 
+    if len(context.current_filtered_eq) == 0:
+        LOGGER.warning("Recurrence not possible: no events")
+        return
+
     bval, sigb, a_m, siga_m = context.map_sc['recurrence'](
             context.current_filtered_eq[:,
                 CATALOG_COMPLETENESS_MATRIX_YEAR_INDEX],
@@ -316,6 +320,10 @@ def recurrence(context):
             context.config['Recurrence']['reference_magnitude'],
             context.config['Recurrence']['time_window'])
 
+    if not (np.isfinite(bval) and np.isfinite(a_m)):
+        LOGGER.warning("Recurrence not possible: too few events")
+        return
+
     t = context.cur_sm.rupture_rate_model.truncated_gutenberg_richter._replace(
         a_value=a_m,
         b_value=bval,
-- 
2.43.0


From 659af2d3a32a08d829ec08b14aef32d37e03043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:56 +0000
Subject: [PATCH 22/39] fix: keep the default maximum magnitude when its
 estimation is not possible

---
 mtoolkit/jobs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mtoolkit/jobs.py b/mtoolkit/jobs.py
index 4d3a246..ff2e793 100644
--- a/mtoolkit/jobs.py
+++ b/mtoolkit/jobs.py
@@ -349,6 +349,10 @@ def maximum_magnitude(context):
     :param context: shared datastore across different jobs
         in a pipeline
     """
+    if len(context.current_filtered_eq) == 0:
+        LOGGER.warning("Maximum magnitude not possible: no events")
+        return
+
     max_mag, max_mag_sigma = context.map_sc['maximum_magnitude'](
         context.current_filtered_eq[:,
             CATALOG_COMPLETENESS_MATRIX_YEAR_INDEX],
@@ -361,6 +365,10 @@ def maximum_magnitude(context):
         context.config['MaximumMagnitude']['number_samples'],
         context.config['MaximumMagnitude']['number_bootstraps'])
 
+    if not np.isfinite(max_mag):
+        LOGGER.warning("Maximum magnitude not possible: too few events")
+        return
+
     t = context.cur_sm.rupture_rate_model.truncated_gutenberg_richter._replace(
         max_magnitude=max_mag)
 
-- 
2.43.0


From 69208657ab4107f5ffad689c9610c704b1f9c6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:56 +0000
Subject: [PATCH 23/39] fix: chain declustering jobs on the events left by the
 previous one

---
 mtoolkit/jobs.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/mtoolkit/jobs.py b/mtoolkit/jobs.py
index ff2e793..9e852da 100644
--- a/mtoolkit/jobs.py
+++ b/mtoolkit/jobs.py
@@ -137,6 +137,26 @@ def create_default_values(context):
     context.completeness_table = np.array([[min_year, min_magnitude]])
 
 
+def _merge_flag_vector(context, flag_vector):
+    """
+    Merge the flags of the events in the working catalog
+    with the ones of the events already removed by previous
+    declustering jobs, the result has a flag for every event
+    of the eq catalog.
+    :param context: shared datastore across different jobs
+        in a pipeline
+    :param flag_vector: flags of the events in the working catalog
+    """
+
+    previous = getattr(context, 'flag_vector', None)
+    if previous is None or len(previous) == len(flag_vector):
+        return flag_vector
+
+    merged = np.array(previous, dtype=int)
+    merged[merged == 0] = flag_vector
+    return merged
+
+
 @logged_job
 def gardner_knopoff(context):
     """
@@ -152,7 +172,7 @@ def gardner_knopoff(context):
 
     context.vcl = vcl
     context.working_catalog = vmain_shock
-    context.flag_vector = flag_vector
+    context.flag_vector = _merge_flag_vector(context, flag_vector)
 
     LOGGER.debug(
         "* Number of events after declustering: %s" % len(vmain_shock))
@@ -175,13 +195,13 @@ def afteran(context):
     """
 
     vcl, vmain_shock, flag_vector = context.map_sc['afteran'](
-            context.catalog_matrix,
+            context.working_catalog,
             context.config['Afteran']['time_dist_windows'],
             context.config['Afteran']['time_window'])
 
     context.vcl = vcl
     context.working_catalog = vmain_shock
-    context.flag_vector = flag_vector
+    context.flag_vector = _merge_flag_vector(context, flag_vector)
 
     LOGGER.debug(
         "* Number of events after declustering: %s" % len(vmain_shock))
-- 
2.43.0


From fbb690d972407e2c123bed184e9bf3767324df92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:25 +0000
Subject: [PATCH 24/39] fix: no Weichert solution from empty or negative
 observation periods

---
 mtoolkit/scientific/recurrence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 6eee062..bd0e20a 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -344,6 +344,9 @@ def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5):
     if np.shape(fmag)[0] < 2:
         # A single magnitude bin doesn't determine the b-value
         return no_solution
+    if np.any(tper <= 0):
+        # No observation period for some of the magnitudes
+        return no_solution
     d_m = fmag[1] - fmag[0]
     itbreak = 0
     iteration = 0
-- 
2.43.0


From 8ccd644fa663fdbbd2ec56007d0665f56138f540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:01 +0000
Subject: [PATCH 25/39] fix: Julian dates of March to August in non leap
 century years

---
 mtoolkit/scientific/catalogue_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/catalogue_utilities.py b/mtoolkit/scientific/catalogue_utilities.py
index 402d6be..724d83b 100644
--- a/mtoolkit/scientific/catalogue_utilities.py
+++ b/mtoolkit/scientific/catalogue_utilities.py
@@ -113,7 +113,7 @@ def greg2julian(year, month, day, hour, minute, second):
     timeut = hour + (minute / 60.0) + (second / 3600.0)
     jd = (367.0 * year) - np.floor(7.0 * (year +
              np.floor((month + 9.0) / 12.0)) / 4.0) - np.floor(3.0 *
-             (np.floor((year + (month - 9.0) / 7.0) / 100.0) + 1.0) /
+             (np.floor((year + np.fix((month - 9.0) / 7.0)) / 100.0) + 1.0) /
              4.0) + np.floor((275.0 * month) / 9.0) + day +\
              1721028.5 + (timeut / 24.0)
     return jd
-- 
2.43.0


From 87558f716064ca070916b66b2098dea36e582cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:01 +0000
Subject: [PATCH 26/39] fix: count blank lines in the line number of a
 validation error

---
 mtoolkit/eqcatalog.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 6616f0c..4e701e5 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -143,7 +143,9 @@ class EqEntryReader(object):
         """
         eq_reader = DictReader(self.eq_entries_source, fieldnames=FIELDNAMES)
         # eq definitions start at line 2
-        for self.current_line, eq_line in enumerate(eq_reader, start=2):
+        for eq_line in eq_reader:
+            # The header line is not counted by the csv reader
+            self.current_line = eq_reader.line_num + 1
             eq_entry = self.convert_values(eq_line)
             for field in eq_entry.keys():
                 if not self.check_map[field](field, eq_entry) and (field in
-- 
2.43.0


From 04b92bcb9b68c7adf7050712a4254c40cb9ff7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:54 +0000
Subject: [PATCH 27/39] fix: report missing compulsory columns as a validation
 error

---
 mtoolkit/eqcatalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 4e701e5..cb5edef 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -178,7 +178,7 @@ class EqEntryReader(object):
                 try:
                     dict_fields_values[key] = int(
                         dict_fields_values[key])
-                except ValueError:
+                except (ValueError, TypeError):
                     # fields in self.to_int are all compulsory
                     raise EqEntryValidationError(key,
                             dict_fields_values[key], self.current_line)
@@ -188,7 +188,7 @@ class EqEntryReader(object):
                 try:
                     dict_fields_values[key] = float(
                         dict_fields_values[key])
-                except ValueError:
+                except (ValueError, TypeError):
                     if key in self.compulsory_fields:
                         raise EqEntryValidationError(key,
                             dict_fields_values[key], self.current_line)
-- 
2.43.0


From b5920b87b48d6843348552baa66172ad9b49691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 28/39] fix: try every remaining candidate as a foreshock in
 Afteran

---
 mtoolkit/scientific/declustering.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index f8013f9..19e6247 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -287,10 +287,8 @@ def _find_foreshocks(dtime, nval, time_window, vsel_aftershocks):
     initval = dtime[0]
 
     while j < nval:
-        if vsel_aftershocks[j]:
         # Event already allocated as an aftershock - skip
-            j += 1
-        else:
+        if not vsel_aftershocks[j]:
             ddt = dtime[j] - initval
             # Is event before previous event and within time window?
             vsel[j] = np.logical_and(ddt <= 0.0,
-- 
2.43.0


From 00921cbb2679fd6ca70361ce9c21ba3f12ddc582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:33 +0000
Subject: [PATCH 29/39] fix: read area sources without the optional name

---
 nrml/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nrml/reader.py b/nrml/reader.py
index 65db6e2..b72587f 100644
--- a/nrml/reader.py
+++ b/nrml/reader.py
@@ -97,8 +97,9 @@ def _parse_area_source(as_elem):
     area_source.area_source_id = as_elem.get(
         nrml_xml.GML_ID)
 
-    area_source.name = as_elem.find(
-        nrml_xml.GML_NAME).text
+    # The name is optional
+    name_elem = as_elem.find(nrml_xml.GML_NAME)
+    area_source.name = None if name_elem is None else name_elem.text
 
     area_source.tectonic_region = as_elem.find(
         nrml_xml.TECTONIC_REGION).text
-- 
2.43.0


From ee87654bdb6091be73753c6714f0172806a928f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:33 +0000
Subject: [PATCH 30/39] fix: write sources without the optional attributes

---
 nrml/writer.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/nrml/writer.py b/nrml/writer.py
index 14e5031..919bc80 100644
--- a/nrml/writer.py
+++ b/nrml/writer.py
@@ -141,6 +141,21 @@ def _area_source_elem(area_source):
     return area_source_elem
 
 
+def _set_attribute(elem, name, value):
+    """
+    Set an optional attribute.
+    :param elem: element which contains the attribute
+    :type elem: lxml.etree._Element
+    :param name: name of the attribute
+    :type name: string
+    :param value: value of the attribute, None when there is no value
+    :type value: string
+    """
+
+    if value is not None:
+        elem.attrib[name] = value
+
+
 def _write_area_boundary(container_elem, area_boundary):
     """
     Attach an area boundary element
@@ -162,7 +177,8 @@ def _write_area_boundary(container_elem, area_boundary):
 
     linear_ring_elem = etree.SubElement(
         exterior_elem, nrml_xml.LINEAR_RING)
-    linear_ring_elem.attrib[nrml_xml.SRS_NAME] = area_boundary.srs_name
+    _set_attribute(
+        linear_ring_elem, nrml_xml.SRS_NAME, area_boundary.srs_name)
 
     pos_list_elem = etree.SubElement(
         linear_ring_elem, nrml_xml.POS_LIST)
@@ -219,8 +235,8 @@ def _write_truncated_guten_richter(container_elem,
 
     truncatd_gutenberg_rich_elem = etree.SubElement(
         container_elem, nrml_xml.TRUNCATED_GUTEN_RICHTER)
-    truncatd_gutenberg_rich_elem.attrib[nrml_xml.TYPE] = \
-        truncated_gutenberg_richter.type_tgr
+    _set_attribute(truncatd_gutenberg_rich_elem, nrml_xml.TYPE,
+        truncated_gutenberg_richter.type_tgr)
 
     a_value_elem = etree.SubElement(
         truncatd_gutenberg_rich_elem, nrml_xml.A_VALUE_CUMULATIVE)
@@ -259,8 +275,8 @@ def _write_rupture_depth_distrib(container_elem,
 
     magnitude_elem = etree.SubElement(
         rupture_depth_distrib_elem, nrml_xml.MAGNITUDE)
-    magnitude_elem.attrib[nrml_xml.TYPE] = \
-        rupture_depth_dist.magnitude.type_mag
+    _set_attribute(magnitude_elem, nrml_xml.TYPE,
+        rupture_depth_dist.magnitude.type_mag)
     magnitude_elem.text = ' '.join(
         (str(value) for value in
             rupture_depth_dist.magnitude.values))
-- 
2.43.0


From 39c3063d60e59f9408a1f38e0ff76e91f100765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:35 +0000
Subject: [PATCH 31/39] fix: read texts and numbers interrupted by comments
 completely

---
 nrml/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrml/reader.py b/nrml/reader.py
index b72587f..412d28f 100644
--- a/nrml/reader.py
+++ b/nrml/reader.py
@@ -69,7 +69,8 @@ class NRMLReader(object):
         """
 
         with open(self.filename, 'rb') as nrml_file:
-            for source_model in etree.iterparse(nrml_file, schema=self.schema):
+            for source_model in etree.iterparse(nrml_file, schema=self.schema,
+                    remove_comments=True, remove_pis=True):
                 tag = source_model[XML_NODE].tag
                 if tag in self.tag_action:
                     yield self.tag_action[tag](source_model[XML_NODE])
-- 
2.43.0


From 8ecdc31d872c0a46633a63144db0f619323000ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:11 +0000
Subject: [PATCH 32/39] fix: bin decimal magnitudes exactly in the Weichert
 preparation

Floating point differences of the bin edges moved events into the bin below
and discarded complete bins starting at a completeness magnitude.
---
 mtoolkit/scientific/recurrence.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index bd0e20a..9d2e41b 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -281,7 +281,10 @@ def weichert_prep(year, fmag, ctime, cmag, d_m, d_t):
     # Use 2d histogram to get overall density.
     time_int = np.arange(np.min(year), np.max(year) + 1.5 * d_t, d_t)
     fmag = np.around(fmag, decimals=1)
-    mag_int = np.arange(np.min(fmag), np.max(fmag) + 1.5 * d_m, d_m)
+    # The rounding is required to correct floating point differences between
+    # the bin edges and the magnitudes.
+    mag_int = np.around(np.arange(np.min(fmag), np.max(fmag) + 1.5 * d_m,
+                                  d_m), decimals=5)
     fullcount1 = np.histogram2d(year, fmag,
                                 bins=[time_int, mag_int])[0]
     # Now remove events below the completeness intervals
@@ -292,7 +295,7 @@ def weichert_prep(year, fmag, ctime, cmag, d_m, d_t):
 
     while i < n_int:
         idx = np.nonzero(time_int < ctime[i])[0]
-        idy = np.nonzero(mag_int < cmag[i])[0]
+        idy = np.nonzero((cmag[i] - mag_int) >= 1.E-3)[0]
         if np.logical_or(np.shape(idx)[0] == 0, np.shape(idy)[0] == 0):
             i += 1
         else:
-- 
2.43.0


From 04fe687fddcb4f14c6e570710abd4a83daae77df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:39 +0000
Subject: [PATCH 33/39] fix: no Weichert estimate from events of the first or
 last bin only

The likelihood has no maximum then, but the iteration could stop at an
arbitrary b-value by rounding.
---
 mtoolkit/scientific/recurrence.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 9d2e41b..2241f80 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -350,6 +350,10 @@ def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5):
     if np.any(tper <= 0):
         # No observation period for some of the magnitudes
         return no_solution
+    if not (np.any(nobs[1:] > 0) and np.any(nobs[:-1] > 0)):
+        # All events in the first or in the last bin: the likelihood has no
+        # maximum
+        return no_solution
     d_m = fmag[1] - fmag[0]
     itbreak = 0
     iteration = 0
-- 
2.43.0


From e99f18c684f7c76b8686666f050c38a35268e084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:39 +0000
Subject: [PATCH 34/39] fix: limit the steps of the Weichert iteration

Far from the solution the Newton iteration diverged, so that no estimate
was given where one exists.
---
 mtoolkit/scientific/recurrence.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 2241f80..9d08808 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -355,6 +355,9 @@ def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5):
         # maximum
         return no_solution
     d_m = fmag[1] - fmag[0]
+    # Newton steps longer than the inverse of the range of magnitudes may
+    # diverge
+    max_step = 1. / (fmag[-1] - fmag[0])
     itbreak = 0
     iteration = 0
     while (itbreak != 1):
@@ -373,7 +376,7 @@ def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5):
         d2ldb2 = nkount * ((dldb ** 2.0) - (stm2x / sumtex))
         dldb = (dldb * nkount) - snm
         betl = np.copy(beta)
-        beta = beta - (dldb / d2ldb2)
+        beta = beta - np.clip(dldb / d2ldb2, -max_step, max_step)
         sigbeta = np.sqrt(-1. / d2ldb2)
         bval = beta / np.log(10.0)
         sigb = sigbeta / np.log(10.)
-- 
2.43.0


From a70fa4dd4d474d9b1ef65dc5e5c30c0d306e800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:50 +0000
Subject: [PATCH 35/39] fix: bin decimal magnitudes exactly in the recurrence
 table

Floating point differences of the bin edges moved events into the bin below.
---
 mtoolkit/scientific/recurrence.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 9d08808..6fb2c6a 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -115,7 +115,10 @@ def recurrence_table(mag, dmag, year):
     num_year = np.max(year) - np.min(year) + 1.
     upper_m = np.max(np.ceil(10.0 * mag) / 10.0)
     lower_m = np.min(np.floor(10.0 * mag) / 10.0)
-    mag_range = np.arange(lower_m, upper_m + (2 * dmag), dmag)
+    # The rounding is required to correct floating point differences between
+    # the bin edges and the magnitudes.
+    mag_range = np.around(np.arange(lower_m, upper_m + (2 * dmag), dmag),
+                          decimals=5)
     mval = mag_range[:-1] + (dmag / 2.0)
     # Find number of earthquakes inside range
     number_obs = np.histogram(mag, mag_range)[0]
-- 
2.43.0


From ded2ca0c6b4a9243c715ef5748de94831383562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:50 +0000
Subject: [PATCH 36/39] fix: consider every period of the completeness table
 once

Rows of the same year which aren't adjacent (as Stepp gives them without
increment lock) made a period count twice and others not at all.
---
 mtoolkit/scientific/recurrence.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 6fb2c6a..2b34a03 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -205,6 +205,10 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
     neq = np.zeros(0)
     while ival < np.shape(ctime)[0]:
         id0 = np.abs(ctime - ctime[ival]) < mag_eq_tolerance
+        if np.any(id0[:ival]):
+            # This period has been considered already
+            ival = ival + 1
+            continue
         m_c = np.min(cmag[id0])
         # Find events later than cut-off year, and with magnitude
         # greater than or equal to the corresponding completeness magnitude.
@@ -214,7 +218,7 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
                     mag >= (m_c - mag_eq_tolerance))
         if not np.any(id1):
             # No events to estimate the parameters of this period from
-            ival = ival + np.sum(id0)
+            ival = ival + 1
             continue
         nyr = float(np.max(year[id1]) - np.min(year[id1]) + 1)
 
@@ -235,7 +239,7 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
         gr_pars = np.vstack([gr_pars, np.hstack([bval, sigma_b, rate,
                                                  sigrate])])
         neq = np.hstack([neq, np.sum(id1)])  # Number of events
-        ival = ival + np.sum(id0)
+        ival = ival + 1
 
     if np.size(neq) == 0:
         return np.nan, np.nan, np.nan, np.nan
-- 
2.43.0


From d0b18dcdbe775660c69e967b98b72305cdded0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:22 +0000
Subject: [PATCH 37/39] fix: one bin per magnitude interval in the fault
 activity rates

The floating point range had an additional bin above the maximum magnitude
for many decimal magnitudes and widths (e.g. 3.0 to 4.0 by 0.1).
---
 mtoolkit/scientific/fault_calculator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/scientific/fault_calculator.py b/mtoolkit/scientific/fault_calculator.py
index cf0cb1e..25113f5 100644
--- a/mtoolkit/scientific/fault_calculator.py
+++ b/mtoolkit/scientific/fault_calculator.py
@@ -76,8 +76,9 @@ def get_mfd(slip, aseismic_coef, tectonic_region, sf_geo, b_value,
 
     dbar = moment_scaling[1] * np.log(10.0)
     bbar = b_value * np.log(10.0)
-    mag = np.arange(min_mag - (bin_width / 2.),
-            max_mag + (1.5 * bin_width), bin_width)
+    # Decimal magnitudes give a whole number of bins up to rounding
+    number_bins = int(np.ceil(np.round((max_mag - min_mag) / bin_width, 9)))
+    mag = min_mag + bin_width * (np.arange(number_bins + 2) - 0.5)
 
     seismic_slip = slip * (1.0 - aseismic_coef)
     cumulative_values = [_cumulative_value(seismic_slip, max_mag, m,
-- 
2.43.0


From 1184e7afdff38f29390d3b1e8496d214883483ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:30 +0000
Subject: [PATCH 38/39] fix: refuse empty sets of weights with a ValueError

The sum of no weights failed with a TypeError.
---
 mtoolkit/geo/tectonic_region.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mtoolkit/geo/tectonic_region.py b/mtoolkit/geo/tectonic_region.py
index bfd65c2..50c96a5 100644
--- a/mtoolkit/geo/tectonic_region.py
+++ b/mtoolkit/geo/tectonic_region.py
@@ -145,9 +145,9 @@ class TectonicRegion(object):
             is not one.
         """
 
-        sum_weights_msr = reduce(lambda x, y: x + y, msr)
-        sum_weights_smod = reduce(lambda x, y: x + y, smod)
-        sum_weights_dlr = reduce(lambda x, y: x + y, dlr)
+        sum_weights_msr = reduce(lambda x, y: x + y, msr, 0)
+        sum_weights_smod = reduce(lambda x, y: x + y, smod, 0)
+        sum_weights_dlr = reduce(lambda x, y: x + y, dlr, 0)
 
         if not abs(sum_weights_msr - 1.0) <= WEIGHT_TOLERANCE:
             raise ValueError('The sum of weights for magnitude scaling'
-- 
2.43.0


From 540929128e0a829d8ae6e6c3f649039ad6a09715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:10 +0000
Subject: [PATCH 39/39] fix: no NaN length of faults between antipodal points

---
 mtoolkit/geo/simple_fault.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mtoolkit/geo/simple_fault.py b/mtoolkit/geo/simple_fault.py
index 8890cfd..ad30527 100644
--- a/mtoolkit/geo/simple_fault.py
+++ b/mtoolkit/geo/simple_fault.py
@@ -97,6 +97,8 @@ class SimpleFaultGeo(object):
 
             a = sin(dlat / 2.0) ** 2 + (
                 (cos(lat1) * cos(lat2)) * (sin(dlon / 2.0) ** 2))
+            # Rounding may exceed one for antipodal points
+            a = min(a, 1.0)
 
             c = 2.0 * arctan2(sqrt(a), sqrt(1.0 - a))
 
-- 
2.43.0

