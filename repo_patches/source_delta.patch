From a4c09959d6e0415e886f8a43b550e3aadee3e2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 01/32] fix: detect descending and non-monotonic height
 profiles

all(dz) > 0 is true for every profile without repeated heights, so a profile
given top-down was never flipped and a non-monotonic one never rejected.
---
 pyrtlib/tb_spectrum.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 5ec702c..9db8083 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -66,13 +66,17 @@ class TbCloudRTE(object):
         self.amu = amu
 
         dz = np.ediff1d(self.z)
-        if all(dz) > 0:
+        self._flipped = False
+        if np.all(dz > 0):
             pass
-        elif all(dz) < 0:
+        elif np.all(dz < 0):
+            self._flipped = True
             self.z = z[::-1]
             self.p = p[::-1]
             self.tk = t[::-1]
             self.rh = rh[::-1]
+            if isinstance(o3n, np.ndarray):
+                self.o3n = o3n[::-1]
             print("Profile flipped up/douwn")
         else:
             raise SystemExit("ERROR: input profile seems incorrect. "
@@ -215,8 +219,8 @@ class TbCloudRTE(object):
                     if self.z[i] == self.cldh[1, j]:
                         self.endlev[j] = i
 
-            self.denice = denice
-            self.denliq = denliq
+            self.denice = denice[::-1] if self._flipped else denice
+            self.denliq = denliq[::-1] if self._flipped else denliq
         else:
             warnings.warn("It seems that TbCloudRTE.cloudy attribute is not set to True. "
                           "Sets it to True for running model in cloudy condition.")
-- 
2.43.0


From 785befa99071f5a2e1b16d0277f1107d93026077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 02/32] fix: do not shift the caller's height array in place

---
 pyrtlib/tb_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 9db8083..96f3f65 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -103,7 +103,7 @@ class TbCloudRTE(object):
 
         # convert height profile to (km above antenna height)
         self.z0 = self.z[0]
-        self.z -= self.z0
+        self.z = self.z - self.z0
 
         # Allocation
         self.sptaudry = np.zeros((self.nf, self.nang))
-- 
2.43.0


From af0260f12fae1e8cd1c6c0573bc3aeb3b6f4d729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 03/32] fix: absmdl argument of TbCloudRTE called a method that
 does not exist

---
 pyrtlib/tb_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 96f3f65..601b319 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -128,7 +128,7 @@ class TbCloudRTE(object):
         self.sice = np.zeros((1, self.nang))
 
         if absmdl:
-            self.init_absmdll(absmdl)
+            self.init_absmdl(absmdl)
 
     @property
     def satellite(self) -> bool:
-- 
2.43.0


From 71a58a390eb9c8e8b89e9d4150fae22d5d50a106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 04/32] fix: saturation vapor pressure over ice indexed the
 temperature by a call

---
 pyrtlib/rt_equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/rt_equation.py b/pyrtlib/rt_equation.py
index fd55cc1..11d2013 100644
--- a/pyrtlib/rt_equation.py
+++ b/pyrtlib/rt_equation.py
@@ -66,7 +66,7 @@ class RTEquation:
         if ice:
             # over ice if tk < 263.16
             indx = np.nonzero(t < 263.16)
-            y = 273.16 / t(indx)
+            y = 273.16 / t[indx]
             es[indx] = np.dot(-9.09718, (y - 1.0)) - np.dot(
                 3.56654, np.log10(y)) + np.dot(0.876793, (1.0 - (1.0 / y))) + np.log10(6.1071)
 
-- 
2.43.0


From 8bcba0733dea1298cdb3adf5ef9c636d02dc961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 05/32] fix: results of a previous execute leaked into, or were
 overwritten by, the next one

---
 pyrtlib/tb_spectrum.py | 47 +++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 601b319..7e83ad3 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -105,27 +105,7 @@ class TbCloudRTE(object):
         self.z0 = self.z[0]
         self.z = self.z - self.z0
 
-        # Allocation
-        self.sptaudry = np.zeros((self.nf, self.nang))
-        self.sptauwet = np.zeros((self.nf, self.nang))
-        self.sptauliq = np.zeros((self.nf, self.nang))
-        self.sptauice = np.zeros((self.nf, self.nang))
-        self.awet = np.zeros((self.nf, self.nang, self.nl))
-        self.adry = np.zeros((self.nf, self.nang, self.nl))
-        self.ptaudry = np.zeros((self.nf, self.nang, self.nl))
-        self.ptaulay = np.zeros((self.nf, self.nang, self.nl))
-        self.ptauwet = np.zeros((self.nf, self.nang, self.nl))
-        self.ptauliq = np.zeros((self.nf, self.nang, self.nl))
-        self.ptauice = np.zeros((self.nf, self.nang, self.nl))
-        self.tbtotal = np.zeros((self.nf, self.nang))
-        self.tbatm = np.zeros((self.nf, self.nang))
-        self.tmr = np.zeros((self.nf, self.nang))
-        self.tmrcld = np.zeros((self.nf, self.nang))
-        self.srho = np.zeros((1, self.nang))
-        self.swet = np.zeros((1, self.nang))
-        self.sdry = np.zeros((1, self.nang))
-        self.sliq = np.zeros((1, self.nang))
-        self.sice = np.zeros((1, self.nang))
+        self._init_results()
 
         if absmdl:
             self.init_absmdl(absmdl)
@@ -193,6 +173,29 @@ class TbCloudRTE(object):
         N2AbsModel.model = absmdl
         LiqAbsModel.model = absmdl
 
+    def _init_results(self):
+        # Allocation
+        self.sptaudry = np.zeros((self.nf, self.nang))
+        self.sptauwet = np.zeros((self.nf, self.nang))
+        self.sptauliq = np.zeros((self.nf, self.nang))
+        self.sptauice = np.zeros((self.nf, self.nang))
+        self.awet = np.zeros((self.nf, self.nang, self.nl))
+        self.adry = np.zeros((self.nf, self.nang, self.nl))
+        self.ptaudry = np.zeros((self.nf, self.nang, self.nl))
+        self.ptaulay = np.zeros((self.nf, self.nang, self.nl))
+        self.ptauwet = np.zeros((self.nf, self.nang, self.nl))
+        self.ptauliq = np.zeros((self.nf, self.nang, self.nl))
+        self.ptauice = np.zeros((self.nf, self.nang, self.nl))
+        self.tbtotal = np.zeros((self.nf, self.nang))
+        self.tbatm = np.zeros((self.nf, self.nang))
+        self.tmr = np.zeros((self.nf, self.nang))
+        self.tmrcld = np.zeros((self.nf, self.nang))
+        self.srho = np.zeros((1, self.nang))
+        self.swet = np.zeros((1, self.nang))
+        self.sdry = np.zeros((1, self.nang))
+        self.sliq = np.zeros((1, self.nang))
+        self.sice = np.zeros((1, self.nang))
+
     def _init_linelist(self):
         H2OAbsModel.set_ll()
         O2AbsModel.set_ll()
@@ -310,6 +313,8 @@ class TbCloudRTE(object):
         """
 
         self._init_linelist()
+        # fresh arrays at each run: the ones of a previous run belong to its caller
+        self._init_results()
 
         if self.cloudy and LiqAbsModel.model in ['R98', 'R03']:
             warnings.warn(
-- 
2.43.0


From 4d8ec901bf96169ab737266122f22ca1a63e8499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 06/32] fix: a perturbed ozone line list stayed in force for
 later unperturbed runs

---
 pyrtlib/tb_spectrum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 7e83ad3..dc9c0e3 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -12,7 +12,7 @@ from typing import Dict, Tuple, Union, Optional
 import numpy as np
 import pandas as pd
 
-from .absorption_model import O2AbsModel, H2OAbsModel, N2AbsModel, LiqAbsModel
+from .absorption_model import O2AbsModel, H2OAbsModel, N2AbsModel, LiqAbsModel, O3AbsModel
 from .rt_equation import RTEquation
 
 
@@ -199,6 +199,8 @@ class TbCloudRTE(object):
     def _init_linelist(self):
         H2OAbsModel.set_ll()
         O2AbsModel.set_ll()
+        if isinstance(self.o3n, np.ndarray) and O3AbsModel.model in O3AbsModel.implemented_models()['Ozone']:
+            O3AbsModel.set_ll()
 
     def init_cloudy(self, cldh: np.ndarray, denice: np.ndarray, denliq: np.ndarray) -> None:
         """Initialize cloudy conditions parameters.
-- 
2.43.0


From 4de3ca27ecde2d6297307f546ee4841df593319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 07/32] fix: atmospheric brightness temperature was always zero
 for upwelling radiation

---
 pyrtlib/tb_spectrum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index dc9c0e3..751ebe5 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -389,7 +389,8 @@ class TbCloudRTE(object):
                                                                                boftatm)
                 # assign output values
                 self.tbtotal[j, k] = RTEquation.bright(hvk, boftotl)
-                self.tbatm[j, k] = RTEquation.bright(hvk, boftatm[self.nl - 1])
+                self.tbatm[j, k] = RTEquation.bright(
+                    hvk, boftatm[0 if self._satellite else self.nl - 1])
                 self.tmr[j, k] = RTEquation.bright(hvk, boftmr)
 
         df = pd.DataFrame()
-- 
2.43.0


From fdbd5044054804e5ef900b08ca70784f0bd3942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 08/32] fix: running with perturbed oxygen parameters modified
 the caller's parameters

---
 pyrtlib/absorption_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index dab65a8..099f1aa 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -787,9 +787,9 @@ class O2AbsModel(AbsModel):
                 self.o2ll.dnu0 = amu['dnu0'].value
                 self.o2ll.dnu1 = amu['dnu1'].value
             else:
-                self.o2ll.y300 = amu['Y300'].value
+                self.o2ll.y300 = np.array(amu['Y300'].value)
                 self.o2ll.y300[34:49] = amu['Y300_NL'].value[34:49]
-                self.o2ll.v = amu['O2_V'].value
+                self.o2ll.v = np.array(amu['O2_V'].value)
                 self.o2ll.v[34:49] = amu['O2_V_NL'].value[34:49]
 
         # *** add the following lines *************************
-- 
2.43.0


From 8939fa8257ecc904f6ee843f51974aa4aa4ea6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 09/32] fix: integrated cloud density left out the topmost
 layer of each cloud

---
 pyrtlib/rt_equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/rt_equation.py b/pyrtlib/rt_equation.py
index 11d2013..e51e4eb 100644
--- a/pyrtlib/rt_equation.py
+++ b/pyrtlib/rt_equation.py
@@ -356,7 +356,7 @@ class RTEquation:
         ncld = len(lbase)
         scld = 0.0
         for i in range(0, ncld):
-            for j in range(int(lbase[i]) + 1, int(ltop[i])):
+            for j in range(int(lbase[i]) + 1, int(ltop[i]) + 1):
                 scld += np.dot(ds[j],
                                (np.dot(0.5, (dencld[j] + dencld[j - 1]))))
 
-- 
2.43.0


From b461fa528b9b6b8471fdb966c53144a2a67de5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 10/32] fix: upper sideband of the MWS 57.29 GHz +- 0.217 GHz
 channel

---
 pyrtlib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/utils.py b/pyrtlib/utils.py
index 2e6682a..aa25498 100644
--- a/pyrtlib/utils.py
+++ b/pyrtlib/utils.py
@@ -995,7 +995,7 @@ def get_frequencies_sat(instrument: str) -> np.ndarray:
         freq = np.array([23.8, 31.4, 50.3, 52.8,
                         53.246-0.08, 53.246+0.08, 53.596-0.115, 53.596+0.115, 53.948-0.081, 53.948+0.081,
                         54.4, 54.94, 55.5, cf57,
-                        cf57-0.217, cf57-0.217,
+                        cf57-0.217, cf57+0.217,
                         cf57-0.3222-0.048, cf57-0.3222+0.048, cf57+0.3222-0.048, cf57+0.3222+0.048,
                         cf57-0.3222-0.022, cf57-0.3222+0.022, cf57+0.3222-0.022, cf57+0.3222+0.022,
                         cf57-0.3222-0.010, cf57-0.3222+0.010, cf57+0.3222-0.010, cf57+0.3222+0.010,
-- 
2.43.0


From 1a45e53cbd9a36b4bb93e8f5e5ae6aaa3abf2d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 11/32] fix: IGRA2 derived soundings were requested, and
 parsed, under the wrong file name

---
 pyrtlib/apiwebservices/igra2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 13be2f6..5e8d5d8 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -107,7 +107,7 @@ class IGRAUpperAir(HTTPEndPoint):
 
         if derived:
             igra2.folder = 'derived-por/'
-            igra2.suffix = igra2.suffix + '-drvd.txt'
+            igra2.suffix = '-drvd.txt'
 
         if isinstance(time, datetime):
             igra2.begin_date = time
-- 
2.43.0


From 2b23792266e256d595cfafee49588e6d08768495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 12/32] fix: IGRA2 release time HHMM was read as if it had five
 digits

---
 pyrtlib/apiwebservices/igra2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 5e8d5d8..1c95ec4 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -253,7 +253,7 @@ class IGRAUpperAir(HTTPEndPoint):
         def _ctime(strformat: str = 'MMMSS'):
             """Return a function converting a string from MMMSS or HHMM to seconds."""
             def _ctime_strformat(val):
-                time = val.strip().zfill(5)
+                time = val.strip().zfill(len(strformat))
 
                 if int(time) < 0:
                     return np.nan
-- 
2.43.0


From eabad07ad340c15f6b65810758cdc9110d561182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 13/32] fix: IGRA2 latitude and longitude within 0.1 degree of
 zero

---
 pyrtlib/apiwebservices/igra2.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 1c95ec4..951b6ea 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -275,10 +275,7 @@ class IGRAUpperAir(HTTPEndPoint):
             return _ctime_strformat
 
         def _clatlon(x):
-            n = len(x)
-            deg = x[0:n - 4]
-            dec = x[n - 4:]
-            return float(deg + '.' + dec)
+            return float(x) / 1e4
 
         if self.suffix == '-drvd.txt':
             names_body = ['pressure', 'reported_height', 'calculated_height',
-- 
2.43.0


From 51070ddfef8cbaed1392ec40fa650afb66ff11e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 14/32] fix: IGRA2 date selection mixed up soundings when the
 matching ones are not contiguous

---
 pyrtlib/apiwebservices/igra2.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 951b6ea..8729409 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -201,8 +201,6 @@ class IGRAUpperAir(HTTPEndPoint):
                     headers.append(idx)
                     num_lev.append(int(line[32:36]))
                     dates.append(date)
-                if date > self.end_date:
-                    break
 
         if len(dates) == 0:
             # Break if no matched dates.
@@ -210,17 +208,14 @@ class IGRAUpperAir(HTTPEndPoint):
             raise ValueError('No dates match selection.')
 
         # Compress body of data into a string
-        begin_idx = min(headers)
-        end_idx = max(headers) + num_lev[-1]
-
-        # Make a boolean vector that selects only list indices within the time range
+        # Make a boolean vector that selects only the levels of the soundings within
+        # the time range, which need not be next to each other
         selector = np.zeros(len(lines), dtype=bool)
-        selector[begin_idx:end_idx + 1] = True
-        selector[headers] = False
+        for idx, n in zip(headers, num_lev):
+            selector[idx + 1:idx + 1 + n] = True
         body = ''.join(itertools.compress(lines, selector))
 
-        selector[begin_idx:end_idx + 1] = ~selector[begin_idx:end_idx + 1]
-        header = ''.join(itertools.compress(lines, selector))
+        header = ''.join(lines[idx] for idx in headers)
 
         # expand date vector to match length of the body dataframe.
         dates_long = np.repeat(dates, num_lev)
-- 
2.43.0


From 6a201e5f1d44e3919e259a59bcb09d0dd7f98a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 15/32] fix: two column ranges of the IGRA2 derived-parameter
 format

---
 pyrtlib/apiwebservices/igra2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 8729409..2f94a77 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -285,7 +285,7 @@ class IGRAUpperAir(HTTPEndPoint):
             colspecs_body = [(0, 7), (8, 15), (16, 23), (24, 31), (32, 39),
                              (40, 47), (48, 55), (56, 63), (64, 71), (72, 79),
                              (80, 87), (88, 95), (96, 103), (104, 111), (112, 119),
-                             (120, 127), (128, 135), (137, 143), (144, 151)]
+                             (120, 127), (128, 135), (136, 143), (144, 151)]
 
             conv_body = {'pressure': _cdec(power=2),
                          'reported_height': int,
@@ -317,7 +317,7 @@ class IGRAUpperAir(HTTPEndPoint):
                             'cape', 'convective_inhibition']
 
             colspecs_header = [(1, 12), (13, 17), (18, 20), (21, 23), (24, 26),
-                               (27, 31), (31, 36), (37, 43), (43, 48), (49, 55),
+                               (27, 31), (31, 36), (37, 43), (43, 49), (49, 55),
                                (55, 61), (61, 67), (67, 73), (73, 79), (79, 85),
                                (85, 91), (91, 97), (97,
                                                     103), (103, 109), (109, 115),
-- 
2.43.0


From a70009d922cf7893a3864ee7f79b783a6ee466e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 16/32] fix: values missing in a Wyoming sounding shifted the
 following columns

---
 pyrtlib/apiwebservices/wyomingupperair.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyrtlib/apiwebservices/wyomingupperair.py b/pyrtlib/apiwebservices/wyomingupperair.py
index 7dbc72c..19000a2 100644
--- a/pyrtlib/apiwebservices/wyomingupperair.py
+++ b/pyrtlib/apiwebservices/wyomingupperair.py
@@ -141,10 +141,9 @@ class WyomingUpperAir(HTTPEndPoint):
         tabular_data = StringIO(soup.find_all('pre')[0].contents[0])
         title = soup.find_all('h2')[0].contents[0]
         col_names = ['pressure', 'height', 'temperature', 'dewpoint', 'rh', 'mixr']
-        # df = pd.read_fwf(tabular_data, skiprows=5, usecols=[0, 1, 2, 3, 4, 5], names=col_names, infer_rows=300)
-        # change to read_csv function as some data column (e.g. height) couls be corrupted
-        # To be further investigated in order to catch the issue
-        df = pd.read_csv(tabular_data, header=None, skiprows=5, delim_whitespace=True, usecols=[0, 1, 2, 3, 4, 5], names=col_names)
+        # every column is 7 characters wide, and blank where the value is missing
+        df = pd.read_fwf(tabular_data, header=None, skiprows=5, names=col_names,
+                         colspecs=[(7 * i, 7 * (i + 1)) for i in range(len(col_names))])
         # Drop any rows with all NaN values for T, Td, winds
         df = df.dropna(subset=('temperature', 'dewpoint'), how='any').reset_index(drop=True)
 
-- 
2.43.0


From 3b3414c09e6c657191a3c1b02208d697567b36e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 17/32] fix: profile extrapolation failed above 50 km and
 depended on earlier calls

---
 pyrtlib/climatology/extrapolation.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/pyrtlib/climatology/extrapolation.py b/pyrtlib/climatology/extrapolation.py
index e185918..bb25680 100644
--- a/pyrtlib/climatology/extrapolation.py
+++ b/pyrtlib/climatology/extrapolation.py
@@ -313,32 +313,31 @@ class ProfileExtrapolation:
 
         if np.max(z) < 50:
             h_km = np.append(z, np.arange(max(z)+3.2, 50, 3.2))
-            idx = np.where(self._height > np.max(h_km))
-            self._height = np.append(h_km, self._height[idx])
         else:
-            self._height = np.append(z, self._height[idx])
+            h_km = z
+        height = np.append(h_km, self._height[self._height > np.max(h_km)])
 
         season = self._get_season(lat, month)
-        idx = np.where(self._height > np.max(z))
+        idx = np.where(height > np.max(z))
 
         p, t, rh = q
 
         if season != 'standard':
-            tt = self.temperature(lat, self._height, season)
-            pp = self.pressure(lat, self._height, season)
-            wvd = self.water_vapour_density(lat, self._height, season)
+            tt = self.temperature(lat, height, season)
+            pp = self.pressure(lat, height, season)
+            wvd = self.water_vapour_density(lat, height, season)
         else:
-            tt = self.instance.standard_temperature(self._height)
-            pp = self.instance.standard_pressure(self._height)
+            tt = self.instance.standard_temperature(height)
+            pp = self.instance.standard_pressure(height)
             wvd = self.instance.standard_water_vapour_density(
-                self._height)
+                height)
 
         pres = np.append(p, pp[idx])
         temp = np.append(t, tt[idx])
         _rh = rho2rh(wvd, temp, pres)[0]
         rh = np.append(rh, _rh[idx])
 
-        return self._height, pres, temp, rh
+        return height, pres, temp, rh
 
 
 class _ITU835_6():
-- 
2.43.0


From 650481dfcaedfe552371a5b37bc0666b4e86b2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 18/32] fix: extrapolated relative humidity was in percent,
 appended to a fraction

---
 pyrtlib/climatology/extrapolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrtlib/climatology/extrapolation.py b/pyrtlib/climatology/extrapolation.py
index bb25680..bb0a51a 100644
--- a/pyrtlib/climatology/extrapolation.py
+++ b/pyrtlib/climatology/extrapolation.py
@@ -335,7 +335,8 @@ class ProfileExtrapolation:
         pres = np.append(p, pp[idx])
         temp = np.append(t, tt[idx])
         _rh = rho2rh(wvd, temp, pres)[0]
-        rh = np.append(rh, _rh[idx])
+        # rho2rh gives percent
+        rh = np.append(rh, _rh[idx] / 100)
 
         return height, pres, temp, rh
 
-- 
2.43.0


From 248702ccab29fa4b39648ea3e8e08a22cc258d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 19/32] fix: band-averaged weighting functions were labelled
 with the wrong frequencies

plot_wf also replaced the frequencies of the object by the averaged ones.
---
 pyrtlib/weighting_functions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index 9100e7a..c524b4a 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -230,8 +230,11 @@ class WeightingFunctions(object):
 
         if self.bandpass is not None:
             wgt = self._mean_channel(wgt, self.bandpass)
-            self.frequencies = np.array(
-                [np.mean(self.frequencies[i:i+j]) for i, j in enumerate(self.bandpass)])
+            edges = np.append(0, np.cumsum(self.bandpass))
+            frequencies = np.array(
+                [np.mean(self.frequencies[i:j]) for i, j in zip(edges[:-1], edges[1:])])
+        else:
+            frequencies = self.frequencies
 
         # if yaxis == 'p':
         #     y = self.pinterp[:-1]
@@ -247,7 +250,7 @@ class WeightingFunctions(object):
 
         plt.figure(figsize=kwargs.get('figsize', (5, 10)),
                    dpi=kwargs.get('dpi', 150))
-        for i, frequenciy in enumerate(self.frequencies):
+        for i, frequenciy in enumerate(frequencies):
             if self.satellite:
                 line_s = 'dashed' if y[np.argmax(wgt[i, 1:])] == 0. else None
                 plt.plot(wgt[i, 1:]/normalize[i], y, linestyle=line_s,
-- 
2.43.0


From a985bc2d5ce692f197fdf9702817454f23eb9af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 20/32] fix: plot_wf failed with more channels than levels

---
 pyrtlib/weighting_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index c524b4a..76e95d3 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -246,7 +246,7 @@ class WeightingFunctions(object):
         units = 'km'
 
         normalize = np.max(
-            wgt, axis=1) if normalized else np.ones(wgt.shape[1])
+            wgt, axis=1) if normalized else np.ones(wgt.shape[0])
 
         plt.figure(figsize=kwargs.get('figsize', (5, 10)),
                    dpi=kwargs.get('dpi', 150))
-- 
2.43.0


From 847aff2436de28f446f7aa72e5c345ee5d6f656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 21/32] fix: minor and trace gas profiles changed the caller's
 ids and accepted ids of other gases

---
 pyrtlib/climatology/atmospheric_profiles.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/climatology/atmospheric_profiles.py b/pyrtlib/climatology/atmospheric_profiles.py
index 9163bc5..c0c35de 100644
--- a/pyrtlib/climatology/atmospheric_profiles.py
+++ b/pyrtlib/climatology/atmospheric_profiles.py
@@ -263,7 +263,9 @@ class AtmosphericProfiles:
 
         path = os.path.dirname(os.path.abspath(__file__))
         mtx = np.loadtxt(os.path.join(path, "gas_minor.dat"))
-        gas_minor -= 7
+        gas_minor = np.asarray(gas_minor) - 7
+        if np.any(gas_minor < 0) or np.any(gas_minor >= mtx.shape[1]):
+            raise ValueError("Not a minor gas ID")
         # CONSTITUENT PROFILES FOR THE MINOR ABSORBING ATMOSPHERIC GASES
         #
         # MINGAS
@@ -321,7 +323,9 @@ class AtmosphericProfiles:
 
         path = os.path.dirname(os.path.abspath(__file__))
         mtx = np.loadtxt(os.path.join(path, "gas_trace.dat"))
-        gas_trace -= 28
+        gas_trace = np.asarray(gas_trace) - 28
+        if np.any(gas_trace < 0) or np.any(gas_trace >= mtx.shape[1]):
+            raise ValueError("Not a trace gas ID")
         #  COF2 & SF6
         #   0 - 14   ATMOS SS Rinsland 1990: ConsAt 14 value
         #  14 -120   ATMOS SS Rinsland 1990: LinExLogMix until 1.0E-15
-- 
2.43.0


From 4912b921699df60025f297cdd83f4ac70ab0c5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 22/32] fix: spectroscopic parameters of models whose name does
 not sort by date

'R98' and 'R19SD' compare greater than 'R17' and 'R19', 'R16' less: the
parameters of these oxygen and water vapour models, of R23 and R24 oxygen and
of MWL24 could not be built, or picked up arrays left by another model.
---
 pyrtlib/absorption_model.py               | 13 ++++++++-----
 pyrtlib/uncertainty/absmod_uncertainty.py | 13 +++++++++----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index 099f1aa..3de9dd5 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -454,7 +454,7 @@ class H2OAbsModel(AbsModel):
 
         """
         if amu:
-            if H2OAbsModel.model > 'R17':
+            if H2OAbsModel.model not in ['R98', 'R03', 'R16', 'R17']:
                 self.h2oll.cf = amu['con_Cf'].value
                 self.h2oll.cs = amu['con_Cs'].value
             else:
@@ -468,12 +468,12 @@ class H2OAbsModel(AbsModel):
             self.h2oll.w0s = amu['gamma_w'].value / 1000.0
             self.h2oll.x = amu['n_a'].value
             self.h2oll.xs = amu['n_w'].value
-            if H2OAbsModel.model > 'R17':
+            if H2OAbsModel.model not in ['R98', 'R03', 'R16', 'R17']:
                 self.h2oll.sh = amu['delta_a'].value / 1000.0
                 self.h2oll.shs = amu['delta_w'].value / 1000.0
                 self.h2oll.xh = amu['n_da'].value
                 self.h2oll.xhs = amu['n_dw'].value
-            else:
+            elif H2OAbsModel.model != 'R98':
                 self.h2oll.sr = amu['SR'].value
             self.h2oll.fl = amu['FL'].value
 
@@ -781,8 +781,11 @@ class O2AbsModel(AbsModel):
             self.o2ll.x = amu['X05'].value
             self.o2ll.snr = amu['Snr'].value
             self.o2ll.ns = amu['O2_nS'].value
-            if O2AbsModel.model > 'R19':
-                self.o2ll.y0 = amu['y0'].value
+            if O2AbsModel.model in ['R16', 'R20', 'R20SD', 'R22', 'R23', 'R24']:
+                if O2AbsModel.model in ['R23', 'R24']:
+                    self.o2ll.y300 = amu['Y300'].value
+                else:
+                    self.o2ll.y0 = amu['y0'].value
                 self.o2ll.y1 = amu['y1'].value
                 self.o2ll.dnu0 = amu['dnu0'].value
                 self.o2ll.dnu1 = amu['dnu1'].value
diff --git a/pyrtlib/uncertainty/absmod_uncertainty.py b/pyrtlib/uncertainty/absmod_uncertainty.py
index 362b28c..03a97d6 100644
--- a/pyrtlib/uncertainty/absmod_uncertainty.py
+++ b/pyrtlib/uncertainty/absmod_uncertainty.py
@@ -124,7 +124,7 @@ class SpectroscopicParameter:
 
             "wv_nS": SpectroscopicParameter(value=.0, uncer=.0, name='Intensity temperature-dependence exponent'),
         }
-        if H2OAbsModel.model > 'R17':
+        if H2OAbsModel.model not in ['R98', 'R03', 'R16', 'R17']:
             h2o_sp_ = {
                 "con_Cf_factr": SpectroscopicParameter(value=1, uncer=.0, units='unitless', refer='Turner et al., TGRSS, 2009', name=''),
                 "con_Cs_factr": SpectroscopicParameter(value=1, uncer=.0, units='unitless', refer='Turner et al., TGRSS, 2009', name=''),
@@ -135,9 +135,11 @@ class SpectroscopicParameter:
             }
         else:
             h2o_sp_ = {
-                "SR": SpectroscopicParameter(value=ll.sr, uncer=np.zeros(len(ll.fl)), units='unitless', name='Shift to width ratio'),
                 "con_Cf_factr": SpectroscopicParameter(value=1.11, uncer=np.sqrt(0.098 ** 2 + 0.03 ** 2), units='unitless', refer='Turner et al., TGRSS, 2009', name=''),
                 "con_Cs_factr": SpectroscopicParameter(value=0.79, uncer=np.sqrt(0.17 ** 2 + 0.06 ** 2), units='unitless', refer='Turner et al., TGRSS, 2009', name=''), }
+            if H2OAbsModel.model != 'R98':
+                h2o_sp_["SR"] = SpectroscopicParameter(
+                    value=ll.sr, uncer=np.zeros(len(ll.fl)), units='unitless', name='Shift to width ratio')
 
         h2o_sp = {**h2o_sp, **h2o_sp_}
 
@@ -172,13 +174,16 @@ class SpectroscopicParameter:
             "O2_nS": SpectroscopicParameter(value=2.0, uncer=.0, units='unitless',  name='Intensity temperature-dependence exponent'),
             "w2a": SpectroscopicParameter(value=1.2, uncer=.0, units='unitless', name='Water-to-air broadening ratio'),
         }
-        if O2AbsModel.model > 'R19':
+        if O2AbsModel.model in ['R16', 'R20', 'R20SD', 'R22', 'R23', 'R24']:
             o2_sp_ = {
-                "y0": SpectroscopicParameter(value=ll.y0, uncer=.0, name=''),
                 "y1": SpectroscopicParameter(value=ll.y1, uncer=.0, name=''),
                 "dnu0": SpectroscopicParameter(value=ll.dnu0, uncer=.0, name=''),
                 "dnu1": SpectroscopicParameter(value=ll.dnu1, uncer=.0, name=''),
             }
+            if O2AbsModel.model in ['R23', 'R24']:
+                o2_sp_["Y300"] = SpectroscopicParameter(value=ll.y300, uncer=.0, name='')
+            else:
+                o2_sp_["y0"] = SpectroscopicParameter(value=ll.y0, uncer=.0, name='')
         else:
             o2_sp_ = {
                 "O2_V": SpectroscopicParameter(value=ll.v, uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='O2 line mixing temperature dependence'),
-- 
2.43.0


From bc7801f8c88c8da9483832282d1c7ca97b713ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:40 +0000
Subject: [PATCH 23/32] fix: MWS channel at 57.290344 +- 0.3222 GHz had
 sidebands +- 45 MHz instead of +- 4.5 MHz

---
 pyrtlib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/utils.py b/pyrtlib/utils.py
index aa25498..d92ff2c 100644
--- a/pyrtlib/utils.py
+++ b/pyrtlib/utils.py
@@ -999,7 +999,7 @@ def get_frequencies_sat(instrument: str) -> np.ndarray:
                         cf57-0.3222-0.048, cf57-0.3222+0.048, cf57+0.3222-0.048, cf57+0.3222+0.048,
                         cf57-0.3222-0.022, cf57-0.3222+0.022, cf57+0.3222-0.022, cf57+0.3222+0.022,
                         cf57-0.3222-0.010, cf57-0.3222+0.010, cf57+0.3222-0.010, cf57+0.3222+0.010,
-                        cf57-0.3222-0.045, cf57-0.3222+0.045, cf57+0.3222-0.045, cf57+0.3222+0.045,
+                        cf57-0.3222-0.0045, cf57-0.3222+0.0045, cf57+0.3222-0.0045, cf57+0.3222+0.0045,
                         89,
                         cf165-0.725, cf165+0.725,
                         cf-7.0, cf-4.5, cf-3.0, cf-1.8, cf-1.0, cf+1.0, cf+1.8, cf+3.0, cf+4.5, cf+7.0,
-- 
2.43.0


From 533fcf416e5d0547f279a649b83ac8bde8fbf131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:40 +0000
Subject: [PATCH 24/32] fix: temperature exponent of a user-given self
 continuum in the R23SD and R24 models

---
 pyrtlib/absorption_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index 3de9dd5..881ecc5 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -534,7 +534,7 @@ class H2OAbsModel(AbsModel):
                 if self.h2oll.cs > 0:
 
                     # npp_cs = np.zeros(1)
-                    con = self.h2oll.cs * ti * self.h2oll.xcs
+                    con = self.h2oll.cs * ti ** self.h2oll.xcs
                     # for i in len(frq):
                     npp_cs = con
                 else:
-- 
2.43.0


From ed69d99fc091d531045e26c31e971edde7f1e79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:40 +0000
Subject: [PATCH 25/32] fix: an ozone model without line list ran with the line
 list of an earlier model

---
 pyrtlib/tb_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 751ebe5..b06977b 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -199,7 +199,7 @@ class TbCloudRTE(object):
     def _init_linelist(self):
         H2OAbsModel.set_ll()
         O2AbsModel.set_ll()
-        if isinstance(self.o3n, np.ndarray) and O3AbsModel.model in O3AbsModel.implemented_models()['Ozone']:
+        if isinstance(self.o3n, np.ndarray) and O3AbsModel.model in ['R18', 'R21', 'R21SD', 'R22', 'R22SD', 'R23', 'R23SD', 'R24']:
             O3AbsModel.set_ll()
 
     def init_cloudy(self, cldh: np.ndarray, denice: np.ndarray, denliq: np.ndarray) -> None:
-- 
2.43.0


From 627e3c33e6fc67ebb4862e9fb1bc57225861a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 26/32] fix: standard deviation of A^a was negative for
 negative A

---
 pyrtlib/uncertainty/absmod_uncertainty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/uncertainty/absmod_uncertainty.py b/pyrtlib/uncertainty/absmod_uncertainty.py
index 03a97d6..9c6b770 100644
--- a/pyrtlib/uncertainty/absmod_uncertainty.py
+++ b/pyrtlib/uncertainty/absmod_uncertainty.py
@@ -274,7 +274,7 @@ class AbsModUncertainty:
         +--------------------------------------------+------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------+
         | :math:`\displaystyle f={\frac {A}{B}}`     | :math:`\displaystyle \sigma _{f}\approx \left|f\right|{\sqrt {\left({\frac {\sigma _{A}}{A}}\right)^{2}+\left({\frac {\sigma _{B}}{B}}\right)^{2}-2{\frac {\sigma _{AB}}{AB}}}}`   |
         +--------------------------------------------+------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------+
-        | :math:`\displaystyle f=A^{a}`              | :math:`\displaystyle \sigma _{f}=|a|A^{a-1}\sigma _{A}`                                                                                                                            |
+        | :math:`\displaystyle f=A^{a}`              | :math:`\displaystyle \sigma _{f}=|aA^{a-1}|\sigma _{A}`                                                                                                                            |
         +--------------------------------------------+------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------+
 
         Args:
@@ -316,7 +316,7 @@ class AbsModUncertainty:
                                          (sB / B) ** 2 - 2 * sAB / (A * B))
         elif fun == 'A^a':
             F = A ** a
-            sF = np.abs(a) * A ** (a - 1) * sA
+            sF = np.abs(a * A ** (a - 1)) * sA
         else:
             raise ValueError("[utils] fun argument is mandatory")
 
-- 
2.43.0


From 0dd21b9593be0dcc0d0cb2c741de05a0543f2c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 27/32] fix: an IGRA2 archive ending after the header of a
 sounding gave an empty sounding

---
 pyrtlib/apiwebservices/igra2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 2f94a77..66bf7b7 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -213,6 +213,8 @@ class IGRAUpperAir(HTTPEndPoint):
         selector = np.zeros(len(lines), dtype=bool)
         for idx, n in zip(headers, num_lev):
             selector[idx + 1:idx + 1 + n] = True
+        if selector.sum() != sum(num_lev):
+            raise ValueError('The archive ends within a sounding.')
         body = ''.join(itertools.compress(lines, selector))
 
         header = ''.join(lines[idx] for idx in headers)
-- 
2.43.0


From 25c1dbbbfd301e4c373f1dcf1664c7e6eaec76e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:42 +0000
Subject: [PATCH 28/32] fix: weighting function plots failed with height limits
 that are not levels of the vertical grid

---
 pyrtlib/weighting_functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index 76e95d3..564ac79 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -282,8 +282,7 @@ class WeightingFunctions(object):
         ax_twinx.set_ylim((self.pinterp[np.where(self.zinterp == np.min(self.zinterp))],
                            self.pinterp[np.where(self.zinterp == np.max(self.zinterp))]))
         if ylim:
-            ax_twinx.set_ylim((self.pinterp[np.where(self.zinterp == ylim[0])],
-                               self.pinterp[np.where(self.zinterp == ylim[1])]))
+            ax_twinx.set_ylim(np.interp(ylim, self.zinterp, self.pinterp))
         ax_twinx.set_yscale('log')
         ax_twinx.set_ylabel('Pressure [$hPa$]')
         ax_twinx.tick_params(axis='both', which='both', direction='in')
@@ -368,8 +367,7 @@ class WeightingFunctions(object):
         ax_twinx.set_ylim((self.pinterp[np.where(self.zinterp == np.min(self.zinterp))],
                            self.pinterp[np.where(self.zinterp == np.max(self.zinterp))]))
         if ylim:
-            ax_twinx.set_ylim((self.pinterp[np.where(self.zinterp == ylim[0])],
-                               self.pinterp[np.where(self.zinterp == ylim[1])]))
+            ax_twinx.set_ylim(np.interp(ylim, self.zinterp, self.pinterp))
         ax_twinx.set_yscale('log')
         ax_twinx.set_ylabel('Pressure [$hPa$]')
         ax_twinx.tick_params(axis='both', which='both', direction='in')
-- 
2.43.0


From fb2aefb8c1c9c465f0630e21733a6edbaf3b6e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:51 +0000
Subject: [PATCH 29/32] fix: clouds whose base or top is not a level of the
 profile had no column and no temperature

---
 pyrtlib/tb_spectrum.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index b06977b..b9eddb8 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -218,11 +218,11 @@ class TbCloudRTE(object):
         self.endlev = np.zeros((ncld,))
         if getattr(self, 'cloudy'):
             for j in range(0, ncld):
-                for i in range(0, self.nl):
-                    if self.z[i] == self.cldh[0, j]:
-                        self.beglev[j] = i
-                    if self.z[i] == self.cldh[1, j]:
-                        self.endlev[j] = i
+                # base and top need not be levels of the profile
+                inside = np.flatnonzero((self.z >= self.cldh[0, j]) & (self.z <= self.cldh[1, j]))
+                if len(inside) > 0:
+                    self.beglev[j] = inside[0]
+                    self.endlev[j] = inside[-1]
 
             self.denice = denice[::-1] if self._flipped else denice
             self.denliq = denliq[::-1] if self._flipped else denliq
-- 
2.43.0


From 2803b8040a728a77f9d7170977f0ad0f567297ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:20 +0000
Subject: [PATCH 30/32] fix: weighting functions of a profile listed downwards
 were those of a meaningless interpolation

---
 pyrtlib/weighting_functions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index 564ac79..a7abf66 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -52,6 +52,13 @@ class WeightingFunctions(object):
                 - value_prof_interpolation: km
         """
 
+        dz = np.ediff1d(z)
+        if np.all(dz < 0):
+            # the interpolation needs increasing heights
+            z, p, t, rh = z[::-1], p[::-1], t[::-1], rh[::-1]
+        elif not np.all(dz > 0):
+            raise ValueError("Please enter a height profile which is monotonically increasing or decreasing")
+
         self.zinterp = np.arange(
             0, np.max(z)+value_prof_interpolation, value_prof_interpolation)
         self.pinterp = np.interp(self.zinterp, z, p)
-- 
2.43.0


From f5375cf4584b5cd03741a0bb2f8fb01bfefb54ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:20 +0000
Subject: [PATCH 31/32] fix: cloud radiating temperature was not that of the
 lowest cloud when clouds are listed downwards

---
 pyrtlib/tb_spectrum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index b9eddb8..8c77cbb 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -384,7 +384,9 @@ class TbCloudRTE(object):
                 boftotl, boftatm, boftmr, psp_tauprof, hvk, _, _ = RTEquation.planck(self.frq[j], self.tk,
                                                                                      self.ptaulay[j, k, :])
                 if self.cloudy:
-                    self.tmrcld[j, k] = RTEquation.cloud_radiating_temperature(self.beglev[0], self.endlev[0], hvk,
+                    # the lowest cloud, in whatever order the clouds are listed
+                    low = np.argmin(self.beglev)
+                    self.tmrcld[j, k] = RTEquation.cloud_radiating_temperature(self.beglev[low], self.endlev[low], hvk,
                                                                                psp_tauprof,
                                                                                boftatm)
                 # assign output values
-- 
2.43.0


From 71198b07277bca50d6b9cda1c63b6d70dfc32372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:30 +0000
Subject: [PATCH 32/32] fix: layers shared by overlapping clouds were counted
 twice in the cloud columns

---
 pyrtlib/rt_equation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyrtlib/rt_equation.py b/pyrtlib/rt_equation.py
index e51e4eb..1cf9859 100644
--- a/pyrtlib/rt_equation.py
+++ b/pyrtlib/rt_equation.py
@@ -355,10 +355,13 @@ class RTEquation:
 
         ncld = len(lbase)
         scld = 0.0
+        # clouds may overlap: the density of each layer is counted once
+        incloud = np.zeros(len(ds), dtype=bool)
         for i in range(0, ncld):
-            for j in range(int(lbase[i]) + 1, int(ltop[i]) + 1):
-                scld += np.dot(ds[j],
-                               (np.dot(0.5, (dencld[j] + dencld[j - 1]))))
+            incloud[int(lbase[i]) + 1:int(ltop[i]) + 1] = True
+        for j in np.flatnonzero(incloud):
+            scld += np.dot(ds[j],
+                           (np.dot(0.5, (dencld[j] + dencld[j - 1]))))
 
         # convert the integrated value to cm.
         scld = np.dot(scld, 0.1)
-- 
2.43.0

