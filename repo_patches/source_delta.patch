From 26b57310739fb968cb8a0f90c97eac06fa55266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:19 +0000
Subject: [PATCH 01/48] fix: load_nominal_positioner_locations used an
 undefined resource_filename

---
 py/desimeter/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/io.py b/py/desimeter/io.py
index a19013c..53f7069 100644
--- a/py/desimeter/io.py
+++ b/py/desimeter/io.py
@@ -68,7 +68,7 @@ def fvc_bias_filename():
     return os.path.join(desimeter_data_dir(),'bias.fits')
 
 def load_nominal_positioner_locations():
-    directory = resource_filename('desimeter', 'data')
+    directory = resource_files('desimeter').joinpath('data')
     filename = 'positioner_locations_0530v18.csv'
     path = os.path.join(directory, filename)
     table = Table.read(path)
-- 
2.43.0


From d48ee51ac11f5489694ff0fa2555a8b0183333ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:19 +0000
Subject: [PATCH 02/48] fix: fit_params raised instead of flagging a fit with
 too few points as failed

---
 py/desimeter/posparams/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index b1bead3..84066b2 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -383,7 +383,7 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
         if npts<npar :
             message="ERROR: not enough remaining points ({} points) to fit calibration ({} params)".format(npts,npar)
             print(message)
-            flags |= movemask['FIT_FAILED']
+            flags |= movemask['FAILED_FIT']
             best_params = {"FLAGS": flags}
             covariance_dict = dict()
             rms_of_residuals = 0.
-- 
2.43.0


From f739afb968e4987b115099e20b8e4ea556099032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 03/48] fix: get_sigma_str called get_sigmas without its tag

---
 bin/analyze_pos_performance        | 4 ++--
 bin/analyze_pos_performance_legacy | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bin/analyze_pos_performance b/bin/analyze_pos_performance
index 8f3ae63..49fb96e 100755
--- a/bin/analyze_pos_performance
+++ b/bin/analyze_pos_performance
@@ -1028,7 +1028,7 @@ def get_submoves_str(table, for_filename=True):
         return valstr
     return f'Submove{plural}: {valstr}'
 
-def get_sigma_str(table, for_filename=True):
+def get_sigma_str(table, for_filename=True, tag=TRACKED):
     '''Returns a string representing the largest (i.e. broadest) value of sigma.
     
     INPUTS:  table ... astropy table containing columns 'SIGMA_CEILING' and 'QUANTILE_CEILING'
@@ -1040,7 +1040,7 @@ def get_sigma_str(table, for_filename=True):
     if isinstance(table, (int, np.integer, float, np.floating)):
         sigmas = {table: sigma_to_quantile(table)}
     else:
-        sigmas = get_sigmas(table)
+        sigmas = get_sigmas(table, tag)
     sigma = max(sigmas.keys())
     quantile = sigmas[sigma]
     if for_filename:
diff --git a/bin/analyze_pos_performance_legacy b/bin/analyze_pos_performance_legacy
index 414810d..92179d5 100644
--- a/bin/analyze_pos_performance_legacy
+++ b/bin/analyze_pos_performance_legacy
@@ -967,7 +967,7 @@ def get_submoves_str(table, for_filename=True):
         return valstr
     return f'Submove{plural}: {valstr}'
 
-def get_sigma_str(table, for_filename=True):
+def get_sigma_str(table, for_filename=True, tag=TRACKED):
     '''Returns a string representing the largest (i.e. broadest) value of sigma.
     
     INPUTS:  table ... astropy table containing columns 'SIGMA_CEILING' and 'QUANTILE_CEILING'
@@ -979,7 +979,7 @@ def get_sigma_str(table, for_filename=True):
     if isinstance(table, (int, np.integer, float, np.floating)):
         sigmas = {table: sigma_to_quantile(table)}
     else:
-        sigmas = get_sigmas(table)
+        sigmas = get_sigmas(table, tag)
     sigma = max(sigmas.keys())
     quantile = sigmas[sigma]
     if for_filename:
-- 
2.43.0


From 4a4161ef7d5d596a8e757564bab083233076c849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:42 +0000
Subject: [PATCH 04/48] fix: correct_with_pol used the previous point's
 correction, or none at all, when no fit was acceptable

---
 py/desimeter/turbulence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index a1554b9..8852def 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -115,6 +115,8 @@ def correct_with_pol(x, y, x0, y0, win=50):
         curdx = dx[xids]
         curdy = dy[xids]
         bestnorm = 1e9
+        # no correction unless one of the fits is acceptable
+        lastx, lasty, bestdeg = 0., 0., 0
         # try polynomials of different degrees
         # selecting by cross-validate norm
         polys = None
-- 
2.43.0


From 5a38bc94114599be2a225d2b0f664e2d8f49cee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 05/48] fix: debug message of findfiducials had no place for
 its argument

---
 py/desimeter/findfiducials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/findfiducials.py b/py/desimeter/findfiducials.py
index 6ddd75b..b2548ee 100644
--- a/py/desimeter/findfiducials.py
+++ b/py/desimeter/findfiducials.py
@@ -65,7 +65,7 @@ def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
     measured_spots_distances,measured_spots_indices = tree.query(xy,k=4,distance_upper_bound=pinhole_max_separation_pixels)
     number_of_neighbors = np.sum( measured_spots_distances<pinhole_max_separation_pixels,axis=1)
     fiducials_candidates_indices = np.where(number_of_neighbors>=4)[0]  # including self, so at least 3 pinholes
-    log.debug("number of fiducials=",fiducials_candidates_indices.size)
+    log.debug("number of fiducials={}".format(fiducials_candidates_indices.size))
 
     # match candidates to fiducials from metrology
     log.info("first match {} fiducials candidates to metrology ({}) with iterative fit".format(fiducials_candidates_indices.size,len(metrology_fiducials_table)))
-- 
2.43.0


From 503ed66e95f23daea6900e61cefb0e6dca87de7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 06/48] fix: SimpleCorr.fit lost the scale or kept the previous
 rotation when the fitted rotation is zero or a multiple of 90 deg

---
 py/desimeter/simplecorr.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/py/desimeter/simplecorr.py b/py/desimeter/simplecorr.py
index 64f9c01..5ee77bd 100644
--- a/py/desimeter/simplecorr.py
+++ b/py/desimeter/simplecorr.py
@@ -135,16 +135,12 @@ class SimpleCorr(object):
         sa=(ay[1]-ax[2])/sxx_p_syy
         ca=(ax[1]+ay[2])/sxx_p_syy
 
-        if sa != 0 :
-            self.rot_deg = arctan2d(sa,ca)
-
-            sxy = sa*ax[1]+ca*ay[1] - sxx_p_syy*ca*sa
-            sxx =(ax[1]-sxy*sa)/ca
-            syy = (ay[1]-sxy*ca)/sa
-        else :
-            sxx = ax[1]
-            syy = ay[2]
-            sxy = ax[2]
+        self.rot_deg = arctan2d(sa,ca)
+
+        sxx = ax[1]*ca - ax[2]*sa
+        syy = ay[1]*sa + ay[2]*ca
+        sxy = ax[1]*sa + ax[2]*ca
+
         self.sxx = sxx
         self.syy = syy
         self.sxy = sxy
-- 
2.43.0


From ec73dd260c8a39e268496f1069afe4ed697e95c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 07/48] fix: TanCorr.fit divided by the sine and cosine of the
 fitted rotation

---
 py/desimeter/fieldmodel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 6fce584..9eec1a5 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -423,9 +423,9 @@ class TanCorr(object):
 
         self.rot_deg = arctan2d(sa,ca)
 
-        sxy = sa*ax[1]+ca*ay[1] - sxx_p_syy*ca*sa
-        sxx =(ax[1]-sxy*sa)/ca
-        syy = (ay[1]-sxy*ca)/sa
+        sxx = ax[1]*ca - ax[2]*sa
+        syy = ay[1]*sa + ay[2]*ca
+        sxy = ax[1]*sa + ax[2]*ca
 
         self.sxx = sxx
         self.syy = syy
-- 
2.43.0


From 37d65b1ee531b4215ba2c60fca6ade70de008d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 08/48] fix: TanCorr.apply_inverse did not undo the pointing
 offset

---
 py/desimeter/fieldmodel.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 9eec1a5..c551165 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -443,10 +443,9 @@ class TanCorr(object):
         det = self.sxx*self.syy - self.sxy**2
         scale_matrix = np.array([[self.syy,-self.sxy],[-self.sxy,self.sxx]])/det
         rot_matrix = rot2deg(-self.rot_deg)
-        ha,dec  = xy2hadec(x,y,0,0)
-        x1t,y1t = hadec2xy(ha,dec,self.dha,self.ddec)
-        xy=rot_matrix.dot(scale_matrix.dot(np.array([x1t,y1t])))
-        return xy[0],xy[1]
+        xy=rot_matrix.dot(scale_matrix.dot(np.array([x,y])))
+        ha,dec  = xy2hadec(xy[0],xy[1],self.dha,self.ddec)
+        return hadec2xy(ha,dec,0,0)
 
 def fieldrot(ra,dec,mjd,lst_deg,hexrot_deg=0) :
     """
-- 
2.43.0


From e666ab1ef1d9a6cd55fca529a2b5be99b9518e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 09/48] fix: SimpleCorr.fromjson rejected the output of tojson

---
 py/desimeter/simplecorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/simplecorr.py b/py/desimeter/simplecorr.py
index 5ee77bd..cf6422d 100644
--- a/py/desimeter/simplecorr.py
+++ b/py/desimeter/simplecorr.py
@@ -36,7 +36,7 @@ class SimpleCorr(object):
     def fromjson(cls, jsonstring):
         tx = cls()
         params = json.loads(jsonstring)
-        assert params['name'] == "Tangent Plane Adjustment"
+        assert params['name'] == "Simple Correction"
         assert params['version'] == '1'
         tx.dx = params['dx']
         tx.dy = params['dy']
-- 
2.43.0


From 6401edeaf8e86d44d8adcd292c56cfec9e8351b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 10/48] fix: TanCorr.fromjson rejected the output of tojson

---
 py/desimeter/fieldmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index c551165..7404c27 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -338,7 +338,7 @@ class TanCorr(object):
     def fromjson(cls, jsonstring):
         tx = cls()
         params = json.loads(jsonstring)
-        assert params['name'] == "Tangent Plane Adjustment"
+        assert params['name'] == "Tangent Plane Correction"
         assert params['version'] == '1'
         tx.dha = params['dha']
         tx.ddec = params['ddec']
-- 
2.43.0


From 186ba245cf05529abfe1821bdf8da1f4d89e19ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 11/48] fix: FVC2FP could not be used or written before a fit
 or a read

---
 py/desimeter/transform/fvc2fp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/desimeter/transform/fvc2fp.py b/py/desimeter/transform/fvc2fp.py
index 83cb107..a80cbb2 100644
--- a/py/desimeter/transform/fvc2fp.py
+++ b/py/desimeter/transform/fvc2fp.py
@@ -21,6 +21,10 @@ class FVC2FP(object):
         self.yfvc_scale  = 3000.
         self.xfvc_offset = 3000.
         self.yfvc_offset = 3000.
+        self.scale    = 1.
+        self.rotation = 0.
+        self.offset_x = 0.
+        self.offset_y = 0.
         self.zbpolids = np.array([0,1,2,3,4,5,6,9,20,27,28,29,30],dtype=int)
         self.zbcoeffs = np.zeros(self.zbpolids.shape,dtype=float)
 
-- 
2.43.0


From e952baba8908117f2424cda9b00aff5ee6bb5de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 12/48] fix: FieldModel options were lost when saving and
 reading the model

---
 py/desimeter/fieldmodel.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 7404c27..f03558e 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -51,6 +51,10 @@ class FieldModel(object):
         params['adc1'] = self.adc1
         params['adc2'] = self.adc2
 
+        params['precession'] = self.precession
+        params['aberration'] = self.aberration
+        params['polar_misalignment'] = self.polar_misalignment
+
         params['sxx'] = self.sxx
         params['syy'] = self.syy
         params['sxy'] = self.sxy
@@ -75,6 +79,11 @@ class FieldModel(object):
         tx.adc1 = params['adc1']
         tx.adc2 = params['adc2']
 
+        # not saved by earlier versions
+        for key in ['precession','aberration','polar_misalignment'] :
+            if key in params :
+                setattr(tx, key, params[key])
+
         tx.sxx = params['sxx']
         tx.syy = params['syy']
         tx.sxy = params['sxy']
-- 
2.43.0


From 1d138a6863c6eb33bd678f8c705fd1c3fe752854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 13/48] fix: SimpleCorr.fit_rotoff kept the number of matches
 and rms of an earlier fit

---
 py/desimeter/simplecorr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/desimeter/simplecorr.py b/py/desimeter/simplecorr.py
index cf6422d..bb4ee1a 100644
--- a/py/desimeter/simplecorr.py
+++ b/py/desimeter/simplecorr.py
@@ -83,6 +83,10 @@ class SimpleCorr(object):
         self.syy = 1.
         self.sxy = 0.
 
+        x2p, y2p = self.apply(x1, y1)
+        self.nmatch = n
+        self.rms = np.sqrt( np.mean( (x2-x2p)**2 + (y2-y2p)**2 ) )
+
     def fit(self, x1, y1, x2, y2, solid=False) :
         """
         Adjust tranformation from x1,y1 to x2,y2
-- 
2.43.0


From e2bdda3fd9d3bf2eec226360f02b8fd9e8e2b624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 14/48] fix: undo_refraction no longer modifies the caller's
 altitude array

---
 py/desimeter/transform/radec2tan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/transform/radec2tan.py b/py/desimeter/transform/radec2tan.py
index e1db337..4dadf3e 100644
--- a/py/desimeter/transform/radec2tan.py
+++ b/py/desimeter/transform/radec2tan.py
@@ -311,7 +311,7 @@ def undo_refraction(alt) :
     for _ in range(2) :
         da   = apply_refraction(alt) - alt
         dda  = da-daprev
-        alt -= dda
+        alt = alt - dda # not in place: alt is the caller's array
         daprev = da
     return alt
 
-- 
2.43.0


From 18fd2f784e3f748e2b85c373ecfc3066fb13aded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 15/48] fix: fit_params works on copies of the nominals and
 bounds dictionaries

---
 py/desimeter/posparams/fitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index 84066b2..2301a9b 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -120,6 +120,9 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
         nominals = default_values
     if bounds is None:
         bounds = default_bounds
+    # private copies: entries are added and modified below
+    nominals = dict(nominals)
+    bounds = dict(bounds)
     if keep_fixed is None:
         keep_fixed = []
     # arg checking
-- 
2.43.0


From c233a662b85017ab883e5f79e020a824320f6b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 16/48] fix: detect_phi_arm no longer modifies the caller's
 template

---
 py/desimeter/brightimage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/brightimage.py b/py/desimeter/brightimage.py
index 618de0c..f64bbf7 100644
--- a/py/desimeter/brightimage.py
+++ b/py/desimeter/brightimage.py
@@ -34,8 +34,8 @@ def detect_phi_arm(x,y,image,template,ang_step=1.,plot=False) :
     xgrid, ygrid = np.mgrid[-pad:pad+1,-pad:pad+1]
     mask = ((xgrid**2 + ygrid**2) < pad**2)
 
-    template *= mask
-    template /=np.sqrt(np.sum(template**2))
+    template = template*mask
+    template = template/np.sqrt(np.sum(template**2))
 
     best_angle = []
     best_ccf = []
-- 
2.43.0


From f684d3a64935160f6f3c0e7713b40a8a5f53b886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 17/48] fix: plot_params sorts a copy of the caller's table

---
 py/desimeter/posparams/plotter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/desimeter/posparams/plotter.py b/py/desimeter/posparams/plotter.py
index f57c833..b836579 100644
--- a/py/desimeter/posparams/plotter.py
+++ b/py/desimeter/posparams/plotter.py
@@ -34,6 +34,7 @@ def plot_params(table, savepath, statics_during_dynamic):
         suitable for print to stdout, stating what was done.
     '''
     fig = _init_plot()
+    table = table.copy()
     table.sort(DATE_SEC)
     posid = table['POS_ID'][0]
     fig.subplots_adjust(wspace=.3, hspace=.3)
-- 
2.43.0


From 0f06ece51589df2db50a4f4f49fd39fb16097a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 18/48] fix: average_coordinates returns a new table instead of
 overwriting the first input

---
 py/desimeter/averagecoord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/averagecoord.py b/py/desimeter/averagecoord.py
index 225791f..93e1dd3 100644
--- a/py/desimeter/averagecoord.py
+++ b/py/desimeter/averagecoord.py
@@ -22,7 +22,7 @@ def average_coordinates(tables,xkey,ykey) :
         x2=np.array(table[xkey])
         y2=np.array(table[ykey])
         if x1 is None :
-            table1=table
+            table1=table.copy()
             x1=x2
             y1=y2
             indices=np.arange(len(x1),dtype=int)
-- 
2.43.0


From d8dca893e2a61b30eff2368b55f5c4cb3c97f40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:07 +0000
Subject: [PATCH 19/48] fix: fvc_proc no longer overwrites the bias option of
 the caller's arguments

---
 py/desimeter/processfvc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 595250b..6d06787 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -2,6 +2,7 @@
 """
 import os
 import sys
+import copy
 import subprocess
 import argparse
 from astropy.table import Table
@@ -205,6 +206,7 @@ def get_expected_pos(args, log):
 def fvc_proc(args, log):
     """Process an FVC image with options specified by args and output to log.
     """
+    args = copy.copy(args) # preproc replaces the bias option with the image it reads
     errcode = preproc(args)
     if errcode:
         return errcode
-- 
2.43.0


From 43db1d30c86b8c45353b829b19ff52f654e006a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:07 +0000
Subject: [PATCH 20/48] fix: parameter fits no longer add keys of one
 positioner to the module wide output keys

---
 py/desimeter/posparams/fithandler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index 5cb6e72..41ac4b5 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -357,7 +357,8 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
     '''
     table.sort('DATE_SEC') # to ensure consistent ordering as in _define_cases
     posid = _get_posid(table)
-    output = {col:[] for col in output_keys}
+    mode_keys = dict(output_keys) # EPSILON keys of this positioner are added below
+    output = {col:[] for col in mode_keys}
     # add covariances
     fitted_keys=list(fitter.static_keys)+list(fitter.dynamic_keys)
     for i1,col1 in enumerate(list(fitted_keys)) :
@@ -405,7 +406,7 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
                 fitted_keys.append(key)
                 if key not in output.keys() :
                     output[key] = list()
-                    output_keys[key]=True
+                    mode_keys[key]=True
 
         for i1,key1 in enumerate(fitted_keys):
             if key1 in params.keys() :
@@ -466,8 +467,8 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
                 table[ekey]=np.sqrt(table[ekey])
 
     if True :  # adding _STATIC or _DYNAMIC to the parameters and covariance
-        for key in output_keys :
-            if output_keys[key] :
+        for key in mode_keys :
+            if mode_keys[key] :
                 for key2 in table.dtype.names :
                     if key2.find(key)>=0 :
                         key2_xxx=key2.replace(key,key + _mode_suffix(mode))
-- 
2.43.0


From 6dd33b87b98b2f837d3c3793c275b77272675672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 21/48] fix: findfiducials uses the input transform of each
 call, not that of the first one

---
 py/desimeter/findfiducials.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/py/desimeter/findfiducials.py b/py/desimeter/findfiducials.py
index b2548ee..b6a58d4 100644
--- a/py/desimeter/findfiducials.py
+++ b/py/desimeter/findfiducials.py
@@ -41,20 +41,21 @@ def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
         log.debug("keep only the pinholes")
         metrology_pinholes_table = metrology_table[:][(metrology_table["DEVICE_TYPE"]=="FIF")|(metrology_table["DEVICE_TYPE"]=="GIF")]
 
-        # use input transform to convert X_FP,Y_FP to XPIX,YPIX
-        xpix,ypix = input_tx.fp2fvc(metrology_pinholes_table["X_FP"],metrology_pinholes_table["Y_FP"])
-        metrology_pinholes_table["XPIX"]=xpix
-        metrology_pinholes_table["YPIX"]=ypix
-
-        log.debug("define fiducial location as the most central dot")
-        central_pinholes=[]
-        for loc in np.unique(metrology_pinholes_table["LOCATION"]) :
-            ii=np.where(metrology_pinholes_table["LOCATION"]==loc)[0]
-            mx=np.mean(metrology_pinholes_table["XPIX"][ii])
-            my=np.mean(metrology_pinholes_table["YPIX"][ii])
-            k=np.argmin((metrology_pinholes_table["XPIX"][ii]-mx)**2+(metrology_pinholes_table["YPIX"][ii]-my)**2)
-            central_pinholes.append(ii[k])
-        metrology_fiducials_table = metrology_pinholes_table[:][central_pinholes]
+    # use input transform to convert X_FP,Y_FP to XPIX,YPIX
+    # (at every call, because the input transform can change)
+    xpix,ypix = input_tx.fp2fvc(metrology_pinholes_table["X_FP"],metrology_pinholes_table["Y_FP"])
+    metrology_pinholes_table["XPIX"]=xpix
+    metrology_pinholes_table["YPIX"]=ypix
+
+    log.debug("define fiducial location as the most central dot")
+    central_pinholes=[]
+    for loc in np.unique(metrology_pinholes_table["LOCATION"]) :
+        ii=np.where(metrology_pinholes_table["LOCATION"]==loc)[0]
+        mx=np.mean(metrology_pinholes_table["XPIX"][ii])
+        my=np.mean(metrology_pinholes_table["YPIX"][ii])
+        k=np.argmin((metrology_pinholes_table["XPIX"][ii]-mx)**2+(metrology_pinholes_table["YPIX"][ii]-my)**2)
+        central_pinholes.append(ii[k])
+    metrology_fiducials_table = metrology_pinholes_table[:][central_pinholes]
 
     # find fiducials candidates
     log.info("select spots with at least two close neighbors (in pixel units)")
-- 
2.43.0


From d58305dd6038427c5dd76c2337d6ff3b84e3d8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:02 +0000
Subject: [PATCH 22/48] fix: detectspots estimates the noise from a
 reproducible subsample of the image

---
 py/desimeter/detectspots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index b121d18..ceac622 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -145,8 +145,9 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
     # measure pedestal and rms
     # look the values of a random subsample of the image
     nrand=20000
-    ii0=(np.random.uniform(size=nrand)*n0).astype(int)
-    ii1=(np.random.uniform(size=nrand)*n1).astype(int)
+    rng=np.random.RandomState(0) # always the same subsample for the same image
+    ii0=(rng.uniform(size=nrand)*n0).astype(int)
+    ii1=(rng.uniform(size=nrand)*n1).astype(int)
     vals=convolved_image[ii0,ii1].ravel()
     mval=np.median(vals)
     #- normalized median absolute deviation as robust version of RMS
-- 
2.43.0


From 22f503055af36d69ef4cbc44c4f9091a3eb22452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 23/48] fix: SimpleCorr.fit_rotoff fits the offsets of the
 transform without scale

---
 py/desimeter/simplecorr.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/simplecorr.py b/py/desimeter/simplecorr.py
index bb4ee1a..42a3dee 100644
--- a/py/desimeter/simplecorr.py
+++ b/py/desimeter/simplecorr.py
@@ -77,8 +77,12 @@ class SimpleCorr(object):
         p = np.linalg.solve(ATA, ATv)
 
         self.rot_deg = arctan2d(p[1], p[0])
-        self.dx = p[2]
-        self.dy = p[3]
+        # the offsets p[2:4] go with the scale of this fit, which is not kept:
+        # recompute them for a scale of 1
+        r = np.hypot(p[0], p[1])
+        ca, sa = p[0]/r, p[1]/r
+        self.dx = np.mean(x2 - (ca*x1 - sa*y1))
+        self.dy = np.mean(y2 - (sa*x1 + ca*y1))
         self.sxx = 1.
         self.syy = 1.
         self.sxy = 0.
-- 
2.43.0


From af9c3973335bcfffdd8f7ca58a841e5bb4c4a260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 24/48] fix: circle through 3 points uses bisectors of distinct
 points

---
 py/desimeter/circles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/circles.py b/py/desimeter/circles.py
index 6306858..6bb99f9 100644
--- a/py/desimeter/circles.py
+++ b/py/desimeter/circles.py
@@ -81,7 +81,7 @@ def _fast_fit_circle(x,y,use_median=False) :
     nn=len(x)
     i1=np.arange(nn)
     ### i2=(i1+1)%nn
-    i2=(i1+nn//2-1)%nn
+    i2=(i1+max(1,nn//2-1))%nn # with 3 points, nn//2-1=0 would pair each point with itself
 
     # midpoints
     mx=((x[i1]+x[i2])/2.)
-- 
2.43.0


From f7a144b68896aa5402c92e293523204394a861b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 25/48] fix: z2r and z2s no longer return nan for every z

---
 py/desimeter/transform/rszn_lookups.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/transform/rszn_lookups.py b/py/desimeter/transform/rszn_lookups.py
index 9edd713..44a98c2 100644
--- a/py/desimeter/transform/rszn_lookups.py
+++ b/py/desimeter/transform/rszn_lookups.py
@@ -47,7 +47,8 @@ def r2z(r):
 
 def z2r(z):
     '''Convert z (mm) to r (mm) on a nominal Echo22 focal surface.'''
-    return np.interp(z, Z, R, left=oob, right=oob)
+    # np.interp needs increasing abscissae and Z decreases with R
+    return np.interp(z, Z[::-1], R[::-1], left=oob, right=oob)
 
 def r2n(r):
     '''Convert r (mm) to n (deg) on a nominal Echo22 focal surface.'''
-- 
2.43.0


From 9f7186c7a54f9ed59d03f04c0354988fba9d0ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:43 +0000
Subject: [PATCH 26/48] fix: rms of the positioner fit residuals is normalised
 to the points left after outlier rejection

---
 py/desimeter/posparams/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index 2301a9b..1ab2b95 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -313,7 +313,7 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
         err_x = x_exp - x_flat
         err_y = y_exp - y_flat
         sumsq = np.sum(err_x**2 + err_y**2)
-        return (sumsq / n_pts)**0.5
+        return (sumsq / x_flat.size)**0.5 # outliers may have been removed
 
     def compute_chi2(params):
         x_exp, y_exp = expected_xy(params)
-- 
2.43.0


From 1ce973ce72d74bd820ac447ad5505a6f6ce23677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:43 +0000
Subject: [PATCH 27/48] fix: plot_fvc_residuals --posids with --expected no
 longer overwrites the selection used to print large residuals

---
 bin/plot_fvc_residuals | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/plot_fvc_residuals b/bin/plot_fvc_residuals
index a72ac9b..651d8bc 100755
--- a/bin/plot_fvc_residuals
+++ b/bin/plot_fvc_residuals
@@ -125,9 +125,9 @@ if args.expected :
         if args.posids is not None :
             posids=args.posids.split(",")
             for posid in posids :
-                ii=np.where(coord["POS_ID"]==posid)[0]
-                if ii.size>0 :
-                    i=ii[0]
+                kk=np.where(coord["POS_ID"]==posid)[0]
+                if kk.size>0 :
+                    i=kk[0]
                     xx=coord["X_FP_EXP"][i]
                     yy=coord["Y_FP_EXP"][i]
                     print("showing expected pos of {} at {},{} as a cross".format(posid,xx,yy))
-- 
2.43.0


From a9a816a94484d011da307db6dff4d115ee0e2e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 28/48] fix: processfvc: with spotmatch, keep the expected
 positions of the positioners

The metrology of every device was copied to X_FP_METRO, and then to X_FP_EXP: the
expected position of a matched positioner was replaced by its center, and that of
a fiducial by its last pinhole instead of the center used for the fit.
---
 py/desimeter/processfvc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 6d06787..1254621 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -303,11 +303,11 @@ def fvc_proc(args, log):
             spots["X_FP_EXP"][ii]=expected_pos["X_FP"][jj]
             spots["Y_FP_EXP"][ii]=expected_pos["Y_FP"][jj]
 
-            metrology = load_metrology()
+            # only the fiducials have a known position (their center, see above)
             ii=[]
             jj=[]
-            for j,loc in enumerate(metrology["LOCATION"]) :
-                if loc in loc2i :
+            for j,(loc,pinhole_id) in enumerate(zip(metrology["LOCATION"],metrology["PINHOLE_ID"])) :
+                if pinhole_id == 99 and loc in loc2i :
                     ii.append(loc2i[loc])
                     jj.append(j)
             spots["X_FP_METRO"][ii]=metrology["X_FP"][jj]
-- 
2.43.0


From 238ffbb7ec523e65ac0f696b9ea1f6f235e63d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:09 +0000
Subject: [PATCH 29/48] fix: dynamic fit of a positioner with SCALE_T or
 SCALE_P kept fixed no longer fails with a KeyError

---
 py/desimeter/posparams/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index 1ab2b95..264fd23 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -290,8 +290,8 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
             t_int_expected = t_int
             p_int_expected = p_int
         else:
-            dt_int_scaled = dt_int * params[param_idx['SCALE_T']]
-            dp_int_scaled = dp_int * params[param_idx['SCALE_P']]
+            dt_int_scaled = dt_int * p0['SCALE_T'] # may be kept fixed
+            dp_int_scaled = dp_int * p0['SCALE_P']
             t_int_expected = measured_t_int_0 + dt_int_scaled
             p_int_expected = measured_p_int_0 + dp_int_scaled
 
-- 
2.43.0


From 740e558f027ae0171f7103bcb16b4298b266cfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:55 +0000
Subject: [PATCH 30/48] fix: data windows of a single period all started at the
 first point

---
 py/desimeter/posparams/fithandler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index 41ac4b5..4f43839 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -303,15 +303,15 @@ def _define_cases(table, datum_dates, data_window, printf=print):
         for istart in range(0, num_moves, data_window):
             ifinal = min(len(table)-1, istart+data_window-1)
             #- check if window is smaller than requested
-            if (ifinal-istart < data_window):
+            if (ifinal-istart+1 < data_window):
                 if istart == 0:
                     #- even one window is smaller than requested
                     print(f'WARNING: total num_moves {num_moves} < data_window {data_window}')
                 else:
                     #- pad backwards, overlapping with previous window
-                    istart = ifinal - data_window
+                    istart = ifinal - data_window + 1
 
-            cases.append(dict(start_idx=0, final_idx=ifinal))
+            cases.append(dict(start_idx=istart, final_idx=ifinal))
 
         printf(f'{posid}: {len(cases):5d} analysis cases defined')
         return cases
-- 
2.43.0


From 39be06b1ff93b6a864ab077c8aff639ce83df9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:55 +0000
Subject: [PATCH 31/48] fix: parameters of sequence 10 and above got the name
 of sequence 1 with a suffix, and the calibration failed

---
 py/desimeter/posparams/fithandler.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index 4f43839..4a90fe1 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -467,12 +467,11 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
                 table[ekey]=np.sqrt(table[ekey])
 
     if True :  # adding _STATIC or _DYNAMIC to the parameters and covariance
-        for key in mode_keys :
-            if mode_keys[key] :
-                for key2 in table.dtype.names :
-                    if key2.find(key)>=0 :
-                        key2_xxx=key2.replace(key,key + _mode_suffix(mode))
-                        table.rename_column(key2,key2_xxx)
+        for key2 in table.dtype.names :
+            # names are KEY, ERR.KEY or COV.KEY1.KEY2
+            words=[word + _mode_suffix(mode) if mode_keys.get(word) else word for word in key2.split('.')]
+            if '.'.join(words) != key2 :
+                table.rename_column(key2,'.'.join(words))
 
     return table
 
-- 
2.43.0


From 298b3e854ef8cb2d04c54160353c01345a9c2865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:29 +0000
Subject: [PATCH 32/48] fix: calibration failed when a sequence without recent
 rehome was not part of every data window

---
 py/desimeter/posparams/fithandler.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index 4a90fe1..a9744bc 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -140,6 +140,12 @@ def run_best_fits(posid, path, period_days, data_window, savedir,
     quantile = np.percentile(errors, static_quantile * 100)
     selection = static_out[errors <= quantile]
     these_best = {key:np.median(selection[key + _mode_suffix('static')]) for key in best_static}
+    for key in best_static :
+        if key.find("EPSILON")>=0 : # undefined for windows that do not include the sequence
+            values = np.array(selection[key + _mode_suffix('static')])
+            if np.all(np.isnan(values)) :
+                values = np.array(static_out[key + _mode_suffix('static')])
+            these_best[key] = np.median(values[~np.isnan(values)])
     best_static.update(these_best)
     printf(f'{posid}: Selected best static params = {_dict_str(best_static)}')
 
@@ -405,12 +411,15 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
                 #print("warning adding key={} which was not in fitted_keys={}".format(key,fitted_keys))
                 fitted_keys.append(key)
                 if key not in output.keys() :
-                    output[key] = list()
+                    # undefined for the previous cases, that do not include this sequence
+                    output[key] = [np.nan]*(len(output['POS_ID'])-1)
                     mode_keys[key]=True
 
         for i1,key1 in enumerate(fitted_keys):
             if key1 in params.keys() :
                 output[key1].append(params[key1])
+            elif key1.find("EPSILON")>=0 :
+                output[key1].append(np.nan) # sequence not included in this case
             else :
                 output[key1].append(0.) # happens if fit fails
 
-- 
2.43.0


From 532cbfb45097939a8c497ccc05d855701a6dc1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 33/48] fix: mask bit without extra information cannot be
 created

---
 py/desimeter/bitmask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/bitmask.py b/py/desimeter/bitmask.py
index 059f65a..8060703 100644
--- a/py/desimeter/bitmask.py
+++ b/py/desimeter/bitmask.py
@@ -90,7 +90,7 @@ class _MaskBit(int):
             self._extra = dict()
         else :
             self._extra = extra
-        for key, value in extra.items():
+        for key, value in self._extra.items():
             if hasattr(self, key):
                 raise AttributeError(
                     "Bit {0} extra key '{1}' is already in use by int objects.".format(name, key))
-- 
2.43.0


From b6801f90693722d22e8798f7411383679671b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 34/48] fix: spots close to the edge of the image abort the
 detection or are shifted by one pixel

---
 py/desimeter/detectspots.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index ceac622..ccf6b2c 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -216,9 +216,14 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
         i0=index//n1
         i1=index%n1
         if 1: #try :
-            x,y,ex,ey,c=fitcentroid(fvcimage[i0-hw:i0+hw+1,i1-hw:i1+hw+1],noise=fvcimage_rms)
-            xpix[j] = x + i1 + xoffset #  x is along axis=1 in python , also adding offset (definition of pixel coordinates)
-            ypix[j] = y + i0 + yoffset #  y is along axis=0 in python , also adding offset (definition of pixel coordinates)
+            # first row and column of the stamp, which is smaller than (2*hw+1,2*hw+1) close to the edges of the image
+            b0=max(i0-hw,0)
+            b1=max(i1-hw,0)
+            stamp=fvcimage[b0:i0+hw+1,b1:i1+hw+1]
+            x,y,ex,ey,c=fitcentroid(stamp,noise=fvcimage_rms)
+            # centroids are relative to the central pixel of the stamp
+            xpix[j] = x + b1 + stamp.shape[1]//2 + xoffset #  x is along axis=1 in python , also adding offset (definition of pixel coordinates)
+            ypix[j] = y + b0 + stamp.shape[0]//2 + yoffset #  y is along axis=0 in python , also adding offset (definition of pixel coordinates)
             xerr[j] = ex
             yerr[j] = ey
             counts[j] = c
-- 
2.43.0


From dc2d6d8cfbadc1a342147039669fac039b9862f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:33 +0000
Subject: [PATCH 35/48] fix: the brighter of two detections at the same
 coordinates is removed

---
 py/desimeter/detectspots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index ccf6b2c..6e374bd 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -246,7 +246,8 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
         tree = KDTree(xy)
         distances,indices = tree.query(xy,k=2) # go up to 4 bad detections
         distances=distances[:,1] # discard same
-        indices=indices[:,1] # discard same
+        # discard same, which may come second if several detections have the same coordinates
+        indices=np.where(indices[:,1]==np.arange(indices.shape[0]),indices[:,0],indices[:,1])
         bad=np.where(distances<psf_sigma)[0] # at least 1 duplicate
         if bad.size>0 :
             bad=bad[0]
-- 
2.43.0


From 6be2d83499e643b82843959caca735cd94608204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:04 +0000
Subject: [PATCH 36/48] fix: stationary fibers with a position that is not
 finite abort the turbulence correction

---
 py/desimeter/turbulence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index 8852def..57566cd 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -400,14 +400,14 @@ def correct_using_stationary(xs, ys, x0s, y0s, xc, yc,
             np.isfinite(data['dx']) & np.isfinite(data['dy']))
     data = data[mask]
     if clip_resid > 0:
-        tmask = mask.copy()
+        tmask = np.ones(len(data), dtype=bool)
         for c in (data['dx'], data['dy']):
             med = np.median(c)
             sd = mad_std(c)
             tmask &= (c > med - 5*sd) & (c < med + 5*sd)
         if np.any(tmask):
             data = data[tmask]
-            mask = mask & tmask
+            mask[mask] = tmask
         # here using only stationary positioners
         xturb, yturb, _ = solve_independent(
             data, nuse=500, excludeself=False,
-- 
2.43.0


From 3b2dc538ff576b8446e594a4c6891d53b9db931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:04 +0000
Subject: [PATCH 37/48] fix: clip_resid of the turbulence correction is ignored

---
 py/desimeter/turbulence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index 57566cd..be1441a 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -414,13 +414,13 @@ def correct_using_stationary(xs, ys, x0s, y0s, xc, yc,
             method='powell', fix_covar=True,
             scale_covar=scale_covar)
         offset = np.hypot(data['dx'] - xturb, data['dy'] - yturb)
-        tmask = offset < 0.01  # 10 microns
+        tmask = offset < clip_resid
         data = data[tmask]
         mask[mask] &= tmask
         if np.sum(~mask) > 0:
             log.info('Excluding %d stationary positioners with turbulence '
-                     'corrected offsets larger than 10 microns or 4 sigma '
-                     'away from rest.' % np.sum(~mask))
+                     'corrected offsets larger than %g microns or 5 sigma '
+                     'away from rest.' % (np.sum(~mask), 1000*clip_resid))
 
     xturb, yturb, _ = solve_independent(
         data, nuse=500, excludeself=False,
-- 
2.43.0


From 14906ff2ff6fd458f342181f7f59d9b6ebcf14af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:04 +0000
Subject: [PATCH 38/48] fix: polynomial turbulence correction aborts for a
 fiber far from its expected position

---
 py/desimeter/turbulence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index be1441a..54df7aa 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -106,6 +106,9 @@ def correct_with_pol(x, y, x0, y0, win=50):
         # go over each point
         # query the neighborhood
         xids = T0.query_ball_point(X[i], win)
+        if i not in xids:
+            # measured far from its expected position
+            xids.append(i)
         xids = np.array(xids)
 
         curxcen, curycen = x[i], y[i]
-- 
2.43.0


From 7f882383a6263dd5934b4587e6367a6e356ca3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:04 +0000
Subject: [PATCH 39/48] fix: covariance by distance has too many bins when
 pairs are beyond the edges

---
 py/desimeter/turbulence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index 54df7aa..98ff816 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -627,7 +627,7 @@ def empirical_covariance(data, bins=10, edges=None):
     else:
         edges = np.linspace(np.min(dist), np.max(dist)+0.1, bins+1)
     ind = np.searchsorted(edges, dist, side='right')-1
-    m = ind >= 0
+    m = (ind >= 0) & (ind < bins)
     ncount = np.bincount(ind[m], minlength=bins)
     ncount = ncount + (ncount == 0)
     dx1dx2 = np.bincount(ind[m], weights=dx1dx2[m], minlength=bins)
-- 
2.43.0


From b4efdce7bc767d0997fe45fdd04ca13cd290899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:44 +0000
Subject: [PATCH 40/48] fix: getBothRoots without a linear term

---
 py/desimeter/transform/tan2fp/raytrace/RT185v2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/transform/tan2fp/raytrace/RT185v2.py b/py/desimeter/transform/tan2fp/raytrace/RT185v2.py
index 61bb5bd..f7f486f 100755
--- a/py/desimeter/transform/tan2fp/raytrace/RT185v2.py
+++ b/py/desimeter/transform/tan2fp/raytrace/RT185v2.py
@@ -476,8 +476,8 @@ def getBothRoots(A, B, C):
     if A==0.0 and B!= 0.0:
         return -C/B, -0.0
     if B==0.0 and A!=0.0:
-        if C/A>0:
-            return np.sqrt(C/A), -np.sqrt(C/A)
+        if C/A<0:
+            return np.sqrt(-C/A), -np.sqrt(-C/A)
         else:
             return -0.0, -0.0
     if C==0 and A!= 0.0:
-- 
2.43.0


From 2604f2362a01329fff6a596d6be5fcf60006ae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:55 +0000
Subject: [PATCH 41/48] fix: ray averages when wavelengths lose different rays

---
 py/desimeter/transform/tan2fp/raytrace/RT185v2.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/py/desimeter/transform/tan2fp/raytrace/RT185v2.py b/py/desimeter/transform/tan2fp/raytrace/RT185v2.py
index f7f486f..b43893d 100755
--- a/py/desimeter/transform/tan2fp/raytrace/RT185v2.py
+++ b/py/desimeter/transform/tan2fp/raytrace/RT185v2.py
@@ -1663,12 +1663,12 @@ def getNine(wuv12s):
         ylist.append(xyzcArray[:,1])   # all rows column 1 = yfinal
         zlist.append(xyzcArray[:,2])   # all rows column 2 = zfinal
     print('RT185:getNine has extracted len(xlist) = ', len(xlist))
-    xave = np.average(xlist)
-    yave = np.average(ylist)
-    zave = np.average(zlist)
-    xrms = np.std(xlist)
-    yrms = np.std(ylist)
-    zrms = np.std(zlist)
+    xave = np.average(np.concatenate(xlist))
+    yave = np.average(np.concatenate(ylist))
+    zave = np.average(np.concatenate(zlist))
+    xrms = np.std(np.concatenate(xlist))
+    yrms = np.std(np.concatenate(ylist))
+    zrms = np.std(np.concatenate(zlist))
     resultstr = '{:9.3f}{:9.3f}{:6.0f}{:9.3f}{:9.3f}{:9.3f}{:9.3f}{:9.3f}{:9.3f}'.format(adc1, adc2, ngood, xave, yave, zave, xrms, yrms, zrms)
     print('RT185:getNine: ', resultstr)
     resultArray = np.array([adc1, adc2, ngood, xave, yave, zave, xrms, yrms, zrms])
-- 
2.43.0


From 0741625771f85b33a8658e9cca31cc1137f34795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:20 +0000
Subject: [PATCH 42/48] fix: delta_angle with single values and vectors mixed

---
 py/desimeter/transform/pos2ptl.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/py/desimeter/transform/pos2ptl.py b/py/desimeter/transform/pos2ptl.py
index f25dfad..06bf27b 100644
--- a/py/desimeter/transform/pos2ptl.py
+++ b/py/desimeter/transform/pos2ptl.py
@@ -288,9 +288,7 @@ def delta_angle(u_start, u_final, direction=0):
     OUTPUTS:
         delta_u ... angular distance (signed)
     '''
-    u_start = _to_numpy(u_start)
-    u_final = _to_numpy(u_final)
-    direction = np.ones(np.shape(u_start)) * _to_numpy(direction)
+    u_start, u_final, direction = np.broadcast_arrays(_to_numpy(u_start), _to_numpy(u_final), _to_numpy(direction))
     direction = np.sign(direction) # ensure vals are only +1, 0, or -1
     natural_delta = u_final - u_start
     zero_dir = direction == 0
-- 
2.43.0


From c44294964ab0ab00ff22eb912179a745cf5d0662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:20 +0000
Subject: [PATCH 43/48] fix: fvc_proc --make-directory makes the directory of
 the output transform

---
 py/desimeter/processfvc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 1254621..1ccb125 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -111,7 +111,7 @@ def preproc(args):
             if not os.path.exists(directory):
                 os.makedirs(directory)
         if args.output_transform is not None:
-            directory, _ = os.path.split(args.outfile)
+            directory, _ = os.path.split(args.output_transform)
             if directory != '':
                 if not os.path.exists(directory):
                     os.makedirs(directory)
-- 
2.43.0


From fe758f16a37bfb23ed6f5f4027a7376d581c53db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:20 +0000
Subject: [PATCH 44/48] fix: fvc_proc --extname last finds the last image when
 the numbers of the images do not start at 0

---
 py/desimeter/processfvc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 1ccb125..3e0fefc 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -141,9 +141,8 @@ def get_spots_list(args, log):
                 tmp_extnames = [k for k in fx.hdu_map.keys() if isinstance(k, str)]
                 tmp_extnames = [e.lower() for e in tmp_extnames]
                 extname = None
-                for i in range(len(tmp_extnames)):
-                    extname0 = f'f{i:04d}'
-                    if extname0 in tmp_extnames:
+                for extname0 in tmp_extnames:
+                    if len(extname0) == 5 and extname0[0] == 'f' and extname0[1:].isdigit():
                         extname = extname0
                 extnames.append(extname)
 
-- 
2.43.0


From a8a8cd13146707003d9458b3e34046e16a408d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:20 +0000
Subject: [PATCH 45/48] fix: process_fvc returned the spots of another image
 with the same name in another directory

---
 py/desimeter/processfvc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 3e0fefc..16bda32 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -5,6 +5,7 @@ import sys
 import copy
 import subprocess
 import argparse
+import hashlib
 from astropy.table import Table
 import numpy as np
 import fitsio
@@ -76,7 +77,9 @@ def process_fvc(filename, overwrite=False, use_subprocess=True):
 def get_outfilename(path_to_fits):
     out_dir = '/tmp'
     csv_name= path_to_fits.replace(".fits.fz",".csv").replace(".fits",".csv")
-    basename = os.path.basename(csv_name)
+    # images of the same name in different directories have different outputs
+    path_id = hashlib.md5(os.path.abspath(path_to_fits).encode()).hexdigest()[:8]
+    basename = os.path.basename(csv_name).replace(".csv","-{}.csv".format(path_id))
     out = os.path.join(out_dir, basename)
     return out
 
-- 
2.43.0


From fc3983b7aced4ad216cfbd27d0621e98e18406bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:08 +0000
Subject: [PATCH 46/48] fix: each call of spotmatch exchanges files with
 match_positions in a directory of its own

---
 py/desimeter/spotmatch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/spotmatch.py b/py/desimeter/spotmatch.py
index 2350598..04aebf6 100644
--- a/py/desimeter/spotmatch.py
+++ b/py/desimeter/spotmatch.py
@@ -278,7 +278,8 @@ def spotmatch(xpix,ypix,expected_x_fp=None,expected_y_fp=None,expected_location=
     fid_x_dir=-1
     fid_y_dir=1
 
-    tmp_dir=tempfile.gettempdir()
+    # private to this call : another process may be running spotmatch at the same time
+    tmp_dir=tempfile.mkdtemp(prefix="desimeter_spotmatch_")
 
     if fvc2fp is None :
         fvc2fp = FVC2FP.read(fvc2fp_filename())
@@ -377,6 +378,7 @@ def spotmatch(xpix,ypix,expected_x_fp=None,expected_y_fp=None,expected_location=
             err.append(float(vals[5]))
             device_type.append(vals[6])
     print("read {} entries in {}".format(len(xpix),match_centers_filename))
+    shutil.rmtree(tmp_dir)
 
     res=Table()
     res["LOCATION"]=location
-- 
2.43.0


From 71fa1704a523145192b45eb427c907582ac50579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:56 +0000
Subject: [PATCH 47/48] fix: guide stars whose proper motion is NaN in a fits
 catalog were dropped instead of taken as not moving

---
 py/desimeter/fieldmodel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index f03558e..fadf5b2 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -119,9 +119,9 @@ class FieldModel(object):
                 raise RuntimeError("Cannot compute proper motion correction because mjd=None")
 
             # if proper motions and reference epochs are there
-            pmra = catalog['pmra']
-            pmdec = catalog['pmdec']
-            # if unknown, zero out the pms
+            # if unknown, zero out the pms (not finite or masked, as are NaN values read from a fits file)
+            pmra = np.ma.filled(catalog['pmra'],0.)
+            pmdec = np.ma.filled(catalog['pmdec'],0.)
             pmra[~np.isfinite(pmra)] = 0
             pmdec[~np.isfinite(pmdec)] = 0
 
-- 
2.43.0


From a7e8aa2d3dc65fdb6c29b32c6cb98d78cc512c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:56 +0000
Subject: [PATCH 48/48] fix: robust_fit_circle discarded only the first outlier

---
 py/desimeter/circles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/circles.py b/py/desimeter/circles.py
index 6bb99f9..8aeb5c8 100644
--- a/py/desimeter/circles.py
+++ b/py/desimeter/circles.py
@@ -126,7 +126,7 @@ def robust_fit_circle(x, y, nsig=4., minerr=0.1):
         radii = np.hypot(x-xc, y-yc)
         res = np.abs(radii-r)
         rms = 1.483*np.median(res)
-        worst = np.argmax(res)
+        worst = np.argmax(np.where(ok,res,-1.)) # among the points still in the fit
         if (res[worst] < nsig*rms) or (res[worst] < minerr) :
             break
         ok[worst]=False
-- 
2.43.0

