From cbca5604236e4f8b69f7c50c235a9d713dae1c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 01/57] fix: mean ADC angle is stable when the two ADC angles
 describe the same direction

---
 py/desimeter/transform/tan2fp/raytracefit.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/py/desimeter/transform/tan2fp/raytracefit.py b/py/desimeter/transform/tan2fp/raytracefit.py
index 6c04c3a..74928cf 100644
--- a/py/desimeter/transform/tan2fp/raytracefit.py
+++ b/py/desimeter/transform/tan2fp/raytracefit.py
@@ -8,7 +8,7 @@ import numpy as np
 from scipy.interpolate import interp1d
 
 from desimeter.transform.zhaoburge import getZhaoBurgeXY, transform, fitZhaoBurge
-from desimeter.trig import average_angles_deg, put360
+from desimeter.trig import put360
 
 
 def average_angles_adc(adc1, adc2):
@@ -19,13 +19,11 @@ def average_angles_adc(adc1, adc2):
     correctly averages the "skinny ends" of the ADCs, so that the mean angle
     is halfway between the two skinny ends.
 
-    (adc1 - adc2) % 360 == 0 is special cased.  Here we define the average
-    angle to be adc1 in that case.  average_angles_deg would return
-    arctan2(0, 0) in that case, which isn't helpful.
+    This is adc1 when the two angles are the same direction.  It is computed
+    from the wrapped difference because the average of the two opposite
+    directions adc1+90 and adc2-90 would then be arctan2 of rounding errors.
     """
-    if ((adc1 - adc2) % 360) == 0:
-        return adc1 % 360
-    return average_angles_deg(adc1+90, adc2-90)
+    return put360(adc1 + delta_angles_adc(adc1, adc2)/2.)
 
 
 def delta_angles_adc(adc1, adc2):
-- 
2.43.0


From ebec12a74b015cc5020be0f8820b40db54f5cf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 02/57] fix: SimpleCorr and TanCorr can read the JSON they
 write

---
 py/desimeter/fieldmodel.py | 2 +-
 py/desimeter/simplecorr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 6fce584..9e4e747 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -338,7 +338,7 @@ class TanCorr(object):
     def fromjson(cls, jsonstring):
         tx = cls()
         params = json.loads(jsonstring)
-        assert params['name'] == "Tangent Plane Adjustment"
+        assert params['name'] in ("Tangent Plane Correction", "Tangent Plane Adjustment")
         assert params['version'] == '1'
         tx.dha = params['dha']
         tx.ddec = params['ddec']
diff --git a/py/desimeter/simplecorr.py b/py/desimeter/simplecorr.py
index 64f9c01..73f1bf1 100644
--- a/py/desimeter/simplecorr.py
+++ b/py/desimeter/simplecorr.py
@@ -36,7 +36,7 @@ class SimpleCorr(object):
     def fromjson(cls, jsonstring):
         tx = cls()
         params = json.loads(jsonstring)
-        assert params['name'] == "Tangent Plane Adjustment"
+        assert params['name'] == "Simple Correction"
         assert params['version'] == '1'
         tx.dx = params['dx']
         tx.dy = params['dy']
-- 
2.43.0


From 220ed9f9c4c972cbb9439aab3a203c57a9e5dc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 03/57] fix: similarity fits recover zero and quarter-turn
 rotations

---
 py/desimeter/fieldmodel.py |  6 +++---
 py/desimeter/simplecorr.py | 16 ++++++----------
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 9e4e747..7ec8043 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -423,9 +423,9 @@ class TanCorr(object):
 
         self.rot_deg = arctan2d(sa,ca)
 
-        sxy = sa*ax[1]+ca*ay[1] - sxx_p_syy*ca*sa
-        sxx =(ax[1]-sxy*sa)/ca
-        syy = (ay[1]-sxy*ca)/sa
+        sxx = ax[1]*ca - ax[2]*sa
+        sxy = ax[1]*sa + ax[2]*ca
+        syy = ay[1]*sa + ay[2]*ca
 
         self.sxx = sxx
         self.syy = syy
diff --git a/py/desimeter/simplecorr.py b/py/desimeter/simplecorr.py
index 73f1bf1..028f9f6 100644
--- a/py/desimeter/simplecorr.py
+++ b/py/desimeter/simplecorr.py
@@ -135,16 +135,12 @@ class SimpleCorr(object):
         sa=(ay[1]-ax[2])/sxx_p_syy
         ca=(ax[1]+ay[2])/sxx_p_syy
 
-        if sa != 0 :
-            self.rot_deg = arctan2d(sa,ca)
-
-            sxy = sa*ax[1]+ca*ay[1] - sxx_p_syy*ca*sa
-            sxx =(ax[1]-sxy*sa)/ca
-            syy = (ay[1]-sxy*ca)/sa
-        else :
-            sxx = ax[1]
-            syy = ay[2]
-            sxy = ax[2]
+        self.rot_deg = arctan2d(sa,ca)
+
+        sxx = ax[1]*ca - ax[2]*sa
+        sxy = ax[1]*sa + ax[2]*ca
+        syy = ay[1]*sa + ay[2]*ca
+
         self.sxx = sxx
         self.syy = syy
         self.sxy = sxy
-- 
2.43.0


From ec1bbdd57ae25b899cdcaeb244f74b0f4e2c09b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 04/57] fix: TanCorr.apply_inverse undoes the pointing offset
 of apply

---
 py/desimeter/fieldmodel.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 7ec8043..9b306df 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -443,10 +443,9 @@ class TanCorr(object):
         det = self.sxx*self.syy - self.sxy**2
         scale_matrix = np.array([[self.syy,-self.sxy],[-self.sxy,self.sxx]])/det
         rot_matrix = rot2deg(-self.rot_deg)
-        ha,dec  = xy2hadec(x,y,0,0)
-        x1t,y1t = hadec2xy(ha,dec,self.dha,self.ddec)
-        xy=rot_matrix.dot(scale_matrix.dot(np.array([x1t,y1t])))
-        return xy[0],xy[1]
+        xy=rot_matrix.dot(scale_matrix.dot(np.array([x,y])))
+        ha,dec  = xy2hadec(xy[0],xy[1],self.dha,self.ddec)
+        return hadec2xy(ha,dec,0,0)
 
 def fieldrot(ra,dec,mjd,lst_deg,hexrot_deg=0) :
     """
-- 
2.43.0


From a126617935d069b3d1c467d44f6da9f8788a89a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 05/57] fix: FieldModel JSON keeps the precession, aberration
 and polar misalignment switches

---
 py/desimeter/fieldmodel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 9b306df..efbabd1 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -50,6 +50,9 @@ class FieldModel(object):
         params['hexrot_deg'] = self.hexrot_deg
         params['adc1'] = self.adc1
         params['adc2'] = self.adc2
+        params['precession'] = self.precession
+        params['aberration'] = self.aberration
+        params['polar_misalignment'] = self.polar_misalignment
 
         params['sxx'] = self.sxx
         params['syy'] = self.syy
@@ -74,6 +77,9 @@ class FieldModel(object):
         tx.hexrot_deg = params['hexrot_deg']
         tx.adc1 = params['adc1']
         tx.adc2 = params['adc2']
+        for field in ['precession', 'aberration', 'polar_misalignment'] :
+            if field in params : # not in older files
+                setattr(tx, field, params[field])
 
         tx.sxx = params['sxx']
         tx.syy = params['syy']
-- 
2.43.0


From 88ae3efec61b6cd968cf115e4696bc2c8d6e2b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 06/57] fix: undo_refraction does not modify the caller's
 altitudes

---
 py/desimeter/transform/radec2tan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/transform/radec2tan.py b/py/desimeter/transform/radec2tan.py
index e1db337..bbec9d3 100644
--- a/py/desimeter/transform/radec2tan.py
+++ b/py/desimeter/transform/radec2tan.py
@@ -311,7 +311,7 @@ def undo_refraction(alt) :
     for _ in range(2) :
         da   = apply_refraction(alt) - alt
         dda  = da-daprev
-        alt -= dda
+        alt = alt - dda # not in place: alt may be the caller's array
         daprev = da
     return alt
 
-- 
2.43.0


From 4e4a12838c99a55f27d6bab214af2312d248b5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 07/57] fix: delta_angle accepts any mixture of scalars and
 vectors

---
 py/desimeter/transform/pos2ptl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/transform/pos2ptl.py b/py/desimeter/transform/pos2ptl.py
index f25dfad..166e3ba 100644
--- a/py/desimeter/transform/pos2ptl.py
+++ b/py/desimeter/transform/pos2ptl.py
@@ -290,7 +290,8 @@ def delta_angle(u_start, u_final, direction=0):
     '''
     u_start = _to_numpy(u_start)
     u_final = _to_numpy(u_final)
-    direction = np.ones(np.shape(u_start)) * _to_numpy(direction)
+    u_start, u_final, direction = np.broadcast_arrays(u_start, u_final, _to_numpy(direction))
+    direction = np.ones(np.shape(u_start)) * direction
     direction = np.sign(direction) # ensure vals are only +1, 0, or -1
     natural_delta = u_final - u_start
     zero_dir = direction == 0
-- 
2.43.0


From 63069649cef83161d8f2a28edbfe9bd8dec97b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 08/57] fix: pos2ptl conversions accept tuples of length one

---
 py/desimeter/transform/pos2ptl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/transform/pos2ptl.py b/py/desimeter/transform/pos2ptl.py
index 166e3ba..e4ed440 100644
--- a/py/desimeter/transform/pos2ptl.py
+++ b/py/desimeter/transform/pos2ptl.py
@@ -360,7 +360,7 @@ def ptl2int(x_ptl, y_ptl, r1, r2, t_offset, p_offset, x_offset, y_offset,
 
 def _to_numpy(u):
     '''Internal function to cast values to consistent numpy vectors.'''
-    if isinstance(u, list):
+    if isinstance(u, (list, tuple)):
         return np.array(u)
     if np.size(u) == 1:
         return np.array([float(u)])
@@ -372,6 +372,8 @@ def _to_list(u):
     '''Internal function to cast values to consistent python list vectors.'''
     if isinstance(u, list):
         return u
+    if isinstance(u, tuple):
+        return list(u)
     if np.size(u) == 1:
         if u == None:
             return [None]
-- 
2.43.0


From fc32386a81e9255b8191a60e5a8f2f817ff62243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 09/57] fix: focal-surface lookups from z return values instead
 of not-a-number

---
 py/desimeter/transform/rszn_lookups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/transform/rszn_lookups.py b/py/desimeter/transform/rszn_lookups.py
index 9edd713..f6ff642 100644
--- a/py/desimeter/transform/rszn_lookups.py
+++ b/py/desimeter/transform/rszn_lookups.py
@@ -47,7 +47,7 @@ def r2z(r):
 
 def z2r(z):
     '''Convert z (mm) to r (mm) on a nominal Echo22 focal surface.'''
-    return np.interp(z, Z, R, left=oob, right=oob)
+    return np.interp(-np.asarray(z), -Z, R, left=oob, right=oob) # Z decreases with R
 
 def r2n(r):
     '''Convert r (mm) to n (deg) on a nominal Echo22 focal surface.'''
-- 
2.43.0


From 66052b8c625afa7c30a2813ae10b13d9302efc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 10/57] fix: nominal positioner locations can be loaded

---
 py/desimeter/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/io.py b/py/desimeter/io.py
index a19013c..47205ed 100644
--- a/py/desimeter/io.py
+++ b/py/desimeter/io.py
@@ -68,7 +68,7 @@ def fvc_bias_filename():
     return os.path.join(desimeter_data_dir(),'bias.fits')
 
 def load_nominal_positioner_locations():
-    directory = resource_filename('desimeter', 'data')
+    directory = str(resource_files('desimeter').joinpath('data'))
     filename = 'positioner_locations_0530v18.csv'
     path = os.path.join(directory, filename)
     table = Table.read(path)
-- 
2.43.0


From a9cc725baaab316fbcc06085d59bde61a3773e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 11/57] fix: average_coordinates wrote the average in the
 caller's first table

---
 py/desimeter/averagecoord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/averagecoord.py b/py/desimeter/averagecoord.py
index 225791f..fc5f85c 100644
--- a/py/desimeter/averagecoord.py
+++ b/py/desimeter/averagecoord.py
@@ -22,7 +22,7 @@ def average_coordinates(tables,xkey,ykey) :
         x2=np.array(table[xkey])
         y2=np.array(table[ykey])
         if x1 is None :
-            table1=table
+            table1=table.copy() # the average is written in a copy, not in the input table
             x1=x2
             y1=y2
             indices=np.arange(len(x1),dtype=int)
-- 
2.43.0


From 7b0365561f19dceec6ce37536521a58df734c994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 12/57] fix: detect_phi_arm modified the caller's template

---
 py/desimeter/brightimage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/brightimage.py b/py/desimeter/brightimage.py
index 618de0c..f5f7c96 100644
--- a/py/desimeter/brightimage.py
+++ b/py/desimeter/brightimage.py
@@ -34,7 +34,7 @@ def detect_phi_arm(x,y,image,template,ang_step=1.,plot=False) :
     xgrid, ygrid = np.mgrid[-pad:pad+1,-pad:pad+1]
     mask = ((xgrid**2 + ygrid**2) < pad**2)
 
-    template *= mask
+    template = template*mask # do not modify the input template
     template /=np.sqrt(np.sum(template**2))
 
     best_angle = []
-- 
2.43.0


From 236253e8680d137d79438e30e94ddf7a6254d739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 13/57] fix: match_positioners failed when no spot is within
 reach of any positioner

---
 py/desimeter/match_positioners.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/match_positioners.py b/py/desimeter/match_positioners.py
index ff68367..311c356 100644
--- a/py/desimeter/match_positioners.py
+++ b/py/desimeter/match_positioners.py
@@ -130,7 +130,8 @@ def match_positioners(fvc, metr, calib, countthresh=80000,
                           fvc['X_FP'].data, fvc['Y_FP'].data,
                           np.max(metrarmlen)+0.1)
     okdistance = np.array([d0 < a0
-                           for (d0, a0) in zip(dmf, metrarmlen[mm])])
+                           for (d0, a0) in zip(dmf, metrarmlen[mm])],
+                          dtype=bool)
     mm = mm[okdistance]
     mf = mf[okdistance]
     dmf = dmf[okdistance]
-- 
2.43.0


From 8acc478e2fe8638d0711221384b6167a3ea02bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 14/57] fix: findfiducials used the input transform of the
 first call for all later calls

---
 py/desimeter/findfiducials.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/py/desimeter/findfiducials.py b/py/desimeter/findfiducials.py
index 6ddd75b..3a51960 100644
--- a/py/desimeter/findfiducials.py
+++ b/py/desimeter/findfiducials.py
@@ -41,20 +41,21 @@ def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
         log.debug("keep only the pinholes")
         metrology_pinholes_table = metrology_table[:][(metrology_table["DEVICE_TYPE"]=="FIF")|(metrology_table["DEVICE_TYPE"]=="GIF")]
 
-        # use input transform to convert X_FP,Y_FP to XPIX,YPIX
-        xpix,ypix = input_tx.fp2fvc(metrology_pinholes_table["X_FP"],metrology_pinholes_table["Y_FP"])
-        metrology_pinholes_table["XPIX"]=xpix
-        metrology_pinholes_table["YPIX"]=ypix
-
-        log.debug("define fiducial location as the most central dot")
-        central_pinholes=[]
-        for loc in np.unique(metrology_pinholes_table["LOCATION"]) :
-            ii=np.where(metrology_pinholes_table["LOCATION"]==loc)[0]
-            mx=np.mean(metrology_pinholes_table["XPIX"][ii])
-            my=np.mean(metrology_pinholes_table["YPIX"][ii])
-            k=np.argmin((metrology_pinholes_table["XPIX"][ii]-mx)**2+(metrology_pinholes_table["YPIX"][ii]-my)**2)
-            central_pinholes.append(ii[k])
-        metrology_fiducials_table = metrology_pinholes_table[:][central_pinholes]
+    # use input transform to convert X_FP,Y_FP to XPIX,YPIX
+    # (always, because the input transform can differ from that of a previous call)
+    xpix,ypix = input_tx.fp2fvc(metrology_pinholes_table["X_FP"],metrology_pinholes_table["Y_FP"])
+    metrology_pinholes_table["XPIX"]=xpix
+    metrology_pinholes_table["YPIX"]=ypix
+
+    log.debug("define fiducial location as the most central dot")
+    central_pinholes=[]
+    for loc in np.unique(metrology_pinholes_table["LOCATION"]) :
+        ii=np.where(metrology_pinholes_table["LOCATION"]==loc)[0]
+        mx=np.mean(metrology_pinholes_table["XPIX"][ii])
+        my=np.mean(metrology_pinholes_table["YPIX"][ii])
+        k=np.argmin((metrology_pinholes_table["XPIX"][ii]-mx)**2+(metrology_pinholes_table["YPIX"][ii]-my)**2)
+        central_pinholes.append(ii[k])
+    metrology_fiducials_table = metrology_pinholes_table[:][central_pinholes]
 
     # find fiducials candidates
     log.info("select spots with at least two close neighbors (in pixel units)")
-- 
2.43.0


From df87b476e32a0f6557ee3b5cda601a989850a63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 15/57] fix: detectspots failed or returned wrong centroids for
 spots near the image border

---
 py/desimeter/detectspots.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index b121d18..f108248 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -62,16 +62,19 @@ def dpsfdyc(i0,i1,xc,yc,sigma):
     a=1/(np.sqrt(2)*sigma)
     return -a*0.25*2/np.sqrt(np.pi)*(erf(a*(i1+0.5-xc))-erf(a*(i1-0.5-xc)))*(np.exp(-(a*(i0+0.5-yc))**2)-np.exp(-(a*(i0-0.5-yc))**2))
 
-def fitcentroid_gaussian(stamp,sigma=1.,noise=10.):
+def fitcentroid_gaussian(stamp,sigma=1.,noise=10.,x0=None,y0=None):
     """
     fit the centroid of a 2D image square stamp of size (2*hw+1,2*hw+1)
     in a coordinate system centered on the stamp, i.e. the central pixel has coordinates = (0,0)
+    unless another pixel of the stamp is given by x0,y0 (for stamps truncated at the edge of the image)
     """
     # iterative gauss-newton fit
     n0=stamp.shape[0]
     n1=stamp.shape[1]
-    xc=float(n1//2)
-    yc=float(n0//2)
+    if x0 is None : x0=n1//2
+    if y0 is None : y0=n0//2
+    xc=float(x0)
+    yc=float(y0)
     flux=np.sum(stamp)
     #print(flux,xc,yc)
     mod    = np.zeros(stamp.shape)
@@ -101,8 +104,8 @@ def fitcentroid_gaussian(stamp,sigma=1.,noise=10.):
         if np.abs(delta[1])<0.001 and np.abs(delta[2])<0.001: break
 
     # coordinates should be zero at center of stamp
-    xc -= float(n1//2)
-    yc -= float(n0//2)
+    xc -= float(x0)
+    yc -= float(y0)
 
     xe = noise * np.sqrt(Ai[1,1])
     ye = noise * np.sqrt(Ai[2,2])
@@ -111,13 +114,14 @@ def fitcentroid_gaussian(stamp,sigma=1.,noise=10.):
     #sys.exit(12)
 
 
-def fitcentroid(stamp,noise=10.):
+def fitcentroid(stamp,noise=10.,x0=None,y0=None):
     """
     fit the centroid of a 2D image square stamp of size (2*hw+1,2*hw+1)
     in a coordinate system centered on the stamp, i.e. the central pixel has coordinates = (0,0)
+    unless another pixel of the stamp is given by x0,y0 (for stamps truncated at the edge of the image)
     """
 
-    return fitcentroid_gaussian(stamp,sigma=1,noise=noise)
+    return fitcentroid_gaussian(stamp,sigma=1,noise=noise,x0=x0,y0=y0)
     #return fitcentroid_barycenter(stamp)
 
 
@@ -215,7 +219,9 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
         i0=index//n1
         i1=index%n1
         if 1: #try :
-            x,y,ex,ey,c=fitcentroid(fvcimage[i0-hw:i0+hw+1,i1-hw:i1+hw+1],noise=fvcimage_rms)
+            b0=max(i0-hw,0)
+            b1=max(i1-hw,0)
+            x,y,ex,ey,c=fitcentroid(fvcimage[b0:i0+hw+1,b1:i1+hw+1],noise=fvcimage_rms,x0=i1-b1,y0=i0-b0)
             xpix[j] = x + i1 + xoffset #  x is along axis=1 in python , also adding offset (definition of pixel coordinates)
             ypix[j] = y + i0 + yoffset #  y is along axis=0 in python , also adding offset (definition of pixel coordinates)
             xerr[j] = ex
-- 
2.43.0


From 4150879e02ee2c1966eacd8305be264f53a2d272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 16/57] fix: --make-directory did not make the directory of the
 output transform

---
 py/desimeter/processfvc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 595250b..807f48c 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -110,7 +110,7 @@ def preproc(args):
             if not os.path.exists(directory):
                 os.makedirs(directory)
         if args.output_transform is not None:
-            directory, _ = os.path.split(args.outfile)
+            directory, _ = os.path.split(args.output_transform)
             if directory != '':
                 if not os.path.exists(directory):
                     os.makedirs(directory)
-- 
2.43.0


From 9b6314a0671b1df57c3637522d8969d3b0e87340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 17/57] fix: with spotmatch, the output expected positions of
 fibers were the positioner centers and those of fiducials one of the pinholes

---
 py/desimeter/processfvc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 807f48c..48a1592 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -301,7 +301,7 @@ def fvc_proc(args, log):
             spots["X_FP_EXP"][ii]=expected_pos["X_FP"][jj]
             spots["Y_FP_EXP"][ii]=expected_pos["Y_FP"][jj]
 
-            metrology = load_metrology()
+            # metrology has a single entry per fiducial here, with the coordinates of its center
             ii=[]
             jj=[]
             for j,loc in enumerate(metrology["LOCATION"]) :
@@ -358,10 +358,10 @@ def fvc_proc(args, log):
             spots["Y_FP"][selection] = new_y
 
         if "X_FP_METRO" in spots.dtype.names :
-            # for spots with metrology X_FP_EXP=X_FP_METRO
-            selection = (spots["X_FP_METRO"]!=0)
+            # for fiducials with metrology X_FP_EXP=X_FP_METRO
+            selection = (spots["X_FP_METRO"]!=0)&(spots["PINHOLE_ID"]>0)
             spots["X_FP_EXP"][selection]=spots["X_FP_METRO"][selection]
-            selection = (spots["Y_FP_METRO"]!=0)
+            selection = (spots["Y_FP_METRO"]!=0)&(spots["PINHOLE_ID"]>0)
             spots["Y_FP_EXP"][selection]=spots["Y_FP_METRO"][selection]
 
         # write transfo
-- 
2.43.0


From 5aa2e8f743aed143f69142eeafea58cab1210d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:21 +0000
Subject: [PATCH 18/57] fix: with spotmatch, an unmatched spot was given the
 position of a metrology entry without location

---
 py/desimeter/processfvc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 48a1592..3478ce6 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -290,7 +290,7 @@ def fvc_proc(args, log):
             spots["X_FP"],spots["Y_FP"] = tx.fvc2fp(spots["XPIX"],spots["YPIX"])
 
             is_matched = (spots["LOCATION"]>=0)
-            loc2i = {loc:i for i,loc in enumerate(spots["LOCATION"])}
+            loc2i = {loc:i for i,loc in enumerate(spots["LOCATION"]) if loc>=0}
 
             ii=[]
             jj=[]
-- 
2.43.0


From 09c5d702f7c61894d470fd7c2f5a664b342121e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 19/57] fix: fiberassign_cs5_xy2radec did not invert
 fiberassign_radec2xy_cs5 in platemaker coordinates

---
 py/desimeter/fiberassign.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/fiberassign.py b/py/desimeter/fiberassign.py
index 1fa0db5..a080b36 100644
--- a/py/desimeter/fiberassign.py
+++ b/py/desimeter/fiberassign.py
@@ -234,11 +234,13 @@ def fiberassign_cs5_xy2radec(xfp,yfp,tile_ra,tile_dec,tile_mjd,tile_ha,tile_fiel
         tel_dec += ddec
 
     if from_platemaker :
-        # apply tranformation from desimeter to platemater
+        # apply tranformation from platemater to desimeter
         dm2pm = DM2PM.read(dm2pm_filename())
-        xfp,yfp = dm2pm.pm2dm(xfp,yfp)
+        tmp_xfp,tmp_yfp = dm2pm.pm2dm(xfp,yfp)
+    else :
+        tmp_xfp,tmp_yfp = xfp,yfp
 
-    xtan,ytan = fp2tan(xfp,yfp,adc1,adc2)
+    xtan,ytan = fp2tan(tmp_xfp,tmp_yfp,adc1,adc2)
     tmp_ra,tmp_dec    = tan2radec(xtan,ytan,tel_ra,tel_dec,tile_mjd,lst,hexrot_deg=0, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)
 
     # need to deal with field rotation
@@ -251,6 +253,9 @@ def fiberassign_cs5_xy2radec(xfp,yfp,tile_ra,tile_dec,tile_mjd,tile_ha,tile_fiel
     tmp_xfp = c * xfp + s * yfp
     tmp_yfp = -s * xfp + c * yfp
 
+    if from_platemaker :
+        tmp_xfp,tmp_yfp = dm2pm.pm2dm(tmp_xfp,tmp_yfp)
+
     xtan,ytan      = fp2tan(tmp_xfp,tmp_yfp,adc1,adc2)
     ra,dec = tan2radec(xtan,ytan,tel_ra,tel_dec,tile_mjd,lst,hexrot_deg=0, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)
 
-- 
2.43.0


From 3b6dbc6669d4588fcb4f23f9df30513d14c8f716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 20/57] fix: read_guide_stars_catalog dropped stars with
 coordinates on either side of RA=0

---
 py/desimeter/fieldmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index efbabd1..ef8619f 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -141,7 +141,7 @@ class FieldModel(object):
             dec_column = 'dec_gaia'
             log.warning("No proper motion info in catalog")
 
-        match_dra  = (catalog["ra"]-catalog[ra_column])*cosd(catalog[dec_column]) * 3600. # arcsec
+        match_dra  = ((catalog["ra"]-catalog[ra_column]+180.)%360.-180.)*cosd(catalog[dec_column]) * 3600. # arcsec
         match_ddec = (catalog["dec"]-catalog[dec_column]) * 3600. # arcsec
 
         dr = np.hypot(match_dra, match_ddec)
-- 
2.43.0


From 09b5d73240ed189debe343e4b6adebdce354887a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 21/57] fix: guide stars of fits catalogs with an unknown
 proper motion were dropped

---
 py/desimeter/fieldmodel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index ef8619f..5351728 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -116,9 +116,9 @@ class FieldModel(object):
                 raise RuntimeError("Cannot compute proper motion correction because mjd=None")
 
             # if proper motions and reference epochs are there
-            pmra = catalog['pmra']
-            pmdec = catalog['pmdec']
-            # if unknown, zero out the pms
+            # if unknown, zero out the pms (NaN in fits files are read as masked entries)
+            pmra = np.ma.filled(catalog['pmra'], 0.)
+            pmdec = np.ma.filled(catalog['pmdec'], 0.)
             pmra[~np.isfinite(pmra)] = 0
             pmdec[~np.isfinite(pmdec)] = 0
 
-- 
2.43.0


From a43f548a4c8cb088de18916bb437a298431e2245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 22/57] fix: correct_using_stationary failed with a positioner
 without coordinates

---
 py/desimeter/turbulence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index a1554b9..4bd13aa 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -398,14 +398,14 @@ def correct_using_stationary(xs, ys, x0s, y0s, xc, yc,
             np.isfinite(data['dx']) & np.isfinite(data['dy']))
     data = data[mask]
     if clip_resid > 0:
-        tmask = mask.copy()
+        tmask = np.ones(len(data), dtype=bool)
         for c in (data['dx'], data['dy']):
             med = np.median(c)
             sd = mad_std(c)
             tmask &= (c > med - 5*sd) & (c < med + 5*sd)
         if np.any(tmask):
             data = data[tmask]
-            mask = mask & tmask
+            mask[mask] &= tmask
         # here using only stationary positioners
         xturb, yturb, _ = solve_independent(
             data, nuse=500, excludeself=False,
-- 
2.43.0


From d2a360fee5604d972e59e62edc124ad9662756ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 23/57] fix: correct_using_stationary ignored the value of
 clip_resid

---
 py/desimeter/turbulence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index 4bd13aa..e825212 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -412,7 +412,7 @@ def correct_using_stationary(xs, ys, x0s, y0s, xc, yc,
             method='powell', fix_covar=True,
             scale_covar=scale_covar)
         offset = np.hypot(data['dx'] - xturb, data['dy'] - yturb)
-        tmask = offset < 0.01  # 10 microns
+        tmask = offset < clip_resid
         data = data[tmask]
         mask[mask] &= tmask
         if np.sum(~mask) > 0:
-- 
2.43.0


From e50fce6568d2941cacaf366472a96ff863e9298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 24/57] fix: empirical_covariance returned more values than
 bins when pairs lie beyond the last edge

---
 py/desimeter/turbulence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index e825212..802c37f 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -622,7 +622,7 @@ def empirical_covariance(data, bins=10, edges=None):
     else:
         edges = np.linspace(np.min(dist), np.max(dist)+0.1, bins+1)
     ind = np.searchsorted(edges, dist, side='right')-1
-    m = ind >= 0
+    m = (ind >= 0) & (ind < bins)
     ncount = np.bincount(ind[m], minlength=bins)
     ncount = ncount + (ncount == 0)
     dx1dx2 = np.bincount(ind[m], weights=dx1dx2[m], minlength=bins)
-- 
2.43.0


From 7e07a99a760782e25f6198c9257ee224d6c08699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 25/57] fix: robust_fit_circle never rejected more than one
 outlier

---
 py/desimeter/circles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/circles.py b/py/desimeter/circles.py
index 6306858..77a98f9 100644
--- a/py/desimeter/circles.py
+++ b/py/desimeter/circles.py
@@ -126,7 +126,7 @@ def robust_fit_circle(x, y, nsig=4., minerr=0.1):
         radii = np.hypot(x-xc, y-yc)
         res = np.abs(radii-r)
         rms = 1.483*np.median(res)
-        worst = np.argmax(res)
+        worst = np.argmax(np.where(ok,res,0.)) # of those not yet rejected
         if (res[worst] < nsig*rms) or (res[worst] < minerr) :
             break
         ok[worst]=False
-- 
2.43.0


From afff89216f8338d3b341e440582cd3b1dc37f09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 26/57] fix: fit_params modified the default parameter tables
 and those of the caller

---
 py/desimeter/posparams/fitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index b1bead3..9dd03c0 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -122,6 +122,9 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
         bounds = default_bounds
     if keep_fixed is None:
         keep_fixed = []
+    # work on copies, this routine adds and modifies entries
+    nominals = dict(nominals)
+    bounds = dict(bounds)
     # arg checking
     assert len(posintT) == len(posintP) == len(ptlX) == len(ptlY) == len(gearT) == len(gearP) == len(recent_rehome) == len(sequence_id)
     assert all(isinstance(arg, list) for arg in (posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequence_id))
-- 
2.43.0


From 01f839b136c507e90555e86a1e5e00e7b90d4877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 27/57] fix: fit_params raised KeyError instead of returning
 FAILED_FIT after rejecting too many outliers

---
 py/desimeter/posparams/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index 9dd03c0..2b915ff 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -386,7 +386,7 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
         if npts<npar :
             message="ERROR: not enough remaining points ({} points) to fit calibration ({} params)".format(npts,npar)
             print(message)
-            flags |= movemask['FIT_FAILED']
+            flags |= movemask['FAILED_FIT']
             best_params = {"FLAGS": flags}
             covariance_dict = dict()
             rms_of_residuals = 0.
-- 
2.43.0


From 6875a92136dd6e11fe3c97255c931ea635072de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 28/57] fix: dynamic fit failed with KeyError when one of the
 scales is kept fixed

---
 py/desimeter/posparams/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index 2b915ff..48b1aea 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -290,8 +290,8 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
             t_int_expected = t_int
             p_int_expected = p_int
         else:
-            dt_int_scaled = dt_int * params[param_idx['SCALE_T']]
-            dp_int_scaled = dp_int * params[param_idx['SCALE_P']]
+            dt_int_scaled = dt_int * p0['SCALE_T']
+            dp_int_scaled = dp_int * p0['SCALE_P']
             t_int_expected = measured_t_int_0 + dt_int_scaled
             p_int_expected = measured_p_int_0 + dp_int_scaled
 
-- 
2.43.0


From 9b66f86bca87a9c224e3c7d58b4fc080f6f9274a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 29/57] fix: fit of OFFSET_T could stay blocked at its bound,
 away from the solution

---
 py/desimeter/posparams/fitter.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index 48b1aea..9ba2eab 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -350,6 +350,19 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
                                                    x0=initial_params,
                                                    bounds=bounds_vector)
 
+        # OFFSET_T is an angle: if it is blocked at a bound, try again from the
+        # same angle on the other side of the circle
+        if 'OFFSET_T' in param_idx :
+            i = param_idx['OFFSET_T']
+            if optimizer_result.x[i] in bounds_vector[i] :
+                other_params = optimizer_result.x.copy()
+                other_params[i] = wrap_at_180(other_params[i])
+                other_result = scipy.optimize.minimize(fun=compute_chi2,
+                                                       x0=other_params,
+                                                       bounds=bounds_vector)
+                if other_result.fun < optimizer_result.fun :
+                    optimizer_result = other_result
+
         x_exp, y_exp = expected_xy(optimizer_result.x)
         dist = np.sqrt( (x_exp - x_flat)**2 + (y_exp - y_flat)**2 )
         meddist = np.median(dist)
-- 
2.43.0


From e97977c6722f2752dedd5753be766b978208f156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 30/57] fix: posparams fit with more than ten exposures failed
 with KeyError (EPSILON columns renamed twice)

---
 py/desimeter/posparams/fithandler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index 5cb6e72..2c0e22c 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -469,9 +469,11 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
         for key in output_keys :
             if output_keys[key] :
                 for key2 in table.dtype.names :
-                    if key2.find(key)>=0 :
-                        key2_xxx=key2.replace(key,key + _mode_suffix(mode))
-                        table.rename_column(key2,key2_xxx)
+                    # compare complete names, because EPSILON_T_1 is also in EPSILON_T_10
+                    parts=key2.split('.')
+                    if key in parts :
+                        parts=[part + _mode_suffix(mode) if part==key else part for part in parts]
+                        table.rename_column(key2,'.'.join(parts))
 
     return table
 
-- 
2.43.0


From b8ae11dacbff9627a4dce8358d816f2425f82e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 31/57] fix: posparams fit in several windows exited when an
 exposure was missing from the first window

---
 py/desimeter/posparams/fithandler.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index 2c0e22c..2ec4b30 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -357,7 +357,8 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
     '''
     table.sort('DATE_SEC') # to ensure consistent ordering as in _define_cases
     posid = _get_posid(table)
-    output = {col:[] for col in output_keys}
+    has_mode = output_keys.copy() # will also have the EPSILON parameters of this table
+    output = {col:[] for col in has_mode}
     # add covariances
     fitted_keys=list(fitter.static_keys)+list(fitter.dynamic_keys)
     for i1,col1 in enumerate(list(fitted_keys)) :
@@ -404,8 +405,9 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
                 #print("warning adding key={} which was not in fitted_keys={}".format(key,fitted_keys))
                 fitted_keys.append(key)
                 if key not in output.keys() :
-                    output[key] = list()
-                    output_keys[key]=True
+                    # no value for the previous cases
+                    output[key] = [0.]*(len(output['POS_ID'])-1)
+                    has_mode[key] = True
 
         for i1,key1 in enumerate(fitted_keys):
             if key1 in params.keys() :
@@ -466,8 +468,8 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
                 table[ekey]=np.sqrt(table[ekey])
 
     if True :  # adding _STATIC or _DYNAMIC to the parameters and covariance
-        for key in output_keys :
-            if output_keys[key] :
+        for key in has_mode :
+            if has_mode[key] :
                 for key2 in table.dtype.names :
                     # compare complete names, because EPSILON_T_1 is also in EPSILON_T_10
                     parts=key2.split('.')
-- 
2.43.0


From 24791245b4cd6abc662390d185be0340bfde56f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 32/57] fix: posparams fit of a table without DATE, POS_T or
 POS_P raised an exception instead of reporting INVALID_TABLE

---
 py/desimeter/posparams/fithandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index 2ec4b30..d8dad5a 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -180,6 +180,9 @@ def _read(posid, path, printf=print, log_note_selection=None,force_recent_rehome
     typecast_funcs = {'CTRL_ENABLED': _str2bool}
     table = Table.read(path)
 
+    if not all(key in table.columns for key in required_keys):
+        return None
+
     if not 'GEAR_CALIB_T' in table.dtype.names :
         print('WARNING: no GEAR_CALIB_T in table, set it to 1')
         table['GEAR_CALIB_T'] = np.ones(len(table['POS_T']))
-- 
2.43.0


From deea4c9ee5f8966a43efadb06fe204889392ae2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 33/57] fix: get_posmoves_with_fvc_data_using_dates lost the
 list of images after the first petal

---
 bin/get_posmoves_with_fvc_data_using_dates | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bin/get_posmoves_with_fvc_data_using_dates b/bin/get_posmoves_with_fvc_data_using_dates
index 45164da..437c402 100755
--- a/bin/get_posmoves_with_fvc_data_using_dates
+++ b/bin/get_posmoves_with_fvc_data_using_dates
@@ -111,8 +111,8 @@ for petalid in petalids :
             #dmt_deltat[i]=tstamp_fvc[j[0]]-tstamp[i]
         else :
             dmt_index[i]=len(dmt)-1
-    tstamp_fvc=tstamp_fvc[dmt_index]
-    dmt_deltat=tstamp_fvc+args.clock_offset-tstamp_posmovedb
+    tstamp_fvc_matched=tstamp_fvc[dmt_index]
+    dmt_deltat=tstamp_fvc_matched+args.clock_offset-tstamp_posmovedb
     selection = np.where((dmt_deltat>=0)&(dmt_deltat<=args.deltat_max))[0] # FVC image less than n seconds after move
     print("number of matched FVC images= {}".format(len(selection)))
     #selected_date=date[selection]
@@ -144,7 +144,7 @@ for petalid in petalids :
                 kk=np.where(dmt_xytable["LOCATION"]==loc)[0]
                 if kk.size>0 :
                     posid_tstamp_posmovedb[posid].append(tstamp_posmovedb[i])
-                    posid_tstamp_fvc[posid].append(tstamp_fvc[i])
+                    posid_tstamp_fvc[posid].append(tstamp_fvc_matched[i])
                     posid_deltat[posid].append(dmt_deltat[i])
                     posid_x_dmt[posid].append(dmt_xytable["X_FP"][kk[0]])
                     posid_y_dmt[posid].append(dmt_xytable["Y_FP"][kk[0]])
@@ -197,7 +197,7 @@ for petalid in petalids :
         x_dmt = posid_x_dmt[posid][jj]
         y_dmt = posid_y_dmt[posid][jj]
         deltat = posid_deltat[posid][jj]
-        tstamp_fvc = posid_tstamp_fvc[posid][jj]
+        posid_tstamp_fvc[posid] = posid_tstamp_fvc[posid][jj]
 
         if not args.nocalib :
 
@@ -243,7 +243,7 @@ for petalid in petalids :
         ot["Y_FP"]  = y_dmt[jj]
         ot["DELTAT"]  = deltat[jj]
         ot["TSTAMP_POSMOVE"]  = tstamp_posmovedb[jj]
-        ot["TSTAMP_FVC"]  = tstamp_fvc[jj]
+        ot["TSTAMP_FVC"]  = posid_tstamp_fvc[posid][jj]
 
         if not os.path.isdir(args.outdir) :
             os.makedirs(args.outdir)
-- 
2.43.0


From fcca9b4908bb06088e033fc28dfd2a776c55523f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 34/57] fix: get_posmoves --enabled-history without
 --tp-updates failed with KeyError X_FP

---
 bin/get_posmoves | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/get_posmoves b/bin/get_posmoves
index f9c8036..f8c85c4 100755
--- a/bin/get_posmoves
+++ b/bin/get_posmoves
@@ -212,7 +212,7 @@ for petalid in petalids :
             otable = otable[selection]
 
         # remove non measured entries
-        if not args.tp_updates:
+        if not args.tp_updates and not args.enabled_history:
             ok=(otable["X_FP"] != None)
             otable=otable[ok]
 
-- 
2.43.0


From 328461afd5a8bb6c4a9a8523ee82778a8f7466dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 35/57] fix: get_posmoves --pos-ids movers selected no
 positioner

---
 bin/get_posmoves | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/get_posmoves b/bin/get_posmoves
index f8c85c4..5448622 100755
--- a/bin/get_posmoves
+++ b/bin/get_posmoves
@@ -75,7 +75,7 @@ if args.enabled_history:
 else:
     desired_fields = {'moves': '*', 'calib': '*'}
 
-if args.pos_ids is not None :
+if args.pos_ids is not None and args.pos_ids != 'movers' :
     only_posids = args.pos_ids.split(",")
 else :
     only_posids = None
-- 
2.43.0


From ecf69f780d9ebc90b0efc2d122ed9ea226c92de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 36/57] fix: get_posmoves --tp-updates ignored the updates
 following the move of index 0

---
 bin/get_posmoves | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/get_posmoves b/bin/get_posmoves
index 5448622..803733f 100755
--- a/bin/get_posmoves
+++ b/bin/get_posmoves
@@ -126,7 +126,7 @@ for petalid in petalids :
                 cmd_idx += f' and {cmd_exp}'
             cmd += order_by 
             result = dbquery(comm, cmd_idx)
-            if any(result['pos_move_index']):
+            if len(result['pos_move_index'])>0:
                 min_idx = min(result['pos_move_index'])
                 max_idx = max(result['pos_move_index'])
                 max_idx += 1  # capture any tp_updates from just after the exposure or exp iteration
-- 
2.43.0


From 5e07e938ad94a238bea31a233996d123ce684290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 37/57] fix: get_posparams exited with status 12 after success

---
 bin/get_posparams | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/bin/get_posparams b/bin/get_posparams
index c2a19f9..6a5881b 100755
--- a/bin/get_posparams
+++ b/bin/get_posparams
@@ -95,6 +95,3 @@ for name in results.keys() :
     table[name]=results[name]
 table.write(args.outfile,overwrite=True)
 print("wrote",args.outfile)
-
-
-sys.exit(12)
-- 
2.43.0


From 26c1080183b2649aacf59dbb4e2ce93b19d651ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 38/57] fix: get_poscoords used for all positioners the
 calibration in force at the last move of the list

---
 bin/get_poscoords | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bin/get_poscoords b/bin/get_poscoords
index 3d2c70d..281f0c8 100755
--- a/bin/get_poscoords
+++ b/bin/get_poscoords
@@ -91,11 +91,10 @@ for petalid in petalids :
             if k not in posmoves :
                 posmoves[k]=np.zeros(npos)
 
-        for t in tstamp_posmovedb :
-            j=np.where(tstamp_calib<t)[0][-1]
-            for k in calib.keys() :
-                if k == 'time_recorded' : continue
-                posmoves[k][postableindex] = calib[k][j]
+        j=np.where(tstamp_calib<tstamp_posmovedb[postableindex])[0][-1]
+        for k in calib.keys() :
+            if k == 'time_recorded' : continue
+            posmoves[k][postableindex] = calib[k][j]
 
     # by default convert keys to upper case,
     # but with special cases (of course),
-- 
2.43.0


From 17416a3484a9731c2a8ef03c72bcf5b181b4db80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 39/57] fix: get_poscoords could not merge petals when one of
 them has unmeasured positioners only in part

---
 bin/get_poscoords | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bin/get_poscoords b/bin/get_poscoords
index 281f0c8..3643bb3 100755
--- a/bin/get_poscoords
+++ b/bin/get_poscoords
@@ -118,6 +118,11 @@ for petalid in petalids :
     if otable is None :
         otable = table
     else :
+        # columns with missing values (None) in one of the petals only
+        for k in table.dtype.names :
+            if (table[k].dtype==object)!=(otable[k].dtype==object) :
+                table[k]  = table[k].astype(object)
+                otable[k] = otable[k].astype(object)
         otable = vstack([otable,table])
 
 # now compute expected positions
-- 
2.43.0


From 31144de3eca528972ecf194f5717821ffa8b3b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:25 +0000
Subject: [PATCH 40/57] fix: prepare_posparams_for_instr failed when no value
 of the table is missing

---
 bin/prepare_posparams_for_instr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/prepare_posparams_for_instr b/bin/prepare_posparams_for_instr
index b7d78e2..e25ad76 100755
--- a/bin/prepare_posparams_for_instr
+++ b/bin/prepare_posparams_for_instr
@@ -247,7 +247,7 @@ required_keys = {'POS_ID', 'FLAGS', 'DEVICE_LOC', 'NUM_POINTS', 'DATA_END_DATE',
 required_keys |= set(fitter.static_keys)
 if uargs.allow_scale:
     required_keys |= {'FIT_ERROR_DYNAMIC', 'NUM_POINTS_IN_FIT_DYNAMIC'}
-mask_table = new_table.mask
+mask_table = Table(new_table, masked=True).mask  # also defined if nothing is masked
 masked_list = mask_table['POS_ID']
 for key in required_keys:
     masked_list |= mask_table[key]
-- 
2.43.0


From d6097cbb92b460c2a7cc439c2992cc2a08af2f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 41/57] fix: prepare_posparams_for_instr compared the option
 chosen among repeated rows with row numbers of the table

---
 bin/prepare_posparams_for_instr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/prepare_posparams_for_instr b/bin/prepare_posparams_for_instr
index e25ad76..11325f8 100755
--- a/bin/prepare_posparams_for_instr
+++ b/bin/prepare_posparams_for_instr
@@ -415,7 +415,7 @@ def check_uniqueness(table):
                 logger.info(f'All {len(row_idxs)} rows for {posid} skipped (removed from table)')
                 retry = False
             elif user_input in {str(i) for i in options.keys()}:
-                delete_idxs = row_idxs[row_idxs != int(user_input)]
+                delete_idxs = np.delete(row_idxs, int(user_input))
                 new.remove_rows(delete_idxs)
                 logger.info(f'{len(delete_idxs)} rows for {posid} removed')
                 n_remaining = len(get_row_idxs(new, posid))
-- 
2.43.0


From 4e9b620676ef4baedc0349a374f5016f49e894e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 42/57] fix: prepare_posparams_for_instr failed when no row of
 the table passes the checks

---
 bin/prepare_posparams_for_instr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/prepare_posparams_for_instr b/bin/prepare_posparams_for_instr
index 11325f8..405f57f 100755
--- a/bin/prepare_posparams_for_instr
+++ b/bin/prepare_posparams_for_instr
@@ -544,7 +544,7 @@ delayed_log_notes = []  # delaying printout of these confirmation msgs makes int
 posids_to_commit = set()
 for key, commit_key in commit_keys.items():
     if key not in new_table.columns:
-        new_table[key] = np.nan  # no data
+        new_table[key] = np.full(len(new_table), np.nan)  # no data
         skip.add(key)
     if key in skip:
         set_val = False
@@ -574,7 +574,7 @@ for key, commit_key in commit_keys.items():
                 set_val = True
                 break
         method = 'set by user'
-    new_table[commit_key] = set_val
+    new_table[commit_key] = np.full(len(new_table), set_val)
     
     # 2020-12-10 [JHS] Do *NOT* commit anything for devices we are setting as nonfunctional.
     # Because in practice these are cases where we don't trust the calibration.
-- 
2.43.0


From aae91dfa8034b77490873f132d5c8eefd5d25d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 43/57] fix: prepare_posparams_for_instr --set-enabling failed
 when FLAGS is missing for a row

---
 bin/prepare_posparams_for_instr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/prepare_posparams_for_instr b/bin/prepare_posparams_for_instr
index 405f57f..4592ecd 100755
--- a/bin/prepare_posparams_for_instr
+++ b/bin/prepare_posparams_for_instr
@@ -260,7 +260,7 @@ def check_flags(table):
     # Internal details: Returns a copy of table.
     new = table.copy()
     for flag in movemask.names():
-        fail_list = [movemask[flag] & value for value in new['FLAGS']]
+        fail_list = [not np.ma.is_masked(value) and movemask[flag] & value for value in new['FLAGS']]
         new = _eliminate_rows(new, fail_list, f'flag {flag}', f'not {flag}')
     return new
 
-- 
2.43.0


From 047fc3998ca69cc61d5bc2cecbfb53ca320da86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:33 +0000
Subject: [PATCH 44/57] fix: prepare_posparams_for_instr failed when a POS_ID
 is missing

---
 bin/prepare_posparams_for_instr | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/prepare_posparams_for_instr b/bin/prepare_posparams_for_instr
index 4592ecd..f843fae 100755
--- a/bin/prepare_posparams_for_instr
+++ b/bin/prepare_posparams_for_instr
@@ -251,6 +251,7 @@ mask_table = Table(new_table, masked=True).mask  # also defined if nothing is ma
 masked_list = mask_table['POS_ID']
 for key in required_keys:
     masked_list |= mask_table[key]
+new_table['POS_ID'] = np.ma.filled(new_table['POS_ID'], '')
 new_table = _eliminate_rows(new_table, masked_list, 'paramfits file missing required value(s)', 'paramfits data complete')
 
 # check functions
-- 
2.43.0


From 44ad4de96f393b9e348956fda0e96d0758506673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:19 +0000
Subject: [PATCH 45/57] fix: desi_predict_fieldrot ignored the hexapod rotation
 of headers with FOCUS only and failed for those with HEXPOS only

---
 bin/desi_predict_fieldrot | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/desi_predict_fieldrot b/bin/desi_predict_fieldrot
index 195d195..04980f8 100755
--- a/bin/desi_predict_fieldrot
+++ b/bin/desi_predict_fieldrot
@@ -59,7 +59,7 @@ if args.fits_header is not None :
     else :
         lst = mjd2lst(mjd)
 
-    if "HEXPOS" in header :
+    if "FOCUS" in header :
          hexrot_deg = read_hexrot_deg(header)
 
 else :
-- 
2.43.0


From fb7c9941b26d3a52dbd993f5df7c3188981e4920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:19 +0000
Subject: [PATCH 46/57] fix: ok2move took neighbours that are exactly aligned
 on one side for a wedge

---
 bin/ok2move | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/ok2move b/bin/ok2move
index 22b7e38..5f7cf43 100755
--- a/bin/ok2move
+++ b/bin/ok2move
@@ -42,7 +42,7 @@ def find_neighbors(spots):
         v1 = np.array([dx[j], dy[j]])
         v2 = np.array([dx[k], dy[k]])
         cosangle = np.dot(v1, v2) / (np.linalg.norm(v1) * np.linalg.norm(v2))
-        angle[i] = np.rad2deg( np.arccos(cosangle) )
+        angle[i] = np.rad2deg( np.arccos(np.clip(cosangle, -1, 1)) )
 
     return indices, dist, angle
 
-- 
2.43.0


From c66ef65acfc6e299904971ebc3acc3faf75996a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:19 +0000
Subject: [PATCH 47/57] fix: get_logger ignored the log file if a logger of
 that level existed already

---
 py/desimeter/log.py | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/py/desimeter/log.py b/py/desimeter/log.py
index 332bca7..0de940f 100644
--- a/py/desimeter/log.py
+++ b/py/desimeter/log.py
@@ -33,6 +33,13 @@ def get_logger(level=None, path=None, timestamps=False):
     else:
         raise ValueError('Unknown log level {}; should be DEBUG/INFO/WARNING/ERROR/CRITICAL'.format(level))
 
+    # create formatter
+    kwargs = {'fmt': '%(levelname)s:%(filename)s:%(lineno)s:%(funcName)s:%(message)s'}
+    if timestamps:
+        kwargs['fmt'] = '%(asctime)s:' + kwargs['fmt']
+        kwargs['datefmt'] = '%Y%m%dT%H%M%S%z'
+    formatter = logging.Formatter(**kwargs)
+
     if level not in _loggers:
         logger = logging.getLogger('desimeter.'+level)
         logger.setLevel(loglevel)
@@ -44,30 +51,22 @@ def get_logger(level=None, path=None, timestamps=False):
         ch = logging.StreamHandler()
         ch.setLevel(loglevel)
 
-        # optionally create file handler, similarly
-        if path:
-            fh = logging.FileHandler(filename=path, mode='a', encoding='utf-8')
-            fh.setLevel(loglevel)
-        else:
-            fh = None
-
-        # create formatter
-        kwargs = {'fmt': '%(levelname)s:%(filename)s:%(lineno)s:%(funcName)s:%(message)s'}
-        if timestamps:
-            kwargs['fmt'] = '%(asctime)s:' + kwargs['fmt']
-            kwargs['datefmt'] = '%Y%m%dT%H%M%S%z'
-        formatter = logging.Formatter(**kwargs)
-
         # add formatter to ch
         ch.setFormatter(formatter)
-        if fh:
-            fh.setFormatter(formatter)
 
-        # add handlers to logger
+        # add handler to logger
         logger.addHandler(ch)
-        if fh:
-            logger.addHandler(fh)
 
         _loggers[level] = logger
 
+    # optionally create file handler, similarly, also when the logger of this level exists already
+    if path:
+        logger = _loggers[level]
+        files = [h.baseFilename for h in logger.handlers if isinstance(h, logging.FileHandler)]
+        if os.path.abspath(path) not in files:
+            fh = logging.FileHandler(filename=path, mode='a', encoding='utf-8')
+            fh.setLevel(loglevel)
+            fh.setFormatter(formatter)
+            logger.addHandler(fh)
+
     return _loggers[level]
-- 
2.43.0


From 5484365ddea716b4b28370045cdf485f11bf6a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:19 +0000
Subject: [PATCH 48/57] fix: merge_posparams gave failed fits a meaningless
 LOCATION

---
 bin/merge_posparams | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/merge_posparams b/bin/merge_posparams
index e96a59d..faed2c8 100755
--- a/bin/merge_posparams
+++ b/bin/merge_posparams
@@ -71,7 +71,7 @@ for table in tables :
 posparams = vstack(tables)
 if "LOCATION" not in posparams.dtype.names :
     if "PETAL_LOC" in posparams.dtype.names and "DEVICE_LOC" in posparams.dtype.names :
-        posparams["LOCATION"]=1000*np.array(list(posparams["PETAL_LOC"])).astype(int)+np.array(list(posparams["DEVICE_LOC"])).astype(int)
+        posparams["LOCATION"]=1000*posparams["PETAL_LOC"].astype(int)+posparams["DEVICE_LOC"].astype(int)
 
 device_id_key="DEVICE_ID"
 if not device_id_key in posparams.dtype.names : # add device id because that's how it's called elsewhere in the code
-- 
2.43.0


From 1198a003546adeae58c29f7f743dbdd52de7c28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:19 +0000
Subject: [PATCH 49/57] fix: merge_posparams did not stop on a mismatch with
 metrology

---
 bin/merge_posparams | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/merge_posparams b/bin/merge_posparams
index faed2c8..21ea0aa 100755
--- a/bin/merge_posparams
+++ b/bin/merge_posparams
@@ -110,7 +110,7 @@ if not args.no_check and not args.no_metrology :
         for k in ["DEVICE_LOC","LOCATION","PETAL_LOC","PETAL_ID"] :
             if posparams[k][j] != metrology[k][i] :
                 log.error("for {}={} {}={} != {} from metrology".format(device_id_key,pid,k,posparams[k][j],metrology[k][i]))
-                has_errors = True
+                has_error = True
     if has_error :
         sys.exit(12)
 
-- 
2.43.0


From d513a6194999a36c0d2a9a6e7ce73a0f73431ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:35 +0000
Subject: [PATCH 50/57] fix: rms of residuals of a positioner fit divides by
 the number of points used

After outlier rejection the sum over the remaining points was divided by the
initial number of points, so that the rms, and the covariance scaled with it,
were too small.
---
 py/desimeter/posparams/fitter.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index 9ba2eab..172e392 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -186,7 +186,6 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
         yerr_ptl = np.array(ptlYerr)
 
     # pre-calculate any one-time coordinate transforms
-    n_pts = len(posintT)
     x_flat, y_flat = pos2ptl.ptl2flat(x_ptl, y_ptl)
 
     # compute numeric derivatives for error propagation
@@ -209,8 +208,6 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
                 bounds[k]=(-200.,200)
 
     if mode == 'dynamic':
-        n_pts -= 1 # since in dynamic mode we are using delta values
-
         # Note how measured_int0 depends on having been fed good "static" param
         # values. Also note extraction of only theta and phi from the tuple
         # returned by loc2int. The 2nd element is the "unreachable" boolean
@@ -313,7 +310,7 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
         err_x = x_exp - x_flat
         err_y = y_exp - y_flat
         sumsq = np.sum(err_x**2 + err_y**2)
-        return (sumsq / n_pts)**0.5
+        return (sumsq / x_flat.size)**0.5
 
     def compute_chi2(params):
         x_exp, y_exp = expected_xy(params)
-- 
2.43.0


From c5235c95d77c91796ed36b40d84fab54bb428406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:50 +0000
Subject: [PATCH 51/57] fix: no image count for the first iteration seen of an
 exposure

---
 bin/analyze_pos_performance        | 2 ++
 bin/analyze_pos_performance_legacy | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/bin/analyze_pos_performance b/bin/analyze_pos_performance
index 8f3ae63..36613a9 100755
--- a/bin/analyze_pos_performance
+++ b/bin/analyze_pos_performance
@@ -682,6 +682,8 @@ def detect_num_fvc_images(table):
     new['NUM_IMAGES'] = num_images
     zeroth_exp_iters = new['EXPOSURE_ITER'] == 0
     new['NUM_IMAGES'][zeroth_exp_iters] = null_num_images
+    new_exposures = np.diff(new['EXPOSURE_ID'], prepend=-1) != 0
+    new['NUM_IMAGES'][new_exposures] = null_num_images
     return new
 
 def calc_radii(table, tag=TRACKED):
diff --git a/bin/analyze_pos_performance_legacy b/bin/analyze_pos_performance_legacy
index 414810d..efadd55 100644
--- a/bin/analyze_pos_performance_legacy
+++ b/bin/analyze_pos_performance_legacy
@@ -636,6 +636,8 @@ def detect_num_fvc_images(table):
     new['NUM_IMAGES'] = num_images
     zeroth_exp_iters = new['EXPOSURE_ITER'] == 0
     new['NUM_IMAGES'][zeroth_exp_iters] = null_num_images
+    new_exposures = np.diff(new['EXPOSURE_ID'], prepend=-1) != 0
+    new['NUM_IMAGES'][new_exposures] = null_num_images
     return new
 
 def calc_radii(table, tag=TRACKED):
-- 
2.43.0


From 06ff871856717e0d8a9a32c290292979a9d87ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:50 +0000
Subject: [PATCH 52/57] fix: poslocTP requests are external angles already

---
 bin/analyze_pos_performance_legacy | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bin/analyze_pos_performance_legacy b/bin/analyze_pos_performance_legacy
index efadd55..2b14cf0 100644
--- a/bin/analyze_pos_performance_legacy
+++ b/bin/analyze_pos_performance_legacy
@@ -470,10 +470,8 @@ def identify_requests(table):
                                                    t_offset=new['OFFSET_T'][i],
                                                    p_offset=new['OFFSET_P'][i])
                 elif coord == 'poslocTP':
-                    t_ext = pos2ptl.int2ext(vals0[i], new['OFFSET_T'][i])
-                    p_ext = pos2ptl.int2ext(vals1[i], new['OFFSET_P'][i])
-                    x_loc, y_loc = pos2ptl.ext2loc(t_ext=t_ext,
-                                                   p_ext=p_ext,
+                    x_loc, y_loc = pos2ptl.ext2loc(t_ext=vals0[i],
+                                                   p_ext=vals1[i],
                                                    r1=new['LENGTH_R1'][i],
                                                    r2=new['LENGTH_R2'][i])
                 else:
-- 
2.43.0


From 9ae7592fefc653fbff39f3a0afb046a73acf0a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:03 +0000
Subject: [PATCH 53/57] fix: summarize accepted targets by their own error
 quantiles in the legacy analysis

---
 bin/analyze_pos_performance_legacy | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/bin/analyze_pos_performance_legacy b/bin/analyze_pos_performance_legacy
index 2b14cf0..d34ec25 100644
--- a/bin/analyze_pos_performance_legacy
+++ b/bin/analyze_pos_performance_legacy
@@ -380,9 +380,8 @@ def get_idxs(table, submove, sigma=None, tag=TRACKED, as_bool=False):
     OUTPUT: list of row index integers
     '''
     selection = table['SUBMOVE'] == submove
-    super_tag = get_super_tag(tag)
     if sigma:
-        selection &= table[add_tag(super_tag, 'SIGMA_CEILING')] <= sigma
+        selection &= table[add_tag(tag, 'SIGMA_CEILING')] <= sigma
     if tag == ACCEPTED:
         selection &= table[ACCEPTED]
     if as_bool:
@@ -775,8 +774,7 @@ def summarize_stats(table, tag=TRACKED, stat_names=stat_funcs.keys()):
                      and columns corresponding to the uppercased names of the argued
                      stats functions. Table includes metadata: n_positioners, n_targets
     '''
-    reduce_to_accepted = tag == ACCEPTED
-    tag = REQUESTED if reduce_to_accepted else tag
+    super_tag = get_super_tag(tag)
     missing_funcs = set(stat_names) - set(stat_funcs)
     assert not(any(missing_funcs)), f'undefined stat funcs {missing_funcs}'
     uppercase_names = {key: key.upper() for key in stat_names}
@@ -790,16 +788,16 @@ def summarize_stats(table, tag=TRACKED, stat_names=stat_funcs.keys()):
     min_radius = math.inf
     for submove in submoves:
         submove_selection = table['SUBMOVE'] == submove
-        if reduce_to_accepted:
+        if tag == ACCEPTED:
             submove_selection = np.logical_and(submove_selection, table[ACCEPTED])
-        radii = table[add_tag(tag, 'RADIUS')][submove_selection].tolist()
+        radii = table[add_tag(super_tag, 'RADIUS')][submove_selection].tolist()
         max_radius = max(max_radius, max(radii))
         min_radius = min(min_radius, min(radii))
         for sigma in sigmas:
             quantile = sigmas[sigma]
             within_quantile = table[add_tag(tag, 'QUANTILE_CEILING')] <= quantile
             quantile_selection = np.logical_and(within_quantile, submove_selection)
-            err = table[add_tag(tag, 'ERR_XY')][quantile_selection].tolist()
+            err = table[add_tag(super_tag, 'ERR_XY')][quantile_selection].tolist()
             new_dict['SUBMOVE'].append(submove)
             new_dict['SIGMA'].append(sigma)
             new_dict['QUANTILE'].append(quantile)
-- 
2.43.0


From 25d7c6d0045d2c4abb388a26066e5a90d7ee2659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:03 +0000
Subject: [PATCH 54/57] fix: tell data files by their own name, not by the
 folder's

---
 bin/analyze_pos_performance        | 2 +-
 bin/analyze_pos_performance_legacy | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/analyze_pos_performance b/bin/analyze_pos_performance
index 36613a9..8a3c7a9 100755
--- a/bin/analyze_pos_performance
+++ b/bin/analyze_pos_performance
@@ -309,7 +309,7 @@ def read(path):
     OUTPUT:  data ... dict with keys = posids and values = astropy tables
     '''
     data = {}
-    if 'csv' not in path:
+    if 'csv' not in os.path.basename(path):
         return data  # i.e. skip non-data files
     table = Table.read(path)
     missing = required - set(table.columns)
diff --git a/bin/analyze_pos_performance_legacy b/bin/analyze_pos_performance_legacy
index d34ec25..4052594 100644
--- a/bin/analyze_pos_performance_legacy
+++ b/bin/analyze_pos_performance_legacy
@@ -246,7 +246,7 @@ def read(path):
     OUTPUT:  data ... dict with keys = posids and values = astropy tables
     '''
     data = {}
-    if 'csv' not in path:
+    if 'csv' not in os.path.basename(path):
         return data  # i.e. skip non-data files
     table = Table.read(path)
     missing = required - set(table.columns)
-- 
2.43.0


From 362521dc327f66ae3e414bc9a8afbfd78a67bff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:55 +0000
Subject: [PATCH 55/57] fix: Q and S come from focal-plane, not petal,
 coordinates

---
 bin/analyze_bright_image                | 2 +-
 bin/detect_and_match_moving_positioners | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/analyze_bright_image b/bin/analyze_bright_image
index 18486ad..eb32448 100755
--- a/bin/analyze_bright_image
+++ b/bin/analyze_bright_image
@@ -123,7 +123,7 @@ spots["PTL_X"] = xptl
 spots["PTL_Y"] = yptl
 
 # add Q and S
-q,s = xy2qs(spots["PTL_X"],spots["PTL_Y"])
+q,s = xy2qs(spots["X_FP"],spots["Y_FP"])
 spots["Q"] = q
 spots["S"] = s
 
diff --git a/bin/detect_and_match_moving_positioners b/bin/detect_and_match_moving_positioners
index 3eb2944..f31d3e6 100755
--- a/bin/detect_and_match_moving_positioners
+++ b/bin/detect_and_match_moving_positioners
@@ -170,7 +170,7 @@ spots["PTL_X"] = xptl
 spots["PTL_Y"] = yptl
 
 # add Q and S
-q,s = xy2qs(spots["PTL_X"],spots["PTL_Y"])
+q,s = xy2qs(spots["X_FP"],spots["Y_FP"])
 spots["Q"] = q
 spots["S"] = s
 
-- 
2.43.0


From 8e6c134b4a3add28fe897efc18da4dbf838a5455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:55 +0000
Subject: [PATCH 56/57] fix: make the job scripts executable, not the images

---
 bin/write_fvc_image_processing_scripts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/write_fvc_image_processing_scripts b/bin/write_fvc_image_processing_scripts
index ddaf38f..199dca8 100755
--- a/bin/write_fvc_image_processing_scripts
+++ b/bin/write_fvc_image_processing_scripts
@@ -50,7 +50,7 @@ for line in ifile.readlines() :
     #print(filename)
     if count >= args.ntasks_per_job :
         jobfile.close()
-        subprocess.call(['chmod', '+x', filename])
+        subprocess.call(['chmod', '+x', jobfilename])
         print("wrote",jobfilename)
         jobid += 1
         jobfilename=os.path.join(args.jobdir,"job-%03d.sh"%jobid)
@@ -118,7 +118,7 @@ for line in ifile.readlines() :
     #if count>20 : break
 
 jobfile.close()
-subprocess.call(['chmod', '+x', filename])
+subprocess.call(['chmod', '+x', jobfilename])
 print("wrote",jobfilename)
 
 t=Table()
-- 
2.43.0


From 7225ff070d203291e06bc55de6d6d3611a967056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:56 +0000
Subject: [PATCH 57/57] fix: ok2move wrote no page for the last group of
 positioners when it is not full

---
 bin/ok2move | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bin/ok2move b/bin/ok2move
index 5f7cf43..8e8ae31 100755
--- a/bin/ok2move
+++ b/bin/ok2move
@@ -171,10 +171,11 @@ def main():
             outfile = '{}/{}.png'.format(args.plotdir, spots['DEVICE_ID'][i])
             plot_positioner(fvcimage, spots, i, ok, outfile)
 
-        for i in range(len(okids)//args.groupsize):
+        for i in range(len(okids)//args.groupsize+1):
             ids = okids[i*args.groupsize:(i+1)*args.groupsize]
-            htmlfile = f'{args.plotdir}/group{i}.html'
-            write_group_html(htmlfile, ids)
+            if len(ids)>0 :
+                htmlfile = f'{args.plotdir}/group{i}.html'
+                write_group_html(htmlfile, ids)
 
         htmlfile = f'{args.plotdir}/dontmove.html'
         write_group_html(htmlfile, spots['DEVICE_ID'][~ok])
-- 
2.43.0

