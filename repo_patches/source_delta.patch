From 5de7e172e998f051cbd6b22d4eecc56f2e45cf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 001/117] fix: always re-sort stars when asked to, so that
 radial orders and half-mass radii describe the current coordinates

---
 clustertools/cluster/cluster.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index e08576f..a2ba61e 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1403,7 +1403,11 @@ class StarCluster(object):
         self.rmeanpro = np.mean(self.rpro)
         self.rmaxpro = np.max(self.rpro)
 
-        if sortstars: self.sortstars(projected=projected)
+        if sortstars:
+            self.sortstars(projected=projected)
+        elif self.rorder is not None and len(self.rorder)!=len(self.r):
+            # an order over a different set of stars describes nothing
+            self.rorder, self.rproorder = None, None
 
         # Find half-mass radius
 
@@ -1504,12 +1508,10 @@ class StarCluster(object):
         2018 - Written - Webb (UofT)
 
         """
-        if self. rorder is None or self.rorder_origin!=self.origin or len(self.r)!=len(self.rorder):
+        self.rorder = np.argsort(self.r)
+        self.rorder_origin=self.origin
 
-            self.rorder = np.argsort(self.r)
-            self.rorder_origin=self.origin
-
-        if (self. rproorder is None or self.rorder_origin!=self.origin or len(self.rpro)!=len(self.rproorder)) and (projected or self.projected):
+        if projected or self.projected:
             self.rproorder = np.argsort(self.rpro)
 
     def _analysis_check(self,sortstars=True,projected=False):
-- 
2.43.0


From 7dbdb47908c2e927f3fbbfaebc42b7b475d6ba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 002/117] fix: analyses no longer overwrite the units and
 origin a user saved with save_cluster

---
 clustertools/analysis/functions.py | 80 ++++++++++++------------------
 clustertools/analysis/orbits.py    | 15 ++----
 clustertools/analysis/profiles.py  | 45 +++++++----------
 clustertools/cluster/cluster.py    | 22 ++++----
 clustertools/io/load.py            |  3 +-
 clustertools/util/coordinates.py   |  9 ++--
 clustertools/util/output.py        |  9 ++--
 clustertools/util/plots.py         |  3 +-
 8 files changed, 72 insertions(+), 114 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index a40b6fd..f5120b4 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -115,8 +115,7 @@ def find_centre(
     2019 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -244,8 +243,7 @@ def find_centre_of_density(
     2022 - Written - Webb (UofT) - add method=='casertano'
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
     if cluster.units=='amuse':
         cluster.to_pckms()
 
@@ -482,10 +480,9 @@ def relaxation_time(cluster, rad=None, coulomb=0.4, projected=False,method='spit
     2020 - Written - Webb (UofT)
 
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre()
     else:
         cluster.sortstars()
@@ -554,10 +551,9 @@ def half_mass_relaxation_time(cluster, coulomb=0.4, projected=False):
        2019 - Written - Webb (UofT)
 
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre()
     else:
         cluster.sortstars()
@@ -619,10 +615,9 @@ def core_relaxation_time(cluster, coulomb=0.4, projected=False):
     2019 - Written - Webb (UofT)
 
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre()
     else:
         cluster.sortstars()
@@ -690,10 +685,9 @@ def energies(cluster, specific=True, ids=None, projected=False, softening=0.0, f
     if ids is None:
         ids=kwargs.get('i_d',None)
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_cluster(sortstars=False)
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -999,13 +993,12 @@ def rlagrange(cluster, nlagrange=10, mfrac=None, projected=False):
        2019 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre()
     else:
         cluster.sortstars()
@@ -1122,12 +1115,11 @@ def virial_radius_inverse_distance(cluster, projected=False, full=True):
     -------
     2019 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse': cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=False)
 
 
@@ -1245,10 +1237,9 @@ def virial_radius_critical_density(
     2019 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre()
     else:
         cluster.sortstars()
@@ -1413,8 +1404,7 @@ def mass_function(
     2018 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -1589,8 +1579,7 @@ def tapered_mass_function(
     2018 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -1750,8 +1739,7 @@ def eta_function(
     2018 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -1914,8 +1902,7 @@ def meq_function(
     -------
     2020
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -2004,8 +1991,7 @@ def ckin(
     -------
     2020
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -2105,13 +2091,12 @@ def rcore(
     2021 - Written - Webb (UofT)
     2022 - Written - Webb (UofT) - add method='casertano'
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'centre':
+    if origin0 != 'centre':
         if cluster.xc==0. and cluster.yc==0. and cluster.zc==0.0:
             if method=='casertano':
                 cluster.find_centre(method='casertano')
@@ -2362,15 +2347,14 @@ def rtidal(
     -------
     2019 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
     ro,vo,zo,solarmotion=cluster._ro,cluster._vo,cluster._zo,cluster._solarmotion
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=False)
 
     cluster.to_galpy()
@@ -2471,14 +2455,14 @@ def rtidal(
         x=np.append(x,x)
         y=np.append(y,-y)
 
-        if cluster.origin0=='galaxy':
+        if origin0 =='galaxy':
             if from_centre:
                 x+=(cluster.xgc+cluster.xc)
                 y+=(cluster.ygc+cluster.yc)
             else:
                 x+=cluster.xgc
                 y+=cluster.ygc
-        elif cluster.origin0=='cluster' and from_centre:
+        elif origin0 =='cluster' and from_centre:
             x+=cluster.xc
             y+=cluster.yc
 
@@ -2539,15 +2523,14 @@ def rlimiting(
     -------
     2019 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     ro,vo,zo,solarmotion=cluster._ro,cluster._vo,cluster._zo,cluster._solarmotion
 
     mo=conversion.mass_in_msol(ro=ro,vo=vo)
     dens_in_msolpc2=(mo/ro**2.)/(1000.0**2.)
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=False)
 
     cluster.to_galpy()
@@ -2757,13 +2740,12 @@ def _rho_prof(
     2018 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
         cluster.sortstars()
diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index b7bbecc..cc5aa9e 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -89,8 +89,7 @@ def initialize_orbit(cluster, from_centre=False, ro=None, vo=None, zo = None, so
         )
     else:
 
-        cluster.save_cluster()
-        units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+        units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
         cluster.to_galpy()
 
@@ -166,8 +165,7 @@ def initialize_orbits(cluster, ro=None, vo=None, zo = None, solarmotion=None):
         print('NO METHOD FOR INITALIZING STELLAR ORBITS WITH RESPET TO CENTRE OR CLUSTER WHEN UNITS==RADEC')
     else:
 
-        cluster.save_cluster()
-        units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+        units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
         cluster.to_galpy()
      
@@ -377,8 +375,7 @@ def interpolate_orbit(
     if zo is None: zo=cluster._zo
     if solarmotion is None: solarmotion=cluster._solarmotion
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -459,8 +456,7 @@ def interpolate_orbits(
     if zo is None: zo=cluster._zo
     if solarmotion is None: solarmotion=cluster._solarmotion
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -842,8 +838,7 @@ def orbital_path_match(
     if zo is None: zo=cluster._zo
     if solarmotion is None: solarmotion=cluster._solarmotion
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if skypath:
         cluster.to_radec()
diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 8dc491c..7c60063 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -102,13 +102,12 @@ def rho_prof(
     2018 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
         cluster.sortstars()
@@ -289,13 +288,12 @@ def m_prof(
     -------
     2018 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
         cluster.sortstars()
@@ -484,13 +482,12 @@ def alpha_prof(
     2018 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
         cluster.sortstars()
@@ -692,13 +689,12 @@ def sigv_prof(
     -------
     2018 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
         cluster.sortstars()
@@ -917,13 +913,12 @@ def beta_prof(
     -------
     2020 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
         cluster.sortstars()
@@ -1122,13 +1117,12 @@ def v_prof(
     -------
     2018 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
         cluster.sortstars()
@@ -1348,13 +1342,12 @@ def v2_prof(
     -------
     2018 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
         cluster.sortstars()
@@ -1572,13 +1565,12 @@ def eta_prof(
     -------
     2018 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
         cluster.sortstars()
@@ -1915,13 +1907,12 @@ def vcirc_prof(
     -------
     2019 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     else:
         cluster.sortstars()
diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index a2ba61e..001a05c 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2003,10 +2003,11 @@ class StarCluster(object):
         -------
         2018 - Written - Webb (UofT)
         """
-        if units0 is None: units0=self.units0
-        if origin0 is None: origin0=self.origin0
-        if rorder0 is None: rorder0=self.rorder0
-        if rorder_origin0 is None: rorder_origin0=self.rorder_origin0
+        if units0 is None and origin0 is None:
+            if rorder0 is None: rorder0=getattr(self,'rorder0',None)
+            if rorder_origin0 is None: rorder_origin0=getattr(self,'rorder_origin0',None)
+        if units0 is None: units0=getattr(self,'units0',self.units)
+        if origin0 is None: origin0=getattr(self,'origin0',self.origin)
 
         return_cluster(self, units0, origin0, rorder0, rorder_origin0, sortstars=sortstars)
 
@@ -2104,10 +2105,9 @@ class StarCluster(object):
 
         self.qv=virialize(self, qvir=qvir, specific=True, full=True, projected=projected,softening=softening)
 
-        self.save_cluster()
-        units0,origin0, rorder0, rorder_origin0 = self.units0,self.origin0, self.rorder0, self.rorder_origin0
+        units0,origin0, rorder0, rorder_origin0 = self.units,self.origin, self.rorder, self.rorder_origin
 
-        if self.origin0 != 'cluster' and self.origin0 != 'centre':
+        if origin0 != 'cluster' and origin0 != 'centre':
             self.to_centre(sortstars=False)
 
         self.vx *= self.qv
@@ -2514,10 +2514,9 @@ class StarCluster(object):
         if projected == None:
             projected=self.projected
 
-        self.save_cluster()
-        units0,origin0, rorder0, rorder_origin0 = self.units0,self.origin0, self.rorder0, self.rorder_origin0
+        units0,origin0, rorder0, rorder_origin0 = self.units,self.origin, self.rorder, self.rorder_origin
 
-        if self.origin0 != 'cluster' and self.origin0 != 'centre':
+        if origin0 != 'cluster' and origin0 != 'centre':
             self.to_cluster(sortstars=False)
         if self.units=='amuse':
             self.to_pckms()
@@ -4022,8 +4021,7 @@ def sub_cluster(
     2018 - Written - Webb (UofT)
 
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
 
     if projected:
diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 79aff57..34cbc6a 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -333,8 +333,7 @@ def load_cluster(
                 orbit.vz(t) / 220.0,
             )
 
-        cluster.save_cluster()
-        units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+        units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
         if cluster.origin is not None: 
             cluster.to_cluster(sortstars=False)
diff --git a/clustertools/util/coordinates.py b/clustertools/util/coordinates.py
index ea2d779..758abc1 100644
--- a/clustertools/util/coordinates.py
+++ b/clustertools/util/coordinates.py
@@ -47,8 +47,7 @@ def sphere_coords(cluster):
     2018 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if origin0=='sky':
         cluster.to_galaxy(ro=ro,vo=vo,solarmotion=solar_motion)
@@ -162,8 +161,7 @@ def cyl_coords(cluster):
     2018 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if origin0=='sky':
         cluster.to_galaxy(ro=ro,vo=vo,solarmotion=solar_motion)
@@ -241,8 +239,7 @@ def sky_coords(cluster,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion,zo=solar
     -------
     2018 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     cluster.to_radec(ro=ro,vo=vo,solarmotion=solar_motion)
 
diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index 6437b57..05b864d 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -185,8 +185,7 @@ def sseout(cluster, filename):
     -------
     2021 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     cluster.to_pckms()
 
@@ -242,8 +241,7 @@ def fortout(
     2019 - Written - Webb (UofT)
 
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     cluster.to_centre(sortstars=False)
 
@@ -320,8 +318,7 @@ def gyrout(cluster, filename="init.nemo.dat",eps=None,epsunits=None,ro=solar_ro,
     vcon = 220.0 / conversion.velocity_in_kpcGyr(vo=solar_vo, ro=solar_ro)
     mcon = 222288.4543021174
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     cluster.to_galaxy(sortstars=False)
     cluster.to_kpckms()
diff --git a/clustertools/util/plots.py b/clustertools/util/plots.py
index ffe9f55..c116f30 100644
--- a/clustertools/util/plots.py
+++ b/clustertools/util/plots.py
@@ -817,8 +817,7 @@ def skyplot(
     2018 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     cluster.to_radec(sortstars=False)
 
-- 
2.43.0


From 15dcf73964152846d500aaf4ad9a2fcdc0bbcab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 003/117] fix: leaving the sky recovers the centre as an offset
 from the orbit, and sky coordinates never come from stale orbits

---
 clustertools/cluster/cluster.py    |  16 ++++-
 clustertools/cluster/operations.py | 107 +++++++++++++++--------------
 2 files changed, 71 insertions(+), 52 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 001a05c..3efe2d7 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -976,6 +976,10 @@ class StarCluster(object):
             self.pmdec_gc = vygc
             self.vlos_gc = vzgc
 
+            # until a centre is found, it is at the orbit position
+            if self.dist_c == 0.0:
+                self._set_sky_centre()
+
 
             #Add on orbital parameters for missing data
             if self.origin == 'sky':
@@ -2354,8 +2358,9 @@ class StarCluster(object):
             if (self.xgc, self.ygc, self.zgc, self.vxgc, self.vygc, self.vzgc)==(0.,0.,0.,0.,0.,0.) or reset_centre:
                 self.xgc, self.ygc, self.zgc = xc,yc,zc
                 self.vxgc, self.vygc, self.vzgc = vxc, vyc, vzc
-                self.xc, self.yc, self.zc = 0.0, 0.0, 0.0
-                self.vxc, self.vyc, self.vzc = 0.0, 0.0, 0.0
+                self.ra_gc, self.dec_gc, self.dist_gc = xc,yc,zc
+                self.pmra_gc, self.pmdec_gc, self.vlos_gc = vxc, vyc, vzc
+                self._set_sky_centre()
 
             elif (self.xgc, self.ygc, self.zgc,self.vxgc, self.vygc, self.vzgc)==(xc,yc,zc,vxc,vyc,vzc):
                 pass
@@ -2370,6 +2375,13 @@ class StarCluster(object):
         else:
             print('No Cluster Variables Set')
 
+    def _set_sky_centre(self):
+        # sky coordinates of the centre when it coincides with the orbit position
+        self.xc, self.yc, self.zc = self.xgc, self.ygc, self.zgc
+        self.vxc, self.vyc, self.vzc = self.vxgc, self.vygc, self.vzgc
+        self.ra_c, self.dec_c, self.dist_c = self.xgc, self.ygc, self.zgc
+        self.pmra_c, self.pmdec_c, self.vlos_c = self.vxgc, self.vygc, self.vzgc
+
     def relaxation_time(self, rad=None, coulomb=0.4, projected=None,method='spitzer'):
         """Calculate the relaxation time (Spitzer & Hart 1971) within a given radius of the cluster
 
diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index db30073..aafc931 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -469,8 +469,22 @@ def to_radec(cluster, sortstars=True,centre_method=None,analyze=True):
             cluster.to_kpckms(analyze=False)
             cluster.to_galaxy()
 
-            if cluster.orbit is None: cluster.initialize_orbit(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
-            if cluster.orbits is None: cluster.initialize_orbits(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            # describe the current coordinates, which earlier orbits may predate
+            R, phi, z = coords.rect_to_cyl(cluster.xgc, cluster.ygc, cluster.zgc)
+            vR, vT, vz = coords.rect_to_cyl_vec(cluster.vxgc, cluster.vygc, cluster.vzgc, cluster.xgc, cluster.ygc, cluster.zgc)
+
+            orbit = Orbit(
+                [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
+            )
+            if cluster.orbit is None: cluster.orbit=orbit
+
+            R, phi, z = coords.rect_to_cyl(cluster.x, cluster.y, cluster.z)
+            vR, vT, vz = coords.rect_to_cyl_vec(cluster.vx, cluster.vy, cluster.vz, cluster.x, cluster.y, cluster.z)
+
+            orbits = Orbit(
+                np.column_stack([R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi]), ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
+            )
+            cluster.orbits=orbits
 
             R, phi, z = coords.rect_to_cyl(cluster.xgc+cluster.xc, cluster.ygc+cluster.yc, cluster.zgc+cluster.zc)
             vR, vT, vz = coords.rect_to_cyl_vec(cluster.vxgc+cluster.vxc, cluster.vygc+cluster.vyc, cluster.vzgc+cluster.vzc,cluster.xgc+cluster.xc, cluster.ygc+cluster.yc, cluster.zgc+cluster.zc)
@@ -479,19 +493,19 @@ def to_radec(cluster, sortstars=True,centre_method=None,analyze=True):
                 [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
             )
 
-            cluster.ra=cluster.orbits.ra()
-            cluster.dec=cluster.orbits.dec()
-            cluster.dist=cluster.orbits.dist()
-            cluster.pmra=cluster.orbits.pmra()
-            cluster.pmdec=cluster.orbits.pmdec()
-            cluster.vlos=cluster.orbits.vlos()
+            cluster.ra=orbits.ra()
+            cluster.dec=orbits.dec()
+            cluster.dist=orbits.dist()
+            cluster.pmra=orbits.pmra()
+            cluster.pmdec=orbits.pmdec()
+            cluster.vlos=orbits.vlos()
 
-            cluster.ra_gc=cluster.orbit.ra()
-            cluster.dec_gc=cluster.orbit.dec()
-            cluster.dist_gc=cluster.orbit.dist()
-            cluster.pmra_gc=cluster.orbit.pmra()
-            cluster.pmdec_gc=cluster.orbit.pmdec()
-            cluster.vlos_gc=cluster.orbit.vlos()
+            cluster.ra_gc=orbit.ra()
+            cluster.dec_gc=orbit.dec()
+            cluster.dist_gc=orbit.dist()
+            cluster.pmra_gc=orbit.pmra()
+            cluster.pmdec_gc=orbit.pmdec()
+            cluster.vlos_gc=orbit.vlos()
 
             cluster.ra_c=oc.ra()
             cluster.dec_c=oc.dec()
@@ -561,44 +575,37 @@ def from_radec(cluster, sortstars=True):
 
         if cluster.units == "radec" and cluster.origin == "sky":
 
-            if cluster.orbit is None: cluster.initialize_orbit(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
-            if cluster.orbits is None: cluster.initialize_orbits(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
-
+            # describe the current sky coordinates, which earlier orbits may predate
+            orbit0=cluster.orbit
+            orbit=cluster.initialize_orbit(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            orbits=cluster.initialize_orbits(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            if orbit0 is not None: cluster.orbit=orbit0
 
-            if cluster.xcn is not None:
-                cluster.xc,cluster.yc,cluster.zc=cluster.xcn,cluster.ycn,cluster.zcn
-                cluster.xc*=cluster.rbar/1000.
-                cluster.yc*=cluster.rbar/1000.
-                cluster.zc*=cluster.rbar/1000.
-                cluster.vxc=0.
-                cluster.vyc=0.
-                cluster.vzc=0.
+            oc = Orbit(
+                [cluster.ra_c,cluster.dec_c,cluster.dist_c,cluster.pmra_c,cluster.pmdec_c,cluster.vlos_c], radec=True,ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
+            )
 
-            else:
-                oc = Orbit(
-                    [cluster.ra_c,cluster.dec_c,cluster.dist_c,cluster.pmra_c,cluster.pmdec_c,cluster.vlos_c], radec=True,ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
-                )
-
-                cluster.xc=oc.x()
-                cluster.yc=oc.y()
-                cluster.zc=oc.z()
-                cluster.vxc=oc.vx()
-                cluster.vyc=oc.vy()
-                cluster.vzc=oc.vz()
-
-            cluster.x = cluster.orbits.x()
-            cluster.y = cluster.orbits.y()
-            cluster.z = cluster.orbits.z()
-            cluster.vx = cluster.orbits.vx()
-            cluster.vy = cluster.orbits.vy()
-            cluster.vz = cluster.orbits.vz()
-
-            cluster.xgc = cluster.orbit.x()
-            cluster.ygc = cluster.orbit.y()
-            cluster.zgc = cluster.orbit.z()
-            cluster.vxgc = cluster.orbit.vx()
-            cluster.vygc = cluster.orbit.vy()
-            cluster.vzgc = cluster.orbit.vz()
+            # the centre is an offset from the orbit position
+            cluster.xc=oc.x()-orbit.x()
+            cluster.yc=oc.y()-orbit.y()
+            cluster.zc=oc.z()-orbit.z()
+            cluster.vxc=oc.vx()-orbit.vx()
+            cluster.vyc=oc.vy()-orbit.vy()
+            cluster.vzc=oc.vz()-orbit.vz()
+
+            cluster.x = orbits.x()
+            cluster.y = orbits.y()
+            cluster.z = orbits.z()
+            cluster.vx = orbits.vx()
+            cluster.vy = orbits.vy()
+            cluster.vz = orbits.vz()
+
+            cluster.xgc = orbit.x()
+            cluster.ygc = orbit.y()
+            cluster.zgc = orbit.z()
+            cluster.vxgc = orbit.vx()
+            cluster.vygc = orbit.vy()
+            cluster.vzgc = orbit.vz()
 
             cluster.origin = "galaxy"
             cluster.units = "kpckms"
-- 
2.43.0


From 6e43172741cd63b9bcccbc6b53e508c62ac81822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 004/117] fix: sphere_coords, cyl_coords and sky_coords of
 clusters with sky coordinates

---
 clustertools/util/coordinates.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clustertools/util/coordinates.py b/clustertools/util/coordinates.py
index 758abc1..c9f4e65 100644
--- a/clustertools/util/coordinates.py
+++ b/clustertools/util/coordinates.py
@@ -50,7 +50,7 @@ def sphere_coords(cluster):
     units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if origin0=='sky':
-        cluster.to_galaxy(ro=ro,vo=vo,solarmotion=solar_motion)
+        cluster.to_galaxy()
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -164,7 +164,7 @@ def cyl_coords(cluster):
     units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if origin0=='sky':
-        cluster.to_galaxy(ro=ro,vo=vo,solarmotion=solar_motion)
+        cluster.to_galaxy()
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -241,9 +241,9 @@ def sky_coords(cluster,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion,zo=solar
     """
     units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
-    cluster.to_radec(ro=ro,vo=vo,solarmotion=solar_motion)
+    cluster.to_sky()
 
-    ra,dec,d0,pmra,pmdec,vr0=cluster.x,cluster.y,cluster.z,cluster.vx,cluster.vy,cluster.vz
+    ra,dec,d0,pmra,pmdec,vr0=[copy.copy(c) for c in (cluster.x,cluster.y,cluster.z,cluster.vx,cluster.vy,cluster.vz)]
 
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
-- 
2.43.0


From 4b1b39f9532395eac10944dbbc0ea6bfb20dbcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 005/117] fix: selecting stars no longer changes the mask the
 caller passed

---
 clustertools/cluster/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 3efe2d7..ccdc0a6 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3945,7 +3945,7 @@ def _get_subset(
 
     try:
 
-        indx *= (
+        indx = indx * (
             (r >= rmin)
             * (r <= rmax)
             * (cluster.m >= mmin)
-- 
2.43.0


From fcedc314a7b45076dd5723eacdae45dcb6000ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 006/117] fix: adding binaries repeatedly, one at a time or
 without masses keeps every per-star array complete and ids unique

---
 clustertools/cluster/cluster.py | 88 ++++++++++++++-------------------
 1 file changed, 37 insertions(+), 51 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index ccdc0a6..3f9f279 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -728,10 +728,10 @@ class StarCluster(object):
 
         """
 
-        if isinstance(xb1,float):
-            self.nb+=1
-        else:
-            self.nb+=len(xb1)
+        xb1,yb1,zb1,vxb1,vyb1,vzb1=[np.atleast_1d(b) for b in (xb1,yb1,zb1,vxb1,vyb1,vzb1)]
+        xb2,yb2,zb2,vxb2,vyb2,vzb2=[np.atleast_1d(b) for b in (xb2,yb2,zb2,vxb2,vyb2,vzb2)]
+
+        self.nb+=len(xb1)
 
         self.xb1=np.append(self.xb1,xb1)
         self.yb1=np.append(self.yb1,yb1)
@@ -747,23 +747,20 @@ class StarCluster(object):
         self.vyb2=np.append(self.vyb2,vyb2)
         self.vzb2=np.append(self.vzb2,vzb2)
 
-        if mb1 is not None:
-            self.mb1=np.append(self.mb1,mb1)
-        else:
-            self.mb1=np.append(self.mb1,np.ones(len(xb1)))
-        if mb2 is not None:
-            self.mb2=np.append(self.mb2,mb2)
-        else:
-            self.mb2=np.append(self.mb2,np.ones(len(xb2)))
+        mb1=np.ones(len(xb1)) if mb1 is None else np.ones(len(xb1))*mb1
+        mb2=np.ones(len(xb2)) if mb2 is None else np.ones(len(xb2))*mb2
+
+        self.mb1=np.append(self.mb1,mb1)
+        self.mb2=np.append(self.mb2,mb2)
 
         if set_com and not return_com:
-            mcom=self.mb1+self.mb2
-            xcom=(xb1*self.mb1+xb2*self.mb2)/mcom
-            ycom=(yb1*self.mb1+yb2*self.mb2)/mcom
-            zcom=(zb1*self.mb1+zb2*self.mb2)/mcom
-            vxcom=(vxb1*self.mb1+vxb2*self.mb2)/mcom
-            vycom=(vyb1*self.mb1+vyb2*self.mb2)/mcom
-            vzcom=(vzb1*self.mb1+vzb2*self.mb2)/mcom
+            mcom=mb1+mb2
+            xcom=(xb1*mb1+xb2*mb2)/mcom
+            ycom=(yb1*mb1+yb2*mb2)/mcom
+            zcom=(zb1*mb1+zb2*mb2)/mcom
+            vxcom=(vxb1*mb1+vxb2*mb2)/mcom
+            vycom=(vyb1*mb1+vyb2*mb2)/mcom
+            vzcom=(vzb1*mb1+vzb2*mb2)/mcom
 
             self.x = np.append(xcom,self.x)
             self.y = np.append(ycom,self.y)
@@ -779,12 +776,15 @@ class StarCluster(object):
                 else:
                     idstart=0
 
-                ids=idstart+np.linspace(0,len(xcom)-1,len(xcom))*2
+                if len(self.id2)!=0:
+                    idstart=np.maximum(idstart,np.amax(self.id2)+1)
+
+                ids=idstart+np.arange(0,len(xcom))*2
             else:
-                ids=id1
-                self.id1=np.append(self.id1,id1)
+                ids=np.atleast_1d(id1)
 
-            self.id=np.append(ids,self.id)
+            self.id1=np.append(self.id1,ids)
+            self.id=np.append(ids,self.id).astype(int)
 
             if id2 is not None:
                 self.id2=np.append(self.id2,id2)
@@ -796,40 +796,26 @@ class StarCluster(object):
             else:
                 self.m0=np.append(np.zeros(len(xcom)),self.m0)
 
-            if m01 is not None:
-                self.m01=np.append(m01,self.m01)
-            if m02 is not None:
-                self.m02=np.append(m02,self.m02)
-
-            if npop1 is not None and npop2 is not None:
-                npopb=np.maximum(npop1,npop2)
-                self.npop=np.append(npopb,self.npop).astype(int)
+            self.m01=np.append(self.m01,np.zeros(len(xcom)) if m01 is None else m01)
+            self.m02=np.append(self.m02,np.zeros(len(xcom)) if m02 is None else m02)
 
-            if npop1 is None:
-                self.npop1=np.append(np.ones(len(xcom)),self.npop1)
-            elif isinstance(npop1,float):
-                self.npop1=np.append(np.ones(len(xcom))*npop1,self.npop1)
-            else:
-                self.npop1=np.append(npop1,self.npop1)
-
-            if npop2 is None:
-                self.npop2=np.append(np.ones(len(xcom)),self.npop2)
-            elif isinstance(npop2,float):
-                self.npop2=np.append(np.ones(len(xcom))*npop2,self.npop2)
-            else:
-                self.npop2=np.append(npop2,self.npop2)
+            npop1=np.ones(len(xcom)) if npop1 is None else np.ones(len(xcom))*npop1
+            npop2=np.ones(len(xcom)) if npop2 is None else np.ones(len(xcom))*npop2
+            self.npop=np.append(np.maximum(npop1,npop2),self.npop).astype(int)
+            self.npop1=np.append(self.npop1,npop1)
+            self.npop2=np.append(self.npop2,npop2)
 
             self.ntot = len(self.x)
             self.ns=self.ntot-self.nb
 
         elif return_com:
-            mcom=self.mb1+self.mb2
-            xcom=(xb1*self.mb1+xb2*self.mb2)/mcom
-            ycom=(yb1*self.mb1+yb2*self.mb2)/mcom
-            zcom=(zb1*self.mb1+zb2*self.mb2)/mcom
-            vxcom=(vxb1*self.mb1+vxb2*self.mb2)/mcom
-            vycom=(vyb1*self.mb1+vyb2*self.mb2)/mcom
-            vzcom=(vzb1*self.mb1+vzb2*self.mb2)/mcom
+            mcom=mb1+mb2
+            xcom=(xb1*mb1+xb2*mb2)/mcom
+            ycom=(yb1*mb1+yb2*mb2)/mcom
+            zcom=(zb1*mb1+zb2*mb2)/mcom
+            vxcom=(vxb1*mb1+vxb2*mb2)/mcom
+            vycom=(vyb1*mb1+vyb2*mb2)/mcom
+            vzcom=(vzb1*mb1+vzb2*mb2)/mcom
 
             return xcom,ycom,zcom,vxcom,vycom,vzcom,mcom
 
-- 
2.43.0


From c2be63871f99022b7597b5fb107e78b0d34418bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 007/117] fix: stellar evolution data added by position no
 longer duplicate rotation and epoch entries

---
 clustertools/cluster/cluster.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 3f9f279..6afa5fc 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1151,26 +1151,26 @@ class StarCluster(object):
             self.kw[nstart+arg.astype(int)] = np.asarray(kw)
             self.logl[nstart+arg.astype(int)] = np.asarray(logl)
             self.logr[nstart+arg.astype(int)] = np.asarray(logr)
-            self.ep[nstart+arg.astype(int)]= np.array(ep)
-            self.ospin[nstart+arg.astype(int)] = np.array(ospin)
+            if ep is not None: self.ep[nstart+arg.astype(int)]= np.array(ep)
+            if ospin is not None: self.ospin[nstart+arg.astype(int)] = np.array(ospin)
 
         else:
             self.kw = np.append(self.kw,kw)
             self.logl = np.append(self.logl,logl)
             self.logr = np.append(self.logr,logr)
 
-        self.lum = 10.0 ** self.logl
-        self.ltot = np.sum(self.lum)
+            if ep is not None: 
+                self.ep= np.append(self.ep,np.array(ep))
+            else:
+                self.ep= np.append(self.ep,np.zeros(len(kw)))
 
-        if ep is not None: 
-            self.ep= np.append(self.ep,np.array(ep))
-        else:
-            self.ep= np.append(self.ep,np.zeros(len(kw)))
+            if ospin is not None: 
+                self.ospin = np.append(self.ospin,np.array(ospin))
+            else:
+                self.ospin = np.append(self.ospin,np.zeros(len(kw)))
 
-        if ospin is not None: 
-            self.ospin = np.append(self.ospin,np.array(ospin))
-        else:
-            self.ospin = np.append(self.ospin,np.zeros(len(kw)))
+        self.lum = 10.0 ** self.logl
+        self.ltot = np.sum(self.lum)
 
     def add_bse(
         self,
-- 
2.43.0


From d5d68443b5604faba9a41c9eb392dea7a0870b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 008/117] fix: sub-clusters of clusters with simple binaries or
 given total energies, and of those rescaled to N-body units

---
 clustertools/cluster/cluster.py    | 11 ++++++-----
 clustertools/cluster/operations.py |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 6afa5fc..258a97e 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -4077,6 +4077,7 @@ def sub_cluster(
             cluster.zmbar,cluster.vbar,cluster.tbar,cluster.rscale,
             cluster.ns,cluster.nb,cluster.n_p)
 
+        subcluster.bunits = cluster.bunits
         subcluster.projected = cluster.projected
         subcluster.centre_method = cluster.centre_method
 
@@ -4099,7 +4100,7 @@ def sub_cluster(
             subcluster.kw = cluster.kw[indx]
 
 
-        if len(cluster.id2) > 0:
+        if len(cluster.id2) > 0 and len(cluster.semi) == len(cluster.id2):
             bindx1 = np.isin(cluster.id1, cluster.id[indx])
             bindx2 = np.isin(cluster.id2, cluster.id[indx])
             bindx=np.logical_or(bindx1,bindx2)
@@ -4145,9 +4146,9 @@ def sub_cluster(
                     cluster.logr2[bindx],
                 )
 
-        if len(cluster.etot) > 0:
+        if len(cluster.etot) == cluster.ntot:
             subcluster.add_energies(
-                cluster.kin[indx], cluster.pot[indx],
+                cluster.kin[indx], cluster.pot[indx], cluster.etot[indx],
             )
 
         if cluster.give == 'mxvpqael':
@@ -4207,11 +4208,11 @@ def sub_cluster(
         if reset_nbody:
             subcluster.to_pckms()
             subcluster.analyze()
-            subcluster.reset_nbody_scale(mass=True,radius=True,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
+            subcluster.reset_nbody_scale(mass=True,radii=True,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
         elif reset_nbody_mass or reset_nbody_radii:
             subcluster.to_pckms()
             subcluster.analyze()
-            subcluster.reset_nbody_scale(mass=reset_nbody_mass,radius=reset_nbody_radii,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
+            subcluster.reset_nbody_scale(mass=reset_nbody_mass,radii=reset_nbody_radii,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
 
     else:
         subcluster = StarCluster(cluster.tphys)
diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index aafc931..5d191c5 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1438,7 +1438,7 @@ def reset_nbody_scale(cluster, mass=True, radii=True, rvirial=True, projected=Fa
 
             cluster.virial_radius(method=method,full=full,
                 H=H,Om=Om,overdens=overdens,nrad=nrad,projected=projected,
-                plot=plot,**kwargs)
+                plot=plot)
 
             rbar=cluster.rv
         else:
-- 
2.43.0


From 271d01716023d6cf2e44f6461adc1509b1a4ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 009/117] fix: stars can be added to a cluster that already has
 stellar evolution data

---
 clustertools/cluster/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 258a97e..8e59cd4 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1416,7 +1416,7 @@ class StarCluster(object):
             self.r10pro = self.rpro[self.rproorder[indx][0]]
 
 
-        if len(self.lum) > 0 and self.rorder is not None:
+        if len(self.lum) > 0 and len(self.lum) == len(self.r) and self.rorder is not None:
             lsum = np.cumsum(self.lum[self.rorder])
             indx = lsum >= 0.5 * self.ltot
             self.rh = self.r[self.rorder[indx][0]]
-- 
2.43.0


From 345e5eb0cf0db1acfe30a80ba419b8e16647d04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 010/117] fix: sub-clusters of clusters with sky coordinates
 know the centre's sky position

---
 clustertools/cluster/cluster.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 8e59cd4..9027d9a 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -4204,6 +4204,12 @@ def sub_cluster(
                 cluster.pmdec_gc,
                 cluster.vlos_gc,
             )
+            subcluster.ra_c, subcluster.dec_c, subcluster.dist_c = cluster.ra_c, cluster.dec_c, cluster.dist_c
+            subcluster.pmra_c, subcluster.pmdec_c, subcluster.vlos_c = (
+                cluster.pmra_c,
+                cluster.pmdec_c,
+                cluster.vlos_c,
+            )
 
         if reset_nbody:
             subcluster.to_pckms()
-- 
2.43.0


From 2b9433611eb38aace885944749ed7c3c41d92133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:19 +0000
Subject: [PATCH 011/117] fix: orthographic sky offsets from the centre
 subtract the centre's proper motion

---
 clustertools/cluster/operations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 5d191c5..6b3f59b 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1138,13 +1138,14 @@ def _get_orthographic_centre(cluster,from_centre=False):
             + np.sin(dec) * np.sin(dec_gc) * np.cos(ra - ra_gc)
         )
 
-        cluster.vx-=cluster.vxgc
-        cluster.vy-=cluster.vygc
-
         if from_centre:
+            cluster.vx-=cluster.vxc
+            cluster.vy-=cluster.vyc
             cluster.z -= cluster.zc
             cluster.vz -= cluster.vzc
         else:
+            cluster.vx-=cluster.vxgc
+            cluster.vy-=cluster.vygc
             cluster.z -= cluster.zgc
             cluster.vz -= cluster.vzgc
 
-- 
2.43.0


From fa53651367a8321215a2745d771b05c0f9be7e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 012/117] fix: potential energies computed in parallel no
 longer race between threads

---
 clustertools/analysis/functions.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index f5120b4..d395801 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -834,15 +834,16 @@ def _potential_energy_parallel(cluster,softening=0.0):
        2019 - Written - Webb (UofT)
     """
     pot = [0.0] * len(cluster)
-    for i in numba.prange(len(cluster) - 1):
-        for j in range(i + 1, len(cluster)):
-            r = distance(cluster[i], cluster[j])
+    for i in numba.prange(len(cluster)):
+        # only pot[i] is written here, as other threads work on the other stars
+        for j in range(len(cluster)):
+            if j != i:
+                r = distance(cluster[i], cluster[j])
 
-            if r==0: r=np.nan
+                if r==0: r=np.nan
 
-            m2 = cluster[i, 3] * cluster[j, 3]
-            pot[i] += -m2 / np.sqrt(r**2.+softening**2.)
-            pot[j] += -m2 / np.sqrt(r**2.+softening**2.)
+                m2 = cluster[i, 3] * cluster[j, 3]
+                pot[i] += -m2 / np.sqrt(r**2.+softening**2.)
 
     return pot
 
-- 
2.43.0


From 6ac2333246094c6151e00d2b4b16d2c46a4cd216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 013/117] fix: energies of requested stars respect projected,
 and softened energies never include a star's own contribution

---
 clustertools/analysis/functions.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index d395801..b8f8c41 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -717,11 +717,16 @@ def energies(cluster, specific=True, ids=None, projected=False, softening=0.0, f
         # Get gravitational constant
         grav = _get_grav(cluster)
 
-        kin = 0.5 * cluster.m[ids] * cluster.v[ids]**2
+        if projected:
+            v, z = cluster.vpro, np.zeros(len(cluster.x))
+        else:
+            v, z = cluster.v, cluster.z
+
+        kin = 0.5 * cluster.m[ids] * v[ids]**2
 
-        cluster_full = np.array([cluster.x, cluster.y, cluster.z, cluster.m]).T
+        cluster_full = np.array([cluster.x, cluster.y, z, cluster.m]).T
         cluster_sub  = np.array([cluster.x[ids], cluster.y[ids], 
-                                 cluster.z[ids], cluster.m[ids]]).T
+                                 z[ids], cluster.m[ids]]).T
 
         if parallel:
             pot = grav * np.array(_potential_energy_subset_parallel(cluster_sub, cluster_full,softening))
@@ -761,7 +766,7 @@ def energies(cluster, specific=True, ids=None, projected=False, softening=0.0, f
             else:
                 dr = np.sqrt(dx ** 2.0 + dy ** 2.0 + dz ** 2.0 + softening**2.)
 
-            indx = dr != 0.0
+            indx = (dr != 0.0) * (np.arange(0,cluster.ntot) != i)
             gmr = -grav * m[indx] / dr[indx]
 
             pot.append(np.sum(gmr))
-- 
2.43.0


From 2e5e9ca71dcb9e590b71317f75ed1b4710c15721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 014/117] fix: to_sudays only claims solar radii and days after
 converting to them

---
 clustertools/cluster/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 6b3f59b..08e298f 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -888,7 +888,7 @@ def to_sudays(cluster):
             cluster.pb*=cluster.tbar_days
             cluster.m1*=cluster.zmbar
             cluster.m2*=cluster.zmbar
-        cluster.bunits='sudays'
+            cluster.bunits='sudays'
     else:
         print("NO UNITS SPECIFIED")
 
-- 
2.43.0


From abef49c52633da5d9dc0db9e39ec13c84b8b27a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 015/117] fix: resetting the N-body scales also resets the
 scales of binary periods and separations

---
 clustertools/cluster/cluster.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 9027d9a..9d78a3e 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1084,6 +1084,10 @@ class StarCluster(object):
         # Number of particles (from NBODY6 when tidal tail is being integrated)
         self.n_p = n_p
 
+        self._set_binary_scales()
+
+    def _set_binary_scales(self):
+        # scales of binary periods and separations that follow from zmbar and rbar
         au_to_cm = 1.49597870700e13
         pc_to_cm = 1296000.0/(2.0*np.pi)*au_to_cm
 
@@ -2040,6 +2044,7 @@ class StarCluster(object):
             projected=self.projected
 
         self.zmbar,self.rbar,self.vbar,self.tbar=reset_nbody_scale(self, mass=mass, radii=radii, rvirial=rvirial,projected=projected,**kwargs)
+        self._set_binary_scales()
 
     def add_rotation(self, qrot):
         """Add a degree of rotation to an already generated StarCluster
-- 
2.43.0


From dbf730bf55a0df3de17ce38eecbc45bb17e6a04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 016/117] fix: adding rotation to a cluster in the Galactic
 frame leaves it there

---
 clustertools/cluster/cluster.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 9d78a3e..2e0bc78 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2065,9 +2065,20 @@ class StarCluster(object):
         -------
         2019 - Written - Webb (UofT)
         """
+        units0,origin0, rorder0, rorder_origin0 = self.units,self.origin, self.rorder, self.rorder_origin
+
+        # the rotated coordinates are with respect to the centre of the cluster
+        if self.units == 'radec':
+            self.to_kpckms()
+
+        if self.origin != 'cluster' and self.origin != 'centre':
+            self.to_centre(sortstars=False)
+
         self.x,self.y,self.z,self.vx,self.vy,self.vz=add_rotation(self, qrot)
         self.qrot=qrot
 
+        self.return_cluster(units0,origin0, rorder0, rorder_origin0)
+
     def virialize(self, qvir=0.5,specific=True, full=True, projected=None, softening=0.0):
         """ Adjust stellar velocities so cluster is in virial equilibrium
 
-- 
2.43.0


From ff92d5b45bb5c7e4d1161eaf7854245b26845fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 017/117] fix: virialize uses the current energies found with
 the requested options

---
 clustertools/cluster/cluster.py    | 2 +-
 clustertools/cluster/operations.py | 9 +++------
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 2e0bc78..ec28e87 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2109,7 +2109,7 @@ class StarCluster(object):
         if projected==None:
             projected=self.projected
 
-        self.qv=virialize(self, qvir=qvir, specific=True, full=True, projected=projected,softening=softening)
+        self.qv=virialize(self, qvir=qvir, specific=specific, full=full, projected=projected,softening=softening)
 
         units0,origin0, rorder0, rorder_origin0 = self.units,self.origin, self.rorder, self.rorder_origin
 
diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 08e298f..68795a1 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1486,12 +1486,9 @@ def virialize(cluster, qvir=0.5, specific=True, full=full_default, projected=Fal
     if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre()
 
-    try:
-        qv = np.sqrt(np.abs(qvir / cluster.qvir))
-    except:
-        print("NEED TO CALCULATE ENERGIES FIRST")
-        cluster.energies(specific=specific, full=full, projected=projected,softening=softening)
-        qv = np.sqrt(np.abs(qvir / cluster.qvir))
+    # energies found earlier may predate the current velocities or have been found with other options
+    cluster.energies(specific=specific, full=full, projected=projected,softening=softening)
+    qv = np.sqrt(np.abs(qvir / cluster.qvir))
 
     return_cluster(cluster, units0, origin0, rorder0, rorder_origin0)
 
-- 
2.43.0


From d2f24829cd2e493ad916279667a0bc6548d5bf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 018/117] fix: find_centre stops when no star is beyond nsigma
 standard deviations

---
 clustertools/analysis/functions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index b8f8c41..6ef161a 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -152,12 +152,18 @@ def find_centre(
         z = cluster.z[indx] - zstart
         r = np.sqrt(x ** 2.0 + y ** 2.0 + z ** 2.0)
         i_d = cluster.id[indx]
+        centred = False
 
         while len(r) > nsphere:
             sigma = nsigma * np.std(r)
             indx = r < sigma
 
+            # Stop once no stars are left to remove
+            if centred and np.all(indx):
+                break
+
             if len(r[indx]) > nsphere:
+                centred = True
                 i_d = i_d[indx]
                 x = x[indx] - np.mean(x[indx])
                 y = y[indx] - np.mean(y[indx])
-- 
2.43.0


From f36b21519d429c16bb2d38c97f1c95f419028352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 019/117] fix: centres of density use the requested method,
 neighbours and subset of stars

---
 clustertools/analysis/functions.py | 27 +++++++++++++++++----------
 clustertools/cluster/cluster.py    |  2 +-
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 6ef161a..a0319c1 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -258,7 +258,7 @@ def find_centre_of_density(
             ystart=ystart,zstart=zstart,vxstart=vxstart,vystart=vystart,vzstart=vzstart,indx=indx,
             nsphere=nsphere,rmin=rmin,rmax=rmax,nmax=nmax)
     elif method=='casertano':
-        xdc, ydc, zdc,vxdc, vydc, vzdc=find_centre_of_density_casertano(cluster,nneighbour=nneighbour)
+        xdc, ydc, zdc,vxdc, vydc, vzdc=find_centre_of_density_casertano(cluster,nneighbour=nneighbour,indx=indx)
 
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
@@ -270,6 +270,7 @@ def find_centre_of_density(
 def find_centre_of_density_casertano(
     cluster,
     nneighbour=6,
+    indx=None,
 ):
 
     """Find cluster's centre of density
@@ -283,6 +284,8 @@ def find_centre_of_density_casertano(
         StarCluster
     nneighbour : int
         number of neighbours for calculation local densities
+    indx: bool
+        subset of stars to perform centre of density calculation on (default: None)
 
     Returns
     -------
@@ -294,25 +297,29 @@ def find_centre_of_density_casertano(
     2022 - Written - Webb (UofT)
     """
 
-    pos=np.column_stack([cluster.x,cluster.y,cluster.z])
-    vel=np.column_stack([cluster.vx,cluster.vy,cluster.vz])
+    if indx is None:
+        indx = np.ones(cluster.ntot, bool)
+
+    m = cluster.m[indx]
+    pos=np.column_stack([cluster.x[indx],cluster.y[indx],cluster.z[indx]])
+    vel=np.column_stack([cluster.vx[indx],cluster.vy[indx],cluster.vz[indx]])
 
     tree=cKDTree(pos)
     dist, arg = tree.query(pos, k=nneighbour)
 
     #Sum the masses but ignore last neighbour
-    mass=np.sum(cluster.m[arg],axis=1)-cluster.m[arg[:,-1]]
+    mass=np.sum(m[arg],axis=1)-m[arg[:,-1]]
     #Set volume equal using cube of distance to outermost neighbour
     vol=(dist[:,-1]**3.)
     rhos=mass/vol
     rhototal=np.sum(rhos)
 
-    xdc=np.sum(rhos*cluster.x/rhototal)
-    ydc=np.sum(rhos*cluster.y/rhototal)
-    zdc=np.sum(rhos*cluster.z/rhototal)
-    vxdc=np.sum(rhos*cluster.vx/rhototal)
-    vydc=np.sum(rhos*cluster.vy/rhototal)
-    vzdc=np.sum(rhos*cluster.vz/rhototal)
+    xdc=np.sum(rhos*pos[:,0]/rhototal)
+    ydc=np.sum(rhos*pos[:,1]/rhototal)
+    zdc=np.sum(rhos*pos[:,2]/rhototal)
+    vxdc=np.sum(rhos*vel[:,0]/rhototal)
+    vydc=np.sum(rhos*vel[:,1]/rhototal)
+    vzdc=np.sum(rhos*vel[:,2]/rhototal)
 
     return xdc, ydc, zdc,vxdc, vydc, vzdc
 
diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index ec28e87..b289329 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2262,7 +2262,7 @@ class StarCluster(object):
 
         xc,yc,zc,vxc,vyc,vzc=find_centre_of_density(self,xstart=xstart,
             ystart=ystart,zstart=zstart,vxstart=vxstart,vystart=vystart,vzstart=vzstart,indx=indx,
-            nsphere=nsphere,rmin=rmin,rmax=rmax,nmax=nmax)
+            nsphere=nsphere,rmin=rmin,rmax=rmax,nmax=nmax,method=method,nneighbour=nneighbour)
 
         self._set_centre(xc,yc,zc,vxc,vyc,vzc,reset_centre=reset_centre)
 
-- 
2.43.0


From bb38ab6b77fd33583575c047747c3d7ff16f4b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 020/117] fix: a centre found exactly at the orbit position
 replaces an earlier centre

---
 clustertools/cluster/cluster.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index b289329..710d331 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2337,8 +2337,6 @@ class StarCluster(object):
                     self.vxgc, self.vygc, self.vzgc = vxc, vyc, vzc
                     self.xc, self.yc, self.zc = 0.0, 0.0, 0.0
                     self.vxc, self.vyc, self.vzc = 0.0, 0.0, 0.0
-                elif (self.xgc, self.ygc, self.zgc,self.vxgc, self.vygc, self.vzgc)==(xc,yc,zc,vxc,vyc,vzc):
-                    pass
                 else:
                     self.xc,self.yc,self.zc=xc-self.xgc,yc-self.ygc,zc-self.zgc
                     self.vxc,self.vyc,self.vzc=vxc-self.vxgc,vyc-self.vygc,vzc-self.vzgc
@@ -2350,8 +2348,6 @@ class StarCluster(object):
                     self.xc, self.yc, self.zc = 0.0 | u.pc, 0.0 | u.pc, 0.0 | u.pc
                     self.vxc, self.vyc, self.vzc = 0.0 | u.kms, 0.0 | u.kms , 0.0 | u.kms
 
-                elif (self.xgc, self.ygc, self.zgc,self.vxgc, self.vygc, self.vzgc)==(xc,yc,zc,vxc,vyc,vzc):
-                    pass
                 else:
                     self.xc,self.yc,self.zc=xc-self.xgc,yc-self.ygc,zc-self.zgc
                     self.vxc,self.vyc,self.vzc=vxc-self.vxgc,vyc-self.vygc,vzc-self.vzgc
-- 
2.43.0


From fd68ee7a921ed464c775113f4c7a54fd375c4d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 021/117] fix: N-body length scales from half-mass radii
 respect projected

---
 clustertools/cluster/operations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 68795a1..2ad8203 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1443,7 +1443,11 @@ def reset_nbody_scale(cluster, mass=True, radii=True, rvirial=True, projected=Fa
 
             rbar=cluster.rv
         else:
-            rbar = 4.0 * cluster.rm / 3.0
+            cluster.analyze()
+            if projected:
+                rbar = 4.0 * cluster.rmpro / 3.0
+            else:
+                rbar = 4.0 * cluster.rm / 3.0
     else:
         rbar = cluster.rbar
 
-- 
2.43.0


From df73857b90e29a4c01c23c190939c072bbf1f2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 022/117] fix: relaxation times within a given radius

---
 clustertools/analysis/functions.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index a0319c1..827cb0e 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -504,13 +504,18 @@ def relaxation_time(cluster, rad=None, coulomb=0.4, projected=False,method='spit
     grav=_get_grav(cluster)
 
 
-    if rad is None and projected:
-        rad=cluster.rmpro
+    if projected:
         vel=cluster.vpro
-    elif rad is None:
-        rad=cluster.rm
+    else:
         vel=cluster.v
 
+    if rad is not None:
+        rad=_convert_length(float(rad),units0,cluster)
+    elif projected:
+        rad=cluster.rmpro
+    else:
+        rad=cluster.rm
+
     if projected:
         rindx=cluster.rpro <= rad
     else:
-- 
2.43.0


From 9ed5276da4a86e87946af2d6d59e58b1c1d7837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:13 +0000
Subject: [PATCH 023/117] fix: profiles over user defined bins leave out stars
 beyond the bins

---
 clustertools/analysis/profiles.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 7c60063..7632b7c 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -125,6 +125,8 @@ def rho_prof(
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         r_hist=np.zeros(len(r_mean))
+        #stars outside of the user defined bins are not part of the profile
+        indx=indx * (r >= r_lower[0]) * (r <= r_upper[-1])
     elif kwargs.pop('bintype','num')=='fix':
         r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
     else:
@@ -314,6 +316,10 @@ def m_prof(
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         r_hist=np.zeros(len(r_mean))
+        #stars outside of the user defined bins are not part of the profile
+        indx=indx * (r <= r_upper[-1])
+        if not cumulative:
+            indx=indx * (r >= r_lower[0])
     elif kwargs.pop('bintype','num')=='fix':
         r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
     else:
@@ -514,6 +520,8 @@ def alpha_prof(
         r_hist=np.zeros(len(r_mean))
         r_mean=np.zeros(len(r_mean))
 
+        #stars outside of the user defined bins are not part of the profile
+        indx=indx * (r >= r_lower[0]) * (r <= r_upper[-1])
         bin_idx=bin_index(r,r_lower,r_upper)
 
         for i in range(0,len(r_lower)):
@@ -786,6 +794,8 @@ def sigv_prof(
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         r_hist=np.zeros(len(r_mean))
+        #stars outside of the user defined bins are not part of the profile
+        indx=indx * (r >= r_lower[0]) * (r <= r_upper[-1])
 
     elif kwargs.pop('bintype','num')=='fix':
         r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
@@ -974,6 +984,8 @@ def beta_prof(
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         r_hist=np.zeros(len(r_mean))
+        #stars outside of the user defined bins are not part of the profile
+        indx=indx * (r >= r_lower[0]) * (r <= r_upper[-1])
     elif kwargs.pop('bintype','num')=='fix':
         r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
     else:
@@ -1214,6 +1226,8 @@ def v_prof(
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         r_hist=np.zeros(len(r_mean))
+        #stars outside of the user defined bins are not part of the profile
+        indx=indx * (r >= r_lower[0]) * (r <= r_upper[-1])
     elif kwargs.pop('bintype','num')=='fix':
         r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
     else:
@@ -1430,6 +1444,8 @@ def v2_prof(
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         r_hist=np.zeros(len(r_mean))
+        #stars outside of the user defined bins are not part of the profile
+        indx=indx * (r >= r_lower[0]) * (r <= r_upper[-1])
     elif kwargs.pop('bintype','num')=='fix':
         r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
     else:
-- 
2.43.0


From 3b4d8dc2917823fa2b1a2efaa0e0907a8896d181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 024/117] fix: density and mass profiles are normalized by the
 half-mass radius they were measured with

---
 clustertools/analysis/profiles.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 7632b7c..83040e1 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -187,7 +187,7 @@ def rho_prof(
         x, y, n = rprof, pprof, nprof
 
         if normalize:
-            x/=cluster.rm
+            x=x/cluster.rm
 
         _lplot(
             x,
@@ -205,15 +205,15 @@ def rho_prof(
             plt.savefig(filename)
 
 
+    if normalize:
+        rprof=rprof/cluster.rm
+
     units=cluster.units
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
-    rprof=_convert_length(rprof,units,cluster)
+    if not normalize: rprof=_convert_length(rprof,units,cluster)
     pprof=_convert_density(pprof,units,cluster,projected=projected)
 
-    if normalize:
-        rprof/=cluster.rm
-
     return rprof, pprof, nprof
 
 
@@ -363,7 +363,7 @@ def m_prof(
         x, y, n = rprof, mprof, nprof
 
         if normalize:
-            x/=cluster.rm
+            x=x/cluster.rm
 
         _lplot(
             x,
@@ -380,15 +380,15 @@ def m_prof(
         if filename != None:
             plt.savefig(filename)
 
+    if normalize:
+        rprof=rprof/cluster.rm
+
     units=cluster.units
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
-    rprof=_convert_length(rprof,units,cluster)
+    if not normalize: rprof=_convert_length(rprof,units,cluster)
     mprof=_convert_mass(mprof,units,cluster)
 
-    if normalize:
-        rprof/=cluster.rm
-
     return rprof, mprof, nprof
 
 def alpha_prof(
-- 
2.43.0


From 3ce48df57e5373d69d510c48204f7e8166a40c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:37 +0000
Subject: [PATCH 025/117] fix: mean and mean square velocity profiles along
 every documented coordinate

---
 clustertools/analysis/profiles.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 83040e1..8c94134 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -1193,14 +1193,15 @@ def v_prof(
             )
         else:
             r, phi, theta, vr, vp, vt = sphere_coords(cluster)
+            vz=cluster.vz
 
-        if coord =='r':
+        if coord =='r' or coord=='vr':
             v=vr
             ylabel=r"$<v_r>$"
-        elif coord=='phi':
+        elif coord=='phi' or coord=='vp' or coord=='vphi':
             v=vp
             ylabel=r"$<v_p>$"
-        elif coord=='theta':
+        elif coord=='theta' or coord=='vt' or coord=='vtheta':
             v=vt
             ylabel=r"$<v_t>$"
         elif coord=='x' or coord=='vx':
@@ -1422,17 +1423,24 @@ def v2_prof(
             )
         else:
             r, phi, theta, vr, vp, vt = sphere_coords(cluster)
+            vz=cluster.vz
 
-        if coord =='r':
+        if coord =='r' or coord=='vr':
             v=vr
             ylabel=r"$<v_r^2>$"
-        elif coord=='phi':
+        elif coord=='phi' or coord=='vp' or coord=='vphi':
             v=vp
             ylabel=r"$<v_p^2>$"
-        elif coord=='theta':
+        elif coord=='theta' or coord=='vt' or coord=='vtheta':
             v=vt
             ylabel=r"$<v_t^2>$"
-        elif coord=='z':
+        elif coord=='x' or coord=='vx':
+            v=cluster.vx
+            ylabel=r"$<v_x^2>$"
+        elif coord=='y' or coord=='vy':
+            v=cluster.vy
+            ylabel=r"$<v_y^2>$"
+        elif coord=='z' or coord=='vz':
             v=vz
             ylabel=r"$<v_z^2>$"
     else:
-- 
2.43.0


From 8bfefd374eecdd5c8786b680939d8b6d793edecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 026/117] fix: circular velocity profile sums the selected
 stars in order of radius

---
 clustertools/analysis/profiles.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 8c94134..c033168 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -1937,7 +1937,7 @@ def vcirc_prof(
         cluster.to_pckms()
 
     if origin0 != 'cluster' and origin0 != 'centre':
-        cluster.to_centre(sortstars=normalize)
+        cluster.to_centre()
     else:
         cluster.sortstars()
 
@@ -1991,9 +1991,15 @@ def vcirc_prof(
 
     indx=cluster.subset(rmin=rmin,rmax=rmax,vmin=vmin,vmax=vmax,mmin=mmin,mmax=mmax,emin=emin,emax=emax,kwmin=kwmin,kwmax=kwmax,npop=npop,indx=indx,projected=projected)
 
-    r = r[indx]
-    v = v[indx]
-    m = m[indx]
+    #stars are in order of radius
+    if projected:
+        sindx=indx[cluster.rproorder]
+    else:
+        sindx=indx[cluster.rorder]
+
+    r = r[sindx]
+    v = v[sindx]
+    m = m[sindx]
 
     msum = np.cumsum(m)
     vcirc = np.sqrt(grav * msum / r)
@@ -2006,12 +2012,12 @@ def vcirc_prof(
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
     elif kwargs.get('bintype','num')=='fix' and nrad is not None:
-        r_lower, r_mean, r_upper, r_hist = binmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = binmaker(r, nrad)
         args=np.zeros(len(r_mean))
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
     elif kwargs.get('bintype','num')=='num' and nrad is not None:
-        r_lower, r_mean, r_upper, r_hist = nbinmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = nbinmaker(r, nrad)
         args=np.zeros(len(r_mean))
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
-- 
2.43.0


From 8f7e4ed3a08ca9d08fb126b498528ee319dc8bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:41 +0000
Subject: [PATCH 027/117] fix: fixed width bins hold the extreme values of the
 data

---
 clustertools/util/recipes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/clustertools/util/recipes.py b/clustertools/util/recipes.py
index 7cffe5c..af6e60b 100644
--- a/clustertools/util/recipes.py
+++ b/clustertools/util/recipes.py
@@ -127,6 +127,8 @@ def binmaker(x, nbin=10, nsum=False, steptype="linear"):
         steps = np.linspace(np.amin(x), np.amax(x), nbin + 1)
     else:
         steps = np.logspace(np.log10(np.amin(x)), np.log10(np.amax(x)), nbin + 1)
+        #going through the logarithm must not leave out the extreme values
+        steps[0], steps[-1] = np.amin(x), np.amax(x)
 
     x_lower = steps[:-1]
     x_upper = steps[1:]
@@ -270,6 +272,11 @@ def roaming_binmaker(x, nbin=10, ntot=20, nsum=False, steptype="linear"):
                 
         x_mid=10.0**((np.log10(x_upper)+np.log10(x_lower))/2.)
 
+    #round-off must not leave out the extreme values
+    x_lower[0]=np.amin(x)
+    if ntot > 1:
+        x_upper[-1]=np.amax(x)
+
     x_hist=np.array([])
     x_sum=np.array([])
 
-- 
2.43.0


From c93d2861e162d6c7240e9b821661265e24f62edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:41 +0000
Subject: [PATCH 028/117] fix: samples of a rising power law follow it between
 the limits

---
 clustertools/util/recipes.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/clustertools/util/recipes.py b/clustertools/util/recipes.py
index af6e60b..4daa7dc 100644
--- a/clustertools/util/recipes.py
+++ b/clustertools/util/recipes.py
@@ -322,9 +322,7 @@ def power_law_distribution_function(n, alpha, xmin, xmax):
         x = xmin
     elif alpha == 0:
         x = xmin + np.random.random(n) * (xmax - xmin)
-    elif alpha > 0:
-        x = xmin + np.random.power(eta, n) * (xmax - xmin)
-    elif alpha < 0 and alpha != -1.0:
+    elif alpha != -1.0:
         x = (xmin ** eta + (xmax ** eta - xmin ** eta) * np.random.rand(n)) ** (
             1.0 / eta
         )
-- 
2.43.0


From b0282fcc9cf030f740f682f78364cd0fe3424523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 029/117] fix: velocity dispersion against mass when mass bins
 coincide

---
 clustertools/analysis/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 827cb0e..895082a 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1785,7 +1785,7 @@ def eta_function(
 
         sigvm = []
         lsigvm = []
-        for i in range(0, nmass):
+        for i in range(0, len(m_mean)):
 
             mindx = indx * (bin_idx==i)
             sigvm.append(np.std(v[mindx]))
-- 
2.43.0


From 679eb794eedf262980a67658947a6a7de02ca7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 030/117] fix: mass function slope is fit to the populated mass
 bins

---
 clustertools/analysis/functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 895082a..338221d 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1469,9 +1469,10 @@ def mass_function(
 
         lm_mean = np.log10(m_mean)
         dm = m_corr_hist / (m_upper - m_lower)
-        ldm = np.log10(dm)
+        ldm = np.log10(dm, where=dm > 0, out=np.full(len(dm), np.nan))
 
-        (alpha, yalpha), V = np.polyfit(lm_mean, ldm, 1, cov=True)
+        populated = np.isfinite(ldm)
+        (alpha, yalpha), V = np.polyfit(lm_mean[populated], ldm[populated], 1, cov=True)
         ealpha = np.sqrt(V[0][0])
         eyalpha = np.sqrt(V[1][1])
 
-- 
2.43.0


From 3717977420e7200583b4fe71ccc56656345260e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 031/117] fix: mass function of a cluster with a completeness
 correction

---
 clustertools/cluster/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 710d331..ae84b81 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2761,7 +2761,7 @@ class StarCluster(object):
         if projected==None:
             projected=self.projected
 
-        m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha = mass_function(
+        m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha, *mbinerror = mass_function(
             self,
             mmin=mmin,
             mmax=mmax,
-- 
2.43.0


From 05e6bbe6a9ac69c05e7608ee0802367d74570e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 032/117] fix: tapered mass function of a cluster object or of
 too few stars

---
 clustertools/analysis/functions.py | 4 ++++
 clustertools/cluster/cluster.py    | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 338221d..1c45009 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1680,6 +1680,10 @@ def tapered_mass_function(
             -1000.0,
             -1000.0,
             -1000.0,
+            -1000.0,
+            -1000.0,
+            -1000.0,
+            -1000.0,
         )
 
 
diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index ae84b81..4626592 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2786,7 +2786,7 @@ class StarCluster(object):
         return self.alpha
 
     def tapered_mass_function(
-        cluster,
+        self,
         mmin=None,
         mmax=None,
         nmass=10,
@@ -2859,7 +2859,7 @@ class StarCluster(object):
             projected=self.projected
 
         m_mean, m_hist, dm, A, eA, alpha, ealpha, mc, emc, beta, ebeta= tapered_mass_function(
-            cluster,
+            self,
             mmin=mmin,
             mmax=mmax,
             nmass=nmass,
-- 
2.43.0


From e0b4c1ce08ef81f425678857aeb04118e616f562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 033/117] fix: mass function profile honours the requested
 stellar types

---
 clustertools/analysis/profiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index c033168..a201fc4 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -553,10 +553,10 @@ def alpha_prof(
         rindx = indx * (bin_idx==i)
 
         if return_error:
-            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha, mbinerror = mass_function(cluster,nmass=nmass,indx=rindx,projected=projected,mcorr=mcorr,plot=False,**kwargs)
+            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha, mbinerror = mass_function(cluster,nmass=nmass,kwmin=kwmin,kwmax=kwmax,indx=rindx,projected=projected,mcorr=mcorr,plot=False,**kwargs)
             rbinerror[i]=np.amin(mbinerror)
         else:
-            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha = mass_function(cluster,nmass=nmass,indx=rindx,projected=projected,mcorr=None,plot=False,**kwargs)
+            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha = mass_function(cluster,nmass=nmass,kwmin=kwmin,kwmax=kwmax,indx=rindx,projected=projected,mcorr=None,plot=False,**kwargs)
             rbinerror[i]=1.
 
         if alpha > -100:
-- 
2.43.0


From 547d63f4d2bda5f0889b5dbc91bcff9c93fa074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 034/117] fix: slope profiles against radius in units of the
 current half-mass radius

---
 clustertools/analysis/profiles.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index a201fc4..8061157 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -494,8 +494,8 @@ def alpha_prof(
         cluster.to_pckms()
 
     if origin0 != 'cluster' and origin0 != 'centre':
-        cluster.to_centre(sortstars=normalize)
-    elif normalize:
+        cluster.to_centre(sortstars=True)
+    else:
         cluster.sortstars()
 
 
@@ -1595,8 +1595,8 @@ def eta_prof(
         cluster.to_pckms()
 
     if origin0 != 'cluster' and origin0 != 'centre':
-        cluster.to_centre(sortstars=normalize)
-    elif normalize:
+        cluster.to_centre(sortstars=True)
+    else:
         cluster.sortstars()
 
     if projected:
-- 
2.43.0


From 720b7b964186af8b5a3a6e3d73eb3950c19b02e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 035/117] fix: dispersion-mass slope profile uses the selected
 stars of each radial bin

---
 clustertools/analysis/profiles.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 8061157..557a14c 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -1647,10 +1647,13 @@ def eta_prof(
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         r_hist=np.zeros(len(r_mean))
+        indx=indx * (r >= r_lower[0]) * (r <= r_upper[-1])
     elif kwargs.pop('bintype','num')=='fix':
-        r_lower, r_mean, r_upper, r_hist = binmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
     else:
-        r_lower, r_mean, r_upper, r_hist = nbinmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = nbinmaker(r[indx], nrad)
+
+    bin_idx = bin_index(r,r_lower,r_upper)
 
     if normalize:
         if projected:
@@ -1663,18 +1666,14 @@ def eta_prof(
     eprof=np.zeros(len(rprofn))
 
     for i in range(0, len(r_mean)):
+        rindx = indx * (bin_idx==i)
 
         m_mean, sigvm, eta, eeta, yeta, eyeta = eta_function(
             cluster,
-            mmin=mmin,
-            mmax=mmax,
             nmass=nmass,
-            rmin=r_lower[i],
-            rmax=r_upper[i],
-            vmin=vmin,
-            vmax=vmax,
             kwmin=kwmin,
             kwmax=kwmax,
+            indx=rindx,
             projected=projected,
             meq=meq,
             **kwargs,
-- 
2.43.0


From 3f5df8fa4dfa3ce07e3f67d4e43ca035e1c1c679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 036/117] fix: kinematic concentration of a cluster in
 galactocentric coordinates

---
 clustertools/analysis/functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 1c45009..79fb653 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2025,6 +2025,9 @@ def ckin(
     if cluster.units=='amuse':
         cluster.to_pckms()
 
+    if origin0 != 'cluster' and origin0 != 'centre':
+        cluster.to_centre()
+
     rn=rlagrange(cluster, nlagrange=10, projected=projected)
 
     m_mean50, sigvm50, meq50, emq50, sigma050, esigma050 = eta_function(cluster,
-- 
2.43.0


From 330c87280e5e4952af43149fb69db904559bf8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:00 +0000
Subject: [PATCH 037/117] fix: equipartition mass fit does not depend on the
 units of the cluster

---
 clustertools/analysis/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 79fb653..fa0cff5 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1797,7 +1797,11 @@ def eta_function(
             lsigvm.append(np.log10(sigvm[-1]))
 
         if meq:
-            (eta, yeta), V=curve_fit(meq_func,10.0**np.array(lm_mean),10.0**np.array(lsigvm),bounds=([np.amin(cluster.m),0.],[np.amax(cluster.m),np.inf]))
+            #Fit masses and dispersions relative to their means, so the fit does not depend on units
+            scale=np.array([np.mean(m_mean),np.mean(sigvm)])
+            (eta, yeta), V=curve_fit(meq_func,np.array(m_mean)/scale[0],np.array(sigvm)/scale[1],bounds=([np.amin(cluster.m)/scale[0],0.],[np.amax(cluster.m)/scale[0],np.inf]))
+            eta, yeta = eta*scale[0], yeta*scale[1]
+            V = V*np.outer(scale,scale)
         else:
             (eta, yeta), V = np.polyfit(lm_mean, lsigvm, 1, cov=True)
 
-- 
2.43.0


From 4012cec89e1bbb9477e389589ccfa91aaebc146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:10 +0000
Subject: [PATCH 038/117] fix: closest star to a star with coincident
 neighbours is not itself

---
 clustertools/analysis/functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index fa0cff5..62bca39 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -988,6 +988,9 @@ def closest_star(cluster, projected=False, argument=False):
         tree=cKDTree(x)
         dist, arg = tree.query(x, k=2)
 
+        #A star that coincides with another can be listed after it
+        arg[:,1]=np.where(arg[:,1]==np.arange(len(x)),arg[:,0],arg[:,1])
+
         if argument:
             return dist[:,1],arg[:,1]
         else:
-- 
2.43.0


From 58d44d29e836b3009ba27475e1fae63c89c5f2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:10 +0000
Subject: [PATCH 039/117] fix: closest star on the sky is returned

---
 clustertools/analysis/functions.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 62bca39..f7a52a9 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -974,9 +974,7 @@ def closest_star(cluster, projected=False, argument=False):
 
         x=np.column_stack([cluster.x,cluster.y])
         tree=cKDTree(x)
-        dist, arg = tree.query(x, k=5)
-
-        
+        dist, arg = tree.query(x, k=2)
 
     else:
 
@@ -988,13 +986,13 @@ def closest_star(cluster, projected=False, argument=False):
         tree=cKDTree(x)
         dist, arg = tree.query(x, k=2)
 
-        #A star that coincides with another can be listed after it
-        arg[:,1]=np.where(arg[:,1]==np.arange(len(x)),arg[:,0],arg[:,1])
+    #A star that coincides with another can be listed after it
+    arg[:,1]=np.where(arg[:,1]==np.arange(len(x)),arg[:,0],arg[:,1])
 
-        if argument:
-            return dist[:,1],arg[:,1]
-        else:
-            return dist[:,1]
+    if argument:
+        return dist[:,1],arg[:,1]
+    else:
+        return dist[:,1]
 
 def rlagrange(cluster, nlagrange=10, mfrac=None, projected=False):
     """Calculate lagrange radii of the cluster by mass
-- 
2.43.0


From de6b14cb5c28a71c04a87212f6b70f3440694771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 040/117] fix: velocities, masses and densities converted
 between unit systems

---
 clustertools/util/units.py | 42 +++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index b4a7d48..2e33bd0 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -145,7 +145,7 @@ def _convert_velocity(x,units,cluster):
                     x*=1.022712165045695
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x*=cluster.vbar
-                if cluster.units=='kpcgyr':
+                if cluster.units=='kpcgyr' or cluster.units=='WDunits':
                     x*=1.022712165045695
             elif cluster.units=='galpy':
                 x*=cluster.vbar/cluster._vo
@@ -161,6 +161,8 @@ def _convert_velocity(x,units,cluster):
 
             if cluster.units=='nbody':
                 x/=cluster.vbar
+            elif cluster.units=='pcmyr' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                x*=1.022712165045695
             elif cluster.units=='galpy':
                 x/=cluster._vo
             elif cluster.units=='radec':
@@ -169,10 +171,12 @@ def _convert_velocity(x,units,cluster):
                 x=x | u.kms
 
         elif units=='kpckms' or units=='kpcgyr' or units=='WDunits':
-            if units=='kpcgyr': 
+            if units=='kpcgyr' or units=='WDunits':
                 x/=1.022712165045695
             if cluster.units=='nbody':
                 x/=cluster.vbar
+            elif cluster.units=='pcmyr' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                x*=1.022712165045695
             elif cluster.units=='amuse':
                 x= x | u.kms
             elif cluster.units=='galpy':
@@ -189,6 +193,8 @@ def _convert_velocity(x,units,cluster):
                     x*=1.022712165045695
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x*=cluster._vo
+                if cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                    x*=1.022712165045695
             elif cluster.units=='nbody':
                 x*=(cluster._vo/cluster.vbar)
             elif cluster.units=='radec':
@@ -234,7 +240,7 @@ def _convert_square_velocity(x,units,cluster):
                     x*=(1.022712165045695**2.0)
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x*=(cluster.vbar**2.)
-                if cluster.units=='kpcgyr':
+                if cluster.units=='kpcgyr' or cluster.units=='WDunits':
                     x*=(1.022712165045695**2.0)
             elif cluster.units=='galpy':
                 x*=((cluster.vbar/cluster._vo)**2.)
@@ -252,6 +258,8 @@ def _convert_square_velocity(x,units,cluster):
 
             if cluster.units=='nbody':
                 x/=(cluster.vbar**2.)
+            elif cluster.units=='pcmyr' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                x*=(1.022712165045695**2.0)
             elif cluster.units=='galpy':
                 x/=(cluster._vo**2.)
             elif cluster.units=='radec':
@@ -261,11 +269,13 @@ def _convert_square_velocity(x,units,cluster):
 
         elif units=='kpckms' or units=='kpcgyr' or units=='WDunits':
 
-            if units=='kpcgyr':
+            if units=='kpcgyr' or units=='WDunits':
                 x/=(1.022712165045695**2.0)
 
             if cluster.units=='nbody':
                 x/=(cluster.vbar**2.)
+            elif cluster.units=='pcmyr' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                x*=(1.022712165045695**2.0)
             elif cluster.units=='amuse':
                 x= x | (u.kms*u.kms)
             elif cluster.units=='galpy':
@@ -278,12 +288,12 @@ def _convert_square_velocity(x,units,cluster):
                 x*=(cluster._vo**2.)
                 if cluster.units=='amuse':
                     x= x | (u.kms*u.kms)
-                elif units=='pcmyr':
-                    x/=(1.022712165045695**2.0)
+                elif cluster.units=='pcmyr':
+                    x*=(1.022712165045695**2.0)
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x*=(cluster._vo**2.)
-                if units=='kpcgyr':
-                    x/=(1.022712165045695**2.0)
+                if cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                    x*=(1.022712165045695**2.0)
             elif cluster.units=='nbody':
                 x*=((cluster._vo/cluster.vbar)**2.)
             elif cluster.units=='radec':
@@ -413,12 +423,12 @@ def _convert_mass(x,units,cluster):
             if cluster.units=='amuse':
                 x= x | u.MSun
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
             elif cluster.units=='WDunits':
                 x/=222288.4543021174
 
         elif units=='galpy':
-            x *= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+            x *= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
 
             if cluster.units=='amuse':
                 x= x | u.MSun
@@ -435,7 +445,7 @@ def _convert_mass(x,units,cluster):
             elif cluster.units=='amuse':
                 x= x | u.MSun
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
 
         else:
             if units=='amuse':
@@ -444,7 +454,7 @@ def _convert_mass(x,units,cluster):
             if cluster.units=='nbody':
                 x/=cluster.zmbar
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
             elif cluster.units=='WDunits':
                 x/=222288.4543021174
             elif cluster.units=='amuse':
@@ -522,7 +532,7 @@ def _convert_density(x,units,cluster,projected=False):
             elif cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
                 x/=(1000.0**power)
                 if cluster.units=='amuse':
-                    x/= 1 | (u.parsec*u.parsec*u.parsec)
+                    x/= (1 | u.parsec)**power
             elif cluster.units=='galpy':
                 x*=(cluster._ro**power)
             elif cluster.units=='radec':
@@ -531,15 +541,15 @@ def _convert_density(x,units,cluster,projected=False):
 
         elif units=='galpy':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
-                x/=((1000.0*cluster._ro)**3.0)
+                x/=((1000.0*cluster._ro)**power)
                 if cluster.units=='amuse':
-                    x/= 1 | (u.parsec*u.parsec*u.parsec)
+                    x/= (1 | u.parsec)**power
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x/=(cluster._ro**power)
             elif cluster.units=='nbody':
                 x/=((cluster._ro*1000.0/cluster.rbar)**power)
             elif cluster.units=='radec':
-                x/=(cluster._ro**3.0)
+                x/=(cluster._ro**power)
                 kpc_deg=np.degrees(np.arctan2(1.0,cluster.zgc))
                 x/=(kpc_deg**power)
 
-- 
2.43.0


From f097e01cb81b9f98e73b6912eaa3262099d3a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 041/117] fix: orbits given in other units are converted to the
 units of any cluster

---
 clustertools/cluster/cluster.py | 36 ++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 4626592..e40ea82 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -881,7 +881,7 @@ class StarCluster(object):
                     vxgc *= self.vbar
                     vygc *= self.vbar
                     vzgc *= self.vbar
-                    tphys *= self.tbar
+                    tphys *= self.tbar / 1000.0
                 elif ounits == "galpy":
                     xgc *= ro
                     ygc *= ro
@@ -907,8 +907,11 @@ class StarCluster(object):
                     vxgc/=1.022712165045695
                     vygc/=1.022712165045695
                     vzgc/=1.022712165045695
-
-
+                elif ounits == 'WDunits':
+                    vcon = vo / conversion.velocity_in_kpcGyr(vo=vo, ro=ro)
+                    vxgc*=vcon
+                    vygc*=vcon
+                    vzgc*=vcon
                 elif ounits == 'radec':
                     o=Orbit([xgc,ygc,zgc,vxgc,vygc,vzgc],radec=True,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
                     xgc=o.x()
@@ -925,6 +928,33 @@ class StarCluster(object):
                 ygc *= 1000.0
                 zgc *= 1000.0
                 tphys *= 1000.0
+            elif self.units == "pcmyr":
+                xgc *= 1000.0
+                ygc *= 1000.0
+                zgc *= 1000.0
+                vxgc*=1.022712165045695
+                vygc*=1.022712165045695
+                vzgc*=1.022712165045695
+                tphys *= 1000.0
+            elif self.units == "kpcgyr":
+                vxgc*=1.022712165045695
+                vygc*=1.022712165045695
+                vzgc*=1.022712165045695
+            elif self.units == "WDunits":
+                vcon = vo / conversion.velocity_in_kpcGyr(vo=vo, ro=ro)
+                vxgc/=vcon
+                vygc/=vcon
+                vzgc/=vcon
+            elif self.units == "radec":
+                R, phi, z = coords.rect_to_cyl(xgc, ygc, zgc)
+                vR, vT, vz = coords.rect_to_cyl_vec(vxgc, vygc, vzgc, xgc, ygc, zgc)
+                o=Orbit([R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi],ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+                xgc,ygc,zgc=o.ra(),o.dec(),o.dist()
+                vxgc,vygc,vzgc=o.pmra(),o.pmdec(),o.vlos()
+            elif self.units == "amuse":
+                xgc,ygc,zgc = xgc | u.kpc, ygc | u.kpc, zgc | u.kpc
+                vxgc,vygc,vzgc = vxgc | u.kms, vygc | u.kms, vzgc | u.kms
+                tphys = tphys | u.Gyr
             elif self.units == "nbody":
                 xgc *= 1000.0 / self.rbar
                 ygc *= 1000.0 / self.rbar
-- 
2.43.0


From 4c0688e36f194a07b2b7e941ff89366fee66ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 042/117] fix: a cluster created with an orbit is at its
 position in the units of the cluster

---
 clustertools/cluster/cluster.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index e40ea82..abc785c 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -405,6 +405,10 @@ class StarCluster(object):
         self.ngroups=0
         self.ngroup=0
 
+        #Orbits are in kpc and km/s
+        if self.orbit is not None and self.units is not None and self.units != 'radec':
+            self.add_orbit(self.orbit.x(),self.orbit.y(),self.orbit.z(),self.orbit.vx(),self.orbit.vy(),self.orbit.vz(),ounits='kpckms')
+
     def add_stars(
         self, x, y, z, vx, vy, vz,m=None,id=None,m0=None,npop=None,nb=0,sortstars=False,analyze=True
     ):
-- 
2.43.0


From fe4606d04cd1580f5f5491be8b504ddb81d9c0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 043/117] fix: orbits start at the cluster's centre in sky
 coordinates, and at its position for any Galactic scales

---
 clustertools/analysis/orbits.py | 38 +++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index cc5aa9e..50c16be 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -71,7 +71,23 @@ def initialize_orbit(cluster, from_centre=False, ro=None, vo=None, zo = None, so
     if zo is None: zo=cluster._zo
     if solarmotion is None: solarmotion=cluster._solarmotion
 
-    if cluster.units == "radec":
+    if cluster.units == "radec" and from_centre and cluster.dist_c != 0.0:
+        o = Orbit(
+            [
+                cluster.ra_c,
+                cluster.dec_c,
+                cluster.dist_c,
+                cluster.pmra_c,
+                cluster.pmdec_c,
+                cluster.vlos_c,
+            ],
+            radec=True,
+            ro=ro,
+            vo=vo,
+            zo=zo,
+            solarmotion=solarmotion,
+        )
+    elif cluster.units == "radec":
         o = Orbit(
             [
                 cluster.ra_gc,
@@ -97,12 +113,16 @@ def initialize_orbit(cluster, from_centre=False, ro=None, vo=None, zo = None, so
         vx, vy, vz = cluster.vxgc, cluster.vygc, cluster.vzgc
 
         if from_centre:
-            x+=cluster.xc
-            y+=cluster.yc
-            z+=cluster.zc
-            vx+=cluster.vxc
-            vy+=cluster.vyc
-            vz+=cluster.vzc
+            x = x + cluster.xc
+            y = y + cluster.yc
+            z = z + cluster.zc
+            vx = vx + cluster.vxc
+            vy = vy + cluster.vyc
+            vz = vz + cluster.vzc
+
+        # the requested scales may differ from those of the cluster
+        x, y, z = x * (cluster._ro / ro), y * (cluster._ro / ro), z * (cluster._ro / ro)
+        vx, vy, vz = vx * (cluster._vo / vo), vy * (cluster._vo / vo), vz * (cluster._vo / vo)
 
 
         R, phi, z = coords.rect_to_cyl(x, y, z)
@@ -172,6 +192,10 @@ def initialize_orbits(cluster, ro=None, vo=None, zo = None, solarmotion=None):
         x, y, z = cluster.x, cluster.y, cluster.z
         vx, vy, vz = cluster.vx, cluster.vy, cluster.vz
 
+        # the requested scales may differ from those of the cluster
+        x, y, z = x * (cluster._ro / ro), y * (cluster._ro / ro), z * (cluster._ro / ro)
+        vx, vy, vz = vx * (cluster._vo / vo), vy * (cluster._vo / vo), vz * (cluster._vo / vo)
+
         R, phi, z = coords.rect_to_cyl(x, y, z)
         vR, vT, vz = coords.rect_to_cyl_vec(vx, vy, vz, x, y, z)
 
-- 
2.43.0


From 8c994b0de56b7fad1f9582aaf1eb387c420380c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 044/117] fix: orbit_interpolate and orbits_interpolate call
 the functions they stand for

---
 clustertools/analysis/orbits.py | 4 ++--
 clustertools/cluster/cluster.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 50c16be..b9f7e1e 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -566,7 +566,7 @@ def orbit_interpolate(
     -------
     2021 - Written - Webb (UofT)
     """
-    return interpolate_orbit(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion,plot=False)
+    return interpolate_orbit(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion)
 
 def orbits_interpolate(
     cluster,
@@ -614,7 +614,7 @@ def orbits_interpolate(
     -------
     2021 - Written - Webb (UofT)
     """
-    return interpolate_orbits(cluster, cluster_pot=cluster_pot, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion,plot=False)
+    return interpolate_orbits(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion)
 
 
 def orbital_path(
diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index abc785c..d4fd7e5 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3505,7 +3505,7 @@ class StarCluster(object):
         -------
         2021 - Written - Webb (UofT)
         """
-        self.interpolate_orbit(self,pot=pot,tfinal=tfinal,nt=nt,from_centre=from_centre,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+        return self.interpolate_orbit(pot=pot,tfinal=tfinal,nt=nt,from_centre=from_centre,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
 
     def interpolate_orbits(self,pot=None,tfinal=None,nt=1000,ro=None,vo=None,zo=None,solarmotion=None):
@@ -3614,7 +3614,7 @@ class StarCluster(object):
         -------
         2021 - Written - Webb (UofT)
         """
-        self.interpolate_orbits(self,pot=pot,tfinal=tfinal,nt=nt,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+        return self.interpolate_orbits(pot=pot,tfinal=tfinal,nt=nt,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
     def orbital_path(self,tfinal=0.1,nt=1000,pot=None,from_centre=False,
         skypath=False,initialize=False,ro=None,vo=None,zo=None,solarmotion=None, plot=False,**kwargs):
-- 
2.43.0


From 06f0fb7cdb9a128de7def8b0b968572dbbb26bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 045/117] fix: initializing an added orbit keeps the units of a
 cluster on the sky

---
 clustertools/cluster/cluster.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index d4fd7e5..ba45028 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1017,13 +1017,7 @@ class StarCluster(object):
                     self.vlos += self.vlos_gc
 
         if initialize:
-            if self.origin=='galaxy' or self.origin=='sky':
-                self.initialize_orbit(from_centre=from_centre,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
-            else:
-                origin0=self.origin
-                self.to_galaxy()
-                self.initialize_orbit(from_centre=from_centre,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
-                self.to_origin(origin0)
+            self.initialize_orbit(from_centre=from_centre,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
 
     def add_nbody6(
-- 
2.43.0


From 6fd216db43883dd202c3d42816c7b242610865cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:29 +0000
Subject: [PATCH 046/117] fix: orbital path times with given Galactic scales
 are in the cluster's units

---
 clustertools/analysis/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index b9f7e1e..ebb2ce1 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -770,7 +770,7 @@ def orbital_path(
         vx=_convert_velocity(vx,'kpckms',cluster)
         vy=_convert_velocity(vy,'kpckms',cluster)
         vz=_convert_velocity(vz,'kpckms',cluster)
-        t=_convert_time(ts,'galpy',cluster)
+        t=_convert_time(ts*conversion.time_in_Gyr(ro=ro, vo=vo),'kpckms',cluster)
 
         if plot:
             filename = kwargs.pop("filename", None)
-- 
2.43.0


From cddf9faceebb4179b450b00f330ce3195470ff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:10 +0000
Subject: [PATCH 047/117] fix: loading or advancing with a galpy orbit places a
 cluster on it in the cluster's units

---
 clustertools/io/load.py | 103 ++++++++++++++++------------------------
 1 file changed, 41 insertions(+), 62 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 34cbc6a..1b534e8 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -290,48 +290,7 @@ def load_cluster(
 
     # Add galpy orbit if given
     if orbit is not None:
-        cluster.orbit = orbit
-        if cluster.units == "pckms":
-            t = (cluster.tphys / 1000.0) / conversion.time_in_Gyr(ro=solar_ro, vo=solar_vo)
-            cluster.add_orbit(
-                orbit.x(t) * 1000.0,
-                orbit.y(t) * 1000.0,
-                orbit.z(t) * 1000.0,
-                orbit.vx(t),
-                orbit.vy(t),
-                orbit.vz(t),
-            )
-        if cluster.units == "kpckms":
-            cluster.add_orbit(
-                orbit.x(t),
-                orbit.y(t),
-                orbit.z(t),
-                orbit.vx(t),
-                orbit.vy(t),
-                orbit.vz(t),
-            )
-        elif cluster.units == "nbody":
-            t = (cluster.tphys * cluster.tbar / 1000.0) / conversion.time_in_Gyr(
-                ro=solar_ro, vo=solar_vo
-            )
-            cluster.add_orbit(
-                orbit.x(t) * 1000.0 / cluster.rbar,
-                orbit.y(t) * 1000.0 / cluster.rbar,
-                orbit.z(t) * 1000.0 / cluster.rbar,
-                orbit.vx(t) / cluster.vbar,
-                orbit.vy(t) / cluster.vbar,
-                orbit.vz(t) / cluster.vbar,
-            )
-        elif cluster.units == "galpy":
-            t = cluster.tphys
-            cluster.add_orbit(
-                orbit.x(t) / 8.0,
-                orbit.y(t) / 8.0,
-                orbit.z(t) / 8.0,
-                orbit.vx(t) / 220.0,
-                orbit.vy(t) / 220.0,
-                orbit.vz(t) / 220.0,
-            )
+        _add_galpy_orbit(cluster, orbit)
 
         units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
@@ -622,29 +581,49 @@ def advance_cluster(
 
         # Add galpy orbit if given
         if orbit != None:
-            cluster.orbit = orbit
-            if cluster.units == "pckms" or cluster.units == "kpckms":
-                t = (cluster.tphys / 1000.0) / conversion.time_in_Gyr(
-                    ro=solar_ro, vo=solar_vo
-                )
-            elif cluster.units == "nbody":
-                t = (
-                    cluster.tphys * cluster.tbar / 1000.0
-                ) / conversion.time_in_Gyr(ro=solar_ro, vo=solar_vo)
-            elif cluster.units == "galpy":
-                t = cluster.tphys
-
-            cluster.add_orbit(
-                orbit.x(t),
-                orbit.y(t),
-                orbit.z(t),
-                orbit.vx(t),
-                orbit.vy(t),
-                orbit.vz(t),
-            )
+            _add_galpy_orbit(cluster, orbit)
 
     return cluster
 
+def _add_galpy_orbit(cluster, orbit):
+    """Place the cluster where a galpy orbit is at the cluster's time
+
+    Parameters
+    ----------
+    cluster : class
+        StarCluster
+    orbit : class
+        galpy orbit
+
+    Returns
+    -------
+    None
+    """
+    cluster.orbit = orbit
+
+    if cluster.units in ("pckms", "pcmyr"):
+        tgyr = cluster.tphys / 1000.0
+    elif cluster.units in ("kpckms", "kpcgyr", "WDunits"):
+        tgyr = cluster.tphys
+    elif cluster.units == "nbody":
+        tgyr = cluster.tphys * cluster.tbar / 1000.0
+    elif cluster.units == "galpy":
+        tgyr = cluster.tphys * conversion.time_in_Gyr(ro=cluster._ro, vo=cluster._vo)
+    else:
+        return
+
+    t = tgyr / conversion.time_in_Gyr(ro=orbit._ro, vo=orbit._vo)
+
+    cluster.add_orbit(
+        orbit.x(t),
+        orbit.y(t),
+        orbit.z(t),
+        orbit.vx(t),
+        orbit.vy(t),
+        orbit.vz(t),
+        ounits="kpckms",
+    )
+
 def _get_filename(filename,**kwargs):
     """assemble filename from **kwargs
 
-- 
2.43.0


From 0aaab210fc2256a354c19892beda0dde50135fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:10 +0000
Subject: [PATCH 048/117] fix: advanced clusters keep their Galactic scales,
 Solar motion and projection method

---
 clustertools/io/load.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 1b534e8..bf7f81a 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -733,6 +733,12 @@ def _get_advanced_kwargs(cluster, **kwargs):
 
     verbose = kwargs.pop('verbose',True)
 
+    ro = kwargs.pop('ro',cluster._ro)
+    vo = kwargs.pop('vo',cluster._vo)
+    zo = kwargs.pop('zo',cluster._zo)
+    solarmotion = kwargs.pop('solarmotion',cluster._solarmotion)
+    centre_method = kwargs.pop('centre_method',cluster.centre_method)
+
     return {
         "nsnap": nsnap,
         "dt": dt,
@@ -751,7 +757,12 @@ def _get_advanced_kwargs(cluster, **kwargs):
         "hdf5" : hdf5,
         "ngroups" : ngroups,
         "ngroup" : ngroup,
-        "verbose" : verbose
+        "verbose" : verbose,
+        "ro" : ro,
+        "vo" : vo,
+        "zo" : zo,
+        "solarmotion" : solarmotion,
+        "centre_method" : centre_method
     }, kwargs
 
 # /def
-- 
2.43.0


From e20ab0b781c3e4a997d983f82e74b06f9a1597be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:28 +0000
Subject: [PATCH 049/117] fix: a continued run is advanced in the units and
 origin it was loaded in

---
 clustertools/io/load.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index bf7f81a..0d31851 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -353,6 +353,7 @@ def advance_cluster(
     2018 - Written - Webb (UofT)
     """
     nsnap=None
+    units_init, origin_init = cluster.units_init, cluster.origin_init
     advance_kwargs, kwargs = _get_advanced_kwargs(cluster, **kwargs)
     #filename=_get_filename(filename,**advance_kwargs)
 
@@ -546,7 +547,7 @@ def advance_cluster(
     # Check for restart
     if cluster.ntot == 0.0:
         try:
-            wdir = cluster.wdir + "cont/"
+            wdir = os.path.join(cluster.wdir, "cont/")
         except:
             wdir = "./cont/"
 
@@ -555,7 +556,7 @@ def advance_cluster(
 
             if ofile is not None:
                 ofilename = ofile.name.split('/')[-1]
-                kwargs.pop('ofilename')
+                kwargs.pop('ofilename',None)
                 ofile=None
             else:
                 ofilename=kwargs.pop('ofilename',ofilename)
@@ -565,12 +566,12 @@ def advance_cluster(
             if nsnap is None:
 
                 cluster = load_cluster(
-                    ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,orbit=orbit,filename=filename,load_function=load_function,wdir=wdir,ofilename=ofilename,**advance_kwargs, **kwargs,
+                    ctype=cluster.ctype,units=units_init,origin=origin_init,orbit=orbit,filename=filename,load_function=load_function,wdir=wdir,ofilename=ofilename,**advance_kwargs, **kwargs,
                 )
 
             else:
                    cluster = load_cluster(
-                    ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,orbit=orbit,filename=filename,nsnap=nsnap,load_function=load_function,wdir=wdir,ofilename=ofilename,**advance_kwargs, **kwargs,
+                    ctype=cluster.ctype,units=units_init,origin=origin_init,orbit=orbit,filename=filename,nsnap=nsnap,load_function=load_function,wdir=wdir,ofilename=ofilename,**advance_kwargs, **kwargs,
                 )         
 
     if cluster.ntot != 0.0:
-- 
2.43.0


From 93441ee5393ec767bc6e7d302ba1a38336a5160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:28 +0000
Subject: [PATCH 050/117] fix: snapshots of a single star can be read

---
 clustertools/io/snapshot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/snapshot.py b/clustertools/io/snapshot.py
index 327ca98..9d32439 100644
--- a/clustertools/io/snapshot.py
+++ b/clustertools/io/snapshot.py
@@ -81,13 +81,14 @@ def _get_snapshot(
                 "%s%s%s" % (wdir, snapdir, filename),
                 delimiter=delimiter,
                 skiprows=skiprows,
+                ndmin=2,
             )
         elif os.path.isfile("%s%s" % (wdir, filename)):
             data = np.loadtxt(
-                "%s%s" % (wdir, filename), delimiter=delimiter, skiprows=skiprows
+                "%s%s" % (wdir, filename), delimiter=delimiter, skiprows=skiprows, ndmin=2
             )
         elif os.path.isfile(filename):
-            data = np.loadtxt(filename, delimiter=delimiter, skiprows=skiprows
+            data = np.loadtxt(filename, delimiter=delimiter, skiprows=skiprows, ndmin=2
             )
         else:
             print("NO FILE FOUND: %s, %s, %s" % (wdir, snapdir, filename))
@@ -110,6 +111,7 @@ def _get_snapshot(
             ),
             delimiter=delimiter,
             skiprows=skiprows,
+            ndmin=2,
         )
     elif os.path.isfile(
         "%s%s%s%s" % (wdir, snapbase, str(nsnap).zfill(nzfill), snapend)
@@ -119,6 +121,7 @@ def _get_snapshot(
             ("%s%s%s%s" % (wdir, snapbase, str(nsnap).zfill(nzfill), snapend)),
             delimiter=delimiter,
             skiprows=skiprows,
+            ndmin=2,
         )
     else:
         print(
-- 
2.43.0


From bc530935217bad1c2b7d21f2f6bc3b851dbf1cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 051/117] fix: energies and sky coordinates of a cluster
 without stellar types can be written

---
 clustertools/util/output.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index 05b864d..48b55b7 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -51,6 +51,9 @@ def snapout(cluster, filename, energies=False, radec=False):
     -------
     2018 - Written - Webb (UofT)
     """
+    #stellar types are written if they are known
+    kw = [cluster.kw] if len(cluster.kw)==cluster.ntot else []
+
     if radec:
 
         ra, dec, d0, pmra, pmdec, vr0 = sky_coords(cluster)
@@ -68,7 +71,7 @@ def snapout(cluster, filename, energies=False, radec=False):
                         cluster.vy,
                         cluster.vz,
                         cluster.id,
-                        cluster.kw,
+                        *kw,
                         cluster.kin,
                         cluster.pot,
                         cluster.etot,
@@ -94,7 +97,7 @@ def snapout(cluster, filename, energies=False, radec=False):
                         cluster.vy,
                         cluster.vz,
                         cluster.id,
-                        cluster.kw,
+                        *kw,
                         ra,
                         dec,
                         d0,
@@ -119,7 +122,7 @@ def snapout(cluster, filename, energies=False, radec=False):
                         cluster.vy,
                         cluster.vz,
                         cluster.id,
-                        cluster.kw,
+                        *kw,
                         cluster.kin,
                         cluster.pot,
                         cluster.etot,
-- 
2.43.0


From 48c4fadbe40b2cf439bcf27f9a0946ec1f230889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 052/117] fix: velocities written for gyrfalcon are in kpc/Gyr

---
 clustertools/util/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index 48b55b7..e80f925 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -318,7 +318,7 @@ def gyrout(cluster, filename="init.nemo.dat",eps=None,epsunits=None,ro=solar_ro,
     2019 - Written - Webb (UofT)
 
     """
-    vcon = 220.0 / conversion.velocity_in_kpcGyr(vo=solar_vo, ro=solar_ro)
+    vcon = vo / conversion.velocity_in_kpcGyr(vo=vo, ro=ro)
     mcon = 222288.4543021174
 
     units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
-- 
2.43.0


From be6e6bae395cf214c270979f4f4b27b4bad808b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 053/117] fix: fort.10 and fort.12 are written inside a working
 directory named without a trailing slash

---
 clustertools/util/output.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index e80f925..4cafbcd 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -10,6 +10,7 @@ __all__ = [
     "gyrout",
 ]
 
+import os
 import numpy as np
 try:
     from galpy.util import conversion
@@ -254,7 +255,7 @@ def fortout(
     cluster.to_nbody()
 
     np.savetxt(
-        cluster.wdir+filename,
+        os.path.join(cluster.wdir,filename),
         np.column_stack(
             [
                 cluster.m,
@@ -272,7 +273,7 @@ def fortout(
 
     if sse:
         np.savetxt(
-            cluster.wdir+sse_filename,
+            os.path.join(cluster.wdir,sse_filename),
             np.column_stack(
                 [
                     cluster.m0,
-- 
2.43.0


From cf0bad9a39aa346374feda89b784f58317bed94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:18 +0000
Subject: [PATCH 054/117] fix: advancing beyond the last gyrfalcon snapshot
 gives an empty cluster every time

---
 clustertools/io/gyrfalcon.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/clustertools/io/gyrfalcon.py b/clustertools/io/gyrfalcon.py
index f69fde5..9b47f1e 100644
--- a/clustertools/io/gyrfalcon.py
+++ b/clustertools/io/gyrfalcon.py
@@ -81,7 +81,7 @@ def _get_gyrfalcon(
         data = filein.readline().split()
         if len(data) == 0:
             print("END OF FILE")
-            return StarCluster(0.0,ctype="nemo",**kwargs)
+            return StarCluster(0.0,ctype="nemo",sfile=filein,skiprows=skiprows,**kwargs)
         elif "#" not in data:
             over_head = True
             print("OVER HEAD")
@@ -226,7 +226,7 @@ def _get_new_gyrfalcon(
         data = filein.readline().split()
         if len(data) == 0:
             print("END OF FILE")
-            return StarCluster(0.0,ctype="nemo",**kwargs)
+            return StarCluster(0.0,ctype="new_nemo",sfile=filename,skiprows=skiprows,**kwargs)
         elif "#" not in data:
             over_head = True
             print("OVER HEAD")
@@ -246,7 +246,7 @@ def _get_new_gyrfalcon(
             data = filein.readline().split()
             if len(data) == 0:
                 print("END OF FILE")
-                return StarCluster(0.0,ctype="nemo",**kwargs)
+                return StarCluster(0.0,ctype="new_nemo",sfile=filename,skiprows=skiprows,**kwargs)
             elif "#" not in data:
                 over_head = True
                 print("OVER HEAD")
@@ -282,10 +282,13 @@ def _get_new_gyrfalcon(
         nskip=(skiprows+ntot)*cluster.nsnap+skiprows
 
     try:
-        data=np.loadtxt(filename,skiprows=nskip,max_rows=ntot)
+        data=np.loadtxt(filename,skiprows=nskip,max_rows=ntot,ndmin=2)
     except StopIteration:
+        data=np.array([])
+
+    if data.size == 0:
         print("END OF FILE")
-        return StarCluster(0.0,ctype="new_nemo",**kwargs)
+        return StarCluster(0.0,ctype="new_nemo",sfile=filename,skiprows=skiprows,**kwargs)
 
     m=data[:,0].astype(float)
     x=data[:,1].astype(float)
-- 
2.43.0


From 0a741cb0076683b26c1bd5e10710e3eebeceee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:18 +0000
Subject: [PATCH 055/117] fix: no orbit is read for a cluster beyond the last
 Nbody6 output

---
 clustertools/io/nbody6.py   | 2 +-
 clustertools/io/nbody6pp.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index f88cfae..c13b848 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -98,7 +98,7 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
         sortstars=kwargs.get("sortstars", True)
         cluster.analyze(sortstars=sortstars)
 
-    if ofile != None:
+    if ofile != None and cluster.ntot > 0:
         _get_cluster_orbit(cluster, ofile, advance=advance, **kwargs)
             
     return cluster
diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index abc251e..2026823 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -237,7 +237,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
         sortstars=kwargs.get("sortstars", True)
         cluster.analyze(sortstars=sortstars)
 
-    if ofile != None:
+    if ofile != None and cluster.ntot > 0:
         _get_cluster_orbit(cluster, ofile, advance=advance, nsnap=int(nsnap/dtout),**kwargs)
            
 
-- 
2.43.0


From e8442c1ec21e4ccfad88769def99341240349b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:18 +0000
Subject: [PATCH 056/117] fix: potentials in Nbody6++ conf.3 files are real
 numbers

---
 clustertools/io/nbody6pp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index 2026823..3768ffb 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -303,7 +303,7 @@ def _get_nbody6pp_conf3(f,return_alist_only=False,**kwargs):
             vz=np.append(vz,struct.unpack('f',f.read(4))[0]) 
 
         for i in range(ntot):
-            phi=np.append(phi,struct.unpack('i',f.read(4))[0])            
+            phi=np.append(phi,struct.unpack('f',f.read(4))[0])            
 
         for i in range(ntot):
             i_d=np.append(i_d,struct.unpack('i',f.read(4))[0])
-- 
2.43.0


From 95a3d3544686667ccc5c40e420812efd5a2b469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:30 +0000
Subject: [PATCH 057/117] fix: luminosities and radii of stars and binaries are
 read from Nbody6++ evolution files

---
 clustertools/io/nbody6pp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index 3768ffb..ba5aa1f 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -208,8 +208,8 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
 
             if nb>0:
                 kws[binargs]=np.maximum(kw1,kw2)
-                zl1s[binargs]=zl1b+zl2b
-                r1s[binargs]=r1b+r2b
+                zl1s[binargs]=np.log10(10.0**zl1b+10.0**zl2b)
+                r1s[binargs]=np.maximum(r1b,r2b)
                 args=arg[2*nb:]-nb-1
             else:
                 args=arg-1
@@ -361,7 +361,7 @@ def _get_nbody6pp_ev(bev, sev, **kwargs):
         m1b=data[:,12].astype(float)
         m2b=data[:,13].astype(float)
 
-        if len(data)>=14:
+        if data.shape[1]>=20:
             zl1b=data[:,14].astype(float)
             zl2b=data[:,15].astype(float)
             r1b=data[:,16].astype(float)
@@ -432,7 +432,7 @@ def _get_nbody6pp_ev(bev, sev, **kwargs):
     kw=data[:,3].astype(int)
     ri=data[:,4].astype(float)
     m1=data[:,5].astype(float)
-    zl1=data[:,6].astype(int)
+    zl1=data[:,6].astype(float)
     r1=data[:,7].astype(float)
     te=data[:,8].astype(float)
 
-- 
2.43.0


From e989fcb54e2c256d927820533c1d1c88176d591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:30 +0000
Subject: [PATCH 058/117] fix: each Nbody6 binary has one luminosity

---
 clustertools/io/nbody6.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index c13b848..cf39585 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -295,7 +295,7 @@ def _get_nbody6se(fort82, fort83, **kwargs):
 
             #Add select parametes to full array
             kw=np.append(kw,kwb[-1])
-            lbtot=np.log10(10.0**np.asarray(zl1b)+10.0**np.asarray(zl2b))
+            lbtot=np.log10(10.0**zl1b[-1]+10.0**zl2b[-1])
             zl1=np.append(zl1,lbtot)
             r1=np.append(r1,np.maximum(r1b[-1],r2b[-1]))
 
-- 
2.43.0


From 537b63c244a34f29f8e4be11f4099facd67dc0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 059/117] fix: gyrout leaves the softening lengths it is given
 alone

---
 clustertools/util/output.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index 4cafbcd..0e57a3a 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -332,10 +332,7 @@ def gyrout(cluster, filename="init.nemo.dat",eps=None,epsunits=None,ro=solar_ro,
         if epsunits is None:
             epsunits=units0
 
-        eps=_convert_length(eps,epsunits,cluster)
-
-        if isinstance(eps,float):
-            eps=np.ones(cluster.ntot)*eps
+        eps=_convert_length(np.ones(cluster.ntot)*eps,epsunits,cluster)
 
         np.savetxt(
                 filename,
-- 
2.43.0


From 4ef27de1d0061cc3de599b5daea88252bef4d1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:05 +0000
Subject: [PATCH 060/117] fix: the first gyrfalcon snapshot has the first entry
 of the orbit table

---
 clustertools/io/load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 0d31851..e79c0c5 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -229,13 +229,13 @@ def load_cluster(
         filename=_get_filename(filename,**kwargs)
         filein = open(filename, "r")
 
-        cluster = _get_gyrfalcon(filein, units=units, origin=origin, advance=False, **kwargs)
+        cluster = _get_gyrfalcon(filein, units=units, origin=origin, ofile=ofile, advance=False, **kwargs)
 
     elif ctype == "new_gyrfalcon" or ctype=='new_nemo':
         # Read in snapshot from gyrfalcon.
         filename=_get_filename(filename,**kwargs)
 
-        cluster = _get_new_gyrfalcon(filename, units=units, origin=origin, advance=False, **kwargs)
+        cluster = _get_new_gyrfalcon(filename, units=units, origin=origin, ofile=ofile, advance=False, **kwargs)
 
     elif ctype=='amuse':
         filename=_get_filename(filename,**kwargs)
-- 
2.43.0


From 9b515d3ef7acb67711d4e5425f01492e9d431347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:05 +0000
Subject: [PATCH 061/117] fix: a missing snapshot does not lose the units and
 origin of the series

---
 clustertools/io/gyrfalcon.py | 8 ++++----
 clustertools/io/snapshot.py  | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/clustertools/io/gyrfalcon.py b/clustertools/io/gyrfalcon.py
index 9b47f1e..3d517f6 100644
--- a/clustertools/io/gyrfalcon.py
+++ b/clustertools/io/gyrfalcon.py
@@ -81,7 +81,7 @@ def _get_gyrfalcon(
         data = filein.readline().split()
         if len(data) == 0:
             print("END OF FILE")
-            return StarCluster(0.0,ctype="nemo",sfile=filein,skiprows=skiprows,**kwargs)
+            return StarCluster(0.0,units=units,origin=origin,ctype="nemo",sfile=filein,skiprows=skiprows,**kwargs)
         elif "#" not in data:
             over_head = True
             print("OVER HEAD")
@@ -226,7 +226,7 @@ def _get_new_gyrfalcon(
         data = filein.readline().split()
         if len(data) == 0:
             print("END OF FILE")
-            return StarCluster(0.0,ctype="new_nemo",sfile=filename,skiprows=skiprows,**kwargs)
+            return StarCluster(0.0,units=units,origin=origin,ctype="new_nemo",sfile=filename,skiprows=skiprows,**kwargs)
         elif "#" not in data:
             over_head = True
             print("OVER HEAD")
@@ -246,7 +246,7 @@ def _get_new_gyrfalcon(
             data = filein.readline().split()
             if len(data) == 0:
                 print("END OF FILE")
-                return StarCluster(0.0,ctype="new_nemo",sfile=filename,skiprows=skiprows,**kwargs)
+                return StarCluster(0.0,units=units,origin=origin,ctype="new_nemo",sfile=filename,skiprows=skiprows,**kwargs)
             elif "#" not in data:
                 over_head = True
                 print("OVER HEAD")
@@ -288,7 +288,7 @@ def _get_new_gyrfalcon(
 
     if data.size == 0:
         print("END OF FILE")
-        return StarCluster(0.0,ctype="new_nemo",sfile=filename,skiprows=skiprows,**kwargs)
+        return StarCluster(0.0,units=units,origin=origin,ctype="new_nemo",sfile=filename,skiprows=skiprows,**kwargs)
 
     m=data[:,0].astype(float)
     x=data[:,1].astype(float)
diff --git a/clustertools/io/snapshot.py b/clustertools/io/snapshot.py
index 9d32439..cd6f71a 100644
--- a/clustertools/io/snapshot.py
+++ b/clustertools/io/snapshot.py
@@ -92,7 +92,7 @@ def _get_snapshot(
             )
         else:
             print("NO FILE FOUND: %s, %s, %s" % (wdir, snapdir, filename))
-            cluster = StarCluster( 0., ctype=ctype, **kwargs)
+            cluster = StarCluster( 0., units=units, origin=origin, ctype=ctype, **kwargs)
             return cluster
     elif os.path.isfile(
         "%s%s%s%s%s" % (wdir, snapdir, snapbase, str(nsnap).zfill(nzfill), snapend)
@@ -135,7 +135,7 @@ def _get_snapshot(
             str(nsnap).zfill(nzfill),
             snapend,
         )
-        cluster = StarCluster( 0., ctype=ctype, **kwargs)
+        cluster = StarCluster( 0., units=units, origin=origin, ctype=ctype, **kwargs)
         return cluster
 
     if "m" in col_names:
-- 
2.43.0


From 4d26dd14d447cb26b92287e0987c855acfc6e184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:05 +0000
Subject: [PATCH 062/117] fix: Nbody6 and Nbody6++ clusters keep their
 directories, Galactic scales and other settings

---
 clustertools/io/nbody6.py   | 1 +
 clustertools/io/nbody6pp.py | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index cf39585..a022326 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -59,6 +59,7 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
             origin="cluster",
             ctype="nbody6",
             sfile=out3,
+            **kwargs,
         )
                 
         if nstot > 0:
diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index ba5aa1f..faaa193 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -90,7 +90,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             ctype="nbody6++",
             sfile=snap40,
             nsnap=nsnap,
-            wdir=wdir,
+            **dict(kwargs,wdir=wdir),
         )
 
         cluster.hdf5=True
@@ -171,7 +171,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             ctype="nbody6++",
             sfile=conf3,
             nsnap=nsnap,
-            wdir=wdir,
+            **dict(kwargs,wdir=wdir),
         )
 
         if ntot > 0:
-- 
2.43.0


From c13c6ce78213dcd0295944480769833136ce5e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 063/117] fix: a run without further Nbody6 output gives an
 empty cluster

---
 clustertools/io/nbody6.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index a022326..2443453 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -48,8 +48,11 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
     initialize = kwargs.get("initialize", False)
 
     ntot=0
+    nstot=0
 
-    if out3 is not None:
+    if out3 is None:
+        cluster = StarCluster(0.0, units="nbody", origin="cluster", ctype="nbody6", **kwargs)
+    else:
     
         nstot,alist,xs,ys,zs,vxs,vys,vzs,ms,i_ds=_get_nbody6_out3(out3,**kwargs)
 
-- 
2.43.0


From d2d34bddf66ac5d5503a20f54fe7ec6698b2a3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 064/117] fix: the step between Nbody6++ outputs is remembered
 and can be a fraction, and the last hdf5 file is followed by an empty cluster

---
 clustertools/io/load.py     | 17 ++++++++++++-----
 clustertools/io/nbody6pp.py |  6 ++++++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index e79c0c5..90a8827 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -418,11 +418,13 @@ def advance_cluster(
                     nbody6list=None
 
                 conf3=None
+                kwargs.setdefault('dtout',getattr(cluster,'dtout',1))
                 cluster = _get_nbody6pp(conf3, snap40=cluster.sfile, ofile=ofile, advance=True,nbody6list=nbody6list,nsnap=nsnap,**advance_kwargs, **kwargs)
                 
             else:
-                deltat=kwargs.pop('deltat',1)
+                deltat=kwargs.pop('deltat',getattr(cluster,'dtout',1))
                 dtout=kwargs.pop('dtout',deltat)
+                kwargs['dtout']=dtout
 
                 nsnap = advance_kwargs.pop("nsnap") + dtout - 1
                 ngroup= advance_kwargs.pop("ngroup")
@@ -432,12 +434,17 @@ def advance_cluster(
                 else:
                     conf3=None
 
-                snap40 = h5py.File("%s%ssnap.40_%s.h5part" % (wdir,snapdir,nsnap), "r")
-                cluster = _get_nbody6pp(conf3, snap40=snap40, ofile=ofile, advance=True,nsnap=nsnap,dtout=dtout,**advance_kwargs, **kwargs)
+                if os.path.isfile("%s%ssnap.40_%s.h5part" % (wdir,snapdir,nsnap)):
+                    snap40 = h5py.File("%s%ssnap.40_%s.h5part" % (wdir,snapdir,nsnap), "r")
+                else:
+                    snap40=None
+
+                cluster = _get_nbody6pp(conf3, snap40=snap40, ofile=ofile, advance=True,nsnap=nsnap,**advance_kwargs, **kwargs)
 
         else:
-            deltat=kwargs.pop('deltat',1)
+            deltat=kwargs.pop('deltat',getattr(cluster,'dtout',1))
             dtout=kwargs.pop('dtout',deltat)
+            kwargs['dtout']=dtout
 
             nsnap = advance_kwargs.pop("nsnap") + dtout - 1
 
@@ -456,7 +463,7 @@ def advance_cluster(
             else:
                 sev83=None
 
-            cluster = _get_nbody6pp(conf3, bev82=bev82, sev83=sev83, ofile=ofile, advance=True,nsnap=nsnap,dtout=dtout,**advance_kwargs, **kwargs)
+            cluster = _get_nbody6pp(conf3, bev82=bev82, sev83=sev83, ofile=ofile, advance=True,nsnap=nsnap,**advance_kwargs, **kwargs)
 
     elif cluster.ctype == 'nbody6':
 
diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index faaa193..b804063 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -93,6 +93,9 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             **dict(kwargs,wdir=wdir),
         )
 
+        cluster.nsnap=nsnap
+        cluster.dtout=dtout
+
         cluster.hdf5=True
         cluster.ngroups=len(snap40)
         cluster.ngroup=ngroup
@@ -174,6 +177,9 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             **dict(kwargs,wdir=wdir),
         )
 
+        cluster.nsnap=nsnap
+        cluster.dtout=dtout
+
         if ntot > 0:
             cluster.add_nbody6(
             alist[13], alist[12], alist[2], alist[4], alist[6], alist[7], alist[8], alist[3], alist[11],alist[10],alist[17], ntot, alist[1], ntot+alist[1]
-- 
2.43.0


From fd2579e2761dd00076e80f7db118caf13f79c06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:06 +0000
Subject: [PATCH 065/117] fix: advancing a gyrfalcon cluster reads the same
 columns as loading it

---
 clustertools/io/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 90a8827..7910939 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -733,7 +733,7 @@ def _get_advanced_kwargs(cluster, **kwargs):
 
     otime = kwargs.pop("otime", False)
 
-    give = kwargs.pop('give','mxv')
+    give = kwargs.pop('give',cluster.give)
 
     hdf5 = kwargs.pop('hdf5',cluster.hdf5)
     ngroups = kwargs.pop('ngroups',cluster.ngroups)
-- 
2.43.0


From 78850f8fa4e3e1a8c65c4aac24293a2c11237b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:23 +0000
Subject: [PATCH 066/117] fix: the centre of an advanced cluster is found
 relative to the galpy orbit it is placed on

---
 clustertools/io/load.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 7910939..c9a242e 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -292,14 +292,7 @@ def load_cluster(
     if orbit is not None:
         _add_galpy_orbit(cluster, orbit)
 
-        units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
-
-        if cluster.origin is not None: 
-            cluster.to_cluster(sortstars=False)
-            cluster.find_centre()
-            cluster.return_cluster(units0,origin0, rorder0, rorder_origin0 )
-        else:
-            cluster.find_centre()
+        _find_centre_on_orbit(cluster)
     elif initialize:
         origin0=cluster.origin
         cluster.to_galaxy()
@@ -590,6 +583,7 @@ def advance_cluster(
         # Add galpy orbit if given
         if orbit != None:
             _add_galpy_orbit(cluster, orbit)
+            _find_centre_on_orbit(cluster)
 
     return cluster
 
@@ -632,6 +626,27 @@ def _add_galpy_orbit(cluster, orbit):
         ounits="kpckms",
     )
 
+def _find_centre_on_orbit(cluster):
+    """Find the centre of a cluster, relative to its orbit
+
+    Parameters
+    ----------
+    cluster : class
+        StarCluster
+
+    Returns
+    -------
+    None
+    """
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
+
+    if cluster.origin is not None: 
+        cluster.to_cluster(sortstars=False)
+        cluster.find_centre()
+        cluster.return_cluster(units0,origin0, rorder0, rorder_origin0 )
+    else:
+        cluster.find_centre()
+
 def _get_filename(filename,**kwargs):
     """assemble filename from **kwargs
 
-- 
2.43.0


From 86b8e695392329ced8b36bb1ce039714922d86be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 067/117] fix: snapshot files are looked for with the
 documented number of digits

---
 clustertools/io/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index c9a242e..7b66e79 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -668,7 +668,7 @@ def _get_filename(filename,**kwargs):
     2021 - Written - Webb (UofT)
     """
 
-    nzfill = int(kwargs.get("nzfill", 1))
+    nzfill = int(kwargs.get("nzfill", 5))
     nsnap = int(kwargs.get("nsnap", "0"))
     wdir = kwargs.get("wdir", "")
     if wdir != "":
-- 
2.43.0


From c37d7dfc0d899a5b92fd1de4f7044a7cff5f3738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 068/117] fix: a continued run of snapshots is read with the
 columns of the run it continues

---
 clustertools/io/load.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 7b66e79..440d5a6 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -563,6 +563,9 @@ def advance_cluster(
 
             old_wdir=advance_kwargs.pop('wdir')
 
+            if cluster.ctype == "snapshot" and load_function is None:
+                kwargs.update(col_names=col_names,col_nums=col_nums)
+
             if nsnap is None:
 
                 cluster = load_cluster(
-- 
2.43.0


From f5d8b7931ff76a5bb3d25fb39865725da4bdc169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:29 +0000
Subject: [PATCH 069/117] fix: a model cluster with an orbit is placed on it in
 the galaxy origin

---
 clustertools/io/limepydf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index 8ea920b..d464ca4 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -95,7 +95,7 @@ def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance
             if units=='nbody': cluster.reset_nbody_scale(rvirial=True)
             cluster.to_units(units)
 
-        if cluster.origin!=origin:
+        if cluster.origin!=origin and origin!='galaxy':
             cluster.to_origin(origin)
 
     else:
@@ -103,7 +103,7 @@ def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance
         cluster.units=units
         cluster.bunits=units
 
-        if cluster.origin!=origin:
+        if cluster.origin!=origin and origin!='galaxy':
             cluster.to_origin(origin)
 
     if cluster.ntot>0:
-- 
2.43.0


From 71387164dcf5964941cf834a8a448ebc73b0e093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:29 +0000
Subject: [PATCH 070/117] fix: the orbit of a model cluster can be read from an
 orbit table

---
 clustertools/io/limepydf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index d464ca4..b7275dd 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -28,6 +28,7 @@ except:
     pass
 
 from ..cluster.cluster import StarCluster
+from .orbit import _get_cluster_orbit as _get_cluster_orbit_file
 
 def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance=False, **kwargs):
     """ Setup an N-body realization of a StarCluster with specific parameters
@@ -125,7 +126,7 @@ def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance
             )
 
         elif ofile != None:
-            _get_cluster_orbit(cluster, ofile, advance=advance, **kwargs)
+            _get_cluster_orbit_file(cluster, ofile, advance=advance, **kwargs)
 
         if origin=='galaxy':
             cluster.to_galaxy()
-- 
2.43.0


From e10c4255e9a9cab7f2fdee38b2f68a6e4624f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:44 +0000
Subject: [PATCH 071/117] fix: Galactic clusters are found by any of their
 names, and by those only in the catalogue of Harris

---
 clustertools/io/limepydf.py | 48 +++++++++++++------------------------
 1 file changed, 17 insertions(+), 31 deletions(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index b7275dd..e9bc135 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -741,41 +741,27 @@ def _get_cluster(gcname, source="default", mbar=1., params=False, **kwargs):
 
     ddata = np.loadtxt(data_dir+"deBoer2019.dat", str, skiprows=1
     )
-    dname = ddata[:, 0]
-    dmass = ddata[:, 7].astype(float)
-    drad = ddata[:, 5].astype(float)
+    dname = np.char.upper(ddata[:, 0])
 
     hdata = np.loadtxt(data_dir+"harris2010.dat", str, skiprows=2
     )
-    hname = hdata[:, 0]
-    hname2 = hdata[:, 1]
-    hmass = hdata[:, 2].astype(float)
-    hrad = hdata[:, 4].astype(float)
-
-    name_list = []
-    mass_list = []
-    rm_list = []
+    hname = np.char.upper(hdata[:, 0])
+    hname2 = np.char.upper(hdata[:, 1])
 
     gcname = gcname.upper()
 
+    # All names that the cluster is known by
+    gcnames = [gcname]
+    for name, name2 in zip(hname, hname2):
+        if gcname in (name, name2):
+            gcnames += [name, name2]
+
+    dnames = [name for name in gcnames if name in dname]
 
     if (
         source == "default" or "deboer" in source or "deBoer" in source
-    ) and gcname in dname:
-        cluster = _get_deBoer_cluster(ddata, gcname, mbar, **kwargs)
-    elif (
-        source == "default" or "deboer" in source or "deBoer" in source
-    ) and gcname not in dname:
-        if gcname in hname:
-            indx = hname == gcname
-            i_d = np.argwhere(indx == True).flatten()[0]
-            cluster = _get_deBoer_cluster(ddata, hname2[i_d], mbar, **kwargs)
-        elif gcname in hname2:
-            indx = hname2 == gcname
-            i_d = np.argwhere(indx == True).flatten()[0]
-            cluster = _get_deBoer_cluster(ddata, hname[i_d], mbar, **kwargs)
-
-
+    ) and len(dnames) > 0:
+        cluster = _get_deBoer_cluster(ddata, dnames[0], mbar, **kwargs)
     elif (source == "default" or "harris" in source or "Harris" in source) and (
         gcname in hname or gcname in hname2
     ):
@@ -815,9 +801,9 @@ def _get_deBoer_cluster(data, gcname, mbar=0.4, **kwargs):
     spes = False  # Not yet implemented into LIMEPY
     limepy = True
 
-    name = data[:, 0]
+    name = np.char.upper(data[:, 0])
 
-    indx = name == gcname
+    indx = name == gcname.upper()
     i_d = np.argwhere(indx == True).flatten()[0]
 
     if spes:
@@ -888,10 +874,10 @@ def _get_harris_cluster(data, gcname, mbar=0.4, **kwargs):
     2019 - Written - Webb (UofT)
     """
 
-    name = data[:, 0]
-    name2 = data[:, 1]
+    name = np.char.upper(data[:, 0])
+    name2 = np.char.upper(data[:, 1])
 
-    indx = np.logical_or(np.in1d(name, gcname), np.in1d(name2, gcname))
+    indx = np.logical_or(name == gcname.upper(), name2 == gcname.upper())
     i_d = np.argwhere(indx == True).flatten()[0]
     mgc = data[i_d, 2].astype(float)
     rc = data[i_d, 3].astype(float)
-- 
2.43.0


From 9ac6a273210741e2b7b9b2ad939ef9f6583709ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:44 +0000
Subject: [PATCH 072/117] fix: the number of stars can be given for Galactic
 clusters with de Boer models

---
 clustertools/io/limepydf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index e9bc135..3107736 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -824,7 +824,7 @@ def _get_deBoer_cluster(data, gcname, mbar=0.4, **kwargs):
         g_lime = data[i_d, 3].astype(float)
         rt_lime = data[i_d, 5].astype(float)
         M_lime = data[i_d, 7].astype(float)
-        N = int(M_lime / mbar)
+        N = int(kwargs.get("N", M_lime / mbar))
 
         cluster = _sample_limepy(g=g_lime, phi0=W_lime, M=M_lime, rt=rt_lime, N=N)
 
-- 
2.43.0


From 9f65983f14e3c2f87709169d0d4643eaf1f6f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:03 +0000
Subject: [PATCH 073/117] fix: clusters of galpy orbits and AMUSE particles can
 have their orbit in a table

---
 clustertools/io/amuse.py   | 2 +-
 clustertools/io/galpydf.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/amuse.py b/clustertools/io/amuse.py
index 0b55c70..9db7e54 100644
--- a/clustertools/io/amuse.py
+++ b/clustertools/io/amuse.py
@@ -24,7 +24,7 @@ except:
 
 
 def _get_amuse_particles(
-    particles, units=None, origin=None, ofile=None, **kwargs
+    particles, units=None, origin=None, ofile=None, advance=False, **kwargs
 ):
     """Convert AMUSE particle dataset to a StarCluster instance
 
diff --git a/clustertools/io/galpydf.py b/clustertools/io/galpydf.py
index 2d71c9d..e0dcefa 100644
--- a/clustertools/io/galpydf.py
+++ b/clustertools/io/galpydf.py
@@ -11,7 +11,7 @@ from ..util.constants import *
 from .orbit import _get_cluster_orbit
 
 def _get_galpy_orbits(
-    orbits, units=None, origin=None, ofile=None,ro=solar_ro,vo=solar_vo,**kwargs
+    orbits, units=None, origin=None, ofile=None,ro=solar_ro,vo=solar_vo,advance=False,**kwargs
 ):
     """Convert galpy orbits to a StarCluster instance
 
-- 
2.43.0


From 3fa5e8731ded0c6bacf55525cb50ecad1665437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:03 +0000
Subject: [PATCH 074/117] fix: masses of galpy orbits can be a whole number or
 a list

---
 clustertools/io/galpydf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/galpydf.py b/clustertools/io/galpydf.py
index e0dcefa..f66848a 100644
--- a/clustertools/io/galpydf.py
+++ b/clustertools/io/galpydf.py
@@ -64,7 +64,7 @@ def _get_galpy_orbits(
 
     if masses is None:
         masses = np.ones(len(orbits))
-    elif isinstance(masses,float):
+    else:
         masses = np.ones(len(orbits))*masses
 
     if units=='galpy' and (ro != 1. or vo != 1.):
-- 
2.43.0


From 926f5aafbc0ffb02716423595a0dadf4f6eb03c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:03 +0000
Subject: [PATCH 075/117] fix: a cluster of galpy orbits has the Galactic
 scales that they were given

---
 clustertools/io/galpydf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clustertools/io/galpydf.py b/clustertools/io/galpydf.py
index f66848a..3d331c8 100644
--- a/clustertools/io/galpydf.py
+++ b/clustertools/io/galpydf.py
@@ -46,6 +46,10 @@ def _get_galpy_orbits(
     2018 - Written - Webb (UofT)
     """
 
+    # Orbits in galpy units have ro=vo=1, which are not the scales of the cluster
+    if units!='galpy':
+        kwargs=dict(kwargs,ro=ro,vo=vo)
+
     cluster = StarCluster(
         tphys=0.0,
         units=units,
-- 
2.43.0


From c800b0e8b2e3f8ccdc3f7a12519571ed92abccaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:03 +0000
Subject: [PATCH 076/117] fix: the column mapping of a table is left as it was
 given

---
 clustertools/io/astropy_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/astropy_table.py b/clustertools/io/astropy_table.py
index e9df60f..c8631aa 100644
--- a/clustertools/io/astropy_table.py
+++ b/clustertools/io/astropy_table.py
@@ -70,7 +70,7 @@ def _get_astropy_table(
     2020 - Written - Starkman (UofT)
     """
 
-    cm = column_mapper or {}  # None -> {}
+    cm = dict(column_mapper or {})  # None -> {}
 
     if column_mapper is None:
         # lower-case colum names
-- 
2.43.0


From f68625e867aebd87efc06d233c15f8996f8b59c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:55 +0000
Subject: [PATCH 077/117] fix: centre of an AMUSE cluster in centre coordinates
 can be looked for

---
 clustertools/cluster/cluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index ba45028..8ad0101 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2343,9 +2343,9 @@ class StarCluster(object):
         if self.origin=='centre':
 
             warning=False
-            if xc!=0.0 or yc!=0.0 or zc!=0.0:
+            if xc!=0.0*xc or yc!=0.0*yc or zc!=0.0*zc:
                 warning=True
-            if vxc!=0.0 or vyc!=0.0 or vzc!=0.0:
+            if vxc!=0.0*vxc or vyc!=0.0*vyc or vzc!=0.0*vzc:
                 warning=True
 
             if warning:
-- 
2.43.0


From b55e4dbac298d81964537d9b0d5d344aea918fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:55 +0000
Subject: [PATCH 078/117] fix: stars added with AMUSE units keep their ids

---
 clustertools/cluster/cluster.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 8ad0101..cbe9d76 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -483,13 +483,12 @@ class StarCluster(object):
                 stars.x,stars.y,stars.z=x,y,z
                 stars.vx,stars.vy,stars.vz=vx,vy,vz
                 stars.mass=m
-                stars.key=id
 
                 if isinstance(self.tphys,ScalarQuantity):
                     self.tphys=self.tphys.value_in(u.Myr)
 
                 self.units='pckms'                
-                x,y,z,vx,vy,vz,m,id=_convert_amuse(stars,self)
+                x,y,z,vx,vy,vz,m,_=_convert_amuse(stars,self)
                 isamuse=True
 
 
@@ -583,7 +582,7 @@ class StarCluster(object):
         else:
             ids=id[args:]
 
-        self.id = np.append(self.id, ids)
+        self.id = np.append(self.id.astype(int), np.asarray(ids).astype(int))
 
         self.id = self.id.astype(int)
 
-- 
2.43.0


From 682cc69c6a2b854e31f363153d3c42312985a8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 079/117] fix: tidal radius does not change the caller's
 selection

---
 clustertools/analysis/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index f7a52a9..eedc35f 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2421,7 +2421,7 @@ def rtidal(
     for i in range(0, rtiterate):
         msum = 0.0
 
-        indx *= cluster.r < rt
+        indx = indx * (cluster.r < rt)
         msum = np.sum(cluster.m[indx])
 
         rtnew = rtide(pot, R, z, M=msum,use_physical=False)
-- 
2.43.0


From 80904d41cb2bdb1a9f9e188d50c88597f8548fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:19 +0000
Subject: [PATCH 080/117] fix: tidal radius iterations of a cluster on the sky
 count stars by distance to the cluster

---
 clustertools/analysis/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index eedc35f..7ee8d49 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2391,11 +2391,11 @@ def rtidal(
 
     ro,vo,zo,solarmotion=cluster._ro,cluster._vo,cluster._zo,cluster._solarmotion
 
+    cluster.to_galpy()
+
     if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=False)
 
-    cluster.to_galpy()
-
     if rgc != None:
         R = rgc / ro
     else:
-- 
2.43.0


From 1c59abb2a9c915be29dfc473f75a88969d91718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 081/117] fix: stars are matched to a path on the sky by their
 sky coordinates whatever the origin

---
 clustertools/analysis/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index ebb2ce1..d42cd69 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -865,7 +865,7 @@ def orbital_path_match(
     units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if skypath:
-        cluster.to_radec()
+        cluster.to_sky()
         projected=True
     else:
         cluster.to_galaxy(sortstars=False)
-- 
2.43.0


From 6732e99437cb4ce6f911afd5e27a918a1cb63c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 082/117] fix: distances along and from a path on the sky stay
 in degrees

---
 clustertools/analysis/orbits.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index d42cd69..782c8f9 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -1026,7 +1026,8 @@ def orbital_path_match(
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
     tstar=_convert_time(tstar,'kpckms',cluster)
-    dprog=_convert_length(dprog,'kpckms',cluster)
-    dpath=_convert_length(dpath,'kpckms',cluster)
+    if not skypath or cluster.units=='amuse':
+        dprog=_convert_length(dprog,'kpckms',cluster)
+        dpath=_convert_length(dpath,'kpckms',cluster)
 
     return np.array(tstar), np.array(dprog), np.array(dpath)
\ No newline at end of file
-- 
2.43.0


From d69beec8b4d525ed97982efec3baa5f54e402307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 083/117] fix: path given in cluster units is matched in the
 same units as the stars

---
 clustertools/analysis/orbits.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 782c8f9..1b660a5 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -886,7 +886,14 @@ def orbital_path_match(
             solarmotion=solarmotion,
         )
     else:
-        ts, x, y, z, vx, vy, vz = path
+        ts, x, y, z, vx, vy, vz = [p*1.0 for p in path]
+        #A path without AMUSE units is in Gyr, kpc and km/s for an AMUSE cluster
+        given=units0!='amuse' or hasattr(ts,'value_in')
+        if given:
+            ts=_convert_time(ts,units0,cluster)
+        if given and not skypath:
+            x,y,z=[_convert_length(p,units0,cluster) for p in (x,y,z)]
+            vx,vy,vz=[_convert_velocity(p,units0,cluster) for p in (vx,vy,vz)]
 
     pindx = np.argmin(np.fabs(ts))
 
-- 
2.43.0


From f7930015ff3182b4025d86e5d9bfbc82dffe5c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 084/117] fix: distance along a curved path is measured along
 the path

---
 clustertools/analysis/orbits.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 1b660a5..c9adb0d 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -920,18 +920,12 @@ def orbital_path_match(
     dyo = y[1:] - y[0:-1]
     dzo = z[1:] - z[0:-1]
 
-    dprogx = np.cumsum(np.fabs(dxo))
-    dprogy = np.cumsum(np.fabs(dyo))
-    dprogz = np.cumsum(np.fabs(dzo))
-
-    dprogx = np.insert(dprogx, 0, 0.0)
-    dprogy = np.insert(dprogy, 0, 0.0)
-    dprogz = np.insert(dprogz, 0, 0.0)
-
     if projected:
-        dprogr = np.sqrt(dprogx ** 2.0 + dprogy ** 2.0)
+        dr_path = np.sqrt(dxo ** 2.0 + dyo ** 2.0)
     else:
-        dprogr = np.sqrt(dprogx ** 2.0 + dprogy ** 2.0 + dprogz ** 2.0)
+        dr_path = np.sqrt(dxo ** 2.0 + dyo ** 2.0 + dzo ** 2.0)
+
+    dprogr = np.insert(np.cumsum(dr_path), 0, 0.0)
 
     dprog = dprogr[indx] - dprogr[pindx]
 
-- 
2.43.0


From efbae046f0ff20f332fb363804b585b30e8f201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 085/117] fix: distance to the path itself for stars on it and
 with do_full

---
 clustertools/analysis/orbits.py | 59 ++++++---------------------------
 1 file changed, 10 insertions(+), 49 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index c9adb0d..a5a93af 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -935,56 +935,17 @@ def orbital_path_match(
         dyo = np.append(dyo, dyo[-1])
         dzo = np.append(dzo, dzo[-1])
 
-        if do_full:
-            # Typically it is too expensive to calculate dpath all at once, but will allow option via do_full
-
-            if projected:
-                ovec = np.column_stack([dxo, dyo])
-                mag_ovec = np.sqrt(dxo ** 2.0 + dyo ** 2.0)
-                svec = np.column_stack([dx[:, indx], dy[:, indx]])
-                mag_svec = dr[:, indx]
-                theta = np.arccos(np.dot(ovec[indx], svec) / (mag_ovec[indx] * mag_svec))
-                dpath = mag_svec * np.sin(theta)
-            else:
-                ovec = np.column_stack([dxo, dyo, dzo])
-                mag_ovec = np.sqrt(dxo ** 2.0 + dyo ** 2.0 + dzo ** 2.0)
-                svec = np.column_stack([dx[:, indx], dy[:, indx], dz[:, indx]])
-                mag_svec = dr[:, indx]
-                theta = np.arccos(np.dot(ovec[indx], svec) / (mag_ovec[indx] * mag_svec))
-                dpath = mag_svec * np.sin(theta)
+        nstar=np.arange(0, cluster.ntot)
+        if projected:
+            ovec = np.column_stack([dxo, dyo])[indx]
+            svec = np.column_stack([dx[nstar, indx], dy[nstar, indx]])
         else:
-            # Need to optimize this via numba
-            dpath = np.array([])
-            if projected:
-                for i in range(0, cluster.ntot):
-                        ovec = [dxo[indx[i]], dyo[indx[i]]]
-                        mag_ovec = np.sqrt(
-                            dxo[indx[i]] ** 2.0 + dyo[indx[i]] ** 2.0)
-
-                        svec = [dx[i, indx[i]], dy[i, indx[i]]]
-                        mag_svec = dr[i, indx[i]]
-
-                        theta = np.arccos(
-                            (ovec[0] * svec[0] + ovec[1] * svec[1])
-                            / (mag_ovec * mag_svec)
-                        )
-                        dpath = np.append(dpath, mag_svec * np.sin(theta))
-
-            else:
-                for i in range(0, cluster.ntot):
-                    ovec = [dxo[indx[i]], dyo[indx[i]], dzo[indx[i]]]
-                    mag_ovec = np.sqrt(
-                        dxo[indx[i]] ** 2.0 + dyo[indx[i]] ** 2.0 + dzo[indx[i]] ** 2.0
-                    )
-
-                    svec = [dx[i, indx[i]], dy[i, indx[i]], dz[i, indx[i]]]
-                    mag_svec = dr[i, indx[i]]
-
-                    theta = np.arccos(
-                        (ovec[0] * svec[0] + ovec[1] * svec[1] + ovec[2] * svec[2])
-                        / (mag_ovec * mag_svec)
-                    )
-                    dpath = np.append(dpath, mag_svec * np.sin(theta))
+            ovec = np.column_stack([dxo, dyo, dzo])[indx]
+            svec = np.column_stack([dx[nstar, indx], dy[nstar, indx], dz[nstar, indx]])
+
+        ohat = ovec / np.sqrt(np.sum(ovec ** 2.0, axis=1))[:, np.newaxis]
+        along = np.sum(ohat * svec, axis=1)
+        dpath = np.sqrt(np.sum((svec - along[:, np.newaxis] * ohat) ** 2.0, axis=1))
 
     # Assign negative to stars with position vectors in opposite direction as local angular momentum vector
     if not projected:
-- 
2.43.0


From eb0860a71688812c53e173baee5ec6629b7cc5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:12 +0000
Subject: [PATCH 086/117] fix: final time of a path match or tail path is in
 cluster units, 0.1 Gyr unless given

---
 clustertools/analysis/orbits.py | 8 ++++++--
 clustertools/cluster/cluster.py | 4 ++--
 clustertools/tidaltail/tails.py | 8 ++++++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index a5a93af..ce55984 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -619,7 +619,7 @@ def orbits_interpolate(
 
 def orbital_path(
     cluster,
-    tfinal=0.1,
+    tfinal=None,
     nt=1000,
     pot=None,
     from_centre=False,
@@ -788,7 +788,7 @@ def orbital_path(
 
 def orbital_path_match(
     cluster,
-    tfinal=0.1,
+    tfinal=None,
     nt=1000,
     pot=None,
     path=None,
@@ -871,6 +871,10 @@ def orbital_path_match(
         cluster.to_galaxy(sortstars=False)
         cluster.to_kpckms()
 
+    #A time without AMUSE units is in Gyr for an AMUSE cluster
+    if tfinal is not None and (units0!='amuse' or hasattr(tfinal,'value_in')):
+        tfinal=_convert_time(tfinal,units0,cluster)
+
     if path is None:
         ts, x, y, z, vx, vy, vz = orbital_path(
             cluster,
diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index cbe9d76..2d5e5ff 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3609,7 +3609,7 @@ class StarCluster(object):
         """
         return self.interpolate_orbits(pot=pot,tfinal=tfinal,nt=nt,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
-    def orbital_path(self,tfinal=0.1,nt=1000,pot=None,from_centre=False,
+    def orbital_path(self,tfinal=None,nt=1000,pot=None,from_centre=False,
         skypath=False,initialize=False,ro=None,vo=None,zo=None,solarmotion=None, plot=False,**kwargs):
         """Calculate the cluster's orbital path
 
@@ -3662,7 +3662,7 @@ class StarCluster(object):
 
         return  self.tpath,self.xpath,self.ypath,self.zpath,self.vxpath,self.vypath,self.vzpath
 
-    def orbital_path_match(self,tfinal=0.1,nt=1000,pot=None,path=None,from_centre=False,
+    def orbital_path_match(self,tfinal=None,nt=1000,pot=None,path=None,from_centre=False,
         skypath=False,to_path=False,do_full=False,ro=None,vo=None,zo=None,solarmotion=None,plot=False,projected=False,**kwargs):
 
         """Match stars to a position along the orbital path of the cluster
diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index 93604a7..9bbf71e 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -89,7 +89,7 @@ def to_tail(cluster):
     return x_tail,y_tail,z_tail,vx_tail,vy_tail,vz_tail
 
 def tail_path(
-    cluster, tfinal=0.1, no=1000, nt=100, ntail=100, pot=None, dmax=None, bintype = 'fix', from_centre=False, skypath=False, 
+    cluster, tfinal=None, no=1000, nt=100, ntail=100, pot=None, dmax=None, bintype = 'fix', from_centre=False, skypath=False, 
     to_path=False,
     do_full=False,
     ro=None,
@@ -164,6 +164,10 @@ def tail_path(
     cluster.to_galaxy(sortstars=False)
     cluster.to_kpckms()
 
+    #A time without AMUSE units is in Gyr for an AMUSE cluster
+    if tfinal is not None and (units0!='amuse' or hasattr(tfinal,'value_in')):
+        tfinal=_convert_time(tfinal,units0,cluster)
+
     #dmax is assumed to have same units as cluster initially has
     if dmax is not None:
         dmax=_convert_length(dmax,units0,cluster)
@@ -262,7 +266,7 @@ def tail_path(
 
 def tail_path_match(
     cluster,
-    tfinal=0.1,
+    tfinal=None,
     no=1000,
     nt=100,
     ntail=100,
-- 
2.43.0


From 2a56511b6e361965ece404d57f1ac87bfe2e3ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:12 +0000
Subject: [PATCH 087/117] fix: final time given to the tail path methods is
 used

---
 clustertools/cluster/cluster.py |  4 ++--
 clustertools/tidaltail/tails.py | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 2d5e5ff..ee29b01 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3745,7 +3745,7 @@ class StarCluster(object):
         self.r_tail = np.sqrt(self.x_tail ** 2.0 + self.y_tail ** 2.0 + self.z_tail ** 2.0)
         self.v_tail = np.sqrt(self.vx_tail ** 2.0 + self.vy_tail ** 2.0 + self.vz_tail ** 2.0)
 
-    def tail_path(self,dt=0.1,no=1000,nt=100,ntail=100,pot=None,dmax=None,bintype='fix',from_centre=False,skypath=False,
+    def tail_path(self,dt=None,no=1000,nt=100,ntail=100,pot=None,dmax=None,bintype='fix',from_centre=False,skypath=False,
         to_path=False,
         do_full=False,
         ro=None,vo=None,zo=None,solarmotion=None,plot=False,**kwargs):
@@ -3811,7 +3811,7 @@ class StarCluster(object):
 
         return self.tpath,self.xpath,self.ypath,self.zpath,self.vxpath,self.vypath,self.vzpath
 
-    def tail_path_match(self,dt=0.1,no=1000,nt=100,ntail=100, pot=None,dmax=None,from_centre=False,
+    def tail_path_match(self,dt=None,no=1000,nt=100,ntail=100, pot=None,dmax=None,from_centre=False,
         to_path=False,do_full=False,ro=None,vo=None,zo=None,solarmotion=None,plot=False,**kwargs,):
 
         """Match stars to a position along the tail path of the cluster
diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index 9bbf71e..0c81c4e 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -157,7 +157,10 @@ def tail_path(
     """
 
     #Legacy inclusion
-    tfinal=kwargs.get('dt',tfinal)
+    if kwargs.get('dt') is not None:
+        tfinal=kwargs.pop('dt')
+    else:
+        kwargs.pop('dt',None)
 
     units0, origin0, rorder0, rorder_origin0 = save_cluster(cluster)
 
@@ -345,7 +348,10 @@ def tail_path_match(
     """
 
     #Legacy inclusion
-    tfinal=kwargs.get('dt',tfinal)
+    if kwargs.get('dt') is not None:
+        tfinal=kwargs.pop('dt')
+    else:
+        kwargs.pop('dt',None)
  
     if path is None:
         path = tail_path(
-- 
2.43.0


From 0bae1a83465bedcec38af1faa3b231f7f43af521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:30 +0000
Subject: [PATCH 088/117] fix: roaming average of a tail includes stars in each
 of the overlapping bins they are in

---
 clustertools/tidaltail/tails.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index 0c81c4e..a879e6d 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -213,16 +213,24 @@ def tail_path(
     else:
         dindx = (np.fabs(dpath) <= dmax)
 
-    bin_idx = bin_index(tstar, t_lower, t_upper)
-
     nbin = len(t_mid)
-    counts = np.bincount(bin_idx[dindx], minlength=nbin).astype(float)
-    sum_x = np.bincount(bin_idx[dindx], weights=cluster.x[dindx], minlength=nbin)
-    sum_y = np.bincount(bin_idx[dindx], weights=cluster.y[dindx], minlength=nbin)
-    sum_z = np.bincount(bin_idx[dindx], weights=cluster.z[dindx], minlength=nbin)
-    sum_vx = np.bincount(bin_idx[dindx], weights=cluster.vx[dindx], minlength=nbin)
-    sum_vy = np.bincount(bin_idx[dindx], weights=cluster.vy[dindx], minlength=nbin)
-    sum_vz = np.bincount(bin_idx[dindx], weights=cluster.vz[dindx], minlength=nbin)
+
+    if ntail > nt:
+        #Bins of a roaming average overlap, so a star can be in more than one of them
+        inbin = (tstar >= t_lower[:, np.newaxis]) * (tstar < t_upper[:, np.newaxis])
+        inbin[-1] = (tstar >= t_lower[-1])
+    else:
+        inbin = bin_index(tstar, t_lower, t_upper) == np.arange(nbin)[:, np.newaxis]
+
+    inbin = (inbin * dindx).astype(float)
+
+    counts = np.sum(inbin, axis=1)
+    sum_x = np.dot(inbin, cluster.x)
+    sum_y = np.dot(inbin, cluster.y)
+    sum_z = np.dot(inbin, cluster.z)
+    sum_vx = np.dot(inbin, cluster.vx)
+    sum_vy = np.dot(inbin, cluster.vy)
+    sum_vz = np.dot(inbin, cluster.vz)
 
     keep = counts > 0
     ttail = t_mid[keep]
-- 
2.43.0


From 0314e8c93f3ec8560d05be13a0d6b29ed064ae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:30 +0000
Subject: [PATCH 089/117] fix: tail path on the sky has the Galactic scales of
 the cluster

---
 clustertools/tidaltail/tails.py  | 4 +++-
 clustertools/util/coordinates.py | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index a879e6d..3918ffd 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -243,7 +243,9 @@ def tail_path(
 
 
     if skypath:
-        ratail,dectail,disttail,pmratail,pmdectail,vlostail=cart_to_sky(xtail, ytail, ztail, vxtail, vytail, vztail)
+        ratail,dectail,disttail,pmratail,pmdectail,vlostail=cart_to_sky(xtail, ytail, ztail, vxtail, vytail, vztail,
+            ro=cluster._ro if ro is None else ro, vo=cluster._vo if vo is None else vo,
+            solarmotion=cluster._solarmotion if solarmotion is None else solarmotion, zo=cluster._zo if zo is None else zo)
 
 
     if plot:
diff --git a/clustertools/util/coordinates.py b/clustertools/util/coordinates.py
index c9f4e65..3aae6a1 100644
--- a/clustertools/util/coordinates.py
+++ b/clustertools/util/coordinates.py
@@ -249,7 +249,7 @@ def sky_coords(cluster,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion,zo=solar
 
     return ra, dec, d0, pmra, pmdec, vr0
 
-def cart_to_sky(x,y,z,vx,vy,vz,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion):
+def cart_to_sky(x,y,z,vx,vy,vz,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion,zo=solar_zo):
     """Convert cartesian coordinates to sky coordinates
 
     Parameters
@@ -272,14 +272,14 @@ def cart_to_sky(x,y,z,vx,vy,vz,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion)
 
     if isinstance(R,float):
         o = Orbit(
-            [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, solarmotion=solarmotion
+            [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
         )
     else:
 
         vxvv=np.column_stack([R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi])
 
         o = Orbit(
-            vxvv, ro=ro, vo=vo, solarmotion=solarmotion
+            vxvv, ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
         )
 
     return o.ra(),o.dec(),o.dist(),o.pmra(),o.pmdec(),o.vlos()
-- 
2.43.0


From 8a30c2497e536173d3a8749cff92436c260159f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 090/117] fix: distance to a path with repeated points is a
 number

---
 clustertools/analysis/orbits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index ce55984..039b5e5 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -947,7 +947,9 @@ def orbital_path_match(
             ovec = np.column_stack([dxo, dyo, dzo])[indx]
             svec = np.column_stack([dx[nstar, indx], dy[nstar, indx], dz[nstar, indx]])
 
-        ohat = ovec / np.sqrt(np.sum(ovec ** 2.0, axis=1))[:, np.newaxis]
+        onorm = np.sqrt(np.sum(ovec ** 2.0, axis=1))
+        onorm[onorm == 0] = 1.0
+        ohat = ovec / onorm[:, np.newaxis]
         along = np.sum(ohat * svec, axis=1)
         dpath = np.sqrt(np.sum((svec - along[:, np.newaxis] * ohat) ** 2.0, axis=1))
 
-- 
2.43.0


From 3d553007efdd8c9f6ad21cd35befc5036c07f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:09 +0000
Subject: [PATCH 091/117] fix: advancing past the last nbody6 output with
 evolution files gives an empty cluster

---
 clustertools/io/nbody6.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index 2443453..15eac71 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -85,7 +85,7 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
     if nstot > 0:
         cluster.add_stars(xs, ys, zs, vxs, vys, vzs, ms, i_ds)
 
-    if fort82 is not None and fort83 is not None:
+    if ntot > 0 and fort82 is not None and fort83 is not None:
         cluster.ssefile=fort83
         cluster.bsefile=fort82
         i_d,kw,ri,m1,zl1,r1,te,i_d1,i_d2,kw1,kw2,kwb,rib,ecc,pb,semi,m1b,m2b,zl1b,zl2b,r1b,r2b,te1,te2=_get_nbody6se(fort82,fort83,**kwargs)
-- 
2.43.0


From 26285dd81b7ac3f40dd8e89e9dd6f073f72b97a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:09 +0000
Subject: [PATCH 092/117] fix: nbody6++ output with one single star is read

---
 clustertools/io/nbody6pp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index b804063..08f3903 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -431,7 +431,7 @@ def _get_nbody6pp_ev(bev, sev, **kwargs):
     header=sev.readline().split()
     ntot,tphys=int(header[0]),float(header[1])
 
-    data=np.loadtxt(sev.name,skiprows=1)
+    data=np.loadtxt(sev.name,skiprows=1,ndmin=2)
 
     arg=data[:,1].astype(int)
     i_d=data[:,2].astype(int)
-- 
2.43.0


From f6b723443389d70a6f19b168694e8b3221b41ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:10 +0000
Subject: [PATCH 093/117] fix: binaries of a nbody6++ output are counted once

---
 clustertools/io/nbody6pp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index 08f3903..5981660 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -182,8 +182,9 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
 
         if ntot > 0:
             cluster.add_nbody6(
-            alist[13], alist[12], alist[2], alist[4], alist[6], alist[7], alist[8], alist[3], alist[11],alist[10],alist[17], ntot, alist[1], ntot+alist[1]
+            alist[13], alist[12], alist[2], alist[4], alist[6], alist[7], alist[8], alist[3], alist[11],alist[10],alist[17], ntot, 0, ntot+alist[1]
         )
+            #binaries are counted as they are added
             nb=int(alist[1])
             cluster.add_stars(x, y, z, vx, vy, vz, m, i_d,nb=nb,analyze=False)
             cluster.rhos=np.zeros(ntot-nb)
-- 
2.43.0


From de26d1da429990042130723b888d10ad9cf4eab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:10 +0000
Subject: [PATCH 094/117] fix: stars and binaries of a nbody6++ hdf5 output are
 counted once

---
 clustertools/io/nbody6pp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index 5981660..abd1902 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -138,6 +138,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             cluster.add_binary_stars(xb1, yb1, zb1, vxb1, vyb1, vzb1, xb2, yb2, zb2, vxb2, vyb2, vzb2,set_com=False)
 
 
+        cluster.nb=nb
         cluster.add_stars(x, y, z, vx, vy, vz, m, i_d, analyze=False)
         cluster.add_sse(kw,lum,rs)
 
@@ -161,8 +162,6 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
 
         cluster.to_nbody(analyze=False)
 
-        if binaries: cluster.nb = len(semi)
-
 
     else:
         ntot,alist,x,y,z,vx,vy,vz,m,i_d,rhos,xns,pot=_get_nbody6pp_conf3(conf3,nsnap=nsnap,**kwargs)
-- 
2.43.0


From 4c54683fbb9dd7c33a383913d9606e9d0e23fba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:11 +0000
Subject: [PATCH 095/117] fix: rotated coordinates do not change with the
 cluster

---
 clustertools/cluster/operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 2ad8203..210e70c 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1536,6 +1536,9 @@ def add_rotation(cluster, qrot):
         vr, vtheta, vz, theta
     )
 
+    # z and vz still are the arrays of the cluster itself
+    z,vz=copy(z),copy(vz)
+
     return_cluster(cluster, units0, origin0, rorder0, rorder_origin0)
 
     return x,y,z,vx,vy,vz
-- 
2.43.0


From 0956523f691df438e0f1c342ae9da15944f5c201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:59 +0000
Subject: [PATCH 096/117] fix: stars can be selected by limits with AMUSE units

---
 clustertools/cluster/cluster.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index ee29b01..ad21d5e 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -24,12 +24,13 @@ from ..tidaltail.tails import *
 from copy import copy
 from galpy.orbit import Orbit
 from ..util.constants import *
+from ..util.units import _convert_length,_convert_velocity,_convert_mass
 
 try:
     import amuse.units.units as u
     from amuse.datamodel import Particles
     from amuse.units.quantities import ScalarQuantity,VectorQuantity
-    from ..util.units import _convert_amuse,_convert_length,_convert_velocity
+    from ..util.units import _convert_amuse
     _hasamuse=True
 except:
     _hasamuse=False
@@ -3929,29 +3930,35 @@ def _get_subset(
         r = cluster.r
         v = cluster.v
 
-    if rmin == None:
+    #Limits with AMUSE units are converted to the units of the cluster
+    if cluster.units != 'amuse':
+        rmin,rmax=[_convert_length(q,'amuse',cluster) if hasattr(q,'value_in') else q for q in (rmin,rmax)]
+        vmin,vmax=[_convert_velocity(q,'amuse',cluster) if hasattr(q,'value_in') else q for q in (vmin,vmax)]
+        mmin,mmax=[_convert_mass(q,'amuse',cluster) if hasattr(q,'value_in') else q for q in (mmin,mmax)]
+
+    if rmin is None:
         rmin = np.amin(r)
-    if rmax == None:
+    if rmax is None:
         rmax = np.amax(r)
-    if vmin == None:
+    if vmin is None:
         vmin = np.amin(v)
-    if vmax == None:
+    if vmax is None:
         vmax = np.amax(v)
-    if mmin == None:
+    if mmin is None:
         mmin = np.amin(cluster.m)
-    if mmax == None:
+    if mmax is None:
         mmax = np.amax(cluster.m)
 
-    if npop == None:
+    if npop is None:
         npopindx = np.ones(cluster.ntot,dtype=bool)
     else:
         npopindx=(cluster.npop == npop)
 
-    if emin == None and emax != None:
+    if emin is None and emax is not None:
         eindx = cluster.etot <= emax
-    elif emin != None and emax == None:
+    elif emin is not None and emax is None:
         eindx = cluster.etot >= emin
-    elif emin != None and emax != None:
+    elif emin is not None and emax is not None:
         eindx = (cluster.etot <= emax) * (cluster.etot >= emin)
     else:
         eindx = np.ones(cluster.ntot,dtype=bool)
-- 
2.43.0


From e47ca7adb67ff09b8dec0c14ec2a303a7b49bd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 097/117] fix: relaxation time within a radius with AMUSE units

---
 clustertools/analysis/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 7ee8d49..61e482c 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -510,7 +510,7 @@ def relaxation_time(cluster, rad=None, coulomb=0.4, projected=False,method='spit
         vel=cluster.v
 
     if rad is not None:
-        rad=_convert_length(float(rad),units0,cluster)
+        rad=_convert_length(rad if hasattr(rad,'value_in') else float(rad),units0,cluster)
     elif projected:
         rad=cluster.rmpro
     else:
-- 
2.43.0


From a45a9ed6e30db2b3f3d16693c5bd7f5b3687ed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 098/117] fix: softening length of energies can have AMUSE
 units

---
 clustertools/analysis/functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 61e482c..22a93c4 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -710,6 +710,9 @@ def energies(cluster, specific=True, ids=None, projected=False, softening=0.0, f
     if cluster.units=='amuse':
         cluster.to_pckms()
 
+    if hasattr(softening,'value_in'):
+        softening=_convert_length(softening,'amuse',cluster)
+
     grav=_get_grav(cluster)
 
     if projected:
-- 
2.43.0


From 19d4b261b5afa1502dae99c52e341a58f7a70386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 099/117] fix: closest stars of an AMUSE cluster are found

---
 clustertools/analysis/functions.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 22a93c4..803640a 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -981,10 +981,15 @@ def closest_star(cluster, projected=False, argument=False):
 
     else:
 
+        pos=[cluster.x,cluster.y,cluster.z]
+
+        if cluster.units=='amuse':
+            pos=[q.value_in(u.parsec) for q in pos]
+
         if projected:
-            x=np.column_stack([cluster.x,cluster.y])
+            x=np.column_stack(pos[:2])
         else:
-            x=np.column_stack([cluster.x,cluster.y,cluster.z])
+            x=np.column_stack(pos)
 
         tree=cKDTree(x)
         dist, arg = tree.query(x, k=2)
@@ -992,10 +997,15 @@ def closest_star(cluster, projected=False, argument=False):
     #A star that coincides with another can be listed after it
     arg[:,1]=np.where(arg[:,1]==np.arange(len(x)),arg[:,0],arg[:,1])
 
+    dist=dist[:,1]
+
+    if cluster.units=='amuse':
+        dist=dist | u.parsec
+
     if argument:
-        return dist[:,1],arg[:,1]
+        return dist,arg[:,1]
     else:
-        return dist[:,1]
+        return dist
 
 def rlagrange(cluster, nlagrange=10, mfrac=None, projected=False):
     """Calculate lagrange radii of the cluster by mass
-- 
2.43.0


From 4a13845b990ff43253c368cf84518125e11a3051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 100/117] fix: rotation can be added to an AMUSE cluster

---
 clustertools/cluster/operations.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 210e70c..c7ab820 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1522,6 +1522,9 @@ def add_rotation(cluster, qrot):
     if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre()
 
+    if units0 == 'amuse':
+        cluster.to_pckms()
+
     r, theta, z = coords.rect_to_cyl(cluster.x, cluster.y, cluster.z)
     vr, vtheta, vz = coords.rect_to_cyl_vec(
         cluster.vx, cluster.vy, cluster.vz, cluster.x, cluster.y, cluster.z
@@ -1541,4 +1544,8 @@ def add_rotation(cluster, qrot):
 
     return_cluster(cluster, units0, origin0, rorder0, rorder_origin0)
 
+    if cluster.units == 'amuse':
+        x,y,z=[q | u.parsec for q in (x,y,z)]
+        vx,vy,vz=[q | u.kms for q in (vx,vy,vz)]
+
     return x,y,z,vx,vy,vz
-- 
2.43.0


From 349207d5710e3d253c1bc00c8712f2c2b1f58642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 101/117] fix: an AMUSE cluster can be rotated along its tail

---
 clustertools/tidaltail/tails.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index 3918ffd..c9104a8 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -55,6 +55,9 @@ def to_tail(cluster):
     if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=False)
 
+    if units0 == 'amuse':
+        cluster.to_pckms()
+
 
     v_vec = np.array([cluster.vxgc, cluster.vygc, cluster.vzgc])
     new_v_vec = np.array([1.0, 0.0, 0.0])
@@ -84,7 +87,9 @@ def to_tail(cluster):
 
     return_cluster(cluster, units0, origin0, rorder0, rorder_origin0)
 
-
+    if cluster.units == 'amuse':
+        x_tail,y_tail,z_tail=[_convert_length(q,'pckms',cluster) for q in (x_tail,y_tail,z_tail)]
+        vx_tail,vy_tail,vz_tail=[_convert_velocity(q,'pckms',cluster) for q in (vx_tail,vy_tail,vz_tail)]
 
     return x_tail,y_tail,z_tail,vx_tail,vy_tail,vz_tail
 
-- 
2.43.0


From fb3de475381a559539d905369607d751dd4cf2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:17 +0000
Subject: [PATCH 102/117] fix: stars of an AMUSE cluster can be selected

---
 clustertools/cluster/cluster.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index ad21d5e..43116a4 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3930,11 +3930,25 @@ def _get_subset(
         r = cluster.r
         v = cluster.v
 
-    #Limits with AMUSE units are converted to the units of the cluster
-    if cluster.units != 'amuse':
-        rmin,rmax=[_convert_length(q,'amuse',cluster) if hasattr(q,'value_in') else q for q in (rmin,rmax)]
-        vmin,vmax=[_convert_velocity(q,'amuse',cluster) if hasattr(q,'value_in') else q for q in (vmin,vmax)]
-        mmin,mmax=[_convert_mass(q,'amuse',cluster) if hasattr(q,'value_in') else q for q in (mmin,mmax)]
+    #Compare numbers when the stars or the limits have AMUSE units
+    m = cluster.m
+
+    if cluster.units == 'amuse':
+        r = np.array([q.value_in(u.parsec) for q in r])
+        v = np.array([q.value_in(u.kms) for q in v])
+        m = m.value_in(u.MSun)
+
+    def number(q,convert,unit):
+        if not hasattr(q,'value_in'):
+            return q
+        elif cluster.units == 'amuse':
+            return q.value_in(unit)
+        else:
+            return convert(q,'amuse',cluster)
+
+    rmin,rmax=[number(q,_convert_length,u.parsec) for q in (rmin,rmax)]
+    vmin,vmax=[number(q,_convert_velocity,u.kms) for q in (vmin,vmax)]
+    mmin,mmax=[number(q,_convert_mass,u.MSun) for q in (mmin,mmax)]
 
     if rmin is None:
         rmin = np.amin(r)
@@ -3945,9 +3959,9 @@ def _get_subset(
     if vmax is None:
         vmax = np.amax(v)
     if mmin is None:
-        mmin = np.amin(cluster.m)
+        mmin = np.amin(m)
     if mmax is None:
-        mmax = np.amax(cluster.m)
+        mmax = np.amax(m)
 
     if npop is None:
         npopindx = np.ones(cluster.ntot,dtype=bool)
@@ -3980,8 +3994,8 @@ def _get_subset(
         indx = indx * (
             (r >= rmin)
             * (r <= rmax)
-            * (cluster.m >= mmin)
-            * (cluster.m <= mmax)
+            * (m >= mmin)
+            * (m <= mmax)
             * (v >= vmin)
             * (v <= vmax)
             * npopindx
-- 
2.43.0


From 61fdd19ea9ed59645a4a377722a5b5fb3af4a364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:17 +0000
Subject: [PATCH 103/117] fix: starting point and radii of a centre can have
 AMUSE units

---
 clustertools/analysis/functions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 803640a..d07cc08 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -120,6 +120,10 @@ def find_centre(
     if cluster.units=='amuse':
         cluster.to_pckms()
 
+    #Starting point and radii can have AMUSE units
+    xstart,ystart,zstart,rmin,rmax=[_convert_length(q,'amuse',cluster) if hasattr(q,'value_in') else q for q in (xstart,ystart,zstart,rmin,rmax)]
+    vxstart,vystart,vzstart=[_convert_velocity(q,'amuse',cluster) if hasattr(q,'value_in') else q for q in (vxstart,vystart,vzstart)]
+
     if indx is None:
         indx = np.ones(cluster.ntot, bool)
     elif np.sum(indx) == 0.0:
@@ -253,6 +257,10 @@ def find_centre_of_density(
     if cluster.units=='amuse':
         cluster.to_pckms()
 
+    #Starting point and radii can have AMUSE units
+    xstart,ystart,zstart,rmin,rmax=[_convert_length(q,'amuse',cluster) if hasattr(q,'value_in') else q for q in (xstart,ystart,zstart,rmin,rmax)]
+    vxstart,vystart,vzstart=[_convert_velocity(q,'amuse',cluster) if hasattr(q,'value_in') else q for q in (vxstart,vystart,vzstart)]
+
     if method=='harfst':
         xdc, ydc, zdc,vxdc, vydc, vzdc=find_centre_of_density_harfst(cluster,xstart=xstart,
             ystart=ystart,zstart=zstart,vxstart=vxstart,vystart=vystart,vzstart=vzstart,indx=indx,
-- 
2.43.0


From 22a4f54f7a0b9b63dac6aacabe4e0d746431a0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 104/117] fix: normalized radii of a profile of an AMUSE
 cluster are numbers

---
 clustertools/analysis/profiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 557a14c..a8b51f6 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -616,7 +616,7 @@ def alpha_prof(
 
     units=cluster.units
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
-    rprofn=_convert_length(rprofn,units,cluster)
+    if not normalize: rprofn=_convert_length(rprofn,units,cluster)
 
 
     if aerror:
@@ -850,7 +850,7 @@ def sigv_prof(
         if filename != None:
             plt.savefig(filename)
 
-    rprofn=_convert_length(rprofn,units,cluster)
+    if not normalize: rprofn=_convert_length(rprofn,units,cluster)
     sigvprof=_convert_velocity(sigvprof,units,cluster)
 
     return rprofn, sigvprof
-- 
2.43.0


From c37464d1fc64d8c690fca4ed0df62efed55424aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 105/117] fix: stars with AMUSE units can be added to a cluster

---
 clustertools/cluster/cluster.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 43116a4..258652c 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -477,9 +477,16 @@ class StarCluster(object):
 
         #Check for AMUSE units:
         isamuse=False
+        units0=None
 
         if _hasamuse:
             if isinstance(x,VectorQuantity):
+
+                #stars that are already in the cluster
+                if len(self.x)>0 and self.units is not None:
+                    units0=self.units
+                    self.to_pckms(analyze=False)
+
                 stars=Particles(len(x))
                 stars.x,stars.y,stars.z=x,y,z
                 stars.vx,stars.vy,stars.vz=vx,vy,vz
@@ -683,7 +690,9 @@ class StarCluster(object):
             self.vlos = np.append(self.vlos, vz)
 
 
-        if isamuse and (self.units_init is None or self.units_init == 'amuse'):
+        if units0 is not None:
+            self.to_units(units0)
+        elif isamuse and (self.units_init is None or self.units_init == 'amuse'):
             self.to_amuse()
 
         if analyze: self.analyze(sortstars=sortstars)
-- 
2.43.0


From 20f2b4093d636009bc334caf01d8a0402ea425a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:40 +0000
Subject: [PATCH 106/117] fix: core radius of a cluster in galpy units can be
 plotted

---
 clustertools/analysis/functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index d07cc08..d2b550c 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2248,6 +2248,9 @@ def rcore(
 
     if plot:
 
+        ro,vo=cluster._ro,cluster._vo
+        dens_in_msolpc2=conversion.mass_in_msol(ro=ro,vo=vo)/(ro*1000.0)**2.
+
         filename = kwargs.pop("filename", None)
         overplot = kwargs.pop("overplot", False)
 
-- 
2.43.0


From aec1ce8d03771e0122d1a0a44b33ace868c7e809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:40 +0000
Subject: [PATCH 107/117] fix: core, tidal and limiting radii of an AMUSE
 cluster can be plotted, and the plot of a tidal radius saved

---
 clustertools/analysis/functions.py | 32 ++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index d2b550c..e9bac28 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2310,7 +2310,7 @@ def rcore(
             xunits = "(GALPY)"
             yunits = "(GALPY)"
 
-        elif cluster.units == "pckms" or cluster.units == "pcmyr":
+        elif cluster.units == "pckms" or cluster.units == "pcmyr" or cluster.units == "amuse":
             xunits = " (pc)"
             if projected:
                 yunits = " Msun/pc^2"
@@ -2333,13 +2333,13 @@ def rcore(
             y,
             xlabel=r"$R %s$" % (xunits),
             ylabel=r"$\rho %s$" % (yunits),
-            title="Time = %f" % cluster.tphys,
+            title="Time = %f" % (cluster.tphys.value_in(u.Myr) if cluster.units=='amuse' else cluster.tphys),
             log=True,
             overplot=overplot,
             filename=filename,
         )
         _lplot(x, np.ones(len(x)) * rho_c, "--", overplot=True)
-        _lplot(np.ones(len(y)) * rc, y, "--", overplot=True)
+        _lplot(np.ones(len(y)) * (rc.value_in(u.parsec) if cluster.units=='amuse' else rc), y, "--", overplot=True)
 
         if filename != None:
             plt.savefig(filename)
@@ -2481,6 +2481,11 @@ def rtidal(
 
     if plot:
 
+        tphys,rplot=cluster.tphys,rt
+        if cluster.units == 'amuse':
+            cluster.to_pckms(analyze=False)
+            tphys,rplot=cluster.tphys,rt.value_in(u.parsec)
+
         if cluster.units == "nbody":
             xunits = " (NBODY)"
             yunits = " (NBODY)"
@@ -2499,19 +2504,20 @@ def rtidal(
             yunits = ""
 
 
+        filename = kwargs.pop("filename", None)
+
         _plot(
             cluster.x,
             cluster.y,
             xlabel=r"$x %s$" % xunits,
             ylabel=r"$y %s$" % yunits,
-            title="Time = %f" % cluster.tphys,
+            title="Time = %f" % tphys,
             log=False,
-            filename=None,
             **kwargs,
         )
 
-        x=np.linspace(-rt,rt,100)
-        y=np.sqrt(rt**2.-x**2.)
+        x=np.linspace(-rplot,rplot,100)
+        y=np.sqrt(rplot**2.-x**2.)
 
         x=np.append(x,x)
         y=np.append(y,-y)
@@ -2529,6 +2535,12 @@ def rtidal(
 
         _lplot(x,y,overplot=True,linestyle='--',color='k')
 
+        if filename != None:
+            plt.savefig(filename)
+
+        if units0 == 'amuse':
+            cluster.to_amuse(analyze=False)
+
 
     return rt
 
@@ -2674,7 +2686,7 @@ def rlimiting(
 
             xunits = " (NBODY)"
             yunits = " (NBODY)"
-        elif cluster.units == "pckms" or cluster.units == "pcmyr":
+        elif cluster.units == "pckms" or cluster.units == "pcmyr" or cluster.units == "amuse":
             rprof *= ro * 1000.0
 
             if projected:
@@ -2717,13 +2729,13 @@ def rlimiting(
             y,
             xlabel=r"$R %s$" % (xunits),
             ylabel=r"$\rho %s$" % (yunits),
-            title="Time = %f" % cluster.tphys,
+            title="Time = %f" % (cluster.tphys.value_in(u.Myr) if cluster.units=='amuse' else cluster.tphys),
             log=True,
             overplot=overplot,
             filename=filename,
         )
         _lplot(x, np.ones(len(x)) * rho_local, "--", overplot=True)
-        _lplot(np.ones(len(y)) * rl, y, "--", overplot=True)
+        _lplot(np.ones(len(y)) * (rl.value_in(u.parsec) if cluster.units=='amuse' else rl), y, "--", overplot=True)
 
         if filename != None:
             plt.savefig(filename)
-- 
2.43.0


From 3c064bef064a275162054064178099221a990050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:40 +0000
Subject: [PATCH 108/117] fix: axes of plots of clusters in WDunits are
 labelled with their units

---
 clustertools/analysis/functions.py |  4 ++--
 clustertools/analysis/profiles.py  | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index e9bac28..63327df 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2282,7 +2282,7 @@ def rcore(
             xunits = " (NBODY)"
             yunits = " (NBODY)"
 
-        elif cluster.units == "kpckms" or cluster.units=='kpcgyr':
+        elif cluster.units == "kpckms" or cluster.units=='kpcgyr' or cluster.units=='WDunits':
             rprof /=1000.0
             if projected:
                 pprof *= (1000.0 ** 2.0)
@@ -2701,7 +2701,7 @@ def rlimiting(
                 yunits = " Msun/pc^2"
             else:
                 yunits = " Msun/pc^3"
-        elif cluster.units == "kpckms" or cluster.units == "kpcgyr":
+        elif cluster.units == "kpckms" or cluster.units == "kpcgyr" or cluster.units == "WDunits":
             rprof *= ro
             if projected:
                 pprof *= dens_in_msolpc2 * (1000.0 ** 2.0)
diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index a8b51f6..b1a0a61 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -162,12 +162,15 @@ def rho_prof(
                 yunits = " Msun/pc^2"
             else:
                 yunits = " Msun/pc^3"
-        elif cluster.units == "kpckms" or cluster.units == "kpcgyr" or cluster.units== "WDunits":
+        elif cluster.units == "kpckms" or cluster.units == "kpcgyr":
             xunits = " (kpc)"
             if projected:
                 yunits = " Msun/kpc^2"
             else:
                 yunits = " Msun/kpc^3"
+        elif cluster.units == "WDunits":
+            xunits = " (kpc)"
+            yunits = ""
         elif cluster.units == "galpy":
             xunits = " (GALPY)"
             yunits = " (GALPY)"
@@ -350,9 +353,12 @@ def m_prof(
         elif cluster.units == "pckms" or cluster.units == "pcmyr":
             xunits = " (pc)"
             yunits = " Msun"
-        elif cluster.units == "kpckms" or cluster.units == "kpcgyr" or cluster.units== "WDunits":
+        elif cluster.units == "kpckms" or cluster.units == "kpcgyr":
             xunits = " (kpc)"
             yunits = " Msun"
+        elif cluster.units == "WDunits":
+            xunits = " (kpc)"
+            yunits = ""
         elif cluster.units == "galpy":
             xunits = " (GALPY)"
             yunits = " (GALPY)"
@@ -2045,10 +2051,13 @@ def vcirc_prof(
         elif cluster.units == "pckms" or cluster.units == "pcmyr":
             xunits = " (pc)"
             yunits = " km/s"
-        elif cluster.units == "kpckms" or cluster.units == "kpcgyr" or cluster.units== "WDunits":
+        elif cluster.units == "kpckms" or cluster.units == "kpcgyr":
             xunits = " (kpc)"
             yunits = " km/s"
 
+        elif cluster.units == "WDunits":
+            xunits = " (kpc)"
+            yunits = ""
         elif cluster.units == "galpy":
             xunits = " (GALPY)"
             yunits = " (GALPY)"
-- 
2.43.0


From d86db126cd3aeb892b1c104314d73c148e8ad807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:52 +0000
Subject: [PATCH 109/117] fix: plot of circular velocities marks the maximum on
 the axes it labels

---
 clustertools/analysis/profiles.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index b1a0a61..d1b8f34 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -2048,16 +2048,18 @@ def vcirc_prof(
         if cluster.units == "nbody":
             xunits = " (NBODY)"
             yunits = " (NBODY)"
-        elif cluster.units == "pckms" or cluster.units == "pcmyr":
+        elif cluster.units == "pckms":
             xunits = " (pc)"
             yunits = " km/s"
-        elif cluster.units == "kpckms" or cluster.units == "kpcgyr":
+        elif cluster.units == "pcmyr":
+            xunits = " (pc)"
+            yunits = " pc/Myr"
+        elif cluster.units == "kpckms":
             xunits = " (kpc)"
             yunits = " km/s"
-
-        elif cluster.units == "WDunits":
+        elif cluster.units == "kpcgyr" or cluster.units == "WDunits":
             xunits = " (kpc)"
-            yunits = ""
+            yunits = " kpc/Gyr"
         elif cluster.units == "galpy":
             xunits = " (GALPY)"
             yunits = " (GALPY)"
@@ -2067,15 +2069,17 @@ def vcirc_prof(
             yunits = ""
 
         if normalize:
-            xlabel=r"$\ln(r/r_m)$"
+            xlabel=r"$R/R_m$"
+            xvmax=rvmax/(cluster.rmpro if projected else cluster.rm)
         else:
-            xlabel=r"$\ln(r)$"
+            xlabel=r"$R \ %s$" % xunits
+            xvmax=rvmax
 
         x, y = rprof, vcprof
         _lplot(
             x,
             y,
-            xlabel=r"$R \ %s$" % xunits,
+            xlabel=xlabel,
             ylabel=r"$v_c \ %s $" % yunits,
             title="Time = %f" % cluster.tphys,
             log=kwargs.pop('log',True),
@@ -2083,7 +2087,7 @@ def vcirc_prof(
             filename=filename,
             **kwargs,
         )
-        _lplot([rvmax, rvmax], [np.amin(y), np.amax(y)], "--", overplot=True)
+        _lplot([xvmax, xvmax], [np.amin(y), np.amax(y)], "--", overplot=True)
         _lplot([np.amin(x), np.amax(x)], [vmax, vmax], "--", overplot=True)
 
         if filename != None:
-- 
2.43.0


From c0ccd4408a41115bb0fd2a387dcad1be24378f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:52 +0000
Subject: [PATCH 110/117] fix: profile of total velocities can be plotted

---
 clustertools/analysis/profiles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index d1b8f34..3fe7b10 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -787,6 +787,7 @@ def sigv_prof(
             v=vz
             ylabel=r"$\sigma_{v_z}$"
         elif coord=='v':
+            ylabel=r"$\sigma_v$"
             if projected:
                 v=cluster.vpro
             else:
@@ -1220,6 +1221,7 @@ def v_prof(
             v=vz
             ylabel=r"$\sigma_{v_z}$"
         elif coord=='v':
+            ylabel=r"$<v>$"
             if projected:
                 v=cluster.vpro
             else:
-- 
2.43.0


From 7e1463c1e335b928d8e5d114e2a1892e74a13b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:52 +0000
Subject: [PATCH 111/117] fix: orbital path on the sky is drawn over the
 current figure

---
 clustertools/analysis/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 039b5e5..0ced665 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -747,7 +747,7 @@ def orbital_path(
         if plot:
             filename = kwargs.pop("filename", None)
             overplot = kwargs.pop("overplot", False)
-            skyplot(cluster)
+            skyplot(cluster,overplot=overplot)
             plt.plot(ra,dec)
             if filename != None:
                 plt.savefig(filename)
-- 
2.43.0


From ca5eb30a0081965c619202ea59fa7614f3cb6740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:52 +0000
Subject: [PATCH 112/117] fix: centre in a plot of stars is in the frame of the
 stars

---
 clustertools/util/plots.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/clustertools/util/plots.py b/clustertools/util/plots.py
index c116f30..8094df7 100644
--- a/clustertools/util/plots.py
+++ b/clustertools/util/plots.py
@@ -625,6 +625,13 @@ def starplot(
 
     alpha = kwargs.pop("alpha", 0.1)
 
+    if cluster.origin == "cluster":
+        centre = [cluster.xc, cluster.yc, cluster.zc]
+    elif cluster.origin == "centre":
+        centre = [0.0, 0.0, 0.0]
+    else:
+        centre = [cluster.xgc, cluster.ygc, cluster.zgc]
+
     if coords != "xyz":
 
         if not overplot:
@@ -634,20 +641,20 @@ def starplot(
             x = cluster.x
             y = cluster.z
             if do_centre:
-                xgc = cluster.xgc
-                ygc = cluster.zgc
+                xgc = centre[0]
+                ygc = centre[2]
         elif coords == "yz":
             x = cluster.y
             y = cluster.z
             if do_centre:
-                xgc = cluster.ygc
-                ygc = cluster.zgc
+                xgc = centre[1]
+                ygc = centre[2]
         else:
             x = cluster.x
             y = cluster.y
             if do_centre:
-                xgc = cluster.xgc
-                ygc = cluster.ygc
+                xgc = centre[0]
+                ygc = centre[1]
 
         out = plt.plot(x, y, ".", alpha=alpha, **kwargs)
 
-- 
2.43.0


From 5321626f6cf84dfbdd62b83fc31f90d9e5cf674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:52 +0000
Subject: [PATCH 113/117] fix: plots of stars leave an AMUSE cluster in its
 units and are saved when drawn over a figure

---
 clustertools/util/plots.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/clustertools/util/plots.py b/clustertools/util/plots.py
index 8094df7..a35b3fb 100644
--- a/clustertools/util/plots.py
+++ b/clustertools/util/plots.py
@@ -659,6 +659,12 @@ def starplot(
         out = plt.plot(x, y, ".", alpha=alpha, **kwargs)
 
         if overplot:
+            if units0=='amuse':
+                cluster.to_amuse()
+
+            if filename != None:
+                plt.savefig(filename)
+
             return out
         else:
             if do_centre:
@@ -694,6 +700,9 @@ def starplot(
 
             plt.title("Time = %f" % cluster.tphys)
 
+            if units0=='amuse':
+                cluster.to_amuse()
+
             if xlim != None:
                 plt.xlim(xlim)
             if ylim != None:
@@ -845,6 +854,9 @@ def skyplot(
     if overplot:
         cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
+        if filename != None:
+            plt.savefig(filename)
+
         return out
     else:
         if do_centre:
-- 
2.43.0


From 4437ec606efcb6820aea9bbfa51397c3032da157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:52 +0000
Subject: [PATCH 114/117] fix: plot of stars in two panels opens a figure of
 its own

---
 clustertools/util/plots.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustertools/util/plots.py b/clustertools/util/plots.py
index a35b3fb..1026004 100644
--- a/clustertools/util/plots.py
+++ b/clustertools/util/plots.py
@@ -730,6 +730,9 @@ def starplot(
         else:
             units = ""
 
+        if not overplot:
+            plt.figure()
+
         plt.subplot(1, 2, 1)
 
         plt.plot(cluster.x, cluster.z, ".", alpha=alpha, **kwargs)
-- 
2.43.0


From 163d15cefce98a3a85af7473cb6dde7b025ec4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:38 +0000
Subject: [PATCH 115/117] fix: profile of squared total velocities can be
 plotted

---
 clustertools/analysis/profiles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 3fe7b10..92cab2e 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -1451,6 +1451,8 @@ def v2_prof(
         elif coord=='z' or coord=='vz':
             v=vz
             ylabel=r"$<v_z^2>$"
+        elif coord=='v':
+            ylabel=r"$<v^2>$"
     else:
         if projected:
             ylabel=r"$<v_{pro}^2>$"
-- 
2.43.0


From fb3c0c191ca6b216a213285aa18c147c9546d6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:37 +0000
Subject: [PATCH 116/117] fix: ids given to added stars are not those of the
 second stars of binaries

---
 clustertools/cluster/cluster.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 258652c..2bf987d 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -528,6 +528,9 @@ class StarCluster(object):
                 else:
                     idstart=0
 
+                if len(self.id2)!=0:
+                    idstart=np.maximum(idstart,np.amax(self.id2)+1)
+
                 ids=idstart+np.arange(0,2*nb-1,2)
             else:
                 ids=id[arg1]
@@ -586,6 +589,9 @@ class StarCluster(object):
             else:
                 idstart=0
 
+            if len(self.id2)!=0:
+                idstart=np.maximum(idstart,np.amax(self.id2)+1)
+
             ids=idstart+np.arange(0, len(x[args:]), dtype=int)
         else:
             ids=id[args:]
-- 
2.43.0


From 8b18516bfff42a9978516ad95afaca89d140f708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:37 +0000
Subject: [PATCH 117/117] fix: sky offsets are projected again when another
 centre method is asked for

---
 clustertools/cluster/operations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index c7ab820..33573d5 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -951,10 +951,12 @@ def to_centre(cluster, sortstars=True, centre_method=None):
         print('NO ORIGIN SPECIFIED')
     else:
 
+        reproject = (cluster.units == 'radec' and centre_method is not None and centre_method != cluster.centre_method)
+
         if centre_method is not None:
             cluster.centre_method = centre_method
 
-        if cluster.origin != 'centre':
+        if cluster.origin != 'centre' or reproject:
 
             if cluster.units=='radec':
                 if cluster.origin!='sky':
@@ -1051,10 +1053,12 @@ def to_cluster(cluster, sortstars=True, centre_method=None):
         print('NO ORIGIN SPECIFIED')
     else:
 
+        reproject = (cluster.units == 'radec' and centre_method is not None and centre_method != cluster.centre_method)
+
         if centre_method is not None:
             cluster.centre_method = centre_method
 
-        if cluster.origin != "cluster":
+        if cluster.origin != "cluster" or reproject:
             if cluster.units == "radec":
 
                 if cluster.origin!='sky':
-- 
2.43.0

