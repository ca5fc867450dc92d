From 0adbdccf54c30b9c596131500ef18356a045ab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 001/136] fix: add_orbit converts to and from every unit system

---
 clustertools/cluster/cluster.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index e08576f..0f73863 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -895,7 +895,7 @@ class StarCluster(object):
                     vxgc *= self.vbar
                     vygc *= self.vbar
                     vzgc *= self.vbar
-                    tphys *= self.tbar
+                    tphys *= self.tbar / 1000.0
                 elif ounits == "galpy":
                     xgc *= ro
                     ygc *= ro
@@ -923,6 +923,12 @@ class StarCluster(object):
                     vzgc/=1.022712165045695
 
 
+                elif ounits == 'WDunits':
+                    vcon = vo / conversion.velocity_in_kpcGyr(vo=vo, ro=ro)
+                    vxgc *= vcon
+                    vygc *= vcon
+                    vzgc *= vcon
+
                 elif ounits == 'radec':
                     o=Orbit([xgc,ygc,zgc,vxgc,vygc,vzgc],radec=True,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
                     xgc=o.x()
@@ -955,6 +961,23 @@ class StarCluster(object):
                 vygc /= vo
                 vzgc /= vo
                 tphys /= conversion.time_in_Gyr(ro=ro,vo=vo)
+            elif self.units == "pcmyr":
+                xgc *= 1000.0
+                ygc *= 1000.0
+                zgc *= 1000.0
+                vxgc *= 1.022712165045695
+                vygc *= 1.022712165045695
+                vzgc *= 1.022712165045695
+                tphys *= 1000.0
+            elif self.units == "kpcgyr":
+                vxgc *= 1.022712165045695
+                vygc *= 1.022712165045695
+                vzgc *= 1.022712165045695
+            elif self.units == "WDunits":
+                vcon = vo / conversion.velocity_in_kpcGyr(vo=vo, ro=ro)
+                vxgc /= vcon
+                vygc /= vcon
+                vzgc /= vcon
 
 
         self.xgc = xgc
-- 
2.43.0


From a9dabb3e23f4789ddeebc7b41bd5df45e650e425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 002/136] fix: sortstars refreshes cached orders that no longer
 sort the stars

---
 clustertools/cluster/cluster.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 0f73863..75cf62d 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1527,12 +1527,14 @@ class StarCluster(object):
         2018 - Written - Webb (UofT)
 
         """
-        if self. rorder is None or self.rorder_origin!=self.origin or len(self.r)!=len(self.rorder):
+        # Cached orders are only kept while they still sort the current radii
+        if self.rorder is None or len(self.r)!=len(self.rorder) or not _is_sorted(self.r,self.rorder):
 
             self.rorder = np.argsort(self.r)
-            self.rorder_origin=self.origin
 
-        if (self. rproorder is None or self.rorder_origin!=self.origin or len(self.rpro)!=len(self.rproorder)) and (projected or self.projected):
+        self.rorder_origin=self.origin
+
+        if (self.rproorder is None or len(self.rpro)!=len(self.rproorder) or not _is_sorted(self.rpro,self.rproorder)) and (projected or self.projected):
             self.rproorder = np.argsort(self.rpro)
 
     def _analysis_check(self,sortstars=True,projected=False):
@@ -3858,6 +3860,24 @@ class StarCluster(object):
 
         return self.tstar,self.dprog,self.dpath
 
+def _is_sorted(r,order):
+    """Check whether indices order sort the array r
+
+    Parameters
+    ----------
+    r : array
+        array to be sorted
+    order : int
+        indices of array elements
+
+    Returns
+    -------
+    is_sorted : bool
+        True if r[order] never decreases
+    """
+    rsorted=r[order]
+    return bool(np.all(rsorted[1:]>=rsorted[:-1]))
+
 def _get_subset(
     cluster,
     rmin=None,
-- 
2.43.0


From 7ad9c6540fa6c840538ffa549123c5048be83512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 003/136] fix: virialize uses the energies of the current stars

---
 clustertools/cluster/cluster.py    | 5 ++++-
 clustertools/cluster/operations.py | 9 +++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 75cf62d..b9a0ffc 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2125,7 +2125,7 @@ class StarCluster(object):
         if projected==None:
             projected=self.projected
 
-        self.qv=virialize(self, qvir=qvir, specific=True, full=True, projected=projected,softening=softening)
+        self.qv=virialize(self, qvir=qvir, specific=specific, full=full, projected=projected,softening=softening)
 
         self.save_cluster()
         units0,origin0, rorder0, rorder_origin0 = self.units0,self.origin0, self.rorder0, self.rorder_origin0
@@ -2137,6 +2137,9 @@ class StarCluster(object):
         self.vy *= self.qv
         self.vz *= self.qv
 
+        # Energies now describe the scaled velocities
+        self.add_energies(self.kin*self.qv**2.0,self.pot)
+
         self.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
     # Directly call from functions.py (see functions.py files for documenation):
diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index db30073..69996a7 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1478,12 +1478,9 @@ def virialize(cluster, qvir=0.5, specific=True, full=full_default, projected=Fal
     if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre()
 
-    try:
-        qv = np.sqrt(np.abs(qvir / cluster.qvir))
-    except:
-        print("NEED TO CALCULATE ENERGIES FIRST")
-        cluster.energies(specific=specific, full=full, projected=projected,softening=softening)
-        qv = np.sqrt(np.abs(qvir / cluster.qvir))
+    # Energies found before any change to the stars can not be used
+    cluster.energies(specific=specific, full=full, projected=projected,softening=softening)
+    qv = np.sqrt(np.abs(qvir / cluster.qvir))
 
     return_cluster(cluster, units0, origin0, rorder0, rorder_origin0)
 
-- 
2.43.0


From 3b723300615c14adef8063abd54d2abb7fc3a5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 004/136] fix: add_rotation returns coordinates in the
 cluster's own origin

---
 clustertools/cluster/cluster.py    | 1 +
 clustertools/cluster/operations.py | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index b9a0ffc..9160744 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2094,6 +2094,7 @@ class StarCluster(object):
         """
         self.x,self.y,self.z,self.vx,self.vy,self.vz=add_rotation(self, qrot)
         self.qrot=qrot
+        self.analyze()
 
     def virialize(self, qvir=0.5,specific=True, full=True, projected=None, softening=0.0):
         """ Adjust stellar velocities so cluster is in virial equilibrium
diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 69996a7..97cf58f 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1524,6 +1524,11 @@ def add_rotation(cluster, qrot):
         vr, vtheta, vz, theta
     )
 
+    # Return coordinates in the cluster's original origin
+    if origin0 == 'galaxy':
+        x,y,z = x+cluster.xc+cluster.xgc,y+cluster.yc+cluster.ygc,z+cluster.zc+cluster.zgc
+        vx,vy,vz = vx+cluster.vxc+cluster.vxgc,vy+cluster.vyc+cluster.vygc,vz+cluster.vzc+cluster.vzgc
+
     return_cluster(cluster, units0, origin0, rorder0, rorder_origin0)
 
     return x,y,z,vx,vy,vz
-- 
2.43.0


From 268c63cb8ab4910caddb1d2dd609588c051184d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 005/136] fix: reset_nbody_scale accepts the virial_radius
 options it documents

---
 clustertools/cluster/operations.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 97cf58f..73f0d77 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1421,13 +1421,13 @@ def reset_nbody_scale(cluster, mass=True, radii=True, rvirial=True, projected=Fa
     if radii:
         if rvirial:
 
-            method=kwargs.get("method", 'inverse_distance')
-            full=kwargs.get("full", True)
-            H = kwargs.get("H", 70.0)
-            Om = kwargs.get("Om", 0.3)
-            overdens = kwargs.get("overdens", 200.0)
-            nrad = kwargs.get("nrad", 20.0)
-            plot = kwargs.get("plot", False)
+            method=kwargs.pop("method", 'inverse_distance')
+            full=kwargs.pop("full", True)
+            H = kwargs.pop("H", 70.0)
+            Om = kwargs.pop("Om", 0.3)
+            overdens = kwargs.pop("overdens", 200.0)
+            nrad = kwargs.pop("nrad", 20.0)
+            plot = kwargs.pop("plot", False)
 
             cluster.virial_radius(method=method,full=full,
                 H=H,Om=Om,overdens=overdens,nrad=nrad,projected=projected,
-- 
2.43.0


From 1bbd7b04fcd736f7c849a8b2e06f1e9890e225c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 006/136] fix: parallel potential energies no longer race on
 shared elements

---
 clustertools/analysis/functions.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index a40b6fd..55f7ae6 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -839,16 +839,20 @@ def _potential_energy_parallel(cluster,softening=0.0):
     -------
        2019 - Written - Webb (UofT)
     """
-    pot = [0.0] * len(cluster)
-    for i in numba.prange(len(cluster) - 1):
-        for j in range(i + 1, len(cluster)):
-            r = distance(cluster[i], cluster[j])
-
-            if r==0: r=np.nan
-
-            m2 = cluster[i, 3] * cluster[j, 3]
-            pot[i] += -m2 / np.sqrt(r**2.+softening**2.)
-            pot[j] += -m2 / np.sqrt(r**2.+softening**2.)
+    n = len(cluster)
+    pot = np.zeros(n)
+    for i in numba.prange(n):
+        # Each thread only sums and writes the potential of its own stars
+        poti = 0.0
+        for j in range(n):
+            if j != i:
+                r = distance(cluster[i], cluster[j])
+
+                if r==0: r=np.nan
+
+                m2 = cluster[i, 3] * cluster[j, 3]
+                poti += -m2 / np.sqrt(r**2.+softening**2.)
+        pot[i] = poti
 
     return pot
 
-- 
2.43.0


From b5268972bc581548b3dcbc8e010cf3a2dce53e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 007/136] fix: parallel subset potential energies are computed
 in parallel

---
 clustertools/analysis/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 55f7ae6..fbec5ee 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -893,7 +893,7 @@ def _potential_energy_subset(cluster_sub, cluster_full,softening=0.0):
         
     return pot
     
-@numba.njit()
+@numba.njit(parallel=True)
 def _potential_energy_subset_parallel(cluster_sub, cluster_full,softening=0.0):
     """Find the potential energy for a subset of stars in a bigger cluster
     
@@ -914,7 +914,7 @@ def _potential_energy_subset_parallel(cluster_sub, cluster_full,softening=0.0):
     -------
         2022 - Written - Erik Gillis (UofT)
     """
-    pot = [0.0] * len(cluster_sub)
+    pot = np.zeros(len(cluster_sub))
     
     for i in numba.prange(len(cluster_sub)):
         for j in range(len(cluster_full)):
-- 
2.43.0


From 7edfb095e1082cb54bd3487788d02d7512476c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 008/136] fix: energies of selected stars follow projected, no
 softened self-energy

---
 clustertools/analysis/functions.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index fbec5ee..7b47e80 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -723,11 +723,18 @@ def energies(cluster, specific=True, ids=None, projected=False, softening=0.0, f
         # Get gravitational constant
         grav = _get_grav(cluster)
 
-        kin = 0.5 * cluster.m[ids] * cluster.v[ids]**2
+        if projected:
+            v = cluster.vpro
+            z = np.zeros(len(cluster.x))
+        else:
+            v = cluster.v
+            z = cluster.z
+
+        kin = 0.5 * cluster.m[ids] * v[ids]**2
 
-        cluster_full = np.array([cluster.x, cluster.y, cluster.z, cluster.m]).T
+        cluster_full = np.array([cluster.x, cluster.y, z, cluster.m]).T
         cluster_sub  = np.array([cluster.x[ids], cluster.y[ids], 
-                                 cluster.z[ids], cluster.m[ids]]).T
+                                 z[ids], cluster.m[ids]]).T
 
         if parallel:
             pot = grav * np.array(_potential_energy_subset_parallel(cluster_sub, cluster_full,softening))
@@ -768,6 +775,7 @@ def energies(cluster, specific=True, ids=None, projected=False, softening=0.0, f
                 dr = np.sqrt(dx ** 2.0 + dy ** 2.0 + dz ** 2.0 + softening**2.)
 
             indx = dr != 0.0
+            indx[i] = False
             gmr = -grav * m[indx] / dr[indx]
 
             pot.append(np.sum(gmr))
-- 
2.43.0


From d27eb226cd3dd3ceddae4328d7e47655125bfea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 009/136] fix: stars can be added after stellar evolution data
 or energies

---
 clustertools/cluster/cluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 9160744..2323e83 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1445,7 +1445,7 @@ class StarCluster(object):
             self.r10pro = self.rpro[self.rproorder[indx][0]]
 
 
-        if len(self.lum) > 0 and self.rorder is not None:
+        if len(self.lum) > 0 and len(self.lum) == len(self.m) and self.rorder is not None:
             lsum = np.cumsum(self.lum[self.rorder])
             indx = lsum >= 0.5 * self.ltot
             self.rh = self.r[self.rorder[indx][0]]
@@ -4194,7 +4194,7 @@ def sub_cluster(
                     cluster.logr2[bindx],
                 )
 
-        if len(cluster.etot) > 0:
+        if len(cluster.etot) > 0 and len(cluster.etot) == cluster.ntot:
             subcluster.add_energies(
                 cluster.kin[indx], cluster.pot[indx],
             )
-- 
2.43.0


From f7022e2e2c468c968fc09c94809880e014b753e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 010/136] fix: points outside every bin are not counted in the
 nearest bin

---
 clustertools/tidaltail/tails.py |  1 +
 clustertools/util/recipes.py    | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index 93604a7..0bd1c62 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -207,6 +207,7 @@ def tail_path(
         dindx = (np.fabs(dpath) <= dmax)
 
     bin_idx = bin_index(tstar, t_lower, t_upper)
+    dindx = dindx * (bin_idx >= 0)
 
     nbin = len(t_mid)
     counts = np.bincount(bin_idx[dindx], minlength=nbin).astype(float)
diff --git a/clustertools/util/recipes.py b/clustertools/util/recipes.py
index 7cffe5c..36fb26c 100644
--- a/clustertools/util/recipes.py
+++ b/clustertools/util/recipes.py
@@ -370,7 +370,7 @@ def dx_function(x, nx=10, bintype="num", x_lower=None, x_mean=None,x_upper=None,
             x_lower, x_mean, x_upper, x_hist = binmaker(x, nx)
     else:
         bin_idx = bin_index(x,x_lower,x_upper)
-        x_hist = np.bincount(bin_idx, minlength=len(x_lower)).astype(float)
+        x_hist = np.bincount(bin_idx[bin_idx >= 0], minlength=len(x_lower)).astype(float)
 
     dx = x_hist / (x_upper - x_lower)
     indx=dx>0
@@ -442,7 +442,7 @@ def tapered_dx_function(x, nx=10, bintype="num", x_lower=None, x_mean=None,x_upp
             x_lower, x_mean, x_upper, x_hist = binmaker(x, nx)
     else:
         bin_idx = bin_index(x,x_lower,x_upper)
-        x_hist = np.bincount(bin_idx, minlength=len(x_lower)).astype(float)
+        x_hist = np.bincount(bin_idx[bin_idx >= 0], minlength=len(x_lower)).astype(float)
 
     dx = x_hist / (x_upper - x_lower)
     indx=dx>0
@@ -520,7 +520,7 @@ def x_hist(x, nx=10, bintype="num", bins=False, x_lower=None, x_mean=None,x_uppe
             x_lower, x_mean, x_upper, x_hist = binmaker(x, nx)
     else:
         bin_idx = bin_index(x,x_lower,x_upper)
-        x_hist = np.bincount(bin_idx, minlength=len(x_lower)).astype(float)
+        x_hist = np.bincount(bin_idx[bin_idx >= 0], minlength=len(x_lower)).astype(float)
 
     if bins:
         return x_lower,x_mean,x_upper,x_hist
@@ -568,7 +568,7 @@ def mean_prof(x, y, nbin=10, bintype="num", steptype="linear", median=False, x_l
         x_mid=x_mean
 
     bin_idx = bin_index(x,x_lower,x_upper)
-    x_hist = np.bincount(bin_idx, minlength=len(x_lower)).astype(float)
+    x_hist = np.bincount(bin_idx[bin_idx >= 0], minlength=len(x_lower)).astype(float)
 
     y_bin = []
     y_sig = []
@@ -799,10 +799,17 @@ def bin_index(x, x_lower, x_upper):
     Returns
     -------
     bin_indx : int
-      integers that match each x point to a bin
+      integers that match each x point to a bin (-1 if x is not within any bin)
     """
 
+    x = np.asarray(x)
+    x_lower = np.asarray(x_lower)
+    x_upper = np.asarray(x_upper)
+
     bin_indx = np.searchsorted(x_upper, x, side="right")
     bin_indx = np.minimum(bin_indx, len(x_upper) - 1)
 
+    #Values that are not within any bin do not belong to the nearest one
+    bin_indx = np.where((x < x_lower[bin_indx]) | (x > x_upper[bin_indx]), -1, bin_indx)
+
     return bin_indx
-- 
2.43.0


From 2321c956da4bb964fa3aad527922ad1323b74ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 011/136] fix: binning recipes keep the extreme values inside
 the outer bins

---
 clustertools/util/recipes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/clustertools/util/recipes.py b/clustertools/util/recipes.py
index 36fb26c..4644b94 100644
--- a/clustertools/util/recipes.py
+++ b/clustertools/util/recipes.py
@@ -127,6 +127,9 @@ def binmaker(x, nbin=10, nsum=False, steptype="linear"):
         steps = np.linspace(np.amin(x), np.amax(x), nbin + 1)
     else:
         steps = np.logspace(np.log10(np.amin(x)), np.log10(np.amax(x)), nbin + 1)
+        #Rounding must not leave the extreme values outside of the bins
+        steps[0] = np.amin(x)
+        steps[-1] = np.amax(x)
 
     x_lower = steps[:-1]
     x_upper = steps[1:]
@@ -203,7 +206,7 @@ def roaming_nbinmaker(x, nbin=10, ntot=20, nsum=False):
         if i<np.sum(indx)-1:
             xindx = (x >= x_lower[i]) * (x < x_upper[i])
         else:
-            xindx = (x >= x_lower[i])
+            xindx = (x >= x_lower[i]) * (x <= x_upper[i])
 
         x_hist = np.append(x_hist, np.sum(xindx))
         x_sum = np.append(x_sum, np.sum(x[xindx]))
@@ -270,6 +273,10 @@ def roaming_binmaker(x, nbin=10, ntot=20, nsum=False, steptype="linear"):
                 
         x_mid=10.0**((np.log10(x_upper)+np.log10(x_lower))/2.)
 
+    #Rounding must not leave the extreme values outside of the bins
+    x_lower[0]=np.amin(x)
+    if ntot>1: x_upper[-1]=np.amax(x)
+
     x_hist=np.array([])
     x_sum=np.array([])
 
-- 
2.43.0


From dce4cab7b6e94098ea594e34afe7c48f4b1f8e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 012/136] fix: power_law_distribution_function follows positive
 slopes and fills n values

---
 clustertools/util/recipes.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/clustertools/util/recipes.py b/clustertools/util/recipes.py
index 4644b94..cd42202 100644
--- a/clustertools/util/recipes.py
+++ b/clustertools/util/recipes.py
@@ -319,12 +319,10 @@ def power_law_distribution_function(n, alpha, xmin, xmax):
     eta = alpha + 1.0
 
     if xmin == xmax:
-        x = xmin
+        x = xmin * np.ones(n)
     elif alpha == 0:
         x = xmin + np.random.random(n) * (xmax - xmin)
-    elif alpha > 0:
-        x = xmin + np.random.power(eta, n) * (xmax - xmin)
-    elif alpha < 0 and alpha != -1.0:
+    elif alpha != -1.0:
         x = (xmin ** eta + (xmax ** eta - xmin ** eta) * np.random.rand(n)) ** (
             1.0 / eta
         )
-- 
2.43.0


From 7f970581593ae9fbfd95815e2c9a30775b13c8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 013/136] fix: masses in galpy units convert with galpy's
 conversion module

---
 clustertools/util/units.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index b4a7d48..6df72a5 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -413,12 +413,12 @@ def _convert_mass(x,units,cluster):
             if cluster.units=='amuse':
                 x= x | u.MSun
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
             elif cluster.units=='WDunits':
                 x/=222288.4543021174
 
         elif units=='galpy':
-            x *= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+            x *= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
 
             if cluster.units=='amuse':
                 x= x | u.MSun
@@ -435,7 +435,7 @@ def _convert_mass(x,units,cluster):
             elif cluster.units=='amuse':
                 x= x | u.MSun
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
 
         else:
             if units=='amuse':
@@ -444,7 +444,7 @@ def _convert_mass(x,units,cluster):
             if cluster.units=='nbody':
                 x/=cluster.zmbar
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
             elif cluster.units=='WDunits':
                 x/=222288.4543021174
             elif cluster.units=='amuse':
-- 
2.43.0


From 5111db6c8a2847c35c40620e80fd82bc3bd9d78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 014/136] fix: velocity helpers convert to and from every unit
 system

---
 clustertools/util/units.py | 156 +++++++------------------------------
 1 file changed, 26 insertions(+), 130 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index 6df72a5..9d5ff4d 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -134,69 +134,36 @@ def _convert_velocity(x,units,cluster):
     -------
     2022 - Written - Webb (UofT)
     """
-    if units!=cluster.units:
-
-        if units=='nbody':
-            if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
-                x*=cluster.vbar
-                if cluster.units=='amuse':
-                    x= x | u.kms
-                elif cluster.units=='pcmyr':
-                    x*=1.022712165045695
-            elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
-                x*=cluster.vbar
-                if cluster.units=='kpcgyr':
-                    x*=1.022712165045695
-            elif cluster.units=='galpy':
-                x*=cluster.vbar/cluster._vo
-            elif cluster.units=='radec':
-                print('NO DIRECT CONVERSION AVAILABLE')
-
+    return _scale_velocity(x,units,cluster,1)
+
+def _velocity_in_kms(units,cluster):
+    #km/s of one velocity unit
+    if units=='nbody':
+        return cluster.vbar
+    elif units=='pcmyr' or units=='kpcgyr':
+        return 1.0/1.022712165045695
+    elif units=='galpy':
+        return cluster._vo
+    elif units=='WDunits':
+        return cluster._vo/conversion.velocity_in_kpcGyr(ro=cluster._ro,vo=cluster._vo)
+    else:
+        return 1.0
+
+def _scale_velocity(x,units,cluster,power):
 
-        elif units=='pckms' or units=='pcmyr' or units=='amuse':
-            if units=='pcmyr': 
-                x/=1.022712165045695
-            elif units=='amuse':
-                x=x.value_in(u.kms)
-
-            if cluster.units=='nbody':
-                x/=cluster.vbar
-            elif cluster.units=='galpy':
-                x/=cluster._vo
-            elif cluster.units=='radec':
-                print('NO DIRECT CONVERSION AVAILABLE')
-            elif cluster.units=='amuse':
-                x=x | u.kms
+    if units!=cluster.units:
 
-        elif units=='kpckms' or units=='kpcgyr' or units=='WDunits':
-            if units=='kpcgyr': 
-                x/=1.022712165045695
-            if cluster.units=='nbody':
-                x/=cluster.vbar
-            elif cluster.units=='amuse':
-                x= x | u.kms
-            elif cluster.units=='galpy':
-                x/=cluster._vo
-            elif cluster.units=='radec':
-                print('NO DIRECT CONVERSION AVAILABLE')
+        if units=='radec' or cluster.units=='radec':
+            print('NO DIRECT CONVERSION AVAILABLE')
+            return x
 
-        elif units=='galpy':
-            if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
-                x*=cluster._vo
-                if cluster.units=='amuse':
-                    x= x | u.kms
-                elif cluster.units=='pcmyr':
-                    x*=1.022712165045695
-            elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
-                x*=cluster._vo
-            elif cluster.units=='nbody':
-                x*=(cluster._vo/cluster.vbar)
-            elif cluster.units=='radec':
-                print('NO DIRECT CONVERSION AVAILABLE')
+        if units=='amuse':
+            x=x.value_in(u.kms**power)
 
-        elif units=='radec':
-            print('NO DIRECT CONVERSION AVAILABLE')
+        x=x*(_velocity_in_kms(units,cluster)/_velocity_in_kms(cluster.units,cluster))**power
 
+        if cluster.units=='amuse':
+            x=x | u.kms**power
 
     return x
 
@@ -222,78 +189,7 @@ def _convert_square_velocity(x,units,cluster):
     2022 - Written - Webb (UofT)
     """
 
-    if units!=cluster.units:
-
-
-        if units=='nbody':
-            if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
-                x*=(cluster.vbar**2.0)
-                if cluster.units=='amuse':
-                    x= x | (u.kms*u.kms)
-                elif cluster.units=='pcmyr':
-                    x*=(1.022712165045695**2.0)
-            elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
-                x*=(cluster.vbar**2.)
-                if cluster.units=='kpcgyr':
-                    x*=(1.022712165045695**2.0)
-            elif cluster.units=='galpy':
-                x*=((cluster.vbar/cluster._vo)**2.)
-            elif cluster.units=='radec':
-                print('NO DIRECT CONVERSION AVAILABLE')
-
-
-        elif units=='pckms' or units=='pcmyr' or units=='amuse':
-
-            if units=='pcmyr':
-                x/=(1.022712165045695**2.0)
-
-            if units=='amuse':
-                x=x.value_in(u.kms*u.kms)
-
-            if cluster.units=='nbody':
-                x/=(cluster.vbar**2.)
-            elif cluster.units=='galpy':
-                x/=(cluster._vo**2.)
-            elif cluster.units=='radec':
-                print('NO DIRECT CONVERSION AVAILABLE')
-            elif cluster.units=='amuse':
-                x=x | (u.kms*u.kms)
-
-        elif units=='kpckms' or units=='kpcgyr' or units=='WDunits':
-
-            if units=='kpcgyr':
-                x/=(1.022712165045695**2.0)
-
-            if cluster.units=='nbody':
-                x/=(cluster.vbar**2.)
-            elif cluster.units=='amuse':
-                x= x | (u.kms*u.kms)
-            elif cluster.units=='galpy':
-                x/=(cluster._vo**2.)
-            elif cluster.units=='radec':
-                print('NO DIRECT CONVERSION AVAILABLE')
-
-        elif units=='galpy':
-            if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
-                x*=(cluster._vo**2.)
-                if cluster.units=='amuse':
-                    x= x | (u.kms*u.kms)
-                elif units=='pcmyr':
-                    x/=(1.022712165045695**2.0)
-            elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
-                x*=(cluster._vo**2.)
-                if units=='kpcgyr':
-                    x/=(1.022712165045695**2.0)
-            elif cluster.units=='nbody':
-                x*=((cluster._vo/cluster.vbar)**2.)
-            elif cluster.units=='radec':
-                print('NO DIRECT CONVERSION AVAILABLE')
-
-        elif units=='radec':
-            print('NO DIRECT CONVERSION AVAILABLE')
-
-
-    return x
+    return _scale_velocity(x,units,cluster,2)
 
 def _convert_time(x,units,cluster):
     """Convert x from units to cluster.units
-- 
2.43.0


From 1e65e5ff0ecd5fd121271360b355a11513fe56d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 015/136] fix: unit helpers do not modify the array they are
 given

---
 clustertools/util/units.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index 9d5ff4d..055cb31 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -43,6 +43,9 @@ def _convert_length(x,units,cluster):
 
     if units!=cluster.units:
 
+        #Do not change the values of the array that was given
+        x=np.array(x)*1.0 if isinstance(x,(list,tuple)) else x*1.0
+
         if units=='nbody':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
                 x*=cluster.rbar
@@ -215,6 +218,9 @@ def _convert_time(x,units,cluster):
 
     if units!=cluster.units:
 
+        #Do not change the values of the array that was given
+        x=np.array(x)*1.0 if isinstance(x,(list,tuple)) else x*1.0
+
 
         to=conversion.time_in_Gyr(ro=cluster._ro,vo=cluster._vo)
 
@@ -303,6 +309,9 @@ def _convert_mass(x,units,cluster):
 
     if units!=cluster.units:
 
+        #Do not change the values of the array that was given
+        x=np.array(x)*1.0 if isinstance(x,(list,tuple)) else x*1.0
+
 
         if units=='nbody':
             x*=cluster.zmbar
-- 
2.43.0


From aa1d585ca8d268647e1b2f64a991b9c706fc4de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 016/136] fix: projected densities convert with the square of
 the length unit

---
 clustertools/util/units.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index 055cb31..fb31b65 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -427,7 +427,7 @@ def _convert_density(x,units,cluster,projected=False):
             elif cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
                 x/=(1000.0**power)
                 if cluster.units=='amuse':
-                    x/= 1 | (u.parsec*u.parsec*u.parsec)
+                    x/= (1 | u.parsec)**power
             elif cluster.units=='galpy':
                 x*=(cluster._ro**power)
             elif cluster.units=='radec':
@@ -436,15 +436,15 @@ def _convert_density(x,units,cluster,projected=False):
 
         elif units=='galpy':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
-                x/=((1000.0*cluster._ro)**3.0)
+                x/=((1000.0*cluster._ro)**power)
                 if cluster.units=='amuse':
-                    x/= 1 | (u.parsec*u.parsec*u.parsec)
+                    x/= (1 | u.parsec)**power
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x/=(cluster._ro**power)
             elif cluster.units=='nbody':
                 x/=((cluster._ro*1000.0/cluster.rbar)**power)
             elif cluster.units=='radec':
-                x/=(cluster._ro**3.0)
+                x/=(cluster._ro**power)
                 kpc_deg=np.degrees(np.arctan2(1.0,cluster.zgc))
                 x/=(kpc_deg**power)
 
@@ -459,7 +459,7 @@ def _convert_density(x,units,cluster,projected=False):
                 elif cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
                     x/=(1000.0**power)
                     if cluster.units=='amuse':
-                        x/= 1 | (u.parsec*u.parsec*u.parsec)
+                        x/= (1 | u.parsec)**power
                 elif cluster.units=='galpy':
                     x*=(cluster._ro**power)
 
-- 
2.43.0


From 3364e8d2d7cc71685d190d664e16b425b3b2efb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 017/136] fix: densities convert from AMUSE quantities

---
 clustertools/util/units.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index fb31b65..64abe7d 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -384,13 +384,17 @@ def _convert_density(x,units,cluster,projected=False):
     if units!=cluster.units:
 
 
-        x=_convert_mass(x,units,cluster)
-
         if projected:
             power=2.0
         else:
             power=3.0
 
+        if units=='amuse':
+            x=x.value_in(u.MSun/u.parsec**power)*1.0
+            x=_convert_mass(x,'pckms',cluster)
+        else:
+            x=_convert_mass(x,units,cluster)
+
 
         if units=='nbody':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
-- 
2.43.0


From 29d98fb017c14ad115fc0ce2a337d0089d70a569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 018/136] fix: sky conversions use the current stars and
 orbital position, not cached orbits

---
 clustertools/cluster/operations.py | 64 ++++++++++++++++--------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 73f0d77..857181e 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -31,6 +31,7 @@ __all__ = [
 ]
 
 from ..util.constants import *
+from ..analysis.orbits import initialize_orbit,initialize_orbits
 import numpy as np
 from galpy.orbit import Orbit
 from galpy.util import _rotate_to_arbitrary_vector
@@ -469,8 +470,11 @@ def to_radec(cluster, sortstars=True,centre_method=None,analyze=True):
             cluster.to_kpckms(analyze=False)
             cluster.to_galaxy()
 
-            if cluster.orbit is None: cluster.initialize_orbit(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
-            if cluster.orbits is None: cluster.initialize_orbits(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            #Stars and orbital position may have changed since cluster.orbit and cluster.orbits were initialized
+            orbit=initialize_orbit(cluster,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            orbits=initialize_orbits(cluster,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            if cluster.orbit is None: cluster.orbit=orbit
+            if cluster.orbits is None: cluster.orbits=orbits
 
             R, phi, z = coords.rect_to_cyl(cluster.xgc+cluster.xc, cluster.ygc+cluster.yc, cluster.zgc+cluster.zc)
             vR, vT, vz = coords.rect_to_cyl_vec(cluster.vxgc+cluster.vxc, cluster.vygc+cluster.vyc, cluster.vzgc+cluster.vzc,cluster.xgc+cluster.xc, cluster.ygc+cluster.yc, cluster.zgc+cluster.zc)
@@ -479,19 +483,19 @@ def to_radec(cluster, sortstars=True,centre_method=None,analyze=True):
                 [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
             )
 
-            cluster.ra=cluster.orbits.ra()
-            cluster.dec=cluster.orbits.dec()
-            cluster.dist=cluster.orbits.dist()
-            cluster.pmra=cluster.orbits.pmra()
-            cluster.pmdec=cluster.orbits.pmdec()
-            cluster.vlos=cluster.orbits.vlos()
+            cluster.ra=orbits.ra()
+            cluster.dec=orbits.dec()
+            cluster.dist=orbits.dist()
+            cluster.pmra=orbits.pmra()
+            cluster.pmdec=orbits.pmdec()
+            cluster.vlos=orbits.vlos()
 
-            cluster.ra_gc=cluster.orbit.ra()
-            cluster.dec_gc=cluster.orbit.dec()
-            cluster.dist_gc=cluster.orbit.dist()
-            cluster.pmra_gc=cluster.orbit.pmra()
-            cluster.pmdec_gc=cluster.orbit.pmdec()
-            cluster.vlos_gc=cluster.orbit.vlos()
+            cluster.ra_gc=orbit.ra()
+            cluster.dec_gc=orbit.dec()
+            cluster.dist_gc=orbit.dist()
+            cluster.pmra_gc=orbit.pmra()
+            cluster.pmdec_gc=orbit.pmdec()
+            cluster.vlos_gc=orbit.vlos()
 
             cluster.ra_c=oc.ra()
             cluster.dec_c=oc.dec()
@@ -561,8 +565,10 @@ def from_radec(cluster, sortstars=True):
 
         if cluster.units == "radec" and cluster.origin == "sky":
 
-            if cluster.orbit is None: cluster.initialize_orbit(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
-            if cluster.orbits is None: cluster.initialize_orbits(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            orbit=initialize_orbit(cluster,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            orbits=initialize_orbits(cluster,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            if cluster.orbit is None: cluster.orbit=orbit
+            if cluster.orbits is None: cluster.orbits=orbits
 
 
             if cluster.xcn is not None:
@@ -586,19 +592,19 @@ def from_radec(cluster, sortstars=True):
                 cluster.vyc=oc.vy()
                 cluster.vzc=oc.vz()
 
-            cluster.x = cluster.orbits.x()
-            cluster.y = cluster.orbits.y()
-            cluster.z = cluster.orbits.z()
-            cluster.vx = cluster.orbits.vx()
-            cluster.vy = cluster.orbits.vy()
-            cluster.vz = cluster.orbits.vz()
-
-            cluster.xgc = cluster.orbit.x()
-            cluster.ygc = cluster.orbit.y()
-            cluster.zgc = cluster.orbit.z()
-            cluster.vxgc = cluster.orbit.vx()
-            cluster.vygc = cluster.orbit.vy()
-            cluster.vzgc = cluster.orbit.vz()
+            cluster.x = orbits.x()
+            cluster.y = orbits.y()
+            cluster.z = orbits.z()
+            cluster.vx = orbits.vx()
+            cluster.vy = orbits.vy()
+            cluster.vz = orbits.vz()
+
+            cluster.xgc = orbit.x()
+            cluster.ygc = orbit.y()
+            cluster.zgc = orbit.z()
+            cluster.vxgc = orbit.vx()
+            cluster.vygc = orbit.vy()
+            cluster.vzgc = orbit.vz()
 
             cluster.origin = "galaxy"
             cluster.units = "kpckms"
-- 
2.43.0


From 83bc34d18fdcf8dfb9ff532a401e71c9797d0cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 019/136] fix: cluster centre survives conversion to and from
 sky coordinates

---
 clustertools/cluster/operations.py | 38 +++++++++++++-----------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 857181e..d87bcf0 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -571,27 +571,6 @@ def from_radec(cluster, sortstars=True):
             if cluster.orbits is None: cluster.orbits=orbits
 
 
-            if cluster.xcn is not None:
-                cluster.xc,cluster.yc,cluster.zc=cluster.xcn,cluster.ycn,cluster.zcn
-                cluster.xc*=cluster.rbar/1000.
-                cluster.yc*=cluster.rbar/1000.
-                cluster.zc*=cluster.rbar/1000.
-                cluster.vxc=0.
-                cluster.vyc=0.
-                cluster.vzc=0.
-
-            else:
-                oc = Orbit(
-                    [cluster.ra_c,cluster.dec_c,cluster.dist_c,cluster.pmra_c,cluster.pmdec_c,cluster.vlos_c], radec=True,ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
-                )
-
-                cluster.xc=oc.x()
-                cluster.yc=oc.y()
-                cluster.zc=oc.z()
-                cluster.vxc=oc.vx()
-                cluster.vyc=oc.vy()
-                cluster.vzc=oc.vz()
-
             cluster.x = orbits.x()
             cluster.y = orbits.y()
             cluster.z = orbits.z()
@@ -606,6 +585,23 @@ def from_radec(cluster, sortstars=True):
             cluster.vygc = orbit.vy()
             cluster.vzgc = orbit.vz()
 
+            #The cluster's centre is given with respect to its orbital position
+            if cluster.dist_c == 0.:
+                #No centre has been given in sky coordinates
+                cluster.xc,cluster.yc,cluster.zc=0.,0.,0.
+                cluster.vxc,cluster.vyc,cluster.vzc=0.,0.,0.
+            else:
+                oc = Orbit(
+                    [cluster.ra_c,cluster.dec_c,cluster.dist_c,cluster.pmra_c,cluster.pmdec_c,cluster.vlos_c], radec=True,ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
+                )
+
+                cluster.xc=oc.x()-cluster.xgc
+                cluster.yc=oc.y()-cluster.ygc
+                cluster.zc=oc.z()-cluster.zgc
+                cluster.vxc=oc.vx()-cluster.vxgc
+                cluster.vyc=oc.vy()-cluster.vygc
+                cluster.vzc=oc.vz()-cluster.vzgc
+
             cluster.origin = "galaxy"
             cluster.units = "kpckms"
 
-- 
2.43.0


From 0aa9cd61ce2b0357998416ceb9ee47c4dbc7345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 020/136] fix: orthographic velocities about the centre use the
 centre's proper motion

---
 clustertools/cluster/operations.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index d87bcf0..bf649d6 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1128,18 +1128,19 @@ def _get_orthographic_centre(cluster,from_centre=False):
         )
         cluster.vy = pmra * np.sin(dec_gc) * np.sin(
             ra - ra_gc
-        ) + cluster.pmdec * (
+        ) + pmdec * (
             np.cos(dec) * np.cos(dec_gc)
             + np.sin(dec) * np.sin(dec_gc) * np.cos(ra - ra_gc)
         )
 
-        cluster.vx-=cluster.vxgc
-        cluster.vy-=cluster.vygc
-
         if from_centre:
+            cluster.vx -= cluster.vxc
+            cluster.vy -= cluster.vyc
             cluster.z -= cluster.zc
             cluster.vz -= cluster.vzc
         else:
+            cluster.vx -= cluster.vxgc
+            cluster.vy -= cluster.vygc
             cluster.z -= cluster.zgc
             cluster.vz -= cluster.vzgc
 
-- 
2.43.0


From 09c6d9c67ef8268bf78de710e69e7382f753a228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 021/136] fix: sphere_coords, cyl_coords and sky_coords run
 from sky coordinates and every frame

---
 clustertools/util/coordinates.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/clustertools/util/coordinates.py b/clustertools/util/coordinates.py
index ea2d779..8e5517e 100644
--- a/clustertools/util/coordinates.py
+++ b/clustertools/util/coordinates.py
@@ -51,7 +51,7 @@ def sphere_coords(cluster):
     units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
     if origin0=='sky':
-        cluster.to_galaxy(ro=ro,vo=vo,solarmotion=solar_motion)
+        cluster.to_galaxy()
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -166,7 +166,7 @@ def cyl_coords(cluster):
     units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
     if origin0=='sky':
-        cluster.to_galaxy(ro=ro,vo=vo,solarmotion=solar_motion)
+        cluster.to_galaxy()
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -224,13 +224,15 @@ def cyl_to_cart(r,theta,zed,vr,vtheta,vz):
 
     return x, y, copy.copy(z), vx, vy, copy.copy(vz)
 
-def sky_coords(cluster,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion,zo=solar_zo):
+def sky_coords(cluster,ro=None,vo=None,solarmotion=None,zo=None):
     """Get the sky coordinates of every star in the cluster
 
     Parameters
     ----------
     cluster : class
         StarCluster
+    ro,vo,solarmotion,zo : float
+        galpy scalings and solar position and motion (default: those of the cluster)
 
     Returns
     -------
@@ -244,15 +246,21 @@ def sky_coords(cluster,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion,zo=solar
     cluster.save_cluster()
     units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
-    cluster.to_radec(ro=ro,vo=vo,solarmotion=solar_motion)
+    if ro is None: ro=cluster._ro
+    if vo is None: vo=cluster._vo
+    if zo is None: zo=cluster._zo
+    if solarmotion is None: solarmotion=cluster._solarmotion
 
-    ra,dec,d0,pmra,pmdec,vr0=cluster.x,cluster.y,cluster.z,cluster.vx,cluster.vy,cluster.vz
+    cluster.to_galaxy()
+    cluster.to_kpckms()
+
+    ra,dec,d0,pmra,pmdec,vr0=cart_to_sky(cluster.x,cluster.y,cluster.z,cluster.vx,cluster.vy,cluster.vz,ro=ro,vo=vo,solarmotion=solarmotion,zo=zo)
 
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
     return ra, dec, d0, pmra, pmdec, vr0
 
-def cart_to_sky(x,y,z,vx,vy,vz,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion):
+def cart_to_sky(x,y,z,vx,vy,vz,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion,zo=solar_zo):
     """Convert cartesian coordinates to sky coordinates
 
     Parameters
@@ -275,14 +283,14 @@ def cart_to_sky(x,y,z,vx,vy,vz,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion)
 
     if isinstance(R,float):
         o = Orbit(
-            [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, solarmotion=solarmotion
+            [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
         )
     else:
 
         vxvv=np.column_stack([R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi])
 
         o = Orbit(
-            vxvv, ro=ro, vo=vo, solarmotion=solarmotion
+            vxvv, ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
         )
 
     return o.ra(),o.dec(),o.dist(),o.pmra(),o.pmdec(),o.vlos()
-- 
2.43.0


From 4eca72282b3c5a9026be0758a876fdc22c234129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 022/136] fix: analyze does not use the sorted orders of an
 earlier number of stars

---
 clustertools/cluster/cluster.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 2323e83..0df77f5 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1426,6 +1426,10 @@ class StarCluster(object):
         self.rmeanpro = np.mean(self.rpro)
         self.rmaxpro = np.max(self.rpro)
 
+        # Orders of a different number of stars cannot be used
+        if self.rproorder is not None and len(self.rproorder)!=len(self.rpro): self.rproorder=None
+        if self.rorder is not None and len(self.rorder)!=len(self.r): sortstars=True
+
         if sortstars: self.sortstars(projected=projected)
 
         # Find half-mass radius
-- 
2.43.0


From 6a894f4511add4f9065ce09c2e5acd80729c253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 023/136] fix: stars, binaries and stellar evolution data added
 in several calls keep their rows, masses and ids

---
 clustertools/cluster/cluster.py | 261 +++++++++++++++++---------------
 1 file changed, 137 insertions(+), 124 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 0df77f5..7928632 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -453,10 +453,10 @@ class StarCluster(object):
                         nfloat[i]=True
                         npmax=int(np.maximum(npmax,1))    
 
-                if isinstance(p,float) or isinstance(p,int):
+                if np.isscalar(p):
                     nfloat[i]=True
                     npmax=int(np.maximum(npmax,1))
-                else:
+                elif not nfloat[i]:
                     npmax=int(np.maximum(npmax,len(p)))
 
         if nfloat[0]: x=np.ones(npmax)*x
@@ -475,27 +475,36 @@ class StarCluster(object):
 
         if _hasamuse:
             if isinstance(x,VectorQuantity):
-                stars=Particles(len(x))
-                stars.x,stars.y,stars.z=x,y,z
-                stars.vx,stars.vy,stars.vz=vx,vy,vz
-                stars.mass=m
-                stars.key=id
+                amuse_units=self.units
+
+                #Existing stars and new stars have to be in the same units
+                if (self.units=='amuse' and len(self.x)>0) or self.units not in [None,'amuse','pckms','kpckms','pcmyr','kpcgyr']:
+                    self.to_pckms(analyze=False)
 
                 if isinstance(self.tphys,ScalarQuantity):
                     self.tphys=self.tphys.value_in(u.Myr)
 
-                self.units='pckms'                
-                x,y,z,vx,vy,vz,m,id=_convert_amuse(stars,self)
+                if self.units not in ['pckms','kpckms','pcmyr','kpcgyr']: self.units='pckms'
+
+                stars=Particles(len(x))
+                stars.x,stars.y,stars.z=x,y,z
+                stars.vx,stars.vy,stars.vz=vx,vy,vz
+                stars.mass=np.ones(len(x)) | u.MSun if m is None else m
+
+                x,y,z,vx,vy,vz,m,key=_convert_amuse(stars,self)
                 isamuse=True
 
 
         #Check for binaries
         if nb>0:
-            if nb==1:
-                arg1,arg2=0,1
-            else:
-                arg1=np.arange(0,2*nb-1,2)
-                arg2=arg1+1
+            arg1=np.arange(0,2*nb-1,2)
+            arg2=arg1+1
+
+            x,y,z,vx,vy,vz=[np.asarray(p) for p in (x,y,z,vx,vy,vz)]
+            m,id,m0,npop=[p if p is None else np.asarray(p) for p in (m,id,m0,npop)]
+
+            #Automatic ids follow those already in use, with the secondary of a binary using the id after the primary's
+            idstart=self._next_id()
 
             if m is None:
                 xcom,ycom,zcom,vxcom,vycom,vzcom,mcom=self.add_binary_stars(x[arg1],y[arg1],z[arg1],vx[arg1],vy[arg1],vz[arg1],x[arg2],y[arg2],z[arg2],vx[arg2],vy[arg2],vz[arg2],return_com=True)
@@ -512,16 +521,11 @@ class StarCluster(object):
             self.m = np.append(mcom,self.m) 
 
             if id is None:
-                if len(self.id)!=0:
-                    idstart=np.amax(self.id)+1
-                else:
-                    idstart=0
-
                 ids=idstart+np.arange(0,2*nb-1,2)
             else:
                 ids=id[arg1]
 
-            self.id=np.append(ids,self.id)
+            self.id=np.append(np.asarray(ids).astype(int),np.asarray(self.id).astype(int))
 
             if m0 is not None:
                 self.m0=np.append(m0[arg1]+m0[arg2],self.m0)
@@ -568,20 +572,12 @@ class StarCluster(object):
 
         if id is None:
 
-            if len(self.id)!=0:
-                idstart=np.amax(self.id)+1
-                if self.nb>0:
-                    idstart+=1
-            else:
-                idstart=0
-
-            ids=idstart+np.arange(0, len(x[args:]), dtype=int)
+            ids=self._next_id()+np.arange(0, len(x[args:]), dtype=int)
         else:
             ids=id[args:]
 
-        self.id = np.append(self.id, ids)
-
-        self.id = self.id.astype(int)
+        #Combine as integers, large ids are not exact when converted to floats
+        self.id = np.append(np.asarray(self.id).astype(int), np.asarray(ids).astype(int))
 
         # Check lengths
 
@@ -671,16 +667,27 @@ class StarCluster(object):
             print(len(self.id),len(self.m),len(self.x),len(self.y),len(self.z),len(self.x),len(self.y),len(self.z),len(self.m0),len(self.npop))
 
         if self.units == "radec" and self.origin == "sky":
-            self.ra = np.append(self.ra, x)
-            self.dec = np.append(self.dec, y)
-            self.dist = np.append(self.dist, z)
-            self.pmra = np.append(self.pmra, vx)
-            self.pmdec = np.append(self.pmdec, vy)
-            self.vlos = np.append(self.vlos, vz)
-
-
-        if isamuse and (self.units_init is None or self.units_init == 'amuse'):
-            self.to_amuse()
+            if nb>0:
+                self.ra = np.append(xcom,self.ra)
+                self.dec = np.append(ycom,self.dec)
+                self.dist = np.append(zcom,self.dist)
+                self.pmra = np.append(vxcom,self.pmra)
+                self.pmdec = np.append(vycom,self.pmdec)
+                self.vlos = np.append(vzcom,self.vlos)
+
+            self.ra = np.append(self.ra, x[args:])
+            self.dec = np.append(self.dec, y[args:])
+            self.dist = np.append(self.dist, z[args:])
+            self.pmra = np.append(self.pmra, vx[args:])
+            self.pmdec = np.append(self.pmdec, vy[args:])
+            self.vlos = np.append(self.vlos, vz[args:])
+
+
+        if isamuse:
+            if amuse_units is None or amuse_units == 'amuse':
+                self.to_amuse()
+            elif amuse_units != self.units:
+                self.to_units(amuse_units)
 
         if analyze: self.analyze(sortstars=sortstars)
 
@@ -688,6 +695,21 @@ class StarCluster(object):
         self.ntot = len(self.x)
         self.ns=self.ntot-self.nb
 
+    def _next_id(self):
+        """ First id that can be given to new stars, leaving room for the secondary of a binary """
+
+        if len(self.id)==0:
+            return 0
+
+        idstart=np.amax(self.id)+1
+
+        if len(self.id2)!=0:
+            idstart=np.maximum(idstart,np.amax(self.id2)+1)
+        if self.nb>0:
+            idstart=np.maximum(idstart,np.amax(self.id)+2)
+
+        return int(idstart)
+
     def add_binary_stars(
         self, xb1, yb1, zb1, vxb1, vyb1, vzb1, xb2, yb2, zb2, vxb2, vyb2, vzb2,mb1=None,mb2=None,id1=None,id2=None,m01=None,m02=None,npop1=None,npop2=None,set_com=True,return_com=False,
     ):
@@ -728,42 +750,46 @@ class StarCluster(object):
 
         """
 
-        if isinstance(xb1,float):
-            self.nb+=1
-        else:
-            self.nb+=len(xb1)
-
-        self.xb1=np.append(self.xb1,xb1)
-        self.yb1=np.append(self.yb1,yb1)
-        self.zb1=np.append(self.zb1,zb1)
-        self.vxb1=np.append(self.vxb1,vxb1)
-        self.vyb1=np.append(self.vyb1,vyb1)
-        self.vzb1=np.append(self.vzb1,vzb1)
-
-        self.xb2=np.append(self.xb2,xb2)
-        self.yb2=np.append(self.yb2,yb2)
-        self.zb2=np.append(self.zb2,zb2)
-        self.vxb2=np.append(self.vxb2,vxb2)
-        self.vyb2=np.append(self.vyb2,vyb2)
-        self.vzb2=np.append(self.vzb2,vzb2)
-
-        if mb1 is not None:
-            self.mb1=np.append(self.mb1,mb1)
-        else:
-            self.mb1=np.append(self.mb1,np.ones(len(xb1)))
-        if mb2 is not None:
-            self.mb2=np.append(self.mb2,mb2)
-        else:
-            self.mb2=np.append(self.mb2,np.ones(len(xb2)))
+        xb1,yb1,zb1,vxb1,vyb1,vzb1=[np.atleast_1d(p) for p in (xb1,yb1,zb1,vxb1,vyb1,vzb1)]
+        xb2,yb2,zb2,vxb2,vyb2,vzb2=[np.atleast_1d(p) for p in (xb2,yb2,zb2,vxb2,vyb2,vzb2)]
+
+        nbin=len(xb1)
+
+        mb1=np.ones(nbin) if mb1 is None else np.ones(nbin)*mb1
+        mb2=np.ones(nbin) if mb2 is None else np.ones(nbin)*mb2
+
+        #Ids that are not given follow those already in use, including those of binary components
+        idstart=self._next_id()
+
+        self.nb+=nbin
+
+        #Binaries are placed before existing binaries, same as their centres of mass in the main arrays
+        self.xb1=np.append(xb1,self.xb1)
+        self.yb1=np.append(yb1,self.yb1)
+        self.zb1=np.append(zb1,self.zb1)
+        self.vxb1=np.append(vxb1,self.vxb1)
+        self.vyb1=np.append(vyb1,self.vyb1)
+        self.vzb1=np.append(vzb1,self.vzb1)
+
+        self.xb2=np.append(xb2,self.xb2)
+        self.yb2=np.append(yb2,self.yb2)
+        self.zb2=np.append(zb2,self.zb2)
+        self.vxb2=np.append(vxb2,self.vxb2)
+        self.vyb2=np.append(vyb2,self.vyb2)
+        self.vzb2=np.append(vzb2,self.vzb2)
+
+        self.mb1=np.append(mb1,self.mb1)
+        self.mb2=np.append(mb2,self.mb2)
+
+        mcom=mb1+mb2
+        xcom=(xb1*mb1+xb2*mb2)/mcom
+        ycom=(yb1*mb1+yb2*mb2)/mcom
+        zcom=(zb1*mb1+zb2*mb2)/mcom
+        vxcom=(vxb1*mb1+vxb2*mb2)/mcom
+        vycom=(vyb1*mb1+vyb2*mb2)/mcom
+        vzcom=(vzb1*mb1+vzb2*mb2)/mcom
 
         if set_com and not return_com:
-            mcom=self.mb1+self.mb2
-            xcom=(xb1*self.mb1+xb2*self.mb2)/mcom
-            ycom=(yb1*self.mb1+yb2*self.mb2)/mcom
-            zcom=(zb1*self.mb1+zb2*self.mb2)/mcom
-            vxcom=(vxb1*self.mb1+vxb2*self.mb2)/mcom
-            vycom=(vyb1*self.mb1+vyb2*self.mb2)/mcom
-            vzcom=(vzb1*self.mb1+vzb2*self.mb2)/mcom
 
             self.x = np.append(xcom,self.x)
             self.y = np.append(ycom,self.y)
@@ -774,62 +800,49 @@ class StarCluster(object):
             self.m = np.append(mcom,self.m) 
 
             if id1 is None:
-                if len(self.id)!=0:
-                    idstart=np.amax(self.id)+1
-                else:
-                    idstart=0
-
-                ids=idstart+np.linspace(0,len(xcom)-1,len(xcom))*2
+                ids=idstart+2*np.arange(nbin)
             else:
-                ids=id1
-                self.id1=np.append(self.id1,id1)
+                ids=np.atleast_1d(id1)
 
-            self.id=np.append(ids,self.id)
+            self.id=np.append(ids,self.id).astype(int)
+            self.id1=np.append(ids,self.id1)
 
             if id2 is not None:
-                self.id2=np.append(self.id2,id2)
+                self.id2=np.append(id2,self.id2)
             else:
-                self.id2=np.append(self.id2,ids+1)
+                self.id2=np.append(ids+1,self.id2)
 
             if m01 is not None and m02 is not None:
-                self.m0=np.append(m01+m02,self.m0)
+                self.m0=np.append(np.ones(nbin)*m01+np.ones(nbin)*m02,self.m0)
             else:
-                self.m0=np.append(np.zeros(len(xcom)),self.m0)
+                self.m0=np.append(np.zeros(nbin),self.m0)
 
             if m01 is not None:
-                self.m01=np.append(m01,self.m01)
+                self.m01=np.append(np.ones(nbin)*m01,self.m01)
             if m02 is not None:
-                self.m02=np.append(m02,self.m02)
+                self.m02=np.append(np.ones(nbin)*m02,self.m02)
 
-            if npop1 is not None and npop2 is not None:
-                npopb=np.maximum(npop1,npop2)
-                self.npop=np.append(npopb,self.npop).astype(int)
+            npop1=np.ones(nbin) if npop1 is None else np.ones(nbin)*npop1
+            npop2=np.ones(nbin) if npop2 is None else np.ones(nbin)*npop2
 
-            if npop1 is None:
-                self.npop1=np.append(np.ones(len(xcom)),self.npop1)
-            elif isinstance(npop1,float):
-                self.npop1=np.append(np.ones(len(xcom))*npop1,self.npop1)
-            else:
-                self.npop1=np.append(npop1,self.npop1)
+            self.npop=np.append(np.maximum(npop1,npop2),self.npop).astype(int)
+            self.npop1=np.append(npop1,self.npop1)
+            self.npop2=np.append(npop2,self.npop2)
 
-            if npop2 is None:
-                self.npop2=np.append(np.ones(len(xcom)),self.npop2)
-            elif isinstance(npop2,float):
-                self.npop2=np.append(np.ones(len(xcom))*npop2,self.npop2)
-            else:
-                self.npop2=np.append(npop2,self.npop2)
+            if self.units == "radec" and self.origin == "sky":
+                self.ra = np.append(xcom,self.ra)
+                self.dec = np.append(ycom,self.dec)
+                self.dist = np.append(zcom,self.dist)
+                self.pmra = np.append(vxcom,self.pmra)
+                self.pmdec = np.append(vycom,self.pmdec)
+                self.vlos = np.append(vzcom,self.vlos)
 
             self.ntot = len(self.x)
             self.ns=self.ntot-self.nb
 
+            if self.ntot>0: self.analyze()
+
         elif return_com:
-            mcom=self.mb1+self.mb2
-            xcom=(xb1*self.mb1+xb2*self.mb2)/mcom
-            ycom=(yb1*self.mb1+yb2*self.mb2)/mcom
-            zcom=(zb1*self.mb1+zb2*self.mb2)/mcom
-            vxcom=(vxb1*self.mb1+vxb2*self.mb2)/mcom
-            vycom=(vyb1*self.mb1+vyb2*self.mb2)/mcom
-            vzcom=(vzb1*self.mb1+vzb2*self.mb2)/mcom
 
             return xcom,ycom,zcom,vxcom,vycom,vzcom,mcom
 
@@ -1184,26 +1197,26 @@ class StarCluster(object):
             self.kw[nstart+arg.astype(int)] = np.asarray(kw)
             self.logl[nstart+arg.astype(int)] = np.asarray(logl)
             self.logr[nstart+arg.astype(int)] = np.asarray(logr)
-            self.ep[nstart+arg.astype(int)]= np.array(ep)
-            self.ospin[nstart+arg.astype(int)] = np.array(ospin)
+            if ep is not None: self.ep[nstart+arg.astype(int)]= np.array(ep)
+            if ospin is not None: self.ospin[nstart+arg.astype(int)] = np.array(ospin)
 
         else:
             self.kw = np.append(self.kw,kw)
             self.logl = np.append(self.logl,logl)
             self.logr = np.append(self.logr,logr)
 
-        self.lum = 10.0 ** self.logl
-        self.ltot = np.sum(self.lum)
+            if ep is not None: 
+                self.ep= np.append(self.ep,np.array(ep))
+            else:
+                self.ep= np.append(self.ep,np.zeros(len(kw)))
 
-        if ep is not None: 
-            self.ep= np.append(self.ep,np.array(ep))
-        else:
-            self.ep= np.append(self.ep,np.zeros(len(kw)))
+            if ospin is not None: 
+                self.ospin = np.append(self.ospin,np.array(ospin))
+            else:
+                self.ospin = np.append(self.ospin,np.zeros(len(kw)))
 
-        if ospin is not None: 
-            self.ospin = np.append(self.ospin,np.array(ospin))
-        else:
-            self.ospin = np.append(self.ospin,np.zeros(len(kw)))
+        self.lum = 10.0 ** self.logl
+        self.ltot = np.sum(self.lum)
 
     def add_bse(
         self,
-- 
2.43.0


From 3265450d6188b36ec928e28de4c99563b4f19c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 024/136] fix: subset leaves the selection it is given alone,
 sub_cluster carries energies, binaries, scale and frame

---
 clustertools/cluster/cluster.py | 51 ++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 7928632..8b6e8b0 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3996,7 +3996,8 @@ def _get_subset(
 
     try:
 
-        indx *= (
+        #A new array, so that the array given by the user does not change
+        indx = indx * (
             (r >= rmin)
             * (r <= rmax)
             * (cluster.m >= mmin)
@@ -4098,19 +4099,18 @@ def sub_cluster(
     indx=cluster.subset(rmin=rmin,rmax=rmax,vmin=vmin,vmax=vmax,mmin=mmin,mmax=mmax,emin=emin,emax=emax,kwmin=kwmin,kwmax=kwmax,npop=npop,indx=indx,projected=projected)
 
 
-    if np.sum(indx) > 0:
-
+    subcluster = StarCluster(
+        cluster.tphys,
+        units=cluster.units,
+        origin=cluster.origin,
+        ctype=cluster.ctype,
+        ro=cluster._ro,
+        vo=cluster._vo,
+        zo=cluster._zo,
+        solarmotion=cluster._solarmotion,
+    )
 
-        subcluster = StarCluster(
-            cluster.tphys,
-            units=cluster.units,
-            origin=cluster.origin,
-            ctype=cluster.ctype,
-            ro=cluster._ro,
-            vo=cluster._vo,
-            zo=cluster._zo,
-            solarmotion=cluster._solarmotion,
-        )
+    if np.sum(indx) > 0:
 
         subcluster.add_stars(
             cluster.x[indx],
@@ -4143,6 +4143,10 @@ def sub_cluster(
             cluster.zmbar,cluster.vbar,cluster.tbar,cluster.rscale,
             cluster.ns,cluster.nb,cluster.n_p)
 
+        #Position of the centre in the N-body header is in N-body units
+        subcluster.xcn,subcluster.ycn,subcluster.zcn = cluster.xcn,cluster.ycn,cluster.zcn
+        subcluster.bunits = cluster.bunits
+
         subcluster.projected = cluster.projected
         subcluster.centre_method = cluster.centre_method
 
@@ -4170,8 +4174,18 @@ def sub_cluster(
             bindx2 = np.isin(cluster.id2, cluster.id[indx])
             bindx=np.logical_or(bindx1,bindx2)
 
+            for comp in ['xb1','yb1','zb1','vxb1','vyb1','vzb1','xb2','yb2','zb2','vxb2','vyb2','vzb2','mb1','mb2','m01','m02','npop1','npop2']:
+                if len(getattr(cluster,comp)) == len(cluster.id2):
+                    setattr(subcluster,comp,getattr(cluster,comp)[bindx])
 
-            if len(cluster.ep1) !=0 and len(cluster.ospin1) != 0:
+
+            if len(cluster.kw1) != len(cluster.id1):
+
+                #Binaries without stellar evolution data
+                subcluster.id1 = cluster.id1[bindx]
+                subcluster.id2 = cluster.id2[bindx]
+
+            elif len(cluster.ep1) !=0 and len(cluster.ospin1) != 0:
 
                 subcluster.add_bse(
                     cluster.id1[bindx],
@@ -4213,7 +4227,7 @@ def sub_cluster(
 
         if len(cluster.etot) > 0 and len(cluster.etot) == cluster.ntot:
             subcluster.add_energies(
-                cluster.kin[indx], cluster.pot[indx],
+                cluster.kin[indx], cluster.pot[indx], cluster.etot[indx],
             )
 
         if cluster.give == 'mxvpqael':
@@ -4273,14 +4287,11 @@ def sub_cluster(
         if reset_nbody:
             subcluster.to_pckms()
             subcluster.analyze()
-            subcluster.reset_nbody_scale(mass=True,radius=True,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
+            subcluster.reset_nbody_scale(mass=True,radii=True,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
         elif reset_nbody_mass or reset_nbody_radii:
             subcluster.to_pckms()
             subcluster.analyze()
-            subcluster.reset_nbody_scale(mass=reset_nbody_mass,radius=reset_nbody_radii,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
-
-    else:
-        subcluster = StarCluster(cluster.tphys)
+            subcluster.reset_nbody_scale(mass=reset_nbody_mass,radii=reset_nbody_radii,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
 
     if subcluster.ntot > 0:
         if subcluster.units!=units0: subcluster.to_units(units0)
-- 
2.43.0


From 41fe1d77d5dc54a54e448e38d51f89162c01478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 025/136] fix: subset compares values of AMUSE quantities

---
 clustertools/cluster/cluster.py | 49 +++++++++++++++++----------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 8b6e8b0..540f585 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3899,6 +3899,16 @@ def _is_sorted(r,order):
     rsorted=r[order]
     return bool(np.all(rsorted[1:]>=rsorted[:-1]))
 
+def _amuse_value(q, unit):
+    """ Value of an AMUSE quantity, or array of quantities, in unit. Anything else is returned as is """
+
+    if hasattr(q, 'value_in'):
+        return q.value_in(unit)
+    elif isinstance(q, np.ndarray) and q.dtype == object:
+        return np.array([p.value_in(unit) for p in q])
+
+    return q
+
 def _get_subset(
     cluster,
     rmin=None,
@@ -3955,18 +3965,13 @@ def _get_subset(
         r = cluster.r
         v = cluster.v
 
-    if rmin == None:
-        rmin = np.amin(r)
-    if rmax == None:
-        rmax = np.amax(r)
-    if vmin == None:
-        vmin = np.amin(v)
-    if vmax == None:
-        vmax = np.amax(v)
-    if mmin == None:
-        mmin = np.amin(cluster.m)
-    if mmax == None:
-        mmax = np.amax(cluster.m)
+    m = cluster.m
+
+    if _hasamuse:
+        #Compare the values of AMUSE quantities
+        r, rmin, rmax = [_amuse_value(q, u.parsec) for q in (r, rmin, rmax)]
+        v, vmin, vmax = [_amuse_value(q, u.kms) for q in (v, vmin, vmax)]
+        m, mmin, mmax = [_amuse_value(q, u.MSun) for q in (m, mmin, mmax)]
 
     if npop == None:
         npopindx = np.ones(cluster.ntot,dtype=bool)
@@ -3997,17 +4002,15 @@ def _get_subset(
     try:
 
         #A new array, so that the array given by the user does not change
-        indx = indx * (
-            (r >= rmin)
-            * (r <= rmax)
-            * (cluster.m >= mmin)
-            * (cluster.m <= mmax)
-            * (v >= vmin)
-            * (v <= vmax)
-            * npopindx
-            * kwindx
-            * eindx
-        )
+        indx = indx * (npopindx * kwindx * eindx)
+
+        #Only apply limits that have been given
+        if rmin is not None: indx = indx * (r >= rmin)
+        if rmax is not None: indx = indx * (r <= rmax)
+        if mmin is not None: indx = indx * (m >= mmin)
+        if mmax is not None: indx = indx * (m <= mmax)
+        if vmin is not None: indx = indx * (v >= vmin)
+        if vmax is not None: indx = indx * (v <= vmax)
 
     except:
         print('SUBSET ERROR: ',rmin,rmax,mmin,mmax,vmin,vmax,np.sum(kwindx),np.sum(eindx))
-- 
2.43.0


From a0bad79652f9bd3cbc4d0a8734ae9d68868023a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 026/136] fix: reset_nbody_scale re-expresses stars and
 binaries in the new scale

---
 clustertools/cluster/cluster.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 540f585..104a01f 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1130,6 +1130,11 @@ class StarCluster(object):
         # Number of particles (from NBODY6 when tidal tail is being integrated)
         self.n_p = n_p
 
+        self._set_binary_scale()
+
+    def _set_binary_scale(self):
+        """Set scale factors of binary orbits from the mass and length scaling parameters"""
+
         au_to_cm = 1.49597870700e13
         pc_to_cm = 1296000.0/(2.0*np.pi)*au_to_cm
 
@@ -2088,7 +2093,24 @@ class StarCluster(object):
         if projected==None:
             projected=self.projected
 
-        self.zmbar,self.rbar,self.vbar,self.tbar=reset_nbody_scale(self, mass=mass, radii=radii, rvirial=rvirial,projected=projected,**kwargs)
+        zmbar,rbar,vbar,tbar=reset_nbody_scale(self, mass=mass, radii=radii, rvirial=rvirial,projected=projected,**kwargs)
+
+        #Stars and binaries in N-body units have to be expressed in the new scale
+        units0=self.units
+        if units0 == 'nbody': self.to_pckms(analyze=False)
+
+        zmbar0,rbar_au0,tbar_days0=self.zmbar,self.rbar_au,self.tbar_days
+
+        self.zmbar,self.rbar,self.vbar,self.tbar=zmbar,rbar,vbar,tbar
+        self._set_binary_scale()
+
+        if self.bunits == 'nbody' and rbar_au0 != 1. and len(self.semi)>0:
+            self.semi=self.semi*rbar_au0/self.rbar_au
+            self.pb=self.pb*tbar_days0/self.tbar_days
+            self.m1=self.m1*zmbar0/self.zmbar
+            self.m2=self.m2*zmbar0/self.zmbar
+
+        if units0 == 'nbody': self.to_nbody()
 
     def add_rotation(self, qrot):
         """Add a degree of rotation to an already generated StarCluster
-- 
2.43.0


From 1a9cfbbbdfd8cd29daa64c967a10750f61d788b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 027/136] fix: to_sudays only relabels binaries it converts

---
 clustertools/cluster/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index bf649d6..abbbbe2 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -883,7 +883,7 @@ def to_sudays(cluster):
             cluster.pb*=cluster.tbar_days
             cluster.m1*=cluster.zmbar
             cluster.m2*=cluster.zmbar
-        cluster.bunits='sudays'
+            cluster.bunits='sudays'
     else:
         print("NO UNITS SPECIFIED")
 
-- 
2.43.0


From 7e0a40053aa8d55019ef3d8688faada5da21e1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 028/136] fix: critical-density virial radius interpolates
 across the crossing

---
 clustertools/analysis/functions.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 7b47e80..e92cb60 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1288,23 +1288,17 @@ def virial_radius_critical_density(
 
     rho_local = rhocrit * overdens
 
-    rindx=np.argmin(np.fabs(pprof-rho_local))
+    #Outermost pair of stars between which the mean density falls to rho_local
+    cross=np.where((pprof[:-1] >= rho_local) & (pprof[1:] < rho_local))[0]
 
-    if rindx==len(pprof)-1 or rindx==0:
-        r_v=rprof[rindx]
-    elif pprof[rindx]==rho_local:
-        r_v=rprof[rindx]
+    if len(cross)==0:
+        r_v=rprof[np.argmin(np.fabs(pprof-rho_local))]
     else:
-        if pprof[rindx] < rho_local:
-            r1=rprof[rindx-1]
-            r2=rprof[rindx]
-            p1=pprof[rindx-1]
-            p2=pprof[rindx]
-        elif pprof[rindx] > rho_local:
-            r1=rprof[rindx]
-            r2=rprof[rindx+1]
-            p1=pprof[rindx]
-            p2=pprof[rindx+1]
+        rindx=cross[-1]
+        r1=rprof[rindx]
+        r2=rprof[rindx+1]
+        p1=pprof[rindx]
+        p2=pprof[rindx+1]
 
         m=(p2-p1)/(r2-r1)
         b=p2-m*r2
-- 
2.43.0


From 5b1bd104b4379cc80a41118f7dfc6821aaf8cd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 029/136] fix: relaxation_time accepts a radius in the
 cluster's units

---
 clustertools/analysis/functions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index e92cb60..15b6746 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -494,12 +494,17 @@ def relaxation_time(cluster, rad=None, coulomb=0.4, projected=False,method='spit
     grav=_get_grav(cluster)
 
 
+    if projected:
+        vel=cluster.vpro
+    else:
+        vel=cluster.v
+
     if rad is None and projected:
         rad=cluster.rmpro
-        vel=cluster.vpro
     elif rad is None:
         rad=cluster.rm
-        vel=cluster.v
+    else:
+        rad=_convert_length(rad,units0,cluster)
 
     if projected:
         rindx=cluster.rpro <= rad
-- 
2.43.0


From 76f6fa17e93dfb72d0c603887082cf756591ac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 030/136] fix: rcore leaves the cluster's centre and orbital
 position as it found them

---
 clustertools/analysis/functions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 15b6746..31da36e 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2119,6 +2119,9 @@ def rcore(
     cluster.save_cluster()
     units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
+    centre0=(cluster.xc,cluster.yc,cluster.zc,cluster.vxc,cluster.vyc,cluster.vzc)
+    orbit0=(cluster.xgc,cluster.ygc,cluster.zgc,cluster.vxgc,cluster.vygc,cluster.vzgc)
+
     if cluster.units=='amuse':
         cluster.to_pckms()
 
@@ -2163,6 +2166,8 @@ def rcore(
             rho_c=mc/volc
 
         cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
+        cluster.xc,cluster.yc,cluster.zc,cluster.vxc,cluster.vyc,cluster.vzc=centre0
+        cluster.xgc,cluster.ygc,cluster.zgc,cluster.vxgc,cluster.vygc,cluster.vzgc=orbit0
         if cluster.units=='amuse': rc=_convert_length(rc,'pckms',cluster)
 
     else:
@@ -2211,6 +2216,8 @@ def rcore(
 
 
         cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
+        cluster.xc,cluster.yc,cluster.zc,cluster.vxc,cluster.vyc,cluster.vzc=centre0
+        cluster.xgc,cluster.ygc,cluster.zgc,cluster.vxgc,cluster.vygc,cluster.vzgc=orbit0
 
         rc=_convert_length(rc,'pckms',cluster)
 
-- 
2.43.0


From 73a7ffccca3f3b1f7c6130ef52888f05ef1f30bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 031/136] fix: core_relaxation_time uses the 3D core radius
 when projected is False

---
 clustertools/analysis/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 31da36e..2ff099e 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -642,7 +642,7 @@ def core_relaxation_time(cluster, coulomb=0.4, projected=False):
         rc=cluster.rcore(projected=True)
         rh=cluster.rmpro
     else:
-        rc=cluster.rcore()
+        rc=cluster.rcore(projected=False)
         rh=cluster.rm
 
     trc=(0.39/lnlambda)*np.sqrt(rc**3./(grav*mtot))*(mtot/mbar)*np.sqrt(rc*rh)/(rc+rh)
-- 
2.43.0


From eb9b48e430c5e58c78e0f7ce0ea72f89926e9c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 032/136] fix: isothermal core radius interpolates between
 neighbouring bins

---
 clustertools/analysis/functions.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 2ff099e..0b6a80c 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2201,13 +2201,14 @@ def rcore(
         else:
             rho_c=pprof[0]/3.
 
-        rindx=pprof < rho_c
+        #Neighbouring bins between which density first falls below rho_c
+        rindx=np.where(pprof < rho_c)[0][0]
 
-        r1=rprof[np.invert(rindx)][-1]
-        r2=rprof[rindx][0]
+        r1=rprof[rindx-1]
+        r2=rprof[rindx]
 
-        p1=pprof[np.invert(rindx)][-1]
-        p2=pprof[rindx][0]
+        p1=pprof[rindx-1]
+        p2=pprof[rindx]
        
         m=(p2-p1)/(r2-r1)
         b=p2-m*r2
-- 
2.43.0


From 0685c106da1330674815c753e3af92a0a36963c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 033/136] fix: find_centre_of_density method passes on method
 and nneighbour

---
 clustertools/cluster/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 104a01f..57636ee 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2322,7 +2322,7 @@ class StarCluster(object):
 
         xc,yc,zc,vxc,vyc,vzc=find_centre_of_density(self,xstart=xstart,
             ystart=ystart,zstart=zstart,vxstart=vxstart,vystart=vystart,vzstart=vzstart,indx=indx,
-            nsphere=nsphere,rmin=rmin,rmax=rmax,nmax=nmax)
+            nsphere=nsphere,rmin=rmin,rmax=rmax,nmax=nmax,method=method,nneighbour=nneighbour)
 
         self._set_centre(xc,yc,zc,vxc,vyc,vzc,reset_centre=reset_centre)
 
-- 
2.43.0


From e2abd25754d429b9a9c9c8a82c7d97267e3972c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 034/136] fix: a centre found at the orbital position replaces
 the previous centre

---
 clustertools/cluster/cluster.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 57636ee..7ad2f91 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2397,8 +2397,6 @@ class StarCluster(object):
                     self.vxgc, self.vygc, self.vzgc = vxc, vyc, vzc
                     self.xc, self.yc, self.zc = 0.0, 0.0, 0.0
                     self.vxc, self.vyc, self.vzc = 0.0, 0.0, 0.0
-                elif (self.xgc, self.ygc, self.zgc,self.vxgc, self.vygc, self.vzgc)==(xc,yc,zc,vxc,vyc,vzc):
-                    pass
                 else:
                     self.xc,self.yc,self.zc=xc-self.xgc,yc-self.ygc,zc-self.zgc
                     self.vxc,self.vyc,self.vzc=vxc-self.vxgc,vyc-self.vygc,vzc-self.vzgc
@@ -2410,8 +2408,6 @@ class StarCluster(object):
                     self.xc, self.yc, self.zc = 0.0 | u.pc, 0.0 | u.pc, 0.0 | u.pc
                     self.vxc, self.vyc, self.vzc = 0.0 | u.kms, 0.0 | u.kms , 0.0 | u.kms
 
-                elif (self.xgc, self.ygc, self.zgc,self.vxgc, self.vygc, self.vzgc)==(xc,yc,zc,vxc,vyc,vzc):
-                    pass
                 else:
                     self.xc,self.yc,self.zc=xc-self.xgc,yc-self.ygc,zc-self.zgc
                     self.vxc,self.vyc,self.vzc=vxc-self.vxgc,vyc-self.vygc,vzc-self.vzgc
-- 
2.43.0


From 65481a1528412627280e91b25932e29475f44465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 035/136] fix: find_centre with an empty selection leaves the
 units alone

---
 clustertools/analysis/functions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 0b6a80c..fdd952f 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -115,18 +115,18 @@ def find_centre(
     2019 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
-
-    if cluster.units=='amuse':
-        cluster.to_pckms()
-
     if indx is None:
         indx = np.ones(cluster.ntot, bool)
     elif np.sum(indx) == 0.0:
         print("NO SUBSET OF STARS GIVEN")
         return 0.0, 0.0, 0.0, 0.0, 0.0, 0.0
 
+    cluster.save_cluster()
+    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+
+    if cluster.units=='amuse':
+        cluster.to_pckms()
+
     rhos=np.zeros(cluster.ntot)
 
     if density:
-- 
2.43.0


From db136590cc4b5d66eb0498f87c17075009ba37a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 036/136] fix: rlagrange mfrac accepts the whole mass and is
 available as a method option

---
 clustertools/analysis/functions.py | 2 +-
 clustertools/cluster/cluster.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index fdd952f..84f2819 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1050,7 +1050,7 @@ def rlagrange(cluster, nlagrange=10, mfrac=None, projected=False):
             rn.append(np.max(r))
 
     else:
-        indx=(msum/cluster.mtot)>=mfrac
+        indx=(msum/msum[-1])>=mfrac
         rn=r[rorder][indx][0]
 
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 7ad2f91..252db8f 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2667,7 +2667,7 @@ class StarCluster(object):
             self.dclosest=closest_star(self, projected=projected)
             return self.dclosest
 
-    def rlagrange(self, nlagrange=10, projected=None):
+    def rlagrange(self, nlagrange=10, mfrac=None, projected=None):
         """Calculate lagrange radii of the cluster by mass
 
         Parameters
@@ -2692,7 +2692,7 @@ class StarCluster(object):
         """
         if projected==None:
             projected=self.projected
-        self.rn = rlagrange(self, nlagrange=nlagrange, projected=projected)
+        self.rn = rlagrange(self, nlagrange=nlagrange, mfrac=mfrac, projected=projected)
 
         return self.rn
 
-- 
2.43.0


From b0b287c7cebfb722a18c0c754b6aa091ce8054df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 037/136] fix: closest_star in AMUSE units

---
 clustertools/analysis/functions.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 84f2819..f694b1a 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -979,18 +979,27 @@ def closest_star(cluster, projected=False, argument=False):
 
     else:
 
+        units0=cluster.units
+        if units0=='amuse':
+            xyz=[cluster.x.value_in(u.pc),cluster.y.value_in(u.pc),cluster.z.value_in(u.pc)]
+        else:
+            xyz=[cluster.x,cluster.y,cluster.z]
+
         if projected:
-            x=np.column_stack([cluster.x,cluster.y])
+            x=np.column_stack(xyz[:2])
         else:
-            x=np.column_stack([cluster.x,cluster.y,cluster.z])
+            x=np.column_stack(xyz)
 
         tree=cKDTree(x)
         dist, arg = tree.query(x, k=2)
 
+        dmin=dist[:,1]
+        if units0=='amuse': dmin=dmin | u.pc
+
         if argument:
-            return dist[:,1],arg[:,1]
+            return dmin,arg[:,1]
         else:
-            return dist[:,1]
+            return dmin
 
 def rlagrange(cluster, nlagrange=10, mfrac=None, projected=False):
     """Calculate lagrange radii of the cluster by mass
-- 
2.43.0


From 00d12f7257bd321945114343d7022d66d4fb87a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 038/136] fix: find_centre stops when sigma clipping removes no
 more stars

---
 clustertools/analysis/functions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index f694b1a..8e4de6e 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -154,11 +154,18 @@ def find_centre(
         r = np.sqrt(x ** 2.0 + y ** 2.0 + z ** 2.0)
         i_d = cluster.id[indx]
 
+        recentred = False
+
         while len(r) > nsphere:
             sigma = nsigma * np.std(r)
             indx = r < sigma
 
+            if recentred and np.all(indx):
+                #No more stars to remove
+                break
+
             if len(r[indx]) > nsphere:
+                recentred = True
                 i_d = i_d[indx]
                 x = x[indx] - np.mean(x[indx])
                 y = y[indx] - np.mean(y[indx])
-- 
2.43.0


From 0307d4776f52ae4435087e1c25e1eaf79464abf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 039/136] fix: finding the centre of a centred cluster in AMUSE
 units

---
 clustertools/cluster/cluster.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 252db8f..03d978a 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2375,9 +2375,14 @@ class StarCluster(object):
         if self.origin=='centre':
 
             warning=False
-            if xc!=0.0 or yc!=0.0 or zc!=0.0:
+            if self.units=='amuse':
+                zero=(0.0 | u.pc, 0.0 | u.kms)
+            else:
+                zero=(0.0,0.0)
+
+            if xc!=zero[0] or yc!=zero[0] or zc!=zero[0]:
                 warning=True
-            if vxc!=0.0 or vyc!=0.0 or vzc!=0.0:
+            if vxc!=zero[1] or vyc!=zero[1] or vzc!=zero[1]:
                 warning=True
 
             if warning:
-- 
2.43.0


From cce2f5af940874496a339fe3342de39b5b1d3df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 040/136] fix: density and mass profiles normalise by the
 (projected) half-mass radius once, in the profile's frame

---
 clustertools/analysis/profiles.py | 34 ++++++++++++++++---------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 8dc491c..1edc112 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -133,7 +133,14 @@ def rho_prof(
 
     bin_idx = bin_index(r,r_lower,r_upper)
 
-    rprof = r_mean
+    if normalize:
+        if projected:
+            rprof=r_mean / cluster.rmpro
+        else:
+            rprof=r_mean / cluster.rm
+    else:
+        rprof=r_mean
+
     pprof = np.zeros(len(r_mean))
     nprof = np.zeros(len(r_mean))
 
@@ -185,9 +192,6 @@ def rho_prof(
 
         x, y, n = rprof, pprof, nprof
 
-        if normalize:
-            x/=cluster.rm
-
         _lplot(
             x,
             y,
@@ -207,12 +211,9 @@ def rho_prof(
     units=cluster.units
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
-    rprof=_convert_length(rprof,units,cluster)
+    if not normalize: rprof=_convert_length(rprof,units,cluster)
     pprof=_convert_density(pprof,units,cluster,projected=projected)
 
-    if normalize:
-        rprof/=cluster.rm
-
     return rprof, pprof, nprof
 
 
@@ -323,7 +324,14 @@ def m_prof(
 
     bin_idx = bin_index(r,r_lower,r_upper)
 
-    rprof = r_mean
+    if normalize:
+        if projected:
+            rprof=r_mean / cluster.rmpro
+        else:
+            rprof=r_mean / cluster.rm
+    else:
+        rprof=r_mean
+
     mprof = np.zeros(len(r_mean))
     nprof = np.zeros(len(r_mean))
 
@@ -358,9 +366,6 @@ def m_prof(
 
         x, y, n = rprof, mprof, nprof
 
-        if normalize:
-            x/=cluster.rm
-
         _lplot(
             x,
             y,
@@ -379,12 +384,9 @@ def m_prof(
     units=cluster.units
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
-    rprof=_convert_length(rprof,units,cluster)
+    if not normalize: rprof=_convert_length(rprof,units,cluster)
     mprof=_convert_mass(mprof,units,cluster)
 
-    if normalize:
-        rprof/=cluster.rm
-
     return rprof, mprof, nprof
 
 def alpha_prof(
-- 
2.43.0


From c33387499293ddef46f44cd78df538a9b913b956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 041/136] fix: normalised alpha and dispersion profiles are not
 converted as lengths

---
 clustertools/analysis/profiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 1edc112..dabd099 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -613,7 +613,7 @@ def alpha_prof(
 
     units=cluster.units
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
-    rprofn=_convert_length(rprofn,units,cluster)
+    if not normalize: rprofn=_convert_length(rprofn,units,cluster)
 
 
     if aerror:
@@ -846,7 +846,7 @@ def sigv_prof(
         if filename != None:
             plt.savefig(filename)
 
-    rprofn=_convert_length(rprofn,units,cluster)
+    if not normalize: rprofn=_convert_length(rprofn,units,cluster)
     sigvprof=_convert_velocity(sigvprof,units,cluster)
 
     return rprofn, sigvprof
-- 
2.43.0


From 8245831d1ed34be9f864585e9b6fbfceb3973c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 042/136] fix: cumulative mass profile does not count stars
 beyond the bin

---
 clustertools/analysis/profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index dabd099..c23c3ed 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -337,7 +337,7 @@ def m_prof(
 
     for i in range(0, len(r_mean)):
         if cumulative:
-            rindx = indx * (bin_idx<=i)
+            rindx = indx * (bin_idx<=i) * (r<=r_upper[i])
         else:
             rindx = indx * (bin_idx==i)
 
-- 
2.43.0


From 1094e10e64dd4a0b7d7945f54e085b1dbad70ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 043/136] fix: velocity profiles accept the velocity components
 they document

---
 clustertools/analysis/profiles.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index c23c3ed..50a47c7 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -1189,14 +1189,15 @@ def v_prof(
             )
         else:
             r, phi, theta, vr, vp, vt = sphere_coords(cluster)
+            vz=cluster.vz
 
-        if coord =='r':
+        if coord =='r' or coord=='vr':
             v=vr
             ylabel=r"$<v_r>$"
-        elif coord=='phi':
+        elif coord=='phi' or coord=='vp' or coord=='vphi':
             v=vp
             ylabel=r"$<v_p>$"
-        elif coord=='theta':
+        elif coord=='theta' or coord=='vt' or coord=='vtheta':
             v=vt
             ylabel=r"$<v_t>$"
         elif coord=='x' or coord=='vx':
@@ -1417,17 +1418,24 @@ def v2_prof(
             )
         else:
             r, phi, theta, vr, vp, vt = sphere_coords(cluster)
+            vz=cluster.vz
 
-        if coord =='r':
+        if coord =='r' or coord=='vr':
             v=vr
             ylabel=r"$<v_r^2>$"
-        elif coord=='phi':
+        elif coord=='phi' or coord=='vp' or coord=='vphi':
             v=vp
             ylabel=r"$<v_p^2>$"
-        elif coord=='theta':
+        elif coord=='theta' or coord=='vt' or coord=='vtheta':
             v=vt
             ylabel=r"$<v_t^2>$"
-        elif coord=='z':
+        elif coord=='x' or coord=='vx':
+            v=cluster.vx
+            ylabel=r"$<v_x^2>$"
+        elif coord=='y' or coord=='vy':
+            v=cluster.vy
+            ylabel=r"$<v_y^2>$"
+        elif coord=='z' or coord=='vz':
             v=vz
             ylabel=r"$<v_z^2>$"
     else:
-- 
2.43.0


From f19e07289c9c3614990ec685103be0b4a9176bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 044/136] fix: alpha and eta profile slopes use the half-mass
 radius of the current frame

---
 clustertools/analysis/profiles.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 50a47c7..59e56c5 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -493,8 +493,8 @@ def alpha_prof(
         cluster.to_pckms()
 
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
-        cluster.to_centre(sortstars=normalize)
-    elif normalize:
+        cluster.to_centre(sortstars=True)
+    else:
         cluster.sortstars()
 
 
@@ -1589,8 +1589,8 @@ def eta_prof(
         cluster.to_pckms()
 
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
-        cluster.to_centre(sortstars=normalize)
-    elif normalize:
+        cluster.to_centre(sortstars=True)
+    else:
         cluster.sortstars()
 
     if projected:
-- 
2.43.0


From ce4721099340419bf8165e0a2d5935662341c12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 045/136] fix: eta profile bins the selected (projected) stars
 once each

---
 clustertools/analysis/profiles.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 59e56c5..474ded8 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -1642,9 +1642,11 @@ def eta_prof(
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         r_hist=np.zeros(len(r_mean))
     elif kwargs.pop('bintype','num')=='fix':
-        r_lower, r_mean, r_upper, r_hist = binmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
     else:
-        r_lower, r_mean, r_upper, r_hist = nbinmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = nbinmaker(r[indx], nrad)
+
+    bin_idx = bin_index(r,r_lower,r_upper)
 
     if normalize:
         if projected:
@@ -1660,15 +1662,8 @@ def eta_prof(
 
         m_mean, sigvm, eta, eeta, yeta, eyeta = eta_function(
             cluster,
-            mmin=mmin,
-            mmax=mmax,
             nmass=nmass,
-            rmin=r_lower[i],
-            rmax=r_upper[i],
-            vmin=vmin,
-            vmax=vmax,
-            kwmin=kwmin,
-            kwmax=kwmax,
+            indx=indx * (bin_idx==i),
             projected=projected,
             meq=meq,
             **kwargs,
-- 
2.43.0


From 90314088e94b6f433efcc5a196dec049f4ab90d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 046/136] fix: circular velocity profile selects and bins the
 stars it sorts

---
 clustertools/analysis/profiles.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 474ded8..548daf5 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -1927,12 +1927,17 @@ def vcirc_prof(
         cluster.to_pckms()
 
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
-        cluster.to_centre(sortstars=normalize)
+        cluster.to_centre(sortstars=True)
     else:
         cluster.sortstars()
 
     grav=_get_grav(cluster)
 
+    if projected:
+        order = cluster.rproorder
+    else:
+        order = cluster.rorder
+
     if projected:
         r = cluster.rpro[cluster.rproorder]
         v = cluster.vpro[cluster.rproorder]
@@ -1981,6 +1986,9 @@ def vcirc_prof(
 
     indx=cluster.subset(rmin=rmin,rmax=rmax,vmin=vmin,vmax=vmax,mmin=mmin,mmax=mmax,emin=emin,emax=emax,kwmin=kwmin,kwmax=kwmax,npop=npop,indx=indx,projected=projected)
 
+    #Selection follows the order of the stars, r, v, and m are sorted by radius
+    indx = indx[order]
+
     r = r[indx]
     v = v[indx]
     m = m[indx]
@@ -1996,12 +2004,12 @@ def vcirc_prof(
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
     elif kwargs.get('bintype','num')=='fix' and nrad is not None:
-        r_lower, r_mean, r_upper, r_hist = binmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = binmaker(r, nrad)
         args=np.zeros(len(r_mean))
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
     elif kwargs.get('bintype','num')=='num' and nrad is not None:
-        r_lower, r_mean, r_upper, r_hist = nbinmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = nbinmaker(r, nrad)
         args=np.zeros(len(r_mean))
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
-- 
2.43.0


From f2b2632da1f7ba97860fb6129a085f5ae9e16b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 047/136] fix: mass_function method accepts a completeness
 correction

---
 clustertools/cluster/cluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 03d978a..0542f1b 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2819,7 +2819,7 @@ class StarCluster(object):
         if projected==None:
             projected=self.projected
 
-        m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha = mass_function(
+        mf = mass_function(
             self,
             mmin=mmin,
             mmax=mmax,
@@ -2839,7 +2839,7 @@ class StarCluster(object):
             title="GLOBAL",
             **kwargs
         )
-        self.alpha = alpha
+        self.alpha = mf[3]
 
         return self.alpha
 
-- 
2.43.0


From a8f9ccdeb02ed9090cc03612fb808edc3a5b5e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 048/136] fix: tapered_mass_function method runs and too few
 stars return every value

---
 clustertools/analysis/functions.py | 4 ++++
 clustertools/cluster/cluster.py    | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 8e4de6e..419f923 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1693,6 +1693,10 @@ def tapered_mass_function(
             -1000.0,
             -1000.0,
             -1000.0,
+            -1000.0,
+            -1000.0,
+            -1000.0,
+            -1000.0,
         )
 
 
diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 0542f1b..93fd701 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2844,7 +2844,7 @@ class StarCluster(object):
         return self.alpha
 
     def tapered_mass_function(
-        cluster,
+        self,
         mmin=None,
         mmax=None,
         nmass=10,
@@ -2917,7 +2917,7 @@ class StarCluster(object):
             projected=self.projected
 
         m_mean, m_hist, dm, A, eA, alpha, ealpha, mc, emc, beta, ebeta= tapered_mass_function(
-            cluster,
+            self,
             mmin=mmin,
             mmax=mmax,
             nmass=nmass,
-- 
2.43.0


From 189b1de0ccd1f6f95f93de7229f26467fc3df974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 049/136] fix: eta_function uses the mass bins that exist

---
 clustertools/analysis/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 419f923..bcf493e 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1804,7 +1804,7 @@ def eta_function(
 
         sigvm = []
         lsigvm = []
-        for i in range(0, nmass):
+        for i in range(0, len(m_hist)):
 
             mindx = indx * (bin_idx==i)
             sigvm.append(np.std(v[mindx]))
-- 
2.43.0


From 88584fb3a488b67a092f9711b6cc86029f690120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 050/136] fix: meq_function uses every population unless one is
 requested

---
 clustertools/analysis/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index bcf493e..653aaef 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1881,7 +1881,7 @@ def meq_function(
     emax=None,
     kwmin=0,
     kwmax=1,
-    npop=1,
+    npop=None,
     indx=None,
     projected=False,
     plot=False,
-- 
2.43.0


From c786cf18450bc54b0055fd953300bf7ac66a17fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 051/136] fix: mass and velocity slopes of a galactocentric
 cluster are measured about its centre

---
 clustertools/analysis/functions.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 653aaef..12a9bfa 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1446,6 +1446,9 @@ def mass_function(
     if cluster.units=='amuse':
         cluster.to_pckms()
 
+    if origin0 != 'cluster' and origin0 != 'centre':
+        cluster.to_centre(sortstars=False)
+
     if projected:
         r = cluster.rpro
         v = cluster.vpro
@@ -1622,6 +1625,9 @@ def tapered_mass_function(
     if cluster.units=='amuse':
         cluster.to_pckms()
 
+    if origin0 != 'cluster' and origin0 != 'centre':
+        cluster.to_centre(sortstars=False)
+
     if projected:
         r = cluster.rpro
         v = cluster.vpro
@@ -1787,6 +1793,9 @@ def eta_function(
     if cluster.units=='amuse':
         cluster.to_pckms()
 
+    if origin0 != 'cluster' and origin0 != 'centre':
+        cluster.to_centre(sortstars=False)
+
     if projected:
         r = cluster.rpro
         v = cluster.vpro
@@ -2041,6 +2050,9 @@ def ckin(
     if cluster.units=='amuse':
         cluster.to_pckms()
 
+    if origin0 != 'cluster' and origin0 != 'centre':
+        cluster.to_centre(sortstars=False)
+
     rn=rlagrange(cluster, nlagrange=10, projected=projected)
 
     m_mean50, sigvm50, meq50, emq50, sigma050, esigma050 = eta_function(cluster,
-- 
2.43.0


From c10713bba8566881573b76120dc9d6d26cacb44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 052/136] fix: mass function fits skip fixed bins without stars

---
 clustertools/analysis/functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 12a9bfa..eb45db4 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1485,9 +1485,11 @@ def mass_function(
 
         lm_mean = np.log10(m_mean)
         dm = m_corr_hist / (m_upper - m_lower)
-        ldm = np.log10(dm)
+        #Bins without stars do not have a logarithmic dN/dM
+        fit = m_corr_hist > 0
+        ldm = np.log10(dm[fit])
 
-        (alpha, yalpha), V = np.polyfit(lm_mean, ldm, 1, cov=True)
+        (alpha, yalpha), V = np.polyfit(lm_mean[fit], ldm, 1, cov=True)
         ealpha = np.sqrt(V[0][0])
         eyalpha = np.sqrt(V[1][1])
 
-- 
2.43.0


From a511ac6ec0a2697399219c3122c48b4dd9b7c8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 053/136] fix: alpha and eta profiles use the stellar types
 that are requested

---
 clustertools/analysis/profiles.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 548daf5..8a9e210 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -550,10 +550,10 @@ def alpha_prof(
         rindx = indx * (bin_idx==i)
 
         if return_error:
-            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha, mbinerror = mass_function(cluster,nmass=nmass,indx=rindx,projected=projected,mcorr=mcorr,plot=False,**kwargs)
+            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha, mbinerror = mass_function(cluster,nmass=nmass,indx=rindx,kwmin=kwmin,kwmax=kwmax,projected=projected,mcorr=mcorr,plot=False,**kwargs)
             rbinerror[i]=np.amin(mbinerror)
         else:
-            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha = mass_function(cluster,nmass=nmass,indx=rindx,projected=projected,mcorr=None,plot=False,**kwargs)
+            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha = mass_function(cluster,nmass=nmass,indx=rindx,kwmin=kwmin,kwmax=kwmax,projected=projected,mcorr=None,plot=False,**kwargs)
             rbinerror[i]=1.
 
         if alpha > -100:
@@ -1664,6 +1664,8 @@ def eta_prof(
             cluster,
             nmass=nmass,
             indx=indx * (bin_idx==i),
+            kwmin=kwmin,
+            kwmax=kwmax,
             projected=projected,
             meq=meq,
             **kwargs,
-- 
2.43.0


From 3edb5bf8f2904123a9aa74dd772125c1d3645785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:07 +0000
Subject: [PATCH 054/136] fix: rtidal does not change the selection it is given

---
 clustertools/analysis/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index eb45db4..b181c52 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2453,7 +2453,7 @@ def rtidal(
     for i in range(0, rtiterate):
         msum = 0.0
 
-        indx *= cluster.r < rt
+        indx = indx * (cluster.r < rt)
         msum = np.sum(cluster.m[indx])
 
         rtnew = rtide(pot, R, z, M=msum,use_physical=False)
-- 
2.43.0


From eb80c189777a7ffd5a425c7820d063ae9c41eb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:07 +0000
Subject: [PATCH 055/136] fix: rtidal and rlimiting with only rgc given do not
 add the cluster's height to it

---
 clustertools/analysis/functions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index b181c52..024cbe9 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2438,6 +2438,9 @@ def rtidal(
 
     if zgc !=None:
         z = zgc/ ro
+    elif rgc != None:
+        #rgc is the galactocentric distance itself
+        z = 0.
     else:
         if from_centre:
             z = cluster.zgc+cluster.zc
@@ -2615,6 +2618,9 @@ def rlimiting(
 
     if zgc !=None:
         z = zgc/ ro
+    elif rgc != None:
+        #rgc is the galactocentric distance itself
+        z = 0.
     else:
         if from_centre:
             z = cluster.zgc+cluster.zc
-- 
2.43.0


From 4cce4c844855bac815af075ce48ddc5a45bdccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 056/136] fix: interpolating orbits by no time returns the
 current positions instead of never finishing

---
 clustertools/analysis/orbits.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index b7bbecc..6564c48 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -249,7 +249,9 @@ def _integrate_orbit(
         tfinal*=((cluster.tbar/1000.)/conversion.time_in_Gyr(ro=ro, vo=vo))
 
     ts = np.linspace(0, tfinal, nt)
-    o.integrate(ts, pot)
+    #An orbit that is not moved in time does not need to be integrated
+    if tfinal!=0:
+        o.integrate(ts, pot)
 
     if plot:
         o.plot()
@@ -315,7 +317,8 @@ def _integrate_orbits(
     ts = np.linspace(0, tfinal, nt)
 
     #integrate orbits of stars in combined potential of GC and galaxy
-    os.integrate(ts, pot)
+    if tfinal!=0:
+        os.integrate(ts, pot)
 
     if plot:
         os.plot()
-- 
2.43.0


From 3effe9321bf049e2430db3a4ada79c54549dc3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 057/136] fix: orbits of AMUSE clusters can be interpolated for
 the default time

---
 clustertools/analysis/orbits.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 6564c48..a901981 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -385,7 +385,8 @@ def interpolate_orbit(
 
     if cluster.units=='amuse':
         cluster.to_pckms()
-        tfinal=tfinal.value_in(u.Myr)
+        if tfinal is not None:
+            tfinal=tfinal.value_in(u.Myr)
 
     ts,o=_integrate_orbit(cluster, pot=pot, tfinal=tfinal, nt=nt, from_centre=from_centre, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion, plot=False)
 
@@ -467,7 +468,8 @@ def interpolate_orbits(
 
     if cluster.units=='amuse':
         cluster.to_pckms()
-        tfinal=tfinal.value_in(u.Myr)
+        if tfinal is not None:
+            tfinal=tfinal.value_in(u.Myr)
 
     if cluster.origin=='centre':
         ts,o=_integrate_orbits(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo, zo=zo,solarmotion=[0,0,0], plot=False)
-- 
2.43.0


From acae4110a50b7dadbdcfaf43c5aacc08758e7ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 058/136] fix: orbit_interpolate and orbits_interpolate call
 the functions they are aliases of

---
 clustertools/analysis/orbits.py | 4 ++--
 clustertools/cluster/cluster.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index a901981..6232cd4 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -551,7 +551,7 @@ def orbit_interpolate(
     -------
     2021 - Written - Webb (UofT)
     """
-    return interpolate_orbit(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion,plot=False)
+    return interpolate_orbit(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion)
 
 def orbits_interpolate(
     cluster,
@@ -599,7 +599,7 @@ def orbits_interpolate(
     -------
     2021 - Written - Webb (UofT)
     """
-    return interpolate_orbits(cluster, cluster_pot=cluster_pot, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion,plot=False)
+    return interpolate_orbits(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion)
 
 
 def orbital_path(
diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 93fd701..faa9aeb 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3529,7 +3529,7 @@ class StarCluster(object):
         -------
         2021 - Written - Webb (UofT)
         """
-        self.interpolate_orbit(self,pot=pot,tfinal=tfinal,nt=nt,from_centre=from_centre,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+        return self.interpolate_orbit(pot=pot,tfinal=tfinal,nt=nt,from_centre=from_centre,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
 
     def interpolate_orbits(self,pot=None,tfinal=None,nt=1000,ro=None,vo=None,zo=None,solarmotion=None):
@@ -3638,7 +3638,7 @@ class StarCluster(object):
         -------
         2021 - Written - Webb (UofT)
         """
-        self.interpolate_orbits(self,pot=pot,tfinal=tfinal,nt=nt,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+        return self.interpolate_orbits(pot=pot,tfinal=tfinal,nt=nt,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
     def orbital_path(self,tfinal=0.1,nt=1000,pot=None,from_centre=False,
         skypath=False,initialize=False,ro=None,vo=None,zo=None,solarmotion=None, plot=False,**kwargs):
-- 
2.43.0


From c14ea51e7f8d066a3d8701ba4c7cf16653a6bd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:50 +0000
Subject: [PATCH 059/136] fix: interpolating the orbits of stars updates the
 quantities derived from their positions

---
 clustertools/cluster/cluster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index faa9aeb..742de32 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3584,6 +3584,7 @@ class StarCluster(object):
             self.x,self.y,self.z=x,y,z
             self.vx,self.vy,self.vz=vx,vy,vz
 
+        self.analyze()
 
         if self.origin!='centre' and self.origin!='cluster' :
 
-- 
2.43.0


From d3fd15865ecb40d57a79444b6e6c58cbabca7f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 060/136] fix: orbital and tail paths cover 0.1 Gyr by default
 and the requested tfinal otherwise

---
 clustertools/analysis/orbits.py |  4 ++--
 clustertools/cluster/cluster.py | 20 ++++++++++----------
 clustertools/tidaltail/tails.py |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 6232cd4..8d4ed6c 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -604,7 +604,7 @@ def orbits_interpolate(
 
 def orbital_path(
     cluster,
-    tfinal=0.1,
+    tfinal=None,
     nt=1000,
     pot=None,
     from_centre=False,
@@ -773,7 +773,7 @@ def orbital_path(
 
 def orbital_path_match(
     cluster,
-    tfinal=0.1,
+    tfinal=None,
     nt=1000,
     pot=None,
     path=None,
diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 742de32..a2ee06e 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3641,7 +3641,7 @@ class StarCluster(object):
         """
         return self.interpolate_orbits(pot=pot,tfinal=tfinal,nt=nt,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
-    def orbital_path(self,tfinal=0.1,nt=1000,pot=None,from_centre=False,
+    def orbital_path(self,tfinal=None,nt=1000,pot=None,from_centre=False,
         skypath=False,initialize=False,ro=None,vo=None,zo=None,solarmotion=None, plot=False,**kwargs):
         """Calculate the cluster's orbital path
 
@@ -3694,7 +3694,7 @@ class StarCluster(object):
 
         return  self.tpath,self.xpath,self.ypath,self.zpath,self.vxpath,self.vypath,self.vzpath
 
-    def orbital_path_match(self,tfinal=0.1,nt=1000,pot=None,path=None,from_centre=False,
+    def orbital_path_match(self,tfinal=None,nt=1000,pot=None,path=None,from_centre=False,
         skypath=False,to_path=False,do_full=False,ro=None,vo=None,zo=None,solarmotion=None,plot=False,projected=False,**kwargs):
 
         """Match stars to a position along the orbital path of the cluster
@@ -3777,7 +3777,7 @@ class StarCluster(object):
         self.r_tail = np.sqrt(self.x_tail ** 2.0 + self.y_tail ** 2.0 + self.z_tail ** 2.0)
         self.v_tail = np.sqrt(self.vx_tail ** 2.0 + self.vy_tail ** 2.0 + self.vz_tail ** 2.0)
 
-    def tail_path(self,dt=0.1,no=1000,nt=100,ntail=100,pot=None,dmax=None,bintype='fix',from_centre=False,skypath=False,
+    def tail_path(self,tfinal=None,no=1000,nt=100,ntail=100,pot=None,dmax=None,bintype='fix',from_centre=False,skypath=False,
         to_path=False,
         do_full=False,
         ro=None,vo=None,zo=None,solarmotion=None,plot=False,**kwargs):
@@ -3788,8 +3788,8 @@ class StarCluster(object):
             ----------
             cluster : class
                 StarCluster
-            dt : float
-                timestep that StarCluster is to be moved to
+            tfinal : float
+                final time (in cluster.units) to integrate orbit to (default: 0.1 Gyr)
             no : int
                 number of timesteps for orbit integration (default:1000)
             nt : int
@@ -3839,11 +3839,11 @@ class StarCluster(object):
             2019 - Implemented numpy array preallocation to minimize runtime - Nathaniel Starkman (UofT)
             """
 
-        self.tpath,self.xpath,self.ypath,self.zpath,self.vxpath,self.vypath,self.vzpath=tail_path(self,dt=dt,no=no,nt=nt,ntail=ntail,pot=pot,dmax=dmax,bintype=bintype,from_centre=from_centre,skypath=skypath,to_path=to_path,do_full=do_full,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion,plot=plot,**kwargs)
+        self.tpath,self.xpath,self.ypath,self.zpath,self.vxpath,self.vypath,self.vzpath=tail_path(self,tfinal=tfinal,no=no,nt=nt,ntail=ntail,pot=pot,dmax=dmax,bintype=bintype,from_centre=from_centre,skypath=skypath,to_path=to_path,do_full=do_full,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion,plot=plot,**kwargs)
 
         return self.tpath,self.xpath,self.ypath,self.zpath,self.vxpath,self.vypath,self.vzpath
 
-    def tail_path_match(self,dt=0.1,no=1000,nt=100,ntail=100, pot=None,dmax=None,from_centre=False,
+    def tail_path_match(self,tfinal=None,no=1000,nt=100,ntail=100, pot=None,dmax=None,from_centre=False,
         to_path=False,do_full=False,ro=None,vo=None,zo=None,solarmotion=None,plot=False,**kwargs,):
 
         """Match stars to a position along the tail path of the cluster
@@ -3852,8 +3852,8 @@ class StarCluster(object):
         ----------
         cluster : class
             StarCluster
-        dt : float
-            timestep that StarCluster is to be moved to
+        tfinal : float
+            final time (in cluster.units) to integrate orbit to (default: 0.1 Gyr)
         no : int
             number of timesteps for orbit integration (default:1000)
         nt : int
@@ -3900,7 +3900,7 @@ class StarCluster(object):
         2018 - Written - Webb (UofT)
         """
 
-        self.tstar,self.dprog,self.dpath=tail_path_match(self,dt=dt,no=no,nt=nt,ntail=ntail,pot=pot,dmax=dmax,
+        self.tstar,self.dprog,self.dpath=tail_path_match(self,tfinal=tfinal,no=no,nt=nt,ntail=ntail,pot=pot,dmax=dmax,
         from_centre=from_centre,to_path=to_path,do_full=do_full,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion,plot=plot,**kwargs)
 
         return self.tstar,self.dprog,self.dpath
diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index 0bd1c62..49caa21 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -89,7 +89,7 @@ def to_tail(cluster):
     return x_tail,y_tail,z_tail,vx_tail,vy_tail,vz_tail
 
 def tail_path(
-    cluster, tfinal=0.1, no=1000, nt=100, ntail=100, pot=None, dmax=None, bintype = 'fix', from_centre=False, skypath=False, 
+    cluster, tfinal=None, no=1000, nt=100, ntail=100, pot=None, dmax=None, bintype = 'fix', from_centre=False, skypath=False, 
     to_path=False,
     do_full=False,
     ro=None,
@@ -263,7 +263,7 @@ def tail_path(
 
 def tail_path_match(
     cluster,
-    tfinal=0.1,
+    tfinal=None,
     no=1000,
     nt=100,
     ntail=100,
-- 
2.43.0


From ef80d7e9f7b3e3977da8665a3478d6cdf42f82c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 061/136] fix: stars are matched to paths given in the
 cluster's units

---
 clustertools/analysis/orbits.py | 18 ++++++++++++++++--
 clustertools/tidaltail/tails.py |  3 +++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 8d4ed6c..9b2b3ba 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -857,6 +857,10 @@ def orbital_path_match(
         cluster.to_galaxy(sortstars=False)
         cluster.to_kpckms()
 
+    #tfinal and path are in the units that the cluster came in
+    if tfinal is not None:
+        tfinal=_convert_time(tfinal,units0,cluster)
+
     if path is None:
         ts, x, y, z, vx, vy, vz = orbital_path(
             cluster,
@@ -874,6 +878,15 @@ def orbital_path_match(
     else:
         ts, x, y, z, vx, vy, vz = path
 
+        ts=_convert_time(ts,units0,cluster)
+        if not skypath:
+            x=_convert_length(x,units0,cluster)
+            y=_convert_length(y,units0,cluster)
+            z=_convert_length(z,units0,cluster)
+            vx=_convert_velocity(vx,units0,cluster)
+            vy=_convert_velocity(vy,units0,cluster)
+            vz=_convert_velocity(vz,units0,cluster)
+
     pindx = np.argmin(np.fabs(ts))
 
     dx = np.tile(np.array(x), cluster.ntot).reshape(
@@ -1012,7 +1025,8 @@ def orbital_path_match(
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
     tstar=_convert_time(tstar,'kpckms',cluster)
-    dprog=_convert_length(dprog,'kpckms',cluster)
-    dpath=_convert_length(dpath,'kpckms',cluster)
+    if not skypath:
+        dprog=_convert_length(dprog,'kpckms',cluster)
+        dpath=_convert_length(dpath,'kpckms',cluster)
 
     return np.array(tstar), np.array(dprog), np.array(dpath)
\ No newline at end of file
diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index 49caa21..f611851 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -168,6 +168,9 @@ def tail_path(
     if dmax is not None:
         dmax=_convert_length(dmax,units0,cluster)
 
+    if tfinal is not None:
+        tfinal=_convert_time(tfinal,units0,cluster)
+
     top, xop, yop, zop, vxop, vyop, vzop = orbital_path(
         cluster,
         tfinal=tfinal,
-- 
2.43.0


From 42455d5f82c493296c031b81778eabb55c86d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 062/136] fix: distance to the progenitor is measured along the
 path

---
 clustertools/analysis/orbits.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 9b2b3ba..5bd0caf 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -912,18 +912,12 @@ def orbital_path_match(
     dyo = y[1:] - y[0:-1]
     dzo = z[1:] - z[0:-1]
 
-    dprogx = np.cumsum(np.fabs(dxo))
-    dprogy = np.cumsum(np.fabs(dyo))
-    dprogz = np.cumsum(np.fabs(dzo))
-
-    dprogx = np.insert(dprogx, 0, 0.0)
-    dprogy = np.insert(dprogy, 0, 0.0)
-    dprogz = np.insert(dprogz, 0, 0.0)
-
     if projected:
-        dprogr = np.sqrt(dprogx ** 2.0 + dprogy ** 2.0)
+        dprogr = np.cumsum(np.sqrt(dxo ** 2.0 + dyo ** 2.0))
     else:
-        dprogr = np.sqrt(dprogx ** 2.0 + dprogy ** 2.0 + dprogz ** 2.0)
+        dprogr = np.cumsum(np.sqrt(dxo ** 2.0 + dyo ** 2.0 + dzo ** 2.0))
+
+    dprogr = np.insert(dprogr, 0, 0.0)
 
     dprog = dprogr[indx] - dprogr[pindx]
 
-- 
2.43.0


From 48aefc7eb2804f8cc8e7b3f8fc3465259a39c318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 063/136] fix: distances to the path itself are defined for
 stars on it and when found all at once

---
 clustertools/analysis/orbits.py | 82 +++++++++++++--------------------
 1 file changed, 33 insertions(+), 49 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 5bd0caf..38e3723 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -927,56 +927,18 @@ def orbital_path_match(
         dyo = np.append(dyo, dyo[-1])
         dzo = np.append(dzo, dzo[-1])
 
+        rows = np.arange(0, cluster.ntot)
+        if projected:
+            ovec = np.column_stack([dxo[indx], dyo[indx]])
+            svec = np.column_stack([dx[rows, indx], dy[rows, indx]])
+        else:
+            ovec = np.column_stack([dxo[indx], dyo[indx], dzo[indx]])
+            svec = np.column_stack([dx[rows, indx], dy[rows, indx], dz[rows, indx]])
+
         if do_full:
-            # Typically it is too expensive to calculate dpath all at once, but will allow option via do_full
-
-            if projected:
-                ovec = np.column_stack([dxo, dyo])
-                mag_ovec = np.sqrt(dxo ** 2.0 + dyo ** 2.0)
-                svec = np.column_stack([dx[:, indx], dy[:, indx]])
-                mag_svec = dr[:, indx]
-                theta = np.arccos(np.dot(ovec[indx], svec) / (mag_ovec[indx] * mag_svec))
-                dpath = mag_svec * np.sin(theta)
-            else:
-                ovec = np.column_stack([dxo, dyo, dzo])
-                mag_ovec = np.sqrt(dxo ** 2.0 + dyo ** 2.0 + dzo ** 2.0)
-                svec = np.column_stack([dx[:, indx], dy[:, indx], dz[:, indx]])
-                mag_svec = dr[:, indx]
-                theta = np.arccos(np.dot(ovec[indx], svec) / (mag_ovec[indx] * mag_svec))
-                dpath = mag_svec * np.sin(theta)
+            dpath = _distance_to_line(svec, ovec)
         else:
-            # Need to optimize this via numba
-            dpath = np.array([])
-            if projected:
-                for i in range(0, cluster.ntot):
-                        ovec = [dxo[indx[i]], dyo[indx[i]]]
-                        mag_ovec = np.sqrt(
-                            dxo[indx[i]] ** 2.0 + dyo[indx[i]] ** 2.0)
-
-                        svec = [dx[i, indx[i]], dy[i, indx[i]]]
-                        mag_svec = dr[i, indx[i]]
-
-                        theta = np.arccos(
-                            (ovec[0] * svec[0] + ovec[1] * svec[1])
-                            / (mag_ovec * mag_svec)
-                        )
-                        dpath = np.append(dpath, mag_svec * np.sin(theta))
-
-            else:
-                for i in range(0, cluster.ntot):
-                    ovec = [dxo[indx[i]], dyo[indx[i]], dzo[indx[i]]]
-                    mag_ovec = np.sqrt(
-                        dxo[indx[i]] ** 2.0 + dyo[indx[i]] ** 2.0 + dzo[indx[i]] ** 2.0
-                    )
-
-                    svec = [dx[i, indx[i]], dy[i, indx[i]], dz[i, indx[i]]]
-                    mag_svec = dr[i, indx[i]]
-
-                    theta = np.arccos(
-                        (ovec[0] * svec[0] + ovec[1] * svec[1] + ovec[2] * svec[2])
-                        / (mag_ovec * mag_svec)
-                    )
-                    dpath = np.append(dpath, mag_svec * np.sin(theta))
+            dpath = np.array([_distance_to_line(svec[i : i + 1], ovec[i : i + 1])[0] for i in rows])
 
     # Assign negative to stars with position vectors in opposite direction as local angular momentum vector
     if not projected:
@@ -1023,4 +985,26 @@ def orbital_path_match(
         dprog=_convert_length(dprog,'kpckms',cluster)
         dpath=_convert_length(dpath,'kpckms',cluster)
 
-    return np.array(tstar), np.array(dprog), np.array(dpath)
\ No newline at end of file
+    return np.array(tstar), np.array(dprog), np.array(dpath)
+
+def _distance_to_line(svec, ovec):
+    """Distance from the ends of vectors to the lines they start from
+
+    Parameters
+    ----------
+    svec : float
+        vectors starting at a point along each line
+    ovec : float
+        vectors along each line
+
+    Returns
+    -------
+    dist : float
+        perpendicular distances (lengths of svec where ovec has no length)
+    """
+
+    mag2 = np.sum(ovec ** 2.0, axis=1)
+    along = np.sum(svec * ovec, axis=1) / np.where(mag2 > 0.0, mag2, 1.0)
+
+    return np.sqrt(np.sum((svec - along[:, None] * ovec) ** 2.0, axis=1))
+
-- 
2.43.0


From f6d01988f6f1ae2aefc03421287301975355928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 064/136] fix: tail path on the sky is seen by the cluster's
 observer

---
 clustertools/tidaltail/tails.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index f611851..e69aea0 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -232,7 +232,9 @@ def tail_path(
 
 
     if skypath:
-        ratail,dectail,disttail,pmratail,pmdectail,vlostail=cart_to_sky(xtail, ytail, ztail, vxtail, vytail, vztail)
+        ratail,dectail,disttail,pmratail,pmdectail,vlostail=cart_to_sky(xtail, ytail, ztail, vxtail, vytail, vztail,
+            ro=cluster._ro if ro is None else ro,vo=cluster._vo if vo is None else vo,
+            solarmotion=cluster._solarmotion if solarmotion is None else solarmotion,zo=cluster._zo if zo is None else zo)
 
 
     if plot:
-- 
2.43.0


From 72b318b2fdb46cac6e4689278380bcb765519f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 065/136] fix: overlapping bins along the tail use every star
 inside them

---
 clustertools/tidaltail/tails.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index e69aea0..0cac8c4 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -209,17 +209,28 @@ def tail_path(
     else:
         dindx = (np.fabs(dpath) <= dmax)
 
-    bin_idx = bin_index(tstar, t_lower, t_upper)
-    dindx = dindx * (bin_idx >= 0)
-
     nbin = len(t_mid)
-    counts = np.bincount(bin_idx[dindx], minlength=nbin).astype(float)
-    sum_x = np.bincount(bin_idx[dindx], weights=cluster.x[dindx], minlength=nbin)
-    sum_y = np.bincount(bin_idx[dindx], weights=cluster.y[dindx], minlength=nbin)
-    sum_z = np.bincount(bin_idx[dindx], weights=cluster.z[dindx], minlength=nbin)
-    sum_vx = np.bincount(bin_idx[dindx], weights=cluster.vx[dindx], minlength=nbin)
-    sum_vy = np.bincount(bin_idx[dindx], weights=cluster.vy[dindx], minlength=nbin)
-    sum_vz = np.bincount(bin_idx[dindx], weights=cluster.vz[dindx], minlength=nbin)
+
+    if ntail > nt:
+        #Roaming bins overlap, so a star can contribute to several of them
+        star, bin_idx = [], []
+        for i in range(0, nbin):
+            inbin = np.flatnonzero(dindx * (tstar >= t_lower[i]) * (tstar <= t_upper[i]))
+            star.append(inbin)
+            bin_idx.append(np.full(len(inbin), i))
+        star, bin_idx = np.concatenate(star), np.concatenate(bin_idx)
+    else:
+        bin_idx = bin_index(tstar, t_lower, t_upper)
+        star = np.flatnonzero(dindx * (bin_idx >= 0))
+        bin_idx = bin_idx[star]
+
+    counts = np.bincount(bin_idx, minlength=nbin).astype(float)
+    sum_x = np.bincount(bin_idx, weights=cluster.x[star], minlength=nbin)
+    sum_y = np.bincount(bin_idx, weights=cluster.y[star], minlength=nbin)
+    sum_z = np.bincount(bin_idx, weights=cluster.z[star], minlength=nbin)
+    sum_vx = np.bincount(bin_idx, weights=cluster.vx[star], minlength=nbin)
+    sum_vy = np.bincount(bin_idx, weights=cluster.vy[star], minlength=nbin)
+    sum_vz = np.bincount(bin_idx, weights=cluster.vz[star], minlength=nbin)
 
     keep = counts > 0
     ttail = t_mid[keep]
-- 
2.43.0


From 9d1d7e81b79bdac7b6b0f747a53f5508599582ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 066/136] fix: numbers given to AMUSE clusters for matching
 stars to paths are in kpc, km/s and Gyr

---
 clustertools/analysis/orbits.py | 43 ++++++++++++++++++++++++++-------
 clustertools/tidaltail/tails.py |  6 ++---
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 38e3723..81920b4 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -859,7 +859,7 @@ def orbital_path_match(
 
     #tfinal and path are in the units that the cluster came in
     if tfinal is not None:
-        tfinal=_convert_time(tfinal,units0,cluster)
+        tfinal=_from_units(tfinal,units0,cluster,_convert_time)
 
     if path is None:
         ts, x, y, z, vx, vy, vz = orbital_path(
@@ -878,14 +878,14 @@ def orbital_path_match(
     else:
         ts, x, y, z, vx, vy, vz = path
 
-        ts=_convert_time(ts,units0,cluster)
+        ts=_from_units(ts,units0,cluster,_convert_time)
         if not skypath:
-            x=_convert_length(x,units0,cluster)
-            y=_convert_length(y,units0,cluster)
-            z=_convert_length(z,units0,cluster)
-            vx=_convert_velocity(vx,units0,cluster)
-            vy=_convert_velocity(vy,units0,cluster)
-            vz=_convert_velocity(vz,units0,cluster)
+            x=_from_units(x,units0,cluster,_convert_length)
+            y=_from_units(y,units0,cluster,_convert_length)
+            z=_from_units(z,units0,cluster,_convert_length)
+            vx=_from_units(vx,units0,cluster,_convert_velocity)
+            vy=_from_units(vy,units0,cluster,_convert_velocity)
+            vz=_from_units(vz,units0,cluster,_convert_velocity)
 
     pindx = np.argmin(np.fabs(ts))
 
@@ -981,7 +981,8 @@ def orbital_path_match(
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
     tstar=_convert_time(tstar,'kpckms',cluster)
-    if not skypath:
+    #Angles have no units to convert (AMUSE clusters return their values with kpc attached)
+    if not skypath or cluster.units=='amuse':
         dprog=_convert_length(dprog,'kpckms',cluster)
         dpath=_convert_length(dpath,'kpckms',cluster)
 
@@ -1008,3 +1009,27 @@ def _distance_to_line(svec, ovec):
 
     return np.sqrt(np.sum((svec - along[:, None] * ovec) ** 2.0, axis=1))
 
+def _from_units(x, units, cluster, convert):
+    """Convert x from units to cluster.units, where numbers given for AMUSE clusters are in kpc, km/s and Gyr
+
+    Parameters
+    ----------
+    x : float
+        quantity
+    units : str
+        units associated with x
+    cluster : class
+        StarCluster (in kpckms)
+    convert : function
+        conversion function of the quantity
+
+    Returns
+    -------
+    x : float
+        quantity with units the same as cluster.units
+    """
+
+    if units == 'amuse' and not hasattr(x, 'value_in'):
+        return x
+
+    return convert(x, units, cluster)
diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index 0cac8c4..0138038 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -18,7 +18,7 @@ from galpy import potential
 
 import numpy as np
 
-from ..analysis.orbits import orbital_path, orbital_path_match
+from ..analysis.orbits import orbital_path, orbital_path_match, _from_units
 from ..cluster.operations import *
 from ..util.recipes import binmaker,nbinmaker,roaming_binmaker,roaming_nbinmaker,bin_index
 from ..util.coordinates import cart_to_sky
@@ -166,10 +166,10 @@ def tail_path(
 
     #dmax is assumed to have same units as cluster initially has
     if dmax is not None:
-        dmax=_convert_length(dmax,units0,cluster)
+        dmax=_from_units(dmax,units0,cluster,_convert_length)
 
     if tfinal is not None:
-        tfinal=_convert_time(tfinal,units0,cluster)
+        tfinal=_from_units(tfinal,units0,cluster,_convert_time)
 
     top, xop, yop, zop, vxop, vyop, vzop = orbital_path(
         cluster,
-- 
2.43.0


From 001ee87e25894f5509463e8597760d6288ff9aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 067/136] fix: stars with a cluster or centre origin are
 matched to paths on the sky

---
 clustertools/analysis/orbits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 81920b4..7990a66 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -851,7 +851,8 @@ def orbital_path_match(
     units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
     if skypath:
-        cluster.to_radec()
+        #Stars need to be observed, whichever origin their coordinates have
+        cluster.to_sky()
         projected=True
     else:
         cluster.to_galaxy(sortstars=False)
-- 
2.43.0


From 7a7c727447b586a7853c25a4ddeda2651c14daa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 068/136] fix: to_tail rotates AMUSE clusters

---
 clustertools/tidaltail/tails.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index 0138038..c847d51 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -29,6 +29,11 @@ from ..util.units import _convert_length,_convert_time,_convert_velocity
 
 import matplotlib.pyplot as plt
 
+try:
+    import amuse.units.units as u
+except:
+    pass
+
 
 def to_tail(cluster):
     """Calculate positions and velocities of stars when rotated such that clusters velocity vector
@@ -56,7 +61,10 @@ def to_tail(cluster):
         cluster.to_centre(sortstars=False)
 
 
-    v_vec = np.array([cluster.vxgc, cluster.vygc, cluster.vzgc])
+    v_vec = [cluster.vxgc, cluster.vygc, cluster.vzgc]
+    if cluster.units=='amuse':
+        v_vec = [v.value_in(u.kms) for v in v_vec]
+    v_vec = np.array(v_vec)
     new_v_vec = np.array([1.0, 0.0, 0.0])
 
     rot = _rotate_to_arbitrary_vector(
-- 
2.43.0


From 9da0f467453d6746ef78eaa39df0b956e6b12bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 069/136] fix: stars are matched to the path of the cluster's
 centre on the sky when requested

---
 clustertools/analysis/orbits.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 7990a66..32026d3 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -850,13 +850,8 @@ def orbital_path_match(
     cluster.save_cluster()
     units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
-    if skypath:
-        #Stars need to be observed, whichever origin their coordinates have
-        cluster.to_sky()
-        projected=True
-    else:
-        cluster.to_galaxy(sortstars=False)
-        cluster.to_kpckms()
+    cluster.to_galaxy(sortstars=False)
+    cluster.to_kpckms()
 
     #tfinal and path are in the units that the cluster came in
     if tfinal is not None:
@@ -888,6 +883,11 @@ def orbital_path_match(
             vy=_from_units(vy,units0,cluster,_convert_velocity)
             vz=_from_units(vz,units0,cluster,_convert_velocity)
 
+    if skypath:
+        #Stars need to be observed, whichever origin their coordinates have
+        cluster.to_sky()
+        projected=True
+
     pindx = np.argmin(np.fabs(ts))
 
     dx = np.tile(np.array(x), cluster.ntot).reshape(
-- 
2.43.0


From d80e3cc7c529c869371060f9d14a1ffb36ca0235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 070/136] fix: to_tail does not mirror clusters that move along
 the negative x axis

---
 clustertools/tidaltail/tails.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index c847d51..0a392ce 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -71,6 +71,10 @@ def to_tail(cluster):
         np.atleast_2d(v_vec), new_v_vec, inv=False, _dontcutsmall=False
     )
 
+    # Motion along negative x is turned around by a rotation, not mirrored
+    if np.linalg.det(rot[0]) < 0:
+        rot[:, :, 2] *= -1.0
+
     x_tail = (
         cluster.x * rot[:, 0, 0] + cluster.y * rot[:, 1, 0] + cluster.z * rot[:, 2, 0]
     )
-- 
2.43.0


From 9aee99f620cf8225c7f0417784357cb359951f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 071/136] fix: starplot leaves AMUSE clusters in AMUSE units
 when plotting one panel

---
 clustertools/util/plots.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clustertools/util/plots.py b/clustertools/util/plots.py
index ffe9f55..94a0a26 100644
--- a/clustertools/util/plots.py
+++ b/clustertools/util/plots.py
@@ -652,6 +652,9 @@ def starplot(
         out = plt.plot(x, y, ".", alpha=alpha, **kwargs)
 
         if overplot:
+            if units0=='amuse':
+                cluster.to_amuse()
+
             return out
         else:
             if do_centre:
@@ -694,6 +697,9 @@ def starplot(
 
             plt.tight_layout()
 
+            if units0=='amuse':
+                cluster.to_amuse()
+
             if filename != None:
                 plt.savefig(filename)
 
-- 
2.43.0


From fef071e67bbbaf9c72b2beaf4547c8f0f15d00e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 072/136] fix: overlap_cluster accepts AMUSE clusters

---
 clustertools/cluster/cluster.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index a2ee06e..50a383f 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -4356,7 +4356,6 @@ def overlap_cluster(cluster1,cluster2,tol=0.1,projected=False,return_cluster=Tru
 
     """
     indx=np.zeros(cluster1.ntot,dtype=bool)
-    drmin=np.zeros(cluster1.ntot)
 
     for i in range(0,cluster1.ntot):
         dx=cluster1.x[i]-cluster2.x
@@ -4368,7 +4367,6 @@ def overlap_cluster(cluster1,cluster2,tol=0.1,projected=False,return_cluster=Tru
         else:
             dr=np.sqrt(dx**2.+dy**2.)
 
-        drmin[i]=np.amin(dr)
         if np.amin(dr) < tol:
             indx[i]=True
 
-- 
2.43.0


From d4c5dd6ca35ed8d6ef17e8cd742a069937d47ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 073/136] fix: profiles and mass functions with a bintype can
 be plotted

---
 clustertools/analysis/functions.py | 5 ++++-
 clustertools/analysis/profiles.py  | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 024cbe9..a34d85b 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1466,9 +1466,12 @@ def mass_function(
         return_error=True
 
 
+    #Options of the mass bins are not passed on to the plot
+    bintype,mbintype=kwargs.pop('bintype','num'),kwargs.pop('mbintype','num')
+
     if np.sum(indx) >= nmass:
 
-        if kwargs.get('bintype','num')=='fix' or kwargs.get('mbintype','num')=='fix':
+        if bintype=='fix' or mbintype=='fix':
             m_lower, m_mean, m_upper, m_hist = binmaker(cluster.m[indx], nmass)
         else:
             m_lower, m_mean, m_upper, m_hist = nbinmaker(cluster.m[indx], nmass)
diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 8a9e210..db5ea22 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -2000,17 +2000,19 @@ def vcirc_prof(
     vmax = np.amax(vcirc)
     rvmax = r[np.argmax(vcirc)]
 
+    bintype = kwargs.pop('bintype','num')
+
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         args=np.zeros(len(r_mean))
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
-    elif kwargs.get('bintype','num')=='fix' and nrad is not None:
+    elif bintype=='fix' and nrad is not None:
         r_lower, r_mean, r_upper, r_hist = binmaker(r, nrad)
         args=np.zeros(len(r_mean))
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
-    elif kwargs.get('bintype','num')=='num' and nrad is not None:
+    elif bintype=='num' and nrad is not None:
         r_lower, r_mean, r_upper, r_hist = nbinmaker(r, nrad)
         args=np.zeros(len(r_mean))
         for i in range(0,len(args)):
-- 
2.43.0


From c5a291c10c8d966a5c8d9e7564f3c7a99cdf4cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 074/136] fix: core, tidal and limiting radii of AMUSE and
 galpy clusters can be plotted

---
 clustertools/analysis/functions.py | 32 ++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index a34d85b..e11c7ad 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2261,6 +2261,11 @@ def rcore(
 
     if plot:
 
+        #AMUSE clusters are plotted in pckms
+        if units0=='amuse':
+            cluster.to_pckms()
+            rc=rc.value_in(u.pc)
+
         filename = kwargs.pop("filename", None)
         overplot = kwargs.pop("overplot", False)
 
@@ -2308,11 +2313,12 @@ def rcore(
                 yunits = " Msun/kpc^3"
 
         elif cluster.units=='galpy':
+            ro,vo=cluster._ro,cluster._vo
             rprof /=(1000.0*ro)
 
             if projected:
-                pprof /= dens_in_msolpc2
-                rho_c /= dens_in_msolpc2
+                pprof /= conversion.dens_in_msolpc3(ro=ro, vo=vo)*1000.0*ro
+                rho_c /= conversion.dens_in_msolpc3(ro=ro, vo=vo)*1000.0*ro
             else:
                 pprof /= conversion.dens_in_msolpc3(ro=ro, vo=vo) 
                 rho_c /= conversion.dens_in_msolpc3(ro=ro, vo=vo)               
@@ -2354,6 +2360,10 @@ def rcore(
         if filename != None:
             plt.savefig(filename)
 
+        if units0=='amuse':
+            cluster.to_amuse()
+            rc=rc | u.pc
+
     return rc
 
 def rtidal(
@@ -2495,6 +2505,11 @@ def rtidal(
 
     if plot:
 
+        #AMUSE clusters are plotted in pckms
+        if units0=='amuse':
+            cluster.to_pckms()
+            rt=rt.value_in(u.pc)
+
         if cluster.units == "nbody":
             xunits = " (NBODY)"
             yunits = " (NBODY)"
@@ -2543,6 +2558,10 @@ def rtidal(
 
         _lplot(x,y,overplot=True,linestyle='--',color='k')
 
+        if units0=='amuse':
+            cluster.to_amuse()
+            rt=rt | u.pc
+
 
     return rt
 
@@ -2658,6 +2677,11 @@ def rlimiting(
 
     if plot:
 
+        #AMUSE clusters are plotted in pckms
+        if units0=='amuse':
+            cluster.to_pckms()
+            rl=rl.value_in(u.pc)
+
         filename = kwargs.pop("filename", None)
         overplot = kwargs.pop("overplot", False)
 
@@ -2746,6 +2770,10 @@ def rlimiting(
         if filename != None:
             plt.savefig(filename)
 
+        if units0=='amuse':
+            cluster.to_amuse()
+            rl=rl | u.pc
+
     return rl
 
 def _rho_prof(
-- 
2.43.0


From 4f2a187304667bd48ba85c13dd4593e00245e422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:10 +0000
Subject: [PATCH 075/136] fix: gyrout writes velocities in kpc/Gyr

---
 clustertools/util/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index 6437b57..21fa427 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -317,7 +317,7 @@ def gyrout(cluster, filename="init.nemo.dat",eps=None,epsunits=None,ro=solar_ro,
     2019 - Written - Webb (UofT)
 
     """
-    vcon = 220.0 / conversion.velocity_in_kpcGyr(vo=solar_vo, ro=solar_ro)
+    vcon = vo / conversion.velocity_in_kpcGyr(vo=vo, ro=ro)
     mcon = 222288.4543021174
 
     cluster.save_cluster()
-- 
2.43.0


From 5f015afde1899630be1553b073e7e9c917872cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:10 +0000
Subject: [PATCH 076/136] fix: gyrout accepts any scalar softening length

---
 clustertools/util/output.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index 21fa427..3a96a68 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -333,8 +333,7 @@ def gyrout(cluster, filename="init.nemo.dat",eps=None,epsunits=None,ro=solar_ro,
 
         eps=_convert_length(eps,epsunits,cluster)
 
-        if isinstance(eps,float):
-            eps=np.ones(cluster.ntot)*eps
+        eps=np.ones(cluster.ntot)*eps
 
         np.savetxt(
                 filename,
-- 
2.43.0


From 9c7c8717e1b965c86861cd8a72304598536f6b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:10 +0000
Subject: [PATCH 077/136] fix: fortout writes its files into the cluster's
 directory

---
 clustertools/util/output.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index 3a96a68..e66d6ae 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -10,6 +10,8 @@ __all__ = [
     "gyrout",
 ]
 
+import os
+
 import numpy as np
 try:
     from galpy.util import conversion
@@ -253,7 +255,7 @@ def fortout(
     cluster.to_nbody()
 
     np.savetxt(
-        cluster.wdir+filename,
+        os.path.join(cluster.wdir,filename),
         np.column_stack(
             [
                 cluster.m,
@@ -271,7 +273,7 @@ def fortout(
 
     if sse:
         np.savetxt(
-            cluster.wdir+sse_filename,
+            os.path.join(cluster.wdir,sse_filename),
             np.column_stack(
                 [
                     cluster.m0,
-- 
2.43.0


From 4e0c4561e20568122e3d89c879a0adcb0febf7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:10 +0000
Subject: [PATCH 078/136] fix: snapout writes energies and sky coordinates of
 clusters without stellar types

---
 clustertools/util/output.py | 129 ++++++------------------------------
 1 file changed, 22 insertions(+), 107 deletions(-)

diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index e66d6ae..8dce7f3 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -54,115 +54,30 @@ def snapout(cluster, filename, energies=False, radec=False):
     2018 - Written - Webb (UofT)
     """
     if radec:
+        sky = list(sky_coords(cluster))
+
+    columns = [
+        cluster.m,
+        cluster.x,
+        cluster.y,
+        cluster.z,
+        cluster.vx,
+        cluster.vy,
+        cluster.vz,
+        cluster.id,
+    ]
+
+    # Stellar types are only written if every star has one
+    if len(cluster.kw) == cluster.ntot:
+        columns += [cluster.kw]
+
+    if energies:
+        columns += [cluster.kin, cluster.pot, cluster.etot]
 
-        ra, dec, d0, pmra, pmdec, vr0 = sky_coords(cluster)
-
-        if energies:
-            np.savetxt(
-                filename,
-                np.column_stack(
-                    [
-                        cluster.m,
-                        cluster.x,
-                        cluster.y,
-                        cluster.z,
-                        cluster.vx,
-                        cluster.vy,
-                        cluster.vz,
-                        cluster.id,
-                        cluster.kw,
-                        cluster.kin,
-                        cluster.pot,
-                        cluster.etot,
-                        ra,
-                        dec,
-                        d0,
-                        pmra,
-                        pmdec,
-                        vr0,
-                    ]
-                ),
-            )
-        else:
-            np.savetxt(
-                filename,
-                np.column_stack(
-                    [
-                        cluster.m,
-                        cluster.x,
-                        cluster.y,
-                        cluster.z,
-                        cluster.vx,
-                        cluster.vy,
-                        cluster.vz,
-                        cluster.id,
-                        cluster.kw,
-                        ra,
-                        dec,
-                        d0,
-                        pmra,
-                        pmdec,
-                        vr0,
-                    ]
-                ),
-            )
+    if radec:
+        columns += sky
 
-    else:
-        if energies:
-            np.savetxt(
-                filename,
-                np.column_stack(
-                    [
-                        cluster.m,
-                        cluster.x,
-                        cluster.y,
-                        cluster.z,
-                        cluster.vx,
-                        cluster.vy,
-                        cluster.vz,
-                        cluster.id,
-                        cluster.kw,
-                        cluster.kin,
-                        cluster.pot,
-                        cluster.etot,
-                    ]
-                ),
-            )
-        else:
-
-            if len(cluster.kw)==cluster.ntot:
-                np.savetxt(
-                    filename,
-                    np.column_stack(
-                        [
-                            cluster.m,
-                            cluster.x,
-                            cluster.y,
-                            cluster.z,
-                            cluster.vx,
-                            cluster.vy,
-                            cluster.vz,
-                            cluster.id,
-                            cluster.kw,
-                        ]
-                    ),
-                )
-            else:
-                np.savetxt(
-                    filename,
-                    np.column_stack(
-                        [
-                            cluster.m,
-                            cluster.x,
-                            cluster.y,
-                            cluster.z,
-                            cluster.vx,
-                            cluster.vy,
-                            cluster.vz,
-                            cluster.id,
-                        ]
-                    ),
-                )
+    np.savetxt(filename, np.column_stack(columns))
 
     return 0
 
-- 
2.43.0


From 0b807301f2a3c60377270b1172926388c27020fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 079/136] fix: snapshots with a single star can be loaded

---
 clustertools/io/snapshot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/snapshot.py b/clustertools/io/snapshot.py
index 327ca98..9d32439 100644
--- a/clustertools/io/snapshot.py
+++ b/clustertools/io/snapshot.py
@@ -81,13 +81,14 @@ def _get_snapshot(
                 "%s%s%s" % (wdir, snapdir, filename),
                 delimiter=delimiter,
                 skiprows=skiprows,
+                ndmin=2,
             )
         elif os.path.isfile("%s%s" % (wdir, filename)):
             data = np.loadtxt(
-                "%s%s" % (wdir, filename), delimiter=delimiter, skiprows=skiprows
+                "%s%s" % (wdir, filename), delimiter=delimiter, skiprows=skiprows, ndmin=2
             )
         elif os.path.isfile(filename):
-            data = np.loadtxt(filename, delimiter=delimiter, skiprows=skiprows
+            data = np.loadtxt(filename, delimiter=delimiter, skiprows=skiprows, ndmin=2
             )
         else:
             print("NO FILE FOUND: %s, %s, %s" % (wdir, snapdir, filename))
@@ -110,6 +111,7 @@ def _get_snapshot(
             ),
             delimiter=delimiter,
             skiprows=skiprows,
+            ndmin=2,
         )
     elif os.path.isfile(
         "%s%s%s%s" % (wdir, snapbase, str(nsnap).zfill(nzfill), snapend)
@@ -119,6 +121,7 @@ def _get_snapshot(
             ("%s%s%s%s" % (wdir, snapbase, str(nsnap).zfill(nzfill), snapend)),
             delimiter=delimiter,
             skiprows=skiprows,
+            ndmin=2,
         )
     else:
         print(
-- 
2.43.0


From 4b78160a63fd220d7ef923ca67aaa0a60601827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:14 +0000
Subject: [PATCH 080/136] fix: a galpy orbit given to load_cluster or
 advance_cluster places clusters of any units

---
 clustertools/io/load.py  | 74 ++--------------------------------------
 clustertools/io/orbit.py | 50 +++++++++++++++++++++++++++
 2 files changed, 53 insertions(+), 71 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 79aff57..09279de 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -28,6 +28,7 @@ from .amuse import _get_amuse_particles
 from .astropy_table import _get_astropy_table
 from .galpydf import _get_galpy_orbits
 from .limepydf import _get_limepy
+from .orbit import _add_galpy_orbit
 
 # Try Importing AMUSE. Only necessary for _get_amuse_particles
 try:
@@ -290,58 +291,8 @@ def load_cluster(
 
     # Add galpy orbit if given
     if orbit is not None:
-        cluster.orbit = orbit
-        if cluster.units == "pckms":
-            t = (cluster.tphys / 1000.0) / conversion.time_in_Gyr(ro=solar_ro, vo=solar_vo)
-            cluster.add_orbit(
-                orbit.x(t) * 1000.0,
-                orbit.y(t) * 1000.0,
-                orbit.z(t) * 1000.0,
-                orbit.vx(t),
-                orbit.vy(t),
-                orbit.vz(t),
-            )
-        if cluster.units == "kpckms":
-            cluster.add_orbit(
-                orbit.x(t),
-                orbit.y(t),
-                orbit.z(t),
-                orbit.vx(t),
-                orbit.vy(t),
-                orbit.vz(t),
-            )
-        elif cluster.units == "nbody":
-            t = (cluster.tphys * cluster.tbar / 1000.0) / conversion.time_in_Gyr(
-                ro=solar_ro, vo=solar_vo
-            )
-            cluster.add_orbit(
-                orbit.x(t) * 1000.0 / cluster.rbar,
-                orbit.y(t) * 1000.0 / cluster.rbar,
-                orbit.z(t) * 1000.0 / cluster.rbar,
-                orbit.vx(t) / cluster.vbar,
-                orbit.vy(t) / cluster.vbar,
-                orbit.vz(t) / cluster.vbar,
-            )
-        elif cluster.units == "galpy":
-            t = cluster.tphys
-            cluster.add_orbit(
-                orbit.x(t) / 8.0,
-                orbit.y(t) / 8.0,
-                orbit.z(t) / 8.0,
-                orbit.vx(t) / 220.0,
-                orbit.vy(t) / 220.0,
-                orbit.vz(t) / 220.0,
-            )
+        _add_galpy_orbit(cluster, orbit)
 
-        cluster.save_cluster()
-        units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
-
-        if cluster.origin is not None: 
-            cluster.to_cluster(sortstars=False)
-            cluster.find_centre()
-            cluster.return_cluster(units0,origin0, rorder0, rorder_origin0 )
-        else:
-            cluster.find_centre()
     elif initialize:
         origin0=cluster.origin
         cluster.to_galaxy()
@@ -623,26 +574,7 @@ def advance_cluster(
 
         # Add galpy orbit if given
         if orbit != None:
-            cluster.orbit = orbit
-            if cluster.units == "pckms" or cluster.units == "kpckms":
-                t = (cluster.tphys / 1000.0) / conversion.time_in_Gyr(
-                    ro=solar_ro, vo=solar_vo
-                )
-            elif cluster.units == "nbody":
-                t = (
-                    cluster.tphys * cluster.tbar / 1000.0
-                ) / conversion.time_in_Gyr(ro=solar_ro, vo=solar_vo)
-            elif cluster.units == "galpy":
-                t = cluster.tphys
-
-            cluster.add_orbit(
-                orbit.x(t),
-                orbit.y(t),
-                orbit.z(t),
-                orbit.vx(t),
-                orbit.vy(t),
-                orbit.vz(t),
-            )
+            _add_galpy_orbit(cluster, orbit)
 
     return cluster
 
diff --git a/clustertools/io/orbit.py b/clustertools/io/orbit.py
index 383ef41..9db2e37 100644
--- a/clustertools/io/orbit.py
+++ b/clustertools/io/orbit.py
@@ -1,6 +1,13 @@
 import numpy as np
+try:
+    from galpy.util import conversion
+except:
+    import galpy.util.bovy_conversion as conversion
+
 import os, struct
 
+from ..util.units import _convert_length,_convert_time,_convert_velocity
+
 def _get_cluster_orbit(cluster, ofile, advance=False, ocol_names=["t", "x", "y", "z", "vx", "vy", "vz"],ocol_nums=[0, 1, 2, 3, 4, 5, 6], **kwargs):
     """ Read in cluster oribit from an ascii file and apply it to StarCluster
 
@@ -82,3 +89,46 @@ def _get_cluster_orbit(cluster, ofile, advance=False, ocol_names=["t", "x", "y",
         cluster.add_orbit(xgc, ygc, zgc, vxgc, vygc, vzgc, ounits)
 
     return
+
+def _add_galpy_orbit(cluster, orbit):
+    """ Set the cluster's orbital position to where a galpy orbit is at the cluster's time
+
+    Parameters
+    ----------
+    cluster : class
+        StarCluster to be placed on the orbit
+    orbit : class
+        galpy orbit
+
+    Returns
+    -------
+    None
+    """
+
+    cluster.orbit = orbit
+
+    ro, vo = orbit._ro, orbit._vo
+
+    # The orbit is evaluated at the cluster's time, in the orbit's own natural units
+    t_gyr = cluster.tphys / _convert_time(1.0, "kpckms", cluster)
+    t = t_gyr / conversion.time_in_Gyr(ro=ro, vo=vo)
+
+    if cluster.units == "radec":
+        cluster.add_orbit(
+            orbit.ra(t), orbit.dec(t), orbit.dist(t), orbit.pmra(t), orbit.pmdec(t), orbit.vlos(t)
+        )
+    elif cluster.units is not None:
+        pos = [_convert_length(p(t, ro=ro, vo=vo), "kpckms", cluster) for p in (orbit.x, orbit.y, orbit.z)]
+        vel = [_convert_velocity(v(t, ro=ro, vo=vo), "kpckms", cluster) for v in (orbit.vx, orbit.vy, orbit.vz)]
+        cluster.add_orbit(*pos, *vel)
+
+    # The centre of the stars is measured from the new position of the cluster
+    cluster.save_cluster()
+    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+
+    if cluster.origin is not None:
+        cluster.to_cluster(sortstars=False)
+        cluster.find_centre()
+        cluster.return_cluster(units0,origin0, rorder0, rorder_origin0 )
+    else:
+        cluster.find_centre()
-- 
2.43.0


From 573dc18d131d5eda07632d82989aed2356749df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:56 +0000
Subject: [PATCH 081/136] fix: orbits given in other units can be added to
 AMUSE clusters

---
 clustertools/cluster/cluster.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 50a383f..62e684a 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -991,6 +991,14 @@ class StarCluster(object):
                 vxgc /= vcon
                 vygc /= vcon
                 vzgc /= vcon
+            elif self.units == "amuse":
+                xgc = xgc | u.kpc
+                ygc = ygc | u.kpc
+                zgc = zgc | u.kpc
+                vxgc = vxgc | u.kms
+                vygc = vygc | u.kms
+                vzgc = vzgc | u.kms
+                tphys = tphys | u.Gyr
 
 
         self.xgc = xgc
-- 
2.43.0


From af87aebfffe5908249ac9b4871613584991cc520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:56 +0000
Subject: [PATCH 082/136] fix: load_cluster(initialize=True) keeps the orbit it
 initializes

---
 clustertools/io/load.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 09279de..ace3754 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -296,8 +296,7 @@ def load_cluster(
     elif initialize:
         origin0=cluster.origin
         cluster.to_galaxy()
-        solarmotion=kwargs.get('solarmotion',[-11.1, 24.0, 7.25])
-        initialize_orbit(cluster,solarmotion=solarmotion)
+        cluster.orbit=initialize_orbit(cluster,solarmotion=kwargs.get('solarmotion',None))
         cluster.to_origin(origin0)
         
     return cluster
-- 
2.43.0


From 84118c1ca65843562e50167189fe73cabb65ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:56 +0000
Subject: [PATCH 083/136] fix: nemo clusters are loaded with the orbit in their
 orbit file

---
 clustertools/io/load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index ace3754..c251848 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -230,13 +230,13 @@ def load_cluster(
         filename=_get_filename(filename,**kwargs)
         filein = open(filename, "r")
 
-        cluster = _get_gyrfalcon(filein, units=units, origin=origin, advance=False, **kwargs)
+        cluster = _get_gyrfalcon(filein, units=units, origin=origin, ofile=ofile, advance=False, **kwargs)
 
     elif ctype == "new_gyrfalcon" or ctype=='new_nemo':
         # Read in snapshot from gyrfalcon.
         filename=_get_filename(filename,**kwargs)
 
-        cluster = _get_new_gyrfalcon(filename, units=units, origin=origin, advance=False, **kwargs)
+        cluster = _get_new_gyrfalcon(filename, units=units, origin=origin, ofile=ofile, advance=False, **kwargs)
 
     elif ctype=='amuse':
         filename=_get_filename(filename,**kwargs)
-- 
2.43.0


From e5f1bd8e72fd572066fb4d8810cdf539ffdabddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:56 +0000
Subject: [PATCH 084/136] fix: orbit files can be used with AMUSE particles and
 galpy orbits

---
 clustertools/io/amuse.py   | 2 +-
 clustertools/io/galpydf.py | 2 +-
 clustertools/io/load.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/clustertools/io/amuse.py b/clustertools/io/amuse.py
index 0b55c70..9db7e54 100644
--- a/clustertools/io/amuse.py
+++ b/clustertools/io/amuse.py
@@ -24,7 +24,7 @@ except:
 
 
 def _get_amuse_particles(
-    particles, units=None, origin=None, ofile=None, **kwargs
+    particles, units=None, origin=None, ofile=None, advance=False, **kwargs
 ):
     """Convert AMUSE particle dataset to a StarCluster instance
 
diff --git a/clustertools/io/galpydf.py b/clustertools/io/galpydf.py
index 2d71c9d..421d6a5 100644
--- a/clustertools/io/galpydf.py
+++ b/clustertools/io/galpydf.py
@@ -11,7 +11,7 @@ from ..util.constants import *
 from .orbit import _get_cluster_orbit
 
 def _get_galpy_orbits(
-    orbits, units=None, origin=None, ofile=None,ro=solar_ro,vo=solar_vo,**kwargs
+    orbits, units=None, origin=None, ofile=None,advance=False,ro=solar_ro,vo=solar_vo,**kwargs
 ):
     """Convert galpy orbits to a StarCluster instance
 
diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index c251848..5a5ebe6 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -529,7 +529,7 @@ def advance_cluster(
         if filename is not None:
             filetype=kwargs.pop("filetype","hdf5")
             particles = read_set_from_file(filename, filetype)
-            cluster = _get_amuse_particles(particles, units=cluster.units_init, origin=cluster.origin_init, ofile=ofile,**advance_kwargs,**kwargs)
+            cluster = _get_amuse_particles(particles, units=cluster.units_init, origin=cluster.origin_init, ofile=ofile, advance=True,**advance_kwargs,**kwargs)
 
     else:
         cluster = StarCluster(ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,ofile=ofile,**advance_kwargs, **kwargs)
-- 
2.43.0


From 8e45193a9b82fed7acde6774ce844c3c62c51198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:56 +0000
Subject: [PATCH 085/136] fix: advancing past the last AMUSE file returns an
 empty cluster

---
 clustertools/io/load.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 5a5ebe6..f364ac9 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -530,6 +530,9 @@ def advance_cluster(
             filetype=kwargs.pop("filetype","hdf5")
             particles = read_set_from_file(filename, filetype)
             cluster = _get_amuse_particles(particles, units=cluster.units_init, origin=cluster.origin_init, ofile=ofile, advance=True,**advance_kwargs,**kwargs)
+        else:
+            print("NO FILE FOUND")
+            cluster = StarCluster(ctype="amuse", units=cluster.units_init, origin=cluster.origin_init, ofile=ofile, **advance_kwargs)
 
     else:
         cluster = StarCluster(ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,ofile=ofile,**advance_kwargs, **kwargs)
-- 
2.43.0


From 9719a20c2937b757acd0b4b8e1c8de1dd3cea722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:56 +0000
Subject: [PATCH 086/136] fix: loading an astropy table does not empty the
 column_mapper it is given

---
 clustertools/io/astropy_table.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/clustertools/io/astropy_table.py b/clustertools/io/astropy_table.py
index e9df60f..1398a7c 100644
--- a/clustertools/io/astropy_table.py
+++ b/clustertools/io/astropy_table.py
@@ -70,7 +70,7 @@ def _get_astropy_table(
     2020 - Written - Starkman (UofT)
     """
 
-    cm = column_mapper or {}  # None -> {}
+    cm = dict(column_mapper or {})  # None -> {}
 
     if column_mapper is None:
         # lower-case colum names
@@ -125,15 +125,15 @@ def _get_astropy_table(
             vz = _helper("v_z", "vz", to="vz", optional=False)
 
     else:  # column_mapper not None
-        x = table[cm.pop("x")]
-        y = table[cm.pop("y")]
-        z = table[cm.pop("z")]
-        vx = table[cm.pop("vx")]
-        vy = table[cm.pop("vy")]
-        vz = table[cm.pop("vz")]
-
-        m = table[cm.pop("m")] if "m" in cm else None
-        ID = table[cm.pop("id")] if "id" in cm else None
+        x = table[cm["x"]]
+        y = table[cm["y"]]
+        z = table[cm["z"]]
+        vx = table[cm["vx"]]
+        vy = table[cm["vy"]]
+        vz = table[cm["vz"]]
+
+        m = table[cm["m"]] if "m" in cm else None
+        ID = table[cm["id"]] if "id" in cm else None
 
 
     cluster = StarCluster(
-- 
2.43.0


From 93c8fbef8d48b9b57d260c546f1ac69eb6508295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:56 +0000
Subject: [PATCH 087/136] fix: the end of the orbit file does not stop
 load_cluster or advance_cluster

---
 clustertools/io/orbit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clustertools/io/orbit.py b/clustertools/io/orbit.py
index 9db2e37..cffebab 100644
--- a/clustertools/io/orbit.py
+++ b/clustertools/io/orbit.py
@@ -56,6 +56,10 @@ def _get_cluster_orbit(cluster, ofile, advance=False, ocol_names=["t", "x", "y",
 
 
     #Testing 
+    if len(data) == 0:
+        print("END OF ORBIT FILE")
+        return
+
     if True:
         tphys,xgc,ygc,zgc,vxgc,vygc,vzgc=0.,0.,0.,0.,0.,0.,0.
 
-- 
2.43.0


From ea13c1e5d3870c70376ad16630994ae9f88458cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:03 +0000
Subject: [PATCH 088/136] fix: loaders and advance_cluster keep the solar
 position, centre method and snapshot directory

---
 clustertools/io/load.py     | 13 ++++++++++++-
 clustertools/io/nbody6.py   |  4 ++++
 clustertools/io/nbody6pp.py |  6 ++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index f364ac9..b8d4abd 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -681,7 +681,13 @@ def _get_advanced_kwargs(cluster, **kwargs):
 
     otime = kwargs.pop("otime", False)
 
-    give = kwargs.pop('give','mxv')
+    give = kwargs.pop('give',cluster.give)
+
+    ro = kwargs.pop('ro',cluster._ro)
+    vo = kwargs.pop('vo',cluster._vo)
+    zo = kwargs.pop('zo',cluster._zo)
+    solarmotion = kwargs.pop('solarmotion',cluster._solarmotion)
+    centre_method = kwargs.pop('centre_method',cluster.centre_method)
 
     hdf5 = kwargs.pop('hdf5',cluster.hdf5)
     ngroups = kwargs.pop('ngroups',cluster.ngroups)
@@ -704,6 +710,11 @@ def _get_advanced_kwargs(cluster, **kwargs):
         "sortstars": sortstars,
         "otime": otime,
         "give" : give,
+        "ro" : ro,
+        "vo" : vo,
+        "zo" : zo,
+        "solarmotion" : solarmotion,
+        "centre_method" : centre_method,
         "hdf5" : hdf5,
         "ngroups" : ngroups,
         "ngroup" : ngroup,
diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index f88cfae..693bf70 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -47,6 +47,9 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
     
     initialize = kwargs.get("initialize", False)
 
+    # Settings of the StarCluster itself
+    settings = {k: kwargs[k] for k in ("ro", "vo", "zo", "solarmotion", "centre_method") if k in kwargs}
+
     ntot=0
 
     if out3 is not None:
@@ -59,6 +62,7 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
             origin="cluster",
             ctype="nbody6",
             sfile=out3,
+            **settings,
         )
                 
         if nstot > 0:
diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index abc251e..d7ee8e7 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -56,6 +56,10 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
 
 
     initialize = kwargs.get("initialize", False)
+
+    # Settings of the StarCluster itself
+    settings = {k: kwargs[k] for k in ("snapdir", "ro", "vo", "zo", "solarmotion", "centre_method") if k in kwargs}
+
     nsnap = kwargs.pop("nsnap", 0)
     wdir = kwargs.get("wdir", "")
     if wdir != "":
@@ -91,6 +95,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             sfile=snap40,
             nsnap=nsnap,
             wdir=wdir,
+            **settings,
         )
 
         cluster.hdf5=True
@@ -172,6 +177,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             sfile=conf3,
             nsnap=nsnap,
             wdir=wdir,
+            **settings,
         )
 
         if ntot > 0:
-- 
2.43.0


From 4aeb7952aa0c114787f7187954098b7a6ab44c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:03 +0000
Subject: [PATCH 089/136] fix: numbered nemo and AMUSE files have the same
 default name when loading and advancing

---
 clustertools/io/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index b8d4abd..70c7564 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -601,7 +601,7 @@ def _get_filename(filename,**kwargs):
     2021 - Written - Webb (UofT)
     """
 
-    nzfill = int(kwargs.get("nzfill", 1))
+    nzfill = int(kwargs.get("nzfill", 5))
     nsnap = int(kwargs.get("nsnap", "0"))
     wdir = kwargs.get("wdir", "")
     if wdir != "":
-- 
2.43.0


From 8c6c30e433ce7cd4a49b2e1f4de8f914f0b98f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:03 +0000
Subject: [PATCH 090/136] fix: advance_cluster continues into the cont
 directory of every type of simulation

---
 clustertools/io/load.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 70c7564..64b29ed 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -351,9 +351,16 @@ def advance_cluster(
     if ofile is None:
         ofile=cluster.ofile
 
-    if kwargs.get("ofilename", None) is None:
+    ofilename = kwargs.get("ofilename", None)
+    if ofilename is None:
         ofilename=cluster.ofilename
 
+    # What is needed to load a continuation of the simulation if this is the last snapshot
+    ctype, units, origin = cluster.ctype, cluster.units_init, cluster.origin_init
+    load_kwargs = {**advance_kwargs, **kwargs}
+    load_kwargs.pop("ngroup")
+    load_kwargs.pop("ofilename", None)
+
     wdir = advance_kwargs.get("wdir", "")
     if wdir != "":
         if wdir[-1] != '/':
@@ -540,33 +547,19 @@ def advance_cluster(
 
     # Check for restart
     if cluster.ntot == 0.0:
-        try:
-            wdir = cluster.wdir + "cont/"
-        except:
-            wdir = "./cont/"
-
+        wdir = os.path.join(load_kwargs.pop("wdir"), "cont/")
 
         if os.path.exists(wdir):
 
             if ofile is not None:
                 ofilename = ofile.name.split('/')[-1]
-                kwargs.pop('ofilename')
                 ofile=None
-            else:
-                ofilename=kwargs.pop('ofilename',ofilename)
-
-            old_wdir=advance_kwargs.pop('wdir')
 
-            if nsnap is None:
+            if nsnap is not None: load_kwargs["nsnap"] = nsnap
 
-                cluster = load_cluster(
-                    ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,orbit=orbit,filename=filename,load_function=load_function,wdir=wdir,ofilename=ofilename,**advance_kwargs, **kwargs,
-                )
-
-            else:
-                   cluster = load_cluster(
-                    ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,orbit=orbit,filename=filename,nsnap=nsnap,load_function=load_function,wdir=wdir,ofilename=ofilename,**advance_kwargs, **kwargs,
-                )         
+            cluster = load_cluster(
+                ctype=ctype,units=units,origin=origin,orbit=orbit,filename=filename,load_function=load_function,wdir=wdir,ofilename=ofilename,**load_kwargs,
+            )
 
     if cluster.ntot != 0.0:
 
-- 
2.43.0


From 7df979cd557366198ed7512c822be122b64945b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:32 +0000
Subject: [PATCH 091/136] fix: advancing past the last hdf5 file returns an
 empty cluster

---
 clustertools/io/load.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 64b29ed..090af23 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -430,8 +430,12 @@ def advance_cluster(
                 else:
                     conf3=None
 
-                snap40 = h5py.File("%s%ssnap.40_%s.h5part" % (wdir,snapdir,nsnap), "r")
-                cluster = _get_nbody6pp(conf3, snap40=snap40, ofile=ofile, advance=True,nsnap=nsnap,dtout=dtout,**advance_kwargs, **kwargs)
+                if os.path.isfile("%s%ssnap.40_%s.h5part" % (wdir,snapdir,nsnap)):
+                    snap40 = h5py.File("%s%ssnap.40_%s.h5part" % (wdir,snapdir,nsnap), "r")
+                    cluster = _get_nbody6pp(conf3, snap40=snap40, ofile=ofile, advance=True,nsnap=nsnap,dtout=dtout,**advance_kwargs, **kwargs)
+                else:
+                    print("END OF SNAPSHOTS")
+                    cluster = StarCluster(ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,ofile=ofile,nsnap=nsnap,**advance_kwargs)
 
         else:
             deltat=kwargs.pop('deltat',1)
-- 
2.43.0


From ff27857317721eef342e341927787302e41ee306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:32 +0000
Subject: [PATCH 092/136] fix: advancing past the end of a nemo file returns an
 empty cluster

---
 clustertools/io/gyrfalcon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clustertools/io/gyrfalcon.py b/clustertools/io/gyrfalcon.py
index f69fde5..4b39f5a 100644
--- a/clustertools/io/gyrfalcon.py
+++ b/clustertools/io/gyrfalcon.py
@@ -282,8 +282,11 @@ def _get_new_gyrfalcon(
         nskip=(skiprows+ntot)*cluster.nsnap+skiprows
 
     try:
-        data=np.loadtxt(filename,skiprows=nskip,max_rows=ntot)
+        data=np.loadtxt(filename,skiprows=nskip,max_rows=ntot,ndmin=2)
     except StopIteration:
+        data=np.zeros(0)
+
+    if data.size==0:
         print("END OF FILE")
         return StarCluster(0.0,ctype="new_nemo",**kwargs)
 
-- 
2.43.0


From 537be1dc40c07fd4ad61e71cef62bb6b1126751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 093/136] fix: every NBODY6 binary has one luminosity

---
 clustertools/io/nbody6.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index 693bf70..b3fa486 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -299,7 +299,7 @@ def _get_nbody6se(fort82, fort83, **kwargs):
 
             #Add select parametes to full array
             kw=np.append(kw,kwb[-1])
-            lbtot=np.log10(10.0**np.asarray(zl1b)+10.0**np.asarray(zl2b))
+            lbtot=np.log10(10.0**zl1b[-1]+10.0**zl2b[-1])
             zl1=np.append(zl1,lbtot)
             r1=np.append(r1,np.maximum(r1b[-1],r2b[-1]))
 
-- 
2.43.0


From 32d5a362716c65c2744e03c155aee56a916d23e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 094/136] fix: advancing past the last NBODY6 snapshot with
 stellar evolution files returns an empty cluster

---
 clustertools/io/nbody6.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index b3fa486..ed8a028 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -85,7 +85,7 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
     if nstot > 0:
         cluster.add_stars(xs, ys, zs, vxs, vys, vzs, ms, i_ds)
 
-    if fort82 is not None and fort83 is not None:
+    if fort82 is not None and fort83 is not None and ntot > 0:
         cluster.ssefile=fort83
         cluster.bsefile=fort82
         i_d,kw,ri,m1,zl1,r1,te,i_d1,i_d2,kw1,kw2,kwb,rib,ecc,pb,semi,m1b,m2b,zl1b,zl2b,r1b,r2b,te1,te2=_get_nbody6se(fort82,fort83,**kwargs)
-- 
2.43.0


From ab20cf1147ba8c732626cebb600146850ee54a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 095/136] fix: potentials in NBODY6++ files are floats

---
 clustertools/io/nbody6pp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index d7ee8e7..4862d15 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -309,7 +309,7 @@ def _get_nbody6pp_conf3(f,return_alist_only=False,**kwargs):
             vz=np.append(vz,struct.unpack('f',f.read(4))[0]) 
 
         for i in range(ntot):
-            phi=np.append(phi,struct.unpack('i',f.read(4))[0])            
+            phi=np.append(phi,struct.unpack('f',f.read(4))[0])
 
         for i in range(ntot):
             i_d=np.append(i_d,struct.unpack('i',f.read(4))[0])
-- 
2.43.0


From 43454bdaa0dc6a4d9c2a65a950da05948cf1d2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 096/136] fix: luminosities of NBODY6++ stars are not truncated

---
 clustertools/io/nbody6pp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index 4862d15..e38671d 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -438,7 +438,7 @@ def _get_nbody6pp_ev(bev, sev, **kwargs):
     kw=data[:,3].astype(int)
     ri=data[:,4].astype(float)
     m1=data[:,5].astype(float)
-    zl1=data[:,6].astype(int)
+    zl1=data[:,6].astype(float)
     r1=data[:,7].astype(float)
     te=data[:,8].astype(float)
 
-- 
2.43.0


From 16304b5a05cbe692f000b9e4f2c8920324f4e2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 097/136] fix: luminosities of NBODY6++ binaries are read from
 every file that has them

---
 clustertools/io/nbody6pp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index e38671d..3f6e5a0 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -367,7 +367,7 @@ def _get_nbody6pp_ev(bev, sev, **kwargs):
         m1b=data[:,12].astype(float)
         m2b=data[:,13].astype(float)
 
-        if len(data)>=14:
+        if data.shape[1]>=20:
             zl1b=data[:,14].astype(float)
             zl2b=data[:,15].astype(float)
             r1b=data[:,16].astype(float)
-- 
2.43.0


From 07af6414a283a851ea1fbb3365f53608195909af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 098/136] fix: the luminosity of an NBODY6++ binary is the sum
 of its stars' luminosities

---
 clustertools/io/nbody6pp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index 3f6e5a0..ac56b56 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -214,8 +214,8 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
 
             if nb>0:
                 kws[binargs]=np.maximum(kw1,kw2)
-                zl1s[binargs]=zl1b+zl2b
-                r1s[binargs]=r1b+r2b
+                zl1s[binargs]=np.log10(10.0**zl1b+10.0**zl2b)
+                r1s[binargs]=np.maximum(r1b,r2b)
                 args=arg[2*nb:]-nb-1
             else:
                 args=arg-1
-- 
2.43.0


From 686f6dfb18c9a553b29c1f4d849a094ee23cc901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 099/136] fix: NBODY6++ evolution files with at most one single
 star can be read

---
 clustertools/io/nbody6pp.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index ac56b56..becd712 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -348,10 +348,7 @@ def _get_nbody6pp_ev(bev, sev, **kwargs):
 
     if nb>0:
 
-        data=np.loadtxt(bev.name,skiprows=1)
-
-        if nb==1:
-            data=data.reshape(1,len(data))
+        data=np.loadtxt(bev.name,skiprows=1,ndmin=2)
 
         arg1=data[:,1].astype(int)
         arg2=data[:,2].astype(int)
@@ -431,7 +428,8 @@ def _get_nbody6pp_ev(bev, sev, **kwargs):
     header=sev.readline().split()
     ntot,tphys=int(header[0]),float(header[1])
 
-    data=np.loadtxt(sev.name,skiprows=1)
+    data=np.loadtxt(sev.name,skiprows=1,ndmin=2)
+    if data.size==0: data=data.reshape(0,9)
 
     arg=data[:,1].astype(int)
     i_d=data[:,2].astype(int)
-- 
2.43.0


From 45c43440eddac6c346fbbb2e44274168a74419cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 100/136] fix: NBODY6++ binaries are counted once

---
 clustertools/io/nbody6pp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index becd712..e088188 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -185,6 +185,8 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             alist[13], alist[12], alist[2], alist[4], alist[6], alist[7], alist[8], alist[3], alist[11],alist[10],alist[17], ntot, alist[1], ntot+alist[1]
         )
             nb=int(alist[1])
+            #Binaries are counted as they are added
+            cluster.nb=0
             cluster.add_stars(x, y, z, vx, vy, vz, m, i_d,nb=nb,analyze=False)
             cluster.rhos=np.zeros(ntot-nb)
             pots=np.zeros(ntot-nb)
-- 
2.43.0


From 9dcadca98ee7cefde4ec89ab84dddd4243302971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 101/136] fix: the numbers of single and binary stars in
 NBODY6++ hdf5 files are right

---
 clustertools/io/nbody6pp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index e088188..69113d3 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -163,7 +163,8 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
 
         cluster.to_nbody(analyze=False)
 
-        if binaries: cluster.nb = len(semi)
+        cluster.nb=nb
+        cluster.ns=cluster.ntot-cluster.nb
 
 
     else:
-- 
2.43.0


From ed7f7cbe51acfe2a5e0279c4d4bbb386a9367d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 102/136] fix: NBODY6 evolution files without single stars stay
 in step with the snapshots

---
 clustertools/io/nbody6.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index ed8a028..83733e7 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -313,6 +313,7 @@ def _get_nbody6se(fort82, fort83, **kwargs):
     #Read single stars second
     header=fort83.readline().split()
     ntot,tphys=int(header[2]),float(header[3])
+    data=['']
 
     for i in range(0,ntot):
         data=fort83.readline().split()
-- 
2.43.0


From 2ae760149633291e68e5c5a6d077286e1660f4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 103/136] fix: loading an NBODY6 simulation that is not there
 returns an empty cluster

---
 clustertools/io/nbody6.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index 83733e7..ed362f7 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -51,6 +51,7 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
     settings = {k: kwargs[k] for k in ("ro", "vo", "zo", "solarmotion", "centre_method") if k in kwargs}
 
     ntot=0
+    nstot=0
 
     if out3 is not None:
     
@@ -71,6 +72,10 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
         )
             ntot+=nstot
 
+    else:
+        print("NO OUT3 FILE")
+        return StarCluster(0., units="nbody", origin="cluster", ctype="nbody6", **settings)
+
     #Add binaries first
     if out33 is not None:
         cluster.bfile=out33
-- 
2.43.0


From d91006ad7b64d3402ce19871313ce3b62f080894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:14 +0000
Subject: [PATCH 104/136] fix: snapshots of an hdf5 simulation share its
 scaling

---
 clustertools/io/load.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 090af23..2c1e198 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -394,26 +394,22 @@ def advance_cluster(
             ngroups=advance_kwargs.get("ngroups")
             ngroup=advance_kwargs.get("ngroup")
 
-            if ngroup < ngroups:
-
-                nsnap = advance_kwargs.pop("nsnap") - 1
-
-                if cluster.nc!=0. and cluster.n_p!=0.:
+            #Scaling of the simulation, for snapshots that do not come with a header
+            units0=cluster.units
+            if units0!='nbody': cluster.to_nbody()
 
-                    units0=cluster.units
-                    if units0!='nbody': cluster.to_nbody()
+            nc,rc,rbar,rtide=cluster.nc,cluster.rc,cluster.rbar,cluster.rtide
+            xc,yc,zc=cluster.xc,cluster.yc,cluster.zc
+            zmbar,vbar,tbar,rscale=cluster.zmbar,cluster.vbar,cluster.tbar,cluster.rscale
+            ns,nb,n_p=cluster.ns,cluster.nb,cluster.n_p
 
-                    nc,rc,rbar,rtide=cluster.nc,cluster.rc,cluster.rbar,cluster.rtide
-                    xc,yc,zc=cluster.xc,cluster.yc,cluster.zc
-                    zmbar,vbar,tbar,rscale=cluster.zmbar,cluster.vbar,cluster.tbar,cluster.rscale
-                    ns,nb,n_p=cluster.ns,cluster.nb,cluster.n_p
+            nbody6list=[nc,rc,rbar,rtide,xc,yc,zc,zmbar,vbar,tbar,rscale,ns,nb,n_p]
 
-                    nbody6list=[nc,rc,rbar,rtide,xc,yc,zc,zmbar,vbar,tbar,rscale,ns,nb,n_p]
+            if units0!='nbody': cluster.to_units(units0)
 
-                    if units0!='nbody': cluster.to_units(units0)
+            if ngroup < ngroups:
 
-                else:
-                    nbody6list=None
+                nsnap = advance_kwargs.pop("nsnap") - 1
 
                 conf3=None
                 cluster = _get_nbody6pp(conf3, snap40=cluster.sfile, ofile=ofile, advance=True,nbody6list=nbody6list,nsnap=nsnap,**advance_kwargs, **kwargs)
@@ -432,7 +428,7 @@ def advance_cluster(
 
                 if os.path.isfile("%s%ssnap.40_%s.h5part" % (wdir,snapdir,nsnap)):
                     snap40 = h5py.File("%s%ssnap.40_%s.h5part" % (wdir,snapdir,nsnap), "r")
-                    cluster = _get_nbody6pp(conf3, snap40=snap40, ofile=ofile, advance=True,nsnap=nsnap,dtout=dtout,**advance_kwargs, **kwargs)
+                    cluster = _get_nbody6pp(conf3, snap40=snap40, ofile=ofile, advance=True,nbody6list=nbody6list,nsnap=nsnap,dtout=dtout,**advance_kwargs, **kwargs)
                 else:
                     print("END OF SNAPSHOTS")
                     cluster = StarCluster(ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,ofile=ofile,nsnap=nsnap,**advance_kwargs)
-- 
2.43.0


From e277b0e1fe91002a128b013ed463e55f5db6628e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 105/136] fix: NBODY6 snapshots that only contain binaries keep
 their header

---
 clustertools/io/nbody6.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index ed362f7..0126c10 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -66,7 +66,7 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
             **settings,
         )
                 
-        if nstot > 0:
+        if nstot > 0 or alist[1] > 0:
             cluster.add_nbody6(
             alist[13], alist[12], alist[2], alist[4], alist[6], alist[7], alist[8], alist[3], alist[11],alist[10],alist[17], nstot, alist[1], nstot+alist[1]
         )
-- 
2.43.0


From b7153e20ccec973e8b00122e4954c8f5a991590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:38 +0000
Subject: [PATCH 106/136] fix: Galactic clusters are found in either catalogue
 under any of their names

---
 clustertools/io/limepydf.py | 39 +++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index 8ea920b..0a37c5e 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -740,14 +740,14 @@ def _get_cluster(gcname, source="default", mbar=1., params=False, **kwargs):
 
     ddata = np.loadtxt(data_dir+"deBoer2019.dat", str, skiprows=1
     )
-    dname = ddata[:, 0]
+    dname = np.char.upper(ddata[:, 0])
     dmass = ddata[:, 7].astype(float)
     drad = ddata[:, 5].astype(float)
 
     hdata = np.loadtxt(data_dir+"harris2010.dat", str, skiprows=2
     )
-    hname = hdata[:, 0]
-    hname2 = hdata[:, 1]
+    hname = np.char.upper(hdata[:, 0])
+    hname2 = np.char.upper(hdata[:, 1])
     hmass = hdata[:, 2].astype(float)
     hrad = hdata[:, 4].astype(float)
 
@@ -758,22 +758,19 @@ def _get_cluster(gcname, source="default", mbar=1., params=False, **kwargs):
     gcname = gcname.upper()
 
 
+    # Name of the cluster in de Boer et al. 2019, where it may go by its other name
+    dbname = None
+    if gcname in dname:
+        dbname = gcname
+    elif gcname in hname2 and gcname != "NA":
+        dbname = hname[np.argmax(hname2 == gcname)]
+    elif gcname in hname:
+        dbname = hname2[np.argmax(hname == gcname)]
+
     if (
         source == "default" or "deboer" in source or "deBoer" in source
-    ) and gcname in dname:
-        cluster = _get_deBoer_cluster(ddata, gcname, mbar, **kwargs)
-    elif (
-        source == "default" or "deboer" in source or "deBoer" in source
-    ) and gcname not in dname:
-        if gcname in hname:
-            indx = hname == gcname
-            i_d = np.argwhere(indx == True).flatten()[0]
-            cluster = _get_deBoer_cluster(ddata, hname2[i_d], mbar, **kwargs)
-        elif gcname in hname2:
-            indx = hname2 == gcname
-            i_d = np.argwhere(indx == True).flatten()[0]
-            cluster = _get_deBoer_cluster(ddata, hname[i_d], mbar, **kwargs)
-
+    ) and dbname in dname:
+        cluster = _get_deBoer_cluster(ddata, dbname, mbar, **kwargs)
 
     elif (source == "default" or "harris" in source or "Harris" in source) and (
         gcname in hname or gcname in hname2
@@ -814,7 +811,7 @@ def _get_deBoer_cluster(data, gcname, mbar=0.4, **kwargs):
     spes = False  # Not yet implemented into LIMEPY
     limepy = True
 
-    name = data[:, 0]
+    name = np.char.upper(data[:, 0])
 
     indx = name == gcname
     i_d = np.argwhere(indx == True).flatten()[0]
@@ -887,10 +884,10 @@ def _get_harris_cluster(data, gcname, mbar=0.4, **kwargs):
     2019 - Written - Webb (UofT)
     """
 
-    name = data[:, 0]
-    name2 = data[:, 1]
+    name = np.char.upper(data[:, 0])
+    name2 = np.char.upper(data[:, 1])
 
-    indx = np.logical_or(np.in1d(name, gcname), np.in1d(name2, gcname))
+    indx = np.logical_or(name == gcname, name2 == gcname)
     i_d = np.argwhere(indx == True).flatten()[0]
     mgc = data[i_d, 2].astype(float)
     rc = data[i_d, 3].astype(float)
-- 
2.43.0


From bef416f41a7eb9de4ef849f8aecdf7d0d3c785f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 107/136] fix: number of stars of clusters from de Boer et al.
 2019 can be set

---
 clustertools/io/limepydf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index 0a37c5e..3d4831f 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -834,7 +834,7 @@ def _get_deBoer_cluster(data, gcname, mbar=0.4, **kwargs):
         g_lime = data[i_d, 3].astype(float)
         rt_lime = data[i_d, 5].astype(float)
         M_lime = data[i_d, 7].astype(float)
-        N = int(M_lime / mbar)
+        N = int(kwargs.get("N", M_lime / mbar))
 
         cluster = _sample_limepy(g=g_lime, phi0=W_lime, M=M_lime, rt=rt_lime, N=N)
 
-- 
2.43.0


From 9acf60af55708a8bb4ce7aa2e56e21b254927f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 108/136] fix: Galactic clusters without a known orbit can be
 set up

---
 clustertools/io/limepydf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index 3d4831f..f974c02 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -842,7 +842,7 @@ def _get_deBoer_cluster(data, gcname, mbar=0.4, **kwargs):
     cluster.bunits='pckms'
     cluster.origin='cluster'
 
-    cluster.orbit = _get_cluster_orbit(gcname)
+    cluster.orbit = _get_gc_orbit(gcname)
 
     if cluster.orbit != -1:
         cluster.add_orbit(
@@ -904,7 +904,7 @@ def _get_harris_cluster(data, gcname, mbar=0.4, **kwargs):
     cluster.bunits='pckms'
     cluster.origin='cluster'
 
-    cluster.orbit = _get_cluster_orbit(gcname)
+    cluster.orbit = _get_gc_orbit(gcname)
 
     if cluster.orbit != -1:
         cluster.add_orbit(
@@ -921,7 +921,7 @@ def _get_harris_cluster(data, gcname, mbar=0.4, **kwargs):
 
     return cluster
 
-def _get_cluster_orbit(gcname,ro=solar_ro, vo=solar_vo):
+def _get_gc_orbit(gcname,ro=solar_ro, vo=solar_vo):
     """Get the measured orbital parameters of a Galactic globular cluster
     - This is a simply wrapper for Orbit.from_name in galpy (Bovy 2015), which uses orbits measured by Vasiliev 2019 using Gaia DR2 via Galpy
     -- Bovy J., 2015, ApJS, 216, 29
@@ -945,5 +945,9 @@ def _get_cluster_orbit(gcname,ro=solar_ro, vo=solar_vo):
     2019 - Written - Webb (UofT)
 
     """
-    return Orbit.from_name(gcname,ro=ro, vo=vo, solarmotion=solar_motion)
+    try:
+        return Orbit.from_name(gcname,ro=ro, vo=vo, solarmotion=solar_motion)
+    except Exception as error:
+        print('NO ORBIT FOR ', gcname, ' : ', error)
+        return -1
 
-- 
2.43.0


From 4d1f974e6b5597a0e672b22872e7695f9c94a351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:53 +0000
Subject: [PATCH 109/136] fix: clusters from Harris 1996 get their orbit when
 they are set up by another name

---
 clustertools/io/limepydf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index f974c02..893e079 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -904,7 +904,9 @@ def _get_harris_cluster(data, gcname, mbar=0.4, **kwargs):
     cluster.bunits='pckms'
     cluster.origin='cluster'
 
-    cluster.orbit = _get_gc_orbit(gcname)
+    cluster.orbit = _get_gc_orbit(name[i_d])
+    if cluster.orbit == -1 and name2[i_d] != "NA":
+        cluster.orbit = _get_gc_orbit(name2[i_d])
 
     if cluster.orbit != -1:
         cluster.add_orbit(
-- 
2.43.0


From 5f21c471a0fbcbbd7f602bcf22cd1a8d0fd69805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:53 +0000
Subject: [PATCH 110/136] fix: limepy models can be given an orbit in any units
 or an orbit file

---
 clustertools/io/limepydf.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index 893e079..a5bb363 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -28,6 +28,7 @@ except:
     pass
 
 from ..cluster.cluster import StarCluster
+from .orbit import _get_cluster_orbit,_add_galpy_orbit
 
 def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance=False, **kwargs):
     """ Setup an N-body realization of a StarCluster with specific parameters
@@ -112,18 +113,7 @@ def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance
 
         # Add galpy orbit if given
         if orbit != None:
-            cluster.orbit = orbit
-            t = (cluster.tphys / 1000.0) / conversion.time_in_Gyr(ro=solar_ro, vo=solar_vo)
-            cluster.add_orbit(
-                orbit.x(t),
-                orbit.y(t),
-                orbit.z(t),
-                orbit.vx(t),
-                orbit.vy(t),
-                orbit.vz(t),
-                "kpckms",
-            )
-
+            _add_galpy_orbit(cluster, orbit)
         elif ofile != None:
             _get_cluster_orbit(cluster, ofile, advance=advance, **kwargs)
 
-- 
2.43.0


From 01397c00e8c4b5b8f2a2472c11da714426033b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 111/136] fix: limepy models with an orbit are placed on it
 when the origin is the galaxy

---
 clustertools/io/limepydf.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index a5bb363..a0e0770 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -96,17 +96,11 @@ def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance
             if units=='nbody': cluster.reset_nbody_scale(rvirial=True)
             cluster.to_units(units)
 
-        if cluster.origin!=origin:
-            cluster.to_origin(origin)
-
     else:
         cluster = _sample_limepy(model=model, **kwargs)
         cluster.units=units
         cluster.bunits=units
 
-        if cluster.origin!=origin:
-            cluster.to_origin(origin)
-
     if cluster.ntot>0:
 
         cluster.ctype='limepy'
@@ -117,8 +111,9 @@ def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance
         elif ofile != None:
             _get_cluster_orbit(cluster, ofile, advance=advance, **kwargs)
 
-        if origin=='galaxy':
-            cluster.to_galaxy()
+        # Stars are moved once the orbit of the cluster is known
+        if cluster.origin!=origin:
+            cluster.to_origin(origin)
 
         cluster.analyze(sortstars=True)
 
-- 
2.43.0


From caf6abe073b712470ad9fc5e36662f3380754575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:27 +0000
Subject: [PATCH 112/136] fix: velocities of limepy models are in equilibrium
 in every unit system

---
 clustertools/io/limepydf.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index a0e0770..cea538d 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -11,6 +11,7 @@ __all__ = [
 
 import numpy as np
 from ..util.constants import *
+from ..util.constants import _get_grav
 
 try:
     from galpy.util import coords,conversion
@@ -97,9 +98,15 @@ def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance
             cluster.to_units(units)
 
     else:
-        cluster = _sample_limepy(model=model, **kwargs)
-        cluster.units=units
-        cluster.bunits=units
+        # Parameters of the model are in the units of the cluster
+        model_units = "pckms" if units == "amuse" else units
+
+        cluster = _sample_limepy(model=model, units=model_units, **kwargs)
+        cluster.units=model_units
+        cluster.bunits=model_units
+
+        if units == "amuse":
+            cluster.to_amuse()
 
     if cluster.ntot>0:
 
@@ -129,7 +136,7 @@ def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance
     return cluster
 
 
-def _sample_limepy(g=1,model=None,**kwargs):
+def _sample_limepy(g=1,model=None,units='pckms',**kwargs):
     """Get an Nbody realization of a LIMEPY model cluster
 
     Parameters
@@ -138,6 +145,8 @@ def _sample_limepy(g=1,model=None,**kwargs):
         model type for LIMEPY
     model : object
         LIMEPY model (default:None)
+    units : str
+        units of the model (default:'pckms')
     phi0/W0 : float
         Central potential
     project : bool
@@ -164,6 +173,7 @@ def _sample_limepy(g=1,model=None,**kwargs):
         M=lmodel._MS
     else:
         phi0=kwargs.get("W0",None)
+        grav=_get_grav(StarCluster(units=units, origin="cluster"))
         if phi0 is None:
             phi0 = float(kwargs.get("phi0"))
         else:
@@ -175,24 +185,24 @@ def _sample_limepy(g=1,model=None,**kwargs):
             M = float(kwargs.get("M"))
             if "rt" in kwargs:
                 rt = float(kwargs.get("rt"))
-                lmodel = limepy(phi0, g, M=M, rt=rt, project=project)
+                lmodel = limepy(phi0, g, G=grav, M=M, rt=rt, project=project)
             elif "rv" in kwargs:
                 rv = float(kwargs.get("rv"))
-                lmodel = limepy(phi0, g, M=M, rv=rv, project=project)
+                lmodel = limepy(phi0, g, G=grav, M=M, rv=rv, project=project)
             elif "rh" in kwargs:
                 rh = float(kwargs.get("rh"))
-                lmodel = limepy(phi0, g, M=M, rh=rh, project=project)
+                lmodel = limepy(phi0, g, G=grav, M=M, rh=rh, project=project)
             elif "rm" in kwargs:
                 rh = float(kwargs.get("rm"))
-                lmodel = limepy(phi0, g, M=M, rh=rh, project=project)
+                lmodel = limepy(phi0, g, G=grav, M=M, rh=rh, project=project)
             elif "r0" in kwargs:
                 r0 = float(kwargs.get("r0"))
-                lmodel = limepy(phi0, g, M=M, r0=r0, project=project)
+                lmodel = limepy(phi0, g, G=grav, M=M, r0=r0, project=project)
             elif "rc" in kwargs:
                 r0 = float(kwargs.get("rc"))
-                lmodel = limepy(phi0, g, M=M, r0=r0, project=project)
+                lmodel = limepy(phi0, g, G=grav, M=M, r0=r0, project=project)
             else:
-                lmodel = limepy(phi0, g, M=M, rv=1.0, project=project)
+                lmodel = limepy(phi0, g, G=grav, M=M, rv=1.0, project=project)
         else:
             M=1.
             lmodel = limepy(phi0, g, G=1, M=1, rv=1, project=project)
-- 
2.43.0


From 2b29d627a68c5f9b5d52efeb78080ead7b77d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 113/136] fix: limepy models keep the settings they are given

---
 clustertools/io/limepydf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index cea538d..79a2633 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -212,7 +212,10 @@ def _sample_limepy(g=1,model=None,units='pckms',**kwargs):
 
     ldata = sample(lmodel, N=N)
 
-    cluster = StarCluster(units=None, origin="cluster")
+    # Settings of the StarCluster itself
+    settings = {k: kwargs[k] for k in ("ro", "vo", "zo", "solarmotion", "centre_method") if k in kwargs}
+
+    cluster = StarCluster(units=None, origin="cluster", **settings)
     cluster.add_stars(
         ldata.x,
         ldata.y,
@@ -831,7 +834,7 @@ def _get_deBoer_cluster(data, gcname, mbar=0.4, **kwargs):
         M_lime = data[i_d, 7].astype(float)
         N = int(kwargs.get("N", M_lime / mbar))
 
-        cluster = _sample_limepy(g=g_lime, phi0=W_lime, M=M_lime, rt=rt_lime, N=N)
+        cluster = _sample_limepy(g=g_lime, phi0=W_lime, M=M_lime, rt=rt_lime, **{**kwargs, 'N': N})
 
     cluster.units='pckms'
     cluster.bunits='pckms'
@@ -893,7 +896,7 @@ def _get_harris_cluster(data, gcname, mbar=0.4, **kwargs):
     N = int(kwargs.get("N", mgc / mbar))
 
 
-    cluster = _sample_limepy(g=1.0, phi0=w0, M=mgc, rt=rl, N=N)
+    cluster = _sample_limepy(g=1.0, phi0=w0, M=mgc, rt=rl, **{**kwargs, 'N': N})
 
     cluster.units='pckms'
     cluster.bunits='pckms'
-- 
2.43.0


From e047035a77faceddffd846fa1cb880ba14490194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 114/136] fix: StarClusters can be created on an orbit in any
 units

---
 clustertools/cluster/cluster.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 62e684a..d5706e3 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -24,12 +24,13 @@ from ..tidaltail.tails import *
 from copy import copy
 from galpy.orbit import Orbit
 from ..util.constants import *
+from ..util.units import _convert_length,_convert_velocity
 
 try:
     import amuse.units.units as u
     from amuse.datamodel import Particles
     from amuse.units.quantities import ScalarQuantity,VectorQuantity
-    from ..util.units import _convert_amuse,_convert_length,_convert_velocity
+    from ..util.units import _convert_amuse
     _hasamuse=True
 except:
     _hasamuse=False
@@ -259,6 +260,15 @@ class StarCluster(object):
             self.vygc = self.orbit.vy()
             self.vzgc = self.orbit.vz()
 
+            # A galpy orbit is in kpc and km/s
+            if self.units is not None and self.units != 'kpckms':
+                self.xgc = _convert_length(self.xgc, 'kpckms', self)
+                self.ygc = _convert_length(self.ygc, 'kpckms', self)
+                self.zgc = _convert_length(self.zgc, 'kpckms', self)
+                self.vxgc = _convert_velocity(self.vxgc, 'kpckms', self)
+                self.vygc = _convert_velocity(self.vygc, 'kpckms', self)
+                self.vzgc = _convert_velocity(self.vzgc, 'kpckms', self)
+
         # variable for cluster's on-sky coordinates
         self.ra = np.array([])
         self.dec = np.array([])
-- 
2.43.0


From 67007e717a8c03294f9b68040ad43c8798aa0a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:57 +0000
Subject: [PATCH 115/136] fix: galpy orbits are loaded in every unit system

---
 clustertools/io/galpydf.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/galpydf.py b/clustertools/io/galpydf.py
index 421d6a5..a18f0ac 100644
--- a/clustertools/io/galpydf.py
+++ b/clustertools/io/galpydf.py
@@ -9,6 +9,7 @@ from ..cluster.cluster import StarCluster
 from ..analysis.orbits import initialize_orbit
 from ..util.constants import *
 from .orbit import _get_cluster_orbit
+from ..util.units import _convert_length,_convert_mass,_convert_velocity
 
 def _get_galpy_orbits(
     orbits, units=None, origin=None, ofile=None,advance=False,ro=solar_ro,vo=solar_vo,**kwargs
@@ -64,13 +65,22 @@ def _get_galpy_orbits(
 
     if masses is None:
         masses = np.ones(len(orbits))
-    elif isinstance(masses,float):
+    elif np.ndim(masses)==0:
         masses = np.ones(len(orbits))*masses
 
     if units=='galpy' and (ro != 1. or vo != 1.):
             print('WARNING - YOU HAVE SELECTED GALPY UNITS BUT RO AND/OR VO ARE NOT 1')
 
-    cluster.add_stars(orbits.x(ro=ro,vo=vo), orbits.y(ro=ro,vo=vo), orbits.z(ro=ro,vo=vo), orbits.vx(ro=ro,vo=vo), orbits.vy(ro=ro,vo=vo), orbits.vz(ro=ro,vo=vo), masses/mo, i_d, sortstars=False)
+    pos=[p(ro=ro,vo=vo) for p in (orbits.x, orbits.y, orbits.z)]
+    vel=[v(ro=ro,vo=vo) for v in (orbits.vx, orbits.vy, orbits.vz)]
+
+    #galpy orbits are in kpc and km/s
+    if units in ('pckms','pcmyr','kpcgyr','nbody','amuse','WDunits'):
+        pos=[_convert_length(x,'kpckms',cluster) for x in pos]
+        vel=[_convert_velocity(v,'kpckms',cluster) for v in vel]
+        masses=_convert_mass(masses,'kpckms',cluster)
+
+    cluster.add_stars(pos[0], pos[1], pos[2], vel[0], vel[1], vel[2], masses/mo, i_d, sortstars=False)
 
     if origin == "galaxy":
         if ofile == None:
-- 
2.43.0


From 11cd7e6613ecf08508e8dfcb3928d54772a41f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:35 +0000
Subject: [PATCH 116/136] fix: AMUSE particles are loaded in every unit system

---
 clustertools/util/units.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index 64abe7d..084c42d 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -521,6 +521,10 @@ def _convert_amuse(particles,cluster):
         vx = particles.vx.value_in(u.parsec/u.Myr)
         vy = particles.vy.value_in(u.parsec/u.Myr)
         vz = particles.vz.value_in(u.parsec/u.Myr)
+    else:
+        m = _convert_mass(particles.mass.value_in(u.MSun),"kpckms",cluster)
+        x,y,z = [_convert_length(r.value_in(u.kpc),"kpckms",cluster) for r in (particles.x,particles.y,particles.z)]
+        vx,vy,vz = [_convert_velocity(v.value_in(u.kms),"kpckms",cluster) for v in (particles.vx,particles.vy,particles.vz)]
 
     return x,y,z,vx,vy,vz,m,ids
 
-- 
2.43.0


From 96fbaf2a44f469fe355650f287c296847708e128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:35 +0000
Subject: [PATCH 117/136] fix: galpy orbits loaded with ro and vo keep them as
 the cluster's scales

---
 clustertools/io/galpydf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clustertools/io/galpydf.py b/clustertools/io/galpydf.py
index a18f0ac..3c37189 100644
--- a/clustertools/io/galpydf.py
+++ b/clustertools/io/galpydf.py
@@ -47,6 +47,10 @@ def _get_galpy_orbits(
     2018 - Written - Webb (UofT)
     """
 
+    #With galpy units, ro and vo are the units the orbits are read in (1), not the cluster's own scales
+    if units!='galpy':
+        kwargs.update(ro=ro,vo=vo)
+
     cluster = StarCluster(
         tphys=0.0,
         units=units,
-- 
2.43.0


From 1a3ea45ef771eb3a4fea85d6708aadb7f76bc804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:35 +0000
Subject: [PATCH 118/136] fix: masses of galpy orbits are scaled by the
 cluster's ro and vo

---
 clustertools/io/galpydf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/galpydf.py b/clustertools/io/galpydf.py
index 3c37189..9132ce3 100644
--- a/clustertools/io/galpydf.py
+++ b/clustertools/io/galpydf.py
@@ -60,7 +60,7 @@ def _get_galpy_orbits(
     )
 
     if units=='galpy':
-        mo=conversion.mass_in_msol(ro=ro, vo=vo)
+        mo=conversion.mass_in_msol(ro=cluster._ro, vo=cluster._vo)
     else:
         mo=1.
 
-- 
2.43.0


From 93c81904b07ad76955af2a55eab47d82b01e540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:43 +0000
Subject: [PATCH 119/136] fix: interpolate_orbit moves the stars with the
 cluster in sky coordinates

---
 clustertools/cluster/cluster.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index d5706e3..c1f4015 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3491,16 +3491,18 @@ class StarCluster(object):
         -------
         2021 - Written - Webb (UofT)
         """
+        units0,origin0=self.units,self.origin
+
+        #Stars on the sky can only be moved along with the cluster in Cartesian coordinates
+        if units0=='radec': self.to_galaxy()
+
         xgc,ygc,zgc,vxgc,vygc,vzgc=interpolate_orbit(self,pot=pot,tfinal=tfinal,nt=nt,from_centre=from_centre, ro=ro,vo=vo, zo=zo, solarmotion=solarmotion)
 
-        origin0=self.origin
         self.to_cluster()
 
         self.add_orbit(xgc,ygc,zgc,vxgc,vygc,vzgc)
 
-        if self.units=='radec' and self.origin=='sky':
-            self.ra_gc,self.dec_gc,self.dist_gc=xgc,ygc,zgc
-            self.pmra_gc,self.pmdec_gc,self.vlos_gc=vxgc,vygc,vzgc
+        if units0=='radec': self.to_sky()
 
         self.to_origin(origin0)
 
-- 
2.43.0


From 035de47d8fbc887b7d0408abcc836982a17e6ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:17 +0000
Subject: [PATCH 120/136] fix: orbits with a given ro and vo start at the
 cluster's position

---
 clustertools/analysis/orbits.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 32026d3..0584f32 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -105,6 +105,9 @@ def initialize_orbit(cluster, from_centre=False, ro=None, vo=None, zo = None, so
             vy+=cluster.vyc
             vz+=cluster.vzc
 
+        #The natural units of the orbit are those of the ro and vo given
+        x, y, z = x*cluster._ro/ro, y*cluster._ro/ro, z*cluster._ro/ro
+        vx, vy, vz = vx*cluster._vo/vo, vy*cluster._vo/vo, vz*cluster._vo/vo
 
         R, phi, z = coords.rect_to_cyl(x, y, z)
         vR, vT, vz = coords.rect_to_cyl_vec(vx, vy, vz, x, y, z)
@@ -174,6 +177,10 @@ def initialize_orbits(cluster, ro=None, vo=None, zo = None, solarmotion=None):
         x, y, z = cluster.x, cluster.y, cluster.z
         vx, vy, vz = cluster.vx, cluster.vy, cluster.vz
 
+        #The natural units of the orbit are those of the ro and vo given
+        x, y, z = x*cluster._ro/ro, y*cluster._ro/ro, z*cluster._ro/ro
+        vx, vy, vz = vx*cluster._vo/vo, vy*cluster._vo/vo, vz*cluster._vo/vo
+
         R, phi, z = coords.rect_to_cyl(x, y, z)
         vR, vT, vz = coords.rect_to_cyl_vec(vx, vy, vz, x, y, z)
 
@@ -247,6 +254,8 @@ def _integrate_orbit(
         tfinal/=conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='nbody':
         tfinal*=((cluster.tbar/1000.)/conversion.time_in_Gyr(ro=ro, vo=vo))
+    elif cluster.units=='galpy':
+        tfinal*=conversion.time_in_Gyr(ro=cluster._ro, vo=cluster._vo)/conversion.time_in_Gyr(ro=ro, vo=vo)
 
     ts = np.linspace(0, tfinal, nt)
     #An orbit that is not moved in time does not need to be integrated
@@ -312,6 +321,8 @@ def _integrate_orbits(
         tfinal/=conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='nbody':
         tfinal*=((cluster.tbar/1000.)/conversion.time_in_Gyr(ro=ro, vo=vo))
+    elif cluster.units=='galpy':
+        tfinal*=conversion.time_in_Gyr(ro=cluster._ro, vo=cluster._vo)/conversion.time_in_Gyr(ro=ro, vo=vo)
 
     os = initialize_orbits(cluster, ro=ro,vo=vo, zo=zo, solarmotion=solarmotion)
     ts = np.linspace(0, tfinal, nt)
@@ -680,6 +691,8 @@ def orbital_path(
         tfinal/=conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='nbody':
         tfinal*=((cluster.tbar/1000.)/conversion.time_in_Gyr(ro=ro, vo=vo))
+    elif cluster.units=='galpy':
+        tfinal*=conversion.time_in_Gyr(ro=cluster._ro, vo=cluster._vo)/conversion.time_in_Gyr(ro=ro, vo=vo)
 
     o = initialize_orbit(cluster, from_centre=from_centre, ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
@@ -722,7 +735,7 @@ def orbital_path(
         elif cluster.units == "nbody":
             t = ts * conversion.time_in_Gyr(ro=ro, vo=vo) * 1000.0 / cluster.tbar
         elif cluster.units == "galpy":
-            t = ts
+            t = ts * conversion.time_in_Gyr(ro=ro, vo=vo) / conversion.time_in_Gyr(ro=cluster._ro, vo=cluster._vo)
         elif cluster.units=='kpckms' or cluster.units=='radec' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
             t = ts * conversion.time_in_Gyr(ro=ro, vo=vo)
         else:
@@ -755,7 +768,7 @@ def orbital_path(
         vx=_convert_velocity(vx,'kpckms',cluster)
         vy=_convert_velocity(vy,'kpckms',cluster)
         vz=_convert_velocity(vz,'kpckms',cluster)
-        t=_convert_time(ts,'galpy',cluster)
+        t=_convert_time(ts*conversion.time_in_Gyr(ro=ro, vo=vo),'kpckms',cluster)
 
         if plot:
             filename = kwargs.pop("filename", None)
-- 
2.43.0


From 6b36c5dd01a58884e6f7b2f9b08f367ee6ef6afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:18 +0000
Subject: [PATCH 121/136] fix: density profiles drawn by rcore and rlimiting
 are in the cluster's units

---
 clustertools/analysis/functions.py | 99 ++++--------------------------
 1 file changed, 11 insertions(+), 88 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index e11c7ad..40512d1 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -44,7 +44,7 @@ from scipy.spatial import cKDTree
 from ..util.recipes import *
 from ..util.constants import _get_grav
 from ..util.plots import _plot,_lplot,_scatter
-from ..util.units import _convert_length,_convert_time,_convert_velocity
+from ..util.units import _convert_length,_convert_time,_convert_velocity,_convert_density
 
 try:
     import amuse.units.units as u
@@ -2259,6 +2259,12 @@ def rcore(
 
         rc=_convert_length(rc,'pckms',cluster)
 
+        #The profile is in pckms while that of the casertano method is already in the cluster's units
+        if plot and cluster.units!='amuse':
+            rprof=_convert_length(rprof,'pckms',cluster)
+            pprof=_convert_density(pprof,'pckms',cluster,projected=projected)
+            rho_c=_convert_density(rho_c,'pckms',cluster,projected=projected)
+
     if plot:
 
         #AMUSE clusters are plotted in pckms
@@ -2270,42 +2276,10 @@ def rcore(
         overplot = kwargs.pop("overplot", False)
 
         if cluster.units == "nbody":
-            rprof /= cluster.rbar
-
-            if projected:
-                pprof *= (
-                    (cluster.rbar ** 2.0)
-                    / cluster.zmbar
-                )
-
-                rho_c *= (
-                    (cluster.rbar ** 2.0)
-                    / cluster.zmbar
-                )
-
-            else:
-                pprof *= (
-                    (cluster.rbar ** 3.0)
-                    / cluster.zmbar
-                )
-
-                rho_c *= (
-                    (cluster.rbar ** 3.0)
-                    / cluster.zmbar
-                )
-
             xunits = " (NBODY)"
             yunits = " (NBODY)"
 
         elif cluster.units == "kpckms" or cluster.units=='kpcgyr':
-            rprof /=1000.0
-            if projected:
-                pprof *= (1000.0 ** 2.0)
-                rho_c *= (1000.0 ** 2.0)
-            else:
-                pprof *= (1000.0 ** 3.0)
-                rho_c *= (1000.0 ** 3.0)
-
             xunits = " (kpc)"
             if projected:
                 yunits = " Msun/kpc^2"
@@ -2313,16 +2287,6 @@ def rcore(
                 yunits = " Msun/kpc^3"
 
         elif cluster.units=='galpy':
-            ro,vo=cluster._ro,cluster._vo
-            rprof /=(1000.0*ro)
-
-            if projected:
-                pprof /= conversion.dens_in_msolpc3(ro=ro, vo=vo)*1000.0*ro
-                rho_c /= conversion.dens_in_msolpc3(ro=ro, vo=vo)*1000.0*ro
-            else:
-                pprof /= conversion.dens_in_msolpc3(ro=ro, vo=vo) 
-                rho_c /= conversion.dens_in_msolpc3(ro=ro, vo=vo)               
-
             xunits = "(GALPY)"
             yunits = "(GALPY)"
 
@@ -2685,61 +2649,20 @@ def rlimiting(
         filename = kwargs.pop("filename", None)
         overplot = kwargs.pop("overplot", False)
 
-        if cluster.units == "nbody":
-            rprof *= ro * 1000.0 / cluster.rbar
-
-            if projected:
-                pprof *= (
-                    dens_in_msolpc2
-                    * (cluster.rbar ** 2.0)
-                    / cluster.zmbar
-                )
-
-                rho_local *= (
-                    dens_in_msolpc2
-                    * (cluster.rbar ** 2.0)
-                    / cluster.zmbar
-                )
-
-            else:
-                pprof *= (
-                    conversion.dens_in_msolpc3(ro=ro, vo=vo)
-                    * (cluster.rbar ** 3.0)
-                    / cluster.zmbar
-                )
-
-                rho_local *= (
-                    conversion.dens_in_msolpc3(ro=ro, vo=vo)
-                    * (cluster.rbar ** 3.0)
-                    / cluster.zmbar
-                )
+        rprof=_convert_length(rprof,'galpy',cluster)
+        pprof=_convert_density(pprof,'galpy',cluster,projected=projected)
+        rho_local=_convert_density(rho_local,'galpy',cluster,projected=projected)
 
+        if cluster.units == "nbody":
             xunits = " (NBODY)"
             yunits = " (NBODY)"
         elif cluster.units == "pckms" or cluster.units == "pcmyr":
-            rprof *= ro * 1000.0
-
-            if projected:
-                pprof *= dens_in_msolpc2
-                rho_local *= dens_in_msolpc2
-            else:
-                pprof *= conversion.dens_in_msolpc3(ro=ro, vo=vo)
-                rho_local *= conversion.dens_in_msolpc3(ro=ro, vo=vo)
-
             xunits = " (pc)"
             if projected:
                 yunits = " Msun/pc^2"
             else:
                 yunits = " Msun/pc^3"
         elif cluster.units == "kpckms" or cluster.units == "kpcgyr":
-            rprof *= ro
-            if projected:
-                pprof *= dens_in_msolpc2 * (1000.0 ** 2.0)
-                rho_local *= dens_in_msolpc2 * (1000.0 ** 2.0)
-            else:
-                pprof *= conversion.dens_in_msolpc3(ro=ro, vo=vo) * (1000.0 ** 3.0)
-                rho_local *= conversion.dens_in_msolpc3(ro=ro, vo=vo) * (1000.0 ** 3.0)
-
             xunits = " (kpc)"
             if projected:
                 yunits = " Msun/kpc^2"
-- 
2.43.0


From dd1db7060d356015590213d6df67e5c51073c7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:18 +0000
Subject: [PATCH 122/136] fix: rcore marks the surface density of a projected
 core

---
 clustertools/analysis/functions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 40512d1..e7c33a1 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2197,9 +2197,12 @@ def rcore(
         if plot:
             nrad=int(np.ceil(1./mfrac)) 
             rprof,pprof,nprof=_rho_prof(cluster,nrad=nrad,projected=projected,plot=False,**kwargs)
-            rcindx=(cluster.r<rc)
+            rcindx=(r<rc)
             mc=np.sum(cluster.m[rcindx])
-            volc=(4./3.)*np.pi*(rc**3.)
+            if projected:
+                volc=np.pi*(rc**2.)
+            else:
+                volc=(4./3.)*np.pi*(rc**3.)
             rho_c=mc/volc
 
         cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
-- 
2.43.0


From 9da2c19b6da9507f63df91d4bb38ef518e722c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:18 +0000
Subject: [PATCH 123/136] fix: starplot(coords='xyz') draws a new figure unless
 overplotting

---
 clustertools/util/plots.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustertools/util/plots.py b/clustertools/util/plots.py
index 94a0a26..20b40b2 100644
--- a/clustertools/util/plots.py
+++ b/clustertools/util/plots.py
@@ -720,6 +720,9 @@ def starplot(
         else:
             units = ""
 
+        if not overplot:
+            plt.figure()
+
         plt.subplot(1, 2, 1)
 
         plt.plot(cluster.x, cluster.z, ".", alpha=alpha, **kwargs)
-- 
2.43.0


From 56401c106f9179f81fb46f233ca69b3920d4389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:18 +0000
Subject: [PATCH 124/136] fix: starplot marks the cluster's centre in the
 coordinates of its stars

---
 clustertools/util/plots.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/clustertools/util/plots.py b/clustertools/util/plots.py
index 20b40b2..a03bf6a 100644
--- a/clustertools/util/plots.py
+++ b/clustertools/util/plots.py
@@ -630,24 +630,32 @@ def starplot(
         if not overplot:
             plt.figure()
 
+        #Centre of the cluster in the coordinates of its stars
+        if cluster.origin == "galaxy":
+            centre = (cluster.xgc + cluster.xc, cluster.ygc + cluster.yc, cluster.zgc + cluster.zc)
+        elif cluster.origin == "centre":
+            centre = (0.0, 0.0, 0.0)
+        else:
+            centre = (cluster.xc, cluster.yc, cluster.zc)
+
         if coords == "xz":
             x = cluster.x
             y = cluster.z
             if do_centre:
-                xgc = cluster.xgc
-                ygc = cluster.zgc
+                xgc = centre[0]
+                ygc = centre[2]
         elif coords == "yz":
             x = cluster.y
             y = cluster.z
             if do_centre:
-                xgc = cluster.ygc
-                ygc = cluster.zgc
+                xgc = centre[1]
+                ygc = centre[2]
         else:
             x = cluster.x
             y = cluster.y
             if do_centre:
-                xgc = cluster.xgc
-                ygc = cluster.ygc
+                xgc = centre[0]
+                ygc = centre[1]
 
         out = plt.plot(x, y, ".", alpha=alpha, **kwargs)
 
-- 
2.43.0


From 94dbd510ad764b564c7828b388509b4b46f01429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:18 +0000
Subject: [PATCH 125/136] fix: skyplot marks the centre's proper motion in a
 proper motion plot

---
 clustertools/util/plots.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clustertools/util/plots.py b/clustertools/util/plots.py
index a03bf6a..15c034a 100644
--- a/clustertools/util/plots.py
+++ b/clustertools/util/plots.py
@@ -859,7 +859,10 @@ def skyplot(
         return out
     else:
         if do_centre:
-            xgc, ygc = cluster.ra_gc, cluster.dec_gc
+            if coords == "pm":
+                xgc, ygc = cluster.pmra_gc, cluster.pmdec_gc
+            else:
+                xgc, ygc = cluster.ra_gc, cluster.dec_gc
             plt.plot(xgc, ygc, ".", alpha=1.0, label="COM", **kwargs)
 
         if coords == "radec":
-- 
2.43.0


From 9880c1778a4773565bb4b443787e489eb1e8ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:18 +0000
Subject: [PATCH 126/136] fix: orbital_path draws the stars in galactocentric
 coordinates, and AMUSE paths

---
 clustertools/analysis/orbits.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 0584f32..806cc27 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -745,7 +745,7 @@ def orbital_path(
         if plot:
             filename = kwargs.pop("filename", None)
             overplot = kwargs.pop("overplot", False)
-            skyplot(cluster)
+            skyplot(cluster,overplot=overplot)
             plt.plot(ra,dec)
             if filename != None:
                 plt.savefig(filename)
@@ -773,8 +773,22 @@ def orbital_path(
         if plot:
             filename = kwargs.pop("filename", None)
             overplot = kwargs.pop("overplot", False)
+
+            #The path is in galactocentric coordinates
+            cluster.save_cluster()
+            units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+            if origin0 != 'sky':
+                cluster.to_galaxy(sortstars=False)
+
             starplot(cluster,coords='xy',overplot=overplot)
-            _lplot(x,y,overplot=True)
+
+            #AMUSE clusters are plotted in pckms
+            if units0=='amuse':
+                _lplot(x.value_in(u.pc),y.value_in(u.pc),overplot=True)
+            else:
+                _lplot(x,y,overplot=True)
+
+            cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
             if filename != None:
                 plt.savefig(filename)
-- 
2.43.0


From af61462f6ccc0679b0945e7bc2f7dc009f858c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:18 +0000
Subject: [PATCH 127/136] fix: rtidal can save its figure

---
 clustertools/analysis/functions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index e7c33a1..634bb91 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2477,6 +2477,8 @@ def rtidal(
             cluster.to_pckms()
             rt=rt.value_in(u.pc)
 
+        filename = kwargs.pop("filename", None)
+
         if cluster.units == "nbody":
             xunits = " (NBODY)"
             yunits = " (NBODY)"
@@ -2525,6 +2527,9 @@ def rtidal(
 
         _lplot(x,y,overplot=True,linestyle='--',color='k')
 
+        if filename != None:
+            plt.savefig(filename)
+
         if units0=='amuse':
             cluster.to_amuse()
             rt=rt | u.pc
-- 
2.43.0


From b015b41b5574772f1b4b7ae6225ee3ddb6cb8533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:08 +0000
Subject: [PATCH 128/136] fix: tapered mass functions are fitted in solar
 masses, so that the fit leaves its starting point in every unit system

---
 clustertools/analysis/functions.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 634bb91..ef64fed 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -44,7 +44,7 @@ from scipy.spatial import cKDTree
 from ..util.recipes import *
 from ..util.constants import _get_grav
 from ..util.plots import _plot,_lplot,_scatter
-from ..util.units import _convert_length,_convert_time,_convert_velocity,_convert_density
+from ..util.units import _convert_length,_convert_time,_convert_velocity,_convert_density,_convert_mass
 
 try:
     import amuse.units.units as u
@@ -1665,11 +1665,25 @@ def tapered_mass_function(
         lower_bounds=kwargs.get('lower_bounds',[0.,-1.*np.inf,np.amin(cluster.m),-1.*np.inf])
         upper_bounds=kwargs.get('upper_bounds',[np.inf,np.inf,np.amax(cluster.m),np.inf])
 
-        (A, alpha, mc, beta), V=curve_fit(tpl_func,10.0**np.array(lm_mean),10.0**np.array(ldm) ,bounds=(lower_bounds,upper_bounds))
+        #Fit in solar masses, as a fit to much smaller or larger numbers does not leave its starting point, unless bounds are given
+        if 'lower_bounds' in kwargs or 'upper_bounds' in kwargs:
+            msol=1.0
+        else:
+            msol=_convert_mass(1.0,'pckms',cluster)
+            lower_bounds[2]/=msol
+            upper_bounds[2]/=msol
+
+        (A, alpha, mc, beta), V=curve_fit(tpl_func,10.0**np.array(lm_mean)/msol,10.0**np.array(ldm)*msol ,bounds=(lower_bounds,upper_bounds))
+
+        #The normalisation is of dN/dM in the cluster's units of mass
+        A*=msol**(-1.0-alpha)
+        mc*=msol
+        lnm=np.log(msol)
+        fA=msol**(-1.0-alpha)
 
-        eA = np.sqrt(V[0][0])
+        eA = np.sqrt(fA**2.*V[0][0]-2.*fA*A*lnm*V[0][1]+(A*lnm)**2.*V[1][1])
         ealpha = np.sqrt(V[1][1])
-        emc = np.sqrt(V[2][2])
+        emc = np.sqrt(V[2][2])*msol
         ebeta = np.sqrt(V[3][3])
 
         if plot:
-- 
2.43.0


From b88e2354f927aefbb72319f07359ff309aa6b42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:05 +0000
Subject: [PATCH 129/136] fix: a centre method given to to_cluster or to_centre
 re-projects a cluster already in that origin on the sky

---
 clustertools/cluster/operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index abbbbe2..6f67f02 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -947,6 +947,8 @@ def to_centre(cluster, sortstars=True, centre_method=None):
     else:
 
         if centre_method is not None:
+            if cluster.units=='radec' and cluster.origin=='centre' and centre_method != cluster.centre_method:
+                cluster.to_sky()
             cluster.centre_method = centre_method
 
         if cluster.origin != 'centre':
@@ -1047,6 +1049,8 @@ def to_cluster(cluster, sortstars=True, centre_method=None):
     else:
 
         if centre_method is not None:
+            if cluster.units=='radec' and cluster.origin=='cluster' and centre_method != cluster.centre_method:
+                cluster.to_sky()
             cluster.centre_method = centre_method
 
         if cluster.origin != "cluster":
-- 
2.43.0


From 629eb5e3bfb10599f0149be40e108585da596b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:05 +0000
Subject: [PATCH 130/136] fix: the peak of a normalised vcirc_prof is marked at
 its radius on the normalised axis

---
 clustertools/analysis/profiles.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index db5ea22..96c7ab1 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -2071,7 +2071,9 @@ def vcirc_prof(
             filename=filename,
             **kwargs,
         )
-        _lplot([rvmax, rvmax], [np.amin(y), np.amax(y)], "--", overplot=True)
+        rpeak = rvmax
+        if normalize: rpeak = rvmax / (cluster.rmpro if projected else cluster.rm)
+        _lplot([rpeak, rpeak], [np.amin(y), np.amax(y)], "--", overplot=True)
         _lplot([np.amin(x), np.amax(x)], [vmax, vmax], "--", overplot=True)
 
         if filename != None:
-- 
2.43.0


From bd7b0adbb88b036a6395faa3de9013fe3c19ab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:05 +0000
Subject: [PATCH 131/136] fix: profiles sort clusters that were never sorted
 before they are normalised

---
 clustertools/analysis/profiles.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 96c7ab1..cbc4e9e 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -111,7 +111,7 @@ def rho_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze(sortstars=True)
 
 
     if projected:
@@ -299,7 +299,7 @@ def m_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze(sortstars=True)
         
     rprof = np.array([])
     mprof = np.array([])
@@ -495,7 +495,7 @@ def alpha_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=True)
     else:
-        cluster.sortstars()
+        cluster.analyze(sortstars=True)
 
 
     if mcorr is None:        
@@ -703,7 +703,7 @@ def sigv_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze(sortstars=True)
 
     if projected:
         r = cluster.rpro
@@ -928,7 +928,7 @@ def beta_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze(sortstars=True)
 
     """
     if rmin == None:
@@ -1133,7 +1133,7 @@ def v_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze(sortstars=True)
 
     if projected:
         r = cluster.rpro
@@ -1360,7 +1360,7 @@ def v2_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze(sortstars=True)
 
     vprof = np.array([])
 
@@ -1591,7 +1591,7 @@ def eta_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=True)
     else:
-        cluster.sortstars()
+        cluster.analyze(sortstars=True)
 
     if projected:
         r = cluster.rpro
@@ -1931,7 +1931,7 @@ def vcirc_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=True)
     else:
-        cluster.sortstars()
+        cluster.analyze(sortstars=True)
 
     grav=_get_grav(cluster)
 
-- 
2.43.0


From d371733486693d6afbedae44a4cadf4290b07548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:11 +0000
Subject: [PATCH 132/136] fix: initialize_orbit uses the centre of clusters
 with sky coordinates when from_centre is set

---
 clustertools/analysis/orbits.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 806cc27..083a5ce 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -72,15 +72,28 @@ def initialize_orbit(cluster, from_centre=False, ro=None, vo=None, zo = None, so
     if solarmotion is None: solarmotion=cluster._solarmotion
 
     if cluster.units == "radec":
+        gc = [
+            cluster.ra_gc,
+            cluster.dec_gc,
+            cluster.dist_gc,
+            cluster.pmra_gc,
+            cluster.pmdec_gc,
+            cluster.vlos_gc,
+        ]
+
+        #The centre has no sky coordinates of its own until they are set
+        if from_centre and cluster.dist_c != 0.:
+            gc = [
+                cluster.ra_c,
+                cluster.dec_c,
+                cluster.dist_c,
+                cluster.pmra_c,
+                cluster.pmdec_c,
+                cluster.vlos_c,
+            ]
+
         o = Orbit(
-            [
-                cluster.ra_gc,
-                cluster.dec_gc,
-                cluster.dist_gc,
-                cluster.pmra_gc,
-                cluster.pmdec_gc,
-                cluster.vlos_gc,
-            ],
+            gc,
             radec=True,
             ro=ro,
             vo=vo,
-- 
2.43.0


From 0af0291f8cb671fceeccd8160bdf8ed3ffc83851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:11 +0000
Subject: [PATCH 133/136] fix: tail_path compares distances on the sky with
 dmax in degrees

---
 clustertools/tidaltail/tails.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index 0a392ce..276ca1b 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -18,7 +18,7 @@ from galpy import potential
 
 import numpy as np
 
-from ..analysis.orbits import orbital_path, orbital_path_match, _from_units
+from ..analysis.orbits import initialize_orbit, orbital_path, orbital_path_match, _from_units
 from ..cluster.operations import *
 from ..util.recipes import binmaker,nbinmaker,roaming_binmaker,roaming_nbinmaker,bin_index
 from ..util.coordinates import cart_to_sky
@@ -178,7 +178,12 @@ def tail_path(
 
     #dmax is assumed to have same units as cluster initially has
     if dmax is not None:
-        dmax=_from_units(dmax,units0,cluster,_convert_length)
+        if skypath and units0!='radec':
+            #Distances from a path on the sky are in degrees, seen at the distance of the cluster
+            dist=initialize_orbit(cluster,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion).dist()
+            dmax=np.degrees(np.arctan2(_from_units(dmax,units0,cluster,_convert_length),dist))
+        elif not skypath:
+            dmax=_from_units(dmax,units0,cluster,_convert_length)
 
     if tfinal is not None:
         tfinal=_from_units(tfinal,units0,cluster,_convert_time)
-- 
2.43.0


From 29effe4ff2ca3361c2dc3c13622144d3f48975ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:11 +0000
Subject: [PATCH 134/136] fix: an AMUSE cluster with an orbit can be given its
 first stars

---
 clustertools/cluster/cluster.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index c1f4015..019d02b 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -494,7 +494,14 @@ class StarCluster(object):
                 if isinstance(self.tphys,ScalarQuantity):
                     self.tphys=self.tphys.value_in(u.Myr)
 
-                if self.units not in ['pckms','kpckms','pcmyr','kpcgyr']: self.units='pckms'
+                if self.units not in ['pckms','kpckms','pcmyr','kpcgyr']:
+                    #The centre and orbital position may have been set before the first stars
+                    for attr in ['xc','yc','zc','xgc','ygc','zgc']:
+                        if hasattr(getattr(self,attr),'value_in'): setattr(self,attr,getattr(self,attr).value_in(u.parsec))
+                    for attr in ['vxc','vyc','vzc','vxgc','vygc','vzgc']:
+                        if hasattr(getattr(self,attr),'value_in'): setattr(self,attr,getattr(self,attr).value_in(u.kms))
+
+                    self.units='pckms'
 
                 stars=Particles(len(x))
                 stars.x,stars.y,stars.z=x,y,z
-- 
2.43.0


From cd0a5f74c37397cb306021df3eb1349a1d26bb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:11 +0000
Subject: [PATCH 135/136] fix: stars on the other side of RA=0 from the cluster
 are placed next to it

---
 clustertools/cluster/operations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 6f67f02..1fea3c0 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -963,7 +963,9 @@ def to_centre(cluster, sortstars=True, centre_method=None):
                     if cluster.centre_method == "VandeVen":
                         _get_vandeven_centre(cluster,from_centre=True)
                     else:
-                        cluster.x = (cluster.x - cluster.xc) * np.cos(np.radians(cluster.yc))
+                        dra = cluster.x - cluster.xc
+                        dra = dra - 360.0 * np.round(dra / 360.0)
+                        cluster.x = dra * np.cos(np.radians(cluster.yc))
                         cluster.y = cluster.y - cluster.yc
 
                         cluster.z -= cluster.zc
@@ -1065,7 +1067,9 @@ def to_cluster(cluster, sortstars=True, centre_method=None):
                     if cluster.centre_method == "VandeVen":
                         _get_vandeven_centre(cluster)
                     else:
-                        cluster.x = (cluster.x - cluster.xgc) * np.cos(np.radians(cluster.ygc))
+                        dra = cluster.x - cluster.xgc
+                        dra = dra - 360.0 * np.round(dra / 360.0)
+                        cluster.x = dra * np.cos(np.radians(cluster.ygc))
                         cluster.y = cluster.y - cluster.ygc
 
                         cluster.z -= cluster.zgc
-- 
2.43.0


From 8406bbaf31ed1d849557174dc1dff9a8db504024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:11 +0000
Subject: [PATCH 136/136] fix: paths on the sky are matched to stars across
 RA=0

---
 clustertools/analysis/orbits.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 083a5ce..4cc0172 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -933,6 +933,9 @@ def orbital_path_match(
     dx = np.tile(np.array(x), cluster.ntot).reshape(
         cluster.ntot, len(ts)
     ) - np.repeat(cluster.x, len(ts)).reshape(cluster.ntot, len(ts))
+    if skypath:
+        #Shortest way around in right ascension
+        dx -= 360.0 * np.round(dx / 360.0)
     dy = np.tile(np.array(y), cluster.ntot).reshape(
         cluster.ntot, len(ts)
     ) - np.repeat(cluster.y, len(ts)).reshape(cluster.ntot, len(ts))
@@ -950,6 +953,8 @@ def orbital_path_match(
     dpath = np.amin(dr, axis=1)
 
     dxo = x[1:] - x[0:-1]
+    if skypath:
+        dxo = dxo - 360.0 * np.round(dxo / 360.0)
     dyo = y[1:] - y[0:-1]
     dzo = z[1:] - z[0:-1]
 
-- 
2.43.0

