From 7afb743179f5741e78a5c2254268f386b6fae3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:59 +0000
Subject: [PATCH 01/36] fix: lniknu assigned I_0 and I_1 to the wrong arguments
 for unsorted x

---
 CasimirRio/bessel_sk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/bessel_sk.py b/CasimirRio/bessel_sk.py
index 655f4d9..a268b50 100644
--- a/CasimirRio/bessel_sk.py
+++ b/CasimirRio/bessel_sk.py
@@ -71,8 +71,9 @@ def lniknu(x, lmax):
         i0lg = -np.log(2*xlg) + np.log(1-np.exp(-2*xlg)) + xlg
         i1sm = -np.log(3)+np.log(xsm)+0.1*xsm**2-xsm**4/700
         i1lg = -np.log(2*xlg) -np.log(xlg) + xlg + np.log(np.exp(-2*xlg)*(xlg+1)+xlg-1)
-        i0 = np.append(i0sm, i0lg, axis=0)
-        i1 = np.append(i1sm, i1lg, axis=0)
+        i0, i1 = np.empty(x.shape), np.empty(x.shape)
+        i0[sm], i0[lg] = i0sm, i0lg
+        i1[sm], i1[lg] = i1sm, i1lg
     else:
         if xsm.shape[0] == 0:
             i0lg = -np.log(2*xlg) + np.log(1-np.exp(-2*xlg)) + xlg
-- 
2.43.0


From e6dd9ddc6c1e396b94d4fd8a03f82fd27bb50800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:59 +0000
Subject: [PATCH 02/36] fix: truncate the Bessel continued fraction according
 to the largest argument

---
 CasimirRio/bessel_sk.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/bessel_sk.py b/CasimirRio/bessel_sk.py
index a268b50..dd308ea 100644
--- a/CasimirRio/bessel_sk.py
+++ b/CasimirRio/bessel_sk.py
@@ -46,8 +46,10 @@ def fnu(x, nu):
 
     """
     Nmax = 80
-    if x[-1] > 100:
-        Nmax = 140
+    xmax = np.max(x)
+    if xmax > 100:
+        # the number of terms needed for convergence grows like sqrt(x)
+        Nmax = max(140, int(6*np.sqrt(xmax)))
     n = np.arange(1, Nmax+1).reshape(1, Nmax)
     x = x[..., np.newaxis]
     an = 2 * (nu + n) / x
-- 
2.43.0


From 533cc8a9ce96f6a71d26ee9e25b201846f98cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:59 +0000
Subject: [PATCH 03/36] fix: zero-frequency blockmatrices used np.float, which
 is gone and never took arrays

---
 CasimirRio/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 6e4b0d9..56da6a2 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -230,7 +230,7 @@ class SphereSphere:
         l1 = np.arange(lmin, self.lmax+1)[:, np.newaxis, np.newaxis]
         l2 = l1.transpose(1,0,2)
         lss = np.arange(lmin, self.lssmax+1)[np.newaxis, np.newaxis, :]
-        sgn = (-1)**np.float(lss-l1)        
+        sgn = (-1.0)**(lss-l1)        
         a_TEsgn, a_TMsgn, a_ln = MieA
         b_TEsgn, b_TMsgn, b_ln = MieB
         distance_dep = np.log(r1/r2) + l1*np.log(r1/L)+2*lss*np.log(L/r2) + l2*np.log(r1/L)
@@ -261,7 +261,7 @@ class SphereSphere:
         lmin = max(m, 1)
         l1 = np.arange(lmin, self.lmax+1)[:, np.newaxis, np.newaxis]
         l2 = l1.transpose(1,0,2)
-        lss = np.arange(lmin, self.lssmax+1, dtype = np.float)[np.newaxis, np.newaxis, :]
+        lss = np.arange(lmin, self.lssmax+1, dtype = float)[np.newaxis, np.newaxis, :]
         sgn = (-1)**(lss-l2)        
         a_TEsgn, a_TMsgn, a_ln = MieA
         b_TEsgn, b_TMsgn, b_ln = MieB
-- 
2.43.0


From 155d6d7b053c62739531f58156428c19e6e2bba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:48 +0000
Subject: [PATCH 04/36] fix: zero-frequency internal TE coefficient of a plasma
 had a spurious factor and ignored lmin

---
 CasimirRio/scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/scattering.py b/CasimirRio/scattering.py
index 10306f7..511ba6b 100644
--- a/CasimirRio/scattering.py
+++ b/CasimirRio/scattering.py
@@ -237,8 +237,8 @@ class scattering:
             except IndexError:
                 wPR_c = np.array([0])
             if not self.mat2.is_sigma_finite:
-                k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, :]
-                k_ratio = np.exp(k_wp[0:-1]-k_wp[1:])*wPR_c/(2*l-1)#k_wp[0:-1]/k_wp[1:]*wPR_c/(2*l-1)
+                k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, lmin-1:]
+                k_ratio = np.exp(k_wp[0:-1]-k_wp[1:])
                 k_fracterm = -l-wPR_c*k_ratio
                 bTE = (-(mu0_e*l + mu0_i*k_fracterm )
                        /( (l+1)*mu0_e - mu0_i*k_fracterm )
-- 
2.43.0


From 78fc6a02cb80e31fa68acc6e183f56af758c2c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:29 +0000
Subject: [PATCH 05/36] fix: zero-frequency TE coefficients took the plasma
 frequency from the first oscillator only

---
 CasimirRio/scattering.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/scattering.py b/CasimirRio/scattering.py
index 511ba6b..dcd17e9 100644
--- a/CasimirRio/scattering.py
+++ b/CasimirRio/scattering.py
@@ -9,6 +9,14 @@ from scipy.special import gammaln
 import bessel_sk
 from helper_functions import ln_2dbl, lfac
 
+def plasma_wavenumber(material):
+    """zero-frequency limit of k*sqrt(epsilon(k)*mu(k)) in 1/micron. Only
+       undamped zero-frequency oscillators contribute to this limit
+
+    """
+    wP2 = sum([p[0]**2 for p in material.e_properties if p[1] == 0 and p[2] == 0])
+    return np.sqrt(material.mu(np.array([0]))*wP2)/2.998e14
+
 class scattering:
     def __init__(self, mat1, mat2):
         """Mie scattering at a solid sphere of material mat1 which is 
@@ -61,7 +69,7 @@ class scattering:
             mu0_sp = self.mat1.mu(k)
             wPR_c = np.array([0])
             try:
-                wPR_c = np.array([self.mat1.e_properties[0][0]*R/2.998e14]) 
+                wPR_c = plasma_wavenumber(self.mat1)*R
             except IndexError:
                 wPR_c = np.array([0])
             if not self.mat1.is_sigma_finite:
@@ -233,7 +241,7 @@ class scattering:
         bTM = l/(l+1)
         if not self.mat2.is_perfect_conductor:
             try:
-                wPR_c = np.array([self.mat2.e_properties[0][0]*R/2.998e14]) 
+                wPR_c = plasma_wavenumber(self.mat2)*R
             except IndexError:
                 wPR_c = np.array([0])
             if not self.mat2.is_sigma_finite:
-- 
2.43.0


From 19334fd44fb601c41c71c8c429e7427214f63ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:29 +0000
Subject: [PATCH 06/36] fix: round-trip elements of an m>1 subspace were wrong
 when evaluated first for a wavenumber array

---
 CasimirRio/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 56da6a2..e1aa467 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -166,7 +166,7 @@ class SphereSphere:
                      ]
 
             V.extend(Vdiff)
-        return [mieA, mieB, V]
+        return [mieA[:, :, lmin-1::, :, :], mieB[:, :, :, :, lmin-1::], V]
 
     def roundTrip_elements_k0(self, m, k):
         """Collect all necessyary Mie-coefficients and translation matrices
-- 
2.43.0


From 7b41863396d08daae25d0222f1dc8347f669877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:29 +0000
Subject: [PATCH 07/36] fix: zero-frequency Mie coefficients were cached for
 the first m only

---
 CasimirRio/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index e1aa467..5fe637b 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -198,14 +198,14 @@ class SphereSphere:
                 raise NotImplementedError("Evaluation of the zeroth Matsubara frequency"+
                                           " is not yet implemented for stratified spheres")
             self.MieA_k0 = scattering(self.mat1, self.mat3
-                                   ).mie_k0(lmin, self.lmax, self.r1
+                                   ).mie_k0(1, self.lmax, self.r1
                                          )[:, :, np.newaxis, np.newaxis]
             if not self.ext_flag:
                 self.MieB_k0 = scattering(self.mat3, self.mat2
-                    ).mie_internal_k0(lmin, self.lssmax, self.r2)[:, np.newaxis, np.newaxis,:]
+                    ).mie_internal_k0(1, self.lssmax, self.r2)[:, np.newaxis, np.newaxis,:]
             else:
                 self.MieB_k0 = scattering(self.mat2, self.mat3
-                             ).mie_k0(lmin, self.lssmax, self.r2)[:,np.newaxis, np.newaxis,:]
+                             ).mie_k0(1, self.lssmax, self.r2)[:,np.newaxis, np.newaxis,:]
             mieA_k0 = self.MieA_k0
             mieB_k0 = self.MieB_k0
         V_k0 = translation(self.lmax, self.lssmax, m, self.mat3, self.L, k,
@@ -217,7 +217,7 @@ class SphereSphere:
                                       "is not implemented, yet.")
 
             V.extend(Vdiff)
-        return [mieA_k0, mieB_k0, V_k0]
+        return [mieA_k0[:, lmin-1::, :, :], mieB_k0[:, :, :, lmin-1::], V_k0]
 
     def blockmatrices_k0_int(self, m):
         """ Returns a list of two blockmatrices corresponding to a subspace
-- 
2.43.0


From ed1b941be62637d3f7629ff90ddcdf749a137abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:29 +0000
Subject: [PATCH 08/36] fix: CoatedSphereSphere passed its arguments to the
 wrong parameters

---
 CasimirRio/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 5fe637b..8a430d5 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -608,7 +608,8 @@ class CoatedSphereSphere(SphereSphere):
     def __init__(self, r1_i, r1_a, mat1_core, mat1_coat, r2_i, r2_a,
                  mat2_core, mat2_coat, L, matMd, lmax, lssmax, forceFlag=0):
         SphereSphere.__init__(self, r1_a, r2_a, L, mat1_coat, mat2_coat,
-                               matMd, lmax, lssmax, forceFlag)
+                               matMd, lmax, lssmax=lssmax,
+                               forceFlag=forceFlag)
         self.r1_i = r1_i
         self.r2_i = r2_i
         self.r1_a = r1_a
@@ -635,11 +636,11 @@ class CoatedSphereSphere(SphereSphere):
         else:
             self.MieA = coated_miescattering(
                 self.mat1core, self.mat1coat, self.matMd
-                ).mie_coated(k, self.lmax, self.r1_i,
+                ).mie_coated(k, 1, self.lmax, self.r1_i,
                              self.r1_a)[..., np.newaxis, np.newaxis]
             self.MieB = coated_miescattering(self.mat2core, self.mat2coat,
                                              self.matMd).mie_coated(
-                k, self.lssmax, self.r2_i, self.r2_a)
+                k, 1, self.lssmax, self.r2_i, self.r2_a)
             self.MieB = np.append(self.MieB[0:2][:, :, np.newaxis,
                                                  np.newaxis, :]**ext_VZ,
                                   self.MieB[2][np.newaxis, :, np.newaxis,
-- 
2.43.0


From 46f786865c1c8925b19bd20e7eb3dd3ace8b3782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:55 +0000
Subject: [PATCH 09/36] fix: zero-frequency round trips of CoatedSphereSphere
 ignored the cores

---
 CasimirRio/geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 8a430d5..aa00031 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -666,6 +666,10 @@ class CoatedSphereSphere(SphereSphere):
             V.extend(Vdiff)
         return [mieA[:, :, lmin-1::, :, :], mieB[:, :, :, :, lmin-1::], V]
 
+    def roundTrip_elements_k0(self, m, k):
+        raise NotImplementedError("Evaluation of the zeroth Matsubara frequency"+
+                                  " is not yet implemented for coated spheres")
+
 
 def dot_3d_matrices(a, b):
     """determine the matrix product of three-dimensional matrices a and b
-- 
2.43.0


From f6f38293fbd533c7e9d875e9573c0fd3a1a2fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:55 +0000
Subject: [PATCH 10/36] fix: no analytic zero-frequency term for
 CoatedSphereSphere

---
 CasimirRio/thermodynamics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index d88fe6a..279bf7c 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -32,7 +32,8 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
                              but given was", nprocs)
         self.nprocs = nprocs
         self.analytic_n0 = analytic_n0
-        if type(geom.mat1) == list or type(geom.mat2) == list:
+        if (type(geom.mat1) == list or type(geom.mat2) == list or
+            isinstance(geom, geometry.CoatedSphereSphere)):
             self.analytic_n0 = False
         self.nmax = nmax# ??? Was ist wenn nmax<maxstep gewählt ist?
         self.Tmax = Tmax
-- 
2.43.0


From a4b08babeb82c71b8f44ac9d3e8bc665aa95ebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:55 +0000
Subject: [PATCH 11/36] fix: stratified scattering removed layers from the
 lists of the caller

---
 CasimirRio/stratified_sphere_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/stratified_sphere_scattering.py b/CasimirRio/stratified_sphere_scattering.py
index 8c0cb0d..89f08de 100644
--- a/CasimirRio/stratified_sphere_scattering.py
+++ b/CasimirRio/stratified_sphere_scattering.py
@@ -26,8 +26,8 @@ class StratifiedMieScattering(scattering):
     def __init__(self, mat_list, r_list):  # nCore, nCoating, nMedium
         try:
             if type(mat_list) == list and type(r_list) == list:
-                self.mat_list = mat_list
-                self.r_list = r_list
+                self.mat_list = list(mat_list)
+                self.r_list = list(r_list)
                 assert(len(r_list)==len(mat_list)-1)
                 scattering.__init__(self, mat_list[0], mat_list[1])
         except:
-- 
2.43.0


From 43ebec5202428420c7bf5b9df458bd50d25b8c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:55 +0000
Subject: [PATCH 12/36] fix: translation ignored the permeability of the medium

---
 CasimirRio/translation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/translation.py b/CasimirRio/translation.py
index e4fb086..c9e6dd0 100644
--- a/CasimirRio/translation.py
+++ b/CasimirRio/translation.py
@@ -51,7 +51,7 @@ class translation:
             self.trans_k0 = self.trans_k0_int
         if not (k == 0).any():
             self.bessels = bessel_sk.trans_bessels(self.k*self.L*
-                 np.sqrt(self.medium.epsilon(self.k)), self.lmax+self.lssmax+1, self.ext_flag)
+                 np.sqrt(self.medium.epsilon(self.k)*self.medium.mu(self.k)), self.lmax+self.lssmax+1, self.ext_flag)
         self.forceFlag = forceFlag
         if self.forceFlag:
             self.get_vl1l2 = self.get_vl1l2_force
@@ -181,7 +181,7 @@ class translation:
         lppmax = l1+l2
         lpp = np.arange(abs(l1-l2), lppmax+1, 2)[np.newaxis, :]
         gaunt = self.gnt(l1, l2, self.m)
-        nL = (self.k*self.L*np.sqrt(self.medium.epsilon(self.k)))[:, np.newaxis]
+        nL = (self.k*self.L*np.sqrt(self.medium.epsilon(self.k)*self.medium.mu(self.k)))[:, np.newaxis]
         sphB, skalierung = self.get_scaled_bessels(l1, l2, lpp)
         sphB_gnt = sphB * gaunt
         sgn_ba = (-1)**lpp
-- 
2.43.0


From 8c57020169861bd1b3836410f85e55dde0527588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:55 +0000
Subject: [PATCH 13/36] fix: single round-trip evaluation used xrange and
 returned the negative of ln det

---
 CasimirRio/geometry.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index aa00031..30a6f37 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -518,12 +518,12 @@ class SphereSphere:
 
     def mSum_oneRoundtrip(self, matsubaras, mmax="automatic"):# ??? Was hat das mit der Geometrie zu tun?
         """The analog of mSumme but calculating ln det(1-M(matsubaras)) in 
-           single round-trip approximation as Trace(M(matsubaras))
+           single round-trip approximation as -Trace(M(matsubaras))
 
         """
         A, B, C, D = self.blockmatrices(0, matsubaras)
         TrM_matsubaras_m = np.array([np.trace(A[i,:,:]+D[i,:,:]) 
-                    for i in xrange(len(matsubaras))])
+                    for i in range(len(matsubaras))])
         th_m_max = round(np.log(self.precision)/np.log(0.5))
         if mmax == "automatic":
             mmax = round(np.log(self.precision)/np.log(0.5))
@@ -535,14 +535,14 @@ class SphereSphere:
             sh = np.shape(A)
             if sh[1] == 1:
                 TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
-                            for i in xrange(len(matsubaras))])
-                return TrM_matsubaras_m
+                            for i in range(len(matsubaras))])
+                return -TrM_matsubaras_m
 
             TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
-                                    for i in xrange(len(matsubaras))])
+                                    for i in range(len(matsubaras))])
             if m >= 1 and m >= mmax:
-                return TrM_matsubaras_m
-        return TrM_matsubaras_m
+                return -TrM_matsubaras_m
+        return -TrM_matsubaras_m
 
     def mSum_roundtrips(self, matsubaras, order="automatic", forceFlag=0):
         m = 0
-- 
2.43.0


From 9bdc3d903863f65eb73fd33117e2fea20feabb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:55 +0000
Subject: [PATCH 14/36] fix: shape errors of the matrix routines failed to
 format their ValueError

---
 CasimirRio/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 30a6f37..9878150 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -679,7 +679,7 @@ def dot_3d_matrices(a, b):
     if len(np.shape(a)) != 3 or len(np.shape(b)) != 3:
         raise ValueError("Error in geometry.dot_3d_matrices, "
                          + "one of the shapes %s and %s is "
-                         + "not three-dimensional" % (len(np.shape(a)),
+                         "not three-dimensional" % (len(np.shape(a)),
                                                       len(np.shape(b))))
     return np.einsum("ijk, ikl -> ijl", a, b)
 
@@ -696,7 +696,7 @@ def inv_3d_matrix(matrix):
     shM = np.shape(matrix)
     if not len(shM) == 3:
         raise ValueError("Error in geometry.inv_3d_matrix, "
-                         + "shape %s is not three-dimensional" % shM)
+                         + "shape %s is not three-dimensional" % str(shM))
     i_matrices = np.empty_like(matrix)
     for i in range(0, shM[0]):
         i_matrices[i] = np.linalg.inv(matrix[i])
-- 
2.43.0


From e6139198a3b3ca54d9f8d547e4109f0a0c0f67ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:57 +0000
Subject: [PATCH 15/36] fix: free energy and entropy depended on whether the
 force was computed before

---
 CasimirRio/thermodynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index 279bf7c..e4cc9f1 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -75,6 +75,7 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
         """compute the Casimir free energy times 2π/ℏc in units of micrometers
 
         """
+        self.forceFlag = 0
         if self.f_matsubaras is None:
             self.f_matsubaras = self.get_f_matsubaras(0)
         Ts = self.deltaT*np.arange(1, self.maxstep+1)
@@ -98,6 +99,7 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
         """compute the Casimir entropy in units of the Boltzmann-constant.
 
         """
+        self.forceFlag = 0
         if self.f_matsubaras is None:# ??? Was ist wenn zunächst force berechnet wurde und forceFlag jetzt auf 1 steht?
             self.f_matsubaras = self.get_f_matsubaras(0)
         S_T = - np.gradient(self.free_energy(), self.deltaT)
-- 
2.43.0


From 8a58a2b9080723316db0ac2a3562fa188e288cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:57 +0000
Subject: [PATCH 16/36] fix: numerical zero-frequency term failed when it was
 the only one requested

---
 CasimirRio/thermodynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index e4cc9f1..b7f1f19 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -159,6 +159,8 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
                 F_n_alle = self.geometry.mSumme(matsubaras[1:])
             else:
                 F_n_0 = 0.5 * self.geometry.mSumme(np.array([1e-10]))
+                if len(matsubaras) == 1:
+                    return F_n_0
                 F_n_alle = self.geometry.mSumme(matsubaras[1:])
             return np.append(F_n_0, F_n_alle)
         else:
-- 
2.43.0


From ee1cac70c2ffed2225e8756bb8f51c24fedf60e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:57 +0000
Subject: [PATCH 17/36] fix: the documented F_zero_T() was missing and
 l_konvergenz could not run

---
 CasimirRio/thermodynamics.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index b7f1f19..eb0ce77 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -117,6 +117,15 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
                                        self.geometry.mSumme(np.array([x])), a, b)
         return np.array([[F_zeroT[0], F_zeroT[1]]])
 
+    def F_zero_T(self, geom=None):
+        """compute the Casimir T=0 energy and the estimated integration error
+           for the geometry geom, by default the one of this instance
+
+        """
+        if geom is None:
+            geom = self.geometry
+        return scipy.integrate.quad(lambda x: geom.mSumme(np.array([x])), 0, np.inf)
+
     def get_f_matsubaras(self, nmin, schrittweite=50):# ??? Festlegung der schrittweite in free_energy, force,...
         """computes the ln det(1-M(k_n)) of the round-trip operator M(k_n) which depends 
            on the Matsubara wavenumbers k_n for nmin to self.nmax in slices of length
@@ -177,9 +186,9 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
 
         """
         g_lm1 = geometry.SphereSphere(r1, r2, L, mat1, mat2, mat3,
-                                       lmax1, lssmax1)
+                                       lmax1, lssmax=lssmax1)
         g_lm2 = geometry.SphereSphere(r1, r2, L, mat1, mat2, mat3,
-                                       lmax2, lssmax2)
+                                       lmax2, lssmax=lssmax2)
         f_lm1 = self.F_zero_T(g_lm1)[0]
         f_lm2 = self.F_zero_T(g_lm2)[0]
         return [(f_lm1-f_lm2) / f_lm2, f_lm1]
-- 
2.43.0


From cb56508bd9be18801ea4e4585896ddfddc630005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:57 +0000
Subject: [PATCH 18/36] fix: spheresphereForce ignored n0_shielding

---
 CasimirRio/PFA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index 45c7cba..43e25c2 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -183,7 +183,7 @@ class SphereSpherePFA:
         nenner = r1+r2
         if d < r1+r2:
             nenner = max(r1, r2)-min(r1, r2)
-        force = 2*np.pi*r1*r2/nenner*self.planeplaneFreeEnergy(T, Lrho(0))
+        force = 2*np.pi*r1*r2/nenner*self.planeplaneFreeEnergy(T, Lrho(0), n0_shielding)
         return force
 
     def distance(self, r1, r2, d, rho):
-- 
2.43.0


From b79b109b28c42648d4ea70bc73fdd90e16c3042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:57 +0000
Subject: [PATCH 19/36] fix: spheresphereEnergy integrated beyond the smaller
 sphere if r1 > r2

---
 CasimirRio/PFA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index 43e25c2..c80df46 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -171,7 +171,7 @@ class SphereSpherePFA:
         """
         Lrho = lambda rho: self.distance(r1, r2, d, rho)
         freeE = quad(lambda rho: 2*np.pi*rho*self.planeplaneFreeEnergy(T, Lrho(rho),
-                                           n0_shielding), 0, r1)[0]
+                                           n0_shielding), 0, min(r1, r2))[0]
         return freeE
 
     def spheresphereForce(self, r1, r2, T, d, n0_shielding = False):
-- 
2.43.0


From d2fb9617fbaacc890048b3b567b09d4f6a2dd50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:57 +0000
Subject: [PATCH 20/36] fix: raw_PFA.get_f_matsubaras overwrote the array of
 the caller

---
 CasimirRio/raw_PFA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CasimirRio/raw_PFA.py b/CasimirRio/raw_PFA.py
index a4dcb1f..7b4b382 100644
--- a/CasimirRio/raw_PFA.py
+++ b/CasimirRio/raw_PFA.py
@@ -107,6 +107,7 @@ class SphereSpherePFA:
         """
         assert type(matsubaras) == np.ndarray
         if matsubaras[0] == 0:
+            matsubaras = matsubaras.astype(float)
             matsubaras[0] = 1e-20
         norm = 2*np.pi
         integralTE = lambda kn: quad(
-- 
2.43.0


From 7aa61f72254d902f1befba0c4e600426ba62471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:57 +0000
Subject: [PATCH 21/36] fix: worker ignored the option analytic_n0

---
 CasimirRio/worker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index 492fae1..e2c0075 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -108,10 +108,10 @@ def do_calculation():
         if not nmax == "automatic":
             print("nmax has to be given as integer or \"automatic\"") 
     try:
-        analytic_n0 = config.get("geometry", "analytic_n0")
+        analytic_n0 = config.getboolean("geometry", "analytic_n0")
     except ValueError:
-        print("analytic_n0 is not given correctly: ", analytic_n0)
-    analytic_n0 = True
+        print("analytic_n0 is not given correctly: ", config.get("geometry", "analytic_n0"))
+        analytic_n0 = True
     if type(geom.r1) == list or type(geom.r2) == list:
         analytic_n0 = False
     Tmax = config.getfloat("thermodynamics", "Tmax")
-- 
2.43.0


From 208bc480721f0fa9cf07eab7b3e43eb49563f7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:57 +0000
Subject: [PATCH 22/36] fix: worker overwrote the result file of an earlier
 renamed job

---
 CasimirRio/worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index e2c0075..59c01aa 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -149,7 +149,7 @@ def save_result(result, foutput):
        was initially passed as the second command-line argument.
 
     """
-    if os.path.exists(foutput):
+    while os.path.exists(foutput):
         foutput += "1"
     outfile = open(foutput, "w")
     comment = job_infos()
-- 
2.43.0


From 6fa9edc1db3b30484c0034306c648438b37f4e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:57 +0000
Subject: [PATCH 23/36] fix: transform changed the parameter list of the caller

---
 CasimirRio/materials_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/materials_converter.py b/CasimirRio/materials_converter.py
index ced384a..dc0dd17 100644
--- a/CasimirRio/materials_converter.py
+++ b/CasimirRio/materials_converter.py
@@ -10,7 +10,7 @@ def transform(params):
     eV = 1.60218e-19
     hbar = 1.05457e-34
     omega_eV = eV/hbar
-    t_params = params.copy()
+    t_params = [list(osciallator) for osciallator in params]
     for i, osciallator in enumerate(params):
         t_params[i][0] = sqrt(osciallator[0]*(osciallator[1]*omega_eV)**2)
         t_params[i][1] = osciallator[1]*omega_eV
-- 
2.43.0


From f7a15e833b0cdc42948763f3a92bfae838e12cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:17 +0000
Subject: [PATCH 24/36] fix: the Casimir force was the free energy or failed,
 derivative of the translation was missing

---
 CasimirRio/geometry.py       |  8 ++++++--
 CasimirRio/thermodynamics.py |  5 +++++
 CasimirRio/translation.py    | 24 +++++++++++++++++++++++-
 3 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 9878150..9bab6d5 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -311,6 +311,7 @@ class SphereSphere:
             dct["V01"] = V[5]/V[0] + V[6]/V[1]
             dct["V23"] = V72 + V83
             dct["V03"] = V[5]/V[0] + V83
+            dct["V21"] = V72 + V[6]/V[1]
         mEE = ne.evaluate("skal * aTE*(V0*bTE*V1*V01\
                                        + V2*bTM*V3*V23)", dct).sum(axis=3)
         mEM = ne.evaluate("skal * aTE*(V0*bTE*V3*V03\
@@ -362,6 +363,7 @@ class SphereSphere:
             dct["V01"] = V[5]/V[0] + V[6]/V[1]
             dct["V23"] = V72 + V83
             dct["V03"] = V[5]/V[0] + V83
+            dct["V21"] = V72 + V[6]/V[1]
         mEE1 = ne.evaluate("skal * aTE*(V0*bTE*V1*V01)", dct).sum(axis=3)
         mEE2 = ne.evaluate("skal * aTE*(V2*bTM*V3*V23)", dct).sum(axis=3)
         mEM1 = ne.evaluate("skal * aTE*(V0*bTE*V3*V03)", dct).sum(axis=3)
@@ -584,8 +586,9 @@ class SphereSphere:
            matrices returned by the blockmatrices() method.
 
         """
-        self.forceFlag = forceFlag
+        previous, self.forceFlag = self.forceFlag, forceFlag
         Ms = self.blockmatrices(m, matsubaras)
+        self.forceFlag = previous
         bigM = np.append(Ms[0], Ms[1], axis=2)
         bigM = np.append(bigM, np.append(Ms[2], Ms[3], axis=2), axis=1)
         return bigM
@@ -599,7 +602,8 @@ class SphereSphere:
             bigM = self.supermatrix(m, matsubaras, 0)
             bigM_force = self.supermatrix(m, matsubaras, 1)
             mSum += 2*trace_dot_3d(bigM, bigM_force)
-            if abs(abs(vorher/mSum)-1).all() < 1e-5:
+            max_id = np.abs(mSum).argmax()
+            if abs(mSum[max_id]-vorher[max_id]) < self.precision/10*abs(mSum[max_id]):
                 return mSum
         return mSum
 
diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index eb0ce77..5eaf91f 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -166,6 +166,11 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
                 if len(matsubaras) == 1:
                     return F_n_0
                 F_n_alle = self.geometry.mSumme(matsubaras[1:])
+            elif self.forceFlag:
+                F_n_0 = 0.5 * self.geometry.mSum_trace_dot(np.array([1e-10]))
+                if len(matsubaras) == 1:
+                    return F_n_0
+                F_n_alle = self.geometry.mSum_trace_dot(matsubaras[1:])
             else:
                 F_n_0 = 0.5 * self.geometry.mSumme(np.array([1e-10]))
                 if len(matsubaras) == 1:
diff --git a/CasimirRio/translation.py b/CasimirRio/translation.py
index c9e6dd0..5b87132 100644
--- a/CasimirRio/translation.py
+++ b/CasimirRio/translation.py
@@ -199,4 +199,26 @@ class translation:
         return [vEE_ab.sum(axis=-1), vEE_ba.sum(axis=-1),
                 vEM_ab.sum(axis=-1), vEM_ba.sum(axis=-1), skalierung]
 
-
+    def get_vl1l2_force(self, l1, l2):
+        """ Derivatives of the translation coefficients returned by get_vl1l2
+            with respect to the distance "L". The scaling is the same.
+        """
+        lpp = np.arange(abs(l1-l2), l1+l2+1, 2)[np.newaxis, :]
+        nk = (self.k*np.sqrt(self.medium.epsilon(self.k)*self.medium.mu(self.k)))[:, np.newaxis]
+        nL = nk*self.L
+        sphB, skalierung = self.get_scaled_bessels(l1, l2, lpp)
+        # x*b'(x) for b = K (exterior) or b = I (interior)
+        upper = np.exp(self.bessels[:, lpp.flatten()+1] - skalierung[:, np.newaxis])
+        x_diff = lpp*sphB + (1-2*self.ext_flag)*nL*upper
+        sgn_ba = (-1)**lpp
+        sgn_int_ext = (-1)**(lpp-(lpp-1)*self.ext_flag)
+        l1p = l1*(l1+1)
+        l2p = l2*(l2+1)
+        common_ab = (sgn_int_ext * (-1)**self.m * np.sqrt(np.pi) * self.gnt(l1, l2, self.m)
+                     * np.sqrt((2*lpp+1) / (l1p*l2p)))*(2/np.pi)**(self.ext_flag)
+        vEE_ab = (l1p + l2p -lpp*(lpp+1)) * common_ab * x_diff/self.L
+        vEM_ab = 2 * self.m * nk * common_ab * (sphB + x_diff)
+        vEE_ba = vEE_ab * sgn_ba
+        vEM_ba = - vEM_ab * sgn_ba
+        return [vEE_ab.sum(axis=-1), vEE_ba.sum(axis=-1),
+                vEM_ab.sum(axis=-1), vEM_ba.sum(axis=-1), skalierung]
-- 
2.43.0


From 8f45d77e4c7ade5735383ac3ad1e0af8b9e43640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:27 +0000
Subject: [PATCH 25/36] fix: Gaunt coefficients of large orders with l != l'
 and large m were lost to an unstable recursion

---
 CasimirRio/cython_gaunt.pyx | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/CasimirRio/cython_gaunt.pyx b/CasimirRio/cython_gaunt.pyx
index 2c5affc..dcbda3f 100644
--- a/CasimirRio/cython_gaunt.pyx
+++ b/CasimirRio/cython_gaunt.pyx
@@ -14,6 +14,9 @@ cdef extern from "math.h":
 cdef extern from "math.h":
     double log(double x)
 
+cdef extern from "math.h":
+    double fabs(double x)
+
 @cython.cdivision(True)
 @cython.boundscheck(False)
 def gaunt(int l, int lp, int m):
@@ -28,6 +31,9 @@ def gaunt(int l, int lp, int m):
     cdef int idx
     cdef double p
     cdef double amax
+    cdef int match
+    cdef double lpp_turn
+    cdef np.ndarray[np.float64_t, ndim=1] ups
     cdef double M_PI = 3.14159265358979328462
     cdef np.ndarray[np.float64_t, ndim=1] gaunts = np.zeros(gauntdim, np.float64)
         
@@ -59,6 +65,21 @@ def gaunt(int l, int lp, int m):
                         alphas[2*idx+2])*gaunts[idx+1] -
                        alphas[2*idx+3]*gaunts[idx+2])/
             (alphas[2*idx]))
+    # The recursion is unstable for lpp below the classically allowed region,
+    # where the coefficients are obtained from an upward recursion.
+    lpp_turn = fabs(sqrt((l+0.5)*(l+0.5)-1.0*m*m)-sqrt((lp+0.5)*(lp+0.5)-1.0*m*m))-0.5
+    match = 0
+    while match < gauntdim-1 and lppmin+2*match < lpp_turn:
+        match += 1
+    if match > 0:
+        ups = np.ones(match+1)
+        ups[1] = (4.0*m*m+alphas[0])/alphas[1]
+        for idx in range(2, match+1):
+            ups[idx] = (((4.0*m*m+alphas[2*idx-3]+alphas[2*idx-2])*ups[idx-1] -
+                         alphas[2*idx-4]*ups[idx-2])/
+                        alphas[2*idx-1])
+        for idx in range(match):
+            gaunts[idx] = ups[idx]*(gaunts[match]/ups[match])
     # Gaunt coefficients Y^(lpp, l, lp)_(0, m, -m) as defined in
     # Rasch et al. (4.1)
     for idx in range(gauntdim):
-- 
2.43.0


From a82438a295d6ced5426874ea7ffa1cc5030aafbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:52 +0000
Subject: [PATCH 26/36] fix: continued fraction of the Bessel functions
 exceeded the recursion limit for large arguments

---
 CasimirRio/bessel_sk.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/bessel_sk.py b/CasimirRio/bessel_sk.py
index dd308ea..8b4c998 100644
--- a/CasimirRio/bessel_sk.py
+++ b/CasimirRio/bessel_sk.py
@@ -35,9 +35,10 @@ def fraction(x):
            http://dx.doi.org/10.2307/2006491
 
     """
-    if len(x[0, :]) == 1:
-        return x[:, 0]
-    return x[:, 0] + 1 / fraction(x[:, 1::])
+    value = x[:, -1]
+    for i in range(x.shape[1]-2, -1, -1):
+        value = x[:, i] + 1 / value
+    return value
 
 def fnu(x, nu):
     """returns I(nu, x)/I(nu+1, x)
-- 
2.43.0


From 08cd2a3ad6147112b4e8e0d32b3a89358c7f2c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:01 +0000
Subject: [PATCH 27/36] fix: automatic truncation gave the larger sphere too
 few multipoles when it is the first one

---
 CasimirRio/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 9bab6d5..b5a19f7 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -74,6 +74,9 @@ class SphereSphere:
             self.lmax = get_lmax(r1, r2, L, precision, self.l_offset)
         if lssmax == "automatic":
             self.lssmax = int(max(r1,r2)/min(r1,r2)*self.lmax)
+            if lmax == "automatic" and r1 > r2:
+                # lmax belongs to sphere 1, which is the larger one here
+                self.lmax = self.lssmax
 
         if self.L > r1 + r2:
             self.ext_flag = 1.
-- 
2.43.0


From 626f331761c9d2c73ea259efa9475c6e89208f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:25 +0000
Subject: [PATCH 28/36] fix: single round-trip free energy failed when the
 zero-frequency term is the only one

---
 CasimirRio/thermodynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index 5eaf91f..6605437 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -210,6 +210,8 @@ class oneRoundtrip(finiteT):
         if matsubaras[0] == 0.:
             if not self.forceFlag:
                 F_n_0 = 0.5 * self.geometry.mSum_oneRoundtrip(np.array([1e-10]))
+                if len(matsubaras) == 1:
+                    return F_n_0
                 F_n_alle = self.geometry.mSum_oneRoundtrip(matsubaras[1:])
             else:
                 F_n_0 = 0.5 * self.geometry.mSum_trace_dot_oneRoundtrip(np.array([1e-10]))
-- 
2.43.0


From 0576c3f737099c13540e2b372a68c915bf372347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:25 +0000
Subject: [PATCH 29/36] fix: blockmatrices failed when zero frequency is the
 only one

---
 CasimirRio/geometry.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index b5a19f7..b7e1301 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -294,6 +294,11 @@ class SphereSphere:
         if matsubaras[0] == 0:
             k0_evaluation = True
             matsubaras = matsubaras[1:]
+            if len(matsubaras) == 0:
+                mEE_k0, mMM_k0 = self.blockmatrices_k0(m)
+                mEE_k0, mMM_k0 = mEE_k0[np.newaxis,...], mMM_k0[np.newaxis,...]
+                zeros = np.zeros(mEE_k0.shape)
+                return [mEE_k0, zeros, zeros.copy(), mMM_k0]
         MieA, MieB, V = self.roundTrip_elements(m, matsubaras)
         V[4] = V[4][..., np.newaxis]
         dct = {"aTE": MieA[0], "V0": V[0], "bTE": MieB[0], "V1": V[1],
@@ -346,6 +351,11 @@ class SphereSphere:
         if matsubaras[0] == 0:
             k0_evaluation = True
             matsubaras = matsubaras[1:]
+            if len(matsubaras) == 0:
+                mEE_k0, mMM_k0 = self.blockmatrices_k0(m)
+                mEE_k0, mMM_k0 = mEE_k0[np.newaxis,...], mMM_k0[np.newaxis,...]
+                zeros = np.zeros(mEE_k0.shape)
+                return [mEE_k0, zeros, mMM_k0] + [zeros.copy() for i in range(5)]
         MieA, MieB, V = self.roundTrip_elements(m, matsubaras)
         V[4] = V[4][..., np.newaxis]
         dct = {"aTE": MieA[0], "V0": V[0], "bTE": MieB[0], "V1": V[1],
-- 
2.43.0


From e483c36a0409f697cf8ab82171043420bf96ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:17 +0000
Subject: [PATCH 30/36] fix: plane-plane pressure was half of the negative
 derivative of the free energy

---
 CasimirRio/PFA.py     | 8 ++++----
 CasimirRio/raw_PFA.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index c80df46..c3329a1 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -41,8 +41,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE), 
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE), 
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def pressureRoundTrip(self, k_perp, kn, L):
@@ -54,8 +54,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE)+
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE)+
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def planeplaneFreeEnergyHT(self, L, n0_shielding = False):
diff --git a/CasimirRio/raw_PFA.py b/CasimirRio/raw_PFA.py
index 7b4b382..dc74d1d 100644
--- a/CasimirRio/raw_PFA.py
+++ b/CasimirRio/raw_PFA.py
@@ -30,8 +30,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE), 
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE), 
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def planeplaneFreeEnergyHT(self, L, n0_shielding = False):
-- 
2.43.0


From c93f2d211c9b362244392541d656f0bfd4369b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:29 +0000
Subject: [PATCH 31/36] fix: worker failed for "lmax: automatic" without the
 optional l_offset

---
 CasimirRio/worker.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index 59c01aa..712ca18 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -59,11 +59,6 @@ def return_geometry():
         lmax = config.getint("geometry", "lmax")
     except ValueError:
         lmax = config.get("geometry", "lmax")
-        if lmax == "automatic":
-            try:
-                l_offset = config.getint("geometry", "l_offset")
-            except ValueError:
-                l_offset = None      
         if not lmax == "automatic":
             print("lmax has to be given as integer or \"automatic\"") 
     try:
-- 
2.43.0


From ee9c8ddcc73a1de7a003cc679dc4f7e97e9107fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:15 +0000
Subject: [PATCH 32/36] fix: sum over projections ended at once when the m=0
 term rounds to zero, dropping the larger m>0 terms

---
 CasimirRio/geometry.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index b7e1301..fd7672d 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -519,14 +519,12 @@ class SphereSphere:
         lnDet_matsubaras_m = balanced_slogdet(M, conv)
         for m in range(1, self.lmax+1):
             vorher = lnDet_matsubaras_m.copy()
-            max_id = np.abs(vorher).argmax() 
-            if vorher[max_id] == 0 and m>=1:
-                return lnDet_matsubaras_m  
             M = matrix_append(self.blockmatrices(m, matsubaras))
             eins = np.eye(M.shape[1])[np.newaxis,:,:]
             lnDet_matsubaras_m += 2*balanced_slogdet(M, conv)
-            rel_change = np.abs(np.abs(lnDet_matsubaras_m[max_id]/vorher[max_id])-1)
-            if rel_change < self.precision/10:
+            max_id = np.abs(lnDet_matsubaras_m).argmax()
+            change = np.abs(lnDet_matsubaras_m[max_id]-vorher[max_id])
+            if change <= self.precision/10*np.abs(vorher[max_id]):
                 return lnDet_matsubaras_m
         return lnDet_matsubaras_m
 
-- 
2.43.0


From 05276b0f404689be49d49de237cecee64c6a2ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:26 +0000
Subject: [PATCH 33/36] fix: logarithm of the first-order regular Bessel
 function lost up to ten digits for small arguments

---
 CasimirRio/bessel_sk.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/CasimirRio/bessel_sk.py b/CasimirRio/bessel_sk.py
index 8b4c998..8ec8cf9 100644
--- a/CasimirRio/bessel_sk.py
+++ b/CasimirRio/bessel_sk.py
@@ -72,29 +72,21 @@ def lniknu(x, lmax):
     if not xsm.shape[0] == 0 and not xlg.shape[0] == 0:
         i0sm = xsm**2/6 - xsm**4/180 + xsm**6/2835
         i0lg = -np.log(2*xlg) + np.log(1-np.exp(-2*xlg)) + xlg
-        i1sm = -np.log(3)+np.log(xsm)+0.1*xsm**2-xsm**4/700
-        i1lg = -np.log(2*xlg) -np.log(xlg) + xlg + np.log(np.exp(-2*xlg)*(xlg+1)+xlg-1)
-        i0, i1 = np.empty(x.shape), np.empty(x.shape)
+        i0 = np.empty(x.shape)
         i0[sm], i0[lg] = i0sm, i0lg
-        i1[sm], i1[lg] = i1sm, i1lg
     else:
         if xsm.shape[0] == 0:
             i0lg = -np.log(2*xlg) + np.log(1-np.exp(-2*xlg)) + xlg
-            i1lg = -np.log(2*xlg) -np.log(xlg) + xlg + np.log(np.exp(-2*xlg)*(xlg+1)+xlg-1)
-            i0, i1 = i0lg, i1lg
+            i0 = i0lg
         if xlg.shape[0] == 0:
             i0sm = xsm**2/6-xsm**4/180
-            i1sm = -np.log(3)+np.log(xsm)+0.1*xsm**2
-            i0, i1 = i0sm, i1sm
+            i0 = i0sm
     lni[:, 0] = i0
     lnk = lnknu(x, lmax+1)
     if lmax == 0:
         return lni, lnk[:,0:1]
-    lni[:, 1] = i1
-    if lmax == 1:
-        return lni, lnk[:,0:2]
-
-    for l in range(2, lmax+1):
+    # the closed form of the first order loses digits for small arguments
+    for l in range(1, lmax+1):
         f = fnu(x, l+0.5)
         lni[:, l] = np.log(np.pi/(2*x**2)) - lnk[:,l+1] \
                     -np.log(np.exp(lnk[:,l]-lnk[:,l+1])/f + 1)
-- 
2.43.0


From 2c93c3c0318f48064686928719f7d66ff2523faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:16 +0000
Subject: [PATCH 34/36] fix: Gaunt coefficients of large orders and projections
 vanished because the starting value of their recursion underflowed

---
 CasimirRio/cython_gaunt.pyx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/CasimirRio/cython_gaunt.pyx b/CasimirRio/cython_gaunt.pyx
index dcbda3f..be52845 100644
--- a/CasimirRio/cython_gaunt.pyx
+++ b/CasimirRio/cython_gaunt.pyx
@@ -30,7 +30,7 @@ def gaunt(int l, int lp, int m):
     cdef np.ndarray[np.float64_t, ndim=1] alphas = np.zeros(alphadim, np.float64)
     cdef int idx
     cdef double p
-    cdef double amax
+    cdef double lnamax
     cdef int match
     cdef double lpp_turn
     cdef np.ndarray[np.float64_t, ndim=1] ups
@@ -46,7 +46,8 @@ def gaunt(int l, int lp, int m):
         p = idx+lppmin+1.0
         alphas[idx] = (p*p-a2)*(p*p-b2)/(4.0*p*p-1)
     # Gaunt coefficient for maximal lpp according to Xu (4)
-    amax = exp(lgamma(2*l+1)+lgamma(2*lp+1)+2*lgamma(lppmax+1) -
+    # as logarithm, since it can be smaller than any floating point number
+    lnamax = (lgamma(2*l+1)+lgamma(2*lp+1)+2*lgamma(lppmax+1) -
                lgamma(l+1)-lgamma(lp+1)-lgamma(2*lppmax+1) -
                lgamma(l-m+1)-lgamma(lp+m+1)+
                 0.5*(lgamma(l-m+1)+lgamma(lp+m+1) -
@@ -55,9 +56,9 @@ def gaunt(int l, int lp, int m):
                 )
     # normalized Gaunt coefficients as defined in Bruning (3.8) and Xu (1)
     gaunts = np.zeros(gauntdim)
-    gaunts[gauntdim-1] = amax
+    gaunts[gauntdim-1] = 1.0
     if gauntdim > 1:
-        gaunts[gauntdim-2] = amax*((2.0*lppmax-3.0)*
+        gaunts[gauntdim-2] = ((2.0*lppmax-3.0)*
                                    (l*lp-m**2.0*(2.0*lppmax-1.0))/
                                    ((2.0*l-1.0)*(2.0*lp-1.0)*lppmax))
     for idx in range(gauntdim-3, -1, -1):
@@ -65,6 +66,10 @@ def gaunt(int l, int lp, int m):
                         alphas[2*idx+2])*gaunts[idx+1] -
                        alphas[2*idx+3]*gaunts[idx+2])/
             (alphas[2*idx]))
+        if fabs(gaunts[idx]) > 1e200:
+            gaunts *= 1e-200
+            lnamax += 200*log(10.0)
+    gaunts *= exp(lnamax)
     # The recursion is unstable for lpp below the classically allowed region,
     # where the coefficients are obtained from an upward recursion.
     lpp_turn = fabs(sqrt((l+0.5)*(l+0.5)-1.0*m*m)-sqrt((lp+0.5)*(lp+0.5)-1.0*m*m))-0.5
-- 
2.43.0


From 800f0283e28a7088ef34dbee09e6a507d34b89a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:48 +0000
Subject: [PATCH 35/36] fix: balancing a matrix did not end when squares of its
 entries overflowed

---
 CasimirRio/matrix_balancing.pyx | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/CasimirRio/matrix_balancing.pyx b/CasimirRio/matrix_balancing.pyx
index ccd75ee..cd1d5f8 100644
--- a/CasimirRio/matrix_balancing.pyx
+++ b/CasimirRio/matrix_balancing.pyx
@@ -1,6 +1,7 @@
 import numpy as np
 cimport numpy as np
 cimport cython
+from libc.math cimport hypot, isfinite, sqrt
 
 @cython.cdivision(True)
 @cython.boundscheck(False)
@@ -13,6 +14,7 @@ def balance(np.ndarray[np.float64_t, ndim=2] matrix, double conv = 0.95):
     cdef double c = 0
     cdef double f = 0
     cdef double s = 0
+    cdef double d = 0
     cdef int converged = 0
     while converged == 0:
         converged = 1
@@ -20,12 +22,10 @@ def balance(np.ndarray[np.float64_t, ndim=2] matrix, double conv = 0.95):
             r, c = 0.0, 0.0
             for j in range(n):
                 if not j == i:
-                    c += abs(matrix[j, i])**2
-                    r += abs(matrix[i, j])**2
-            if not(abs(r) <= 1e-320  or abs(c) <= 1e-320):
-                s = c + r
-                c = c**0.5
-                r = r**0.5
+                    c = hypot(c, matrix[j, i])
+                    r = hypot(r, matrix[i, j])
+            if r > 1e-290 and c > 1e-290 and isfinite(r) and isfinite(c):
+                s = hypot(c, r)
                 f = 1.0
                 while c < r/beta:
                     f *= beta 
@@ -35,8 +35,10 @@ def balance(np.ndarray[np.float64_t, ndim=2] matrix, double conv = 0.95):
                     f /= beta
                     c /= beta
                     r *= beta
-                if (c**2+r**2) < conv*s:
+                if hypot(c, r) < sqrt(conv)*s:
                     converged = 0
+                    d = matrix[i, i]
                     matrix[:, i] *= f
                     matrix[i, :] /= f 
+                    matrix[i, i] = d
     return matrix
-- 
2.43.0


From 0cfe3cab39c6ae32ae4707822ee8a9d1c6a2290a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:44 +0000
Subject: [PATCH 36/36] fix: round-trip expansion of automatic order stopped at
 a vanishing trace

---
 CasimirRio/geometry.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index fd7672d..24c414d 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -580,14 +580,17 @@ class SphereSphere:
                 Matrix = np.einsum("ijk, ikl -> ijl", Matrices, Matrix)
         elif order == "automatic":
             n = 1.0
-            relchange = 1
+            small = 0
             traceSum = np.trace(Matrix,axis1=1,axis2=2)/n
             n += 1
-            while relchange > self.precision:
+            # single traces may vanish, for instance those of odd powers
+            while small < 2:
                 Matrix = np.einsum("ijk, ikl -> ijl", Matrices, Matrix)
                 to_add = np.trace(Matrix,axis1=1,axis2=2)/n
                 traceSum += to_add
-                relchange = max(abs(to_add/traceSum))
+                small += 1
+                if (abs(to_add) > self.precision*abs(traceSum)).any():
+                    small = 0
                 n += 1  
         self.roundTrip_dct[m] = n
         return -traceSum
-- 
2.43.0

