From e235f9b3612912a6ab70aecaff26a7598a445237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:15 +0000
Subject: [PATCH 1/9] fix: quintic kernel gravity terms: use the 3D
 normalisation (1/30 = 4/120) so that the softened force and potential join
 the Newtonian values at 3h, and give zeta the sign and scale of wpot -
 s*wgrav

---
 src/Headers/SmoothingKernel.h | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/Headers/SmoothingKernel.h b/src/Headers/SmoothingKernel.h
index f05c1f8..6487820 100644
--- a/src/Headers/SmoothingKernel.h
+++ b/src/Headers/SmoothingKernel.h
@@ -349,17 +349,14 @@ template <int ndim>
 inline FLOAT QuinticKernel<ndim>::wzeta(const FLOAT s)
 {
   if (s < (FLOAT) 1.0)
-    return (FLOAT) 33.0*s*s - (FLOAT) 15.0*pow(s,4) + (FLOAT) 5.0*pow(s,6) -
-      (FLOAT) 1.42857142857*pow(s,7) - (FLOAT) 34.14285714;
-  else if (s < 2.0)
-    return (FLOAT) 25.5*s*s + (FLOAT) 25.0*pow(s,3) - (FLOAT) 52.5*pow(s,4)
-      + (FLOAT) 30.0*pow(s,5) - (FLOAT) 7.5*pow(s,6)
-      + (FLOAT) 0.7142857143*pow(s,7) - 33.785714286;
+    return (1.0/30.0)*(-33.0*s*s + 15.0*pow(s,4) - 5.0*pow(s,6) +
+      (10.0/7.0)*pow(s,7) + (239.0/7.0));
+  else if (s < (FLOAT) 2.0)
+    return (1.0/30.0)*(-25.5*s*s - 25.0*pow(s,3) + 52.5*pow(s,4) - 30.0*pow(s,5) +
+      7.5*pow(s,6) - (5.0/7.0)*pow(s,7) + (473.0/14.0));
   else if (s < (FLOAT) 3.0)
-    return (FLOAT) 121.5*s*s - (FLOAT) 135.0*pow(s,3) +
-      (FLOAT) 67.5*pow(s,4) - (FLOAT) 18.0*pow(s,5) +
-      (FLOAT) 2.5*pow(s,6) - (FLOAT) 0.142857143*pow(s,7) -
-      (FLOAT) 52.07142857;
+    return (1.0/30.0)*(-121.5*s*s + 135.0*pow(s,3) - 67.5*pow(s,4) + 18.0*pow(s,5) -
+      2.5*pow(s,6) + (1.0/7.0)*pow(s,7) + (729.0/14.0));
   else
     return 0.0;
 }
@@ -374,12 +371,12 @@ template <int ndim>
 inline FLOAT QuinticKernel<ndim>::wgrav(const FLOAT s)
 {
   if (s < 1.0)
-    return (12.0/359.0)*(22.0*s - 12.0*pow(s,3) + (30.0/7.0)*pow(s,5) - (5.0/4.0)*pow(s,6));
+    return (1.0/30.0)*(22.0*s - 12.0*pow(s,3) + (30.0/7.0)*pow(s,5) - (5.0/4.0)*pow(s,6));
   else if (s < 2.0)
-    return (12.0/359.0)*(17.0*s + (75.0/4.0)*s*s - 42.0*pow(s,3) +
+    return (1.0/30.0)*(17.0*s + (75.0/4.0)*s*s - 42.0*pow(s,3) +
       25.0*pow(s,4) - (45.0/7.0)*pow(s,5) + (5.0/8.0)*pow(s,6) + (5.0/56.0)/(s*s));
   else if (s < 3.0)
-    return (12.0/359.0)*(81.0*s - (405.0/4.0)*pow(s,2) + 54.0*pow(s,3) -
+    return (1.0/30.0)*(81.0*s - (405.0/4.0)*pow(s,2) + 54.0*pow(s,3) -
       15.0*pow(s,4) + (15.0/7.0)*pow(s,5) - (1.0/8.0)*pow(s,6) - (507.0/56.0)/(s*s));
   else
     return 1.0/(s*s);
@@ -395,13 +392,13 @@ template <int ndim>
 inline FLOAT QuinticKernel<ndim>::wpot(const FLOAT s)
 {
   if (s < 1.0)
-    return (12.0/359.0)*(-11.0*s*s + 3.0*pow(s,4) - (5.0/7.0)*pow(s,6) +
+    return (1.0/30.0)*(-11.0*s*s + 3.0*pow(s,4) - (5.0/7.0)*pow(s,6) +
       (5.0/28.0)*pow(s,7) + (478.0/14.0));
   else if (s < 2.0)
-    return (12.0/359.0)*(-(17.0/2.0)*s*s - (25.0/4.0)*pow(s,3) + (21.0/2.0)*pow(s,4) -
+    return (1.0/30.0)*(-(17.0/2.0)*s*s - (25.0/4.0)*pow(s,3) + (21.0/2.0)*pow(s,4) -
       5.0*pow(s,5) + (15.0/14.0)*pow(s,6) - (5.0/56.0)*pow(s,7) + (473.0/14.0) + (5.0/56.0)/s);
   else if (s < 3.0)
-    return (12.0/359.0)*(-(81.0/2.0)*s*s + (135.0/4.0)*pow(s,3) - (27.0/2.0)*pow(s,4) +
+    return (1.0/30.0)*(-(81.0/2.0)*s*s + (135.0/4.0)*pow(s,3) - (27.0/2.0)*pow(s,4) +
       3.0*pow(s,5) - (5.0/14.0)*pow(s,6) + (1.0/56.0)*pow(s,7) + (729.0/14.0) - (507.0/56.0)/s);
   else
     return 1.0/s;
-- 
2.43.0


From a2892fd4f023ab6e7b513e2ca977d00cea7288b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:15 +0000
Subject: [PATCH 2/9] fix: Gaussian kernel womega is -(ndim*W + s*dW/ds); the
 second term lacked a factor s

---
 src/Headers/SmoothingKernel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/SmoothingKernel.h b/src/Headers/SmoothingKernel.h
index 6487820..022ffa1 100644
--- a/src/Headers/SmoothingKernel.h
+++ b/src/Headers/SmoothingKernel.h
@@ -480,7 +480,7 @@ inline FLOAT GaussianKernel<ndim>::womega(const FLOAT s)
 {
   if (s < kernrange)
     return (kernnorm)*
-      ((FLOAT) 2.0*s*exp(-s*s) - (ndim)*exp(-s*s));
+      ((FLOAT) 2.0*s*s*exp(-s*s) - (ndim)*exp(-s*s));
   else
     return (FLOAT) 0.0;
 }
-- 
2.43.0


From 2becec8cebbd42944ba0aec6f8c5ea7caa5205f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:14 +0000
Subject: [PATCH 3/9] fix: PeriodicDistanceCorrection left the correction
 uninitialised along non-periodic axes, so box overlap tests in mixed-boundary
 domains shifted boxes by garbage

---
 src/Headers/GhostNeighbours.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Headers/GhostNeighbours.hpp b/src/Headers/GhostNeighbours.hpp
index 297ea0c..80ab72f 100644
--- a/src/Headers/GhostNeighbours.hpp
+++ b/src/Headers/GhostNeighbours.hpp
@@ -174,6 +174,7 @@ public:
     type_flag PeriodicDistanceCorrection(const FLOAT dr[ndim], FLOAT dr_corr[ndim]) const
     {
       type_flag bound ;
+      for (int k=0; k<ndim; k++) dr_corr[k] = 0 ;
       if (_any_periodic)
         {
           for (int k=0; k<ndim; k++) {
@@ -186,8 +187,6 @@ public:
                 dr_corr[k] = _domain.size[k];
                 bound.set(periodic_bound_flags[k][0]) ;
               }
-              else
-                dr_corr[k] = 0 ;
             }
           }
         }
-- 
2.43.0


From 21594dc13347f0583eaffce7a34997247c195db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:45 +0000
Subject: [PATCH 4/9] fix: use-after-free when creating mirror ghosts for
 neighbour lists (reference into the vector kept across push_back)

---
 src/Headers/GhostNeighbours.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/GhostNeighbours.hpp b/src/Headers/GhostNeighbours.hpp
index 80ab72f..f6c77a7 100644
--- a/src/Headers/GhostNeighbours.hpp
+++ b/src/Headers/GhostNeighbours.hpp
@@ -410,7 +410,7 @@ private:
 	int _MakeReflectedScatterGatherGhosts(vector<ParticleType>& ngbs) const {
 	  int nc = 1 ;
 	  const int old_size = ngbs.size()-1;
-	  const ParticleType& real_particle = ngbs.back();
+	  const ParticleType real_particle = ngbs.back();  // Copy: push_back invalidates references
 	  FLOAT h2 = real_particle.hrangesqd ;
 
 	  // Loop over the possible directions for reflections
-- 
2.43.0


From e0e3a45714c738ad587c9c089253b46e0349de72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:59 +0000
Subject: [PATCH 5/9] fix: Hermite6TS snap sums all stars through the nearest
 image

The second loop of CalculateDirectGravForces overwrote a2dot with the
contribution of the last star and used the raw separation instead of the
nearest periodic image.
---
 src/Nbody/NbodyHermite6TS.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Nbody/NbodyHermite6TS.cpp b/src/Nbody/NbodyHermite6TS.cpp
index 9bd4fa4..2751639 100644
--- a/src/Nbody/NbodyHermite6TS.cpp
+++ b/src/Nbody/NbodyHermite6TS.cpp
@@ -151,6 +151,7 @@ private(a, adot, afac, aperiodic, bfac, da, dr, dr_corr, drdt, drsqd, dv, dvsqd,
       for (int k=0; k<ndim; k++) dr[k] = star[j]->r[k] - star[i]->r[k];
       for (int k=0; k<ndim; k++) dv[k] = star[j]->v[k] - star[i]->v[k];
       for (int k=0; k<ndim; k++) da[k] = star[j]->a[k] - star[i]->a[k];
+      NearestPeriodicVector(simbox, dr, dr_corr);
       drsqd = DotProduct(dr,dr,ndim) + small_number_dp;
       dvsqd = DotProduct(dv,dv,ndim);
       invdrsqd = 1.0/drsqd;
@@ -164,7 +165,7 @@ private(a, adot, afac, aperiodic, bfac, da, dr, dr_corr, drdt, drsqd, dv, dvsqd,
       afac = DotProduct(dv,dr,ndim)*invdrsqd;
       bfac = dvsqd*invdrsqd + afac*afac + DotProduct(da,dr,ndim)*invdrsqd;
 
-      for (int k=0; k<ndim; k++) star[i]->a2dot[k] =
+      for (int k=0; k<ndim; k++) star[i]->a2dot[k] +=
         star[j]->m*da[k]*invdrsqd*invdrmag - 6.0*afac*adot[k] - 3.0*bfac*a[k];
 
     }
-- 
2.43.0


From bed1f6739b48e741d200ccb466ae3d547ebe7bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:09 +0000
Subject: [PATCH 6/9] fix: polytropic equation of state reads its exponent from
 eta_eos

---
 src/Thermal/PolytropicEOS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Thermal/PolytropicEOS.cpp b/src/Thermal/PolytropicEOS.cpp
index 8e73688..a7acf4a 100644
--- a/src/Thermal/PolytropicEOS.cpp
+++ b/src/Thermal/PolytropicEOS.cpp
@@ -33,7 +33,7 @@
 template <int ndim>
 Polytropic<ndim>::Polytropic(Parameters* simparams, SimUnits *units):
   EOS<ndim>(simparams->floatparams["eta_eos"]),
-  eta(simparams->floatparams["gamma_eos"]),
+  eta(simparams->floatparams["eta_eos"]),
   Kpoly(simparams->floatparams["Kpoly"])
 {
 }
-- 
2.43.0


From b4fac94dfb1f13dd9a9843ad26dfd77e9ab8c441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:56 +0000
Subject: [PATCH 7/9] fix: gravity-only SPH forces take the neighbour's
 timestep level from the neighbour list

---
 src/GradhSph/GradhSph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index 17e7049..a0f3c8d 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -638,7 +638,7 @@ void GradhSph<ndim, kernelclass>::ComputeSphGravForces
     for (k=0; k<ndim; k++) parti.atree[k] += neibpart[j].m*dr[k]*paux;
     parti.gpot += neibpart[j].m*gaux;
 
-    parti.levelneib = max(parti.levelneib,sphdata[j].level);
+    parti.levelneib = max(parti.levelneib,neibpart[j].level);
   }
 
   //===============================================================================================
-- 
2.43.0


From 1907b37e2cd5ce42a2c9437db0fe994193e78dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:56 +0000
Subject: [PATCH 8/9] fix: Morris & Monaghan viscosity switch grows in
 compression also with self-gravity

---
 src/GradhSph/GradhSph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index a0f3c8d..21a094d 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -578,7 +578,7 @@ void GradhSph<ndim, kernelclass>::ComputeSphHydroGravForces
   parti.dudt    -= eos->Pressure(parti)*parti.div_v*invrho_i*parti.invomega;
   if (tdavisc == mm97) {
     parti.dalphadt = (FLOAT) 0.1*parti.sound*(alpha_visc_min - parti.alpha)*invh_i +
-        max(parti.div_v,(FLOAT) 0.0)*(alpha_visc - parti.alpha);
+        max(-parti.div_v,(FLOAT) 0.0)*(alpha_visc - parti.alpha);
   }
 
   return;
-- 
2.43.0


From 5189bf4c549f5af5af6e058eac48486f1ecb29a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:56 +0000
Subject: [PATCH 9/9] fix: potential-minimum test of grad-h SPH uses the
 distance of the neighbour it tests

---
 src/GradhSph/GradhSph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index 21a094d..81a7ad4 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -272,8 +272,8 @@ int GradhSph<ndim, kernelclass>::ComputeH
     parti.flags.set(potmin);
     for (j=0; j<Nneib; j++) {
       const DensityParticle &ngb = ngbs[j];
-      FLOAT drsqd = DotProduct(dr,dr,ndim);
       for (k=0; k<ndim; k++) dr[k] = ngb.r[k] - parti.r[k];
+      FLOAT drsqd = DotProduct(dr,dr,ndim);
       if (ngb.gpot > (FLOAT) 1.000000001*parti.gpot &&
           drsqd*invhsqd < kern.kernrangesqd) parti.flags.unset(potmin);
     }
-- 
2.43.0

