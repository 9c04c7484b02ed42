From 3ea7e1e5b84e39d6547c92e82a9bff57f1dda401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:21 +0000
Subject: [PATCH 01/45] fix: remove the duplicate definition of D_RUS, which
 kept fluxes.cpp from compiling

---
 code/cpp/src/solvers/fv/fluxes.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/code/cpp/src/solvers/fv/fluxes.cpp b/code/cpp/src/solvers/fv/fluxes.cpp
index 3811872..abfef71 100644
--- a/code/cpp/src/solvers/fv/fluxes.cpp
+++ b/code/cpp/src/solvers/fv/fluxes.cpp
@@ -73,14 +73,3 @@ VecV D_RUS(VecVr qL, VecVr qR, int d, Par &MP) {
   flux(f, qR, d, MP);
   return f;
 }
-
-VecV D_RUS(VecVr qL, VecVr qR, int d, Par &MP) {
-
-  double max1 = max_abs_eigs(qL, d, MP);
-  double max2 = max_abs_eigs(qR, d, MP);
-
-  VecV f = std::max(max1, max2) * (qL - qR);
-  flux(f, qL, d, MP);
-  flux(f, qR, d, MP);
-  return f;
-}
-- 
2.43.0


From cd3b1995f41439006b573e26fc8a276db8e58214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:11 +0000
Subject: [PATCH 02/45] fix: flux accumulates the reactant flux instead of
 overwriting the caller's value

---
 code/cpp/src/system/equations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/equations.cpp b/code/cpp/src/system/equations.cpp
index 68603a6..9819435 100644
--- a/code/cpp/src/system/equations.cpp
+++ b/code/cpp/src/system/equations.cpp
@@ -43,7 +43,7 @@ void flux(VecVr ret, VecVr Q, int d, Par &MP) {
     ret(14 + d) += T;
   }
   if (MULTI) {
-    ret(mV) = Q(mV) * vd;
+    ret(mV) += Q(mV) * vd;
   }
 }
 
-- 
2.43.0


From 941dff3321a6990181f4ec3851e64c63d5d68492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:11 +0000
Subject: [PATCH 03/45] fix: temperature derivative includes the
 reference-temperature term

---
 code/cpp/src/system/energy/mg.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/cpp/src/system/energy/mg.cpp b/code/cpp/src/system/energy/mg.cpp
index d045dce..43a00cf 100644
--- a/code/cpp/src/system/energy/mg.cpp
+++ b/code/cpp/src/system/energy/mg.cpp
@@ -283,14 +283,14 @@ double dTdρ(double ρ, double p, Params &MP) {
 
   // TODO: update for multi (required for THERMAL mixtures)
 
-  // TODO: add Tref * dφ
-
   double cv = MP.cv;
   double Γ = Γ_MG(ρ, MP);
   double dΓ = dΓ_MG(ρ, MP);
   double pr = p_ref(ρ, MP);
   double dpr = dp_ref(ρ, MP);
-  return -(dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / ((ρ * Γ) * (ρ * Γ)) / cv;
+  double dφ = Γ * φ(ρ, MP) / ρ;
+  return dφ * MP.Tref -
+         (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / ((ρ * Γ) * (ρ * Γ)) / cv;
 }
 
 double dTdp(double ρ, Params &MP) {
-- 
2.43.0


From 7e1106fd258966550b0a27d29b64eefec60d722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:25 +0000
Subject: [PATCH 04/45] fix: the fallback initial guess of the predictor fits
 2D cells

---
 code/cpp/src/solvers/dg/initial_guess.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/solvers/dg/initial_guess.cpp b/code/cpp/src/solvers/dg/initial_guess.cpp
index f5e39f8..04f5ceb 100644
--- a/code/cpp/src/solvers/dg/initial_guess.cpp
+++ b/code/cpp/src/solvers/dg/initial_guess.cpp
@@ -15,7 +15,9 @@ void standard_initial_guess2(Matr q, Matr w) {
 void stiff_initial_guess(Matr q, Matr w, int NT, double dt, Par &MP) {
   // Returns the initial guess found in DOI: 10.1007/s10915-010-9426-6
 
-  standard_initial_guess1(q, w);
+  // NT is the number of spatial nodes in a cell
+  for (int i = 0; i < N; i++)
+    q.block(i * NT, 0, NT, V) = w;
   /*
 Mat qt = w;
 
-- 
2.43.0


From 47df25765477c9322ea38beaf80d0ad0b454e3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:25 +0000
Subject: [PATCH 05/45] fix: the predictor falls back to the Newton solver when
 the fixed-point iteration does not converge

---
 code/cpp/src/solvers/dg/dg1.cpp | 21 ++++++++++++---------
 code/cpp/src/solvers/dg/dg2.cpp | 26 +++++++++++++-------------
 2 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/code/cpp/src/solvers/dg/dg1.cpp b/code/cpp/src/solvers/dg/dg1.cpp
index 9732355..2e3a758 100644
--- a/code/cpp/src/solvers/dg/dg1.cpp
+++ b/code/cpp/src/solvers/dg/dg1.cpp
@@ -87,6 +87,7 @@ void predictor1(Vecr qh, Vecr wh, double dt, double dx, bool STIFF,
 
         Mat q1(N * N, V);
         aMat absDiff(N * N, V);
+        bool converged = false;
 
         for (int count = 0; count < DG_IT; count++) {
 
@@ -97,16 +98,18 @@ void predictor1(Vecr qh, Vecr wh, double dt, double dx, bool STIFF,
           if ((absDiff > DG_TOL * (1 + q0.array().abs())).any()) {
             q0 = q1;
             continue;
-          } else if (q1.array().isNaN().any()) {
-            stiff_initial_guess(q0, wi, N, dt, MP);
-            VecMap q0v(q0.data(), N * N * V);
-            qh.segment<N * N * V>(ind * N * N * V) =
-                nonlin_solve(obj_bound, q0v, DG_TOL);
-            break;
-          } else {
-            qi = q1;
-            break;
           }
+          converged = !q1.array().isNaN().any();
+          break;
+        }
+
+        if (converged)
+          qi = q1;
+        else {
+          stiff_initial_guess(q0, wi, N, dt, MP);
+          VecMap q0v(q0.data(), N * N * V);
+          qh.segment<N * N * V>(ind * N * N * V) =
+              nonlin_solve(obj_bound, q0v, DG_TOL);
         }
       }
     }
diff --git a/code/cpp/src/solvers/dg/dg2.cpp b/code/cpp/src/solvers/dg/dg2.cpp
index 08234ac..48c856f 100644
--- a/code/cpp/src/solvers/dg/dg2.cpp
+++ b/code/cpp/src/solvers/dg/dg2.cpp
@@ -138,6 +138,7 @@ void predictor2(Vecr qh, Vecr wh, double dt, double dx, double dy, bool STIFF,
 
         Mat q1(N * N * N, V);
         aMat absDiff(N * N * N, V);
+        bool converged = false;
 
         for (int count = 0; count < DG_IT; count++)
         {
@@ -151,19 +152,18 @@ void predictor2(Vecr qh, Vecr wh, double dt, double dx, double dy, bool STIFF,
             q0 = q1;
             continue;
           }
-          else if (q1.array().isNaN().any())
-          {
-            stiff_initial_guess(q0, wi, N * N, dt, MP);
-            VecMap q0v(q0.data(), N * N * N * V);
-            qh.segment(ind * N * N * N * V, N * N * N * V) =
-                nonlin_solve(obj_bound, q0v, DG_TOL);
-            break;
-          }
-          else
-          {
-            qi = q1;
-            break;
-          }
+          converged = !q1.array().isNaN().any();
+          break;
+        }
+
+        if (converged)
+          qi = q1;
+        else
+        {
+          stiff_initial_guess(q0, wi, N * N, dt, MP);
+          VecMap q0v(q0.data(), N * N * N * V);
+          qh.segment(ind * N * N * N * V, N * N * N * V) =
+              nonlin_solve(obj_bound, q0v, DG_TOL);
         }
       }
     }
-- 
2.43.0


From 56439b2c73169bc57a8475ed2e87c2bc4f357a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:09 +0000
Subject: [PATCH 06/45] fix: acoustic tensor places density and pressure terms
 in the direction of propagation

---
 code/cpp/src/system/eig.cpp        | 4 ++--
 code/python/gpr/sys/eigenvalues.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/system/eig.cpp b/code/cpp/src/system/eig.cpp
index 07288dc..ce3d9a0 100644
--- a/code/cpp/src/system/eig.cpp
+++ b/code/cpp/src/system/eig.cpp
@@ -8,7 +8,7 @@
 Mat Xi1(double ρ, double p, VecVr Q, Par &MP, int d) {
 
   Mat Ξ1 = Mat::Zero(4, 5);
-  Ξ1(0, 1) = 1 / ρ;
+  Ξ1(d, 1) = 1 / ρ;
 
   if (VISCOUS) {
     Vec3 dσdρ = dsigmadρ(Q, MP, d);
@@ -32,7 +32,7 @@ Mat Xi2(double ρ, double p, VecVr Q, Par &MP, int d) {
 
   Mat Ξ2 = Mat::Zero(5, 4);
   double c0 = c_0(Q, MP);
-  Ξ2(0, 0) = ρ;
+  Ξ2(0, d) = ρ;
   Ξ2(1, d) = ρ * c0 * c0;
 
   if (VISCOUS) {
diff --git a/code/python/gpr/sys/eigenvalues.py b/code/python/gpr/sys/eigenvalues.py
index 7c077fc..1cb741c 100644
--- a/code/python/gpr/sys/eigenvalues.py
+++ b/code/python/gpr/sys/eigenvalues.py
@@ -14,7 +14,7 @@ def Xi1(P, d, MP):
     else:
         ret = zeros([3, 5])
 
-    ret[0, 1] = 1 / ρ
+    ret[d, 1] = 1 / ρ
 
     if VISCOUS:
         dσdρ = P.dσdρ()
@@ -43,7 +43,7 @@ def Xi2(P, d, MP):
     else:
         ret = zeros([5, 3])
 
-    ret[0, 0] = ρ
+    ret[0, d] = ρ
     ret[1, d] = ρ * c0**2
 
     if VISCOUS:
-- 
2.43.0


From cca81b4e3e115a22828f0aee1ee2faf3f73bbd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:45 +0000
Subject: [PATCH 07/45] fix: interface eigenvectors use the shear speed at the
 cell's density

---
 code/cpp/src/system/multi/eigenvecs.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/system/multi/eigenvecs.cpp b/code/cpp/src/system/multi/eigenvecs.cpp
index ff27325..263a686 100644
--- a/code/cpp/src/system/multi/eigenvecs.cpp
+++ b/code/cpp/src/system/multi/eigenvecs.cpp
@@ -6,6 +6,7 @@
 #include "../functions/vectors.h"
 #include "../objects.h"
 #include "../variables/state.h"
+#include "../waves/shear.h"
 
 MatV_V eigen(VecVr Q, int d, Par &MP)
 {
@@ -21,14 +22,14 @@ MatV_V eigen(VecVr Q, int d, Par &MP)
   Mat3_3Map A = get_A(Q);
   Mat3_3 G = A.transpose() * A;
   Mat3_3 A_devG = AdevG(A);
-  double b02 = MP.b02;
+  double cs2 = c_s2(ρ, MP);
 
   for (int i = 0; i < 3; i++)
     for (int j = 0; j < 3; j++)
     {
-      Π1(i, j) = dsigmadA(ρ, b02, A, G, A_devG, d, i, j, 0);
-      Π2(i, j) = dsigmadA(ρ, b02, A, G, A_devG, d, i, j, 1);
-      Π3(i, j) = dsigmadA(ρ, b02, A, G, A_devG, d, i, j, 2);
+      Π1(i, j) = dsigmadA(ρ, cs2, A, G, A_devG, d, i, j, 0);
+      Π2(i, j) = dsigmadA(ρ, cs2, A, G, A_devG, d, i, j, 1);
+      Π3(i, j) = dsigmadA(ρ, cs2, A, G, A_devG, d, i, j, 2);
     }
   Mat Ξ1 = Xi1(ρ, p, Q, MP, d);
   Mat Ξ2 = Xi2(ρ, p, Q, MP, d);
-- 
2.43.0


From c7b8200c4346ecbb4017c21272960d0df80d9be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:51 +0000
Subject: [PATCH 08/45] fix: central stencils that reach into excluded corners
 are left out on both sides

---
 code/cpp/src/solvers/weno/weno.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/solvers/weno/weno.cpp b/code/cpp/src/solvers/weno/weno.cpp
index b6c2c38..5013466 100644
--- a/code/cpp/src/solvers/weno/weno.cpp
+++ b/code/cpp/src/solvers/weno/weno.cpp
@@ -60,11 +60,11 @@ void coeffs(MatN_Vr ret, Mat2N_Vr data, int nx, int gap, int ind) {
     den += oR;
   }
   if (N > 2) {
-    if (ind + FN2 >= gap) {
+    if (ind + FN2 >= gap && ind - CN2 <= nx - gap - 1) {
       num.array() += wCL.array().rowwise() * oCL.transpose().array();
       den += oCL;
     }
-    if ((N % 2 == 0) && (ind - FN2 <= nx - gap - 1)) {
+    if ((N % 2 == 0) && ind + CN2 >= gap && ind - FN2 <= nx - gap - 1) {
       num.array() += wCR.array().rowwise() * oCR.transpose().array();
       den += oCR;
     }
-- 
2.43.0


From 41e4b8c2f701937789711c17e0b031dc8f744457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:51 +0000
Subject: [PATCH 09/45] fix: reconstruct thin grids, on which every stencil
 reaches into an excluded corner

---
 code/cpp/src/solvers/weno/weno.cpp | 33 ++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/code/cpp/src/solvers/weno/weno.cpp b/code/cpp/src/solvers/weno/weno.cpp
index 5013466..310bd8e 100644
--- a/code/cpp/src/solvers/weno/weno.cpp
+++ b/code/cpp/src/solvers/weno/weno.cpp
@@ -51,23 +51,34 @@ void coeffs(MatN_Vr ret, Mat2N_Vr data, int nx, int gap, int ind) {
   MatN_V num = MatN_V::Zero();
   VecV den = VecV::Zero();
 
-  if (ind >= gap) {
+  bool useL = ind >= gap;
+  bool useR = ind <= nx - gap - 1;
+  bool useCL = N > 2 && ind + FN2 >= gap && ind - CN2 <= nx - gap - 1;
+  bool useCR = N > 2 && N % 2 == 0 && ind + CN2 >= gap &&
+               ind - FN2 <= nx - gap - 1;
+
+  // on grids so thin that every stencil would be left out, use them all
+  if (!(useL || useR || useCL || useCR)) {
+    useL = useR = true;
+    useCL = N > 2;
+    useCR = N > 2 && N % 2 == 0;
+  }
+
+  if (useL) {
     num.array() += wL.array().rowwise() * oL.transpose().array();
     den += oL;
   }
-  if (ind <= nx - gap - 1) {
+  if (useR) {
     num.array() += wR.array().rowwise() * oR.transpose().array();
     den += oR;
   }
-  if (N > 2) {
-    if (ind + FN2 >= gap && ind - CN2 <= nx - gap - 1) {
-      num.array() += wCL.array().rowwise() * oCL.transpose().array();
-      den += oCL;
-    }
-    if ((N % 2 == 0) && ind + CN2 >= gap && ind - FN2 <= nx - gap - 1) {
-      num.array() += wCR.array().rowwise() * oCR.transpose().array();
-      den += oCR;
-    }
+  if (useCL) {
+    num.array() += wCL.array().rowwise() * oCL.transpose().array();
+    den += oCL;
+  }
+  if (useCR) {
+    num.array() += wCR.array().rowwise() * oCR.transpose().array();
+    den += oCR;
   }
   ret.array() = num.array().rowwise() / den.transpose().array();
 }
-- 
2.43.0


From 23ea66ddbf7ffca5037f7815ef2a74c2347f6890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:13 +0000
Subject: [PATCH 10/45] fix: thread slabs leave out stencils at the corners of
 the grid, not at those of the slab

---
 code/cpp/src/solvers/steppers.cpp  | 34 +++++++++++++++++++++---------
 code/cpp/src/solvers/weno/weno.cpp | 29 +++++++++++++++----------
 code/cpp/src/solvers/weno/weno.h   |  2 ++
 3 files changed, 44 insertions(+), 21 deletions(-)

diff --git a/code/cpp/src/solvers/steppers.cpp b/code/cpp/src/solvers/steppers.cpp
index e095a87..6af8195 100644
--- a/code/cpp/src/solvers/steppers.cpp
+++ b/code/cpp/src/solvers/steppers.cpp
@@ -7,20 +7,26 @@
 #include "split/ode.h"
 #include "weno/weno.h"
 
-void ader_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool STIFF,
-                  int FLUX, Par &MP, bVecr mask) {
+void ader_slab(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool STIFF,
+               int FLUX, Par &MP, bVecr mask, int start, int nxTot) {
+  // Advances the rows from index start of a grid of nxTot rows
 
   int ndim = nX.size();
   Vec wh(extended_dimensions(nX, 1) * int(pow(N, ndim)) * V);
   Vec qh(extended_dimensions(nX, 1) * int(pow(N, ndim + 1)) * V);
 
-  weno_launcher(wh, ub, nX, MP);
+  weno_slab(wh, ub, nX, MP, start, nxTot);
 
   predictor(qh, wh, dt, dX, STIFF, false, MP, mask);
 
   fv_launcher(u, qh, nX, dt, dX, true, true, FLUX, MP, mask);
 }
 
+void ader_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool STIFF,
+                  int FLUX, Par &MP, bVecr mask) {
+  ader_slab(u, ub, nX, dt, dX, STIFF, FLUX, MP, mask, 0, nX(0));
+}
+
 void ader_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
                        bool STIFF, int FLUX, Par &MP, bVecr mask) {
   int nx = nX(0);
@@ -39,23 +45,25 @@ void ader_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
     iVec nX0 = nX;
     nX0(0) = finish - start;
 
-    ader_stepper(
+    ader_slab(
         u.segment(start * uRowSize, (finish - start) * uRowSize),
         ub.segment(start * ubRowSize, (finish + 2 * N - start) * ubRowSize),
         nX0, dt, dX, STIFF, FLUX, MP,
-        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize));
+        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize),
+        start, nx);
   }
 }
 
-void split_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
-                   bool HALF_STEP, int FLUX, Par &MP, bVecr mask) {
+void split_slab(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool HALF_STEP,
+                int FLUX, Par &MP, bVecr mask, int start, int nxTot) {
+  // Advances the rows from index start of a grid of nxTot rows
 
   int ndim = nX.size();
   ode_launcher(u, dt / 2, MP);
   ode_launcher(ub, dt / 2, MP);
 
   Vec wh(extended_dimensions(nX, 1) * int(pow(N, ndim)) * V);
-  weno_launcher(wh, ub, nX, MP);
+  weno_slab(wh, ub, nX, MP, start, nxTot);
 
   if (HALF_STEP)
     midstepper(wh, dt, dX, MP, mask);
@@ -65,6 +73,11 @@ void split_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
   ode_launcher(u, dt / 2, MP);
 }
 
+void split_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
+                   bool HALF_STEP, int FLUX, Par &MP, bVecr mask) {
+  split_slab(u, ub, nX, dt, dX, HALF_STEP, FLUX, MP, mask, 0, nX(0));
+}
+
 void split_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
                         bool STIFF, int FLUX, Par &MP, bVecr mask) {
   int nx = nX(0);
@@ -86,9 +99,10 @@ void split_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
     Vec ub_ =
         ub.segment(start * ubRowSize, (finish + 2 * N - start) * ubRowSize);
 
-    split_stepper(
+    split_slab(
         u.segment(start * uRowSize, (finish - start) * uRowSize), ub_, nX0, dt,
         dX, STIFF, FLUX, MP,
-        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize));
+        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize),
+        start, nx);
   }
 }
diff --git a/code/cpp/src/solvers/weno/weno.cpp b/code/cpp/src/solvers/weno/weno.cpp
index 310bd8e..f0d248a 100644
--- a/code/cpp/src/solvers/weno/weno.cpp
+++ b/code/cpp/src/solvers/weno/weno.cpp
@@ -83,15 +83,17 @@ void coeffs(MatN_Vr ret, Mat2N_Vr data, int nx, int gap, int ind) {
   ret.array() = num.array().rowwise() / den.transpose().array();
 }
 
-void weno1(Matr wh, Matr ub, int nx, int gap) {
+void weno1(Matr wh, Matr ub, int nx, int gap, int start, int nxTot) {
   // Returns the WENO reconstruction of u using polynomials in x
+  // The nx cells are those from index start of a row of nxTot
   // Shape of ub: (nx + 2(N-1), V)
   // Shapw of wh: (nx * N, V)
   for (int i = 0; i < nx; i++)
-    coeffs(wh.block<N, V>(i * N, 0), ub.block<2 * N - 1, V>(i, 0), nx, gap, i);
+    coeffs(wh.block<N, V>(i * N, 0), ub.block<2 * N - 1, V>(i, 0), nxTot, gap,
+           start + i);
 }
 
-void weno2(Matr wh, Matr ub, int nx, int ny) {
+void weno2(Matr wh, Matr ub, int nx, int ny, int start, int nxTot) {
   // Returns the WENO reconstruction of u using polynomials in y
   // Size of ub: (nx + 2(N-1)) * (ny + 2(N-1)) * V
   // Size of wh: nx * ny * N * N * V
@@ -108,9 +110,9 @@ void weno2(Matr wh, Matr ub, int nx, int ny) {
                  OuterStride((ny + 2 * (N - 1)) * N * V));
 
     if (NO_CORNERS && (j < N || j >= ny + 2 * (N - 1) - N))
-      weno1(tmp0, ubMap, nx, N);
+      weno1(tmp0, ubMap, nx, N, start, nxTot);
     else
-      weno1(tmp0, ubMap, nx, 0);
+      weno1(tmp0, ubMap, nx, 0, start, nxTot);
     uxMap = tmp0Map;
   }
 
@@ -124,17 +126,18 @@ void weno2(Matr wh, Matr ub, int nx, int ny) {
       MatMap whMap(wh.data() + (i * ny * N + ii) * N * V, ny, N * V,
                    OuterStride(N * N * V));
 
-      if (NO_CORNERS && (i == 0 || i == nx - 1))
-        weno1(tmp1, uxMap, ny, 1);
+      if (NO_CORNERS && (start + i == 0 || start + i == nxTot - 1))
+        weno1(tmp1, uxMap, ny, 1, 0, ny);
       else
-        weno1(tmp1, uxMap, ny, 0);
+        weno1(tmp1, uxMap, ny, 0, 0, ny);
       whMap = tmp1Map;
     }
   // TODO: make this n-dimensional by turning these two sets of for loops into
   // n sets of for loops, contained within a large loop over the dimensions
 }
 
-void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
+void weno_slab(Vecr wh, Vecr ub, iVecr nX, Par &MP, int start, int nxTot) {
+  // Reconstructs the rows from index start of a grid of nxTot rows
   // NOTE: boundary conditions extend u by two cells in each dimension
 
   int ndim = nX.size();
@@ -154,11 +157,11 @@ void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
   switch (ndim) {
 
   case 1:
-    weno1(whMap, ubMap, nX(0) + 2, 0);
+    weno1(whMap, ubMap, nX(0) + 2, 0, start, nxTot + 2);
     break;
 
   case 2:
-    weno2(whMap, ubMap, nX(0) + 2, nX(1) + 2);
+    weno2(whMap, ubMap, nX(0) + 2, nX(1) + 2, start, nxTot + 2);
     break;
   }
 
@@ -166,3 +169,7 @@ void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
     for (int i = 0; i < nwh; i++)
       Cvec(wh.segment<V>(i * V), MP);
 }
+
+void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
+  weno_slab(wh, ub, nX, MP, 0, nX(0));
+}
diff --git a/code/cpp/src/solvers/weno/weno.h b/code/cpp/src/solvers/weno/weno.h
index 56def22..7c8278e 100644
--- a/code/cpp/src/solvers/weno/weno.h
+++ b/code/cpp/src/solvers/weno/weno.h
@@ -3,6 +3,8 @@
 
 #include "../../etc/globals.h"
 
+void weno_slab(Vecr wh, Vecr ub, iVecr nX, Par &MP, int start, int nxTot);
+
 void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP);
 
 #endif // WENO_H
-- 
2.43.0


From 0138345d7be4a733a2834f12eacf4cc63d04d6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:19 +0000
Subject: [PATCH 11/45] fix: the oscillation indicator starts from zero

---
 code/cpp/src/solvers/weno/weno_matrices.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/solvers/weno/weno_matrices.cpp b/code/cpp/src/solvers/weno/weno_matrices.cpp
index 44e0ca7..6bbcccb 100644
--- a/code/cpp/src/solvers/weno/weno_matrices.cpp
+++ b/code/cpp/src/solvers/weno/weno_matrices.cpp
@@ -30,7 +30,7 @@ std::vector<MatN_N> coefficient_matrices(const std::vector<poly> &basis) {
 
 MatN_N oscillation_indicator(const std::vector<poly> &basis) {
   // Generate the oscillation indicator matrix from a set of basis polynomials
-  MatN_N ret;
+  MatN_N ret = MatN_N::Zero();
   for (int i = 0; i < N; i++)
     for (int j = 0; j < N; j++)
       for (int a = 1; a < N; a++) {
-- 
2.43.0


From 01ddf88ed83360fff1a803ea871ef24bb3836f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:00 +0000
Subject: [PATCH 12/45] fix: elastic solids do not relax in the split scheme

---
 code/cpp/src/system/relaxation/analytic.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 5268942..1dc3e8c 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -69,6 +69,10 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
 }
 
 void analyticSolver_distortion(VecVr Q, double dt, Par &MP) {
+
+  if (MP.SOLID && !MP.POWER_LAW) // elastic solids do not relax
+    return;
+
   Mat3_3Map A(Q.data() + 5);
   Eigen::JacobiSVD<Mat3_3> svd(A, Eigen::ComputeFullV | Eigen::ComputeFullU);
 
-- 
2.43.0


From d672c12fe255c4b01b79aab0c51d5d246c41e74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:28 +0000
Subject: [PATCH 13/45] fix: a level set without an interface keeps its values
 when renormalised

---
 code/cpp/src/multi/pfmm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/cpp/src/multi/pfmm.cpp b/code/cpp/src/multi/pfmm.cpp
index 233519c..b659101 100644
--- a/code/cpp/src/multi/pfmm.cpp
+++ b/code/cpp/src/multi/pfmm.cpp
@@ -20,6 +20,8 @@ Vec distance(Vecr phi, aVecr dX, iVecr nX) {
   marcher = new distanceMarcher(phi.data(), dX.data(), FLAG.data(), dist.data(),
                                 ndim, nX.data(), TEST, ORDER, NARROW, PERIODIC);
   marcher->march();
+  if (marcher->getError()) // no interface to measure from
+    dist = phi;
   delete marcher;
 
   return dist;
-- 
2.43.0


From 8320d14e47f86c0950a03a46b471b41c67f6783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:28 +0000
Subject: [PATCH 14/45] fix: cells with tiny positive level sets keep their
 sign when renormalised

---
 code/cpp/include/skfmm/distance_marcher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/include/skfmm/distance_marcher.cpp b/code/cpp/include/skfmm/distance_marcher.cpp
index 1cadfd6..8daa2dd 100644
--- a/code/cpp/include/skfmm/distance_marcher.cpp
+++ b/code/cpp/include/skfmm/distance_marcher.cpp
@@ -81,7 +81,7 @@ double distanceMarcher::solveQuadratic(int i, const double &a, const double &b,
   } else {
     return 0;
   }
-  if (phi_[i] > doubleEpsilon)
+  if (phi_[i] > 0.)
     return r0;
   else
     return r1;
-- 
2.43.0


From bce2ffaca9ca5c68770ff13fcf909a9d96c6f78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:59 +0000
Subject: [PATCH 15/45] fix: interface states are computed from the original
 states, in any order of the cells

---
 code/cpp/src/multi/fill.cpp | 38 +++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index 540294a..32ff96a 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -131,10 +131,11 @@ BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
   return ret;
 }
 
-void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
+VecV boundary_star_state(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
                          int mat, std::vector<Par> &MPs, double dt, Vecr n,
-                         int indn) {
-  // Attempts to fill the boundary cell at location given by inds.
+                         int indn, int &interf) {
+  // Returns the state of the boundary cell at location given by inds, and the
+  // index of the cell in which the interface lies if it isn't of material mat.
   // TODO: handle case when QL is chosen to be an isolated point
 
   BoundaryInds bInds = boundary_inds(inds, φi, n, dX, nX);
@@ -190,17 +191,23 @@ void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
       QL = grid.segment<V>(indn * V);
   }
 
-  VecV QL_ = left_star_state(QL, QR, MPs[mat], MPs[miR], dt, n);
-  grid.segment<V - LSET>(bInds.ind) = QL_.head<V - LSET>();
-
+  interf = -1;
   if (get_material_index(grid.segment<V>(bInds.interf)) != mat)
-    grid.segment<V - LSET>(bInds.interf) = QL_.head<V - LSET>();
+    interf = bInds.interf;
+
+  return left_star_state(QL, QR, MPs[mat], MPs[miR], dt, n);
 }
 
 void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
                          aVecr dX, std::vector<Par> &MPs, double dt, iVecr nX) {
   int ndim = nX.size();
   int nx = nX(0);
+  int ncell = intMask.size();
+
+  // all boundary states are calculated before any is written, as they must
+  // depend upon neither the order of the cells nor the number of threads
+  Vec stars(ncell * V);
+  iVec interfs(ncell);
   Vec n(ndim);
 
   switch (ndim) {
@@ -211,7 +218,9 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
         n = normal(Δφ.row(ind));
         iVec inds(1);
         inds << ind;
-        fill_boundary_inner(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n, -1);
+        stars.segment<V>(ind * V) =
+            boundary_star_state(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n, -1,
+                                interfs(ind));
       }
     }
     break;
@@ -226,12 +235,21 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
           n = normal(Δφ.row(ind));
           iVec inds(2);
           inds << i, j;
-          fill_boundary_inner(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n,
-                              indn);
+          stars.segment<V>(ind * V) =
+              boundary_star_state(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n,
+                                  indn, interfs(ind));
         }
       }
     break;
   }
+
+  for (int ind = 0; ind < ncell; ind++)
+    if (intMask(ind) == 1 && interfs(ind) > -1)
+      grid.segment<V - LSET>(interfs(ind)) = stars.segment<V - LSET>(ind * V);
+
+  for (int ind = 0; ind < ncell; ind++)
+    if (intMask(ind) == 1)
+      grid.segment<V - LSET>(ind * V) = stars.segment<V - LSET>(ind * V);
 }
 
 void fill_neighbor_inner(Vecr grid, Vecr Δφi, iVecr inds, aVecr dX, iVecr nX,
-- 
2.43.0


From 0654ab61c970dd9b515c1a656414ce5c82b59dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:30 +0000
Subject: [PATCH 16/45] fix: ghost filling stays within the domain, and copes
 with degenerate normals

---
 code/cpp/src/multi/fill.cpp | 60 +++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index 32ff96a..dc92ba9 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -93,6 +93,22 @@ int neighbor_index(iVecr intMask, int i, int j, int nx, int ny, int N0) {
   return indn;
 }
 
+bool in_domain(iVecr inds, iVecr nX) {
+  return (inds.array() >= 0).all() && (inds.array() < nX.array()).all();
+}
+
+Vec neighbor_normal(int ind, int indn, iVecr nX) {
+  // The direction from cell indn to its neighbor ind
+  Vec n(nX.size());
+  if (nX.size() == 1)
+    n(0) = ind - indn;
+  else {
+    n(0) = ind / nX(1) - indn / nX(1);
+    n(1) = ind % nX(1) - indn % nX(1);
+  }
+  return n;
+}
+
 BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
   // Calculates indexes of the boundary states at position given by inds
 
@@ -105,9 +121,10 @@ BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
 
   BoundaryInds ret;
 
-  iVec xiVec = (xi / dX).cast<int>();
-  iVec xLVec = (xL / dX).cast<int>();
-  iVec xRVec = (xR / dX).cast<int>();
+  // probes beyond the edge of the domain use the cells at the edge
+  iVec xiVec = (xi / dX).cast<int>().max(0).min(nX.array() - 1);
+  iVec xLVec = (xL / dX).cast<int>().max(0).min(nX.array() - 1);
+  iVec xRVec = (xR / dX).cast<int>().max(0).min(nX.array() - 1);
 
   int ndim = nX.size();
   switch (ndim) {
@@ -142,7 +159,6 @@ VecV boundary_star_state(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
 
   VecV QL;
   VecV QR = grid.segment<V>(bInds.R);
-  int miR = get_material_index(QR);
 
   if (get_material_index(grid.segment<V>(bInds.interf)) == mat)
     QL = grid.segment<V>(bInds.interf);
@@ -150,7 +166,13 @@ VecV boundary_star_state(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
   else if (get_material_index(grid.segment<V>(bInds.L)) == mat)
     QL = grid.segment<V>(bInds.L);
 
-  else { // should only happen if ndim>1
+  else if (nX.size() == 1) {
+    QL = grid.segment<V>(indn * V);
+    QR = grid.segment<V>(bInds.ind);
+    n = neighbor_normal(bInds.ind / V, indn, nX);
+  }
+
+  else {
     iVec Linds = inds;
     int Lind;
 
@@ -161,7 +183,8 @@ VecV boundary_star_state(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
     if (std::abs(n(0)) > std::abs(n(1))) {
       Linds(0) -= n0;
       Lind = iVec_to_ind(Linds, nX(1));
-      if (get_material_index(grid.segment<V>(Lind)) == mat) {
+      if (in_domain(Linds, nX) &&
+          get_material_index(grid.segment<V>(Lind)) == mat) {
         n(0) = n0;
         n(1) = 0.;
       } else {
@@ -174,7 +197,8 @@ VecV boundary_star_state(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
     } else {
       Linds(1) -= n1;
       Lind = iVec_to_ind(Linds, nX(1));
-      if (get_material_index(grid.segment<V>(Lind)) == mat) {
+      if (in_domain(Linds, nX) &&
+          get_material_index(grid.segment<V>(Lind)) == mat) {
         n(0) = 0.;
         n(1) = n1;
       } else {
@@ -185,11 +209,16 @@ VecV boundary_star_state(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
         n(1) = 0.;
       }
     }
-    if (get_material_index(grid.segment<V>(Lind)) == mat)
+    if (in_domain(Linds, nX) &&
+        get_material_index(grid.segment<V>(Lind)) == mat)
       QL = grid.segment<V>(Lind);
-    else
+    else {
       QL = grid.segment<V>(indn * V);
+      QR = grid.segment<V>(bInds.ind);
+      n = neighbor_normal(bInds.ind / V, indn, nX);
+    }
   }
+  int miR = get_material_index(QR);
 
   interf = -1;
   if (get_material_index(grid.segment<V>(bInds.interf)) != mat)
@@ -215,12 +244,15 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
   case 1:
     for (int ind = 0; ind < nx; ind++) {
       if (intMask(ind) == 1) {
+        int indn = (ind > 0 && intMask(ind - 1) == -1) ? ind - 1 : ind + 1;
         n = normal(Δφ.row(ind));
+        if (!n.allFinite())
+          n = neighbor_normal(ind, indn, nX);
         iVec inds(1);
         inds << ind;
         stars.segment<V>(ind * V) =
-            boundary_star_state(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n, -1,
-                                interfs(ind));
+            boundary_star_state(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n,
+                                indn, interfs(ind));
       }
     }
     break;
@@ -233,6 +265,8 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
         if (intMask(ind) == 1) {
           int indn = neighbor_index(intMask, i, j, nx, ny, -1);
           n = normal(Δφ.row(ind));
+          if (!n.allFinite())
+            n = neighbor_normal(ind, indn, nX);
           iVec inds(2);
           inds << i, j;
           stars.segment<V>(ind * V) =
@@ -262,7 +296,7 @@ void fill_neighbor_inner(Vecr grid, Vecr Δφi, iVecr inds, aVecr dX, iVecr nX,
   aVec n = normal(Δφi);
   aVec x = (inds.cast<double>().array() + 0.5) * dX;
   aVec xn = x - dX * n;
-  iVec newInds = (xn / dX).cast<int>();
+  iVec newInds = (xn / dX).floor().cast<int>();
 
   switch (ndim) {
   case 1:
@@ -277,7 +311,7 @@ void fill_neighbor_inner(Vecr grid, Vecr Δφi, iVecr inds, aVecr dX, iVecr nX,
   }
 
   // must fill from a border cell
-  if (intMask(newInd / V) < 1)
+  if (!in_domain(newInds, nX) || intMask(newInd / V) < 1)
     newInd = indn * V;
   grid.segment<V - LSET>(ind) = grid.segment<V - LSET>(newInd);
 }
-- 
2.43.0


From fc7470fcac39a531f93292efccf9177786508585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:28 +0000
Subject: [PATCH 17/45] fix: the states around a failed step stay within the
 returned history

---
 code/cpp/src/solvers/iterator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/cpp/src/solvers/iterator.cpp b/code/cpp/src/solvers/iterator.cpp
index 9bb70f3..5be5ff2 100644
--- a/code/cpp/src/solvers/iterator.cpp
+++ b/code/cpp/src/solvers/iterator.cpp
@@ -159,6 +159,7 @@ std::vector<Vec> iterator(Vecr u, double tf, iVecr nX, aVecr dX, double CFL,
     print(dt);
 
     if (u.array().isNaN().any()) {
+      pushCount = std::min(pushCount, 98); // two entries are needed
       ret[pushCount] = uprev;
       ret[pushCount + 1] = u;
       return ret;
-- 
2.43.0


From 6d5163d9962c2d729d7777ec6a5f0bb879944f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:29 +0000
Subject: [PATCH 18/45] fix: rotating the distortion never reverses its
 orientation

---
 code/cpp/src/solvers/utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/cpp/src/solvers/utils.cpp b/code/cpp/src/solvers/utils.cpp
index a681a34..c641e75 100644
--- a/code/cpp/src/solvers/utils.cpp
+++ b/code/cpp/src/solvers/utils.cpp
@@ -34,6 +34,8 @@ void rotate_distortion(Vecr u, std::vector<Par> &MPs) {
 
       Vec3 s = svd.singularValues();
       A = svd.matrixV();
+      if (A.determinant() < 0.) // a rotation must not reflect
+        A = -A;
 
       for (int j = 0; j < 3; j++)
         u.segment<3>(i * V + 5 + 3 * j) = s(j) * A.col(j);
-- 
2.43.0


From 05e302e51bd8c82c179107543a7420eeabf4cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:33 +0000
Subject: [PATCH 19/45] fix: fluids relax with the shear speed at their density
 in the split scheme

---
 code/cpp/src/system/relaxation/analytic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 1dc3e8c..2acc005 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -59,13 +59,13 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
                16. / 27. * a * a * a * b - 4. / 5. * a * a * b * b +
                16. / 33. * a * b * b * b - std::pow(b, 4.) / 9.);
 
-      double τ1 = 6 * std::pow(MP.μ, 1. / n) / (MP.ρ0 * MP.b02);
+      double τ1 = 6 * std::pow(MP.μ, 1. / n) / (MP.ρ0 * cs2);
       tmp1 = k * λ / τ1 * std::pow(detA3, 4. * k + 7.);
       tmp2 = std::pow(sqrt(c) * ρ * cs2 / (6. * sqrt(3.)), k);
       return 2. / (k * λ) * log(tmp1 * tmp2 * dt + 1.);
     }
   } else
-    return MP.ρ0 * MP.b02 * std::pow(detA3, 7.) / (3. * MP.μ) * dt;
+    return MP.ρ0 * c_s2(ρ, MP) * std::pow(detA3, 7.) / (3. * MP.μ) * dt;
 }
 
 void analyticSolver_distortion(VecVr Q, double dt, Par &MP) {
-- 
2.43.0


From c2cbfbd2df3cac93ea9937c40463344b66222ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:33 +0000
Subject: [PATCH 20/45] fix: the thermal impulse decays at the temperature of
 the material in the split scheme

---
 code/cpp/src/system/relaxation/analytic.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 2acc005..07c0217 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -6,6 +6,7 @@
 #include "../energy/eos.h"
 #include "../functions/matrices.h"
 #include "../functions/vectors.h"
+#include "../variables/state.h"
 #include "../waves/shear.h"
 
 double pos(double x) { return std::max(0., x); }
@@ -137,13 +138,11 @@ void analyticSolver_thermal(VecVr Q, double dt, Par &MP) {
   // TODO: implement mixing of κ
 
   double ρ = Q(0);
-  double E = Q(1) / ρ;
-  Vec3 v = get_ρv(Q) / ρ;
-  Mat3_3Map A = get_A(Q);
   Vec3Map ρJ = get_ρJ(Q);
 
-  double c1 = E - E_2A(ρ, A, MP) - E_3(v);
+  // cv * T + cα2 / 2 * J^2 is constant
   double c2 = MP.cα2 / 2.;
+  double c1 = MP.cv * temperature(Q, MP) + c2 * ρJ.squaredNorm() / (ρ * ρ);
   double k = 2 * MP.cα2 / (MP.κ * ρ * MP.cv);
   c1 *= k;
   c2 *= k;
-- 
2.43.0


From ab9b8f6b42d4694239fea526e85547d4cd2474c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:33 +0000
Subject: [PATCH 21/45] fix: power law fluids of index 1 relax in the split
 scheme

---
 code/cpp/src/system/relaxation/analytic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 07c0217..6659178 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -20,7 +20,8 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
 
   // TODO: implement mixing of μ
 
-  if (MP.POWER_LAW) {
+  // power law fluids of index 1 are Newtonian
+  if (MP.POWER_LAW && (MP.SOLID || MP.n != 1.)) {
     double n = MP.n;
     double cs2 = c_s2(ρ, MP);
     double a = 9. * m0 - u0 - 9.;
-- 
2.43.0


From 4fdf89150572e53cde823ec63a581e78c29a845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:45 +0000
Subject: [PATCH 22/45] fix: Bingham fluids keep their yield stress in the
 split scheme

---
 code/cpp/src/system/relaxation/analytic.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 6659178..f437e1b 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -21,7 +21,7 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
   // TODO: implement mixing of μ
 
   // power law fluids of index 1 are Newtonian
-  if (MP.POWER_LAW && (MP.SOLID || MP.n != 1.)) {
+  if (MP.POWER_LAW && (MP.SOLID || (!MP.BINGHAM && MP.n != 1.))) {
     double n = MP.n;
     double cs2 = c_s2(ρ, MP);
     double a = 9. * m0 - u0 - 9.;
@@ -95,6 +95,15 @@ void analyticSolver_distortion(VecVr Q, double dt, Par &MP) {
   if (u0 >= 1e-12) {
 
     double τ = nondimensionalized_time(ρ, detA1_3, m0, u0, dt, MP);
+
+    if (MP.BINGHAM && !MP.SOLID) {
+      // only the stress in excess of the yield stress relaxes
+      double sn = sigma(Q, MP).norm() / sqrt(2.);
+      if (sn <= MP.σY)
+        return;
+      double r = MP.σY / sn;
+      τ = -log(r + (1. - r) * exp(-3. * τ)) / 3.;
+    }
     double e_6τ = exp(-6. * τ);
     double e_9τ = exp(-9. * τ);
 
-- 
2.43.0


From f12c3dd5dbd8cf7fafdf129e4a7253394cc19f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:43 +0000
Subject: [PATCH 23/45] fix: relaxed principal stretches use the right branch
 of the angle

---
 code/cpp/src/system/relaxation/analytic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index f437e1b..34589ba 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -123,7 +123,7 @@ void analyticSolver_distortion(VecVr Q, double dt, Par &MP) {
       double tmp = cbrt(54. * Δ);
       x1 = tmp / 6. + u / tmp + m;
     } else {
-      double θ = atan(sqrt(arg1) / (9. * Δ));
+      double θ = atan2(sqrt(arg1), 9. * Δ); // in (0, pi)
       x1 = sqrt(6. * u) / 3. * cos(θ / 3.) + m;
     }
     double tmp2 = 3. * m - x1;
-- 
2.43.0


From bb5ec8e5e8758590c78562bf188bb4cac3d498b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:05 +0000
Subject: [PATCH 24/45] fix: shear-thickening fluids are finite when stress
 vanishes

---
 code/cpp/src/system/relaxation/analytic.cpp | 3 ++-
 code/cpp/src/system/variables/sources.cpp   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 34589ba..760c4c9 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -64,7 +64,8 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
       double τ1 = 6 * std::pow(MP.μ, 1. / n) / (MP.ρ0 * cs2);
       tmp1 = k * λ / τ1 * std::pow(detA3, 4. * k + 7.);
       tmp2 = std::pow(sqrt(c) * ρ * cs2 / (6. * sqrt(3.)), k);
-      return 2. / (k * λ) * log(tmp1 * tmp2 * dt + 1.);
+      // if n > 1, all stress is gone after a finite time
+      return 2. / (k * λ) * log(pos(tmp1 * tmp2 * dt + 1.));
     }
   } else
     return MP.ρ0 * c_s2(ρ, MP) * std::pow(detA3, 7.) / (3. * MP.μ) * dt;
diff --git a/code/cpp/src/system/variables/sources.cpp b/code/cpp/src/system/variables/sources.cpp
index 1a0d8ad..5937003 100644
--- a/code/cpp/src/system/variables/sources.cpp
+++ b/code/cpp/src/system/variables/sources.cpp
@@ -74,7 +74,7 @@ double theta1inv(VecVr Q, Par &MP) {
       Mat3_3 σ = sigma(Q, MP);
       sn = σ.norm() / sqrt(2.);
 
-      return c * pow(sn, (1 - n) / n);
+      return sn > 0. ? c * pow(sn, (1 - n) / n) : 0.; // no stress to relax
     } else
       return c;
   }
-- 
2.43.0


From cd373c915ba5e1ff9d18c00e54e45249c660d0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 25/45] fix: slip conditions with heat conduction use the
 right-hand state

---
 code/cpp/src/system/multi/conditions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/multi/conditions.cpp b/code/cpp/src/system/multi/conditions.cpp
index 1d3a1b4..6693cc3 100644
--- a/code/cpp/src/system/multi/conditions.cpp
+++ b/code/cpp/src/system/multi/conditions.cpp
@@ -37,7 +37,7 @@ void slip_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL,
     Mat YL(2, n1);
     Mat YR(2, n1);
     YL << RL.block<1, n1>(11, 0), RL.block<1, n1>(14, 0);
-    YL << RR.block<1, n1>(11, 0), RR.block<1, n1>(14, 0);
+    YR << RR.block<1, n1>(11, 0), RR.block<1, n1>(14, 0);
 
     Vec yL(2);
     Vec yR(2);
-- 
2.43.0


From 77c62d58772e4f0d8b8c6a043f79ee2eb6c601b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 26/45] fix: heat fluxes are continuous at interfaces of
 different materials

---
 code/cpp/src/system/multi/conditions.cpp | 19 +++++++++++++------
 code/cpp/src/system/multi/conditions.h   |  7 +++++--
 code/cpp/src/system/multi/riemann.cpp    |  4 ++--
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/code/cpp/src/system/multi/conditions.cpp b/code/cpp/src/system/multi/conditions.cpp
index 6693cc3..8d20986 100644
--- a/code/cpp/src/system/multi/conditions.cpp
+++ b/code/cpp/src/system/multi/conditions.cpp
@@ -5,7 +5,7 @@
 #include "eigenvecs.h"
 
 void stick_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL,
-               Vecr xR)
+               Vecr xR, Par &MPL, Par &MPR)
 {
 
   Mat YL = RL.block<n1, n1>(11, 0);
@@ -22,14 +22,17 @@ void stick_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL,
 
   if (THERMAL)
   {
-    yL(3) = QL(14) / QL(0);
-    yR(3) = QR(14) / QR(0);
+    // temperatures are equal, so heat fluxes are if cα2 * J is continuous
+    YL.row(3) *= MPL.cα2;
+    YR.row(3) *= MPR.cα2;
+    yL(3) = MPL.cα2 * QL(14) / QL(0);
+    yR(3) = MPR.cα2 * QR(14) / QR(0);
   }
   x_ = (YL - YR).inverse() * (yR - yL + YL * xL - YR * xR);
 }
 
 void slip_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL,
-              Vecr xR)
+              Vecr xR, Par &MPL, Par &MPR)
 {
 
   if (THERMAL)
@@ -39,10 +42,14 @@ void slip_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL,
     YL << RL.block<1, n1>(11, 0), RL.block<1, n1>(14, 0);
     YR << RR.block<1, n1>(11, 0), RR.block<1, n1>(14, 0);
 
+    // temperatures are equal, so heat fluxes are if cα2 * J is continuous
+    YL.row(1) *= MPL.cα2;
+    YR.row(1) *= MPR.cα2;
+
     Vec yL(2);
     Vec yR(2);
-    yL << QL(2) / QL(0), QL(14) / QL(0);
-    yR << QR(2) / QR(0), QR(14) / QR(0);
+    yL << QL(2) / QL(0), MPL.cα2 * QL(14) / QL(0);
+    yR << QR(2) / QR(0), MPR.cα2 * QR(14) / QR(0);
 
     Mat M(2, 2);
     M << YL.col(0) - YR.col(0), YL.col(n1 - 1) - YR.col(n1 - 1);
diff --git a/code/cpp/src/system/multi/conditions.h b/code/cpp/src/system/multi/conditions.h
index 2a14795..dd83270 100644
--- a/code/cpp/src/system/multi/conditions.h
+++ b/code/cpp/src/system/multi/conditions.h
@@ -2,9 +2,12 @@
 #define CONDITIONS_H
 
 #include "../../etc/types.h"
+#include "../objects.h"
 
-void stick_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL, Vecr xR);
+void stick_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL, Vecr xR,
+               Par &MPL, Par &MPR);
 
-void slip_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL, Vecr xR);
+void slip_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL, Vecr xR,
+              Par &MPL, Par &MPR);
 
 #endif // CONDITIONS_H
diff --git a/code/cpp/src/system/multi/riemann.cpp b/code/cpp/src/system/multi/riemann.cpp
index b3be715..d4974b6 100644
--- a/code/cpp/src/system/multi/riemann.cpp
+++ b/code/cpp/src/system/multi/riemann.cpp
@@ -176,9 +176,9 @@ void star_stepper(VecVr QL, VecVr QR, Par &MPL, Par &MPR) {
     Vec x_(n1);
 
     if (RIEMANN_STICK)
-      stick_bcs(x_, RL, RR, QL, QR, xL, xR);
+      stick_bcs(x_, RL, RR, QL, QR, xL, xR, MPL, MPR);
     else
-      slip_bcs(x_, RL, RR, QL, QR, xL, xR);
+      slip_bcs(x_, RL, RR, QL, QR, xL, xR, MPL, MPR);
 
     VecV cR = VecV::Zero();
     cL.head<n1>() = x_ - xL;
-- 
2.43.0


From 2c09746cfc2956bb4c6dfc0d54888b35859bc54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 27/45] fix: body forces keep their direction while interface
 states relax

---
 code/cpp/src/system/multi/riemann.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/system/multi/riemann.cpp b/code/cpp/src/system/multi/riemann.cpp
index d4974b6..e370614 100644
--- a/code/cpp/src/system/multi/riemann.cpp
+++ b/code/cpp/src/system/multi/riemann.cpp
@@ -211,14 +211,20 @@ VecV left_star_state(VecV QL_, VecV QR_, Par &MPL, Par &MPR, double dt,
   rotate_tensors(QL_, R);
   rotate_tensors(QR_, R);
 
+  // body forces in the rotated frame
+  Par MPL_ = MPL;
+  Par MPR_ = MPR;
+  MPL_.δp = R * MPL.δp;
+  MPR_.δp = R * MPR.δp;
+
   int count = 0;
 
   while (!check_star_convergence(QL_, QR_, MPL, MPR) and count < IT_LIM) {
 
     if (RIEMANN_RELAXATION) {
-      ode_stepper_analytic(QL_, dt / 2, MPL);
+      ode_stepper_analytic(QL_, dt / 2, MPL_);
       if (MPR.EOS > -1)
-        ode_stepper_analytic(QR_, dt / 2, MPR);
+        ode_stepper_analytic(QR_, dt / 2, MPR_);
     }
     star_stepper(QL_, QR_, MPL, MPR);
 
-- 
2.43.0


From 8178c968819a50025ffe99d19a99facaca7a0b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 28/45] fix: interface states of negative density count as
 failures

---
 code/cpp/src/system/multi/riemann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/multi/riemann.cpp b/code/cpp/src/system/multi/riemann.cpp
index e370614..cb28578 100644
--- a/code/cpp/src/system/multi/riemann.cpp
+++ b/code/cpp/src/system/multi/riemann.cpp
@@ -230,7 +230,7 @@ VecV left_star_state(VecV QL_, VecV QR_, Par &MPL, Par &MPR, double dt,
 
     count += 1;
   }
-  if (QL_.array().isNaN().any())
+  if (QL_.array().isNaN().any() or QL_(0) <= 0.)
     return QL0;
 
   Mat3_3 RT = R.transpose();
-- 
2.43.0


From 2b4e868c26bfca5531a76d2d31c4b96e2ab27f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:01 +0000
Subject: [PATCH 29/45] fix: linear solves do not stall on dependent recycled
 directions

---
 code/cpp/src/scipy/lgmres.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/scipy/lgmres.cpp b/code/cpp/src/scipy/lgmres.cpp
index 2a5d961..8ed5d1b 100644
--- a/code/cpp/src/scipy/lgmres.cpp
+++ b/code/cpp/src/scipy/lgmres.cpp
@@ -40,6 +40,8 @@ Vec lgmres(VecFunc matvec, VecFunc psolve, Vecr b, Vec x,
     Mat R = Mat::Zero(ind, ind - 1);
     Q(0, 0) = 1.;
 
+    bool dependent = false;
+
     int j = 1;
     for (; j < ind; j++) {
 
@@ -78,7 +80,8 @@ Vec lgmres(VecFunc matvec, VecFunc psolve, Vecr b, Vec x,
 
       double inner_res = std::abs(Q(0, j)) * inner_res_0;
 
-      if ((inner_res <= tol * inner_res_0) || (hcur(j) <= mEPS * v_new_norm))
+      dependent = hcur(j) <= 10. * n * mEPS * v_new_norm;
+      if (inner_res <= tol * inner_res_0 || dependent)
         break;
     }
     if (j == ind)
@@ -92,8 +95,11 @@ Vec lgmres(VecFunc matvec, VecFunc psolve, Vecr b, Vec x,
     for (int i = 1; i < y.size(); i++)
       dx += y(i) * ws[i];
 
+    if (dependent) // start the next cycle without recycled directions
+      outer_v.clear();
+
     double nx = dx.norm();
-    if (nx > 0.)
+    if (nx > 0. && !dependent)
       outer_v.push_back(dx / nx);
 
     while (outer_v.size() > outer_k)
-- 
2.43.0


From cf011f022e5301d42a7c866c282359ccc26f8214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:51 +0000
Subject: [PATCH 30/45] fix: nonlinear solves do not recycle one direction
 several times

---
 code/cpp/src/scipy/lgmres.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/scipy/lgmres.cpp b/code/cpp/src/scipy/lgmres.cpp
index 8ed5d1b..9acaed8 100644
--- a/code/cpp/src/scipy/lgmres.cpp
+++ b/code/cpp/src/scipy/lgmres.cpp
@@ -95,11 +95,14 @@ Vec lgmres(VecFunc matvec, VecFunc psolve, Vecr b, Vec x,
     for (int i = 1; i < y.size(); i++)
       dx += y(i) * ws[i];
 
+    // a step along recycled directions only would be recycled twice
+    bool fresh = j > outer_v.size();
+
     if (dependent) // start the next cycle without recycled directions
       outer_v.clear();
 
     double nx = dx.norm();
-    if (nx > 0. && !dependent)
+    if (nx > 0. && fresh && !dependent)
       outer_v.push_back(dx / nx);
 
     while (outer_v.size() > outer_k)
-- 
2.43.0


From 47a071925d2ffc8f0708b81d43989649adeac43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:23 +0000
Subject: [PATCH 31/45] fix: phases of mixtures are found for all units and
 states

---
 code/cpp/src/system/energy/multi.cpp | 107 +++++++++++++++++++--------
 1 file changed, 75 insertions(+), 32 deletions(-)

diff --git a/code/cpp/src/system/energy/multi.cpp b/code/cpp/src/system/energy/multi.cpp
index 553dd82..0667af2 100644
--- a/code/cpp/src/system/energy/multi.cpp
+++ b/code/cpp/src/system/energy/multi.cpp
@@ -1,32 +1,85 @@
-#include "../../etc/debug.h"
-#include "../../scipy/newton_krylov.h"
 #include "../objects.h"
 #include "eos.h"
 #include "mg.h"
 
-Vec obj(double ρ, double e, double λ, Vec2r x, Par &MP1, Params &MP2) {
+// The phases of a mixture for a given volume fraction of the first one
+struct Phases {
+  double p;
+  double ρ1;
+  double ρ2;
+  double ΔT;
+};
 
-  Vec2 ret;
+Phases phases(double α, double ρ, double e, double λ, Par &MP1, Params &MP2) {
+  // Returns the densities, the pressure at which the phases have the internal
+  // energy e, and the difference of their temperatures there
 
-  double p = x(0);
-  double ρ1 = x(1);
-  double ρ2 = (1 - λ) / (1 / ρ - λ / ρ1);
+  Phases ret;
+  ret.ρ1 = λ * ρ / α;
+  ret.ρ2 = (1 - λ) * ρ / (1 - α);
 
-  double e1 = E_1(ρ1, p, MP1);
-  double e2 = E_1(ρ2, p, MP2);
-  double T1 = temperature_mg(ρ1, p, MP1);
-  double T2 = temperature_mg(ρ2, p, MP2);
-
-  ret(0) = e - λ * e1 - (1 - λ) * e2;
-  ret(1) = T1 - T2;
+  double e0 = λ * E_1(ret.ρ1, 0, MP1) + (1 - λ) * E_1(ret.ρ2, 0, MP2);
+  double dedp_ = λ * dedp(ret.ρ1, MP1) + (1 - λ) * dedp(ret.ρ2, MP2);
 
+  ret.p = (e - e0) / dedp_;
+  ret.ΔT = temperature_mg(ret.ρ1, ret.p, MP1) - temperature_mg(ret.ρ2, ret.p, MP2);
   return ret;
 }
 
-double average_pressure(double ρ, double e, double λ, Par &MP) {
-  double p1 = pressure_mg(ρ, e, MP);
-  double p2 = pressure_mg(ρ, e, MP.MP2);
-  return std::max(λ * p1 + (1 - λ) * p2, 0.);
+Phases equilibrium(double ρ, double e, double λ, Par &MP1, Params &MP2) {
+  // Returns the phases at the same temperature, with densities as close to
+  // each other as possible
+
+  const int n = 50;
+  Phases start = phases(λ, ρ, e, λ, MP1, MP2);
+  Phases left = start;
+  Phases right = start;
+  double αl = λ;
+  double αr = λ;
+
+  for (int i = 1; i <= n; i++) {
+
+    double x = i < n ? i / double(n) : 1 - 1e-6;
+
+    double α = λ * (1 - x);
+    Phases next = phases(α, ρ, e, λ, MP1, MP2);
+    if (next.ΔT * left.ΔT <= 0) {
+      αr = αl;
+      αl = α;
+      right = left;
+      left = next;
+      break;
+    }
+    left = next;
+    αl = α;
+
+    α = λ + (1 - λ) * x;
+    next = phases(α, ρ, e, λ, MP1, MP2);
+    if (next.ΔT * right.ΔT <= 0) {
+      αl = αr;
+      αr = α;
+      left = right;
+      right = next;
+      break;
+    }
+    right = next;
+    αr = α;
+  }
+
+  if (left.ΔT * right.ΔT > 0)
+    return start;
+
+  for (int i = 0; i < 60; i++) {
+    double α = (αl + αr) / 2;
+    Phases mid = phases(α, ρ, e, λ, MP1, MP2);
+    if (mid.ΔT * left.ΔT <= 0)
+      αr = α;
+    else {
+      αl = α;
+      left = mid;
+    }
+  }
+  return phases((αl + αr) / 2, ρ, e, λ, MP1, MP2);
 }
 
 Vec3 solve_multi(VecVr Q, Par &MP) {
@@ -37,27 +90,17 @@ Vec3 solve_multi(VecVr Q, Par &MP) {
 
   Vec3 ret;
 
-  if (λ == 1.) {
+  if (λ >= 1.) {
     double p = pressure_mg(ρ, e, MP);
     p = std::max(p, 0.);
     ret << p, ρ, ρ;
-  } else if (λ == 0.) {
+  } else if (λ <= 0.) {
     double p = pressure_mg(ρ, e, MP.MP2);
     p = std::max(p, 0.);
     ret << p, ρ, ρ;
   } else {
-    using std::placeholders::_1;
-    VecFunc obj_bound = std::bind(obj, ρ, e, λ, _1, MP, MP.MP2);
-
-    Vec2 x0;
-    double p0 = average_pressure(ρ, e, λ, MP);
-    x0 << p0, ρ;
-
-    Vec2 res = nonlin_solve(obj_bound, x0);
-    double p = res(0);
-    double ρ1 = res(1);
-    double ρ2 = (1 - λ) / (1 / ρ - λ / ρ1);
-    ret << p, ρ1, ρ2;
+    Phases res = equilibrium(ρ, e, λ, MP, MP.MP2);
+    ret << res.p, res.ρ1, res.ρ2;
   }
   return ret;
 }
\ No newline at end of file
-- 
2.43.0


From c308c6f480daae38d141b074eea562bc99db82ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:23 +0000
Subject: [PATCH 32/45] fix: pressure derivative of a mixture's energy

---
 code/cpp/src/system/energy/derivatives.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/system/energy/derivatives.cpp b/code/cpp/src/system/energy/derivatives.cpp
index 0a8a284..92be362 100644
--- a/code/cpp/src/system/energy/derivatives.cpp
+++ b/code/cpp/src/system/energy/derivatives.cpp
@@ -55,10 +55,18 @@ double dEdp(VecVr Q, Par &MP) {
     double λ = Q(mV) / ρ;
 
     Vec3 sol = solve_multi(Q, MP);
+    double p = sol(0);
     double ρ1 = sol(1);
     double ρ2 = sol(2);
 
-    return λ * dedp(ρ1, MP) + (1 - λ) * dedp(ρ2, MP.MP2);
+    // the densities of the phases change to keep their temperatures the same
+    double a = λ / (ρ1 * ρ1);
+    double b = (1 - λ) / (ρ2 * ρ2);
+    double c = (dTdp(ρ2, MP.MP2) - dTdp(ρ1, MP)) /
+               (a * dTdρ(ρ2, p, MP.MP2) + b * dTdρ(ρ1, p, MP));
+
+    return λ * (dedp(ρ1, MP) + dedρ(ρ1, p, MP) * b * c) +
+           (1 - λ) * (dedp(ρ2, MP.MP2) - dedρ(ρ2, p, MP.MP2) * a * c);
   } else {
     return dedp(ρ, MP);
   }
-- 
2.43.0


From 126bfb981100b8e5463d59847b096a2fa3afbcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:23 +0000
Subject: [PATCH 33/45] fix: Jacobians of mixtures include the concentration's
 effect on the phases

---
 code/cpp/src/system/energy/derivatives.cpp | 27 ++++++++++++++++++++++
 code/cpp/src/system/energy/derivatives.h   |  1 +
 code/cpp/src/system/jacobians.cpp          | 11 ++++-----
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/code/cpp/src/system/energy/derivatives.cpp b/code/cpp/src/system/energy/derivatives.cpp
index 92be362..e533ab0 100644
--- a/code/cpp/src/system/energy/derivatives.cpp
+++ b/code/cpp/src/system/energy/derivatives.cpp
@@ -72,6 +72,33 @@ double dEdp(VecVr Q, Par &MP) {
   }
 }
 
+double dEdλ(VecVr Q, Par &MP) {
+  // Returns the partial derivative of E by λ (holding ρ,p constant)
+
+  double ret = MP.REACTION > -1 ? MP.Qc : 0.;
+
+  if (MP.MULTI) {
+
+    double ρ = Q(0);
+    double λ = Q(mV) / ρ;
+
+    Vec3 sol = solve_multi(Q, MP);
+    double p = sol(0);
+    double ρ1 = sol(1);
+    double ρ2 = sol(2);
+
+    double dT1 = dTdρ(ρ1, p, MP);
+    double dT2 = dTdρ(ρ2, p, MP.MP2);
+
+    double c = (1 / ρ1 - 1 / ρ2) /
+               (λ / (ρ1 * ρ1) * dT2 + (1 - λ) / (ρ2 * ρ2) * dT1);
+
+    ret += E_1(ρ1, p, MP) + λ * dedρ(ρ1, p, MP) * dT2 * c;
+    ret += (1 - λ) * dedρ(ρ2, p, MP.MP2) * dT1 * c - E_1(ρ2, p, MP.MP2);
+  }
+  return ret;
+}
+
 Mat3_3 dEdA(VecVr Q, Par &MP) {
   // Returns the partial derivative of E by A (holding ρ,s constant)
   double ρ = Q(0);
diff --git a/code/cpp/src/system/energy/derivatives.h b/code/cpp/src/system/energy/derivatives.h
index 18e4e40..4350044 100644
--- a/code/cpp/src/system/energy/derivatives.h
+++ b/code/cpp/src/system/energy/derivatives.h
@@ -6,6 +6,7 @@
 
 double dEdρ(VecVr Q, Par &MP);
 double dEdp(VecVr Q, Par &MP);
+double dEdλ(VecVr Q, Par &MP);
 Mat3_3 dEdA(VecVr Q, Par &MP);
 Mat3_3 dEdA_s(VecVr Q, Par &MP);
 Vec3 dEdJ(VecVr Q, Par &MP);
diff --git a/code/cpp/src/system/jacobians.cpp b/code/cpp/src/system/jacobians.cpp
index fdd3ef6..bb95ba1 100644
--- a/code/cpp/src/system/jacobians.cpp
+++ b/code/cpp/src/system/jacobians.cpp
@@ -91,8 +91,7 @@ MatV_V dFdP(VecVr Q, int d, Par &MP) {
     ret(mV, 2 + d) = ρ * λ;
     ret(mV, mV) = ρvd;
 
-    if (MP.REACTION > -1)
-      ret(1, mV) = MP.Qc * ρvd;
+    ret(1, mV) = dEdλ(Q, MP) * ρvd;
   }
   return ret;
 }
@@ -142,11 +141,9 @@ MatV_V dPdQ(VecVr Q, Par &MP) {
     ret(mV, 0) = -λ / ρ;
     ret(mV, mV) = 1 / ρ;
 
-    if (MP.REACTION > -1) {
-      double Qc = MP.Qc;
-      ret(1, 0) += Γ_ * Qc * λ;
-      ret(1, mV) = -Γ_ * Qc;
-    }
+    double Eλ = dEdλ(Q, MP);
+    ret(1, 0) += Γ_ * Eλ * λ;
+    ret(1, mV) = -Γ_ * Eλ;
   }
   return ret;
 }
-- 
2.43.0


From bcc7c289d7dc65fb50e040195283b06494c7abbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:23 +0000
Subject: [PATCH 34/45] fix: temperature of mixtures is that of their phases

---
 code/cpp/src/system/variables/state.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/code/cpp/src/system/variables/state.cpp b/code/cpp/src/system/variables/state.cpp
index 17ed732..4ea9b4f 100644
--- a/code/cpp/src/system/variables/state.cpp
+++ b/code/cpp/src/system/variables/state.cpp
@@ -89,9 +89,17 @@ double temperature_prim(double ρ, double p, Params &MP) {
 }
 
 double temperature(VecVr Q, Par &MP) {
-  double ρ = Q(0);
-  double p = pressure(Q, MP);
-  return temperature_prim(ρ, p, MP);
+  if (MP.MULTI) {
+    Vec3 sol = solve_multi(Q, MP);
+    if (Q(mV) > 0)
+      return temperature_prim(sol(1), sol(0), MP);
+    else
+      return temperature_prim(sol(2), sol(0), MP.MP2);
+  } else {
+    double ρ = Q(0);
+    double p = pressure(Q, MP);
+    return temperature_prim(ρ, p, MP);
+  }
 }
 
 Vec3 heat_flux(double T, Vec3r J, Par &MP) {
-- 
2.43.0


From f21574f667890fa808e1af7f00e375e23ad84f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:09 +0000
Subject: [PATCH 35/45] fix: reactants ignite on compression beyond the
 threshold only

---
 code/cpp/src/system/variables/sources.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/system/variables/sources.cpp b/code/cpp/src/system/variables/sources.cpp
index 5937003..b3ad5e8 100644
--- a/code/cpp/src/system/variables/sources.cpp
+++ b/code/cpp/src/system/variables/sources.cpp
@@ -118,8 +118,9 @@ double reaction_rate(VecVr Q, Par &MP) {
 
     double ret = 0.;
 
-    if (φ < MP.φI)
-      ret += MP.I * std::pow(λ, MP.b) * std::pow(ρ / MP.ρ0 - 1 - MP.a, MP.x);
+    double η = ρ / MP.ρ0 - 1 - MP.a; // compression beyond that needed to ignite
+    if (φ < MP.φI && η > 0)
+      ret += MP.I * std::pow(λ, MP.b) * std::pow(η, MP.x);
 
     if (φ < MP.φG1)
       ret += MP.G1 * std::pow(λ, MP.c) * std::pow(φ, MP.d) * std::pow(p, MP.y);
-- 
2.43.0


From 95751e94268c533f45fdda1e5399b935745a9931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 36/45] fix: second phases of mixtures get the parameters of
 their own EOS

---
 code/python/gpr/misc/objects.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/code/python/gpr/misc/objects.py b/code/python/gpr/misc/objects.py
index cc52910..cd89510 100644
--- a/code/python/gpr/misc/objects.py
+++ b/code/python/gpr/misc/objects.py
@@ -147,36 +147,37 @@ def params(MP, Rc, EOS,
             MP.MP2.cv = cv_2
             MP.MP2.Tref = Tref_2
 
-        if EOS == 'sg':
+        if EOS_2 == 'sg':
             MP.MP2.γ = γ_2
             MP.MP2.pINF = pINF_2
 
-        elif EOS == 'smg':
+        elif EOS_2 == 'smg':
             MP.MP2.Γ0 = Γ0_2
             MP.MP2.c02 = c0_2**2
             MP.MP2.s = s_2
 
-        elif EOS == 'gr':
+        elif EOS_2 == 'gr':
             MP.MP2.c02 = c0_2**2
             MP.MP2.α = α_2
             MP.MP2.β = β_2
             MP.MP2.γ = γ_2
 
-        elif EOS == 'jwl' or EOS == 'cc':
+        elif EOS_2 == 'jwl' or EOS_2 == 'cc':
             MP.MP2.Γ0 = Γ0_2
             MP.MP2.A = A_2
             MP.MP2.B = B_2
             MP.MP2.R1 = R1_2
             MP.MP2.R2 = R2_2
 
-        if b0 is not None:
+        if b0_2:
             MP.MP2.b02 = b0_2**2
             MP.MP2.β = β_2
-            MP.MP2.μ = μ_2
+            if μ_2:
+                MP.MP2.μ = μ_2
             if n_2:
                 MP.MP2.n = n_2
 
-        if cα:
+        if cα_2:
             MP.MP2.cα2 = cα_2**2
             MP.MP2.κ = κ_2
 
@@ -238,6 +239,9 @@ def material_params(EOS, ρ0,
         if Tref_2 is None:
             Tref_2 = 0
 
+        if γ_2 and (pINF_2 is None):
+            pINF_2 = 0
+
         if β_2 is None:
             β_2 = 0
 
-- 
2.43.0


From 376c93bf99b006e7ca0b4e6ef58036b1d552a90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:47 +0000
Subject: [PATCH 37/45] fix: reference energies of JWL and Cochran-Chan
 materials have the derivative p_ref / rho^2 in Python too

---
 code/python/gpr/vars/mg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/python/gpr/vars/mg.py b/code/python/gpr/vars/mg.py
index 1f599e7..dab1b9f 100644
--- a/code/python/gpr/vars/mg.py
+++ b/code/python/gpr/vars/mg.py
@@ -195,7 +195,7 @@ def de_ref(ρ, MP):
         return c02 / (ρ * α) * (tmp - 1) * tmp
 
     elif EOS in [JWL, COCHRAN_CHAN]:
-        return e_ref(ρ, MP) / ρ**2
+        return p_ref(ρ, MP) / ρ**2
 
 
 def internal_energy(ρ, p, MP):
-- 
2.43.0


From 5334dbeb98b9d5731eee38df9866fbbddbd8de78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:47 +0000
Subject: [PATCH 38/45] =?UTF-8?q?fix:=20dTd=CF=81=20of=20the=20Python=20fr?=
 =?UTF-8?q?ont=20end=20includes=20the=20reference=20temperature?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 code/python/gpr/vars/mg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/python/gpr/vars/mg.py b/code/python/gpr/vars/mg.py
index dab1b9f..9bf3984 100644
--- a/code/python/gpr/vars/mg.py
+++ b/code/python/gpr/vars/mg.py
@@ -277,7 +277,9 @@ def dTdρ(ρ, p, MP):
     dΓ = dΓ_MG(ρ, MP)
     pr = p_ref(ρ, MP)
     dpr = dp_ref(ρ, MP)
-    return - (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / (ρ * Γ)**2 / cv
+    dφ = Γ * φ(ρ, MP) / ρ
+    return dφ * MP.Tref \
+        - (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / (ρ * Γ)**2 / cv
 
 
 def dTdp(ρ, MP):
-- 
2.43.0


From 9665d9fe5b919dc8c5c7a9b266619d44b32acd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:47 +0000
Subject: [PATCH 39/45] fix: theta1inv of the Python front end for fluids

---
 code/python/gpr/vars/sources.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/code/python/gpr/vars/sources.py b/code/python/gpr/vars/sources.py
index cb52065..edc1ba6 100644
--- a/code/python/gpr/vars/sources.py
+++ b/code/python/gpr/vars/sources.py
@@ -30,24 +30,36 @@ def theta1inv(ρ, A, MP):
         else:   # elastic solid
             return 0
 
+    elif MP.BINGHAM:
+
+        σY = MP.σY
+        σ = sigma(ρ, A, MP)
+        sn = norm(σ) / sqrt(2.)
+
+        if sn > σY:
+            return detA5_3 * MP.ρ0 / (2 * MP.μ) * (1 - σY / sn)
+        else:
+            return 0
+
     else:
 
         n = MP.n
-        const = detA5_3 * ρ0 / (2 * μ**(1/n))
+        const = detA5_3 * MP.ρ0 / (2 * MP.μ**(1/n))
 
         if MP.POWER_LAW:  # power law fluid
 
             σ = sigma(ρ, A, MP)
             sn = norm(σ) / sqrt(2.)
-            sn = min(sn, 1e8)   # Hacky fix
 
-            return const * sn**((1-n)/n)
+            if sn > 0:
+                return const * sn**((1-n)/n)
+            else:   # no stress to relax
+                return 0
 
         else:   # newtonian fluid
             return const
 
 
-
 def theta2inv(ρ, T, MP):
     """ Returns 1/θ2
     """
-- 
2.43.0


From b9b1830483e1bdf287ec68fe59fb8856690dfc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:47 +0000
Subject: [PATCH 40/45] fix: reaction rates of the Python front end

---
 code/python/gpr/misc/structures.py |  7 ++++---
 code/python/gpr/vars/sources.py    | 13 ++++++++-----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/code/python/gpr/misc/structures.py b/code/python/gpr/misc/structures.py
index 17244d5..059e294 100644
--- a/code/python/gpr/misc/structures.py
+++ b/code/python/gpr/misc/structures.py
@@ -3,6 +3,7 @@ from numpy import zeros
 import GPRpy
 
 from gpr.misc.functions import gram, sigma_norm
+from gpr.misc.objects import REACTION_CODES
 from gpr.vars.derivatives import dEdρ, dEdp, dEdA, dEdA_s, dEdJ, dTdρ, dTdp
 from gpr.vars.eos import total_energy
 from gpr.vars.sources import theta1inv, theta2inv, K_arr, K_dis, K_ing, f_δp
@@ -85,11 +86,11 @@ class State():
         return theta2inv(self.ρ, self.T(), self.MP)
 
     def K(self):
-        if self.MP.REACTION == 'a':
+        if self.MP.REACTION == REACTION_CODES['a']:
             return K_arr(self.ρ, self.λ, self.T(), self.MP)
-        elif self.MP.REACTION == 'd':
+        elif self.MP.REACTION == REACTION_CODES['d']:
             return K_dis(self.ρ, self.λ, self.T(), self.MP)
-        elif self.MP.REACTION == 'i':
+        elif self.MP.REACTION == REACTION_CODES['i']:
             return K_ing(self.ρ, self.λ, self.p(), self.MP)
 
     def f_body(self):
diff --git a/code/python/gpr/vars/sources.py b/code/python/gpr/vars/sources.py
index edc1ba6..153435b 100644
--- a/code/python/gpr/vars/sources.py
+++ b/code/python/gpr/vars/sources.py
@@ -73,7 +73,7 @@ def K_arr(ρ, λ, T, MP):
     Ea = MP.Ea
     Rc = MP.Rc
 
-    return Bc * λ * exp(-Ea / (Rc * T))
+    return Bc * max(λ, 0) * exp(-Ea / (Rc * T))
 
 
 def K_dis(ρ, λ, T, MP):
@@ -84,7 +84,7 @@ def K_dis(ρ, λ, T, MP):
     Kc = MP.Kc
 
     if T > Ti:
-        return λ * Kc
+        return max(λ, 0) * Kc
     else:
         return 0
 
@@ -105,15 +105,18 @@ def K_ing(ρ, λ, p, MP):
     x = MP.x
     y = MP.y
     z = MP.z
-    φIG = MP.φIG
+    φI = MP.φI
     φG1 = MP.φG1
     φG2 = MP.φG2
 
+    λ = min(max(λ, 0), 1)
+    p = max(p, 0)
     φ = 1 - λ
+    η = ρ / MP.ρ0 - 1 - a   # compression beyond that needed to ignite
 
     ret = 0
-    if φIG > φ:
-        ret += I * λ**b * (ρ - 1 - a)**x
+    if φI > φ and η > 0:
+        ret += I * λ**b * η**x
     if φG1 > φ:
         ret += G1 * λ**c * φ**d * p**y
     if φ > φG2:
-- 
2.43.0


From fb25889fb969de1c6cb3a21f5ac6bc6ed10abcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:15 +0000
Subject: [PATCH 41/45] fix: State takes the impulse and concentration from
 where the build keeps them

---
 code/python/gpr/misc/structures.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/code/python/gpr/misc/structures.py b/code/python/gpr/misc/structures.py
index 059e294..72a553f 100644
--- a/code/python/gpr/misc/structures.py
+++ b/code/python/gpr/misc/structures.py
@@ -23,13 +23,12 @@ class State():
         self.v = Q[2:5] / self.ρ
         self.A = Q[5:14].reshape([3, 3])
 
-        if MP.cα2:
+        i = 14
+        if GPRpy.options.THERMAL():
             self.J = Q[14:17] / self.ρ
-            if len(Q) > 17:
-                self.λ = Q[17] / Q[0]
-        else:
-            if len(Q) > 14:
-                self.λ = Q[14] / Q[0]
+            i = 17
+        if GPRpy.options.MULTI():
+            self.λ = Q[i] / self.ρ
 
         self.MP = MP
 
-- 
2.43.0


From 17dbe2db6bc2e65b16500f2524a43167126df77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:15 +0000
Subject: [PATCH 42/45] fix: c_inf of the Python front end calls c_0 and c_s2
 as they are

---
 code/python/gpr/vars/wavespeeds.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/python/gpr/vars/wavespeeds.py b/code/python/gpr/vars/wavespeeds.py
index 7de5cb5..3d3a022 100644
--- a/code/python/gpr/vars/wavespeeds.py
+++ b/code/python/gpr/vars/wavespeeds.py
@@ -1,6 +1,7 @@
 from numpy import sqrt
 
 from gpr.vars.derivatives import dEdρ, dEdp
+from gpr.vars.shear import c_s2
 
 
 def c_0(ρ, p, A, MP):
@@ -11,10 +12,10 @@ def c_0(ρ, p, A, MP):
     return sqrt((p / ρ**2 - dE_dρ) / dE_dp)
 
 
-def c_inf(ρ, p, MP):
+def c_inf(ρ, p, A, MP):
     """ Returns the longitudinal characteristic speed
     """
-    c0 = c_0(ρ, p, MP)
+    c0 = c_0(ρ, p, A, MP)
     cs2 = c_s2(ρ, MP)
     return sqrt(c0**2 + 4 / 3 * cs2)
 
-- 
2.43.0


From 89a703d49db05f2e616b1d6ed92134f6b68730dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:41 +0000
Subject: [PATCH 43/45] fix: Cvec gives mixtures the energy of both of their
 phases

---
 code/python/gpr/vars/eos.py | 47 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/code/python/gpr/vars/eos.py b/code/python/gpr/vars/eos.py
index b12c341..75cfc04 100644
--- a/code/python/gpr/vars/eos.py
+++ b/code/python/gpr/vars/eos.py
@@ -1,3 +1,5 @@
+from scipy.optimize import brentq
+
 from gpr.misc.functions import dev, gram, L2_1D, L2_2D
 from gpr.vars import mg
 from gpr.vars.shear import C_0
@@ -9,6 +11,46 @@ def E_1(ρ, p, MP):
     return mg.internal_energy(ρ, p, MP)
 
 
+def E_1_multi(ρ, p, λ, MP):
+    """ Returns the microscale energy of a mixture, the phases of which have
+        the same pressure and temperature, with densities as close to each
+        other as possible
+    """
+    if λ >= 1:
+        return E_1(ρ, p, MP)
+    elif λ <= 0:
+        return E_1(ρ, p, MP.MP2)
+
+    def densities(α):
+        return λ * ρ / α, (1 - λ) * ρ / (1 - α)
+
+    def ΔT(α):
+        ρ1, ρ2 = densities(α)
+        return mg.temperature(ρ1, p, MP) - mg.temperature(ρ2, p, MP.MP2)
+
+    n = 50
+    α = λ
+    left = right = λ
+    ΔT_left = ΔT_right = ΔT(λ)
+    for i in range(1, n + 1):
+        x = i / n if i < n else 1 - 1e-6
+        next_left = λ * (1 - x)
+        ΔT_next = ΔT(next_left)
+        if ΔT_next * ΔT_left <= 0:
+            α = brentq(ΔT, next_left, left, xtol=1e-15)
+            break
+        left, ΔT_left = next_left, ΔT_next
+        next_right = λ + (1 - λ) * x
+        ΔT_next = ΔT(next_right)
+        if ΔT_next * ΔT_right <= 0:
+            α = brentq(ΔT, right, next_right, xtol=1e-15)
+            break
+        right, ΔT_right = next_right, ΔT_next
+
+    ρ1, ρ2 = densities(α)
+    return λ * E_1(ρ1, p, MP) + (1 - λ) * E_1(ρ2, p, MP.MP2)
+
+
 def E_2A(ρ, A, MP):
     """ Returns the mesoscale energy dependent on the distortion
     """
@@ -41,7 +83,10 @@ def E_R(λ, MP):
 def total_energy(ρ, p, v, A, J, λ, MP):
     """ Returns the total energy
     """
-    ret = E_1(ρ, p, MP)
+    if MP.MULTI and λ is not None:
+        ret = E_1_multi(ρ, p, λ, MP)
+    else:
+        ret = E_1(ρ, p, MP)
 
     if A is not None:
         ret += E_2A(ρ, A, MP)
-- 
2.43.0


From 5608a4df7feeb4f4c64db34fe887a17401007c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:22 +0000
Subject: [PATCH 44/45] fix: entropy_hyp uses log without importing it

---
 code/python/gpr/vars/hyp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/python/gpr/vars/hyp.py b/code/python/gpr/vars/hyp.py
index 81edbe4..585f09e 100644
--- a/code/python/gpr/vars/hyp.py
+++ b/code/python/gpr/vars/hyp.py
@@ -1,4 +1,4 @@
-from numpy import dot, exp, eye, zeros
+from numpy import dot, exp, eye, log, zeros
 from numpy.linalg import det, inv
 
 from gpr.misc.functions import I_1, I_2, I_3, gram
-- 
2.43.0


From a0d84b8de61ced3e7c7b47654ad904ebc044929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:06 +0000
Subject: [PATCH 45/45] fix: interfaces without friction kept tangential
 tractions when the normal components already matched

---
 code/cpp/src/system/multi/riemann.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/cpp/src/system/multi/riemann.cpp b/code/cpp/src/system/multi/riemann.cpp
index cb28578..21c9066 100644
--- a/code/cpp/src/system/multi/riemann.cpp
+++ b/code/cpp/src/system/multi/riemann.cpp
@@ -42,6 +42,9 @@ bool check_star_convergence(VecVr QL_, VecVr QR_, Par &MPL, Par &MPR) {
       cond &= (vL_ - vR_).cwiseAbs().maxCoeff() / sqrt(b02) < STAR_TOL;
     } else {
       cond = std::abs(ΣL_(0) - ΣR_(0)) / (b02 * ρ0) < STAR_TOL;
+      // no friction
+      cond &= ΣL_.tail<2>().cwiseAbs().maxCoeff() / (b02 * ρ0) < STAR_TOL;
+      cond &= ΣR_.tail<2>().cwiseAbs().maxCoeff() / (b02 * ρ0) < STAR_TOL;
       cond &= std::abs(vL_(0) - vR_(0)) / sqrt(b02) < STAR_TOL;
     }
   } else {
-- 
2.43.0

