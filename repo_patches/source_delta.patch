From 78d10c1d16c9c3765318f72abe2f612c6c291289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 01/11] fix: muscl hydro half-step predictor uses dt/dx and
 dt/dy (and dt/dz) of each direction

trace_unsplit_{2d,3d}_along_dir multiplied the transverse derivative terms by the
time step over the resolution of the face direction, which is wrong as soon as
the cells are not square/cubic.
---
 src/muscl/HydroBaseFunctor2D.h | 40 +++++++++----------
 src/muscl/HydroBaseFunctor3D.h | 72 +++++++++++++++++-----------------
 2 files changed, 57 insertions(+), 55 deletions(-)

diff --git a/src/muscl/HydroBaseFunctor2D.h b/src/muscl/HydroBaseFunctor2D.h
index 37f44fe..968bd9c 100644
--- a/src/muscl/HydroBaseFunctor2D.h
+++ b/src/muscl/HydroBaseFunctor2D.h
@@ -245,48 +245,48 @@ public:
     real_t dvy = dqY[IV];
 
     // source terms (with transverse derivatives)
-    real_t sr0 = -u * drx - v * dry - (dux + dvy) * r;
-    real_t sp0 = -u * dpx - v * dpy - (dux + dvy) * gamma0 * p;
-    real_t su0 = -u * dux - v * duy - (dpx) / r;
-    real_t sv0 = -u * dvx - v * dvy - (dpy) / r;
+    real_t sr0 = (-u * drx - dux * r) * dtdx + (-v * dry - dvy * r) * dtdy;
+    real_t sp0 = (-u * dpx - dux * gamma0 * p) * dtdx + (-v * dpy - dvy * gamma0 * p) * dtdy;
+    real_t su0 = (-u * dux - dpx / r) * dtdx + (-v * duy) * dtdy;
+    real_t sv0 = (-u * dvx) * dtdx + (-v * dvy - dpy / r) * dtdy;
 
     if (faceId == FACE_XMIN)
     {
       // Right state at left interface
-      qface[ID] = r - HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p - HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u - HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v - HALF_F * dvx + sv0 * dtdx * HALF_F;
+      qface[ID] = r - HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvx + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_XMAX)
     {
       // Left state at right interface
-      qface[ID] = r + HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p + HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u + HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v + HALF_F * dvx + sv0 * dtdx * HALF_F;
+      qface[ID] = r + HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvx + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMIN)
     {
       // Top state at bottom interface
-      qface[ID] = r - HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p - HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u - HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v - HALF_F * dvy + sv0 * dtdy * HALF_F;
+      qface[ID] = r - HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvy + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMAX)
     {
       // Bottom state at top interface
-      qface[ID] = r + HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p + HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u + HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v + HALF_F * dvy + sv0 * dtdy * HALF_F;
+      qface[ID] = r + HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvy + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
diff --git a/src/muscl/HydroBaseFunctor3D.h b/src/muscl/HydroBaseFunctor3D.h
index a8f6622..6b2b105 100644
--- a/src/muscl/HydroBaseFunctor3D.h
+++ b/src/muscl/HydroBaseFunctor3D.h
@@ -314,75 +314,77 @@ public:
     real_t dwz = dqZ[IW];
 
     // source terms (with transverse derivatives)
-    real_t sr0 = -u * drx - v * dry - w * drz - (dux + dvy + dwz) * r;
-    real_t sp0 = -u * dpx - v * dpy - w * dpz - (dux + dvy + dwz) * gamma0 * p;
-    real_t su0 = -u * dux - v * duy - w * duz - (dpx) / r;
-    real_t sv0 = -u * dvx - v * dvy - w * dvz - (dpy) / r;
-    real_t sw0 = -u * dwx - v * dwy - w * dwz - (dpz) / r;
+    real_t sr0 =
+      (-u * drx - dux * r) * dtdx + (-v * dry - dvy * r) * dtdy + (-w * drz - dwz * r) * dtdz;
+    real_t su0 = (-u * dux - dpx / r) * dtdx + (-v * duy) * dtdy + (-w * duz) * dtdz;
+    real_t sv0 = (-u * dvx) * dtdx + (-v * dvy - dpy / r) * dtdy + (-w * dvz) * dtdz;
+    real_t sw0 = (-u * dwx) * dtdx + (-v * dwy) * dtdy + (-w * dwz - dpz / r) * dtdz;
+    real_t sp0 = (-u * dpx - dux * gamma0 * p) * dtdx + (-v * dpy - dvy * gamma0 * p) * dtdy +
+                 (-w * dpz - dwz * gamma0 * p) * dtdz;
 
     if (faceId == FACE_XMIN)
     {
       // Right state at left interface
-      qface[ID] = r - HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p - HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u - HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v - HALF_F * dvx + sv0 * dtdx * HALF_F;
-      qface[IW] = w - HALF_F * dwx + sw0 * dtdx * HALF_F;
+      qface[ID] = r - HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvx + sv0 * HALF_F;
+      qface[IW] = w - HALF_F * dwx + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_XMAX)
     {
       // Left state at right interface
-      qface[ID] = r + HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p + HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u + HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v + HALF_F * dvx + sv0 * dtdx * HALF_F;
-      qface[IW] = w + HALF_F * dwx + sw0 * dtdx * HALF_F;
+      qface[ID] = r + HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvx + sv0 * HALF_F;
+      qface[IW] = w + HALF_F * dwx + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMIN)
     {
       // Top state at bottom interface
-      qface[ID] = r - HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p - HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u - HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v - HALF_F * dvy + sv0 * dtdy * HALF_F;
-      qface[IW] = w - HALF_F * dwy + sw0 * dtdy * HALF_F;
+      qface[ID] = r - HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvy + sv0 * HALF_F;
+      qface[IW] = w - HALF_F * dwy + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMAX)
     {
       // Bottom state at top interface
-      qface[ID] = r + HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p + HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u + HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v + HALF_F * dvy + sv0 * dtdy * HALF_F;
-      qface[IW] = w + HALF_F * dwy + sw0 * dtdy * HALF_F;
+      qface[ID] = r + HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvy + sv0 * HALF_F;
+      qface[IW] = w + HALF_F * dwy + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_ZMIN)
     {
       // Top state at bottom interface
-      qface[ID] = r - HALF_F * drz + sr0 * dtdz * HALF_F;
-      qface[IP] = p - HALF_F * dpz + sp0 * dtdz * HALF_F;
-      qface[IU] = u - HALF_F * duz + su0 * dtdz * HALF_F;
-      qface[IV] = v - HALF_F * dvz + sv0 * dtdz * HALF_F;
-      qface[IW] = w - HALF_F * dwz + sw0 * dtdz * HALF_F;
+      qface[ID] = r - HALF_F * drz + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpz + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * duz + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvz + sv0 * HALF_F;
+      qface[IW] = w - HALF_F * dwz + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_ZMAX)
     {
       // Top state at bottom interface
-      qface[ID] = r + HALF_F * drz + sr0 * dtdz * HALF_F;
-      qface[IP] = p + HALF_F * dpz + sp0 * dtdz * HALF_F;
-      qface[IU] = u + HALF_F * duz + su0 * dtdz * HALF_F;
-      qface[IV] = v + HALF_F * dvz + sv0 * dtdz * HALF_F;
-      qface[IW] = w + HALF_F * dwz + sw0 * dtdz * HALF_F;
+      qface[ID] = r + HALF_F * drz + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpz + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * duz + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvz + sv0 * HALF_F;
+      qface[IW] = w + HALF_F * dwz + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
-- 
2.43.0


From 9a27fb783def4397175273ac67163f1e73336aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 02/11] fix: muscl hydro 3D implementation 1: gravity predictor
 on the upper side of Z faces

The right state at Z interfaces did not get the half time step gravity predictor,
contrary to the X and Y interfaces and to implementation 0.
---
 src/muscl/HydroRunFunctors3D.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/muscl/HydroRunFunctors3D.h b/src/muscl/HydroRunFunctors3D.h
index 5d59a9e..c28c195 100644
--- a/src/muscl/HydroRunFunctors3D.h
+++ b/src/muscl/HydroRunFunctors3D.h
@@ -1346,6 +1346,16 @@ public:
         // left interface : right state
         trace_unsplit_3d_along_dir(qLoc, dqX, dqY, dqZ, dtdx, dtdy, dtdz, FACE_ZMIN, qright);
 
+        if (gravity_enabled)
+        {
+          // we need to modify input to flux computation with
+          // gravity predictor (half time step)
+
+          qright[IU] += 0.5 * dt * gravity(i, j, k, IX);
+          qright[IV] += 0.5 * dt * gravity(i, j, k, IY);
+          qright[IW] += 0.5 * dt * gravity(i, j, k, IZ);
+        }
+
         qLocNeighbor[ID] = Qdata(i, j, k - 1, ID);
         dqX_neighbor[ID] = Slopes_x(i, j, k - 1, ID);
         dqY_neighbor[ID] = Slopes_y(i, j, k - 1, ID);
-- 
2.43.0


From 20b0ee2d86b2ff0d68ba61f96bd8d1f722f8e284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 03/11] fix: riemann_hydro 3D overload dispatches the HLL
 solver (flux was left uninitialised)

---
 src/shared/RiemannSolvers.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/shared/RiemannSolvers.h b/src/shared/RiemannSolvers.h
index 05c3396..c6be4f9 100644
--- a/src/shared/RiemannSolvers.h
+++ b/src/shared/RiemannSolvers.h
@@ -619,6 +619,11 @@ riemann_hydro(const HydroState3d & qleft,
 
     riemann_approx<HydroState3d>(qleft, qright, qgdnv, flux, params);
   }
+  else if (params.riemannSolverType == RIEMANN_HLL)
+  {
+
+    riemann_hll<HydroState3d>(qleft, qright, qgdnv, flux, params);
+  }
   else if (params.riemannSolverType == RIEMANN_HLLC)
   {
 
-- 
2.43.0


From ea899bb727014f063824eab49c5ca38cfdda6af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:18 +0000
Subject: [PATCH 04/11] fix: muscl MHD 3D: limited slope of Bz along Z uses the
 lower Z neighbour

---
 src/muscl/MHDBaseFunctor3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/MHDBaseFunctor3D.h b/src/muscl/MHDBaseFunctor3D.h
index cd068c7..d63a6e9 100644
--- a/src/muscl/MHDBaseFunctor3D.h
+++ b/src/muscl/MHDBaseFunctor3D.h
@@ -455,7 +455,7 @@ public:
                                     qPlusY[IC],
                                     qMinusY[IC],
                                     qPlusZ[IC],
-                                    qMinusY[IC],
+                                    qMinusZ[IC],
                                     &(dqX[IC]),
                                     &(dqY[IC]),
                                     &(dqZ[IC]));
-- 
2.43.0


From 19194df9c034c51d11f54df832a1f254902f81a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:18 +0000
Subject: [PATCH 05/11] fix: muscl MHD 3D: limited slope of face-centred field
 along Z uses the lower Z neighbour

---
 src/muscl/MHDBaseFunctor3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/MHDBaseFunctor3D.h b/src/muscl/MHDBaseFunctor3D.h
index d63a6e9..adfa142 100644
--- a/src/muscl/MHDBaseFunctor3D.h
+++ b/src/muscl/MHDBaseFunctor3D.h
@@ -139,7 +139,7 @@ public:
     // clang-format off
     const auto b       = udata(i          , j          , k          , component);
     const auto b_plus  = udata(i + delta_i, j + delta_j, k + delta_k, component);
-    const auto b_minus = udata(i - delta_i, j - delta_j, k + delta_k, component);
+    const auto b_minus = udata(i - delta_i, j - delta_j, k - delta_k, component);
     // clang-format on
 
     const real_t dlft = params.settings.slope_type * (b - b_minus);
-- 
2.43.0


From e01f21d3d0d0657521a5bae5a3ebff1a6a5bc193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:18 +0000
Subject: [PATCH 06/11] fix: muscl MHD slopes are zero (not uninitialised) when
 slope_type is 0

---
 src/muscl/MHDBaseFunctor2D.h | 15 +++++++++++++++
 src/muscl/MHDBaseFunctor3D.h |  6 ++++++
 2 files changed, 21 insertions(+)

diff --git a/src/muscl/MHDBaseFunctor2D.h b/src/muscl/MHDBaseFunctor2D.h
index 1cebea3..158868d 100644
--- a/src/muscl/MHDBaseFunctor2D.h
+++ b/src/muscl/MHDBaseFunctor2D.h
@@ -386,6 +386,15 @@ public:
       slope_unsplit_hydro_2d_scalar(
         q[IC], qPlusX[IC], qMinusX[IC], qPlusY[IC], qMinusY[IC], &(dqX[IC]), &(dqY[IC]));
     }
+    else
+    { // slope_type = 0
+
+      for (int iVar = 0; iVar < 8; ++iVar)
+      {
+        dqX[iVar] = ZERO_F;
+        dqY[iVar] = ZERO_F;
+      }
+    }
 
   } // slope_unsplit_hydro_2d
 
@@ -429,6 +438,12 @@ public:
       dq[IB] = slope_unsplit_hydro_2d_scalar(q[IB], qp[IB], qm[IB]);
       dq[IC] = slope_unsplit_hydro_2d_scalar(q[IC], qp[IC], qm[IC]);
     }
+    else
+    { // slope_type = 0
+
+      for (int iVar = 0; iVar < 8; ++iVar)
+        dq[iVar] = ZERO_F;
+    }
 
   } // slope_unsplit_hydro_2d
 
diff --git a/src/muscl/MHDBaseFunctor3D.h b/src/muscl/MHDBaseFunctor3D.h
index adfa142..d60bb88 100644
--- a/src/muscl/MHDBaseFunctor3D.h
+++ b/src/muscl/MHDBaseFunctor3D.h
@@ -534,6 +534,12 @@ public:
       dq[IB] = slope_unsplit_hydro_3d_scalar(q[IB], qp[IB], qm[IB]);
       dq[IC] = slope_unsplit_hydro_3d_scalar(q[IC], qp[IC], qm[IC]);
     }
+    else
+    { // slope_type = 0
+
+      for (int iVar = 0; iVar < 8; ++iVar)
+        dq[iVar] = ZERO_F;
+    }
 
   } // slope_unsplit_hydro_3d
 
-- 
2.43.0


From 485dcac7fb3ae6b5a080a92889b3bac45d81577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:03 +0000
Subject: [PATCH 07/11] fix: MHD HLLD solver detects the degenerate star state
 (no 0/0 when the fast wave is an Alfven wave)

---
 src/shared/RiemannSolvers_MHD.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/RiemannSolvers_MHD.h b/src/shared/RiemannSolvers_MHD.h
index 86ed921..398dd1c 100644
--- a/src/shared/RiemannSolvers_MHD.h
+++ b/src/shared/RiemannSolvers_MHD.h
@@ -210,7 +210,7 @@ riemann_hlld(MHDState & qleft, MHDState & qright, MHDState & flux, const HydroPa
   real_t vstarl, wstarl;
   real_t bstarl, cstarl;
   // not very good (should use a small energy cut-off !!!)
-  if (a * a > 0 and fabs(estar / (a * a) - ONE_F) <= 1e-8)
+  if (a * a > 0 and fabs(estar / (a * a)) <= 1e-8)
   {
     vstarl = vl;
     bstarl = bl;
@@ -240,7 +240,7 @@ riemann_hlld(MHDState & qleft, MHDState & qright, MHDState & flux, const HydroPa
   real_t vstarr, wstarr;
   real_t bstarr, cstarr;
   // not very good (should use a small energy cut-off !!!)
-  if (a * a > 0 and fabs(estar / (a * a) - ONE_F) <= 1e-8)
+  if (a * a > 0 and fabs(estar / (a * a)) <= 1e-8)
   {
     vstarr = vr;
     bstarr = br;
-- 
2.43.0


From 5d15eaf332be33cc954e130a34597e3997200ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:01 +0000
Subject: [PATCH 08/11] fix: 2D MHD primitive variables use the cell's own z
 magnetic field instead of averaging it with zero

---
 src/muscl/MHDRunFunctors2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/MHDRunFunctors2D.h b/src/muscl/MHDRunFunctors2D.h
index 51c6592..9d5a505 100644
--- a/src/muscl/MHDRunFunctors2D.h
+++ b/src/muscl/MHDRunFunctors2D.h
@@ -136,7 +136,7 @@ public:
       // get mag field in neighbor cells
       magFieldNeighbors[IX] = Udata(i + 1, j, IA);
       magFieldNeighbors[IY] = Udata(i, j + 1, IB);
-      magFieldNeighbors[IZ] = 0.0;
+      magFieldNeighbors[IZ] = Udata(i, j, IC); // invariant along z
 
       // get primitive variables in current cell
       constoprim_mhd(uLoc, magFieldNeighbors, c, qLoc);
-- 
2.43.0


From c4e4c5fe581ee21faf8dabff525d74ae2f09c17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:01 +0000
Subject: [PATCH 09/11] fix: 3D MHD edge reconstruction (implementation 2) adds
 the slopes of By once

---
 src/muscl/MHDRunFunctors3D.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/muscl/MHDRunFunctors3D.h b/src/muscl/MHDRunFunctors3D.h
index feef699..6f76a18 100644
--- a/src/muscl/MHDRunFunctors3D.h
+++ b/src/muscl/MHDRunFunctors3D.h
@@ -1500,12 +1500,7 @@ public:
     {
       qEdge[IB] = B0 + 0.5 * (sign_b0 * dB0d1);
     }
-    else
-    {
-      qEdge[IB] += 0.5 * (sign_dq0 * dq0[IB] + sign_dq1 * dq1[IB]);
-    }
-
-    if (dir1 == IY)
+    else if (dir1 == IY)
     {
       qEdge[IB] = B1 + 0.5 * (sign_b1 * dB1d0);
     }
-- 
2.43.0


From 4267f58100ed416bdc438a4c036071a5694160dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:23 +0000
Subject: [PATCH 10/11] fix: SDM geometry copies the flux point locations to
 the device arrays

---
 src/sdm/SDM_Geometry.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sdm/SDM_Geometry.h b/src/sdm/SDM_Geometry.h
index e994a75..d70fb17 100644
--- a/src/sdm/SDM_Geometry.h
+++ b/src/sdm/SDM_Geometry.h
@@ -268,6 +268,10 @@ public:
       }
     }
 
+    // copy flux point coordinates on DEVICE
+    Kokkos::deep_copy(flux_x_pts, flux_x_pts_host);
+    Kokkos::deep_copy(flux_y_pts, flux_y_pts_host);
+
   } // init for 2D
 
   // =======================================================
@@ -385,6 +389,11 @@ public:
       }
     }
 
+    // copy flux point coordinates on DEVICE
+    Kokkos::deep_copy(flux_x_pts, flux_x_pts_host);
+    Kokkos::deep_copy(flux_y_pts, flux_y_pts_host);
+    Kokkos::deep_copy(flux_z_pts, flux_z_pts_host);
+
   } // init for 3D
 
 private:
-- 
2.43.0


From 7162640e9c270e5a2c8bb39c6e6e99fdd8013677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:23 +0000
Subject: [PATCH 11/11] fix: EulerEquations::compute_speed_of_sound returns the
 speed of sound, not its square

---
 src/shared/EulerEquations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/EulerEquations.h b/src/shared/EulerEquations.h
index fa63c53..de1b014 100644
--- a/src/shared/EulerEquations.h
+++ b/src/shared/EulerEquations.h
@@ -118,7 +118,7 @@ struct EulerEquations<2>
   compute_speed_of_sound(const HydroState & w, real_t gamma0)
   {
 
-    return w[IP] * gamma0 / w[ID];
+    return sqrt(w[IP] * gamma0 / w[ID]);
 
   } // compute_speed_of_sound
 
@@ -515,7 +515,7 @@ struct EulerEquations<3>
   compute_speed_of_sound(const HydroState & w, real_t gamma0)
   {
 
-    return w[IP] * gamma0 / w[ID];
+    return sqrt(w[IP] * gamma0 / w[ID]);
 
   } // compute_speed_of_sound
 
-- 
2.43.0

