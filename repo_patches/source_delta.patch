From 312013c4b0958b750ee5e883256a3f8052d85854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 001/104] fix: wrap the last grid index of the interlaced TSC
 shadow field

For a particle in the upper half of the last-but-one cell the third node of
the half-cell-shifted TSC kernel was not wrapped, so its weight was added to
a wrong grid cell or dropped.
---
 src/triumvirate/src/field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 37d55a5..43acd2a 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -945,7 +945,7 @@ OMP_ATOMIC
           ijk[0][iaxis] = idx_grid;
           ijk[1][iaxis] = (idx_grid == this->params.ngrid[iaxis] - 1)
             ? 0 : ijk[0][iaxis] + 1;
-          ijk[2][iaxis] = (idx_grid == this->params.ngrid[iaxis] - 1)
+          ijk[2][iaxis] = (ijk[1][iaxis] == this->params.ngrid[iaxis] - 1)
             ? 0 : ijk[1][iaxis] + 1;
         }
 
-- 
2.43.0


From 1b6ff4a771743acc1538b2ad1c2f6cdc341b867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 002/104] fix: assign particles at the upper box boundary to
 the mesh

A particle whose coordinate equals the box size (e.g. the extremal particle
of a catalogue that exactly fills the box, or one placed there by rounding
when periodised) was dropped or assigned to unrelated cells; wrap it as the
periodic boundary condition requires, with and without interlacing.
---
 src/triumvirate/src/field.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 43acd2a..689ae29 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -643,6 +643,11 @@ void MeshField::assign_weighted_field_to_mesh_ngp(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      // Impose the periodic boundary condition.
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
       if (loc_grid - idx_grid >= 0.5) {
         idx_grid = (idx_grid == this->params.ngrid[iaxis] - 1)
@@ -689,7 +694,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -753,6 +758,11 @@ void MeshField::assign_weighted_field_to_mesh_cic(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      // Impose the periodic boundary condition.
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
 
       ijk[0][iaxis] = idx_grid;
@@ -800,7 +810,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -864,6 +874,11 @@ void MeshField::assign_weighted_field_to_mesh_tsc(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      // Impose the periodic boundary condition.
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
 
       if (loc_grid - idx_grid < 0.5) {
@@ -929,7 +944,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -1012,6 +1027,11 @@ void MeshField::assign_weighted_field_to_mesh_pcs(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      // Impose the periodic boundary condition.
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
 
       ijk[0][iaxis] = (idx_grid == 0)
@@ -1067,7 +1087,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
-- 
2.43.0


From 8dcc4251e2b66b3b631c35b1dcc011457388e310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 003/104] fix: subtract the mean density from the interlaced
 shadow field

Only the main mesh field had the mean subtracted, so that with interlacing
half of the mean remained in the zero mode of the fluctuations.
---
 src/triumvirate/src/field.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 689ae29..2f3d1d0 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -1261,6 +1261,15 @@ void MeshField::compute_unweighted_field_fluctuations_insitu(
     this->field[gid][0] -= nbar;
     // this->field[gid][1] -= 0.; (unused)
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] -= nbar;
+    }
+  }
 }
 
 void MeshField::compute_ylm_wgtd_field(
-- 
2.43.0


From 1ec07759abc5353a81d1eb108f2e7e18ad5cdd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 004/104] fix: apply the alpha contrast to interlaced
 single-catalogue fields

The alpha factor was applied to the main mesh field but not to its
interlaced counterpart.
---
 src/triumvirate/src/field.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 2f3d1d0..b02ba1a 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -1388,6 +1388,16 @@ void MeshField::compute_ylm_wgtd_field(
     this->field[gid][0] *= alpha;
     this->field[gid][1] *= alpha;
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] *= alpha;
+      this->field_s[gid][1] *= alpha;
+    }
+  }
 }
 
 void MeshField::compute_ylm_wgtd_quad_field(
@@ -1515,6 +1525,16 @@ void MeshField::compute_ylm_wgtd_quad_field(
     this->field[gid][0] *= std::pow(alpha, 2);
     this->field[gid][1] *= std::pow(alpha, 2);
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] *= std::pow(alpha, 2);
+      this->field_s[gid][1] *= std::pow(alpha, 2);
+    }
+  }
 }
 
 
-- 
2.43.0


From fdc8999b51b8d755fea4ef4aac86bb10f9a3ffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 005/104] fix: stay inside the data vector in full-form
 bispectrum shot noise

The loop over rows went one row too far when filling the S_{ik|j} shot noise
of the full form (ell1 = 0), writing past the end of the vector.
---
 src/triumvirate/src/threept.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/src/threept.cpp b/src/triumvirate/src/threept.cpp
index a08f818..6a38c39 100644
--- a/src/triumvirate/src/threept.cpp
+++ b/src/triumvirate/src/threept.cpp
@@ -924,7 +924,7 @@ trv::BispecMeasurements compute_bispec(
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
-              for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+              for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
                 int idx_dv = idx_row * params.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
@@ -2100,7 +2100,7 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
             std::complex<double> S_ik_j_ki_col_ = coupling * (
               stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
             );
-            for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
               int idx_dv = idx_row * params.num_bins + idx_col;
               sn_dv[idx_dv] +=
                 S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
@@ -3876,7 +3876,7 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
-              for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+              for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
                 int idx_dv = idx_row * params.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
-- 
2.43.0


From 7c999ae14e0a3e6cf2e5ad3fef30c6d61349af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 006/104] fix: keep processed path parameters in the mixed-mesh
 normalisation

The parameter set copied for the mixed-mesh normalisation has already been
initialised, so re-initialising it turned a disabled FFTW wisdom option
into the path '/', which the 'estimate' planner scheme rejects.
---
 src/triumvirate/src/twopt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/twopt.cpp b/src/triumvirate/src/twopt.cpp
index f840a86..c2bed46 100644
--- a/src/triumvirate/src/twopt.cpp
+++ b/src/triumvirate/src/twopt.cpp
@@ -253,7 +253,7 @@ double calc_powspec_normalisation_from_meshes(
 
   params_norm.assignment = assignment;
 
-  params_norm.validate(true);
+  params_norm.validate();
 
   // Reuse existing overloaded method.
   double norm_factor = calc_powspec_normalisation_from_meshes(
-- 
2.43.0


From c9f368cc484339860b54bda3209d994024177ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 007/104] fix: translate C++ exceptions raised in measurement
 routines

Extern declarations without 'except +' made any C++ exception (invalid
parameters, non-positive data) terminate the Python interpreter.
---
 src/triumvirate/_field.pxd   |  2 +-
 src/triumvirate/_threept.pyx | 12 ++++++------
 src/triumvirate/_twopt.pyx   | 16 ++++++++--------
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/triumvirate/_field.pxd b/src/triumvirate/_field.pxd
index e25f7b9..ccc7311 100644
--- a/src/triumvirate/_field.pxd
+++ b/src/triumvirate/_field.pxd
@@ -10,7 +10,7 @@ from .parameters cimport CppParameterSet
 
 cdef extern from "include/field.hpp":
     cdef cppclass CppFieldStats "trv::FieldStats":
-        CppFieldStats(CppParameterSet& params, bool_t plan_ini)
+        CppFieldStats(CppParameterSet& params, bool_t plan_ini) except +
 
         BinnedVectors record_binned_vectors(
             CppBinning& binning,
diff --git a/src/triumvirate/_threept.pyx b/src/triumvirate/_threept.pyx
index 0e8c39f..34cbd65 100644
--- a/src/triumvirate/_threept.pyx
+++ b/src/triumvirate/_threept.pyx
@@ -40,7 +40,7 @@ cdef extern from "include/threept.hpp":
             CppParticleCatalogue& particles,
             CppParameterSet& params,
             double alpha
-        )
+        ) except +
 
 
     # --------------------------------------------------------------------
@@ -55,7 +55,7 @@ cdef extern from "include/threept.hpp":
         CppParameterSet& params,
         CppBinning& kbinning,
         double norm_factor
-    )
+    ) except +
 
     ThreePCFMeasurements compute_3pcf_cpp "trv::compute_3pcf" (
         CppParticleCatalogue& catalogue_data,
@@ -65,7 +65,7 @@ cdef extern from "include/threept.hpp":
         CppParameterSet& params,
         CppBinning& rbinning,
         double norm_factor
-    )
+    ) except +
 
     BispecMeasurements compute_bispec_in_gpp_box_cpp \
         "trv::compute_bispec_in_gpp_box" (
@@ -73,7 +73,7 @@ cdef extern from "include/threept.hpp":
             CppParameterSet& params,
             CppBinning& kbinning,
             double norm_factor
-        )
+        ) except +
 
     ThreePCFMeasurements compute_3pcf_in_gpp_box_cpp \
         "trv::compute_3pcf_in_gpp_box" (
@@ -81,7 +81,7 @@ cdef extern from "include/threept.hpp":
             CppParameterSet& params,
             CppBinning& rbinning,
             double norm_factor
-        )
+        ) except +
 
     ThreePCFWindowMeasurements compute_3pcf_window_cpp \
         "trv::compute_3pcf_window" (
@@ -92,7 +92,7 @@ cdef extern from "include/threept.hpp":
             double alpha,
             double norm_factor,
             bool_t wide_angle
-        )
+        ) except +
 
     # BispecMeasurements compute_bispec_for_los_choice_cpp \
     #     "trv::compute_bispec_for_los_choice" (
diff --git a/src/triumvirate/_twopt.pyx b/src/triumvirate/_twopt.pyx
index b258a22..e9522f6 100644
--- a/src/triumvirate/_twopt.pyx
+++ b/src/triumvirate/_twopt.pyx
@@ -40,7 +40,7 @@ cdef extern from "include/twopt.hpp":
             CppParticleCatalogue& particles,
             CppParameterSet& params,
             double alpha
-        )
+        ) except +
 
     double calc_powspec_normalisation_from_meshes_cpp \
         "trv::calc_powspec_normalisation_from_meshes" (
@@ -48,7 +48,7 @@ cdef extern from "include/twopt.hpp":
             CppParticleCatalogue& particles_rand,
             CppParameterSet& params,
             double alpha
-        )
+        ) except +
 
     double calc_powspec_normalisation_from_meshes_cpp \
         "trv::calc_powspec_normalisation_from_meshes" (
@@ -59,7 +59,7 @@ cdef extern from "include/twopt.hpp":
             double padding,
             double cellsize,
             string assignment
-        )
+        ) except +
 
 
     # --------------------------------------------------------------------
@@ -74,7 +74,7 @@ cdef extern from "include/twopt.hpp":
         CppParameterSet& params,
         CppBinning& kbinning,
         double norm_factor
-    )
+    ) except +
 
     TwoPCFMeasurements compute_corrfunc_cpp "trv::compute_corrfunc" (
         CppParticleCatalogue& catalogue_data,
@@ -84,7 +84,7 @@ cdef extern from "include/twopt.hpp":
         CppParameterSet& params,
         CppBinning& rbinning,
         double norm_factor
-    )
+    ) except +
 
     PowspecMeasurements compute_powspec_in_gpp_box_cpp \
         "trv::compute_powspec_in_gpp_box" (
@@ -92,7 +92,7 @@ cdef extern from "include/twopt.hpp":
             CppParameterSet& params,
             CppBinning& kbinning,
             double norm_factor
-        )
+        ) except +
 
     TwoPCFMeasurements compute_corrfunc_in_gpp_box_cpp \
         "trv::compute_corrfunc_in_gpp_box" (
@@ -100,7 +100,7 @@ cdef extern from "include/twopt.hpp":
             CppParameterSet& params,
             CppBinning& rbinning,
             double norm_factor
-        )
+        ) except +
 
     TwoPCFWindowMeasurements compute_corrfunc_window_cpp \
         "trv::compute_corrfunc_window" (
@@ -110,7 +110,7 @@ cdef extern from "include/twopt.hpp":
             CppBinning& rbinning,
             double alpha,
             double norm_factor
-        )
+        ) except +
 
 
 def _calc_powspec_normalisation_from_particles(
-- 
2.43.0


From 4f24285d435705053260ce16e6f3ec64a28bbfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 008/104] fix: subtract the random contribution to the cubic
 shot-noise amplitude

The triple self-contribution of the weighted field 'data - alpha rand'
carries (-alpha)^3 for the randoms, as documented in the header.
---
 src/triumvirate/src/threept.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/threept.cpp b/src/triumvirate/src/threept.cpp
index 6a38c39..7456deb 100644
--- a/src/triumvirate/src/threept.cpp
+++ b/src/triumvirate/src/threept.cpp
@@ -204,7 +204,7 @@ std::complex<double> calc_ylm_wgtd_shotnoise_amp_for_bispec(
 
   std::complex<double> sn_rand(sn_rand_real, sn_rand_imag);
 
-  return sn_data + std::pow(alpha, 3) * sn_rand;
+  return sn_data - std::pow(alpha, 3) * sn_rand;
 }
 
 std::complex<double> calc_ylm_wgtd_shotnoise_amp_for_bispec(
-- 
2.43.0


From 365dde14e2798bb5286a3ab735eafa25c8c8a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:00 +0000
Subject: [PATCH 009/104] fix: apply the parity factor once in three-point
 correlation function shot noise

The parity factor (-1)^(ell1 + ell2) is already part of the quantity
returned by FieldStats::compute_uncoupled_shotnoise_for_3pcf; applying it
again flipped the sign of the shot noise for odd ell1 + ell2.
---
 src/triumvirate/src/threept.cpp | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/triumvirate/src/threept.cpp b/src/triumvirate/src/threept.cpp
index 7456deb..8349247 100644
--- a/src/triumvirate/src/threept.cpp
+++ b/src/triumvirate/src/threept.cpp
@@ -1037,7 +1037,6 @@ trv::ThreePCFMeasurements compute_3pcf(
 
   std::complex<double> factor_phase =
     std::pow(trvm::M_I, params.ell1 + params.ell2);
-  double factor_parity = std::pow(-1., params.ell1 + params.ell2);
 
   // Set up output.
   int dv_dim = 0;  // data vector dimension
@@ -1237,7 +1236,7 @@ trv::ThreePCFMeasurements compute_3pcf(
         if (params.shape == "diag") {
           for (int idx_dv = 0; idx_dv < dv_dim; idx_dv++) {
             int ibin = idx_dv;
-            sn_dv[idx_dv] += coupling * factor_parity * (
+            sn_dv[idx_dv] += coupling * (
               stats_sn.xi[ibin]
               + factor_mirror_w3j * std::conj(stats_sn.xi[ibin])
             );
@@ -1248,7 +1247,7 @@ trv::ThreePCFMeasurements compute_3pcf(
           // Note that ``idx_col == idx_row``.
           for (int idx_dv = 0; idx_dv < dv_dim; idx_dv++) {
             int ibin = idx_dv;
-            sn_dv[idx_dv] += coupling * factor_parity * (
+            sn_dv[idx_dv] += coupling * (
               stats_sn.xi[ibin]
               + factor_mirror_w3j * std::conj(stats_sn.xi[ibin])
             );
@@ -1256,7 +1255,7 @@ trv::ThreePCFMeasurements compute_3pcf(
         }
 
         if (params.shape == "row") {
-          sn_dv[params.idx_bin] += coupling * factor_parity * (
+          sn_dv[params.idx_bin] += coupling * (
             stats_sn.xi[params.idx_bin]
             + factor_mirror_w3j * std::conj(stats_sn.xi[params.idx_bin])
           );
@@ -1266,7 +1265,7 @@ trv::ThreePCFMeasurements compute_3pcf(
           for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
             // Note that ``idx_col == idx_row``.
             int idx_dv = idx_row * params.num_bins + idx_row;
-            sn_dv[idx_dv] += coupling * factor_parity * (
+            sn_dv[idx_dv] += coupling * (
               stats_sn.xi[idx_row]
               + factor_mirror_w3j * std::conj(stats_sn.xi[idx_row])
             );
@@ -1277,7 +1276,7 @@ trv::ThreePCFMeasurements compute_3pcf(
           for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
             // Note that ``idx_col == idx_row``.
             int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2;
-            sn_dv[idx_dv] += coupling * factor_parity * (
+            sn_dv[idx_dv] += coupling * (
               stats_sn.xi[idx_row]
               + factor_mirror_w3j * std::conj(stats_sn.xi[idx_row])
             );
@@ -2211,7 +2210,6 @@ trv::ThreePCFMeasurements compute_3pcf_in_gpp_box(
 
   std::complex<double> factor_phase =
     std::pow(trvm::M_I, params.ell1 + params.ell2);
-  double factor_parity = std::pow(-1., params.ell1 + params.ell2);
 
   // Set up output.
   int dv_dim = 0;  // data vector dimension
@@ -2389,7 +2387,7 @@ trv::ThreePCFMeasurements compute_3pcf_in_gpp_box(
       if (params.shape == "diag") {
         for (int idx_dv = 0; idx_dv < dv_dim; idx_dv++) {
           int ibin = idx_dv;
-          sn_dv[idx_dv] += coupling * factor_parity * (
+          sn_dv[idx_dv] += coupling * (
             stats_sn.xi[ibin]
             + factor_mirror_w3j * std::conj(stats_sn.xi[ibin])
           );
@@ -2400,7 +2398,7 @@ trv::ThreePCFMeasurements compute_3pcf_in_gpp_box(
         // Note that ``idx_col == idx_row``.
         for (int idx_dv = 0; idx_dv < dv_dim; idx_dv++) {
           int ibin = idx_dv;
-          sn_dv[idx_dv] += coupling * factor_parity * (
+          sn_dv[idx_dv] += coupling * (
             stats_sn.xi[ibin]
             + factor_mirror_w3j * std::conj(stats_sn.xi[ibin])
           );
@@ -2408,7 +2406,7 @@ trv::ThreePCFMeasurements compute_3pcf_in_gpp_box(
       }
 
       if (params.shape == "row") {
-        sn_dv[params.idx_bin] += coupling * factor_parity * (
+        sn_dv[params.idx_bin] += coupling * (
           stats_sn.xi[params.idx_bin]
           + factor_mirror_w3j * std::conj(stats_sn.xi[params.idx_bin])
         );
@@ -2418,7 +2416,7 @@ trv::ThreePCFMeasurements compute_3pcf_in_gpp_box(
         for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
           // Note that ``idx_col == idx_row``.
           int idx_dv = idx_row * params.num_bins + idx_row;
-          sn_dv[idx_dv] += coupling * factor_parity * (
+          sn_dv[idx_dv] += coupling * (
             stats_sn.xi[idx_row]
             + factor_mirror_w3j * std::conj(stats_sn.xi[idx_row])
           );
@@ -2429,7 +2427,7 @@ trv::ThreePCFMeasurements compute_3pcf_in_gpp_box(
         for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
           // Note that ``idx_col == idx_row``.
           int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2;
-          sn_dv[idx_dv] += coupling * factor_parity * (
+          sn_dv[idx_dv] += coupling * (
             stats_sn.xi[idx_row]
             + factor_mirror_w3j * std::conj(stats_sn.xi[idx_row])
           );
@@ -2644,7 +2642,6 @@ trv::ThreePCFWindowMeasurements compute_3pcf_window(
 
   std::complex<double> factor_phase =
     std::pow(trvm::M_I, params.ell1 + params.ell2);
-  double factor_parity = std::pow(-1., params.ell1 + params.ell2);
 
   // Set up output.
   int dv_dim = 0;  // data vector dimension
@@ -2838,7 +2835,7 @@ trv::ThreePCFWindowMeasurements compute_3pcf_window(
         if (params.shape == "diag") {
           for (int idx_dv = 0; idx_dv < dv_dim; idx_dv++) {
             int ibin = idx_dv;
-            sn_dv[idx_dv] += coupling * factor_parity * (
+            sn_dv[idx_dv] += coupling * (
               stats_sn.xi[ibin]
               + factor_mirror_w3j * std::conj(stats_sn.xi[ibin])
             );
@@ -2849,7 +2846,7 @@ trv::ThreePCFWindowMeasurements compute_3pcf_window(
           // Note that ``idx_col == idx_row``.
           for (int idx_dv = 0; idx_dv < dv_dim; idx_dv++) {
             int ibin = idx_dv;
-            sn_dv[idx_dv] += coupling * factor_parity * (
+            sn_dv[idx_dv] += coupling * (
               stats_sn.xi[ibin]
               + factor_mirror_w3j * std::conj(stats_sn.xi[ibin])
             );
@@ -2857,7 +2854,7 @@ trv::ThreePCFWindowMeasurements compute_3pcf_window(
         }
 
         if (params.shape == "row") {
-          sn_dv[params.idx_bin] += coupling * factor_parity * (
+          sn_dv[params.idx_bin] += coupling * (
             stats_sn.xi[params.idx_bin]
             + factor_mirror_w3j * std::conj(stats_sn.xi[params.idx_bin])
           );
@@ -2867,7 +2864,7 @@ trv::ThreePCFWindowMeasurements compute_3pcf_window(
           for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
             // Note that ``idx_col == idx_row``.
             int idx_dv = idx_row * params.num_bins + idx_row;
-            sn_dv[idx_dv] += coupling * factor_parity * (
+            sn_dv[idx_dv] += coupling * (
               stats_sn.xi[idx_row]
               + factor_mirror_w3j * std::conj(stats_sn.xi[idx_row])
             );
@@ -2878,7 +2875,7 @@ trv::ThreePCFWindowMeasurements compute_3pcf_window(
           for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
             // Note that ``idx_col == idx_row``.
             int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2;
-            sn_dv[idx_dv] += coupling * factor_parity * (
+            sn_dv[idx_dv] += coupling * (
               stats_sn.xi[idx_row]
               + factor_mirror_w3j * std::conj(stats_sn.xi[idx_row])
             );
-- 
2.43.0


From 75dccb7c66330f4c3bd7f2bffa34c30050af08b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 010/104] fix: offset coordinates by a scalar origin and in
 integer columns

---
 src/triumvirate/catalogue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index bcddf2c..f8ec095 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -684,8 +684,11 @@ class ParticleCatalogue:
             Coordinates of the new origin.
 
         """
+        if np.isscalar(origin):
+            origin = [origin, origin, origin]
+
         for axis, coord in zip(['x', 'y', 'z'], origin):
-            self._pdata[axis] -= coord
+            self._pdata[axis] = self._pdata[axis] - coord
 
         self._calc_bounds()
 
-- 
2.43.0


From 8c0aa36177cb2f208d2ad315c8b4f7a5a085b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 011/104] fix: convert catalogue columns to double precision
 for the C++ backend

---
 src/triumvirate/catalogue.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index f8ec095..7e62f32 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -775,12 +775,24 @@ class ParticleCatalogue:
             C++-wrapped catalogue.
 
         """
-        x = np.ascontiguousarray(self._compute(self._pdata['x']))
-        y = np.ascontiguousarray(self._compute(self._pdata['y']))
-        z = np.ascontiguousarray(self._compute(self._pdata['z']))
-        nz = np.ascontiguousarray(self._compute(self._pdata['nz']))
-        ws = np.ascontiguousarray(self._compute(self._pdata['ws']))
-        wc = np.ascontiguousarray(self._compute(self._pdata['wc']))
+        x = np.ascontiguousarray(
+            self._compute(self._pdata['x']), dtype=np.float64
+        )
+        y = np.ascontiguousarray(
+            self._compute(self._pdata['y']), dtype=np.float64
+        )
+        z = np.ascontiguousarray(
+            self._compute(self._pdata['z']), dtype=np.float64
+        )
+        nz = np.ascontiguousarray(
+            self._compute(self._pdata['nz']), dtype=np.float64
+        )
+        ws = np.ascontiguousarray(
+            self._compute(self._pdata['ws']), dtype=np.float64
+        )
+        wc = np.ascontiguousarray(
+            self._compute(self._pdata['wc']), dtype=np.float64
+        )
 
         return _ParticleCatalogue(x, y, z, nz, ws, wc, verbose=verbose)
 
-- 
2.43.0


From d57fd4b3d97013cdcb576bbd4b95e96e0d5b0ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 012/104] fix: accept arrays of padding factors

---
 src/triumvirate/catalogue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 7e62f32..1d3d153 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -627,9 +627,9 @@ class ParticleCatalogue:
             catalogue_ref_.bounds[axis][0] for axis in ['x', 'y', 'z']
         ])
 
-        if boxsize_pad:
+        if boxsize_pad is not None:
             origin -= np.multiply(boxsize_pad, boxsize)
-        if ngrid_pad:
+        if ngrid_pad is not None:
             origin -= np.multiply(ngrid_pad, np.divide(boxsize, ngrid))
 
         self.offset_coords(origin)
-- 
2.43.0


From bdc1c696dbeb9abc3a68a6baa164d6df4f726978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 013/104] fix: leave the caller's table keyword arguments
 unchanged

---
 src/triumvirate/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 1d3d153..1a4ab3a 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -334,7 +334,7 @@ class ParticleCatalogue:
             if table_kwargs is None:
                 table_kwargs = {}
             if format.startswith('ascii'):
-                table_kwargs.update(names=names)
+                table_kwargs = {**table_kwargs, 'names': names}
 
             self._pdata = Table.read(
                 filepath, format=format, **table_kwargs
-- 
2.43.0


From cdba47f72109fcbbe18c0ee6afdbd2d789d2fb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 014/104] fix: pad catalogues with integer coordinates

---
 src/triumvirate/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 1a4ab3a..de25275 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -625,7 +625,7 @@ class ParticleCatalogue:
 
         origin = np.array([
             catalogue_ref_.bounds[axis][0] for axis in ['x', 'y', 'z']
-        ])
+        ], dtype=float)
 
         if boxsize_pad is not None:
             origin -= np.multiply(boxsize_pad, boxsize)
-- 
2.43.0


From 493a635fca66ebe9602be4d4d606bc8ca605ea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 015/104] fix: keep periodised coordinates below the box size

---
 src/triumvirate/catalogue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index de25275..dca079f 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -667,12 +667,15 @@ class ParticleCatalogue:
 
         for iaxis, axis in enumerate(['x', 'y', 'z']):
             # Also centre.
-            self._pdata[axis] = (
+            coords = (
                 self._pdata[axis] + boxsize[iaxis] / 2. - (
                     self.bounds[axis][1] + self.bounds[axis][0]
                 ) / 2.
             ) % boxsize[iaxis]
 
+            # The remainder may be rounded up to the box size itself.
+            self._pdata[axis] = coords * (coords < boxsize[iaxis])
+
         self._calc_bounds()
 
     def offset_coords(self, origin):
-- 
2.43.0


From 381d3dc82296e136c506604e7c985aca3a610dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 016/104] fix: refresh catalogue attributes when a column is
 set

---
 src/triumvirate/catalogue.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index dca079f..d2bd7db 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -135,10 +135,7 @@ class ParticleCatalogue:
         self._calc_bounds(init=True)
 
         self.ntotal = len(self)
-        self.wtotal = self._compute(
-            (self._pdata['ws'] * self._pdata['wc']).sum()
-        )
-        self.wstotal = self._compute(self._pdata['ws'].sum())
+        self._calc_weights()
 
         if self._logger:
             self._logger.info(
@@ -377,10 +374,7 @@ class ParticleCatalogue:
         self._calc_bounds(init=True)
 
         self.ntotal = len(self._pdata)
-        self.wtotal = self._compute(
-            (self._pdata['ws'] * self._pdata['wc']).sum()
-        )
-        self.wstotal = self._compute(self._pdata['ws'].sum())
+        self._calc_weights()
 
         if self._logger:
             self._logger.info(
@@ -434,6 +428,11 @@ class ParticleCatalogue:
         else:
             raise ValueError('Cannot set values for non-string-type key.')
 
+        if key in ['x', 'y', 'z']:
+            self._calc_bounds()
+        if key in ['ws', 'wc']:
+            self._calc_weights()
+
     def compute_los(self):
         """Compute the line of sight to each particle.
 
@@ -695,6 +694,15 @@ class ParticleCatalogue:
 
         self._calc_bounds()
 
+    def _calc_weights(self):
+        """Calculate total weights.
+
+        """
+        self.wtotal = self._compute(
+            (self._pdata['ws'] * self._pdata['wc']).sum()
+        )
+        self.wstotal = self._compute(self._pdata['ws'].sum())
+
     def _calc_bounds(self, init=False):
         """Calculate coordinate bounds in each dimension.
 
-- 
2.43.0


From cc70e2c0df41f71011b76e18e5736625969cde2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 017/104] fix: keep wrapped coordinates below the box size in
 the C++ catalogue

---
 src/triumvirate/src/particles.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index 0212f53..42154d3 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -691,6 +691,10 @@ offset_coords_for_periodicity(const double boxsize[3]) {
         this->pdata[pid].pos[iaxis] = std::fmod(
           this->pdata[pid].pos[iaxis], boxsize[iaxis]
         ) + boxsize[iaxis];
+        // The sum may be (rounded up to) the box size itself.
+        if (this->pdata[pid].pos[iaxis] >= boxsize[iaxis]) {
+          this->pdata[pid].pos[iaxis] = 0.;
+        }
       }
     }
   }
-- 
2.43.0


From 34ee307711b7eb3e389d9e7f07f91345402d37b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 018/104] fix: convert lines of sight to double precision for
 the C++ backend

---
 src/triumvirate/threept.py | 6 +++---
 src/triumvirate/twopt.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index b8e2e3e..768e6b6 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -527,8 +527,8 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
     if los_rand is None:
         los_rand = catalogue_rand.compute_los()
 
-    los_data = np.ascontiguousarray(los_data)
-    los_rand = np.ascontiguousarray(los_rand)
+    los_data = np.ascontiguousarray(los_data, dtype=np.float64)
+    los_rand = np.ascontiguousarray(los_rand, dtype=np.float64)
 
     if logger:
         try:
@@ -1969,7 +1969,7 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
     # Set up lines of sight.
     if los_rand is None:
         los_rand = catalogue_rand.compute_los()
-    los_rand = np.ascontiguousarray(los_rand)
+    los_rand = np.ascontiguousarray(los_rand, dtype=np.float64)
 
     if logger:
         try:
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 1d03c07..5101005 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -450,8 +450,8 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
     if los_rand is None:
         los_rand = catalogue_rand.compute_los()
 
-    los_data = np.ascontiguousarray(los_data)
-    los_rand = np.ascontiguousarray(los_rand)
+    los_data = np.ascontiguousarray(los_data, dtype=np.float64)
+    los_rand = np.ascontiguousarray(los_rand, dtype=np.float64)
 
     if logger:
         try:
@@ -1453,7 +1453,7 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
     # Set up lines of sight.
     if los_rand is None:
         los_rand = catalogue_rand.compute_los()
-    los_rand = np.ascontiguousarray(los_rand)
+    los_rand = np.ascontiguousarray(los_rand, dtype=np.float64)
 
     if logger:
         try:
-- 
2.43.0


From b208ebc7bbbb0ac5b044bad9cd4305cea08568e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 019/104] fix: keep scalar column values and mean densities
 from being truncated

---
 src/triumvirate/catalogue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index d2bd7db..f043979 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -424,6 +424,9 @@ class ParticleCatalogue:
 
         """
         if isinstance(key, str):
+            # Replace the column rather than cast into its current type.
+            if np.isscalar(val):
+                val = np.full(len(self), val)
             self._pdata[key] = val
         else:
             raise ValueError('Cannot set values for non-string-type key.')
@@ -484,7 +487,7 @@ class ParticleCatalogue:
 
         volume = volume or np.prod(boxsize)
 
-        self._pdata['nz'] = self.ntotal / volume
+        self._pdata['nz'] = np.full(len(self), self.ntotal / volume)
 
     def centre(self, boxsize, catalogue_ref=None):
         """Centre a (pair of) catalogue(s) in a box.
-- 
2.43.0


From afffa403ffbb5357d0d3f0c2cdb201d1f7514962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 020/104] fix: let astropy infer the column names of catalogue
 files with headers

---
 src/triumvirate/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index f043979..c0caef6 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -330,7 +330,7 @@ class ParticleCatalogue:
                 format = 'ascii'
             if table_kwargs is None:
                 table_kwargs = {}
-            if format.startswith('ascii'):
+            if format.startswith('ascii') and names is not None:
                 table_kwargs = {**table_kwargs, 'names': names}
 
             self._pdata = Table.read(
-- 
2.43.0


From 1a9170370309ced223de77f08c37edd62c442e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 021/104] fix: reject bin ranges and numbers that give no
 increasing bin edges

---
 src/triumvirate/src/dataobjs.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/triumvirate/src/dataobjs.cpp b/src/triumvirate/src/dataobjs.cpp
index 0b184b6..c426e56 100644
--- a/src/triumvirate/src/dataobjs.cpp
+++ b/src/triumvirate/src/dataobjs.cpp
@@ -141,6 +141,23 @@ void Binning::compute_binning() {
     dbin_pad = this->dbin_pad_config;
   }
 
+  // Check the bin range and number.
+  bool padded = (this->scheme == "linpad" || this->scheme == "logpad");
+  if (padded && this->num_bins <= this->nbin_pad) {
+    throw trvs::InvalidParameterError(
+      "Binning scheme '%s' requires more than %d bins.",
+      this->scheme.c_str(), this->nbin_pad
+    );
+  }
+  if (
+    !(this->bin_max > this->bin_min)
+    || (padded && !(this->bin_max > dbin_pad * this->nbin_pad))
+  ) {
+    throw trvs::InvalidParameterError(
+      "Bin range must be increasing (and exceed any padding)."
+    );
+  }
+
   // Implement binning scheme.
 
   // ---------------------------------------------------------------------
-- 
2.43.0


From a240f973dc826ec176cc024c1c786eb6e5856df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 022/104] fix: keep the current binning when new bins cannot be
 set

---
 src/triumvirate/dataobjs.pyx     |  6 ++++--
 src/triumvirate/src/dataobjs.cpp | 26 ++++++++++++++++++--------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/triumvirate/dataobjs.pyx b/src/triumvirate/dataobjs.pyx
index 40e614e..3977833 100644
--- a/src/triumvirate/dataobjs.pyx
+++ b/src/triumvirate/dataobjs.pyx
@@ -150,11 +150,13 @@ cdef class Binning:
             Number of bins.
 
         """
+        self.thisptr.set_bins(
+            <double> bin_min, <double> bin_max, <int> num_bins
+        )
+
         self.bin_min, self.bin_max = bin_min, bin_max
         self.num_bins = num_bins
 
-        self.thisptr.set_bins(self.bin_min, self.bin_max, self.num_bins)
-
         self.bin_edges = self.thisptr.bin_edges
         self.bin_centres = self.thisptr.bin_centres
         self.bin_widths = self.thisptr.bin_widths
diff --git a/src/triumvirate/src/dataobjs.cpp b/src/triumvirate/src/dataobjs.cpp
index c426e56..e6d9639 100644
--- a/src/triumvirate/src/dataobjs.cpp
+++ b/src/triumvirate/src/dataobjs.cpp
@@ -67,20 +67,30 @@ void Binning::set_bins(double coord_min, double coord_max, int nbin) {
     );
   }
 
-  this->bin_min = coord_min;
-  this->bin_max = coord_max;
-  this->num_bins = nbin;
+  // Keep the current binning if the new one cannot be computed.
+  Binning binning(*this);
 
-  this->set_bins();
+  binning.bin_min = coord_min;
+  binning.bin_max = coord_max;
+  binning.num_bins = nbin;
+
+  binning.set_bins();
+
+  *this = binning;
 }
 
 void Binning::set_bins() {
+  // Keep the current binning if the new one cannot be computed.
+  Binning binning(*this);
+
   // Reset vector attributes.
-  this->bin_edges.clear();
-  this->bin_centres.clear();
-  this->bin_widths.clear();
+  binning.bin_edges.clear();
+  binning.bin_centres.clear();
+  binning.bin_widths.clear();
 
-  this->compute_binning();
+  binning.compute_binning();
+
+  *this = binning;
 }
 
 void Binning::set_bins(double boxsize_max, int ngrid_min) {
-- 
2.43.0


From ae5dd7eeaef6d7d2e87bbe67c6257be065487ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 023/104] fix: use the current space and scheme of a binning
 when setting bins

---
 src/triumvirate/dataobjs.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/triumvirate/dataobjs.pyx b/src/triumvirate/dataobjs.pyx
index 3977833..0a4be5e 100644
--- a/src/triumvirate/dataobjs.pyx
+++ b/src/triumvirate/dataobjs.pyx
@@ -150,6 +150,9 @@ cdef class Binning:
             Number of bins.
 
         """
+        self.thisptr.space = self.space.encode('utf-8')
+        self.thisptr.scheme = self.scheme.encode('utf-8')
+
         self.thisptr.set_bins(
             <double> bin_min, <double> bin_max, <int> num_bins
         )
@@ -181,6 +184,8 @@ cdef class Binning:
         boxsize = np.asarray(boxsize).max()
         ngrid = np.asarray(ngrid).min()
 
+        self.thisptr.space = self.space.encode('utf-8')
+
         self.thisptr.set_bins(boxsize, ngrid)
 
         self.bin_min, self.bin_max = self.thisptr.bin_min, self.thisptr.bin_max
@@ -219,6 +224,7 @@ cdef class Binning:
         self.thisptr.bin_centres = self.bin_centres
         self.thisptr.bin_widths = self.bin_widths
         self.thisptr.scheme = self.scheme.encode('utf-8')
+        self.thisptr.space = self.space.encode('utf-8')
 
 
 # NOTE: Remove docstrings from Cython pseudo special functions.
-- 
2.43.0


From 8d14365b0441b180b0ab190bb1dcf1300e13f20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 024/104] fix: reject 'mesh-mixed' normalisation for unpaired
 catalogues

---
 src/triumvirate/src/parameters.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 466b186..4213bf9 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -881,6 +881,23 @@ int ParameterSet::validate(bool init) {
       this->npoint.c_str()
     );
   }
+  if (
+    this->norm_convention == "mesh-mixed"
+    && (this->catalogue_type == "sim" || this->catalogue_type == "random")
+  ) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error(
+        "Normalisation convention 'mesh-mixed' only applies to "
+        "paired survey-type catalogues: `catalogue_type` = '%s'.",
+        this->catalogue_type.c_str()
+      );
+    }
+    throw trvs::InvalidParameterError(
+      "Normalisation convention 'mesh-mixed' only applies to "
+      "paired survey-type catalogues: `catalogue_type` = '%s'.",
+      this->catalogue_type.c_str()
+    );
+  }
   if (!(
     this->binning == "lin"
     || this->binning == "log"
-- 
2.43.0


From 3f14ebc30b7eff101175b3051f7b3cd8895382e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 025/104] fix: raise when the mixed-mesh normalisation is
 undefined

---
 src/triumvirate/src/twopt.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/triumvirate/src/twopt.cpp b/src/triumvirate/src/twopt.cpp
index c2bed46..fbf7f18 100644
--- a/src/triumvirate/src/twopt.cpp
+++ b/src/triumvirate/src/twopt.cpp
@@ -218,6 +218,19 @@ double calc_powspec_normalisation_from_meshes(
 
   double vol_cell = params.volume / double(params.nmesh);
 
+  if (norm == 0. && params.norm_convention == "mesh-mixed") {
+    if (trvs::currTask == 0) {
+      trvs::logger.error(
+        "Data- and random-source catalogues do not overlap on the mesh "
+        "used for the 'mesh-mixed' normalisation."
+      );
+    }
+    throw trvs::InvalidDataError(
+      "Data- and random-source catalogues do not overlap on the mesh "
+      "used for the 'mesh-mixed' normalisation."
+    );
+  }
+
   double norm_factor = 1. / (alpha * vol_cell * norm);  // 1/I₂
 
   // Restore original particle positions.
-- 
2.43.0


From 1022efc009c8c86a9bc2de7b67465c26e7b26ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 026/104] fix: record binned vectors for a single bin without a
 parameter set

---
 src/triumvirate/fieldmesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/fieldmesh.py b/src/triumvirate/fieldmesh.py
index bc34d2e..e2403e4 100644
--- a/src/triumvirate/fieldmesh.py
+++ b/src/triumvirate/fieldmesh.py
@@ -58,7 +58,7 @@ def record_binned_vectors(binning, paramset=None, boxsize=None, ngrid=None):
         paramset = fetch_paramset_template('dict')
 
         paramset.update(range=[binning.bin_min, binning.bin_max])  # filler
-        paramset.update(num_bins=binning.num_bins)  # filler
+        paramset.update(num_bins=max(binning.num_bins, 2))  # filler
 
         paramset.update(
             degrees={'ell1': 0, 'ell2': 0, 'ELL': 0}
-- 
2.43.0


From 1a76de2a41e57bed1b42505e381ea615194d2712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:45 +0000
Subject: [PATCH 027/104] fix: reject a zero Nyquist cutoff when the grid cell
 numbers are unset

---
 src/triumvirate/src/parameters.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 4213bf9..4438f93 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1091,15 +1091,17 @@ int ParameterSet::validate(bool init) {
         this->nmesh
       );
     }
-    if (this->cutoff_nyq < 0.) {
+    if (!(this->cutoff_nyq > 0.)) {
       if (trvs::currTask == 0) {
         trvs::logger.error(
-          "The Nyquist cutoff must be non-negative: `cutoff_nyq` = %lg",
+          "The Nyquist cutoff must be positive when `ngrid` is unset: "
+          "`cutoff_nyq` = %lg",
           this->cutoff_nyq
         );
       }
       throw trvs::InvalidParameterError(
-        "The Nyquist cutoff must be non-negative: `cutoff_nyq` = %lg",
+        "The Nyquist cutoff must be positive when `ngrid` is unset: "
+        "`cutoff_nyq` = %lg",
         this->cutoff_nyq
       );
     }
-- 
2.43.0


From 6cc1db324864a6bfd5aa272376a558e8bf07f5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:45 +0000
Subject: [PATCH 028/104] fix: derive grid cell numbers from the Nyquist cutoff
 in new parameter sets

---
 src/triumvirate/parameters.pyx | 43 +++++++++++++---------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 4cf4bd2..6a2953e 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -416,23 +416,6 @@ cdef class ParameterSet:
         ) is not None:  # possibly convert from bool
             self.thisptr.interlace = str(interlace_).lower().encode('utf-8')
 
-        # Attribute derived parameters.
-        try:
-            self._params['volume'] = np.prod(list(
-                self._params['boxsize'].values()
-            ))
-        except TypeError:
-            self._params['volume'] = 0.
-        self.thisptr.volume = self._params['volume']
-
-        try:
-            self._params['nmesh'] = np.prod(list(
-                self._params['ngrid'].values()
-            ))
-        except TypeError:
-            self._params['nmesh'] = 0
-        self.thisptr.nmesh = self._params['nmesh']
-
         # -- Measurement -------------------------------------------------
 
         # Attribute numerical parameters.
@@ -475,16 +458,15 @@ cdef class ParameterSet:
         if (idx_bin_ := self._params.get('idx_bin')) is not None:
             self.thisptr.idx_bin = idx_bin_
 
-        if self._params['nmesh'] == 0:
-            if (cutoff_nyq_ := self._params.get('cutoff_nyq')) is not None:
-                self.thisptr.cutoff_nyq = cutoff_nyq_
-                if self._params['volume'] > 0.:
-                    self._params = _set_ngrid_from_cutoff(self._params)
-            else:
-                raise InvalidParameterError(
-                    "`cutoff_nyq` parameter must be set "
-                    "when any of the grid cell numbers are unset."
-                )
+        # The grid cell numbers are derived from the cutoff by C++
+        # if needed.
+        if (cutoff_nyq_ := self._params.get('cutoff_nyq')) is not None:
+            self.thisptr.cutoff_nyq = cutoff_nyq_
+        elif not all(self._params['ngrid'].values()):
+            raise InvalidParameterError(
+                "`cutoff_nyq` parameter must be set "
+                "when any of the grid cell numbers are unset."
+            )
 
         # Attribute string parameters.
         if (catalogue_type_ := self._params.get('catalogue_type')) is not None:
@@ -560,6 +542,13 @@ cdef class ParameterSet:
 
         # Fetch validated parameters that have been derived or transmuted.
         # Transmuted I/O paths are not fetched.
+        self._params['volume'] = self.thisptr.volume
+        self._params['nmesh'] = self.thisptr.nmesh
+        if self.thisptr.nmesh > 0 and not all(self._params['ngrid'].values()):
+            self._params['ngrid'] = dict(zip(
+                ['x', 'y', 'z'], self.thisptr.ngrid
+            ))
+
         self._params['assignment_order'] = self.thisptr.assignment_order
         self._params['npoint'] = self.thisptr.npoint.decode('utf-8')
         self._params['space'] = self.thisptr.space.decode('utf-8')
-- 
2.43.0


From b9e880e0248f1db0b9dd0c26f8468a75e8691d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:59 +0000
Subject: [PATCH 029/104] fix: accept fractional progress bar intervals

---
 src/triumvirate/parameters.pyx | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 6a2953e..734c74e 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -576,19 +576,21 @@ cdef class ParameterSet:
             )
 
         _progbar = self.thisptr.progbar.decode('utf-8')
-        try:
-            self._params['progbar'] = int(_progbar)
-        except ValueError:
-            if _progbar == 'true':
-                self._params['progbar'] = True
-            elif _progbar == 'false':
-                self._params['progbar'] = False
-            else:
-                raise RuntimeError(
-                    "C++ instance of trv::ParameterSet did not return "
-                    "a recognised 'verbose' value "
-                    "'true', 'false' or an integer."
-                )
+        if _progbar == 'true':
+            self._params['progbar'] = True
+        elif _progbar == 'false':
+            self._params['progbar'] = False
+        else:
+            try:
+                self._params['progbar'] = int(_progbar)
+            except ValueError:
+                try:
+                    self._params['progbar'] = float(_progbar)
+                except ValueError:
+                    raise InvalidParameterError(
+                        "`progbar` must be 'true', 'false' or a number: "
+                        f"`progbar` = '{_progbar}'."
+                    )
 
         self._validity = True
 
-- 
2.43.0


From 7d83764b72b2d940343743a487272d475956c84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 030/104] fix: reject negative box sizes, grid cell numbers and
 degrees

---
 src/triumvirate/src/parameters.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 4438f93..672c0f7 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1042,6 +1042,27 @@ int ParameterSet::validate(bool init) {
   trvs::expand_envar_in_path(this->save_binned_vectors);
 
   // Validate and derive numerical parameters.
+  for (int iaxis = 0; iaxis < 3; iaxis++) {
+    if (this->boxsize[iaxis] < 0. || this->ngrid[iaxis] < 0) {
+      if (trvs::currTask == 0) {
+        trvs::logger.error(
+          "Box sizes and grid cell numbers must be non-negative."
+        );
+      }
+      throw trvs::InvalidParameterError(
+        "Box sizes and grid cell numbers must be non-negative.\n"
+      );
+    }
+  }
+  if (this->ell1 < 0 || this->ell2 < 0 || this->ELL < 0) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error("Degrees of the multipoles must be non-negative.");
+    }
+    throw trvs::InvalidParameterError(
+      "Degrees of the multipoles must be non-negative.\n"
+    );
+  }
+
   this->volume =
     this->boxsize[0] * this->boxsize[1] * this->boxsize[2];  // derivation
   this->nmesh = static_cast<long long>(this->ngrid[0])
-- 
2.43.0


From d7131f871c59f4b62171d9a72f41ca45eea0aaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 031/104] fix: reject fractional values of integer parameters

---
 src/triumvirate/parameters.pyx | 61 ++++++++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 10 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 734c74e..113a03c 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -78,6 +78,38 @@ class InvalidParameterError(ValueError):
     pass
 
 
+def _parse_integer(name, val):
+    """Parse an integer parameter.
+
+    Parameters
+    ----------
+    name : str
+        Parameter name.
+    val :
+        Parameter value, possibly an integral :class:`float`.
+
+    Returns
+    -------
+    int
+        Integer parameter value.
+
+    Raises
+    ------
+    InvalidParameterError
+        When the parameter value is not integral.
+
+    """
+    try:
+        integral = int(val) == val
+    except (TypeError, ValueError, OverflowError):
+        integral = False
+    if not integral:
+        raise InvalidParameterError(
+            f"`{name}` parameter must be an integer: `{name}` = {val!r}."
+        )
+    return int(val)
+
+
 cdef class ParameterSet:
     """Parameter set.
 
@@ -393,9 +425,8 @@ cdef class ParameterSet:
             )
         else:
             self.thisptr.ngrid = [
-                self._params['ngrid']['x'],
-                self._params['ngrid']['y'],
-                self._params['ngrid']['z'],
+                _parse_integer('ngrid', self._params['ngrid'][ax])
+                for ax in ['x', 'y', 'z']
             ]
 
         if (expand_ := self._params.get('expand')) is not None:
@@ -423,11 +454,17 @@ cdef class ParameterSet:
         # present in any parameter file or dictionary.
         try:
             if self._params['degrees']['ell1'] is not None:
-                self.thisptr.ell1 = self._params['degrees']['ell1']
+                self.thisptr.ell1 = _parse_integer(
+                    'ell1', self._params['degrees']['ell1']
+                )
             if self._params['degrees']['ell2'] is not None:
-                self.thisptr.ell2 = self._params['degrees']['ell2']
+                self.thisptr.ell2 = _parse_integer(
+                    'ell2', self._params['degrees']['ell2']
+                )
             if self._params['degrees']['ELL'] is not None:
-                self.thisptr.ELL = self._params['degrees']['ELL']
+                self.thisptr.ELL = _parse_integer(
+                    'ELL', self._params['degrees']['ELL']
+                )
         except KeyError:
             raise InvalidParameterError(
                 "`degrees` parameters must be present even if left unset."
@@ -435,9 +472,13 @@ cdef class ParameterSet:
 
         try:
             if self._params['wa_orders']['i'] is not None:
-                self.thisptr.i_wa = self._params['wa_orders']['i']
+                self.thisptr.i_wa = _parse_integer(
+                    'i_wa', self._params['wa_orders']['i']
+                )
             if self._params['wa_orders']['j'] is not None:
-                self.thisptr.j_wa = self._params['wa_orders']['j']
+                self.thisptr.j_wa = _parse_integer(
+                    'j_wa', self._params['wa_orders']['j']
+                )
         except KeyError:
             raise InvalidParameterError(
                 "`wa_orders` parameters must be present even if left unset."
@@ -452,11 +493,11 @@ cdef class ParameterSet:
         self.thisptr.bin_max = float(self._params['range'][1])
 
         if (num_bins_ := self._params.get('num_bins')) is not None:
-            self.thisptr.num_bins = num_bins_
+            self.thisptr.num_bins = _parse_integer('num_bins', num_bins_)
         else:
             raise InvalidParameterError("`num_bins` parameter must be set.")
         if (idx_bin_ := self._params.get('idx_bin')) is not None:
-            self.thisptr.idx_bin = idx_bin_
+            self.thisptr.idx_bin = _parse_integer('idx_bin', idx_bin_)
 
         # The grid cell numbers are derived from the cutoff by C++
         # if needed.
-- 
2.43.0


From 330a20ec29b3142819e9e2ec17a8200a38231e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 032/104] fix: keep the FFTW wisdom path as given

---
 src/triumvirate/parameters.pyx     | 5 ++++-
 src/triumvirate/src/parameters.cpp | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 113a03c..56c4afa 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -554,8 +554,11 @@ cdef class ParameterSet:
         if (
             use_fftw_wisdom_ := self._params.get('use_fftw_wisdom')
         ) is not None:
+            # Preserve the case of a path.
+            if str(use_fftw_wisdom_).lower() == 'false':
+                use_fftw_wisdom_ = 'false'
             self.thisptr.use_fftw_wisdom = \
-                str(use_fftw_wisdom_).lower().encode('utf-8')
+                str(use_fftw_wisdom_).encode('utf-8')
 
         if (verbose_ := self._params.get('verbose')) is not None:
             self.thisptr.verbose = verbose_
diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 672c0f7..a3d6a87 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -961,7 +961,9 @@ int ParameterSet::validate(bool init) {
     if (this->use_fftw_wisdom == "false") {
       this->use_fftw_wisdom = "";  // transmutation
     } else
-    if (init) {
+    if (
+      init && this->use_fftw_wisdom != "" && this->use_fftw_wisdom.back() != '/'
+    ) {
       this->use_fftw_wisdom += "/";  // transmutation
     }
   }
-- 
2.43.0


From 1abeef126c44d8e4eb4f998de99cdb10272200d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 033/104] fix: leave the parameter dictionary passed to a
 parameter set unchanged

---
 src/triumvirate/parameters.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 56c4afa..7f347d2 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -12,6 +12,7 @@ Configure program parameter set.
 
 """
 import warnings
+from copy import deepcopy
 from pathlib import Path
 from pprint import pformat, pprint
 
@@ -163,7 +164,7 @@ cdef class ParameterSet:
                 self._params = yaml.load(param_file, Loader=yaml.SafeLoader)
         if param_dict is not None:
             self._source = 'dict'
-            self._params = param_dict
+            self._params = deepcopy(param_dict)
 
         self._original = True
         self._validity = False
-- 
2.43.0


From 67b932f1b0cd095e80f7b63fc0438d7cb8733c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 034/104] fix: parse updated parameter sets afresh

---
 src/triumvirate/parameters.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 7f347d2..0acc3cd 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -333,6 +333,12 @@ cdef class ParameterSet:
         C++ parameter class.
 
         """
+        # Parse afresh so that no previous parameter value is retained.
+        self._validity = False
+
+        del self.thisptr
+        self.thisptr = new CppParameterSet()
+
         # ----------------------------------------------------------------
         # Parsing
         # ----------------------------------------------------------------
-- 
2.43.0


From 2975af0467224df972d468433dd7ec86aa4f10af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 035/104] fix: apply case-insensitive parameter choices in
 measurements

---
 src/triumvirate/parameters.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 0acc3cd..489efd3 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -343,6 +343,15 @@ cdef class ParameterSet:
         # Parsing
         # ----------------------------------------------------------------
 
+        # Choices are case-insensitive.
+        for name in [
+            'alignment', 'padscale', 'assignment',
+            'catalogue_type', 'statistic_type',
+            'form', 'norm_convention', 'binning', 'fftw_scheme',
+        ]:
+            if self._params.get(name) is not None:
+                self._params[name] = self._params[name].lower()
+
         # -- I/O ---------------------------------------------------------
 
         # Directories, files and tags default to empty if unset.
-- 
2.43.0


From 2e2a5245f60374f4e34a346fa82a9942771ed341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 036/104] fix: defer grid cell numbers until the statistic type
 is set

---
 src/triumvirate/src/parameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index a3d6a87..665628d 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1128,7 +1128,7 @@ int ParameterSet::validate(bool init) {
         this->cutoff_nyq
       );
     }
-    if (this->volume > 0.) {
+    if (this->volume > 0. && this->space != "") {
       set_ngrid_from_cutoff(*this);
     }
   }
-- 
2.43.0


From 9f0b0ec3632d8471393e2103fa5a082abeaada02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 037/104] fix: validate overriding measurement parameters
 together

---
 src/triumvirate/threept.py | 10 ++++++++--
 src/triumvirate/twopt.py   | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 768e6b6..5adf16e 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -26,6 +26,7 @@ Window function estimator
 
 """  # numpydoc ignore=GL07,SS01
 import warnings
+from copy import deepcopy
 from pathlib import Path
 
 import numpy as np
@@ -140,10 +141,12 @@ def _amalgamate_parameters(paramset=None, params_sampling=None,
             "and `form` is 'row' or 'off-diag'."
         )
 
+    paramset_ = None
     if paramset is None:
         paramset, defaults = fetch_paramset_template('dict', ret_defaults=True)
     else:
-        # paramset = paramset
+        # Modify a copy so that only the final parameters are validated.
+        paramset_, paramset = paramset, deepcopy(dict(paramset.items()))
         defaults = None
 
     if params_sampling is not None:
@@ -179,8 +182,11 @@ def _amalgamate_parameters(paramset=None, params_sampling=None,
         params_default=defaults, ret_defaults=True
     )
 
-    # Implicitly validate parameters.
     paramset.update(type_kwargs)
+    if paramset_ is not None:
+        # Implicitly validate parameters.
+        paramset_.update(paramset)
+        paramset = paramset_
 
     if defaults:
         warnings.warn(
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 5101005..6b60404 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -26,6 +26,7 @@ Window function estimator
 
 """  # numpydoc ignore=GL07,SS01
 import warnings
+from copy import deepcopy
 from pathlib import Path
 
 import numpy as np
@@ -114,10 +115,12 @@ def _amalgamate_parameters(paramset=None, params_sampling=None,
     if paramset is None and binning is None:
         raise ValueError("Either `paramset` or `binning` must be provided.")
 
+    paramset_ = None
     if paramset is None:
         paramset, defaults = fetch_paramset_template('dict', ret_defaults=True)
     else:
-        # paramset = paramset
+        # Modify a copy so that only the final parameters are validated.
+        paramset_, paramset = paramset, deepcopy(dict(paramset.items()))
         defaults = None
 
     if params_sampling is not None:
@@ -141,8 +144,11 @@ def _amalgamate_parameters(paramset=None, params_sampling=None,
         params_default=defaults, ret_defaults=True
     )
 
-    # Implicitly validate parameters.
     paramset.update(type_kwargs)
+    if paramset_ is not None:
+        # Implicitly validate parameters.
+        paramset_.update(paramset)
+        paramset = paramset_
 
     if defaults:
         warnings.warn(
-- 
2.43.0


From 9abee76c6ceac4aa25f3bf8b13f7e2044048a6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:49 +0000
Subject: [PATCH 038/104] fix: determine unset box sizes from the catalogue
 spans

---
 src/triumvirate/threept.py | 20 ++++++++++----------
 src/triumvirate/twopt.py   | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 5adf16e..cbf04ec 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -544,13 +544,13 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
 
     # Set up box alignment.
     if None in paramset['boxsize'].values():
-        for ax in ['x', 'y', 'z']:
-            paramset['boxsize'][ax] = \
-                catalogue_rand.bounds[ax] * paramset['expand']
-        paramset._validate()
+        paramset['boxsize'] = {
+            ax: float(catalogue_rand.spans[ax] * paramset['expand'])
+            for ax in ['x', 'y', 'z']
+        }
         if logger:
             logger.info(
-                "Box size determined from the expanded catalogue bounds: "
+                "Box size determined from the expanded catalogue spans: "
                 "(%.3e, %.3e, %.3e).",
                 paramset['boxsize']['x'],
                 paramset['boxsize']['y'],
@@ -1445,13 +1445,13 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
 
     # Set up box alignment.
     if None in paramset['boxsize'].values():
-        for ax in ['x', 'y', 'z']:
-            paramset['boxsize'][ax] = \
-                catalogue_data.bounds[ax] * paramset['expand']
-        paramset._validate()
+        paramset['boxsize'] = {
+            ax: float(catalogue_data.spans[ax] * paramset['expand'])
+            for ax in ['x', 'y', 'z']
+        }
         if logger:
             logger.info(
-                "Box size determined from the expanded catalogue bounds: "
+                "Box size determined from the expanded catalogue spans: "
                 "(%.3e, %.3e, %.3e).",
                 paramset['boxsize']['x'],
                 paramset['boxsize']['y'],
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 6b60404..a4ddaa6 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -467,13 +467,13 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
 
     # Set up box alignment.
     if None in paramset['boxsize'].values():
-        for ax in ['x', 'y', 'z']:
-            paramset['boxsize'][ax] = \
-                catalogue_rand.bounds[ax] * paramset['expand']
-        paramset._validate()
+        paramset['boxsize'] = {
+            ax: float(catalogue_rand.spans[ax] * paramset['expand'])
+            for ax in ['x', 'y', 'z']
+        }
         if logger:
             logger.info(
-                "Box size determined from the expanded catalogue bounds: "
+                "Box size determined from the expanded catalogue spans: "
                 "(%.3e, %.3e, %.3e).",
                 paramset['boxsize']['x'],
                 paramset['boxsize']['y'],
@@ -1001,13 +1001,13 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
 
     # Set up box alignment.
     if None in paramset['boxsize'].values():
-        for ax in ['x', 'y', 'z']:
-            paramset['boxsize'][ax] = \
-                catalogue_data.bounds[ax] * paramset['expand']
-        paramset._validate()
+        paramset['boxsize'] = {
+            ax: float(catalogue_data.spans[ax] * paramset['expand'])
+            for ax in ['x', 'y', 'z']
+        }
         if logger:
             logger.info(
-                "Box size determined from the expanded catalogue bounds: "
+                "Box size determined from the expanded catalogue spans: "
                 "(%.3e, %.3e, %.3e).",
                 paramset['boxsize']['x'],
                 paramset['boxsize']['y'],
-- 
2.43.0


From 55c8a04f031ae482f9c4120e1fb41f4bb0fb6088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 039/104] fix: determine unset box sizes of window functions

---
 src/triumvirate/threept.py | 14 ++++++++++++++
 src/triumvirate/twopt.py   | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index cbf04ec..4978176 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -1984,6 +1984,20 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
             logger.info("Lines of sight have been initialised.")
 
     # Set up box alignment.
+    if None in paramset['boxsize'].values():
+        paramset['boxsize'] = {
+            ax: float(catalogue_rand.spans[ax] * paramset['expand'])
+            for ax in ['x', 'y', 'z']
+        }
+        if logger:
+            logger.info(
+                "Box size determined from the expanded catalogue spans: "
+                "(%.3e, %.3e, %.3e).",
+                paramset['boxsize']['x'],
+                paramset['boxsize']['y'],
+                paramset['boxsize']['z']
+            )
+
     catalogue_rand.centre(
         [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
     )
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index a4ddaa6..9424b1c 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -1468,6 +1468,20 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
             logger.info("Lines of sight have been initialised.")
 
     # Set up box alignment.
+    if None in paramset['boxsize'].values():
+        paramset['boxsize'] = {
+            ax: float(catalogue_rand.spans[ax] * paramset['expand'])
+            for ax in ['x', 'y', 'z']
+        }
+        if logger:
+            logger.info(
+                "Box size determined from the expanded catalogue spans: "
+                "(%.3e, %.3e, %.3e).",
+                paramset['boxsize']['x'],
+                paramset['boxsize']['y'],
+                paramset['boxsize']['z']
+            )
+
     catalogue_rand.centre(
         [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
     )
-- 
2.43.0


From 162853c30326aaf8bcb774705d287ffc4a7d4c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 040/104] fix: determine unset box sizes of paired catalogues
 from the randoms in the program

---
 src/triumvirate/main/triumvirate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/main/triumvirate.cpp b/src/triumvirate/main/triumvirate.cpp
index c0de1e6..98fc1ef 100644
--- a/src/triumvirate/main/triumvirate.cpp
+++ b/src/triumvirate/main/triumvirate.cpp
@@ -410,7 +410,7 @@ int main(int argc, char* argv[]) {
 
   if (params.catalogue_type == "survey") {
     if (params.volume == 0.) {
-      trv::set_boxsize_from_expand(catalogue_data.pos_span, params);
+      trv::set_boxsize_from_expand(catalogue_rand.pos_span, params);
       if (params.nmesh == 0) {
         trv::set_ngrid_from_cutoff(params);
       }
-- 
2.43.0


From d719ebd246e87ccd153beee739daa3c02ec46dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 041/104] fix: parse parameter files by exact names within
 buffer bounds

---
 src/triumvirate/include/parameters.hpp |   1 +
 src/triumvirate/src/parameters.cpp     | 308 ++++++++++---------------
 2 files changed, 118 insertions(+), 191 deletions(-)

diff --git a/src/triumvirate/include/parameters.hpp b/src/triumvirate/include/parameters.hpp
index 4c90db7..6cb4e30 100644
--- a/src/triumvirate/include/parameters.hpp
+++ b/src/triumvirate/include/parameters.hpp
@@ -42,6 +42,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <fstream>
+#include <sstream>
 #include <string>
 
 #include "monitor.hpp"
diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 665628d..26b3d39 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -102,227 +102,153 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   std::ifstream fin(param_filepath.c_str());
 
   // Initialise temporary variables to hold the extracted parameters.
-  // NOTE: Assume file systems allow path character lengths up to 4096,
-  // and up to 64 files of this maximum lengths are stored in the
-  // char arrays.
-  char catalogue_dir_[1024] = "";
-  char measurement_dir_[1024] = "";
-  char data_catalogue_file_[262144] = "";
-  char rand_catalogue_file_[262144] = "";
-  char catalogue_columns_[1024] = "";
-  char catalogue_dataset_[1024] = "";
-  char output_tag_[1024] = "";
-
-  double boxsize_x, boxsize_y, boxsize_z;
-  int ngrid_x, ngrid_y, ngrid_z;
-
-  char alignment_[16] = "";
-  char padscale_[16] = "";
-  char assignment_[16] = "";
-  char interlace_[16] = "";
-
-  char catalogue_type_[16] = "";
-  char statistic_type_[16] = "";
-  char form_[16] = "";
-  char norm_convention_[16] = "";
-  char binning_[16] = "";
-
-  char fftw_scheme_[16] = "";
-  char use_fftw_wisdom_[1024] = "";
-  char save_binned_vectors_[1024] = "";
-  char progbar_[16] = "";
+  std::string catalogue_dir_;
+  std::string measurement_dir_;
+  std::string data_catalogue_file_;
+  std::string rand_catalogue_file_;
+  std::string catalogue_columns_;
+  std::string catalogue_dataset_;
+  std::string output_tag_;
+
+  double boxsize_x = 0., boxsize_y = 0., boxsize_z = 0.;
+  int ngrid_x = 0, ngrid_y = 0, ngrid_z = 0;
+
+  std::string alignment_;
+  std::string padscale_;
+  std::string assignment_;
+  std::string interlace_;
+
+  std::string catalogue_type_;
+  std::string statistic_type_;
+  std::string form_;
+  std::string norm_convention_;
+  std::string binning_;
+
+  std::string fftw_scheme_;
+  std::string use_fftw_wisdom_;
+  std::string save_binned_vectors_;
+  std::string progbar_;
 
   // ---------------------------------------------------------------------
   // Extraction
   // ---------------------------------------------------------------------
 
   std::string line_str;
-  char dummy_str[1024], dummy_equal[1024];
   while (std::getline(fin, line_str)) {
     // Check if the line is a parameter assignment.
     if (line_str.find("#") == 0) {
       continue;
     }  // skip comment lines
-    if (
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %1023s",
-        dummy_str, dummy_equal, dummy_str
-      ) != 3
-    ) {
+
+    std::string name_str, equal_str, value_str;
+    std::istringstream line_stream(line_str);
+    if (!(line_stream >> name_str >> equal_str >> value_str)) {
       continue;
     }  // skip non-relation lines
-    if (std::strcmp(dummy_equal, "=") != 0) {
+    if (equal_str != "=") {
       continue;
     }  // skip non-assignment lines
 
-    // Define convenience function for scanning string parameters.
-    auto scan_par_str = [line_str, dummy_str, dummy_equal](
-      const char* par_name, const char* fmt, const char* par_value
+    // Define convenience functions for scanning parameters.
+    auto scan_par_str = [&name_str, &value_str](
+      const char* par_name, std::string& par_value
     ) {
-      if (line_str.find(par_name) != std::string::npos) {
-        std::sscanf(
-          line_str.data(), fmt, dummy_str, dummy_equal, par_value
-        );
+      if (name_str == par_name) {
+        par_value = value_str;
+      }
+    };
+    auto scan_par_double = [&name_str, &value_str](
+      const char* par_name, double& par_value
+    ) {
+      if (name_str == par_name) {
+        char* end = nullptr;
+        double value = std::strtod(value_str.c_str(), &end);
+        if (*end != '\0') {
+          throw trvs::InvalidParameterError(
+            "Parameter is not a number: `%s` = '%s'.",
+            par_name, value_str.c_str()
+          );
+        }
+        par_value = value;
+      }
+    };
+    auto scan_par_int = [&name_str, &scan_par_double, &value_str](
+      const char* par_name, int& par_value
+    ) {
+      if (name_str == par_name) {
+        double value = 0.;
+        scan_par_double(par_name, value);
+        if (!(std::fabs(value) < 2147483648.) || value != std::floor(value)) {
+          throw trvs::InvalidParameterError(
+            "Parameter is not an integer: `%s` = '%s'.",
+            par_name, value_str.c_str()
+          );
+        }
+        par_value = static_cast<int>(value);
       }
     };
 
     // -- I/O ------------------------------------------------------------
 
-    scan_par_str("catalogue_dir", "%s %s %s", catalogue_dir_);
-    scan_par_str("measurement_dir", "%s %s %s", measurement_dir_);
-    scan_par_str("data_catalogue_file", "%s %s %s", data_catalogue_file_);
-    scan_par_str("rand_catalogue_file", "%s %s %s", rand_catalogue_file_);
-    scan_par_str("catalogue_columns", "%s %s %s", catalogue_columns_);
-    scan_par_str("catalogue_dataset", "%s %s %s", catalogue_dataset_);
-    scan_par_str("output_tag", "%s %s %s", output_tag_);
+    scan_par_str("catalogue_dir", catalogue_dir_);
+    scan_par_str("measurement_dir", measurement_dir_);
+    scan_par_str("data_catalogue_file", data_catalogue_file_);
+    scan_par_str("rand_catalogue_file", rand_catalogue_file_);
+    scan_par_str("catalogue_columns", catalogue_columns_);
+    scan_par_str("catalogue_dataset", catalogue_dataset_);
+    scan_par_str("output_tag", output_tag_);
 
     // -- Mesh sampling --------------------------------------------------
 
-    if (line_str.find("boxsize_x") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &boxsize_x
-      );
-    }
-    if (line_str.find("boxsize_y") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &boxsize_y
-      );
-    }
-    if (line_str.find("boxsize_z") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &boxsize_z
-      );
-    }
+    scan_par_double("boxsize_x", boxsize_x);
+    scan_par_double("boxsize_y", boxsize_y);
+    scan_par_double("boxsize_z", boxsize_z);
 
-    if (line_str.find("ngrid_x") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &ngrid_x
-      );
-    }
-    if (line_str.find("ngrid_y") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &ngrid_y
-      );
-    }
-    if (line_str.find("ngrid_z") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d", dummy_str, dummy_equal, &ngrid_z
-      );
-    }
+    scan_par_int("ngrid_x", ngrid_x);
+    scan_par_int("ngrid_y", ngrid_y);
+    scan_par_int("ngrid_z", ngrid_z);
 
-    if (line_str.find("expand") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &this->expand
-      );
-    }
+    scan_par_double("expand", this->expand);
 
-    scan_par_str("alignment", "%1023s %1023s %1023s", alignment_);
-    scan_par_str("padscale", "%1023s %1023s %1023s", padscale_);
+    scan_par_str("alignment", alignment_);
+    scan_par_str("padscale", padscale_);
 
-    if (line_str.find("padfactor") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &this->padfactor
-      );
-    }
+    scan_par_double("padfactor", this->padfactor);
 
-    scan_par_str("assignment", "%1023s %1023s %1023s", assignment_);
-    scan_par_str("interlace", "%1023s %1023s %1023s", interlace_);
+    scan_par_str("assignment", assignment_);
+    scan_par_str("interlace", interlace_);
 
     // -- Measurement ----------------------------------------------------
 
-    scan_par_str("catalogue_type", "%1023s %1023s %1023s", catalogue_type_);
-    scan_par_str("statistic_type", "%1023s %1023s %1023s", statistic_type_);
-    scan_par_str("form", "%1023s %1023s %1023s", form_);
-    scan_par_str("norm_convention", "%1023s %1023s %1023s", norm_convention_);
-    scan_par_str("binning", "%1023s %1023s %1023s", binning_);
+    scan_par_str("catalogue_type", catalogue_type_);
+    scan_par_str("statistic_type", statistic_type_);
+    scan_par_str("form", form_);
+    scan_par_str("norm_convention", norm_convention_);
+    scan_par_str("binning", binning_);
 
-    if (line_str.find("ell1") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->ell1
-      );
-    }
-    if (line_str.find("ell2") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->ell2
-      );
-    }
-    if (line_str.find("ELL") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->ELL
-      );
-    }
+    scan_par_int("ell1", this->ell1);
+    scan_par_int("ell2", this->ell2);
+    scan_par_int("ELL", this->ELL);
 
-    if (line_str.find("i_wa") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->i_wa
-      );
-    }
-    if (line_str.find("j_wa") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->j_wa
-      );
-    }
+    scan_par_int("i_wa", this->i_wa);
+    scan_par_int("j_wa", this->j_wa);
 
-    if (line_str.find("bin_min") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &this->bin_min
-      );
-    }
-    if (line_str.find("bin_max") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &this->bin_max
-      );
-    }
+    scan_par_double("bin_min", this->bin_min);
+    scan_par_double("bin_max", this->bin_max);
 
-    if (line_str.find("num_bins") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->num_bins
-      );
-    }
-    if (line_str.find("idx_bin") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->idx_bin
-      );
-    }
+    scan_par_int("num_bins", this->num_bins);
+    scan_par_int("idx_bin", this->idx_bin);
 
-    if (line_str.find("cutoff_nyq") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &this->cutoff_nyq
-      );
-    }
+    scan_par_double("cutoff_nyq", this->cutoff_nyq);
 
     // -- Misc -------------------------------------------------------------
 
-    scan_par_str("fftw_scheme", "%1023s %1023s %1023s", fftw_scheme_);
-    scan_par_str("use_fftw_wisdom", "%1023s %1023s %1023s", use_fftw_wisdom_);
-    scan_par_str(
-      "save_binned_vectors", "%1023s %1023s %1023s", save_binned_vectors_
-    );
-    scan_par_str("progbar", "%1023s %1023s %1023s", progbar_);
+    scan_par_str("fftw_scheme", fftw_scheme_);
+    scan_par_str("use_fftw_wisdom", use_fftw_wisdom_);
+    scan_par_str("save_binned_vectors", save_binned_vectors_);
+    scan_par_str("progbar", progbar_);
 
-    if (line_str.find("verbose") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->verbose
-      );
-    }
+    scan_par_int("verbose", this->verbose);
   }
 
   // ---------------------------------------------------------------------
@@ -340,41 +266,41 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   this->catalogue_dataset = catalogue_dataset_;
   this->output_tag = output_tag_;
 
-  if (strlen(alignment_) > 0) {
+  if (alignment_ != "") {
     this->alignment = alignment_;
   }
-  if (strlen(padscale_) > 0) {
+  if (padscale_ != "") {
     this->padscale = padscale_;
   }
-  if (strlen(assignment_) > 0) {
+  if (assignment_ != "") {
     this->assignment = assignment_;
   }
-  if (strlen(interlace_) > 0) {
+  if (interlace_ != "") {
     this->interlace = interlace_;
   }
 
   this->catalogue_type = catalogue_type_;
   this->statistic_type = statistic_type_;
-  if (strlen(form_) > 0) {
+  if (form_ != "") {
     this->form = form_;
   }
-  if (strlen(norm_convention_) > 0) {
+  if (norm_convention_ != "") {
     this->norm_convention = norm_convention_;
   }
-  if (strlen(binning_) > 0) {
+  if (binning_ != "") {
     this->binning = binning_;
   }
 
-  if (strlen(fftw_scheme_) > 0) {
+  if (fftw_scheme_ != "") {
     this->fftw_scheme = fftw_scheme_;
   }
-  if (strlen(use_fftw_wisdom_) > 0) {
+  if (use_fftw_wisdom_ != "") {
     this->use_fftw_wisdom = use_fftw_wisdom_;
   }
-  if (strlen(save_binned_vectors_) > 0) {
+  if (save_binned_vectors_ != "") {
     this->save_binned_vectors = save_binned_vectors_;
   }
-  if (strlen(progbar_) > 0) {
+  if (progbar_ != "") {
     this->progbar = progbar_;
   }
 
@@ -388,7 +314,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   this->ngrid[2] = ngrid_z;
 
   this->volume = boxsize_x * boxsize_y * boxsize_z;
-  this->nmesh = ngrid_x * ngrid_y * ngrid_z;
+  this->nmesh = static_cast<long long>(ngrid_x) * ngrid_y * ngrid_z;
 
   // ---------------------------------------------------------------------
   // Debugging mode
-- 
2.43.0


From 0e51a033a045d4c1affccb0380e7082a61c856a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 042/104] fix: accept grid padding factors while grid cell
 numbers are unset

---
 src/triumvirate/src/parameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 26b3d39..f7e1609 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1088,7 +1088,7 @@ int ParameterSet::validate(bool init) {
         this->padscale.c_str(), this->padfactor
       );
     }
-    if (this->padscale == "grid" && (
+    if (this->padscale == "grid" && this->nmesh > 0 && (
         this->padfactor >= this->ngrid[0]
         || this->padfactor >= this->ngrid[1]
         || this->padfactor >= this->ngrid[2]
-- 
2.43.0


From 200f74b3d67f81863499b0453709d797d0aa6755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 043/104] fix: copy the 3PCF measurement shape of parameter
 sets

---
 src/triumvirate/src/parameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index f7e1609..6895f28 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -70,6 +70,7 @@ ParameterSet::ParameterSet(const ParameterSet& other) {
   this->form = other.form;
   this->norm_convention = other.norm_convention;
   this->binning = other.binning;
+  this->shape = other.shape;
   this->bin_min = other.bin_min;
   this->bin_max = other.bin_max;
   this->num_bins = other.num_bins;
-- 
2.43.0


From 25ae2104922890fbbfda336a831e915e02897755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 044/104] fix: print the total mesh grid number of parameter
 sets in full

---
 src/triumvirate/src/parameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 6895f28..56fa4ae 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1284,7 +1284,7 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   print_par_int("ngrid_z = %d\n", this->ngrid[2]);
 
   print_par_double("volume = %.6e\n", this->volume);
-  print_par_int("nmesh = %lld\n", this->nmesh);
+  std::fprintf(ofileptr, "nmesh = %lld\n", this->nmesh);
 
   print_par_double("expand = %.4f\n", this->expand);
   print_par_str("alignment = %s\n", this->alignment);
-- 
2.43.0


From 0f5e98f8fa847a590ee98d04023176ce8648678f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:30 +0000
Subject: [PATCH 045/104] fix: leave mappings passed to parameter set updates
 unchanged

---
 src/triumvirate/parameters.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 489efd3..6388b50 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -209,7 +209,7 @@ cdef class ParameterSet:
             Parameter value.
 
         """
-        self._params.update({key: val})
+        self._params.update({key: deepcopy(val)})
         self._parse_params()  # validate
         self._original = False
 
@@ -291,7 +291,7 @@ cdef class ParameterSet:
         """Update parameter set like :meth:`dict.update`.
 
         """
-        self._params.update(*args, **kwargs)
+        self._params.update(deepcopy(dict(*args, **kwargs)))
         self._parse_params()  # validate
         self._original = False
 
-- 
2.43.0


From 36c757663a68097922888fcb55c3600d65904b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 046/104] fix: log to standard loggers without C++ state
 arguments

---
 src/triumvirate/threept.py | 30 ++++++++++--------------------
 src/triumvirate/twopt.py   | 30 ++++++++++--------------------
 2 files changed, 20 insertions(+), 40 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 4978176..802ccea 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -606,8 +606,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -623,8 +622,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -685,8 +683,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             logger.info(
                 "Measuring %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = threept_algofunc(
@@ -706,8 +703,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             logger.info(
                 "... measured %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1503,8 +1499,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -1518,8 +1513,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -1569,8 +1563,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             logger.info(
                 "Measuring %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = threept_algofunc(particles_data, paramset, binning, norm_factor)
@@ -1587,8 +1580,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             logger.info(
                 "... measured %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -2065,8 +2057,7 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "Measuring three-point correlation function window "
-                "from a random catalogue...",
-                cpp_state='start'
+                "from a random catalogue..."
             )
 
     results = _compute_3pcf_window(
@@ -2085,8 +2076,7 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "... measured three-point correlation function window "
-                "from a random catalogue.",
-                cpp_state='end'
+                "from a random catalogue."
             )
 
     if save:
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 9424b1c..34e252c 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -529,8 +529,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -546,8 +545,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -611,8 +609,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             logger.info(
                 "Measuring %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = twopt_algofunc(
@@ -632,8 +629,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             logger.info(
                 "... measured %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1059,8 +1055,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data =  \
@@ -1074,8 +1069,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -1125,8 +1119,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             logger.info(
                 "Measuring %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = twopt_algofunc(particles_data, paramset, binning, norm_factor)
@@ -1143,8 +1136,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             logger.info(
                 "... measured %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1549,8 +1541,7 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "Measuring two-point correlation function window "
-                "from a random catalogue...",
-                cpp_state='start'
+                "from a random catalogue..."
             )
 
     results = _compute_corrfunc_window(
@@ -1568,8 +1559,7 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "... measured two-point correlation function window "
-                "from a random catalogue.",
-                cpp_state='end'
+                "from a random catalogue."
             )
 
     if save:
-- 
2.43.0


From 4eff398fcaca65c02314b3c32908f6f4363b4266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 047/104] fix: keep dotted output tags in names of saved
 measurements

---
 src/triumvirate/threept.py | 16 ++++++++--------
 src/triumvirate/twopt.py   | 12 ++++++------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 802ccea..c5e88bc 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -722,14 +722,14 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1286,7 +1286,7 @@ def compute_3pcf(catalogue_data, catalogue_rand,
 #                 ['% .9e'] * (datatab.shape[-1] - 6)
 #             )
 #             ofilename = _get_measurement_filename(paramset)
-#             ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+#             ofilepath = Path(odirpath, ofilename + '.txt')
 #             np.savetxt(
 #                 ofilepath, datatab,
 #                 fmt=datafmt, header=header, delimiter='\t'
@@ -1294,7 +1294,7 @@ def compute_3pcf(catalogue_data, catalogue_rand,
 #         elif save.lower().endswith('.npz'):
 #             results.update({'header': header})
 #             ofilename = _get_measurement_filename(paramset)
-#             ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+#             ofilepath = Path(odirpath, ofilename + '.npz')
 #             np.savez(ofilepath, **results)
 #         else:
 #             raise ValueError(
@@ -1599,14 +1599,14 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -2095,14 +2095,14 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 34e252c..1ee4788 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -647,14 +647,14 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1154,14 +1154,14 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1577,14 +1577,14 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
-- 
2.43.0


From baa5cccc85882abd3903aba7d53b3b03df225f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 048/104] fix: save two-point window functions without a
 measurement directory

---
 src/triumvirate/twopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 1ee4788..df549cb 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -1563,7 +1563,7 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
             )
 
     if save:
-        odirpath = paramset['directories']['measurements']
+        odirpath = paramset['directories']['measurements'] or ""
         header = "\n".join([
             catalogue_rand.write_attrs_as_header(),
             _print_measurement_header(
-- 
2.43.0


From 8570b61e2f1d8704f7cc7807fdad914f1e017ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 049/104] fix: save wide-angle window terms under their own
 names

---
 src/triumvirate/threept.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index c5e88bc..9241a58 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -1940,7 +1940,8 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         paramset=paramset, params_sampling=sampling_params,
         degrees=degrees, wa_orders=wa_orders,
         binning=binning, form=form, idx_bin=idx_bin,
-        catalogue_type='random', statistic_type='3pcf-win'
+        catalogue_type='random',
+        statistic_type='3pcf-win-wa' if wide_angle else '3pcf-win'
     )
 
     if isinstance(paramset, dict):  # likely redundant but safe
-- 
2.43.0


From 464c42f9dc2dc4c745ec19e89d597839e5ff3af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 050/104] fix: fill missing mean densities of box catalogues
 with automatic box sizes in the program

---
 src/triumvirate/main/triumvirate.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/triumvirate/main/triumvirate.cpp b/src/triumvirate/main/triumvirate.cpp
index 98fc1ef..5d977ba 100644
--- a/src/triumvirate/main/triumvirate.cpp
+++ b/src/triumvirate/main/triumvirate.cpp
@@ -450,6 +450,18 @@ int main(int argc, char* argv[]) {
       }
     }
     catalogue_data.offset_coords_for_periodicity(params.boxsize);
+
+    // Set missing 'nz' values to the mean density in the box, which may
+    // not have been known when the catalogue was read.
+    bool nz_missing = true;
+    for (int pid = 0; pid < catalogue_data.ntotal; pid++) {
+      if (catalogue_data[pid].nz != 0.) {nz_missing = false; break;}
+    }
+    if (nz_missing) {
+      for (int pid = 0; pid < catalogue_data.ntotal; pid++) {
+        catalogue_data[pid].nz = catalogue_data.ntotal / params.volume;
+      }
+    }
   } else
   if (params.catalogue_type == "random") {
     if (params.volume == 0.) {
-- 
2.43.0


From df4c120768e86185b00513272d49dd490a6c0970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:54 +0000
Subject: [PATCH 051/104] fix: reject catalogue files with missing columns or
 numbers in the program

---
 src/triumvirate/src/particles.cpp | 41 +++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index 42154d3..1647b49 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -381,6 +381,30 @@ int ParticleCatalogue::load_catalogue_file(
     }
 #endif  // TRV_USE_H5
   } else {
+    // Check the coordinate columns and find the least number of columns.
+    int num_cols_min = 0;
+    for (std::size_t iname = 0; iname < names_ordered.size(); iname++) {
+      if (name_indices[iname] == -1 && iname < 3) {
+        if (trvs::currTask == 0) {
+          trvs::logger.error(
+            "Catalogue '%s' column is unavailable (source=%s).",
+            names_ordered[iname].c_str(), this->source.c_str()
+          );
+        }
+        throw trvs::IOError(
+          "Catalogue '%s' column is unavailable (source=%s).",
+          names_ordered[iname].c_str(), this->source.c_str()
+        );
+      }
+      num_cols_min = std::max(num_cols_min, name_indices[iname] + 1);
+    }
+
+    // Skip empty lines (including blank ones) or comment lines.
+    auto is_skipped = [](const std::string& line) {
+      std::size_t pos = line.find_first_not_of(" \t\r\v\f");
+      return pos == std::string::npos || line[pos] == '#';
+    };
+
     int nentry = 0;
     for (const auto& ctlg_subfilepath : catalogue_subfilepaths) {
       std::ifstream fin;
@@ -407,7 +431,7 @@ int ParticleCatalogue::load_catalogue_file(
         if (!fin) {break;}
 
         // Skip empty lines or comment lines.
-        if (line_str.empty() || line_str[0] == '#') {continue;}
+        if (is_skipped(line_str)) {continue;}
 
         // Count the line as valid otherwise.
         num_lines++;
@@ -450,7 +474,7 @@ int ParticleCatalogue::load_catalogue_file(
         if (!fin) {break;}
 
         // Skip empty lines or comment lines.
-        if (entry_str.empty() || entry_str[0] == '#') {continue;}
+        if (is_skipped(entry_str)) {continue;}
 
         // Extract row entries.
         std::vector<double> row;
@@ -461,6 +485,19 @@ int ParticleCatalogue::load_catalogue_file(
         );
         while (ss >> entry) {row.push_back(entry);}
 
+        if (static_cast<int>(row.size()) < num_cols_min) {
+          if (trvs::currTask == 0) {
+            trvs::logger.error(
+              "Catalogue line has fewer than %d numbers: %s",
+              num_cols_min, ctlg_subfilepath.c_str()
+            );
+          }
+          throw trvs::IOError(
+            "Catalogue line has fewer than %d numbers: %s",
+            num_cols_min, ctlg_subfilepath.c_str()
+          );
+        }
+
         // Add the current line as a particle.
         this->pdata[idx_entry].pos[0] = row[name_indices[0]];  // x
         this->pdata[idx_entry].pos[1] = row[name_indices[1]];  // y
-- 
2.43.0


From c59940a4f67bcd91b399a3215aa3e20f738c0e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 052/104] fix: stop the program when output files cannot be
 opened

---
 src/triumvirate/main/triumvirate.cpp | 39 ++++++++++++++++++++--------
 src/triumvirate/src/field.cpp        | 12 +++++++++
 2 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/src/triumvirate/main/triumvirate.cpp b/src/triumvirate/main/triumvirate.cpp
index 5d977ba..389781f 100644
--- a/src/triumvirate/main/triumvirate.cpp
+++ b/src/triumvirate/main/triumvirate.cpp
@@ -98,6 +98,23 @@ void _set_custom_bins(trv::Binning& _binning) {
   _binning.bin_edges.push_back(_binning.bin_max);
 }
 
+/**
+ * @brief Open a file for saving measurements, or exit if this fails.
+ *
+ * @param save_filepath Measurement file path.
+ * @returns Measurement file pointer.
+ */
+std::FILE* _open_save_file(const char* save_filepath) {
+  std::FILE* save_fileptr = std::fopen(save_filepath, "w");
+  if (save_fileptr == nullptr) {
+    trv::sys::logger.error(
+      "Failed to open file for saving measurements: %s", save_filepath
+    );
+    trv::sys::exit_fatal("Failed to save measurements.");
+  }
+  return save_fileptr;
+}
+
 /**
  * @brief A 'black-box' program for measuring two- and three-point
  *        clustering statistics.
@@ -619,7 +636,7 @@ int main(int argc, char* argv[]) {
         catalogue_data, catalogue_rand, los_data, los_rand,
         params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data, catalogue_rand,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -629,7 +646,7 @@ int main(int argc, char* argv[]) {
       meas_powspec = trv::compute_powspec_in_gpp_box(
         catalogue_data, params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -652,7 +669,7 @@ int main(int argc, char* argv[]) {
         catalogue_data, catalogue_rand, los_data, los_rand,
         params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data, catalogue_rand,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -662,7 +679,7 @@ int main(int argc, char* argv[]) {
       meas_2pcf = trv::compute_corrfunc_in_gpp_box(
         catalogue_data, params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -682,7 +699,7 @@ int main(int argc, char* argv[]) {
     trv::TwoPCFWindowMeasurements meas_2pcf_win = trv::compute_corrfunc_window(
       catalogue_rand, los_rand, params, binning, alpha, norm_factor
     );  // two-point correlation function window
-    std::FILE* save_fileptr = std::fopen(save_filepath, "w");
+    std::FILE* save_fileptr = _open_save_file(save_filepath);
     trv::io::print_measurement_header_to_file(
       save_fileptr, params, catalogue_rand,
       norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -725,7 +742,7 @@ int main(int argc, char* argv[]) {
         catalogue_data, catalogue_rand, los_data, los_rand,
         params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data, catalogue_rand,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -735,7 +752,7 @@ int main(int argc, char* argv[]) {
       meas_bispec = trv::compute_bispec_in_gpp_box(
         catalogue_data, params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -779,7 +796,7 @@ int main(int argc, char* argv[]) {
         catalogue_data, catalogue_rand, los_data, los_rand,
         params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data, catalogue_rand,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -789,7 +806,7 @@ int main(int argc, char* argv[]) {
       meas_3pcf = trv::compute_3pcf_in_gpp_box(
         catalogue_data, params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -831,7 +848,7 @@ int main(int argc, char* argv[]) {
     trv::ThreePCFWindowMeasurements meas_3pcf_win = trv::compute_3pcf_window(
       catalogue_rand, los_rand, params, binning, alpha, norm_factor, wa
     );  // three-point correlation function window
-    std::FILE* save_fileptr = std::fopen(save_filepath, "w");
+    std::FILE* save_fileptr = _open_save_file(save_filepath);
     trv::io::print_measurement_header_to_file(
       save_fileptr, params, catalogue_rand,
       norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -877,7 +894,7 @@ int main(int argc, char* argv[]) {
       trv::compute_3pcf_window(
         catalogue_rand, los_rand, params, binning, alpha, norm_factor, wa
       );  // three-point correlation function window wide-angle corrections
-    std::FILE* save_fileptr = std::fopen(save_filepath, "w");
+    std::FILE* save_fileptr = _open_save_file(save_filepath);
     trv::io::print_measurement_header_to_file(
       save_fileptr, params, catalogue_rand,
       norm_factor_part, norm_factor_mesh, norm_factor_meshes
diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index b02ba1a..f0ca19d 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -2534,6 +2534,18 @@ OMP_CRITICAL
   // Save the binned vectors.
   if (save_file != "") {
     std::FILE* save_fileptr = std::fopen(save_file.c_str(), "w");
+    if (save_fileptr == nullptr) {
+      if (trvs::currTask == 0) {
+        trvs::logger.error(
+          "Failed to open file for saving binned vectors: %s",
+          save_file.c_str()
+        );
+      }
+      throw trvs::IOError(
+        "Failed to open file for saving binned vectors: %s",
+        save_file.c_str()
+      );
+    }
     trv::io::print_binned_vectors_to_file(
       save_fileptr, this->params, binned_vectors_sorted
     );
-- 
2.43.0


From 25ce3c502dc930e37c7df593fa0bff5e433eedb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 053/104] fix: leave samples passed to spherical Bessel
 transforms unchanged

---
 src/triumvirate/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index de5d496..f36202e 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -197,7 +197,7 @@ class SphericalBesselTransform:
         if self._extrap_layer == 'outer':
             pre_samples = self._perform_extrap(pre_samples)
 
-        pre_samples *= self._pre_sampts ** (3./2)
+        pre_samples = pre_samples * self._pre_sampts ** (3./2)
 
         post_sampts, post_samples = self._fbht.transform(pre_samples)
 
-- 
2.43.0


From 72d2ae5eaed7d85926656820f3e3069a1a2f5124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 054/104] fix: check the length of samples passed to Hankel
 transforms

---
 src/triumvirate/_fftlog.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/_fftlog.pyx b/src/triumvirate/_fftlog.pyx
index ffbecb6..7b231c2 100644
--- a/src/triumvirate/_fftlog.pyx
+++ b/src/triumvirate/_fftlog.pyx
@@ -120,8 +120,13 @@ cdef class HankelTransform:
             Post-transform sample points and samples.
 
         """
-        fx_ = fx.astype(np.complex128)
-        gy_ = np.zeros_like(fx, dtype=np.complex128)
+        fx_ = np.array(fx, dtype=np.complex128, order='C')
+        if fx_.shape != (self._nsamp,):
+            raise ValueError(
+                "Pre-transform samples must match the sample points: "
+                f"{fx_.shape} != ({self._nsamp},)."
+            )
+        gy_ = np.zeros_like(fx_)
         self._transform(fx_, gy_)
 
         y = np.array(self._post_sampts)
-- 
2.43.0


From dca7be79ab049802793f77257ae073835e4ac2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 055/104] fix: compute extrapolated post-transform sample
 points within bounds

---
 src/triumvirate/src/fftlog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/fftlog.cpp b/src/triumvirate/src/fftlog.cpp
index 3fb92f7..37e0bdb 100644
--- a/src/triumvirate/src/fftlog.cpp
+++ b/src/triumvirate/src/fftlog.cpp
@@ -172,7 +172,7 @@ void HankelTransform::initialise(
     this->post_sampts_extrap.resize(this->nsamp_trans);
     for (int j = 0; j < this->nsamp_trans; j++) {
       this->post_sampts_extrap[j] =
-        kr_aprod / this->pre_sampts[this->nsamp_trans - j - 1];
+        kr_aprod / this->pre_sampts_extrap[this->nsamp_trans - j - 1];
     }
   }
 
-- 
2.43.0


From 9008ab134938605d33e01319ca87875d0e9f7b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 056/104] fix: resize the output of spherical Bessel transforms

---
 src/triumvirate/src/fftlog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/fftlog.cpp b/src/triumvirate/src/fftlog.cpp
index 37e0bdb..3d89a9f 100644
--- a/src/triumvirate/src/fftlog.cpp
+++ b/src/triumvirate/src/fftlog.cpp
@@ -532,7 +532,7 @@ void SphericalBesselTransform::biased_transform(
       "The size of array `a` must be equal to the number of samples."
     );
   }
-  if (a.size() != N) {
+  if (b.size() != N) {
     b.resize(N);
   }
 
-- 
2.43.0


From 3bc8ef4ba64e0462a97389f54b44638feda7168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 057/104] fix: reject unsupported extrapolation options of
 Hankel transforms

---
 src/triumvirate/_fftlog.pyx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/_fftlog.pyx b/src/triumvirate/_fftlog.pyx
index 7b231c2..2a1c0fc 100644
--- a/src/triumvirate/_fftlog.pyx
+++ b/src/triumvirate/_fftlog.pyx
@@ -36,9 +36,10 @@ cdef class HankelTransform:
         options:
 
         - 0: none;
-        - 1: extrapolate by constant padding;
-        - 2: extrapolate linearly;
-        - 3: extrapolate log-linearly.
+        - 1: extrapolate by zero padding;
+        - 2: extrapolate by constant padding;
+        - 3: extrapolate linearly;
+        - 4: extrapolate log-linearly.
 
         Any extrapolation results in a sample size for the transform that
         is the smallest power of 2 greater than or equal to `extrap_exp`
@@ -69,6 +70,11 @@ cdef class HankelTransform:
     def __cinit__(self, mu, q, x, kr_c, lowring=True, extrap=0, extrap_exp=2.,
                   threaded=False):
 
+        if extrap not in {None, 0, 1, 2, 3, 4}:
+            raise ValueError(
+                f"Extrapolation option must be in 0 to 4: {extrap=}."
+            )
+
         _x = np.ascontiguousarray(_check_1d_array(x, check_loglin=True).copy())
 
         self.thisptr = new CppHankelTransform(<double>mu, <double>q, threaded)
-- 
2.43.0


From e0de7c9726f4d87fd629ea6aa8a920779a49574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 058/104] fix: resample in two dimensions at different numbers
 of sample points

---
 src/triumvirate/transforms.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index f36202e..7d12432 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -567,8 +567,9 @@ def resample_lglin(sampts, samples, size=None, spline=3):
     Resampling is accurate: True
 
     """
-    sampts = np.squeeze(sampts)
     samples = np.squeeze(samples)
+    if samples.ndim == 1:
+        sampts = np.squeeze(sampts)
 
     if samples.ndim == 1:
         if sampts.ndim != 1:
@@ -585,8 +586,9 @@ def resample_lglin(sampts, samples, size=None, spline=3):
         return resampts, resamples
 
     if samples.ndim == 2:
-        if sampts.ndim == 1:
-            sampts = np.array([sampts, sampts])
+        if len(sampts) != 2 or np.ndim(sampts[0]) == 0:
+            sampts = (sampts, sampts)
+        sampts = [np.squeeze(sampts_) for sampts_ in sampts]
         if len(sampts) != 2 or sampts[0].ndim != 1 or sampts[-1].ndim != 1:
             raise ValueError(
                 "Must provide (two) 1-d array(s) as sample points "
@@ -658,8 +660,9 @@ def resample_lin(sampts, samples, size=None, spline=3):
     Resampling is accurate: True
 
     """
-    sampts = np.squeeze(sampts)
     samples = np.squeeze(samples)
+    if samples.ndim == 1:
+        sampts = np.squeeze(sampts)
 
     if samples.ndim == 1:
         if sampts.ndim != 1:
@@ -675,8 +678,9 @@ def resample_lin(sampts, samples, size=None, spline=3):
         return resampts, resamples
 
     if samples.ndim == 2:
-        if sampts.ndim == 1:
-            sampts = np.array([sampts, sampts])
+        if len(sampts) != 2 or np.ndim(sampts[0]) == 0:
+            sampts = (sampts, sampts)
+        sampts = [np.squeeze(sampts_) for sampts_ in sampts]
         if len(sampts) != 2 or sampts[0].ndim != 1 or sampts[-1].ndim != 1:
             raise ValueError(
                 "Must provide (two) 1-d array(s) as sample points "
-- 
2.43.0


From b06a4b4d7b22ef5c01ab1ee43211070ec24aa406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 059/104] fix: resample logarithmically within the original
 range

---
 src/triumvirate/transforms.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index 7d12432..3fb6e74 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -575,9 +575,8 @@ def resample_lglin(sampts, samples, size=None, spline=3):
         if sampts.ndim != 1:
             raise ValueError("Sample points must be 1-d.")
 
-        resampts = np.logspace(
-            np.log10(sampts[0]), np.log10(sampts[-1]), size or len(sampts),
-            base=10
+        resampts = np.geomspace(
+            sampts[0], sampts[-1], size or len(sampts)
         )
         resamples = InterpolatedUnivariateSpline(
             sampts, samples, k=spline, ext='raise'
@@ -598,13 +597,13 @@ def resample_lglin(sampts, samples, size=None, spline=3):
         size = size if isinstance(size, Sequence) else (size, size)
 
         resampts = (
-            np.logspace(
-                np.log10(sampts[0][0]), np.log10(sampts[0][-1]),
-                size[0] or len(sampts[0]), base=10
+            np.geomspace(
+                sampts[0][0], sampts[0][-1],
+                size[0] or len(sampts[0])
             ),
-            np.logspace(
-                np.log10(sampts[-1][0]), np.log10(sampts[-1][-1]),
-                size[-1] or len(sampts[-1]), base=10
+            np.geomspace(
+                sampts[-1][0], sampts[-1][-1],
+                size[-1] or len(sampts[-1])
             )
         )
         resamples = RectBivariateSpline(
-- 
2.43.0


From 4a4a84aba615e93ff53e00f495d90364fa299d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 060/104] fix: accept sorted arrays in either order

---
 src/triumvirate/_arrayops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/_arrayops.py b/src/triumvirate/_arrayops.py
index 5eb3eeb..daa0d17 100644
--- a/src/triumvirate/_arrayops.py
+++ b/src/triumvirate/_arrayops.py
@@ -122,7 +122,7 @@ def _check_1d_array(a, check_sorted=False, check_epsign=False,
             )
 
     if check_sorted:
-        if (not np.all(a[:-1] <= a[1:])) or (not np.all(a[:-1] >= a[1:])):
+        if (not np.all(a[:-1] <= a[1:])) and (not np.all(a[:-1] >= a[1:])):
             raise OrderError("Input array is not a sorted sequence.")
     if check_epsign:
         _check_epsign(a)
@@ -211,7 +211,7 @@ def _check_2d_array(a, check_sorted=False, check_epsign=False,
                     not np.all([
                         np.all(a__row[:-1] <= a__row[1:]) for a__row in a_
                     ])
-                ) or (
+                ) and (
                     not np.all([
                         np.all(a__row[:-1] >= a__row[1:]) for a__row in a_
                     ])
-- 
2.43.0


From 7a8bfb52b0aa4e8cf1053c0b29c0eeb9a23b3d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 061/104] fix: pad rows and columns by their own extension
 sizes

---
 src/triumvirate/_arrayops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/_arrayops.py b/src/triumvirate/_arrayops.py
index daa0d17..12c9fe9 100644
--- a/src/triumvirate/_arrayops.py
+++ b/src/triumvirate/_arrayops.py
@@ -637,15 +637,15 @@ def extrap2d_pad(a, n_ext, crow_lower, crow_upper, ccol_lower, ccol_upper):
     nrow_ext, ncol_ext = \
         n_ext if isinstance(n_ext, Sequence) else (n_ext, n_ext)
 
-    a_l = np.tile(crow_lower, (nrow_ext, 1)).T
-    a_r = np.tile(crow_upper, (nrow_ext, 1)).T
+    a_l = np.tile(crow_lower, (ncol_ext, 1)).T
+    a_r = np.tile(crow_upper, (ncol_ext, 1)).T
     a_ = np.c_[a_l, a, a_r]
 
     ccol_lower = np.concatenate([a_l[0], ccol_lower, a_r[0]])
     ccol_upper = np.concatenate([a_l[-1], ccol_upper, a_r[-1]])
 
-    a__u = np.tile(ccol_lower, (ncol_ext, 1))
-    a__d = np.tile(ccol_upper, (ncol_ext, 1))
+    a__u = np.tile(ccol_lower, (nrow_ext, 1))
+    a__d = np.tile(ccol_upper, (nrow_ext, 1))
     a_out = np.r_[a__u, a_, a__d]
 
     return a_out
-- 
2.43.0


From c122ed531802c37faa47ba6f966d333313a2a0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 062/104] fix: keep imaginary parts when reshaping
 upper-triangular measurements

---
 src/triumvirate/_arrayops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/_arrayops.py b/src/triumvirate/_arrayops.py
index 12c9fe9..c677aa1 100644
--- a/src/triumvirate/_arrayops.py
+++ b/src/triumvirate/_arrayops.py
@@ -798,7 +798,9 @@ def reshape_threept_datatab(paired_coords, flat_multipole, shape='triu'):
 
         triu_indices = np.triu_indices(nbins)
 
-        multipole = np.zeros((nbins, nbins))
+        multipole = np.zeros(
+            (nbins, nbins), dtype=np.result_type(flat_multipole, float)
+        )
         multipole[triu_indices] = flat_multipole
         multipole.T[triu_indices] = flat_multipole
     elif shape == 'full':
-- 
2.43.0


From f27f864fe6b8ee15ff9f4498e4e989c7e90eb165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 063/104] fix: extrapolate zero endpoints by zeros

---
 src/triumvirate/_arrayops.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/_arrayops.py b/src/triumvirate/_arrayops.py
index c677aa1..75ef0c7 100644
--- a/src/triumvirate/_arrayops.py
+++ b/src/triumvirate/_arrayops.py
@@ -322,8 +322,12 @@ def extrap_loglin(a, n_ext):
     """
     a = _check_1d_array(a, check_epsign=True)
 
-    a_l = a[0] * (a[0] / a[1]) ** np.arange(n_ext, 0, -1)
-    a_r = a[-1] * (a[-1] / a[-2]) ** np.arange(1, n_ext + 1, 1)
+    # Zero endpoints are extrapolated by zeros.
+    r_l = a[0] / a[1] if a[0] != 0. else 0.
+    r_r = a[-1] / a[-2] if a[-1] != 0. else 0.
+
+    a_l = a[0] * r_l ** np.arange(n_ext, 0, -1)
+    a_r = a[-1] * r_r ** np.arange(1, n_ext + 1, 1)
     a_out = np.concatenate([a_l, a, a_r])
 
     return a_out
@@ -530,8 +534,14 @@ def _extrap2d_row_loglin(a, ncol_ext):
         Extrapolated 2-d array.
 
     """
-    a_l = a[:, [0]] * (a[:, [0]]/a[:, [1]]) ** np.arange(ncol_ext, 0, -1)
-    a_r = a[:, [-1]] * (a[:, [-1]]/a[:, [-2]]) ** np.arange(1, ncol_ext + 1, 1)
+    # Zero endpoints are extrapolated by zeros.
+    r_l = np.where(a[:, [0]] != 0., a[:, [0]], 0.) \
+        / np.where(a[:, [0]] != 0., a[:, [1]], 1.)
+    r_r = np.where(a[:, [-1]] != 0., a[:, [-1]], 0.) \
+        / np.where(a[:, [-1]] != 0., a[:, [-2]], 1.)
+
+    a_l = a[:, [0]] * r_l ** np.arange(ncol_ext, 0, -1)
+    a_r = a[:, [-1]] * r_r ** np.arange(1, ncol_ext + 1, 1)
 
     a_out = np.c_[a_l, a, a_r]
 
-- 
2.43.0


From 0ea4518cb3610c588b27e037d148f5728aeb686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 064/104] fix: order multipoles by all of their degrees

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 246bfe9..b42f6ca 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -272,7 +272,7 @@ class Multipole:
         if self.index[-1] > other.index[-1]:
             return False
 
-        for idx, idx_other in zip(self.index[:-2], other.index[:-2]):
+        for idx, idx_other in zip(self.index[:-1], other.index[:-1]):
             if idx < idx_other:
                 return True
             if idx > idx_other:
@@ -288,7 +288,7 @@ class Multipole:
         if self.index[-1] < other.index[-1]:
             return False
 
-        for idx, idx_other in zip(self.index[:-2], other.index[:-2]):
+        for idx, idx_other in zip(self.index[:-1], other.index[:-1]):
             if idx > idx_other:
                 return True
             if idx < idx_other:
-- 
2.43.0


From a14be4129ec8e07f8b168ccf5119d30f8f83d0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 065/104] fix: accept multipole-like keys of convolved
 multipoles

---
 src/triumvirate/winconv.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index b42f6ca..3c6c80a 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1857,6 +1857,9 @@ class TwoPCFWinConv(WinConvBase):
             a multipole) at sample points :attr:`r_out`.
 
         """
+        # Unify multipole key type.
+        xi_in = {Multipole(key): val for key, val in xi_in.items()}
+
         xi_conv_out = {}
         for multipole in self._formulae.multipoles:
             summands = []
@@ -2105,6 +2108,9 @@ class PowspecWinConv(WinConvBase):
             (only returned if `ret_xi` is `True`).
 
         """
+        # Unify multipole key type.
+        P_in = {Multipole(key): val for key, val in P_in.items()}
+
         # Backward transform power spectrum multipoles to 2PCF multipoles.
         xi_in = {}
         for multipole_Z in self._formulae._multipoles_Z_true:
@@ -2242,6 +2248,9 @@ class ThreePCFWinConv(WinConvBase):
             match the separation sample points of the input 3PCF.
 
         """
+        # Unify multipole key type.
+        zeta_in = {Multipole(key): val for key, val in zeta_in.items()}
+
         # Enforce integral constraint.
         if 'ic' in self._formulae.multipoles_Z and ic is None:
             if self._catch_warnings:
@@ -2324,6 +2333,9 @@ class ThreePCFWinConv(WinConvBase):
             formulae but `ic` is `None`.
 
         """
+        # Unify multipole key type.
+        zeta_diag_in = {Multipole(key): val for key, val in zeta_diag_in.items()}
+
         # Enforce integral constraint.
         if 'ic' in self._formulae.multipoles_Z and ic is None:
             raise ValueError(
@@ -2629,6 +2641,9 @@ class BispecWinConv(WinConvBase):
             (only returned if `ret_zeta` is `True`).
 
         """
+        # Unify multipole key type.
+        B_in = {Multipole(key): val for key, val in B_in.items()}
+
         # Reinterpolate input bispectrum multipoles if necessary.
         if self._k_in_orig is not None:
             B_in = {
-- 
2.43.0


From 9a2c2d3ad5358256a5b9094ec8e819c2ec8a0a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 066/104] fix: set common sample points for multipoles but not
 the integral constraint

---
 src/triumvirate/winconv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 3c6c80a..aae7475 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1675,7 +1675,7 @@ class WinConvBase:
         else:
             self.r_in = {
                 multipole: r_in
-                for multipole in self._formulae.multipoles_Z
+                for multipole in self._formulae._multipoles_Z_true
             }
 
         if r_out is None:
@@ -2001,7 +2001,7 @@ class PowspecWinConv(WinConvBase):
         else:
             self.k_in = {
                 multipole_Z: k_in
-                for multipole_Z in self._formulae.multipoles_Z
+                for multipole_Z in self._formulae._multipoles_Z_true
             }
 
         try:
@@ -2519,7 +2519,7 @@ class BispecWinConv(WinConvBase):
         else:
             self.k_in = {
                 multipole_Z: k_in
-                for multipole_Z in self._formulae.multipoles_Z
+                for multipole_Z in self._formulae._multipoles_Z_true
             }
 
         self._k_in_orig = None
-- 
2.43.0


From 5b5d7a656beec282a4b22e121a4eb6e187d98e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 067/104] fix: require sample points of all multipoles in
 convolution formulae

---
 src/triumvirate/winconv.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index aae7475..db51925 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1667,7 +1667,9 @@ class WinConvBase:
                 Multipole(multipole): r_in[multipole]
                 for multipole in r_in.keys()
             }
-            if not set(self.r_in.keys()).issubset(self._formulae.multipoles_Z):
+            if not set(self._formulae._multipoles_Z_true).issubset(
+                self.r_in.keys()
+            ):
                 raise ValueError(
                     "The input 2PCF separation sample points must contain all "
                     "the multipole keys required by the convolution formulae."
@@ -1992,7 +1994,9 @@ class PowspecWinConv(WinConvBase):
                 Multipole(key): val
                 for key, val in k_in.items()
             }
-            if not set(self.k_in.keys()).issubset(self._formulae.multipoles_Z):
+            if not set(self._formulae._multipoles_Z_true).issubset(
+                self.k_in.keys()
+            ):
                 raise ValueError(
                     "The input power spectrum wavenumber sample points must "
                     "contain all the multipole keys required by the "
@@ -2510,7 +2514,9 @@ class BispecWinConv(WinConvBase):
                 Multipole(key): val
                 for key, val in k_in.items()
             }
-            if not set(self.k_in.keys()).issubset(self._formulae.multipoles_Z):
+            if not set(self._formulae._multipoles_Z_true).issubset(
+                self.k_in.keys()
+            ):
                 raise ValueError(
                     "The input bispectrum wavenumber sample points must "
                     "contain all the multipole keys required by the "
-- 
2.43.0


From d14a070f9fa253ce2d35affd7797e40340edfc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 068/104] fix: return window convolution matrices without MPI

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index db51925..2f05ad4 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2871,7 +2871,7 @@ class BispecWinConv(WinConvBase):
                     wcmat[multipole] = wcmat_[select_rows]
 
             return wcmat if (not concat or wcmat is None) \
-                else np.row_stack([
+                else np.vstack([
                     wcmat[multipole] for multipole in self._formulae.multipoles
                 ])
 
@@ -2896,7 +2896,7 @@ class BispecWinConv(WinConvBase):
                 wc_matrices[multipole_] = np.column_stack(
                     wc_matrices[multipole_]
                 )
-            return _return_wcmat(wc_matrices, concat)
+            return _return_wcmat(wc_matrices, concat, diag)
 
         # Run with MPI parallelisation.
         nthreads_env = os.getenv('OMP_NUM_THREADS')
-- 
2.43.0


From 4cf510e9187e27a6dcf223beba4e52a9c57d57bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 069/104] fix: leave transform keyword arguments passed to
 convolutions unchanged

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 2f05ad4..3624836 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1971,7 +1971,7 @@ class PowspecWinConv(WinConvBase):
         super().__init__(formulae, window_sampts, window_multipoles)
 
         # Set default transform parameters.
-        self._transform_kwargs = transform_kwargs or {}
+        self._transform_kwargs = dict(transform_kwargs or {})
         # if 'pivot' not in self._transform_kwargs:
         #     self._transform_kwargs['pivot'] = 1.
         # if 'lowring' not in self._transform_kwargs:
@@ -2491,7 +2491,7 @@ class BispecWinConv(WinConvBase):
             )
 
         # Initialise default transform parameters.
-        self._transform_kwargs = transform_kwargs or {}
+        self._transform_kwargs = dict(transform_kwargs or {})
         # if 'pivot' not in self._transform_kwargs:
         #     self._transform_kwargs['pivot'] = 1.
         # if 'lowring' not in self._transform_kwargs:
-- 
2.43.0


From ed42dffbb04255d683ea84b0ea0c61bd0d223701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 070/104] fix: respace wavenumbers with the number of points of
 each multipole

---
 src/triumvirate/winconv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 3624836..08934c0 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2536,7 +2536,8 @@ class BispecWinConv(WinConvBase):
             self._k_in_orig = self.k_in.copy()
             self.k_in = {
                 multipole_Z: np.logspace(
-                    np.log10(_k_in_[0]), np.log10(_k_in_[-1]), len(k), base=10
+                    np.log10(_k_in_[0]), np.log10(_k_in_[-1]), len(_k_in_),
+                    base=10
                 )
                 for multipole_Z, _k_in_ in self._k_in_orig.items()
             }
-- 
2.43.0


From a04fd77100915fee208db27b282e8e7a24741b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 071/104] fix: gather window convolution matrices from
 processes without tasks

---
 src/triumvirate/winconv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 08934c0..b9090d6 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -3057,7 +3057,7 @@ class BispecWinConv(WinConvBase):
             sendbuf = np.asarray([
                 wc_basis_vectors[key]
                 for wc_basis_vectors in wc_basis_vectors_sublist
-            ])
+            ], dtype=complex)
             sendsizes = sendbuf.size
             recvsizes = self.comm.gather(sendsizes, root=self.comm_root)
             if self.comm.rank == self.comm_root:
-- 
2.43.0


From 26580f87157921f4179c58c463d7ba614602ee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 072/104] fix: keep the number of window sample points when
 respacing by default

---
 src/triumvirate/winconv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index b9090d6..d2383a2 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -937,7 +937,8 @@ class ThreePointWindow:
         except (MixedSignError, SpacingError,):
             if make_loglin:
                 self.resample(
-                    size=make_loglin if isinstance(make_loglin, int) else None
+                    size=None if isinstance(make_loglin, bool)
+                    else make_loglin
                 )
             else:
                 warnings.warn(
-- 
2.43.0


From 8d120884009420a1c5c4c220ca9ca4efd15d395f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 073/104] fix: match window sample points by multipole

---
 src/triumvirate/winconv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index d2383a2..d72a571 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -896,6 +896,9 @@ class ThreePointWindow:
             paired_sampts = {
                 multipole: paired_sampts for multipole in flat_multipoles
             }
+        paired_sampts = {
+            Multipole(key): val for key, val in paired_sampts.items()
+        }
 
         rQ_in = {}
         Q_in = {}
@@ -906,7 +909,8 @@ class ThreePointWindow:
 
             try:
                 rQ_pole_, Q_pole_ = reshape_threept_datatab(
-                    paired_sampts[multipole_], flat_multipoles[multipole_],
+                    paired_sampts[multipoles_in_],
+                    flat_multipoles[multipole_],
                     shape=shape_
                 )
             except ValueError as err:
-- 
2.43.0


From 982fcf5d7a5cbaf0ee0d6de9a1e07785b1b20c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 074/104] fix: subselect window samples of each multipole

---
 src/triumvirate/winconv.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index d72a571..1f5807f 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1156,11 +1156,17 @@ class ThreePointWindow:
             }
         elif isinstance(rrange, dict):
             select_range = {
-                Multipole(multipole): np.logical_and(
-                    rmin <= self.r[multipole], self.r[multipole] <= rmax
-                )
-                for multipole, (rmin, rmax) in rrange.items()
+                multipole: np.full_like(self.r[multipole], True, dtype=bool)
+                for multipole in self.multipoles
             }
+            for key, (rmin, rmax) in rrange.items():
+                multipole = Multipole(key)
+                rmin = rmin or 0.
+                rmax = rmax or np.inf
+                select_range[multipole] = np.logical_and(
+                    rmin <= self.r[multipole],
+                    self.r[multipole] <= rmax
+                )
         else:
             rmin, rmax = rrange
             rmin = rmin or 0.
@@ -1187,7 +1193,7 @@ class ThreePointWindow:
                 select_idx[Multipole(key)] = np.full_like(
                     self.r[Multipole(key)], False, dtype=bool
                 )
-                select_idx[slice(*val)] = True
+                select_idx[Multipole(key)][slice(*val)] = True
         else:
             select_idx = {
                 multipole: np.full_like(self.r[multipole], False, dtype=bool)
@@ -1205,7 +1211,10 @@ class ThreePointWindow:
 
         if not inplace:
             instance = self.__class__.load_from_dict({
-                'r': self.r[multipole][selector[multipole]],
+                'r': {
+                    multipole: self.r[multipole][selector[multipole]]
+                    for multipole in self.multipoles
+                },
                 'Q': {
                     multipole: Q_in_[
                         selector[multipole], :
-- 
2.43.0


From f6c8f1545f9980a7e11739f7989b7550a99982c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 075/104] fix: load window sample points of each multipole from
 dictionaries

---
 src/triumvirate/winconv.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 1f5807f..33c2a02 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1054,8 +1054,6 @@ class ThreePointWindow:
         """
         self = cls.__new__(cls)
 
-        self.r = dict_obj['r']
-
         self.Q = {}
         self.Q_diag = {}
         multipoles = []
@@ -1067,6 +1065,15 @@ class ThreePointWindow:
 
         self.multipoles = sorted(multipoles)
 
+        if isinstance(dict_obj['r'], dict):
+            self.r = {
+                Multipole(key): val for key, val in dict_obj['r'].items()
+            }
+        else:
+            self.r = {
+                multipole: dict_obj['r'] for multipole in self.multipoles
+            }
+
         try:
             self.sources = dict_obj['sources']
         except KeyError:
-- 
2.43.0


From 6c3e37a390e3e45ab3b77df46e0a175a889b02d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 076/104] fix: load window multipoles and sources from files as
 lists

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 33c2a02..f75b23c 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1106,8 +1106,8 @@ class ThreePointWindow:
         self.Q = win_obj['Q'].item()
         self.Q_diag = win_obj['Q_diag'].item()
 
-        self.multipoles = win_obj['multipoles']
-        self.sources = win_obj['sources']
+        self.multipoles = win_obj['multipoles'].tolist()
+        self.sources = win_obj['sources'].tolist()
 
         return self
 
-- 
2.43.0


From 3622267f3786d33b5dc89770e7f3200ccdf6dbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 077/104] fix: keep window file sources in the order of
 multipoles

---
 src/triumvirate/winconv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index f75b23c..a8065fb 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -999,7 +999,9 @@ class ThreePointWindow:
         paired_sampts = {}
         flat_multipoles = {}
         sources = []
-        for multipole, filepath in sorted(filepaths.items()):
+        for multipole, filepath in sorted(
+            filepaths.items(), key=lambda item: Multipole(item[0])
+        ):
             if subtract_shotnoise:
                 if len(usecols) != 4:
                     raise ValueError(
-- 
2.43.0


From 03060ce4f810e7a34c71c45f725cf41fcf675658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 078/104] fix: distribute given numbers of tasks to all of
 their processes

---
 src/triumvirate/_mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/_mpitools.py b/src/triumvirate/_mpitools.py
index d6306be..8c89a31 100644
--- a/src/triumvirate/_mpitools.py
+++ b/src/triumvirate/_mpitools.py
@@ -88,7 +88,7 @@ def distribute_tasks(ntasks=None, task_total=None, proc_total=None):
 
     """
     ntasks = ntasks if ntasks else allocate_tasks(task_total, proc_total)
-    proc_total = proc_total if proc_total else len(ntasks)
+    proc_total = len(ntasks)
 
     breakpoints = np.insert(np.cumsum(ntasks), 0, values=0)
     segments = [
-- 
2.43.0


From 7a106e02ebbbcf14644f4ec6380fc2c54b44367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 079/104] fix: restore repeated warnings once

---
 src/triumvirate/_mpitools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/_mpitools.py b/src/triumvirate/_mpitools.py
index 8c89a31..8093d3e 100644
--- a/src/triumvirate/_mpitools.py
+++ b/src/triumvirate/_mpitools.py
@@ -131,7 +131,8 @@ def restore_warnings(captured_warnings, unique=True, show=True,
         seen_warnings = set()
         for record in captured_warnings:
             record_tuple = (
-                record.message, record.category, record.filename, record.lineno
+                str(record.message), record.category,
+                record.filename, record.lineno
             )
             if record_tuple not in seen_warnings:
                 restored_warnings.append(record)
-- 
2.43.0


From 4bb62a7eb344ca6b13ab47d6101c7ba68e3b4c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 080/104] fix: return pivot values of double spherical Bessel
 transforms

---
 src/triumvirate/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index 3fb6e74..bd7dd61 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -413,7 +413,7 @@ class DoubleSphericalBesselTransform:
         tuple of float
 
         """  # numpydoc ignore=RT03
-        return (self._fbsjt[0]._pivot, self._fbsjt[1]._pivot)
+        return (self._fbsjt[0].pivot, self._fbsjt[1].pivot)
 
     def transform(self, pre_samples):
         """Transform samples at initialised sample points.
-- 
2.43.0


From b74c5c1a4e8adc3e5d0351a9c88c259c09149c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 081/104] fix: raise for invalid orders and biases of Hankel
 transforms

---
 src/triumvirate/_fftlog.pxd | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/_fftlog.pxd b/src/triumvirate/_fftlog.pxd
index 355e9d2..1467355 100644
--- a/src/triumvirate/_fftlog.pxd
+++ b/src/triumvirate/_fftlog.pxd
@@ -18,7 +18,9 @@ cdef extern from "include/fftlog.hpp":
         vector[double] pre_sampts
         vector[double] post_sampts
 
-        CppHankelTransform(double mu, double q, bool_t threaded)
+        CppHankelTransform(
+            double mu, double q, bool_t threaded
+        ) except +
 
         void initialise(
             vector[double] sample_pts, double kr_c, bool_t lowring,
-- 
2.43.0


From 5b0b3440368019c4a191a016b0185dcc3d692b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 082/104] fix: weight products of multipoles in the integral
 constraint correctly

The average over angles of the product of two multipoles of the same
degrees is the product divided by N H^2, which is the coefficient of the
term in the window convolution formula of the (0, 0, 0) multipole (e.g.
1/3 for (1, 1, 0)).  With products multiplied by the factor, the windowed
(0, 0, 0) multipole did not integrate to zero.
---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index a8065fb..bf494a6 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1536,10 +1536,10 @@ def calc_threept_ic(window_sampts, window_multipoles, r, zeta,
         _H2 = float(_H_factor(*multipole.index)) ** 2
         _N = _N_prefactor(multipole=multipole)
 
-        ic_nom += _N * _H2 * _integrate_2d_samples(
+        ic_nom += _integrate_2d_samples(
             r_common[multipole], r_common[multipole],
             Q_in[multipole] * Z_in[multipole]
-        )
+        ) / (_N * _H2)
 
     ic_denom = _integrate_2d_samples(
         r_common[monopole], r_common[monopole], Q_in[monopole]
-- 
2.43.0


From c63905329fe8439c9de9c9e9d6de22d257bea616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 083/104] fix: return post-transform sample points of either
 dimension

The pivot of a low-ringing transform depends on its degree, so double
spherical Bessel transforms with two different degrees have different
post-transform sample points in the two dimensions, but those of the first
were returned for both.
---
 src/triumvirate/transforms.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index bd7dd61..acbce61 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -389,9 +389,13 @@ class DoubleSphericalBesselTransform:
 
         self._logres = self._fbsjt[self._rep]._logres
         self._pre_sampts = np.asarray(self._fbsjt[self._rep]._pre_sampts)
-        self._post_sampts = np.asarray(self._fbsjt[self._rep]._post_sampts)[
-            self._post_slice
-        ]
+        # Low-ringing pivots and thus post-transform sample points depend on
+        # the degree and differ between dimensions in general.
+        self._post_sampts_pair = tuple(
+            np.asarray(fbsjt_._post_sampts)[self._post_slice]
+            for fbsjt_ in self._fbsjt
+        )
+        self._post_sampts = self._post_sampts_pair[self._rep]
 
     @property
     def size(self):
@@ -447,9 +451,7 @@ class DoubleSphericalBesselTransform:
         post_samples = np.asarray(post_samples_T).T
         post_samples = post_samples[self._post_slice, self._post_slice]
 
-        post_sampts = np.meshgrid(
-            self._post_sampts, self._post_sampts, indexing='ij'
-        )
+        post_sampts = np.meshgrid(*self._post_sampts_pair, indexing='ij')
 
         return post_sampts, post_samples
 
-- 
2.43.0


From 6b212b026154382016bb89bae56a73456eaeb752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 084/104] fix: convolve bispectra at the sample points of
 either dimension

The sample points of the transforms of multipoles with two different
degrees, e.g. (2, 0, 2), differ between the two dimensions, but those of
the first were used for both.
---
 src/triumvirate/winconv.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index bf494a6..68f9360 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2624,8 +2624,9 @@ class BispecWinConv(WinConvBase):
         if k_out is None:
             self.k_out = _find_conv_range(
                 *[
-                    self._fdsjt[multipole]._post_sampts
+                    post_sampts
                     for multipole in self._formulae.multipoles
+                    for post_sampts in self._fdsjt[multipole]._post_sampts_pair
                 ]
             )
         else:
@@ -2692,6 +2693,15 @@ class BispecWinConv(WinConvBase):
             _, zeta_in[multipole_Z] = self._bdsjt[multipole_Z].\
                 transform_cosmo_multipoles(-1, B_in[multipole_Z])
 
+            # Reinterpolate to the same sample points in both dimensions
+            # if necessary.
+            r1_in, r2_in = self._bdsjt[multipole_Z]._post_sampts_pair
+            if not np.array_equal(r1_in, r2_in):
+                zeta_in[multipole_Z] = RectBivariateSpline(
+                    r1_in, r2_in, zeta_in[multipole_Z].real,
+                    kx=self.spline[0], ky=self.spline[0]
+                )(self.r_in[multipole_Z], self.r_in[multipole_Z])
+
         # Perform 3PCF convolution.
         zeta_conv = self._winconv.convolve(zeta_in, ic=ic)
 
@@ -2700,16 +2710,16 @@ class BispecWinConv(WinConvBase):
         for multipole in self._formulae.multipoles:
             transformer = self._fdsjt[multipole]
 
-            k_conv = transformer._post_sampts
+            k1_conv, k2_conv = transformer._post_sampts_pair
             _, bk_conv_pole = transformer.transform_cosmo_multipoles(
                 1, zeta_conv[multipole]
             )
 
             B_conv_out[multipole] = RectBivariateSpline(
-                k_conv, k_conv, bk_conv_pole.real,
+                k1_conv, k2_conv, bk_conv_pole.real,
                 kx=self.spline[-1], ky=self.spline[-1]
             )(self.k_out, self.k_out) + 1j * RectBivariateSpline(
-                k_conv, k_conv, bk_conv_pole.imag,
+                k1_conv, k2_conv, bk_conv_pole.imag,
                 kx=self.spline[-1], ky=self.spline[-1]
             )(self.k_out, self.k_out)
 
-- 
2.43.0


From 44ea0ebc9a99a9f12266545ea61feed3834c9506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 085/104] fix: release lines of sight when a measurement raises
 an error

The arrays of lines of sight were freed only after the measurement had
returned, so that each one which raised an error (such as a vanishing
multipole) leaked them.
---
 src/triumvirate/_threept.pyx | 39 +++++++++++++-----------------------
 src/triumvirate/_twopt.pyx   | 39 +++++++++++++-----------------------
 2 files changed, 28 insertions(+), 50 deletions(-)

diff --git a/src/triumvirate/_threept.pyx b/src/triumvirate/_threept.pyx
index 34cbd65..b685234 100644
--- a/src/triumvirate/_threept.pyx
+++ b/src/triumvirate/_threept.pyx
@@ -7,8 +7,8 @@ Declare and interface with three-point correlator algorithms.
 """
 # STYLE: Un-Pythonic import order to prioritise Cython imports.
 from cython.operator cimport dereference as deref
-from libc.stdlib cimport free, malloc
 from libcpp cimport bool as bool_t
+from libcpp.vector cimport vector
 
 import numpy as np
 cimport numpy as np
@@ -135,17 +135,15 @@ def _compute_bispec(
         double norm_factor
     ):
     # Parse lines of sight per particle.
-    cdef LineOfSight* los_data_cpp = <LineOfSight*>malloc(
-        len(los_data) * sizeof(LineOfSight)
-    )
+    cdef vector[LineOfSight] los_data_cpp
+    los_data_cpp.resize(len(los_data))
     for pid, (los_x, los_y, los_z) in enumerate(los_data):
         los_data_cpp[pid].pos[0] = los_x
         los_data_cpp[pid].pos[1] = los_y
         los_data_cpp[pid].pos[2] = los_z
 
-    cdef LineOfSight* los_rand_cpp = <LineOfSight*>malloc(
-        len(los_rand) * sizeof(LineOfSight)
-    )
+    cdef vector[LineOfSight] los_rand_cpp
+    los_rand_cpp.resize(len(los_rand))
     for pid, (los_x, los_y, los_z) in enumerate(los_rand):
         los_rand_cpp[pid].pos[0] = los_x
         los_rand_cpp[pid].pos[1] = los_y
@@ -155,13 +153,11 @@ def _compute_bispec(
     cdef BispecMeasurements results
     results = compute_bispec_cpp(
         deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
-        los_data_cpp, los_rand_cpp,
+        los_data_cpp.data(), los_rand_cpp.data(),
         deref(params.thisptr), deref(kbinning.thisptr),
         norm_factor
     )
 
-    free(los_data_cpp); free(los_rand_cpp)
-
     return {
         'k1_bin': np.asarray(results.k1_bin),
         'k2_bin': np.asarray(results.k2_bin),
@@ -184,17 +180,15 @@ def _compute_3pcf(
         double norm_factor
     ):
     # Parse lines of sight per particle.
-    cdef LineOfSight* los_data_cpp = <LineOfSight*>malloc(
-        len(los_data) * sizeof(LineOfSight)
-    )
+    cdef vector[LineOfSight] los_data_cpp
+    los_data_cpp.resize(len(los_data))
     for pid, (los_x, los_y, los_z) in enumerate(los_data):
         los_data_cpp[pid].pos[0] = los_x
         los_data_cpp[pid].pos[1] = los_y
         los_data_cpp[pid].pos[2] = los_z
 
-    cdef LineOfSight* los_rand_cpp = <LineOfSight*>malloc(
-        len(los_rand) * sizeof(LineOfSight)
-    )
+    cdef vector[LineOfSight] los_rand_cpp
+    los_rand_cpp.resize(len(los_rand))
     for pid, (los_x, los_y, los_z) in enumerate(los_rand):
         los_rand_cpp[pid].pos[0] = los_x
         los_rand_cpp[pid].pos[1] = los_y
@@ -204,13 +198,11 @@ def _compute_3pcf(
     cdef ThreePCFMeasurements results
     results = compute_3pcf_cpp(
         deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
-        los_data_cpp, los_rand_cpp,
+        los_data_cpp.data(), los_rand_cpp.data(),
         deref(params.thisptr), deref(rbinning.thisptr),
         norm_factor
     )
 
-    free(los_data_cpp); free(los_rand_cpp)
-
     return {
         'r1_bin': np.asarray(results.r1_bin),
         'r2_bin': np.asarray(results.r2_bin),
@@ -283,9 +275,8 @@ def _compute_3pcf_window(
         bool_t wide_angle
     ):
     # Parse lines of sight per particle.
-    cdef LineOfSight* los_rand_cpp = <LineOfSight*>malloc(
-        len(los_rand) * sizeof(LineOfSight)
-    )
+    cdef vector[LineOfSight] los_rand_cpp
+    los_rand_cpp.resize(len(los_rand))
     for pid, (los_x, los_y, los_z) in enumerate(los_rand):
         los_rand_cpp[pid].pos[0] = los_x
         los_rand_cpp[pid].pos[1] = los_y
@@ -294,14 +285,12 @@ def _compute_3pcf_window(
     # Run algorithm.
     cdef ThreePCFWindowMeasurements results
     results = compute_3pcf_window_cpp(
-        deref(catalogue_rand.thisptr), los_rand_cpp,
+        deref(catalogue_rand.thisptr), los_rand_cpp.data(),
         deref(params.thisptr), deref(rbinning.thisptr),
         alpha, norm_factor,
         wide_angle
     )
 
-    free(los_rand_cpp)
-
     return {
         'r1_bin': np.asarray(results.r1_bin),
         'r2_bin': np.asarray(results.r2_bin),
diff --git a/src/triumvirate/_twopt.pyx b/src/triumvirate/_twopt.pyx
index e9522f6..3d78d29 100644
--- a/src/triumvirate/_twopt.pyx
+++ b/src/triumvirate/_twopt.pyx
@@ -7,8 +7,8 @@ Declare and interface with two-point correlator algorithms.
 """
 # STYLE: Un-Pythonic import order to prioritise Cython imports.
 from cython.operator cimport dereference as deref
-from libc.stdlib cimport free, malloc
 from libcpp.string cimport string
+from libcpp.vector cimport vector
 
 import numpy as np
 cimport numpy as np
@@ -171,17 +171,15 @@ def _compute_powspec(
         double norm_factor
     ):
     # Parse lines of sight per particle.
-    cdef LineOfSight* los_data_cpp = <LineOfSight*>malloc(
-        len(los_data) * sizeof(LineOfSight)
-    )
+    cdef vector[LineOfSight] los_data_cpp
+    los_data_cpp.resize(len(los_data))
     for pid, (los_x, los_y, los_z) in enumerate(los_data):
         los_data_cpp[pid].pos[0] = los_x
         los_data_cpp[pid].pos[1] = los_y
         los_data_cpp[pid].pos[2] = los_z
 
-    cdef LineOfSight* los_rand_cpp = <LineOfSight*>malloc(
-        len(los_rand) * sizeof(LineOfSight)
-    )
+    cdef vector[LineOfSight] los_rand_cpp
+    los_rand_cpp.resize(len(los_rand))
     for pid, (los_x, los_y, los_z) in enumerate(los_rand):
         los_rand_cpp[pid].pos[0] = los_x
         los_rand_cpp[pid].pos[1] = los_y
@@ -191,13 +189,11 @@ def _compute_powspec(
     cdef PowspecMeasurements results
     results = compute_powspec_cpp(
         deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
-        los_data_cpp, los_rand_cpp,
+        los_data_cpp.data(), los_rand_cpp.data(),
         deref(params.thisptr), deref(kbinning.thisptr),
         norm_factor
     )
 
-    free(los_data_cpp); free(los_rand_cpp)
-
     return {
         'kbin': np.asarray(results.kbin),
         'keff': np.asarray(results.keff),
@@ -217,17 +213,15 @@ def _compute_corrfunc(
         double norm_factor
     ):
     # Parse lines of sight per particle.
-    cdef LineOfSight* los_data_cpp = <LineOfSight*>malloc(
-        len(los_data) * sizeof(LineOfSight)
-    )
+    cdef vector[LineOfSight] los_data_cpp
+    los_data_cpp.resize(len(los_data))
     for pid, (los_x, los_y, los_z) in enumerate(los_data):
         los_data_cpp[pid].pos[0] = los_x
         los_data_cpp[pid].pos[1] = los_y
         los_data_cpp[pid].pos[2] = los_z
 
-    cdef LineOfSight* los_rand_cpp = <LineOfSight*>malloc(
-        len(los_rand) * sizeof(LineOfSight)
-    )
+    cdef vector[LineOfSight] los_rand_cpp
+    los_rand_cpp.resize(len(los_rand))
     for pid, (los_x, los_y, los_z) in enumerate(los_rand):
         los_rand_cpp[pid].pos[0] = los_x
         los_rand_cpp[pid].pos[1] = los_y
@@ -237,13 +231,11 @@ def _compute_corrfunc(
     cdef TwoPCFMeasurements results
     results = compute_corrfunc_cpp(
         deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
-        los_data_cpp, los_rand_cpp,
+        los_data_cpp.data(), los_rand_cpp.data(),
         deref(params.thisptr), deref(rbinning.thisptr),
         norm_factor
     )
 
-    free(los_data_cpp); free(los_rand_cpp)
-
     return {
         'rbin': np.asarray(results.rbin),
         'reff': np.asarray(results.reff),
@@ -304,9 +296,8 @@ def _compute_corrfunc_window(
         double norm_factor
     ):
     # Parse lines of sight per particle.
-    cdef LineOfSight* los_rand_cpp = <LineOfSight*>malloc(
-        len(los_rand) * sizeof(LineOfSight)
-    )
+    cdef vector[LineOfSight] los_rand_cpp
+    los_rand_cpp.resize(len(los_rand))
     for pid, (los_x, los_y, los_z) in enumerate(los_rand):
         los_rand_cpp[pid].pos[0] = los_x
         los_rand_cpp[pid].pos[1] = los_y
@@ -315,13 +306,11 @@ def _compute_corrfunc_window(
     # Run algorithm.
     cdef TwoPCFWindowMeasurements results
     results = compute_corrfunc_window_cpp(
-        deref(catalogue_rand.thisptr), los_rand_cpp,
+        deref(catalogue_rand.thisptr), los_rand_cpp.data(),
         deref(params.thisptr), deref(rbinning.thisptr),
         alpha, norm_factor
     )
 
-    free(los_rand_cpp)
-
     return {
         'rbin': np.asarray(results.rbin),
         'reff': np.asarray(results.reff),
-- 
2.43.0


From 8b74c8cf13fea66c56e4cdc73030c24347d8e572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 086/104] fix: release the mesh statistics behind recorded
 binned vectors

Each call of `record_binned_vectors` leaked its `FieldStats` instance,
with its meshes and plans.
---
 src/triumvirate/_field.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/_field.pyx b/src/triumvirate/_field.pyx
index 8b070ce..cf030f4 100644
--- a/src/triumvirate/_field.pyx
+++ b/src/triumvirate/_field.pyx
@@ -44,9 +44,12 @@ def _record_binned_vectors(Binning binning not None,
     """
     fieldstats_ptr = new CppFieldStats(deref(paramset.thisptr), False)
 
-    binned_vectors_struct = fieldstats_ptr.record_binned_vectors(
-        deref(binning.thisptr), ''.encode('utf-8')
-    )
+    try:
+        binned_vectors_struct = fieldstats_ptr.record_binned_vectors(
+            deref(binning.thisptr), ''.encode('utf-8')
+        )
+    finally:
+        del fieldstats_ptr
 
     binned_vectors = np.empty(
         binned_vectors_struct.count,
-- 
2.43.0


From 8e90f16da8100c178c2faca5d7a92877ade576f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:54 +0000
Subject: [PATCH 087/104] fix: read the saved columns of three-point data
 vectors to combine

---
 apps/io/comb_data_vectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/io/comb_data_vectors.py b/apps/io/comb_data_vectors.py
index ca91646..d0da9a1 100644
--- a/apps/io/comb_data_vectors.py
+++ b/apps/io/comb_data_vectors.py
@@ -151,8 +151,8 @@ def read_measurements(stat, directory, fnpattern, sn_range=None):
     USECOLS = {
         'pk': list(range(7)),
         'xi': list(range(5)),
-        'bk': list(range(2, 9)),
-        'zeta': list(range(2, 9)),
+        'bk': list(range(3)) + list(range(6, 10)),
+        'zeta': list(range(3)) + list(range(6, 10)),
     }
 
     # Check arguments.
-- 
2.43.0


From a99190b9caebdc933c8c493c889b0ae505f5bf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:54 +0000
Subject: [PATCH 088/104] fix: match serial numbers of data vectors in their
 file names only

---
 apps/io/comb_data_vectors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/io/comb_data_vectors.py b/apps/io/comb_data_vectors.py
index d0da9a1..acbd4b1 100644
--- a/apps/io/comb_data_vectors.py
+++ b/apps/io/comb_data_vectors.py
@@ -173,7 +173,9 @@ def read_measurements(stat, directory, fnpattern, sn_range=None):
 
     paths = []
     for path in paths_found:
-        serial_num = int(re.search(fnpattern, path).group(1))
+        serial_num = int(
+            re.match(fnpattern, os.path.basename(path)).group(1)
+        )
         if sn_range is None or (sn_range[0] <= serial_num <= sn_range[1]):
             paths.append(path)
 
-- 
2.43.0


From 858048c1054f527d0249560dddd3256fa6135767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:54 +0000
Subject: [PATCH 089/104] fix: leave measurements with equal first two degrees
 untransposed

---
 apps/io/exchange_coord_axes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/io/exchange_coord_axes.py b/apps/io/exchange_coord_axes.py
index 9a67791..8d6c0cf 100644
--- a/apps/io/exchange_coord_axes.py
+++ b/apps/io/exchange_coord_axes.py
@@ -163,7 +163,7 @@ def main():
         output_filename, stat_type, multipole_ex, multipole = \
             transpose_stat_str(cfg.input_path, ret_multipole=True)
     except ValueError as err:
-        if "The first two multipole indices the same." in str(err):
+        if "The first two multipole indices are the same." in str(err):
             print(
                 "No transposition is performed as the first two multipole "
                 "indices are the same."
-- 
2.43.0


From df626a94e63d367800a9e15f9ce2f6d0547b6718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:54 +0000
Subject: [PATCH 090/104] fix: exchange the axes of measurements in a single
 bin

---
 apps/io/exchange_coord_axes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/io/exchange_coord_axes.py b/apps/io/exchange_coord_axes.py
index 8d6c0cf..bc677e1 100644
--- a/apps/io/exchange_coord_axes.py
+++ b/apps/io/exchange_coord_axes.py
@@ -200,7 +200,7 @@ def main():
     header = ''.join(headerlines).rstrip()
 
     # Transpose the data table.
-    datatab = np.loadtxt(cfg.input_path)
+    datatab = np.loadtxt(cfg.input_path, ndmin=2)
     datatab_ex = transpose_datatab(datatab)
 
     # Save the transposed data table.
-- 
2.43.0


From 316c0b22f4ca0aa78d10f273fc88cc37ddb3c9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:54 +0000
Subject: [PATCH 091/104] fix: exchange the degrees in the header of window
 measurements

---
 apps/io/exchange_coord_axes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/io/exchange_coord_axes.py b/apps/io/exchange_coord_axes.py
index bc677e1..ab1905b 100644
--- a/apps/io/exchange_coord_axes.py
+++ b/apps/io/exchange_coord_axes.py
@@ -194,8 +194,9 @@ def main():
         while line.startswith('#'):
             headerlines.append(line)
             line = measurement_file.readline()
+    stat_name = stat_type[:-1] if stat_type.endswith('w') else stat_type
     headerlines[-1] = headerlines[-1].replace(
-        stat_type + multipole, stat_type + multipole_ex
+        stat_name + multipole, stat_name + multipole_ex
     )
     header = ''.join(headerlines).rstrip()
 
-- 
2.43.0


From f2dc7a6fa55cf773e713f20770fa31970bcaf539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:54 +0000
Subject: [PATCH 092/104] fix: set unset and Boolean parameters in generated
 YAML parameter files

---
 apps/io/gen_param_file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/io/gen_param_file.py b/apps/io/gen_param_file.py
index f5eec85..ed86b6d 100644
--- a/apps/io/gen_param_file.py
+++ b/apps/io/gen_param_file.py
@@ -119,6 +119,9 @@ def setitem_nested_dict(dictionary, keychain, value):
     try:
         if isinstance(base_dict[key_child], list):
             base_dict[key_child] = literal_eval(value)
+        elif base_dict[key_child] is None \
+                or isinstance(base_dict[key_child], bool):
+            base_dict[key_child] = yaml.safe_load(value)
         else:
             base_dict[key_child] = type(base_dict[key_child])(value)
     except KeyError as err:
-- 
2.43.0


From 48df068b1ba70e05b1dd6564d621c810e9405936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:54 +0000
Subject: [PATCH 093/104] fix: generate a parameter file without modified
 parameters

---
 apps/io/gen_param_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/io/gen_param_file.py b/apps/io/gen_param_file.py
index ed86b6d..392dca7 100644
--- a/apps/io/gen_param_file.py
+++ b/apps/io/gen_param_file.py
@@ -73,7 +73,7 @@ def configure():
     )
 
     parser.add_argument(
-        '-p', '--modify', action='append', nargs=2,
+        '-p', '--modify', action='append', nargs=2, default=[],
         metavar=('PARAM_NAME', 'PARAM_VALUE'),
         help="pairwise modified parameter name(s) and value(s)"
     )
-- 
2.43.0


From 3bd2a25133156bdcec2b0b80eb69c794f1fa5a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:54 +0000
Subject: [PATCH 094/104] fix: name generated parameter files after the
 template by default

---
 apps/io/gen_param_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/io/gen_param_file.py b/apps/io/gen_param_file.py
index 392dca7..dbfaedf 100644
--- a/apps/io/gen_param_file.py
+++ b/apps/io/gen_param_file.py
@@ -86,7 +86,8 @@ def configure():
     else:
         config.file_ext = f".{config.fmt}"
 
-    config.output = config.output or f"{config.file_stem}_new{config.file_ext}"
+    file_stem = Path(config.template_path).stem
+    config.output = config.output or f"{file_stem}_new{config.file_ext}"
 
     return config
 
-- 
2.43.0


From 3d8c8d17fddc98c6e95d2d0d83aa010f4b0f58bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:54 +0000
Subject: [PATCH 095/104] fix: tabulate no window convolution terms when all
 vanish

---
 apps/calculators/gen_wc_coeffs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/calculators/gen_wc_coeffs.py b/apps/calculators/gen_wc_coeffs.py
index a85efd6..b56dea9 100644
--- a/apps/calculators/gen_wc_coeffs.py
+++ b/apps/calculators/gen_wc_coeffs.py
@@ -120,7 +120,7 @@ def main():
             print(f"Saved terms to file: {args.save}.npy")
 
     # Print terms.
-    maxlen_coeff = max(len(str(term.coeff)) for term in terms)
+    maxlen_coeff = max((len(str(term.coeff)) for term in terms), default=0)
     fmt_str = f"{{:}}: {{: >{maxlen_coeff}}} Q_{{{{{{:}}}}}} Z_{{{{{{:}}}}}}"
 
     for term in terms:
-- 
2.43.0


From b62f94b23f2d62a38dc17d548177a57abd7ba422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:17 +0000
Subject: [PATCH 096/104] fix: combine data vectors of the same realisations
 only

---
 apps/io/comb_data_vectors.py | 38 +++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/apps/io/comb_data_vectors.py b/apps/io/comb_data_vectors.py
index acbd4b1..81a92b0 100644
--- a/apps/io/comb_data_vectors.py
+++ b/apps/io/comb_data_vectors.py
@@ -138,9 +138,10 @@ def read_measurements(stat, directory, fnpattern, sn_range=None):
 
     Returns
     -------
-    tuple of :class:`numpy.ndarray` of length 5
+    tuple of length 6
         Bin centres, bin effective coordinates, bin contribution counts,
-        stacked raw measurements and stacked shot noise measurements.
+        stacked raw measurements and stacked shot noise measurements
+        (as :class:`numpy.ndarray`), and serial numbers (as list of int).
 
     Raises
     ------
@@ -171,13 +172,14 @@ def read_measurements(stat, directory, fnpattern, sn_range=None):
             f"No filename of pattern {fnpattern} found in {directory}."
         )
 
-    paths = []
+    paths, serial_nums = [], []
     for path in paths_found:
         serial_num = int(
             re.match(fnpattern, os.path.basename(path)).group(1)
         )
         if sn_range is None or (sn_range[0] <= serial_num <= sn_range[1]):
             paths.append(path)
+            serial_nums.append(serial_num)
 
     # Collate data.
     bins_list, coords_list, counts_list = [], [], []
@@ -212,13 +214,14 @@ def read_measurements(stat, directory, fnpattern, sn_range=None):
     measurements_raw = np.vstack(measurement_raw_list)
     measurements_shotnoise = np.vstack(measurement_shotnoise_list)
 
-    return bins, coords, counts, measurements_raw, measurements_shotnoise
+    return bins, coords, counts, \
+        measurements_raw, measurements_shotnoise, serial_nums
 
 
 def insert_component(component, directory,
                      components_bins, components_coords, components_counts,
                      components_vectors, components_vectors_shotnoise,
-                     tag='', sn_range=None):
+                     tag='', sn_range=None, serial_nums=None):
     """Insert data vector component to a list to be combined.
 
     Parameters
@@ -242,6 +245,15 @@ def insert_component(component, directory,
         Data file common tag (default is '').
     sn_range : sequence of int of length 2, optional
         Data file serial number range (default is `None`).
+    serial_nums : list of int, optional
+        If not `None` (default), these are the serial numbers of any
+        components already inserted, which must match the serial numbers
+        of the component; if empty, it is extended by the latter.
+
+    Raises
+    ------
+    ValueError
+        If the serial numbers do not match those of other components.
 
     """
     # Extract component.
@@ -250,9 +262,20 @@ def insert_component(component, directory,
 
     print(f"Reading {component} measurements.")
 
-    bins, coords, counts, measurements_raw, measurements_shotnoise = \
+    bins, coords, counts, \
+        measurements_raw, measurements_shotnoise, component_serial_nums = \
         read_measurements(stat, directory, fnpattern, sn_range=sn_range)
 
+    # Ensure that each row is from the same realisation.
+    if serial_nums is not None:
+        if not serial_nums:
+            serial_nums.extend(component_serial_nums)
+        if serial_nums != component_serial_nums:
+            raise ValueError(
+                f"Serial numbers of {component} measurement files "
+                "do not match those of other components."
+            )
+
     print(f"Read {len(measurements_raw)} {component} measurement files.")
 
     # Append component.
@@ -335,13 +358,14 @@ if __name__ == '__main__':
     components_bins, components_coords = [], []
     components_counts = []
     components_vectors, components_vectors_shotnoise = [], []
+    serial_nums = []
     for component in config.components:
         insert_component(
             component, config.input_dir,
             components_bins, components_coords,
             components_counts,
             components_vectors, components_vectors_shotnoise,
-            tag=config.tag, sn_range=config.range
+            tag=config.tag, sn_range=config.range, serial_nums=serial_nums
         )
 
     # Combine components.
-- 
2.43.0


From 3b8a41b92b9a931d611f49e9a65078bcc3b37dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:27 +0000
Subject: [PATCH 097/104] fix: combine data vectors in a single bin

---
 apps/io/comb_data_vectors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/io/comb_data_vectors.py b/apps/io/comb_data_vectors.py
index 81a92b0..69987f6 100644
--- a/apps/io/comb_data_vectors.py
+++ b/apps/io/comb_data_vectors.py
@@ -186,7 +186,9 @@ def read_measurements(stat, directory, fnpattern, sn_range=None):
     measurement_raw_list, measurement_shotnoise_list = [], []
 
     for path in paths:
-        data_ = np.loadtxt(path, usecols=USECOLS[stat], unpack=True)
+        data_ = np.loadtxt(
+            path, usecols=USECOLS[stat], unpack=True, ndmin=2
+        )
 
         bins_list.append(data_[0])
         coords_list.append(data_[1])
-- 
2.43.0


From 1821a1f9ac35c27afda1a93171f3eee6ce7d271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:27 +0000
Subject: [PATCH 098/104] fix: tabulate only the window convolution terms that
 do not vanish

---
 apps/calculators/gen_wc_coeffs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/calculators/gen_wc_coeffs.py b/apps/calculators/gen_wc_coeffs.py
index b56dea9..0832d16 100644
--- a/apps/calculators/gen_wc_coeffs.py
+++ b/apps/calculators/gen_wc_coeffs.py
@@ -92,7 +92,7 @@ def main():
         wc_coeff = calc_threept_winconv_coeff(
             convolved_multipole, wmpole, umpole, symb=True
         )
-        if wc_coeff != 0.:
+        if wc_coeff != 0:
             terms.append(WinConvTerm(wmpole, umpole, wc_coeff))
 
     # Sort terms.
-- 
2.43.0


From 106d1d59320923bf4de47a1868508159d418af82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:58 +0000
Subject: [PATCH 099/104] fix: count the transforms of row-form bispectra for
 progress bars

---
 src/triumvirate/src/threept.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/src/threept.cpp b/src/triumvirate/src/threept.cpp
index 8349247..101bd8d 100644
--- a/src/triumvirate/src/threept.cpp
+++ b/src/triumvirate/src/threept.cpp
@@ -419,7 +419,8 @@ trv::BispecMeasurements compute_bispec(
           0. : 1.;  // std::pow(-1., params.ell1 + params.ell2 + params.ELL);
 
         // Set up FFT counter and progress bar.
-        int progbar_task_count = 4 + 3 * dv_dim;
+        int progbar_task_count = (params.shape == "row")
+          ? 5 + 2 * dv_dim : 4 + 3 * dv_dim;
         std::stringstream progbar_name_ss;
         progbar_name_ss
           << "component orders (" << m1_ << ", " << m2_ << ", " << M_ << ")";
@@ -1632,7 +1633,8 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
         );
 
       // Set up FFT counter and progress bar.
-      int progbar_task_count = 2 + 3 * dv_dim;
+      int progbar_task_count = (params.shape == "row")
+        ? 3 + 2 * dv_dim : 2 + 3 * dv_dim;
       std::stringstream progbar_name_ss;
       progbar_name_ss
         << "component orders (" << m1_ << ", " << m2_ << ", " << M_ << ")";
-- 
2.43.0


From 50a283dc54fbb7df5c71f4423b65ad057d1d83a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:58 +0000
Subject: [PATCH 100/104] fix: start default progress bar nodes from the first
 percentage point

---
 src/triumvirate/src/monitor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/src/monitor.cpp b/src/triumvirate/src/monitor.cpp
index 4bc37a4..5507702 100644
--- a/src/triumvirate/src/monitor.cpp
+++ b/src/triumvirate/src/monitor.cpp
@@ -640,7 +640,8 @@ void ProgressBar::update(float progress_now) {
 }
 
 void ProgressBar::set_default_pcpt_nodes() {
-  this->nodes.resize(101, 0.);
+  this->nodes.clear();
+  this->nodes.reserve(101);
   for (int pcpt = 0; pcpt <= 100; ++pcpt) {
     this->nodes.push_back(float(pcpt) / 100.);
   }
-- 
2.43.0


From 7af8f896d357bb2566169b9b8009e2f81ed42275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:14 +0000
Subject: [PATCH 101/104] fix: log warnings from files with braces in their
 names

---
 src/triumvirate/logger.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/logger.py b/src/triumvirate/logger.py
index be6efce..d690926 100644
--- a/src/triumvirate/logger.py
+++ b/src/triumvirate/logger.py
@@ -120,10 +120,11 @@ def _format_warning(message, category, filename, lineno, line=None):
         message, category, filename, lineno, None, line
     )
 
-    msg_txt = "{} ({}:{}:{}{{}})".format(
-        str(msg.message).replace('{', '{{').replace('}', '}}'),
-        msg.filename, msg.lineno, msg.category.__name__
-    )
+    msg_txt = "{} ({}:{}:{}{{}})".format(*(
+        str(part).replace('{', '{{').replace('}', '}}') for part in (
+            msg.message, msg.filename, msg.lineno, msg.category.__name__
+        )
+    ))
 
     if msg.line is None:
         try:
-- 
2.43.0


From e8d4180794a5c59bebf9739f2c619778af73bc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:26 +0000
Subject: [PATCH 102/104] fix: log C++ messages at given levels with their
 arguments

---
 src/triumvirate/src/monitor.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/src/monitor.cpp b/src/triumvirate/src/monitor.cpp
index 5507702..e37132c 100644
--- a/src/triumvirate/src/monitor.cpp
+++ b/src/triumvirate/src/monitor.cpp
@@ -371,13 +371,20 @@ void Logger::emit(
 }
 
 void Logger::log(LogLevel entry_level, const char* fmt_string, ...) {
-  Logger::log(static_cast<int>(entry_level), fmt_string);
+  char log_mesg_buf[4096];
+
+  std::va_list args;
+  va_start(args, fmt_string);
+  std::vsnprintf(log_mesg_buf, sizeof(log_mesg_buf), fmt_string, args);
+  va_end(args);
+
+  Logger::log(static_cast<int>(entry_level), "%s", log_mesg_buf);
 }
 
 void Logger::log(int level_entry, const char* fmt_string, ...) {
   if (level_entry >= this->level_limit) {
     // CAVEAT: See @ref trv::sys::LogLevel.
-    level_entry /= 10;
+    level_entry -= level_entry % 10;
 
     std::string log_type;
 
-- 
2.43.0


From 1fc0a7c85bd9f71ce8f049fb4eff5c01b15f063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:22 +0000
Subject: [PATCH 103/104] fix: place the middle modes and separations of odd
 mesh grids

---
 src/triumvirate/src/field.cpp | 36 +++++++++++++++++------------------
 src/triumvirate/src/maths.cpp | 12 ++++++------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index f0ca19d..c566f0b 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -538,26 +538,26 @@ long long MeshField::ret_grid_index(int i, int j, int k) {
 }
 
 void MeshField::shift_grid_indices_fourier(int& i, int& j, int& k) {
-  i = (i < this->params.ngrid[0]/2) ? i : i - this->params.ngrid[0];
-  j = (j < this->params.ngrid[1]/2) ? j : j - this->params.ngrid[1];
-  k = (k < this->params.ngrid[2]/2) ? k : k - this->params.ngrid[2];
+  i = (i < (this->params.ngrid[0] + 1)/2) ? i : i - this->params.ngrid[0];
+  j = (j < (this->params.ngrid[1] + 1)/2) ? j : j - this->params.ngrid[1];
+  k = (k < (this->params.ngrid[2] + 1)/2) ? k : k - this->params.ngrid[2];
 }
 
 void MeshField::get_grid_pos_vector(int i, int j, int k, double rvec[3]) {
-  rvec[0] = (i < this->params.ngrid[0]/2) ?
+  rvec[0] = (i < (this->params.ngrid[0] + 1)/2) ?
     i * this->dr[0] : (i - this->params.ngrid[0]) * this->dr[0];
-  rvec[1] = (j < this->params.ngrid[1]/2) ?
+  rvec[1] = (j < (this->params.ngrid[1] + 1)/2) ?
     j * this->dr[1] : (j - this->params.ngrid[1]) * this->dr[1];
-  rvec[2] = (k < this->params.ngrid[2]/2) ?
+  rvec[2] = (k < (this->params.ngrid[2] + 1)/2) ?
     k * this->dr[2] : (k - this->params.ngrid[2]) * this->dr[2];
 }
 
 void MeshField::get_grid_wavevector(int i, int j, int k, double kvec[3]) {
-  kvec[0] = (i < this->params.ngrid[0]/2) ?
+  kvec[0] = (i < (this->params.ngrid[0] + 1)/2) ?
     i * this->dk[0] : (i - this->params.ngrid[0]) * this->dk[0];
-  kvec[1] = (j < this->params.ngrid[1]/2) ?
+  kvec[1] = (j < (this->params.ngrid[1] + 1)/2) ?
     j * this->dk[1] : (j - this->params.ngrid[1]) * this->dk[1];
-  kvec[2] = (k < this->params.ngrid[2]/2) ?
+  kvec[2] = (k < (this->params.ngrid[2] + 1)/2) ?
     k * this->dk[2] : (k - this->params.ngrid[2]) * this->dk[2];
 }
 
@@ -1671,13 +1671,13 @@ void MeshField::fourier_transform() {
 
           // Calculate the index vector representing the grid cell.
           double m[3];
-          m[0] = (i < this->params.ngrid[0]/2)
+          m[0] = (i < (this->params.ngrid[0] + 1)/2)
             ? double(i) / this->params.ngrid[0]
             : double(i) / this->params.ngrid[0] - 1;
-          m[1] = (j < this->params.ngrid[1]/2)
+          m[1] = (j < (this->params.ngrid[1] + 1)/2)
             ? double(j) / this->params.ngrid[1]
             : double(j) / this->params.ngrid[1] - 1;
-          m[2] = (k < this->params.ngrid[2]/2)
+          m[2] = (k < (this->params.ngrid[2] + 1)/2)
             ? double(k) / this->params.ngrid[2]
             : double(k) / this->params.ngrid[2] - 1;
 
@@ -2358,9 +2358,9 @@ long long FieldStats::ret_grid_index(int i, int j, int k) {
 }
 
 void FieldStats::shift_grid_indices_fourier(int& i, int& j, int& k) {
-  i = (i < this->params.ngrid[0]/2) ? i : i - this->params.ngrid[0];
-  j = (j < this->params.ngrid[1]/2) ? j : j - this->params.ngrid[1];
-  k = (k < this->params.ngrid[2]/2) ? k : k - this->params.ngrid[2];
+  i = (i < (this->params.ngrid[0] + 1)/2) ? i : i - this->params.ngrid[0];
+  j = (j < (this->params.ngrid[1] + 1)/2) ? j : j - this->params.ngrid[1];
+  k = (k < (this->params.ngrid[2] + 1)/2) ? k : k - this->params.ngrid[2];
 }
 
 trv::BinnedVectors FieldStats::record_binned_vectors(
@@ -2463,11 +2463,11 @@ trv::BinnedVectors FieldStats::record_binned_vectors(
   for (int i: i_range) {
     for (int j: j_range) {
       for (int k: k_range) {
-        double vx = (i < this->params.ngrid[0]/2) ?
+        double vx = (i < (this->params.ngrid[0] + 1)/2) ?
           i * cellsizes[0] : (i - this->params.ngrid[0]) * cellsizes[0];
-        double vy = (j < this->params.ngrid[1]/2) ?
+        double vy = (j < (this->params.ngrid[1] + 1)/2) ?
           j * cellsizes[1] : (j - this->params.ngrid[1]) * cellsizes[1];
-        double vz = (k < this->params.ngrid[2]/2) ?
+        double vz = (k < (this->params.ngrid[2] + 1)/2) ?
           k * cellsizes[2] : (k - this->params.ngrid[2]) * cellsizes[2];
 
         double scale = trvm::get_vec3d_magnitude({vx, vy, vz});
diff --git a/src/triumvirate/src/maths.cpp b/src/triumvirate/src/maths.cpp
index 4358e40..2411c9c 100644
--- a/src/triumvirate/src/maths.cpp
+++ b/src/triumvirate/src/maths.cpp
@@ -249,9 +249,9 @@ store_reduced_spherical_harmonic_in_fourier_space(
         // that negative wavenumbers/frequencies come after zero and
         // positive wavenumbers/frequencies.
         double kvec[3];
-        kvec[0] = (i < ngrid[0]/2) ? i * dk[0] : (i - ngrid[0]) * dk[0];
-        kvec[1] = (j < ngrid[1]/2) ? j * dk[1] : (j - ngrid[1]) * dk[1];
-        kvec[2] = (k < ngrid[2]/2) ? k * dk[2] : (k - ngrid[2]) * dk[2];
+        kvec[0] = (i < (ngrid[0] + 1)/2) ? i * dk[0] : (i - ngrid[0]) * dk[0];
+        kvec[1] = (j < (ngrid[1] + 1)/2) ? j * dk[1] : (j - ngrid[1]) * dk[1];
+        kvec[2] = (k < (ngrid[2] + 1)/2) ? k * dk[2] : (k - ngrid[2]) * dk[2];
 
         ylm_out[idx_grid] = calc_reduced_spherical_harmonic(ell, m, kvec);
       }
@@ -291,9 +291,9 @@ store_reduced_spherical_harmonic_in_config_space(
         // that negative wavenumbers/frequencies come after zero and
         // positive wavenumbers/frequencies.
         double rvec[3];
-        rvec[0] = (i < ngrid[0]/2) ? i * dr[0] : (i - ngrid[0]) * dr[0];
-        rvec[1] = (j < ngrid[1]/2) ? j * dr[1] : (j - ngrid[1]) * dr[1];
-        rvec[2] = (k < ngrid[2]/2) ? k * dr[2] : (k - ngrid[2]) * dr[2];
+        rvec[0] = (i < (ngrid[0] + 1)/2) ? i * dr[0] : (i - ngrid[0]) * dr[0];
+        rvec[1] = (j < (ngrid[1] + 1)/2) ? j * dr[1] : (j - ngrid[1]) * dr[1];
+        rvec[2] = (k < (ngrid[2] + 1)/2) ? k * dr[2] : (k - ngrid[2]) * dr[2];
 
         ylm_out[idx_grid] = calc_reduced_spherical_harmonic(ell, m, rvec);
       }
-- 
2.43.0


From d9bba839db4367d98335706f7036e0a773092e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:22 +0000
Subject: [PATCH 104/104] fix: wrap particles outside the box into the mesh

---
 src/triumvirate/src/field.cpp | 44 ++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index c566f0b..c16eb8f 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -34,6 +34,18 @@ namespace trvm = trv::maths;
 
 namespace trv {
 
+// Wrap a coordinate in units of the grid cell size into the mesh, which
+// is periodic, before it is converted to a grid index.
+static double wrap_grid_coord(double loc_grid, int ngrid) {
+  if (0. <= loc_grid && loc_grid < ngrid) {return loc_grid;}
+
+  loc_grid = std::fmod(loc_grid, ngrid);
+  if (loc_grid < 0.) {loc_grid += ngrid;}
+
+  // The sum may be (rounded up to) the grid number itself.
+  return (0. <= loc_grid && loc_grid < ngrid) ? loc_grid : 0.;
+}
+
 // ***********************************************************************
 // Mesh field
 // ***********************************************************************
@@ -644,9 +656,7 @@ void MeshField::assign_weighted_field_to_mesh_ngp(
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
       // Impose the periodic boundary condition.
-      if (loc_grid >= this->params.ngrid[iaxis]) {
-        loc_grid -= this->params.ngrid[iaxis];
-      }
+      loc_grid = wrap_grid_coord(loc_grid, this->params.ngrid[iaxis]);
 
       int idx_grid = int(loc_grid);
       if (loc_grid - idx_grid >= 0.5) {
@@ -694,9 +704,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid >= this->params.ngrid[iaxis]) {
-          loc_grid -= this->params.ngrid[iaxis];
-        }
+        loc_grid = wrap_grid_coord(loc_grid, this->params.ngrid[iaxis]);
 
         int idx_grid = int(loc_grid);
         if (loc_grid - idx_grid >= 0.5) {
@@ -759,9 +767,7 @@ void MeshField::assign_weighted_field_to_mesh_cic(
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
       // Impose the periodic boundary condition.
-      if (loc_grid >= this->params.ngrid[iaxis]) {
-        loc_grid -= this->params.ngrid[iaxis];
-      }
+      loc_grid = wrap_grid_coord(loc_grid, this->params.ngrid[iaxis]);
 
       int idx_grid = int(loc_grid);
 
@@ -810,9 +816,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid >= this->params.ngrid[iaxis]) {
-          loc_grid -= this->params.ngrid[iaxis];
-        }
+        loc_grid = wrap_grid_coord(loc_grid, this->params.ngrid[iaxis]);
 
         int idx_grid = int(loc_grid);
 
@@ -875,9 +879,7 @@ void MeshField::assign_weighted_field_to_mesh_tsc(
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
       // Impose the periodic boundary condition.
-      if (loc_grid >= this->params.ngrid[iaxis]) {
-        loc_grid -= this->params.ngrid[iaxis];
-      }
+      loc_grid = wrap_grid_coord(loc_grid, this->params.ngrid[iaxis]);
 
       int idx_grid = int(loc_grid);
 
@@ -944,9 +946,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid >= this->params.ngrid[iaxis]) {
-          loc_grid -= this->params.ngrid[iaxis];
-        }
+        loc_grid = wrap_grid_coord(loc_grid, this->params.ngrid[iaxis]);
 
         int idx_grid = int(loc_grid);
 
@@ -1028,9 +1028,7 @@ void MeshField::assign_weighted_field_to_mesh_pcs(
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
       // Impose the periodic boundary condition.
-      if (loc_grid >= this->params.ngrid[iaxis]) {
-        loc_grid -= this->params.ngrid[iaxis];
-      }
+      loc_grid = wrap_grid_coord(loc_grid, this->params.ngrid[iaxis]);
 
       int idx_grid = int(loc_grid);
 
@@ -1087,9 +1085,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid >= this->params.ngrid[iaxis]) {
-          loc_grid -= this->params.ngrid[iaxis];
-        }
+        loc_grid = wrap_grid_coord(loc_grid, this->params.ngrid[iaxis]);
 
         int idx_grid = int(loc_grid);
 
-- 
2.43.0

