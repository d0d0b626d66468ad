From e5ff0d0cff4601faf5917289c76569a2a256ff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:58 +0000
Subject: [PATCH 01/33] fix: keep uniform random draws strictly below one

Converting the full 63-bit state to a double rounded the largest states up
to 2^63, so random() could return exactly 1.0 and random_int(n) could return
n. Use the leading 53 bits only, which convert exactly.
---
 src/util/rng_lcg.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/util/rng_lcg.hpp b/src/util/rng_lcg.hpp
index cd5a088..390dc2e 100644
--- a/src/util/rng_lcg.hpp
+++ b/src/util/rng_lcg.hpp
@@ -61,7 +61,9 @@ public:
      */
     real_t random()
     {
-        return float_scale_ * (*this)();
+        // Use only as many of the leading bits as a real_t can hold. Converting
+        // the full state would round the largest ones up to exactly 1.0.
+        return float_scale_ * ((*this)() >> 10);
     }
 
     /**
@@ -72,8 +74,7 @@ public:
     {
         assert(ubound > 0.0);
 
-        real_t v = float_scale_ * (*this)();
-        return v * ubound;
+        return this->random() * ubound;
     }
 
     /**
@@ -162,7 +163,7 @@ private:
     // left-hand operand.
     static const uint64_t mask_     = ~(UINT64_C(1) << 63);
     static const uint64_t mod_      = UINT64_C(1) << 63;
-    static constexpr real_t float_scale_ = 1.0 / (UINT64_C(1) << 63);
+    static constexpr real_t float_scale_ = 1.0 / (UINT64_C(1) << 53);
 };
 
 } // namespace mocc
-- 
2.43.0


From e2df833b928512cb3479881a88f16b79c1456545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:58 +0000
Subject: [PATCH 02/33] fix: never sample an index past the end of a CDF

The last entry of a CDF may fall short of one by round-off. A draw above it
produced an index past the end. Leave the last entry out of the search, so
that such a draw gives the last index.
---
 src/util/rng_lcg.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/rng_lcg.hpp b/src/util/rng_lcg.hpp
index 390dc2e..7017212 100644
--- a/src/util/rng_lcg.hpp
+++ b/src/util/rng_lcg.hpp
@@ -116,8 +116,9 @@ public:
     {
         assert(fp_equiv_ulp(cdf.back(), 1.0));
         real_t v = this->random();
+        // Round-off can leave the last entry slightly below the drawn number
         return std::distance(cdf.begin(),
-                             std::lower_bound(cdf.begin(), cdf.end(), v));
+                             std::lower_bound(cdf.begin(), cdf.end() - 1, v));
     }
 
     /**
-- 
2.43.0


From ab8fdb245091119143be95db39c81000b2f852ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:06 +0000
Subject: [PATCH 03/33] fix: do not read past the exponential table at its
 upper end

---
 src/core/exponential.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/exponential.hpp b/src/core/exponential.hpp
index 25db6ad..ae97afa 100644
--- a/src/core/exponential.hpp
+++ b/src/core/exponential.hpp
@@ -16,6 +16,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <algorithm>
 #include <array>
 #include <cassert>
@@ -73,7 +74,8 @@ public:
                       << std::endl;
             return std::exp(v);
         }
-        int i = (v - min_) * rspace_;
+        // An argument at the top of the range belongs to the last interval
+        int i = std::min((int)((v - min_) * rspace_), N - 1);
         v -= space_ * i + min_;
         return d_[i] + (d_[i + 1] - d_[i]) * v * rspace_;
     }
@@ -128,7 +130,7 @@ template <int N> class Exponential_UnsafeLinear : public Exponential_Linear<N> {
 
     inline real_t exp(real_t v) const
     {
-        int i = (v - this->min_) * this->rspace_;
+        int i = std::min((int)((v - this->min_) * this->rspace_), N - 1);
         v -= this->space_ * i + this->min_;
         return this->d_[i] +
                (this->d_[i + 1] - this->d_[i]) * v * this->rspace_;
-- 
2.43.0


From 169dd85256902ee4267c61bd5cfdfc192a4214da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:06 +0000
Subject: [PATCH 04/33] fix: keep the cell balance in the multiple-balance Sn
 scheme

The axial terms used the direction cosine where the cosine over the plane
height belongs, and the plane height was looked up with a wrong index.
---
 src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp b/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
index c6a5afc..9ed4951 100644
--- a/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
+++ b/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
@@ -42,8 +42,6 @@ public:
                     real_t xstr, int i, const ThreadState &t_state) const
     {
         int ix    = i % mesh_.nx();
-        int iz    = i % mesh_.nx() * mesh_.ny();
-        real_t dz = mesh_.dz(iz);
         int ia = t_state.macroplane * this->plane_size_ + i % this->plane_size_;
         real_t tx = t_state.ox / mesh_.dx(ix);
 
@@ -56,11 +54,11 @@ public:
         real_t gx = 0.5;//ax * b;
         real_t gy = 0.5;//ay * b;
 
-        real_t psi = q - (dz * t_state.oz * q) / (2.0 * t_state.tz + xstr) +
+        real_t psi = q - (t_state.tz * q) / (2.0 * t_state.tz + xstr) +
                      2.0 * (tx * flux_x + t_state.ty * flux_y) +
                      t_state.tz * flux_z;
         psi /= tx / gx + t_state.ty / gy +
-               (t_state.oz * t_state.oz) / (t_state.tz + 0.5 * xstr) + xstr;
+               (t_state.tz * t_state.tz) / (t_state.tz + 0.5 * xstr) + xstr;
 
         flux_x = psi / gx - flux_x;
         flux_y = psi / gy - flux_y;
-- 
2.43.0


From acd7168414e609e37ab1a877d7500a7356f33bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:13 +0000
Subject: [PATCH 05/33] fix: reverse angles of every octant in three dimensions

---
 src/core/angular_quadrature.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/angular_quadrature.hpp b/src/core/angular_quadrature.hpp
index deab430..d03029b 100644
--- a/src/core/angular_quadrature.hpp
+++ b/src/core/angular_quadrature.hpp
@@ -161,7 +161,10 @@ public:
         if (dim == 2) {
             return (iang + ndir_oct_ * 2) % (ndir_oct_ * 4);
         } else {
-            return (iang + ndir_oct_ * 6) % (ndir_oct_ * 8);
+            // Opposite octant in the plane, then the other half-space
+            unsigned int half = ndir_oct_ * 4;
+            unsigned int opp  = (iang + ndir_oct_ * 2) % half;
+            return (iang < half) ? opp + half : opp;
         }
         return 0;
     }
-- 
2.43.0


From fa9895134c842d7dd6ef874a734426f5b5a1a688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:14 +0000
Subject: [PATCH 06/33] fix: weight maps of the level-symmetric sets of order
 12 and above

---
 src/core/level_symmetric.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/level_symmetric.hpp b/src/core/level_symmetric.hpp
index c81404a..8afe487 100644
--- a/src/core/level_symmetric.hpp
+++ b/src/core/level_symmetric.hpp
@@ -41,12 +41,13 @@ real_t w_unique[] = {
 int w_offset[] = {0, 1, 2, 4, 7, 11, 16, 23};
 
 int w_map[] = {1, 1, 1, 1, 1, 2, 2, 1, 2, 1, 1, 2, 2, 2, 3, 2, 1, 2, 2, 1,
-               1, 2, 2, 3, 4, 3, 2, 4, 4, 2, 1, 2, 3, 2, 1, 1, 2, 2, 3, 5,
+               1, 2, 2, 3, 4, 3, 2, 4, 4, 2, 1, 2, 3, 2, 1, 1, 2, 2, 3, 4,
+               3, 3, 5, 5, 3, 2, 4, 5, 4, 2, 1, 2, 3, 3, 2, 1, 1, 2, 2, 3, 5,
                3, 4, 6, 6, 4, 3, 6, 7, 6, 3, 2, 5, 6, 6, 5, 2, 1, 2, 3, 4,
                3, 2, 1, 1, 2, 2, 3, 5, 3, 4, 6, 6, 4, 4, 7, 8, 7, 4, 3, 6,
                8, 8, 6, 3, 2, 5, 6, 7, 6, 5, 2, 1, 2, 3, 4, 4, 3, 2, 1};
 
-int w_map_offset[] = {0, 1, 4, 10, 20, 35, 63};
+int w_map_offset[] = {0, 1, 4, 10, 20, 35, 56, 84};
 }
 
 // Produce a vector of angles matching the level-symmetric quadrature of order
-- 
2.43.0


From 9c4ec99a22972cd429f9d726d739160cc34067f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:14 +0000
Subject: [PATCH 07/33] fix: index the external source by group, then region

---
 src/core/source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source.cpp b/src/core/source.cpp
index 7900804..d0f577b 100644
--- a/src/core/source.cpp
+++ b/src/core/source.cpp
@@ -42,7 +42,7 @@ void Source::initialize_group(int ig)
 {
     if (has_external_) {
         for (int ireg = 0; ireg < (int)n_reg_; ireg++) {
-            source_1g_[ireg] = external_source_(ireg, ig);
+            source_1g_[ireg] = external_source_(ig, ireg);
         }
     }
     else {
-- 
2.43.0


From f2a158655df4b3e29f8aeee10c67f06a272ae617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:14 +0000
Subject: [PATCH 08/33] fix: normalize the source with the cross sections
 passed in

---
 src/core/source_isotropic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source_isotropic.cpp b/src/core/source_isotropic.cpp
index 2d3b205..ebfde1e 100644
--- a/src/core/source_isotropic.cpp
+++ b/src/core/source_isotropic.cpp
@@ -26,8 +26,8 @@ void SourceIsotropic::self_scatter(size_t ig, const ArrayB1 &xstr)
         for (auto &xsr : *xs_mesh_) {
             const ScatteringRow &scat_row = xsr.xsmacsc().to(ig);
             real_t xssc                   = scat_row[ig];
-            real_t r_fpi_tr               = 1.0 / (xsr.xsmactr(ig) * FPI);
             for (const int ireg : xsr.reg()) {
+                real_t r_fpi_tr = 1.0 / (xstr(ireg) * FPI);
                 q_[ireg] = (source_1g_[ireg] + flux_1g(ireg) * xssc) * r_fpi_tr;
             }
         }
-- 
2.43.0


From e79cd8caa02a3ecd49a63771cc7550d9373bcbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:14 +0000
Subject: [PATCH 09/33] fix: do not take split cross sections for the plain
 ones

---
 src/core/xs_mesh.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/xs_mesh.hpp b/src/core/xs_mesh.hpp
index 118a704..2d995ae 100644
--- a/src/core/xs_mesh.hpp
+++ b/src/core/xs_mesh.hpp
@@ -285,6 +285,8 @@ public:
             // If we are doing splitting, skip the checks on group, etc. and
             // always expand
             assert((int)split.size() == xs_mesh_->n_reg_expanded());
+            // What is stored below is not what a plain expand() would store
+            state_->first = -1;
             for (const auto &xsr : *xs_mesh_) {
                 real_t xs = xsr.xsmactr(group);
                 for (const int ireg : xsr.reg()) {
-- 
2.43.0


From 8cd1a6c3e956fbe66ab43bdd0d35b6438af0403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:56 +0000
Subject: [PATCH 10/33] fix: update the remaining faces when one holds no
 boundary values

---
 src/core/boundary_condition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/boundary_condition.cpp b/src/core/boundary_condition.cpp
index 5d0ad33..0026fe5 100644
--- a/src/core/boundary_condition.cpp
+++ b/src/core/boundary_condition.cpp
@@ -161,7 +161,7 @@ void BoundaryCondition::update(int group, int angle,
         int size    = size_[angle][(int)n];
         int iang_in = ang_quad_.reflect(angle, n);
         if (size == 0) {
-            break;
+            continue;
         }
         assert(size == out.size_[iang_in][(int)n]);
         assert(iang_in < n_angle_);
-- 
2.43.0


From deff00dbff3b3fcf0c78c422a552f7a6389cfcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:34 +0000
Subject: [PATCH 11/33] fix: report the spatial tally deviation relative to the
 mean, independent of volume

---
 src/sweepers/mc/tally_spatial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweepers/mc/tally_spatial.hpp b/src/sweepers/mc/tally_spatial.hpp
index 9abfbf1..4bfb0fa 100644
--- a/src/sweepers/mc/tally_spatial.hpp
+++ b/src/sweepers/mc/tally_spatial.hpp
@@ -132,7 +132,7 @@ public:
             real_t variance       = mean_of_square - square_of_mean;
 
             ret.push_back({mean * r_norm,
-                           std::sqrt(variance * r_norm) / (mean * r_norm)});
+                           std::sqrt(variance) / mean});
         }
 
         return ret;
-- 
2.43.0


From b2edbb93ed334b0ff98a3aca0e6d50a9bd206691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:34 +0000
Subject: [PATCH 12/33] fix: initialise the total fission of an empty fission
 bank

---
 src/sweepers/mc/fission_bank.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sweepers/mc/fission_bank.cpp b/src/sweepers/mc/fission_bank.cpp
index d0fa6b0..afbed1a 100644
--- a/src/sweepers/mc/fission_bank.cpp
+++ b/src/sweepers/mc/fission_bank.cpp
@@ -22,7 +22,8 @@
 
 namespace mocc {
 namespace mc {
-FissionBank::FissionBank(const CoreMesh &mesh) : mesh_(mesh)
+FissionBank::FissionBank(const CoreMesh &mesh)
+    : mesh_(mesh), total_fission_(0.0)
 {
     return;
 }
-- 
2.43.0


From 2ea73937db95da85efff08d146ab00d5f4f9c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:34 +0000
Subject: [PATCH 13/33] fix: reject a fission site whose pin index equals the
 number of pins

---
 src/sweepers/mc/fission_bank.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweepers/mc/fission_bank.cpp b/src/sweepers/mc/fission_bank.cpp
index afbed1a..28ab308 100644
--- a/src/sweepers/mc/fission_bank.cpp
+++ b/src/sweepers/mc/fission_bank.cpp
@@ -94,7 +94,7 @@ real_t FissionBank::shannon_entropy() const
 
     for (const auto &p : sites_) {
         int icell = mesh_.coarse_cell_point(p.location_global);
-        if (icell < 0 || icell > (int)mesh_.n_pin()) {
+        if (icell < 0 || icell >= (int)mesh_.n_pin()) {
             std::stringstream msg;
             msg << "Couldnt locate particle: " << p << std::endl;
             throw EXCEPT(msg.str());
-- 
2.43.0


From 3cdccd06c7d0b68c6e6afb3d12924392d0bde3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:34 +0000
Subject: [PATCH 14/33] fix: store the top surface currents of the CMFD
 solution with subplanes

---
 src/core/cmfd.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/cmfd.cpp b/src/core/cmfd.cpp
index ab2c243..0ddae98 100644
--- a/src/core/cmfd.cpp
+++ b/src/core/cmfd.cpp
@@ -626,9 +626,17 @@ void CMFD::store_currents()
                     int stp_coarse = mesh_.plane_surf_xy_begin(mplane) - 1;
                     coarse_data_.current(blitz::Range(stt_fine, stp_fine), ig) =
                         current_1g_(blitz::Range(stt_coarse, stp_coarse));
+                    current_mplane = mplane;
                 }
             }
-
+            // Lastly, store the top surface currents
+            int n_mplanes  = fine_mesh_->n_macroplanes();
+            int stt_fine   = fine_mesh_->plane_surf_begin(nz);
+            int stp_fine   = fine_mesh_->plane_surf_xy_begin(nz) - 1;
+            int stt_coarse = mesh_.plane_surf_begin(n_mplanes);
+            int stp_coarse = mesh_.plane_surf_xy_begin(n_mplanes) - 1;
+            coarse_data_.current(blitz::Range(stt_fine, stp_fine), ig) =
+                current_1g_(blitz::Range(stt_coarse, stp_coarse));
         } else {
             coarse_data_.current(blitz::Range::all(), ig) = current_1g_;
         }
-- 
2.43.0


From 0df9907212aad7539d1c279fcea4b61321b2c993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:34 +0000
Subject: [PATCH 15/33] fix: keep the last character of the text before an
 opening brace

---
 src/util/string_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/string_utils.cpp b/src/util/string_utils.cpp
index aac7638..de61b34 100644
--- a/src/util/string_utils.cpp
+++ b/src/util/string_utils.cpp
@@ -146,7 +146,7 @@ std::vector<std::vector<int>> explode_braces(std::string data)
         pos_stp = data.find('}', pos_stt);
         if (pos_stt - pos > 0) {
             std::vector<int> naked_ints =
-                explode_string<int>(data.substr(pos, pos_stt - pos - 1));
+                explode_string<int>(data.substr(pos, pos_stt - pos));
             if (naked_ints.size() > 0) {
                 for (const auto &v : naked_ints) {
                     out.push_back(std::vector<int>(1, v));
-- 
2.43.0


From 0cecc4eaf4f2eb19882f109ec8608a649bddf518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:34 +0000
Subject: [PATCH 16/33] fix: leave the homogenised flux alone when setting MoC
 pin fluxes by pin

---
 src/sweepers/moc/moc_sweeper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sweepers/moc/moc_sweeper.cpp b/src/sweepers/moc/moc_sweeper.cpp
index 45c9b2c..1f2a07c 100644
--- a/src/sweepers/moc/moc_sweeper.cpp
+++ b/src/sweepers/moc/moc_sweeper.cpp
@@ -394,7 +394,9 @@ real_t MoCSweeper::set_pin_flux_1g(int group, const ArrayB1 &pin_flux,
             plane_pin_flux(i) /= mesh_.macroplane_heights()[iz];
         }
     case MeshTreatment::PIN_PLANE: {
-        plane_pin_flux = pin_flux;
+        if (treatment == MeshTreatment::PIN_PLANE) {
+            plane_pin_flux = pin_flux;
+        }
         int iz       = 0;
         int ireg     = 0;
         for (const auto &mplane : mesh_.macroplanes()) {
-- 
2.43.0


From c796271bc12909b227e59a6400e1f6d7b3cc93b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:34 +0000
Subject: [PATCH 17/33] fix: compute the pin flux residual of the Sn sweeper
 from the pins being set

---
 src/sweepers/sn/sn_sweeper.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sweepers/sn/sn_sweeper.hpp b/src/sweepers/sn/sn_sweeper.hpp
index 41981d0..ede4c3c 100644
--- a/src/sweepers/sn/sn_sweeper.hpp
+++ b/src/sweepers/sn/sn_sweeper.hpp
@@ -110,7 +110,7 @@ public:
         case MeshTreatment::PIN: {
             int i = 0;
             for (auto &v : pin_flux) {
-                real_t e = flux_(1, group) - v;
+                real_t e = flux_(i, group) - v;
                 resid += e * e;
                 flux_((int)i, (int)group) = v;
                 i++;
@@ -122,6 +122,10 @@ public:
             ArrayB1 plane_pin_flux(mesh_.n_reg(MeshTreatment::PIN_PLANE));
             this->get_pin_flux_1g(group, plane_pin_flux,
                                   MeshTreatment::PIN_PLANE);
+            for (int i = 0; i < (int)pin_flux.size(); i++) {
+                real_t e = plane_pin_flux(i) - pin_flux(i);
+                resid += e * e;
+            }
             plane_pin_flux /= pin_flux;
 
             int n_per_plane = mesh_.nx() * mesh_.ny();
-- 
2.43.0


From 619c285e197938f33728565dfe78472fdbca5425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:34 +0000
Subject: [PATCH 18/33] fix: look up a region with the pin-local point instead
 of the pin origin

---
 src/core/core_mesh.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/core_mesh.hpp b/src/core/core_mesh.hpp
index be9c798..7664572 100644
--- a/src/core/core_mesh.hpp
+++ b/src/core/core_mesh.hpp
@@ -327,10 +327,13 @@ public:
 
         // Get a pointer to the appropriate pin mesh, set ireg to the
         // beginning of that instance of the mesh.
-        Point2 p2d    = p.to_2d();
-        const auto pm = plane.get_pinmesh(p2d, ireg);
+        Point2 origin = p.to_2d();
+        const auto pm = plane.get_pinmesh(origin, ireg);
 
-        ireg += pm->find_reg(p2d);
+        // The above call moves its argument to the origin of the pin
+        Point2 p_local = p.to_2d();
+        p_local -= origin;
+        ireg += pm->find_reg(p_local);
 
         return ireg;
     }
-- 
2.43.0


From 9d6683941d6b5dddc636c133cf2e5cf185aff938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:34 +0000
Subject: [PATCH 19/33] fix: keep lattice and pin indices from wrapping around
 on the west and south edges

---
 src/core/lattice.cpp | 8 ++++----
 src/core/plane.cpp   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/lattice.cpp b/src/core/lattice.cpp
index 391fd73..b69d1cd 100644
--- a/src/core/lattice.cpp
+++ b/src/core/lattice.cpp
@@ -134,25 +134,25 @@ const PinMesh *Lattice::get_pinmesh(Point2 &p, int &first_reg,
     /// break the assumption here that all PinMesh origins are smack-dab in
     /// middle of the mesh. Should provide some functionality on the PinMesh
     /// itself to provide its origin to clients.
-    unsigned ix = std::distance(
+    int ix = std::distance(
         x_vec_.cbegin(),
         std::lower_bound(x_vec_.cbegin(), x_vec_.cend(), p.x, fuzzy_lt));
     if (fp_equiv_abs(p.x, x_vec_[ix])) {
         ix = (dir.ox > 0.0) ? ix + 1 : ix;
     }
     ix--;
-    ix = std::min(nx_ - 1, std::max(0u, ix));
+    ix = std::min((int)nx_ - 1, std::max(0, ix));
 
     p.x = 0.5 * (x_vec_[ix + 1] + x_vec_[ix]);
 
-    unsigned iy = std::distance(
+    int iy = std::distance(
         y_vec_.cbegin(),
         std::lower_bound(y_vec_.cbegin(), y_vec_.cend(), p.y, fuzzy_lt));
     if (fp_equiv_abs(p.y, y_vec_[iy])) {
         iy = (dir.oy > 0.0) ? iy + 1 : iy;
     }
     iy--;
-    iy  = std::min(ny_ - 1, std::max(0u, iy));
+    iy  = std::min((int)ny_ - 1, std::max(0, iy));
     p.y = 0.5 * (y_vec_[iy + 1] + y_vec_[iy]);
 
     unsigned int i = iy * nx_ + ix;
diff --git a/src/core/plane.cpp b/src/core/plane.cpp
index f29d6a0..9461696 100644
--- a/src/core/plane.cpp
+++ b/src/core/plane.cpp
@@ -102,13 +102,13 @@ const PinMesh *Plane::get_pinmesh(Point2 &p, int &first_reg,
     assert(p.x / hx_.back() < 1.0 + REAL_FUZZ);
     assert(p.y / hy_.back() < 1.0 + REAL_FUZZ);
     // Locate the lattice
-    unsigned ix = std::distance(
+    int ix = std::distance(
         hx_.begin(), std::lower_bound(hx_.begin(), hx_.end(), p.x, fuzzy_lt));
     if (fp_equiv(p.x, hx_[ix])) {
         ix = (dir.ox > 0.0) ? ix + 1 : ix;
     }
     ix--;
-    unsigned iy = std::distance(
+    int iy = std::distance(
         hy_.begin(), std::lower_bound(hy_.begin(), hy_.end(), p.y, fuzzy_lt));
     if (fp_equiv(p.y, hy_[iy])) {
         iy = (dir.oy > 0.0) ? iy + 1 : iy;
@@ -116,8 +116,8 @@ const PinMesh *Plane::get_pinmesh(Point2 &p, int &first_reg,
     iy--;
 
     // Force indices to be inside the plane
-    ix = std::min(nx_ - 1, std::max(0u, ix));
-    iy = std::min(ny_ - 1, std::max(0u, iy));
+    ix = std::min((int)nx_ - 1, std::max(0, ix));
+    iy = std::min((int)ny_ - 1, std::max(0, iy));
 
     size_t ilat = nx_ * iy + ix;
 
-- 
2.43.0


From 8f75cc9aa1dff8b954e3513928db45a10c620ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:34 +0000
Subject: [PATCH 20/33] fix: report the position of the same pin as the pin
 mesh found at a location

---
 src/core/core_mesh.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/core/core_mesh.cpp b/src/core/core_mesh.cpp
index 62d65b6..31cd2ce 100644
--- a/src/core/core_mesh.cpp
+++ b/src/core/core_mesh.cpp
@@ -249,13 +249,21 @@ CoreMesh::LocationInfo CoreMesh::get_location_info(Point3 p,
     LocationInfo info;
 
     // Locate the pin Position
-    int ix = std::distance(x_vec_.begin(),
-                           std::lower_bound(x_vec_.begin(), x_vec_.end(), p.x));
-    info.pos.x = ix - 1;
+    int ix = std::distance(
+        x_vec_.begin(),
+        std::lower_bound(x_vec_.begin(), x_vec_.end(), p.x, fuzzy_lt));
+    if (fp_equiv(p.x, x_vec_[ix])) {
+        ix = (dir.ox > 0.0) ? ix + 1 : ix;
+    }
+    info.pos.x = std::max(0, std::min(ix - 1, nx_ - 1));
 
-    int iy = std::distance(y_vec_.begin(),
-                           std::lower_bound(y_vec_.begin(), y_vec_.end(), p.y));
-    info.pos.y = iy - 1;
+    int iy = std::distance(
+        y_vec_.begin(),
+        std::lower_bound(y_vec_.begin(), y_vec_.end(), p.y, fuzzy_lt));
+    if (fp_equiv(p.y, y_vec_[iy])) {
+        iy = (dir.oy > 0.0) ? iy + 1 : iy;
+    }
+    info.pos.y = std::max(0, std::min(iy - 1, ny_ - 1));
 
     info.pos.z = this->plane_index(p.z, dir.oz);
 
-- 
2.43.0


From 7bdc32181b61ac67e515b01c7e453c3d850db2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:02 +0000
Subject: [PATCH 21/33] fix: keep the angle of points on the x axis within [0,
 2pi)

Point2::alpha() returned 3*pi for points on the negative x axis and 2*pi for points on the positive one.
---
 src/core/geometry/points.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/core/geometry/points.hpp b/src/core/geometry/points.hpp
index b69172b..4ec4a9b 100644
--- a/src/core/geometry/points.hpp
+++ b/src/core/geometry/points.hpp
@@ -86,12 +86,8 @@ public:
     // jiggery to force the result to lie in [0,2PI]
     real_t alpha() const
     {
-        if (y > 0.0) {
-            return atan2(y, x);
-        }
-        else {
-            return atan2(y, x) + TWOPI;
-        }
+        real_t a = atan2(y, x);
+        return (a < 0.0) ? a + TWOPI : a;
     }
 
 private:
-- 
2.43.0


From 82745af8dbcc1ad3ef4f0a20dd6ae3faf2956052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:02 +0000
Subject: [PATCH 22/33] fix: intersect boxes ahead of the point and at their
 corners

Box::intersect() accepted faces behind the starting point, and returned an unset point when rounding put a corner past the ends of both faces.
---
 src/core/geometry/box.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core/geometry/box.cpp b/src/core/geometry/box.cpp
index c479e04..8416800 100644
--- a/src/core/geometry/box.cpp
+++ b/src/core/geometry/box.cpp
@@ -53,7 +53,7 @@ Point2 Box::intersect(Point2 p, Angle ang) const
     x = p1_.x;
     d = (p1_.x - p.x) / ox;
     y = p.y + oy * d;
-    if ((fabs(d) > REAL_FUZZ) && (d < d_min) && (y > p1_.y) && (y < p2_.y)) {
+    if ((d > REAL_FUZZ) && (d < d_min) && (y > p1_.y) && (y < p2_.y)) {
         d_min    = fabs(d);
         p_out.x  = x;
         p_out.y  = y;
@@ -63,7 +63,7 @@ Point2 Box::intersect(Point2 p, Angle ang) const
     x = p2_.x;
     d = (p2_.x - p.x) / ox;
     y = p.y + oy * d;
-    if ((fabs(d) > REAL_FUZZ) && (d < d_min) && (y > p1_.y) && (y < p2_.y)) {
+    if ((d > REAL_FUZZ) && (d < d_min) && (y > p1_.y) && (y < p2_.y)) {
         d_min    = fabs(d);
         p_out.x  = x;
         p_out.y  = y;
@@ -74,7 +74,7 @@ Point2 Box::intersect(Point2 p, Angle ang) const
     y = p1_.y;
     d = (p1_.y - p.y) / oy;
     x = p.x + ox * d;
-    if ((fabs(d) > REAL_FUZZ) && (d < d_min) && (x > p1_.x) && (x < p2_.x)) {
+    if ((d > REAL_FUZZ) && (d < d_min) && (x > p1_.x) && (x < p2_.x)) {
         d_min    = fabs(d);
         p_out.x  = x;
         p_out.y  = y;
@@ -84,13 +84,19 @@ Point2 Box::intersect(Point2 p, Angle ang) const
     y = p2_.y;
     d = (p2_.y - p.y) / oy;
     x = p.x + ox * d;
-    if ((fabs(d) > REAL_FUZZ) && (d < d_min) && (x > p1_.x) && (x < p2_.x)) {
+    if ((d > REAL_FUZZ) && (d < d_min) && (x > p1_.x) && (x < p2_.x)) {
         d_min    = fabs(d);
         p_out.x  = x;
         p_out.y  = y;
         p_out.ok = true;
     }
 
+    // When heading straight for a corner, rounding can put the intersections
+    // with both of the adjacent faces on or past their ends
+    if (!p_out.ok) {
+        p_out = Point2(ox > 0.0 ? p2_.x : p1_.x, oy > 0.0 ? p2_.y : p1_.y);
+    }
+
     return p_out;
 }
 
-- 
2.43.0


From f9f70ed44f121a77f2b1d526f30bd1e4739f7441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:02 +0000
Subject: [PATCH 23/33] fix: keep region lookups on the edge of rectangular
 pins in the pin

Points on the left or bottom edge gave a region index of -1 or less.
---
 src/core/pin_mesh_rect.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/pin_mesh_rect.cpp b/src/core/pin_mesh_rect.cpp
index 8842e9e..04496c5 100644
--- a/src/core/pin_mesh_rect.cpp
+++ b/src/core/pin_mesh_rect.cpp
@@ -155,9 +155,9 @@ int PinMesh_Rect::find_reg(Point2 p) const
         hx_.begin(), std::lower_bound(hx_.cbegin(), hx_.cend(), p.x));
     int iy = std::distance(
         hy_.begin(), std::lower_bound(hy_.cbegin(), hy_.cend(), p.y));
-    ix--;
-    iy--;
-    
+    ix = std::max(0, std::min((int)nx_ - 1, ix - 1));
+    iy = std::max(0, std::min((int)ny_ - 1, iy - 1));
+
     int ireg = nx_ * iy + ix ;
 
     assert( (ireg >= 0) && (ireg < n_reg_));
-- 
2.43.0


From 95a49a6556b40ddeeff54e8cd8762d0dbc838521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:02 +0000
Subject: [PATCH 24/33] fix: compare numbers near zero in fuzzy_lt

The relative difference was infinite or NaN for a zero right-hand side and far too strict close to it.
---
 src/util/fp_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/fp_utils.hpp b/src/util/fp_utils.hpp
index 90085b2..836857e 100644
--- a/src/util/fp_utils.hpp
+++ b/src/util/fp_utils.hpp
@@ -122,6 +122,6 @@ inline bool fp_equiv_saferel(real_t v1, real_t v2)
  * std::lower_bound() and \c std::upper_bound() algorithms.
  */
 inline auto fuzzy_lt(real_t l, real_t r) {
-    return (l - r) / std::abs(r) < -REAL_FUZZ;
+    return (l < r) && !fp_equiv(l, r);
 };
 }
-- 
2.43.0


From e541252988af206acc39cce4c943748a878998ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:02 +0000
Subject: [PATCH 25/33] fix: reject list entries that run into each other

explode_string() read "1-3" as 1 and -3.
---
 src/util/string_utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/string_utils.cpp b/src/util/string_utils.cpp
index de61b34..673470b 100644
--- a/src/util/string_utils.cpp
+++ b/src/util/string_utils.cpp
@@ -73,7 +73,8 @@ template <typename T> std::vector<T> explode_string(std::string data)
     T i;
     while (!inBuf.eof()) {
         inBuf >> i;
-        if (!inBuf.fail()) {
+        // Make sure that entries do not run into each other, as in "1-3"
+        if (!inBuf.fail() && (inBuf.eof() || isspace(inBuf.peek()))) {
             out.push_back(i);
         } else {
             std::stringstream msg;
-- 
2.43.0


From 8151ba6a932fa26f1f63b76d23d8afe2ee012ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:02 +0000
Subject: [PATCH 26/33] fix: extend the x-normal mesh lines over the height of
 the mesh

They ended at the mesh width, so rays in a mesh taller than wide were not cut by them.
---
 src/core/core_mesh.cpp | 2 +-
 src/core/mesh.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/core_mesh.cpp b/src/core/core_mesh.cpp
index 31cd2ce..9f0c358 100644
--- a/src/core/core_mesh.cpp
+++ b/src/core/core_mesh.cpp
@@ -122,7 +122,7 @@ CoreMesh::CoreMesh(const pugi::xml_node &input)
 
     // Form lines for internal pin boundaries and domain bounding box
     for (auto xi = x_vec_.cbegin() + 1; xi != x_vec_.cend() - 1; ++xi) {
-        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hx_)));
+        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hy_)));
     }
     for (auto yi = y_vec_.cbegin() + 1; yi != y_vec_.cend() - 1; ++yi) {
         lines_.push_back(Line(Point2(0.0, *yi), Point2(hx_, *yi)));
diff --git a/src/core/mesh.cpp b/src/core/mesh.cpp
index 0dcfb42..2f19c6d 100644
--- a/src/core/mesh.cpp
+++ b/src/core/mesh.cpp
@@ -45,7 +45,7 @@ Mesh::Mesh(size_t n_reg, size_t n_xsreg, const VecF &hx, const VecF &hy,
 
     hx_ = x_vec_.back();
     for (auto xi = x_vec_.cbegin() + 1; xi != x_vec_.cend() - 1; ++xi) {
-        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hx_)));
+        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, y_vec_.back())));
     }
     hy_ = y_vec_.back();
     for (auto yi = y_vec_.cbegin() + 1; yi != y_vec_.cend() - 1; ++yi) {
-- 
2.43.0


From 4ebf454e60655a7544cd7efbe44976b669ea5327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:14 +0000
Subject: [PATCH 27/33] fix: keep the sector of points just below the x axis in
 range

Their angle can round up to 2*pi, which gave a sector past the last one.
---
 src/core/pin_mesh_cyl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index 04a2598..715dca9 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -248,6 +248,8 @@ int PinMesh_Cyl::find_reg(Point2 p) const
     // Find the azimuthal subdivision that the point is in.
     real_t azi = p.alpha();
     int ia     = azi / (TWOPI / sub_azi_[0]);
+    // The angle of a point right below the x axis can round up to TWOPI
+    ia       = std::min(ia, sub_azi_[0] - 1);
     int ireg   = ir * sub_azi_[0] + ia;
 
     assert((0 <= ireg) && (ireg < n_reg_));
-- 
2.43.0


From 6ad3d44ed049f25b42f3dcb1fa37d1db18b6ff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:14 +0000
Subject: [PATCH 28/33] fix: choose the sector ahead of points on a sector
 division

The comparison of angles was wrong across the x axis, and the index of the last sector became negative.
---
 src/core/pin_mesh_cyl.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index 715dca9..1ebf51a 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -287,7 +287,8 @@ int PinMesh_Cyl::find_reg(Point2 p, Direction dir) const
     }
 
     // Find the azimuthal subdivision that the point is in.
-    real_t azi = p.alpha();
+    // At the center of the pin, only the direction can tell.
+    real_t azi = (r > REAL_FUZZ) ? p.alpha() : dir.alpha;
     if (fp_equiv_ulp(azi, TWOPI)) {
         azi = (dir.alpha > PI) ? TWOPI : 0.0;
     }
@@ -298,11 +299,13 @@ int PinMesh_Cyl::find_reg(Point2 p, Direction dir) const
     int ia = -1;
 
     if (fp_equiv_abs(closest_azi * azi_space, azi)) {
-        ia = (azi < dir.alpha) ? closest_azi : closest_azi - 1;
+        // On a division; take the side that the direction points to
+        real_t cross = p.x * dir.oy - p.y * dir.ox;
+        ia           = (cross > 0.0) ? closest_azi : closest_azi - 1;
     } else {
         ia = (int)azi_div;
     }
-    ia = ia % sub_azi_[0];
+    ia = (ia + sub_azi_[0]) % sub_azi_[0];
 
     // Determine the actual region index
     int ireg = ir * sub_azi_[0] + ia;
-- 
2.43.0


From 55687e3af783b281ae7d45a8a8fa55c65d5c31e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:57 +0000
Subject: [PATCH 29/33] fix: use the area of each outer sector of cylindrical
 pins

Sectors of a square are only equal for some sector counts; six equal shares were wrong.
---
 src/core/pin_mesh_cyl.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index 1ebf51a..d988065 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -32,6 +32,21 @@
 using std::string;
 using std::stringstream;
 
+namespace {
+/**
+ * \brief Return the area of the part of a square with half-width \p h, centered
+ * on the origin, that lies between the positive x axis and the angle \p alpha.
+ */
+mocc::real_t square_sector_area(mocc::real_t h, mocc::real_t alpha)
+{
+    int quadrant     = alpha / HPI;
+    mocc::real_t rem = alpha - quadrant * HPI;
+    mocc::real_t a   = (rem < 0.5 * HPI) ? 0.5 * std::tan(rem)
+                                       : 1.0 - 0.5 * std::tan(HPI - rem);
+    return (quadrant + a) * h * h;
+}
+}
+
 namespace mocc {
 PinMesh_Cyl::PinMesh_Cyl(const pugi::xml_node &input) : PinMesh(input)
 {
@@ -161,9 +176,11 @@ PinMesh_Cyl::PinMesh_Cyl(const pugi::xml_node &input) : PinMesh(input)
 
     // Add the volumes from the outer annular region
     real_t large_r = radii_[radii_.size() - 1];
-    real_t v_outer = (pitch_x_ * pitch_y_ - PI * large_r * large_r) / n_azi;
+    real_t v_ring  = PI * large_r * large_r / n_azi;
     for (int ia = 0; ia < n_azi; ia++) {
-        areas_.push_back(v_outer);
+        real_t v_sector = square_sector_area(h_pitch_x, (ia + 1) * ang_sep) -
+                          square_sector_area(h_pitch_x, ia * ang_sep);
+        areas_.push_back(v_sector - v_ring);
     }
     assert((int)areas_.size() == n_reg_);
 
-- 
2.43.0


From 6f7c99f80554c3f049eef85b63ccce172d7b0c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:31 +0000
Subject: [PATCH 30/33] fix: normalize MoC currents before expanding them over
 subplanes

Currents are weighted with the height of the plane they are stored in.
With planes of different height in a macroplane, dividing by the area of
the destination surface scaled the currents of the upper planes wrongly.
---
 src/sweepers/moc/moc_current_worker.hpp | 28 +++++++++++++------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/sweepers/moc/moc_current_worker.hpp b/src/sweepers/moc/moc_current_worker.hpp
index 9aeb1e2..102cbbd 100644
--- a/src/sweepers/moc/moc_current_worker.hpp
+++ b/src/sweepers/moc/moc_current_worker.hpp
@@ -273,6 +273,21 @@ public:
     {
 #pragma omp single
         {
+            auto all          = blitz::Range::all();
+            auto current      = coarse_data_->current(all, group_);
+            auto surface_flux = coarse_data_->surface_flux(all, group_);
+            // Normalize the surface currents. This has to happen before the
+            // currents are expanded, since they were weighted with the height
+            // of the plane in which they are stored.
+            for (size_t plane = 0; plane < mesh_->nz(); plane++) {
+                for (int surf = mesh_->plane_surf_xy_begin(plane);
+                     surf != (int)mesh_->plane_surf_end(plane); ++surf) {
+                    real_t area = mesh_->coarse_area(surf);
+                    current(surf) /= area;
+                    surface_flux(surf) /= area;
+                }
+            }
+
             // Check to see if we need to expand the currents across the mesh.
             if ((int)mesh_->nz() - 1 != (mesh_->macroplane_index().back())) {
                 // In the presence of subplaning, the currents coming from the
@@ -300,19 +315,6 @@ public:
                     iz--;
                 }
             }
-
-            auto all          = blitz::Range::all();
-            auto current      = coarse_data_->current(all, group_);
-            auto surface_flux = coarse_data_->surface_flux(all, group_);
-            // Normalize the surface currents
-            for (size_t plane = 0; plane < mesh_->nz(); plane++) {
-                for (int surf = mesh_->plane_surf_xy_begin(plane);
-                     surf != (int)mesh_->plane_surf_end(plane); ++surf) {
-                    real_t area = mesh_->coarse_area(surf);
-                    current(surf) /= area;
-                    surface_flux(surf) /= area;
-                }
-            }
         }
         return;
     }
-- 
2.43.0


From 630ac3531881613cdb189c465e441c8c443c842f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:31 +0000
Subject: [PATCH 31/33] fix: weight the surface flux of the Sn sweeper by the
 angular weights

---
 src/sweepers/sn/sn_current_worker.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/sweepers/sn/sn_current_worker.hpp b/src/sweepers/sn/sn_current_worker.hpp
index 612d028..7c3f2f9 100644
--- a/src/sweepers/sn/sn_current_worker.hpp
+++ b/src/sweepers/sn/sn_current_worker.hpp
@@ -89,7 +89,7 @@ public:
 #pragma omp atomic update
                 data_->current(surf, group) += ox * x[ny * iz + iy];
 #pragma omp atomic update
-                data_->surface_flux(surf, group) += x[ny * iz + iy];
+                data_->surface_flux(surf, group) += w * x[ny * iz + iy];
             }
         }
 
@@ -102,7 +102,7 @@ public:
 #pragma omp atomic update
                 data_->current(surf, group) += oy * y[nx * iz + ix];
 #pragma omp atomic update
-                data_->surface_flux(surf, group) += y[nx * iz + ix];
+                data_->surface_flux(surf, group) += w * y[nx * iz + ix];
             }
         }
 
@@ -115,7 +115,7 @@ public:
 #pragma omp atomic update
                 data_->current(surf, group) += oz * z[nx * iy + ix];
 #pragma omp atomic update
-                data_->surface_flux(surf, group) += z[nx * iy + ix];
+                data_->surface_flux(surf, group) += w * z[nx * iy + ix];
             }
         }
 
@@ -159,7 +159,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += ox * x[iy];
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += x[iy];
+            data_->surface_flux(surf, group) += w * x[iy];
         }
 
         // Y-normal
@@ -170,7 +170,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += oy * y[ix];
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += y[ix];
+            data_->surface_flux(surf, group) += w * y[ix];
         }
 
         return;
@@ -199,7 +199,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += psi_x * ox;
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += psi_x;
+            data_->surface_flux(surf, group) += psi_x * w;
         }
 
         // Y-normal
@@ -208,7 +208,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += psi_y * oy;
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += psi_y;
+            data_->surface_flux(surf, group) += psi_y * w;
         }
 
         // Z-normal
@@ -217,7 +217,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += psi_z * oz;
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += psi_z;
+            data_->surface_flux(surf, group) += psi_z * w;
         }
 
         return;
@@ -244,7 +244,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += psi_x * ox;
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += psi_x;
+            data_->surface_flux(surf, group) += psi_x * w;
         }
 
         // Y-normal
@@ -253,7 +253,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += psi_y * oy;
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += psi_y;
+            data_->surface_flux(surf, group) += psi_y * w;
         }
 
         return;
-- 
2.43.0


From 34799e3849e098c159e908053a4068400b4c3f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:40:51 +0000
Subject: [PATCH 32/33] fix: cross surfaces inside of a pin along the direction
 of travel

After the move to a surface every particle was pushed a little along each
axis. That push does not follow the direction of travel. A particle that
leaves a ring at a shallow angle could be put back inside of the ring. Its
region did not change then, and the ring was taken as already crossed. The
rest of the track in the pin was made and scored with the wrong region.

Surfaces inside of a pin are now crossed along the direction of travel. The
push along the axes is only used at pin boundaries.
---
 src/sweepers/mc/particle.hpp        | 20 ++++++++++++++------
 src/sweepers/mc/particle_pusher.cpp |  2 +-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/sweepers/mc/particle.hpp b/src/sweepers/mc/particle.hpp
index cdabee4..773a9ed 100644
--- a/src/sweepers/mc/particle.hpp
+++ b/src/sweepers/mc/particle.hpp
@@ -97,19 +97,27 @@ public:
      *
      * \param d the distance to move the \ref Particle
      *
+     * \param nudge whether to push the \ref Particle a little further along
+     * each axis as well. This gets particles that run almost parallel to a pin
+     * boundary across it. The push does not follow the direction of travel, so
+     * it must not be used for crossing surfaces inside of a pin, where it could
+     * put the \ref Particle back on the side that it came from.
+     *
      * This updates the \ref Particle's pin- and core-local positions
      */
-    void move(real_t d)
+    void move(real_t d, bool nudge = true)
     {
-        location.x += (d + BUMP) * direction.ox + BUMP * sgn(direction.ox);
-        location.y += (d + BUMP) * direction.oy + BUMP * sgn(direction.oy);
+        real_t bump = nudge ? BUMP : 0.0;
+
+        location.x += (d + BUMP) * direction.ox + bump * sgn(direction.ox);
+        location.y += (d + BUMP) * direction.oy + bump * sgn(direction.oy);
 
         location_global.x +=
-            (d + BUMP) * direction.ox + BUMP * sgn(direction.ox);
+            (d + BUMP) * direction.ox + bump * sgn(direction.ox);
         location_global.y +=
-            (d + BUMP) * direction.oy + BUMP * sgn(direction.oy);
+            (d + BUMP) * direction.oy + bump * sgn(direction.oy);
         location_global.z +=
-            (d + BUMP) * direction.oz + BUMP * sgn(direction.oz);
+            (d + BUMP) * direction.oz + bump * sgn(direction.oz);
         return;
     }
 
diff --git a/src/sweepers/mc/particle_pusher.cpp b/src/sweepers/mc/particle_pusher.cpp
index b507b7b..dd11dca 100644
--- a/src/sweepers/mc/particle_pusher.cpp
+++ b/src/sweepers/mc/particle_pusher.cpp
@@ -260,7 +260,7 @@ void ParticlePusher::simulate(Particle p, bool tally)
             if (!d_to_surf.second) {
                 // Particle crossed an internal boundary in the pin.
                 // Update its location and region index
-                p.move(d_to_surf.first);
+                p.move(d_to_surf.first, false);
                 p.ireg = location_info.pm->find_reg(p.location, p.direction) +
                          location_info.reg_offset;
                 assert(p.ireg >= 0);
-- 
2.43.0


From ff9fa780bc5ac9e068061c4ae1b404a39094efc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:53:10 +0000
Subject: [PATCH 33/33] fix: cross both faces once where a ray passes through
 the corner of a pin

The intersections of a shallow ray with the two grid lines of a corner can
differ by more than the tolerance used to remove duplicate points. One face
was then recorded twice, and all later crossings of the ray were off by one
cell. Move such intersections onto the corner before duplicates are removed.
---
 src/core/mesh.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/core/mesh.cpp b/src/core/mesh.cpp
index 2f19c6d..99e39ab 100644
--- a/src/core/mesh.cpp
+++ b/src/core/mesh.cpp
@@ -15,6 +15,8 @@
 */
 
 #include "mesh.hpp"
+#include <algorithm>
+#include <cmath>
 #include <iostream>
 #include <sstream>
 
@@ -340,6 +342,27 @@ void Mesh::trace(std::vector<Point2> &ps) const
 
     // Sort the points and remove duplicates
     std::sort(ps.begin(), ps.end());
+
+    // A line through the corner of a cell intersects two grid lines there. On a
+    // shallow line, rounding can leave these intersections farther apart than
+    // the tolerance of the point comparison, so move both onto the corner.
+    const real_t tol = 1.0e-10;
+    auto snap = [tol](real_t v, const VecF &grid) {
+        for (auto g : grid) {
+            if (std::abs(v - g) < tol) {
+                return g;
+            }
+        }
+        return v;
+    };
+    for (size_t i = 1; i < ps.size(); i++) {
+        if (std::abs(ps[i].x - ps[i - 1].x) < tol &&
+            std::abs(ps[i].y - ps[i - 1].y) < tol) {
+            ps[i - 1] = Point2(snap(ps[i - 1].x, x_vec_),
+                               snap(ps[i - 1].y, y_vec_));
+            ps[i] = ps[i - 1];
+        }
+    }
     ps.erase(std::unique(ps.begin(), ps.end()), ps.end());
 
     return;
-- 
2.43.0

