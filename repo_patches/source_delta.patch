From c67df3f365bb02fa82b790737dba7cf16829ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 01/52] fix: chain force loops do not run past the arrays of a
 single particle

---
 src/interaction/disk.hpp           |  8 ++++----
 src/interaction/newtonian.hpp      |  4 ++--
 src/interaction/post-newtonian.hpp | 12 ++++++------
 src/interaction/tidal.hpp          |  4 ++--
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/interaction/disk.hpp b/src/interaction/disk.hpp
index c51162f..24696e0 100644
--- a/src/interaction/disk.hpp
+++ b/src/interaction/disk.hpp
@@ -119,11 +119,11 @@ namespace hub::force {
                 }
             }
 
-            for (size_t i = 0; i < size - 2; ++i) {
+            for (size_t i = 0; i + 2 < size; ++i) {
                 force(ch_p[i] + ch_p[i + 1], ch_v[i] + ch_v[i + 1], idx[i], idx[i + 2]);
             }
 
-            for (size_t i = 0; i < size - 1; ++i) {
+            for (size_t i = 0; i + 1 < size; ++i) {
                 force(ch_p[i], ch_v[i], idx[i], idx[i + 1]);
             }
         } else {
@@ -187,11 +187,11 @@ namespace hub::force {
                 }
             }
 
-            for (size_t i = 0; i < size - 2; ++i) {
+            for (size_t i = 0; i + 2 < size; ++i) {
                 force(ch_p[i] + ch_p[i + 1], ch_v[i] + ch_v[i + 1], idx[i], idx[i + 2]);
             }
 
-            for (size_t i = 0; i < size - 1; ++i) {
+            for (size_t i = 0; i + 1 < size; ++i) {
                 force(ch_p[i], ch_v[i], idx[i], idx[i + 1]);
             }
         } else {
diff --git a/src/interaction/newtonian.hpp b/src/interaction/newtonian.hpp
index bf3500a..6f280e9 100644
--- a/src/interaction/newtonian.hpp
+++ b/src/interaction/newtonian.hpp
@@ -101,11 +101,11 @@ namespace hub::force {
                 }
             }
 
-            for (size_t i = 0; i < size - 2; ++i) {
+            for (size_t i = 0; i + 2 < size; ++i) {
                 force(ch_p[i] + ch_p[i + 1], idx[i], idx[i + 2]);
             }
 
-            for (size_t i = 0; i < size - 1; ++i) {
+            for (size_t i = 0; i + 1 < size; ++i) {
                 force(ch_p[i], idx[i], idx[i + 1]);
             }
         } else {
diff --git a/src/interaction/post-newtonian.hpp b/src/interaction/post-newtonian.hpp
index 56f39c1..c170134 100644
--- a/src/interaction/post-newtonian.hpp
+++ b/src/interaction/post-newtonian.hpp
@@ -174,11 +174,11 @@ namespace hub::force {
             auto const &idx = particles.index();
 
             size_t size = particles.number();
-            for (size_t i = 0; i < size - 1; ++i) {
+            for (size_t i = 0; i + 1 < size; ++i) {
                 force(ch_p[i], ch_v[i], idx[i], idx[i + 1]);
             }
 
-            for (size_t i = 0; i < size - 2; ++i) {
+            for (size_t i = 0; i + 2 < size; ++i) {
                 force(ch_p[i] + ch_p[i + 1], ch_v[i] + ch_v[i + 1], idx[i], idx[i + 2]);
             }
 
@@ -261,11 +261,11 @@ namespace hub::force {
             auto const &idx = particles.index();
 
             size_t size = particles.number();
-            for (size_t i = 0; i < size - 1; ++i) {
+            for (size_t i = 0; i + 1 < size; ++i) {
                 force(ch_p[i], ch_v[i], idx[i], idx[i + 1]);
             }
 
-            for (size_t i = 0; i < size - 2; ++i) {
+            for (size_t i = 0; i + 2 < size; ++i) {
                 force(ch_p[i] + ch_p[i + 1], ch_v[i] + ch_v[i + 1], idx[i], idx[i + 2]);
             }
 
@@ -326,11 +326,11 @@ namespace hub::force {
             auto const &idx = particles.index();
 
             size_t size = particles.number();
-            for (size_t i = 0; i < size - 1; ++i) {
+            for (size_t i = 0; i + 1 < size; ++i) {
                 force(ch_p[i], ch_v[i], idx[i], idx[i + 1]);
             }
 
-            for (size_t i = 0; i < size - 2; ++i) {
+            for (size_t i = 0; i + 2 < size; ++i) {
                 force(ch_p[i] + ch_p[i + 1], ch_v[i] + ch_v[i + 1], idx[i], idx[i + 2]);
             }
 
diff --git a/src/interaction/tidal.hpp b/src/interaction/tidal.hpp
index ee18e21..f879112 100644
--- a/src/interaction/tidal.hpp
+++ b/src/interaction/tidal.hpp
@@ -92,11 +92,11 @@ namespace hub::force {
                 }
             }
 
-            for (size_t i = 0; i < size - 2; ++i) {
+            for (size_t i = 0; i + 2 < size; ++i) {
                 force(ch_p[i] + ch_p[i + 1], ch_v[i] + ch_v[i + 1], idx[i], idx[i + 2]);
             }
 
-            for (size_t i = 0; i < size - 1; ++i) {
+            for (size_t i = 0; i + 1 < size; ++i) {
                 force(ch_p[i], ch_v[i], idx[i], idx[i + 1]);
             }
         } else {
-- 
2.43.0


From f6ee195fa72c294bbfbd19f099dbf333ccd5ddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 02/52] fix: 2PN velocity coefficient of the second body
 mirrors that of the first

---
 src/interaction/post-newtonian.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interaction/post-newtonian.hpp b/src/interaction/post-newtonian.hpp
index c170134..cc5fdcf 100644
--- a/src/interaction/post-newtonian.hpp
+++ b/src/interaction/post-newtonian.hpp
@@ -245,7 +245,7 @@ namespace hub::force {
             auto Bi = v1s * nv2 + 4 * v2s * nv1 - 5 * v2s * nv2 - 4 * v12 * nv1 + 4 * v12 * nv2 - 6 * nv1 * nv2s +
                       4.5 * nv2 * nv2s + gmr1 * (-15.75 * nv1 + 13.75 * nv2) + gmr2 * (-2 * nv1 - 2 * nv2);
 
-            auto Bj = -v2s * nv1 - 4 * v1s * nv2 + 5 * v1s * nv2 + 4 * v12 * nv2 - 4 * v12 * nv1 + 6 * nv2 * nv1s -
+            auto Bj = -v2s * nv1 - 4 * v1s * nv2 + 5 * v1s * nv1 + 4 * v12 * nv2 - 4 * v12 * nv1 + 6 * nv2 * nv1s -
                       4.5 * nv1 * nv1s + gmr2 * (15.75 * nv2 - 13.75 * nv1) + gmr1 * (2 * nv2 + 2 * nv1);
 
             auto coef = consts::G / r2 * INV_C4;
-- 
2.43.0


From 952edb6f687c7ec9162f2195b6b2d05630069a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 03/52] fix: binding energy derivative of the regularized
 systems uses the external forces only

---
 src/particle-system/archain.hpp     | 6 +++++-
 src/particle-system/regu-system.hpp | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/particle-system/archain.hpp b/src/particle-system/archain.hpp
index ed47b0d..4266591 100644
--- a/src/particle-system/archain.hpp
+++ b/src/particle-system/archain.hpp
@@ -302,8 +302,12 @@ namespace hub::system {
         dy_dh.emplace_back(pos_regu);
 
         Interactions::eval_newtonian_acc(*this, accels_.newtonian_acc());
+
+        Scalar dbindE_dt{0};
         if constexpr (Interactions::ext_vel_indep || Interactions::ext_vel_dep) {
             Interactions::eval_extra_acc(*this, accels_.acc());
+            // only the external forces change the binding energy
+            dbindE_dt = calc_dbindE_dt(this->vel(), accels_.acc());
             calc::array_add(accels_.acc(), accels_.acc(), accels_.newtonian_acc());
         }
 
@@ -322,7 +326,7 @@ namespace hub::system {
 
         dy_dh.emplace_back(calc_domega_dt(this->vel(), accels_.newtonian_acc()) * vel_regu);
 
-        dy_dh.emplace_back(calc_dbindE_dt(this->vel(), accels_.acc()) * vel_regu);
+        dy_dh.emplace_back(dbindE_dt * vel_regu);
     }
     template <CONCEPT_PARTICLES Particles, CONCEPT_INTERACTION Interactions, ReguType RegType>
     template <typename Array>
diff --git a/src/particle-system/regu-system.hpp b/src/particle-system/regu-system.hpp
index d4c32d9..81b3250 100644
--- a/src/particle-system/regu-system.hpp
+++ b/src/particle-system/regu-system.hpp
@@ -318,9 +318,12 @@ namespace hub::system {
         dy_dh.emplace_back(pos_regu);
 
         Interactions::eval_newtonian_acc(*this, accels_.newtonian_acc());
+        StateScalar dbindE_dt{0};
 
         if constexpr (Interactions::ext_vel_indep || Interactions::ext_vel_dep) {
             Interactions::eval_extra_acc(*this, accels_.acc());
+            // only the external forces change the binding energy
+            dbindE_dt = calc_dbindE_dt(this->vel(), accels_.acc());
             calc::array_add(accels_.acc(), accels_.acc(), accels_.newtonian_acc());
         }
 
@@ -336,7 +339,7 @@ namespace hub::system {
 
         dy_dh.emplace_back(calc_domega_dt(this->vel(), accels_.newtonian_acc()) * vel_regu);
 
-        dy_dh.emplace_back(calc_dbindE_dt(this->vel(), accels_.acc()) * vel_regu);
+        dy_dh.emplace_back(dbindE_dt * vel_regu);
     }
 
     template <CONCEPT_PARTICLES Particles, CONCEPT_INTERACTION Interactions, ReguType RegType>
-- 
2.43.0


From 633fe944260dbd3fbb590af9c98b89776e4a3f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 04/52] fix: chain construction rescans from the closest
 remaining pair

---
 src/particle-system/chain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particle-system/chain.hpp b/src/particle-system/chain.hpp
index 3e3f8ff..df99740 100644
--- a/src/particle-system/chain.hpp
+++ b/src/particle-system/chain.hpp
@@ -272,7 +272,7 @@ namespace hub {
                     if (chained_num == num) {
                         break;
                     } else {
-                        k = 1;
+                        k = 0;  // rescan the remaining pairs, the closest first
                     }
                 }
             }
-- 
2.43.0


From cb2a6639bb0310aca135431eaf399e6cf1dd68e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 05/52] fix: chain coordinates and chain potential energy of a
 single particle stay inside their arrays

---
 src/core-computation.hpp      | 4 ++--
 src/particle-system/chain.hpp | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core-computation.hpp b/src/core-computation.hpp
index 8e30dd5..3a6417f 100644
--- a/src/core-computation.hpp
+++ b/src/core-computation.hpp
@@ -503,11 +503,11 @@ namespace hub::calc {
             auto const &ch_p = particles.chain_pos();
             auto const &idx = particles.index();
 
-            for (size_t i = 0; i < size - 1; ++i) {
+            for (size_t i = 0; i + 1 < size; ++i) {
                 potential_eng -= m[idx[i]] * m[idx[i + 1]] / norm(ch_p[i]);
             }
 
-            for (size_t i = 0; i < size - 2; ++i) {
+            for (size_t i = 0; i + 2 < size; ++i) {
                 decltype(ch_p[i]) dr = ch_p[i] + ch_p[i + 1];
                 potential_eng -= m[idx[i]] * m[idx[i + 2]] / norm(dr);
             }
diff --git a/src/particle-system/chain.hpp b/src/particle-system/chain.hpp
index df99740..8843532 100644
--- a/src/particle-system/chain.hpp
+++ b/src/particle-system/chain.hpp
@@ -256,6 +256,14 @@ namespace hub {
 
     template <typename IdxArray>
     void Chain::create_index_from_dist_array(std::vector<Node> &dist, IdxArray &idx, size_t num) {
+        if (dist.empty()) {  // fewer than two particles: there is no pair to start from
+            idx.clear();
+            for (size_t i = 0; i < num; ++i) {
+                idx.emplace_back(i);
+            }
+            return;
+        }
+
         auto head = dist[0].i;
         auto tail = dist[0].j;
         dist[0].avail = false;
-- 
2.43.0


From fcbeefe68caa9044ebcc9997b4935b021cb022b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 06/52] fix: Symplectic10th uses a coefficient table of order
 10

The table in use satisfied the order conditions only up to order 4. It is
replaced by the 31-stage, 10th order composition of Kahan and Li (1997).
---
 .../symplectic/symplectic-integrator.hpp      | 126 +++++++++---------
 1 file changed, 63 insertions(+), 63 deletions(-)

diff --git a/src/integrator/symplectic/symplectic-integrator.hpp b/src/integrator/symplectic/symplectic-integrator.hpp
index 091f3c1..a0aa499 100644
--- a/src/integrator/symplectic/symplectic-integrator.hpp
+++ b/src/integrator/symplectic/symplectic-integrator.hpp
@@ -297,68 +297,68 @@ namespace hub::integrator {
     template <CONCEPT_PARTICLE_SYSTEM ParticleSys>
     void Symplectic10th<TypeSystem>::integrate(ParticleSys &system, typename ParticleSys::Scalar step_size) {
         /*unroll loop manually*/
-        system.drift(3.0610967201933609e-01 * step_size);
-        system.kick(6.1221934403867218e-01 * step_size);
-        system.drift(-9.4012698954724694e-02 * step_size);
-        system.kick(-8.0024474194812156e-01 * step_size);
-        system.drift(-6.6002635995076209e-01 * step_size);
-        system.kick(-5.1980797795340250e-01 * step_size);
-        system.drift(-1.5240397828727220e-01 * step_size);
-        system.kick(2.1500002137885812e-01 * step_size);
-        system.drift(-1.1750569210727700e-01 * step_size);
-        system.kick(-4.5001140559341213e-01 * step_size);
-        system.drift(2.2250778443570857e-01 * step_size);
-        system.kick(8.9502697446482926e-01 * step_size);
-        system.drift(5.1288848042847668e-01 * step_size);
-        system.kick(1.3074998639212410e-01 * step_size);
-        system.drift(3.3095796002497074e-01 * step_size);
-        system.kick(5.3116593365781739e-01 * step_size);
-        system.drift(-6.0050191119721985e-02 * step_size);
-        system.kick(-6.5126631589726136e-01 * step_size);
-        system.drift(-7.6956706144236287e-01 * step_size);
-        system.kick(-8.8786780698746448e-01 * step_size);
-        system.drift(-7.6872229417056015e-02 * step_size);
-        system.kick(7.3412334815335245e-01 * step_size);
-        system.drift(4.2477286784491525e-01 * step_size);
-        system.kick(1.1542238753647800e-01 * step_size);
-        system.drift(4.3160892192959932e-01 * step_size);
-        system.kick(7.4779545632272060e-01 * step_size);
-        system.drift(5.5434862753225678e-02 * step_size);
-        system.kick(-6.3692573081626924e-01 * step_size);
-        system.drift(-1.9288621063874828e-01 * step_size);
-        system.kick(2.5115330953877268e-01 * step_size);
-        system.drift(3.3904387248169282e-01 * step_size);
-        system.kick(4.2693443542461296e-01 * step_size);
-        system.drift(3.3904387248169282e-01 * step_size);
-        system.kick(2.5115330953877268e-01 * step_size);
-        system.drift(-1.9288621063874828e-01 * step_size);
-        system.kick(-6.3692573081626924e-01 * step_size);
-        system.drift(5.5434862753225678e-02 * step_size);
-        system.kick(7.4779545632272060e-01 * step_size);
-        system.drift(4.3160892192959932e-01 * step_size);
-        system.kick(1.1542238753647800e-01 * step_size);
-        system.drift(4.2477286784491525e-01 * step_size);
-        system.kick(7.3412334815335245e-01 * step_size);
-        system.drift(-7.6872229417056015e-02 * step_size);
-        system.kick(-8.8786780698746448e-01 * step_size);
-        system.drift(-7.6956706144236287e-01 * step_size);
-        system.kick(-6.5126631589726136e-01 * step_size);
-        system.drift(-6.0050191119721985e-02 * step_size);
-        system.kick(5.3116593365781739e-01 * step_size);
-        system.drift(3.3095796002497074e-01 * step_size);
-        system.kick(1.3074998639212410e-01 * step_size);
-        system.drift(5.1288848042847668e-01 * step_size);
-        system.kick(8.9502697446482926e-01 * step_size);
-        system.drift(2.2250778443570857e-01 * step_size);
-        system.kick(-4.5001140559341213e-01 * step_size);
-        system.drift(-1.1750569210727700e-01 * step_size);
-        system.kick(2.1500002137885812e-01 * step_size);
-        system.drift(-1.5240397828727220e-01 * step_size);
-        system.kick(-5.1980797795340250e-01 * step_size);
-        system.drift(-6.6002635995076209e-01 * step_size);
-        system.kick(-8.0024474194812156e-01 * step_size);
-        system.drift(-9.4012698954724694e-02 * step_size);
-        system.kick(6.1221934403867218e-01 * step_size);
-        system.drift(3.0610967201933609e-01 * step_size);
+        system.drift(-2.4079947800126501435e-1 * step_size);
+        system.kick(-4.8159895600253002870e-1 * step_size);
+        system.drift(-2.3898428142403521801e-1 * step_size);
+        system.kick(3.6303931544595926879e-3 * step_size);
+        system.drift(2.5271678437084549774e-1 * step_size);
+        system.kick(5.0180317558723140279e-1 * step_size);
+        system.drift(3.9239360091614697574e-1 * step_size);
+        system.kick(2.8298402624506254868e-1 * step_size);
+        system.drift(5.4500685259939239337e-1 * step_size);
+        system.kick(8.0702967895372223806e-1 * step_size);
+        system.drift(3.9046954920756501631e-1 * step_size);
+        system.kick(-2.6090580538592205447e-2 * step_size);
+        system.drift(-4.4947824100088646046e-1 * step_size);
+        system.kick(-8.7286590146318071547e-1 * step_size);
+        system.drift(-6.9830079104414326595e-1 * step_size);
+        system.kick(-5.2373568062510581643e-1 * step_size);
+        system.drift(-3.9258618812788961955e-2 * step_size);
+        system.kick(4.4521844299952789252e-1 * step_size);
+        system.drift(3.1567066923525348570e-1 * step_size);
+        system.kick(1.8612289547097907887e-1 * step_size);
+        system.drift(2.0874808706768134260e-1 * step_size);
+        system.kick(2.3137327866438360633e-1 * step_size);
+        system.drift(-1.4526854361990134136e-1 * step_size);
+        system.kick(-5.2191036590418628905e-1 * step_size);
+        system.drift(1.1337538562040333944e-1 * step_size);
+        system.kick(7.4866113714499296793e-1 * step_size);
+        system.drift(4.0769882451779851273e-1 * step_size);
+        system.kick(6.6736511890604057532e-2 * step_size);
+        system.drift(-3.6843336593305212281e-1 * step_size);
+        system.kick(-8.0360324375670830316e-1 * step_size);
+        system.drift(5.4443566300985821275e-2 * step_size);
+        system.kick(9.1249037635867994571e-1 * step_size);
+        system.drift(5.4443566300985821275e-2 * step_size);
+        system.kick(-8.0360324375670830316e-1 * step_size);
+        system.drift(-3.6843336593305212281e-1 * step_size);
+        system.kick(6.6736511890604057532e-2 * step_size);
+        system.drift(4.0769882451779851273e-1 * step_size);
+        system.kick(7.4866113714499296793e-1 * step_size);
+        system.drift(1.1337538562040333944e-1 * step_size);
+        system.kick(-5.2191036590418628905e-1 * step_size);
+        system.drift(-1.4526854361990134136e-1 * step_size);
+        system.kick(2.3137327866438360633e-1 * step_size);
+        system.drift(2.0874808706768134260e-1 * step_size);
+        system.kick(1.8612289547097907887e-1 * step_size);
+        system.drift(3.1567066923525348570e-1 * step_size);
+        system.kick(4.4521844299952789252e-1 * step_size);
+        system.drift(-3.9258618812788961955e-2 * step_size);
+        system.kick(-5.2373568062510581643e-1 * step_size);
+        system.drift(-6.9830079104414326595e-1 * step_size);
+        system.kick(-8.7286590146318071547e-1 * step_size);
+        system.drift(-4.4947824100088646046e-1 * step_size);
+        system.kick(-2.6090580538592205447e-2 * step_size);
+        system.drift(3.9046954920756501631e-1 * step_size);
+        system.kick(8.0702967895372223806e-1 * step_size);
+        system.drift(5.4500685259939239337e-1 * step_size);
+        system.kick(2.8298402624506254868e-1 * step_size);
+        system.drift(3.9239360091614697574e-1 * step_size);
+        system.kick(5.0180317558723140279e-1 * step_size);
+        system.drift(2.5271678437084549774e-1 * step_size);
+        system.kick(3.6303931544595926879e-3 * step_size);
+        system.drift(-2.3898428142403521801e-1 * step_size);
+        system.kick(-4.8159895600253002870e-1 * step_size);
+        system.drift(-2.4079947800126501435e-1 * step_size);
     }
 }  // namespace hub::integrator
-- 
2.43.0


From d7d105d1416cff3f0970d46bb9999e459e1037cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 07/52] fix: Bulirsch-Stoer keeps its order inside the tables
 after the first step

A first step accepted in the last column set the working order to the table
depth, so the next step ran one column past the extrapolation table.
---
 src/ode-iterator/Bulirsch-Stoer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index e153035..cbad23e 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -491,7 +491,7 @@ namespace hub::ode {
             }
         } else {
             if (!step_reject_) {
-                ideal_rank_ = k;
+                ideal_rank_ = allowed(k);
             }
             return ideal_step_size_[k];
         }
-- 
2.43.0


From 62f7618bc217532519e15ec83b5369168979c746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 08/52] fix: Bulirsch-Stoer retries a failed first step with a
 smaller step

A first step that failed in every column was repeated unchanged until the
iteration budget ran out.
---
 src/ode-iterator/Bulirsch-Stoer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index cbad23e..f848f3f 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -510,7 +510,7 @@ namespace hub::ode {
             }  // else k == iterDepth+1 and error >1 reject directly
             return error > r * r;
         } else {
-            return false;
+            return k == ideal_rank_ + 1;  // the last column failed: retry with a smaller step
         }
     }
 
-- 
2.43.0


From cedbf78621f76d12009e2631b81d85a1e05d84e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 09/52] fix: Bulirsch-Stoer advances the time of a plain
 function once per step

Every sub-step integration advanced the caller's time, so later columns were
evaluated at shifted times; the first-step mode was never left either.
---
 src/ode-iterator/Bulirsch-Stoer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index f848f3f..83d43ef 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -125,7 +125,7 @@ namespace hub::ode {
         void integrate_by_n_steps(U &particles, Scalar macro_step_size, size_t steps);
 
         void integrate_by_n_steps(std::function<void(StateScalarArray const &, StateScalarArray &, Scalar)> func,
-                                  StateScalarArray &data_out, Scalar &time, Scalar step_size, size_t steps);
+                                  StateScalarArray &data_out, Scalar time, Scalar step_size, size_t steps);
 
         void extrapolate(size_t k);
 
@@ -265,6 +265,7 @@ namespace hub::ode {
                         time += iter_h;
                         data = extrap_list_[0];
                         Scalar new_h = set_next_iteration(k);
+                        first_step_ = false;
                         iter_h *= step_ctrl_.limiter(result_order, new_h / iter_h);
                         last_error_ = error;
                         return iter_h;
@@ -408,7 +409,7 @@ namespace hub::ode {
 
     template <typename Integrator, typename ErrEstimator, typename StepController, size_t MaxIter>
     void BulirschStoer<Integrator, ErrEstimator, StepController, MaxIter>::integrate_by_n_steps(
-        EvaluateFun func, StateScalarArray &data_out, Scalar &time, Scalar step_size, size_t steps) {
+        EvaluateFun func, StateScalarArray &data_out, Scalar time, Scalar step_size, size_t steps) {
         data_out = input_;
         Scalar h = step_size / steps;
         StateScalarArray dxdt(input_.size());
-- 
2.43.0


From 6033cf07e621a2b7bf7b4e57743b26ca5ab1f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 10/52] fix: error norms accept vector and compensated arrays
 in every form

The vector branches were taken for scalar ones and did not compile, and some
overloads aborted at run time on compensated arrays.
---
 src/ode-iterator/error-checker/RMS.hpp             | 14 +++++++-------
 src/ode-iterator/error-checker/max-ratio-error.hpp |  4 ++--
 src/ode-iterator/error-checker/worst-offender.hpp  |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/ode-iterator/error-checker/RMS.hpp b/src/ode-iterator/error-checker/RMS.hpp
index c1a8bae..5f144cd 100644
--- a/src/ode-iterator/error-checker/RMS.hpp
+++ b/src/ode-iterator/error-checker/RMS.hpp
@@ -80,7 +80,7 @@ namespace hub::ode {
         size_t const size = y0.size();
         Scalar error = 0;
 
-        if constexpr (std::is_same_v<raw_type_t<typename Array1::value_type>, raw_type_t<Scalar>>) {
+        if constexpr (std::is_convertible_v<typename Array1::value_type, Scalar>) {
             for (size_t i = 0; i < size; ++i) {
                 Scalar scale = std::max(fabs(y0[i]), fabs(y1[i])) * rtol_ + atol_;
                 if (scale == 0) {
@@ -92,12 +92,12 @@ namespace hub::ode {
         } else if constexpr (std::is_same_v<typename Array1::value_type, Vec3<Scalar>>) {
             for (size_t i = 0; i < size; ++i) {
                 auto scale = vec_max(vec_abs(y0[i]), vec_abs(y1[i])) * rtol_ + atol_;
-                if (scale == 0) {
-                    continue;
-                }
-                auto v = vec_abs(y1[i] - y1_prime[i]) / scale;
-                auto r = norm2(v) / 3;
-                error += r;
+                auto v = vec_abs(y1[i] - y1_prime[i]);
+                // a component without scale is skipped, as in the scalar form
+                Scalar x = scale.x == 0 ? Scalar{0} : v.x / scale.x;
+                Scalar y = scale.y == 0 ? Scalar{0} : v.y / scale.y;
+                Scalar z = scale.z == 0 ? Scalar{0} : v.z / scale.z;
+                error += (x * x + y * y + z * z) / 3;
                 // Scalar scale = std::max(max_abs(y0[i]), max_abs(y1[i]));
                 // auto r = max_abs(y1[i] - y1_prime[i]) / (atol_ + scale * rtol_);
                 // error += r * r;
diff --git a/src/ode-iterator/error-checker/max-ratio-error.hpp b/src/ode-iterator/error-checker/max-ratio-error.hpp
index 1a6a5fc..452b65b 100644
--- a/src/ode-iterator/error-checker/max-ratio-error.hpp
+++ b/src/ode-iterator/error-checker/max-ratio-error.hpp
@@ -124,7 +124,7 @@ namespace hub::ode {
         size_t const size = scale.size();
         Scalar max_diff = 0;
         Scalar max_scale = 0;
-        if constexpr (std::is_same_v<raw_type_t<typename Array1::value_type>, raw_type_t<Scalar>>) {
+        if constexpr (std::is_convertible_v<typename Array1::value_type, Scalar>) {
             for (size_t i = 0; i < size; ++i) {
                 max_diff = std::max(max_diff, static_cast<Scalar>(fabs(diff[i])));
                 max_scale = std::max(max_scale, static_cast<Scalar>(atol_ + fabs(scale[i]) * rtol_));
@@ -146,7 +146,7 @@ namespace hub::ode {
         size_t const size = scale.size();
         Scalar max_diff = 0;
         Scalar max_scale = 0;
-        if constexpr (std::is_same_v<typename Array1::value_type, Scalar>) {
+        if constexpr (std::is_convertible_v<typename Array1::value_type, Scalar>) {
             for (size_t i = 0; i < size; ++i) {
                 max_diff = std::max(max_diff, static_cast<Scalar>(fabs(y1_prime[i] - y1[i])));
                 max_scale = std::max(max_scale, static_cast<Scalar>(atol_ + fabs(scale[i]) * rtol_));
diff --git a/src/ode-iterator/error-checker/worst-offender.hpp b/src/ode-iterator/error-checker/worst-offender.hpp
index 341e525..eaf079b 100644
--- a/src/ode-iterator/error-checker/worst-offender.hpp
+++ b/src/ode-iterator/error-checker/worst-offender.hpp
@@ -82,7 +82,7 @@ namespace hub::ode {
     auto WorstOffender<TypeSystem>::error(const Array1 &y0, const Array2 &y1, const Array3 &y1_prime) -> Scalar {
         size_t const size = y0.size();
         Scalar max_err = 0;
-        if constexpr (std::is_same_v<raw_type_t<typename Array1::value_type>, raw_type_t<Scalar>>) {
+        if constexpr (std::is_convertible_v<typename Array1::value_type, Scalar>) {
             for (size_t i = 0; i < size; ++i) {
                 Scalar scale = std::max(fabs(y1[i]), fabs(y0[i]));
                 // Scalar scale = fabs(y0[i]) + fabs((y1[i] - y0[i]));
@@ -105,7 +105,7 @@ namespace hub::ode {
     auto WorstOffender<TypeSystem>::error(const Array1 &y0, const Array2 &diff) -> Scalar {
         size_t const size = y0.size();
         Scalar max_err = 0;
-        if constexpr (std::is_same_v<typename Array1::value_type, Scalar>) {
+        if constexpr (std::is_convertible_v<typename Array1::value_type, Scalar>) {
             for (size_t i = 0; i < size; ++i) {
                 Scalar scale = fabs(y0[i]);
                 // Scalar scale = fabs(y0[i]) + fabs((y1[i] - y0[i]));
-- 
2.43.0


From ecf3051d119d2434992f297ba698b996b1fb1bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 11/52] fix: setting the limits of the step controller takes
 effect

set_limiter only stored the limits; the tables used by the limiter kept the
values computed in the constructor.
---
 src/ode-iterator/step-controller/PID-controller.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ode-iterator/step-controller/PID-controller.hpp b/src/ode-iterator/step-controller/PID-controller.hpp
index 546b3c7..cae5b74 100644
--- a/src/ode-iterator/step-controller/PID-controller.hpp
+++ b/src/ode-iterator/step-controller/PID-controller.hpp
@@ -122,6 +122,12 @@ namespace hub::ode {
     void PIDController<TypeSystem>::set_limiter(Scalar S3, Scalar S4) {
         safe_guard3_ = S3;
         safe_guard4_ = S4;
+        limiter_max_[0] = safe_guard4_;
+        limiter_min_[0] = 1.0 / safe_guard4_;
+        for (size_t i = 1; i < max_order; i++) {
+            limiter_max_[i] = POW(1.0 / safe_guard3_, expon_[i]);
+            limiter_min_[i] = POW(safe_guard3_, expon_[i]) / safe_guard4_;
+        }
     }
 
     template <typename TypeSystem>
@@ -163,13 +169,10 @@ namespace hub::ode {
     template <typename TypeSystem>
     PIDController<TypeSystem>::PIDController() {
         expon_[0] = 0.0;
-        limiter_max_[0] = safe_guard4_;
-        limiter_min_[0] = 1.0 / safe_guard4_;
         for (size_t i = 1; i < max_order; i++) {
             expon_[i] = 1.0 / static_cast<Scalar>(i);
-            limiter_max_[i] = POW(1.0 / safe_guard3_, expon_[i]);
-            limiter_min_[i] = POW(safe_guard3_, expon_[i]) / safe_guard4_;
         }
+        set_limiter(safe_guard3_, safe_guard4_);
     }
 
 }  // namespace hub::ode
-- 
2.43.0


From d2a332c8f346d44492489a592f05fa1eea2bd523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 12/52] fix: step controller tables reach the orders of the
 deepest extrapolation

The arbitrary-precision methods extrapolate to order 65, past the 50 entries of
the controller's tables.
---
 src/ode-iterator/step-controller/PID-controller.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode-iterator/step-controller/PID-controller.hpp b/src/ode-iterator/step-controller/PID-controller.hpp
index cae5b74..546d334 100644
--- a/src/ode-iterator/step-controller/PID-controller.hpp
+++ b/src/ode-iterator/step-controller/PID-controller.hpp
@@ -40,7 +40,7 @@ namespace hub::ode {
         // Type member
         SPACEHUB_USING_TYPE_SYSTEM_OF(TypeSystem);
 
-        constexpr static size_t max_order{50};
+        constexpr static size_t max_order{80};
 
         // Constructors
         // SPACEHUB_MAKE_CONSTRUCTORS(PIDController, delete, default, default, default, default);
-- 
2.43.0


From cc0e1885e0a327102ee36bb606e73d16309d3e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 13/52] fix: sequential refinement commits its last result when
 no refinement converges

---
 src/ode-iterator/sequent-iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode-iterator/sequent-iterator.hpp b/src/ode-iterator/sequent-iterator.hpp
index 57d8582..082daa5 100644
--- a/src/ode-iterator/sequent-iterator.hpp
+++ b/src/ode-iterator/sequent-iterator.hpp
@@ -150,7 +150,7 @@ namespace hub::ode {
             auto bisec_error_scale = 1.0 / (integer_pow(double(ns[i]) / double(ns[i - 1]), Integrator::order) - 1);
             error = bisec_error_scale * err_checker_.error(input_, output_, dual_steps_output_);
             // std::cout << i << ' ' << error << '\n';
-            if (error <= 1) {
+            if (error <= 1 || i == max_iter_) {
                 break;
             }
             std::swap(output_, dual_steps_output_);
-- 
2.43.0


From b03de9d3f55ac7e58a61b818a67365caea5aadf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 14/52] fix: reading a Klein number resets its second order
 error

---
 src/kahan-number.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kahan-number.hpp b/src/kahan-number.hpp
index 415af89..9dbd3bd 100644
--- a/src/kahan-number.hpp
+++ b/src/kahan-number.hpp
@@ -398,6 +398,7 @@ namespace hub {
         friend std::istream &operator>>(std::istream &input, Klein &v) {
             input >> v.real;
             v.err = 0;
+            v.err_of_err = 0;
             return input;
         }
     };
-- 
2.43.0


From d22f761656f59744fe5ffaa55405473609f50616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 15/52] fix: scaling a compensated number scales its error
 terms

---
 src/kahan-number.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kahan-number.hpp b/src/kahan-number.hpp
index 9dbd3bd..1c94fa5 100644
--- a/src/kahan-number.hpp
+++ b/src/kahan-number.hpp
@@ -117,6 +117,7 @@ namespace hub {
          * Division assignment operator.
          */
         friend inline Kahan &operator/=(Kahan &lhs, const Kahan &rhs) {
+            lhs.err /= rhs.real;
             lhs.real /= rhs.real;
             return lhs;
         }
@@ -125,6 +126,7 @@ namespace hub {
          * Multiple assignment operator.
          */
         friend inline Kahan &operator*=(Kahan &lhs, const Kahan &rhs) {
+            lhs.err *= rhs.real;
             lhs.real *= rhs.real;
             return lhs;
         }
@@ -235,6 +237,7 @@ namespace hub {
          * Division assignment operator.
          */
         friend inline Neumaier &operator/=(Neumaier &lhs, const Neumaier &rhs) {
+            lhs.err /= rhs.real;
             lhs.real /= rhs.real;
             return lhs;
         }
@@ -243,6 +246,7 @@ namespace hub {
          * Multiple assignment operator.
          */
         friend inline Neumaier &operator*=(Neumaier &lhs, const Neumaier &rhs) {
+            lhs.err *= rhs.real;
             lhs.real *= rhs.real;
             return lhs;
         }
@@ -372,6 +376,8 @@ namespace hub {
          * Division assignment operator.
          */
         friend inline Klein &operator/=(Klein &lhs, const Klein &rhs) {
+            lhs.err /= rhs.real;
+            lhs.err_of_err /= rhs.real;
             lhs.real /= rhs.real;
             return lhs;
         }
@@ -380,6 +386,8 @@ namespace hub {
          * Multiple assignment operator.
          */
         friend inline Klein &operator*=(Klein &lhs, const Klein &rhs) {
+            lhs.err *= rhs.real;
+            lhs.err_of_err *= rhs.real;
             lhs.real *= rhs.real;
             return lhs;
         }
-- 
2.43.0


From 83a65faf1c2eea303a15a030adb49e1acafdc0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 16/52] fix: evaluate the registered stop conditions
 themselves, not fresh copies of them

---
 src/simulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator.hpp b/src/simulator.hpp
index 9f4bf5c..a0ee5ce 100644
--- a/src/simulator.hpp
+++ b/src/simulator.hpp
@@ -317,7 +317,7 @@ namespace hub {
     template <CONCEPT_PARTICLE_SYSTEM ParticleSys>
     bool RunArgs<ParticleSys>::check_stops(ParticleSys &particle_system, Scalar step_size) const {
         return std::any_of(stop_cond_.begin(), stop_cond_.end(),
-                           [&](auto cond) { return cond(particle_system, step_size); });
+                           [&](auto const &cond) { return cond(particle_system, step_size); });
     }
 
     template <CONCEPT_PARTICLE_SYSTEM ParticleSys>
-- 
2.43.0


From a8b6038724a3b142a8045155dd55aca6beeeb41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 17/52] fix: step towards the end time when a step overshot it
 or the run starts past it

---
 src/simulator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simulator.hpp b/src/simulator.hpp
index a0ee5ce..3dc30bb 100644
--- a/src/simulator.hpp
+++ b/src/simulator.hpp
@@ -412,6 +412,9 @@ namespace hub {
                !run_args.check_stops(particles_, step_size_);) {
             Scalar rest_step = (end_time - particles_.time()) * particles_.step_scale();
 
+            // step towards the end time, even if a time transformed step overshot it
+            if (run_args.is_end_time_set() && step_size_ * rest_step < 0) step_size_ = -step_size_;
+
             if (std::abs(step_size_) <= std::abs(rest_step)) [[likely]] {
                 run_args.operations(particles_, step_size_);
                 advance_one_step();
-- 
2.43.0


From 6ef3e675ec73bbec00db378466ec369f1e1ef678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:02 +0000
Subject: [PATCH 18/52] fix: resetting a logarithmic time slice also resets its
 start time

---
 src/args-callback/callbacks.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index 1d9df24..3cfd1dd 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -424,6 +424,7 @@ namespace hub::callback {
     void LogTimeSlice<Operation, Scalar>::reset_slice_params(Scalar start, Scalar end, size_t opt_num) {
         opt_interval_ = POW(end - start, 1.0 / opt_num);
         opt_time_ = start + opt_interval_;
+        start_time_ = start;
         end_time_ = end;
     }
 
-- 
2.43.0


From 406f1bf136af88c01d9961e3029433e37693d9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:02 +0000
Subject: [PATCH 19/52] fix: a default constructed step slice has an interval
 of one step instead of dividing by zero

---
 src/args-callback/callbacks.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index 3cfd1dd..e0d7d67 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -171,7 +171,7 @@ namespace hub::callback {
        private:
         Operation opt_;
         size_t step_{0};
-        size_t step_interval_{0};
+        size_t step_interval_{1};
     };
 
     /*---------------------------------------------------------------------------*\
-- 
2.43.0


From c4dd4d023c5eeccaef3b826dc4260dd6717caf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 20/52] fix: coord_to_orbit inverts orbit_to_coord for every
 orientation and conic, in both forms

---
 src/orbits/orbits.hpp | 74 ++++++++-----------------------------------
 1 file changed, 13 insertions(+), 61 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 639e5e5..b33742b 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -579,35 +579,31 @@ namespace hub::orbit {
         args.m2 = m2;
         args.e = norm(E);
         args.orbit_type = classify_orbit(args.e);
+        args.p = l * l / u;
+        args.i = acos(L.z / l);
 
-        if (args.orbit_type == OrbitType::Parabola) {
-            Scalar a = -u * r / (r * norm2(dv) - 2.0 * u);
-            args.p = semi_latus_rectum(a, args.e);
+        // `orbit_to_coord` measures the phase of the orbit from the direction opposite to `dr`, so does this inverse
+        if (n != 0) {
+            args.Omega = math::sign(N.y) * myacos(N.x / n);
         } else {
-            args.p = l * l / u;
+            args.Omega = 0;
         }
 
-        args.i = acos(L.z / l);
-
         if (args.e != 0) {
             args.nu = math::sign(rv) * myacos(dot(E / args.e, dr / r));
 
             if (n != 0) {
-                args.Omega = math::sign(N.y) * myacos(N.x / n);
-                args.omega = math::sign(E.z) * myacos(dot(E / args.e, N / n));
+                args.omega = -math::sign(E.z) * myacos(-dot(E / args.e, N / n));
             } else {
-                args.omega = -math::sign(E.y) * myacos(-E.x / args.e);
-                args.Omega = args.omega;
+                args.omega = -math::sign(L.z) * math::sign(E.y) * myacos(-E.x / args.e);
             }
         } else {
+            args.omega = 0;
+
             if (n != 0) {
-                args.Omega = math::sign(N.y) * myacos(N.x / n);
-                args.omega = 0;
-                Vector peri = cross(L, N);
-                args.nu = -math::sign(dot(N, dr)) * myacos(dot(peri / norm(peri), dr / r));
+                args.nu = -math::sign(dr.z) * myacos(-dot(N / n, dr / r));
             } else {
-                args.Omega = args.omega = 0;
-                args.nu = math::sign(dr.y) * acos(dot(Vector(1.0, 0, 0), dr / r));
+                args.nu = -math::sign(L.z) * math::sign(dr.y) * myacos(-dr.x / r);
             }
         }
     }
@@ -625,52 +621,8 @@ namespace hub::orbit {
      */
     template <typename Vector, typename Scalar>
     auto coord_to_orbit(Scalar m1, Scalar m2, const Vector &dr, const Vector &dv) {
-        Vector L = cross(dr, dv);
-        Vector N = cross(Vector(0, 0, 1.0), L);
-        Scalar r = norm(dr);
-        Scalar n = norm(N);
-        Scalar l = norm(L);
-        Scalar rv = dot(dr, dv);
-        Scalar u = (m1 + m2) * consts::G;
-        Vector E = (dr * (norm2(dv) - u * re_norm(dr)) - dv * rv) / u;
-
         KeplerOrbit<Scalar> args;
-
-        args.m1 = m1;
-        args.m2 = m2;
-        args.e = norm(E);
-        args.orbit_type = classify_orbit(args.e);
-
-        if (args.orbit_type != OrbitType::Parabola) {
-            Scalar a = -u * r / (r * norm2(dv) - 2.0 * u);
-            args.p = semi_latus_rectum(a, args.e);
-        } else {
-            args.p = l * l / u;
-        }
-
-        args.i = acos(L.z / l);
-
-        if (args.e != 0) {
-            args.nu = math::sign(rv) * myacos(dot(E / args.e, dr / r));
-
-            if (n != 0) {
-                args.Omega = math::sign(N.y) * myacos(N.x / n);
-                args.omega = math::sign(E.z) * myacos(dot(E / args.e, N / n));
-            } else {
-                args.omega = -math::sign(E.y) * myacos(-E.x / args.e);
-                args.Omega = args.omega;
-            }
-        } else {
-            if (n != 0) {
-                args.Omega = math::sign(N.y) * myacos(N.x / n);
-                args.omega = 0;
-                Vector peri = cross(L, N);
-                args.nu = -math::sign(dot(N, dr)) * myacos(dot(peri / norm(peri), dr / r));
-            } else {
-                args.Omega = args.omega = 0;
-                args.nu = math::sign(dr.y) * acos(dot(Vector(1.0, 0, 0), dr / r));
-            }
-        }
+        coord_to_orbit(m1, m2, dr, dv, args);
         return args;
     }
 
-- 
2.43.0


From cc025ed7221815be36178f12cb7d0f037d273815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:50 +0000
Subject: [PATCH 21/52] fix: mean to eccentric anomaly brackets the root for
 every mean anomaly, not only for roots within (-pi, pi)

---
 src/orbits/orbits.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index b33742b..0e7c1b3 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -322,16 +322,19 @@ namespace hub::orbit {
             return 0;
         }
 
-        if (0 <= e && e < 1)
+        // brackets that hold the root for every mean anomaly
+        if (0 <= e && e < 1) {
             return math::root_bisection([=](Scalar x) -> Scalar { return (x - e * sin(x) - M_anomaly); },
-                                        -hub::consts::pi, hub::consts::pi);
-        else if (e > 1)
-            return math::root_bisection([=](Scalar x) -> Scalar { return (e * sinh(x) - x - M_anomaly); },
-                                        -hub::consts::pi, hub::consts::pi);
-        else if (fabs(e - 1) < math::epsilon<Scalar>::value)
-            return math::root_bisection([=](Scalar x) -> Scalar { return (x + x * x * x / 3 - M_anomaly); },
-                                        -hub::consts::pi, hub::consts::pi);
-        else {
+                                        M_anomaly - 1, M_anomaly + 1);
+        } else if (e > 1) {
+            Scalar limit = cbrt(6 * fabs(M_anomaly));
+            return math::root_bisection([=](Scalar x) -> Scalar { return (e * sinh(x) - x - M_anomaly); }, -limit,
+                                        limit);
+        } else if (math::iseq(e, static_cast<Scalar>(1))) {
+            Scalar limit = fabs(M_anomaly);
+            return math::root_bisection([=](Scalar x) -> Scalar { return (x + x * x * x / 3 - M_anomaly); }, -limit,
+                                        limit);
+        } else {
             spacehub_abort("Eccentricity cannot be negative, Nan or inf!");
         }
     }
-- 
2.43.0


From d29229a95639533e000d260d7a52c6b5ec60cb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 22/52] fix: an invalid anomaly or orbit type is refused
 instead of passing unnoticed

---
 src/orbits/orbits.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 0e7c1b3..80abf16 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -524,7 +524,7 @@ namespace hub::orbit {
                            " is smaller than pericenter distance a*(1-e) = ", a * (1 - e));
         }
         this->nu = -acos((p - r) / (e * r));
-        if (std::isinf(this->nu) && std::isnan(this->nu)) {
+        if (std::isinf(this->nu) || std::isnan(this->nu)) {
             spacehub_abort("true anomaly is inf/nan. a = ", a, " e = ", this->e);
         }
         this->b = b;
@@ -788,6 +788,8 @@ namespace hub::orbit {
             // t = -inf corresponds to nu = -pi and t = +inf corresponds to nu = pi, so have extra minus sign
             auto a = args.p / (1 - args.e * args.e);
             return -sqrt(-a * a * a / u) * M;
+        } else {
+            spacehub_abort("Undefined orbit type!");
         }
     }
 
-- 
2.43.0


From 8c3fe198d5cdd355e9969bf03e2076749e6da054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 23/52] fix: aborting on an error ends the process with a
 failure status

---
 src/dev-tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dev-tools.hpp b/src/dev-tools.hpp
index e8c2b11..b0403b1 100644
--- a/src/dev-tools.hpp
+++ b/src/dev-tools.hpp
@@ -66,7 +66,7 @@ namespace hub {
     do {                                                                                             \
         hub::print(std::cout, __FILE__, ": Line :", __LINE__, " within \"", __FUNCTION__, "\"\r\n"); \
         hub::print(std::cout, __VA_ARGS__);                                                          \
-        exit(0);                                                                                     \
+        exit(1);                                                                                     \
     } while (0)
 
     /*template <typename... Args>
-- 
2.43.0


From 43a05ca1e4a3c682f2448c471e1019215fff4566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:33 +0000
Subject: [PATCH 24/52] fix: tidal_factor of two clusters uses the second
 cluster, not the first one twice

---
 src/orbits/particle-manip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orbits/particle-manip.hpp b/src/orbits/particle-manip.hpp
index 49e53bf..b749a29 100644
--- a/src/orbits/particle-manip.hpp
+++ b/src/orbits/particle-manip.hpp
@@ -800,7 +800,7 @@ namespace hub::orbit {
     auto tidal_factor(Cluster1 const &cluster1, Cluster2 const &cluster2) {
         auto R1 = orbit::cluster_size(cluster1);
         auto R2 = orbit::cluster_size(cluster2);
-        return tidal_factor(cluster1, cluster1, R1, R2);
+        return tidal_factor(cluster1, cluster2, R1, R2);
     }
 
     /**
-- 
2.43.0


From d79777c8249caf6da5956701e2091fa6ee25a79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:34 +0000
Subject: [PATCH 25/52] fix: E_tid of two clusters compiles

---
 src/orbits/particle-manip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orbits/particle-manip.hpp b/src/orbits/particle-manip.hpp
index b749a29..3198d37 100644
--- a/src/orbits/particle-manip.hpp
+++ b/src/orbits/particle-manip.hpp
@@ -755,7 +755,7 @@ namespace hub::orbit {
     auto E_tid(Cluster1 const &cluster1, Cluster2 const &cluster2) {
         auto R1 = orbit::cluster_size(cluster1);
         auto R2 = orbit::cluster_size(cluster2);
-        return E_tid(std::forward<Cluster1>(cluster1), std::forward<Cluster2>(cluster2), R1, R2);
+        return E_tid(cluster1, cluster2, R1, R2);
     }
 
     /**
-- 
2.43.0


From efa7e603e6d6f02fe64e34cddcb974910c51ec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:50 +0000
Subject: [PATCH 26/52] fix: define header functions and variables inline so
 several translation units link

---
 src/args-callback/callbacks.hpp |  4 ++--
 src/multi-thread/thread_pool.h  |  4 ++--
 src/orbits/orbits.hpp           |  4 ++--
 src/particle-system/chain.hpp   |  2 +-
 src/tools/any-vector.hpp        | 14 +++++++-------
 src/tools/auto-name.hpp         |  2 +-
 src/tools/config-reader.hpp     |  4 ++--
 src/tools/timer.hpp             |  8 ++++----
 8 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index e0d7d67..0d9521f 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -431,7 +431,7 @@ namespace hub::callback {
     /*---------------------------------------------------------------------------*\
        Class DefaultWriter Definition
     \*---------------------------------------------------------------------------*/
-    DefaultWriter::DefaultWriter(std::string const& file_name) : fstream_{std::make_shared<std::ofstream>(file_name)} {
+    inline DefaultWriter::DefaultWriter(std::string const& file_name) : fstream_{std::make_shared<std::ofstream>(file_name)} {
         if (!fstream_->is_open()) {
             spacehub_abort("Fail to open the file " + file_name);
         } else {
@@ -461,7 +461,7 @@ namespace hub::callback {
     /*---------------------------------------------------------------------------*\
        Class EnergyErrWriter Definition
     \*---------------------------------------------------------------------------*/
-    EnergyErrWriter::EnergyErrWriter(std::string const& file_name)
+    inline EnergyErrWriter::EnergyErrWriter(std::string const& file_name)
         : fstream_{std::make_shared<std::ofstream>(file_name)} {
         if (!fstream_->is_open()) {
             spacehub_abort("Fail to open the file " + file_name);
diff --git a/src/multi-thread/thread_pool.h b/src/multi-thread/thread_pool.h
index 39f2d64..c821302 100644
--- a/src/multi-thread/thread_pool.h
+++ b/src/multi-thread/thread_pool.h
@@ -48,7 +48,7 @@ namespace hub::multi_thread {
     /*---------------------------------------------------------------------------*\
          Class ThreadPool Implementation
     \*---------------------------------------------------------------------------*/
-    ThreadPool::ThreadPool(size_t max_thread, size_t max_tasks) : stop_(false), max_tasks_(max_tasks) {
+    inline ThreadPool::ThreadPool(size_t max_thread, size_t max_tasks) : stop_(false), max_tasks_(max_tasks) {
         for (size_t i = 0; i < max_thread; ++i) {
             workers_.emplace_back([&]() {
                 Task task;
@@ -68,7 +68,7 @@ namespace hub::multi_thread {
         }
     }
 
-    ThreadPool::~ThreadPool() {
+    inline ThreadPool::~ThreadPool() {
         stop_ = true;
         cv_.notify_all();
         for (auto &worker : workers_) {
diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 80abf16..6a8a396 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -50,8 +50,8 @@ namespace hub::orbit {
     /**
      * @brief A place holder that indicates one of the three angles in orbital parameters will be randomly generated.
      */
-    struct RandomIndicator {
-    } isotherm;
+    struct RandomIndicator {};
+    inline RandomIndicator isotherm;
 
 #if __cplusplus > COMPILER_VERSION
     template <typename T>
diff --git a/src/particle-system/chain.hpp b/src/particle-system/chain.hpp
index 8843532..c9e127a 100644
--- a/src/particle-system/chain.hpp
+++ b/src/particle-system/chain.hpp
@@ -228,7 +228,7 @@ namespace hub {
         }
     }
 
-    bool Chain::try_add_to_chain(std::list<size_t> &list, size_t &head, size_t &tail, Chain::Node &n) {
+    inline bool Chain::try_add_to_chain(std::list<size_t> &list, size_t &head, size_t &tail, Chain::Node &n) {
         if (head == n.i) {
             return try_insert(list, head, n, n.j, [&](size_t idx) { list.emplace_front(idx); });
         } else if (head == n.j) {
diff --git a/src/tools/any-vector.hpp b/src/tools/any-vector.hpp
index 1aea0bb..70a86e6 100644
--- a/src/tools/any-vector.hpp
+++ b/src/tools/any-vector.hpp
@@ -33,25 +33,25 @@ class AnyVector {
 /*---------------------------------------------------------------------------*\
         Class any Implementation
 \*---------------------------------------------------------------------------*/
-bool AnyVector::empty() { return vec_.empty(); }
+inline bool AnyVector::empty() { return vec_.empty(); }
 
-size_t AnyVector::size() { return vec_.size(); }
+inline size_t AnyVector::size() { return vec_.size(); }
 
-void AnyVector::clear() { vec_.clear(); }
+inline void AnyVector::clear() { vec_.clear(); }
 
-size_t AnyVector::capacity() { return vec_.capacity(); }
+inline size_t AnyVector::capacity() { return vec_.capacity(); }
 
-void AnyVector::reserve(size_t new_cap) { vec_.reserve(new_cap); }
+inline void AnyVector::reserve(size_t new_cap) { vec_.reserve(new_cap); }
 
 template <typename T>
-void AnyVector::emplace_back(T&& elem) {
+inline void AnyVector::emplace_back(T&& elem) {
     vec_.emplace_back(std::make_any(elem));
 }
 /*---------------------------------------------------------------------------*\
         Help function
 \*---------------------------------------------------------------------------*/
 
-std::ostream& operator<<(std::ostream& os, AnyVector const& vec) {
+inline std::ostream& operator<<(std::ostream& os, AnyVector const& vec) {
     for (auto const& elem : vec) {
         os << std::any_cast<decltype(elem)>(elem) << ' ';  // wrong....need to think about it.
     }
diff --git a/src/tools/auto-name.hpp b/src/tools/auto-name.hpp
index 0bb81ca..c7b0585 100644
--- a/src/tools/auto-name.hpp
+++ b/src/tools/auto-name.hpp
@@ -11,7 +11,7 @@
 
 namespace hub::tools {
 
-    std::string auto_name(std::string const &prefix = "space_") {
+    inline std::string auto_name(std::string const &prefix = "space_") {
         static int duplicate = 1;
         static std::string last_name;
 
diff --git a/src/tools/config-reader.hpp b/src/tools/config-reader.hpp
index 95a2524..e4467e7 100644
--- a/src/tools/config-reader.hpp
+++ b/src/tools/config-reader.hpp
@@ -65,7 +65,7 @@ namespace hub::tools {
     /*---------------------------------------------------------------------------*\
           Class ConfigReader Implementation
     \*---------------------------------------------------------------------------*/
-    ConfigReader::ConfigReader(std::string const &file_name, char divider, char commenter) {
+    inline ConfigReader::ConfigReader(std::string const &file_name, char divider, char commenter) {
         std::fstream file(file_name);
         if (file.is_open()) {
             std::string line;
@@ -84,7 +84,7 @@ namespace hub::tools {
         }
     }
 
-    ConfigReader::ConfigReader(char const *file_name, char divider, char commenter)
+    inline ConfigReader::ConfigReader(char const *file_name, char divider, char commenter)
         : ConfigReader(std::string(file_name), divider, commenter) {}
 
     template <typename T>
diff --git a/src/tools/timer.hpp b/src/tools/timer.hpp
index 537818d..02fe59b 100644
--- a/src/tools/timer.hpp
+++ b/src/tools/timer.hpp
@@ -66,12 +66,12 @@ namespace hub::tools {
     /*---------------------------------------------------------------------------*\
           Class Timer Implementation
     \*---------------------------------------------------------------------------*/
-    void Timer::start() {
+    inline void Timer::start() {
         active_ = true;
         start_ = std::chrono::steady_clock::now();
     }
 
-    double Timer::get_time() {
+    inline double Timer::get_time() {
         if (active_) {
             auto now = std::chrono::steady_clock::now();
             auto len = std::chrono::duration_cast<std::chrono::nanoseconds>(now - start_);
@@ -81,12 +81,12 @@ namespace hub::tools {
             return duration_;
     }
 
-    void Timer::pause() {
+    inline void Timer::pause() {
         duration_ = get_time();
         active_ = false;
     }
 
-    void Timer::reset() {
+    inline void Timer::reset() {
         active_ = false;
         duration_ = 0;
     }
-- 
2.43.0


From cc1c94055fb5fcbc58949afdde57d4a366fe2f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:52 +0000
Subject: [PATCH 27/52] fix: DEBUG_MODE_ASSERT and the assertions using it
 compile in a DEBUG build

---
 src/core-computation.hpp | 4 ++--
 src/dev-tools.hpp        | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core-computation.hpp b/src/core-computation.hpp
index 3a6417f..53103b4 100644
--- a/src/core-computation.hpp
+++ b/src/core-computation.hpp
@@ -258,7 +258,7 @@ namespace hub::calc {
      */
     template <typename Array1, typename Array2, typename Scalar>
     void array_scale(Array1 &dst, Array2 const &a, Scalar scale) {
-        DEBUG_MODE_ASSERT(b.size() == a.size() || dst.size() >= a.size(), "length of the array mismatch!");
+        DEBUG_MODE_ASSERT(dst.size() <= a.size(), "length of the array mismatch!");
 
         // std::transform(a.begin(), a.end(), dst.begin(), [=](auto x) { return scale * x; });
         size_t const size = dst.size();
@@ -281,7 +281,7 @@ namespace hub::calc {
 
     template <typename Array1, typename Array2, typename Scalar>
     void array_div_scale(Array1 &dst, Array2 const &a, Scalar scale) {
-        DEBUG_MODE_ASSERT(b.size() == a.size() || dst.size() >= a.size(), "length of the array mismatch!");
+        DEBUG_MODE_ASSERT(dst.size() <= a.size(), "length of the array mismatch!");
         // std::transform(a.begin(), a.end(), dst.begin(), [=](auto x) { return x / scale; });
         size_t const size = dst.size();
 //#pragma omp parallel for
diff --git a/src/dev-tools.hpp b/src/dev-tools.hpp
index b0403b1..98d0d61 100644
--- a/src/dev-tools.hpp
+++ b/src/dev-tools.hpp
@@ -117,7 +117,12 @@ namespace hub {
 #endif
 
 #ifdef DEBUG
-#define DEBUG_MODE_ASSERT(EXPR, MSG) ((EXPR) ? void(0) : (spacehub_abort(MSG)))
+#define DEBUG_MODE_ASSERT(EXPR, MSG) \
+    do {                             \
+        if (!(EXPR)) {               \
+            spacehub_abort(MSG);     \
+        }                            \
+    } while (0)
 #else
 #define DEBUG_MODE_ASSERT(EXPR, MSG)
 #endif
-- 
2.43.0


From 005e260f57c29f29ef4ca2001f40850dd9e2fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 28/52] fix: random::Parameter without a lower bound returns
 negative draws too

---
 src/rand-generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand-generator.hpp b/src/rand-generator.hpp
index 30edbe1..d7a0499 100644
--- a/src/rand-generator.hpp
+++ b/src/rand-generator.hpp
@@ -195,7 +195,7 @@ namespace hub::random {
         void set_boundary(double min, double max) { min_ = min, max_ = max; }
 
        private:
-        double min_{std::numeric_limits<double>::min()};
+        double min_{std::numeric_limits<double>::lowest()};
         double max_{std::numeric_limits<double>::max()};
         std::function<double()> dist_;
     };
-- 
2.43.0


From 4b0419c873ecca33eb16d09930d9118ff3c92c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:55 +0000
Subject: [PATCH 29/52] fix: a falling power law is drawn from an ordered
 uniform range

---
 src/rand-generator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rand-generator.hpp b/src/rand-generator.hpp
index d7a0499..550bf91 100644
--- a/src/rand-generator.hpp
+++ b/src/rand-generator.hpp
@@ -79,7 +79,8 @@ namespace hub::random {
             double beta = power + 1;
             double f_low = pow(low, beta);
             double f_high = pow(high, beta);
-            std::uniform_real_distribution<double> dist{f_low, f_high};
+            // the limits swap if beta is negative
+            std::uniform_real_distribution<double> dist{std::min(f_low, f_high), std::max(f_low, f_high)};
             return pow(dist(generator), 1.0 / beta);
         } else {
             return Logarithm(low, high);
-- 
2.43.0


From dfe47e26dfe31101fb2629c6b606d0ce5fa210f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:39 +0000
Subject: [PATCH 30/52] fix: multi_threads_loop runs every item when the count
 is not divisible

---
 src/multi-thread/multi-thread.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/multi-thread/multi-thread.hpp b/src/multi-thread/multi-thread.hpp
index 923af2c..5360206 100644
--- a/src/multi-thread/multi-thread.hpp
+++ b/src/multi-thread/multi-thread.hpp
@@ -58,13 +58,15 @@ namespace hub::multi_thread {
     template <typename Lambda>
     void multi_threads_loop(size_t total_len, size_t thread_num, Lambda &&task) {
         auto len_pth = total_len / thread_num;
+        auto remainder = total_len % thread_num;
         std::vector<std::thread> threads;
         threads.reserve(thread_num);
+        size_t begin = 0;
         for (size_t th_id = 0; th_id < thread_num; ++th_id) {
-            size_t begin = th_id * len_pth;
-            size_t end = begin + len_pth;
-            if (end + len_pth > total_len) end = total_len;
+            // the first `remainder` threads take one more item
+            size_t end = begin + len_pth + (th_id < remainder ? 1 : 0);
             threads.emplace_back(std::thread(std::forward<Lambda>(task), begin, end));
+            begin = end;
         }
 
         for (auto &thread : threads) {
-- 
2.43.0


From 7796b575070e8a1d58a1e88d66963ff3c4adbefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:39 +0000
Subject: [PATCH 31/52] fix: threads of a parallel call get copies of the
 callable and arguments, not moved-from ones

---
 src/multi-thread/multi-thread.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/multi-thread/multi-thread.hpp b/src/multi-thread/multi-thread.hpp
index 5360206..a004bfb 100644
--- a/src/multi-thread/multi-thread.hpp
+++ b/src/multi-thread/multi-thread.hpp
@@ -63,9 +63,9 @@ namespace hub::multi_thread {
         threads.reserve(thread_num);
         size_t begin = 0;
         for (size_t th_id = 0; th_id < thread_num; ++th_id) {
-            // the first `remainder` threads take one more item
+            // the first `remainder` threads take one more item; every thread gets its own copy of the task
             size_t end = begin + len_pth + (th_id < remainder ? 1 : 0);
-            threads.emplace_back(std::thread(std::forward<Lambda>(task), begin, end));
+            threads.emplace_back(std::thread(task, begin, end));
             begin = end;
         }
 
@@ -79,7 +79,7 @@ namespace hub::multi_thread {
         std::vector<std::thread> threads;
         threads.reserve(thread_num);
         for (size_t i = 0; i < thread_num; ++i) {
-            threads.emplace_back(std::thread(std::forward<Callable>(job), std::forward<Args>(args)...));
+            threads.emplace_back(std::thread(job, args...));
         }
 
         for (auto &th : threads) {
@@ -92,7 +92,7 @@ namespace hub::multi_thread {
         std::vector<std::thread> threads;
         threads.reserve(thread_num);
         for (size_t i = 0; i < thread_num; ++i) {
-            threads.emplace_back(std::thread(std::forward<Callable>(job), i, std::forward<Args>(args)...));
+            threads.emplace_back(std::thread(job, i, args...));
         }
 
         for (auto &th : threads) {
-- 
2.43.0


From 382db04620b1b7486c4ef52d5df6952741c49b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:35 +0000
Subject: [PATCH 32/52] fix: extended compensated methods use the extended
 compensated particle types

---
 src/spaceHub.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spaceHub.hpp b/src/spaceHub.hpp
index ff5acc6..5e754f8 100644
--- a/src/spaceHub.hpp
+++ b/src/spaceHub.hpp
@@ -269,7 +269,7 @@ namespace hub {
                                                                                                                        \
     template <typename interactions = DefaultForce, template <typename> typename particle = DefaultParticles>          \
     using NAME##_ExtPlus =                                                                                             \
-        Simulator<system::SYSTEM<particle<details::extended_type>, interactions>, details::ITER##_extplus>;            \
+        Simulator<system::SYSTEM<particle<details::extended_precise_type>, interactions>, details::ITER##_extplus>;    \
                                                                                                                        \
     template <typename interactions = DefaultForce, template <typename> typename particle = DefaultParticles>          \
     using Const_##NAME##_Ext =                                                                                         \
-- 
2.43.0


From 83f64e692c8ff73d91a019362e5db9d632f8f036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:05 +0000
Subject: [PATCH 33/52] fix: chain links of extended systems compare their full
 precision and compile with clang

---
 src/particle-system/chain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particle-system/chain.hpp b/src/particle-system/chain.hpp
index c9e127a..be295e8 100644
--- a/src/particle-system/chain.hpp
+++ b/src/particle-system/chain.hpp
@@ -48,7 +48,7 @@ namespace hub {
             /**
              * @brief Relative distance between two particles.
              */
-            double r;
+            long double r;
             /**
              * @brief The index of the first particle.
              */
-- 
2.43.0


From 7a6b3aee719d0af7b6d7b9b60b06e0913d18e1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:24 +0000
Subject: [PATCH 34/52] fix: unqualified math functions keep the precision of
 their argument

---
 src/dev-tools.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/dev-tools.hpp b/src/dev-tools.hpp
index 98d0d61..5e7f646 100644
--- a/src/dev-tools.hpp
+++ b/src/dev-tools.hpp
@@ -25,12 +25,34 @@ License
 #pragma once
 
 #include <array>
+#include <cmath>
 #include <iostream>
 #include <tuple>
 
 #include "IO.hpp"
 
 namespace hub {
+    // Overloads in the precision of the argument; the unqualified C functions would round every argument to double.
+    using std::acos;
+    using std::acosh;
+    using std::asin;
+    using std::asinh;
+    using std::atan;
+    using std::atan2;
+    using std::atanh;
+    using std::cbrt;
+    using std::cos;
+    using std::cosh;
+    using std::exp;
+    using std::fabs;
+    using std::log;
+    using std::log10;
+    using std::pow;
+    using std::sin;
+    using std::sinh;
+    using std::sqrt;
+    using std::tan;
+    using std::tanh;
 
     template <typename STL, typename... Args>
     void emplace_back(STL &container, Args &&...args) {
-- 
2.43.0


From dd5ad49be78694644399aa707efa42d5a0969072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:10 +0000
Subject: [PATCH 35/52] fix: every energy error writer keeps the initial energy
 of its own simulation

---
 src/args-callback/callbacks.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index 0d9521f..91b7766 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -25,6 +25,7 @@ License
  */
 #pragma once
 
+#include <any>
 #include <cassert>
 #include <cmath>
 #include <fstream>
@@ -296,6 +297,9 @@ namespace hub::callback {
 
        private:
         std::shared_ptr<std::ofstream> fstream_;
+
+        /** The energy at the first call, shared by the copies of one writer like its file. */
+        std::shared_ptr<std::any> E0_{std::make_shared<std::any>()};
     };
 
     /*---------------------------------------------------------------------------*\
@@ -472,8 +476,11 @@ namespace hub::callback {
 
     template <typename ParticleSys>
     void EnergyErrWriter::operator()(ParticleSys& ptc, typename ParticleSys::Scalar step_size) {
-        static typename ParticleSys::Scalar E0 = calc::calc_total_energy(ptc);
-        *fstream_ << ptc.time() << ',' << calc::calc_energy_error(ptc, E0) << '\n';
+        using Scalar = typename ParticleSys::Scalar;
+        if (!E0_->has_value()) {
+            *E0_ = static_cast<Scalar>(calc::calc_total_energy(ptc));
+        }
+        *fstream_ << ptc.time() << ',' << calc::calc_energy_error(ptc, std::any_cast<Scalar>(*E0_)) << '\n';
     }
 
     template <typename T>
-- 
2.43.0


From 34dbd6d6b091b7cd8bbfeab4d86a8040db34b509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:10 +0000
Subject: [PATCH 36/52] fix: automatic file names can be made from several
 threads

---
 src/tools/auto-name.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/auto-name.hpp b/src/tools/auto-name.hpp
index c7b0585..caa27bc 100644
--- a/src/tools/auto-name.hpp
+++ b/src/tools/auto-name.hpp
@@ -6,6 +6,7 @@
 
 #include <ctime>
 #include <iomanip>
+#include <mutex>
 #include <sstream>
 #include <string>
 
@@ -14,7 +15,9 @@ namespace hub::tools {
     inline std::string auto_name(std::string const &prefix = "space_") {
         static int duplicate = 1;
         static std::string last_name;
+        static std::mutex mutex;
 
+        std::lock_guard<std::mutex> lock(mutex);
         auto t = std::time(nullptr);
         auto tm = *std::localtime(&t);
         std::ostringstream oss;
-- 
2.43.0


From 0310120337f6ba963b201c2e63bb9e98ad9e0993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 37/52] fix: the inner period of the Lidov-Kozai time scale
 divides by the mass

---
 src/secular.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/secular.hpp b/src/secular.hpp
index bd69572..f1c8000 100644
--- a/src/secular.hpp
+++ b/src/secular.hpp
@@ -36,7 +36,7 @@ namespace hub::secular {
     template <typename T = double>
     T ELK_quad_timescale(T m1, T m2, T m3, T a1, T a2, T e2) {
         T m_in = m1 + m2;
-        T P = 2 * consts::pi * sqrt(a1 * a1 * a1 / consts::G * m_in);
+        T P = 2 * consts::pi * sqrt(a1 * a1 * a1 / (consts::G * m_in));
         T a_ratio_eff = a2 * sqrt(1 - e2 * e2) / a1;
         return P * m_in / m3 * a_ratio_eff * a_ratio_eff * a_ratio_eff;
     }
-- 
2.43.0


From ad005add9fefa1b2b827b6bcdff9229f0e5598d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 38/52] fix: kB_on_mp is the ratio of kB and the proton mass

---
 src/macros.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.hpp b/src/macros.hpp
index 7833ba1..bdad65e 100644
--- a/src/macros.hpp
+++ b/src/macros.hpp
@@ -101,5 +101,5 @@ namespace hub::consts {
     constexpr double G = 1;
     constexpr double C = 299792.458 * unit::kms;
     constexpr double kB = 1.38064852e-23 * unit::m * unit::m * unit::kg / unit::sec / unit::sec;
-    constexpr double kB_on_mp = 9.294676266398779e-06;
+    constexpr double kB_on_mp = kB / unit::mp;
 }  // namespace hub::consts
-- 
2.43.0


From c57c285aae1edb8587d70226881ed44d71c4c2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:08 +0000
Subject: [PATCH 39/52] fix: stellar radii of extended precision masses compile

---
 src/stellar/stellar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stellar/stellar.hpp b/src/stellar/stellar.hpp
index b17d24d..d97c30d 100644
--- a/src/stellar/stellar.hpp
+++ b/src/stellar/stellar.hpp
@@ -11,7 +11,7 @@ namespace hub::stellar {
     enum class StarType { BH, NS, STAR, WD };
 
     template <typename Scalar>
-    auto stellar_radius(StarType T, Scalar mass) {
+    auto stellar_radius(StarType T, Scalar mass) -> decltype(consts::G * mass) {
         if (T == StarType::BH) {
             return 2 * consts::G * mass / consts::C / consts::C;
         } else if (T == StarType::NS) {
-- 
2.43.0


From 42bc6fe7a879f738395e39a0447722c9763656c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:07 +0000
Subject: [PATCH 40/52] fix: the disc drag models give no drag instead of NaN
 to a body at rest with the gas

---
 src/interaction/alpha-disk.hpp        | 3 +++
 src/interaction/disk-capture-star.hpp | 3 +++
 src/interaction/magneto-disk.hpp      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/interaction/alpha-disk.hpp b/src/interaction/alpha-disk.hpp
index f2ee780..43e75d4 100644
--- a/src/interaction/alpha-disk.hpp
+++ b/src/interaction/alpha-disk.hpp
@@ -110,6 +110,9 @@ namespace hub::force {
             auto rd = r[i];
             auto v2 = dot(v_rel, v_rel);
             auto vabs = sqrt(v2);
+            if (vabs == 0) {
+                continue;  // at rest with the gas: no drag, and no direction
+            }
             auto cs = Omega * H;
             auto Mach = vabs / cs;
 
diff --git a/src/interaction/disk-capture-star.hpp b/src/interaction/disk-capture-star.hpp
index 2285f38..28283fe 100644
--- a/src/interaction/disk-capture-star.hpp
+++ b/src/interaction/disk-capture-star.hpp
@@ -73,6 +73,9 @@ namespace hub::force {
             auto rho = disk_rho(dr, m[0]);
             auto rd = r[i];
             auto vabs = sqrt(dot(v_rel, v_rel));
+            if (vabs == 0) {
+                continue;  // at rest with the gas: no drag, and no direction
+            }
             /*double f1 = consts::pi * rd * rd * rho * dot(v_rel, v_rel);
             double f2 = 4 * consts::pi * consts::G * consts::G * m[i] * m[i] / dot(v_rel, v_rel) * rho;
             acceleration[i] -= std::max(f1, f2) * v_rel / vabs;
diff --git a/src/interaction/magneto-disk.hpp b/src/interaction/magneto-disk.hpp
index 1e3b620..43a4488 100644
--- a/src/interaction/magneto-disk.hpp
+++ b/src/interaction/magneto-disk.hpp
@@ -601,6 +601,9 @@ namespace hub::force {
 
             auto v2 = dot(v_rel, v_rel);
             auto vabs = sqrt(v2);
+            if (vabs == 0) {
+                continue;  // at rest with the gas: no drag, and no direction
+            }
             auto Mach = vabs / cs;
 
             auto rd = R[i];
-- 
2.43.0


From b0759a06549edd9e95667dace91364ba2fd96ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:07 +0000
Subject: [PATCH 41/52] fix: AlphaDisk uses the linear drag factor at a Mach
 number of exactly 0.1

---
 src/interaction/alpha-disk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interaction/alpha-disk.hpp b/src/interaction/alpha-disk.hpp
index 43e75d4..069d60e 100644
--- a/src/interaction/alpha-disk.hpp
+++ b/src/interaction/alpha-disk.hpp
@@ -125,7 +125,7 @@ namespace hub::force {
                     I = (0.5 * log(1 - 1 / (Mach * Mach)) + logR) / (Mach * Mach);
                 } else if ((0.1 < Mach) && (Mach < 1 - eps)) {
                     I = (0.5 * log((1 + Mach) / (1 - Mach)) - Mach) / (Mach * Mach);
-                } else if (Mach < 0.1) {
+                } else if (Mach <= 0.1) {
                     I = Mach / 3.0;
                 } else {
                     I = connect(Mach);
-- 
2.43.0


From 59cfec1fb9210abee8cb65b14baf68530395384d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:07 +0000
Subject: [PATCH 42/52] fix: MagnetoDisk's interpolation stays inside its table
 at the upper end

---
 src/interaction/magneto-disk.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interaction/magneto-disk.hpp b/src/interaction/magneto-disk.hpp
index 43a4488..79b250d 100644
--- a/src/interaction/magneto-disk.hpp
+++ b/src/interaction/magneto-disk.hpp
@@ -24,6 +24,8 @@ License
  */
 #pragma once
 
+#include <algorithm>
+
 #include "../dev-tools.hpp"
 #include "../macros.hpp"
 #include "../spacehub-concepts.hpp"
@@ -570,7 +572,7 @@ namespace hub::force {
         }
         template <typename Scalar>
         static double interpolate(Scalar x, std::vector<double> const &xarry, std::vector<double> const &yarray) {
-            size_t idx = int((x - xarry[0]) / (xarry[1] - xarry[0]));
+            size_t idx = std::min(size_t((x - xarry[0]) / (xarry[1] - xarry[0])), xarry.size() - 2);
             double x0 = xarry[idx];
             double x1 = xarry[idx + 1];
             double y0 = yarray[idx];
-- 
2.43.0


From ce1dca2a0355ce0edec1de5ae203b7760fb4dabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:13 +0000
Subject: [PATCH 43/52] fix: ConfigReader opens its file for reading only, so
 that a write-protected file can be read

---
 src/tools/config-reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/config-reader.hpp b/src/tools/config-reader.hpp
index e4467e7..62a1959 100644
--- a/src/tools/config-reader.hpp
+++ b/src/tools/config-reader.hpp
@@ -66,7 +66,7 @@ namespace hub::tools {
           Class ConfigReader Implementation
     \*---------------------------------------------------------------------------*/
     inline ConfigReader::ConfigReader(std::string const &file_name, char divider, char commenter) {
-        std::fstream file(file_name);
+        std::ifstream file(file_name);
         if (file.is_open()) {
             std::string line;
             while (std::getline(file, line)) {
-- 
2.43.0


From 1ca081f03709baae926d1edd84f82efcb21fa29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:13 +0000
Subject: [PATCH 44/52] fix: OptArg::as handles bool, which flowed off its end,
 and char const*, which could not be instantiated

---
 src/tools/config-reader.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/config-reader.hpp b/src/tools/config-reader.hpp
index 62a1959..aea575a 100644
--- a/src/tools/config-reader.hpp
+++ b/src/tools/config-reader.hpp
@@ -157,7 +157,9 @@ namespace hub::tools {
                 return std::stoul(opt_);
             } else if constexpr (std::is_same_v<T, unsigned long long>) {
                 return std::stoull(opt_);
-            } else if constexpr (std::is_same_v<T, char *>) {
+            } else if constexpr (std::is_same_v<T, bool>) {
+                return static_cast<bool>(std::stoi(opt_));
+            } else if constexpr (std::is_same_v<T, char const *>) {
                 return opt_.c_str();
             } else if constexpr (std::is_same_v<T, std::string>) {
                 return opt_;
-- 
2.43.0


From 783c43d9a112acdd4ac15933eae3eab6c35aa0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:56 +0000
Subject: [PATCH 45/52] fix: StickyCollision can be called and reads the
 positions of today's particle systems

---
 src/args-callback/collision.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/args-callback/collision.hpp b/src/args-callback/collision.hpp
index 34063da..301d6f2 100644
--- a/src/args-callback/collision.hpp
+++ b/src/args-callback/collision.hpp
@@ -35,6 +35,7 @@ namespace hub::callback {
      *
      */
     class StickyCollision {
+       public:
         /**
          * @brief Callable interface for collision detection.
          *
@@ -48,20 +49,13 @@ namespace hub::callback {
         bool operator()(ParticleSys const &ptc, typename ParticleSys::Scalar step_size) {
             static_assert(HAS_METHOD(ParticleSys, radius), "Particle system doesn't have method radius()");
 
-            auto const &px = ptc.pos().x;
-            auto const &py = ptc.pos().y;
-            auto const &pz = ptc.pos().z;
-
+            auto const &p = ptc.pos();
             auto const &r = ptc.radius();
 
             size_t num = ptc.number();
             for (size_t i = 0; i < num; ++i) {
                 for (size_t j = i + 1; j < num; ++j) {
-                    auto dx = px[i] - px[j];
-                    auto dy = py[i] - py[j];
-                    auto dz = pz[i] - pz[j];
-
-                    if (sqrt(dx * dx + dy * dy + dz * dz) <= r[i] + r[j]) {
+                    if (distance(p[i], p[j]) <= r[i] + r[j]) {
                         return true;
                     }
                 }
-- 
2.43.0


From 743e9615aa8d3f167fe0f7a72beda92f8bdec5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:10 +0000
Subject: [PATCH 46/52] fix: ThreadPool sets its stop flag under the lock, so
 that no worker misses the wake-up

---
 src/multi-thread/thread_pool.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/multi-thread/thread_pool.h b/src/multi-thread/thread_pool.h
index c821302..6459ba2 100644
--- a/src/multi-thread/thread_pool.h
+++ b/src/multi-thread/thread_pool.h
@@ -69,7 +69,10 @@ namespace hub::multi_thread {
     }
 
     inline ThreadPool::~ThreadPool() {
-        stop_ = true;
+        {
+            std::lock_guard<std::mutex> lock(lock_);
+            stop_ = true;
+        }
         cv_.notify_all();
         for (auto &worker : workers_) {
             if (worker.joinable()) worker.join();
-- 
2.43.0


From 42864264cbc39a717c135bd12a0c98b5663a589d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:10 +0000
Subject: [PATCH 47/52] fix: ConcurrentDeque sets its stop flag under the lock,
 so that no waiting pop misses the wake-up

---
 src/multi-thread/concurrent-queue.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/multi-thread/concurrent-queue.h b/src/multi-thread/concurrent-queue.h
index 313a888..bd19824 100644
--- a/src/multi-thread/concurrent-queue.h
+++ b/src/multi-thread/concurrent-queue.h
@@ -27,7 +27,10 @@ namespace hub::multi_thread {
         }
 
         void stop() {
-            stop_ = true;
+            {
+                std::lock_guard<std::mutex> lock(mutex_);
+                stop_ = true;
+            }
             cv_.notify_all();
         }
 
-- 
2.43.0


From 6d285efcf44b4ac087c50c13a71dff458cf809b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:10 +0000
Subject: [PATCH 48/52] fix: the pops of ConcurrentDeque wait with a lock that
 can be released, and compile

---
 src/multi-thread/concurrent-queue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multi-thread/concurrent-queue.h b/src/multi-thread/concurrent-queue.h
index bd19824..0268a3f 100644
--- a/src/multi-thread/concurrent-queue.h
+++ b/src/multi-thread/concurrent-queue.h
@@ -44,7 +44,7 @@ namespace hub::multi_thread {
         }
 
         bool try_pop_front(T &data) noexcept {
-            std::lock_guard<std::mutex> lock(mutex_);
+            std::unique_lock<std::mutex> lock(mutex_);
             while (!stop_ && deque_.empty()) {
                 cv_.wait(lock);
             }
@@ -56,7 +56,7 @@ namespace hub::multi_thread {
         }
 
         bool try_pop_back(T &data) noexcept {
-            std::lock_guard<std::mutex> lock(mutex_);
+            std::unique_lock<std::mutex> lock(mutex_);
             while (!stop_ && deque_.empty()) {
                 cv_.wait(lock);
             }
-- 
2.43.0


From 381ffd106045a08851c5b0302f11d0d056561314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:10 +0000
Subject: [PATCH 49/52] fix: the flags of the file pipes are initialised before
 the thread that reads them starts

---
 src/multi-thread/ciostream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multi-thread/ciostream.hpp b/src/multi-thread/ciostream.hpp
index 1a2bf1b..91af6ec 100644
--- a/src/multi-thread/ciostream.hpp
+++ b/src/multi-thread/ciostream.hpp
@@ -57,8 +57,8 @@ namespace hub::multi_thread {
         std::mutex mutex_;
         std::condition_variable cv_;
         std::fstream file_;
-        std::thread thread_;
         bool stop_{false};
+        std::thread thread_;  // last, it uses all the others
     };
 
     template <typename T>
@@ -121,9 +121,9 @@ namespace hub::multi_thread {
         std::condition_variable cv_load_;
         std::condition_variable cv_io_;
         std::fstream file_;
-        std::thread thread_;
         bool stop_{false};
         bool eoq_{false};
+        std::thread thread_;  // last, it uses all the others
     };
 
     template <typename T>
-- 
2.43.0


From c080fb3ae016fd9abb6f883a917cb759acccb91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:10 +0000
Subject: [PATCH 50/52] fix: the input pipe delivers only records it has read,
 and ends at unreadable data

---
 src/multi-thread/ciostream.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/multi-thread/ciostream.hpp b/src/multi-thread/ciostream.hpp
index 91af6ec..c64ff8d 100644
--- a/src/multi-thread/ciostream.hpp
+++ b/src/multi-thread/ciostream.hpp
@@ -66,16 +66,16 @@ namespace hub::multi_thread {
        public:
         explicit Ipip(const char *file_name)
             : file_(file_name, std::fstream::in), thread_(std::thread([&] {
-                  while (!file_.eof()) {
+                  while (file_) {
                       {
                           std::unique_lock<std::mutex> lock(mutex_);
                           cv_load_.wait(lock, [&] { return stop_ || queue_.empty(); });
 
                           if (stop_) break;
 
-                          for (size_t i = 0; i < 100 && !file_.eof(); ++i) {
+                          for (size_t i = 0; i < 100; ++i) {
                               T data;
-                              file_ >> data;
+                              if (!(file_ >> data)) break;
                               queue_.emplace(std::move(data));
                           }
                       }
-- 
2.43.0


From b5e997696d1da8edb75d16fe342d5e4d43c55068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:10 +0000
Subject: [PATCH 51/52] fix: the operators of Costream and Cistream compile for
 named records, and reading tells the end of the file

---
 src/multi-thread/ciostream.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/multi-thread/ciostream.hpp b/src/multi-thread/ciostream.hpp
index c64ff8d..9b270a0 100644
--- a/src/multi-thread/ciostream.hpp
+++ b/src/multi-thread/ciostream.hpp
@@ -101,7 +101,7 @@ namespace hub::multi_thread {
             if (thread_.joinable()) thread_.join();
         }
 
-        friend bool operator>>(Ipip &in, T &&tup) {
+        friend bool operator>>(Ipip &in, T &tup) {
             std::unique_lock<std::mutex> lock(in.mutex_);
             in.cv_io_.wait(lock, [&] { return in.eoq_ || !in.queue_.empty(); });
 
@@ -144,7 +144,7 @@ namespace hub::multi_thread {
             return *this;
         }
 
-        friend void operator<<(Costream &out, T const &tup) { *(out.pip_ptr_) << tup; }
+        friend void operator<<(Costream &out, T const &tup) { *(out.pip_ptr_) << T(tup); }
 
        private:
         std::unique_ptr<Opip<T>> pip_ptr_;
@@ -157,7 +157,7 @@ namespace hub::multi_thread {
 
         explicit Cistream(std::string &file_name) : Cistream(file_name.c_str()) {}
 
-        friend void operator>>(Cistream &in, T &&tup) { *(in.pip_ptr_) >> std::forward<T>(tup); }
+        friend bool operator>>(Cistream &in, T &tup) { return *(in.pip_ptr_) >> tup; }
 
        private:
         std::shared_ptr<Ipip<T>> pip_ptr_;
-- 
2.43.0


From 05da7f83488626979e0adac6ead3306ca9ceb0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:54 +0000
Subject: [PATCH 52/52] fix: max-ratio error of equal results without scale is
 zero, not NaN

---
 src/ode-iterator/error-checker/max-ratio-error.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode-iterator/error-checker/max-ratio-error.hpp b/src/ode-iterator/error-checker/max-ratio-error.hpp
index 452b65b..4654b3d 100644
--- a/src/ode-iterator/error-checker/max-ratio-error.hpp
+++ b/src/ode-iterator/error-checker/max-ratio-error.hpp
@@ -137,7 +137,7 @@ namespace hub::ode {
         } else {
             spacehub_abort("Unsupported array type!");
         }
-        return max_diff / max_scale;
+        return max_diff == 0 ? Scalar{0} : max_diff / max_scale;  // equal results have no error, whatever their scale
     }
 
     template <typename TypeSystem>
@@ -159,6 +159,6 @@ namespace hub::ode {
         } else {
             spacehub_abort("Unsupported array type!");
         }
-        return max_diff / max_scale;
+        return max_diff == 0 ? Scalar{0} : max_diff / max_scale;  // equal results have no error, whatever their scale
     }
 }  // namespace hub::ode
-- 
2.43.0

