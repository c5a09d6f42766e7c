From 034f934927cd96dc615345b050d45811cd651cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 01/95] fix: time step list must always reach the requested end
 time

---
 .../include/diskpp/mechanics/NewtonSolver/TimeManager.hpp  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp
index 90c178e..ae058ec 100644
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp
@@ -136,9 +136,12 @@ class ListOfTimeStep
 
         for (I i = 0; i < n_step; i++)
         {
-            if ((start_time + (i + 1) * delta_t) <= user_end_time)
+            // the last step ends exactly at end_time (no round-off)
+            const T step_end = (i + 1 == n_step) ? end_time : start_time + (i + 1) * delta_t;
+
+            if (step_end <= user_end_time)
             {
-                const TimeStep<T> step(start_time + i * delta_t, start_time + (i + 1) * delta_t, level);
+                const TimeStep<T> step(start_time + i * delta_t, step_end, level);
                 list_steps.push_back(step);
             }
         }
-- 
2.43.0


From 3b20a2b1ef6df2f74c96c5298e2975a23682d659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 02/95] fix: mapped_file never touches memory or descriptors it
 does not own

---
 libdiskpp/src/common/mapped_file.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/libdiskpp/src/common/mapped_file.cpp b/libdiskpp/src/common/mapped_file.cpp
index 45cf388..2175a2c 100644
--- a/libdiskpp/src/common/mapped_file.cpp
+++ b/libdiskpp/src/common/mapped_file.cpp
@@ -64,11 +64,12 @@
 #include "diskpp/common/mapped_file.h"
 
 mapped_file::mapped_file()
-    : m_is_open(false)
+    : m_start(nullptr), m_end(nullptr), m_fd(-1), m_length(0), m_addr(nullptr),
+      m_is_open(false)
 {}
 
 mapped_file::mapped_file(const std::string& name)
-    : m_is_open(false)
+    : mapped_file()
 {
     open(name);
 }
@@ -81,13 +82,16 @@ mapped_file::~mapped_file()
 void
 mapped_file::open(const std::string& name)
 {
+    close();
     m_is_open = map(name);
 }
 
 void
 mapped_file::close(void)
 {
-    unmap();
+    if (m_is_open)
+        unmap();
+    m_is_open = false;
 }
 
 bool
@@ -136,6 +140,9 @@ mapped_file::unmap(void)
 {
     munmap((void *)m_addr, m_length);
     ::close(m_fd);
+    m_fd = -1;
+    m_length = 0;
+    m_start = m_end = m_addr = nullptr;
     return true;
 }
 
@@ -154,14 +161,17 @@ mapped_file::end(void) const
 std::string
 mapped_file::get_line(void)
 {
-    auto old = m_start;
-    m_start = static_cast<const char *>(memchr(m_start, '\n', m_end - m_start));
     if (!m_start)
         throw std::out_of_range("");
 
-    m_start++;
+    auto eol = static_cast<const char *>(memchr(m_start, '\n', m_end - m_start));
+    if (!eol)
+        throw std::out_of_range("");
+
+    auto old = m_start;
+    m_start = eol + 1;
 
-    return std::string(old, m_start-1);
+    return std::string(old, eol);
 }
 
 const char *
-- 
2.43.0


From 3c490efad6f8c16b52f8677a8e97954f55d113cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:20 +0000
Subject: [PATCH 03/95] fix: rational keeps its denominator positive after
 multiplication and division

---
 libdiskpp/include/diskpp/mesh/rational.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mesh/rational.hpp b/libdiskpp/include/diskpp/mesh/rational.hpp
index 320e067..b8ed006 100644
--- a/libdiskpp/include/diskpp/mesh/rational.hpp
+++ b/libdiskpp/include/diskpp/mesh/rational.hpp
@@ -179,7 +179,8 @@ public:
 
 		m_num = a*c;
 		m_den = b*d;
-		//assert(m_den > 0);
+		adjust_signs();
+		assert(m_den > 0);
 		return *this;
 	}
 
@@ -216,6 +217,7 @@ public:
     {
         m_den *= other;
         assert(m_den != 0);
+        adjust_signs();
         return *this;
     }
 
-- 
2.43.0


From 4a4a5d1f92b128a4fc1ace0b0153bf6585947ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:13 +0000
Subject: [PATCH 04/95] fix: unpack the yz component of a symmetric 3D tensor
 into its own place

---
 .../include/diskpp/mechanics/behaviors/tensor_conversion.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp
index 51d4cd9..53672ed 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp
@@ -285,7 +285,7 @@ convertMatrixFromMgis(const std::vector<T2>& mat_vec, static_matrix<T, 3, 3>& ma
             mat(1, 0)    = mat(0, 1);
             mat(0, 2)    = mat_vec[4] / sqrt(2.);
             mat(2, 0)    = mat(0, 2);
-            mat(0, 1)    = mat_vec[5] / sqrt(2.);
+            mat(1, 2)    = mat_vec[5] / sqrt(2.);
             mat(2, 1)    = mat(1, 2);
             break;
         }
-- 
2.43.0


From 938401fc3b6a29710db9f0e699eb1199cb82c0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:13 +0000
Subject: [PATCH 05/95] fix: unpack 6x6 tangent operators in the ordering and
 scaling used for stresses

---
 .../mechanics/behaviors/tensor_conversion.hpp | 108 +++---------------
 1 file changed, 18 insertions(+), 90 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp
index 53672ed..43a13f8 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp
@@ -388,96 +388,24 @@ convertTensorFromMgis(const std::vector<T2>& tens_vec, static_tensor<T, 3>& tens
 
         case 36:
         {
-            const T rac2 = sqrt(2.);
-            coeff<T, 3>(tens, 0, 0, 0, 0, tens_vec[0]);
-            coeff<T, 3>(tens, 0, 0, 1, 1, tens_vec[1]);
-            coeff<T, 3>(tens, 0, 0, 2, 2, tens_vec[2]);
-            coeff<T, 3>(tens, 0, 0, 1, 2, tens_vec[3] / rac2);
-            coeff<T, 3>(tens, 0, 0, 2, 1, coeff<T, 3>(tens, 0, 0, 1, 2));
-            coeff<T, 3>(tens, 0, 0, 2, 0, tens_vec[4] / rac2);
-            coeff<T, 3>(tens, 0, 0, 0, 2, coeff<T, 3>(tens, 0, 0, 2, 0));
-            coeff<T, 3>(tens, 0, 0, 0, 1, tens_vec[5] / rac2);
-            coeff<T, 3>(tens, 0, 0, 1, 0, coeff<T, 3>(tens, 0, 0, 0, 1));
-            //
-            coeff<T, 3>(tens, 1, 1, 0, 0, tens_vec[6]);
-            coeff<T, 3>(tens, 1, 1, 1, 1, tens_vec[7]);
-            coeff<T, 3>(tens, 1, 1, 2, 2, tens_vec[8]);
-            coeff<T, 3>(tens, 1, 1, 1, 2, tens_vec[9] / rac2);
-            coeff<T, 3>(tens, 1, 1, 2, 1, coeff<T, 3>(tens, 1, 1, 1, 2));
-            coeff<T, 3>(tens, 1, 1, 2, 0, tens_vec[10] / rac2);
-            coeff<T, 3>(tens, 1, 1, 0, 2, coeff<T, 3>(tens, 1, 1, 2, 0));
-            coeff<T, 3>(tens, 1, 1, 0, 1, tens_vec[11] / rac2);
-            coeff<T, 3>(tens, 1, 1, 1, 0, coeff<T, 3>(tens, 1, 1, 0, 1));
-            //
-            coeff<T, 3>(tens, 2, 2, 0, 0, tens_vec[12]);
-            coeff<T, 3>(tens, 2, 2, 1, 1, tens_vec[13]);
-            coeff<T, 3>(tens, 2, 2, 2, 2, tens_vec[14]);
-            coeff<T, 3>(tens, 2, 2, 1, 2, tens_vec[15] / rac2);
-            coeff<T, 3>(tens, 2, 2, 2, 1, coeff<T, 3>(tens, 2, 2, 1, 2));
-            coeff<T, 3>(tens, 2, 2, 2, 0, tens_vec[16] / rac2);
-            coeff<T, 3>(tens, 2, 2, 0, 2, coeff<T, 3>(tens, 2, 2, 2, 0));
-            coeff<T, 3>(tens, 2, 2, 0, 1, tens_vec[17] / rac2);
-            coeff<T, 3>(tens, 2, 2, 1, 0, coeff<T, 3>(tens, 2, 2, 0, 1));
-            //
-            coeff<T, 3>(tens, 1, 2, 0, 0, tens_vec[18] / rac2);
-            coeff<T, 3>(tens, 1, 2, 1, 1, tens_vec[19] / rac2);
-            coeff<T, 3>(tens, 1, 2, 2, 2, tens_vec[20] / rac2);
-            coeff<T, 3>(tens, 1, 2, 1, 2, tens_vec[21] / 2.);
-            coeff<T, 3>(tens, 1, 2, 2, 1, coeff<T, 3>(tens, 1, 2, 1, 2));
-            coeff<T, 3>(tens, 1, 2, 2, 0, tens_vec[22] / 2.);
-            coeff<T, 3>(tens, 1, 2, 0, 2, coeff<T, 3>(tens, 1, 2, 2, 0));
-            coeff<T, 3>(tens, 1, 2, 0, 1, tens_vec[23] / 2.);
-            coeff<T, 3>(tens, 1, 2, 1, 0, coeff<T, 3>(tens, 1, 2, 0, 1));
-            //
-            coeff<T, 3>(tens, 2, 0, 0, 0, tens_vec[24] / rac2);
-            coeff<T, 3>(tens, 2, 0, 1, 1, tens_vec[25] / rac2);
-            coeff<T, 3>(tens, 2, 0, 2, 2, tens_vec[26] / rac2);
-            coeff<T, 3>(tens, 2, 0, 1, 2, tens_vec[27] / 2.);
-            coeff<T, 3>(tens, 2, 0, 2, 1, coeff<T, 3>(tens, 2, 0, 1, 2));
-            coeff<T, 3>(tens, 2, 0, 2, 0, tens_vec[28] / 2.);
-            coeff<T, 3>(tens, 2, 0, 0, 2, coeff<T, 3>(tens, 2, 0, 2, 0));
-            coeff<T, 3>(tens, 2, 0, 0, 1, tens_vec[29] / 2.);
-            coeff<T, 3>(tens, 2, 0, 1, 0, coeff<T, 3>(tens, 2, 0, 0, 1));
-            //
-            coeff<T, 3>(tens, 0, 1, 0, 0, tens_vec[30] / rac2);
-            coeff<T, 3>(tens, 0, 1, 1, 1, tens_vec[31] / rac2);
-            coeff<T, 3>(tens, 0, 1, 2, 2, tens_vec[32] / 2.);
-            coeff<T, 3>(tens, 0, 1, 1, 2, tens_vec[33] / 2.);
-            coeff<T, 3>(tens, 0, 1, 2, 1, coeff<T, 3>(tens, 0, 1, 1, 2));
-            coeff<T, 3>(tens, 0, 1, 2, 0, tens_vec[34] / rac2);
-            coeff<T, 3>(tens, 0, 1, 0, 2, coeff<T, 3>(tens, 0, 1, 2, 0));
-            coeff<T, 3>(tens, 0, 1, 0, 1, tens_vec[35] / 2.);
-            coeff<T, 3>(tens, 0, 1, 1, 0, coeff<T, 3>(tens, 0, 1, 0, 1));
-            //
-            coeff<T, 3>(tens, 2, 1, 0, 0, coeff<T, 3>(tens, 1, 2, 0, 0));
-            coeff<T, 3>(tens, 2, 1, 1, 1, coeff<T, 3>(tens, 1, 2, 1, 1));
-            coeff<T, 3>(tens, 2, 1, 2, 2, coeff<T, 3>(tens, 1, 2, 2, 2));
-            coeff<T, 3>(tens, 2, 1, 1, 2, coeff<T, 3>(tens, 1, 2, 1, 2));
-            coeff<T, 3>(tens, 2, 1, 2, 1, coeff<T, 3>(tens, 1, 2, 2, 1));
-            coeff<T, 3>(tens, 2, 1, 2, 0, coeff<T, 3>(tens, 1, 2, 2, 0));
-            coeff<T, 3>(tens, 2, 1, 0, 2, coeff<T, 3>(tens, 1, 2, 0, 2));
-            coeff<T, 3>(tens, 2, 1, 0, 1, coeff<T, 3>(tens, 1, 2, 0, 1));
-            coeff<T, 3>(tens, 2, 1, 1, 0, coeff<T, 3>(tens, 1, 2, 1, 0));
-            //
-            coeff<T, 3>(tens, 0, 2, 0, 0, coeff<T, 3>(tens, 2, 0, 0, 0));
-            coeff<T, 3>(tens, 0, 2, 1, 1, coeff<T, 3>(tens, 2, 0, 1, 1));
-            coeff<T, 3>(tens, 0, 2, 2, 2, coeff<T, 3>(tens, 2, 0, 2, 2));
-            coeff<T, 3>(tens, 0, 2, 1, 2, coeff<T, 3>(tens, 2, 0, 1, 2));
-            coeff<T, 3>(tens, 0, 2, 2, 1, coeff<T, 3>(tens, 2, 0, 2, 1));
-            coeff<T, 3>(tens, 0, 2, 2, 0, coeff<T, 3>(tens, 2, 0, 2, 0));
-            coeff<T, 3>(tens, 0, 2, 0, 2, coeff<T, 3>(tens, 2, 0, 0, 2));
-            coeff<T, 3>(tens, 0, 2, 0, 1, coeff<T, 3>(tens, 2, 0, 0, 1));
-            coeff<T, 3>(tens, 0, 2, 1, 0, coeff<T, 3>(tens, 2, 0, 1, 0));
-            //
-            coeff<T, 3>(tens, 1, 0, 0, 0, coeff<T, 3>(tens, 0, 1, 0, 0));
-            coeff<T, 3>(tens, 1, 0, 1, 1, coeff<T, 3>(tens, 0, 1, 1, 1));
-            coeff<T, 3>(tens, 1, 0, 2, 2, coeff<T, 3>(tens, 0, 1, 2, 2));
-            coeff<T, 3>(tens, 1, 0, 1, 2, coeff<T, 3>(tens, 0, 1, 1, 2));
-            coeff<T, 3>(tens, 1, 0, 2, 1, coeff<T, 3>(tens, 0, 1, 2, 1));
-            coeff<T, 3>(tens, 1, 0, 2, 0, coeff<T, 3>(tens, 0, 1, 2, 0));
-            coeff<T, 3>(tens, 1, 0, 0, 2, coeff<T, 3>(tens, 0, 1, 0, 2));
-            coeff<T, 3>(tens, 1, 0, 0, 1, coeff<T, 3>(tens, 0, 1, 0, 1));
-            coeff<T, 3>(tens, 1, 0, 1, 0, coeff<T, 3>(tens, 0, 1, 1, 0));
+            // same ordering as convertMatrixToMgis: xx, yy, zz, xy, xz, yz
+            const int row[6] = {0, 1, 2, 0, 0, 1};
+            const int col[6] = {0, 1, 2, 1, 2, 2};
+            const T   rac2   = sqrt(2.);
+
+            for (int a = 0; a < 6; a++)
+            {
+                for (int b = 0; b < 6; b++)
+                {
+                    const int i = row[a], j = col[a], k = row[b], l = col[b];
+                    const T   val = tens_vec[6 * a + b] / ((a < 3 ? T(1) : rac2) * (b < 3 ? T(1) : rac2));
+
+                    coeff<T, 3>(tens, i, j, k, l, val);
+                    coeff<T, 3>(tens, i, j, l, k, val);
+                    coeff<T, 3>(tens, j, i, k, l, val);
+                    coeff<T, 3>(tens, j, i, l, k, val);
+                }
+            }
             break;
         }
 
-- 
2.43.0


From 43dba2772218d7287889fb5375a3653d1493fa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:13 +0000
Subject: [PATCH 06/95] fix: linearized strain is the symmetric part of the
 gradient

---
 libdiskpp/include/diskpp/mechanics/deformation_tensors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mechanics/deformation_tensors.hpp b/libdiskpp/include/diskpp/mechanics/deformation_tensors.hpp
index c984050..e94f02a 100755
--- a/libdiskpp/include/diskpp/mechanics/deformation_tensors.hpp
+++ b/libdiskpp/include/diskpp/mechanics/deformation_tensors.hpp
@@ -41,7 +41,7 @@ template<typename T, int DIM>
 static_matrix<T, DIM, DIM>
 convertGtoLinearizedStrain(const static_matrix<T, DIM, DIM>& Gradient)
 {
-    return 0.5 * Gradient * Gradient.transpose();
+    return T(0.5) * (Gradient + Gradient.transpose());
 }
 
 // Compute F = G + I
-- 
2.43.0


From a1469a568ebd378199c066f229febadd19764302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:52 +0000
Subject: [PATCH 07/95] fix: the Neo-Hookean energy can be evaluated

---
 .../mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
index 56628c7..2560a3d 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
@@ -202,7 +202,7 @@ class Neohookean_qp : public law_qp_bones<T, DIM>
             throw std::invalid_argument(mess);
         }
 
-        const static_matrix_type3D C = convertFtoCauchyGreenRight(this->m_estrain_curr);
+        const static_matrix_type3D C = mechanics::convertFtoCauchyGreenRight(this->m_estrain_curr);
 
         const scalar_type Wiso = data.getMu() / 2.0 * (C.trace() - 3);
         const scalar_type Wvol =
-- 
2.43.0


From 6f58a254d208780ebd101790ada2c0aa3a4f23aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:52 +0000
Subject: [PATCH 08/95] fix: volumetric energy 1-1/J of the hyperelastic laws
 matches their stress

---
 .../mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp       | 2 +-
 .../mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
index 64a7221..ab8f40d 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
@@ -85,7 +85,7 @@ class Cavitation_qp : public law_qp_bones<T, DIM>
             case 1: return log(J);
             case 2: return (J - 1.0);
             case 3: return log10(J);
-            case 4: return 1.0 / (1.0 - J);
+            case 4: return 1.0 - 1.0 / J;
             case 5: return (J * J - 1.0);
             case 6: return sqrt((J * J - 1.0 - 2.0 * log(J)) / 2.0);
 
diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
index 2560a3d..e79f24d 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
@@ -84,7 +84,7 @@ class Neohookean_qp : public law_qp_bones<T, DIM>
             case 1: return log(J);
             case 2: return (J - 1.0);
             case 3: return log10(J);
-            case 4: return 1.0 / (1.0 - J);
+            case 4: return 1.0 - 1.0 / J;
             case 5: return (J * J - 1.0);
             case 6: return sqrt((J * J - 1.0 - 2.0 * log(J)) / 2.0);
 
-- 
2.43.0


From f7fbd896699fe313ab7adff411f1f3e096825b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 09/95] fix: log-strain coefficients of two coincident
 stretches use the coincident pair

---
 .../behaviors/logarithmic_strain/logarithmic_tools.hpp    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
index 32a8190..2375483 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
@@ -360,7 +360,7 @@ compute_two_equal(const static_vector<T, 3>& lambda_i,
             xi(1, 2) = (theta(1, 2) - di(2) / T(2)) / (lambda_i(1) - lambda_i(2));
             xi(2, 1) = (theta(2, 1) - di(1) / T(2)) / (lambda_i(2) - lambda_i(1));
 
-            eta = xi(0, 1);
+            eta = xi(1, 0);
             break;
         }
         case TWO_EQUAL12:
@@ -371,7 +371,7 @@ compute_two_equal(const static_vector<T, 3>& lambda_i,
             theta(0, 2) = (ei(0) - ei(2)) / (lambda_i(0) - lambda_i(2));
             theta(2, 0) = theta(0, 2);
 
-            theta(1, 2) = di(0) / T(2);
+            theta(1, 2) = di(1) / T(2);
             theta(2, 1) = theta(1, 2);
 
             xi(0, 1) = (theta(0, 1) - di(1) / T(2)) / (lambda_i(0) - lambda_i(1));
@@ -380,10 +380,10 @@ compute_two_equal(const static_vector<T, 3>& lambda_i,
             xi(0, 2) = (theta(0, 2) - di(2) / T(2)) / (lambda_i(0) - lambda_i(2));
             xi(2, 0) = (theta(2, 0) - di(0) / T(2)) / (lambda_i(2) - lambda_i(0));
 
-            xi(1, 2) = fi(0) / T(8);
+            xi(1, 2) = fi(1) / T(8);
             xi(2, 1) = xi(1, 2);
 
-            eta = xi(1, 2);
+            eta = xi(0, 1);
             break;
         }
         default: std::invalid_argument("LogarithmicStrain: Wrong case");
-- 
2.43.0


From a21d412daed16cc1540e2fd6682964806d19e8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:25 +0000
Subject: [PATCH 10/95] fix: log-strain tangent does not cancel for nearly
 coincident stretches

---
 .../logarithmic_strain/logarithmic_tools.hpp  | 43 ++++++++++---------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
index 2375483..3ae9914 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
@@ -197,15 +197,24 @@ namespace priv
 {
 template<class T>
 typename std::enable_if<!std::numeric_limits<T>::is_integer, bool>::type
-almost_equal(T x, T y, int ulp = 2)
+almost_equal(T x, T y)
 {
-    // the machine epsilon has to be scaled to the magnitude of the values used
-    // and multiplied by the desired precision in ULPs (units in the last place)
-    return std::abs(x - y) <= std::numeric_limits<T>::epsilon() * std::abs(x + y) * ulp
+    // below this relative distance the divided differences of the logarithm are
+    // dominated by cancellation, and their coincident limit is more accurate
+    const T tol = std::sqrt(std::numeric_limits<T>::epsilon());
+    return std::abs(x - y) <= tol * std::abs(x + y)
            // unless the result is subnormal
            || std::abs(x - y) < std::numeric_limits<T>::min();
 }
 
+// slope of log(lambda)/2 between two distinct values, without cancellation
+template<typename T>
+T
+half_log_slope(T x, T y)
+{
+    return std::log1p((x - y) / y) / (T(2) * (x - y));
+}
+
 template<typename T>
 int
 selectCase(const static_vector<T, 3>& lambda_i)
@@ -256,21 +265,15 @@ compute_three_diff(const static_vector<T, 3>& lambda_i, const static_vector<T, 3
             if (j != i)
             {
                 const T lilj = lambda_i(i) - lambda_i(j);
-                theta(i, j)  = (ei(i) - ei(j)) / lilj;
+                theta(i, j)  = half_log_slope(lambda_i(i), lambda_i(j));
                 xi(i, j)     = (theta(i, j) - di(j) / T(2)) / lilj;
-
-                for (int k = 0; k < 3; k++)
-                {
-                    if (k != i && k != j)
-                    {
-                        const T lilk = lambda_i(i) - lambda_i(k);
-                        eta += ei(i) / (T(2) * lilj * lilk);
-                    }
-                }
             }
         }
     }
 
+    // second divided difference, over the two farthest values
+    eta = (theta(0, 1) - theta(1, 2)) / (lambda_i(0) - lambda_i(2));
+
     return std::make_tuple(theta, xi, eta);
 }
 
@@ -321,10 +324,10 @@ compute_two_equal(const static_vector<T, 3>& lambda_i,
             theta(0, 1) = di(0) / T(2);
             theta(1, 0) = theta(0, 1);
 
-            theta(0, 2) = (ei(0) - ei(2)) / (lambda_i(0) - lambda_i(2));
+            theta(0, 2) = half_log_slope(lambda_i(0), lambda_i(2));
             theta(2, 0) = theta(0, 2);
 
-            theta(1, 2) = (ei(1) - ei(2)) / (lambda_i(1) - lambda_i(2));
+            theta(1, 2) = half_log_slope(lambda_i(1), lambda_i(2));
             theta(2, 1) = theta(1, 2);
 
             xi(0, 1) = fi(0) / T(8);
@@ -342,13 +345,13 @@ compute_two_equal(const static_vector<T, 3>& lambda_i,
         }
         case TWO_EQUAL02:
         {
-            theta(0, 1) = (ei(0) - ei(1)) / (lambda_i(0) - lambda_i(1));
+            theta(0, 1) = half_log_slope(lambda_i(0), lambda_i(1));
             theta(1, 0) = theta(0, 1);
 
             theta(0, 2) = di(0) / T(2);
             theta(2, 0) = theta(0, 2);
 
-            theta(1, 2) = (ei(1) - ei(2)) / (lambda_i(1) - lambda_i(2));
+            theta(1, 2) = half_log_slope(lambda_i(1), lambda_i(2));
             theta(2, 1) = theta(1, 2);
 
             xi(0, 1) = (theta(0, 1) - di(1) / T(2)) / (lambda_i(0) - lambda_i(1));
@@ -365,10 +368,10 @@ compute_two_equal(const static_vector<T, 3>& lambda_i,
         }
         case TWO_EQUAL12:
         {
-            theta(0, 1) = (ei(0) - ei(1)) / (lambda_i(0) - lambda_i(1));
+            theta(0, 1) = half_log_slope(lambda_i(0), lambda_i(1));
             theta(1, 0) = theta(0, 1);
 
-            theta(0, 2) = (ei(0) - ei(2)) / (lambda_i(0) - lambda_i(2));
+            theta(0, 2) = half_log_slope(lambda_i(0), lambda_i(2));
             theta(2, 0) = theta(0, 2);
 
             theta(1, 2) = di(1) / T(2);
-- 
2.43.0


From 48c75ac4afcf21f9b9c7f84cfb4970e90a5ecc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:15 +0000
Subject: [PATCH 11/95] fix: plastic laws accept strains whose deviator
 vanishes up to rounding

---
 .../IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp  | 5 ++---
 .../LinearIsotropicAndKinematicHardening_qp.hpp           | 8 +++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp
index b871df6..8a1fdf3 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp
@@ -202,10 +202,9 @@ class IsotropicHardeningVMis_qp : public law_qp_bones<T, DIM>
             // std::cout << "se_eq: " << se_eq << ", Rp " << Rp0 + H0 * (m_p_prev - p0) << ", Phi: " << Phi_trial0 <<
             // std::endl;
 
-            if ((std::abs(se.trace()) / se.norm()) > 1E-8)
+            // relative to the strain se is computed from: se itself is only rounding for a hydrostatic strain
+            if (std::abs(se.trace()) > 1E-8 * 2 * data.getMu() * estrain_trial.norm())
             {
-                // std::cout << std::abs(se.trace()) << ", " << se.norm() << ", " << (std::abs(se.trace()) / se.norm())
-                //           << std::endl;
                 std::string mess = "Se_trace= " + std::to_string(se.trace()) + " <= 0";
                 throw std::invalid_argument(mess);
             }
diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
index 0a37fa8..8413ffe 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
@@ -164,13 +164,15 @@ class LinearIsotropicAndKinematicHardening_qp : public law_qp_bones<T, DIM>
         const scalar_type          se_eq         = this->sigmaeq(se);
         const scalar_type          Phi_trial     = se_eq - data.getSigma_y0() - data.getH() * m_p_prev;
 
-        if ((std::abs(X_prev.trace()) / X_prev.norm()) > 1E-8)
+        // the traces are compared with the values these tensors are computed from, as the
+        // tensors themselves can vanish up to rounding (hydrostatic strain, reversed flow)
+        if (std::abs(m_pstrain_prev.trace()) > 1E-8)
         {
             const std::string mess = "X_trace= " + std::to_string(X_prev.trace()) + " <= 0";
             throw std::invalid_argument(mess);
         }
 
-        if ((std::abs(se.trace()) / se.norm()) > 1E-8)
+        if (std::abs(se.trace()) > 1E-8 * (2 * data.getMu() * estrain_trial.norm() + X_prev.norm()))
         {
             const std::string mess = "Se_trace= " + std::to_string(se.trace()) + " <= 0";
             throw std::invalid_argument(mess);
@@ -222,7 +224,7 @@ class LinearIsotropicAndKinematicHardening_qp : public law_qp_bones<T, DIM>
             m_p_curr             = m_p_prev;
         }
 
-        if ((std::abs(m_pstrain_curr.trace()) / m_pstrain_curr.norm()) > 1E-8)
+        if (std::abs(m_pstrain_curr.trace()) > 1E-8)
         {
             const std::string mess = "eps_p= " + std::to_string(m_pstrain_curr.trace()) + " <= 0";
             throw std::invalid_argument(mess);
-- 
2.43.0


From 8d0c60eee2781860dd31093f27ff024ff6a6d738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:01 +0000
Subject: [PATCH 12/95] fix: a boundary face declared twice is counted once

---
 .../boundary_conditions.hpp                   | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp b/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
index c2fc2ff..0f7f3a1 100644
--- a/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
+++ b/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
@@ -252,8 +252,11 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (!is_contact_face(face_id))
+            {
+                m_contact_faces++;
+            }
             m_faces_is_contact.at(face_id) = std::make_tuple(true, btype, b_id, -1);
-            m_contact_faces++;
         }
     }
 
@@ -269,8 +272,11 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (!is_contact_face(face_id))
+            {
+                m_contact_faces++;
+            }
             m_faces_is_contact.at(face_id) = std::make_tuple(true, btype, b_id, bcf_id);
-            m_contact_faces++;
         }
     }
 
@@ -287,8 +293,11 @@ class BoundaryConditions
 
             const auto face_id = m_msh.lookup(bfc);
 
+            if (!is_dirichlet_face(face_id))
+            {
+                m_dirichlet_faces++;
+            }
             m_faces_is_dirichlet.at(face_id) = std::make_tuple(true, DIRICHLET, 0, bcf_id);
-            m_dirichlet_faces++;
         }
     }
 
@@ -304,8 +313,11 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (!is_robin_face(face_id))
+            {
+                m_robin_faces++;
+            }
             m_faces_is_robin.at(face_id) = std::make_tuple(true, btype, b_id, bcf_id);
-            m_robin_faces++;
         }
     }
 
@@ -320,8 +332,11 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (!is_dirichlet_face(face_id))
+            {
+                m_dirichlet_faces++;
+            }
             m_faces_is_dirichlet.at(face_id) = std::make_tuple(true, btype, b_id, bcf_id);
-            m_dirichlet_faces++;
         }
     }
 
@@ -336,8 +351,11 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (!is_neumann_face(face_id))
+            {
+                m_neumann_faces++;
+            }
             m_faces_is_neumann.at(face_id) = std::make_tuple(true, btype, b_id, bcf_id);
-            m_neumann_faces++;
         }
     }
 
-- 
2.43.0


From df06e60277fad0efdd5b86e10163bb0a6ccb038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:01 +0000
Subject: [PATCH 13/95] fix: the contact boundary id of a face is not its Robin
 id

---
 .../include/diskpp/boundary_conditions/boundary_conditions.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp b/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
index 0f7f3a1..1694601 100644
--- a/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
+++ b/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
@@ -535,7 +535,7 @@ class BoundaryConditions
     size_t
     contact_boundary_id(const face_type& fc) const
     {
-        return robin_boundary_id(m_msh.lookup(fc));
+        return contact_boundary_id(m_msh.lookup(fc));
     }
 
     bool
-- 
2.43.0


From a44ebfbac3482017956c711c42496de94fc82397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:20 +0000
Subject: [PATCH 14/95] fix: refuse inadmissible cell/face/gradient degree
 triples as documented

---
 .../include/diskpp/methods/implementation_hho/utils_hho.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
index 1d89945..ae92771 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
@@ -127,7 +127,7 @@ class hho_degree_info
         bool c1 = fd > 0 && (cd == fd - 1 || cd == fd || cd == fd + 1);
         bool c2 = fd == 0 && (cd == fd || cd == fd + 1);
         bool c3 = gd >= fd;
-        if (c1 || c2 || c3)
+        if ((c1 || c2) && c3)
         {
             cell_deg = cd;
             face_deg = fd;
-- 
2.43.0


From 048193797efeb8ad8aae6576ef6089cfa2d2a003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:20 +0000
Subject: [PATCH 15/95] fix: face unknown offsets and degree setters of
 MeshDegreeInfo can be instantiated

---
 libdiskpp/include/diskpp/adaptivity/adaptivity.hpp        | 8 ++++----
 .../diskpp/methods/implementation_hho/utils_hho.hpp       | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/adaptivity/adaptivity.hpp b/libdiskpp/include/diskpp/adaptivity/adaptivity.hpp
index 61d3fb1..24c4ac5 100644
--- a/libdiskpp/include/diskpp/adaptivity/adaptivity.hpp
+++ b/libdiskpp/include/diskpp/adaptivity/adaptivity.hpp
@@ -335,8 +335,8 @@ class MeshDegreeInfo
     void
     degreeInfo(const MeshType& msh, const cell_type& cl, const DegreeInfo& di)
     {
-        const auto cell_id             = msh.lookup(cl);
-        return m_cells_degree[cell_id] = di;
+        const auto cell_id = msh.lookup(cl);
+        m_cells_degree[cell_id] = di;
     }
 
     DegreeInfo
@@ -365,8 +365,8 @@ class MeshDegreeInfo
     void
     degreeInfo(const MeshType& msh, const face_type& fc, const DegreeInfo& di)
     {
-        const auto face_id             = msh.lookup(fc);
-        return m_faces_degree[face_id] = di;
+        const auto face_id = msh.lookup(fc);
+        m_faces_degree[face_id] = di;
     }
 
     std::vector<DegreeInfo>
diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
index ae92771..9f5eee0 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
@@ -321,7 +321,7 @@ scalar_faces_offset(const Mesh& msh, const typename Mesh::cell_type& cl, const M
     for (auto fc : fcs)
     {
         ret.push_back(num_dofs);
-        num_dofs += scalar_face_dofs(msh, fc);
+        num_dofs += scalar_face_dofs(msh, degree_infos.degreeInfo(msh, fc));
     }
 
     return ret;
@@ -340,7 +340,7 @@ vector_faces_offset(const Mesh& msh, const typename Mesh::cell_type& cl, const M
     for (auto fc : fcs)
     {
         ret.push_back(num_dofs);
-        num_dofs += vector_face_dofs(msh, fc);
+        num_dofs += vector_face_dofs(msh, degree_infos.degreeInfo(msh, fc));
     }
 
     return ret;
-- 
2.43.0


From 0a7d37d85747d622b7a602c1db5900ce544eeb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:04 +0000
Subject: [PATCH 16/95] fix: single element meshes have the faces, ordering and
 boundary information of their element

---
 libdiskpp/include/diskpp/mesh/meshgen.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/mesh/meshgen.hpp b/libdiskpp/include/diskpp/mesh/meshgen.hpp
index 3d70a7a..193fb9e 100644
--- a/libdiskpp/include/diskpp/mesh/meshgen.hpp
+++ b/libdiskpp/include/diskpp/mesh/meshgen.hpp
@@ -897,6 +897,7 @@ void make_single_element_mesh(generic_mesh<T,1>& msh, const T& a, const T& b)
     boundary_descriptor bi(0, true);
     storage->boundary_info.at(0) = bi;
     storage->boundary_info.at(1) = bi;
+    storage->subdomain_info.resize( num_edges );
 }
 
 template<typename T>
@@ -928,6 +929,7 @@ void make_single_element_mesh(simplicial_mesh<T,2>& msh, const point<T,2>& a, co
     storage->edges.push_back( {p1, p2} );
 
     storage->surfaces.push_back( {p0, p1, p2} );
+    storage->boundary_info.assign( storage->edges.size(), boundary_descriptor(0, true) );
     storage->subdomain_info.resize( 1 );
 }
 
@@ -956,6 +958,11 @@ void make_single_element_mesh(simplicial_mesh<T,3>& msh,
     auto p2 = point_identifier<3>(2);
     auto p3 = point_identifier<3>(3);
 
+    storage->nodes.push_back( { p0 } );
+    storage->nodes.push_back( { p1 } );
+    storage->nodes.push_back( { p2 } );
+    storage->nodes.push_back( { p3 } );
+
     // Base face
     storage->edges.push_back( {p0, p1} );
     storage->edges.push_back( {p0, p2} );
@@ -974,8 +981,13 @@ void make_single_element_mesh(simplicial_mesh<T,3>& msh,
     // Back face
     storage->surfaces.push_back( {p0, p2, p3} );
 
+    // Elements must be stored in order, otherwise lookup fails
+    std::sort(storage->edges.begin(), storage->edges.end());
+    std::sort(storage->surfaces.begin(), storage->surfaces.end());
+
     storage->volumes.push_back( {p0, p1, p2, p3} );
 
+    storage->boundary_info.assign( storage->surfaces.size(), boundary_descriptor(0, true) );
     storage->subdomain_info.resize( 1 );
 
 }
@@ -1008,11 +1020,12 @@ void make_single_element_mesh(cartesian_mesh<T,2>& msh, const point<T,2>& base,
     storage->nodes.push_back( { p3 } );
 
     storage->edges.push_back( {p0, p1} );
-    storage->edges.push_back( {p0, p3} );
-    storage->edges.push_back( {p1, p2} );
+    storage->edges.push_back( {p0, p2} );
+    storage->edges.push_back( {p1, p3} );
     storage->edges.push_back( {p2, p3} );
 
     storage->surfaces.push_back( {p0, p1, p2, p3} );
+    storage->boundary_info.assign( storage->edges.size(), boundary_descriptor(0, true) );
     storage->subdomain_info.resize( 1 );
 }
 
@@ -1073,12 +1086,13 @@ void make_single_element_mesh(cartesian_mesh<T,3>& msh, const point<T,3>& base,
     storage->surfaces.push_back( {p4, p5, p7, p6} );
     storage->surfaces.push_back( {p0, p2, p6, p4} );
     storage->surfaces.push_back( {p1, p3, p7, p5} );
-    storage->surfaces.push_back( {p0, p1, p5, p4} );
-    storage->surfaces.push_back({ p2, p3, p7, p6 });
+    storage->surfaces.push_back( {p0, p4, p5, p1} );
+    storage->surfaces.push_back( {p2, p6, p7, p3} );
     std::sort(storage->surfaces.begin(), storage->surfaces.end());
 
     storage->volumes.push_back( {p0, p1, p2, p3, p4, p5, p6, p7} );
 
+    storage->boundary_info.assign( storage->surfaces.size(), boundary_descriptor(0, true) );
     storage->subdomain_info.resize( 1 );
 }
 
-- 
2.43.0


From 052379ad2ca8cfc4b78cb4a497d550badb07dde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:04 +0000
Subject: [PATCH 17/95] fix: the bounding box of a mesh contains all its points

---
 libdiskpp/include/diskpp/mesh/mesh.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh.hpp b/libdiskpp/include/diskpp/mesh/mesh.hpp
index 12c880b..decc47a 100644
--- a/libdiskpp/include/diskpp/mesh/mesh.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh.hpp
@@ -1037,17 +1037,13 @@ public:
                   itor != msh.points_end();
                   itor++)
         {
-            bool lt = false, gt = false;
             auto curpt = *itor;
 
             for (size_t i = 0; i < point_type::dimension; i++)
             {
-                lt = lt or (curpt[i] < m_bb_min[i]);
-                gt = gt or (curpt[i] > m_bb_max[i]);
+                if (curpt[i] < m_bb_min[i]) m_bb_min[i] = curpt[i];
+                if (curpt[i] > m_bb_max[i]) m_bb_max[i] = curpt[i];
             }
-            assert(lt != gt); //lt xor gt
-            if (lt) m_bb_min = curpt;
-            if (gt) m_bb_max = curpt;
         }
     }
 
-- 
2.43.0


From 90979b11d66e7d8f56dc774e101a942b62168a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:04 +0000
Subject: [PATCH 18/95] fix: is_inside compares the point with the edges of the
 polygon

---
 libdiskpp/include/diskpp/geometry/geometry_all.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_all.hpp b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
index 7604282..867ee3c 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_all.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
@@ -294,7 +294,7 @@ is_inside(const Mesh<T, 2, Storage>&                      msh,
     for (size_t i = 0; i < pts.size(); i++)
     {
         auto p0 = pts[i];
-        auto p1 = pts[i % pts.size()];
+        auto p1 = pts[(i+1) % pts.size()];
 
         auto x  = pt.x();
         auto y  = pt.y();
-- 
2.43.0


From 2748df3cca8f3565d549611d3d9d94c7261e6985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:04 +0000
Subject: [PATCH 19/95] fix: a 3D cartesian cell has eight points

---
 libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp b/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
index 860b8d1..0048b5f 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
@@ -267,7 +267,7 @@ measure(const cartesian_mesh<T,3>& msh,
         const typename cartesian_mesh<T,3>::cell& cl)
 {
     auto pts = points(msh, cl);
-    assert(pts.size() == 4);
+    assert(pts.size() == 8);
     auto v0 = (pts[1] - pts[0]).to_vector().norm();
     auto v1 = (pts[2] - pts[0]).to_vector().norm();
     auto v2 = (pts[4] - pts[0]).to_vector().norm();
-- 
2.43.0


From 38895d752cb3b1bd45fee956fe83e72edaf4e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:04 +0000
Subject: [PATCH 20/95] fix: cells of uniform 1D meshes have subdomain
 information

---
 libdiskpp/include/diskpp/loaders/loader_uniform.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_uniform.hpp b/libdiskpp/include/diskpp/loaders/loader_uniform.hpp
index e25e8b3..25b952f 100644
--- a/libdiskpp/include/diskpp/loaders/loader_uniform.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_uniform.hpp
@@ -92,6 +92,8 @@ class uniform_mesh_loader<T, 1> : public mesh_loader<generic_mesh<T, 1>>
         storage->boundary_info.at(0)             = bi;
         storage->boundary_info.at(num_nodes - 1) = bi;
 
+        storage->subdomain_info.resize(num_edges);
+
         return true;
     }
 };
-- 
2.43.0


From 76cf7192f1ac67fd1b89f01eef275a3a7046cdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:09 +0000
Subject: [PATCH 21/95] fix: outward normals and areas of nonconvex polygonal
 cells follow the vertex order

---
 .../diskpp/geometry/geometry_generic.hpp      | 49 +++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_generic.hpp b/libdiskpp/include/diskpp/geometry/geometry_generic.hpp
index 226f734..a1f7096 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_generic.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_generic.hpp
@@ -197,6 +197,55 @@ measure(const generic_mesh<T,3>& msh, const typename generic_mesh<T,3>::face& fc
     return acc;
 }
 
+/**
+ * \brief Compute the outward unit normal to a face of a 2D cell. The direction
+ * is given by the order of the vertices of the cell, so it is right also on
+ * nonconvex elements.
+ *
+ * \param msh Reference to the mesh
+ * \param cl Reference to a cell
+ * \param fc Reference to a face of the cell
+ * \return Return the outward unit normal
+ */
+template<typename T>
+static_vector<T, 2>
+normal(const generic_mesh<T,2>& msh,
+    const typename generic_mesh<T,2>::cell& cl,
+    const typename generic_mesh<T,2>::face& fc)
+{
+    auto pts = points(msh, cl);
+    auto cl_ptids = cl.point_ids();
+    auto fc_ptids = fc.point_ids();
+    assert(fc_ptids.size() == 2);
+
+    T area = 0.0;
+    T dir = 0.0;
+    for (size_t i = 0; i < pts.size(); i++)
+    {
+        auto j = (i+1)%pts.size();
+        auto p0 = pts[i] - pts[0];
+        auto p1 = pts[j] - pts[0];
+        area += p0.x()*p1.y() - p1.x()*p0.y();
+
+        if (cl_ptids[i] == fc_ptids[0] and cl_ptids[j] == fc_ptids[1])
+            dir = 1.0;
+        if (cl_ptids[i] == fc_ptids[1] and cl_ptids[j] == fc_ptids[0])
+            dir = -1.0;
+    }
+
+    if (dir == 0.0)
+        throw std::invalid_argument("normal(): the face does not belong to the cell");
+
+    auto fc_pts = points(msh, fc);
+    auto v = fc_pts[1] - fc_pts[0];
+    static_vector<T, 2> n(v.y(), -v.x());
+
+    if (dir*area < 0.0)
+        return -n/n.norm();
+
+    return n/n.norm();
+}
+
 /**
  * \brief Return the area of the specified 2D cell
  *
-- 
2.43.0


From 185bf8b8aafc178221f8abf1169607afbd712807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:24 +0000
Subject: [PATCH 22/95] fix: area of a degenerate triangle is zero, not NaN

---
 libdiskpp/include/diskpp/common/simplicial_formula.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/common/simplicial_formula.hpp b/libdiskpp/include/diskpp/common/simplicial_formula.hpp
index c46a19a..f49b29a 100644
--- a/libdiskpp/include/diskpp/common/simplicial_formula.hpp
+++ b/libdiskpp/include/diskpp/common/simplicial_formula.hpp
@@ -59,7 +59,10 @@ area_triangle_kahan(const point<T, N>& p0, const point<T, N>& p1, const point<T,
     const T b = length[1];
     const T c = length[0];
 
-    return T(0.25) * std::sqrt((a + (b + c)) * (c - (a - b)) * (c + (a - b)) * (a + (b - c)));
+    /* On degenerate triangles rounding can make the product slightly negative */
+    const T prod = (a + (b + c)) * (c - (a - b)) * (c + (a - b)) * (a + (b - c));
+
+    return T(0.25) * std::sqrt(std::max(prod, T(0)));
 }
 
 /**
-- 
2.43.0


From 99c689c8d875364141aa6727bf9c89964d1743a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:24 +0000
Subject: [PATCH 23/95] fix: normals of 3D faces whose first three vertices are
 aligned

---
 .../include/diskpp/geometry/geometry_all.hpp  | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_all.hpp b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
index 867ee3c..9379890 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_all.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
@@ -413,9 +413,14 @@ normal(const Mesh<T, 3, Storage>& msh,
     auto pts = points(msh, fc);
     assert(pts.size() >= 3);
 
-    auto v0 = (pts[1] - pts[0]).to_vector();
-    auto v1 = (pts[2] - pts[1]).to_vector();
-    auto n = v0.cross(v1);
+    /* Sum over the whole face: the first three points could be aligned */
+    static_vector<T, 3> n = static_vector<T, 3>::Zero();
+    for (size_t i = 1; i < pts.size() - 1; i++)
+    {
+        auto v0 = (pts[i] - pts[0]).to_vector();
+        auto v1 = (pts[i+1] - pts[0]).to_vector();
+        n += v0.cross(v1);
+    }
 
     auto cell_bar = barycenter(msh, cl);
     auto face_bar = barycenter(msh, fc);
@@ -447,9 +452,14 @@ normal(const Mesh<T, 3, Storage>& msh,
     auto pts = points(msh, fc);
     assert(pts.size() >= 3);
 
-    auto v0 = (pts[1] - pts[0]).to_vector();
-    auto v1 = (pts[2] - pts[1]).to_vector();
-    auto n = v0.cross(v1);
+    /* Sum over the whole face: the first three points could be aligned */
+    static_vector<T, 3> n = static_vector<T, 3>::Zero();
+    for (size_t i = 1; i < pts.size() - 1; i++)
+    {
+        auto v0 = (pts[i] - pts[0]).to_vector();
+        auto v1 = (pts[i+1] - pts[0]).to_vector();
+        n += v0.cross(v1);
+    }
 
     return n/n.norm();
 }
-- 
2.43.0


From 364908e13e0fb0218d10cadcb99e207e2f8a815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:01 +0000
Subject: [PATCH 24/95] fix: offset() of an element which is not in the mesh
 throws instead of returning another one

---
 libdiskpp/include/diskpp/mesh/mesh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh.hpp b/libdiskpp/include/diskpp/mesh/mesh.hpp
index decc47a..c50a4c1 100644
--- a/libdiskpp/include/diskpp/mesh/mesh.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh.hpp
@@ -949,7 +949,7 @@ size_t
 offset(const Mesh& msh, const typename Mesh::cell_type& cl)
 {
     auto itor = std::lower_bound(msh.cells_begin(), msh.cells_end(), cl);
-    if ( itor == msh.cells_end() )
+    if ( itor == msh.cells_end() or cl < *itor )
         throw std::logic_error("Cell not found: this is likely a bug.");
 
     return std::distance(msh.cells_begin(), itor);
@@ -960,7 +960,7 @@ size_t
 offset(const Mesh& msh, const typename Mesh::face_type& fc)
 {
     auto itor = std::lower_bound(msh.faces_begin(), msh.faces_end(), fc);
-    if ( itor == msh.faces_end() )
+    if ( itor == msh.faces_end() or fc < *itor )
         throw std::logic_error("Face not found: this is likely a bug.");
 
     return std::distance(msh.faces_begin(), itor);
-- 
2.43.0


From 2cea2a2ba8d240d9b24f2961c735222a3f5459d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:22 +0000
Subject: [PATCH 25/95] fix: is_boundary() can be called with a face iterator

---
 libdiskpp/include/diskpp/mesh/mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh.hpp b/libdiskpp/include/diskpp/mesh/mesh.hpp
index c50a4c1..c27a929 100644
--- a/libdiskpp/include/diskpp/mesh/mesh.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh.hpp
@@ -449,7 +449,7 @@ public:
     }
 
     /* Determine if the specified face is a boundary (via iterator) */
-    bool is_boundary(const typename base_type::face_iterator& itor) const
+    bool is_boundary(const typename base_type::const_face_iterator& itor) const
     {
         assert( this->backend_storage()->boundary_info.size() == this->faces_size() );
         auto ofs = std::distance(this->faces_begin(), itor);
-- 
2.43.0


From 01407f5f6a9977ec0c5d7de5c7ed7a254e723f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:14 +0000
Subject: [PATCH 26/95] fix: making a mesh again on the same object leaves no
 boundary faces of the previous one

---
 libdiskpp/include/diskpp/loaders/loader_uniform.hpp | 2 +-
 libdiskpp/include/diskpp/mesh/meshgen.hpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_uniform.hpp b/libdiskpp/include/diskpp/loaders/loader_uniform.hpp
index 25b952f..cb63bc9 100644
--- a/libdiskpp/include/diskpp/loaders/loader_uniform.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_uniform.hpp
@@ -87,7 +87,7 @@ class uniform_mesh_loader<T, 1> : public mesh_loader<generic_mesh<T, 1>>
         for (size_t i = 0; i < num_nodes; i++)
             storage->nodes.at(i) = node_type(point_identifier<1>(i));
 
-        storage->boundary_info.resize(num_nodes);
+        storage->boundary_info.assign(num_nodes, boundary_descriptor());
         boundary_descriptor bi(0, true);
         storage->boundary_info.at(0)             = bi;
         storage->boundary_info.at(num_nodes - 1) = bi;
diff --git a/libdiskpp/include/diskpp/mesh/meshgen.hpp b/libdiskpp/include/diskpp/mesh/meshgen.hpp
index 193fb9e..3fdbf4c 100644
--- a/libdiskpp/include/diskpp/mesh/meshgen.hpp
+++ b/libdiskpp/include/diskpp/mesh/meshgen.hpp
@@ -795,7 +795,7 @@ public:
         std::sort(storage->edges.begin(), storage->edges.end());
 
         /* Boundary edges */
-        storage->boundary_info.resize( storage->edges.size() );
+        storage->boundary_info.assign( storage->edges.size(), boundary_descriptor() );
         for (const auto& [boundary, edges] : hm.boundary_edges)
         {
             for (const auto& edge : edges)
-- 
2.43.0


From 8c2686f6c542049dc84b8a4130ca3b9028f1dc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:48 +0000
Subject: [PATCH 27/95] fix: area of triangles with rational coordinates

---
 libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp b/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp
index 798ecc6..01610c4 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp
@@ -357,7 +357,7 @@ measure(const simplicial_mesh<rational<T>, 2>&                msh,
     const auto d0 = (pts[1] - pts[0]);
     const auto d1 = (pts[2] - pts[0]);
 
-    const auto area = d0.x() * d1.y() - d1.x() * d0.y();
+    const auto area = (d0.x() * d1.y() - d1.x() * d0.y()) / T(2);
 
     if (signed_volume)
     {
-- 
2.43.0


From 150a7c34d2ee2852b50946291aa2c95cc370c238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:39 +0000
Subject: [PATCH 28/95] fix: is_inside on triangles of any orientation and on
 cartesian cells

---
 .../include/diskpp/geometry/geometry_all.hpp  | 11 +++++---
 .../diskpp/geometry/geometry_hexahedral.hpp   | 25 +++++++++++++++++++
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_all.hpp b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
index 9379890..4e07c6b 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_all.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
@@ -288,8 +288,10 @@ is_inside(const Mesh<T, 2, Storage>&                      msh,
           const typename Mesh<T, 2, Storage>::cell&       cl,
           const typename Mesh<T, 2, Storage>::point_type& pt)
 {
-    /* Nodes MUST be ordered COUNTERCLOCKWISE and the polygon must be CONVEX */
+    /* Nodes MUST be ordered CLOCKWISE or COUNTERCLOCKWISE (simplicial elements
+     * can have either orientation) and the polygon must be CONVEX */
     auto pts = points(msh, cl);
+    bool left = false, right = false;
 
     for (size_t i = 0; i < pts.size(); i++)
     {
@@ -303,11 +305,12 @@ is_inside(const Mesh<T, 2, Storage>&                      msh,
         auto x1 = p1.x();
         auto y1 = p1.y();
 
-        if ((y - y0) * (x1 - x0) - (x - x0) * (y1 - y0) < 0.0)
-            return false;
+        auto cross = (y - y0) * (x1 - x0) - (x - x0) * (y1 - y0);
+        left = left or (cross > 0.0);
+        right = right or (cross < 0.0);
     }
 
-    return true;
+    return not (left and right);
 }
 
 
diff --git a/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp b/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
index 0048b5f..f5c831e 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
@@ -261,6 +261,31 @@ measure(const cartesian_mesh<T,2>& msh,
     return v0 * v1;
 }
 
+/**
+ * @brief Check if a point is inside a 2D cell (quadrangle). The vertices of
+ * cartesian cells are not stored in cyclic order.
+ *
+ * @param msh mesh
+ * @param cl specified cell
+ * @param pt point to check
+ * @return true if the point is inside the cell or on its boundary
+ */
+template<typename T>
+bool
+is_inside(const cartesian_mesh<T,2>& msh,
+          const typename cartesian_mesh<T,2>::cell& cl,
+          const typename cartesian_mesh<T,2>::point_type& pt)
+{
+    auto pts = points(msh, cl);
+    auto v0 = (pts[1] - pts[0]).to_vector();
+    auto v1 = (pts[2] - pts[0]).to_vector();
+    auto v = (pt - pts[0]).to_vector();
+
+    auto s = v.dot(v0);
+    auto t = v.dot(v1);
+    return s >= T(0) and s <= v0.dot(v0) and t >= T(0) and t <= v1.dot(v1);
+}
+
 template<typename T>
 T
 measure(const cartesian_mesh<T,3>& msh,
-- 
2.43.0


From a4a246c94120c79e4b70d2a3425e4808617048c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:35 +0000
Subject: [PATCH 29/95] fix: points on the faces of a tetrahedron are inside it
 whatever its orientation

---
 .../diskpp/geometry/geometry_simplicial.hpp   | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp b/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp
index 01610c4..22553cb 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp
@@ -400,21 +400,17 @@ is_inside(const simplicial_mesh<T,3>& msh,
     auto v4 = to_vector(pts[3] - pts[1]);
     auto v5 = to_vector(pts[3] - pts[2]);
 
-    int count = 0;
+    /* The tetrahedron can have either orientation, and points on its faces
+     * give zeros: they are inside too. */
+    bool neg = false, pos = false;
+    auto side = [&](T t) { neg = neg or (t < T(0)); pos = pos or (t > T(0)); };
 
-    T t0 = v3.cross(v0).dot( to_vector(pt - pts[0]) );
-    if (t0 < 0) count--; else count++;
+    side( v3.cross(v0).dot( to_vector(pt - pts[0]) ) );
+    side( v0.cross(v1).dot( to_vector(pt - pts[0]) ) );
+    side( v4.cross(v2).dot( to_vector(pt - pts[1]) ) );
+    side( v1.cross(v3).dot( to_vector(pt - pts[0]) ) );
 
-    T t1 = v0.cross(v1).dot( to_vector(pt - pts[0]) );
-    if (t1 < 0) count--; else count++;
-    
-    T t2 = v4.cross(v2).dot( to_vector(pt - pts[1]) );
-    if (t2 < 0) count--; else count++;
-    
-    T t3 = v1.cross(v3).dot( to_vector(pt - pts[0]) );
-    if (t3 < 0) count--; else count++;
-
-    return (count == 4) or (count == -4);
+    return not (neg and pos);
 }
 
 
-- 
2.43.0


From a2beac5f15097977b27e354289071b06bb2ab636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:50 +0000
Subject: [PATCH 30/95] fix: tensorized Gauss rule on parallelograms in space:
 use the area, not the product of the sides

---
 libdiskpp/include/diskpp/quadratures/bits/quad_raw_gauss.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_gauss.hpp b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_gauss.hpp
index f5c2752..51c2ae3 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_gauss.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_gauss.hpp
@@ -474,7 +474,7 @@ tensorized_gauss_legendre(size_t             degree,
 
     const auto v0    = (p1 - p0) / T(2);
     const auto v1    = (p3 - p0) / T(2);
-    const T    meas4 = v0.to_vector().norm()*v1.to_vector().norm();
+    const T    meas4 = v0.to_vector().cross(v1.to_vector()).norm();
 
     const auto bar = (p0 + p1 + p2 + p3) / T(4);
 
-- 
2.43.0


From 7ee9e4c9568363c7a06a2cb358d78309d5f57dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:50 +0000
Subject: [PATCH 31/95] fix: dunavant: refuse degree 21, whose rule is the
 table's sentinel

---
 libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
index 83af5c3..143450f 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
@@ -289,7 +289,7 @@ std::vector<quadrature_point<T,DIM>>
 dunavant(size_t degree, const point<T,DIM>& p0, const point<T,DIM>& p1, const point<T,DIM>& p2)
 {
     auto max_degree = sizeof(priv::dunavant_rules)/sizeof(priv::dunavant_rule);
-    if (degree > max_degree)
+    if (degree >= max_degree)
         throw std::invalid_argument("Dunavant quadrature: degree too high");
 
     size_t rule_num = (degree == 0) ? 0 : degree - 1;
-- 
2.43.0


From 17367572128c80b31a53fa725d2266b16e52cf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:50 +0000
Subject: [PATCH 32/95] fix: integrate on polyhedron faces: do not read past
 the table of triangle rules

---
 libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp b/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp
index ce4683d..a539e8f 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp
@@ -161,7 +161,6 @@ integrate_polyhedron_face(const disk::generic_mesh<T, 3>&                msh,
     const auto rss = split_in_raw_triangles(msh, fc);
 
     std::vector<quadpoint_type> ret;
-    ret.reserve(quadrature::priv::triangle_gauss_rules[degree].num_points * rss.size());
     for (auto& rs : rss)
     {
         const auto pts = rs.points();
-- 
2.43.0


From 36f13aefe6040574475eea5fa6291f1ea826e95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:50 +0000
Subject: [PATCH 33/95] fix: triangle_gauss of high degree on triangles in
 space

---
 .../include/diskpp/quadratures/bits/quad_raw_triangle.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
index 143450f..345ed60 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
@@ -2633,7 +2633,11 @@ triangle_gauss(size_t degree, const point<T,DIM>& p0, const point<T,DIM>& p1, co
     else 
     {
         Eigen::Matrix<double,3,2> vertices;
-        vertices << p0.x(), p0.y(), p1.x(), p1.y(), p2.x(), p2.y();  
+        vertices << 0.0, 0.0, 1.0, 0.0, 0.0, 1.0;
+
+        auto area = area_triangle_kahan(p0, p1, p2);
+        auto v0 = p1-p0;
+        auto v1 = p2-p0;
 
         auto qinfo = triquad(degree, vertices);
 
@@ -2644,7 +2648,7 @@ triangle_gauss(size_t degree, const point<T,DIM>& p0, const point<T,DIM>& p1, co
         ret.reserve(degree*degree);
 
         for(size_t i = 0; i < qX.size(); i++ )
-            ret.push_back({point<T,DIM>({qX[i], qY[i]}), qw[i]});        
+            ret.push_back({p0 + v0*qX[i] + v1*qY[i], 2.0*qw[i]*area});
     }
 
     return ret;
-- 
2.43.0


From a11c6d11dacf01b5b5cb8b9d7ede97ab00b19998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:59 +0000
Subject: [PATCH 34/95] fix: tensorized Gauss rule: account for the jacobian of
 quadrangles that are not parallelograms

---
 .../include/diskpp/quadratures/bits/quad_raw_gauss.hpp   | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_gauss.hpp b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_gauss.hpp
index 51c2ae3..bc4f663 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_gauss.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_gauss.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <limits>
 #include <vector>
 
 #include "diskpp/quadratures/quadrature_point.hpp"
@@ -373,8 +374,14 @@ tensorized_gauss_legendre(size_t             degree,
                           const point<T, 2>& p2,
                           const point<T, 2>& p3)
 {
+    /* The jacobian is constant only on parallelograms, otherwise
+     * it adds one degree in each reference coordinate. */
+    const T skewness = ((p0 - p1) + (p2 - p3)).to_vector().norm();
+    const T size     = distance(p0, p2) + distance(p1, p3);
+    const bool is_parallelogram = skewness <= 16 * std::numeric_limits<T>::epsilon() * size;
+
     const auto num_rules = sizeof(priv::gauss_rules) / sizeof(priv::gauss_rule) - 1;
-    const auto rule_num  = degree / 2;
+    const auto rule_num  = is_parallelogram ? degree / 2 : (degree + 1) / 2;
     if (rule_num >= num_rules)
         throw std::invalid_argument("tensorized_gauss_legendre: order too high");
 
-- 
2.43.0


From 8711a571a504d8a5697cf8a7b19cf9743d06df2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:35 +0000
Subject: [PATCH 35/95] fix: triangle_gauss: the table for degree 21 is exact
 only up to degree 20

---
 .../quadratures/bits/quad_raw_triangle.hpp    | 91 +------------------
 1 file changed, 2 insertions(+), 89 deletions(-)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
index 345ed60..569f668 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
@@ -1060,94 +1060,6 @@ static triangle_gauss_point triangle_gauss_rule_20[] = {
     { { 5.36118588519799988e-01, 3.23170566536259973e-01 }, 1.14091120291976295e-02 }
 };
 
-static triangle_gauss_point triangle_gauss_rule_21[] = {
-    { { 3.33333333333329984e-01, 3.33333333333329984e-01 }, 1.38052134988497603e-02 },
-    { { 1.50064932442999996e-03, 4.99249675337790022e-01 }, 8.89514773663370017e-04 },
-    { { 4.99249675337790022e-01, 1.50064932442999996e-03 }, 8.89514773663370017e-04 },
-    { { 4.99249675337790022e-01, 4.99249675337790022e-01 }, 8.89514773663370017e-04 },
-    { { 9.41397519389499948e-02, 4.52930124030520020e-01 }, 1.00561990569805852e-02 },
-    { { 4.52930124030520020e-01, 9.41397519389499948e-02 }, 1.00561990569805852e-02 },
-    { { 4.52930124030520020e-01, 4.52930124030520020e-01 }, 1.00561990569805852e-02 },
-    { { 2.04472124089530000e-01, 3.97763937955240010e-01 }, 1.34089236296657845e-02 },
-    { { 3.97763937955240010e-01, 2.04472124089530000e-01 }, 1.34089236296657845e-02 },
-    { { 3.97763937955240010e-01, 3.97763937955240010e-01 }, 1.34089236296657845e-02 },
-    { { 4.70999594934429999e-01, 2.64500202532789996e-01 }, 1.22615669007510048e-02 },
-    { { 2.64500202532789996e-01, 4.70999594934429999e-01 }, 1.22615669007510048e-02 },
-    { { 2.64500202532789996e-01, 2.64500202532789996e-01 }, 1.22615669007510048e-02 },
-    { { 5.77962071815850020e-01, 2.11018964092080014e-01 }, 8.19728920534769541e-03 },
-    { { 2.11018964092080014e-01, 5.77962071815850020e-01 }, 8.19728920534769541e-03 },
-    { { 2.11018964092080014e-01, 2.11018964092080014e-01 }, 8.19728920534769541e-03 },
-    { { 7.84528785657459982e-01, 1.07735607171269995e-01 }, 7.39795369932479997e-03 },
-    { { 1.07735607171269995e-01, 7.84528785657459982e-01 }, 7.39795369932479997e-03 },
-    { { 1.07735607171269995e-01, 1.07735607171269995e-01 }, 7.39795369932479997e-03 },
-    { { 9.21861824324390011e-01, 3.90690878377999984e-02 }, 2.28964113885212536e-03 },
-    { { 3.90690878377999984e-02, 9.21861824324390011e-01 }, 2.28964113885212536e-03 },
-    { { 3.90690878377999984e-02, 3.90690878377999984e-02 }, 2.28964113885212536e-03 },
-    { { 9.77651240541340005e-01, 1.11743797293300008e-02 }, 8.25913257788108519e-04 },
-    { { 1.11743797293300008e-02, 9.77651240541340005e-01 }, 8.25913257788108519e-04 },
-    { { 1.11743797293300008e-02, 1.11743797293300008e-02 }, 8.25913257788108519e-04 },
-    { { 5.34961818733999984e-03, 6.35496659083499976e-02 }, 1.17458545428779197e-03 },
-    { { 5.34961818733999984e-03, 9.31100715904309983e-01 }, 1.17458545428779197e-03 },
-    { { 6.35496659083499976e-02, 5.34961818733999984e-03 }, 1.17458545428779197e-03 },
-    { { 6.35496659083499976e-02, 9.31100715904309983e-01 }, 1.17458545428779197e-03 },
-    { { 9.31100715904309983e-01, 5.34961818733999984e-03 }, 1.17458545428779197e-03 },
-    { { 9.31100715904309983e-01, 6.35496659083499976e-02 }, 1.17458545428779197e-03 },
-    { { 7.95481706619999979e-03, 1.57106918940709994e-01 }, 2.23296287709089667e-03 },
-    { { 7.95481706619999979e-03, 8.34938263993090013e-01 }, 2.23296287709089667e-03 },
-    { { 1.57106918940709994e-01, 7.95481706619999979e-03 }, 2.23296287709089667e-03 },
-    { { 1.57106918940709994e-01, 8.34938263993090013e-01 }, 2.23296287709089667e-03 },
-    { { 8.34938263993090013e-01, 7.95481706619999979e-03 }, 2.23296287709089667e-03 },
-    { { 8.34938263993090013e-01, 1.57106918940709994e-01 }, 2.23296287709089667e-03 },
-    { { 1.04223982812600008e-02, 3.95642114364370023e-01 }, 3.04978340395398607e-03 },
-    { { 1.04223982812600008e-02, 5.93935487354359970e-01 }, 3.04978340395398607e-03 },
-    { { 3.95642114364370023e-01, 1.04223982812600008e-02 }, 3.04978340395398607e-03 },
-    { { 3.95642114364370023e-01, 5.93935487354359970e-01 }, 3.04978340395398607e-03 },
-    { { 5.93935487354359970e-01, 1.04223982812600008e-02 }, 3.04978340395398607e-03 },
-    { { 5.93935487354359970e-01, 3.95642114364370023e-01 }, 3.04978340395398607e-03 },
-    { { 1.09644147961200002e-02, 2.73167570712909979e-01 }, 3.44554066359410152e-03 },
-    { { 1.09644147961200002e-02, 7.15868014490970039e-01 }, 3.44554066359410152e-03 },
-    { { 2.73167570712909979e-01, 1.09644147961200002e-02 }, 3.44554066359410152e-03 },
-    { { 2.73167570712909979e-01, 7.15868014490970039e-01 }, 3.44554066359410152e-03 },
-    { { 7.15868014490970039e-01, 1.09644147961200002e-02 }, 3.44554066359410152e-03 },
-    { { 7.15868014490970039e-01, 2.73167570712909979e-01 }, 3.44554066359410152e-03 },
-    { { 3.85667120854600032e-02, 1.01785382485020004e-01 }, 3.99873753623908139e-03 },
-    { { 3.85667120854600032e-02, 8.59647905429519965e-01 }, 3.99873753623908139e-03 },
-    { { 1.01785382485020004e-01, 3.85667120854600032e-02 }, 3.99873753623908139e-03 },
-    { { 1.01785382485020004e-01, 8.59647905429519965e-01 }, 3.99873753623908139e-03 },
-    { { 8.59647905429519965e-01, 3.85667120854600032e-02 }, 3.99873753623908139e-03 },
-    { { 8.59647905429519965e-01, 1.01785382485020004e-01 }, 3.99873753623908139e-03 },
-    { { 3.55805078172199973e-02, 4.46658549176410014e-01 }, 3.69306714266801192e-03 },
-    { { 3.55805078172199973e-02, 5.17760943006369989e-01 }, 3.69306714266801192e-03 },
-    { { 4.46658549176410014e-01, 3.55805078172199973e-02 }, 3.69306714266801192e-03 },
-    { { 4.46658549176410014e-01, 5.17760943006369989e-01 }, 3.69306714266801192e-03 },
-    { { 5.17760943006369989e-01, 3.55805078172199973e-02 }, 3.69306714266801192e-03 },
-    { { 5.17760943006369989e-01, 4.46658549176410014e-01 }, 3.69306714266801192e-03 },
-    { { 4.96708163627600022e-02, 1.99010794149499987e-01 }, 6.39966593932413032e-03 },
-    { { 4.96708163627600022e-02, 7.51318389487729998e-01 }, 6.39966593932413032e-03 },
-    { { 1.99010794149499987e-01, 4.96708163627600022e-02 }, 6.39966593932413032e-03 },
-    { { 1.99010794149499987e-01, 7.51318389487729998e-01 }, 6.39966593932413032e-03 },
-    { { 7.51318389487729998e-01, 4.96708163627600022e-02 }, 6.39966593932413032e-03 },
-    { { 7.51318389487729998e-01, 1.99010794149499987e-01 }, 6.39966593932413032e-03 },
-    { { 5.85197250843300029e-02, 3.24261183692280019e-01 }, 8.62903558784827544e-03 },
-    { { 5.85197250843300029e-02, 6.17219091223390026e-01 }, 8.62903558784827544e-03 },
-    { { 3.24261183692280019e-01, 5.85197250843300029e-02 }, 8.62903558784827544e-03 },
-    { { 3.24261183692280019e-01, 6.17219091223390026e-01 }, 8.62903558784827544e-03 },
-    { { 6.17219091223390026e-01, 5.85197250843300029e-02 }, 8.62903558784827544e-03 },
-    { { 6.17219091223390026e-01, 3.24261183692280019e-01 }, 8.62903558784827544e-03 },
-    { { 1.21497787004389998e-01, 2.08531363210129994e-01 }, 9.33647295146773464e-03 },
-    { { 1.21497787004389998e-01, 6.69970849785469946e-01 }, 9.33647295146773464e-03 },
-    { { 2.08531363210129994e-01, 1.21497787004389998e-01 }, 9.33647295146773464e-03 },
-    { { 2.08531363210129994e-01, 6.69970849785469946e-01 }, 9.33647295146773464e-03 },
-    { { 6.69970849785469946e-01, 1.21497787004389998e-01 }, 9.33647295146773464e-03 },
-    { { 6.69970849785469946e-01, 2.08531363210129994e-01 }, 9.33647295146773464e-03 },
-    { { 1.40710844943940011e-01, 3.23170566536259973e-01 }, 1.14091120291976295e-02 },
-    { { 1.40710844943940011e-01, 5.36118588519799988e-01 }, 1.14091120291976295e-02 },
-    { { 3.23170566536259973e-01, 1.40710844943940011e-01 }, 1.14091120291976295e-02 },
-    { { 3.23170566536259973e-01, 5.36118588519799988e-01 }, 1.14091120291976295e-02 },
-    { { 5.36118588519799988e-01, 1.40710844943940011e-01 }, 1.14091120291976295e-02 },
-    { { 5.36118588519799988e-01, 3.23170566536259973e-01 }, 1.14091120291976295e-02 }
-};
-
 static triangle_gauss_point triangle_gauss_rule_22[] = {
     { { 2.79464830731699990e-02, 4.86026758463409980e-01 }, 4.00279094001020855e-03 },
     { { 4.86026758463409980e-01, 2.79464830731699990e-02 }, 4.00279094001020855e-03 },
@@ -2580,7 +2492,8 @@ static struct triangle_gauss_rule triangle_gauss_rules[] = {
     { sizeof(triangle_gauss_rule_18)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_18 },
     { sizeof(triangle_gauss_rule_19)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_19 },
     { sizeof(triangle_gauss_rule_20)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_20 },
-    { sizeof(triangle_gauss_rule_21)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_21 },
+    /* degree 21: the 85-point table is exact only up to degree 20 */
+    { sizeof(triangle_gauss_rule_22)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_22 },
     { sizeof(triangle_gauss_rule_22)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_22 },
     { sizeof(triangle_gauss_rule_23)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_23 },
     { sizeof(triangle_gauss_rule_24)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_24 },
-- 
2.43.0


From 7828d891f36bac10e7a635b455c3d1c8611b7ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:22 +0000
Subject: [PATCH 36/95] fix: triangles of a rectangle of a cartesian mesh cover
 it entirely

---
 .../diskpp/quadratures/bits/raw_simplices.hpp | 43 +++++++++++++++----
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/raw_simplices.hpp b/libdiskpp/include/diskpp/quadratures/bits/raw_simplices.hpp
index 7041215..754aaf2 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/raw_simplices.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/raw_simplices.hpp
@@ -26,6 +26,7 @@
 
 #pragma once
 
+#include "diskpp/geometry/element_hexahedral.hpp"
 #include "diskpp/geometry/geometry.hpp"
 #include "diskpp/common/simplicial_formula.hpp"
 #include "diskpp/contrib/earcut.hpp"
@@ -221,6 +222,38 @@ split_in_raw_triangles(const Mesh& msh, const typename Mesh::face& fc)
     return raw_simplices;
 }
 
+template<typename T>
+std::vector<std::array<std::size_t, 3>>
+triangulation_earcut_algorithm(const std::vector<point<T, 2>>& pts);
+
+namespace priv {
+
+/* Triangulate the outline of a 2D-cell, the triangles index its points */
+template<typename Mesh, typename Points>
+std::vector<std::array<std::size_t, 3>>
+triangulate_cell_outline(const Mesh&, const Points& pts)
+{
+    std::vector<std::size_t> outline(pts.size());
+    std::iota(outline.begin(), outline.end(), 0);
+
+    /* The points of the rectangles go row by row. See geometry_hexahedral.hpp. */
+    if constexpr (std::is_same_v<typename Mesh::cell, cartesian_element<2, 0>>)
+        std::swap(outline[2], outline[3]);
+
+    std::vector<typename Mesh::point_type> vpts;
+    for (auto& i : outline)
+        vpts.push_back(pts[i]);
+
+    auto triangles = triangulation_earcut_algorithm(vpts);
+    for (auto& triangle : triangles)
+        for (auto& i : triangle)
+            i = outline[i];
+
+    return triangles;
+}
+
+} // namespace priv
+
 /**
  * @brief Split a 2D-cell in triangles. There is several possibilities
  *
@@ -238,10 +271,7 @@ split_in_raw_triangles(const Mesh& msh, const typename Mesh::cell& cl)
 
     auto pts = points(msh, cl);
 
-    std::vector<typename Mesh::point_type> vpts;
-    vpts.insert(vpts.begin(), std::begin(pts), std::end(pts));
-
-    const auto triangles = triangulation_earcut_algorithm(vpts);
+    const auto triangles = priv::triangulate_cell_outline(msh, pts);
     std::vector<raw_simplex_type> raw_simplices;
     raw_simplices.reserve(triangles.size());
 
@@ -271,10 +301,7 @@ split_in_raw_triangles_index(const Mesh& msh, const typename Mesh::cell& cl)
     const auto pts = points(msh, cl);
     const auto pts_id = cl.point_ids();
 
-    std::vector<typename Mesh::point_type> vpts;
-    vpts.insert(vpts.begin(), std::begin(pts), std::end(pts));
-
-    const auto triangles = triangulation_earcut_algorithm(vpts);
+    const auto triangles = priv::triangulate_cell_outline(msh, pts);
 
     std::vector<Triangle> raw_simplices;
     raw_simplices.reserve(triangles.size());
-- 
2.43.0


From 7ca3c1f784324b92d9f9f940145c5d2923813556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:22 +0000
Subject: [PATCH 37/95] fix: 1D monomials: gradients of degree 0, of reversed
 elements and of rescaled bases

---
 libdiskpp/include/diskpp/bases/bases_new.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_new.hpp b/libdiskpp/include/diskpp/bases/bases_new.hpp
index 0146597..8c55354 100644
--- a/libdiskpp/include/diskpp/bases/bases_new.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_new.hpp
@@ -105,8 +105,7 @@ private:
     point_type phys2ref(const point_type& pt) const {
         auto bv = (pb_ - bar_).to_vector();
         auto dv = (pt - bar_).to_vector();
-        auto nbv = h_/scale_;
-        return point_type( bv.dot(dv)/(nbv*nbv) );
+        return point_type( bv.dot(dv)*2.0*scale_/(h_*h_) );
     }
 
     std::pair<size_t, size_t>
@@ -159,7 +158,8 @@ public:
         auto ep = phys2ref(pt);
 
         ret(0) = 0.;
-        ret(1) = scale_/h_;
+        if (degree_ > 0)
+            ret(1) = (pb_.x() > pa_.x()) ? scale_/h_ : -scale_/h_;
         for (size_t k = 2; k <= degree_; k++)
             ret(k) = ret(k-1)*k*ep.x()/(k-1);
 
-- 
2.43.0


From 7edac21b73c989bb057fb06169d5a4f83587fc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:23 +0000
Subject: [PATCH 38/95] fix: gradients of the monomials on faces of 3D meshes
 can be evaluated

---
 libdiskpp/include/diskpp/bases/bases_new.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_new.hpp b/libdiskpp/include/diskpp/bases/bases_new.hpp
index 8c55354..6f0f653 100644
--- a/libdiskpp/include/diskpp/bases/bases_new.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_new.hpp
@@ -682,7 +682,7 @@ class scalar_monomial<Mesh<CoordT, 3, Storage>, typename Mesh<CoordT, 3, Storage
     static const size_t tensor_order = 0; /* scalar */
     using value_type = typename tensor<scalar_type, basis_dimension, tensor_order>::value_type;
     using value_array_type = typename tensor<scalar_type, basis_dimension, tensor_order>::array_type;
-    using gradient_array_type = typename tensor<scalar_type, basis_dimension, tensor_order + 1>::array_type;
+    using gradient_array_type = typename tensor<scalar_type, immersion_dimension, tensor_order + 1>::array_type;
 
 private:
     using tr_mat_type = Eigen::Matrix<coordinate_type, immersion_dimension, immersion_dimension>;
-- 
2.43.0


From 44ebd314e3e542bd9f1d66c0af0d8b3d1e5441b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:12 +0000
Subject: [PATCH 39/95] fix: local axes of elements whose first vertices are
 aligned or coplanar

---
 libdiskpp/include/diskpp/bases/bases_new.hpp  |  8 +++-
 .../include/diskpp/geometry/geometry_all.hpp  | 39 ++++++++++++++-----
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_new.hpp b/libdiskpp/include/diskpp/bases/bases_new.hpp
index 6f0f653..362ed24 100644
--- a/libdiskpp/include/diskpp/bases/bases_new.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_new.hpp
@@ -701,11 +701,15 @@ private:
         auto pts = points(msh, fc);
         assert(pts.size() >= 3);
         vec_type u0 = (pts[1] - pts[0]).to_vector();
-        vec_type u1 = (pts[2] - pts[0]).to_vector();
 
         //#if 0
         v0_ = u0;
-        v1_ = u1 - u1.dot(v0_)*v0_/v0_.dot(v0_);
+        for (size_t i = 2; i < pts.size(); i++) {
+            vec_type u1 = (pts[i] - pts[0]).to_vector();
+            v1_ = u1 - u1.dot(v0_)*v0_/v0_.dot(v0_);
+            if (v1_.norm() > 1e-8*v0_.norm()) // not aligned with v0_
+                break;
+        }
         v2_ = v0_.cross(v1_);
 
         tr_.col(0) = v0_;
diff --git a/libdiskpp/include/diskpp/geometry/geometry_all.hpp b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
index 4e07c6b..776efef 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_all.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
@@ -593,8 +593,13 @@ element_local_axes(const std::array<point<T,DIM>, N>& pts)
 
     static_matrix<T, DIM, DIM> ret;
     auto v0 = (pts[1] - pts[0]).to_vector();
-    auto v1 = (pts[2] - pts[0]).to_vector();
-    v1 = v1 - v1.dot(v0)*v0/(v0.dot(v0)); // Gram-Schmidt
+    auto v1 = v0;
+    for (size_t i = 2; i < pts.size(); i++) {
+        v1 = (pts[i] - pts[0]).to_vector();
+        v1 = v1 - v1.dot(v0)*v0/(v0.dot(v0)); // Gram-Schmidt
+        if (v1.norm() > 1e-8*v0.norm()) // not aligned with v0
+            break;
+    }
     auto scale = 2*v0.norm()/diam;
     ret.col(0) = v0/scale;
     ret.col(1) = v1/scale;
@@ -614,8 +619,13 @@ element_local_axes(const std::vector<point<T,DIM>>& pts)
 
     static_matrix<T, DIM, DIM> ret;
     auto v0 = (pts[1] - pts[0]).to_vector();
-    auto v1 = (pts[2] - pts[0]).to_vector();
-    v1 = v1 - v1.dot(v0)*v0/(v0.dot(v0)); // Gram-Schmidt
+    auto v1 = v0;
+    for (size_t i = 2; i < pts.size(); i++) {
+        v1 = (pts[i] - pts[0]).to_vector();
+        v1 = v1 - v1.dot(v0)*v0/(v0.dot(v0)); // Gram-Schmidt
+        if (v1.norm() > 1e-8*v0.norm()) // not aligned with v0
+            break;
+    }
     auto scale = 2*v0.norm()/diam;
     ret.col(0) = v0/scale;
     ret.col(1) = v1/scale;
@@ -642,13 +652,22 @@ element_local_axes(const Mesh& msh, const typename Mesh::cell_type& cl)
     auto pts = points(msh, cl);
     assert(pts.size() >= 4);
     vec_type u0 = (pts[1] - pts[0]).to_vector();
-    vec_type u1 = (pts[2] - pts[0]).to_vector();
-    vec_type u2 = (pts[3] - pts[0]).to_vector();
 
-    // Gram-Schmidt
-    vec_type v0_ = u0;
-    vec_type v1_ = u1 - u1.dot(v0_)*v0_/v0_.dot(v0_);
-    vec_type v2_ = u2 - u2.dot(v0_)*v0_/v0_.dot(v0_)-u2.dot(v1_)*v1_/ v1_.dot(v1_);
+    // Gram-Schmidt, skipping the vertices aligned or coplanar with the previous ones
+    vec_type v0_ = u0, v1_, v2_;
+    size_t i = 2;
+    for (; i < pts.size(); i++) {
+        vec_type u1 = (pts[i] - pts[0]).to_vector();
+        v1_ = u1 - u1.dot(v0_)*v0_/v0_.dot(v0_);
+        if (v1_.norm() > 1e-8*v0_.norm())
+            break;
+    }
+    for (i++; i < pts.size(); i++) {
+        vec_type u2 = (pts[i] - pts[0]).to_vector();
+        v2_ = u2 - u2.dot(v0_)*v0_/v0_.dot(v0_)-u2.dot(v1_)*v1_/ v1_.dot(v1_);
+        if (v2_.norm() > 1e-8*v0_.norm())
+            break;
+    }
 
     mat_type ret;
     ret.col(0) = v0_;
-- 
2.43.0


From bab9cf4888cf19d48a57ef06ca0a5c4b973832ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:45 +0000
Subject: [PATCH 40/95] fix: degree ranges of the monomial bases can be
 evaluated

---
 libdiskpp/include/diskpp/bases/bases_new.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_new.hpp b/libdiskpp/include/diskpp/bases/bases_new.hpp
index 362ed24..cb56a5c 100644
--- a/libdiskpp/include/diskpp/bases/bases_new.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_new.hpp
@@ -109,7 +109,7 @@ private:
     }
 
     std::pair<size_t, size_t>
-    deg_range(size_t deg_min, size_t deg_max) {
+    deg_range(size_t deg_min, size_t deg_max) const {
         auto from = (deg_min == 0) ? 0 : size_of_degree(deg_min-1);
         auto to = size_of_degree(deg_max);
         assert(from < size() and to <= size());
@@ -319,7 +319,7 @@ private:
     }
 
     std::pair<size_t, size_t>
-    deg_range(size_t deg_min, size_t deg_max) {
+    deg_range(size_t deg_min, size_t deg_max) const {
         auto from = (deg_min == 0) ? 0 : size_of_degree(deg_min-1);
         auto to = size_of_degree(deg_max);
         assert(from < size() and to <= size());
-- 
2.43.0


From 27803d5277f6309fa1dbc9867132f5b27eaced9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:26 +0000
Subject: [PATCH 41/95] fix: derivatives of the Legendre polynomials of degree
 8 and 10

---
 libdiskpp/include/diskpp/bases/bases_scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_scalar.hpp b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
index be7a593..b64f8f7 100644
--- a/libdiskpp/include/diskpp/bases/bases_scalar.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
@@ -628,11 +628,11 @@ class legendre_1D
             case 5: val = (315 * pows[4] - 210 * pows[2] + 15) / 8; break;
             case 6: val = (1386 * pows[5] - 1260 * pows[3] + 210 * pows[1]) / 16; break;
             case 7: val = (3003 * pows[6] - 3465 * pows[4] + 945 * pows[2] - 35) / 16; break;
-            case 8: val = (51480 * pows[7] - 72012 * pows[5] + 27720 * pows[3] - 2520 * pows[1]) / 128; break;
+            case 8: val = (51480 * pows[7] - 72072 * pows[5] + 27720 * pows[3] - 2520 * pows[1]) / 128; break;
             case 9: val = (109395 * pows[8] - 180180 * pows[6] + 90090 * pows[4] - 13860 * pows[2] + 315) / 128; break;
             case 10:
                 val =
-                  (461890 * pows[9] - 875160 * pows[7] + 450450 * pows[5] - 120120 * pows[3] + 6930 * pows[1]) / 256;
+                  (461890 * pows[9] - 875160 * pows[7] + 540540 * pows[5] - 120120 * pows[3] + 6930 * pows[1]) / 256;
                 break;
         }
         return val / sqrt(T(2) / T(2 * degree + 1));
-- 
2.43.0


From 4e43c835b126efa5dd9314a9d4e9197f280e795c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:26 +0000
Subject: [PATCH 42/95] fix: the Legendre basis of 2D faces is orthonormal as
 it says

---
 libdiskpp/include/diskpp/bases/bases_scalar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_scalar.hpp b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
index b64f8f7..01999e1 100644
--- a/libdiskpp/include/diskpp/bases/bases_scalar.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
@@ -882,7 +882,7 @@ class scaled_legendre_scalar_basis<Mesh<T, 2, Storage>, typename Mesh<T, 2, Stor
     eval_functions(const point_type& pt) const
     {
         const auto        ep      = this->scaling_point(pt);
-        const scalar_type scaling = this->scaling_factor();
+        const scalar_type scaling = sqrt(this->scaling_factor());
 
         return leg_x.eval_functions(ep.x()) * scaling;
     }
-- 
2.43.0


From a979711005c7cf53f1926d8d985812b357babfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:02 +0000
Subject: [PATCH 43/95] fix: values and gradients of the harmonic functions are
 scaled consistently

---
 libdiskpp/include/diskpp/bases/bases_scalar.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_scalar.hpp b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
index 01999e1..21d3210 100644
--- a/libdiskpp/include/diskpp/bases/bases_scalar.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
@@ -1414,7 +1414,8 @@ public:
             assert(polynomial_max_degree < full_basis_degree);
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             function_type hp = eval_harmonic(hep);
-            ret.tail(harmonic_part_size) = hp.tail(harmonic_part_size);
+            /* the factor makes up for the chain rule: gradients are those of eval_harmonic_gradients() */
+            ret.tail(harmonic_part_size) = (diam/2.0)*hp.tail(harmonic_part_size);
         }
         return ret;
     }
@@ -1646,7 +1647,8 @@ public:
             assert(polynomial_max_degree < full_basis_degree);
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             function_type hp = eval_harmonic(hep);
-            ret.tail(harmonic_part_size) = hp.tail(harmonic_part_size);
+            /* the factor makes up for the chain rule: gradients are those of eval_harmonic_gradients() */
+            ret.tail(harmonic_part_size) = (diam/2.0)*hp.tail(harmonic_part_size);
         }
         return ret;
     }
@@ -1904,7 +1906,8 @@ public:
             assert(polynomial_max_degree < full_basis_degree);
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             function_type hp = eval_harmonic(hep);
-            ret.tail(harmonic_part_size) = hp.tail(harmonic_part_size);
+            /* the factor makes up for the chain rule: gradients are those of eval_harmonic_gradients() */
+            ret.tail(harmonic_part_size) = (diam/2.0)*hp.tail(harmonic_part_size);
         }
         return ret;
     }
-- 
2.43.0


From dd53deb0b06e800670411789d4ba08625d551abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:30 +0000
Subject: [PATCH 44/95] fix: 3D harmonic functions and gradients are finite on
 the x axis through the barycenter

---
 .../include/diskpp/bases/bases_scalar.hpp     | 75 +++++++++----------
 1 file changed, 37 insertions(+), 38 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_scalar.hpp b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
index 21d3210..0872a37 100644
--- a/libdiskpp/include/diskpp/bases/bases_scalar.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
@@ -1754,34 +1754,18 @@ private:
         cs_matrix_type Ss = cs_matrix_type::Zero(hmd+1, hmd+1);
         Cs(0,0) = 1.0;
 
-        if (hmd > 0) {
-            Cs(1,0) = bp.x();
-            Cs(1,1) = bp.y();
-            Ss(1,1) = bp.z();
-        }
-
         auto R2 = bp.x()*bp.x() + bp.y()*bp.y() + bp.z()*bp.z();
-        auto r2 = bp.y()*bp.y() + bp.z()*bp.z();
-
-        for(int n = 0; n <= hmd; n++) {
-            for (int m = 0; m <= n; m++) {
-                if (n >= 2 && m < n) {
-                    auto multn = 2*(m+1);
-                    auto multd = (n+m+1)*r2;
-                    auto mult = multn/multd;
-                    auto c1 = (R2*Cs(n-1,m)-bp.x()*Cs(n,m))*bp.y();
-                    auto c2 = (R2*Ss(n-1,m)-bp.x()*Ss(n,m))*bp.z();
-                    Cs(n,m+1) = mult*(c1-c2);
-                    auto s1 = (R2*Ss(n-1,m)-bp.x()*Ss(n,m))*bp.y();
-                    auto s2 = (R2*Cs(n-1,m)-bp.x()*Cs(n,m))*bp.z();
-                    Ss(n,m+1) = mult*(s1+s2);
-                }
-                if (n >= 1 and m < 2 and n < hmd) {
-                    auto mult = 1.0/(n+m+1.0);
-                    Cs(n+1,m) = mult*( (2*n+1)*bp.x()*Cs(n,m) - (n-m)*R2*Cs(n-1, m) );
-                    Ss(n+1,m) = mult*( (2*n+1)*bp.x()*Ss(n,m) - (n-m)*R2*Ss(n-1, m) );
-                }
+
+        for (size_t n = 1; n <= hmd; n++) {
+            for (size_t m = 0; m+1 < n; m++) {
+                auto mult = 1.0/(n+m);
+                Cs(n,m) = mult*( (2*n-1)*bp.x()*Cs(n-1,m) - (n-1-m)*R2*Cs(n-2,m) );
+                Ss(n,m) = mult*( (2*n-1)*bp.x()*Ss(n-1,m) - (n-1-m)*R2*Ss(n-2,m) );
             }
+            Cs(n,n-1) = bp.x()*Cs(n-1,n-1);
+            Ss(n,n-1) = bp.x()*Ss(n-1,n-1);
+            Cs(n,n) = bp.y()*Cs(n-1,n-1) - bp.z()*Ss(n-1,n-1);
+            Ss(n,n) = bp.y()*Ss(n-1,n-1) + bp.z()*Cs(n-1,n-1);
         }
 
         //std::cout << " *** Cs ***" << std::endl;
@@ -1823,23 +1807,38 @@ private:
         auto [Cs, Ss] = eval_cs(bp);
         gradient_type ret = gradient_type::Zero(bsize, 3);
         
-        auto r2 = bp.y()*bp.y() + bp.z()*bp.z();
-
+        /* With H(n,m) = Cs(n,m) + i*Ss(n,m):
+         *  (d/dy + i*d/dz) H(n,m) = -(n-m)*(n-m-1)/(2*(m+1)) * H(n-1,m+1)
+         *  (d/dy - i*d/dz) H(n,m) = 2*m*H(n-1,m-1), for m > 0 */
         size_t ofs = 1;
         for(size_t n = 1; n <= hmd; n++) {
             for (size_t m = 0; m <= n; m++) {
-                ret(ofs, 0) = (n-m)*Cs(n-1,m);
-                ret(ofs, 1) = (bp.y()/r2)*(n*Cs(n,m) - (n-m)*bp.x()*Cs(n-1,m)) + m*Ss(n,m)*bp.z()/r2;
-                ret(ofs, 2) = (bp.z()/r2)*(n*Cs(n,m) - (n-m)*bp.x()*Cs(n-1,m)) - m*Ss(n,m)*bp.y()/r2;
-                ofs++;
-            }
+                scalar_type Cp = 0.0, Sp = 0.0, Cm = 0.0, Sm = 0.0;
+                if (m+1 < n) {
+                    auto mult = -0.25*(n-m)*(n-m-1)/(m+1);
+                    Cp = mult*Cs(n-1,m+1);
+                    Sp = mult*Ss(n-1,m+1);
+                }
+                if (m > 0) {
+                    Cm = scalar_type(m)*Cs(n-1,m-1);
+                    Sm = scalar_type(m)*Ss(n-1,m-1);
+                }
+                else {
+                    Cm = Cp;
+                    Sm = -Sp;
+                }
 
-            for (size_t m = 1; m <= n; m++) {
-                ret(ofs, 0) = (n-m)*Ss(n-1,m);
-                ret(ofs, 1) = (bp.y()/r2)*(n*Ss(n,m) - (n-m)*bp.x()*Ss(n-1,m)) - m*Cs(n,m)*bp.z()/r2;
-                ret(ofs, 2) = (bp.z()/r2)*(n*Ss(n,m) - (n-m)*bp.x()*Ss(n-1,m)) + m*Cs(n,m)*bp.y()/r2;
-                ofs++;
+                ret(ofs+m, 0) = (m < n) ? scalar_type(n-m)*Cs(n-1,m) : scalar_type(0);
+                ret(ofs+m, 1) = Cp + Cm;
+                ret(ofs+m, 2) = Sp - Sm;
+
+                if (m > 0) {
+                    ret(ofs+n+m, 0) = (m < n) ? scalar_type(n-m)*Ss(n-1,m) : scalar_type(0);
+                    ret(ofs+n+m, 1) = Sp + Sm;
+                    ret(ofs+n+m, 2) = Cm - Cp;
+                }
             }
+            ofs += 2*n+1;
         }
         assert(ofs == bsize);
 
-- 
2.43.0


From 8ac4e11606f4099234e4b274506b55826e279d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 45/95] fix: the Raviart-Thomas basis of degree 1 on tetrahedra
 has its fourth function

---
 libdiskpp/include/diskpp/bases/bases_vector.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_vector.hpp b/libdiskpp/include/diskpp/bases/bases_vector.hpp
index ac47f94..a3ef5e2 100644
--- a/libdiskpp/include/diskpp/bases/bases_vector.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_vector.hpp
@@ -892,10 +892,9 @@ class scaled_monomial_vector_basis_RT<Mesh<T, 3, Storage>, typename Mesh<T, 3, S
         ret.block(0, 0, vector_basis.size(), 3) = vector_basis.eval_functions(pt);
 
         const auto sphi = scalar_basis.eval_functions(pt);
-        size_t     deg  = 0;
-        if (basis_degree > 2)
-            deg = basis_degree - 2;
-        const auto beg    = scalar_basis_size(deg, 3);
+        size_t     beg  = 0;
+        if (basis_degree >= 2)
+            beg = scalar_basis_size(basis_degree - 2, 3);
         const auto offset = vector_basis.size();
 
         const auto bx = (pt.x() - cell_bar.x());
@@ -922,10 +921,9 @@ class scaled_monomial_vector_basis_RT<Mesh<T, 3, Storage>, typename Mesh<T, 3, S
 
         const auto sphi  = scalar_basis.eval_functions(pt);
         const auto sdphi = scalar_basis.eval_gradients(pt);
-        size_t     deg   = 0;
-        if (basis_degree > 2)
-            deg = basis_degree - 2;
-        const auto beg    = scalar_basis_size(deg, 3);
+        size_t     beg   = 0;
+        if (basis_degree >= 2)
+            beg = scalar_basis_size(basis_degree - 2, 3);
         const auto offset = vector_basis.size();
 
         const auto bx = (pt.x() - cell_bar.x());
-- 
2.43.0


From 4c77f1f12dc2d40f69aef2f18ff7596a2561cb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 46/95] fix: number of functions of the symmetric
 Raviart-Thomas basis on tetrahedra

---
 libdiskpp/include/diskpp/bases/bases_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_matrix.hpp b/libdiskpp/include/diskpp/bases/bases_matrix.hpp
index 057fc3c..9ef25f3 100644
--- a/libdiskpp/include/diskpp/bases/bases_matrix.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_matrix.hpp
@@ -752,7 +752,7 @@ class scaled_monomial_sym_matrix_basis_RT<Mesh<T, 3, Storage>, typename Mesh<T,
         const auto sphi = scalar_basis.eval_functions(pt);
         size_t     beg  = 0;
         if (basis_degree >= 2)
-            beg = scalar_basis_size(basis_degree - 2, 2);
+            beg = scalar_basis_size(basis_degree - 2, 3);
 
         const auto bx = (pt.x() - cell_bar.x());
         const auto by = (pt.y() - cell_bar.y());
-- 
2.43.0


From d5b4110e6c155110c72f7a90035782c331b80214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 47/95] fix: sym_matrix_basis_size refuses the dimensions it
 does not know

---
 libdiskpp/include/diskpp/bases/bases_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_matrix.hpp b/libdiskpp/include/diskpp/bases/bases_matrix.hpp
index 9ef25f3..357fcde 100644
--- a/libdiskpp/include/diskpp/bases/bases_matrix.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_matrix.hpp
@@ -238,7 +238,7 @@ sym_matrix_basis_size(size_t k, size_t sd, size_t vd)
 
         case 2: md = 3; break;
 
-        default: std::logic_error("Expected 3 >= dim > 1");
+        default: throw std::logic_error("Expected 3 >= dim > 1");
     }
 
     if (k == 0)
-- 
2.43.0


From 8264e810f204cbeb378a3b58bdea5fb6fe1ebe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 48/95] fix: reference frame of faces with aligned vertices for
 the tangential bases

---
 libdiskpp/include/diskpp/bases/bases_all.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_all.hpp b/libdiskpp/include/diskpp/bases/bases_all.hpp
index 3ade87c..d38cb84 100644
--- a/libdiskpp/include/diskpp/bases/bases_all.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_all.hpp
@@ -451,13 +451,13 @@ class scaled_monomial_abstract_face_basis<Mesh<T, 3, Storage>, typename Mesh<T,
         {
             const size_t i0 = (i + 1) % npts;
             const size_t i1 = (i - 1) % npts;
-            v0              = (pts[i0] - pts[i]).to_vector();
-            v1              = (pts[i1] - pts[i]).to_vector();
+            v0              = (pts[i0] - pts[i % npts]).to_vector();
+            v1              = (pts[i1] - pts[i % npts]).to_vector();
 
             const vector_type v0n = v0 / v0.norm();
             const vector_type v1n = v1 / v1.norm();
 
-            if (v0n.dot(v1n) < 0.99) // we want at least 8 degrees angle
+            if (std::abs(v0n.dot(v1n)) < 0.99) // we want at least 8 degrees angle
             {
                 ok = true;
                 break;
-- 
2.43.0


From e1611c6516b506e543f65badfbb851af9f5a061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 49/95] fix: the tangential bases do not claim to be
 orthonormal

---
 libdiskpp/include/diskpp/bases/bases_all.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_all.hpp b/libdiskpp/include/diskpp/bases/bases_all.hpp
index d38cb84..d28eb1c 100644
--- a/libdiskpp/include/diskpp/bases/bases_all.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_all.hpp
@@ -517,7 +517,7 @@ class scaled_monomial_abstract_face_basis<Mesh<T, 3, Storage>, typename Mesh<T,
     bool
     is_orthonormal() const
     {
-        return true;
+        return false;
     }
 };
 
-- 
2.43.0


From fe08825bb2e563eec561e6da93b711233fca20f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 50/95] fix: L2_projector integrates with the degree of the
 functions it projects

---
 libdiskpp/include/diskpp/bases/bases_new.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_new.hpp b/libdiskpp/include/diskpp/bases/bases_new.hpp
index cb56a5c..4f13eea 100644
--- a/libdiskpp/include/diskpp/bases/bases_new.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_new.hpp
@@ -835,24 +835,25 @@ class L2_projector
     using rhs_func_type = std::function<typename Basis::value_type(typename Basis::point_type)>;
     static const size_t immersion_dimension = Basis::immersion_dimension;
 
+    const mesh_type& msh_;
+    element_type elem_;
     const Basis& basis_;
 
     using matrix_type = Eigen::Matrix<scalar_type, Eigen::Dynamic, Eigen::Dynamic>;
     using vector_type = Eigen::Matrix<scalar_type, Eigen::Dynamic, 1>;
 
     matrix_type mass_;
-    std::vector<quadrature_point<coordinate_type, immersion_dimension>> qps_;
 
     Eigen::LDLT<matrix_type> ldlt_;
 
 public:
     L2_projector(const mesh_type& msh, const element_type& elem, const Basis& pb)
-        : basis_(pb)
+        : msh_(msh), elem_(elem), basis_(pb)
     {
         auto degree = basis_.integration_degree()*2;
         mass_ = matrix_type::Zero(basis_.size(), basis_.size());
-        qps_ = integrate(msh, elem, degree);
-        for (auto& qp : qps_) {
+        auto qps = integrate(msh, elem, degree);
+        for (auto& qp : qps) {
             auto phi = basis_(qp.point());
             mass_ += qp.weight() * phi * phi.transpose();
         }
@@ -862,7 +863,8 @@ public:
     vector_type operator()(const rhs_func_type& f) const {
         auto degree = basis_.integration_degree()*2+1;
         vector_type rhs = vector_type::Zero(basis_.size());
-        for (auto& qp : qps_) {
+        auto qps = integrate(msh_, elem_, degree);
+        for (auto& qp : qps) {
             auto phi = basis_(qp.point());
             /* This must be fixed, for now it works only with
              * scalar-valued and vector-valued functions */
@@ -879,7 +881,8 @@ public:
     {
         auto degree = basis_.integration_degree() + other.integration_degree();
         matrix_type rhs = matrix_type::Zero(basis_.size(), other.size());
-        for (auto& qp : qps_) {
+        auto qps = integrate(msh_, elem_, degree);
+        for (auto& qp : qps) {
             auto test = basis_(qp.point());
             auto trial = other(qp.point());
             /* This must be fixed, for now it works only with
-- 
2.43.0


From 125ffbde632474f821f7cc6d9efea03dda30636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 51/95] fix: Raviart-Thomas gradient reconstructions did not
 compile, and by mesh degrees used the plain basis

---
 .../methods/implementation_hho/vector_hho_gradrec.hpp       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
index 2a726bf..eed9722 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
@@ -302,7 +302,7 @@ make_vector_hho_gradrec_RT(const Mesh& msh, const typename Mesh::cell_type& cl,
 
     const CellDegreeInfo<Mesh> cell_infos(msh, cl, di.cell_degree(), di.face_degree(), di.grad_degree());
 
-    return make_vector_hho_gradrec_impl(msh, cl, cell_infos, gb);
+    return priv::make_vector_hho_gradrec_impl(msh, cl, cell_infos, gb);
 }
 
 /**
@@ -332,9 +332,9 @@ std::pair<dynamic_matrix<typename Mesh::coordinate_type>, dynamic_matrix<typenam
 make_vector_hho_gradrec_RT(const Mesh& msh, const typename Mesh::cell_type& cl, const MeshDegreeInfo<Mesh>& msh_infos)
 {
     const auto cell_infos = msh_infos.cellDegreeInfo(msh, cl);
-    const auto gb         = make_vector_monomial_basis(msh, cl, cell_infos.grad_degree());
+    const auto gb         = make_vector_monomial_basis_RT(msh, cl, cell_infos.grad_degree());
 
-    return make_vector_hho_gradrec_impl(msh, cl, cell_infos, gb);
+    return priv::make_vector_hho_gradrec_impl(msh, cl, cell_infos, gb);
 }
 
 /**
-- 
2.43.0


From 79bc23d47670abf0125505775ae9fefa9d621a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 52/95] fix: gradient and divergence reconstructions dropped
 the boundary term of faces without unknowns

---
 .../implementation_hho/scalar_hho_divrec.hpp      | 14 ++++++++++++++
 .../implementation_hho/vector_hho_gradrec.hpp     | 15 +++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_hho_divrec.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_hho_divrec.hpp
index e2e6cef..d008b8d 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_hho_divrec.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_hho_divrec.hpp
@@ -139,6 +139,20 @@ make_hho_divergence_reconstruction_rhs(const Mesh&                     msh,
 
             offset += fbs;
         }
+        else
+        {
+            // no unknowns on this face: its value is the trace of the cell unknown
+            const auto fc    = fcs[i];
+            const auto n     = normal(msh, cl, fc);
+            const auto qps_f = integrate(msh, fc, celdeg + recdeg);
+            for (auto& qp : qps_f)
+            {
+                const auto s_phi      = cbas_s.eval_functions(qp.point());
+                const auto v_phi      = cbas_v.eval_functions(qp.point());
+                const auto qp_v_phi_n = priv::inner_product(v_phi, priv::inner_product(qp.weight(), n));
+                dr_rhs.block(0, 0, rbs, cbs) += priv::outer_product(s_phi, qp_v_phi_n);
+            }
+        }
     }
 
     return dr_rhs;
diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
index eed9722..cb71daa 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
@@ -105,6 +105,21 @@ make_vector_hho_gradrec_impl(const Mesh&                     msh,
             }
             offset += fbs;
         }
+        else
+        {
+            // no unknowns on this face: its value is the trace of the cell unknown
+            const auto fc    = fcs[i];
+            const auto n     = normal(msh, cl, fc);
+            const auto qps_f = integrate(msh, fc, graddeg + celdeg);
+            for (auto& qp : qps_f)
+            {
+                const vector_type c_phi      = cb.eval_functions(qp.point());
+                const auto        g_phi      = gb.eval_functions(qp.point());
+                const vector_type qp_g_phi_n = g_phi * (qp.weight() * n);
+
+                gr_rhs.block(0, 0, gbs, cbs) += priv::outer_product(qp_g_phi_n, c_phi);
+            }
+        }
     }
 
     matrix_type oper = gr_lhs.ldlt().solve(gr_rhs);
-- 
2.43.0


From bf61eac336701a9da129c75c984e6c7433d0f121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 53/95] fix: make_scalar_dg_stabilization_fluxes did not
 compile

---
 .../diskpp/methods/implementation_hho/scalar_stabilization.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
index d647491..a206465 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
@@ -1044,7 +1044,7 @@ make_scalar_dg_stabilization_fluxes(const Mesh&                     msh,
 {
     const auto stab    = make_scalar_dg_stabilization_diff(msh, cl, cell_infos, hF);
     const auto adjoint = make_scalar_stabilization_fluxes(msh, cl, cell_infos, stab, hF);
-    return adjoint * make_scalar_hho_difference(msh, cl, cell_infos, hF);
+    return adjoint * make_scalar_hho_difference(msh, cl, cell_infos);
 }
 
 /**
-- 
2.43.0


From ded1165a4937332715447cc4de4330f2296f2b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 54/95] fix: make_scalar_hho_stabilization_fluxes mixed face
 and cell scalings

---
 .../diskpp/methods/implementation_hho/scalar_stabilization.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
index a206465..09ba202 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
@@ -936,7 +936,7 @@ make_scalar_hho_stabilization_fluxes(const Mesh&              msh,
     using T = typename Mesh::coordinate_type;
     typedef Matrix<T, Dynamic, Dynamic> matrix_type;
 
-    const matrix_type stab = make_scalar_hho_stabilization(msh, cl, reconstruction, cell_infos);
+    const matrix_type stab = make_scalar_hho_stabilization(msh, cl, reconstruction, cell_infos, hF);
 
     const auto celdeg = cell_infos.cell_degree();
 
-- 
2.43.0


From 80813a8d61e5c7e2b4734d13dc8480dee9a36d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 55/95] fix: make_scalar_hho_stabilization by hho_degree_info
 ignored the scaling flag

---
 .../implementation_hho/scalar_stabilization.hpp        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
index 09ba202..44c8f97 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
@@ -811,7 +811,8 @@ make_scalar_hho_stabilization(const Mesh&                 msh,
     const typename Mesh::cell_type&                       cl,
     const ScalarReconstructionBasis&                      rb,
     const dynamic_matrix<typename Mesh::coordinate_type>& reconstruction,
-    const hho_degree_info&                                hdi)
+    const hho_degree_info&                                hdi,
+    bool                                                  hF = false)
 {
     using T = typename Mesh::coordinate_type;
     typedef Matrix<T, Dynamic, Dynamic> matrix_type;
@@ -853,7 +854,7 @@ make_scalar_hho_stabilization(const Mesh&                 msh,
 
     matrix_type data = matrix_type::Zero(cbs + num_faces_dofs, cbs + num_faces_dofs);
 
-    T h = diameter(msh, cl);
+    const T hT = diameter(msh, cl);
 
     // Step 3: project on faces (eqn. 21)
     size_t offset = cbs;
@@ -892,6 +893,7 @@ make_scalar_hho_stabilization(const Mesh&                 msh,
         const matrix_type proj3 = piKF.solve(MR2 * proj1);
         const matrix_type BRF   = proj2 + proj3;
 
+        const T h = hF ? T(diameter(msh, fc)) : hT;
         data += BRF.transpose() * face_mass_matrix * BRF / h;
 
         offset += fbs;
@@ -906,10 +908,10 @@ make_scalar_hho_stabilization(const Mesh&                     msh,
         const typename Mesh::cell_type&                       cl,
         const dynamic_matrix<typename Mesh::coordinate_type>& reconstruction,
         const hho_degree_info&                                hdi,
-        bool x = false)
+        bool                                                  hF = false)
 {
     auto rb = make_scalar_monomial_basis(msh, cl, hdi.reconstruction_degree());
-    return make_scalar_hho_stabilization(msh, cl, rb, reconstruction, hdi);
+    return make_scalar_hho_stabilization(msh, cl, rb, reconstruction, hdi, hF);
 }
 
 /**
-- 
2.43.0


From 82f84a296f9b6201d9ed8ad119564adb32a4c5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 56/95] fix: project_function of a scalar by mesh degrees did
 not compile

---
 .../include/diskpp/methods/implementation_hho/methods_hho.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/methods_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/methods_hho.hpp
index 9c076b7..53e1a7d 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/methods_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/methods_hho.hpp
@@ -303,7 +303,7 @@ project_function(const Mesh&                      msh,
     const auto cdi    = degree_infos.cellDegreeInfo(msh, cl);
     const auto fcs_di = cdi.facesDegreeInfo();
 
-    const auto num_faces_dofs = scalar_faces_dofs(msh, cl, fcs_di);
+    const auto num_faces_dofs = scalar_faces_dofs(msh, fcs_di);
 
     const auto cbs = scalar_basis_size(cdi.cell_degree(), Mesh::dimension);
 
-- 
2.43.0


From c267923e9147d23e1ada3b0de2dd677efc228747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 57/95] fix: make_vector_hho_laplacian by mesh degrees did not
 compile

---
 .../diskpp/methods/implementation_hho/vector_hho_laplacian.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_laplacian.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_laplacian.hpp
index efc2e1f..f679c98 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_laplacian.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_laplacian.hpp
@@ -195,7 +195,7 @@ make_vector_hho_laplacian(const Mesh& msh, const typename Mesh::cell_type& cl, c
 {
     const auto hho_scalar_laplacian = make_scalar_hho_laplacian(msh, cl, mesh_infos);
 
-    return make_vector_hho_laplacian(msh, cl, mesh_infos.cellDegreeInfo(msh, cl), hho_scalar_laplacian);
+    return make_vector_hho_laplacian(msh, cl, mesh_infos, hho_scalar_laplacian);
 }
 
 template<typename Mesh>
-- 
2.43.0


From eccd1b25b7ed6b3186f5967b4e5df046326dcbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 58/95] fix: maxwell_prj integrated the face unknowns over the
 cell

---
 libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
index 384c96b..3937dd3 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
@@ -401,7 +401,7 @@ maxwell_prj(const Mesh& msh, const typename Mesh::cell_type& cl,
     {
         const auto& fc = fcs[i];
         const auto fb = make_vector_monomial_tangential_basis(msh, fc, hdi.face_degree());
-        const auto qps_f = integrate(msh, cl, 2*hdi.face_degree());
+        const auto qps_f = integrate(msh, fc, 2*hdi.face_degree());
         dynamic_matrix<T> fmat = dynamic_matrix<T>::Zero(fbs, fbs);
         dynamic_matrix<T> frhs = dynamic_vector<T>::Zero(fbs);
         for (const auto& qp : qps_f)
-- 
2.43.0


From 385e9678184ff132638f1e4a462160a0979b81b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 59/95] fix: curl_reconstruction_pk and _nedelec
 under-integrated the mass of the reconstruction space

---
 libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
index 3937dd3..a5632c9 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
@@ -443,7 +443,7 @@ curl_reconstruction_pk(const Mesh&                       msh,
     matrix_type mass = matrix_type::Zero(rbs, rbs);
     matrix_type cr_rhs = matrix_type::Zero(rbs, cbs + num_faces_dofs);
 
-    const auto qps = integrate(msh, cl, 2*celdeg+2);
+    const auto qps = integrate(msh, cl, std::max(2*celdeg+2, 2*recdeg));
     for (auto& qp : qps)
     {
         const auto r_phi = rb.eval_functions(qp.point());
@@ -510,7 +510,7 @@ curl_reconstruction_nedelec(const Mesh&                       msh,
     matrix_type mass = matrix_type::Zero(rbs, rbs);
     matrix_type cr_rhs = matrix_type::Zero(rbs, cbs + num_faces_dofs);
 
-    const auto qps = integrate(msh, cl, 2*celdeg+2);
+    const auto qps = integrate(msh, cl, std::max(2*celdeg+2, 2*recdeg));
     for (auto& qp : qps)
     {
         const auto r_phi = rb.eval_functions(qp.point());
-- 
2.43.0


From 377541d865d0ddfb920a75ee5103806add38a5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 60/95] fix: static condensation of complex symmetric systems
 dropped the imaginary part of the pivots

---
 .../methods/implementation_hho/curl.hpp       | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
index a5632c9..d7f9c96 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
@@ -569,12 +569,13 @@ static_condensation(const dynamic_matrix<T>& lhs, const dynamic_vector<T>& rhs,
     dynamic_vector<T> bT = rhs.segment(     0, t_size);
     dynamic_vector<T> bF = rhs.segment(tf_bnd, f_size);
 
-    LDLT<dynamic_matrix<T>> ldlt_LTT(LTT);
-    if (ldlt_LTT.info() != Eigen::Success)
+    /* Not LDLT: in lossy media LTT is complex symmetric, not Hermitian */
+    FullPivLU<dynamic_matrix<T>> lu_LTT(LTT);
+    if (not lu_LTT.isInvertible())
         throw std::invalid_argument("Can't factorize matrix for static condensation");
 
-    dynamic_matrix<T> LC = LFF - LFT*ldlt_LTT.solve(LTF);
-    dynamic_vector<T> bC = bF - LFT*ldlt_LTT.solve(bT);
+    dynamic_matrix<T> LC = LFF - LFT*lu_LTT.solve(LTF);
+    dynamic_vector<T> bC = bF - LFT*lu_LTT.solve(bT);
 
     return std::make_pair(LC, bC);
 }
@@ -592,11 +593,12 @@ static_condensation(const dynamic_matrix<T>& lhs,
     dynamic_matrix<T> LFT = lhs.block(tf_bnd,      0, f_size, t_size);
     dynamic_matrix<T> LFF = lhs.block(tf_bnd, tf_bnd, f_size, f_size);
 
-    LDLT<dynamic_matrix<T>> ldlt_LTT(LTT);
-    if (ldlt_LTT.info() != Eigen::Success)
+    /* Not LDLT: in lossy media LTT is complex symmetric, not Hermitian */
+    FullPivLU<dynamic_matrix<T>> lu_LTT(LTT);
+    if (not lu_LTT.isInvertible())
         throw std::invalid_argument("Can't factorize matrix for static condensation");
 
-    dynamic_matrix<T> LC = LFF - LFT*ldlt_LTT.solve(LTF);
+    dynamic_matrix<T> LC = LFF - LFT*lu_LTT.solve(LTF);
 
     return LC;
 }
@@ -616,11 +618,12 @@ static_decondensation(const dynamic_matrix<T>& lhs, const dynamic_vector<T>& rhs
     dynamic_vector<T> bT = rhs.segment(0, t_size);
 
     dynamic_vector<T> ret = dynamic_vector<T>::Zero(lhs.rows());
-    LDLT<dynamic_matrix<T>> ldlt_LTT(LTT);
-    if (ldlt_LTT.info() != Eigen::Success)
+    /* Not LDLT: in lossy media LTT is complex symmetric, not Hermitian */
+    FullPivLU<dynamic_matrix<T>> lu_LTT(LTT);
+    if (not lu_LTT.isInvertible())
         throw std::invalid_argument("Can't factorize matrix for static condensation");
 
-    ret.segment(     0, t_size) = ldlt_LTT.solve(bT - LTF*uF);
+    ret.segment(     0, t_size) = lu_LTT.solve(bT - LTF*uF);
     ret.segment(tf_bnd, f_size) = uF;
 
     return ret;
@@ -639,11 +642,12 @@ static_decondensation(const dynamic_matrix<T>& lhs,
     dynamic_matrix<T> LTF = lhs.block(0, tf_bnd, t_size, f_size);
 
     dynamic_matrix<T> ret = dynamic_matrix<T>::Zero(lhs.rows(), uF.cols());
-    LDLT<dynamic_matrix<T>> ldlt_LTT(LTT);
-    if (ldlt_LTT.info() != Eigen::Success)
+    /* Not LDLT: in lossy media LTT is complex symmetric, not Hermitian */
+    FullPivLU<dynamic_matrix<T>> lu_LTT(LTT);
+    if (not lu_LTT.isInvertible())
         throw std::invalid_argument("Can't factorize matrix for static condensation");
 
-    ret.block(0, 0, t_size, uF.cols()) = ldlt_LTT.solve(-LTF*uF);
+    ret.block(0, 0, t_size, uF.cols()) = lu_LTT.solve(-LTF*uF);
     ret.block(tf_bnd, 0, f_size, uF.cols()) = uF;
 
     return ret;
-- 
2.43.0


From 225c47476762595159966a93278be55d678b4ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:27 +0000
Subject: [PATCH 61/95] fix: recovery of local solutions by
 vector_primal_hho_assembler did not compile

---
 .../include/diskpp/methods/implementation_hho/assembler_hho.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index 6ed23c3..d766700 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -3178,7 +3178,7 @@ class vector_primal_hho_assembler
     {
         const auto face_id = msh.lookup(fc);
 
-        const auto n_face_dofs = num_faces_dofs(face_id);
+        const auto n_face_dofs = num_face_dofs(face_id);
 
         vector_type ret = vector_type::Zero(n_face_dofs);
 
-- 
2.43.0


From 3a186e432129f6235d531e2167f5bc985bdaaed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 62/95] fix: Neumann conditions on faces with constrained
 components were added to wrong unknowns

---
 .../implementation_hho/assembler_hho.hpp      | 63 +++++++++++--------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index d766700..5fbf90f 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -2249,6 +2249,9 @@ class assembler_mechanics
 
                     if (bnd.is_dirichlet_face(face_id))
                     {
+                        // the free components of the face are numbered contiguously
+                        size_t ind_sol = 0;
+
                         switch (bnd.dirichlet_boundary_type(face_id))
                         {
                             case disk::DIRICHLET:
@@ -2267,10 +2270,10 @@ class assembler_mechanics
                             {
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i + 1) += neumann(i + 1);
+                                    RHS(face_offset + ind_sol++) += neumann(i + 1);
                                     if (dimension == 3)
                                     {
-                                        RHS(face_offset + i + 2) += neumann(i + 2);
+                                        RHS(face_offset + ind_sol++) += neumann(i + 2);
                                     }
                                 }
                                 break;
@@ -2279,10 +2282,10 @@ class assembler_mechanics
                             {
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i) = neumann(i);
+                                    RHS(face_offset + ind_sol++) += neumann(i);
                                     if (dimension == 3)
                                     {
-                                        RHS(face_offset + i + 2) += neumann(i + 2);
+                                        RHS(face_offset + ind_sol++) += neumann(i + 2);
                                     }
                                 }
 
@@ -2294,8 +2297,8 @@ class assembler_mechanics
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i) += neumann(i);
-                                    RHS(face_offset + i + 1) += neumann(i + 1);
+                                    RHS(face_offset + ind_sol++) += neumann(i);
+                                    RHS(face_offset + ind_sol++) += neumann(i + 1);
                                 }
                                 break;
                             }
@@ -2305,7 +2308,7 @@ class assembler_mechanics
                                 {
                                     if (dimension == 3)
                                     {
-                                        RHS(face_offset + i + 2) += neumann(i + 2);
+                                        RHS(face_offset + ind_sol++) += neumann(i + 2);
                                     }
                                 }
                                 break;
@@ -2316,7 +2319,7 @@ class assembler_mechanics
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i + 1) += neumann(i + 1);
+                                    RHS(face_offset + ind_sol++) += neumann(i + 1);
                                 }
                                 break;
                             }
@@ -2326,7 +2329,7 @@ class assembler_mechanics
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i) += neumann(i);
+                                    RHS(face_offset + ind_sol++) += neumann(i);
                                 }
                                 break;
                             }
@@ -3828,6 +3831,9 @@ class vector_primal_hho_assembler
 
                     if (bnd.is_dirichlet_face(face_id))
                     {
+                        // the free components of the face are numbered contiguously
+                        size_t ind_sol = 0;
+
                         switch (bnd.dirichlet_boundary_type(face_id))
                         {
                             case DIRICHLET:
@@ -3846,10 +3852,10 @@ class vector_primal_hho_assembler
                             {
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 1)));
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i + 2, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 2)));
                                     }
                                 }
                                 break;
@@ -3858,10 +3864,10 @@ class vector_primal_hho_assembler
                             {
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i)));
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 2)));
                                     }
                                 }
 
@@ -3873,8 +3879,8 @@ class vector_primal_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 1)));
                                 }
                                 break;
                             }
@@ -3884,7 +3890,7 @@ class vector_primal_hho_assembler
                                 {
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i + 2, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 2)));
                                     }
                                 }
                                 break;
@@ -3895,7 +3901,7 @@ class vector_primal_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 1)));
                                 }
                                 break;
                             }
@@ -3905,7 +3911,7 @@ class vector_primal_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i)));
                                 }
                                 break;
                             }
@@ -4666,6 +4672,9 @@ class vector_mechanics_hho_assembler
 
                     if (bnd.is_dirichlet_face(face_id))
                     {
+                        // the free components of the face are numbered contiguously
+                        size_t ind_sol = 0;
+
                         switch (bnd.dirichlet_boundary_type(face_id))
                         {
                             case DIRICHLET:
@@ -4684,10 +4693,10 @@ class vector_mechanics_hho_assembler
                             {
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 1)));
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i + 2, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 2)));
                                     }
                                 }
                                 break;
@@ -4696,10 +4705,10 @@ class vector_mechanics_hho_assembler
                             {
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i)));
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 2)));
                                     }
                                 }
 
@@ -4711,8 +4720,8 @@ class vector_mechanics_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 1)));
                                 }
                                 break;
                             }
@@ -4722,7 +4731,7 @@ class vector_mechanics_hho_assembler
                                 {
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i + 2, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 2)));
                                     }
                                 }
                                 break;
@@ -4733,7 +4742,7 @@ class vector_mechanics_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 1)));
                                 }
                                 break;
                             }
@@ -4743,7 +4752,7 @@ class vector_mechanics_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i)));
                                 }
                                 break;
                             }
-- 
2.43.0


From 7a391c3a502e6bdcef79982b36c05e04b70ab46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:59 +0000
Subject: [PATCH 63/95] fix: stokes_assembler::assemble_alg did not compile

---
 .../diskpp/methods/implementation_hho/assembler_hho.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index 5fbf90f..afc16d2 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -793,14 +793,14 @@ class stokes_assembler
             if (!asm_map[i].assemble())
                 continue;
 
-            RHS(asm_map[i]) += rhs(i);
+            RHS[asm_map[i]] += rhs(i);
 
             for (size_t j = 0; j < lhs_A.cols(); j++)
             {
                 if (asm_map[j].assemble())
                     triplets.push_back(Triplet<T>(asm_map[i], asm_map[j], lhs_A(i, j)));
                 else
-                    RHS(asm_map[i]) -= lhs_A(i, j) * dirichlet_data(j);
+                    RHS[asm_map[i]] -= lhs_A(i, j) * dirichlet_data(j);
             }
         }
 
-- 
2.43.0


From 1cb714ada03a4a390c9fd038e6d6efa6735b65a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 64/95] fix: stokes_assembler::assemble and take_velocity
 projected the Dirichlet data differently

---
 .../include/diskpp/methods/implementation_hho/assembler_hho.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index afc16d2..3d8eb2b 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -684,7 +684,7 @@ class stokes_assembler
                 auto dirichlet_fun = m_bnd.dirichlet_boundary_func(face_id);
 
                 dirichlet_data.block(cbs_A + face_i * fbs_A, 0, fbs_A, 1) =
-                  project_function(msh, fc, di.face_degree(), dirichlet_fun, di.face_degree());
+                  project_function(msh, fc, di.face_degree(), dirichlet_fun, 2);
             }
         }
 
-- 
2.43.0


From 9755892be6730559bd2966a39ef3723bf64267d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 65/95] fix: mesh_hierarchy::locate_point accessed a mesh level
 that does not exist

---
 libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index e98b758..7cad847 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -353,7 +353,7 @@ class mesh_hierarchy
     size_t
     locate_recursive(const point_type& pt, size_t cur_level, size_t max_level, size_t tri_num)
     {
-        if (max_level > meshes.size())
+        if (max_level >= meshes.size())
             throw std::invalid_argument("inexistent mesh level");
 
         if (cur_level > max_level)
-- 
2.43.0


From 997ada83039be9f5ec46f029415ec382075bbc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 66/95] fix: mesh_hierarchy::locate_point did not find points
 on the edges of the triangles

---
 libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index 7cad847..8b9682e 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -25,6 +25,7 @@
 #include <vector>
 #include <array>
 #include <map>
+#include <limits>
 #include <list>
 #include <random>
 
@@ -345,7 +346,8 @@ class mesh_hierarchy
         auto u = (dot11 * dot02 - dot01 * dot12) * invDenom;
         auto v = (dot00 * dot12 - dot01 * dot02) * invDenom;
 
-        auto thresh = 0.0;
+        /* points on an edge must be found in at least one of its triangles */
+        auto thresh = 1e4 * std::numeric_limits<T>::epsilon();
 
         return (u >= (0-thresh)) && (v >= (0-thresh)) && (u + v <= (1+thresh));
     }
-- 
2.43.0


From c34aa166577d5948a2af9fa57fc014b0df312237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 67/95] fix: refined meshes of mesh_hierarchy had no subdomain
 information and uninitialised boundary ids

---
 libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index 8b9682e..82876de 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -55,6 +55,7 @@ class mesh_hierarchy
             p1          = ptids[1];
             assert(p0 < p1);
             is_boundary = msh.is_boundary(e);
+            boundary_id = 0;
             if(is_boundary)
                 boundary_id = msh.boundary_id(e);
 
@@ -71,6 +72,7 @@ class mesh_hierarchy
 
             is_boundary         = bnd;
             is_broken           = false;
+            boundary_id         = 0;
         }
 
         edge(size_t ap0, size_t ap1, size_t bid, bool bnd)
@@ -400,6 +402,15 @@ public:
             //next_mesh.statistics();
             meshes.push_back( next_mesh );
             auto c2f = make_coarse_to_fine_map(meshes[i], meshes[i+1]);
+
+            /* the subdomains are inherited from the coarse mesh */
+            auto coarse_bs = meshes[i].backend_storage();
+            auto fine_bs = meshes[i+1].backend_storage();
+            fine_bs->subdomain_info.resize( meshes[i+1].cells_size() );
+            for (size_t ci = 0; ci < c2f.size() and ci < coarse_bs->subdomain_info.size(); ci++)
+                for (auto& fi : c2f[ci])
+                    fine_bs->subdomain_info[fi] = coarse_bs->subdomain_info[ci];
+
             coarse_to_fine.push_back( std::move(c2f) );
         }
 
-- 
2.43.0


From 34e0e642921beec6d37a32d91e09a8573fce2b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:28 +0000
Subject: [PATCH 68/95] fix: the first order VEM projector did not reproduce
 affine functions

---
 .../methods/implementation_vem/methods_vem_2d.hpp      | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
index f52b55e..8fe0614 100644
--- a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
@@ -288,6 +288,16 @@ matrix_G(const Mesh&    msh,
     const auto cb  = make_scalar_monomial_basis(msh, cl, degree);
     dynamic_matrix<T> stiffness = make_stiffness_matrix(msh, cl, cb);
 
+    if (degree == 1)
+    {
+        /* the constant is fixed by the average of the vertex values, as in matrix_B() */
+        const auto pts = points(msh, cl);
+        for (auto& pt : pts)
+            stiffness.row(0) += cb.eval_functions(pt).transpose();
+        stiffness.row(0) /= T(pts.size());
+        return stiffness;
+    }
+
     const auto qps = integrate(msh, cl, 2 * (degree - 1));
     for (auto& qp : qps)
     {
-- 
2.43.0


From d2dc7f336629e39c0eb252bb0399dafc641ceb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:28 +0000
Subject: [PATCH 69/95] fix: vem_2d::projector_zero dropped the highest order
 terms of the elliptic projection

---
 .../methods/implementation_vem/methods_vem_2d.hpp     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
index 8fe0614..09bdd1f 100644
--- a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
@@ -556,11 +556,15 @@ projector_zero(const Mesh& msh,
     const auto num_faces = howmany_faces(msh, cl);
     const auto offset = num_faces * degree;
 
+    /* products with the basis of the elliptic projection, which has a higher degree */
+    const auto cb = make_scalar_monomial_basis(msh, cl, degree);
+    const matrix_t mass = make_mass_matrix(msh, cl, cb);
+    const matrix_t M = mass.topRows(pbs);
+
     matrix_t C;
     if (degree == 1)
     {
-        C.resize(pbs, offset);
-        C = H * PIN_star.block(0, 0, pbs, offset);
+        C = M * PIN_star;
     }
     else
     {
@@ -569,8 +573,7 @@ projector_zero(const Mesh& msh,
         C = matrix_t::Zero(pbs, num_dofs);
 
         C.block(0, offset, lbs, lbs) = matrix_t::Identity(lbs, lbs) * measure(msh, cl);
-        C.block(lbs, 0, pbs - lbs, num_dofs) =
-            H.block(lbs, 0, pbs - lbs, pbs) * PIN_star.block(0, 0, pbs, num_dofs);
+        C.block(lbs, 0, pbs - lbs, num_dofs) = M.bottomRows(pbs - lbs) * PIN_star;
     }
 
     //std::cout << "PIN* \n" << PIN_star << std::endl;
-- 
2.43.0


From 4523ecf0ca2cbfa0cffffdf9aa4ce9495fe0377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:28 +0000
Subject: [PATCH 70/95] fix: faces_ccw() returned the faces of half of the
 triangles clockwise

---
 .../methods/implementation_vem/methods_vem_2d.hpp    | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
index 09bdd1f..702a754 100644
--- a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
@@ -41,6 +41,18 @@ faces_ccw(const simplicial_mesh<T,2>& msh, const typename simplicial_mesh<T,2>::
     auto ptids = cl.point_ids();
     std::array< std::pair<face_type, bool>, 3> reorder;
 
+    /* the sorted vertices of a triangle can run in both directions */
+    auto pts = points(msh, cl);
+    auto v0 = pts[1] - pts[0];
+    auto v1 = pts[2] - pts[0];
+    if (v0.x()*v1.y() - v0.y()*v1.x() < 0)
+    {
+        reorder[0] = { fcs[2], false };
+        reorder[1] = { fcs[1], true };
+        reorder[2] = { fcs[0], true };
+        return reorder;
+    }
+
     reorder[0] = { fcs[0], false };
     reorder[1] = { fcs[1], false };
     reorder[2] = { fcs[2], true };
-- 
2.43.0


From 5d21a0ae217138a4555880867c7b998583aff93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:28 +0000
Subject: [PATCH 71/95] fix: dof_mapper::recompute() kept the tables of the
 previous mesh

---
 .../diskpp/methods/implementation_vem/methods_vem_2d.hpp      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
index 702a754..281bb31 100644
--- a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
@@ -131,6 +131,10 @@ public:
         if (k < 1)
             throw std::invalid_argument("dof_mapper: degree must be > 0");
 
+        l2g_byface.clear();
+        l2g_bycell.clear();
+        bnd_face_dofs.clear();
+
         size_t pts_base = msh.points_size();
 
         /* For each edge in the mesh (edges are ordered lexicographically)
-- 
2.43.0


From 25c37d1e66c14ed79e3159a15c7805b7bc3f270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 72/95] fix: integrate_on_primal_faces on a tetrahedron did not
 compile

---
 .../include/diskpp/methods/implementation_dga/methods_dga.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
index 316cfa2..474a2eb 100644
--- a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
@@ -481,7 +481,7 @@ integrate_on_primal_faces(const simplicial_mesh<T, 3>& mesh,
                           const typename simplicial_mesh<T, 3>::volume_type& vol,
                           const vec3<T> vecf)
 {
-    Eigen::Matrix<T, 3, 1> ret;
+    Eigen::Matrix<T, 4, 1> ret;
 
     auto pav = primal_area_vectors(mesh, vol);
 
-- 
2.43.0


From e2697e5123827dcd895f8a3102d66b7289c34453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 73/95] fix: dual edges of a triangle were oriented against the
 documented convention

---
 .../include/diskpp/methods/implementation_dga/methods_dga.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
index 474a2eb..91bf6a9 100644
--- a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
@@ -334,8 +334,8 @@ dual_edge_vectors(const simplicial_mesh<T, 3>& mesh,
     auto edgs = edges(mesh, t);
 
     ret[0] =  ( face_bar - barycenter(mesh, edgs[0]) ).to_vector() * sign;
-    ret[1] =  ( face_bar - barycenter(mesh, edgs[1]) ).to_vector() * sign;
-    ret[2] = -( face_bar - barycenter(mesh, edgs[2]) ).to_vector() * sign;
+    ret[1] = -( face_bar - barycenter(mesh, edgs[1]) ).to_vector() * sign;
+    ret[2] =  ( face_bar - barycenter(mesh, edgs[2]) ).to_vector() * sign;
 
     return ret;
 }
-- 
2.43.0


From 342b4f9000db913d62208521da922e4612e7baf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 74/95] fix: in-plane normals of a triangle had a wrong sign
 and a dangling expression

---
 .../diskpp/methods/implementation_dga/methods_dga.hpp       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
index 91bf6a9..c7069d1 100644
--- a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
@@ -574,9 +574,9 @@ normals(const simplicial_mesh<T, 3>& mesh,
 
     auto normal = priv::cross(pev[0], pev[2]);
 
-    auto n0 =  priv::cross(pev[0], normal);
-    auto n1 =  priv::cross(pev[1], normal);
-    auto n2 = -priv::cross(pev[2], normal);
+    vec3<T> n0 =  priv::cross(pev[0], normal);
+    vec3<T> n1 = -priv::cross(pev[1], normal);
+    vec3<T> n2 =  priv::cross(pev[2], normal);
 
     ret[0] = n0/n0.norm();
     ret[1] = n1/n1.norm();
-- 
2.43.0


From a44344a358db59c6e76bf8f0fd3098ae2c1373c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 75/95] fix: a mesh that could not be built from its file was
 reported as loaded

---
 libdiskpp/include/diskpp/loaders/loader.hpp       | 3 +--
 libdiskpp/include/diskpp/loaders/loader_medit.hpp | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader.hpp b/libdiskpp/include/diskpp/loaders/loader.hpp
index f29ebd5..c3f4b21 100644
--- a/libdiskpp/include/diskpp/loaders/loader.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader.hpp
@@ -114,8 +114,7 @@ load_mesh(const char* filename, LT& loader, MT& msh)
     if (!success)
         return false;
 
-    loader.populate_mesh(msh);
-    return true;
+    return loader.populate_mesh(msh);
 }
 
 } // namespace priv
diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index f7245cf..b4e4f36 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -708,7 +708,7 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             storage->boundary_info[conv_table[m_boundary_edges[i][0]]] = bi;
         }
 
-        return false;
+        return true;
     }
 };
 
-- 
2.43.0


From 537a7b25f081bbf07ebabab78db521d3370732c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 76/95] fix: edges of FVCA6 meshes were attached to the wrong
 nodes

---
 libdiskpp/include/diskpp/loaders/loader_fvca6.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
index fa621fe..1c008a1 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
@@ -223,6 +223,10 @@ class fvca6_mesh_loader<T,3> : public mesh_loader<generic_mesh<T, 3>>
             size_t v1, v2;
             ifs >> v1 >> v2;
 
+            /* convert indices to zero-based */
+            v1 -= 1;
+            v2 -= 1;
+
             if (v1 > v2)
                 std::swap(v1, v2);
 
-- 
2.43.0


From 3920f76228ecdfd6c39fef450b91b769a9934aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 77/95] fix: several mesh loaders dropped the subdomain of the
 cells

---
 .../diskpp/loaders/loader_cartesian.hpp       |  2 ++
 .../include/diskpp/loaders/loader_fvca6.hpp   |  2 ++
 .../include/diskpp/loaders/loader_medit.hpp   | 19 +++++++++++++++----
 .../include/diskpp/loaders/loader_netgen.hpp  | 18 ++++++++++++------
 .../include/diskpp/loaders/loader_poly.hpp    | 12 ++++++++++++
 5 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
index df34061..18dfd51 100644
--- a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
@@ -314,6 +314,7 @@ class cartesian_mesh_loader<T, 3> : public mesh_loader<cartesian_mesh<T, 3>>
         WAIT_THREAD(quad_thread);
         WAIT_THREAD(hex_thread);
 
+        storage->subdomain_info.resize(storage->volumes.size());
         storage->boundary_info.resize(storage->surfaces.size());
         for (auto& bs : boundary_surfaces)
         {
@@ -528,6 +529,7 @@ class cartesian_mesh_loader<T, 2> : public mesh_loader<cartesian_mesh<T, 2>>
         WAIT_THREAD(edge_thread);
         WAIT_THREAD(quad_thread);
 
+        storage->subdomain_info.resize(storage->surfaces.size());
         storage->boundary_info.resize(storage->edges.size());
         for (auto& bs : boundary_edges)
         {
diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
index 1c008a1..c5c626d 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
@@ -344,6 +344,8 @@ public:
          * mark_internal_faces() is not used here, as we wouldn't know which number to
          * give to the internal boundaries.
          */
+        storage->subdomain_info.resize(storage->volumes.size());
+
         storage->boundary_info.resize(storage->surfaces.size());
         auto renumbered = renumber_hypercube_boundaries(msh);
         if (not renumbered) {
diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index b4e4f36..cf9bc2d 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -360,7 +360,8 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         storage->edges = std::move(edges);
 
         /* Surfaces */
-        std::vector<surface_type> surfaces;
+        using sd_pair = std::pair<surface_type, size_t>;
+        std::vector<sd_pair> surfaces;
         surfaces.reserve(m_polys.size());
 
         for (auto& p : m_polys)
@@ -384,11 +385,19 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             }
             auto surface = surface_type(surface_edges);
             surface.set_point_ids(p.nodes.begin(), p.nodes.end()); /* XXX: crap */
-            surfaces.push_back(surface);
+            surfaces.push_back(std::make_pair(surface, p.id));
         }
 
-        std::sort(surfaces.begin(), surfaces.end());
-        storage->surfaces = std::move(surfaces);
+        auto comp = [](const sd_pair& a, const sd_pair& b) { return a.first < b.first; };
+        std::sort(surfaces.begin(), surfaces.end(), comp);
+
+        storage->surfaces.reserve(surfaces.size());
+        storage->subdomain_info.reserve(surfaces.size());
+        for (auto& [surface, id] : surfaces)
+        {
+            storage->surfaces.push_back(surface);
+            storage->subdomain_info.push_back(subdomain_descriptor(id));
+        }
 
         return true;
     }
@@ -701,6 +710,8 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         storage->surfaces = std::move(faces);
         storage->volumes  = std::move(volumes);
 
+        storage->subdomain_info.resize(storage->volumes.size());
+
         storage->boundary_info.resize(storage->surfaces.size());
         for (size_t i = 0; i < m_boundary_edges.size(); i++)
         {
diff --git a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
index a05f33d..aa56e34 100644
--- a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
@@ -102,7 +102,7 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
     std::vector<node_type>                    nodes;
     std::vector<edge_type>                    edges;
     std::vector<std::pair<edge_type, size_t>> boundary_edges;
-    std::vector<surface_type>                 surfaces;
+    std::vector<std::pair<surface_type, size_t>> surfaces;
 
     bool
     netgen_read(const std::string& filename)
@@ -181,13 +181,12 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
             disk::point_identifier<2> p0(std::get<1>(t));
             disk::point_identifier<2> p1(std::get<2>(t));
             disk::point_identifier<2> p2(std::get<3>(t));
-            // domain_id_type      d(std::get<0>(t));
 
             edges.push_back(edge_type({p0, p1}));
             edges.push_back(edge_type({p1, p2}));
             edges.push_back(edge_type({p0, p2}));
 
-            surfaces.push_back(surface_type({p0, p1, p2}));
+            surfaces.push_back(std::make_pair(surface_type({p0, p1, p2}), std::get<0>(t)));
 
             linecount++;
         }
@@ -265,12 +264,21 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
         THREAD(edge_thread, priv::sort_uniq(edges); storage->edges = std::move(edges););
 
         /* sort triangles, make unique and move them in geometry */
-        THREAD(tri_thread, priv::sort_uniq(surfaces); storage->surfaces = std::move(surfaces););
+        THREAD(tri_thread, priv::sort_uniq(surfaces););
 
         /* wait for the threads */
         WAIT_THREAD(edge_thread);
         WAIT_THREAD(tri_thread);
 
+        storage->surfaces.reserve(surfaces.size());
+        storage->subdomain_info.reserve(surfaces.size());
+        for (auto& [surface, id] : surfaces)
+        {
+            storage->surfaces.push_back(surface);
+            storage->subdomain_info.push_back(subdomain_descriptor(id));
+        }
+        surfaces.clear();
+
         storage->boundary_info.resize(storage->edges.size());
         for (auto& be : boundary_edges)
         {
@@ -295,8 +303,6 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
 
         boundary_edges.clear();
 
-        storage->subdomain_info.resize(storage->surfaces.size());
-
         return true;
     }
 };
diff --git a/libdiskpp/include/diskpp/loaders/loader_poly.hpp b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
index 7b9878c..d2efd11 100644
--- a/libdiskpp/include/diskpp/loaders/loader_poly.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
@@ -359,6 +359,11 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         }
         /* Now the faces are in their place and have correct ptrs */
 
+        storage->subdomain_info.resize(faces.size());
+        for (auto& [id, faces] : faces_to_grp)
+            for (auto& face_id : faces)
+                storage->subdomain_info.at(conv_table.at(face_id)) = subdomain_descriptor(id);
+
         storage->points   = std::move(m_points);
         storage->nodes    = std::move(m_nodes);
         storage->edges    = std::move(edges);
@@ -644,6 +649,7 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
 
         std::vector<volume_type> volumes;
         volumes.reserve(vols_to_faces.size());
+        conv_table.resize(vols_to_faces.size());
 
         for (size_t i = 0; i < vols_to_faces.size(); i++)
         {
@@ -651,8 +657,14 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             volume_type v(convert_to<typename surface_type::id_type>(vf.second));
             v.set_point_ids(convert_to<disk::point_identifier<3>>(vols_to_vts.at(vf.first).second));
             volumes.push_back(v);
+            conv_table[vf.first] = i;
         }
 
+        storage->subdomain_info.resize(volumes.size());
+        for (auto& [id, vols] : vols_to_grp)
+            for (auto& vol_id : vols)
+                storage->subdomain_info.at(conv_table.at(vol_id)) = subdomain_descriptor(id);
+
         storage->points   = std::move(m_points);
         storage->nodes    = std::move(m_nodes);
         storage->edges    = std::move(edges);
-- 
2.43.0


From aa1fc26d74a5a6e53fd483473c09b792cebdab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 78/95] fix: internal interfaces were not marked by the 2D
 Netgen, Medit and poly loaders

---
 libdiskpp/include/diskpp/loaders/loader_medit.hpp  | 4 ++++
 libdiskpp/include/diskpp/loaders/loader_netgen.hpp | 2 ++
 libdiskpp/include/diskpp/loaders/loader_poly.hpp   | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index cf9bc2d..b1ae788 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -399,6 +399,8 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             storage->subdomain_info.push_back(subdomain_descriptor(id));
         }
 
+        mark_internal_faces(msh);
+
         return true;
     }
 };
@@ -719,6 +721,8 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             storage->boundary_info[conv_table[m_boundary_edges[i][0]]] = bi;
         }
 
+        mark_internal_faces(msh);
+
         return true;
     }
 };
diff --git a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
index aa56e34..8d84772 100644
--- a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
@@ -303,6 +303,8 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
 
         boundary_edges.clear();
 
+        mark_internal_faces(msh);
+
         return true;
     }
 };
diff --git a/libdiskpp/include/diskpp/loaders/loader_poly.hpp b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
index d2efd11..50627ee 100644
--- a/libdiskpp/include/diskpp/loaders/loader_poly.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
@@ -369,6 +369,8 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         storage->edges    = std::move(edges);
         storage->surfaces = std::move(faces);
 
+        mark_internal_faces(msh);
+
         return true;
     }
 };
@@ -671,6 +673,8 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         storage->surfaces = std::move(faces);
         storage->volumes  = std::move(volumes);
 
+        mark_internal_faces(msh);
+
         return true;
     }
 };
-- 
2.43.0


From f84b391c754661304f8de0602d3343535a751777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 79/95] fix: poly meshes with elements listed out of order were
 scrambled

---
 libdiskpp/include/diskpp/loaders/loader_poly.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_poly.hpp b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
index 50627ee..b31a5d9 100644
--- a/libdiskpp/include/diskpp/loaders/loader_poly.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
@@ -283,6 +283,11 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
 
         auto storage = msh.backend_storage();
 
+        /* Nodes and vertex lists are looked up by id from here on */
+        auto by_id = [](const auto& a, const auto& b) { return a.first < b.first; };
+        std::sort(vts.begin(), vts.end(), by_id);
+        std::sort(faces_to_vts.begin(), faces_to_vts.end(), by_id);
+
         // Create nodes and vertices
         m_points.reserve(vts.size());
         m_nodes.reserve(vts.size());
@@ -563,6 +568,12 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
 
         auto storage = msh.backend_storage();
 
+        /* Nodes and vertex lists are looked up by id from here on */
+        auto by_id = [](const auto& a, const auto& b) { return a.first < b.first; };
+        std::sort(vts.begin(), vts.end(), by_id);
+        std::sort(faces_to_vts.begin(), faces_to_vts.end(), by_id);
+        std::sort(vols_to_vts.begin(), vols_to_vts.end(), by_id);
+
         // Create nodes and vertices
         m_points.reserve(vts.size());
         m_nodes.reserve(vts.size());
-- 
2.43.0


From cf6cdd359ca91fecfa7846de5324d37a5cadd14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 80/95] fix: missing mesh files were dereferenced and mapped
 ones read past their end

---
 .../diskpp/loaders/loader_cartesian.hpp       |  2 ++
 .../include/diskpp/loaders/loader_netgen.hpp  |  4 ++++
 libdiskpp/src/common/mapped_file.cpp          | 20 ++++++++++++++-----
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
index 18dfd51..6436d01 100644
--- a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
@@ -131,6 +131,8 @@ class cartesian_mesh_loader<T, 3> : public mesh_loader<cartesian_mesh<T, 3>>
         size_t lines, linecount;
 
         mapped_file mf(filename);
+        if (!mf.is_open())
+            return false;
 
         // std::cout << green << " * * * Reading NETGEN format mesh * * * ";
         // std::cout << nocolor << std::endl;
diff --git a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
index 8d84772..dfed229 100644
--- a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
@@ -117,6 +117,8 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
         size_t lines, linecount;
 
         mapped_file mf(filename);
+        if (!mf.is_open())
+            return false;
 
         // std::cout << green << " * * * Reading NETGEN format mesh * * * ";
         // std::cout << nocolor << std::endl;
@@ -339,6 +341,8 @@ class netgen_mesh_loader<T, 3> : public mesh_loader<simplicial_mesh<T, 3>>
         size_t lines, linecount;
 
         mapped_file mf(filename);
+        if (!mf.is_open())
+            return false;
 
         /************************ Read points ************************/
         linecount = 0;
diff --git a/libdiskpp/src/common/mapped_file.cpp b/libdiskpp/src/common/mapped_file.cpp
index 2175a2c..bf27ba9 100644
--- a/libdiskpp/src/common/mapped_file.cpp
+++ b/libdiskpp/src/common/mapped_file.cpp
@@ -114,16 +114,26 @@ mapped_file::map(const std::string& name)
     }
     m_length = sb.st_size;
 
-    m_addr = static_cast<const char*>(
-                         mmap(NULL, m_length, PROT_READ, MAP_PRIVATE, fd, 0u)
-                       );
-    if (m_addr == MAP_FAILED)
+    /* Users read the data as a C string: reserve one byte more than the file
+     * so that there is always a terminator after it. */
+    void *addr = mmap(NULL, m_length + 1, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
+    if (addr == MAP_FAILED)
     {
         perror("mmap");
         ::close(fd);
         return false;
     }
 
+    if (mmap(addr, m_length, PROT_READ, MAP_PRIVATE | MAP_FIXED, fd, 0) == MAP_FAILED)
+    {
+        perror("mmap");
+        munmap(addr, m_length + 1);
+        ::close(fd);
+        return false;
+    }
+
+    m_addr = static_cast<const char*>(addr);
+
     madvise((void*)m_addr, sb.st_size, MADV_SEQUENTIAL);
 
     m_name = name;
@@ -138,7 +148,7 @@ mapped_file::map(const std::string& name)
 bool
 mapped_file::unmap(void)
 {
-    munmap((void *)m_addr, m_length);
+    munmap((void *)m_addr, m_length + 1);
     ::close(m_fd);
     m_fd = -1;
     m_length = 0;
-- 
2.43.0


From 62aa9b2839ec16d5a3cae1c1aae5c9dc17f0098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 81/95] fix: truncated mesh files were loaded as if they were
 complete, or never finished loading

---
 libdiskpp/include/diskpp/loaders/loader.hpp   | 12 ++++---
 .../include/diskpp/loaders/loader_fvca6.hpp   |  3 ++
 .../include/diskpp/loaders/loader_medit.hpp   |  6 ++++
 .../include/diskpp/loaders/loader_poly.hpp    |  6 ++++
 libdiskpp/include/diskpp/loaders/strtot.hpp   | 31 ++++++++++++++++---
 5 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader.hpp b/libdiskpp/include/diskpp/loaders/loader.hpp
index c3f4b21..bc38dd2 100644
--- a/libdiskpp/include/diskpp/loaders/loader.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader.hpp
@@ -110,11 +110,15 @@ load_mesh(const char* filename, LT& loader, MT& msh)
         std::cout << "the required mesh type" << std::endl;
     }
 
-    bool success = loader.read_mesh(filename);
-    if (!success)
+    try
+    {
+        return loader.read_mesh(filename) && loader.populate_mesh(msh);
+    }
+    catch (const std::exception& e)
+    {
+        std::cout << "Error while loading " << filename << ": " << e.what() << std::endl;
         return false;
-
-    return loader.populate_mesh(msh);
+    }
 }
 
 } // namespace priv
diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
index c5c626d..6fefd45 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
@@ -106,6 +106,9 @@ class fvca6_mesh_loader<T,3> : public mesh_loader<generic_mesh<T, 3>>
             return false;
         }
 
+        /* Do not go on with whatever was read before the end of the file */
+        ifs.exceptions(std::ios::failbit | std::ios::badbit);
+
         /* Apparently the first 16 lines of the file are comments or
          * information repeated elsewhere: throw them away */
 
diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index b1ae788..39cf400 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -200,6 +200,9 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             return false;
         }
 
+        /* Do not go on with whatever was read before the end of the file */
+        ifs.exceptions(std::ios::failbit | std::ios::badbit);
+
         ifs >> keyword;
         if (keyword != "MeshVersionFormatted")
         {
@@ -470,6 +473,9 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             return false;
         }
 
+        /* Do not go on with whatever was read before the end of the file */
+        ifs.exceptions(std::ios::failbit | std::ios::badbit);
+
         ifs >> keyword;
         if (keyword != "MeshVersionFormatted")
         {
diff --git a/libdiskpp/include/diskpp/loaders/loader_poly.hpp b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
index b31a5d9..5ebb304 100644
--- a/libdiskpp/include/diskpp/loaders/loader_poly.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
@@ -166,6 +166,9 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             return false;
         }
 
+        /* Do not go on with whatever was read before the end of the file */
+        ifs.exceptions(std::ios::failbit | std::ios::badbit);
+
         ifs >> keyword;
         if (keyword != "**BeginMesh")
         {
@@ -419,6 +422,9 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             return false;
         }
 
+        /* Do not go on with whatever was read before the end of the file */
+        ifs.exceptions(std::ios::failbit | std::ios::badbit);
+
         ifs >> keyword;
         if (keyword != "**BeginMesh")
         {
diff --git a/libdiskpp/include/diskpp/loaders/strtot.hpp b/libdiskpp/include/diskpp/loaders/strtot.hpp
index c58ee67..e54e4c6 100644
--- a/libdiskpp/include/diskpp/loaders/strtot.hpp
+++ b/libdiskpp/include/diskpp/loaders/strtot.hpp
@@ -53,8 +53,23 @@
 #pragma once
 
 #include <sstream>
+#include <stdexcept>
 #include <stdlib.h>
 
+namespace disk {
+namespace priv {
+
+/* Nothing was converted: the data ended early or it is not a number */
+inline void
+check_conversion(const char *str, char **endptr)
+{
+    if (*endptr == str)
+        throw std::invalid_argument("Number expected, but none found");
+}
+
+} // namespace priv
+} // namespace disk
+
 template<typename T>
 T
 inline
@@ -71,7 +86,9 @@ inline
 double
 strtot(const char *str, char **endptr)
 {
-    return strtod(str, endptr);
+    double ret = strtod(str, endptr);
+    disk::priv::check_conversion(str, endptr);
+    return ret;
 }
 
 template<>
@@ -79,7 +96,9 @@ inline
 float
 strtot(const char *str, char **endptr)
 {
-    return strtof(str, endptr);
+    float ret = strtof(str, endptr);
+    disk::priv::check_conversion(str, endptr);
+    return ret;
 }
 
 template<>
@@ -87,7 +106,9 @@ inline
 long double
 strtot(const char *str, char **endptr)
 {
-    return strtold(str, endptr);
+    long double ret = strtold(str, endptr);
+    disk::priv::check_conversion(str, endptr);
+    return ret;
 }
 
 template<>
@@ -95,5 +116,7 @@ inline
 size_t
 strtot(const char *str, char **endptr)
 {
-    return strtoul(str, endptr, 10);
+    size_t ret = strtoul(str, endptr, 10);
+    disk::priv::check_conversion(str, endptr);
+    return ret;
 }
-- 
2.43.0


From d8c8514405b149e8330296b98ad2f1c4e84f58ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 82/95] fix: mesh files referring to nodes, edges or faces that
 do not exist were accepted

---
 .../diskpp/loaders/loader_cartesian.hpp       | 20 ++++
 .../include/diskpp/loaders/loader_fvca5.hpp   | 30 +++++-
 .../include/diskpp/loaders/loader_fvca6.hpp   | 27 ++++++
 .../include/diskpp/loaders/loader_medit.hpp   | 44 +++++++++
 .../include/diskpp/loaders/loader_netgen.hpp  | 22 +++++
 .../include/diskpp/loaders/loader_poly.hpp    | 94 ++++++++++++++++++-
 .../include/diskpp/loaders/loader_utils.hpp   | 12 +++
 7 files changed, 246 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
index 6436d01..5a39201 100644
--- a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
@@ -195,6 +195,11 @@ class cartesian_mesh_loader<T, 3> : public mesh_loader<cartesian_mesh<T, 3>>
             }
 
             auto t = priv::read_hexahedron_line<size_t>(endptr, &endptr);
+            if (!std::apply([&](auto... ids) { return all_below(std::array{ids...}, points.size()); }, t))
+            {
+                std::cout << "Index out of range in mesh file" << std::endl;
+                return false;
+            }
 
             disk::point_identifier<3> p0(std::get<0>(t));
             disk::point_identifier<3> p1(std::get<1>(t));
@@ -253,6 +258,11 @@ class cartesian_mesh_loader<T, 3> : public mesh_loader<cartesian_mesh<T, 3>>
             }
 
             auto t = priv::read_hex_face_line<size_t>(endptr, &endptr);
+            if (!std::apply([&](auto... ids) { return all_below(std::array{ids...}, points.size()); }, t))
+            {
+                std::cout << "Index out of range in mesh file" << std::endl;
+                return false;
+            }
 
             disk::point_identifier<3> p0(std::get<0>(t));
             disk::point_identifier<3> p1(std::get<1>(t));
@@ -434,6 +444,11 @@ class cartesian_mesh_loader<T, 2> : public mesh_loader<cartesian_mesh<T, 2>>
             }
 
             auto t = priv::read_quad_line<size_t>(endptr, &endptr);
+            if (!std::apply([&](auto... ids) { return all_below(std::array{ids...}, points.size()); }, t))
+            {
+                std::cout << "Index out of range in mesh file" << std::endl;
+                return false;
+            }
 
             disk::point_identifier<2> p0(std::get<0>(t));
             disk::point_identifier<2> p1(std::get<1>(t));
@@ -473,6 +488,11 @@ class cartesian_mesh_loader<T, 2> : public mesh_loader<cartesian_mesh<T, 2>>
             }
 
             auto t = priv::read_quad_face_line<size_t>(endptr, &endptr);
+            if (!std::apply([&](auto... ids) { return all_below(std::array{ids...}, points.size()); }, t))
+            {
+                std::cout << "Index out of range in mesh file" << std::endl;
+                return false;
+            }
 
             disk::point_identifier<2> p0(std::get<0>(t));
             disk::point_identifier<2> p1(std::get<1>(t));
diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
index 843b5a9..99d91f7 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
@@ -45,6 +45,7 @@
 
 #include "diskpp/mesh/mesh.hpp"
 #include "diskpp/geometry/geometry.hpp"
+#include "diskpp/loaders/loader_utils.hpp"
 #include "diskpp/loaders/mesh_loader.hpp"
 
 namespace disk
@@ -411,6 +412,24 @@ class fvca5_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         return true;
     }
 
+    bool
+    indices_are_valid() const
+    {
+        for (auto& p : m_polys)
+            if (!all_below(p.nodes, m_points.size()))
+                return false;
+
+        for (auto& e : m_boundary_edges)
+            if (!all_below(e, m_points.size()))
+                return false;
+
+        for (auto& e : m_edges)
+            if (!all_below(std::array{e[0], e[1]}, m_points.size()))
+                return false;
+
+        return true;
+    }
+
   public:
     static const char constexpr* expected_extension = "typ1";
 
@@ -421,7 +440,16 @@ class fvca5_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
     {
         if (this->verbose())
             std::cout << " *** READING FVCA5 MESH ***" << std::endl;
-        return parse(filename);
+        if (!parse(filename))
+            return false;
+
+        if (!indices_are_valid())
+        {
+            std::cout << "Index out of range in mesh file" << std::endl;
+            return false;
+        }
+
+        return true;
     }
 
     bool
diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
index 6fefd45..988ed90 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
@@ -46,6 +46,7 @@
 
 #include "diskpp/mesh/mesh.hpp"
 #include "diskpp/geometry/geometry.hpp"
+#include "diskpp/loaders/loader_utils.hpp"
 #include "diskpp/loaders/mesh_loader.hpp"
 
 namespace disk
@@ -230,6 +231,12 @@ class fvca6_mesh_loader<T,3> : public mesh_loader<generic_mesh<T, 3>>
             v1 -= 1;
             v2 -= 1;
 
+            if (!all_below(std::array{v1, v2}, m_points.size()))
+            {
+                std::cout << "Index out of range in mesh file" << std::endl;
+                return false;
+            }
+
             if (v1 > v2)
                 std::swap(v1, v2);
 
@@ -239,6 +246,26 @@ class fvca6_mesh_loader<T,3> : public mesh_loader<generic_mesh<T, 3>>
             m_edges.push_back( std::make_pair(i, e) );
         }
 
+        bool valid = vol_to_vts.size() == vol_to_faces.size() && faces_to_vts.size() == faces_to_edges.size();
+
+        for (auto& [id, faces] : vol_to_faces)
+            valid = valid && all_below(faces, faces_to_edges.size());
+
+        for (auto& vts : vol_to_vts)
+            valid = valid && all_below(vts, m_points.size());
+
+        for (auto& [id, edges] : faces_to_edges)
+            valid = valid && all_below(edges, m_edges.size());
+
+        for (auto& vts : faces_to_vts)
+            valid = valid && all_below(vts, m_points.size());
+
+        if (!valid)
+        {
+            std::cout << "Index out of range in mesh file" << std::endl;
+            return false;
+        }
+
         return true;
     }
 
diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index 39cf400..a23ff9e 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -28,6 +28,7 @@
 
 #include "diskpp/mesh/mesh.hpp"
 #include "diskpp/geometry/geometry.hpp"
+#include "diskpp/loaders/loader_utils.hpp"
 #include "diskpp/loaders/mesh_loader.hpp"
 
 namespace disk
@@ -273,6 +274,20 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         }
 
         ifs.close();
+
+        bool valid = true;
+        for (auto& p : m_polys)
+            valid = valid && all_below(p.nodes, m_points.size());
+
+        for (auto& be : m_boundary_edges)
+            valid = valid && all_below(be.first, m_points.size());
+
+        if (!valid)
+        {
+            std::cout << "Index out of range in mesh file" << std::endl;
+            return false;
+        }
+
         return true;
     }
 
@@ -619,6 +634,12 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             size_t v1, v2;
             ifs >> v1 >> v2;
 
+            if (!all_below(std::array{v1, v2}, m_points.size()))
+            {
+                std::cout << "Index out of range in mesh file" << std::endl;
+                return false;
+            }
+
             if (v1 > v2)
                 std::swap(v1, v2);
 
@@ -627,6 +648,29 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             m_edges.push_back(std::make_pair(i, e));
         }
 
+        bool valid = vol_to_vts.size() == vol_to_faces.size() && faces_to_vts.size() == faces_to_edges.size();
+
+        for (auto& [id, faces] : vol_to_faces)
+            valid = valid && all_below(faces, faces_to_edges.size());
+
+        for (auto& vts : vol_to_vts)
+            valid = valid && all_below(vts, m_points.size());
+
+        for (auto& [id, edges] : faces_to_edges)
+            valid = valid && all_below(edges, m_edges.size());
+
+        for (auto& vts : faces_to_vts)
+            valid = valid && all_below(vts, m_points.size());
+
+        for (auto& be : m_boundary_edges)
+            valid = valid && be[0] < faces_to_edges.size();
+
+        if (!valid)
+        {
+            std::cout << "Index out of range in mesh file" << std::endl;
+            return false;
+        }
+
         return true;
     }
 
diff --git a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
index dfed229..2071f03 100644
--- a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
@@ -22,6 +22,7 @@
 
 #pragma once
 
+#include <array>
 #include <tuple>
 #include <vector>
 #include <thread>
@@ -31,6 +32,7 @@
 #include "diskpp/geometry/geometry.hpp"
 #include "diskpp/loaders/mesh_loader.hpp"
 #include "diskpp/loaders/strtot.hpp"
+#include "diskpp/loaders/loader_utils.hpp"
 #include "diskpp/common/mapped_file.h"
 
 namespace disk
@@ -179,6 +181,11 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
             }
 
             auto t = priv::read_triangle_line<size_t>(endptr, &endptr);
+            if (!all_below(std::array{std::get<1>(t), std::get<2>(t), std::get<3>(t)}, points.size()))
+            {
+                std::cout << "Index out of range in mesh file" << std::endl;
+                return false;
+            }
 
             disk::point_identifier<2> p0(std::get<1>(t));
             disk::point_identifier<2> p1(std::get<2>(t));
@@ -215,6 +222,11 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
             }
 
             auto t = priv::read_edge_line<size_t>(endptr, &endptr);
+            if (!all_below(std::array{std::get<1>(t), std::get<2>(t)}, points.size()))
+            {
+                std::cout << "Index out of range in mesh file" << std::endl;
+                return false;
+            }
 
             disk::point_identifier<2> p0(std::get<1>(t));
             disk::point_identifier<2> p1(std::get<2>(t));
@@ -402,6 +414,11 @@ class netgen_mesh_loader<T, 3> : public mesh_loader<simplicial_mesh<T, 3>>
             }
 
             auto t = priv::read_tetrahedron_line<size_t>(endptr, &endptr);
+            if (!all_below(std::array{std::get<1>(t), std::get<2>(t), std::get<3>(t), std::get<4>(t)}, points.size()))
+            {
+                std::cout << "Index out of range in mesh file" << std::endl;
+                return false;
+            }
 
             auto                      subdomain_num = std::get<0>(t);
             disk::point_identifier<3> p0(std::get<1>(t));
@@ -457,6 +474,11 @@ class netgen_mesh_loader<T, 3> : public mesh_loader<simplicial_mesh<T, 3>>
             }
 
             auto t = priv::read_triangle_line<size_t>(endptr, &endptr);
+            if (!all_below(std::array{std::get<1>(t), std::get<2>(t), std::get<3>(t)}, points.size()))
+            {
+                std::cout << "Index out of range in mesh file" << std::endl;
+                return false;
+            }
 
             auto                      bnd_id = std::get<0>(t);
             disk::point_identifier<3> p0(std::get<1>(t));
diff --git a/libdiskpp/include/diskpp/loaders/loader_poly.hpp b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
index 5ebb304..30534a3 100644
--- a/libdiskpp/include/diskpp/loaders/loader_poly.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
@@ -28,6 +28,7 @@
 
 #include "diskpp/mesh/mesh.hpp"
 #include "diskpp/geometry/geometry.hpp"
+#include "diskpp/loaders/loader_utils.hpp"
 #include "diskpp/loaders/mesh_loader.hpp"
 
 namespace disk
@@ -130,6 +131,34 @@ read_grp_block(std::ifstream& ifs, const size_t nb_grp, std::vector<std::pair<si
 
     return true;
 }
+
+/* Entities must be numbered from 0 on without holes and repetitions */
+template<typename Entities>
+bool
+well_numbered(const Entities& entities)
+{
+    std::vector<size_t> ids;
+    for (auto& e : entities)
+        ids.push_back(e.first);
+
+    std::sort(ids.begin(), ids.end());
+    for (size_t i = 0; i < ids.size(); i++)
+        if (ids[i] != i)
+            return false;
+
+    return true;
+}
+
+template<typename Entities>
+bool
+all_below(const Entities& entities, size_t bound)
+{
+    for (auto& e : entities)
+        if (!disk::all_below(e.second, bound))
+            return false;
+
+    return true;
+}
 }
 
 template<typename T>
@@ -266,6 +295,25 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         return true;
     }
 
+    bool
+    indices_are_valid() const
+    {
+        for (auto& [id, nodes] : edges_to_vts)
+            if (nodes.size() != 2)
+                return false;
+
+        return faces_to_edges.size() == faces_to_vts.size() &&
+               poly::well_numbered(vts) &&
+               poly::well_numbered(edges_to_vts) &&
+               poly::well_numbered(faces_to_vts) &&
+               poly::well_numbered(faces_to_edges) &&
+               poly::all_below(edges_to_vts, vts.size()) &&
+               poly::all_below(faces_to_vts, vts.size()) &&
+               poly::all_below(faces_to_edges, edges_to_vts.size()) &&
+               poly::all_below(edges_to_grp, edges_to_vts.size()) &&
+               poly::all_below(faces_to_grp, faces_to_vts.size());
+    }
+
   public:
     static const char constexpr* expected_extension = "poly2d";
     poly_mesh_loader()                              = default;
@@ -275,7 +323,16 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
     {
         if (this->verbose())
             std::cout << " *** READING POLY2D MESH ***" << std::endl;
-        return poly2d_read(s);
+        if (!poly2d_read(s))
+            return false;
+
+        if (!indices_are_valid())
+        {
+            std::cout << "Index out of range in mesh file" << std::endl;
+            return false;
+        }
+
+        return true;
     }
 
     bool
@@ -554,6 +611,30 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         return true;
     }
 
+    bool
+    indices_are_valid() const
+    {
+        for (auto& [id, nodes] : edges_to_vts)
+            if (nodes.size() != 2)
+                return false;
+
+        return faces_to_edges.size() == faces_to_vts.size() &&
+               vols_to_faces.size() == vols_to_vts.size() &&
+               poly::well_numbered(vts) &&
+               poly::well_numbered(edges_to_vts) &&
+               poly::well_numbered(faces_to_vts) &&
+               poly::well_numbered(faces_to_edges) &&
+               poly::well_numbered(vols_to_vts) &&
+               poly::well_numbered(vols_to_faces) &&
+               poly::all_below(edges_to_vts, vts.size()) &&
+               poly::all_below(faces_to_vts, vts.size()) &&
+               poly::all_below(faces_to_edges, edges_to_vts.size()) &&
+               poly::all_below(vols_to_vts, vts.size()) &&
+               poly::all_below(vols_to_faces, faces_to_vts.size()) &&
+               poly::all_below(faces_to_grp, faces_to_vts.size()) &&
+               poly::all_below(vols_to_grp, vols_to_vts.size());
+    }
+
   public:
     static const char constexpr* expected_extension = "poly3d";
     poly_mesh_loader()                              = default;
@@ -563,7 +644,16 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
     {
         if (this->verbose())
             std::cout << " *** READING POLY3D MESH ***" << std::endl;
-        return poly3d_read(s);
+        if (!poly3d_read(s))
+            return false;
+
+        if (!indices_are_valid())
+        {
+            std::cout << "Index out of range in mesh file" << std::endl;
+            return false;
+        }
+
+        return true;
     }
 
     bool
diff --git a/libdiskpp/include/diskpp/loaders/loader_utils.hpp b/libdiskpp/include/diskpp/loaders/loader_utils.hpp
index 0c07bff..ef1a56d 100644
--- a/libdiskpp/include/diskpp/loaders/loader_utils.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_utils.hpp
@@ -39,6 +39,18 @@
 namespace disk
 {
 
+/* Check that all the indices in a collection refer to one of `bound` entities */
+template<typename Collection>
+bool
+all_below(const Collection& indices, size_t bound)
+{
+    for (size_t i : indices)
+        if (i >= bound)
+            return false;
+
+    return true;
+}
+
 template<typename T>
 std::optional<size_t>
 boundary_number(const Eigen::Matrix<T, 2, 1>& n)
-- 
2.43.0


From 1016f6cd48c91b74eba284d78a8ca1a021b5f01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 83/95] fix: FVCA5 files cut between two blocks were accepted

---
 libdiskpp/include/diskpp/loaders/loader_fvca5.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
index 99d91f7..8d5c48f 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
@@ -416,9 +416,15 @@ class fvca5_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
     indices_are_valid() const
     {
         for (auto& p : m_polys)
+        {
             if (!all_below(p.nodes, m_points.size()))
                 return false;
 
+            /* Edges missing in the 'all edges' block */
+            if (p.attached_edges.size() != p.nodes.size())
+                return false;
+        }
+
         for (auto& e : m_boundary_edges)
             if (!all_below(e, m_points.size()))
                 return false;
@@ -443,6 +449,12 @@ class fvca5_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         if (!parse(filename))
             return false;
 
+        if (m_polys.empty())
+        {
+            std::cout << "No cells found in mesh file" << std::endl;
+            return false;
+        }
+
         if (!indices_are_valid())
         {
             std::cout << "Index out of range in mesh file" << std::endl;
-- 
2.43.0


From e91ffbc6e5fac5f62352e6a599b2a1d14d0abfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 84/95] fix: an unreadable FVCA5 file was read forever

---
 libdiskpp/include/diskpp/loaders/loader_fvca5.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
index 8d5c48f..efa914f 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
@@ -395,7 +395,7 @@ class fvca5_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             return false;
         }
 
-        while (!ifs.eof())
+        while (ifs)
         {
             bool success = fvca5_parse_block();
 
-- 
2.43.0


From 397128af45c6b99f9b64daf1ac6365e34e9866c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 85/95] fix: degenerate edges in 2D Medit files aborted the
 program

---
 libdiskpp/include/diskpp/loaders/loader_medit.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index a23ff9e..8fd29be 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -25,6 +25,7 @@
 #include <vector>
 #include <fstream>
 #include <array>
+#include <stdexcept>
 
 #include "diskpp/mesh/mesh.hpp"
 #include "diskpp/geometry/geometry.hpp"
@@ -126,7 +127,9 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             for (size_t j = 0; j < polynum; j++)
             {
                 std::array<ident_raw_t, 2> b_edge = {nodes[j], nodes[j + 1]};
-                assert(b_edge[0] != b_edge[1]);
+                if (b_edge[0] == b_edge[1])
+                    throw std::invalid_argument("Edge starting and finishing on the same node");
+
                 if (b_edge[0] > b_edge[1])
                     std::swap(b_edge[0], b_edge[1]);
 
@@ -157,7 +160,8 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             ifs >> b_edge[1];
             b_edge[1] -= 1;
 
-            assert(b_edge[0] != b_edge[1]);
+            if (b_edge[0] == b_edge[1])
+                throw std::invalid_argument("Edge starting and finishing on the same node");
 
             if (b_edge[0] > b_edge[1])
                 std::swap(b_edge[0], b_edge[1]);
-- 
2.43.0


From c71df7b29d67389ff9525debc8dc182781619600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 86/95] fix: orientation of faces beginning with aligned
 vertices in silo exports

---
 libdiskpp/include/diskpp/output/silo.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index dbf5662..3b15fa3 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -73,9 +73,14 @@ silo_face_orientation(const Mesh<T, 3, Storage>& msh,
     auto pts = points(msh, fc);
     assert(pts.size() >= 3);
 
-    auto v0 = (pts[1] - pts[0]).to_vector();
-    auto v1 = (pts[2] - pts[1]).to_vector();
-    auto n = v0.cross(v1);
+    /* The first vertices of the face could be aligned */
+    Eigen::Matrix<T, 3, 1> n = Eigen::Matrix<T, 3, 1>::Zero();
+    for (size_t i = 1; i + 1 < pts.size(); i++)
+    {
+        auto v0 = (pts[i] - pts[0]).to_vector();
+        auto v1 = (pts[i+1] - pts[0]).to_vector();
+        n += v0.cross(v1);
+    }
 
     auto cell_bar = barycenter(msh, cl);
     auto face_bar = barycenter(msh, fc);
-- 
2.43.0


From a66045380161d86e495662b444f5dbaca0fdedaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 87/95] fix: silo_database::add_mesh() did not accept const 3D
 generic meshes

---
 libdiskpp/include/diskpp/output/silo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index 3b15fa3..2c3cf05 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -520,7 +520,7 @@ public:
     }
 
     template<typename T>
-    bool add_mesh(generic_mesh<T,3>& msh, const std::string& name)
+    bool add_mesh(const generic_mesh<T,3>& msh, const std::string& name)
     {
         if (!m_siloDb) {
             std::cout << "add_mesh(): Database not opened." << std::endl;
-- 
2.43.0


From e5504c2227b7eb369a3ab8e33d3959ec4cc1ae2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 88/95] fix: silo_database lost the open file when another one
 was created or opened

---
 libdiskpp/include/diskpp/output/silo.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index 2c3cf05..3002d34 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -195,6 +195,7 @@ public:
 
     bool create(const std::string& db_name)
     {
+        close();
         m_siloDb = DBCreate(db_name.c_str(), DB_CLOBBER, DB_LOCAL, NULL, DB_PDB);
         if (m_siloDb)
             return true;
@@ -205,6 +206,7 @@ public:
 
     bool open(const std::string& db_name)
     {
+        close();
         m_siloDb = DBOpen(db_name.c_str(), DB_PDB, DB_APPEND);
         if (m_siloDb)
             return true;
-- 
2.43.0


From deca478cc098f48cf738dacf0ca3c8c6f823f77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 89/95] fix: silo_database accepted expressions and
 multi-component variables without an open database

---
 libdiskpp/include/diskpp/output/silo.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index 3002d34..b6a005d 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -812,6 +812,11 @@ public:
                       const Eigen::Matrix<T, Eigen::Dynamic, 2>& var,
                       variable_centering_t centering)
     {
+        if (!m_siloDb) {
+            std::cout << "add_variable(): Database not opened." << std::endl;
+            return false;
+        }
+
         Eigen::Matrix<T, Eigen::Dynamic, 1> c = var.col(0);
         add_variable(mesh_name, var_name+"_x", c, centering);
         c = var.col(1);
@@ -829,6 +834,11 @@ public:
                       const Eigen::Matrix<T, Eigen::Dynamic, 3>& var,
                       variable_centering_t centering)
     {
+        if (!m_siloDb) {
+            std::cout << "add_variable(): Database not opened." << std::endl;
+            return false;
+        }
+
         Eigen::Matrix<T, Eigen::Dynamic, 1> c = var.col(0);
         add_variable(mesh_name, var_name+"_x", c, centering);
         c = var.col(1);
@@ -910,6 +920,11 @@ public:
                         const std::string& expr_definition,
                         int expr_type)
     {
+        if (!m_siloDb) {
+            std::cout << "add_expression(): Database not opened." << std::endl;
+            return false;
+        }
+
         std::stringstream ss;
         ss << "def_" << expr_name;
         const char *name[] = { expr_name.c_str() };
-- 
2.43.0


From a474b28795f8d5563faecba7a853ec01bd370469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 90/95] fix: coordinates of meshes with rational points were
 not converted in silo exports

---
 libdiskpp/include/diskpp/output/silo.hpp | 72 ++++++++++++++----------
 1 file changed, 41 insertions(+), 31 deletions(-)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index b6a005d..10761b6 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -107,18 +107,21 @@ template<>
 struct silo_types<float>
 {
     static const int DB_TYPE = DB_FLOAT;
+    typedef float coord_type;
 };
 
 template<>
 struct silo_types<double>
 {
     static const int DB_TYPE = DB_DOUBLE;
+    typedef double coord_type;
 };
 
 template<typename T>
 struct silo_types<disk::rational<T>>
 {
     static const int DB_TYPE = DB_DOUBLE;
+    typedef double coord_type;
 };
 
 template<typename T, variable_centering_t centering>
@@ -237,16 +240,17 @@ public:
             return false;
         }
 
-        std::vector<T> x_coords, y_coords;
+        using coord_type = typename silo_types<T>::coord_type;
+        std::vector<coord_type> x_coords, y_coords;
         x_coords.reserve(msh.points_size());
         y_coords.reserve(msh.points_size());
 
         for (auto& pt : points(msh)) {
-            x_coords.push_back( double(pt.x()) );
-            y_coords.push_back( double(pt.y()) );
+            x_coords.push_back( coord_type(pt.x()) );
+            y_coords.push_back( coord_type(pt.y()) );
         }
 
-        T *coords[] = {x_coords.data(), y_coords.data()};
+        coord_type *coords[] = {x_coords.data(), y_coords.data()};
 
         std::vector<int> nodelist;
         nodelist.reserve( 3*msh.cells_size() );
@@ -299,18 +303,19 @@ public:
             return false;
         }
 
-        std::vector<T> x_coords, y_coords, z_coords;
+        using coord_type = typename silo_types<T>::coord_type;
+        std::vector<coord_type> x_coords, y_coords, z_coords;
         x_coords.reserve(msh.points_size());
         y_coords.reserve(msh.points_size());
         z_coords.reserve(msh.points_size());
 
         for (auto& pt : points(msh)) {
-            x_coords.push_back( pt.x() );
-            y_coords.push_back( pt.y() );
-            z_coords.push_back( pt.z() );
+            x_coords.push_back( coord_type(pt.x()) );
+            y_coords.push_back( coord_type(pt.y()) );
+            z_coords.push_back( coord_type(pt.z()) );
         }
 
-        T *coords[] = {x_coords.data(), y_coords.data(), z_coords.data()};
+        coord_type *coords[] = {x_coords.data(), y_coords.data(), z_coords.data()};
 
         std::vector<int> nodelist;
         nodelist.reserve( 4*msh.cells_size() );
@@ -363,17 +368,18 @@ public:
             return false;
         }
 
-        std::vector<T> x_coords, y_coords;
+        using coord_type = typename silo_types<T>::coord_type;
+        std::vector<coord_type> x_coords, y_coords;
         x_coords.reserve(pts.size());
         y_coords.reserve(pts.size());
 
         for (auto& pt : pts) 
         {
-            x_coords.push_back(pt.x());
-            y_coords.push_back(pt.y());
+            x_coords.push_back( coord_type(pt.x()) );
+            y_coords.push_back( coord_type(pt.y()) );
         }
 
-        T *coords[] = { x_coords.data(), y_coords.data() };
+        coord_type *coords[] = { x_coords.data(), y_coords.data() };
 
         int ndims = 2;
         int nels = pts.size();
@@ -396,18 +402,19 @@ public:
             return false;
         }
 
-        std::vector<T> x_coords, y_coords, z_coords;
+        using coord_type = typename silo_types<T>::coord_type;
+        std::vector<coord_type> x_coords, y_coords, z_coords;
         x_coords.reserve(msh.points_size());
         y_coords.reserve(msh.points_size());
         z_coords.reserve(msh.points_size());
 
         for (auto& pt : points(msh)) {
-            x_coords.push_back( pt.x() );
-            y_coords.push_back( pt.y() );
-            z_coords.push_back( pt.z() );
+            x_coords.push_back( coord_type(pt.x()) );
+            y_coords.push_back( coord_type(pt.y()) );
+            z_coords.push_back( coord_type(pt.z()) );
         }
 
-        T *coords[] = {x_coords.data(), y_coords.data(), z_coords.data()};
+        coord_type *coords[] = {x_coords.data(), y_coords.data(), z_coords.data()};
 
         std::vector<int> nodelist;
         nodelist.reserve( 8*msh.cells_size() );
@@ -466,16 +473,17 @@ public:
             return false;
         }
 
-        std::vector<T> x_coords, y_coords;
+        using coord_type = typename silo_types<T>::coord_type;
+        std::vector<coord_type> x_coords, y_coords;
         x_coords.reserve(msh.points_size());
         y_coords.reserve(msh.points_size());
 
         for (auto& pt : points(msh)) {
-            x_coords.push_back(pt.x());
-            y_coords.push_back(pt.y());
+            x_coords.push_back( coord_type(pt.x()) );
+            y_coords.push_back( coord_type(pt.y()) );
         }
 
-        T *coords[] = {x_coords.data(), y_coords.data()};
+        coord_type *coords[] = {x_coords.data(), y_coords.data()};
 
         std::vector<int> nodelist;
         nodelist.reserve( 4*msh.cells_size() );
@@ -529,18 +537,19 @@ public:
             return false;
         }
 
-        std::vector<T> x_coords, y_coords, z_coords;
+        using coord_type = typename silo_types<T>::coord_type;
+        std::vector<coord_type> x_coords, y_coords, z_coords;
         x_coords.reserve(msh.points_size());
         y_coords.reserve(msh.points_size());
         z_coords.reserve(msh.points_size());
 
         for (auto& pt : points(msh)) {
-            x_coords.push_back(pt.x());
-            y_coords.push_back(pt.y());
-            z_coords.push_back(pt.z());
+            x_coords.push_back( coord_type(pt.x()) );
+            y_coords.push_back( coord_type(pt.y()) );
+            z_coords.push_back( coord_type(pt.z()) );
         }
 
-        T *coords[] = {x_coords.data(), y_coords.data(), z_coords.data()};
+        coord_type *coords[] = {x_coords.data(), y_coords.data(), z_coords.data()};
 
         int nfaces = msh.faces_size();
 
@@ -613,16 +622,17 @@ public:
             return false;
         }
 
-        std::vector<T> x_coords, y_coords;
+        using coord_type = typename silo_types<T>::coord_type;
+        std::vector<coord_type> x_coords, y_coords;
         x_coords.reserve(msh.points_size());
         y_coords.reserve(msh.points_size());
 
         for (auto& pt : points(msh)) {
-            x_coords.push_back(pt.x());
-            y_coords.push_back(pt.y());
+            x_coords.push_back( coord_type(pt.x()) );
+            y_coords.push_back( coord_type(pt.y()) );
         }
 
-        T *coords[] = {x_coords.data(), y_coords.data()};
+        coord_type *coords[] = {x_coords.data(), y_coords.data()};
 
         std::vector<int>    nodelist;
 
-- 
2.43.0


From dd60d12fda5296478472257045425021a3b1ec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:34 +0000
Subject: [PATCH 91/95] fix: PostMesh of 1D meshes did not compile

---
 libdiskpp/include/diskpp/output/postMesh.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/output/postMesh.hpp b/libdiskpp/include/diskpp/output/postMesh.hpp
index 8a7375f..51a96ad 100644
--- a/libdiskpp/include/diskpp/output/postMesh.hpp
+++ b/libdiskpp/include/diskpp/output/postMesh.hpp
@@ -66,7 +66,8 @@ class PostMesh<generic_mesh<T, 1>>
    {
       list_cell_nodes.reserve(msh.cells_size());
       for (auto& cl : msh) {
-         list_cell_nodes.push_back(cell_nodes(msh, cl));
+         const auto pts = cell_nodes(msh, cl);
+         list_cell_nodes.push_back(list_type(pts.begin(), pts.end()));
       }
    };
 
-- 
2.43.0


From 3af04f7a411fa47d8812142ad83e96e53ee9ac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 92/95] fix: GMSH loaders returned the nodes shared by several
 entities more than once

---
 libdiskpp/include/diskpp/loaders/loader_gmsh.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp b/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
index f7b66de..e17b0fa 100644
--- a/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
@@ -48,7 +48,7 @@ class gmsh_geometry_loader<simplicial_mesh<T,3>> : public mesh_loader<simplicial
         std::vector<double>     coords;
         std::vector<double>     paraCoords;
 
-        gmsh::model::mesh::getNodes(nodeTags, coords, paraCoords, -1, -1, true, false);
+        gmsh::model::mesh::getNodes(nodeTags, coords, paraCoords, -1, -1, false, false);
 
         auto maxtag_pos = std::max_element(nodeTags.begin(), nodeTags.end());
         
@@ -289,7 +289,7 @@ class gmsh_geometry_loader<simplicial_mesh<T,2>> : public mesh_loader<simplicial
         std::vector<double>     coords;
         std::vector<double>     paraCoords;
 
-        gmsh::model::mesh::getNodes(nodeTags, coords, paraCoords, -1, -1, true, false);
+        gmsh::model::mesh::getNodes(nodeTags, coords, paraCoords, -1, -1, false, false);
 
         auto maxtag_pos = std::max_element(nodeTags.begin(), nodeTags.end());
         
@@ -583,7 +583,7 @@ class gmsh_geometry_loader<generic_mesh<T,3>> : public mesh_loader<generic_mesh<
         std::vector<double>     coords;
         std::vector<double>     paraCoords;
 
-        gmsh::model::mesh::getNodes(nodeTags, coords, paraCoords, -1, -1, true, false);
+        gmsh::model::mesh::getNodes(nodeTags, coords, paraCoords, -1, -1, false, false);
 
         auto maxtag_pos = std::max_element(nodeTags.begin(), nodeTags.end());
         
-- 
2.43.0


From b15771b2688560fd0480b2bd5bc9449935d82cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 93/95] fix: cells of GMSH simplicial meshes carried the
 element number as subdomain number

---
 libdiskpp/include/diskpp/loaders/loader_gmsh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp b/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
index e17b0fa..74a584a 100644
--- a/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
@@ -134,7 +134,7 @@ class gmsh_geometry_loader<simplicial_mesh<T,3>> : public mesh_loader<simplicial
                     surfaces.push_back( surface_type( { p0, p2, p3 } ) );
                     surfaces.push_back( surface_type( { p1, p2, p3 } ) );
 
-                    subdomain_descriptor si(i, tag);
+                    subdomain_descriptor si(subdom_id, tag);
                     auto vs = std::make_pair(volume_type( {p0, p1, p2, p3} ), si);
                     tmp_volumes.push_back( vs );
                 }
@@ -360,7 +360,7 @@ class gmsh_geometry_loader<simplicial_mesh<T,2>> : public mesh_loader<simplicial
                     edges.push_back( edge_type( { p0, p2 } ) );
                     edges.push_back( edge_type( { p1, p2 } ) );
 
-                    subdomain_descriptor si(i, tag);
+                    subdomain_descriptor si(subdom_id, tag);
                     auto vs = std::make_pair(surface_type( {p0, p1, p2} ), si);
                     tmp_surfaces.push_back( vs );
                 }
-- 
2.43.0


From 318143968c9c51d992aca88b480a03fe518e3543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 94/95] fix: GMSH simplicial loaders took other elements for
 simplices

---
 libdiskpp/include/diskpp/loaders/loader_gmsh.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp b/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
index 74a584a..49495d5 100644
--- a/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
@@ -92,7 +92,9 @@ class gmsh_geometry_loader<simplicial_mesh<T,3>> : public mesh_loader<simplicial
                 gmsh::model::mesh::getElementsByType(elemType, elemTags, elemNodeTags, tag);
                 auto nodesPerElem = elemNodeTags.size()/elemTags.size();
                 assert( elemTags.size() * nodesPerElem == elemNodeTags.size() );
-            
+                if (nodesPerElem != 4)
+                    throw std::logic_error("Unsupported element type");
+
                 for (size_t i = 0; i < elemTags.size(); i++)
                 {
                     auto base = nodesPerElem * i;
@@ -332,7 +334,9 @@ class gmsh_geometry_loader<simplicial_mesh<T,2>> : public mesh_loader<simplicial
                 gmsh::model::mesh::getElementsByType(elemType, elemTags, elemNodeTags, tag);
                 auto nodesPerElem = elemNodeTags.size()/elemTags.size();
                 assert( elemTags.size() * nodesPerElem == elemNodeTags.size() );
-            
+                if (nodesPerElem != 3)
+                    throw std::logic_error("Unsupported element type");
+
                 for (size_t i = 0; i < elemTags.size(); i++)
                 {
                     auto base = nodesPerElem * i;
-- 
2.43.0


From b1a82513e74d9f10bff8e2d6abd74d1014dc4080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:56 +0000
Subject: [PATCH 95/95] fix: GMSH general loader left out elements it does not
 know

---
 libdiskpp/include/diskpp/loaders/loader_gmsh.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp b/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
index 49495d5..524b659 100644
--- a/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
@@ -711,8 +711,7 @@ class gmsh_geometry_loader<generic_mesh<T,3>> : public mesh_loader<generic_mesh<
                         break;
 
                     default:
-                        std::cout << "Unsupported element type " << elemType << std::endl;
-                        break;
+                        throw std::logic_error("Unsupported element type");
                 }
             }
 
-- 
2.43.0

