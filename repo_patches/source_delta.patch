From 8e1f6b92661c0c6864a961001a31f8d98b601c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:23 +0000
Subject: [PATCH 1/9] fix: Vec3::min returns the third component when the
 smallest value occurs twice

---
 src/cpu/vec3.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/vec3.cc b/src/cpu/vec3.cc
index b9a67b5..00626e1 100644
--- a/src/cpu/vec3.cc
+++ b/src/cpu/vec3.cc
@@ -76,8 +76,8 @@ const double GALS::CPU::Vec3<T>::mag() const
 template <typename T>
 const T GALS::CPU::Vec3<T>::min() const
 {
-  if (m_data[0] < m_data[1] && m_data[0] < m_data[2]) return m_data[0];
-  if (m_data[1] < m_data[0] && m_data[1] < m_data[2]) return m_data[1];
+  if (m_data[0] <= m_data[1] && m_data[0] <= m_data[2]) return m_data[0];
+  if (m_data[1] <= m_data[0] && m_data[1] <= m_data[2]) return m_data[1];
   return m_data[2];
 }
 
-- 
2.43.0


From e26d80dc5acad0db7038a98062ac717593f10fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:23 +0000
Subject: [PATCH 2/9] fix: Grid::generate places cell centres for a padding of
 one layer only

---
 src/cpu/grid.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/grid.cc b/src/cpu/grid.cc
index 00a7f95..b0a0ca5 100644
--- a/src/cpu/grid.cc
+++ b/src/cpu/grid.cc
@@ -188,7 +188,7 @@ void GALS::CPU::Grid<T, DIM>::generate(T x_min, T x_max, T y_min, T y_max, T z_m
 
   for (int i = 0; i < DIM; ++i) m_one_over_dx[i] = static_cast<T>(1.) / m_dx[i];
 
-  for (int i = 0; i < DIM; ++i) domain_min_new[i] = domain_min[i] + (m_dx[i] * 0.5) - (m_dx[i] * m_mask[i]);
+  for (int i = 0; i < DIM; ++i) domain_min_new[i] = domain_min[i] + (m_dx[i] * 0.5) - (m_dx[i] * m_pad * m_mask[i]);
 
   Vec3<T> elem;
 
-- 
2.43.0


From ad8463aa08be7785c264b6d6080e86171aed1a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:23 +0000
Subject: [PATCH 3/9] fix: Grid::index overflows when an inactive coordinate is
 INT_MAX (as baseNodeId returns it)

---
 src/cpu/grid.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cpu/grid.cc b/src/cpu/grid.cc
index b0a0ca5..098f1fb 100644
--- a/src/cpu/grid.cc
+++ b/src/cpu/grid.cc
@@ -116,8 +116,9 @@ const int GALS::CPU::Grid<T, DIM>::getPadding() const
 template <typename T, int DIM>
 const std::size_t GALS::CPU::Grid<T, DIM>::index(const int i, const int j, const int k) const
 {
-  const std::size_t idx = ((k + m_pad) * (m_nx + 2 * m_pad) * (m_ny + 2 * m_pad) * m_mask[2]) +
-                          ((j + m_pad) * (m_nx + 2 * m_pad) * m_mask[1]) + ((i + m_pad) * m_mask[0]);
+  const std::size_t idx = ((k * m_mask[2] + m_pad * m_mask[2]) * (m_nx + 2 * m_pad * m_mask[0]) * (m_ny + 2 * m_pad * m_mask[1])) +
+                          ((j * m_mask[1] + m_pad * m_mask[1]) * (m_nx + 2 * m_pad * m_mask[0])) +
+                          (i * m_mask[0] + m_pad * m_mask[0]);
 
   return idx;
 }
-- 
2.43.0


From e5e66f279aff8c5fcc02970196c0a2396a6618d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:23 +0000
Subject: [PATCH 4/9] fix: gradient of a vector field differentiates every
 column along the row's axis

---
 src/cpu/gradient/second-order-central.cc | 4 ++--
 src/cpu/gradient/third-order.cc          | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cpu/gradient/second-order-central.cc b/src/cpu/gradient/second-order-central.cc
index da69738..ca00650 100644
--- a/src/cpu/gradient/second-order-central.cc
+++ b/src/cpu/gradient/second-order-central.cc
@@ -81,8 +81,8 @@ void GALS::CPU::SecondOrderCentral<T, T_GRID>::compute(const Array<T_GRID, Vec3<
             typename T_GRID::value_type one_by_dx = static_cast<typename T_GRID::value_type>(1.) / dx[cmpt];
 
             grad_alpha(i, j, k)(axis, cmpt) =
-                (alpha(i + axis_vectors(axis, 0), j + axis_vectors(axis, 1), k + axis_vectors(axis, 2))[axis] -
-                 alpha(i - axis_vectors(axis, 0), j - axis_vectors(axis, 1), k - axis_vectors(axis, 2))[axis]) *
+                (alpha(i + axis_vectors(cmpt, 0), j + axis_vectors(cmpt, 1), k + axis_vectors(cmpt, 2))[axis] -
+                 alpha(i - axis_vectors(cmpt, 0), j - axis_vectors(cmpt, 1), k - axis_vectors(cmpt, 2))[axis]) *
                 one_by_dx * static_cast<T>(0.5);
           }
         }
diff --git a/src/cpu/gradient/third-order.cc b/src/cpu/gradient/third-order.cc
index be3f517..005fd2d 100644
--- a/src/cpu/gradient/third-order.cc
+++ b/src/cpu/gradient/third-order.cc
@@ -81,11 +81,11 @@ void GALS::CPU::ThirdOrder<T, T_GRID>::compute(const Array<T_GRID, Vec3<T>> &alp
             typename T_GRID::value_type one_by_dx = static_cast<typename T_GRID::value_type>(1.) / (6 * dx[cmpt]);
 
             grad_alpha(i, j, k)(axis, cmpt) =
-                (2 * alpha(i + axis_vectors(axis, 0), j + axis_vectors(axis, 1), k + axis_vectors(axis, 2))[axis] +
+                (2 * alpha(i + axis_vectors(cmpt, 0), j + axis_vectors(cmpt, 1), k + axis_vectors(cmpt, 2))[axis] +
                  3 * alpha(i, j, k)[axis] -
-                 6 * alpha(i - axis_vectors(axis, 0), j - axis_vectors(axis, 1), k - axis_vectors(axis, 2))[axis] +
-                 1 * alpha(i - 2 * axis_vectors(axis, 0), j - 2 * axis_vectors(axis, 1),
-                           k - 2 * axis_vectors(axis, 2))[axis]) *
+                 6 * alpha(i - axis_vectors(cmpt, 0), j - axis_vectors(cmpt, 1), k - axis_vectors(cmpt, 2))[axis] +
+                 1 * alpha(i - 2 * axis_vectors(cmpt, 0), j - 2 * axis_vectors(cmpt, 1),
+                           k - 2 * axis_vectors(cmpt, 2))[axis]) *
                 one_by_dx;
           }
         }
-- 
2.43.0


From 233738ec13aae0650d4d534c0c5948a5efd26bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:23 +0000
Subject: [PATCH 5/9] fix: CIRCULAR velocity rotates about the given centre,
 not its mirror image

---
 src/cpu/analytical-fields/velocity.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index 7bf653e..c6ac50f 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -69,8 +69,8 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
         for (int j = 0; j < num_cells[1]; ++j)
           for (int k = 0; k < num_cells[2]; ++k) {
             for (int cmpt = 0; cmpt < T_GRID::dim; ++cmpt) {
-              if (cmpt == 0) velocity_node[cmpt] = coeff * (m_inputs.center[cmpt] - positions(i, j, k)[cmpt + 1]);
-              if (cmpt == 1) velocity_node[cmpt] = coeff * (positions(i, j, k)[cmpt - 1] - m_inputs.center[cmpt]);
+              if (cmpt == 0) velocity_node[cmpt] = coeff * (m_inputs.center[cmpt + 1] - positions(i, j, k)[cmpt + 1]);
+              if (cmpt == 1) velocity_node[cmpt] = coeff * (positions(i, j, k)[cmpt - 1] - m_inputs.center[cmpt - 1]);
             }
 
             velocity(i, j, k) = velocity_node;
-- 
2.43.0


From 55a9f96e9ce8a99ce83e44c55275ab0136c8a3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:23 +0000
Subject: [PATCH 6/9] fix: analytical gradient of the CIRCULAR velocity is
 written to every cell, not to the first two

---
 src/cpu/analytical-fields/velocity.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index c6ac50f..4a058dd 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -85,10 +85,10 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
             for (int k = 0; k < num_cells[2]; ++k) {
               for (int cmpt = 0; cmpt < T_GRID::dim; ++cmpt) {
                 for (int derv = 0; derv < T_GRID::dim; ++derv) {
-                  if (cmpt == 0 && derv == 0) velocity_gradient[cmpt][derv] = static_cast<T>(0);
-                  if (cmpt == 0 && derv == 1) velocity_gradient[cmpt][derv] = -coeff;
-                  if (cmpt == 1 && derv == 0) velocity_gradient[cmpt][derv] = coeff;
-                  if (cmpt == 1 && derv == 1) velocity_gradient[cmpt][derv] = static_cast<T>(0);
+                  if (cmpt == 0 && derv == 0) velocity_gradient(i, j, k)(cmpt, derv) = static_cast<T>(0);
+                  if (cmpt == 0 && derv == 1) velocity_gradient(i, j, k)(cmpt, derv) = -coeff;
+                  if (cmpt == 1 && derv == 0) velocity_gradient(i, j, k)(cmpt, derv) = coeff;
+                  if (cmpt == 1 && derv == 1) velocity_gradient(i, j, k)(cmpt, derv) = static_cast<T>(0);
                 }
               }
             }
-- 
2.43.0


From 22aaeea9c28de7e31d51edeb1d898a093e59fc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:52 +0000
Subject: [PATCH 7/9] fix: guarded GALS_ABORT / GALS_FUNCTION_NOT_IMPLEMENTED
 terminate the program unconditionally

---
 include/gals/utilities/utilities.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/gals/utilities/utilities.h b/include/gals/utilities/utilities.h
index 3261c35..bf77167 100644
--- a/include/gals/utilities/utilities.h
+++ b/include/gals/utilities/utilities.h
@@ -37,17 +37,21 @@
 namespace GALS
 {
 #ifndef BUILD_TESTS
-#define GALS_FUNCTION_NOT_IMPLEMENTED(var)                        \
-  std::cout << "FUNCTION_NOT_IMPLEMENTED: " << #var << std::endl; \
-  exit(0);
+#define GALS_FUNCTION_NOT_IMPLEMENTED(var)                          \
+  {                                                                 \
+    std::cout << "FUNCTION_NOT_IMPLEMENTED: " << #var << std::endl; \
+    exit(0);                                                        \
+  }
 #else
 #define GALS_FUNCTION_NOT_IMPLEMENTED(var) std::cout << "FUNCTION_NOT_IMPLEMENTED: " << #var << std::endl;
 #endif
 
 #ifndef BUILD_TESTS
-#define GALS_ABORT(var)                        \
-  std::cout << "ERROR: " << #var << std::endl; \
-  exit(0);
+#define GALS_ABORT(var)                          \
+  {                                              \
+    std::cout << "ERROR: " << #var << std::endl; \
+    exit(0);                                     \
+  }
 #else
 #define GALS_ABORT(var) std::cout << "ERROR: " << #var << std::endl;
 #endif
-- 
2.43.0


From 46ae99905f16c6d898ba8fea3da22c8bc255adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:52 +0000
Subject: [PATCH 8/9] fix: advection driver reads outside the padded grid with
 the third order gradient

---
 applications/advection/main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/applications/advection/main.cc b/applications/advection/main.cc
index ddbe361..b268b01 100644
--- a/applications/advection/main.cc
+++ b/applications/advection/main.cc
@@ -78,6 +78,7 @@ int main(int argc, char **argv)
   // Construct grid.
   const auto &grid_inputs = *(input_fields.m_grid);
   T_GRID grid(grid_inputs.nx, grid_inputs.ny, grid_inputs.nz);
+  grid.setPadding(2);  // the third order gradient reads two layers
   grid.generate(grid_inputs.x_min, grid_inputs.x_max, grid_inputs.y_min, grid_inputs.y_max, grid_inputs.z_min,
                 grid_inputs.z_max);
 
-- 
2.43.0


From 873e4d07110b861de59c2b51aa60c2a0b2e2509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:44 +0000
Subject: [PATCH 9/9] fix: advection driver calls std::strcmp without including
 <cstring>

---
 applications/advection/main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/applications/advection/main.cc b/applications/advection/main.cc
index b268b01..996459e 100644
--- a/applications/advection/main.cc
+++ b/applications/advection/main.cc
@@ -29,6 +29,7 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 ///////////////////////////////////////////////////////////////////////////////
 
+#include <cstring>
 #include <iostream>
 #include <string>
 
-- 
2.43.0

