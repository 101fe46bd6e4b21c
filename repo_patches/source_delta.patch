From 98ab28fccdb8a391fb6d5d3e3793be24f3f77ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:16 +0000
Subject: [PATCH 01/38] fix: let the mesh deduce the geometry of edges added
 without one

MeshFactory::AddEntity() documents that an edge may be added with a null
geometry, which is then deduced from an adjacent cell; building such a
mesh failed an assertion.
---
 lib/lf/mesh/hybrid2d/mesh.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/lf/mesh/hybrid2d/mesh.cc b/lib/lf/mesh/hybrid2d/mesh.cc
index 1c937f2..7f32a1d 100644
--- a/lib/lf/mesh/hybrid2d/mesh.cc
+++ b/lib/lf/mesh/hybrid2d/mesh.cc
@@ -250,7 +250,7 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
     // If one of the endpoints of a edge does not have a geometry, supply it
     // with one inherited from the edge.
     for (int j = 0; j < 2; ++j) {
-      if (nodes[end_nodes[j]] == nullptr) {
+      if (nodes[end_nodes[j]] == nullptr && e.second != nullptr) {
         // if no geometry for node exists request geomtry for an endpoint of the
         // edge Note: endpoints are entities of relative co-dimension 1
         nodes[end_nodes[j]] = e.second->SubGeometry(1, j);
@@ -258,9 +258,8 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
     }
 
     // Store provided geometry information; information on adjacent cells
-    // not yet available.
-    LF_ASSERT_MSG(e.second != nullptr,
-                  "Edge " << edge_index << ": missing geometry!");
+    // not yet available. If the geometry is missing, it will be deduced from an
+    // adjacent cell or from the endpoints below.
     const AdjCellsList empty_cells_list{};
     EdgeData edge_data(std::move(e.second), empty_cells_list, edge_index);
     EdgeMap::value_type edge_info =
-- 
2.43.0


From df596373c440b7a81d15875a5f499d4cbb7b1b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:01 +0000
Subject: [PATCH 02/38] fix: output operator of COOMatrix prints to the given
 stream

---
 lib/lf/assemble/coomatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/assemble/coomatrix.h b/lib/lf/assemble/coomatrix.h
index afa45cd..bc1b464 100644
--- a/lib/lf/assemble/coomatrix.h
+++ b/lib/lf/assemble/coomatrix.h
@@ -227,7 +227,7 @@ class COOMatrix {
 // Implementation of output operator
 template <typename SCALARTYPE>
 std::ostream &operator<<(std::ostream &o, const COOMatrix<SCALARTYPE> &mat) {
-  mat.PrintInfo();
+  mat.PrintInfo(o);
   return o;
 }
 
-- 
2.43.0


From 13247d3343538b2322bf3e0ae07ba750205ac902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:01 +0000
Subject: [PATCH 03/38] fix: COOMatrix::MatVecMult returns a vector of the
 scalar type of the matrix

---
 lib/lf/assemble/coomatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/assemble/coomatrix.h b/lib/lf/assemble/coomatrix.h
index bc1b464..89407cc 100644
--- a/lib/lf/assemble/coomatrix.h
+++ b/lib/lf/assemble/coomatrix.h
@@ -237,7 +237,7 @@ Eigen::Matrix<SCALAR, Eigen::Dynamic, 1> COOMatrix<SCALAR>::MatVecMult(
     SCALAR alpha, const VECTOR &vec) const {
   LF_ASSERT_MSG(vec.size() >= cols_,
                 "size mismatch: " << cols_ << " <-> " << vec.size());
-  Eigen::VectorXd result(rows_);
+  Eigen::Matrix<SCALAR, Eigen::Dynamic, 1> result(rows_);
   result.setZero();
   for (const Triplet &trp : triplets_) {
     result[trp.row()] += trp.value() * (alpha * vec[trp.col()]);
-- 
2.43.0


From 6dff7bdb23077a4884f7dc2e2e5e31548b666c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:01 +0000
Subject: [PATCH 04/38] fix: FixSolutionComponentsLse works for every scalar
 type

---
 lib/lf/assemble/fix_dof.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/assemble/fix_dof.h b/lib/lf/assemble/fix_dof.h
index e804647..3e8efed 100644
--- a/lib/lf/assemble/fix_dof.h
+++ b/lib/lf/assemble/fix_dof.h
@@ -271,7 +271,7 @@ void FixSolutionComponentsLse(
   // FixFlaggedSolutionComponents<SCALAR>(fixed_comp_flags, fixed_vec, A, b);
   FixFlaggedSolutionCompAlt<SCALAR>(
       [&fixed_comp_flags,
-       &fixed_vec](lf::assemble::gdof_idx_t i) -> std::pair<bool, double> {
+       &fixed_vec](lf::assemble::gdof_idx_t i) -> std::pair<bool, SCALAR> {
         LF_ASSERT_MSG((i < fixed_comp_flags.size()) && (i < fixed_vec.size()),
                       "Illegal index " << i);
         return std::make_pair(fixed_comp_flags[i], fixed_vec[i]);
-- 
2.43.0


From 55bf70a634c702d9c97bbdf06db3ef16ccc6506d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:03:41 +0000
Subject: [PATCH 05/38] fix: missing geometries are built in the world
 dimension of the mesh

Edges, triangles and quadrilaterals without a supplied geometry were always
built from two-dimensional corner coordinates, which failed an assertion for
meshes embedded in three dimensions.
---
 lib/lf/mesh/hybrid2d/mesh.cc | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/lib/lf/mesh/hybrid2d/mesh.cc b/lib/lf/mesh/hybrid2d/mesh.cc
index 7f32a1d..878ae2d 100644
--- a/lib/lf/mesh/hybrid2d/mesh.cc
+++ b/lib/lf/mesh/hybrid2d/mesh.cc
@@ -539,11 +539,10 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
     GeometryPtr edge_geo_ptr(std::move(edge.second.geo_uptr));
     if (!edge_geo_ptr) {
       // If the edge does not have a geometry build a straight edge
-      Eigen::Matrix<double, 2, 2> straight_edge_coords;
-      straight_edge_coords.block<2, 1>(0, 0) =
-          p0_ptr->Geometry()->Global(zero_point);
-      straight_edge_coords.block<2, 1>(0, 1) =
-          p1_ptr->Geometry()->Global(zero_point);
+      Eigen::Matrix<double, Eigen::Dynamic, 2> straight_edge_coords(dim_world,
+                                                                    2);
+      straight_edge_coords.col(0) = p0_ptr->Geometry()->Global(zero_point);
+      straight_edge_coords.col(1) = p1_ptr->Geometry()->Global(zero_point);
       edge_geo_ptr =
           std::make_unique<geometry::SegmentO1>(straight_edge_coords);
     }
@@ -683,13 +682,11 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
         // At this point only the latter policy is implemented
         // and we build an affine triangle.
         // First assemble corner coordinates into matrix
-        Eigen::Matrix<double, 2, 3> triag_corner_coords;
-        triag_corner_coords.block<2, 1>(0, 0) =
-            corner0->Geometry()->Global(zero_point);
-        triag_corner_coords.block<2, 1>(0, 1) =
-            corner1->Geometry()->Global(zero_point);
-        triag_corner_coords.block<2, 1>(0, 2) =
-            corner2->Geometry()->Global(zero_point);
+        Eigen::Matrix<double, Eigen::Dynamic, 3> triag_corner_coords(dim_world,
+                                                                    3);
+        triag_corner_coords.col(0) = corner0->Geometry()->Global(zero_point);
+        triag_corner_coords.col(1) = corner1->Geometry()->Global(zero_point);
+        triag_corner_coords.col(2) = corner2->Geometry()->Global(zero_point);
 
         // Diagnostics
         SPDLOG_LOGGER_TRACE(Logger(), "Creating triangle with geometry \n{}",
@@ -732,15 +729,12 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
         // with straight edges ("bilinear quadrilateral")
         // First assemble corner coordinates into matrix
 
-        Eigen::Matrix<double, 2, 4> quad_corner_coords;
-        quad_corner_coords.block<2, 1>(0, 0) =
-            corner0->Geometry()->Global(zero_point);
-        quad_corner_coords.block<2, 1>(0, 1) =
-            corner1->Geometry()->Global(zero_point);
-        quad_corner_coords.block<2, 1>(0, 2) =
-            corner2->Geometry()->Global(zero_point);
-        quad_corner_coords.block<2, 1>(0, 3) =
-            corner3->Geometry()->Global(zero_point);
+        Eigen::Matrix<double, Eigen::Dynamic, 4> quad_corner_coords(dim_world,
+                                                                    4);
+        quad_corner_coords.col(0) = corner0->Geometry()->Global(zero_point);
+        quad_corner_coords.col(1) = corner1->Geometry()->Global(zero_point);
+        quad_corner_coords.col(2) = corner2->Geometry()->Global(zero_point);
+        quad_corner_coords.col(3) = corner3->Geometry()->Global(zero_point);
         // Then create geometry of an affine triangle
 
         // Diagnostics
-- 
2.43.0


From a10d2c3590309bffbf06df05e6e971653f978ff9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:03:41 +0000
Subject: [PATCH 06/38] fix: FeHierarchicSegment has one shape function per
 vertex

NumRefShapeFunctions(1) returned the number for both vertices together.
---
 lib/lf/fe/hierarchic_fe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/fe/hierarchic_fe.h b/lib/lf/fe/hierarchic_fe.h
index 2790918..d81c976 100644
--- a/lib/lf/fe/hierarchic_fe.h
+++ b/lib/lf/fe/hierarchic_fe.h
@@ -274,7 +274,7 @@ class FeHierarchicSegment final : public ScalarReferenceFiniteElement<SCALAR> {
   [[nodiscard]] lf::base::size_type NumRefShapeFunctions(
       dim_t codim) const override {
     LF_ASSERT_MSG(codim >= 0 && codim <= 1, "codim out of range.");
-    return codim == 0 ? degree_ - 1 : 2;
+    return codim == 0 ? degree_ - 1 : 1;
   }
 
   // clang-format off
-- 
2.43.0


From 77fdbb1dc87dc7d2c7f93d75b5dba14f288f1639 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:03:41 +0000
Subject: [PATCH 07/38] fix: Timer::Format() prints the elapsed times while the
 timer is running

It printed the (absolute) starting time of a running timer instead.
---
 lib/lf/base/timer.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/lf/base/timer.cc b/lib/lf/base/timer.cc
index a6e10eb..35edf6e 100644
--- a/lib/lf/base/timer.cc
+++ b/lib/lf/base/timer.cc
@@ -99,15 +99,16 @@ Timer::cpu_times Timer::Elapsed() const noexcept {
 
 std::string Timer::Format(std::string_view format) const {
   const double sec = 1000000000.0L;
-  const double wall_sec = static_cast<double>(times_.wall.count()) / sec;
-  const auto total = times_.system.count() + times_.user.count();
+  const cpu_times times = Elapsed();
+  const double wall_sec = static_cast<double>(times.wall.count()) / sec;
+  const auto total = times.system.count() + times.user.count();
   const double total_sec = static_cast<double>(total) / sec;
   const double percent = (total_sec / wall_sec) * 100.0;
 
   return fmt::format(
       fmt::runtime(format), fmt::arg("w", wall_sec),
-      fmt::arg("u", static_cast<double>(times_.user.count()) / sec),
-      fmt::arg("s", static_cast<double>(times_.system.count()) / sec),
+      fmt::arg("u", static_cast<double>(times.user.count()) / sec),
+      fmt::arg("s", static_cast<double>(times.system.count()) / sec),
       fmt::arg("t", total_sec), fmt::arg("p", percent));
 }
 
-- 
2.43.0


From 7ce9b9a17cab5d09a746be82815f5ca42b41d907 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:03:41 +0000
Subject: [PATCH 08/38] fix: MeshFunctionTransfer::getMesh() returns the mesh
 of the fine level

The function is defined on level_fine, not on the level after level_coarse.
---
 lib/lf/refinement/mesh_function_transfer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/refinement/mesh_function_transfer.h b/lib/lf/refinement/mesh_function_transfer.h
index be8878e..3f84fff 100644
--- a/lib/lf/refinement/mesh_function_transfer.h
+++ b/lib/lf/refinement/mesh_function_transfer.h
@@ -87,7 +87,7 @@ class MeshFunctionTransfer {
    * @returns A shared pointer to the Mesh on which this MeshFunction is defined
    */
   [[nodiscard]] std::shared_ptr<const lf::mesh::Mesh> getMesh() const {
-    return mh_.getMesh(level_coarse_ + 1);
+    return mh_.getMesh(level_fine_);
   }
 
  private:
-- 
2.43.0


From 585dc2f93c89371b361cacea69ae0154c05d366c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:03:41 +0000
Subject: [PATCH 09/38] fix: lookup of physical entities does not run past the
 matching ones

If several physical entities share the name (number) but none has the requested
codimension, the search continued into entities with another name (number).
---
 lib/lf/io/gmsh_reader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 5aaac08..358104c 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -53,10 +53,10 @@ size_type GmshReader::PhysicalEntityName2Nr(const std::string& name,
     if (result.second.second == codim) {
       return result.second.first;
     }
-    while (begin->second.second != codim && begin != end) {
+    while (begin != end && begin->second.second != codim) {
       ++begin;
     }
-    if (begin->second.second == codim) {
+    if (begin != end) {
       return begin->second.first;
     }
   }
@@ -87,10 +87,10 @@ std::string GmshReader::PhysicalEntityNr2Name(size_type number,
     if (result.second.second == codim) {
       return result.second.first;
     }
-    while (begin->second.second != codim && begin != end) {
+    while (begin != end && begin->second.second != codim) {
       ++begin;
     }
-    if (begin->second.second == codim) {
+    if (begin != end) {
       return begin->second.first;
     }
   }
-- 
2.43.0


From f58fe46f7735823e4841dd11c84aa597bde3a8a9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:03:41 +0000
Subject: [PATCH 10/38] fix: IntegrateMeshFunction() integrates over the
 selected entities only

The first entity of the mesh was always included.
---
 lib/lf/fe/fe_tools.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/lf/fe/fe_tools.h b/lib/lf/fe/fe_tools.h
index fc599c6..c5317a5 100644
--- a/lib/lf/fe/fe_tools.h
+++ b/lib/lf/fe/fe_tools.h
@@ -114,8 +114,23 @@ auto IntegrateMeshFunction(
   using MfType = mesh::utils::MeshFunctionReturnType<MF>;
 
   auto entities = mesh.Entities(codim);
-  auto result = internal::LocalIntegral(**entities.begin(), qr_selector, mf);
-  for (auto i = entities.begin() + 1; i != entities.end(); ++i) {
+  // The first selected entity
+  auto i = entities.begin();
+  while (i != entities.end() && !ep(**i)) {
+    ++i;
+  }
+  if (i == entities.end()) {
+    // nothing selected
+    if constexpr (base::EigenMatrix<MfType>) {  // NOLINT
+      MfType zero;
+      zero.setZero();
+      return zero;
+    } else {  // NOLINT
+      return MfType(0);
+    }
+  }
+  MfType result = internal::LocalIntegral(**i, qr_selector, mf);
+  for (++i; i != entities.end(); ++i) {
     if (!ep(**i)) {
       continue;
     }
-- 
2.43.0


From a2f01f0ec1bcf85fd41ec7750d9ff24431bd3e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:36 +0000
Subject: [PATCH 11/38] fix: product of mesh functions of arbitrary types has a
 value for every point

The loop of the general overload ran over the (still empty) result.
---
 lib/lf/mesh/utils/mesh_function_binary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/mesh/utils/mesh_function_binary.h b/lib/lf/mesh/utils/mesh_function_binary.h
index 0970b5f..5a50c62 100644
--- a/lib/lf/mesh/utils/mesh_function_binary.h
+++ b/lib/lf/mesh/utils/mesh_function_binary.h
@@ -628,7 +628,7 @@ struct OperatorMultiplication {
                   long /*unused*/) const {
     std::vector<decltype(u[0] * v[0])> result;
     result.reserve(u.size());
-    for (int i = 0; i < result.size(); ++i) {
+    for (int i = 0; i < u.size(); ++i) {
       result.emplace_back(u[i] * v[i]);
     }
     return result;
-- 
2.43.0


From fe65b5b3de3f18848ff2e6f82f7204d9146e39bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:36 +0000
Subject: [PATCH 12/38] fix: sums and differences of real and complex scalar
 mesh functions

The values of the second operand were accessed with the type of the first one.
---
 lib/lf/mesh/utils/mesh_function_binary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/mesh/utils/mesh_function_binary.h b/lib/lf/mesh/utils/mesh_function_binary.h
index 5a50c62..ea1fc1b 100644
--- a/lib/lf/mesh/utils/mesh_function_binary.h
+++ b/lib/lf/mesh/utils/mesh_function_binary.h
@@ -107,7 +107,7 @@ struct OperatorAddition {
                   /*unused*/) const {
     const Eigen::Map<const Eigen::Matrix<U, 1, Eigen::Dynamic>> um(u.data(), 1,
                                                                    u.size());
-    const Eigen::Map<const Eigen::Matrix<U, 1, Eigen::Dynamic>> vm(v.data(), 1,
+    const Eigen::Map<const Eigen::Matrix<V, 1, Eigen::Dynamic>> vm(v.data(), 1,
                                                                    v.size());
     std::vector<decltype(U(0) + V(0))> result(u.size());  // NOLINT
     // NOLINTNEXTLINE(google-readability-casting)
@@ -275,7 +275,7 @@ struct OperatorSubtraction {
                   /*unused*/) const {
     const Eigen::Map<const Eigen::Matrix<U, 1, Eigen::Dynamic>> um(u.data(), 1,
                                                                    u.size());
-    const Eigen::Map<const Eigen::Matrix<U, 1, Eigen::Dynamic>> vm(v.data(), 1,
+    const Eigen::Map<const Eigen::Matrix<V, 1, Eigen::Dynamic>> vm(v.data(), 1,
                                                                    v.size());
     std::vector<decltype(U(0) + V(0))> result(u.size());  // NOLINT
     // NOLINTNEXTLINE(google-readability-casting)
-- 
2.43.0


From 8b8afc3c069507dfdd7aeb876e2c1235fe2258cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:18 +0000
Subject: [PATCH 13/38] fix: squaredNorm() of complex valued and of matrix
 valued mesh functions

For matrices of fixed size the result was left zero.
---
 lib/lf/mesh/utils/mesh_function_unary.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lib/lf/mesh/utils/mesh_function_unary.h b/lib/lf/mesh/utils/mesh_function_unary.h
index 4424216..5986a9a 100644
--- a/lib/lf/mesh/utils/mesh_function_unary.h
+++ b/lib/lf/mesh/utils/mesh_function_unary.h
@@ -130,13 +130,14 @@ struct UnaryOpMinus {
 
 struct UnaryOpSquaredNorm {
   // squared norm of a scalar type
-  template <class U, class = std::enable_if_t<std::is_arithmetic_v<U>>>
+  template <base::Scalar U>
   auto operator()(const std::vector<U>& u, int /*unused*/) const {
+    using real_t = typename Eigen::NumTraits<U>::Real;
     const Eigen::Map<const Eigen::Matrix<U, 1, Eigen::Dynamic>> um(u.data(), 1,
                                                                    u.size());
-    std::vector<U> result(u.size());
-    Eigen::Map<Eigen::Matrix<U, 1, Eigen::Dynamic>> rm(result.data(), 1,
-                                                       u.size());
+    std::vector<real_t> result(u.size());
+    Eigen::Map<Eigen::Matrix<real_t, 1, Eigen::Dynamic>> rm(result.data(), 1,
+                                                            u.size());
     rm = um.cwiseAbs2();
     return result;
   }
@@ -154,15 +155,19 @@ struct UnaryOpSquaredNorm {
       if constexpr (C == 1) {  // NOLINT
         const Eigen::Map<const Eigen::Matrix<S, R, Eigen::Dynamic>> um(
             &u[0](0, 0), R, u.size());
-        Eigen::Map<Eigen::Matrix<S, 1, Eigen::Dynamic>> rm(result.data(), 1,
-                                                           u.size());
+        Eigen::Map<Eigen::Matrix<double, 1, Eigen::Dynamic>> rm(result.data(),
+                                                                1, u.size());
         rm = um.cwiseAbs2().colwise().sum();
       } else if constexpr (R == 1) {  // NOLINT
         Eigen::Map<const Eigen::Matrix<S, Eigen::Dynamic, C, Eigen::RowMajor>>
             um(&u[0](0, 0), u.size(), C);
-        Eigen::Map<Eigen::Matrix<S, Eigen::Dynamic, 1>> rm(result.data(),
-                                                           u.size(), 1);
+        Eigen::Map<Eigen::Matrix<double, Eigen::Dynamic, 1>> rm(result.data(),
+                                                                u.size(), 1);
         rm = um.cwiseAbs2().rowwise().sum();
+      } else {  // NOLINT
+        for (std::size_t i = 0; i < u.size(); ++i) {
+          result[i] = u[i].squaredNorm();
+        }
       }
     } else {  // NOLINT
       for (std::size_t i = 0; i < u.size(); ++i) {
-- 
2.43.0


From 91ba9c788a5980a264c493e7928805a05f37f695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:18 +0000
Subject: [PATCH 14/38] fix: arithmetic of mesh functions with row major
 matrices and arrays

The entries of row major matrices of fixed size ended up at the transposed
position of the (column major) result.
---
 lib/lf/mesh/utils/mesh_function_binary.h | 59 +++++++++++++-----------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/lib/lf/mesh/utils/mesh_function_binary.h b/lib/lf/mesh/utils/mesh_function_binary.h
index ea1fc1b..4786627 100644
--- a/lib/lf/mesh/utils/mesh_function_binary.h
+++ b/lib/lf/mesh/utils/mesh_function_binary.h
@@ -127,7 +127,8 @@ struct OperatorAddition {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) + S2(0));
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  O1 == O2) {  // NOLINT
       // add two static size eigen matrices to each other
       static_assert(R1 == R2, "cannot add matrices with different #rows.");
       static_assert(C1 == C2, "cannot add matrices with different #cols.");
@@ -137,14 +138,14 @@ struct OperatorAddition {
       Eigen::Map<const Eigen::Matrix<S2, 1, Eigen::Dynamic>> vm(
           &v[0](0, 0), 1, v.size() * R1 * C1);
 
-      std::vector<Eigen::Matrix<scalar_t, R1, C1>> result(u.size());
+      std::vector<Eigen::Matrix<scalar_t, R1, C1, O1>> result(u.size());
       Eigen::Map<Eigen::Matrix<scalar_t, 1, Eigen::Dynamic>> rm(
           &result[0](0, 0), 1, u.size() * R1 * C1);
       rm = um + vm;
       return result;
-    }
-    if constexpr ((R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) ||
-                  (R2 != Eigen::Dynamic && C2 != Eigen::Dynamic)) {  // NOLINT
+    } else if constexpr ((R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) ||
+                         (R2 != Eigen::Dynamic &&
+                          C2 != Eigen::Dynamic)) {  // NOLINT
       // One of the matrices is fixed size:
       constexpr int fixedRows = std::max(R1, R2);
       constexpr int fixedCols = std::max(C1, C2);
@@ -185,7 +186,8 @@ struct OperatorAddition {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) + S2(0));
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  O1 == O2) {  // NOLINT
       // add two static size eigen arrays to each other
       static_assert(R1 == R2, "cannot add arrays with different #rows.");
       static_assert(C1 == C2, "cannot add arrays with different #cols.");
@@ -195,14 +197,14 @@ struct OperatorAddition {
       Eigen::Map<const Eigen::Array<S2, 1, Eigen::Dynamic>> vm(
           &v[0](0, 0), 1, v.size() * R1 * C1);
 
-      std::vector<Eigen::Array<scalar_t, R1, C1>> result(u.size());
+      std::vector<Eigen::Array<scalar_t, R1, C1, O1>> result(u.size());
       Eigen::Map<Eigen::Array<scalar_t, 1, Eigen::Dynamic>> rm(
           &result[0](0, 0), 1, u.size() * R1 * C1);
       rm = um + vm;
       return result;
-    }
-    if constexpr ((R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) ||
-                  (R2 != Eigen::Dynamic && C2 != Eigen::Dynamic)) {  // NOLINT
+    } else if constexpr ((R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) ||
+                         (R2 != Eigen::Dynamic &&
+                          C2 != Eigen::Dynamic)) {  // NOLINT
       // One of the arrays is fixed size:
       constexpr int fixedRows = std::max(R1, R2);
       constexpr int fixedCols = std::max(C1, C2);
@@ -295,7 +297,8 @@ struct OperatorSubtraction {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) + S2(0));  // NOLINT
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  O1 == O2) {  // NOLINT
       // subtract two static size eigen matrices from each other
       static_assert(R1 == R2, "cannot subtract matrices with different #rows.");
       static_assert(C1 == C2, "cannot subtract matrices with different #cols.");
@@ -305,14 +308,14 @@ struct OperatorSubtraction {
       Eigen::Map<const Eigen::Matrix<S2, 1, Eigen::Dynamic>> vm(
           &v[0](0, 0), 1, v.size() * R1 * C1);
 
-      std::vector<Eigen::Matrix<scalar_t, R1, C1>> result(u.size());
+      std::vector<Eigen::Matrix<scalar_t, R1, C1, O1>> result(u.size());
       Eigen::Map<Eigen::Matrix<scalar_t, 1, Eigen::Dynamic>> rm(
           &result[0](0, 0), 1, u.size() * R1 * C1);
       rm = um - vm;
       return result;
-    }
-    if constexpr ((R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) ||
-                  (R2 != Eigen::Dynamic && C2 != Eigen::Dynamic)) {  // NOLINT
+    } else if constexpr ((R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) ||
+                         (R2 != Eigen::Dynamic &&
+                          C2 != Eigen::Dynamic)) {  // NOLINT
       // One of the matrices is fixed size:
       constexpr int fixedRows = std::max(R1, R2);
       constexpr int fixedCols = std::max(C1, C2);
@@ -357,7 +360,8 @@ struct OperatorSubtraction {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) - S2(0));
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  O1 == O2) {  // NOLINT
       // subtract two static size eigen arrays to each other
       static_assert(R1 == R2, "cannot subtract arrays with different #rows.");
       static_assert(C1 == C2, "cannot subtract arrays with different #cols.");
@@ -367,14 +371,14 @@ struct OperatorSubtraction {
       Eigen::Map<const Eigen::Array<S2, 1, Eigen::Dynamic>> vm(
           &v[0](0, 0), 1, v.size() * R1 * C1);
 
-      std::vector<Eigen::Array<scalar_t, R1, C1>> result(u.size());
+      std::vector<Eigen::Array<scalar_t, R1, C1, O1>> result(u.size());
       Eigen::Map<Eigen::Array<scalar_t, 1, Eigen::Dynamic>> rm(
           &result[0](0, 0), 1, u.size() * R1 * C1);
       rm = um - vm;
       return result;
-    }
-    if constexpr ((R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) ||
-                  (R2 != Eigen::Dynamic && C2 != Eigen::Dynamic)) {  // NOLINT
+    } else if constexpr ((R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) ||
+                         (R2 != Eigen::Dynamic &&
+                          C2 != Eigen::Dynamic)) {  // NOLINT
       // One of the arrays is fixed size:
       constexpr int fixedRows = std::max(R1, R2);
       constexpr int fixedCols = std::max(C1, C2);
@@ -504,7 +508,8 @@ struct OperatorMultiplication {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) * S2(0));
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  O1 == O2) {  // NOLINT
       // multiply two static size eigen arrays to each other
       static_assert(R1 == R2, "cannot multiply arrays with different #rows.");
       static_assert(C1 == C2, "cannot multiply arrays with different #cols.");
@@ -514,14 +519,14 @@ struct OperatorMultiplication {
       Eigen::Map<const Eigen::Array<S2, 1, Eigen::Dynamic>> vm(
           &v[0](0, 0), 1, v.size() * R1 * C1);
 
-      std::vector<Eigen::Array<scalar_t, R1, C1>> result(u.size());
+      std::vector<Eigen::Array<scalar_t, R1, C1, O1>> result(u.size());
       Eigen::Map<Eigen::Array<scalar_t, 1, Eigen::Dynamic>> rm(
           &result[0](0, 0), 1, u.size() * R1 * C1);
       rm = um * vm;
       return result;
-    }
-    if constexpr ((R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) ||
-                  (R2 != Eigen::Dynamic && C2 != Eigen::Dynamic)) {  // NOLINT
+    } else if constexpr ((R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) ||
+                         (R2 != Eigen::Dynamic &&
+                          C2 != Eigen::Dynamic)) {  // NOLINT
       // One of the arrays is fixed size:
       constexpr int fixedRows = std::max(R1, R2);
       constexpr int fixedCols = std::max(C1, C2);
@@ -562,7 +567,7 @@ struct OperatorMultiplication {
                   const std::vector<Eigen::Matrix<S1, R1, C1, O1, MR1, MC1>>& v,
                   int /*unused*/) const {
     using scalar_t = decltype(u[0] * v[0](0, 0));
-    std::vector<Eigen::Matrix<scalar_t, R1, C1>> result(u.size());
+    std::vector<Eigen::Matrix<scalar_t, R1, C1, O1>> result(u.size());
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) {  // NOLINT
       // result is a static sized matrix:
       Eigen::Map<const Eigen::Array<S1, R1 * C1, Eigen::Dynamic>> vm(
@@ -595,7 +600,7 @@ struct OperatorMultiplication {
                   const std::vector<Eigen::Array<S1, R1, C1, O1, MR1, MC1>>& v,
                   int /*unused*/) const {
     using scalar_t = decltype(u[0] * v[0](0, 0));
-    std::vector<Eigen::Array<scalar_t, R1, C1>> result(u.size());
+    std::vector<Eigen::Array<scalar_t, R1, C1, O1>> result(u.size());
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) {
       // result is a static sized array:
       Eigen::Map<const Eigen::Array<S1, R1 * C1, Eigen::Dynamic>> vm(
-- 
2.43.0


From dde0732638c79e7792f0b42bc1edaa42868f37d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:59 +0000
Subject: [PATCH 15/38] fix: GmshReader attributes repeated point elements to
 their own node

A point element which appears several times in a row (a point in several
physical groups) was attributed to the node with the largest index treated so
far, or accessed an empty vector.
---
 lib/lf/io/gmsh_reader.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 358104c..a9dc776 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -219,9 +219,10 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
     const auto& end_element = msh_file.Elements[end];
     auto ref_el = RefElOf(end_element.Type);
     auto codim = dim_mesh - ref_el.Dimension();
-    if (begin_element.NodeNumbers == end_element.NodeNumbers && begin != end &&
+    if (ref_el != base::RefEl::kPoint() &&
+        begin_element.NodeNumbers == end_element.NodeNumbers && begin != end &&
         begin_element.Type == end_element.Type) {
-      // This entity appears more than once
+      // This entity appears more than once (points are treated below)
       mi2gi[codim].back().push_back(end);
       continue;
     }
@@ -468,8 +469,9 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
       const auto& begin_element = element_block.elements[begin];
       const auto& end_element = element_block.elements[end];
 
-      if (begin_element.second == end_element.second && begin != end) {
-        // This entity appears more than once
+      if (ref_el != base::RefEl::kPoint() &&
+          begin_element.second == end_element.second && begin != end) {
+        // This entity appears more than once (points are treated below)
         mi2gi[codim].back().emplace_back(ebi);
         continue;
       }
-- 
2.43.0


From 40a4773cff286fc9a1d6d7a1ebd4144c7c11b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:59 +0000
Subject: [PATCH 16/38] fix: GmshReader (format 2) out of bounds access for
 point elements

gi2mi had no entry for nodes whose number exceeds those of all main nodes.
---
 lib/lf/io/gmsh_reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index a9dc776..1e25755 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -191,6 +191,7 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
     const auto& n = msh_file.Nodes[i];
     if (gi2i.size() <= n.first) {
       gi2i.resize(n.first + 1, -1);
+      gi2mi.resize(n.first + 1, -1);
     }
     gi2i[n.first] = i;
 
-- 
2.43.0


From dec6d5e9f7360153b294e286b4016f9f60073763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:59 +0000
Subject: [PATCH 17/38] fix: GmshReader (format 4) accepts edges which belong
 to no cell

As in format 2, the end points of edges are nodes of the mesh. They were not
inserted if they belonged to no cell, so that reading the file failed.
---
 lib/lf/io/gmsh_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 1e25755..99d84d1 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -392,7 +392,7 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
 
       num_entities[eb.dimension] += eb.elements.size();
 
-      if (eb.dimension == dim_mesh) {
+      if (eb.dimension > 0) {
         // mark main nodes
         auto ref_el = RefElOf(eb.element_type);
         for (const auto& element : eb.elements) {
-- 
2.43.0


From 960c1180e958503d83b12304c0941bee208610b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:59 +0000
Subject: [PATCH 18/38] fix: binary Gmsh files of format 4 with unknown
 sections can be read

The name of an unknown section (e.g. $Comments) was read with a skipper, so that
it did not stop at the end of the line. The text grammar does it right.
---
 lib/lf/io/gmsh_file_v4_binary.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/io/gmsh_file_v4_binary.cc b/lib/lf/io/gmsh_file_v4_binary.cc
index 39c347c..4d05df3 100644
--- a/lib/lf/io/gmsh_file_v4_binary.cc
+++ b/lib/lf/io/gmsh_file_v4_binary.cc
@@ -200,7 +200,7 @@ struct MshV4GrammarBinary
   }
 
   qi::rule<ITERATOR, std::string(), ascii::space_type> quoted_string_;
-  qi::rule<ITERATOR, std::string(), ascii::space_type> start_comment_;
+  qi::rule<ITERATOR, std::string()> start_comment_;
   qi::rule<ITERATOR, qi::locals<std::string>, ascii::space_type> comment_;
   qi::rule<ITERATOR, Eigen::Vector3d()> vec3_;
   qi::rule<ITERATOR, std::vector<int>, qi::locals<std::size_t>> int_vec_;
-- 
2.43.0


From e5c8f86ab93a8d647fcba2a725064a9463cd6e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:03 +0000
Subject: [PATCH 19/38] fix: define the fixed size node coordinates of RefEl

RefEl::NodeCoords<type>() could not be linked: the static vectors it returns
were declared but never defined.
---
 lib/lf/base/ref_el.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/lf/base/ref_el.cc b/lib/lf/base/ref_el.cc
index e93ecb7..c49d198 100644
--- a/lib/lf/base/ref_el.cc
+++ b/lib/lf/base/ref_el.cc
@@ -13,6 +13,20 @@ const Eigen::MatrixXd RefEl::ncoords_tria_dynamic_ =
 const Eigen::MatrixXd RefEl::ncoords_quad_dynamic_ =
     (Eigen::MatrixXd{2, 4} << 0, 1, 1, 0, 0, 0, 1, 1).finished();
 
+const std::vector<Eigen::Matrix<double, 0, 1>> RefEl::ncoords_point_static_{
+    Eigen::Matrix<double, 0, 1>()};
+
+const std::vector<Eigen::Matrix<double, 1, 1>> RefEl::ncoords_segment_static_{
+    Eigen::Matrix<double, 1, 1>::Constant(0),
+    Eigen::Matrix<double, 1, 1>::Constant(1)};
+
+const std::vector<Eigen::Vector2d> RefEl::ncoords_tria_static_{
+    Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 0), Eigen::Vector2d(0, 1)};
+
+const std::vector<Eigen::Vector2d> RefEl::ncoords_quad_static_{
+    Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 0), Eigen::Vector2d(1, 1),
+    Eigen::Vector2d(0, 1)};
+
 // Print function
 void PrintInfo(std::ostream &stream, const RefEl &ref_el, int output_ctrl) {
   const base::dim_t dim_ref_el = ref_el.Dimension();
-- 
2.43.0


From 894ecf6494a394ed66f59d54e37d57ea9413e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:03 +0000
Subject: [PATCH 20/38] fix: PrintInfo() of the reference segment with node
 coordinates

The second coordinate of the one-dimensional nodes was accessed.
---
 lib/lf/base/ref_el.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/base/ref_el.cc b/lib/lf/base/ref_el.cc
index c49d198..aa49fc4 100644
--- a/lib/lf/base/ref_el.cc
+++ b/lib/lf/base/ref_el.cc
@@ -53,8 +53,8 @@ void PrintInfo(std::ostream &stream, const RefEl &ref_el, int output_ctrl) {
           if (ref_el.SubType(co_dim, 0) == RefEl::kPoint() &&
               output_ctrl > 20) {
             stream << " and has coordinates ["
-                   << ref_el.NodeCoords().col(sub_ent)[0] << " "
-                   << ref_el.NodeCoords().col(sub_ent)[1] << "]" << '\n';
+                   << ref_el.NodeCoords().col(sub_ent).transpose() << "]"
+                   << '\n';
           }
           stream << '\n';
         }
-- 
2.43.0


From 532872c7fdeda0ffab7d1ea618a085a753e90583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:25 +0000
Subject: [PATCH 21/38] fix: VtkWriter samples cell data at the barycenter of
 quadrilaterals

---
 lib/lf/io/vtk_writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/io/vtk_writer.h b/lib/lf/io/vtk_writer.h
index e5d5afa..5fd7287 100644
--- a/lib/lf/io/vtk_writer.h
+++ b/lib/lf/io/vtk_writer.h
@@ -933,7 +933,7 @@ void VtkWriter::WriteCellData(const std::string& name,
   barycenters[base::RefEl::kTria().Id()] =
       base::RefEl::kTria().NodeCoords().rowwise().sum() / 3.;
   barycenters[base::RefEl::kQuad().Id()] =
-      base::RefEl::kTria().NodeCoords().rowwise().sum() / 4.;
+      base::RefEl::kQuad().NodeCoords().rowwise().sum() / 4.;
 
   if constexpr (base::EigenArray<T> || base::EigenMatrix<T>) {
     static_assert(T::ColsAtCompileTime == 1,
-- 
2.43.0


From 8a2a01ce2669a764c7ae1d7b312a1605ca78e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:25 +0000
Subject: [PATCH 22/38] fix: VtkFile labels unsigned char data as unsigned_char

---
 lib/lf/io/vtk_writer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/io/vtk_writer.cc b/lib/lf/io/vtk_writer.cc
index b8a1f4c..6e09096 100644
--- a/lib/lf/io/vtk_writer.cc
+++ b/lib/lf/io/vtk_writer.cc
@@ -224,7 +224,7 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
           << eol;
 
       scalar_data_uchar %=
-          (lit("SCALARS ") << karma::string << lit(" char 1") << eol
+          (lit("SCALARS ") << karma::string << lit(" unsigned_char 1") << eol
                            << lit("LOOKUP_TABLE ") << karma::string << eol
                            << *karma::byte_)
           << eol;
@@ -308,7 +308,7 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
           << eol;
 
       scalar_data_uchar %=
-          (lit("SCALARS ") << karma::string << lit(" char 1") << eol
+          (lit("SCALARS ") << karma::string << lit(" unsigned_char 1") << eol
                            << lit("LOOKUP_TABLE ") << karma::string << eol
                            << (*(karma::ushort_ % eol)))
           << eol;
-- 
2.43.0


From a4ac6425b650d80b91505a4a7eb0cce845de23b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:25 +0000
Subject: [PATCH 23/38] fix: interior Lagrange points of triangles of order >=
 7 in VtkWriter

---
 lib/lf/io/vtk_writer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/io/vtk_writer.cc b/lib/lf/io/vtk_writer.cc
index 6e09096..9b55b56 100644
--- a/lib/lf/io/vtk_writer.cc
+++ b/lib/lf/io/vtk_writer.cc
@@ -523,8 +523,8 @@ Eigen::MatrixXd AuxNodesTria(unsigned char order) {
       // assign interior points recursively:
       auto points = AuxNodesTria(order - 3);
       result.block(0, 3 * order - 9, 2, points.cols()) =
-          AuxNodesTria(order - 3) * (order - 6.) / order +
-          Eigen::Vector2d(2. / order, 2. / order) *
+          AuxNodesTria(order - 3) * (order - 3.) / order +
+          Eigen::Vector2d(1. / order, 1. / order) *
               Eigen::MatrixXd::Ones(1, points.cols());
     }
   }
-- 
2.43.0


From b7446bde3e70c0b835076d72122dab6e309a797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:25 +0000
Subject: [PATCH 24/38] fix: empty field data arrays do not get lost in ASCII
 vtk files

---
 lib/lf/io/vtk_writer.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/lf/io/vtk_writer.cc b/lib/lf/io/vtk_writer.cc
index 9b55b56..2aebe66 100644
--- a/lib/lf/io/vtk_writer.cc
+++ b/lib/lf/io/vtk_writer.cc
@@ -200,16 +200,17 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
     } else {
       field_data_int %= karma::string << lit(" 1 ") << lit(size(at_c<1>(_val)))
                                       << lit(" int") << eol
-                                      << (karma::int_ % lit(' ')) << eol;
+                                      << (*(karma::int_ % lit(' '))) << eol;
       field_data_float %= karma::string
                           << lit(" 1 ") << lit(size(at_c<1>(_val)))
-                          << lit(" float") << eol << (karma::float_ % lit(' '))
+                          << lit(" float") << eol
+                          << (*(karma::float_ % lit(' ')))
                           << eol;
 
       field_data_double %= karma::string << lit(" 1 ")
                                          << lit(size(at_c<1>(_val)))
                                          << lit(" double") << eol
-                                         << (karma::double_ % lit(' ')) << eol;
+                                         << (*(karma::double_ % lit(' '))) << eol;
     }
     field_data %= lit("FIELD FieldData ")
                   << lit(size(_val)) << eol
-- 
2.43.0


From 680efc1ac155d2a42413a5ddd13ac8a432339b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:25 +0000
Subject: [PATCH 25/38] fix: VtkWriter accepts dynamic vectors of arbitrary
 size

---
 lib/lf/io/vtk_writer.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/lf/io/vtk_writer.h b/lib/lf/io/vtk_writer.h
index 5fd7287..e30c9d7 100644
--- a/lib/lf/io/vtk_writer.h
+++ b/lib/lf/io/vtk_writer.h
@@ -997,14 +997,10 @@ void VtkWriter::PadWithZeros(Eigen::Matrix<T, 3, 1>& out,
   } else if constexpr (ROWS == 3) {  // NOLINT
     out = in;
   } else if constexpr (ROWS == Eigen::Dynamic) {  // NOLINT
-    LF_ASSERT_MSG(in.rows() == 2 || in.rows() == 3,
-                  "VtkWriter can only write out 2d or 3d vectors.");
-    if (in.rows() == 2) {
-      out(2) = T{0};
-      out.topRows(2) = in;
-    } else {
-      out = in;
-    }
+    // only the first three components are visualized
+    const Eigen::Index rows = std::min<Eigen::Index>(in.rows(), 3);
+    out.setZero();
+    out.topRows(rows) = in.topRows(rows);
   }
 }
 
-- 
2.43.0


From 9c1a2d3277b2ec827ac5b98bcb6db1dc249da952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:47 +0000
Subject: [PATCH 26/38] fix: numbers in ASCII vtk files keep their accuracy

---
 lib/lf/io/vtk_writer.cc | 45 +++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/lib/lf/io/vtk_writer.cc b/lib/lf/io/vtk_writer.cc
index 2aebe66..ba0d89c 100644
--- a/lib/lf/io/vtk_writer.cc
+++ b/lib/lf/io/vtk_writer.cc
@@ -11,11 +11,14 @@
 #include <lf/base/base.h>
 
 #include <Eigen/Eigen>
+#include <array>
 #include <boost/fusion/include/adapt_struct.hpp>
 #include <boost/phoenix/phoenix.hpp>
 #include <boost/phoenix/scope/let.hpp>
 #include <boost/spirit/include/karma.hpp>
+#include <cstdio>
 #include <fstream>
+#include <limits>
 #include <unsupported/Eigen/KroneckerProduct>
 
 #include "eigen_fusion_adapter.h"
@@ -118,6 +121,25 @@ std::ostream& operator<<(std::ostream& stream, const VtkFile::Format& f) {
 
 namespace /*anonymous */ {
 namespace karma = boost::spirit::karma;
+
+/// Write floating point numbers in ASCII files such that no digits get lost.
+template <class T>
+struct VtkRealPolicies : karma::real_policies<T> {
+  template <class Inserter, class OutputIterator, class Policies>
+  static bool call(OutputIterator& sink, T n, const Policies& /*p*/) {
+    std::array<char, 32> buffer{};
+    const int size = std::snprintf(buffer.data(), buffer.size(), "%.*g",
+                                   std::numeric_limits<T>::max_digits10, n);
+    for (int i = 0; i < size; ++i) {
+      *sink = buffer[i];
+      ++sink;
+    }
+    return true;
+  }
+};
+const karma::real_generator<float, VtkRealPolicies<float>> vtk_float;
+const karma::real_generator<double, VtkRealPolicies<double>> vtk_double;
+
 template <class Iterator, bool BINARY>
 struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
   // template <class T>
@@ -142,8 +164,8 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
                                               << karma::big_bin_float)
                        << eol;
     } else {
-      points_vector %= *(karma::float_ << ' ' << karma::float_ << ' '
-                                       << karma::float_ << karma::eol);
+      points_vector %=
+          *(vtk_float << ' ' << vtk_float << ' ' << vtk_float << karma::eol);
     }
 
     points = lit("POINTS ")
@@ -203,14 +225,13 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
                                       << (*(karma::int_ % lit(' '))) << eol;
       field_data_float %= karma::string
                           << lit(" 1 ") << lit(size(at_c<1>(_val)))
-                          << lit(" float") << eol
-                          << (*(karma::float_ % lit(' ')))
+                          << lit(" float") << eol << (*(vtk_float % lit(' ')))
                           << eol;
 
       field_data_double %= karma::string << lit(" 1 ")
                                          << lit(size(at_c<1>(_val)))
                                          << lit(" double") << eol
-                                         << (*(karma::double_ % lit(' '))) << eol;
+                                         << (*(vtk_double % lit(' '))) << eol;
     }
     field_data %= lit("FIELD FieldData ")
                   << lit(size(_val)) << eol
@@ -352,26 +373,24 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
       scalar_data_float %=
           (lit("SCALARS ") << karma::string << lit(" float 1") << eol
                            << lit("LOOKUP_TABLE ") << karma::string << eol
-                           << (*(karma::float_ % eol)))
+                           << (*(vtk_float % eol)))
           << eol;
 
       scalar_data_double %=
           (lit("SCALARS ") << karma::string << lit(" double 1") << eol
                            << lit("LOOKUP_TABLE ") << karma::string << eol
-                           << (*(karma::double_ % eol)))
+                           << (*(vtk_double % eol)))
           << eol;
 
       vector_data_float %= lit("VECTORS ")
                            << karma::string << lit(" float") << eol
-                           << *(karma::float_ << lit(' ') << karma::float_
-                                              << lit(' ') << karma::float_
-                                              << eol);
+                           << *(vtk_float << lit(' ') << vtk_float << lit(' ')
+                                          << vtk_float << eol);
 
       vector_data_double %= lit("VECTORS ")
                             << karma::string << lit(" double") << eol
-                            << *(karma::double_ << lit(' ') << karma::double_
-                                                << lit(' ') << karma::double_
-                                                << eol);
+                            << *(vtk_double << lit(' ') << vtk_double
+                                            << lit(' ') << vtk_double << eol);
     }
 
     attributes %=
-- 
2.43.0


From 234f77cb1251e31ee1028911246fcecbd5504962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:47 +0000
Subject: [PATCH 27/38] fix: names of the file and of the function written by
 writeMatlab()

---
 lib/lf/io/write_matlab.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/lf/io/write_matlab.cc b/lib/lf/io/write_matlab.cc
index ce66062..d826e9b 100644
--- a/lib/lf/io/write_matlab.cc
+++ b/lib/lf/io/write_matlab.cc
@@ -14,8 +14,7 @@ void writeMatlab(const lf::mesh::Mesh& mesh, std::string filename) {
   // Preprocess filename: append .m, if not there already
   {
     const size_type fn_len = filename.size();
-    if ((fn_len > 1) && (filename[fn_len - 2] != '.') &&
-        (filename[fn_len - 1] != 'm')) {
+    if ((fn_len < 2) || (filename.compare(fn_len - 2, 2, ".m") != 0)) {
       filename += ".m";
     }
   }
@@ -23,9 +22,10 @@ void writeMatlab(const lf::mesh::Mesh& mesh, std::string filename) {
   std::ofstream file(filename);
   if (file.is_open()) {
     // Start regular writing operations
-    // Remove trailing .m
+    // Remove trailing .m and leading directories
     filename.pop_back();
     filename.pop_back();
+    filename.erase(0, filename.find_last_of("/\\") + 1);
     file << "function [x,y,TRI,QUAD,EDS] = " << filename << "()" << '\n';
     file << "% Data for an unstructure planar hybrid 2D mesh" << '\n';
 
-- 
2.43.0


From 0cc9b1c5427881fd61e4365f3fc2b381c717b33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:47 +0000
Subject: [PATCH 28/38] fix: writeMatplotlib() accepts file names with less
 than four characters

---
 lib/lf/io/write_matplotlib.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/lf/io/write_matplotlib.cc b/lib/lf/io/write_matplotlib.cc
index 62e6d4b..b7b3cdd 100644
--- a/lib/lf/io/write_matplotlib.cc
+++ b/lib/lf/io/write_matplotlib.cc
@@ -18,7 +18,8 @@ void writeMatplotlib(const lf::mesh::Mesh &mesh, std::string filename) {
   using dim_t = lf::base::RefEl::dim_t;
 
   // append .csv to filename if necessary
-  if (filename.compare(filename.size() - 4, 4, ".csv") != 0) {
+  if (filename.size() < 4 ||
+      filename.compare(filename.size() - 4, 4, ".csv") != 0) {
     filename += ".csv";
   }
 
-- 
2.43.0


From 84f352f27864591e2bedf75100ef78914868dc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:32 +0000
Subject: [PATCH 29/38] fix: names of the file and of the function written by
 WriteMatlabLevel()

---
 lib/lf/refinement/refutils.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/lf/refinement/refutils.cc b/lib/lf/refinement/refutils.cc
index 7d0f992..ac1fcd0 100644
--- a/lib/lf/refinement/refutils.cc
+++ b/lib/lf/refinement/refutils.cc
@@ -22,8 +22,7 @@ void WriteMatlabLevel(const MeshHierarchy &hier_mesh, size_type level,
   // Preprocess filename: append .m, if not there already
   {
     const size_type fn_len = filename.size();
-    if ((fn_len > 1) && (filename[fn_len - 2] != '.') &&
-        (filename[fn_len - 1] != 'm')) {
+    if ((fn_len < 2) || (filename.compare(fn_len - 2, 2, ".m") != 0)) {
       filename += ".m";
     }
   }
@@ -31,9 +30,10 @@ void WriteMatlabLevel(const MeshHierarchy &hier_mesh, size_type level,
   std::ofstream file(filename);
   if (file.is_open()) {
     // Start regular writing operations
-    // Remove trailing .m
+    // Remove trailing .m and leading directories
     filename.pop_back();
     filename.pop_back();
+    filename.erase(0, filename.find_last_of("/\\") + 1);
     file << "function [PTPAR,EDPAR,CELLPAR] = " << filename << "()" << '\n';
     file << "% Parent data for a hybid 2D mesh" << '\n';
 
-- 
2.43.0


From a85427766044a85f8fc6c71a7f0881bfb07f937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:09 +0000
Subject: [PATCH 30/38] fix: a ProductUniformFESpaceFactory starts counting
 anew after Build()

---
 projects/dpg/product_fe_space_factory.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/dpg/product_fe_space_factory.h b/projects/dpg/product_fe_space_factory.h
index f54ae44..7a796b3 100644
--- a/projects/dpg/product_fe_space_factory.h
+++ b/projects/dpg/product_fe_space_factory.h
@@ -291,6 +291,7 @@ ProductUniformFESpaceFactory<SCALAR>::Build() {
   rfs_quad_v_ = {};
   rfs_segment_v_ = {};
   rfs_point_v_ = {};
+  num_components_ = 0;
   return fe_space;
 }
 
-- 
2.43.0


From 61e8bd3eb8132823b0b94641a36f941468df6ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:09 +0000
Subject: [PATCH 31/38] fix: FluxElementMatrixProvider respects the orientation
 of edges

---
 projects/dpg/loc_comp_dpg.h | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/projects/dpg/loc_comp_dpg.h b/projects/dpg/loc_comp_dpg.h
index 7a6095d..bfdafcb 100644
--- a/projects/dpg/loc_comp_dpg.h
+++ b/projects/dpg/loc_comp_dpg.h
@@ -857,6 +857,11 @@ class FluxElementMatrixProvider : public SubElementMatrixProvider<SCALAR> {
    */
   std::array<lf::uscalfe::PrecomputedScalarReferenceFiniteElement<SCALAR>, 5>
       fe_precomp_trial_;
+  /** @brief same as `fe_precomp_trial_`, but with the shape functions evaluated
+   * at the quadrature points reflected at the midpoint of the segment; used on
+   * edges whose orientation is opposite to that induced by the cell. */
+  std::array<lf::uscalfe::PrecomputedScalarReferenceFiniteElement<SCALAR>, 5>
+      fe_precomp_trial_reversed_;
   /** @brief array containing the precomputed information for the trial space:
    * fe_precomp_trial[i][j] contains the precomputed reference finite element of
    * \f$ v \f$ for
@@ -921,6 +926,13 @@ FluxElementMatrixProvider<SCALAR, DIFF_COEFF>::FluxElementMatrixProvider(
       fe_precomp_trial_[ref_el.Id()] =
           lf::uscalfe::PrecomputedScalarReferenceFiniteElement(fe_trial,
                                                                segment_qr);
+      fe_precomp_trial_reversed_[ref_el.Id()] =
+          lf::uscalfe::PrecomputedScalarReferenceFiniteElement(
+              fe_trial,
+              lf::quad::QuadRule(
+                  lf::base::RefEl::kSegment(),
+                  (1.0 - segment_qr.Points().array()).matrix(),
+                  segment_qr.Weights(), segment_qr.Degree()));
 
       // transform quadrule to all parts of the boundary.
       std::vector<lf::quad::QuadRule> boundaryQr =
@@ -948,6 +960,7 @@ FluxElementMatrixProvider<SCALAR, DIFF_COEFF>::Eval(
     const lf::mesh::Entity& cell) {
   // ibtain precomputed information
   auto& pfe_trial = fe_precomp_trial_[cell.RefEl().Id()];
+  auto& pfe_trial_reversed = fe_precomp_trial_reversed_[cell.RefEl().Id()];
   auto& pfes_test = fe_precomp_test_[cell.RefEl().Id()];
   // the number of edges of the cell boundary
   int numSegments = cell.RefEl().NumSubEntities(1);
@@ -995,11 +1008,24 @@ FluxElementMatrixProvider<SCALAR, DIFF_COEFF>::Eval(
     int sgn =
         sign_provider_.PrescribedSign(cell, *cell.SubEntities(1)[segment]);
 
+    // If the edge is oriented against the direction induced by the cell, the
+    // local-to-global map numbers its shape functions in reverse order. These
+    // live on the edge and have to be evaluated in its own parametrization.
+    const bool reversed = cell.RelativeOrientations()[segment] ==
+                          lf::mesh::Orientation::negative;
+    Eigen::Matrix<SCALAR, Eigen::Dynamic, Eigen::Dynamic> trial_evals =
+        pfe_trial.PrecompReferenceShapeFunctions();
+    if (reversed) {
+      trial_evals = pfe_trial_reversed.PrecompReferenceShapeFunctions()
+                        .colwise()
+                        .reverse();
+    }
+
     // iterate over quadrature points.
     for (size_type k = 0; k < pfe_trial.Qr().NumPoints(); ++k) {
       // transformed quadrature weight
       const double w = pfe_trial.Qr().Weights()[k] * determinants[k] * sgn;
-      const auto trial_eval = pfe_trial.PrecompReferenceShapeFunctions().col(k);
+      const auto trial_eval = trial_evals.col(k);
       const auto test_eval =
           pfes_test[segment].PrecompReferenceShapeFunctions().col(k);
 
-- 
2.43.0


From 03e8151410e0bbc200c22564a826bc62ae8903bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:09 +0000
Subject: [PATCH 32/38] fix: UniformScalarFESpace on the skeleton needs no
 specification for cells

---
 lib/lf/uscalfe/uniform_scalar_fe_space.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/lf/uscalfe/uniform_scalar_fe_space.h b/lib/lf/uscalfe/uniform_scalar_fe_space.h
index 964e8e2..58e7fe3 100644
--- a/lib/lf/uscalfe/uniform_scalar_fe_space.h
+++ b/lib/lf/uscalfe/uniform_scalar_fe_space.h
@@ -242,16 +242,21 @@ assemble::UniformFEDofHandler UniformScalarFESpace<SCALAR>::InitDofHandler(
     std::shared_ptr<const lf::mesh::Mesh> mesh_p) {
   // Check validity and consistency of mesh pointer
   LF_VERIFY_MSG(mesh_p != nullptr, "Missing mesh!");
-  LF_VERIFY_MSG((rfs_quad_p_ != nullptr) || (rfs_tria_p_ != nullptr),
-                "Missing FE specification for cells");
+  LF_VERIFY_MSG((rfs_quad_p_ != nullptr) || (rfs_tria_p_ != nullptr) ||
+                    (rfs_edge_p_ != nullptr),
+                "Missing FE specification");
   LF_VERIFY_MSG((mesh_p->DimMesh() == 2), "Only for 2D meshes");
 
-  // Check whether all required finite element specifications are provided
+  // Check whether all required finite element specifications are provided.
+  // A space on the skeleton of the mesh has none for cells.
+  const bool skeleton_only =
+      (rfs_quad_p_ == nullptr) && (rfs_tria_p_ == nullptr);
   LF_VERIFY_MSG(
-      (mesh_p->NumEntities(lf::base::RefEl::kTria()) == 0) ||
+      skeleton_only || (mesh_p->NumEntities(lf::base::RefEl::kTria()) == 0) ||
           (rfs_tria_p_ != nullptr),
       "Missing FE specification for triangles though mesh contains some");
-  LF_VERIFY_MSG((mesh_p->NumEntities(lf::base::RefEl::kQuad()) == 0) ||
+  LF_VERIFY_MSG(skeleton_only ||
+                    (mesh_p->NumEntities(lf::base::RefEl::kQuad()) == 0) ||
                     (rfs_quad_p_ != nullptr),
                 "Missing FE specification for quads though mesh contains some");
 
-- 
2.43.0


From c8796b92d8e1e8276bcc0e1f565b71913752a74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:09 +0000
Subject: [PATCH 33/38] fix: UniformScalarFESpace::NumRefShapeFunctions() of
 spaces without quadrilaterals

---
 lib/lf/uscalfe/uniform_scalar_fe_space.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/lf/uscalfe/uniform_scalar_fe_space.h b/lib/lf/uscalfe/uniform_scalar_fe_space.h
index 58e7fe3..7b9ec2c 100644
--- a/lib/lf/uscalfe/uniform_scalar_fe_space.h
+++ b/lib/lf/uscalfe/uniform_scalar_fe_space.h
@@ -173,8 +173,9 @@ class UniformScalarFESpace : public lf::fe::ScalarFESpace<SCALAR> {
   /** Checks whether some pointer are not valid */
   [[nodiscard]] bool check_ptr() const {
     LF_VERIFY_MSG(Mesh() != nullptr, "No valid FE space object: no mesh");
-    LF_VERIFY_MSG((rfs_quad_p_ != nullptr) && (rfs_quad_p_ != nullptr),
-                  "No valid FE space object: no rsfs for cells");
+    LF_VERIFY_MSG((rfs_tria_p_ != nullptr) || (rfs_quad_p_ != nullptr) ||
+                      (rfs_edge_p_ != nullptr),
+                  "No valid FE space object: no rsfs");
     return true;
   }
 
@@ -398,7 +399,8 @@ size_type UniformScalarFESpace<SCALAR>::NumRefShapeFunctions(
 template <typename SCALAR>
 size_type UniformScalarFESpace<SCALAR>::NumRefShapeFunctions(
     lf::base::RefEl ref_el_type) const {
-  LF_ASSERT_MSG((rfs_quad_p_ != nullptr) && (rfs_quad_p_ != nullptr),
+  LF_ASSERT_MSG((rfs_tria_p_ != nullptr) || (rfs_quad_p_ != nullptr) ||
+                    (rfs_edge_p_ != nullptr),
                 "No valid FE space object: no rsfs");
   // Retrieve number of interior shape functions from rsf layouts
   switch (ref_el_type) {
-- 
2.43.0


From 36bfad0442eaeedd9c37c1f67784b849d7fb4e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:09 +0000
Subject: [PATCH 34/38] fix: output of UniformScalarFESpace objects compiles

---
 lib/lf/uscalfe/uniform_scalar_fe_space.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/lf/uscalfe/uniform_scalar_fe_space.h b/lib/lf/uscalfe/uniform_scalar_fe_space.h
index 7b9ec2c..0e489e0 100644
--- a/lib/lf/uscalfe/uniform_scalar_fe_space.h
+++ b/lib/lf/uscalfe/uniform_scalar_fe_space.h
@@ -16,6 +16,7 @@
 
 #include <lf/assemble/assemble.h>
 #include <lf/fe/scalar_fe_space.h>
+#include <lf/mesh/utils/print_info.h>
 
 #include "lagr_fe.h"
 
@@ -430,7 +431,7 @@ void PrintInfo(std::ostream &o, const UniformScalarFESpace<SCALAR> &fes,
     << std::endl;
 
   if ((ctrl & kUniformScalarFESpaceOutMesh) != 0) {
-    o << *fes.Mesh() << std::endl;
+    lf::mesh::utils::PrintInfo(o, *fes.Mesh());
   }
   if ((ctrl & kUniformScalarFESpaceOutDofh) != 0) {
     o << fes.LocGlobMap() << std::endl;
@@ -451,7 +452,7 @@ void PrintInfo(std::ostream &o, const UniformScalarFESpace<SCALAR> &fes,
 template <typename SCALAR>
 std::ostream &operator<<(std::ostream &o,
                          const UniformScalarFESpace<SCALAR> &fes) {
-  fes.PrintInfo(o, 0);
+  PrintInfo(o, fes, 0);
   return o;
 }
 
-- 
2.43.0


From 8c4d85f0d66c53f7a585762bb4ff1fb44d5ca31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:45 +0000
Subject: [PATCH 35/38] fix: the annulus mesh builder moves the mesh to the
 given center point

---
 projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc b/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc
index 1addf04..2979219 100644
--- a/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc
+++ b/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc
@@ -23,6 +23,7 @@ std::shared_ptr<lf::mesh::Mesh> AnnulusTriagMeshBuilder::Build() {
     const double pos_r = r + r_idx * dr;
     const double pos_phi = phi_idx * dphi;
     pos << pos_r * std::cos(pos_phi), pos_r * std::sin(pos_phi);
+    pos += center_point_;
     return pos;
   };
 
-- 
2.43.0


From 139b414b591d82ba3f7ba6e6757726327d50ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:45 +0000
Subject: [PATCH 36/38] fix: DG norm accepts quadrature rules with several
 points on the edges

---
 projects/ipdg_stokes/post_processing/norms.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/projects/ipdg_stokes/post_processing/norms.h b/projects/ipdg_stokes/post_processing/norms.h
index c68f334..7ab8496 100644
--- a/projects/ipdg_stokes/post_processing/norms.h
+++ b/projects/ipdg_stokes/post_processing/norms.h
@@ -90,12 +90,13 @@ double DGnorm(const std::shared_ptr<const lf::mesh::Mesh> &mesh, const MF_F &f,
       quadpoints[i] = Eigen::MatrixXd(2, quadrules[i].NumPoints());
     }
     quadpoints[0] << quadrules[0].Points(),
-        Eigen::VectorXd::Zero(quadrules[0].NumPoints());
-    quadpoints[1] << Eigen::VectorXd::Ones(quadrules[1].NumPoints()) -
+        Eigen::RowVectorXd::Zero(quadrules[0].NumPoints());
+    quadpoints[1] << Eigen::RowVectorXd::Ones(quadrules[1].NumPoints()) -
                          quadrules[1].Points(),
         quadrules[1].Points();
-    quadpoints[2] << Eigen::VectorXd::Zero(quadrules[2].NumPoints()),
-        Eigen::VectorXd::Ones(quadrules[2].NumPoints()) - quadrules[2].Points();
+    quadpoints[2] << Eigen::RowVectorXd::Zero(quadrules[2].NumPoints()),
+        Eigen::RowVectorXd::Ones(quadrules[2].NumPoints()) -
+            quadrules[2].Points();
     for (int i = 0; i < 3; ++i) {
       const auto edge = edges[i];
       const auto segment_eval = f(*entity, quadpoints[i]);
-- 
2.43.0


From 56d9fbf69a9ca47e562016c46a4cc6b21d0f54d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:14 +0000
Subject: [PATCH 37/38] fix: Strang splitting advances the solution to the
 final time

---
 projects/fisher_kpp/strangsplitting.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/projects/fisher_kpp/strangsplitting.cc b/projects/fisher_kpp/strangsplitting.cc
index 08a9fd6..20a30ec 100644
--- a/projects/fisher_kpp/strangsplitting.cc
+++ b/projects/fisher_kpp/strangsplitting.cc
@@ -72,7 +72,7 @@ Eigen::VectorXd StrangSplit::Evolution(const Eigen::VectorXd &cap,
   sol_cur = StrangSplit::diffusionEvolutionOperator(firstcall, mu);
   firstcall = false;
   /* loop through time steps */
-  for (unsigned int i = 1; i < m_ - 1; i++) {
+  for (unsigned int i = 1; i < m_; i++) {
     /* Reaction for next full time step */
     sol_next = cap.cwiseQuotient(ones + (cap.cwiseQuotient(sol_cur) - ones) *
                                             std::exp(-lambda_ * tau_));
@@ -82,9 +82,13 @@ Eigen::VectorXd StrangSplit::Evolution(const Eigen::VectorXd &cap,
     sol_cur = sol_next;
   }
 
-  /* Last half time step: Reaction */
+  /* Last full time step: Reaction */
   sol_next = cap.cwiseQuotient(ones + (cap.cwiseQuotient(sol_cur) - ones) *
-                                          std::exp(-lambda_ * tau_ / 2.));
+                                          std::exp(-lambda_ * tau_));
+  sol_cur = sol_next;
+  /* Last half time step [T - tau/2, T]: Diffusion */
+  firstcall = true;
+  sol_next = StrangSplit::diffusionEvolutionOperator(firstcall, sol_cur);
   sol_cur = sol_next;
 
   sol = sol_cur;
-- 
2.43.0


From df54e5e6b0aeb7ebb8233e7a868c61d08b273117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:14 +0000
Subject: [PATCH 38/38] fix: center of triangles in
 EntityCenterPositionSelector

---
 lib/lf/refinement/mesh_hierarchy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/refinement/mesh_hierarchy.h b/lib/lf/refinement/mesh_hierarchy.h
index 1578393..7706e17 100644
--- a/lib/lf/refinement/mesh_hierarchy.h
+++ b/lib/lf/refinement/mesh_hierarchy.h
@@ -566,7 +566,7 @@ const Eigen::MatrixXd EntityCenterPositionSelector<POSPRED>::kedge_center_ =
 
 template <typename POSPRED>
 const Eigen::MatrixXd EntityCenterPositionSelector<POSPRED>::ktria_center_ =
-    (Eigen::MatrixXd(2, 1) << 0.33, 0.33).finished();
+    (Eigen::MatrixXd(2, 1) << 1.0 / 3.0, 1.0 / 3.0).finished();
 
 template <typename POSPRED>
 const Eigen::MatrixXd EntityCenterPositionSelector<POSPRED>::kquad_center_ =
-- 
2.43.0

