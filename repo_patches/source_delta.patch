From cef5bae78e8bfed4ca9b0beadb890c734a0365bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:15 +0000
Subject: [PATCH 01/53] fix: define the static node coordinate tables of
 RefEl::NodeCoords<type>()

The templated overload referenced static members that were declared but never
defined, so every use failed to link.
---
 lib/lf/base/ref_el.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/lf/base/ref_el.cc b/lib/lf/base/ref_el.cc
index e93ecb7..501e87a 100644
--- a/lib/lf/base/ref_el.cc
+++ b/lib/lf/base/ref_el.cc
@@ -13,6 +13,19 @@ const Eigen::MatrixXd RefEl::ncoords_tria_dynamic_ =
 const Eigen::MatrixXd RefEl::ncoords_quad_dynamic_ =
     (Eigen::MatrixXd{2, 4} << 0, 1, 1, 0, 0, 0, 1, 1).finished();
 
+const std::vector<Eigen::Matrix<double, 0, 1>> RefEl::ncoords_point_static_ = {
+    Eigen::Matrix<double, 0, 1>{}};
+
+const std::vector<Eigen::Matrix<double, 1, 1>> RefEl::ncoords_segment_static_ =
+    {Eigen::Matrix<double, 1, 1>{0}, Eigen::Matrix<double, 1, 1>{1}};
+
+const std::vector<Eigen::Vector2d> RefEl::ncoords_tria_static_ = {
+    Eigen::Vector2d{0, 0}, Eigen::Vector2d{1, 0}, Eigen::Vector2d{0, 1}};
+
+const std::vector<Eigen::Vector2d> RefEl::ncoords_quad_static_ = {
+    Eigen::Vector2d{0, 0}, Eigen::Vector2d{1, 0}, Eigen::Vector2d{1, 1},
+    Eigen::Vector2d{0, 1}};
+
 // Print function
 void PrintInfo(std::ostream &stream, const RefEl &ref_el, int output_ctrl) {
   const base::dim_t dim_ref_el = ref_el.Dimension();
-- 
2.43.0


From 4cf72834c3632933d3ca14244d80bd3477e05aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:46 +0000
Subject: [PATCH 02/53] fix: let Timer::Format report the elapsed time of a
 running timer

Format() printed the raw start stamp while the timer was running, contrary to
its documentation (named arguments are Elapsed().wall etc.).
---
 lib/lf/base/timer.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/lf/base/timer.cc b/lib/lf/base/timer.cc
index a6e10eb..303dc60 100644
--- a/lib/lf/base/timer.cc
+++ b/lib/lf/base/timer.cc
@@ -98,16 +98,17 @@ Timer::cpu_times Timer::Elapsed() const noexcept {
 }
 
 std::string Timer::Format(std::string_view format) const {
+  const cpu_times times = Elapsed();
   const double sec = 1000000000.0L;
-  const double wall_sec = static_cast<double>(times_.wall.count()) / sec;
-  const auto total = times_.system.count() + times_.user.count();
+  const double wall_sec = static_cast<double>(times.wall.count()) / sec;
+  const auto total = times.system.count() + times.user.count();
   const double total_sec = static_cast<double>(total) / sec;
   const double percent = (total_sec / wall_sec) * 100.0;
 
   return fmt::format(
       fmt::runtime(format), fmt::arg("w", wall_sec),
-      fmt::arg("u", static_cast<double>(times_.user.count()) / sec),
-      fmt::arg("s", static_cast<double>(times_.system.count()) / sec),
+      fmt::arg("u", static_cast<double>(times.user.count()) / sec),
+      fmt::arg("s", static_cast<double>(times.system.count()) / sec),
       fmt::arg("t", total_sec), fmt::arg("p", percent));
 }
 
-- 
2.43.0


From 49ddaa16c6ce91f83e354347e6467b86c01b4b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:29 +0000
Subject: [PATCH 03/53] fix: second-order shapes do not claim to be affine

---
 lib/lf/geometry/quad_o2.h    | 6 ++++++
 lib/lf/geometry/segment_o2.h | 6 ++++++
 lib/lf/geometry/tria_o2.h    | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/lib/lf/geometry/quad_o2.h b/lib/lf/geometry/quad_o2.h
index 5708e13..4b5fcb3 100644
--- a/lib/lf/geometry/quad_o2.h
+++ b/lib/lf/geometry/quad_o2.h
@@ -41,6 +41,12 @@ class QuadO2 : public Geometry {
     return base::RefEl::kQuad();
   }
 
+  /** @copydoc Geometry::isAffine()
+   *
+   * @note The shape is curved in general, its Jacobian is not constant.
+   */
+  [[nodiscard]] bool isAffine() const override { return false; }
+
   [[nodiscard]] Eigen::MatrixXd Global(
       const Eigen::MatrixXd &local) const override;
   [[nodiscard]] Eigen::MatrixXd Jacobian(
diff --git a/lib/lf/geometry/segment_o2.h b/lib/lf/geometry/segment_o2.h
index 9b78605..7414dca 100644
--- a/lib/lf/geometry/segment_o2.h
+++ b/lib/lf/geometry/segment_o2.h
@@ -37,6 +37,12 @@ class SegmentO2 : public Geometry {
     return base::RefEl::kSegment();
   }
 
+  /** @copydoc Geometry::isAffine()
+   *
+   * @note The shape is curved in general, its Jacobian is not constant.
+   */
+  [[nodiscard]] bool isAffine() const override { return false; }
+
   [[nodiscard]] Eigen::MatrixXd Global(
       const Eigen::MatrixXd& local) const override;
   [[nodiscard]] Eigen::MatrixXd Jacobian(
diff --git a/lib/lf/geometry/tria_o2.h b/lib/lf/geometry/tria_o2.h
index 8711771..7d57b88 100644
--- a/lib/lf/geometry/tria_o2.h
+++ b/lib/lf/geometry/tria_o2.h
@@ -44,6 +44,12 @@ class TriaO2 : public Geometry {
     return base::RefEl::kTria();
   }
 
+  /** @copydoc Geometry::isAffine()
+   *
+   * @note The shape is curved in general, its Jacobian is not constant.
+   */
+  [[nodiscard]] bool isAffine() const override { return false; }
+
   [[nodiscard]] Eigen::MatrixXd Global(
       const Eigen::MatrixXd &local) const override;
   [[nodiscard]] Eigen::MatrixXd Jacobian(
-- 
2.43.0


From f84503eade532d555c48d9bb361180ee934ae44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:17 +0000
Subject: [PATCH 04/53] fix: deduce the geometry of edges added without one
 from adjacent cells

MeshFactory::AddEntity() documents that the geometry may be a nullptr, but
Build() aborted for segments.
---
 lib/lf/mesh/hybrid2d/mesh.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/lf/mesh/hybrid2d/mesh.cc b/lib/lf/mesh/hybrid2d/mesh.cc
index 1c937f2..6fd4240 100644
--- a/lib/lf/mesh/hybrid2d/mesh.cc
+++ b/lib/lf/mesh/hybrid2d/mesh.cc
@@ -250,7 +250,7 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
     // If one of the endpoints of a edge does not have a geometry, supply it
     // with one inherited from the edge.
     for (int j = 0; j < 2; ++j) {
-      if (nodes[end_nodes[j]] == nullptr) {
+      if (nodes[end_nodes[j]] == nullptr && e.second != nullptr) {
         // if no geometry for node exists request geomtry for an endpoint of the
         // edge Note: endpoints are entities of relative co-dimension 1
         nodes[end_nodes[j]] = e.second->SubGeometry(1, j);
@@ -258,9 +258,8 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
     }
 
     // Store provided geometry information; information on adjacent cells
-    // not yet available.
-    LF_ASSERT_MSG(e.second != nullptr,
-                  "Edge " << edge_index << ": missing geometry!");
+    // not yet available. A missing geometry will be deduced from an adjacent
+    // cell below.
     const AdjCellsList empty_cells_list{};
     EdgeData edge_data(std::move(e.second), empty_cells_list, edge_index);
     EdgeMap::value_type edge_info =
-- 
2.43.0


From 3e232db4cf43460d90562a2ce0582f13f550b3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:40 +0000
Subject: [PATCH 05/53] fix: straight edges and cells without geometry in
 three-dimensional space

The deduced shapes were always built with two coordinate rows.
---
 lib/lf/mesh/hybrid2d/mesh.cc | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/lib/lf/mesh/hybrid2d/mesh.cc b/lib/lf/mesh/hybrid2d/mesh.cc
index 6fd4240..df83060 100644
--- a/lib/lf/mesh/hybrid2d/mesh.cc
+++ b/lib/lf/mesh/hybrid2d/mesh.cc
@@ -539,11 +539,10 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
     GeometryPtr edge_geo_ptr(std::move(edge.second.geo_uptr));
     if (!edge_geo_ptr) {
       // If the edge does not have a geometry build a straight edge
-      Eigen::Matrix<double, 2, 2> straight_edge_coords;
-      straight_edge_coords.block<2, 1>(0, 0) =
-          p0_ptr->Geometry()->Global(zero_point);
-      straight_edge_coords.block<2, 1>(0, 1) =
-          p1_ptr->Geometry()->Global(zero_point);
+      Eigen::Matrix<double, Eigen::Dynamic, 2> straight_edge_coords(dim_world_,
+                                                                    2);
+      straight_edge_coords.col(0) = p0_ptr->Geometry()->Global(zero_point);
+      straight_edge_coords.col(1) = p1_ptr->Geometry()->Global(zero_point);
       edge_geo_ptr =
           std::make_unique<geometry::SegmentO1>(straight_edge_coords);
     }
@@ -683,13 +682,11 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
         // At this point only the latter policy is implemented
         // and we build an affine triangle.
         // First assemble corner coordinates into matrix
-        Eigen::Matrix<double, 2, 3> triag_corner_coords;
-        triag_corner_coords.block<2, 1>(0, 0) =
-            corner0->Geometry()->Global(zero_point);
-        triag_corner_coords.block<2, 1>(0, 1) =
-            corner1->Geometry()->Global(zero_point);
-        triag_corner_coords.block<2, 1>(0, 2) =
-            corner2->Geometry()->Global(zero_point);
+        Eigen::Matrix<double, Eigen::Dynamic, 3> triag_corner_coords(
+            dim_world_, 3);
+        triag_corner_coords.col(0) = corner0->Geometry()->Global(zero_point);
+        triag_corner_coords.col(1) = corner1->Geometry()->Global(zero_point);
+        triag_corner_coords.col(2) = corner2->Geometry()->Global(zero_point);
 
         // Diagnostics
         SPDLOG_LOGGER_TRACE(Logger(), "Creating triangle with geometry \n{}",
@@ -732,15 +729,12 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
         // with straight edges ("bilinear quadrilateral")
         // First assemble corner coordinates into matrix
 
-        Eigen::Matrix<double, 2, 4> quad_corner_coords;
-        quad_corner_coords.block<2, 1>(0, 0) =
-            corner0->Geometry()->Global(zero_point);
-        quad_corner_coords.block<2, 1>(0, 1) =
-            corner1->Geometry()->Global(zero_point);
-        quad_corner_coords.block<2, 1>(0, 2) =
-            corner2->Geometry()->Global(zero_point);
-        quad_corner_coords.block<2, 1>(0, 3) =
-            corner3->Geometry()->Global(zero_point);
+        Eigen::Matrix<double, Eigen::Dynamic, 4> quad_corner_coords(
+            dim_world_, 4);
+        quad_corner_coords.col(0) = corner0->Geometry()->Global(zero_point);
+        quad_corner_coords.col(1) = corner1->Geometry()->Global(zero_point);
+        quad_corner_coords.col(2) = corner2->Geometry()->Global(zero_point);
+        quad_corner_coords.col(3) = corner3->Geometry()->Global(zero_point);
         // Then create geometry of an affine triangle
 
         // Diagnostics
-- 
2.43.0


From 6a69b8c9574fd7f9173efa64cf01ab9419d9c3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:40 +0000
Subject: [PATCH 06/53] fix: MeshFactory::PrintLists writes everything to the
 given stream

---
 lib/lf/mesh/hybrid2d/mesh_factory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/mesh/hybrid2d/mesh_factory.cc b/lib/lf/mesh/hybrid2d/mesh_factory.cc
index 75ce663..8f0a0ba 100644
--- a/lib/lf/mesh/hybrid2d/mesh_factory.cc
+++ b/lib/lf/mesh/hybrid2d/mesh_factory.cc
@@ -147,7 +147,7 @@ void MeshFactory::PrintLists(std::ostream& o) const {
     o << '\n';
   }
 
-  std::cout << elements_.size() << " cells " << '\n';
+  o << elements_.size() << " cells " << '\n';
   for (std::size_t j = 0; j < elements_.size(); j++) {
     o << "Cell " << j << " : ";
     for (int l = 0; l < 4; l++) {
-- 
2.43.0


From 70a4ea5488a5b4c048c3293db0992a7e5249d16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:40 +0000
Subject: [PATCH 07/53] fix: AnnulusTriagMeshBuilder honours setCenterPoint()

---
 projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc b/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc
index 1addf04..2979219 100644
--- a/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc
+++ b/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc
@@ -23,6 +23,7 @@ std::shared_ptr<lf::mesh::Mesh> AnnulusTriagMeshBuilder::Build() {
     const double pos_r = r + r_idx * dr;
     const double pos_phi = phi_idx * dphi;
     pos << pos_r * std::cos(pos_phi), pos_r * std::sin(pos_phi);
+    pos += center_point_;
     return pos;
   };
 
-- 
2.43.0


From 1c78f9c9cfc060a1c7df5614ea1031780ea4d637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:34 +0000
Subject: [PATCH 08/53] fix: uniform refinement hierarchy of meshes embedded in
 3D

---
 lib/lf/refinement/mesh_hierarchy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/refinement/mesh_hierarchy.cc b/lib/lf/refinement/mesh_hierarchy.cc
index f3f69af..0fbd608 100644
--- a/lib/lf/refinement/mesh_hierarchy.cc
+++ b/lib/lf/refinement/mesh_hierarchy.cc
@@ -1921,7 +1921,7 @@ std::shared_ptr<MeshHierarchy> GenerateMeshHierarchyByUniformRefinemnt(
   // Set up the builder object for mesh entities, here suitable for a 2D
   // hybrid mesh comprising triangles and quadrilaterals
   std::unique_ptr<lf::mesh::hybrid2d::MeshFactory> mesh_factory_ptr =
-      std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2);
+      std::make_unique<lf::mesh::hybrid2d::MeshFactory>(mesh_p->DimWorld());
   // Create a mesh hierarchy with a single level
   std::shared_ptr<MeshHierarchy> multi_mesh_p =
       std::make_shared<MeshHierarchy>(mesh_p, std::move(mesh_factory_ptr));
-- 
2.43.0


From cf89841f6e58e3c7c9b79a44be280cc89d5278a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:20 +0000
Subject: [PATCH 09/53] fix: output operator of COOMatrix

---
 lib/lf/assemble/coomatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/assemble/coomatrix.h b/lib/lf/assemble/coomatrix.h
index afa45cd..bc1b464 100644
--- a/lib/lf/assemble/coomatrix.h
+++ b/lib/lf/assemble/coomatrix.h
@@ -227,7 +227,7 @@ class COOMatrix {
 // Implementation of output operator
 template <typename SCALARTYPE>
 std::ostream &operator<<(std::ostream &o, const COOMatrix<SCALARTYPE> &mat) {
-  mat.PrintInfo();
+  mat.PrintInfo(o);
   return o;
 }
 
-- 
2.43.0


From 1e1c920f5299b30dae1469b559cc14b9a60dd489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:20 +0000
Subject: [PATCH 10/53] fix: matrix-vector product of COOMatrix for non-double
 scalars

---
 lib/lf/assemble/coomatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/assemble/coomatrix.h b/lib/lf/assemble/coomatrix.h
index bc1b464..89407cc 100644
--- a/lib/lf/assemble/coomatrix.h
+++ b/lib/lf/assemble/coomatrix.h
@@ -237,7 +237,7 @@ Eigen::Matrix<SCALAR, Eigen::Dynamic, 1> COOMatrix<SCALAR>::MatVecMult(
     SCALAR alpha, const VECTOR &vec) const {
   LF_ASSERT_MSG(vec.size() >= cols_,
                 "size mismatch: " << cols_ << " <-> " << vec.size());
-  Eigen::VectorXd result(rows_);
+  Eigen::Matrix<SCALAR, Eigen::Dynamic, 1> result(rows_);
   result.setZero();
   for (const Triplet &trp : triplets_) {
     result[trp.row()] += trp.value() * (alpha * vec[trp.col()]);
-- 
2.43.0


From 8895829c960a5af79bacf4b5d7aaff9e374d8cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:20 +0000
Subject: [PATCH 11/53] fix: FixSolutionComponentsLse for complex systems

---
 lib/lf/assemble/fix_dof.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/assemble/fix_dof.h b/lib/lf/assemble/fix_dof.h
index e804647..6efe3dc 100644
--- a/lib/lf/assemble/fix_dof.h
+++ b/lib/lf/assemble/fix_dof.h
@@ -271,10 +271,10 @@ void FixSolutionComponentsLse(
   // FixFlaggedSolutionComponents<SCALAR>(fixed_comp_flags, fixed_vec, A, b);
   FixFlaggedSolutionCompAlt<SCALAR>(
       [&fixed_comp_flags,
-       &fixed_vec](lf::assemble::gdof_idx_t i) -> std::pair<bool, double> {
+       &fixed_vec](lf::assemble::gdof_idx_t i) -> std::pair<bool, SCALAR> {
         LF_ASSERT_MSG((i < fixed_comp_flags.size()) && (i < fixed_vec.size()),
                       "Illegal index " << i);
-        return std::make_pair(fixed_comp_flags[i], fixed_vec[i]);
+        return {fixed_comp_flags[i], fixed_vec[i]};
       },
       A, b);
 }
-- 
2.43.0


From 9a2e7c872c6c2a96c2712aac30f695e59e9fe77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:28 +0000
Subject: [PATCH 12/53] fix: HierarchicScalarFESpace::NumRefShapeFunctions
 counts interior functions only

---
 lib/lf/fe/hierarchic_scalar_fe_space.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/fe/hierarchic_scalar_fe_space.h b/lib/lf/fe/hierarchic_scalar_fe_space.h
index 03f7ba8..1b1bd08 100644
--- a/lib/lf/fe/hierarchic_scalar_fe_space.h
+++ b/lib/lf/fe/hierarchic_scalar_fe_space.h
@@ -157,7 +157,7 @@ class HierarchicScalarFESpace : public ScalarFESpace<SCALAR> {
    */
   [[nodiscard]] size_type NumRefShapeFunctions(
       const lf::mesh::Entity &entity) const override {
-    return ShapeFunctionLayout(entity)->NumRefShapeFunctions();
+    return ShapeFunctionLayout(entity)->NumRefShapeFunctions(0, 0);
   }
 
   ~HierarchicScalarFESpace() override = default;
-- 
2.43.0


From 4de8eeb3b044f494e9c3880c75b84adfdd2928f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:28 +0000
Subject: [PATCH 13/53] fix: MeshFunctionTransfer::getMesh returns the mesh of
 the fine level

---
 lib/lf/refinement/mesh_function_transfer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/refinement/mesh_function_transfer.h b/lib/lf/refinement/mesh_function_transfer.h
index be8878e..3f84fff 100644
--- a/lib/lf/refinement/mesh_function_transfer.h
+++ b/lib/lf/refinement/mesh_function_transfer.h
@@ -87,7 +87,7 @@ class MeshFunctionTransfer {
    * @returns A shared pointer to the Mesh on which this MeshFunction is defined
    */
   [[nodiscard]] std::shared_ptr<const lf::mesh::Mesh> getMesh() const {
-    return mh_.getMesh(level_coarse_ + 1);
+    return mh_.getMesh(level_fine_);
   }
 
  private:
-- 
2.43.0


From 2889c2404b8b8edb9665b1300e270e297f500519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:28 +0000
Subject: [PATCH 14/53] fix: UniformScalarFESpace without shape functions for
 one cell type

---
 lib/lf/uscalfe/uniform_scalar_fe_space.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/uscalfe/uniform_scalar_fe_space.h b/lib/lf/uscalfe/uniform_scalar_fe_space.h
index 964e8e2..37810fd 100644
--- a/lib/lf/uscalfe/uniform_scalar_fe_space.h
+++ b/lib/lf/uscalfe/uniform_scalar_fe_space.h
@@ -173,7 +173,7 @@ class UniformScalarFESpace : public lf::fe::ScalarFESpace<SCALAR> {
   /** Checks whether some pointer are not valid */
   [[nodiscard]] bool check_ptr() const {
     LF_VERIFY_MSG(Mesh() != nullptr, "No valid FE space object: no mesh");
-    LF_VERIFY_MSG((rfs_quad_p_ != nullptr) && (rfs_quad_p_ != nullptr),
+    LF_VERIFY_MSG((rfs_tria_p_ != nullptr) || (rfs_quad_p_ != nullptr),
                   "No valid FE space object: no rsfs for cells");
     return true;
   }
@@ -393,7 +393,7 @@ size_type UniformScalarFESpace<SCALAR>::NumRefShapeFunctions(
 template <typename SCALAR>
 size_type UniformScalarFESpace<SCALAR>::NumRefShapeFunctions(
     lf::base::RefEl ref_el_type) const {
-  LF_ASSERT_MSG((rfs_quad_p_ != nullptr) && (rfs_quad_p_ != nullptr),
+  LF_ASSERT_MSG((rfs_tria_p_ != nullptr) || (rfs_quad_p_ != nullptr),
                 "No valid FE space object: no rsfs");
   // Retrieve number of interior shape functions from rsf layouts
   switch (ref_el_type) {
-- 
2.43.0


From c3c944ac167ef53cca75bc0dabaa27118bf5aab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:28 +0000
Subject: [PATCH 15/53] fix: output operators of finite element spaces

---
 lib/lf/fe/scalar_fe_space.h              | 2 +-
 lib/lf/uscalfe/uniform_scalar_fe_space.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/fe/scalar_fe_space.h b/lib/lf/fe/scalar_fe_space.h
index af19487..cd18222 100644
--- a/lib/lf/fe/scalar_fe_space.h
+++ b/lib/lf/fe/scalar_fe_space.h
@@ -118,7 +118,7 @@ class ScalarFESpace {
 /** @brief output operator for scalar parametric finite element space */
 template <typename SCALAR>
 std::ostream &operator<<(std::ostream &o, const ScalarFESpace<SCALAR> &fes) {
-  fes.PrintInfo(o, 0);
+  o << "Scalar FE space, dim = " << fes.LocGlobMap().NumDofs();
   return o;
 }
 
diff --git a/lib/lf/uscalfe/uniform_scalar_fe_space.h b/lib/lf/uscalfe/uniform_scalar_fe_space.h
index 37810fd..8fd7d62 100644
--- a/lib/lf/uscalfe/uniform_scalar_fe_space.h
+++ b/lib/lf/uscalfe/uniform_scalar_fe_space.h
@@ -444,7 +444,7 @@ void PrintInfo(std::ostream &o, const UniformScalarFESpace<SCALAR> &fes,
 template <typename SCALAR>
 std::ostream &operator<<(std::ostream &o,
                          const UniformScalarFESpace<SCALAR> &fes) {
-  fes.PrintInfo(o, 0);
+  PrintInfo(o, fes, 0);
   return o;
 }
 
-- 
2.43.0


From d2260631f45ef16cf0e743152ff4ce5e0ff2b427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:28 +0000
Subject: [PATCH 16/53] fix: IntegrateMeshFunction integrates over selected
 entities only

---
 lib/lf/fe/fe_tools.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/lf/fe/fe_tools.h b/lib/lf/fe/fe_tools.h
index fc599c6..4f27407 100644
--- a/lib/lf/fe/fe_tools.h
+++ b/lib/lf/fe/fe_tools.h
@@ -114,8 +114,22 @@ auto IntegrateMeshFunction(
   using MfType = mesh::utils::MeshFunctionReturnType<MF>;
 
   auto entities = mesh.Entities(codim);
-  auto result = internal::LocalIntegral(**entities.begin(), qr_selector, mf);
-  for (auto i = entities.begin() + 1; i != entities.end(); ++i) {
+  auto i = entities.begin();
+  // Find the first entity on which we have to integrate
+  while (i != entities.end() && !ep(**i)) {
+    ++i;
+  }
+  if (i == entities.end()) {
+    // No entity selected
+    if constexpr (base::EigenMatrix<MfType>) {  // NOLINT
+      if constexpr (MfType::SizeAtCompileTime != Eigen::Dynamic) {
+        return MfType::Zero();
+      }
+    }
+    return MfType{};
+  }
+  MfType result = internal::LocalIntegral(**i, qr_selector, mf);
+  for (++i; i != entities.end(); ++i) {
     if (!ep(**i)) {
       continue;
     }
-- 
2.43.0


From e1e28a397b1ed05f5caca5c03c5b785a380fa467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:21 +0000
Subject: [PATCH 17/53] fix: PrintInfo of UniformScalarFESpace prints the mesh

---
 lib/lf/uscalfe/uniform_scalar_fe_space.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/lf/uscalfe/uniform_scalar_fe_space.h b/lib/lf/uscalfe/uniform_scalar_fe_space.h
index 8fd7d62..f4a819c 100644
--- a/lib/lf/uscalfe/uniform_scalar_fe_space.h
+++ b/lib/lf/uscalfe/uniform_scalar_fe_space.h
@@ -16,6 +16,7 @@
 
 #include <lf/assemble/assemble.h>
 #include <lf/fe/scalar_fe_space.h>
+#include <lf/mesh/utils/print_info.h>
 
 #include "lagr_fe.h"
 
@@ -423,7 +424,8 @@ void PrintInfo(std::ostream &o, const UniformScalarFESpace<SCALAR> &fes,
     << std::endl;
 
   if ((ctrl & kUniformScalarFESpaceOutMesh) != 0) {
-    o << *fes.Mesh() << std::endl;
+    lf::mesh::utils::PrintInfo(o, *fes.Mesh());
+    o << std::endl;
   }
   if ((ctrl & kUniformScalarFESpaceOutDofh) != 0) {
     o << fes.LocGlobMap() << std::endl;
-- 
2.43.0


From 5577f721d6128059108a43766e08b3fb8b3fd13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:42 +0000
Subject: [PATCH 18/53] fix: hierarchic shape functions for complex scalars

---
 lib/lf/fe/hierarchic_fe.h | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/lib/lf/fe/hierarchic_fe.h b/lib/lf/fe/hierarchic_fe.h
index 2790918..444bf63 100644
--- a/lib/lf/fe/hierarchic_fe.h
+++ b/lib/lf/fe/hierarchic_fe.h
@@ -383,7 +383,7 @@ class FeHierarchicSegment final : public ScalarReferenceFiniteElement<SCALAR> {
            nodevals.tail(qr_dual_->NumPoints()).array())
               .sum();
       // Compute the basis function coefficient
-      dofs[i] = (P1 * nodevals[1] - P0 * nodevals[0] - integ) * (2 * i - 1);
+      dofs[i] = (P1 * nodevals[1] - P0 * nodevals[0] - integ) * (2. * i - 1);
     }
     return dofs;
   }
@@ -966,10 +966,10 @@ class FeHierarchicTria final : public ScalarReferenceFiniteElement<SCALAR> {
                                 .sum();
       if (rel_orient_[0] == lf::mesh::Orientation::positive) {
         dofs[1 + i - 3] =
-            (P1 * nodevals[1] - P0 * nodevals[0] - integ1) * (2 * i - 1);
+            (P1 * nodevals[1] - P0 * nodevals[0] - integ1) * (2. * i - 1);
       } else {
         dofs[4 - i + (edge_degrees_[0] - 1) - 3] =
-            (P1 * nodevals[0] - P0 * nodevals[1] - integ1) * (2 * i - 1);
+            (P1 * nodevals[0] - P0 * nodevals[1] - integ1) * (2. * i - 1);
       }
     }
 
@@ -987,10 +987,10 @@ class FeHierarchicTria final : public ScalarReferenceFiniteElement<SCALAR> {
               .sum();
       if (rel_orient_[1] == lf::mesh::Orientation::positive) {
         dofs[1 + i + (edge_degrees_[0] - 1) - 3] =
-            (P1 * nodevals[2] - P0 * nodevals[1] - integ2) * (2 * i - 1);
+            (P1 * nodevals[2] - P0 * nodevals[1] - integ2) * (2. * i - 1);
       } else {
         dofs[4 - i + (edge_degrees_[0] + edge_degrees_[1] - 2) - 3] =
-            (P1 * nodevals[1] - P0 * nodevals[2] - integ2) * (2 * i - 1);
+            (P1 * nodevals[1] - P0 * nodevals[2] - integ2) * (2. * i - 1);
       }
     }
 
@@ -1008,11 +1008,11 @@ class FeHierarchicTria final : public ScalarReferenceFiniteElement<SCALAR> {
               .sum();
       if (rel_orient_[2] == lf::mesh::Orientation::positive) {
         dofs[1 + i + (edge_degrees_[0] + edge_degrees_[1] - 2) - 3] =
-            (P1 * nodevals[0] - P0 * nodevals[2] - integ3) * (2 * i - 1);
+            (P1 * nodevals[0] - P0 * nodevals[2] - integ3) * (2. * i - 1);
       } else {
         dofs[4 - i +
              (edge_degrees_[0] + edge_degrees_[1] + edge_degrees_[2] - 3) - 3] =
-            (P1 * nodevals[2] - P0 * nodevals[0] - integ3) * (2 * i - 1);
+            (P1 * nodevals[2] - P0 * nodevals[0] - integ3) * (2. * i - 1);
       }
     }
 
@@ -1575,10 +1575,10 @@ class FeHierarchicQuad final : public ScalarReferenceFiniteElement<SCALAR> {
                                   .sum();
         if (rel_orient_[0] == lf::mesh::Orientation::positive) {
           dofs[2 + i] =
-              (P1 * nodevals[1] - P0 * nodevals[0] - integ1) * (2 * i - 1);
+              (P1 * nodevals[1] - P0 * nodevals[0] - integ1) * (2. * i - 1);
         } else {
           dofs[5 - i + (edge_degrees_[0] - 1)] =
-              (P1 * nodevals[0] - P0 * nodevals[1] - integ1) * (2 * i - 1);
+              (P1 * nodevals[0] - P0 * nodevals[1] - integ1) * (2. * i - 1);
         }
       }
       if (i <= edge_degrees_[1]) {
@@ -1592,10 +1592,10 @@ class FeHierarchicQuad final : public ScalarReferenceFiniteElement<SCALAR> {
                 .sum();
         if (rel_orient_[1] == lf::mesh::Orientation::positive) {
           dofs[2 + i + (edge_degrees_[0] - 1)] =
-              (P1 * nodevals[2] - P0 * nodevals[1] - integ2) * (2 * i - 1);
+              (P1 * nodevals[2] - P0 * nodevals[1] - integ2) * (2. * i - 1);
         } else {
           dofs[5 - i + (edge_degrees_[0] + edge_degrees_[1] - 2)] =
-              (P1 * nodevals[1] - P0 * nodevals[2] - integ2) * (2 * i - 1);
+              (P1 * nodevals[1] - P0 * nodevals[2] - integ2) * (2. * i - 1);
         }
       }
       if (i <= edge_degrees_[2]) {
@@ -1609,11 +1609,11 @@ class FeHierarchicQuad final : public ScalarReferenceFiniteElement<SCALAR> {
                 .sum();
         if (rel_orient_[2] == lf::mesh::Orientation::positive) {
           dofs[2 + i + (edge_degrees_[0] + edge_degrees_[1] - 2)] =
-              (P1 * nodevals[3] - P0 * nodevals[2] - integ3) * (2 * i - 1);
+              (P1 * nodevals[3] - P0 * nodevals[2] - integ3) * (2. * i - 1);
         } else {
           dofs[5 - i +
                (edge_degrees_[0] + edge_degrees_[1] + edge_degrees_[2] - 3)] =
-              (P1 * nodevals[2] - P0 * nodevals[3] - integ3) * (2 * i - 1);
+              (P1 * nodevals[2] - P0 * nodevals[3] - integ3) * (2. * i - 1);
         }
       }
       if (i <= edge_degrees_[3]) {
@@ -1628,12 +1628,12 @@ class FeHierarchicQuad final : public ScalarReferenceFiniteElement<SCALAR> {
         if (rel_orient_[3] == lf::mesh::Orientation::positive) {
           dofs[2 + i +
                (edge_degrees_[0] + edge_degrees_[1] + edge_degrees_[2] - 3)] =
-              (P1 * nodevals[0] - P0 * nodevals[3] - integ4) * (2 * i - 1);
+              (P1 * nodevals[0] - P0 * nodevals[3] - integ4) * (2. * i - 1);
         } else {
           dofs[5 - i +
                (edge_degrees_[0] + edge_degrees_[1] + edge_degrees_[2] +
                 edge_degrees_[3] - 4)] =
-              (P1 * nodevals[3] - P0 * nodevals[0] - integ4) * (2 * i - 1);
+              (P1 * nodevals[3] - P0 * nodevals[0] - integ4) * (2. * i - 1);
         }
       }
     }
-- 
2.43.0


From 8f6395cc15e546abb965bbc9526938f212678bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:10 +0000
Subject: [PATCH 19/53] fix: FeHierarchicSegment has one shape function per
 vertex

---
 lib/lf/fe/hierarchic_fe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/fe/hierarchic_fe.h b/lib/lf/fe/hierarchic_fe.h
index 444bf63..19dd6c4 100644
--- a/lib/lf/fe/hierarchic_fe.h
+++ b/lib/lf/fe/hierarchic_fe.h
@@ -274,7 +274,7 @@ class FeHierarchicSegment final : public ScalarReferenceFiniteElement<SCALAR> {
   [[nodiscard]] lf::base::size_type NumRefShapeFunctions(
       dim_t codim) const override {
     LF_ASSERT_MSG(codim >= 0 && codim <= 1, "codim out of range.");
-    return codim == 0 ? degree_ - 1 : 2;
+    return codim == 0 ? degree_ - 1 : 1;
   }
 
   // clang-format off
-- 
2.43.0


From f5a3908fc692d110cbb4a570fde88263f68d51a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 20/53] fix: sums and differences of real and complex mesh
 functions

---
 lib/lf/mesh/utils/mesh_function_binary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/mesh/utils/mesh_function_binary.h b/lib/lf/mesh/utils/mesh_function_binary.h
index 0970b5f..8ba72b8 100644
--- a/lib/lf/mesh/utils/mesh_function_binary.h
+++ b/lib/lf/mesh/utils/mesh_function_binary.h
@@ -107,7 +107,7 @@ struct OperatorAddition {
                   /*unused*/) const {
     const Eigen::Map<const Eigen::Matrix<U, 1, Eigen::Dynamic>> um(u.data(), 1,
                                                                    u.size());
-    const Eigen::Map<const Eigen::Matrix<U, 1, Eigen::Dynamic>> vm(v.data(), 1,
+    const Eigen::Map<const Eigen::Matrix<V, 1, Eigen::Dynamic>> vm(v.data(), 1,
                                                                    v.size());
     std::vector<decltype(U(0) + V(0))> result(u.size());  // NOLINT
     // NOLINTNEXTLINE(google-readability-casting)
@@ -275,7 +275,7 @@ struct OperatorSubtraction {
                   /*unused*/) const {
     const Eigen::Map<const Eigen::Matrix<U, 1, Eigen::Dynamic>> um(u.data(), 1,
                                                                    u.size());
-    const Eigen::Map<const Eigen::Matrix<U, 1, Eigen::Dynamic>> vm(v.data(), 1,
+    const Eigen::Map<const Eigen::Matrix<V, 1, Eigen::Dynamic>> vm(v.data(), 1,
                                                                    v.size());
     std::vector<decltype(U(0) + V(0))> result(u.size());  // NOLINT
     // NOLINTNEXTLINE(google-readability-casting)
-- 
2.43.0


From 00af0c3a31ae06bba38d11e52970ed18555dce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 21/53] fix: product of mesh functions with values of arbitrary
 type

---
 lib/lf/mesh/utils/mesh_function_binary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/mesh/utils/mesh_function_binary.h b/lib/lf/mesh/utils/mesh_function_binary.h
index 8ba72b8..ea1fc1b 100644
--- a/lib/lf/mesh/utils/mesh_function_binary.h
+++ b/lib/lf/mesh/utils/mesh_function_binary.h
@@ -628,7 +628,7 @@ struct OperatorMultiplication {
                   long /*unused*/) const {
     std::vector<decltype(u[0] * v[0])> result;
     result.reserve(u.size());
-    for (int i = 0; i < result.size(); ++i) {
+    for (int i = 0; i < u.size(); ++i) {
       result.emplace_back(u[i] * v[i]);
     }
     return result;
-- 
2.43.0


From 3d26f38eb20dfa59d88eef56bb27be36a229b706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 22/53] fix: squaredNorm of complex and of fixed size matrix
 valued mesh functions

---
 lib/lf/mesh/utils/mesh_function_unary.h | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/lib/lf/mesh/utils/mesh_function_unary.h b/lib/lf/mesh/utils/mesh_function_unary.h
index 4424216..10c8595 100644
--- a/lib/lf/mesh/utils/mesh_function_unary.h
+++ b/lib/lf/mesh/utils/mesh_function_unary.h
@@ -11,6 +11,8 @@
 
 #include <lf/mesh/mesh.h>
 
+#include <complex>
+
 namespace lf::mesh::utils {
 
 /**
@@ -141,6 +143,16 @@ struct UnaryOpSquaredNorm {
     return result;
   }
 
+  // squared norm of a complex scalar
+  template <class U>
+  auto operator()(const std::vector<std::complex<U>>& u, int /*unused*/) const {
+    std::vector<U> result(u.size());
+    for (std::size_t i = 0; i < u.size(); ++i) {
+      result[i] = std::norm(u[i]);
+    }
+    return result;
+  }
+
   // squared norm of a eigen matrix
   template <class S, int R, int C, int O, int MR, int MC>
   auto operator()(const std::vector<Eigen::Matrix<S, R, C, O, MR, MC>>& u,
@@ -154,15 +166,19 @@ struct UnaryOpSquaredNorm {
       if constexpr (C == 1) {  // NOLINT
         const Eigen::Map<const Eigen::Matrix<S, R, Eigen::Dynamic>> um(
             &u[0](0, 0), R, u.size());
-        Eigen::Map<Eigen::Matrix<S, 1, Eigen::Dynamic>> rm(result.data(), 1,
-                                                           u.size());
+        Eigen::Map<Eigen::Matrix<double, 1, Eigen::Dynamic>> rm(
+            result.data(), 1, u.size());
         rm = um.cwiseAbs2().colwise().sum();
       } else if constexpr (R == 1) {  // NOLINT
         Eigen::Map<const Eigen::Matrix<S, Eigen::Dynamic, C, Eigen::RowMajor>>
             um(&u[0](0, 0), u.size(), C);
-        Eigen::Map<Eigen::Matrix<S, Eigen::Dynamic, 1>> rm(result.data(),
-                                                           u.size(), 1);
+        Eigen::Map<Eigen::Matrix<double, Eigen::Dynamic, 1>> rm(
+            result.data(), u.size(), 1);
         rm = um.cwiseAbs2().rowwise().sum();
+      } else {  // NOLINT
+        for (std::size_t i = 0; i < u.size(); ++i) {
+          result[i] = u[i].squaredNorm();
+        }
       }
     } else {  // NOLINT
       for (std::size_t i = 0; i < u.size(); ++i) {
-- 
2.43.0


From c7e704dc7db7f87fd69a6b1334662eb06ecbda86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:01 +0000
Subject: [PATCH 23/53] fix: sums and multiples of row-major matrix valued mesh
 functions

---
 lib/lf/mesh/utils/mesh_function_binary.h | 49 ++++++++++++++++++++----
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/lib/lf/mesh/utils/mesh_function_binary.h b/lib/lf/mesh/utils/mesh_function_binary.h
index ea1fc1b..ad0ca43 100644
--- a/lib/lf/mesh/utils/mesh_function_binary.h
+++ b/lib/lf/mesh/utils/mesh_function_binary.h
@@ -80,6 +80,23 @@ class MeshFunctionBinary {
  */
 namespace internal {
 
+/**
+ * @brief Are the coefficients of the fixed size matrix/array type `M` stored in
+ * the same order as in a type with the same size and default options?
+ */
+template <class M>
+inline constexpr bool HasDefaultLayout = false;
+
+template <class S, int R, int C, int O, int MR, int MC>
+inline constexpr bool HasDefaultLayout<Eigen::Matrix<S, R, C, O, MR, MC>> =
+    bool(Eigen::Matrix<S, R, C, O, MR, MC>::IsRowMajor) ==
+    bool(Eigen::Matrix<S, R, C>::IsRowMajor);
+
+template <class S, int R, int C, int O, int MR, int MC>
+inline constexpr bool HasDefaultLayout<Eigen::Array<S, R, C, O, MR, MC>> =
+    bool(Eigen::Array<S, R, C, O, MR, MC>::IsRowMajor) ==
+    bool(Eigen::Array<S, R, C>::IsRowMajor);
+
 /**
  * @brief Used together with MeshFunctionBinary (`OP` template type) to
  * represent the pointwise addition of two mesh functions.
@@ -127,7 +144,10 @@ struct OperatorAddition {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) + S2(0));
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  HasDefaultLayout<Eigen::Matrix<S1, R1, C1, O1, MR1, MC1>> &&
+                  HasDefaultLayout<
+                      Eigen::Matrix<S2, R2, C2, O2, MR2, MC2>>) {  // NOLINT
       // add two static size eigen matrices to each other
       static_assert(R1 == R2, "cannot add matrices with different #rows.");
       static_assert(C1 == C2, "cannot add matrices with different #cols.");
@@ -185,7 +205,10 @@ struct OperatorAddition {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) + S2(0));
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  HasDefaultLayout<Eigen::Array<S1, R1, C1, O1, MR1, MC1>> &&
+                  HasDefaultLayout<
+                      Eigen::Array<S2, R2, C2, O2, MR2, MC2>>) {  // NOLINT
       // add two static size eigen arrays to each other
       static_assert(R1 == R2, "cannot add arrays with different #rows.");
       static_assert(C1 == C2, "cannot add arrays with different #cols.");
@@ -295,7 +318,10 @@ struct OperatorSubtraction {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) + S2(0));  // NOLINT
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  HasDefaultLayout<Eigen::Matrix<S1, R1, C1, O1, MR1, MC1>> &&
+                  HasDefaultLayout<
+                      Eigen::Matrix<S2, R2, C2, O2, MR2, MC2>>) {  // NOLINT
       // subtract two static size eigen matrices from each other
       static_assert(R1 == R2, "cannot subtract matrices with different #rows.");
       static_assert(C1 == C2, "cannot subtract matrices with different #cols.");
@@ -357,7 +383,10 @@ struct OperatorSubtraction {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) - S2(0));
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  HasDefaultLayout<Eigen::Array<S1, R1, C1, O1, MR1, MC1>> &&
+                  HasDefaultLayout<
+                      Eigen::Array<S2, R2, C2, O2, MR2, MC2>>) {  // NOLINT
       // subtract two static size eigen arrays to each other
       static_assert(R1 == R2, "cannot subtract arrays with different #rows.");
       static_assert(C1 == C2, "cannot subtract arrays with different #cols.");
@@ -504,7 +533,10 @@ struct OperatorMultiplication {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) * S2(0));
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  HasDefaultLayout<Eigen::Array<S1, R1, C1, O1, MR1, MC1>> &&
+                  HasDefaultLayout<
+                      Eigen::Array<S2, R2, C2, O2, MR2, MC2>>) {  // NOLINT
       // multiply two static size eigen arrays to each other
       static_assert(R1 == R2, "cannot multiply arrays with different #rows.");
       static_assert(C1 == C2, "cannot multiply arrays with different #cols.");
@@ -563,7 +595,9 @@ struct OperatorMultiplication {
                   int /*unused*/) const {
     using scalar_t = decltype(u[0] * v[0](0, 0));
     std::vector<Eigen::Matrix<scalar_t, R1, C1>> result(u.size());
-    if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) {  // NOLINT
+    if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
+                  HasDefaultLayout<
+                      Eigen::Matrix<S1, R1, C1, O1, MR1, MC1>>) {  // NOLINT
       // result is a static sized matrix:
       Eigen::Map<const Eigen::Array<S1, R1 * C1, Eigen::Dynamic>> vm(
           v[0].data(), R1 * C1, v.size());
@@ -596,7 +630,8 @@ struct OperatorMultiplication {
                   int /*unused*/) const {
     using scalar_t = decltype(u[0] * v[0](0, 0));
     std::vector<Eigen::Array<scalar_t, R1, C1>> result(u.size());
-    if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) {
+    if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
+                  HasDefaultLayout<Eigen::Array<S1, R1, C1, O1, MR1, MC1>>) {
       // result is a static sized array:
       Eigen::Map<const Eigen::Array<S1, R1 * C1, Eigen::Dynamic>> vm(
           v[0].data(), R1 * C1, v.size());
-- 
2.43.0


From 2e8804ae0d94f4358f8f4141c41beeacf49a0443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:34 +0000
Subject: [PATCH 24/53] fix: do not look beyond the candidates in physical
 entity lookups

---
 lib/lf/io/gmsh_reader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 5aaac08..358104c 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -53,10 +53,10 @@ size_type GmshReader::PhysicalEntityName2Nr(const std::string& name,
     if (result.second.second == codim) {
       return result.second.first;
     }
-    while (begin->second.second != codim && begin != end) {
+    while (begin != end && begin->second.second != codim) {
       ++begin;
     }
-    if (begin->second.second == codim) {
+    if (begin != end) {
       return begin->second.first;
     }
   }
@@ -87,10 +87,10 @@ std::string GmshReader::PhysicalEntityNr2Name(size_type number,
     if (result.second.second == codim) {
       return result.second.first;
     }
-    while (begin->second.second != codim && begin != end) {
+    while (begin != end && begin->second.second != codim) {
       ++begin;
     }
-    if (begin->second.second == codim) {
+    if (begin != end) {
       return begin->second.first;
     }
   }
-- 
2.43.0


From 2a56873a21aa6f4c854f32a816e3266c97344007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:34 +0000
Subject: [PATCH 25/53] fix: assign further groups of a Gmsh point to that
 point

---
 lib/lf/io/gmsh_reader.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 358104c..c87a84a 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -222,7 +222,15 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
     if (begin_element.NodeNumbers == end_element.NodeNumbers && begin != end &&
         begin_element.Type == end_element.Type) {
       // This entity appears more than once
-      mi2gi[codim].back().push_back(end);
+      if (ref_el == base::RefEl::kPoint()) {
+        // auxilliary nodes are not part of the mesh
+        const auto mesh_index = gi2mi[end_element.NodeNumbers[0]];
+        if (mesh_index != std::numeric_limits<unsigned int>::max()) {
+          mi2gi[codim][mesh_index].push_back(end);
+        }
+      } else {
+        mi2gi[codim].back().push_back(end);
+      }
       continue;
     }
 
@@ -470,7 +478,15 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
 
       if (begin_element.second == end_element.second && begin != end) {
         // This entity appears more than once
-        mi2gi[codim].back().emplace_back(ebi);
+        if (ref_el == base::RefEl::kPoint()) {
+          // auxiliary nodes are not part of the mesh
+          const auto mesh_index = gi2mi[end_element.second[0] - min_node_tag];
+          if (mesh_index != std::numeric_limits<unsigned int>::max()) {
+            mi2gi[codim][mesh_index].emplace_back(ebi);
+          }
+        } else {
+          mi2gi[codim].back().emplace_back(ebi);
+        }
         continue;
       }
 
-- 
2.43.0


From 134372739d865f655ddac4cbf88120fce57bbe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:35 +0000
Subject: [PATCH 26/53] fix: list the physical entity numbers in ascending
 order

---
 lib/lf/io/gmsh_reader.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index c87a84a..22a87b6 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -2,6 +2,7 @@
 
 #include <lf/geometry/geometry.h>
 
+#include <algorithm>
 #include <boost/fusion/adapted/std_tuple.hpp>
 #include <boost/spirit/include/qi.hpp>
 #include <boost/spirit/include/qi_string.hpp>
@@ -330,6 +331,7 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
           temp.push_back(msh_file.Elements[gmsh_index].PhysicalEntityNr);
         }
 
+        std::sort(temp.begin(), temp.end());
         physical_nrs_->operator()(*e) = std::move(temp);
       }
     }
@@ -635,6 +637,7 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
                       std::end(physical_tags));
         }
 
+        std::sort(temp.begin(), temp.end());
         physical_nrs_->operator()(*e) = std::move(temp);
       }
     }
-- 
2.43.0


From c35253c1f3c83d9c2c242bbfc4748530974fa76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 27/53] fix: cover auxilliary nodes in the Gmsh node tables

---
 lib/lf/io/gmsh_reader.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 22a87b6..1e00bd8 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -135,7 +135,12 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
   /////////////////////////////////////////////////////////////////////////////
   // is_main_node[i] = true means that gmsh-node i is one of the main nodes of
   // an element
-  std::vector<bool> is_main_node(msh_file.Nodes.size(), false);
+  std::size_t num_node_numbers = 0;
+  for (const auto& n : msh_file.Nodes) {
+    num_node_numbers =
+        std::max(num_node_numbers, static_cast<std::size_t>(n.first) + 1);
+  }
+  std::vector<bool> is_main_node(num_node_numbers, false);
 
   // mi2gi = mesh_index_2_gmsh_index
   // mi2gi[c][i] contains the gmsh entities that belong to the mesh entity with
-- 
2.43.0


From 51c6e3cdafd702019b1cfdf51c7b54b890257cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 28/53] fix: skip additional sections of binary Gmsh 4 files

---
 lib/lf/io/gmsh_file_v4_binary.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/io/gmsh_file_v4_binary.cc b/lib/lf/io/gmsh_file_v4_binary.cc
index 39c347c..4d05df3 100644
--- a/lib/lf/io/gmsh_file_v4_binary.cc
+++ b/lib/lf/io/gmsh_file_v4_binary.cc
@@ -200,7 +200,7 @@ struct MshV4GrammarBinary
   }
 
   qi::rule<ITERATOR, std::string(), ascii::space_type> quoted_string_;
-  qi::rule<ITERATOR, std::string(), ascii::space_type> start_comment_;
+  qi::rule<ITERATOR, std::string()> start_comment_;
   qi::rule<ITERATOR, qi::locals<std::string>, ascii::space_type> comment_;
   qi::rule<ITERATOR, Eigen::Vector3d()> vec3_;
   qi::rule<ITERATOR, std::vector<int>, qi::locals<std::size_t>> int_vec_;
-- 
2.43.0


From 40a492cd0a7c7dec63af571450003824e319f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 29/53] fix: refuse Gmsh 2 files with undefined or repeated
 nodes

---
 lib/lf/io/gmsh_reader.cc | 43 ++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 1e00bd8..fb5759e 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -142,6 +142,16 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
   }
   std::vector<bool> is_main_node(num_node_numbers, false);
 
+  // gi2i[i] = j implies msh_file.Nodes[j].first = i
+  constexpr size_type undefined = -1;
+  std::vector<size_type> gi2i(num_node_numbers, undefined);
+  for (std::size_t i = 0; i < msh_file.Nodes.size(); ++i) {
+    auto& index = gi2i[msh_file.Nodes[i].first];
+    LF_VERIFY_MSG(index == undefined, "Node " << msh_file.Nodes[i].first
+                                              << " is defined more than once.");
+    index = i;
+  }
+
   // mi2gi = mesh_index_2_gmsh_index
   // mi2gi[c][i] contains the gmsh entities that belong to the mesh entity with
   //             codim = c and mesh index i.
@@ -152,11 +162,20 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
     std::vector<size_type> num_entities(mesh_factory_->DimMesh() + 1, 0);
 
     for (const auto& e : msh_file.Elements) {
-      LF_ASSERT_MSG(DimOf(e.Type) <= dim_mesh,
+      LF_VERIFY_MSG(DimOf(e.Type) <= dim_mesh,
                     "mesh_factory->DimMesh() = "
                         << dim_mesh
                         << ", but msh-file contains entities with dimension "
                         << DimOf(e.Type));
+      LF_VERIFY_MSG(e.NodeNumbers.size() == NumNodes(e.Type),
+                    "Element " << e.Number << " of type " << e.Type << " has "
+                               << e.NodeNumbers.size() << " nodes.");
+      for (const auto node_number : e.NodeNumbers) {
+        LF_VERIFY_MSG(
+            node_number < gi2i.size() && gi2i[node_number] != undefined,
+            "Element " << e.Number << " refers to the undefined node "
+                       << node_number);
+      }
 
       ++num_entities[DimOf(e.Type)];
 
@@ -164,11 +183,7 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
         // mark main nodes
         auto ref_el = RefElOf(e.Type);
         for (unsigned int i = 0; i < ref_el.NumNodes(); ++i) {
-          auto node_number = e.NodeNumbers[i];
-          if (is_main_node.size() <= node_number) {
-            is_main_node.resize(node_number + 1);
-          }
-          is_main_node[node_number] = true;
+          is_main_node[e.NodeNumbers[i]] = true;
         }
       }
     }
@@ -177,7 +192,7 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
       mi2gi[c].reserve(num_entities[dim_mesh - c]);
     }
 
-    LF_ASSERT_MSG(num_entities[dim_mesh] > 0,
+    LF_VERIFY_MSG(num_entities[dim_mesh] > 0,
                   "MshFile contains no elements with dimension " << dim_mesh);
   }
 
@@ -189,18 +204,8 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
   std::vector<size_type> gi2mi;
   gi2mi.resize(is_main_node.size(), -1);
 
-  // gi2i[i] = j implies msh_file.Nodes[j].first = i
-  std::vector<size_type> gi2i;
-  gi2i.resize(is_main_node.size(), -1);
-
-  for (std::size_t i = 0; i < msh_file.Nodes.size(); ++i) {
-    const auto& n = msh_file.Nodes[i];
-    if (gi2i.size() <= n.first) {
-      gi2i.resize(n.first + 1, -1);
-    }
-    gi2i[n.first] = i;
-
-    if (is_main_node.size() <= n.first || !is_main_node[n.first]) {
+  for (const auto& n : msh_file.Nodes) {
+    if (!is_main_node[n.first]) {
       continue;
     }
 
-- 
2.43.0


From ead363b1af2c5366dd3137d04046cc0ed827a789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:11 +0000
Subject: [PATCH 30/53] fix: verify tag and element counts of Gmsh 2 files

---
 lib/lf/io/gmsh_file_v2.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/lib/lf/io/gmsh_file_v2.cc b/lib/lf/io/gmsh_file_v2.cc
index 948bae3..9f13999 100644
--- a/lib/lf/io/gmsh_file_v2.cc
+++ b/lib/lf/io/gmsh_file_v2.cc
@@ -654,8 +654,8 @@ GMshFileV2 readGmshFileV2(std::string::const_iterator begin,
     vec3 = qi::double_ >> ' ' >> qi::double_ >> ' ' >> qi::double_;
     node = qi::uint_ >> ' ' >> vec3 >> qi::eol;
     elementText %= qi::int_ > ' ' > qi::int_ > ' ' >
-                   qi::omit[qi::int_[qi::_a = qi::_1]] > ' ' > qi::int_ > ' ' >
-                   qi::int_ > ' ' >
+                   qi::omit[qi::int_[qi::_a = qi::_1]] > qi::eps(_a >= 2) >
+                   ' ' > qi::int_ > ' ' > qi::int_ > ' ' >
                    ((qi::eps(_a > 2) >> omit[qi::int_] >> ' ') || qi::eps) >
                    qi::repeat(qi::_a - 3)[qi::int_ >> ' '] > (qi::uint_ % ' ') >
                    *(qi::blank) > qi::eol;
@@ -669,8 +669,8 @@ GMshFileV2 readGmshFileV2(std::string::const_iterator begin,
     vec3 %=
         qi::little_bin_double >> qi::little_bin_double >> qi::little_bin_double;
     node %= qi::no_skip[qi::little_dword >> vec3];
-    elementBin %= qi::little_dword >> qi::attr(_r1) >> qi::little_dword >>
-                  qi::little_dword >>
+    elementBin %= qi::eps(_r2 >= 2) >> qi::little_dword >> qi::attr(_r1) >>
+                  qi::little_dword >> qi::little_dword >>
                   ((qi::eps(_r2 > 2) >> omit[qi::little_dword]) || qi::eps) >>
                   qi::repeat(_r2 - 3)[qi::little_dword] >>
                   qi::repeat(_r3)[qi::little_dword];
@@ -688,16 +688,17 @@ GMshFileV2 readGmshFileV2(std::string::const_iterator begin,
                            phoenix::static_cast_<GMshFileV2::ElementType>(
                                _b)))[phoenix::push_back(_val, qi::_1)]]) >>
                qi::eps[_e += _c])]  // elements-binary
-        >> qi::eol >> "$EndElements";
+        >> qi::eps(_e == _a) >> qi::eol >> "$EndElements";
   } else {
     // std::cout << "big endian" << std::endl;
     // Binary File Big Endian
     vec3 %= qi::big_bin_double >> qi::big_bin_double >> qi::big_bin_double;
     node %= qi::no_skip[qi::big_dword >> vec3];
-    elementBin %=
-        qi::big_dword >> qi::attr(_r1) >> qi::big_dword >> qi::big_dword >>
-        ((qi::eps(_r2 > 2) >> omit[qi::big_dword]) || qi::eps) >>
-        qi::repeat(_r2 - 3)[qi::big_dword] >> qi::repeat(_r3)[qi::big_dword];
+    elementBin %= qi::eps(_r2 >= 2) >> qi::big_dword >> qi::attr(_r1) >>
+                  qi::big_dword >> qi::big_dword >>
+                  ((qi::eps(_r2 > 2) >> omit[qi::big_dword]) || qi::eps) >>
+                  qi::repeat(_r2 - 3)[qi::big_dword] >>
+                  qi::repeat(_r3)[qi::big_dword];
     elementGroup %=
         "$Elements" >> qi::eol >> qi::eps[_e = 0] >>
         omit[qi::uint_[(reserve(_val, qi::_1), _a = qi::_1)]] >>
@@ -712,7 +713,7 @@ GMshFileV2 readGmshFileV2(std::string::const_iterator begin,
                            phoenix::static_cast_<GMshFileV2::ElementType>(
                                _b)))[phoenix::push_back(_val, qi::_1)]]) >>
                qi::eps[_e += _c])]  // elements-binary
-        >> qi::eol >> "$EndElements";
+        >> qi::eps(_e == _a) >> qi::eol >> "$EndElements";
   }
 
   /// Name the elements for better error parsing:
-- 
2.43.0


From 471dfbccfcd077722631a3cbd19a22ceac72b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 31/53] fix: refuse Gmsh 4 files with undefined or repeated
 nodes

---
 lib/lf/io/gmsh_reader.cc | 58 +++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index fb5759e..38db2ed 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -388,6 +388,25 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
   // the main nodes of an element
   std::vector<bool> is_main_node(max_node_tag - min_node_tag + 1, false);
 
+  // gi2i[i] = (j,k) implies msh_file.nodes.node_blocks[j].nodes[k].first = i +
+  // min_node_tag
+  constexpr std::pair<size_type, size_type> undefined{-1, -1};
+  std::vector<std::pair<size_type, size_type>> gi2i(is_main_node.size(),
+                                                    undefined);
+  for (std::size_t j = 0; j < msh_file.nodes.node_blocks.size(); ++j) {
+    const auto& node_block = msh_file.nodes.node_blocks[j];
+    for (std::size_t k = 0; k < node_block.nodes.size(); ++k) {
+      const auto node_tag = node_block.nodes[k].first;
+      LF_VERIFY_MSG(
+          node_tag >= min_node_tag && node_tag - min_node_tag < gi2i.size(),
+          "Node tag " << node_tag << " is not within the announced range.");
+      auto& index = gi2i[node_tag - min_node_tag];
+      LF_VERIFY_MSG(index == undefined,
+                    "Node " << node_tag << " is defined more than once.");
+      index = std::make_pair(j, k);
+    }
+  }
+
   // mi2gi = mesh_index_2_gmsh_index
   // mi2gi[c][i] contains the index of the gmsh entity block that contains
   // the mesh entity with codim = c and mesh index i.
@@ -398,16 +417,27 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
     std::vector<size_type> num_entities(mesh_factory_->DimMesh() + 1, 0);
 
     for (const auto& eb : msh_file.elements.element_blocks) {
-      LF_ASSERT_MSG(eb.dimension <= dim_mesh,
+      LF_VERIFY_MSG(eb.dimension >= 0 && eb.dimension <= dim_mesh,
                     "mesh_factory->DimMesh() = "
                         << dim_mesh
                         << ", but msh-file contains entities with dimension "
                         << DimOf(eb.element_type));
-      LF_ASSERT_MSG(eb.dimension == DimOf(eb.element_type),
+      LF_VERIFY_MSG(eb.dimension == DimOf(eb.element_type),
                     "error in GmshFile: Mismatch between entity block type ("
                         << eb.element_type << ") and dimension ("
                         << DimOf(eb.element_type) << ")");
 
+      for (const auto& element : eb.elements) {
+        for (const auto node_tag : element.second) {
+          LF_VERIFY_MSG(node_tag >= min_node_tag &&
+                            node_tag - min_node_tag < gi2i.size() &&
+                            gi2i[node_tag - min_node_tag] != undefined,
+                        "Element " << element.first
+                                   << " refers to the undefined node "
+                                   << node_tag);
+        }
+      }
+
       num_entities[eb.dimension] += eb.elements.size();
 
       if (eb.dimension == dim_mesh) {
@@ -416,11 +446,7 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
         for (const auto& element : eb.elements) {
           const auto& node_indices = std::get<1>(element);
           for (unsigned int i = 0; i < ref_el.NumNodes(); ++i) {
-            auto node_tag = node_indices[i];
-            if (is_main_node.size() <= node_tag - min_node_tag) {
-              is_main_node.resize(node_tag - min_node_tag + 1);
-            }
-            is_main_node[node_tag - min_node_tag] = true;
+            is_main_node[node_indices[i] - min_node_tag] = true;
           }
         }
       }
@@ -430,7 +456,7 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
       mi2gi[c].reserve(num_entities[dim_mesh - c]);
     }
 
-    LF_ASSERT_MSG(num_entities[dim_mesh] > 0,
+    LF_VERIFY_MSG(num_entities[dim_mesh] > 0,
                   "MshFile contains no elements with dimension " << dim_mesh);
   }
 
@@ -443,20 +469,8 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
   std::vector<size_type> gi2mi;
   gi2mi.resize(is_main_node.size(), -1);
 
-  // gi2i[i] = (j,k) implies msh_file.nodes.node_blocks[j].nodes[k].first = i +
-  // min_node_tag
-  std::vector<std::pair<size_type, size_type>> gi2i;
-  gi2i.resize(is_main_node.size(), {-1, -1});
-
-  for (std::size_t j = 0; j < msh_file.nodes.node_blocks.size(); ++j) {
-    const auto& node_block = msh_file.nodes.node_blocks[j];
-    for (std::size_t k = 0; k < node_block.nodes.size(); ++k) {
-      const auto& n = node_block.nodes[k];
-      LF_ASSERT_MSG(gi2i.size() > n.first - min_node_tag,
-                    "error: node_tag is higher than max_node_tag");
-
-      gi2i[n.first - min_node_tag] = std::make_pair(j, k);
-
+  for (const auto& node_block : msh_file.nodes.node_blocks) {
+    for (const auto& n : node_block.nodes) {
       if (!is_main_node[n.first - min_node_tag]) {
         continue;
       }
-- 
2.43.0


From ee48539d5eef53f963ab1a37e433057de2153d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 32/53] fix: refuse Gmsh 4 element blocks of undefined entities

---
 lib/lf/io/gmsh_reader.cc | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 38db2ed..e38f9ea 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -602,17 +602,9 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
   // GMsh Entity index to GMsh physical entity index.
   // gmei2gphi[c][i] contains all physical entity tags that belong to entity
   // with tag i and codim c
-  std::array<std::vector<std::vector<int>>, 4> gmei2gmphi;
+  std::array<std::map<int, std::vector<int>>, 4> gmei2gmphi;
 
-  auto makeMap = [](std::vector<std::vector<int>>& result, auto& entities) {
-    // find largest entity tag:
-    int max_entity_tag = 0;
-    for (auto& e : entities) {
-      max_entity_tag = std::max(max_entity_tag, e.tag);
-    }
-    result.resize(max_entity_tag + 1);
-
-    // build map:
+  auto makeMap = [](std::map<int, std::vector<int>>& result, auto& entities) {
     for (auto& e : entities) {
       result[e.tag] = e.physical_tags;
     }
@@ -638,6 +630,12 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
     }
   }
 
+  for (const auto& eb : msh_file.elements.element_blocks) {
+    LF_VERIFY_MSG(gmei2gmphi[dim_mesh - eb.dimension].contains(eb.entity_tag),
+                  "Element block refers to the undefined entity "
+                      << eb.entity_tag << " of dimension " << eb.dimension);
+  }
+
   // 6) Build MeshDataSet that assigns the physical entitiies:
   /////////////////////////////////////////////////////////////////////////////
   physical_nrs_ =
@@ -656,7 +654,7 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
         for (auto& gmsh_index : mi2gi[c][mi]) {
           const auto& element_block =
               msh_file.elements.element_blocks[gmsh_index];
-          auto& physical_tags = gmei2gmphi[c][element_block.entity_tag];
+          auto& physical_tags = gmei2gmphi[c].at(element_block.entity_tag);
           temp.insert(std::end(temp), std::begin(physical_tags),
                       std::end(physical_tags));
         }
-- 
2.43.0


From 02ce5e3b5dde3c9d4ecd3d18b93a914e81835b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 33/53] fix: verify totals and the end of Gmsh 4 files

---
 lib/lf/io/gmsh_file_v4.cc        | 18 +++++++++++++++++-
 lib/lf/io/gmsh_file_v4_binary.cc |  6 ++++--
 lib/lf/io/gmsh_file_v4_text.cc   |  3 ++-
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/lib/lf/io/gmsh_file_v4.cc b/lib/lf/io/gmsh_file_v4.cc
index e3e4c17..dcaa62f 100644
--- a/lib/lf/io/gmsh_file_v4.cc
+++ b/lib/lf/io/gmsh_file_v4.cc
@@ -323,7 +323,23 @@ GMshFileV4 ReadGmshFileV4(std::string::const_iterator begin,
   }
 
   LF_VERIFY_MSG(succesful, "Could not parse file " << filename);
-  // LF_VERIFY_MSG(iter == end, "Could not parse all of file " << filename);
+
+  // the announced totals must agree with the blocks
+  std::size_t num_nodes = 0;
+  for (const auto& nb : result.nodes.node_blocks) {
+    num_nodes += nb.nodes.size();
+  }
+  LF_VERIFY_MSG(num_nodes == result.nodes.num_nodes,
+                "File " << filename << " announces " << result.nodes.num_nodes
+                        << " nodes but contains " << num_nodes);
+  std::size_t num_elements = 0;
+  for (const auto& eb : result.elements.element_blocks) {
+    num_elements += eb.elements.size();
+  }
+  LF_VERIFY_MSG(num_elements == result.elements.num_elements,
+                "File " << filename << " announces "
+                        << result.elements.num_elements
+                        << " elements but contains " << num_elements);
 
   // transpose all periodic matrices because they are read in column-first mode
   // but gmsh writes them in row-first mode
diff --git a/lib/lf/io/gmsh_file_v4_binary.cc b/lib/lf/io/gmsh_file_v4_binary.cc
index 4d05df3..706ceb0 100644
--- a/lib/lf/io/gmsh_file_v4_binary.cc
+++ b/lib/lf/io/gmsh_file_v4_binary.cc
@@ -302,11 +302,13 @@ bool ParseGmshFileV4Binary(std::string::const_iterator begin,
   if (one == 1) {
     const MshV4GrammarBinary<std::string::const_iterator> grammar(
         qi::little_dword, qi::little_qword, qi::little_bin_double);
-    return qi::phrase_parse(begin, end, grammar, ascii::space, *result);
+    return qi::phrase_parse(begin, end, grammar, ascii::space, *result) &&
+           begin == end;
   }
   const MshV4GrammarBinary<std::string::const_iterator> grammar(
       qi::big_dword, qi::big_qword, qi::big_bin_double);
-  return qi::phrase_parse(begin, end, grammar, ascii::space, *result);
+  return qi::phrase_parse(begin, end, grammar, ascii::space, *result) &&
+         begin == end;
 }
 }  // namespace detail
 
diff --git a/lib/lf/io/gmsh_file_v4_text.cc b/lib/lf/io/gmsh_file_v4_text.cc
index a84f2fb..a40837a 100644
--- a/lib/lf/io/gmsh_file_v4_text.cc
+++ b/lib/lf/io/gmsh_file_v4_text.cc
@@ -303,7 +303,8 @@ bool ParseGmshFileV4Text(std::string::const_iterator begin,
                          std::string::const_iterator end, GMshFileV4* result) {
   // Text file
   const MshV4GrammarText<std::string::const_iterator> grammar;
-  return qi::phrase_parse(begin, end, grammar, ascii::space, *result);
+  return qi::phrase_parse(begin, end, grammar, ascii::space, *result) &&
+         begin == end;
 }
 
 }  // namespace detail
-- 
2.43.0


From 16df75d600cd943e38a5db199ad51e729443ff8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 34/53] fix: print periodic Gmsh entities to the given stream

---
 lib/lf/io/gmsh_file_v2.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/lf/io/gmsh_file_v2.cc b/lib/lf/io/gmsh_file_v2.cc
index 9f13999..535334c 100644
--- a/lib/lf/io/gmsh_file_v2.cc
+++ b/lib/lf/io/gmsh_file_v2.cc
@@ -175,11 +175,10 @@ std::ostream& operator<<(std::ostream& stream, const GMshFileV2& mf) {
   stream << '\n';
   stream << "PERIODIC ENTITIES:" << '\n';
   for (const auto& pe : mf.Periodic) {
-    std::cout << "  dim=" << pe.Dimension
-              << ", slaveNr=" << pe.ElementarySlaveNr
-              << ", masterNr=" << pe.ElementaryMasterNr << '\n';
+    stream << "  dim=" << pe.Dimension << ", slaveNr=" << pe.ElementarySlaveNr
+           << ", masterNr=" << pe.ElementaryMasterNr << '\n';
     for (auto nm : pe.NodeMapping) {
-      std::cout << "    " << nm.first << " <-> " << nm.second << '\n';
+      stream << "    " << nm.first << " <-> " << nm.second << '\n';
     }
   }
   return stream;
-- 
2.43.0


From 5a5e67a31ec4d781f507c3eafa015f4911710e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:49 +0000
Subject: [PATCH 35/53] fix: insist on the announced tags of Gmsh 2 text
 elements

---
 lib/lf/io/gmsh_file_v2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/io/gmsh_file_v2.cc b/lib/lf/io/gmsh_file_v2.cc
index 535334c..c85da08 100644
--- a/lib/lf/io/gmsh_file_v2.cc
+++ b/lib/lf/io/gmsh_file_v2.cc
@@ -655,7 +655,7 @@ GMshFileV2 readGmshFileV2(std::string::const_iterator begin,
     elementText %= qi::int_ > ' ' > qi::int_ > ' ' >
                    qi::omit[qi::int_[qi::_a = qi::_1]] > qi::eps(_a >= 2) >
                    ' ' > qi::int_ > ' ' > qi::int_ > ' ' >
-                   ((qi::eps(_a > 2) >> omit[qi::int_] >> ' ') || qi::eps) >
+                   (qi::eps(_a <= 2) | (omit[qi::int_] >> ' ')) >
                    qi::repeat(qi::_a - 3)[qi::int_ >> ' '] > (qi::uint_ % ' ') >
                    *(qi::blank) > qi::eol;
     elementGroup %= "$Elements" > qi::eol >
-- 
2.43.0


From fc4dfb0cc85336fe03de3ba089244c7678237076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:50 +0000
Subject: [PATCH 36/53] fix: sample cell data at the barycenter of
 quadrilaterals

---
 lib/lf/io/vtk_writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/io/vtk_writer.h b/lib/lf/io/vtk_writer.h
index e5d5afa..5fd7287 100644
--- a/lib/lf/io/vtk_writer.h
+++ b/lib/lf/io/vtk_writer.h
@@ -933,7 +933,7 @@ void VtkWriter::WriteCellData(const std::string& name,
   barycenters[base::RefEl::kTria().Id()] =
       base::RefEl::kTria().NodeCoords().rowwise().sum() / 3.;
   barycenters[base::RefEl::kQuad().Id()] =
-      base::RefEl::kTria().NodeCoords().rowwise().sum() / 4.;
+      base::RefEl::kQuad().NodeCoords().rowwise().sum() / 4.;
 
   if constexpr (base::EigenArray<T> || base::EigenMatrix<T>) {
     static_assert(T::ColsAtCompileTime == 1,
-- 
2.43.0


From 9eb9071199e8f4b95f6a65fd06e27d4de04217d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:50 +0000
Subject: [PATCH 37/53] fix: place the inner points of triangles of order seven
 and higher

---
 lib/lf/io/vtk_writer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/io/vtk_writer.cc b/lib/lf/io/vtk_writer.cc
index b8a1f4c..e078a52 100644
--- a/lib/lf/io/vtk_writer.cc
+++ b/lib/lf/io/vtk_writer.cc
@@ -523,8 +523,8 @@ Eigen::MatrixXd AuxNodesTria(unsigned char order) {
       // assign interior points recursively:
       auto points = AuxNodesTria(order - 3);
       result.block(0, 3 * order - 9, 2, points.cols()) =
-          AuxNodesTria(order - 3) * (order - 6.) / order +
-          Eigen::Vector2d(2. / order, 2. / order) *
+          points * (order - 3.) / order +
+          Eigen::Vector2d(1. / order, 1. / order) *
               Eigen::MatrixXd::Ones(1, points.cols());
     }
   }
-- 
2.43.0


From f43a996114fba1c45f50672b7f59c99ac887d840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:50 +0000
Subject: [PATCH 38/53] fix: declare unsigned char data as unsigned_char in VTK
 files

---
 lib/lf/io/vtk_writer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/io/vtk_writer.cc b/lib/lf/io/vtk_writer.cc
index e078a52..4abcc61 100644
--- a/lib/lf/io/vtk_writer.cc
+++ b/lib/lf/io/vtk_writer.cc
@@ -224,7 +224,7 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
           << eol;
 
       scalar_data_uchar %=
-          (lit("SCALARS ") << karma::string << lit(" char 1") << eol
+          (lit("SCALARS ") << karma::string << lit(" unsigned_char 1") << eol
                            << lit("LOOKUP_TABLE ") << karma::string << eol
                            << *karma::byte_)
           << eol;
@@ -308,7 +308,7 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
           << eol;
 
       scalar_data_uchar %=
-          (lit("SCALARS ") << karma::string << lit(" char 1") << eol
+          (lit("SCALARS ") << karma::string << lit(" unsigned_char 1") << eol
                            << lit("LOOKUP_TABLE ") << karma::string << eol
                            << (*(karma::ushort_ % eol)))
           << eol;
-- 
2.43.0


From 5a803ce8d09e7402dfdd8842c8847979ea3cba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:39 +0000
Subject: [PATCH 39/53] fix: write real numbers to VTK text files with all
 significant digits

---
 lib/lf/io/vtk_writer.cc | 46 +++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/lib/lf/io/vtk_writer.cc b/lib/lf/io/vtk_writer.cc
index 4abcc61..47ad307 100644
--- a/lib/lf/io/vtk_writer.cc
+++ b/lib/lf/io/vtk_writer.cc
@@ -8,6 +8,7 @@
 
 #include "vtk_writer.h"
 
+#include <fmt/format.h>
 #include <lf/base/base.h>
 
 #include <Eigen/Eigen>
@@ -118,6 +119,20 @@ std::ostream& operator<<(std::ostream& stream, const VtkFile::Format& f) {
 
 namespace /*anonymous */ {
 namespace karma = boost::spirit::karma;
+
+/// Text output with as many digits as it takes to recover the number
+template <class T>
+struct TextRealPolicies : karma::real_policies<T> {
+  template <class Inserter, class OutputIterator, class Policies>
+  static bool call(OutputIterator& sink, T n, const Policies& /*policies*/) {
+    for (const char c : fmt::format("{}", n)) {
+      *sink = c;
+      ++sink;
+    }
+    return true;
+  }
+};
+
 template <class Iterator, bool BINARY>
 struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
   // template <class T>
@@ -137,13 +152,16 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
     using karma::eps;
     using karma::lit;
 
+    const karma::real_generator<float, TextRealPolicies<float>> text_float;
+    const karma::real_generator<double, TextRealPolicies<double>> text_double;
+
     if (BINARY) {
       points_vector %= *(karma::big_bin_float << karma::big_bin_float
                                               << karma::big_bin_float)
                        << eol;
     } else {
-      points_vector %= *(karma::float_ << ' ' << karma::float_ << ' '
-                                       << karma::float_ << karma::eol);
+      points_vector %=
+          *(text_float << ' ' << text_float << ' ' << text_float << karma::eol);
     }
 
     points = lit("POINTS ")
@@ -203,13 +221,13 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
                                       << (karma::int_ % lit(' ')) << eol;
       field_data_float %= karma::string
                           << lit(" 1 ") << lit(size(at_c<1>(_val)))
-                          << lit(" float") << eol << (karma::float_ % lit(' '))
+                          << lit(" float") << eol << (text_float % lit(' '))
                           << eol;
 
-      field_data_double %= karma::string << lit(" 1 ")
-                                         << lit(size(at_c<1>(_val)))
-                                         << lit(" double") << eol
-                                         << (karma::double_ % lit(' ')) << eol;
+      field_data_double %= karma::string
+                           << lit(" 1 ") << lit(size(at_c<1>(_val)))
+                           << lit(" double") << eol << (text_double % lit(' '))
+                           << eol;
     }
     field_data %= lit("FIELD FieldData ")
                   << lit(size(_val)) << eol
@@ -351,26 +369,24 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
       scalar_data_float %=
           (lit("SCALARS ") << karma::string << lit(" float 1") << eol
                            << lit("LOOKUP_TABLE ") << karma::string << eol
-                           << (*(karma::float_ % eol)))
+                           << (*(text_float % eol)))
           << eol;
 
       scalar_data_double %=
           (lit("SCALARS ") << karma::string << lit(" double 1") << eol
                            << lit("LOOKUP_TABLE ") << karma::string << eol
-                           << (*(karma::double_ % eol)))
+                           << (*(text_double % eol)))
           << eol;
 
       vector_data_float %= lit("VECTORS ")
                            << karma::string << lit(" float") << eol
-                           << *(karma::float_ << lit(' ') << karma::float_
-                                              << lit(' ') << karma::float_
-                                              << eol);
+                           << *(text_float << lit(' ') << text_float << lit(' ')
+                                           << text_float << eol);
 
       vector_data_double %= lit("VECTORS ")
                             << karma::string << lit(" double") << eol
-                            << *(karma::double_ << lit(' ') << karma::double_
-                                                << lit(' ') << karma::double_
-                                                << eol);
+                            << *(text_double << lit(' ') << text_double
+                                             << lit(' ') << text_double << eol);
     }
 
     attributes %=
-- 
2.43.0


From 256c256f7223cf0586b2ab776a2efa7842cd5ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:39 +0000
Subject: [PATCH 40/53] fix: write empty global data sets to VTK text files

---
 lib/lf/io/vtk_writer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/lf/io/vtk_writer.cc b/lib/lf/io/vtk_writer.cc
index 47ad307..2b06bdf 100644
--- a/lib/lf/io/vtk_writer.cc
+++ b/lib/lf/io/vtk_writer.cc
@@ -218,15 +218,15 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
     } else {
       field_data_int %= karma::string << lit(" 1 ") << lit(size(at_c<1>(_val)))
                                       << lit(" int") << eol
-                                      << (karma::int_ % lit(' ')) << eol;
+                                      << -(karma::int_ % lit(' ')) << eol;
       field_data_float %= karma::string
                           << lit(" 1 ") << lit(size(at_c<1>(_val)))
-                          << lit(" float") << eol << (text_float % lit(' '))
+                          << lit(" float") << eol << -(text_float % lit(' '))
                           << eol;
 
       field_data_double %= karma::string
                            << lit(" 1 ") << lit(size(at_c<1>(_val)))
-                           << lit(" double") << eol << (text_double % lit(' '))
+                           << lit(" double") << eol << -(text_double % lit(' '))
                            << eol;
     }
     field_data %= lit("FIELD FieldData ")
-- 
2.43.0


From 6b5b9664bc2b1288f6af677232a5d0ccdefb5bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:39 +0000
Subject: [PATCH 41/53] fix: accept vectors of any size as VTK data, as
 documented

---
 lib/lf/io/vtk_writer.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/lf/io/vtk_writer.h b/lib/lf/io/vtk_writer.h
index 5fd7287..e30c9d7 100644
--- a/lib/lf/io/vtk_writer.h
+++ b/lib/lf/io/vtk_writer.h
@@ -997,14 +997,10 @@ void VtkWriter::PadWithZeros(Eigen::Matrix<T, 3, 1>& out,
   } else if constexpr (ROWS == 3) {  // NOLINT
     out = in;
   } else if constexpr (ROWS == Eigen::Dynamic) {  // NOLINT
-    LF_ASSERT_MSG(in.rows() == 2 || in.rows() == 3,
-                  "VtkWriter can only write out 2d or 3d vectors.");
-    if (in.rows() == 2) {
-      out(2) = T{0};
-      out.topRows(2) = in;
-    } else {
-      out = in;
-    }
+    // only the first three components are visualized
+    const Eigen::Index rows = std::min<Eigen::Index>(in.rows(), 3);
+    out.setZero();
+    out.topRows(rows) = in.topRows(rows);
   }
 }
 
-- 
2.43.0


From fbbb1394bb231029dc64f67a8c8c5f9ab8a7fb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:48 +0000
Subject: [PATCH 42/53] fix: accept file names of less than four characters in
 writeMatplotlib()

---
 lib/lf/io/write_matplotlib.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/io/write_matplotlib.cc b/lib/lf/io/write_matplotlib.cc
index 62e6d4b..cab620f 100644
--- a/lib/lf/io/write_matplotlib.cc
+++ b/lib/lf/io/write_matplotlib.cc
@@ -18,7 +18,7 @@ void writeMatplotlib(const lf::mesh::Mesh &mesh, std::string filename) {
   using dim_t = lf::base::RefEl::dim_t;
 
   // append .csv to filename if necessary
-  if (filename.compare(filename.size() - 4, 4, ".csv") != 0) {
+  if (!filename.ends_with(".csv")) {
     filename += ".csv";
   }
 
-- 
2.43.0


From 370d0fe718193e9fc58961c2c0a122dfea9b1075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:48 +0000
Subject: [PATCH 43/53] fix: append .m to all file names of Matlab output that
 lack it

---
 lib/lf/io/write_matlab.cc     | 8 ++------
 lib/lf/refinement/refutils.cc | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/lib/lf/io/write_matlab.cc b/lib/lf/io/write_matlab.cc
index ce66062..6c16cd2 100644
--- a/lib/lf/io/write_matlab.cc
+++ b/lib/lf/io/write_matlab.cc
@@ -12,12 +12,8 @@ void writeMatlab(const lf::mesh::Mesh& mesh, std::string filename) {
   const Eigen::MatrixXd zero(Eigen::MatrixXd::Zero(0, 1));
 
   // Preprocess filename: append .m, if not there already
-  {
-    const size_type fn_len = filename.size();
-    if ((fn_len > 1) && (filename[fn_len - 2] != '.') &&
-        (filename[fn_len - 1] != 'm')) {
-      filename += ".m";
-    }
+  if (!filename.ends_with(".m")) {
+    filename += ".m";
   }
   // Open file for writing
   std::ofstream file(filename);
diff --git a/lib/lf/refinement/refutils.cc b/lib/lf/refinement/refutils.cc
index 7d0f992..d752082 100644
--- a/lib/lf/refinement/refutils.cc
+++ b/lib/lf/refinement/refutils.cc
@@ -20,12 +20,8 @@ inline int normalize_idx(glb_idx_t idx) {
 void WriteMatlabLevel(const MeshHierarchy &hier_mesh, size_type level,
                       std::string filename) {
   // Preprocess filename: append .m, if not there already
-  {
-    const size_type fn_len = filename.size();
-    if ((fn_len > 1) && (filename[fn_len - 2] != '.') &&
-        (filename[fn_len - 1] != 'm')) {
-      filename += ".m";
-    }
+  if (!filename.ends_with(".m")) {
+    filename += ".m";
   }
   // Open file for writing
   std::ofstream file(filename);
-- 
2.43.0


From 9061f8743d27f5107fae92dfbd670eb94f9cf3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 44/53] fix: name Matlab functions after the file without its
 directory

---
 lib/lf/io/write_matlab.cc     |  9 +++++----
 lib/lf/refinement/refutils.cc | 10 ++++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/lib/lf/io/write_matlab.cc b/lib/lf/io/write_matlab.cc
index 6c16cd2..1ebc635 100644
--- a/lib/lf/io/write_matlab.cc
+++ b/lib/lf/io/write_matlab.cc
@@ -2,6 +2,7 @@
 
 #include "write_matlab.h"
 
+#include <filesystem>
 #include <fstream>
 
 namespace lf::io {
@@ -19,10 +20,10 @@ void writeMatlab(const lf::mesh::Mesh& mesh, std::string filename) {
   std::ofstream file(filename);
   if (file.is_open()) {
     // Start regular writing operations
-    // Remove trailing .m
-    filename.pop_back();
-    filename.pop_back();
-    file << "function [x,y,TRI,QUAD,EDS] = " << filename << "()" << '\n';
+    // The function is named after the file without directory and trailing .m
+    const std::string function_name =
+        std::filesystem::path(filename).stem().string();
+    file << "function [x,y,TRI,QUAD,EDS] = " << function_name << "()" << '\n';
     file << "% Data for an unstructure planar hybrid 2D mesh" << '\n';
 
     // Obtain topological dimension of the mesh
diff --git a/lib/lf/refinement/refutils.cc b/lib/lf/refinement/refutils.cc
index d752082..f0b6b38 100644
--- a/lib/lf/refinement/refutils.cc
+++ b/lib/lf/refinement/refutils.cc
@@ -7,6 +7,7 @@
 #include <lf/io/io.h>
 #include <lf/mesh/utils/utils.h>
 
+#include <filesystem>
 #include <fstream>
 
 namespace lf::refinement {
@@ -27,10 +28,11 @@ void WriteMatlabLevel(const MeshHierarchy &hier_mesh, size_type level,
   std::ofstream file(filename);
   if (file.is_open()) {
     // Start regular writing operations
-    // Remove trailing .m
-    filename.pop_back();
-    filename.pop_back();
-    file << "function [PTPAR,EDPAR,CELLPAR] = " << filename << "()" << '\n';
+    // The function is named after the file without directory and trailing .m
+    const std::string function_name =
+        std::filesystem::path(filename).stem().string();
+    file << "function [PTPAR,EDPAR,CELLPAR] = " << function_name << "()"
+         << '\n';
     file << "% Parent data for a hybid 2D mesh" << '\n';
 
     // Mesh on the selected level
-- 
2.43.0


From 6e1a69d4ea1f22650f82b911ee527f28e033f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 45/53] fix: number cells and their vertices in TikZ output by
 default, as documented

---
 lib/lf/io/write_tikz.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/lf/io/write_tikz.h b/lib/lf/io/write_tikz.h
index 6ddc1a7..68ea7bb 100644
--- a/lib/lf/io/write_tikz.h
+++ b/lib/lf/io/write_tikz.h
@@ -129,7 +129,9 @@ activated.
  */
 bool writeTikZ(const lf::mesh::Mesh &mesh, const std::string &filename,
                std::function<bool(const lf::mesh::Entity &)> &&selector,
-               TikzOutputCtrl output_ctrl = TikzOutputCtrl::RenderCells);
+               TikzOutputCtrl output_ctrl = TikzOutputCtrl::RenderCells |
+                                            TikzOutputCtrl::CellNumbering |
+                                            TikzOutputCtrl::VerticeNumbering);
 
 /**
  * @brief TikZ output of all entities
@@ -139,7 +141,9 @@ bool writeTikZ(const lf::mesh::Mesh &mesh, const std::string &filename,
  * `true` throughout.
  */
 bool writeTikZ(const lf::mesh::Mesh &mesh, const std::string &filename,
-               TikzOutputCtrl output_ctrl = TikzOutputCtrl::RenderCells);
+               TikzOutputCtrl output_ctrl = TikzOutputCtrl::RenderCells |
+                                            TikzOutputCtrl::CellNumbering |
+                                            TikzOutputCtrl::VerticeNumbering);
 
 }  // namespace lf::io
 
-- 
2.43.0


From 4a4526c3b5dc7f5b14716fd35b345a175eefa773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:15 +0000
Subject: [PATCH 46/53] fix: number the components of every product space of a
 factory from zero

---
 projects/dpg/product_fe_space_factory.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/dpg/product_fe_space_factory.h b/projects/dpg/product_fe_space_factory.h
index f54ae44..7a796b3 100644
--- a/projects/dpg/product_fe_space_factory.h
+++ b/projects/dpg/product_fe_space_factory.h
@@ -291,6 +291,7 @@ ProductUniformFESpaceFactory<SCALAR>::Build() {
   rfs_quad_v_ = {};
   rfs_segment_v_ = {};
   rfs_point_v_ = {};
+  num_components_ = 0;
   return fe_space;
 }
 
-- 
2.43.0


From 75e8d06b5c716b78e0278dcde94f563586bbd2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:15 +0000
Subject: [PATCH 47/53] fix: allow flux components in
 InitEssentialConditionsFromFunctions()

---
 projects/dpg/dpg_tools.h | 60 +++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/projects/dpg/dpg_tools.h b/projects/dpg/dpg_tools.h
index 0cf6f5c..5c33bf8 100644
--- a/projects/dpg/dpg_tools.h
+++ b/projects/dpg/dpg_tools.h
@@ -277,34 +277,38 @@ std::vector<std::pair<bool, SCALAR>> InitEssentialConditionsFromFunctions(
   LF_ASSERT_MSG(trace_component != flux_component,
                 "Boundary conditions imposed on same component");
 
-  // retrive the dofhandlers for the corresponding  trace and flux components
-  const auto& trace_fes = fes.ComponentFESpace(trace_component);
-  const auto& flux_fes = fes.ComponentFESpace(flux_component);
-
-  // flag dofs on the component spaces
-  std::vector<std::pair<bool, SCALAR>> componentTraceConditions =
-      lf::fe::InitEssentialConditionFromFunction(*trace_fes, dirichletcondflag,
-                                                 g);
-  std::vector<std::pair<bool, SCALAR>> componentFluxConditions =
-      lf::fe::InitEssentialConditionFromFunction(*flux_fes, neumanncondflag, h);
-
-  // calculate offsets to transform flags on component spaces
-  // to the full product space
-  size_type trace_offset = fes.LocGlobMap().Offset(trace_component);
-  size_type flux_offset = fes.LocGlobMap().Offset(flux_component);
-
-  std::vector<std::pair<bool, SCALAR>> EssentialConditions(
-      fes.LocGlobMap().NumDofs(), {false, SCALAR{}});
-
-  // flag dofs on product space corresponding to fixed trace dofs
-  for (size_type dof = 0; dof < trace_fes->LocGlobMap().NumDofs(); dof++) {
-    EssentialConditions[trace_offset + dof] = componentTraceConditions[dof];
-  }
-
-  // flag dofs on product space corresponding to fixed flux dofs
-  for (size_type dof = 0; dof < flux_fes->LocGlobMap().NumDofs(); dof++) {
-    EssentialConditions[flux_offset + dof] = componentFluxConditions[dof];
-  }
+  const ProductUniformFEDofHandler& dofh = fes.LocGlobMap();
+  std::vector<std::pair<bool, SCALAR>> EssentialConditions(dofh.NumDofs(),
+                                                           {false, SCALAR{}});
+
+  // flag the dofs of a component on the selected edges. The component space
+  // cannot be used for this purpose since a flux component has no shape
+  // functions on cells.
+  auto flagComponent = [&](size_type component, auto&& selector,
+                           const auto& func) {
+    auto fe = fes.ShapeFunctionLayout(lf::base::RefEl::kSegment(), component);
+    LF_ASSERT_MSG(fe != nullptr,
+                  "No shape functions on edges in component " << component);
+    for (const lf::mesh::Entity* const edge : fes.Mesh()->Entities(1)) {
+      if (selector(*edge)) {
+        // obtain dofs from the values in the evaluation nodes
+        auto vals = func(*edge, fe->EvaluationNodes());
+        const Eigen::Matrix<SCALAR, 1, Eigen::Dynamic> dof_vals =
+            fe->NodalValuesToDofs(
+                Eigen::Map<Eigen::Matrix<SCALAR, 1, Eigen::Dynamic>>(
+                    vals.data(), 1, vals.size()));
+        // transform indices of the component to those of the product space
+        int k = 0;
+        for (const auto dof :
+             dofh.ComponentDofHandler(component).GlobalDofIndices(*edge)) {
+          EssentialConditions[dofh.Offset(component) + dof] = {true,
+                                                               dof_vals[k++]};
+        }
+      }
+    }
+  };
+  flagComponent(trace_component, dirichletcondflag, g);
+  flagComponent(flux_component, neumanncondflag, h);
 
   return EssentialConditions;
 }
-- 
2.43.0


From cbdea777156fca1a19506695d28bbdd7b0421d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:15 +0000
Subject: [PATCH 48/53] fix: make fluxes of degree two and three single-valued
 on inner edges

---
 projects/dpg/loc_comp_dpg.h | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/projects/dpg/loc_comp_dpg.h b/projects/dpg/loc_comp_dpg.h
index 7a6095d..22db641 100644
--- a/projects/dpg/loc_comp_dpg.h
+++ b/projects/dpg/loc_comp_dpg.h
@@ -867,6 +867,11 @@ class FluxElementMatrixProvider : public SubElementMatrixProvider<SCALAR> {
       5>
       fe_precomp_test_;
 
+  /** @brief the same as fe_precomp_trial_, for edges whose orientation differs
+   * from that of the cell's local edge. */
+  std::array<lf::uscalfe::PrecomputedScalarReferenceFiniteElement<SCALAR>, 5>
+      fe_precomp_trial_rev_;
+
   /** @brief index of the trial component \f$ \hat{q}_n \f$ */
   size_type trial_component_;
   /** @brief index of test component v */
@@ -921,6 +926,13 @@ FluxElementMatrixProvider<SCALAR, DIFF_COEFF>::FluxElementMatrixProvider(
       fe_precomp_trial_[ref_el.Id()] =
           lf::uscalfe::PrecomputedScalarReferenceFiniteElement(fe_trial,
                                                                segment_qr);
+      // the same for edges whose parametrization runs backwards
+      fe_precomp_trial_rev_[ref_el.Id()] =
+          lf::uscalfe::PrecomputedScalarReferenceFiniteElement(
+              fe_trial,
+              lf::quad::QuadRule(lf::base::RefEl::kSegment(),
+                                 (1.0 - segment_qr.Points().array()).matrix(),
+                                 segment_qr.Weights(), segment_qr.Degree()));
 
       // transform quadrule to all parts of the boundary.
       std::vector<lf::quad::QuadRule> boundaryQr =
@@ -995,11 +1007,23 @@ FluxElementMatrixProvider<SCALAR, DIFF_COEFF>::Eval(
     int sgn =
         sign_provider_.PrescribedSign(cell, *cell.SubEntities(1)[segment]);
 
+    // the shape functions of the flux are defined in the parametrization of the
+    // edge. If it runs backwards, so do the local dofs of the edge.
+    const bool reversed =
+        cell.RelativeOrientations()[segment] == lf::mesh::Orientation::negative;
+    const Eigen::Matrix<SCALAR, Eigen::Dynamic, Eigen::Dynamic> trial_vals =
+        reversed ? fe_precomp_trial_rev_[cell.RefEl().Id()]
+                       .PrecompReferenceShapeFunctions()
+                       .colwise()
+                       .reverse()
+                       .eval()
+                 : pfe_trial.PrecompReferenceShapeFunctions();
+
     // iterate over quadrature points.
     for (size_type k = 0; k < pfe_trial.Qr().NumPoints(); ++k) {
       // transformed quadrature weight
       const double w = pfe_trial.Qr().Weights()[k] * determinants[k] * sgn;
-      const auto trial_eval = pfe_trial.PrecompReferenceShapeFunctions().col(k);
+      const auto trial_eval = trial_vals.col(k);
       const auto test_eval =
           pfes_test[segment].PrecompReferenceShapeFunctions().col(k);
 
-- 
2.43.0


From 6dfc86ec0e8e0634db17c17db0ac606a6f5126e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:24 +0000
Subject: [PATCH 49/53] fix: evaluate DGnorm with more than one quadrature
 point per edge

---
 projects/ipdg_stokes/post_processing/norms.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/projects/ipdg_stokes/post_processing/norms.h b/projects/ipdg_stokes/post_processing/norms.h
index c68f334..7ab8496 100644
--- a/projects/ipdg_stokes/post_processing/norms.h
+++ b/projects/ipdg_stokes/post_processing/norms.h
@@ -90,12 +90,13 @@ double DGnorm(const std::shared_ptr<const lf::mesh::Mesh> &mesh, const MF_F &f,
       quadpoints[i] = Eigen::MatrixXd(2, quadrules[i].NumPoints());
     }
     quadpoints[0] << quadrules[0].Points(),
-        Eigen::VectorXd::Zero(quadrules[0].NumPoints());
-    quadpoints[1] << Eigen::VectorXd::Ones(quadrules[1].NumPoints()) -
+        Eigen::RowVectorXd::Zero(quadrules[0].NumPoints());
+    quadpoints[1] << Eigen::RowVectorXd::Ones(quadrules[1].NumPoints()) -
                          quadrules[1].Points(),
         quadrules[1].Points();
-    quadpoints[2] << Eigen::VectorXd::Zero(quadrules[2].NumPoints()),
-        Eigen::VectorXd::Ones(quadrules[2].NumPoints()) - quadrules[2].Points();
+    quadpoints[2] << Eigen::RowVectorXd::Zero(quadrules[2].NumPoints()),
+        Eigen::RowVectorXd::Ones(quadrules[2].NumPoints()) -
+            quadrules[2].Points();
     for (int i = 0; i < 3; ++i) {
       const auto edge = edges[i];
       const auto segment_eval = f(*entity, quadpoints[i]);
-- 
2.43.0


From cd16b93cb1a30470222ab595c8d61b1f5fbc17bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:55 +0000
Subject: [PATCH 50/53] fix: let the Fisher/KPP evolution advance by all time
 steps

---
 projects/fisher_kpp/strangsplitting.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/projects/fisher_kpp/strangsplitting.cc b/projects/fisher_kpp/strangsplitting.cc
index 08a9fd6..432f959 100644
--- a/projects/fisher_kpp/strangsplitting.cc
+++ b/projects/fisher_kpp/strangsplitting.cc
@@ -72,7 +72,7 @@ Eigen::VectorXd StrangSplit::Evolution(const Eigen::VectorXd &cap,
   sol_cur = StrangSplit::diffusionEvolutionOperator(firstcall, mu);
   firstcall = false;
   /* loop through time steps */
-  for (unsigned int i = 1; i < m_ - 1; i++) {
+  for (unsigned int i = 1; i < m_; i++) {
     /* Reaction for next full time step */
     sol_next = cap.cwiseQuotient(ones + (cap.cwiseQuotient(sol_cur) - ones) *
                                             std::exp(-lambda_ * tau_));
@@ -82,9 +82,13 @@ Eigen::VectorXd StrangSplit::Evolution(const Eigen::VectorXd &cap,
     sol_cur = sol_next;
   }
 
-  /* Last half time step: Reaction */
+  /* Reaction for the last full time step */
   sol_next = cap.cwiseQuotient(ones + (cap.cwiseQuotient(sol_cur) - ones) *
-                                          std::exp(-lambda_ * tau_ / 2.));
+                                          std::exp(-lambda_ * tau_));
+  sol_cur = sol_next;
+  /* Last half time step: Diffusion */
+  firstcall = true;
+  sol_next = StrangSplit::diffusionEvolutionOperator(firstcall, sol_cur);
   sol_cur = sol_next;
 
   sol = sol_cur;
-- 
2.43.0


From 442e92817d668c183853ac25a1698d17df9b568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:42 +0000
Subject: [PATCH 51/53] fix: let the local providers of uscalfe own the space
 whose shape functions they use

---
 lib/lf/uscalfe/loc_comp_ellbvp.h | 54 ++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/lib/lf/uscalfe/loc_comp_ellbvp.h b/lib/lf/uscalfe/loc_comp_ellbvp.h
index 4bd7ccd..5b0cc04 100644
--- a/lib/lf/uscalfe/loc_comp_ellbvp.h
+++ b/lib/lf/uscalfe/loc_comp_ellbvp.h
@@ -186,6 +186,8 @@ class ReactionDiffusionElementMatrixProvider {
 
   // fe_precomp_[i] contains precomputed reference finite element for ref_el i.
   std::array<PrecomputedScalarReferenceFiniteElement<SCALAR>, 5> fe_precomp_;
+  // The precomputed quantities refer to shape functions owned by this space
+  std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space_;
 };
 
 /**
@@ -213,9 +215,12 @@ ReactionDiffusionElementMatrixProvider<SCALAR, DIFF_COEFF, REACTION_COEFF>::
     ReactionDiffusionElementMatrixProvider(
         std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space,
         DIFF_COEFF alpha, REACTION_COEFF gamma)
-    : alpha_(std::move(alpha)), gamma_(std::move(gamma)), fe_precomp_() {
+    : alpha_(std::move(alpha)),
+      gamma_(std::move(gamma)),
+      fe_precomp_(),
+      fe_space_(std::move(fe_space)) {
   for (auto ref_el : {base::RefEl::kTria(), base::RefEl::kQuad()}) {
-    auto fe = fe_space->ShapeFunctionLayout(ref_el);
+    auto fe = fe_space_->ShapeFunctionLayout(ref_el);
     // Check whether shape functions for that entity type are available.
     // Note that the corresponding PrecomputedScalarReferenceFiniteElement local
     // object is not initialized if the associated description of local shape
@@ -238,10 +243,13 @@ ReactionDiffusionElementMatrixProvider<SCALAR, DIFF_COEFF, REACTION_COEFF>::
         std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space,
         DIFF_COEFF alpha, REACTION_COEFF gamma,
         quad_rule_collection_t qr_collection)
-    : alpha_(std::move(alpha)), gamma_(std::move(gamma)), fe_precomp_() {
+    : alpha_(std::move(alpha)),
+      gamma_(std::move(gamma)),
+      fe_precomp_(),
+      fe_space_(std::move(fe_space)) {
   for (auto ref_el : {base::RefEl::kTria(), base::RefEl::kQuad()}) {
     // Obtain pointer to an object describing local shape functions
-    auto fe = fe_space->ShapeFunctionLayout(ref_el);
+    auto fe = fe_space_->ShapeFunctionLayout(ref_el);
     // Check whether shape functions for that entity type are available
     // Note that the corresponding PrecomputedScalarReferenceFiniteElement local
     // object is not initialized if the associated description of local shape
@@ -398,8 +406,9 @@ class MassEdgeMatrixProvider {
       EDGESELECTOR edge_selector = base::PredicateTrue{})
       : gamma_(std::move(gamma)),
         edge_sel_(std::move(edge_selector)),
-        fe_precomp_() {
-    auto fe = fe_space->ShapeFunctionLayout(base::RefEl::kSegment());
+        fe_precomp_(),
+        fe_space_(std::move(fe_space)) {
+    auto fe = fe_space_->ShapeFunctionLayout(base::RefEl::kSegment());
     LF_ASSERT_MSG(fe != nullptr, "No shape functions specified for edges");
     // Precompute entity-independent quantities based on a LehrFEM++ built-in
     // quadrature rule
@@ -423,8 +432,9 @@ class MassEdgeMatrixProvider {
       EDGESELECTOR edge_selector = base::PredicateTrue{})
       : gamma_(std::move(gamma)),
         edge_sel_(std::move(edge_selector)),
-        fe_precomp_() {
-    auto fe = fe_space->ShapeFunctionLayout(base::RefEl::kSegment());
+        fe_precomp_(),
+        fe_space_(std::move(fe_space)) {
+    auto fe = fe_space_->ShapeFunctionLayout(base::RefEl::kSegment());
     LF_ASSERT_MSG(fe != nullptr, "No shape functions specified for edges");
     LF_ASSERT_MSG(quadrule.RefEl() == base::RefEl::kSegment(),
                   "Quadrature rule not meant for EDGE entities!");
@@ -468,6 +478,8 @@ class MassEdgeMatrixProvider {
   EDGESELECTOR edge_sel_;  // Defines the active edges
   // Precomputed quantities at quadrature points
   PrecomputedScalarReferenceFiniteElement<SCALAR> fe_precomp_;
+  // The precomputed quantities refer to shape functions owned by this space
+  std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space_;
 };
 
 /**
@@ -621,6 +633,8 @@ class ScalarLoadElementVectorProvider {
   MESH_FUNCTION f_;
 
   std::array<PrecomputedScalarReferenceFiniteElement<SCALAR>, 5> fe_precomp_;
+  // The precomputed quantities refer to shape functions owned by this space
+  std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space_;
 };
 
 /**
@@ -640,9 +654,9 @@ ScalarLoadElementVectorProvider<SCALAR, MESH_FUNCTION>::
     ScalarLoadElementVectorProvider(
         std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space,
         MESH_FUNCTION f)
-    : f_(std::move(f)) {
+    : f_(std::move(f)), fe_space_(std::move(fe_space)) {
   for (auto ref_el : {base::RefEl::kTria(), base::RefEl::kQuad()}) {
-    auto fe = fe_space->ShapeFunctionLayout(ref_el);
+    auto fe = fe_space_->ShapeFunctionLayout(ref_el);
     // Check whether shape functions for that entity type are available
     if (fe != nullptr) {
       // Precompute cell-independent quantities based on quadrature rules
@@ -660,9 +674,9 @@ ScalarLoadElementVectorProvider<SCALAR, MESH_FUNCTION>::
     ScalarLoadElementVectorProvider(
         std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space,
         MESH_FUNCTION f, quad_rule_collection_t qr_collection)
-    : f_(std::move(f)) {
+    : f_(std::move(f)), fe_space_(std::move(fe_space)) {
   for (auto ref_el : {base::RefEl::kTria(), base::RefEl::kQuad()}) {
-    auto fe = fe_space->ShapeFunctionLayout(ref_el);
+    auto fe = fe_space_->ShapeFunctionLayout(ref_el);
     // Check whether shape functions for that entity type are available
     if (fe != nullptr) {
       // Obtain quadrature rule from user-supplied collection.
@@ -814,8 +828,11 @@ class ScalarLoadEdgeVectorProvider {
   ScalarLoadEdgeVectorProvider(
       std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space, FUNCTOR g,
       EDGESELECTOR edge_sel = base::PredicateTrue{})
-      : g_(std::move(g)), edge_sel_(std::move(edge_sel)), pfe_() {
-    auto fe = fe_space->ShapeFunctionLayout(base::RefEl::kSegment());
+      : g_(std::move(g)),
+        edge_sel_(std::move(edge_sel)),
+        pfe_(),
+        fe_space_(std::move(fe_space)) {
+    auto fe = fe_space_->ShapeFunctionLayout(base::RefEl::kSegment());
     LF_ASSERT_MSG(fe != nullptr, "No shape functions specified for edges");
     // Precompute entity-independent quantities based on a LehrFEM++ built-in
     // quadrature rule
@@ -834,8 +851,11 @@ class ScalarLoadEdgeVectorProvider {
       std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space, FUNCTOR g,
       lf::quad::QuadRule quadrule,
       EDGESELECTOR edge_sel = base::PredicateTrue{})
-      : g_(std::move(g)), edge_sel_(std::move(edge_sel)), pfe_() {
-    auto fe = fe_space->ShapeFunctionLayout(base::RefEl::kSegment());
+      : g_(std::move(g)),
+        edge_sel_(std::move(edge_sel)),
+        pfe_(),
+        fe_space_(std::move(fe_space)) {
+    auto fe = fe_space_->ShapeFunctionLayout(base::RefEl::kSegment());
     LF_ASSERT_MSG(fe != nullptr, "No shape functions specified for edges");
     LF_ASSERT_MSG(quadrule.RefEl() == base::RefEl::kSegment(),
                   "Quadrature rule not meant for EDGE entities!");
@@ -862,6 +882,8 @@ class ScalarLoadEdgeVectorProvider {
   FUNCTOR g_;              // source function
   EDGESELECTOR edge_sel_;  // selects edges
   PrecomputedScalarReferenceFiniteElement<SCALAR> pfe_;
+  // The precomputed quantities refer to shape functions owned by this space
+  std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space_;
 };
 
 /**
-- 
2.43.0


From a651707fea5dadde0e96dfa0d6f130c8b72ee9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:20 +0000
Subject: [PATCH 52/53] fix: initialize the tick factor of the timer without a
 data race

---
 lib/lf/base/timer.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/lf/base/timer.cc b/lib/lf/base/timer.cc
index 303dc60..937a949 100644
--- a/lib/lf/base/timer.cc
+++ b/lib/lf/base/timer.cc
@@ -28,17 +28,19 @@ namespace /* anonymous */ {
 std::int_least64_t tick_factor()  // multiplier to convert ticks
                                   //  to nanoseconds; -1 if unknown
 {
-  static std::int_least64_t tick_factor = 0;
-  if (tick_factor == 0) {
-    if (tick_factor = ::sysconf(_SC_CLK_TCK); tick_factor <= 0) {
-      tick_factor = -1;
+  // initialized once, also if several threads get here at the same time
+  static const std::int_least64_t tick_factor = [] {
+    std::int_least64_t factor = ::sysconf(_SC_CLK_TCK);
+    if (factor <= 0) {
+      factor = -1;
     } else {
-      tick_factor = INT64_C(1000000000) / tick_factor;  // compute factor
-      if (tick_factor == 0) {
-        tick_factor = -1;
+      factor = INT64_C(1000000000) / factor;  // compute factor
+      if (factor == 0) {
+        factor = -1;
       }
     }
-  }
+    return factor;
+  }();
   return tick_factor;
 }
 #endif
-- 
2.43.0


From 3848e0707f93c34c6b381237991724a1a26b347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:12 +0000
Subject: [PATCH 53/53] fix: define the list of all element types of Gmsh file
 format 4

---
 lib/lf/io/gmsh_file_v4.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/lf/io/gmsh_file_v4.cc b/lib/lf/io/gmsh_file_v4.cc
index dcaa62f..fc713f5 100644
--- a/lib/lf/io/gmsh_file_v4.cc
+++ b/lib/lf/io/gmsh_file_v4.cc
@@ -118,6 +118,19 @@ std::ostream& operator<<(std::ostream& stream, GMshFileV4::ElementType et) {
   return stream;
 }
 
+const std::vector<GMshFileV4::ElementType> GMshFileV4::AllElementTypes{
+    ElementType::EDGE2,     ElementType::TRIA3,     ElementType::QUAD4,
+    ElementType::TET4,      ElementType::HEX8,      ElementType::PRISM6,
+    ElementType::PYRAMID5,  ElementType::EDGE3,     ElementType::TRIA6,
+    ElementType::QUAD9,     ElementType::TET10,     ElementType::HEX27,
+    ElementType::PRISM18,   ElementType::PYRAMID14, ElementType::POINT,
+    ElementType::QUAD8,     ElementType::HEX20,     ElementType::PRISM15,
+    ElementType::PYRAMID13, ElementType::TRIA9,     ElementType::TRIA10,
+    ElementType::TRIA12,    ElementType::TRIA15,    ElementType::TRIA15_5,
+    ElementType::TRIA21,    ElementType::EDGE4,     ElementType::EDGE5,
+    ElementType::EDGE6,     ElementType::TET20,     ElementType::TET35,
+    ElementType::TET56,     ElementType::HEX64,     ElementType::HEX125};
+
 /// Number of nodes that this element type has
 int NumNodes(GMshFileV4::ElementType et) {
   switch (et) {
-- 
2.43.0

