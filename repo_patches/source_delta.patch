From f37b93504deea7c285276b5fb757f5cdef133205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:24 +0000
Subject: [PATCH 01/13] fix: filter all of the advection update when row size
 is 2 in 3D

The convective and diffusive parts of the update are stored in arrays padded
to hold the extrapolated variables, so filtering 2*n_update contiguous variables
left part of the source term unfiltered when the padding is nonzero.
---
 include/Spatial.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/Spatial.hpp b/include/Spatial.hpp
index 3d84b27..b039f63 100644
--- a/include/Spatial.hpp
+++ b/include/Spatial.hpp
@@ -473,9 +473,12 @@ class Spatial
         if (_use_filter) {
           for (int i_dim = 0; i_dim < n_dim; ++i_dim) {
             for (Row_index ind(n_dim, row_size, i_dim); ind; ++ind) {
-              Mat<row_size, 2*Pde::n_update> row_r = Row_rw<2*Pde::n_update, row_size>::read_row(time_rate[0][0], ind);
-              row_r = filter*row_r;
-              Row_rw<2*Pde::n_update, row_size>::write_row(row_r, time_rate[0][0], ind, 0.);
+              // convective and diffusive parts are not necessarily contiguous
+              for (int i_part : {0, 1}) {
+                Mat<row_size, Pde::n_update> row_r = Row_rw<Pde::n_update, row_size>::read_row(time_rate[i_part][0], ind);
+                row_r = filter*row_r;
+                Row_rw<Pde::n_update, row_size>::write_row(row_r, time_rate[i_part][0], ind, 0.);
+              }
             }
           }
         }
-- 
2.43.0


From ec501764895c468f5330668d6b484fef0e9c551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:16 +0000
Subject: [PATCH 02/13] fix: copy all of the advected variables in the copy
 boundary condition

---
 src/Boundary_condition.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Boundary_condition.cpp b/src/Boundary_condition.cpp
index e941a43..20cfa33 100644
--- a/src/Boundary_condition.cpp
+++ b/src/Boundary_condition.cpp
@@ -459,7 +459,12 @@ void Copy::apply_flux(Boundary_face& bf)
 
 void Copy::apply_advection(Boundary_face& bf)
 {
-  copy_state(bf);
+  // for large row size, there are more advection variables than `copy_state` covers
+  auto params = bf.storage_params();
+  double* in_f = bf.inside_face(false);
+  double* gh_f = bf.ghost_face(false);
+  int n_dof = (params.n_dim + params.n_advection(params.row_size))*params.n_qpoint()/params.row_size;
+  for (int i_dof = 0; i_dof < n_dof; ++i_dof) gh_f[i_dof] = in_f[i_dof];
 }
 
 void Outflow::apply_state(Boundary_face& bf)
-- 
2.43.0


From 525bdee5441451bc3c8badd7d6758ef24b7a1d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 03/13] fix: do not interpolate hanging vertices in 1D, where
 it recursed forever

---
 src/Hanging_vertex_matcher.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Hanging_vertex_matcher.cpp b/src/Hanging_vertex_matcher.cpp
index 8ad9a44..d4e5a83 100644
--- a/src/Hanging_vertex_matcher.cpp
+++ b/src/Hanging_vertex_matcher.cpp
@@ -12,6 +12,7 @@ Hanging_vertex_matcher::Hanging_vertex_matcher(std::vector<Element*> fine_elemen
 
 void Hanging_vertex_matcher::match(std::function<double&(Element&, int i_vertex)> access_func)
 {
+  if (n_dim == 1) return; // a 1D face is a single vertex, so there is nothing to interpolate
   // extract the indices and values of the vertices on the desired face
   int inds [4]; // for `n_dim <= 3` the required size will be <= 4
   Eigen::VectorXd values (n_vert);
-- 
2.43.0


From 565df067fa65275f6567a73aac8194ee985d944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 04/13] fix: find_leaf read freed memory when given more
 coordinates than dimensions

---
 src/Tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Tree.cpp b/src/Tree.cpp
index 3d3a5b4..16db6bb 100644
--- a/src/Tree.cpp
+++ b/src/Tree.cpp
@@ -75,7 +75,7 @@ Tree* Tree::find_leaf(int rl, Eigen::VectorXi c, Eigen::VectorXi bias)
   HEXED_ASSERT(c.size() >= n_dim, "`coords` has too few elements");
   HEXED_ASSERT(bias.size() >= n_dim, "`bias` has too few elements");
   // find the relative coordinates in this element's ref level or the specified ref level, whichever is higher
-  c = c(Eigen::seqN(0, n_dim));
+  c = c(Eigen::seqN(0, n_dim)).eval(); // `eval` since resizing `c` frees the memory being read
   int max_level = std::max(ref_level, rl);
   int cell_size = math::pow(2, max_level - ref_level);
   Eigen::MatrixXi relative_coords = c*math::pow(2, max_level - rl) - bias(Eigen::seqN(0, n_dim)) - coords*cell_size;
-- 
2.43.0


From 4064d74575551bf9c0386a61e07549789ec67e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 05/13] fix: flood fill started on a refined cell leaked past
 the walls around its first leaf

---
 src/Tree.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Tree.cpp b/src/Tree.cpp
index 16db6bb..f6e2e03 100644
--- a/src/Tree.cpp
+++ b/src/Tree.cpp
@@ -158,7 +158,10 @@ void Tree::set_status(int new_status)
 void Tree::flood_fill(int new_status)
 {
   HEXED_ASSERT(new_status != unprocessed, "`flood_fill` may not be used to set status to `unprocessed`");
-  if (!is_leaf()) children_storage[0]->flood_fill(new_status); // find a leaf element to start
+  if (!is_leaf()) { // find a leaf element to start
+    children_storage[0]->flood_fill(new_status);
+    return;
+  }
   std::queue<Tree*> to_process;
   to_process.push(this);
   while (!to_process.empty()) {
-- 
2.43.0


From 3f55f196394f4d5c7b66c2bbc7bff00a2c191162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 06/13] fix: sign of Heat_flux (flux into the surface)

---
 src/Boundary_func.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Boundary_func.cpp b/src/Boundary_func.cpp
index 7b172f3..96feddc 100644
--- a/src/Boundary_func.cpp
+++ b/src/Boundary_func.cpp
@@ -51,7 +51,7 @@ std::vector<double> Heat_flux::operator()(Boundary_connection& con, int i_fqpoin
   }
   nrml_mag = std::sqrt(nrml_mag);
   // fetch flux in reference space
-  double ref_flux = con.flux_cache()[(params.n_dim + 1)*nfq + i_fqpoint];
+  double ref_flux = -con.flux_cache()[(params.n_dim + 1)*nfq + i_fqpoint];
   // compute flux in physical space
   return {(nrml_mag > 1e-3) ? ref_flux*nrml_sign/nrml_mag : 0.};
 }
-- 
2.43.0


From a566c42234c8be39d9dc464dd96622745fe3ef96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 07/13] fix: assign is_def to the variables of an element

---
 src/hil_properties.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hil_properties.cpp b/src/hil_properties.cpp
index e60bc3c..8caa73d 100644
--- a/src/hil_properties.cpp
+++ b/src/hil_properties.cpp
@@ -6,6 +6,7 @@ namespace hexed::hil_properties
 void element(Namespace& space, Element& elem)
 {
   space.assign("is_extruded", int(!elem.tree));
+  space.assign("is_def", int(elem.get_is_deformed()));
   space.assign("ref_level", elem.refinement_level());
   space.assign("nom_sz", elem.nominal_size());
   space.assign("uncertainty", elem.uncertainty);
-- 
2.43.0


From f36ab732a0475e1aae521311ec2f41f5d16e38f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 08/13] fix: assign the position to the variables of a surface
 point

---
 src/hil_properties.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hil_properties.cpp b/src/hil_properties.cpp
index 8caa73d..c556784 100644
--- a/src/hil_properties.cpp
+++ b/src/hil_properties.cpp
@@ -73,11 +73,13 @@ void surface(Namespace& space, Boundary_connection& con, int i_fqpoint)
     state.push_back(con.inside_face(false)[i_var*nfq + i_fqpoint]);
   }
   for (int i_dim = 0; i_dim < params.n_dim; ++i_dim) {
+    space.assign("pos" + std::to_string(i_dim), con.surface_position()[i_dim*nfq + i_fqpoint]);
     space.assign("normal" + std::to_string(i_dim), nrml(i_dim)*nrml_sign/nrml_mag);
     space.assign("visc_stress" + std::to_string(i_dim), flux[i_dim]);
     space.assign("momentum" + std::to_string(i_dim), state[i_dim]);
   }
   for (int i_dim = params.n_dim; i_dim < 3; ++i_dim) {
+    space.assign("pos" + std::to_string(i_dim), 0.);
     space.assign("normal" + std::to_string(i_dim), 0.);
     space.assign("visc_stress" + std::to_string(i_dim), 0.);
     space.assign("momentum" + std::to_string(i_dim), 0.);
-- 
2.43.0


From b4956e3d10739334f78b0ed0fd23f8cbd9b37390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 09/13] fix: infinite recursion of hypercube_matvec in 0
 dimensions

---
 src/math.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math.cpp b/src/math.cpp
index 091dc19..b0a8f6f 100644
--- a/src/math.cpp
+++ b/src/math.cpp
@@ -31,6 +31,7 @@ Eigen::VectorXd hypercube_matvec(const Eigen::MatrixXd& mat, const Eigen::Vector
 
   const int vec_row_size = vec.size()/mat.cols();
   if (vec_row_size == 1) return mat*vec;
+  else if (vec_row_size == 0) return vec; // 0-dimensional hypercube: nothing to multiply
   else
   {
     int prod_size = 1;
-- 
2.43.0


From fe96f9ce13534092800b482f83adaf58849725d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 10/13] fix: bounding ball of the tree in
 Simplex_geom::intersections

---
 include/Simplex_geom.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simplex_geom.hpp b/include/Simplex_geom.hpp
index 7d9d4ea..26914c0 100644
--- a/include/Simplex_geom.hpp
+++ b/include/Simplex_geom.hpp
@@ -81,7 +81,7 @@ class Simplex_geom : public Surface_geom
 
   void recursive_intersections(std::vector<double>& inters, Tree& tree, Mat<n_dim> point0, Mat<n_dim> point1)
   {
-    if (!math::intersects(math::Ball<n_dim>(tree.center(), tree.nominal_size()*n_dim/4.), point0, point1)) return;
+    if (!math::intersects(math::Ball<n_dim>(tree.center(), math::pow(tree.nominal_size(), 2)*n_dim/4.), point0, point1)) return;
     Mat<n_dim> diff = point1 - point0;
     for (int i_simplex : tree.misc_data) {
       auto sim = _simplices[i_simplex];
-- 
2.43.0


From 0621c36492a135244aa96e1031c3fa92fd9d768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:06 +0000
Subject: [PATCH 11/13] fix: order of the fine elements of hanging connections
 in saved meshes

---
 include/connection.hpp  | 4 ++++
 src/Accessible_mesh.cpp | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/connection.hpp b/include/connection.hpp
index b1ee26e..3880a7e 100644
--- a/include/connection.hpp
+++ b/include/connection.hpp
@@ -195,6 +195,7 @@ class Refined_connection
   Con_dir<element_t> dir;
   Con_dir<Deformed_element> def_dir;
   bool rev;
+  std::vector<element_t*> fine_elems; // in natural order, whereas `fine_cons` may be permuted
   std::vector<std::unique_ptr<Fine_connection>> fine_cons;
   std::array<bool, 2> str;
   int n_fine;
@@ -229,6 +230,7 @@ class Refined_connection
     dir{con_dir},
     def_dir{Con_dir<Deformed_element>(dir)},
     rev{reverse_order},
+    fine_elems{fine},
     str{stretch_arg},
     coarse_state_data{3*params.n_dof()/params.row_size},
     matcher{to_elementstar(fine), def_dir.i_dim[!reverse_order], def_dir.face_sign[!reverse_order], str}
@@ -283,6 +285,8 @@ class Refined_connection
   int n_fine_elements() {return n_fine;}
   double* coarse_state() {return coarse_state_data.data();}
   element_t& coarse_element() {return c;}
+  //! fetch a fine element in the natural row-major order (the order of the constructor argument), which is not necessarily that of `connection()`
+  element_t& fine_element(int i_fine) {return *fine_elems[i_fine];}
 };
 
 template <>
diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 1e52e0d..09a4927 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1577,7 +1577,7 @@ void Accessible_mesh::write(std::string name)
       int data[11] {}; \
       data[0] = con.coarse_element().record; \
       for (int i_fine = 0; i_fine < con.n_fine_elements(); ++i_fine) { \
-        data[1 + i_fine] = con.connection(i_fine).element(!con.order_reversed()).record; \
+        data[1 + i_fine] = con.fine_element(i_fine).record; \
       } \
       for (int i_fine = con.n_fine_elements(); i_fine < 4; ++i_fine) data[1 + i_fine] = -1; \
       for (int i_dim : {0, 1}) data[5 + i_dim] = con.stretch()[i_dim]; \
-- 
2.43.0


From 78d280c332ef4a364f45980a3bee5c3e21b914f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:06 +0000
Subject: [PATCH 12/13] fix: update the flood fill status of tree cells that
 are coarsened

---
 include/Accessible_mesh.hpp |  1 +
 src/Accessible_mesh.cpp     | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/Accessible_mesh.hpp b/include/Accessible_mesh.hpp
index 9013031..9f0b27d 100644
--- a/include/Accessible_mesh.hpp
+++ b/include/Accessible_mesh.hpp
@@ -49,6 +49,7 @@ class Accessible_mesh : public Mesh
   template<typename element_t> Mesh_by_type<element_t>& mbt(); // gets either `car` or `def`
   template<typename element_t> void connect_new(int start_at); // connects new elements in `mbt<element_t>()`. helper function for `refine`
   void refine_set_status(Tree*); // refines a tree and sets the flood fill status for any children that intersect the surface
+  void unrefine_set_status(Tree*); // unrefines a tree and sets the flood fill status according to whether it intersects the surface
   void refine_by_record(bool is_deformed, int start, int end);
   bool needs_refine(Tree*);
   void purge();
diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 09a4927..dabf4d4 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -819,6 +819,13 @@ void Accessible_mesh::refine_set_status(Tree* t)
   }
 }
 
+// the status that `t` had as a leaf, if ever, may predate the surface geometry, so it has to be evaluated again
+void Accessible_mesh::unrefine_set_status(Tree* t)
+{
+  t->unrefine();
+  t->set_status(intersects_surface(t) - 1);
+}
+
 // performs the actual refinement for all elements where the record has been set to 1
 void Accessible_mesh::refine_by_record(bool is_deformed, int start, int end)
 {
@@ -1196,7 +1203,7 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
                 child->elem->record = 2;
               }
             }
-            parent->unrefine();
+            unrefine_set_status(parent);
             add_elem(is_def, *parent).record = 0;
           }
         }
@@ -1239,7 +1246,7 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
                       child->elem->record = 2;
                     }
                   }
-                  p->unrefine();
+                  unrefine_set_status(p);
                 }
               } else if (neighbor->refinement_level() < elem.refinement_level() - 1) {
                 changed = true;
-- 
2.43.0


From 663d8ef906b23bbd582b27bbfcd44289850ce631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:06 +0000
Subject: [PATCH 13/13] fix: total height of Layer_sequence is 1

---
 src/Layer_sequence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Layer_sequence.cpp b/src/Layer_sequence.cpp
index 1121d06..23f3204 100644
--- a/src/Layer_sequence.cpp
+++ b/src/Layer_sequence.cpp
@@ -18,7 +18,7 @@ int Layer_sequence::n_layers()
 double Layer_sequence::spacing(int i_layer)
 {
   double first_growth = std::pow(2., nw - n_layers());
-  return (i_layer < nw) ? ws : std::pow(2., i_layer - n_layers())*(1 - ws*nw + first_growth);
+  return (i_layer < nw) ? ws : std::pow(2., i_layer - n_layers())*(1 - ws*nw)/(1 - first_growth);
 }
 
 double Layer_sequence::cumulative_height(int i_layer)
-- 
2.43.0

