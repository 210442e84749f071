From 6bdc62ed8b4d669e09389739cd5af9ddbe7f8f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 01/59] fix: Mesh_simple node-to-face table listed xy faces in
 place of xz and yz faces

---
 src/mesh/mesh_simple/Mesh_simple.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index 34002e7..8e2c0ee 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -548,22 +548,22 @@ void Mesh_simple::update_internals_3d_() {
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix+1, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix+1, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
       }
   // finally we do the yz faces
@@ -581,22 +581,22 @@ void Mesh_simple::update_internals_3d_() {
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy+1, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy+1, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
       }
 
-- 
2.43.0


From 705fe5c6cecedd0c9fc76ac0a31cbd6d05097428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 02/59] fix: Mesh_simple adjacency queries restricted to ghosts
 returned owned entities

---
 src/mesh/mesh_simple/Mesh_simple.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index 8e2c0ee..5b3d4df 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -794,6 +794,10 @@ void Mesh_simple::node_get_cells(const Jali::Entity_ID nodeid,
 
   cellids->clear();
 
+  // all entities of this serial mesh are owned
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL)
+    return;
+
   for (int i = 0; i < ncells; i++)
     cellids->push_back(node_to_cell_[offset+i+1]);
 }
@@ -808,6 +812,10 @@ void Mesh_simple::node_get_faces(const Jali::Entity_ID nodeid,
 
   faceids->clear();
 
+  // all entities of this serial mesh are owned
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL)
+    return;
+
   for (int i = 0; i < nfaces; i++)
     faceids->push_back(node_to_face_[offset+i+1]);
 }
@@ -824,6 +832,10 @@ void Mesh_simple::node_get_cell_faces(const Jali::Entity_ID nodeid,
 
   faceids->clear();
 
+  // all entities of this serial mesh are owned
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL)
+    return;
+
   for (int i = 0; i < faces_per_cell_; i++) {
     Entity_ID cellfaceid = cell_to_face_[offset+i];
 
@@ -875,6 +887,10 @@ void Mesh_simple::cell_get_face_adj_cells(const Jali::Entity_ID cellid,
 
   fadj_cellids->clear();
 
+  // all entities of this serial mesh are owned
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL)
+    return;
+
   for (int i = 0; i < faces_per_cell_; i++) {
     Entity_ID faceid = cell_to_face_[offset];
 
@@ -905,6 +921,10 @@ void Mesh_simple::cell_get_node_adj_cells(const Jali::Entity_ID cellid,
 
   nadj_cellids->clear();
 
+  // all entities of this serial mesh are owned
+  if (ptype != Entity_type::PARALLEL_OWNED && ptype != Entity_type::ALL)
+    return;
+
   for (int i = 0; i < nodes_per_cell_; i++) {
     Entity_ID nodeid = cell_to_node_[offset+i];
 
-- 
2.43.0


From 9dbf49784ffd7002772bde308e0580949f1f7a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 03/59] fix: Entity_type names were shifted by one and validity
 range was off

---
 src/mesh/MeshDefs.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/MeshDefs.hh b/src/mesh/MeshDefs.hh
index 0219930..47b3a56 100644
--- a/src/mesh/MeshDefs.hh
+++ b/src/mesh/MeshDefs.hh
@@ -174,7 +174,7 @@ const int NUM_ENTITY_TYPES = 6;
 inline
 bool valid_entity_type(const Entity_type type) {
   int itype = static_cast<int>(type);
-  return (itype >= 0 && itype < NUM_ENTITY_TYPES);
+  return (itype >= -1 && itype < NUM_ENTITY_TYPES-1);  // TYPE_UNKNOWN is -1
 }
 
 // Return a string describing the entity kind that can be printed out
@@ -186,7 +186,7 @@ std::string Entity_type_string(Entity_type const type) {
        "Entity_type::BOUNDARY_GHOST", "Entity_type::ALL"};
 
   int itype = static_cast<int>(type);
-  return valid_entity_type(type) ? type_str[itype] : "";
+  return valid_entity_type(type) ? type_str[itype+1] : "";
 }
 
 
-- 
2.43.0


From 4c9a68c3113047addb3e2be544362da05d3035fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 04/59] fix: point_in_polyhed did not advance past triangular
 faces

---
 src/geometry/Geometry.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/Geometry.cc b/src/geometry/Geometry.cc
index d6092c2..ba758de 100644
--- a/src/geometry/Geometry.cc
+++ b/src/geometry/Geometry.cc
@@ -256,9 +256,10 @@
 
           }  // for each edge of face
 
-          offset += nfnodes[i];
         }
 
+        offset += nfnodes[i];
+
       }  // for each face
 
       return true;
-- 
2.43.0


From e17de9c6ce720955e3eddd025d1aa3bd48897df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 05/59] fix: sign of a tetrahedron's volume depended on the
 order of its vertices

---
 src/geometry/Geometry.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/geometry/Geometry.cc b/src/geometry/Geometry.cc
index ba758de..1781f37 100644
--- a/src/geometry/Geometry.cc
+++ b/src/geometry/Geometry.cc
@@ -99,10 +99,15 @@
       if (np == 4) {  // is a tetrahedron
 
         *centroid = (ccoords[0]+ccoords[1]+ccoords[2]+ccoords[3])/4.0;
-        v1 = ccoords[1]-ccoords[0];
-        v2 = ccoords[2]-ccoords[0];
-        v3 = ccoords[3]-ccoords[0];
-        *volume = (v1^v2)*v3;
+
+        // vertices come in no particular order, so the sign of the
+        // volume has to come from a face; the tet formed by the face
+        // and the center is a quarter of the whole
+
+        v1 = fcoords[0]-(*centroid);
+        v2 = fcoords[1]-(*centroid);
+        v3 = fcoords[2]-(*centroid);
+        *volume = 4*((v1^v2)*v3);
 
       } else {  // if (np > 4), polyhedron with possibly curved faces
 
-- 
2.43.0


From c588802bb426069b3d5c843979e1261430d1d9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 06/59] fix: inverted 2D triangles were not given a negative
 area

---
 src/geometry/Geometry.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geometry/Geometry.cc b/src/geometry/Geometry.cc
index 1781f37..fa81118 100644
--- a/src/geometry/Geometry.cc
+++ b/src/geometry/Geometry.cc
@@ -320,6 +320,9 @@
 
         (*area) = norm(*normal);
         (*centroid) = center;
+
+        if (dim == 2 && (*normal)[0] <= 0.0)
+          negvol = true;
       } else {
         // Compute the area of each triangle formed by
         // the center point and each polygon edge
-- 
2.43.0


From 16947e62f04d838acd4597d4a85ff995bd00c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 07/59] fix: copies of logical and labeled set regions lost
 their defining data

---
 src/geometry/LabeledSetRegion.cc | 3 ++-
 src/geometry/LogicalRegion.cc    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geometry/LabeledSetRegion.cc b/src/geometry/LabeledSetRegion.cc
index 15cfdf8..46bb9f8 100644
--- a/src/geometry/LabeledSetRegion.cc
+++ b/src/geometry/LabeledSetRegion.cc
@@ -84,7 +84,8 @@ LabeledSetRegion::LabeledSetRegion(const std::string name,
 }
 
 LabeledSetRegion::LabeledSetRegion(const LabeledSetRegion& old)
-  : Region(old)
+  : Region(old), entity_str_(old.entity_str_), file_(old.file_),
+    format_(old.format_), label_(old.label_)
 {
   // empty
 }
diff --git a/src/geometry/LogicalRegion.cc b/src/geometry/LogicalRegion.cc
index 86e98f1..cc04708 100644
--- a/src/geometry/LogicalRegion.cc
+++ b/src/geometry/LogicalRegion.cc
@@ -105,7 +105,7 @@ LogicalRegion::LogicalRegion(const std::string name,
 }
 
 LogicalRegion::LogicalRegion(const LogicalRegion& old)
-  : Region(old)
+  : Region(old), operation_(old.operation_), region_names_(old.region_names_)
 {
   // empty
 }
-- 
2.43.0


From 7bb54e2888a787cdc47bd4d185567c8054325431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 08/59] fix: PolygonRegion projected along the wrong direction
 when its normal has a negative largest component

---
 src/geometry/PolygonRegion.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/PolygonRegion.cc b/src/geometry/PolygonRegion.cc
index 237ed7e..bad2d77 100644
--- a/src/geometry/PolygonRegion.cc
+++ b/src/geometry/PolygonRegion.cc
@@ -144,8 +144,8 @@ void PolygonRegion::init() {
     int dmax = -1;
     double maxlen = -1;
     for (int i = 0; i < 3; i++)
-      if (normal_[i] > maxlen) {
-        maxlen = normal_[i];
+      if (fabs(normal_[i]) > maxlen) {
+        maxlen = fabs(normal_[i]);
         dmax = i;
       }
 
-- 
2.43.0


From be5e9721c9389e05f73e3c536498a99f7ccd0224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 09/59] fix: PolygonRegion had no normal when its first three
 points are on a line

---
 src/geometry/PolygonRegion.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/geometry/PolygonRegion.cc b/src/geometry/PolygonRegion.cc
index bad2d77..92d7ba2 100644
--- a/src/geometry/PolygonRegion.cc
+++ b/src/geometry/PolygonRegion.cc
@@ -115,9 +115,13 @@ void PolygonRegion::init() {
     elim_dir_ = (vec[0] < vec[1]) ? 0 : 1;
   }
   else if (dimension() == 3) {
-    Point vec0 = points_[2]-points_[1];
-    Point vec1 = points_[0]-points_[1];
-    normal_ = vec0^vec1;
+    // sum over all corners since the first three points may be on a line
+    Point vec0(3), vec1(3);
+    for (int i = 1; i+1 < num_points_; i++) {
+      vec0 = points_[i]-points_[0];
+      vec1 = points_[i+1]-points_[0];
+      normal_ += vec0^vec1;
+    }
     normal_ /= norm(normal_);
 
 #ifdef DEBUG
-- 
2.43.0


From e65106264a147acf78485dc062271640a1efe760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 10/59] fix: end point of a 2D PolygonRegion segment could be
 reported outside due to round-off

---
 src/geometry/PolygonRegion.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/PolygonRegion.cc b/src/geometry/PolygonRegion.cc
index 92d7ba2..e383846 100644
--- a/src/geometry/PolygonRegion.cc
+++ b/src/geometry/PolygonRegion.cc
@@ -210,7 +210,7 @@ PolygonRegion::inside(const Point& p) const
     double dp = vec0*vec1;
 
     // projection of vec0 along segment lies inside the segment
-    if (dp >= 0 && dp <= slen) {
+    if (dp >= -1.0e-08 && dp <= slen+1.0e-08) {
 
       // projected point along line segment
       Point p1 = points_[0] + dp*vec1;
-- 
2.43.0


From 64925674e5fe5b5b1a9c194d6a128bdb55f089f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 11/59] fix: Domain could not be constructed from lists of
 models and regions

---
 src/geometry/Domain.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/Domain.cc b/src/geometry/Domain.cc
index a1d5a74..e3ded32 100644
--- a/src/geometry/Domain.cc
+++ b/src/geometry/Domain.cc
@@ -120,7 +120,7 @@ Domain::Domain(const unsigned int dim,
   spatial_dimension_(dim), GeometricModels(in_geometric_models),
   FreeRegions(in_Regions)
 {
-  if (dim != 2 || dim != 3) {
+  if (dim != 2 && dim != 3) {
     std::cerr << "Only 2D and 3D domains are supported" << std::endl;
     throw std::exception();
   }
-- 
2.43.0


From 8288642f07b1cb5a33904b1ee4587ad98b4eef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 12/59] fix: the exception behavior chosen by the user was
 private to each translation unit

---
 src/error_handling/exceptions.cc |  8 ++++----
 src/error_handling/exceptions.hh | 14 ++++++++------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/error_handling/exceptions.cc b/src/error_handling/exceptions.cc
index 45c6fba..cef9866 100644
--- a/src/error_handling/exceptions.cc
+++ b/src/error_handling/exceptions.cc
@@ -52,13 +52,13 @@
 
 namespace Exceptions {
 
-void set_exception_behavior_raise() { behavior = Exceptions::RAISE; }
-void set_exception_behavior_abort() { behavior = Exceptions::ABORT; }
-void set_exception_behavior(Exception_action action) { behavior = action; }
+void set_exception_behavior_raise() { current_behavior() = Exceptions::RAISE; }
+void set_exception_behavior_abort() { current_behavior() = Exceptions::ABORT; }
+void set_exception_behavior(Exception_action action) { current_behavior() = action; }
 
 Exception_action exception_behavior()
 {
-  return behavior;
+  return current_behavior();
 }
 
 } // expections error
diff --git a/src/error_handling/exceptions.hh b/src/error_handling/exceptions.hh
index ceaae86..7189927 100644
--- a/src/error_handling/exceptions.hh
+++ b/src/error_handling/exceptions.hh
@@ -74,18 +74,20 @@ template <typename E> void Jali_throw(const E& exception);
 }  // namespace Exceptions
 
 
-namespace {
-Exceptions::Exception_action behavior = Exceptions::RAISE;
-}
-
-
 namespace Exceptions {
 
+// The current behavior, shared by all translation units.
+inline Exception_action& current_behavior()
+{
+  static Exception_action behavior = Exceptions::RAISE;
+  return behavior;
+}
+
 // Either raise the given exception or abort, depending on the value of behavior.
 template <typename E>
 void Jali_throw(const E& exception)
 {
-  if (behavior == Exceptions::RAISE)
+  if (current_behavior() == Exceptions::RAISE)
       throw exception;
   else
       abort ();
-- 
2.43.0


From 4892528b71f130277732a767505a94dd102124e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 13/59] fix: adding entities to a mesh set misplaced ghosts and
 left a wrong reverse map

add_entities put an all-ghost list into the owned list (using an iterator of
the wrong vector), duplicated entries or added inadmissible entities when
there were no ghosts, and like add_entity did not update the positions of
entities that moved.
---
 src/mesh/MeshSet.cc | 51 +++++++++++++++------------------------------
 1 file changed, 17 insertions(+), 34 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 6363aba..48fe78c 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -112,7 +112,12 @@ void MeshSet::add_entity(Entity_ID const& mesh_entity) {
     entityids_owned_.push_back(mesh_entity);
     entityids_all_.insert(entityids_all_.begin()+nowned_old, mesh_entity);
 
-    if (have_reverse_map_) mesh2subset_[mesh_entity] = nowned_old;
+    // the ghosts after the new entity have moved by one position too
+    if (have_reverse_map_) {
+      int nall = entityids_all_.size();
+      for (int i = nowned_old; i < nall; i++)
+        mesh2subset_[entityids_all_[i]] = i;
+    }
 
   } else if (etype == Entity_type::PARALLEL_GHOST) {
 
@@ -168,51 +173,29 @@ void MeshSet::rem_entity(Entity_ID const& mesh_entity) {
 
 void MeshSet::add_entities(std::vector<Entity_ID> const& in_entities) {
   int nowned_old = entityids_owned_.size();
-  int nghost_old = entityids_ghost_.size();
-  int nall = in_entities.size();
-  int nowned = 0;
-  int nghost = 0;
   for (auto const& mesh_entity : in_entities) {
     Entity_type etype = mesh_.entity_get_type(kind_, mesh_entity);
     if (etype == Entity_type::PARALLEL_OWNED)
-      nowned++;
+      entityids_owned_.push_back(mesh_entity);
     else if (etype == Entity_type::PARALLEL_GHOST)
-      nghost++;
+      entityids_ghost_.push_back(mesh_entity);
+    // Doesn't make sense to add any other type like BOUNDARY_GHOST
   }
-  if (nall == nowned)
-    entityids_owned_.insert(entityids_owned_.end(), in_entities.begin(),
-                            in_entities.end());
-  else if (nall == nghost)
-    entityids_owned_.insert(entityids_ghost_.end(), in_entities.begin(),
-                            in_entities.end());
-  else
-    for (auto const& mesh_entity : in_entities)
-      add_entity(mesh_entity);
   
   // entityids_all should always have owned entities first and ghost
   // entities last - so we can't just put in entities at the end -
   // we have to make a new list with the updated owned and ghost
-  // entities and concatenate them (if there are any ghosts)
+  // entities and concatenate them
   
-  if (entityids_ghost_.size()) {
-    std::vector<Entity_ID> tmp_list(entityids_owned_);
-    tmp_list.insert(tmp_list.end(), entityids_ghost_.begin(),
-                    entityids_ghost_.end());
-    entityids_all_.swap(tmp_list);
-  } else
-    entityids_all_.insert(entityids_all_.begin(), in_entities.begin(),
-                          in_entities.end());
+  std::vector<Entity_ID> tmp_list(entityids_owned_);
+  tmp_list.insert(tmp_list.end(), entityids_ghost_.begin(),
+                  entityids_ghost_.end());
+  entityids_all_.swap(tmp_list);
 
   if (have_reverse_map_) {  // have to update mesh to subset map
-    // new owned entities should have gone in after old owned entities
-    int start = nowned_old;
-    for (int i = start; i < start + nowned; i++)
-      mesh2subset_[entityids_all_[i]] = i;
-    
-    // new ghost entities should have gone in after old+new owned
-    // entities and old ghost entities
-    start = nowned_old + nowned + nghost_old;
-    for (int i = start; i < start + nghost; i++)
+    // everything after the old owned entities is new or has moved
+    int nall = entityids_all_.size();
+    for (int i = nowned_old; i < nall; i++)
       mesh2subset_[entityids_all_[i]] = i;
   }
 }
-- 
2.43.0


From 679e252af05cfedbe91eb45602e3fc690f5c9d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 14/59] fix: removing entities from a mesh set left a wrong
 reverse map and order

Entities moved into the place of a removed one kept their old position in the
reverse map (rem_entity), removed ones kept theirs (rem_entities), a ghost
could end up among the owned entities in the full list, and an entity named
twice or not in the set removed another one.
---
 src/mesh/MeshSet.cc | 83 ++++++++-------------------------------------
 1 file changed, 14 insertions(+), 69 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 48fe78c..58aabb2 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -135,38 +135,9 @@ void MeshSet::add_entity(Entity_ID const& mesh_entity) {
 // Remove entity from meshset (PREFERABLY USE rem_entities)
 
 void MeshSet::rem_entity(Entity_ID const& mesh_entity) {
-  Entity_type etype = mesh_.entity_get_type(kind_, mesh_entity);
-    int size;
-    if (etype == Entity_type::PARALLEL_OWNED) {
-      size = entityids_owned_.size();
-      auto const& it = std::find(entityids_owned_.begin(),
-                                 entityids_owned_.end(), mesh_entity);
-      if (it != entityids_owned_.end()) {
-        *it = entityids_owned_[size-1];  // replace mesh_entity with last entry
-        entityids_owned_.resize(size-1);
-      }
-    } else if (etype == Entity_type::PARALLEL_GHOST) {
-      size = entityids_ghost_.size();
-      auto const& it = std::find(entityids_ghost_.begin(),
-                                 entityids_ghost_.end(), mesh_entity);
-      if (it != entityids_ghost_.end()) {
-        *it = entityids_ghost_[size-1];  // replace mesh_entity with last entry
-        entityids_ghost_.resize(size-1);
-      }
-    }
-    else
-      return;  // No other type like BOUNDARY_GHOST can be part of set
-
-    size = entityids_all_.size();
-    auto const& it = std::find(entityids_all_.begin(),
-                               entityids_all_.end(), mesh_entity);
-    if (it != entityids_all_.end()) {
-      *it = entityids_all_[size-1];  // replace mesh_entity with last entry
-      entityids_all_.resize(size-1);
-    }
-
-    if (have_reverse_map_) mesh2subset_[mesh_entity] = -1;
-  }
+  Entity_ID const ent = mesh_entity;  // argument may be an entry of our list
+  rem_entities(std::vector<Entity_ID>(1, ent));
+}
 
 
 // Add a group of entities to meshset (no check for duplicates)
@@ -204,47 +175,21 @@ void MeshSet::add_entities(std::vector<Entity_ID> const& in_entities) {
 // Remove a group of entities from a subset
 
 void MeshSet::rem_entities(std::vector<Entity_ID> const& in_entities) {
-  // Replace each to-be-removed entry with an entry from the end of
-  // the list.  Then shrink the lists.
-  
-  int size = entityids_owned_.size();
-  int ndel = 0;
+  // Take each to-be-removed entry out of the lists keeping the order
+  // of the rest so that entityids_all continues to have the owned
+  // entities first and the ghost entities last
+
   for (auto const& mesh_entity : in_entities) {
-    Entity_type etype = mesh_.entity_get_type(kind_, mesh_entity);
-    if (etype == Entity_type::PARALLEL_OWNED) {
-      auto const& it = std::find(entityids_owned_.begin(),
-                                 entityids_owned_.end(), mesh_entity);
-      if (it != entityids_owned_.end()) {
-        *it = entityids_owned_[size-ndel-1];
-        ndel++;
+    bool found = false;
+    for (auto list : {&entityids_owned_, &entityids_ghost_, &entityids_all_}) {
+      auto it = std::find(list->begin(), list->end(), mesh_entity);
+      if (it != list->end()) {
+        list->erase(it);
+        found = true;
       }
     }
+    if (found && have_reverse_map_) mesh2subset_[mesh_entity] = -1;
   }
-  entityids_owned_.resize(size-ndel);
-  
-  size = entityids_ghost_.size();
-  ndel = 0;
-  for (auto const& mesh_entity : in_entities) {
-    auto const& it = std::find(entityids_ghost_.begin(),
-                               entityids_ghost_.end(), mesh_entity);
-    if (it != entityids_ghost_.end()) {
-      *it = entityids_ghost_[size-ndel-1];
-      ndel++;
-    }
-  }
-  entityids_ghost_.resize(size-ndel);
-  
-  size = entityids_all_.size();
-  ndel = 0;
-  for (auto const& mesh_entity : in_entities) {
-    auto const& it = std::find(entityids_all_.begin(),
-                               entityids_all_.end(), mesh_entity);
-    if (it != entityids_all_.end()) {
-      *it = entityids_all_[size-ndel-1];
-      ndel++;
-    }
-  }
-  entityids_all_.resize(size-ndel);
 
   if (have_reverse_map_) {
     int nall = entityids_all_.size();
-- 
2.43.0


From 77cd63ceea6f518e0aedcd8e5eaf294b0d8dadf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 15/59] fix: complement of mesh sets listed owned entities as
 its ghosts

The ghost part was filled with ids 0..nghost-1, which belong to owned entities.
---
 src/mesh/MeshSet.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 58aabb2..b18b30d 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -443,8 +443,11 @@ complement(std::vector<std::shared_ptr<MeshSet>> inpsets, bool temporary) {
   
   Entity_ID_List ghost_list;
   ghost_list.reserve(nent_ghost - setunion->entityids_ghost_.size());
-  for (int ent = 0; ent < nent_ghost; ent++)
-    if (std::find(setunion->entityids_ghost_.begin(),
+  int nent_all = set0->mesh_.num_entities(set0->kind_, Entity_type::ALL);
+  for (int ent = 0; ent < nent_all; ent++)
+    if (set0->mesh_.entity_get_type(set0->kind_, ent) ==
+        Entity_type::PARALLEL_GHOST &&
+        std::find(setunion->entityids_ghost_.begin(),
                   setunion->entityids_ghost_.end(),
                   ent) == setunion->entityids_ghost_.end())
       ghost_list.push_back(ent);
-- 
2.43.0


From a8588ae6c708b77a7059c93cf4d0ec6cb501ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 16/59] fix: subtracting nothing, or a region from itself, read
 past an empty list

---
 src/mesh/Mesh.cc    | 5 ++---
 src/mesh/MeshSet.cc | 8 ++++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 3d73d11..c667122 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3005,9 +3005,8 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
     else if (boolregion->operation() == JaliGeometry::Bool_type::INTERSECT)
       mset = intersect(msets, temporary);
     else if (boolregion->operation() == JaliGeometry::Bool_type::SUBTRACT) {
-      std::vector<std::shared_ptr<MeshSet>> msets1;
-      for (auto const& set : msets)
-        if (set != msets[0]) msets1.push_back(set);
+      std::vector<std::shared_ptr<MeshSet>> msets1(msets.begin()+1,
+                                                   msets.end());
       mset = subtract(msets[0], msets1, temporary);      
     }
 
diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index b18b30d..efb44da 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -308,8 +308,12 @@ subtract(std::shared_ptr<MeshSet> const& set0,
     assert(set0->kind_ == set->kind_);
   }
 
-  // Make a temporary union of all the sets to be subtracted
-  std::shared_ptr<MeshSet> setunion = merge(subtractsets, true);
+  // Make a temporary union of all the sets to be subtracted (an empty
+  // set if there are none)
+  std::shared_ptr<MeshSet> setunion = subtractsets.size() ?
+      merge(subtractsets, true) :
+      std::make_shared<MeshSet>("", set0->mesh_, set0->kind_,
+                                Entity_ID_List(), Entity_ID_List(), false);
 
   // Add elements that are in set0 and but not in the rest of the sets
   // to the result
-- 
2.43.0


From 484cc25c7d4763bdee943c4a2e9445b9a4da899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 17/59] fix: cell sets of point regions missed the cell
 containing the point

Only the cells of the node nearest to the point were searched, but that node
need not belong to the cell that contains the point (e.g. the centroid of a
tetrahedron next to a larger one).
---
 src/mesh/Mesh.cc | 34 +++++++++-------------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index c667122..b2ea091 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2694,41 +2694,25 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
                             owned_cells, ghost_cells, with_reverse_map);
 
       } else if (region->type() == JaliGeometry::Region_type::POINT) {
-        JaliGeometry::Point vpnt(spacedim);
         JaliGeometry::Point rgnpnt(spacedim);
 
         rgnpnt = ((JaliGeometry::PointRegionPtr)region)->point();
 
-        int nnode = Mesh::num_entities(Entity_kind::NODE,
-                                       Entity_type::ALL);
-
-        double mindist2 = 1.e+16;
-        int minnode = -1;
-        for (int inode = 0; inode < nnode; inode++) {
-          node_get_coordinates(inode, &vpnt);
-
-          double dist2 = (vpnt-rgnpnt)*(vpnt-rgnpnt);
-          if (dist2 < mindist2) {
-            mindist2 = dist2;
-            minnode = inode;
-            if (mindist2 <= 1.0e-32)
-              break;
-          }
-        }
-
-        Entity_ID_List cells1;
-        node_get_cells(minnode, Entity_type::ALL, &cells1);
+        // The node nearest to the point need not be a node of the cell
+        // containing it, so we have to look at all cells
 
-        int ncells = cells1.size();
-        for (int ic = 0; ic < ncells; ic++) {
-          Entity_ID icell = cells1[ic];
+        int ncells = Mesh::num_entities(Entity_kind::CELL, Entity_type::ALL);
+        for (int icell = 0; icell < ncells; icell++) {
+          Entity_type ctype = entity_get_type(Entity_kind::CELL, icell);
+          if (ctype != Entity_type::PARALLEL_OWNED &&
+              ctype != Entity_type::PARALLEL_GHOST)
+            continue;
 
           // Check if point is contained in cell
           if (point_in_cell(rgnpnt, icell)) {
-            Entity_type ctype = entity_get_type(Entity_kind::CELL, icell);
             if (ctype == Entity_type::PARALLEL_OWNED)
               owned_cells.push_back(icell);
-            else if (ctype == Entity_type::PARALLEL_GHOST)
+            else
               ghost_cells.push_back(icell);
           }
         }
-- 
2.43.0


From 5982532c5e5f1a3ce3a4153daecd28b80184033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 18/59] fix: union of a single region took over the component's
 set and renamed it

---
 src/mesh/Mesh.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index b2ea091..e064ae2 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2994,6 +2994,19 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
       mset = subtract(msets[0], msets1, temporary);      
     }
 
+    // The union of a single set is that set itself - the result has to
+    // be a set of its own so that the component keeps its name
+
+    if (mset == msets[0]) {
+      if (temporary)
+        mset = std::make_shared<MeshSet>(*mset);
+      else
+        mset = make_meshset(setname, *this, kind,
+                            msets[0]->entities<Entity_type::PARALLEL_OWNED>(),
+                            msets[0]->entities<Entity_type::PARALLEL_GHOST>(),
+                            with_reverse_map);
+    }
+
     // While building logical meshsets, the resulting meshset name reflects
     // the operation but we need it to have the original region name so
     // we can find it later
-- 
2.43.0


From 6732b28d5963230ec7e802c18a2c6fa41541a005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 19/59] fix: polygon regions claimed the dimension of the space
 they are in

The topological dimension of a polygon is one less (it is a surface in 3D and
a segment in 2D, just like a plane). With the wrong dimension, initializing
sets from a geometric model with a polygon tried to make a cell set from it and
failed.
---
 src/geometry/PolygonRegion.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/geometry/PolygonRegion.cc b/src/geometry/PolygonRegion.cc
index e383846..221d7a2 100644
--- a/src/geometry/PolygonRegion.cc
+++ b/src/geometry/PolygonRegion.cc
@@ -71,7 +71,7 @@ PolygonRegion::PolygonRegion(const std::string name, const unsigned int id,
                              const unsigned int num_points,
                              const std::vector<Point>& points,
                              const LifeCycle_type lifecycle)
-  : Region(name,id,points[0].dim(),lifecycle), num_points_(num_points),
+  : Region(name,id,points[0].dim()-1,lifecycle), num_points_(num_points),
     points_(points),normal_(points[0].dim()),elim_dir_(0)
 {
   init();
@@ -91,10 +91,13 @@ PolygonRegion::~PolygonRegion(void)
 
 void PolygonRegion::init() {
 
-  if (num_points_ < dimension()) {
+  // polygons are of one dimension less than the space they are in
+  int spacedim = points_[0].dim();
+
+  if (num_points_ < spacedim) {
     std::stringstream tempstr;
-    tempstr << "\nDimension " << dimension() <<
-      " regions need to be specified by at least " << dimension() <<
+    tempstr << "\nPolygon regions in " << spacedim <<
+      "D need to be specified by at least " << spacedim <<
       " points\n";
     Errors::Message mesg(tempstr.str());
     Exceptions::Jali_throw(mesg);
@@ -107,14 +110,14 @@ void PolygonRegion::init() {
 //    }
 //  }
 
-  if (dimension() == 2) {
+  if (spacedim == 2) {
     Point vec = points_[1] - points_[0];
     vec /= norm(vec);
     normal_.set(vec[1],-vec[0]);
 
     elim_dir_ = (vec[0] < vec[1]) ? 0 : 1;
   }
-  else if (dimension() == 3) {
+  else if (spacedim == 3) {
     // sum over all corners since the first three points may be on a line
     Point vec0(3), vec1(3);
     for (int i = 1; i+1 < num_points_; i++) {
@@ -157,7 +160,7 @@ void PolygonRegion::init() {
   }
   else {
     std::stringstream tempstr;
-    tempstr << "Cannot handle regions of dimension " << dimension() << "\n";
+    tempstr << "Cannot handle polygon regions in dimension " << spacedim << "\n";
     Errors::Message mesg(tempstr.str());
     Exceptions::Jali_throw(mesg);
   }
@@ -194,7 +197,7 @@ PolygonRegion::inside(const Point& p) const
 
 
   bool result(false);
-  if (dimension() == 2) {
+  if (p.dim() == 2) {
     // Now check if it lies in the line segment
 
     // vector from start of segment to point
-- 
2.43.0


From 357b5565e991cf571e4f87228789ec7507b14ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 20/59] fix: initializing sets from a geometric model
 duplicated or left out sets

A region was skipped if it had a cell set and otherwise all its sets were
built, so sets of lower dimensional regions were duplicated by a second
initialization and face/node sets were never made for regions that got a cell
set through a logical region declared earlier.
---
 src/mesh/Mesh.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index e064ae2..720e164 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2403,10 +2403,6 @@ void Mesh::init_sets_from_geometric_model(
       // We have to account for users querying any type of entity on
       // the region
 
-      auto mset = find_meshset(rgn->name(), Entity_kind::CELL);
-      if (mset) continue;
-
-      
       std::vector<Entity_kind> entity_kinds;
       auto it = region_to_entity_kinds_map.find(rgn->name());
       if (it != region_to_entity_kinds_map.end())
@@ -2448,7 +2444,8 @@ void Mesh::init_sets_from_geometric_model(
       }
 
       for (Entity_kind entity_kind : entity_kinds)
-        mset = build_set_from_region(rgn->name(), entity_kind, false);
+        if (!find_meshset(rgn->name(), entity_kind))
+          build_set_from_region(rgn->name(), entity_kind, false);
     }
   }
 }  // init_sets_from_geometric_model (must be called before querying sets from regions)
-- 
2.43.0


From 74079131f46fdb42c2caa8e03784338765cb60a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 21/59] fix: valid_region_name did not recognize qualified
 entity names of labeled sets

---
 src/mesh/Mesh.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 720e164..9079e09 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2518,6 +2518,9 @@ bool Mesh::valid_region_name(std::string name, Entity_kind kind) const {
             dynamic_cast<JaliGeometry::LabeledSetRegionPtr> (rgn);
         std::string entity_type = lsrgn->entity_str();
 
+        std::size_t pos = entity_type.rfind("::");
+        if (pos != std::string::npos) entity_type = entity_type.substr(pos+2);
+
         if ((kind == Entity_kind::CELL && entity_type == "CELL") ||
             (kind == Entity_kind::FACE && entity_type == "FACE") ||
             (kind == Entity_kind::EDGE && entity_type == "EDGE") ||
-- 
2.43.0


From af0286caee599e9c35ce0a19211b6932af46c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 22/59] fix: sides of a mesh tile depended on the request for
 wedges

---
 src/mesh/MeshTile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/MeshTile.cc b/src/mesh/MeshTile.cc
index 9ed9800..5f7f2e4 100644
--- a/src/mesh/MeshTile.cc
+++ b/src/mesh/MeshTile.cc
@@ -249,7 +249,7 @@ MeshTile::MeshTile(Mesh& parent_mesh,
                         edgeids_ghost_.begin(), edgeids_ghost_.end());
   }
 
-  if (request_wedges) {
+  if (request_sides) {
     for (auto const& c : cellids_owned_) {
       std::vector<int> csides;
       mesh_.cell_get_sides(c, &csides);
-- 
2.43.0


From 0d275a7f6c2c158e5ffb7b1b313f9a315e7ba41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 23/59] fix: set entities of a tile were filtered by their type
 on the mesh

---
 src/mesh/MeshTile.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/mesh/MeshTile.cc b/src/mesh/MeshTile.cc
index 5f7f2e4..3aaebdb 100644
--- a/src/mesh/MeshTile.cc
+++ b/src/mesh/MeshTile.cc
@@ -382,7 +382,8 @@ void MeshTile::get_set_entities(const Set_Name setname, const Entity_kind kind,
 void MeshTile::get_nodes_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::NODE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::NODE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -406,7 +407,8 @@ void MeshTile::get_nodes_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_edges_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::EDGE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::EDGE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -430,7 +432,8 @@ void MeshTile::get_edges_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_faces_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::FACE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::FACE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -454,7 +457,8 @@ void MeshTile::get_faces_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_sides_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::SIDE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::SIDE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -478,7 +482,8 @@ void MeshTile::get_sides_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_wedges_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::WEDGE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::WEDGE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -503,7 +508,8 @@ void MeshTile::get_corners_of_set(const Set_Name setname,
                                   const Entity_type type,
                                   Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::CORNER, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::CORNER, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -527,7 +533,8 @@ void MeshTile::get_corners_of_set(const Set_Name setname,
 void MeshTile::get_cells_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::CELL, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::CELL, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
-- 
2.43.0


From 77d9c76826fb2fa9dbe5d9e73318563292b8b4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 24/59] fix: centroids of faces of 1D meshes were never set

---
 src/mesh/Mesh.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 9079e09..e9b44cb 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1365,6 +1365,7 @@ int Mesh::compute_face_geometry(const Entity_ID faceid, double *area,
     face_get_coordinates(faceid, &fcoords);
 
     JaliGeometry::face1d_get_area(fcoords, geomtype, area);
+    *centroid = fcoords[0];
     JaliGeometry::Point normal(space_dim_);
     normal.set(*area);
 
-- 
2.43.0


From 2ea9403f600bdcb51a5dbe69a4def76481ea4cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 25/59] fix: edge normals of surface meshes ignored the
 position of the cell

---
 src/mesh/Mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index e9b44cb..3a1caa2 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1335,7 +1335,7 @@ int Mesh::compute_face_geometry(const Entity_ID faceid, double *area,
 
         assert(found);
 
-        JaliGeometry::Point cellcen;
+        JaliGeometry::Point cellcen(space_dim_);
         std::vector<JaliGeometry::Point> ccoords;
         cell_get_coordinates(cellids[i], &ccoords);
 
-- 
2.43.0


From b6352a9a1e948533350b0a30537f04eea03a30cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 26/59] fix: partitioning into one part with METIS crashed or
 lost cells

---
 src/mesh/Mesh.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 3a1caa2..65f3b98 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3176,6 +3176,11 @@ void Mesh::get_partitioning_by_index_space(int const num_parts,
 void Mesh::get_partitioning_with_metis(int const num_parts,
                                   std::vector<std::vector<int>> *partitions) {
 
+  if (num_parts == 1) {  // METIS cannot be asked to make only one part
+    (*partitions)[0] = cells<Entity_type::PARALLEL_OWNED>();
+    return;
+  }
+
   std::cerr << "Partitioning mesh on each compute node into " << num_parts <<
       " parts using METIS\n";
 
-- 
2.43.0


From 8fd2f0a9d1367a01336438a9180a2ca50018060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 27/59] fix: partitioning a mesh without faces with METIS wrote
 past the end of the adjacency array

---
 src/mesh/Mesh.cc | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 65f3b98..c83d22b 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3188,24 +3188,18 @@ void Mesh::get_partitioning_with_metis(int const num_parts,
 
   int ncells_owned = num_cells<Entity_type::PARALLEL_OWNED>();
   int ncells_all = num_cells<Entity_type::ALL>();
-  int nfaces_all = num_faces<Entity_type::ALL>();
   idx_t *xadj = new idx_t[ncells_all+1];  // offset indicator into adjacency
   //                                      // array - overallocate
-  idx_t *adjncy = new idx_t[2*nfaces_all];  // adjacency array (nbrs of a cell)
-  //                                        // - overallocate
+  std::vector<idx_t> adjncy;  // adjacency array (nbrs of a cell)
   xadj[0] = 0;  // starting offset
-  int ipos = 0;
   int i = 0;
   Entity_ID_List nbrcells;
   for (auto const& c : cells<Entity_type::PARALLEL_OWNED>()) {
     cell_get_face_adj_cells(c, Entity_type::PARALLEL_OWNED, &nbrcells);
     for (auto const& nbr : nbrcells)
-      adjncy[ipos++] = nbr;
-    xadj[++i] = ipos;
+      adjncy.push_back(nbr);
+    xadj[++i] = adjncy.size();
   }
-  if (ipos > 2*nfaces_all)
-    std::cerr << "Mesh::get_partitioning - Wrote past end of adjncy array" <<
-        "Expand adjncy array or expect crashes\n";
 
   // Partition the graph
 
@@ -3228,11 +3222,11 @@ void Mesh::get_partitioning_with_metis(int const num_parts,
   metisopts[METIS_OPTION_NUMBERING] = 0;   // Indicate C style numbering
 
   if (num_parts <= 8)
-    METIS_PartGraphRecursive(&ngraphvtx, &ncons, xadj, adjncy, vwt, vsize,
+    METIS_PartGraphRecursive(&ngraphvtx, &ncons, xadj, adjncy.data(), vwt, vsize,
                              adjwt, &nparts, tpwts, ubvec,
                              metisopts, &nedgecut, idxpart);
   else
-    METIS_PartGraphKway(&ngraphvtx, &ncons, xadj, adjncy, vwt, vsize,
+    METIS_PartGraphKway(&ngraphvtx, &ncons, xadj, adjncy.data(), vwt, vsize,
                         adjwt, &nparts, tpwts, ubvec, metisopts,
                         &nedgecut, idxpart);
 
@@ -3242,7 +3236,6 @@ void Mesh::get_partitioning_with_metis(int const num_parts,
   }
 
   delete [] xadj;
-  delete [] adjncy;
   delete [] idxpart;
 }
 
-- 
2.43.0


From d616dc473c843df3fd703a687408482d17b9daad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 28/59] fix: edges and edge directions of cells of surface
 meshes were never cached

---
 src/mesh/Mesh.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index c83d22b..c4bf6cb 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -183,15 +183,17 @@ void Mesh::cache_cell2edge_info() const {
   int ncells = num_cells<Entity_type::ALL>();
   cell_edge_ids.resize(ncells);
 
-  if (space_dim_ == 1) {
+  // Surface meshes (2D cells in 3D space) need edge directions as well
+
+  if (manifold_dim_ == 1) {
     for (auto const& c : cells())
       cell_get_nodes(c, &(cell_edge_ids[c]));   // edges are same as nodes
-  } else if (space_dim_ == 2) {
+  } else if (manifold_dim_ == 2) {
     cell_2D_edge_dirs.resize(ncells);
     for (auto const& c : cells())
       cell_2D_get_edges_and_dirs_internal(c, &(cell_edge_ids[c]),
                                           &(cell_2D_edge_dirs[c]));
-  } else if (space_dim_ == 3) {
+  } else if (manifold_dim_ == 3) {
     for (auto const& c : cells())
       cell_get_edges_internal(c, &(cell_edge_ids[c]));
   }
-- 
2.43.0


From 8b08310c8a4754de8637507eea4e966875558538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 29/59] fix: the query for the side of a wedge was declared but
 not defined

---
 src/mesh/Mesh.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesh/Mesh.hh b/src/mesh/Mesh.hh
index 8d04b11..86795a7 100644
--- a/src/mesh/Mesh.hh
+++ b/src/mesh/Mesh.hh
@@ -2099,6 +2099,12 @@ Entity_ID Mesh::wedge_get_node(const Entity_ID wedgeid) const {
   return side_get_node(sideid, iwedge);
 }
 
+inline
+Entity_ID Mesh::wedge_get_side(const Entity_ID wedgeid) const {
+  assert(sides_requested && wedges_requested);
+  return static_cast<Entity_ID>(wedgeid/2);
+}
+
 inline
 Entity_ID Mesh::wedge_get_corner(const Entity_ID wedgeid) const {
   assert(sides_requested && wedges_requested);
-- 
2.43.0


From bb64fbc2595f09758fdf1cb64c7958e2a4b7d548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 30/59] fix: sides at the right end of 1D cells had negative
 volume and inward normals

---
 src/mesh/Mesh.cc | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index c4bf6cb..47c18ea 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1529,19 +1529,6 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
       *outward_facet_normal = -vec0/JaliGeometry::norm(vec0);
     }
     
-    // Flip sign depending on which node/edge of the cell the side is
-    // associated with
-
-    Entity_ID nodeid = side_node_ids[sideid][0];
-    Entity_ID cellid = side_cell_id[sideid];
-
-    Entity_ID_List cnodes;
-    cell_get_nodes(cellid, &cnodes);
-    if (nodeid == cnodes[1]) {  // have to reverse sign of volume and normal
-      *side_volume = -(*side_volume);
-      *outward_facet_normal = -(*outward_facet_normal);
-    }
-
     // This is not really defined - nobody should try to use this
     mid_facet_normal->set(0.0);
   }
-- 
2.43.0


From 739f5997ece9a3f6c50c85c824e23bc2a5bbfcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 31/59] fix: positive volume order of 1D wedges and corners
 depended on the wrong thing

---
 src/mesh/Mesh.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 47c18ea..d4d76e3 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1934,13 +1934,18 @@ void Mesh::wedge_get_coordinates(const Entity_ID wedgeid,
   // they will give a +ve volume, we have to reverse the coordinate
   // order for odd numbered wedges. This follows by the convention
   // used for retrieving side coordinates and for the numbering of
-  // wedges.
-
-  if (posvol_order && wedgeid%2) {
-    if (manifold_dim_ == 1)
-      std::swap((*wcoords)[0], (*wcoords)[1]);
-    else
+  // wedges. In 1D, both wedges of a side are at the same node and have
+  // to be reversed if this is the second node of the cell
+
+  if (posvol_order) {
+    if (manifold_dim_ == 1) {
+      Entity_ID_List cnodes;
+      cell_get_nodes(c, &cnodes);
+      if (n == cnodes[1])
+        std::swap((*wcoords)[0], (*wcoords)[1]);
+    } else if (wedgeid%2) {
       std::swap((*wcoords)[1], (*wcoords)[2]);
+    }
   }
 }  // wedge_get_coordinates
 
-- 
2.43.0


From b6b569515f331ec65c7fd2a043ebac4609b3f443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 32/59] fix: facets of a 1D corner were appended to the old
 contents of the output

---
 src/mesh/Mesh.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index d4d76e3..52a3ced 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2188,6 +2188,7 @@ Mesh::corner_get_facetization(const Entity_ID cornerid,
   Entity_ID_List cwedges;
   corner_get_wedges(cornerid, &cwedges);
   wedge_get_coordinates(cwedges[0], pointcoords);
+  facetpoints->clear();
   // ordering is because wedge_get_coordinates comes back in (node, cell) order
   // and node is the facet external to the zone and cell is the facet between
   // the wedges of the side, which is consistent with 2/3D.
-- 
2.43.0


From 76949aba3156190b45798d4b876ccfed53621303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 33/59] fix: normal of the facet between the wedges of a 2D
 side was that of another segment

---
 src/mesh/Mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 52a3ced..3e6cad2 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1502,7 +1502,7 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
 
     JaliGeometry::Point vec3 = scoords[2] - ecen;
 
-    *mid_facet_normal = JaliGeometry::Point(vec1[1], -vec1[0]);
+    *mid_facet_normal = JaliGeometry::Point(vec3[1], -vec3[0]);
 
   } else if (manifold_dim_ == 1) {
     std::vector<JaliGeometry::Point> scoords;
-- 
2.43.0


From dfa8688e9f82d1faf3fd1cbdce18cd8f09e6079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 34/59] fix: points of 2D corners could be returned in
 clockwise order

---
 src/mesh/Mesh.cc | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 3e6cad2..cb04c46 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2147,16 +2147,15 @@ Mesh::corner_get_facetization(const Entity_ID cornerid,
 
   int c = corner_get_cell(cornerid);
   JaliGeometry::Point ccen = cell_centroid(c);
-  JaliGeometry::Point vec0 = ccen-p;
 
   Entity_ID f0 = wedge_get_face(cwedges[0]);
   JaliGeometry::Point fcen0 = face_centroid(f0);
   Entity_ID f1 = wedge_get_face(cwedges[1]);
   JaliGeometry::Point fcen1 = face_centroid(f1);
 
-  JaliGeometry::Point vec1 = fcen0-p;
-  JaliGeometry::Point cpvec = vec1^vec0;
-  if (cpvec[0] > 0) {
+  // Wedge 0 of a side comes before wedge 1 going ccw around the cell
+
+  if (cwedges[0]%2 == 0) {
     pointcoords->push_back(fcen0);
     pointcoords->push_back(ccen);
     pointcoords->push_back(fcen1);
@@ -2231,16 +2230,13 @@ Mesh::corner_get_coordinates(const Entity_ID cornerid,
 
     pointcoords->push_back(wpoints[1]);
 
-    // Make sure we got the coordinates in the right orientation
-
-    JaliGeometry::Point vec0 = (*pointcoords)[1] - (*pointcoords)[0];
-    JaliGeometry::Point vec1 = (*pointcoords)[3] - (*pointcoords)[0];
-    JaliGeometry::Point cpvec = vec0^vec1;  // 2 times the vol of cwedges[0]
-
-    // If the sign of cpvec[0] and wedge_volume(cwedges[0]) not the same, then
-    // switch the order of the coordinates
+    // Make sure we got the coordinates in the right orientation. Going
+    // ccw around the cell, wedge 0 of a side comes before wedge 1, so
+    // the edge/face center of a wedge 0 has to follow the node. (The
+    // angle between the edges does not tell the orientation if it is
+    // 180 degrees or more, or if the cell is part of a surface mesh)
 
-    if (cpvec[0]*wedge_volume(cwedges[0]) < 0) {
+    if (cwedges[0]%2) {
       // reverse the order of the points
       std::swap((*pointcoords)[1], (*pointcoords)[3]);
     }
-- 
2.43.0


From 91ab76b264ae321c160b9d667bd2d45d456bff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 35/59] fix: facet normals of sides and wedges of surface
 meshes were not 3D vectors

---
 src/mesh/Mesh.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index cb04c46..206629e 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1496,13 +1496,22 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
     // length weighted normal to the segment formed
     // by node coordinate and edge/face center
 
-    *outward_facet_normal = JaliGeometry::Point(vec0[1], -vec0[0]);
-
     JaliGeometry::Point ecen = edge_centroid(side_edge_id[sideid]);
 
     JaliGeometry::Point vec3 = scoords[2] - ecen;
 
-    *mid_facet_normal = JaliGeometry::Point(vec3[1], -vec3[0]);
+    if (space_dim_ == 2) {
+      *outward_facet_normal = JaliGeometry::Point(vec0[1], -vec0[0]);
+
+      *mid_facet_normal = JaliGeometry::Point(vec3[1], -vec3[0]);
+    } else {  // Surface mesh - normals lie in the plane of the side
+      JaliGeometry::Point sidenormal = vec0^vec1;
+      sidenormal /= norm(sidenormal);
+
+      *outward_facet_normal = vec0^sidenormal;
+
+      *mid_facet_normal = vec3^sidenormal;
+    }
 
   } else if (manifold_dim_ == 1) {
     std::vector<JaliGeometry::Point> scoords;
-- 
2.43.0


From de4337d173411597faa193d46647d84b53fced47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 36/59] fix: facet normals of sides and wedges were not
 replaced by a geometry update

---
 src/mesh/Mesh.cc | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 206629e..fb3e6bb 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1103,20 +1103,15 @@ int Mesh::compute_edge_geometric_quantities() const {
 int Mesh::compute_side_geometric_quantities() const {
   side_volumes.resize(num_sides());
 
-  // Cannot use resize for the facet normals because we cannot tell
-  // the initialization operator what the dimensionality of the points
-  // will be, unless we can write a statement like this
-  //
-  //  wedge_facet_normals0.resize(nwedges, Point(3));
-  //
-  // It is also unclear that this is good to do because it will cause
-  // a copy operator to be triggered for each element (?)
-
-  side_outward_facet_normal.reserve(num_sides());
-  side_mid_facet_normal.reserve(num_sides());
-
   JaliGeometry::Point outward_facet_normal(space_dim_);
   JaliGeometry::Point mid_facet_normal(space_dim_);
+
+  // This routine is called again when the geometry is updated, so the
+  // normals computed earlier must be replaced
+
+  side_outward_facet_normal.resize(num_sides(), outward_facet_normal);
+  side_mid_facet_normal.resize(num_sides(), mid_facet_normal);
+
   for (auto const & s : sides()) {
     if (entity_get_type(Entity_kind::SIDE, s) == Entity_type::BOUNDARY_GHOST) {
       side_volumes[s] = 0.0;
@@ -1127,8 +1122,8 @@ int Mesh::compute_side_geometric_quantities() const {
                             &(outward_facet_normal),
                             &(mid_facet_normal));
     }
-    side_outward_facet_normal.push_back(outward_facet_normal);
-    side_mid_facet_normal.push_back(mid_facet_normal);
+    side_outward_facet_normal[s] = outward_facet_normal;
+    side_mid_facet_normal[s] = mid_facet_normal;
   }
 
   side_geometry_precomputed = true;
-- 
2.43.0


From 3e213ee292fb498796cc9ccaffbdc0baa0207218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 37/59] fix: recomputed geometry of sides, wedges and corners
 used stored centroids

---
 src/mesh/Mesh.cc | 29 +++++++++++++++++++++--------
 src/mesh/Mesh.hh |  6 ++++--
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index fb3e6bb..f26642e 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1423,10 +1423,14 @@ int Mesh::compute_edge_geometry(const Entity_ID edgeid, double *edge_length,
 }  // Mesh::compute_edge_geometry
 
 
+// If recompute is true, the centroids of the face and cell are calculated
+// using current node coordinates instead of using the stored ones
+
 void Mesh::compute_side_geometry(Entity_ID const sideid,
                                  double *side_volume,
                                  JaliGeometry::Point *outward_facet_normal,
-                                 JaliGeometry::Point *mid_facet_normal) const {
+                                 JaliGeometry::Point *mid_facet_normal,
+                                 const bool recompute) const {
   if (manifold_dim_ == 3) {
     std::vector<JaliGeometry::Point> scoords;
 
@@ -1438,6 +1442,10 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
     // will have a normal point inward.
 
     side_get_coordinates(sideid, &scoords);
+    if (recompute) {
+      scoords[2] = face_centroid(side_get_face(sideid), true);
+      scoords[3] = cell_centroid(side_get_cell(sideid), true);
+    }
 
     // vector from node 0 to node 1
     JaliGeometry::Point vec0 = scoords[1] - scoords[0];
@@ -1477,6 +1485,8 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
     // These are always - node coordinate, edge/face center, cell center
 
     side_get_coordinates(sideid, &scoords);
+    if (recompute)
+      scoords[2] = cell_centroid(side_get_cell(sideid), true);
 
     // vector from node 0 to node 1
     JaliGeometry::Point vec0 = scoords[1]-scoords[0];
@@ -1516,6 +1526,8 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
     // These are always - node coordinate and cell center
 
     side_get_coordinates(sideid, &scoords);
+    if (recompute)
+      scoords[1] = cell_centroid(side_get_cell(sideid), true);
 
     // vector from node to cell center
     JaliGeometry::Point vec0 = scoords[1]-scoords[0];
@@ -1540,7 +1552,8 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
 
 
 void Mesh::compute_corner_geometry(const Entity_ID cornerid,
-                                   double *volume) const {
+                                   double *volume,
+                                   const bool recompute) const {
   Entity_ID_List cwedges;
   corner_get_wedges(cornerid, &cwedges);
 
@@ -1548,7 +1561,7 @@ void Mesh::compute_corner_geometry(const Entity_ID cornerid,
   Entity_ID_List::iterator itw = cwedges.begin();
   while (itw != cwedges.end()) {
     Entity_ID w = *itw;
-    *volume += wedge_volume(w);
+    *volume += wedge_volume(w, recompute);
     ++itw;
   }
 }  // compute corner geometry
@@ -1609,7 +1622,7 @@ double Mesh::side_volume(const Entity_ID sideid, const bool recompute) const {
     double side_volume;
     JaliGeometry::Point outward_facet_normal, mid_facet_normal;
     compute_side_geometry(sideid, &side_volume, &outward_facet_normal,
-                          &mid_facet_normal);
+                          &mid_facet_normal, true);
     return side_volume;
   } else {
     return side_volumes[sideid];
@@ -1628,7 +1641,7 @@ double Mesh::wedge_volume(const Entity_ID wedgeid, const bool recompute) const {
     double side_volume;
     JaliGeometry::Point outward_facet_normal, mid_facet_normal;
     compute_side_geometry(sideid, &side_volume, &outward_facet_normal,
-                          &mid_facet_normal);
+                          &mid_facet_normal, true);
     return side_volume/2.0;
   } else {
     return side_volumes[sideid]/2.0;
@@ -1644,7 +1657,7 @@ double Mesh::corner_volume(const Entity_ID cornerid,
 
   if (recompute) {
     double volume;
-    compute_corner_geometry(cornerid, &volume);
+    compute_corner_geometry(cornerid, &volume, true);
     return volume;
   } else {
     return corner_volumes[cornerid];
@@ -1973,7 +1986,7 @@ JaliGeometry::Point Mesh::side_facet_normal(const int sideid,
         mid_facet_normal(space_dim_);
     
     compute_side_geometry(sideid, &volume, &outward_facet_normal,
-                          &mid_facet_normal);
+                          &mid_facet_normal, true);
     return outward_facet_normal;
   } else {
     return side_outward_facet_normal[sideid];
@@ -2007,7 +2020,7 @@ JaliGeometry::Point Mesh::wedge_facet_normal(const int wedgeid,
         mid_facet_normal(space_dim_);
         
     compute_side_geometry(sideid, &volume, &outward_facet_normal,
-                          &mid_facet_normal);
+                          &mid_facet_normal, true);
     if (which_facet == 0)
       return outward_facet_normal/2.0;  // wedge facet area = 1/2 side facet
     else
diff --git a/src/mesh/Mesh.hh b/src/mesh/Mesh.hh
index 86795a7..998f35b 100644
--- a/src/mesh/Mesh.hh
+++ b/src/mesh/Mesh.hh
@@ -1293,10 +1293,12 @@ class Mesh {
   void compute_side_geometry(const Entity_ID sideid,
                              double *volume,
                              JaliGeometry::Point *outward_facet_normal,
-                             JaliGeometry::Point *mid_facet_normal) const;
+                             JaliGeometry::Point *mid_facet_normal,
+                             const bool recompute = false) const;
 
   void compute_corner_geometry(const Entity_ID cornerid,
-                              double *volume) const;
+                              double *volume,
+                              const bool recompute = false) const;
 
   void cache_type_info() const;
   void cache_cell2face_info() const;
-- 
2.43.0


From 5071b85f29ab010bac873fe0b22a31c1ca90d88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 38/59] fix: iterating over the state vectors of a kind started
 before the first one

---
 src/statemanager/JaliState.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/statemanager/JaliState.h b/src/statemanager/JaliState.h
index d3ee913..ac21aeb 100644
--- a/src/statemanager/JaliState.h
+++ b/src/statemanager/JaliState.h
@@ -1117,7 +1117,7 @@ class State : public std::enable_shared_from_this<State> {
       // vectors on this entity type with a permutation iterator
 
       int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
+      entity_indexes_[ikind].emplace_back(state_vectors_.size());
       names_.emplace_back(name);
 
       auto vector =
@@ -1171,7 +1171,7 @@ class State : public std::enable_shared_from_this<State> {
       // vectors on this entity type with a permutation iterator
 
       int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
+      entity_indexes_[ikind].emplace_back(state_vectors_.size());
       names_.emplace_back(name);
 
       auto vector =
@@ -1224,7 +1224,7 @@ class State : public std::enable_shared_from_this<State> {
       // vectors on this entity type with a permutation iterator
 
       int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
+      entity_indexes_[ikind].emplace_back(state_vectors_.size());
       names_.emplace_back(name);
 
       auto vector =
-- 
2.43.0


From f48aca4af2d2cdfb104f9aec7142ee126e5d1a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 39/59] fix: vectors copied from another mesh could be added
 twice

---
 src/statemanager/JaliState.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/statemanager/JaliState.h b/src/statemanager/JaliState.h
index ac21aeb..b3c2c47 100644
--- a/src/statemanager/JaliState.h
+++ b/src/statemanager/JaliState.h
@@ -1350,9 +1350,13 @@ class State : public std::enable_shared_from_this<State> {
     Entity_kind kind = in_vec.entity_kind();
     Entity_type type = in_vec.entity_type();
 
-    iterator it = find<T, DomainType, StateVecType>(in_vec.name(),
-                                                    in_vec.domain(), kind,
-                                                    type);
+    // a vector defined on a different mesh is going to live on our mesh
+
+    bool same_mesh = (mymesh_.get() == &(in_vec.mesh()));
+    std::shared_ptr<DomainType> domain = same_mesh ? in_vec.domain() : mymesh_;
+
+    iterator it = find<T, DomainType, StateVecType>(in_vec.name(), domain,
+                                                    kind, type);
     if (it == end()) {
 
       std::shared_ptr<StateVecType<T, DomainType>> vector_copy;
@@ -1360,7 +1364,7 @@ class State : public std::enable_shared_from_this<State> {
       // a search of the state vectors by name and kind of entity turned up
       // empty, so add the vector to the list
 
-      if (mymesh_.get() != &(in_vec.mesh())) {
+      if (!same_mesh) {
 
         // IT HAS BEEN SUGGESTED THAT THIS IS A BAD IDEA TO DO UNDER
         // THE THE HOOD SINCE SOMEONE MIGHT DO IT INADVERTENTLY AND
-- 
2.43.0


From ec7cb314ff3a280f795953de52e384ee121ca22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 40/59] fix: raw data of an empty state vector was taken from
 its missing first element

---
 src/statemanager/JaliState.h       | 2 +-
 src/statemanager/JaliStateVector.h | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/statemanager/JaliState.h b/src/statemanager/JaliState.h
index b3c2c47..3a7f51a 100644
--- a/src/statemanager/JaliState.h
+++ b/src/statemanager/JaliState.h
@@ -1382,7 +1382,7 @@ class State : public std::enable_shared_from_this<State> {
                                                           mymesh_,
                                                           shared_from_this(),
                                                           kind, type,
-                                                          &(in_vec[0]));
+                                                          in_vec.get_raw_data());
       } else {
         vector_copy = std::make_shared<StateVecType<T, DomainType>>(in_vec);
       }
diff --git a/src/statemanager/JaliStateVector.h b/src/statemanager/JaliStateVector.h
index 87936c8..8fb58a6 100644
--- a/src/statemanager/JaliStateVector.h
+++ b/src/statemanager/JaliStateVector.h
@@ -384,11 +384,11 @@ class UniStateVector : public UniStateVectorBase<DomainType> {
 
   /// Get the raw data
 
-  T *get_raw_data() { return &((*mydata_)[0]); }
+  T *get_raw_data() { return mydata_->data(); }
 
   /// Get the raw data
 
-  T const *get_raw_data() const { return &((*mydata_)[0]); }
+  T const *get_raw_data() const { return mydata_->data(); }
 
   /// Get a shared pointer to the data
 
@@ -824,11 +824,11 @@ class MultiStateVector : public MultiStateVectorBase<DomainType> {
 
   /// Get the raw data for a material
 
-  T *get_raw_data(int m) { return &((*mydata_)[m][0]); }
+  T *get_raw_data(int m) { return (*mydata_)[m].data(); }
 
   /// Get the raw data for a material
 
-  T const *get_raw_data(int m) const { return &((*mydata_)[m][0]); }
+  T const *get_raw_data(int m) const { return (*mydata_)[m].data(); }
 
   /// Get a shared ptr to the data
 
-- 
2.43.0


From f23aeca7e9065153fc0716278d73234c2677d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 41/59] fix: removing a material corrupted the lists of
 materials of the cells

---
 src/statemanager/JaliState.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 2b3ef75..4963deb 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -46,6 +46,7 @@
 
 */
 
+#include <algorithm>
 #include <cassert>
 #include <memory>
 
@@ -97,17 +98,18 @@ void State::add_material(std::string const& matname,
 
 // Remove material from the state -- EXPENSIVE (CAN JUST MAKE SET EMPTY)
 void State::rem_material(int m) {
-  if (m >= material_cellsets_.size())
+  if (m < 0 || m >= num_materials())
     return;
 
   std::shared_ptr<MeshSet> matset = material_cellsets_[m];
   if (!matset) return;
 
-  for (auto const& c : material_cellsets_[m]->entities()) {
-    int nmats = cell_materials_[c].size();
-    for (int i = 0; i < nmats; i++)
-      if (m == cell_materials_[c][i])
-        cell_materials_[c].erase(cell_materials_[c].begin()+i);
+  // Drop the material from the cells; the materials after it move down by one
+  for (auto & cellmats : cell_materials_) {
+    cellmats.erase(std::remove(cellmats.begin(), cellmats.end(), m),
+                   cellmats.end());
+    for (auto & m2 : cellmats)
+      if (m2 > m) m2--;
   }
 
   material_cellsets_.erase(material_cellsets_.begin()+m);
-- 
2.43.0


From 960f8513d786fb99f15a00927250b6ad491a2a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 42/59] fix: cells given twice or already in a material were
 added to it again

---
 src/statemanager/JaliState.cc | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 4963deb..f7e972a 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -49,12 +49,30 @@
 #include <algorithm>
 #include <cassert>
 #include <memory>
+#include <set>
 
 #include "JaliState.h"
 #include "JaliStateVector.h"
 
 namespace Jali {
 
+namespace {
+
+// Cells of a list that are not in a set, each of them once (MeshSets do
+// not check for duplicates)
+
+std::vector<int> cells_not_in_set(std::vector<int> const& cells,
+                                  MeshSet const& mset) {
+  std::set<int> present(mset.entities().begin(), mset.entities().end());
+  std::vector<int> newcells;
+  for (auto const& c : cells)
+    if (present.insert(c).second)
+      newcells.push_back(c);
+  return newcells;
+}
+
+}  // namespace
+
 // Add new material to the state
 
 void State::add_material(std::string const& matname,
@@ -76,7 +94,9 @@ void State::add_material(std::string const& matname,
                           owned_entities, ghost_entities, with_reverse_map);
   }
 
-  matset->add_entities(matcells);
+  // The set may have cells already - all cells of the set are cells of
+  // the material
+  matset->add_entities(cells_not_in_set(matcells, *matset));
 
   material_cellsets_.push_back(matset);
 
@@ -84,14 +104,14 @@ void State::add_material(std::string const& matname,
   if (cell_materials_.size() == 0)
     cell_materials_.resize(mymesh_->num_entities(Jali::Entity_kind::CELL,
                                                  Jali::Entity_type::ALL));
-  for (auto const& c : matcells)
+  for (auto const& c : matset->entities())
     cell_materials_[c].push_back(matid);
 
   // GO TO EACH MMStateVector AND ADD ENTRIES FOR THIS MATERIAL
   for (auto &sv : state_vectors_) {
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      if (mv) mv->add_material(matcells.size());
+      if (mv) mv->add_material(matset->num_entities());
     }
   }
 }
@@ -127,16 +147,17 @@ void State::rem_material(int m) {
 
 void State::add_cells_to_material(int m, std::vector<int> const& cells) {
   assert(m < material_cellsets_.size());
-  material_cellsets_[m]->add_entities(cells);
+  std::vector<int> newcells = cells_not_in_set(cells, *material_cellsets_[m]);
+  material_cellsets_[m]->add_entities(newcells);
 
-  for (auto const& c : cells)
+  for (auto const& c : newcells)
     cell_materials_[c].push_back(m);
 
   for (auto & sv : state_vectors_) {
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
       int size = mv->size(m);
-      mv->resize(m, size+cells.size());
+      mv->resize(m, size+newcells.size());
     }
   }
 }
-- 
2.43.0


From fab37601188fa8f87f2bccf44f7a6b05d3515030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 43/59] fix: adding owned cells to a material shifted the
 values of its ghost cells

---
 src/statemanager/JaliState.cc      | 10 ++++++++--
 src/statemanager/JaliStateVector.h |  8 ++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index f7e972a..4144995 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -148,7 +148,12 @@ void State::rem_material(int m) {
 void State::add_cells_to_material(int m, std::vector<int> const& cells) {
   assert(m < material_cellsets_.size());
   std::vector<int> newcells = cells_not_in_set(cells, *material_cellsets_[m]);
+  int nowned_old =
+      material_cellsets_[m]->num_entities(Entity_type::PARALLEL_OWNED);
   material_cellsets_[m]->add_entities(newcells);
+  int nowned_new =
+      material_cellsets_[m]->num_entities(Entity_type::PARALLEL_OWNED) -
+      nowned_old;
 
   for (auto const& c : newcells)
     cell_materials_[c].push_back(m);
@@ -156,8 +161,9 @@ void State::add_cells_to_material(int m, std::vector<int> const& cells) {
   for (auto & sv : state_vectors_) {
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      int size = mv->size(m);
-      mv->resize(m, size+newcells.size());
+      // new owned cells go before the ghost cells, new ghost cells at the end
+      mv->insert(m, nowned_old, nowned_new);
+      mv->resize(m, material_cellsets_[m]->num_entities());
     }
   }
 }
diff --git a/src/statemanager/JaliStateVector.h b/src/statemanager/JaliStateVector.h
index 8fb58a6..14ebcab 100644
--- a/src/statemanager/JaliStateVector.h
+++ b/src/statemanager/JaliStateVector.h
@@ -560,6 +560,9 @@ class MultiStateVectorBase : public StateVectorBase {
   /// Resize a particular material array
   virtual void resize(int m, size_t newsize) = 0;
 
+  /// Insert new elements into a particular material array before element pos
+  virtual void insert(int m, size_t pos, size_t num) = 0;
+
   /// Clear out all the data
   virtual void clear() = 0;
 
@@ -942,6 +945,11 @@ class MultiStateVector : public MultiStateVectorBase<DomainType> {
     (*mydata_)[m].resize(newsize, val);
   }
 
+  /// Insert new elements into a particular material array before element pos
+  void insert(int m, size_t pos, size_t num) {
+    (*mydata_)[m].insert((*mydata_)[m].begin()+pos, num, T());
+  }
+
   /// Clear out all the data
   void clear() { mydata_->clear(); }
 
-- 
2.43.0


From e72419c59254bbb4eb1bd3f4cb2c3d4ff69b7f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 44/59] fix: multi-material vectors on tiles did not follow
 changes of the materials

---
 src/statemanager/JaliState.cc | 41 ++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 4144995..48dfbe2 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -71,6 +71,32 @@ std::vector<int> cells_not_in_set(std::vector<int> const& cells,
   return newcells;
 }
 
+// Functions to update a multi-material vector that lives on a particular
+// type of domain (nothing is done to other vectors)
+
+template <class DomainType>
+void add_material_to_vector(std::shared_ptr<StateVectorBase> sv, int ncells) {
+  auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<DomainType>>(sv);
+  if (mv) mv->add_material(ncells);
+}
+
+template <class DomainType>
+void rem_material_from_vector(std::shared_ptr<StateVectorBase> sv, int m) {
+  auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<DomainType>>(sv);
+  if (mv) mv->rem_material(m);
+}
+
+template <class DomainType>
+void add_cells_to_vector(std::shared_ptr<StateVectorBase> sv, int m,
+                         int nowned_old, int nowned_new, int ncells) {
+  auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<DomainType>>(sv);
+  if (mv) {
+    // new owned cells go before the ghost cells, new ghost cells at the end
+    mv->insert(m, nowned_old, nowned_new);
+    mv->resize(m, ncells);
+  }
+}
+
 }  // namespace
 
 // Add new material to the state
@@ -110,8 +136,8 @@ void State::add_material(std::string const& matname,
   // GO TO EACH MMStateVector AND ADD ENTRIES FOR THIS MATERIAL
   for (auto &sv : state_vectors_) {
     if (sv->type() == StateVector_type::MULTIVAL) {
-      auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      if (mv) mv->add_material(matset->num_entities());
+      add_material_to_vector<Mesh>(sv, matset->num_entities());
+      add_material_to_vector<MeshTile>(sv, matset->num_entities());
     }
   }
 }
@@ -137,8 +163,8 @@ void State::rem_material(int m) {
   // GO TO EACH MMStateVector AND REMOVE ENTRIES FOR THIS MATERIAL
   for (auto &sv : state_vectors_) {
     if (sv->type() == StateVector_type::MULTIVAL) {
-      auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      if (mv) mv->rem_material(m);
+      rem_material_from_vector<Mesh>(sv, m);
+      rem_material_from_vector<MeshTile>(sv, m);
     }
   }
 }
@@ -160,10 +186,9 @@ void State::add_cells_to_material(int m, std::vector<int> const& cells) {
 
   for (auto & sv : state_vectors_) {
     if (sv->type() == StateVector_type::MULTIVAL) {
-      auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      // new owned cells go before the ghost cells, new ghost cells at the end
-      mv->insert(m, nowned_old, nowned_new);
-      mv->resize(m, material_cellsets_[m]->num_entities());
+      int ncells = material_cellsets_[m]->num_entities();
+      add_cells_to_vector<Mesh>(sv, m, nowned_old, nowned_new, ncells);
+      add_cells_to_vector<MeshTile>(sv, m, nowned_old, nowned_new, ncells);
     }
   }
 }
-- 
2.43.0


From cd7890146be2e911ce3fdfd0794a387decad0846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 45/59] fix: mesh fields that could not be retrieved were
 imported as uninitialised vectors

---
 src/statemanager/JaliState.cc | 36 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 48dfbe2..759222f 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -233,37 +233,37 @@ void State::init_from_mesh() {
     for (int i = 0; i < num; i++) {
       if (vartypes[i] == "INT") {
         int *data = new int[nent];
-        mymesh_->get_field(varnames[i], kind, data);
-        // UniStateVector<int, Mesh> & sv =
-        add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
+        if (mymesh_->get_field(varnames[i], kind, data))
+          // UniStateVector<int, Mesh> & sv =
+          add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
       } else if (vartypes[i] == "DOUBLE") {
         double *data = new double[nent];
-        mymesh_->get_field(varnames[i], kind, data);
-        // UniStateVector<double, Mesh> & sv =
-        add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
+        if (mymesh_->get_field(varnames[i], kind, data))
+          // UniStateVector<double, Mesh> & sv =
+          add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
       } else if (vartypes[i] == "VECTOR") {
         if (spacedim == 2) {
           std::array<double, 2> *data = new std::array<double, 2>[nent];
-          mymesh_->get_field(varnames[i], kind, data);
-          // UniStateVector<std::array<double, 2>, Mesh> & sv =
-          add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
+          if (mymesh_->get_field(varnames[i], kind, data))
+            // UniStateVector<std::array<double, 2>, Mesh> & sv =
+            add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
         } else if (spacedim == 3) {
           std::array<double, 3> *data = new std::array<double, 3>[nent];
-          mymesh_->get_field(varnames[i], kind, data);
-          // UniStateVector<std::array<double, 3>, Mesh> & sv =
-          add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
+          if (mymesh_->get_field(varnames[i], kind, data))
+            // UniStateVector<std::array<double, 3>, Mesh> & sv =
+            add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
         }
       } else if (vartypes[i] == "TENSOR") {  // assumes symmetric tensors
         if (spacedim == 2) {  // lower half & diagonal of 2x2 tensor
           std::array<double, 3> *data = new std::array<double, 3>[nent];
-          mymesh_->get_field(varnames[i], kind, data);
-          // UniStateVector<std::array<double, 3>, Mesh> & sv =
-          add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
+          if (mymesh_->get_field(varnames[i], kind, data))
+            // UniStateVector<std::array<double, 3>, Mesh> & sv =
+            add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
         } else if (spacedim == 3) {  // lower half & diagonal of 3x3 tensor
           std::array<double, 6> *data = new std::array<double, 6>[nent];
-          mymesh_->get_field(varnames[i], kind, data);
-          // UniStateVector<std::array<double, 6>, Mesh> & sv =
-          add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
+          if (mymesh_->get_field(varnames[i], kind, data))
+            // UniStateVector<std::array<double, 6>, Mesh> & sv =
+            add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
         }
       }  // TENSOR
     }  // for each field on entity kind
-- 
2.43.0


From f447c8ec513ee163fd4102b0d551330639b3b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:54 +0000
Subject: [PATCH 46/59] fix: exporting vectors on tiles or on part of the mesh
 read invalid or missing data

---
 src/statemanager/JaliState.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 759222f..fc58b33 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -287,26 +287,35 @@ void State::export_to_mesh() {
     Entity_kind entity_kind = vec->entity_kind();
     bool status = false;
 
+    // The mesh reads one value for each of its entities of this kind, so vectors
+    // on part of the mesh (tiles, only owned entities etc) cannot be stored
+    int nent = mymesh_->num_entities(entity_kind, Entity_type::ALL);
+
     // We only know how to store univalued data with the mesh
     if (vec->type() == StateVector_type::UNIVAL) {
       if (vec->data_type() == typeid(double)) {
         auto svec = std::dynamic_pointer_cast<UniStateVector<double>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
+        if (svec && svec->size() == nent)
+          status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
       } else if (vec->data_type() == typeid(int)) {
         auto svec = std::dynamic_pointer_cast<UniStateVector<int>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
+        if (svec && svec->size() == nent)
+          status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
       } else if (vec->data_type() == typeid(std::array<double, 2>)) {
         auto svec =
             std::dynamic_pointer_cast<UniStateVector<std::array<double, 2>>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
+        if (svec && svec->size() == nent)
+          status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
       } else if (vec->data_type() == typeid(std::array<double, 3>)) {
         auto svec =
             std::dynamic_pointer_cast<UniStateVector<std::array<double, 3>>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
+        if (svec && svec->size() == nent)
+          status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
       } else if (vec->data_type() == typeid(std::array<double, 6>)) {
         auto svec =
             std::dynamic_pointer_cast<UniStateVector<std::array<double, 6>>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
+        if (svec && svec->size() == nent)
+          status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
       }
     }
 
-- 
2.43.0


From c97573446def16210c724edeff26330b711c8b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 47/59] fix: resetting the options of the mesh factory did not
 reset the request for sides

---
 src/mesh/mesh_factory/MeshFactory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index e11fb87..11bd2da 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -151,6 +151,7 @@ void MeshFactory::reset_options(void) {
   request_edges_ = request_edges_default_;
   request_faces_ = request_faces_default_;
   request_cells_ = request_cells_default_;
+  request_sides_ = request_sides_default_;
   request_wedges_ = request_wedges_default_;
   request_corners_ = request_corners_default_;
 
-- 
2.43.0


From 656e863e163d97cf19df568b71eea2b019ccdf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 48/59] fix: 1D meshes generated by number of cells lacked the
 last cell

---
 src/mesh/mesh_factory/MeshFactory.hh | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mesh/mesh_factory/MeshFactory.hh b/src/mesh/mesh_factory/MeshFactory.hh
index 03df426..c4174da 100644
--- a/src/mesh/mesh_factory/MeshFactory.hh
+++ b/src/mesh/mesh_factory/MeshFactory.hh
@@ -336,13 +336,12 @@ class MeshFactory {
   std::shared_ptr<Mesh> operator() (double const x0, double const x1,
                                     int const nx) {
     double dX = (x1-x0)/((double)nx);
-    double myX = x0;
 
-    std::vector<double> x(nx);
-    for (auto it = x.begin(); it != x.end(); it++) {
-      *it = myX;
-      myX += dX;
-    }
+    // nx cells have nx+1 nodes
+    std::vector<double> x(nx > 0 ? nx+1 : 0);
+    for (int i = 0; i < nx; i++)
+      x[i] = x0 + i*dX;
+    if (nx > 0) x[nx] = x1;
 
     return create(x);
   }
-- 
2.43.0


From f1984428d9f83e496ed98d760c5b7b01db78b432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 49/59] fix: 1D meshes ignored the geometric model they were
 given

---
 src/mesh/mesh_simple/Mesh_simple.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index 5b3d4df..d672539 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -148,6 +148,8 @@ Mesh_simple::Mesh_simple(const std::vector<double>& x,
        partitioner, geom_type, mycomm) {
   set_space_dimension(1);
   set_manifold_dimension(1);
+  if (gm != (JaliGeometry::GeometricModelPtr) NULL)
+    Mesh::set_geometric_model(gm);
 
   assert(!boundary_ghosts_requested);  // Cannot yet make boundary ghosts
 
-- 
2.43.0


From b5aa8e1fb4bac12afd0200081141321bcd13b4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 50/59] fix: a geometric model of the wrong dimension on some
 ranks left the other ranks waiting

---
 src/mesh/mesh_factory/MeshFactory.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index 11bd2da..f048fcd 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -259,9 +259,11 @@ MeshFactory::create(double const x0, double const y0, double const z0,
   int ierr = 0, aerr = 0;
 
   if (geometric_model_ && (geometric_model_->dimension() != 3)) {
-    Errors::Message mesg("Geometric model and mesh dimension do not match");
-    Exceptions::Jali_throw(mesg);
+    ierr = 1;
+    errmsg.add_data("Geometric model and mesh dimension do not match");
   }
+  MPI_Allreduce(&ierr, &aerr, 1, MPI_INT, MPI_SUM, comm_);
+  if (aerr > 0) Exceptions::Jali_throw(errmsg);
 
   if (nx <= 0 || ny <= 0 || nz <= 0) {
     ierr = 1;
@@ -363,9 +365,11 @@ MeshFactory::create(double const x0, double const y0,
   int ierr = 0, aerr = 0;
 
   if (geometric_model_ && (geometric_model_->dimension() != 2)) {
-    Errors::Message mesg("Geometric model and mesh dimension do not match");
-    Exceptions::Jali_throw(mesg);
+    ierr = 1;
+    errmsg.add_data("Geometric model and mesh dimension do not match");
   }
+  MPI_Allreduce(&ierr, &aerr, 1, MPI_INT, MPI_SUM, comm_);
+  if (aerr > 0) Exceptions::Jali_throw(errmsg);
 
   if (nx <= 0 || ny <= 0) {
     ierr = 1;
-- 
2.43.0


From b6c151c4d8a228a500b11b59b38cb6680e58ea15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 51/59] fix: asking for a 2D mesh from a framework that is not
 built in returned no mesh and no error

---
 src/mesh/mesh_factory/MeshFactory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index f048fcd..5023916 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -433,6 +433,7 @@ MeshFactory::create(double const x0, double const y0,
       }
 #endif
       default: {
+        ierr = 1;
         errmsg.add_data("Chosen framework cannnot generate meshes");        
       }
     }
-- 
2.43.0


From d0db9f844228528b18cdba2f0e9dff28e823e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 52/59] fix: mesh creation that failed on some ranks left these
 waiting for the ranks where it succeeded

---
 src/mesh/mesh_factory/MeshFactory.cc | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index 5023916..efc5d9a 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -212,7 +212,6 @@ MeshFactory::create(std::string const& filename) {
           errmsg.add_data("Geometric model and mesh dimension do not match");
           Exceptions::Jali_throw(errmsg);
         }
-        return result;
         break;
       }
 #endif
@@ -231,7 +230,7 @@ MeshFactory::create(std::string const& filename) {
   }
   MPI_Allreduce(&ierr, &aerr, 1, MPI_INT, MPI_SUM, comm_);
   if (aerr > 0) Exceptions::Jali_throw(errmsg);
-  return nullptr;
+  return result;
 }
 
 /**
@@ -302,7 +301,6 @@ MeshFactory::create(double const x0, double const y0, double const z0,
                                             num_ghost_layers_distmesh_,
                                             request_boundary_ghosts_,
                                             partitioner_);
-          return result;
         }
         else {
           ierr = 1;
@@ -322,7 +320,7 @@ MeshFactory::create(double const x0, double const y0, double const z0,
                                         num_ghost_layers_distmesh_,
                                         request_boundary_ghosts_,
                                         partitioner_, contiguous_gids_);
-        return result;
+        break;
       }
 #endif
       default:
@@ -339,7 +337,7 @@ MeshFactory::create(double const x0, double const y0, double const z0,
   }
   MPI_Allreduce(&ierr, &aerr, 1, MPI_INT, MPI_SUM, comm_);
   if (aerr > 0) Exceptions::Jali_throw(errmsg);
-  return nullptr;
+  return result;
 }
 
 
@@ -409,7 +407,6 @@ MeshFactory::create(double const x0, double const y0,
                                             num_ghost_layers_distmesh_,
                                             request_boundary_ghosts_,
                                             partitioner_, geom_type_);
-          return result;
         } else {
           ierr = 1;
           errmsg.add_data("Simple framework cannot generate mesh in parallel");
@@ -429,7 +426,7 @@ MeshFactory::create(double const x0, double const y0,
                                         request_boundary_ghosts_,
                                         partitioner_, contiguous_gids_,
                                         geom_type_);
-        return result;
+        break;
       }
 #endif
       default: {
@@ -447,7 +444,7 @@ MeshFactory::create(double const x0, double const y0,
   }
   MPI_Allreduce(&ierr, &aerr, 1, MPI_INT, MPI_SUM, comm_);
   if (aerr > 0) Exceptions::Jali_throw(errmsg);
-  return nullptr;
+  return result;
 }
 
 
@@ -506,7 +503,6 @@ MeshFactory::create(std::vector<double> const& x) {
                                             num_ghost_layers_distmesh_,
                                             request_boundary_ghosts_,
                                             partitioner_, geom_type_);
-          return result;
         } else {
           ierr = 1;
           errmsg.add_data("Simple framework cannot generate parallel 1D mesh");
@@ -528,7 +524,7 @@ MeshFactory::create(std::vector<double> const& x) {
   }
   MPI_Allreduce(&ierr, &aerr, 1, MPI_INT, MPI_SUM, comm_);
   if (aerr > 0) Exceptions::Jali_throw(errmsg);
-  return nullptr;
+  return result;
 }
 
 /**
@@ -575,7 +571,7 @@ MeshFactory::create(std::shared_ptr<Mesh> const inmesh,
                                         partitioner_,
                                         contiguous_gids_,
                                         geom_type_);
-        return result;
+        break;
       }
 #endif
       default: {
@@ -593,7 +589,7 @@ MeshFactory::create(std::shared_ptr<Mesh> const inmesh,
   }
   MPI_Allreduce(&ierr, &aerr, 1, MPI_INT, MPI_SUM, comm_);
   if (aerr > 0) Exceptions::Jali_throw(errmsg);
-  return nullptr;
+  return result;
 }
 
 }  // namespace Jali
-- 
2.43.0


From 6cd0c1247e933bbd68ad38828cb19c4c556846a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 53/59] fix: the MSTK framework was reported available and
 accepted when it is not built in

---
 src/mesh/mesh_factory/MeshFactory.cc | 14 ++++++++++----
 src/mesh/mesh_factory/MeshFactory.hh |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index efc5d9a..9872f33 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -90,10 +90,16 @@ std::string framework_name(MeshFramework_t const& f) {
 
 /// Check if a framework is available for use
 bool framework_available(MeshFramework_t const& f) {
-  if (f == Simple || f == MSTK)
-    return true;
-  else
-    return false;
+  switch (f) {
+    case Simple:
+      return true;
+#ifdef HAVE_MSTK_MESH
+    case MSTK:
+      return true;
+#endif
+    default:
+      return false;
+  }
 }
 
 /// Check if a framework can generate a mesh
diff --git a/src/mesh/mesh_factory/MeshFactory.hh b/src/mesh/mesh_factory/MeshFactory.hh
index c4174da..a62d7d4 100644
--- a/src/mesh/mesh_factory/MeshFactory.hh
+++ b/src/mesh/mesh_factory/MeshFactory.hh
@@ -131,7 +131,7 @@ class MeshFactory {
 
   /// Set the framework to use
   void framework(MeshFramework_t const& framework) {
-    if (framework == Simple || framework == MSTK) {
+    if (framework_available(framework)) {
       framework_ = framework;
     } else {
       std::stringstream mesgstrm;
-- 
2.43.0


From 78df7c932437a92bfa17ba679e4f4a4c7fb755e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:56 +0000
Subject: [PATCH 54/59] fix: block partitioning into more blocks than there are
 cells never ended

---
 src/mesh/Mesh.cc            | 17 ++++++++++++-----
 src/mesh/block_partition.cc |  8 ++++++--
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index f26642e..99c1f9a 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3385,17 +3385,24 @@ void Mesh::get_partitioning_by_blocks(int const num_parts,
   std::vector<std::array<int, 3>> block_start_indices;
   std::vector<std::array<int, 3>> block_num_cells;
   std::array<double, 6> iarray0 = {0.0, 0.0, 0.0, 0.0, 0.0, 0.0};
-  std::vector<std::array<double, 6>> blocklimits(num_parts, iarray0);
+
+  // There cannot be more blocks than cells - any parts beyond that stay empty
+
+  int ncells_total = 1;
+  for (int d = 0; d < space_dim_; d++)
+    ncells_total *= num_cells_in_dir[d];
+  int const num_blocks = std::min(num_parts, ncells_total);
+  std::vector<std::array<double, 6>> blocklimits(num_blocks, iarray0);
 
   block_partition_regular_mesh(space_dim_, &(domainlimits[0]),
-                               &(num_cells_in_dir[0]), num_parts,
+                               &(num_cells_in_dir[0]), num_blocks,
                                &block_start_indices, &block_num_cells);
   
   std::array<double, 3> szdelta;
   for (int d = 0; d < space_dim_; d++)
     szdelta[d] = (domainlimits[2*d+1] - domainlimits[2*d])/num_cells_in_dir[d];
 
-  for (int i = 0; i < num_parts; i++) {
+  for (int i = 0; i < num_blocks; i++) {
     for (int d = 0; d < space_dim_; d++) {
       blocklimits[i][2*d] = domainlimits[2*d] + block_start_indices[i][d]*szdelta[d];
       blocklimits[i][2*d+1] = blocklimits[i][2*d] + block_num_cells[i][d]*szdelta[d];
@@ -3404,7 +3411,7 @@ void Mesh::get_partitioning_by_blocks(int const num_parts,
   
   for (auto const& c : cells<Entity_type::PARALLEL_OWNED>()) {
     JaliGeometry::Point ccen = cell_centroid(c);
-    for (int i = 0; i < num_parts; i++) {
+    for (int i = 0; i < num_blocks; i++) {
       bool inside = true;
       for (int d = 0; d < space_dim_; d++) {
         inside = (blocklimits[i][2*d] < ccen[d] &&
@@ -3421,7 +3428,7 @@ void Mesh::get_partitioning_by_blocks(int const num_parts,
   // Sanity check - make sure each block got the number of cells it
   // was supposed to
 
-  for (int i = 0; i < num_parts; i++) {
+  for (int i = 0; i < num_blocks; i++) {
     int expected_count = 1;
     for (int d = 0; d < space_dim_; d++)
       expected_count *= block_num_cells[i][d];
diff --git a/src/mesh/block_partition.cc b/src/mesh/block_partition.cc
index e4e3bc6..dd960df 100644
--- a/src/mesh/block_partition.cc
+++ b/src/mesh/block_partition.cc
@@ -89,8 +89,12 @@ int block_partition_regular_mesh(int const dim,
   int ncells_total = 1;
   for (int i = 0; i < dim; i++)
     ncells_total *= num_cells_in_dir[i];
-  assert (num_blocks_requested <= ncells_total);
-    
+  if (num_blocks_requested > ncells_total) {  // not enough cells to go around
+    block_start_indices->clear();
+    block_num_cells->clear();
+    return 0;
+  }
+
   
   if (num_blocks_requested > 1) {
     // First try bisection
-- 
2.43.0


From 269d98f91751385293e7c2dedc16f42964da4761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:36 +0000
Subject: [PATCH 55/59] fix: points scaled or set by their own coordinates used
 coordinates already overwritten

---
 src/geometry/Point.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/geometry/Point.hh b/src/geometry/Point.hh
index 75e323f..ffd5a7f 100644
--- a/src/geometry/Point.hh
+++ b/src/geometry/Point.hh
@@ -98,7 +98,7 @@ class Point {
   //    xyz[0] = xyz[1] = xyz[2] = 0.0;
   //  }
 
-  void set(const double& val) {
+  void set(const double val) {
     assert(this);
     assert(d > 0);
     for (int i = 0; i < d; i++) xyz[i] = val;
@@ -117,12 +117,12 @@ class Point {
     d = N;
     std::copy(val, val+d, xyz);
   }
-  void set(const double& x, const double& y) {
+  void set(const double x, const double y) {
     d = 2;
     xyz[0] = x;
     xyz[1] = y;
   }
-  void set(const double& x, const double& y, const double& z) {
+  void set(const double x, const double y, const double z) {
     d = 3;
     xyz[0] = x;
     xyz[1] = y;
@@ -156,11 +156,11 @@ class Point {
     for (int i = 0; i < d; i++) xyz[i] -= p[i];
     return *this;
   }
-  Point& operator*=(const double& c) {
+  Point& operator*=(const double c) {
     for (int i = 0; i < d; i++) xyz[i] *= c;
     return *this;
   }
-  Point& operator/=(const double& c) {
+  Point& operator/=(const double c) {
     for (int i = 0; i < d; i++) xyz[i] /= c;
     return *this;
   }
-- 
2.43.0


From b1947c0e4785bf5d86f53ea7d9b65fd83dcfcf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:48 +0000
Subject: [PATCH 56/59] fix: block partitioning of a mesh far from the origin
 put no cell in any part

The test for the high boundary compared coordinates with an absolute tolerance
of 1e-12, which rounding of the face centroids exceeds when the coordinates are
large; make the tolerance relative to the extent of the domain.
---
 src/mesh/Mesh.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 99c1f9a..6d0668c 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3355,7 +3355,8 @@ void Mesh::get_partitioning_by_blocks(int const num_parts,
             // boundary
 
             JaliGeometry::Point fcen = face_centroid(f);
-            if (fabs(fcen[d]-domainlimits[2*d+1]) < 1.0e-12) {
+            double const extent = domainlimits[2*d+1] - domainlimits[2*d];
+            if (fabs(fcen[d]-domainlimits[2*d+1]) < 1.0e-06*extent) {
               done = 1;
               break;
             } else {
-- 
2.43.0


From 9fccb946417eb73ac4b0f78c29199c6a89978384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:41 +0000
Subject: [PATCH 57/59] fix: count the cells of a large grid without
 overflowing an int

block_partition_regular_mesh multiplied the cells per direction in an int, so
that grids of 2^31 or more cells were refused (or passed the check with a
meaningless count).
---
 src/mesh/block_partition.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/block_partition.cc b/src/mesh/block_partition.cc
index dd960df..08f168d 100644
--- a/src/mesh/block_partition.cc
+++ b/src/mesh/block_partition.cc
@@ -86,7 +86,7 @@ int block_partition_regular_mesh(int const dim,
   for (int i = 0; i < dim; i++)
     nblockcells_in_dir[i] = num_cells_in_dir[i];
 
-  int ncells_total = 1;
+  long long ncells_total = 1;  // can exceed the range of int
   for (int i = 0; i < dim; i++)
     ncells_total *= num_cells_in_dir[i];
   if (num_blocks_requested > ncells_total) {  // not enough cells to go around
-- 
2.43.0


From 5b50c4c43cd5945983d907dcba356d9a75134724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:07 +0000
Subject: [PATCH 58/59] fix: block partitioning of a mesh with cells smaller
 than 1e-10 started from a wrong cell

---
 src/mesh/Mesh.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 6d0668c..f636a4f 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3297,8 +3297,11 @@ void Mesh::get_partitioning_by_blocks(int const num_parts,
     cell_get_coordinates(c, &cellpnts);
     for (auto const& p : cellpnts) {
       double dist = 0.0;
-      for (int d = 0; d < space_dim_; d++)
-        dist += (domainlimits[2*d] - p[d])*(domainlimits[2*d] - p[d]);
+      for (int d = 0; d < space_dim_; d++) {  // relative to the domain size
+        double const reldist = (p[d] - domainlimits[2*d]) /
+            (domainlimits[2*d+1] - domainlimits[2*d]);
+        dist += reldist*reldist;
+      }
       if (dist < 1.0e-20) {
         found = true;
         c0 = c;
-- 
2.43.0


From 8a0ab28b81ce66309e31332266b8e1e8a23f0758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:35 +0000
Subject: [PATCH 59/59] fix: MeshSet::rem_entities given one of the set's own
 lists must remove all of it

---
 src/mesh/MeshSet.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index efb44da..ec1d815 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -179,7 +179,8 @@ void MeshSet::rem_entities(std::vector<Entity_ID> const& in_entities) {
   // of the rest so that entityids_all continues to have the owned
   // entities first and the ghost entities last
 
-  for (auto const& mesh_entity : in_entities) {
+  std::vector<Entity_ID> const ents = in_entities;  // may be one of our lists
+  for (auto const& mesh_entity : ents) {
     bool found = false;
     for (auto list : {&entityids_owned_, &entityids_ghost_, &entityids_all_}) {
       auto it = std::find(list->begin(), list->end(), mesh_entity);
-- 
2.43.0

