From cbd3e9162ec3d58f618a2f4650e6e43d7d0f3150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:44 +0000
Subject: [PATCH 01/50] fix: keep edge markers on their edges when a listed
 boundary is re-oriented

---
 src/algorithm/Boundary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/Boundary.h b/src/algorithm/Boundary.h
index fb168cb..1c1035a 100644
--- a/src/algorithm/Boundary.h
+++ b/src/algorithm/Boundary.h
@@ -363,7 +363,7 @@ private:
       for (int i = N-1; i >= 0; --i)
       {
         int j = MOD(i+1, N);
-        add_edge( *new_verts[j], *new_verts[i], e_colors[j] );
+        add_edge( *new_verts[j], *new_verts[i], e_colors[i] );
       }
     }
   };
-- 
2.43.0


From 885e57daa4d09be5d015bf1b4497a319dc5c0e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:48 +0000
Subject: [PATCH 02/50] fix: determine the side of a facet from its vertex
 order, not its centroid

The centroid of a concave quad (tri2quad creates them) may be located on
the other side of one of its edges, which left such edges with a wrong
pair of adjacent facets.
---
 src/algorithm/MeshCleanup.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index a98a48e..535093f 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -131,7 +131,7 @@ public:
       {
         f1->neighbor( idx1, f2 );
 
-        if ( is_left( v1.xy(), v2.xy(), f1->xy() ) )
+        if ( is_left_of_edge( *f1, v1, v2 ) )
           e_ptr->facet_l( f1 );
         else
           e_ptr->facet_r( f1 );
@@ -141,7 +141,7 @@ public:
       {
         f2->neighbor( idx2, f1 );
 
-        if ( is_left( v1.xy(), v2.xy(), f2->xy() ) )
+        if ( is_left_of_edge( *f2, v1, v2 ) )
           e_ptr->facet_l( f2 );
         else
           e_ptr->facet_r( f2 );
@@ -171,7 +171,7 @@ public:
         continue;
 
       // Setup connectivity between boundary edge and facet
-      if ( is_left( v1.xy(), v2.xy(), f1->xy() ) )
+      if ( is_left_of_edge( *f1, v1, v2 ) )
         e_ptr->facet_l( f1 );
       else
         ASSERT(false, "Invalid mesh boundary edge");
@@ -808,6 +808,22 @@ public:
   } // merge_triangles_to_quads()
 
 private:
+  /*------------------------------------------------------------------
+  | Facets are oriented counter-clockwise. Hence, a facet is located 
+  | to the left of an edge (v1,v2), if it passes v1 and v2 in this 
+  | order. This does also hold for concave quads, whose centroid may
+  | be located on the other side of one of their edges.
+  ------------------------------------------------------------------*/
+  static inline bool is_left_of_edge(const Facet& f, 
+                                     const Vertex& v1, 
+                                     const Vertex& v2)
+  {
+    const int i1 = f.get_vertex_index( v1 );
+    const int i2 = f.get_vertex_index( v2 );
+
+    return i2 == MOD( i1 + 1, static_cast<int>(f.n_vertices()) );
+  }
+
   /*------------------------------------------------------------------
   | We hide the constructor, since this class acts only as container
   | for static inline functions
-- 
2.43.0


From 0b883b9d65d2229588160b807393d26238203e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:48 +0000
Subject: [PATCH 03/50] fix: place the inner vertex of a refined concave quad
 inside of the quad

The centroid of a concave quad may be located outside of it, in which case
the refinement created inverted or self-intersecting elements.
---
 src/algorithm/RefinementStrategy.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/RefinementStrategy.h b/src/algorithm/RefinementStrategy.h
index d9baa2e..df06bc9 100644
--- a/src/algorithm/RefinementStrategy.h
+++ b/src/algorithm/RefinementStrategy.h
@@ -265,7 +265,7 @@ private:
       Vertex* v8 = e71->sub_vertex();
 
       // Create new vertex at center of quad
-      Vertex& v9 = mesh_->add_vertex( q->xy() );
+      Vertex& v9 = mesh_->add_vertex( inner_quad_position(*q) );
 
       v9.add_property( v1.properties() );
       v9.add_property( v3.properties() );
@@ -296,6 +296,27 @@ private:
     }
   }
 
+  /*------------------------------------------------------------------
+  | Returns the position of the new vertex in the interior of a quad. 
+  | The centroid of a concave quad may be located outside of the quad.
+  | In this case, the center of the diagonal that starts at its 
+  | reflex vertex is used, which is always located in the interior.
+  ------------------------------------------------------------------*/
+  Vec2d inner_quad_position(const Quad& q) const
+  {
+    for ( int i = 0; i < 4; ++i )
+    {
+      const Vec2d& u = q.vertex( MOD(i+3, 4) ).xy();
+      const Vec2d& v = q.vertex( i ).xy();
+      const Vec2d& w = q.vertex( MOD(i+1, 4) ).xy();
+
+      if ( cross(v-u, w-v) < 0.0 )
+        return 0.5 * ( v + q.vertex( MOD(i+2, 4) ).xy() );
+    }
+
+    return q.xy();
+  }
+
   /*------------------------------------------------------------------
   | Remove old entities 
   ------------------------------------------------------------------*/
-- 
2.43.0


From fb7ffefea43b991a05006b7d26f7a9452b5b3df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:43 +0000
Subject: [PATCH 04/50] fix: keep fixed vertices when doubled quad or triangle
 edges are cleared

The cleanup that follows tri2quad and the triangulation removed the vertex
between two doubled edges even if it was a fixed vertex of the domain.
---
 src/algorithm/MeshCleanup.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index 535093f..f224e73 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -242,6 +242,10 @@ public:
         Vertex& v3 = q_cur->vertex( MOD(i_vert + 2, 4) );
         Vertex& v4 = q_cur->vertex( MOD(i_vert + 3, 4) );
 
+        // Fixed vertices must remain in the mesh
+        if ( v2.is_fixed() )
+          continue;
+
         // Get the neighboring facets of the current successive
         // quad edges (v1,v2) and (v2,v3)
         int idx_1 = q_cur->get_edge_index(v1, v2);
@@ -453,6 +457,10 @@ public:
         Vertex& v2 = q_cur->vertex( MOD(i_vert + 1, 4) );
         Vertex& v3 = q_cur->vertex( MOD(i_vert + 2, 4) );
 
+        // Fixed vertices must remain in the mesh
+        if ( v2.is_fixed() )
+          continue;
+
         // Get the neighboring facets of the current successive
         // quad edges (v1,v2) and (v2,v3)
         int idx_1 = q_cur->get_edge_index(v1, v2);
-- 
2.43.0


From 674261778b05d2aa24fb071e61916b24e0a076af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:15 +0000
Subject: [PATCH 05/50] fix: do not dereference the base edge of an empty
 advancing front

Generating elements for a mesh that is already filled (by quad layers, or
by a former call) crashed with a null pointer.
---
 src/algorithm/Triangulation.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/Triangulation.h b/src/algorithm/Triangulation.h
index 2c0db33..6d52586 100644
--- a/src/algorithm/Triangulation.h
+++ b/src/algorithm/Triangulation.h
@@ -85,6 +85,10 @@ public:
     // Initialize the advancing front and its base edge
     Edge* base_edge = init_advancing_front();
 
+    // There is nothing left to be meshed
+    if ( !base_edge )
+      return true;
+
     // Remove invalid mesh edges that are no longer needed
     remove_invalid_mesh_edges();
 
-- 
2.43.0


From b472a491e0c2af91465c3bcc0244541f440b0845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:15 +0000
Subject: [PATCH 06/50] fix: check the completeness with the actual area of the
 elements

The accumulated area of the mesh goes out of date when the quad layer
generation shifts vertices, and complete meshes were reported as incomplete.
---
 src/algorithm/MeshChecker.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/MeshChecker.h b/src/algorithm/MeshChecker.h
index 7e09fca..6a26396 100644
--- a/src/algorithm/MeshChecker.h
+++ b/src/algorithm/MeshChecker.h
@@ -61,7 +61,13 @@ public:
     complete &= EntityChecks::check_mesh_validity( *mesh_ );
 
     // Check meshed area 
-    const double mesh_area = mesh_->area();
+    double mesh_area = 0.0;
+
+    for ( const auto& q_ptr : mesh_->quads() )
+      mesh_area += q_ptr->area();
+    for ( const auto& t_ptr : mesh_->triangles() )
+      mesh_area += t_ptr->area();
+
     const double domain_area = domain_->area();
     auto extent = domain_->extent();
     const double scale_x = extent.first[1] - extent.first[0];
-- 
2.43.0


From 03dbdfe474424865fe1d02ef056e778d02e2a664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:15 +0000
Subject: [PATCH 07/50] fix: handle missing front edges in the quad layer
 generation

The generation crashed when the front was exhausted, or when a gap between
two quads had already been closed.
---
 src/algorithm/QuadLayering.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 743eaf5..1c9a911 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -881,6 +881,14 @@ private:
         return;
        
       Edge* base = front_.get_edge( v_b, v_c );
+
+      // This edge may not be part of the advancing front anymore
+      if ( !base )
+      {
+        mesh_.remove_triangle( *t_new );
+        return;
+      }
+
       front_update_.advance_front( *base, v_a, *t_new );
 
       return;
@@ -922,6 +930,10 @@ private:
   bool find_start_and_ending_edges(const Vec2d& xy_start,
                                    const Vec2d& xy_end)
   {
+    // There is nothing left to be meshed
+    if ( front_.size() < 1 )
+      return false;
+
     // Find closest vertices in current front structure to  
     // current start and ending vertex coordinates
     Vertex& v_start = front_.get_closest_vertex( xy_start );
-- 
2.43.0


From 6aa90e80d7c60eb6c1f42864829e3b5f0eb6de33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:15 +0000
Subject: [PATCH 08/50] fix: do not move domain corners during the quad layer
 generation

The start / ending vertex of an open quad layer was shifted along its edge
even if it was a corner of the domain, which altered the meshed domain.
---
 src/algorithm/QuadLayering.h | 45 ++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 1c9a911..0b0d563 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -290,8 +290,11 @@ private:
       Vec2d delta_2 = v1_proj_xy_[0] - v1_base_[0]->xy(); 
       double s = dot(delta_1, delta_2) / delta_1.norm_sqr();
       Vec2d v_prev_new = v1_base_[0]->xy() + delta_1 * s;
-      MeshCleanup::set_vertex_coordinates(v_prev, v_prev_new);
-      v1_proj_xy_[0] = v_prev_new;
+
+      if ( can_be_shifted(v_prev, v_prev_new) )
+        MeshCleanup::set_vertex_coordinates(v_prev, v_prev_new);
+
+      v1_proj_xy_[0] = v_prev.xy();
       return;
     }
 
@@ -415,8 +418,11 @@ private:
       Vec2d delta_2 = v2_proj_xy_.back() - v_end.xy(); 
       double s = dot(delta_1, delta_2) / delta_1.norm_sqr();
       Vec2d v_next_new = v_end.xy() + delta_1 * s;
-      MeshCleanup::set_vertex_coordinates(v_next, v_next_new);
-      v2_proj_xy_.back() = v_next_new;
+
+      if ( can_be_shifted(v_next, v_next_new) )
+        MeshCleanup::set_vertex_coordinates(v_next, v_next_new);
+
+      v2_proj_xy_.back() = v_next.xy();
       return;
     }
 
@@ -475,6 +481,37 @@ private:
 
   } // QuadLayerVertices::place_end_vertex()
 
+  /*------------------------------------------------------------------
+  | Vertices on the boundary of the mesh may only be shifted along a 
+  | straight boundary segment of one color between their two boundary 
+  | neighbors. Otherwise, the meshed domain, its boundary markers or
+  | the conformity to a neighboring mesh would be altered.
+  ------------------------------------------------------------------*/
+  bool can_be_shifted(const Vertex& v, const Vec2d& xy_new) const
+  {
+    const Edge* e_bdry = nullptr;
+
+    for ( const auto& e : v.edges() )
+    {
+      if ( !e->on_boundary() )
+        continue;
+
+      if ( e->twin_edge() || ( e_bdry && e_bdry->color() != e->color() ) )
+        return false;
+
+      e_bdry = e;
+
+      const Vec2d& xy = (e->v1() == v) ? e->v2().xy() : e->v1().xy();
+
+      if ( orientation(xy, v.xy(), xy_new) != Orientation::CL ||
+           dot(xy_new - xy, v.xy() - xy) <= 0.0 )
+        return false;
+    }
+
+    return true;
+
+  } // QuadLayerVertices::can_be_shifted()
+
   /*------------------------------------------------------------------
   | Add a new edge to the quad layer structure
   ------------------------------------------------------------------*/
-- 
2.43.0


From db519581fd27f47633d2ab8252b05ee9c6f0c3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:55 +0000
Subject: [PATCH 09/50] fix: skip vertices that are not enclosed when merging
 degenerate triangles

In an unfinished mesh (n_elements) a vertex may be adjacent to three
triangles and edges without being enclosed by them.
---
 src/algorithm/MeshCleanup.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index f224e73..4aa5146 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -656,13 +656,13 @@ public:
       Edge* e1 = mesh.interior_edges().get_edge(*bad_vertex, v1);
       Edge* e2 = mesh.interior_edges().get_edge(*bad_vertex, v2);
 
-      ASSERT( e0, "Interior edge not defined.\n" );
-      mesh.remove_interior_edge( *e0 );
+      // The triangles do not enclose the vertex (which may be the case 
+      // if the mesh is not finished yet)
+      if ( !e0 || !e1 || !e2 )
+        continue;
 
-      ASSERT( e1, "Interior edge not defined.\n" );
+      mesh.remove_interior_edge( *e0 );
       mesh.remove_interior_edge( *e1 );
-
-      ASSERT( e2, "Interior edge not defined.\n" );
       mesh.remove_interior_edge( *e2 );
 
       // Remove triangles
-- 
2.43.0


From 87c0bde16fe5a1f5ea3aed9d2d5a61e9813b6c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:25 +0000
Subject: [PATCH 10/50] fix: handle both missing front edges when closing a
 quad layer gap

---
 src/algorithm/QuadLayering.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 0b0d563..41187a0 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -942,17 +942,20 @@ private:
     if ( front_update_.remove_from_mesh_if_invalid(v_new, t1_new, t2_new) )
       return;
 
-    Edge* base = nullptr;
+    Edge* base_1 = front_.get_edge( v_a, v_b );
+    Edge* base_2 = front_.get_edge( v_b, v_c );
 
-    base = front_.get_edge( v_a, v_b );
-    ASSERT( base, "QuadLayering::close_quad_layer_gabs(): "
-      "Front data structure seems to be corrupted.");
-    front_update_.advance_front( *base, v_new, t1_new );
+    // These edges may not be part of the advancing front anymore
+    if ( !base_1 || !base_2 )
+    {
+      mesh_.remove_triangle( t1_new );
+      mesh_.remove_triangle( t2_new );
+      mesh_.remove_vertex( v_new );
+      return;
+    }
 
-    base = front_.get_edge( v_b, v_c );
-    ASSERT( base, "QuadLayering::close_quad_layer_gabs(): "
-      "Front data structure seems to be corrupted.");
-    front_update_.advance_front( *base, v_new, t2_new );
+    front_update_.advance_front( *base_1, v_new, t1_new );
+    front_update_.advance_front( *base_2, v_new, t2_new );
 
     return;
 
-- 
2.43.0


From db0fa459cdaf0d616d6c915a4b7649357a696388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:25 +0000
Subject: [PATCH 11/50] fix: do not move fixed vertices during the quad layer
 generation

---
 src/algorithm/QuadLayering.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 41187a0..9241dfc 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -482,6 +482,7 @@ private:
   } // QuadLayerVertices::place_end_vertex()
 
   /*------------------------------------------------------------------
+  | Fixed vertices must not be shifted at all. 
   | Vertices on the boundary of the mesh may only be shifted along a 
   | straight boundary segment of one color between their two boundary 
   | neighbors. Otherwise, the meshed domain, its boundary markers or
@@ -489,6 +490,9 @@ private:
   ------------------------------------------------------------------*/
   bool can_be_shifted(const Vertex& v, const Vec2d& xy_new) const
   {
+    if ( v.is_fixed() )
+      return false;
+
     const Edge* e_bdry = nullptr;
 
     for ( const auto& e : v.edges() )
-- 
2.43.0


From 7f83cba752f54941b27837c5c39a67e71a8d37c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:45 +0000
Subject: [PATCH 12/50] fix: reject inverted quads during smoothing

Only two of the four corners of a quad were considered when the new position
of a vertex was checked, such that a quad could end up inverted.
---
 src/algorithm/SmoothingStrategy.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algorithm/SmoothingStrategy.h b/src/algorithm/SmoothingStrategy.h
index ec3570a..dc2bd23 100644
--- a/src/algorithm/SmoothingStrategy.h
+++ b/src/algorithm/SmoothingStrategy.h
@@ -244,6 +244,9 @@ protected:
           return false;
         if ( orientation(v2, v3, v4) != Orientation::CCW )
           return false;
+        if ( orientation(v3, v4, v1) != Orientation::CCW &&
+             orientation(v4, v1, v2) != Orientation::CCW )
+          return false;
       }
     }
 
-- 
2.43.0


From 691010bc2a8a08fd817f7c2597dd88960f1a4e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:16 +0000
Subject: [PATCH 13/50] fix: move items on the border of a quad tree leaf to
 the leaf they belong to

---
 src/utils/Container.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/Container.h b/src/utils/Container.h
index 1fc3946..d02e957 100644
--- a/src/utils/Container.h
+++ b/src/utils/Container.h
@@ -194,7 +194,8 @@ public:
   {
     auto quad = qtree_.get_leaf( item.xy() );
 
-    if ( in_on_rect(xy_new, quad->lowleft(), quad->upright()) )
+    // Locations on the border of a leaf might belong to its neighbor
+    if ( quad && in_rect(xy_new, quad->lowleft(), quad->upright()) )
     {
       item.xy_ = xy_new;
       return true;
-- 
2.43.0


From 830fab162dcb8fc3ceb30cf66a203679d4168cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:43 +0000
Subject: [PATCH 14/50] fix: find the nearest quad tree item in any distance to
 the query point

---
 src/utils/QuadTree.h | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/utils/QuadTree.h b/src/utils/QuadTree.h
index 31cbb9f..8ba6457 100644
--- a/src/utils/QuadTree.h
+++ b/src/utils/QuadTree.h
@@ -10,6 +10,7 @@
 #include <list>      // std::list
 #include <vector>    // std::vector
 #include <array>     // std::array
+#include <limits>    // std::numeric_limits
 #include <stdexcept> // std::runtime_error
 #include <iomanip>   // std::setprecision
 #include <iostream>  // std::to_string
@@ -186,22 +187,28 @@ public:
   T* get_nearest(const Vec2<V>& query,
                  NearestQuery qfun = &(quadtree_nearest_query_fun)) const
   {
+    if ( n_items_ == 0 )
+      return nullptr;
+
     auto quad = get_leaf(query);
 
-    V min_dist_sqr = 4 * quad->scale() * quad->scale();
-    T* winner      = nullptr;
+    // Enlarge the search radius until it contains at least one item
+    V radius  = 2 * (quad ? quad->scale() : scale_);
+    T* winner = nullptr;
+
+    while ( !winner && radius < std::numeric_limits<V>::max() )
+    {
+      V min_dist_sqr = std::numeric_limits<V>::max();
 
-    for ( auto item : quad->items() )
-      if ( qfun(item, query, min_dist_sqr ) )
-        winner = item;
+      Vector found {};
+      get_items(query, radius, found);
 
-    Vector found {};
-    
-    get_items(query, 4 * sqrt(min_dist_sqr), found);
+      for ( auto item : found )
+        if ( qfun(item, query, min_dist_sqr ) )
+          winner = item;
 
-    for ( auto item : found )
-      if ( qfun(item, query, min_dist_sqr ) )
-        winner = item;
+      radius *= 2;
+    }
 
     return winner;
   }
-- 
2.43.0


From 5b3ec227d63fb9739c432f3c1064e11830d27896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:17 +0000
Subject: [PATCH 15/50] fix: consider all boundary edges in the search for
 boundary intersections

---
 src/algorithm/EdgeList.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/EdgeList.h b/src/algorithm/EdgeList.h
index 51085ab..d344dbc 100644
--- a/src/algorithm/EdgeList.h
+++ b/src/algorithm/EdgeList.h
@@ -396,11 +396,28 @@ public:
   } // get_closest_vertex()
 
 
+  /*------------------------------------------------------------------
+  | Returns the length of the longest edge in this edgelist
+  ------------------------------------------------------------------*/
+  double max_edge_length() const
+  {
+    double max_length = 0.0;
+
+    for ( const auto& e_ptr : edges_ )
+      max_length = MAX( max_length, e_ptr->length() );
+
+    return max_length;
+
+  } // max_edge_length()
+
   /*------------------------------------------------------------------
   | Check if two edges of this edgelist intersect
   ------------------------------------------------------------------*/
   bool intersects_self(void) const
   {
+    // Edges are located by their midpoints
+    const double margin = 0.5 * max_edge_length();
+
     for ( const auto& e_ptr : edges_ )
     {
       Edge* e_prev = e_ptr->get_prev_edge();
@@ -412,7 +429,7 @@ public:
       const Vec2d ll = { MIN(xy_1.x, xy_2.x), MIN(xy_1.y, xy_2.y) };
       const Vec2d ur = { MAX(xy_1.x, xy_2.x), MAX(xy_1.y, xy_2.y) };
 
-      auto found_edges = edges_.get_items(ll, ur);
+      auto found_edges = edges_.get_items(ll - margin, ur + margin);
 
       for ( const auto& e_found : found_edges )
       {
@@ -438,6 +455,9 @@ public:
   ------------------------------------------------------------------*/
   bool intersects_edgelist(const EdgeList& edge_list) const
   {
+    // Edges are located by their midpoints
+    const double margin = 0.5 * edge_list.max_edge_length();
+
     for ( const auto& e_ptr : edges_ )
     {
       const Vec2d& xy_1 = e_ptr->v1().xy();
@@ -446,7 +466,7 @@ public:
       const Vec2d ll = { MIN(xy_1.x, xy_2.x), MIN(xy_1.y, xy_2.y) };
       const Vec2d ur = { MAX(xy_1.x, xy_2.x), MAX(xy_1.y, xy_2.y) };
 
-      auto found_edges = edge_list.edges().get_items(ll, ur);
+      auto found_edges = edge_list.edges().get_items(ll - margin, ur + margin);
 
       for ( const auto& e_found : found_edges )
       {
-- 
2.43.0


From 3e33f83f92692f7d377c7d0870653c3030d37850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:45 +0000
Subject: [PATCH 16/50] fix: reject domains with boundaries that have no edges

---
 src/algorithm/EntityChecks.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/algorithm/EntityChecks.h b/src/algorithm/EntityChecks.h
index 0df8450..41de6e4 100644
--- a/src/algorithm/EntityChecks.h
+++ b/src/algorithm/EntityChecks.h
@@ -62,6 +62,12 @@ public:
     // Check if domain boundaries are traversable
     for ( const auto& boundary : domain )
     {
+      if ( boundary->size() < 1 )
+      {
+        LOG(ERROR) << "Invalid domain: Boundary without edges.";
+        return false;
+      }
+
       Edge& e_start = boundary->edges()[0];
 
       if ( !boundary->is_traversable(e_start, e_start) )
-- 
2.43.0


From 1cbd278ac24513ecbaa6738951ea875310f8eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:45 +0000
Subject: [PATCH 17/50] fix: report the failure of a mesh merge

---
 src/algorithm/MeshGenerator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/MeshGenerator.h b/src/algorithm/MeshGenerator.h
index 8132eb1..61c2737 100644
--- a/src/algorithm/MeshGenerator.h
+++ b/src/algorithm/MeshGenerator.h
@@ -134,7 +134,7 @@ public:
       meshes_.erase( it );
     }
 
-    return true;
+    return success;
 
   } // MeshGenerator::merge_meshes()
 
-- 
2.43.0


From 8dec7aff435f2a1e2b6f9c2fabecd84385b60454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:07 +0000
Subject: [PATCH 18/50] fix: keep the color of elements when doubled edges are
 cleared

---
 src/algorithm/MeshCleanup.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index 4aa5146..5b6e07e 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -347,7 +347,8 @@ public:
       Vertex* o2 = opposing_vertices[i].second;
 
       // Create new quad 
-      Quad& q_new = mesh.add_quad( *o1, v1, *o2, v3 );
+      const int color = quads_to_remove[i].first->color();
+      Quad& q_new = mesh.add_quad( *o1, v1, *o2, v3, color );
       q_new.is_active(true);
     }
 
@@ -543,7 +544,7 @@ public:
       Vertex& v3 = q->vertex( MOD(id_v+3, 4) );
 
       // Create new triangle 
-      Triangle& t_new = mesh.add_triangle( v1, v2, v3 );
+      Triangle& t_new = mesh.add_triangle( v1, v2, v3, q->color() );
       t_new.is_active(true);
     }
 
-- 
2.43.0


From 0ccedd8bef1d6bbe4e348909ccddf13ae0f1906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:07 +0000
Subject: [PATCH 19/50] fix: do not merge triangles of different color to quads

---
 src/algorithm/ModificationStrategy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/ModificationStrategy.h b/src/algorithm/ModificationStrategy.h
index bf1208c..81b8052 100644
--- a/src/algorithm/ModificationStrategy.h
+++ b/src/algorithm/ModificationStrategy.h
@@ -156,6 +156,10 @@ private:
       if ( f_l->n_vertices() > 3 || f_r->n_vertices() > 3 ) 
         continue;
 
+      // Elements of different color must not be mixed
+      if ( f_l->color() != f_r->color() )
+        continue;
+
       Vertex& v1 = e->v1();
       Vertex& v2 = e->v2();
 
-- 
2.43.0


From 8270cad9eb758f73fcbad80b274ca258ca685f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:27 +0000
Subject: [PATCH 20/50] fix: update the mesh area after vertices have been
 shifted in the quad layer generation

This replaces the computation of the area in the completeness check, such
that merged meshes are still checked for the area of the receiver mesh.
---
 src/algorithm/MeshChecker.h  |  8 +-------
 src/algorithm/QuadLayering.h | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/algorithm/MeshChecker.h b/src/algorithm/MeshChecker.h
index 6a26396..7e09fca 100644
--- a/src/algorithm/MeshChecker.h
+++ b/src/algorithm/MeshChecker.h
@@ -61,13 +61,7 @@ public:
     complete &= EntityChecks::check_mesh_validity( *mesh_ );
 
     // Check meshed area 
-    double mesh_area = 0.0;
-
-    for ( const auto& q_ptr : mesh_->quads() )
-      mesh_area += q_ptr->area();
-    for ( const auto& t_ptr : mesh_->triangles() )
-      mesh_area += t_ptr->area();
-
+    const double mesh_area = mesh_->area();
     const double domain_area = domain_->area();
     auto extent = domain_->extent();
     const double scale_x = extent.first[1] - extent.first[0];
diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 9241dfc..3dd2685 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -654,12 +654,32 @@ public:
     // Remove remaining edges from the front
     front_.clear_edges();
 
+    // Vertices might have been shifted after the area of their adjacent
+    // elements has been added to the total area of the mesh
+    update_mesh_area();
+
     return success;
 
   } // generate_elements()
 
 private:
 
+  /*------------------------------------------------------------------
+  | Set the mesh area to the actual area of all elements
+  ------------------------------------------------------------------*/
+  void update_mesh_area()
+  {
+    double area = 0.0;
+
+    for ( const auto& q_ptr : mesh_.quads() )
+      area += q_ptr->area();
+    for ( const auto& t_ptr : mesh_.triangles() )
+      area += t_ptr->area();
+
+    mesh_.add_area( area - mesh_.area() );
+
+  } // update_mesh_area()
+
   /*------------------------------------------------------------------
   | 
   ------------------------------------------------------------------*/
-- 
2.43.0


From a38182f3ebd0768c75040798718d860dde910086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:19 +0000
Subject: [PATCH 21/50] fix: reject exterior boundary edges with an index past
 the last vertex

---
 src/app/TQMeshApp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index 59d0a18..e3874a6 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -602,7 +602,7 @@ private:
         int    m  = para_extr_bdry.get_value(2, i);
 
         // Throw error if indices are larger than number of vertices
-        if ( i1 > n_vertices || i2 > n_vertices )
+        if ( i1 >= n_vertices || i2 >= n_vertices )
           throw_error("Invalid exterior boundary definition: " 
             "Some vertex index is larger that the number of "
             "provided input vertices.");
-- 
2.43.0


From 219c1adf76887fac71006437b94f263677ecb77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:19 +0000
Subject: [PATCH 22/50] fix: put the mesh index into the error messages for
 missing parameters

---
 src/app/TQMeshApp.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index e3874a6..d4de9fa 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -856,10 +856,10 @@ private:
   void query_mandatory_parameters(ParaReader& mesh_reader)
   {
     if ( !mesh_reader.query<std::string>("output_prefix") )
-      throw_error("No output file prefix defined for mesh " + mesh_id_ );
+      throw_error("No output file prefix defined for mesh " + std::to_string(mesh_id_) );
 
     if ( !mesh_reader.query<std::string>("output_format") )
-      throw_error("No output format defined for mesh " + mesh_id_ ); 
+      throw_error("No output format defined for mesh " + std::to_string(mesh_id_) ); 
 
     output_prefix_ = mesh_reader.get_value<std::string>("output_prefix");
     output_format_ = mesh_reader.get_value<std::string>("output_format");
@@ -868,7 +868,7 @@ private:
     print_parameter<std::string>(mesh_reader, "output_format");
 
     if ( !mesh_reader.query<std::string>("size_function") )
-      throw_error("Invalid size function definition for mesh " + mesh_id_);
+      throw_error("Invalid size function definition for mesh " + std::to_string(mesh_id_));
 
   } // MeshConstruction::query_mandatory_parameters()
 
-- 
2.43.0


From 48b8fb70085e709faa635efc58653762feb8496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:19 +0000
Subject: [PATCH 23/50] fix: reject size functions that can not be parsed

---
 src/app/size_function.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/app/size_function.cpp b/src/app/size_function.cpp
index e2c8831..f128aa8 100644
--- a/src/app/size_function.cpp
+++ b/src/app/size_function.cpp
@@ -33,7 +33,9 @@ UserSizeFunction init_size_function(const std::string& expr)
   symbol_table.add_variable("x", x_size_function);
   symbol_table.add_variable("y", y_size_function);
   expression.register_symbol_table(symbol_table);
-  parser.compile(expr, expression);
+
+  if ( !parser.compile(expr, expression) )
+    throw_error("Invalid size function definition: " + expr);
 
   UserSizeFunction f = [](const Vec2d& p) 
   { 
-- 
2.43.0


From 30887a3462aebf5ee11788aadef850a6820097fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:19 +0000
Subject: [PATCH 24/50] fix: report the failure to write a mesh file

---
 src/algorithm/MeshWriter.h | 9 +++++----
 src/utils/VtkIO.h          | 7 ++++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/algorithm/MeshWriter.h b/src/algorithm/MeshWriter.h
index b382b83..0b58e3e 100644
--- a/src/algorithm/MeshWriter.h
+++ b/src/algorithm/MeshWriter.h
@@ -86,11 +86,14 @@ private:
 
     outfile.open( fullpath );
 
+    if ( !outfile.is_open() )
+      return false;
+
     outfile << (*mesh_);
 
     outfile.close();
 
-    return true;
+    return outfile.good();
 
   } // MeshWriter::write_to_txt()
 
@@ -184,9 +187,7 @@ private:
     writer.add_cell_data( max_angle, "max_angle", 1 );
     writer.add_cell_data( cell_quality, "cell_quality", 1 );
 
-    writer.write( fullpath );
-
-    return true;
+    return writer.write( fullpath );
 
   } // MeshWriter::write_to_vtu()
 
diff --git a/src/utils/VtkIO.h b/src/utils/VtkIO.h
index 7add4a4..9e69d41 100644
--- a/src/utils/VtkIO.h
+++ b/src/utils/VtkIO.h
@@ -179,11 +179,14 @@ public:
   /*------------------------------------------------------------------
   | Write the VTU file
   ------------------------------------------------------------------*/
-  void write(const std::string& file_name)
+  bool write(const std::string& file_name)
   {
     std::ofstream outfile;
     outfile.open(file_name);
 
+    if ( !outfile.is_open() )
+      return false;
+
     size_t n_points = points_.size() / 3;
     size_t n_cells  = offsets_.size();
 
@@ -221,6 +224,8 @@ public:
 
     outfile.close();
 
+    return outfile.good();
+
   } // VtuWriter::write()
 
 private:
-- 
2.43.0


From 01178170e21db4ae93cf2b5ec5fea63d1c63bdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:19 +0000
Subject: [PATCH 25/50] fix: keep boundary markers on their edges in
 convert2foam

---
 scripts/convert2foam.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/convert2foam.py b/scripts/convert2foam.py
index d8abfbe..dbe29ea 100644
--- a/scripts/convert2foam.py
+++ b/scripts/convert2foam.py
@@ -247,6 +247,7 @@ class TQMesh:
         ids = np.argsort(self.bdry_elems)
         self.bdry_edges = self.bdry_edges[ids]
         self.bdry_elems = self.bdry_elems[ids]
+        self.bdry_marker = self.bdry_marker[ids]
 
 
     def _swap_intr_edges(self):
-- 
2.43.0


From 9ae3d6fed0ad855e82f64af5cb47ee7bc834e7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:19 +0000
Subject: [PATCH 26/50] fix: write more than nine boundary patches in the order
 of their faces

---
 scripts/convert2foam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/convert2foam.py b/scripts/convert2foam.py
index dbe29ea..ba5634e 100644
--- a/scripts/convert2foam.py
+++ b/scripts/convert2foam.py
@@ -437,7 +437,7 @@ class OpenFOAMMesh:
         boundary_data = []
         for name, (start_face, n_faces) in self.boundaries.items():
             boundary_data.append([name, (start_face, n_faces)])
-        boundary_data.sort(key = lambda entry: entry[0])
+        boundary_data.sort(key = lambda entry: entry[1][0])
 
         for name, (start_face, n_faces) in boundary_data:
             boundary_str += '    {:}\n    {{\n'.format(name)
-- 
2.43.0


From f80b43c94b1bfad7614a38b3698d87a8f0c80bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:24 +0000
Subject: [PATCH 27/50] fix: terminate on size function values that are not a
 number

---
 src/algorithm/Domain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/Domain.h b/src/algorithm/Domain.h
index 6a64271..6a9e882 100644
--- a/src/algorithm/Domain.h
+++ b/src/algorithm/Domain.h
@@ -50,7 +50,7 @@ public:
     // The underlying size function
     const double h_fun = f_(xy);
 
-    if ( h_fun <= 0.0 )
+    if ( !(h_fun > 0.0) )
       TERMINATE("SizeFunction::evaluate(): Encountered invalid value (<=0).");
 
     double h = h_fun;
-- 
2.43.0


From 9fe452294cc3625a2e3f981f41fd57caac85a788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:24 +0000
Subject: [PATCH 28/50] fix: let the application fail if the mesh file can not
 be written

---
 src/app/TQMeshApp.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index d4de9fa..4c293dd 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -209,13 +209,15 @@ private:
     {
       std::string filename { output_prefix_ + ".vtu" };
       LOG(INFO) << "Write mesh file to " << filename;
-      mesh_generator_.write_mesh(mesh, filename, MeshExportType::VTU);
+      if ( !mesh_generator_.write_mesh(mesh, filename, MeshExportType::VTU) )
+        throw_error("Failed to write mesh file " + filename);
     }
     else if ( output_format_ == "TXT" || output_format_ == "txt" )
     {
       std::string filename { output_prefix_ + ".txt" };
       LOG(INFO) << "Write mesh file to " << filename;
-      mesh_generator_.write_mesh(mesh, filename, MeshExportType::TXT);
+      if ( !mesh_generator_.write_mesh(mesh, filename, MeshExportType::TXT) )
+        throw_error("Failed to write mesh file " + filename);
     }
     else
     {
-- 
2.43.0


From 740432bbca0b8aafd94dc20352d9f46291598a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:36 +0000
Subject: [PATCH 29/50] fix: do not duplicate single boundary vertices that are
 shared by merged meshes

---
 src/algorithm/MeshMerger.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/algorithm/MeshMerger.h b/src/algorithm/MeshMerger.h
index 492fd5d..066b11c 100644
--- a/src/algorithm/MeshMerger.h
+++ b/src/algorithm/MeshMerger.h
@@ -147,6 +147,11 @@ private:
     {
       auto v_index = v_ptr->index();
 
+      // Both meshes might also touch in single boundary vertices, which
+      // are not part of a common interface edge
+      if ( !new_vertices_[v_index] && v_ptr->on_boundary() )
+        new_vertices_[v_index] = find_receiver_vertex( v_ptr->xy() );
+
       if ( !new_vertices_[v_index] )
       {
         Vertex& v_new = receiver_->add_vertex( v_ptr->xy() );
@@ -158,6 +163,19 @@ private:
 
   } // copy_donor_vertices()
 
+  /*------------------------------------------------------------------
+  | Find a boundary vertex of the receiver at a given position
+  ------------------------------------------------------------------*/
+  Vertex* find_receiver_vertex(const Vec2d& xy) const
+  {
+    for ( Vertex* v : receiver_->vertices().get_items(xy, CPPUTILS_SMALL) )
+      if ( v->on_boundary() && v->xy() == xy )
+        return v;
+
+    return nullptr;
+
+  } // find_receiver_vertex()
+
   /*------------------------------------------------------------------
   | Copy all the donor's quad elements
   ------------------------------------------------------------------*/
-- 
2.43.0


From bee242d55ce84c7d36daf2dfec7164726d61626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:36 +0000
Subject: [PATCH 30/50] fix: remove the algorithms of a mesh that has been
 merged into another one

---
 src/algorithm/MeshGenerator.h | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/algorithm/MeshGenerator.h b/src/algorithm/MeshGenerator.h
index 61c2737..522defe 100644
--- a/src/algorithm/MeshGenerator.h
+++ b/src/algorithm/MeshGenerator.h
@@ -131,6 +131,9 @@ public:
       if ( !mesh_builder_.remove_mesh_and_domain(donor) )
         return false;
 
+      // The donor will be destroyed -> remove its algorithms
+      reset_algorithms( donor );
+
       meshes_.erase( it );
     }
 
@@ -248,6 +251,37 @@ public:
 
 private:
 
+  /*------------------------------------------------------------------
+  | Remove all algorithms that are set up for a specified mesh
+  ------------------------------------------------------------------*/
+  void reset_algorithms(Mesh& mesh)
+  {
+    if ( meshing_algorithm_ && &meshing_algorithm_->mesh() == &mesh )
+    {
+      meshing_algorithm_.reset();
+      meshing_algorithm_type_ = MeshingAlgorithm::None;
+    }
+
+    if ( smoothing_algorithm_ && &smoothing_algorithm_->mesh() == &mesh )
+    {
+      smoothing_algorithm_.reset();
+      smoothing_algorithm_type_ = SmoothingAlgorithm::None;
+    }
+
+    if ( refinement_algorithm_ && &refinement_algorithm_->mesh() == &mesh )
+    {
+      refinement_algorithm_.reset();
+      refinement_algorithm_type_ = RefinementAlgorithm::None;
+    }
+
+    if ( modification_algorithm_ && &modification_algorithm_->mesh() == &mesh )
+    {
+      modification_algorithm_.reset();
+      modification_algorithm_type_ = ModificationAlgorithm::None;
+    }
+
+  } // MeshGenerator::reset_algorithms()
+
   /*------------------------------------------------------------------
   | Set a mesh generation algorithm for a specified mesh.
   | Returns false if the mesh is not connected to this MeshGenerator
-- 
2.43.0


From 128b456710f4993e0b2d178f9416b7c87a5824f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:53 +0000
Subject: [PATCH 31/50] fix: do not split edges to neighboring meshes in the
 quad layer generation

---
 src/algorithm/QuadLayering.h | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 3dd2685..f6184ca 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -300,13 +300,15 @@ private:
 
     // Scenario 2
     // ----------
-    if ( h < e_prev->length() )
+    // Get a pointer to the previous edge in the mesh data structure,
+    // since it will be removed later on. 
+    // Edges that are adjacent to a neighboring mesh must not be split.
+    Edge* e_bdry_rem 
+      = mesh_bdry_edges.get_edge(e_prev->v1(), e_prev->v2());
+    const bool has_twin = e_bdry_rem && e_bdry_rem->twin_edge();
+
+    if ( h < e_prev->length() && !has_twin )
     {
-      // Get a pointer to the previous edge in the mesh data structure,
-      // since it will be removed later on
-      Edge* e_bdry_rem 
-        = mesh_bdry_edges.get_edge(e_prev->v1(), e_prev->v2());
-
       // Split the adjacent front edge in two smaller edges
       const Vec2d d1 = v_prev.xy() - v_start.xy();
       const Vec2d d2 = v1_proj_xy_[0] - v_start.xy();
@@ -428,12 +430,14 @@ private:
 
     // Scenario 2
     // ----------
-    if ( h < e_next->length() )
-    {
-      // Get a pointer to the next edge in the mesh data structure,
-      // since it will be removed later on
-      Edge* e_bdry_rem = bdry_edges.get_edge(e_next->v1(), e_next->v2());
+    // Get a pointer to the next edge in the mesh data structure,
+    // since it will be removed later on
+    // Edges that are adjacent to a neighboring mesh must not be split.
+    Edge* e_bdry_rem = bdry_edges.get_edge(e_next->v1(), e_next->v2());
+    const bool has_twin = e_bdry_rem && e_bdry_rem->twin_edge();
 
+    if ( h < e_next->length() && !has_twin )
+    {
       // Split the adjacent front edge in two smaller edges
       const Vec2d d1 = v_next.xy() - v_end.xy();
       const Vec2d d2 = v2_proj_xy_.back() - v_end.xy();
-- 
2.43.0


From 464d8e5a266088c47a9af0aec414bbbc7af8abbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:54 +0000
Subject: [PATCH 32/50] fix: do not shift vertices of the domain in the quad
 layer generation

---
 src/algorithm/QuadLayering.h | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index f6184ca..8c01cd5 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -141,7 +141,7 @@ public:
   | projected base vertices. In the case of a QuadLayerVertices that 
   | is not closed, adjacent edges are eventually refined. 
   ------------------------------------------------------------------*/
-  void setup_vertex_projection(Mesh& mesh, Front& front)
+  void setup_vertex_projection(const Domain& domain, Mesh& mesh, Front& front)
   {
     // Update coordinates of projected base vertices
     for ( size_t i = 1; i < base_edges_.size(); ++i )
@@ -153,8 +153,8 @@ public:
     }
     else
     {
-      place_start_vertex(mesh.vertices(), front, mesh.boundary_edges());
-      place_end_vertex(mesh.vertices(), front, mesh.boundary_edges());
+      place_start_vertex(domain, mesh.vertices(), front, mesh.boundary_edges());
+      place_end_vertex(domain, mesh.vertices(), front, mesh.boundary_edges());
     }
 
   } // QuadLayerVertices::setup_vertex_projection()
@@ -253,7 +253,8 @@ private:
   |  v_start                  v_start                v_start           
   |
   ------------------------------------------------------------------*/
-  void place_start_vertex(Vertices& mesh_vertices, 
+  void place_start_vertex(const Domain& domain,
+                          Vertices& mesh_vertices, 
                           Front&    front, 
                           EdgeList& mesh_bdry_edges)
   {
@@ -291,7 +292,7 @@ private:
       double s = dot(delta_1, delta_2) / delta_1.norm_sqr();
       Vec2d v_prev_new = v1_base_[0]->xy() + delta_1 * s;
 
-      if ( can_be_shifted(v_prev, v_prev_new) )
+      if ( can_be_shifted(domain, v_prev, v_prev_new) )
         MeshCleanup::set_vertex_coordinates(v_prev, v_prev_new);
 
       v1_proj_xy_[0] = v_prev.xy();
@@ -377,7 +378,8 @@ private:
   |            v_end            v_end                 v_end
   |
   ------------------------------------------------------------------*/
-  void place_end_vertex(Vertices& verts, 
+  void place_end_vertex(const Domain& domain,
+                        Vertices& verts, 
                         Front&    front, 
                         EdgeList& bdry_edges)
   {
@@ -421,7 +423,7 @@ private:
       double s = dot(delta_1, delta_2) / delta_1.norm_sqr();
       Vec2d v_next_new = v_end.xy() + delta_1 * s;
 
-      if ( can_be_shifted(v_next, v_next_new) )
+      if ( can_be_shifted(domain, v_next, v_next_new) )
         MeshCleanup::set_vertex_coordinates(v_next, v_next_new);
 
       v2_proj_xy_.back() = v_next.xy();
@@ -486,17 +488,22 @@ private:
   } // QuadLayerVertices::place_end_vertex()
 
   /*------------------------------------------------------------------
-  | Fixed vertices must not be shifted at all. 
+  | Fixed vertices and vertices of the domain must not be shifted at all. 
   | Vertices on the boundary of the mesh may only be shifted along a 
   | straight boundary segment of one color between their two boundary 
   | neighbors. Otherwise, the meshed domain, its boundary markers or
   | the conformity to a neighboring mesh would be altered.
   ------------------------------------------------------------------*/
-  bool can_be_shifted(const Vertex& v, const Vec2d& xy_new) const
+  bool can_be_shifted(const Domain& domain, const Vertex& v, 
+                      const Vec2d& xy_new) const
   {
     if ( v.is_fixed() )
       return false;
 
+    for ( const Vertex* v_dom : domain.vertices().get_items(v.xy(), CPPUTILS_SMALL) )
+      if ( v_dom->xy() == v.xy() )
+        return false;
+
     const Edge* e_bdry = nullptr;
 
     for ( const auto& e : v.edges() )
@@ -701,7 +708,7 @@ private:
                                           closed_layer_, height,
                                           angle_factor_ };
     quad_layer_verts.smooth_heights( domain_ );
-    quad_layer_verts.setup_vertex_projection( mesh_, front_ );
+    quad_layer_verts.setup_vertex_projection( domain_, mesh_, front_ );
 
     // For each base edge in the quad layer, try to create a quad
     // element with its given projected coordinates
-- 
2.43.0


From 9ae7ab17445a60b480ce73eba077575b14f46ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:54 +0000
Subject: [PATCH 33/50] fix: use the default quad layer projection if the
 adjacent edge can not be split

---
 src/algorithm/QuadLayering.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 8c01cd5..10f0e8c 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -320,6 +320,11 @@ private:
       auto new_edges 
         = front.split_edge(*e_prev, mesh_vertices, sf);
 
+      // The adjacent edge is collinear to the base edge and can not 
+      // be split -> use the default projection coordinate
+      if ( !new_edges.first || !new_edges.second )
+        return;
+
       // Remove the splitted edge in the mesh data structure
       if ( e_bdry_rem )
       {
@@ -449,6 +454,11 @@ private:
 
       auto new_edges = front.split_edge(*e_next, verts, sf);
 
+      // The adjacent edge is collinear to the base edge and can not 
+      // be split -> use the default projection coordinate
+      if ( !new_edges.first || !new_edges.second )
+        return;
+
       // Remove the splitted edge in the mesh data structure
       if ( e_bdry_rem ) 
       {
-- 
2.43.0


From e957b92e49abb2347c8e5d0b3f336a4448e9768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:37 +0000
Subject: [PATCH 34/50] fix: destroy the data of a vtu file through a virtual
 destructor

---
 src/utils/VtkIO.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/VtkIO.h b/src/utils/VtkIO.h
index 9e69d41..d9c80fd 100644
--- a/src/utils/VtkIO.h
+++ b/src/utils/VtkIO.h
@@ -76,6 +76,7 @@ inline const char* VtkIOTypeTraits<double>::name = "Float64";
 class VtkIODataInterface
 {
 public:
+  virtual ~VtkIODataInterface() {}
   virtual const std::string& name() const = 0;
   virtual size_t dim() const = 0;
   virtual const char* type() const = 0;
-- 
2.43.0


From aa36ab216d45614481778f667e2df35ca5951252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:22 +0000
Subject: [PATCH 35/50] fix: account for round-off errors in the calculation of
 element angles

---
 src/algorithm/FacetGeometry.h | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/algorithm/FacetGeometry.h b/src/algorithm/FacetGeometry.h
index e37a6e7..cd9fd16 100644
--- a/src/algorithm/FacetGeometry.h
+++ b/src/algorithm/FacetGeometry.h
@@ -81,6 +81,13 @@ public:
   calc_edge_length(const Vertex& v1, const Vertex& v2) 
   { return ( v2.xy() - v1.xy() ).norm(); }
 
+  /*------------------------------------------------------------------
+  | Compute the angle for a given cosine, which might slightly exceed
+  | the range [-1,1] due to round-off errors
+  ------------------------------------------------------------------*/
+  static inline double calc_angle(double cosine)
+  { return acos( std::min(1.0, std::max(-1.0, cosine)) ); }
+
   /*------------------------------------------------------------------
   | Compute triangle angles
   ------------------------------------------------------------------*/
@@ -96,9 +103,9 @@ public:
     double l2 = edge_lengths[1];
     double l3 = edge_lengths[2];
 
-    double a1 = acos( dot( q-p,  r-p ) / (l1*l3) );
-    double a2 = acos( dot( p-q,  r-q ) / (l1*l2) );
-    double a3 = acos( dot( p-r,  q-r ) / (l2*l3) );
+    double a1 = calc_angle( dot( q-p,  r-p ) / (l1*l3) );
+    double a2 = calc_angle( dot( p-q,  r-q ) / (l1*l2) );
+    double a3 = calc_angle( dot( p-r,  q-r ) / (l2*l3) );
 
     return { a1, a2, a3 };
   }
@@ -405,6 +412,13 @@ public:
   calc_edge_length(const Vertex& v1, const Vertex& v2)
   { return ( v2.xy() - v1.xy() ).norm(); }
 
+  /*------------------------------------------------------------------
+  | Compute the angle for a given cosine, which might slightly exceed
+  | the range [-1,1] due to round-off errors
+  ------------------------------------------------------------------*/
+  static inline double calc_angle(double cosine)
+  { return acos( std::min(1.0, std::max(-1.0, cosine)) ); }
+
   /*------------------------------------------------------------------
   | Compute quad angles
   ------------------------------------------------------------------*/
@@ -423,10 +437,10 @@ public:
     double l3 = edge_lengths[2];
     double l4 = edge_lengths[3];
 
-    double a1 = acos( dot( q-p,  s-p ) / (l4*l1) );
-    double a2 = acos( dot( p-q,  r-q ) / (l1*l2) );
-    double a3 = acos( dot( s-r,  q-r ) / (l2*l3) );
-    double a4 = acos( dot( r-s,  p-s ) / (l3*l4) );
+    double a1 = calc_angle( dot( q-p,  s-p ) / (l4*l1) );
+    double a2 = calc_angle( dot( p-q,  r-q ) / (l1*l2) );
+    double a3 = calc_angle( dot( s-r,  q-r ) / (l2*l3) );
+    double a4 = calc_angle( dot( r-s,  p-s ) / (l3*l4) );
 
     return { a1, a2, a3, a4 };
   }
-- 
2.43.0


From 75007c693be97e89456365b2936e94420e2527f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:07 +0000
Subject: [PATCH 36/50] fix: write the current element indices of neighboring
 meshes

---
 src/algorithm/MeshWriter.h | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/algorithm/MeshWriter.h b/src/algorithm/MeshWriter.h
index 0b58e3e..fe88457 100644
--- a/src/algorithm/MeshWriter.h
+++ b/src/algorithm/MeshWriter.h
@@ -53,6 +53,7 @@ public:
     MeshCleanup::assign_size_function_to_vertices(*mesh_, *domain_);
     MeshCleanup::assign_mesh_indices(*mesh_);
     MeshCleanup::setup_facet_connectivity(*mesh_);
+    update_neighbor_meshes();
 
     switch (export_type)
     {
@@ -72,6 +73,36 @@ public:
 
 private:
 
+  /*------------------------------------------------------------------
+  | The interface edges are written with the index of the adjacent 
+  | element in the neighboring mesh, thus the indices in all 
+  | neighboring meshes must be up to date
+  ------------------------------------------------------------------*/
+  void update_neighbor_meshes()
+  {
+    std::vector<Mesh*> nbr_meshes {};
+
+    for ( const auto& e_ptr : mesh_->boundary_edges() )
+    {
+      const Edge* e_twin = e_ptr->twin_edge();
+
+      if ( !e_twin )
+        continue;
+
+      for ( Facet* f : e_twin->v1().facets() )
+        if ( f->mesh() && std::find(nbr_meshes.begin(), 
+             nbr_meshes.end(), f->mesh()) == nbr_meshes.end() )
+          nbr_meshes.push_back( f->mesh() );
+    }
+
+    for ( Mesh* nbr_mesh : nbr_meshes )
+    {
+      MeshCleanup::assign_mesh_indices(*nbr_mesh);
+      MeshCleanup::setup_facet_connectivity(*nbr_mesh);
+    }
+
+  } // MeshWriter::update_neighbor_meshes()
+
   /*------------------------------------------------------------------
   | Export the mesh to a text file
   ------------------------------------------------------------------*/
-- 
2.43.0


From 577c2819db896eb942432cff65842ac545b675e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:19 +0000
Subject: [PATCH 37/50] fix: use the given query function in all leafs of a
 quad tree

---
 src/utils/QuadTree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/QuadTree.h b/src/utils/QuadTree.h
index 8ba6457..095e8ea 100644
--- a/src/utils/QuadTree.h
+++ b/src/utils/QuadTree.h
@@ -255,7 +255,7 @@ public:
       for ( auto child : children_ )
       {
         ASSERT( child, "QuadTree structure is corrupted." );
-        n_found += child->get_items(lowleft,upright,found);
+        n_found += child->get_items(lowleft,upright,found,qfun);
       }
     }
     else
@@ -296,7 +296,7 @@ public:
       for ( auto child : children_ )
       {
         ASSERT( child, "QuadTree structure is corrupted." );
-        n_found += child->get_items(center, radius, found);
+        n_found += child->get_items(center, radius, found, qfun);
       }
     }
     else
-- 
2.43.0


From bb4e48533f7643eaab04080a9fc0fcbad02ccff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:53 +0000
Subject: [PATCH 38/50] fix: discard stale connectivity to removed facets

---
 src/algorithm/MeshCleanup.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index 5b6e07e..b70157e 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -96,6 +96,30 @@ public:
   template <typename Mesh>
   static inline void setup_facet_connectivity(Mesh& mesh)
   {
+    // Discard the current connectivity, since it may refer to facets 
+    // that have been removed from the mesh
+    Facet* no_facet = &NullFacet::get_instance();
+
+    for ( const auto& q_ptr : mesh.quads() )
+      for ( size_t i = 0; i < 4; ++i )
+        q_ptr->neighbor( i, no_facet );
+
+    for ( const auto& t_ptr : mesh.triangles() )
+      for ( size_t i = 0; i < 3; ++i )
+        t_ptr->neighbor( i, no_facet );
+
+    for ( const auto& e_ptr : mesh.interior_edges() )
+    {
+      e_ptr->facet_l( no_facet );
+      e_ptr->facet_r( no_facet );
+    }
+
+    for ( const auto& e_ptr : mesh.boundary_edges() )
+    {
+      e_ptr->facet_l( no_facet );
+      e_ptr->facet_r( no_facet );
+    }
+
     // Setup connectivity for interior edges
     for ( const auto& e_ptr : mesh.interior_edges() )
     {
-- 
2.43.0


From 17e57ff1de46ebac73ec9fdce82ecff88eb6ae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:53 +0000
Subject: [PATCH 39/50] fix: do not report a mesh without elements as complete

---
 src/algorithm/MeshChecker.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/MeshChecker.h b/src/algorithm/MeshChecker.h
index 7e09fca..9180ab8 100644
--- a/src/algorithm/MeshChecker.h
+++ b/src/algorithm/MeshChecker.h
@@ -52,7 +52,8 @@ public:
     if ( mesh_cleanup )
       perform_mesh_cleanup();
 
-    bool complete = true;
+    // Without any elements there is nothing that covers the domain
+    bool complete = ( mesh_->n_elements() > 0 );
 
     // The mesh may not contain any advancing front edges
     complete &= ( mesh_->get_front_edges().size() == 0 );
-- 
2.43.0


From 85c65f55f1db83984a8a88dbf48432318ce0fc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:25 +0000
Subject: [PATCH 40/50] fix: nearest item query in quad trees of maximum extent

---
 src/utils/QuadTree.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/QuadTree.h b/src/utils/QuadTree.h
index 095e8ea..91a2c75 100644
--- a/src/utils/QuadTree.h
+++ b/src/utils/QuadTree.h
@@ -196,7 +196,7 @@ public:
     V radius  = 2 * (quad ? quad->scale() : scale_);
     T* winner = nullptr;
 
-    while ( !winner && radius < std::numeric_limits<V>::max() )
+    while ( !winner )
     {
       V min_dist_sqr = std::numeric_limits<V>::max();
 
@@ -207,6 +207,10 @@ public:
         if ( qfun(item, query, min_dist_sqr ) )
           winner = item;
 
+      // The entire plane has been searched
+      if ( radius > std::numeric_limits<V>::max() )
+        break;
+
       radius *= 2;
     }
 
-- 
2.43.0


From 7d5070578273b257627053c736aa3febbe26b5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:25 +0000
Subject: [PATCH 41/50] fix: do not refine incomplete meshes that lack element
 edges

---
 src/algorithm/RefinementStrategy.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/algorithm/RefinementStrategy.h b/src/algorithm/RefinementStrategy.h
index df06bc9..171326f 100644
--- a/src/algorithm/RefinementStrategy.h
+++ b/src/algorithm/RefinementStrategy.h
@@ -115,6 +115,10 @@ public:
       if ( e_ptr->twin_edge() )
         return false;
 
+    // Incomplete meshes may lack edges - these can not be refined
+    if ( !has_all_element_edges() )
+      return false;
+
     gather_entities_to_refine();
 
     refine_interior_edges();
@@ -133,6 +137,27 @@ public:
 
 private:
 
+  /*------------------------------------------------------------------
+  | Check if all edges of all elements are part of the mesh
+  ------------------------------------------------------------------*/
+  bool has_all_element_edges() const
+  {
+    for ( auto& t : mesh_->triangles() )
+      if ( !mesh_->get_edge( t->v1(), t->v2() ) || 
+           !mesh_->get_edge( t->v2(), t->v3() ) || 
+           !mesh_->get_edge( t->v3(), t->v1() ) )
+        return false;
+
+    for ( auto& q : mesh_->quads() )
+      if ( !mesh_->get_edge( q->v1(), q->v2() ) || 
+           !mesh_->get_edge( q->v2(), q->v3() ) || 
+           !mesh_->get_edge( q->v3(), q->v4() ) || 
+           !mesh_->get_edge( q->v4(), q->v1() ) )
+        return false;
+
+    return true;
+  }
+
   /*------------------------------------------------------------------
   | Gather all coarse edges, quads and tris
   ------------------------------------------------------------------*/
-- 
2.43.0


From 458878b8b9bfc8640954396cbfe230678ec83771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:25 +0000
Subject: [PATCH 42/50] fix: quad tree extent of the application covers all
 boundaries and merged meshes

---
 src/app/TQMeshApp.h | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index 4c293dd..393e549 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -588,7 +588,8 @@ private:
     Vertices& vertices = domain.vertices();
 
     // External boundary definition via direct edge placement
-    if ( mesh_reader.query<int>("extr_bdry_edges") )
+    // (already queried for the estimation of the domain extent)
+    if ( exterior_edges_ )
     {
       auto para_extr_bdry 
         = mesh_reader.get_parameter<int>("extr_bdry_edges");
@@ -808,7 +809,6 @@ private:
     vertex_pos_.clear();
     vertex_props_.clear();
     vertex_fixed_.clear();
-    domain_extent_ = 0.0;
 
     // Vertices are given in the input file
     // -> Put vertex coordinates and properties into arrays 
@@ -820,8 +820,7 @@ private:
 
       print_parameter<double>(mesh_reader, "vertices");
 
-      Vec2d xy_min {  DBL_MAX,  DBL_MAX };
-      Vec2d xy_max { -DBL_MAX, -DBL_MAX };
+      double extent = 0.0;
 
       for ( size_t i = 0; i < para_vertices.rows(); ++i )
       {
@@ -835,19 +834,21 @@ private:
         vertex_fixed_.push_back( false );
 
         // Estimate domain extents
-        domain_extent_ = MAX(domain_extent_, ABS(x));
-        domain_extent_ = MAX(domain_extent_, ABS(y));
+        extent = MAX(extent, ABS(x));
+        extent = MAX(extent, ABS(y));
       }
 
-      // Double extent and enlarge slightly
-      domain_extent_ *= 2.1;
+      // Double extent and enlarge slightly. The former meshes are 
+      // merged into this one -> they must also fit in the extent
+      domain_extent_ = MAX(domain_extent_, 2.1 * extent);
     }
-    // No input vertices given 
+
+    // The exterior boundary is not made up of input vertices
     // -> Set domain extent to large value
-    else
-    {
+    exterior_edges_ = mesh_reader.query<int>("extr_bdry_edges");
+
+    if ( !exterior_edges_ || vertex_pos_.empty() )
       domain_extent_  = TQ_MAX;
-    }
 
   } // MeshConstruction::init_mesh_vertices()
 
@@ -889,7 +890,8 @@ private:
   std::vector<Vec2d>      vertex_props_;
   std::vector<bool>       vertex_fixed_;
 
-  double                  domain_extent_;
+  double                  domain_extent_ { 0.0 };
+  bool                    exterior_edges_ { false };
   std::unique_ptr<Domain> domain_;
 
   std::vector<Vec2dPair>  quad_layer_vertices_ {};
-- 
2.43.0


From 23256e30e0f93fa5c7b68857c658f7c5afcc8ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:12 +0000
Subject: [PATCH 43/50] fix: do not remove vertices that further elements of an
 unfinished mesh use

---
 src/algorithm/MeshCleanup.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index b70157e..06584d0 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -270,6 +270,11 @@ public:
         if ( v2.is_fixed() )
           continue;
 
+        // Vertices used by further elements must remain in the mesh
+        // (which may be the case if the mesh is not finished yet)
+        if ( v2.facets().size() != 2 )
+          continue;
+
         // Get the neighboring facets of the current successive
         // quad edges (v1,v2) and (v2,v3)
         int idx_1 = q_cur->get_edge_index(v1, v2);
@@ -486,6 +491,11 @@ public:
         if ( v2.is_fixed() )
           continue;
 
+        // Vertices used by further elements must remain in the mesh
+        // (which may be the case if the mesh is not finished yet)
+        if ( v2.facets().size() != 2 )
+          continue;
+
         // Get the neighboring facets of the current successive
         // quad edges (v1,v2) and (v2,v3)
         int idx_1 = q_cur->get_edge_index(v1, v2);
-- 
2.43.0


From cb6c3c5ee7215806a8e185827b3e0004849e70b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:28 +0000
Subject: [PATCH 44/50] fix: store the boundary directions of quad layer
 smoothing per vertex

---
 src/algorithm/SmoothingStrategy.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/SmoothingStrategy.h b/src/algorithm/SmoothingStrategy.h
index dc2bd23..42591f2 100644
--- a/src/algorithm/SmoothingStrategy.h
+++ b/src/algorithm/SmoothingStrategy.h
@@ -78,8 +78,12 @@ protected:
     if ( !quad_layer_smoothing_ )
       return;
 
+    std::size_t i_v = 0;
+
     for ( auto& v_ptr : vertices )
     {
+      Vec2d& bdry_dir = bdry_direction_[i_v++];
+
       // Skip all vertices except those located in quad layers
       if ( !v_ptr->has_property(VertexProperty::in_quad_layer) )
         continue;
@@ -103,7 +107,13 @@ protected:
       const Vec2d p_xy = e1_xy + t * delta_e;
       const Vec2d delta_p = p_xy - v_xy;
 
-      bdry_direction_.push_back( delta_p / delta_p.norm() );
+      const double dist = delta_p.norm();
+
+      // The vertex is located on the boundary
+      if ( EQ0(dist) )
+        continue;
+
+      bdry_dir = delta_p / dist;
     }
 
   } // collect_dispalcement_directions()
-- 
2.43.0


From aeed88ad405da6e0bc16c172c6304cca1fb32616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:08 +0000
Subject: [PATCH 45/50] fix: detect intersections with front edges that are
 longer than the local element size

---
 src/algorithm/FrontUpdate.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/FrontUpdate.h b/src/algorithm/FrontUpdate.h
index ec9f55c..34be4b0 100644
--- a/src/algorithm/FrontUpdate.h
+++ b/src/algorithm/FrontUpdate.h
@@ -332,12 +332,22 @@ private:
     const double rho   = domain_.size_function( tri.xy() );
     const double range = MAX( 2.0 * rho, tri.max_edge_length() );
 
+    // The front edges are collected through their midpoints. Thus, the 
+    // search range must also cover front edges, which are much longer 
+    // than the local element size
+    double front_length = 0.0;
+    for ( const auto& e_ptr : front_.edges() )
+      front_length = MAX( front_length, e_ptr->length() );
+
+    const double front_range 
+      = MAX( range, tri.max_edge_length() + 0.5 * front_length );
+
     DEBUG_LOG("CHECK NEW TRIANGLE: " << tri);
 
     if ( !tri.is_valid() )
       return false;
 
-    if ( tri.intersects_front( front_, range ) )
+    if ( tri.intersects_front( front_, front_range ) )
     { DEBUG_LOG("  > FRONT INTERSECTION"); return false; }
 
     if ( tri.intersects_domain( domain_ ) )
-- 
2.43.0


From 5c10596f67c7a85985fb413a8aec76420b0c419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:21 +0000
Subject: [PATCH 46/50] fix: exhaustive search considers all front edges and
 not only the connected ones

---
 src/algorithm/Triangulation.h | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/algorithm/Triangulation.h b/src/algorithm/Triangulation.h
index 6d52586..6ea9b5a 100644
--- a/src/algorithm/Triangulation.h
+++ b/src/algorithm/Triangulation.h
@@ -300,20 +300,13 @@ private:
   ------------------------------------------------------------------*/
   bool exhaustive_search_triangle(Edge& base_edge)
   {
-    std::size_t i = 0;
-
-    Edge* next_edge = base_edge.get_next_edge();
-
-    while ( next_edge && next_edge != &base_edge && i < front_.size() )
+    for ( const auto& e_ptr : front_.edges() )
     {
-      Vertex& v = next_edge->v2();
+      Vertex& v = e_ptr->v2();
 
       if ( v != base_edge.v1() && v != base_edge.v2() )
         if ( front_update_.update_front_exhaustive(base_edge, v) )
           return true;
-
-      ++i;
-      next_edge = next_edge->get_next_edge();
     }
 
     return false;
-- 
2.43.0


From 983623fc9076ac8b7a1007e04f2fc1b396a47f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:47 +0000
Subject: [PATCH 47/50] fix: sum up vector entries in the vector's own type

The sum was accumulated in an int, which truncates every partial sum of
floating point vectors.
---
 src/utils/VecND.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/VecND.h b/src/utils/VecND.h
index 3a65fb5..fbd4ad5 100644
--- a/src/utils/VecND.h
+++ b/src/utils/VecND.h
@@ -295,7 +295,7 @@ public:
   ------------------------------------------------------------------*/
   T sum() const
   { 
-    return std::accumulate(cbegin(), cend(), 0);
+    return std::accumulate(cbegin(), cend(), T{});
   }
 
   /*------------------------------------------------------------------
-- 
2.43.0


From a4bc7921386dc1e9c97755ea99a06bc5d2bfec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:47 +0000
Subject: [PATCH 48/50] fix: exchange the dimensions of both matrices in
 Matrix::swap

Only the data was exchanged, the second matrix kept its old dimensions.
---
 src/utils/Matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/Matrix.h b/src/utils/Matrix.h
index 22a1cb3..2856460 100644
--- a/src/utils/Matrix.h
+++ b/src/utils/Matrix.h
@@ -91,8 +91,8 @@ public:
   ------------------------------------------------------------------*/
   inline Matrix& swap(Matrix& m)
   {
-    rows_ = m.rows_;
-    cols_ = m.cols_;
+    std::swap( rows_, m.rows_ );
+    std::swap( cols_, m.cols_ );
     data_.swap( m.data_ );
     return *this;
   }
-- 
2.43.0


From 064e918ae3aae00f5622d98a4028f63a22845493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:26 +0000
Subject: [PATCH 49/50] fix: update the area of boundaries when edges are
 removed or split

The area remained the one of the edges before the removal, so that
domains whose boundaries were edited had a wrong area and their meshes
were never reported as complete.
---
 src/algorithm/EdgeList.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/EdgeList.h b/src/algorithm/EdgeList.h
index d344dbc..eb91c23 100644
--- a/src/algorithm/EdgeList.h
+++ b/src/algorithm/EdgeList.h
@@ -156,7 +156,15 @@ public:
   /*------------------------------------------------------------------
   | Remove an edge from the edge list
   ------------------------------------------------------------------*/
-  bool remove(Edge& edge) { return edges_.remove( edge ); }
+  bool remove(Edge& edge) 
+  { 
+    const bool removed = edges_.remove( edge ); 
+
+    if ( orient_ != Orientation::NONE )
+      compute_area();
+
+    return removed;
+  }
 
   /*------------------------------------------------------------------
   | Clear all edges and eventually the associated vertices
@@ -526,6 +534,8 @@ protected:
   ------------------------------------------------------------------*/
   void compute_area()
   {
+    area_ = 0.0;
+
     if ( edges_.size() < 3 ) return;
 
     // Take first node of first edge as reference point
-- 
2.43.0


From dcdbddcd43b1f2d4d8d37d0d2720f43d9c8eda0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:26 +0000
Subject: [PATCH 50/50] fix: disconnect the edges of removed boundaries from
 their vertices

The vertices of a removed boundary remain in the domain and referred to
the destroyed edges, which were accessed when the vertices were used for
another boundary.
---
 src/algorithm/Domain.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/Domain.h b/src/algorithm/Domain.h
index 6a9e882..20dfc37 100644
--- a/src/algorithm/Domain.h
+++ b/src/algorithm/Domain.h
@@ -322,7 +322,12 @@ public:
   | Remove a boundary from the domain
   ------------------------------------------------------------------*/
   void remove_boundary(size_t pos) 
-  { boundaries_.erase( boundaries_.begin()+pos ); }
+  { 
+    // Disconnect the edges from their vertices, since these remain 
+    // in the domain
+    boundaries_[pos]->clear_edges();
+    boundaries_.erase( boundaries_.begin()+pos ); 
+  }
 
   /*------------------------------------------------------------------
   | Access operator
-- 
2.43.0

