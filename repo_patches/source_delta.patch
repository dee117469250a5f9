From b99bed3aa19560437c45d7ebf06a44e2494570f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 01/25] fix: release the reference held by a shared pointer on
 every move assignment

Move assigning a pointer to another pointer of the same resource, or to itself, dropped the handle
of {other} without releasing its reference, so that the resource could never again be found unused.
---
 lib/mito/utilities/SharedPointer.icc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/mito/utilities/SharedPointer.icc b/lib/mito/utilities/SharedPointer.icc
index 5e7bdda..0be1c85 100644
--- a/lib/mito/utilities/SharedPointer.icc
+++ b/lib/mito/utilities/SharedPointer.icc
@@ -152,17 +152,16 @@ constexpr mito::utilities::SharedPointer<resourceT> &
 mito::utilities::SharedPointer<resourceT>::operator=(
     mito::utilities::SharedPointer<resourceT> && other) noexcept
 {
-    // if {other} and I point to different handles
-    if (other._handle != _handle) {
+    // if {other} and I are different pointers
+    if (&other != this) {
         // release my current handle
         _release();
         // adopt the new shareable
         _handle = std::move(other._handle);
+        // invalidate {other}
+        other._handle = nullptr;
     }
 
-    // invalidate {other}
-    other._handle = nullptr;
-
     // all done
     return *this;
 }
-- 
2.43.0


From c531d7a64fa03e50f73ec21b4c661c4e568de46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 02/25] fix: allow copies of null shared pointers

Copying or copy assigning from a null pointer dereferenced the null handle.
---
 lib/mito/utilities/SharedPointer.icc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/mito/utilities/SharedPointer.icc b/lib/mito/utilities/SharedPointer.icc
index 0be1c85..cd81d2e 100644
--- a/lib/mito/utilities/SharedPointer.icc
+++ b/lib/mito/utilities/SharedPointer.icc
@@ -171,8 +171,12 @@ template <class resourceT>
 constexpr auto
 mito::utilities::SharedPointer<resourceT>::_acquire() const -> void
 {
-    // acquire resource (increment reference count)
-    _handle->_acquire();
+    // if the handle is in valid state
+    if (_handle != nullptr) {
+        // acquire resource (increment reference count)
+        _handle->_acquire();
+    }
+
     // all done
     return;
 }
-- 
2.43.0


From baea3c0ebfd26134c94121441f8ca21810d3280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 03/25] fix: skip erased elements in the postfix increment of
 segmented container iterators

---
 lib/mito/utilities/SegmentedContainerIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mito/utilities/SegmentedContainerIterator.h b/lib/mito/utilities/SegmentedContainerIterator.h
index 99304a0..8edcedc 100644
--- a/lib/mito/utilities/SegmentedContainerIterator.h
+++ b/lib/mito/utilities/SegmentedContainerIterator.h
@@ -104,7 +104,7 @@ namespace mito::utilities {
             // make a copy of me
             auto clone = *this;
             // increment me
-            ++_segmented_iterator;
+            operator++();
             // and return the clone
             return clone;
         }
-- 
2.43.0


From 49b93950ae9271755825c52a373d593d5edc412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 04/25] fix: iterate over long runs of erased elements without
 recursion

---
 lib/mito/utilities/SegmentedContainerIterator.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/mito/utilities/SegmentedContainerIterator.h b/lib/mito/utilities/SegmentedContainerIterator.h
index 8edcedc..9a5ed54 100644
--- a/lib/mito/utilities/SegmentedContainerIterator.h
+++ b/lib/mito/utilities/SegmentedContainerIterator.h
@@ -84,14 +84,12 @@ namespace mito::utilities {
             // increment the iterator to the segmented allocator
             ++_segmented_iterator;
 
-            if (_segmented_iterator.ptr() == std::end(_segmented_iterator)) {
-                return *this;
-            }
-
-            // if you found an invalid element
-            if (!_segmented_iterator->is_valid()) {
+            // as long as you find invalid elements
+            while (
+                _segmented_iterator.ptr() != std::end(_segmented_iterator)
+                && !_segmented_iterator->is_valid()) {
                 // move on to the next one
-                return operator++();
+                ++_segmented_iterator;
             }
 
             // all done
-- 
2.43.0


From 4725edd7bb5a04b803b76aaa1c02604381ea0959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 05/25] fix: do not erase from a repository a resource someone
 else is using

---
 lib/mito/utilities/Repository.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/mito/utilities/Repository.h b/lib/mito/utilities/Repository.h
index 1fde5a3..8fbeaf1 100644
--- a/lib/mito/utilities/Repository.h
+++ b/lib/mito/utilities/Repository.h
@@ -107,6 +107,11 @@ namespace mito::utilities {
                 return false;
             }
 
+            // if someone else is using the resource, do nothing
+            if (resource.references() > 1) {
+                return false;
+            }
+
             // remove this resource from the collection of resources
             _resources.erase(resource.handle());
             // destroy the resource
-- 
2.43.0


From 25b65ac2c526ba8ee5e2ebfeb629bf2b801554ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 06/25] fix: do not destroy again the resources erased from a
 repository

---
 lib/mito/utilities/Repository.h | 13 ++++++++++++-
 lib/mito/utilities/externals.h  |  1 +
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/mito/utilities/Repository.h b/lib/mito/utilities/Repository.h
index 8fbeaf1..d5726bd 100644
--- a/lib/mito/utilities/Repository.h
+++ b/lib/mito/utilities/Repository.h
@@ -72,7 +72,10 @@ namespace mito::utilities {
         {
             // destroy all resources
             for (const auto & resource : _resources) {
-                resource.~resource_type();
+                // except those that were destroyed when they were erased
+                if (!_erased.contains(&resource)) {
+                    resource.~resource_type();
+                }
             }
         }
 
@@ -90,6 +93,9 @@ namespace mito::utilities {
             // add resource to the collection of resources
             _resources.insert(resource);
 
+            // {location} hosts a live resource (again)
+            _erased.erase(location);
+
             // assign it to a new pointer
             pointer_type pointer(resource);
 
@@ -114,6 +120,8 @@ namespace mito::utilities {
 
             // remove this resource from the collection of resources
             _resources.erase(resource.handle());
+            // take note that there is no resource at this location anymore
+            _erased.insert(resource.handle());
             // destroy the resource
             resource->~resource_type();
             // reset the shared pointer to the resource
@@ -163,6 +171,9 @@ namespace mito::utilities {
       private:
         // container to store the resources
         resource_collection_type _resources;
+
+        // locations of the resources that were erased and not replaced yet
+        std::unordered_set<const resource_type *> _erased;
     };
 }
 
diff --git a/lib/mito/utilities/externals.h b/lib/mito/utilities/externals.h
index 53b64ec..898957a 100644
--- a/lib/mito/utilities/externals.h
+++ b/lib/mito/utilities/externals.h
@@ -10,6 +10,7 @@
 // externals
 #include <cassert>
 #include <queue>
+#include <unordered_set>
 #include <vector>
 #include <utility>
 #include <memory>
-- 
2.43.0


From 3fc154170f650623f10a86d26f5f3e541f9e3b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 07/25] fix: find existing segments regardless of the
 orientation they were created in

---
 lib/mito/topology/Topology.icc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/mito/topology/Topology.icc b/lib/mito/topology/Topology.icc
index c675660..28edbd4 100644
--- a/lib/mito/topology/Topology.icc
+++ b/lib/mito/topology/Topology.icc
@@ -265,9 +265,16 @@ mito::topology::Topology::exists(const simplex_composition_t<N> & simplices) con
 inline auto
 mito::topology::Topology::exists(const vertex_simplex_composition_t<1> & vertices) const -> bool
 {
+    // find a simplex riding on each tip (whichever orientation it has: the orientation of a segment
+    // is decided by the order of its vertices alone)
+    auto find_tip = [this](const vertex_t & vertex, orientation_t orientation) {
+        auto tip = _get_factory<0>().findOrientedSimplex(vertex, orientation);
+        return tip.is_nullptr() ? _get_factory<0>().findOrientedSimplex(vertex, -orientation) : tip;
+    };
+
     // find left and right tip simplices
-    auto simplex_left_tip = _get_factory<0>().findOrientedSimplex(vertices[0], -1);
-    auto simplex_right_tip = _get_factory<0>().findOrientedSimplex(vertices[1], +1);
+    auto simplex_left_tip = find_tip(vertices[0], -1);
+    auto simplex_right_tip = find_tip(vertices[1], +1);
 
     // if both are are found
     if (!simplex_left_tip.is_nullptr() && !simplex_right_tip.is_nullptr()) {
-- 
2.43.0


From ed7ce1b9d933c9c6f16a0471ce16c25774a7728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 08/25] fix: flip the diagonal of triangles of any orientation

---
 lib/mito/topology/FlipDiagonal.icc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/mito/topology/FlipDiagonal.icc b/lib/mito/topology/FlipDiagonal.icc
index 2f7b1ea..c8db406 100644
--- a/lib/mito/topology/FlipDiagonal.icc
+++ b/lib/mito/topology/FlipDiagonal.icc
@@ -100,7 +100,9 @@ namespace mito::topology {
         for (const auto & subsimplex : simplex0->composition()) {
             // if it is not the shared simplex
             if (subsimplex->footprint().id() != shared_simplex.id()) {
-                boundary_simplices.insert(subsimplex);
+                // insert it as seen by simplex0
+                boundary_simplices.insert(
+                    simplex0->orientation() == +1 ? subsimplex : topology.flip(subsimplex));
             }
         }
         assert(std::size(boundary_simplices) == 2);
@@ -108,7 +110,9 @@ namespace mito::topology {
         for (const auto & subsimplex : simplex1->composition()) {
             // if it is not the shared simplex
             if (subsimplex->footprint().id() != shared_simplex.id()) {
-                boundary_simplices.insert(subsimplex);
+                // insert it as seen by simplex1
+                boundary_simplices.insert(
+                    simplex1->orientation() == +1 ? subsimplex : topology.flip(subsimplex));
             }
         }
         assert(std::size(boundary_simplices) == 4);
-- 
2.43.0


From 692d6c41c47164f508f99f5c84d7c2832a2c01c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 09/25] fix: compose new simplices in the order induced by
 their subsimplices

---
 lib/mito/topology/OrientedSimplexFactory.h | 60 +++++++++++++++++++++-
 1 file changed, 58 insertions(+), 2 deletions(-)

diff --git a/lib/mito/topology/OrientedSimplexFactory.h b/lib/mito/topology/OrientedSimplexFactory.h
index f623aa1..b8090c0 100644
--- a/lib/mito/topology/OrientedSimplexFactory.h
+++ b/lib/mito/topology/OrientedSimplexFactory.h
@@ -153,8 +153,15 @@ namespace mito::topology {
                 assert(false);
             }
 
-            // get the representative of simplices with composition {composition} from the factory
-            const auto & simplex = _simplex_factory.simplex(composition);
+            // find the representative of simplices with composition {composition} in the factory
+            auto simplex = _simplex_factory.findSimplex(composition);
+
+            // if there is none yet
+            if (simplex.is_nullptr()) {
+                // create it, always composed in the order induced by its subsimplices (so that the
+                // orientation of {composition} does not depend on which simplex was created first)
+                simplex = _simplex_factory.simplex(_induced_composition(composition));
+            }
 
             // compute the orientation of the current composition with respect to the
             // representative
@@ -234,6 +241,55 @@ namespace mito::topology {
                 std::array<simplex_id_t, N + 1>{ reference[J]->footprint().id()... });
         }
 
+        // returns the {composition} in the order induced by the orientation of its subsimplices, i.e.
+        // the order in which a simplex is composed when it is built from its vertices
+        inline auto _induced_composition(simplex_composition_t<N> composition) const
+            -> simplex_composition_t<N>
+        requires(N > 0)
+        {
+            // assess whether the {composition} is in the induced order
+            bool is_induced = true;
+
+            if constexpr (N == 1) {
+                // the tail of a segment comes first
+                is_induced = (composition[0]->orientation() == -1);
+            } else {
+                // collect the vertices of all subsimplices, starting from the first one
+                std::vector<vertex_t> vertices;
+                std::ranges::copy(composition[0]->vertices(), std::back_inserter(vertices));
+                for (const auto & vertex : composition[1]->vertices()) {
+                    if (std::ranges::find(vertices, vertex) == std::end(vertices)) {
+                        vertices.push_back(vertex);
+                    }
+                }
+                assert(std::size(vertices) == N + 1);
+
+                // collect the vertices opposite to each subsimplex
+                std::array<vertex_t, N + 1> simplex_vertices;
+                std::array<vertex_t, N + 1> opposite_vertices;
+                for (int i = 0; i < N + 1; ++i) {
+                    simplex_vertices[i] = vertices[i];
+                    const auto subsimplex_vertices = composition[i]->vertices();
+                    opposite_vertices[i] = *std::ranges::find_if(vertices, [&](const auto & v) {
+                        return std::ranges::find(subsimplex_vertices, v)
+                            == std::end(subsimplex_vertices);
+                    });
+                }
+
+                // these are in an even permutation
+                is_induced =
+                    (mito::math::permutation_sign(opposite_vertices, simplex_vertices) == +1);
+            }
+
+            // if it is not, then perform an odd permutation
+            if (!is_induced) {
+                std::swap(composition[0], composition[1]);
+            }
+
+            // all done
+            return composition;
+        }
+
         // compute the orientation of the {composition} with respect to the reference
         // orientation (that is the orientation of the reference simplex)
         inline auto _orientation(
-- 
2.43.0


From 79bb2fd51d162b8850cc6c2f35b44d82feec064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 10/25] fix: account for the orientation of cells in the
 boundary of a mesh

---
 lib/mito/mesh/Boundary.icc |  7 +++++--
 lib/mito/mesh/Mesh.h       | 26 ++++++++++----------------
 2 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/lib/mito/mesh/Boundary.icc b/lib/mito/mesh/Boundary.icc
index 374cb47..0245db2 100644
--- a/lib/mito/mesh/Boundary.icc
+++ b/lib/mito/mesh/Boundary.icc
@@ -46,8 +46,11 @@ mito::mesh::Boundary<meshT>::boundary(const mesh_type & mesh) -> boundary_mesh_t
             });
         // loop on the {subcell} on the boundary
         for (const auto & subcell : subcellsOnBoundary) {
-            // add {cell} to the boundary mesh
-            boundary.insert(mito::geometry::geometric_simplex<D>(subcell, cell.nodes()));
+            // add {subcell}, as seen by {cell}, to the boundary mesh
+            boundary.insert(
+                mito::geometry::geometric_simplex<D>(
+                    cell.simplex()->orientation() == +1 ? subcell : topology::flip(subcell),
+                    cell.nodes()));
         }
     }
 
diff --git a/lib/mito/mesh/Mesh.h b/lib/mito/mesh/Mesh.h
index 1c529b6..da48f76 100644
--- a/lib/mito/mesh/Mesh.h
+++ b/lib/mito/mesh/Mesh.h
@@ -72,9 +72,10 @@ namespace mito::mesh {
             // loop on the subcells of {cell}
             for (const auto & subcell : cell.simplex()->composition()) {
                 // increment the orientations count for this cell footprint id, depending on the
-                // orientation
-                (subcell->orientation() == +1 ? _orientations[subcell->footprint().id()][0] += 1 :
-                                                _orientations[subcell->footprint().id()][1] += 1);
+                // orientation (as seen by {cell})
+                (subcell->orientation() * cell.simplex()->orientation() == +1 ?
+                     _orientations[subcell->footprint().id()][0] += 1 :
+                     _orientations[subcell->footprint().id()][1] += 1);
             }
 
             // all done
@@ -110,8 +111,8 @@ namespace mito::mesh {
                 // loop on the subcells of {cell}
                 for (const auto & subcell : cell.simplex()->composition()) {
                     // decrement the orientations count for this cell footprint id, depending on
-                    // the orientation
-                    (subcell->orientation() == +1 ?
+                    // the orientation (as seen by {cell})
+                    (subcell->orientation() * cell.simplex()->orientation() == +1 ?
                          _orientations[subcell->footprint().id()][0] -= 1 :
                          _orientations[subcell->footprint().id()][1] -= 1);
 
@@ -162,18 +163,11 @@ namespace mito::mesh {
 
         inline auto isOnBoundary(const cell_topological_family_type<N - 1> & cell) const -> bool
         {
-            // count how many times this oriented cell occurs in the mesh with opposite orientation
-            int count = 0;
-            (cell->orientation() == -1 ? count = _orientations.at(cell->footprint().id())[0] :
-                                         count = _orientations.at(cell->footprint().id())[1]);
-
-            // the cell is on the boundary if it never occurs in the mesh with opposite
-            // orientation
-            if (count == 0) {
-                return true;
-            }
+            // get how many times this cell occurs in the mesh with each orientation
+            const auto & orientations = _orientations.at(cell->footprint().id());
 
-            return false;
+            // the cell is on the boundary if it does not occur in the mesh with both orientations
+            return orientations[0] == 0 || orientations[1] == 0;
         }
 
         // insert {cell} in mesh
-- 
2.43.0


From e2f7d8eedbc17bb27f33b212141fc0a75faa1c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:37 +0000
Subject: [PATCH 11/25] fix: share the nodes at the midpoints of edges when
 refining a mesh

---
 lib/mito/mesh/externals.h |   1 +
 lib/mito/mesh/tetra.h     | 106 ++++++++++++++++++++++++++------------
 2 files changed, 73 insertions(+), 34 deletions(-)

diff --git a/lib/mito/mesh/externals.h b/lib/mito/mesh/externals.h
index 6b9ac64..ac8c414 100644
--- a/lib/mito/mesh/externals.h
+++ b/lib/mito/mesh/externals.h
@@ -7,6 +7,7 @@
 #pragma once
 
 // externals
+#include <map>
 #include <ranges>
 #include <unordered_map>
 
diff --git a/lib/mito/mesh/tetra.h b/lib/mito/mesh/tetra.h
index b814332..0c4c0f8 100644
--- a/lib/mito/mesh/tetra.h
+++ b/lib/mito/mesh/tetra.h
@@ -9,15 +9,38 @@
 
 namespace mito::mesh {
 
+    // the nodes at the midpoints of the edges (identified by the nodes at their tips, sorted)
+    template <int D /*spatial dimension*/>
+    using midnodes_t =
+        std::map<std::pair<geometry::node_t<D>, geometry::node_t<D>>, geometry::node_t<D>>;
+
     template <int D /*spatial dimension*/, geometry::coordinates_c coordT>
     requires(coordT::dim == D)
     auto midnode(
         const geometry::node_t<D> & node_a, const geometry::node_t<D> & node_b,
-        geometry::coordinate_system_t<coordT> & coordinate_system) -> geometry::node_t<D>
+        geometry::coordinate_system_t<coordT> & coordinate_system,
+        midnodes_t<D> & midnodes) -> geometry::node_t<D>
     {
-        // return a new node at the midpoint between {node_a} and {node_b}
-        return mito::geometry::node(
-            coordinate_system, coordinate_system.midpoint(node_a->point(), node_b->point()));
+        // the edge between {node_a} and {node_b}, irrespective of its orientation
+        auto edge =
+            node_a < node_b ? std::make_pair(node_a, node_b) : std::make_pair(node_b, node_a);
+
+        // look up the node at the midpoint of this edge
+        auto it = midnodes.find(edge);
+
+        // if there is none yet
+        if (it == midnodes.end()) {
+            // create a new node at the midpoint between {node_a} and {node_b}
+            it = midnodes
+                     .emplace(
+                         edge, mito::geometry::node(
+                                   coordinate_system,
+                                   coordinate_system.midpoint(node_a->point(), node_b->point())))
+                     .first;
+        }
+
+        // return the node at the midpoint between {node_a} and {node_b}
+        return it->second;
     }
 
     template <int D /*spatial dimension*/, geometry::coordinates_c coordT>
@@ -25,10 +48,11 @@ namespace mito::mesh {
     auto subdivide(
         const geometry::node_t<D> & node_0, const geometry::node_t<D> & node_1,
         geometry::coordinate_system_t<coordT> & coordinate_system,
-        mesh_t<geometry::segment_t<D>> & subdivided_mesh, int n_refinements) -> void
+        mesh_t<geometry::segment_t<D>> & subdivided_mesh, int n_refinements,
+        midnodes_t<D> & midnodes) -> void
     {
         // compute the middle node of the segment 0->1
-        auto node_01 = midnode(node_0, node_1, coordinate_system);
+        auto node_01 = midnode(node_0, node_1, coordinate_system, midnodes);
 
         // if there are no more refinements to be made
         if (n_refinements == 1) {
@@ -42,8 +66,8 @@ namespace mito::mesh {
         }
 
         // otherwise recursively subdivide the four cells
-        subdivide(node_0, node_01, coordinate_system, subdivided_mesh, n_refinements - 1);
-        subdivide(node_01, node_1, coordinate_system, subdivided_mesh, n_refinements - 1);
+        subdivide(node_0, node_01, coordinate_system, subdivided_mesh, n_refinements - 1, midnodes);
+        subdivide(node_01, node_1, coordinate_system, subdivided_mesh, n_refinements - 1, midnodes);
 
         // all done
         return;
@@ -55,16 +79,17 @@ namespace mito::mesh {
         const geometry::node_t<D> & node_0, const geometry::node_t<D> & node_1,
         const geometry::node_t<D> & node_2,
         geometry::coordinate_system_t<coordT> & coordinate_system,
-        mesh_t<geometry::triangle_t<D>> & subdivided_mesh, int n_refinements) -> void
+        mesh_t<geometry::triangle_t<D>> & subdivided_mesh, int n_refinements,
+        midnodes_t<D> & midnodes) -> void
     {
         // compute the middle point of the segment 0->1
-        auto node_01 = midnode(node_0, node_1, coordinate_system);
+        auto node_01 = midnode(node_0, node_1, coordinate_system, midnodes);
 
         // compute the middle point of the segment 1->2
-        auto node_12 = midnode(node_1, node_2, coordinate_system);
+        auto node_12 = midnode(node_1, node_2, coordinate_system, midnodes);
 
         // compute the middle point of the segment 2->0
-        auto node_20 = midnode(node_2, node_0, coordinate_system);
+        auto node_20 = midnode(node_2, node_0, coordinate_system, midnodes);
 
         // if there are no more refinements to be made
         if (n_refinements == 1) {
@@ -80,10 +105,18 @@ namespace mito::mesh {
         }
 
         // otherwise recursively subdivide the four cells
-        subdivide(node_0, node_01, node_20, coordinate_system, subdivided_mesh, n_refinements - 1);
-        subdivide(node_01, node_1, node_12, coordinate_system, subdivided_mesh, n_refinements - 1);
-        subdivide(node_12, node_2, node_20, coordinate_system, subdivided_mesh, n_refinements - 1);
-        subdivide(node_20, node_01, node_12, coordinate_system, subdivided_mesh, n_refinements - 1);
+        subdivide(
+            node_0, node_01, node_20, coordinate_system, subdivided_mesh, n_refinements - 1,
+            midnodes);
+        subdivide(
+            node_01, node_1, node_12, coordinate_system, subdivided_mesh, n_refinements - 1,
+            midnodes);
+        subdivide(
+            node_12, node_2, node_20, coordinate_system, subdivided_mesh, n_refinements - 1,
+            midnodes);
+        subdivide(
+            node_20, node_01, node_12, coordinate_system, subdivided_mesh, n_refinements - 1,
+            midnodes);
 
         // all done
         return;
@@ -95,25 +128,26 @@ namespace mito::mesh {
         const geometry::node_t<D> & node_0, const geometry::node_t<D> & node_1,
         const geometry::node_t<D> & node_2, const geometry::node_t<D> & node_3,
         geometry::coordinate_system_t<coordT> & coordinate_system,
-        mesh_t<geometry::tetrahedron_t<D>> & subdivided_mesh, int n_refinements) -> void
+        mesh_t<geometry::tetrahedron_t<D>> & subdivided_mesh, int n_refinements,
+        midnodes_t<D> & midnodes) -> void
     {
         // compute the middle point of the segment 0->1
-        auto node_01 = midnode(node_0, node_1, coordinate_system);
+        auto node_01 = midnode(node_0, node_1, coordinate_system, midnodes);
 
         // compute the middle point of the segment 0->2
-        auto node_02 = midnode(node_0, node_2, coordinate_system);
+        auto node_02 = midnode(node_0, node_2, coordinate_system, midnodes);
 
         // compute the middle point of the segment 0->3
-        auto node_03 = midnode(node_0, node_3, coordinate_system);
+        auto node_03 = midnode(node_0, node_3, coordinate_system, midnodes);
 
         // compute the middle point of the segment 1->2
-        auto node_12 = midnode(node_1, node_2, coordinate_system);
+        auto node_12 = midnode(node_1, node_2, coordinate_system, midnodes);
 
         // compute the middle point of the segment 1->3
-        auto node_13 = midnode(node_1, node_3, coordinate_system);
+        auto node_13 = midnode(node_1, node_3, coordinate_system, midnodes);
 
         // compute the middle point of the segment 2->3
-        auto node_23 = midnode(node_2, node_3, coordinate_system);
+        auto node_23 = midnode(node_2, node_3, coordinate_system, midnodes);
 
         // if there are no more refinements to be made
         if (n_refinements == 1) {
@@ -135,28 +169,28 @@ namespace mito::mesh {
         // otherwise recursively subdivide the four cells
         subdivide(
             node_0, node_01, node_02, node_03, coordinate_system, subdivided_mesh,
-            n_refinements - 1);
+            n_refinements - 1, midnodes);
         subdivide(
             node_1, node_01, node_13, node_12, coordinate_system, subdivided_mesh,
-            n_refinements - 1);
+            n_refinements - 1, midnodes);
         subdivide(
             node_2, node_02, node_12, node_23, coordinate_system, subdivided_mesh,
-            n_refinements - 1);
+            n_refinements - 1, midnodes);
         subdivide(
             node_03, node_3, node_13, node_23, coordinate_system, subdivided_mesh,
-            n_refinements - 1);
+            n_refinements - 1, midnodes);
         subdivide(
             node_02, node_01, node_13, node_03, coordinate_system, subdivided_mesh,
-            n_refinements - 1);
+            n_refinements - 1, midnodes);
         subdivide(
             node_02, node_03, node_13, node_23, coordinate_system, subdivided_mesh,
-            n_refinements - 1);
+            n_refinements - 1, midnodes);
         subdivide(
             node_01, node_02, node_13, node_12, coordinate_system, subdivided_mesh,
-            n_refinements - 1);
+            n_refinements - 1, midnodes);
         subdivide(
             node_02, node_23, node_13, node_12, coordinate_system, subdivided_mesh,
-            n_refinements - 1);
+            n_refinements - 1, midnodes);
 
         // all done
         return;
@@ -184,6 +218,9 @@ namespace mito::mesh {
             return subdivided_mesh;
         }
 
+        // the nodes at the midpoints of the edges (shared by the cells that meet at them)
+        midnodes_t<cellT::dim> midnodes;
+
         // loop on the cells of the mesh
         for (const auto & cell : mesh.cells()) {
 
@@ -194,14 +231,15 @@ namespace mito::mesh {
             constexpr auto _subdivide =
                 []<size_t... J>(
                     const auto & nodes, geometry::coordinate_system_t<coordT> & coordinate_system,
-                    mesh_t<cellT> & subdivided_mesh, int n_refinements, std::index_sequence<J...>) {
+                    mesh_t<cellT> & subdivided_mesh, int n_refinements,
+                    midnodes_t<cellT::dim> & midnodes, std::index_sequence<J...>) {
                     return subdivide(
-                        nodes[J]..., coordinate_system, subdivided_mesh, n_refinements);
+                        nodes[J]..., coordinate_system, subdivided_mesh, n_refinements, midnodes);
                 };
 
             // recursively subdivide the cell identified by these vertices
             _subdivide(
-                nodes, coordinate_system, subdivided_mesh, n_refinements,
+                nodes, coordinate_system, subdivided_mesh, n_refinements, midnodes,
                 std::make_index_sequence<cellT::order + 1>{});
         }
 
-- 
2.43.0


From 2292de0e0cdbb68e9336bdc057b260abc84cdec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 12/25] fix: wedge product of a one-form and a two-form dropped
 one of its three terms

---
 lib/mito/tensor/wedge.h | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/lib/mito/tensor/wedge.h b/lib/mito/tensor/wedge.h
index 9d62b50..0960436 100644
--- a/lib/mito/tensor/wedge.h
+++ b/lib/mito/tensor/wedge.h
@@ -56,30 +56,22 @@ namespace mito::tensor {
     }
 
     // TOFIX: this wedge product could be implemented in general for any two p1- and p2-forms
-    // in a similar fashion to the {split_variadic} example in the sandbox, as the sum of two
-    // (p1+p2)-forms where the first contracts the firs p1 parameters (...) with b_tilda and the
-    // rest with wedge(b_tilda(...), a_tilda), while the second contracts the first p2 parameters
-    // (...) with a_tilda and the rest with wedge(b_tilda, a_tilda(...))
+    // in a similar fashion to the {split_variadic} example in the sandbox
 
     // wedge of a p1-form with a p2-form
     template <int P1, class F1, int P2, class F2>
     constexpr auto wedge(const form_t<P1, F1> & b_tilda, const form_t<P2, F2> & a_tilda)
     requires(P1 == 1 && P2 == 2)
     {
-        // positive sign if P1 is even, negative sign if P1 is odd
-        constexpr int sign = (P1 % 2 ? +1 : -1);
-
+        // return a {form} that, when contracted with {x}, {y} and {z}, ...
         return form<P1 + P2>(
-                   [a_tilda, b_tilda]<class X, class Y, class Z>(
-                       const X & x, const Y & y, const Z & z) -> auto {
-                       return wedge(b_tilda(x), a_tilda)(y, z);
-                   })
-             + sign
-                   * form<P1 + P2>(
-                       [a_tilda, b_tilda]<class X, class Y, class Z>(
-                           const X & x, const Y & y, const Z & z) -> auto {
-                           return wedge(b_tilda, a_tilda(x, y))(z);
-                       });
+            [a_tilda, b_tilda]<class X, class Y, class Z>(
+                const X & x, const Y & y, const Z & z) -> auto {
+                // ... returns the sum, with sign, over the ways of giving one of them to {b_tilda}
+                // and the other two, in their order, to {a_tilda}
+                return b_tilda(x) * a_tilda(y, z) - b_tilda(y) * a_tilda(x, z)
+                     + b_tilda(z) * a_tilda(x, y);
+            });
     }
 }
 
-- 
2.43.0


From 45650e1ec0e31b3b17c3af0450470f1503e3e59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 13/25] fix: composing a composition of functions with another
 function did not compile

---
 lib/mito/functions/function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mito/functions/function.h b/lib/mito/functions/function.h
index c0f2f87..2f91f72 100644
--- a/lib/mito/functions/function.h
+++ b/lib/mito/functions/function.h
@@ -514,7 +514,7 @@ namespace mito::functions {
         template <function_c H>
         constexpr auto operator()(const H & f) const
         {
-            return Composition(*this, f);
+            return Composition<Composition<F, G>, H>(*this, f);
         }
 
         // subscript operator: only available if {output_type} is subscriptable
-- 
2.43.0


From d71144ba14321a413378afe8a2be899d7e66779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 14/25] fix: transpose of a transpose, and inverse of an
 inverse, returned its argument

---
 lib/mito/functions/algebra.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/mito/functions/algebra.h b/lib/mito/functions/algebra.h
index 4a127c2..dea84a4 100644
--- a/lib/mito/functions/algebra.h
+++ b/lib/mito/functions/algebra.h
@@ -94,7 +94,8 @@ namespace mito::functions {
     // f transposed
     constexpr auto transpose(const function_c auto & f)
     {
-        return Transpose(f);
+        // (template argument deduction would make a copy of {f} if {f} is itself a {Transpose})
+        return Transpose<std::remove_cvref_t<decltype(f)>>(f);
     }
 
     // determinant of f
@@ -106,7 +107,8 @@ namespace mito::functions {
     // f inverse
     constexpr auto inverse(const function_c auto & f)
     {
-        return Inverse(f);
+        // (template argument deduction would make a copy of {f} if {f} is itself an {Inverse})
+        return Inverse<std::remove_cvref_t<decltype(f)>>(f);
     }
 
     // dyadic product of vector-valued functions f and g
-- 
2.43.0


From 92575534bc320d352fc16c9855eb2f6b03ce822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 15/25] fix: linear combinations of functions of the same type
 could not be differentiated

---
 lib/mito/functions/derivation_rules.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/mito/functions/derivation_rules.h b/lib/mito/functions/derivation_rules.h
index e535412..d29a59b 100644
--- a/lib/mito/functions/derivation_rules.h
+++ b/lib/mito/functions/derivation_rules.h
@@ -108,8 +108,11 @@ namespace mito::functions {
     constexpr auto derivative(const LinearCombination<T, Funcs...> & f)
     {
         // the derivative of a linear combination is the linear combination of the derivatives
-        return linear_combination(
-            f.coefficients(), derivative<I>(std::get<Funcs>(f.functions()))...);
+        return std::apply(
+            [&](const auto &... funcs) {
+                return linear_combination(f.coefficients(), derivative<I>(funcs)...);
+            },
+            f.functions());
     }
 }
 
-- 
2.43.0


From c8f31f666bf74af57d8c6c3f6ae128e56c7dda77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 16/25] fix: x_2 extracted the second cartesian coordinate
 instead of the third

---
 lib/mito/geometry/cartesian/api.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mito/geometry/cartesian/api.h b/lib/mito/geometry/cartesian/api.h
index 25e4626..94dec70 100644
--- a/lib/mito/geometry/cartesian/api.h
+++ b/lib/mito/geometry/cartesian/api.h
@@ -37,7 +37,7 @@ namespace mito::geometry::cartesian {
     // the function extracting the 2-nd coordinate from a cartesian coordinate set
     template <int D>
     requires(D > 2)
-    constexpr auto x_2 = functions::component<cartesian_coordinates_t<D>, 1>;
+    constexpr auto x_2 = functions::component<cartesian_coordinates_t<D>, 2>;
 
     // the basis for vector fields (e_0)
     template <int D>
-- 
2.43.0


From e5b6460218412651e761d8ffbbc1c31da66a65c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 17/25] fix: iterating on a point cloud used dangling
 references

---
 lib/mito/geometry/PointCloud.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mito/geometry/PointCloud.h b/lib/mito/geometry/PointCloud.h
index 3d011a5..0af9a69 100644
--- a/lib/mito/geometry/PointCloud.h
+++ b/lib/mito/geometry/PointCloud.h
@@ -47,8 +47,8 @@ namespace mito::geometry {
         }
 
         // support for ranged for loops (wrapping grid)
-        inline auto begin() const -> const auto & { return std::begin(_cloud); }
-        inline auto end() const -> const auto & { return std::end(_cloud); }
+        inline auto begin() const { return std::begin(_cloud); }
+        inline auto end() const { return std::end(_cloud); }
 
         auto size() const noexcept -> int { return std::size(_cloud); }
 
-- 
2.43.0


From e47b25658274a816578eb6ff7cbf998e60320343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 18/25] fix: the form equivalent to a vector field was wrong in
 curvilinear coordinates

---
 lib/mito/geometry/metric_space.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/mito/geometry/metric_space.h b/lib/mito/geometry/metric_space.h
index e6e5343..cf70894 100644
--- a/lib/mito/geometry/metric_space.h
+++ b/lib/mito/geometry/metric_space.h
@@ -87,8 +87,9 @@ namespace mito::geometry {
     constexpr auto metric_space<coordsT>::metric_equivalent(
         const fields::vector_field_c auto & vector)
     {
-        // return a one form field that, once evaluated at {x}...
-        return _one_form(vector, g_inv);
+        // return the one form field contracting with {vector} (the components of vectors are those
+        // in the orthonormal frame along the coordinate lines, where the metric is the identity)
+        return _one_form(vector, functions::identity<coordinates_type, D>());
     }
 
     template <coordinates_c coordsT>
-- 
2.43.0


From 99d3497a31c46b61dc44d62eb89c5e5f43ab4c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 19/25] fix: sums and differences at the poles of polar and
 spherical coordinates were not a number

---
 lib/mito/geometry/polar/algebra.h     | 17 ++++++---------
 lib/mito/geometry/spherical/algebra.h | 31 +++++++++++----------------
 2 files changed, 19 insertions(+), 29 deletions(-)

diff --git a/lib/mito/geometry/polar/algebra.h b/lib/mito/geometry/polar/algebra.h
index 1263c3e..306d409 100644
--- a/lib/mito/geometry/polar/algebra.h
+++ b/lib/mito/geometry/polar/algebra.h
@@ -18,17 +18,13 @@ namespace mito::geometry {
         const auto & r_A = A[0];
         const auto & theta_A = A[1];
 
-        // evaluate {e_r} and {e_theta} at A
-        const auto e_r = polar::e_r(A);
-        const auto e_theta = polar::e_theta(A);
-
         // get the radial and hoop component of vector {v}
-        const auto v_r = v * e_r;
-        const auto v_theta = v * e_theta / (e_theta * e_theta);
+        const auto v_r = v[0];
+        const auto v_theta = v[1];
 
         // compute r and theta of point B, which is point A plus vector {v}
-        auto r_B = std::sqrt((r_A + v_r) * (r_A + v_r) + v_theta * r_A * v_theta * r_A);
-        auto theta_B = theta_A + std::atan2(v_theta * r_A, r_A + v_r);
+        auto r_B = std::sqrt((r_A + v_r) * (r_A + v_r) + v_theta * v_theta);
+        auto theta_B = theta_A + std::atan2(v_theta, r_A + v_r);
 
         // all done
         return polar_coordinates_t({ r_B, theta_B });
@@ -45,8 +41,9 @@ namespace mito::geometry {
         const auto & theta_A = A[1];
         const auto & theta_B = B[1];
 
-        return (r_B * std::cos(theta_B - theta_A) - r_A) * polar::e_r(A)
-             + (r_B * std::sin(theta_B - theta_A)) * polar::e_theta(A) / r_A;
+        // (the hoop direction is defined also at the pole, where {e_theta} vanishes)
+        return (r_B * std::cos(theta_B - theta_A) - r_A) * tensor::e_0<2>
+             + (r_B * std::sin(theta_B - theta_A)) * tensor::e_1<2>;
     }
 }
 
diff --git a/lib/mito/geometry/spherical/algebra.h b/lib/mito/geometry/spherical/algebra.h
index f247a5c..36b2697 100644
--- a/lib/mito/geometry/spherical/algebra.h
+++ b/lib/mito/geometry/spherical/algebra.h
@@ -23,21 +23,14 @@ namespace mito::geometry {
         const auto sin_theta_A = std::sin(theta_A);
         const auto cos_theta_A = std::cos(theta_A);
 
-        // evaluate {e_r}, {e_theta} and {e_phi} at A
-        const auto e_r = spherical::e_r(A);
-        const auto e_theta = spherical::e_theta(A);
-        const auto e_phi = spherical::e_phi(A);
-
         // get the r, theta and phi components of vector {v}
-        const auto v_r = v * e_r;
-        const auto v_theta = v * e_theta / (e_theta * e_theta);
-        const auto v_phi = v * e_phi / (e_phi * e_phi);
+        const auto v_r = v[0];
+        const auto v_theta = v[1];
+        const auto v_phi = v[2];
 
         // compute phi of point B, which is point A plus vector {v}
         const auto phi_B =
-            phi_A
-            + std::atan2(
-                v_phi * r_A * sin_theta_A, (r_A + v_r) * sin_theta_A + v_theta * r_A * cos_theta_A);
+            phi_A + std::atan2(v_phi, (r_A + v_r) * sin_theta_A + v_theta * cos_theta_A);
 
         // precompute handful variables
         const auto sin_phi_A_B = std::sin(phi_B - phi_A);
@@ -45,9 +38,8 @@ namespace mito::geometry {
 
         // compute theta of point B, which is point A plus vector {v}
         const auto theta_B = std::atan2(
-            v_phi * r_A * sin_theta_A * sin_phi_A_B
-                + (v_theta * r_A * cos_theta_A + (r_A + v_r) * sin_theta_A) * cos_phi_A_B,
-            -v_theta * r_A * sin_theta_A + (r_A + v_r) * cos_theta_A);
+            v_phi * sin_phi_A_B + (v_theta * cos_theta_A + (r_A + v_r) * sin_theta_A) * cos_phi_A_B,
+            -v_theta * sin_theta_A + (r_A + v_r) * cos_theta_A);
 
         // precompute handful variables
         const auto sin_theta_B = std::sin(theta_B);
@@ -56,8 +48,8 @@ namespace mito::geometry {
         // compute r of point B, which is point A plus vector {v}
         const auto r_B =
             (v_r + r_A) * (sin_theta_A * sin_theta_B * cos_phi_A_B + cos_theta_A * cos_theta_B)
-            + v_theta * r_A * (cos_theta_A * sin_theta_B * cos_phi_A_B - sin_theta_A * cos_theta_B)
-            + v_phi * r_A * sin_theta_A * sin_theta_B * sin_phi_A_B;
+            + v_theta * (cos_theta_A * sin_theta_B * cos_phi_A_B - sin_theta_A * cos_theta_B)
+            + v_phi * sin_theta_B * sin_phi_A_B;
 
         // all done
         return spherical_coordinates_t({ r_B, theta_B, phi_B });
@@ -83,11 +75,12 @@ namespace mito::geometry {
         const auto cos_phi_A_B = std::cos(phi_B - phi_A);
         const auto sin_phi_A_B = std::sin(phi_B - phi_A);
 
+        // (the directions of {e_theta} and {e_phi} are defined also where these vanish)
         return (r_B * (sin_theta_A * sin_theta_B * cos_phi_A_B + cos_theta_A * cos_theta_B) - r_A)
-                 * spherical::e_r(A)
+                 * tensor::e_0<3>
              + r_B * (sin_theta_B * cos_theta_A * cos_phi_A_B - sin_theta_A * cos_theta_B)
-                   * spherical::e_theta(A) / r_A
-             + r_B * sin_theta_B * sin_phi_A_B * spherical::e_phi(A) / (r_A * sin_theta_A);
+                   * tensor::e_1<3>
+             + r_B * sin_theta_B * sin_phi_A_B * tensor::e_2<3>;
     }
 }
 
-- 
2.43.0


From e73399f7830419c8d348025d8fe22c5945754fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 20/25] fix: quadrature points in curvilinear coordinates were
 taken for vectors

---
 lib/mito/quadrature/Integrator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/mito/quadrature/Integrator.h b/lib/mito/quadrature/Integrator.h
index 8912459..1993580 100644
--- a/lib/mito/quadrature/Integrator.h
+++ b/lib/mito/quadrature/Integrator.h
@@ -39,10 +39,12 @@ namespace mito::quadrature {
             for (const auto & element : _manifold.elements()) {
                 // get element parametrization under the manifold's coordinate system
                 const auto parametrization = element.parametrization(_manifold.coordinate_system());
+                // get the origin of the coordinate system, where the parametrization stems from
+                const auto origin = _manifold.coordinate_system().origin();
                 // populate the field with the coordinates of the quadrature points in physical
                 // space
                 _coordinates.insert(
-                    element.simplex(), { parametrization(_quadratureRule.point(q))... });
+                    element.simplex(), { (origin + parametrization(_quadratureRule.point(q)))... });
             }
 
             // all done
-- 
2.43.0


From 077689801ceade0ec161b03549ae51fdc13718b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:56 +0000
Subject: [PATCH 21/25] fix: the H1 norm took gradients with respect to
 parametric coordinates

---
 lib/mito/fem/norms.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/mito/fem/norms.h b/lib/mito/fem/norms.h
index 79ea71a..409bcd2 100644
--- a/lib/mito/fem/norms.h
+++ b/lib/mito/fem/norms.h
@@ -62,11 +62,17 @@ namespace mito::fem {
             auto u1_local_gradient = fields::gradient(u1_local);
             // localize the gradient of the exact solution on this element
             auto u2_local_gradient = fields::gradient(u2_local);
+            // the spatial gradient of the difference of the two fields, from the gradients with
+            // respect to the parametric coordinates
+            auto gradient_difference = functions::function(
+                [&](const typename element_type::parametric_coordinates_type & xi) {
+                    return (u1_local_gradient(xi) - u2_local_gradient(xi))
+                         * tensor::inverse(element.jacobian()(xi));
+                });
             // compute the elementary contributions to the H1 norm
             norm += blocks::l2_norm_block<element_type, quadratureRuleT>(u1_local - u2_local)
                         .compute(element)
-                  + blocks::l2_norm_block<element_type, quadratureRuleT>(
-                        u1_local_gradient - u2_local_gradient)
+                  + blocks::l2_norm_block<element_type, quadratureRuleT>(gradient_difference)
                         .compute(element);
         }
 
-- 
2.43.0


From 61647b8bcc6d613b1471e5fe3c0379bfc4e88985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:46 +0000
Subject: [PATCH 22/25] fix: quadrature fields could not be made from a mesh

---
 lib/mito/discrete/factories.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/mito/discrete/factories.h b/lib/mito/discrete/factories.h
index 4dffe31..2a860f1 100644
--- a/lib/mito/discrete/factories.h
+++ b/lib/mito/discrete/factories.h
@@ -13,10 +13,16 @@ namespace mito::discrete {
     template <class Y, int Q, mesh::mesh_c meshT>
     constexpr auto quadrature_field(const meshT & mesh, std::string name)
     {
-        // build a quadrature field on the cells collected from the mesh
-        // ({Q} quad points per cell)
-        return quadrature_field_t<typename meshT::cell_type::simplex_type, Q, Y>(
-            mesh.cells(), name);
+        // build an empty quadrature field ({Q} quad points per cell)
+        quadrature_field_t<typename meshT::cell_type::simplex_type, Q, Y> field(name);
+
+        // populate it with the simplices of the cells collected from the mesh
+        for (const auto & cell : mesh.cells()) {
+            field.insert(cell.simplex());
+        }
+
+        // return the quadrature field
+        return field;
     }
 
     // mesh field factory
-- 
2.43.0


From 4da7c788280d24d4051a45049f5ca43200137b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 23/25] fix: a Summit file written with an element type could
 not be read

---
 lib/mito/io/summit/externals.h | 1 +
 lib/mito/io/summit/reader.h    | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/lib/mito/io/summit/externals.h b/lib/mito/io/summit/externals.h
index a6ff20d..ab477bb 100644
--- a/lib/mito/io/summit/externals.h
+++ b/lib/mito/io/summit/externals.h
@@ -8,6 +8,7 @@
 
 
 // externals
+#include <cctype>
 #include <fstream>
 
 
diff --git a/lib/mito/io/summit/reader.h b/lib/mito/io/summit/reader.h
index 137387a..4b98b55 100644
--- a/lib/mito/io/summit/reader.h
+++ b/lib/mito/io/summit/reader.h
@@ -100,6 +100,12 @@ namespace mito::io::summit {
         std::string cell_set_id;
         fileStream >> cell_set_id;
 
+        // skip the element type, which the writer appends to the cell when it is given one
+        if (std::isalpha((fileStream >> std::ws).peek())) {
+            std::string element_type;
+            fileStream >> element_type;
+        }
+
         // all done
         return;
     }
-- 
2.43.0


From cce544b5679a1461743042aad7bfe0f2ce7a8485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:15 +0000
Subject: [PATCH 24/25] fix: negative values of solver options were taken for
 options

---
 lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc | 6 +++---
 lib/mito/matrix_solvers/backend/petsc/externals.h          | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
index c054596..cb39121 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
@@ -65,10 +65,10 @@ namespace {
         std::string word_string = options.substr(pos_old, pos_new - pos_old);
         options_vector.push_back(word_string);
 
-        // for each word, if the leading character is '-', insert the {prefix} between '-' and the
-        // rest of the word
+        // for each word, if the leading character is '-' and the word is not a negative number,
+        // insert the {prefix} between '-' and the rest of the word
         for (auto & word : options_vector) {
-            if (word[0] == '-') {
+            if (word[0] == '-' && !std::isdigit(word[1]) && word[1] != '.') {
                 word.erase(0, 1);
                 word = "-" + prefix + word;
             }
diff --git a/lib/mito/matrix_solvers/backend/petsc/externals.h b/lib/mito/matrix_solvers/backend/petsc/externals.h
index 08ed8f3..dcfff4b 100644
--- a/lib/mito/matrix_solvers/backend/petsc/externals.h
+++ b/lib/mito/matrix_solvers/backend/petsc/externals.h
@@ -11,6 +11,7 @@
 #include <string>
 #include <vector>
 #include <cassert>
+#include <cctype>
 
 // support
 #include "../../../journal.h"
-- 
2.43.0


From 4f6f6c5021a0508a8df01f8a5f65db1f0cf13cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:20 +0000
Subject: [PATCH 25/25] fix: material consistency tests referred to numbers
 that were gone

---
 lib/mito/materials/MaterialConsistencyTest.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mito/materials/MaterialConsistencyTest.h b/lib/mito/materials/MaterialConsistencyTest.h
index 04f6f3c..46caf60 100644
--- a/lib/mito/materials/MaterialConsistencyTest.h
+++ b/lib/mito/materials/MaterialConsistencyTest.h
@@ -154,9 +154,9 @@ class mito::materials::MaterialConsistencyTest {
     // the material
     const material_type & _material;
     // the perturbation for the numerical derivatives
-    const real & _perturbation;
+    const real _perturbation;
     // the tolerance for passing the test
-    const real & _tolerance;
+    const real _tolerance;
 };
 
 
-- 
2.43.0

