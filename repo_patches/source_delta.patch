From 32d5f38e061127ef57e12d4d21fadececbcd5cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 01/27] fix: test a line of sight against every open edge, not
 only the first recorded

---
 .../code/datastructures/open_edges/open_edges.cpp    | 12 +++++++++++-
 .../code/datastructures/open_edges/open_edges.hpp    |  4 ++--
 .../code/visgraph/vistree_generator.cpp              | 11 +----------
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
index e384cad..c50cde2 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
@@ -26,6 +26,16 @@ void OpenEdges::remove_edge(const LineSegment &segment) {
     }
 }
 
-LineSegment OpenEdges::closest_edge() const { return _edges_sorted_by_distance.begin()->second; }
+bool OpenEdges::obstructs(const LineSegment &line_of_sight) const {
+    for (const auto &distance_and_edge : _edges_sorted_by_distance) {
+        const auto &edge = distance_and_edge.second;
+        if (edge.intersection_with_segment(line_of_sight).has_value() &&
+            !edge.on_segment(line_of_sight.get_endpoint_2())) {
+            return true;
+        }
+    }
+
+    return false;
+}
 
 bool OpenEdges::empty() const { return _edges_sorted_by_distance.empty(); }
diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp
index cdd4872..669657b 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp
@@ -16,11 +16,11 @@ class OpenEdges {
     void add_edge(int64_t distance, const LineSegment &segment);
     void remove_edge(const LineSegment &segment);
 
-    [[nodiscard]] LineSegment closest_edge() const;
+    [[nodiscard]] bool obstructs(const LineSegment &line_of_sight) const;
     [[nodiscard]] bool empty() const;
 
   private:
-    std::map<int64_t, const LineSegment> _edges_sorted_by_distance;
+    std::multimap<int64_t, const LineSegment> _edges_sorted_by_distance;
     std::unordered_map<LineSegment, int64_t> _edge_to_distance_mapping;
 };
 
diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
index cdd4097..d3a22fa 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
@@ -213,16 +213,7 @@ bool VistreeGenerator::is_vertex_visible(const OpenEdges &open_edges, const Coor
         }
     }
 
-    if (!open_edges.empty()) {
-        const auto &closest_edge = open_edges.closest_edge();
-        const auto intersection =
-            closest_edge.intersection_with_segment(LineSegment(observer_coordinate, vertex_in_question));
-        if (intersection.has_value() && intersection.value() != vertex_in_question) {
-            return false;
-        }
-    }
-
-    return true;
+    return !open_edges.obstructs(LineSegment(observer_coordinate, vertex_in_question));
 }
 
 void VistreeGenerator::erase_segments_from_open_edges(const std::vector<std::shared_ptr<LineSegment>> &segments,
-- 
2.43.0


From 4018040a4e2e70fd3d8e8302e1479ef573789395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 02/27] fix: build the observer's barrier correctly for trees
 made from segments

---
 .../code/visgraph/vistree_generator.cpp       | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
index d3a22fa..e3ed0c2 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
@@ -200,16 +200,18 @@ bool VistreeGenerator::is_vertex_visible(const OpenEdges &open_edges, const Coor
         barrier_polyline_vertices.reserve(3);
 
         const auto &vertex_segments = _vertices_and_segments.at(observer_coordinate);
-        for (size_t i = 0; i < vertex_segments.size(); ++i) {
-            barrier_polyline_vertices.push_back(vertex_segments[i]->get_endpoint_1());
-            if (i != 0)
-                barrier_polyline_vertices.push_back(vertex_segments[i]->get_endpoint_2());
-        }
-
-        const auto barrier_polyline = ThreeVertexPolyline(barrier_polyline_vertices[0], barrier_polyline_vertices[1],
-                                                          barrier_polyline_vertices[2]);
-        if (!barrier_polyline.point_visible(vertex_in_question)) {
-            return false;
+        if (vertex_segments.size() == 2) {
+            // The segments may have been supplied in any order, the incoming one has to go first
+            const size_t incoming = (vertex_segments[0]->get_endpoint_2() == observer_coordinate) ? 0 : 1;
+            barrier_polyline_vertices.push_back(vertex_segments[incoming]->get_adjacent_to(observer_coordinate));
+            barrier_polyline_vertices.push_back(observer_coordinate);
+            barrier_polyline_vertices.push_back(vertex_segments[1 - incoming]->get_adjacent_to(observer_coordinate));
+
+            const auto barrier_polyline = ThreeVertexPolyline(
+                barrier_polyline_vertices[0], barrier_polyline_vertices[1], barrier_polyline_vertices[2]);
+            if (!barrier_polyline.point_visible(vertex_in_question)) {
+                return false;
+            }
         }
     }
 
-- 
2.43.0


From da67dafd91c162eb8b1c04374413624ae690e3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 03/27] fix: order vertices around an observer by exact
 direction

---
 .../code/geom/angle_sorter/angle_sorter.cpp   | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp b/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
index b5be354..e9b06ba 100644
--- a/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
+++ b/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
@@ -14,23 +14,30 @@ void AngleSorter::sort_counter_clockwise_around_observer(const Coordinate &obser
 
     const auto cmp = [&](const Coordinate &c1, const Coordinate &c2) -> bool {
         if (c1 == observer) {
-            return true;
+            return c2 != observer;
         } else if (c2 == observer) {
             return false;
         }
 
         const auto v1 = c1 - observer;
         const auto v2 = c2 - observer;
-        const auto dotprod = v1.dot_product_microdegrees(v2);
 
-        if (v1.vector_orientation(v2) != Orientation::COLLINEAR || dotprod < 0) {
-            const auto v1_angle_to_horizontal = v1.angle_to_horizontal();
-            const auto v2_angle_to_horizontal = v2.angle_to_horizontal();
+        // Exact comparison: directions in [0, pi) come before those in [pi, 2pi), then the turn between them decides
+        const auto in_upper_half = [](const Coordinate &v) {
+            return v.get_latitude_microdegrees() > 0 ||
+                   (v.get_latitude_microdegrees() == 0 && v.get_longitude_microdegrees() > 0);
+        };
+        const auto v1_in_upper_half = in_upper_half(v1);
+        if (v1_in_upper_half != in_upper_half(v2)) {
+            return v1_in_upper_half;
+        }
 
-            return v1_angle_to_horizontal < v2_angle_to_horizontal;
+        const auto orientation = v1.vector_orientation(v2);
+        if (orientation != Orientation::COLLINEAR) {
+            return orientation == Orientation::COUNTER_CLOCKWISE;
         }
 
-        return v1.magnitude_squared() < v2.magnitude_squared();
+        return v1.magnitude_squared_microdegrees() < v2.magnitude_squared_microdegrees();
     };
 
     std::sort(vertices.begin(), vertices.end(), cmp);
-- 
2.43.0


From 048d1185471bd1c5059659f42a88a571c039df73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 04/27] fix: compute winding and reflex corners in exact
 integers

---
 .../visibility_graphs/code/types/polygon/polygon.cpp       | 7 ++++---
 .../code/types/polyline/three_vertex_polyline.cpp          | 3 +--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
index cc34f58..d50153a 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
@@ -60,13 +60,14 @@ Polygon::normalize_vertex_orientation_to_counter_clockwise(const std::vector<Coo
 }
 
 Orientation get_orientation_of_vertices(const std::vector<Coordinate> &vertices) {
-    double winding_sum = 0;
+    int64_t winding_sum = 0;
     long num_vertices = vertices.size();
 #pragma omp simd reduction(+ : winding_sum)
     for (long i = 0; i < num_vertices; ++i) {
         long next_i = (i + 1) % num_vertices;
-        winding_sum += (vertices[next_i].get_longitude() - vertices[i].get_longitude()) *
-                       (vertices[next_i].get_latitude() + vertices[i].get_latitude());
+        winding_sum +=
+            (vertices[next_i].get_longitude_microdegrees_long() - vertices[i].get_longitude_microdegrees_long()) *
+            (vertices[next_i].get_latitude_microdegrees_long() + vertices[i].get_latitude_microdegrees_long());
     }
 
     if (winding_sum < 0) {
diff --git a/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp b/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
index b29f43d..c8f3145 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
@@ -42,8 +42,7 @@ bool ThreeVertexPolyline::is_reflex() const {
     const auto s = _v2 - _v1;
     const auto t = _v3 - _v2;
 
-    const auto determinant = (s.get_longitude() * t.get_latitude()) - (s.get_latitude() * t.get_longitude());
-    return determinant < 0;
+    return s.cross_product_magnitude_microdegrees(t) < 0;
 }
 
 bool ThreeVertexPolyline::inclusive_between(double value, double lower, double upper) {
-- 
2.43.0


From 8acb59f4f4f75b679a98b3de3db45f6dd416a7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 05/27] fix: keep a polygon corner whose vertex is given twice
 in a row

---
 .../visibility_graphs/code/types/polygon/polygon.cpp     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
index d50153a..63723ca 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
@@ -79,7 +79,14 @@ Orientation get_orientation_of_vertices(const std::vector<Coordinate> &vertices)
     }
 }
 
-std::vector<Coordinate> Polygon::remove_collinear_vertices(const std::vector<Coordinate> &vertices) {
+std::vector<Coordinate> Polygon::remove_collinear_vertices(const std::vector<Coordinate> &raw_vertices) {
+    // A vertex repeated in a row has no direction to its neighbour, so repeats have to go first
+    auto vertices = raw_vertices;
+    vertices.erase(std::unique(vertices.begin(), vertices.end()), vertices.end());
+    while (vertices.size() > 1 && vertices.front() == vertices.back()) {
+        vertices.pop_back();
+    }
+
     const long num_vertices = vertices.size();
     auto filtered_vertices = std::vector<Coordinate>();
     filtered_vertices.reserve(num_vertices);
-- 
2.43.0


From b87006931f839a442a66527c3886352238513296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 06/27] fix: list the vertices an edge leads to, not those it
 comes from, as neighbours

---
 .../visibility_graphs/code/datastructures/graph/graph.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index d39e503..4cae108 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -64,7 +64,7 @@ void Graph::add_directed_edge(const Coordinate &a, const Coordinate &b, bool mer
         a_lock.lock();
     }
 
-    size_t index = a_index + (_num_coords * b_index);
+    size_t index = b_index + (_num_coords * a_index);
     _neighbors[index] = static_cast<EdgeState>(
             _neighbors[index] |
             ((meridian_crossing) ? EdgeState::CONNECTED_OVER_MERIDIAN : EdgeState::CONNECTED));
@@ -98,7 +98,7 @@ void Graph::remove_directed_edge(const Coordinate &a, const Coordinate &b) {
         a_lock.lock();
     }
 
-    size_t index = a_index + (_num_coords * b_index);
+    size_t index = b_index + (_num_coords * a_index);
     _neighbors[index] = EdgeState::DISCONNECTED;
 }
 
@@ -125,7 +125,7 @@ bool Graph::has_edge(const Coordinate &a, const Coordinate &b) const {
         a_lock.lock();
     }
 
-    size_t index = a_index + (_num_coords * b_index);
+    size_t index = b_index + (_num_coords * a_index);
     return _neighbors[index] != EdgeState::DISCONNECTED;
 }
 
@@ -156,7 +156,7 @@ bool Graph::is_edge_meridian_crossing(const Coordinate &a, const Coordinate &b)
         a_lock.lock();
     }
 
-    size_t index = a_index + (_num_coords * b_index);
+    size_t index = b_index + (_num_coords * a_index);
     return _neighbors[index] == EdgeState::CONNECTED_OVER_MERIDIAN;
 }
 
-- 
2.43.0


From 3502ebfdb28cb831e3a1091c289184432bbafacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 07/27] fix: keep existing edges in place when a vertex is
 added to a graph

---
 .../code/datastructures/graph/graph.cpp               | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index 4cae108..05f661c 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -215,11 +215,20 @@ std::vector<Coordinate> Graph::get_vertices() const { return _index_to_coordinat
 std::vector<Polygon> Graph::get_polygons() const { return _polygons; }
 
 void Graph::add_vertex(const Coordinate &vertex) {
+    if (has_vertex(vertex)) {
+        return;
+    }
+
     _coordinate_to_index_mapping[vertex] = _num_coords;
     _index_to_coordinate_mapping.push_back(vertex);
 
+    auto neighbors = std::vector<EdgeState>((_num_coords + 1) * (_num_coords + 1), EdgeState::DISCONNECTED);
+    for (size_t i = 0; i < _num_coords; ++i) {
+        std::copy_n(_neighbors.begin() + (i * _num_coords), _num_coords, neighbors.begin() + (i * (_num_coords + 1)));
+    }
+    _neighbors = std::move(neighbors);
+
     ++_num_coords;
-    _neighbors.resize(_num_coords*_num_coords, EdgeState::DISCONNECTED);
     _accessor_locks.push_back(std::make_unique<std::shared_mutex>());
 }
 
-- 
2.43.0


From 69849993e085899e5f305a48592a6c0f2268c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 08/27] fix: compare graphs independently of vertex order when
 hashes collide

---
 .../code/datastructures/graph/graph.cpp                | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index 05f661c..65a43aa 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -164,7 +164,15 @@ std::string Graph::to_string_representation() const {
     auto outs = std::stringstream();
 
     const auto coord_sorter = [](const Coordinate &lhs, const Coordinate &rhs) {
-        return std::hash<Coordinate>()(lhs) < std::hash<Coordinate>()(rhs);
+        const auto lhs_hash = std::hash<Coordinate>()(lhs);
+        const auto rhs_hash = std::hash<Coordinate>()(rhs);
+        if (lhs_hash != rhs_hash) {
+            return lhs_hash < rhs_hash;
+        }
+
+        // Different coordinates may share a hash, and their order must not depend on insertion order
+        return std::make_pair(lhs.get_longitude_microdegrees(), lhs.get_latitude_microdegrees()) <
+               std::make_pair(rhs.get_longitude_microdegrees(), rhs.get_latitude_microdegrees());
     };
 
     auto vertices = get_vertices();
-- 
2.43.0


From 970889737fb75a35984eeb3912abd139c2a01152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 09/27] fix: answer edge queries about overlay-only vertices
 and keep marks of re-added edges

---
 .../modified_graph/modified_graph.cpp         | 21 ++++++-------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
index cbd8e0a..428acb5 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
@@ -20,19 +20,10 @@ void ModifiedGraph::add_directed_edge(const Coordinate &a, const Coordinate &b,
         _neighbors[a] = std::unordered_map<Coordinate, NeighborInfo>();
     }
 
-    if (_neighbors[a].find(b) == _neighbors[a].end()) {
-        _neighbors[a][b] = NeighborInfo {
-            .is_meridian_crossing = meridian_crossing && (!_graph->has_edge(a, b) || _graph->is_edge_meridian_crossing(a, b)),
-            .relationship = NeighborRelationship::EDGE_PRESENT
-        };
-    } else {
-        const auto& curr_neighbor = _neighbors[a][b];
-
-        _neighbors[a][b] = NeighborInfo {
-            .is_meridian_crossing = meridian_crossing && curr_neighbor.is_meridian_crossing,
-            .relationship = NeighborRelationship::EDGE_PRESENT,
-        };
-    }
+    _neighbors[a][b] = NeighborInfo {
+        .is_meridian_crossing = meridian_crossing && (!has_edge(a, b) || is_edge_meridian_crossing(a, b)),
+        .relationship = NeighborRelationship::EDGE_PRESENT,
+    };
 }
 
 void ModifiedGraph::remove_edge(const Coordinate &a, const Coordinate &b) {
@@ -63,7 +54,7 @@ bool ModifiedGraph::has_vertex(const Coordinate &vertex) const {
 
 bool ModifiedGraph::has_edge(const Coordinate &a, const Coordinate &b) const {
     if (_neighbors.find(a) == _neighbors.end() || _neighbors.at(a).find(b) == _neighbors.at(a).end()) {
-        return _graph->has_edge(a, b);
+        return _graph->has_vertex(a) && _graph->has_vertex(b) && _graph->has_edge(a, b);
     }
 
     return _neighbors.at(a).at(b).relationship == NeighborRelationship::EDGE_PRESENT;
@@ -71,7 +62,7 @@ bool ModifiedGraph::has_edge(const Coordinate &a, const Coordinate &b) const {
 
 bool ModifiedGraph::is_edge_meridian_crossing(const Coordinate &a, const Coordinate &b) const {
     if (_neighbors.find(a) == _neighbors.end() || _neighbors.at(a).find(b) == _neighbors.at(a).end()) {
-        return _graph->is_edge_meridian_crossing(a, b);
+        return _graph->has_vertex(a) && _graph->has_vertex(b) && _graph->is_edge_meridian_crossing(a, b);
     }
 
     return _neighbors.at(a).at(b).is_meridian_crossing;
-- 
2.43.0


From 774a666e507aedda4ad0b751a1b500427313dbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 10/27] fix: list each neighbour and vertex of an overlay graph
 once

---
 .../datastructures/modified_graph/modified_graph.cpp   | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
index 428acb5..8bbff55 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
@@ -2,6 +2,8 @@
 // Created by James.Balajan on 23-Feb.-2022.
 //
 
+#include <algorithm>
+
 #include "modified_graph.hpp"
 
 ModifiedGraph::ModifiedGraph(std::shared_ptr<IGraph> base_graph): _graph(base_graph) { } // NOLINT
@@ -77,7 +79,9 @@ std::vector<Coordinate> ModifiedGraph::get_neighbors(const Coordinate &vertex) c
     neighbors.reserve(_neighbors.at(vertex).size() + neighbors.size());
     for (const auto& neighbor : _neighbors.at(vertex)) {
         if (neighbor.second.relationship == NeighborRelationship::EDGE_PRESENT) {
-            neighbors.push_back(neighbor.first);
+            if (std::find(neighbors.begin(), neighbors.end(), neighbor.first) == neighbors.end()) {
+                neighbors.push_back(neighbor.first);
+            }
         } else if (neighbor.second.relationship == NeighborRelationship::EDGE_REMOVED) {
             neighbors.erase(std::remove(neighbors.begin(), neighbors.end(), neighbor.first), neighbors.end());
         }
@@ -91,7 +95,9 @@ std::vector<Coordinate> ModifiedGraph::get_vertices() const {
     base_vertices.reserve(base_vertices.size() + _neighbors.size());
 
     for (const auto& neighbor : _neighbors) {
-        base_vertices.push_back(neighbor.first);
+        if (!_graph->has_vertex(neighbor.first)) {
+            base_vertices.push_back(neighbor.first);
+        }
     }
 
     return base_vertices;
-- 
2.43.0


From d285bde1b801d71e7cad8db1692a15135a0b1a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 11/27] fix: do not leave bytes of an overwritten file in a
 saved graph

---
 .../visibility_graphs/code/serialization/graph_serializer.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index f7a6dc7..28a8fde 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -305,7 +305,7 @@ inline void allocate_file(const std::string &path, size_t num_bytes) {
         throw std::runtime_error(error);
     };
 
-    const auto fd = open(path.c_str(), O_CREAT | O_RDWR, S_IROTH | S_IWOTH | S_IRGRP | S_IWGRP | S_IRWXU);
+    const auto fd = open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR, S_IROTH | S_IWOTH | S_IRGRP | S_IWGRP | S_IRWXU);
     if (fd == -1) {
         handle_allocation_error();
     }
-- 
2.43.0


From 0f8e48541344cfee907ac9eaf8cec066263ee870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 12/27] fix: close the file when allocating space for a graph
 fails

---
 .../visibility_graphs/code/serialization/graph_serializer.cpp  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index 28a8fde..cb892fd 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -310,6 +310,9 @@ inline void allocate_file(const std::string &path, size_t num_bytes) {
         handle_allocation_error();
     }
     if (ftruncate(fd, num_bytes) != 0) {
+        const auto truncate_errno = errno;
+        close(fd);
+        errno = truncate_errno;
         handle_allocation_error();
     }
     if (close(fd) == -1) {
-- 
2.43.0


From 91abda3b0edd762ae070bbedde257570cf484313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 13/27] fix: report a graph file that is cut short or damaged
 instead of reading past it

---
 .../code/serialization/graph_serializer.cpp   | 33 ++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index cb892fd..1383750 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -28,6 +28,7 @@ uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset);
 
 void allocate_file(const std::string &path, size_t num_bytes);
 void handle_mmap_error(const std::error_code &error);
+void handle_malformed_file();
 
 void GraphSerializer::serialize_to_file(const std::shared_ptr<Graph> &graph, const std::string &path) {
     const auto num_meridian_spanning_edges =
@@ -149,6 +150,11 @@ size_t GraphSerializer::serialize_adjacency_matrix_to_mmap(mio::mmap_sink &mmap,
 
 size_t GraphSerializer::deserialize_polygon_vertices_from_mmap(const mio::mmap_source &mmap, std::shared_ptr<Graph> &graph,
                                                                uint64_t num_polygons, size_t offset) {
+    // Every polygon takes at least its header, so a larger count is not worth allocating for
+    if (num_polygons > mmap.size() / sizeof(uint64_t)) {
+        handle_malformed_file();
+    }
+
     auto polygons = std::vector<Polygon>(num_polygons);
 
     size_t curr_offset = offset;
@@ -156,6 +162,10 @@ size_t GraphSerializer::deserialize_polygon_vertices_from_mmap(const mio::mmap_s
         auto num_vertices = deserialize_8_bytes_from_mmap(mmap, curr_offset);
         curr_offset += sizeof(num_vertices);
 
+        if (num_vertices > mmap.size() / (2 * sizeof(int32_t))) {
+            handle_malformed_file();
+        }
+
         auto vertices = std::vector<Coordinate>(num_vertices);
         for (size_t j = 0; j < num_vertices; ++j) {
             const auto longitude_offset = curr_offset + (j * 2 * sizeof(int32_t));
@@ -170,6 +180,19 @@ size_t GraphSerializer::deserialize_polygon_vertices_from_mmap(const mio::mmap_s
         polygons[i] = Polygon(vertices);
     }
 
+    // The graph takes memory quadratic in its vertices, so make sure the file holds their adjacency matrix first
+    size_t num_graph_vertices = 0;
+    size_t num_adjacency_bytes = 0;
+    for (const auto &polygon : polygons) {
+        for (size_t i = 0; i < polygon.get_vertices().size(); ++i) {
+            num_adjacency_bytes += CEIL_DIV(num_graph_vertices, BITS_IN_A_BYTE);
+            ++num_graph_vertices;
+        }
+    }
+    if (curr_offset + num_adjacency_bytes + sizeof(uint64_t) > mmap.size()) {
+        handle_malformed_file();
+    }
+
     graph = std::make_shared<Graph>(polygons);
 
     return curr_offset;
@@ -293,7 +316,13 @@ inline int32_t deserialize_4_signed_bytes_from_mmap(const mio::mmap_source &mmap
     return val;
 }
 
-inline uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset) { return mmap[offset]; }
+inline uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset) {
+    if (offset >= mmap.size()) {
+        handle_malformed_file();
+    }
+
+    return mmap[offset];
+}
 
 inline void allocate_file(const std::string &path, size_t num_bytes) {
     const auto handle_allocation_error = [&]() {
@@ -320,6 +349,8 @@ inline void allocate_file(const std::string &path, size_t num_bytes) {
     }
 }
 
+inline void handle_malformed_file() { throw std::runtime_error("Error reading graph file: it is cut short or damaged"); }
+
 inline void handle_mmap_error(const std::error_code &error) {
     const auto error_msg = fmt::format("Error mapping file (error_code: {}): {}", error.value(), error.message());
     throw std::runtime_error(error_msg);
-- 
2.43.0


From d73f2bd96f16c580eb8a98d9db6286a225f1ff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 14/27] fix: allow generating a range of a map without polygons

---
 capi/src/implementation/graph_generator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/capi/src/implementation/graph_generator.py b/capi/src/implementation/graph_generator.py
index 6692c58..f34ee9d 100644
--- a/capi/src/implementation/graph_generator.py
+++ b/capi/src/implementation/graph_generator.py
@@ -1,6 +1,5 @@
 import os
 import typing
-from functools import reduce
 
 from capi.src.implementation.datastructures.graph_file_paths import GraphFilePaths
 from capi.src.implementation.shapefiles.shapefile_reader import ShapefileReader
@@ -61,7 +60,7 @@ class GraphGenerator(IGraphGenerator):
 
     @staticmethod
     def _get_num_vertices_in_polygons(polygons: typing.Sequence[VisGraphPolygon]) -> int:
-        return reduce(lambda a, b: a + b, map(lambda polygon: len(polygon.vertices), polygons))
+        return sum(len(polygon.vertices) for polygon in polygons)
 
 
 if __name__ == "__main__":  # pragma: no cover
-- 
2.43.0


From 0a1ad868ec215f391ac60500b052f05baba25ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 15/27] fix: make coordinates immutable and hashable as
 intended

---
 capi/src/implementation/dtos/coordinate.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/capi/src/implementation/dtos/coordinate.py b/capi/src/implementation/dtos/coordinate.py
index d6229e6..89fff1c 100644
--- a/capi/src/implementation/dtos/coordinate.py
+++ b/capi/src/implementation/dtos/coordinate.py
@@ -1,14 +1,11 @@
 from dataclasses import dataclass
 
 
-@dataclass
+@dataclass(frozen=True)
 class Coordinate:
     latitude: float
     longitude: float
 
-    class Config:
-        frozen = True
-
 
 def construct_coord_in_lat_lon_range(latitude: float, longitude: float) -> Coordinate:
     return Coordinate(
-- 
2.43.0


From a1efea73b6c3f03c4c2d375605ece4ff3859dbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 16/27] fix: leave coordinates that are in range alone when
 normalising them

---
 capi/src/implementation/dtos/coordinate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/dtos/coordinate.py b/capi/src/implementation/dtos/coordinate.py
index 89fff1c..6893f94 100644
--- a/capi/src/implementation/dtos/coordinate.py
+++ b/capi/src/implementation/dtos/coordinate.py
@@ -9,6 +9,6 @@ class Coordinate:
 
 def construct_coord_in_lat_lon_range(latitude: float, longitude: float) -> Coordinate:
     return Coordinate(
-        latitude=((latitude + 90) % 180) - 90,
-        longitude=((longitude + 180) % 360) - 180,
+        latitude=latitude if -90 <= latitude <= 90 else ((latitude + 90) % 180) - 90,
+        longitude=longitude if -180 <= longitude <= 180 else ((longitude + 180) % 360) - 180,
     )
-- 
2.43.0


From b3d894f10bdb374d583445c45b0d14fc2009f701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 17/27] fix: keep slivers from enclosing the whole world in the
 spatial index

---
 .../visibility_graphs/code/types/polygon/polygon.cpp         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
index 63723ca..8f02d1a 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
@@ -116,7 +116,10 @@ std::unique_ptr<S2Loop> Polygon::to_s2_loop() const {
         verts.push_back(vertex.to_s2_point());
     }
 
-    return std::make_unique<S2Loop>(verts);
+    // A sliver can be counter clockwise in the plane yet clockwise on the sphere, where it would enclose the rest of the world
+    auto loop = std::make_unique<S2Loop>(verts);
+    loop->Normalize();
+    return loop;
 }
 
 std::unique_ptr<const S2Polygon> Polygon::to_s2_polygon() const {
-- 
2.43.0


From b50ab94061fca6add98dae9c46f3f14aec486839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 18/27] fix: look up an overlay edge before its entry is
 created

---
 .../code/datastructures/modified_graph/modified_graph.cpp    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
index 8bbff55..341d1d8 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
@@ -22,8 +22,11 @@ void ModifiedGraph::add_directed_edge(const Coordinate &a, const Coordinate &b,
         _neighbors[a] = std::unordered_map<Coordinate, NeighborInfo>();
     }
 
+    // Looked up before the entry is created
+    const bool is_crossing = meridian_crossing && (!has_edge(a, b) || is_edge_meridian_crossing(a, b));
+
     _neighbors[a][b] = NeighborInfo {
-        .is_meridian_crossing = meridian_crossing && (!has_edge(a, b) || is_edge_meridian_crossing(a, b)),
+        .is_meridian_crossing = is_crossing,
         .relationship = NeighborRelationship::EDGE_PRESENT,
     };
 }
-- 
2.43.0


From 5ecd5d6be324c810e8dc1cc6372960e4f5f0a2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 19/27] fix: close the file again when mapping it fails

---
 capi/cpp_libs/mio/mio.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/capi/cpp_libs/mio/mio.hpp b/capi/cpp_libs/mio/mio.hpp
index c568a46..3e66cf8 100644
--- a/capi/cpp_libs/mio/mio.hpp
+++ b/capi/cpp_libs/mio/mio.hpp
@@ -1058,7 +1058,15 @@ void basic_mmap<AccessMode, ByteT>::map(const String& path, const size_type offs
     if(!error)
     {
         is_handle_internal_ = true;
+        return;
     }
+
+    // Nothing took over the handle
+#ifdef _WIN32
+    ::CloseHandle(handle);
+#else // POSIX
+    ::close(handle);
+#endif
 }
 
 template<access_mode AccessMode, typename ByteT>
-- 
2.43.0


From cc7b4ec4f06bb1371ad578d5fcc511d50a32416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 20/27] fix: let sea endpoints see vertices across the
 antimeridian

---
 .../code/shortest_path/shortest_path_computer.cpp        | 9 +++++++--
 .../code/types/visible_vertex/visible_vertex.hpp         | 1 +
 .../code/visgraph/vistree_generator.cpp                  | 1 +
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
index 5fb11bc..b33f7dc 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
@@ -20,7 +20,7 @@ struct AStarHeapElement {
 };
 
 ShortestPathComputer::ShortestPathComputer(const std::shared_ptr<IGraph> &graph) :
-    _graph(graph), _index(graph->get_polygons()), _vistree_gen(graph->get_polygons()) {}
+    _graph(graph), _index(graph->get_polygons()), _vistree_gen(make_polygons_periodic(graph->get_polygons())) {}
 
 std::vector<Coordinate> ShortestPathComputer::shortest_path(const Coordinate &source, const Coordinate &destination,
                                                             double maximum_distance_to_search_from_source,
@@ -224,8 +224,13 @@ std::shared_ptr<IGraph> ShortestPathComputer::create_modified_graph(const LandCo
             const auto reachable_vertices = _vistree_gen.get_visible_vertices(vertices_to_process[i]);
 
             for (const auto &point : reachable_vertices) {
+                if (std::abs(point.visible_copy.get_longitude_microdegrees() -
+                             vertices_to_process[i].get_longitude_microdegrees()) > LONGITUDE_PERIOD_MICRODEGREES) {
+                    // The line to this copy of the vertex winds round the world more than once
+                    continue;
+                }
                 if (!blocking_edges[i].has_value() ||
-                    blocking_edges[i].value().orientation_of_point_to_segment(point.coord) != Orientation::COUNTER_CLOCKWISE) {
+                    blocking_edges[i].value().orientation_of_point_to_segment(point.visible_copy) != Orientation::COUNTER_CLOCKWISE) {
                     modified_graph->add_edge(vertices_to_process[i], point.coord, point.is_visible_across_meridian);
                 }
             }
diff --git a/capi/src/implementation/visibility_graphs/code/types/visible_vertex/visible_vertex.hpp b/capi/src/implementation/visibility_graphs/code/types/visible_vertex/visible_vertex.hpp
index ee9a771..3e0181b 100644
--- a/capi/src/implementation/visibility_graphs/code/types/visible_vertex/visible_vertex.hpp
+++ b/capi/src/implementation/visibility_graphs/code/types/visible_vertex/visible_vertex.hpp
@@ -10,6 +10,7 @@
 struct VisibleVertex {
     Coordinate coord;
     bool is_visible_across_meridian;
+    Coordinate visible_copy = Coordinate(); // The periodic copy of coord that is seen
 
     bool operator==(const VisibleVertex &other) const;
     bool operator!=(const VisibleVertex &other) const;
diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
index e3ed0c2..4aee248 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
@@ -95,6 +95,7 @@ std::vector<VisibleVertex> VistreeGenerator::get_visible_vertices_from_candidate
             visible_vertices.push_back(VisibleVertex{
                     .coord = coordinate_from_periodic_coordinate(current_vertex),
                     .is_visible_across_meridian = is_coordinate_over_meridian(current_vertex),
+                    .visible_copy = current_vertex,
             });
         }
 
-- 
2.43.0


From f93db383b011ccb0f4e511bfaa32930d54211e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 21/27] fix: do not join two corrected endpoints by a line
 through the land they were on

---
 .../shortest_path/shortest_path_computer.cpp  | 24 ++++++++++++++++++-
 .../shortest_path/shortest_path_computer.hpp  |  3 +++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
index b33f7dc..c4943b7 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
@@ -43,7 +43,12 @@ std::vector<Coordinate> ShortestPathComputer::shortest_path(const Coordinate &so
         }
     }
 
-    if (num_intersections_excluding_corrections == 0) {
+    // A line that leaves a corrected endpoint to the land side of its edge touches nothing else if it comes out at the
+    // other corrected edge
+    const auto crosses_land = leaves_to_land_side(land_corrections.corrected_source_edge, corrected_source, corrected_dest) ||
+                              leaves_to_land_side(land_corrections.corrected_dest_edge, corrected_dest, corrected_source);
+
+    if (num_intersections_excluding_corrections == 0 && !crosses_land) {
         return std::vector<Coordinate>{corrected_source, corrected_dest};
     }
 
@@ -171,6 +176,23 @@ double ShortestPathComputer::heuristic_distance_measurement(const Coordinate &a,
     return std::min(distance_measurement(a, b, false), distance_measurement(a, b, true));
 }
 
+bool ShortestPathComputer::leaves_to_land_side(const std::optional<LineSegment> &edge, const Coordinate &start,
+                                               const Coordinate &end) {
+    if (!edge.has_value()) {
+        return false;
+    }
+
+    // The line is the shorter way round the world, which may be through the antimeridian
+    auto end_copy = end;
+    for (const auto &copy : periodic_coordinates_from_coordinate(end)) {
+        if ((copy - start).magnitude() < (end_copy - start).magnitude()) {
+            end_copy = copy;
+        }
+    }
+
+    return edge.value().orientation_of_point_to_segment(end_copy) == Orientation::COUNTER_CLOCKWISE;
+}
+
 LandCollisionCorrection ShortestPathComputer::handle_land_collisions(const Coordinate &source,
                                                                      const Coordinate &destination,
                                                                      bool correct_vertices_on_land) const {
diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
index 53cd64e..5a9d423 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
@@ -47,6 +47,9 @@ class ShortestPathComputer {
     static double distance_measurement(const Coordinate &a, const Coordinate &b, bool is_meridian_spanning);
     static double heuristic_distance_measurement(const Coordinate &a, const Coordinate &b);
 
+    static bool leaves_to_land_side(const std::optional<LineSegment> &edge, const Coordinate &start,
+                                    const Coordinate &end);
+
     [[nodiscard]] LandCollisionCorrection handle_land_collisions(const Coordinate &source,
                                                                  const Coordinate &destination,
                                                                  bool correct_vertices_on_land) const;
-- 
2.43.0


From 37fc6d6f8b1758e474b7e034d3655d8528734351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 22/27] fix: let an observer on an edge see the sea side of it

---
 .../code/visgraph/vistree_generator.cpp             | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
index 4aee248..60d7389 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
@@ -58,10 +58,15 @@ std::vector<VisibleVertex> VistreeGenerator::get_visible_vertices_from_candidate
     const auto initial_scanline_segment =
         LineSegment(observer, Coordinate(MAX_PERIODIC_LONGITUDE_MICRODEGREES, observer.get_latitude_microdegrees()));
     const auto initial_scanline_vector = initial_scanline_segment.get_tangent_vector();
+    std::shared_ptr<LineSegment> segment_under_observer = nullptr;
     for (const auto &line_segment : candidate_segments) {
         if (observer == line_segment->get_endpoint_1() || observer == line_segment->get_endpoint_2()) {
             continue;
         }
+        if (line_segment->on_segment(observer)) {
+            segment_under_observer = line_segment;
+            continue;
+        }
 
         const auto intersection = line_segment->intersection_with_segment(initial_scanline_segment);
         if (intersection.has_value() && !initial_scanline_segment.on_segment(line_segment->get_endpoint_1()) &&
@@ -90,7 +95,13 @@ std::vector<VisibleVertex> VistreeGenerator::get_visible_vertices_from_candidate
 
         VistreeGenerator::erase_segments_from_open_edges(clockwise_segments, open_edges);
 
-        const auto curr_vertex_visible = VistreeGenerator::is_vertex_visible(open_edges, observer, current_vertex);
+        // An observer on an edge sees the ends of the edge and what is on the sea side of it
+        const auto hidden_by_segment_under_observer =
+            segment_under_observer && current_vertex != segment_under_observer->get_endpoint_1() &&
+            current_vertex != segment_under_observer->get_endpoint_2() &&
+            segment_under_observer->orientation_of_point_to_segment(current_vertex) != Orientation::CLOCKWISE;
+        const auto curr_vertex_visible = !hidden_by_segment_under_observer &&
+                                         VistreeGenerator::is_vertex_visible(open_edges, observer, current_vertex);
         if (curr_vertex_visible) {
             visible_vertices.push_back(VisibleVertex{
                     .coord = coordinate_from_periodic_coordinate(current_vertex),
-- 
2.43.0


From 271b86e5b38d913675718feb25def2ff10942877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 23/27] fix: treat endpoints exactly on an edge as on its shore

---
 .../shortest_path/shortest_path_computer.cpp  | 20 +++++++++++++++++++
 .../shortest_path/shortest_path_computer.hpp  |  1 +
 2 files changed, 21 insertions(+)

diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
index c4943b7..0afab69 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
@@ -215,11 +215,15 @@ LandCollisionCorrection ShortestPathComputer::handle_land_collisions(const Coord
         const auto closest_seg = _index.closest_segment_to_point(source);
         corrected_source = closest_seg.project(source);
         corrected_source_edge = std::make_optional(closest_seg);
+    } else {
+        corrected_source_edge = edge_under_coordinate(source);
     }
     if (destination_is_on_land) {
         const auto closest_seg = _index.closest_segment_to_point(destination);
         corrected_destination = closest_seg.project(destination);
         corrected_dest_edge = std::make_optional(closest_seg);
+    } else {
+        corrected_dest_edge = edge_under_coordinate(destination);
     }
 
     return LandCollisionCorrection{
@@ -230,6 +234,22 @@ LandCollisionCorrection ShortestPathComputer::handle_land_collisions(const Coord
     };
 }
 
+std::optional<LineSegment> ShortestPathComputer::edge_under_coordinate(const Coordinate &coordinate) const {
+    // A coordinate exactly on an edge may not count as contained, nevertheless there is land to one side of it
+    if (_graph->has_vertex(coordinate)) {
+        return std::nullopt;
+    }
+
+    const auto margin_in_radians = EPSILON_TOLERANCE / 180.0 * M_PI;
+    for (const auto &segment : _index.segments_within_distance_of_point(coordinate, margin_in_radians)) {
+        if (segment.on_segment(coordinate)) {
+            return segment;
+        }
+    }
+
+    return std::nullopt;
+}
+
 std::shared_ptr<IGraph> ShortestPathComputer::create_modified_graph(const LandCollisionCorrection &correction) const {
     if (_graph->has_vertex(correction.corrected_source) && _graph->has_vertex(correction.corrected_dest)) {
         return _graph;
diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
index 5a9d423..686fe2e 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
@@ -53,6 +53,7 @@ class ShortestPathComputer {
     [[nodiscard]] LandCollisionCorrection handle_land_collisions(const Coordinate &source,
                                                                  const Coordinate &destination,
                                                                  bool correct_vertices_on_land) const;
+    [[nodiscard]] std::optional<LineSegment> edge_under_coordinate(const Coordinate &coordinate) const;
     [[nodiscard]] std::shared_ptr<IGraph> create_modified_graph(const LandCollisionCorrection &correction) const;
 
     std::shared_ptr<IGraph> _graph;
-- 
2.43.0


From b60d1b413ad3f80d87f70c6cdafea55cecc96672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 24/27] fix: keep corrected endpoints from being rounded back
 onto land

---
 .../code/shortest_path/shortest_path_computer.cpp | 15 +++++++++++++--
 .../code/shortest_path/shortest_path_computer.hpp |  1 +
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
index 0afab69..d472a50 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
@@ -213,14 +213,14 @@ LandCollisionCorrection ShortestPathComputer::handle_land_collisions(const Coord
     std::optional<LineSegment> corrected_dest_edge = std::nullopt;
     if (source_is_on_land) {
         const auto closest_seg = _index.closest_segment_to_point(source);
-        corrected_source = closest_seg.project(source);
+        corrected_source = project_off_land(closest_seg, source);
         corrected_source_edge = std::make_optional(closest_seg);
     } else {
         corrected_source_edge = edge_under_coordinate(source);
     }
     if (destination_is_on_land) {
         const auto closest_seg = _index.closest_segment_to_point(destination);
-        corrected_destination = closest_seg.project(destination);
+        corrected_destination = project_off_land(closest_seg, destination);
         corrected_dest_edge = std::make_optional(closest_seg);
     } else {
         corrected_dest_edge = edge_under_coordinate(destination);
@@ -234,6 +234,17 @@ LandCollisionCorrection ShortestPathComputer::handle_land_collisions(const Coord
     };
 }
 
+Coordinate ShortestPathComputer::project_off_land(const LineSegment &edge, const Coordinate &coordinate) const {
+    // Rounding may put the projected coordinate behind the edge, from where nothing but the edge is visible
+    auto projected = edge.project(coordinate);
+    for (int margin = 1; margin <= 3 && !edge.on_segment(projected) && _index.is_point_contained(projected);
+         ++margin) {
+        projected = edge.project(coordinate, margin * EPSILON_TOLERANCE);
+    }
+
+    return projected;
+}
+
 std::optional<LineSegment> ShortestPathComputer::edge_under_coordinate(const Coordinate &coordinate) const {
     // A coordinate exactly on an edge may not count as contained, nevertheless there is land to one side of it
     if (_graph->has_vertex(coordinate)) {
diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
index 686fe2e..69e6512 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
@@ -53,6 +53,7 @@ class ShortestPathComputer {
     [[nodiscard]] LandCollisionCorrection handle_land_collisions(const Coordinate &source,
                                                                  const Coordinate &destination,
                                                                  bool correct_vertices_on_land) const;
+    [[nodiscard]] Coordinate project_off_land(const LineSegment &edge, const Coordinate &coordinate) const;
     [[nodiscard]] std::optional<LineSegment> edge_under_coordinate(const Coordinate &coordinate) const;
     [[nodiscard]] std::shared_ptr<IGraph> create_modified_graph(const LandCollisionCorrection &correction) const;
 
-- 
2.43.0


From 0ca6ffff092b7e280c4ab4463418da8d9839005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:18 +0000
Subject: [PATCH 25/27] fix: hash equal segments alike whichever way round they
 are given

---
 .../code/types/line_segment/line_segment.cpp              | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp b/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
index 7eb4214..0026feb 100644
--- a/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
@@ -2,6 +2,7 @@
 // Created by James.Balajan on 31/03/2021.
 //
 
+#include <algorithm>
 #include <s2/s2point.h>
 #include <stdexcept>
 
@@ -136,7 +137,10 @@ S2Polyline *LineSegment::to_s2_polyline() const {
 }
 
 std::size_t std::hash<LineSegment>::operator()(const LineSegment &segment) const {
-    const std::size_t coord_1_hash = hash<Coordinate>()(segment.get_endpoint_1());
-    const std::size_t coord_2_hash = hash<Coordinate>()(segment.get_endpoint_2());
+    // A segment equals its reverse, hence the order of the endpoints must not matter
+    const std::size_t endpoint_1_hash = hash<Coordinate>()(segment.get_endpoint_1());
+    const std::size_t endpoint_2_hash = hash<Coordinate>()(segment.get_endpoint_2());
+    const std::size_t coord_1_hash = std::min(endpoint_1_hash, endpoint_2_hash);
+    const std::size_t coord_2_hash = std::max(endpoint_1_hash, endpoint_2_hash);
     return coord_1_hash ^ (coord_2_hash + 0x9e3779b9 + (coord_1_hash << 6) + (coord_1_hash >> 2));
 }
-- 
2.43.0


From 591d6c3f83acd9341e2cd37d3ebadf2b0e759edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:19 +0000
Subject: [PATCH 26/27] fix: keep all edges of a vertex that several polygons
 share

---
 .../code/visgraph/vistree_generator.cpp       | 77 +++++++++++++------
 .../code/visgraph/vistree_generator.hpp       |  3 +
 2 files changed, 57 insertions(+), 23 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
index 60d7389..9eeccd4 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
@@ -2,6 +2,8 @@
 // Created by James.Balajan on 6/04/2021.
 //
 
+#include <algorithm>
+#include <optional>
 #include <stdexcept>
 #include <unordered_set>
 
@@ -58,13 +60,13 @@ std::vector<VisibleVertex> VistreeGenerator::get_visible_vertices_from_candidate
     const auto initial_scanline_segment =
         LineSegment(observer, Coordinate(MAX_PERIODIC_LONGITUDE_MICRODEGREES, observer.get_latitude_microdegrees()));
     const auto initial_scanline_vector = initial_scanline_segment.get_tangent_vector();
-    std::shared_ptr<LineSegment> segment_under_observer = nullptr;
+    std::vector<std::shared_ptr<LineSegment>> segments_under_observer;
     for (const auto &line_segment : candidate_segments) {
         if (observer == line_segment->get_endpoint_1() || observer == line_segment->get_endpoint_2()) {
             continue;
         }
         if (line_segment->on_segment(observer)) {
-            segment_under_observer = line_segment;
+            segments_under_observer.push_back(line_segment);
             continue;
         }
 
@@ -96,10 +98,11 @@ std::vector<VisibleVertex> VistreeGenerator::get_visible_vertices_from_candidate
         VistreeGenerator::erase_segments_from_open_edges(clockwise_segments, open_edges);
 
         // An observer on an edge sees the ends of the edge and what is on the sea side of it
-        const auto hidden_by_segment_under_observer =
-            segment_under_observer && current_vertex != segment_under_observer->get_endpoint_1() &&
-            current_vertex != segment_under_observer->get_endpoint_2() &&
-            segment_under_observer->orientation_of_point_to_segment(current_vertex) != Orientation::CLOCKWISE;
+        const auto hidden_by_segment_under_observer = std::any_of(
+            segments_under_observer.begin(), segments_under_observer.end(), [&](const auto &segment) {
+                return current_vertex != segment->get_endpoint_1() && current_vertex != segment->get_endpoint_2() &&
+                       segment->orientation_of_point_to_segment(current_vertex) != Orientation::CLOCKWISE;
+            });
         const auto curr_vertex_visible = !hidden_by_segment_under_observer &&
                                          VistreeGenerator::is_vertex_visible(open_edges, observer, current_vertex);
         if (curr_vertex_visible) {
@@ -135,10 +138,10 @@ VistreeGenerator::all_vertices_and_incident_segments(const std::vector<Polygon>
             const auto &prev_vertex = polygon_vertices[prev_idx];
             const auto &next_vertex = polygon_vertices[next_idx];
 
-            vertices_and_segments[curr_vertex] = std::vector<std::shared_ptr<LineSegment>>{
-                std::make_shared<LineSegment>(prev_vertex, curr_vertex),
-                std::make_shared<LineSegment>(curr_vertex, next_vertex),
-            };
+            // The vertex may be shared with another polygon
+            auto &segments = vertices_and_segments[curr_vertex];
+            segments.push_back(std::make_shared<LineSegment>(prev_vertex, curr_vertex));
+            segments.push_back(std::make_shared<LineSegment>(curr_vertex, next_vertex));
         }
     }
 
@@ -207,20 +210,9 @@ bool VistreeGenerator::is_vertex_visible(const OpenEdges &open_edges, const Coor
         // from seeing vertices from inside the polygon
         // Essentially we build artificial walls based on the edges we know obstruct vision (those adjacent)
         // This will be a constant time operation as each vertex only has two adjacent edges
+        // (and another two for each other polygon it is shared with)
 
-        auto barrier_polyline_vertices = std::vector<Coordinate>();
-        barrier_polyline_vertices.reserve(3);
-
-        const auto &vertex_segments = _vertices_and_segments.at(observer_coordinate);
-        if (vertex_segments.size() == 2) {
-            // The segments may have been supplied in any order, the incoming one has to go first
-            const size_t incoming = (vertex_segments[0]->get_endpoint_2() == observer_coordinate) ? 0 : 1;
-            barrier_polyline_vertices.push_back(vertex_segments[incoming]->get_adjacent_to(observer_coordinate));
-            barrier_polyline_vertices.push_back(observer_coordinate);
-            barrier_polyline_vertices.push_back(vertex_segments[1 - incoming]->get_adjacent_to(observer_coordinate));
-
-            const auto barrier_polyline = ThreeVertexPolyline(
-                barrier_polyline_vertices[0], barrier_polyline_vertices[1], barrier_polyline_vertices[2]);
+        for (const auto &barrier_polyline : barriers_around(observer_coordinate)) {
             if (!barrier_polyline.point_visible(vertex_in_question)) {
                 return false;
             }
@@ -230,6 +222,45 @@ bool VistreeGenerator::is_vertex_visible(const OpenEdges &open_edges, const Coor
     return !open_edges.obstructs(LineSegment(observer_coordinate, vertex_in_question));
 }
 
+std::vector<ThreeVertexPolyline> VistreeGenerator::barriers_around(const Coordinate &observer) const {
+    const auto &vertex_segments = _vertices_and_segments.at(observer);
+    auto barriers = std::vector<ThreeVertexPolyline>();
+
+    if (vertex_segments.size() == 2) {
+        // The segments may have been supplied in any order, the incoming one has to go first
+        const size_t incoming = (vertex_segments[0]->get_endpoint_2() == observer) ? 0 : 1;
+        barriers.emplace_back(vertex_segments[incoming]->get_adjacent_to(observer), observer,
+                              vertex_segments[1 - incoming]->get_adjacent_to(observer));
+        return barriers;
+    }
+
+    // Polygons meet at the observer. The edges of one of them are those with no other edge between them on its inside
+    for (const auto &incoming : vertex_segments) {
+        if (incoming->get_endpoint_2() != observer) {
+            continue;
+        }
+
+        const auto to_prev = incoming->get_endpoint_1() - observer;
+        std::optional<ThreeVertexPolyline> barrier = std::nullopt;
+        for (const auto &outgoing : vertex_segments) {
+            const auto to_next = outgoing->get_endpoint_2() - observer;
+            const auto is_shared_border = to_prev.vector_orientation(to_next) == Orientation::COLLINEAR &&
+                                          to_prev.dot_product_microdegrees(to_next) > 0;
+            if (outgoing->get_endpoint_1() != observer || is_shared_border) {
+                continue;
+            }
+            if (!barrier.has_value() || !barrier.value().point_visible(outgoing->get_endpoint_2())) {
+                barrier.emplace(incoming->get_endpoint_1(), observer, outgoing->get_endpoint_2());
+            }
+        }
+        if (barrier.has_value()) {
+            barriers.push_back(barrier.value());
+        }
+    }
+
+    return barriers;
+}
+
 void VistreeGenerator::erase_segments_from_open_edges(const std::vector<std::shared_ptr<LineSegment>> &segments,
                                                       OpenEdges &open_edges) {
     for (const auto &segment : segments) {
diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.hpp b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.hpp
index 9551e76..fc90c52 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.hpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.hpp
@@ -14,6 +14,7 @@
 #include "types/coordinate/coordinate.hpp"
 #include "types/line_segment/line_segment.hpp"
 #include "types/polygon/polygon.hpp"
+#include "types/polyline/three_vertex_polyline.hpp"
 #include "types/visible_vertex/visible_vertex.hpp"
 
 class VistreeGenerator {
@@ -52,6 +53,8 @@ class VistreeGenerator {
     [[nodiscard]] bool is_vertex_visible(const OpenEdges &open_edges, const Coordinate &observer_coordinate,
                                          const Coordinate &vertex_in_question) const;
 
+    [[nodiscard]] std::vector<ThreeVertexPolyline> barriers_around(const Coordinate &observer) const;
+
     VertexToSegmentMapping _vertices_and_segments;
 };
 
-- 
2.43.0


From 53d4c13f4020fef1e2213cd82880a55f3ceec110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:27 +0000
Subject: [PATCH 27/27] fix: accept endpoints exactly on a coast as off land

---
 .../code/shortest_path/shortest_path_computer.cpp   | 13 +++++++++++--
 .../code/shortest_path/shortest_path_computer.hpp   |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
index d472a50..7b7e8bc 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
@@ -196,8 +196,8 @@ bool ShortestPathComputer::leaves_to_land_side(const std::optional<LineSegment>
 LandCollisionCorrection ShortestPathComputer::handle_land_collisions(const Coordinate &source,
                                                                      const Coordinate &destination,
                                                                      bool correct_vertices_on_land) const {
-    const auto source_is_on_land = _index.is_point_contained(source);
-    const auto destination_is_on_land = _index.is_point_contained(destination);
+    const auto source_is_on_land = is_on_land(source);
+    const auto destination_is_on_land = is_on_land(destination);
 
     if (!correct_vertices_on_land && (source_is_on_land || destination_is_on_land)) {
         throw std::runtime_error(
@@ -251,6 +251,15 @@ std::optional<LineSegment> ShortestPathComputer::edge_under_coordinate(const Coo
         return std::nullopt;
     }
 
+    return edge_through_coordinate(coordinate);
+}
+
+bool ShortestPathComputer::is_on_land(const Coordinate &coordinate) const {
+    // A coordinate exactly on an edge is on the shore, although the index may count it as contained
+    return _index.is_point_contained(coordinate) && !edge_through_coordinate(coordinate).has_value();
+}
+
+std::optional<LineSegment> ShortestPathComputer::edge_through_coordinate(const Coordinate &coordinate) const {
     const auto margin_in_radians = EPSILON_TOLERANCE / 180.0 * M_PI;
     for (const auto &segment : _index.segments_within_distance_of_point(coordinate, margin_in_radians)) {
         if (segment.on_segment(coordinate)) {
diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
index 69e6512..85dcbfa 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
@@ -55,6 +55,8 @@ class ShortestPathComputer {
                                                                  bool correct_vertices_on_land) const;
     [[nodiscard]] Coordinate project_off_land(const LineSegment &edge, const Coordinate &coordinate) const;
     [[nodiscard]] std::optional<LineSegment> edge_under_coordinate(const Coordinate &coordinate) const;
+    [[nodiscard]] bool is_on_land(const Coordinate &coordinate) const;
+    [[nodiscard]] std::optional<LineSegment> edge_through_coordinate(const Coordinate &coordinate) const;
     [[nodiscard]] std::shared_ptr<IGraph> create_modified_graph(const LandCollisionCorrection &correction) const;
 
     std::shared_ptr<IGraph> _graph;
-- 
2.43.0

