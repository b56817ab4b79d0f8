From df2b958b0a290982920ac6ac4ac5cbd252e8dde4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:17:23 +0000
Subject: [PATCH 01/77] fix: bellman_ford must not relax edges of vertices that
 have not been reached

---
 include/graph/algorithm/bellman_ford_shortest_paths.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/graph/algorithm/bellman_ford_shortest_paths.hpp b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
index d6a6ecc..6a4d3c3 100644
--- a/include/graph/algorithm/bellman_ford_shortest_paths.hpp
+++ b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
@@ -192,6 +192,9 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
     id_type             vid = target_id(g, e);
     const DistanceValue d_u = distances[static_cast<size_t>(uid)];
     const DistanceValue d_v = distances[static_cast<size_t>(vid)];
+    if (d_u == shortest_path_infinite_distance<DistanceValue>()) {
+      return false; // uid has not been reached from any source, so there is no path to extend
+    }
 
     if (compare(combine(d_u, w_e), d_v)) {
       distances[static_cast<size_t>(vid)] = combine(d_u, w_e);
@@ -260,7 +263,7 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
   // Check for negative weight cycles
   if (at_least_one_edge_relaxed) {
     for (auto&& [uid, vid, uv, w] : views::edgelist(g, weight)) {
-      if (compare(combine(distances[uid], w), distances[vid])) {
+      if (distances[uid] != infinite && compare(combine(distances[uid], w), distances[vid])) {
         if constexpr (!is_same_v<Predecessors, _null_range_type>) {
           predecessor[vid] = uid; // close the cycle
         }
-- 
2.43.0


From fa0113000ecb1bf4b8b96d15218010a9408c5c90 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 02/77] fix: bellman_ford must report a vertex on the negative
 cycle

---
 include/graph/algorithm/bellman_ford_shortest_paths.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/graph/algorithm/bellman_ford_shortest_paths.hpp b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
index 6a4d3c3..c9b43e5 100644
--- a/include/graph/algorithm/bellman_ford_shortest_paths.hpp
+++ b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
@@ -270,6 +270,14 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
         if constexpr (has_on_edge_not_minimized<G, Visitor>) {
           visitor.on_edge_not_minimized(g, uv);
         }
+        if constexpr (!is_same_v<Predecessors, _null_range_type>) {
+          // uid is reachable from the cycle but need not be on it: N predecessor steps are sure to end on the cycle
+          id_type cycle_vertex_id = uid;
+          for (id_type k = 0; k < N; ++k) {
+            cycle_vertex_id = static_cast<id_type>(predecessor[static_cast<size_t>(cycle_vertex_id)]);
+          }
+          return return_type(cycle_vertex_id);
+        }
         return return_type(uid);
       } else {
         if constexpr (has_on_edge_minimized<G, Visitor>) {
-- 
2.43.0


From 909d03476bb8e125752e6c6f9bba5f2a8fd4e108 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 03/77] fix: edges(g, uid) and num_edges(g, uid) must be usable
 on compressed_graph

The friend edges() and num_edges() accepted any type as a vertex descriptor, so
asking by vertex id was a hard error instead of using the CPO default.
---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index a7fe21b..baba2c9 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1222,7 +1222,7 @@ public: // Friend functions
    * @note This is a lightweight view with minimal overhead
    * @note Returns empty view if vertex descriptor is out of bounds
   */
-  template <typename G, typename VertexDesc>
+  template <typename G, vertex_descriptor_type VertexDesc>
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
   [[nodiscard]] friend constexpr auto edges(G&& g, VertexDesc u) noexcept {
     using edge_iter_type =
@@ -1306,7 +1306,7 @@ public: // Friend functions
    * @note Complexity: O(1) - direct indexed access
    * @note This is the ADL customization point for the num_edges(g, u) CPO
   */
-  template <typename G, typename U>
+  template <typename G, vertex_descriptor_type U>
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
   [[nodiscard]] friend constexpr auto num_edges(const G& g, const U& u) noexcept {
     auto vid = static_cast<vertex_id_type>(u.vertex_id());
-- 
2.43.0


From 926db00a672098be8c308048f7c1a18f76eb9bcf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 04/77] fix: afforest must accept an empty graph

sample_frequent_element drew from the range [0, size()-1] and read the component
array of a graph without vertices.
---
 include/graph/algorithm/connected_components.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 9ab3a47..56ab7f3 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -720,6 +720,9 @@ void afforest(G&&          g,         // graph
               Component&   component, // out: connected component assignment
               const size_t neighbor_rounds = 2) {
   size_t N(num_vertices(g));
+  if (N == 0) {
+    return; // nothing to label (or to sample)
+  }
   // Initialize: each vertex is its own component
   std::iota(component.begin(), component.end(), 0);
 
@@ -827,6 +830,9 @@ void afforest(G&&          g,         // graph
               Component&   component, // out: connected component assignment
               const size_t neighbor_rounds = 2) {
   size_t N(num_vertices(g));
+  if (N == 0) {
+    return; // nothing to label (or to sample)
+  }
   // Initialize: each vertex is its own component
   std::iota(component.begin(), component.end(), 0);
 
-- 
2.43.0


From d93ed415618918111f00bf2da74d0176c1d12a1c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 05/77] fix: source and target ids of in-edges with the
 standard traits

With Bidirectional=true and traits that have no in_edge_type the incoming edges
are stored as out-edge records: source_id(g, ie) returned that record instead
of an id (so bidirectional_adjacency_list was not satisfied), target_id(g, ie)
returned the source for non-random-access edge containers, and source_id(g, ie)
returned the target for map-based vertex containers.
---
 include/graph/adj_list/edge_descriptor.hpp | 6 ++++++
 include/graph/detail/edge_cpo.hpp          | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/graph/adj_list/edge_descriptor.hpp b/include/graph/adj_list/edge_descriptor.hpp
index 7473f1a..cd8992d 100644
--- a/include/graph/adj_list/edge_descriptor.hpp
+++ b/include/graph/adj_list/edge_descriptor.hpp
@@ -138,6 +138,12 @@ public:
       return edge_val.second.source_id();
     } else if constexpr (requires { edge_val.source_id(); }) {
       return edge_val.source_id();
+    } else if constexpr (requires { edge_val.second.target_id(); }) {
+      // The in-edge is stored as an out-edge record (traits without an in_edge_type):
+      // the single id it holds is that of the vertex at the other end, i.e. the source.
+      return edge_val.second.target_id();
+    } else if constexpr (requires { edge_val.target_id(); }) {
+      return edge_val.target_id();
     } else if constexpr (requires { edge_val.first; }) {
       return edge_val.first;
     } else if constexpr (requires { std::get<0>(edge_val); }) {
diff --git a/include/graph/detail/edge_cpo.hpp b/include/graph/detail/edge_cpo.hpp
index 80ab59f..9472d5e 100644
--- a/include/graph/detail/edge_cpo.hpp
+++ b/include/graph/detail/edge_cpo.hpp
@@ -45,9 +45,12 @@ namespace _cpo_impls {
 
     // Check if the underlying native edge type has target_id() member - highest priority
     // This checks uv.value()->target_id() where value() returns iterator to native edge
+    // (an in-edge may be stored as an out-edge record whose target_id() is the edge's source,
+    // so in-edges always use the descriptor, which knows the vertex the edge comes into)
     template <typename G, typename E>
     concept _has_native_edge_member =
-          adj_list::is_edge_descriptor_v<std::remove_cvref_t<E>> && requires(G& g, const E& uv) {
+          adj_list::is_edge_descriptor_v<std::remove_cvref_t<E>> && (!std::remove_cvref_t<E>::is_in_edge) &&
+          requires(G& g, const E& uv) {
             { (*uv.value()).target_id() };
           };
 
@@ -341,6 +344,8 @@ namespace _cpo_impls {
             auto&& vd = uv.source().underlying_value(std::forward<G>(g));
             if constexpr (requires { vd.in_edges(); }) {
               return uv.source_id(vd);
+            } else if constexpr (requires { vd.second.in_edges(); }) {
+              return uv.source_id(vd); // key/vertex pair of a map-based vertex container
             } else {
               return uv.source_id();
             }
-- 
2.43.0


From 0d0459464cf9ae2739bfbe8260cc3b888a8b6179 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:32:03 +0000
Subject: [PATCH 06/77] fix: kosaraju must number vertices in depth-first
 finishing order

Marking a vertex when it was pushed rather than when it was expanded gave an
order that is not a finishing order, so distinct strong components could be
merged (e.g. 0->1, 0->2, 2->1).
---
 .../graph/algorithm/connected_components.hpp   | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 56ab7f3..7e5b3de 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -154,7 +154,6 @@ void kosaraju(G&&        g,        // graph
   auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
     std::stack<std::pair<vertex_id_t<G>, bool>> stack; // (vertex, children_visited)
     stack.push({start, false});
-    visited[start] = true;
 
     while (!stack.empty()) {
       auto [uid, children_visited] = stack.top();
@@ -165,6 +164,13 @@ void kosaraju(G&&        g,        // graph
         // This ensures children finish before parents in topological sort
         order.push_back(uid);
       } else {
+        // A vertex is visited when it is expanded, not when it is pushed: one that is reached
+        // again from a deeper vertex must be visited (and finish) there.
+        if (visited[uid]) {
+          continue;
+        }
+        visited[uid] = true;
+
         // Mark that we'll process this vertex after its children
         // Re-push with children_visited=true to record finish time later
         stack.push({uid, true});
@@ -174,7 +180,6 @@ void kosaraju(G&&        g,        // graph
         auto uid_vertex = *find_vertex(g_ref, uid);
         for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
           if (!visited[vid]) {
-            visited[vid] = true;
             stack.push({vid, false});
           }
         }
@@ -283,7 +288,6 @@ void kosaraju(G&&        g,        // bidirectional graph
   auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
     std::stack<std::pair<vertex_id_t<G>, bool>> stack;
     stack.push({start, false});
-    visited[start] = true;
 
     while (!stack.empty()) {
       auto [uid, children_visited] = stack.top();
@@ -292,12 +296,18 @@ void kosaraju(G&&        g,        // bidirectional graph
       if (children_visited) {
         order.push_back(uid);
       } else {
+        // A vertex is visited when it is expanded, not when it is pushed: one that is reached
+        // again from a deeper vertex must be visited (and finish) there.
+        if (visited[uid]) {
+          continue;
+        }
+        visited[uid] = true;
+
         stack.push({uid, true});
 
         auto uid_vertex = *find_vertex(g_ref, uid);
         for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
           if (!visited[vid]) {
-            visited[vid] = true;
             stack.push({vid, false});
           }
         }
-- 
2.43.0


From a16246d52c1a179a095c344d82a1262a4d2d0620 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 07/77] fix: target_id on compressed_graph must only accept
 edge descriptors

---
 include/graph/container/compressed_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index baba2c9..fb5cef2 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1268,7 +1268,7 @@ public: // Friend functions
    * @note No bounds checking is performed; edge descriptor must be valid
   */
   template <typename G, typename EdgeDesc>
-  requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
+  requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base> && edge_descriptor_type<EdgeDesc>
   [[nodiscard]] friend constexpr auto target_id(G&& g, const EdgeDesc& uv) noexcept {
     // Edge descriptor's value() returns the edge index into col_index_
     auto edge_idx = uv.value();
-- 
2.43.0


From 44db5550db8ec058e3bea026135230973d28767b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 08/77] fix: biconnected_components must emit a vertex that has
 only self-loops

---
 include/graph/algorithm/biconnected_components.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/graph/algorithm/biconnected_components.hpp b/include/graph/algorithm/biconnected_components.hpp
index 46110be..f1d3afd 100644
--- a/include/graph/algorithm/biconnected_components.hpp
+++ b/include/graph/algorithm/biconnected_components.hpp
@@ -262,6 +262,11 @@ void biconnected_components(G&& g, OuterContainer& components) {
         }
       }
     }
+
+    // Only self-loops: no other vertex was discovered, so the vertex is a trivial component as well
+    if (timer == disc[start] + 1) {
+      components.push_back(inner_type{static_cast<typename inner_type::value_type>(start)});
+    }
   }
 }
 
-- 
2.43.0


From f8a8d38030219974e7ce8f57bc9d89207787d369 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 09/77] fix: articulation_points must not mistake vertex 0 for
 the no-parent sentinel

---
 include/graph/algorithm/articulation_points.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/graph/algorithm/articulation_points.hpp b/include/graph/algorithm/articulation_points.hpp
index 9d3b5d8..dc9c09a 100644
--- a/include/graph/algorithm/articulation_points.hpp
+++ b/include/graph/algorithm/articulation_points.hpp
@@ -134,11 +134,11 @@ void articulation_points(G&& g, Iter cut_vertices) {
   }
 
   constexpr size_t UNVISITED = std::numeric_limits<size_t>::max();
-  const vid_t      NO_PARENT = static_cast<vid_t>(N); // sentinel for "no parent"
+  constexpr size_t NO_PARENT = std::numeric_limits<size_t>::max(); // sentinel for "no parent"; N may not fit in vid_t
 
   std::vector<size_t> disc(N, UNVISITED);
   std::vector<size_t> low(N, UNVISITED);
-  std::vector<vid_t>  parent(N, NO_PARENT);
+  std::vector<size_t> parent(N, NO_PARENT);
   std::vector<size_t> child_count(N, 0); // DFS tree children count (for root rule)
   std::vector<bool>   emitted(N, false); // deduplication guard
 
@@ -210,11 +210,11 @@ void articulation_points(G&& g, Iter cut_vertices) {
 
       if (disc[vid] == UNVISITED) {
         // Tree edge: vid is a new DFS child of uid
-        parent[vid] = uid;
+        parent[vid] = static_cast<size_t>(uid);
         child_count[uid]++;
         disc[vid] = low[vid] = timer++;
         stk.push({vid, 0, false});
-      } else if (vid == parent[uid] && !parent_skipped) {
+      } else if (static_cast<size_t>(vid) == parent[uid] && !parent_skipped) {
         // First reverse edge to DFS parent — this is the tree edge; skip it
         parent_skipped = true;
       } else {
-- 
2.43.0


From 40a632dd45e7484faac4f13ff2b8eda9c29df164 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 10/77] fix: kruskal must size its disjoint set from the edges,
 not from sort comparisons

---
 include/graph/algorithm/mst.hpp | 68 ++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 36 deletions(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index 747559a..2edf9eb 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -565,25 +565,26 @@ auto kruskal(IELR&&    e,      // graph
   std::ranges::transform(e, back_inserter(e_copy),
                          [](auto&& ed) { return std::make_tuple(ed.source_id, ed.target_id, ed.value); });
 
-  // Find maximum vertex ID while sorting edges by weight
-  VId  N             = 0; // Will hold the maximum vertex ID in the graph
-  auto outer_compare = [&](auto&& i, auto&& j) {
-    // Track maximum vertex ID (needed to size disjoint-set structure)
-    if (get<0>(i) > N) {
-      N = get<0>(i); // Check source vertex
+  // Find maximum vertex ID (needed to size disjoint-set structure)
+  VId N = 0;
+  for (auto&& ed : e_copy) {
+    if (get<0>(ed) > N) {
+      N = get<0>(ed); // Check source vertex
     }
-    if (get<1>(i) > N) {
-      N = get<1>(i); // Check target vertex
+    if (get<1>(ed) > N) {
+      N = get<1>(ed); // Check target vertex
     }
-    return compare(get<2>(i), get<2>(j)); // Compare edge weights
-  };
+  }
+
+  // Sort edges by weight
+  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<2>(i), get<2>(j)); };
   std::ranges::sort(e_copy, outer_compare);
 
   // Initialize disjoint-set: each vertex starts in its own set
-  disjoint_vector<VId> subsets(N + 1); // Size N+1 to accommodate vertices 0 through N
-  for (VId uid = 0; uid <= N; ++uid) {
-    subsets[uid].id    = uid; // Each vertex is its own parent (root)
-    subsets[uid].count = 0;   // Initial rank is 0
+  disjoint_vector<VId> subsets(static_cast<size_t>(N) + 1); // Size N+1 to accommodate vertices 0 through N
+  for (size_t uid = 0; uid < subsets.size(); ++uid) {
+    subsets[uid].id    = static_cast<VId>(uid); // Each vertex is its own parent (root)
+    subsets[uid].count = 0;                     // Initial rank is 0
   }
 
   // MST has exactly N-1 edges for a connected graph (or fewer for disconnected)
@@ -591,7 +592,7 @@ auto kruskal(IELR&&    e,      // graph
 
   // Track MST statistics
   EV     total_weight   = EV{};  // Sum of edge weights in MST
-  size_t num_components = N + 1; // Initially each vertex is its own component
+  size_t num_components = subsets.size(); // Initially each vertex is its own component
 
   // Process edges in sorted order (by weight)
   for (auto&& [uid, vid, val] : e_copy) {
@@ -708,31 +709,26 @@ auto inplace_kruskal(IELR&&    e,      // graph
     return std::pair<EV, size_t>{EV{}, 0};
   }
 
-  // Find maximum vertex ID while sorting edges by weight (modifies input!)
-  VId  N             = 0; // Will hold the maximum vertex ID in the graph
-  auto outer_compare = [&](auto&& i, auto&& j) {
-    // Track maximum vertex ID (needed to size disjoint-set structure)
-    if (i.source_id > N) {
-      N = i.source_id; // Check source vertex
+  // Find maximum vertex ID (needed to size disjoint-set structure)
+  VId N = 0;
+  for (auto&& ed : e) {
+    if (ed.source_id > N) {
+      N = ed.source_id; // Check source vertex
     }
-    if (i.target_id > N) {
-      N = i.target_id; // Check target vertex
+    if (ed.target_id > N) {
+      N = ed.target_id; // Check target vertex
     }
-    return compare(i.value, j.value); // Compare edge weights
-  };
-  std::ranges::sort(e, outer_compare); // ⚠️ Modifies input edge list!
-
-  // Empty graph edge case
-  if (N == 0) {
-    t.clear();
-    return std::pair<EV, size_t>{EV{}, 0};
   }
 
+  // Sort edges by weight (modifies input!)
+  auto outer_compare = [&](auto&& i, auto&& j) { return compare(i.value, j.value); };
+  std::ranges::sort(e, outer_compare); // ⚠️ Modifies input edge list!
+
   // Initialize disjoint-set: each vertex starts in its own set
-  disjoint_vector<VId> subsets(N + 1); // Size N+1 to accommodate vertices 0 through N
-  for (VId uid = 0; uid <= N; ++uid) {
-    subsets[uid].id    = uid; // Each vertex is its own parent (root)
-    subsets[uid].count = 0;   // Initial rank is 0
+  disjoint_vector<VId> subsets(static_cast<size_t>(N) + 1); // Size N+1 to accommodate vertices 0 through N
+  for (size_t uid = 0; uid < subsets.size(); ++uid) {
+    subsets[uid].id    = static_cast<VId>(uid); // Each vertex is its own parent (root)
+    subsets[uid].count = 0;                     // Initial rank is 0
   }
 
   // MST has exactly N-1 edges for a connected graph (or fewer for disconnected)
@@ -740,7 +736,7 @@ auto inplace_kruskal(IELR&&    e,      // graph
 
   // Track MST statistics
   EV     total_weight   = EV{};  // Sum of edge weights in MST
-  size_t num_components = N + 1; // Initially each vertex is its own component
+  size_t num_components = subsets.size(); // Initially each vertex is its own component
 
   // Process edges in sorted order (by weight)
   for (auto&& [uid, vid, val] : e) {
-- 
2.43.0


From 5875984bdc136ff1fb7d0e6c82c0c70ab21c9775 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 11/77] fix: prim must take the best edge first and leave tree
 vertices alone

---
 include/graph/algorithm/mst.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index 2edf9eb..50c76ab 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -936,22 +936,30 @@ auto prim(G&&                   g,           // graph
 
   using weighted_vertex = tuple<vertex_id_t<G>, EV>; // (vertex_id, edge_weight)
 
-  // Priority queue comparator: compare by edge weight (second element of tuple)
-  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<1>(i), get<1>(j)); };
+  // Priority queue comparator: the best edge weight (second element of tuple) has to be on top
+  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<1>(j), get<1>(i)); };
 
   // Min-heap (or max-heap depending on compare) of (vertex, weight) pairs
   std::priority_queue<weighted_vertex, std::vector<weighted_vertex>, decltype(outer_compare)> Q(outer_compare);
   Q.push({seed, distance[seed]}); // Start from seed vertex
 
+  std::vector<bool> in_tree(N, false); // Vertices whose tree edge is final
+
   // Main loop: grow MST by adding minimum-weight edges
   while (!Q.empty()) {
     auto uid = get<0>(Q.top()); // Extract vertex with minimum edge weight
     Q.pop();
 
+    // Superseded entry of a vertex that is already in the tree
+    if (in_tree[uid]) {
+      continue;
+    }
+    in_tree[uid] = true;
+
     // Examine all edges incident to current vertex
     for (auto&& [vid, w] : views::basic_incidence(g, uid, weight_fn)) {
-      // Relaxation: if edge weight is better than current distance to neighbor
-      if (compare(w, distance[vid])) {
+      // Relaxation: if edge weight is better than current distance to neighbor outside the tree
+      if (!in_tree[vid] && compare(w, distance[vid])) {
         distance[vid] = w;            // Update minimum edge weight to reach vid
         Q.push({vid, distance[vid]}); // Add/update neighbor in priority queue
         predecessor[vid] = uid;       // Record edge uid→vid in MST
@@ -965,8 +973,8 @@ auto prim(G&&                   g,           // graph
   // Exclude seed vertex (which has no incoming edge in MST)
   EV total_weight = EV{};
   for (size_t v = 0; v < N; ++v) {
-    if (v != static_cast<size_t>(seed) && predecessor[v] != static_cast<vertex_id_t<G>>(v)) {
-      // Only count vertices in MST (predecessor points to another vertex)
+    if (v != static_cast<size_t>(seed) && in_tree[v]) {
+      // Only count vertices in MST
       total_weight += weight[v];
     }
   }
-- 
2.43.0


From 051b4e52b85caec7ba2b46f6de225c4a40b423df Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:01:00 +0000
Subject: [PATCH 12/77] fix: loops over all vertices must not depend on the id
 type holding the vertex count

---
 .../graph/algorithm/bellman_ford_shortest_paths.hpp  |  8 ++++----
 include/graph/algorithm/connected_components.hpp     |  3 ++-
 include/graph/algorithm/dijkstra_shortest_paths.hpp  | 12 ++++++------
 include/graph/algorithm/tc.hpp                       |  3 ++-
 4 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/graph/algorithm/bellman_ford_shortest_paths.hpp b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
index c9b43e5..9109281 100644
--- a/include/graph/algorithm/bellman_ford_shortest_paths.hpp
+++ b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
@@ -223,11 +223,11 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
   constexpr auto zero     = shortest_path_zero<DistanceValue>();
   constexpr auto infinite = shortest_path_infinite_distance<DistanceValue>();
 
-  const id_type N = static_cast<id_type>(num_vertices(g));
+  const size_t N = num_vertices(g); // may be one more than id_type can hold
 
   // Seed the queue with the initial vertice(s)
   for (auto&& source : sources) {
-    if (source >= N || source < 0) {
+    if (source < 0 || static_cast<size_t>(source) >= N) {
       throw std::out_of_range(
             std::format("bellman_ford_shortest_paths: source vertex id '{}' is out of range", source));
     }
@@ -241,7 +241,7 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
 
   // Evaluate the shortest paths
   bool at_least_one_edge_relaxed = false;
-  for (id_type k = 0; k < N; ++k) {
+  for (size_t k = 0; k < N; ++k) {
     at_least_one_edge_relaxed = false;
     for (auto&& [uid, vid, uv, w] : views::edgelist(g, weight)) {
       if constexpr (has_on_examine_edge<G, Visitor>) {
@@ -273,7 +273,7 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
         if constexpr (!is_same_v<Predecessors, _null_range_type>) {
           // uid is reachable from the cycle but need not be on it: N predecessor steps are sure to end on the cycle
           id_type cycle_vertex_id = uid;
-          for (id_type k = 0; k < N; ++k) {
+          for (size_t k = 0; k < N; ++k) {
             cycle_vertex_id = static_cast<id_type>(predecessor[static_cast<size_t>(cycle_vertex_id)]);
           }
           return return_type(cycle_vertex_id);
diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 7e5b3de..ac53c46 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -463,7 +463,8 @@ size_t connected_components(G&&        g,        // graph
 
   std::stack<vertex_id_t<G>> S;
   CT                         cid = 0; // Current component ID
-  for (vertex_id_t<G> uid = 0; uid < N; ++uid) {
+  for (size_t u = 0; u < N; ++u) {
+    const vertex_id_t<G> uid = static_cast<vertex_id_t<G>>(u);
     if (component[uid] < std::numeric_limits<CT>::max()) {
       continue; // Already assigned to a component
     }
diff --git a/include/graph/algorithm/dijkstra_shortest_paths.hpp b/include/graph/algorithm/dijkstra_shortest_paths.hpp
index ede2b58..4613ce6 100644
--- a/include/graph/algorithm/dijkstra_shortest_paths.hpp
+++ b/include/graph/algorithm/dijkstra_shortest_paths.hpp
@@ -186,7 +186,7 @@ constexpr void dijkstra_shortest_paths(
   constexpr auto zero     = shortest_path_zero<distance_type>();
   constexpr auto infinite = shortest_path_infinite_distance<distance_type>();
 
-  const id_type N = static_cast<id_type>(num_vertices(g));
+  const size_t N = num_vertices(g); // may be one more than id_type can hold
 
   auto qcompare = [&distances](id_type a, id_type b) {
     return distances[static_cast<size_t>(a)] > distances[static_cast<size_t>(b)];
@@ -196,18 +196,18 @@ constexpr void dijkstra_shortest_paths(
 
   // (The optimizer removes this loop if on_initialize_vertex() is empty.)
   if constexpr (has_on_initialize_vertex<G, Visitor>) {
-    for (id_type uid = 0; uid < N; ++uid) {
-      visitor.on_initialize_vertex(g, *find_vertex(g, uid));
+    for (size_t uid = 0; uid < N; ++uid) {
+      visitor.on_initialize_vertex(g, *find_vertex(g, static_cast<id_type>(uid)));
     }
   } else if constexpr (has_on_initialize_vertex_id<G, Visitor>) {
-    for (id_type uid = 0; uid < N; ++uid) {
-      visitor.on_initialize_vertex(g, uid);
+    for (size_t uid = 0; uid < N; ++uid) {
+      visitor.on_initialize_vertex(g, static_cast<id_type>(uid));
     }
   }
 
   // Seed the queue with the initial vertice(s)
   for (auto&& source : sources) {
-    if (source >= N || source < 0) {
+    if (source < 0 || static_cast<size_t>(source) >= N) {
       throw std::out_of_range(std::format("dijkstra_shortest_paths: source vertex id '{}' is out of range", source));
     }
     queue.push(source);
diff --git a/include/graph/algorithm/tc.hpp b/include/graph/algorithm/tc.hpp
index 2519c6e..778a0ee 100644
--- a/include/graph/algorithm/tc.hpp
+++ b/include/graph/algorithm/tc.hpp
@@ -234,7 +234,8 @@ size_t triangle_count(G&& g) {
   // ============================================================================
   // Main loop: Process each vertex as the "first" vertex in potential triangles
   // ============================================================================
-  for (vertex_id_t<G> uid = 0; uid < vertex_count; ++uid) {
+  for (size_t u = 0; u < vertex_count; ++u) {
+    const vertex_id_t<G> uid = static_cast<vertex_id_t<G>>(u);
     auto u_edges = edges(g, uid);
     auto u_it    = std::ranges::begin(u_edges);
     auto u_end   = std::ranges::end(u_edges);
-- 
2.43.0


From 7c1d9874ebe8deef6993068458408af3a73d305d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:01:00 +0000
Subject: [PATCH 13/77] fix: maximal_independent_set must exclude every vertex
 with a self-loop

---
 include/graph/algorithm/mis.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/graph/algorithm/mis.hpp b/include/graph/algorithm/mis.hpp
index 960d0b2..082f6df 100755
--- a/include/graph/algorithm/mis.hpp
+++ b/include/graph/algorithm/mis.hpp
@@ -184,6 +184,16 @@ size_t maximal_independent_set(G&&                      g,       // graph
   for (auto u : vertices(g)) {
     vertex_id_t<G> uid = vertex_id(g, u);
     if (!removed_vertices[uid]) {
+      bool has_self_loop = false;
+      for (auto uv : edges(g, u)) {
+        if (target_id(g, uv) == uid) {
+          has_self_loop = true;
+          break;
+        }
+      }
+      if (has_self_loop) {
+        continue; // adjacent to itself: cannot be in any independent set
+      }
       *mis++ = uid;
       ++count;
       removed_vertices[uid] = 1;
-- 
2.43.0


From 7b7654911768a159786a2ee18cf804f5ee5d88a8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 14/77] fix: edges_bfs_view prunes every cancelled branch, not
 only the last one

---
 include/graph/views/bfs.hpp | 43 +++++++++++--------------------------
 1 file changed, 12 insertions(+), 31 deletions(-)

diff --git a/include/graph/views/bfs.hpp b/include/graph/views/bfs.hpp
index e17e109..f8c1dd6 100644
--- a/include/graph/views/bfs.hpp
+++ b/include/graph/views/bfs.hpp
@@ -217,7 +217,6 @@ namespace bfs_detail {
     cancel_search                                               cancel_    = cancel_search::continue_search;
     std::size_t                                                 max_depth_ = 0;
     std::size_t                                                 count_     = 0;
-    std::optional<vertex_id_type> skip_vertex_id_; // Vertex to skip when processing (for cancel_branch)
 
     bfs_edge_state(G& g, vertex_type seed_vertex, std::size_t num_vertices, Alloc alloc = {})
           : queue_(std::deque<entry_type, queue_alloc>(alloc)), visited_(num_vertices, alloc) {
@@ -768,24 +767,17 @@ public:
         return;
       }
 
-      // Handle cancel_branch: mark the target of last edge to be skipped
+      // Handle cancel_branch: do not explore the target of the edge just produced
       if (state_->cancel_ == cancel_search::cancel_branch) {
-        state_->skip_vertex_id_ = current_target_id_;
-        state_->cancel_         = cancel_search::continue_search;
+        // (the newest queue entry)
+        state_->queue_.back().edge_current = state_->queue_.back().edge_end;
+        state_->cancel_                     = cancel_search::continue_search;
       }
 
       // Find next tree edge using BFS
       while (!state_->queue_.empty()) {
         auto& current = state_->queue_.front();
 
-        // Check if we should skip this vertex (due to cancel_branch)
-        auto current_vid = adj_list::vertex_id(*g_, current.vertex);
-        if (state_->skip_vertex_id_ && *state_->skip_vertex_id_ == current_vid) {
-          state_->skip_vertex_id_.reset();
-          state_->queue_.pop();
-          continue;
-        }
-
         // Process edges from current vertex
         while (current.edge_current != current.edge_end) {
           auto edge = *current.edge_current;
@@ -809,9 +801,8 @@ public:
             ++state_->count_;
 
             // Store and return this edge
-            current_edge_      = edge;
-            current_target_id_ = target_vid;
-            has_edge_          = true;
+            current_edge_ = edge;
+            has_edge_     = true;
             return;
           }
         }
@@ -824,7 +815,6 @@ public:
     G*                          g_ = nullptr;
     std::shared_ptr<state_type> state_;
     edge_type                   current_edge_{};
-    vertex_id_type              current_target_id_{}; // Target vertex ID of current edge
     bool                        has_edge_ = false;
   };
 
@@ -955,24 +945,17 @@ public:
         return;
       }
 
-      // Handle cancel_branch: mark the target of last edge to be skipped
+      // Handle cancel_branch: do not explore the target of the edge just produced
       if (state_->cancel_ == cancel_search::cancel_branch) {
-        state_->skip_vertex_id_ = current_target_id_;
-        state_->cancel_         = cancel_search::continue_search;
+        // (the newest queue entry)
+        state_->queue_.back().edge_current = state_->queue_.back().edge_end;
+        state_->cancel_                     = cancel_search::continue_search;
       }
 
       // Find next tree edge using BFS
       while (!state_->queue_.empty()) {
         auto& current = state_->queue_.front();
 
-        // Check if we should skip this vertex (due to cancel_branch)
-        auto current_vid = adj_list::vertex_id(*g_, current.vertex);
-        if (state_->skip_vertex_id_ && *state_->skip_vertex_id_ == current_vid) {
-          state_->skip_vertex_id_.reset();
-          state_->queue_.pop();
-          continue;
-        }
-
         // Process edges from current vertex
         while (current.edge_current != current.edge_end) {
           auto edge = *current.edge_current;
@@ -996,9 +979,8 @@ public:
             ++state_->count_;
 
             // Store and return this edge
-            current_edge_      = edge;
-            current_target_id_ = target_vid;
-            has_edge_          = true;
+            current_edge_ = edge;
+            has_edge_     = true;
             return;
           }
         }
@@ -1012,7 +994,6 @@ public:
     std::shared_ptr<state_type> state_;
     EVF*                        evf_ = nullptr;
     edge_type                   current_edge_{};
-    vertex_id_type              current_target_id_{}; // Target vertex ID of current edge
     bool                        has_edge_ = false;
   };
 
-- 
2.43.0


From 47d54204162dc7de39ca398b1540220f8921f96a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 15/77] fix: edgelist views must not report a size the
 iteration does not have

---
 include/graph/container/dynamic_graph.hpp           |  3 +++
 .../graph/container/undirected_adjacency_list.hpp   |  3 +++
 include/graph/views/edgelist.hpp                    | 13 +++++++++++--
 include/graph/views/transpose.hpp                   |  4 ++++
 4 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index cccfd1e..534175f 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -909,6 +909,9 @@ public: // types
   using edge_allocator_type = typename edges_type::allocator_type;
   using edge_type           = dynamic_out_edge<EV, VV, GV, VId, Bidirectional, Traits>;
 
+  /// @brief Set and map edge containers reject duplicates that num_edges(g) counts as loaded edges.
+  static constexpr bool edge_count_differs_from_listing = requires { typename edges_type::key_type; };
+
   // Detection-idiom derived aliases (Phase 1 — dead code until Phase 2).
   // For standard traits that don't define in_edge_type/in_edges_type, these fall back
   // to edge_type and edges_type respectively, keeping runtime behavior unchanged.
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 8ae18cc..27ba352 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -802,6 +802,9 @@ public: // Type Aliases
   using const_neighbor_range    = typename vertex_type::const_neighbor_range;
   using neighbor_size_type      = typename vertex_type::neighbor_size_type;
 
+  /// @brief Every edge is listed at both of its vertices, but num_edges(g) counts it once.
+  static constexpr bool edge_count_differs_from_listing = true;
+
   // Edge iterators (nested classes)
   class edge_iterator;       // (defined below)
   class const_edge_iterator; // (defined below)
diff --git a/include/graph/views/edgelist.hpp b/include/graph/views/edgelist.hpp
index e66f370..4951051 100644
--- a/include/graph/views/edgelist.hpp
+++ b/include/graph/views/edgelist.hpp
@@ -136,12 +136,21 @@ namespace edgelist_detail {
     { num_edges(g) } -> std::integral;
   };
 
+  /// @brief Detect a graph whose num_edges(g) isn't the number of elements in an edgelist view: it lists every
+  /// edge at both of its vertices but counts it once (undirected_adjacency_list), or it counts duplicate edges
+  /// that its edge containers have rejected (dynamic_graph with set or map edge containers).
+  template <class G>
+  concept _edge_count_differs_from_listing =
+        requires { requires std::remove_cvref_t<G>::edge_count_differs_from_listing; };
+
   /// @brief Detect if a graph type supports O(1) total edge count.
   /// True when the graph provides g.num_edges() member or ADL num_edges(g).
-  /// False for the default CPO fallback (which iterates all vertices, O(V)).
+  /// False for the default CPO fallback (which iterates all vertices, O(V)), and for graphs where the count
+  /// differs from the number of edges iterated.
   /// When true, edgelist_view conditionally provides size().
   template <class G>
-  concept has_const_time_num_edges = _has_num_edges_member<G> || _has_num_edges_adl<G>;
+  concept has_const_time_num_edges =
+        (_has_num_edges_member<G> || _has_num_edges_adl<G>) && !_edge_count_differs_from_listing<G>;
 } // namespace edgelist_detail
 
 // Forward declarations
diff --git a/include/graph/views/transpose.hpp b/include/graph/views/transpose.hpp
index 67f7031..48cc929 100644
--- a/include/graph/views/transpose.hpp
+++ b/include/graph/views/transpose.hpp
@@ -77,6 +77,10 @@ class transpose_view {
 public:
   using graph_type = G;
 
+  /// @brief Same as the underlying graph: does num_edges(g) differ from the number of edges listed?
+  static constexpr bool edge_count_differs_from_listing =
+        requires { requires std::remove_cvref_t<G>::edge_count_differs_from_listing; };
+
   /// Construct from a mutable reference to the underlying graph.
   explicit constexpr transpose_view(G& g) noexcept : g_(&g) {}
 
-- 
2.43.0


From dedc0f958f45f2f4bc0ecbc0c267b131bf8a3a95 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:44:37 +0000
Subject: [PATCH 16/77] fix: find_vertex on undirected_adjacency_list must not
 narrow the vertex count to the id type

---
 include/graph/container/undirected_adjacency_list.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 27ba352..f56a240 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -1237,7 +1237,7 @@ constexpr auto find_vertex(undirected_adjacency_list<EV, VV, GV, VId, VContainer
   using view_iterator  = typename view_type::iterator;
   using storage_type   = typename view_iterator::value_type::storage_type;
 
-  if (id >= static_cast<VId>(g.vertices().size())) {
+  if (static_cast<storage_type>(id) >= g.vertices().size()) {
     return view_iterator{static_cast<storage_type>(g.vertices().size())};
   }
   return view_iterator{static_cast<storage_type>(id)};
@@ -1257,7 +1257,7 @@ constexpr auto find_vertex(const undirected_adjacency_list<EV, VV, GV, VId, VCon
   using view_iterator  = typename view_type::iterator;
   using storage_type   = typename view_iterator::value_type::storage_type;
 
-  if (id >= static_cast<VId>(g.vertices().size())) {
+  if (static_cast<storage_type>(id) >= g.vertices().size()) {
     return view_iterator{static_cast<storage_type>(g.vertices().size())};
   }
   return view_iterator{static_cast<storage_type>(id)};
-- 
2.43.0


From b998427765d14a0df49816cf2813a910f82ecafe Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:54:13 +0000
Subject: [PATCH 17/77] fix: source of an in-edge descriptor is the vertex the
 edge comes from

---
 include/graph/adj_list/detail/graph_cpo.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index d3ce56f..72dfc24 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -3186,10 +3186,12 @@ namespace _cpo_impls {
     };
 
     // Check if edge descriptor has source() member
+    // (the vertex stored in an in-edge descriptor is the one the edge leads to, so those use the default)
     template <typename E>
-    concept _has_descriptor = is_edge_descriptor_v<std::remove_cvref_t<E>> && requires(const E& uv) {
-      { uv.source() };
-    };
+    concept _has_descriptor =
+          is_edge_descriptor_v<std::remove_cvref_t<E>> && (!std::remove_cvref_t<E>::is_in_edge) && requires(const E& uv) {
+            { uv.source() };
+          };
 
     // Check if default implementation is available
     // Requires source_id(g, uv) and find_vertex(g, id) to work
-- 
2.43.0


From a4e490059cd1dbc8230f287b7daa08b285923bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:54:13 +0000
Subject: [PATCH 18/77] fix: num_edges(tv, u) of a transposed view counts the
 incoming edges

---
 include/graph/views/transpose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/views/transpose.hpp b/include/graph/views/transpose.hpp
index 48cc929..490dc8a 100644
--- a/include/graph/views/transpose.hpp
+++ b/include/graph/views/transpose.hpp
@@ -214,7 +214,7 @@ public:
 
   template <typename V>
   friend constexpr auto num_edges(const transpose_view& tv, const V& v) {
-    return adj_list::num_edges(*tv.g_, v);
+    return adj_list::in_degree(*tv.g_, v);
   }
 
   friend constexpr auto num_edges(const transpose_view& tv) { return adj_list::num_edges(*tv.g_); }
-- 
2.43.0


From 7c8b41cb5efdbe39813b58b83fd04be1756547af Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:30:15 +0000
Subject: [PATCH 19/77] fix: clear() on a dynamic_graph with non-integral
 vertex ids must not terminate

---
 include/graph/container/dynamic_graph.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 534175f..ba91556 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1514,7 +1514,8 @@ public: // Operations
   void clear() noexcept {
     vertices_.clear();
     partition_.clear();
-    partition_.push_back(0);
+    if constexpr (!is_associative_container<vertices_type>)
+      partition_.push_back(0);
     edge_count_ = 0;
   }
 
-- 
2.43.0


From 2e0737e50c1deb8e08e53f59d8d05ea18968e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:33:38 +0000
Subject: [PATCH 20/77] fix: a moved-from dynamic_graph must not report the
 edges it no longer has

---
 include/graph/container/dynamic_graph.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index ba91556..54b19de 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -7,6 +7,7 @@
 #include <map>
 #include <stdexcept>
 #include <cassert>
+#include <utility>
 #include "graph/graph.hpp"
 #include "graph/adj_list/vertex_descriptor_view.hpp"
 #include "container_utility.hpp"
@@ -930,11 +931,24 @@ public: // types
 public: // Construction/Destruction/Assignment
   constexpr dynamic_graph_base()                          = default;
   constexpr dynamic_graph_base(const dynamic_graph_base&) = default;
-  constexpr dynamic_graph_base(dynamic_graph_base&&)      = default;
   constexpr ~dynamic_graph_base()                         = default;
 
+  // A moved-from graph has no vertices left, so it has no edges either.
+  constexpr dynamic_graph_base(dynamic_graph_base&& other) noexcept(std::is_nothrow_move_constructible_v<vertices_type>)
+        : vertices_(std::move(other.vertices_))
+        , partition_(std::move(other.partition_))
+        , edge_count_(std::exchange(other.edge_count_, size_t{0})) {}
+
   constexpr dynamic_graph_base& operator=(const dynamic_graph_base&) = default;
-  constexpr dynamic_graph_base& operator=(dynamic_graph_base&&)      = default;
+  constexpr dynamic_graph_base&
+  operator=(dynamic_graph_base&& other) noexcept(std::is_nothrow_move_assignable_v<vertices_type>) {
+    if (this != &other) {
+      vertices_   = std::move(other.vertices_);
+      partition_  = std::move(other.partition_);
+      edge_count_ = std::exchange(other.edge_count_, size_t{0});
+    }
+    return *this;
+  }
 
   /**
    * @brief Construct an empty graph using the allocator passed.
-- 
2.43.0


From 10aad0db44857cb5e8853208044ad4b57b3c6e32 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 21/77] fix: load_vertices of compressed_graph must accept a
 range that does not know its size

---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index fb5cef2..c0c2046 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -187,7 +187,7 @@ public: // Operations
     if constexpr (sized_range<VRng>)
       vertex_count = max(vertex_count, std::ranges::size(vrng));
     else if (vertex_count == 0) // assume 0 means not provided and need to evaluate
-      vertex_count = max(vertex_count, std::ranges::distance(vrng));
+      vertex_count = max(vertex_count, static_cast<size_type>(std::ranges::distance(vrng)));
 
     // Don't shrink if already allocated - only grow if needed
     if (size() > 0)
@@ -216,7 +216,7 @@ public: // Operations
     if constexpr (sized_range<VRng>)
       vertex_count = max(vertex_count, std::ranges::size(vrng));
     else if (vertex_count == 0) // assume 0 means not provided and need to evaluate
-      vertex_count = max(vertex_count, std::ranges::distance(vrng));
+      vertex_count = max(vertex_count, static_cast<size_type>(std::ranges::distance(vrng)));
 
     // Don't shrink if already allocated - only grow if needed
     if (size() > 0)
-- 
2.43.0


From 7fb09cccdf7506d919cffc112c8b273536d44d00 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:54:06 +0000
Subject: [PATCH 22/77] fix: edge_value(g, uv) of compressed_graph must not
 narrow the edge index to the vertex id type

---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index c0c2046..c236939 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1376,9 +1376,9 @@ public: // Friend functions
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base> && (!std::is_void_v<EV>)
   [[nodiscard]] friend constexpr decltype(auto) edge_value(G&& g, const E& uv) noexcept {
     if constexpr (std::is_const_v<std::remove_reference_t<G>>) {
-      return g.edge_value(static_cast<vertex_id_type>(uv.value()));
+      return g.edge_value(static_cast<edge_id_type>(uv.value()));
     } else {
-      return g.edge_value(static_cast<vertex_id_type>(uv.value()));
+      return g.edge_value(static_cast<edge_id_type>(uv.value()));
     }
   }
 
-- 
2.43.0


From 99a197bea2a90fc22a43122ed38dab36b700def5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:54:06 +0000
Subject: [PATCH 23/77] fix: constructing a compressed_graph from an empty edge
 list must not throw

load_edges closed the partitions before the constructor did; it also ignored vertex_count.
---
 include/graph/container/compressed_graph.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index c236939..6feb9a4 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -704,7 +704,8 @@ public: // Operations
 
     // Nothing to do?
     if (begin(erng) == end(erng)) {
-      terminate_partitions();
+      if (vertex_count > size())
+        row_index_.resize(vertex_count + 1, vertex_type{0});
       return;
     }
 
@@ -768,7 +769,8 @@ public: // Operations
 
     // Nothing to do?
     if (begin(erng) == end(erng)) {
-      terminate_partitions();
+      if (vertex_count > size())
+        row_index_.resize(vertex_count + 1, vertex_type{0});
       return;
     }
 
-- 
2.43.0


From 537db8e0c8ad84608f267aed6bcab497f16f0a32 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:54:06 +0000
Subject: [PATCH 24/77] fix: load_vertices must not give the vertices it adds
 to a compressed_graph row offsets before the last edge

---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 6feb9a4..01807dd 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -649,8 +649,8 @@ public: // Operations
     if (row_index_.empty() && vertex_count > 0) {
       row_index_.resize(vertex_count + 1, vertex_type{0}); // All vertices have 0 edges initially
     } else if (vertex_count > size()) {
-      // Expand existing structure if needed
-      row_index_.resize(vertex_count + 1, vertex_type{0});
+      // Expand existing structure if needed; the new rows follow all edges
+      row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
     }
 
     row_values_base::load_row_values(vrng, vprojection, vertex_count);
-- 
2.43.0


From 0c15f8f6214ea42eee7ac65d9af825d09e18b642 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:54:06 +0000
Subject: [PATCH 25/77] fix: loading an empty range of vertices must not add a
 vertex to a compressed_graph

---
 include/graph/container/compressed_graph.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 01807dd..2fe7ef4 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -636,14 +636,14 @@ public: // Operations
   //requires views::copyable_vertex<invoke_result_t<VProj, range_value_t<VRng>>, VId, VV>
   constexpr void load_vertices(const VRng& vrng, VProj vprojection = {}, size_type vertex_count = 0) {
     // Scan the vertex data to find the maximum vertex ID
-    vertex_id_type max_id = 0;
+    size_type id_count = 0;
     for (auto&& vtx_data : vrng) {
       auto&& vtx = vprojection(vtx_data);
-      max_id     = max(max_id, static_cast<vertex_id_type>(vtx.id));
+      id_count   = max(id_count, static_cast<size_type>(vtx.id) + 1);
     }
 
     // Determine required vertex count: max(provided hint, max_id + 1, existing size)
-    vertex_count = max({vertex_count, static_cast<size_type>(max_id + 1), size()});
+    vertex_count = max({vertex_count, id_count, size()});
 
     // If graph structure doesn't exist yet, create it based on vertex count
     if (row_index_.empty() && vertex_count > 0) {
-- 
2.43.0


From ac1c8368ff8104c4acca38ada56284ceae8a062c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:54:22 +0000
Subject: [PATCH 26/77] fix: every vertex of a compressed_graph must have a
 value

vertex_value read out of bounds when only edges had been loaded.
---
 include/graph/container/compressed_graph.hpp | 24 ++++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 2fe7ef4..04a09d8 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -653,6 +653,8 @@ public: // Operations
       row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
     }
 
+    if (row_values_base::size() < vertex_count)
+      row_values_base::resize(vertex_count);
     row_values_base::load_row_values(vrng, vprojection, vertex_count);
   }
 
@@ -704,8 +706,10 @@ public: // Operations
 
     // Nothing to do?
     if (begin(erng) == end(erng)) {
-      if (vertex_count > size())
+      if (vertex_count > size()) {
         row_index_.resize(vertex_count + 1, vertex_type{0});
+        row_values_base::resize(vertex_count);
+      }
       return;
     }
 
@@ -752,10 +756,9 @@ public: // Operations
     // add any rows that haven't been added yet, and (+1) terminating row
     row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
 
-    // If load_vertices(vrng,vproj) has been called but it doesn't have enough values for all
-    // the vertices then we extend the size to remove possibility of out-of-bounds occuring when
-    // getting a value for a row.
-    if (row_values_base::size() > 1 && row_values_base::size() < vertex_count)
+    // Every vertex has a value, whether load_vertices(vrng,vproj) has been called or not, to remove
+    // the possibility of out-of-bounds occuring when getting a value for a row.
+    if (row_values_base::size() < vertex_count)
       row_values_base::resize(vertex_count);
   }
 
@@ -769,8 +772,10 @@ public: // Operations
 
     // Nothing to do?
     if (begin(erng) == end(erng)) {
-      if (vertex_count > size())
+      if (vertex_count > size()) {
         row_index_.resize(vertex_count + 1, vertex_type{0});
+        row_values_base::resize(vertex_count);
+      }
       return;
     }
 
@@ -835,10 +840,9 @@ public: // Operations
     // add any rows that haven't been added yet, and (+1) terminating row
     row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
 
-    // If load_vertices(vrng,vproj) has been called but it doesn't have enough values for all
-    // the vertices then we extend the size to remove possibility of out-of-bounds occuring when
-    // getting a value for a row.
-    if (row_values_base::size() > 0 && row_values_base::size() < vertex_count)
+    // Every vertex has a value, whether load_vertices(vrng,vproj) has been called or not, to remove
+    // the possibility of out-of-bounds occuring when getting a value for a row.
+    if (row_values_base::size() < vertex_count)
       row_values_base::resize(vertex_count);
   }
 
-- 
2.43.0


From 7c56536928aad45a1888b387d364cb87ee7177f8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 27/77] fix: load_edges of compressed_graph must work after
 load_vertices, as documented

---
 include/graph/container/compressed_graph.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 04a09d8..7cd0f74 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -701,8 +701,8 @@ public: // Operations
   template <class ERng, class EProj = identity>
   //requires views::copyable_edge<invoke_result_t<EProj, range_value_t<ERng>>, VId, EV>
   constexpr void load_edges(ERng&& erng, EProj eprojection = {}, size_type vertex_count = 0, size_type edge_count = 0) {
-    // should only be loading into an empty graph
-    assert(row_index_.empty() && col_index_.empty() && static_cast<col_values_base&>(*this).empty());
+    // should only be loading into a graph without edges; load_vertices(vrng,vproj) may have been called
+    assert(col_index_.empty() && static_cast<col_values_base&>(*this).empty());
 
     // Nothing to do?
     if (begin(erng) == end(erng)) {
@@ -731,7 +731,9 @@ public: // Operations
     col_index_.reserve(edge_count);
     static_cast<col_values_base&>(*this).reserve(edge_count);
 
-    // Add edges
+    // Add edges; the rows of vertices that have already been loaded are built again
+    vertex_count = max(vertex_count, size());
+    row_index_.clear();
     vertex_id_type last_uid = 0, max_vid = 0;
     for (auto&& edge_data : erng) {
       auto&& edge = eprojection(edge_data);                            // compressed_graph requires EV!=void
@@ -767,8 +769,8 @@ public: // Operations
   //requires views::copyable_edge<invoke_result_t<EProj, range_value_t<ERng>>, VId, EV>
   constexpr void
   load_edges(const ERng& erng, EProj eprojection = {}, size_type vertex_count = 0, size_type edge_count = 0) {
-    // should only be loading into an empty graph
-    assert(row_index_.empty() && col_index_.empty() && static_cast<col_values_base&>(*this).empty());
+    // should only be loading into a graph without edges; load_vertices(vrng,vproj) may have been called
+    assert(col_index_.empty() && static_cast<col_values_base&>(*this).empty());
 
     // Nothing to do?
     if (begin(erng) == end(erng)) {
@@ -797,7 +799,9 @@ public: // Operations
     col_index_.reserve(edge_count);
     static_cast<col_values_base&>(*this).reserve(edge_count);
 
-    // Add edges
+    // Add edges; the rows of vertices that have already been loaded are built again
+    vertex_count = max(vertex_count, size());
+    row_index_.clear();
 #ifndef NDEBUG
     size_t debug_count = 0;
 #endif
-- 
2.43.0


From ea77c1114676268fb2d27b95f3da307af1694f22 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 28/77] fix: load_edges of compressed_graph must reject
 unordered edges whatever the kind of range

Only const ranges were rejected with graph_error; others built a broken graph with NDEBUG.
---
 include/graph/container/compressed_graph.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 7cd0f74..33cada1 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -736,8 +736,11 @@ public: // Operations
     row_index_.clear();
     vertex_id_type last_uid = 0, max_vid = 0;
     for (auto&& edge_data : erng) {
-      auto&& edge = eprojection(edge_data);                            // compressed_graph requires EV!=void
-      assert(static_cast<vertex_id_type>(edge.source_id) >= last_uid); // ordered by uid? (requirement)
+      auto&& edge = eprojection(edge_data);                             // compressed_graph requires EV!=void
+      if (static_cast<vertex_id_type>(edge.source_id) < last_uid) { // ordered by uid? (requirement)
+        throw graph_error(std::format("source id of {} is not ordered after source id of {} in the data input",
+                                      edge.source_id, last_uid));
+      }
 
       // Only resize when we encounter a new source vertex (optimization)
       if (static_cast<vertex_id_type>(edge.source_id) != last_uid || row_index_.empty()) {
-- 
2.43.0


From da2d4be26e2b60c3105695471ec7277d03448d03 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 29/77] fix: load_edges of compressed_graph must not move the
 values out of an lvalue range

---
 include/graph/container/compressed_graph.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 33cada1..49e594d 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -750,8 +750,14 @@ public: // Operations
       }
 
       col_index_.push_back(edge_type{static_cast<vertex_id_type>(edge.target_id)});
-      if constexpr (!is_void_v<EV>)
-        static_cast<col_values_base&>(*this).emplace_back(move(edge.value));
+      if constexpr (!is_void_v<EV>) {
+        // Only values of temporaries may be moved from
+        if constexpr ((std::is_lvalue_reference_v<ERng> || std::ranges::view<std::remove_cvref_t<ERng>>) &&
+                      std::is_lvalue_reference_v<decltype((std::forward<decltype(edge)>(edge).value))>)
+          static_cast<col_values_base&>(*this).push_back(edge.value);
+        else
+          static_cast<col_values_base&>(*this).emplace_back(move(edge.value));
+      }
       max_vid = max(max_vid, static_cast<vertex_id_type>(edge.target_id));
     }
 
-- 
2.43.0


From 5bbd78d27c714f0ee042ecc796177eeede65e0bd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 30/77] fix: a load_edges that fails must leave a
 compressed_graph as it was

The rows and edges read before unordered input was found remained in a half-built graph.
---
 include/graph/container/compressed_graph.hpp | 21 ++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 49e594d..2061911 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -733,6 +733,7 @@ public: // Operations
 
     // Add edges; the rows of vertices that have already been loaded are built again
     vertex_count = max(vertex_count, size());
+    partial_load loading{*this, size()};
     row_index_.clear();
     vertex_id_type last_uid = 0, max_vid = 0;
     for (auto&& edge_data : erng) {
@@ -771,6 +772,7 @@ public: // Operations
     // the possibility of out-of-bounds occuring when getting a value for a row.
     if (row_values_base::size() < vertex_count)
       row_values_base::resize(vertex_count);
+    loading.complete = true;
   }
 
   // The only diff with this and ERng&& is v_.push_back vs. v_.emplace_back
@@ -810,6 +812,7 @@ public: // Operations
 
     // Add edges; the rows of vertices that have already been loaded are built again
     vertex_count = max(vertex_count, size());
+    partial_load loading{*this, size()};
     row_index_.clear();
 #ifndef NDEBUG
     size_t debug_count = 0;
@@ -857,6 +860,7 @@ public: // Operations
     // the possibility of out-of-bounds occuring when getting a value for a row.
     if (row_values_base::size() < vertex_count)
       row_values_base::resize(vertex_count);
+    loading.complete = true;
   }
 
   /**
@@ -897,6 +901,23 @@ public: // Operations
   }
 
 protected:
+  // Discards the edges of a load that doesn't complete; the vertices that existed before it remain.
+  struct partial_load {
+    compressed_graph_base& g;
+    size_type              vertex_count;
+    bool                   complete = false;
+
+    constexpr ~partial_load() {
+      if (!complete) {
+        g.row_index_.clear();
+        if (vertex_count > 0)
+          g.row_index_.resize(vertex_count + 1); // within the capacity it had
+        g.col_index_.clear();
+        static_cast<col_values_base&>(g).clear();
+      }
+    }
+  };
+
   template <class ERng, class EProj>
   constexpr vertex_id_type last_erng_id(ERng&& erng, EProj eprojection) const {
     vertex_id_type last_id = vertex_id_type();
-- 
2.43.0


From 05b1160953484b30e5367cde8987c16f8d36d18b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 31/77] fix: the last partition of a compressed_graph must end
 with its last vertex

The terminating row was counted as a vertex.
---
 include/graph/container/compressed_graph.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 2061911..ba64d69 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -951,13 +951,13 @@ protected:
       }
 
       // Additional check: all partition start ids must be valid vertex ids
-      if (!partition_.empty() && partition_.back() > static_cast<partition_id_type>(row_index_.size())) {
+      if (static_cast<size_type>(partition_.back()) > size()) {
         throw graph_error(std::format("Invalid partition start id: {} exceeds number of vertices {}", partition_.back(),
-                                      row_index_.size()));
+                                      size()));
       }
     }
 
-    partition_.push_back(static_cast<partition_id_type>(row_index_.size()));
+    partition_.push_back(static_cast<partition_id_type>(size()));
   }
 
 public: // Vertex range accessors
-- 
2.43.0


From 27b4bd2123560a8dbc0e655b2c07ef5f02569026 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 32/77] fix: vertices added by load_vertices must belong to the
 last partition of a compressed_graph

---
 include/graph/container/compressed_graph.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index ba64d69..722e3e2 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1187,7 +1187,10 @@ public: // Friend functions
 
     // Return range [partition_[pid], partition_[pid+1])
     const auto begin_vid = static_cast<std::size_t>(g.partition_[static_cast<std::size_t>(pid)]);
-    const auto end_vid   = static_cast<std::size_t>(g.partition_[static_cast<std::size_t>(pid + 1)]);
+    // The last partition extends to the last vertex, including vertices added by load_vertices(vrng,vproj)
+    const auto end_vid = static_cast<std::size_t>(pid) + 1 == num_parts
+                               ? static_cast<std::size_t>(g.size())
+                               : static_cast<std::size_t>(g.partition_[static_cast<std::size_t>(pid) + 1]);
 
     return vertex_descriptor_view<vertex_iter_type>(begin_vid, end_vid);
   }
-- 
2.43.0


From c0ec1a743fcd726db0cb8f026deb5bc6fbff9e32 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 33/77] fix: a compressed_graph must accept partition start ids
 in any range convertible to its vertex ids

Only std::vector<VId> compiled.
---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 722e3e2..722f979 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -538,7 +538,7 @@ public: // Properties - resolve ambiguity from multiple inheritance
         , col_values_base(alloc)
         , row_index_(alloc)
         , col_index_(alloc)
-        , partition_(partition_start_ids, alloc) {
+        , partition_(std::ranges::begin(partition_start_ids), std::ranges::end(partition_start_ids), alloc) {
     load_edges(erng, eprojection);
     terminate_partitions();
   }
@@ -579,7 +579,7 @@ public: // Properties - resolve ambiguity from multiple inheritance
         , col_values_base(alloc)
         , row_index_(alloc)
         , col_index_(alloc)
-        , partition_(partition_start_ids, alloc) {
+        , partition_(std::ranges::begin(partition_start_ids), std::ranges::end(partition_start_ids), alloc) {
 
     load(erng, vrng, eprojection, vprojection);
     terminate_partitions();
-- 
2.43.0


From bde3c65b7afe9ce4a046c6a96a758e48852c5255 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 34/77] fix: undirected_adjacency_list must compile with void
 edge and vertex values, its defaults

Functions taking a value by reference formed references to void.
---
 .../detail/undirected_adjacency_list_impl.hpp | 14 ++++-----
 .../container/undirected_adjacency_list.hpp   | 31 +++++++++++++------
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index bf4bc3f..865205a 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -502,7 +502,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&            g,
                                                        vertex_id_type         uid,
                                                        vertex_id_type         vid,
-                                                       const edge_value_type& val) noexcept
+                                                       const ual_value_arg<EV>& val) noexcept
       : base_value_type(val), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -516,7 +516,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&       g,
                                                        vertex_id_type    uid,
                                                        vertex_id_type    vid,
-                                                       edge_value_type&& val) noexcept
+                                                       ual_value_arg<EV>&& val) noexcept
       : base_value_type(move(val)), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -543,7 +543,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&            g,
                                                        vertex_iterator        ui,
                                                        vertex_iterator        vi,
-                                                       const edge_value_type& val) noexcept
+                                                       const ual_value_arg<EV>& val) noexcept
       : base_value_type(val)
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
@@ -559,7 +559,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&       g,
                                                        vertex_iterator   ui,
                                                        vertex_iterator   vi,
-                                                       edge_value_type&& val) noexcept
+                                                       ual_value_arg<EV>&& val) noexcept
       : base_value_type(move(val))
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
@@ -781,7 +781,7 @@ template <typename EV,
           typename Alloc>
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::ual_vertex([[maybe_unused]] vertex_set&  vertices,
                                                            [[maybe_unused]] vertex_index index,
-                                                           const vertex_value_type&      val)
+                                                           const ual_value_arg<VV>&      val)
       : base_value_type(val) {}
 template <typename EV,
           typename VV,
@@ -791,7 +791,7 @@ template <typename EV,
           typename Alloc>
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::ual_vertex([[maybe_unused]] vertex_set&  vertices,
                                                            [[maybe_unused]] vertex_index index,
-                                                           vertex_value_type&&           val) noexcept
+                                                           ual_value_arg<VV>&&           val) noexcept
       : base_value_type(move(val)) {}
 
 
@@ -1508,7 +1508,7 @@ template <typename EV,
           template <typename V, typename A> class VContainer,
           typename Alloc>
 void base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::resize_vertices(vertex_size_type         n,
-                                                                                         const vertex_value_type& val) {
+                                                                                         const ual_value_arg<VV>& val) {
   this->vertices_.resize(n, val);
 }
 
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index f56a240..89ff6d8 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -213,6 +213,11 @@ template <typename EV,
           typename ListT>
 class ual_vertex_edge_list_link;
 
+/// Stands in for a void value type in the function signatures that take a value (there is no reference to void).
+struct ual_no_value {};
+template <typename T>
+using ual_value_arg = std::conditional_t<std::is_void_v<T>, ual_no_value, T>;
+
 ///-------------------------------------------------------------------------------------
 /// ual_edge_value
 ///
@@ -664,12 +669,12 @@ protected:
   ual_edge& operator=(ual_edge&&) noexcept = default;
 
   ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid) noexcept;
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, const edge_value_type&) noexcept;
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, edge_value_type&&) noexcept;
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, const ual_value_arg<EV>&) noexcept;
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, ual_value_arg<EV>&&) noexcept;
 
   ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi) noexcept;
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, const edge_value_type&) noexcept;
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, edge_value_type&&) noexcept;
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, const ual_value_arg<EV>&) noexcept;
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, ual_value_arg<EV>&&) noexcept;
 
   void link_front(vertex_type&, vertex_type&) noexcept;
   void link_back(vertex_type&, vertex_type&) noexcept;
@@ -1077,7 +1082,9 @@ public: // Vertex Creation
   /// @param val Value to move into the vertex.
   /// @return Iterator to the newly created vertex.
   /// @complexity O(1) amortized
-  vertex_iterator create_vertex(vertex_value_type&& val) {
+  vertex_iterator create_vertex(ual_value_arg<VV>&& val)
+  requires(!std::is_void_v<VV>)
+  {
     this->vertices_.push_back(
           vertex_type(this->vertices_, static_cast<vertex_id_type>(this->vertices_.size()), std::move(val)));
     return this->vertices_.begin() + static_cast<vertex_difference_type>(this->vertices_.size() - 1);
@@ -1114,7 +1121,9 @@ public: // Edge Creation
   /// @param val Edge value to move.
   /// @return Iterator to the newly created edge.
   /// @complexity O(1).
-  vertex_edge_iterator create_edge(vertex_id_type uid, vertex_id_type vid, edge_value_type&& val) {
+  vertex_edge_iterator create_edge(vertex_id_type uid, vertex_id_type vid, ual_value_arg<EV>&& val)
+  requires(!std::is_void_v<EV>)
+  {
     vertex_iterator ui = this->vertices_.begin() + uid;
     vertex_iterator vi = this->vertices_.begin() + vid;
     return create_edge(ui, vi, std::move(val));
@@ -1154,7 +1163,9 @@ public: // Edge Creation
   /// @param val Edge value to move.
   /// @return Iterator to the newly created edge.
   /// @complexity O(1).
-  vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v, edge_value_type&& val) {
+  vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v, ual_value_arg<EV>&& val)
+  requires(!std::is_void_v<EV>)
+  {
     vertex_id_type uid = static_cast<vertex_id_type>(u - this->vertices_.begin());
     edge_type*     uv  = this->edge_alloc_.allocate(1);
     new (uv) edge_type(static_cast<graph_type&>(*this), u, v, std::move(val));
@@ -1209,7 +1220,7 @@ protected: // Utilities
   /// @brief Resize the vertex container with default value.
   /// @param n New size.
   /// @param val Default value for new vertices.
-  void resize_vertices(vertex_size_type n, const vertex_value_type& val);
+  void resize_vertices(vertex_size_type n, const ual_value_arg<VV>& val);
 };
 
 ///-------------------------------------------------------------------------------------
@@ -1393,8 +1404,8 @@ public:
   ual_vertex& operator=(ual_vertex&&) noexcept = default;
 
   ual_vertex(vertex_set& vertices, vertex_index index);
-  ual_vertex(vertex_set& vertices, vertex_index index, const vertex_value_type&);
-  ual_vertex(vertex_set& vertices, vertex_index index, vertex_value_type&&) noexcept;
+  ual_vertex(vertex_set& vertices, vertex_index index, const ual_value_arg<VV>&);
+  ual_vertex(vertex_set& vertices, vertex_index index, ual_value_arg<VV>&&) noexcept;
 
 public:
 #  if 0
-- 
2.43.0


From 853db1f3a0344278508f6224c4caf03898643ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 35/77] fix: undirected_adjacency_list must accept any range of
 vertices and edges

The range constructor needed empty() and size() members and elements that are lvalues, where an
input_range and a forward_range were asked for; vertices without a value were not counted one by one.
---
 .../detail/undirected_adjacency_list_impl.hpp | 36 +++++++++----------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 865205a..7fe62cc 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1136,36 +1136,34 @@ requires ranges::forward_range<ERng> && ranges::input_range<VRng> &&
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const ERng& erng, const VRng& vrng, const EProj& eproj, const VProj& vproj, const allocator_type& alloc)
       : vertices_(alloc), edge_alloc_(alloc) {
-  // Handle empty case - no vertices or edges to create
-  if (vrng.empty() && ranges::empty(erng)) {
-    return;
-  }
-
-  // Evaluate max vertex id needed
-  vertex_id_type max_vtx_id = vrng.empty() ? vertex_id_type(0) : static_cast<vertex_id_type>(vrng.size() - 1);
-  for (auto& e : erng) {
-    auto&& edge_data = eproj(e); // copyable_edge_t<VId, EV>
-    max_vtx_id       = max(max_vtx_id, max(edge_data.source_id, edge_data.target_id));
-  }
-
   // add vertices
-  vertices_.reserve(max_vtx_id + 1);
-  if constexpr (!std::is_void_v<VV>) {
-    for (auto& vtx : vrng) {
+  if constexpr (ranges::sized_range<const VRng> && requires { vertices_.reserve(ranges::size(vrng)); }) {
+    vertices_.reserve(ranges::size(vrng));
+  }
+  for (auto&& vtx : vrng) {
+    if constexpr (std::is_void_v<VV>) {
+      vertices_.push_back(vertex_type(vertices_, static_cast<vertex_id_type>(vertices_.size())));
+    } else {
       auto&& vtx_info = vproj(vtx); // copyable_vertex_t<VId, VV>
       vertices_.push_back(vertex_type(vertices_, static_cast<vertex_id_type>(vertices_.size()), vtx_info.value));
     }
   }
-  vertices_.resize(max_vtx_id + 1); // assure expected vertices exist
+
+  // assure expected vertices exist
+  size_t vertex_count = vertices_.size();
+  for (auto&& e : erng) {
+    auto&& edge_data = eproj(e); // copyable_edge_t<VId, EV>
+    vertex_count     = max(vertex_count, static_cast<size_t>(max(edge_data.source_id, edge_data.target_id)) + 1);
+  }
+  vertices_.resize(vertex_count);
 
   // Downcast to graph_type to access create_edge
   auto& g = static_cast<graph_type&>(*this);
 
   // add edges
   if (!ranges::empty(erng)) {
-    auto&&         first_edge_data = eproj(*ranges::begin(erng)); // first edge
-    vertex_id_type tid             = first_edge_data.source_id;   // last in-vertex id
-    for (auto& edge_data : erng) {
+    vertex_id_type tid = eproj(*ranges::begin(erng)).source_id; // last in-vertex id
+    for (auto&& edge_data : erng) {
       auto&& ed = eproj(edge_data); // copyable_edge_t<VId, EV>
       if (ed.source_id < tid)
         g.throw_unordered_edges();
-- 
2.43.0


From 605f18b956bce3692f67d26ae5f13201ee098508 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 36/77] fix: undirected_adjacency_list without a graph value
 must define its range constructors

The specialization declared them only, so using one failed to link.
---
 include/graph/container/undirected_adjacency_list.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 89ff6d8..b7224d4 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -1995,11 +1995,14 @@ public:
                             const VRng&  vrng,
                             const EProj& eproj = {},
                             const VProj& vproj = {},
-                            const Alloc& alloc = Alloc());
+                            const Alloc& alloc = Alloc())
+        : base_type(erng, vrng, eproj, vproj, alloc) {}
 
   template <typename ERng, typename EProj = std::identity>
   requires ranges::forward_range<ERng> && std::regular_invocable<EProj, ranges::range_reference_t<ERng>>
-  undirected_adjacency_list(const ERng& erng, const EProj& eproj = {}, const Alloc& alloc = Alloc());
+  undirected_adjacency_list(const ERng& erng, const EProj& eproj = {}, const Alloc& alloc = Alloc())
+        : base_type(
+                erng, vector<int>(), eproj, [](auto) { return copyable_vertex_t<VId, VV>{VId()}; }, alloc) {}
 
   /// Constructor for easy creation of a graph that takes an initializer
   /// list with edge values.
-- 
2.43.0


From 794a4ccd733b4eb2840a3eb245ca4371d8c845e0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 37/77] fix: a self-loop of an undirected_adjacency_list must
 be linked once into its vertex's edge list

Linking it twice corrupted the list: the degree disagreed with the listing, edges could not be reached
backwards, and erasing a self-loop could lose other edges or use them after they were freed.
---
 .../container/detail/undirected_adjacency_list_impl.hpp  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 7fe62cc..53ad9a9 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -588,7 +588,8 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::link_front(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.link_front(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.link_front(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) // a self-loop is in one list only
+    v.edges_.link_front(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
 }
 template <typename EV,
           typename VV,
@@ -598,7 +599,8 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::link_back(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.link_back(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.link_back(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) // a self-loop is in one list only
+    v.edges_.link_back(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
 }
 
 template <typename EV,
@@ -609,7 +611,8 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::unlink(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.unlink(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.unlink(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) // a self-loop is in one list only
+    v.edges_.unlink(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
 }
 
 template <typename EV,
-- 
2.43.0


From f4c441f8acfb49194993f973fea3015dcdb1080c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 38/77] fix: edges() of undirected_adjacency_list must compile
 and give the length of the range it returns

---
 .../container/undirected_adjacency_list.hpp   | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index b7224d4..563bedd 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -1062,11 +1062,23 @@ private: // CPO support via ADL (friend functions)
 public:
   /// @brief Get range of all edges.
   /// @note Each undirected edge appears twice in iteration (once from each endpoint).
-  /// @complexity O(1) to create range, O(V+E) to iterate.
-  edge_range       edges() { return {edge_iterator(*this, begin()), edge_iterator(*this, end()), this->edges_size_}; }
+  /// @complexity O(V) to create range, O(V+E) to iterate.
+  edge_range edges() {
+    auto& g = static_cast<graph_type&>(*this);
+    return {edge_iterator(g, begin()), edge_iterator(g, end()), incidence_count()};
+  }
   const_edge_range edges() const {
-    return {const_edge_iterator(*this, const_cast<base_undirected_adjacency_list&>(*this).begin()),
-            const_edge_iterator(*this, const_cast<base_undirected_adjacency_list&>(*this).end()), this->edges_size_};
+    auto& g = static_cast<const graph_type&>(*this);
+    return {const_edge_iterator(g, begin()), const_edge_iterator(g, end()), incidence_count()};
+  }
+
+private:
+  // The length of edges(): an edge is visited at each of its vertices, a self-loop once.
+  edge_size_type incidence_count() const noexcept {
+    edge_size_type n = 0;
+    for (const vertex_type& u : vertices_)
+      n += u.num_edges();
+    return n;
   }
 
 public: // Vertex Creation
-- 
2.43.0


From 548d017d24c9e9fbbe4f49be81ad2654c52ee0dd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 39/77] fix: erase_edge(edge_iterator) of
 undirected_adjacency_list must unlink the edge it erases

The edge was destroyed while both vertices still listed it.
---
 .../detail/undirected_adjacency_list_impl.hpp        | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 53ad9a9..b185428 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1436,11 +1436,15 @@ template <typename EV,
           typename Alloc>
 typename base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::edge_iterator
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::erase_edge(edge_iterator pos) {
+  auto&      g  = static_cast<graph_type&>(*this);
   edge_type* uv = &*pos;
-  ++pos;
-  uv->~edge_type(); // unlinks from vertices
-  this->edge_alloc_.deallocate(uv, 1);
-  --this->edges_size_;
+  const edge_iterator last(g, end());
+  do { // the same edge may come next, seen from its other vertex
+    ++pos;
+  } while (pos != last && &*pos == uv);
+
+  vertex_id_type uid = uv->list_owner_id();
+  vertices_[uid].erase_edge(g, vertex_edge_iterator(g, uid, uv));
   return pos;
 }
 
-- 
2.43.0


From 894401b3e0cd04182c07fdac98a4e8191df1b10d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 40/77] fix: resize_vertices of undirected_adjacency_list must
 erase the edges of the vertices it removes

They stayed linked to the remaining vertices. The overload with a value did not compile.
---
 .../container/detail/undirected_adjacency_list_impl.hpp    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index b185428..048b458 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1503,6 +1503,8 @@ template <typename EV,
           template <typename V, typename A> class VContainer,
           typename Alloc>
 void base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::resize_vertices(vertex_size_type n) {
+  for (vertex_size_type i = n; i < this->vertices_.size(); ++i)
+    this->vertices_[i].clear_edges(static_cast<graph_type&>(*this));
   this->vertices_.resize(n);
 }
 
@@ -1514,7 +1516,10 @@ template <typename EV,
           typename Alloc>
 void base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::resize_vertices(vertex_size_type         n,
                                                                                          const ual_value_arg<VV>& val) {
-  this->vertices_.resize(n, val);
+  if (n < this->vertices_.size())
+    resize_vertices(n);
+  else
+    this->vertices_.resize(n, vertex_type(this->vertices_, static_cast<vertex_id_type>(n), val));
 }
 
 
-- 
2.43.0


From 9f7c336910d3771f4fca4ac00c567d3aecdc8b3e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 41/77] fix: vertex and iterator members of
 undirected_adjacency_list must compile

edge_front, neighbors_size, neighbors of a const graph and the swap of edge iterators did not; the swap
also left the graph of each iterator behind.
---
 .../detail/undirected_adjacency_list_impl.hpp          | 10 ++++++----
 include/graph/container/undirected_adjacency_list.hpp  | 10 +++++-----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 048b458..48ca45a 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -908,7 +908,7 @@ template <typename EV,
           typename Alloc>
 typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::edge_type&
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::edge_front(graph_type& g) noexcept {
-  return edges_.front(g, *this);
+  return edges_.front();
 }
 
 template <typename EV,
@@ -919,7 +919,7 @@ template <typename EV,
           typename Alloc>
 const typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::edge_type&
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::edge_front(const graph_type& g) const noexcept {
-  return edges_.front(g, *this);
+  return edges_.front();
 }
 
 template <typename EV,
@@ -1050,7 +1050,7 @@ template <typename EV,
           typename Alloc>
 typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::neighbor_size_type
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::neighbors_size(const graph_type& g) const {
-  return size(edges(g));
+  return edges_.size();
 }
 
 template <typename EV,
@@ -1071,7 +1071,9 @@ template <typename EV,
           typename Alloc>
 typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::const_neighbor_range
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::neighbors(const graph_type& g, vertex_id_type uid) const {
-  return {const_neighbor_iterator(edges_.begin(g, uid)), const_neighbor_iterator(edges_.end(g, uid)), edges_.size()};
+  const edge_type* head = edges_.empty() ? nullptr : &edges_.front();
+  return {const_neighbor_iterator(vertex_edge_iterator(g, uid, head)),
+          const_neighbor_iterator(vertex_edge_iterator(g, uid)), edges_.size()};
 }
 
 
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 563bedd..a4a72c7 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -439,8 +439,9 @@ public:
     bool operator!=(const const_iterator& rhs) const noexcept;
 
     friend void swap(const_iterator& lhs, const_iterator& rhs) noexcept {
-      swap(lhs.vertex_id_, rhs.vertex_id_);
-      swap(lhs.edge_, rhs.edge_);
+      std::swap(lhs.vertex_id_, rhs.vertex_id_);
+      std::swap(lhs.edge_, rhs.edge_);
+      std::swap(lhs.graph_, rhs.graph_);
     }
 
     graph_type&       graph() { return *graph_; }
@@ -493,9 +494,8 @@ public:
     iterator& operator--();
     iterator  operator--(int);
 
-    friend void swap(iterator& lhs, iterator& rhs) {
-      swap(lhs.vertex_id_, rhs.vertex_id_);
-      swap(lhs.edge_, rhs.edge_);
+    friend void swap(iterator& lhs, iterator& rhs) noexcept {
+      swap(static_cast<base_t&>(lhs), static_cast<base_t&>(rhs));
     }
   }; // end iterator
 
-- 
2.43.0


From 9c0a74dc1ce75d13caeb008745b80be6c0417325 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 42/77] fix: move assignment of undirected_adjacency_list must
 release the edges it replaces

They were leaked. A moved-from graph also kept reporting the edges it no longer has.
---
 .../container/undirected_adjacency_list.hpp   | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index a4a72c7..a73c0bf 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -941,7 +941,13 @@ protected: // Constructors (protected - for derived class use only)
   base_undirected_adjacency_list(const base_undirected_adjacency_list& other);
 
   // Move constructor - moves vertices and edges (derived class handles graph_value_)
-  base_undirected_adjacency_list(base_undirected_adjacency_list&& other) noexcept = default;
+  base_undirected_adjacency_list(base_undirected_adjacency_list&& other) noexcept
+        : vertices_(std::move(other.vertices_))
+        , edges_size_(std::exchange(other.edges_size_, 0))
+        , vertex_alloc_(std::move(other.vertex_alloc_))
+        , edge_alloc_(std::move(other.edge_alloc_)) {
+    other.vertices_.clear();
+  }
 
   // Destructor
   ~base_undirected_adjacency_list();
@@ -950,7 +956,17 @@ protected: // Constructors (protected - for derived class use only)
   base_undirected_adjacency_list& operator=(const base_undirected_adjacency_list& other);
 
   // Move assignment operator
-  base_undirected_adjacency_list& operator=(base_undirected_adjacency_list&& other) noexcept = default;
+  base_undirected_adjacency_list& operator=(base_undirected_adjacency_list&& other) noexcept {
+    if (this != &other) {
+      clear(); // the edges belong to the graph, not to its vertices
+      vertices_ = std::move(other.vertices_);
+      other.vertices_.clear();
+      edges_size_   = std::exchange(other.edges_size_, 0);
+      vertex_alloc_ = std::move(other.vertex_alloc_);
+      edge_alloc_   = std::move(other.edge_alloc_);
+    }
+    return *this;
+  }
 
   // Range constructors
   template <typename ERng, typename VRng, typename EProj, typename VProj>
-- 
2.43.0


From 89e4b269ac5572825c37e922f783a4ed50902d39 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 43/77] fix: a copy of an undirected_adjacency_list must have
 all of its edges

Edges created from a higher to a lower vertex id were dropped, all of them were when there were as many
vertices as the id type can tell apart, the edges of a vertex changed their order, and a graph with
vertices in a deque could not be copied.
---
 .../detail/undirected_adjacency_list_impl.hpp | 51 +++++++++++++------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 48ca45a..a14320f 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1094,7 +1094,7 @@ base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirec
   edge_alloc_ = other.edge_alloc_;
 
   // Reserve space and copy vertices (with empty edge lists)
-  vertices_.reserve(other.vertices_.size());
+  reserve_vertices(other.vertices_.size());
 
   for (const auto& v : other.vertices_) {
     if constexpr (std::is_void_v<VV>) {
@@ -1108,20 +1108,37 @@ base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirec
   // Downcast to graph_type to access methods
   auto& g = static_cast<graph_type&>(*this);
 
-  // Copy edges - iterate through each vertex and copy edges where source_id <= target_id to avoid duplicates
-  for (vertex_id_type uid = 0; uid < static_cast<vertex_id_type>(other.vertices_.size()); ++uid) {
-    const auto& src_vtx = other.vertices_[uid];
-    for (auto uv = src_vtx.edges_begin(static_cast<const graph_type&>(other), uid);
-         uv != src_vtx.edges_end(static_cast<const graph_type&>(other), uid); ++uv) {
-      vertex_id_type src_id = uv->list_owner_id();
-      vertex_id_type tgt_id = uv->list_target_id();
-      // Only copy each edge once: when uid matches source and source <= target
-      if (uid == src_id && src_id <= tgt_id) {
-        if constexpr (std::is_void_v<EV>) {
-          g.create_edge(src_id, tgt_id);
-        } else {
-          g.create_edge(src_id, tgt_id, uv->value());
-        }
+  // Copy edges. An edge is copied when it is the next one at each of its vertices, which is a possible order of
+  // creation, so that the copy lists the edges of each vertex in the same order.
+  const auto&                        h = static_cast<const graph_type&>(other);
+  vector<const_vertex_edge_iterator> next; // next edge to copy, by vertex
+  vector<vertex_id_type>             path; // vertices whose next edge has to be copied, the last one first
+  next.reserve(other.vertices_.size());
+  for (vertex_size_type i = 0; i < other.vertices_.size(); ++i) {
+    next.push_back(other.vertices_[i].edges_begin(h, static_cast<vertex_id_type>(i)));
+  }
+  for (vertex_size_type i = 0; i < other.vertices_.size(); ++i) {
+    path.push_back(static_cast<vertex_id_type>(i));
+    while (!path.empty()) {
+      const vertex_id_type uid = path.back();
+      if (next[uid] == other.vertices_[uid].edges_end(h, uid)) {
+        path.pop_back();
+        continue;
+      }
+      const edge_type&     uv  = *next[uid];
+      const vertex_id_type vid = uv.other_vertex_id(h, uid);
+      if (&*next[vid] != &uv) {
+        path.push_back(vid);
+        continue;
+      }
+      if constexpr (std::is_void_v<EV>) {
+        g.create_edge(uv.list_owner_id(), uv.list_target_id());
+      } else {
+        g.create_edge(uv.list_owner_id(), uv.list_target_id(), uv.value());
+      }
+      ++next[uid];
+      if (vid != uid) {
+        ++next[vid];
       }
     }
   }
@@ -1495,7 +1512,9 @@ template <typename EV,
           template <typename V, typename A> class VContainer,
           typename Alloc>
 void base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::reserve_vertices(vertex_size_type n) {
-  this->vertices_.reserve(n);
+  if constexpr (requires { this->vertices_.reserve(n); }) { // e.g. not a deque
+    this->vertices_.reserve(n);
+  }
 }
 
 template <typename EV,
-- 
2.43.0


From 2f7e230de308ac9d4b3265a480dae0d1dd085ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 44/77] fix: an undirected_adjacency_list must not leak or
 terminate when an edge value or an allocation throws

The edge constructors were noexcept although they copy a value, and a constructor of the graph that threw
leaked the edges added so far.
---
 .../detail/undirected_adjacency_list_impl.hpp | 24 ++++++------
 .../container/undirected_adjacency_list.hpp   | 37 ++++++++++---------
 2 files changed, 31 insertions(+), 30 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index a14320f..c425720 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -488,7 +488,7 @@ template <typename EV,
           integral VId,
           template <typename V, typename A> class VContainer,
           typename Alloc>
-ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_id_type uid, vertex_id_type vid) noexcept
+ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_id_type uid, vertex_id_type vid)
       : base_value_type(), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -502,7 +502,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&            g,
                                                        vertex_id_type         uid,
                                                        vertex_id_type         vid,
-                                                       const ual_value_arg<EV>& val) noexcept
+                                                       const ual_value_arg<EV>& val)
       : base_value_type(val), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -516,7 +516,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&       g,
                                                        vertex_id_type    uid,
                                                        vertex_id_type    vid,
-                                                       ual_value_arg<EV>&& val) noexcept
+                                                       ual_value_arg<EV>&& val)
       : base_value_type(move(val)), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -527,7 +527,7 @@ template <typename EV,
           integral VId,
           template <typename V, typename A> class VContainer,
           typename Alloc>
-ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_iterator ui, vertex_iterator vi) noexcept
+ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_iterator ui, vertex_iterator vi)
       : base_value_type()
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
@@ -543,7 +543,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&            g,
                                                        vertex_iterator        ui,
                                                        vertex_iterator        vi,
-                                                       const ual_value_arg<EV>& val) noexcept
+                                                       const ual_value_arg<EV>& val)
       : base_value_type(val)
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
@@ -559,7 +559,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&       g,
                                                        vertex_iterator   ui,
                                                        vertex_iterator   vi,
-                                                       ual_value_arg<EV>&& val) noexcept
+                                                       ual_value_arg<EV>&& val)
       : base_value_type(move(val))
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
@@ -1089,10 +1089,8 @@ template <typename EV,
           template <typename V, typename A> class VContainer,
           typename Alloc>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
-      const base_undirected_adjacency_list& other) {
-  // Copy base class members
-  edge_alloc_ = other.edge_alloc_;
-
+      const base_undirected_adjacency_list& other)
+      : base_undirected_adjacency_list(allocator_type(other.edge_alloc_)) { // the destructor runs if copying throws
   // Reserve space and copy vertices (with empty edge lists)
   reserve_vertices(other.vertices_.size());
 
@@ -1157,7 +1155,7 @@ requires ranges::forward_range<ERng> && ranges::input_range<VRng> &&
                std::regular_invocable<VProj, ranges::range_reference_t<VRng>>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const ERng& erng, const VRng& vrng, const EProj& eproj, const VProj& vproj, const allocator_type& alloc)
-      : vertices_(alloc), edge_alloc_(alloc) {
+      : base_undirected_adjacency_list(alloc) { // the destructor runs if adding edges throws
   // add vertices
   if constexpr (ranges::sized_range<const VRng> && requires { vertices_.reserve(ranges::size(vrng)); }) {
     vertices_.reserve(ranges::size(vrng));
@@ -1210,7 +1208,7 @@ template <typename EV,
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist,
       const allocator_type&                                                           alloc)
-      : vertices_(alloc), edge_alloc_(alloc) {
+      : base_undirected_adjacency_list(alloc) { // the destructor runs if adding edges throws
   // Evaluate max vertex id needed
   vertex_id_type max_vtx_id = vertex_id_type();
   for (auto& edge_data : ilist) {
@@ -1238,7 +1236,7 @@ template <typename EV,
           typename Alloc>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const initializer_list<tuple<vertex_id_type, vertex_id_type>>& ilist, const allocator_type& alloc)
-      : vertices_(alloc), edge_alloc_(alloc) {
+      : base_undirected_adjacency_list(alloc) { // the destructor runs if adding edges throws
   // Evaluate max vertex id needed
   vertex_id_type max_vtx_id = vertex_id_type();
   for (auto& edge_data : ilist) {
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index a73c0bf..a5481ab 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -668,13 +668,13 @@ protected:
   ual_edge& operator=(ual_edge&) noexcept  = default;
   ual_edge& operator=(ual_edge&&) noexcept = default;
 
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid) noexcept;
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, const ual_value_arg<EV>&) noexcept;
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, ual_value_arg<EV>&&) noexcept;
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid);
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, const ual_value_arg<EV>&);
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, ual_value_arg<EV>&&);
 
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi) noexcept;
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, const ual_value_arg<EV>&) noexcept;
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, ual_value_arg<EV>&&) noexcept;
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi);
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, const ual_value_arg<EV>&);
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, ual_value_arg<EV>&&);
 
   void link_front(vertex_type&, vertex_type&) noexcept;
   void link_back(vertex_type&, vertex_type&) noexcept;
@@ -1178,11 +1178,7 @@ public: // Edge Creation
   /// @return Iterator to the newly created edge.
   /// @complexity O(1).
   vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v) {
-    vertex_id_type uid = static_cast<vertex_id_type>(u - this->vertices_.begin());
-    edge_type*     uv  = this->edge_alloc_.allocate(1);
-    new (uv) edge_type(static_cast<graph_type&>(*this), u, v);
-    ++this->edges_size_;
-    return vertex_edge_iterator(static_cast<graph_type&>(*this), uid, uv);
+    return emplace_edge(u, v);
   }
 
   /// @brief Create an edge with value between two vertices (by iterator, move value).
@@ -1194,11 +1190,7 @@ public: // Edge Creation
   vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v, ual_value_arg<EV>&& val)
   requires(!std::is_void_v<EV>)
   {
-    vertex_id_type uid = static_cast<vertex_id_type>(u - this->vertices_.begin());
-    edge_type*     uv  = this->edge_alloc_.allocate(1);
-    new (uv) edge_type(static_cast<graph_type&>(*this), u, v, std::move(val));
-    ++this->edges_size_;
-    return vertex_edge_iterator(static_cast<graph_type&>(*this), uid, uv);
+    return emplace_edge(u, v, std::move(val));
   }
 
   /// @brief Create an edge with value between two vertices (by iterator, copy value).
@@ -1211,9 +1203,20 @@ public: // Edge Creation
   template <class EV2>
   requires std::constructible_from<EV, const EV2&>
   vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v, const EV2& val) {
+    return emplace_edge(u, v, val);
+  }
+
+private:
+  template <class... Args>
+  vertex_edge_iterator emplace_edge(vertex_iterator u, vertex_iterator v, Args&&... args) {
     vertex_id_type uid = static_cast<vertex_id_type>(u - this->vertices_.begin());
     edge_type*     uv  = this->edge_alloc_.allocate(1);
-    new (uv) edge_type(static_cast<graph_type&>(*this), u, v, val);
+    try {
+      new (uv) edge_type(static_cast<graph_type&>(*this), u, v, std::forward<Args>(args)...);
+    } catch (...) { // the value could not be constructed
+      this->edge_alloc_.deallocate(uv, 1);
+      throw;
+    }
     ++this->edges_size_;
     return vertex_edge_iterator(static_cast<graph_type&>(*this), uid, uv);
   }
-- 
2.43.0


From 90700ee54baefd235904c6c5031ffd7d3ecd31cf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 45/77] fix: unordered edges given to an
 undirected_adjacency_list must throw, not abort, as documented

---
 .../graph/container/detail/undirected_adjacency_list_impl.hpp    | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index c425720..18f0bfe 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1301,7 +1301,6 @@ template <typename EV,
           template <typename V, typename A> class VContainer,
           typename Alloc>
 void base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::throw_unordered_edges() const {
-  assert(false); // container must be sorted by edge_id.first
   throw std::invalid_argument("edges not ordered");
 }
 
-- 
2.43.0


From 7b6ddbd0d98577d55d7536633a34e9e7c8a9084b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 46/77] fix: an undirected_adjacency_list without edge values
 must be constructible from an initializer_list

---
 .../container/detail/undirected_adjacency_list_impl.hpp     | 6 +++---
 include/graph/container/undirected_adjacency_list.hpp       | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 18f0bfe..5a5cfd2 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1206,7 +1206,7 @@ template <typename EV,
           template <typename V, typename A> class VContainer,
           typename Alloc>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
-      const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist,
+      const initializer_list<tuple<vertex_id_type, vertex_id_type, ual_value_arg<EV>>>& ilist,
       const allocator_type&                                                           alloc)
       : base_undirected_adjacency_list(alloc) { // the destructor runs if adding edges throws
   // Evaluate max vertex id needed
@@ -1692,7 +1692,7 @@ template <typename EV,
           template <typename V, typename A> class VContainer,
           typename Alloc>
 undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::undirected_adjacency_list(
-      const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist, const Alloc& alloc)
+      const initializer_list<tuple<vertex_id_type, vertex_id_type, ual_value_arg<EV>>>& ilist, const Alloc& alloc)
       : base_type(ilist, alloc) {}
 
 template <typename EV,
@@ -2036,7 +2036,7 @@ undirected_adjacency_list<EV, VV, void, VId, VContainer, Alloc>::undirected_adja
 // Initializer list constructors
 template <typename EV, typename VV, integral VId, template <typename V, typename A> class VContainer, typename Alloc>
 undirected_adjacency_list<EV, VV, void, VId, VContainer, Alloc>::undirected_adjacency_list(
-      const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist, const Alloc& alloc)
+      const initializer_list<tuple<vertex_id_type, vertex_id_type, ual_value_arg<EV>>>& ilist, const Alloc& alloc)
       : base_type(ilist, alloc) {}
 
 template <typename EV, typename VV, integral VId, template <typename V, typename A> class VContainer, typename Alloc>
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index a5481ab..82e53fb 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -977,7 +977,7 @@ protected: // Constructors (protected - for derived class use only)
         const ERng& erng, const VRng& vrng, const EProj& eproj, const VProj& vproj, const allocator_type& alloc);
 
   // Initializer list constructors
-  base_undirected_adjacency_list(const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist,
+  base_undirected_adjacency_list(const initializer_list<tuple<vertex_id_type, vertex_id_type, ual_value_arg<EV>>>& ilist,
                                  const allocator_type&                                                           alloc);
 
   base_undirected_adjacency_list(const initializer_list<tuple<vertex_id_type, vertex_id_type>>& ilist,
@@ -1857,7 +1857,7 @@ public:
   // clang-format off
   undirected_adjacency_list(
     const initializer_list<
-          tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist,
+          tuple<vertex_id_type, vertex_id_type, ual_value_arg<EV>>>& ilist,
     const Alloc&                                                     alloc = Alloc());
   // clang-format on
 
@@ -2045,7 +2045,7 @@ public:
   ///              target_vertex_id and the edge value.
   /// @param alloc Allocator.
   ///
-  undirected_adjacency_list(const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist,
+  undirected_adjacency_list(const initializer_list<tuple<vertex_id_type, vertex_id_type, ual_value_arg<EV>>>& ilist,
                             const Alloc& alloc = Alloc());
 
   /// Constructor for easy creation of a graph that takes an initializer
-- 
2.43.0


From 94ec0163480b6a19efc24ec11f13c83572ac2663 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 47/77] fix: an undirected_adjacency_list with a graph value
 but no vertex values must be constructible from edges

---
 .../graph/container/detail/undirected_adjacency_list_impl.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 5a5cfd2..514e832 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1607,7 +1607,7 @@ undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::undirected_adjace
                                                                               const GV_&   gv, 
                                                                               const Alloc& alloc)
       : undirected_adjacency_list(erng, vector<int>(), eproj, [](auto) 
-{ return copyable_vertex_t<VId, VV>{.id = VId(), .value = VV{}}; }, gv, alloc)
+{ return copyable_vertex_t<VId, VV>{VId()}; }, gv, alloc)
 // clang-format on
 {}
 
-- 
2.43.0


From 2a3cd253caf7a80a8dc66f1197c2b4f3b44f2e12 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 48/77] fix: an undirected_adjacency_list made from an empty
 initializer_list must be empty

---
 .../container/detail/undirected_adjacency_list_impl.hpp     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 514e832..8f84619 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1209,6 +1209,9 @@ base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirec
       const initializer_list<tuple<vertex_id_type, vertex_id_type, ual_value_arg<EV>>>& ilist,
       const allocator_type&                                                           alloc)
       : base_undirected_adjacency_list(alloc) { // the destructor runs if adding edges throws
+  if (ilist.size() == 0)
+    return; // no vertices are referenced
+
   // Evaluate max vertex id needed
   vertex_id_type max_vtx_id = vertex_id_type();
   for (auto& edge_data : ilist) {
@@ -1237,6 +1240,9 @@ template <typename EV,
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const initializer_list<tuple<vertex_id_type, vertex_id_type>>& ilist, const allocator_type& alloc)
       : base_undirected_adjacency_list(alloc) { // the destructor runs if adding edges throws
+  if (ilist.size() == 0)
+    return; // no vertices are referenced
+
   // Evaluate max vertex id needed
   vertex_id_type max_vtx_id = vertex_id_type();
   for (auto& edge_data : ilist) {
-- 
2.43.0


From 5f6a10be9f64c151ab482631b84ded9ab0f8876a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 49/77] fix: a std::unordered_map of rows must be usable as a
 graph, as documented

---
 include/graph/adj_list/descriptor.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/graph/adj_list/descriptor.hpp b/include/graph/adj_list/descriptor.hpp
index 2d1bac6..1703f59 100644
--- a/include/graph/adj_list/descriptor.hpp
+++ b/include/graph/adj_list/descriptor.hpp
@@ -111,13 +111,14 @@ concept random_access_vertex_pattern = std::random_access_iterator<Iter>;
 /**
  * @brief Concept for pair-value vertex pattern (map-like)
  * 
- * Used with bidirectional iterators where the value_type is pair-like.
+ * Used with forward iterators where the value_type is pair-like.
  * inner_value returns the .second part (the data, excluding the key).
  * Pattern: *iterator -> pair{key, data}, inner_value returns data&
- * Example: std::map<int, VertexData> where inner_value returns VertexData& (.second)
+ * Example: std::map<int, VertexData> or std::unordered_map<int, VertexData>, where inner_value returns
+ * VertexData& (.second)
  */
 template <typename Iter>
-concept pair_value_vertex_pattern = std::bidirectional_iterator<Iter> && !std::random_access_iterator<Iter> &&
+concept pair_value_vertex_pattern = std::forward_iterator<Iter> && !std::random_access_iterator<Iter> &&
                                     pair_like_value<typename std::iterator_traits<Iter>::value_type>;
 
 /**
-- 
2.43.0


From 241f043b010de8e1d191b7b282425943e92c35f2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 50/77] fix: edges(g, uid) must work where edges(g, u) comes
 from a vertex member

---
 include/graph/adj_list/detail/graph_cpo.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 72dfc24..6e3b6db 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -658,7 +658,8 @@ namespace _cpo_impls {
           requires(G& g, const VId& uid) {
             { find_vertex(g, uid) } -> std::input_iterator;
             requires vertex_descriptor_type<decltype(*find_vertex(g, uid))>;
-          } && (_has_adl_u<G, decltype(*find_vertex(std::declval<G&>(), std::declval<const VId&>()))> ||
+          } && (_has_vertex_member_u<G, decltype(*find_vertex(std::declval<G&>(), std::declval<const VId&>()))> ||
+                _has_adl_u<G, decltype(*find_vertex(std::declval<G&>(), std::declval<const VId&>()))> ||
                 _has_edge_value_pattern<G, decltype(*find_vertex(std::declval<G&>(), std::declval<const VId&>()))>);
 
     template <typename G, typename VId>
-- 
2.43.0


From 838cedbec8d32d5e8ae965781e58a682a9cb4906 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 51/77] fix: contains_edge(g, uid, vid) must not narrow the id
 it looks for to the type that stores the targets

---
 include/graph/adj_list/detail/graph_cpo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 6e3b6db..fc555ab 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -2809,7 +2809,7 @@ namespace _cpo_impls {
           auto u          = *find_vertex(std::forward<G>(g), uid);
           auto edge_range = edges(std::forward<G>(g), u);
           auto it         = std::ranges::find_if(edge_range, [&](const auto& e) {
-            return target_id(std::forward<G>(g), e) == static_cast<decltype(target_id(std::forward<G>(g), e))>(vid);
+            return static_cast<vertex_id_t<_G>>(target_id(std::forward<G>(g), e)) == static_cast<vertex_id_t<_G>>(vid);
           });
           return it != std::ranges::end(edge_range);
         }
-- 
2.43.0


From 5a641999253d2812df9cae6c216a5b61c917525e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:11:45 +0000
Subject: [PATCH 52/77] fix: edge_list::edge_descriptor with a floating-point
 value must be orderable

---
 include/graph/edge_list/edge_list_descriptor.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/graph/edge_list/edge_list_descriptor.hpp b/include/graph/edge_list/edge_list_descriptor.hpp
index 0fe6729..7c46a2a 100644
--- a/include/graph/edge_list/edge_list_descriptor.hpp
+++ b/include/graph/edge_list/edge_list_descriptor.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <type_traits>
+#include <compare>
 #include <concepts>
 #include <functional>
 #include <utility>
@@ -71,14 +72,18 @@ public:
   }
 
   constexpr auto operator<=>(const edge_descriptor& other) const noexcept {
+    // The value may order more weakly than the ids (e.g. double)
+    using order = std::common_comparison_category_t<
+          std::compare_three_way_result_t<VId>,
+          std::compare_three_way_result_t<std::conditional_t<std::is_void_v<EV>, VId, EV>>>;
     if (auto cmp = source_id_ <=> other.source_id_; cmp != 0)
-      return cmp;
+      return order(cmp);
     if (auto cmp = target_id_ <=> other.target_id_; cmp != 0)
-      return cmp;
+      return order(cmp);
     if constexpr (!std::is_void_v<EV>) {
-      return value_.get() <=> other.value_.get();
+      return order(value_.get() <=> other.value_.get());
     } else {
-      return std::strong_ordering::equal;
+      return order(std::strong_ordering::equal);
     }
   }
 
-- 
2.43.0


From e97aabfd644bc8662518bf000c3a93b7d8566cdf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 53/77] fix: an edge list in a std::list or std::forward_list
 must work with views::edgelist

---
 include/graph/adj_list/detail/graph_cpo.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index fc555ab..8e5ab10 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -50,11 +50,14 @@ namespace _cpo_impls {
       { vertices(g) } -> std::ranges::forward_range;
     };
 
-    // Check if g is a range with iterators that follow inner value pattern
+    // Check if g is a range with iterators that follow inner value pattern, and that vertex_descriptor_view can wrap:
+    // indexed storage, or a sized range of key-value pairs. Other ranges (e.g. an edge list in a std::list) aren't graphs.
     template <typename G>
     concept _has_inner_value_pattern = std::ranges::forward_range<G> && requires {
       typename std::ranges::iterator_t<G>;
-    } && has_inner_value_pattern<std::ranges::iterator_t<G>>;
+    } && has_inner_value_pattern<std::ranges::iterator_t<G>> &&
+          (std::ranges::random_access_range<G> ||
+           (std::ranges::sized_range<G> && has_first_second<std::ranges::range_value_t<G>>));
 
     template <typename G>
     [[nodiscard]] consteval _Choice_t<_St> _Choose() noexcept {
-- 
2.43.0


From bb366fd33ef66bcc2f8f9789d512c073122e5e3a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 54/77] fix: views::edgelist must accept subranges and
 generated ranges of edge records

An edge list that is a std::ranges::subrange, or a view producing records by value, satisfies basic_sourced_edgelist, but
views::edgelist(el) did not compile: vertex_descriptor_view was deduced from a nested iterator type, key-value records
produced by value were taken for a vertex map, and the view bound a produced record to an lvalue reference.
---
 include/graph/adj_list/detail/graph_cpo.hpp       | 5 +++--
 include/graph/adj_list/vertex_descriptor_view.hpp | 4 ++--
 include/graph/views/edgelist.hpp                  | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 8e5ab10..44cc329 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -51,13 +51,14 @@ namespace _cpo_impls {
     };
 
     // Check if g is a range with iterators that follow inner value pattern, and that vertex_descriptor_view can wrap:
-    // indexed storage, or a sized range of key-value pairs. Other ranges (e.g. an edge list in a std::list) aren't graphs.
+    // indexed storage, or a sized range of stored key-value pairs. Other ranges (e.g. an edge list in a std::list) aren't.
     template <typename G>
     concept _has_inner_value_pattern = std::ranges::forward_range<G> && requires {
       typename std::ranges::iterator_t<G>;
     } && has_inner_value_pattern<std::ranges::iterator_t<G>> &&
           (std::ranges::random_access_range<G> ||
-           (std::ranges::sized_range<G> && has_first_second<std::ranges::range_value_t<G>>));
+           (std::ranges::sized_range<G> && has_first_second<std::ranges::range_value_t<G>> &&
+            std::is_lvalue_reference_v<std::ranges::range_reference_t<G>>));
 
     template <typename G>
     [[nodiscard]] consteval _Choice_t<_St> _Choose() noexcept {
diff --git a/include/graph/adj_list/vertex_descriptor_view.hpp b/include/graph/adj_list/vertex_descriptor_view.hpp
index 695ba19..c055845 100644
--- a/include/graph/adj_list/vertex_descriptor_view.hpp
+++ b/include/graph/adj_list/vertex_descriptor_view.hpp
@@ -148,10 +148,10 @@ private:
 
 // Deduction guides
 template <typename Container>
-vertex_descriptor_view(Container&) -> vertex_descriptor_view<typename Container::iterator>;
+vertex_descriptor_view(Container&) -> vertex_descriptor_view<std::ranges::iterator_t<Container>>;
 
 template <typename Container>
-vertex_descriptor_view(const Container&) -> vertex_descriptor_view<typename Container::const_iterator>;
+vertex_descriptor_view(const Container&) -> vertex_descriptor_view<std::ranges::iterator_t<const Container>>;
 
 } // namespace graph::adj_list
 
diff --git a/include/graph/views/edgelist.hpp b/include/graph/views/edgelist.hpp
index 4951051..cb6e32a 100644
--- a/include/graph/views/edgelist.hpp
+++ b/include/graph/views/edgelist.hpp
@@ -857,7 +857,7 @@ public:
     constexpr iterator(EL* el, base_iterator it) noexcept : el_(el), current_(it) {}
 
     [[nodiscard]] constexpr value_type operator*() const {
-      auto& edge = *current_;
+      auto&& edge = *current_;
       return value_type{graph::source_id(*el_, edge), graph::target_id(*el_, edge), edge};
     }
 
@@ -942,7 +942,7 @@ public:
     constexpr iterator(EL* el, base_iterator it, EVF* evf) noexcept : el_(el), current_(it), evf_(evf) {}
 
     [[nodiscard]] constexpr value_type operator*() const {
-      auto& edge = *current_;
+      auto&& edge = *current_;
       return value_type{graph::source_id(*el_, edge), graph::target_id(*el_, edge), edge,
                         std::invoke(*evf_, *el_, edge)};
     }
-- 
2.43.0


From d83ee836960fba136ee7176a90aa8571c22c3197 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 55/77] fix: dijkstra must reject negative weights whatever the
 distance type and however the weight is returned

A signed weight was compared with a zero of the distance type, so with an unsigned distance type -1 was taken for a large
positive weight; and a weight function returning a reference skipped the check, because is_signed_v of a reference is false.
---
 include/graph/algorithm/dijkstra_shortest_paths.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/algorithm/dijkstra_shortest_paths.hpp b/include/graph/algorithm/dijkstra_shortest_paths.hpp
index 4613ce6..dd133a1 100644
--- a/include/graph/algorithm/dijkstra_shortest_paths.hpp
+++ b/include/graph/algorithm/dijkstra_shortest_paths.hpp
@@ -151,7 +151,7 @@ constexpr void dijkstra_shortest_paths(
   static_assert(std::is_same_v<id_type, vertex_id_t<G>>,
                 "vertex_id_store_t<G> should equal vertex_id_t<G> for index_adjacency_list");
   using distance_type = range_value_t<Distances>;
-  using weight_type   = invoke_result_t<WF, const std::remove_reference_t<G>&, edge_t<G>>;
+  using weight_type   = remove_cvref_t<invoke_result_t<WF, const std::remove_reference_t<G>&, edge_t<G>>>;
 
   // relaxing the target is the function of reducing the distance from the source to the target
   auto relax_target = [&g, &predecessor, &distances, &compare, &combine] //
@@ -237,7 +237,7 @@ constexpr void dijkstra_shortest_paths(
 
       // Negative weights are not allowed for Dijkstra's algorithm
       if constexpr (is_signed_v<weight_type>) {
-        if (w < zero) {
+        if (w < weight_type{0}) {
           throw std::out_of_range(
                 std::format("dijkstra_shortest_paths: invalid negative edge weight of '{}' encountered", w));
         }
-- 
2.43.0


From c7dfd9b3f494fd25ee32ef2cb0091a58f2ea5622 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 56/77] fix: dynamic_graph::operator[] of an associative graph
 must not truncate the index to another vertex's id

---
 include/graph/container/dynamic_graph.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 54b19de..55fced3 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1505,8 +1505,21 @@ public: // Properties
   // Returns reference to vertex at index/key i
   // Throws std::out_of_range if vertex doesn't exist
   // Note: For maps, at() returns mapped_type& (vertex), not pair
-  constexpr vertex_type&       operator[](size_type i) { return vertices_.at(i); }
-  constexpr const vertex_type& operator[](size_type i) const { return vertices_.at(i); }
+  constexpr vertex_type&       operator[](size_type i) { return vertices_.at(vertex_key(i)); }
+  constexpr const vertex_type& operator[](size_type i) const { return vertices_.at(vertex_key(i)); }
+
+private:
+  // An index the vertex id type can't represent is no vertex's key; it mustn't be truncated to another vertex's id
+  static constexpr auto vertex_key(size_type i) {
+    if constexpr (is_associative_container<vertices_type> && std::is_integral_v<VId>) {
+      const VId key = static_cast<VId>(i);
+      if (static_cast<size_type>(key) != i)
+        throw std::out_of_range("vertex id is out of the range of the vertex id type");
+      return key;
+    } else {
+      return i;
+    }
+  }
 
 public: // Operations
   void reserve_vertices(size_type count) {
-- 
2.43.0


From 419c296d71be04014f4bbca1fd2d3d589353eb69 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 57/77] fix: dynamic_graph copy assignment must leave the graph
 intact when it throws

---
 include/graph/container/dynamic_graph.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 55fced3..bd3e7b3 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -939,7 +939,12 @@ public: // Construction/Destruction/Assignment
         , partition_(std::move(other.partition_))
         , edge_count_(std::exchange(other.edge_count_, size_t{0})) {}
 
-  constexpr dynamic_graph_base& operator=(const dynamic_graph_base&) = default;
+  // The copy is completed before anything is replaced, so the graph is left as it was if copying throws.
+  constexpr dynamic_graph_base& operator=(const dynamic_graph_base& other) {
+    if (this != &other)
+      *this = dynamic_graph_base(other);
+    return *this;
+  }
   constexpr dynamic_graph_base&
   operator=(dynamic_graph_base&& other) noexcept(std::is_nothrow_move_assignable_v<vertices_type>) {
     if (this != &other) {
-- 
2.43.0


From 294f6e181d5c30af57514baa0f9867dce9888559 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 58/77] fix: dynamic_graph::clear() is noexcept and must not
 allocate

---
 include/graph/container/dynamic_graph.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index bd3e7b3..73549be 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1545,9 +1545,7 @@ public: // Operations
 
   void clear() noexcept {
     vertices_.clear();
-    partition_.clear();
-    if constexpr (!is_associative_container<vertices_type>)
-      partition_.push_back(0);
+    partition_.clear(); // as in a default-constructed graph
     edge_count_ = 0;
   }
 
-- 
2.43.0


From f9d43d4f675918c8c142e40564f7fb4d0c4743c0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 59/77] fix: loading an edge that runs out of memory must not
 leave half of it in a bidirectional dynamic_graph

---
 include/graph/container/container_utility.hpp |  15 +--
 include/graph/container/dynamic_graph.hpp     | 100 ++++++++++--------
 2 files changed, 62 insertions(+), 53 deletions(-)

diff --git a/include/graph/container/container_utility.hpp b/include/graph/container/container_utility.hpp
index dfcbf6c..31667a7 100644
--- a/include/graph/container/container_utility.hpp
+++ b/include/graph/container/container_utility.hpp
@@ -112,24 +112,25 @@ constexpr auto push_or_insert(C& container) {
 // Helper to insert edges into map-based or sequential edge containers
 // For map-based containers (std::map<VId, edge_type>), wraps edge in a pair
 // For sequential containers (vector, set, etc.), inserts edge directly
+// Returns what the container's insertion function returns
 template <class EdgeContainer, class Edge>
-constexpr void emplace_edge(EdgeContainer& edges, const typename Edge::vertex_id_type& target_id, Edge&& edge) {
+constexpr decltype(auto) emplace_edge(EdgeContainer& edges, const typename Edge::vertex_id_type& target_id, Edge&& edge) {
   if constexpr (is_map_based_edge_container<EdgeContainer>) {
     // Map-based: key is target_id, value is edge
-    edges.emplace(target_id, std::forward<Edge>(edge));
+    return edges.emplace(target_id, std::forward<Edge>(edge));
   } else {
     // Sequential/set-based: insert edge directly
     if constexpr (has_emplace<EdgeContainer>) {
-      edges.emplace(std::forward<Edge>(edge));
+      return edges.emplace(std::forward<Edge>(edge));
     } else if constexpr (has_insert<EdgeContainer>) {
-      edges.insert(std::forward<Edge>(edge));
+      return edges.insert(std::forward<Edge>(edge));
     } else if constexpr (has_emplace_back<EdgeContainer>) {
-      edges.emplace_back(std::forward<Edge>(edge));
+      return edges.emplace_back(std::forward<Edge>(edge));
     } else if constexpr (has_push_back<EdgeContainer>) {
-      edges.push_back(std::forward<Edge>(edge));
+      return edges.push_back(std::forward<Edge>(edge));
     } else if constexpr (has_emplace_front<EdgeContainer>) {
       // For forward_list and similar containers that only support front insertion
-      edges.emplace_front(std::forward<Edge>(edge));
+      return edges.emplace_front(std::forward<Edge>(edge));
     }
   }
 }
diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 73549be..5aa25bc 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1329,22 +1329,9 @@ public: // Load operations
 
         // operator[] on map will auto-insert default vertex if not present
         // We need to ensure both source and target vertices exist
-        (void)vertices_[e.target_id]; // ensure target vertex exists
-        auto& vertex_edges = vertices_[e.source_id].edges();
-        if constexpr (is_void_v<EV>) {
-          if constexpr (Bidirectional) {
-            auto& rev = vertices_[e.target_id].in_edges();
-            emplace_edge(rev, e.source_id, in_edge_type(e.source_id));
-          }
-          emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id));
-        } else {
-          if constexpr (Bidirectional) {
-            auto& rev = vertices_[e.target_id].in_edges();
-            emplace_edge(rev, e.source_id, in_edge_type(e.source_id, e.value)); // copy
-          }
-          emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));
-        }
-        edge_count_ += 1;
+        vertex_type& v = vertices_[e.target_id];
+        vertex_type& u = vertices_[e.source_id];
+        insert_edge(u, v, e);
       }
     } else {
       // Sequential container path (vector/deque): original logic
@@ -1417,21 +1404,7 @@ public: // Load operations
               throw std::runtime_error("source id exceeds the number of vertices in load_edges");
             if (static_cast<size_t>(e.target_id) >= vertices_.size())
               throw std::runtime_error("target id exceeds the number of vertices in load_edges");
-            auto& vertex_edges = vertices_[static_cast<size_t>(e.source_id)].edges();
-            if constexpr (is_void_v<EV>) {
-              if constexpr (Bidirectional) {
-                auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();
-                emplace_edge(rev, e.source_id, in_edge_type(e.source_id));
-              }
-              emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id));
-            } else {
-              if constexpr (Bidirectional) {
-                auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();
-                emplace_edge(rev, e.source_id, in_edge_type(e.source_id, e.value)); // copy
-              }
-              emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));
-            }
-            edge_count_ += 1;
+            insert_edge(vertices_[static_cast<size_t>(e.source_id)], vertices_[static_cast<size_t>(e.target_id)], e);
           }
           return; // done
         }
@@ -1447,21 +1420,7 @@ public: // Load operations
           throw std::runtime_error("source id exceeds the number of vertices in load_edges");
         if (static_cast<size_t>(e.target_id) >= vertices_.size())
           throw std::runtime_error("target id exceeds the number of vertices in load_edges");
-        auto& vertex_edges = vertices_[static_cast<size_t>(e.source_id)].edges();
-        if constexpr (is_void_v<EV>) {
-          if constexpr (Bidirectional) {
-            auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();
-            emplace_edge(rev, e.source_id, in_edge_type(e.source_id));
-          }
-          emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id));
-        } else {
-          if constexpr (Bidirectional) {
-            auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();
-            emplace_edge(rev, e.source_id, in_edge_type(e.source_id, e.value)); // copy
-          }
-          emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));
-        }
-        edge_count_ += 1;
+        insert_edge(vertices_[static_cast<size_t>(e.source_id)], vertices_[static_cast<size_t>(e.target_id)], e);
       }
     }
   }
@@ -1469,6 +1428,55 @@ public: // Load operations
   // ---------------------------------------------------------------------------
   // (Removed deprecated legacy parameter order bridge overload)
 
+private: // Load helpers
+  // Adds edge e to the outgoing edges of its source u and, in a bidirectional graph, to the incoming edges of its
+  // target v. When the outgoing edge can't be added the incoming one is taken back, so the two always mirror each other.
+  template <class E>
+  void insert_edge(vertex_type& u, vertex_type& v, E& e) {
+    auto insert_out_edge = [&] {
+      if constexpr (is_void_v<EV>)
+        emplace_edge(u.edges(), e.target_id, edge_type(e.target_id));
+      else
+        emplace_edge(u.edges(), e.target_id, edge_type(e.target_id, std::move(e.value)));
+    };
+
+    if constexpr (Bidirectional) {
+      auto& rev            = v.in_edges();
+      auto  insert_in_edge = [&]() -> decltype(auto) {
+        if constexpr (is_void_v<EV>)
+          return emplace_edge(rev, e.source_id, in_edge_type(e.source_id));
+        else
+          return emplace_edge(rev, e.source_id, in_edge_type(e.source_id, e.value)); // copy
+      };
+
+      if constexpr (requires { typename in_edges_type::key_type; }) {
+        auto [pos, inserted] = insert_in_edge(); // a duplicate is not inserted
+        try {
+          insert_out_edge();
+        } catch (...) {
+          if (inserted)
+            rev.erase(pos);
+          throw;
+        }
+      } else {
+        insert_in_edge();
+        try {
+          insert_out_edge();
+        } catch (...) {
+          if constexpr (requires { rev.pop_back(); })
+            rev.pop_back();
+          else
+            rev.pop_front();
+          throw;
+        }
+      }
+    } else {
+      insert_out_edge();
+    }
+    edge_count_ += 1;
+  }
+
+public:
   constexpr void terminate_partitions() {
     // Partitions are only meaningful for sequential containers with numeric IDs
     // For associative containers (map/unordered_map), partition functionality is not supported
-- 
2.43.0


From 6d19bc8fbb630a1d6e7d805b5f3ae863892a3a28 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 60/77] fix: comparing and hashing edges of a dynamic_graph
 copies ids and is not noexcept when that may throw

---
 include/graph/container/dynamic_graph.hpp | 30 ++++++++++++++---------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 5aa25bc..82e994d 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -223,7 +223,9 @@ private:
 
 private:
   // target_id(g,uv) - ADL customization point for CPO
-  friend constexpr vertex_id_type target_id(const graph_type& g, const edge_type& uv) noexcept { return uv.target_id_; }
+  friend constexpr vertex_id_type target_id(const graph_type& g, const edge_type& uv) noexcept(std::is_nothrow_copy_constructible_v<VId>) {
+    return uv.target_id_;
+  }
 
   // target(g,uv) - returns the target vertex
   // friend constexpr vertex_type& target(graph_type& g, edge_type& uv) noexcept {
@@ -420,10 +422,11 @@ public:
 
   // Comparison operators for ordered/unordered set containers
   // Compare by target_id only — edge value is intentionally excluded
-  constexpr auto operator<=>(const dynamic_out_edge& rhs) const noexcept {
+  // (comparing copies the ids, which may throw for ids like std::string)
+  constexpr auto operator<=>(const dynamic_out_edge& rhs) const noexcept(std::is_nothrow_copy_constructible_v<VId>) {
     return base_target_type::target_id() <=> rhs.base_target_type::target_id();
   }
-  constexpr bool operator==(const dynamic_out_edge& rhs) const noexcept {
+  constexpr bool operator==(const dynamic_out_edge& rhs) const noexcept(std::is_nothrow_copy_constructible_v<VId>) {
     return base_target_type::target_id() == rhs.base_target_type::target_id();
   }
 };
@@ -470,10 +473,11 @@ public:
 
   // Comparison operators for ordered/unordered set containers
   // Compare by target_id only
-  constexpr auto operator<=>(const dynamic_out_edge& rhs) const noexcept {
+  // (comparing copies the ids, which may throw for ids like std::string)
+  constexpr auto operator<=>(const dynamic_out_edge& rhs) const noexcept(std::is_nothrow_copy_constructible_v<VId>) {
     return base_target_type::target_id() <=> rhs.base_target_type::target_id();
   }
-  constexpr bool operator==(const dynamic_out_edge& rhs) const noexcept {
+  constexpr bool operator==(const dynamic_out_edge& rhs) const noexcept(std::is_nothrow_copy_constructible_v<VId>) {
     return base_target_type::target_id() == rhs.base_target_type::target_id();
   }
 };
@@ -526,10 +530,11 @@ public:
   constexpr dynamic_in_edge& operator=(dynamic_in_edge&&)      = default;
 
   // Compare by source_id (edge value intentionally excluded, consistent with dynamic_out_edge)
-  constexpr auto operator<=>(const dynamic_in_edge& rhs) const noexcept {
+  // (comparing copies the ids, which may throw for ids like std::string)
+  constexpr auto operator<=>(const dynamic_in_edge& rhs) const noexcept(std::is_nothrow_copy_constructible_v<VId>) {
     return base_source_type::source_id() <=> rhs.base_source_type::source_id();
   }
-  constexpr bool operator==(const dynamic_in_edge& rhs) const noexcept {
+  constexpr bool operator==(const dynamic_in_edge& rhs) const noexcept(std::is_nothrow_copy_constructible_v<VId>) {
     return base_source_type::source_id() == rhs.base_source_type::source_id();
   }
 };
@@ -566,10 +571,11 @@ public:
   constexpr dynamic_in_edge& operator=(const dynamic_in_edge&) = default;
   constexpr dynamic_in_edge& operator=(dynamic_in_edge&&)      = default;
 
-  constexpr auto operator<=>(const dynamic_in_edge& rhs) const noexcept {
+  // (comparing copies the ids, which may throw for ids like std::string)
+  constexpr auto operator<=>(const dynamic_in_edge& rhs) const noexcept(std::is_nothrow_copy_constructible_v<VId>) {
     return base_source_type::source_id() <=> rhs.base_source_type::source_id();
   }
-  constexpr bool operator==(const dynamic_in_edge& rhs) const noexcept {
+  constexpr bool operator==(const dynamic_in_edge& rhs) const noexcept(std::is_nothrow_copy_constructible_v<VId>) {
     return base_source_type::source_id() == rhs.base_source_type::source_id();
   }
 };
@@ -2157,7 +2163,8 @@ namespace std {
 template <class EV, class VV, class GV, class VId, bool Bidirectional, class Traits>
 struct hash<graph::container::dynamic_out_edge<EV, VV, GV, VId, Bidirectional, Traits>> {
   [[nodiscard]] size_t
-  operator()(const graph::container::dynamic_out_edge<EV, VV, GV, VId, Bidirectional, Traits>& edge) const noexcept {
+  operator()(const graph::container::dynamic_out_edge<EV, VV, GV, VId, Bidirectional, Traits>& edge) const
+        noexcept(std::is_nothrow_copy_constructible_v<VId>) {
     return std::hash<VId>{}(edge.target_id());
   }
 };
@@ -2170,7 +2177,8 @@ struct hash<graph::container::dynamic_out_edge<EV, VV, GV, VId, Bidirectional, T
 template <class EV, class VV, class GV, class VId, bool Bidirectional, class Traits>
 struct hash<graph::container::dynamic_in_edge<EV, VV, GV, VId, Bidirectional, Traits>> {
   [[nodiscard]] size_t
-  operator()(const graph::container::dynamic_in_edge<EV, VV, GV, VId, Bidirectional, Traits>& edge) const noexcept {
+  operator()(const graph::container::dynamic_in_edge<EV, VV, GV, VId, Bidirectional, Traits>& edge) const
+        noexcept(std::is_nothrow_copy_constructible_v<VId>) {
     return std::hash<VId>{}(edge.source_id());
   }
 };
-- 
2.43.0


From fc030481a6556b9a777dfcfb63400031d1da0bea Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 61/77] fix: looking up a vertex by its id must not copy the id
 (terminates when the copy throws)

---
 include/graph/adj_list/detail/graph_cpo.hpp | 105 +++++++++++---------
 1 file changed, 58 insertions(+), 47 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 44cc329..065fbe5 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -413,6 +413,17 @@ using raw_vertex_id_t = decltype(vertex_id(std::declval<G&>(), std::declval<vert
 
 namespace _cpo_impls {
 
+  // Convert an id to the graph's id type T. An id that already has that type is passed through by
+  // reference: copying it may allocate (e.g. std::string), which the noexcept CPOs below must not do.
+  template <typename T, typename Id>
+  [[nodiscard]] constexpr decltype(auto) _id_cast(const Id& id) {
+    if constexpr (std::is_same_v<T, Id>) {
+      return (id);
+    } else {
+      return static_cast<T>(id);
+    }
+  }
+
   // =========================================================================
   // find_vertex(g, uid) CPO
   // =========================================================================
@@ -535,13 +546,13 @@ namespace _cpo_impls {
         using _VId = std::remove_cvref_t<VId>;
         if constexpr (_Choice<_G, _VId>._Strategy == _St::_member) {
           if constexpr (requires { typename _G::vertex_id_type; }) {
-            return std::forward<G>(g).find_vertex(static_cast<typename _G::vertex_id_type>(uid));
+            return std::forward<G>(g).find_vertex(_id_cast<typename _G::vertex_id_type>(uid));
           } else {
             return std::forward<G>(g).find_vertex(uid);
           }
         } else if constexpr (_Choice<_G, _VId>._Strategy == _St::_adl) {
           if constexpr (requires { typename _G::vertex_id_type; }) {
-            return find_vertex(std::forward<G>(g), static_cast<typename _G::vertex_id_type>(uid));
+            return find_vertex(std::forward<G>(g), _id_cast<typename _G::vertex_id_type>(uid));
           } else {
             return find_vertex(std::forward<G>(g), uid);
           }
@@ -550,7 +561,7 @@ namespace _cpo_impls {
           // Construct vertex_descriptor_view iterator directly from map iterator
           auto map_iter = [&g, &uid]() {
             if constexpr (requires { typename _G::vertex_id_type; }) {
-              return g.find(static_cast<typename _G::vertex_id_type>(uid));
+              return g.find(_id_cast<typename _G::vertex_id_type>(uid));
             } else {
               return g.find(uid);
             }
@@ -783,16 +794,16 @@ namespace _cpo_impls {
           // ADL: edges(g, uid)
           auto result = [&g, &uid]() {
             if constexpr (requires { typename _G::vertex_id_type; }) {
-              return edges(g, static_cast<typename _G::vertex_id_type>(uid));
+              return edges(g, _id_cast<typename _G::vertex_id_type>(uid));
             } else {
-              return edges(g, static_cast<vertex_id_t<_G>>(uid));
+              return edges(g, _id_cast<vertex_id_t<_G>>(uid));
             }
           }();
-          auto v = *find_vertex(g, static_cast<vertex_id_t<_G>>(uid));
+          auto v = *find_vertex(g, _id_cast<vertex_id_t<_G>>(uid));
           return _wrap_if_needed(std::move(result), v);
         } else if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_default) {
           // Default: find vertex then call edges(g, u)
-          auto v = *find_vertex(std::forward<G>(g), static_cast<vertex_id_t<_G>>(uid));
+          auto v = *find_vertex(std::forward<G>(g), _id_cast<vertex_id_t<_G>>(uid));
           return (*this)(std::forward<G>(g), v);
         }
       }
@@ -998,15 +1009,15 @@ namespace _cpo_impls {
         if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_adl) {
           auto result = [&g, &uid]() {
             if constexpr (requires { typename _G::vertex_id_type; }) {
-              return in_edges(g, static_cast<typename _G::vertex_id_type>(uid));
+              return in_edges(g, _id_cast<typename _G::vertex_id_type>(uid));
             } else {
-              return in_edges(g, static_cast<vertex_id_t<_G>>(uid));
+              return in_edges(g, _id_cast<vertex_id_t<_G>>(uid));
             }
           }();
-          auto v = *find_vertex(g, static_cast<vertex_id_t<_G>>(uid));
+          auto v = *find_vertex(g, _id_cast<vertex_id_t<_G>>(uid));
           return _wrap_in_edge(std::move(result), v);
         } else if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_default) {
-          auto v = *find_vertex(std::forward<G>(g), static_cast<vertex_id_t<_G>>(uid));
+          auto v = *find_vertex(std::forward<G>(g), _id_cast<vertex_id_t<_G>>(uid));
           return (*this)(std::forward<G>(g), v);
         }
       }
@@ -1168,18 +1179,18 @@ namespace _cpo_impls {
 
         if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_member) {
           if constexpr (requires { typename _G::vertex_id_type; }) {
-            return g.in_degree(static_cast<typename _G::vertex_id_type>(uid));
+            return g.in_degree(_id_cast<typename _G::vertex_id_type>(uid));
           } else {
             return g.in_degree(uid);
           }
         } else if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_adl) {
           if constexpr (requires { typename _G::vertex_id_type; }) {
-            return in_degree(g, static_cast<typename _G::vertex_id_type>(uid));
+            return in_degree(g, _id_cast<typename _G::vertex_id_type>(uid));
           } else {
             return in_degree(g, uid);
           }
         } else if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_default) {
-          auto v = *find_vertex(std::forward<G>(g), static_cast<vertex_id_t<_G>>(uid));
+          auto v = *find_vertex(std::forward<G>(g), _id_cast<vertex_id_t<_G>>(uid));
           return (*this)(std::forward<G>(g), v);
         }
       }
@@ -1943,19 +1954,19 @@ namespace _cpo_impls {
 
         if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_member) {
           if constexpr (requires { typename _G::vertex_id_type; }) {
-            return g.degree(static_cast<typename _G::vertex_id_type>(uid));
+            return g.degree(_id_cast<typename _G::vertex_id_type>(uid));
           } else {
             return g.degree(uid);
           }
         } else if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_adl) {
           if constexpr (requires { typename _G::vertex_id_type; }) {
-            return degree(g, static_cast<typename _G::vertex_id_type>(uid));
+            return degree(g, _id_cast<typename _G::vertex_id_type>(uid));
           } else {
             return degree(g, uid);
           }
         } else if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_default) {
           // Default: find vertex then call degree(g, u)
-          auto v = *find_vertex(std::forward<G>(g), static_cast<vertex_id_t<_G>>(uid));
+          auto v = *find_vertex(std::forward<G>(g), _id_cast<vertex_id_t<_G>>(uid));
           return (*this)(std::forward<G>(g), v);
         }
       }
@@ -2138,8 +2149,8 @@ namespace _cpo_impls {
           auto target_vid = vertex_id(std::forward<G>(g), v);
           auto edge_range = edges(std::forward<G>(g), u);
           auto it         = std::ranges::find_if(edge_range, [&](const auto& e) {
-            return static_cast<vertex_id_t<_G>>(target_id(std::forward<G>(g), e)) ==
-                   static_cast<vertex_id_t<_G>>(target_vid);
+            return _id_cast<vertex_id_t<_G>>(target_id(std::forward<G>(g), e)) ==
+                   _id_cast<vertex_id_t<_G>>(target_vid);
           });
           // Not found - return end as an edge descriptor
           // This mimics std::find behavior where end() is returned when not found
@@ -2167,7 +2178,7 @@ namespace _cpo_impls {
           // Default: iterate edges(g,u) and find edge with matching target_id
           auto edge_range = edges(std::forward<G>(g), u);
           auto it         = std::ranges::find_if(edge_range, [&](const auto& e) {
-            return static_cast<vertex_id_t<_G>>(target_id(std::forward<G>(g), e)) == static_cast<vertex_id_t<_G>>(vid);
+            return _id_cast<vertex_id_t<_G>>(target_id(std::forward<G>(g), e)) == _id_cast<vertex_id_t<_G>>(vid);
           });
           // Not found - return end as an edge descriptor
           return *it;
@@ -2190,15 +2201,15 @@ namespace _cpo_impls {
 
         if constexpr (_Choice_uidvid<_G, _UId, _VId>._Strategy == _St_uidvid::_member) {
           if constexpr (requires { typename _G::vertex_id_type; }) {
-            return g.find_vertex_edge(static_cast<typename _G::vertex_id_type>(uid),
-                                      static_cast<typename _G::vertex_id_type>(vid));
+            return g.find_vertex_edge(_id_cast<typename _G::vertex_id_type>(uid),
+                                      _id_cast<typename _G::vertex_id_type>(vid));
           } else {
             return g.find_vertex_edge(uid, vid);
           }
         } else if constexpr (_Choice_uidvid<_G, _UId, _VId>._Strategy == _St_uidvid::_adl) {
           if constexpr (requires { typename _G::vertex_id_type; }) {
-            return find_vertex_edge(g, static_cast<typename _G::vertex_id_type>(uid),
-                                    static_cast<typename _G::vertex_id_type>(vid));
+            return find_vertex_edge(g, _id_cast<typename _G::vertex_id_type>(uid),
+                                    _id_cast<typename _G::vertex_id_type>(vid));
           } else {
             return find_vertex_edge(g, uid, vid);
           }
@@ -2413,12 +2424,12 @@ namespace _cpo_impls {
           return find_in_edge(g, u, vid);
         } else if constexpr (_Choice_uid<_G, _U, _VId>._Strategy == _St_uid::_default) {
           // "find incoming to u from vid" = "find outgoing from vid's vertex to u"
-          auto v         = *find_vertex(std::forward<G>(g), static_cast<vertex_id_t<_G>>(vid));
+          auto v         = *find_vertex(std::forward<G>(g), _id_cast<vertex_id_t<_G>>(vid));
           auto target_uid = vertex_id(std::forward<G>(g), u);
           auto edge_range = edges(std::forward<G>(g), v);
           auto it         = std::ranges::find_if(edge_range, [&](const auto& e) {
-            return static_cast<vertex_id_t<_G>>(target_id(std::forward<G>(g), e)) ==
-                   static_cast<vertex_id_t<_G>>(target_uid);
+            return _id_cast<vertex_id_t<_G>>(target_id(std::forward<G>(g), e)) ==
+                   _id_cast<vertex_id_t<_G>>(target_uid);
           });
           return *it;
         }
@@ -2440,15 +2451,15 @@ namespace _cpo_impls {
 
         if constexpr (_Choice_uidvid<_G, _UId, _VId>._Strategy == _St_uidvid::_member) {
           if constexpr (requires { typename _G::vertex_id_type; }) {
-            return g.find_in_edge(static_cast<typename _G::vertex_id_type>(uid),
-                                  static_cast<typename _G::vertex_id_type>(vid));
+            return g.find_in_edge(_id_cast<typename _G::vertex_id_type>(uid),
+                                  _id_cast<typename _G::vertex_id_type>(vid));
           } else {
             return g.find_in_edge(uid, vid);
           }
         } else if constexpr (_Choice_uidvid<_G, _UId, _VId>._Strategy == _St_uidvid::_adl) {
           if constexpr (requires { typename _G::vertex_id_type; }) {
-            return find_in_edge(g, static_cast<typename _G::vertex_id_type>(uid),
-                                static_cast<typename _G::vertex_id_type>(vid));
+            return find_in_edge(g, _id_cast<typename _G::vertex_id_type>(uid),
+                                _id_cast<typename _G::vertex_id_type>(vid));
           } else {
             return find_in_edge(g, uid, vid);
           }
@@ -2595,8 +2606,8 @@ namespace _cpo_impls {
           auto target_uid = vertex_id(std::forward<G>(g), u);
           auto edge_range = edges(std::forward<G>(g), v);
           auto it         = std::ranges::find_if(edge_range, [&](const auto& e) {
-            return static_cast<vertex_id_t<_G>>(target_id(std::forward<G>(g), e)) ==
-                   static_cast<vertex_id_t<_G>>(target_uid);
+            return _id_cast<vertex_id_t<_G>>(target_id(std::forward<G>(g), e)) ==
+                   _id_cast<vertex_id_t<_G>>(target_uid);
           });
           return it != std::ranges::end(edge_range);
         }
@@ -2618,25 +2629,25 @@ namespace _cpo_impls {
 
         if constexpr (_Choice_uidvid<_G, _UId, _VId>._Strategy == _St_uidvid::_member) {
           if constexpr (requires { typename _G::vertex_id_type; }) {
-            return g.contains_in_edge(static_cast<typename _G::vertex_id_type>(uid),
-                                      static_cast<typename _G::vertex_id_type>(vid));
+            return g.contains_in_edge(_id_cast<typename _G::vertex_id_type>(uid),
+                                      _id_cast<typename _G::vertex_id_type>(vid));
           } else {
             return g.contains_in_edge(uid, vid);
           }
         } else if constexpr (_Choice_uidvid<_G, _UId, _VId>._Strategy == _St_uidvid::_adl) {
           if constexpr (requires { typename _G::vertex_id_type; }) {
-            return contains_in_edge(g, static_cast<typename _G::vertex_id_type>(uid),
-                                    static_cast<typename _G::vertex_id_type>(vid));
+            return contains_in_edge(g, _id_cast<typename _G::vertex_id_type>(uid),
+                                    _id_cast<typename _G::vertex_id_type>(vid));
           } else {
             return contains_in_edge(g, uid, vid);
           }
         } else if constexpr (_Choice_uidvid<_G, _UId, _VId>._Strategy == _St_uidvid::_default) {
           // "contains incoming to uid from vid" = "edge from vid to uid exists"
-          auto v          = *find_vertex(std::forward<G>(g), static_cast<vertex_id_t<_G>>(vid));
+          auto v          = *find_vertex(std::forward<G>(g), _id_cast<vertex_id_t<_G>>(vid));
           auto edge_range = edges(std::forward<G>(g), v);
           auto it         = std::ranges::find_if(edge_range, [&](const auto& e) {
-            return static_cast<vertex_id_t<_G>>(target_id(std::forward<G>(g), e)) ==
-                   static_cast<vertex_id_t<_G>>(uid);
+            return _id_cast<vertex_id_t<_G>>(target_id(std::forward<G>(g), e)) ==
+                   _id_cast<vertex_id_t<_G>>(uid);
           });
           return it != std::ranges::end(edge_range);
         }
@@ -2773,8 +2784,8 @@ namespace _cpo_impls {
           auto target_vid = vertex_id(std::forward<G>(g), v);
           auto edge_range = edges(std::forward<G>(g), u);
           auto it         = std::ranges::find_if(edge_range, [&](const auto& e) {
-            return static_cast<vertex_id_t<_G>>(target_id(std::forward<G>(g), e)) ==
-                   static_cast<vertex_id_t<_G>>(target_vid);
+            return _id_cast<vertex_id_t<_G>>(target_id(std::forward<G>(g), e)) ==
+                   _id_cast<vertex_id_t<_G>>(target_vid);
           });
           return it != std::ranges::end(edge_range);
         }
@@ -2796,15 +2807,15 @@ namespace _cpo_impls {
 
         if constexpr (_Choice_uidvid<_G, _UId, _VId>._Strategy == _St_uidvid::_member) {
           if constexpr (requires { typename _G::vertex_id_type; }) {
-            return g.contains_edge(static_cast<typename _G::vertex_id_type>(uid),
-                                   static_cast<typename _G::vertex_id_type>(vid));
+            return g.contains_edge(_id_cast<typename _G::vertex_id_type>(uid),
+                                   _id_cast<typename _G::vertex_id_type>(vid));
           } else {
             return g.contains_edge(uid, vid);
           }
         } else if constexpr (_Choice_uidvid<_G, _UId, _VId>._Strategy == _St_uidvid::_adl) {
           if constexpr (requires { typename _G::vertex_id_type; }) {
-            return contains_edge(g, static_cast<typename _G::vertex_id_type>(uid),
-                                 static_cast<typename _G::vertex_id_type>(vid));
+            return contains_edge(g, _id_cast<typename _G::vertex_id_type>(uid),
+                                 _id_cast<typename _G::vertex_id_type>(vid));
           } else {
             return contains_edge(g, uid, vid);
           }
@@ -2813,7 +2824,7 @@ namespace _cpo_impls {
           auto u          = *find_vertex(std::forward<G>(g), uid);
           auto edge_range = edges(std::forward<G>(g), u);
           auto it         = std::ranges::find_if(edge_range, [&](const auto& e) {
-            return static_cast<vertex_id_t<_G>>(target_id(std::forward<G>(g), e)) == static_cast<vertex_id_t<_G>>(vid);
+            return _id_cast<vertex_id_t<_G>>(target_id(std::forward<G>(g), e)) == _id_cast<vertex_id_t<_G>>(vid);
           });
           return it != std::ranges::end(edge_range);
         }
-- 
2.43.0


From 980a2a5a21e5da68eb2d2bf593de0b658180815a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 62/77] fix: loading a compressed_graph from a view that
 generates its edges must not read a destroyed edge

---
 include/graph/container/compressed_graph.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 722f979..79d2eee 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -925,7 +925,8 @@ protected:
       if (begin(erng) != end(erng)) {
         auto lastIt = end(erng);
         --lastIt;
-        auto&& e = eprojection(*lastIt); // copyable_edge
+        auto&& edge_data = *lastIt; // may be a temporary, which eprojection may refer to
+        auto&& e         = eprojection(edge_data); // copyable_edge
         last_id  = static_cast<vertex_id_type>(max(e.source_id, e.target_id));
       }
     }
-- 
2.43.0


From 9f1804ff00980e0005d73f5bc7dd9387031f99f4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 63/77] fix: compressed_graph copy assignment must leave the
 graph intact when it throws

---
 include/graph/container/compressed_graph.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 79d2eee..be663b7 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1542,7 +1542,12 @@ public: // Construction/Destruction
   constexpr compressed_graph(compressed_graph&&)      = default;
   constexpr ~compressed_graph()                       = default;
 
-  constexpr compressed_graph& operator=(const compressed_graph&) = default;
+  // The copy is completed before anything is replaced, so the graph is left as it was if copying throws.
+  constexpr compressed_graph& operator=(const compressed_graph& other) {
+    if (this != &other)
+      *this = compressed_graph(other);
+    return *this;
+  }
   constexpr compressed_graph& operator=(compressed_graph&&)      = default;
 
   // compressed_graph(      alloc)
@@ -1683,7 +1688,12 @@ public: // Construction/Destruction
   constexpr compressed_graph(compressed_graph&&)      = default;
   constexpr ~compressed_graph()                       = default;
 
-  constexpr compressed_graph& operator=(const compressed_graph&) = default;
+  // The copy is completed before anything is replaced, so the graph is left as it was if copying throws.
+  constexpr compressed_graph& operator=(const compressed_graph& other) {
+    if (this != &other)
+      *this = compressed_graph(other);
+    return *this;
+  }
   constexpr compressed_graph& operator=(compressed_graph&&)      = default;
 
   // edge-only construction
-- 
2.43.0


From 2cec125e9b37620bf463f854085adb992d528018 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 64/77] fix: a compressed_graph whose load runs out of memory
 must not have vertices without values

---
 include/graph/container/compressed_graph.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index be663b7..15108b6 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -645,6 +645,10 @@ public: // Operations
     // Determine required vertex count: max(provided hint, max_id + 1, existing size)
     vertex_count = max({vertex_count, id_count, size()});
 
+    // Every vertex has a value, also when growing the rows throws
+    if (row_values_base::size() < vertex_count)
+      row_values_base::resize(vertex_count);
+
     // If graph structure doesn't exist yet, create it based on vertex count
     if (row_index_.empty() && vertex_count > 0) {
       row_index_.resize(vertex_count + 1, vertex_type{0}); // All vertices have 0 edges initially
@@ -653,8 +657,6 @@ public: // Operations
       row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
     }
 
-    if (row_values_base::size() < vertex_count)
-      row_values_base::resize(vertex_count);
     row_values_base::load_row_values(vrng, vprojection, vertex_count);
   }
 
@@ -707,8 +709,8 @@ public: // Operations
     // Nothing to do?
     if (begin(erng) == end(erng)) {
       if (vertex_count > size()) {
+        row_values_base::resize(vertex_count); // first, so every vertex has a value if growing the rows throws
         row_index_.resize(vertex_count + 1, vertex_type{0});
-        row_values_base::resize(vertex_count);
       }
       return;
     }
@@ -786,8 +788,8 @@ public: // Operations
     // Nothing to do?
     if (begin(erng) == end(erng)) {
       if (vertex_count > size()) {
+        row_values_base::resize(vertex_count); // first, so every vertex has a value if growing the rows throws
         row_index_.resize(vertex_count + 1, vertex_type{0});
-        row_values_base::resize(vertex_count);
       }
       return;
     }
-- 
2.43.0


From 047598c8d7bcb647184d597d97713c7280c35c6f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 65/77] fix: compressed_graph::clear() is noexcept and must not
 allocate

---
 include/graph/container/compressed_graph.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 15108b6..0207dc5 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -509,8 +509,7 @@ public: // Properties - resolve ambiguity from multiple inheritance
     col_index_.clear();
     row_values_base::clear();
     col_values_base::clear();
-    partition_.clear();
-    terminate_partitions();
+    partition_.clear(); // a single partition
   }
 
   /**
-- 
2.43.0


From d6fcf880692dec1a5d9ea475d7009fd35deffe2d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 66/77] fix: moving an undirected_adjacency_list kept in a
 container whose move may throw must not be noexcept

---
 include/graph/container/undirected_adjacency_list.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 82e53fb..3bb74da 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -941,7 +941,8 @@ protected: // Constructors (protected - for derived class use only)
   base_undirected_adjacency_list(const base_undirected_adjacency_list& other);
 
   // Move constructor - moves vertices and edges (derived class handles graph_value_)
-  base_undirected_adjacency_list(base_undirected_adjacency_list&& other) noexcept
+  base_undirected_adjacency_list(base_undirected_adjacency_list&& other) noexcept(
+        std::is_nothrow_move_constructible_v<vertex_set>) // not all containers are, e.g. std::deque
         : vertices_(std::move(other.vertices_))
         , edges_size_(std::exchange(other.edges_size_, 0))
         , vertex_alloc_(std::move(other.vertex_alloc_))
@@ -1716,7 +1717,7 @@ public:
 
 public:
   undirected_adjacency_list()                                         = default;
-  undirected_adjacency_list(undirected_adjacency_list&& rhs) noexcept = default;
+  undirected_adjacency_list(undirected_adjacency_list&& rhs) = default;
   undirected_adjacency_list(const undirected_adjacency_list& other);
 
   // clang-format off
@@ -2013,7 +2014,7 @@ public:
   // The implementations will be shared via undirected_adjacency_list_impl.hpp
 
   undirected_adjacency_list()                                         = default;
-  undirected_adjacency_list(undirected_adjacency_list&& rhs) noexcept = default;
+  undirected_adjacency_list(undirected_adjacency_list&& rhs) = default;
   undirected_adjacency_list(const undirected_adjacency_list& other);
 
   undirected_adjacency_list(const allocator_type& alloc);
-- 
2.43.0


From 21b1b21f320751de2956c41597ee6445ad1c9e1a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 67/77] fix: hashing a vertex descriptor must not copy the id

---
 include/graph/adj_list/vertex_descriptor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/adj_list/vertex_descriptor.hpp b/include/graph/adj_list/vertex_descriptor.hpp
index b97568d..7e3b36d 100644
--- a/include/graph/adj_list/vertex_descriptor.hpp
+++ b/include/graph/adj_list/vertex_descriptor.hpp
@@ -175,8 +175,8 @@ struct hash<graph::adj_list::vertex_descriptor<VertexIter>> {
       return std::hash<std::size_t>{}(vd.value());
     } else {
       // Hash the vertex_id from the iterator's value
-      auto id       = vd.vertex_id();
-      using id_type = decltype(id);
+      const auto& id = vd.vertex_id();
+      using id_type  = decltype(id);
       return std::hash<std::remove_cvref_t<id_type>>{}(id);
     }
   }
-- 
2.43.0


From 979b36a86e099da0c68db9c859266946f98b3348 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 68/77] fix: views and edge queries that hand out ids by value
 must not be noexcept when copying the id may throw

---
 include/graph/adj_list/edge_descriptor.hpp | 12 ++++++--
 include/graph/detail/edge_cpo.hpp          | 32 ++++++++++++++++------
 include/graph/views/edgelist.hpp           |  6 ++--
 include/graph/views/incidence.hpp          | 10 ++++---
 include/graph/views/neighbors.hpp          | 10 ++++---
 include/graph/views/vertexlist.hpp         | 10 ++++---
 6 files changed, 54 insertions(+), 26 deletions(-)

diff --git a/include/graph/adj_list/edge_descriptor.hpp b/include/graph/adj_list/edge_descriptor.hpp
index cd8992d..33006e9 100644
--- a/include/graph/adj_list/edge_descriptor.hpp
+++ b/include/graph/adj_list/edge_descriptor.hpp
@@ -40,6 +40,12 @@ public:
   /// True when this descriptor wraps an out-edge (default direction).
   static constexpr bool is_out_edge = std::is_same_v<EdgeDirection, out_edge_tag>;
 
+  /// True when an id can be copied out of an edge record or a vertex without throwing.
+  static constexpr bool nothrow_ids =
+        std::is_nothrow_copy_constructible_v<typename std::iterator_traits<EdgeIter>::value_type> &&
+        (std::random_access_iterator<VertexIter> ||
+         std::is_nothrow_copy_constructible_v<typename std::iterator_traits<VertexIter>::value_type>);
+
   // Conditional storage type for edge: size_t for random access, iterator for forward
   using edge_storage_type = std::conditional_t<std::random_access_iterator<EdgeIter>, std::size_t, EdgeIter>;
 
@@ -106,7 +112,7 @@ public:
      * Only available when EdgeDirection is in_edge_tag.
      */
   template <typename VertexData>
-  [[nodiscard]] constexpr auto source_id(const VertexData& vertex_data) const noexcept
+  [[nodiscard]] constexpr auto source_id(const VertexData& vertex_data) const noexcept(nothrow_ids)
   requires(is_in_edge) {
     const auto& edge_container = [&]() -> decltype(auto) {
       if constexpr (requires { vertex_data.in_edges(); }) {
@@ -164,7 +170,7 @@ public:
      * Only available when EdgeDirection is in_edge_tag.
      */
   template <typename VertexData>
-  [[nodiscard]] constexpr auto target_id(const VertexData& /*vertex_data*/) const noexcept
+  [[nodiscard]] constexpr auto target_id(const VertexData& /*vertex_data*/) const noexcept(nothrow_ids)
   requires(is_in_edge) {
     return source_.vertex_id();
   }
@@ -179,7 +185,7 @@ public:
      * Only available when EdgeDirection is out_edge_tag.
      */
   template <typename VertexData>
-  [[nodiscard]] constexpr auto target_id(const VertexData& vertex_data) const noexcept
+  [[nodiscard]] constexpr auto target_id(const VertexData& vertex_data) const noexcept(nothrow_ids)
   requires(is_out_edge) {
     using edge_value_type = typename std::iterator_traits<EdgeIter>::value_type;
 
diff --git a/include/graph/detail/edge_cpo.hpp b/include/graph/detail/edge_cpo.hpp
index 9472d5e..9f404ef 100644
--- a/include/graph/detail/edge_cpo.hpp
+++ b/include/graph/detail/edge_cpo.hpp
@@ -28,6 +28,10 @@ namespace _cpo_impls {
 
   using detail::_cpo_impls::_Choice_t;
 
+  // Handing out an id or value by value copies it, which may throw (e.g. a std::string id)
+  template <typename T>
+  inline constexpr bool _nothrow_by_value = std::is_nothrow_constructible_v<std::remove_cvref_t<T>, T>;
+
   // =========================================================================
   // target_id(g, uv) CPO
   // =========================================================================
@@ -114,7 +118,7 @@ namespace _cpo_impls {
       } else if constexpr (_has_edge_list_descriptor<E>) {
         return {_St::_edge_list_descriptor, noexcept(std::declval<const E&>().target_id())};
       } else if constexpr (_has_edge_data_member<E>) {
-        return {_St::_edge_data_member, noexcept(std::declval<const E&>().target_id)};
+        return {_St::_edge_data_member, _nothrow_by_value<decltype((std::declval<const E&>().target_id))>};
       } else if constexpr (_is_tuple_like_edge<E>) {
         return {_St::_tuple_like, noexcept(std::get<1>(std::declval<const E&>()))};
       } else {
@@ -268,19 +272,29 @@ namespace _cpo_impls {
     template <typename G, typename E>
     [[nodiscard]] consteval _Choice_t<_St> _Choose() noexcept {
       if constexpr (_has_native_edge_member<G, E>) {
-        return {_St::_native_edge_member, noexcept((*std::declval<const E&>().value()).source_id())};
+        return {_St::_native_edge_member, noexcept((*std::declval<const E&>().value()).source_id()) &&
+                                 _nothrow_by_value<decltype((*std::declval<const E&>().value()).source_id())>};
       } else if constexpr (_has_member<G, E>) {
-        return {_St::_member, noexcept(std::declval<G>().source_id(std::declval<const E&>()))};
+        return {_St::_member, noexcept(std::declval<G>().source_id(std::declval<const E&>())) &&
+                                 _nothrow_by_value<decltype(std::declval<G>().source_id(std::declval<const E&>()))>};
       } else if constexpr (_has_adl<G, E>) {
-        return {_St::_adl, noexcept(source_id(std::declval<G>(), std::declval<const E&>()))};
+        return {_St::_adl, noexcept(source_id(std::declval<G>(), std::declval<const E&>())) &&
+                                 _nothrow_by_value<decltype(source_id(std::declval<G>(), std::declval<const E&>()))>};
       } else if constexpr (_has_adj_list_descriptor<E>) {
-        return {_St::_adj_list_descriptor, noexcept(std::declval<const E&>().source_id())};
+        // An in-edge is asked for the id its record stores, if the vertex keeps in-edges
+        return {_St::_adj_list_descriptor,
+                noexcept(std::declval<const E&>().source_id()) &&
+                      _nothrow_by_value<decltype(std::declval<const E&>().source_id())> &&
+                      (!E::is_in_edge ||
+                       std::is_nothrow_copy_constructible_v<std::iter_value_t<typename E::edge_iterator_type>>)};
       } else if constexpr (_has_edge_list_descriptor<E>) {
-        return {_St::_edge_list_descriptor, noexcept(std::declval<const E&>().source_id())};
+        return {_St::_edge_list_descriptor, noexcept(std::declval<const E&>().source_id()) &&
+                                 _nothrow_by_value<decltype(std::declval<const E&>().source_id())>};
       } else if constexpr (_has_edge_data_member<E>) {
-        return {_St::_edge_data_member, noexcept(std::declval<const E&>().source_id)};
+        return {_St::_edge_data_member, _nothrow_by_value<decltype((std::declval<const E&>().source_id))>};
       } else if constexpr (_is_tuple_like_edge<E>) {
-        return {_St::_tuple_like, noexcept(std::get<0>(std::declval<const E&>()))};
+        return {_St::_tuple_like, noexcept(std::get<0>(std::declval<const E&>())) &&
+                                 _nothrow_by_value<decltype(std::get<0>(std::declval<const E&>()))>};
       } else {
         return {_St::_none, false};
       }
@@ -458,7 +472,7 @@ namespace _cpo_impls {
       } else if constexpr (_has_edge_list_descriptor<E>) {
         return {_St::_edge_list_descriptor, noexcept(std::declval<const E&>().value())};
       } else if constexpr (_has_edge_data_member<E>) {
-        return {_St::_edge_data_member, noexcept(std::declval<const E&>().value)};
+        return {_St::_edge_data_member, _nothrow_by_value<decltype((std::declval<const E&>().value))>};
       } else if constexpr (_is_tuple_like_edge<E>) {
         return {_St::_tuple_like, noexcept(std::get<2>(std::declval<const E&>()))};
       } else {
diff --git a/include/graph/views/edgelist.hpp b/include/graph/views/edgelist.hpp
index cb6e32a..58202ef 100644
--- a/include/graph/views/edgelist.hpp
+++ b/include/graph/views/edgelist.hpp
@@ -205,7 +205,8 @@ public:
     constexpr iterator(G* g, vertex_type v, vertex_type v_end, edge_type current_edge, edge_type edge_end) noexcept
           : g_(g), v_(v), v_end_(v_end), current_edge_(current_edge), edge_end_(edge_end) {}
 
-    [[nodiscard]] constexpr value_type operator*() const noexcept {
+    [[nodiscard]] constexpr value_type operator*() const
+    noexcept(std::is_nothrow_copy_constructible_v<adj_list::vertex_id_t<G>>) {
       auto source_id = adj_list::vertex_id(*g_, v_);
       auto target_id = adj_list::target_id(*g_, current_edge_);
       return value_type{static_cast<vertex_id_type>(source_id), static_cast<vertex_id_type>(target_id), current_edge_};
@@ -535,7 +536,8 @@ public:
     constexpr iterator(G* g, vertex_type v, vertex_type v_end, edge_type current_edge, edge_type edge_end) noexcept
           : g_(g), v_(v), v_end_(v_end), current_edge_(current_edge), edge_end_(edge_end) {}
 
-    [[nodiscard]] constexpr value_type operator*() const noexcept {
+    [[nodiscard]] constexpr value_type operator*() const
+    noexcept(std::is_nothrow_copy_constructible_v<adj_list::vertex_id_t<G>>) {
       return value_type{static_cast<vertex_id_type>(adj_list::vertex_id(*g_, v_)),
                         static_cast<vertex_id_type>(adj_list::target_id(*g_, current_edge_))};
     }
diff --git a/include/graph/views/incidence.hpp b/include/graph/views/incidence.hpp
index 73ae8ab..34a480e 100644
--- a/include/graph/views/incidence.hpp
+++ b/include/graph/views/incidence.hpp
@@ -162,7 +162,7 @@ public:
   /**
    * @brief Forward iterator yielding @c edge_data{tid, uv} per edge.
    *
-   * Satisfies @c std::forward_iterator.  All operations are @c noexcept.
+   * Satisfies @c std::forward_iterator.  All operations are @c noexcept (dereferencing: when copying a vertex id is).
    */
   class iterator {
   public:
@@ -176,7 +176,8 @@ public:
 
     constexpr iterator(G* g, edge_type e) noexcept : g_(g), current_(e) {}
 
-    [[nodiscard]] constexpr value_type operator*() const noexcept {
+    [[nodiscard]] constexpr value_type operator*() const
+    noexcept(std::is_nothrow_copy_constructible_v<adj_list::vertex_id_t<G>>) {
       return info_type{static_cast<vertex_id_type>(Accessor{}.neighbor_id(*g_, current_)), current_};
     }
 
@@ -494,7 +495,7 @@ public:
   /**
    * @brief Forward iterator yielding @c edge_data{tid} per edge.
    *
-   * Satisfies @c std::forward_iterator.  All operations are @c noexcept.
+   * Satisfies @c std::forward_iterator.  All operations are @c noexcept (dereferencing: when copying a vertex id is).
    */
   class iterator {
   public:
@@ -508,7 +509,8 @@ public:
 
     constexpr iterator(G* g, edge_type e) noexcept : g_(g), current_(e) {}
 
-    [[nodiscard]] constexpr value_type operator*() const noexcept {
+    [[nodiscard]] constexpr value_type operator*() const
+    noexcept(std::is_nothrow_copy_constructible_v<adj_list::vertex_id_t<G>>) {
       return value_type{static_cast<vertex_id_type>(Accessor{}.neighbor_id(*g_, current_))};
     }
 
diff --git a/include/graph/views/neighbors.hpp b/include/graph/views/neighbors.hpp
index 1d2e104..93f09e0 100644
--- a/include/graph/views/neighbors.hpp
+++ b/include/graph/views/neighbors.hpp
@@ -168,7 +168,7 @@ public:
   /**
    * @brief Forward iterator yielding @c neighbor_data{tid, n} per neighbor.
    *
-   * Satisfies @c std::forward_iterator.  All operations are @c noexcept.
+   * Satisfies @c std::forward_iterator.  All operations are @c noexcept (dereferencing: when copying a vertex id is).
    */
   class iterator {
   public:
@@ -182,7 +182,8 @@ public:
 
     constexpr iterator(G* g, edge_type e) noexcept : g_(g), current_edge_(e) {}
 
-    [[nodiscard]] constexpr value_type operator*() const noexcept {
+    [[nodiscard]] constexpr value_type operator*() const
+    noexcept(std::is_nothrow_copy_constructible_v<adj_list::vertex_id_t<G>>) {
       auto nbr    = Accessor{}.neighbor(*g_, current_edge_);
       auto nbr_id = static_cast<vertex_id_type>(Accessor{}.neighbor_id(*g_, current_edge_));
       return value_type{nbr_id, nbr};
@@ -506,7 +507,7 @@ public:
   /**
    * @brief Forward iterator yielding @c neighbor_data{tid} per neighbor.
    *
-   * Satisfies @c std::forward_iterator.  All operations are @c noexcept.
+   * Satisfies @c std::forward_iterator.  All operations are @c noexcept (dereferencing: when copying a vertex id is).
    */
   class iterator {
   public:
@@ -520,7 +521,8 @@ public:
 
     constexpr iterator(G* g, edge_type e) noexcept : g_(g), current_edge_(e) {}
 
-    [[nodiscard]] constexpr value_type operator*() const noexcept {
+    [[nodiscard]] constexpr value_type operator*() const
+    noexcept(std::is_nothrow_copy_constructible_v<adj_list::vertex_id_t<G>>) {
       return value_type{static_cast<vertex_id_type>(Accessor{}.neighbor_id(*g_, current_edge_))};
     }
 
diff --git a/include/graph/views/vertexlist.hpp b/include/graph/views/vertexlist.hpp
index 2abb412..7da5102 100644
--- a/include/graph/views/vertexlist.hpp
+++ b/include/graph/views/vertexlist.hpp
@@ -187,7 +187,7 @@ public:
   /**
    * @brief Forward iterator yielding @c vertex_data{uid, u} per vertex.
    *
-   * Satisfies @c std::forward_iterator.  All operations are @c noexcept.
+   * Satisfies @c std::forward_iterator.  All operations are @c noexcept (dereferencing: when copying a vertex id is).
    */
   class iterator {
   public:
@@ -201,7 +201,8 @@ public:
 
     constexpr iterator(G* g, vertex_type v) noexcept : g_(g), current_(v) {}
 
-    [[nodiscard]] constexpr value_type operator*() const noexcept {
+    [[nodiscard]] constexpr value_type operator*() const
+    noexcept(std::is_nothrow_copy_constructible_v<adj_list::vertex_id_t<G>>) {
       return value_type{adj_list::vertex_id(*g_, current_), current_};
     }
 
@@ -413,7 +414,7 @@ public:
   /**
    * @brief Forward iterator yielding @c vertex_data{uid} per vertex.
    *
-   * Satisfies @c std::forward_iterator.  All operations are @c noexcept.
+   * Satisfies @c std::forward_iterator.  All operations are @c noexcept (dereferencing: when copying a vertex id is).
    */
   class iterator {
   public:
@@ -427,7 +428,8 @@ public:
 
     constexpr iterator(G* g, vertex_type v) noexcept : g_(g), current_(v) {}
 
-    [[nodiscard]] constexpr value_type operator*() const noexcept {
+    [[nodiscard]] constexpr value_type operator*() const
+    noexcept(std::is_nothrow_copy_constructible_v<adj_list::vertex_id_t<G>>) {
       return value_type{adj_list::vertex_id(*g_, current_)};
     }
 
-- 
2.43.0


From 37fb43efebc3f5e180223601342570a92899c84a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 69/77] fix: load_vertices of dynamic_graph must not move the
 values out of an lvalue range

---
 include/graph/container/dynamic_graph.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 82e994d..50bd0d9 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1223,8 +1223,11 @@ public: // Load operations
           VId    id        = projected.id;
           (void)vertices_[id]; // ensure vertex exists
         } else {
-          auto&& [id, value]    = vproj(v); //copyable_vertex_t<VId, VV>
-          vertices_[id].value() = move(value);
+          auto&& [id, value] = vproj(v); //copyable_vertex_t<VId, VV>
+          if constexpr (may_move_value<VRng, decltype(vproj(v)), decltype(value)>)
+            vertices_[id].value() = move(value);
+          else
+            vertices_[id].value() = value;
         }
       }
     } else {
@@ -1251,7 +1254,10 @@ public: // Load operations
             if (k >= vertices_.size()) [[unlikely]]
               throw std::out_of_range("vertex id in load_vertices exceeds current vertex container size");
           }
-          vertices_[k].value() = move(value);
+          if constexpr (may_move_value<VRng, decltype(vproj(v)), decltype(value)>)
+            vertices_[k].value() = move(value);
+          else
+            vertices_[k].value() = value;
         }
       }
     }
@@ -1435,6 +1441,14 @@ public: // Load operations
   // (Removed deprecated legacy parameter order bridge overload)
 
 private: // Load helpers
+  // A vertex value may be moved into the graph when it belongs to a temporary made by the projection or to an rvalue
+  // container, and must be copied when it belongs to the caller.
+  template <class VRng, class Projected, class Value>
+  static constexpr bool may_move_value =
+        !std::is_lvalue_reference_v<Value> &&
+        !(std::is_lvalue_reference_v<Projected> &&
+          (std::is_lvalue_reference_v<VRng> || std::ranges::view<std::remove_cvref_t<VRng>>));
+
   // Adds edge e to the outgoing edges of its source u and, in a bidirectional graph, to the incoming edges of its
   // target v. When the outgoing edge can't be added the incoming one is taken back, so the two always mirror each other.
   template <class E>
-- 
2.43.0


From 96099f8cbfbc27cdd55cfed6f911077f58d93ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 70/77] fix: load_vertices of dynamic_graph must honor
 vertex_count for ranges that don't know their size

---
 include/graph/container/dynamic_graph.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 50bd0d9..3668b4b 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1159,9 +1159,11 @@ public: // Load operations
       }
     } else {
       // For sequential containers, pre-size and use index-based access
-      if constexpr (sized_range<VRng> && resizable<vertices_type>) {
+      if constexpr (resizable<vertices_type>) {
         vertex_count = std::max(vertex_count, static_cast<size_t>(vertices_.size()));
-        resize_vertices(std::max(vertex_count, static_cast<size_t>(std::ranges::size(vrng))));
+        if constexpr (sized_range<VRng>)
+          vertex_count = std::max(vertex_count, static_cast<size_t>(std::ranges::size(vrng)));
+        resize_vertices(vertex_count);
       }
       for (auto&& v : vrng) {
         if constexpr (is_void_v<VV>) {
@@ -1233,9 +1235,11 @@ public: // Load operations
     } else {
       // For sequential containers, pre-size and use index-based access
       // Harmonize sizing logic with const& overload (ensure we never shrink and honor explicit vertex_count)
-      if constexpr (sized_range<VRng> && resizable<vertices_type>) {
+      if constexpr (resizable<vertices_type>) {
         vertex_count = std::max(vertex_count, static_cast<size_t>(vertices_.size()));
-        resize_vertices(std::max(vertex_count, static_cast<size_t>(std::ranges::size(vrng))));
+        if constexpr (sized_range<VRng>)
+          vertex_count = std::max(vertex_count, static_cast<size_t>(std::ranges::size(vrng)));
+        resize_vertices(vertex_count);
       }
       for (auto&& v : vrng) {
         if constexpr (is_void_v<VV>) {
-- 
2.43.0


From 2c03f16b1c7b095553635e65dfdd5dbc80c292f3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 71/77] fix: views::edgelist of an edge list must not be
 noexcept when its iterators may throw

---
 include/graph/views/edgelist.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/graph/views/edgelist.hpp b/include/graph/views/edgelist.hpp
index 58202ef..20bd930 100644
--- a/include/graph/views/edgelist.hpp
+++ b/include/graph/views/edgelist.hpp
@@ -863,12 +863,12 @@ public:
       return value_type{graph::source_id(*el_, edge), graph::target_id(*el_, edge), edge};
     }
 
-    constexpr iterator& operator++() noexcept {
+    constexpr iterator& operator++() noexcept(noexcept(++std::declval<base_iterator&>())) {
       ++current_;
       return *this;
     }
 
-    constexpr iterator operator++(int) noexcept {
+    constexpr iterator operator++(int) noexcept(noexcept(++std::declval<base_iterator&>())) {
       auto tmp = *this;
       ++current_;
       return tmp;
@@ -887,9 +887,13 @@ public:
 
   constexpr edge_list_edgelist_view(EL& el) noexcept : el_(&el) {}
 
-  [[nodiscard]] constexpr iterator begin() const noexcept { return iterator(el_, std::ranges::begin(*el_)); }
+  [[nodiscard]] constexpr iterator begin() const noexcept(noexcept(std::ranges::begin(std::declval<EL&>()))) {
+    return iterator(el_, std::ranges::begin(*el_));
+  }
 
-  [[nodiscard]] constexpr iterator end() const noexcept { return iterator(el_, std::ranges::end(*el_)); }
+  [[nodiscard]] constexpr iterator end() const noexcept(noexcept(std::ranges::end(std::declval<EL&>()))) {
+    return iterator(el_, std::ranges::end(*el_));
+  }
 
   [[nodiscard]] constexpr auto size() const noexcept
   requires std::ranges::sized_range<EL>
@@ -949,12 +953,12 @@ public:
                         std::invoke(*evf_, *el_, edge)};
     }
 
-    constexpr iterator& operator++() noexcept {
+    constexpr iterator& operator++() noexcept(noexcept(++std::declval<base_iterator&>())) {
       ++current_;
       return *this;
     }
 
-    constexpr iterator operator++(int) noexcept {
+    constexpr iterator operator++(int) noexcept(noexcept(++std::declval<base_iterator&>())) {
       auto tmp = *this;
       ++current_;
       return tmp;
@@ -975,9 +979,13 @@ public:
   constexpr edge_list_edgelist_view(EL& el, EVF evf) noexcept(std::is_nothrow_move_constructible_v<EVF>)
         : el_(&el), evf_(std::move(evf)) {}
 
-  [[nodiscard]] constexpr iterator begin() noexcept { return iterator(el_, std::ranges::begin(*el_), &evf_); }
+  [[nodiscard]] constexpr iterator begin() noexcept(noexcept(std::ranges::begin(std::declval<EL&>()))) {
+    return iterator(el_, std::ranges::begin(*el_), &evf_);
+  }
 
-  [[nodiscard]] constexpr iterator end() noexcept { return iterator(el_, std::ranges::end(*el_), &evf_); }
+  [[nodiscard]] constexpr iterator end() noexcept(noexcept(std::ranges::end(std::declval<EL&>()))) {
+    return iterator(el_, std::ranges::end(*el_), &evf_);
+  }
 
   [[nodiscard]] constexpr auto size() const noexcept
   requires std::ranges::sized_range<EL>
-- 
2.43.0


From ad28676353028075b87371f313c8d1e8b9f0dd9f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 72/77] fix: edge values of keyed graphs whose vertices hand
 out their edges by a member function

---
 include/graph/adj_list/edge_descriptor.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/graph/adj_list/edge_descriptor.hpp b/include/graph/adj_list/edge_descriptor.hpp
index 33006e9..d934938 100644
--- a/include/graph/adj_list/edge_descriptor.hpp
+++ b/include/graph/adj_list/edge_descriptor.hpp
@@ -434,7 +434,11 @@ public:
                            vertex_data.second;
                          }) {
       // Map pair case - .second is the vertex, get its edges
-      auto& edge_container = vertex_data.second;
+      auto& edge_container = [&]() -> decltype(auto) {
+        if constexpr (is_in_edge && requires { vertex_data.second.in_edges(); }) return (vertex_data.second.in_edges());
+        else if constexpr (requires { vertex_data.second.edges(); }) return (vertex_data.second.edges());
+        else return (vertex_data.second);
+      }();
       // Simple type: just the target ID, return it (no separate property)
       if constexpr (std::integral<edge_value_type>) {
         if constexpr (std::random_access_iterator<EdgeIter>) {
@@ -626,7 +630,11 @@ public:
                            vertex_data.second;
                          }) {
       // Map pair case - .second is the vertex, get its edges
-      const auto& edge_container = vertex_data.second;
+      const auto& edge_container = [&]() -> decltype(auto) {
+        if constexpr (is_in_edge && requires { vertex_data.second.in_edges(); }) return (vertex_data.second.in_edges());
+        else if constexpr (requires { vertex_data.second.edges(); }) return (vertex_data.second.edges());
+        else return (vertex_data.second);
+      }();
       // Simple type: just the target ID, return it (no separate property)
       if constexpr (std::integral<edge_value_type>) {
         if constexpr (std::random_access_iterator<EdgeIter>) {
-- 
2.43.0


From 7564f3f52654afedad511cb342598cc714bb02cb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:06:43 +0000
Subject: [PATCH 73/77] fix: articulation_points and biconnected_components
 must not rescan the edges of a vertex (documented O(V + E))

---
 .../graph/algorithm/articulation_points.hpp   | 47 ++++++++++---------
 .../algorithm/biconnected_components.hpp      | 37 ++++++++-------
 2 files changed, 44 insertions(+), 40 deletions(-)

diff --git a/include/graph/algorithm/articulation_points.hpp b/include/graph/algorithm/articulation_points.hpp
index dc9c09a..76b2d8d 100644
--- a/include/graph/algorithm/articulation_points.hpp
+++ b/include/graph/algorithm/articulation_points.hpp
@@ -144,18 +144,28 @@ void articulation_points(G&& g, Iter cut_vertices) {
 
   size_t timer = 0;
 
-  // Frame for iterative DFS: (vertex_id, edge_index, parent_edge_skipped)
-  // edge_index tracks how far we've iterated through edges(g, uid)
+  using incidence_range    = decltype(views::incidence(g, vid_t{}));
+  using incidence_iterator = std::ranges::iterator_t<incidence_range>;
+  using incidence_sentinel = std::ranges::sentinel_t<incidence_range>;
+
+  // Frame for iterative DFS: (vertex_id, remaining edges, parent_edge_skipped)
+  // it is the next edge of uid to examine; storing it keeps the traversal O(|V| + |E|).
   // parent_edge_skipped ensures only the first reverse edge to the DFS parent
   // is treated as the tree edge; subsequent parallel edges update low-link.
   struct dfs_frame {
-    vid_t  uid;
-    size_t edge_idx;
-    bool   parent_edge_skipped;
+    vid_t              uid;
+    incidence_iterator it;
+    incidence_sentinel it_end;
+    bool               parent_edge_skipped;
   };
 
   std::stack<dfs_frame> stk;
 
+  auto push_frame = [&](vid_t uid) {
+    auto edge_range = views::incidence(g, uid);
+    stk.push({uid, std::ranges::begin(edge_range), std::ranges::end(edge_range), false});
+  };
+
   // Outer loop: handle disconnected graphs
   for (auto [start] : views::basic_vertexlist(g)) {
     if (disc[start] != UNVISITED) {
@@ -163,35 +173,26 @@ void articulation_points(G&& g, Iter cut_vertices) {
     }
 
     disc[start] = low[start] = timer++;
-    stk.push({start, 0, false});
+    push_frame(start);
 
     while (!stk.empty()) {
-      auto& [uid, edge_idx, parent_skipped] = stk.top();
-
-      // Collect edges into a temporary to allow indexed access
-      // We advance through edges one at a time using edge_idx
-      auto edge_range = views::incidence(g, uid);
-      auto it         = std::ranges::begin(edge_range);
-      auto it_end     = std::ranges::end(edge_range);
-
-      // Advance iterator to edge_idx position
-      for (size_t i = 0; i < edge_idx && it != it_end; ++i, ++it) {
-      }
+      auto& [uid, it, it_end, parent_skipped] = stk.top();
 
       if (it == it_end) {
         // All edges processed — backtrack
+        const vid_t child = uid;
         stk.pop();
         if (!stk.empty()) {
-          auto& [par_uid, par_edge_idx, par_skipped] = stk.top();
+          const vid_t par_uid = stk.top().uid;
           // Update low-link of parent
-          if (low[uid] < low[par_uid]) {
-            low[par_uid] = low[uid];
+          if (low[child] < low[par_uid]) {
+            low[par_uid] = low[child];
           }
 
           // Check articulation point condition for non-root
           if (parent[par_uid] != NO_PARENT) {
             // Non-root rule: child v has low[v] >= disc[u]
-            if (low[uid] >= disc[par_uid] && !emitted[par_uid]) {
+            if (low[child] >= disc[par_uid] && !emitted[par_uid]) {
               *cut_vertices++ = par_uid;
               emitted[par_uid] = true;
             }
@@ -201,7 +202,7 @@ void articulation_points(G&& g, Iter cut_vertices) {
       }
 
       vid_t vid = target_id(g, *it);
-      ++edge_idx; // advance for next iteration
+      ++it; // advance for next iteration
 
       // Skip self-loops
       if (vid == uid) {
@@ -213,7 +214,7 @@ void articulation_points(G&& g, Iter cut_vertices) {
         parent[vid] = static_cast<size_t>(uid);
         child_count[uid]++;
         disc[vid] = low[vid] = timer++;
-        stk.push({vid, 0, false});
+        push_frame(vid);
       } else if (static_cast<size_t>(vid) == parent[uid] && !parent_skipped) {
         // First reverse edge to DFS parent — this is the tree edge; skip it
         parent_skipped = true;
diff --git a/include/graph/algorithm/biconnected_components.hpp b/include/graph/algorithm/biconnected_components.hpp
index f1d3afd..f0dcdcd 100644
--- a/include/graph/algorithm/biconnected_components.hpp
+++ b/include/graph/algorithm/biconnected_components.hpp
@@ -156,15 +156,26 @@ void biconnected_components(G&& g, OuterContainer& components) {
   using edge_pair = std::pair<vid_t, vid_t>;
   std::stack<edge_pair> edge_stk;
 
-  // Frame for iterative DFS: (vertex_id, edge_index, parent_edge_skipped)
+  using edge_range_t    = decltype(edges(g, vid_t{}));
+  using edge_iterator_t = std::ranges::iterator_t<edge_range_t>;
+  using edge_sentinel_t = std::ranges::sentinel_t<edge_range_t>;
+
+  // Frame for iterative DFS: (vertex_id, remaining edges, parent_edge_skipped)
+  // it is the next edge of uid to examine; storing it keeps the traversal O(|V| + |E|).
   struct dfs_frame {
-    vid_t  uid;
-    size_t edge_idx;
-    bool   parent_edge_skipped;
+    vid_t           uid;
+    edge_iterator_t it;
+    edge_sentinel_t it_end;
+    bool            parent_edge_skipped;
   };
 
   std::stack<dfs_frame> stk;
 
+  auto push_frame = [&](vid_t uid) {
+    auto edge_range = edges(g, uid);
+    stk.push({uid, std::ranges::begin(edge_range), std::ranges::end(edge_range), false});
+  };
+
   // Helper: pop edges from edge_stk until (u, v) is popped (inclusive).
   // Collect unique vertex IDs and push_back as a new component.
   auto flush_component = [&](vid_t u, vid_t v) {
@@ -199,25 +210,17 @@ void biconnected_components(G&& g, OuterContainer& components) {
     }
 
     disc[start] = low[start] = timer++;
-    stk.push({start, 0, false});
+    push_frame(start);
 
     while (!stk.empty()) {
-      auto& [uid, edge_idx, parent_skipped] = stk.top();
-
-      auto edge_range = edges(g, uid);
-      auto it         = std::ranges::begin(edge_range);
-      auto it_end     = std::ranges::end(edge_range);
-
-      // Advance iterator to edge_idx position
-      for (size_t i = 0; i < edge_idx && it != it_end; ++i, ++it) {
-      }
+      auto& [uid, it, it_end, parent_skipped] = stk.top();
 
       if (it == it_end) {
         // All edges processed — backtrack
         vid_t backtrack_uid = uid;
         stk.pop();
         if (!stk.empty()) {
-          auto& [par_uid, par_edge_idx, par_skipped] = stk.top();
+          const vid_t par_uid = stk.top().uid;
           // Update low-link of parent
           if (low[backtrack_uid] < low[par_uid]) {
             low[par_uid] = low[backtrack_uid];
@@ -234,7 +237,7 @@ void biconnected_components(G&& g, OuterContainer& components) {
       }
 
       vid_t vid = target_id(g, *it);
-      ++edge_idx; // advance for next iteration
+      ++it; // advance for next iteration
 
       // Skip self-loops
       if (vid == uid) {
@@ -246,7 +249,7 @@ void biconnected_components(G&& g, OuterContainer& components) {
         parent[vid] = uid;
         disc[vid] = low[vid] = timer++;
         edge_stk.push({uid, vid});
-        stk.push({vid, 0, false});
+        push_frame(vid);
       } else if (vid == parent[uid] && !parent_skipped) {
         // First reverse edge to DFS parent — this is the tree edge; skip it
         parent_skipped = true;
-- 
2.43.0


From e16c1360b4b4101b1a29ce0dcfb3fcec5f823308 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:08:29 +0000
Subject: [PATCH 74/77] fix: kosaraju must stay within its documented O(V + E)
 time and O(V) memory

---
 .../graph/algorithm/connected_components.hpp  | 130 ++++++++++--------
 1 file changed, 70 insertions(+), 60 deletions(-)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index ac53c46..3313386 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -152,37 +152,36 @@ void kosaraju(G&&        g,        // graph
   // Helper: iterative DFS to compute finish times (post-order)
   // This creates reverse topological ordering for SCC discovery
   auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
-    std::stack<std::pair<vertex_id_t<G>, bool>> stack; // (vertex, children_visited)
-    stack.push({start, false});
-
+    using edge_iterator = std::ranges::iterator_t<decltype(edges(g_ref, start))>;
+    using edge_sentinel = std::ranges::sentinel_t<decltype(edges(g_ref, start))>;
+
+    // (vertex, its remaining edges); a vertex is on the stack at most once
+    struct dfs_frame {
+      vertex_id_t<G> uid;
+      edge_iterator  it;
+      edge_sentinel  it_end;
+    };
+    std::stack<dfs_frame> stack;
+
+    auto visit = [&](const vertex_id_t<G>& uid) {
+      visited[uid]    = true;
+      auto edge_range = edges(g_ref, uid);
+      stack.push({uid, std::ranges::begin(edge_range), std::ranges::end(edge_range)});
+    };
+
+    visit(start);
     while (!stack.empty()) {
-      auto [uid, children_visited] = stack.top();
-      stack.pop();
-
-      if (children_visited) {
+      auto& [uid, it, it_end] = stack.top();
+      if (it == it_end) {
         // All children have been visited, add to finish order (post-order)
-        // This ensures children finish before parents in topological sort
         order.push_back(uid);
-      } else {
-        // A vertex is visited when it is expanded, not when it is pushed: one that is reached
-        // again from a deeper vertex must be visited (and finish) there.
-        if (visited[uid]) {
-          continue;
-        }
-        visited[uid] = true;
-
-        // Mark that we'll process this vertex after its children
-        // Re-push with children_visited=true to record finish time later
-        stack.push({uid, true});
-
-        // Push all unvisited neighbors onto stack
-        // They will be processed (and finish) before this vertex
-        auto uid_vertex = *find_vertex(g_ref, uid);
-        for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
-          if (!visited[vid]) {
-            stack.push({vid, false});
-          }
-        }
+        stack.pop();
+        continue;
+      }
+      const vertex_id_t<G> vid = target_id(g_ref, *it);
+      ++it;
+      if (!visited[vid]) {
+        visit(vid);
       }
     }
   };
@@ -202,17 +201,23 @@ void kosaraju(G&&        g,        // graph
   std::ranges::reverse_view reverse{order};
   for (auto& uid : reverse) {
     if (component[uid] == std::numeric_limits<CT>::max()) {
-      // Use DFS view on transpose to find all vertices in this SCC
+      // DFS on transpose to find all vertices in this SCC
       // In transpose: if u->v in original, v->u in transpose
       // So we find all vertices that can reach this root in original graph
-      graph::views::vertices_dfs_view<std::remove_reference_t<GT>> dfs(g_t, uid);
-      for (auto&& [v] : dfs) {
-        auto vid = vertex_id(g_t, v);
-        if (component[vid] != std::numeric_limits<CT>::max()) {
-          // Already assigned to SCC, skip this branch
-          dfs.cancel(graph::views::cancel_search::cancel_branch);
-        } else {
-          component[vid] = cid; // Assign to current SCC
+      std::stack<vertex_id_t<GT>> dfs_stack;
+      dfs_stack.push(static_cast<vertex_id_t<GT>>(uid));
+      component[uid] = cid;
+
+      while (!dfs_stack.empty()) {
+        const vertex_id_t<GT> current = dfs_stack.top();
+        dfs_stack.pop();
+
+        for (auto&& uv : edges(g_t, current)) {
+          auto vid = target_id(g_t, uv);
+          if (component[vid] == std::numeric_limits<CT>::max()) {
+            component[vid] = cid; // Assign to current SCC
+            dfs_stack.push(vid);
+          }
         }
       }
       ++cid; // Move to next SCC
@@ -286,31 +291,36 @@ void kosaraju(G&&        g,        // bidirectional graph
 
   // First pass: iterative DFS to compute finish times (same as two-graph version)
   auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
-    std::stack<std::pair<vertex_id_t<G>, bool>> stack;
-    stack.push({start, false});
-
+    using edge_iterator = std::ranges::iterator_t<decltype(edges(g_ref, start))>;
+    using edge_sentinel = std::ranges::sentinel_t<decltype(edges(g_ref, start))>;
+
+    // (vertex, its remaining edges); a vertex is on the stack at most once
+    struct dfs_frame {
+      vertex_id_t<G> uid;
+      edge_iterator  it;
+      edge_sentinel  it_end;
+    };
+    std::stack<dfs_frame> stack;
+
+    auto visit = [&](const vertex_id_t<G>& uid) {
+      visited[uid]    = true;
+      auto edge_range = edges(g_ref, uid);
+      stack.push({uid, std::ranges::begin(edge_range), std::ranges::end(edge_range)});
+    };
+
+    visit(start);
     while (!stack.empty()) {
-      auto [uid, children_visited] = stack.top();
-      stack.pop();
-
-      if (children_visited) {
+      auto& [uid, it, it_end] = stack.top();
+      if (it == it_end) {
+        // All children have been visited, add to finish order (post-order)
         order.push_back(uid);
-      } else {
-        // A vertex is visited when it is expanded, not when it is pushed: one that is reached
-        // again from a deeper vertex must be visited (and finish) there.
-        if (visited[uid]) {
-          continue;
-        }
-        visited[uid] = true;
-
-        stack.push({uid, true});
-
-        auto uid_vertex = *find_vertex(g_ref, uid);
-        for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
-          if (!visited[vid]) {
-            stack.push({vid, false});
-          }
-        }
+        stack.pop();
+        continue;
+      }
+      const vertex_id_t<G> vid = target_id(g_ref, *it);
+      ++it;
+      if (!visited[vid]) {
+        visit(vid);
       }
     }
   };
-- 
2.43.0


From 51bac99e79bc7d330856b6af1853178be6596c45 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:15:55 +0000
Subject: [PATCH 75/77] fix: edges(g,u) and degree(g,u) must not count the
 edges of a container that knows its size

---
 include/graph/adj_list/edge_descriptor_view.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/graph/adj_list/edge_descriptor_view.hpp b/include/graph/adj_list/edge_descriptor_view.hpp
index 07527fb..fa109e2 100644
--- a/include/graph/adj_list/edge_descriptor_view.hpp
+++ b/include/graph/adj_list/edge_descriptor_view.hpp
@@ -112,7 +112,11 @@ public:
     } else {
       begin_ = container.begin();
       end_   = container.end();
-      size_  = static_cast<std::size_t>(std::distance(begin_, end_));
+      if constexpr (std::ranges::sized_range<Container&>) {
+        size_ = static_cast<std::size_t>(std::ranges::size(container)); // O(1)
+      } else {
+        size_ = static_cast<std::size_t>(std::distance(begin_, end_));
+      }
     }
   }
 
@@ -137,7 +141,11 @@ public:
     } else {
       begin_ = container.begin();
       end_   = container.end();
-      size_  = static_cast<std::size_t>(std::distance(begin_, end_));
+      if constexpr (std::ranges::sized_range<const Container&>) {
+        size_ = static_cast<std::size_t>(std::ranges::size(container)); // O(1)
+      } else {
+        size_ = static_cast<std::size_t>(std::distance(begin_, end_));
+      }
     }
   }
 
-- 
2.43.0


From 4241581dbb667c31280497f7cec1be0ba1ab7ede Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:16:16 +0000
Subject: [PATCH 76/77] fix: find_vertex of undirected_adjacency_list must take
 vertex_id_t of its descriptors (it fell back to walking the vertices)

---
 include/graph/container/undirected_adjacency_list.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 3bb74da..8f83bc5 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -1266,13 +1266,15 @@ protected: // Utilities
 /// find_vertex(g, id) - returns view iterator yielding vertex_descriptor
 /// REQUIRED: Provides bounds checking - returns end() if id >= size()
 /// The default CPO implementation lacks this bounds checking.
+/// Any integral id is taken: vertex_id_t<G> of the descriptors is not VId.
 template <typename EV,
           typename VV,
           typename GV,
           integral VId,
           template <typename V, typename A> class VContainer,
-          typename Alloc>
-constexpr auto find_vertex(undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>& g, VId id) noexcept {
+          typename Alloc,
+          integral Id>
+constexpr auto find_vertex(undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>& g, Id id) noexcept {
   using graph_type     = undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>;
   using vertex_set     = typename graph_type::vertex_set;
   using container_iter = typename vertex_set::iterator;
@@ -1291,8 +1293,9 @@ template <typename EV,
           typename GV,
           integral VId,
           template <typename V, typename A> class VContainer,
-          typename Alloc>
-constexpr auto find_vertex(const undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>& g, VId id) noexcept {
+          typename Alloc,
+          integral Id>
+constexpr auto find_vertex(const undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>& g, Id id) noexcept {
   using graph_type     = undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>;
   using vertex_set     = typename graph_type::vertex_set;
   using container_iter = typename vertex_set::const_iterator;
-- 
2.43.0


From 5b9aae75debddb552f9f870e19f67c883d93fecb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:16:27 +0000
Subject: [PATCH 77/77] fix: find_vertex of a random-access graph must not walk
 the vertices (documented O(1))

---
 include/graph/adj_list/detail/graph_cpo.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 065fbe5..5c683f5 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -571,8 +571,18 @@ namespace _cpo_impls {
           using view_iterator      = typename view_type::iterator;
           return view_iterator{map_iter};
         } else if constexpr (_Choice<_G, _VId>._Strategy == _St::_random_access) {
-          using diff_type = std::iter_difference_t<decltype(std::ranges::begin(vertices(std::forward<G>(g))))>;
-          return std::ranges::next(std::ranges::begin(vertices(std::forward<G>(g))), static_cast<diff_type>(uid));
+          using iter_type = decltype(std::ranges::begin(vertices(std::forward<G>(g))));
+          if constexpr (requires(const iter_type& it) {
+                          requires std::integral<typename std::remove_cvref_t<decltype(*it)>::storage_type>;
+                          iter_type{(*it).value()};
+                        }) {
+            // The descriptor holds the vertex index: the (forward) iterator needn't be advanced to it
+            using storage_type = typename std::remove_cvref_t<decltype(*std::declval<const iter_type&>())>::storage_type;
+            return iter_type{static_cast<storage_type>(uid)};
+          } else {
+            using diff_type = std::iter_difference_t<iter_type>;
+            return std::ranges::next(std::ranges::begin(vertices(std::forward<G>(g))), static_cast<diff_type>(uid));
+          }
         }
       }
     };
-- 
2.43.0

