From a073a1ac2a9b0cc3677af5afc2d7fa0d39cd5509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 01/87] fix: base64 decoding of characters above 127 read
 outside the index table

---
 src/arc_utilities/base64_helpers.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/arc_utilities/base64_helpers.cpp b/src/arc_utilities/base64_helpers.cpp
index 90d0f82..2d2db78 100644
--- a/src/arc_utilities/base64_helpers.cpp
+++ b/src/arc_utilities/base64_helpers.cpp
@@ -24,23 +24,26 @@ static const std::array<int32_t, 256> B64IndexTable = {
     10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 0,  0,  0,  0,  63, 0,  26, 27, 28,
     29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51};
 
+// The character type may be signed, the index must not be
+static inline int32_t B64Index(const char character) { return B64IndexTable[static_cast<uint8_t>(character)]; }
+
 std::vector<uint8_t> Decode(const std::string& encoded) {
   const size_t encoded_length = encoded.size();
   const size_t pad = encoded_length > 0 && (encoded_length % 4 || encoded[encoded_length - 1] == '=');
   const size_t L = ((encoded_length + 3) / 4 - pad) * 4;
   std::vector<uint8_t> buffer(L / 4 * 3 + pad, 0x00);
   for (size_t i = 0, j = 0; i < L; i += 4) {
-    const int32_t n = B64IndexTable[encoded[i]] << 18 | B64IndexTable[encoded[i + 1]] << 12 |
-                      B64IndexTable[encoded[i + 2]] << 6 | B64IndexTable[encoded[i + 3]];
+    const int32_t n = B64Index(encoded[i]) << 18 | B64Index(encoded[i + 1]) << 12 |
+                      B64Index(encoded[i + 2]) << 6 | B64Index(encoded[i + 3]);
     buffer[j++] = (uint8_t)(n >> 16);
     buffer[j++] = (uint8_t)(n >> 8 & 0xFF);
     buffer[j++] = (uint8_t)(n & 0xFF);
   }
   if (pad > 0) {
-    int32_t n = B64IndexTable[encoded[L]] << 18 | B64IndexTable[encoded[L + 1]] << 12;
+    int32_t n = B64Index(encoded[L]) << 18 | B64Index(encoded[L + 1]) << 12;
     buffer[buffer.size() - 1] = (uint8_t)(n >> 16);
     if (encoded_length > L + 2 && encoded[L + 2] != '=') {
-      n |= B64IndexTable[encoded[L + 2]] << 6;
+      n |= B64Index(encoded[L + 2]) << 6;
       buffer.push_back((uint8_t)(n >> 8 & 0xFF));
     }
   }
-- 
2.43.0


From 34fac122bb8235ae27ba43302811bf5cdb6ae394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 02/87] fix: report failed writes of small compressed files

---
 src/arc_utilities/zlib_helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/zlib_helpers.cpp b/src/arc_utilities/zlib_helpers.cpp
index b7222ad..ac3e7cd 100644
--- a/src/arc_utilities/zlib_helpers.cpp
+++ b/src/arc_utilities/zlib_helpers.cpp
@@ -186,7 +186,7 @@ void CompressAndWriteToFile(const std::vector<uint8_t>& uncompressed, const std:
   }
   output_file.write(reinterpret_cast<const char*>(compressed.data()), (std::streamsize)compressed.size());
   output_file.close();
-  if (output_file.bad()) {
+  if (output_file.fail()) {
     throw_arc_exception(std::runtime_error, "Error writing to file");
   }
 }
-- 
2.43.0


From acb6b46ef31c30b7d43399a820daac22fd01c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 03/87] fix: mark the starting node of a connected component

---
 include/arc_utilities/graph.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/graph.hpp b/include/arc_utilities/graph.hpp
index e2209ba..7508572 100644
--- a/include/arc_utilities/graph.hpp
+++ b/include/arc_utilities/graph.hpp
@@ -276,6 +276,7 @@ class Graph {
     // avoid duplication, unlike what is used in CollisionMapGrid::MarkConnectedComponent
     std::queue<int64_t> working_queue;
     working_queue.push(starting_node_idx);
+    components[starting_node_idx] = component_id;
     size_t num_marked = 1;
 
     while (working_queue.size() > 0) {
-- 
2.43.0


From 20f5f817bc7e7cc193d1e5e80205491c5c4e5562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 04/87] fix: addEdgeBetweenNodes returns the edge it added,
 also next to a parallel edge

---
 include/arc_utilities/graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/graph.hpp b/include/arc_utilities/graph.hpp
index 7508572..e22dd44 100644
--- a/include/arc_utilities/graph.hpp
+++ b/include/arc_utilities/graph.hpp
@@ -483,7 +483,7 @@ class Graph {
     const GraphEdge new_edge(from_index, to_index, edge_weight);
     from_node.addOutEdge(new_edge);
     to_node.addInEdge(new_edge);
-    return from_node.getEdgeTo(to_index);
+    return from_node.getOutEdges().back();
   }
 
   std::pair<const GraphEdge, const GraphEdge> addEdgesBetweenNodes(const int64_t first_index,
-- 
2.43.0


From 44e7630cf33ea84c494b081b32466a4b9ca946a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 05/87] fix: serialization of Dijkstra results

---
 include/arc_utilities/dijkstras.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/dijkstras.hpp b/include/arc_utilities/dijkstras.hpp
index 8295751..35dfdae 100644
--- a/include/arc_utilities/dijkstras.hpp
+++ b/include/arc_utilities/dijkstras.hpp
@@ -94,15 +94,15 @@ class SimpleDijkstrasAlgorithm {
       const std::function<uint64_t(const NodeValueType&, std::vector<uint8_t>&)>& value_serializer) {
     const uint64_t start_buffer_size = buffer.size();
     // Serialize the graph
-    result.first.SerializeSelf(buffer, value_serializer);
+    result.first.serializeSelf(buffer, value_serializer);
     // Serialize the previous index
     const auto index_serializer =
         std::bind(arc_utilities::SerializeFixedSizePOD<int64_t>, std::placeholders::_1, std::placeholders::_2);
-    SerializeVector(result.second.first, index_serializer);
+    arc_utilities::SerializeVector<int64_t>(result.second.first, buffer, index_serializer);
     // Serialze the distances
     const auto distance_serializer =
         std::bind(arc_utilities::SerializeFixedSizePOD<double>, std::placeholders::_1, std::placeholders::_2);
-    SerializeVector(result.second.second, distance_serializer);
+    arc_utilities::SerializeVector<double>(result.second.second, buffer, distance_serializer);
     // Figure out how many bytes were written
     const uint64_t end_buffer_size = buffer.size();
     const uint64_t bytes_written = end_buffer_size - start_buffer_size;
-- 
2.43.0


From 18494ecab7175e179e95123db3d0c2f28ed58d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 06/87] fix: A* planner with a custom hasher

---
 include/arc_utilities/simple_astar_planner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_astar_planner.hpp b/include/arc_utilities/simple_astar_planner.hpp
index e08461d..1237d9c 100644
--- a/include/arc_utilities/simple_astar_planner.hpp
+++ b/include/arc_utilities/simple_astar_planner.hpp
@@ -119,7 +119,7 @@ class SimpleAStarPlanner {
       const ConfigType& current_node = current.first;
 
       if (goal_reached_fn(current_node) == true) {
-        results.first = ExtractPathBasic(backpointers, current_node);
+        results.first = ExtractPathBasic<ConfigHasher>(backpointers, current_node);
         goal_reached = true;
       }
       // Double check if we've already explored this node:
-- 
2.43.0


From c64a4d661e5902e2393a3766949ce2a868b4fd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 07/87] fix: PRM edges of start states with an asymmetric
 distance

---
 include/arc_utilities/simple_prm_planner.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/simple_prm_planner.hpp b/include/arc_utilities/simple_prm_planner.hpp
index 95834d5..d042617 100644
--- a/include/arc_utilities/simple_prm_planner.hpp
+++ b/include/arc_utilities/simple_prm_planner.hpp
@@ -68,10 +68,11 @@ class SimpleGeometricPrmPlanner {
         if (distance_is_symmetric) {
           nearest_neighbors_distances[idx] = std::make_pair(nearest_neighbor_distance, nearest_neighbor_distance);
         } else {
-          const double reverse_graph_distance = distance_fn(state, roadmap.getNode(nearest_neighbor_index).getValue());
           if (nn_distance_direction == ROADMAP_TO_NEW_STATE) {
+            const double reverse_graph_distance = distance_fn(state, nearest_neighbor_state);
             nearest_neighbors_distances[idx] = std::make_pair(nearest_neighbor_distance, reverse_graph_distance);
-          } else if (nn_distance_direction == ROADMAP_TO_NEW_STATE) {
+          } else if (nn_distance_direction == NEW_STATE_TO_ROADMAP) {
+            const double reverse_graph_distance = distance_fn(nearest_neighbor_state, state);
             nearest_neighbors_distances[idx] = std::make_pair(reverse_graph_distance, nearest_neighbor_distance);
           } else {
             assert(false && "This code should not be reachable");
-- 
2.43.0


From de7123441cc4b8cfd0b57b3f9a1e5a9e10be76cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 08/87] fix: UpdateRoadMapEdges calls the linkage check of the
 roadmap

---
 include/arc_utilities/simple_prm_planner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_prm_planner.hpp b/include/arc_utilities/simple_prm_planner.hpp
index d042617..b102b03 100644
--- a/include/arc_utilities/simple_prm_planner.hpp
+++ b/include/arc_utilities/simple_prm_planner.hpp
@@ -143,7 +143,7 @@ class SimpleGeometricPrmPlanner {
   static void UpdateRoadMapEdges(arc_dijkstras::Graph<T, Allocator>& roadmap,
                                  const std::function<bool(const T&, const T&)>& edge_validity_check_fn,
                                  const std::function<double(const T&, const T&)>& distance_fn) {
-    if (roadmap.CheckGraphLinkage() == false) {
+    if (roadmap.checkGraphLinkage() == false) {
       throw std::invalid_argument("Provided roadmap has invalid linkage");
     }
 #ifdef ENABLE_PARALLEL_ROADMAP
-- 
2.43.0


From 739396f652c63902efc569e9859b2524afbd882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 09/87] fix: make the RRT planners compile again

---
 include/arc_utilities/simple_rrt_planner.hpp | 31 +++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/include/arc_utilities/simple_rrt_planner.hpp b/include/arc_utilities/simple_rrt_planner.hpp
index 1aa7a55..4fa0db2 100644
--- a/include/arc_utilities/simple_rrt_planner.hpp
+++ b/include/arc_utilities/simple_rrt_planner.hpp
@@ -1,9 +1,12 @@
 #include <stdlib.h>
 
 #include <Eigen/Dense>
+#include <algorithm>
 #include <arc_utilities/serialization.hpp>
 #include <chrono>
 #include <functional>
+#include <iostream>
+#include <map>
 #include <memory>
 #include <random>
 #include <stdexcept>
@@ -501,8 +504,8 @@ class SimpleHybridRRTPlanner {
    * statistics - map of string keys/double values of planner statistics (i.e. run time, #states explored, #states in
    * solution
    */
-  template <typename T, typename Allocator = std::allocator<T>>
-  static std::pair<std::vector<std::vector<T, Allocator>>, std::map<std::string, double>> PlanMultiPath(
+  template <typename SampleType, typename StateType, typename StateAllocator = std::allocator<StateType>>
+  static std::pair<std::vector<std::vector<StateType, StateAllocator>>, std::map<std::string, double>> PlanMultiPath(
       std::vector<SimpleRRTPlannerState<StateType, StateAllocator>>& tree,
       const std::function<int64_t(const std::vector<SimpleRRTPlannerState<StateType, StateAllocator>>&,
                                   const SampleType&)>& nearest_neighbor_fn,
@@ -543,13 +546,13 @@ class SimpleHybridRRTPlanner {
     // Plan
     while (!termination_check_fn()) {
       // Sample a random goal
-      const StateType random_target = sampling_fn();
+      const SampleType random_target = sampling_fn();
       // Get the nearest neighbor
-      const int64_t nearest_neighbor_index = nearest_neighbor_fn(nodes, random_target);
-      if (unlikely(nearest_neighbor_index < 0)) {
+      const int64_t nearest_neighbor_index = nearest_neighbor_fn(tree, random_target);
+      if (nearest_neighbor_index < 0) {
         break;
       }
-      const T& nearest_neighbor = nodes.at(nearest_neighbor_index).GetValueImmutable();
+      const StateType& nearest_neighbor = tree.at(nearest_neighbor_index).GetValueImmutable();
       // Forward propagate towards the goal
       std::vector<std::pair<StateType, int64_t>> propagated = forward_propagation_fn(nearest_neighbor, random_target);
       if (!propagated.empty()) {
@@ -578,12 +581,12 @@ class SimpleHybridRRTPlanner {
                                                          // nearest neighbor index
           }
           // Build the new state
-          const T& current_propagated = current_propagation.first;
-          const SimpleRRTPlannerState<T, Allocator> new_state(current_propagated, node_parent_index);
+          const StateType& current_propagated = current_propagation.first;
+          const SimpleRRTPlannerState<StateType, StateAllocator> new_state(current_propagated, node_parent_index);
           // Add the state to the tree
-          nodes.push_back(new_state);
-          const int64_t new_node_index = (int64_t)nodes.size() - 1;
-          nodes[node_parent_index].AddChildIndex(new_node_index);
+          tree.push_back(new_state);
+          const int64_t new_node_index = (int64_t)tree.size() - 1;
+          tree[node_parent_index].AddChildIndex(new_node_index);
           // Call the state added callback
           state_added_fn(tree, new_node_index);
           // Check if we've reached the goal
@@ -817,8 +820,8 @@ class SimpleHybridBiRRTPlanner {
    * statistics - map of string keys/double values of planner statistics (i.e. run time, #states explored, #states in
    * solution
    */
-  template <typename T, typename Allocator = std::allocator<T>>
-  static std::pair<std::vector<std::vector<T>>, std::map<std::string, double>> PlanMultiPath(
+  template <typename RNG, typename T, typename Allocator = std::allocator<T>>
+  static std::pair<std::vector<std::vector<T, Allocator>>, std::map<std::string, double>> PlanMultiPath(
       const T& start, const T& goal,
       const std::function<int64_t(const std::vector<SimpleRRTPlannerState<T, Allocator>>&, const T&)>&
           nearest_neighbor_fn,
@@ -915,7 +918,7 @@ class SimpleHybridBiRRTPlanner {
           (sample_from_tree) ? target_tree.at(target_tree_node_index).GetValueImmutable() : state_sampling_fn();
       // Get the nearest neighbor
       const int64_t nearest_neighbor_index = nearest_neighbor_fn(active_tree, target_state);
-      if (unlikely(nearest_neighbor_index < 0)) {
+      if (nearest_neighbor_index < 0) {
         break;
       }
       const StateType& nearest_neighbor = active_tree.at(nearest_neighbor_index).GetValueImmutable();
-- 
2.43.0


From d3672966138476551f909f045a57957cb072729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 10/87] fix: tree linkage check rejects parent indices beyond
 the tree

---
 include/arc_utilities/simple_rrt_planner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_rrt_planner.hpp b/include/arc_utilities/simple_rrt_planner.hpp
index 4fa0db2..2c15cdf 100644
--- a/include/arc_utilities/simple_rrt_planner.hpp
+++ b/include/arc_utilities/simple_rrt_planner.hpp
@@ -651,7 +651,7 @@ class SimpleHybridRRTPlanner {
                     << " [Indices can't be the same]" << std::endl;
           return false;
         }
-      } else if (parent_index < -1) {
+      } else if (parent_index != -1) {
         std::cerr << "Invalid parent index " << parent_index << " for state " << current_index << std::endl;
         return false;
       }
-- 
2.43.0


From 2c6d98c2d337632e49cfe6d1097c0572827a942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:20 +0000
Subject: [PATCH 11/87] fix: GetBit of bits above 31

---
 include/arc_utilities/arc_helpers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 379e1a4..1b5b93c 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -172,7 +172,7 @@ inline T SetBit(const T current, const uint32_t bit_position, const bool bit_val
 template <typename T>
 inline bool GetBit(const T current, const uint32_t bit_position) {
   // Type safety checks are performed in the SetBit() function
-  const uint32_t mask = arc_helpers::SetBit((T)0, bit_position, true);
+  const T mask = arc_helpers::SetBit((T)0, bit_position, true);
   return (mask & current) > 0;
 }
 
-- 
2.43.0


From b6af18898cafb9edf6b2f1c72062acf7185cc354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:20 +0000
Subject: [PATCH 12/87] fix: distance matrices of two datasets

---
 include/arc_utilities/arc_helpers.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 1b5b93c..15c767f 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -509,7 +509,7 @@ template <typename FirstDatatype, typename SecondDatatype, typename FirstAllocat
 inline Eigen::MatrixXd BuildDistanceMatrixParallel(
     const std::vector<FirstDatatype, FirstAllocator>& data1, const std::vector<SecondDatatype, SecondAllocator>& data2,
     const std::function<double(const FirstDatatype&, const SecondDatatype&)>& distance_fn) {
-  Eigen::MatrixXd distance_matrix(data1.size(), data1.size());
+  Eigen::MatrixXd distance_matrix(data1.size(), data2.size());
 #if defined(_OPENMP)
 #pragma omp parallel for
 #endif
@@ -517,7 +517,6 @@ inline Eigen::MatrixXd BuildDistanceMatrixParallel(
     for (size_t jdx = 0; jdx < data2.size(); jdx++) {
       const double distance = distance_fn(data1[idx], data2[jdx]);
       distance_matrix((ssize_t)idx, (ssize_t)jdx) = distance;
-      distance_matrix((ssize_t)jdx, (ssize_t)idx) = distance;
     }
   }
   return distance_matrix;
@@ -548,12 +547,11 @@ template <typename FirstDatatype, typename SecondDatatype, typename FirstAllocat
 inline Eigen::MatrixXd BuildDistanceMatrixSerial(
     const std::vector<FirstDatatype, FirstAllocator>& data1, const std::vector<SecondDatatype, SecondAllocator>& data2,
     const std::function<double(const FirstDatatype&, const SecondDatatype&)>& distance_fn) {
-  Eigen::MatrixXd distance_matrix(data1.size(), data1.size());
+  Eigen::MatrixXd distance_matrix(data1.size(), data2.size());
   for (size_t idx = 0; idx < data1.size(); idx++) {
     for (size_t jdx = 0; jdx < data2.size(); jdx++) {
       const double distance = distance_fn(data1[idx], data2[jdx]);
       distance_matrix((ssize_t)idx, (ssize_t)jdx) = distance;
-      distance_matrix((ssize_t)jdx, (ssize_t)idx) = distance;
     }
   }
   return distance_matrix;
-- 
2.43.0


From 865b2e74c11617b3bba02933e4754c6a6aceb5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:20 +0000
Subject: [PATCH 13/87] fix: seeding XorShift1024StarPRNG again restarts its
 sequence

---
 include/arc_utilities/arc_helpers.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 15c767f..71cd40b 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -916,6 +916,7 @@ class XorShift1024StarPRNG {
     for (size_t idx = 0u; idx < state_.size(); idx++) {
       state_[idx] = temp_seed_gen();
     }
+    p = 0;
   }
 
   inline void discard(const unsigned long long z) {
-- 
2.43.0


From 807c95bf528b19e3041c8609af776aee8df0c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:20 +0000
Subject: [PATCH 14/87] fix: truncated normal samples outside the bounds for
 standardized narrow tails

---
 include/arc_utilities/arc_helpers.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 71cd40b..ed7cc60 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -1137,6 +1137,7 @@ class TruncatedNormalDistribution {
           case_ = TYPE_3;
         } else {
           case_ = TYPE_4;
+          uniform_range_dist_ = std::uniform_real_distribution<double>(std_lower_bound_, std_upper_bound_);
         }
       }
       assert((case_ == TYPE_1) || (case_ == TYPE_2) || (case_ == TYPE_3) || (case_ == TYPE_4));
-- 
2.43.0


From 086e187edb779e09c31fd41ed96970b6cb645bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 15/87] fix: conversion of Eigen vectors to std vectors read
 beyond the vector

---
 include/arc_utilities/eigen_std_conversions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/eigen_std_conversions.hpp b/include/arc_utilities/eigen_std_conversions.hpp
index c0d6819..0a313d1 100644
--- a/include/arc_utilities/eigen_std_conversions.hpp
+++ b/include/arc_utilities/eigen_std_conversions.hpp
@@ -9,8 +9,8 @@ template <typename Output>
 Output ConvertTo(Eigen::VectorXd const &vec);
 
 template <>
-std::vector<double> ConvertTo<std::vector<double>>(Eigen::VectorXd const &vec) {
-  return std::vector<double>(vec.data(), vec.data() + static_cast<unsigned long>(vec.size()) * sizeof(double));
+inline std::vector<double> ConvertTo<std::vector<double>>(Eigen::VectorXd const &vec) {
+  return std::vector<double>(vec.data(), vec.data() + vec.size());
 }
 
 #endif  // LGV_EIGEN_STD_CONVERSIONS
-- 
2.43.0


From 26642d0df7488a82dca5e0e8b78b88da2293d81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 16/87] fix: positions just below a voxel grid were addressed
 to its first cells

---
 include/arc_utilities/voxel_grid.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/arc_utilities/voxel_grid.hpp b/include/arc_utilities/voxel_grid.hpp
index 64f13f7..e7535a5 100644
--- a/include/arc_utilities/voxel_grid.hpp
+++ b/include/arc_utilities/voxel_grid.hpp
@@ -6,6 +6,7 @@
 #include <arc_utilities/arc_helpers.hpp>
 #include <arc_utilities/eigen_typedefs.hpp>
 #include <arc_utilities/serialization_eigen.hpp>
+#include <cmath>
 #include <iostream>
 #include <sstream>
 #include <stdexcept>
@@ -757,23 +758,23 @@ class VoxelGrid {
   }
 
   inline GRID_INDEX PointInFrameToGridIndex(const double x, const double y, const double z) const {
-    const int64_t x_cell = (int64_t)(x * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(y * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(z * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)std::floor(x * inv_cell_x_size_);
+    const int64_t y_cell = (int64_t)std::floor(y * inv_cell_y_size_);
+    const int64_t z_cell = (int64_t)std::floor(z * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
   inline GRID_INDEX PointInFrameToGridIndex3d(const Eigen::Vector3d& point_in_grid_frame) const {
-    const int64_t x_cell = (int64_t)(point_in_grid_frame(0) * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(point_in_grid_frame(1) * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(point_in_grid_frame(2) * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)std::floor(point_in_grid_frame(0) * inv_cell_x_size_);
+    const int64_t y_cell = (int64_t)std::floor(point_in_grid_frame(1) * inv_cell_y_size_);
+    const int64_t z_cell = (int64_t)std::floor(point_in_grid_frame(2) * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
   inline GRID_INDEX PointInFrameToGridIndex4d(const Eigen::Vector4d& point_in_grid_frame) const {
-    const int64_t x_cell = (int64_t)(point_in_grid_frame(0) * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(point_in_grid_frame(1) * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(point_in_grid_frame(2) * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)std::floor(point_in_grid_frame(0) * inv_cell_x_size_);
+    const int64_t y_cell = (int64_t)std::floor(point_in_grid_frame(1) * inv_cell_y_size_);
+    const int64_t z_cell = (int64_t)std::floor(point_in_grid_frame(2) * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
-- 
2.43.0


From 8b8f2980ea1ff4a725ea33d2820ade5ea33dc744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 17/87] fix: SetChunkValue of three coordinates wrote a single
 cell

---
 include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 1220884..a892645 100644
--- a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -538,12 +538,12 @@ class DynamicSpatialHashedVoxelGrid {
 
   inline SET_STATUS SetChunkValue(const double x, const double y, const double z, const T& value) {
     Eigen::Vector3d location(x, y, z);
-    return SetCellValue(location, value);
+    return SetChunkValue(location, value);
   }
 
   inline SET_STATUS SetChunkValue(const double x, const double y, const double z, T&& value) {
     Eigen::Vector3d location(x, y, z);
-    return SetCellValue(location, value);
+    return SetChunkValue(location, value);
   }
 
   inline CHUNK_REGION GetContainingChunkRegion(const Eigen::Vector3d& grid_location) const {
-- 
2.43.0


From 7f5be7f6951876a3fbdfbd0089ca63a889308eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 18/87] fix: dynamic voxel grids with an allocator did not
 compile

---
 .../arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index a892645..b44af81 100644
--- a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -568,7 +568,7 @@ class DynamicSpatialHashedVoxelGrid {
     CHUNK_REGION region = GetContainingChunkRegion(grid_location);
     auto found_chunk_itr = chunks_.find(region);
     if (found_chunk_itr != chunks_.end()) {
-      const DynamicSpatialHashedVoxelGridChunk<T>& chunk = found_chunk_itr->second;
+      const DynamicSpatialHashedVoxelGridChunk<T, Allocator>& chunk = found_chunk_itr->second;
       if (chunk.IsCellInitialized()) {
         // Get the data
         std::pair<const T&, bool> found_in_cell = chunk.GetCellImmutable(grid_location);
@@ -593,7 +593,7 @@ class DynamicSpatialHashedVoxelGrid {
     CHUNK_REGION region = GetContainingChunkRegion(grid_location);
     auto found_chunk_itr = chunks_.find(region);
     if (found_chunk_itr != chunks_.end()) {
-      DynamicSpatialHashedVoxelGridChunk<T>& chunk = found_chunk_itr->second;
+      DynamicSpatialHashedVoxelGridChunk<T, Allocator>& chunk = found_chunk_itr->second;
       if (chunk.IsCellInitialized()) {
         // Get the data
         std::pair<T&, bool> found_in_cell = chunk.GetCellMutable(grid_location);
@@ -618,7 +618,7 @@ class DynamicSpatialHashedVoxelGrid {
     CHUNK_REGION region = GetContainingChunkRegion(grid_location);
     auto found_chunk_itr = chunks_.find(region);
     if (found_chunk_itr != chunks_.end()) {
-      DynamicSpatialHashedVoxelGridChunk<T>& chunk = found_chunk_itr->second;
+      DynamicSpatialHashedVoxelGridChunk<T, Allocator>& chunk = found_chunk_itr->second;
       if (chunk.IsCellInitialized()) {
         if (chunk.SetCellValue(grid_location, value)) {
           return SET_CELL;
@@ -803,7 +803,7 @@ class DynamicSpatialHashedVoxelGrid {
 
   inline Eigen::Isometry3d GetOriginTransform() const { return origin_transform_; }
 
-  inline const std::unordered_map<CHUNK_REGION, DynamicSpatialHashedVoxelGridChunk<T>>& GetInternalChunks() const {
+  inline const std::unordered_map<CHUNK_REGION, DynamicSpatialHashedVoxelGridChunk<T, Allocator>>& GetInternalChunks() const {
     return chunks_;
   }
 };
-- 
2.43.0


From c3030bbf6f2888e32a3c4f91434e6da62a41501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 19/87] fix: a default constructed dynamic voxel grid is not
 initialized

---
 include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index b44af81..8507b7b 100644
--- a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -489,7 +489,7 @@ class DynamicSpatialHashedVoxelGrid {
     chunk_z_size_ = cell_z_size_ * (double)chunk_num_z_cells_;
     chunk_stride1_ = chunk_num_y_cells_ * chunk_num_z_cells_;
     chunk_stride2_ = chunk_num_z_cells_;
-    initialized_ = true;
+    initialized_ = false;
   }
 
   inline void Initialize(const Eigen::Isometry3d& origin_transform, const double cell_x_size, const double cell_y_size,
-- 
2.43.0


From dad0b05738a9934b635eff5916b88c9cf74a92a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 20/87] fix: cells at the border of a dynamic voxel grid chunk
 could not be written

---
 .../dynamic_spatial_hashed_voxel_grid.hpp     | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 8507b7b..ddf0eea 100644
--- a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -134,23 +134,21 @@ class DynamicSpatialHashedVoxelGridChunk {
   inline int64_t GetLocationDataIndex(const Eigen::Vector3d& location) const {
     Eigen::Vector3d location_in_chunk = location - region_.base;
     // First, make sure the location is in the range this chunk covers
-    if (location_in_chunk.x() < 0.0 || location_in_chunk.y() < 0.0 || location_in_chunk.z() < 0.0) {
+    // A location on the border of the chunk may be outside by rounding, as may be the cell computed from it
+    const double tolerance = 1e-12 * (location.cwiseAbs().sum() + chunk_x_size_ + chunk_y_size_ + chunk_z_size_);
+    if (location_in_chunk.x() < -tolerance || location_in_chunk.y() < -tolerance ||
+        location_in_chunk.z() < -tolerance) {
       return -1;
-    } else if (location_in_chunk.x() > chunk_x_size_ || location_in_chunk.y() > chunk_y_size_ ||
-               location_in_chunk.z() > chunk_z_size_) {
+    } else if (location_in_chunk.x() > chunk_x_size_ + tolerance || location_in_chunk.y() > chunk_y_size_ + tolerance ||
+               location_in_chunk.z() > chunk_z_size_ + tolerance) {
       return -1;
     }
     // Ok, we're inside the chunk
     else {
-      int64_t x_cell = (int64_t)(location_in_chunk.x() / cell_x_size_);
-      int64_t y_cell = (int64_t)(location_in_chunk.y() / cell_y_size_);
-      int64_t z_cell = (int64_t)(location_in_chunk.z() / cell_z_size_);
-      if (x_cell < 0 || y_cell < 0 || z_cell < 0 || x_cell >= num_x_cells_ || y_cell >= num_y_cells_ ||
-          z_cell >= num_z_cells_) {
-        return -1;
-      } else {
-        return GetDataIndex(x_cell, y_cell, z_cell);
-      }
+      const int64_t x_cell = std::min((int64_t)(location_in_chunk.x() / cell_x_size_), num_x_cells_ - 1);
+      const int64_t y_cell = std::min((int64_t)(location_in_chunk.y() / cell_y_size_), num_y_cells_ - 1);
+      const int64_t z_cell = std::min((int64_t)(location_in_chunk.z() / cell_z_size_), num_z_cells_ - 1);
+      return GetDataIndex(std::max((int64_t)0, x_cell), std::max((int64_t)0, y_cell), std::max((int64_t)0, z_cell));
     }
   }
 
-- 
2.43.0


From 5279b9386c7526c9d9443a36bcd2c68deaaf50e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:49 +0000
Subject: [PATCH 21/87] fix: hierarchical clustering with an infinite threshold
 ran out of pairs

---
 include/arc_utilities/simple_hierarchical_clustering.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_hierarchical_clustering.hpp b/include/arc_utilities/simple_hierarchical_clustering.hpp
index 945960a..e6313e0 100644
--- a/include/arc_utilities/simple_hierarchical_clustering.hpp
+++ b/include/arc_utilities/simple_hierarchical_clustering.hpp
@@ -259,7 +259,9 @@ class SimpleHierarchicalClustering {
           closest_element_pair.first;
       closest_distance = closest_element_pair.second;
       // std::cout << "Element pair: " << PrettyPrint::PrettyPrint(closest_element_pair, true) << std::endl;
-      if (closest_distance <= max_cluster_distance) {
+      // No pair is left once everything is in one cluster (the distance is then infinite)
+      const bool have_pair = closest_elements.first.second >= 0 && closest_elements.second.second >= 0;
+      if (have_pair && closest_distance <= max_cluster_distance) {
         const std::pair<bool, int64_t>& first_element = closest_elements.first;
         const std::pair<bool, int64_t>& second_element = closest_elements.second;
         // If both elements are points, create a new cluster
-- 
2.43.0


From a477900ade075ae39d40ad211628a772613efbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 22/87] fix: preliminary weighted k-means uses the weights of
 its subset

---
 include/arc_utilities/simple_kmeans_clustering.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/simple_kmeans_clustering.hpp b/include/arc_utilities/simple_kmeans_clustering.hpp
index fd90f64..6a922ed 100644
--- a/include/arc_utilities/simple_kmeans_clustering.hpp
+++ b/include/arc_utilities/simple_kmeans_clustering.hpp
@@ -299,20 +299,24 @@ class SimpleKMeansClustering {
       }
       std::vector<Datatype, Allocator> random_subset;
       random_subset.reserve(subset_size);
+      std::vector<double> random_subset_weights;
+      random_subset_weights.reserve(subset_size);
       for (auto itr = index_map.begin(); itr != index_map.end(); ++itr) {
         if (itr->second == 1u) {
           const size_t random_index = itr->first;
           const Datatype& random_element = data[random_index];
           random_subset.push_back(random_element);
+          random_subset_weights.push_back(weights[random_index]);
         }
       }
       assert(random_subset.size() == subset_size);
       // Run clustering on the subset
       std::vector<uint32_t> random_subset_labels =
-          ClusterWeighted(random_subset, weights, distance_fn, average_fn, num_clusters, false);
+          ClusterWeighted(random_subset, random_subset_weights, distance_fn, average_fn, num_clusters, false);
       // Now we use the centers of the clusters to form the cluster centers
       cluster_centers =
-          ComputeClusterCentersWeighted(random_subset, weights, random_subset_labels, average_fn, num_clusters);
+          ComputeClusterCentersWeighted(random_subset, random_subset_weights, random_subset_labels, average_fn,
+                                        num_clusters);
     } else {
       // This makes sure we don't get duplicates
       std::map<size_t, uint8_t> index_map;
-- 
2.43.0


From 4ec18e982a6d5412d1219209e6e779517d569379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:04 +0000
Subject: [PATCH 23/87] fix: DTW takes the cheapest of its three predecessors
 when two of them tie

---
 include/arc_utilities/simple_dtw.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/arc_utilities/simple_dtw.hpp b/include/arc_utilities/simple_dtw.hpp
index f4f021c..36d4175 100644
--- a/include/arc_utilities/simple_dtw.hpp
+++ b/include/arc_utilities/simple_dtw.hpp
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 
 #include <Eigen/Geometry>
+#include <algorithm>
 #include <functional>
 #include <iostream>
 #include <mutex>
@@ -54,19 +55,12 @@ class SimpleDTW {
       for (ssize_t j = 1; j <= (ssize_t)second_sequence.size(); j++) {
         const SecondDatatype& second_item = second_sequence[(size_t)j - 1];
         const double index_cost = distance_fn(first_item, second_item);
-        double prev_cost = 0.0;
         // Get the three neighboring values from the matrix to use for the update
         double im1j = dtw_matrix_(i - 1, j);
         double im1jm1 = dtw_matrix_(i - 1, j - 1);
         double ijm1 = dtw_matrix_(i, j - 1);
         // Start the update step
-        if (im1j < im1jm1 && im1j < ijm1) {
-          prev_cost = im1j;
-        } else if (ijm1 < im1j && ijm1 < im1jm1) {
-          prev_cost = ijm1;
-        } else {
-          prev_cost = im1jm1;
-        }
+        const double prev_cost = std::min(im1jm1, std::min(im1j, ijm1));
         // Update the value in the matrix
         const double new_cost = index_cost + prev_cost;
         dtw_matrix_(i, j) = new_cost;
-- 
2.43.0


From 39e490b4a8450ee97b92d1fb5476bfcf313ff2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:04 +0000
Subject: [PATCH 24/87] fix: DTW of an empty and a non-empty sequence does not
 depend on earlier use of the evaluator

---
 include/arc_utilities/simple_dtw.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/arc_utilities/simple_dtw.hpp b/include/arc_utilities/simple_dtw.hpp
index 36d4175..4429f2e 100644
--- a/include/arc_utilities/simple_dtw.hpp
+++ b/include/arc_utilities/simple_dtw.hpp
@@ -25,13 +25,11 @@ class SimpleDTW {
     const ssize_t cols = (ssize_t)second_sequence_size + 1;
     if (dtw_matrix_.rows() < rows || dtw_matrix_.cols() < cols) {
       dtw_matrix_ = Eigen::MatrixXd::Zero(rows, cols);
-      if (rows > 1 && cols > 1) {
-        for (ssize_t row = 1; row < rows; row++) {
-          dtw_matrix_(row, 0) = std::numeric_limits<double>::infinity();
-        }
-        for (ssize_t col = 1; col < cols; col++) {
-          dtw_matrix_(0, col) = std::numeric_limits<double>::infinity();
-        }
+      for (ssize_t row = 1; row < rows; row++) {
+        dtw_matrix_(row, 0) = std::numeric_limits<double>::infinity();
+      }
+      for (ssize_t col = 1; col < cols; col++) {
+        dtw_matrix_(0, col) = std::numeric_limits<double>::infinity();
       }
     }
   }
-- 
2.43.0


From b029732009e944fba9e44f4fbf0e4019238fbcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 25/87] fix: UpsamplePathPartial returned the whole path when
 there was nothing to insert

---
 include/arc_utilities/path_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/path_utils.hpp b/include/arc_utilities/path_utils.hpp
index b31fa13..f38181c 100644
--- a/include/arc_utilities/path_utils.hpp
+++ b/include/arc_utilities/path_utils.hpp
@@ -167,7 +167,7 @@ inline std::vector<Configuration, ConfigAlloc> UpsamplePathPartial(const std::ve
 
   // Return early with no message if the number of points already matches
   if (end_ind - start_ind == num_points) {
-    return path;
+    return std::vector<Configuration, ConfigAlloc>(path.begin() + start_ind, path.begin() + end_ind);
   }
   // Abort with a warning if the number of points is already too many
   else if (end_ind - start_ind > num_points) {
@@ -175,7 +175,7 @@ inline std::vector<Configuration, ConfigAlloc> UpsamplePathPartial(const std::ve
                  "number of points\n"
               << "Start ind: " << start_ind << "    End ind: " << end_ind << "    Num points: " << num_points
               << std::endl;
-    return path;
+    return std::vector<Configuration, ConfigAlloc>(path.begin() + start_ind, path.begin() + end_ind);
   } else {
     const ssize_t num_segments = end_ind - start_ind - 1;
     assert(num_segments > 0);
-- 
2.43.0


From ddfc1fede63f86734260a0d98286d92c76f18394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:03 +0000
Subject: [PATCH 26/87] fix: signed distance between continuous angles has the
 sign of the rotation across +-pi

---
 include/arc_utilities/math_helpers.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/arc_utilities/math_helpers.hpp b/include/arc_utilities/math_helpers.hpp
index 4f81a18..ab69612 100644
--- a/include/arc_utilities/math_helpers.hpp
+++ b/include/arc_utilities/math_helpers.hpp
@@ -177,14 +177,10 @@ inline double ContinuousRevoluteSignedDistance(const double p1, const double p2)
   const double real_p1 = EnforceContinuousRevoluteBounds(p1);
   const double real_p2 = EnforceContinuousRevoluteBounds(p2);
   const double raw_distance = real_p2 - real_p1;
-  if ((raw_distance <= -M_PI) || (raw_distance > M_PI)) {
-    if (raw_distance <= -M_PI) {
-      return (-(2.0 * M_PI) - raw_distance);
-    } else if (raw_distance > M_PI) {
-      return ((2.0 * M_PI) - raw_distance);
-    } else {
-      return raw_distance;
-    }
+  if (raw_distance <= -M_PI) {
+    return raw_distance + (2.0 * M_PI);
+  } else if (raw_distance > M_PI) {
+    return raw_distance - (2.0 * M_PI);
   } else {
     return raw_distance;
   }
-- 
2.43.0


From 09f922885f1e39153e11873e658a24edebb055be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:48 +0000
Subject: [PATCH 27/87] fix: dividing an integer vector by a scalar truncated
 exact quotients

---
 include/arc_utilities/vector_math.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/vector_math.hpp b/include/arc_utilities/vector_math.hpp
index fb14a89..fbd1349 100644
--- a/include/arc_utilities/vector_math.hpp
+++ b/include/arc_utilities/vector_math.hpp
@@ -87,8 +87,12 @@ inline std::vector<T> Multiply(const std::vector<T>& vec1, const std::vector<T>&
 
 template <typename T1, typename T2>
 inline std::vector<T1> Divide(const std::vector<T1>& vec, const T2 scalar) {
-  const double inv_scalar = 1.0 / scalar;
-  return Multiply(vec, inv_scalar);
+  std::vector<T1> divided(vec.size(), 0.0);
+  for (size_t idx = 0; idx < divided.size(); idx++) {
+    const double element = vec[idx];
+    divided[idx] = element / scalar;
+  }
+  return divided;
 }
 
 template <typename T>
-- 
2.43.0


From 0e11a99b72ed3d5a279e1e063edb8700d34e5901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:48 +0000
Subject: [PATCH 28/87] fix: adding vectors of anything but double did not
 compile

---
 include/arc_utilities/vector_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/vector_math.hpp b/include/arc_utilities/vector_math.hpp
index fbd1349..eff380b 100644
--- a/include/arc_utilities/vector_math.hpp
+++ b/include/arc_utilities/vector_math.hpp
@@ -120,7 +120,7 @@ inline std::vector<T1> Add(const std::vector<T1>& vec, const T2 scalar) {
 }
 
 template <typename T>
-inline std::vector<double> Add(const std::vector<T>& vec1, const std::vector<T>& vec2) {
+inline std::vector<T> Add(const std::vector<T>& vec1, const std::vector<T>& vec2) {
   if (vec1.size() == vec2.size()) {
     std::vector<T> added(vec1.size(), 0.0);
     for (size_t idx = 0; idx < added.size(); idx++) {
-- 
2.43.0


From 110a5e0fa0b1a28f6b0e11902ddf2cc23c79cb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:48 +0000
Subject: [PATCH 29/87] fix: distance between (nearly) equal rotation matrices
 was NaN

---
 include/arc_utilities/eigen_helpers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index cfd2ab7..a78d153 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -347,7 +347,8 @@ inline double Distance(const Eigen::Quaterniond& q1, const Eigen::Quaterniond& q
 inline double Distance(const Eigen::Matrix3d& r1, const Eigen::Matrix3d& r2) {
   const auto delta = r1 * r2.transpose();
   const auto tr = delta.trace();
-  return acos((tr - 1.0) / 2.0);
+  // Rounding can bring the cosine slightly outside of its range
+  return acos(std::max(-1.0, std::min((tr - 1.0) / 2.0, 1.0)));
 }
 
 inline double Distance(const Eigen::Isometry3d& t1, const Eigen::Isometry3d& t2, const double alpha = 0.5) {
-- 
2.43.0


From 65a4dd33f411527b08dcdbf522b0af3c8b648c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:48 +0000
Subject: [PATCH 30/87] fix: ConvertConeToPyramid of a cone along the diagonal

---
 include/arc_utilities/eigen_helpers.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index a78d153..ebb128a 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -913,6 +913,11 @@ inline VectorVector3d ConvertConeToPyramid(const Eigen::Vector3d& cone_direction
   tmp += VectorRejection(cone_direction, Eigen::Vector3d::UnitY());
   tmp += VectorRejection(cone_direction, Eigen::Vector3d::UnitZ());
 
+  // The three rejections cancel out for a cone along the diagonal, but not each of them alone
+  if (tmp.norm() <= 1e-6) {
+    tmp = VectorRejection(cone_direction, Eigen::Vector3d::UnitX());
+  }
+
   assert(tmp.norm() > 1e-6);
   tmp.normalize();
 
-- 
2.43.0


From 30592bb89aad75916312d8fa04a17c852dbe2933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:48 +0000
Subject: [PATCH 31/87] fix: DistanceToLine lost precision (and failed its own
 check) far from the origin

---
 include/arc_utilities/eigen_helpers.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index ebb128a..4d36c0f 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -891,8 +891,7 @@ inline std::pair<double, double> DistanceToLine(const Eigen::Vector3d& point_on_
 
   const auto delta = x - point_on_line;
   const double displacement_along_line = real_unit_vector.dot(delta);
-  const auto x_projected_onto_line = point_on_line + real_unit_vector * displacement_along_line;
-  const double distance_to_line = (x_projected_onto_line - x).norm();
+  const double distance_to_line = (delta - real_unit_vector * displacement_along_line).norm();
 
   // A simple neccescary (but not sufficient) check to look for math errors
   assert(IsApprox(distance_to_line * distance_to_line + displacement_along_line * displacement_along_line,
-- 
2.43.0


From 0e313e8d0b87354b27849ab152f79e31dcf17139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:42 +0000
Subject: [PATCH 32/87] fix: TwistBetweenTransforms did not compile

---
 include/arc_utilities/eigen_helpers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index 4d36c0f..6b28c95 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -213,7 +213,7 @@ inline Eigen::Matrix<double, 6, 1> TwistBetweenTransforms(const Eigen::Transform
                                                           const Eigen::Transform<double, 3, _Mode>& end) {
   EIGEN_STATIC_ASSERT(_Mode == Eigen::Affine || _Mode == Eigen::Isometry,
                       "THIS FUNCTION IS ONLY INTENDED FOR HOMOGENEOUS TRANSFORMS!!!");
-  const Eigen::Transform<double, 3, _Mode> t_diff = start.inverse(_Mode) * end;
+  const Eigen::Transform<double, 3, _Mode> t_diff = start.inverse((Eigen::TransformTraits)_Mode) * end;
   return TwistUnhat(t_diff.matrix().log());
 }
 
-- 
2.43.0


From 9667a7fdb8239048dac6d804a4344b0b28801a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:01 +0000
Subject: [PATCH 33/87] fix: kinematics headers include the rotation helper
 they use

---
 include/arc_utilities/iiwa_14_fk_fast.hpp | 1 +
 include/arc_utilities/iiwa_7_fk_fast.hpp  | 1 +
 include/arc_utilities/ur_10_fk_fast.hpp   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/arc_utilities/iiwa_14_fk_fast.hpp b/include/arc_utilities/iiwa_14_fk_fast.hpp
index 8333696..974fd50 100644
--- a/include/arc_utilities/iiwa_14_fk_fast.hpp
+++ b/include/arc_utilities/iiwa_14_fk_fast.hpp
@@ -4,6 +4,7 @@
 
 #include <Eigen/Geometry>
 #include <arc_utilities/arc_helpers.hpp>
+#include <arc_utilities/eigen_helpers.hpp>
 #include <arc_utilities/eigen_typedefs.hpp>
 #include <map>
 #include <vector>
diff --git a/include/arc_utilities/iiwa_7_fk_fast.hpp b/include/arc_utilities/iiwa_7_fk_fast.hpp
index 1b58328..06d0b1c 100644
--- a/include/arc_utilities/iiwa_7_fk_fast.hpp
+++ b/include/arc_utilities/iiwa_7_fk_fast.hpp
@@ -4,6 +4,7 @@
 
 #include <Eigen/Geometry>
 #include <arc_utilities/arc_helpers.hpp>
+#include <arc_utilities/eigen_helpers.hpp>
 #include <arc_utilities/eigen_typedefs.hpp>
 #include <map>
 #include <vector>
diff --git a/include/arc_utilities/ur_10_fk_fast.hpp b/include/arc_utilities/ur_10_fk_fast.hpp
index 36c1547..153502d 100644
--- a/include/arc_utilities/ur_10_fk_fast.hpp
+++ b/include/arc_utilities/ur_10_fk_fast.hpp
@@ -4,6 +4,7 @@
 
 #include <Eigen/Geometry>
 #include <arc_utilities/arc_helpers.hpp>
+#include <arc_utilities/eigen_helpers.hpp>
 #include <arc_utilities/eigen_typedefs.hpp>
 #include <map>
 #include <vector>
-- 
2.43.0


From abeba3038796cc3dba657474afc7c4ae10821783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 34/87] fix: updating the base transform of a linked robot
 updates its inverse

---
 include/arc_utilities/simple_linked_robot_model.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 89097c0..8c2e39f 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -617,6 +617,7 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
 
   inline void UpdateBaseTransform(const Eigen::Isometry3d& base_transform) {
     base_transform_ = base_transform;
+    inverse_base_transform_ = base_transform_.inverse();
     UpdateTransforms();
   }
 
-- 
2.43.0


From ba6c72e6857f516cadf566aa54e5ccdf82968cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 35/87] fix: forward kinematics of linked robots whose joints
 are not listed parent first

---
 include/arc_utilities/simple_linked_robot_model.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 8c2e39f..93b2f28 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -332,10 +332,15 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
   inline void UpdateTransforms() {
     // Update the transform for the first link
     links_[0].UpdateLinkTransform(base_transform_);
-    // Go out the kinematic chain
-    for (size_t idx = 0; idx < joints_.size(); idx++) {
+    // Go out the kinematic chain from the root, joints need not be listed in that order
+    std::vector<int64_t> joint_order = kinematic_skeleton_[0].child_joint_indices_;
+    for (size_t idx = 0; idx < joint_order.size(); idx++) {
       // Get the current joint
-      const RobotJoint& current_joint = joints_[idx];
+      const RobotJoint& current_joint = joints_[(size_t)joint_order[idx]];
+      // Continue with the joints of the child link
+      const std::vector<int64_t>& child_joints =
+          kinematic_skeleton_[(size_t)current_joint.ChildLinkIndex()].child_joint_indices_;
+      joint_order.insert(joint_order.end(), child_joints.begin(), child_joints.end());
       // Get the parent link
       const RobotLink& parent_link = links_[(size_t)current_joint.ParentLinkIndex()];
       // Get the child link
-- 
2.43.0


From 9b58b46c8324f0f6dd5585d50e55109d66b3674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 36/87] fix: Jacobian of prismatic joints is the joint axis,
 not a transformed point

---
 include/arc_utilities/simple_linked_robot_model.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 93b2f28..b66c2e5 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -839,7 +839,7 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
         jacobian.block<3, 1>(0, active_joint_index) = joint_axis.cross(world_point - joint_transform.translation());
         jacobian.block<3, 1>(3, active_joint_index) = joint_axis;
       } else if (parent_joint.JointModel().IsPrismatic()) {
-        const Eigen::Vector3d joint_axis = (Eigen::Vector3d)(joint_transform * parent_joint.JointAxis());
+        const Eigen::Vector3d joint_axis = (Eigen::Vector3d)(joint_transform.rotation() * parent_joint.JointAxis());
         jacobian.block<3, 1>(0, active_joint_index) = joint_axis;
       } else {
         // We do nothing for fixed joints
-- 
2.43.0


From f2aa684b25ac5ebaa99a36ab83ad74d823924ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 37/87] fix: reject linked robots with joints between links
 that do not exist

---
 include/arc_utilities/simple_linked_robot_model.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index b66c2e5..5b9cd83 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -554,6 +554,11 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
       // Add the edge into the kinematic skeleton
       const int64_t parent_link_index = current_joint.ParentLinkIndex();
       const int64_t child_link_index = current_joint.ChildLinkIndex();
+      if (parent_link_index < 0 || parent_link_index >= (int64_t)links.size() || child_link_index < 0 ||
+          child_link_index >= (int64_t)links.size()) {
+        std::cerr << "Joint " << current_joint.JointName() << " refers to a link that does not exist" << std::endl;
+        return std::make_pair(std::vector<KinematicSkeletonElement>(), false);
+      }
       // Set the child->parent relationship
       kinematic_skeleton[(size_t)child_link_index].parent_link_index_ = parent_link_index;
       kinematic_skeleton[(size_t)child_link_index].parent_joint_index_ = joint_idx;
-- 
2.43.0


From 34797990121e97902da86ebe527af0be8fc0804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 38/87] fix: a linked robot can be set to the configuration it
 returned

---
 include/arc_utilities/simple_linked_robot_model.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 5b9cd83..1405daa 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -373,7 +373,9 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
 
   inline void SetConfig(const SimpleLinkedConfiguration& new_config) {
     if (new_config.size() == num_active_joints_) {
-      config_.clear();
+      // new_config may be our own config_
+      SimpleLinkedConfiguration updated_config;
+      updated_config.reserve(num_active_joints_);
       size_t config_idx = 0u;
       for (size_t idx = 0; idx < joints_.size(); idx++) {
         RobotJoint& current_joint = joints_[idx];
@@ -384,13 +386,14 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
           if (config_idx < new_config.size()) {
             const SimpleJointModel& new_joint = new_config[config_idx];
             current_joint.JointModel().SetValue(new_joint.GetValue());
-            config_.push_back(current_joint.JointModel());
+            updated_config.push_back(current_joint.JointModel());
             config_idx++;
           } else {
             throw std::runtime_error("config_idx out of range");
           }
         }
       }
+      config_ = updated_config;
       // Update forward kinematics
       UpdateTransforms();
     } else {
-- 
2.43.0


From ba07b953677b75ac200a1bf6dce3c22c315430b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 39/87] fix: reject linked robots with NaN joint axes

---
 include/arc_utilities/simple_linked_robot_model.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 1405daa..458a176 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -550,7 +550,7 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
       // Check the joint axes
       const double joint_axis_norm = current_joint.JointAxis().norm();
       const double error = std::abs(joint_axis_norm - 1.0);
-      if (error > std::numeric_limits<double>::epsilon()) {
+      if (!(error <= std::numeric_limits<double>::epsilon())) {
         std::cerr << "Joint axis is not a unit vector" << std::endl;
         return std::make_pair(std::vector<KinematicSkeletonElement>(), false);
       }
-- 
2.43.0


From fe0b5148d2cdef1a91dcecfb1d4a94793453df2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 40/87] fix: accept joint axes that were normalized up to
 rounding errors

---
 include/arc_utilities/simple_linked_robot_model.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 458a176..189a9b6 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -550,7 +550,8 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
       // Check the joint axes
       const double joint_axis_norm = current_joint.JointAxis().norm();
       const double error = std::abs(joint_axis_norm - 1.0);
-      if (!(error <= std::numeric_limits<double>::epsilon())) {
+      // Normalizing a vector leaves a few rounding errors
+      if (!(error <= 16.0 * std::numeric_limits<double>::epsilon())) {
         std::cerr << "Joint axis is not a unit vector" << std::endl;
         return std::make_pair(std::vector<KinematicSkeletonElement>(), false);
       }
-- 
2.43.0


From c4b58d647dcd0c1ec964b1c33e410f26ac4dad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:37 +0000
Subject: [PATCH 41/87] fix: SE2 and SE3 robot models compile again
 (serialization of configurations)

---
 include/arc_utilities/simple_se2_robot_model.hpp | 5 +++--
 include/arc_utilities/simple_se3_robot_model.hpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/simple_se2_robot_model.hpp b/include/arc_utilities/simple_se2_robot_model.hpp
index 4640fea..36c7c0c 100644
--- a/include/arc_utilities/simple_se2_robot_model.hpp
+++ b/include/arc_utilities/simple_se2_robot_model.hpp
@@ -4,6 +4,7 @@
 #include <arc_utilities/arc_helpers.hpp>
 #include <arc_utilities/eigen_helpers.hpp>
 #include <arc_utilities/pretty_print.hpp>
+#include <arc_utilities/serialization_eigen.hpp>
 #include <arc_utilities/simple_robot_model_interface.hpp>
 #include <map>
 #include <random>
@@ -21,12 +22,12 @@ class SimpleSE2ConfigSerializer {
   static inline std::string TypeName() { return std::string("EigenMatrixD31Serializer"); }
 
   static inline uint64_t Serialize(const SimpleSE2Configuration& value, std::vector<uint8_t>& buffer) {
-    return EigenHelpers::Serialize(value, buffer);
+    return arc_utilities::SerializeEigen(value, buffer);
   }
 
   static inline std::pair<SimpleSE2Configuration, uint64_t> Deserialize(const std::vector<uint8_t>& buffer,
                                                                         const uint64_t current) {
-    return EigenHelpers::Deserialize<Eigen::Matrix<double, 3, 1>>(buffer, current);
+    return arc_utilities::DeserializeEigen<Eigen::Matrix<double, 3, 1>>(buffer, current);
   }
 };
 
diff --git a/include/arc_utilities/simple_se3_robot_model.hpp b/include/arc_utilities/simple_se3_robot_model.hpp
index ae153ad..0c2491d 100644
--- a/include/arc_utilities/simple_se3_robot_model.hpp
+++ b/include/arc_utilities/simple_se3_robot_model.hpp
@@ -4,6 +4,7 @@
 #include <arc_utilities/arc_helpers.hpp>
 #include <arc_utilities/eigen_helpers.hpp>
 #include <arc_utilities/pretty_print.hpp>
+#include <arc_utilities/serialization_eigen.hpp>
 #include <arc_utilities/simple_robot_model_interface.hpp>
 #include <map>
 #include <random>
@@ -21,12 +22,12 @@ class SimpleSE3ConfigSerializer {
   static inline std::string TypeName() { return std::string("EigenIsometry3dSerializer"); }
 
   static inline uint64_t Serialize(const SimpleSE3Configuration& value, std::vector<uint8_t>& buffer) {
-    return EigenHelpers::Serialize(value, buffer);
+    return arc_utilities::SerializeEigen(value, buffer);
   }
 
   static inline std::pair<SimpleSE3Configuration, uint64_t> Deserialize(const std::vector<uint8_t>& buffer,
                                                                         const uint64_t current) {
-    return EigenHelpers::Deserialize<Eigen::Isometry3d>(buffer, current);
+    return arc_utilities::DeserializeEigen<Eigen::Isometry3d>(buffer, current);
   }
 };
 
-- 
2.43.0


From 8e8267b3c39f7d128f63a87686edac22313cb79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:16 +0000
Subject: [PATCH 42/87] fix: robot models with geometry compile (missing
 header)

---
 include/arc_utilities/simple_robot_models.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/simple_robot_models.hpp b/include/arc_utilities/simple_robot_models.hpp
index 71f50ed..a7c4234 100644
--- a/include/arc_utilities/simple_robot_models.hpp
+++ b/include/arc_utilities/simple_robot_models.hpp
@@ -9,6 +9,7 @@
 #include <arc_utilities/simple_se2_robot_model.hpp>
 #include <arc_utilities/simple_se3_robot_model.hpp>
 #include <map>
+#include <memory>
 #include <random>
 #include <vector>
 
-- 
2.43.0


From dd28f957770d6818120786373c2f0ca9d0d10b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 43/87] fix: time optimal trajectories looked at a switching
 point past the last one

---
 src/arc_utilities/time_optimal_trajectory_parametrization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
index ab1ee4b..0beb280 100644
--- a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
@@ -479,7 +479,7 @@ bool Trajectory::IntegrateForward(std::list<TrajectoryStep>& trajectory, const d
       }
       trajectory.push_back(TrajectoryStep(before, before_path_vel));
       if (GetAccelerationMaxPathVelocity(after) < GetVelocityMaxPathVelocity(after)) {
-        if (after > next_discontinuity->first) {
+        if ((next_discontinuity != switching_points.end()) && (after > next_discontinuity->first)) {
           return false;
         } else if (GetMinMaxPhaseSlope(trajectory.back().path_pos_, trajectory.back().path_vel_, true) >
                    GetAccelerationMaxPathVelocityDeriv(trajectory.back().path_pos_)) {
-- 
2.43.0


From 0f3ed43f1b34cdb02e4af791d9365137b53ef358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 44/87] fix: assigning a Path deleted its segments twice

---
 .../time_optimal_trajectory_parametrization.hpp           | 2 ++
 .../time_optimal_trajectory_parametrization.cpp           | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/arc_utilities/time_optimal_trajectory_parametrization.hpp b/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
index 3ef54ab..a373118 100644
--- a/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
+++ b/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
@@ -41,6 +41,8 @@ class Path {
 
   Path(const Path& path);
 
+  Path& operator=(const Path& path);
+
   ~Path();
 
   double Length() const;
diff --git a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
index 0beb280..80662ca 100644
--- a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
@@ -161,6 +161,14 @@ Path::Path(const Path& path) : length_(path.length_), switching_points_(path.swi
   }
 }
 
+Path& Path::operator=(const Path& path) {
+  Path copy(path);
+  length_ = copy.length_;
+  switching_points_.swap(copy.switching_points_);
+  path_segments_.swap(copy.path_segments_);
+  return *this;
+}
+
 Path::~Path() {
   for (std::list<PathSegment*>::iterator it = path_segments_.begin(); it != path_segments_.end(); it++) {
     delete *it;
-- 
2.43.0


From 54f0cec58443e43534b445e20fc384980cd6ac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:11 +0000
Subject: [PATCH 45/87] fix: copies of a trajectory used the segments of the
 original

---
 .../time_optimal_trajectory_parametrization.hpp          | 3 +++
 .../time_optimal_trajectory_parametrization.cpp          | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/arc_utilities/time_optimal_trajectory_parametrization.hpp b/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
index a373118..ebbcd33 100644
--- a/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
+++ b/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
@@ -76,6 +76,9 @@ class Trajectory {
   Trajectory(const Path& path_, const Eigen::VectorXd& max_velocity_, const Eigen::VectorXd& max_acceleration_,
              double timestep = 0.001);
 
+  // The cached trajectory segment belongs to the copied trajectory and is not taken over
+  Trajectory(const Trajectory& other);
+
   ~Trajectory(void);
 
   // Returns the optimal duration of the trajectory
diff --git a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
index 80662ca..7f39dba 100644
--- a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
@@ -289,6 +289,15 @@ Trajectory::Trajectory(const Path& path, const Eigen::VectorXd& max_velocity, co
   }
 }
 
+Trajectory::Trajectory(const Trajectory& other)
+    : path_(other.path_),
+      max_velocity_(other.max_velocity_),
+      max_acceleration_(other.max_acceleration_),
+      n_(other.n_),
+      trajectory_(other.trajectory_),
+      time_step_(other.time_step_),
+      cached_time_(std::numeric_limits<double>::max()) {}
+
 Trajectory::~Trajectory(void) {}
 
 void Trajectory::OutputPhasePlaneTrajectory() const {
-- 
2.43.0


From ad3492b11e32ff6e6e8c66dcd980a94b8d0dae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:16 +0000
Subject: [PATCH 46/87] fix: profiler reports about no names dereferenced the
 end of the list

---
 src/arc_utilities/timing.cpp | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index cce5239..cb3e518 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -126,19 +126,22 @@ void Profiler::printSingleSummary(std::string name) {
   std::cout << "\n";
 }
 
+// Width of the label column: the longest name and a gap
+static std::size_t getLabelLength(const std::vector<std::string>& names) {
+  std::size_t label_len = 8;
+  for (const auto& name : names) {
+    label_len = std::max(label_len, name.length() + 2);
+  }
+  return label_len;
+}
+
 void Profiler::printGroupSummary(const std::vector<std::string>& names) {
   Profiler* m = getInstance();
   std::cout << " .=======================. \n";
   std::cout << "||    Profile Summary    ||\n";
   std::cout << " '=======================' \n";
 
-  std::size_t label_len =
-      max_element(names.begin(), names.end(),
-                  [](const std::string& a, const std::string& b) { return a.length() < b.length(); })
-          ->length() +
-      2;
-
-  label_len = std::max(label_len, (size_t)8);
+  const std::size_t label_len = getLabelLength(names);
 
   const std::string label_format = ("%-" + std::to_string(label_len) + "s");
 
@@ -218,13 +221,7 @@ void Profiler::writeGroupSummary(const std::string& filename, const std::vector<
   // std::cout << "||    Profile Summary    ||\n";
   // std::cout << " '=======================' \n";
 
-  std::size_t label_len =
-      max_element(names.begin(), names.end(),
-                  [](const std::string& a, const std::string& b) { return a.length() < b.length(); })
-          ->length() +
-      2;
-
-  label_len = std::max(label_len, (size_t)8);
+  const std::size_t label_len = getLabelLength(names);
 
   const std::string label_format = ("%-" + std::to_string(label_len) + "s");
 
@@ -299,13 +296,7 @@ void Profiler::writeAll(const std::string& filename, size_t limit_per_name) {
 
   std::sort(all_names.begin(), all_names.end());
 
-  std::size_t label_len =
-      max_element(all_names.begin(), all_names.end(),
-                  [](const std::string& a, const std::string& b) { return a.length() < b.length(); })
-          ->length() +
-      2;
-
-  label_len = std::max(label_len, (size_t)8);
+  const std::size_t label_len = getLabelLength(all_names);
 
   const std::string label_format = ("%-" + std::to_string(label_len) + "s");
   fprintf(outfile, label_format.c_str(), "Label");
-- 
2.43.0


From 8049794e5387e180b396aff0af04dab42b1844c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:16 +0000
Subject: [PATCH 47/87] fix: profiler summary of a name without data (after a
 reset) dereferenced its end

---
 src/arc_utilities/timing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index cb3e518..b8b049f 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -104,7 +104,7 @@ void Profiler::printSingleSummary(std::string name) {
   std::cout << "|| " << name << " || Summary :\n";
   std::cout << " '" << box << "' "
             << "\n";
-  if (m->data.find(name) == m->data.end()) {
+  if (m->data.find(name) == m->data.end() || m->data[name].empty()) {
     std::cout << name << " never called\n\n";
     return;
   }
-- 
2.43.0


From c00dcbec7100cfd24eb1c79f5cd5dd9c48475f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:16 +0000
Subject: [PATCH 48/87] fix: profiler reported names with times and values
 twice

---
 src/arc_utilities/timing.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index b8b049f..9de69a8 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -190,6 +190,7 @@ std::vector<std::string> Profiler::getAllNames() {
   }
 
   std::sort(all_names.begin(), all_names.end());
+  all_names.erase(std::unique(all_names.begin(), all_names.end()), all_names.end());
   return all_names;
 }
 
@@ -295,6 +296,7 @@ void Profiler::writeAll(const std::string& filename, size_t limit_per_name) {
   }
 
   std::sort(all_names.begin(), all_names.end());
+  all_names.erase(std::unique(all_names.begin(), all_names.end()), all_names.end());
 
   const std::size_t label_len = getLabelLength(all_names);
 
-- 
2.43.0


From 68a9744768277c35667dfcbbc9032c468a4b997d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:16 +0000
Subject: [PATCH 49/87] fix: resetting a profiler name keeps its recorded
 values

---
 src/arc_utilities/timing.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index 9de69a8..6c54511 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -38,6 +38,10 @@ void Profiler::reset(std::string name) {
     m->data[name].resize(0);
     startTimer(name);
   }
+  if (m->timed_double_data.find(name) != m->timed_double_data.end()) {
+    m->timed_double_data[name].resize(0);
+    startTimer(name);
+  }
 }
 
 void Profiler::addData(std::string name, double datum) {
-- 
2.43.0


From 9c9ec75d4cd7073d84734bd344006c63776ca1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:16 +0000
Subject: [PATCH 50/87] fix: profiler reports to a file that cannot be opened
 wrote to a null file

---
 src/arc_utilities/timing.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index 6c54511..e14503e 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -3,6 +3,7 @@
 #include <algorithm>
 #include <cstdio>
 #include <iostream>
+#include <stdexcept>
 
 namespace arc_utilities {
 double GlobalStopwatch(const StopwatchControl control) {
@@ -218,6 +219,9 @@ void addHeader(FILE* outfile) {
 void Profiler::writeGroupSummary(const std::string& filename, const std::vector<std::string>& names) {
   FILE* outfile;
   outfile = std::fopen(filename.c_str(), "a+");
+  if (outfile == NULL) {
+    throw std::runtime_error("Could not open " + filename);
+  }
 
   addHeader(outfile);
 
@@ -288,6 +292,9 @@ void Profiler::writeAll(const std::string& filename, size_t limit_per_name) {
 
   FILE* outfile;
   outfile = std::fopen(filename.c_str(), "a+");
+  if (outfile == NULL) {
+    throw std::runtime_error("Could not open " + filename);
+  }
 
   addHeader(outfile);
 
-- 
2.43.0


From b774577820855214f0bbea37f4271d9f27a51bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:37 +0000
Subject: [PATCH 51/87] fix: logs in the current directory could not be opened

---
 include/arc_utilities/log.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/log.hpp b/include/arc_utilities/log.hpp
index c6dc7b3..14a76a8 100644
--- a/include/arc_utilities/log.hpp
+++ b/include/arc_utilities/log.hpp
@@ -32,7 +32,9 @@ class Log {
   Log(const std::string& filename, bool add_header = false) : filename_(filename) {
     // Create the parent folder if needed
     boost::filesystem::path p(filename_);
-    arc_utilities::CreateDirectory(p.parent_path());
+    if (p.has_parent_path()) {
+      arc_utilities::CreateDirectory(p.parent_path());
+    }
 
     out_file_.open(filename, std::ios_base::out | std::ios_base::trunc);
     // check if we've succesfully opened the file
-- 
2.43.0


From c4a63267ce1559295292d02d2244f9c65b63d3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:37 +0000
Subject: [PATCH 52/87] fix: a log overwrote the messages of its copies

---
 include/arc_utilities/log.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/arc_utilities/log.hpp b/include/arc_utilities/log.hpp
index 14a76a8..6681bb9 100644
--- a/include/arc_utilities/log.hpp
+++ b/include/arc_utilities/log.hpp
@@ -37,6 +37,11 @@ class Log {
     }
 
     out_file_.open(filename, std::ios_base::out | std::ios_base::trunc);
+    // Copies of this log append to the same file: append as well instead of overwriting their messages
+    if (out_file_.is_open()) {
+      out_file_.close();
+      out_file_.open(filename, std::ios_base::out | std::ios_base::app);
+    }
     // check if we've succesfully opened the file
     if (!out_file_.is_open()) {
       std::cerr << "\x1b[31;1m Unable to create folder/file to log to: " << filename << "\x1b[37m \n";
-- 
2.43.0


From e02f79ab48207747e42eebc0dd4adee478080f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:40 +0000
Subject: [PATCH 53/87] fix: resetting a profiler name keeps its recorded
 values (compiles)

---
 src/arc_utilities/timing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index e14503e..d850c9e 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -40,7 +40,7 @@ void Profiler::reset(std::string name) {
     startTimer(name);
   }
   if (m->timed_double_data.find(name) != m->timed_double_data.end()) {
-    m->timed_double_data[name].resize(0);
+    m->timed_double_data[name].clear();
     startTimer(name);
   }
 }
-- 
2.43.0


From c7a84ca31b1b544b9e747dcac81d24ec05e45994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:11 +0000
Subject: [PATCH 54/87] fix: asking the profiler for the times of a name hid
 its values in reports

---
 src/arc_utilities/timing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index d850c9e..4b2da2f 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -98,7 +98,8 @@ double Profiler::recordDouble(std::string timer_name, double datum) {
 
 std::vector<double> Profiler::getData(std::string name) {
   Profiler* m = getInstance();
-  return m->data[name];
+  const auto found = m->data.find(name);
+  return found != m->data.end() ? found->second : std::vector<double>();
 }
 
 void Profiler::printSingleSummary(std::string name) {
-- 
2.43.0


From 5cc03eecb1d565107db61359c728830f035252d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:42 +0000
Subject: [PATCH 55/87] fix: hash.hpp did not include what it uses

---
 include/arc_utilities/hash.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/arc_utilities/hash.hpp b/include/arc_utilities/hash.hpp
index c9ccc68..6b138c5 100644
--- a/include/arc_utilities/hash.hpp
+++ b/include/arc_utilities/hash.hpp
@@ -1,6 +1,11 @@
 #ifndef ARC_UTILITIES_HASH_HPP
 #define ARC_UTILITIES_HASH_HPP
 
+#include <Eigen/Core>
+#include <complex>
+#include <functional>
+#include <utility>
+
 // http://stackoverflow.com/questions/2590677/how-do-i-combine-hash-values-in-c0x
 template <class T>
 inline void hash_combine(std::size_t& seed, const T& v) {
-- 
2.43.0


From 0142d01141b6179752730d61601b99f4a07ffc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:42 +0000
Subject: [PATCH 56/87] fix: printing a forward_list did not compile

---
 include/arc_utilities/pretty_print.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/pretty_print.hpp b/include/arc_utilities/pretty_print.hpp
index 15d6c76..79547f2 100644
--- a/include/arc_utilities/pretty_print.hpp
+++ b/include/arc_utilities/pretty_print.hpp
@@ -345,7 +345,7 @@ template <typename T, typename Allocator>
 inline std::string PrettyPrint(const std::forward_list<T, Allocator>& listtoprint, const bool add_delimiters,
                                const std::string& separator) {
   std::ostringstream strm;
-  if (listtoprint.size() > 0) {
+  if (!listtoprint.empty()) {
     if (add_delimiters) {
       strm << "[";
       typename std::forward_list<T, Allocator>::const_iterator itr;
-- 
2.43.0


From 5f69e5f558ddf2f0f34736b7a25d738459874a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:34 +0000
Subject: [PATCH 57/87] fix: let nested_dict_update replace a leaf with a
 mapping

---
 src/arc_utilities/algorithms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arc_utilities/algorithms.py b/src/arc_utilities/algorithms.py
index bfec369..ff74a1e 100644
--- a/src/arc_utilities/algorithms.py
+++ b/src/arc_utilities/algorithms.py
@@ -13,7 +13,10 @@ def nested_dict_update(base_dict: Dict, update_dict: Optional[Dict]):
         return base_dict
     for k, v in update_dict.items():
         if isinstance(v, collections.abc.Mapping):
-            base_dict[k] = nested_dict_update(base_dict.get(k, {}), v)
+            base_v = base_dict.get(k)
+            if not isinstance(base_v, collections.abc.Mapping):
+                base_v = {}  # a missing value or a leaf is replaced by the mapping
+            base_dict[k] = nested_dict_update(base_v, v)
         else:
             base_dict[k] = v
     return base_dict
-- 
2.43.0


From a41088440f1e6dd493e6f5fd89d752601de43b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:34 +0000
Subject: [PATCH 58/87] fix: let zip_repeat_shorter take a single list

---
 src/arc_utilities/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/algorithms.py b/src/arc_utilities/algorithms.py
index ff74a1e..d89e612 100644
--- a/src/arc_utilities/algorithms.py
+++ b/src/arc_utilities/algorithms.py
@@ -38,7 +38,7 @@ def repeat_last(x: List):
 
 
 def zip_repeat_shorter(*args):
-    longest_len = max(*[len(x) for x in args])
+    longest_len = max([len(x) for x in args])
     zipped = zip(*[repeat_last(x) for x in args])
     for i in range(longest_len):
         yield next(zipped)
-- 
2.43.0


From f233f73d0d5c06c24fe1b9c2bb360049b489d00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:50 +0000
Subject: [PATCH 59/87] fix: do not follow links when removing a tree

---
 src/arc_utilities/filesystem_utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index fa341d9..b0f8644 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -74,11 +74,15 @@ def count_files_recursive(path):
 
 def rm_tree(path):
     path = pathlib.Path(path)
+    if path.is_symlink():
+        # remove the link only, never what it points at
+        path.unlink()
+        return
     for child in path.glob('*'):
-        if child.is_file():
-            child.unlink()
-        else:
+        if child.is_dir() and not child.is_symlink():
             rm_tree(child)
+        else:
+            child.unlink()
     path.rmdir()
 
 
-- 
2.43.0


From 6027d504b50fdb4f4911f16e0a50f61a299a794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:50 +0000
Subject: [PATCH 60/87] fix: let ask_to_remove_directories take any iterable

---
 src/arc_utilities/filesystem_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index b0f8644..957e9cb 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -46,6 +46,7 @@ def append_str_to_path(p: pathlib.Path, s: str):
 
 
 def ask_to_remove_directories(directories_to_remove: Iterable[pathlib.Path]):
+    directories_to_remove = list(directories_to_remove)  # it is iterated over twice
     print("Ok to delete these directories?")
     for d in directories_to_remove:
         print(d.as_posix())
-- 
2.43.0


From 40273ca81ecff21cb851ebaa7453f712afed1619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:50 +0000
Subject: [PATCH 61/87] fix: do not follow links when counting files

---
 src/arc_utilities/filesystem_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index 957e9cb..4225ac3 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -66,7 +66,7 @@ def count_files_recursive(path):
     count = 0
     path = pathlib.Path(path)
     for child in path.iterdir():
-        if child.is_dir():
+        if child.is_dir() and not child.is_symlink():
             count += count_files_recursive(child)
         else:
             count += 1
-- 
2.43.0


From df625d58e7f669d16dbdd85f310793da09eace50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:50 +0000
Subject: [PATCH 62/87] fix: keep the name of hidden files in no_overwrite_path

---
 src/arc_utilities/filesystem_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index 4225ac3..dcd802f 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -102,7 +102,7 @@ def no_overwrite_path(path):
         if not new_path.exists():
             return new_path
 
-        no_extensions = path.stem.split('.')[0]
         extensions = ''.join(path.suffixes)
+        no_extensions = path.name[:len(path.name) - len(extensions)]
         new_path = path.parent / f"{no_extensions}_v{n}{extensions}"
         n += 1
-- 
2.43.0


From 6f7e0eb4c44d0036cd45a036ec556783dfd592fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:45 +0000
Subject: [PATCH 63/87] fix: let reverse_trajectory take an empty trajectory

---
 src/arc_utilities/path_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arc_utilities/path_utils.py b/src/arc_utilities/path_utils.py
index b9e7a4d..1aaab5c 100644
--- a/src/arc_utilities/path_utils.py
+++ b/src/arc_utilities/path_utils.py
@@ -163,6 +163,8 @@ def path_length(path):
 def reverse_trajectory(trajectory: JointTrajectory):
     reversed_trajectory = deepcopy(trajectory)
     reversed_trajectory.points = deepcopy(trajectory.points[::-1])
+    if len(reversed_trajectory.points) == 0:
+        return reversed_trajectory
     reversed_trajectory.points[0].time_from_start = rospy.Duration(0)
 
     time_from_start = rospy.Duration(0)
-- 
2.43.0


From 1bf33aa74a972cf4225f58ebd4e5afcecde35fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:45 +0000
Subject: [PATCH 64/87] fix: negate the velocities of a reversed trajectory

---
 src/arc_utilities/path_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arc_utilities/path_utils.py b/src/arc_utilities/path_utils.py
index 1aaab5c..fbe5575 100644
--- a/src/arc_utilities/path_utils.py
+++ b/src/arc_utilities/path_utils.py
@@ -171,6 +171,8 @@ def reverse_trajectory(trajectory: JointTrajectory):
     for (pt_next, pt), r_pt in zip(pairwise(trajectory.points[::-1]), reversed_trajectory.points[1:]):
         time_from_start += pt_next.time_from_start - pt.time_from_start
         r_pt.time_from_start = time_from_start
+    for r_pt in reversed_trajectory.points:
+        r_pt.velocities = [-v for v in r_pt.velocities]
     return reversed_trajectory
 
 
-- 
2.43.0


From 89b5080f1d1f124594f7931e292d7225e71203e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:46 +0000
Subject: [PATCH 65/87] fix: let InvertMatrix run

---
 src/arc_utilities/transformation_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/transformation_helper.py b/src/arc_utilities/transformation_helper.py
index 1d81eea..a27a6c6 100644
--- a/src/arc_utilities/transformation_helper.py
+++ b/src/arc_utilities/transformation_helper.py
@@ -152,7 +152,7 @@ def ComposeMatrices(matrix1, matrix2):
 
 
 def InvertMatrix(old_matrix):
-    return np.np.linalg.inv(old_matrix)
+    return np.linalg.inv(old_matrix)
 
 
 def ComposeQuaternions(q1, q2):
-- 
2.43.0


From 32197b136edd2f675b5c903560fb2a5dd0e021cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:46 +0000
Subject: [PATCH 66/87] fix: use both scalar parts in
 AngleBetweenQuaternionsRos

---
 src/arc_utilities/transformation_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/transformation_helper.py b/src/arc_utilities/transformation_helper.py
index a27a6c6..f80ffec 100644
--- a/src/arc_utilities/transformation_helper.py
+++ b/src/arc_utilities/transformation_helper.py
@@ -211,7 +211,7 @@ def AngleBetweenQuaternions(q1, q2):
 def AngleBetweenQuaternionsRos(q1, q2):
     nq1 = NormalizeQuaternionRos(q1)
     nq2 = NormalizeQuaternionRos(q2)
-    dot_product = abs(nq1.x * nq2.x + nq1.y * nq2.y + nq1.z * nq2.z + nq1.z * nq2.w)
+    dot_product = abs(nq1.x * nq2.x + nq1.y * nq2.y + nq1.z * nq2.z + nq1.w * nq2.w)
     if dot_product < 0.9999:
         return np.arccos(2.0 * (dot_product ** 2) - 1.0)
     else:
-- 
2.43.0


From 5f5ff30e459a28195ededdd9d91bde4077f5f53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:46 +0000
Subject: [PATCH 67/87] fix: use the link length in BuildMatrixFromDH

---
 src/arc_utilities/transformation_helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arc_utilities/transformation_helper.py b/src/arc_utilities/transformation_helper.py
index f80ffec..db53950 100644
--- a/src/arc_utilities/transformation_helper.py
+++ b/src/arc_utilities/transformation_helper.py
@@ -393,8 +393,8 @@ def BuildMatrixFromTransRot(trans, rot):
 def BuildMatrixFromDH(d, a, theta, alpha):
     # Do math here
     tfmatrix = np.array([
-        [cos(theta), -sin(theta) * cos(alpha), sin(theta) * sin(alpha), alpha * cos(theta)],
-        [sin(theta), cos(theta) * cos(alpha), -cos(theta) * sin(alpha), alpha * sin(theta)],
+        [cos(theta), -sin(theta) * cos(alpha), sin(theta) * sin(alpha), a * cos(theta)],
+        [sin(theta), cos(theta) * cos(alpha), -cos(theta) * sin(alpha), a * sin(theta)],
         [0.0, sin(alpha), cos(alpha), d], [0.0, 0.0, 0.0, 1.0]])
     return tfmatrix
 
-- 
2.43.0


From 1e81c185903cee409b2bcd55baabec0bb4f1e2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:46 +0000
Subject: [PATCH 68/87] fix: do not report small angles between quaternions as
 zero

---
 src/arc_utilities/transformation_helper.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/arc_utilities/transformation_helper.py b/src/arc_utilities/transformation_helper.py
index db53950..b1ca947 100644
--- a/src/arc_utilities/transformation_helper.py
+++ b/src/arc_utilities/transformation_helper.py
@@ -202,20 +202,16 @@ def AngleBetweenQuaternions(q1, q2):
     nq1 = NormalizeQuaternion(q1)
     nq2 = NormalizeQuaternion(q2)
     dot_product = abs(nq1[0] * nq2[0] + nq1[1] * nq2[1] + nq1[2] * nq2[2] + nq1[3] * nq2[3])
-    if dot_product < 0.9999:
-        return np.arccos(2.0 * (dot_product ** 2) - 1.0)
-    else:
-        return 0.0
+    # rounding must not take the product above one
+    return 2.0 * np.arccos(min(dot_product, 1.0))
 
 
 def AngleBetweenQuaternionsRos(q1, q2):
     nq1 = NormalizeQuaternionRos(q1)
     nq2 = NormalizeQuaternionRos(q2)
     dot_product = abs(nq1.x * nq2.x + nq1.y * nq2.y + nq1.z * nq2.z + nq1.w * nq2.w)
-    if dot_product < 0.9999:
-        return np.arccos(2.0 * (dot_product ** 2) - 1.0)
-    else:
-        return 0
+    # rounding must not take the product above one
+    return 2.0 * np.arccos(min(dot_product, 1.0))
 
 
 '''Assist functions'''
-- 
2.43.0


From 12e60aa9867291482b63ce7c4bf501e7e578cd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:46 +0000
Subject: [PATCH 69/87] fix: let normalize_quaternion take a list

---
 src/arc_utilities/conversions.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/arc_utilities/conversions.py b/src/arc_utilities/conversions.py
index 0753c71..0a0d811 100644
--- a/src/arc_utilities/conversions.py
+++ b/src/arc_utilities/conversions.py
@@ -39,11 +39,7 @@ def normalize_quaternion(quaternion: Union[List[int], Quaternion]):
         return quaternion
     elif isinstance(quaternion, list):
         norm = np.linalg.norm(np.array(quaternion))
-        quaternion.x = quaternion.x / norm
-        quaternion.y = quaternion.y / norm
-        quaternion.z = quaternion.z / norm
-        quaternion.w = quaternion.w / norm
-        return quaternion
+        return [component / norm for component in quaternion]
     else:
         raise NotImplementedError()
 
-- 
2.43.0


From c82ae2c94c0386b9065551d149a4404c0667d3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 70/87] fix: let interpolate_hot_to_cold end at red

---
 src/arc_utilities/color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/color.py b/src/arc_utilities/color.py
index c6e392e..aec8c69 100644
--- a/src/arc_utilities/color.py
+++ b/src/arc_utilities/color.py
@@ -202,7 +202,7 @@ def interpolate_hot_to_cold(value, min_value=0.0, max_value=1.0):
         r = 4 * (value - min_value - 0.5 * val_range) / val_range
         b = 0.0
     else:
-        g = 1.0 + 4.0 * (min_value + 0.75 * val_range - min_value) / val_range
+        g = 1.0 + 4.0 * (min_value + 0.75 * val_range - value) / val_range
         b = 0.0
     return [r, g, b]
 
-- 
2.43.0


From 444b3f0ea7be635884d4eb8c8cf2c9cf94352054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 71/87] fix: keep the quadrant of the hue in convert_lab_to_msh

---
 src/arc_utilities/color.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/arc_utilities/color.py b/src/arc_utilities/color.py
index aec8c69..82b517b 100644
--- a/src/arc_utilities/color.py
+++ b/src/arc_utilities/color.py
@@ -63,8 +63,7 @@ def convert_lab_to_xyz(l, a, b):
 def convert_lab_to_msh(l, a, b):
     m = math.sqrt(l ** 2 + a ** 2 + b ** 2)
     s = math.acos(l / m)
-    # h = math.atan2(b, a)
-    h = math.atan(b / a)
+    h = math.atan2(b, a)
     return [m, s, h]
 
 
-- 
2.43.0


From 2a8c9921ca0ca7d2a2ce793fc9a36dcc78622a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 72/87] fix: let convert_lab_to_msh take black

---
 src/arc_utilities/color.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arc_utilities/color.py b/src/arc_utilities/color.py
index 82b517b..8152ca9 100644
--- a/src/arc_utilities/color.py
+++ b/src/arc_utilities/color.py
@@ -62,6 +62,8 @@ def convert_lab_to_xyz(l, a, b):
 
 def convert_lab_to_msh(l, a, b):
     m = math.sqrt(l ** 2 + a ** 2 + b ** 2)
+    if m == 0.0:
+        return [0.0, 0.0, 0.0]  # black
     s = math.acos(l / m)
     h = math.atan2(b, a)
     return [m, s, h]
-- 
2.43.0


From 86a0e9e16ffefd3b1b934a570ae1efea5f8ac668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 73/87] fix: apply the reference white in convert_lab_to_xyz

---
 src/arc_utilities/color.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/arc_utilities/color.py b/src/arc_utilities/color.py
index 8152ca9..118ce87 100644
--- a/src/arc_utilities/color.py
+++ b/src/arc_utilities/color.py
@@ -54,9 +54,10 @@ def convert_xyz_to_lab(x, y, z):
 
 def convert_lab_to_xyz(l, a, b):
     intermediate = (l + 16.0) * (1.0 / 116.0)
-    x = cielab_finv(intermediate + a * (1.0 / 500.0))
-    y = cielab_finv(intermediate)
-    z = cielab_finv(intermediate - b * (1.0 / 200.0))
+    [xref, yref, zref] = get_ref_xyz()
+    x = xref * cielab_finv(intermediate + a * (1.0 / 500.0))
+    y = yref * cielab_finv(intermediate)
+    z = zref * cielab_finv(intermediate - b * (1.0 / 200.0))
     return [x, y, z]
 
 
-- 
2.43.0


From 3cd91e704637fdce80491a9c0faf488608c7049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 74/87] fix: give the reference white the scale of the colors

---
 src/arc_utilities/color.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/arc_utilities/color.py b/src/arc_utilities/color.py
index 118ce87..bdcd319 100644
--- a/src/arc_utilities/color.py
+++ b/src/arc_utilities/color.py
@@ -38,9 +38,10 @@ def cielab_finv(val):
 
 
 def get_ref_xyz():
-    xref = 95.047
-    yref = 100.0
-    zref = 108.883
+    # for colors from 0 to 1
+    xref = 0.95047
+    yref = 1.0
+    zref = 1.08883
     return [xref, yref, zref]
 
 
-- 
2.43.0


From 5c435936016f9bfe882da182ae3e57ba542490f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:44 +0000
Subject: [PATCH 75/87] fix: interpolate between similar hues the short way
 round

---
 src/arc_utilities/color.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arc_utilities/color.py b/src/arc_utilities/color.py
index bdcd319..385989e 100644
--- a/src/arc_utilities/color.py
+++ b/src/arc_utilities/color.py
@@ -132,6 +132,12 @@ def interpolate_coolwarm(rgb1, rgb2, interpolation):
             s1 = 0.0
             h1 = 0.0
             interpolation = 2.0 * interpolation - 1.0
+    # If points saturated and alike, go the short way round the circle of hues
+    elif (s1 > 0.05) and (s2 > 0.05):
+        if h2 - h1 > math.pi:
+            h2 -= 2.0 * math.pi
+        elif h1 - h2 > math.pi:
+            h2 += 2.0 * math.pi
     # Adjust hue of unsaturated colors
     if (s1 < 0.05) and (s2 > 0.05):
         h1 = adjust_hue((m2, s2, h2), m1)
-- 
2.43.0


From 6251c3b8c560b9f4e90822bf05309aab3bc63ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:27 +0000
Subject: [PATCH 76/87] fix: keep the orientation of a static transform as it
 was given

---
 src/arc_utilities/tf2wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arc_utilities/tf2wrapper.py b/src/arc_utilities/tf2wrapper.py
index 3a293e8..7b99c14 100644
--- a/src/arc_utilities/tf2wrapper.py
+++ b/src/arc_utilities/tf2wrapper.py
@@ -1,5 +1,7 @@
 #! /usr/bin/env python
 
+from copy import deepcopy
+
 import geometry_msgs.msg
 import rospy
 import tf2_ros
@@ -99,7 +101,7 @@ class TF2Wrapper:
         t.transform.translation.x = pose.position.x
         t.transform.translation.y = pose.position.y
         t.transform.translation.z = pose.position.z
-        t.transform.rotation = pose.orientation
+        t.transform.rotation = deepcopy(pose.orientation)
 
         if is_static:
             self.static_tfs.append(t)
-- 
2.43.0


From 37c63b5b145674d5bf7c09d8c4e76c03b23aa1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:27 +0000
Subject: [PATCH 77/87] fix: keep waiting for a managed transform when a lookup
 fails

---
 src/arc_utilities/reliable_tf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arc_utilities/reliable_tf.py b/src/arc_utilities/reliable_tf.py
index c8349c1..488c54d 100644
--- a/src/arc_utilities/reliable_tf.py
+++ b/src/arc_utilities/reliable_tf.py
@@ -105,7 +105,8 @@ class ReliableTF(TF2Wrapper):
         # block until the correct transform is received
         while True:
             received_transform = self.get_transform(parent, child, verbose=False)
-            if is_close_func(received_transform):
+            # the lookup can still fail, e.g. when the transform has expired meanwhile
+            if received_transform is not None and is_close_func(received_transform):
                 break
 
     def stop_send(self, parent, child):
-- 
2.43.0


From d46195dc464aba262d0b74a638bc686768c9e0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:20 +0000
Subject: [PATCH 78/87] fix: replace the earlier static transform of a frame
 instead of sending both

---
 src/arc_utilities/tf2wrapper.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/arc_utilities/tf2wrapper.py b/src/arc_utilities/tf2wrapper.py
index 7b99c14..f4fcff6 100644
--- a/src/arc_utilities/tf2wrapper.py
+++ b/src/arc_utilities/tf2wrapper.py
@@ -23,7 +23,7 @@ class TF2Wrapper:
             self.tf_listener = listener
         self.tf_broadcaster = tf2_ros.TransformBroadcaster()
         self.static_tf_broadcaster = tf2_ros.StaticTransformBroadcaster()
-        self.static_tfs = []
+        self.static_tfs = {}  # the latest static transform of each child frame
 
     def get_transform(self,
                       parent,
@@ -104,8 +104,8 @@ class TF2Wrapper:
         t.transform.rotation = deepcopy(pose.orientation)
 
         if is_static:
-            self.static_tfs.append(t)
-            self.static_tf_broadcaster.sendTransform(self.static_tfs)  # send all at once.
+            self.static_tfs[child] = t
+            self.static_tf_broadcaster.sendTransform(list(self.static_tfs.values()))  # send all at once.
         else:
             self.tf_broadcaster.sendTransform(t)
 
@@ -138,8 +138,8 @@ class TF2Wrapper:
         t.transform.rotation.w = quaternion[3]
 
         if is_static:
-            self.static_tfs.append(t)
-            self.static_tf_broadcaster.sendTransform(self.static_tfs) # send all at once.
+            self.static_tfs[child] = t
+            self.static_tf_broadcaster.sendTransform(list(self.static_tfs.values())) # send all at once.
         else:
             self.tf_broadcaster.sendTransform(t)
 
-- 
2.43.0


From 9573597c6d7fcdca2576425ae46881b637689138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:31 +0000
Subject: [PATCH 79/87] fix: ignore repeated waypoints of time-optimal
 trajectories

A repeated last waypoint left the trajectory with a segment of no length and
a duration three orders of magnitude too long, a repeated corner was passed
at full speed without blending, and a path that stays in place was NaN.
---
 ...ime_optimal_trajectory_parametrization.cpp | 35 ++++++++++++++++---
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
index 7f39dba..7e4226b 100644
--- a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
@@ -10,12 +10,15 @@ class LinearPathSegment : public PathSegment {
       : PathSegment((end - start).norm()), start_(start), end_(end) {}
 
   Eigen::VectorXd GetConfig(const double s) const {
-    const double ratio = s / length_;
+    const double ratio = (length_ > 0.0) ? s / length_ : 0.0;
     return EigenHelpers::Interpolate(start_, end_, ratio);
   }
 
   Eigen::VectorXd GetTangent(const double s) const {
     UNUSED(s);
+    if (length_ <= 0.0) {
+      return Eigen::VectorXd::Zero(start_.size());
+    }
     return (end_ - start_) / length_;
   }
 
@@ -109,18 +112,29 @@ class CircularPathSegment : public PathSegment {
 };
 
 Path::Path(const std::list<Eigen::VectorXd>& path, const double max_deviation) : length_(0.0) {
-  if (path.size() < 2) {
+  // Waypoints that repeat the one before give no direction to move in, and would be corners that cannot be blended
+  std::list<Eigen::VectorXd> waypoints;
+  for (std::list<Eigen::VectorXd>::const_iterator it = path.begin(); it != path.end(); it++) {
+    if (waypoints.empty() || (*it - waypoints.back()).norm() > 0.000002) {
+      waypoints.push_back(*it);
+    }
+  }
+  if (waypoints.size() < 2) {
+    if (!waypoints.empty()) {
+      path_segments_.push_back(new LinearPathSegment(waypoints.front(), waypoints.front()));
+      path_segments_.back()->position = 0.0;
+    }
     return;
   }
-  std::list<Eigen::VectorXd>::const_iterator config1 = path.begin();
+  std::list<Eigen::VectorXd>::const_iterator config1 = waypoints.begin();
   std::list<Eigen::VectorXd>::const_iterator config2 = config1;
   config2++;
   std::list<Eigen::VectorXd>::const_iterator config3;
   Eigen::VectorXd start_config = *config1;
-  while (config2 != path.end()) {
+  while (config2 != waypoints.end()) {
     config3 = config2;
     config3++;
-    if (max_deviation > 0.0 && config3 != path.end()) {
+    if (max_deviation > 0.0 && config3 != waypoints.end()) {
       CircularPathSegment* blend_segment =
           new CircularPathSegment(0.5 * (*config1 + *config2), *config2, 0.5 * (*config2 + *config3), max_deviation);
       const Eigen::VectorXd end_config = blend_segment->GetConfig(0.0);
@@ -234,6 +248,10 @@ Trajectory::Trajectory(const std::list<Eigen::VectorXd>& waypoints, const Eigen:
       time_step_(timestep),
       cached_time_(std::numeric_limits<double>::max()) {
   trajectory_.push_back(TrajectoryStep(0.0, 0.0));
+  trajectory_.back().time_ = 0.0;
+  if (path_.Length() <= 0.0) {
+    return;  // There is nowhere to go
+  }
   double after_acceleration = GetMinMaxPathAcceleration(0.0, 0.0, true);
   while (!IntegrateForward(trajectory_, after_acceleration)) {
     double before_acceleration = 0.0;
@@ -266,6 +284,10 @@ Trajectory::Trajectory(const Path& path, const Eigen::VectorXd& max_velocity, co
       time_step_(timestep),
       cached_time_(std::numeric_limits<double>::max()) {
   trajectory_.push_back(TrajectoryStep(0.0, 0.0));
+  trajectory_.back().time_ = 0.0;
+  if (path_.Length() <= 0.0) {
+    return;  // There is nowhere to go
+  }
   double after_acceleration = GetMinMaxPathAcceleration(0.0, 0.0, true);
   while (!IntegrateForward(trajectory_, after_acceleration)) {
     double before_acceleration = 0.0;
@@ -651,6 +673,9 @@ std::list<Trajectory::TrajectoryStep>::const_iterator Trajectory::GetTrajectoryS
 }
 
 std::pair<Eigen::VectorXd, Eigen::VectorXd> Trajectory::GetPositionVelocity(const double time) const {
+  if (path_.Length() <= 0.0) {
+    return std::make_pair(path_.GetConfig(0.0), path_.GetTangent(0.0));
+  }
   std::list<TrajectoryStep>::const_iterator it = GetTrajectorySegment(time);
   std::list<TrajectoryStep>::const_iterator previous = it;
   previous--;
-- 
2.43.0


From 9a2e234249717279b306381ad66c02853ab4670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 80/87] fix: report an outer stride of three for aligned
 vectors

---
 include/arc_utilities/aligned_eigen_types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/aligned_eigen_types.hpp b/include/arc_utilities/aligned_eigen_types.hpp
index 4e3dc0f..6ee2388 100644
--- a/include/arc_utilities/aligned_eigen_types.hpp
+++ b/include/arc_utilities/aligned_eigen_types.hpp
@@ -58,7 +58,7 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
   Scalar* data() { return m_coeffs.data(); }
   const Scalar* data() const { return m_coeffs.data(); }
   Index innerStride() const { return 1; }
-  Index outerStride() const { return m_coeffs.outerStride(); }
+  Index outerStride() const { return rows(); }
 
   inline const Scalar& coeff(Index row, Index col) const { return m_coeffs.coeff(row, col); }
 
-- 
2.43.0


From 413694c9862d2ca142ca59d525255c9f14c414db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 81/87] fix: keep the homogeneous coordinate of aligned vectors
 changed in place

---
 include/arc_utilities/aligned_eigen_types.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/aligned_eigen_types.hpp b/include/arc_utilities/aligned_eigen_types.hpp
index 6ee2388..0cef6af 100644
--- a/include/arc_utilities/aligned_eigen_types.hpp
+++ b/include/arc_utilities/aligned_eigen_types.hpp
@@ -115,6 +115,7 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
 
   inline Aligned4Vector3& operator+=(const Aligned4Vector3& other) {
     m_coeffs += other.m_coeffs;
+    m_coeffs.w() = Scalar(1);
     return *this;
   }
 
@@ -122,8 +123,9 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
     return Aligned4Vector3(m_coeffs - other.m_coeffs);
   }
 
-  inline Aligned4Vector3 operator-=(const Aligned4Vector3& other) {
+  inline Aligned4Vector3& operator-=(const Aligned4Vector3& other) {
     m_coeffs -= other.m_coeffs;
+    m_coeffs.w() = Scalar(1);
     return *this;
   }
 
@@ -135,6 +137,7 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
 
   inline Aligned4Vector3& operator*=(const Scalar& s) {
     m_coeffs *= s;
+    m_coeffs.w() = Scalar(1);
     return *this;
   }
 
@@ -142,6 +145,7 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
 
   inline Aligned4Vector3& operator/=(const Scalar& s) {
     m_coeffs /= s;
+    m_coeffs.w() = Scalar(1);
     return *this;
   }
 
@@ -151,7 +155,10 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
     return m_coeffs.dot(other.m_coeffs) - Scalar(1);
   }
 
-  inline void normalize() { m_coeffs /= norm(); }
+  inline void normalize() {
+    m_coeffs /= norm();
+    m_coeffs.w() = Scalar(1);
+  }
 
   inline Aligned4Vector3 normalized() const { return Aligned4Vector3(m_coeffs / norm()); }
 
-- 
2.43.0


From e8254821a485c6f58be1d2dcf783a1e09dbc8893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 82/87] fix: compute products and norms of aligned vectors from
 their three coordinates

---
 include/arc_utilities/aligned_eigen_types.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/aligned_eigen_types.hpp b/include/arc_utilities/aligned_eigen_types.hpp
index 0cef6af..0671c38 100644
--- a/include/arc_utilities/aligned_eigen_types.hpp
+++ b/include/arc_utilities/aligned_eigen_types.hpp
@@ -152,7 +152,7 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
   inline Scalar dot(const Aligned4Vector3& other) const {
     eigen_assert(m_coeffs.w() == Scalar(1));
     eigen_assert(other.m_coeffs.w() == Scalar(1));
-    return m_coeffs.dot(other.m_coeffs) - Scalar(1);
+    return m_coeffs.template head<3>().dot(other.m_coeffs.template head<3>());
   }
 
   inline void normalize() {
@@ -164,12 +164,12 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
 
   inline Scalar sum() const {
     eigen_assert(m_coeffs.w() == Scalar(1));
-    return m_coeffs.sum() - Scalar(1);
+    return m_coeffs.template head<3>().sum();
   }
 
   inline Scalar squaredNorm() const {
     eigen_assert(m_coeffs.w() == Scalar(1));
-    return m_coeffs.squaredNorm() - Scalar(1);
+    return m_coeffs.template head<3>().squaredNorm();
   }
 
   inline Scalar norm() const {
-- 
2.43.0


From ea2beceb043fdfc3c4e199ae85d6e4582f1ba6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 83/87] fix: do not read past the end of serialized ROS
 messages

---
 include/arc_utilities/serialization_ros.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/arc_utilities/serialization_ros.hpp b/include/arc_utilities/serialization_ros.hpp
index abfdfd2..2910c7e 100644
--- a/include/arc_utilities/serialization_ros.hpp
+++ b/include/arc_utilities/serialization_ros.hpp
@@ -201,8 +201,12 @@ inline std::pair<geometry_msgs::TransformStamped, uint64_t> DeserializeTransform
 template <typename MessageType>
 inline uint64_t RosMessageSerializationWrapper(const MessageType& message, std::vector<uint8_t>& buffer) {
   const ros::SerializedMessage serialized_message = ros::serialization::serializeMessage(message);
-  buffer.insert(buffer.end(), serialized_message.message_start,
-                serialized_message.message_start + serialized_message.num_bytes);
+  // message_start lies behind the 4-byte length marker at the start of the ROS buffer, so that the message itself is 4
+  // bytes shorter than num_bytes; the remaining bytes are filled with zeros
+  const uint64_t message_end = buffer.size() + serialized_message.num_bytes;
+  const uint8_t* const ros_buffer_end = serialized_message.buf.get() + serialized_message.num_bytes;
+  buffer.insert(buffer.end(), static_cast<const uint8_t*>(serialized_message.message_start), ros_buffer_end);
+  buffer.resize(message_end, 0x00);
   return serialized_message.num_bytes;
 }
 
@@ -218,9 +222,7 @@ inline std::pair<MessageType, uint64_t> RosMessageDeserializationWrapper(const s
   // Perform the actual deserialization
   MessageType message;
   ros::serialization::deserializeMessage(serialize_message, message);
-  // +4 is here to account for what happens in serializeMessage(...)
-  // This is used by serializeMessage to store the total size of the message in the buffer (excluding this length
-  // marker)
+  // +4 is here to account for the bytes that RosMessageSerializationWrapper(...) writes after the message
   const uint64_t bytes_read = ros::serialization::serializationLength(message) + 4;
   return {message, bytes_read};
 }
-- 
2.43.0


From 6ee9427eedd9f29ce48b9991ddb197733a55c46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 84/87] fix: pass the requested options to ros::init

---
 src/roscpp_initializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roscpp_initializer.cpp b/src/roscpp_initializer.cpp
index d436cdb..426a193 100644
--- a/src/roscpp_initializer.cpp
+++ b/src/roscpp_initializer.cpp
@@ -55,7 +55,7 @@ void init_node(std::string const &name, std::vector<std::string> argv = {}, int
     return pc;
   };
   std::transform(argv.begin(), argv.end(), std::back_inserter(argv_pointers), convert);
-  ros::init(argc, argv_pointers.data(), name);
+  ros::init(argc, argv_pointers.data(), name, options);
 
   spinner = std::make_unique<ros::AsyncSpinner>(1);
   spinner->start();
-- 
2.43.0


From 0ffdf83bc9d1b769cc0df1ec3999c3e231725a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 85/87] fix: refuse to append trajectories with more or fewer
 joints

---
 src/arc_utilities/trajectory_utils.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/arc_utilities/trajectory_utils.cpp b/src/arc_utilities/trajectory_utils.cpp
index f8feefd..ed6f702 100644
--- a/src/arc_utilities/trajectory_utils.cpp
+++ b/src/arc_utilities/trajectory_utils.cpp
@@ -7,8 +7,7 @@ void append(trajectory_msgs::JointTrajectory &trajectory1, trajectory_msgs::Join
   // first check they have the same joint names
   if (trajectory1.joint_names.empty()) {
     trajectory1.joint_names = trajectory2.joint_names;
-  } else if (not std::equal(trajectory1.joint_names.cbegin(), trajectory1.joint_names.cend(),
-                            trajectory2.joint_names.cbegin())) {
+  } else if (trajectory1.joint_names != trajectory2.joint_names) {
     ROS_ERROR_STREAM("Tried to append trajectory but the joint names differ");
     ROS_ERROR_STREAM("joint 1 names:");
     for (auto const &name1 : trajectory1.joint_names) {
-- 
2.43.0


From 888850558e04e06e34394a02157ed768083cd5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 86/87] fix: allow appending a trajectory to itself

---
 src/arc_utilities/trajectory_utils.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/arc_utilities/trajectory_utils.cpp b/src/arc_utilities/trajectory_utils.cpp
index ed6f702..013a033 100644
--- a/src/arc_utilities/trajectory_utils.cpp
+++ b/src/arc_utilities/trajectory_utils.cpp
@@ -30,9 +30,11 @@ void append(trajectory_msgs::JointTrajectory &trajectory1, trajectory_msgs::Join
     }
     return ros::Duration(0);
   }();
-  for (auto const &point2 : trajectory2.points) {
-    auto point2_retimed = point2;
-    point2_retimed.time_from_start = last_trajectory1_time + point2.time_from_start;
+  // trajectory2 may be trajectory1 itself, so its points must not be iterated over while more are added
+  auto const num_points2 = trajectory2.points.size();
+  for (auto i = 0ul; i < num_points2; ++i) {
+    auto point2_retimed = trajectory2.points[i];
+    point2_retimed.time_from_start = last_trajectory1_time + point2_retimed.time_from_start;
     trajectory1.points.emplace_back(point2_retimed);
   }
 }
-- 
2.43.0


From a3f12495178075218e8ca14a81c7e10433abd9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 87/87] fix: end the subscription of a listener before the
 message it writes to

---
 include/arc_utilities/listener.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/listener.hpp b/include/arc_utilities/listener.hpp
index 27811ed..25dd5db 100644
--- a/include/arc_utilities/listener.hpp
+++ b/include/arc_utilities/listener.hpp
@@ -10,11 +10,12 @@ template <class T>
 class Listener {
  protected:
   std::string topic_;
+  // These are used by callback(), so they must be destroyed after the members that call it
+  std::mutex mtx_;
+  typename T::ConstPtr msg_;
   ros::CallbackQueue queue_;
   ros::AsyncSpinner spinner_;
   ros::Subscriber sub_;
-  std::mutex mtx_;
-  typename T::ConstPtr msg_;
 
   void callback(typename T::ConstPtr const& msg) {
     std::lock_guard<std::mutex> lock(mtx_);
@@ -23,7 +24,7 @@ class Listener {
 
  public:
   Listener(ros::NodeHandle& nh, std::string const& topic, bool const autostart = true)
-      : topic_(topic), queue_(), spinner_(1, &queue_), msg_(nullptr) {
+      : topic_(topic), msg_(nullptr), queue_(), spinner_(1, &queue_) {
     auto options =
         ros::SubscribeOptions::create<T>(topic, 1, boost::bind(&Listener::callback, this, _1), ros::VoidPtr(), &queue_);
     sub_ = nh.subscribe(options);
-- 
2.43.0

