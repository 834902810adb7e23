From c2f93d27d212da2c15d60efb987e15910298b4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:00:12 +0000
Subject: [PATCH 01/23] fix: point initialization of the seeds pool with
 non-positive priorities

The reference weight started from the smallest positive value, hence no cell
was selected if all the priority weights were null or negative, and an invalid
index was put into the pool.
---
 include/CoMMA/Seeds_Pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Seeds_Pool.h b/include/CoMMA/Seeds_Pool.h
index 3d6cfd7..be7ef40 100644
--- a/include/CoMMA/Seeds_Pool.h
+++ b/include/CoMMA/Seeds_Pool.h
@@ -173,7 +173,7 @@ struct SPOnePointInitializator :
   ) override {
     CoMMAPairType cur_max{
       std::numeric_limits<CoMMAIndexType>::max(),
-      std::numeric_limits<CoMMAWeightType>::min()
+      std::numeric_limits<CoMMAWeightType>::lowest()
     };
     const CustomPairGreaterFunctor<CoMMAPairType> comp_op{};
     for (auto i_fc = decltype(n_bnd_faces.size()){0}; i_fc < n_bnd_faces.size();
-- 
2.43.0


From 844a90cfb097b92586b4b870de94518ef2be7132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:00:58 +0000
Subject: [PATCH 02/23] fix: respect the maximum number of cells in an
 anisotropic line

If the last two cells of a line were followed by a third one because of the
limit, the end of the line was dereferenced. If three cells were left but there
was room for two only, the limit was exceeded.
---
 include/CoMMA/Agglomerator.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/CoMMA/Agglomerator.h b/include/CoMMA/Agglomerator.h
index 3e5bf64..4f94815 100644
--- a/include/CoMMA/Agglomerator.h
+++ b/include/CoMMA/Agglomerator.h
@@ -356,12 +356,15 @@ public:
             this->_fc_graph->neighbours_cbegin(*std::next(line_it)),
             this->_fc_graph->neighbours_cend(*std::next(line_it))
           );
+          const auto n_left = std::distance(line_it, end);
           if (
-            std::distance(line_it, end) == 3
+            n_left == 3
             || (
-              this->_max_cells_in_line.has_value()
+              n_left > 3 && this->_max_cells_in_line.has_value()
               && n_cells + 1 == this->_max_cells_in_line.value())) {
-            if (this->_odd_line_length) {
+            if (this->_odd_line_length
+                && (!this->_max_cells_in_line.has_value()
+                    || n_cells + 1 <= this->_max_cells_in_line.value())) {
               // If only three cells left, agglomerate them
               s_fc.insert(*std::next(line_it, 2));
               n_cells++;
-- 
2.43.0


From e7122279d1e5d51c8471cf2fc784b83bf67e0535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:24 +0000
Subject: [PATCH 03/23] fix: keep coarse cells consistent when the correction
 splits a singular cell

When a coarse cell up to singular_card_thresh cells was corrected cell by
cell, the cells that had no suitable neighbour in the first place kept
pointing to the removed coarse cell. They now follow the other cells.
---
 include/CoMMA/Coarse_Cell_Container.h | 30 +++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/include/CoMMA/Coarse_Cell_Container.h b/include/CoMMA/Coarse_Cell_Container.h
index d03e516..7276c61 100644
--- a/include/CoMMA/Coarse_Cell_Container.h
+++ b/include/CoMMA/Coarse_Cell_Container.h
@@ -202,7 +202,9 @@ Not used anymore but we leave it for example purposes
         if (!should_remove) {
           // If here, we could not agglomerate the whole cell, hence we look
           // fine cell by fine cell
+          std::deque<CoMMAIndexType> left_fcs{};
           for (const auto &[i_fc, neighs] : neighs_by_fc) {
+            bool moved = false;
             if (!neighs.empty()) {
               std::optional<CoMMAIntType> new_compactness = std::nullopt;
               const auto new_cc = select_best_cc_to_agglomerate(
@@ -212,11 +214,39 @@ Not used anymore but we leave it for example purposes
                 _fc_2_cc[i_fc] = new_cc.value();
                 _ccs[new_cc.value()]->insert_cell(i_fc, new_compactness);
                 should_remove = true;
+                moved = true;
               }
             }
             // If the cell has no neighbour (this could happen when the
             // partitioning does not give a connected partition), unfortunately,
             // there is nothing that we can do. We just skip it
+            if (!moved) left_fcs.push_back(i_fc);
+          }
+          // Cells without suitable neighbours in the first place follow the
+          // fine cells of the same coarse cell that have been moved
+          bool keep_on = should_remove;
+          while (keep_on && !left_fcs.empty()) {
+            keep_on = false;
+            for (auto n = left_fcs.size(); n > 0; --n) {
+              const auto i_fc = left_fcs.front();
+              left_fcs.pop_front();
+              std::optional<CoMMAIntType> new_compactness = std::nullopt;
+              const auto new_cc = select_best_cc_to_agglomerate(
+                i_fc, get_neighs_cc(i_fc, old_cc), max_card, new_compactness
+              );
+              if (new_cc.has_value()) {
+                _fc_2_cc[i_fc] = new_cc.value();
+                _ccs[new_cc.value()]->insert_cell(i_fc, new_compactness);
+                keep_on = true;
+              } else
+                left_fcs.push_back(i_fc);
+            }
+          }
+          if (should_remove && !left_fcs.empty()) {
+            // Not connected: what could not be moved remains where it is
+            cur_cc->_s_fc = {left_fcs.begin(), left_fcs.end()};
+            cur_cc->_cardinality = static_cast<CoMMAIntType>(left_fcs.size());
+            should_remove = false;
           }
         }
 
-- 
2.43.0


From 9a18c8214a9e40ebb45c2462f9c45d9541579d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:32 +0000
Subject: [PATCH 04/23] fix: do not read the weights of isolated cells when all
 cells are anisotropic

---
 include/CoMMA/Dual_Graph.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 3aa4d1e..0e92c4b 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -757,9 +757,12 @@ public:
         case CoMMACellCouplingT::MAX_WEIGHT: {
           for (const CoMMAIndexType i_fc : _s_anisotropic_compliant_cells) {
             aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
-            max_weights[i_fc] = *(
-              max_element(this->weights_cbegin(i_fc), this->weights_cend(i_fc))
-            );
+            // Isolated cells have no weights
+            max_weights[i_fc] = this->get_nb_of_neighbours(i_fc) > 0
+              ? *(max_element(
+                this->weights_cbegin(i_fc), this->weights_cend(i_fc)
+              ))
+              : 0.0;
           }
           break;
         }
-- 
2.43.0


From 854f3c7d01cb6ddb2c6a03d53a9d261c70326b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:20 +0000
Subject: [PATCH 05/23] fix: use the weight of the connection when building the
 coarse graph

The weights follow the adjacency, but they were accessed with the number
of the neighbouring cell.
---
 include/CoMMA/Util.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 0aa7ba6..7105209 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -495,7 +495,8 @@ void build_coarse_graph(
           const auto cc_neigh = f2c[*fc_neigh];
           // Add if not yet present
           cc_neighs.try_emplace(cc_neigh, 0.0);
-          cc_neighs.at(cc_neigh) += f_weights[*fc_neigh];
+          cc_neighs.at(cc_neigh) +=
+            f_weights[std::distance(f_adj.cbegin(), fc_neigh)];
         }
       }  // for fc_neigh
     }  // for fc
-- 
2.43.0


From b855edce2535e5a7527f4e6ab813ab1b05f6a071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:20 +0000
Subject: [PATCH 06/23] fix: divide by the volume in the weighted average of
 the coarse centers

---
 include/CoMMA/Util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 7105209..5e15918 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -477,10 +477,10 @@ void build_coarse_graph(
   }  // for fc
   for (auto cc = decltype(n_cells){0}; cc < n_cells; ++cc) {
     const auto &fcs = c2f[cc];
-    const RealT ov_n_fc(RealT{1.} / fcs.size());
+    const RealT ov_volume(RealT{1.} / c_volumes[cc]);
     // Finishing center
     for (auto xyz = decltype(dim){0}; xyz < dim; ++xyz)
-      c_centers[cc][xyz] *= ov_n_fc;
+      c_centers[cc][xyz] *= ov_volume;
     auto n_bnd = std::numeric_limits<IntT>::min();
     auto priority = std::numeric_limits<RealT>::min();
     std::map<IndexT, RealT> cc_neighs;
-- 
2.43.0


From e73da93be5aa4001d46f738c538daebd3b6fa71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:20 +0000
Subject: [PATCH 07/23] fix: priority of coarse cells made of cells with
 non-positive priorities

---
 include/CoMMA/Util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 5e15918..64d087c 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -482,7 +482,7 @@ void build_coarse_graph(
     for (auto xyz = decltype(dim){0}; xyz < dim; ++xyz)
       c_centers[cc][xyz] *= ov_volume;
     auto n_bnd = std::numeric_limits<IntT>::min();
-    auto priority = std::numeric_limits<RealT>::min();
+    auto priority = std::numeric_limits<RealT>::lowest();
     std::map<IndexT, RealT> cc_neighs;
     for (const auto fc : fcs) {
       if (f_n_bnd[fc] > n_bnd) n_bnd = f_n_bnd[fc];
-- 
2.43.0


From 58b612a023dd9fcf731cef92c30a533778f802b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:20 +0000
Subject: [PATCH 08/23] fix: ignore non-positive numbers of edges when
 filtering cells

---
 include/CoMMA/Util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 64d087c..95c6f9e 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -326,10 +326,10 @@ inline void filter_cells_by_n_edges(
     const auto n_cells = static_cast<IndexT>(n_bnd_faces.size());
     filtered.reserve(n_cells);
     for (auto c = decltype(n_cells){0}; c < n_cells; ++c) {
-      if (allowed.find(
+      if (target.find(
             static_cast<IntT>(indices[c + 1] - indices[c] + n_bnd_faces[c])
           )
-          != allowed.end())
+          != target.end())
         filtered.emplace_back(c);
     }
     filtered.shrink_to_fit();
-- 
2.43.0


From 67365870e4d4595937943a4bd9891d5d2d081034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:13 +0000
Subject: [PATCH 09/23] fix: check the connectivity of graphs from scratch

The flags of the cells already visited were not reset, hence any call
after the first one started from the result of the previous one. Moreover,
the first neighbour was read even if there were no connections at all.
---
 include/CoMMA/Dual_Graph.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 0e92c4b..3065c1f 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -236,13 +236,11 @@ public:
    * @return True if the graph is connected, false if it is not connected
    */
   bool check_connectivity() {
-    for (auto i = decltype(_number_of_cells){0}; i < _number_of_cells; ++i) {
-      _visited.push_back(false);
-    }
-    if (_number_of_cells == 1) {
+    _visited.assign(_number_of_cells, false);
+    if (_number_of_cells <= 1) {
       return (true);
     }
-    DFS(_m_CRS_Col_Ind[0]);
+    DFS(0);
     for (auto i = decltype(_number_of_cells){0}; i < _number_of_cells; ++i) {
       if (!_visited[i]) {
         return (false);
-- 
2.43.0


From 0e13bcf09e8b17cbd85b3b06edb3448be4f27e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:49 +0000
Subject: [PATCH 10/23] fix: consistent sub-graph after the insertion and the
 removal of nodes

The weights were not those of the neighbours in the sub-graph, the new
connections ended up in the wrong row, part of the connections of a
removed node was left, and the number of nodes was never updated.
---
 include/CoMMA/Dual_Graph.h | 73 ++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 30 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 3065c1f..45c1bfa 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -352,15 +352,7 @@ public:
     _is_isotropic(is_isotropic),
     _cardinality(static_cast<CoMMAIntType>(nb_c)),
     _mapping_l_to_g(mapping_l_to_g) {
-    // Compactness computation
-    _compactness = static_cast<CoMMAIntType>(nb_c);
-    for (auto c = decltype(nb_c){0}; c < nb_c; ++c) {
-      const auto n_neighs =
-        static_cast<CoMMAIntType>(m_crs_row_ptr[c + 1] - m_crs_row_ptr[c]);
-      if (n_neighs < _compactness) {
-        _compactness = n_neighs;
-      }
-    }
+    _compactness = compute_compactness();
   }
 
   /** @brief Destructor of the class */
@@ -385,6 +377,22 @@ public:
    */
   ContainerIndexType _mapping_l_to_g;
 
+  /** @brief Compute the compactness from the current connectivity
+   *  @return the minimum number of internal neighbours
+   */
+  CoMMAIntType compute_compactness() const {
+    auto compactness = static_cast<CoMMAIntType>(this->_number_of_cells);
+    for (auto c = decltype(this->_number_of_cells){0};
+         c < this->_number_of_cells;
+         ++c) {
+      const auto n_neighs = this->get_nb_of_neighbours(c);
+      if (n_neighs < compactness) {
+        compactness = n_neighs;
+      }
+    }
+    return compactness;
+  }
+
   /** @brief Insert a node in the subgraph and add it to the mapping the
    *  @param[in] v_neigh Vector of the neighbours to be added. The neighbours
    * must be given in the global indexing system.
@@ -400,8 +408,10 @@ public:
     const ContainerWeightType &weight
   ) {
     // Use the mapping
-    // local vector of neighbourhood
+    // local vector of neighbourhood, and related weights
     ContainerIndexType v_l_neigh{};
+    ContainerWeightType v_l_weight{};
+    auto weight_it = weight.cbegin();
     // @todo this solution clearly help in the connection of the subnode BUT can
     // bring to instability and errors.
     for (const auto &elem : v_neigh) {
@@ -409,14 +419,13 @@ public:
         std::find(_mapping_l_to_g.begin(), _mapping_l_to_g.end(), elem);
       if (low1 != _mapping_l_to_g.end()) {
         v_l_neigh.push_back(low1 - _mapping_l_to_g.begin());
+        v_l_weight.push_back(*weight_it);
       }
+      ++weight_it;
     }
     // variable to add weight for each face
     CoMMAIntType iter_weight = 0;
     CoMMAIndexType local_index = this->_m_CRS_Row_Ptr.size() - 1;
-    // initialization pointers for insertion, pointing to the first element of
-    // each
-    auto row_end = this->_m_CRS_Row_Ptr.end() - 1;
 
     // cycle on the set of neighbours
     for (const auto &elem : v_l_neigh) {
@@ -429,11 +438,11 @@ public:
       );
       this->_m_CRS_Values.insert(
         this->_m_CRS_Values.begin() + this->_m_CRS_Row_Ptr[elem],
-        weight[iter_weight]
+        v_l_weight[iter_weight]
       );
       // We modify the row pointer as far it is related with what we have done
       // before
-      for (auto it = this->_m_CRS_Row_Ptr.begin() + elem;
+      for (auto it = this->_m_CRS_Row_Ptr.begin() + elem + 1;
            it != this->_m_CRS_Row_Ptr.end();
            ++it) {
         ++(*it);
@@ -441,14 +450,17 @@ public:
       // we do the same.
       this->_m_CRS_Col_Ind.insert(this->_m_CRS_Col_Ind.end(), elem);
       this->_m_CRS_Values.insert(
-        this->_m_CRS_Values.end(), weight[iter_weight]
+        this->_m_CRS_Values.end(), v_l_weight[iter_weight]
       );
       // We increment the weight flag iterator
       ++iter_weight;
     }
-    this->_m_CRS_Row_Ptr.push_back(*row_end + v_neigh.size());
+    this->_m_CRS_Row_Ptr.push_back(this->_m_CRS_Col_Ind.size());
     this->_volumes.push_back(volume);
     _mapping_l_to_g.push_back(i_fc);
+    ++this->_number_of_cells;
+    ++_cardinality;
+    _compactness = compute_compactness();
   }
 
   /** @brief Remove a node from the CRS representation and automatically adjust
@@ -472,16 +484,19 @@ public:
       // Constant to keep track and erase the weight
       for (auto it = pos_col + ind; it != pos_col + ind_p_one; ++it) {
         if (*it == i_fc) {
-          this->_m_CRS_Col_Ind.erase(it);
           // define the exact position of the element for the processing of the
-          // weight later.
+          // weight.
           this->_m_CRS_Values.erase(pos_Values + (it - pos_col));
+          this->_m_CRS_Col_Ind.erase(it);
           // for each found i decrease the successive of 1 for the offset
           for (auto it_bis = this->_m_CRS_Row_Ptr.begin() + elem + 1;
                it_bis != this->_m_CRS_Row_Ptr.end();
                ++it_bis) {
             *it_bis = *it_bis - 1;
           }
+          // The iterators after the erased one are not valid anymore, and there
+          // is nothing more to look for
+          break;
         }
       }
     }
@@ -489,17 +504,12 @@ public:
     // do the same with i_fc
     CoMMAIndexType ind = this->_m_CRS_Row_Ptr[i_fc];
     CoMMAIndexType ind_p_one = this->_m_CRS_Row_Ptr[i_fc + 1];
-    for (auto it = pos_col + ind; it != pos_col + ind_p_one; ++it) {
-      this->_m_CRS_Col_Ind.erase(it);
-      // define the exact position of the element for the processing of the
-      // weight later.
-      this->_m_CRS_Values.erase(pos_Values + (it - pos_col));
-      // for each found i decrease the successive of 1 for the offset
-      for (auto it_bis = this->_m_CRS_Row_Ptr.begin() + i_fc + 1;
-           it_bis != this->_m_CRS_Row_Ptr.end();
-           ++it_bis) {
-        *it_bis = *it_bis - 1;
-      }
+    this->_m_CRS_Col_Ind.erase(pos_col + ind, pos_col + ind_p_one);
+    this->_m_CRS_Values.erase(pos_Values + ind, pos_Values + ind_p_one);
+    for (auto it_bis = this->_m_CRS_Row_Ptr.begin() + i_fc + 1;
+         it_bis != this->_m_CRS_Row_Ptr.end();
+         ++it_bis) {
+      *it_bis = *it_bis - (ind_p_one - ind);
     }
     // Get rid of the col element
     auto Col_pointer = this->_m_CRS_Row_Ptr.begin() + i_fc;
@@ -529,6 +539,9 @@ public:
       assert(internal_mapping[actual].has_value());
       actual = internal_mapping[actual].value();
     }
+    --this->_number_of_cells;
+    --_cardinality;
+    _compactness = compute_compactness();
   }
 };
 
-- 
2.43.0


From 4afe12f3b3344d69190be484716e2045a6e3df4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:42 +0000
Subject: [PATCH 11/23] fix: divide the volume-weighted sum of the centers by
 the volume

The barycenter of a coarse cell was computed as the sum of the centers
weighted by the volumes, divided by the number of cells. This is not a
point of the cell unless all the volumes are one, hence the two aspect
ratios based on the barycenter were not those documented.
---
 include/CoMMA/ARComputer.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/ARComputer.h b/include/CoMMA/ARComputer.h
index cb4048d..c630f2e 100644
--- a/include/CoMMA/ARComputer.h
+++ b/include/CoMMA/ARComputer.h
@@ -275,10 +275,14 @@ protected:
     new_feats._sum_centers = cc_feats._sum_centers;
     const auto &cur_c = this->_graph->_centers[i_fc];
     std::vector<RealT> bary(cur_c.size());
-    const RealT ov_N = 1. / (fc_of_cc.size() + 1);
+    // Centers are weighted by the volumes, so that is what one has to divide by
+    RealT tot_volume = this->_graph->_volumes[i_fc];
+    for (const auto i_fc_cc : fc_of_cc)
+      tot_volume += this->_graph->_volumes[i_fc_cc];
+    const RealT ov_volume = 1. / tot_volume;
     for (auto i = decltype(cur_c.size()){0}; i < cur_c.size(); ++i) {
       new_feats._sum_centers[i] += this->_graph->_volumes[i_fc] * cur_c[i];
-      bary[i] = new_feats._sum_centers[i] * ov_N;
+      bary[i] = new_feats._sum_centers[i] * ov_volume;
     }
     return bary;
   }
-- 
2.43.0


From c541dbf2d1d6caba5c026d4002d3886bd53e74a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:32 +0000
Subject: [PATCH 12/23] fix: do not look for the first seed in an empty mesh

A mesh without cells, for instance an empty partition, is accepted by the
argument checks, but the initialisation of the seeds pool dereferenced the
maximum of an empty vector.
---
 include/CoMMA/Seeds_Pool.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/CoMMA/Seeds_Pool.h b/include/CoMMA/Seeds_Pool.h
index be7ef40..8d46c51 100644
--- a/include/CoMMA/Seeds_Pool.h
+++ b/include/CoMMA/Seeds_Pool.h
@@ -416,6 +416,8 @@ public:
 
   /** @brief Initialize the seeds pool via a call to its initializator */
   inline void initialize() {
+    // Nothing to choose from in an empty mesh
+    if (_n_bnd_faces.empty()) return;
     if (!_cur_top_queue.has_value())
       // Computing the max number of boundary faces. Only the related seed queue
       // will be filled at this initial stage
-- 
2.43.0


From 4e1a5ba00d718624c5d286bc4d292b43c30f37d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:32 +0000
Subject: [PATCH 13/23] fix: accept an empty graph when building the coarse one

The number of coarse cells and the dimension were read from empty vectors.
---
 include/CoMMA/Util.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 95c6f9e..5c7d2f1 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -439,8 +439,11 @@ void build_coarse_graph(
   std::vector<RealT> &c_priority,
   std::vector<IntT> &c_n_bnd
 ) {
-  const auto n_cells = *(std::max_element(f2c.begin(), f2c.end())) + 1;
-  const auto dim = static_cast<IntT>(f_centers[0].size());
+  // An empty fine graph gives an empty coarse graph
+  const IndexT n_cells =
+    f2c.empty() ? 0 : *(std::max_element(f2c.begin(), f2c.end())) + 1;
+  const IntT dim =
+    f_centers.empty() ? 0 : static_cast<IntT>(f_centers[0].size());
   // Preparing outputs
   c_adj_idx.clear();
   c_adj_idx.emplace_back(0);
-- 
2.43.0


From 35b2e594248459de62e44c1ca35f6b8ec66c77d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:32 +0000
Subject: [PATCH 14/23] fix: move the cells of a singular coarse cell in order
 of number

The fine cells were moved in the order of a hash table, so that the result
depended on the order in which the neighbours are listed.
---
 include/CoMMA/Coarse_Cell_Container.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/CoMMA/Coarse_Cell_Container.h b/include/CoMMA/Coarse_Cell_Container.h
index 7276c61..3bf5aa4 100644
--- a/include/CoMMA/Coarse_Cell_Container.h
+++ b/include/CoMMA/Coarse_Cell_Container.h
@@ -171,9 +171,8 @@ Not used anymore but we leave it for example purposes
       if (cur_cc->_cardinality <= _sing_card_thresh) {
         const auto &fcs = cur_cc->_s_fc;
         bool should_remove = false;
-        std::unordered_map<CoMMAIndexType, std::set<CoMMAIndexType>>
-          neighs_by_fc{};
-        neighs_by_fc.reserve(cur_cc->_cardinality);
+        // Ordered, since the fine cells are moved one after the other
+        std::map<CoMMAIndexType, std::set<CoMMAIndexType>> neighs_by_fc{};
         for (const auto &i_fc : fcs) {
           neighs_by_fc.emplace(i_fc, get_neighs_cc(i_fc, old_cc));
         }
-- 
2.43.0


From 640160d66d1f74c19b32858dfb25490ffcfbdfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:37 +0000
Subject: [PATCH 15/23] fix: do not use an invalidated iterator when
 renumbering

Extracting a node from the map invalidates its iterator, which was then
incremented. Use the one returned when inserting the node again.
---
 include/CoMMA/Coarse_Cell_Container.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/CoMMA/Coarse_Cell_Container.h b/include/CoMMA/Coarse_Cell_Container.h
index 3bf5aa4..6752bb4 100644
--- a/include/CoMMA/Coarse_Cell_Container.h
+++ b/include/CoMMA/Coarse_Cell_Container.h
@@ -277,7 +277,8 @@ Not used anymore but we leave it for example purposes
         auto node = _ccs.extract(it_cc);
         if (!node.empty()) {
           node.key() = new_ID;
-          _ccs.insert(std::move(node));
+          // Extracting has invalidated the iterator
+          it_cc = _ccs.insert(std::move(node)).position;
         }
       }
     }
-- 
2.43.0


From be8ce1d3f6858e9a76253f32a5e845756b429b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:26 +0000
Subject: [PATCH 16/23] fix: do not dereference a null node when searching the
 tree

Looking for a node among the children of a root without children read
through a null pointer, because the check came after the access.
---
 include/CoMMA/deprecated/Tree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CoMMA/deprecated/Tree.h b/include/CoMMA/deprecated/Tree.h
index 02c00b9..09bc188 100644
--- a/include/CoMMA/deprecated/Tree.h
+++ b/include/CoMMA/deprecated/Tree.h
@@ -119,12 +119,12 @@ public:
   std::shared_ptr<NodeType> search(
     std::shared_ptr<NodeType> &node, const CoMMAIndexType &value
   ) {
+    if (node == nullptr) {
+      return nullptr;
+    }
     if (node->_index == value && node->_father != nullptr) {
       return node;
     }
-    if (node == nullptr || node->_right_idx == nullptr) {
-      return nullptr;
-    }
     return (search(node->_right_idx, value));
   }
 
-- 
2.43.0


From c307facf59e7220732297b24eb13fa914c975e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:26 +0000
Subject: [PATCH 17/23] fix: keep the node to delete while updating the links
 of the tree

The node was accessed through a reference to one of the links being
updated, so the wrong neighbours were changed or a null pointer was read.
Deleting the only child also read through a null pointer.
---
 include/CoMMA/deprecated/Tree.h | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/CoMMA/deprecated/Tree.h b/include/CoMMA/deprecated/Tree.h
index 09bc188..358d7cc 100644
--- a/include/CoMMA/deprecated/Tree.h
+++ b/include/CoMMA/deprecated/Tree.h
@@ -157,20 +157,24 @@ public:
       return;
     }
     if (searched_node->_index == value) {
+      // Copy, since the given pointer is one of those updated below
+      const auto node = searched_node;
       // case 0: leftest node
-      if (searched_node->_left_idx == nullptr) {
-        searched_node->_father->_sonc--;
-        searched_node->_father->_left_son_idx = searched_node->_right_idx;
-        searched_node->_right_idx->_left_idx = nullptr;
+      if (node->_left_idx == nullptr) {
+        node->_father->_sonc--;
+        node->_father->_left_son_idx = node->_right_idx;
+        if (node->_right_idx != nullptr) {
+          node->_right_idx->_left_idx = nullptr;
+        }
       }
       // case 1: rightest node
-      else if (searched_node->_right_idx == nullptr) {
-        searched_node->_father->_sonc = searched_node->_father->_sonc - 1;
-        searched_node->_left_idx->_right_idx.reset();
+      else if (node->_right_idx == nullptr) {
+        node->_father->_sonc = node->_father->_sonc - 1;
+        node->_left_idx->_right_idx.reset();
       } else {
-        searched_node->_father->_sonc--;
-        searched_node->_left_idx->_right_idx = searched_node->_right_idx;
-        searched_node->_right_idx->_left_idx = searched_node->_left_idx;
+        node->_father->_sonc--;
+        node->_left_idx->_right_idx = node->_right_idx;
+        node->_right_idx->_left_idx = node->_left_idx;
       }
       return;
     }
-- 
2.43.0


From ddba845feb305051b7a244526299f9af007b91c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:46 +0000
Subject: [PATCH 18/23] fix: int_power could not be instantiated

The intermediate power was declared as a compile-time integer, so that
any use with a run-time argument failed to compile, whatever the power.
It has now the type of the argument.
---
 include/CoMMA/Util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 5c7d2f1..fb7ee51 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -76,7 +76,7 @@ inline T constexpr int_power(const T x) {
   if constexpr (p == 2) return x * x;
   if constexpr (p == 3) return x * x * x;
 
-  constexpr int tmp = int_power<p / 2>(x);
+  const T tmp = int_power<p / 2>(x);
   if constexpr ((p % 2) == 0) {
     return tmp * tmp;
   } else {
-- 
2.43.0


From 4716e3a8feeda039e2bedf7c9e4b32da55c79466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:23 +0000
Subject: [PATCH 19/23] fix: check_connectivity ran out of stack on large
 graphs

The depth-first search was recursive, one call per visited cell, so that the
connectivity check of a graph of some 200000 cells crashed. The search now
keeps its own stack.
---
 include/CoMMA/Dual_Graph.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 45c1bfa..3ca59a9 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -101,14 +101,22 @@ public:
   /** @brief Vector of volumes */
   ContainerWeightType _volumes;
 
-  /** @brief Depth First Search (DFS) recursive function
+  /** @brief Depth First Search (DFS) function. It keeps its own stack, since
+   * the depth of the search can be as large as the number of cells.
    *  @param[in] i_fc Index of the node to print
    */
   void DFS(const CoMMAIndexType &i_fc) {
+    ContainerIndexType to_visit{i_fc};
     _visited[i_fc] = true;
-    for (auto it = neighbours_cbegin(i_fc); it != neighbours_cend(i_fc); ++it) {
-      if (!_visited[*it]) {
-        DFS(*it);
+    while (!to_visit.empty()) {
+      const CoMMAIndexType node = to_visit.back();
+      to_visit.pop_back();
+      for (auto it = neighbours_cbegin(node); it != neighbours_cend(node);
+           ++it) {
+        if (!_visited[*it]) {
+          _visited[*it] = true;
+          to_visit.push_back(*it);
+        }
       }
     }
   }
-- 
2.43.0


From 67bb71d35aeebb0b908409570cf05845845ebb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:59:28 +0000
Subject: [PATCH 20/23] fix: preservation of the boundary layer had no effect
 in 3D

The case of hexahedra in tag_anisotropic_cells fell through to the default
one, so that cells of any shape were tagged.
---
 include/CoMMA/Dual_Graph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 3ca59a9..61925ea 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -850,6 +850,7 @@ public:
               if ((is_on_boundary(i_fc) > 0 && nb_neighbours == 5)
                   || nb_neighbours == 6)
                 aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
+              break;
             case 0:
             default:
               // If the ratio is more than the given threshold of the biggest
-- 
2.43.0


From bbc60386b61d8408f33ed994060de50371b5dcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:59:28 +0000
Subject: [PATCH 21/23] fix: integer types smaller than int did not compile

short, int16_t and the like are accepted at configuration, but the
arguments of std::max and std::min then had different types.
---
 include/CoMMA/Agglomerator.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/CoMMA/Agglomerator.h b/include/CoMMA/Agglomerator.h
index 4f94815..2599c7f 100644
--- a/include/CoMMA/Agglomerator.h
+++ b/include/CoMMA/Agglomerator.h
@@ -1244,8 +1244,9 @@ public:
     CoMMAIntType size_current_cc = 1;  // CC contains only one cell: the seed
     // set to 3 as default we set to this value the maximum order to which we
     // search to compose the coarse cell
-    CoMMAIntType max_order_of_neighbourhood =
-      std::max(this->_min_neighbourhood, this->_max_card / this->_dimension);
+    CoMMAIntType max_order_of_neighbourhood = std::max<CoMMAIntType>(
+      this->_min_neighbourhood, this->_max_card / this->_dimension
+    );
 
     // We fill the d_n_of_seeds considering the initial seed passed
     this->_fc_graph->compute_neighbourhood_of_cc(
@@ -1350,7 +1351,7 @@ public:
         // the fine cells that has been added until now.
         // min(max_ind - size_current_cc, this->_fc_iter)
         this->compute_best_fc_to_add(
-          std::min(max_ind - size_current_cc, this->_fc_iter),
+          std::min<CoMMAIntType>(max_ind - size_current_cc, this->_fc_iter),
           neighbourhood,
           d_n_of_seed,
           is_order_primary,
-- 
2.43.0


From c3b311218f2735fcf62df8a845879d72c304a548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:59:28 +0000
Subject: [PATCH 22/23] fix: size of the coarse cells with an unsigned integer
 type

The formula for the number of external faces may go below zero. With an
unsigned type it wrapped around and another size was chosen.
---
 include/CoMMA/Agglomerator.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/CoMMA/Agglomerator.h b/include/CoMMA/Agglomerator.h
index 2599c7f..2fa993f 100644
--- a/include/CoMMA/Agglomerator.h
+++ b/include/CoMMA/Agglomerator.h
@@ -25,6 +25,7 @@
 #include <optional>
 #include <set>
 #include <stdexcept>
+#include <type_traits>
 #include <vector>
 
 #include "CoMMA/ARComputer.h"
@@ -1299,8 +1300,10 @@ public:
           std::unordered_set<CoMMAIndexType>,
           std::unordered_map<CoMMAIndexType, CoMMAIntType>>>
         dict_cc_in_creation;
-      CoMMAIntType min_external_faces =
-        std::numeric_limits<CoMMAIntType>::max();
+      // Signed since the formula for the external faces may go below zero
+      using SignedIntType = std::make_signed_t<CoMMAIntType>;
+      SignedIntType min_external_faces =
+        std::numeric_limits<SignedIntType>::max();
       CoMMAIntType max_compact = 0;
       CoMMAIntType arg_min_card = this->_min_card;
       // Here we define the exact dimension of the coarse cell as the min
@@ -1312,7 +1315,7 @@ public:
         this->_max_card, static_cast<CoMMAIntType>(d_n_of_seed.size() + 1)
       );
       // This formula does not work
-      CoMMAIntType number_of_external_faces_current_cc =
+      SignedIntType number_of_external_faces_current_cc =
         this->_fc_graph->get_nb_of_neighbours(seed)
         + this->_fc_graph->get_n_boundary_faces(seed) - 1;
       // d_keys_to_set from Util.h, it takes the keys of the unordered map and
-- 
2.43.0


From d1060e498548642ef057a6bc2b695b7b6b0dcebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:03:20 +0000
Subject: [PATCH 23/23] fix: Drop agglomerated cells from the list of line
 neighbours in one pass

The cells next to the lines are kept in a deque.  Those already agglomerated
were erased one by one, and each erasure moves the elements that follow.  The
time then grew with the square of the mesh size when lines were built.
Remove them all in one pass, keeping the order of the others.
---
 include/CoMMA/Agglomerator.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/CoMMA/Agglomerator.h b/include/CoMMA/Agglomerator.h
index 2fa993f..be4a367 100644
--- a/include/CoMMA/Agglomerator.h
+++ b/include/CoMMA/Agglomerator.h
@@ -14,6 +14,7 @@
  * file, You can obtain one at https://mozilla.org/MPL/2.0/.
  */
 
+#include <algorithm>
 #include <cmath>
 #include <deque>
 #include <functional>
@@ -436,15 +437,18 @@ public:
    */
   void update_seeds_pool() {
     if (!this->_aniso_neighbours.empty()) {
-      // Example of erase taken from
-      // https://en.cppreference.com/w/cpp/container/deque/erase
-      for (auto it = this->_aniso_neighbours.begin();
-           it != this->_aniso_neighbours.end();) {
-        if (this->_cc_graph->_is_fc_agglomerated[*it])
-          it = this->_aniso_neighbours.erase(it);
-        else
-          ++it;
-      }
+      // Erasing one by one would move the following elements each time
+      const auto &is_fc_agglomerated = this->_cc_graph->_is_fc_agglomerated;
+      this->_aniso_neighbours.erase(
+        std::remove_if(
+          this->_aniso_neighbours.begin(),
+          this->_aniso_neighbours.end(),
+          [&is_fc_agglomerated](const CoMMAIndexType i_fc) {
+            return is_fc_agglomerated[i_fc];
+          }
+        ),
+        this->_aniso_neighbours.end()
+      );
       if (!this->_aniso_neighbours.empty()) {
         // The master queue is the one of the first agglomerated cell:
         // It is important to set it in the case the user asked for
-- 
2.43.0

