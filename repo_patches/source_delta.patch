From 22e8ec378a7f5918e20c671549ea5d14ad5660c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 01/18] fix: reject repeated ids before any deletion takes
 effect

A repeated id in delete_entries / IDTranslator::delete_{external,internal}
passed the existence check and then threw half way, after slots had been marked
deleted and translations removed.
---
 include/svs/core/translation.h           | 6 ++++++
 include/svs/index/vamana/dynamic_index.h | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index c1c7efb..ee007c6 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -222,6 +222,9 @@ class IDTranslator {
         // First pass - ensure that all IDs to remove actually exist.
         if (check) {
             check_internal_exist(internal_ids.begin(), internal_ids.end());
+            if (!lib::all_unique(internal_ids.begin(), internal_ids.end())) {
+                throw ANNEXCEPTION("Internal IDs contain repeat elements!");
+            }
         }
 
         for (const auto i : internal_ids) {
@@ -248,6 +251,9 @@ class IDTranslator {
         // First pass - ensure that all IDs to remove actually exist.
         if (check) {
             check_external_exist(external_ids.begin(), external_ids.end());
+            if (!lib::all_unique(external_ids.begin(), external_ids.end())) {
+                throw ANNEXCEPTION("External IDs contain repeat elements!");
+            }
         }
 
         for (const auto e : external_ids) {
diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index e8b288e..0369892 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -634,6 +634,9 @@ class MutableVamanaIndex {
     ///
     template <typename T> void delete_entries(const T& ids) {
         translator_.check_external_exist(ids.begin(), ids.end());
+        if (!lib::all_unique(ids.begin(), ids.end())) {
+            throw ANNEXCEPTION("External IDs contain repeat elements!");
+        }
         for (auto i : ids) {
             delete_entry(translator_.get_internal(i));
         }
-- 
2.43.0


From 0077142fc7d7ef05a1021a22a2e72044cfe5cca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:14 +0000
Subject: [PATCH 02/18] fix: make exhaustive_search of the mutable index usable

---
 include/svs/index/vamana/dynamic_index.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 0369892..c22fdc5 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -477,8 +477,15 @@ class MutableVamanaIndex {
         size_t num_neighbors,
         QueryResultView<I> result
     ) {
-        auto temp_index = temporary_flat_index(data_, distance_, threadpool_);
-        temp_index.search(queries, num_neighbors, result, [&](size_t i) {
+        if (num_neighbors != result.n_neighbors()) {
+            throw ANNEXCEPTION(
+                "Requested {} neighbors with space for {} results!",
+                num_neighbors,
+                result.n_neighbors()
+            );
+        }
+        auto temp_index = flat::temporary_flat_index(data_, distance_, threadpool_);
+        temp_index.search(result, queries, {}, [&](size_t i) {
             return getindex(status_, i) == SlotMetadata::Valid;
         });
 
-- 
2.43.0


From 784162500d04b3d62f5c229e493e906e059df7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:14 +0000
Subject: [PATCH 03/18] fix: adding an empty batch must not shrink the mutable
 index

---
 include/svs/index/vamana/dynamic_index.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index c22fdc5..c99cdfb 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -557,20 +557,18 @@ class MutableVamanaIndex {
         std::vector<size_t> slots{};
         slots.reserve(num_points);
 
-        bool have_room = false;
         for (size_t i = 0, imax = status_.size(); i < imax; ++i) {
-            if (status_[i] == SlotMetadata::Empty) {
-                slots.push_back(i);
-            }
             if (slots.size() == num_points) {
-                have_room = true;
                 break;
             }
+            if (status_[i] == SlotMetadata::Empty) {
+                slots.push_back(i);
+            }
         }
 
         // Check if we have enough indices. If we don't, we need to resize the data and
         // the graph.
-        if (!have_room) {
+        if (slots.size() < num_points) {
             size_t needed = num_points - slots.size();
             size_t current_size = data_.size();
             size_t new_size = current_size + needed;
-- 
2.43.0


From c4473f15c5855adb7c3e4d2579a7478d5911051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:14 +0000
Subject: [PATCH 04/18] fix: compaction keeps soft-deleted points that the
 graph still references

---
 include/svs/index/vamana/dynamic_index.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index c99cdfb..febab42 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -670,7 +670,7 @@ class MutableVamanaIndex {
         auto indices = std::vector<Idx>();
         indices.reserve(size());
         for (size_t i = 0, imax = status_.size(); i < imax; ++i) {
-            if (!is_deleted(i)) {
+            if (status_[i] != SlotMetadata::Empty) {
                 indices.push_back(i);
             }
         }
-- 
2.43.0


From 79b4544ddcff1855bbee47b0f07d85be421a24ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:12 +0000
Subject: [PATCH 05/18] fix: pruning an empty candidate list must not return an
 earlier result

---
 include/svs/index/vamana/prune.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/svs/index/vamana/prune.h b/include/svs/index/vamana/prune.h
index ee6b13d..0c6dee8 100644
--- a/include/svs/index/vamana/prune.h
+++ b/include/svs/index/vamana/prune.h
@@ -112,11 +112,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     if (poolsize == 0) {
@@ -188,11 +188,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     std::vector<float> pruned(poolsize, type_traits::tombstone_v<float, decltype(cmp)>);
@@ -262,11 +262,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     std::vector<bool> pruned(poolsize, false);
-- 
2.43.0


From 20e4b69b41714ce561be7ac716f8cd15d094f713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:04 +0000
Subject: [PATCH 06/18] fix: thread pool must wait for workers whatever type a
 job throws

---
 include/svs/lib/threads/threadpool.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/svs/lib/threads/threadpool.h b/include/svs/lib/threads/threadpool.h
index 05399b8..7e8e0b1 100644
--- a/include/svs/lib/threads/threadpool.h
+++ b/include/svs/lib/threads/threadpool.h
@@ -162,7 +162,12 @@ template <typename Builder> class NativeThreadPoolBase {
         // Run on the main function.
         try {
             f(0);
-        } catch (const std::exception& error) { manage_exception_during_run(error.what()); }
+        } catch (const std::exception& error) {
+            manage_exception_during_run(error.what());
+        } catch (...) {
+            // Any exception must be managed: Leaving now would abandon running workers.
+            manage_exception_during_run("unknown exception");
+        }
 
         // Wait until all threads are done.
         // If any thread fails, then we're throwing.
@@ -192,6 +197,8 @@ template <typename Builder> class NativeThreadPoolBase {
                     thread.unsafe_get_exception();
                 } catch (const std::exception& error) {
                     fmt::format_to(inserter, "Thread {}: {}\n", i + 1, error.what());
+                } catch (...) {
+                    fmt::format_to(inserter, "Thread {}: unknown exception\n", i + 1);
                 }
                 // Restart the thread.
                 threads_[i].shutdown();
-- 
2.43.0


From b343d44a6b01a8d37ba5890fb30310af4eb75064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 07/18] fix: BlockedData with a fixed extent refuses another
 dimensionality

---
 include/svs/core/data/simple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/core/data/simple.h b/include/svs/core/data/simple.h
index 3ec4612..8ffd70e 100644
--- a/include/svs/core/data/simple.h
+++ b/include/svs/core/data/simple.h
@@ -595,7 +595,7 @@ class SimpleData<T, Extent, Blocked<Alloc>> {
               alloc.parameters().blocksize_bytes.value() / (sizeof(T) * n_dimensions)
           )}
         , blocks_{}
-        , dimensions_{n_dimensions}
+        , dimensions_{lib::as_integral(lib::forward_extent<Extent>(n_dimensions))}
         , size_{n_elements}
         , allocator_{alloc} {
         size_t elements_per_block = blocksize_.value();
-- 
2.43.0


From c6d2e032db69ca0188da1757bbe03e6fb01ddc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 08/18] fix: DynamicVamana::set_alpha takes the float it stores

The public setter took a size_t, so fractional values of alpha such as 1.2
were truncated to 1 before reaching the index.
---
 include/svs/orchestrators/dynamic_vamana.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/orchestrators/dynamic_vamana.h b/include/svs/orchestrators/dynamic_vamana.h
index daba2a5..f69d625 100644
--- a/include/svs/orchestrators/dynamic_vamana.h
+++ b/include/svs/orchestrators/dynamic_vamana.h
@@ -156,7 +156,7 @@ class DynamicVamana : public manager::IndexManager<DynamicVamanaInterface> {
 
     // Accessors
     float get_alpha() const { return impl_->get_alpha(); }
-    void set_alpha(size_t alpha) { impl_->set_alpha(alpha); }
+    void set_alpha(float alpha) { impl_->set_alpha(alpha); }
     size_t get_construction_window_size() const {
         return impl_->get_construction_window_size();
     }
-- 
2.43.0


From 90dea53a17ac7bb64e68e08613ce2c50a1115558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 09/18] fix: MutableVamanaIndex::compact keeps the whole batch
 size

The batch size arrives as a size_t but was truncated to the 32-bit index
type; a multiple of 2^32 became zero and compaction never terminated.
---
 include/svs/index/vamana/dynamic_index.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index febab42..71bfde8 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -683,7 +683,7 @@ class MutableVamanaIndex {
     /// @param batch_size Granularity at which points are shuffled. Setting this higher can
     ///     improve performance but requires more working memory.
     ///
-    void compact(Idx batch_size = 1'000) {
+    void compact(size_t batch_size = 1'000) {
         // Step 1: Compute a prefix-sum matching each valid internal index to its new
         // internal index.
         //
@@ -709,7 +709,7 @@ class MutableVamanaIndex {
         Idx start = 0;
         Idx max_index = new_to_old_id_map.size();
         while (start < max_index) {
-            Idx stop = std::min(start + batch_size, max_index);
+            Idx stop = std::min<size_t>(start + batch_size, max_index);
             // Remapping of start index to stop index.
             auto batch_to_new_id_map = threads::UnitRange{start, stop};
             auto this_batch = batch_to_new_id_map.eachindex();
-- 
2.43.0


From 42e696bebe17129debc019eda63e843402a63791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:23 +0000
Subject: [PATCH 10/18] fix: return *this from ReadWriteProtected's copy
 assignment

The copy-assignment operator ended without a return statement, which is
undefined behaviour: copying search parameters between indexes crashed or
ran into the following function.
---
 include/svs/lib/concurrency/readwrite_protected.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/svs/lib/concurrency/readwrite_protected.h b/include/svs/lib/concurrency/readwrite_protected.h
index 01c0423..5b3f56b 100644
--- a/include/svs/lib/concurrency/readwrite_protected.h
+++ b/include/svs/lib/concurrency/readwrite_protected.h
@@ -56,6 +56,7 @@ template <typename T> class ReadWriteProtected {
             return *this;
         }
         set(other.get());
+        return *this;
     }
 
     /// @brief Move construction by move-assigning the shared object.
-- 
2.43.0


From 6e07f1193a0337177794a1f4f65ce494c796a4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 11/18] fix: search the nearest cluster of an inverted index
 even at distance zero

---
 include/svs/index/inverted/memory_based.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index 6e5cf39..e1b5cf6 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -412,7 +412,7 @@ template <typename Index, typename Cluster> class InvertedIndex {
 
                     for (size_t j = 0, jmax = scratch_buffer.size(); j < jmax; ++j) {
                         auto candidate = scratch_buffer[j];
-                        if (!compare(candidate.distance(), cutoff_distance)) {
+                        if (compare(cutoff_distance, candidate.distance())) {
                             break;
                         }
 
-- 
2.43.0


From 81b96d5498036b1b27f521aa196fb5316b6b0aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:48 +0000
Subject: [PATCH 12/18] fix: keep 16-bit counters of the dynamic search buffer
 from wrapping around

The buffer keeps deleted candidates besides the valid ones, so its length is
not bounded by the 16-bit capacity. best_unvisited_, roi_end_ and valid_ were
stored in 16 bits and wrapped beyond 65535 held candidates, dropping
candidates that were still to be expanded.
---
 include/svs/index/vamana/dynamic_search_buffer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_search_buffer.h b/include/svs/index/vamana/dynamic_search_buffer.h
index 9b179bb..dfe6895 100644
--- a/include/svs/index/vamana/dynamic_search_buffer.h
+++ b/include/svs/index/vamana/dynamic_search_buffer.h
@@ -75,11 +75,11 @@ template <typename Idx, typename Cmp = std::less<>> class MutableBuffer {
     // Equivalent to the `search_buffer_capacity_` in the traditional search buffer.
     uint16_t valid_capacity_ = 0;
     // Index of the best unvisited candidate.
-    uint16_t best_unvisited_ = 0;
+    size_t best_unvisited_ = 0;
     // One past the "target_valid_"th entry.
-    uint16_t roi_end_ = 0;
+    size_t roi_end_ = 0;
     // number of valid neighbors.
-    uint16_t valid_ = 0;
+    size_t valid_ = 0;
     // A buffer of candidates.
     // Unlike the static buffer, this container *does* dynamically change size and does not
     // reserve one-past-the-end for copying neighbors.
@@ -426,7 +426,7 @@ template <typename Idx, typename Cmp = std::less<>> class MutableBuffer {
         size_t i = pos - start;
         valid_ += static_cast<size_t>(neighbor.valid());
         unsafe_insert(neighbor, pos, i);
-        best_unvisited_ = std::min(best_unvisited_, lib::narrow_cast<uint16_t>(i));
+        best_unvisited_ = std::min(best_unvisited_, i);
         return i;
     }
 
-- 
2.43.0


From b5058026554716fd5d65d2abaf5a72a1dbb594df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 13/18] fix: clamp the search buffer's size when its
 configuration shrinks

change_maxsize(SearchBufferConfig) reduced the storage but not the number of
valid elements, unlike change_maxsize(size_t), leaving size() past the end of
the storage.
---
 include/svs/index/vamana/search_buffer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/svs/index/vamana/search_buffer.h b/include/svs/index/vamana/search_buffer.h
index 3a9b6cf..68a3eea 100644
--- a/include/svs/index/vamana/search_buffer.h
+++ b/include/svs/index/vamana/search_buffer.h
@@ -185,6 +185,7 @@ template <typename Idx, typename Cmp = std::less<>> class SearchBuffer {
         search_window_size_ = config.get_search_window_size();
         capacity_ = config.get_total_capacity();
         candidates_.resize(capacity_ + 1);
+        size_ = std::min(size_, capacity_);
     }
 
     ///
-- 
2.43.0


From d606e031047deb91de72758013cf0e8f8a0f1347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 14/18] fix: k-means initialisation could pick an element past
 the end of the dataset

uniform_int_distribution includes its upper bound; asking for more cluster
centers than there are elements never terminated.
---
 include/svs/core/kmeans.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/kmeans.h b/include/svs/core/kmeans.h
index cfe02f5..19c18cd 100644
--- a/include/svs/core/kmeans.h
+++ b/include/svs/core/kmeans.h
@@ -147,11 +147,21 @@ data::SimpleData<float> train_impl(
 ) {
     size_t ndims = data.dimensions();
     auto num_clusters = parameters.clusters;
+    if (num_clusters > data.size()) {
+        throw ANNEXCEPTION(
+            "Cannot pick {} distinct cluster centers from {} elements!",
+            num_clusters,
+            data.size()
+        );
+    }
 
     // The cluster centroids
     auto centroids = data::SimpleData<float>{num_clusters, ndims};
     auto rng = std::mt19937_64(parameters.seed);
-    auto distribution = std::uniform_int_distribution<size_t>(0, data.size());
+    // N.B.: uniform_int_distribution is inclusive.
+    auto distribution = std::uniform_int_distribution<size_t>(
+        0, data.size() == 0 ? 0 : data.size() - 1
+    );
     std::unordered_set<size_t> seen{};
     for (size_t i = 0; i < num_clusters; ++i) {
         // Pick a vector a random.
-- 
2.43.0


From 25e5e845c65d25d90700c3435b4b83c4bf7e4c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 15/18] fix: selecting more centroids than elements never
 terminated

The precondition was only an assertion; report it instead.
---
 include/svs/index/inverted/clustering.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/inverted/clustering.h b/include/svs/index/inverted/clustering.h
index d8b9018..513fb57 100644
--- a/include/svs/index/inverted/clustering.h
+++ b/include/svs/index/inverted/clustering.h
@@ -155,7 +155,14 @@ std::vector<I, lib::Allocator<I>> randomly_select_centroids(
     // const ClusteringParameters& params,
     lib::Type<I> SVS_UNUSED(integer_type) = {}
 ) {
-    assert(num_centroids <= data_size);
+    // Distinct IDs are needed: asking for more than there are would never terminate.
+    if (data_size == 0 || num_centroids > data_size) {
+        throw ANNEXCEPTION(
+            "Cannot select {} distinct centroids from {} elements!",
+            num_centroids,
+            data_size
+        );
+    }
     auto rng = std::mt19937_64(seed);
     // N.B.: uniform_int_distribution is inclusive.
     auto distribution = std::uniform_int_distribution<I>(0, lib::narrow<I>(data_size - 1));
-- 
2.43.0


From 0a7054be67bf41e67968cc16963fe0fe0b79e469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:19 +0000
Subject: [PATCH 16/18] fix: return memory with the size and alignment it was
 requested with

The allocators passed the number of elements, not bytes, to the sized operator
delete, and lib::Allocator dropped the alignment.
---
 include/svs/lib/memory.h              |  2 +-
 include/svs/lib/threads/threadlocal.h | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/svs/lib/memory.h b/include/svs/lib/memory.h
index 57c7348..c03a0d3 100644
--- a/include/svs/lib/memory.h
+++ b/include/svs/lib/memory.h
@@ -56,7 +56,7 @@ template <typename T> struct Allocator {
     }
 
     constexpr void deallocate(value_type* ptr, size_t count) noexcept {
-        ::operator delete(ptr, count);
+        ::operator delete(ptr, count * sizeof(T), std::align_val_t(alignof(T)));
     }
 
     // Intercept zero-argument construction to do default initialization.
diff --git a/include/svs/lib/threads/threadlocal.h b/include/svs/lib/threads/threadlocal.h
index 5572769..f5e5f5f 100644
--- a/include/svs/lib/threads/threadlocal.h
+++ b/include/svs/lib/threads/threadlocal.h
@@ -72,12 +72,19 @@ template <typename T, size_t Alignment = CACHE_LINE_BYTES> struct AlignedAllocat
 
     // Methods
     value_type* allocate(size_t count) {
-        size_t bytes = alignment * lib::div_round_up(sizeof(T) * count, alignment);
-        return static_cast<value_type*>(::operator new(bytes, std::align_val_t{alignment}));
+        return static_cast<value_type*>(
+            ::operator new(bytes(count), std::align_val_t{alignment})
+        );
     }
 
     void deallocate(value_type* ptr, size_t count) noexcept {
-        ::operator delete(ptr, count, std::align_val_t{alignment});
+        ::operator delete(ptr, bytes(count), std::align_val_t{alignment});
+    }
+
+  private:
+    // The number of bytes used for an allocation of ``count`` objects.
+    static constexpr size_t bytes(size_t count) {
+        return alignment * lib::div_round_up(sizeof(T) * count, alignment);
     }
 };
 
-- 
2.43.0


From 3b28cde93dade1913cb2db195c299c9af98153d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:51 +0000
Subject: [PATCH 17/18] fix: do not leak the descriptor of a new file whose
 size is rejected

---
 include/svs/core/allocator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/allocator.h b/include/svs/core/allocator.h
index d97dbbe..33f94c1 100644
--- a/include/svs/core/allocator.h
+++ b/include/svs/core/allocator.h
@@ -449,13 +449,15 @@ class MemoryMapper {
         // existing mapping is large enough.
         int fd = -1;
         if (!exists) {
+            // Check the conversion first: the file is open once it can no longer throw.
+            auto last_byte = lib::narrow<int64_t>(bytes.value() - 1);
             // Try to create and resize the file.
             auto create_flags = O_RDWR | O_CREAT | O_TRUNC;
             fd = open(filename.c_str(), create_flags, static_cast<mode_t>(0600));
             if (fd == -1) {
                 throw ANNEXCEPTION("Could not create file {}!", filename);
             }
-            auto result = lseek(fd, lib::narrow<int64_t>(bytes.value() - 1), SEEK_SET);
+            auto result = lseek(fd, last_byte, SEEK_SET);
             if (result == -1) {
                 close(fd);
                 throw ANNEXCEPTION("Cannot resize mmap file");
-- 
2.43.0


From b6ff649f12ea6ed69e4958fd269909d96c0870bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:51 +0000
Subject: [PATCH 18/18] fix: release a hugepage mapping that could not be
 recorded

---
 include/svs/core/allocator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/allocator.h b/include/svs/core/allocator.h
index 33f94c1..b235348 100644
--- a/include/svs/core/allocator.h
+++ b/include/svs/core/allocator.h
@@ -129,9 +129,13 @@ class GenericHugepageAllocator {
 
     template <typename... Args> [[nodiscard]] void* allocate(size_t bytes, Args&&... args) {
         auto [ptr, sz] = hugepage_mmap(bytes, SVS_FWD(args)...);
-        {
+        try {
             std::lock_guard lock{mutex_};
             ptr_to_size_.insert({ptr, sz});
+        } catch (...) {
+            // Nobody else knows about this mapping.
+            munmap(ptr, sz);
+            throw;
         }
         return ptr;
     }
-- 
2.43.0

