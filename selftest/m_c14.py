V = "index/vamana/vamana_build.h"
C = "index/vamana/consolidate.h"
LOCK = "                    std::lock_guard lock{vertex_locks_[other_id]};\n"
DEG = "                    if (graph_.get_node_degree(other_id) < params_.graph_max_degree) {\n                        graph_.add_edge(other_id, node_id);\n"
BL = "        std::lock_guard lock(bucket_locks_.at(bucket));\n        // Get the"
UPD = "            const auto& thread_local_updates = updates.at(tid);\n            for (auto [node_id, update] : thread_local_updates) {\n                graph_.replace_node(node_id, update);\n            }\n"
M = [
    ("c14-nolock", "C14", "bug", [(V, LOCK, "")]),
    ("c14-wronglock", "C14", "bug", [(V, LOCK, "                    std::lock_guard lock{vertex_locks_[node_id]};\n")]),
    ("c14-temporary", "C14", "bug", [(V, LOCK, "                    { std::lock_guard lock{vertex_locks_[other_id]}; }\n")]),
    ("c14-degreeoutside", "C14", "bug", [(V, LOCK + DEG, "                    const bool room = graph_.get_node_degree(other_id) < params_.graph_max_degree;\n" + LOCK + "                    if (room) {\n                        graph_.add_edge(other_id, node_id);\n")]),
    ("c14-noedge", "C14", "bug", [(V, "        , vertex_locks_(data.size())", "        , vertex_locks_(params.graph_max_degree)")]),
    ("c14-locallock", "C14", "bug", [(V, LOCK, "                    SpinLock mine{};\n                    std::lock_guard lock{mine};\n")]),
    ("c14-bucketlock0", "C14", "bug", [(V, "std::lock_guard lock(bucket_locks_.at(bucket));", "std::lock_guard lock(bucket_locks_.at(dst / bucket_size_));")]),
    ("c14-nobucketlock", "C14", "bug", [(V, "        std::lock_guard lock(bucket_locks_.at(bucket));\n", "")]),
    ("c14-bucketdst", "C14", "bug", [(V, "size_t bucket = src / bucket_size_;", "size_t bucket = (src + dst) / bucket_size_ % buckets_.size();")]),
    ("c14-inplace", "C14", "bug", [(V, "                    pruned_results\n                );\n            }\n        });\n\n        main.finish();", "                    pruned_results\n                );\n                graph_.replace_node(node_id, pruned_results);\n            }\n        });\n\n        main.finish();")]),
    ("c14-others", "C14", "bug", [(V, "            const auto& thread_local_updates = updates.at(tid);\n            for (auto", "            const auto& thread_local_updates = updates.at(0);\n            for (auto")]),
    ("c14-samebucket", "C14", "bug", [(V, "                for (auto& bucket : buckets) {\n", "                for (auto& bucket : backedge_buffer_.buckets()) {\n                    (void)buckets;\n")]),
    ("c14-consolidate-inplace", "C14", "bug", [(C, "            update_buffer.insert(i, final_candidates);\n", "            graph_.replace_node(src, std::span<const I>{final_candidates.data(), final_candidates.size()});\n            update_buffer.insert(i, final_candidates);\n")]),
    ("c14-apply-all", "C14", "bug", [(C, "apply_updates(update_buffer, global_ids, threads::UnitRange(local_ids));", "(void)local_ids; apply_updates(update_buffer, global_ids, threads::UnitRange<size_t>(0, global_ids.size()));")]),
    ("c14-unlockearly", "C14", "bug", [(V, LOCK + DEG, "                    vertex_locks_[other_id].lock();\n                    const bool room = graph_.get_node_degree(other_id) < params_.graph_max_degree;\n                    vertex_locks_[other_id].unlock();\n                    if (room) {\n                        graph_.add_edge(other_id, node_id);\n")]),
    ("c14-neverunlock", "C14", "bug", [(V, LOCK, "                    vertex_locks_[other_id].lock();\n")]),
    ("c14-trylock", "C14", "bug", [(V, LOCK, "                    std::unique_lock lock{vertex_locks_[other_id], std::try_to_lock};\n")]),
    ("c14-twolocks", "C14", "bug", [(V, LOCK, "                    std::lock_guard first{vertex_locks_[node_id]};\n                    if (other_id == node_id) { continue; }\n" + LOCK)]),
    # same behaviour
    ("c14-same-unique", "C14", "same", [(V, LOCK, "                    std::unique_lock<SpinLock> lock{vertex_locks_.at(other_id)};\n")]),
    ("c14-same-scoped", "C14", "same", [(V, LOCK, "                    std::scoped_lock lock{vertex_locks_[other_id]};\n")]),
    ("c14-same-manual", "C14", "same", [(V, LOCK + DEG + "                    } else {\n                        backedge_buffer_.add_edge(other_id, node_id);\n                    }\n",
        "                    auto& lock = vertex_locks_[other_id];\n                    lock.lock();\n                    const size_t degree = graph_.get_node_degree(other_id);\n                    if (degree >= params_.graph_max_degree) {\n                        lock.unlock();\n                        backedge_buffer_.add_edge(other_id, node_id);\n                        continue;\n                    }\n                    graph_.add_edge(other_id, node_id);\n                    lock.unlock();\n")]),
    ("c14-same-helper", "C14", "same", [(V, LOCK + DEG + "                    } else {\n                        backedge_buffer_.add_edge(other_id, node_id);\n                    }\n", "                    link_back(other_id, node_id);\n"),
        (V, "    ///\n    /// Add reverse edges to the graph.\n", "    void link_back(Idx dst, Idx src) {\n        bool overflow = false;\n        {\n            std::lock_guard lock{vertex_locks_[dst]};\n            overflow = !(graph_.get_node_degree(dst) < params_.graph_max_degree);\n            if (!overflow) { graph_.add_edge(dst, src); }\n        }\n        if (overflow) { backedge_buffer_.add_edge(dst, src); }\n    }\n\n    ///\n    /// Add reverse edges to the graph.\n")]),
    ("c14-same-indexloop", "C14", "same", [(V, "                for (auto other_id : graph_.get_node(node_id)) {\n", "                auto list = graph_.get_node(node_id);\n                for (size_t k = 0; k < list.size(); ++k) {\n                    const auto other_id = list[k];\n")]),
    ("c14-same-bucketfn", "C14", "same", [(V, "size_t bucket = src / bucket_size_;", "const size_t bucket = bucket_of(src);"), (V, "    void add_edge(Idx src, Idx dst) {", "    size_t bucket_of(Idx v) const { return v / bucket_size_; }\n    void add_edge(Idx src, Idx dst) {")]),
    ("c14-same-chunk", "C14", "same", [(V, "threads::DynamicPartition{backedge_buffer_.buckets(), 1}", "threads::DynamicPartition{backedge_buffer_.buckets(), 4}")]),
    ("c14-same-static", "C14", "same", [(V, "threads::DynamicPartition{backedge_buffer_.buckets(), 1}", "threads::StaticPartition{backedge_buffer_.buckets()}")]),
    ("c14-same-update", "C14", "same", [(V, "            for (auto [node_id, update] : thread_local_updates) {\n                graph_.replace_node(node_id, update);\n            }\n", "            for (size_t k = 0; k < thread_local_updates.size(); ++k) {\n                const auto& entry = thread_local_updates[k];\n                graph_.replace_node(entry.first, entry.second);\n            }\n")]),
    ("c14-same-log", "C14", "same", [(V, "        backedge_timer.finish();\n", "        backedge_timer.finish();\n        const size_t seen = backedge_buffer_.buckets().size();\n        (void)seen;\n")]),
]
