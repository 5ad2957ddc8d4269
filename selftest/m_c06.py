DY = "index/vamana/dynamic_index.h"
VB = "index/vamana/vamana_build.h"
MARK = '''        // Mark all added entries as valid.
        for (const auto& i : slots) {
            status_[i] = SlotMetadata::Valid;
        }
        return slots;'''
CONS = "        builder.construct(alpha_, entry_point(), slots, logging::Level::Trace);\n"
CP = "        copy_points(points, slots);\n        clear_lists(slots);\n"
LOOP = '''            auto start = std::min(num_nodes, batchsize * batch_id) + base;
            auto stop = std::min(num_nodes, batchsize * (batch_id + 1)) + base;
'''
UPD = '''            for (auto [node_id, update] : thread_local_updates) {
                graph_.replace_node(node_id, update);
            }'''
ADD = '''                    if (graph_.get_node_degree(other_id) < params_.graph_max_degree) {
                        graph_.add_edge(other_id, node_id);
                    } else {
                        backedge_buffer_.add_edge(other_id, node_id);
                    }'''
M = [
 ("c06-b1", "C06", "bug", [(DY, CONS, '        for (const auto& i : slots) {\n            status_[i] = SlotMetadata::Valid;\n        }\n' + CONS)]),
 ("c06-b2", "C06", "bug", [(DY, "            if (status_[i] == SlotMetadata::Empty) {\n                slots.push_back(i);", "            if (status_[i] != SlotMetadata::Valid) {\n                slots.push_back(i);")]),
 ("c06-b3", "C06", "bug", [(DY, "            status_.resize(new_size, SlotMetadata::Empty);\n            // Append the correct", "            status_.resize(new_size, SlotMetadata::Valid);\n            // Append the correct")]),
 ("c06-b4", "C06", "bug", [(DY, CP, "        copy_points(points, slots);\n")]),
 ("c06-b5", "C06", "bug", [(DY, "            graph_.unsafe_resize(new_size);\n            status_", "            graph_.unsafe_resize(std::max(new_size, graph_.n_nodes() + 1));\n            status_")]),
 ("c06-b6", "C06", "bug", [(DY, MARK, MARK.replace("for (const auto& i : slots) {", "for (size_t k = 1; k < slots.size(); ++k) {\n            auto i = slots[k];"))]),
 ("c06-b7", "C06", "bug", [(VB, "size_t batchsize = lib::div_round_up(num_nodes, num_batches);", "size_t batchsize = std::max(num_nodes / num_batches, size_t{1});")]),
 ("c06-b8", "C06", "bug", [(VB, "for (size_t batch_id = 0; batch_id < num_batches; ++batch_id) {\n            // Set", "for (size_t batch_id = 0; batch_id + 1 < num_batches; ++batch_id) {\n            // Set")]),
 ("c06-b9", "C06", "bug", [(VB, "            add_reverse_edges(threads::IteratorPair{start, stop}, alpha, timer);", "            if (batch_id > 0) add_reverse_edges(threads::IteratorPair{start, stop}, alpha, timer);")]),
 ("c06-b10", "C06", "bug", [(VB, "                pool.clear();\n                search_buffer.clear();", "                search_buffer.clear();")]),
 ("c06-b11", "C06", "bug", [(VB, "                pool.clear();\n                search_buffer.clear();", "                pool.clear();\n                if (tracker.enabled()) search_buffer.clear();")]),
 ("c06-b12", "C06", "bug", [(VB, "        backedge_buffer_.reset();\n", "")]),
 ("c06-b13", "C06", "bug", [(VB, ADD, ADD.replace("} else {", "} else if (graph_.get_node_degree(node_id) < params_.prune_to) {"))]),
 ("c06-b14", "C06", "bug", [(VB, "                        graph_.add_edge(other_id, node_id);", "                        graph_.add_edge(node_id, other_id);")]),
 ("c06-b15", "C06", "bug", [(VB, "thread_local_updates.emplace_back(node_id, std::vector<Idx>{});", "thread_local_updates.emplace_back(local_indices.front(), std::vector<Idx>{});")]),
 ("c06-b16", "C06", "bug", [(VB, UPD, UPD.replace("graph_.replace_node(node_id, update);", "if (update.size() > 1) graph_.replace_node(node_id, update);"))]),
 ("c06-b17", "C06", "bug", [(VB, "                        graph_.replace_node(src, pruned_results);", "                        if (pruned_results.size() == params_.prune_to) graph_.replace_node(src, pruned_results);")]),
 ("c06-b18", "C06", "bug", [(VB, "                        candidates.clear();\n", "")]),
 ("c06-b19", "C06", "bug", [(VB, "auto [iterator, _] = map.try_emplace(src);\n        iterator.value().insert(dst);", "auto [iterator, fresh] = map.try_emplace(src);\n        if (fresh) iterator.value().insert(dst);")]),
 ("c06-b20", "C06", "bug", [(VB, "for (size_t i = 0, imax = num_buckets(); i < imax; ++i) {", "for (size_t i = 1, imax = num_buckets(); i < imax; ++i) {")]),
 ("c06-b21", "C06", "bug", [(DY, "        translator_.insert(external_ids, slots);\n\n        // Copy the given points into the data and clear the adjacency lists for the graph.\n" + CP, "        // Copy the given points into the data and clear the adjacency lists for the graph.\n" + CP + "        translator_.insert(external_ids, slots);\n")]),
 ("c06-b22", "C06", "bug", [(VB, "const auto& thread_local_updates = updates.at(tid);\n            for", "const auto& thread_local_updates = updates.at(tid / 2);\n            for")]),
 ("c06-b23", "C06", "bug", [(DY, CONS, "        if (slots.size() > 1)\n    " + CONS)]),
 ("c06-s1", "C06", "same", [(DY, MARK, '''        for (size_t k = 0, kmax = slots.size(); k < kmax; ++k) {
            status_[slots[k]] = SlotMetadata::Valid;
        }
        return slots;''')]),
 ("c06-s2", "C06", "same", [(DY, '''            if (slots.size() == num_points) {
                break;
            }
            if (status_[i] == SlotMetadata::Empty) {
                slots.push_back(i);
            }''', '''            if (slots.size() >= num_points) {
                break;
            }
            if (status_[i] != SlotMetadata::Empty) {
                continue;
            }
            slots.push_back(i);''')]),
 ("c06-s3", "C06", "same", [(DY, CP, "        clear_lists(slots);\n        copy_points(points, slots);\n")]),
 ("c06-s4", "C06", "same", [(VB, LOOP, '''            const size_t first = std::min(num_nodes, batchsize * batch_id);
            const size_t last = std::min(batchsize + batchsize * batch_id, num_nodes);
            auto start = base + first;
            auto stop = base + last;
''')]),
 ("c06-s5", "C06", "same", [(VB, UPD, '''            for (const auto& kv : thread_local_updates) {
                graph_.replace_node(kv.first, kv.second);
            }'''), (VB, ADD, '''                    const bool full = graph_.get_node_degree(other_id) >= params_.graph_max_degree;
                    if (full) {
                        backedge_buffer_.add_edge(other_id, node_id);
                    } else {
                        graph_.add_edge(other_id, node_id);
                    }''')]),
 ("c06-s6", "C06", "same", [(VB, "auto [iterator, _] = map.try_emplace(src);\n        iterator.value().insert(dst);", "map[src].insert(dst);")]),
 ("c06-s7", "C06", "same", [(VB, "for (size_t i = 0, imax = num_buckets(); i < imax; ++i) {\n            std::lock_guard lock(bucket_locks_.at(i));\n            buckets_.at(i).clear();\n        }", "size_t i = 0;\n        for (auto& bucket : buckets_) {\n            std::lock_guard lock(bucket_locks_.at(i));\n            bucket.clear();\n            ++i;\n        }")]),
 ("c06-s8", "C06", "same", [(VB, UPD, '''            const size_t count = thread_local_updates.size();
            for (size_t k = 0; k < count; ++k) {
                const auto& kv = thread_local_updates[k];
                graph_.replace_node(kv.first, kv.second);
            }'''), (DY, "            threads::UnitRange<size_t> extra_points{current_size, current_size + needed};\n            slots.insert(slots.end(), extra_points.begin(), extra_points.end());", "            for (size_t i = current_size; i < new_size; ++i) {\n                slots.push_back(i);\n            }")]),
 ("c06-s9", "C06", "same", [(VB, '''                        for (auto n : neighbors) {
                            candidates.push_back(make_neighbor(n));
                        }''', '''                        for (auto it = neighbors.begin(); it != neighbors.end(); ++it) {
                            const auto other = *it;
                            candidates.push_back(make_neighbor(other));
                        }'''), (VB, "                thread_local_updates.emplace_back(node_id, std::vector<Idx>{});\n                auto& pruned_results = thread_local_updates.back().second;", "                auto& entry = thread_local_updates.emplace_back(node_id, std::vector<Idx>{});\n                auto& pruned_results = entry.second;")]),
 ("c06-s10", "C06", "same", [(VB, "        size_t batchsize = lib::div_round_up(num_nodes, num_batches);", "        size_t batchsize = (num_nodes + num_batches - 1) / num_batches;"), (DY, '''            size_t needed = num_points - slots.size();
            size_t current_size = data_.size();
            size_t new_size = current_size + needed;''', '''            const size_t current_size = data_.size();
            const size_t needed = num_points - slots.size();
            const size_t new_size = needed + current_size;''')]),
]
