DY = "index/vamana/dynamic_index.h"
CO = "core/compact.h"
DS = "core/data/simple.h"
T = '''                            [&old_to_new_id_map](Idx old_id) {
                                return old_to_new_id_map.at(old_id);
                            }'''
M = [
 ("c05-b1", "C05", "bug", [(DY, "            if (status_[i] != SlotMetadata::Empty) {\n                indices.push_back(i);", "            if (status_[i] == SlotMetadata::Valid) {\n                indices.push_back(i);")]),
 ("c05-b2", "C05", "bug", [(DY, "old_to_new_id_map.insert({old_id, new_id});", "old_to_new_id_map.insert({new_id, old_id});")]),
 ("c05-b3", "C05", "bug", [(DY, "        data_.compact(lib::as_const_span(new_to_old_id_map), threadpool_, batch_size);\n", "        if (new_to_old_id_map.size() > batch_size) data_.compact(lib::as_const_span(new_to_old_id_map), threadpool_, batch_size);\n")]),
 ("c05-b4", "C05", "bug", [(DY, "const auto& list = graph_.get_node(old_id);", "const auto& list = graph_.get_node(new_to_old_id_map[batch_id]);")]),
 ("c05-b5", "C05", "bug", [(DY, "graph_.replace_node(new_id, temp_graph.get_node(batch_id));", "graph_.replace_node(batch_id, temp_graph.get_node(batch_id));")]),
 ("c05-b6", "C05", "bug", [(DY, "                return old_to_new_id_map.at(old_id);", "                auto itr = old_to_new_id_map.find(old_id);\n                return itr == old_to_new_id_map.end() ? old_id : itr->second;")]),
 ("c05-b7", "C05", "bug", [(DY, "            if (status == SlotMetadata::Valid) {\n                translator_.remap_internal_id(old_id, new_id);\n            }\n        }\n        status_.resize", "            translator_.remap_internal_id(old_id, new_id);\n        }\n        status_.resize")]),
 ("c05-b8", "C05", "bug", [(DY, "                translator_.remap_internal_id(old_id, new_id);", "                translator_.remap_internal_id(new_id, old_id);")]),
 ("c05-b9", "C05", "bug", [(DY, "            status_[new_id] = status;\n            if", "            if")]),
 ("c05-b10", "C05", "bug", [(DY, "        for (auto& ep : entry_point_) {\n            ep = old_to_new_id_map.at(ep);\n        }\n", "        if (entry_point_.front() >= max_index) {\n            entry_point_.front() = old_to_new_id_map.at(entry_point_.front());\n        }\n")]),
 ("c05-b11", "C05", "bug", [(DY, "        for (size_t new_id = 0; new_id < max_index; ++new_id) {", "        for (size_t new_id = max_index; new_id-- > 0;) {")]),
 ("c05-b12", "C05", "bug", [(DY, "        // Compact the data.\n        data_.compact", "        data_.resize(new_to_old_id_map.size());\n        // Compact the data.\n        data_.compact")]),
 ("c05-b13", "C05", "bug", [(DY, "            Idx stop = std::min(start + batch_size, max_index);", "            Idx stop = std::min(start + batch_size, Idx(max_index - 1));\n            if (stop == start) { break; }")]),
 ("c05-b14", "C05", "bug", [(DY, "        consolidate();\n        compact();\n\n        // Save aux", "        compact();\n        consolidate();\n\n        // Save aux")]),
 ("c05-b15", "C05", "bug", [(DY, "        consolidate();\n        compact();\n\n        // Save aux", "        if (size() != status_.size()) {\n            consolidate();\n            compact();\n        }\n        // Save aux")]),
 ("c05-b16", "C05", "bug", [(CO, "data.set_datum(new_id, buffer.get_datum(batch_id));", "data.set_datum(batch_id, buffer.get_datum(batch_id));")]),
 ("c05-b17", "C05", "bug", [(CO, "auto old_id = new_to_old[batch_to_new[batch_id]];", "auto old_id = new_to_old[batch_id];")]),
 ("c05-b18", "C05", "bug", [(CO, '''                    buffer.set_datum(batch_id, data.get_datum(old_id));
                }
            }
        );

        // Copy back from the buffer to the new location in the original dataset.
        threads::run(
            threadpool,
            threads::StaticPartition(this_batch),
            [&](const auto& batch_ids, uint64_t SVS_UNUSED(tid)) {
                for (auto batch_id : batch_ids) {
''', '''                    buffer.set_datum(batch_id, data.get_datum(old_id));
''')]),
 ("c05-b19", "C05", "bug", [(DS, '''        batchsize = std::min(batchsize, size());
        auto buffer = data::SimpleData<T, Extent>(batchsize, dimensions());
        compact_data(*this, buffer, new_to_old, threadpool);
    }

    template <std::integral I>
        requires(!is_const)''', '''        batchsize = std::min(batchsize, size());
        auto buffer = data::SimpleData<T, Extent>(batchsize, dimensions());
        compact_data(*this, buffer, new_to_old.first(batchsize), threadpool);
    }

    template <std::integral I>
        requires(!is_const)''')]),
 ("c05-b20", "C05", "bug", [(DY, "        graph_.unsafe_resize(max_index);\n        data_.resize(max_index);\n", "        graph_.unsafe_resize(max_index);\n")]),
 ("c05-b21", "C05", "bug", [(DY, "                        buffer.resize(list.size());\n", "                        buffer.resize(std::max(buffer.size(), list.size()));\n")]),
 ("c05-s1", "C05", "same", [(DY, '''                        buffer.resize(list.size());

                        // Transform the adjacency list from old to new.
                        std::transform(
                            list.begin(),
                            list.end(),
                            buffer.begin(),
''' + T + '''
                        );
''', '''                        buffer.clear();
                        for (auto neighbor : list) {
                            buffer.push_back(old_to_new_id_map.at(neighbor));
                        }
''')]),
 ("c05-s2", "C05", "same", [(DY, '''        auto new_to_old_id_map = nonmissing_indices();
''', '''        auto new_to_old_id_map = std::vector<Idx>();
        for (size_t i = 0; i < status_.size(); ++i) {
            if (status_[i] == SlotMetadata::Empty) {
                continue;
            }
            new_to_old_id_map.push_back(i);
        }
''')]),
 ("c05-s3", "C05", "same", [(DY, '''            if (new_id == old_id) {
                continue;
            }

            auto status = getindex(status_, old_id);
            status_[new_id] = status;
''', '''            auto status = getindex(status_, old_id);
            status_[new_id] = status;
            if (new_id == old_id) {
                continue;
            }
''')]),
 ("c05-s4", "C05", "same", [(DY, '''        for (auto& ep : entry_point_) {
            ep = old_to_new_id_map.at(ep);
        }
''', '''        for (size_t i = 0; i < entry_point_.size(); ++i) {
            const auto old_entry = entry_point_[i];
            entry_point_[i] = old_to_new_id_map.at(old_entry);
        }
''')]),
 ("c05-s5", "C05", "same", [(DY, '''        graph_.unsafe_resize(max_index);
        data_.resize(max_index);

''', ''), (DY, "        status_.resize(max_index);\n\n        // Update entry points.", "        status_.resize(max_index);\n        data_.resize(max_index);\n        graph_.unsafe_resize(max_index);\n\n        // Update entry points.")]),
 ("c05-s6", "C05", "same", [(DY, '''        while (start < max_index) {
            Idx stop = std::min(start + batch_size, max_index);''', '''        for (Idx stop; start < max_index; start = stop) {
            stop = std::min(start + batch_size, max_index);'''), (DY, "            start = stop;\n        }\n\n        ///// Finishing", "        }\n\n        ///// Finishing")]),
 ("c05-s7", "C05", "same", [(DY, '''            Idx old_id = new_to_old_id_map.at(new_id);
            old_to_new_id_map.insert({old_id, new_id});''', '''            old_to_new_id_map[new_to_old_id_map[new_id]] = new_id;''')]),
 ("c05-s8", "C05", "same", [(CO, '''    while (start < end) {
        size_t stop = std::min(start + batchsize, end);''', '''    while (start != end) {
        size_t stop = start + batchsize < end ? start + batchsize : end;''')]),
 ("c05-s9", "C05", "same", [(CO, '''                    auto new_id = batch_to_new[batch_id];
                    data.set_datum(new_id, buffer.get_datum(batch_id));''', '''                    const auto moved = buffer.get_datum(batch_id);
                    data.set_datum(start + batch_id, moved);''')]),
 ("c05-s10", "C05", "same", [(DY, '''        // Compact the data.
        data_.compact(lib::as_const_span(new_to_old_id_map), threadpool_, batch_size);
''', ''), (DY, "        ///// Finishing steps.\n", "        data_.compact(lib::as_const_span(new_to_old_id_map), threadpool_, batch_size);\n        ///// Finishing steps.\n")]),
 ("c05-s11", "C05", "same", [(DY, '''            if (status == SlotMetadata::Valid) {
                translator_.remap_internal_id(old_id, new_id);
            }
        }
        status_.resize''', '''            if (status != SlotMetadata::Valid) {
                continue;
            }
            translator_.remap_internal_id(old_id, new_id);
        }
        status_.resize''')]),
]
