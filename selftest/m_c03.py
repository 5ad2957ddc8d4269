D = "index/vamana/dynamic_index.h"
SB = "index/vamana/dynamic_search_buffer.h"
G = "index/vamana/greedy_search.h"
F = "index/flat/flat.h"
E = "index/vamana/extensions.h"
M = [
 ("c03-noclean", "C03", "bug", [(D, "            buffer.cleanup();\n", "            if (buffer.full()) { buffer.cleanup(); }\n")]),
 ("c03-pred", "C03", "bug", [(SB, "return !x.valid(); }", "return !x.valid() && x.visited(); }")]),
 ("c03-range", "C03", "bug", [(SB, "            std::remove_if(begin(), end(),", "            std::remove_if(begin(), begin() + roi_end_,")]),
 ("c03-noshrink", "C03", "bug", [(SB, "        candidates_.resize(new_end - begin());", "        roi_end_ = new_end - begin();")]),
 ("c03-mark", "C03", "bug", [(D, "            delete_entry(translator_.get_internal(i));", "            auto s = translator_.get_internal(i); if (s != entry_point()) { delete_entry(s); }")]),
 ("c03-flag", "C03", "bug", [(D, "bool invalid = getindex(status_, i) == SlotMetadata::Deleted;", "bool invalid = getindex(status_, i) == SlotMetadata::Empty;")]),
 ("c03-isdel", "C03", "bug", [(D, "return status_[i] != SlotMetadata::Valid; }", "return status_[i] == SlotMetadata::Deleted; }")]),
 ("c03-cand", "C03", "bug", [(G, "            search_buffer.insert(builder(id, dist));", "            search_buffer.insert(builder(id, distance::compute(distance_function, query, accessor(dataset, node_id))));")]),
 ("c03-cand2", "C03", "bug", [(D, "        bool invalid = getindex(status_, i) == SlotMetadata::Deleted;", "        bool invalid = getindex(status_, i / 2) == SlotMetadata::Deleted;")]),
 ("c03-exh", "C03", "bug", [(F, "                threads::UnitRange(start, stop),\n                scratch,\n                search_parameters,\n                predicate\n", "                threads::UnitRange(start, stop),\n                scratch,\n                search_parameters\n")]),
 ("c03-exh2", "C03", "bug", [(D, "return getindex(status_, i) == SlotMetadata::Valid;", "return getindex(status_, i) != SlotMetadata::Deleted;")]),
 ("c03-once", "C03", "bug", [(D, "            buffer.cleanup();\n", "")]),
 ("c03-same1", "C03", "same", [(D, "        bool invalid = getindex(status_, i) == SlotMetadata::Deleted;", "        const auto state = getindex(status_, i);\n        bool invalid = !(state == SlotMetadata::Valid || state == SlotMetadata::Empty);")]),
 ("c03-same2", "C03", "same", [(SB, "        auto new_end =\n            std::remove_if(begin(), end(), [](const auto& x) { return !x.valid(); });\n        candidates_.resize(new_end - begin());", "        size_t kept = 0;\n        for (size_t i = 0; i < candidates_.size(); ++i) {\n            if (candidates_[i].valid()) { candidates_[kept] = candidates_[i]; ++kept; }\n        }\n        candidates_.resize(kept);")]),
 ("c03-same3", "C03", "same", [(F, "            if (!predicate(data_index)) {\n                continue;\n            }\n", "            const bool take = predicate(data_index);\n            if (take == false) continue;\n")]),
 ("c03-same4", "C03", "same", [(D, "        for (auto i : ids) {\n            delete_entry(translator_.get_internal(i));\n        }\n", "        std::vector<size_t> gone{};\n        for (auto i : ids) { gone.push_back(translator_.get_internal(i)); }\n        for (size_t k = 0; k < gone.size(); ++k) { delete_entry(gone[k]); }\n")]),
 ("c03-same5", "C03", "same", [(SB, "        auto new_end =\n            std::remove_if(begin(), end(), [](const auto& x) { return !x.valid(); });\n        candidates_.resize(new_end - begin());", "        auto dead = [](const auto& x) { return !x.valid(); };\n        candidates_.erase(std::remove_if(candidates_.begin(), candidates_.end(), dead), candidates_.end());")]),
 ("c03-same6", "C03", "same", [(G, "            auto dist = distance::compute(distance_function, query, accessor(dataset, id));\n            search_buffer.insert(builder(id, dist));", "            const auto datum = accessor(dataset, id);\n            const auto candidate = builder(id, distance::compute(distance_function, query, datum));\n            search_buffer.insert(candidate);")]),
]
