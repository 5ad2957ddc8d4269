DY = "index/vamana/dynamic_index.h"
CO = "index/vamana/consolidate.h"
ME = "core/medioid.h"
M = [
 ("c04-b1", "C04", "bug", [(CO, "            if (is_deleted(src)) {\n                continue;\n            }\n\n", "            if (is_deleted(src) || global_ids[i] == 0) {\n                continue;\n            }\n\n")]),
 ("c04-b2", "C04", "bug", [(CO, "if (std::none_of(neighbors.begin(), neighbors.end(), is_deleted)) {", "if (!neighbors.empty() && !is_deleted(neighbors.front()) && !is_deleted(neighbors.back())) {")]),
 ("c04-b3", "C04", "bug", [(CO, "        all_candidates.clear();\n", "")]),
 ("c04-b4", "C04", "bug", [(CO, "            if (is_deleted(dst)) {\n                continue;\n            }\n\n            valid_candidates", "            valid_candidates")]),
 ("c04-b5", "C04", "bug", [(CO, "        valid_candidates.clear();\n", "")]),
 ("c04-b6", "C04", "bug", [(CO, "                all_candidates.insert(others.begin(), others.end());\n", "                if (others.size() <= neighbors.size()) all_candidates.insert(others.begin(), others.end());\n")]),
 ("c04-b7", "C04", "bug", [(CO, "                all_candidates.insert(others.begin(), others.end());\n            } else {\n                all_candidates.insert(dst);\n            }", "                all_candidates.insert(others.begin(), others.end());\n            } else if (all_candidates.empty()) {\n                all_candidates.insert(dst);\n            }")]),
 ("c04-b8", "C04", "bug", [(CO, "update_buffer.insert(i, final_candidates);", "update_buffer.insert(i, final_candidates);\n            if (final_candidates.empty()) { break; }")]),
 ("c04-b9", "C04", "bug", [(CO, "update_buffer.insert(i, final_candidates);", "if (!final_candidates.empty()) update_buffer.insert(i, final_candidates);")]),
 ("c04-b10", "C04", "bug", [(CO, "graph_.replace_node(global_ids[i], update_buffer.get_update(i));", "graph_.replace_node(i, update_buffer.get_update(i));")]),
 ("c04-b11", "C04", "bug", [(CO, "            update_buffer.prepare();\n", "")]),
 ("c04-b12", "C04", "bug", [(CO, "            update_buffer.prepare();\n            threads::UnitRange global_ids{start, stop};\n", "            threads::UnitRange global_ids{start, stop};\n"), (CO, "        size_t start = 0;\n        while (start < num_nodes) {", "        size_t start = 0;\n        update_buffer.prepare();\n        while (start < num_nodes) {")]),
 ("c04-b13", "C04", "bug", [(CO, "            // Prepare for the next iteration.\n            start = stop;", "            start = stop + 1;")]),
 ("c04-b14", "C04", "bug", [(CO, "        while (start < num_nodes) {", "        while (start + 1 < num_nodes) {")]),
 ("c04-b15", "C04", "bug", [(CO, "std::min(params_.update_batch_size, num_nodes);", "num_nodes;")]),
 ("c04-b16", "C04", "bug", [(CO, "void prepare() { std::fill(needs_update_.begin(), needs_update_.end(), false); }", "void prepare() { std::fill(needs_update_.begin() + 1, needs_update_.end(), false); }")]),
 ("c04-b17", "C04", "bug", [(CO, "lengths_.at(src) = lib::narrow_cast<I>(neighbors.size());", "lengths_.at(src) = std::max(lengths_.at(src), lib::narrow_cast<I>(neighbors.size()));")]),
 ("c04-b18", "C04", "bug", [(CO, "std::copy(neighbors.begin(), neighbors.end(), neighbors_.slice(src).begin());", "std::copy(neighbors.begin(), neighbors.end(), neighbors_.slice(src / 2).begin());")]),
 ("c04-b19", "C04", "bug", [(CO, "return needs_update_.at(src);", "return lengths_.at(src) != 0;")]),
 ("c04-b20", "C04", "bug", [(DY, "        if (status_.at(entry_point) == SlotMetadata::Deleted) {", "        if (status_.at(entry_point) == SlotMetadata::Empty) {")]),
 ("c04-b21", "C04", "bug", [(DY, "extensions::compute_entry_point(data_, threadpool_, valid);", "extensions::compute_entry_point(data_, threadpool_);")]),
 ("c04-b22", "C04", "bug", [(DY, "auto valid = [&](size_t i) { return !(this->is_deleted(i)); };", "auto valid = [&](size_t i) { return status_[i] != SlotMetadata::Empty; };")]),
 ("c04-b23", "C04", "bug", [(ME, "            for (auto i : ids) {\n                if (!predicate(i)) {\n                    continue;\n                }\n\n                double distance", "            for (auto i : ids) {\n                double distance")]),
 ("c04-b24", "C04", "bug", [(DY, "            if (status == SlotMetadata::Deleted) {\n                status = SlotMetadata::Empty;", "            if (status != SlotMetadata::Empty) {\n                status = SlotMetadata::Empty;")]),
 ("c04-b25", "C04", "bug", [(CO, "                graph_.replace_node(global_ids[i], update_buffer.get_update(i));", "                if (update_buffer.get_update(i).size() > 0) graph_.replace_node(global_ids[i], update_buffer.get_update(i));")]),
 ("c04-b26", "C04", "bug", [(CO, "            if (is_deleted(dst)) {\n                const auto& others", "            if (is_deleted(dst) && all_candidates.size() < params_.max_candidate_pool_size) {\n                const auto& others")]),
 ("c04-s1", "C04", "same", [(CO, "if (std::none_of(neighbors.begin(), neighbors.end(), is_deleted)) {", "if (!std::any_of(neighbors.begin(), neighbors.end(), is_deleted)) {")]),
 ("c04-s2", "C04", "same", [(CO, "            if (std::none_of(neighbors.begin(), neighbors.end(), is_deleted)) {\n                continue;\n            }", "            bool any = false;\n            for (auto n : neighbors) {\n                if (is_deleted(n)) {\n                    any = true;\n                    break;\n                }\n            }\n            if (!any) {\n                continue;\n            }")]),
 ("c04-s3", "C04", "same", [(CO, "                all_candidates.insert(others.begin(), others.end());\n", "                for (auto o : others) {\n                    all_candidates.insert(o);\n                }\n")]),
 ("c04-s4", "C04", "same", [(CO, "        while (start < num_nodes) {\n            size_t stop = std::min(num_nodes, start + update_batch_size);", "        for (; start < num_nodes;) {\n            const size_t remaining = num_nodes - start;\n            const size_t stop = start + std::min(remaining, update_batch_size);")]),
 ("c04-s5", "C04", "same", [(CO, "            if (is_deleted(dst)) {\n                continue;\n            }\n\n            valid_candidates.push_back(\n                {dst, distance::compute(distance, src_data, accessor(data_, dst))}\n            );", "            if (!is_deleted(dst)) {\n                const auto d = distance::compute(distance, src_data, accessor(data_, dst));\n                valid_candidates.emplace_back(dst, d);\n            }")]),
 ("c04-s6", "C04", "same", [(CO, "            if (update_buffer.needs_update(i)) {\n                graph_.replace_node(global_ids[i], update_buffer.get_update(i));\n            }", "            if (!update_buffer.needs_update(i)) {\n                continue;\n            }\n            const auto vertex = global_ids[i];\n            const auto update = update_buffer.get_update(i);\n            graph_.replace_node(vertex, update);")]),
 ("c04-s7", "C04", "same", [(CO, "void prepare() { std::fill(needs_update_.begin(), needs_update_.end(), false); }", "void prepare() {\n        for (auto& u : needs_update_) {\n            u = false;\n        }\n    }")]),
 ("c04-s8", "C04", "same", [(CO, "        needs_update_.at(src) = true;\n", ""), (CO, "std::copy(neighbors.begin(), neighbors.end(), neighbors_.slice(src).begin());", "auto row = neighbors_.slice(src);\n        for (size_t k = 0, n = neighbors.size(); k < n; ++k) {\n            row[k] = neighbors[k];\n        }\n        needs_update_.at(src) = true;")]),
 ("c04-s9", "C04", "same", [(DY, "        for (auto& status : status_) {\n            if (status == SlotMetadata::Deleted) {\n                status = SlotMetadata::Empty;\n            }\n        }", "        for (size_t i = 0, imax = status_.size(); i < imax; ++i) {\n            if (status_[i] == SlotMetadata::Deleted) {\n                status_[i] = SlotMetadata::Empty;\n            }\n        }")]),
 ("c04-s10", "C04", "same", [(DY, "auto valid = [&](size_t i) { return !(this->is_deleted(i)); };", "auto valid = [this](size_t i) { return status_[i] == SlotMetadata::Valid; };")]),
 ("c04-s11", "C04", "same", [(DY, "        // Perform graph consolidation.", "        // Reset points that were deleted.\n        auto consolidate_logger = svs::logging::get();\n        svs::logging::debug(consolidate_logger, \"consolidating {}\", size());")]),
 ("c04-s12", "C04", "same", [(CO, "            size_t src = global_ids[i];\n\n            if (is_deleted(src)) {\n                continue;\n            }\n\n", "            size_t src = global_ids[i];\n            const bool skip = is_deleted(src);\n            if (skip) {\n                continue;\n            }\n\n")]),
]
