T = "core/translation.h"
D = "index/vamana/dynamic_index.h"
S = "index/vamana/index.h"
B = "index/vamana/vamana_build.h"
M = [
 ("c02-order", "C02", "bug", [(D, "        translator_.insert(external_ids, slots);\n\n", ""), (D, "        copy_points(points, slots);\n        clear_lists(slots);\n", "        copy_points(points, slots);\n        translator_.insert(external_ids, slots);\n        clear_lists(slots);\n")]),
 ("c02-nocheck", "C02", "bug", [(D, "translator_.insert(external_ids, slots);", "translator_.insert(external_ids, slots, false);")]),
 ("c02-sz", "C02", "bug", [(D, "if (num_points != num_ids) {", "if (num_points < num_ids) {")]),
 ("c02-uniq", "C02", "bug", [(T, "if (!lib::all_unique(ext_begin, ext_end)) {", "if (!lib::all_unique(int_begin, int_end)) {")]),
 ("c02-uniq2", "C02", "bug", [("lib/algorithms.h", "    for (auto i = begin; i != end; ++i) {\n        auto [_, inserted] = seen.emplace(*i);", "    for (auto i = std::next(begin); i != end; ++i) {\n        auto [_, inserted] = seen.emplace(*i);")]),
 ("c02-free", "C02", "bug", [(T, "            check_internal_free(int_begin, int_end);\n", "")]),
 ("c02-free2", "C02", "bug", [(T, 'check(begin, end, external_to_internal_, "Index already contains external");', 'check(std::prev(end), end, external_to_internal_, "Index already contains external");')]),
 ("c02-exist", "C02", "bug", [(T, "            check_external_exist(external_ids.begin(), external_ids.end());\n", "            if (external_ids.size() > 1) check_external_exist(std::next(external_ids.begin()), external_ids.end());\n")]),
 ("c02-delord", "C02", "bug", [(D, "        translator_.check_external_exist(ids.begin(), ids.end());\n", "")]),
 ("c02-rec", "C02", "bug", [(D, "if (!has_id(id)) {\n                throw ANNEXCEPTION(\"ID {}", "if (i != 0 && !has_id(id)) {\n                throw ANNEXCEPTION(\"ID {}")]),
 ("c02-rec2", "C02", "bug", [(S, "            if (id >= sz) {", "            if (id > sz) {")]),
 ("c02-rec3", "C02", "bug", [(S, "        if (dst_dims != dimensions()) {", "        if (dst_dims > dimensions()) {")]),
 ("c02-asm", "C02", "bug", [(D, "    for (size_t i = 0; i < datasize; ++i) {\n        if (!translator.has_internal(i)) {", "    for (size_t i = 1; i < datasize; ++i) {\n        if (!translator.has_internal(i)) {")]),
 ("c02-asm2", "C02", "bug", [(D, "    if (datasize != graphsize) {", "    if (datasize > graphsize) {")]),
 ("c02-build", "C02", "bug", [(S, "        if (graph_.n_nodes() != data_.size()) {\n            throw ANNEXCEPTION(\"Wrong sizes!\");\n        }\n", ""), (B, "        if (graph_.n_nodes() != data_.size()) {", "        if (graph_.n_nodes() < data_.size()) {")]),
 ("c02-same1", "C02", "same", [(S, "        if (graph_.n_nodes() != data_.size()) {\n            throw ANNEXCEPTION(\"Wrong sizes!\");\n        }\n", "")]),
 ("c02-same2", "C02", "same", [(D, "        for (size_t i = 0; i < ids_size; ++i) {\n            I id = ids[i]; // inbounds by loop bounds.\n            if (!has_id(id)) {\n                throw ANNEXCEPTION(\"ID {} with value {} is out of bounds!\", i, id);\n            }\n        }", "        for (const auto& id : ids) {\n            if (has_id(id)) { continue; }\n            throw ANNEXCEPTION(\"ID with value {} is out of bounds!\", id);\n        }")]),
 ("c02-same3", "C02", "same", [(T, "            if (!lib::all_unique(ext_begin, ext_end)) {\n                throw ANNEXCEPTION(\"External IDs contain repeat elements!\");\n            }\n", "            check_external_free(ext_begin, ext_end);\n            const bool extunique = lib::all_unique(ext_begin, ext_end);\n            if (extunique == false) {\n                throw ANNEXCEPTION(\"External IDs contain repeat elements!\");\n            }\n"), (T, "            check_external_free(ext_begin, ext_end);\n            check_internal_free", "            check_internal_free")]),
 ("c02-same4", "C02", "same", [(D, "        for (auto i : ids) {\n            delete_entry(translator_.get_internal(i));\n        }\n", "        std::vector<size_t> gone{};\n        for (auto i : ids) { gone.push_back(translator_.get_internal(i)); }\n        for (size_t k = 0; k < gone.size(); ++k) { delete_entry(gone[k]); }\n")]),
 ("c02-same5", "C02", "same", [(D, "        const size_t num_points = points.size();\n        const size_t num_ids = external_ids.size();\n        if (num_points != num_ids) {", "        const size_t num_ids = external_ids.size();\n        const size_t num_points = points.size();\n        const bool good = num_ids == num_points;\n        if (!good) {")]),
 ("c02-same6", "C02", "same", [(S, "        for (size_t i = 0; i < ids_size; ++i) {\n            I id = ids[i]; // inbounds by loop bounds.\n            if (id >= sz) {", "        size_t i = 0;\n        for (auto itr = ids.begin(); itr != ids.end(); ++itr, ++i) {\n            I id = *itr;\n            if (!(id < sz)) {")]),
]
