P = "index/vamana/prune.h"
PROG = "if (cmp(current_alpha, pruned[start]) || id == current_node_id) {"
M = [
 ("c13-self", "C13", "bug", [(P, "if (pruned[start] || id == current_node_id) {", "if (pruned[start]) {")]),
 ("c13-self2", "C13", "bug", [(P, PROG, "if (cmp(current_alpha, pruned[start]) || (start == 0 && id == current_node_id)) {")]),
 ("c13-limit", "C13", "bug", [(P, "while (result.size() < max_result_size && start < poolsize) {", "while (result.size() <= max_result_size && start < poolsize) {")]),
 ("c13-limit2", "C13", "bug", [(P, "        size_t start = 0;\n        while (result.size() < max_result_size && start < poolsize) {", "        size_t start = 0;\n        while (start < poolsize) {")]),
 ("c13-reenable", "C13", "bug", [(P, "return (state == PruneState::Pruned) ? PruneState::Available : state;", "return (state != PruneState::Available) ? PruneState::Available : state;")]),
 ("c13-nomark", "C13", "bug", [(P, "            pruned[start] = PruneState::Added;\n", "            pruned[start] = PruneState::Pruned;\n")]),
 ("c13-nomark2", "C13", "bug", [(P, "            pruned[start] = type_traits::sentinel_v<float, decltype(cmp)>;\n", "            pruned[start] = type_traits::tombstone_v<float, decltype(cmp)>;\n")]),
 ("c13-exclude", "C13", "bug", [(P, "                if (excluded(pruned[t])) {", "                if (pruned[t] == PruneState::Pruned) {"), (P, "for (size_t t = start + 1; t < poolsize; ++t) {", "for (size_t t = 0; t < poolsize; ++t) {")]),
 ("c13-stale", "C13", "bug", [(P, "    result.clear();\n    if (pool.empty()) {", "    if (pool.empty()) {")]),
 ("c13-idx", "C13", "bug", [(P, "result.push_back(detail::construct_as(lib::Type<I>(), pool[start]));", "result.push_back(detail::construct_as(lib::Type<I>(), pool[start + 1 < poolsize ? start + 1 : start]));")]),
 ("c13-oob", "C13", "bug", [(P, "    std::vector<bool> pruned(poolsize, false);\n    size_t start = 0;\n\n    while (result.size() < max_result_size && start < poolsize) {", "    std::vector<bool> pruned(poolsize, false);\n    size_t start = 0;\n\n    while (result.size() < max_result_size && start <= poolsize) {")]),
 ("c13-again", "C13", "bug", [(P, "                pruned[t] = true;\n            }\n        }\n        ++start;", "                pruned[t] = true;\n            }\n        }\n        if (result.size() != 1) ++start;")]),
 ("c13-same1", "C13", "same", [(P, "            if (excluded(pruned[start]) || id == current_node_id) {\n                ++start;\n                continue;\n            }\n", "            const bool skip = excluded(pruned[start]);\n            if (skip) {\n                ++start;\n                continue;\n            }\n            if (current_node_id == id) {\n                ++start;\n                continue;\n            }\n")]),
 ("c13-same2", "C13", "same", [(P, "        for (auto& state : pruned) {\n            state = reenable(state);\n        }\n", "        for (size_t k = 0; k < poolsize; ++k) {\n            if (pruned[k] == PruneState::Pruned) { pruned[k] = PruneState::Available; }\n        }\n")]),
 ("c13-same3", "C13", "same", [(P, "    while (result.size() < max_result_size && start < poolsize) {\n        auto id = pool[start].id();\n        if (pruned[start] || id == current_node_id) {\n            ++start;\n            continue;\n        }", "    for (; start < poolsize; ++start) {\n        if (result.size() >= max_result_size) { break; }\n        auto id = pool[start].id();\n        if (pruned[start] || id == current_node_id) {\n            continue;\n        }"), (P, "                pruned[t] = true;\n            }\n        }\n        ++start;\n", "                pruned[t] = true;\n            }\n        }\n")]),
 ("c13-same4", "C13", "same", [(P, "            pruned[start] = PruneState::Added;\n", ""), (P, "            result.push_back(detail::construct_as(lib::Type<I>(), pool[start]));\n", "            const auto& chosen = pool[start];\n            result.push_back(detail::construct_as(lib::Type<I>(), chosen));\n            pruned[start] = PruneState::Added;\n")]),
]
