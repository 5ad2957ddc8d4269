G = "core/graph/graph.h"
M = [
 ("c12-noclamp", "C12", "bug", [(G, "std::min(max_degree_, lib::narrow_cast<Idx>(new_neighbors.size()));", "std::min(Idx(data_.dimensions()), lib::narrow_cast<Idx>(new_neighbors.size()));")]),
 ("c12-len", "C12", "bug", [(G, "raw_data.front() = elements_to_copy;", "raw_data.front() = lib::narrow_cast<Idx>(std::min<size_t>(max_degree_ + 1, new_neighbors.size()));")]),
 ("c12-off", "C12", "bug", [(G, "value_type adjacency_list = raw_data.subspan(1, elements_to_copy);", "value_type adjacency_list = raw_data.subspan(0, elements_to_copy);")]),
 ("c12-last", "C12", "bug", [(G, "new_neighbors.first(elements_to_copy);", "new_neighbors.last(elements_to_copy);")]),
 ("c12-self", "C12", "bug", [(G, "        if (src == dst) {\n            return get_node_degree(src);\n        }\n", "")]),
 ("c12-full", "C12", "bug", [(G, "if (current_size == max_degree_) {", "if (current_size > max_degree_) {")]),
 ("c12-dup", "C12", "bug", [(G, "auto it = std::find(begin, end - 1, dst);", "auto it = (current_size < 2) ? std::find(begin, end - 1, dst) : std::find(begin + 1, end - 1, dst);")]),
 ("c12-dup2", "C12", "bug", [(G, "if (it != end - 1 && (*it == dst)) {\n            return current_size;\n        }", "if (it != end - 1 && (*it == dst)) {\n            it = end - 1;\n        }")]),
 ("c12-ret", "C12", "bug", [(G, "        raw_data.front() = new_size;\n        return new_size;", "        raw_data.front() = new_size;\n        return current_size;")]),
 ("c12-nolen", "C12", "bug", [(G, "        raw_data.front() = new_size;\n        return new_size;", "        if (current_size != 0) raw_data.front() = new_size;\n        return new_size;")]),
 ("c12-degree", "C12", "bug", [(G, "max_degree_{lib::narrow<Idx>(data_.dimensions() - 1)}", "max_degree_{lib::narrow<Idx>(data_.dimensions())}")]),
 ("c12-reset", "C12", "bug", [(G, "for (size_t i = 0; i < n_nodes(); ++i) {\n            clear_node(i);", "for (size_t i = 1; i < n_nodes(); ++i) {\n            clear_node(i);")]),
 ("c12-getnode", "C12", "bug", [(G, "return raw_data.subspan(1, num_neighbors);", "return raw_data.subspan(1, std::min<size_t>(num_neighbors, max_degree_ - 1));")]),
 ("c12-same1", "C12", "same", [(G, "        std::copy(\n            adjusted_neighbors.begin(), adjusted_neighbors.end(), adjacency_list.begin()\n        );\n", "        for (size_t k = 0; k < elements_to_copy; ++k) {\n            adjacency_list[k] = adjusted_neighbors[k];\n        }\n")]),
 ("c12-same2", "C12", "same", [(G, "        std::copy(\n            adjusted_neighbors.begin(), adjusted_neighbors.end(), adjacency_list.begin()\n        );\n        raw_data.front() = elements_to_copy;\n", "        raw_data.front() = elements_to_copy;\n        std::copy(new_neighbors.data(), new_neighbors.data() + elements_to_copy, raw_data.data() + 1);\n")]),
 ("c12-same3", "C12", "same", [(G, "        Idx elements_to_copy =\n            std::min(max_degree_, lib::narrow_cast<Idx>(new_neighbors.size()));\n", "        Idx elements_to_copy = lib::narrow_cast<Idx>(new_neighbors.size());\n        if (elements_to_copy > max_degree_) {\n            elements_to_copy = max_degree_;\n        }\n")]),
 ("c12-same4", "C12", "same", [(G, "        auto it = std::find(begin, end - 1, dst);\n        // auto it = std::lower_bound(begin, end - 1, dst);\n        if (it != end - 1 && (*it == dst)) {\n            return current_size;\n        }\n\n        // Insert at the new location.\n        std::copy_backward(it, end - 1, end);\n        (*it) = dst;\n", "        for (size_t k = 0; k < current_size; ++k) {\n            if (adjacency_list[k] == dst) { return current_size; }\n        }\n        adjacency_list[current_size] = dst;\n        (void)begin; (void)end;\n")]),
 ("c12-same5", "C12", "same", [(G, "        auto it = std::find(begin, end - 1, dst);\n        // auto it = std::lower_bound(begin, end - 1, dst);\n        if (it != end - 1 && (*it == dst)) {\n            return current_size;\n        }\n\n        // Insert at the new location.\n        std::copy_backward(it, end - 1, end);\n        (*it) = dst;\n", "        if (has_edge(src, dst)) { return current_size; }\n        adjacency_list.back() = dst;\n        (void)begin; (void)end;\n"), (G, "if (current_size == max_degree_) {", "if (current_size >= max_degree_) {")]),
 ("c12-same6", "C12", "same", [(G, "        if (src == dst) {\n            return get_node_degree(src);\n        }\n", ""), (G, "        if (current_size == max_degree_) {\n            return current_size;", "        if (src == dst || !(current_size < max_degree_)) {\n            return current_size;")]),
]
