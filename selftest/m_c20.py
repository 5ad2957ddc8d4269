V = "index/vamana/"
EX, IX, DX, FL, INS, MB, QR, GS, II = V + "extensions.h", V + "index.h", V + "dynamic_index.h", "index/flat/flat.h", "index/flat/inserters.h", "index/inverted/memory_based.h", "core/query_result.h", V + "greedy_search.h", "index/index.h"
COPY = """        for (size_t j = 0; j < num_neighbors; ++j) {
            result.set(search_buffer[j], i, j);
        }
"""
SINGLE = "        single_search(dataset, search_buffer, distance, queries.get_datum(i), search);\n"
ROOMS = """                if (search_buffer.capacity() < num_neighbors) {
                    search_buffer.change_maxsize(SearchBufferConfig{num_neighbors});
                }
"""
ROOMD = """                if (buffer.target() < num_neighbors) {
                    buffer.change_maxsize(num_neighbors);
                }
"""
FCOPY = """                    const auto& neighbors = scratch.result(i);
                    for (size_t j = 0; j < num_neighbors; ++j) {
                        result.set(neighbors[j], i, j);
                    }
"""
ICOPY = """                    for (size_t j = 0; j < num_neighbors; ++j) {
                        results.set(buffer[j], i, j);
                    }
"""
SET = """        index(query_index, neighbor_index) = neighbor.id();
        distance(query_index, neighbor_index) = neighbor.distance();
"""
FINS = "                scratch.insert(query_index, {data_index, d});\n"
GNEW = "            auto dist = distance::compute(distance_function, query, accessor(dataset, id));\n"
M = [
    ("c20-short", "C20", "bug", [(EX, COPY, COPY.replace("j < num_neighbors", "j + 1 < num_neighbors"))]),
    ("c20-onebased", "C20", "bug", [(EX, COPY, COPY.replace("search_buffer[j], i, j", "search_buffer[j], i - thread_indices.start(), j"))]),
    ("c20-sizecap", "C20", "bug", [(EX, COPY, COPY.replace("j < num_neighbors", "j < std::min(num_neighbors, search_buffer.size() / 2)"))]),
    ("c20-next", "C20", "bug", [(EX, COPY, COPY.replace("search_buffer[j]", "search_buffer[num_neighbors - 1 - j]"))]),
    ("c20-samequery", "C20", "bug", [(EX, SINGLE, SINGLE.replace("get_datum(i)", "get_datum(thread_indices.start())"))]),
    ("c20-skipsearch", "C20", "bug", [(EX, SINGLE, "        if (i == thread_indices.start() || queries.get_datum(i).data() != queries.get_datum(i - 1).data() || num_neighbors > 1) {\n" + SINGLE + "        }\n")]),
    ("c20-skiprow", "C20", "bug", [(EX, "    for (auto i : thread_indices) {\n        // Perform search - results will be queued in the search buffer.\n", "    for (auto i : thread_indices) {\n        if (i == 0 && thread_indices.size() > 64) { continue; }\n")]),
    ("c20-lastrow", "C20", "bug", [(EX, "    for (auto i : thread_indices) {\n        // Perform search - results will be queued in the search buffer.\n", "    for (size_t i = thread_indices.start(); i + 1 < thread_indices.stop() + (thread_indices.size() == 1); ++i) {\n")]),
    ("c20-setdist", "C20", "bug", [(QR, SET, "        index(query_index, neighbor_index) = neighbor.id();\n        distance(query_index, neighbor_index) = neighbor_index == 0 ? neighbor.distance() : std::max(neighbor.distance(), distance(query_index, neighbor_index - 1));\n")]),
    ("c20-setonce", "C20", "bug", [(QR, SET, SET.replace("        distance(", "        if (query_index != 0 || neighbor_index != 0) distance("))]),
    ("c20-setswap", "C20", "bug", [(QR, SET, SET.replace("distance(query_index, neighbor_index) =", "distance(neighbor_index, query_index) ="))]),
    ("c20-noroom", "C20", "bug", [(IX, ROOMS, "")]),
    ("c20-halfroom", "C20", "bug", [(IX, ROOMS, ROOMS.replace("SearchBufferConfig{num_neighbors}", "SearchBufferConfig{num_neighbors / 2 + 1}"))]),
    ("c20-windowroom", "C20", "bug", [(IX, ROOMS, ROOMS.replace("search_buffer.capacity() < num_neighbors", "search_buffer.capacity() + 1 < num_neighbors"))]),
    ("c20-sizeroom", "C20", "bug", [(IX, ROOMS, ROOMS.replace("search_buffer.capacity() < num_neighbors", "search_parameters.prefetch_lookahead_ < num_neighbors"))]),
    ("c20-dnoroom", "C20", "bug", [(DX, ROOMD, "")]),
    ("c20-dlateroom", "C20", "bug", [(DX, ROOMD, ROOMD + "                buffer.change_maxsize(sp.buffer_config_.get_search_window_size());\n")]),
    ("c20-inoroom", "C20", "bug", [(MB, "                buffer.change_maxsize(num_neighbors);\n", "")]),
    ("c20-inoclear", "C20", "bug", [(MB, "                    buffer.clear();\n", ""), (MB, "                for (auto i : is) {\n", "                buffer.clear();\n                for (auto i : is) {\n")]),
    ("c20-ibreak", "C20", "bug", [(MB, "if (compare(cutoff_distance, candidate.distance())) {", "if (!compare(candidate.distance(), cutoff_distance)) {")]),
    ("c20-icont", "C20", "bug", [(MB, "                    index_.search(query, scratch);\n", "                    if (i == is.front() || num_neighbors > 1) { index_.search(query, scratch); }\n")]),
    ("c20-istale", "C20", "bug", [(MB, "                    index_.search(query, scratch);\n", "                    index_.search(queries.get_datum(is.front()), scratch);\n")]),
    ("c20-icopy", "C20", "bug", [(MB, ICOPY, ICOPY.replace("buffer[j]", "scratch_buffer[j]"))]),
    ("c20-frow", "C20", "bug", [(FL, FCOPY, FCOPY.replace("scratch.result(i)", "scratch.result(query_indices.front())"))]),
    ("c20-frank", "C20", "bug", [(FL, FCOPY, FCOPY.replace("size_t j = 0", "size_t j = 1"))]),
    ("c20-fpart", "C20", "bug", [(FL, "threads::StaticPartition(queries.size()),\n            [&](const auto& query_indices, uint64_t /*tid*/) {\n                for (auto i : query_indices) {\n                    const auto", "threads::StaticPartition(std::min(queries.size(), data_.size())),\n            [&](const auto& query_indices, uint64_t /*tid*/) {\n                for (auto i : query_indices) {\n                    const auto")]),
    ("c20-fins", "C20", "bug", [(FL, FINS, FINS.replace("query_index,", "i,"))]),
    ("c20-fdatum", "C20", "bug", [(FL, "distance_functors[i], queries.get_datum(query_index), datum", "distance_functors[i], queries.get_datum(i), datum")]),
    ("c20-fid", "C20", "bug", [(FL, FINS, FINS.replace("{data_index, d}", "{data_index - data_indices.start(), d}"))]),
    ("c20-finrow", "C20", "bug", [(INS, "inserter(i).insert(x)", "inserter(i / 2).insert(x)")]),
    ("c20-scratchrow", "C20", "bug", [(FL, "sorter_type scratch{queries.size(), num_neighbors, compare()};", "sorter_type scratch{queries.size(), std::min(num_neighbors, data_.size()), compare()};")]),
    ("c20-gother", "C20", "bug", [(GS, GNEW, GNEW.replace("accessor(dataset, id)", "accessor(dataset, entry_points[0])"))]),
    ("c20-gstale", "C20", "bug", [(GS, "            search_buffer.insert(builder(id, dist));\n", "            search_buffer.insert(builder(node_id, dist));\n")]),
    ("c20-batch", "C20", "bug", [(II, "svs::QueryResult<size_t>{queries.size(), num_neighbors}", "svs::QueryResult<size_t>{queries.size(), std::max<size_t>(num_neighbors, 2)}")]),
    ("c20-ctor", "C20", "bug", [(QR, "        , indices_{make_dims(n_queries, n_neighbors)} {}", "        , indices_{make_dims(n_neighbors, n_queries)} {}")]),
    # same behaviour
    ("c20-same-refs", "C20", "same", [(EX, COPY, "        for (size_t j = 0; j < num_neighbors; ++j) {\n            const auto& best = search_buffer[j];\n            result.index(i, j) = best.id();\n            result.distance(i, j) = best.distance();\n        }\n")]),
    ("c20-same-while", "C20", "same", [(EX, COPY, "        size_t j = 0;\n        while (j != num_neighbors) {\n            result.set(search_buffer[j], i, j);\n            ++j;\n        }\n")]),
    ("c20-same-helper", "C20", "same", [(EX, "    for (auto i : thread_indices) {\n        // Perform search", "    auto copy_row = [&](size_t row) {\n        for (size_t j = 0; j < num_neighbors; ++j) {\n            result.set(search_buffer[j], row, j);\n        }\n    };\n    for (auto i : thread_indices) {\n        // Perform search"), (EX, COPY, "        copy_row(i);\n")]),
    ("c20-same-index", "C20", "same", [(EX, "    for (auto i : thread_indices) {\n        // Perform search", "    for (size_t i = thread_indices.start(), imax = thread_indices.stop(); i < imax; ++i) {\n        // Perform search")]),
    ("c20-same-setorder", "C20", "same", [(QR, SET, "        distance(query_index, neighbor_index) = neighbor.distance();\n        index(query_index, neighbor_index) = neighbor.id();\n")]),
    ("c20-same-room", "C20", "same", [(IX, ROOMS, "                if (num_neighbors > search_buffer.capacity()) {\n                    auto wanted = SearchBufferConfig{num_neighbors};\n                    search_buffer.change_maxsize(wanted);\n                }\n")]),
    ("c20-same-roomd", "C20", "same", [(DX, ROOMD, "                const bool enough = buffer.target() >= num_neighbors;\n                if (!enough) {\n                    buffer.change_maxsize(num_neighbors);\n                }\n")]),
    ("c20-same-iclear", "C20", "same", [(MB, "                    buffer.clear();\n", ""), (MB, "                    auto& scratch_buffer = scratch.buffer;\n", "                    buffer.clear();\n                    auto& scratch_buffer = scratch.buffer;\n")]),
    ("c20-same-icut", "C20", "same", [(MB, "if (compare(cutoff_distance, candidate.distance())) {", "const bool beyond = compare(cutoff_distance, candidate.distance());\n                        if (beyond) {")]),
    ("c20-same-fcopy", "C20", "same", [(FL, FCOPY, "                    for (size_t j = 0; j < num_neighbors; ++j) {\n                        result.set(scratch.result(i)[j], i, j);\n                    }\n")]),
    ("c20-same-fins", "C20", "same", [(FL, FINS, "                auto candidate = decltype(scratch.result(0)[0]){data_index, d};\n                (void)candidate;\n" + FINS)]) ,
    ("c20-same-gdist", "C20", "same", [(GS, GNEW, "            const auto& vec = accessor(dataset, id);\n            auto dist = distance::compute(distance_function, query, vec);\n")]),
    ("c20-same-batch", "C20", "same", [(II, "auto result = svs::QueryResult<size_t>{queries.size(), num_neighbors};", "const size_t rows = queries.size();\n    auto result = svs::QueryResult<size_t>(rows, num_neighbors);")]),
]
M = [m for m in M if m[0] != "c20-same-fins"]
