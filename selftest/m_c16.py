I = "index/vamana/index.h"
D = "index/vamana/dynamic_index.h"
F = "index/flat/flat.h"
N = "index/inverted/memory_based.h"
GR = "index/vamana/greedy_search.h"
X = "index/vamana/extensions.h"
RUN_I = """        threads::run(
            threadpool_,
            threads::StaticPartition{queries.size()},
            [&](const auto is, uint64_t SVS_UNUSED(tid)) {
                // The number of neighbors to store in the result."""
BUF_I = """                auto search_buffer = search_buffer_type{
                    SearchBufferConfig(search_parameters.buffer_config_),
                    distance::comparator(distance_),
                    search_parameters.search_buffer_visited_set_};
"""
BUF_D = """                auto buffer =
                    search_buffer_type{sp.buffer_config_, distance::comparator(distance_)};
"""
RUN_D = """        threads::run(
            threadpool_,
            threads::StaticPartition{queries.size()},
            [&](const auto is, uint64_t SVS_UNUSED(tid)) {
                size_t num_neighbors = results.n_neighbors();
                auto buffer"""
SCR_I = """                auto scratch = extensions::per_thread_batch_search_setup(data_, distance_);

                // Perform a search"""
SCR_D = """                auto scratch = extensions::per_thread_batch_search_setup(data_, distance_);

                extensions::per_thread_batch_search("""
BC_F = """                distance::BroadcastDistance distances{
                    extensions::distance(data_, distance_), query_indices.size()};
"""
M = [
    ("c16-sharedbuffer", "C16", "bug", [(I, RUN_I, BUF_I + RUN_I), (I, BUF_I + "\n                auto prefetch", "                auto prefetch")]),
    ("c16-sharedbuffer-dyn", "C16", "bug", [(D, RUN_D, "auto buffer = search_buffer_type{sp.buffer_config_, distance::comparator(distance_)};\n" + RUN_D), (D, BUF_D, "")]),
    ("c16-sharedscratch", "C16", "bug", [(I, RUN_I, "auto scratch = extensions::per_thread_batch_search_setup(data_, distance_);\n" + RUN_I), (I, SCR_I, "                // Perform a search")]),
    ("c16-sharedscratch-dyn", "C16", "bug", [(D, RUN_D, "auto scratch = extensions::per_thread_batch_search_setup(data_, distance_);\n" + RUN_D), (D, SCR_D, "                extensions::per_thread_batch_search(")]),
    ("c16-memberscratch", "C16", "bug", [(I, SCR_I, SCR_I.replace("auto scratch = extensions::per_thread_batch_search_setup(data_, distance_)", "auto& scratch = distance_"))]),
    ("c16-memberscratch-dyn", "C16", "bug", [(D, SCR_D, SCR_D.replace("auto scratch = extensions::per_thread_batch_search_setup(data_, distance_)", "auto& scratch = distance_"))]),
    ("c16-remember", "C16", "bug", [(I, RUN_I, "        set_search_parameters(search_parameters);\n" + RUN_I)]),
    ("c16-writeback", "C16", "bug", [(I, RUN_I, "        build_parameters_.window_size = search_parameters.buffer_config_.get_search_window_size();\n" + RUN_I)]),
    ("c16-entryhop", "C16", "bug", [(D, "        // After the search procedure, the indices in `results` are internal.\n        // Perform one more pass to convert these to external ids.\n        translate_to_external(results.indices());",
        "        if (results.n_queries() > 0 && !is_deleted(results.index(0, 0))) {\n            entry_point_[0] = results.index(0, 0);\n        }\n        translate_to_external(results.indices());")]),
    ("c16-statictable", "C16", "bug", [(GR, "    // Main search routine.\n", "    static size_t searches = 0;\n    ++searches;\n    // Main search routine.\n")]),
    ("c16-staticbuffer", "C16", "bug", [(N, "                auto scratch = index_.scratchspace();", "                static auto scratch = index_.scratchspace();")]),
    ("c16-invbuffer", "C16", "bug", [(N, """        threads::run(
            threadpool_,
            threads::StaticPartition(queries.size()),
            [&](auto is, auto SVS_UNUSED(tid)) {
                size_t num_neighbors = results.n_neighbors();
""", """        auto scratch = index_.scratchspace();
        threads::run(
            threadpool_,
            threads::StaticPartition(queries.size()),
            [&](auto is, auto SVS_UNUSED(tid)) {
                size_t num_neighbors = results.n_neighbors();
"""), (N, "                auto scratch = index_.scratchspace();\n                if", "                if")]),
    ("c16-flatdist", "C16", "bug", [(F, BC_F, ""), (F, "        // Process all queries.\n", "        distance::BroadcastDistance distances{extensions::distance(data_, distance_), queries.size()};\n")]),
    ("c16-flatrow", "C16", "bug", [(F, "scratch.insert(query_index, {data_index, d});", "scratch.insert(i, {data_index, d});")]),
    ("c16-flatbatch", "C16", "bug", [(F, "                // Broadcast the distance functor", "                search_parameters_.query_batch_size_ = query_indices.size();\n                // Broadcast the distance functor")]),
    ("c16-lazyentry", "C16", "bug", [(I, RUN_I, "        if (entry_point_.size() > 1) { entry_point_.resize(1); }\n" + RUN_I)]),
    ("c16-constcast", "C16", "bug", [(GR, "        auto neighbors = graph.get_node(node_id);\n        const size_t num_neighbors = neighbors.size();",
        "        auto neighbors = graph.get_node(node_id);\n        if (neighbors.size() > 1) { auto* p = const_cast<I*>(neighbors.data()); std::swap(p[0], p[1]); }\n        const size_t num_neighbors = neighbors.size();")]),
    ("c16-sumcounter", "C16", "bug", [(D, RUN_D, "        size_t served = 0;\n" + RUN_D.replace("size_t num_neighbors", "served += is.size();\n                size_t num_neighbors")),
        (D, "        // After the search procedure, the indices in `results` are internal.\n        // Perform one more pass to convert these to external ids.\n        translate_to_external(results.indices());",
        "        if (served != queries.size()) { throw ANNEXCEPTION(\"lost queries\"); }\n        translate_to_external(results.indices());")]),
    ("c16-same-hoistcount", "C16", "same", [(I, RUN_I, "        const size_t total_neighbors = result.n_neighbors();\n" + RUN_I), (I, "size_t num_neighbors = result.n_neighbors();\n\n                // Allocate scratchspace acc", "size_t num_neighbors = total_neighbors;\n\n                // Allocate scratchspace acc")]),
    ("c16-same-copybuffer", "C16", "same", [(D, RUN_D, "        const auto proto = search_buffer_type{sp.buffer_config_, distance::comparator(distance_)};\n" + RUN_D), (D, BUF_D, "                auto buffer = proto;\n")]),
    ("c16-same-copyfunctor", "C16", "same", [(D, RUN_D, "        const auto proto = extensions::per_thread_batch_search_setup(data_, distance_);\n" + RUN_D), (D, SCR_D, SCR_D.replace("extensions::per_thread_batch_search_setup(data_, distance_)", "proto"))]),
    ("c16-same-helper", "C16", "same", [(I, BUF_I, "                auto search_buffer = fresh_buffer(search_parameters);\n"), (I, "    // TODO (Mark): Make descriptions better.\n    std::string name() const", """    search_buffer_type fresh_buffer(const search_parameters_type& sp) const {
        return search_buffer_type{
            SearchBufferConfig(sp.buffer_config_), distance::comparator(distance_), sp.search_buffer_visited_set_};
    }
    // TODO (Mark): Make descriptions better.
    std::string name() const""")]),
    ("c16-same-localcount", "C16", "same", [(GR, "    // Main search routine.\n", "    size_t hops = 0;\n"), (GR, "        // Get the next unvisited vertex.\n", "        ++hops;\n"), (GR, "            search_buffer.insert(builder(id, dist));\n        }\n    }\n", "            search_buffer.insert(builder(id, dist));\n        }\n    }\n    (void)hops;\n")]),
    ("c16-same-atomic", "C16", "same", [(D, RUN_D, "        std::atomic<size_t> served{0};\n" + RUN_D.replace("size_t num_neighbors", "served += is.size();\n                size_t num_neighbors"))]),
    ("c16-same-flatindex", "C16", "same", [(F, "scratch.insert(query_index, {data_index, d});", "scratch.insert(query_indices[i], {data_index, d});")]),
    ("c16-same-invloop", "C16", "same", [(N, "                for (auto i : is) {\n                    buffer.clear();", "                for (auto it = is.begin(), e = is.end(); it != e; ++it) {\n                    const auto i = *it;\n                    buffer.clear();")]),
]
