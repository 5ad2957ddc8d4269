V = "index/vamana/"
GS, VB, CO, PR, FL = V + "greedy_search.h", V + "vamana_build.h", V + "consolidate.h", V + "prune.h", "index/flat/flat.h"
IX, DX, CL, MB, CD, COS = V + "index.h", V + "dynamic_index.h", "index/inverted/clustering.h", "index/inverted/memory_based.h", "concepts/distance.h", "core/distance/cosine.h"
FIXG = "    // Fix the query if needed by the distance function.\n    distance::maybe_fix_argument(distance_function, query);\n"
FIXF = """        for (size_t i = 0; i < query_indices.size(); ++i) {
            distance::maybe_fix_argument(
                distance_functors[i], queries.get_datum(query_indices[i])
            );
        }
"""
FIXR = "                        distance::maybe_fix_argument(general_distance, src_data);\n"
BC = """                distance::BroadcastDistance distances{
                    extensions::distance(data_, distance_), query_indices.size()};
"""
RUNF = """        threads::run(
            threadpool_,
            threads::DynamicPartition{
                queries.size(),
"""
M = [
    ("c17-nofix", "C17", "bug", [(GS, FIXG, "")]),
    ("c17-latefix", "C17", "bug", [(GS, FIXG, ""), (GS, "        search_buffer.push_back(builder(id, dist));\n", "        search_buffer.push_back(builder(id, dist));\n        distance::maybe_fix_argument(distance_function, query);\n")]),
    ("c17-condfix", "C17", "bug", [(GS, FIXG, "    if (entry_points.size() > 1) {\n" + FIXG + "    }\n")]),
    ("c17-flatindex", "C17", "bug", [(FL, FIXF, FIXF.replace("queries.get_datum(query_indices[i])", "queries.get_datum(i)"))]),
    ("c17-flatfirst", "C17", "bug", [(FL, FIXF, FIXF.replace("distance_functors[i]", "distance_functors[0]"))]),
    ("c17-flatskip", "C17", "bug", [(FL, FIXF, FIXF.replace("size_t i = 0", "size_t i = 1"))]),
    ("c17-flateval", "C17", "bug", [(FL, "                    distance_functors[i], queries.get_datum(query_index), datum", "                    distance_functors[0], queries.get_datum(query_index), datum")]),
    ("c17-flatonce", "C17", "bug", [(FL, FIXF, "        if (data_indices.start() == 0) {\n" + FIXF + "        }\n")]),
    ("c17-flatshared", "C17", "bug", [(FL, BC, ""), (FL, RUNF, "        distance::BroadcastDistance distances{extensions::distance(data_, distance_), compute_query_batch_size(search_parameters, queries.size())};\n" + RUNF)]),
    ("c17-prunehoist", "C17", "bug", [(PR, "            distance::maybe_fix_argument(distance_function, query);\n", ""), (PR, "    auto pruned = std::vector<PruneState>(poolsize, PruneState::Available);\n", "    auto pruned = std::vector<PruneState>(poolsize, PruneState::Available);\n    distance::maybe_fix_argument(distance_function, accessor(dataset, current_node_id));\n")]),
    ("c17-prunefirst", "C17", "bug", [(PR, "            distance::maybe_fix_argument(distance_function, query);\n", "            if (result.empty()) { distance::maybe_fix_argument(distance_function, query); }\n")]),
    ("c17-legacynofix", "C17", "bug", [(PR, "        pruned[start] = true;\n\n        // Only once we know this item needs to be processed to we retrieve\n        // the corresponding data and perform preprocessing.\n        const auto& query = accessor(dataset, id);\n        distance::maybe_fix_argument(distance_function, query);\n", "        pruned[start] = true;\n        const auto& query = accessor(dataset, id);\n")]),
    ("c17-prunecand", "C17", "bug", [(PR, "                    distance_function, query, accessor(dataset, candidate.id())\n", "                    distance_function, accessor(dataset, candidate.id()), query\n")]),
    ("c17-consnofix", "C17", "bug", [(CO, "        distance::maybe_fix_argument(distance, src_data);\n", "")]),
    ("c17-consonce", "C17", "bug", [(CO, "        distance::maybe_fix_argument(distance, src_data);\n", ""), (CO, "        for (auto i : local_ids) {\n            size_t src = global_ids[i];\n\n            if (is_deleted(src)) {", "        distance::maybe_fix_argument(general_distance, accessor(data_, global_ids[0]));\n        for (auto i : local_ids) {\n            size_t src = global_ids[i];\n\n            if (is_deleted(src)) {")]),
    ("c17-consother", "C17", "bug", [(CO, "                accessor(data_, src),\n                accessor,\n                general_distance,", "                accessor(data_, src),\n                accessor,\n                general_distance2,"), (CO, "            // Add all neighbors and neighbors-of-deleted-neighbors.\n", "            auto& general_distance2 = general_distance;\n"), (CO, "distance::compute(distance, src_data, accessor(data_, dst))", "distance::compute(distance, accessor(data_, dst), src_data)")]),
    ("c17-reversenofix", "C17", "bug", [(VB, FIXR, "")]),
    ("c17-reverselate", "C17", "bug", [(VB, FIXR, ""), (VB, "                        // Add the old adjacency list.\n", FIXR)]),
    ("c17-reversefirst", "C17", "bug", [(VB, FIXR, ""), (VB, "                    for (const auto& kv : bucket) {\n", "                    if (!bucket.empty()) { distance::maybe_fix_argument(general_distance, general_accessor(data_, bucket.begin()->first)); }\n                    for (const auto& kv : bucket) {\n")]),
    ("c17-gencopy", "C17", "bug", [(VB, "auto&& graph_search_distance = build_adaptor.graph_search_distance();", "auto graph_search_distance = build_adaptor.graph_search_distance();")]),
    ("c17-genprunefirst", "C17", "bug", [(VB, "                // Add neighbors of the query that are not part of `visited`.\n", "                if (pool.size() > 1) { std::vector<Idx> tmp{}; heuristic_prune_neighbors(prune_strategy(distance_function_), 1, alpha, data_, general_accessor, general_distance, node_id, lib::as_const_span(pool), tmp); }\n")]),
    ("c17-invfresh", "C17", "bug", [(MB, "distance::compute(scratch.scratch, query, datum);", "distance::compute(fresh, query, datum);"), (MB, "                    auto compare = distance::comparator(d);\n", "                    auto compare = distance::comparator(d);\n                    auto fresh = index_.get_distance();\n")]),
    ("c17-invearly", "C17", "bug", [(MB, "distance::compute(scratch.scratch, query, datum);", "distance::compute(mine, query, datum);"), (MB, "                for (auto i : is) {\n                    buffer.clear();\n", "                auto mine = scratch.scratch;\n                for (auto i : is) {\n                    buffer.clear();\n")]),
    ("c17-staticshared", "C17", "bug", [(IX, "                auto scratch = extensions::per_thread_batch_search_setup(data_, distance_);\n", ""), (IX, "        threads::run(\n            threadpool_,\n            threads::StaticPartition{queries.size()},\n            [&](const auto is, uint64_t SVS_UNUSED(tid)) {\n", "        auto scratch = extensions::per_thread_batch_search_setup(data_, distance_);\n        threads::run(\n            threadpool_,\n            threads::StaticPartition{queries.size()},\n            [&](const auto is, uint64_t SVS_UNUSED(tid)) {\n")]),
    ("c17-dynshared", "C17", "bug", [(DX, "                auto scratch = extensions::per_thread_batch_search_setup(data_, distance_);\n", ""), (DX, "        threads::run(\n            threadpool_,\n            threads::StaticPartition{queries.size()},\n", "        auto scratch = extensions::per_thread_batch_search_setup(data_, distance_);\n        threads::run(\n            threadpool_,\n            threads::StaticPartition{queries.size()},\n")]),
    ("c17-revshared", "C17", "bug", [(VB, "                auto build_adaptor = extensions::build_adaptor(data_, distance_function_);\n\n                auto general_accessor = build_adaptor.general_accessor();\n                auto&& general_distance = build_adaptor.general_distance();\n", "                auto general_accessor = build_adaptor.general_accessor();\n                auto&& general_distance = build_adaptor.general_distance();\n"), (VB, "        threads::run(\n            threadpool_,\n            threads::DynamicPartition{backedge_buffer_.buckets(), 1},\n", "        auto build_adaptor = extensions::build_adaptor(data_, distance_function_);\n        threads::run(\n            threadpool_,\n            threads::DynamicPartition{backedge_buffer_.buckets(), 1},\n")]),
    ("c17-bcast0", "C17", "bug", [(CD, "    T& operator[](size_t i) { return distances_.at(i); }", "    T& operator[](size_t) { return distances_.at(0); }")]),
    ("c17-normhalf", "C17", "bug", [(COS, "norm_ = norm(x);", "norm_ = norm(x.first(x.size() / 2));")]),
    ("c17-normonce", "C17", "bug", [(COS, "norm_ = norm(x);", "if (norm_ == 0) { norm_ = norm(x); }")]),
    ("c17-normother", "C17", "bug", [(COS, "return CosineSimilarity::compute(a.data(), b.data(), distance.norm_, a.size());", "return CosineSimilarity::compute(a.data(), b.data(), 1.0f, a.size());")]),
    ("c17-nofixcall", "C17", "bug", [(CD, "    if constexpr (ShouldFix<F, A>) {\n        f.fix_argument(a);", "    if constexpr (ShouldFix<F, A>) {\n        auto g = f;\n        g.fix_argument(a);")]),
    ("c17-ivclust", "C17", "bug", [(CL, "        auto f = extensions::clustering_distance(data, distance_functor);\n", ""), (CL, "    auto locks = std::vector<SpinLock>(clustering.size());\n    auto impl", "    auto locks = std::vector<SpinLock>(clustering.size());\n    auto f = extensions::clustering_distance(data, distance_functor);\n    auto impl")]),
    # same behaviour
    ("c17-same-refix", "C17", "same", [(GS, FIXG, FIXG + "    distance::maybe_fix_argument(distance_function, query);\n")]),
    ("c17-same-alias", "C17", "same", [(GS, FIXG, "    auto& prepared = distance_function;\n    distance::maybe_fix_argument(prepared, query);\n")]),
    ("c17-same-after", "C17", "same", [(GS, FIXG, ""), (GS, "    // Populate initial points.\n    search_buffer.clear();\n", "    search_buffer.clear();\n" + FIXG)]),
    ("c17-same-helper", "C17", "same", [(FL, FIXF, "        auto prepare = [&](size_t k) { distance::maybe_fix_argument(distance_functors[k], queries.get_datum(query_indices[k])); };\n        for (size_t k = 0, kmax = query_indices.size(); k < kmax; ++k) {\n            prepare(k);\n        }\n")]),
    ("c17-same-local", "C17", "same", [(FL, "                auto query_index = query_indices[i];\n                auto d = distance::compute(\n                    distance_functors[i], queries.get_datum(query_index), datum\n                );", "                auto query_index = query_indices[i];\n                auto query = queries.get_datum(query_index);\n                auto& functor = distance_functors[i];\n                auto d = distance::compute(functor, query, datum);")]),
    ("c17-same-lambda", "C17", "same", [(CO, "        for (auto dst : all_candidates) {\n            if (is_deleted(dst)) {\n                continue;\n            }\n", "        auto measure = [&](auto k) { return distance::compute(distance, src_data, accessor(data_, k)); };\n        for (auto dst : all_candidates) {\n            if (is_deleted(dst)) {\n                continue;\n            }\n"), (CO, "distance::compute(distance, src_data, accessor(data_, dst))", "measure(dst)")]),
    ("c17-same-order", "C17", "same", [(CO, "        distance::maybe_fix_argument(distance, src_data);\n        valid_candidates.clear();\n", "        valid_candidates.clear();\n        distance::maybe_fix_argument(distance, src_data);\n")]),
    ("c17-same-early", "C17", "same", [(PR, "            const auto& query = accessor(dataset, id);\n            distance::maybe_fix_argument(distance_function, query);\n            result.push_back(detail::construct_as(lib::Type<I>(), pool[start]));\n", "            result.push_back(detail::construct_as(lib::Type<I>(), pool[start]));\n            const auto query = accessor(dataset, id);\n            distance::maybe_fix_argument(distance_function, query);\n")]),
    ("c17-same-invd", "C17", "same", [(MB, "distance::compute(scratch.scratch, query, datum);", "distance::compute(d, query, datum);")]),
    ("c17-same-invcopy", "C17", "same", [(MB, "distance::compute(scratch.scratch, query, datum);", "distance::compute(d, query, datum);"), (MB, "auto& d = scratch.scratch;", "auto d = scratch.scratch;")]),
    ("c17-same-normvar", "C17", "same", [(COS, "norm_ = norm(x);", "const float n = norm(x);\n        norm_ = n;")]),
    ("c17-same-genrefix", "C17", "same", [(VB, "auto&& graph_search_distance = build_adaptor.graph_search_distance();", "auto& graph_search_distance = build_adaptor.graph_search_distance();")]),
    ("c17-same-perthread", "C17", "same", [(FL, BC, "                auto prototype = extensions::distance(data_, distance_);\n                distance::BroadcastDistance distances{prototype, query_indices.size()};\n")]),
]
