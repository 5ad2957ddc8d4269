V = "index/vamana/"
SB, DB, VB, CO = V + "search_buffer.h", V + "dynamic_search_buffer.h", V + "vamana_build.h", V + "consolidate.h"
PR, FL, INS, CL, MB = V + "prune.h", "index/flat/flat.h", "index/flat/inserters.h", "index/inverted/clustering.h", "index/inverted/memory_based.h"
NB, TT = "lib/neighbor.h", "lib/type_traits.h"
SORTC = "std::sort(valid_candidates.begin(), valid_candidates.end(), Compare{});"
SORTR = "std::sort(candidates.begin(), candidates.end(), TotalOrder(cmp));"
RESR = """                        candidates.resize(
                            std::min(candidates.size(), params_.max_candidate_pool_size)
                        );
"""
SORTG = """                std::sort(
                    pool.begin(),
                    pool.end(),
                    TotalOrder(distance::comparator(general_distance))
                );
"""
RESG = "                pool.resize(std::min(pool.size(), params_.max_candidate_pool_size));\n"
CLEAN = """        for (size_t i = 0; i < getsize<0>(data_); ++i) {
            inserter(i).cleanup();
        }
"""
M = [
    ("c18-totalless", "C18", "bug", [(VB, "TotalOrder(distance::comparator(general_distance))", "TotalOrder(std::less<>())")]),
    ("c18-reverseless", "C18", "bug", [(VB, SORTR, "std::sort(candidates.begin(), candidates.end(), TotalOrder(std::less<>{}));")]),
    ("c18-reverselambda", "C18", "bug", [(VB, SORTR, "std::sort(candidates.begin(), candidates.end(), [](const auto& x, const auto& y) { return x.distance() < y.distance(); });")]),
    ("c18-buildbuffer", "C18", "bug", [(VB, "using search_buffer_type = SearchBuffer<Idx, distance::compare_t<Dist>>;", "using search_buffer_type = SearchBuffer<Idx>;")]),
    ("c18-consless", "C18", "bug", [(CO, SORTC, "std::sort(valid_candidates.begin(), valid_candidates.end(), std::less<>{});")]),
    ("c18-consdefault", "C18", "bug", [(CO, SORTC, "std::sort(valid_candidates.begin(), valid_candidates.end());")]),
    ("c18-skipless", "C18", "bug", [(SB, "return compare_(back().distance(), distance) && full();", "return back().distance() < distance && full();")]),
    ("c18-dskipless", "C18", "bug", [(DB, "return full() && compare_(back().distance(), distance);", "return full() && back().distance() < distance;")]),
    ("c18-posless", "C18", "bug", [(SB, "return !compare_(d, other.distance());", "return other.distance() <= d;")]),
    ("c18-dupless", "C18", "bug", [(DB, "if (compare_(candidate.distance(), neighbor.distance())) {", "if (candidate.distance() < neighbor.distance()) {")]),
    ("c18-bufsort", "C18", "bug", [(SB, "void sort() { std::sort(begin(), end(), compare_); }", "void sort() { std::sort(begin(), end(), std::less<>{}); }")]),
    ("c18-dbufsort", "C18", "bug", [(DB, "        std::sort(begin(), end(), compare_);", "        std::sort(begin(), end());")]),
    ("c18-prunecmp", "C18", "bug", [(PR, "if (cmp(current_alpha * djk, candidate.distance())) {\n                    pruned[t] = PruneState::Pruned;", "if (current_alpha * djk < candidate.distance()) {\n                    pruned[t] = PruneState::Pruned;")]),
    ("c18-prunemax", "C18", "bug", [(PR, "pruned[t] = std::max(pruned[t], candidate.distance() / djk, cmp);", "pruned[t] = std::max(pruned[t], candidate.distance() / djk);")]),
    ("c18-alphacmp", "C18", "bug", [(PR, "while (result.size() < max_result_size && !cmp(alpha, current_alpha)) {\n        size_t start = 0;\n        while (result.size() < max_result_size && start < poolsize) {\n            auto id = pool[start].id();\n            if (excluded(", "while (result.size() < max_result_size && current_alpha <= alpha) {\n        size_t start = 0;\n        while (result.size() < max_result_size && start < poolsize) {\n            auto id = pool[start].id();\n            if (excluded(")]),
    ("c18-heapcmp", "C18", "bug", [(INS, "if (compare_(*begin_, x)) {", "if (begin_->distance() < x.distance()) {")]),
    ("c18-pushheap", "C18", "bug", [(INS, "std::push_heap(begin_, end_, compare_);", "std::push_heap(begin_, end_);")]),
    ("c18-heapsent", "C18", "bug", [(INS, "auto sentinel = type_traits::sentinel_v<value_type, Cmp>;", "auto sentinel = type_traits::sentinel_v<value_type, std::less<>>;")]),
    ("c18-lowerbound", "C18", "bug", [(INS, "std::lower_bound(begin_, end_, x, compare_)", "std::lower_bound(begin_, end_, x)")]),
    ("c18-noclean", "C18", "bug", [(FL, "        scratch.cleanup();\n", "")]),
    ("c18-cleanfirst", "C18", "bug", [(FL, "        scratch.cleanup();\n", ""), (FL, "        size_t start = 0;\n        while (start < data_.size()) {", "        scratch.cleanup();\n        size_t start = 0;\n        while (start < data_.size()) {")]),
    ("c18-cleanbatch", "C18", "bug", [(FL, "        scratch.cleanup();\n", ""), (FL, "            start = stop;\n", "            start = stop;\n            scratch.cleanup();\n")]),
    ("c18-cleanfew", "C18", "bug", [(INS, CLEAN, CLEAN.replace("getsize<0>", "getsize<1>"))]),
    ("c18-cleanskip", "C18", "bug", [(INS, CLEAN, CLEAN.replace("size_t i = 0", "size_t i = 1"))]),
    ("c18-sortheapshort", "C18", "bug", [(INS, "return std::sort_heap(begin_, end_, compare_);", "return std::sort_heap(begin_, end_ - 1, compare_);")]),
    ("c18-cosless", "C18", "bug", [("core/distance/cosine.h", "using compare = std::greater<>;", "using compare = std::less<>;")]),
    ("c18-ipless", "C18", "bug", [("core/distance/inner_product.h", "using compare = std::greater<>;", "using compare = std::less<>;")]),
    ("c18-opgt", "C18", "bug", [(NB, "return x.distance() > y.distance();", "return x.distance() < y.distance();")]),
    ("c18-opid", "C18", "bug", [(NB, "return x.distance() < y.distance();", "return x.id() < y.id();")]),
    ("c18-sentlow", "C18", "bug", [(TT, "template <std::floating_point F> struct Sentinel<F, std::greater<>> {\n    static constexpr F value = std::numeric_limits<F>::lowest();", "template <std::floating_point F> struct Sentinel<F, std::greater<>> {\n    static constexpr F value = std::numeric_limits<F>::min();")]),
    ("c18-tomb", "C18", "bug", [(TT, "template <std::floating_point F> struct TombStone<F, std::greater<>> {\n    static constexpr F value = std::numeric_limits<F>::max();", "template <std::floating_point F> struct TombStone<F, std::greater<>> {\n    static constexpr F value = std::numeric_limits<F>::lowest();")]),
    ("c18-sentnb", "C18", "bug", [(NB, "sentinel_v<float, Cmp>};", "sentinel_v<float, std::less<>>};")]),
    ("c18-cutoff", "C18", "bug", [(MB, "if (!compare(candidate.distance(), cutoff_distance)) {", "if (candidate.distance() >= cutoff_distance) {")]),
    ("c18-invbound", "C18", "bug", [(CL, "if (compare(bound, distance)) {", "if (bound < distance) {")]),
    ("c18-clsort", "C18", "bug", [(CL, "std::sort(elements_.begin(), elements_.end(), TotalOrder(cmp));", "std::sort(elements_.begin(), elements_.end(), TotalOrder(std::less<>()));")]),
    ("c18-cutfirst", "C18", "bug", [(VB, RESG, ""), (VB, SORTG, RESG + SORTG)]),
    ("c18-rcutfirst", "C18", "bug", [(VB, RESR, ""), (VB, "                        " + SORTR + "\n", RESR + "                        " + SORTR + "\n")]),
    ("c18-partsort", "C18", "bug", [(VB, SORTR, "std::sort(candidates.begin() + neighbors.size(), candidates.end(), TotalOrder(cmp));")]),
    ("c18-condsort", "C18", "bug", [(CO, SORTC, "if (valid_candidates.size() > 1000) { " + SORTC + " }")]),
    ("c18-staticless", "C18", "bug", [(V + "index.h", "using search_buffer_type = SearchBuffer<Idx, distance::compare_t<Dist>>;", "using search_buffer_type = SearchBuffer<Idx>;"), (V + "index.h", "                distance::comparator(distance_),\n", "                std::less<>(),\n"), (V + "index.h", "                    distance::comparator(distance_),\n", "                    std::less<>(),\n")]),
    # same behaviour
    ("c18-same-stable", "C18", "same", [(VB, SORTR, "std::stable_sort(candidates.begin(), candidates.end(), TotalOrder(cmp));")]),
    ("c18-same-lambda", "C18", "same", [(VB, SORTR, "auto order = TotalOrder(cmp);\n std::sort(candidates.begin(), candidates.end(), [&](const auto& a, const auto& b) { return order(a, b); });")]),
    ("c18-same-swapargs", "C18", "same", [(SB, "return compare_(back().distance(), distance) && full();", "const auto& worst = back();\n        return full() && compare_(worst.distance(), distance);")]),
    ("c18-same-invert", "C18", "same", [(PR, "if (cmp(current_alpha * djk, candidate.distance())) {\n                    pruned[t] = PruneState::Pruned;\n                }", "const bool keep = !cmp(current_alpha * djk, candidate.distance());\n                if (keep) {\n                    continue;\n                }\n                pruned[t] = PruneState::Pruned;")]),
    ("c18-same-while", "C18", "same", [(INS, CLEAN, "        size_t i = 0;\n        const size_t rows = getsize<0>(data_);\n        while (i < rows) {\n            auto sorter = inserter(i);\n            sorter.cleanup();\n            ++i;\n        }\n")]),
    ("c18-same-comp", "C18", "same", [(VB, "using search_buffer_type = SearchBuffer<Idx, distance::compare_t<Dist>>;", "using order_type = distance::compare_t<Dist>;\n    using search_buffer_type = SearchBuffer<Idx, order_type>;")]),
    ("c18-same-sorthelper", "C18", "same", [(VB, SORTG, "                auto best_first = [&](auto& xs) { std::sort(xs.begin(), xs.end(), TotalOrder(distance::comparator(general_distance))); };\n                best_first(pool);\n")]),
    ("c18-same-erase", "C18", "same", [(VB, RESG, "                if (pool.size() > params_.max_candidate_pool_size) {\n                    pool.resize(params_.max_candidate_pool_size);\n                }\n")]),
    ("c18-same-worse", "C18", "same", [(INS, "if (compare_(*begin_, x)) {\n            return;\n        }", "const bool worse = compare_(*begin_, x);\n        if (worse) {\n            return;\n        }")]),
    ("c18-same-flat", "C18", "same", [(FL, "                    const auto& neighbors = scratch.result(i);\n", "                    auto neighbors = scratch.result(i);\n")]),
    ("c18-same-bound", "C18", "same", [(CL, "if (compare(bound, distance)) {", "const bool too_far = compare(bound, distance);\n                if (too_far) {")]),
    ("c18-same-timer", "C18", "same", [(VB, SORTG, SORTG + "                if (alpha < 0.0f) { throw ANNEXCEPTION(\"negative alpha\"); }\n")]),
]
