T = "lib/threads/types.h"
K = "lib/threads/thunks.h"
R = "lib/threads/threadpool.h"
BODY = """    T b1 = lib::div_round_up(n, nthreads);
    T b2 = b1 - 1;

    // The number of threads using batchsize `p1`.
    T team1 = n - b2 * nthreads;
    bool in_team1 = static_cast<T>(tid) < team1;
    T this_b = in_team1 ? b1 : b2;
    T start = in_team1 ? (b1 * tid) : ((b1 * team1) + b2 * (tid - team1));
    return UnitRange<T>(start, std::min(start + this_b, n));
"""
DYN = """            for (;;) {
                uint64_t i = count.fetch_add(1, std::memory_order_relaxed);
                auto start = grainsize * i;
                if (start >= iterator_size) {
                    return;
                }

                auto stop = std::min(grainsize * (i + 1), iterator_size);
                auto this_range =
                    IteratorPair{std::begin(space) + start, std::begin(space) + stop};
                f(this_range, tid);
            }
"""
def body(s): return [(T, BODY, s)]
def d(old, new):
    assert old in DYN
    return [(K, DYN, DYN.replace(old, new))]
M = [
 ("c10-team", "C10", "bug", [(T, "static_cast<T>(tid) < team1", "static_cast<T>(tid) <= team1")]),
 ("c10-same8", "C10", "same", [(T, "T b1 = lib::div_round_up(n, nthreads);", "T b1 = n / nthreads + 1;")] ),
 ("c10-ceil", "C10", "bug", body("    T b = lib::div_round_up(n, nthreads);\n    T start = b * tid;\n    return UnitRange<T>(start, std::min(start + b, n));\n")),
 ("c10-drop", "C10", "bug", body("    T b = n / nthreads;\n    T start = b * tid;\n    return UnitRange<T>(start, start + b);\n")),
 ("c10-one", "C10", "bug", [(T, "if (nthreads <= 1 || n == 0) {", "if (nthreads <= 2 || n == 0) {")]),
 ("c10-few", "C10", "bug", [(T, "if (nthreads <= 1 || n == 0) {", "if (nthreads <= 1 || n < nthreads) {")]),
 ("c10-start2", "C10", "bug", [(T, "((b1 * team1) + b2 * (tid - team1))", "(b2 * tid)")]),
 ("c10-skip1", "C10", "bug", [(K, "if (r.empty()) {", "if (r.size() <= 1) {")]),
 ("c10-tid", "C10", "bug", [(K, "space.begin() + r.stop()};\n            f(this_range, tid);", "space.begin() + r.stop()};\n            f(this_range, nthr - 1 - tid);")]),
 ("c10-nthr", "C10", "bug", [(K, "auto nthr = static_cast<size_t>(nthreads);", "auto nthr = static_cast<size_t>(nthreads) + 1;")]),
 ("c10-cnt1", "C10", "bug", [(K, "count = std::atomic<uint64_t>(0)", "count = std::atomic<uint64_t>(1)")]),
 ("c10-gt", "C10", "bug", d("if (start >= iterator_size) {", "if (start + 1 >= iterator_size) {")),
 ("c10-clamp", "C10", "bug", d("std::min(grainsize * (i + 1), iterator_size)", "grainsize * (i + 1)")),
 ("c10-clamp1", "C10", "bug", d("std::min(grainsize * (i + 1), iterator_size)", "std::min(grainsize * (i + 1), iterator_size - 1)")),
 ("c10-load", "C10", "bug", d("uint64_t i = count.fetch_add(1, std::memory_order_relaxed);", "uint64_t i = count.load(); count.store(i + 1);")),
 ("c10-two", "C10", "bug", d("uint64_t i = count.fetch_add(1, std::memory_order_relaxed);", "uint64_t i = count.fetch_add(2, std::memory_order_relaxed);")),
 ("c10-once", "C10", "bug", d("                f(this_range, tid);\n", "                f(this_range, tid);\n                if (stop == iterator_size || i > 4096) { return; }\n")),
 ("c10-zero", "C10", "bug", d("start = grainsize * i;", "start = grainsize * i + 0;") and d("std::begin(space) + start", "std::begin(space) + (i == 0 ? start + 1 : start)")),
 ("c10-empty", "C10", "bug", [(R, "    if (!arg.empty()) {", "    if (arg.size() > 1) {")]),
 ("c10-pool", "C10", "bug", [(R, "auto f_wrapped = thunks::wrap(ThreadCount{pool.size()}, f, std::forward<T>(arg));", "auto f_wrapped = thunks::wrap(ThreadCount{pool.size() + 1}, f, std::forward<T>(arg));")]),
 ("c10-urmin", "C10", "bug", [(T, "stop_{std::max(stop, start)}", "stop_{stop}")]),
 ("c10-same1", "C10", "same", body("    T base = n / nthreads;\n    T rem = n % nthreads;\n    T id = static_cast<T>(tid);\n    T start = id * base + std::min(id, rem);\n    T len = base + (id < rem ? 1 : 0);\n    return UnitRange<T>(start, start + len);\n")),
 ("c10-same2", "C10", "same", d("uint64_t i = count.fetch_add(1, std::memory_order_relaxed);\n                auto start = grainsize * i;", "uint64_t start = count.fetch_add(grainsize, std::memory_order_relaxed);") and [(K, DYN, DYN.replace("uint64_t i = count.fetch_add(1, std::memory_order_relaxed);\n                auto start = grainsize * i;", "uint64_t start = count.fetch_add(grainsize, std::memory_order_relaxed);").replace("grainsize * (i + 1)", "start + grainsize"))]),
 ("c10-same3", "C10", "same", d("auto stop = std::min(grainsize * (i + 1), iterator_size);", "size_t stop = start + grainsize;\n                if (stop > iterator_size) { stop = iterator_size; }")),
 ("c10-same4", "C10", "same", [(K, DYN, """            auto i = count++;
            while (grainsize * i < iterator_size) {
                const size_t start = grainsize * i;
                const size_t stop = std::min<size_t>(start + grainsize, iterator_size);
                f(IteratorPair{space.begin() + start, space.begin() + stop}, tid);
                i = count++;
            }
""")]),
 ("c10-same5", "C10", "same", [(T, "    T this_b = in_team1 ? b1 : b2;\n    T start = in_team1 ? (b1 * tid) : ((b1 * team1) + b2 * (tid - team1));\n    return UnitRange<T>(start, std::min(start + this_b, n));\n", "    if (static_cast<T>(tid) < team1) {\n        const T first = b1 * tid;\n        return UnitRange<T>(first, std::min(first + b1, n));\n    }\n    const T first = team1 + b2 * tid;\n    return UnitRange<T>(first, std::min(first + b2, n));\n"), (T, "    bool in_team1 = static_cast<T>(tid) < team1;\n", "")]),
 ("c10-same6", "C10", "same", [(K, "            if (r.empty()) {\n                return;\n            }\n\n            auto this_range =\n                IteratorPair{space.begin() + r.start(), space.begin() + r.stop()};\n            f(this_range, tid);\n", "            if (r.size() != 0) {\n                auto first = space.begin() + r.start();\n                auto this_range = IteratorPair{first, first + r.size()};\n                f(this_range, tid);\n            }\n")]),
 ("c10-same7", "C10", "same", [(R, "    if (!arg.empty()) {", "    if (arg.size() != 0) {"), (T, "    bool empty() const { return size() == 0; }", "    bool empty() const { return begin() == end(); }")]),
]
