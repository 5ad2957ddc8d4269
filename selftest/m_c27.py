K = "core/kmeans.h"
CL = "index/inverted/clustering.h"
MB = "index/inverted/memory_based.h"
UP = """    auto distribution = std::uniform_int_distribution<size_t>(
        0, data.size() == 0 ? 0 : data.size() - 1
    );
"""
LOOP = """        auto j = distribution(rng);
        while (seen.contains(j)) {
            j = distribution(rng);
        }
        centroids.set_datum(i, data.get_datum(j));
        seen.insert(j);
"""
CUP = "    auto distribution = std::uniform_int_distribution<I>(0, lib::narrow<I>(data_size - 1));\n"
CLOOP = """    while (ids.size() < num_centroids) {
        ids.insert(distribution(rng));
    }
"""
CV = "    auto v = std::vector<I, lib::Allocator<I>>(ids.begin(), ids.end());\n"
KG = "    if (num_clusters > data.size()) {"
CG = "    if (data_size == 0 || num_centroids > data_size) {"
M = [
    ("c27-inclusive", "C27", "bug", [(K, UP, "    auto distribution = std::uniform_int_distribution<size_t>(0, data.size());\n")]),
    ("c27-fromone", "C27", "bug", [(K, UP, UP.replace("        0, data", "        1, data"))]),
    ("c27-clusters", "C27", "bug", [(K, UP, UP.replace("data.size() - 1", "num_clusters - 1"))]),
    ("c27-norecord", "C27", "bug", [(K, LOOP, LOOP.replace("        seen.insert(j);\n", ""))]),
    ("c27-recordi", "C27", "bug", [(K, LOOP, LOOP.replace("        seen.insert(j);\n", "        seen.insert(i);\n"))]),
    ("c27-onlyonce", "C27", "bug", [(K, LOOP, LOOP.replace("while (seen", "if (seen"))]),
    ("c27-inverted", "C27", "bug", [(K, LOOP, LOOP.replace("while (seen.contains(j))", "while (!seen.contains(j) && !seen.empty())"))]),
    ("c27-noguard", "C27", "bug", [(K, KG, "    if (num_clusters > data.size() + 1) {")]),
    ("c27-dims", "C27", "bug", [(K, KG, "    if (num_clusters > data.size() * ndims) {")]),
    ("c27-usei", "C27", "bug", [(K, LOOP, LOOP.replace("data.get_datum(j)", "data.get_datum(j + 1)"))]),
    ("c27-less", "C27", "bug", [(K, "    for (size_t i = 0; i < num_clusters; ++i) {\n        // Pick", "    for (size_t i = 0; i + 1 < num_clusters; ++i) {\n        // Pick")]),
    ("c27-cent-incl", "C27", "bug", [(CL, CUP, CUP.replace("data_size - 1", "data_size"))]),
    ("c27-cent-range", "C27", "bug", [(CL, CUP, CUP.replace("data_size - 1", "num_centroids - 1"))]),
    ("c27-cent-vec", "C27", "bug", [(CL, CLOOP, "    auto picked = std::vector<I, lib::Allocator<I>>();\n    while (picked.size() < num_centroids) {\n        picked.push_back(distribution(rng));\n    }\n"), (CL, CV, "    auto v = picked;\n")]),
    ("c27-cent-attempts", "C27", "bug", [(CL, CLOOP, "    for (size_t attempt = 0; attempt < 4 * num_centroids && ids.size() < num_centroids; ++attempt) {\n        ids.insert(distribution(rng));\n    }\n")]),
    ("c27-cent-guard", "C27", "bug", [(CL, CG, "    if (data_size == 0) {")]),
    ("c27-cent-shift", "C27", "bug", [(CL, CLOOP, CLOOP.replace("distribution(rng)", "distribution(rng) + 1"))]),
    ("c27-cent-dims", "C27", "bug", [(MB, "        return randomly_select_centroids(\n            data.size(),", "        return randomly_select_centroids(\n            data.size() + data.dimensions(),")]),
    ("c27-same-insert", "C27", "same", [(K, LOOP, """        auto j = distribution(rng);
        while (!seen.insert(j).second) {
            j = distribution(rng);
        }
        centroids.set_datum(i, data.get_datum(j));
""")]),
    ("c27-same-dowhile", "C27", "same", [(K, LOOP, """        size_t j = 0;
        do {
            j = distribution(rng);
        } while (seen.contains(j));
        seen.insert(j);
        centroids.set_datum(i, data.get_datum(j));
""")]),
    ("c27-same-last", "C27", "same", [(K, UP, "    const size_t last = data.size() == 0 ? 0 : data.size() - 1;\n    auto distribution = std::uniform_int_distribution<size_t>(0, last);\n")]),
    ("c27-same-guard", "C27", "same", [(K, KG, "    if (data.size() < num_clusters) {")]),
    ("c27-same-count", "C27", "same", [(K, "while (seen.contains(j))", "while (seen.count(j) != 0)")]),
    ("c27-same-cent-var", "C27", "same", [(CL, CLOOP, "    for (;;) {\n        if (ids.size() >= num_centroids) {\n            break;\n        }\n        const I id = distribution(rng);\n        ids.insert(id);\n    }\n")]),
    ("c27-same-cent-vec", "C27", "same", [(CL, CLOOP, "    auto picked = std::vector<I, lib::Allocator<I>>();\n    while (picked.size() < num_centroids) {\n        const I id = distribution(rng);\n        if (ids.contains(id)) {\n            continue;\n        }\n        ids.insert(id);\n        picked.push_back(id);\n    }\n"), (CL, CV, "    auto v = picked;\n")]),
    ("c27-same-cent-last", "C27", "same", [(CL, CUP, "    const I last = lib::narrow<I>(data_size - 1);\n    std::uniform_int_distribution<I> distribution{0, last};\n")]),
]
