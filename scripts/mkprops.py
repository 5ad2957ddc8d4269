#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=None)))
I = "include/svs/"
V = I + "index/vamana/"

prop("C01", "External/internal ids stay in one-to-one correspondence",
 "After every sequence of id insertions, deletions, renumberings and reloads, the id translation maps each live external id to exactly one internal id and back: looking an external id up and translating the answer back always returns the id asked for, and neither direction holds an entry the other lacks.",
 ["inputs", "histories"], "every sequence of insert/delete/remap/save/load calls with arbitrary id sets",
 "The unit tests apply a handful of fixed sequences; a table that is updated in one direction only still answers those sequences correctly until a later lookup goes the other way.",
 [I + "core/translation.h"],
 [("both maps are updated together, with swapped key and value", "IDTranslator::insert*, delete_external, delete_internal, remap_internal_id"), ("load replays the saved pairs in saved order", "IDTranslator::save / load")],
 [("external->internal and internal->external maps", "the translation", I + "core/translation.h")], ["IDTranslator::get_internal/get_external/has_external/has_internal"])

prop("C02", "A rejected update leaves the index exactly as it was",
 "When an insertion or deletion on a mutable index is rejected because an id is repeated, already present, missing, or the numbers of ids and vectors differ, an exception is raised before anything has been modified: ids, stored vectors, graph, slot states and entry point are unchanged (free capacity added in advance of an insertion is not a change). Likewise reconstruction, static index building and loading of a mutable index reject mismatched sizes and out-of-range ids before writing any output or building on them.",
 ["inputs", "histories"], "every id set, batch size and prior index state",
 "Tests exercise a few bad inputs and mostly only check that something is thrown; whether state changed before the throw depends on which element of an arbitrary batch is bad.",
 [I + "core/translation.h", V + "dynamic_index.h", V + "index.h", V + "vamana_build.h"],
 [("checks dominate mutations", "IDTranslator::insert/delete_external; MutableVamanaIndex::add_points/delete_entries/reconstruct_at; VamanaBuilder constructor; auto_dynamic_assemble")],
 None, ["exceptions from add_points, delete_points, reconstruct_at, assemble"])

prop("C03", "A deleted id is never returned by any search",
 "Once an id has been deleted from a mutable index (and not re-added), no graph search or exhaustive search returns it, although its vector may still be traversed to reach live points. Conversely deleted points do not use up result slots: if enough live points were reached the search still returns the requested number.",
 ["histories", "inputs"], "every interleaving of add/delete/consolidate/compact/search calls and every query",
 "Tests search a small random index a few times; whether a deleted point surfaces depends on its distance to the query and on the buffer state at that moment.",
 [V + "dynamic_index.h", V + "dynamic_search_buffer.h", V + "extensions.h", I + "index/flat/flat.h"],
 [("slot state of every candidate recorded on insertion", "ValidBuilder, PredicatedSearchNeighbor"), ("invalid candidates are removed before results are copied", "MutableBuffer::cleanup, per-thread search"), ("predicate applied before a candidate is offered to the exhaustive result heap", "FlatIndex::search")],
 [("slot metadata", "Empty / Valid / Deleted per internal slot", V + "dynamic_index.h")], ["search results"])

prop("C04", "Consolidation removes every reference to deleted points",
 "After consolidation no live vertex keeps an edge to a deleted point, the search entry point is a live point, and only then do the freed slots become reusable. A vertex with a deleted neighbour is reconnected only to live vertices other than itself, through the surviving neighbours of its deleted neighbours.",
 ["histories", "schedules"], "every set of deletions, graph shape and thread schedule",
 "Consolidation of the handful of graphs in the tests does not reach empty neighbourhoods, repeated batches per worker or an entry point among the deleted; a stale edge shows only when the slot is reused.",
 [V + "consolidate.h", V + "dynamic_index.h", V + "prune.h"],
 [("deleted neighbours filtered, two-phase update", "GraphConsolidator"), ("entry point replaced when deleted, slot release after consolidation", "MutableVamanaIndex::consolidate")],
 [("slot metadata", "Deleted -> Empty transition", V + "dynamic_index.h")], ["graph adjacency, entry point, reuse of slots"])

prop("C05", "Compaction moves data, graph, ids and entry point together",
 "Compaction (and the compaction performed by saving) renumbers vectors, adjacency lists, neighbour references, slot states, external ids and the search entry point by one and the same mapping, so that every external id still names its own vector and its own neighbourhood; it never drops or duplicates a live point.",
 ["histories"], "every pattern of holes and every batch size",
 "A test sees only whether recall stays plausible; one structure renumbered differently is visible only for particular hole patterns and for later lookups.",
 [V + "dynamic_index.h", I + "core/compact.h", I + "core/graph/graph.h", I + "core/data/simple.h"],
 [("one new-to-old list drives every renumbering", "MutableVamanaIndex::compact"), ("saving consolidates and compacts first", "MutableVamanaIndex::save")], None, ["search, save and id lookup after compaction"])

prop("C06", "Inserted points become searchable only once fully connected",
 "When points are added to a mutable index, each occupies a slot that held no live or deleted point, its vector and cleared neighbour list are in place before the graph is linked to it, and it is marked live only after linking succeeded. Its external id, vector and slot always belong together.",
 ["histories", "schedules"], "every sequence of additions and deletions, with arbitrary free-slot patterns",
 "Slot reuse patterns depend on the history; tests add and delete a few batches and check recall.",
 [V + "dynamic_index.h", V + "vamana_build.h"],
 [("slot search then growth, then translation, data, graph clearing, construction, Valid marking", "MutableVamanaIndex::add_points")], None, ["search results after add_points"])

prop("C07", "Every saved setting is loaded back into the setting it came from",
 "For every serialisable object (build and search parameters, index configuration, id translation, datasets, graphs, clusterings, distances, binary blobs), each field that is written under a key is read back under that same key with a compatible type into the same field, so save followed by load reproduces the object.",
 ["inputs", "configurations"], "all field values of all serialisable classes",
 "Round-trip tests use few values, often equal for several fields or equal to the defaults, so swapped or dropped fields stay invisible; several classes have no round-trip test that runs.",
 [I + "lib/saveload", V + "build_params.h", V + "search_params.h", V + "index.h", V + "dynamic_index.h", I + "core/translation.h", I + "index/inverted/clustering.h", I + "core/data/simple.h", I + "core/graph/graph.h"],
 [("save and load agree key by key, field by field", "save()/load() of each class")], None, ["objects after load_from_disk"])

prop("C08", "Loading refuses files of the wrong version, schema or element type",
 "A stored object is only interpreted when its global version, its schema name, its own version and, where recorded, its element type and dimensionality match what the reader supports; otherwise loading raises an exception and no object is produced. Nothing from the file is interpreted before these checks.",
 ["inputs", "configurations"], "all stored files, versions and requested types",
 "Tests try one or two wrong versions; a check dropped for one class or reordered after use is not exercised.",
 [I + "lib/saveload/load.h", I + "lib/saveload/core.h", I + "core/data/simple.h", I + "core/graph/graph.h", I + "core/io/native.h", V + "build_params.h", V + "search_params.h", V + "index.h"],
 [("compatibility check dominates load", "Loader<T>::load, check_global_version, GenericSerializer::load, per-class check_load_compatibility")], None, ["exceptions from load functions"])

prop("C09", "A parallel run waits for every worker and reports every failure",
 "A call that runs a job on the thread pool hands the job exactly once to each worker index from zero to the pool size, does not return or throw before every worker it started has finished, and if the job fails on any worker or the caller - whatever it throws - surfaces an exception to the caller and leaves the pool usable.",
 ["schedules", "fault_sequences", "inputs"], "all thread counts, schedules and sets of failing workers",
 "The tests make one or two workers fail with a standard exception; returning early is only visible under particular timings.",
 [I + "lib/threads/threadpool.h", I + "lib/threads/thread.h"],
 [("assign all, run own share, wait for all on every exit, restart crashed workers", "NativeThreadPoolBase::run, ThreadImpl")], None, ["threads::run"])

prop("C10", "Work partitions cover every index exactly once",
 "For every number of elements, workers and non-zero batch size, the static and dynamic partitions used by parallel runs hand out each index of the range exactly once, hand out no index outside the range, and dynamic workers draw disjoint batches under every interleaving.",
 ["inputs", "schedules"], "all ranges, thread counts, grain sizes and interleavings",
 "Tests cover sampled sizes on whatever schedule occurs; an off-by-one at the remainder boundary or a lost batch needs particular numbers.",
 [I + "lib/threads/thunks.h", I + "lib/threads/types.h"],
 [("balance()", I + "lib/threads/types.h"), ("atomic fetch-add of the next batch", "Thunk for DynamicPartition")], None, ["indices seen by the job"])

prop("C11", "Worker hand-off cannot lose a wake-up, a job or an error",
 "The hand-off between a controlling thread and a worker cannot lose a job or a wake-up: a job is published before the worker is signalled, a sleeping worker is notified under the lock it sleeps on and re-checks its state after every wake-up, completion is published only after the job finished, and a failed job leaves the worker in the failed state with its error retrievable by the controlling thread.",
 ["schedules", "fault_sequences"], "all interleavings of controller and worker, including sleep, wake, shutdown and failing jobs",
 "The window in which a wake-up is lost is a few instructions wide and does not occur in a test run.",
 [I + "lib/threads/thread.h"],
 [("atomic state machine with condition variable", "ThreadControlBlock, ThreadImpl, SpinUntil")], [("ThreadState", "the hand-off state", I + "lib/threads/thread.h")], ["Thread::assign / wait_or_exception"])

prop("C12", "Adjacency lists never exceed the maximum degree or repeat a neighbour",
 "Whatever edges are added or whatever neighbour lists are assigned, a vertex's stored neighbour list never holds more entries than the graph's maximum degree, the stored length equals the number of stored neighbours, an edge from a vertex to itself is refused, and adding an edge that is already present changes nothing.",
 ["inputs", "histories"], "all vertices, neighbour lists and sequences of edge updates",
 "An overlong list silently overwrites memory of the following vertex and is visible only when the neighbour count hits the limit.",
 [I + "core/graph/graph.h"],
 [("clamping and full/duplicate/self checks", "SimpleGraphBase::replace_node, add_edge, clear_node")], None, ["get_node, get_node_degree"])

prop("C13", "Pruning returns a bounded subset of its candidates, never the node itself",
 "Neighbour pruning, under every pruning rule, returns only members of the candidate list it was given, never the vertex being pruned, never more than the requested number, no candidate twice, and nothing left over from an earlier call.",
 ["inputs"], "all candidate lists, distances, limits, and contents of the output buffer",
 "The tests prune small fixed lists with fresh buffers; empty candidate lists with reused buffers, or limits hit in the second pass, are not reached.",
 [V + "prune.h", V + "vamana_build.h", V + "consolidate.h"],
 [("self excluded, limit checked, result cleared, chosen candidates marked", "heuristic_prune_neighbors (iterative, progressive, legacy)")], None, ["new adjacency lists"])

prop("C14", "Parallel graph construction changes a vertex only with exclusive access",
 "While a graph is being built or extended by several threads, an adjacency list that other threads may touch is changed only while the lock belonging to that very vertex is held, overflow lists only while the lock of their own bucket is held, and phases that replace whole lists without a lock write only vertices owned by the running worker and do not overlap with phases that read them.",
 ["schedules"], "all thread counts and interleavings during build, insert and consolidate",
 "Builds in tests are tiny and a racy write corrupts an edge list only in rare interleavings.",
 [V + "vamana_build.h", V + "consolidate.h", I + "lib/spinlock.h"],
 [("per-vertex locks", "VamanaBuilder::add_reverse_edges"), ("per-bucket locks", "BackedgeBuffer"), ("generate then apply", "VamanaBuilder::generate_neighbors/update, GraphConsolidator")], None, ["graph after build"])

prop("C15", "Locks and lock-protected values give mutual exclusion",
 "At most one thread at a time holds a spin lock, what a thread wrote under it is visible to the next holder, and values documented as protected (shared logger, allocation registry, read-write protected settings) are only read or written while their lock is held, in shared mode for reads and exclusive mode for writes.",
 ["schedules"], "all interleavings",
 "Missing ordering or a lock taken in the wrong mode shows only as a rare race.",
 [I + "lib/spinlock.h", I + "lib/concurrency/readwrite_protected.h", I + "core/allocator.h"],
 [("acquire exchange, release store", "SpinLock"), ("shared/unique locking", "ReadWriteProtected"), ("mutex around registry", "GenericHugepageAllocator")], None, ["SpinLock, ReadWriteProtected, HugepageAllocator"])

prop("C16", "Searching does not modify the index or share scratch space between threads",
 "A search only reads the index: graph, vectors, entry points, ids and settings are never written on any search path, and every worker of a batch search uses its own search buffer, distance functor and scratch space, so results for a query do not depend on the other queries of the batch or on the number of threads.",
 ["schedules", "inputs"], "all batches, thread counts and interleavings",
 "Sharing one buffer between workers corrupts results only when two workers touch it at the same time; single-thread tests cannot see it.",
 [V + "index.h", V + "dynamic_index.h", V + "extensions.h", V + "greedy_search.h", I + "index/flat/flat.h"],
 [("const index access; shallow copies inside the per-thread closure", "VamanaIndex::search, MutableVamanaIndex::search, extensions::per_thread_batch_search, FlatIndex::search")], None, ["search results"])

prop("C17", "Distances are evaluated only against a distance prepared for that query",
 "For distance functions that need per-query preparation (such as the norm of the query in cosine similarity), every distance evaluated during search, exhaustive search, building, consolidation and clustering is computed with a functor prepared for exactly the vector used as query, after that vector was chosen and before the first evaluation.",
 ["inputs", "configurations"], "all distances, datasets and operations",
 "Tests run building and searching almost only with squared Euclidean distance, for which preparation does nothing; a missing preparation is invisible there.",
 [V + "greedy_search.h", V + "prune.h", V + "consolidate.h", V + "vamana_build.h", V + "extensions.h", I + "index/flat/flat.h", I + "core/distance/cosine.h", I + "concepts/distance.h"],
 [("distance::maybe_fix_argument before distance::compute", "all compute sites")], None, ["reported distances"])

prop("C18", "Better and worse are always decided by the distance's own order",
 "Wherever neighbours, candidates or results are ranked, merged, truncated or pruned, the comparison used is the one belonging to the distance function in use, so that for similarity measures where larger is better the best results are kept exactly as for distances where smaller is better; results come back ordered best first.",
 ["inputs", "configurations"], "all distance functions and inputs",
 "Most tests use Euclidean distance; a hard-wired less-than is right there and wrong for inner product and cosine.",
 [V + "search_buffer.h", V + "dynamic_search_buffer.h", V + "prune.h", V + "consolidate.h", V + "vamana_build.h", V + "extensions.h", I + "index/flat/flat.h", I + "index/flat/inserters.h", I + "lib/neighbor.h", I + "index/inverted/memory_based.h"],
 [("comparator taken from the distance", "distance::comparator, compare_t, TotalOrder, MergeSort/bulk inserters")], None, ["order of results"])

prop("C19", "The search buffer stays sorted, bounded, duplicate-free and fresh",
 "The candidate buffer of a graph search never holds more than its configured capacity, keeps its candidates ordered with no candidate twice, discards only candidates no better than everything it keeps, always hands out its best unexpanded candidate next, and starts every query empty with all bookkeeping reset, for capacities and candidate counts of any size.",
 ["inputs", "histories"], "all insertion sequences, capacities and configurations",
 "Tests compare against a reference for short random sequences and small capacities; index arithmetic at the limits, and state left from an earlier query, are not covered.",
 [V + "search_buffer.h", V + "dynamic_search_buffer.h"],
 [("insert, next, clear, change_maxsize, cleanup", "SearchBuffer, MutableBuffer")], None, ["search results"])

prop("C20", "Every query gets its own full row of results",
 "A batch search writes, for every query of the batch and every rank below the requested number of neighbours, exactly the entry of that query and that rank - id and distance taken from the same candidate - and the candidate buffer used is large enough for the requested number even when the configured search window is smaller.",
 ["inputs", "configurations"], "all batch sizes, thread counts, neighbour counts and window sizes",
 "The search tests cannot run without the missing reference data; partial batches and requested counts above the window are not tested.",
 [V + "index.h", V + "dynamic_index.h", V + "extensions.h", I + "index/flat/flat.h", I + "index/index.h", I + "core/query_result.h"],
 [("per-thread search loops and result writes", "extensions::per_thread_batch_search, VamanaIndex::search, MutableVamanaIndex::search, FlatIndex::search")], None, ["QueryResult"])

prop("C21", "Distance kernels use every vector element exactly once and nothing else",
 "For every supported pair of element types and every dimensionality, each distance kernel reads exactly the elements of the two vectors - never past their end - pairs element i of one with element i of the other, and includes each pair exactly once in the result.",
 ["inputs", "configurations"], "all dimensions (compile-time and run-time), element types and instruction sets",
 "Only one instruction set is compiled in a given test build, reading past the end is silent, and a mistake in a tail only concerns particular dimensions.",
 [I + "core/distance/euclidean.h", I + "core/distance/inner_product.h", I + "core/distance/cosine.h", I + "core/distance/simd_utils.h"],
 [("unrolled main loop, vector loop, masked tail", "simd::generic_simd_op, create_mask, per-type kernels")], None, ["distance::compute"])

prop("C22", "A file that cannot be opened, read or written completely is reported",
 "If a file cannot be opened, ends early, or cannot be written completely, the operation that needed it raises an exception; it never returns data that was not in the file nor reports a save as successful that did not reach the file.",
 ["fault_sequences", "inputs"], "all missing, truncated, malformed and unwritable files",
 "Tests read and write complete files on a healthy disk.",
 [I + "lib/file.h", I + "lib/readwrite.h", I + "core/io/native.h", I + "core/io/binary.h", I + "core/io/vecs.h", I + "core/allocator.h"],
 [("stream state checked after open/read/write", "lib::open_read/open_write, read_binary/write_binary"), ("size and magic-number checks", "io::*::get_dims, classify, MemoryMapper::mmap")], None, ["exceptions from load and save"])

prop("C23", "Every acquired resource is released exactly once",
 "On every path, normal or exceptional, each file descriptor opened for memory mapping is closed exactly once, each mapping is unmapped once with the size it was mapped with, and each allocation is returned to the allocator it came from with the size and alignment it was requested with; moving an owner transfers ownership.",
 ["fault_sequences", "inputs", "histories"], "all paths including failing system calls, moves and assignments",
 "Leaks and mismatched releases do not fail a test; failing system calls are not exercised.",
 [I + "core/allocator.h", I + "lib/memory.h", I + "lib/threads/threadlocal.h", I + "lib/array.h"],
 [("close on each exit, RAII mapping", "MemoryMapper::mmap, MMapPtr"), ("size registry", "GenericHugepageAllocator"), ("allocate/deallocate pairs", "lib::Allocator, AlignedAllocator, DenseArray")], None, ["process resources"])

prop("C24", "Every enumerator is handled and names parse back to what they name",
 "Every element type, distance type, file kind, slot state and calibration mode has its own name, equal to its identifier; parsing that name gives the same enumerator back and no other string does (an unknown distance or file kind is rejected with an exception, an unknown element type is 'undef'); the element size and C++ type of an element type correspond one to one; and run-time dispatch on such a value reaches the implementation for that value and no other, unknown values being refused. The run-time dispatcher calls, of all registered methods whose every argument matches, one with the best score, with the arguments passed on, and throws when none matches.",
 ["inputs", "configurations"], "all enumerators, all other values, all strings, all registered method lists",
 "Tests check some of the enumerators; a swapped case in a rarely used one passes.",
 [I + "lib/datatype.h", I + "core/distance.h", I + "core/io/native.h", I + "lib/meta.h", I + "lib/dispatcher.h", I + "core/data.h", V + "dynamic_index.h", V + "calibrate.h"],
 [("switches and parse functions", "name/parse_datatype, name/parse_distance_type, name/parse_schema, DistanceDispatcher, visit_file_type, lib::match"), ("method selection", "Dispatcher::best_match/invoke, DispatchConverter::match")], None, ["parsing, dispatch"])

prop("C25", "The type-erased interface performs exactly the operation requested",
 "Each operation of the type-erased index classes reaches the operation of the same meaning on the concrete index with every argument passed unchanged - no argument dropped, swapped, truncated or replaced by a default - and its result is returned unchanged; a value stored through a setter is the value later returned by the matching getter.",
 ["inputs", "configurations"], "all operations, argument values and backends",
 "The orchestrator tests mostly cannot run here and only use integer-like or equal values, so swapped or truncated arguments are not noticed.",
 [I + "orchestrators/manager.h", I + "orchestrators/vamana.h", I + "orchestrators/dynamic_vamana.h", I + "orchestrators/exhaustive.h", V + "index.h", V + "dynamic_index.h"],
 [("forwarding overrides", "ManagerImpl, VamanaImpl, DynamicVamanaImpl, IndexManager, Vamana, DynamicVamana")], None, ["public classes Vamana, DynamicVamana, Flat"])

prop("C26", "Clusters of an inverted index keep ids and vectors together and complete",
 "When an inverted index is formed, every vector that is not itself a centroid is offered to clustering exactly once, each cluster entry keeps the id and the copy of the vector belonging to it, size reduction removes a point from a cluster only while another cluster still holds it, and concurrent assignment to the same cluster is serialised.",
 ["inputs", "schedules"], "all datasets, centroid sets, batch sizes and schedules",
 "The inverted tests use one small dataset and check recall only.",
 [I + "index/inverted/clustering.h", I + "index/inverted/memory_based.h"],
 [("complement/batch loop, per-cluster locks, histogram guarded erase, paired writes", "cluster_with, post_process_neighbors, Clustering::reduce_maxsize_sorted, SparseClusteredDataset/DenseClusteredDataset")], None, ["search results of the inverted index"])

prop("C27", "Random sampling of training points stays inside the dataset",
 "Whenever the library picks dataset elements at random (k-means initialisation, centroid selection), every picked index is a valid index of the dataset and picked indices are pairwise distinct.",
 ["inputs"], "all dataset sizes, seeds and sample counts",
 "An index one past the end is drawn only for particular seeds and sizes and reads unrelated memory silently.",
 [I + "core/kmeans.h", I + "index/inverted/clustering.h"],
 [("distribution bounds and seen-set", "train_impl, randomly_select_centroids")], None, ["k-means centroids"])

prop("C28", "Exhaustive operations visit every element exactly once",
 "Operations defined over a whole dataset - exhaustive search, medoid and mean computation, copying and populating datasets, k-means assignment - visit every element of the dataset exactly once for every dataset size, batch size and thread count; no element is skipped, revisited or read beyond the end.",
 ["inputs", "configurations"], "all dataset sizes, batch sizes and thread counts",
 "Fixed sizes that divide evenly hide a lost remainder.",
 [I + "index/flat/flat.h", I + "core/medioid.h", I + "core/data/simple.h", I + "core/data/io.h", I + "core/kmeans.h", I + "core/compact.h"],
 [("batch loops with min()-clamped ends", "FlatIndex::search, medioid::*, data::copy, compact_data")], None, ["results, copied data"])

prop("C29", "Out-of-range sizes and ids from callers or files are rejected, not truncated",
 "A count, size or id that comes from a caller or a file and does not fit the narrower integer used internally raises an exception instead of being silently truncated or sign-changed, and a checked narrowing conversion accepts exactly the values that are representable in the target type.",
 ["inputs"], "all integer values and type pairs",
 "Tests use small values; truncation needs values above the narrow type's limit.",
 [I + "lib/narrow.h", I + "lib/saveload/bootstrap.h", I + "core/io/binary.h", I + "core/query_result.h", V + "dynamic_search_buffer.h"],
 [("lib::narrow", I + "lib/narrow.h")], None, ["exceptions on overflow"])

prop("C30", "Approximate search quality reaches the calibrated recall",
 "For a built index, searching with the parameters returned by calibration achieves at least the requested recall on the calibration queries whenever such parameters exist within the configured limits.",
 ["inputs"], "all datasets and targets", "Recall depends on the data; tests compare against recorded values for one dataset.",
 [V + "calibrate.h"], [("binary search over window sizes", "calibration::*")], None, ["recall"])

prop("C31", "Distance values are numerically accurate",
 "Every distance kernel returns a value within the rounding-error bound of the exact distance for all finite inputs.",
 ["inputs"], "all vectors", "Floating-point behaviour over all inputs cannot be sampled.",
 [I + "core/distance/euclidean.h"], [("SIMD accumulation", I + "core/distance/simd_utils.h")], None, ["distance values"])

prop("C32", "An interrupted save never damages a previously saved index",
 "If saving stops part way (crash or disk full), an index previously saved at the same location can still be loaded unchanged.",
 ["crash_points"], "all crash points during save", "Tests never interrupt a save.",
 [I + "lib/saveload/save.h"], [("none: files are overwritten in place", "save_to_disk")], None, ["load after interrupted save"])

prop("C33", "A reloaded index answers every query identically",
 "Saving an index and loading it again yields an index that returns the same neighbours and distances for every query.",
 ["inputs", "histories"], "all indexes and queries", "Only sampled queries are compared.",
 [V + "index.h", V + "dynamic_index.h"], [("save/load of config, graph and data", "VamanaIndex::save, auto_assemble")], None, ["search results"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
