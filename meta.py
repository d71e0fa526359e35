#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json
T = "goko/src/covertree/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})

prop("P01", "k nearest neighbours are exact",
     "For every cloud, tree parameters, query point and k, the k-nearest-neighbour query returns min(k, number of points) distinct points of the cloud in order of distance, each with its true distance, and no point left out is closer than one returned (up to float rounding). This holds for k = 0, k at and above the number of points, duplicated points, both metrics and sparse data.",
     ["inputs", "configurations"], "all finite clouds, queries, k, and tree parameters (scale base, cutoff, resolution, singletons, partition rule, seed)",
     "The tests compare k=5 on MNIST and a handful of points; pruning errors need particular geometry (ties, singletons, nested children, deep or flat trees).",
     [T + "tree.rs", T + "query_tools/knn_query_heap.rs", T + "query_tools/query_items.rs", T + "node.rs"],
     [("knn / greedy_knn_nodes", T + "tree.rs"), ("min distance pruning and the two heaps", T + "query_tools/knn_query_heap.rs"), ("singleton and child distances", T + "node.rs")],
     ["CoverTreeReader::knn"])
prop("P02", "Routing nearest neighbours are exact over node centers",
     "For every cloud, tree, query and k, the routing query returns min(k, number of distinct node centers) distinct node centers in order of distance with true distances, and no center left out is closer than one returned (up to float rounding).",
     ["inputs", "configurations"], "all finite clouds, queries, k and tree parameters",
     "No test checks routing queries against a reference; the answer depends on the shape of the whole tree.",
     [T + "tree.rs", T + "query_tools/knn_query_heap.rs", T + "node.rs"],
     [("routing_knn", T + "tree.rs"), ("push_nodes", T + "query_tools/knn_query_heap.rs")], ["CoverTreeReader::routing_knn"])
prop("P03", "The tree is well formed and holds every point exactly once",
     "In every built tree each point of the cloud is held exactly once, as a leaf's center or as a singleton, every node is reachable from the root exactly once through mutually consistent parent and child links, and every node's reported coverage count equals the number of points below it and includes its own center. The recorded final location of each point is the node that holds it.",
     ["inputs", "configurations", "schedules"], "all clouds and parameters, and every interleaving of the parallel build",
     "Tests look at one small and one MNIST tree; losing or duplicating a point needs particular splits, duplicates or cutoffs.",
     [T + "builders.rs", T + "data_caches.rs", T + "node.rs", T + "layer.rs"],
     [("split loop and node messages", T + "builders.rs"), ("UncoveredData / CoveredData splitting", T + "data_caches.rs"), ("insert_raw / refresh", T + "layer.rs")],
     ["node accessors", "known_path", "node_count"])
prop("P04", "Covering, separation and assignment geometry of the tree",
     "In every tree each point under a node lies within the node's scale of its center, the reported radius is the distance of the furthest such point, and the centers and singletons of one node are pairwise separated by at least the scale of its children. A point is always under the nearest (or, with the other setting, the first created) child whose ball it falls in.",
     ["inputs", "configurations"], "all clouds, metrics and parameters",
     "The tests check some invariants on one data set; violating geometry needs ties, outliers or boundary distances.",
     [T + "builders.rs", T + "data_caches.rs", T + "tree.rs"],
     [("split, thin and pick centers", T + "data_caches.rs"), ("child scale selection", T + "builders.rs")], ["node accessors", "scale"])
prop("P05", "Tree parameters are honoured",
     "Every tree reports and obeys the parameters it was built with: nodes at or below the leaf cutoff are leaves, nothing is split below the minimum resolution, routing nodes have no singletons when they are switched off, no leaf stops early, and the root's scale is the smallest that reaches all points. Layers are listed from the top down, cover the whole range of scales and contain exactly the nodes of their scale.",
     ["inputs", "configurations"], "all clouds and parameter combinations, including extreme cutoffs and resolutions",
     "The tests build with one or two parameter sets.",
     [T + "builders.rs", T + "tree.rs", T + "layer.rs"],
     [("build / split_node", T + "builders.rs"), ("internal_index / layers / scale_range", T + "tree.rs")], ["parameters", "layers", "layer", "scale_range", "get_node_and"])
prop("P06", "Paths follow the insertion rule",
     "For every query the path starts at the root, each step goes to a child that covers the query and is the nearest (or first) one by the tree's rule, it stops only where no child covers the query, and each entry carries the true distance. For every point of the cloud the path of its coordinates is exactly its recorded path and ends in the node that holds it; unknown indexes are errors.",
     ["inputs", "configurations"], "all clouds, queries and parameters",
     "Tests walk the points of one tree; disagreements come from ties, boundaries and unusual parameters.",
     [T + "tree.rs", T + "node.rs"],
     [("path / known_path", T + "tree.rs"), ("nearest_covering_child / first_covering_child", T + "node.rs")], ["path", "known_path"])
prop("P07", "Seeded builds and queries are deterministic under parallelism",
     "Building with the same cloud, parameters and seed gives the identical tree for every number of threads and every schedule, and whether the same points come plain, labelled, named or from a mapped file; queries answered at the same time from many threads equal those answered alone.",
     ["schedules", "inputs", "configurations"], "all clouds and parameters, thread counts 2 to 8, OS schedules",
     "No test builds twice with different thread counts; a race shows only under some schedules.",
     [T + "builders.rs", T + "data_caches.rs"],
     [("per-node rng from seed and center", T + "builders.rs"), ("parallel split and message passing", T + "builders.rs")], ["whole tree dump", "knn", "path"])
prop("P08", "Every finite cloud can be built and queried",
     "Building terminates without error or panic for every non-empty finite cloud and every parameter choice (single points, duplicates, all points identical, extreme magnitudes, scale bases near 1 or large), all points are in the tree, and every point finds itself at distance zero as its nearest neighbour.",
     ["inputs", "configurations"], "non-empty finite clouds with magnitudes 1e-21 to 1e15, all parameter combinations",
     "The tests build well behaved data only.",
     [T + "builders.rs", T + "data_caches.rs", T + "tree.rs"],
     [("root scale and split termination", T + "builders.rs"), ("max distance and thinning", T + "data_caches.rs")], ["build", "knn", "path"])
prop("P09", "Saved trees load as the same tree",
     "Saving a tree (in memory or to a file, also over an older file) and loading it with its cloud gives a tree with the same parameters, nodes, paths and query answers, on which node statistics compute to the same values; saving a loaded tree again changes nothing. The saved message names every point of the cloud with its index.",
     ["inputs", "configurations", "histories"], "all clouds, names, parameters, and save / load / save sequences",
     "The tests save one MNIST tree and compare some of it.",
     [T + "tree.rs", T + "node.rs", T + "layer.rs", "goko/src/utils.rs"],
     [("save / load / refresh_final_indexes", T + "tree.rs"), ("node and layer encoding", T + "node.rs"), ("save_tree / load_tree", "goko/src/utils.rs")], ["save_tree", "load_tree", "CoverTreeWriter::save", "CoverTreeWriter::load"])
prop("P10", "Node label and metadata summaries equal the counts below the node",
     "After summaries are generated, the label summary and the metadata summary of every node equal the summary of exactly the points under the node: per label counts, unlabelled points and failed lookups for categories, count and moments for vectors.",
     ["inputs", "configurations"], "all clouds, label assignments with missing and failing labels, and trees",
     "Tests look at the root of a small tree with complete labels.",
     ["goko/src/plugins/labels.rs", T + "tree.rs", "pointcloud/src/summaries/mod.rs", "pointcloud/src/label_sources/mod.rs"],
     [("LabelSummaryPlugin / MetaSummaryPlugin", "goko/src/plugins/labels.rs"), ("add_plugin bottom up", T + "tree.rs"), ("combine", "pointcloud/src/summaries/mod.rs")], ["get_node_label_summary", "get_node_metasummary"])
prop("P11", "Plugins see a finished tree and compute exact node statistics",
     "Adding a plugin calls it for every node after all its children, makes each component visible on its node, and leaves the tree and the other plugins as they were. The built-in plugins give, per node, the distribution over children and singletons by covered points, the count, mean and variance of the covered (or own) points, and the complete list of covered points up to the limit.",
     ["inputs", "configurations", "histories"], "all trees and sequences of plugins",
     "Tests check a few nodes of a fixed tree.",
     [T + "tree.rs", T + "node.rs", "goko/src/plugins/mod.rs", "goko/src/plugins/utils.rs", "goko/src/plugins/gaussians/diag_gaussian.rs", "goko/src/plugins/discrete/dirichlet.rs", "goko/src/plugins/discrete/categorical.rs"],
     [("add_plugin", T + "tree.rs"), ("node_component of each plugin", "goko/src/plugins")], ["get_node_plugin_and", "get_plugin_and"])
prop("P12", "Trackers count exactly the paths of their window",
     "After any history of added paths the evidence of a tracker on every node is exactly the counts of the last window-size paths (all paths for an unlimited tracker), nodes outside the window carry no evidence, and the sequence length is right. Appending two trackers gives the tracker that saw both sequences one after the other.",
     ["histories", "inputs"], "all sequences of paths, window sizes, and appends",
     "Tests add a handful of paths to a fixed tree.",
     ["goko/src/plugins/discrete/tracker.rs", "goko/src/plugins/discrete/categorical.rs"],
     [("add_path / add_trace_to_pdfs / remove_trace_from_pdfs / append", "goko/src/plugins/discrete/tracker.rs")], ["running_evidence", "evidence_prob_vector", "prob_vector", "sequence_len"])
prop("P13", "Tracker divergence statistics equal their definition",
     "For every history the per-node divergences are those between the node's prior and its posterior under the window's evidence, they are finite and not negative, and the reported maximum, minimum, count, moments, overall divergence and fractal-dimension statistics are the aggregates of the current window.",
     ["histories", "inputs"], "all trees, path histories and windows",
     "Tests check that some number comes out; a wrong term or a stale node goes unseen.",
     ["goko/src/plugins/discrete/tracker.rs", "goko/src/plugins/discrete/dirichlet.rs"],
     [("kl_div_stats / kl_div / all_node_kl / fractal_dim_stats", "goko/src/plugins/discrete/tracker.rs"), ("posterior_kl_divergence", "goko/src/plugins/discrete/dirichlet.rs")], ["kl_div_stats", "kl_div", "all_node_kl", "fractal_dim_stats"])
prop("P14", "Categorical and Dirichlet laws",
     "For all counts and histories of adding and removing observations, probabilities are the counts over their total, divergences equal their closed forms, are zero between equal distributions and undefined outside the support, marginal likelihoods match the closed form, and samples occur with the stated probabilities.",
     ["inputs", "histories"], "all count vectors, weights, and histories of pops and merges",
     "Tests use two or three hand-picked vectors.",
     ["goko/src/plugins/discrete/categorical.rs", "goko/src/plugins/discrete/dirichlet.rs"],
     [("Categorical", "goko/src/plugins/discrete/categorical.rs"), ("Dirichlet / DirichletLike", "goko/src/plugins/discrete/dirichlet.rs")], ["prob_vector", "kl_divergence", "ln_pdf", "ln_prob", "sample"])
prop("P15", "Diagonal Gaussian laws",
     "After any history of adding and removing points and merging, the diagonal Gaussian has the mean and variance of the points that remain, its log density and divergence equal their closed forms, and samples follow it.",
     ["inputs", "histories"], "all histories of points with exactly representable moments",
     "Tests use one or two fixed distributions.",
     ["goko/src/plugins/gaussians/diag_gaussian.rs"],
     [("DiagGaussian", "goko/src/plugins/gaussians/diag_gaussian.rs")], ["mean", "var", "ln_pdf", "kl_divergence", "sample"])
prop("P16", "The concurrent map publishes whole generations to readers",
     "Readers of the tree's concurrent map never see a write before it is published, then see all writes up to the publication in order and nothing else, never go back, and may keep reading a consistent snapshot while the writer publishes, also when they read again inside a read. Every value is dropped exactly once and never while a reader can reach it, also when the writer goes away.",
     ["schedules", "histories"], "all histories of inserts, updates, removals, clears and publications with several readers, under perturbed OS schedules",
     "The crate's tests use the map from one thread; double buffering errors need histories over several publications or a reader inside a swap.",
     ["goko/src/monomap/write.rs", "goko/src/monomap/read.rs", "goko/src/monomap/inner.rs", "goko/src/monomap/mod.rs"],
     [("oplog, swap and epochs", "goko/src/monomap/write.rs"), ("epoch enter / exit", "goko/src/monomap/read.rs")], ["read and write handles"],
     "the map is private to the crate: a re-export under cfg(goko_verif)")
prop("P17", "Readers see whole trees while plugins are added",
     "Readers used at the same time as the writer adds plugins always see the same nodes, neighbours and paths as before, and a plugin's component on a node is either absent or complete and correct; once adding has returned, new looks see it everywhere.",
     ["schedules", "histories"], "all trees, plugin sequences and reader schedules",
     "No test reads and writes a tree at the same time.",
     [T + "tree.rs", T + "layer.rs", "goko/src/monomap/write.rs", "goko/src/monomap/read.rs"],
     [("add_plugin and refresh", T + "tree.rs"), ("layer readers", T + "layer.rs")], ["CoverTreeReader"])
prop("P18", "Dense metrics are metrics and lists of distances are single distances",
     "The Euclidean and Manhattan distances of dense vectors of every numeric type and length equal the mathematical value up to rounding, are symmetric, zero on equal vectors and satisfy the triangle inequality. A list of distances, however long, equals the distances one by one in order, an unknown index anywhere is an error, and moments and dense copies are those of the rows.",
     ["inputs"], "all vector lengths (around the vector-unit widths), types, list lengths and thread splits",
     "Tests compare a few fixed lengths.",
     ["pointcloud/src/metrics/l1_f32.rs", "pointcloud/src/metrics/l2_f32.rs", "pointcloud/src/metrics/l1_misc.rs", "pointcloud/src/metrics/l2_misc.rs", "pointcloud/src/base_traits.rs", "pointcloud/src/data_sources/memmap_ram.rs"],
     [("vectorised kernels", "pointcloud/src/metrics"), ("distances_to_point and its parallel chunks", "pointcloud/src/base_traits.rs")], ["Metric::dist", "distances_to_point", "distances_to_point_index", "moment_1", "moment_2"])
prop("P19", "Sparse points behave as their dense form",
     "For every sparse vector (with or without explicit zeros, empty, or full) and every index and value type, distances equal those of the dense vectors, the dense form is exact, and a sparse cloud gives the same points, distances and moments as the dense one.",
     ["inputs"], "all sparsity patterns, types and pairs",
     "Tests use a few fixed patterns.",
     ["pointcloud/src/points/mod.rs", "pointcloud/src/metrics/l1_misc.rs", "pointcloud/src/metrics/l2_misc.rs", "pointcloud/src/metrics/l2_f32.rs", "pointcloud/src/data_sources/sparse_ram.rs"],
     [("merge walks over sorted indexes", "pointcloud/src/metrics"), ("SparseRef", "pointcloud/src/points/mod.rs"), ("SparseDataRam", "pointcloud/src/data_sources/sparse_ram.rs")], ["Metric::dist", "dense", "dense_iter", "PointCloud on sparse data"],
     "the sparse cloud is private to the crate: a re-export under cfg(goko_verif)")
prop("P20", "Glued, labelled and named clouds are the concatenation of their sources",
     "A glued cloud of any sources and reindexing gives, for every index, the point, label, metadata, name and distances of exactly the source row it stands for, lookup by name finds that index, unknown names and indexes are errors (a reindexing that uses one is refused and changes nothing), and lengths and emptiness are right. Wrapping a cloud with labels or names changes nothing else.",
     ["inputs", "histories"], "all lists of sources (also empty ones), reindexings and queries",
     "Tests glue equal-sized sources without reindexing.",
     ["pointcloud/src/glued_data_cloud.rs", "pointcloud/src/base_traits.rs", "pointcloud/src/label_sources/mod.rs"],
     [("HashGluedCloud address map", "pointcloud/src/glued_data_cloud.rs"), ("SimpleLabeledCloud / SimpleNamedCloud", "pointcloud/src/label_sources/mod.rs")], ["PointCloud on glued clouds"])
prop("P21", "Files load as what was written",
     "Data files read through memory maps, label files in CSV (plain or gzipped) or binary form, and clouds described by configuration files come back bit for bit and in order, over any cut into files and relative or absolute patterns; unlabelled rows stay unlabelled, and unreadable labels are errors. The files are not changed.",
     ["inputs", "configurations"], "all contents, cuts over files, column positions and encodings",
     "Tests load two files of fixed shape.",
     ["pointcloud/src/loaders/mod.rs", "pointcloud/src/loaders/yaml_loaders.rs", "pointcloud/src/loaders/csv_loaders.rs", "pointcloud/src/data_sources/memmap_ram.rs", "pointcloud/src/data_sources/memmapf32/unix.rs"],
     [("open_memmaps / convert_glued_memmap_to_ram", "pointcloud/src/loaders/mod.rs"), ("open_int_csv", "pointcloud/src/loaders/csv_loaders.rs"), ("labels_from_yaml / ram_from_yaml", "pointcloud/src/loaders/yaml_loaders.rs")], ["loaders"])
prop("P22", "Label sets and summaries form a consistent algebra",
     "Label sets built, masked and merged in any order give exactly the labels that were put in, and summaries of any lists of labels, missing and failed entries have the exact counts and moments; combining the summaries of parts in any grouping gives the summary of the whole.",
     ["inputs", "histories"], "all label lists, masks, merge histories and groupings",
     "Tests summarise complete label lists once.",
     ["pointcloud/src/label_sources/mod.rs", "pointcloud/src/summaries/mod.rs"],
     [("SmallIntLabels / VecLabels merge and masks", "pointcloud/src/label_sources/mod.rs"), ("Summary::add / combine", "pointcloud/src/summaries/mod.rs")], ["label", "label_summary", "Summary"])
prop("P23", "Bulk queries equal single queries",
     "Bulk known paths, paths, nearest and routing neighbours and mapped functions give, for any number of queries, one answer per query in order, equal to the single query, with errors only for unknown indexes. Arrays in any memory layout are read as their rows.",
     ["inputs", "schedules"], "all list lengths around the parallel chunk size, array layouts, and thread schedules",
     "Tests use up to 100 queries of one layout.",
     ["goko/src/query_interface/mod.rs"],
     [("chunked parallel map", "goko/src/query_interface/mod.rs")], ["BulkInterface"])
prop("P24", "Configuration files are honoured",
     "A tree built from a configuration file has exactly the configured parameters, with the documented defaults for missing keys, over exactly the configured data and labels, and equals the tree built directly with the same parameters and seed; a configured count that differs from the data is refused, and settings made directly start from the same defaults and override only their own key.",
     ["configurations", "inputs"], "all combinations and orders of keys, integer and float forms, file patterns",
     "Tests read one configuration.",
     [T + "builders.rs", "goko/src/utils.rs", "pointcloud/src/loaders/yaml_loaders.rs"],
     [("from_yaml and setters", T + "builders.rs"), ("cover_tree_from_yaml / cover_tree_from_labeled_yaml", "goko/src/utils.rs")], ["CoverTreeBuilder::from_yaml", "cover_tree_from_yaml", "cover_tree_from_labeled_yaml", "parameters"])
prop("P25", "HTTP answers equal the library's answers",
     "For every request the server answers with exactly what the library gives on the same tree: parameters, neighbours and routing neighbours by name and distance with the requested (default 10) count, and paths with layers and label summaries, for every supported body encoding and however the body arrives. Requests that queue or run together each get their own answer; unknown routes and unusable counts are not found, and unreadable bodies are errors that leave the service working.",
     ["inputs", "histories", "schedules"], "all request sequences over one or more connections, encodings and body chunkings",
     "The repository has no test of the server.",
     ["serve_goko/src/http/service.rs", "serve_goko/src/http/message.rs", "serve_goko/src/parsers/mod.rs", "serve_goko/src/parsers/msgpack_dense.rs", "serve_goko/src/api/knn.rs", "serve_goko/src/api/path.rs", "serve_goko/src/api/parameters.rs"],
     [("parse_http / into_http", "serve_goko/src/http/service.rs"), ("PointBuffer::poll_point", "serve_goko/src/parsers/mod.rs"), ("request processing", "serve_goko/src/api")], ["tower service", "TCP socket"])
prop("P26", "Server trackers are isolated, shared by name, and load is exact",
     "Points sent to a named (or the default) tracker are counted in all of its windows and in no other tracker, whichever client sends them and however requests interleave, and its statistics equal those of the library's tracker over the same points; adding an existing window or asking an unknown one is reported and changes nothing. The reported load is always the number of requests that are not answered, given up or failed, and bad requests change no tracker and end no service.",
     ["histories", "schedules", "inputs", "fault_sequences"], "all sequences of add, point and stats requests by several clients, concurrent clients, aborted and abandoned requests",
     "The repository has no test of the server.",
     ["serve_goko/src/api/tracker.rs", "serve_goko/src/api/mod.rs", "serve_goko/src/core/internal_service.rs", "serve_goko/src/core/mod.rs", "serve_goko/src/http/message.rs", "serve_goko/src/http/service.rs"],
     [("TrackerWorker::process", "serve_goko/src/api/tracker.rs"), ("named tracker map", "serve_goko/src/api/mod.rs"), ("in flight counter", "serve_goko/src/core/internal_service.rs")], ["tower service and its load"])
prop("P27", "Fractal dimensions equal their definition",
     "For every tree the fractal dimension and weighted fractal dimension of every node and every layer equal their definition from the numbers of children and singletons and the points they cover.",
     ["inputs", "configurations"], "all trees",
     "Tests check that a number comes out on one tree.",
     [T + "tree.rs"], [("node_fractal_dim, node_weighted_fractal_dim, layer_fractal_dim, layer_weighted_fractal_dim", T + "tree.rs")], ["the four functions"])
prop("P28", "Divergence baselines interpolate what was trained",
     "A trained baseline reports for every sequence length the mean and variance over its runs, interpolated linearly between the neighbouring trained lengths, continued along the last two lengths above the range and zero below it. Training gives rows of exactly the configured lengths, and each run is the statistics of a growing selection of different points of the cloud.",
     ["inputs", "configurations"], "all sets of trained lengths, requested lengths, run counts and trees",
     "Tests train once on MNIST.",
     ["goko/src/plugins/discrete/baseline.rs"],
     [("stats interpolation", "goko/src/plugins/discrete/baseline.rs"), ("train", "goko/src/plugins/discrete/baseline.rs")], ["KLDivergenceBaseline"])
prop("P29", "Search building blocks are exact: query heap and node searches",
     "The k-nearest query heap, fed with nodes and points in any order, holds exactly the k smallest of the distances given for distinct indexes (unpacked in order of distance), reports the kth of them (or the largest float while fewer are held) as its maximum distance, and offers every node that could still hold something closer once for its children and once for its singletons, with the distance it was given, nearest lower bound first as long as no estimate was raised. A node's singleton, child and combined searches push exactly its singletons, its children (nested child included) and, for a leaf, its center, each with its true distance; its nearest/first covering child is the nearest/first child that covers the query; and a search driven from any node with these pieces is exact on the points under that node.",
     ["inputs", "histories", "configurations"], "all sequences of heap operations, k and scale bases; all trees, nodes and query points",
     "The unit tests push a few fixed entries; leaving out or repeating a node depends on the history of pushes and the current kth distance.",
     [T + "query_tools/knn_query_heap.rs", T + "query_tools/query_items.rs", T + "node.rs"],
     [("push_nodes, push_outliers, closest_unvisited_*", T + "query_tools/knn_query_heap.rs"), ("ordering of the entries", T + "query_tools/query_items.rs"), ("knn, child_knn, singleton_knn, nearest_covering_child, first_covering_child", T + "node.rs")],
     ["KnnQueryHeap", "CoverNode searches"])

TECH = {
 "P01": "property-based testing against brute-force search", "P02": "property-based testing against brute-force search over centers",
 "P03": "property-based testing of structural invariants", "P04": "property-based testing of geometric invariants",
 "P05": "property-based testing of invariants per configuration", "P06": "property-based testing against the step rule and known paths (differential)",
 "P07": "property-based testing, differential over thread counts and schedules", "P08": "property-based fuzzing with extreme inputs",
 "P09": "property-based round trip", "P10": "property-based testing against recounting", "P11": "property-based testing against recomputation, plugin histories",
 "P12": "stateful model-based testing", "P13": "stateful model-based testing against closed forms", "P14": "property-based testing against closed forms, stateful histories",
 "P15": "property-based testing against closed forms, stateful histories", "P16": "stateful model-based testing, randomised concurrent histories, and generated schedules with store buffers (deterministic scheduler)",
 "P17": "randomised concurrent histories against a fixed expectation", "P18": "property-based testing against f64 reference and metric axioms",
 "P19": "property-based differential testing sparse against dense", "P20": "property-based testing against a reference list", "P21": "property-based round trip through files",
 "P22": "stateful model-based testing, algebraic laws", "P23": "property-based differential testing bulk against single", "P24": "property-based differential testing file against direct settings",
 "P25": "stateful property-based differential testing HTTP against library", "P26": "stateful model-based testing with concurrent clients and injected faults",
 "P27": "property-based testing against the definition", "P28": "property-based testing against reference interpolation",
 "P29": "stateful model-based testing of the heap, property-based testing against brute force",
}
NOTE = {
 "P16": "Generated histories against a map model; real threads under OS schedules perturbed by yields, spins and held reads; and the map's own source compiled on a deterministic scheduler with x86-TSO store buffers, driven by generated schedules. A search, not an enumeration of schedules.",
 "P17": "Real threads under OS schedules; not an enumeration of schedules.",
 "P07": "Thread counts 2-8 and OS schedules; not an enumeration of schedules.",
 "P26": "Generated request histories with faults against a model; concurrent clients run under OS schedules. Two known findings (points of the wrong dimension) are listed in known_findings.json.",
}
json.dump({
    "version": 1, "setup_cmd": "bash ./setup.sh",
    "hooks": {"guard": "cfg(goko_verif)", "enable": "RUSTFLAGS='--cfg goko_verif' when building the harness crates (env.sh)", "source_commits": ["82fc063"]},
    "checks": [{"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                "technique": TECH[p["id"]], "level": "exploration",
                "level_note": NOTE.get(p["id"], "Random generated inputs with shrinking against an explicit oracle; bounded sizes, see DESIGN.md and the evidence file for what was covered.")} for p in P],
    "not_applicable": []}, open("MANIFEST.json", "w"), indent=1)
with open("properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
