#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=False):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=("KNOR_VERIF_MIN_TASK_ROWS: task_queue hands out units of this many rows, so that small inputs have several" if hook else None))
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

p("K01", "Every iteration of threaded k-means is an exact Lloyd step",
  "For any data and starting centroids, each iteration assigns every row to a centroid nearest under the chosen distance and then makes every non-empty cluster's centroid the mean of exactly the rows assigned to it; reported sizes count the reported assignments. The run stops after the first iteration in which at most the tolerated fraction of rows changed cluster, never performs or reports more iterations than the limit, and leaves the caller's data alone.",
  ["inputs", "configurations"], "all datasets, starts, distances, iteration limits, tolerances and thread counts",
  "a test compares a handful of datasets with stored output; wrong tie handling, empty clusters, remainders of rows per thread or an off-by-one in the stop rule need particular data",
  ["libman/kmeans_coordinator.cpp", "libman/kmeans_thread.cpp", "libkcommon/clusters.cpp", "libman/coordinator.cpp"],
  [("assignment step", "kmeans_thread::EM_step"), ("centroid update", "kmeans_coordinator::update_clusters"), ("stop rule", "kmeans_coordinator::run"), ("row partition", "coordinator::get_rid_len_tup")],
  ["the clustering returned by a run"])
p("K02", "Pruning distance computations never changes what k-means computes",
  "The pruned threaded k-means engine obeys the same law as the exact one: after every iteration each row is assigned to a centroid nearest among the centroids the iteration started from, and centroids and sizes match the assignments. Skipped distance computations never leave a row with a farther centroid, for any data, start, distance and number of iterations.",
  ["inputs", "histories"], "all datasets, starts, distances and iteration counts, so all histories of distance bounds",
  "a wrong bound only matters for data in which a row's nearest centroid changes in just the skipped iterations; a fixed dataset with stored results rarely has one",
  ["libman/kmeans_task_thread.cpp", "libman/kmeans_task_coordinator.cpp", "libkcommon/dist_matrix.cpp", "libkcommon/clusters.cpp"],
  [("bounds and skips", "kmeans_task_thread::EM_step"), ("centre movement", "kmeans_task_coordinator::update_clusters"), ("centre distances", "dist_matrix::compute_dist")],
  ["the clustering returned by a run"], [("upper bound", "distance from a row to its centroid, plus how far the centroid moved", "dist_v")])
p("K03", "The OpenMP k-means engines compute exact Lloyd iterations",
  "Both OpenMP entry points, with and without pruning, assign every row to a nearest centroid of the previous iteration and report means and sizes of exactly those rows, in the returned value and in the caller's buffers alike. They perform at most the requested number of iterations and stop by the same tolerance rule, whatever the team size.",
  ["inputs", "configurations"], "all datasets, starts, distances, iteration limits and team sizes",
  "needs agreement for all data and team sizes; the tests run a few fixed configurations",
  ["libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp"],
  [("exact engine", "omp::compute_kmeans"), ("pruned engine", "omp::compute_min_kmeans")], ["returned clustering and the caller's assignment and size buffers"])
p("K04", "Distributed k-means clusters the whole dataset for any process count",
  "For every number of processes and threads per process, each iteration of the distributed engines, pruned or not, is an exact Lloyd step over all rows of the file, and the result collected at the root lists every row of the file in order with the global sizes and centroids. Rows that do not divide evenly among processes are neither lost nor counted twice.",
  ["inputs", "configurations"], "all datasets, starts, process counts and thread counts",
  "the tests run two processes on one file whose rows divide evenly",
  ["libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp", "libdist/mpi.hpp"],
  [("exact engine", "dist_coordinator::run"), ("pruned engine", "dist_task_coordinator::run"), ("global reduction", "mpi::reduce_double"), ("row partition", "dist_coordinator constructor")],
  ["the clustering collected at the root rank"])
p("K05", "Results do not depend on threads, NUMA nodes, data source or processes",
  "For the same data, start and parameters, an algorithm returns the same assignments, sizes, centroids and iteration count for every number of threads, every number of NUMA nodes, and whether the data is given in memory, read from a file or redistributed over NUMA nodes; distributed runs agree for every number of processes. More threads or nodes than rows is no exception.",
  ["inputs", "configurations"], "all small datasets x all configurations of threads, nodes, data source and processes",
  "the space is a product of data and configuration; tests fix both",
  ["libman/coordinator.cpp", "libman/thread.cpp", "binding/numa_reorg.hpp", "libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libman/skmeans_coordinator.cpp", "libman/fcm_coordinator.cpp", "libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp"],
  [("row partition", "coordinator::get_rid_len_tup"), ("row lookup", "coordinator::get_thd_data"), ("file loading", "thread::numa_alloc_mem"), ("NUMA redistribution", "memory_distributor::numa_reorg")],
  ["the clusterings returned by runs that differ only in configuration"])
p("K06", "Threaded runs terminate and give one result under every schedule",
  "Under every interleaving of the coordinator and its worker threads a run of any threaded algorithm terminates, accesses shared data without data races, and returns the same result. No wake-up is lost and no worker computes on a stale task or after teardown.",
  ["schedules"], "all interleavings of coordinator and workers (bounded deviations) for every threaded engine",
  "tests see the one schedule the machine happens to choose",
  ["libman/coordinator.cpp", "libman/thread.cpp", "libman/task_thread.cpp", "libman/kmeans_task_thread.cpp", "libman/kmeans_thread.cpp", "libman/skmeans.cpp", "libman/fcm.cpp", "libman/medoid.cpp", "libman/hclust.cpp", "libman/xmeans.cpp", "libman/gmeans.cpp"],
  [("hand-off", "coordinator::wake4run / wait4complete"), ("completion", "thread::sleep"), ("worker loop", "callback<T>"), ("teardown", "coordinator::~coordinator")],
  ["end of the run and returned clustering"], [("pending count", "workers that have not finished the round", "coordinator::pending_threads")], True)
p("K07", "Distributed runs complete and agree under every schedule",
  "Under every interleaving of ranks and their threads, all ranks make matching collective calls in the same order, no rank waits for ever, and the root obtains the same result. Every rank takes the same convergence decision.",
  ["schedules", "configurations"], "all interleavings of ranks and worker threads (bounded deviations), all small process counts",
  "a mismatch or deadlock depends on timing and on the number of processes; tests run two processes once",
  ["libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp", "libdist/mpi.hpp"],
  [("collectives", "mpi.hpp"), ("rank loop", "dist_coordinator::run, dist_task_coordinator::run")], ["end of every rank and the root's clustering"], None, True)
p("K08", "Work division gives every row to exactly one worker per round",
  "However many rows, threads and NUMA nodes there are, and whatever the granularity of work units, each round processes every row exactly once: the units handed out by a thread's queue cover its rows in order without gap or overlap, refer to the right data, and become available again only when a new round starts.",
  ["inputs", "schedules", "configurations"], "all row counts, thread counts, unit sizes and request orders up to the bound",
  "loss of the last partial unit or of the remainder rows needs particular row counts; the unit test uses one",
  ["libman/task_queue.hpp", "libman/task_thread.cpp", "libman/coordinator.cpp", "libman/kmeans_task_thread.cpp"],
  [("unit hand-out", "task_queue::get_task"), ("partition", "coordinator::get_rid_len_tup"), ("next unit", "task_thread::request_task")],
  ["units returned by the queue, per-cluster sums of a round"], None, True)
p("K09", "Initialisation yields legal starting centroids for every random choice",
  "For every outcome of the random draws, forgy starts from k rows of the data, random partitioning starts from the means of a partition of all rows, and k-means++ starts from data rows each of which lies away from all earlier centres whenever such a row exists and is drawn with probability proportional to its distance to them. User-supplied centroids are used unchanged, and a re-initialised coordinator behaves as a fresh one, except that successive k-means++ starts make new, independent draws.",
  ["inputs", "histories"], "all sequences of random draws (exhaustive over their outcomes) for all small datasets",
  "tests run with one fixed seed",
  ["libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp", "libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp"],
  [("forgy", "forgy_init"), ("random partition", "random_partition_init"), ("k-means++", "kmeanspp_init"), ("restart", "kmeans_task_coordinator::reinit")],
  ["centroids and assignments after initialisation and after the first iteration"])
p("K10", "Mini-batch k-means updates centroids from exactly the sampled rows",
  "For every choice of sampled rows, a mini-batch iteration assigns each sampled row to a nearest centroid and then moves centroids towards their sampled rows, one row after another in row order, each time by one over the number of rows assigned to the centroid; other rows keep their assignment and move nothing. Each row is sampled with probability batch size over rows. After the last iteration all rows are assigned to a nearest centroid and the reported sizes match the assignments.",
  ["inputs", "histories"], "all subsets of sampled rows in every iteration for all small datasets",
  "tests run one seed and look only at completion",
  ["libman/kmeans_task_coordinator.cpp", "libman/kmeans_task_thread.cpp", "libman/task_thread.cpp", "libkcommon/clusters.cpp"],
  [("sampling", "kmeans_task_thread::mb_EM_step"), ("update", "kmeans_task_thread::mb_finalize_centroids"), ("driver", "kmeans_task_coordinator::mb_run")],
  ["the clustering returned by a mini-batch run"])
p("K11", "Fuzzy c-means alternates exact membership and centroid updates",
  "For any data, fuzziness and start, memberships of a row are non-negative, sum to one and are proportional to its distances to the centroids raised to -1/(m-1) for fuzziness m; each centroid is the membership-weighted mean of all rows; each row is reported in a cluster of highest membership. The result does not depend on the number of threads.",
  ["inputs", "configurations"], "all small datasets, starts, fuzziness values, iteration limits and thread counts",
  "the only test checks that the program runs",
  ["libman/fcm_coordinator.cpp", "libman/fcm.cpp", "libkcommon/dense_matrix.hpp"],
  [("membership", "fcm::Estep"), ("centroids", "fcm::Mstep"), ("reduction", "fcm_coordinator::update_contribution_matrix / update_centers")], ["centroids, memberships and assignments returned"])
p("K12", "Spherical k-means normalises the data and clusters exactly",
  "Spherical k-means first scales every feature to the unit interval by its minimum and maximum over all rows, whatever the signs of the values and however the rows are spread over threads. Each iteration then assigns rows to the nearest centroid by cosine distance, and reported sizes and centroids match the assignments. It stops after the first iteration whose reassignments are within the tolerance (a fraction of the rows), or at the iteration limit.",
  ["inputs", "configurations"], "all small datasets including negative, constant and zero features, starts and thread counts",
  "the only test checks that the program runs on positive data",
  ["libman/skmeans_coordinator.cpp", "libman/skmeans.cpp", "libkcommon/util.hpp"],
  [("feature bounds", "skmeans::feature_bounds_reduction, skmeans_coordinator::bounds_reduction"), ("normalisation", "skmeans::feature_normalize"), ("assignment", "skmeans::EM_step")], ["the clustering returned"])
p("K13", "K-medoids returns data rows as medoids and nearest assignments",
  "Whatever the sampling choices, and from sampled as well as from given starting medoids that are rows of the data, every medoid reported by k-medoids is a row of the data, every row is assigned to a medoid nearest under the chosen distance, sizes match the assignments, and the total distance of rows to their medoids never increases from one iteration to the next. In each iteration every row is a candidate with the probability given as sample rate, and the best candidate of a cluster replaces a worse medoid. The run stops when an iteration changes nothing, and reports that as its number of iterations.",
  ["inputs", "histories"], "all small datasets and all outcomes of the random draws",
  "the only test checks that the program runs with one seed",
  ["libman/medoid_coordinator.cpp", "libman/medoid.cpp"],
  [("medoid step", "medoid::medoid_step, medoid_coordinator::choose_global_medoids"), ("assignment", "medoid::EM_step")], ["the clustering returned per iteration limit"])
p("K14", "Hierarchical clustering always yields a partition refined top-down",
  "For any data, every level of divisive clustering (plain, x-means or g-means) assigns each row to exactly one live cluster, the reported sizes count the rows of each cluster and sum to the number of rows, and a new cluster only takes rows of the one cluster it was split from. Cluster identifiers are never shared by two live clusters and the number of clusters never exceeds the limit (the largest power of two not above the number asked for), up to which plain division goes on as long as a cluster of the minimum size is left. The parts of a split are the outcome of a two-cluster k-means of the rows of that cluster: started from the first two rows of the cluster (the given or drawn starts for the first division); given enough iterations, each row is nearest to the mean of its own part.",
  ["inputs", "histories", "configurations"], "all small datasets, limits, thread counts and outcomes of the random draws",
  "tests check only that the programs run on one dataset",
  ["libman/hclust_coordinator.cpp", "libman/hclust.cpp", "libman/xmeans_coordinator.cpp", "libman/xmeans.cpp", "libman/gmeans_coordinator.cpp", "libman/gmeans.cpp", "libman/hclust_id_generator.hpp"],
  [("split", "hclust::H_split_step, spawn"), ("assignment", "hclust::H_EM_step"), ("ids", "hclust_id_generator"), ("split decision", "xmeans_coordinator::partition_decision, gmeans_coordinator::partition_decision")], ["assignments and sizes per level limit"])
p("K15", "Cluster accumulators equal the sums and means of their members",
  "After any sequence of adding, removing, moving, merging, finalising and unfinalising members, a set of clusters reports exactly the member counts and the sums (or means once finalised) of the rows it contains, and adding thread-local accumulators gives the same as accumulating in one. Previous means and movement distances reflect the last recorded state.",
  ["histories"], "all operation sequences up to a bounded depth",
  "unit tests execute one fixed sequence",
  ["libkcommon/clusters.cpp", "libkcommon/clusters.hpp"],
  [("member updates", "clusters::add_member, remove_member, swap_membership"), ("merge", "clusters::peq"), ("finalise", "clusters::finalize, unfinalize")], ["getters of the accumulator after every operation"])
p("K16", "Shared containers behave as their abstract types under any use",
  "The concurrent flag vector stores each flag independently of its neighbours under concurrent access; the keyed vector behaves as a map from small integers and iterates exactly its live entries; the id generator hands out ids not in use and reuses returned ones; the centre-distance table is symmetric and complete.",
  ["histories", "schedules"], "all operation sequences up to a bounded depth, and all interleavings of short concurrent programs",
  "unit tests run one sequence and one schedule",
  ["libkcommon/thd_safe_bool_vector.hpp", "libkcommon/thd_safe_bool_vector.cpp", "libkcommon/types.hpp", "libkcommon/dist_matrix.cpp", "libman/hclust_id_generator.hpp"],
  [("flags", "thd_safe_bool_vector"), ("map", "vmap"), ("ids", "hclust_id_generator"), ("distances", "dist_matrix")], ["every accessor after every operation"])
p("K17", "Data and result files round-trip exactly",
  "Reading a matrix file, text or binary, yields exactly the stored values in row order for any shape, read whole or row by row; a clustering written to disk and parsed back has the same assignments and sizes, and the centroids to the printed precision. A missing, short or malformed data file, or a result that cannot be written, is reported; such a file is never read as data.",
  ["inputs", "fault_sequences"], "all small matrices and shapes, truncation points and reading modes",
  "the unit test reads one small file",
  ["libkcommon/io.hpp", "libkcommon/io.cpp", "libkcommon/types.cpp", "libman/thread.cpp"],
  [("readers", "bin_rm_reader, text_reader"), ("writers", "store, cluster_t::write"), ("per-thread load", "thread::numa_alloc_mem")], ["values read back, files written"])
p("K18", "Command-line programs run what the options say and reject nonsense",
  "For knori, knord, mb_knori, kmeanspp, fcm, skmeans, medoids, hmeans, xmeans and gmeans: a valid command line, in any of the accepted spellings (positional or named arguments, short or long options, any order), makes the program compute the clustering the library returns for the same data with exactly the documented options given (threads, NUMA nodes, iterations, tolerance, distance, initialisation, centers file, pruning and OpenMP switches, mini-batch size, sample rate, fuzziness, minimum cluster size, strictness, number of starts); a centers file overrides the initialisation method wherever it stands, and options not given keep the program's defaults. The result is written to the output directory when -o names one, and no file is written otherwise. A missing argument, an unknown option, a number that is malformed or out of range, an unknown distance or initialisation, a missing or wrong-sized data or centers file, or an output directory that cannot be made ends the program abnormally or with a nonzero exit status and leaves no result.",
  ["configurations", "inputs"], "all small combinations of options of every program",
  "tests run one command line per program and mostly look at the exit status",
  ["exec/knori.cpp", "exec/knord.cpp", "exec/mb_knori.cpp", "exec/kmeanspp.cpp", "exec/fcm.cpp", "exec/skmeans.cpp", "exec/medoids.cpp", "exec/hmeans.cpp", "exec/xmeans.cpp", "exec/gmeans.cpp"],
  [("option parsing", "main of each program")], ["exit status and output files"])
p("K19", "Distances and matrix operations match their definitions",
  "For all vectors and shapes, the distance functions are symmetric, zero on identical vectors and equal to their definitions, and the matrix and linear-algebra helpers (products, sums, norms, scaling, transposes, determinants, inverses and arg-max) equal the textbook result, for negative values and single-row or single-column shapes too.",
  ["inputs"], "all small vectors and matrices over a grid that includes negative and zero values",
  "unit tests use one matrix of positive values",
  ["libkcommon/util.hpp", "libkcommon/linalg.hpp", "libkcommon/dense_matrix.hpp"],
  [("distances", "eucl_dist, cos_dist, taxi_dist, sqeucl_dist"), ("matrices", "dense_matrix"), ("linear algebra", "linalg")], ["returned values"])
p("K20", "No run touches memory it does not own or keeps what it should free",
  "For every algorithm, data shape, configuration and data source, construction, run and destruction access only live memory within bounds, use no uninitialised control data, and release every worker thread, file, NUMA block and heap block they acquired, also when a coordinator is destroyed without having run or is run from a prior result, and whatever values the data hold: data that cannot be clustered are refused or given some well-formed clustering.",
  ["inputs", "histories", "configurations"], "all small shapes and configurations of every engine, and all life-cycle sequences up to a bound",
  "an overrun or leak rarely changes the output a test looks at, and needs particular shapes",
  ["libman/coordinator.cpp", "libman/thread.cpp", "libman/task_thread.cpp", "libman/task_queue.hpp", "libkcommon/clusters.cpp", "libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp", "libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp", "binding/numa_reorg.hpp"],
  [("teardown", "coordinator::~coordinator, thread::~thread"), ("NUMA memory", "thread::destroy_numa_mem"), ("tasks", "task_thread::request_task")], ["memory checker, allocation and thread counters at the end of a run"])
p("K21", "Invalid parameters are rejected rather than silently accepted",
  "In every algorithm an unknown initialisation or distance name, zero clusters, initialisation \"none\" without centroids, a fuzziness index that is not above 1, or a strictness outside 0 to 4 ends in an error (an exception or, where assertions are compiled in, an abort) and never in a clustering; this also holds with assertions compiled out. Every accepted name is honoured: centroids supplied together with another initialisation do not change the result, and the distance named is the one rows are assigned by. Zero threads or NUMA nodes, zero iterations, more clusters than rows, and any batch size, sample rate or minimum cluster size end in an error or in a well-formed clustering, never in a crash or a hang.",
  ["configurations", "inputs"], "all parameter names and boundary values for every engine",
  "tests use valid parameters only",
  ["libman/kmeans_coordinator.hpp", "libman/kmeans_task_coordinator.hpp", "libman/coordinator.cpp", "libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp", "libman/medoid_coordinator.hpp", "libman/fcm_coordinator.hpp", "libman/skmeans_coordinator.hpp", "libman/hclust_coordinator.hpp"],
  [("factories", "create of each coordinator"), ("string decoding", "init and distance names")], ["exceptions thrown, clustering returned"])
p("K22", "Gaussian mixture fitting maximises the likelihood",
  "Each iteration of the Gaussian mixture algorithm computes responsibilities that sum to one per row and re-estimates means, covariances and weights from them so that the likelihood never decreases.",
  ["inputs"], "all small datasets and starts", "the algorithm is unfinished upstream",
  ["libman/gmm_coordinator.cpp", "libman/gmm.cpp"], [("driver", "gmm_coordinator::soft_run")], ["the clustering returned"])
p("K23", "X-means and g-means divide a cluster exactly when the data call for it",
  "X-means keeps the division of a cluster in two when the Bayesian information criterion (likelihood of spherical clusters whose variance is the mean distance of the rows to their centre, squared if Euclidean, less half the number of parameters times the logarithm of the number of rows) of the two parts together is at least that of the undivided cluster, and leaves clusters of two rows whole. G-means keeps it when the Anderson-Darling statistic of the rows of the cluster, projected on the line through the means of the two parts, exceeds the critical value for the strictness, corrected for the number of rows of the cluster; a cluster of fewer than four rows stays whole. A divided cluster starts from its first two rows, clusters below the minimum size are not divided further, and every other cluster is tried until the limit is reached.",
  ["inputs", "configurations"], "all small datasets, starts, strictness levels, tolerances, minimum sizes and limits",
  "tests run one dataset and look only at the exit status",
  ["libman/xmeans_coordinator.cpp", "libman/xmeans.cpp", "libman/gmeans_coordinator.cpp", "libman/gmeans.cpp", "libman/hclust_coordinator.cpp", "libkcommon/AndersonDarling.hpp"],
  [("criterion", "xmeans_coordinator::bic, partition_decision"), ("test", "gmeans_coordinator::partition_decision, compute_cluster_diffs, gmeans::H_split_step, AndersonDarling"), ("candidates", "hclust_coordinator::inner_init, spawn")], ["the clustering returned"])
p("K24", "A failed system call is reported or leaves the result as it is",
  "For every run of every algorithm and program and every call it makes that the operating system or MPI may refuse - creating a thread, allocating memory on a NUMA node or, in a run of one process, the heap, opening, positioning in, reading or closing a data or centroid file, a message or collective - if that call fails, or it and all later ones of its kind do, the run ends with an exception, a failed assertion or a non-zero exit status, or with the very result it has when nothing fails. It neither hangs nor touches memory it does not own nor joins or leaves behind threads when the error reaches the caller, and a program that ends in an error leaves no other result file.",
  ["fault points", "schedules", "configurations"], "every fault point of every small configuration: each call singly and each suffix of the calls of a kind",
  "tests never make a call fail, and a fault at one of hundreds of points matters at a few",
  ["libman/thread.cpp", "libman/thread.hpp", "libman/coordinator.cpp", "libman/kmeans_thread.cpp", "libman/kmeans_task_thread.cpp", "binding/numa_reorg.hpp", "libdist/mpi.hpp", "libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp", "libkcommon/io.hpp"],
  [("threads", "start() of every thread class, thread::join"), ("data", "thread::numa_alloc_mem, memory_distributor::numa_reorg, bin_io"), ("messages", "mpi::*, dist_coordinator::run")], ["how the run ends", "returned clustering", "result files"])
p("K25", "Runs in one process do not influence each other",
  "The outcome of a run - the clustering it returns, or the error it ends in - is the same whatever other runs of any engine the process has made before, finished, refused or ended by an error, and whatever coordinators exist beside its own; and two runs on different data in two threads of the caller (of the engines that are not distributed) end as each does alone and have no data race, in every schedule.",
  ["schedules", "histories", "configurations"], "every pair of engines under every schedule with few deviations; every short history of small runs",
  "tests make one run per process",
  ["libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp", "libman/coordinator.cpp", "libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libman/fcm_coordinator.cpp", "libman/skmeans_coordinator.cpp", "libman/medoid_coordinator.cpp", "libman/hclust_coordinator.cpp", "libdist/dist_coordinator.cpp", "libkcommon/types.cpp"],
  [("run", "compute_kmeans, compute_min_kmeans, *_coordinator::run"), ("draws", "kmeanspp_init, forgy_init, random_partition_init")], ["returned clustering", "data races"])
p("K26", "Statistics collectors report exactly the events they were told of",
  "The pruning statistics count each kind of skipped computation per iteration, add the counts of merged (thread-local) collectors, start every iteration at zero when finalised, and report each kind and all together as the percentage of all row-cluster pairs of all finalised iterations. The activation counter reports for each completed iteration the number of activations by all threads. The activity record marks a row in an iteration exactly when it was active in that iteration and the one before, and writes, for the first rows asked for (at most all), each row's marks in row order, or each different history of marks once with the number of rows that have it.",
  ["histories", "inputs"], "all histories of events up to a length, on any number of rows, clusters and threads",
  "no test uses the collectors; a count that is not reset, merged twice or attributed to a neighbouring kind or iteration needs a particular history to show",
  ["libkcommon/prune_stats.hpp", "libkcommon/prune_stats.cpp"],
  [("pruning statistics", "prune_stats::finalize, operator+=, get_stats"), ("activations", "activation_counter::complete"), ("activity", "active_counter::is_active, write_raw, write_consolidated")], ["counts and percentages after every history", "files written"])
for x in P:
    assert len(x["title"]) <= 80, x["id"]
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
