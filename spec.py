"""Which harness, build variant and mode decide each property."""
ALL = ("libkcommon", "libman", "libauto", "libdist")
W = ["-DWITH_OMP", "-DWITH_DIST"]
BASE = ["the sources of /repo are compiled unmodified apart from KNOR_VERIF_MIN_TASK_ROWS=2 (smaller work units, same code)",
        "pthread, OpenMP, libnuma and MPI calls are answered by /verif/rt, not by the system libraries; sequentially consistent memory"]
CHECKS = {}
def unit(name, harness, mode="", variant="fast", groups=ALL, extra=W, **kw):
    return dict(name=name, harness=harness, mode=mode, variant=variant, groups=groups, extra=list(extra), **kw)
def check(pid, units, rule, assumptions=(), **kw):
    CHECKS[pid] = dict(units=units, rule=rule, assumptions=BASE + list(assumptions), **kw)

def wide(*engs): return [unit("wide-" + e, "wide", e) for e in engs]
WIDE = " Units named wide: data of more than 2^32 values, nearly all of them zero, the rows that differ lie beyond 2^32 of one thread and of the last of 40 threads."
LL = "every dataset of the listed small shapes over a small integer grid x every start from the grid x metric x thread configuration; after every iteration limit 1,2,.. the reported state is compared with the reference step from the previous state. Non-trivial: a later iteration reassigns a row."
check("K01", [unit("km", "lloyd", "km")] + wide("km"), LL + WIDE)
check("K02", [unit("kmp", "lloyd", "kmp")] + wide("kmp"), LL + WIDE)
check("K03", [unit("omp", "lloyd", "omp"), unit("ompp", "lloyd", "ompp")] + wide("omp", "ompp"), LL + WIDE)
check("K04", [unit("dist", "lloyd", "dist"), unit("distp", "lloyd", "distp")], LL)

EQ = "every dataset of the listed small shapes x initialisation x iteration limit; every configuration of threads, NUMA nodes, data source (memory, file, redistributed) and processes must give the same clustering. Non-trivial: the rows end in more than one cluster."
check("K05", [unit(e, "equiv", e) for e in "km kmp mb fcm sk med hc xm gm omp ompp dist distp".split()], EQ)

SC = "every schedule of small runs with at most the stated number of deviations (preemptions, other wake-up orders, waits that end without a signal) from the default schedule; data races by happens-before on every memory access. Non-trivial: schedules other than the default one."
def sched_units(engs): return [unit(e, "sched", e, variant="sched") for e in engs]
check("K06", sched_units("km kmp mb fcm sk med hc xm gm omp ompp".split()), SC)
check("K07", sched_units(["dist", "distp"]), SC)
HI = "every dataset of the listed small shapes x limit x iteration limit x minimum size x outcome of the draws. Non-trivial: more than one cluster."
check("K14", [unit(e, "hier", e) for e in ("hc", "xm", "gm")] + wide("hc", "xm", "gm"), HI + WIDE)
check("K23", [unit(e, "hier", e + "+") for e in ("xm", "gm")], "every dataset of the listed small shapes x outcome of the draws or given starts x iteration limit x minimum size x tolerance x strictness x cluster limit, and families of larger data; the whole hierarchy is compared with the one a reference divides. Cases in which a row is equally near to both parts, a part loses all rows, or the two sides of a decision agree to 1e-7 are not judged. Non-trivial: a division kept.")

DV = "queue: every sequence of takes and resets up to a depth and full drains for every row count; division: every row count x threads x nodes or processes x data source, the rows of every thread compared with the data and the sums of a round over data in which every row is identifiable; shipped: the same around multiples of the shipped unit size; wide: queues of up to 4e9 rows and 2^43 values; sched: every schedule with bounded deviations. Non-trivial: several threads or units."
check("K08", [unit("queue", "division", "queue"), unit("shipped", "division", "shipped", variant="fastbig"), unit("wide-queue", "wide", "queue", variant="fastbig")]
      + [unit(e, "division", e) for e in "km kmp mb fcm omp ompp dist distp".split()] + [unit("sched", "division", "sched", variant="sched")], DV,
      ["the units named shipped use the unmodified task size"], technique="ops")
IN = "every dataset of the listed small shapes x initialisation x every outcome of the draws (real-valued draws over an evenly spaced grid); states before and after the first iteration; frequencies over all outcomes against the distribution required. Non-trivial: several initial states are possible."
check("K09", [unit(e, "init", e) for e in "km kmp sk omp ompp dist distp reinit best".split()], IN, ["std::default_random_engine and the uniform distributions are replaced by choices of the checker"], technique="rng")

RN = ["std::default_random_engine and the uniform distributions are replaced by choices of the checker"]
check("K10", [unit("none", "minibatch", "none"), unit("init", "minibatch", "init")] + wide("mb"), WIDE[1:] + " Others: every dataset of the listed small shapes x start x metric x threads x every outcome of the sampling draws (real-valued draws over a grid that separates sampled from unsampled); each iteration must be the model's step for some set of sampled rows, each row is sampled with the right frequency. Cases in which a sampled row is equally near to two centroids are counted as ties and not judged. Non-trivial: a later iteration samples a row.", RN, technique="rng")
check("K11", [unit("none", "fcm", "none"), unit("forgy", "fcm", "forgy")] + wide("fcm"), WIDE[1:] + " Others: every dataset of the listed small shapes x start x metric x fuzziness x threads; each iteration is compared with the textbook update from the previous centres. Cases with two different centres closer than 1e-6 to one row are not judged from there on. Non-trivial: a later iteration moves a centre.", RN)
check("K12", [unit("sk", "lloyd", "sk")], "every dataset of the listed small shapes (negative, zero and constant features) x every start on a grid x metric x threads and data source; as K01 on the normalised data. Non-trivial: a later iteration reassigns a row.")
check("K13", [unit("full", "medoid", "full"), unit("part", "medoid", "part")] + wide("med"), WIDE[1:] + " Others: every dataset of the listed small shapes x metric x threads x every outcome of the draws of the starting medoids and of the sampling; full: every row is sampled and each medoid must be the best member. Non-trivial: a medoid moves.", RN, technique="rng")
check("K15", [unit(m, "accum", m) for m in ("plain", "prune", "hier", "sparse", "merge")], "every sequence of operations up to a depth on every kind of cluster accumulator, all accessors compared with a model that keeps the exact sums after every operation; every split of every small assignment over local accumulators, merged in every order. Operations are only applied where the callers may (members change while the cluster is not finalised; finalising with no negative count). Non-trivial: every sequence of more than one operation.", technique="ops")
check("K16", [unit(m, "containers", m) for m in ("flags", "vmap", "ids", "table", "remap", "large")] + [unit("flagsched", "containers", "flagsched", variant="sched")], "every sequence of operations up to a depth on every container, all accessors compared with the abstract type; every distance table of small sets of centres; every renumbering of small count vectors; families of long operation sequences (indices and ids beyond 8 and 16 bits); every schedule (bounded deviations) of threads writing distinct flags, with data races by happens-before. Non-trivial: several operations, centres or threads.", technique="ops")

check("K17", [unit(m, "files", m) for m in ("text", "bin", "io", "result", "torn", "load")] + [unit("wide-file", "wide", "file")] + [unit("nd-" + m, "files", m, variant="nd") for m in ("bin", "io", "result", "torn", "load")], "every small matrix shape x values (signs, zero, extremes, all mantissa bits) x text format x reading mode (rows, block, rows then block) x truncation at every byte, with and without assertions; every portioning of writes; every small clustering x output directory state; a result written to a medium that is full after every (larger results: around every buffer's) number of bytes; every engine on a data file cut at every (quick: around every value's) byte; wide: sparse files of up to 4e9 rows and 8e9 values, rows around 2^31, 2^32 and the ends read after a seek and by a thread. A text file cut inside its last value is not judged: what is left is a number. Non-trivial: more than one row or operation.", ["the units named nd are built with assertions compiled out"], technique="ops")
PROGS = "knori knord mb_knori medoids skmeans fcm hmeans xmeans gmeans kmeanspp".split()
check("K18", [unit(p, "cli", p, groups=ALL + ("exec",)) for p in PROGS] + [unit("nd-" + p, "cli", p, variant="nd", groups=ALL + ("exec",)) for p in PROGS], "every program, with and without assertions: every combination of option values (absent or each of one or two values) x spelling and order x small data x k, the result file, the files written and the threads and node bindings of the program compared with the library called with the same data and options; every single wrong argument (data file, sizes, option values, missing and unknown options) x spelling must end in an error and leave no result. Non-trivial: an option is given or an argument is wrong.",
      ["each program's main() is called in the process of the checker, its process ends at exit()", "the result file is written by the library's own cluster_t::write, decided by K17"], technique="configs")

check("K19", [unit(m, "algebra", m) for m in ("dist", "matrix", "det", "helper")], "every pair of small vectors over a grid (negative, zero, fractional values) x distance; every small matrix and pair of matrices of every listed shape x every operation; every small square matrix against the Leibniz formula; every small vector x helper. Non-trivial: more than one element.")
check("K20", [unit("life-" + e, "memory", e) for e in "km kmp mb fcm sk med hc xm gm omp ompp dist distp".split()] + [unit("asan-" + e, "memory", e, variant="asan") for e in "km kmp mb fcm sk med hc xm gm omp ompp dist distp".split()]
      + [unit("odd-" + e, "memory", e + "!", variant="ndasan") for e in "km kmp mb fcm sk med hc xm gm omp ompp dist distp".split()]
      + [unit(f"asan-{a}-{m}", a, m, variant="asan", memory_only=True) for a, ms in (("accum", "plain prune hier sparse"), ("containers", "flags vmap ids table remap"), ("files", "text bin io result load"), ("algebra", "matrix det helper"), ("division", "queue")) for m in ms.split()],
      "every small shape x data x k x iteration limit x threads x nodes x data source x processes x initialisation (every outcome of the draws) x life: run, destroyed without a run, data distributed but not run, missing file, refused initialisation, two coordinators at a time, re-initialised. Units named life: every case runs with four fill patterns of fresh heap and stack memory, the results must agree, and heap blocks, threads, files and NUMA blocks are counted. Units named asan: every access checked by AddressSanitizer and UBSan. Units named odd: the same with assertions compiled out, over every small data with values no distance can be computed with (infinite, not a number, too large to square) x starts and initialisations: refused, or a well-formed clustering. Non-trivial: more than one row.",
      ["memory-error detection by AddressSanitizer and UBSan in the units named asan", "a leak is a block of operator new left after the last of four identical lives"], limit=dict(quick=400, thorough=820))

ENGS = "km kmp mb fcm sk med hc xm gm omp ompp dist distp".split()
check("K21", [unit(e, "params", e) for e in ENGS] + [unit("nd-" + e, "params", e, variant="nd") for e in ENGS], "every engine, with and without assertions x small data x threads: every initialisation and distance name and near misses of them, with and without centroids; every start x zero and too large values of every numeric parameter; every small data x start on which the distances disagree x distance. Non-trivial: a name, or data on which the distances disagree.", ["the units named nd are built with assertions compiled out"])

check("K24", [unit(e, "fault", e, variant="ndasan") for e in ENGS] + [unit(p, "faultcli", p, variant="ndasan", groups=ALL + ("exec",)) for p in PROGS],
      "every small configuration of every engine (threads x nodes x data source x initialisation x limit x processes) and of every program (each option), once per call to the operating system or MPI with that call failing and once per point from which on all calls of that kind fail; for the smaller configurations also under every schedule with few deviations; assertions compiled out, every access checked by AddressSanitizer and UBSan. Judged against the run without a failure. Non-trivial: a call other than the first of its kind fails.",
      ["memory-error detection by AddressSanitizer and UBSan", "files opened through the C++ standard library are not made to fail (K17 and K18 cover missing, short and full ones)", "when one process of a distributed run ends in an error the launcher ends the others"], technique="faults")

check("K26", [unit(m, "stats", m) for m in ("prune", "activation", "rows")],
      "every sequence of up to 5 (thorough: 7) operations on two collectors of pruning statistics merged into each other; every sequence of up to 6 (7) events of up to 3 threads for the activation counter; every activity table of up to 3 rows and 4 iterations (9, thorough 12 cells), rows reported in three orders, both files written for every number of rows; families of long histories (hundreds of rows, threads and iterations, counts beyond 32 bits). Non-trivial: every case.", technique="ops")

check("K25", [unit(e, "pair", e, variant="sched") for e in ENGS if e[0] != "d"] + [unit("after-" + e, "pair", ">" + e) for e in ENGS],
      "every pair of engines x small configurations (threads, data source, start): two runs in two threads of the caller under every schedule with at most one deviation, some with two, both must end as alone and without a data race; units named after: histories of three runs (two where the third is not of the engines before) of every engine given a start, drawing it in each way, with several threads and nodes, refused or with a cut data file, each outcome compared with that of the run in a process of its own; and each of these runs made while the coordinator of another exists, before or after it runs. Non-trivial: the runs are not cut short.", technique="sched")
