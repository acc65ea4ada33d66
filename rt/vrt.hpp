// vrt: a controlled scheduler for knor's threads, OpenMP teams and MPI ranks.
//
// Every "thread" of the code under test is a coroutine in one OS thread; the runtime decides who runs at
// every synchronisation operation.  The sources of /repo are compiled unmodified; pthread_*, GOMP_*, omp_*,
// numa_* and MPI_* calls are resolved to this runtime at link time (--wrap / own definitions), and, in the
// "sched" build, every atomic operation and memory access arrives through the -fsanitize=thread callbacks,
// which this runtime implements itself (scheduling points + a vector-clock race detector).
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>
#include <map>

namespace vrt {

enum class End { OK, DEADLOCK, ASSERTION, EXCEPTION, EXITED, HORIZON, MISUSE, RACE, DIVERGED, CRASH };
const char* end_name(End e);

struct Options {
    int budget = 0;          // deviations allowed
    int np_cost = 1;         // cost of a non-default choice at a blocking point (preemptions always cost 1)
    bool spurious = false;   // spurious wake-ups are alternatives (cost 1)
    bool races = false;      // run the happens-before detector
    bool races_fail = true;  // a race ends the execution as a violation
    uint64_t horizon = 20000000; // visible operations per execution
    uint64_t max_execs = 0;  // 0 = no cap
    double max_seconds = 0;  // 0 = no cap
    int shard = 0, nshards = 1;
};

struct RaceInfo { uintptr_t pc1, pc2; bool w1, w2; uintptr_t addr; };

struct Result {
    End end = End::OK;
    std::string detail;
    std::vector<int> choices;    // the schedule: one entry per point with >1 alternative
    uint64_t points = 0;         // visible operations executed
    uint64_t switches = 0;
    std::vector<RaceInfo> races;
    std::vector<std::string> log; // human readable trace of a replay
};

struct Stats {
    uint64_t executions = 0, points = 0, switches = 0, choice_points = 0;
    uint64_t max_choice_points = 0;
    std::vector<uint64_t> per_budget;   // executions that used exactly i deviations
    bool capped = false;
    std::map<std::string, uint64_t> outcomes;
};

// Runs body once under the default schedule with `prefix` forced. record: keep alternatives for exploration.
Result run(const std::function<void()>& body, const std::vector<int>& prefix, const Options& o, bool log = false);

// Exhaustive exploration up to o.budget deviations. visit is called after every execution and returns a
// canonical outcome string; stop exploring when it sets stop.
struct Exec { const Result* r; std::string outcome; bool stop = false; };
Stats explore(const std::function<void()>& body, const Options& o, const std::function<void(Exec&)>& visit);

// configuration of the environment
void set_numa_nodes(int n);
void set_omp_max_threads(int n);
void set_mpi(int nprocs);         // nprocs ranks: body runs once per rank when started through mpi_run
void mpi_run(int nprocs, const std::function<void(int)>& rank_body); // inside body: run ranks to completion
int  mpi_rank();
void expect_exit(bool);           // exit() ends only the calling rank/thread instead of being a violation

// inspection
bool active();
int cur();
unsigned live_threads();          // threads other than the driver that have not finished
void fail(End e, const std::string& detail);   // ends the execution
extern bool quiet;
extern bool (*fault)(const char* call); // asked at every call to the system: does it fail?
extern int stack_fill;            // byte that new stacks are filled with, -1: left as they are
std::vector<std::string>& system_calls(); // commands given to system(), which is never run
struct Counters { uint64_t numa_alloc, numa_free, threads_created, omp_regions, mpi_calls, node_binds, omp_team; };
Counters& counters();
}
