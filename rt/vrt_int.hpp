#pragma once
#include "vrt.hpp"
namespace vrt {
enum class St { RUN, MUTEX, COND, PRED, DONE };
struct VC { uint32_t c[40] = {0}; };   // indexed by thread slot (id modulo 40; runs create fewer)
struct Th {
    int id = 0; void* sp = nullptr; char* stack = nullptr; void* fake = nullptr; bool started = false;
    std::function<void*()> fn; St st = St::RUN; void* obj = nullptr; void* obj2 = nullptr; bool signaled = false, spurious = false;
    uint64_t seq = 0; std::function<bool()> pred; const char* why = ""; void* ret = nullptr; bool joined = false; bool omp_worker = false;
    int rank = 0; struct Team* team = nullptr; int omp_tid = 0; uint64_t ws_seq = 0, single_seq = 0; uint64_t ws_cur = 0;
    int omp_next_threads = 0;
    VC vc, end_vc;
};
struct Mtx { int owner = -1; unsigned count = 0; int type = 0; bool destroyed = false; VC vc; };
struct Point { int n; unsigned char cost[64]; };
Th* curth();
void point(const char*);
int choose(int n, const char*);
void block_until(const std::function<bool()>& p, const char* why);
int spawn(std::function<void*()> fn, bool omp);
void race_acquire(Th*, VC*); void race_release(Th*, VC*); void race_spawn(Th* parent, Th* child); void race_reset(bool on);
void shadow_clear(const void*, size_t);
void omp_reset(); void mpi_reset();
std::vector<RaceInfo>& race_list();
const Options& options();
void logmsg(const std::string&);
Th* th_by_id(int);
}
