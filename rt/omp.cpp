// OpenMP (libgomp ABI), libnuma and MPI on top of the controlled scheduler.
#include "vrt_int.hpp"
#include <mpi.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unordered_map>
#include <map>
#include <deque>
#include <memory>
#include <algorithm>
using namespace vrt;

namespace vrt {
struct Loop { long long next, end, incr, chunk; bool up; unsigned done; };
struct Team { int n = 1; unsigned bar_cnt = 0; uint64_t bar_gen = 0; std::map<uint64_t, Loop> loops; uint64_t singles = 0; VC bar; };
static int g_omp_max = 2, g_numa_nodes = 1;
static std::map<int, int> g_omp_set;        // omp_set_num_threads, per calling thread
static Mtx g_crit; static std::map<void*, Mtx*> g_named;
struct Coll { std::string kind; unsigned arrived = 0, left = 0; std::vector<const void*> in; std::vector<void*> out; std::vector<long> a; };
struct Msg { int src, tag; std::string data; bool taken = false; MPI_Datatype dt; };
static int g_np = 1;
static std::vector<uint64_t> g_collseq; static std::map<uint64_t, Coll> g_coll;
static std::vector<std::deque<std::shared_ptr<Msg>>> g_box;
static std::vector<int> g_init; // 0 none 1 inited 2 finalized
void set_numa_nodes(int n) { g_numa_nodes = n; }
void set_omp_max_threads(int n) { g_omp_max = n; }
void set_mpi(int n) { g_np = n; }
void omp_reset() { g_omp_set.clear(); g_crit = Mtx(); for (auto& p : g_named) *p.second = Mtx(); }
void mpi_reset() { g_collseq.assign(64, 0); g_coll.clear(); g_box.assign(64, {}); g_init.assign(64, 0); }
int mpi_rank() { return active() ? curth()->rank : 0; }

static void lock_rt(Mtx& m, const char* w) {
    point(w);
    Th* t = curth(); int id = t->id;
    block_until([&m]() { return m.owner < 0; }, w);
    m.owner = id; race_acquire(t, &m.vc);
}
static void unlock_rt(Mtx& m) { m.owner = -1; race_release(curth(), &m.vc); }

static void team_barrier(Team* t) {
    if (!t || t->n == 1) return;
    point("omp barrier");
    race_release(curth(), &t->bar);
    uint64_t gen = t->bar_gen;
    if (++t->bar_cnt == (unsigned)t->n) { t->bar_cnt = 0; t->bar_gen++; }
    else block_until([t, gen]() { return t->bar_gen != gen; }, "omp barrier");
    race_acquire(curth(), &t->bar);
}
static int team_size(unsigned want) {
    Th* me = curth();
    if (me->team && me->team->n > 1) return 1;
    int n = want ? (int)want : (g_omp_set.count(me->id) ? g_omp_set[me->id] : g_omp_max);
    if (n > 16) n = 16;
    return n < 1 ? 1 : n;
}
static void parallel(void (*fn)(void*), void* data, unsigned want, const std::function<void(Team&)>& prep) {
    if (!active()) { // outside a run: one thread
        fn(data); return;
    }
    Th* me = curth();
    counters().omp_regions++;
    auto team = std::make_shared<Team>();
    team->n = team_size(want); counters().omp_team += team->n;
    Team* old = me->team; int oldtid = me->omp_tid; uint64_t ows = me->ws_seq, osg = me->single_seq, owc = me->ws_cur;
    if (prep) prep(*team);
    std::vector<int> ids;
    point("omp parallel");
    for (int i = 1; i < team->n; i++) {
        int id = spawn([fn, data]() -> void* { fn(data); return nullptr; }, true);
        Th* w = th_by_id(id); w->team = team.get(); w->omp_tid = i; w->ws_cur = prep ? 1 : 0; w->ws_seq = prep ? 1 : 0;
        ids.push_back(id);
    }
    me->team = team.get(); me->omp_tid = 0; me->ws_seq = prep ? 1 : 0; me->ws_cur = prep ? 1 : 0; me->single_seq = 0;
    fn(data);
    for (int id : ids) {
        Th* w = th_by_id(id);
        block_until([w]() { return w->st == St::DONE; }, "end of omp parallel");
        race_acquire(me, &w->end_vc);
    }
    me->team = old; me->omp_tid = oldtid; me->ws_seq = ows; me->single_seq = osg; me->ws_cur = owc;
}
static bool loop_next(long long* s, long long* e) {
    Th* t = curth(); Team* tm = t->team;
    point("omp chunk");
    auto it = tm->loops.find(t->ws_cur);
    if (it == tm->loops.end()) return false;
    Loop& l = it->second;
    if (l.up ? l.next >= l.end : l.next <= l.end) return false;
    *s = l.next; long long c = l.next + l.chunk * l.incr;
    if (l.up ? c > l.end : c < l.end) c = l.end;
    *e = c; l.next = c;
    return true;
}
static Team g_solo;
static bool loop_start(long long s, long long e, long long incr, long long chunk, bool up, long long* is, long long* ie) {
    Th* t = curth();
    if (!t->team) { g_solo.loops.clear(); t->team = &g_solo; t->ws_seq = 0; }
    t->ws_cur = ++t->ws_seq;
    if (!t->team->loops.count(t->ws_cur)) t->team->loops[t->ws_cur] = Loop{s, e, incr, chunk < 1 ? 1 : chunk, up, 0};
    return loop_next(is, ie);
}
} // namespace vrt

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { vrt::parallel(fn, data, n, nullptr); }
#define PLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long s, long e, long incr, long chunk, unsigned) { \
    vrt::parallel(fn, data, n, [=](Team& t) { t.loops[1] = Loop{s, e, incr, chunk < 1 ? 1 : chunk, incr > 0, 0}; }); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* data, unsigned n, long s, long e, long incr, unsigned) {
    vrt::parallel(fn, data, n, [=](Team& t) { t.loops[1] = Loop{s, e, incr, 1, incr > 0, 0}; }); }
#define LOOP(name) bool GOMP_loop_##name##_start(long s, long e, long incr, long chunk, long* is, long* ie) { long long a, b; \
    bool r = vrt::loop_start(s, e, incr, chunk, incr > 0, &a, &b); if (r) { *is = a; *ie = b; } return r; } \
  bool GOMP_loop_##name##_next(long* is, long* ie) { long long a, b; bool r = vrt::loop_next(&a, &b); if (r) { *is = a; *ie = b; } return r; } \
  bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long incr, unsigned long long chunk, unsigned long long* is, unsigned long long* ie) { long long a, b; \
    bool r = vrt::loop_start((long long)s, (long long)e, (long long)incr, (long long)chunk, up, &a, &b); if (r) { *is = a; *ie = b; } return r; } \
  bool GOMP_loop_ull_##name##_next(unsigned long long* is, unsigned long long* ie) { long long a, b; bool r = vrt::loop_next(&a, &b); if (r) { *is = a; *ie = b; } return r; }
LOOP(dynamic) LOOP(guided) LOOP(static) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
void GOMP_loop_end() { vrt::team_barrier(curth()->team); }
void GOMP_loop_end_nowait() {}
void GOMP_barrier() { vrt::team_barrier(curth()->team); }
void GOMP_critical_start() { if (active()) vrt::lock_rt(vrt::g_crit, "omp critical"); }
void GOMP_critical_end() { if (active()) vrt::unlock_rt(vrt::g_crit); }
static Mtx& named(void** p) { Mtx*& m = vrt::g_named[(void*)p]; if (!m) m = new Mtx(); return *m; }
void GOMP_critical_name_start(void** p) { if (active()) vrt::lock_rt(named(p), "omp critical"); }
void GOMP_critical_name_end(void** p) { if (active()) vrt::unlock_rt(named(p)); }
void GOMP_atomic_start() { if (active()) vrt::lock_rt(vrt::g_crit, "omp atomic"); }
void GOMP_atomic_end() { if (active()) vrt::unlock_rt(vrt::g_crit); }
bool GOMP_single_start() { Th* t = curth(); if (!t->team) return true; point("omp single"); uint64_t s = ++t->single_seq; if (t->team->singles < s) { t->team->singles = s; return true; } return false; }
int omp_get_num_threads() { return active() && curth()->team ? curth()->team->n : 1; }
int omp_get_thread_num() { return active() ? curth()->omp_tid : 0; }
int omp_get_max_threads() { return active() ? vrt::team_size(0) : vrt::g_omp_max; }
int omp_get_num_procs() { return vrt::g_omp_max; }
int omp_in_parallel() { return active() && curth()->team && curth()->team->n > 1; }
void omp_set_num_threads(int n) { if (active()) vrt::g_omp_set[curth()->id] = n; }
void omp_set_dynamic(int) {} void omp_set_nested(int) {}
double omp_get_wtime() { return 0; }
typedef struct { void* p; } vlock;
void omp_init_lock(void* l) { *(void**)l = nullptr; } void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { if (active()) vrt::lock_rt(named((void**)l), "omp lock"); }
void omp_unset_lock(void* l) { if (active()) vrt::unlock_rt(named((void**)l)); }

// ---------------------------------------------------------------- libnuma
struct bitmask;
bitmask* numa_allocate_nodemask() { return (bitmask*)calloc(1, 64); }
bitmask* numa_bitmask_setbit(bitmask* b, unsigned n) { if ((int)n >= vrt::g_numa_nodes && active()) vrt::fail(End::MISUSE, "binding to NUMA node " + std::to_string(n) + " of " + std::to_string(vrt::g_numa_nodes)); counters().node_binds += (n + 1) * 1000 + 1; return b; }
void numa_bitmask_free(bitmask* b) { free(b); }
void numa_bind(bitmask*) {}
int numa_run_on_node(int) { return 0; }
static std::unordered_map<void*, size_t>& nm() { static std::unordered_map<void*, size_t> m; return m; }
void* numa_alloc_onnode(size_t n, int) {
    if (vrt::fault && vrt::fault("numa_alloc")) return nullptr;
    void* p = malloc(n ? n : 1); vrt::shadow_clear(p, n); counters().numa_alloc++; nm()[p] = n; return p; }
void* numa_alloc_local(size_t n) { return numa_alloc_onnode(n, 0); }
void numa_free(void* p, size_t n) {
    if (!p) return;
    auto it = nm().find(p);
    if (it == nm().end()) { if (active()) vrt::fail(End::MISUSE, "numa_free of memory not allocated (or already freed)"); return; }
    if (it->second != n && active()) vrt::fail(End::MISUSE, "numa_free with a size different from the allocation");
    nm().erase(it); counters().numa_free++; free(p);
}
int numa_num_task_nodes() { return vrt::g_numa_nodes; }
int numa_num_configured_nodes() { return vrt::g_numa_nodes; }
int numa_available() { return 0; }
int numa_max_node() { return vrt::g_numa_nodes - 1; }

// ---------------------------------------------------------------- MPI
static int dtsize(MPI_Datatype d) {
    switch (d) { case MPI_DOUBLE: return 8; case MPI_UNSIGNED_LONG_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG: return 8;
        case MPI_UNSIGNED: case MPI_INT: case MPI_FLOAT: return 4; case MPI_CHAR: case MPI_BYTE: case MPI_C_BOOL: return 1; case MPI_SHORT: return 2; }
    vrt::fail(End::MISUSE, "unknown MPI datatype"); return 0;
}
static void need_init(const char* f) {
    counters().mpi_calls++;
    int r = curth()->rank;
    if (vrt::g_init[r] != 1) vrt::fail(End::MISUSE, std::string(f) + (vrt::g_init[r] ? " after MPI_Finalize" : " before MPI_Init"));
}
int MPI_Init(int*, char***) { int r = curth()->rank; if (vrt::g_init[r]) vrt::fail(End::MISUSE, "MPI_Init twice"); if (vrt::fault && vrt::fault("mpi")) return 1; vrt::g_init[r] = 1; return 0; }
int MPI_Init_thread(int* a, char*** b, int req, int* prov) { *prov = req; return MPI_Init(a, b); }
int MPI_Initialized(int* f) { *f = vrt::g_init[curth()->rank] != 0; return 0; }
int MPI_Finalized(int* f) { *f = vrt::g_init[curth()->rank] == 2; return 0; }
int MPI_Comm_rank(MPI_Comm, int* r) { need_init("MPI_Comm_rank"); *r = curth()->rank; return 0; }
int MPI_Comm_size(MPI_Comm, int* n) { need_init("MPI_Comm_size"); *n = vrt::g_np; return 0; }
double MPI_Wtime() { return 0; }
int MPI_Abort(MPI_Comm, int c) { vrt::fail(End::EXITED, "MPI_Abort(" + std::to_string(c) + ")"); return 0; }

// rendezvous: every rank calls; the last one in computes; all leave
static int coll(const std::string& kind, const void* in, void* out, long a, const std::function<void(Coll&)>& work) {
    point("mpi collective");
    if (kind != "finalize" && vrt::fault && vrt::fault("mpi")) return 1;
    Th* t = curth(); uint64_t s = vrt::g_collseq[t->rank]++;
    Coll& c = vrt::g_coll[s];
    if (c.arrived == 0) { c.kind = kind; c.in.assign(vrt::g_np, nullptr); c.out.assign(vrt::g_np, nullptr); c.a.assign(vrt::g_np, 0); }
    if (c.kind != kind) vrt::fail(End::MISUSE, "ranks disagree on collective number " + std::to_string(s) + ": " + c.kind + " vs " + kind);
    c.in[t->rank] = in; c.out[t->rank] = out; c.a[t->rank] = a;
    if (++c.arrived == (unsigned)vrt::g_np) { if (work) work(c); }
    else block_until([s]() { auto it = vrt::g_coll.find(s); return it == vrt::g_coll.end() || it->second.arrived == (unsigned)vrt::g_np; }, "mpi collective");
    if (++c.left == (unsigned)vrt::g_np) vrt::g_coll.erase(s);
    return 0;
}
int MPI_Barrier(MPI_Comm) { need_init("MPI_Barrier"); return coll("barrier", 0, 0, 0, nullptr); }
}
template <class T> static void red(std::vector<T>& acc, const T* v, int n, MPI_Op op) {
    for (int i = 0; i < n; i++) switch (op) {
        case MPI_SUM: acc[i] += v[i]; break; case MPI_MAX: acc[i] = std::max(acc[i], v[i]); break; case MPI_MIN: acc[i] = std::min(acc[i], v[i]); break;
        case MPI_LAND: acc[i] = acc[i] && v[i]; break; case MPI_LOR: acc[i] = acc[i] || v[i]; break; case MPI_PROD: acc[i] *= v[i]; break;
        default: vrt::fail(End::MISUSE, "unknown MPI op"); }
}
template <class T> static void allred(Coll& c, int n, MPI_Op op, int root) {
    std::vector<T> acc((const T*)c.in[0], (const T*)c.in[0] + n);
    for (int r = 1; r < vrt::g_np; r++) red(acc, (const T*)c.in[r], n, op);
    for (int r = 0; r < vrt::g_np; r++) if (root < 0 || r == root) memcpy(c.out[r], acc.data(), n * sizeof(T));
}
extern "C" {
static int reduce(const char* nm, const void* s, void* r, int n, MPI_Datatype d, MPI_Op op, int root) {
    if (s == MPI_IN_PLACE) s = r;
    return coll(std::string(nm) + "/" + std::to_string(n) + "/" + std::to_string(d) + "/" + std::to_string(op) + "/" + std::to_string(root), s, r, 0, [=](Coll& c) {
        switch (d) { case MPI_DOUBLE: allred<double>(c, n, op, root); break; case MPI_FLOAT: allred<float>(c, n, op, root); break;
            case MPI_UNSIGNED_LONG_LONG: case MPI_UNSIGNED_LONG: allred<unsigned long long>(c, n, op, root); break;
            case MPI_LONG_LONG: case MPI_LONG: allred<long long>(c, n, op, root); break;
            case MPI_UNSIGNED: allred<unsigned>(c, n, op, root); break; case MPI_INT: allred<int>(c, n, op, root); break;
            case MPI_C_BOOL: case MPI_CHAR: case MPI_BYTE: allred<unsigned char>(c, n, op, root); break;
            default: vrt::fail(End::MISUSE, "unknown MPI datatype"); } });
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm) {
    need_init("MPI_Allreduce");
    if (s == r && n) vrt::fail(End::MISUSE, "MPI_Allreduce with aliased buffers");
    return reduce("allreduce", s, r, n, d, op, -1);
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm) { need_init("MPI_Reduce"); return reduce("reduce", s, r, n, d, op, root); }
int MPI_Bcast(void* b, int n, MPI_Datatype d, int root, MPI_Comm) {
    need_init("MPI_Bcast");
    size_t len = (size_t)n * dtsize(d);
    return coll("bcast/" + std::to_string(n) + "/" + std::to_string(d) + "/" + std::to_string(root), b, b, 0, [=](Coll& c) {
        for (int r = 0; r < vrt::g_np; r++) if (r != root) memcpy(c.out[r], c.in[root], len); });
}
static int gather(const char* nm, const void* s, int n, MPI_Datatype d, void* rb, int rn, int root) {
    size_t len = (size_t)n * dtsize(d);
    return coll(std::string(nm) + "/" + std::to_string(n) + "/" + std::to_string(d) + "/" + std::to_string(root), s, rb, rn, [=](Coll& c) {
        for (int o = 0; o < vrt::g_np; o++) if (root < 0 || o == root) for (int r = 0; r < vrt::g_np; r++)
            if (c.in[r] != MPI_IN_PLACE) memcpy((char*)c.out[o] + r * len, c.in[r], len); });
}
int MPI_Allgather(const void* s, int n, MPI_Datatype d, void* rb, int rn, MPI_Datatype, MPI_Comm) { need_init("MPI_Allgather"); return gather("allgather", s, n, d, rb, rn, -1); }
int MPI_Gather(const void* s, int n, MPI_Datatype d, void* rb, int rn, MPI_Datatype, int root, MPI_Comm) { need_init("MPI_Gather"); return gather("gather", s, n, d, rb, rn, root); }
static int gatherv(const char* nm, const void* s, int n, MPI_Datatype d, void* rb, const int* cnt, const int* dis, int root) {
    size_t sz = dtsize(d);
    return coll(std::string(nm) + "/" + std::to_string(d) + "/" + std::to_string(root), s, rb, n, [=](Coll& c) {
        // counts and displacements are those of the last rank to arrive; MPI requires them equal where they matter
        for (int o = 0; o < vrt::g_np; o++) if (root < 0 || o == root) for (int r = 0; r < vrt::g_np; r++)
            memcpy((char*)c.out[o] + dis[r] * sz, c.in[r], (size_t)c.a[r] * sz); });
}
int MPI_Allgatherv(const void* s, int n, MPI_Datatype d, void* rb, const int* cnt, const int* dis, MPI_Datatype, MPI_Comm) { need_init("MPI_Allgatherv"); return gatherv("allgatherv", s, n, d, rb, cnt, dis, -1); }
static int send(const void* b, int n, MPI_Datatype d, int dst, int tag) {
    point("mpi send");
    if (vrt::fault && vrt::fault("mpi")) return 1;
    if (dst < 0 || dst >= vrt::g_np) vrt::fail(End::MISUSE, "send to rank out of range");
    auto m = std::make_shared<Msg>(); m->src = curth()->rank; m->tag = tag; m->dt = d; m->data.assign((const char*)b, (size_t)n * dtsize(d));
    vrt::g_box[dst].push_back(m);
    block_until([m]() { return m->taken; }, "mpi send (synchronous)");
    return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm) { need_init("MPI_Send"); return send(b, n, d, dst, tag); }
int MPI_Ssend(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm) { need_init("MPI_Ssend"); return send(b, n, d, dst, tag); }
int MPI_Recv(void* b, int n, MPI_Datatype d, int src, int tag, MPI_Comm, MPI_Status* st) {
    need_init("MPI_Recv"); point("mpi recv");
    if (vrt::fault && vrt::fault("mpi")) return 1;
    auto& q = vrt::g_box[curth()->rank];
    auto match = [&q, src, tag](size_t from) { for (size_t i = from; i < q.size(); i++) if ((src == MPI_ANY_SOURCE || q[i]->src == src) && (tag == MPI_ANY_TAG || q[i]->tag == tag)) return (long)i; return -1L; };
    block_until([&]() { return match(0) >= 0; }, "mpi recv");
    std::vector<long> c; // first match per source
    std::map<int, bool> seen;
    for (size_t i = 0; i < q.size(); i++) if ((src == MPI_ANY_SOURCE || q[i]->src == src) && (tag == MPI_ANY_TAG || q[i]->tag == tag) && !seen[q[i]->src]) { seen[q[i]->src] = true; c.push_back(i); }
    long i = c[choose((int)c.size(), "which message")];
    auto m = q[i]; q.erase(q.begin() + i);
    if (m->data.size() > (size_t)n * dtsize(d)) vrt::fail(End::MISUSE, "MPI_Recv: message truncated");
    if (dtsize(m->dt) != dtsize(d)) vrt::fail(End::MISUSE, "MPI_Recv: datatype mismatch");
    memcpy(b, m->data.data(), m->data.size());
    m->taken = true;
    if (st && st != MPI_STATUS_IGNORE) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->count_ = (int)m->data.size(); }
    return 0;
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype d, int* n) { *n = st->count_ / dtsize(d); return 0; }
int MPI_Finalize() {
    need_init("MPI_Finalize");
    coll("finalize", 0, 0, 0, nullptr);
    vrt::g_init[curth()->rank] = 2;
    if (!vrt::g_box[curth()->rank].empty()) vrt::fail(End::MISUSE, "MPI_Finalize with unreceived messages");
    return 0;
}
}
namespace vrt {
void mpi_run(int n, const std::function<void(int)>& f) {
    g_np = n; mpi_reset();
    std::vector<int> ids;
    Th* me = curth();
    for (int r = 0; r < n; r++) {
        int id = spawn([&f, r]() -> void* { f(r); return nullptr; }, false);
        Th* t = th_by_id(id); t->rank = r; t->team = nullptr; ids.push_back(id);
    }
    for (int id : ids) {
        Th* w = th_by_id(id);
        block_until([w]() { return w->st == St::DONE; }, "waiting for an MPI rank");
        race_acquire(me, &w->end_vc); w->joined = true;
    }
    for (int r = 0; r < n; r++) if (g_init[r] == 1) fail(End::MISUSE, "rank " + std::to_string(r) + " ended without MPI_Finalize");
    g_np = 1;
}
}
