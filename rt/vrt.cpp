#include "vrt.hpp"
#include <pthread.h>
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <cxxabi.h>
#include <exception>
#include <unordered_map>
#include <deque>
#include <memory>
#include "vrt_int.hpp"

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define VRT_ASAN 1
#endif

extern "C" char __libc_single_threaded;

long (*vrand_int)(unsigned long, unsigned long, long) = nullptr;
double (*vrand_real)(unsigned long, unsigned long) = nullptr;
namespace vrt {
bool quiet = true;
bool (*fault)(const char*) = nullptr;
int stack_fill = -1;
const char* end_name(End e) {
    switch (e) {
        case End::OK: return "ok"; case End::DEADLOCK: return "deadlock"; case End::ASSERTION: return "assertion";
        case End::EXCEPTION: return "exception"; case End::EXITED: return "exit"; case End::HORIZON: return "horizon";
        case End::MISUSE: return "sync-misuse"; case End::RACE: return "data-race"; case End::DIVERGED: return "diverged";
        case End::CRASH: return "crash";
    }
    return "?";
}

// ---------------------------------------------------------------- context switch
extern "C" void vrt_switch(void** save_sp, void* new_sp);
asm(R"(
.text
.globl vrt_switch
.type vrt_switch,@function
vrt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vrt_switch,.-vrt_switch
)");

static const size_t STACK = 1 << 20;
static std::vector<char*> g_free_stacks;
static char* new_stack() {
    if (!g_free_stacks.empty()) { char* s = g_free_stacks.back(); g_free_stacks.pop_back(); return s; }
    char* p = (char*)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { write(2, "vrt: mmap failed\n", 17); _exit(77); }
    mprotect(p, 4096, PROT_NONE);
    return p + 4096;
}

// ---------------------------------------------------------------- globals
struct G {
    bool act = false;
    Options opt;
    std::vector<Th*> th;
    int cur = 0;
    void* main_sp = nullptr;
    const std::vector<int>* prefix = nullptr;
    std::vector<int> choices;
    std::vector<Point> trace;
    uint64_t points = 0, switches = 0, streak = 0;
    End end = End::OK;
    std::string detail;
    bool ended = false;
    std::function<void()> body;
    std::unordered_map<void*, Mtx> mtx;
    std::unordered_map<void*, int> cnd; // 1 = live, 2 = destroyed
    bool log = false;
    std::vector<std::string> logv;
    std::vector<RaceInfo> races;
    void* main_fake = nullptr; const void* main_bottom = nullptr; size_t main_size = 0;
} g;
static Counters g_cnt;
static std::vector<std::string> g_systems;
std::vector<std::string>& system_calls() { return g_systems; }
Counters& counters() { return g_cnt; }
bool active() { return g.act; }
int cur() { return g.cur; }
Th* curth() { return g.th[g.cur]; }
static void lg(const char* f, ...) __attribute__((format(printf, 1, 2)));
static void lg(const char* f, ...) {
    if (!g.log) return;
    char b[256]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    if (g.logv.size() < 20000) g.logv.push_back("T" + std::to_string(g.cur) + ": " + b);
}
void logmsg(const std::string& s) { lg("%s", s.c_str()); }
std::vector<RaceInfo>& race_list() { return g.races; }
const Options& options() { return g.opt; }

unsigned live_threads() {
    unsigned n = 0;
    for (size_t i = 1; i < g.th.size(); i++) if (g.th[i]->st != St::DONE && !g.th[i]->omp_worker) n++;
    return n;
}

static void to_thread(int id) {
    int old = g.cur;
    if (id == old && g.th[old]->started) return;
    g.switches++; g.streak = 0;
    g.cur = id;
    Th* n = g.th[id]; Th* o = g.th[old];
#ifdef VRT_ASAN
    __sanitizer_start_switch_fiber(o->st == St::DONE ? nullptr : &o->fake, n->stack, STACK);
#endif
    vrt_switch(&o->sp, n->sp);
#ifdef VRT_ASAN
    __sanitizer_finish_switch_fiber(g.th[g.cur]->fake, nullptr, nullptr);
#endif
}
[[noreturn]] static void to_main() {
    Th* o = g.th[g.cur];
#ifdef VRT_ASAN
    __sanitizer_start_switch_fiber(nullptr, g.main_bottom, g.main_size);
#endif
    vrt_switch(&o->sp, g.main_sp);
    __builtin_unreachable();
}

void fail(End e, const std::string& d) {
    if (!g.act) { fprintf(stderr, "vrt: %s outside a run: %s\n", end_name(e), d.c_str()); _exit(78); }
    g.end = e; g.detail = d; g.ended = true;
    lg("== %s: %s", end_name(e), d.c_str());
    to_main();
}

static bool mtx_free_for(Mtx& m, int id) { return m.owner < 0 || (m.owner == id && m.type == PTHREAD_MUTEX_RECURSIVE); }

static bool enabled(Th* t) {
    switch (t->st) {
        case St::RUN: return true;
        case St::MUTEX: return mtx_free_for(g.mtx[t->obj], t->id);
        case St::COND: return t->signaled && mtx_free_for(g.mtx[t->obj2], t->id);
        case St::PRED: return t->pred();
        case St::DONE: return false;
    }
    return false;
}
static std::string describe() {
    std::string s;
    for (Th* t : g.th) {
        const char* n = t->st == St::RUN ? "runnable" : t->st == St::MUTEX ? "blocked on a mutex" :
            t->st == St::COND ? (t->signaled ? "signalled, needs mutex" : "waiting on a condition") :
            t->st == St::PRED ? t->why : "done";
        s += "T" + std::to_string(t->id) + "=" + n + "; ";
    }
    return s;
}

// Decide who runs next. cur_ok: the running thread could continue.
static void schedule(bool cur_ok, const char* what) {
    static thread_local int alt_id[64]; static thread_local unsigned char alt_cost[64], alt_spur[64];
    int n = 0;
    int N = (int)g.th.size();
    bool fair = cur_ok && ++g.streak > 3000; // a spinner must let others run
    if (cur_ok && !fair) { alt_id[n] = g.cur; alt_cost[n] = 0; alt_spur[n++] = 0; }
    for (int d = 1; d <= N && n < 60; d++) {
        int i = (g.cur + d) % N;
        if (i == g.cur) { if (fair) { alt_id[n] = i; alt_cost[n] = 1; alt_spur[n++] = 0; } continue; }
        Th* t = g.th[i];
        if (enabled(t)) { alt_id[n] = i; alt_cost[n] = n == 0 ? 0 : (cur_ok ? 1 : g.opt.np_cost); alt_spur[n++] = 0; }
    }
    if (n == 0) {
        fail(End::DEADLOCK, describe());
    }
    if (g.opt.spurious)
        for (int i = 0; i < N && n < 60; i++) {
            Th* t = g.th[i];
            if (t->st == St::COND && !t->signaled && mtx_free_for(g.mtx[t->obj2], t->id)) { alt_id[n] = i; alt_cost[n] = 1; alt_spur[n++] = 1; }
        }
    int c = 0;
    if (n > 1) {
        size_t pos = g.choices.size();
        if (g.prefix && pos < g.prefix->size()) {
            c = (*g.prefix)[pos];
            if (c < 0 || c >= n) fail(End::DIVERGED, "replayed choice out of range");
        }
        g.choices.push_back(c);
        Point p; p.n = n; memcpy(p.cost, alt_cost, n); g.trace.push_back(p);
    }
    int id = alt_id[c];
    if (alt_spur[c]) { g.th[id]->signaled = true; g.th[id]->spurious = true; lg("(spurious wake-up of T%d)", id); }
    if (id != g.cur) { lg("-> T%d at %s", id, what); to_thread(id); }
}
static void count_point() {
    g.points++;
    if (g.points > g.opt.horizon) fail(End::HORIZON, "no completion within " + std::to_string(g.opt.horizon) + " visible operations: " + describe());
}
void point(const char* what) {
    if (!g.act || g.ended) return;
    count_point();
    schedule(true, what);
}
int choose(int n, const char* what) {
    if (n <= 1) return 0;
    size_t pos = g.choices.size(); int c = 0;
    if (g.prefix && pos < g.prefix->size()) { c = (*g.prefix)[pos]; if (c < 0 || c >= n) fail(End::DIVERGED, "replayed choice out of range"); }
    if (n > 60) n = 60;
    g.choices.push_back(c);
    Point p; p.n = n; for (int i = 0; i < n; i++) p.cost[i] = i ? 1 : 0; g.trace.push_back(p);
    lg("choice %s = %d", what, c);
    return c;
}
// block the running thread until its condition holds
static void block(const char* what) {
    count_point();
    while (true) {
        schedule(false, what);
        if (enabled(curth())) break;
    }
}
void block_until(const std::function<bool()>& p, const char* why) {
    Th* t = curth();
    if (p()) return;
    t->st = St::PRED; t->pred = p; t->why = why;
    block(why);
    t->st = St::RUN; t->pred = nullptr;
}

static void thread_end(void* ret) {
    Th* t = curth();
    t->ret = ret; t->st = St::DONE;
    race_release(t, &t->end_vc);
    lg("thread ends");
    if (t->id == 0) { g.ended = true; to_main(); }
    count_point();
    schedule(false, "thread end");
    __builtin_unreachable();
}
static void entry() {
#ifdef VRT_ASAN
    __sanitizer_finish_switch_fiber(nullptr, g.cur == 0 ? &g.main_bottom : nullptr, g.cur == 0 ? &g.main_size : nullptr);
#endif
    Th* t = curth();
    t->started = true;
    void* r = t->fn();
    thread_end(r);
}
int spawn(std::function<void*()> fn, bool omp) {
    Th* t = new Th();
    t->id = (int)g.th.size();
    t->fn = std::move(fn);
    t->stack = new_stack();
#ifdef VRT_ASAN
    __asan_unpoison_memory_region(t->stack, STACK);
#endif
    shadow_clear(t->stack, STACK);
    t->omp_worker = omp;
    if (!g.th.empty()) { t->rank = curth()->rank; }
    uintptr_t top = ((uintptr_t)t->stack + STACK - 64) & ~(uintptr_t)15;
    if (stack_fill >= 0) memset((char*)top - 32768, stack_fill, 32768);
    void** sp = (void**)top;
    *--sp = nullptr;            // alignment / fake return address of entry
    *--sp = (void*)entry;       // ret target
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    t->sp = sp;
    g.th.push_back(t);
    race_spawn(g.th.size() > 1 ? curth() : nullptr, t);
    return t->id;
}

static void reset_exceptions() {
    struct eh { void* caught; unsigned uncaught; };
    eh* e = (eh*)abi::__cxa_get_globals();
    e->caught = nullptr; e->uncaught = 0;
}
static void on_terminate() {
    std::string d = "uncaught exception";
    if (std::exception_ptr p = std::current_exception()) {
        try { std::rethrow_exception(p); }
        catch (std::exception& e) { d += std::string(": ") + e.what(); }
        catch (...) { d += " (not a std::exception)"; }
    }
    if (g.act && !g.ended) fail(End::EXCEPTION, d);
    fprintf(stderr, "vrt: terminate: %s\n", d.c_str());
    _exit(79);
}
static Th* th_of_signal() { return g.act ? curth() : nullptr; }
static void on_signal(int s) {
    (void)th_of_signal();
    if (g.act && !g.ended && s != SIGALRM) {
        sigset_t ss; sigemptyset(&ss); sigaddset(&ss, s); sigprocmask(SIG_UNBLOCK, &ss, nullptr);
        g.end = End::CRASH; g.detail = std::string("signal ") + strsignal(s); g.ended = true;
        to_main(); // leaves the alternate stack for good; SS_ONSTACK is cleared by switching stacks
    }
    const char* m = s == SIGALRM ? "vrt: watchdog expired\n" : "vrt: fatal signal\n";
    write(2, m, strlen(m));
    _exit(s == SIGALRM ? 76 : 75);
}
static void init_once() {
    static bool done = false;
    if (done) return;
    done = true;
    __libc_single_threaded = 0;
    std::set_terminate(on_terminate);
    static char alt[65536];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
#ifndef VRT_ASAN
    sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr);
#endif
    sigaction(SIGALRM, &sa, nullptr);
}

Result run(const std::function<void()>& body, const std::vector<int>& prefix, const Options& o, bool log) {
    init_once();
    for (Th* t : g.th) { g_free_stacks.push_back(t->stack); delete t; }
    g.th.clear(); g.mtx.clear(); g.cnd.clear(); g.choices.clear(); g.trace.clear(); g.logv.clear(); g.races.clear();
    g.opt = o; g.prefix = &prefix; g.points = g.switches = g.streak = 0; g.end = End::OK; g.detail.clear(); g.ended = false;
    g.log = log; g.cur = 0;
    race_reset(o.races);
    omp_reset(); mpi_reset();
    spawn([&]() -> void* {
            try { body(); }
            catch (...) { on_terminate(); }
            return nullptr; }, false);
    g.act = true;
#ifdef VRT_ASAN
    __sanitizer_start_switch_fiber(&g.main_fake, g.th[0]->stack, STACK);
#endif
    vrt_switch(&g.main_sp, g.th[0]->sp);
#ifdef VRT_ASAN
    __sanitizer_finish_switch_fiber(g.main_fake, nullptr, nullptr);
#endif
    g.act = false;
    reset_exceptions();
    if (g.end == End::OK && g.choices.size() < prefix.size()) { g.end = End::DIVERGED; g.detail = "replay ended before its prefix"; }
    Result r;
    r.end = g.end; r.detail = g.detail; r.choices = g.choices; r.points = g.points; r.switches = g.switches;
    r.races = g.races; r.log = g.logv;
    return r;
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

namespace {
struct Explorer {
    const std::function<void()>& body; Options o; const std::function<void(Exec&)>& visit; Stats s; bool stop = false;
    double t0 = now(); uint64_t split = 0;
    void go(const std::vector<int>& prefix, int used, int depth) {
        if (stop) return;
        if ((o.max_execs && s.executions >= o.max_execs) || (o.max_seconds > 0 && now() - t0 > o.max_seconds)) { s.capped = true; stop = true; return; }
        Result r = run(body, prefix, o);
        std::vector<Point> tr = g.trace; // n, cost per alternative
        bool shallow = o.nshards > 1 && depth < 2 && o.shard != 0;
        if (!shallow) {
            s.executions++; s.points += r.points; s.switches += r.switches; s.choice_points += tr.size();
            if ((int)s.per_budget.size() <= used) s.per_budget.resize(used + 1);
            s.per_budget[used]++;
        }
        if (tr.size() > s.max_choice_points) s.max_choice_points = tr.size();
        Exec e{&r, "", false};
        visit(e);
        if (!shallow) s.outcomes[e.outcome]++;
        if (e.stop) { stop = true; return; }
        if (r.end != End::OK) return; // a failed execution is not extended
        for (size_t i = prefix.size(); i < tr.size() && !stop; i++)
            for (int a = 1; a < tr[i].n && !stop; a++) {
                int c = tr[i].cost[a];
                if (used + c > o.budget) continue;
                if (o.nshards > 1 && depth == 1) { if ((int)(split++ % o.nshards) != o.shard) continue; }
                std::vector<int> p(r.choices.begin(), r.choices.begin() + i);
                p.push_back(a);
                go(p, used + c, depth + 1);
            }
    }
};
}
Stats explore(const std::function<void()>& body, const Options& o, const std::function<void(Exec&)>& visit) {
    Explorer x{body, o, visit};
    x.go({}, 0, 0);
    return x.s;
}

// ---------------------------------------------------------------- pthread
static Mtx& mx(void* m) {
    auto it = g.mtx.find(m);
    if (it == g.mtx.end()) it = g.mtx.emplace(m, Mtx()).first;
    return it->second;
}
static void mtx_check(Mtx& m, const char* op) { if (m.destroyed) fail(End::MISUSE, std::string(op) + " on a destroyed mutex"); }
static int do_lock(pthread_mutex_t* p) {
    Mtx& m = mx(p); mtx_check(m, "pthread_mutex_lock");
    Th* t = curth();
    if (m.owner == t->id) {
        if (m.type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        if (m.type == PTHREAD_MUTEX_RECURSIVE) { m.count++; return 0; }
        // a normal mutex: self-deadlock
    }
    if (m.owner >= 0) {
        t->st = St::MUTEX; t->obj = p;
        block("mutex");
        t->st = St::RUN;
    }
    Mtx& m2 = mx(p); mtx_check(m2, "pthread_mutex_lock");
    m2.owner = t->id; m2.count = 1;
    race_acquire(t, &m2.vc);
    return 0;
}
static int do_unlock(pthread_mutex_t* p) {
    Mtx& m = mx(p); mtx_check(m, "pthread_mutex_unlock");
    Th* t = curth();
    if (m.owner != t->id) {
        if (m.type == PTHREAD_MUTEX_ERRORCHECK) return EPERM;
        fail(End::MISUSE, "pthread_mutex_unlock of a mutex the thread does not hold");
    }
    if (--m.count > 0) return 0;
    m.owner = -1;
    race_release(t, &m.vc);
    return 0;
}
} // namespace vrt
using namespace vrt;

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
void __real_exit(int) __attribute__((noreturn)); void __real_abort() __attribute__((noreturn));

int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    int ty = PTHREAD_MUTEX_NORMAL; if (a) pthread_mutexattr_gettype(a, &ty);
    if (!vrt::active()) return 0;
    auto& x = mx(m); x = Mtx(); x.type = ty; return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!vrt::active()) return 0;
    auto& x = mx(m); mtx_check(x, "pthread_mutex_destroy");
    if (x.owner >= 0) fail(End::MISUSE, "pthread_mutex_destroy of a locked mutex");
    for (Th* t : g.th) if ((t->st == St::MUTEX && t->obj == m) || (t->st == St::COND && t->obj2 == m))
        fail(End::MISUSE, "pthread_mutex_destroy while a thread needs the mutex");
    x.destroyed = true; return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!vrt::active()) return 0; point("lock"); lg("lock %p", (void*)m); return do_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!vrt::active()) return 0;
    point("trylock");
    Mtx& x = mx(m); mtx_check(x, "pthread_mutex_trylock");
    if (x.owner >= 0 && !(x.owner == g.cur && x.type == PTHREAD_MUTEX_RECURSIVE)) return EBUSY;
    return do_lock(m);
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return __wrap_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!vrt::active()) return 0; lg("unlock %p", (void*)m); return do_unlock(m); }
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { if (vrt::active()) g.cnd[c] = 1; return 0; }
static void cnd_check(pthread_cond_t* c, const char* op) {
    auto it = g.cnd.find(c); if (it != g.cnd.end() && it->second == 2) fail(End::MISUSE, std::string(op) + " on a destroyed condition variable");
}
int __wrap_pthread_cond_destroy(pthread_cond_t* c) {
    if (!vrt::active()) return 0;
    cnd_check(c, "pthread_cond_destroy");
    for (Th* t : g.th) if (t->st == St::COND && t->obj == c && !t->signaled) fail(End::MISUSE, "pthread_cond_destroy while a thread waits on it");
    g.cnd[c] = 2; return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!vrt::active()) return 0;
    point("cond_wait"); cnd_check(c, "pthread_cond_wait");
    lg("cond_wait %p", (void*)c);
    Mtx& x = mx(m);
    if (x.owner != g.cur) fail(End::MISUSE, "pthread_cond_wait without holding the mutex");
    unsigned cnt = x.count; x.count = 1; do_unlock(m);
    Th* t = curth();
    static uint64_t seq = 0;
    t->st = St::COND; t->obj = c; t->obj2 = m; t->signaled = false; t->spurious = false; t->seq = ++seq;
    block("cond_wait");
    t->st = St::RUN; t->signaled = false;
    do_lock(m); mx(m).count = cnt;
    return 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) {
    // the timer may fire first: treated as a timeout that is always possible once nothing else can run, or as a deviation
    if (!vrt::active()) return 0;
    point("cond_timedwait"); cnd_check(c, "pthread_cond_timedwait");
    Mtx& x = mx(m); if (x.owner != g.cur) fail(End::MISUSE, "pthread_cond_timedwait without holding the mutex");
    x.count = 1; do_unlock(m);
    Th* t = curth(); t->st = St::PRED; bool got = false; (void)got;
    t->why = "timed wait"; t->pred = [m, t]() { Mtx& y = mx(m); return mtx_free_for(y, t->id); };
    block("cond_timedwait"); t->st = St::RUN; t->pred = nullptr;
    do_lock(m);
    return ETIMEDOUT;
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
    if (!vrt::active()) return 0;
    point("cond_signal"); cnd_check(c, "pthread_cond_signal");
    lg("cond_signal %p", (void*)c);
    std::vector<Th*> w;
    for (Th* t : g.th) if (t->st == St::COND && t->obj == c && !t->signaled) w.push_back(t);
    if (w.empty()) return 0;
    int i = choose((int)w.size(), "which waiter is signalled");
    w[i]->signaled = true;
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
    if (!vrt::active()) return 0;
    point("cond_broadcast"); cnd_check(c, "pthread_cond_broadcast");
    for (Th* t : g.th) if (t->st == St::COND && t->obj == c) t->signaled = true;
    return 0;
}
int __wrap_pthread_create(pthread_t* out, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    if (!vrt::active()) fail(End::MISUSE, "pthread_create outside a run");
    point("create");
    if (vrt::fault && vrt::fault("pthread_create")) return EAGAIN;
    g_cnt.threads_created++;
    int id = spawn([fn, arg]() -> void* { return fn(arg); }, false);
    *out = (pthread_t)(id + 1);
    lg("create T%d", id);
    return 0;
}
int __wrap_pthread_join(pthread_t p, void** ret) {
    int id = (int)p - 1;
    if (id < 0 || id >= (int)g.th.size()) fail(End::MISUSE, "pthread_join of an unknown thread");
    Th* t = g.th[id];
    if (t->joined) fail(End::MISUSE, "pthread_join of a thread already joined");
    point("join");
    block_until([t]() { return t->st == St::DONE; }, "joining a thread");
    t->joined = true;
    race_acquire(curth(), &t->end_vc);
    if (ret) *ret = t->ret;
    lg("joined T%d", id);
    return 0;
}
int __wrap_pthread_detach(pthread_t p) { (void)p; return 0; }
void __wrap_pthread_exit(void* r) { if (g.cur == 0) fail(End::MISUSE, "pthread_exit in the driver"); thread_end(r); __builtin_unreachable(); }
pthread_t __wrap_pthread_self() { return vrt::active() ? (pthread_t)(g.cur + 1) : (pthread_t)1; }
int __wrap_sched_yield() { if (vrt::active()) { count_point(); Th* t = curth(); (void)t; g.streak = 1 << 20; schedule(true, "yield"); } return 0; }
int __wrap_usleep(unsigned) { return __wrap_sched_yield(); }

void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char*) {
    const char* b = strrchr(f, '/');
    if (vrt::active()) fail(End::ASSERTION, std::string(b ? b + 1 : f) + ": assertion `" + e + "' failed");
    fprintf(stderr, "assert %s %s:%u\n", e, f, l); _exit(74);
}
void __wrap_abort() { if (vrt::active()) fail(End::ASSERTION, "abort()"); __real_abort(); }
void __wrap_exit(int c) { if (vrt::active()) fail(End::EXITED, "exit(" + std::to_string(c) + ")"); __real_exit(c); }

int __real_vprintf(const char*, va_list);
int __wrap_printf(const char* f, ...) { if (vrt::quiet && vrt::active()) return 0; va_list a; va_start(a, f); int r = vprintf(f, a); va_end(a); return r; }
int __wrap_puts(const char* s) { if (vrt::quiet && vrt::active()) return 0; fputs(s, stdout); fputc('\n', stdout); return 0; }
int __wrap_putchar(int c) { if (vrt::quiet && vrt::active()) return c; return fputc(c, stdout); }
int __wrap_fprintf(FILE* fp, const char* f, ...) {
    if (vrt::quiet && vrt::active() && (fp == stderr || fp == stdout)) return 0;
    va_list a; va_start(a, f); int r = vfprintf(fp, f, a); va_end(a); return r;
}
int __wrap_system(const char* c) { g_systems.push_back(c ? c : ""); return 0; }
void __wrap_perror(const char* s) {
    int e = errno; (void)e;
    if (vrt::active() && s && !strncmp(s, "pthread", 7)) fail(End::MISUSE, std::string(s) + " returned an error");
}
}
namespace vrt { Th* th_by_id(int i) { return g.th[i]; } }
