// Own implementation of the -fsanitize=thread callbacks: atomics are scheduling points with real semantics,
// plain accesses feed a vector-clock (happens-before) race detector.  In the asan build only the vector-clock
// entry points exist (as no-ops).
#include "vrt_int.hpp"
#include <stdlib.h>
#include <string.h>
#include <new>
#include <unordered_set>
#include <sys/mman.h>
#include <pthread.h>
using namespace vrt;
namespace vrt {
static inline int slot(Th* t) { return t->id % 40; }
static bool on = false;
#ifdef VRT_SCHED
struct Cell { uintptr_t pc; uint32_t clk; uint8_t slot, mask, w, at; };
struct Gran { uintptr_t key; uint32_t gen; uint32_t rot; Cell c[6]; };
static const size_t NG = 1 << 19;
static Gran* tab = nullptr; static uint32_t gen = 1;
static std::unordered_set<uint64_t>* seen; // pc pairs of this run
static inline Gran* gr(uintptr_t k, bool create) {
    size_t h = (k * 0x9E3779B97F4A7C15ull) >> 45;
    for (size_t i = 0; i < 64; i++) {
        Gran* x = &tab[(h + i) & (NG - 1)];
        if (x->gen != gen) { if (!create) return nullptr; x->gen = gen; x->key = k; x->rot = 0; memset(x->c, 0, sizeof x->c); return x; }
        if (x->key == k) return x;
    }
    return nullptr;
}
static void access(uintptr_t a, size_t n, bool w, bool at, uintptr_t pc) {
    Th* t = curth(); int s = slot(t); uint32_t clk = t->vc.c[s];
    while (n) {
        uintptr_t k = a >> 3; unsigned off = a & 7; size_t len = 8 - off < n ? 8 - off : n;
        uint8_t mask = (uint8_t)(((1u << len) - 1) << off);
        Gran* x = gr(k, true);
        if (x) {
            int put = -1;
            for (int i = 0; i < 6; i++) {
                Cell& c = x->c[i];
                if (!c.pc) { if (put < 0) put = i; continue; }
                if (c.slot == s) { if ((c.mask & mask) == c.mask && (w || !c.w) && (!at || c.at)) put = i; continue; }
                if (!(c.mask & mask) || !(c.w || w) || (c.at && at)) continue;
                if (c.clk > t->vc.c[c.slot]) {
                    uint64_t key = (pc < c.pc ? pc : c.pc) * 1000003ull ^ (pc < c.pc ? c.pc : pc);
                    if (seen->insert(key).second) race_list().push_back(RaceInfo{c.pc, pc, (bool)c.w, w, a});
                    if (options().races_fail) { fail(End::RACE, "unsynchronised conflicting accesses"); }
                }
            }
            if (put < 0) put = x->rot++ % 6;
            x->c[put] = Cell{pc, clk, (uint8_t)s, mask, (uint8_t)w, (uint8_t)at};
        }
        a += len; n -= len;
    }
}
static inline void acc(void* p, size_t n, bool w, uintptr_t pc) { if (on && active()) access((uintptr_t)p, n, w, false, pc); }
void shadow_clear(const void* p, size_t n) {
    if (!on || !tab) return;
    uintptr_t a = (uintptr_t)p >> 3, b = ((uintptr_t)p + n + 7) >> 3;
    if (b - a > 65536) return; // stacks: cleared lazily by being fresh per run
    for (; a < b; a++) if (Gran* x = gr(a, false)) { memset(x->c, 0, sizeof x->c); }
}
void race_reset(bool enable) {
    on = enable; gen++;
    if (enable && !tab) { tab = (Gran*)mmap(nullptr, NG * sizeof(Gran), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); seen = new std::unordered_set<uint64_t>; }
    if (seen) seen->clear();
}
#else
void shadow_clear(const void*, size_t) {}
void race_reset(bool) {}
#endif
void race_spawn(Th* p, Th* c) {
    if (p) { c->vc = p->vc; p->vc.c[slot(p)]++; }
    c->vc.c[slot(c)]++;
}
void race_acquire(Th* t, VC* v) { for (int i = 0; i < 40; i++) if (v->c[i] > t->vc.c[i]) t->vc.c[i] = v->c[i]; }
void race_release(Th* t, VC* v) { for (int i = 0; i < 40; i++) if (t->vc.c[i] > v->c[i]) v->c[i] = t->vc.c[i]; t->vc.c[slot(t)]++; }
}

#ifdef VRT_SCHED
#include <unordered_map>
namespace vrt { static std::unordered_map<void*, VC>& avc() { static std::unordered_map<void*, VC> m; return m; } 
static uint32_t avc_gen = 0; }
static inline void at_point(void* a, size_t n, bool w, int mo, uintptr_t pc) {
    if (!vrt::active()) return;
    vrt::point("atomic");
    if (!vrt::on) return;
    if (vrt::avc_gen != vrt::gen) { vrt::avc().clear(); vrt::avc_gen = vrt::gen; }
    vrt::access((uintptr_t)a, n, w, true, pc);
    VC& v = vrt::avc()[a];
    // memory orders: relaxed=0 consume=1 acquire=2 release=3 acq_rel=4 seq_cst=5
    if (mo == 1 || mo == 2 || mo >= 4) vrt::race_acquire(curth(), &v);
    if (w && mo >= 3) vrt::race_release(curth(), &v);
}
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { vrt::acc(p, 8, true, PC); } void __tsan_vptr_read(void** p) { vrt::acc(p, 8, false, PC); }
#define RW(n) void __tsan_read##n(void* p) { vrt::acc(p, n, false, PC); } void __tsan_write##n(void* p) { vrt::acc(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { vrt::acc(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { vrt::acc(p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { vrt::acc(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { vrt::acc(p, n, true, PC); } \
  void __tsan_read_write##n(void* p) { vrt::acc(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { vrt::acc(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { vrt::acc(p, n, true, PC); }
#define AT(bits, T) \
 T __tsan_atomic##bits##_load(const volatile T* a, int mo) { at_point((void*)a, sizeof(T), false, mo, PC); return *a; } \
 void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { at_point((void*)a, sizeof(T), true, mo, PC); *a = v; } \
 T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { at_point((void*)a, sizeof(T), true, mo, PC); T o = *a; *a = v; return o; } \
 T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { at_point((void*)a, sizeof(T), true, mo, PC); T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { at_point((void*)a, sizeof(T), true, mo, PC); T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { at_point((void*)a, sizeof(T), true, mo, PC); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { at_point((void*)a, sizeof(T), true, mo, PC); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { at_point((void*)a, sizeof(T), true, mo, PC); T o = *a; *a = o ^ v; return o; } \
 T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { at_point((void*)a, sizeof(T), true, mo, PC); T o = *a; *a = ~(o & v); return o; } \
 bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int) { at_point((void*)a, sizeof(T), true, mo, PC); T o = *a; if (o == *e) { *a = v; return true; } *e = o; return false; } \
 bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int) { at_point((void*)a, sizeof(T), true, mo, PC); T o = *a; if (o == *e) { *a = v; return true; } *e = o; return false; } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int) { at_point((void*)a, sizeof(T), true, mo, PC); T o = *a; if (o == e) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}

void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p && vrt::on && vrt::active()) vrt::shadow_clear(p, n); return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); if (p && vrt::on && vrt::active()) vrt::shadow_clear(p, a * b); return p; }
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (vrt::on && vrt::active() && n) { vrt::acc((void*)s, n, false, PC); vrt::acc(d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (vrt::on && vrt::active() && n) { vrt::acc((void*)s, n, false, PC); vrt::acc(d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (vrt::on && vrt::active() && n) vrt::acc(d, n, true, PC); return __real_memset(d, c, n); }
}
void* operator new(size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (vrt::on && vrt::active()) vrt::shadow_clear(p, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); } void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); } void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
