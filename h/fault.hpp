// Lets calls to the operating system or MPI fail at a chosen point; linked with vlib.WRAP_FAULT.
#pragma once
#include "engines.hpp"
#include <cerrno>
using namespace vh;
static std::string g_kind; static long g_at = -1, g_seen = 0; static bool g_from = false, g_hit = false;
static bool fails(const char* call) {
    if (!faults_armed || !vrt::active() || g_kind != call) return false;
    const long i = g_seen++; if (g_at < 0 || !(i == g_at || (g_from && i > g_at))) return false;
    g_hit = true; return true;
}
extern "C" {
void* __real__Znwm(size_t); void* __real__Znam(size_t); FILE* __real_fopen(const char*, const char*); size_t __real_fread(void*, size_t, size_t, FILE*); int __real_fseek(FILE*, long, int); int __real_fclose(FILE*);
void* __wrap__Znwm(size_t n) { if (fails("memory")) throw std::bad_alloc(); return __real__Znwm(n); }
void* __wrap__Znam(size_t n) { if (fails("memory")) throw std::bad_alloc(); return __real__Znam(n); }
FILE* __wrap_fopen(const char* p, const char* m) { if (fails("fopen")) { errno = EMFILE; return nullptr; } return __real_fopen(p, m); }
size_t __wrap_fread(void* b, size_t s, size_t n, FILE* f) { if (fails("fread")) { errno = EIO; return 0; } return __real_fread(b, s, n, f); }
int __wrap_fseek(FILE* f, long o, int w) { if (fails("fseek")) { errno = EIO; return -1; } return __real_fseek(f, o, w); }
int __wrap_fclose(FILE* f) { bool b = fails("fclose"); int r = __real_fclose(f); if (b) { errno = EIO; return EOF; } return r; }
}
static const char* KINDS[] = {"pthread_create", "numa_alloc", "fopen", "fread", "fseek", "fclose", "mpi", "memory"};
