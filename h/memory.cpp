// Life cycles: every small shape and configuration of every engine, run, destroyed without a run, ended by a refused
// initialisation, missing or short data. With AddressSanitizer every access is checked; otherwise the case runs once per
// fill pattern of fresh memory, results must agree, and nothing acquired may be left after the last of the runs.
#include "engines.hpp"
#include <dirent.h>
#include <malloc.h>
using namespace vh;
static long g_live = 0; static int g_fill = -1;
#ifndef __SANITIZE_ADDRESS__
static void* take_block(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); g_live++; if (g_fill >= 0) memset(p, g_fill, n); return p; }
static void give_block(void* p) { if (!p) return; g_live--; if (g_fill >= 0) memset(p, g_fill ^ 0xff, malloc_usable_size(p)); free(p); }
void* operator new(size_t n) { return take_block(n); }
void* operator new[](size_t n) { return take_block(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take_block(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take_block(n); }
void operator delete(void* p) noexcept { give_block(p); }
void operator delete[](void* p) noexcept { give_block(p); }
void operator delete(void* p, size_t) noexcept { give_block(p); }
void operator delete[](void* p, size_t) noexcept { give_block(p); }
static const std::vector<int> FILLS = {0x00, 0xff, 0x3f, 0x00}; // zeros, NaN and huge numbers, ordinary numbers
#else
static const std::vector<int> FILLS = {-1};
#endif
static int open_files() { int n = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); } return n; }

// One life of an engine; what it did goes to `res`.
static void life(const Cfg& c, const Data& D, const std::string& how, std::string& res) {
    using namespace knor;
    const std::set<std::string> threaded = {"km", "kmp", "mb", "fcm", "sk", "med", "hc", "xm", "gm"};
    std::string fn = h().scratch + "/life." + S(getpid()) + ".bin";
    if (how == "run") { try { res = run_engine(c, D).str(); } catch (std::exception& e) { res = std::string("refused: ") + e.what(); } return; }
    if (!threaded.count(c.eng)) { // distributed and OpenMP engines have no separate construction
#ifdef WITH_DIST
        vrt::set_numa_nodes(c.nodes); fn = data_file(D); const double* cen = c.cen.empty() ? nullptr : c.cen.data();
        vrt::mpi_run(c.procs, [&](int) { if (c.eng == "dist") dist::dist_coordinator::create(0, nullptr, fn, D.n, D.d, c.k, c.mi, c.nodes, c.T, cen, c.init, c.tol, c.dist); else prune::dist_task_coordinator::create(0, nullptr, fn, D.n, D.d, c.k, c.mi, c.nodes, c.T, cen, c.init, c.tol, c.dist); });
        unlink(fn.c_str());
#endif
        return;
    }
    vrt::set_numa_nodes(c.nodes); vrt::set_omp_max_threads(c.T); V copy = D.x;
    if (how == "norun") { if (c.src == "file") fn = data_file(D); else fn = ""; auto p = make_engine(c, D, fn); if (c.src == "numa") { auto md = binding::memory_distributor<double>::create(copy.data(), c.nodes, D.n, D.d); md->numa_reorg(p->get_threads()); } if (c.src == "ptrset") p->set_thread_data_ptr(copy.data()); }
    else if (how == "nofile") { try { make_engine(c, D, h().scratch + "/absent.bin"); res = "accepted"; } catch (std::exception& e) { res = std::string("refused: ") + e.what(); } return; }
    else if (how == "reinit") { auto p = std::static_pointer_cast<prune::kmeans_task_coordinator>(make_engine(c, D, "")); p->run(copy.data()); for (int r = 0; r < 2; r++) { p->reinit(); p->tally_assignment_counts(); res += take(p->dump_state()).str() + fmt(p->compute_cluster_energy()); } }
    else if (how == "two") { auto p = make_engine(c, D, ""), q = make_engine(c, D, ""); V c2 = D.x; if (c.eng == "mb") { res = take(std::static_pointer_cast<prune::kmeans_task_coordinator>(p)->mb_run(copy.data())).str(); } else res = take(p->run(copy.data())).str(); p.reset(); if (c.eng != "mb") res += take(q->run(c2.data())).str(); }
    else { fprintf(stderr, "unknown life %s\n", how.c_str()); _exit(70); }
    if (how == "norun" && !fn.empty()) unlink(fn.c_str());
}
static void one(const Cfg& c, const Data& D, const std::string& how) {
    if (!h().next([&]() { return how + " " + c.str() + " data=" + dspec(D); })) return;
    if (D.n > 1) h().count("nontrivial");
    auto body = [&]() {
        std::string r0; long before = 0, fd0 = 0, numa0 = 0;
        for (size_t i = 0; i < FILLS.size(); i++) {
            std::string res; unsigned left = 0; g_fill = vrt::stack_fill = FILLS[i];
            if (i + 1 == FILLS.size()) { before = g_live; }
            if (i == 0) { fd0 = open_files(); numa0 = (long)vrt::counters().numa_alloc - (long)vrt::counters().numa_free; }
            // draws are part of the case: every repetition gets the same
            Rng& r = rng(); if (vrand_int && i) { r.prefix = r.trace; r.trace.clear(); r.arity.clear(); r.memo.clear(); }
            bool ok = exec_ok("life", [&]() { life(c, D, how, res); left = vrt::live_threads(); });
            g_fill = vrt::stack_fill = -1;
            if (!ok) return false;
            if (left) { h().viol("threads", S(left) + " threads are left"); return false; }
            if (i == 0) r0 = res; else if (res != r0) { h().viol("uninitialised", "the result depends on the previous contents of memory: " + r0 + " and " + res); return false; }
        }
        long after = g_live;
        if (FILLS.size() > 1 && after - before > (long)(0)) { h().viol("leak", S(after - before) + " heap blocks are left"); return false; }
        if (open_files() != fd0) { h().viol("files", S(open_files() - fd0) + " files are left open"); return false; }
        if ((long)vrt::counters().numa_alloc - (long)vrt::counters().numa_free != numa0) { h().viol("numa", "NUMA blocks are left"); return false; }
        return true;
    };
    if (D.n > 12 || (c.init == "none" && c.eng != "mb" && c.eng != "med") || (c.eng == "mb" && D.n * (c.mi + 1) > 6)) { body(); return; } // larger cases keep the shipped random numbers
    explore_rng({0.1, 0.6}, body);
}
// values no distance can be computed with: refused, or clustered somehow, but within the memory owned
static void odd_values(const std::string& eng, bool th) {
    const bool dist = eng == "dist" || eng == "distp", omp = eng == "omp" || eng == "ompp", hier = eng == "hc" || eng == "xm" || eng == "gm", mb = eng == "mb";
    const double pool[] = {0, 1, 1e200, -1e308, NAN, INFINITY}; const int np = 6;
    for (size_t n : {0u, 2u}) for (size_t d : {0u, 1u}) for (unsigned k : {1u, 2u}) for (unsigned T : {1u, 2u}) for (const char* init : {"none", "forgy", "random", "kmeanspp"}) for (const char* src : {"ptr", "file"}) {
        if ((n && d) || eng == "gm") continue; if ((omp && src[0] == 'f') || (dist && src[0] == 'p')) continue;
        Data D; D.n = n; D.d = d; D.x.assign(n * d, 1); Cfg c; c.eng = eng; c.k = k; c.T = T; c.mi = 2; c.init = init; c.src = src; c.minsz = 1; c.mb = 1; c.procs = dist ? 2 : 1; if (init[0] == 'n') { c.cen.assign(k * d, 0.5); c.cen.push_back(0); }
        if (!h().next([&]() { return "empty " + c.str() + " n=" + S(n) + " d=" + S(d); })) continue;
        Out o; RunOut r = exec([&]() { o = run_engine(c, D); });
        if (r.end == vrt::End::EXCEPTION || r.end == vrt::End::ASSERTION || r.end == vrt::End::EXITED) { h().count("refused"); continue; }
        if (!r.ok()) { h().viol(std::string("empty/") + vrt::end_name(r.end), r.detail); continue; }
    }
    for (size_t n : {2u, 3u, 4u}) for (unsigned k : {2u, 3u}) for (unsigned T : {1u, 2u}) for (unsigned mi : {1u, 3u}) for (const char* ds : {"eucl", "cos", "taxi", "sqeucl"}) for (int st = 0; st < 3; st++) {
        if (k > n && (omp || hier)) continue; if (hier && k == 3) continue; if (n == 4 && (st || (!th && mi == 1))) continue; if (omp && ds[0] == 't') continue; if (eng == "sk" && ds[0] != 'c') continue; if (n == 4 && !th && ds[0] != 'e') continue;
        tuples((int)n, 0, np - 1, [&](const std::vector<int>& v) {
            Data D; D.n = n; D.d = 1; bool odd = false; for (int q : v) { D.x.push_back(pool[q]); odd |= q > 1; } if (!odd && !st) return;
            Cfg c; c.eng = eng; c.k = hier ? 4 : k; c.mi = mi; c.T = T; c.dist = ds; c.minsz = 1; c.mb = (unsigned)n; c.nodes = 1; c.procs = dist ? 2 : 1; c.init = "none"; c.src = dist ? "file" : "ptr";
            for (const char* init : {"none", "forgy", "random", "kmeanspp"}) {
            if (init[0] != 'n' && (st || n == 4 || ((hier || eng == "fcm" || eng == "med") && init[0] != 'f'))) continue; c.init = init; c.cen.clear();
            const double starts[3][3] = {{0, 1, 2}, {NAN, 1, 0}, {0, 1e300, INFINITY}}; if (init[0] == 'n') for (unsigned q = 0; q < (hier ? 2 : k); q++) c.cen.push_back(starts[st][q]);
            if (!h().next([&]() { return "values " + c.str() + " data=" + fmt(D.x) + " start=" + S(st); })) continue;
            h().count("nontrivial"); Out o; RunOut r = exec([&]() { o = run_engine(c, D); });
            if (r.end == vrt::End::EXCEPTION || r.end == vrt::End::ASSERTION || r.end == vrt::End::EXITED) { h().count("refused"); continue; }
            if (!r.ok()) { h().viol(std::string("values/") + vrt::end_name(r.end), r.detail); continue; }
            long long sum = 0; for (auto x : o.cnt) sum += x; bool ok = o.asg.size() == n && sum == (long long)n; for (unsigned a : o.asg) ok &= a < o.cnt.size() && o.cnt[a] > 0;
            if (!ok) h().viol("values/shape", "no clustering: " + o.str()); }
        });
    }
}
int main(int argc, char** argv) {
    h().init(argc, argv); bool th = h().thorough;
    if (h().mode.back() == '!') { odd_values(h().mode.substr(0, h().mode.size() - 1), th); return h().finish(); }
    const std::string eng = h().mode;
    const bool dist = eng == "dist" || eng == "distp", omp = eng == "omp" || eng == "ompp", hier = eng == "hc" || eng == "xm" || eng == "gm", mb = eng == "mb";
    { std::string w; exec([&]() { Cfg c; c.eng = eng == "mb" ? "kmp" : eng; c.cen = {0, 1}; Data D = mk(3, 1, {0, 1, 2}); life(c, D, "run", w); }); } // first use of the libraries
    struct Sh { size_t n, d; int hi; }; std::vector<Sh> shapes = {{1, 1, 1}, {2, 1, 1}, {3, 1, 1}, {4, 1, 1}, {5, 1, 1}, {3, 2, 1}, {2, 3, 1}};
    if (th) { shapes.push_back({7, 1, 1}); shapes.push_back({4, 2, 1}); shapes.push_back({4, 1, 2}); shapes.push_back({9, 1, 1}); }
    std::vector<std::string> inits = {"none", "forgy"}; if (!hier && eng != "fcm" && eng != "med" && !mb) { inits.push_back("random"); inits.push_back("kmeanspp"); }
    for (auto& s : shapes) {
        std::vector<Data> ds; tuples((int)(s.n * s.d), 0, s.hi, [&](const std::vector<int>& v) { ds.push_back(mk(s.n, s.d, v)); });
        for (unsigned k : {1u, 2u, 3u, 4u, 8u}) { if ((k > s.n && !hier) || (k == 8 && s.n < 4) || (hier && k < 2) || (k > 2 && !th && s.n > 4 && !hier)) continue;
        for (unsigned mi : {1u, 3u}) for (unsigned T : {1u, 2u, 3u, 7u}) for (unsigned nodes : {1u, 2u}) for (auto& init : inits) {
            if (nodes > 1 && T < 2 && !dist) continue; if (dist && !th && (T == 7 || (T == 2 && nodes == 1) || (T == 1 && nodes == 2))) continue; if (omp && nodes > 1) continue;
            std::vector<std::string> srcs = {"ptr", "file", "numa"}; if (omp || dist) srcs = {"ptr"}; if (mb) srcs = {"ptr", "file"};
            std::vector<unsigned> procs = {1}; if (dist) procs = {1, 2, 3};
            for (auto& src : srcs) for (unsigned P : procs) {
                if (!th && init != "none" && (s.n > 3 || T > 2)) continue; if (!th && init != "none" && s.n * k > 6 && mi > 1) continue;
                if (!th && T == 7 && mi > 1) continue;
                Cfg c; c.eng = eng; c.k = k; c.mi = mi; c.T = T; c.nodes = nodes; c.procs = P; c.init = init; c.src = src; c.minsz = 1; c.mb = s.n > 1 ? (unsigned)s.n / 2 : 1;
                for (auto& D : ds) {
                    if (init == "none") { size_t kk = hier ? 2 : k; c.cen.clear(); for (size_t i = 0; i < kk * s.d; i++) c.cen.push_back((i / s.d) % 2 ? 1 : 0.25 * (i / s.d)); }
                    one(c, D, "run");
                    if (&D != &ds[0] && &D != &ds.back()) continue;
                    if (mi == 1 && !omp) one(c, D, "norun");
                    if (mi == 1 && src == "ptr" && !omp && !dist) { Cfg e = c; e.src = "ptrset"; one(e, D, "norun"); one(c, D, "nofile"); one(c, D, "two"); if (init == "none") { Cfg e = c; e.cen.clear(); one(e, D, "run"); } }
                    if (eng == "kmp" && src == "ptr" && init == "kmeanspp") one(c, D, "reinit");
                    if (mi == 1 && src == "ptr" && (hier || eng == "fcm" || eng == "med") && init == "forgy") for (auto bad : {"random", "kmeanspp"}) { Cfg e = c; e.init = bad; one(e, D, "run"); }
                }
            }
        } }
    }
    // larger shapes over data families
    struct W { size_t n, d; unsigned k, T, nodes, P; }; std::vector<W> ws = {{20, 9, 5, 7, 2, 3}, {33, 3, 17, 3, 1, 2}, {13, 33, 4, 2, 2, 5}};
    if (th) { ws.push_back({100, 5, 3, 8, 3, 4}); ws.push_back({64, 16, 33, 5, 1, 2}); ws.push_back({9, 65, 9, 9, 1, 3}); }
    for (auto& w : ws) for (int a = 0; a < 2; a++) for (const char* src : {"ptr", "file", "numa"}) {
        if ((omp || dist) && std::string(src) != "ptr") continue; if (mb && std::string(src) == "numa") continue;
        Data D = family(w.n, w.d, a, 1 + a, a, 11);
        Cfg c; c.eng = eng; c.k = w.k; c.mi = 4; c.T = w.T; c.nodes = omp ? 1 : w.nodes; c.procs = dist ? w.P : 1; c.src = src; c.minsz = 1; c.mb = (unsigned)w.n / 3; c.init = "none"; c.cen = family_start(D, hier ? 2 : w.k, 1);
        one(c, D, "run"); if (eng == "mb") { c.mi = 1; one(c, D, "run"); c.mi = 4; }
        if (!omp) one(c, D, "norun"); if (c.src == "ptr" && !omp && !dist) { one(c, D, "two"); c.src = "ptrset"; one(c, D, "norun"); }
    }
    return h().finish();
}
