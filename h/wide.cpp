// Sizes beyond 32 bits: data of more than 2^32 values, nearly all of them zero pages that are mapped but never stored. The
// rows that differ lie where a product of a row and a number of columns computed in 32 bits (or a signed int) would look for others.
#include "engines.hpp"
#include "task_queue.hpp"
#include "kmeans_thread.hpp"
#include <sys/mman.h>
#include <fcntl.h>
using namespace vh;
struct Wide { // n x d zeros and a few values
    size_t n, d; double* p = nullptr; size_t len; std::map<size_t, V> rows;
    Wide(size_t n_, size_t d_) : n(n_), d(d_), len((n_ * d_ * 8 + (4u << 20)) & ~((2ul << 20) - 1)) {
        void* q = mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (q == MAP_FAILED) return;
        madvise(q, len, MADV_HUGEPAGE); p = (double*)q;
    }
    void set(size_t i, size_t j, double v) { V& r = rows[i]; r.resize(d, 0); r[j] = v; p[i * d + j] = v; }
    ~Wide() { if (p) munmap(p, len); }
};
static void plant(Wide& w, size_t edge) { // the rows from `edge' on lie beyond 2^32
    w.set(0, 3, 1); w.set(1, w.d - 1, 2); w.set(100, 0, 40); w.set(w.n / 2, 0, 44); w.set(w.n / 2 - 1, 5, 2);
    w.set(edge, 0, 41); w.set(edge - 1, 2, 1); w.set(w.n - 1, 0, 45); w.set(w.n - 1, 7, 3);
}
static Out wide_run(const Cfg& c, Wide& w) {
    using namespace knor; Data D; D.n = w.n; D.d = w.d; vrt::set_numa_nodes(c.nodes); vrt::set_omp_max_threads(c.T);
    if (c.eng == "omp" || c.eng == "ompp") {
        V cc = c.cen; U asg(w.n, 12345); std::vector<llong_t> cnt(c.k, 77); auto f = c.eng == "omp" ? omp::compute_kmeans : omp::compute_min_kmeans;
        return take(f(w.p, cc.data(), asg.data(), cnt.data(), w.n, w.d, c.k, c.mi, (int)c.T, c.init, c.tol, c.dist));
    }
    coordinator::ptr p = make_engine(c, D, "");
    if (c.eng == "mb") { auto t = std::static_pointer_cast<prune::kmeans_task_coordinator>(p); t->set_mini_batch_size(c.mb); return take(t->mb_run(w.p)); }
    return take(p->run(w.p));
}
static std::string brief(const Cfg& c) { Cfg q = c; q.cen.clear(); return q.str(); }
static size_t g_sampled = ~0ul; // the only draw that samples a row
static void engine(const std::string& eng, bool th) {
    // one thread: its rows lie beyond 2^32; 40 threads: the last one starts beyond it
    struct Sh { size_t n, d; unsigned T; size_t edge; }; std::vector<Sh> shs = {{65539, 65537, 1, 65537}, {67320, 65537, 40, 65638}};
    if (th) { shs.push_back({65539, 65537, 2, 65537}); shs.push_back({41, 104900001, 1, 40}); }
    for (auto& s : shs) for (unsigned mi : {1u, 2u}) {
        if (mi > 1 && (!th || s.n < 1000 || (eng != "km" && eng != "kmp" && eng[0] != 'o'))) continue;
        if (s.n < 1000 && eng != "km" && eng != "kmp" && eng[0] != 'o') continue;
        const bool hier = eng == "hc" || eng == "xm" || eng == "gm";
        Cfg c; c.eng = eng; c.k = 2; c.T = s.T; c.mi = mi; c.mb = (unsigned)s.n; c.rate = 0.1; g_sampled = s.T == 1 ? s.edge : ~0ul; c.minsz = 1; c.tol = -1;
        if (!h().next([&]() { return "wide " + brief(c) + " n=" + S(s.n) + " d=" + S(s.d); })) continue;
        Wide w(s.n, s.d); if (!w.p) { h().count("no_room"); h().capped = true; continue; }
        if (s.n > 1000) plant(w, s.edge); else { w.set(0, 3, 1); w.set(1, s.d - 1, 2); w.set(5, 0, 40); w.set(s.edge, 0, 41); w.set(s.n - 1, 0, 45); w.set(s.n - 2, 7, 2); }
        c.cen.assign(2 * s.d, 0); c.cen[s.d] = 40; if (eng == "fcm") c.cen[1] = 0.25; // no row lies on a centre of the first cluster
        Out o; std::string bad; RunOut r = exec([&]() { o = wide_run(c, w); });
        if (!r.ok()) { h().viol("wide/" + std::string(vrt::end_name(r.end)), r.detail); continue; }
        h().count("nontrivial"); h().count("rows", s.n);
        // the far rows are those with a large first value
        std::vector<long long> cnt(2); std::map<size_t, double> sum[2]; U want(s.n, 0);
        for (auto& q : w.rows) { const bool far = q.second[0] > 20; if (far) want[q.first] = 1; for (size_t j = 0; j < s.d; j++) if (q.second[j] != 0) sum[far][j] += q.second[j]; }
        for (unsigned a : want) cnt[a]++;
        if (o.asg.size() != s.n) { h().viol("wide/shape", S(o.asg.size()) + " assignments"); continue; }
        unsigned c0 = o.asg[2], c1 = o.asg[s.n > 1000 ? 100 : 5]; // the names of the two clusters
        if (!hier && (c0 != 0 || c1 != 1)) { h().viol("wide/assignment", "the first rows are in clusters " + S(c0) + " and " + S(c1)); continue; }
        for (size_t i = 0; i < s.n; i++) if (o.asg[i] != (want[i] ? c1 : c0) || c0 == c1) { h().viol("wide/assignment", "row " + S(i) + " is in cluster " + S(o.asg[i])); break; }
        auto mean = [&](unsigned k, size_t j) { auto it = sum[k].find(j); return it == sum[k].end() ? 0 : it->second / cnt[k]; };
        if (hier) for (unsigned k = 0; k < 2; k++) { // in whatever order
            bool found = false; for (size_t q = 0; q < o.cen.size() / s.d && !found; q++) { found = true; for (size_t j = 0; j < s.d && found; j++) found = near(o.cen[q * s.d + j], mean(k, j), 1e-12); }
            if (!found) h().viol("wide/centroid", "no centroid is the mean of the rows of cluster " + S(k ? c1 : c0));
        }
        if (hier || eng == "fcm") continue;
        for (unsigned k = 0; k < 2; k++) if (k >= o.cnt.size() || o.cnt[k] != cnt[k]) { h().viol("wide/size", "cluster " + S(k) + " has " + S(o.cnt.at(k)) + " rows, expected " + S(cnt[k])); break; }
        if (eng == "med" && s.T == 1) for (size_t j = 0; j < s.d; j++) if (o.cen.size() != 2 * s.d || o.cen[s.d + j] != w.rows[s.edge][j]) { h().viol("wide/medoid", "value " + S(j) + " of the second medoid is not that of row " + S(s.edge)); break; }
        if (eng == "med" || eng == "mb" || o.cen.size() != 2 * s.d) { if (o.cen.size() != 2 * s.d) h().viol("wide/shape", S(o.cen.size()) + " values of centroids"); continue; }
        for (unsigned k = 0; k < 2; k++) for (size_t j = 0; j < s.d; j++) { double m = mean(k, j); if (!near(o.cen[k * s.d + j], m, 1e-12)) { h().viol("wide/centroid", "value " + S(j) + " of centroid " + S(k) + " is " + fmt(o.cen[k * s.d + j]) + ", the mean is " + fmt(m)); j = s.d; k = 2; } }
    }
}
// A queue whose rows span more than 2^32 values: only addresses are computed
static void queue(bool th) {
    using knor::task; using knor::task_queue;
    for (unsigned ncol : {1u, 2u, 1000u, 65537u, 1u << 20, 1u << 30}) for (unsigned n : {1u, 2u, 8192u, 8193u, 8194u, 65536u, 70000u, 3000000u, 1u << 31, 4000000000u}) for (unsigned start : {0u, 5u, 1u << 31, 4000000000u}) {
        if ((unsigned __int128)n * ncol > (1ull << 43) || (size_t)start + n > 0xffffffffull || (!th && n > 3000000u && start)) continue;
        if (!h().next([&]() { return "queue n=" + S(n) + " ncol=" + S(ncol) + " start=" + S(start); })) continue;
        const double* base = (const double*)(1ul << 40); std::string e; size_t next = 0;
        exec_ok("queue", [&]() {
            task_queue q((double*)base, start, n, ncol);
            while (q.has_task() && e.empty()) {
                task* t = q.get_task();
                if (t->get_nrow() == 0 || next + t->get_nrow() > n) e = "a unit of " + S(t->get_nrow()) + " rows with " + S(n - next) + " left";
                else if (t->get_start_rid() != (unsigned)(start + next)) e = "unit starts at row " + S(t->get_start_rid()) + ", expected " + S(start + next);
                else if (t->get_data_ptr() != base + next * ncol) e = "unit starting at row " + S(next) + " points at value " + S((long)(t->get_data_ptr() - base)) + ", expected " + S(next * ncol);
                next += t->get_nrow(); delete t; h().count("ops");
            }
        });
        if (e.empty() && next != n) e = "the units have " + S(next) + " of " + S(n) + " rows";
        if (!e.empty()) h().viol("queue", e);
        if ((size_t)n * ncol > 0xffffffffull) h().count("nontrivial");
    }
}
// Sparse files of more than 2^32 bytes and values: a thread reads its rows, readers seek and read rows
static void file(bool) {
    using namespace knor; std::string fn = h().scratch + "/wide." + S(getpid()) + ".bin";
    struct Sh { size_t n, d; }; 
    for (Sh s : {Sh{3000, 200000}, Sh{5000000, 130}, Sh{65539, 65537}, Sh{70000, 65536}, Sh{600000000, 8}, Sh{1100000000, 4}, Sh{4000000000ul, 2}}) {
        std::vector<size_t> rows = {0, 1, s.n / 2, s.n - 2, s.n - 1}; for (size_t b : {1ul << 28, 1ul << 29, 1ul << 31, 1ul << 32}) for (long o : {-1, 0, 1}) if (b / s.d + o < s.n) rows.push_back(b / s.d + o);
        if (!h().next([&]() { return "file " + S(s.n) + "x" + S(s.d); })) continue;
        int fd = open(fn.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); if (fd < 0) { perror("scratch"); _exit(70); }
        if (ftruncate(fd, (off_t)(s.n * s.d * 8)) != 0) { close(fd); h().count("no_room"); h().capped = true; continue; }
        auto val = [&](size_t r, size_t j) { return r % 1000 + 1 + (j == s.d - 1 ? 0.5 : 0); };
        for (size_t r : rows) for (size_t j : {(size_t)0, s.d - 1}) { double v = val(r, j); if (pwrite(fd, &v, 8, (off_t)((r * s.d + j) * 8)) != 8) { perror("scratch"); _exit(70); } }
        close(fd); std::string e;
        for (size_t r : rows) {
            exec_ok("reader", [&]() {
                base::bin_rm_reader<double> br(fn); br.set_ncol(s.d); br.seek(r * s.d * 8); V v(s.d);
                if (!br.readline(v) || v[0] != val(r, 0) || v[s.d - 1] != val(r, s.d - 1)) e = "row " + S(r) + " read after a seek starts with " + fmt(v[0]);
            });
            exec_ok("thread", [&]() {
                vrt::set_numa_nodes(1); U asg(1); auto g = base::clusters::create(1, (unsigned)s.d);
                auto t = kmeans_thread::create(0, 0, (unsigned)r, 1, (unsigned)s.d, g, asg.data(), fn, base::dist_t::EUCL);
                std::atomic<unsigned> pend(1); pthread_mutex_t pm; pthread_cond_t pc; pthread_mutex_init(&pm, nullptr); pthread_cond_init(&pc, nullptr); t->set_parent_mutex(&pm); t->set_parent_cond(&pc); t->set_parent_pending_threads(&pend);
                t->start(ALLOC_DATA); pthread_mutex_lock(&pm); while (pend.load()) pthread_cond_wait(&pc, &pm); pthread_mutex_unlock(&pm);
                const double* v = t->get_local_data(); if (v[0] != val(r, 0) || v[s.d - 1] != val(r, s.d - 1)) e = "a thread whose rows start at " + S(r) + " read a row that starts with " + fmt(v[0]);
                t->wake(EXIT); t->join(); t->destroy_numa_mem(); pthread_cond_destroy(&pc); pthread_mutex_destroy(&pm);
            });
            h().count("nontrivial");
            if (!e.empty()) { h().viol("wide/file", e); break; }
        }
        unlink(fn.c_str());
    }
}
int main(int argc, char** argv) {
    h().init(argc, argv); const std::string m = h().mode; bool th = h().thorough; H::patience() = 300; vrand_real = [](unsigned long, unsigned long) { return 0.5; };
    if (m == "med") vrand_real = [](unsigned long, unsigned long i) { return i == g_sampled ? 0.0 : 0.5; };
    if (m == "queue") queue(th); else if (m == "file") file(th); else engine(m, th);
    return h().finish();
}
