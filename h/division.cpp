// Work division: units of a queue, rows of a thread or process, rows processed in a round.
#include "engines.hpp"
#include "task_queue.hpp"
using namespace vh;
using knor::task; using knor::task_queue;

// ---- the queue as an abstract type: a cursor over the rows
struct QModel { unsigned start, n, ncol, next; const double* data; };
static std::string take(task_queue& q, QModel& m) {
    bool left = m.next < m.n;
    if (q.has_task() != left) return std::string("has_task() is ") + (left ? "false" : "true") + " with " + S(m.n - m.next) + " rows left";
    task* t = q.get_task(); std::string e;
    if (!left) { if (t->get_nrow() != 0) e = "a unit of " + S(t->get_nrow()) + " rows from an exhausted queue"; }
    else if (t->get_nrow() == 0 || t->get_nrow() > m.n - m.next) e = "a unit of " + S(t->get_nrow()) + " rows with " + S(m.n - m.next) + " left";
    else if (t->get_start_rid() != m.start + m.next) e = "unit starts at row " + S(t->get_start_rid()) + ", expected " + S(m.start + m.next);
    else if (t->get_data_ptr() != m.data + (size_t)m.next * m.ncol) e = "unit starting at row " + S(m.next) + " points at element " + S((long)(t->get_data_ptr() - m.data));
    else m.next += t->get_nrow();
    delete t; return e;
}
static void queue_ops(unsigned maxn, int depth) { // every sequence of {take, reset}
    static std::vector<double> buf(64);
    for (unsigned ctor = 0; ctor < 2; ctor++) for (unsigned n = 0; n <= maxn; n++) for (unsigned ncol : {1u, 2u, 3u}) for (unsigned start : {0u, 5u}) {
        if (!h().next([&]() { return "ops ctor=" + S(ctor) + " n=" + S(n) + " ncol=" + S(ncol) + " start=" + S(start) + " depth=" + S(depth); })) continue;
        bool bad = false;
        tuples(depth, 0, 1, [&](const std::vector<int>& ops) {
            if (bad) return;
            std::string e, hist;
            exec_ok("queue", [&]() {
                task_queue* q = ctor ? new task_queue(buf.data(), start, n, ncol) : new task_queue();
                if (!ctor) { q->set_data_ptr(buf.data()); q->set_start_rid(start); q->set_nrow(n); q->set_ncol(ncol); q->reset(); }
                QModel m{start, n, ncol, 0, buf.data()};
                for (int o : ops) {
                    hist += o ? " reset" : " take";
                    if (o) { q->reset(); m.next = 0; } else e = take(*q, m);
                    if (e.empty() && q->has_task() != (m.next < m.n)) e = "has_task() is wrong with " + S(m.n - m.next) + " rows left";
                    h().count("ops"); if (!e.empty()) break;
                }
                delete q;
            });
            if (!e.empty()) { h().viol("queue", "after" + hist + ": " + e); bad = true; }
        });
        if (n) h().count("nontrivial");
    }
}
static void queue_drain(const std::vector<unsigned>& ns) {
    for (unsigned n : ns) for (unsigned ncol : {1u, 2u, 5u}) for (unsigned start : {0u, 3u}) {
        if (!h().next([&]() { return "drain n=" + S(n) + " ncol=" + S(ncol) + " start=" + S(start); })) continue;
        std::vector<double> buf((size_t)n * ncol + 1); std::string e; unsigned units = 0;
        exec_ok("queue", [&]() {
            task_queue q(buf.data(), start, n, ncol);
            for (int round = 0; round < 3 && e.empty(); round++) { // round 1 stops half-way
                if (round) q.reset();
                QModel m{start, n, ncol, 0, buf.data()};
                while (m.next < (round == 1 ? n / 2 : n) && e.empty()) { e = take(q, m); units++; h().count("ops"); }
                if (e.empty() && round != 1 && q.has_task()) e = "has_task() after the last row";
            }
        });
        if (!e.empty()) h().viol("queue", e);
        if (units > 3) h().count("nontrivial");
    }
}

// ---- the rows of each thread
template <class C> static std::string rows_of(C& co, const Data& D, bool look) {
    auto& ts = co.get_threads(); size_t next = 0;
    for (size_t t = 0; t < ts.size(); t++) {
        if (ts[t]->get_start_rid() != next) return "thread " + S(t) + " starts at row " + S(ts[t]->get_start_rid()) + " but the rows before it end at " + S(next);
        size_t len = ts[t]->get_data_size() / (8 * D.d);
        if (ts[t]->get_data_size() % (8 * D.d)) return "thread " + S(t) + " has a fraction of a row";
        if (ts.size() <= D.n && len == 0) return "thread " + S(t) + " of " + S(ts.size()) + " has no rows";
        for (size_t i = 0; i < len; i++) for (size_t j = 0; j < D.d; j++) if (look && ts[t]->get_local_data()[i * D.d + j] != D.row(next + i)[j]) return "thread " + S(t) + " row " + S(i) + " is not row " + S(next + i) + " of the data";
        next += len;
    }
    if (next != D.n) return "the threads have " + S(next) + " rows of " + S(D.n);
    for (size_t i = 0; look && i < D.n; i++) for (size_t j = 0; j < D.d; j++) if (co.get_thd_data(i)[j] != D.row(i)[j]) return "get_thd_data(" + S(i) + ") is not row " + S(i);
    return "";
}
static Data powers(size_t n, size_t extra = 0) { // column c holds 2^(i%16) for the rows 16c..16c+15, so that sums identify multisets of rows
    Data D; D.n = n; D.d = (n + 15) / 16 + extra; if (!D.d) D.d = 1; D.x.assign(n * D.d, 0);
    for (size_t i = 0; i < n; i++) { D.x[i * D.d + i / 16] = 1u << (i % 16); for (size_t e = 0; e < extra; e++) D.x[i * D.d + D.d - 1 - e] = (double)i; }
    return D;
}
// one cluster: the centroid after a round is the mean of the rows processed in it, its size their number
static std::string once(const Data& D, const Out& o, size_t k = 1) {
    if (o.asg.size() != D.n) return "wrong number of assignments";
    long long tot = 0; for (auto c : o.cnt) tot += c;
    if (tot != (long long)D.n) return "the sizes sum to " + S(tot) + " for " + S(D.n) + " rows";
    for (size_t i = 0; i < D.n; i++) if (o.asg[i] >= k) return "row " + S(i) + " was not processed";
    for (size_t j = 0; j < D.d && k == 1; j++) { double s = 0; for (size_t i = 0; i < D.n; i++) s += D.row(i)[j]; if (!near(o.cen[j] * D.n, s, 1e-12)) return "column " + S(j) + " of the rows processed sums to " + fmt(o.cen[j] * D.n) + ", all rows to " + fmt(s); }
    return "";
}
static void partition(const std::string& eng, size_t maxn, unsigned maxT, unsigned maxnodes) {
    bool dist = eng[0] == 'd', omp = eng[0] == 'o';
    for (size_t n = 1; n <= maxn; n++) for (unsigned T = 1; T <= maxT; T++) for (unsigned nd = 1; nd <= maxnodes; nd++) for (const char* src : {"ptr", "file", "numa"}) for (unsigned extra : {0u, 1u}) {
        std::string s = src; if ((dist && s != "file") || (omp && (s != "ptr" || nd > 1)) || (s == "numa" && eng == "mb")) continue;
        if (omp && n < 2) continue;
        Cfg c; c.eng = eng; c.k = omp ? 2 : 1; c.T = T; c.src = s; c.mb = 100000; c.mi = omp ? 1 : 2; c.nodes = nd; if (dist) { c.nodes = 1; c.procs = nd; }
        if (!h().next([&]() { return "rows " + c.str() + " n=" + S(n) + " extra=" + S(extra); })) continue;
        Data D = powers(n, extra); c.cen.assign(c.k * D.d, 0); if (omp) for (size_t j = 0; j < D.d; j++) c.cen[D.d + j] = -1e6;
        if (T > 1) h().count("nontrivial");
        if (!dist && !omp) { // look inside
            using namespace knor; std::string e; V copy = D.x; std::string fn = s == "file" ? data_file(D) : "";
            if (!exec_ok("run", [&]() {
                vrt::set_numa_nodes(nd); Out o;
                auto look = [&](coordinator& p, bool mb) {
                    e = rows_of(p, D, false); if (!e.empty()) return;
                    if (s == "numa") { binding::memory_distributor<double>::create(copy.data(), nd, D.n, D.d)->numa_reorg(p.get_threads()); e = rows_of(p, D, true); if (!e.empty()) return; }
                    if (mb) { auto& t = static_cast<prune::kmeans_task_coordinator&>(p); t.set_mini_batch_size(100000); o = vh::take(s == "file" ? t.mb_run() : t.mb_run(copy.data())); }
                    else o = vh::take(s == "file" ? p.run() : s == "numa" ? p.run(nullptr, true) : p.run(copy.data()));
                    e = rows_of(p, D, true); if (e.empty() && !mb) e = once(D, o);
                };
                if (eng == "km") { auto p = kmeans_coordinator::create(fn, D.n, D.d, 1, 2, nd, T, c.cen.data(), "none", -1, "eucl"); look(*p, false); }
                else if (eng == "kmp" || eng == "mb") { auto p = prune::kmeans_task_coordinator::create(fn, D.n, D.d, 1, 2, nd, T, c.cen.data(), "none", -1, "eucl"); look(*p, eng == "mb"); }
                else if (eng == "fcm") { auto p = fcm_coordinator::create(fn, D.n, D.d, 1, 2, nd, T, c.cen.data(), "none", -1, "eucl", 2); look(*p, true == false); }
            })) continue;
            if (!fn.empty()) unlink(fn.c_str());
            if (!e.empty()) h().viol("rows", e);
            continue;
        }
        Out o; if (!run_ok(c, D, o, "run")) continue;
        if (omp) { // every row is nearest to the first cluster
            for (size_t i = 0; i < n; i++) if (o.asg[i]) { h().viol("rows", "row " + S(i) + " in the far cluster"); break; }
            Out q = o; q.cen.resize(D.d); std::string e = once(D, q); if (!e.empty()) h().viol("rows", e);
        } else { std::string e = once(D, o); if (!e.empty()) h().viol("rows", e); }
    }
}
// shipped unit size: rows around multiples of it
static void big(const std::string& eng, bool th) {
    std::vector<size_t> ns; for (size_t b : {8192, 16384, 24576}) for (int r : {-2, -1, 0, 1, 2}) ns.push_back(b + r);
    if (th) for (size_t b : {32768, 40960, 49152}) for (int r = -4; r <= 4; r++) ns.push_back(b + r);
    bool dist = eng[0] == 'd';
    for (size_t n : ns) for (unsigned T : {1u, 2u, 3u}) for (unsigned mi : {1u, 2u}) {
        Cfg c; c.eng = eng; c.k = 1; c.T = T; c.mi = mi; c.cen = {0, 0}; if (dist) { c.procs = 2; c.src = "file"; }
        if (!h().next([&]() { return "shipped " + c.str() + " n=" + S(n); })) continue;
        Data D; D.n = n; D.d = 2; for (size_t i = 0; i < n; i++) { D.x.push_back((double)i); D.x.push_back((double)i * i); }
        Out o; if (!run_ok(c, D, o, "run")) continue;
        std::string e = once(D, o); if (!e.empty()) h().viol("rows", e); h().count("nontrivial");
    }
}
// every schedule of a round over several units
static void schedules(bool th) {
    for (const char* e : {"kmp", "mb", "km"}) for (unsigned n : {3u, 5u, 7u}) for (unsigned T : {2u, 3u}) {
        Cfg c; c.eng = e; c.k = 1; c.T = T; c.mi = 2; c.mb = 100000; Data D = powers(n); c.cen = {0};
        int budget = th ? 3 : 2; if (T == 3) budget--;
        if (!h().next([&]() { return "sched " + c.str() + " n=" + S(n) + " budget=" + S(budget); })) continue;
        Out o; vrt::Options op; op.budget = budget; op.races = true;
        explore([&]() { o = run_engine(c, D); }, op, [&]() { return o.str(); }, [&](const std::string&) { return std::string(e) == "mb" ? std::string() : once(D, o); }, "sched");
        h().count("nontrivial");
    }
}
int main(int argc, char** argv) {
    h().init(argc, argv); std::string m = h().mode; bool th = h().thorough;
    if (m == "queue") { queue_ops(9, th ? 12 : 9); std::vector<unsigned> ns; for (unsigned n = 0; n <= (th ? 600u : 200u); n++) ns.push_back(n); queue_drain(ns); }
    else if (m == "shipped") { std::vector<unsigned> ns; for (unsigned b : {8192, 16384, 24576, 32768}) for (int r = -3; r <= 3; r++) ns.push_back(b + r); queue_drain(ns); for (const char* e : {"km", "kmp", "dist", "distp"}) big(e, th); }
    else if (m == "sched") schedules(th);
    else partition(m, th ? 130 : 70, th ? 20 : 12, m[0] == 'd' ? (th ? 12 : 9) : 3);
    return h().finish();
}
