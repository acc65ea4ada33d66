// Initialisation: every outcome of the random draws; the state before the first iteration (limit 0) and after it.
#include "engines.hpp"
#include "kmeanspp.hpp"
using namespace vh;
typedef std::vector<std::vector<double>> Tuple;
static Tuple split(const V& c, size_t k, size_t d) { Tuple t; for (size_t a = 0; a < k; a++) t.push_back(V(c.begin() + a * d, c.begin() + (a + 1) * d)); return t; }
static std::string str(const Tuple& t) { std::string s; for (auto& v : t) s += fmt(v); return s; }
static std::map<V, int> rows(const Data& D) { std::map<V, int> m; for (size_t i = 0; i < D.n; i++) m[V(D.row(i), D.row(i) + D.d)]++; return m; }
static double mind(const V& x, const Tuple& t, size_t upto, const std::string& dist) { double b = 1e300; for (size_t a = 0; a < upto; a++) b = std::min(b, rdist(x.data(), t[a].data(), x.size(), dist)); return b; }

struct Stats { std::map<Tuple, double> w; double total = 0; };
static std::string state_ok(const Data& D, const Cfg& c, const Out& o) { // one initial state
    if (o.cen.size() != c.k * D.d || !finite(o.cen)) return "the starting centroids are not k finite vectors";
    Tuple t = split(o.cen, c.k, D.d); auto rs = rows(D);
    if (c.init == "forgy" || c.init == "kmeanspp") for (size_t a = 0; a < c.k; a++) if (!rs.count(t[a])) return "starting centroid " + S(a) + " " + fmt(t[a]) + " is not a row of the data";
    if (c.init == "kmeanspp") for (size_t a = 1; a < c.k; a++) {
        double far = 0; for (auto& r : rs) far = std::max(far, mind(r.first, t, a, c.dist));
        if (far > 1e-9 && !(mind(t[a], t, a, c.dist) > 1e-12)) return "centre " + S(a) + " coincides with an earlier one though rows away from all of them exist: " + str(t);
    }
    if (c.init == "none" && o.cen != c.cen) return "user centroids " + fmt(c.cen) + " became " + fmt(o.cen);
    return "";
}
static std::string dist_ok(const Data& D, const Cfg& c, const Stats& st, int M) { // the states of all draws together
    auto rs = rows(D); std::map<Tuple, double> pre;
    for (auto& p : st.w) for (size_t a = 0; a <= p.first.size(); a++) pre[Tuple(p.first.begin(), p.first.begin() + a)] += p.second;
    for (auto& p : pre) {
        const Tuple& t = p.first; if (t.size() == c.k) continue;
        double Ssum = 0; for (auto& r : rs) Ssum += r.second * (c.init == "kmeanspp" && !t.empty() ? mind(r.first, t, t.size(), c.dist) : 1);
        if (Ssum < 1e-9) continue;
        for (auto& r : rs) {
            double want = r.second * (c.init == "kmeanspp" && !t.empty() ? mind(r.first, t, t.size(), c.dist) : 1) / Ssum;
            Tuple u = t; u.push_back(r.first); auto it = pre.find(u); double got = it == pre.end() ? 0 : it->second / p.second;
            double tol = c.init == "kmeanspp" && !t.empty() ? (r.second + 0.001) / M : 1e-9;
            if (std::fabs(got - want) > tol) return "after " + str(t) + " the row " + fmt(r.first) + " is drawn with probability " + fmt(got) + ", expected " + fmt(want);
        }
    }
    return "";
}
static std::string partition_ok(const Data& D, const Cfg& c, const Stats&, const std::map<U, int>& parts) { // random: every partition equally often
    double tot = std::pow(c.k, D.n);
    if (parts.size() != (size_t)tot) return "only " + S(parts.size()) + " of " + S((size_t)tot) + " partitions are drawn";
    for (auto& p : parts) if (p.second != parts.begin()->second) return "partition " + fmt(p.first) + " is drawn " + S(p.second) + " times, " + fmt(parts.begin()->first) + " " + S(parts.begin()->second) + " times";
    return "";
}
static void one(const Data& D, const Cfg& c0, int M) {
    Cfg c = c0; Stats st; std::map<U, int> parts; bool bad = false;
    auto fail = [&](const std::string& kind, const std::string& e) { h().viol(kind, e); bad = true; return false; };
    V grid; for (int j = 0; j < M; j++) grid.push_back((j + 0.5) / M);
    explore_rng(grid, [&]() {
        Out a, b; c.mi = 0; if (!run_ok(c, D, a, "init")) { bad = true; return false; }
        std::string e;
        if (c.init == "random") { // the reported partition when the engine reports one, else any partition explaining the means
            bool rep = true; for (unsigned x : a.asg) rep &= x < c.k;
            if (!rep || a.asg.size() != D.n) return fail("init", "random initialisation leaves rows without a cluster");
            V m(c.k * D.d, 0); U n(c.k, 0); for (size_t i = 0; i < D.n; i++) { n[a.asg[i]]++; for (size_t j = 0; j < D.d; j++) m[a.asg[i] * D.d + j] += D.row(i)[j]; }
            for (size_t q = 0; q < c.k; q++) if (n[q]) for (size_t j = 0; j < D.d; j++) if (!near(a.cen[q * D.d + j], m[q * D.d + j] / n[q])) return fail("init", "starting centroid " + S(q) + " is not the mean of its part: " + a.str());
            parts[a.asg]++;
        } else if (!(e = state_ok(D, c, a)).empty()) return fail("init", e + "; " + a.str());
        st.w[split(a.cen, c.k, D.d)]++; st.total++;
        c.mi = 1; if (!run_ok(c, D, b, "first")) { bad = true; return false; }
        e = consistent(D, b, c.k); if (e.empty()) e = nearest(D, a.cen, c.k, b.asg, c.dist);
        if (!e.empty()) return fail("first", "from " + fmt(a.cen) + ": " + e + "; " + b.str());
        return true;
    });
    if (bad || h().capped || h().have_sched) return;
    std::string e; if (c.init == "random") e = partition_ok(D, c, st, parts); else if (c.init != "none") e = dist_ok(D, c, st, M);
    if (!e.empty()) h().viol("distribution", e);
    if (st.w.size() > 1 || parts.size() > 1) h().count("nontrivial");
}
// a coordinator re-initialised after 0.. iterations holds a legal initial state, as a fresh one does
static void reinit(const Data& D, const Cfg& c, unsigned mi, int M, unsigned again) {
    V grid; for (int j = 0; j < M; j++) grid.push_back((j + 0.5) / M);
    std::map<Tuple, std::map<Tuple, double>> joint; std::map<Tuple, double> w0, w1; double total = 0; bool bad = false;
    explore_rng(grid, [&]() {
        std::string e;
        bool ok = exec_ok("reinit", [&]() {
            using namespace knor; V copy = D.x;
            auto p = std::static_pointer_cast<prune::kmeans_task_coordinator>(prune::kmeans_task_coordinator::create("", D.n, D.d, c.k, mi, 1, c.T, nullptr, c.init, -1, c.dist));
            Tuple was = split(take(p->run(copy.data())).cen, c.k, D.d);
            for (unsigned r = 0; r < again && e.empty(); r++) {
                p->reinit(); Out o = take(p->dump_state());
                if (r + 1 == again) { Tuple now = split(o.cen, c.k, D.d); joint[was][now]++; w0[was]++; w1[now]++; total++; } was = split(o.cen, c.k, D.d);
                e = c.init == "random" ? "" : state_ok(D, c, o);
                if (c.init == "kmeanspp") {
                    if (e.empty()) e = nearest(D, o.cen, c.k, o.asg, c.dist);
                    double en = 0; for (size_t i = 0; i < D.n; i++) en += mind(V(D.row(i), D.row(i) + D.d), split(o.cen, c.k, D.d), c.k, c.dist);
                    if (e.empty() && !near(en, p->compute_cluster_energy())) e = "energy " + fmt(p->compute_cluster_energy()) + ", the rows are " + fmt(en) + " from their centres";
                    p->tally_assignment_counts(); o = take(p->dump_state()); std::vector<long long> n(c.k, 0); for (unsigned a : o.asg) n[a < c.k ? a : 0]++;
                    if (e.empty() && n != o.cnt) e = "the tallied sizes do not match the assignments";
                }
                if (c.init == "random") for (unsigned a : o.asg) if (a >= c.k) e = "a row is in no part";
                if (!e.empty()) e = "re-initialisation " + S(r + 1) + ": " + e + "; " + o.str();
            }
        });
        if (ok && !e.empty()) h().viol("reinit", e);
        h().count("nontrivial"); bad |= !(ok && e.empty());
        return ok && e.empty();
    });
    if (bad || c.init != "kmeanspp" || mi || h().capped || h().have_sched) return;
    for (auto& a : w0) for (auto& b : w1) { // successive k-means++ starts are independent
        double got = joint[a.first][b.first] / total, want = a.second / total * b.second / total;
        if (std::fabs(got - want) > 1e-9) { h().viol("independence", "starting from " + str(a.first) + " and then from " + str(b.first) + " has probability " + fmt(got) + ", expected " + fmt(want)); return; }
    }
}
// binding/kmeanspp.hpp: the best of several starts
static void best(const Data& D, const Cfg& c, unsigned nstart, int M) {
    V grid; for (int j = 0; j < M; j++) grid.push_back((j + 0.5) / M);
    std::map<std::vector<int>, double> single; // draws of a start -> energy, from the first starts seen
    explore_rng(grid, [&]() {
        std::string e, fn = c.src == "file" ? data_file(D) : ""; std::pair<std::pair<unsigned, double>, knor::base::cluster_t> r; V copy = D.x;
        bool ok = exec_ok("kmeanspp", [&]() { vrt::set_numa_nodes(c.nodes);
            r = fn.empty() ? knor::base::kmeansPP(copy.data(), D.n, D.d, c.k, nstart, c.T, c.dist) : knor::base::kmeansPP(fn, D.n, D.d, c.k, nstart, c.T, c.dist); });
        if (!fn.empty()) unlink(fn.c_str());
        if (!ok) return false;
        Out o = take(r.second); Cfg q = c; q.init = "kmeanspp"; e = state_ok(D, q, o);
        if (e.empty()) { // counts and assignments of the clustering returned
            std::vector<long long> n(c.k, 0); for (unsigned a : o.asg) if (a < c.k) n[a]++; else e = "a row has no cluster";
            if (e.empty() && n != o.cnt) e = "sizes " + fmt(o.cnt) + " do not match the assignments " + fmt(o.asg);
            if (e.empty()) e = nearest(D, o.cen, c.k, o.asg, c.dist);
        }
        double en = 0; for (size_t i = 0; i < D.n; i++) en += mind(V(D.row(i), D.row(i) + D.d), split(o.cen, c.k, D.d), c.k, c.dist);
        if (e.empty() && !near(en, r.first.second)) e = "reports energy " + fmt(r.first.second) + " for a clustering of energy " + fmt(en);
        // replay each start alone through the same draws
        double be = 1e300; unsigned bi = 0;
        if (e.empty()) {
            std::vector<double> ens;
            ok = exec_ok("kmeanspp", [&]() {
                auto p = std::static_pointer_cast<knor::prune::kmeans_task_coordinator>(knor::prune::kmeans_task_coordinator::create("", D.n, D.d, c.k, 0, 1, c.T, nullptr, "kmeanspp", -1, c.dist));
                V cc = D.x; for (unsigned s = 0; s < nstart; s++) { if (s) p->reinit(); else p->run(cc.data()); Out x = take(p->dump_state()); double y = 0; for (size_t i = 0; i < D.n; i++) y += mind(V(D.row(i), D.row(i) + D.d), split(x.cen, c.k, D.d), c.k, c.dist); ens.push_back(y); } });
            for (unsigned s = 0; s < ens.size(); s++) if (ens[s] < be - 1e-9) { be = ens[s]; bi = s + 1; }
            if (!near(be, r.first.second)) e = "returns energy " + fmt(r.first.second) + " though a start has " + fmt(be) + " (" + fmt(ens) + ")";
            else if (r.first.first < 1 || r.first.first > nstart || !near(ens[r.first.first - 1], be)) e = "reports start " + S(r.first.first) + " as the best of energies " + fmt(ens);
        }
        if (ok && !e.empty()) h().viol("kmeanspp", e + "; " + o.str());
        h().count("nontrivial");
        return ok && e.empty();
    });
}
int main(int argc, char** argv) {
    h().init(argc, argv); std::string eng = h().mode; bool th = h().thorough, omp = eng[0] == 'o', dist = eng[0] == 'd', sk = eng == "sk";
    static const double val[] = {0, 1, 3, 7, 8};
    auto data = [&](size_t n, size_t d, int vals, std::function<void(const Data&)> f) {
        tuples(n * d, 0, vals - 1, [&](const std::vector<int>& v) {
            Data D = mk(n, d, v); for (double& x : D.x) x = val[(int)x];
            if (sk) { // already normalised data without zero rows
                for (double& x : D.x) x = x == 0 ? 0 : x == 1 ? 1 : 0.25;
                for (size_t j = 0; j < d; j++) { double lo = 9, hi = -9; for (size_t i = 0; i < n; i++) { lo = std::min(lo, D.row(i)[j]); hi = std::max(hi, D.row(i)[j]); } if (lo != 0 || hi != 1) return; }
                for (size_t i = 0; i < n; i++) { double s = 0; for (size_t j = 0; j < d; j++) s += D.row(i)[j]; if (s == 0) return; }
            }
            f(D);
        });
    };
    std::vector<Cfg> cfs; for (int q = 0; q < 2; q++) { Cfg c; c.eng = eng; c.T = omp || !dist ? 1 + 2 * q : 1 + q; if (dist) { c.src = "file"; c.procs = 2 + q; } cfs.push_back(c); }
    if (eng == "reinit" || eng == "best") {
        for (size_t n = 2; n <= (th ? 4u : 3u); n++) data(n, 1, n == 4 ? 3 : 4, [&](const Data& D) { for (unsigned k = 1; k <= 2; k++) for (unsigned T = 1; T <= 2; T++) for (const char* dd : {"eucl", "taxi"}) {
            Cfg c; c.k = k; c.T = T; c.dist = dd;
            if (eng == "best") { if (!th && c.dist != "eucl") continue; for (const char* src : {"ptr", "file"}) for (unsigned s = 1; s <= (th && k == 1 ? 3u : 2u); s++) { c.src = src; c.nodes = T; if (h().next([&]() { return "starts=" + S(s) + " " + c.str() + " data=" + dspec(D); })) best(D, c, s, th ? 4 : 3); } }
            else for (const char* in : {"forgy", "random", "kmeanspp"}) for (unsigned mi : {0u, 1u, 3u}) { c.init = in; c.mi = mi; if (h().next([&]() { return c.str() + " data=" + dspec(D); })) reinit(D, c, mi, 4, k == 1 ? 2 : 1); }
        } });
        return h().finish();
    }
    auto go = [&](size_t n, size_t d, int vals, std::vector<unsigned> ks, const char* init, int M, std::vector<std::string> dists) {
        data(n, d, vals, [&](const Data& D) { for (unsigned k : ks) for (auto& dd : dists) for (auto c : cfs) {
            if (omp && (k < 2 || k > n)) continue;
            c.k = k; c.init = init; c.dist = sk ? "cos" : dd;
            if (std::string(init) == "none") for (unsigned a = 0; a < k * d; a++) c.cen.push_back(0.5 * a - 0.75);
            if (h().next([&]() { return c.str() + " M=" + S(M) + " data=" + dspec(D); })) one(D, c, M);
        } });
    };
    std::vector<std::string> eu = {"eucl"}, two = omp ? std::vector<std::string>{"eucl", "cos"} : std::vector<std::string>{"eucl", "taxi"};
    size_t d1 = sk ? 2 : 1;
    go(3, d1, 3, {1, 2, 3}, "forgy", 2, eu); go(4, d1, sk ? 3 : 4, {2, 3}, "forgy", 2, eu);
    go(3, d1, 3, {1, 2, 3}, "random", 2, eu); go(4, d1, 3, {2}, "random", 2, eu);
    go(3, d1, 3, {1, 2, 3}, "none", 2, two); go(2, 2, 3, {1, 2}, "none", 2, two);
    go(3, d1, 4, {1, 2}, "kmeanspp", 16, eu); go(3, d1, 3, {3}, "kmeanspp", 8, eu);
    if (!sk) { go(2, 2, 3, {1, 2}, "kmeanspp", 8, two); go(3, 2, 2, {2}, "kmeanspp", 10, two); }
    // larger shapes over data families
    auto wide = [&](size_t n, size_t d, unsigned k, const char* init, int M, std::vector<std::string> dists) {
        for (int a = 0; a < (th ? 3 : 2); a++) for (int b = 0; b < (th ? 3 : 1); b++) {
            Data D = family(n, d, a, b, a + 1, sk ? 2 : 11);
            bool ok = true; if (sk) {
                for (size_t j = 0; j < d; j++) { double lo = 9, hi = -9; for (size_t i = 0; i < n; i++) { lo = std::min(lo, D.row(i)[j]); hi = std::max(hi, D.row(i)[j]); } ok &= lo == 0 && hi == 1; }
                for (size_t i = 0; i < n; i++) { double s = 0; for (size_t j = 0; j < d; j++) s += D.row(i)[j]; if (s == 0) D.x[i * d] = 1; }
            }
            if (!ok) continue;
            for (auto& dd : dists) for (auto c : cfs) {
                c.k = k; c.init = init; c.dist = sk ? "cos" : dd; if (std::string(init) == "none") c.cen = family_start(D, k, 2);
                if (h().next([&]() { return c.str() + " M=" + S(M) + " data=" + dspec(D); })) one(D, c, M);
            }
        }
    };
    wide(6, 7, 3, "forgy", 2, two); wide(9, 3, 2, "forgy", 2, eu); wide(6, 5, 3, "random", 2, two); wide(9, 2, 2, "random", 2, eu); wide(40, 9, 7, "none", 2, two); wide(7, 33, 2, "none", 2, two);
    if (!sk) { wide(6, 9, 2, "kmeanspp", 12, two); wide(5, 4, 3, "kmeanspp", 8, eu); } else wide(6, 9, 2, "kmeanspp", 12, eu);
    if (th) { wide(6, 7, 4, "forgy", 2, two); wide(12, 5, 3, "forgy", 2, eu); wide(12, 2, 2, "random", 2, eu); if (!sk) { wide(9, 9, 2, "kmeanspp", 20, two); wide(6, 4, 3, "kmeanspp", 12, eu); } }
    if (th) { go(4, d1, 4, {2}, "kmeanspp", 24, eu); if (!sk) { go(4, d1, 3, {3}, "kmeanspp", 10, eu); go(5, d1, 3, {2}, "kmeanspp", 16, eu); } go(5, d1, 3, {2, 3}, "forgy", 2, eu); go(5, d1, 3, {2}, "random", 2, eu); go(3, 2, 3, {2}, "kmeanspp", 16, two); }
    return h().finish();
}
