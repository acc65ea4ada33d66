// The same data, start and parameters give the same clustering whatever the threads, nodes, data source and processes.
#include "engines.hpp"
using namespace vh;
// Some row is (all but) equally near to two centroids at some iteration: the order in which sums are rounded decides
static bool tied(Cfg c, const Data& D) {
    unsigned mi = c.mi; Out o; V prev = c.cen; if (c.eng == "mb" || c.init != "none") { c.mi = 0; if (!run_ok(c, D, o, "run")) return true; prev = o.cen; }
    for (unsigned i = 1; i <= mi; i++) {
        for (size_t r = 0; r < D.n; r++) { double b = 1e300, s = 1e300; for (unsigned a = 0; a < prev.size() / D.d; a++) { double v = rdist(D.row(r), &prev[a * D.d], D.d, c.dist); if (v < b) { s = b; b = v; } else s = std::min(s, v); } if (s - b < 1e-9 * (1 + s)) return true; }
        c.mi = i; if (!run_ok(c, D, o, "run")) return true; prev = o.cen;
    }
    return false;
}
int main(int argc, char** argv) {
    h().init(argc, argv); std::string eng = h().mode; bool th = h().thorough;
    bool dist = eng == "dist" || eng == "distp", omp = eng == "omp" || eng == "ompp";
    bool hier = eng == "hc" || eng == "xm" || eng == "gm";
    std::vector<std::string> inits = {"none", "forgy", "random", "kmeanspp"};
    if (hier || eng == "sk" || eng == "fcm") inits = {"none", "forgy"};
    if (eng == "med") inits = {"forgy"};
    if (eng == "mb") inits = {"none"};
    struct Sh { size_t n, d; int lo, hi; unsigned k; };
    std::vector<Sh> shapes = {{4, 1, 0, 2, 2}, {5, 1, 1, 3, 3}, {3, 2, 0, 1, 2}, {7, 1, 0, 1, 2}, {1, 2, 1, 2, 1}, {2, 1, 0, 3, 2}};
    if (th) { shapes.push_back({6, 1, 0, 2, 3}); shapes.push_back({4, 2, 0, 1, 3}); shapes.push_back({9, 1, 0, 1, 2}); shapes.push_back({5, 1, -2, 2, 2}); }
    std::vector<Cfg> cfs;
    if (dist) { for (unsigned p = 1; p <= (th ? 6u : 4u); p++) for (unsigned T = 1; T <= (th ? 3u : 2u); T++) { Cfg c; c.procs = p; c.T = T; c.src = "file"; c.nodes = 1 + (p + T) % 2; cfs.push_back(c); } }
    else if (omp) { for (unsigned T = 1; T <= 6; T++) { Cfg c; c.T = T; cfs.push_back(c); } }
    else for (unsigned T = 1; T <= (th ? 10u : 6u); T++) for (unsigned nd = 1; nd <= 3; nd++) for (const char* s : {"ptr", "file", "numa"}) { if (std::string(s) == "numa" && eng == "med") continue; /* threads exist only inside run(), or the engine rejects it */ if (nd > T && nd > 1 && !th) continue; if (std::string(s) == "numa" && eng == "mb") continue; Cfg c; c.T = T; c.nodes = nd; c.src = s; cfs.push_back(c); }
    auto all = [&](const Data& D, const Sh& s, const std::string& init, unsigned mi, const std::string& what) {
        Cfg c; c.eng = eng; c.k = s.k; c.mi = mi; c.init = init; c.mb = 1000;
        if (hier) { c.k = std::max(4u, s.k); if (s.n < 2) return; }
        if (omp && s.k == 1) return;
        if (eng == "sk") c.dist = "cos"; if (eng == "med" && !what.empty()) c.dist = "taxi";
        if (init == "none") { unsigned kk = hier ? 2 : c.k; for (unsigned a = 0; a < kk; a++) for (size_t j = 0; j < s.d; j++) c.cen.push_back(a * (s.hi - s.lo + 1) / (double)kk + s.lo + 0.25 * j); }
        if (!h().next([&]() { return c.str() + (what.empty() ? " data=" + dspec(D) : what); })) return;
        Out b; std::string bs; bool many = false;
        for (auto& cf : cfs) {
            Cfg q = c; q.T = cf.T; q.nodes = cf.nodes; q.src = cf.src; q.procs = cf.procs;
            std::string at = "T=" + S(q.T) + " nodes=" + S(q.nodes) + " src=" + q.src + " procs=" + S(q.procs);
            Out o; if (!run_ok(q, D, o, "run")) { h().count("failed at " + at); return; }
            if (!b.valid) { b = o; bs = at; for (unsigned a : b.asg) many |= a != b.asg[0]; if (many) h().count("nontrivial"); continue; }
            bool nanok = b.cen.size() == o.cen.size(); for (size_t i = 0; nanok && i < b.cen.size(); i++) nanok = near(b.cen[i], o.cen[i]) || (std::isnan(b.cen[i]) && std::isnan(o.cen[i]));
            if (eng == "fcm" && o.asg.size() == b.asg.size() && nanok) // equal memberships: rounding decides
                for (size_t i = 0; i < D.n; i++) if (o.asg[i] != b.asg[i] && o.asg[i] < c.k && b.asg[i] < c.k && near(rdist(D.row(i), &b.cen[o.asg[i] * D.d], D.d, c.dist), rdist(D.row(i), &b.cen[b.asg[i] * D.d], D.d, c.dist), 1e-6)) { b.cnt[o.asg[i]]++; b.cnt[b.asg[i]]--; b.asg[i] = o.asg[i]; }
            if (o.asg != b.asg || o.cnt != b.cnt || !nanok || o.iters != b.iters || o.nrow != b.nrow || o.ncol != b.ncol) {
                if (!what.empty() && !hier && eng != "med" && eng != "fcm" && eng != "sk" && q.procs == 1 && b.asg.size() == o.asg.size() && tied(c, D)) { h().count("ties"); return; } h().viol("differs", at + " gives " + o.str() + " but " + bs + " gives " + b.str()); return; }
        }
    };
    for (auto& s : shapes) for (auto& init : inits) for (unsigned mi : {1u, 4u}) tuples(s.n * s.d, s.lo, s.hi, [&](const std::vector<int>& v) { all(mk(s.n, s.d, v), s, init, mi, ""); });
    // larger shapes, with more threads
    auto add = [&](unsigned T, unsigned nodes, const char* src, unsigned procs) { Cfg c; c.T = T; c.nodes = nodes; c.src = src; c.procs = procs; cfs.push_back(c); };
    cfs.clear();
    if (dist) { add(1, 1, "file", 1); add(1, 1, "file", 2); add(2, 2, "file", 3); add(4, 1, "file", 5); add(1, 1, "file", 8); if (th) { add(3, 1, "file", 7); add(1, 1, "file", 16); } }
    else if (omp) for (unsigned T : {1u, 2u, 7u, 16u}) add(T, 1, "ptr", 1);
    else { add(1, 1, "ptr", 1); add(2, 2, "ptr", 1); add(7, 1, "file", 1); add(16, 3, "ptr", 1); if (eng != "med" && eng != "mb") { add(5, 2, "numa", 1); add(12, 4, "numa", 1); } }
    std::vector<Sh> wide = {{33, 9, 0, 10, 5}, {20, 17, 0, 10, 3}, {64, 2, 0, 10, 8}, {48, 1, 0, 10, 4}}; if (th) { wide.push_back({97, 5, 0, 10, 16}); wide.push_back({31, 33, 0, 10, 2}); wide.push_back({128, 3, 0, 10, 7}); }
    for (auto& s : wide) for (auto& init : inits) for (unsigned mi : {2u, 25u}) for (int p : {11, 101}) for (int a = 0; a < (th ? 4 : 2); a++) for (int b = 0; b < (th ? 3 : 2); b++) for (int cc = 0; cc < 2; cc++) {
        if ((eng == "dist" || eng == "distp") && !th && (b || mi > 2)) continue;
        Data D = family(s.n, s.d, a, b, cc, eng == "sk" ? p == 11 ? 9 : 65 : p);
        if (eng == "sk") for (size_t j = 0; j < s.d; j++) { D.x[j] = j % 2 ? D.x[j] * 0 : (p == 11 ? 8 : 64); D.x[s.d + j] = j % 2 ? (p == 11 ? 8 : 64) : 0; } // scaling is exact
        all(D, s, init, mi, " family n=" + S(s.n) + " d=" + S(s.d) + " a=" + S(a) + " b=" + S(b) + " c=" + S(cc) + " p=" + S(p));
    }
    if (dist) add(3, 2, "file", 13); else if (omp) add(40, 1, "ptr", 1); else { add(40, 1, "ptr", 1); add(33, 6, "file", 1); }
    for (Sh s : {Sh{300, 2, 0, 10, 260}, Sh{60, 70, 0, 10, 4}}) for (auto& init : inits) for (int b = 0; b < 2; b++) { // many clusters, long rows, many threads
        if (dist && (b || init == "random")) continue;
        Data D = family(s.n, s.d, 1, b, 1, eng == "sk" ? 65 : 997);
        if (eng == "sk") for (size_t j = 0; j < s.d; j++) { D.x[j] = j % 2 ? 0 : 64; D.x[s.d + j] = j % 2 ? 64 : 0; }
        all(D, s, init, 3, " family n=" + S(s.n) + " d=" + S(s.d) + " a=1 b=" + S(b) + " c=1 p=997");
    }
    return h().finish();
}
