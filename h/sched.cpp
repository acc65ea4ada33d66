// Every schedule (bounded deviations) of small runs: no deadlock, no data race, one result.
#include "engines.hpp"
using namespace vh;
int main(int argc, char** argv) {
    h().init(argc, argv); std::string eng = h().mode; bool th = h().thorough;
    bool dist = eng == "dist" || eng == "distp", omp = eng == "omp" || eng == "ompp";
    struct Case { unsigned n, T, k, mi; const char* init; const char* src; unsigned nodes, procs; int budget; int thb; double tol; };
    std::vector<Case> cs;
    const char* ini = (eng == "hc" || eng == "xm" || eng == "gm" || eng == "fcm" || eng == "med") ? "forgy" : "none";
    if (dist) cs = {{4, 1, 2, 2, "none", "file", 1, 2, 2, 3}, {5, 2, 2, 2, "none", "file", 1, 2, 1, 2}, {4, 1, 2, 1, "kmeanspp", "file", 1, 2, 1, 2}, {5, 1, 2, 2, "forgy", "file", 1, 3, 1, 2}, {4, 1, 2, 1, "random", "file", 1, 2, 1, 2},
        // tolerances that the ranks' own rows would meet at different iterations
        {4, 1, 2, 4, "none", "file", 1, 2, 1, 2, 0.25}, {6, 1, 2, 5, "none", "file", 1, 2, 1, 2, 0.34}, {6, 1, 2, 5, "none", "file", 1, 3, 1, 2, 0.2},
        // three ranks with threads, as many ranks as rows and more, nodes, starts that several ranks draw
        {6, 2, 2, 2, "none", "file", 1, 3, 1, 1}, {4, 1, 2, 2, "none", "file", 1, 4, 1, 1}, {3, 1, 2, 2, "none", "file", 1, 3, 1, 2}, {2, 1, 1, 2, "none", "file", 1, 3, 1, 2}, {6, 2, 3, 3, "none", "file", 2, 2, 1, 2},
        {5, 2, 2, 2, "kmeanspp", "file", 1, 2, 1, 1}, {6, 1, 2, 2, "kmeanspp", "file", 1, 3, 1, 1}, {6, 2, 2, 2, "random", "file", 1, 2, 1, 1}, {4, 1, 2, 0, "none", "file", 1, 2, 2, 3}, {4, 1, 2, 0, "kmeanspp", "file", 1, 2, 1, 2}};
    else cs = {{4, 2, 2, 2, ini, "ptr", 1, 1, 2, 3}, {3, 3, 2, 2, ini, "ptr", 1, 1, 1, 2}, {4, 2, 2, 1, ini, "file", 2, 1, 1, 2}, {6, 2, 3, 3, ini, "ptr", 1, 1, 1, 2}, {3, 2, 1, 0, ini, "ptr", 1, 1, 2, 3},
        {4, 2, 2, 1, (eng == "med" || eng == "fcm" || eng == "hc" || eng == "xm" || eng == "gm") ? ini : "kmeanspp", "ptr", 1, 1, 1, 2}};
    if (!dist && !omp) for (Case q : std::vector<Case>{{4, 4, 2, 2, ini, "numa", 2, 1, 1, 2}, {2, 3, 2, 2, ini, "ptr", 1, 1, 1, 2}, {6, 3, 2, 4, ini, "file", 3, 1, 1, 2}, {4, 2, 2, 4, ini, "ptr", 1, 1, 2, 3, 0.3}, {6, 2, 2, 3, "forgy", "numa", 2, 1, 1, 2}, {4, 3, 2, 1, ini, "norun", 2, 1, 2, 3}, {4, 2, 2, 1, ini, "norun file", 1, 1, 2, 3}}) cs.push_back(q);
    if (omp) for (Case q : std::vector<Case>{{5, 4, 2, 2, ini, "ptr", 1, 1, 1, 2}, {3, 4, 2, 3, ini, "ptr", 1, 1, 1, 2}, {6, 3, 3, 5, ini, "ptr", 1, 1, 1, 2, 0.3}, {5, 2, 2, 2, "forgy", "ptr", 1, 1, 1, 2}, {5, 2, 2, 2, "random", "ptr", 1, 1, 1, 2}}) cs.push_back(q);
    // several partitions decided in one round
    if (eng == "xm" || eng == "gm") { cs.push_back({8, 2, 8, 2, "none", "ptr", 1, 1, 1, 1}); cs.push_back({14, 2, 8, 2, "none", "ptr", 1, 1, 1, 1}); }
    for (auto& q : cs) for (int var = 0; var < 2; var++) for (int wake = 0; wake < (omp ? 1 : 2); wake++) { // wake: waits may also end without a signal
        Data D; D.n = q.n; D.d = 1; const double v0[] = {1, 2, 8, 9, 3, 20}, v1[] = {5, 1, 2, 9, 7, 3}, v2[] = {0, 1, 3, 9, 10, 12}; for (unsigned i = 0; i < q.n; i++) D.x.push_back(q.tol ? (var ? v2[q.n - 1 - i] : v2[i]) : var ? v1[i] : v0[i]);
        Cfg c; c.eng = eng; c.k = q.k; c.mi = q.mi; c.T = q.T; c.nodes = q.nodes; c.procs = q.procs; c.init = q.init; c.src = q.src; c.mb = 100; if (q.tol) c.tol = q.tol;
        if (eng == "sk") { c.dist = "cos"; D.d = 2; V x; for (double v : D.x) { x.push_back(v); x.push_back(10 - v); } D.x = x; }
        if (q.n == 8) D.x = {0, 0, 0, 0, 101, 101, 102, var ? 103. : 102.};
        if (q.n == 14) D.x = {0, 0, 0, 0, 50, 50, 50, 50, 2000, 2001, 2050, 2051, 2052, var ? 2400. : 2049.};
        if (eng == "hc" || eng == "xm" || eng == "gm") { c.k = q.k > 4 ? q.k : 4; if (q.mi == 0) continue; }
        if (eng == "med" && c.src == "numa") c.src = "ptr"; // refuses redistributed data
        if (q.mi == 0 && (omp || eng == "fcm" || eng == "med" || eng == "mb" || eng == "sk")) continue;
        if (std::string(q.init) == "none") for (unsigned i = 0; i < (q.n >= 8 ? 2 : c.k * D.d); i++) c.cen.push_back(q.n >= 8 && i == 1 ? D.x.back() : D.x[i]);
        bool light = !dist && eng != "mb" && eng != "hc" && eng != "xm" && eng != "gm"; int budget = light ? q.thb + th : th ? q.thb : q.budget; // the short runs afford one more
        if (wake) budget = th ? (budget > 2 ? budget - 1 : 1) : q.thb > 2 ? 2 : 1;
        // the first deviation is enumerated here so that it can be shared between processes
        if (!h().next(c.str() + " data=" + dspec(D) + " budget=" + S(budget) + (wake ? " spurious wake-ups" : ""))) continue;
        Out o; vrt::Options op; op.budget = budget; op.races = true; op.spurious = wake;
        bool norun = q.src[0] == 'n' && q.src[1] == 'o'; std::string fn = std::string(q.src) == "norun file" ? data_file(D) : ""; // started and destroyed
        explore([&]() { if (norun) { o = Out(); vrt::set_numa_nodes(c.nodes); auto p = make_engine(c, D, fn); } else o = run_engine(c, D); }, op,
            [&]() { return o.str(); }, [&](const std::string&) -> std::string { return o.err; }, "sched");
        if (!fn.empty()) unlink(fn.c_str());
        if (h().sum["schedules"] > 1) h().count("nontrivial", h().sum["schedules"] - h().sum["nontrivial"]);
    }
    return h().finish();
}
