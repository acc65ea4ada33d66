// Independent runs in one process: two runs in two threads of the caller under every schedule with few deviations, and
// histories of runs one after another; each must end as it does alone.
#include "engines.hpp"
#include <pthread.h>
#include <sys/wait.h>
using namespace vh;
using namespace knor;
static Cfg mkcfg(const std::string& eng, unsigned var, const Data& D) {
    Cfg c; c.eng = eng; c.k = 2; c.mi = 2; c.T = var == 2 ? 2 : 1; c.mb = 100; c.minsz = 1; c.tol = -1; c.tag = var ? "b" : "a"; c.dist = eng == "sk" ? "cos" : "eucl";
    const bool hier = eng == "hc" || eng == "xm" || eng == "gm"; if (hier) c.k = 4;
    if (hier || eng == "fcm" || eng == "med") c.init = "forgy"; else for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < D.d; j++) c.cen.push_back(D.row(i)[j] + 0.25 * j);
    if (eng == "omp" || eng == "ompp") c.T = 2; else if (var == 1) c.src = "file";
    if (eng == "mb" || eng == "omp" || eng == "ompp") { } else if (var == 2) { c.src = "numa"; if (eng == "med") c.src = "ptr"; }
    return c;
}
struct Job { Cfg c; Data D; Out o; std::string err; };
static void* work(void* p) { Job* j = (Job*)p; try { j->o = run_engine(j->c, j->D); } catch (std::exception& e) { j->err = std::string("exception ") + e.what(); } return nullptr; }
static std::string show(const Job& j) { return j.err.empty() ? j.o.str() : j.err; }
static std::string alone(Job& j, bool& ok) { j.err.clear(); j.o = Out(); RunOut r = exec([&]() { work(&j); }); ok = r.ok(); return ok ? show(j) : r.detail; }

// ---- one after another
static const char* NAMES[] = {"km", "kmp", "mb", "fcm", "sk", "med", "hc", "xm", "gm", "omp", "ompp", "dist", "distp"};
struct Hist { Job j; std::string how, fresh; bool ends = false; std::string str() const { return how + " " + j.c.str(); } };
static std::string once(Hist& q) {
    data_cut = q.how == "cut" ? 8 : -1; q.j.err.clear(); q.j.o = Out();
    RunOut r = exec([&]() { work(&q.j); }); data_cut = -1;
    return r.ok() ? show(q.j) : std::string("!") + vrt::end_name(r.end) + " " + r.detail;
}
static std::string in_child(Hist& q) { // the outcome in a process that has run nothing else
    int fd[2]; if (pipe(fd)) { perror("pipe"); _exit(70); }
    pid_t c = fork(); if (c < 0) { perror("fork"); _exit(70); }
    if (!c) { close(fd[0]); std::string s = once(q); size_t n = 0; while (n < s.size()) { ssize_t w = write(fd[1], s.data() + n, s.size() - n); if (w <= 0) break; n += (size_t)w; } _exit(0); }
    close(fd[1]); std::string s; char b[4096]; ssize_t r; while ((r = read(fd[0], b, sizeof b)) > 0) s.append(b, (size_t)r); close(fd[0]); int st; waitpid(c, &st, 0);
    return s;
}
static void histories(const std::string& first, bool th) {
    std::vector<Data> Ds = {mk(3, 2, {1, 2, 8, 1, 9, 3}), mk(5, 1, {5, 1, 2, 9, 0}), mk(4, 3, {0, 3, 1, 2, 7, 7, 9, 4, 5, 5, 1, 2})};
    std::vector<Hist> js; vrt::set_numa_nodes(1); vrt::set_omp_max_threads(2);
    for (std::string e : NAMES) for (const char* how : {"plain", "wide", "drawn", "forgy", "random", "refused", "cut"}) {
        Hist q; q.how = how; const bool hier = e == "hc" || e == "xm" || e == "gm", dist = e[0] == 'd', omp = e[0] == 'o', drawn = q.how == "drawn" || q.how == "forgy" || q.how == "random"; if (q.how == "forgy" && (hier || e == "fcm" || e == "med")) continue;
        q.j.D = Ds[q.how == "wide" ? 2 : drawn ? 1 : 0]; if (e == "sk" && drawn) q.j.D = Ds[2];
        if (q.how == "cut" && (omp || !strcmp(how, "none"))) continue;
        Cfg& c = q.j.c; c = mkcfg(e, 0, q.j.D); if (drawn) { c.cen.clear(); c.init = hier || e == "fcm" || e == "med" ? "forgy" : "kmeanspp"; if (q.how != "drawn") c.init = q.how; c.k = hier ? 4 : 3; c.mi = 3; }
        if (q.how == "wide") { c.T = 3; c.mi = 3; c.nodes = omp || dist ? 1 : 2; if (!omp && !dist && e != "mb" && e != "med") c.src = "numa"; }
        if (q.how == "refused") c.init = "nonsense";
        if (q.how == "cut") c.src = "file"; if (dist) { c.src = "file"; c.procs = 2; }
        if (c.cen.empty() && c.init == "none") continue;
        js.push_back(q);
    }
    for (auto& q : js) { q.fresh = in_child(q); q.ends = q.fresh[0] == '!'; }
    for (auto& a : js) {
        if (a.j.c.eng != first) continue;
        for (auto& b : js) for (auto& c : js) {
            if (!th && &c != &js[0] && !(c.j.c.eng == first || (c.j.c.eng == b.j.c.eng && c.how == "plain"))) continue;
            if (!h().next([&]() { return "after " + a.str() + " then " + b.str() + " then " + c.str(); })) continue;
            once(a); std::string s = once(b); if (s != b.fresh) { h().viol("history", "after the first run the second ends with " + s + ", in a fresh process with " + b.fresh); continue; }
            s = once(c); if (s != c.fresh) h().viol("history", "after two runs the third ends with " + s + ", in a fresh process with " + c.fresh);
            h().count("nontrivial");
        }
        // the first exists while the second runs
        if (first == "mb" || first[0] == 'o' || first[0] == 'd' || a.ends || !a.fresh.compare(0, 9, "exception")) continue;
        for (auto& b : js) for (int when = 0; when < 2; when++) {
            if (b.ends) { h().count("ends_program"); continue; } // the inner run alone ends the whole program
            if (!h().next([&]() { return "around " + a.str() + " " + (when ? "made" : "run") + " and " + b.str(); })) continue;
            min_nodes = 2; Job& j = a.j; j.err.clear(); j.o = Out(); std::string fn = j.c.src == "file" ? data_file(j.D, "around") : "";
            data_cut = b.how == "cut" ? 8 : -1;
            RunOut r = exec([&]() {
                vrt::set_numa_nodes(2); vrt::set_omp_max_threads(j.c.T); V copy = j.D.x; auto p = make_engine(j.c, j.D, fn);
                auto run = [&]() { if (j.c.src == "numa") { binding::memory_distributor<double>::create(copy.data(), j.c.nodes, j.D.n, j.D.d)->numa_reorg(p->get_threads()); j.o = take(p->run(nullptr, true)); } else j.o = take(fn.empty() ? p->run(copy.data()) : p->run()); };
                if (when) { b.j.err.clear(); b.j.o = Out(); work(&b.j); vrt::set_numa_nodes(2); vrt::set_omp_max_threads(j.c.T); run(); } else { run(); Out first_o = j.o; b.j.err.clear(); b.j.o = Out(); work(&b.j); j.o = first_o; }
            });
            data_cut = -1; min_nodes = 1; if (!fn.empty()) unlink(fn.c_str());
            if (!r.ok()) { h().viol("around/" + std::string(vrt::end_name(r.end)), r.detail); continue; }
            if (show(b.j) != b.fresh) h().viol("around", "the inner run ends with " + show(b.j) + ", in a fresh process with " + b.fresh);
            if (show(a.j) != a.fresh) h().viol("around", "the outer run ends with " + show(a.j) + ", in a fresh process with " + a.fresh);
            h().count("nontrivial");
        }
    }
}
int main(int argc, char** argv) {
    h().init(argc, argv); const std::string eng = h().mode; const bool th = h().thorough;
    if (eng[0] == '>') { histories(eng.substr(1), th); return h().finish(); }
    const std::vector<std::string> all = {"km", "kmp", "mb", "fcm", "sk", "med", "hc", "xm", "gm", "omp", "ompp"};
    std::vector<Data> Ds = {mk(3, 2, {1, 2, 8, 1, 9, 3}), mk(4, 1, {5, 1, 2, 9}), mk(4, 2, {0, 3, 1, 2, 7, 7, 9, 4})};
    vrt::set_numa_nodes(1); vrt::set_omp_max_threads(2);
    auto job = [&](const std::string& e, unsigned var) { Job j; j.D = Ds[e == "sk" && var == 1 ? 2 : var]; j.c = mkcfg(e, var, j.D); return j; };
    { Job j = job(eng, 0); bool ok; alone(j, ok); }
    // at the same time
    for (auto& e2 : all) for (unsigned v1 : {0u, 1u, 2u}) for (unsigned v2 : {0u, 1u, 2u}) {
        if (!th && (v1 > v2 || (v1 == 2 && v2 == 2) || (e2 != eng && v1 == v2))) continue;
        const bool slow = eng == "hc" || eng == "xm" || eng == "gm" || eng == "med"; int budget = th ? 2 : e2 == eng && v1 + v2 < (slow ? 2 : 3) ? 2 : 1;
        Job a = job(eng, v1), b = job(e2, v2); if (v1 == v2) b.c.tag = "c";
        if (!h().next([&]() { return "together " + a.c.str() + " and " + b.c.str() + " budget=" + S(budget); })) continue;
        bool oka, okb; const std::string wa = alone(a, oka), wb = alone(b, okb); if (!oka || !okb) { h().viol("alone", oka ? wb : wa); continue; }
        vrt::Options op; op.budget = budget; op.races = true;
        explore([&]() { a.o = b.o = Out(); a.err = b.err = ""; pthread_t t; pthread_create(&t, nullptr, work, &b); work(&a); pthread_join(t, nullptr); }, op,
            [&]() { return show(a) + " | " + show(b); }, [&](const std::string&) -> std::string { return show(a) != wa ? "the first run ends with " + show(a) + ", alone with " + wa : show(b) != wb ? "the second run ends with " + show(b) + ", alone with " + wb : ""; }, "together");
        h().count("nontrivial");
    }
    return h().finish();
}
