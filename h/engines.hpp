// Wrappers around the public factories of the k-means engines. Call inside a vrt run.
#pragma once
#include "common.hpp"
#include "kmeans_coordinator.hpp"
#include "kmeans_task_coordinator.hpp"
#include "kmeans_thread.hpp"
#include "kmeans_task_thread.hpp"
#include "clusters.hpp"
#include "numa_reorg.hpp"
#include "fcm_coordinator.hpp"
#include "skmeans_coordinator.hpp"
#include "medoid_coordinator.hpp"
#include "hclust_coordinator.hpp"
#include "xmeans_coordinator.hpp"
#include "gmeans_coordinator.hpp"
#ifdef WITH_OMP
#include "kmeans.hpp"
#endif
#ifdef WITH_DIST
#include "dist_coordinator.hpp"
#include "dist_task_coordinator.hpp"
#endif
namespace vh {
struct Cfg {
    std::string eng = "km"; unsigned k = 2, mi = 1, T = 1, nodes = 1, procs = 1; std::string init = "none", dist = "eucl"; double tol = -1; std::string src = "ptr"; V cen; unsigned mb = 2, fuzz = 2, minsz = 2, strict = 4; double rate = 1; const char* tag = "";
    std::string str() const { std::string s = eng + " k=" + S(k) + " mi=" + S(mi) + " T=" + S(T) + " nodes=" + S(nodes) + " procs=" + S(procs) + " init=" + init + " dist=" + dist + " src=" + src; char b[40]; snprintf(b, sizeof b, " tol=%g", tol); s += b; if (eng == "mb") s += " mb=" + S(mb); if (eng == "fcm") s += " fuzz=" + S(fuzz); if (eng == "hc" || eng == "xm" || eng == "gm") s += " minsz=" + S(minsz); if (eng == "gm") s += " strict=" + S(strict); if (eng == "med") { snprintf(b, sizeof b, " rate=%g", rate); s += b; } if (!cen.empty()) s += " cen=" + fmt(cen); return s; }
};
static long data_cut = -1; // bytes of the data file that are written, -1: all
static bool faults_armed = false; // may calls to the system fail?
inline std::string data_file(const Data& D, const char* tag = "") {
    const bool armed = faults_armed; if (armed) faults_armed = false;
    std::string fn = h().scratch + "/data" + tag + "." + S(getpid()) + ".bin";
    FILE* f = fopen(fn.c_str(), "wb"); if (!f) { perror("scratch"); _exit(70); }
    if (!D.x.empty()) fwrite(D.x.data(), 1, data_cut >= 0 && (size_t)data_cut < 8 * D.x.size() ? (size_t)data_cut : 8 * D.x.size(), f); fclose(f); if (armed) faults_armed = true; return fn;
}
inline Out take(const knor::base::cluster_t& c) {
    Out o; o.valid = true; o.asg = c.assignments; for (auto v : c.assignment_count) o.cnt.push_back((long long)v);
    o.cen = c.centroids; o.iters = c.iters; o.k = c.k; o.nrow = c.nrow; o.ncol = c.ncol; return o;
}
// The coordinator of a threaded engine
inline knor::coordinator::ptr make_engine(const Cfg& c, const Data& D, const std::string& fn) {
    using namespace knor; const double* cen = c.cen.empty() ? nullptr : c.cen.data();
    coordinator::ptr p;
        if (c.eng == "km") p = kmeans_coordinator::create(fn, D.n, D.d, c.k, c.mi, c.nodes, c.T, cen, c.init, c.tol, c.dist);
        else if (c.eng == "kmp" || c.eng == "mb") p = prune::kmeans_task_coordinator::create(fn, D.n, D.d, c.k, c.mi, c.nodes, c.T, cen, c.init, c.tol, c.dist);
        else if (c.eng == "fcm") p = fcm_coordinator::create(fn, D.n, D.d, c.k, c.mi, c.nodes, c.T, cen, c.init, c.tol, c.dist, c.fuzz);
        else if (c.eng == "sk") p = skmeans_coordinator::create(fn, D.n, D.d, c.k, c.mi, c.nodes, c.T, cen, c.init, c.tol, c.dist);
        else if (c.eng == "med") p = medoid_coordinator::create(fn, D.n, D.d, c.k, c.mi, c.nodes, c.T, cen, c.init, c.tol, c.dist, c.rate);
        else if (c.eng == "hc") p = hclust_coordinator::create(fn, D.n, D.d, c.k, c.mi, c.nodes, c.T, cen, c.init, c.tol, c.dist, c.minsz);
        else if (c.eng == "xm") p = xmeans_coordinator::create(fn, D.n, D.d, c.k, c.mi, c.nodes, c.T, cen, c.init, c.tol, c.dist, c.minsz);
        else p = gmeans_coordinator::create(fn, D.n, D.d, c.k, c.mi, c.nodes, c.T, cen, c.init, c.tol, c.dist, c.minsz, c.strict);
    return p;
}
static unsigned min_nodes = 1; // NUMA nodes the platform has at least
inline Out run_engine(const Cfg& c, const Data& D) {
    using namespace knor;
    Out o; vrt::set_numa_nodes(std::max(c.nodes, min_nodes));
    const double* cen = c.cen.empty() ? nullptr : c.cen.data();
    std::string fn = (c.src == "file" || c.eng == "dist" || c.eng == "distp") ? data_file(D, c.tag) : "";
    const std::set<std::string> threaded = {"km", "kmp", "mb", "fcm", "sk", "med", "hc", "xm", "gm"};
    if (threaded.count(c.eng)) {
        vrt::set_omp_max_threads(c.T); // parallel regions inside x-means and g-means
        V copy = D.x;
        coordinator::ptr p = make_engine(c, D, fn);
        if (c.eng == "mb") {
            auto t = std::static_pointer_cast<prune::kmeans_task_coordinator>(p); t->set_mini_batch_size(c.mb);
            o = take(c.src == "file" ? t->mb_run() : t->mb_run(copy.data()));
        } else if (c.src == "numa") {
            auto md = binding::memory_distributor<double>::create(copy.data(), c.nodes, D.n, D.d);
            md->numa_reorg(p->get_threads());
            o = take(p->run(nullptr, true));
        } else o = take(c.src == "file" ? p->run() : p->run(copy.data()));
        if (copy != D.x && c.eng != "sk") o.err = "the engine modified the caller's data";
        p.reset();
    }
#ifdef WITH_OMP
    else if (c.eng == "omp" || c.eng == "ompp") {
        V copy = D.x, cc = c.cen; cc.resize(c.k * D.d); U asg(D.n, 12345); std::vector<llong_t> cnt(c.k, 77);
        auto f = c.eng == "omp" ? omp::compute_kmeans : omp::compute_min_kmeans;
        o = take(f(copy.data(), cc.data(), asg.data(), cnt.data(), D.n, D.d, c.k, c.mi, (int)c.T, c.init, c.tol, c.dist));
        if (copy != D.x) o.err = "the engine modified the caller's data";
        // the caller's buffers are documented results too
        if (o.asg != asg) o.err = "returned assignments differ from the caller's buffer";
        for (size_t i = 0; i < cnt.size() && i < o.cnt.size(); i++) if (cnt[i] != o.cnt[i]) o.err = "returned sizes differ from the caller's buffer";
    }
#endif
#ifdef WITH_DIST
    else if (c.eng == "dist" || c.eng == "distp") {
        std::vector<base::cluster_t> ret(c.procs);
        vrt::mpi_run(c.procs, [&](int r) {
            const std::string out = h().scratch + "/out";
            if (c.eng == "dist") {
                auto p = dist::dist_coordinator::create(0, nullptr, fn, D.n, D.d, c.k, c.mi, c.nodes, c.T, cen, c.init, c.tol, c.dist);
                std::static_pointer_cast<dist::dist_coordinator>(p)->run(ret[r], out);
            } else {
                auto p = prune::dist_task_coordinator::create(0, nullptr, fn, D.n, D.d, c.k, c.mi, c.nodes, c.T, cen, c.init, c.tol, c.dist);
                std::static_pointer_cast<prune::dist_task_coordinator>(p)->run(ret[r], out);
            }
        });
        o = take(ret[0]);
    }
#endif
    else { fprintf(stderr, "unknown engine %s\n", c.eng.c_str()); _exit(70); }
    if (!fn.empty()) unlink(fn.c_str());
    return o;
}
// Run under the default schedule; records a violation when the engine does not complete.
inline bool run_ok(const Cfg& c, const Data& D, Out& o, const std::string& kind) {
    Out r; bool ok = exec_ok(kind, [&]() { r = run_engine(c, D); });
    if (!ok) return false;
    o = r;
    if (!o.err.empty()) { h().viol(kind + "/contract", o.err); return false; }
    return true;
}
} // namespace vh
