// Every iteration an engine performs is a Lloyd step from the previous state, for every small dataset, start and configuration.
#include "engines.hpp"
using namespace vh;

static std::string eng;
// spherical k-means clusters the rows with every feature scaled to [0,1] (a constant one to 0)
static Data seen_by(const Data& D) {
    if (eng != "sk") return D;
    Data N = D;
    for (size_t j = 0; j < D.d; j++) {
        double lo = 1e300, hi = -1e300; for (size_t i = 0; i < D.n; i++) { lo = std::min(lo, D.row(i)[j]); hi = std::max(hi, D.row(i)[j]); }
        for (size_t i = 0; i < D.n; i++) N.x[i * D.d + j] = hi > lo ? (D.row(i)[j] - lo) / (hi - lo) : 0;
    }
    return N;
}
// engines whose reported iteration count is the number of steps performed
static void check(const Data& D, Cfg c, unsigned maxit) {
    const Data N = seen_by(D); V prev = c.cen; Out last; std::vector<Out> seq; std::vector<size_t> changes;
    bool conv = false;
    for (unsigned i = 1; i <= maxit; i++) {
        c.mi = i; c.tol = -1; Out o;
        if (!run_ok(c, D, o, "run")) return;
        std::string e = consistent(N, o, c.k);
        if (!e.empty()) { h().viol("inconsistent", "after " + S(i) + " iterations: " + e + "; " + o.str()); return; }
        e = nearest(N, prev, c.k, o.asg, c.dist);
        if (!e.empty()) { h().viol("not-nearest", "iteration " + S(i) + " from centroids " + fmt(prev) + ": " + e); return; }
        if (o.iters > i) { h().viol("iters", "reports " + S(o.iters) + " iterations with a limit of " + S(i)); return; }
        size_t ch = 0; for (size_t r = 0; r < D.n; r++) ch += seq.empty() || seq.back().asg[r] != o.asg[r];
        if (conv) { // converged one step earlier: the engine must have stopped there
            if (ch || !near(o.cen, seq.back().cen)) { h().viol("past-convergence", "state changes after an iteration without reassignments"); return; }
            if (o.iters > i - 1) { h().viol("iters", "reports " + S(o.iters) + " iterations though iteration " + S(i - 1) + " reassigned nothing"); return; }
            break;
        }
        seq.push_back(o); changes.push_back(ch); prev = o.cen; h().count("steps");
        if (ch == 0) conv = true;
    }
    for (size_t i = 1; i < seq.size(); i++) if (changes[i]) { h().count("nontrivial"); break; }
    h().mx["max_steps"] = std::max(h().mx["max_steps"], (double)seq.size());
    // tolerance: the run stops after the first iteration in which at most tol*n rows were reassigned
    for (double tol : {0.0, 0.25, 0.5, 1.5 / D.n, 1 - 0.5 / D.n}) {
        if ((tol == 0.25 && D.n % 4) || (eng[0] == 'd' && D.n < 7 && tol != 0 && tol != 0.25 && tol != 0.5)) continue;
        size_t stop = seq.size();
        for (size_t i = 0; i < seq.size(); i++) if ((double)changes[i] / D.n <= tol) { stop = i + 1; break; }
        c.tol = tol; c.mi = seq.size(); Out o;
        if (!run_ok(c, D, o, "run")) return;
        if (o.asg != seq[stop - 1].asg || !near(o.cen, seq[stop - 1].cen)) { h().viol("tolerance", "with tolerance " + fmt(tol) + " the result is not the state after the first iteration with few enough reassignments (" + S(stop) + "): " + o.str()); return; }
    }
}
// runs of hundreds of iterations: the steps around some limits, and where the run stops by itself
static void longrun(const Data& D, Cfg c) {
    const Data N = seen_by(D); c.tol = -1; Out last; c.mi = 5000; if (!run_ok(c, D, last, "run")) return;
    std::set<unsigned> at = {2, 64, 128, 129, 255, 256, 257, 300}; for (unsigned q : {0u, 1u, 2u}) if (last.iters > q + 1) at.insert((unsigned)last.iters - q);
    std::map<unsigned, Out> got; auto run = [&](unsigned i) -> const Out* { auto f = got.find(i); if (f != got.end()) return &f->second; Out o; c.mi = i; if (!run_ok(c, D, o, "run limit=" + S(i))) return nullptr; return &(got[i] = o); };
    for (unsigned i : at) {
        if (i > last.iters) continue;
        const Out* a = run(i - 1); const Out* b = a ? run(i) : nullptr; if (!b) return;
        std::string e = consistent(N, *b, c.k); if (e.empty()) e = nearest(N, a->cen, c.k, b->asg, c.dist);
        if (!e.empty()) { h().viol("long-step", "iteration " + S(i) + ": " + e); return; }
        if (a->asg == b->asg && i != last.iters) { h().viol("long-stop", "iteration " + S(i) + " reassigns nothing, but " + S(last.iters) + " are performed"); return; }
        if (b->iters > i) { h().viol("long-iters", "reports " + S(b->iters) + " iterations with a limit of " + S(i)); return; }
        h().count("steps");
    }
    std::string e = nearest(N, last.cen, c.k, last.asg, c.dist); if (!e.empty()) h().viol("long-converged", "the run ends after " + S(last.iters) + " iterations without a limit, but " + e);
    if (last.iters > 100) h().count("nontrivial"); h().mx["max_steps"] = std::max(h().mx["max_steps"], (double)last.iters);
}
static void longruns(const std::vector<Cfg>& cfgs) {
    for (int form = 0; form < 4; form++) for (unsigned k : {20u, 13u}) for (auto& cf : cfgs) {
        const size_t n = form == 3 ? 900 : 1500, d = form == 3 ? 2 : 1; Data D; D.n = n; D.d = d;
        for (size_t i = 0; i < n; i++) { D.x.push_back(form == 0 ? (double)(i * i) : form == 1 ? (double)(i * 7919 % 10007) : (double)i); if (d == 2) D.x.push_back((double)(i * 37 % 101)); }
        Cfg c = cf; c.eng = eng; c.k = k; c.dist = "eucl"; if (!h().next([&]() { return "long form=" + S(form) + " " + c.str(); })) continue;
        std::vector<size_t> o(n); for (size_t i = 0; i < n; i++) o[i] = i; std::sort(o.begin(), o.end(), [&](size_t a, size_t b) { return D.row(a)[0] < D.row(b)[0]; });
        const Data N = seen_by(D); for (unsigned q = 0; q < k; q++) c.cen.insert(c.cen.end(), N.row(o[q]), N.row(o[q]) + d);
        longrun(D, c);
    }
}
static void sweep(size_t n, size_t d, int lo, int hi, std::vector<unsigned> ks, std::vector<std::string> dists, std::vector<Cfg> cfgs, unsigned maxit, int cstride = 1) {
    if (eng[0] == 'd') cstride *= 2; // several processes: every other start
    for (unsigned k : ks) {
        if (eng[0] == 'o' && k > n) continue; // rejected by these entry points
        std::vector<V> starts; // every increasing choice of k points of the value grid
        std::vector<V> pts; tuples(d, lo, hi, [&](const std::vector<int>& v) { pts.push_back(V(v.begin(), v.end())); });
        std::vector<int> sel(k); int ctr = 0;
        std::function<void(unsigned, int)> rec = [&](unsigned i, int from) {
            if (i == k) { if (ctr++ % cstride == 0) { V c; for (int s : sel) c.insert(c.end(), pts[s].begin(), pts[s].end()); starts.push_back(c); } return; }
            for (int s = from; s < (int)pts.size(); s++) { sel[i] = s; rec(i + 1, s + 1); } };
        rec(0, 0);
        tuples(n * d, lo, hi, [&](const std::vector<int>& v) {
            for (auto& dist : dists) for (size_t s = 0; s < starts.size(); s++) for (auto& cf : cfgs) {
                Data D; Cfg c;
                if (!h().next([&]() { D = mk(n, d, v); c = cf; c.eng = eng; c.k = k; c.dist = dist; c.cen = starts[s]; return c.str() + " data=" + dspec(D); })) continue;
                check(D, c, maxit);
            }
        });
    }
}
// larger shapes (more columns, clusters, rows, threads and iterations): every member of a family of datasets
static void wide(std::vector<size_t> ns, std::vector<size_t> ds, std::vector<unsigned> ks, int A, std::vector<int> ps, std::vector<std::string> dists, std::vector<Cfg> cfgs, unsigned maxit, double scale = 1, double shift = 0) {
    for (size_t n : ns) for (size_t d : ds) for (unsigned k : ks) for (int p : ps) for (int a = 0; a < A; a++) for (int b = 0; b < A; b++) for (int c = 0; c < 2; c++) for (int form = 0; form < 3; form++) for (auto& dist : dists) for (auto& cf : cfgs) {
        if (eng[0] == 'o' && k > n) continue;
        if (!h().next([&]() { Cfg q = cf; q.eng = eng; q.k = k; q.dist = dist; return "family n=" + S(n) + " d=" + S(d) + " a=" + S(a) + " b=" + S(b) + " c=" + S(c) + " p=" + S(p) + " start=" + S(form) + " scale=" + fmt(scale) + " shift=" + fmt(shift) + " " + q.str(); })) continue;
        Data D = family(n, d, a, b, c, p); Cfg q = cf; q.eng = eng; q.k = k; q.dist = dist; q.cen = family_start(D, k, form);
        for (double& x : D.x) x = x * scale + shift; for (double& x : q.cen) x = x * scale + shift;
        if (eng == "sk") for (double& x : q.cen) x /= 8;
        check(D, q, maxit);
    }
}
static Cfg cf(unsigned T, const char* src = "ptr", unsigned nodes = 1, unsigned procs = 1) { Cfg c; c.T = T; c.src = src; c.nodes = nodes; c.procs = procs; return c; }
int main(int argc, char** argv) {
    h().init(argc, argv); eng = h().mode; bool th = h().thorough;
    bool omp = eng[0] == 'o', dist = eng[0] == 'd', pruned = eng.back() == 'p' && eng != "omp";
    std::vector<Cfg> c1, c2;
    if (omp) { c1 = {cf(1), cf(3)}; c2 = {cf(2)}; }
    else if (dist) { c1 = {cf(1, "file", 1, 1), cf(2, "file", 1, 3)}; c2 = {cf(1, "file", 1, 2)}; }
    else { c1 = {cf(1), cf(3)}; c2 = {cf(2)}; }
    std::vector<std::string> eu = {"eucl"}, all = {"taxi", "cos", "sqeucl"}; // the metrics besides
    if (omp) all = {"cos"};
    {
        std::vector<Cfg> w1, w2; if (dist) { w1 = {cf(2, "file", 1, 4)}; w2 = {cf(3, "file", 2, 3)}; } else if (omp) { w1 = {cf(5)}; w2 = {cf(8)}; } else { w1 = {cf(4, "ptr", 2)}; w2 = {cf(7, "numa", 3), cf(5, "file")}; }
        std::vector<std::string> wd = omp ? std::vector<std::string>{"eucl", "cos"} : eng == "sk" ? std::vector<std::string>{"cos"} : std::vector<std::string>{"eucl", "taxi", "cos", "sqeucl"}, e1 = eng == "sk" ? std::vector<std::string>{"cos"} : eu;
        wide({9, 20}, {1, 4, 5, 8, 9}, {2, 5, 10}, 2, {13}, e1, w1, 30);
        wide({33}, {1, 2}, {3, 6}, th ? 6 : 3, {31, 97}, e1, w2, 40); // many iterations
        wide({12, 17}, {3, 6, 17}, {2, 4}, 2, {7}, wd, w1, 20);
        wide({40}, {2}, {17, 33}, 1, {53}, e1, w1, 20); // many clusters
        if (eng != "sk") { // values of other magnitudes, and close together far from the origin
            wide({14}, {1, 3}, {3, 5}, 2, {29}, wd, w1, 20, 1e-5); wide({14}, {1, 3}, {3, 5}, 2, {29}, wd, w1, 20, 1e7, -1e8); wide({14}, {1, 3}, {3, 5}, 2, {29}, eu, w1, 20, 0.01, -1000); wide({14}, {2}, {4}, 2, {29}, wd, w2, 20, 1, -14);
        }
        wide({400}, {2}, {257, 300}, 1, {997}, e1, w1, 6); wide({70}, {65, 130}, {3}, 1, {19}, e1, w1, 8); // identifiers beyond a byte, long rows
        wide({66000}, {1}, {3}, 1, {65521}, e1, {w1[0]}, 2); // row numbers beyond two bytes
        longruns(w1); if (th) longruns(w2);
        { std::vector<Cfg> w3; if (dist) w3 = {cf(2, "file", 1, 17)}; else w3 = {cf(33, omp ? "ptr" : "numa", omp ? 1 : 5)}; wide({70, 131}, {2}, {4}, 2, {29}, e1, w3, 10); } // many threads or processes
        if (th) { wide({16, 31, 64}, {1, 2, 3, 7, 8, 16, 33}, {2, 3, 8, 16}, 3, {11, 101}, wd, w2, 40); wide({100}, {1, 2}, {3, 5, 9}, 5, {97, 1009}, e1, w1, 60); }
    }
    if (eng == "sk") { // features: negative, constant, zero; starts are given in the scaled space
        std::vector<Cfg> c3 = {cf(1), cf(2, "file"), cf(3, "numa", 2)};
        std::vector<std::string> cos = {"cos"}, three = {"eucl", "taxi", "sqeucl"};
        auto sk = [&](size_t n, size_t d, int lo, int hi, int lo2, int hi2, std::vector<unsigned> ks, std::vector<std::string> dists, std::vector<Cfg> cfs, double scale) {
            tuples(n * d, lo, hi, [&](const std::vector<int>& v) { for (unsigned k : ks) tuples(k * d, lo2, hi2, [&](const std::vector<int>& s) {
                for (unsigned a = 1; a < k; a++) if (std::lexicographical_compare(&s[a * d], &s[a * d] + d, &s[a * d - d], &s[a * d])) return;
                for (auto& dist : dists) for (auto& c0 : cfs) { Data D; Cfg c; if (!h().next([&]() { D = mk(n, d, v, scale); c = c0; c.eng = eng; c.k = k; c.dist = dist; c.cen = V(s.begin(), s.end()); return c.str() + " data=" + dspec(D); })) continue; check(D, c, 8); } }); });
        };
        sk(3, 2, -1, 1, 0, 1, {1, 2, 3}, cos, c3, 1); sk(4, 2, 0, 1, 0, 2, {2}, cos, c1, -3); sk(2, 3, -1, 1, 0, 1, {2}, cos, c2, 0.5); sk(4, 1, -2, 1, 0, 1, {1, 2}, cos, c3, 10);
        sk(3, 2, -1, 1, 0, 1, {2}, three, c2, 7); sk(5, 2, 0, 1, 0, 1, {2, 3}, cos, c2, -1); sk(1, 2, -1, 1, 0, 1, {1, 2}, cos, c3, 1);
        if (th) { sk(4, 2, -1, 1, 0, 1, {2, 3}, cos, c3, 1); sk(3, 3, -1, 1, 0, 1, {2}, cos, c2, 1); sk(3, 2, -2, 2, 0, 1, {2}, cos, c2, 1); sk(6, 2, 0, 1, 0, 1, {2, 3}, cos, c2, 1); }
        return h().finish();
    }
    unsigned mink = omp ? 2 : 1;
    std::vector<unsigned> ks; for (unsigned k = mink; k <= 3; k++) ks.push_back(k);
    // one dimension: every dataset
    sweep(4, 1, 0, 4, ks, eu, c1, 9);
    sweep(5, 1, 0, 3, {2, 3, 4}, eu, c2, 9);
    sweep(5, 1, -3, 3, {2, 3}, eu, c2, 9, 3);
    sweep(6, 1, 0, 3, {2, 3}, eu, c2, 9);
    sweep(7, 1, 0, 2, {2, 3}, eu, c1, 9);
    if (dist) { // several rows left over
        sweep(5, 1, 0, 2, {2, 3}, eu, {cf(1, "file", 1, 3)}, 9); sweep(7, 1, 0, 1, {2}, eu, {cf(2, "file", 1, 4), cf(1, "file", 2, 5)}, 9);
    }
    sweep(3, 1, -2, 2, {2, 3, 4}, omp ? std::vector<std::string>{"cos", "eucl"} : std::vector<std::string>{"taxi", "cos", "sqeucl", "eucl"}, c1, 9); // more clusters than rows too
    // two dimensions
    sweep(3, 2, 0, 2, {2, 3}, eu, c2, 9);
    sweep(3, 2, -1, 1, {2}, all, c2, 9);
    sweep(4, 2, 0, 1, {2, 3}, eu, c1, 9);
    sweep(4, 2, 0, 2, {3}, eu, c2, 9, 21);
    sweep(5, 2, 0, 1, {2, 3}, all, c2, 9);
    sweep(2, 3, 0, 1, {2, 3}, all, c2, 9);
    if (th) {
        sweep(6, 1, 0, 5, {2, 3, 4}, eu, c2, 9);
        sweep(8, 1, 0, 2, {2, 3}, eu, c1, 9);
        sweep(4, 2, 0, 2, {2, 3}, eu, c2, 9);
        sweep(4, 1, 0, 12, {2, 3}, eu, c2, 9, 3);
        sweep(7, 1, 0, 3, {2, 3, 4}, eu, c2, 9);
        sweep(4, 2, -1, 1, {2, 3}, all, c2, 9, 5);
        sweep(6, 2, 0, 1, {2, 3, 4}, all, c2, 9, 3);
        sweep(5, 2, 0, 2, {2}, eu, c2, 9, 9);
    }
    return h().finish();
}
