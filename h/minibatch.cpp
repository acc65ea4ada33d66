// Mini-batch k-means: every outcome of the sampling draws.
#include "engines.hpp"
using namespace vh;
// one iteration of the model: rows in `in` are assigned to the nearest centroid, then pull it in row order
static bool step(const Data& D, const Cfg& c, V& cen, std::vector<int>& asg, unsigned long in) {
    for (size_t i = 0; i < D.n; i++) if (in == ~0ul || in >> i & 1) {
        std::vector<std::pair<double, int>> d; for (size_t a = 0; a < c.k; a++) d.push_back({rdist(D.row(i), &cen[a * D.d], D.d, c.dist), (int)a});
        std::sort(d.begin(), d.end()); if (d.size() > 1 && d[1].first - d[0].first < 1e-7) return false; // a tie: rounding decides
        asg[i] = d[0].second;
    }
    std::vector<int> n(c.k, 0); for (int a : asg) if (a >= 0) n[a]++;
    for (size_t i = 0; i < D.n; i++) if (in == ~0ul || in >> i & 1) { double eta = 1.0 / n[asg[i]]; for (size_t j = 0; j < D.d; j++) { double& x = cen[asg[i] * D.d + j]; x = (1 - eta) * x + eta * D.row(i)[j]; } }
    return true;
}
static void check(const Data& D, Cfg c, unsigned maxit, const V& grid, bool freq) {
    double seqs = 0; V sampled(D.n, 0); bool known = true, bad = false; unsigned mi0 = maxit;
    explore_rng(grid, [&]() {
        Out o; c.mi = 0; c.tol = -1; if (!run_ok(c, D, o, "run")) { bad = true; return false; }
        std::vector<V> cens = {o.cen}; bool moved = false;
        std::set<std::vector<int>> poss; // assignments the initialisation may have left
        if (c.init == "none" || c.init == "forgy") poss.insert(std::vector<int>(D.n, -1));
        else tuples(D.n, 0, c.k - 1, [&](const std::vector<int>& a) {
            U u(a.begin(), a.end()); bool ok = true; V m(c.k * D.d, 0), n(c.k, 0);
            if (c.init == "kmeanspp") ok = nearest(D, o.cen, c.k, u, c.dist).empty();
            else { for (size_t i = 0; i < D.n; i++) { n[a[i]]++; for (size_t j = 0; j < D.d; j++) m[a[i] * D.d + j] += D.row(i)[j]; } for (size_t q = 0; q < m.size(); q++) if (n[q / D.d]) ok &= near(m[q] / n[q / D.d], o.cen[q]); }
            if (ok) poss.insert(a); });
        for (unsigned i = 1; i <= maxit; i++) {
            c.mi = i; if (!run_ok(c, D, o, "run")) { bad = true; return false; }
            std::string e; if (o.asg.size() != D.n || o.cnt.size() != c.k || o.cen.size() != c.k * D.d) e = "wrong dimensions";
            std::vector<long long> n(c.k, 0); for (unsigned a : o.asg) { if (a >= c.k) { e = "a row has no cluster"; break; } n[a]++; }
            if (e.empty() && n != o.cnt) e = "the sizes do not count the assignments";
            if (e.empty()) e = nearest(D, o.cen, c.k, o.asg, c.dist);
            if (e.empty() && o.iters != i) e = "reports " + S(o.iters) + " iterations of " + S(i);
            if (e.empty()) {
                std::set<std::vector<int>> nx; bool tie = false; std::set<unsigned long> ins;
                for (auto& a : poss) for (unsigned long all = D.n > 62 ? ~0ul : (1ul << D.n) - 1, in = c.mb >= D.n ? all : 0; in <= all; in++) { auto b = a; V x = cens.back(); if (!step(D, c, x, b, in)) { tie = true; if (in == ~0ul) break; continue; } if (near(x, o.cen, 1e-9)) { nx.insert(b); ins.insert(in); } if (in == ~0ul) break; }
                if (nx.empty()) { if (tie) { h().count("ties"); known = false; break; } e = "centroids " + fmt(o.cen) + " result from no set of sampled rows from " + fmt(cens.back()) + " with assignments " + fmt(*poss.begin()); }
                if (tie) known = false;
                if (i == 1) { if (ins.size() != 1) known = false; else for (size_t r = 0; r < D.n; r++) sampled[r] += *ins.begin() == ~0ul || (*ins.begin() >> r & 1); seqs++; }
                if (ins.size() && *ins.begin() && i > 1) moved = true;
                poss = nx;
            }
            if (!e.empty()) { h().viol("step", "iteration " + S(i) + ": " + e + "; " + o.str()); bad = true; return false; }
            cens.push_back(o.cen); h().count("steps");
        }
        if (moved) h().count("nontrivial");
        if (cens.size() == maxit + 1) for (double tol : {0.3, 0.0001}) {
            size_t stop = 0; bool border = false;
            for (size_t i = 1; i < cens.size() && !stop; i++) { double s = 0; for (size_t q = 0; q < o.cen.size(); q++) s += (cens[i][q] - cens[i - 1][q]) * (cens[i][q] - cens[i - 1][q]); s = std::sqrt(s); border |= std::fabs(s - tol) < 1e-7; if (s < tol) stop = i; }
            if (!stop || border) continue;
            c.tol = tol; c.mi = maxit; Out q; if (!run_ok(c, D, q, "run")) { bad = true; return false; }
            if (!near(q.cen, cens[stop]) || q.iters != stop) { h().viol("tolerance", "with tolerance " + fmt(tol) + " ends after " + S(q.iters) + " iterations with " + fmt(q.cen) + ", expected " + S(stop) + ": " + fmt(cens[stop])); bad = true; return false; }
        }
        return true;
    });
    if (!bad && known && freq && mi0 == 1 && !h().have_sched && !h().capped) {
        double p = std::min(1.0, (double)c.mb / D.n); h().count("frequencies");
        for (size_t r = 0; r < D.n; r++) if (std::fabs(sampled[r] / seqs - p) > 1e-9) { h().viol("rate", "row " + S(r) + " is sampled with probability " + fmt(sampled[r] / seqs) + ", expected " + fmt(p)); return; }
    }
}
int main(int argc, char** argv) {
    h().init(argc, argv); bool th = h().thorough; std::string m = h().mode;
    auto go = [&](size_t n, size_t d, int lo, int hi, std::vector<unsigned> ks, std::vector<unsigned> Ts, std::vector<std::string> dists, unsigned mb, unsigned maxit, const V& grid, bool freq, const char* init) {
        for (unsigned k : ks) for (unsigned T : Ts) for (auto& dist : dists) tuples(n * d, lo, hi, [&](const std::vector<int>& v) { for (int var = 0; var < (std::string(init) == "none" ? 2 : 1); var++) {
            Cfg c; c.eng = "mb"; c.k = k; c.T = T; c.dist = dist; c.mb = mb; c.init = init; if (T == 2) { c.src = "file"; c.nodes = 2; }
            if (std::string(init) == "none") for (unsigned a = 0; a < k; a++) for (size_t j = 0; j < d; j++) c.cen.push_back((var ? hi + 0.43 - 1.37 * a : lo - 0.31 + 1.23 * a) + 0.17 * j);
            if (!h().next([&]() { return c.str() + " it=" + S(maxit) + " data=" + dspec(mk(n, d, v)); })) continue;
            check(mk(n, d, v), c, maxit, grid, freq);
        } });
    };
    V half = {0.25, 0.75}, third = {1 / 6., 0.5, 5 / 6.}, quarter = {0.125, 0.375, 0.625, 0.875};
    std::vector<std::string> eu = {"eucl"}, all = {"eucl", "taxi", "sqeucl"};
    if (m == "none") {
        go(3, 1, 0, 3, {1, 2}, {1}, all, 1, 1, third, true, "none"); go(3, 1, 0, 3, {2}, {1, 2, 3}, eu, 2, 1, third, true, "none"); go(4, 1, 0, 2, {2}, {1, 2}, eu, 1, 1, quarter, true, "none");
        go(2, 2, -1, 1, {1, 2}, {1, 2}, all, 1, 3, half, false, "none"); go(4, 1, 0, 2, {2, 3}, {1, 3}, eu, 2, 2, half, false, "none"); go(3, 1, -2, 2, {1, 2}, {1, 2}, eu, 1, 3, {0.2, 0.9}, false, "none");
        go(4, 1, 0, 3, {2}, {1, 2, 3}, eu, 4, 4, {0.5}, false, "none"); go(3, 2, 0, 1, {2}, {2}, {"cos", "eucl"}, 9, 4, {0.5}, false, "none");
        for (auto sh : std::vector<std::pair<size_t, size_t>>{{20, 5}, {33, 9}, {13, 17}, {50, 2}, {60, 70}, {300, 2}}) for (unsigned k : {2u, 5u, 9u, 260u}) for (auto& dist : {"eucl", "taxi", "cos", "sqeucl"}) for (unsigned T : {1u, 4u, 7u}) for (int p : {11, 101}) for (int a = 0; a < (th ? 4 : 2); a++) for (int b = 0; b < (th ? 3 : 2); b++) for (int form = 0; form < 3; form++) {
            if ((k == 260) != (sh.first == 300) || (sh.first >= 60 && (T == 1 || p == 11))) continue;
            if (!h().next([&]() { return "family n=" + S(sh.first) + " d=" + S(sh.second) + " k=" + S(k) + " " + dist + " T=" + S(T) + " p=" + S(p) + " a=" + S(a) + " b=" + S(b) + " start=" + S(form); })) continue;
            Data D = family(sh.first, sh.second, a, b, 1, p); Cfg c; c.eng = "mb"; c.k = k; c.T = T; c.dist = dist; c.mb = sh.first; c.init = "none"; c.cen = family_start(D, k, form); for (size_t q = 0; q < c.cen.size(); q++) c.cen[q] += 0.0137 * (q + 1); if (T == 4) c.src = "file";
            check(D, c, th ? 15 : 8, {0.5}, false);
        }
        for (unsigned k : {2u, 3u}) for (unsigned T : {1u, 3u}) for (int a = 0; a < (th ? 4 : 2); a++) { // many iterations
            if (!h().next([&]() { return "long k=" + S(k) + " T=" + S(T) + " a=" + S(a); })) continue;
            Data D = family(14, 2, a, 1, 1, 29); Cfg c; c.eng = "mb"; c.k = k; c.T = T; c.mb = 14; c.init = "none"; c.cen = family_start(D, k, 0); for (size_t q = 0; q < c.cen.size(); q++) c.cen[q] += 0.0137 * (q + 1);
            check(D, c, 270, {0.5}, false);
        }
        for (size_t d : {5u, 9u}) for (unsigned k : {3u, 4u, 7u}) for (unsigned T : {1u, 4u, 6u}) for (auto& dist : {"eucl", "taxi", "cos", "sqeucl"}) for (int a = 0; a < (th ? 4 : 2); a++) for (int form = 0; form < 3; form++) for (unsigned it = 1; it <= (th ? 2u : 1u); it++) for (double sc : {1.0, 1e-4, -1e6}) { // some of the rows
            if (!h().next([&]() { return "sampled family d=" + S(d) + " k=" + S(k) + " T=" + S(T) + " " + dist + " a=" + S(a) + " start=" + S(form) + " it=" + S(it) + " scale=" + fmt(sc); })) continue;
            Data D = family(6, d, a, 1, 1, 13); Cfg c; c.eng = "mb"; c.k = k; c.T = T; c.dist = dist; c.mb = 3; c.init = "none"; c.cen = family_start(D, k, form); for (size_t q = 0; q < c.cen.size(); q++) c.cen[q] += 0.0137 * (q + 1); if (T == 4) c.src = "file"; if (T == 6) c.nodes = 3;
            for (double& x : D.x) x *= sc; for (double& x : c.cen) x *= sc;
            check(D, c, it, half, true);
        }
        if (th) { go(4, 1, 0, 3, {2, 3}, {1, 2, 3}, all, 2, 3, half, false, "none"); go(5, 1, 0, 2, {2}, {1, 2}, eu, 3, 2, half, false, "none"); go(4, 1, 0, 3, {2}, {1, 2, 3, 4}, eu, 3, 1, quarter, true, "none"); go(3, 2, -1, 1, {2}, {1, 2}, all, 1, 3, {0.2, 0.9}, false, "none"); }
    } else { // starts from an initialisation
        for (const char* in : {"forgy", "random", "kmeanspp"}) { go(3, 1, 0, 3, {1, 2}, {1, 2}, eu, 1, 2, {0.2, 0.9}, false, in); go(2, 2, 0, 1, {2}, {1, 2}, all, 1, 2, half, false, in); if (th) { go(4, 1, 0, 2, {2}, {1, 2}, eu, 2, 2, half, false, in); go(3, 1, 0, 4, {2, 3}, {1, 3}, eu, 1, 3, {0.2, 0.9}, false, in); } }
    }
    return h().finish();
}
