// K-medoids: every state for every outcome of the sampling draws.
#include "engines.hpp"
using namespace vh;
static std::string state(const Data& D, const Cfg& c, const Out& o) {
    if (o.nrow != D.n || o.ncol != D.d || o.asg.size() != D.n || o.cnt.size() != c.k || o.cen.size() != c.k * D.d) return "wrong dimensions";
    for (size_t a = 0; a < c.k; a++) { bool in = false; for (size_t i = 0; i < D.n; i++) in |= std::equal(D.row(i), D.row(i) + D.d, &o.cen[a * D.d]); if (!in) return "medoid " + S(a) + " is not a row of the data"; }
    std::vector<long long> n(c.k, 0);
    for (size_t i = 0; i < D.n; i++) { if (o.asg[i] >= c.k) return "row " + S(i) + " has no cluster"; n[o.asg[i]]++; }
    if (n != o.cnt) return "sizes " + fmt(o.cnt) + " do not count the assignments";
    return nearest(D, o.cen, c.k, o.asg, c.dist);
}
static double cost(const Data& D, const U& asg, unsigned a, const double* med, const std::string& dist) { double s = 0; for (size_t i = 0; i < D.n; i++) if (asg[i] == a) s += rdist(D.row(i), med, D.d, dist); return s; }
static double energy(const Data& D, const Cfg& c, const Out& o) { double s = 0; for (unsigned a = 0; a < c.k; a++) s += cost(D, o.asg, a, &o.cen[a * D.d], c.dist); return s; }
static void check(const Data& D, Cfg c, unsigned maxit, const V& grid) {
    explore_rng(grid, [&]() {
        Out prev; std::string e; bool moved = false, conv = false; unsigned at = 0; std::vector<Out> seq;
        for (unsigned i = 0; i <= maxit; i++) {
            c.mi = i; c.tol = -1; Out o; if (!run_ok(c, D, o, "run")) return false;
            e = state(D, c, o);
            if (e.empty() && o.iters > i) e = "reports " + S(o.iters) + " iterations with a limit of " + S(i);
            if (e.empty() && i) {
                double a = energy(D, c, prev), b = energy(D, c, o);
                if (b > a + 1e-9 * (1 + a)) e = "total distance grows from " + fmt(a) + " to " + fmt(b) + "; before: " + prev.str();
                bool same = o.asg == prev.asg;
                if (e.empty() && conv && (!same || o.cen != prev.cen)) e = "the state changes after an iteration that changed nothing; before: " + prev.str();
                for (unsigned q = 0; q < c.k && e.empty() && !conv; q++) { // the medoid step, over the previous members
                    const double *om = &prev.cen[q * D.d], *nm = &o.cen[q * D.d]; double oc = cost(D, prev.asg, q, om, c.dist), nc = cost(D, prev.asg, q, nm, c.dist), best = oc; bool member = false;
                    for (size_t r = 0; r < D.n; r++) if (prev.asg[r] == q) { member |= std::equal(nm, nm + D.d, D.row(r)); best = std::min(best, cost(D, prev.asg, q, D.row(r), c.dist)); }
                    bool kept = std::equal(nm, nm + D.d, om);
                    if (!kept && !member) e = "the new medoid of cluster " + S(q) + " is none of its members";
                    else if (!kept && !(nc < oc + 1e-12)) e = "cluster " + S(q) + " moves to a worse medoid";
                    else if (c.rate >= 1 && nc > best + 1e-9) e = "cluster " + S(q) + " has a medoid of cost " + fmt(nc) + " though a sampled member has " + fmt(best);
                    if (!e.empty()) e += "; before: " + prev.str();
                    moved |= !kept;
                }
                if (e.empty() && conv && o.iters != at) e = "reports " + S(o.iters) + " iterations though it stopped after " + S(at);
                if (!conv && same) { conv = true; at = i; if (e.empty() && o.iters != i) e = "stops after " + S(i) + " iterations but reports " + S(o.iters); }
            }
            if (!e.empty()) { h().viol("state", "limit " + S(i) + ": " + e + "; " + o.str()); return false; }
            seq.push_back(o); prev = o; h().count("steps"); if (conv && i && seq.size() > 2 && seq[seq.size() - 2].asg == o.asg && seq[seq.size() - 3].asg == o.asg) break;
        }
        if (moved) h().count("nontrivial");
        for (double tol : {0.0, 0.5}) { // stops after the first iteration with few enough reassignments
            size_t stop = seq.size() - 1;
            for (size_t i = 1; i < seq.size(); i++) { size_t ch = 0; for (size_t r = 0; r < D.n; r++) ch += seq[i].asg[r] != seq[i - 1].asg[r]; if ((double)ch / D.n <= tol) { stop = i; break; } }
            c.tol = tol; c.mi = seq.size() - 1; Out o; if (!run_ok(c, D, o, "run")) return false;
            if (o.asg != seq[stop].asg || o.cen != seq[stop].cen) { h().viol("tolerance", "with tolerance " + fmt(tol) + ": " + o.str() + ", expected " + seq[stop].str()); return false; }
        }
        return true;
    });
}
// One iteration under every outcome of the sampling: each row is a candidate with the probability asked for, the best candidate of a cluster replaces a worse medoid.
static void sampled(const Data& D, Cfg c, const V& grid) {
    c.mi = 1; c.tol = -1; std::map<V, double> got, want; double runs = 0;
    explore_rng(grid, [&]() { Out o; if (!run_ok(c, D, o, "run")) return false; got[o.cen]++; runs++; return true; });
    if (h().capped) return;
    U asg(D.n); for (size_t i = 0; i < D.n; i++) { double b = 1e300, b2 = 1e300; for (unsigned q = 0; q < c.k; q++) { double x = rdist(D.row(i), &c.cen[q * D.d], D.d, c.dist); if (x < b) { b2 = b; b = x; asg[i] = q; } else b2 = std::min(b2, x); } if (b2 - b <= 1e-9) return; }
    for (unsigned m = 0; m < 1u << D.n; m++) {
        double p = 1; V cen = c.cen; for (size_t i = 0; i < D.n; i++) p *= m >> i & 1 ? c.rate : 1 - c.rate;
        for (unsigned q = 0; q < c.k; q++) {
            double cur = cost(D, asg, q, &c.cen[q * D.d], c.dist), best = cur; bool tie = false; size_t at = D.n;
            for (size_t i = 0; i < D.n; i++) if (asg[i] == q && m >> i & 1) { double x = cost(D, asg, q, D.row(i), c.dist); if (x < best - 1e-9) { best = x; at = i; tie = false; } else if (x < best + 1e-9) tie |= at == D.n ? !std::equal(D.row(i), D.row(i) + D.d, &c.cen[q * D.d]) : !std::equal(D.row(i), D.row(i) + D.d, D.row(at)); }
            if (tie) return; if (at < D.n) std::copy(D.row(at), D.row(at) + D.d, &cen[q * D.d]);
        }
        want[cen] += p;
    }
    h().count("frequencies"); if (want.size() > 1) h().count("nontrivial");
    for (auto& w : want) if (std::fabs(got[w.first] / runs - w.second) > 1e-9) { h().viol("sampling", "medoids " + fmt(w.first) + " follow in " + fmt(got[w.first] / runs) + " of the outcomes of the draws, expected " + fmt(w.second)); return; }
    for (auto& g : got) if (!want.count(g.first)) { h().viol("sampling", "medoids " + fmt(g.first) + " follow from no sample"); return; }
}
int main(int argc, char** argv) {
    h().init(argc, argv); bool th = h().thorough; std::string m = h().mode;
    struct Sh { size_t n, d; int lo, hi; std::vector<unsigned> ks; };
    std::vector<Sh> full = {{3, 1, -1, 2, {1, 2, 3}}, {4, 1, 0, 3, {1, 2}}, {3, 2, 0, 1, {2, 3}}, {5, 1, 0, 2, {2}}, {2, 2, -1, 1, {2}}, {1, 2, 0, 1, {1, 2}}};
    if (th) { full.push_back({5, 1, 0, 3, {1, 2, 3}}); full.push_back({3, 2, -1, 1, {1, 2}}); full.push_back({4, 2, 0, 1, {2, 3}}); full.push_back({6, 1, 0, 2, {2}}); full.push_back({4, 1, 0, 6, {1, 2}}); }
    std::vector<Sh> part = {{3, 1, 0, 2, {1, 2}}, {3, 2, 0, 1, {1, 2}}, {4, 1, 0, 2, {1, 2}}}; if (th) { part.push_back({5, 1, 0, 1, {2}}); part.push_back({4, 1, 0, 3, {2}}); part.push_back({3, 1, -2, 3, {1, 2}}); }
    auto go = [&](const std::vector<Sh>& shapes, double rate, unsigned maxit, const V& grid) {
        for (auto& s : shapes) for (unsigned k : s.ks) for (const char* dist : {"eucl", "taxi", "cos", "sqeucl"}) for (unsigned T : {1u, 2u, 3u}) {
            if (T > s.n || (std::string(dist) == "cos" && s.d == 1) || (rate < 1 && T == 2)) continue;
            tuples(s.n * s.d, s.lo, s.hi, [&](const std::vector<int>& v) {
                Cfg c; c.eng = "med"; c.k = k; c.dist = dist; c.T = T; c.init = "forgy"; c.rate = rate; if (T == 2) { c.src = "file"; c.nodes = 2; }
                if (h().next([&]() { return c.str() + " data=" + dspec(mk(s.n, s.d, v)); })) check(mk(s.n, s.d, v), c, maxit, grid);
                // given starting medoids: every choice of rows, repeated ones too
                Data D = mk(s.n, s.d, v); c.init = "none";
                tuples(k, 0, (int)s.n - 1, [&](const std::vector<int>& r) {
                    if (s.n > 3 && r[0] > 1) return;
                    c.cen.clear(); for (int x : r) c.cen.insert(c.cen.end(), D.row(x), D.row(x) + D.d);
                    if (h().next([&]() { return c.str() + " data=" + dspec(D); })) check(D, c, maxit, grid);
                });
            });
        }
    };
    if (m == "full") for (auto sh : std::vector<std::pair<size_t, size_t>>{{20, 5}, {33, 9}, {13, 17}, {50, 2}, {60, 70}, {300, 2}}) for (unsigned k : {2u, 5u, 9u, 260u}) for (const char* dist : {"eucl", "taxi", "cos", "sqeucl"}) for (unsigned T : {1u, 4u, 7u}) for (int p : {11, 101}) for (int a = 0; a < (th ? 4 : 2); a++) for (int b = 0; b < (th ? 4 : 2); b++) for (int form = 0; form < 2; form++) for (double sc : {1.0, 1e-5, -1e6}) {
        if (sc != 1 && (p == 11 || T == 4)) continue;
        if ((k == 260) != (sh.first == 300) || (sh.first >= 60 && (T == 1 || sc == 1))) continue;
        if (!h().next([&]() { return "family n=" + S(sh.first) + " d=" + S(sh.second) + " k=" + S(k) + " " + dist + " T=" + S(T) + " p=" + S(p) + " a=" + S(a) + " b=" + S(b) + " start=" + S(form) + " scale=" + fmt(sc); })) continue;
        Data D = family(sh.first, sh.second, a, b, 1, p, sc); Cfg c; c.eng = "med"; c.k = k; c.dist = dist; c.T = T; c.rate = 1; c.init = "none"; if (T == 4) { c.src = "file"; c.nodes = 2; }
        for (unsigned q = 0; q < k; q++) { const double* r = D.row(form ? q : (q * D.n / k) % D.n); c.cen.insert(c.cen.end(), r, r + D.d); }
        check(D, c, 12, {0.5});
    }
    if (m == "part") for (auto sh : std::vector<Sh>{{3, 1, 0, 5, {1, 2}}, {4, 1, 0, 3, {1, 2}}, {3, 2, 0, 2, {1, 2}}, {5, 1, 0, 2, {1}}}) for (double rate : {0.25, 0.5, 0.75}) for (unsigned k : sh.ks) for (const char* dist : {"eucl", "taxi", "cos", "sqeucl"}) {
        if ((std::string(dist) == "cos" && sh.d == 1) || (!th && rate != 0.5 && sh.n > 3)) continue;
        tuples(sh.n * sh.d, sh.lo, sh.hi, [&](const std::vector<int>& v) {
            Data D = mk(sh.n, sh.d, v); Cfg c; c.eng = "med"; c.k = k; c.dist = dist; c.rate = rate; c.init = "none";
            for (size_t r = 0; r + 1 < sh.n; r++) { c.cen.assign(D.row(r), D.row(r) + D.d); if (k == 2) c.cen.insert(c.cen.end(), D.row(sh.n - 1), D.row(sh.n - 1) + D.d); if (h().next([&]() { return "sampled " + c.str() + " data=" + dspec(D); })) sampled(D, c, rate == 0.5 ? V{0.25, 0.75} : V{0.125, 0.375, 0.625, 0.875}); }
        });
    }
    if (m == "full") go(full, 1, 7, {0.5}); else go(part, 0.5, th ? 4 : 3, {0.2, 0.9});
    return h().finish();
}
