// Fuzzy c-means: every iteration against the textbook update from the previous centres.
#include "engines.hpp"
using namespace vh;
static bool degenerate(const Data& D, const V& cen, size_t k, const std::string& dist) { // two centres (almost) on a row: rounding decides how they share it
    for (size_t i = 0; i < D.n; i++) for (size_t a = 0, z = 0, same = 0; a < k; a++) {
        double d = rdist(D.row(i), &cen[a * D.d], D.d, dist); if (d < 1e-6) { if (z && !(V(&cen[a * D.d], &cen[a * D.d] + D.d) == V(&cen[same * D.d], &cen[same * D.d] + D.d))) return true; z = 1; same = a; }
    }
    return false;
}
static void reference(const Data& D, const V& prev, size_t k, const std::string& dist, double m, std::vector<V>& u, V& cen) {
    u.assign(D.n, V(k)); cen.assign(k * D.d, 0); V w(k, 0);
    for (size_t i = 0; i < D.n; i++) {
        double s = 0; for (size_t a = 0; a < k; a++) { double d = std::max(rdist(D.row(i), &prev[a * D.d], D.d, dist), 2.2e-16); u[i][a] = std::pow(d, -1 / (m - 1)); s += u[i][a]; }
        for (size_t a = 0; a < k; a++) { u[i][a] /= s; double q = std::pow(u[i][a], m); w[a] += q; for (size_t j = 0; j < D.d; j++) cen[a * D.d + j] += q * D.row(i)[j]; }
    }
    for (size_t a = 0; a < k; a++) for (size_t j = 0; j < D.d; j++) cen[a * D.d + j] /= w[a];
}
static void check(const Data& D, Cfg c, unsigned maxit) {
    auto body = [&]() {
        Out prev; c.mi = 0; c.tol = -1; V start = c.cen;
        if (!run_ok(c, D, prev, "init")) return false;
        if (c.init == "none") { if (prev.cen != c.cen) { h().viol("start", "user centres " + fmt(c.cen) + " became " + fmt(prev.cen)); return false; } }
        else for (size_t a = 0; a < c.k; a++) { bool in = false; for (size_t i = 0; i < D.n; i++) in |= std::equal(D.row(i), D.row(i) + D.d, &prev.cen[a * D.d]); if (!in) { h().viol("start", "starting centre " + S(a) + " is not a row: " + fmt(prev.cen)); return false; } }
        std::vector<V> cens = {prev.cen}; std::vector<Out> seq; V p = prev.cen; bool moved = false;
        for (unsigned i = 1; i <= maxit; i++) {
            if (degenerate(D, p, c.k, c.dist)) { h().count("degenerate"); break; }
            c.mi = i; Out o; if (!run_ok(c, D, o, "run")) return false;
            std::vector<V> u; V want; reference(D, p, c.k, c.dist, c.fuzz, u, want);
            std::string e;
            if (o.nrow != D.n || o.ncol != D.d || o.asg.size() != D.n || o.cnt.size() != c.k || o.cen.size() != want.size()) e = "wrong dimensions";
            for (size_t q = 0; e.empty() && q < want.size(); q++) if (!near(o.cen[q], want[q], 1e-7)) e = "centres " + fmt(o.cen) + ", expected " + fmt(want) + " from " + fmt(p);
            std::vector<long long> n(c.k, 0);
            for (size_t r = 0; e.empty() && r < D.n; r++) {
                if (o.asg[r] >= c.k) { e = "row " + S(r) + " in cluster " + S(o.asg[r]); break; }
                n[o.asg[r]]++; double mx = *std::max_element(u[r].begin(), u[r].end());
                if (u[r][o.asg[r]] < mx - 1e-7) e = "row " + S(r) + " is reported in cluster " + S(o.asg[r]) + " with membership " + fmt(u[r][o.asg[r]]) + " of " + fmt(u[r]);
            }
            if (e.empty() && n != o.cnt) e = "sizes " + fmt(o.cnt) + " do not count the assignments " + fmt(o.asg);
            if (e.empty() && o.iters != i) e = "reports " + S(o.iters) + " iterations of " + S(i);
            if (!e.empty()) { h().viol("step", "iteration " + S(i) + ": " + e); return false; }
            if (i > 1) for (size_t q = 0; q < p.size(); q++) moved |= std::fabs(p[q] - o.cen[q]) > 1e-3;
            p = o.cen; cens.push_back(p); seq.push_back(o); h().count("steps");
        }
        if (moved) h().count("nontrivial");
        // tolerance: the run ends after the first iteration that moves the centres by less (Frobenius norm)
        for (double tol : {0.5, 0.05}) {
            size_t stop = 0; bool border = false;
            for (size_t i = 1; i < cens.size() && !stop; i++) { double s = 0; for (size_t q = 0; q < p.size(); q++) s += (cens[i][q] - cens[i - 1][q]) * (cens[i][q] - cens[i - 1][q]); s = std::sqrt(s); border |= std::fabs(s - tol) < 1e-6; if (s < tol) stop = i; }
            if (!stop || border) continue;
            c.tol = tol; c.mi = maxit; Out o; if (!run_ok(c, D, o, "run")) return false;
            if (!near(o.cen, cens[stop], 1e-7) || o.iters != stop) { h().viol("tolerance", "with tolerance " + fmt(tol) + " the run ends after " + S(o.iters) + " iterations with " + fmt(o.cen) + ", expected " + S(stop) + ": " + fmt(cens[stop])); return false; }
        }
        return true;
    };
    if (c.init == "none") body(); else explore_rng({0.5}, body);
}
int main(int argc, char** argv) {
    h().init(argc, argv); bool th = h().thorough; std::string m = h().mode;
    struct Sh { size_t n, d; int lo, hi; std::vector<unsigned> ks; };
    std::vector<Sh> shapes = {{3, 1, -1, 2, {1, 2, 3}}, {4, 1, 0, 3, {2, 3}}, {2, 2, -1, 1, {1, 2, 3}}, {3, 2, 0, 1, {2}}, {1, 1, 0, 2, {1, 2}}};
    if (th) { shapes.push_back({5, 1, 0, 3, {2, 3}}); shapes.push_back({3, 2, -1, 1, {2, 3}}); shapes.push_back({6, 1, 0, 2, {2, 3, 4}}); shapes.push_back({4, 2, 0, 1, {2, 3}}); shapes.push_back({4, 1, 0, 6, {2}}); }
    for (auto& s : shapes) for (unsigned k : s.ks) for (const char* dist : {"eucl", "taxi", "cos", "sqeucl"}) for (unsigned f : {2u, 3u, 5u}) for (unsigned T : {1u, 2u, 3u}) {
        if (T > s.n || (std::string(dist) == "cos" && s.d == 1)) continue;
        if (m == "forgy" && (T == 2 || (k == 3 && s.n > 3 && !th))) continue;
        tuples(s.n * s.d, s.lo, s.hi, [&](const std::vector<int>& v) {
            for (int var = 0; var < (m == "forgy" ? 1 : 3); var++) {
                Cfg c; c.eng = "fcm"; c.k = k; c.dist = dist; c.fuzz = f; c.T = T; c.init = m; c.nodes = T == 3 ? 2 : 1; if (T == 2) c.src = "file";
                Data D;
                if (!h().next([&]() { D = mk(s.n, s.d, v); if (m == "none") for (unsigned a = 0; a < k; a++) for (size_t j = 0; j < s.d; j++) c.cen.push_back(var == 0 ? s.lo + a * 1.0 : var == 1 ? s.lo + 0.3 + a * 0.9 + 0.25 * j : s.hi - a * (j % 2 ? -0.7 : 0.7)); return c.str() + " data=" + dspec(D); })) continue;
                check(D, c, th ? 6 : 4);
            }
        });
    }
    for (auto sh : std::vector<std::pair<size_t, size_t>>{{20, 5}, {33, 9}, {13, 17}, {40, 2}, {60, 70}, {300, 2}}) for (unsigned k : {2u, 5u, 9u, 260u}) for (const char* dist : {"eucl", "taxi", "cos", "sqeucl"}) for (unsigned f : {2u, 4u}) for (unsigned T : {1u, 4u, 7u}) for (int p : {11, 101}) for (int a = 0; a < (th ? 3 : 1); a++) for (int b = 0; b < (th ? 3 : 2); b++) for (int form = 0; form < 3; form++) for (int mag = 0; mag < 4; mag++) {
        if (m == "forgy") continue; if (mag && (b || T == 4 || (mag == 3 && std::string(dist) == "cos"))) continue; // as many starts as rows to the power k
        if ((k == 260) != (sh.first == 300) || (sh.first >= 60 && (T == 1 || mag || p == 11))) continue; if (!h().next([&]() { return "family n=" + S(sh.first) + " d=" + S(sh.second) + " k=" + S(k) + " " + dist + " fuzz=" + S(f) + " T=" + S(T) + " p=" + S(p) + " a=" + S(a) + " b=" + S(b) + " start=" + S(form) + " magnitude=" + S(mag); })) continue;
        Data D = family(sh.first, sh.second, a, b, 1, p); Cfg c; c.eng = "fcm"; c.k = k; c.dist = dist; c.fuzz = f; c.T = T; c.init = m; if (T == 7) { c.nodes = 3; c.src = "numa"; } if (T == 4) c.src = "file";
        if (m == "none") { c.cen = family_start(D, k, form); for (double& x : c.cen) x += 0.125; }
        static const double scales[] = {1, 1e-3, 1e6, 0.1}, shifts[] = {0, 0, -7e6, -500}; for (double& x : D.x) x = x * scales[mag] + shifts[mag]; for (double& x : c.cen) x = x * scales[mag] + shifts[mag];
        check(D, c, th ? 8 : 5);
    }
    if (m == "none") for (unsigned k : {2u, 3u}) for (unsigned T : {1u, 3u}) for (unsigned f : {2u, 5u}) for (int a = 0; a < (th ? 4 : 2); a++) { // many iterations
        if (!h().next([&]() { return "long k=" + S(k) + " fuzz=" + S(f) + " T=" + S(T) + " a=" + S(a); })) continue;
        Data D = family(14, 2, a, 1, 1, 29); Cfg c; c.eng = "fcm"; c.k = k; c.fuzz = f; c.T = T; c.init = m; c.cen = family_start(D, k, 0); for (double& x : c.cen) x += 0.125;
        check(D, c, 270);
    }
    return h().finish();
}
