// Distances, matrix operations and linear algebra against their definitions, for every small vector and matrix over a grid.
#include "engines.hpp"
#include "util.hpp"
#include "linalg.hpp"
#include "dense_matrix.hpp"
using namespace vh;
using namespace knor::base;
typedef dense_matrix<double> M;

static double def(const V& a, const V& b, const std::string& t) { return rdist(a.data(), b.data(), a.size(), t); }
static double fn(const V& a, const V& b, const std::string& t, bool raw) {
    if (raw) return dist_comp_raw<double>(a.data(), b.data(), (unsigned)a.size(), get_dist_type(t));
    return t == "eucl" ? eucl_dist(a.data(), b.data(), (unsigned)a.size()) : t == "cos" ? cos_dist(a.data(), b.data(), (unsigned)a.size()) : t == "taxi" ? taxi_dist(a.data(), b.data(), (unsigned)a.size()) : sqeucl_dist(a.data(), b.data(), (unsigned)a.size());
}
static void dist_mode() {
    bool th = h().thorough; struct G { size_t d; int lo, hi; double sc; };
    std::vector<G> gs = {{1, -6, 6, 1}, {1, -6, 6, 0.1}, {2, -3, 3, 1}, {2, -2, 2, 1e6}, {3, -1, 1, 0.7}, {3, -2, 1, 1}, {4, -1, 1, 1}, {5, 0, 1, -3}, {3, -3, 3, 1}, {4, -2, 1, 0.3}, {2, -12, 12, 0.01}, {6, 0, 1, 1}, {8, 0, 1, 1}};
    if (th) { gs.push_back({4, -3, 3, 1}); gs.push_back({5, -2, 2, 0.3}); gs.push_back({2, -30, 30, 0.01}); gs.push_back({6, -1, 1, 1}); gs.push_back({10, 0, 1, -1}); }
    for (auto& g : gs) tuples((int)g.d, g.lo, g.hi, [&](const std::vector<int>& a) {
        if (!h().next([&]() { return "dist d=" + S(g.d) + " scale=" + fmt(g.sc) + " a=" + fmt(a); })) return;
        h().count("nontrivial");
        V x; for (int v : a) x.push_back(v * g.sc);
        for (const char* t : {"eucl", "cos", "taxi", "sqeucl"}) {
            double z = fn(x, x, t, false); if (!near(z, 0)) { h().viol("identity", std::string(t) + " distance of a vector to itself is " + fmt(z)); }
            tuples((int)g.d, g.lo, g.hi, [&](const std::vector<int>& b) {
                V y; for (int v : b) y.push_back(v * g.sc); h().count("pairs");
                double v = fn(x, y, t, false), w = fn(y, x, t, false), r = fn(x, y, t, true), e = def(x, y, t);
                if (!std::isfinite(v) || !near(v, e)) h().viol("definition", std::string(t) + " distance to " + fmt(y) + " is " + fmt(v) + ", by definition " + fmt(e));
                if (!near(v, w)) h().viol("symmetry", std::string(t) + " distance to " + fmt(y) + " is " + fmt(v) + " but " + fmt(w) + " the other way");
                if (v < 0) h().viol("negative", std::string(t) + " distance to " + fmt(y) + " is " + fmt(v));
                if (!near(v, r)) h().viol("dispatch", std::string(t) + ": dist_comp_raw gives " + fmt(r) + " for " + fmt(v));
            });
        }
    });
    // longer vectors, every length
    for (size_t d = 1; d <= (th ? 300u : 130u); d++) for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (double sc : {1.0, 0.37, 1e5}) {
        if (!h().next([&]() { return "long d=" + S(d) + " family " + S(a) + "," + S(b) + " scale=" + fmt(sc); })) continue;
        h().count("nontrivial"); Data A = family(2, d, a, b, 1, 17, sc, -4 * sc); V x(A.row(0), A.row(0) + d), y(A.row(1), A.row(1) + d); for (size_t i = 0; i < d; i += 3) y[i] = b ? sc * (i % 5) : x[i];
        for (const char* t : {"eucl", "cos", "taxi", "sqeucl"}) for (int last = 0; last < 2; last++) { if (last) { y = x; y[d - 1] += sc; } double v = fn(x, y, t, false), w = fn(y, x, t, false), r = fn(x, y, t, true), e = def(x, y, t); h().count("pairs");
            if (!near(v, e) || !near(w, e) || !near(r, e)) h().viol("definition", std::string(t) + " distance is " + fmt(v) + ", " + fmt(w) + " the other way, " + fmt(r) + " by dist_comp_raw, by definition " + fmt(e)); }
    }
}
// ---- matrices
struct R { size_t r, c; V v; double at(size_t i, size_t j) const { return v[i * c + j]; } };
static std::string eq(M& m, const R& e, const char* what) {
    if (m.get_nrow() != e.r || m.get_ncol() != e.c) return std::string(what) + ": shape " + S(m.get_nrow()) + "x" + S(m.get_ncol()) + " instead of " + S(e.r) + "x" + S(e.c);
    if (m.as_vector().size() != e.r * e.c) return std::string(what) + ": holds " + S(m.as_vector().size()) + " values";
    for (size_t i = 0; i < e.r; i++) for (size_t j = 0; j < e.c; j++) if (!near(m.get(i, j), e.at(i, j)) || m.as_pointer()[i * e.c + j] != m.get(i, j)) return std::string(what) + ": element (" + S(i) + "," + S(j) + ") is " + fmt(m.get(i, j)) + ", expected " + fmt(e.at(i, j));
    return "";
}
static std::string eqv(const V& a, const V& e, const char* what) { return near(a, e) ? "" : std::string(what) + " is " + fmt(a) + ", expected " + fmt(e); }
template <class F> R map(const R& a, F f) { R r = a; for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) r.v[i * a.c + j] = f(a.at(i, j), i, j); return r; }
static M mk(const R& a) { M m(a.r, a.c); m.set(a.v.data()); return m; }
static std::string unary(const R& a) {
    std::string e; auto ck = [&](std::string s) { if (e.empty()) e = s; };
    auto own = [&](M* p, const R& x, const char* w) { ck(eq(*p, x, w)); delete p; };
    M m = mk(a); ck(eq(m, a, "set/get"));
    { M z(a.r, a.c, true); ck(eq(z, map(a, [](double, size_t, size_t) { return 0; }), "zeros")); for (size_t i = 0; i < a.r; i++) z.set_row(&a.v[i * a.c], i); ck(eq(z, a, "set_row")); z.zero(); ck(eq(z, map(a, [](double, size_t, size_t) { return 0; }), "zero")); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) z.set(i, j, a.at(i, j)); ck(eq(z, a, "set")); if (!(z == m)) ck("equal matrices compare unequal"); z.peq(a.r - 1, a.c - 1, 1); if (z == m) ck("different matrices compare equal"); ck(eq(z, map(a, [&](double v, size_t i, size_t j) { return v + (i == a.r - 1 && j == a.c - 1); }), "peq")); M o(a.c + 1, a.r); if (o == m) ck("matrices of different shape compare equal"); o.copy_from(&m); ck(eq(o, a, "copy_from")); }
    own(M::create(&m), a, "create from another");
    { M* t = M::create(); t->resize(a.r, a.c); t->set(a.v.data()); own(t, a, "resize"); }
    V col(a.c, 0), row(a.r, 0); double s = 0, f = 0; std::vector<unsigned> ar(a.r, 0), ac(a.c, 0);
    for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) { double v = a.at(i, j); col[j] += v; row[i] += v; s += v; f += v * v; if (v > a.at(i, ar[i])) ar[i] = j; if (v > a.at(ac[j], j)) ac[j] = i; }
    for (size_t stale = 0; stale < 3; stale++) { // results that hold something already
        V x(stale ? a.r * stale + stale - 1 : 0, 9), y = x, z = x, w = x; m.sum(0, x); ck(eqv(x, col, "column sums")); m.sum(1, y); ck(eqv(y, row, "row sums"));
        V cm = col, rm = row; for (auto& v : cm) v /= a.r; for (auto& v : rm) v /= a.c; m.mean(z, 1); ck(eqv(z, cm, "column means")); m.mean(w, 0); ck(eqv(w, rm, "row means"));
        std::vector<unsigned> p(stale * 4, 7), q = p; m.argmax(0, p); m.argmax(1, q); if (p.size() != a.r || q.size() != a.c) ck("argmax has the wrong length");
        for (size_t i = 0; i < a.r && i < p.size(); i++) if (p[i] >= a.c || a.at(i, p[i]) != a.at(i, ar[i])) ck("argmax of row " + S(i) + " is " + S(p[i])); for (size_t j = 0; j < a.c && j < q.size(); j++) if (q[j] >= a.r || a.at(q[j], j) != a.at(ac[j], j)) ck("argmax of column " + S(j) + " is " + S(q[j]));
    }
    if (!near(m.sum(), s)) ck("sum is " + fmt(m.sum())); if (!near(m.frobenius_norm(), std::sqrt(f))) ck("norm is " + fmt(m.frobenius_norm()));
    V dr(a.r), dc(a.c); for (size_t i = 0; i < a.r; i++) dr[i] = i % 2 ? -2 : 4 + i; for (size_t j = 0; j < a.c; j++) dc[j] = j % 2 ? 5 : -1.0 - j;
    { M t = mk(a); M& u = t /= 4; ck(eq(t, map(a, [](double v, size_t, size_t) { return v / 4; }), "division")); if (&u != &t) ck("division returns another matrix"); }
    if (a.r != a.c) { M t = mk(a); t /= dr; ck(eq(t, map(a, [&](double v, size_t i, size_t) { return v / dr[i]; }), "division by row")); M u = mk(a); u /= dc; ck(eq(u, map(a, [&](double v, size_t, size_t j) { return v / dc[j]; }), "division by column")); }
    { M t = mk(a); t.div_eq(dc, 0); ck(eq(t, map(a, [&](double v, size_t, size_t j) { return v / dc[j]; }), "div_eq columns")); M u = mk(a); u.div_eq(dr, 1); ck(eq(u, map(a, [&](double v, size_t i, size_t) { return v / dr[i]; }), "div_eq rows")); }
    for (unsigned x : {1u, 2u, 3u}) { M t = mk(a); t.div_eq_pow(dc, 0, x); ck(eq(t, map(a, [&](double v, size_t, size_t j) { return std::pow(v / dc[j], x); }), "div_eq_pow columns")); M u = mk(a); u.div_eq_pow(dr, 1, x); ck(eq(u, map(a, [&](double v, size_t i, size_t) { return std::pow(v / dr[i], x); }), "div_eq_pow rows")); M w = mk(a); w.pow_eq(x); ck(eq(w, map(a, [&](double v, size_t, size_t) { return std::pow(v, x); }), "pow_eq")); }
    own(m - dr, map(a, [&](double v, size_t i, size_t) { return v - dr[i]; }), "minus a vector per row"); if (a.r != a.c) own(m - dc, map(a, [&](double v, size_t, size_t j) { return v - dc[j]; }), "minus a vector per column");
    ck(eq(m, a, "the operand afterwards"));
    // wrong lengths and axes are refused
    V bad(a.r + a.c + 1, 1), o2; std::vector<unsigned> oi; auto refused = [&](const char* w, std::function<void()> g) { try { g(); ck(std::string(w) + " is accepted"); } catch (std::exception&) {} };
    refused("division by a vector of the wrong length", [&]() { M t = mk(a); t /= bad; }); refused("div_eq by a vector of the wrong length", [&]() { M t = mk(a); t.div_eq(bad, 0); }); refused("div_eq_pow by a vector of the wrong length", [&]() { M t = mk(a); t.div_eq_pow(bad, 1, 2); });
    refused("subtraction of a vector of the wrong length", [&]() { delete (m - bad); }); refused("argmax over axis 2", [&]() { m.argmax(2, oi); }); refused("sum over axis 2", [&]() { m.sum(2, o2); });
    return e;
}
static std::string binary(const R& a, const R& b) {
    std::string e; auto ck = [&](std::string s) { if (e.empty()) e = s; }; M x = mk(a), y = mk(b);
    if (a.r == b.r && a.c == b.c) {
        M* p = x + y; ck(eq(*p, map(a, [&](double v, size_t i, size_t j) { return v + b.at(i, j); }), "sum")); delete p; p = x - y; ck(eq(*p, map(a, [&](double v, size_t i, size_t j) { return v - b.at(i, j); }), "difference")); delete p;
        M t = mk(a); t += y; ck(eq(t, map(a, [&](double v, size_t i, size_t j) { return v + b.at(i, j); }), "+=")); if ((x == y) != (a.v == b.v)) ck("== is wrong");
    }
    if (a.c == b.r) { R pr{a.r, b.c, V(a.r * b.c, 0)}; for (size_t i = 0; i < a.r; i++) for (size_t k = 0; k < a.c; k++) for (size_t j = 0; j < b.c; j++) pr.v[i * b.c + j] += a.at(i, k) * b.at(k, j); M* p = x * y; ck(eq(*p, pr, "product")); delete p; }
    if (a.r == 1) { V r(b.c + 1, 5), w(b.c, 0); if (a.c == b.r) { V av = a.v; linalg::dot(av.data(), y.as_pointer(), b.r, b.c, r); for (size_t k = 0; k < b.r; k++) for (size_t j = 0; j < b.c; j++) w[j] += a.v[k] * b.at(k, j); ck(eqv(r, w, "vector times matrix")); } }
    ck(eq(x, a, "left operand afterwards")); ck(eq(y, b, "right operand afterwards"));
    return e;
}
static void in_run(unsigned T, const std::function<std::string()>& f, const char* kind) {
    std::string e; if (!exec_ok(kind, [&]() { vrt::set_omp_max_threads(T); e = f(); })) return;
    if (!e.empty()) h().viol(kind, e);
}
static void matrix_mode() {
    bool th = h().thorough; struct G { size_t r, c; int lo, hi; double sc; };
    std::vector<G> gs = {{1, 1, -3, 3, 1}, {1, 2, -3, 3, 0.5}, {2, 1, -3, 3, 1}, {1, 4, -1, 1, 1}, {4, 1, -1, 1, 3}, {2, 2, -2, 2, 1}, {2, 3, -1, 1, 0.5}, {3, 2, -1, 1, 1}, {3, 3, 0, 1, -1}, {3, 3, -1, 1, 1}, {2, 4, -1, 1, 1}, {5, 1, -1, 1, 1}};
    if (th) { gs.push_back({2, 5, -1, 1, 1}); gs.push_back({2, 3, -2, 2, 1}); gs.push_back({2, 3, -2, 1, 1}); gs.push_back({3, 2, -2, 1, 1}); gs.push_back({4, 2, -1, 1, 1}); gs.push_back({3, 4, 0, 1, -2}); }
    for (auto& g : gs) tuples((int)(g.r * g.c), g.lo, g.hi, [&](const std::vector<int>& a) { for (unsigned T : {1u, 3u}) {
        if (!h().next([&]() { return "matrix " + S(g.r) + "x" + S(g.c) + " scale=" + fmt(g.sc) + " T=" + S(T) + " " + fmt(a); })) continue;
        if (g.r * g.c > 1) h().count("nontrivial");
        R r{g.r, g.c, V()}; for (int v : a) r.v.push_back(v * g.sc);
        in_run(T, [&]() { return unary(r); }, "matrix");
    } });
    const size_t big[][2] = {{1, 33}, {33, 1}, {9, 5}, {5, 9}, {20, 20}, {70, 3}, {3, 70}, {300, 2}, {2, 300}};
    for (auto& b : big) for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) for (unsigned T : {1u, 3u, 8u}) {
        if (!h().next([&]() { return "large " + S(b[0]) + "x" + S(b[1]) + " family " + S(x) + "," + S(y) + " T=" + S(T); })) continue;
        h().count("nontrivial"); Data D = family(b[0], b[1], x, y, 1, 19, 0.5, -4); R p{b[0], b[1], D.x}; in_run(T, [&]() { return unary(p); }, "matrix");
        for (size_t c2 : {(size_t)1, b[0], (size_t)11}) { Data E = family(b[1], c2, y, x, 2, 7, 1, -2); R q{b[1], c2, E.x}; in_run(T, [&]() { return binary(p, q); }, "pair"); }
        Data E = family(b[0], b[1], y, x, 2, 7, 1, -2); R q{b[0], b[1], E.x}; in_run(T, [&]() { return binary(p, q); }, "pair");
    }
    struct B { size_t r, c, r2, c2; int lo, hi; };
    std::vector<B> bs = {{1, 1, 1, 1, -2, 2}, {1, 2, 2, 1, -2, 2}, {2, 1, 1, 2, -1, 1}, {2, 2, 2, 2, -1, 1}, {1, 2, 2, 3, -1, 1}, {1, 3, 3, 2, -1, 1}, {3, 1, 1, 3, -1, 1}, {2, 3, 3, 1, -1, 1}, {2, 3, 3, 2, 0, 1}, {1, 3, 1, 3, -1, 1}, {3, 1, 3, 1, -1, 1}, {2, 3, 2, 3, 0, 1}};
    if (th) { bs.push_back({3, 2, 2, 3, 0, 1}); bs.push_back({2, 2, 2, 3, -1, 1}); bs.push_back({3, 2, 2, 2, -1, 1}); bs.push_back({2, 4, 4, 1, -1, 0}); }
    for (auto& b : bs) tuples((int)(b.r * b.c), b.lo, b.hi, [&](const std::vector<int>& x) {
        if (!h().next([&]() { return "pair " + S(b.r) + "x" + S(b.c) + "," + S(b.r2) + "x" + S(b.c2) + " left=" + fmt(x); })) return;
        if (b.r * b.c > 1) h().count("nontrivial");
        tuples((int)(b.r2 * b.c2), b.lo, b.hi, [&](const std::vector<int>& y) {
            h().count("pairs"); R p{b.r, b.c, V(x.begin(), x.end())}, q{b.r2, b.c2, V(y.begin(), y.end())}; for (auto& v : p.v) v *= 1.5;
            std::string w; if (!exec_ok("pair", [&]() { vrt::set_omp_max_threads(2); w = binary(p, q); })) return; if (!w.empty()) h().viol("pair", w + " with right=" + fmt(y)); });
    });
}
// ---- determinant, adjoint, inverse by the Leibniz formula on integers
static long det(const std::vector<long>& a, size_t n) {
    std::vector<size_t> p(n); for (size_t i = 0; i < n; i++) p[i] = i; long s = 0;
    do { long t = 1; for (size_t i = 0; i < n; i++) { t *= a[i * n + p[i]]; for (size_t j = 0; j < i; j++) if (p[j] > p[i]) t = -t; } s += t; } while (std::next_permutation(p.begin(), p.end()));
    return s;
}
static void det_mode() {
    bool th = h().thorough; struct G { size_t n; int lo, hi; double sc; };
    std::vector<G> gs = {{1, -3, 3, 1}, {2, -3, 3, 1}, {2, -3, 3, 0.5}, {3, -1, 1, 1}, {3, 0, 2, 2}, {4, 0, 1, 1}, {3, -2, 1, 1}};
    if (th) { gs.push_back({5, 0, 1, 1}); gs.push_back({3, -2, 2, 1}); gs.push_back({4, -1, 0, 0.5}); }
    for (auto& g : gs) tuples((int)(g.n * g.n), g.lo, g.hi, [&](const std::vector<int>& a) {
        if (!h().next([&]() { return "det n=" + S(g.n) + " scale=" + fmt(g.sc) + " " + fmt(a); })) return;
        if (g.n > 1) h().count("nontrivial");
        size_t n = g.n; std::vector<long> A(a.begin(), a.end()); V x; for (int v : a) x.push_back(v * g.sc); const V was = x; std::string e;
        double want = det(A, n) * std::pow(g.sc, n), got = linalg::determinant(&x[0], n, n);
        if (!near(got, want)) e = "determinant is " + fmt(got) + ", expected " + fmt(want);
        V adj(n * n, 9), wa(n * n); linalg::adjoint(&x[0], &adj[0], n); // adj[j][i] is the cofactor of (i,j)
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { std::vector<long> m; for (size_t r = 0; r < n; r++) for (size_t c = 0; c < n; c++) if (r != i && c != j) m.push_back(A[r * n + c]); wa[j * n + i] = n == 1 ? 1 : ((i + j) % 2 ? -1 : 1) * det(m, n - 1) * std::pow(g.sc, n - 1); }
        if (e.empty() && !near(adj, wa)) e = "adjoint is " + fmt(adj) + ", expected " + fmt(wa);
        M m(n, n); m.set(x.data()); M* pa = linalg::adjoint(&m); if (e.empty() && !near(pa->as_vector(), wa)) e = "adjoint of a matrix object is " + fmt(pa->as_vector()); delete pa;
        V inv(n * n, 9); bool ok = linalg::inverse(&x[0], &inv[0], n);
        if (e.empty() && ok != (det(A, n) != 0)) e = ok ? "a singular matrix is inverted" : "an invertible matrix is called singular";
        if (e.empty() && ok) for (size_t i = 0; i < n && e.empty(); i++) for (size_t j = 0; j < n; j++) { double s = 0; for (size_t k = 0; k < n; k++) s += was[i * n + k] * inv[k * n + j]; if (!near(s, i == j ? 1 : 0, 1e-8)) e = "the inverse is " + fmt(inv); }
        if (e.empty() && x != was) e = "the operand is modified";
        if (!e.empty()) h().viol("det", e);
    });
}
// ---- vector helpers
static void helper_mode() {
    bool th = h().thorough; struct G { size_t d; int lo, hi; double sc; };
    std::vector<G> gs = {{1, -4, 4, 1}, {2, -4, 4, 0.5}, {3, -2, 2, 1}, {4, -1, 1, 2}, {5, -1, 1, 1}}; gs.push_back({4, -2, 2, 1}); gs.push_back({6, -1, 1, 1}); if (th) { gs.push_back({5, -2, 2, 1}); gs.push_back({8, -1, 1, 1}); }
    typedef std::function<void(const std::vector<int>&)> On;
    struct L { size_t d; double sc; }; auto vec = [&](const L& g, const std::vector<int>& a, const std::function<void(const On&)>& others) {
        if (!h().next([&]() { return "vector d=" + S(g.d) + " scale=" + fmt(g.sc) + " " + fmt(a); })) return;
        if (g.d > 1) h().count("nontrivial");
        std::string e; auto ck = [&](std::string s) { if (e.empty()) e = s; }; size_t n = g.d; V x; for (int v : a) x.push_back(v * g.sc);
        double mean = 0, var = 0, nn = 0; for (double v : x) { mean += v / n; nn += v * v; } for (double v : x) var += (v - mean) * (v - mean) / n;
        V w = x, s = x; for (auto& v : w) v = (v - mean) / (var > 1e-12 ? std::sqrt(var) : 1); linalg::scale(&s[0], n); ck(eqv(s, w, "scaled vector"));
        if (!near(linalg::frobenius_norm(x.data(), n), std::sqrt(nn))) ck("norm is " + fmt(linalg::frobenius_norm(x.data(), n)));
        for (size_t stale = 0; stale < 2; stale++) for (double f : {-2.0, 0.0, 3.0}) { V r(stale * n, 7), q = x; V y = x; linalg::scale(y, f, r); for (auto& v : q) v *= f; ck(eqv(r, q, "vector times a number")); r.assign(stale * n, 7); q = x; if (f == 0) { linalg::pow(y, r, 2); for (auto& v : q) v = v * v; } else { linalg::pow(y, r, f == 3 ? 3 : 1); for (auto& v : q) v = f == 3 ? v * v * v : v; } ck(eqv(r, q, "powers")); }
        // spherical projection of rows: the whole vector as one row, and as n rows of one
        for (size_t rows : {(size_t)1, n}) { V p = x; size_t c = n / rows; std::string f2; if (!exec_ok("vector", [&]() { vrt::set_omp_max_threads(2); spherical_projection(&p[0], rows, c); })) return; for (size_t i = 0; i < rows; i++) { double l = 0; for (size_t j = 0; j < c; j++) l += x[i * c + j] * x[i * c + j]; for (size_t j = 0; j < c; j++) if (!near(p[i * c + j], l > 0 ? x[i * c + j] / std::sqrt(l) : 0)) ck("projection is " + fmt(p)); } }
        for (unsigned k = 1; k <= 2; k++) { double b = 0, sm = 0; for (double v : x) sm += v; if (!exec_ok("vector", [&]() { vrt::set_omp_max_threads(3); b = get_bic(x, 7, 2, k); })) return; if (!near(b, 2 * sm + std::log(7.0) * 2 * k)) ck("get_bic is " + fmt(b)); }
        if (v_eq_const(x, x[0]) != (x == V(n, x[0]))) ck("v_eq_const is wrong");
        others([&](const std::vector<int>& b) {
            V y; for (int v : b) y.push_back(v * g.sc); h().count("pairs"); double d = 0; V df(n); for (size_t i = 0; i < n; i++) { d += x[i] * y[i]; df[i] = x[i] - y[i]; }
            double d1 = linalg::dot(x.data(), y.data(), n), d2 = linalg::dot(x, y); if (!near(d1, d) || !near(d2, d)) ck("dot product with " + fmt(y) + " is " + fmt(d1));
            V r; linalg::vdiff(x.data(), y.data(), n, r); ck(eqv(r, df, "difference")); r.assign(n, 4); linalg::vdiff(x.data(), y.data(), n, r); ck(eqv(r, df, "difference into a result")); V p = x; linalg::peq(&p[0], y.data(), n); V sm = x; for (size_t i = 0; i < n; i++) sm[i] += y[i]; ck(eqv(p, sm, "+="));
            bool same = x == y; if (eq_all(x.data(), y.data(), (unsigned)n) != same) ck("eq_all says " + S(!same) + " for " + fmt(y)); if (v_eq(x, y) != same) ck("v_eq says " + S(!same) + " for " + fmt(y));
            V longer = y; longer.push_back(0); if (v_eq(x, longer) || v_eq(longer, x)) ck("vectors of different length are equal");
        });
        if (!e.empty()) h().viol("vector", e);
    };
    for (auto& g : gs) tuples((int)g.d, g.lo, g.hi, [&](const std::vector<int>& a) { vec({g.d, g.sc}, a, [&](const On& f) { tuples((int)g.d, g.lo, std::min(g.hi, g.lo + (g.d > 3 ? 1 : 3)), f); }); });
    for (size_t d : {7u, 8u, 9u, 16u, 17u, 33u, 64u, 100u, 129u}) for (int x = 0; x < 4; x++) for (int y = 0; y < 4; y++) for (double sc : {1.0, 0.3}) {
        Data A = family(2, d, x, y, 1, 9, 1, -3); std::vector<int> a(A.row(0), A.row(0) + d), b(A.row(1), A.row(1) + d);
        vec({d, sc}, a, [&](const On& f) { f(b); f(a); for (size_t i = 0; i < d; i++) { std::vector<int> c = a; c[i]++; f(c); } });
    }
    for (unsigned k = 1; k <= (th ? 200000u : 20000u); k++) {
        if (!h().next("k=" + S(k))) continue;
        unsigned lo = 1; while (lo * 2 <= k) lo *= 2; unsigned hi = lo == k ? k : lo * 2; unsigned nodes = 0; for (unsigned i = 1; i <= k; i *= 2) nodes += i;
        if (get_hclust_floor(k) != lo) h().viol("pow2", "largest power of two up to k is " + S(get_hclust_floor(k))); if (get_hclust_ceil(k) != hi) h().viol("pow2", "smallest power of two from k is " + S(get_hclust_ceil(k))); if (get_max_hnodes(k) != nodes) h().viol("pow2", "get_max_hnodes is " + S(get_max_hnodes(k)));
    }
    // names
    for (auto s : {"eucl", "cos", "taxi", "sqeucl", "EUCL", "", "euc", "eucll", "euclidean"}) if (h().next(std::string("distance name '") + s + "'")) { std::string n = s; bool ok = n == "eucl" || n == "cos" || n == "taxi" || n == "sqeucl"; int t = -1; try { t = (int)get_dist_type(n); } catch (std::exception&) {} int w = n == "eucl" ? (int)dist_t::EUCL : n == "cos" ? (int)dist_t::COS : n == "taxi" ? (int)dist_t::TAXI : n == "sqeucl" ? (int)dist_t::SQEUCL : -1; if (t != w) h().viol("name", ok ? "selects another distance" : "is accepted"); }
    for (auto s : {"random", "forgy", "kmeanspp", "none", "", "Forgy", "kmeans++", "non"}) if (h().next(std::string("initialisation name '") + s + "'")) { std::string n = s; int t = -1; try { t = (int)get_init_type(n); } catch (std::exception&) {} int w = n == "random" ? (int)init_t::RANDOM : n == "forgy" ? (int)init_t::FORGY : n == "kmeanspp" ? (int)init_t::PLUSPLUS : n == "none" ? (int)init_t::NONE : -1; if (t != w) h().viol("name", "wrong initialisation selected"); }
}
int main(int argc, char** argv) {
    h().init(argc, argv); std::string m = h().mode;
    if (m == "dist") dist_mode(); else if (m == "matrix") matrix_mode(); else if (m == "det") det_mode(); else if (m == "helper") helper_mode(); else return 70;
    return h().finish();
}
