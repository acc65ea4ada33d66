// Divisive clustering (plain, x-means, g-means): for every dataset, limit and outcome of the draws a partition of all rows.
#include "engines.hpp"
using namespace vh;
static std::string eng; static bool decide; // mode xm+, gm+: is a division kept when it should be
static std::string judge(const Data& D, const Cfg& c, const Out& o) {
    if (o.nrow != D.n || o.ncol != D.d || o.asg.size() != D.n) return "reports " + S(o.nrow) + "x" + S(o.ncol) + " and " + S(o.asg.size()) + " assignments";
    std::map<unsigned, long long> cnt; std::map<unsigned, V> mean;
    for (size_t i = 0; i < D.n; i++) { cnt[o.asg[i]]++; V& m = mean[o.asg[i]]; m.resize(D.d); for (size_t j = 0; j < D.d; j++) m[j] += D.row(i)[j]; }
    long long tot = 0, live = 0;
    for (size_t a = 0; a < o.cnt.size(); a++) { tot += o.cnt[a]; live += o.cnt[a] > 0; }
    if (tot != (long long)D.n) return "sizes sum to " + S(tot) + " for " + S(D.n) + " rows";
    for (auto& p : cnt) if (p.first >= o.cnt.size() || o.cnt[p.first] != p.second) return "cluster " + S(p.first) + " has " + S(p.second) + " rows but reports " + (p.first < o.cnt.size() ? S(o.cnt[p.first]) : std::string("nothing"));
    if (live != (long long)cnt.size()) return "reports members for a cluster without rows";
    if (cnt.size() > c.k) return S(cnt.size()) + " clusters with a limit of " + S(c.k);
    // the reported centroids are those of the non-empty clusters, in order of their ids
    if (o.cen.size() != cnt.size() * D.d) return S(o.cen.size() / D.d) + " centroids for " + S(cnt.size()) + " clusters";
    size_t a = 0;
    for (auto& p : mean) { for (size_t j = 0; j < D.d; j++) if (!near(o.cen[a * D.d + j], p.second[j] / cnt[p.first])) return "centroid of cluster " + S(p.first) + " is " + fmt(o.cen[a * D.d + j]) + ", the mean of its rows is " + fmt(p.second[j] / cnt[p.first]); a++; }
    return "";
}
typedef std::vector<unsigned> Part;
static Part canon(const U& a) { std::map<unsigned, unsigned> m; Part s; for (unsigned x : a) { if (!m.count(x)) { unsigned id = m.size(); m[x] = id; } s.push_back(m[x]); } return s; }
static std::string txt(const Part& p) { std::string s; for (unsigned x : p) s += x < 26 ? std::string(1, (char)('a' + x)) : "," + S(x); return s; }
// One division of the rows R from two starts: the parts, the means, the sum of the distances (squared if Euclidean) of the rows to the centre they went to.
// False when rounding, a tie or an emptied part leaves the outcome open.
struct Div { std::vector<size_t> p[2]; V mean; double near_sum; };
static bool divide(const Data& D, const Cfg& c, const std::vector<size_t>& R, V cen, Div& o) {
    std::vector<unsigned> a(R.size(), 9);
    for (unsigned it = 0; it < c.mi; it++) {
        size_t n[2] = {0, 0}, ch = 0; V m(2 * D.d, 0); o.near_sum = 0; o.p[0].clear(); o.p[1].clear();
        for (size_t r = 0; r < R.size(); r++) {
            const double* row = D.row(R[r]); double x = rdist(row, &cen[0], D.d, c.dist), y = rdist(row, &cen[D.d], D.d, c.dist); if (std::fabs(x - y) <= 1e-9 * (1e-30 + x + y)) return false;
            unsigned q = y < x; ch += a[r] != q; a[r] = q; n[q]++; o.p[q].push_back(R[r]); o.near_sum += (q ? y : x) * (c.dist == "eucl" ? q ? y : x : 1); for (size_t j = 0; j < D.d; j++) m[q * D.d + j] += row[j];
        }
        if (!n[0] || !n[1]) return false;
        for (int q = 0; q < 2; q++) for (size_t j = 0; j < D.d; j++) cen[q * D.d + j] = m[q * D.d + j] / n[q];
        if (!ch || ch / (double)R.size() <= c.tol) break;
    }
    o.mean = cen; return true;
}
// Is the division of R into o.p worth it? 1 yes, 0 no, -1 too close to call
static int worth(const Data& D, const Cfg& c, const std::vector<size_t>& R, const Div& o) {
    double N = R.size(), M = D.d;
    if (eng == "xm") { // Bayesian information criterion of two clusters against one; the spread is the mean distance, squared if Euclidean
        if (N <= 2) return 0;
        V m(D.d, 0); double ps = 0, cs = o.near_sum; for (size_t i : R) for (size_t j = 0; j < D.d; j++) m[j] += D.row(i)[j] / N;
        for (size_t i : R) { double x = rdist(D.row(i), m.data(), D.d, c.dist); ps += x * (c.dist == "eucl" ? x : 1); }
        if (cs <= 1e-9 * ps) return cs <= 1e-13 * ps && cs == 0 && ps > 0 ? 1 : -1;
        auto ll = [&](double n, double K, double s) { return n * std::log(n / N) - n / 2 * std::log(2 * M_PI) - n * M / 2 * std::log(s) - (n - K) / 2; };
        auto pen = [&](double K) { return (K - 1 + M * K + 1) / 2 * std::log(N); };
        double one = ll(N, 1, ps / (N - 1)) - pen(1), two = ll(o.p[0].size(), 2, cs / (N - 2)) + ll(o.p[1].size(), 2, cs / (N - 2)) - pen(2);
        return std::fabs(one - two) <= 1e-7 * (1 + std::fabs(one) + std::fabs(two)) ? -1 : two > one;
    }
    if (eng == "gm") { // Anderson-Darling test of normality of the rows along the line through the two means
        static const double crit[] = {0.576, 0.656, 0.787, 0.918, 1.092};
        double corr = 1 + 4 / N - 25 / (N * N); if (corr <= 0) return 0;
        V x; for (size_t i : R) { double s = 0; for (size_t j = 0; j < D.d; j++) s += D.row(i)[j] * (o.mean[j] - o.mean[D.d + j]); x.push_back(s); }
        std::sort(x.begin(), x.end()); double mu = 0, sd = 0; for (double v : x) mu += v / N; for (double v : x) sd += (v - mu) * (v - mu); sd = std::sqrt(sd / (N - 1));
        if (!(sd > 1e-9 * (std::fabs(mu) + 1e-300))) return -1;
        double A = -N; for (size_t i = 0; i < x.size(); i++) A -= (2 * i + 1) / N * (std::log(.5 * std::erfc(-(x[i] - mu) / sd / std::sqrt(2.))) + std::log(.5 * std::erfc((x[x.size() - 1 - i] - mu) / sd / std::sqrt(2.))));
        double cv = crit[c.strict] / corr; return std::isnan(A) ? -1 : A > 1e30 ? 1 : std::fabs(A - cv) <= 1e-6 * (1 + A) ? -1 : A > cv;
    }
    return 1;
}
// The whole hierarchy: every divided cluster starts from its first two rows; when the limit leaves room for some only, `got` says which.
// In the other modes of x-means and g-means it also says which divisions were kept. Empty when the outcome is open or as it should be.
static std::string hierarchy(const Data& D, const Cfg& c, const V& starts, const U& got) {
    size_t cap = 1; while (cap * 2 <= c.k) cap *= 2;
    std::vector<std::vector<size_t>> cand(1), fin; for (size_t i = 0; i < D.n; i++) cand[0].push_back(i);
    auto names = [](const std::vector<size_t>& r) { std::string s; for (size_t i : r) s += (s.empty() ? "{" : ",") + S(i); return s + "}"; };
    auto apart = [&](const std::vector<size_t>& r) { for (size_t i : r) if (got[i] != got[r[0]]) return true; return false; };
    size_t cur = 1, room = 1, level = 0;
    while (!cand.empty()) {
        std::vector<std::vector<size_t>> next; size_t kept = 0, rej = 0; bool all = cand.size() <= room;
        for (auto& R : cand) {
            V st = starts; if (level) { st.assign(D.row(R[0]), D.row(R[0]) + D.d); st.insert(st.end(), D.row(R[1]), D.row(R[1]) + D.d); }
            Div o; if (!divide(D, c, R, st, o)) return ""; int w = decide ? worth(D, c, R, o) : eng == "hc" || apart(R); if (w < 0) return "";
            h().count("divisions"); if (!w) { rej++; h().count("rejected"); }
            if (!w || (!all && !apart(R))) { if (!w && apart(R)) return "cluster " + names(R) + " is divided although that does not pay"; fin.push_back(R); continue; }
            kept++; for (int q = 0; q < 2; q++) next.push_back(o.p[q]);
        }
        if (!all && (kept > room || ((decide || eng == "hc") && kept + rej < room))) return S(kept) + " clusters are divided at level " + S(level) + ", there is room for " + S(room);
        cur += kept; room = cap - cur; level++; cand.clear();
        for (auto& R : next) if (room && R.size() >= std::max(2u, c.minsz)) cand.push_back(R); else fin.push_back(R);
    }
    U want(D.n); for (size_t q = 0; q < fin.size(); q++) for (size_t i : fin[q]) want[i] = q;
    h().count("hierarchies"); if (fin.size() > 2) h().count("deep"); if (fin.size() > 2 && fin.size() < cap) h().count("steady");
    return canon(want) == canon(got) ? "" : "the rows are divided " + txt(canon(got)) + ", the division of the clusters gives " + txt(canon(want));
}
// the rows of a split after enough iterations: nearest to the mean of their own part
static std::string settled(const Data& D, const std::vector<size_t>& x, const std::vector<size_t>& y, const std::string& dist) {
    V m[2]; const std::vector<size_t>* p[2] = {&x, &y}; for (int q = 0; q < 2; q++) { m[q].assign(D.d, 0); for (size_t i : *p[q]) for (size_t j = 0; j < D.d; j++) m[q][j] += D.row(i)[j] / p[q]->size(); }
    for (int q = 0; q < 2; q++) for (size_t i : *p[q]) { double own = rdist(D.row(i), m[q].data(), D.d, dist), oth = rdist(D.row(i), m[1 - q].data(), D.d, dist); if (own > oth + 1e-9 * (1 + oth)) return "row " + S(i) + " is at " + fmt(own) + " from the mean of its part and at " + fmt(oth) + " from that of the part split from it"; }
    return "";
}
int main(int argc, char** argv) {
    h().init(argc, argv); eng = h().mode.substr(0, 2); decide = h().mode.size() > 2; bool th = h().thorough;
    struct Sh { size_t n, d; int lo, hi; std::vector<unsigned> mi; std::vector<unsigned> minsz; bool rng; unsigned T; };
    std::vector<Sh> shapes = {
        {4, 1, 0, 3, {1, 2, 5}, {2, 1}, true, 1}, {5, 1, 0, 2, {1, 3}, {2}, true, 2}, {6, 1, 0, 2, {3}, {2, 3}, false, 3},
        {3, 2, 0, 1, {2}, {2}, true, 2}, {7, 1, 0, 2, {4}, {2}, false, 2}, {8, 1, 0, 2, {1, 3}, {2, 1}, false, 3}, {4, 2, 0, 1, {3}, {2}, true, 3} };
    if (th) { shapes.push_back({9, 1, 0, 2, {3}, {2, 1}, false, 4}); shapes.push_back({6, 1, 0, 2, {3}, {2}, true, 2}); shapes.push_back({5, 1, 0, 4, {3}, {2, 4}, true, 2}); shapes.push_back({4, 2, 0, 2, {3}, {2}, false, 2}); shapes.push_back({6, 1, -2, 2, {3}, {2}, false, 4}); }
    auto explore = [&](const Data& D, const Sh& s, unsigned mi, unsigned ms, const std::string& what, const std::vector<unsigned>& limits, const std::string& dist, short strict = 4, double tol = -1, const V& starts = {}) {
        Cfg c; c.eng = eng; c.dist = dist; c.mi = mi; c.T = s.T; c.minsz = ms; c.init = "forgy"; if (!what.empty()) { c.nodes = 2; if (s.T % 2) c.src = "file"; } c.strict = strict; c.tol = tol;
        if (!s.rng) { c.init = "none"; c.cen.assign(D.x.begin(), D.x.begin() + s.d); c.cen.insert(c.cen.end(), D.x.end() - s.d, D.x.end()); if (!starts.empty()) c.cen = starts; }
        if (!h().next([&]() { return c.str() + (what.empty() ? " data=" + dspec(D) : what); })) return;
        std::map<std::string, std::map<unsigned, Part>> nest; // draws -> limit -> partition
        for (unsigned k : limits) {
            c.k = k; bool bad = false;
            auto one = [&]() {
                Out o; bool ok = run_ok(c, D, o, "run k=" + S(k));
                std::string e = ok ? judge(D, c, o) : "";
                if (!e.empty() && !decide) h().viol("partition", "limit " + S(k) + ": " + e + "; " + o.str());
                if (!ok || !e.empty()) { bad = true; return false; }
                V st = c.cen; if (s.rng) { st.clear(); if (rng().trace.size() == 2) for (int t : rng().trace) st.insert(st.end(), D.row(t), D.row(t) + D.d); }
                if (st.size() == 2 * D.d) { std::string w = hierarchy(D, c, st, o.asg); if (!w.empty()) { h().viol("hierarchy", "limit " + S(k) + ": " + w); bad = true; return false; } }
                std::string ds; for (int t : rng().trace) ds += S(t) + ".";
                Part p = canon(o.asg); h().mx["max_clusters"] = std::max(h().mx["max_clusters"], 1. + *std::max_element(p.begin(), p.end())); nest[ds][k] = p; if (p != Part(D.n, 0)) h().count("nontrivial");
                return true;
            };
            if (s.rng) explore_rng({0, 0.5}, one); else one();
            if (bad) return;
        }
        // a larger limit only splits further
        if (!decide && eng != "gm") for (auto& d : nest) {
            const Part* prev = nullptr; unsigned pk = 0;
            for (auto& kp : d.second) {
                if (prev) for (size_t i = 0; i < D.n; i++) for (size_t j = 0; j < i; j++) if (kp.second[i] == kp.second[j] && (*prev)[i] != (*prev)[j])
                    { h().viol("refine", "draws " + d.first + ": limit " + S(kp.first) + " groups rows " + S(j) + " and " + S(i) + " (" + txt(kp.second) + ") that limit " + S(pk) + " separates (" + txt(*prev) + ")"); return; }
                if (prev && mi >= 60 && tol < 0) { // a cluster split in two
                    std::map<unsigned, std::map<unsigned, std::vector<size_t>>> kids; for (size_t i = 0; i < D.n; i++) kids[(*prev)[i]][kp.second[i]].push_back(i);
                    for (auto& q : kids) if (q.second.size() == 2) { h().count("splits"); std::string e = settled(D, q.second.begin()->second, q.second.rbegin()->second, dist); if (!e.empty()) { h().viol("settled", "limit " + S(kp.first) + ": " + e); return; } }
                }
                prev = &kp.second; pk = kp.first;
            }
        }
    };
    for (auto& s : shapes) for (unsigned mi : s.mi) for (unsigned ms : s.minsz) for (const char* dist : {"eucl", "taxi", "cos", "sqeucl"}) if (s.d > 1 || dist[0] == 'e' || (dist[0] == 'c' && !s.rng)) tuples(s.n * s.d, s.lo, s.hi, [&](const std::vector<int>& v) { explore(mk(s.n, s.d, v), s, mi, ms, "", {2, 3, 4, 8, 16}, dist); });
    for (auto sh : std::vector<std::pair<size_t, size_t>>{{20, 5}, {40, 9}, {64, 2}, {100, 1}, {30, 17}}) for (unsigned mi : {2u, 80u}) for (unsigned ms : {2u, 5u}) for (unsigned T : {1u, 6u}) for (int p : {11, 101}) for (int a = 0; a < (th ? 5 : 2); a++) for (int b = 0; b < (th ? 4 : 2); b++) for (int cc = 0; cc < 2; cc++) for (const char* dist : {"eucl", "taxi", "cos", "sqeucl"}) for (double sc : {1.0, 1e-5, 1e6}) {
        if (sc != 1 && (T == 6 || ms == 5)) continue;
        Sh s{sh.first, sh.second, 0, p, {}, {}, false, T};
        explore(family(s.n, s.d, a, b, cc, p, sc, sc == 1e6 ? -3e7 : 0), s, mi, ms, " family n=" + S(s.n) + " d=" + S(s.d) + " a=" + S(a) + " b=" + S(b) + " c=" + S(cc) + " p=" + S(p) + " scale=" + fmt(sc), {2, 3, 5, 8, 20, 33}, dist);
    }
    // hundreds of clusters
    for (size_t n : {600u, 530u}) for (unsigned T : {1u, 6u}) for (int p : {10007, 211}) for (int a = 0; a < (th ? 4 : 2); a++) for (const char* dist : {"eucl", "taxi"}) {
        Sh s{n, 2, 0, p, {}, {}, false, T}; explore(family(n, 2, a, 1, 1, p), s, 12, 1, " many n=" + S(n) + " a=" + S(a) + " p=" + S(p), {100, 300, 512}, dist, 0);
    }
    // decisions: every strictness, tolerances, several pairs of starting rows; small clusters may not be divided further
    for (auto sh : std::vector<std::pair<size_t, size_t>>{{6, 1}, {12, 1}, {9, 2}, {16, 2}, {25, 3}, {50, 2}}) for (int a = 0; a < (th || decide ? 5 : 3); a++) for (int b = 0; b < (th || decide ? 4 : 2); b++) for (int p : {7, 11, 101, 13, 17, 29, 1009}) for (double tol : {-1., 0.1, 0.4}) for (short st = 0; st < 5; st++) for (unsigned ms : {1u, 4u, 9u}) for (size_t r = 0; r < 3; r++) {
        if ((!decide && p > 11 && p != 101) || (eng != "gm" && st) || (eng == "gm" && tol > 0 && ms > 1)) continue;
        Data D = family(sh.first, sh.second, a, b, 1, p, 1, 0); Sh q{sh.first, sh.second, 0, p, {}, {}, false, 1 + (unsigned)r * 2};
        V cen(D.row(r), D.row(r) + D.d); cen.insert(cen.end(), D.row(D.n - 1 - 2 * r), D.row(D.n - 1 - 2 * r) + D.d);
        explore(D, q, 40, ms, " decisions n=" + S(D.n) + " d=" + S(D.d) + " a=" + S(a) + " b=" + S(b) + " p=" + S(p) + " r=" + S(r), {2, 4, 8, 64}, r == 1 ? "sqeucl" : "eucl", st, tol, cen);
    }
    return h().finish();
}
