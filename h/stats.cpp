// K26: the collectors of pruning statistics against the lists of events they were told of
#include "engines.hpp"
#include "prune_stats.hpp"
#include <sys/stat.h>
#include <unistd.h>
using namespace vh; using namespace knor::base;
static std::string get(const std::string& fn) { std::string s; FILE* f = fopen(fn.c_str(), "rb"); if (!f) return "(no file)"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static bool same(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }
// ---- prune_stats: three collectors (two local ones merged into the first) with one model each
struct PM { size_t c[5] = {0, 0, 0, 0, 0}, t[5] = {0, 0, 0, 0, 0}, it = 0; };
static void bump(prune_stats& s, PM& m, int w, size_t n) { for (size_t i = 0; i < (w ? n : 1); i++) switch (w) { case 0: if (n == 1) s.pp_lemma1(); else s.pp_lemma1(n); break; case 1: s.pp_3a(); break; case 2: s.pp_3b(); break; case 3: s.pp_3c(); break; default: s.pp_4(); } m.c[w] += n; }
static std::string look(prune_stats& s, const PM& m) {
    const size_t g[5] = {s.get_lemma1(), s.get_3a(), s.get_3b(), s.get_3c(), s.get_4()}; static const char* nm[] = {"lemma1", "3a", "3b", "3c", "4"};
    for (int i = 0; i < 5; i++) if (g[i] != m.c[i]) return std::string("count of ") + nm[i] + " is " + S(g[i]) + ", expected " + S(m.c[i]); return ""; }
static std::string final(prune_stats& s, const PM& m, size_t n, size_t k) { if (!m.it) return "";
    auto v = s.get_stats(); if (v.size() != 6) return "get_stats() gives " + S(v.size()) + " values"; double all = 0; for (int i = 0; i < 5; i++) { double p = 100. * m.t[i] / ((double)n * m.it * k); all += p; if (!same(v[i], p)) return "percentage " + S(i) + " is " + S(v[i]) + ", expected " + S(p); }
    return same(v[5], all) ? "" : "the total percentage is " + S(v[5]) + ", expected " + S(all); }
static void prune(bool th) {
    struct Op { int kind, who, w; size_t n; std::string name; }; std::vector<Op> ops; static const char* nm[] = {"lemma1", "3a", "3b", "3c", "4"};
    for (int who = 0; who < 2; who++) for (int w = 0; w < 5; w++) ops.push_back({0, who, w, 1, std::string(nm[w]) + "@" + S(who)});
    ops.push_back({0, 0, 0, 3, "lemma1(3)@0"}); ops.push_back({0, 1, 0, 0, "lemma1(0)@1"}); ops.push_back({1, 0, 0, 0, "merge"}); ops.push_back({1, 1, 0, 0, "merge back"}); ops.push_back({2, 0, 0, 0, "finalize@0"}); ops.push_back({2, 1, 0, 0, "finalize@1"});
    for (auto& z : std::vector<std::pair<size_t, size_t>>{{1, 1}, {3, 2}, {70000, 70000}}) for (size_t f = 0; f < ops.size(); f++) {
        if (!h().next([&]() { return "rows=" + S(z.first) + " clusters=" + S(z.second) + " first " + ops[f].name; })) continue;
        int depth = th ? 7 : 5; std::vector<size_t> seq(1, f); std::string bad;
        std::function<void()> rec = [&]() {
            prune_stats::ptr s[2] = {prune_stats::create(z.first, z.second), prune_stats::create(z.first, z.second)}; PM m[2]; std::string e;
            for (size_t o : seq) { const Op& q = ops[o]; PM& x = m[q.who];
                if (q.kind == 0) bump(*s[q.who], x, q.w, q.n); else if (q.kind == 1) { *s[q.who] += *s[1 - q.who]; for (int i = 0; i < 5; i++) x.c[i] += m[1 - q.who].c[i]; }
                else { size_t sum = 0; for (size_t c : x.c) sum += c; if (sum > z.first * z.second) return; s[q.who]->finalize(); for (int i = 0; i < 5; i++) { x.t[i] += x.c[i]; x.c[i] = 0; } x.it++; } }
            for (int i = 0; i < 2 && e.empty(); i++) { e = look(*s[i], m[i]); if (e.empty()) e = final(*s[i], m[i], z.first, z.second); if (e.empty()) e = look(*s[i], m[i]); }
            h().count("sequences"); h().count("ops", seq.size());
            if (!e.empty()) { std::string t; for (size_t o : seq) t += " " + ops[o].name; bad = "after" + t + ": " + e; return; }
            if ((int)seq.size() == depth) return;
            for (size_t o = 0; o < ops.size() && bad.empty(); o++) { seq.push_back(o); rec(); seq.pop_back(); }
        };
        exec_ok("prune_stats", rec, 400000000); if (!bad.empty()) h().viol("prune_stats", bad); h().count("nontrivial");
    }
    // long counts: many iterations and counts beyond 32 bits
    for (size_t it : {7, 300}) for (size_t big : {(size_t)40000, (size_t)5000000000ull}) { if (!h().next([&]() { return "iterations=" + S(it) + " count=" + S(big); })) continue; std::string e;
        exec_ok("prune_stats", [&]() { size_t n = 100000, k = 60000; auto s = prune_stats::create(n, k), l = prune_stats::create(n, k); PM m; for (size_t i = 0; i < it && e.empty(); i++) { s->pp_lemma1(big); m.c[0] += big; PM x; bump(*l, x, 1 + i % 4, 70); auto one = prune_stats::create(n, k); PM y; bump(*one, y, 1 + i % 4, 70); *s += *one; m.c[1 + i % 4] += 70; e = look(*s, m); s->finalize(); for (int q = 0; q < 5; q++) { m.t[q] += m.c[q]; m.c[q] = 0; } m.it++; if (e.empty()) e = look(*s, m); if (e.empty()) e = final(*s, m, n, k); } });
        if (!e.empty()) h().viol("prune_stats", e); h().count("nontrivial"); }
}
// ---- activation_counter: units of every thread per iteration
static void activation(bool th) {
    auto run = [&](unsigned T, const std::vector<int>& ev) { // event T: end of the iteration
        if (!h().next([&]() { return S(T) + " threads, events " + (ev.size() > 40 ? S(ev.size()) + " from " + S(ev[0]) + "," + S(ev[1]) : fmt(ev)); })) return; std::string e;
        exec_ok("activation", [&]() { auto a = activation_counter::create(T); std::vector<size_t> want; size_t cur = 0; for (int x : ev) { if (x == (int)T) { a->complete(); want.push_back(cur); cur = 0; } else { a->active(x); cur++; } if (a->get_active_count_per_iter() != want) { e = "counts per iteration are " + fmt(a->get_active_count_per_iter()) + ", expected " + fmt(want); return; } } });
        if (!e.empty()) h().viol("activation", e); h().count("nontrivial"); };
    for (unsigned T = 1; T <= 3; T++) for (int len = 1; len <= (th ? 7 : 6); len++) tuples(len, 0, T, [&](const std::vector<int>& v) { run(T, v); });
    for (unsigned T : {5u, 40u, 300u}) for (unsigned a = 1; a <= 5; a++) for (unsigned p : {7u, 300u}) { std::vector<int> v; for (unsigned i = 0; i < 1500; i++) v.push_back(i % p == p - 1 ? T : (i * a) % T); run(T, v); }
}
// ---- active_counter: a row counts in an iteration if it was active in it and in the one before
static void rows(bool th) {
    auto run = [&](size_t n, const std::vector<std::vector<int>>& v, int order, int tail, const std::string& label) {
        if (!h().next([&]() { return label; })) return; std::string e; const std::string fn = h().scratch + "/active." + S(getpid());
        exec_ok("active", [&]() { auto a = active_counter::create(n); std::vector<std::vector<int>> want; std::vector<int> prev(n, 0);
            for (size_t t = 0; t < v.size(); t++) { if (t) a->init_iter(); std::vector<int> w(n); for (size_t q = 0; q < n; q++) { size_t r = order == 0 ? q : order == 1 ? n - 1 - q : (q + t) % n; a->is_active(r, v[t][r]); w[r] = v[t][r] && prev[r]; } prev = v[t]; want.push_back(w); }
            if (tail) { a->init_iter(); want.push_back(std::vector<int>(n, 0)); }
            for (size_t cnt = n > 9 ? n - 1 : 1; cnt <= n + 1 && e.empty(); cnt++) { size_t m = std::min(cnt, n); std::string raw; std::map<std::string, size_t> pat; std::vector<std::string> lines;
                for (size_t r = 0; r < m; r++) { std::string s; for (auto& w : want) s += std::string(", ") + (w[r] ? "1" : "0"); raw += S(r) + s + "\n"; pat[s]++; }
                for (auto& q : pat) lines.push_back(S(q.second) + q.first); std::sort(lines.begin(), lines.end());
                a->write_raw(fn, cnt); std::string g = get(fn); if (g != raw) { e = "the activity of " + S(cnt) + " rows is written as '" + g.substr(0, 200) + "', expected '" + raw.substr(0, 200) + "'"; break; }
                a->write_consolidated(fn, cnt); g = get(fn); std::vector<std::string> got; size_t p = 0, x; while ((x = g.find('\n', p)) != std::string::npos) { got.push_back(g.substr(p, x - p)); p = x + 1; } if (p != g.size()) got.push_back("(unfinished)"); std::sort(got.begin(), got.end());
                if (got != lines) e = "the histories of " + S(cnt) + " rows are written as '" + g.substr(0, 200) + "'"; } });
        unlink(fn.c_str()); if (!e.empty()) h().viol("active", e); h().count("nontrivial"); };
    for (size_t n = 1; n <= 3; n++) for (size_t t = 1; t <= 4; t++) if (n * t <= (th ? 12u : 9u)) tuples(n * t, 0, 1, [&](const std::vector<int>& b) { std::vector<std::vector<int>> v(t, std::vector<int>(n)); for (size_t i = 0; i < n * t; i++) v[i / n][i % n] = b[i];
        for (int order = 0; order < (n > 1 ? 3 : 1); order++) for (int tail = 0; tail < 2; tail++) run(n, v, order, tail, S(n) + " rows, activity by iteration " + fmt(b) + " order " + S(order) + (tail ? " next iteration begun" : "")); });
    for (size_t n : {40, 300}) for (size_t t : {9, 70}) for (size_t a = 1; a < 4; a++) for (size_t p : {3, 5}) { std::vector<std::vector<int>> v(t, std::vector<int>(n)); for (size_t i = 0; i < t; i++) for (size_t r = 0; r < n; r++) v[i][r] = (i * a + r * r + r / 7) % p > 0; run(n, v, 2, 0, S(n) + " rows, " + S(t) + " iterations, family " + S(a) + "," + S(p)); }
}
int main(int argc, char** argv) { h().init(argc, argv); if (h().mode == "prune") prune(h().thorough); else if (h().mode == "activation") activation(h().thorough); else rows(h().thorough); return h().finish(); }
