// Shared containers against their abstract types: every operation sequence up to a depth, every interleaving of short programs.
#include "engines.hpp"
#include "thd_safe_bool_vector.hpp"
#include "hclust_id_generator.hpp"
#include "hclust_compactor.hpp"
#include "dist_matrix.hpp"
#include <pthread.h>
using namespace vh;
using namespace knor::base;

// Depth-first over operation sequences; make() builds a fresh pair (object, model), ops apply and return an error
struct Step { std::string name; };
template <class St> struct Dfs {
    typedef std::function<std::string(St&)> F; std::vector<std::pair<std::string, F>> ops; std::function<St()> make; std::function<std::string(St&)> check; int depth;
    void go(const std::string& label) {
        for (size_t f = 0; f < ops.size(); f++) {
            if (!h().next([&]() { return label + " depth=" + S(depth) + " first " + ops[f].first; })) continue;
            bool bad = false; std::vector<int> seq(1, (int)f);
            std::function<void()> rec = [&]() {
                St s = make(); std::string e;
                for (int o : seq) { try { e = ops[o].second(s); } catch (std::exception& x) { e = std::string("exception: ") + x.what(); } if (!e.empty()) break; }
                if (e == "skip") return;
                if (e.empty()) e = check(s);
                h().count("sequences"); h().count("ops", seq.size());
                if (!e.empty()) { std::string hs; for (int o : seq) hs += " " + ops[o].first; h().viol("sequence", "after" + hs + ": " + e); bad = true; return; }
                if ((int)seq.size() == depth) return;
                for (size_t o = 0; o < ops.size() && !bad; o++) { seq.push_back(o); rec(); seq.pop_back(); }
            };
            exec_ok("sequence", rec, 400000000); h().count("nontrivial");
        }
    }
};

// ---- flags
struct FS { thd_safe_bool_vector::ptr v; std::vector<bool> m; };
static void flags(bool th) {
    for (unsigned len = 0; len <= 4; len++) for (int init = 0; init < 2; init++) {
        Dfs<FS> D; D.depth = th ? 5 : 4; D.make = [=]() { return FS{thd_safe_bool_vector::create(len, init), std::vector<bool>(len, init)}; };
        for (unsigned i = 0; i < 6; i++) for (int b = 0; b < 2; b++) {
            D.ops.push_back({"set(" + S(i) + "," + S(b) + ")", [=](FS& s) { if (i >= s.m.size()) return "skip"; s.v->set(i, b); s.m[i] = b; return ""; }});
            D.ops.push_back({"check_set(" + S(i) + "," + S(b) + ")", [=](FS& s) { s.v->check_set(i, b); while (s.m.size() <= i) s.m.push_back(false); s.m[i] = b; return ""; }});
        }
        D.check = [](FS& s) -> std::string { if (s.v->size() != s.m.size() || s.v->raw().size() != s.m.size()) return "size() is " + S(s.v->size()) + ", expected " + S(s.m.size());
            for (size_t i = 0; i < s.m.size(); i++) if (s.v->get(i) != s.m[i] || (*s.v)[i] != s.m[i]) return "flag " + S(i) + " is " + S((int)s.v->get(i)); return ""; };
        D.go("flags len=" + S(len) + " init=" + S(init));
    }
}
// ---- keyed vector
template <class T> struct VS { std::shared_ptr<vmap<T>> v; std::map<size_t, T> m; size_t cap; };
template <class T> static void vmaps(const std::string& name, T empty, std::vector<T> vals, bool th, bool dflt) {
    typedef VS<T> St;
    for (unsigned cap : {0u, 1u, 3u}) {
        if (dflt && cap) continue;
        Dfs<St> D; D.depth = th ? 5 : 4; D.make = [=]() { return St{dflt ? std::make_shared<vmap<T>>() : std::make_shared<vmap<T>>(cap, empty), {}, cap}; };
        for (unsigned i = 0; i < 4; i++) {
            for (size_t k = 0; k < vals.size(); k++) D.ops.push_back({"[" + S(i) + "]=" + S(k), [=](St& s) { (*s.v)[i] = vals[k]; s.m[i] = vals[k]; return std::string(); }});
            D.ops.push_back({"at(" + S(i) + ")=", [=](St& s) { s.v->at(i) = vals[0]; s.m[i] = vals[0]; return std::string(); }});
            D.ops.push_back({"read(" + S(i) + ")", [=](St& s) { T g = (*s.v)[i]; T e = s.m.count(i) ? s.m[i] : empty; return g == e ? std::string() : "entry " + S(i) + " reads wrong"; }});
            D.ops.push_back({"erase(" + S(i) + ")", [=](St& s) { s.v->erase(i); s.m.erase(i); return std::string(); }});
        }
        D.ops.push_back({"clear", [](St& s) { s.v->clear(); s.m.clear(); return std::string(); }});
        D.ops.push_back({"set_capacity", [](St& s) { s.v->set_capacity(2); s.m.clear(); return s.v->size() == 2 ? std::string() : "size() is " + S(s.v->size()) + " after set_capacity(2)"; }});
        D.check = [=](St& s) -> std::string {
            const vmap<T>& v = *s.v; std::vector<size_t> keys, got; for (auto& p : s.m) keys.push_back(p.first);
            if (s.v->empty() != (v.size() == 0)) return "empty() is wrong"; if (!keys.empty() && v.size() <= keys.back()) return "size() is " + S(v.size());
            for (size_t i = 0; i < 7; i++) if (v.has_key(i) != (s.m.count(i) != 0)) return "has_key(" + S(i) + ") is " + S((int)v.has_key(i));
            if (s.v->keycount() != keys.size()) return "keycount() is " + S(s.v->keycount()) + ", expected " + S(keys.size());
            if (v.keyless() != keys.empty()) return "keyless() is wrong";
            s.v->get_keys(got); if (got != keys) return "get_keys() gives " + fmt(got) + ", expected " + fmt(keys);
            for (size_t i = 0; i < v.size(); i++) if (!(v[i] == (s.m.count(i) ? s.m[i] : empty))) return "entry " + S(i) + " is wrong";
            try { v[v.size()]; return "reading beyond the end is accepted"; } catch (oob_exception&) {}
            got.clear(); auto it = s.v->get_iterator(); size_t steps = 0;
            while (it.has_next() && it.has_next()) { auto p = it.next(); got.push_back(p.first); if (!s.m.count(p.first) || !(s.m[p.first] == p.second)) return "the iterator yields a wrong entry at " + S(p.first); if (++steps > 20) return "the iterator does not end"; }
            if (it.has_next()) return "has_next() changes its answer"; if (got != keys) return "the iterator visits " + fmt(got) + ", expected " + fmt(keys);
            return "";
        };
        D.go(name + " capacity=" + S(cap));
    }
}
// ---- ids
struct IS { knor::hclust_id_generator::ptr g; std::set<unsigned> live, free_; };
static void ids(bool th) {
    Dfs<IS> D; D.depth = th ? 8 : 6; D.make = []() { return IS{knor::hclust_id_generator::create(), {0}, {}}; };
    D.ops.push_back({"split", [](IS& s) -> std::string { size_t before = s.free_.size(); auto p = s.g->get_split_ids();
        if (p.first == p.second) return "both halves of a split get id " + S(p.first);
        for (unsigned x : {p.first, p.second}) { if (s.live.count(x)) return "id " + S(x) + " is in use"; s.live.insert(x); s.free_.erase(x); }
        if (s.free_.size() != before - std::min<size_t>(before, 2)) return "returned ids are not reused"; 
        return ""; }});
    for (unsigned i = 0; i < 4; i++) D.ops.push_back({"reclaim live #" + S(i), [=](IS& s) -> std::string { if (i >= s.live.size()) return "skip"; auto it = s.live.begin(); std::advance(it, i); unsigned x = *it; s.live.erase(it); s.free_.insert(x); s.g->reclaim_id(x); return ""; }});
    D.check = [](IS&) { return std::string(); };
    D.go("ids");
}
// ---- distance table
struct DS { knor::prune::dist_matrix::ptr m; std::map<std::pair<unsigned, unsigned>, double> x; };
static void table(bool th) {
    const double MX = std::numeric_limits<double>::max();
    for (unsigned k = 1; k <= 5; k++) {
        Dfs<DS> D; D.depth = k <= 3 ? 4 : th ? 4 : 3; D.make = [=]() { return DS{knor::prune::dist_matrix::create(k), {}}; };
        for (unsigned i = 0; i < k; i++) for (unsigned j = 0; j < k; j++) if (i != j) D.ops.push_back({"set(" + S(i) + "," + S(j) + ")", [=](DS& s) { double v = 1 + i * 10 + j + 100. * s.x.size(); s.m->set(i, j, v); s.x[{std::min(i, j), std::max(i, j)}] = v; return ""; }});
        D.check = [=](DS& s) -> std::string {
            if (s.m->get_num_rows() != k - 1) return "get_num_rows() is " + S(s.m->get_num_rows());
            for (unsigned i = 0; i < k; i++) { double mn = MX;
                for (unsigned j = 0; j < k; j++) { auto it = s.x.find({std::min(i, j), std::max(i, j)}); double e = it == s.x.end() ? MX : it->second;
                    if (s.m->get(i, j) != e) return "get(" + S(i) + "," + S(j) + ") is " + fmt(s.m->get(i, j)) + ", expected " + fmt(e);
                    if (s.m->pw_get(i, j) != (i == j ? 0 : e)) return "pw_get(" + S(i) + "," + S(j) + ") is " + fmt(s.m->pw_get(i, j)); if (i != j) mn = std::min(mn, e); }
                if (mn < MX && s.m->get_min_dist(i) != mn) return "get_min_dist(" + S(i) + ") is wrong"; }
            return ""; };
        if (D.ops.empty()) { if (h().next("table k=1")) { DS s = D.make(); std::string e = D.check(s); if (!e.empty()) h().viol("table", e); } } else D.go("table k=" + S(k));
    }
    struct Sh { unsigned k, d; int lo, hi; };
    std::vector<Sh> sh = {{1, 2, -1, 1}, {2, 1, -3, 3}, {2, 2, -2, 2}, {3, 1, -3, 3}, {3, 2, -1, 1}, {4, 1, -2, 2}, {5, 1, -1, 2}, {4, 2, 0, 1}, {2, 3, -1, 2}};
    if (th) for (Sh s : {Sh{3, 2, -2, 2}, {4, 1, -4, 4}, {4, 2, -1, 1}, {5, 1, -3, 3}, {3, 3, -1, 1}}) sh.push_back(s);
    auto centres = [&](const Data& D) {
        struct { unsigned k, d; } s{(unsigned)D.n, (unsigned)D.d};
        if (!h().next([&]() { return "centres " + dspec(D); })) return;
        std::string e;
        exec_ok("table", [&]() {
            auto cl = prune_clusters::create(s.k, s.d, D.x); auto m = knor::prune::dist_matrix::create(s.k);
            for (int round = 0; round < 2 && e.empty(); round++) { // the second round starts from the distances of other centres
                V x = D.x; if (round == 0) { std::reverse(x.begin(), x.end()); for (auto& q : x) q *= 0.5; } const V& cx = x; cl->set_mean(cx);
                m->compute_dist(cl, s.d);
                for (unsigned i = 0; i < s.k && e.empty(); i++) { double mn = MX; 
                    for (unsigned j = 0; j < s.k; j++) if (i != j) { double r = rdist(&x[i * s.d], &x[j * s.d], s.d, "eucl") / 2; mn = std::min(mn, r); if (!near(m->get(i, j), r)) e = "half distance of centres " + S(i) + " and " + S(j) + " is " + fmt(m->get(i, j)) + ", expected " + fmt(r); }
                    if (s.k > 1 && e.empty() && !near(cl->get_s_val(i), mn)) e = "half distance of centre " + S(i) + " to the nearest other one is " + fmt(cl->get_s_val(i)) + ", expected " + fmt(mn);
                    if (s.k > 1 && e.empty() && cl->get_s_val(i) != m->get_min_dist(i)) e = "get_min_dist(" + S(i) + ") differs from the s value"; }
            }
            static const char* nm[] = {"eucl", "taxi", "cos", "sqeucl"}; static const dist_t ty[] = {dist_t::EUCL, dist_t::TAXI, dist_t::COS, dist_t::SQEUCL};
            for (int t = 0; t < 4 && e.empty(); t++) { auto p = knor::prune::dist_matrix::create(s.k); V copy = D.x; p->compute_pairwise_dist(copy.data(), s.d, ty[t]);
                for (unsigned i = 0; i < s.k; i++) for (unsigned j = 0; j < s.k; j++) { double r = i == j ? 0 : rdist(D.row(i), D.row(j), s.d, nm[t]); if (e.empty() && !near(p->pw_get(i, j), r)) e = std::string(nm[t]) + " distance of rows " + S(i) + " and " + S(j) + " is " + fmt(p->pw_get(i, j)) + ", expected " + fmt(r); } }
        });
        if (!e.empty()) h().viol("table", e); if (s.k > 2) h().count("nontrivial");
    };
    for (auto& s : sh) tuples(s.k * s.d, s.lo, s.hi, [&](const std::vector<int>& v) { centres(mk(s.k, s.d, v)); });
    const unsigned bigs[][2] = {{7, 3}, {9, 33}, {17, 2}, {33, 5}, {100, 1}, {300, 2}};
    for (auto& b : bigs) for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) for (int z = 0; z < (th ? 3 : 1); z++) centres(family(b[0], b[1], x, y, z, 13, 1, -5));
}
// ---- renumbering of live clusters
static void remap(bool th) {
    auto counts = [&](const std::vector<int>& c) { unsigned k = c.size();
        if (!h().next([&]() { return "counts " + fmt(c); })) return;
        std::string e; std::vector<knor::llong_t> cnt(c.begin(), c.end()); std::vector<size_t> out; std::unordered_map<unsigned, unsigned> id;
        std::vector<unsigned> asg; std::unordered_map<unsigned, V> cen; unsigned live = 0; for (unsigned i = 0; i < k; i++) { for (int q = 0; q < c[i]; q++) asg.push_back(i); if (c[i]) { cen[i] = {i + 0.5, -1.0 * i}; live++; } }
        std::reverse(asg.begin(), asg.end());
        exec_ok("remap", [&]() {
            knor::util::compactor::remap<knor::llong_t>(cnt, out, id);
            if (out.size() != live || id.size() != live) e = "live clusters " + S(live) + " become " + S(out.size());
            std::set<unsigned> used; for (unsigned i = 0; i < k && e.empty(); i++) if (c[i]) { if (!id.count(i) || id[i] >= live || !used.insert(id[i]).second || out[id[i]] != (size_t)c[i]) e = "cluster " + S(i) + " is renumbered wrongly"; }
            if (!e.empty() || !live) return;
            cluster_t t(asg.size(), 2, 3, asg, cnt, cen);
            if (t.k != live || t.nrow != asg.size() || t.ncol != 2 || t.iters != 3 || t.assignment_count.size() != live || t.centroids.size() != 2 * live) { e = "the clustering has the wrong shape"; return; }
            std::vector<size_t> n(live); for (size_t i = 0; i < asg.size(); i++) { unsigned a = t.assignments[i]; if (a >= live) { e = "assignment out of range"; return; } n[a]++; if (t.centroids[2 * a] != asg[i] + 0.5 || t.centroids[2 * a + 1] != -1.0 * asg[i]) { e = "row " + S(i) + " ends with the centroid of another cluster"; return; } }
            if (n != t.assignment_count) e = "sizes do not match the assignments";
        });
        if (!e.empty()) h().viol("remap", e); if (live > 1 && live < k) h().count("nontrivial");
    };
    for (unsigned k = 1; k <= (th ? 6u : 5u); k++) tuples(k, 0, 2, counts);
    for (unsigned k : {9u, 17u, 40u, 130u}) for (unsigned a = 0; a < 4; a++) for (unsigned b = 1; b < 5; b++) for (unsigned p : {2u, 3u, 7u}) { std::vector<int> c; for (unsigned i = 0; i < k; i++) c.push_back((a * i * i + b * i + i / 3) % p); counts(c); }
}
// ---- flags written concurrently: every interleaving
struct Prog2 { thd_safe_bool_vector* v; std::vector<std::pair<int, int>> w; };
static void* writer(void* p) { auto* q = (Prog2*)p; for (auto& x : q->w) q->v->set(x.first, x.second); return nullptr; }
static void flagsched(bool th) {
    for (unsigned len = 2; len <= 4; len++) for (int init = 0; init < 2; init++) for (unsigned T = 2; T <= 3; T++) for (unsigned w = 1; w <= 3; w++) for (int rot = 0; rot < 2; rot++) {
        if (T > len || (T == 3 && w > 2 && !th)) continue;
        // the flags are dealt out in turn; each thread writes its own flags w times with alternating values
        std::vector<Prog2> ps(T); std::vector<bool> want(len, init); int budget = th ? 4 : T == 2 ? 3 : 2;
        for (unsigned t = 0; t < T; t++) for (unsigned i = 0; i < w; i++) { std::vector<int> mine; for (unsigned f = (t + rot) % T; f < len; f += T) mine.push_back(f); int f = mine[i % mine.size()], b = (i + t + init) % 2 == 0; ps[t].w.push_back({f, b}); want[f] = b; }
        if (!h().next([&]() { return "concurrent flags len=" + S(len) + " init=" + S(init) + " threads=" + S(T) + " writes=" + S(w) + " rot=" + S(rot) + " budget=" + S(budget); })) continue;
        std::string got; vrt::Options op; op.budget = budget; op.races = true;
        explore([&]() {
            auto v = thd_safe_bool_vector::create(len, init); std::vector<pthread_t> th_(T);
            for (unsigned t = 0; t < T; t++) { ps[t].v = v.get(); pthread_create(&th_[t], nullptr, writer, &ps[t]); }
            for (unsigned t = 0; t < T; t++) pthread_join(th_[t], nullptr);
            got.clear(); for (unsigned i = 0; i < len; i++) got += v->get(i) ? '1' : '0';
        }, op, [&]() { return got; }, [&](const std::string& g) { std::string e; for (bool b : want) e += b ? '1' : '0'; return g == e ? std::string() : "flags end as " + g + ", expected " + e; }, "flags");
        h().count("nontrivial");
    }
}
// ---- long uses: sizes and counts beyond 8 and 16 bits, a family of operation sequences against the same models
static void large(bool th) {
    for (size_t len : {(size_t)9, (size_t)65, (size_t)300, (size_t)70000}) for (int init = 0; init < 2; init++) for (size_t a : {1, 7, 255, 4099}) for (size_t p : {2, 3, 5}) for (size_t ext : {0, 1, 8, 300}) {
        if (len == 70000 && !th && (a == 7 || p == 5)) continue;
        if (!h().next([&]() { return "flags len=" + S(len) + " init=" + S(init) + " step=" + S(a) + " values mod " + S(p) + " grown by " + S(ext); })) continue;
        std::string e;
        exec_ok("flags", [&]() { auto v = thd_safe_bool_vector::create(len, init); std::vector<bool> m(len, init);
            for (size_t i = 0; i < std::min<size_t>(len, 3000); i++) { size_t x = i * a % len; bool b = i % p == 1; if (i % 4 == 3) v->check_set(x, b); else v->set(x, b); m[x] = b; }
            for (size_t g : {ext / 2, ext}) if (g) { v->check_set(len - 1 + g, g != ext); m.resize(len + g); m[len - 1 + g] = g != ext; }
            if (v->size() != m.size() || v->raw().size() != m.size()) { e = "size() is " + S(v->size()) + ", expected " + S(m.size()); return; }
            for (size_t i = 0; i < m.size() && e.empty(); i++) if (v->get(i) != m[i] || (*v)[i] != m[i]) e = "flag " + S(i) + " is " + S((int)v->get(i)); });
        if (!e.empty()) h().viol("large", e); h().count("nontrivial");
    }
    for (size_t cap : {0, 9, 300, 70000}) for (size_t a : {1, 7, 255, 4099}) for (size_t top : {9, 40, 270, 66000}) for (size_t p : {2, 3, 7}) {
        if (!h().next([&]() { return "map capacity=" + S(cap) + " step=" + S(a) + " keys below " + S(top) + " erases mod " + S(p); })) continue;
        std::string e;
        exec_ok("map", [&]() { vmap<int> v(cap, -1); std::map<size_t, int> m; const vmap<int>& cv = v;
            for (size_t i = 0; i < 2000; i++) { size_t x = i * a % top; if (i % p == 1) { size_t y = (x + i) % (top + 5); v.erase(y); m.erase(y); } else if (i % 5 == 4) { v.at(x) = i; m[x] = i; } else { v[x] = i; m[x] = i; } }
            std::vector<size_t> keys, got; for (auto& q : m) keys.push_back(q.first);
            if (v.size() < cap || (!keys.empty() && v.size() <= keys.back())) { e = "size() is " + S(v.size()); return; }
            if (v.keycount() != keys.size() || v.keyless() != keys.empty()) { e = "keycount() is " + S(v.keycount()) + ", expected " + S(keys.size()); return; }
            v.get_keys(got); if (got != keys) { e = "get_keys() is wrong"; return; }
            for (size_t i = 0; i < v.size() && e.empty(); i++) { auto it = m.find(i); if (cv.has_key(i) != (it != m.end()) || cv[i] != (it == m.end() ? -1 : it->second)) e = "entry " + S(i) + " is wrong"; }
            got.clear(); auto it = v.get_iterator(); while (it.has_next() && got.size() <= keys.size()) { auto q = it.next(); got.push_back(q.first); if (!m.count(q.first) || m[q.first] != q.second) { e = "the iterator yields a wrong entry"; return; } }
            if (got != keys) e = "the iterator does not visit the live entries"; });
        if (!e.empty()) h().viol("large", e); h().count("nontrivial");
    }
    for (unsigned n : {40u, 300u, 33000u}) for (unsigned p = 1; p <= 5; p++) for (unsigned q = 0; q < 4; q++) { // n divisions; the divided cluster's id returns, as do others
        if (!h().next([&]() { return "ids " + S(n) + " divisions, returned mod " + S(p) + " plus " + S(q); })) continue;
        std::string e;
        exec_ok("ids", [&]() { auto g = knor::hclust_id_generator::create(); std::set<unsigned> live{0}; std::set<unsigned> free_;
            for (unsigned i = 0; i < n && e.empty(); i++) {
                size_t before = free_.size(); auto r = g->get_split_ids(); if (r.first == r.second) e = "both halves get id " + S(r.first);
                for (unsigned x : {r.first, r.second}) { if (!live.insert(x).second) e = "id " + S(x) + " is in use"; free_.erase(x); }
                if (e.empty() && free_.size() != before - std::min<size_t>(before, 2)) e = "returned ids are not reused";
                auto back = [&](unsigned x) { if (live.erase(x)) { g->reclaim_id(x); free_.insert(x); } };
                if (i % p == 0) for (unsigned z = 0; z < q && live.size() > 1; z++) back(z % 2 ? *live.rbegin() : *live.begin()); } });
        if (!e.empty()) h().viol("large", e); h().count("nontrivial");
    }
}
int main(int argc, char** argv) {
    h().init(argc, argv); std::string m = h().mode; bool th = h().thorough;
    if (m == "flags") flags(th);
    else if (m == "vmap") {
        vmaps<int>("map of int", -1, {5, 0}, th, false); vmaps<int>("map of int", 0, {5}, th, true);
        auto a = clusters::create(1, 1), b = clusters::create(2, 2); vmaps<clusters::ptr>("map of clusters", nullptr, {a, b}, th, false); vmaps<bool*>("default map", nullptr, {(bool*)8}, th, true);
    } else if (m == "ids") ids(th); else if (m == "table") table(th); else if (m == "remap") remap(th); else if (m == "large") large(th); else flagsched(th);
    return h().finish();
}
