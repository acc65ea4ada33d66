// Cluster accumulators against a model that keeps the members themselves.
#include "engines.hpp"
#include "clusters.hpp"
using namespace vh;
using namespace knor::base;

struct It { const double* p; size_t n, i = 0; bool has_next() { return i < n; } double next() { return p[i++]; } }; // the row iterators the templates expect

struct MC { V sum; long long cnt = 0; bool fin = false; }; // one cluster of the model: exact sum, count
struct Model {
    unsigned k, d; std::vector<MC> c; V prev, pdist, sval; unsigned id = 0, zero = 0, one = 0; bool conv = false;
    Model(unsigned k, unsigned d) : k(k), d(d), c(k), prev(k * d), pdist(k), sval(k, std::numeric_limits<double>::max()) { for (auto& x : c) x.sum.assign(d, 0); }
    double val(unsigned a, unsigned j) const { return c[a].fin && c[a].cnt > 1 ? c[a].sum[j] / c[a].cnt : c[a].sum[j]; }
    V means() const { V r; for (unsigned a = 0; a < c.size(); a++) for (unsigned j = 0; j < d; j++) r.push_back(val(a, j)); return r; }
    bool open(unsigned a) const { return !c[a].fin; }
    bool allopen() const { for (auto& x : c) if (x.fin) return false; return true; }
    bool nonneg() const { for (auto& x : c) if (x.cnt < 0) return false; return true; }
    void put(unsigned a, const double* r, int s) { for (unsigned j = 0; j < d; j++) c[a].sum[j] += s * r[j]; c[a].cnt += s; }
};
static std::string compare(clusters& c, const Model& m, const std::string& type) {
    if (c.get_ncol() != m.d) return "get_ncol() is " + S(c.get_ncol());
    bool sp = type == "sparse";
    if (sp ? c.get_nclust() < m.c.size() : c.get_nclust() != m.c.size()) return "get_nclust() is " + S(c.get_nclust()) + ", expected " + S(m.c.size());
    if (c.size() != c.get_nclust() * m.d || c.get_means().size() != c.size() || c.get_num_members_v().size() != c.get_nclust() || c.get_complete_v().size() != c.get_nclust()) return "sizes disagree";
    for (unsigned a = 0; a < c.get_nclust(); a++) {
        bool in = a < m.c.size(); long long n = in ? m.c[a].cnt : 0; bool f = in && m.c[a].fin;
        if (c.get_num_members(a) != n || c.get_num_members_v()[a] != n) return "cluster " + S(a) + " reports " + S(c.get_num_members(a)) + " members, expected " + S(n);
        if (c.is_complete(a) != f || c.get_complete_v()[a] != f) return "cluster " + S(a) + " is reported " + (f ? "un" : "") + "finalised";
        for (unsigned j = 0; j < m.d; j++) { double e = in ? m.val(a, j) : 0, g = c.get(a * m.d + j); if (!near(g, e) || c.get_mean_rawptr(a)[j] != g || c.get_means()[a * m.d + j] != g) return "cluster " + S(a) + " column " + S(j) + " is " + fmt(g) + ", expected " + fmt(e); }
    }
    if (auto p = dynamic_cast<prune_clusters*>(&c)) {
        if (!near(p->get_prev_means(), m.prev)) return "previous means are " + fmt(p->get_prev_means()) + ", expected " + fmt(m.prev);
        for (unsigned a = 0; a < m.c.size(); a++) { if (p->get_prev_dist(a) != m.pdist[a]) return "movement of cluster " + S(a) + " is " + fmt(p->get_prev_dist(a)); if (p->get_s_val(a) != m.sval[a]) return "s value of cluster " + S(a) + " is " + fmt(p->get_s_val(a)); }
    }
    if (auto p = dynamic_cast<h_clusters*>(&c)) if (p->get_id() != m.id || p->get_zeroid() != m.zero || p->get_oneid() != m.one || p->has_converged() != m.conv) return "ids or state of the hierarchical clusters are wrong";
    return "";
}

struct Op { std::string name; std::function<bool(const Model&)> ok; std::function<void(clusters::ptr&, Model&)> run; };
static double RR[4][40] = {{1, 2, -4}, {-3, 5, 0.5}, {7, 0, 2}, {0.1, -0.3, 1}}; static const double* const R[4] = {RR[0], RR[1], RR[2], RR[3]}; // the columns from the fourth on are filled in by main
static clusters::ptr make(const std::string& t, unsigned k, unsigned d) {
    if (t == "prune") return prune_clusters::create(k, d);
    if (t == "hier") return h_clusters::create(k, d, 5, 6, 7);
    if (t == "sparse") return sparse_clusters::create(k, d);
    return clusters::create(k, d);
}
// a local accumulator to merge: row r in cluster a, and, when two, row s moved from cluster b to a
static clusters::ptr local(const std::string& t, unsigned k, unsigned d, unsigned a, unsigned b, bool two) {
    auto c = make(t, k, d); c->add_member(R[0], a); if (two) { It i{R[1], d}; if (t == "sparse") { c->add_member(R[1], a); c->remove_member(R[1], b); } else c->swap_membership(i, b, a); } return c;
}
static void local_m(Model& m, unsigned a, unsigned b, bool two) { m.put(a, R[0], 1); if (two) { m.put(a, R[1], 1); m.put(b, R[1], -1); } }

static std::vector<Op> ops_of(const std::string& t, unsigned k, unsigned d, unsigned nr) {
    std::vector<Op> o; bool sp = t == "sparse";
    auto add = [&](std::string n, std::function<bool(const Model&)> ok, std::function<void(clusters::ptr&, Model&)> run) { o.push_back(Op{n, ok, run}); };
    auto has = [](unsigned a) { return [a](const Model& m) { return a < m.c.size() && m.open(a); }; };
    // a sparse set may grow by more empty clusters than it needs
    auto grow = [](Model& m, unsigned a) { while (m.c.size() <= a) { MC x; x.sum.assign(m.d, 0); m.c.push_back(x); } };
    for (unsigned a = 0; a < k + (sp ? 1 : 0); a++) for (unsigned r = 0; r < nr; r++) {
        add("add(" + S(r) + "," + S(a) + ")", [a, sp](const Model& m) { return (sp && a >= m.c.size()) || m.open(a); }, [=](clusters::ptr& c, Model& m) { c->add_member(R[r], a); grow(m, a); m.put(a, R[r], 1); });
        add("remove(" + S(r) + "," + S(a) + ")", has(a), [=](clusters::ptr& c, Model& m) { c->remove_member(R[r], a); m.put(a, R[r], -1); });
        add("add_it(" + S(r) + "," + S(a) + ")", has(a), [=](clusters::ptr& c, Model& m) { It i{R[r], d}; c->add_member(i, a); m.put(a, R[r], 1); });
        add("remove_it(" + S(r) + "," + S(a) + ")", has(a), [=](clusters::ptr& c, Model& m) { It i{R[r], d}; c->remove_member(i, a); m.put(a, R[r], -1); });
    }
    for (unsigned a = 0; a < k; a++) for (unsigned b = 0; b < k; b++) {
        auto both = [=](const Model& m) { return m.open(a) && m.open(b); };
        add("swap(" + S(a) + "," + S(b) + ")", both, [=](clusters::ptr& c, Model& m) { c->swap_membership(R[0], a, b); m.put(a, R[0], -1); m.put(b, R[0], 1); });
        add("swap_it(" + S(a) + "," + S(b) + ")", both, [=](clusters::ptr& c, Model& m) { It i{R[1], d}; c->swap_membership(i, a, b); m.put(a, R[1], -1); m.put(b, R[1], 1); });
    }
    for (unsigned a = 0; a < k; a++) {
        add("finalize(" + S(a) + ")", [a](const Model& m) { return m.c[a].cnt >= 0; }, [=](clusters::ptr& c, Model& m) { c->finalize(a); m.c[a].fin = true; });
        add("unfinalize(" + S(a) + ")", [](const Model&) { return true; }, [=](clusters::ptr& c, Model& m) { c->unfinalize(a); m.c[a].fin = false; });
    }
    add("finalize_all", [](const Model& m) { return m.nonneg(); }, [](clusters::ptr& c, Model& m) { c->finalize_all(); for (auto& x : m.c) x.fin = true; });
    add("unfinalize_all", [](const Model&) { return true; }, [](clusters::ptr& c, Model& m) { c->unfinalize_all(); for (auto& x : m.c) x.fin = false; });
    add("clear", [](const Model&) { return true; }, [](clusters::ptr& c, Model& m) { c->clear(); for (auto& x : m.c) { x.sum.assign(m.d, 0); x.cnt = 0; x.fin = false; } });
    for (unsigned a = 0; a < k; a++) for (int two = 0; two < 2; two++) {
        auto op = [](const Model& m) { return m.allopen(); }; unsigned b = (a + 1) % k;
        add("peq(" + S(a) + "," + S(two) + ")", op, [=](clusters::ptr& c, Model& m) { auto l = local(t, k, d, a, b, two); c->peq(l); grow(m, std::max<unsigned>(k, sp ? c->get_nclust() : 0) - 1); local_m(m, a, b, two); });
        if (!sp) add("+=(" + S(a) + "," + S(two) + ")", op, [=](clusters::ptr& c, Model& m) { auto l = local(t, k, d, a, b, two); *c += *l; local_m(m, a, b, two); });
        if (!sp) add("parts(" + S(a) + "," + S(two) + ")", op, [=](clusters::ptr& c, Model& m) { auto l = local(t, k, d, a, b, two); c->means_peq(l->get_means().data()); std::vector<size_t> n(l->get_num_members_v().begin(), l->get_num_members_v().end()); c->num_members_v_peq(n.data()); local_m(m, a, b, two); });
    }
    if (sp) { // merge accumulators with more and with fewer clusters
        for (unsigned kk : {1u, k + 2}) add("peq_k" + S(kk), [](const Model& m) { return m.allopen(); }, [=](clusters::ptr& c, Model& m) { auto l = local(t, kk, d, kk - 1, 0, false); c->peq(l); grow(m, std::max<unsigned>(kk, c->get_nclust()) - 1); local_m(m, kk - 1, 0, false); });
        add("oob", [](const Model&) { return true; }, [](clusters::ptr& c, Model&) {
            unsigned n = c->get_nclust(); int thrown = 0; const double z[40] = {0}; const double* x = z;
            try { c->is_complete(n); } catch (oob_exception&) { thrown++; } try { c->num_members_peq(1, n); } catch (oob_exception&) { thrown++; } try { c->get_mean_rawptr(n); } catch (oob_exception&) { thrown++; } try { c->set_mean(x, 0); } catch (abstract_exception&) { thrown++; }
            if (thrown != 4) throw std::runtime_error("an access beyond the last cluster was accepted");
        });
        add("set_complete", [](const Model& m) { return m.c.size() < 6; }, [=](clusters::ptr& c, Model& m) { unsigned n = c->get_nclust(); if (n > 7) return; c->set_complete(n, false); grow(m, n); });
    } else {
        // start from given means: every cluster one member at its mean, as after a run that is continued
        for (int form = 0; form < 4; form++) add("set_mean" + S(form), [](const Model&) { return true; }, [=](clusters::ptr& c, Model& m) {
            V mv0; for (unsigned a = 0; a < k; a++) for (unsigned j = 0; j < d; j++) mv0.push_back(R[(a + 1) % 4][j]);
            const V mv = mv0; std::vector<size_t> one(k, form == 3 ? 3 : 1); c->clear(); c->set_num_members_v(one.data()); c->set_complete_all();
            if (form == 0 || form == 3) c->set_mean(mv); else if (form == 1) c->set_mean(mv.data());
            else for (unsigned a = 0; a < k; a++) { if (a == 0) { It i{mv.data(), d}; c->set_mean(i, 0); } else if (a == 1) c->set_mean(&mv[a * d], a); else { const V one_row(mv.begin() + a * d, mv.begin() + a * d + d); c->set_mean(one_row, a); } }
            for (unsigned a = 0; a < k; a++) { m.c[a].cnt = one[a]; m.c[a].fin = true; for (unsigned j = 0; j < d; j++) m.c[a].sum[j] = mv[a * d + j] * one[a]; }
        });
        add("assign", [](const Model&) { return true; }, [=](clusters::ptr& c, Model&) { auto n = make(t, k + 1, d); *n = *c; if (!(*n == *c) || n->get_complete_v() != c->get_complete_v()) throw std::runtime_error("a copy differs from its source"); if (t == "plain") c = n; else { auto b = clusters::create(1, 1); *b = *n; *c = *b; } });
        add("differ", [](const Model&) { return true; }, [=](clusters::ptr& c, Model& m) {
            auto n = clusters::create(k, d); *n = *c; unsigned a = k - 1; 
            n->num_members_peq(1, a); if (*n == *c) throw std::runtime_error("clusters with different counts compare equal");
            n->num_members_peq(-1, a); if (!(*n == *c)) throw std::runtime_error("equal clusters compare different");
            V e0(d, 0); V& e = e0; e[0] = m.val(a, 0); if (d > 1) { for (unsigned j = 1; j < d; j++) e[j] = m.val(a, j); e[d - 1] += 1; } else e[0] += 1;
            n->set_mean((const V&)e, a); if (*n == *c) throw std::runtime_error("clusters with different means compare equal");
        });
        add("scale", [](const Model& m) { return m.c[0].fin || m.c[0].cnt <= 1; }, [=](clusters::ptr& c, Model& m) { c->scale_centroid(0.25, 0, R[2]); for (unsigned j = 0; j < d; j++) { double f = m.c[0].fin && m.c[0].cnt > 1 ? m.c[0].cnt : 1; m.c[0].sum[j] = (0.75 * m.c[0].sum[j] / f + 0.25 * R[2][j]) * f; } });
    }
    if (t == "prune") {
        auto P = [](clusters::ptr& c) { return std::static_pointer_cast<prune_clusters>(c); }; auto any = [](const Model&) { return true; };
        add("prev_means", any, [=](clusters::ptr& c, Model& m) { P(c)->set_prev_means(); m.prev = m.means(); });
        for (unsigned a = 0; a < k; a++) { add("prev_dist" + S(a), any, [=](clusters::ptr& c, Model& m) { P(c)->set_prev_dist(a + 2.5, a); m.pdist[a] = a + 2.5; }); add("s_val" + S(a), any, [=](clusters::ptr& c, Model& m) { P(c)->set_s_val(a + 1.5, a); m.sval[a] = a + 1.5; }); }
        add("reset_s", any, [=](clusters::ptr& c, Model& m) { P(c)->reset_s_val_v(); m.sval.assign(m.k, std::numeric_limits<double>::max()); });
    }
    if (t == "hier") { auto any = [](const Model&) { return true; };
        add("id", any, [](clusters::ptr& c, Model& m) { c->set_id(m.id = m.id + 1); }); add("zero", any, [](clusters::ptr& c, Model& m) { c->set_zeroid(m.zero = m.zero + 10); }); add("one", any, [](clusters::ptr& c, Model& m) { c->set_oneid(m.one = m.one + 100); });
        add("conv", any, [](clusters::ptr& c, Model& m) { m.conv = !m.conv; c->set_converged(m.conv); }); }
    return o;
}

int main(int argc, char** argv) {
    h().init(argc, argv); bool th = h().thorough; std::string t = h().mode;
    for (int r = 0; r < 4; r++) for (int j = 3; j < 40; j++) RR[r][j] = (r * r + 3 * r * j + j * j) % 13 - 4.5;
    if (t == "merge") { // rows split over local accumulators, merged in every order
        for (unsigned n = 1; n <= (th ? 6u : 5u); n++) for (unsigned k = 1; k <= 3; k++) for (unsigned T = 1; T <= 3; T++) for (unsigned kind = 0; kind < 3; kind++) tuples(n, 0, k - 1, [&](const std::vector<int>& asg) {
            static const char* ty[] = {"plain", "prune", "sparse"};
            if (!h().next([&]() { return S(n) + " rows k=" + S(k) + " T=" + S(T) + " " + ty[kind] + " assigned " + fmt(asg); })) return;
            exec_ok("merge", [&]() { tuples(n, 0, T - 1, [&](const std::vector<int>& own) {
                std::vector<unsigned> order(T); for (unsigned i = 0; i < T; i++) order[i] = i;
                do {
                    Model m(k, 2); auto all = make(ty[kind], k, 2); std::vector<clusters::ptr> loc; for (unsigned i = 0; i < T; i++) loc.push_back(make(ty[kind], k, 2));
                    for (unsigned i = 0; i < n; i++) { const double r[2] = {R[i % 4][0] + i, R[i % 4][1]}; loc[own[i]]->add_member(r, asg[i]); m.put(asg[i], r, 1); }
                    for (unsigned i : order) { if (kind == 1) *all += *loc[i]; else all->peq(loc[i]); h().count("ops"); }
                    std::string e = compare(*all, m, ty[kind]);
                    if (e.empty()) { all->finalize_all(); for (auto& x : m.c) x.fin = true; e = compare(*all, m, ty[kind]); }
                    if (!e.empty()) { h().viol("merge", "owners " + fmt(own) + ": " + e); return; }
                } while (std::next_permutation(order.begin(), order.end()));
            }); });
            if (T > 1 && k > 1) h().count("nontrivial");
        });
        // larger shapes: rows dealt to clusters and accumulators in every way of a family, merged in every rotation
        for (auto& z : std::vector<std::vector<unsigned>>{{40, 9, 17, 7}, {100, 33, 3, 5}, {17, 2, 39, 16}, {700, 2, 3, 5}, {300, 280, 1, 4}, {70000, 2, 1, 2}}) for (unsigned kind = 0; kind < 3; kind++) for (unsigned a = 0; a < 3; a++) for (unsigned b = 1; b <= 4; b++) {
            unsigned n = z[0], k = z[1], d = z[2], T = z[3]; static const char* ty[] = {"plain", "prune", "sparse"};
            if (!h().next([&]() { return S(n) + " rows k=" + S(k) + " d=" + S(d) + " T=" + S(T) + " " + ty[kind] + " family " + S(a) + "," + S(b); })) continue;
            h().count("nontrivial");
            exec_ok("merge", [&]() { for (unsigned rot = 0; rot < T; rot++) {
                Model m(k, d); auto all = make(ty[kind], k, d); std::vector<clusters::ptr> loc; for (unsigned i = 0; i < T; i++) loc.push_back(make(ty[kind], k, d));
                for (unsigned i = 0; i < n; i++) { V r0; for (unsigned j = 0; j < d; j++) r0.push_back(R[i % 4][j] + i); const V& r = r0; unsigned q = (a * i * i + b * i) % k; loc[(b * i + a) % T]->add_member(r.data(), q); m.put(q, r.data(), 1); }
                for (unsigned i = 0; i < T; i++) { auto& l = loc[(i + rot) % T]; if (kind == 1) *all += *l; else all->peq(l); h().count("ops"); }
                std::string e = compare(*all, m, ty[kind]); if (e.empty()) { all->finalize_all(); for (auto& x : m.c) x.fin = true; e = compare(*all, m, ty[kind]); }
                if (!e.empty()) { h().viol("merge", e); return; }
            } });
        }
        h().finish(); 
    }
    const unsigned shapes[][2] = {{1, 1}, {1, 2}, {1, 3}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {9, 17}, {2, 39}, {17, 2}};
    for (auto& sh : shapes) {
        unsigned k = sh[0], d = sh[1];
        unsigned nr = k == 2 ? 2 : 1; auto ops = ops_of(t, k, d, nr); int depth = k > 9 ? 1 + th : d > 3 ? 2 : k == 1 ? (th ? 5 : 4) : k == 2 ? (d == 2 ? 4 : 3) + (th && d == 1) : (th ? 4 : 3); if (d == 3 && k == 1) depth = 3;
        { std::string e; auto c = make(t, k, d); Model m(k, d); if (t == "hier") { m.id = 5; m.zero = 6; m.one = 7; } e = compare(*c, m, t); if (!e.empty()) { if (h().next([&]() { return "fresh k=" + S(k) + " d=" + S(d); })) h().viol("fresh", e); } }
        for (size_t f = 0; f < ops.size(); f++) {
            if (!h().next([&]() { return t + " k=" + S(k) + " d=" + S(d) + " depth=" + S(depth) + " first " + ops[f].name; })) continue;
            exec_ok("clusters", [&]() {
                std::vector<int> seq(1, (int)f); bool bad = false; 
                // odometer over sequences; every prefix is checked when it is first reached
                std::function<void()> dfs = [&]() {
                    if (bad) return;
                    Model m(k, d); auto c = make(t, k, d); if (t == "hier") { m.id = 5; m.zero = 6; m.one = 7; }
                    std::string e;
                    for (size_t i = 0; i < seq.size(); i++) { 
                        if (!ops[seq[i]].ok(m)) { if (i + 1 == seq.size()) return; }
                        try { ops[seq[i]].run(c, m); } catch (std::exception& x) { e = std::string("exception: ") + x.what(); }
                        if (!e.empty()) break;
                    }
                    h().count("sequences"); h().count("ops", seq.size());
                    if (e.empty()) e = compare(*c, m, t);
                    if (!e.empty()) { std::string hs; for (int s : seq) hs += " " + ops[s].name; h().viol("clusters", "after" + hs + ": " + e); bad = true; return; }
                    if ((int)seq.size() == depth) return;
                    for (size_t o = 0; o < ops.size() && !bad; o++) { seq.push_back(o); dfs(); seq.pop_back(); }
                };
                dfs();
            });
            h().count("nontrivial");
        }
    }
    h().finish();
}
