// Parameters: every name, boundary value and combination for every engine; nonsense ends in an error and never in a clustering,
// names select what they name.
#include "engines.hpp"
using namespace vh;
static std::string eng;
static bool hier() { return eng == "hc" || eng == "xm" || eng == "gm"; }
struct Res { bool done = false, bad = false; Out o; std::string how; std::string str() const { return done ? o.str() : how; } };
// done: a clustering was returned; bad: neither a clustering nor an error
static Res attempt(const Cfg& c, const Data& D) {
    Res r; bool thrown = false; std::string what;
    RunOut x = exec([&]() { try { r.o = run_engine(c, D); r.done = true; } catch (std::exception& e) { thrown = true; what = e.what(); } });
    if (!x.ok()) { r.done = false; r.how = std::string(vrt::end_name(x.end)) + " " + x.detail; r.bad = !(x.end == vrt::End::EXCEPTION || x.end == vrt::End::ASSERTION || x.end == vrt::End::EXITED); }
    else if (thrown) r.how = "refused: " + what;
    return r;
}
static void refused(const Cfg& c, const Data& D, const char* what) {
    Res r = attempt(c, D);
    if (r.done) h().viol("accepted", std::string(what) + " is accepted: " + r.o.str()); else if (r.bad) h().viol("crash", std::string(what) + ": " + r.how);
}
int main(int argc, char** argv) {
    h().init(argc, argv); eng = h().mode; bool th = h().thorough;
    const bool dist = eng == "dist" || eng == "distp", omp = eng == "omp" || eng == "ompp", seeded = eng == "km" || eng == "kmp" || eng == "sk" || omp || dist;
    const std::set<std::string> inits = seeded ? std::set<std::string>{"none", "forgy", "random", "kmeanspp"} : eng == "mb" ? std::set<std::string>{"none", "forgy", "kmeanspp", "random"} : std::set<std::string>{"none", "forgy"};
    std::set<std::string> dists = {"eucl", "cos", "taxi", "sqeucl"}; if (omp) { dists.erase("sqeucl"); dists.erase("taxi"); }
    std::vector<Data> ds = {mk(3, 2, {1, 0, 0, 2, 3, 3}), mk(4, 1, {0, 1, 2, 5}), mk(6, 2, {1, 1, 2, 2, 5, 1, 1, 5, 4, 4, 0, 3})}; if (th) { ds.push_back(mk(1, 1, {3})); ds.push_back(mk(8, 2, {1, 1, 1, 1, 2, 0, 0, 2, 3, 1, 1, 3, 4, 4, 5, 5})); ds.push_back(mk(5, 3, {1, 2, 3, 3, 2, 1, 0, 0, 1, 5, 5, 5, 1, 0, 1})); }
    auto base = [&](const Data& D, unsigned k) { Cfg c; c.eng = eng; c.k = k; c.mi = 2; c.mb = 2; c.procs = dist ? 2 : 1; c.init = inits.count("none") ? "none" : "forgy"; if (c.init == "none") for (size_t i = 0; i < (hier() ? 2 : std::max(1u, k)) * D.d; i++) c.cen.push_back(1 + (i * 7) % 5); return c; };
    auto next = [&](const std::string& what, const Cfg& c, const Data& D) { return h().next([&]() { return what + " " + c.str() + " data=" + dspec(D); }); };
    // every name, and near misses
    std::vector<std::string> names = {"none", "forgy", "random", "kmeanspp", "eucl", "cos", "taxi", "sqeucl", "", "None", "FORGY", "kmeans++", "forgy ", " forgy", "rand", "kmeansp", "kmeansppp", "eucl ", "Eucl", "euc", "cosine", "l2", "manhattan", "sqeuc", "\n"};
    { // every name cut, extended or with one character left out, doubled, replaced or in the other case
        std::vector<std::string> all(names.begin(), names.begin() + 8), more; std::set<std::string> have(names.begin(), names.end());
        for (auto& n : all) { for (const char* x : {"x", "1", " ", "s", "-", "eucl"}) { more.push_back(n + x); more.push_back(x + n); }
            for (size_t i = 0; i < n.size(); i++) { more.push_back(n.substr(0, i)); more.push_back(n.substr(i)); std::string e = n; e.erase(i, 1); more.push_back(e); e = n; e.insert(i, 1, n[i]); more.push_back(e); for (char x : {'x', (char)toupper(n[i]), (char)(n[i] + 1)}) { e = n; e[i] = x; more.push_back(e); } if (i + 1 < n.size()) { e = n; std::swap(e[i], e[i + 1]); more.push_back(e); } } }
        for (auto& n : more) if (have.insert(n).second) names.push_back(n);
    }
    for (auto& D : ds) for (unsigned T : {1u, 3u}) for (auto& n : names) {
        unsigned k = 2;
        for (int cen = 0; cen < 2; cen++) { // without and with centroids
            Cfg c = base(D, k); c.T = T; c.init = n; if (!cen) c.cen.clear(); else if (c.cen.empty()) c.cen.assign(k * D.d, 2);
            if (!next("initialisation", c, D)) continue; h().count("nontrivial");
            if (D.n < k) continue;
            if (!inits.count(n)) { refused(c, D, "the initialisation"); continue; }
            if (n == "none" && !cen && !omp) { refused(c, D, "no initialisation and no centroids"); continue; }
            if (n == "none") { Res r = attempt(c, D); if (!r.done) h().viol("rejected", "a valid initialisation is not accepted: " + r.how); continue; }
            Res r = attempt(c, D); if (!r.done) { if (!cen || r.bad) h().viol("rejected", "a valid initialisation is not accepted: " + r.how); continue; }
            if (cen) { Cfg p = c; p.cen.clear(); Res q = attempt(p, D); if (q.str() != r.str()) h().viol("centroids", "centroids given besides the initialisation change the result: " + r.str() + " instead of " + q.str()); }
        }
        Cfg c = base(D, k); c.T = T; c.dist = n; if (!next("distance", c, D)) continue; h().count("nontrivial"); if (D.n < k) continue;
        if (!dists.count(n)) refused(c, D, "the distance"); else { Res r = attempt(c, D); if (!r.done) h().viol("rejected", "a valid distance is not accepted: " + r.how); }
    }
    // boundary values
    for (auto& D : ds) for (unsigned T : {1u, 2u}) for (auto& in : inits) {
        auto cc = [&](unsigned k) { Cfg c = base(D, k); c.T = T; c.init = in; if (in != "none") c.cen.clear(); return c; };
        { Cfg c = cc(0); if (next("zero clusters", c, D)) refused(c, D, "k = 0"); }
        if (hier()) { Cfg c = cc(1); if (next("one cluster", c, D)) { Res r = attempt(c, D); if (r.bad) h().viol("crash", r.how); else if (r.done) { std::set<unsigned> s(r.o.asg.begin(), r.o.asg.end()); if (s.size() > 1) h().viol("limit", S(s.size()) + " clusters with a limit of 1"); } } }
        { Cfg c = cc(2); c.T = 0; if (next("zero threads", c, D)) { Res r = attempt(c, D); if (r.bad) h().viol("crash", "no threads: " + r.how); else if (r.done) { c.T = 1; Res q = attempt(c, D); if (q.str() != r.str()) h().viol("fallback", "no threads: " + r.str() + " instead of " + q.str()); } } }
        if (!omp) { Cfg c = cc(2); c.nodes = 0; if (next("zero nodes", c, D)) { Res r = attempt(c, D); if (r.bad) h().viol("crash", "no NUMA nodes: " + r.how); } }
        for (unsigned mi : {0u}) { Cfg c = cc(2); c.mi = mi; if (next("zero iterations", c, D)) { Res r = attempt(c, D); if (r.bad) h().viol("crash", "no iterations: " + r.how); else if (r.done && r.o.iters > 0) h().viol("limit", S(r.o.iters) + " iterations with a limit of 0"); } }
        for (unsigned k : {(unsigned)D.n, (unsigned)D.n + 1, (unsigned)D.n + 3}) { if (hier()) continue; Cfg c = cc(k); if (next("clusters per row", c, D)) { h().count("nontrivial"); Res r = attempt(c, D); if (r.bad) h().viol("crash", S(k) + " clusters: " + r.how); else if (r.done && eng != "fcm" && eng != "med" && eng != "sk" && eng != "mb") { std::string e = consistent(D, r.o, k); if (!e.empty()) h().viol("more-clusters", e + "; " + r.o.str()); } else if (r.done) { if (r.o.asg.size() != D.n) h().viol("more-clusters", r.o.str()); for (unsigned a : r.o.asg) if (a >= k) h().viol("more-clusters", r.o.str()); } } }
        if (eng == "fcm") for (unsigned f : {0u, 1u}) { Cfg c = cc(2); c.fuzz = f; if (next("fuzziness", c, D)) refused(c, D, "a fuzziness that is not above 1"); }
        if (eng == "med") for (double r : {0.0, -1.0, 0.1, 1.5, 100.0}) { Cfg c = cc(2); c.rate = r; if (next("sample rate", c, D)) { Res q = attempt(c, D); if (q.bad) h().viol("crash", "sample rate: " + q.how); } }
        if (hier()) for (unsigned ms : {0u, 1u, 100u}) { Cfg c = cc(4); c.minsz = ms; if (next("minimum size", c, D)) { Res q = attempt(c, D); if (q.bad) h().viol("crash", "minimum size: " + q.how); } }
        if (eng == "gm") for (unsigned st : {0u, 4u, 5u, 6u, 100u, 32768u, 65535u}) { Cfg c = cc(4); c.strict = st; if (next("strictness", c, D)) { Res q = attempt(c, D); if (q.bad) h().viol("crash", "strictness: " + q.how); else if (st > 4 && q.done) h().viol("accepted", "strictness " + S((short)st) + " is accepted"); else if (st <= 4 && !q.done) h().viol("rejected", "strictness " + S(st) + ": " + q.how); } }
        if (eng == "mb") for (unsigned mb : {0u, 1u, 1000u}) { Cfg c = cc(2); c.mb = mb; if (next("batch", c, D)) { Res q = attempt(c, D); if (q.bad) h().viol("crash", "batch size: " + q.how); } }
    }
    // an accepted distance is the one used: data on which the four disagree
    if (seeded || eng == "hc" || eng == "med") for (auto& dn : dists) tuples(6, 0, th ? 4 : 3, [&](const std::vector<int>& v) {
        if (eng == "sk") return;
        Data D = mk(3, 2, v); Cfg c = base(D, 2); c.dist = dn; c.mi = eng == "med" ? 0 : 1; c.cen = {1, 2, 3, 1}; c.T = 2;
        if (!next("metric", c, D)) return; std::set<U> alt; for (auto& t : dists) { U a; for (size_t i = 0; i < D.n; i++) a.push_back(rdist(D.row(i), &c.cen[0], 2, t) > rdist(D.row(i), &c.cen[2], 2, t)); alt.insert(a); }
        if (alt.size() > 1) h().count("nontrivial");
        Res r = attempt(c, D); if (!r.done) { h().viol("rejected", r.how); return; }
        std::string e = eng == "hc" ? "" : nearest(D, c.cen, 2, r.o.asg, dn);
        if (!e.empty()) h().viol("metric", e);
    });
    return h().finish();
}
