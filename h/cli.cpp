// The command-line programs: every small combination of options and spellings against the library, and nonsense command lines.
#include "engines.hpp"
#include "binding/kmeanspp.hpp"
#include <sys/stat.h>
#include <ftw.h>
#include <getopt.h>
#include <thread>
using namespace vh;
#define P(x) extern "C" int x(int, char**);
P(knori_main) P(mb_knori_main) P(medoids_main) P(skmeans_main) P(fcm_main) P(hmeans_main) P(xmeans_main) P(gmeans_main) P(kmeanspp_main) P(knord_main)
typedef std::vector<std::string> SV;
struct Opt { char s; const char* l; SV values; SV bad; }; // values: "" absent, "+" given without a value
struct Prog_ { int (*main)(int, char**); const char* kname; std::vector<Opt> opts; };
static const SV BADN = {"x", "2x", "", "-1", "1.5"}, BADR = {"x", ""};
static Prog_ prog(const std::string& n) {
    Opt T{'T', "num_thread", {"", "2"}, BADN}, I{'i', "iters", {"", "1", "2"}, BADN}, N{'N', "nnodes", {"", "1"}, BADN}, L{'l', "tol", {"", "0.5"}, BADR}, O{'o', "outdir", {"", "OUT"}, {"UNDERFILE", "FILE"}}, d2{'d', "dist", {"", "cos"}, {"nope", "Eucl", ""}}, d3{'d', "dist", {"", "cos", "taxi"}, {"nope", "Eucl", ""}},
        C{'C', "centersfn", {"", "CEN"}, {"SHORTCEN", "MISSING", "DIR", ""}}, t{'t', "init", {"", "forgy", "random"}, {"nope", "none", "Forgy", ""}}, sz{'s', "min_clust_size", {"", "1", "3"}, BADN};
    if (n == "knori") return {knori_main, "nclust", {T, I, N, L, O, d2, C, t, {'O', "omp", {"", "+"}, {}}, {'P', "prune", {"", "+"}, {}}}};
    if (n == "knord") return {knord_main, "", {T, I, N, L, O, d2, C, t, {'P', "", {"", "+"}, {}}}};
    if (n == "mb_knori") return {mb_knori_main, "nclust", {T, {'i', "iters", {"1", "2"}, BADN}, N, L, O, d2, C, t, {'M', "mb_size", {"", "2"}, BADN}}};
    if (n == "medoids") return {medoids_main, "nclust", {T, I, N, L, O, d3, C, {'s', "srate", {"", "1"}, BADR}}};
    if (n == "skmeans") return {skmeans_main, "nclust", {T, I, N, L, O, d2, C}};
    if (n == "fcm") return {fcm_main, "nclust", {T, {'i', "iters", {"1", "2"}, BADN}, N, L, O, d3, C, {'z', "fuzzindex", {"", "3"}, {"0", "1", "x", ""}}}};
    if (n == "hmeans") return {hmeans_main, "kmax", {T, I, N, L, O, d3, C, sz}};
    if (n == "xmeans") return {xmeans_main, "kmax", {T, I, N, L, O, d3, C, sz}};
    if (n == "gmeans") return {gmeans_main, "kmax", {T, I, N, L, O, d3, C, sz, {'S', "strictness", {"", "1"}, {"5", "-1", "x", "70000", ""}}}};
    if (n == "kmeanspp") return {kmeanspp_main, "nclust", {T, {'s', "num_starts", {"", "1", "3"}, BADN}, N, O, d2}};
    fprintf(stderr, "unknown program %s\n", n.c_str()); _exit(70);
}
static std::string name, dir; // the scratch directory of this process, also the working directory
static unsigned procs = 1; static int omp_max = 2;
static int wipe1(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
static void wipe(const std::string& d) { nftw(d.c_str(), wipe1, 8, FTW_DEPTH | FTW_PHYS); }
static std::string get(const std::string& fn) { std::string s; FILE* f = fopen(fn.c_str(), "rb"); if (!f) return "(absent)"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static void put(const std::string& fn, const V& v, size_t bytes = (size_t)-1) { FILE* f = fopen(fn.c_str(), "wb"); if (!f) { perror(fn.c_str()); _exit(70); } std::string s((const char*)v.data(), v.size() * 8); s.resize(std::min(bytes, s.size() + 64), 0); if (bytes == (size_t)-1) s.resize(v.size() * 8); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string listing() { std::string s; FTW* u = nullptr; (void)u; static std::string out; out.clear(); nftw(dir.c_str(), [](const char* p, const struct stat* st, int, struct FTW*) { if (S_ISREG(st->st_mode)) out += std::string(p).substr(std::string(dir).size()) + " "; return 0; }, 8, FTW_PHYS); return out; }
struct Ended { bool success = false, crashed = false; std::string how; uint64_t threads = 0, binds = 0, team = 0; };
static Ended command(const Prog_& p, const SV& args) {
    Ended e; auto& k = vrt::counters(); uint64_t a = k.threads_created, b = k.node_binds, c = k.omp_team; std::vector<int> rc(procs, 1);
    vrt::set_numa_nodes(2); vrt::set_omp_max_threads(omp_max);
    std::vector<SV> av(procs, args); std::vector<std::vector<char*>> pv(procs);
    for (unsigned r = 0; r < procs; r++) { av[r].insert(av[r].begin(), name); for (auto& s : av[r]) pv[r].push_back(&s[0]); pv[r].push_back(nullptr); }
    RunOut x = exec([&]() {
        if (name == "knord") vrt::mpi_run(procs, [&](int r) { optind = 0; opterr = 0; rc[r] = p.main((int)av[r].size(), pv[r].data()); });
        else rc[0] = p.main((int)av[0].size(), pv[0].data());
    }, 4000000);
    e.success = x.ok(); e.how = std::string(vrt::end_name(x.end)) + " " + x.detail;
    if (x.ok()) for (int r : rc) if (r) { e.success = false; e.how = "returns " + S(r); }
    if (x.end == vrt::End::EXITED && x.detail == "exit(0)") { e.success = true; }
    e.crashed = !x.ok() && x.end != vrt::End::EXITED && x.end != vrt::End::EXCEPTION && x.end != vrt::End::ASSERTION;
    e.threads = k.threads_created - a; e.binds = k.node_binds - b; e.team = k.omp_team - c;
    return e;
}
// what the library does with the same data and options
struct Given { std::map<char, std::string> o; };
static bool library(const Data& D, unsigned k, const Given& g, Cfg& c, Ended& e, std::string& text) {
    auto has = [&](char o) { auto i = g.o.find(o); return i != g.o.end() && !i->second.empty(); }; auto num = [&](char o, unsigned d) { return has(o) ? (unsigned)atol(g.o.at(o).c_str()) : d; };
    bool hier = name == "hmeans" || name == "xmeans" || name == "gmeans";
    c.k = k; c.mi = num('i', ~0u); c.T = num('T', std::max(1u, std::thread::hardware_concurrency())); c.nodes = num('N', 2); c.tol = has('l') ? atof(g.o.at('l').c_str()) : 1e-6; c.dist = has('d') ? g.o.at('d') : name == "skmeans" ? "cos" : name == "fcm" ? "sqeucl" : name == "medoids" ? "taxi" : "eucl"; c.src = "file"; c.procs = procs;
    c.init = has('t') ? g.o.at('t') : name == "knori" || name == "mb_knori" || name == "knord" || name == "kmeanspp" ? "kmeanspp" : "forgy";
    if (has('C')) { c.init = "none"; for (size_t i = 0; i < (hier ? 2 : k) * D.d; i++) c.cen.push_back(0.5 + (i * 5 + i / D.d) % 4); }
    c.eng = name == "knori" ? has('O') ? has('P') ? "omp" : "ompp" : has('P') ? "km" : "kmp" : name == "knord" ? has('P') ? "dist" : "distp" : name == "mb_knori" ? "mb" : name == "medoids" ? "med" : name == "skmeans" ? "sk" : name == "fcm" ? "fcm" : name == "hmeans" ? "hc" : name == "xmeans" ? "xm" : name == "gmeans" ? "gm" : "kpp";
    if (name == "mb_knori") c.mb = num('M', 100); if (name == "medoids") c.rate = has('s') ? atof(g.o.at('s').c_str()) : 0.2; if (name == "fcm") c.fuzz = num('z', 2); if (hier) c.minsz = num('s', 2); if (name == "gmeans") c.strict = num('S', 4);
    auto& kk = vrt::counters(); uint64_t a = kk.threads_created, b = kk.node_binds, t = kk.omp_team; Out o; RunOut x; vrt::set_omp_max_threads(omp_max = c.T);
    if (name == "kmeanspp") { vrt::set_numa_nodes(2); std::string fn = data_file(D, "lib"); x = exec([&]() { o = take(knor::base::kmeansPP(fn, D.n, D.d, k, num('s', 10), c.T, c.dist).second); }, 4000000); }
    else x = exec([&]() { o = run_engine(c, D); }, 40000000);
    e.success = x.ok(); e.how = std::string(vrt::end_name(x.end)) + " " + x.detail; e.threads = kk.threads_created - a; e.binds = kk.node_binds - b; e.team = kk.omp_team - t;
    if (!x.ok()) return true;
    std::vector<knor::llong_t> cnt(o.cnt.begin(), o.cnt.end()); knor::base::cluster_t ct(o.nrow, o.ncol, o.iters, o.k, o.asg.data(), cnt.data(), o.cen);
    std::string od = h().scratch + "/cmp." + S(getpid()); exec([&]() { ct.write(od); }); text = get(od + "/cluster_t.yml"); return true;
}
static std::string str(const SV& a) { std::string s; for (auto& x : a) s += x.empty() ? " ''" : " " + x; return name + s; }
static void fresh(const Data& D, unsigned k) {
    bool hier = name == "hmeans" || name == "xmeans" || name == "gmeans"; size_t kk = hier ? 2 : k;
    wipe(dir); mkdir(dir.c_str(), 0755); if (chdir(dir.c_str())) _exit(70); put("data.bin", D.x); put("short.bin", D.x, D.x.size() * 8 - 1); put("long.bin", D.x, D.x.size() * 8 + 1); put("empty.bin", {});
    V c; for (size_t i = 0; i < kk * D.d; i++) c.push_back(0.5 + (i * 5 + i / D.d) % 4); put("cen.bin", c); put("shortcen.bin", c, c.size() * 8 - 8); mkdir("adir", 0755);
}
static std::string file(const std::string& v) { return v == "CEN" ? "cen.bin" : v == "SHORTCEN" ? "shortcen.bin" : v == "MISSING" ? "absent.bin" : v == "DIR" ? "adir" : v == "OUT" ? "out/put" : v == "UNDERFILE" ? "data.bin/out" : v == "FILE" ? "data.bin" : v; }
// forms: 0 positional then short, 1 everything long with =, 2 everything short, last option first, 3 options before the positional arguments; knord: 0 and 2, 3 attached values
static SV spell(const Prog_& p, const Given& g, const SV& req, int form) {
    SV a, os; const char* L[] = {"--datafn", "--nsamples", "--dim"}; const char* s[] = {"-f", "-n", "-m", "-k"};
    if (name == "knord") { a = req; for (auto& o : p.opts) { auto i = g.o.find(o.s); if (i == g.o.end() || i->second.empty()) continue; SV one; if (i->second == "+") one = {std::string("-") + o.s}; else if (form == 3) one = {std::string("-") + o.s + file(i->second)}; else one = {std::string("-") + o.s, file(i->second)}; os.insert(form == 2 ? os.begin() : os.end(), one.begin(), one.end()); } a.insert(a.end(), os.begin(), os.end()); return a; }
    for (auto& o : p.opts) {
        auto i = g.o.find(o.s); if (i == g.o.end() || i->second.empty()) continue; bool flag = i->second == "+"; SV one;
        if (form == 1) one = {std::string("--") + o.l + (flag ? "" : "=" + file(i->second))}; else if (flag) one = {std::string("-") + o.s}; else one = {std::string("-") + o.s, file(i->second)};
        if (form == 2) os.insert(os.begin(), one.begin(), one.end()); else os.insert(os.end(), one.begin(), one.end());
    }
    if (form == 0) {
        a = req; auto M = g.o.find('M');
        if (name == "mb_knori" && M != g.o.end() && !M->second.empty() && os.size() && os[os.size() - 2] == "-M") { os.resize(os.size() - 2); a.push_back(M->second); } // its fifth positional argument
        a.insert(a.end(), os.begin(), os.end()); }
    else if (form == 3) { // a flag does not take what follows it
        a = os; a.insert(a.end(), req.begin(), req.end()); }
    else { for (size_t i = 0; i < req.size(); i++) if (form == 1) a.push_back((i < 3 ? std::string(L[i]) : std::string("--") + p.kname) + "=" + req[i]); else { a.push_back(s[i]); a.push_back(req[i]); } a.insert(form == 1 ? a.end() : a.begin(), os.begin(), os.end()); }
    return a;
}
static void valid(const Prog_& p, const Data& D, unsigned k, const Given& g, int form) {
    SV a = spell(p, g, {"data.bin", S(D.n), S(D.d), S(k)}, form);
    if (!h().next([&]() { return str(a) + " procs=" + S(procs) + " data=" + dspec(D); })) return;
    bool some = false; for (auto& o : g.o) some |= !o.second.empty() && o.first != 'o'; if (some) h().count("nontrivial");
    fresh(D, k); Cfg c; Ended l; std::string want; library(D, k, g, c, l, want);
    std::string before = listing(); Ended e = command(p, a); std::string got = get("out/put/cluster_t.yml");
    bool out = g.o.count('o') && !g.o.at('o').empty();
    if (e.success != l.success) { h().viol("ends", "the program: " + e.how + ", the library: " + l.how + " for " + c.str()); return; }
    if (e.crashed) { h().viol("crash", e.how); return; }
    if (!l.success) { h().count("refused"); if (got != "(absent)") h().viol("result", "a refused run leaves a result"); return; }
    if (!g.o.at('T').empty() && (e.threads != l.threads || e.binds != l.binds || e.team != l.team)) h().viol("parallelism", "threads, node bindings, team sizes: " + S(e.threads) + " " + S(e.binds) + " " + S(e.team) + " instead of " + S(l.threads) + " " + S(l.binds) + " " + S(l.team) + " for " + c.str());
    if (out ? got != want : got != "(absent)") h().viol("result", "writes " + got + " instead of " + want + " for " + c.str());
    std::string after = listing(); if (out) before += "/out/put/cluster_t.yml "; 
    SV x, y; auto split = [](const std::string& s, SV& v) { for (size_t p = 0; p < s.size();) { size_t q = s.find(' ', p); v.push_back(s.substr(p, q - p)); p = q + 1; } std::sort(v.begin(), v.end()); }; split(before, x); split(after, y);
    if (x != y) h().viol("files", "files afterwards: " + after);
}
static void nonsense(const Prog_& p, const Data& D, unsigned k, const SV& a, const std::string& what, bool error = true) {
    if (!h().next([&]() { return what + ": " + str(a) + " procs=" + S(procs); })) return;
    h().count("nontrivial"); fresh(D, k); std::string before = listing(); Ended e = command(p, a);
    if (e.crashed) h().viol("crash", what + ": " + e.how);
    else if (error && e.success) h().viol("accepted", what + " ends in success (" + e.how + ")");
    std::string after = listing(); if (after != before) h().viol("result", what + ": files afterwards: " + after);
}
#ifndef CLI_NO_MAIN
int main(int argc, char** argv) {
    h().init(argc, argv); if (!freopen("/dev/null", "w", stderr)) return 70; name = h().mode; bool th = h().thorough; Prog_ p = prog(name); dir = h().scratch + "/cli." + S(getpid());
    std::vector<Data> ds = {mk(6, 2, {1, 1, 2, 2, 5, 1, 1, 5, 4, 4, 3, 1}), mk(7, 1, {3, 1, 1, 6, 2, 2, 9}), mk(3, 2, {1, 0, 0, 2, 3, 3})}; if (th) { ds.push_back(mk(8, 3, {1, 1, 1, 2, 2, 1, 5, 1, 2, 1, 5, 1, 4, 4, 3, 1, 1, 2, 7, 1, 1, 3, 3, 1}));  }
    std::vector<unsigned> ps = {1}; if (name == "knord") ps = {1, 2}; if (name == "knord" && th) ps.push_back(3);
    for (unsigned P : ps) { procs = P;
        std::vector<Given> gs = {Given{}};
        for (auto& o : p.opts) { std::vector<Given> n; for (auto& g : gs) for (auto& v : o.values) { Given x = g; x.o[o.s] = v; if (o.s == 't' && !v.empty() && v[0] == 'f' && P > 1 && !th) continue; n.push_back(x); } gs = n; }
        for (size_t di = 0; di < ds.size(); di++) for (unsigned k : {2u, 3u}) {
                size_t i = 0; for (auto& g : gs) { i++; bool out = !g.o.at('o').empty(); if (!out && (i + di + k) % 7) continue; // without -o there is little to see
                for (int form = 0; form < 4; form++) { if (name == "knord" && form == 1) continue; if (!th && ((int)(i + i / 4 + i / 16) + (int)di + (int)k) % 4 != form) continue; valid(p, ds[di], k, g, form); } }
        }
        // more rows, which tell the defaults from values close to them: every single option, the others absent
        for (int big = 0; big < 3; big++) { Data B; B.n = big == 0 ? 1501 : big == 1 ? 211 : 150; B.d = big == 1 ? 2 : 1; for (size_t i = 0; i < B.n; i++) for (size_t j = 0; j < B.d; j++) B.x.push_back(big == 0 ? (double)i + 1 : (double)((i * i * 3 + i * (j + 1) * 7) % 997) + 1);
            for (unsigned kb : {2u, 20u, 70u}) if (big == 2 || kb < 70) for (auto& o : p.opts) for (auto& v : o.values) { if (v.empty() && o.s != 'o') continue;
                Given g; for (auto& q : p.opts) g.o[q.s] = q.s == 'T' ? "2" : ""; g.o['o'] = "OUT"; if (name == "mb_knori") g.o['i'] = "2"; if (name == "fcm") g.o['i'] = "150"; if (o.s != 'o') g.o[o.s] = v; if (o.s == 'o' && v.empty()) g.o['T'] = "3"; valid(p, B, kb, g, 0); } }
        // nonsense
        const Data& D = ds[0]; unsigned k = 2; Given none; none.o['o'] = "OUT"; if (name == "mb_knori" || name == "fcm") none.o['i'] = "1"; const SV req = {"data.bin", "6", "2", "2"};
        for (int form = 0; form < 4; form++) { if (name == "knord" && form == 1) continue;
            for (auto& v : {"absent.bin", "short.bin", "long.bin", "empty.bin", "adir", ""}) { SV r = req; r[0] = v; nonsense(p, D, k, spell(p, none, r, form), "wrong data file"); }
            for (auto& v : {"5", "7", "0", "-6", "x", "6x", "", "1.5", "3"}) { SV r = req; r[1] = v; nonsense(p, D, k, spell(p, none, r, form), "wrong number of rows"); }
            for (auto& v : {"1", "3", "0", "-2", "x", "2x", "", "1.5"}) { SV r = req; r[2] = v; nonsense(p, D, k, spell(p, none, r, form), "wrong number of columns"); }
            { SV r = req; r[0] = "empty.bin"; r[1] = "0"; nonsense(p, D, k, spell(p, none, r, form), "no rows"); r[1] = "3"; r[2] = "0"; nonsense(p, D, k, spell(p, none, r, form), "no columns"); }
            for (auto& v : {"0", "-1", "x", "2x", "", "1.5"}) { SV r = req; r[3] = v; nonsense(p, D, k, spell(p, none, r, form), "wrong number of clusters"); }
            for (auto& o : p.opts) for (auto& v : o.bad) { if (v.empty() && (form == 1 || (name == "knord" && form == 3))) continue; Given g = none; SV a; 
                if (v.empty()) { g.o.erase(o.s); a = spell(p, g, req, form); a.push_back(std::string("-") + o.s); a.push_back(""); } else { g.o[o.s] = v; a = spell(p, g, req, form); }
                nonsense(p, D, k, a, std::string("wrong value of -") + o.s); for (auto& f : p.opts) if (f.values.back() == "+") { SV b = a; b.insert(name == "knord" ? b.begin() + 4 : b.begin(), std::string("-") + f.s); nonsense(p, D, k, b, std::string("wrong value of -") + o.s); } }
            for (int miss = 1; miss < 16; miss++) { if (name == "knord" || form == 0 || form == 3) { SV r; for (int i = 0; i < 4; i++) if (!(miss >> i & 1)) r.push_back(req[i]); if (name == "knord" && form == 3) continue; if (name == "knord") none.o.clear(); nonsense(p, D, k, spell(p, name == "knord" ? Given{} : none, r, form), "missing arguments"); if (name == "knord") none.o['o'] = "OUT"; continue; }
                SV full = spell(p, none, req, form), a; for (size_t i = 0, q = 0; i < full.size(); i++) { bool r = form == 1 ? full[i].find("--datafn") == 0 || full[i].find("--nsamples") == 0 || full[i].find("--dim") == 0 || full[i].find(std::string("--") + p.kname) == 0 : full[i] == "-f" || full[i] == "-n" || full[i] == "-m" || full[i] == "-k"; bool drop = r && (miss >> q & 1); q += r; if (drop) { i += form != 1; continue; } a.push_back(full[i]); }
                nonsense(p, D, k, a, "missing arguments"); }
            for (auto& x : {"-q", "-Z", "--nope", "--nope=1", "--iter", "-"}) { if (name == "knord" && x[0] == '-' && !x[1]) continue; SV a = spell(p, none, req, form); if (std::string(x) == "-") continue; a.push_back(x); nonsense(p, D, k, a, "unknown option"); }
            for (auto& o : p.opts) { if (o.values.back() == "+") continue; Given g = none; g.o.erase(o.s); SV a = spell(p, g, req, form); a.push_back(std::string("-") + o.s); nonsense(p, D, k, a, "option without its value"); if (*o.l) { a.back() = std::string("--") + o.l; nonsense(p, D, k, a, "option without its value"); } }
            { SV a = spell(p, none, req, form); a.push_back("--help"); nonsense(p, D, k, a, "help", false); }
        }
        nonsense(p, D, k, {}, "no arguments", false); nonsense(p, D, k, {"--help"}, "help", false); nonsense(p, D, k, {"-h"}, "help", false);
    }
    wipe(dir); wipe(h().scratch + "/cmp." + S(getpid()));
    return h().finish();
}
#endif
