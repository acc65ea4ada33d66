// Fault points of the programs: a command line is repeated once per call to the operating system or MPI with that call
// failing. The program must end in an error or write the result it writes otherwise.
#define CLI_NO_MAIN
#include "cli.cpp"
#include "fault.hpp"
static void one(const Prog_& p, const Data& D, unsigned k, const Given& g) {
    SV a = spell(p, g, {"data.bin", S(D.n), S(D.d), S(k)}, name == "knord" ? 0 : 2);
    auto armed = [&]() { g_seen = 0; g_hit = false; faults_armed = true; Ended e = command(p, a); faults_armed = false; return e; };
    for (const char* kind : KINDS) {
        if (procs > 1 && !strcmp(kind, "memory")) continue;
        g_kind = kind; g_at = -1; fresh(D, k); Ended b = armed(); if (!b.success) { h().count("unfaulted_refused"); return; }
        const std::string want = get("out/put/cluster_t.yml"), files = listing(); const long calls = g_seen;
        for (int from = 0; from < 2; from++) for (long at = 0; at < calls; at++) {
            if (from && at + 1 == calls) continue;
            if (!h().next([&]() { return std::string(kind) + (from ? " from call " : " call ") + S(at) + " " + str(a) + " procs=" + S(procs) + " data=" + dspec(D); })) continue;
            fresh(D, k); g_at = at; g_from = from; Ended e = armed(); h().count(std::string("fault_") + kind); if (at > 0) h().count("nontrivial");
            const std::string got = get("out/put/cluster_t.yml");
            if (e.crashed) { h().viol(std::string(kind) + "/crash", e.how); continue; }
            if (!e.success) { h().count("ended"); if (got != "(absent)" && got != want) h().viol(std::string(kind) + "/left", "the program ends with " + e.how + " and leaves " + got + ", without the failure " + want); continue; }
            h().count("unharmed"); if (got != want) h().viol(std::string(kind) + "/result", "the call failed, the program ends in success and writes " + got + ", without the failure " + want);
        }
        g_at = -1;
    }
}
int main(int argc, char** argv) {
    h().init(argc, argv); if (!freopen("/dev/null", "w", stderr)) return 70; name = h().mode; bool th = h().thorough; Prog_ p = prog(name); dir = h().scratch + "/cli." + S(getpid()); vrt::fault = fails;
    std::vector<Data> ds = {mk(6, 2, {1, 1, 2, 2, 5, 1, 1, 5, 4, 4, 3, 1})}; if (th) ds.push_back(mk(7, 1, {3, 1, 1, 6, 2, 2, 9}));
    for (unsigned P : {1u, 2u}) { procs = P; if (P > 1 && name != "knord") continue;
        for (auto& D : ds) for (unsigned k : {2u, 3u}) for (const char* T : {"1", "2"}) {
            if (k == 3 && !th) continue; Given base; base.o['o'] = "OUT"; base.o['T'] = T; base.o['i'] = "2"; base.o['N'] = T; if (name == "kmeanspp") base.o['s'] = "2";
            std::vector<Given> gs = {base}; for (auto& o : p.opts) for (auto& v : o.values) if (!v.empty() && o.s != 'o' && o.s != 'T' && o.s != 'i' && o.s != 'N') { Given g = base; g.o[o.s] = v; gs.push_back(g); if (o.s == 'O') { g.o['P'] = "+"; gs.push_back(g); } if (o.s == 'C') for (auto& q : p.opts) if (q.s == 'P') { g.o['P'] = "+"; gs.push_back(g); } }
            for (auto& g : gs) one(p, D, k, g);
        }
    }
    wipe(dir); return h().finish();
}
