// Fault points: every small run of every engine is repeated once per call it makes to the operating system or MPI (and, for
// each kind of call, once per point from which on all of them fail) with that call failing. Each must be reported or leave
// the result as it is.
#include "fault.hpp"
static void judge(const std::string& kind, vrt::End end, const std::string& detail, const std::string& caught, unsigned left, const Out& o, const Out& base, const std::vector<int>& sched = {}) {
    if (end == vrt::End::EXCEPTION || end == vrt::End::ASSERTION || (end == vrt::End::EXITED && detail != "exit(0)")) { h().count("ended"); return; }
    if (end != vrt::End::OK) { h().viol(kind + "/" + vrt::end_name(end), detail + (caught.empty() ? "" : " (" + caught + ")"), sched); return; }
    if (!caught.empty()) { if (left) h().viol(kind + "/threads", S(left) + " threads are left after the error (" + caught + ")", sched); h().count("reported"); return; }
    if (o.str() != base.str()) h().viol(kind + "/result", "the call failed, nothing was reported and the result is " + o.str() + ", without the failure " + base.str(), sched);
    h().count("unharmed");
}
static RunOut once(const Cfg& c, const Data& D, Out& o, std::string& caught, unsigned& left) {
    caught.clear(); left = 0; g_seen = 0; g_hit = false;
    RunOut r = exec([&]() {
        try { faults_armed = true; o = run_engine(c, D); faults_armed = false; }
        catch (std::exception& e) { faults_armed = false; caught = std::string("caught: ") + e.what(); left = vrt::live_threads(); } });
    faults_armed = false; return r;
}
static void one(const Cfg& c, const Data& D, int sched) {
    for (const char* kind : KINDS) {
        if (c.procs > 1 && !strcmp(kind, "memory")) continue; // a process that gives up while it is destroyed cannot tell the others
        g_kind = kind; g_at = -1; Out base; std::string caught; unsigned left;
        RunOut r0 = once(c, D, base, caught, left); if (!r0.ok() || !caught.empty()) { h().count("unfaulted_refused"); return; }
        const long calls = g_seen;
        for (int from = 0; from < 2; from++) for (long at = 0; at < calls; at++) {
            if (from && at + 1 == calls) continue; // the same as the single fault
            if (!h().next([&]() { return std::string(kind) + (from ? " from call " : " call ") + S(at) + " " + c.str() + " data=" + dspec(D); })) continue;
            g_at = at; g_from = from; Out o; RunOut r = once(c, D, o, caught, left); h().count(std::string("fault_") + kind); if (at > 0) h().count("nontrivial");
            judge(kind, r.end, r.detail, caught, left, o, base);
            if (!sched || !strcmp(kind, "memory") || !strcmp(kind, "fclose")) continue;
            // the same failure under every other schedule with few deviations
            vrt::Options op; op.budget = sched; op.horizon = 3000000; op.spurious = true; if (h().seconds > 0) op.max_seconds = std::max(0.05, h().seconds - (now() - h().t0));
            auto body = [&]() { caught.clear(); left = 0; g_seen = 0;
                try { faults_armed = true; o = run_engine(c, D); faults_armed = false; } catch (std::exception& e) { faults_armed = false; caught = std::string("caught: ") + e.what(); left = vrt::live_threads(); } };
            if (h().have_sched) { vrt::Result q = vrt::run(body, h().sched, op, true); faults_armed = false; judge(kind, q.end, q.detail, caught, left, o, base, q.choices); continue; }
            vrt::Stats st = vrt::explore(body, op, [&](vrt::Exec& e) { H::watch(); faults_armed = false; e.outcome = vrt::end_name(e.r->end); judge(kind, e.r->end, e.r->detail, caught, left, o, base, e.r->choices); });
            h().count("schedules", st.executions); h().count("points", st.points); if (st.capped) h().capped = true;
        }
        g_at = -1;
    }
}
int main(int argc, char** argv) {
    h().init(argc, argv); const std::string eng = h().mode; bool th = h().thorough; vrt::fault = fails;
    const bool dist = eng == "dist" || eng == "distp", omp = eng == "omp" || eng == "ompp", hier = eng == "hc" || eng == "xm" || eng == "gm", mb = eng == "mb";
    { Cfg c; c.eng = eng; c.cen = {0, 1}; c.src = "ptr"; c.dist = eng == "sk" ? "cos" : "eucl"; c.minsz = 1; if (dist) c.procs = 2; Data D = mk(3, 1, {0, 1, 2}); Out o; exec([&]() { o = run_engine(c, D); }); } // first use of the libraries
    struct Sh { size_t n, d; V x; }; std::vector<Sh> shapes = {{3, 1, {0, 1, 3}}, {5, 2, {1, 2, 1, 3, 8, 7, 9, 7, 4, 5}}};
    if (th) { shapes.push_back({1, 1, {2}}); shapes.push_back({7, 1, {0, 1, 1, 4, 5, 5, 9}}); shapes.push_back({9, 2, {1, 2, 1, 3, 8, 7, 9, 7, 4, 5, 0, 3, 7, 7, 2, 2, 5, 4}}); }
    for (auto& s : shapes) for (unsigned k : {1u, 2u, 3u}) for (unsigned T : {1u, 2u, 3u}) for (unsigned nodes : {1u, 2u}) for (const char* src : {"ptr", "file", "numa"}) for (const char* init : {"none", "forgy", "random", "kmeanspp"}) for (unsigned mi : {0u, 2u}) for (unsigned P : {1u, 2u, 3u}) {
        if (P > 1 && !dist) continue; if (nodes > T || k > s.n || (k == 1 && !th)) continue; if (mb && !mi) continue;
        if ((omp && src[0] != 'p') || (dist && src[0] != 'f') || (mb && src[0] == 'n')) continue; if (omp && (k < 2 || nodes > 1)) continue;
        if (!th && ((mi == 0 && init[0] != 'n') || (k == 3 && (T != 2 || init[0] != 'n')) || (T == 3 && s.n < 5))) continue;
        if ((hier && k == 3) || (init[0] != 'n' && init[0] != 'f' && (hier || eng == "fcm" || eng == "med"))) continue;
        Cfg c; c.eng = eng; c.k = hier ? 4 : k; c.T = T; c.nodes = nodes; c.mi = mi; c.src = src; c.init = init; c.procs = P; c.minsz = 1; c.mb = (unsigned)s.n; c.dist = eng == "sk" ? "cos" : "eucl"; c.tol = -1;
        if (init[0] == 'n') for (unsigned q = 0; q < (hier ? 2 : k); q++) for (size_t j = 0; j < s.d; j++) c.cen.push_back(q * 3 + 0.5 + j);
        Data D; D.n = s.n; D.d = s.d; D.x = s.x; one(c, D, omp ? 0 : s.n == 3 && T == 2 ? (th ? 3 : 2) : 0);
    }
    return h().finish();
}
